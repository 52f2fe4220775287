"""C17: HEADERS framing.  The headers encoder and decoder, each call from every state of the object's invariant."""
from ..seq import *
from .varint import BASE,bufpost,INCOMPLETE
from .frame import FRAME,FE,SK,split_len,DELEGATE,TYPES,MALFORMED
from .qpack import QPACK,QN,QL,ql_step,MALFORMED_HEADER,strpost
from .huffman import strkey
from .body import INTERNAL,IDLE,lay,chunks,listpost,fails,succeeds,byteat
DEPS=BASE+(FRAME,QPACK)
class HE:
    """a headers encoder: state, queued chunks, QPACK encoder.  Invariant: until the frame header is emitted the queued
    bytes are exactly those the QPACK encoder has counted; its prefix is ahead exactly when it has counted none; there
    is something queued in states frame and qpack"""
    def __init__(s,ex,st,p=None):
        sz,s.os,s.ob,s.oq,s.idle,s.frame,s.qpack,s.fin,s.qs,s.qc,s.qpre,s.qhdr=lay(ex,'vpsize_headers_encoder','vpoff_headers_encoder_state','vpoff_headers_encoder_buffers','vpoff_headers_encoder_qpack',
            *['vpval_headers_encoder_'+x for x in('idle','frame','qpack','fin')],'vpoff_qpack_encoder_state','vpoff_qpack_encoder_count','vpval_qpack_encoder_prefix','vpval_qpack_encoder_header')
        if p is None: p=stackobj(ex,st,sz,'encoder'); ex.call1(st,'vp_headers_encoder_new',[p])
        s.p=p; s.q=p.add(s.ob)
    def setq(s,ex,st,cnt,pre):
        ex.store(st,s.p.add(s.oq).add(s.qs),4,s.qpre if pre else s.qhdr); ex.store(st,s.p.add(s.oq).add(s.qc),8,cnt)
    def setup(s,ex,st):
        out=[]
        for name in('idle0','idle','frame','qpack','fin'):
            a=st.fork(); x=HS(s,name.rstrip('0')); x.o=None; x.N=bvv(0); x.pre=name=='idle0'; x.cnt=bvv(0)
            if name in('idle0','fin'): setg(ex,a,s.q,GBufs(()))
            else: x.o,x.N=chunks(ex,a,s.q); a.add(x.N!=0)
            if name in('idle','frame'): x.cnt=x.N
            if name in('qpack','fin'): x.cnt=ex.small(a,'count'); a.add(x.cnt!=0)
            ex.store(a,s.p.add(s.os),1,getattr(s,x.name)); s.setq(ex,a,x.cnt,x.pre); ex.unit.inputs['state']=lambda m,name=name: name
            out.append((a,x))
        return out
class HS:
    def __init__(s,e,name): s.e=e; s.name=name
    def at(s,ex): return (lambda j: ex.obyte(None,s.o,simp(bv(j,64)))) if s.o is not None else (lambda j: z3.BitVecVal(0,8))
    def post(s,ex,st,state,n,at,cnt,pre,what):
        e=s.e
        ex.oblige(st,simp(bv(byteat(ex,st,e.p.add(e.os),1),8)==getattr(e,state)),'postcondition',what+': state')
        listpost(ex,st,e.q,n,at,what)
        q=e.p.add(e.oq)
        ex.oblige(st,simp(z3.And(bv(ex.load(st,q.add(e.qs),4,('i',32)),32)==(e.qpre if pre else e.qhdr),bv(ex.load(st,q.add(e.qc),8,('i',64)),64)==bv(cnt,64))),'postcondition',what+': QPACK encoder state')
        ex.oblige(st,simp(bv(ex.call1(st,'vp_headers_encoder_finished',[e.p]),64)==(1 if state=='fin' else 0)),'postcondition','headers::encoder::finished: everything emitted')
    def same(s,ex,st,what): s.post(ex,st,s.name,s.N,s.at(ex),s.cnt,s.pre,what+' (refused)')
def field(ex,st):
    a=[]; k=[]
    for nm in('name','value'):
        n=ex.small(st,nm+'n'); o=ex.newbytes(st,n,'input',nm); a+=[Ptr(o.id,0),n]; k.append(tuple(strkey(ex,st,a[-2],n))+(n,))
        ex.unit.inputs[nm]=model_bytes(n,lambda i,o=o: ex.obyte(None,o,i)); ex.unit.inputs[nm+'len']=n
    return a,k
def go_add(ex):
    st=State(); e=HE(ex,st); what='headers::encoder::add'
    for st,x in e.setup(ex,st):
        a,k=field(ex,st); o=outp(ex,st); at=x.at(ex); l=QN(ex,st,*k); N=x.N
        for s,_ in ex.call(st,'vp_headers_encoder_add',[e.p,*a,o]):
            if x.name!='idle':
                if fails(ex,s,o,INTERNAL,what): x.same(ex,s,what)
                continue
            for s,low in ex.branch(s,l.low):
                if not low:
                    if fails(ex,s,o,MALFORMED_HEADER,what): x.same(ex,s,what)
                elif succeeds(ex,s,o,what):
                    P=2 if x.pre else 0; M=simp(N+P)
                    x.post(ex,s,'idle',simp(M+l.size),lambda j: z3.If(z3.ULT(j,N),bv(at(j),8),z3.If(z3.ULT(j,M),z3.BitVecVal(0,8),l.byte(simp(j-M)))),simp(M+l.size),0,what)
Unit('headers.encoder.add',('C17',),go_add,provides=('headers::encoder::add(header_view)',),contracts=DEPS)
def go_start(ex):
    st=State(); e=HE(ex,st); what='headers::encoder::fin'
    for st,x in e.setup(ex,st):
        o=outp(ex,st)
        for s,_ in ex.call(st,'vp_headers_encoder_start',[e.p,o]):
            if x.name!='idle' or x.pre:
                if fails(ex,s,o,INTERNAL,what): x.same(ex,s,what)
            elif succeeds(ex,s,o,what): x.post(ex,s,'frame',x.N,x.at(ex),x.cnt,x.pre,what)
Unit('headers.encoder.fin',('C17',),go_start,provides=('headers::encoder::fin()','headers::encoder::finished() const'),contracts=DEPS)
def go_encode(ex):
    st=State(); e=HE(ex,st); what='headers::encoder::encode'
    for st,x in e.setup(ex,st):
        o=outp(ex,st); b=stackobj(ex,st,40,'result'); at=x.at(ex); before=st.fork()
        for s,_ in ex.call(st,'vp_headers_encoder_encode',[e.p,b,o]):
            if x.name in('idle','fin'):
                if fails(ex,s,o,IDLE if x.name=='idle' else INTERNAL,what): x.same(ex,s,what)
            elif not succeeds(ex,s,o,what): continue
            elif x.name=='frame':
                f=FE(s,'headers',[x.N]); s.add(f.fits)
                bufpost(ex,s,b,f.size,f.byte,what+' (HEADERS header announcing the queued block)')
                x.post(ex,s,'qpack',x.N,at,x.cnt,x.pre,what)
            else:
                # the oldest chunk leaves, the rest stays
                g=getg(ex,s,b,GBuf,what)
                if g is None: continue
                if not ex.oblige(s,ule(g.ln,x.N),'postcondition',what+': emits queued bytes'): continue
                bufpost(ex,s,b,g.ln,lambda j: at(j),what+' (queued block in order)')
                rest=simp(x.N-bv(g.ln,64))
                for s,em in ex.branch(s,simp(rest==0)): x.post(ex,s,'fin' if em else 'qpack',rest,lambda j: at(simp(j+bv(g.ln,64))),x.cnt,x.pre,what)
Unit('headers.encoder.encode',('C17',),go_encode,provides=('headers::encoder::encode()',),contracts=DEPS)
# ---- decoder
class HD:
    def __init__(s,ex,st,p=None):
        sz,s.os,s.oz,s.oq,s.frame,s.qpack,s.fin,s.qs,s.qc,s.qpre,s.qhdr=lay(ex,'vpsize_headers_decoder','vpoff_headers_decoder_state','vpoff_headers_decoder_size','vpoff_headers_decoder_qpack',
            *['vpval_headers_decoder_'+x for x in('frame','qpack','fin')],'vpoff_qpack_decoder_state','vpoff_qpack_decoder_count','vpval_qpack_decoder_prefix','vpval_qpack_decoder_header')
        if p is None: p=stackobj(ex,st,sz,'decoder'); ex.call1(st,'vp_headers_decoder_new',[p])
        s.p=p
    def set(s,ex,st,name,size,cnt,pre):
        q=s.p.add(s.oq); ex.store(st,s.p.add(s.os),1,getattr(s,name)); ex.store(st,s.p.add(s.oz),8,size)
        ex.store(st,q.add(s.qs),4,s.qpre if pre else s.qhdr); ex.store(st,q.add(s.qc),8,cnt)
    def setup(s,ex,st):
        """(state, name, announced size, counted, prefix ahead)"""
        out=[]
        a=st.fork(); z=ex.fresh('junk',64); s.set(ex,a,'frame',z,0,1); out.append((a,'frame',z,0,1))
        for small in(1,0):
            for pre in(1,0):
                a=st.fork(); c=ex.small(a,'count') if not pre else bvv(0)
                if small: z=ex.small(a,'size',1<<49)
                else: z=ex.fresh('size',64); a.add(z3.UGT(z,1<<49)); a.add(z3.ULE(z,(1<<62)-1))
                a.add(z3.ULT(c,z)); s.set(ex,a,'qpack',z,c,pre); out.append((a,'qpack',z,c,pre))
        a=st.fork(); z=ex.small(a,'size',1<<49); s.set(ex,a,'fin',z,z,0); out.append((a,'fin',z,z,0))
        return out
    def at(s,ex,st,name,size,cnt,pre,what):
        q=s.p.add(s.oq)
        ex.oblige(st,simp(bv(byteat(ex,st,s.p.add(s.os),1),8)==getattr(s,name)),'postcondition',what+': state')
        ex.oblige(st,simp(bv(ex.call1(st,'vp_headers_decoder_started',[s.p]),64)==(0 if name=='frame' else 1)),'postcondition','headers::decoder::started: after the frame header')
        ex.oblige(st,simp(bv(ex.call1(st,'vp_headers_decoder_finished',[s.p]),64)==(1 if name=='fin' else 0)),'postcondition','headers::decoder::finished: exactly at the end of the block')
        if name!='frame': ex.oblige(st,simp(bv(ex.load(st,s.p.add(s.oz),8,('i',64)),64)==bv(size,64)),'postcondition',what+': announced length')
        ex.oblige(st,simp(z3.And(bv(ex.load(st,q.add(s.qs),4,('i',32)),32)==(s.qpre if pre else s.qhdr),bv(ex.load(st,q.add(s.qc),8,('i',64)),64)==bv(cnt,64))),'postcondition',what+': QPACK decoder state')
def headers_step(ex,st,name,size,cnt,pre,arr,e,L):
    """specification: (state, kind, error or QL, consumed, (state name, size, count, prefix ahead) after; None: not specified after this error)"""
    L=bv(L,64); out=[]; work=[]
    if name=='fin': return [(st,'err',INTERNAL,0,('fin',size,cnt,pre))]
    if name=='qpack': work=[(st,size,bvv(0))]
    else:
        k=SK(ex,st,arr,e)
        for s,t in ex.branch(st,simp(k.peeked(L))):
            if not t: out.append((s,'err',INCOMPLETE,0,('frame',size,cnt,pre))); continue
            for s2,d in ex.branch(s,k.type()==TYPES['headers']):
                if not d: out.append((s2,'err',DELEGATE,0,('frame',size,cnt,pre))); continue
                for s3,h in ex.branch(s2,simp(k.headed(L))):
                    if not h: out.append((s3,'err',INCOMPLETE,k.o,('frame',size,cnt,pre))); continue
                    for s4,n in split_len(ex,s3,k):
                        for s5,z in ex.branch(s4,simp(bv(n.val,64)==0)):
                            if z: out.append((s5,'err',MALFORMED,simp(k.o+k.d.h),('qpack',bvv(0),cnt,pre)))
                            else: work.append((s5,n.val,simp(k.o+k.d.h)))
    for s,z,b in work:
        for s2,kd,x,cn,c2,p2 in ql_step(ex,s,arr,simp(bv(e,64)+b),simp(L-b),pre,cnt):
            cons=simp(b+bv(cn,64))
            if kd=='err': out.append((s2,kd,x,cons,('qpack',z,c2,p2))); continue
            for s3,over in ex.branch(s2,simp(z3.UGT(bv(c2,64),bv(z,64)))):
                if over: out.append((s3,'err',MALFORMED,cons,('qpack',z,c2,p2))); continue
                for s4,eq in ex.branch(s3,simp(bv(c2,64)==bv(z,64))): out.append((s4,'ok',x,cons,('fin' if eq else 'qpack',z,c2,p2)))
    return out
def mk_decode(kind):
    def go(ex):
        u=ex.unit; st=State(); what='headers::decoder::decode'; on,ov,sz=lay(ex,'vpoff_header_name','vpoff_header_value','vpsize_header')
        p,v=mkseq(ex,st,kind,u); d=HD(ex,st)
        for st,name,size,cnt,pre in d.setup(ex,st):
            k=key(ex,st,v)
            for st2,kd,x,cn,aft in headers_step(ex,st,name,size,cnt,pre,k[0],k[1],v.L):
                o=outp(ex,st2); h=stackobj(ex,st2,sz,'result')
                for s,_ in ex.call(st2,'vp_headers_decode_'+kind,[d.p,p,h,o]):
                    if kd=='err':
                        if not fails(ex,s,o,x,what): continue
                    else:
                        if not succeeds(ex,s,o,what): continue
                        strpost(ex,s,h.add(on),x.nlen,x.nbyte,what+': name'); strpost(ex,s,h.add(ov),x.vlen,x.vbyte,what+': value')
                    after(ex,s,v,cn,what); d.at(ex,s,*aft,what)
    nm='headers::decoder::decode<%s>(%s&)'%(TNAME[kind],TNAME[kind])
    Unit('headers.decoder.decode.'+kind,('C17','C24'),go,provides=(nm,'headers::decoder::started() const','headers::decoder::finished() const'),contracts=DEPS)
for k in('buffer','buffers'): mk_decode(k)
