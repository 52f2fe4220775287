"""C16: DATA framing.  The body encoder and decoder, each call from every state of the object's invariant."""
from ..seq import *
from .varint import BASE,bufpost,INCOMPLETE,VARINT_OVERFLOW,MAX
from .frame import FRAME,FE,SK,D1,sk_at,split_len,DELEGATE,TYPES
INTERNAL=3; IDLE=(1<<62)+1
DEPS=BASE+(FRAME,)
def lay(ex,*names): return [const_global(ex.prog,ex,n) for n in names]
def chunks(ex,st,p,n=None,first=None,name='queued'):
    """an arbitrary chunk list of N bytes at p; with first, its oldest chunk has that many bytes"""
    N=ex.small(st,'N') if n is None else n
    o=ex.newbytes(st,N,'input',name)
    if first is None: setg(ex,st,p,GBufs(((o.id,0,N,'o'),)))
    else:
        st.add(z3.ULE(first,N)); setg(ex,st,p,GBufs(((o.id,0,first,'c'),(o.id,first,simp(N-first),'o'))))
    return o,N
def listpost(ex,st,p,n,at,what):
    """the chunk list at p has n bytes, byte j being at(j)"""
    g=getg(ex,st,p,GBufs,what)
    if g is None: return
    if not ex.oblige(st,simp(bv(g.size(),64)==bv(n,64)),'postcondition',what+': bytes queued'): return
    s=st.fork(); j=ex.fresh('j',64); mark_small(j); s.add(z3.ULT(j,bv(n,64)))
    if ex.feasible(s): ex.oblige(s,simp(bv(g.at(ex,s,j),8)==bv(at(j),8)),'postcondition',what+': content queued')
def byteat(ex,st,p,w): return ex.load(st,p,w,('i',8*w))
class BE:
    """a body encoder: state, fin_, queued bytes.  Invariant: state fin only after fin(), with nothing queued; in state
    data the announced chunk is the oldest one and something is queued"""
    def __init__(s,ex,st,p=None):
        sz,s.os,s.of,s.ob,s.frame,s.data,s.fin=lay(ex,'vpsize_body_encoder','vpoff_body_encoder_state','vpoff_body_encoder_fin','vpoff_body_encoder_buffers','vpval_body_encoder_frame','vpval_body_encoder_data','vpval_body_encoder_fin')
        if p is None: p=stackobj(ex,st,sz,'encoder'); ex.call1(st,'vp_body_encoder_new',[p])
        s.p=p; s.q=p.add(s.ob)
    def setup(s,ex,st):
        """list of states covering the invariant"""
        out=[]; u=ex.unit.inputs
        s.f=ex.fresh('ended',8); u['ended']=s.f; st.add(z3.ULE(s.f,1)); ex.store(st,s.p.add(s.of),1,s.f)
        a=st.fork(); x=BS(s,'frame'); ex.store(a,s.p.add(s.os),1,s.frame); x.o,x.N=chunks(ex,a,s.q); out.append((a,x))
        # fin() of an encoder with nothing queued finishes it: ended, nothing queued and still in state frame cannot be
        a.add(z3.Not(z3.And(s.f==1,x.N==0)))
        a=st.fork(); x=BS(s,'data'); ex.store(a,s.p.add(s.os),1,s.data); x.first=ex.small(a,'first'); x.o,x.N=chunks(ex,a,s.q,None,x.first); a.add(x.N!=0); out.append((a,x))
        a=st.fork(); x=BS(s,'fin'); ex.store(a,s.p.add(s.os),1,s.fin); a.add(s.f==1); setg(ex,a,s.q,GBufs(())); x.N=0; x.o=None; out.append((a,x))
        return out
class BS:
    def __init__(s,e,name): s.e=e; s.name=name; s.f=getattr(e,'f',None)
    def at(s,ex): 
        o=s.o
        return lambda j: ex.obyte(None,o,simp(bv(j,64))) if o is not None else z3.BitVecVal(0,8)
    def post(s,ex,st,state,fin,n,at,what):
        e=s.e
        ex.oblige(st,simp(bv(byteat(ex,st,e.p.add(e.os),1),8)==getattr(e,state) if isinstance(state,str) else bv(byteat(ex,st,e.p.add(e.os),1),8)==state),'postcondition',what+': state')
        ex.oblige(st,simp((bv(byteat(ex,st,e.p.add(e.of),1),8)&1)==bv(fin,8)),'postcondition',what+': ended mark')
        listpost(ex,st,e.q,n,at,what)
    def same(s,ex,st,what): s.post(ex,st,s.name,s.f,s.N,s.at(ex),what+' (refused)')
def fails(ex,s,o,code,what):
    if ex.oblige(s,simp(z3.Not(bl(okflag(ex,s,o)))),'postcondition',what+': fails when specified to fail'):
        ex.oblige(s,simp(bv(out(ex,s,o,-1),64)==code),'postcondition',what+': error code'); return not s.dead
    return False
def succeeds(ex,s,o,what): return ex.oblige(s,okflag(ex,s,o),'postcondition',what+': succeeds when specified to succeed')
def go_add(ex):
    st=State(); e=BE(ex,st); what='body::encoder::add'
    for st,x in e.setup(ex,st):
        n=ex.small(st,'n'); b=ex.newbytes(st,n,'input','chunk'); bp=stackobj(ex,st,40,'buffer'); setg(ex,st,bp,GBuf(b.id,0,n)); o=outp(ex,st)
        at=x.at(ex)
        for s,_ in ex.call(st,'vp_body_encoder_add',[e.p,bp,o]):
            for s,ended in ex.branch(s,x.f==1):
                if ended:
                    if fails(ex,s,o,INTERNAL,what): x.same(ex,s,what)
                elif succeeds(ex,s,o,what):
                    N=x.N
                    x.post(ex,s,x.name,0,simp(bv(N,64)+n),lambda j: z3.If(z3.ULT(j,bv(N,64)),bv(at(j),8),bv(ex.obyte(None,b,simp(j-bv(N,64))),8)),what)
Unit('body.encoder.add',('C16',),go_add,provides=('body::encoder::add(buffer)',),contracts=DEPS)
def go_fin(ex):
    st=State(); e=BE(ex,st); what='body::encoder::fin'
    for st,x in e.setup(ex,st):
        o=outp(ex,st)
        for s,_ in ex.call(st,'vp_body_encoder_end',[e.p,o]):
            if x.name=='fin':
                if fails(ex,s,o,INTERNAL,what): x.same(ex,s,what)
                continue
            if not succeeds(ex,s,o,what): continue
            for s,em in ex.branch(s,simp(bv(x.N,64)==0)):
                x.post(ex,s,'fin' if em else x.name,1,x.N,x.at(ex),what)
                ex.oblige(s,simp(bv(ex.call1(s,'vp_body_encoder_finished',[e.p]),64)==(1 if em else 0)),'postcondition','body::encoder::finished: ended and everything emitted')
Unit('body.encoder.fin',('C16',),go_fin,provides=('body::encoder::fin()','body::encoder::finished() const'),contracts=DEPS)
def go_encode(ex):
    st=State(); e=BE(ex,st); what='body::encoder::encode'
    for st,x in e.setup(ex,st):
        o=outp(ex,st); b=stackobj(ex,st,40,'result'); at=x.at(ex)
        for s,_ in ex.call(st,'vp_body_encoder_encode',[e.p,b,o]):
            fin=lambda s,v: ex.oblige(s,simp(bv(ex.call1(s,'vp_body_encoder_finished',[e.p]),64)==bv(v,64)),'postcondition','body::encoder::finished: ended and everything emitted')
            if x.name=='fin':
                if fails(ex,s,o,INTERNAL,what): x.same(ex,s,what); fin(s,1)
                continue
            if x.name=='frame':
                for s,em in ex.branch(s,simp(bv(x.N,64)==0)):
                    if em:
                        if fails(ex,s,o,IDLE,what): x.same(ex,s,what); fin(s,0)
                        continue
                    if not succeeds(ex,s,o,what): continue
                    g=getg(ex,s,e.q,GBufs,what)
                    if g is None: continue
                    n=g.p[0][2]; ex.oblige(s,1 if g.p[0][3]=='c' else 0,'postcondition',what+': announces the oldest chunk')
                    if s.dead: continue
                    f=FE(s,'data',[n]); s.add(f.fits)
                    bufpost(ex,s,b,f.size,f.byte,what+' (DATA header announcing the oldest chunk)')
                    x.post(ex,s,'data',x.f,x.N,at,what); fin(s,0)
                continue
            if not succeeds(ex,s,o,what): continue
            bufpost(ex,s,b,x.first,lambda j: ex.obyte(None,x.o,simp(bv(j,64))),what+' (the announced chunk)')
            rest=simp(bv(x.N,64)-x.first)
            for s,em in ex.branch(s,simp(z3.And(x.f==1,rest==0))):
                x.post(ex,s,'fin' if em else 'frame',x.f,rest,lambda j: at(simp(j+x.first)),what); fin(s,1 if em else 0)
Unit('body.encoder.encode',('C16',),go_encode,provides=('body::encoder::encode()',),contracts=DEPS)
# ---- decoder
class BD:
    def __init__(s,ex,st,p=None):
        sz,s.os,s.orr,s.frame,s.data=lay(ex,'vpsize_body_decoder','vpoff_body_decoder_state','vpoff_body_decoder_remaining','vpval_body_decoder_frame','vpval_body_decoder_data')
        if p is None: p=stackobj(ex,st,sz,'decoder'); ex.call1(st,'vp_body_decoder_new',[p])
        s.p=p
    def setup(s,ex,st):
        """states of the invariant, the outstanding payload either small or longer than every sequence"""
        out=[]
        a=st.fork(); ex.store(a,s.p.add(s.os),1,s.frame); ex.store(a,s.p.add(s.orr),8,ex.fresh('junk',64)); out.append((a,'frame',None))
        a=st.fork(); ex.store(a,s.p.add(s.os),1,s.data); r=ex.small(a,'remaining',1<<49); a.add(r!=0); ex.store(a,s.p.add(s.orr),8,r); out.append((a,'data',r))
        a=st.fork(); ex.store(a,s.p.add(s.os),1,s.data); r=ex.fresh('remaining',64); a.add(z3.UGT(r,1<<49)); a.add(z3.ULE(r,MAX)); ex.store(a,s.p.add(s.orr),8,r); out.append((a,'data',r))
        return out
    def at(s,ex,st,name,r,what):
        ex.oblige(st,simp(bv(byteat(ex,st,s.p.add(s.os),1),8)==getattr(s,name)),'postcondition',what+': state')
        ex.oblige(st,simp(bv(ex.call1(st,'vp_body_decoder_in_progress',[s.p]),64)==(1 if name=='data' else 0)),'postcondition','body::decoder::in_progress: exactly while payload is outstanding')
        if name=='data': ex.oblige(st,simp(bv(ex.load(st,s.p.add(s.orr),8,('i',64)),64)==bv(r,64)),'postcondition',what+': outstanding payload')
def body_step(ex,st,name,r,arr,e,L):
    """specification: (state, kind, error or (first byte, bytes returned), consumed, state after, outstanding after)"""
    L=bv(L,64); out=[]; base=bvv(0); work=[]
    if name=='data': work=[(st,r,bvv(0))]
    else:
        k=SK(ex,st,arr,e)
        for s,t in ex.branch(st,simp(k.peeked(L))):
            if not t: out.append((s,'err',INCOMPLETE,0,'frame',None)); continue
            for s2,d in ex.branch(s,k.type()==TYPES['data']):
                if not d: out.append((s2,'err',DELEGATE,0,'frame',None)); continue
                for s3,h in ex.branch(s2,simp(k.headed(L))):
                    if not h: out.append((s3,'err',INCOMPLETE,k.o,'frame',None)); continue
                    for s4,n in split_len(ex,s3,k): work.append((s4,n.val,simp(k.o+k.d.h)))
    for s,r,b in work:
        L2=simp(L-b)
        for s2,em in ex.branch(s,simp(z3.And(L2==0,bv(r,64)!=0))):
            if em: out.append((s2,'err',INCOMPLETE,b,'data',r)); continue
            for s3,part in ex.branch(s2,simp(z3.ULT(L2,bv(r,64)))):
                m=L2 if part else r
                out.append((s3,'ok',(b,m),simp(b+bv(m,64)),'data' if part else 'frame',simp(bv(r,64)-bv(m,64))))
    return out
def mk_decode(kind):
    def go(ex):
        u=ex.unit; st=State(); what='body::decoder::decode'
        p,v=mkseq(ex,st,kind,u); d=BD(ex,st)
        for st,name,r in d.setup(ex,st):
            k=key(ex,st,v)
            for st2,kd,x,cn,nm,rr in body_step(ex,st,name,r,k[0],k[1],v.L):
                o=outp(ex,st2); b=stackobj(ex,st2,40,'result')
                for s,_ in ex.call(st2,'vp_body_decode_'+kind,[d.p,p,b,o]):
                    if kd=='err':
                        if not fails(ex,s,o,x,what): continue
                    else:
                        if not succeeds(ex,s,o,what): continue
                        bufpost(ex,s,b,x[1],lambda j: v.at(simp(x[0]+bv(j,64))),what)
                    after(ex,s,v,cn,what); d.at(ex,s,nm,rr,what)
    nm='body::decoder::decode<%s>(%s&)'%(TNAME[kind],TNAME[kind])
    Unit('body.decoder.decode.'+kind,('C16','C24'),go,provides=(nm,'body::decoder::in_progress() const'),contracts=DEPS)
for k in('buffer','buffers'): mk_decode(k)
