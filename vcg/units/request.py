"""C18 / C19: message streams.  The sender and the receivers, each call from every state of the object's invariant."""
from ..seq import *
from .varint import BASE,bufpost,INCOMPLETE
from .frame import FRAME,FE,TYPES,MALFORMED,DELEGATE,sk_cases,SK
from .qpack import QPACK,QN,MALFORMED_HEADER,strpost
from .body import INTERNAL,IDLE,BE,BS,BD,lay,chunks,listpost,fails,succeeds,byteat,body_step
from .headers import HE,HS,HD,field,headers_step
DEPS=BASE+(FRAME,QPACK)
class RS:
    """a request sender.  Invariant: headers pending: body not yet being emitted; body: headers emitted; fin: both emitted"""
    def __init__(s,ex,st,handle=True):
        sz,s.oh,s.os,s.ohd,s.obd,s.oid,s.headers,s.body,s.fin=lay(ex,'vpsize_rsender','vpoff_rsender_handle','vpoff_rsender_state','vpoff_rsender_headers','vpoff_rsender_body','vpoff_rsender_id',*['vpval_rsender_'+x for x in('headers','body','fin')])
        s.p=stackobj(ex,st,sz,'sender'); s.id=ex.fresh('id',64); ex.unit.inputs['id']=s.id
        ex.call1(st,'vp_rsender_new',[s.p,s.id])
        s.H=HE(ex,st,s.p.add(s.ohd)); s.B=BE(ex,st,s.p.add(s.obd))
    def setup(s,ex,st,which=None):
        """(state, name, headers part, body part)"""
        out=[]
        for a,h in s.H.setup(ex,st):
            for b,x in s.B.setup(ex,a):
                for name in('headers','body','fin'):
                    if which and name not in which: continue
                    if name=='headers' and (h.name=='fin' or x.name=='data'): continue
                    if name!='headers' and h.name!='fin': continue
                    if name=='fin' and x.name!='fin': continue
                    c=b.fork(); ex.store(c,s.p.add(s.os),1,getattr(s,name)); out.append((c,name,h,x))
        return out
    def state(s,ex,st,name,what):
        ex.oblige(st,simp(bv(byteat(ex,st,s.p.add(s.os),1),8)==getattr(s,name)),'postcondition',what+': state')
        ex.oblige(st,simp(bv(ex.call1(st,'vp_rsender_finished',[s.p]),64)==(1 if name=='fin' else 0)),'postcondition','sender::finished: exactly after the end of the stream was sent')
        ex.oblige(st,simp(bv(ex.load(st,s.p.add(s.oid),8,('i',64)),64)==s.id),'postcondition',what+': stream id kept')
def event(ex,s,S,o,b,fin,n,at,what):
    """the result is a data event of the stream with that end mark and exactly those bytes"""
    if not succeeds(ex,s,o,what): return False
    ex.oblige(s,simp(bv(out(ex,s,o,0),64)==0),'postcondition',what+': a data event')
    ex.oblige(s,simp(bv(out(ex,s,o,1),64)==S.id),'postcondition',what+': stream id of the event')
    ex.oblige(s,simp(bv(out(ex,s,o,2),64)==(1 if fin else 0)),'postcondition',what+': end mark exactly on the last event')
    if s.dead: return False
    bufpost(ex,s,b,n,at,what)
    return not s.dead
def popped(ex,s,b,N,what):
    """bytes of the chunk that was emitted, known to be queued ones"""
    g=getg(ex,s,b,GBuf,what)
    if g is None or not ex.oblige(s,ule(g.ln,N),'postcondition',what+': emits queued bytes'): return None
    return g.ln
def mk_send(phase):
    def go(ex):
        st=State(); S=RS(ex,st); what='request sender::send'
        for st,name,h,x in S.setup(ex,st,(phase,)):
            o=outp(ex,st); b=stackobj(ex,st,40,'result'); hat=h.at(ex); xat=x.at(ex)
            for s,_ in ex.call(st,'vp_rsender_send',[S.p,b,o]):
                def hsame(s): h.post(ex,s,h.name,h.N,hat,h.cnt,h.pre,what)
                def xsame(s): x.post(ex,s,x.name,x.f,x.N,xat,what)
                if name=='fin':
                    if fails(ex,s,o,INTERNAL,what): hsame(s); xsame(s); S.state(ex,s,'fin',what)
                elif name=='headers':
                    if h.name=='idle':
                        if fails(ex,s,o,IDLE,what+' before the start'): hsame(s); xsame(s); S.state(ex,s,name,what)
                    elif h.name=='frame':
                        f=FE(s,'headers',[h.N]); s.add(f.fits)
                        if event(ex,s,S,o,b,0,f.size,f.byte,what+' (HEADERS header)'):
                            h.post(ex,s,'qpack',h.N,hat,h.cnt,h.pre,what); xsame(s); S.state(ex,s,name,what)
                    else:
                        if not succeeds(ex,s,o,what): continue
                        n=popped(ex,s,b,h.N,what)
                        if n is None: continue
                        rest=simp(h.N-bv(n,64))
                        for s2,em in ex.branch(s,simp(rest==0)):
                            fin=em and x.name=='fin'
                            if event(ex,s2,S,o,b,fin,n,lambda j: hat(j),what+' (field block)'):
                                h.post(ex,s2,'fin' if em else 'qpack',rest,lambda j: hat(simp(j+bv(n,64))),h.cnt,h.pre,what); xsame(s2)
                                S.state(ex,s2,('fin' if fin else 'body') if em else 'headers',what)
                else:
                    hsame(s)
                    if s.dead: continue
                    if x.name=='fin':
                        if event(ex,s,S,o,b,1,0,lambda j: z3.BitVecVal(0,8),what+' (end after the last data)'): xsame(s); S.state(ex,s,'fin',what)
                    elif x.name=='frame':
                        for s2,em in ex.branch(s,simp(bv(x.N,64)==0)):
                            if em:
                                if fails(ex,s2,o,IDLE,what+' with nothing queued'): xsame(s2); S.state(ex,s2,name,what)
                                continue
                            if not succeeds(ex,s2,o,what): continue
                            g=getg(ex,s2,x.e.q,GBufs,what)
                            if g is None: continue
                            n=g.p[0][2]; ex.oblige(s2,1 if g.p[0][3]=='c' else 0,'postcondition',what+': announces the oldest chunk')
                            f=FE(s2,'data',[n]); s2.add(f.fits)
                            if event(ex,s2,S,o,b,0,f.size,f.byte,what+' (DATA header)'):
                                x.post(ex,s2,'data',x.f,x.N,xat,what); S.state(ex,s2,name,what)
                    else:
                        rest=simp(bv(x.N,64)-x.first)
                        for s2,fin in ex.branch(s,simp(z3.And(x.f==1,rest==0))):
                            if event(ex,s2,S,o,b,fin,x.first,lambda j: xat(j),what+' (announced chunk)'):
                                x.post(ex,s2,'fin' if fin else 'frame',x.f,rest,lambda j: xat(simp(j+x.first)),what); S.state(ex,s2,'fin' if fin else 'body',what)
    Unit('request.sender.send.'+phase,('C18','C24'),go,provides=('endpoint::stream::request::sender::send()','endpoint::stream::request::sender::finished() const'),contracts=DEPS)
for ph in('headers','body','fin'): mk_send(ph)
def go_api(ex):
    """header, body, start and fin act on the encoder they name and on nothing else"""
    st0=State(); S=RS(ex,st0)
    for st,name,h,x in S.setup(ex,st0):
        hat=h.at(ex); xat=x.at(ex)
        def hsame(s,what): h.post(ex,s,h.name,h.N,hat,h.cnt,h.pre,what)
        def xsame(s,what): x.post(ex,s,x.name,x.f,x.N,xat,what)
        s0=st.fork(); what='request sender::header'
        a,k=field(ex,s0); o=outp(ex,s0); l=QN(ex,s0,*k); N=h.N
        for s,_ in ex.call(s0,'vp_rsender_header',[S.p,*a,o]):
            if h.name!='idle':
                if fails(ex,s,o,INTERNAL,what+' after the start'): hsame(s,what); xsame(s,what); S.state(ex,s,name,what)
                continue
            for s,low in ex.branch(s,l.low):
                if not low:
                    if not fails(ex,s,o,MALFORMED_HEADER,what): continue
                    hsame(s,what)
                else:
                    if not succeeds(ex,s,o,what): continue
                    P=2 if h.pre else 0; M=simp(N+P)
                    h.post(ex,s,'idle',simp(M+l.size),lambda j: z3.If(z3.ULT(j,N),bv(hat(j),8),z3.If(z3.ULT(j,M),z3.BitVecVal(0,8),l.byte(simp(j-M)))),simp(M+l.size),0,what)
                xsame(s,what); S.state(ex,s,name,what)
        s0=st.fork(); what='request sender::start'; o=outp(ex,s0)
        for s,_ in ex.call(s0,'vp_rsender_start',[S.p,o]):
            if h.name!='idle' or h.pre:
                if not fails(ex,s,o,INTERNAL,what): continue
                hsame(s,what)
            else:
                if not succeeds(ex,s,o,what): continue
                h.post(ex,s,'frame',h.N,hat,h.cnt,h.pre,what)
            xsame(s,what); S.state(ex,s,name,what)
        s0=st.fork(); what='request sender::body'; o=outp(ex,s0)
        n=ex.small(s0,'n'); c=ex.newbytes(s0,n,'input','chunk'); bp=stackobj(ex,s0,40,'buffer'); setg(ex,s0,bp,GBuf(c.id,0,n))
        for s,_ in ex.call(s0,'vp_rsender_body',[S.p,bp,o]):
            for s,ended in ex.branch(s,x.f==1):
                if ended:
                    if not fails(ex,s,o,INTERNAL,what+' after the end'): continue
                    xsame(s,what)
                else:
                    if not succeeds(ex,s,o,what): continue
                    X=bv(x.N,64)
                    x.post(ex,s,x.name,0,simp(X+n),lambda j: z3.If(z3.ULT(j,X),bv(xat(j),8),bv(ex.obyte(None,c,simp(j-X)),8)),what)
                hsame(s,what); S.state(ex,s,name,what)
        s0=st.fork(); what='request sender::fin'; o=outp(ex,s0)
        for s,_ in ex.call(s0,'vp_rsender_end',[S.p,o]):
            if x.name=='fin':
                if not fails(ex,s,o,INTERNAL,what): continue
                xsame(s,what); hsame(s,what); S.state(ex,s,name,what); continue
            if not succeeds(ex,s,o,what): continue
            for s,em in ex.branch(s,simp(bv(x.N,64)==0)): x.post(ex,s,'fin' if em else x.name,1,x.N,xat,what); hsame(s,what); S.state(ex,s,name,what)
Unit('request.sender.api',('C18',),go_api,provides=tuple('endpoint::stream::request::sender::'+x for x in('header(header_view)','body(buffer)','start()','fin()')),contracts=DEPS)
# ---- receivers
UNEXPECTED=0x13; WRONG_STREAM=0x0a; NOT_IMPLEMENTED=(1<<62)+3
def refused(role,started):
    """error for a frame that may not appear on a request stream, by type"""
    r={'data':UNEXPECTED,'settings':WRONG_STREAM,'max_push_id':WRONG_STREAM,'cancel_push':WRONG_STREAM,'goaway':WRONG_STREAM}
    if role=='client': r.update(push_promise=NOT_IMPLEMENTED,duplicate_push=NOT_IMPLEMENTED,priority=UNEXPECTED)
    else: r.update(push_promise=UNEXPECTED,duplicate_push=UNEXPECTED,priority=UNEXPECTED if started else NOT_IMPLEMENTED)
    return r
class RR:
    """a request receiver of a role.  Invariant: headers pending: body untouched; body, fin: headers decoder finished"""
    def __init__(s,ex,st,role):
        s.layout(ex,st,role)
        s.o,s.N=chunks(ex,st,s.q); s.f=ex.fresh('fin_received',8); st.add(z3.ULE(s.f,1)); ex.store(st,s.p.add(s.of),1,s.f)
        ex.unit.inputs['fin_received']=s.f
        s.v=view(ex,st,'buffers',s.q); s.v.basep=s.q; s.v.N=s.N; s.v.inobj=s.o.id
        ex.unit.inputs['seq']=model_bytes(s.v.L,s.v.at); ex.unit.inputs['seqlen']=s.v.L
    def layout(s,ex,st,role):
        sz,s.os,s.oq,s.of,s.ohd,s.obd,s.oid,s.closed,s.headers,s.body,s.fin=lay(ex,'vpsize_rrecv_'+role,'vpoff_rrecv_state','vpoff_rrecv_buffers','vpoff_rrecv_fin','vpoff_rrecv_headers','vpoff_rrecv_body','vpoff_rrecv_id',*['vpval_rrecv_'+x for x in('closed','headers','body','fin')])
        s.p=stackobj(ex,st,sz,'receiver'); s.id=ex.fresh('id',64); ex.unit.inputs['id']=s.id
        ex.call1(st,'vp_rrecv_new_'+role,[s.p,s.id])
        s.q=s.p.add(s.oq); s.H=HD(ex,st,s.p.add(s.ohd)); s.B=BD(ex,st,s.p.add(s.obd))
    def setup(s,ex,st,which):
        """(state, name, headers part, body part)"""
        out=[]
        for name in which:
            for a,*h in s.H.setup(ex,st):
                if (h[0]=='fin')!=(name in('body','fin')): continue
                if name=='closed' and h[0]!='frame': continue
                for b,nm,r in s.B.setup(ex,a):
                    if name!='body' and nm!='frame': continue
                    c=b.fork(); ex.store(c,s.p.add(s.os),1,getattr(s,name)); out.append((c,name,h,(nm,r)))
        return out
    def state(s,ex,st,name,what,fin=None):
        ex.oblige(st,simp(bv(byteat(ex,st,s.p.add(s.os),1),8)==getattr(s,name)),'postcondition',what+': state')
        for fn,nm in(('closed','closed'),('finished','fin')):
            ex.oblige(st,simp(bv(ex.call1(st,'vp_rrecv_'+fn,[s.p]),64)==(1 if name==nm else 0)),'postcondition','request receiver::%s'%fn)
        ex.oblige(st,simp(bv(ex.load(st,s.p.add(s.oid),8,('i',64)),64)==s.id),'postcondition',what+': stream id kept')
        ex.oblige(st,simp((bv(byteat(ex,st,s.p.add(s.of),1),8)&1)==(s.f if fin is None else bv(fin,8))),'postcondition',what+': end mark seen')
def receive_step(ex,st,S,role,name,h,b):
    """specification: (state, kind, value, consumed or 'all', state name after, headers part after, body part after)
    kind err: error code; header: (QL, end of headers); body: ((first,length), end); finished"""
    v=S.v; L=bv(v.L,64); out=[]; FIN=S.f==1
    if name=='closed': return [(st,'err',INTERNAL,0,name,h,b)]
    if name=='fin': return [(st,'finished',None,0,name,h,b)]
    k=key(ex,st,v)
    def delegate(s,h1,b1):
        for s2,kd,ty,x,cn in sk_cases(ex,s,v):
            if kd=='err':
                for s3,f in ex.branch(s2,simp(z3.And(FIN,bv(x,64)==INCOMPLETE))): out.append((s3,'err',MALFORMED if f else x,cn,name,h1,b1))
            elif ty=='headers':     # trailing headers end the message
                if name=='body': out.append((s2,'body',((0,0),1),'all','fin',h1,b1))
            else: out.append((s2,'err',refused(role,h1[0]!='frame').get(ty,INTERNAL),cn,name,h1,b1))
    if name=='headers':
        for s,kd,x,cn,aft in headers_step(ex,st,*h,k[0],k[1],L):
            if kd=='ok':
                over=aft[0]=='fin'
                for s2,f in ex.branch(s,simp(z3.And(FIN,bv(cn,64)==L))):
                    out.append((s2,'header',(x,over),cn,('fin' if f else 'body') if over else 'headers',aft,b))
            elif x==DELEGATE: delegate(s,aft,b)
            elif x==INCOMPLETE:
                for s2,f in ex.branch(s,FIN): out.append((s2,'err',MALFORMED if f else INCOMPLETE,cn,name,aft,b))
            else: out.append((s,'err',x,cn,name,aft,b))
        return out
    for s,kd,x,cn,nm,rr in body_step(ex,st,b[0],b[1],k[0],k[1],L):
        if kd=='ok':
            for s2,f in ex.branch(s,simp(z3.And(FIN,bv(cn,64)==L))):
                if f and nm=='data': out.append((s2,'err',MALFORMED,cn,name,h,(nm,rr)))       # the stream ends inside a frame
                else: out.append((s2,'body',(x,f),cn,'fin' if f else 'body',h,(nm,rr)))
        elif x==DELEGATE: delegate(s,h,(nm,rr))
        else:
            for s2,f in ex.branch(s,FIN):
                if not f: out.append((s2,'err',INCOMPLETE,cn,name,h,(nm,rr))); continue
                if nm=='data': out.append((s2,'err',MALFORMED,cn,name,h,(nm,rr))); continue
                # only complete frames of unknown type may follow the body
                w=simp(bv(cn,64)+SK(ex,s2,k[0],simp(bv(k[1],64)+bv(cn,64))).cut(ex,s2,simp(L-bv(cn,64))))
                for s3,z in ex.branch(s2,simp(w==L)):
                    if z: out.append((s3,'body',((0,0),1),w,'fin',h,(nm,rr)))
                    else: out.append((s3,'err',MALFORMED,w,name,h,(nm,rr)))
    return out
def mk_process(role,phase):
    def go(ex):
        st0=State(); S=RR(ex,st0,role); what='request receiver::process (%s)'%role; on,ov,sz=lay(ex,'vpoff_header_name','vpoff_header_value','vpsize_header')
        for st1,name,h,b in S.setup(ex,st0,(phase,)):
            for st,kd,x,cn,nm,h1,b1 in receive_step(ex,st1,S,role,name,h,b):
                o=outp(ex,st); hp=stackobj(ex,st,sz,'field'); bp=stackobj(ex,st,40,'bytes')
                for s,_ in ex.call(st,'vp_rrecv_process',[S.p,hp,bp,o]):
                    if kd=='err':
                        if not fails(ex,s,o,x,what): continue
                    else:
                        if not succeeds(ex,s,o,what): continue
                        ex.oblige(s,simp(bv(out(ex,s,o,0),64)=={'header':1,'body':2,'finished':3}[kd]),'postcondition',what+': kind of event')
                        ex.oblige(s,simp(bv(out(ex,s,o,1),64)==S.id),'postcondition',what+': stream id of the event')
                        if s.dead: continue
                        if kd!='finished':
                            ex.oblige(s,simp(bv(out(ex,s,o,2),64)==(1 if x[1] else 0)),'postcondition',what+': end mark of the event')
                            if s.dead: continue
                        if kd=='header': strpost(ex,s,hp.add(on),x[0].nlen,x[0].nbyte,what+': name'); strpost(ex,s,hp.add(ov),x[0].vlen,x[0].vbyte,what+': value')
                        if kd=='body': bufpost(ex,s,bp,x[0][1],lambda j: S.v.at(simp(bv(x[0][0],64)+bv(j,64))),what)
                    after(ex,s,S.v,S.v.L if isinstance(cn,str) else cn,what); S.state(ex,s,nm,what); S.H.at(ex,s,*h1,what); S.B.at(ex,s,b1[0],b1[1],what)
    Unit('request.receiver.process.%s.%s'%(role,phase),('C19','C24'),go,provides=('endpoint::stream::request::receiver::process()','%s::stream::request::receiver::process(frame)'%role,'endpoint::stream::request::receiver::closed() const','endpoint::stream::request::receiver::finished() const'),contracts=DEPS)
for role in('client','server'):
    for ph in('closed','headers','body','fin'): mk_process(role,ph)
def mk_recv(role):
    def go(ex):
        st0=State(); S=RR(ex,st0,role); v=S.v
        for st,name,h,b in S.setup(ex,st0,('closed','headers','body','fin')):
            def rest(s,what,nm=name,fin=None): S.state(ex,s,nm,what,fin); S.H.at(ex,s,*h,what); S.B.at(ex,s,b[0],b[1],what)
            what='request receiver::recv'
            s0=st.fork(); o=outp(ex,s0); n=ex.small(s0,'n'); c=ex.newbytes(s0,n,'input','chunk'); bp=stackobj(ex,s0,40,'buffer'); setg(ex,s0,bp,GBuf(c.id,0,n)); fin=ex.fresh('fin',64); s0.add(z3.ULE(fin,1))
            for s,_ in ex.call(s0,'vp_rrecv_recv',[S.p,ex.fresh('any',64),fin,bp,o]):
                for s,dup in ex.branch(s,S.f==1):
                    if dup:
                        if fails(ex,s,o,INTERNAL,what+' after the end'): after(ex,s,v,0,what); rest(s,what)
                    elif succeeds(ex,s,o,what):
                        listpost(ex,s,S.q,simp(bv(v.L,64)+n),lambda j: z3.If(z3.ULT(j,bv(v.L,64)),bv(v.at(j),8),bv(ex.obyte(None,c,simp(j-bv(v.L,64))),8)),what)
                        rest(s,what,fin=z3.Extract(7,0,fin))
            if name=='closed':
                what='request receiver::start'; s0=st.fork(); o=outp(ex,s0)
                for s,_ in ex.call(s0,'vp_rrecv_start',[S.p,o]):
                    if succeeds(ex,s,o,what): after(ex,s,v,0,what); rest(s,what,'headers')
    Unit('request.receiver.recv.'+role,('C19',),go,provides=('endpoint::stream::request::receiver::recv(quic::data)','endpoint::stream::request::receiver::start()'),contracts=DEPS)
for role in('client','server'): mk_recv(role)
def go_initial(ex):
    """a new object is in one of the states the other units start from"""
    Z=bvv(0); none=lambda j: z3.BitVecVal(0,8)
    def enc(st,H,B):
        h=HS(H,'idle'); h.post(ex,st,'idle',0,none,0,1,'new headers encoder'); x=BS(B,'frame'); x.post(ex,st,'frame',0,0,none,'new body encoder')
    def dec(st,H,B): H.at(ex,st,'frame',None,0,1,'new headers decoder'); B.at(ex,st,'frame',None,'new body decoder')
    st=State(); enc(st,HE(ex,st),BE(ex,st)); dec(st,HD(ex,st),BD(ex,st))
    st=State(); S=RS(ex,st); S.state(ex,st,'headers','new request sender'); enc(st,S.H,S.B)
    for role in('client','server'):
        st=State(); R=RR.__new__(RR); R.layout(ex,st,role); R.f=z3.BitVecVal(0,8)
        R.state(ex,st,'closed','new request receiver'); listpost(ex,st,R.q,0,none,'new request receiver'); dec(st,R.H,R.B)
Unit('request.initial',('C16','C17','C18','C19'),go_initial,provides=('endpoint::stream::request::sender::sender(u64)','client::stream::request::receiver::receiver(u64)','server::stream::request::receiver::receiver(u64)'),contracts=DEPS)
