"""C20: control streams.  Sender and receivers of both roles, each call from every state of the object."""
from ..seq import *
from .varint import BASE,bufpost,INCOMPLETE
from .frame import FRAME,FE,TYPES,VA,VE,va_split,sk_cases,MALFORMED,FACTS,VABS
from .qpack import QPACK
from .body import INTERNAL,IDLE,lay,chunks,listpost,fails,succeeds,byteat
from .request import UNEXPECTED,WRONG_STREAM,NOT_IMPLEMENTED
MISSING=0x12; CLOSED_CRITICAL=0x0f
ID={'client':2,'server':3}
def h_vencode(ex,st,a,n):
    dst,v=a; res=[]; ex.used.add(FACTS); e=VE(v)
    for x in e.ax: st.add(x)
    for s,t in ex.branch(st,int(v<1<<62) if isinstance(v,int) else simp(z3.ULT(bv(v,64),1<<62))):
        if t:
            o=content_obj(ex,s,simp(e.size),lambda st_,i: e.byte(i)); p=stackobj(ex,s,40,'encoded'); setg(ex,s,p,GBuf(o.id,0,simp(e.size))); ex.call1(s,'vpmk_buffer_ok',[dst,p])
        else: ex.call1(s,'vpmk_buffer_err',[dst,(1<<62)+4])
        res.append((s,None))
    return res
VENC={'varint::encode(u64)':h_vencode}
DEPS=BASE+(VABS,FRAME,VENC)
def defaults(ex,st,p):
    """the settings an endpoint announces, as the object was built"""
    return [ex.load(st,p.add(o),8,('i',64)) for o in(0,8,16,24)]
def mk_send(role):
    def go(ex):
        st0=State(); what='control sender::send (%s)'%role
        sz,os,ose,oid,*vals=lay(ex,'vpsize_csender_'+role,'vpoff_csender_state','vpoff_csender_settings','vpoff_csender_id','vpval_csender_type','vpval_csender_settings','vpval_csender_idle')
        p=stackobj(ex,st0,sz,'sender'); ex.call1(st0,'vp_csender_new_'+role,[p])
        ex.oblige(st0,simp(bv(byteat(ex,st0,p.add(os),1),8)==vals[0]),'postcondition','control sender starts with the stream type')
        ex.oblige(st0,simp(bv(ex.load(st0,p.add(oid),8,('i',64)),64)==ID[role]),'postcondition','control stream id of the role')
        fs=[ex.call1(st0,'vp_csender_setting',[p,i]) for i in range(4)]
        for i,name in enumerate(('type','settings','idle')):
            st=st0.fork(); ex.store(st,p.add(os),1,vals[i]); o=outp(ex,st); b=stackobj(ex,st,40,'bytes')
            for s,_ in ex.call(st,'vp_csender_send',[p,b,o]):
                if name=='idle':
                    if not fails(ex,s,o,IDLE,what): continue
                else:
                    if not succeeds(ex,s,o,what): continue
                    ex.oblige(s,simp(bv(out(ex,s,o,0),64)==0),'postcondition',what+': a data event')
                    ex.oblige(s,simp(bv(out(ex,s,o,1),64)==ID[role]),'postcondition',what+': stream id of the role')
                    ex.oblige(s,simp(bv(out(ex,s,o,2),64)==0),'postcondition',what+': never an end mark')
                    if s.dead: continue
                    if name=='type': e=VE(0); bufpost(ex,s,b,e.size,e.byte,what+': stream type')
                    else: f=FE(s,'settings',fs); bufpost(ex,s,b,f.size,f.byte,what+': one SETTINGS frame')
                ex.oblige(s,simp(bv(byteat(ex,s,p.add(os),1),8)==vals[min(i+1,2)]),'postcondition',what+': state')
                for j in range(4): ex.oblige(s,simp(bv(ex.call1(s,'vp_csender_setting',[p,j]),64)==bv(fs[j],64)),'postcondition',what+': settings kept')
    Unit('control.sender.send.'+role,('C20','C24'),go,provides=('endpoint::stream::control::sender::send()','%s::stream::control::sender::sender()'%role),contracts=DEPS)
def refused(role):
    r={'headers':WRONG_STREAM,'data':WRONG_STREAM,'push_promise':WRONG_STREAM,'duplicate_push':WRONG_STREAM,'settings':UNEXPECTED,'cancel_push':NOT_IMPLEMENTED}
    if role=='client': r.update(goaway=NOT_IMPLEMENTED,max_push_id=UNEXPECTED,priority=UNEXPECTED)
    else: r.update(goaway=UNEXPECTED,max_push_id=NOT_IMPLEMENTED,priority=NOT_IMPLEMENTED)
    return r
class CR:
    def __init__(s,ex,st,role):
        sz,s.os,s.oq,s.oid,s.type,s.settings,s.active=lay(ex,'vpsize_crecv_'+role,'vpoff_crecv_state','vpoff_crecv_buffers','vpoff_crecv_id','vpval_crecv_type','vpval_crecv_settings','vpval_crecv_active')
        s.p=stackobj(ex,st,sz,'receiver'); ex.call1(st,'vp_crecv_new_'+role,[s.p]); s.role=role
        s.q=s.p.add(s.oq); s.o,s.N=chunks(ex,st,s.q)
        s.v=view(ex,st,'buffers',s.q); s.v.basep=s.q; s.v.N=s.N; s.v.inobj=s.o.id
        ex.unit.inputs['seq']=model_bytes(s.v.L,s.v.at); ex.unit.inputs['seqlen']=s.v.L
    def state(s,ex,st,name,what):
        ex.oblige(st,simp(bv(byteat(ex,st,s.p.add(s.os),1),8)==getattr(s,name)),'postcondition',what+': state')
        ex.oblige(st,simp(bv(ex.call1(st,'vp_crecv_id',[s.p]),64)==ID['server' if s.role=='client' else 'client']),'postcondition','control receiver::id: the control stream of the peer')
def control_step(ex,st,C,name):
    """specification: (state, kind, error or settings, consumed (None: unspecified), state after)"""
    v=C.v; out=[]; work=[]; L=bv(v.L,64)
    if name=='type':
        k=key(ex,st,v)
        for s,x in va_split(ex,st,k[0],k[1]):
            for s2,t in ex.branch(s,z3.ULE(x.len,L)):
                if not t: out.append((s2,'err',INCOMPLETE,0,'type')); continue
                for s3,z in ex.branch(s2,simp(bv(x.val,64)==0)):
                    if not z: out.append((s3,'err',WRONG_STREAM,None,None))
                    else: work.append((s3,simp(x.len)))
    else: work=[(st,0)]
    for s,b in work:
        w=View('buffers',v.p,simp(L-bv(b,64)),lambda i,b=b: v.at(simp(bv(i,64)+bv(b,64))),None,None); w.k=key(ex,s,v); w.b=b
        for s2,kd,ty,x,cn in cases_at(ex,s,w):
            cons=simp(bv(cn,64)+bv(b,64)); after='settings' if name!='active' else 'active'
            if kd=='err': out.append((s2,'err',x,cons,after)); continue
            if name=='active': out.append((s2,'err',refused(C.role)[ty],cons,'active'))
            elif ty=='settings': out.append((s2,'settings',x,cons,'active'))
            else: out.append((s2,'err',MISSING,cons,'settings'))
    return out
def cases_at(ex,s,w): return sk_cases(ex,s,w,at=(w.k[0],simp(bv(w.k[1],64)+bv(w.b,64))))
def mk_process(role):
    def go(ex):
        st0=State(); C=CR(ex,st0,role); what='control receiver::process (%s)'%role; hsz,=lay(ex,'vpsize_header')
        C.state(ex,st0,'type','control receiver: first state')
        for name in('type','settings','active'):
            st1=st0.fork(); ex.store(st1,C.p.add(C.os),1,getattr(C,name))
            for st,kd,x,cn,nm in control_step(ex,st1,C,name):
                o=outp(ex,st); hp=stackobj(ex,st,hsz,'field'); bp=stackobj(ex,st,40,'bytes')
                for s,_ in ex.call(st,'vp_crecv_process',[C.p,hp,bp,o]):
                    if kd=='err':
                        if not fails(ex,s,o,x,what): continue
                    else:
                        if not succeeds(ex,s,o,what): continue
                        ex.oblige(s,simp(bv(out(ex,s,o,0),64)==0),'postcondition',what+': a settings event')
                        if s.dead: continue
                        for i in range(4): ex.oblige(s,simp(bv(out(ex,s,o,1+i),64)==bv(x[i],64)),'postcondition',what+': values of the settings')
                    if cn is not None: after(ex,s,C.v,cn,what); C.state(ex,s,nm,what)
        what='control receiver::recv (%s)'%role
        for name in('type','settings','active'):
            s0=st0.fork(); ex.store(s0,C.p.add(C.os),1,getattr(C,name)); v=C.v
            o=outp(ex,s0); n=ex.small(s0,'n'); c=ex.newbytes(s0,n,'input','chunk'); bp=stackobj(ex,s0,40,'buffer'); setg(ex,s0,bp,GBuf(c.id,0,n)); fin=ex.fresh('fin',64); s0.add(z3.ULE(fin,1))
            for s,_ in ex.call(s0,'vp_crecv_recv',[C.p,ex.fresh('any',64),fin,bp,o]):
                for s,f in ex.branch(s,fin==1):
                    if f:
                        if fails(ex,s,o,CLOSED_CRITICAL,what): C.state(ex,s,name,what)
                    elif succeeds(ex,s,o,what):
                        listpost(ex,s,C.q,simp(bv(v.L,64)+n),lambda j: z3.If(z3.ULT(j,bv(v.L,64)),bv(v.at(j),8),bv(ex.obyte(None,c,simp(j-bv(v.L,64))),8)),what); C.state(ex,s,name,what)
    Unit('control.receiver.process.'+role,('C20','C24'),go,provides=('endpoint::stream::control::receiver::process()','endpoint::stream::control::receiver::recv(quic::data)','%s::stream::control::receiver::process(frame)'%role,'%s::stream::control::receiver::receiver()'%role),contracts=DEPS)
for r in('client','server'): mk_send(r); mk_process(r)
