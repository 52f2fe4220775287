"""C23: message handles.  Invariant over all senders and handles: a handle names a sender iff that sender names the handle
(so each has at most one partner), and a handle obtained for a sender has its id.  Every special member is verified from
every configuration of the objects it can reach (an access to any other object is a memory-safety failure)."""
from ..seq import *
from .varint import BASE
from .qpack import QPACK
from .frame import FRAME
from .body import lay,fails,succeeds
from .request import RS
DEPS=BASE+(FRAME,QPACK)
SND='endpoint::stream::request::sender::'; INVALID=(1<<62)+7
class W:
    """a world of senders and handles"""
    def __init__(s,ex,st):
        s.ex=ex; s.sh,s.si=lay(ex,'vpoff_rsender_handle','vpoff_rsender_id'); s.hz,s.hi,s.hs=lay(ex,'vpsize_rhandle','vpoff_rhandle_id','vpoff_rhandle_sender')
    def sender(s,st): return RS(s.ex,st)
    def any_sender(s,st):
        """a sender whose state and whose encoders' states are arbitrary"""
        ex=s.ex; S=RS(ex,st)
        for p,x,vs in((S.p.add(S.os),S,('headers','body','fin')),(S.H.p.add(S.H.os),S.H,('idle','frame','qpack','fin')),(S.B.p.add(S.B.os),S.B,('frame','data','fin'))):
            a=ex.fresh('any',8); st.add(z3.Or([a==getattr(x,v) for v in vs])); ex.store(st,p,1,a)
        f=ex.fresh('any',8); st.add(z3.ULE(f,1)); ex.store(st,S.B.p.add(S.B.of),1,f)
        return S
    def handle(s,st,snd=None):
        """a handle; obtained for that sender or for none"""
        ex=s.ex; h=stackobj(ex,st,s.hz,'handle'); ex.call1(st,'vp_rhandle_new0',[h]); i=ex.fresh('hid',64)
        if snd is not None: i=snd.id
        ex.store(st,h.add(s.hi),8,i)
        if snd is not None: ex.store(st,h.add(s.hs),8,snd.p); ex.store(st,snd.p.add(s.sh),8,h)
        return h,i
    def fresh(s,st): return stackobj(s.ex,st,s.hz,'handle')
    def ptr(s,st,p): 
        x=s.ex.load(st,p,8,('ptr',)); return (x.obj,simp(x.off)) if isinstance(x,Ptr) else simp(x)
    def is_(s,st,at,want,what):
        got=s.ptr(st,at); w=0 if want is None else (want.obj,simp(want.off))
        if isinstance(got,tuple) and isinstance(w,tuple): ok=got[0]==w[0] and simp(bv(got[1],64)==bv(w[1],64))
        elif isinstance(got,tuple) or isinstance(w,tuple): ok=0
        else: ok=simp(bv(got,64)==0)
        return s.ex.oblige(st,int(ok) if isinstance(ok,bool) else ok,'postcondition',what)
    def hpost(s,st,h,snd,i,what):
        """handle h names that sender and has that id"""
        if i is not None: s.ex.oblige(st,simp(bv(s.ex.call1(st,'vp_rhandle_id',[h]),64)==bv(i,64)),'postcondition',what+': id of the handle')
        return s.is_(st,h.add(s.hs),snd,what+': sender of the handle')
    def spost(s,st,snd,h,what): return s.is_(st,snd.add(s.sh),h,what+': handle of the sender')
def opts(*a): return list(itertools.product((False,True),repeat=a[0]))
import itertools
def go_handle(ex):
    for old, in opts(1):
        what='handle(sender)'; st=State(); w=W(ex,st); S=w.any_sender(st); g=w.handle(st,S) if old else None; h=w.fresh(st)
        for s,_ in ex.call(st,'vp_rhandle_new',[h,S.p]):
            w.hpost(s,h,S.p,S.id,what); w.spost(s,S.p,h,what)
            if g: w.hpost(s,g[0],None,g[1],what+': an older handle of the sender')
    what='handle()'; st=State(); w=W(ex,st); h=w.fresh(st)
    for s,_ in ex.call(st,'vp_rhandle_new0',[h]): w.hpost(s,h,None,None,what)
    for a, in opts(1):
        what='handle(handle &&)'; st=State(); w=W(ex,st); S=w.any_sender(st); g=w.handle(st,S if a else None); h=w.fresh(st)
        for s,_ in ex.call(st,'vp_rhandle_move',[h,g[0]]):
            w.hpost(s,h,S.p if a else None,g[1],what); w.hpost(s,g[0],None,None,what+': moved from')
            w.spost(s,S.p,h if a else None,what)
        what='~handle()'; st=State(); w=W(ex,st); S=w.any_sender(st); g=w.handle(st,S if a else None)
        for s,_ in ex.call(st,'vp_rhandle_delete',[g[0]]): w.spost(s,S.p,None,what)
        what='handle = itself'; st=State(); w=W(ex,st); S=w.any_sender(st); g=w.handle(st,S if a else None)
        for s,_ in ex.call(st,'vp_rhandle_assign',[g[0],g[0]]): w.hpost(s,g[0],S.p if a else None,g[1],what); w.spost(s,S.p,g[0] if a else None,what)
    for a,b in opts(2):
        what='handle = handle &&'; st=State(); w=W(ex,st); S=w.any_sender(st); T=w.any_sender(st); h=w.handle(st,S if a else None); g=w.handle(st,T if b else None)
        for s,_ in ex.call(st,'vp_rhandle_assign',[h[0],g[0]]):
            w.hpost(s,h[0],T.p if b else None,g[1],what); w.hpost(s,g[0],None,None,what+': moved from'); w.spost(s,T.p,h[0] if b else None,what); w.spost(s,S.p,None,what+': former sender')
NAMES=tuple(SND+x for x in('handle::handle()','handle::handle(endpoint::stream::request::sender*)','handle::handle(endpoint::stream::request::sender::handle&&)','handle::operator=(endpoint::stream::request::sender::handle&&)','handle::~handle()','handle::id() const'))
Unit('handle.special',('C23',),go_handle,provides=NAMES,contracts=DEPS)
def kept(ex,w,s,S,p,i,name,h,x,hat,xat,what):
    """the sender at p is in the state that S was in"""
    R=RS.__new__(RS); R.__dict__.update(S.__dict__); R.p=p; R.id=i
    from .headers import HE,HS
    from .body import BE,BS
    R.H=HE(ex,s,p.add(S.ohd)); R.B=BE(ex,s,p.add(S.obd)); R.state(ex,s,name,what)
    hh=HS(R.H,h.name); hh.post(ex,s,h.name,h.N,hat,h.cnt,h.pre,what); xx=BS(R.B,x.name); xx.post(ex,s,x.name,x.f,x.N,xat,what)
def go_sender(ex):
    for a, in opts(1):
        st0=State(); w=W(ex,st0); S=w.sender(st0); g=w.handle(st0,S if a else None)
        for st,name,h,x in S.setup(ex,st0):
            hat=h.at(ex); xat=x.at(ex)
            what='sender(sender &&)'; s0=st.fork(); d=stackobj(ex,s0,ex_size(ex),'sender')
            for s,_ in ex.call(s0,'vp_rsender_move',[d,S.p]):
                w.hpost(s,g[0],d if a else None,g[1],what); w.spost(s,d,g[0] if a else None,what); w.spost(s,S.p,None,what+': moved from')
                kept(ex,w,s,S,d,S.id,name,h,x,hat,xat,what)
            what='~sender()'; s0=st.fork()
            for s,_ in ex.call(s0,'vp_rsender_delete',[S.p]): w.hpost(s,g[0],None,g[1],what)
            what='sender = itself'; s0=st.fork()
            for s,_ in ex.call(s0,'vp_rsender_assign',[S.p,S.p]):
                w.hpost(s,g[0],S.p if a else None,g[1],what); w.spost(s,S.p,g[0] if a else None,what); kept(ex,w,s,S,S.p,S.id,name,h,x,hat,xat,what)
def go_assign(ex):
    for a,b in opts(2):
        st0=State(); w=W(ex,st0); T=w.sender(st0); k=w.handle(st0,T if b else None); S=w.sender(st0); g=w.handle(st0,S if a else None)
        # the sender assigned over: its encoders in any state, with any chunks queued
        from .body import chunks
        for q in(T.H.q,T.B.q): chunks(ex,st0,q)
        for p in(T.p.add(T.os),T.H.p.add(T.H.os),T.B.p.add(T.B.os)): ex.store(st0,p,1,ex.fresh('any',8))
        ex.store(st0,T.H.p.add(T.H.oq).add(T.H.qs),4,ex.fresh('any',32)); ex.store(st0,T.H.p.add(T.H.oq).add(T.H.qc),8,ex.fresh('any',64)); f=ex.fresh('any',8); st0.add(z3.ULE(f,1)); ex.store(st0,T.B.p.add(T.B.of),1,f)
        for st,name,h,x in S.setup(ex,st0):
            hat=h.at(ex); xat=x.at(ex); what='sender = sender &&'
            for s,_ in ex.call(st,'vp_rsender_assign',[T.p,S.p]):
                w.hpost(s,g[0],T.p if a else None,g[1],what); w.spost(s,T.p,g[0] if a else None,what); w.spost(s,S.p,None,what+': moved from'); w.hpost(s,k[0],None,k[1],what+': handle of the sender assigned over')
                kept(ex,w,s,S,T.p,S.id,name,h,x,hat,xat,what)
def ex_size(ex): return lay(ex,'vpsize_rsender')[0]
Unit('sender.special',('C23',),go_sender,provides=tuple(SND+x for x in('sender(endpoint::stream::request::sender&&)','~sender()')),contracts=DEPS)
Unit('sender.assign',('C23',),go_assign,provides=(SND+'operator=(endpoint::stream::request::sender&&)',),contracts=DEPS)
# ---- operations through a handle
def reach(which):
    def h(ex,st,a,n):
        """the operation of a sender: notes its sender and arguments; succeeds or fails"""
        x=[a[0]]
        if which=='body':
            g=getg(ex,st,a[1],GBuf,which)
            if g is None: return []
            x.append(g)
        if which=='header': x.append([ex.load(st,a[1].add(8*j),8,('ptr',) if j%2==0 else ('i',64)) for j in range(4)])
        f=st.fork(); res=[]
        for s,ok in((st,True),(f,False)):
            e=None if ok else ex.fresh('err',64)
            r=ex.call1(s,'vpmk_void_ok',[]) if ok else ex.call1(s,'vpmk_void_err',[e])
            s.ghost['reached']=s.ghost.get('reached',())+((which,x,e),); res.append((s,r))
        return res
    return h
REACH={SND+'header(header_view)':reach('header'),SND+'body(buffer)':reach('body'),SND+'start()':reach('start'),SND+'fin()':reach('fin')}
def go_ops(ex):
    for a, in opts(1):
        for which,fn in(('header','header'),('body','body'),('start','start'),('fin','end')):
            what='handle::'+which; st=State(); w=W(ex,st); S=w.any_sender(st); g=w.handle(st,S if a else None); o=outp(ex,st); args=[]; n=ex.small(st,'n'); c=ex.newbytes(st,n,'input','chunk')
            if which=='body': bp=stackobj(ex,st,40,'buffer'); setg(ex,st,bp,GBuf(c.id,0,n)); args=[bp]
            if which=='header': m=ex.small(st,'m'); d=ex.newbytes(st,m,'input','value'); args=[Ptr(c.id,0),n,Ptr(d.id,0),m]
            for s,_ in ex.call(st,'vp_rhandle_'+fn,[g[0]]+args+[o]):
                R=s.ghost.get('reached',())
                w.hpost(s,g[0],S.p if a else None,g[1],what); w.spost(s,S.p,g[0] if a else None,what)
                if not a:
                    ex.oblige(s,int(len(R)==0),'postcondition',what+' without a sender: reaches none'); fails(ex,s,o,INVALID,what+' without a sender'); continue
                if not ex.oblige(s,int(len(R)==1 and R[0][0]==which),'postcondition',what+': one operation of the sender'): continue
                _,x,e=R[0]
                ex.oblige(s,simp(bv(x[0].off,64)==bv(S.p.off,64)) if x[0].obj==S.p.obj else 0,'postcondition',what+': of the sender of the handle')
                if which=='body': ex.oblige(s,simp(bv(x[1].ln,64)==n) if x[1].obj==c.id else 0,'postcondition',what+': with the bytes given'); ex.oblige(s,simp(bv(x[1].off,64)==0),'postcondition',what+': with the bytes given')
                if which=='header':
                    for j in(0,2): ex.oblige(s,simp(bv(x[1][j].off,64)==0) if isinstance(x[1][j],Ptr) and x[1][j].obj==args[j].obj else 0,'postcondition',what+': with the field given')
                    for j in(1,3): ex.oblige(s,simp(bv(x[1][j],64)==args[j]),'postcondition',what+': with the field given')
                if e is None: succeeds(ex,s,o,what)
                elif ex.oblige(s,simp(z3.Not(bl(okflag(ex,s,o)))),'postcondition',what+': fails with the sender'): ex.oblige(s,simp(bv(out(ex,s,o,-1),64)==e),'postcondition',what+': error of the sender')
Unit('handle.operations',('C23',),go_ops,provides=tuple(SND+'handle::'+x for x in('header(header_view)','body(buffer)','start()','fin()')),contracts=DEPS+(REACH,))
