"""The four byte-sequence types a decoder accepts, seen through one abstraction: length, byte i, consume."""
import z3
from .exec import *
from .smt import *
from .lib import *
from .unit import *

KINDS=('buffer','buffers','bufferla','buffersla')
TNAME={'buffer':'buffer','buffers':'buffers','bufferla':'buffer::lookahead','buffersla':'buffers::lookahead'}
def kind_of(short):
    """kind from a template instance name such as f<buffers::lookahead>(...)"""
    for k in('bufferla','buffersla','buffer','buffers'):
        if '<'+TNAME[k]+'>' in short: return k
    raise Unsupported('sequence kind of '+short)
class View:
    """abstract value of a sequence in a state"""
    def __init__(s,kind,p,L,at,off,oid): s.kind=kind; s.p=p; s.L=L; s.at=at; s.off=off; s.oid=oid
def view(ex,st,kind,p):
    if kind in('buffer','buffers'):
        g=getg(ex,st,p,GBuf if kind=='buffer' else GBufs,'sequence')
        if g is None: return None
        snap=st.mem.copy()
        fs=FakeState(st,snap)
        L=g.ln if kind=='buffer' else g.size()
        single=kind=='buffer' or len(g.p)==1
        off=(g.off if kind=='buffer' else g.p[0][1]) if single and (kind=='buffer' or g.p) else None
        oid=(g.obj if kind=='buffer' else g.p[0][0]) if off is not None else None
        return View(kind,p,L,lambda i,g=g,fs=fs: g.at(ex,fs,i),off,oid)
    L=ex.call1(st,'vp_%s_size'%kind,[p])
    x=ex.fresh('vx',64)
    f=st.fork(); f.owner=object()
    f.add(z3.ULT(x,bv(L,64)))
    nd=ex.dry; ex.dry+=1
    try:
        T=None
        if ex.feasible(f):
            r=ex.call(f,'vp_%s_at'%kind,[p,x])
            if len(r)!=1: raise Unsupported('lookahead element forks')
            T=bv(r[0][1],8)
    finally: ex.dry=nd
    def at(i):
        if T is None: return z3.BitVecVal(0,8)
        return simp(z3.substitute(T,(x,bv(i,64))))
    return View(kind,p,L,at,None,None)
def consume(ex,st,v,n):
    """list of states"""
    if v.kind=='buffer': lib_call(ex,st,'buffer::consume(u64)',[v.p,n]); return [] if st.dead else [st]
    if v.kind=='buffers':
        r=C['buffers::consume(u64)'](ex,st,[v.p,n],'')
        return [st] if r is None else [x for x,_ in r]
    r=ex.call(st,'vp_%s_consume'%v.kind,[v.p,n])
    return [x for x,_ in r]
def lib_call(ex,st,name,args): return C[name](ex,st,args,name)
def mkseq(ex,st,kind,unit=None,name='in'):
    """arbitrary sequence of that kind; returns (ptr to it, View)"""
    N=ex.small(st,'N')
    c1=c2=None
    if kind.endswith('la'):
        c1=ex.small(st,'c1'); c2=ex.small(st,'c2')
        N=N+c1+c2
    o=ex.newbytes(st,N,'input',name)
    base='buffer' if kind in('buffer','bufferla') else 'buffers'
    bp=stackobj(ex,st,40 if base=='buffer' else 24,base)
    setg(ex,st,bp,GBuf(o.id,0,N) if base=='buffer' else GBufs(((o.id,0,N,'o'),)))
    p=bp
    if kind.endswith('la'):
        p0=stackobj(ex,st,24,'lookahead0'); p=stackobj(ex,st,24,'lookahead')
        ex.call1(st,'vp_%s_mk'%kind,[p0,bp]); ex.call1(st,'vp_%s_consume'%kind,[p0,c1])
        ex.call1(st,'vp_%s_cp'%kind,[p,p0]); ex.call1(st,'vp_%s_consume'%kind,[p,c2])
    v=view(ex,st,kind,p)
    v.basep=bp; v.N=N; v.inobj=o.id
    if unit is not None:
        L0,at0=v.L,v.at
        unit.inputs['seq']=model_bytes(L0,at0)
        unit.inputs['seqlen']=L0
        unit.inputs['kind']=lambda m,kind=kind: kind
    return p,v
def after(ex,st,v0,consumed,what='input'):
    """obligations: exactly `consumed` bytes were taken, the rest is intact, a lookahead leaves its source alone"""
    v1=view(ex,st,v0.kind,v0.p)
    if v1 is None: return
    ex.oblige(st,simp(bv(v1.L,64)==bv(v0.L,64)-bv(consumed,64)),'postcondition','%s: number of bytes consumed'%what)
    if st.dead: return
    j=ex.fresh('j',64)
    s2=st.fork(); s2.add(z3.ULT(j,bv(v1.L,64)))
    ex.oblige(s2,simp(bv(v1.at(j),8)==bv(v0.at(simp(bv(consumed,64)+j)),8)),'postcondition','%s: remaining bytes unchanged'%what)
    if v0.kind.endswith('la') and hasattr(v0,'basep'):
        b=view(ex,st,'buffer' if v0.kind=='bufferla' else 'buffers',v0.basep)
        ex.oblige(st,simp(bv(b.L,64)==bv(v0.N,64)),'postcondition','%s: a lookahead does not consume from its source'%what)
def outcomes_post(ex,st,outs,ok,err,val,v0,what):
    """the observed result is the one the specification names; outs: list of (cond,'ok'|'err',value,consumed)"""
    for c,k,x,n in outs:
        s=st.fork(); s.add(c)
        if s.dead or not ex.feasible(s): continue
        if k=='err':
            if not ex.oblige(s,z3.Not(bl(ok)) if not isinstance(ok,int) else 1-ok,'postcondition',what+': fails when specified to fail'): continue
            if x is not None: ex.oblige(s,simp(bv(err,64)==bv(x,64)),'postcondition',what+': error code')
            if v0 is not None: after(ex,s,v0,n,what)
        else:
            if not ex.oblige(s,ok,'postcondition',what+': succeeds when specified to succeed'): continue
            if val is not None:
                for nm,a,b in val(s,x): ex.oblige(s,simp(bv(a,64)==bv(b,64)),'postcondition','%s: %s'%(what,nm))
            if v0 is not None: after(ex,s,v0,n,what)
def apply_outcomes(ex,st,outs):
    """handler side: fork on the specification's cases; yields (state,kind,value,consumed)"""
    res=[]; cur=st
    for i,(c,k,x,n) in enumerate(outs):
        br=ex.branch(cur,c if i<len(outs)-1 else (bl(c) if not isinstance(c,int) else c))
        nxt=None
        for s,t in br:
            if t: res.append((s,k,x,n))
            else: nxt=s
        if nxt is None: break
        cur=nxt
    return res
def key(ex,st,v):
    """(array term, absolute position) of a view over one symbolic input array; None when it is something else"""
    x=z3.BitVec('key!x',64)
    t=v.at(x)
    if z3.is_select(t) and t.arg(0).decl().kind()==z3.Z3_OP_UNINTERPRETED:
        return t.arg(0),simp(t.arg(1)-x)
    return None
_uf={}
def uf(name,*sorts):
    k=(name,)+tuple(str(x) for x in sorts)
    if k not in _uf: _uf[k]=z3.Function(name,*sorts)
    return _uf[k]
B64=z3.BitVecSort(64); B8=z3.BitVecSort(8); BOOL=z3.BoolSort(); ARR=z3.ArraySort(B64,B8)
