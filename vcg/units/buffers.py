"""C14: base::buffers over an abstract std::list<buffer> of any length.

The list is std::list by contract (begin, end, erase, emplace_back, iterators ...).  Its chunks are described by one byte
sequence X (the concatenation) and uninterpreted chunk boundaries P(0)=0 <= P(1) <= ... <= P(N)=|X|: chunk i is
X[P(i),P(i+1)), so any number of chunks of any sizes, empty ones included, is covered.  What an operation does to the
chunks is recorded by the index a of the first remaining one and the number c of bytes consumed: chunk i (i>=a) then is
X[max(P(i),c),max(P(i+1),c)); an effect that is not of this form is not supported (nothing is concluded).
Chunks are read through views of exactly their own bytes, so reading past the end of one is out of bounds."""
import re
from ..seq import *
from ..lib import BUFFER_CONTRACTS
Pf=z3.Function('chunk_start',B64,B64)
class GList(Ghost):
    nbytes=24
    def __init__(s,a,c,n,tail=()): s.a=a; s.c=c; s.n=n; s.tail=tuple(tail)
    def same(s,o): return eqt(s.a,o.a) and eqt(s.c,o.c) and eqt(s.n,o.n) and len(s.tail)==len(o.tail) and all(x.same(y) for x,y in zip(s.tail,o.tail))
    def __repr__(s): return 'GList(%s,%s,%s,%r)'%(s.a,s.c,s.n,s.tail)
    def havoc(s,ex,st):
        if s.tail: raise Unsupported('loop over a list with new chunks')
        a=mark_small(ex.fresh('la',64)); c=mark_small(ex.fresh('lc',64)); return GList(a,c,s.n),[('a',a,bv(s.a,64)),('c',c,bv(s.c,64))]
    def parts(s,ex,st):
        if s.tail: raise Unsupported('loop appends chunks')
        return {'a':bv(s.a,64),'c':bv(s.c,64)}
    def subst(s,f): return GList(f(s.a),f(s.c),s.n,s.tail)
def know(st,t):
    """facts about the boundary of chunk t: they do not decrease, and end at |X| from N on"""
    t=bv(t,64); L=st.ghost.get('idx',()); p=mark_small(Pf(t))
    if any(t.eq(x) for x in L): return
    N,T=st.ghost['NT']; st.add(z3.ULE(p,T)); st.add(z3.Implies(z3.ULE(N,t),p==T)); st.add(z3.Implies(t==0,p==0))
    for u in L: st.add(z3.Implies(z3.ULE(u,t),z3.ULE(Pf(u),p))); st.add(z3.Implies(z3.ULE(t,u),z3.ULE(p,Pf(u))))
    st.ghost['idx']=L+(t,)
def Q(st,i,c):
    if st is not None: know(st,i)
    p=mark_small(Pf(bv(i,64)))
    return p if isinstance(c,int) and c==0 else z3.If(z3.ULT(p,bv(c,64)),bv(c,64),p)
class L:
    """the world of one unit: a list of N chunks"""
    def __init__(s,ex):
        s.ex=ex; ex.contracts.update({n:s.lift(h) for n,h in BUFFER_CONTRACTS.items()})
        ex.contract_res=[(re.compile(r'^std::(__cxx11::)?list<buffer, std::allocator<buffer> >::'),s.h_list),(re.compile(r'^std::_List_(const_)?iterator<buffer>::operator(\+\+|--|->|\*)'),s.h_iter)]; ex._cres={}
        u=ex.unit; u.candidates=s.candidates; u.blob_candidates=s.blobs; u.loop_axioms=s.loop_axioms
    def start(s):
        ex=s.ex; st=State(); s.N=ex.small(st,'N'); s.T=ex.small(st,'T'); st.ghost['NT']=(s.N,s.T)
        s.X=ex.newbytes(st,s.T,'input','bytes'); s.nodes=ex.newobj(st,s.N,'input','list'); s.nodes.bytesmode=True; s.nodes.ro=True
        def no(st_,i): raise Unsupported('list nodes are abstract')
        s.nodes.base=no; know(st,0); know(st,s.N); st.add(Pf(s.N)==s.T)
        s.q=stackobj(ex,st,24,'buffers'); setg(ex,st,s.q,GList(0,0,s.N)); ex.unit.inputs['chunks']=s.N; ex.unit.inputs['bytes']=model_bytes(s.T,s.at)
        ex.unit.inputs['boundaries']=lambda m: [m.eval(Pf(z3.BitVecVal(i,64)),model_completion=True).as_long() for i in range(min(20,m.eval(s.N,model_completion=True).as_long()+1))]
        return st
    def at(s,i): return bv(s.ex.obyte(None,s.X,simp(bv(i,64))),8)
    def g(s,st): return getg(s.ex,st,s.q,GList,'chunk list')
    # ---- elements
    def elem(s,st,off):
        """GBuf of the chunk at index off, in a view of its own"""
        ex=s.ex; g=s.g(st); off=bv(off,64)
        for j,t in enumerate(g.tail):
            if ex.prove(st,off==bv(g.n,64)+j): return None,j
        if not ex.oblige(st,simp(z3.And(z3.ULE(bv(g.a,64),off),z3.ULT(off,bv(g.n,64)))),'memory','a chunk of the list'): return None,None
        if st.dead: return None,None
        for i,c,v in st.ghost.get('views',()):
            if i.eq(off) and eqt(c,g.c) and v[0] in st.mem: return v,None
        a=Q(st,off,g.c); b=Q(st,simp(off+1),g.c); n=simp(b-a); o=ex.newobj(st,n,'input','chunk'); o.bytesmode=True; o.ro=True
        if not isinstance(n,int): mark_small(n)
        o.base=lambda st_,i: s.at(bv(i,64)+a)
        v=(o.id,n); st.ghost['views']=st.ghost.get('views',())+((off,g.c,v),)
        return v,None
    def lift(s,h):
        def f(ex,st,a,name):
            sc=[]; b=list(a)
            for i,p in enumerate(a):
                if isinstance(p,Ptr) and p.obj==s.nodes.id:
                    e,j=s.elem(st,p.off)
                    if e is None and j is None: return None
                    q=stackobj(ex,st,40,'chunk'); g=s.g(st); x=GBuf(e[0],0,e[1]) if e else g.tail[j]; setg(ex,st,q,x); b[i]=q; sc.append((p,q,x,e,j))
            if not sc: return h(ex,st,a,name)
            r=h(ex,st,b,name)
            if st.dead: return r
            for p,q,x,e,j in sc:
                if not hasg(ex,st,q,GBuf): raise Unsupported('a chunk is destroyed in place')
                y=getg(ex,st,q,GBuf,'chunk')
                if not y.same(x): s.changed(st,p.off,x,y,e,j)
                if isinstance(r,Ptr) and r.obj==q.obj: r=p
            return r
        return f
    def changed(s,st,off,x,y,e,j):
        """a chunk lost bytes at its front"""
        ex=s.ex; g=s.g(st)
        if e is None: setg(ex,st,s.q,GList(g.a,g.c,g.n,g.tail[:j]+(y,)+g.tail[j+1:])); return
        if y.obj is None: d=e[1]
        elif y.obj==x.obj and ex.prove(st,bv(y.off,64)+bv(y.ln,64)==bv(e[1],64)): d=y.off
        else: raise Unsupported('a chunk is given other bytes')
        if ex.prove(st,bv(d,64)==0): return
        off=bv(off,64)
        if not ex.prove(st,z3.ULE(Pf(off),bv(g.c,64))) and not ex.dry:      # (dry runs only look for invariants)
            # bytes behind others are removed: only the front of the sequence may be
            raise Unsupported('bytes are removed from a chunk that is not the first with bytes')
        setg(ex,st,s.q,GList(g.a,addo(g.c,d),g.n,g.tail))
    # ---- std::list
    def h_list(s,ex,st,a,n):
        f=re.search(r'::(~?\w+|operator=)(<.*>)?\(',ex.prog.short(n).split(' >::',1)[1].join(('::',''))).group(1); g=s.g(st) if f!='list' else None
        if not(isinstance(a[0],Ptr) and a[0].obj==s.q.obj): raise Unsupported('another list')
        if g is None: raise Unsupported('list: '+f)
        node=lambda i: Ptr(s.nodes.id,i)
        if f in('begin','cbegin'):
            know(st,g.a); return node(g.a)
        if f in('end','cend'): return node(addo(g.n,len(g.tail)))
        if f=='size': return subo(addo(g.n,len(g.tail)),g.a)
        if f=='empty': return simp(bv(subo(addo(g.n,len(g.tail)),g.a),64)==0)
        if f in('front','back'):
            if not ex.oblige(st,simp(bv(subo(addo(g.n,len(g.tail)),g.a),64)!=0),'precondition','list::%s of a list that has a chunk'%f): return None
            return node(g.a if f=='front' else subo(addo(g.n,len(g.tail)),1))
        if f in('pop_front','erase'):
            if f=='erase':
                if len(a)!=2 or not isinstance(a[1],Ptr) or a[1].obj!=s.nodes.id: raise Unsupported('list::erase')
                if not ex.prove(st,bv(a[1].off,64)==bv(g.a,64)) and not ex.dry: raise Unsupported('a chunk in the middle is erased')
            if g.tail and not ex.prove(st,z3.ULT(bv(g.a,64),bv(g.n,64))): raise Unsupported('new chunks are removed')
            if not ex.oblige(st,simp(z3.ULT(bv(g.a,64),bv(g.n,64))),'precondition','list::%s of a chunk of the list'%f): return None
            a1=addo(g.a,1); know(st,a1)
            c=g.c if ex.prove(st,z3.ULE(Pf(bv(a1,64)),bv(g.c,64))) else simp(Q(st,a1,g.c))
            setg(ex,st,s.q,GList(a1,c,g.n,g.tail)); return node(a1) if f=='erase' else None
        if f in('emplace_back','push_back') and len(a)==2 and isinstance(a[1],Ptr):
            x=getg(ex,st,a[1],GBuf,'list::'+f)
            if x is None: return None
            if not n.endswith('OS1_') and f=='push_back': pass
            setg(ex,st,a[1],GBuf(None,0,0)); setg(ex,st,s.q,GList(g.a,g.c,g.n,g.tail+(x,))); return node(addo(g.n,len(g.tail)))
        raise Unsupported('list: '+f)
    def h_iter(s,ex,st,a,n):
        d=ex.prog.short(n); f=re.search(r'::operator(\+\+|--|->|\*)(\(\w*\))',d); op,arg=f.group(1),f.group(2)
        p=ex.load(st,a[0],8,('ptr',))
        if not(isinstance(p,Ptr) and p.obj==s.nodes.id): raise Unsupported('iterator of another list')
        g=s.g(st); off=bv(p.off,64); end=bv(addo(g.n,len(g.tail)),64)
        if op in('->','*'):
            return p
        if op=='++': ok=z3.And(z3.ULE(bv(g.a,64),off),z3.ULT(off,end)); q=Ptr(p.obj,addo(p.off,1))
        else: ok=z3.And(z3.ULT(bv(g.a,64),off),z3.ULE(off,end)); q=Ptr(p.obj,subo(p.off,1))
        if not ex.oblige(st,simp(ok),'memory','list iterator stays within the list'): return None
        know(st,q.off); ex.store(st,a[0],8,q)
        return p if arg!='()' else a[0]
    # ---- loops
    def vars(s,C):
        pv=[(v,i) for k,kind,v,i,x in C.info.vars if kind=='ptr' and x==s.nodes.id]; ga=[(v,i) for k,kind,v,i,x in C.info.vars if kind=='ghost:a']; gc=[(v,i) for k,kind,v,i,x in C.info.vars if kind=='ghost:c']
        iv=[(v,i) for k,kind,v,i,x in C.info.vars if (kind=='int' and v.size()==64 or kind=='ptr' and x!=s.nodes.id) and i is not None]
        return pv,ga,gc,iv
    def candidates(s,ex,C):
        pv,ga,gc,iv=s.vars(C); g=s.g(C.entry); c0=g.c; c=gc[0][0] if gc else bv(g.c,64); out=[]; N=s.N
        for p,p0 in pv:
            know(C.entry,p0)
            d=Q(None,p,c0); d0=Q(None,p0,c0)
            out.append(('iterator within the list',z3.ULE(p,N)))
            out.append(('chunks before the iterator are empty',z3.ULE(Pf(p),c)))
            for v,v0 in iv:
                out.append(('sum of chunk sizes',v==v0+d-d0)); out.append(('rest after chunk sizes',v+d==v0+d0)); out.append(('consumed up to the iterator',z3.Implies(v!=0,z3.ULE(Pf(p),c))))
        for v,v0 in iv: out.append(('something left',v!=0)); out.append(('left after what is consumed',v+c==v0+bv(c0,64)))
        for a,a0 in ga: out.append(('first chunk within the list',z3.ULE(a,N))); out.append(('no bytes before the first chunk',z3.ULE(Pf(a),c)))
        return out
    def blobs(s,ex,C,oid):
        pv,ga,gc,iv=s.vars(C); g=s.g(C.entry)
        if len(pv)!=1 or gc: return None
        from ..loops import SeqStore
        p,p0=pv[0]; d0=Q(C.entry,p0,g.c); d=Q(None,p,g.c)
        return SeqStore('chunks copied',oid,z3.BitVecVal(0,64),simp(d-d0),lambda st,rel: s.at(bv(rel,64)+d0),C)
    def loop_axioms(s,ex,S,C,k):
        pv,ga,gc,iv=s.vars(C)
        for v,_ in pv+ga: know(S,C.id_env[v.get_id()][1])
        return []
    # ---- conclusions
    def holds(s,st,frm,what,tail=(),trim=False):
        """the list now holds X[frm,T) and the tail; trim: its first chunk is not an empty one"""
        ex=s.ex; g=s.g(st)
        if trim: know(st,addo(g.a,1)); ex.oblige(st,simp(z3.Or(bv(g.a,64)==bv(g.n,64),z3.UGT(Pf(bv(addo(g.a,1),64)),bv(g.c,64)))),'postcondition',what+': chunks used up are removed')
        ex.oblige(st,simp(z3.And(z3.ULE(bv(g.a,64),bv(g.n,64)),Q(st,g.a,g.c)==bv(frm,64),bv(g.n,64)==s.N,z3.ULE(bv(g.c,64),s.T))),'postcondition',what+': the rest')
        ex.oblige(st,int(len(g.tail)==len(tail)),'postcondition',what+': new chunks')
    def buf(s,st,p,n,frm,what):
        ex=s.ex; x=getg(ex,st,p,GBuf,what)
        if x is None: return
        ex.oblige(st,simp(bv(x.ln,64)==bv(n,64)),'postcondition',what+': size')
        f=st.fork(); i=ex.small(f,'i'); f.add(z3.ULT(i,bv(n,64))); f.add(z3.ULT(i,bv(x.ln,64)))
        if not f.dead and ex.feasible(f):
            if x.obj is not None:
                o=f.mem.get(x.obj)
                if not ex.oblige(f,int(o is not None),'postcondition',what+': its memory is alive'): return
                ex.oblige(f,simp(z3.ULT(bv(x.off,64)+i,bv(o.size,64))),'postcondition',what+': within its memory')
            ex.oblige(f,simp(x.at(ex,f,i)==s.at(bv(frm,64)+i)),'postcondition',what+': byte i')
NAMES=('size() const','empty() const','operator[](u64) const','operator*() const','slice(u64)','push(buffer)','pop()','front() const','back() const','consume(u64)')
ALL=tuple('buffers::'+x for x in NAMES)
def unit(name,f,**kw):
    def go(ex): w=L(ex); f(ex,w,w.start())
    Unit('buffers.'+name,('C14','C24'),go,provides=ALL,contracts=(BUFFER_CONTRACTS,),**{**dict(unroll=2),**kw})
def go_size(ex,w,st):
    for s,x in ex.call(st,'vp_q_size',[w.q]): ex.oblige(s,simp(bv(x,64)==w.T),'postcondition','buffers::size'); w.holds(s,0,'buffers::size')
    for s,x in ex.call(st,'vp_q_empty',[w.q]): ex.oblige(s,simp((bv(x,64)!=0)==(w.T==0)),'postcondition','buffers::empty'); w.holds(s,0,'buffers::empty')
unit('size',go_size)
def go_at(ex,w,st):
    i=ex.small(st,'i'); st.add(z3.ULT(i,w.T)); ex.unit.inputs['i']=i
    for s,x in ex.call(st,'vp_q_at',[w.q,i]): ex.oblige(s,simp(bv(x,8)==w.at(i)),'postcondition','buffers[]'); w.holds(s,0,'buffers[]')
    for s,x in ex.call(st,'vp_q_star',[w.q]): ex.oblige(s,simp(bv(x,8)==w.at(0)),'postcondition','*buffers'); w.holds(s,0,'*buffers')
unit('at',go_at)
def go_slice(ex,w,st):
    # over the contracts of size and consume, established below and above
    def size(ex,s,a,n):
        g=w.g(s)
        if g.tail: raise Unsupported('size of a list with new chunks')
        return subo(w.T,Q(s,g.a,g.c))
    def consume(ex,s,a,n):
        g=w.g(s); know(s,g.a); q=Q(s,g.a,g.c)
        if g.tail: raise Unsupported('consume of a list with new chunks')
        if not ex.oblige(s,simp(z3.ULE(bv(a[1],64),w.T-q)),'precondition','buffers::consume within size'): return
        x=ex.small(s,'rest'); c=mark_small(simp(q+bv(a[1],64))); know(s,x); know(s,simp(x+1)); s.add(z3.And(z3.ULE(bv(g.a,64),x),z3.ULE(x,w.N),z3.ULE(Pf(x),c),z3.Or(x==w.N,z3.UGT(Pf(simp(x+1)),c)))); setg(ex,s,w.q,GList(x,c,g.n))
    ex.contracts.update({'buffers::size() const':size,'buffers::consume(u64)':consume,'buffers::empty() const':lambda ex,s,a,n: simp(bv(size(ex,s,a,n),64)==0)}); ex._cres={}
    n=ex.small(st,'n'); st.add(z3.ULE(n,w.T)); d=stackobj(ex,st,40,'result'); ex.unit.inputs['n']=n
    for s,_ in ex.call(st,'vp_q_slice',[d,w.q,n]):
        w.buf(s,d,n,0,'buffers::slice (result)'); w.holds(s,n,'buffers::slice'); s.add(n!=0)
        if ex.feasible(s): w.holds(s,n,'buffers::slice',trim=True)
unit('slice',go_slice)
def go_consume(ex,w,st):
    n=ex.small(st,'n'); st.add(z3.ULE(n,w.T)); ex.unit.inputs['n']=n
    for s,_ in ex.call(st,'vp_q_consume',[w.q,n]): w.holds(s,n,'buffers::consume',trim=True)
unit('consume',go_consume)
def go_push(ex,w,st):
    n=ex.small(st,'n'); o=ex.newbytes(st,n,'input','pushed'); b=stackobj(ex,st,40,'buffer'); setg(ex,st,b,GBuf(o.id,0,n)); what='buffers::push'
    for s,_ in ex.call(st,'vp_q_push',[w.q,b]):
        w.holds(s,0,what,tail=(1,)); g=w.g(s)
        if g.tail: ex.oblige(s,int(g.tail[0].same(GBuf(o.id,0,n))),'postcondition',what+': the pushed bytes')
        x=getg(ex,s,b,GBuf,what); ex.oblige(s,simp(bv(x.ln,64)==0),'postcondition',what+': the buffer is moved')
unit('push',go_push)
def go_pop(ex,w,st):
    st.add(z3.UGT(w.T,0)); d=stackobj(ex,st,40,'result'); know(st,1); n=Pf(z3.BitVecVal(1,64))
    for s,_ in ex.call(st,'vp_q_pop',[d,w.q]):
        w.buf(s,d,n,0,'buffers::pop (result)'); w.holds(s,n,'buffers::pop'); ex.oblige(s,simp(bv(w.g(s).a,64)==1),'postcondition','buffers::pop: removes one chunk')
unit('pop',go_pop)
def go_ends(ex,w,st):
    st.add(z3.UGT(w.N,0)); last=simp(w.N-1); know(st,last); know(st,1)
    for f,i in(('front',0),('back',last)):
        for s,p in ex.call(st,'vp_q_'+f,[w.q]):
            ok=isinstance(p,Ptr) and p.obj==w.nodes.id
            ex.oblige(s,simp(bv(p.off,64)==bv(i,64)) if ok else 0,'postcondition','buffers::'+f); w.holds(s,0,'buffers::'+f)
unit('ends',go_ends)
