"""Contracts of the abstract data types client code is verified against: base::buffer, base::buffers (proved by the
C13/C14 units against the real representation) and std::string (assumed: libstdc++)."""
import z3
from .exec import *
from .smt import *

# ------------------------------------------------------------------ ghost values
class GBuf(Ghost):
    """a live base::buffer: bytes [off,off+ln) of memory object obj (None: empty)"""
    nbytes=40
    def __init__(s,obj,off,ln): s.obj=obj; s.off=off; s.ln=ln
    def same(s,o): return s.obj==o.obj and eqt(s.off,o.off) and eqt(s.ln,o.ln)
    def __repr__(s): return 'GBuf(%s,%s,%s)'%(s.obj,s.off,s.ln)
    def at(s,ex,st,i):
        if s.obj is None: return z3.BitVecVal(0,8)
        o=st.mem.get(s.obj)
        if o is None: raise Unsupported('buffer memory gone')
        return bv(ex.obyte(st,o,addo(s.off,i)),8)
    def havoc(s,ex,st):
        o=ex.fresh('boff',64); l=ex.fresh('blen',64)
        # a buffer stays inside its memory object
        return GBuf(s.obj,o,l),[('off',o,bv(s.off,64)),('len',l,bv(s.ln,64))]
    def parts(s,ex,st): return {'off':bv(s.off,64),'len':bv(s.ln,64)}
    def subst(s,f): return GBuf(s.obj,f(s.off),f(s.ln))
class GBufs(Ghost):
    """a live base::buffers: parts = tuple of (obj,off,ln,kind), kind 'c' exactly one chunk, 'o' any number of chunks"""
    nbytes=24
    def __init__(s,parts): s.p=tuple(parts)
    def same(s,o): return len(s.p)==len(o.p) and all(a[0]==b[0] and a[3]==b[3] and eqt(a[1],b[1]) and eqt(a[2],b[2]) for a,b in zip(s.p,o.p))
    def __repr__(s): return 'GBufs%r'%(s.p,)
    def size(s):
        t=0
        for _,_,l,_ in s.p: t=addo(t,l)
        return t
    def at(s,ex,st,i):
        if not s.p: return z3.BitVecVal(0,8)
        r=None; acc=0; items=[]
        for ob,off,l,_ in s.p:
            items.append((acc,l,ob,off)); acc=addo(acc,l)
        def rd(ob,off,j):
            return bv(ex.obyte(st,st.mem[ob],addo(off,j)),8)
        a,l,ob,off=items[-1]
        r=rd(ob,off,subo(i,a))
        for a,l,ob,off in reversed(items[:-1]):
            c=simp(z3.ULT(bv(subo(i,a),64),bv(l,64))) if not(isinstance(subo(i,a),int) and isinstance(l,int)) else int(subo(i,a)<l)
            if isinstance(c,int):
                if c: r=rd(ob,off,subo(i,a))
            else: r=z3.If(c,rd(ob,off,subo(i,a)),r)
        return r
    def havoc(s,ex,st):
        if len(s.p)!=1: raise Unsupported('loop modifies a multi-part chunk list')
        ob,off,l,k=s.p[0]
        o=ex.fresh('boff',64); n=ex.fresh('blen',64)
        return GBufs(((ob,o,n,'o'),)),[('off',o,bv(off,64)),('len',n,bv(l,64))]
    def parts(s,ex,st):
        if len(s.p)!=1: raise Unsupported('loop modifies a multi-part chunk list')
        return {'off':bv(s.p[0][1],64),'len':bv(s.p[0][2],64)}
    def subst(s,f): return GBufs(tuple((o,f(a),f(b),k) for o,a,b,k in s.p))
class GStr(Ghost):
    """a live std::string: bytes [0,ln) of memory object obj, NUL at ln"""
    nbytes=32
    def __init__(s,obj,ln): s.obj=obj; s.ln=ln
    def same(s,o): return s.obj==o.obj and eqt(s.ln,o.ln)
    def __repr__(s): return 'GStr(%s,%s)'%(s.obj,s.ln)
    def at(s,ex,st,i): return bv(ex.obyte(st,st.mem[s.obj],i),8)
    def havoc(s,ex,st): raise Unsupported('loop replaces a string')
def eqt(a,b):
    if isinstance(a,int) or isinstance(b,int): return isinstance(a,int) and isinstance(b,int) and a==b
    return a.eq(b)
def addo(a,b):
    if isinstance(a,int) and isinstance(b,int): return (a+b)&mask(64)
    if isinstance(a,int) and a==0: return b
    if isinstance(b,int) and b==0: return a
    return simp(bv(a,64)+bv(b,64))
def subo(a,b):
    if isinstance(a,int) and isinstance(b,int): return (a-b)&mask(64)
    if isinstance(b,int) and b==0: return a
    return simp(bv(a,64)-bv(b,64))
def ule(a,b):
    if isinstance(a,int) and isinstance(b,int): return int(a<=b)
    return simp(z3.ULE(bv(a,64),bv(b,64)))
def ult(a,b):
    if isinstance(a,int) and isinstance(b,int): return int(a<b)
    return simp(z3.ULT(bv(a,64),bv(b,64)))

def getg(ex,st,p,cls,what):
    if isinstance(p,int):
        ex.violate(st,'memory',what+' on null'); return None
    o=ex.obj(st,p)
    if o is None:
        ex.violate(st,'memory',what+' on a destroyed object'); return None
    if not isinstance(p.off,int): raise Unsupported('symbolic address of '+cls.__name__)
    x=o.cells.get(p.off)
    if x is None or not isinstance(x[1],cls):
        # aggregate/zero initialisation of a trivially-empty object
        raise Unsupported('%s: no %s at %r (%r) in %s'%(what,cls.__name__,p,x,ex.loc(st)))
    return x[1]
def setg(ex,st,p,g):
    o=ex.wobj(st,p.obj)
    x=o.cells.get(p.off)
    if x is not None and isinstance(x[1],Ghost): del o.cells[p.off]
    else:
        if not ex.inb(st,o,p.off,g.nbytes,'object'): return
        ex.split_cells(o,p.off,g.nbytes)
    o.cells[p.off]=(g.nbytes,g)
def hasg(ex,st,p,cls):
    o=ex.obj(st,p)
    if o is None or not isinstance(p.off,int): return False
    x=o.cells.get(p.off)
    return x is not None and isinstance(x[1],cls)
def delg(ex,st,p):
    o=ex.wobj(st,p.obj)
    if p.off in o.cells and isinstance(o.cells[p.off][1],Ghost): del o.cells[p.off]
def rc(st,obj,d):
    if obj is None: return
    k=('rc',obj)
    n=st.ghost.get(k)
    if n is None: return           # input memory owned by the environment
    n+=d; st.ghost[k]=n
    if n==0: st.mem.pop(obj,None)

# ------------------------------------------------------------------ base::buffer
C={}
def con(*names):
    def d(f):
        for n in names: C[n]=f
        return f
    return d
def newbufmem(ex,st,n,name='buf',own=True):
    o=ex.newobj(st,n,'bufdata',name)
    o.bytesmode=True if not isinstance(n,int) else False
    if own: st.ghost[('rc',o.id)]=1
    return o
def content_obj(ex,st,n,fn,name='buf'):
    """new owned memory object of size n whose byte i is fn(st,i)"""
    o=newbufmem(ex,st,n,name)
    if isinstance(n,int) and n<=64:
        for i in range(n):
            b=fn(st,i); b=simp(b) if not isinstance(b,int) else b
            o.cells[i]=(1,b)
    else:
        o.bytesmode=True; o.base=None; o.log=(0,n,fn,None)
        o.base=lambda st_,i: z3.BitVecVal(0,8)
    return o
@con('buffer::buffer()')
def _b0(ex,st,a,n): setg(ex,st,a[0],GBuf(None,0,0))
@con('buffer::buffer(u64)')
def _bn(ex,st,a,n):
    sz=simp(a[1])
    if not isinstance(sz,int):
        ex.assumptions.add('buffer(size): operator new succeeds (allocation failure terminates the process)')
        st.add(z3.ULE(sz,1<<46))
    o=newbufmem(ex,st,sz)
    setg(ex,st,a[0],GBuf(o.id,0,sz))
@con('buffer::buffer(u8 const*, u64)','buffer::buffer(char const*, u64)')
def _bd(ex,st,a,n):
    frombytes(ex,st,a[0],a[1],a[2])
def frombytes(ex,st,dst,p,sz):
    sz=simp(sz)
    if not isinstance(sz,int): st.add(z3.ULE(sz,1<<46))
    o=newbufmem(ex,st,sz)
    ex.copy(st,Ptr(o.id,0),p,sz,'buffer construction')
    if st.dead: return
    setg(ex,st,dst,GBuf(o.id,0,sz))
@con('buffer::buffer(buffer_view)')
def _bv(ex,st,a,n):
    frombytes(ex,st,a[0],a[1],a[2])
@con('buffer::buffer(buffer&&)')
def _bm(ex,st,a,n):
    g=getg(ex,st,a[1],GBuf,'move of buffer')
    if g is None: return
    setg(ex,st,a[1],GBuf(None,0,0)); setg(ex,st,a[0],g)
@con('buffer::operator=(buffer&&)')
def _bma(ex,st,a,n):
    if isinstance(a[0],Ptr) and isinstance(a[1],Ptr) and a[0].obj==a[1].obj and eqt(a[0].off,a[1].off): return a[0]
    g=getg(ex,st,a[1],GBuf,'move assignment of buffer')
    if g is None: return
    t=getg(ex,st,a[0],GBuf,'move assignment to buffer')
    if t is None: return
    rc(st,t.obj,-1)
    setg(ex,st,a[1],GBuf(None,0,0)); setg(ex,st,a[0],g)
    return a[0]
@con('buffer::~buffer()')
def _bdtor(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'destruction of buffer')
    if g is None: return
    rc(st,g.obj,-1); delg(ex,st,a[0])
@con('buffer::data()','buffer::data() const','buffer::begin()','buffer::begin() const')
def _bdata(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer::data')
    if g is None: return 0
    if g.obj is None: return 0
    return Ptr(g.obj,g.off)
@con('buffer::end()','buffer::end() const')
def _bend(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer::end')
    if g is None or g.obj is None: return 0
    return Ptr(g.obj,addo(g.off,g.ln))
@con('buffer::size() const')
def _bsz(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer::size')
    return 0 if g is None else g.ln
@con('buffer::empty() const')
def _bem(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer::empty')
    return 0 if g is None else simp(bv(g.ln,64)==0)
@con('buffer::operator[](u64) const')
def _bix(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer[]')
    if g is None: return 0
    ex.oblige(st,ult(a[1],g.ln),'precondition','buffer index within size')
    if st.dead: return 0
    return simp(g.at(ex,st,a[1]))
@con('buffer::operator*() const')
def _bst(ex,st,a,n):
    return _bix(ex,st,[a[0],0],n)
@con('buffer::operator[](u64)')
def _bixm(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer[]')
    if g is None: return 0
    ex.oblige(st,ult(a[1],g.ln),'precondition','buffer index within size')
    if st.dead: return 0
    return Ptr(g.obj,addo(g.off,a[1]))
@con('buffer::operator*()')
def _bstm(ex,st,a,n): return _bixm(ex,st,[a[0],0],n)
@con('buffer::consume(u64)')
def _bcons(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer::consume')
    if g is None: return
    ex.oblige(st,ule(a[1],g.ln),'precondition','buffer::consume within size')
    if st.dead: return
    setg(ex,st,a[0],GBuf(g.obj,addo(g.off,a[1]),subo(g.ln,a[1])))
@con('buffer::slice(u64)')
def _bslice(ex,st,a,n):
    dst,p,sz=a
    g=getg(ex,st,p,GBuf,'buffer::slice')
    if g is None: return
    ex.oblige(st,ule(sz,g.ln),'precondition','buffer::slice within size')
    if st.dead: return
    rc(st,g.obj,1)
    setg(ex,st,dst,GBuf(g.obj,g.off,simp(sz)))
    setg(ex,st,p,GBuf(g.obj,addo(g.off,sz),subo(g.ln,sz)))
@con('buffer::operator buffer_view() const')
def _bview(ex,st,a,n):
    g=getg(ex,st,a[0],GBuf,'buffer view')
    if g is None: return (0,0)
    return (0 if g.obj is None else Ptr(g.obj,g.off),g.ln)
@con('buffer::concat(buffer const&, buffer const&)')
def _bcc(ex,st,a,n):
    x=getg(ex,st,a[1],GBuf,'concat'); y=getg(ex,st,a[2],GBuf,'concat')
    if x is None or y is None: return
    o=concat_obj(ex,st,[(x.obj,x.off,x.ln),(y.obj,y.off,y.ln)])
    setg(ex,st,a[0],GBuf(o.id,0,addo(x.ln,y.ln)))
def concat_obj(ex,st,parts):
    g=GBufs(tuple((o,f,l,'c') for o,f,l in parts if o is not None))
    snaps={o:ex.snapshot(st,st.mem[o]) for o,_,_,_ in g.p}
    def fn(st_,i):
        acc=0; r=z3.BitVecVal(0,8)
        res=[]
        for ob,off,l,_ in g.p: res.append((acc,l,ob,off)); acc=addo(acc,l)
        for a,l,ob,off in reversed(res):
            j=subo(i,a)
            c=ult(j,l)
            v=lambda: bv(ex.obyte(st_,snaps[ob],addo(off,j)),8)
            if isinstance(c,int):
                if c: r=v()
            else: r=z3.If(c,v(),r)
        return r
    return content_obj(ex,st,simp(bv(g.size(),64)),fn)

# ------------------------------------------------------------------ base::buffers
@con('buffers::buffers()')
def _q0(ex,st,a,n): setg(ex,st,a[0],GBufs(()))
@con('buffers::buffers(buffers&&)')
def _qm(ex,st,a,n):
    g=getg(ex,st,a[1],GBufs,'move of buffers')
    if g is None: return
    setg(ex,st,a[1],GBufs(())); setg(ex,st,a[0],g)
@con('buffers::operator=(buffers&&)')
def _qma(ex,st,a,n):
    if isinstance(a[0],Ptr) and isinstance(a[1],Ptr) and a[0].obj==a[1].obj and eqt(a[0].off,a[1].off): return a[0]
    g=getg(ex,st,a[1],GBufs,'move of buffers')
    if g is None: return
    t=getg(ex,st,a[0],GBufs,'move to buffers')
    if t is None: return
    for p in t.p: rc(st,p[0],-1)
    setg(ex,st,a[1],GBufs(())); setg(ex,st,a[0],g)
    return a[0]
@con('buffers::~buffers()')
def _qd(ex,st,a,n):
    g=getg(ex,st,a[0],GBufs,'destruction of buffers')
    if g is None: return
    for p in g.p: rc(st,p[0],-1)
    delg(ex,st,a[0])
@con('buffers::size() const')
def _qs(ex,st,a,n):
    g=getg(ex,st,a[0],GBufs,'buffers::size')
    return 0 if g is None else g.size()
@con('buffers::empty() const')
def _qe(ex,st,a,n):
    g=getg(ex,st,a[0],GBufs,'buffers::empty')
    if g is None: return 0
    return simp(z3.And([bv(p[2],64)==0 for p in g.p])) if g.p else 1
@con('buffers::operator[](u64) const')
def _qi(ex,st,a,n):
    g=getg(ex,st,a[0],GBufs,'buffers[]')
    if g is None: return 0
    ex.oblige(st,ult(a[1],g.size()),'precondition','buffers index within size')
    if st.dead: return 0
    return simp(g.at(ex,st,a[1]))
@con('buffers::operator*() const')
def _qst(ex,st,a,n): return _qi(ex,st,[a[0],0],n)
def split_at(ex,st,g,sz):
    """list of (state, rest parts) after dropping the first sz bytes (sz<=size)"""
    outs=[]
    work=[(st,list(g.p),sz)]
    while work:
        s,ps,k=work.pop()
        if not ps or (isinstance(k,int) and k==0): 
            outs.append((s,ps)); continue
        ob,off,l,kd=ps[0]
        if len(ps)==1:
            outs.append((s,[(ob,addo(off,k),subo(l,k),kd)])); continue
        for x,t in ex.branch(s,ult(k,l)):
            if t: outs.append((x,[(ob,addo(off,k),subo(l,k),kd)]+ps[1:]))
            else:
                rc(x,ob,-1) if False else None
                work.append((x,ps[1:],subo(k,l)))
    return outs
@con('buffers::consume(u64)')
def _qc(ex,st,a,n):
    g=getg(ex,st,a[0],GBufs,'buffers::consume')
    if g is None: return
    ex.oblige(st,ule(a[1],g.size()),'precondition','buffers::consume within size')
    if st.dead: return
    outs=[]
    for s,ps in split_at(ex,st,g,simp(a[1])):
        setg(ex,s,a[0],GBufs(ps)); outs.append((s,None))
    return outs
@con('buffers::slice(u64)')
def _qsl(ex,st,a,n):
    dst,p,sz=a
    g=getg(ex,st,p,GBufs,'buffers::slice')
    if g is None: return
    sz=simp(sz)
    ex.oblige(st,ule(sz,g.size()),'precondition','buffers::slice within size')
    if st.dead: return
    if not g.p:
        setg(ex,st,dst,GBuf(None,0,0)); return
    if len(g.p)==1:
        ob,off,l,k=g.p[0]
        rc(st,ob,1)
        setg(ex,st,dst,GBuf(ob,off,sz)); setg(ex,st,p,GBufs(((ob,addo(off,sz),subo(l,sz),k),)))
        return
    snaps={x[0]:ex.snapshot(st,st.mem[x[0]]) for x in g.p}
    class S: mem=snaps
    def fn(st_,i):
        return g.at(ex,FakeState(st_,snaps),i)
    o=content_obj(ex,st,sz,fn)
    outs=[]
    for s,ps in split_at(ex,st,g,sz):
        setg(ex,s,p,GBufs(ps)); setg(ex,s,dst,GBuf(o.id,0,sz)); outs.append((s,None))
    return outs
class FakeState:
    def __init__(s,st,mem): s.mem=mem; s.pc=st.pc if st is not None else []; s.ghost=st.ghost if st is not None else {}
@con('buffers::push(buffer)')
def _qp(ex,st,a,n):
    g=getg(ex,st,a[0],GBufs,'buffers::push')
    if g is None: return
    b=getg(ex,st,a[1],GBuf,'buffers::push argument')
    if b is None: return
    setg(ex,st,a[1],GBuf(None,0,0))
    ob=b.obj; off=b.off
    if ob is None:
        o=newbufmem(ex,st,0); ob=o.id; off=0
    setg(ex,st,a[0],GBufs(g.p+((ob,off,b.ln,'c'),)))
def first_chunk(ex,st,g):
    """oldest chunk of a non-empty list: (chunk part, rest parts)"""
    ob,off,l,k=g.p[0]
    if k=='c': return g.p[0],list(g.p[1:])
    # unknown boundary: any prefix may be the first chunk
    n=ex.fresh('chunk',64)
    st.add(z3.ULE(n,bv(l,64)))
    return (ob,off,n,'c'),[(ob,addo(off,n),subo(l,n),'o')]+list(g.p[1:])
@con('buffers::pop()')
def _qpop(ex,st,a,n):
    dst,p=a
    g=getg(ex,st,p,GBufs,'buffers::pop')
    if g is None: return
    e=simp(z3.Or([bv(x[2],64)!=0 for x in g.p])) if g.p else 0
    ex.oblige(st,e,'precondition','buffers::pop of a non-empty list')
    if st.dead: return
    c,rest=first_chunk(ex,st,g)
    rc(st,c[0],1) if rest and rest[0][0]==c[0] else None
    setg(ex,st,p,GBufs(rest)); setg(ex,st,dst,GBuf(c[0],c[1],c[2]))
@con('buffers::front() const')
def _qf(ex,st,a,n):
    g=getg(ex,st,a[0],GBufs,'buffers::front')
    if g is None: return 0
    if not g.p:
        ex.violate(st,'precondition','buffers::front of an empty list'); return 0
    c,rest=first_chunk(ex,st,g)
    if g.p[0][3]!='c': setg(ex,st,a[0],GBufs([c]+rest))
    o=ex.newobj(st,40,'heap','front'); 
    setg(ex,st,Ptr(o.id,0),GBuf(c[0],c[1],c[2]))
    o=ex.wobj(st,o.id)
    return Ptr(o.id,0)

# ------------------------------------------------------------------ std::string (assumed)
def strobj(ex,st,n,name='str'):
    o=ex.newobj(st,addo(n,1),'strdata',name)
    if not isinstance(n,int): o.bytesmode=True
    return o
def mkstr(ex,st,p,obj,ln): setg(ex,st,p,GStr(obj,ln))
@con('string::basic_string()')
def _s0(ex,st,a,n):
    o=strobj(ex,st,0); o.cells[0]=(1,0); mkstr(ex,st,a[0],o.id,0)
@con('string::basic_string(string&&)')
def _sm(ex,st,a,n):
    g=getg(ex,st,a[1],GStr,'string move')
    if g is None: return
    mkstr(ex,st,a[0],g.obj,g.ln)
    o=strobj(ex,st,0); o.cells[0]=(1,0); mkstr(ex,st,a[1],o.id,0)
@con('string::basic_string(string const&)')
def _scp(ex,st,a,n):
    g=getg(ex,st,a[1],GStr,'string copy')
    if g is None: return
    o=strobj(ex,st,g.ln); ex.copy(st,Ptr(o.id,0),Ptr(g.obj,0),addo(g.ln,1),'string copy')
    mkstr(ex,st,a[0],o.id,g.ln)
@con('string::basic_string(char const*, u64, std::allocator<char> const&)')
def _sfn(ex,st,a,n):
    ln=simp(a[2])
    if not isinstance(ln,int): st.add(z3.ULE(ln,1<<46))
    o=strobj(ex,st,ln)
    ex.copy(st,Ptr(o.id,0),a[1],ln,'string construction')
    if st.dead: return
    ex.store(st,Ptr(o.id,ln),1,0)
    mkstr(ex,st,a[0],o.id,ln)
@con('string::basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)')
def _sfc(ex,st,a,n):
    ln=BUILTINS['strlen'](ex,st,[a[1]],'strlen')
    return _sfn(ex,st,[a[0],a[1],ln,0],n)
@con('string::~basic_string()')
def _sd(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string destruction')
    if g is None: return
    st.mem.pop(g.obj,None); delg(ex,st,a[0])
@con('string::operator=(string&&)')
def _sma(ex,st,a,n):
    if a[0].obj==a[1].obj and eqt(a[0].off,a[1].off): return a[0]
    g=getg(ex,st,a[1],GStr,'string move')
    t=getg(ex,st,a[0],GStr,'string assignment')
    if g is None or t is None: return
    st.mem.pop(t.obj,None)
    mkstr(ex,st,a[0],g.obj,g.ln)
    o=strobj(ex,st,0); o.cells[0]=(1,0); mkstr(ex,st,a[1],o.id,0)
    return a[0]
@con('string::operator=(string const&)')
def _sca(ex,st,a,n):
    if a[0].obj==a[1].obj and eqt(a[0].off,a[1].off): return a[0]
    g=getg(ex,st,a[1],GStr,'string copy')
    t=getg(ex,st,a[0],GStr,'string assignment')
    if g is None or t is None: return
    o=strobj(ex,st,g.ln); ex.copy(st,Ptr(o.id,0),Ptr(g.obj,0),addo(g.ln,1),'string copy')
    st.mem.pop(t.obj,None)
    mkstr(ex,st,a[0],o.id,g.ln); return a[0]
@con('string::size() const','string::length() const')
def _ssz(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string::size'); return 0 if g is None else g.ln
@con('string::empty() const')
def _sem(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string::empty'); return 0 if g is None else simp(bv(g.ln,64)==0)
@con('string::data() const','string::data()','string::c_str() const','string::begin()','string::begin() const')
def _sda(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string::data'); return 0 if g is None else Ptr(g.obj,0)
@con('string::end()','string::end() const')
def _send(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string::end'); return 0 if g is None else Ptr(g.obj,g.ln)
@con('string::operator[](u64)','string::operator[](u64) const')
def _six(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string[]')
    if g is None: return 0
    ex.oblige(st,ule(a[1],g.ln),'precondition','string index within size')
    return Ptr(g.obj,a[1])
@con('string::back() const','string::back()')
def _sback(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string back')
    if g is None: return 0
    ex.oblige(st,ult(0,g.ln),'precondition','string::back of a non-empty string')
    return Ptr(g.obj,subo(g.ln,1))
@con('string::resize(u64)')
def _srs(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'string::resize')
    if g is None: return
    sz=simp(a[1])
    if not isinstance(sz,int):
        ex.assumptions.add('std::string::resize: allocation succeeds')
        st.add(z3.ULE(sz,1<<46))
    old=ex.snapshot(st,st.mem[g.obj]); ol=g.ln
    o=ex.newobj(st,addo(sz,1),'strdata','str')
    if isinstance(sz,int) and isinstance(ol,int) and sz<=64:
        for i in range(sz+1): o.cells[i]=(1,ex.obyte(st,old,i) if i<ol else 0)
    else:
        o.bytesmode=True
        if isinstance(ol,int) and ol==0: o.base=lambda st_,i: 0
        else: o.base=lambda st_,i: z3.If(bl(ult(i,ol)),bv(ex.obyte(st_,old,i),8),z3.BitVecVal(0,8))
    st.mem.pop(g.obj,None)
    mkstr(ex,st,a[0],o.id,sz)
@con('string::reserve(u64)')
def _srv(ex,st,a,n): return None
@con('string::push_back(char)')
def _spb(ex,st,a,n):
    g=getg(ex,st,a[0],GStr,'push_back')
    if g is None: return
    r=_srs(ex,st,[a[0],addo(g.ln,1)],n)
    h=getg(ex,st,a[0],GStr,'push_back')
    ex.store(st,Ptr(h.obj,g.ln),1,a[1])
@con('std::allocator<char>::allocator()','std::allocator<char>::~allocator()','std::__new_allocator<char>::~__new_allocator()')
def _al(ex,st,a,n): return None

def install(ex):
    ex.contracts.update(C)
STRING_CONTRACTS={k:v for k,v in C.items() if k.startswith('string::') or k.startswith('std::')}
BUFFER_CONTRACTS={k:v for k,v in C.items() if k.startswith('buffer::')}
BUFFERS_CONTRACTS={k:v for k,v in C.items() if k.startswith('buffers::')}
