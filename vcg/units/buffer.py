"""C13: base::buffer against its real representation.  A buffer is empty (null), inline (a range of its own 20 bytes) or
a range of a heap block whose first four bytes count the buffers that refer to it.  Each operation is verified from every
representation of the buffers involved, for all contents, sizes and reference counts; inline sizes are enumerated."""
from ..seq import *
from .body import lay
T=20
FUNS=('buffer()','buffer(u64)','buffer(u8 const*, u64)','buffer(char const*, u64)','buffer(buffer_view)','buffer(buffer&&)','operator=(buffer&&)','~buffer()','data()','data() const','begin()','begin() const','end()','end() const','size() const','empty() const','operator[](u64) const','operator*() const','operator[](u64)','operator*()','consume(u64)','slice(u64)','operator buffer_view() const','concat(buffer const&, buffer const&)')
ALL=tuple('buffer::'+f for f in FUNS)
class W:
    """a world: buffers in known representations, remembered contents"""
    def __init__(s,ex):
        s.ex=ex; s.sz,s.ob,s.oe,s.os,s.T=lay(ex,'vpsize_buffer','vpoff_buffer_begin','vpoff_buffer_end','vpoff_buffer_sso','vpval_buffer_threshold')
    def block(s,st,name='block'):
        """heap block with M data bytes and a count r>=1"""
        ex=s.ex; M=ex.small(st,'M'); st.add(z3.UGT(M,s.T)); o=ex.newbytes(st,simp(M+4),'heap',name)
        r=ex.fresh('r',32); st.add(z3.And(r!=0,z3.ULT(r,0xfffffffe))); ex.store(st,Ptr(o.id,0),4,r)
        return Block(o.id,M,r,ex.snapshot(st,st.mem[o.id]))
    def ptrs(s,st,p,b,e): s.ex.store(st,p.add(s.ob),8,b); s.ex.store(st,p.add(s.oe),8,e)
    def new(s,st,name='buffer'):
        p=stackobj(s.ex,st,s.sz,name); return p
    def null(s,st):
        p=s.new(st); s.ptrs(st,p,0,0); return R(p,'null',0,None,lambda i: z3.BitVecVal(0,8))
    def sso(s,st,k=None,n=None):
        ex=s.ex; p=s.new(st); bs=[ex.fresh('s',8) for _ in range(s.T)]
        for i,b in enumerate(bs): ex.store(st,p.add(s.os+i),1,b)
        if k is None:
            k=ex.small(st,'k'); n=ex.small(st,'n'); st.add(z3.ULE(simp(k+n),s.T)); at=None
        else:
            def at(i):
                r=z3.BitVecVal(0,8)
                for j in range(n): r=z3.If(bv(i,64)==j,bs[k+j],r)
                return r
        s.ptrs(st,p,p.add(simp(bv(k,64)+s.os) if not isinstance(k,int) else k+s.os),p.add(simp(bv(k,64)+bv(n,64)+s.os) if not isinstance(k,int) else k+n+s.os))
        ex.unit.inputs['offset']=k; ex.unit.inputs['size']=n
        return R(p,'sso',n,None,at)
    def heap(s,st,blk):
        ex=s.ex; p=s.new(st); k=ex.small(st,'k'); n=ex.small(st,'n'); st.add(z3.ULE(simp(k+n),blk.M))
        s.ptrs(st,p,Ptr(blk.o,simp(k+4)),Ptr(blk.o,simp(k+n+4))); ex.store(st,p.add(s.os),8,Ptr(blk.o,0))
        for nm,x in(('offset',k),('size',n),('memory',blk.M),('references',blk.r)): ex.unit.inputs[nm]=x
        r=R(p,'heap',n,blk,lambda i: bv(ex.obyte(None,blk.snap,simp(bv(i,64)+k+4)),8)); r.k=k; return r
    def owns(s,st,p,n,at,what,blk=None):
        """p is a valid buffer of n bytes at(i); it refers to blk, or to no shared memory.  blk='new': to a block of its own, returned"""
        ex=s.ex; b=ex.load(st,p.add(s.ob),8,('ptr',)); e=ex.load(st,p.add(s.oe),8,('ptr',))
        sz=ex.call1(st,'vp_buf_size',[p])
        if not ex.oblige(st,simp(bv(sz,64)==bv(n,64)),'postcondition',what+': size'): return None
        if isinstance(b,int) or isinstance(e,int):
            ex.oblige(st,int(isinstance(b,int) and isinstance(e,int) and b==0 and e==0),'postcondition',what+': pointers of an empty buffer')
            ex.oblige(st,simp(bv(n,64)==0),'postcondition',what+': only an empty buffer has no bytes'); return None
        res=None
        ex.oblige(st,int(b.obj==e.obj),'postcondition',what+': one range')
        if st.dead: return None
        if b.obj==p.obj:
            ex.oblige(st,simp(z3.And(z3.ULE(s.os,bv(b.off,64)),z3.ULE(bv(b.off,64),bv(e.off,64)),z3.ULE(bv(e.off,64),s.os+s.T))),'postcondition',what+': inline range')
        else:
            rc=ex.load(st,p.add(s.os),8,('ptr',))
            ok=isinstance(rc,Ptr) and rc.obj==b.obj and isinstance(rc.off,int) and rc.off==0
            if not ex.oblige(st,int(ok),'postcondition',what+': refers to the count of its block'): return None
            o=st.mem.get(b.obj)
            if not ex.oblige(st,int(o is not None),'postcondition',what+': its memory is alive'): return None
            ex.oblige(st,simp(z3.And(z3.ULE(4,bv(b.off,64)),z3.ULE(bv(b.off,64),bv(e.off,64)),z3.ULE(bv(e.off,64),bv(o.size,64)))),'postcondition',what+': range within its block')
            if blk=='new': res=b.obj; ex.oblige(st,simp(bv(ex.load(st,rc,4,('i',32)),32)==1),'postcondition',what+': first reference to its block')
            else: ex.oblige(st,int(blk is not None and blk.o==b.obj),'postcondition',what+': refers to the expected block')
        if st.dead: return None
        if at is not None:
            f=st.fork(); i=ex.fresh('i',64); mark_small(i); f.add(z3.ULT(i,bv(n,64)))
            if ex.feasible(f):
                src=f.mem[b.obj]
                if b.obj==p.obj:
                    # inline: byte by byte
                    m=n if isinstance(n,int) else ex.concretize(f,n)
                    if m is None: raise Unsupported('inline buffer of unknown size')
                    for j in range(m):
                        x=ex.load(f,b.add(j),1,('i',8)); ex.oblige(f,simp(bv(x,8)==bv(at(j),8)),'postcondition',what+': bytes')
                else: ex.oblige(f,simp(bv(ex.obyte(f,src,simp(bv(b.off,64)+i)),8)==bv(at(i),8)),'postcondition',what+': bytes')
        return res
    def count(s,st,blk,d,what):
        """the count of blk changed by d; it was released exactly if that makes 0; its data did not change"""
        ex=s.ex; r=blk.r+d
        for f,z in ex.branch(st,simp(r==0)):
            alive=blk.o in f.mem
            if z: ex.oblige(f,int(not alive),'postcondition',what+': released with its last reference'); continue
            if not ex.oblige(f,int(alive),'postcondition',what+': not released while referred to'): continue
            ex.oblige(f,simp(bv(ex.load(f,Ptr(blk.o,0),4,('i',32)),32)==r),'postcondition',what+': reference count')
            i=ex.fresh('i',64); mark_small(i); f.add(z3.UGE(i,4)); f.add(z3.ULT(i,blk.M+4))
            ex.oblige(f,simp(bv(ex.obyte(f,f.mem[blk.o],i),8)==bv(ex.obyte(None,blk.snap,i),8)),'frame',what+': shared memory is not written')
class Block:
    def __init__(s,o,M,r,snap): s.o=o; s.M=M; s.r=r; s.snap=snap
class R:
    def __init__(s,p,kind,n,blk,at): s.p=p; s.kind=kind; s.n=n; s.blk=blk; s.at=at
def reps(w,sso='all'):
    """(state, rep): every representation of one buffer"""
    st=State(); yield st,w.null(st)
    for k in range(T+1):
        for n in range(T+1-k): st=State(); yield st,w.sso(st,k,n)
    st=State(); b=w.block(st); yield st,w.heap(st,b)
def same(w,s,r,what):
    w.owns(s,r.p,r.n,r.at,what,r.blk)
    if r.blk: w.count(s,r.blk,0,what)
def leaked(ex,s,st0,what,allow=()):
    """no heap object appeared besides those allowed"""
    new=[o for o in s.mem if o not in st0.mem and s.mem[o].kind=='heap' and o not in allow]
    ex.oblige(s,int(not new),'postcondition',what+': no memory is left behind')
def go_access(ex):
    w=W(ex)
    for st,r in reps(w):
        c=lambda f,*a: ex.call1(st,'vp_buf_'+f,[r.p,*a])
        b=ex.load(st,r.p.add(w.ob),8,('ptr',)); e=ex.load(st,r.p.add(w.oe),8,('ptr',))
        def eqp(x,y): return int(x==y) if isinstance(x,int) or isinstance(y,int) else (simp(bv(x.off,64)==bv(y.off,64)) if x.obj==y.obj else 0)
        for f in('data','cdata','begin','cbegin'): ex.oblige(st,eqp(c(f),b),'postcondition','buffer::%s: first byte'%f.lstrip('c'))
        for f in('end','cend'): ex.oblige(st,eqp(c(f),e),'postcondition','buffer::end: past the last byte')
        ex.oblige(st,simp(bv(c('size'),64)==bv(r.n,64)),'postcondition','buffer::size')
        ex.oblige(st,simp((bv(c('empty'),64)==1)==(bv(r.n,64)==0)),'postcondition','buffer::empty')
        o=outp(ex,st); pp=stackobj(ex,st,8,'data'); ex.call1(st,'vp_buf_view',[r.p,o,pp])
        ex.oblige(st,simp(bv(out(ex,st,o,0),64)==bv(r.n,64)),'postcondition','buffer view: size'); ex.oblige(st,eqp(ex.load(st,pp,8,('ptr',)),b),'postcondition','buffer view: data')
        for i in (range(r.n) if isinstance(r.n,int) else [None]):
            f=st.fork()
            if i is None: i=ex.small(f,'i'); f.add(z3.ULT(i,r.n))
            x=ex.call1(f,'vp_buf_cat',[r.p,i]); ex.oblige(f,simp(bv(x,8)==bv(r.at(i),8)),'postcondition','buffer[]')
            x=ex.call1(f,'vp_buf_cstar',[r.p]); ex.oblige(f,simp(bv(x,8)==bv(r.at(0),8)),'postcondition','*buffer')
            q=ex.call1(f,'vp_buf_at',[r.p,i]); ex.oblige(f,eqp(q,b.add(simp(bv(i,64)))),'postcondition','buffer[] (reference)')
            q=ex.call1(f,'vp_buf_star',[r.p]); ex.oblige(f,eqp(q,b),'postcondition','*buffer (reference)')
        same(w,st,r,'buffer accessors')
Unit('buffer.access',('C13','C24'),go_access,provides=ALL,contracts=())
def mk_new(big):
    def go(ex):
        w=W(ex)
        if not big: st=State(); p=w.new(st); ex.call1(st,'vp_buf_new0',[p]); w.owns(st,p,0,None,'buffer()')
        for n in [None] if big else range(T+1):
            for f in('newn','newd','newc','newv'):
                st=State(); p=w.new(st); what='buffer(%s)'%f[3:]
                if n is None: m=ex.small(st,'n'); st.add(z3.UGT(m,T))
                else: m=n
                src=ex.newbytes(st,m,'input','data'); at=lambda i: ex.obyte(None,src,simp(bv(i,64)))
                st0=st.fork()
                for s,_ in ex.call(st,'vp_buf_'+f,[p,m] if f=='newn' else [p,Ptr(src.id,0),m]):
                    b=w.owns(s,p,m,None if f=='newn' else at,what,'new'); leaked(ex,s,st0,what,(b,))
    Unit('buffer.construct.%s'%('heap' if big else 'inline'),('C13','C24'),go,provides=ALL,contracts=(),unroll=3 if big else 24)
mk_new(False); mk_new(True)
def go_move(ex):
    w=W(ex)
    for st,r in reps(w):
        d=w.new(st); what='buffer move'; st0=st.fork()
        for s,_ in ex.call(st,'vp_buf_move',[d,r.p]):
            w.owns(s,d,r.n,r.at,what,r.blk); w.owns(s,r.p,0,None,what+': the source becomes empty'); leaked(ex,s,st0,what)
            if r.blk: w.count(s,r.blk,0,what)
Unit('buffer.move',('C13','C24'),go_move,provides=ALL,contracts=())
def mk_assign(part):
    def go(ex):
        w=W(ex); what='buffer move assignment'
        def run(st,d,r,shared):
            st0=st.fork()
            for s,_ in ex.call(st,'vp_buf_assign',[d.p,r.p]):
                w.owns(s,d.p,r.n,r.at,what,r.blk); w.owns(s,r.p,0,None,what+': the source becomes empty'); leaked(ex,s,st0,what)
                if d.blk: w.count(s,d.blk,-1,what)
                if r.blk and not shared: w.count(s,r.blk,0,what)
        if part in('null','sso','heap'):        # every source, over an empty destination, the whole inline store, or a heap block
            for s,r in reps(w): d=w.null(s) if part=='null' else w.sso(s,0,T) if part=='sso' else w.heap(s,w.block(s)); run(s,d,r,False)
        elif part=='inline':
            for k in range(T+1):
                for n in range(T+1-k):
                    for rk in('sso','heap'):
                        st=State(); run(st,w.sso(st,k,n),w.sso(st,T-n,n) if rk=='sso' else w.heap(st,w.block(st)),False)
        elif part=='shared': st=State(); b=w.block(st); st.add(z3.UGE(b.r,2)); run(st,w.heap(st,b),w.heap(st,b),True)
        else:
            for st,r in reps(w):       # onto itself
                for s,_ in ex.call(st,'vp_buf_assign',[r.p,r.p]): same(w,s,r,what+' to itself')
    Unit('buffer.assign.'+part,('C13','C24'),go,provides=ALL,contracts=())
for part in('null','sso','heap','inline','shared','self'): mk_assign(part)
def go_delete(ex):
    w=W(ex)
    for st,r in reps(w):
        for s,_ in ex.call(st,'vp_buf_delete',[r.p]):
            if r.blk: w.count(s,r.blk,-1,'~buffer')
Unit('buffer.destroy',('C13','C24'),go_delete,provides=ALL,contracts=())
def go_consume(ex):
    w=W(ex); what='buffer::consume'
    for st,r in reps(w):
        for m in (range(r.n+1) if isinstance(r.n,int) else [None]):
            f=st.fork()
            if m is None: m=ex.small(f,'m'); f.add(z3.ULE(m,r.n))
            for s,_ in ex.call(f,'vp_buf_consume',[r.p,m]):
                w.owns(s,r.p,simp(bv(r.n,64)-bv(m,64)) if not isinstance(r.n,int) else r.n-m,lambda i: r.at(simp(bv(i,64)+bv(m,64))),what,r.blk)
                if r.blk: w.count(s,r.blk,0,what)
Unit('buffer.consume',('C13','C24'),go_consume,provides=ALL,contracts=())
def go_slice(ex):
    w=W(ex); what='buffer::slice'
    for st,r in reps(w):
        for m in (range(r.n+1) if isinstance(r.n,int) else list(range(T+1))+[None]):
            f=st.fork()
            if m is None: m=ex.small(f,'m'); f.add(z3.UGT(m,T))
            if not isinstance(r.n,int): f.add(z3.ULE(bv(m,64),r.n))
            d=w.new(f,'result'); f0=f.fork()
            for s,_ in ex.call(f,'vp_buf_slice',[d,r.p,m]):
                big=not isinstance(m,int)
                w.owns(s,d,m,lambda i: r.at(i),what+' (result)',r.blk if big else None)
                w.owns(s,r.p,simp(bv(r.n,64)-bv(m,64)) if not isinstance(r.n,int) else r.n-m,lambda i: r.at(simp(bv(i,64)+bv(m,64))),what+' (rest)',r.blk)
                leaked(ex,s,f0,what)
                if r.blk: w.count(s,r.blk,1 if big else 0,what)
Unit('buffer.slice',('C13','C24'),go_slice,provides=ALL,contracts=())
def mk_concat(part):
    def go(ex):
        w=W(ex); what='buffer::concat'
        A=list(range(-1,T+1))+[None]      # -1: null; n: inline of n bytes, at the start or at the end of the store; None: heap
        off,A0=(part%2),A[part//2::3]
        def mk(st,n):
            if n==-1: return w.null(st)
            if n is None: return w.heap(st,w.block(st))
            return w.sso(st,0 if off==0 else T-n,n)
        for a in A0:
            for b in A:
                st=State(); x=mk(st,a); y=mk(st,b); todo=[(st,x.n,y.n)]
                if a is None or b is None:
                    # results that fit inline have both sizes small: enumerate them
                    todo=[]
                    tot=simp(bv(x.n,64)+bv(y.n,64)); f=st.fork(); f.add(z3.UGT(tot,T)); todo.append((f,x.n,y.n))
                    for i in (range(T+1) if a is None else [x.n]):
                        for j in (range(T+1) if b is None else [y.n]):
                            if i+j>T: continue
                            f=st.fork(); f.add(z3.And(bv(x.n,64)==i,bv(y.n,64)==j)); todo.append((f,i,j))
                for f,i,j in todo:
                    if not ex.feasible(f): continue
                    d=w.new(f,'result'); f0=f.fork(); tot=i+j if isinstance(i,int) and isinstance(j,int) else simp(bv(i,64)+bv(j,64))
                    def at(q): return z3.If(z3.ULT(bv(q,64),bv(i,64)),bv(x.at(q),8),bv(y.at(simp(bv(q,64)-bv(i,64))),8))
                    for s,_ in ex.call(f,'vp_buf_concat',[d,x.p,y.p]):
                        nb=w.owns(s,d,tot,at,what,'new'); leaked(ex,s,f0,what,(nb,)); same(w,s,x,what); same(w,s,y,what)
    Unit('buffer.concat.%d'%part,('C13','C24'),go,provides=ALL,contracts=(),time_limit=500)
for part in range(6): mk_concat(part)
