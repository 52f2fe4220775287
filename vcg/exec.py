"""Symbolic executor for LLVM IR: generates and discharges verification conditions path by path.

Integers: python ints (unsigned) or z3 bit-vectors; i1: 0/1 or z3 Bool.  Pointers: 0 (null), Ptr(obj,off), Fn(name).
Every memory access, shift, nsw/nuw arithmetic, division, assertion, unreachable and throw yields an obligation.
"""
import z3, time, re, os
from .ir import natural_loops, IRError
from .smt import *

class Unsupported(Exception): pass
class NeedCut(Exception):
    def __init__(s,fn,label): s.fn=fn; s.label=label; Exception.__init__(s,'loop %s %s'%(fn,label))
class Budget(Exception): pass

class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off): s.obj=obj; s.off=off
    def __repr__(s): return 'Ptr(%s,%s)'%(s.obj,s.off)
    def add(s,d):
        if isinstance(d,int) and isinstance(s.off,int): return Ptr(s.obj,(s.off+d)&mask(64))
        return Ptr(s.obj,simp(bv(s.off,64)+bv(d,64)))
class Fn:
    __slots__=('name',)
    def __init__(s,name): s.name=name
    def __repr__(s): return 'Fn(%s)'%s.name

class Ghost:
    """immutable specification-level value stored at an address (occupies nbytes)"""
    nbytes=8

UNDEF=object()

class Obj:
    __slots__=('id','size','kind','name','cells','base','log','bytesmode','owner','const','data','ro')
    def __init__(s,id,size,kind,name,owner):
        s.id=id; s.size=size; s.kind=kind; s.name=name; s.cells={}; s.base=None; s.log=None
        s.bytesmode=False; s.owner=owner; s.const=False; s.data=None; s.ro=False
    def clone(s,owner):
        o=Obj.__new__(Obj)
        o.id=s.id;o.size=s.size;o.kind=s.kind;o.name=s.name;o.cells=dict(s.cells);o.base=s.base
        o.log=s.log; o.bytesmode=s.bytesmode;o.owner=owner;o.const=s.const;o.data=s.data;o.ro=s.ro
        return o

class Frame:
    __slots__=('f','label','ip','regs','prev','allocs','dst','cnt','blk','key')
    def copy(s):
        n=Frame.__new__(Frame)
        n.f=s.f;n.label=s.label;n.ip=s.ip;n.regs=dict(s.regs);n.prev=s.prev;n.allocs=s.allocs[:];n.dst=s.dst
        n.cnt=dict(s.cnt);n.blk=s.blk;n.key=s.key
        return n

NESTED=object()

class State:
    __slots__=('frames','mem','pc','ghost','owner','forks','retval','stops','stopped','dead','trace','conds','tainted')
    def __init__(s):
        s.frames=[];s.mem={};s.pc=[];s.ghost={};s.owner=object();s.forks=0;s.retval=None;s.stops=[];s.stopped=None
        s.dead=False;s.trace=[];s.conds=None; s.tainted=False
    def fork(s):
        n=State.__new__(State)
        n.frames=[f.copy() for f in s.frames]
        n.mem=dict(s.mem);n.pc=s.pc[:];n.ghost=dict(s.ghost)
        s.owner=object(); n.owner=object()
        n.forks=s.forks;n.retval=s.retval;n.stops=s.stops[:];n.stopped=None;n.dead=s.dead;n.trace=s.trace[:]
        n.conds=s.conds; n.tainted=s.tainted
        return n
    def add(s,c):
        c=simp(bl(c)) if not isinstance(c,int) else c
        if isinstance(c,int):
            if c: return
            s.pc.append(z3.BoolVal(False)); s.dead=True; return
        s.pc.append(c)

class Ob:
    __slots__=('unit','kind','msg','loc','status','model','time','tainted','inputs')
    def __init__(s,**k):
        for a in s.__slots__: setattr(s,a,k.get(a))

class Exec:
    def __init__(s, prog, unit=None, unroll=16, timeout_ms=4000, hard_ms=40000, seed=1, step_limit=6000000, time_limit=600):
        s.prog=prog; s.unit=unit
        s.solver=PathSolver(timeout_ms,hard_ms,seed)
        s.nfresh=0; s.nobj=0
        s.obs=[]; s.nsyn=0
        s.contracts={}; s.contract_res=[]; s._cres={}; s.inline_only=set()
        s.used=set(); s.inlined=set()
        s.unroll=unroll; s.cuts=set()
        s.gobj={}
        s.dry=0
        s.steps=0; s.step_limit=step_limit; s.deadline=time.time()+time_limit
        s.templates=None
        s.assumptions=set()
        s.loops_cut=[]
        s.failed=0; s.max_fail=12
        s.table_hook=None
        s.addr_c={}
        s.mustpass=set()
        s.on_fail=None
        s.check_variant=True
        s.loops_used={}
    # ------------------------------------------------------------ fresh / objects
    def fresh(s,name,w):
        s.nfresh+=1
        return z3.BitVec('%s!%d'%(name,s.nfresh),w)
    def small(s,st,name,bound=1<<44):
        v=s.fresh(name+'~',64); st.pc.append(z3.ULE(v,bound)); mark_small(v)
        return v
    def index(s,st,name,size):
        """arbitrary index below size"""
        if isinstance(size,int) or linear(simp(size)) is not None: j=s.small(st,name,(1<<51)-1)     # sizes are sums of small terms
        else: j=s.fresh(name,64)
        st.add(z3.ULT(j,bv(size,64)))
        return j
    def freshb(s,name):
        s.nfresh+=1
        return z3.Bool('%s!%d'%(name,s.nfresh))
    def fresharr(s,name):
        s.nfresh+=1
        return z3.Array('%s!%d'%(name,s.nfresh),z3.BitVecSort(64),z3.BitVecSort(8))
    def newobj(s,st,size,kind,name=''):
        s.nobj+=1
        o=Obj(s.nobj,size,kind,name,st.owner)
        if not isinstance(size,int): o.bytesmode=True; o.log=None
        st.mem[o.id]=o
        return o
    def newbytes(s,st,size,kind,name,arr=None):
        """object with symbolic byte content (array)"""
        o=s.newobj(st,size,kind,name)
        o.bytesmode=True
        if arr is None: arr=s.fresharr('mem_'+name)
        o.base=(lambda st_,i,arr=arr: z3.Select(arr,bv(i,64)))
        return o
    def wobj(s,st,oid):
        o=st.mem[oid]
        if o.owner is not st.owner:
            o=o.clone(st.owner); st.mem[oid]=o
        return o
    def obj(s,st,p,what='access'):
        o=st.mem.get(p.obj)
        if o is None and p.obj in s.gobj:
            o=s.gobj[p.obj]; st.mem[p.obj]=o
        return o
    # ------------------------------------------------------------ obligations
    def loc(s,st):
        if not st.frames: return '?'
        return st.frames[-1].f.name
    def prove(s,st,cond,hard=True):
        """is cond implied? True/False/None"""
        cond=simp(bl(cond)) if not isinstance(cond,int) else cond
        if isinstance(cond,int): 
            if cond: return True
            r,_=s.solver.check(st.pc,()); return True if r=='unsat' else False
        r,_=s.solver.check(st.pc,(z3.Not(cond),),hard=hard)
        return True if r=='unsat' else (False if r=='sat' else None)
    def concretize(s,st,t):
        """the only value of t on this path, or None"""
        t=simp(t) if not isinstance(t,int) else t
        if isinstance(t,int): return t
        f=z3.Solver(); f.set('timeout',500)
        for c in st.pc: f.add(c)
        try:
            if f.check()!=z3.sat: return None
            v=f.model().eval(t,model_completion=True)
            if not z3.is_bv_value(v): return None
            f.add(t!=v)
            return v.as_long() if f.check()==z3.unsat else None
        except z3.Z3Exception: return None
    def feasible(s,st,cond=None):
        r,_=s.solver.check(st.pc,() if cond is None else (bl(cond),),hard=False)
        return r!='unsat'
    def oblige(s,st,cond,kind,msg,assume=True):
        """records an obligation; returns False if the path cannot continue"""
        if not isinstance(cond,int): cond=simp(cond)
        if isinstance(cond,int) and cond:
            if not s.dry: s.nsyn+=1
            return True
        if s.dry:
            if isinstance(cond,int): st.dead=True; return False
            st.add(cond); 
            if not s.feasible(st): st.dead=True; return False
            return True
        t=time.time()
        neg=() if isinstance(cond,int) else (z3.Not(cond),)
        r,m=s.solver.check(st.pc,neg,need_model=True)
        ob=Ob(unit=s.unit.name if s.unit else '',kind=kind,msg=msg,loc=s.loc(st),time=time.time()-t,tainted=st.tainted)
        if r=='unsat':
            ob.status='proved'; s.obs.append(ob)
            if isinstance(cond,int): st.dead=True; return False   # infeasible path
            if assume: st.add(cond)
            return True
        if r=='sat': r,m=s.solver.confirm(st.pc,neg,m)
        if r=='unsat':
            ob.status='proved'; s.obs.append(ob)
            if isinstance(cond,int): st.dead=True; return False
            if assume: st.add(cond)
            return True
        ob.status='refuted' if r=='sat' else 'unknown'
        if m is not None and s.unit is not None:
            try: ob.inputs=s.unit.extract(m,st)
            except Exception as e: ob.inputs={'extract-error':repr(e)}
        s.obs.append(ob); s.failed+=1
        if os.environ.get('VCG_DEBUG'):
            print('  OBLIGATION FAILED',ob.status,kind,msg,'in',ob.loc,ob.inputs)
            print('   stack',[f.f.name for f in st.frames])
        if s.failed>=s.max_fail:
            for f in st.frames:
                for h,(n,m,fk) in f.cnt.items():
                    if m>=1 and (f.f.name,h) not in s.cuts: raise NeedCut(f.f.name,h)
            raise Budget('too many failed obligations')
        if isinstance(cond,int) or not assume: st.dead=isinstance(cond,int); return not st.dead
        st.add(cond)
        if not s.feasible(st): st.dead=True; return False
        return True
    def violate(s,st,kind,msg):
        s.oblige(st,0,kind,msg); st.dead=True
    # ------------------------------------------------------------ pointers
    def addr(s,st,p):
        if isinstance(p,int): return p
        if isinstance(p,Fn):
            return z3.BitVec('fnaddr_'+p.name,64)
        key=p.obj
        a=s.addr_c.get(key)
        if a is None:
            a=mark_small(z3.BitVec('addr_%s'%(key,),64)); s.addr_c[key]=a       # (bounded by 2^46 below)
        mk=('addr',key)
        if mk not in st.ghost:
            o=s.obj(st,p)
            st.ghost[mk]=True
            sz=bv(o.size,64) if o is not None else z3.BitVecVal(8,64)
            st.pc.append(z3.And(z3.UGE(a,4096),z3.ULE(a,1<<46),z3.ULE(sz,1<<46),z3.Extract(2,0,a)==0))
        return simp(a+bv(p.off,64)) if not (isinstance(p.off,int) and p.off==0) else a
    def disjoint(s,st,a,b):
        mk=('disj',min(str(a),str(b)),max(str(a),str(b)))
        if mk in st.ghost: return
        st.ghost[mk]=True
        A=s.addr(st,Ptr(a,0)); B=s.addr(st,Ptr(b,0))
        oa=s.obj(st,Ptr(a,0)); ob=s.obj(st,Ptr(b,0))
        sa=bv(oa.size,64) if oa is not None else bv(8,64); sb=bv(ob.size,64) if ob is not None else bv(8,64)
        # objects do not overlap (one-past-the-end of one may be the begin of the other only for zero gap; excluded by <)
        st.pc.append(z3.Or(z3.ULT(A+sa,B),z3.ULT(B+sb,A)))
    def as_int(s,st,v,w):
        """register value as integer of width w (pointers become addresses)"""
        if isinstance(v,(Ptr,Fn)): return s.addr(st,v)
        return v
    # ------------------------------------------------------------ memory
    def cellbyte(s,v,n,k):
        if isinstance(v,int): return (v>>(8*k))&255
        if isinstance(v,(Ptr,Fn,Ghost)): raise Unsupported('byte of pointer/ghost %r'%v)
        if z3.is_bool(v): return z3.If(v,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
        if v.size()<8*n: v=z3.ZeroExt(8*n-v.size(),v)
        return simp(z3.Extract(8*k+7,8*k,v))
    def split_cells(s,o,off,n):
        """remove cells overlapping [off,off+n) (keeping the outside bytes of partially covered ones)"""
        cells=o.cells
        if n<=48:
            cand=[c for c in range(off-63,off+n) if c in cells] if len(cells)>64+n else [c for c in cells if c<off+n]
        else: cand=[c for c in cells if c<off+n]
        for c in cand:
            cn,cv=cells[c]
            if c+cn<=off: continue
            if c>=off and c+cn<=off+n:
                del cells[c]; continue
            if isinstance(cv,(Ptr,Fn)) or (isinstance(cv,Ghost)):
                if isinstance(cv,Ghost): raise Unsupported('raw write into ghost %r'%cv)
                # partial overwrite of a pointer: the rest becomes indeterminate
                del cells[c]; continue
            del cells[c]
            for k in range(cn):
                if not(off<=c+k<off+n): cells[c+k]=(1,s.cellbyte(cv,cn,k))
    def tobytes(s,st,o):
        """convert a cells object to bytes mode"""
        if o.bytesmode: return
        if any(isinstance(v,(Ptr,Fn,Ghost)) for n,v in o.cells.values()): raise Unsupported('bytes mode conversion with pointers')
        snap={}
        for c,(n,v) in o.cells.items():
            for k in range(n): snap[c+k]=s.cellbyte(v,n,k)
        base=o.base or s.uninit_base(o)
        size=o.size
        def fn(st_,i,snap=snap,base=base):
            i=simp(i)
            if isinstance(i,int): 
                return snap[i] if i in snap else base(st_,i)
            r=base(st_,i)
            for c in sorted(snap): r=z3.If(i==c,bv(snap[c],8),r)
            return r
        o.base=fn; o.cells={}; o.bytesmode=True; o.log=None
    def uninit_base(s,o):
        if o.base is None:
            arr=s.fresharr('uninit_%s'%(o.name or o.kind))
            o.base=(lambda st_,i,arr=arr: z3.Select(arr,bv(i,64)))
        return o.base
    def obyte(s,st,o,i,decide=False):
        """byte i (int or BV64) of object o"""
        if o.data is not None:
            if isinstance(i,int): return o.data[i] if 0<=i<len(o.data) else 0
            return s.table(st,o,i,1)
        if not o.bytesmode:
            if isinstance(i,int):
                for c in range(i,i-64,-1):
                    x=o.cells.get(c)
                    if x is not None:
                        n,v=x
                        if c+n>i: return s.cellbyte(v,n,i-c)
                        if n<64: pass
                if o.base is not None:
                    return simp(o.base(st,i))
                b=s.fresh('uninit_%s'%o.name.replace('%',''),8)
                w=s.wobj(st,o.id) if st is not None and o.id in st.mem else o
                w.cells[i]=(1,b)
                return b
            if not isinstance(o.size,int) or o.size>1024: raise Unsupported('symbolic read in large cells object')
            res=None
            for c in range(o.size):
                try: b=s.obyte(st,st.mem.get(o.id,o) if st is not None else o,c)
                except Unsupported: b=z3.BitVecVal(0,8) if st is None or s.prove(st,i!=c) else None
                if b is None: raise Unsupported('symbolic read may hit pointer')
                res=bv(b,8) if res is None else z3.If(i==c,bv(b,8),res)
            return res
        # bytes mode
        node=o.log
        conds=[]
        res=None
        stack=[]
        while node is not None:
            start,ln,fn,nxt=node
            d=simp(bv(i,64)-bv(start,64)) if not(isinstance(i,int) and isinstance(start,int)) else (i-start)&mask(64)
            if isinstance(d,int) and isinstance(ln,int): c=int(d<ln)
            elif isinstance(ln,int) and ln==1: c=simp(bv(i,64)==bv(start,64))
            else: c=simp(z3.ULT(bv(d,64),bv(ln,64)))
            if not isinstance(c,int) and decide and st is not None:
                if s.prove(st,c,hard=False): c=1
                elif s.prove(st,z3.Not(c),hard=False): c=0
            if isinstance(c,int):
                if c:
                    res=fn(st,d); break
            else: stack.append((c,fn,d))
            node=nxt
        if res is None:
            res=s.uninit_base(o)(st,i) if o.base is None else o.base(st,i)
        for c,fn,d in reversed(stack):
            res=z3.If(c,bv(fn(st,d),8),bv(res,8))
        return simp(res) if not isinstance(res,int) else res
    def table(s,st,o,off,n):
        """n-byte little-endian read of a constant table at a symbolic offset"""
        if s.table_hook is not None:
            r=s.table_hook(s,st,o,off,n)
            if r is not None: return r
        if len(o.data)//n<=64 or True:
            # ITE over aligned positions that are possible
            step=n
            if len(o.data)//step>600: raise Unsupported('symbolic read of big table '+o.name)
            g=[]
            if s.prove(st,z3.URem(off,z3.BitVecVal(step,64))==0,hard=False) is not True: 
                if n==1: step=1
                else: raise Unsupported('unaligned symbolic table read '+o.name)
            res=z3.BitVecVal(int.from_bytes(o.data[0:n],'little'),8*n)
            for c in range(step,len(o.data),step):
                res=z3.If(off==c,z3.BitVecVal(int.from_bytes(o.data[c:c+n],'little'),8*n),res)
            return res
    def inb(s,st,o,off,n,what):
        if isinstance(off,int) and isinstance(o.size,int) and isinstance(n,int):
            ok=int(off+n<=o.size)
            if ok: 
                if not s.dry: s.nsyn+=1
                return True
            return s.oblige(st,0,'memory','%s out of bounds: offset %d size %d of %d-byte object %s'%(what,off,n,o.size,o.name))
        sz=bv(o.size,64); of=bv(off,64); nn=bv(n,64)
        if linear(of+nn) is not None: c=z3.ULE(of+nn,sz)        # the sum cannot wrap
        else: c=z3.And(z3.ULE(nn,sz),z3.ULE(of,sz-nn))
        return s.oblige(st,c,'memory','%s within %s'%(what,o.name))
    def deref(s,st,p,n,what):
        if isinstance(p,int):
            if p==0: s.violate(st,'memory',what+' through null pointer'); return None
            raise Unsupported(what+' through integer pointer')
        if not isinstance(p,Ptr):
            if isinstance(p,Fn): raise Unsupported('data access to function')
            raise Unsupported('%s through symbolic pointer %r'%(what,p))
        o=s.obj(st,p)
        if o is None:
            s.violate(st,'memory',what+' to a destroyed object'); return None
        if o.size is None: raise Unsupported('access to opaque external '+o.name)
        if not s.inb(st,o,p.off,n,what): return None
        return o
    def load(s,st,p,n,ty):
        """ty: IR type (scalar)"""
        o=s.deref(st,p,n,'read')
        if o is None: return None
        return s.load_o(st,o,p.off,n,ty)
    def fixup(s,v,n,ty):
        if ty[0]=='ptr':
            if isinstance(v,(Ptr,Fn)) : return v
            if isinstance(v,int) and v==0: return 0
            if isinstance(v,int): raise Unsupported('integer as pointer')
            return v      # symbolic
        if ty[0]=='i' and ty[1]==1:
            if isinstance(v,int): return v&1
            if z3.is_bool(v): return v
            b=as_if01(v)
            return b if b is not None else z3.Extract(0,0,v)==1
        if isinstance(v,z3.ExprRef) and z3.is_bool(v):
            return z3.If(v,z3.BitVecVal(1,ty[1]),z3.BitVecVal(0,ty[1]))
        if isinstance(v,int): return v&mask(ty[1])
        if isinstance(v,z3.ExprRef) and v.size()>ty[1]: v=simp(z3.Extract(ty[1]-1,0,v))
        return v
    def load_o(s,st,o,off,n,ty):
        if o.data is not None:
            if isinstance(off,int): return s.fixup(int.from_bytes(o.data[off:off+n],'little'),n,ty)
            return s.fixup(s.table(st,o,off,n),n,ty)
        if isinstance(off,int):
            x=o.cells.get(off)
            if x is not None and x[0]==n:
                return s.fixup(x[1],n,ty)
            if x is not None and isinstance(x[1],Ghost): raise Unsupported('raw read of ghost %r (%s)'%(x[1],s.loc(st)))
        if o.bytesmode:
            if isinstance(off,int):
                bs=[s.obyte(st,o,off+k,decide=True) for k in range(n)]
            else:
                bs=[s.obyte(st,o,simp(off+k)) for k in range(n)]
        elif isinstance(off,int):
            # ghost overlapping?
            bs=[]
            for k in range(n):
                bs.append(s.obyte(st,st.mem.get(o.id,o),off+k))
        else:
            if n!=1: raise Unsupported('symbolic multi-byte read in cells object')
            return s.fixup(s.obyte(st,o,off),n,ty)
        if all(isinstance(b,int) for b in bs):
            return s.fixup(sum(b<<(8*k) for k,b in enumerate(bs)),n,ty)
        if n==1: v=bs[0]
        else: v=simp(z3.Concat(*[bv(b,8) for b in reversed(bs)]))
        if ty[0]=='ptr': raise Unsupported('pointer assembled from bytes (uninitialised pointer?) in %s'%s.loc(st))
        return s.fixup(v,n,ty)
    def store(s,st,p,n,v):
        o=s.deref(st,p,n,'write')
        if o is None: return
        if o.const: 
            s.violate(st,'memory','write to constant '+o.name); return
        s.store_o(st,s.wobj(st,p.obj),p.off,n,v)
    def store_o(s,st,o,off,n,v):
        if isinstance(v,z3.ExprRef) and z3.is_bool(v): v=z3.If(v,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
        if isinstance(off,int) and not o.bytesmode:
            x=o.cells.get(off)
            if x is not None and x[0]==n and not isinstance(x[1],Ghost): o.cells[off]=(n,v); return
            s.split_cells(o,off,n)
            o.cells[off]=(n,v); return
        if isinstance(v,(Ptr,Fn)) or isinstance(v,Ghost):
            if o.bytesmode and isinstance(off,int):
                o.cells[off]=(n,v); return       # pointer cell overlay in a bytes object (concrete offsets)
            raise Unsupported('pointer store at symbolic offset')
        if not o.bytesmode:
            if isinstance(o.size,int) and o.size<=64:
                # pointwise conditional update
                for k in range(n):
                    b=s.cellbyte(v,n,k)
                    for c in range(o.size):
                        x=o.cells.get(c)
                        d=simp(bv(off,64)+k==c)
                        if isinstance(d,int) and not d: continue
                        if s.overl_ptr(o,c):
                            if s.prove(st,z3.Not(bl(d))): continue
                            raise Unsupported('symbolic store may hit pointer')
                        old=s.obyte(st,o,c)
                        o=s.wobj(st,o.id)
                        s.split_cells(o,c,1)
                        o.cells[c]=(1,simp(z3.If(bl(d),bv(b,8),bv(old,8))))
                return
            s.tobytes(st,o)
        if o.cells and not isinstance(off,int):
            for c,(cn,cv) in list(o.cells.items()):
                if not s.prove(st,z3.Or(z3.UGE(bv(off,64),c+cn),z3.ULE(bv(off,64)+n,c))): raise Unsupported('store may hit pointer cell')
        elif o.cells:
            for c,(cn,cv) in list(o.cells.items()):
                if c<off+n and off<c+cn: del o.cells[c]
        if n==1:
            fn=(lambda st_,d,v=v: v)
        else:
            def fn(st_,d,v=v,n=n):
                if isinstance(d,int): return s.cellbyte(v,n,d)
                r=bv(s.cellbyte(v,n,0),8)
                for k in range(1,n): r=z3.If(d==k,bv(s.cellbyte(v,n,k),8),r)
                return r
        o.log=(off,n,fn,o.log)
    def has_ptr(s,o): return any(isinstance(x[1],(Ptr,Fn,Ghost)) for x in o.cells.values())
    def overl_ptr(s,o,c):
        for k in range(c,c-64,-1):
            x=o.cells.get(k)
            if x is not None:
                return k+x[0]>c and isinstance(x[1],(Ptr,Fn,Ghost))
        return False
    def snapshot(s,st,o):
        return o.clone(None)
    def copy(s,st,dst,src,n,what='memcpy'):
        """memcpy/memmove"""
        if isinstance(n,int) and n==0: return
        if not isinstance(n,int):
            n=simp(n)
            if not isinstance(n,int):
                z=s.prove(st,n==0,hard=False)
                if z is True: return
                if isinstance(dst,int) or isinstance(src,int):
                    # null pointer allowed only when n==0
                    if not s.oblige(st,n==0,'memory',what+' with null pointer has zero length'): return
                    return
        if isinstance(dst,int) or isinstance(src,int):
            s.violate(st,'memory',what+' through null pointer'); return
        so=s.deref_n(st,src,n,what+' source'); 
        if so is None: return
        do=s.deref_n(st,dst,n,what+' destination')
        if do is None: return
        if do.const: s.violate(st,'memory','write to constant'); return
        if not do.bytesmode and isinstance(do.size,int) and do.size<=64 and s.has_ptr(do):
            # a small object with pointers in it: fixed positions wherever the path fixes them
            if not isinstance(dst.off,int):
                c=s.concretize(st,dst.off)
                if c is not None: dst=Ptr(dst.obj,c)
            if not isinstance(n,int):
                c=s.concretize(st,n)
                if c is not None:
                    n=c
                    if n==0: return
        snap=s.snapshot(st,so)
        so_off=src.off
        if isinstance(n,int) and isinstance(so_off,int) and isinstance(dst.off,int) and not do.bytesmode and not so.bytesmode and so.data is None:
            # exact cell copy
            s.materialize_gaps(st,so,so_off,n)
            so=s.obj(st,src)
            items=[]
            for c,(cn,cv) in so.cells.items():
                if c+cn<=so_off or c>=so_off+n: continue
                if c>=so_off and c+cn<=so_off+n: items.append((c-so_off,cn,cv))
                else:
                    if isinstance(cv,(Ptr,Fn,Ghost)): 
                        # partial copy of pointer (e.g. padding copies): indeterminate
                        if isinstance(cv,Ghost): raise Unsupported('partial copy of ghost')
                        continue
                    for k in range(cn):
                        if so_off<=c+k<so_off+n: items.append((c+k-so_off,1,s.cellbyte(cv,cn,k)))
            w=s.wobj(st,dst.obj)
            s.split_cells(w,dst.off,n)
            for a,cn,cv in items: w.cells[dst.off+a]=(cn,cv)
            return
        if isinstance(n,int) and n<=64 and not do.bytesmode and isinstance(dst.off,int):
            bs=[]
            for k in range(n):
                q=src.add(k); bs.append(s.obyte(st,snap,q.off))
            for k,b in enumerate(bs): s.store_o(st,s.wobj(st,dst.obj),dst.off+k,1,b)
            return
        if not do.bytesmode and isinstance(do.size,int) and do.size<=64 and isinstance(dst.off,int):
            # symbolic length into a small object: pointwise
            m=do.size-dst.off
            bs=[]
            for k in range(m):
                q=src.add(k)
                bs.append(s.obyte(st,snap,q.off) if not (snap.bytesmode is False and isinstance(snap.size,int) and isinstance(q.off,int) and q.off>=snap.size) else 0)
            for k,b in enumerate(bs):
                w=s.wobj(st,dst.obj)
                cnd=simp(z3.ULT(z3.BitVecVal(k,64),bv(n,64)))
                if isinstance(cnd,int) and not cnd: break
                if s.overl_ptr(w,dst.off+k) :
                    if s.prove(st,z3.Not(bl(cnd))): continue
                    # whole pointer overwritten by data bytes: allowed, becomes data
                    raise_if=[c for c in range(dst.off+k,dst.off+k-8,-1) if c in w.cells]
                    c0=raise_if[0]
                    if isinstance(w.cells[c0][1],Ghost): raise Unsupported('ghost overwritten')
                    if s.prove(st,cnd) is True:
                        del w.cells[c0]
                    else:
                        # conditional overwrite of a pointer: old bytes indeterminate
                        del w.cells[c0]
                    w=s.wobj(st,dst.obj)
                old=s.obyte(st,w,dst.off+k)
                w=s.wobj(st,dst.obj); s.split_cells(w,dst.off+k,1)
                w.cells[dst.off+k]=(1,simp(z3.If(bl(cnd),bv(b,8),bv(old,8))))
            return
        w=s.wobj(st,dst.obj)
        s.tobytes(st,w)
        lst=None
        if isinstance(n,int) and n<=64 and isinstance(so_off,int) and not snap.bytesmode and snap.data is None:
            lst=[s.obyte(st,snap,so_off+k) for k in range(n)]
        def fn(st_,d,snap=snap,so_off=so_off):
            if lst is not None:
                if isinstance(d,int): return lst[d] if d<len(lst) else 0
                r=bv(lst[-1],8)
                for k in range(len(lst)-1): r=z3.If(bv(d,64)==k,bv(lst[k],8),r)
                return r
            i=(d+so_off) if isinstance(d,int) and isinstance(so_off,int) else simp(bv(d,64)+bv(so_off,64))
            return s.obyte(st_,snap,i)
        if w.cells:
            for c,(cn,cv) in list(w.cells.items()):
                if not s.prove(st,z3.Or(z3.UGE(bv(dst.off,64),c+cn),z3.ULE(bv(dst.off,64)+bv(n,64),c))): raise Unsupported('copy may hit pointer cell')
        w.log=(dst.off,n,fn,w.log)
    def materialize_gaps(s,st,o,off,n): pass
    def deref_n(s,st,p,n,what):
        if not isinstance(p,Ptr): raise Unsupported('%s via %r'%(what,p))
        o=s.obj(st,p)
        if o is None: s.violate(st,'memory',what+' of a destroyed object'); return None
        if not s.inb(st,o,p.off,n,what): return None
        return o
    def fill(s,st,dst,v,n):
        if isinstance(n,int) and n==0: return
        if isinstance(dst,int): 
            s.oblige(st,simp(bv(n,64)==0),'memory','memset null'); return
        do=s.deref_n(st,dst,n,'memset')
        if do is None: return
        w=s.wobj(st,dst.obj)
        if isinstance(n,int) and isinstance(dst.off,int) and not w.bytesmode and n<=4096:
            s.split_cells(w,dst.off,n)
            k=0
            while k<n:
                m=8 if n-k>=8 and isinstance(v,int) else 1
                w.cells[dst.off+k]=(m,v if m==1 else int.from_bytes(bytes([v&255])*8,'little')); k+=m
            return
        s.tobytes(st,w)
        w.log=(dst.off,n,(lambda st_,d,v=v: v if isinstance(v,int) else v),w.log)
    # ------------------------------------------------------------ globals
    def global_ptr(s,st,name):
        if name in s.prog.funcs or name in s.prog.aliases and s.prog.func(name) is not None: return Fn(name)
        key='g:'+name
        if key not in s.gobj:
            g=s.prog.globals.get(name)
            if g is None: return Fn(name)
            g.mod.parse_global(g)
            o=Obj(key,None,'global',name,None)
            o.const=g.const
            s.gobj[key]=o
            if g.external:
                hook=getattr(s.unit,'extern_global',None)
                o.size=None
                if name=='_ZN3bnl4base6loggerE': o.size=8; o.cells[0]=(8,Ptr('g:$logger',0)); s.gobj['g:$logger']=s._logger()
            else:
                o.size=g.mod.sizeof(g.type)
                s.init_global(o,g.mod,g.type,g.init)
                if name=='_ZN3bnl4base6loggerE': o.cells={0:(8,Ptr('g:$logger',0))}; o.data=None; s.gobj['g:$logger']=s._logger()
                if not o.const and o.data is not None:
                    for i in range(0,len(o.data)): o.cells[i]=(1,o.data[i])
                    o.data=None
        return Ptr(key,0)
    def _logger(s):
        o=Obj('g:$logger',64,'global','logger',None); return o
    def init_global(s,o,mod,ty,init):
        data=bytearray(o.size); ptrs={}
        def put(off,ty,op):
            ty=mod.resolve(ty)
            k=op[0]
            if k in('zero','undef','null'): return
            if k=='c':
                n=mod.sizeof(ty); data[off:off+n]=(op[1]&mask(8*n)).to_bytes(n,'little'); return
            if k=='str': data[off:off+len(op[1])]=op[1]; return
            if k=='agg':
                if ty[0]=='a':
                    es=mod.sizeof(ty[2])
                    for j,(t,x) in enumerate(op[1]): put(off+j*es,t,x)
                else:
                    for j,(t,x) in enumerate(op[1]):
                        fo,_=mod.field_off(ty,j); put(off+fo,t,x)
                return
            if k in('g','gep'): ptrs[off]=op; return
            if k=='cast' and op[1] in('inttoptr','ptrtoint'): ptrs[off]=op; return
            if k=='fp': return
            raise Unsupported('global init %r'%(op,))
        put(0,ty,init)
        if ptrs:
            for off,op in ptrs.items():
                try: o.cells[off]=(8,s.const(None,mod,op,('ptr',)))
                except Unsupported: pass
            for i in range(o.size):
                if not any(p<=i<p+8 for p in ptrs): o.cells[i]=(1,data[i])
        else: o.data=bytes(data)
    def const(s,st,mod,op,ty):
        k=op[0]
        if k=='c':
            return op[1]&mask(ty[1]) if ty[0]=='i' else op[1]
        if k=='g': return s.global_ptr(st,op[1])
        if k=='null': return 0
        if k=='zero':
            ty=mod.resolve(ty)
            if ty[0]=='s': return tuple(s.const(st,mod,('zero',),t) for t in ty[1])
            if ty[0]=='a': return tuple(s.const(st,mod,('zero',),ty[2]) for _ in range(ty[1]))
            return 0
        if k=='undef':
            ty=mod.resolve(ty)
            if ty[0]=='s': return tuple(s.const(st,mod,('undef',),t) for t in ty[1])
            if ty[0]=='a': return tuple(s.const(st,mod,('undef',),ty[2]) for _ in range(ty[1]))
            if ty[0]=='i': return s.freshb('undef') if ty[1]==1 else s.fresh('undef',ty[1])
            return 0
        if k=='gep':
            base=s.const(st,mod,op[2],('ptr',))
            return s.gep(st,mod,op[1],base,[(t,s.const(st,mod,x,t)) for t,x in op[3]],False)
        if k=='agg': return tuple(s.const(st,mod,x,t) for t,x in op[1])
        if k=='cast':
            v=s.const(st,mod,op[2],op[3])
            return v
        if k=='bin':
            a=s.const(st,mod,op[2],op[4]); b=s.const(st,mod,op[3],op[4])
            return s.binop(st,op[1],op[4],a,b,())
        if k=='fp': return UNDEF
        raise Unsupported('const %r'%(op,))
    def gep(s,st,mod,bt,base,idx,inb):
        off=0; sym=None
        ty=bt
        for j,(it,v) in enumerate(idx):
            if j==0: es=mod.sizeof(bt)
            else:
                ty=mod.resolve(ty)
                if ty[0]=='s':
                    fo,ty=mod.field_off(ty,v); off+=fo; continue
                es=mod.sizeof(ty[2]); ty=ty[2]
            if isinstance(v,(Ptr,Fn)): v=s.addr(st,v)
            if isinstance(v,int): off+=sgn(v,it[1])*es
            else:
                w=it[1]
                e=z3.SignExt(64-w,v) if w<64 else v
                e=e*es if es!=1 else e
                sym=e if sym is None else sym+e
        if isinstance(base,int):
            if base==0:
                if sym is None and off==0: return 0
                if sym is None: raise Unsupported('offset from null pointer in %s'%s.loc(st)) if False else Unsupported('null+%d'%off)
                t=simp(sym+off)
                if isinstance(t,int) and t==0: return 0
                if s.prove(st,bv(t,64)==0): return 0
                raise Unsupported('symbolic offset from null')
            raise Unsupported('gep on int')
        if not isinstance(base,Ptr): raise Unsupported('gep on %r'%(base,))
        if sym is None: return base.add(off&mask(64))
        return base.add(simp(sym+off))
    # ------------------------------------------------------------ expressions
    def ev(s,st,fr,op,ty):
        k=op[0]
        if k=='r': return fr.regs[op[1]]
        if k=='c': return op[1]&mask(ty[1])
        return s.const(st,fr.f.mod,op,ty)
    def binop(s,st,o,ty,a,b,fl):
        w=ty[1]
        if isinstance(a,(Ptr,Fn)) or isinstance(b,(Ptr,Fn)):
            if o=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj:
                if isinstance(a.off,int) and isinstance(b.off,int): return (a.off-b.off)&mask(64)
                return simp(bv(a.off,64)-bv(b.off,64))
            if o in('add','sub') and isinstance(a,Ptr) and not isinstance(b,(Ptr,Fn)):
                return a.add(b if o=='add' else (-b if not isinstance(b,int) else (-b)&mask(64)))
            a=s.as_int(st,a,w); b=s.as_int(st,b,w)
        if w==1:
            if isinstance(a,int) and isinstance(b,int):
                return {'and':a&b,'or':a|b,'xor':a^b,'add':(a+b)&1,'sub':(a-b)&1}[o]
            A=bl(a);B=bl(b)
            return simp({'and':z3.And,'or':z3.Or,'xor':z3.Xor}[o](A,B))
        if isinstance(a,int) and isinstance(b,int):
            M=mask(w)
            if o=='add':
                r=a+b
                if 'nsw' in fl and not -(1<<(w-1))<=sgn(a,w)+sgn(b,w)<(1<<(w-1)): s.violate(st,'arithmetic','signed overflow in add'); return 0
                return r&M
            if o=='sub':
                if 'nsw' in fl and not -(1<<(w-1))<=sgn(a,w)-sgn(b,w)<(1<<(w-1)): s.violate(st,'arithmetic','signed overflow in sub'); return 0
                return (a-b)&M
            if o=='mul':
                if 'nsw' in fl and not -(1<<(w-1))<=sgn(a,w)*sgn(b,w)<(1<<(w-1)): s.violate(st,'arithmetic','signed overflow in mul'); return 0
                return (a*b)&M
            if o=='and': return a&b
            if o=='or': return a|b
            if o=='xor': return a^b
            if o in('shl','lshr','ashr'):
                if b>=w: s.violate(st,'arithmetic','shift amount >= width'); return 0
                if o=='shl': return (a<<b)&M
                if o=='lshr': return a>>b
                return (sgn(a,w)>>b)&M
            if o in('udiv','urem','sdiv','srem'):
                if b==0: s.violate(st,'arithmetic','division by zero'); return 0
                if o=='udiv': return a//b
                if o=='urem': return a%b
                x,y=sgn(a,w),sgn(b,w)
                q=abs(x)//abs(y)
                if (x<0)!=(y<0): q=-q
                if o=='sdiv': return q&M
                return (x-q*y)&M
            raise Unsupported(o)
        if o=='and':
            if isinstance(a,int) and a==0 or isinstance(b,int) and b==0: return 0
            if isinstance(b,int) and b==mask(w): return a
        if o in('or','xor','add'):
            if isinstance(a,int) and a==0: return b
            if isinstance(b,int) and b==0: return a
        if o in('sub','shl','lshr','ashr') and isinstance(b,int) and b==0: return a
        A=bv(a,w);B=bv(b,w)
        if o=='add':
            if 'nsw' in fl: s.oblige(st,z3.And(z3.BVAddNoOverflow(A,B,True),z3.BVAddNoUnderflow(A,B)),'arithmetic','no signed overflow in addition')
            return A+B
        if o=='sub':
            if 'nsw' in fl: s.oblige(st,z3.And(z3.BVSubNoOverflow(A,B),z3.BVSubNoUnderflow(A,B,True)),'arithmetic','no signed overflow in subtraction')
            return A-B
        if o=='mul':
            if 'nsw' in fl: s.oblige(st,z3.And(z3.BVMulNoOverflow(A,B,True),z3.BVMulNoUnderflow(A,B)),'arithmetic','no signed overflow in multiplication')
            return A*B
        if o=='and': return simp(A&B)
        if o=='or': return simp(A|B)
        if o=='xor': return A^B
        if o in('shl','lshr','ashr'):
            if isinstance(b,int):
                if b>=w: s.violate(st,'arithmetic','shift amount >= width'); return 0
            else: s.oblige(st,z3.ULT(B,w),'arithmetic','shift amount below %d'%w)
            return simp({'shl':lambda:A<<B,'lshr':lambda:z3.LShR(A,B),'ashr':lambda:A>>B}[o]())
        if o in('udiv','urem','sdiv','srem'):
            if isinstance(b,int):
                if b==0: s.violate(st,'arithmetic','division by zero'); return 0
            else: s.oblige(st,B!=0,'arithmetic','divisor is not zero')
            return simp({'udiv':lambda:z3.UDiv(A,B),'urem':lambda:z3.URem(A,B),'sdiv':lambda:A/B,'srem':lambda:z3.SRem(A,B)}[o]())
        raise Unsupported(o)
    def icmp(s,st,pr,ty,a,b):
        if ty[0]=='ptr' or isinstance(a,(Ptr,Fn)) or isinstance(b,(Ptr,Fn)):
            return s.pcmp(st,pr,a,b)
        w=ty[1]
        if isinstance(a,int) and isinstance(b,int):
            if pr[0]=='s' : a=sgn(a,w); b=sgn(b,w)
            k=pr[1:] if pr[0] in'us' else pr
            return int({'eq':a==b,'ne':a!=b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[k])
        if w==1:
            A=bl(a);B=bl(b)
            if pr=='eq': return simp(A==B)
            if pr=='ne': return simp(z3.Xor(A,B))
            raise Unsupported('icmp i1 '+pr)
        if isinstance(b,int) and not isinstance(a,int) and pr in('eq','ne') and b in(0,1):
            c=as_if01(a)
            if c is not None:
                if (pr=='eq')==(b==1): return c
                return simp(z3.Not(c))
        A=bv(a,w);B=bv(b,w)
        f={'eq':lambda:A==B,'ne':lambda:A!=B,'ugt':lambda:z3.UGT(A,B),'uge':lambda:z3.UGE(A,B),'ult':lambda:z3.ULT(A,B),'ule':lambda:z3.ULE(A,B),
           'sgt':lambda:A>B,'sge':lambda:A>=B,'slt':lambda:A<B,'sle':lambda:A<=B}[pr]
        return simp(f())
    def pcmp(s,st,pr,a,b):
        if isinstance(a,Fn) or isinstance(b,Fn):
            if isinstance(a,Fn) and isinstance(b,Fn): e=a.name==b.name
            else: e=False
            if pr=='eq': return int(e)
            if pr=='ne': return int(not e)
            raise Unsupported('function pointer order')
        if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj:
            return s.icmp(st,pr,('i',64),a.off,b.off)
        if pr in('eq','ne'):
            if isinstance(a,int) and isinstance(b,int): e=int(a==b)
            elif (isinstance(a,Ptr) and isinstance(b,int)) or (isinstance(a,int) and isinstance(b,Ptr)):
                x=b if isinstance(a,Ptr) else a
                if x!=0: raise Unsupported('pointer compared with integer')
                e=0
            elif isinstance(a,Ptr) and isinstance(b,Ptr): e=0
            else:
                A=s.as_int(st,a,64);B=s.as_int(st,b,64)
                return simp(bv(A,64)==bv(B,64)) if pr=='eq' else simp(bv(A,64)!=bv(B,64))
            return e if pr=='eq' else 1-e
        if isinstance(a,Ptr) and isinstance(b,Ptr): s.disjoint(st,a.obj,b.obj)
        A=s.as_int(st,a,64);B=s.as_int(st,b,64)
        return s.icmp(st,pr,('i',64),A,B)
    def cast(s,st,o,ft,v,tt):
        if o in('bitcast','addrspacecast','freeze'): return v
        if o=='ptrtoint':
            if isinstance(v,(Ptr,Fn)) and tt[1]==64: return v
            return v
        if o=='inttoptr':
            if isinstance(v,(Ptr,Fn)): return v
            if isinstance(v,int): return v
            raise Unsupported('inttoptr of symbolic')
        if isinstance(v,(Ptr,Fn)): v=s.as_int(st,v,64)
        fw,tw=ft[1],tt[1]
        if o=='zext':
            if isinstance(v,int): return v
            if fw==1: return z3.If(bl(v),z3.BitVecVal(1,tw),z3.BitVecVal(0,tw))
            b=as_if01(v)
            if b is not None: return z3.If(b,z3.BitVecVal(1,tw),z3.BitVecVal(0,tw))
            return z3.ZeroExt(tw-fw,v)
        if o=='sext':
            if isinstance(v,int): return sgn(v,fw)&mask(tw)
            if fw==1: return z3.If(bl(v),z3.BitVecVal(mask(tw),tw),z3.BitVecVal(0,tw))
            return z3.SignExt(tw-fw,v)
        if o=='trunc':
            if isinstance(v,int): return v&mask(tw)
            if tw==1:
                b=as_if01(v)
                if b is not None: return b
                return simp(z3.Extract(0,0,v)==1)
            return simp(z3.Extract(tw-1,0,v))
        raise Unsupported('cast '+o)
    # ------------------------------------------------------------ control
    def push(s,st,f,args,dst):
        fr=Frame.__new__(Frame)
        fr.f=f; fr.label=f.order[0]; fr.blk=f.blocks[fr.label]; fr.ip=0; fr.prev=None; fr.allocs=[]; fr.dst=dst; fr.cnt={}
        fr.regs={}; fr.key=None
        if len(args)!=len(f.params): raise Unsupported('argument count for %s'%f.name)
        for (ty,nm,at),v in zip(f.params,args):
            if 'byval' in at:
                n=f.mod.sizeof(at['byval'])
                o=s.newobj(st,n,'stack','byval'); fr.allocs.append(o.id)
                s.copy(st,Ptr(o.id,0),v,n,'byval copy')
                v=Ptr(o.id,0)
            fr.regs[nm]=v
        if len(st.frames)>120: raise Unsupported('call depth')
        st.frames.append(fr)
        s.inlined.add(f.name)
    def contract(s,name):
        if name in s._cres: return s._cres[name]
        d=s.prog.short(name)
        if d in s.inline_only: s._cres[name]=None; return None
        h=s.contracts.get(d)
        if h is None: h=s.contracts.get(name)
        if h is None:
            for rx,hh in s.contract_res:
                if rx.match(d): h=hh; break
        s._cres[name]=h
        return h
    def call(s,st,name,args,rt=None):
        """nested call from a handler: returns list of (state,value)"""
        h=s.contract(name)
        if h is not None:
            s.used.add(name)
            r=h(s,st,list(args),name)
            return r if isinstance(r,list) else [(st,r)]
        f=s.prog.func(name)
        if f is None: raise Unsupported('no body for %s'%name)
        depth=len(st.frames)
        s.push(st,f,list(args),NESTED)
        stops=st.stops; st.stops=[]
        rs=s.run([st],depth)
        out=[]
        for x in rs:
            x.stops=stops[:]
            if not x.dead: out.append((x,x.retval))
        return out
    def call1(s,st,name,args):
        r=s.call(st,name,args)
        if len(r)!=1 or r[0][0] is not st: raise Unsupported('nested call %s forked'%name)
        return r[0][1]
    def run(s,work,depth):
        done=[]
        work=list(work)
        while work:
            st=work.pop()
            if st.dead: continue
            if st.stopped is not None: done.append(st); continue
            s.advance(st,depth,work,done)
        return done
    def goto(s,st,fr,target,work):
        """returns True if st continues, False if it was stopped/replaced"""
        f=fr.f
        if st.stops:
            d,header,body=st.stops[-1]
            if d==len(st.frames):
                if target==header: st.stopped=('back',target); return False
                if target not in body: st.stopped=('exit',target); return False
        loops=natural_loops(f)
        if target in loops:
            body=loops[target]
            inside=fr.label in body
            if (f.name,target) in s.cuts:
                if not inside:
                    outs=s.cut_loop(st,fr,target,body)
                    for o in outs: work.append(o)
                    st.dead=True
                    return False
            else:
                c=fr.cnt.get(target)
                if not inside or c is None: fr.cnt[target]=(0,0,st.forks)
                else:
                    n,m,fk=c
                    n+=1
                    if st.forks!=fk: m+=1
                    if m>s.unroll or n>4000: raise NeedCut(f.name,target)
                    fr.cnt[target]=(n,m,st.forks)
        fr.prev=fr.label; fr.label=target; fr.blk=f.blocks[target]; fr.ip=0
        # phis
        blk=fr.blk
        if blk[0][0]=='phi':
            vals=[]
            i=0
            while blk[i][0]=='phi':
                _,dst,ty,inc=blk[i]
                for lab,v in inc:
                    if lab==fr.prev: vals.append((dst,s.ev(st,fr,v,ty))); break
                else: raise Unsupported('phi')
                i+=1
            for d,v in vals: fr.regs[d]=v
            fr.ip=i
        return True
    def branch(s,st,c):
        """list of (state,taken) for symbolic condition"""
        c=simp(c) if not isinstance(c,int) else c
        if isinstance(c,int): return [(st,c)]
        r1,_=s.solver.check(st.pc,(c,),hard=False)
        if r1=='unsat': return [(st,0)]
        nc=z3.Not(c)
        r2,_=s.solver.check(st.pc,(nc,),hard=False)
        if r2=='unsat': 
            return [(st,1)]
        if st.conds is not None: st.conds.append(c)
        st.forks+=1
        o=st.fork()
        st.pc.append(c); o.pc.append(nc)
        return [(st,1),(o,0)]
    def advance(s,st,depth,work,done):
        while True:
            if st.dead: return
            fr=st.frames[-1]
            ins=fr.blk[fr.ip]
            op=ins[0]
            s.steps+=1
            if s.steps&1023==0:
                if time.time()>s.deadline: raise Budget('time limit of the unit')
                if s.steps>s.step_limit: raise Budget('step limit')
            if op=='load':
                ty=ins[2]
                p=s.ev(st,fr,ins[3],('ptr',))
                rty=fr.f.mod.resolve(ty) if ty[0]=='n' else ty
                if rty[0] in('s','a'): v=s.load_agg(st,fr.f.mod,p,rty)
                else: v=s.load(st,p,fr.f.mod.sizeof(rty),rty)
                if st.dead: return
                fr=st.frames[-1]
                fr.regs[ins[1]]=v
            elif op=='store':
                ty=ins[2]; v=s.ev(st,fr,ins[3],ty)
                p=s.ev(st,fr,ins[4],('ptr',))
                rty=fr.f.mod.resolve(ty) if ty[0]=='n' else ty
                if rty[0] in('s','a'): s.store_agg(st,fr.f.mod,p,rty,v)
                else: s.store(st,p,fr.f.mod.sizeof(rty),v)
            elif op=='gep':
                idx=[(t,s.ev(st,fr,x,t)) for t,x in ins[4]]
                fr.regs[ins[1]]=s.gep(st,fr.f.mod,ins[2],s.ev(st,fr,ins[3],('ptr',)),idx,ins[5])
            elif op=='alloca':
                n=s.ev(st,fr,ins[3],('i',64))
                o=s.newobj(st,fr.f.mod.sizeof(ins[2])*n,'stack',ins[1])
                fr.allocs.append(o.id)
                fr.regs[ins[1]]=Ptr(o.id,0)
            elif op=='br':
                if not s.goto(st,fr,ins[2],work): 
                    if st.stopped: done.append(st)
                    return
                continue
            elif op=='cbr':
                c=s.ev(st,fr,ins[2],('i',1))
                if isinstance(c,int):
                    if not s.goto(st,fr,ins[3] if c else ins[4],work):
                        if st.stopped: done.append(st)
                        return
                    continue
                rs=s.branch(st,c)
                for x,t in rs[1:]:
                    xf=x.frames[-1]
                    if s.goto(x,xf,ins[3] if t else ins[4],work): work.append(x)
                    elif x.stopped: done.append(x)
                x,t=rs[0]
                if not s.goto(x,x.frames[-1],ins[3] if t else ins[4],work):
                    if x.stopped: done.append(x)
                    return
                continue
            elif op=='switch':
                v=s.ev(st,fr,ins[3],ins[2])
                v=simp(v)
                if isinstance(v,int):
                    tgt=ins[4]
                    for c,l in ins[5]:
                        if c&mask(ins[2][1])==v: tgt=l; break
                    if not s.goto(st,fr,tgt,work):
                        if st.stopped: done.append(st)
                        return
                    continue
                outs=[]
                rest=[]
                cur=st
                groups={}
                for c,l in ins[5]: groups.setdefault(l,[]).append(c&mask(ins[2][1]))
                alive=True
                for l,cs in groups.items():
                    cond=z3.Or([v==c for c in cs]) if len(cs)>1 else (v==cs[0])
                    br=s.branch(cur,cond)
                    if len(br)==2: outs.append((br[0][0],l)); cur=br[1][0]
                    elif br[0][1]==1: outs.append((br[0][0],l)); alive=False; break
                    else: cur=br[0][0]
                if alive: outs.append((cur,ins[4]))
                # note: first fork keeps identity of st in outs
                for x,l in outs:
                    if s.goto(x,x.frames[-1],l,work): work.append(x)
                    elif x.stopped: done.append(x)
                return
            elif op=='bin':
                ty=ins[3]
                if ty[0]!='i': raise Unsupported('vector op')
                fr.regs[ins[1]]=s.binop(st,ins[2],ty,s.ev(st,fr,ins[4],ty),s.ev(st,fr,ins[5],ty),ins[6])
            elif op=='icmp':
                fr.regs[ins[1]]=s.icmp(st,ins[2],ins[3],s.ev(st,fr,ins[4],ins[3]),s.ev(st,fr,ins[5],ins[3]))
            elif op=='cast':
                fr.regs[ins[1]]=s.cast(st,ins[2],ins[3],s.ev(st,fr,ins[4],ins[3]),ins[5])
            elif op=='call':
                if s.do_call(st,fr,ins,work,done): continue
                return
            elif op=='ret':
                v=None if ins[3] is None else s.ev(st,fr,ins[3],ins[2])
                for a in fr.allocs: st.mem.pop(a,None)
                st.frames.pop()
                st.retval=v
                if fr.dst is NESTED or len(st.frames)==depth:
                    if len(st.frames)!=depth: raise Unsupported('frame discipline')
                    done.append(st); return
                caller=st.frames[-1]
                ci=caller.blk[caller.ip]
                if ci[1] is not None: caller.regs[ci[1]]=v
                if ci[5] is not None:
                    if not s.goto(st,caller,ci[5],work):
                        if st.stopped: done.append(st)
                        return
                else: caller.ip+=1
                continue
            elif op=='select':
                c=s.ev(st,fr,ins[2],('i',1))
                if isinstance(c,int): fr.regs[ins[1]]=s.ev(st,fr,ins[4] if c else ins[5],ins[3])
                else:
                    a=s.ev(st,fr,ins[4],ins[3]); b=s.ev(st,fr,ins[5],ins[3])
                    if ins[3][0]=='i':
                        if ins[3][1]==1: fr.regs[ins[1]]=simp(z3.If(bl(c),bl(a),bl(b)))
                        else: fr.regs[ins[1]]=z3.If(bl(c),bv(s.as_int(st,a,64),ins[3][1]),bv(s.as_int(st,b,64),ins[3][1]))
                    else:
                        rs=s.branch(st,c)
                        for x,t in rs:
                            xf=x.frames[-1]; xf.regs[ins[1]]=a if t else b; xf.ip+=1
                            if x is not st: work.append(x)
                        continue
            elif op=='extractvalue':
                v=s.ev(st,fr,ins[3],ins[2])
                for i in ins[4]: v=v[i]
                fr.regs[ins[1]]=v
            elif op=='insertvalue':
                v=s.ev(st,fr,ins[3],ins[2]); e=s.ev(st,fr,ins[5],ins[4])
                def put(v,path):
                    if not path: return e
                    v=list(v); v[path[0]]=put(v[path[0]],path[1:]); return tuple(v)
                fr.regs[ins[1]]=put(v,ins[6])
            elif op=='unreachable':
                s.violate(st,'unreachable','unreachable code reached in %s'%fr.f.name); return
            elif op=='freeze': fr.regs[ins[1]]=s.ev(st,fr,ins[3],ins[2])
            elif op=='nop': pass
            elif op=='phi': raise Unsupported('stray phi')
            elif op in('landingpad','resume'): raise Unsupported('exception path')
            else: raise Unsupported('instruction %s'%(ins[2] if op=='unsupported' else op))
            if st.dead: return
            st.frames[-1].ip+=1
    def load_agg(s,st,mod,p,ty):
        ty=mod.resolve(ty)
        if ty[0]=='s': 
            return tuple(s.load_agg(st,mod,p.add(mod.field_off(ty,i)[0]),t) for i,t in enumerate(ty[1]))
        if ty[0]=='a':
            n=mod.sizeof(ty[2]); return tuple(s.load_agg(st,mod,p.add(i*n),ty[2]) for i in range(ty[1]))
        return s.load(st,p,mod.sizeof(ty),ty)
    def store_agg(s,st,mod,p,ty,v):
        ty=mod.resolve(ty)
        if ty[0]=='s':
            for i,t in enumerate(ty[1]): s.store_agg(st,mod,p.add(mod.field_off(ty,i)[0]),t,v[i])
        elif ty[0]=='a':
            n=mod.sizeof(ty[2])
            for i in range(ty[1]): s.store_agg(st,mod,p.add(i*n),ty[2],v[i])
        else: s.store(st,p,mod.sizeof(ty),v)
    def do_call(s,st,fr,ins,work,done):
        _,dst,rt,callee,args,to,uw=ins
        if callee[0]=='g': name=callee[1]
        else:
            p=s.ev(st,fr,callee,('ptr',))
            if isinstance(p,Fn): name=p.name
            else: raise Unsupported('indirect call via %r in %s'%(p,fr.f.name))
        vals=[s.ev(st,fr,x,t) if t[0]!='meta' else None for t,x,at in args]
        # byval attributes on contract calls: pass the pointer itself
        h=s.contract(name)
        if h is None:
            h=BUILTINS.get(name)
            if h is None:
                for rx,hh in BUILTIN_RES:
                    if rx.match(name): h=hh; BUILTINS[name]=hh; break
        else: s.used.add(name)
        if h is not None:
            r=h(s,st,vals,name)
            outs=r if isinstance(r,list) else [(st,r)]
            first=True
            cont=False
            for x,v in outs:
                if x.dead: continue
                xf=x.frames[-1]
                if dst is not None: xf.regs[dst]=v
                if to is not None:
                    ok=s.goto(x,xf,to,work)
                    if not ok:
                        if x.stopped: done.append(x)
                        continue
                else: xf.ip+=1
                if x is st: cont=True
                else: work.append(x)
            return cont
        f=s.prog.func(name)
        if f is None: raise Unsupported('external function %s called from %s'%(name,fr.f.name))
        s.push(st,f,vals,dst)
        return True
    # ------------------------------------------------------------ loops
    def cut_loop(s,st,fr,header,body):
        from .loops import cut_loop
        return cut_loop(s,st,fr,header,body)

# ---------------------------------------------------------------- builtins
BUILTINS={}
BUILTIN_RES=[]
def builtin(*names):
    def d(f):
        for n in names: BUILTINS[n]=f
        return f
    return d
def builtin_re(rx):
    def d(f): BUILTIN_RES.append((re.compile(rx),f)); return f
    return d

@builtin_re(r'llvm\.(memcpy|memmove)\.')
def _memcpy(ex,st,a,n): ex.copy(st,a[0],a[1],a[2]); return None
@builtin('memcpy','memmove')
def _memcpy2(ex,st,a,n): ex.copy(st,a[0],a[1],a[2]); return a[0]
@builtin_re(r'llvm\.memset\.')
def _memset(ex,st,a,n): ex.fill(st,a[0],a[1],a[2]); return None
@builtin('memset')
def _memset2(ex,st,a,n): ex.fill(st,a[0],a[1],a[2]); return a[0]
@builtin_re(r'llvm\.(lifetime|dbg|assume|experimental|donothing|var\.annotation|stacksave|stackrestore)')
def _nop(ex,st,a,n): return None
@builtin_re(r'llvm\.expect\.')
def _exp(ex,st,a,n): return a[0]
@builtin_re(r'llvm\.is\.constant')
def _isc(ex,st,a,n): return 0
@builtin('llvm.trap')
def _trap(ex,st,a,n): ex.violate(st,'unreachable','trap'); return None
@builtin_re(r'llvm\.umul\.with\.overflow\.i64')
def _umulo(ex,st,a,n):
    x,y=a
    if isinstance(x,int) and isinstance(y,int): return ((x*y)&mask(64),int(x*y>mask(64)))
    X=bv(x,64);Y=bv(y,64)
    return (simp(X*Y),simp(z3.Not(z3.BVMulNoOverflow(X,Y,False))))
@builtin_re(r'llvm\.uadd\.with\.overflow\.i64')
def _uaddo(ex,st,a,n):
    x,y=a
    if isinstance(x,int) and isinstance(y,int): return ((x+y)&mask(64),int(x+y>mask(64)))
    X=bv(x,64);Y=bv(y,64)
    return (simp(X+Y),simp(z3.Not(z3.BVAddNoOverflow(X,Y,False))))
def _minmax(f):
    def h(ex,st,a,n): 
        if isinstance(a[0],int) and isinstance(a[1],int): return (min if f=='umin' else max)(a)
        A=bv(a[0],64);B=bv(a[1],64)
        return simp(z3.If(z3.ULT(A,B),A,B) if f=='umin' else z3.If(z3.ULT(A,B),B,A))
    return h
BUILTIN_RES.append((re.compile(r'llvm\.umin\.i64'),_minmax('umin')))
BUILTIN_RES.append((re.compile(r'llvm\.umax\.i64'),_minmax('umax')))
@builtin('__assert_fail','__assert_perror_fail')
def _assert(ex,st,a,n):
    msg='?'
    try:
        p=a[0]; o=ex.obj(st,p); msg=o.data[p.off:].split(b'\0')[0].decode()
    except Exception: pass
    ex.violate(st,'assertion','assert(%s)'%msg); return None
@builtin('abort','_ZSt9terminatev','__clang_call_terminate','__cxa_pure_virtual','exit')
def _abort(ex,st,a,n): ex.violate(st,'abort','%s reached'%n); return None
@builtin_re(r'_ZSt\d+__throw_|__cxa_throw|_ZN9__gnu_cxx\d+__throw|__cxa_rethrow|_ZSt28__throw_bad_array_new_lengthv')
def _throw(ex,st,a,n): ex.violate(st,'exception','exception thrown (%s)'%n); return None
@builtin('_Znwm','_Znam','malloc')
def _new(ex,st,a,n):
    sz=simp(a[0])
    if not isinstance(sz,int): 
        # allocation of more than the address space allows fails by throwing: outside the contract
        ex.assumptions.add('operator new succeeds (an allocation failure terminates the process)')
        st.add(z3.ULT(sz,1<<46))
        o=ex.newobj(st,sz,'heap','heap')
    else:
        o=ex.newobj(st,sz,'heap','heap')
    return Ptr(o.id,0)
@builtin('_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','free','_ZdlPvSt11align_val_t')
def _delete(ex,st,a,n):
    p=a[0]
    if isinstance(p,int):
        if p==0: return None
        raise Unsupported('delete of integer')
    o=ex.obj(st,p)
    if o is None: ex.violate(st,'memory','delete of a destroyed object (double free)'); return None
    if o.kind!='heap': ex.violate(st,'memory','delete of a %s object %s'%(o.kind,o.name)); return None
    if not ex.oblige(st,simp(bv(p.off,64)==0) if not isinstance(p.off,int) else int(p.off==0),'memory','delete of an interior pointer'): return None
    st.mem.pop(p.obj,None)
    return None
@builtin('memcmp','bcmp','__builtin_memcmp')
def _memcmp(ex,st,a,n):
    p,q,ln=a
    return memcmp(ex,st,p,q,ln)
def memcmp(ex,st,p,q,ln):
    ln=simp(ln)
    if isinstance(ln,int) and ln==0: return 0
    if isinstance(p,int) or isinstance(q,int):
        if not ex.oblige(st,simp(bv(ln,64)==0),'memory','memcmp with null pointer has zero length'): return 0
        return 0
    po=ex.deref_n(st,p,ln,'memcmp'); 
    if po is None: return 0
    qo=ex.deref_n(st,q,ln,'memcmp')
    if qo is None: return 0
    ps=ex.snapshot(st,po);qs=ex.snapshot(st,qo)
    if not isinstance(ln,int):
        c=ex.concretize(st,ln)
        if c is not None: ln=c
    if isinstance(ln,int) and ln<=256:
        eqs=[]
        for k in range(ln):
            eqs.append(bv(ex.obyte(st,ps,p.add(k).off),8)==bv(ex.obyte(st,qs,q.add(k).off),8))
        e=simp(z3.And(eqs))
        if isinstance(e,int): return 0 if e else 1
        r=ex.fresh('memcmp',32)
        st.add((r==0)==e)
        return r
    # symbolic length: r==0 iff all bytes equal, as an uninterpreted predicate with witness facts
    r=ex.fresh('memcmp',32)
    w=ex.fresh('cmpw',64)
    A=lambda i: bv(ex.obyte(st,ps,simp(bv(p.off,64)+bv(i,64))),8)
    B=lambda i: bv(ex.obyte(st,qs,simp(bv(q.off,64)+bv(i,64))),8)
    # if different: witness w
    st.add(z3.Implies(r!=0,z3.And(z3.ULT(w,bv(ln,64)),A(w)!=B(w))))
    # if equal: instantiable fact, kept in ghost for units
    lst=list(st.ghost.get('memcmp_facts',()))
    lst.append((r,ln,A,B,w))
    st.ghost['memcmp_facts']=lst
    return r
@builtin('strlen')
def _strlen(ex,st,a,n):
    p=a[0]
    o=ex.obj(st,p)
    if o is not None and o.data is not None and isinstance(p.off,int):
        i=o.data.find(b'\0',p.off)
        return i-p.off
    if o is not None and isinstance(o.size,int) and isinstance(p.off,int) and not o.bytesmode:
        k=p.off
        while k<o.size:
            b=ex.obyte(st,o,k)
            if not isinstance(b,int): raise Unsupported('strlen symbolic')
            if b==0: return k-p.off
            k+=1
    h=getattr(ex.unit,'strlen',None)
    if h: return h(ex,st,p)
    raise Unsupported('strlen of symbolic string')
@builtin('__cxa_guard_acquire')
def _ga(ex,st,a,n):
    k=('guard',a[0].obj if isinstance(a[0],Ptr) else 0)
    if k in st.ghost: return 0
    st.ghost[k]=True; return 1
@builtin('__cxa_guard_release','__cxa_atexit','__cxa_guard_abort')
def _gr(ex,st,a,n): return 0
@builtin_re(r'_ZNK3bnl4base3log3apiclI')
def _log(ex,st,a,n):
    ex.assumptions.add('logging calls have no effect on the verified state and do not throw')
    return None
