"""Cutting loops by inferred inductive invariants.

cut_loop: (1) finds the locations a loop modifies (fixpoint of dry iterations), (2) havocs them, (3) infers the
strongest inductive conjunction out of a candidate set (Houdini), candidates being stated in terms of the entry
values, the iteration count k and specification terms offered by the unit, (4) re-proves initialisation and
preservation as recorded obligations, together with a termination measure, and continues on the loop's exits.
Nothing here depends on names of variables or on the shape of the loop body.
"""
import z3, itertools
from .smt import *
from . import exec as X

class Loc:
    """a modified scalar location: cell (obj,off,size)"""
    __slots__=('oid','off','n','kind','pobj','var','init','extra')

def cells_diff(ex,a,b,oids):
    """locations whose content differs between states a and b (objects in oids)"""
    cells=set(); blobs=set()
    for oid in oids:
        oa=a.mem.get(oid); ob=b.mem.get(oid)
        if oa is ob: continue
        if oa is None: continue
        if ob is None:
            blobs.add((oid,'gone')); continue
        if oa.log is not ob.log or oa.bytesmode!=ob.bytesmode: blobs.add((oid,'bytes'))
        if oa.bytesmode and not ob.bytesmode: blobs.add((oid,'bytes'))
        ka=oa.cells; kb=ob.cells
        for c in set(ka)|set(kb):
            x=ka.get(c); y=kb.get(c)
            if x is None and y is None: continue
            if x is not None and y is not None and x[0]==y[0] and same(x[1],y[1]): continue
            if y is None:
                if ob.bytesmode and not oa.bytesmode: continue
                cells.add((oid,c,x[0])); continue
            if x is not None: cells.add((oid,c,x[0]))
            cells.add((oid,c,y[0]))
    return cells,blobs

def same(x,y):
    if x is y: return True
    if isinstance(x,int) or isinstance(y,int): return x==y if type(x)==type(y) else False
    if isinstance(x,X.Ptr) and isinstance(y,X.Ptr): return x.obj==y.obj and same(x.off,y.off)
    if isinstance(x,X.Fn) and isinstance(y,X.Fn): return x.name==y.name
    if isinstance(x,X.Ghost) or isinstance(y,X.Ghost):
        return type(x)==type(y) and x.same(y)
    if isinstance(x,z3.ExprRef) and isinstance(y,z3.ExprRef): return x.eq(y)
    return False

class Ctx:
    """what candidate generators see"""
    pass

def stop_iter(ex,st,fr,header,body,depth):
    """run one iteration of st (positioned at header) and return (back states, exit states)"""
    st.stops=st.stops+[(depth,header,body)]
    fr=st.frames[-1]
    # enter the header block without the stop test
    fr.prev=fr.label if fr.prev is None else fr.label
    fr.label=header; fr.blk=fr.f.blocks[header]; fr.ip=0
    if fr.blk[0][0]=='phi': raise X.Unsupported('phi in loop header')
    rs=run_stop(ex,st,depth)
    back=[];exits=[]
    for r in rs:
        if r.dead: continue
        if r.stopped is None:      # returned out of the function from inside the loop
            exits.append(r); continue
        kind,t=r.stopped
        r.stops=r.stops[:-1]; 
        if kind=='back': back.append(r)
        else: exits.append(r)
    return back,exits

def run_stop(ex,st,depth):
    done=[]; work=[st]
    while work:
        s=work.pop()
        if s.dead: continue
        if s.stopped is not None: done.append(s); continue
        ex.advance(s,-1,work,done)
    return done

def cut_loop(ex,st,fr,header,body):
    depth=len(st.frames)
    fname=fr.f.name
    entry_oids=list(st.mem.keys())
    unit=ex.unit
    # ---- modified locations
    mods={}      # (oid,off,n) -> True
    blobs=set()
    for rnd in range(12):
        H,info=havoc(ex,st,mods,blobs)
        ex.dry+=1
        H.conds=[]
        try:
            H2=H.fork(); H2.owner=object(); H2.conds=H.conds
            back,exits=stop_iter(ex,H2,H2.frames[-1],header,body,depth)
        finally: ex.dry-=1
        new=False
        for b in back:
            cs,bs=cells_diff(ex,H,b,entry_oids)
            for c in cs:
                if (c[0],'bytes') in blobs: 
                    # pointer overlay cells are kept
                    pass
                if c not in mods: mods[c]=True; new=True
            for x in bs:
                if x[1]=='gone': raise X.Unsupported('loop destroys an object allocated outside')
                if x not in blobs: blobs.add(x); new=True
        # normalise overlapping cells: keep the smallest pieces? -> widest common cover by dropping overlaps
        mods=normalise(mods,st,blobs)
        if not new: break
    else: raise X.Unsupported('modified set of loop does not stabilise')
    conds=H.conds or []
    # ---- candidates
    k=mark_small(z3.BitVec('iter!%d'%(ex.nfresh+1),64)); ex.nfresh+=1
    C=Ctx(); C.ex=ex; C.entry=st; C.hav=H; C.info=info; C.k=k; C.conds=conds; C.unit=unit; C.fname=fname; C.header=header
    C.back=back; C.depth=depth
    cands=gen_candidates(C)
    blobc=gen_blob_candidates(C,blobs)
    # ---- initiation filter
    keep=[]
    for c in cands:
        t=c.at(C.init_env,z3.BitVecVal(0,64))
        if ex.prove(st,t,hard=False): keep.append(c)
    cands=keep
    mark=[ex.nfresh,ex.nobj]
    def houdini(cands,blobc):
        for rnd in range(40):
            # every pass names its fresh variables and objects alike, so that equal questions are asked once
            ex.nfresh,ex.nobj=mark
            H,_=havoc(ex,st,mods,blobs,info)
            apply_blobs(ex,H,C,blobc)
            ex.dry+=1
            try:
                S=H.fork(); S.owner=object()
                assume(ex,S,C,cands,k)
                if not ex.feasible(S): break
                back,exits=stop_iter(ex,S,S.frames[-1],header,body,depth)
            finally: ex.dry-=1
            dropped=False
            for b in back:
                ex.dry+=1
                try:
                    env=env_of(ex,b,info)
                    onback(ex,b,C,k)
                    for c in list(cands):
                        t=rewritten(ex,b,C,k,c.at(env,simpk(k+1)))
                        if not ex.prove(b,t,hard=c.hard):
                            cands.remove(c); dropped=True
                    for bc in list(blobc):
                        if not bc.check(ex,b,C,env,simpk(k+1),dry=True):
                            r=bc.weaken(); dropped=True
                            if r is None: blobc.remove(bc)
                finally: ex.dry-=1
            if not dropped: return cands,blobc
        else: raise X.Unsupported('invariant inference does not converge')
        return cands,blobc
    # phase 1: definitions of variables as functions of the entry state and the iteration count
    defs=[c for c in cands if c.defn is not None]
    rest=[c for c in cands if c.defn is None]
    if defs:
        got,_=houdini(list(defs),[])
        used={}
        for c in got:
            v,e=c.defn
            if v.get_id() not in used: used[v.get_id()]=(v,e)
        info.subst=list(used.values())
        for v,e in info.subst: C.id_env[v.get_id()]=(v,e)
        sub=set(id(c) for c in got)
        rest=rest+[c for c in defs if id(c) not in sub]
        defs=got
    rest,blobc=houdini(defs+rest,blobc)
    cands=rest
    # ---- final recorded pass
    ex.nfresh,ex.nobj=mark
    key='%s:%s'%(fname,header)
    if not ex.dry:
        ex.loops_used[key]=dict(candidates=[c.name for c in cands][:60],blobs=[b.name for b in blobc])
        for c in cands:
            ex.oblige(st,c.at(C.init_env,z3.BitVecVal(0,64)),'loop-invariant','holds on entry: '+c.name)
    H,_=havoc(ex,st,mods,blobs,info)
    apply_blobs(ex,H,C,blobc)
    S=H
    assume(ex,S,C,cands,k)
    if not ex.feasible(S): raise X.Unsupported('contradictory invariant (vacuous loop) in '+fname)
    ghost_loop(ex,S,C)
    back,exits=stop_iter(ex,S,S.frames[-1],header,body,depth)
    for b in back:
        env=env_of(ex,b,info)
        onback(ex,b,C,k)
        if not ex.dry:
            for c in cands:
                ex.oblige(b,rewritten(ex,b,C,k,c.at(env,simpk(k+1))),'loop-invariant','preserved: '+c.name)
        for bc in blobc:
            bc.check(ex,b,C,env,simpk(k+1),dry=bool(ex.dry))
    if back and not ex.dry and ex.check_variant: variant(ex,back,C,info)
    # exits continue
    outs=[]
    for e in exits:
        if e.dead: continue
        if e.stopped is None: 
            raise X.Unsupported('return inside a cut loop')  # handled by goto of the return block normally
        t=e.stopped[1]; e.stopped=None
        f2=e.frames[-1]
        w=[]
        if ex.goto(e,f2,t,w): outs.append(e)
        elif e.stopped: outs.append(e)
        outs+=w
    return outs

def simpk(t): return z3.simplify(t)

def normalise(mods,st,blobs):
    bl=set(b[0] for b in blobs)
    byobj={}
    for (o,c,n) in mods: byobj.setdefault(o,set()).add((c,n))
    out={}
    for o,cs in byobj.items():
        cs=sorted(cs)
        merged=[]
        for c,n in cs:
            if merged and c<merged[-1][0]+merged[-1][1]:
                # overlap: union
                a,m=merged[-1]
                merged[-1]=(a,max(a+m,c+n)-a)
            else: merged.append((c,n))
        for c,n in merged: out[(o,c,n)]=True
    return out

class Info:
    pass

def havoc(ex,st,mods,blobs,info=None):
    """copy of st with the modified locations replaced by fresh variables (the same ones as recorded in info)"""
    H=st.fork(); H.owner=object(); 
    first=info is None
    if first: info=Info(); info.vars=[]; info.cells={}; info.blob={}; info.subst=[]
    for (oid,off,n) in mods:
        o=st.mem[oid]
        x=o.cells.get(off)
        w=ex.wobj(H,oid)
        keyc=(oid,off,n)
        if keyc in info.cells:
            v=info.cells[keyc][0]
        else:
            if x is not None and x[0]==n: iv=x[1]
            elif x is None and not any((off+j) in o.cells for j in range(n)):
                iv=None
            else:
                try:
                    bs=[ex.obyte(st,o,off+j) for j in range(n)]
                    iv=sum(b<<(8*j) for j,b in enumerate(bs)) if all(isinstance(b,int) for b in bs) else simp(z3.Concat(*[bv(b,8) for b in reversed(bs)]))
                except X.Unsupported: iv=None
            if isinstance(iv,X.Ptr):
                var=ex.fresh('lp',64)
                v=X.Ptr(iv.obj,var)
                info.vars.append((keyc,'ptr',var,bv(iv.off,64),iv.obj))
            elif isinstance(iv,X.Ghost):
                v,gv=iv.havoc(ex,H)
                for nm,var,init in gv: info.vars.append((keyc,'ghost:'+nm,var,init,None))
            elif isinstance(iv,X.Fn): raise X.Unsupported('loop modifies function pointer')
            elif iv is None and n<=8:
                v=ex.fresh('lu',8*n); info.vars.append((keyc,'undef',v,None,None))
            elif n<=8:
                if isinstance(iv,z3.ExprRef) and z3.is_bool(iv): iv=z3.If(iv,z3.BitVecVal(1,8*n),z3.BitVecVal(0,8*n))
                v=ex.fresh('lv',8*n)
                info.vars.append((keyc,'int',v,bv(iv,8*n),None))
            elif iv is None:
                v=None
            else:
                v=ex.fresh('lw',8*n); info.vars.append((keyc,'int',v,bv(iv,8*n),None))
            info.cells[keyc]=(v,iv)
        if info.subst: v=subst_val(v,info.subst)
        # clear overlapping and set
        if isinstance(info.cells[keyc][1],X.Ghost):
            w.cells[off]=(n,v)
        else:
            ghosts=[c for c in w.cells if c<off+n and c+w.cells[c][0]>off]
            for c in ghosts:
                if isinstance(w.cells[c][1],X.Ghost): raise X.Unsupported('loop overwrites ghost')
                del w.cells[c]
            if v is not None: w.cells[off]=(n,v)
            else: w.base=None
    for (oid,kind) in blobs:
        w=ex.wobj(H,oid)
        if not w.bytesmode: ex.tobytes(H,w)
        if oid not in info.blob:
            arr=ex.fresharr('blob')
            info.blob[oid]=arr
        arr=info.blob[oid]
        w.log=(0,w.size,(lambda st_,i,arr=arr: z3.Select(arr,bv(i,64))),None)
    return H,info

def subst_val(v,sub):
    if isinstance(v,z3.ExprRef): return simp(z3.substitute(v,*sub))
    if isinstance(v,X.Ptr): return X.Ptr(v.obj,simp(z3.substitute(bv(v.off,64),*sub)))
    if isinstance(v,X.Ghost): return v.subst(lambda t: simp(z3.substitute(t,*sub)) if isinstance(t,z3.ExprRef) else t)
    return v
def env_of(ex,st,info):
    """current values of the havoced variables in state st"""
    env={}
    for keyc,kind,var,init,extra in info.vars:
        oid,off,n=keyc
        o=st.mem.get(oid)
        val=None
        if o is not None:
            x=o.cells.get(off)
            if kind=='ptr':
                if x is not None and isinstance(x[1],X.Ptr) and x[1].obj==extra: val=bv(x[1].off,64)
            elif kind.startswith('ghost:'):
                if x is not None and isinstance(x[1],X.Ghost):
                    d=x[1].parts(ex,st)
                    val=d.get(kind[6:])
            else:
                try:
                    if x is not None and x[0]==n: val=x[1]
                    else:
                        bs=[ex.obyte(st,st.mem[oid],off+j) for j in range(n)]
                        val=sum(b<<(8*j) for j,b in enumerate(bs)) if all(isinstance(b,int) for b in bs) else simp(z3.Concat(*[bv(b,8) for b in reversed(bs)]))
                    if isinstance(val,(X.Ptr,X.Fn,X.Ghost)): val=None
                    else:
                        if isinstance(val,z3.ExprRef) and z3.is_bool(val): val=z3.If(val,z3.BitVecVal(1,8*n),z3.BitVecVal(0,8*n))
                        val=bv(val,8*n)
                except X.Unsupported: val=None
        env[var.get_id()]=(var,val)
        if val is None and kind in('ptr',) : raise X.Unsupported('loop pointer changes object')
    return env

class Cand:
    __slots__=('name','term','hard','defn')
    def __init__(s,name,term,hard=False,defn=None): s.name=name; s.term=term; s.hard=hard; s.defn=defn
    def at(s,env,k):
        """term(vars,k) is a python function: vars -> list of values"""
        return s.term(env,k)

def mkterm(expr,k0):
    """candidate given as z3 expression over havoc vars and k0: substitution based"""
    def t(env,k):
        sub=[(k0,k)]
        for var,val in env.values():
            if val is None:
                continue
            sub.append((var,val))
        return z3.substitute(expr,*sub)
    return t

def onback(ex,b,C,k):
    f=getattr(C.unit,'on_iter',None)
    if f: 
        for c in f(ex,b,C,k): b.add(c)

def rewritten(ex,b,C,k,t):
    """t with specification functions at k+1 replaced by their definitions, where the definition's condition is proved"""
    f=getattr(C.unit,'rewrite',None)
    if f is None: return t
    sub=[(l,r) for l,r,g in f(ex,b,C,k) if ex.prove(b,g)]
    return z3.substitute(t,*sub) if sub else t
def ghost_loop(ex,S,C):
    f=getattr(C.unit,'on_loop',None)
    if f: f(ex,S,C)

def assume(ex,S,C,cands,k):
    for c in cands:
        S.add(c.at(C.id_env,k))
    S.pc.append(z3.ULT(k,1<<50))
    f=getattr(C.unit,'loop_axioms',None)
    if f:
        for a in f(ex,S,C,k): S.add(a)

def gen_candidates(C):
    ex=C.ex; info=C.info; k=C.k
    C.init_env={}; C.id_env={}
    for keyc,kind,var,init,extra in info.vars:
        C.init_env[var.get_id()]=(var,init); C.id_env[var.get_id()]=(var,var)
    cands=[]; names=set()
    def add(name,expr,hard=False,defn=None):
        nm=name
        if isinstance(expr,bool): return
        key=expr.get_id()
        if key in names: return
        names.add(key)
        cands.append(Cand(nm,mkterm(expr,k),hard,defn))
    # observed deltas
    backs=[env_of(ex,b,info) for b in C.back]
    hv=C.hav
    nums=[]
    for keyc,kind,var,init,extra in info.vars:
        if kind=='undef': continue
        w=var.size()
        nums.append((keyc,kind,var,init))
        lab='%s@%s+%d'%(kind,keyc[0],keyc[1])
        add(lab+' unchanged',var==init,defn=(var,init))
        add(lab+' not below entry',z3.UGE(var,init))
        add(lab+' not above entry',z3.ULE(var,init))
        if w==64 or w==32:
            ds=set()
            for e in backs:
                val=e[var.get_id()][1]
                if val is None: continue
                d=simp(val-var)
                if isinstance(d,int): ds.add(d)
            kk=k if w==64 else z3.Extract(w-1,0,k)
            for d in ds:
                if d: add(lab+' = entry + %d*k'%sgn(d,w),var==init+z3.BitVecVal(d,w)*kk,defn=(var,init+z3.BitVecVal(d,w)*kk))
        if w<=8:
            for cst in set(simp(e[var.get_id()][1]) for e in backs if e[var.get_id()][1] is not None):
                if isinstance(cst,int): add(lab+' = %d'%cst,var==cst,defn=(var,z3.BitVecVal(cst,w)))
            add(lab+' is 0 or 1',z3.ULE(var,1))
    for (ka,da,va,ia),(kb,db,vb,ib) in itertools.combinations(nums,2):
        if va.size()==vb.size()==64:
            add('%s@%s+%d - %s@%s+%d constant'%(da,ka[0],ka[1],db,kb[0],kb[1]),va-ia==vb-ib)
            add('%s@%s+%d + %s@%s+%d constant'%(da,ka[0],ka[1],db,kb[0],kb[1]),va+vb==ia+ib)
    # conditions on the loop's paths
    ids=set(v.get_id() for _,_,v,_,_ in info.vars)
    def only_entry(e):
        return True
    for c in C.conds:
        for f in weaken(c): add('branch '+str(f)[:80].replace('\n',' '),f)
    f=getattr(C.unit,'candidates',None)
    if f:
        for t in f(ex,C): add(t[0],t[1],True,t[2] if len(t)>2 else None)
    # memory bounds of pointers
    for keyc,kind,var,init,extra in info.vars:
        if kind=='ptr':
            o=C.entry.mem.get(extra)
            if o is not None and o.size is not None: add('pointer within object',z3.ULE(var,bv(o.size,64)))
    return cands

def weaken(c):
    out=[c]
    d=c.decl().kind()
    ch=c.children()
    if d==z3.Z3_OP_NOT:
        c2=ch[0]; out.append(c2)
        d2=c2.decl().kind(); ch2=c2.children()
        out+=cmpw(d2,ch2)
    else:
        out.append(z3.Not(c)); out+=cmpw(d,ch)
    return out
def cmpw(d,ch):
    if len(ch)!=2 or not z3.is_bv(ch[0]): return []
    a,b=ch
    if d in(z3.Z3_OP_ULT,z3.Z3_OP_ULEQ,z3.Z3_OP_UGT,z3.Z3_OP_UGEQ,z3.Z3_OP_EQ): return [z3.ULE(a,b),z3.ULE(b,a),a==b]
    if d in(z3.Z3_OP_SLT,z3.Z3_OP_SLEQ,z3.Z3_OP_SGT,z3.Z3_OP_SGEQ): return [a<=b,b<=a]
    return []

# ------------------------------------------------------------ byte regions written by the loop
class SeqStore:
    """bytes of object oid: [s0,v) hold f(i) (i = position relative to s0), everything else is as on entry"""
    def __init__(s,name,oid,start,cur,f,C,extra=None,cases=None,splits=None):
        s.cases=cases; s.splits=splits; s.name=name; s.oid=oid; s.start=start; s.cur=cur; s.f=f; s.C=C; s.extra=extra
    def content(s,ex,st,i,env,k):
        """expected byte i of the object when loop variables are env and the count is k"""
        cur=z3.substitute(s.cur,*([(s.C.k,k)]+[(v,x) for v,x in env.values() if x is not None]))
        o=s.C.entry.mem[s.oid]
        i=bv(i,64)
        old=bv(ex.obyte(st,o,simp(i)),8)
        rel=i-s.start
        cur=z3.simplify(cur)
        inside=bl(simp(z3.And(z3.ULE(s.start,i),z3.ULT(i,cur))))
        r=z3.If(inside,bv(s.f(st,simp(rel)),8),old)
        if s.extra is not None: r=s.extra(st,i,env,k,r,cur)
        return r
    def install(s,ex,H):
        w=ex.wobj(H,s.oid)
        C=s.C
        def fn(st_,i): return s.content(ex,st_,i,C.id_env,C.k)
        w.log=(0,w.size,fn,None)
    def check(s,ex,b,C,env,k,dry):
        o=b.mem.get(s.oid)
        b2=b.fork()
        j=ex.index(b2,'jj',o.size)
        b2.add(z3.ULT(j,bv(o.size,64)))
        lhs=bv(ex.obyte(b2,o,j),8)
        rhs=s.content(ex,b2,j,env,k)
        f=getattr(C.unit,'blob_axioms',None)
        if f:
            for a in f(ex,b2,C,C.k,j,s): b2.add(a)
        cs=[simp(t) for t in s.cases()] if s.cases else []
        for t in cs+(['<','>'] if cs else [None]):
            b3=b2.fork() if cs else b2
            if t is None: l,r=lhs,rhs
            elif t in('<','>') if isinstance(t,str) else False:
                b3.add(z3.ULT(j,bv(cs[0],64)) if t=='<' else z3.ULT(bv(cs[-1],64),j))
                for q in cs: b3.add(j!=q)
                l=bv(ex.obyte(b3,b3.mem[s.oid],j,decide=True),8); r=s.content(ex,b3,j,env,k)
            else:
                b3.add(z3.ULT(bv(t,64),bv(o.size,64)))
                if b3.dead: continue
                l=bv(ex.obyte(b3,o,t),8); r=s.content(ex,b3,t,env,k)
            if s.splits and t is not None and not isinstance(t,str):
                q=s.split_prove(ex,b3,l==r,dry)
                if not q: return q
                continue
            if dry:
                q=ex.prove(b3,l==r)
                if not q: return q
            else: ex.oblige(b3,l==r,'loop-invariant','bytes written so far: '+s.name,assume=True)
        return True
    def split_prove(s,ex,st,goal,dry):
        """the goal, by cases on the values of the split terms (exhaustiveness is an obligation too)"""
        sp=s.splits()
        allc=[]
        for t,vs in sp: allc.append(z3.BoolVal(True) if len(vs)==1<<min(t.size(),20) else z3.Or([t==v for v in vs]))
        whole=z3.And(allc)
        if dry:
            if not ex.prove(st,whole): return ex.prove(st,goal)
        else: ex.oblige(st,whole,'loop-invariant','case split is exhaustive')
        ck=('split',frozenset(c.get_id() for c in st.pc),goal.get_id()); hit=ex.solver.cache.get(ck)
        if hit is not None:
            if not dry: ex.obs.append(X.Ob(unit=ex.unit.name,kind='loop-invariant',msg='bytes written so far: '+s.name,loc=ex.loc(st),time=0,status='proved'))
            return True
        ids=set(t.get_id() for t,_ in sp)
        rel=[c for c in reversed(st.pc) if mentions(c,ids)]
        rids=set(c.get_id() for c in rel)
        base=small_facts(rel+[goal])+[c for c in st.pc if c.get_id() not in rids]
        bad=None
        sol=z3.Solver(); sol.set('timeout',2000); sol.add(base)
        def rec(pc,g,sp):
            nonlocal bad
            if bad is not None or (isinstance(g,int) and g): return
            if not sp:
                sol.push()
                for c in pc: sol.add(c)
                sol.add(z3.Not(bl(g))); q=sol.check(); sol.pop(); ex.solver.nq+=1
                ex.solver.backends['z3']=ex.solver.backends.get('z3',0)+1
                if q!=z3.unsat:
                    f=st.fork(); f.pc=f.pc+base+pc
                    if ex.prove(f,g) is not True: bad=(f,g)
                return
            (t,vs),rest=sp[0],sp[1:]
            for v in vs:
                sub=(t,z3.BitVecVal(v,t.size())); out=[]; ok=True
                for c in pc:
                    c2=z3.simplify(z3.substitute(c,sub))
                    if z3.is_false(c2): ok=False; break
                    if not z3.is_true(c2): out.append(c2)
                if ok: rec(out,simp(z3.substitute(bl(g),sub)),rest)
        rec(rel,goal,sp)
        if bad is None: ex.solver.cache[ck]=('unsat',list(st.pc),[goal])
        if dry: return bad is None
        if bad is not None: ex.oblige(bad[0],bad[1],'loop-invariant','bytes written so far: '+s.name)
        else:
            ob=X.Ob(unit=ex.unit.name,kind='loop-invariant',msg='bytes written so far: '+s.name,loc=ex.loc(st),time=0,status='proved'); ex.obs.append(ob)
        return bad is None
    def weaken(s): return None

def gen_blob_candidates(C,blobs):
    ex=C.ex; out=[]
    f=getattr(C.unit,'blob_candidates',None)
    for oid,kind in blobs:
        made=None
        if f: made=f(ex,C,oid)
        if made is None: made=auto_seq(C,oid)
        if made is not None: out.append(made)
    return out

def auto_seq(C,oid):
    """one byte stored per iteration at entry+k"""
    ex=C.ex
    H=C.hav
    best=None
    for b in C.back:
        node=b.mem[oid].log; h=H.mem[oid].log
        if node is h: continue
        if node is None or node[3] is not h: return None
        best=(node,b); 
    if best is None: return None
    node,b=best
    start,ln,fn,_=node
    if ln!=1: return None
    # position at iteration k
    ptrs=[(var,init) for keyc,kind,var,init,extra in C.info.vars]
    sub0=[(var,init) for var,init in ptrs if init is not None]
    env=[]
    # express variables as functions of k using observed constant deltas
    sub=[]
    kk=z3.BitVec('pos!%d'%ex.nfresh,64); ex.nfresh+=1
    for keyc,kind,var,init,extra in C.info.vars:
        if init is None: continue
        ds=set()
        ok=True
        for bb in C.back:
            val=env_of(ex,bb,C.info)[var.get_id()][1]
            d=simp(val-var) if val is not None else None
            if isinstance(d,int): ds.add(d)
            else: ok=False
        if ok and len(ds)==1:
            d=ds.pop(); w=var.size()
            kw=kk if w==64 else (z3.Extract(w-1,0,kk) if w<64 else z3.ZeroExt(w-64,kk))
            sub.append((var,init+z3.BitVecVal(d,w)*kw))
    pos=z3.substitute(bv(start,64),*sub) if sub else bv(start,64)
    pos=z3.simplify(pos)
    p0=z3.simplify(z3.substitute(pos,(kk,z3.BitVecVal(0,64))))
    if simp(pos-p0-kk)!=0: return None
    val=fn(b,0)
    if isinstance(val,int): valt=z3.BitVecVal(val,8)
    else: valt=z3.substitute(val,*sub) if sub else val
    names=set(v.get_id() for _,_,v,_,_ in C.info.vars)
    if mentions(valt,names): return None
    def f(st,rel,valt=valt,kk=kk): return z3.substitute(valt,(kk,bv(rel,64)))
    return SeqStore('sequential store',oid,p0,p0+C.k,f,C,cases=lambda: [simp(p0+C.k)])

def small_facts(es):
    seen=set(); st=list(es); out=[]
    while st:
        x=st.pop()
        if not isinstance(x,z3.ExprRef) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in SMALL and SMALL[x.get_id()].eq(x): out.append(z3.ULT(x,1<<51))
        st+=x.children()
    return out
def mentions(e,ids):
    seen=set(); st=[e]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        st+=x.children()
    return False

def apply_blobs(ex,H,C,blobc):
    for b in blobc: b.install(ex,H)

def variant(ex,back,C,info):
    """termination: a quantity bounded by 2^49 strictly increases or decreases on every back edge (so the number of
    iterations stays below the 2^50 assumed for k)"""
    lim=z3.BitVecVal(1<<49,64)
    for keyc,kind,var,init,extra in info.vars:
        if var.size()<32 or init is None: continue
        cur=C.id_env[var.get_id()][1]; cur=var if cur is None else cur
        z=lambda t: z3.ZeroExt(64-t.size(),t) if t.size()<64 else t
        if var.size()>64: continue
        for up in (True,False):
            obs=[]; ok=True
            for b in back:
                val=env_of(ex,b,info)[var.get_id()][1]
                if val is None: ok=False;break
                if up: t=z3.And(z3.UGT(val,cur),z3.ULE(z(cur),lim))
                else: t=z3.And(z3.ULT(val,cur),z3.ULE(z(init),lim))
                if not ex.prove(b,t,hard=False): ok=False;break
                obs.append((b,t))
            if ok:
                for b,t in obs: ex.oblige(b,t,'termination','bounded loop measure strictly %s'%('increases' if up else 'decreases'))
                return
    f=getattr(C.unit,'variant',None)
    if f:
        for m in f(ex,C):
            # m(state env) -> term; decreasing
            ok=True; obs=[]
            for b in back:
                new=m(env_of(ex,b,info)); old=m(C.id_env); ini=m(C.init_env)
                t=z3.And(z3.ULT(new,old),z3.ULE(ini,lim))
                if not ex.prove(b,t): ok=False; break
                obs.append((b,t))
            if ok:
                for b,t in obs: ex.oblige(b,t,'termination','bounded loop measure strictly decreases')
                return
    for b in back: ex.oblige(b,z3.BoolVal(False),'termination','loop in %s makes progress'%ex.prog.short(C.fname),assume=False)
