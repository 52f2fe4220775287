"""Solver layer: incremental path solver with a portfolio fallback."""
import z3, time, os, subprocess, tempfile
z3.set_param('model.completion', True)

class Unknown(Exception): pass

def smt2(pc,extra):
    f=z3.Solver()
    for c in pc: f.add(c)
    for e in extra: f.add(e)
    return f.to_smt2()

class Portfolio:
    """the command line solvers on a query, in parallel; the first definitive answer wins"""
    def __init__(s,txt,secs=60,backends=('z3-4.8','cvc5')):
        fd,s.fn=tempfile.mkstemp(suffix='.smt2'); os.write(fd,txt.encode()); os.close(fd)
        cmds={'z3-4.8':['z3','-T:%d'%max(1,int(secs)),s.fn],'cvc5':['cvc5','--tlimit=%d'%int(secs*1000),'-q','--lang=smt2',s.fn]}; s.ps={}
        for b in backends:
            try: s.ps[b]=subprocess.Popen(cmds[b],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)
            except OSError: pass
    def wait(s,secs):
        end=time.time()+secs+1; d=0.004
        while s.ps and time.time()<end:
            for b,p in list(s.ps.items()):
                if p.poll() is not None:
                    o=p.stdout.read().strip().split('\n')[0]; p.stdout.close()
                    del s.ps[b]
                    if o in('sat','unsat'): return o,b
            time.sleep(d); d=min(0.05,d*1.3)
        return 'unknown',None
    def close(s):
        for p in s.ps.values():
            try: p.kill(); p.wait(); p.stdout.close()
            except OSError: pass
        s.ps={}
        try: os.unlink(s.fn)
        except OSError: pass
def external(txt,secs):
    p=Portfolio(txt,secs)
    try: return p.wait(secs)
    finally: p.close()

def satisfies(m,es):
    return all(z3.is_true(m.eval(e,model_completion=True)) for e in es)
def valid(m,extra):
    for e in extra:
        if z3.is_false(m.eval(e,model_completion=True)): return False
    return True
# ------------------------------------------------------------ linear integer abstraction
class Lia:
    """translates formulas to integer arithmetic where they compare non-wrapping sums of small terms; every other atom
    becomes an opaque boolean.  The translation is weaker than the original, so unsat answers carry over."""
    def __init__(s): s.cache={}; s.vars={}; s.keep=[]; s.subs={}
    def var(s,x,side):
        i=x.get_id()
        if i not in s.vars:
            s.vars[i]=z3.Int('t%d'%i); s.keep.append(x)
        v=s.vars[i]; side[i]=z3.And(v>=0,v<(1<<51)); return v
    def big(s,x,side):
        """an opaque term of any value"""
        i=x.get_id()
        if i not in s.vars: s.vars[i]=z3.Int('t%d'%i); s.keep.append(x)
        v=s.vars[i]; side[i]=z3.And(v>=0,v<(1<<x.size())); return v
    def lin(s,t,side):
        w=t.size()
        if w<64:
            if z3.is_bv_value(t): return z3.IntVal(t.as_long())
            if t.decl().kind()==z3.Z3_OP_EXTRACT and t.params()[1]==0 and t.arg(0).size()==64:
                x=s.lin(t.arg(0),side)
                return None if x is None else z3.If(x<(1<<w),x,s.big(t,side))
            return None
        l=linearz(t)
        if l is None: return s.big(t,side) if t.decl().kind()==z3.Z3_OP_UNINTERPRETED else None
        terms,c=l
        if not terms: return z3.IntVal(c if c>=0 else c+(1<<64))
        r=z3.Sum([z3.IntVal(c)]+[k*s.var(x,side) for x,k in terms.values()])
        # exact: a negative sum wraps around once
        return r if c>=0 and all(k>=0 for _,k in terms.values()) else z3.If(r<0,r+(1<<64),r)
    def atom(s,e,side):
        b=z3.Bool('a%d'%e.get_id()); s.keep.append(e); return b
    def tr(s,e):
        """(formula, side conditions, has arithmetic)"""
        i=e.get_id(); r=s.cache.get(i)
        if r is not None: return r
        r=s._tr(e); s.cache[i]=r; s.keep.append(e); return r
    def _tr(s,e):
        k=e.decl().kind()
        if k==z3.Z3_OP_TRUE or k==z3.Z3_OP_FALSE: return e,{},False
        if k in(z3.Z3_OP_NOT,z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_IMPLIES,z3.Z3_OP_XOR) or (k in(z3.Z3_OP_EQ,z3.Z3_OP_ITE) and z3.is_bool(e.arg(e.num_args()-1))):
            rs=[s.tr(c) for c in e.children()]; ch=[r[0] for r in rs]; side={}
            for r in rs: side.update(r[1])
            f={z3.Z3_OP_NOT:lambda: z3.Not(ch[0]),z3.Z3_OP_AND:lambda: z3.And(ch),z3.Z3_OP_OR:lambda: z3.Or(ch),z3.Z3_OP_IMPLIES:lambda: z3.Implies(*ch),
               z3.Z3_OP_XOR:lambda: z3.Xor(*ch),z3.Z3_OP_EQ:lambda: ch[0]==ch[1],z3.Z3_OP_ITE:lambda: z3.If(*ch)}[k]()
            return f,side,any(r[2] for r in rs)
        if k in(z3.Z3_OP_ULEQ,z3.Z3_OP_ULT,z3.Z3_OP_UGEQ,z3.Z3_OP_UGT,z3.Z3_OP_EQ) and z3.is_bv(e.arg(0)):
            if k==z3.Z3_OP_EQ and z3.is_app_of(e.arg(0),z3.Z3_OP_EXTRACT) and e.arg(0).params()[0]==63 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long()==0:
                side={}; a=s.lin(e.arg(0).arg(0),side) if e.arg(0).arg(0).size()==64 else None
                if a is not None: return a<(1<<e.arg(0).params()[1]),side,True
            side={}; a=s.lin(e.arg(0),side); b=s.lin(e.arg(1),side) if a is not None else None
            if b is not None:
                f={z3.Z3_OP_ULEQ:lambda: a<=b,z3.Z3_OP_ULT:lambda: a<b,z3.Z3_OP_UGEQ:lambda: a>=b,z3.Z3_OP_UGT:lambda: a>b,z3.Z3_OP_EQ:lambda: a==b}[k]()
                return f,side,True
        return s.atom(e,{}),{},False
    def eqs(s,pc):
        """substitutions the path's equations suggest: loop variables by their sums, specification terms by small variables"""
        A={}; B=[]
        for consts,c in [(False,c) for c in pc]+[(True,c) for c in pc]:
            if c.decl().kind()!=z3.Z3_OP_EQ or not z3.is_bv(c.arg(0)) or c.arg(0).size()!=64: continue
            for v,t in((c.arg(0),c.arg(1)),(c.arg(1),c.arg(0))):
                if not z3.is_const(v) or v.decl().kind()!=z3.Z3_OP_UNINTERPRETED or v.get_id() in A: continue
                if is_small(v):
                    if not consts and not is_small(t) and t.decl().kind()==z3.Z3_OP_UNINTERPRETED and t.num_args(): B.append((t,v)); break
                elif i64(t)==consts and linearz(t) is not None and not occurs(v,t) and not any(occurs(w,t) or occurs(v,u) for w,u in A.values()): A[v.get_id()]=(v,t); break
        return list(A.values()),B
    def rewrite(s,pc,extra):
        A,B=s.eqs(pc)
        if not A and not B: return None
        if A: B=[(z3.substitute(t,*A),v) for t,v in B]
        key=tuple(x.get_id() for p in A+B for x in p)
        memo=s.subs.setdefault(key,{})
        s.keep+=[x for p in A+B for x in p]
        def f(e):
            r=memo.get(e.get_id())
            if r is None:
                x=z3.substitute(e,*A) if A else e
                if B: x=z3.substitute(x,*B)
                # an equation that became trivial is dropped, one that defines a replaced term is kept as it was
                r=memo[e.get_id()]=(e,x)
            return r[1]
        return [f(c) for c in pc],[f(e) for e in extra]
    def unsat(s,pc,extra,ms=300):
        if s._unsat(pc,extra,ms): return True
        r=s.rewrite(pc,extra)
        return r is not None and s._unsat(r[0],r[1],ms)
    def _unsat(s,pc,extra,ms):
        ts=[s.tr(e) for e in extra]
        if not any(t[2] for t in ts): return False
        sol=z3.SolverFor('QF_LIA'); sol.set('timeout',ms); side={}
        for c in pc:
            f,d,ar=s.tr(c)
            sol.add(f); side.update(d)
        for f,d,_ in ts: sol.add(f); side.update(d)
        for c in side.values(): sol.add(c)
        return sol.check()==z3.unsat
def occurs(v,t):
    st=[t]; seen=set()
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        st+=x.children()
    return False
class PathSolver:
    """Keeps one incremental solver in sync with a list of path constraints (longest common prefix); queries that are
    not decided quickly go to a portfolio (z3 with the integer-blasting bit-vector solver, z3 4.8, cvc5)."""
    def __init__(s, timeout_ms=4000, hard_ms=60000, seed=1):
        s.sol=z3.Solver(); s.sol.set('timeout',250); s.sol.set('random_seed',seed)
        s.stack=[]; s.timeout=timeout_ms; s.hard=hard_ms; s.seed=seed
        s.nq=0; s.time=0.0; s.cache={}; s.nhard=0; s.maxq=0.0; s.backends={}; s.lia=Lia(); s.ibn=0; s.ibw=0
    def _sync(s,pc):
        n=0; st=s.stack; m=min(len(st),len(pc))
        while n<m and (st[n] is pc[n] ): n+=1
        if len(st)>n:
            s.sol.pop(len(st)-n); del st[n:]
        for c in pc[n:]:
            s.sol.push(); s.sol.add(c); st.append(c)
    def check(s,pc,extra=(),need_model=False,hard=True):
        """returns ('unsat',None) ('sat',model) ('unknown',None)"""
        t=time.time(); s.nq+=1; m=None
        key=(frozenset(c.get_id() for c in pc),tuple(e.get_id() for e in extra))
        c=s.cache.get(key)
        if c is not None and (c[0]=='unsat' or not need_model): return c[0],None
        try:
            if extra and s.lia.unsat(pc,extra):
                s.backends['z3-lia']=s.backends.get('z3-lia',0)+1; s.cache[key]=('unsat',list(pc),list(extra)); return 'unsat',None
            s._sync(pc)
            s.sol.push()
            for e in extra: s.sol.add(e)
            r=s.sol.check()
            m=s.sol.model() if r==z3.sat and (need_model or extra) else None
            if m is not None and not valid(m,extra): r=z3.unknown       # z3 occasionally reports sat with a model that is none
            s.sol.pop()
            be='z3'
            r='sat' if r==z3.sat else ('unsat' if r==z3.unsat else 'unknown')
            if r=='unknown':
                s.nhard+=1
                if s.nhard==8: s.sol.set('timeout',120)        # many hard queries: hand them over sooner
                # integer blasting in the process while the other solvers run; put last where it has not helped so far
                first=s.ibn<6 or s.ibw*5>s.ibn; ps=Portfolio(smt2(pc,extra)); q=z3.unknown
                try:
                    if first: q,m=s.intblast(pc,extra)
                    if q==z3.unknown: r,be=ps.wait((s.hard if hard else s.timeout)/1000.0)
                finally: ps.close()
                if r=='unknown' and q==z3.unknown and not first: q,m=s.intblast(pc,extra)
                if q!=z3.unknown: r='sat' if q==z3.sat else 'unsat'; be='z3-intblast'
                else:
                    if r=='sat' and need_model: m=s.getmodel(pc,extra)
                    if r=='unknown': be='none'
            s.backends[be]=s.backends.get(be,0)+1
            if r!='unknown': s.cache[key]=(r,list(pc),list(extra))     # the terms are kept alive, so the ids stay theirs
        except z3.Z3Exception as e:
            s.sol=z3.Solver(); s.sol.set('timeout',250); s.stack=[]; r='unknown'; m=None      # a crash inside the solver decides nothing
        finally:
            d=time.time()-t; s.time+=d; s.maxq=max(s.maxq,d)
            if d>float(os.environ.get('VCG_SLOW','3') or 3) and os.environ.get('VCG_SLOW'): print('   slow query %.1fs %s %s'%(d,locals().get('r'),[str(e)[:300] for e in extra]))
        return r,m
    def intblast(s,pc,extra):
        f=z3.SimpleSolver(); f.set('bv.solver',2); f.set('timeout',600); s.ibn+=1
        for c in pc: f.add(c)
        for e in extra: f.add(e)
        q=f.check(); m=f.model() if q==z3.sat else None
        if m is not None and not valid(m,extra): q=z3.unknown; m=None
        if q!=z3.unknown: s.ibw+=1
        return q,m
    def confirm(s,pc,extra,m):
        """a 'sat' answer stands only with a model that evaluates every path condition and the negated goal to true"""
        es=list(pc)+list(extra)
        if m is not None and satisfies(m,es): return 'sat',m
        for mk in (lambda: z3.Solver(),lambda: z3.SimpleSolver(),lambda: z3.SolverFor('QF_AUFBV')):
            f=mk(); f.set('timeout',10000)
            for e in es: f.add(e)
            try:
                r=f.check()
                if r==z3.unsat: return 'unsat',None
                if r==z3.sat and satisfies(f.model(),es): return 'sat',f.model()
            except z3.Z3Exception: pass
        r,_=external(smt2(pc,extra),s.hard/1000.0)
        return ('unsat',None) if r=='unsat' else ('unknown',None)
    def getmodel(s,pc,extra):
        for mk in (lambda: z3.Solver(),lambda: z3.SolverFor('QF_AUFBV')):
            f=mk(); f.set('timeout',10000)
            for c in pc: f.add(c)
            for e in extra: f.add(e)
            if f.check()==z3.sat: return f.model()
        return None

def is_c(x): return isinstance(x,int)
def bv(x,w):
    return z3.BitVecVal(x,w) if isinstance(x,int) else x
def bl(x):
    """i1 value -> z3 Bool"""
    if isinstance(x,int): return z3.BoolVal(bool(x))
    return x
def simp(x):
    if isinstance(x,int): return x
    x=z3.simplify(x)
    if SMALL and z3.is_bool(x): x=norm(x)
    if z3.is_bv_value(x): return x.as_long()
    if z3.is_true(x): return 1
    if z3.is_false(x): return 0
    return x
def mask(w): return (1<<w)-1
def sgn(v,w): return v-(1<<w) if v>>(w-1) else v
def as_if01(x):
    """BV of form If(b,1,0) -> b else None"""
    if z3.is_app_of(x,z3.Z3_OP_ITE):
        c,a,b=x.children()
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            if a.as_long()==1 and b.as_long()==0: return c
            if a.as_long()==0 and b.as_long()==1: return z3.Not(c)
    return None

# ------------------------------------------------------------ comparisons of sums of small terms
SMALL={}        # ast id -> variable known to be below 2^51 wherever it occurs (kept alive here)
def mark_small(v):
    SMALL[v.get_id()]=v; return v
_sc={}
def is_small(t):
    i=t.get_id()
    r=_sc.get(i)
    if r is not None and r[0].eq(t): return r[1]
    r=_small(t); _sc[i]=(t,r); return r
def _small(t):
    if i64(t): return t.as_long()<(1<<51)
    if t.get_id() in SMALL and SMALL[t.get_id()].eq(t): return True
    k=t.decl().kind()
    if k==z3.Z3_OP_CONCAT:
        a=t.arg(0)
        return z3.is_bv_value(a) and a.as_long()==0 and a.size()>=14
    if k==z3.Z3_OP_ZERO_EXT: return t.arg(0).size()<=50
    if k==z3.Z3_OP_ITE: return is_small(t.arg(1)) and is_small(t.arg(2))
    return False
def i64(t): return z3.is_bv_value(t)
def linear(t):
    """{term id: (term, coefficient)}, constant -- or None when the sum may wrap"""
    terms={}; const=0
    st=[(t,1)]; n=0
    while st:
        x,c=st.pop(); n+=1
        if n>40: return None
        k=x.decl().kind()
        if i64(x):
            v=x.as_long()*c
            if v>>52: return None
            const+=v; continue
        if k==z3.Z3_OP_BADD:
            for a in x.children(): st.append((a,c))
            continue
        if k==z3.Z3_OP_BMUL and x.num_args()==2 and i64(x.arg(0)) and x.arg(0).as_long()<256:
            st.append((x.arg(1),c*x.arg(0).as_long())); continue
        if c>4096 or not is_small(x): return None
        i=x.get_id(); terms[i]=(x,terms.get(i,(x,0))[1]+c)
    if const>>53 or sum(c for _,c in terms.values())>8192: return None
    # bound: 2^53 + 8192*2^51 = 2^64: keep strictly below
    if sum(c for _,c in terms.values())>2048: return None
    return terms,const
def linearz(t):
    """as linear, with negative coefficients: the sum's magnitude is below 2^63"""
    terms={}; const=0; st=[(t,1)]; n=0
    sg=lambda v: v-(1<<64) if v>>63 else v
    while st:
        x,c=st.pop(); n+=1
        if n>60: return None
        k=x.decl().kind()
        if i64(x): const+=sg(x.as_long())*c; continue
        if k==z3.Z3_OP_BADD:
            for a in x.children(): st.append((a,c))
            continue
        if k==z3.Z3_OP_BSUB:
            st.append((x.arg(0),c)); st+=[(a,-c) for a in x.children()[1:]]; continue
        if k==z3.Z3_OP_BMUL and x.num_args()==2 and i64(x.arg(0)) and abs(sg(x.arg(0).as_long()))<256:
            st.append((x.arg(1),c*sg(x.arg(0).as_long()))); continue
        if abs(c)>1024 or not is_small(x): return None
        i=x.get_id(); terms[i]=(x,terms.get(i,(x,0))[1]+c)
    terms={i:x for i,x in terms.items() if x[1]}
    if abs(const)>>62 or sum(abs(c) for _,c in terms.values())>1024: return None
    return terms,const
def build(terms,const):
    r=None
    for x,c in terms:
        y=x if c==1 else z3.BitVecVal(c,64)*x
        r=y if r is None else r+y
    if const or r is None:
        cv=z3.BitVecVal(const,64); r=cv if r is None else r+cv
    return r
_nc={}
def norm(e):
    """e with comparisons of non-wrapping sums cancelled (equivalent under the bounds of SMALL variables)"""
    if not isinstance(e,z3.ExprRef): return e
    i=e.get_id(); r=_nc.get(i)
    if r is not None and r[0].eq(e): return r[1]
    r=_norm(e)
    if len(_nc)>200000: _nc.clear()
    _nc[i]=(e,r)
    return r
def _norm(e):
    k=e.decl().kind()
    if k in(z3.Z3_OP_ULEQ,z3.Z3_OP_ULT,z3.Z3_OP_UGEQ,z3.Z3_OP_UGT) and e.arg(0).size()==64:
        a,b=e.arg(0),e.arg(1)
        if a.decl().kind()!=z3.Z3_OP_BADD and b.decl().kind()!=z3.Z3_OP_BADD: return e
        la=linear(a); lb=linear(b) if la is not None else None
        if la is None or lb is None: return e
        ta,ca=la; tb,cb=lb
        A=[];Bq=[]
        for i in list(ta)+[j for j in tb if j not in ta]:
            x=(ta.get(i) or tb.get(i))[0]
            d=(ta[i][1] if i in ta else 0)-(tb[i][1] if i in tb else 0)
            if d>0: A.append((x,d))
            elif d<0: Bq.append((x,-d))
        m=min(ca,cb); ca-=m; cb-=m
        A=build(A,ca); Bq=build(Bq,cb)
        f={z3.Z3_OP_ULEQ:z3.ULE,z3.Z3_OP_ULT:z3.ULT,z3.Z3_OP_UGEQ:z3.UGE,z3.Z3_OP_UGT:z3.UGT}[k]
        return z3.simplify(f(A,Bq))
    if k in(z3.Z3_OP_NOT,z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_IMPLIES,z3.Z3_OP_XOR) or (k in(z3.Z3_OP_EQ,z3.Z3_OP_ITE) and z3.is_bool(e) and z3.is_bool(e.arg(e.num_args()-1))):
        ch=e.children(); nc=[norm(c) for c in ch]
        if all(a is b or a.eq(b) for a,b in zip(ch,nc)): return e
        r={z3.Z3_OP_NOT:lambda: z3.Not(nc[0]),z3.Z3_OP_AND:lambda: z3.And(nc),z3.Z3_OP_OR:lambda: z3.Or(nc),z3.Z3_OP_IMPLIES:lambda: z3.Implies(*nc),
           z3.Z3_OP_XOR:lambda: z3.Xor(*nc),z3.Z3_OP_EQ:lambda: nc[0]==nc[1],z3.Z3_OP_ITE:lambda: z3.If(*nc)}[k]()
        return z3.simplify(r)
    return e
