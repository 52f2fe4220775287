"""Verification units: one unit verifies one function of /repo (with whatever it inlines) against its contract."""
import time, traceback, os, z3
from . import ir, exec as X, lib
from .exec import Exec, State, Ptr, Unsupported, NeedCut, Budget
from .smt import *

UNITS={}
class Unit:
    """props: properties whose argument rests on this unit; provides: short names of the contracts it establishes"""
    contracts=()            # tables of contracts used at calls
    unroll=16
    timeout_ms=3000
    hard_ms=40000
    time_limit=400
    inline=()
    provides=()
    deep=()                 # properties for which this unit runs in the thorough tier only
    def __init__(s,name,props,go,provides=(),contracts=None,**kw):
        s.name=name; s.props=tuple(props); s._go=go; s.provides=tuple(provides)
        if contracts is not None: s.contracts=contracts
        s.inputs={}
        for k,v in kw.items(): setattr(s,k,v)
        assert name not in UNITS,name
        UNITS[name]=s
    def extract(s,model,st):
        """concrete inputs of a counterexample"""
        out={}
        for k,v in s.inputs.items():
            try: out[k]=v(model) if callable(v) else ev(model,v)
            except Exception as e: out[k]='?'+repr(e)
        return out
    def go(s,ex): return s._go(ex)

def ev(m,t):
    if isinstance(t,int): return t
    v=m.eval(bl(t) if isinstance(t,bool) else t,model_completion=True)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return str(v)

def model_bytes(L,at,cap=64):
    def f(m):
        n=ev(m,L); n=min(n,cap) if isinstance(n,int) else 0
        return bytes(ev(m,at(i)) for i in range(n)).hex()
    return f

def verdict(ex):
    """failed: the solver refuted an obligation; undecided: it could not decide one"""
    if any(o.status=='refuted' for o in ex.obs): return 'failed'
    return 'undecided' if ex.failed else None
def run_unit(prog,name,debug=False):
    u=UNITS[name]
    cuts=set(); t0=time.time(); restarts=0
    res=dict(unit=name,props=u.props)
    while True:
        ex=Exec(prog,u,unroll=u.unroll,timeout_ms=u.timeout_ms,hard_ms=u.hard_ms,time_limit=max(5,u.time_limit-(time.time()-t0)))
        ex.cuts=cuts
        for t in u.contracts: ex.contracts.update(t)
        ex.inline_only=set(u.inline)
        for pr in u.provides: ex.contracts.pop(pr,None)
        u.inputs={}
        try:
            u.go(ex)
            status=verdict(ex) or 'proved'; why=''
        except NeedCut as e:
            restarts+=1
            if (e.fn,e.label) in cuts or restarts>60: status='unsupported'; why='loop could not be cut: %s'%e
            else:
                cuts.add((e.fn,e.label)); 
                if debug: print('  cutting',e.fn,e.label)
                continue
        except Budget as e:
            status=verdict(ex) or 'timeout'; why=str(e)
        except Unsupported as e:
            status=verdict(ex) or 'unsupported'; why=str(e)
            if debug: print(''.join(traceback.format_exc().strip().split('\n  File')[-2:])[-600:])
        except z3.Z3Exception as e:
            status=verdict(ex) or 'unsupported'; why='z3: %s'%e
            if debug: print(''.join(traceback.format_exc().strip().split('\n  File')[-2:])[-600:])
        except (KeyError,IndexError,TypeError,AttributeError,AssertionError,ValueError,RecursionError,ir.IRError) as e:
            status=verdict(ex) or 'unsupported'; why='engine: '+repr(e)
            if debug: print(''.join(traceback.format_exc().strip().split('\n  File')[-2:])[-600:])
        break
    kinds={}
    for o in ex.obs: kinds[o.kind]=kinds.get(o.kind,0)+1
    res.update(status=status,why=why,obligations=len(ex.obs),discharged=sum(1 for o in ex.obs if o.status=='proved'),syntactic=ex.nsyn,
        kinds=kinds,
        failures=[dict(kind=o.kind,msg=o.msg,loc=prog.short(o.loc) if o.loc!='?' else '?',status=o.status,inputs=o.inputs,tainted=bool(o.tainted)) for o in ex.obs if o.status!='proved'],
        used=sorted(set(prog.short(n) for n in ex.used)),inlined=sorted(set(prog.short(n) for n in ex.inlined if not n.startswith(('vp','llvm')))),
        loops={k:v for k,v in ex.loops_used.items()},cuts=sorted('%s %s'%(prog.short(a),b) for a,b in cuts),
        assumptions=sorted(ex.assumptions),queries=ex.solver.nq,solver_time=round(ex.solver.time,2),hard=ex.solver.nhard,backends=ex.solver.backends,
        time=round(time.time()-t0,2))
    return res

# ---------------------------------------------------------------- helpers for unit bodies
def bvv(n,w=64): return z3.BitVecVal(n,w)
def stackobj(ex,st,size,name='out'):
    return Ptr(ex.newobj(st,size,'stack',name).id,0)
def outp(ex,st): return stackobj(ex,st,16+14*8,'vp_out')
def out(ex,st,p,i):
    """field i of a vp_out: -2 ok, -1 err, 0.. v[i]"""
    return ex.load(st,p.add(16+8*i),8,('i',64))
def outptr(ex,st,p,i): return ex.load(st,p.add(16+8*i),8,('ptr',))
def okflag(ex,st,p): return simp(bv(out(ex,st,p,-2),64)==1)
def implies(a,b): return z3.Implies(bl(a),bl(b))
def const_global(prog,ex,name,n=8):
    p=ex.global_ptr(None,name)
    if not isinstance(p,Ptr): raise Unsupported('missing layout constant '+name)
    o=ex.gobj[p.obj]
    return int.from_bytes(o.data[:n],'little')
