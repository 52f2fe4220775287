"""Check driver: python3 -m vcg.driver <property>.  Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import os,re,sys,time,json,tempfile,shutil,multiprocessing as mp,importlib,traceback,glob,signal
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,ROOT); sys.path.insert(0,os.path.join(ROOT,'native'))
from concurrent.futures import ThreadPoolExecutor
TRUSTED=['clang 18 front end (C++ to LLVM IR, -O0) and the LLVM IR semantics implemented in vcg/exec.py','z3 4.x/5.x and cvc5 1.1.2 as SMT back ends','the Houdini-style loop invariant inference only proposes; every invariant used is itself checked',
 'the contracts of operator new/delete, memcpy/memmove/memset/memcmp and std::string/std::list members stated in vcg/lib.py (assumed, not verified)','the specifications in vcg/units and spec/']
def load_units():
    d=os.path.join(ROOT,'vcg','units')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f!='__init__.py': importlib.import_module('vcg.units.'+f[:-3])
    from vcg.unit import UNITS
    # C24 in the quick tier: the decoders; the slow ones and what only builds or sends runs there in the thorough tier
    for n,u in UNITS.items():
        if 'C24' not in u.props and re.match(r'varint\.decode',n): u.props+=('C24',)
        if re.match(r'(buffer|huffman\.enc|literal\.enc|qpack\.enc|request\.sender|control\.sender)|qpack\.decode\.name|frame\.(single\..*settings|decode)',n): u.deep=tuple(u.deep)+('C24',)
PROG=None
def child(name,q):
    from vcg.unit import run_unit
    try: r=run_unit(PROG,name)
    except BaseException as e: r=dict(unit=name,status='unsupported',why='engine: '+repr(e)+traceback.format_exc()[-400:],obligations=0,discharged=0,syntactic=0,kinds={},failures=[],used=[],inlined=[],loops={},cuts=[],assumptions=[],queries=0,solver_time=0,hard=0,backends={},time=0)
    q.put(json.dumps(r,default=str))
def run_units(want,deadline,jobs=8,closure=True):
    """runs the units and, transitively, the units that establish the contracts they use"""
    from vcg.unit import UNITS
    prov={}
    for u in UNITS.values():
        for p in u.provides: prov.setdefault(p,[]).append(u.name)
    # the long ones first
    todo=sorted(want,key=lambda n: not re.match(r'huffman\.encode_raw|frame\.single\..*settings|frame\.decode|buffer\.(concat|assign\.heap|slice)|qpack\.encode_raw\.[0167]|qpack\.decode\.name|frame\.encode_raw\.settings',n)); seen=set(want); running={}; res={}
    while todo or running:
        while todo and len(running)<jobs:
            n=todo.pop(0); q=mp.Queue(); p=mp.Process(target=child,args=(n,q)); p.start()
            running[n]=(p,q,min(deadline,time.time()+UNITS[n].time_limit+30))
        time.sleep(0.02)
        for n,(p,q,dl) in list(running.items()):
            r=None
            try:
                if not q.empty(): r=json.loads(q.get(timeout=5))
            except Exception: r=None
            if r is None and not p.is_alive() and q.empty():
                time.sleep(.1)
                if q.empty(): r=dict(unit=n,status='unsupported',why='engine process died')
                else: continue
            if r is None and time.time()>dl: p.kill(); r=dict(unit=n,status='timeout',why='time limit of the check')
            if r is None: continue
            p.join(5); 
            if p.is_alive(): p.kill()
            for k,v in dict(obligations=0,discharged=0,syntactic=0,kinds={},failures=[],used=[],inlined=[],loops={},cuts=[],assumptions=[],queries=0,solver_time=0,hard=0,backends={},time=0).items(): r.setdefault(k,v)
            del running[n]; res[n]=r
            if closure:
                for c in r['used']:
                    for m in prov.get(c,()):
                        if m not in seen: seen.add(m); todo.append(m)
    return res,prov
def native_build(native,d,prop):
    """starts the build of the replay harness in its own process; returns a function that waits for it"""
    q=mp.Queue()
    def go():
        try: q.put(native.build(d,8,quic=prop=='C26'))
        except BaseException as e: q.put((None,'internal: %r'%e))
    p=mp.Process(target=go); p.start()
    def wait():
        try: r=q.get(timeout=280)
        except Exception: r=(None,'no answer from the compiler'); p.kill()
        p.join(5); return r
    return wait
def findings(prop):
    p=os.path.join(ROOT,'known_findings.txt'); out=[]
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('finding: property=%s '%prop): out.append(l.split(' ',2)[2])
    return out
def main():
    prop=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); work=tempfile.mkdtemp(prefix='vcheck_%s_'%prop)
    try: rc=check(prop,tier,seed,t0,work)
    finally: shutil.rmtree(work,ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)
def check(prop,tier,seed,t0,work):
    global PROG
    from vcg import build,ir
    from vcg.unit import UNITS
    import run as native
    evd=os.path.join(ROOT,'evidence'); os.makedirs(evd,exist_ok=True)
    load_units()
    notes=[]
    own=[n for n,u in UNITS.items() if prop in u.props and (tier!='quick' or prop not in u.deep)]
    nat=prop in native.gen.GENS
    # the replay harness is built beside, also while the units run
    nb=native_build(native,os.path.join(work,'nat'),prop) if nat else None
    good,bad=build.compile_ir(os.path.join(work,'ir'),8)
    for k,v in bad.items(): notes.append('does not compile to IR: %s: %s'%(k,v[:300]))
    try:
        good.sort(key=lambda f:'adapt_' in f)
        PROG=ir.Program(good)
    except Exception as e: notes.append('IR not understood: %r'%e); PROG=None
    res={};prov={}
    if PROG is not None:
        res,prov=run_units(own,t0+(560 if tier=='quick' else 700),closure=tier!='quick')
    exe,herr=nb() if nat else (None,None)
    if nat and exe is None: notes.append('the replay harness does not build against this tree: '+herr[:600])
    failed=[n for n in own if n in res and res[n]['status']=='failed']
    undecided=[n for n in own if n not in res or res[n]['status'] not in('proved','failed')]
    depbad=[n for n in res if n not in own and res[n]['status']!='proved']
    # ---- bounded native cross-check / stand-in
    b=dict(evaluations=0,distinct=0,bad=[],samples=[])
    if exe:
        # a counterexample of the verifier, replayed
        for n in failed:
            for f in res[n]['failures']:
                lines=[]
                try: lines=UNITS[n].replay(f['inputs']) if hasattr(UNITS[n],'replay') else []
                except Exception: pass
                lines=[l for l in lines or [] if isinstance(l,str)]
                if lines:
                    try: b['bad']+=native.judge(lines,native.run_batch(exe,lines,20)); b['evaluations']+=len(lines)
                    except Exception: pass
        if not b['bad']:
            left=max(10,t0+780-time.time())
            base=(6 if not(undecided or depbad) else 30) if tier=='quick' else 240
            s=native.search(exe,prop,seed,min(left,base))
            if not s['bad'] and failed: 
                s2=native.search(exe,prop,seed+1000,min(max(5,t0+800-time.time()),60))
                for k in('evaluations','distinct'): s[k]+=s2[k]
                s['bad']=s2['bad']
            b['evaluations']+=s['evaluations']; b['distinct']=s['distinct']; b['bad']=s['bad']; b['samples']=s['samples']
    known=findings(prop); viol=[]; rep=os.path.join(evd,'replay-%s.txt'%prop)
    bad=[x for x in b['bad'] if x['case'] not in known]
    for k in known: print('KNOWN-FINDING: property=%s %s'%(prop,k))
    if bad:
        x=min(bad,key=lambda x:len(x['case']))
        try: x=native.shrink(exe,x)
        except Exception: pass
        with open(rep,'w') as f:
            f.write('property %s\nfailing case (a line for the replay harness, see native/harness.cpp):\n%s\nexpected: %s\nobserved: %s\n%s\n'%(prop,x['case'],x['expected'],x['observed'],x['note']))
            f.write('\nreplay: VERIF_REPO=/repo python3 %s/native/replay.py %s\n'%(ROOT,rep))
            if failed: f.write('\nobligations that failed:\n'+fails(res,failed))
        viol.append('VIOLATION property=%s replay=%s'%(prop,rep))
    elif failed:
        with open(rep,'w') as f:
            f.write('property %s\nno failing input was found; the verifier rejects these obligations:\n%s'%(prop,fails(res,failed)))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,rep))
    # ---- evidence
    provided={p for n in res for p in UNITS[n].provides if res[n]['status']=='proved'}
    used=set().union(*[set(r['used']) for r in res.values()]) if res else set()
    inl=set().union(*[set(r['inlined']) for r in res.values()]) if res else set()
    ob=sum(res[n]['obligations'] for n in res); di=sum(res[n]['discharged'] for n in res)
    assumed=sorted(c for c in used if c not in prov)
    elsewhere={c:sorted({p for m in prov[c] for p in UNITS[m].props}) for c in sorted(used) if c in prov and not any(m in res for m in prov[c])}
    kinds={}; be={}
    for r in res.values():
        for k,v in r['kinds'].items(): kinds[k]=kinds.get(k,0)+v
        for k,v in r['backends'].items(): be[k]=be.get(k,0)+v if isinstance(v,(int,float)) else v
    info=json.load(open(os.path.join(ROOT,'vcg','claims.json')))[prop]
    cov=dict(obligations=ob,discharged=di,checker_cmd='python3-vt -m vcg.driver %s'%prop,trusted_base=TRUSTED+['assumed contract: '+c for c in assumed],
      functions_under_contract=sorted(provided),functions_executed_in_place=sorted(inl),units={n:dict(status=r['status'],why=r['why'],own=n in own,obligations=r['obligations'],discharged=r['discharged'],time_s=r['time'],solver_s=r['solver_time'],loops_cut=r['cuts']) for n,r in sorted(res.items())},
      obligation_kinds=kinds,obligations_closed_syntactically=sum(r['syntactic'] for r in res.values()),backend_answers=be,solver_queries=sum(r['queries'] for r in res.values()),solver_time_s=round(sum(r['solver_time'] for r in res.values()),1),
      bounded=dict(what='native cross-check of the built code against the executable specification (sanitizers on); bounded, not counted as proof',evaluations=b['evaluations'],distinct_nontrivial=b['distinct'],samples=b['samples'] or [x['case'] for x in bad[:2]],functions_only_bounded=info.get('bounded',[])),
      evaluations=b['evaluations'],distinct_nontrivial=b['distinct'],rule='random and systematic cases of this property (native/gen.py, seeded); distinct by their text; every case is compared with the exact expected output',samples=(b['samples'] or [x['case'] for x in bad[:2]] or ['(none: the harness did not run)']),
      contracts_established_by_other_checks=elsewhere,undecided_units=undecided,failed_units=failed,dependencies_not_proved=depbad,notes=notes,explanation=info['note'])
    asm=['machine integers are modelled as bit vectors of their width (nothing is treated as mathematical)','allocation never fails','objects are at most 2^47 bytes']+sorted(set().union(*[set(r['assumptions']) for r in res.values()]) if res else [])+['assumed contract: '+c for c in assumed]
    level=info['level']
    ev=dict(property=prop,tier=tier if tier in('quick','thorough') else 'quick',seed=seed,level=level,coverage=cov,assumptions=asm,wall_s=round(time.time()-t0,1),violations=len(viol))
    json.dump(ev,open(os.path.join(evd,prop+'.json'),'w'),indent=1)
    print('%s: %d units, %d of %d obligations discharged; bounded cross-check: %d cases; %.0f s'%(prop,len(res),di,ob,b['evaluations'],time.time()-t0))
    for n in undecided: print('  undecided: %s: %s'%(n,res.get(n,{}).get('why','not run')))
    for n in depbad: print('  dependency not proved: %s: %s %s'%(n,res[n]['status'],res[n]['why']))
    for n in failed:
        for f in res[n]['failures'][:3]: print('  obligation failed: %s: %s: %s (%s)'%(n,f['kind'],f['msg'],f['status']))
    for x in notes: print('  note:',x[:400])
    for v in viol: print(v)
    return 1 if viol else 0
def fails(res,names):
    out=''
    for n in names:
        for f in res[n]['failures']: out+='unit %s\n  %s: %s\n  in %s\n  solver: %s\n  counterexample: %s\n'%(n,f['kind'],f['msg'],f['loc'],f['status'],json.dumps(f['inputs'],default=str))
    return out
if __name__=='__main__': main()
