import os,sys,time,json,glob
from . import ir
from .unit import run_unit,UNITS
def load(d=os.environ.get('VP_IR','/tmp/w/ir')):
    fs=sorted(glob.glob(d+'/*.ll')); fs.sort(key=lambda f:'adapt_' in f)
    return ir.Program(fs)
if __name__=='__main__':
    import importlib
    mods=sys.argv[1].split(',')
    for m in mods: importlib.import_module('vcg.units.'+m)
    prog=load()
    pat=sys.argv[2] if len(sys.argv)>2 else ''
    for n in list(UNITS):
        if (n==pat[1:] if pat[:1]=='=' else pat in n):
            r=run_unit(prog,n,debug=True)
            print(n,r['status'],r['why'],r['obligations'],r['discharged'],r['syntactic'],'t',r['time'],'q',r['queries'],r['kinds'])
            for f in r['failures'][:6]: print('   FAIL',f)
            if '-v' in sys.argv: print(json.dumps({k:r[k] for k in('used','inlined','loops','cuts','assumptions')},indent=1))
