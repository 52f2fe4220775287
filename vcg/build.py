"""Compiles /repo's current sources (and the adaptor TUs of /verif/vcg/cpp) to LLVM IR, and the native replay harness."""
import os, subprocess, sys, glob, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('VERIF_REPO','/repo')
DEPS='/opt/vp/deps'
INC=['-I%s/bnl/%s/include'%(REPO,m) for m in('base','http3','log','quic')]+['-I'+HERE+'/include','-I%s/outcome'%DEPS,'-I%s/xxhash'%DEPS]
COMMON=['-std=c++17','-include',DEPS+'/compat/compat.hpp','-DXXH_INLINE_ALL','-w']+INC
CLANG=os.environ.get('VERIF_CLANG','clang++')

def sources():
    r=[]
    for d in('base/src','http3/src'):
        for root,_,fs in os.walk(os.path.join(REPO,'bnl',d)):
            for f in sorted(fs):
                if f.endswith('.cpp') and not f.endswith('_generated.cpp'): r.append(os.path.join(root,f))
    # *_generated.cpp are #included by their users here; compile them too if nobody includes them
    gen=[]
    for root,_,fs in os.walk(os.path.join(REPO,'bnl','http3','src')):
        gen+= [os.path.join(root,f) for f in fs if f.endswith('_generated.cpp')]
    texts=''.join(open(x,errors='replace').read() for x in r)
    for g in gen:
        if '"'+os.path.basename(g)+'"' not in texts: r.append(g)
    return sorted(r)

def quic_sources():
    return [os.path.join(REPO,'bnl/quic/src/crypto.cpp')]

def compile_ir(out, jobs=8):
    """returns (list of .ll paths of repo TUs, dict adaptor->path or error text)"""
    os.makedirs(out,exist_ok=True)
    srcs=sources()
    tasks=[]
    for s in srcs: tasks.append((s,os.path.join(out,os.path.relpath(s,REPO).replace('/','_')+'.ll'),[]))
    for s in quic_sources():
        if os.path.exists(s): tasks.append((s,os.path.join(out,'quic_'+os.path.basename(s)+'.ll'),[]))
    adapt=sorted(glob.glob(HERE+'/cpp/*.cpp'))
    for s in adapt: tasks.append((s,os.path.join(out,'adapt_'+os.path.basename(s)+'.ll'),['-fno-access-control']))
    def one(t):
        s,o,extra=t
        cmd=[CLANG]+COMMON+extra+['-O0','-Xclang','-disable-O0-optnone','-g0','-S','-emit-llvm',s,'-o',o]
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return (s,o,p.returncode,p.stdout)
    with ThreadPoolExecutor(jobs) as ex: rs=list(ex.map(one,tasks))
    good=[];bad={}
    for s,o,rc,txt in rs:
        if rc==0: good.append(o)
        else: bad[s]=txt
    return good,bad

if __name__=='__main__':
    g,b=compile_ir(sys.argv[1])
    print(len(g),'ok'); 
    for k,v in b.items(): print('FAILED',k,v[:2000])
