"""Parser for the textual LLVM 18 IR that clang emits (the subset clang -O0 produces for this code base).

Function bodies are parsed lazily.  Types are tuples:
 ('i',n) ('ptr',) ('void',) ('a',n,T) ('s',(T,...),packed) ('n',name) ('f',bits) ('v',n,T) ('label',) ('meta',)
Operands are tuples:
 ('r',name) ('c',int) ('g',symbol) ('null',) ('undef',) ('zero',) ('agg',(ops..),type) ('str',bytes) ('fp',text)
 ('gep',T,base_op,idx_ops[(type,op)]) ('cast',kind,op,type_from,type_to) ('bin',kind,a,b,ty)
"""
import re

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|\$"[^"]*"|"(?:[^"\\]|\\.)*"|[%@$][\w.$-]+|![\w.]*|\#\d+|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[()\[\]{}<>,=*:|]''')

class IRError(Exception):
    pass

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','inreg','noalias','nocapture','readonly','readnone','writeonly',
  'returned','immarg','nest','noext','dead_on_unwind','writable','nofree','swiftself','allocalign','allocptr','noreturn','nounwind'}
CCONV = {'fastcc','coldcc','ccc','cc'}
FASTFLAGS={'nuw','nsw','exact','inbounds','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','disjoint','nneg','samesign'}

class P:
    __slots__=('t','i','mod')
    def __init__(s, text, mod):
        s.t=TOK.findall(text); s.i=0; s.mod=mod
    def peek(s,k=0):
        j=s.i+k
        return s.t[j] if j<len(s.t) else None
    def nxt(s):
        v=s.t[s.i]; s.i+=1; return v
    def acc(s,x):
        if s.i<len(s.t) and s.t[s.i]==x:
            s.i+=1; return True
        return False
    def exp(s,x):
        if s.i>=len(s.t) or s.t[s.i]!=x:
            raise IRError('expected %s at %d in %r'%(x,s.i,' '.join(s.t[max(0,s.i-10):s.i+10])))
        s.i+=1
    # ---- types
    def type(s):
        t=s.nxt()
        if t[0]=='i' and t[1:].isdigit(): r=('i',int(t[1:]))
        elif t=='ptr': r=('ptr',)
        elif t=='void': r=('void',)
        elif t=='float': r=('f',32)
        elif t=='double': r=('f',64)
        elif t=='x86_fp80': r=('f',80)
        elif t=='label': r=('label',)
        elif t=='metadata': r=('meta',)
        elif t=='[':
            n=int(s.nxt()); s.exp('x'); e=s.type(); s.exp(']'); r=('a',n,e)
        elif t=='{': r=('s',s._members('}'),False)
        elif t=='<':
            if s.peek()=='{':
                s.nxt(); m=s._members('}'); s.exp('>'); r=('s',m,True)
            else:
                n=int(s.nxt()); s.exp('x'); e=s.type(); s.exp('>'); r=('v',n,e)
        elif t[0]=='%': r=('n',t)
        else: raise IRError('type? %r in %r'%(t,' '.join(s.t[max(0,s.i-8):s.i+8])))
        while s.peek()=='(':   # function type
            d=0
            # only used for varargs callee types: skip
            while True:
                x=s.nxt()
                if x=='(': d+=1
                elif x==')':
                    d-=1
                    if d==0: break
            r=('fn',r)
        return r
    def _members(s,close):
        m=[]
        if s.acc(close): return ()
        while True:
            m.append(s.type())
            if s.acc(close): return tuple(m)
            s.exp(',')
    def attrs(s):
        r={}
        while True:
            t=s.peek()
            if t in PARAM_ATTRS: s.nxt(); continue
            if t in ('align','dereferenceable','dereferenceable_or_null','sret','byval','byref','inalloca','elementtype','preallocated','memory','captures','range','initializes'):
                s.nxt()
                if t=='align' and s.peek()!='(':
                    s.nxt(); continue
                s.exp('(')
                if t in ('sret','byval','byref','elementtype'):
                    r[t]=s.type(); s.exp(')')
                else:
                    d=1
                    while d:
                        x=s.nxt()
                        if x=='(': d+=1
                        elif x==')': d-=1
                continue
            if t is not None and t[0]=='"' and s.peek() is not None:
                s.nxt()
                if s.acc('='): s.nxt()
                continue
            return r
    # ---- operands
    def op(s,ty):
        t=s.nxt()
        c=t[0]
        if c=='%': return ('r',t)
        if c=='@': return ('g',s.mod.sym(t))
        if t=='true': return ('c',1)
        if t=='false': return ('c',0)
        if t=='null': return ('null',)
        if t in('undef','poison'): return ('undef',)
        if t=='zeroinitializer': return ('zero',)
        if t=='none': return ('undef',)
        if c=='-' or c.isdigit():
            if ty[0]=='f': return ('fp',t)
            return ('c',int(t,0))
        if c=='c' and t[1:2]=='"': return ('str',unesc(t[2:-1]))
        if t=='{' or t=='[' or t=='<':
            if t=='<' and s.peek()=='{':
                s.nxt(); r=s._agg('}'); s.exp('>'); return ('agg',r,ty)
            close={'{':'}','[':']','<':'>'}[t]
            return ('agg',s._agg(close),ty)
        if t=='getelementptr':
            while s.peek() in FASTFLAGS or s.peek()=='inrange':
                if s.nxt()=='inrange' and s.peek()=='(':
                    while s.nxt()!=')': pass
            s.exp('('); bt=s.type(); s.exp(',')
            s.type(); base=s.op(('ptr',)); idx=[]
            while s.acc(','):
                s.acc('inrange')
                it=s.type(); idx.append((it,s.op(it)))
            s.exp(')')
            return ('gep',bt,base,idx)
        if t in('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
            s.exp('('); ft=s.type(); o=s.op(ft); s.exp('to'); tt=s.type(); s.exp(')')
            return ('cast',t,o,ft,tt)
        if t in('add','sub','mul','and','or','xor','shl','lshr'):
            while s.peek() in FASTFLAGS: s.nxt()
            s.exp('('); at=s.type(); a=s.op(at); s.exp(','); bt=s.type(); b=s.op(bt); s.exp(')')
            return ('bin',t,a,b,at)
        if t=='icmp':
            pr=s.nxt(); s.exp('('); at=s.type(); a=s.op(at); s.exp(','); bt=s.type(); b=s.op(bt); s.exp(')')
            return ('icmp',pr,a,b,at)
        if t in('dso_local_equivalent','no_cfi'): return s.op(ty)
        raise IRError('operand? %r in %r'%(t,' '.join(s.t[max(0,s.i-8):s.i+8])))
    def _agg(s,close):
        r=[]
        if s.acc(close): return ()
        while True:
            ty=s.type(); r.append((ty,s.op(ty)))
            if s.acc(close): return tuple(r)
            s.exp(',')

def unesc(x):
    out=bytearray(); i=0; b=x
    while i<len(b):
        if b[i]=='\\':
            if b[i+1]=='\\': out.append(92); i+=2; continue
            out.append(int(b[i+1:i+3],16)); i+=3
        else:
            out.append(ord(b[i])); i+=1
    return bytes(out)

class Func:
    __slots__=('name','mod','header','body','ret','params','sret','blocks','order','parsed','_loops','linkage','vararg','noexcept')
    def __init__(s): s.parsed=False; s._loops=None

class Global:
    __slots__=('name','mod','text','type','init','const','external','parsed')

class Module:
    def __init__(s, path, ident):
        s.path=path; s.id=ident
        s.types_text={}; s.types={}
        s.funcs={}; s.globals={}; s.aliases={}; s.internal=set(); s.decls={}
        s._sz={}
        s.load(open(path).read())
    def sym(s,t):
        n=t[2:-1] if t[1]=='"' else t[1:]
        if n in s.internal: return s.id+'::'+n
        return n
    def load(s,text):
        lines=text.split('\n')
        n=len(lines); i=0
        pend=[]
        while i<n:
            l=lines[i]
            if not l: i+=1; continue
            c=l[0]
            if c=='%':
                k,_,v=l.partition(' = type ')
                s.types_text[k]=v
            elif c=='@':
                m=re.match(r'@("[^"]*"|[\w.$-]+) = (.*)',l)
                nm=m.group(1).strip('"'); rest=m.group(2)
                if re.match(r'(private|internal)\b',rest): s.internal.add(nm)
                pend.append((nm,rest))
            elif l.startswith('define '):
                j=i+1
                while lines[j]!='}': j+=1
                m=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
                nm=m.group(1).strip('"')
                f=Func(); f.name=nm; f.mod=s; f.header=l; f.body=(lines,i+1,j)
                words=l[:m.start()].split()
                f.linkage='internal' if ('internal' in words or 'private' in words) else ('weak' if any(w.startswith(('linkonce','weak')) for w in words) else 'strong')
                if f.linkage=='internal': s.internal.add(nm)
                s.funcs[nm]=f
                i=j
            elif l.startswith('declare '):
                m=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
                s.decls[m.group(1).strip('"')]=l
            i+=1
        for nm,rest in pend:
            if re.search(r'\balias\b',rest.split('{')[0].split('(')[0]) :
                tgt=re.findall(r'@("[^"]*"|[\w.$-]+)',rest)[-1].strip('"')
                s.aliases[nm]=tgt
            else:
                g=Global(); g.name=nm; g.mod=s; g.text=rest; g.parsed=False
                s.globals[nm]=g
    # ---- types
    def resolve(s,t):
        if t[0]=='n':
            k=t[1]
            r=s.types.get(k)
            if r is None:
                txt=s.types_text.get(k)
                if txt is None or txt.strip()=='opaque': raise IRError('opaque type %s'%k)
                r=P(txt,s).type()
                s.types[k]=r
            return s.resolve(r) if r[0]=='n' else r
        return t
    def size_align(s,t):
        r=s._sz.get(t)
        if r is not None: return r
        k=t[0]
        if k=='i':
            n=t[1]; b=(n+7)//8
            p=1
            while p<b: p*=2
            r=(p,min(p,16))
        elif k=='ptr': r=(8,8)
        elif k=='f': r={32:(4,4),64:(8,8),80:(16,16)}[t[1]]
        elif k=='a':
            sz,al=s.size_align(t[2]); r=(sz*t[1],al)
        elif k=='v':
            sz,al=s.size_align(t[2]); r=(sz*t[1],sz*t[1])
        elif k=='n': r=s.size_align(s.resolve(t))
        elif k=='s': 
            off=0; mal=1
            for m in t[1]:
                sz,al=s.size_align(m)
                if t[2]: al=1
                off=(off+al-1)//al*al+sz; mal=max(mal,al)
            r=((off+mal-1)//mal*mal,mal)
        elif k=='fn': r=(8,8)
        elif k=='void': r=(0,1)
        else: raise IRError('size of %r'%(t,))
        s._sz[t]=r
        return r
    def sizeof(s,t): return s.size_align(t)[0]
    def field_off(s,t,i):
        t=s.resolve(t)
        off=0
        for j,m in enumerate(t[1]):
            sz,al=s.size_align(m)
            if t[2]: al=1
            off=(off+al-1)//al*al
            if j==i: return off,m
            off+=sz
        raise IRError('field')
    # ---- globals
    def parse_global(s,g):
        if g.parsed: return g
        txt=g.text
        m=re.search(r'\b(global|constant)\b',txt)
        pre=txt[:m.start()]
        g.const=m.group(1)=='constant'
        g.external=('external' in pre.split()) or ('extern_weak' in pre.split())
        p=P(txt[m.end():],s)
        g.type=p.type()
        g.init=None
        if not g.external:
            g.init=p.op(g.type)
        g.parsed=True
        return g
    # ---- functions
    def parse_func(s,f):
        if f.parsed: return f
        h=f.header
        m=re.search(r'@("[^"]*"|[\w.$-]+)\(',h)
        pre=P(h[len('define '):m.start()],s)
        while pre.peek() in ('dso_local','internal','private','linkonce_odr','weak_odr','linkonce','weak','hidden','protected','available_externally','noundef','zeroext','signext','nonnull','noalias','align','dereferenceable','local_unnamed_addr','unnamed_addr','external') or pre.peek() in CCONV:
            t=pre.nxt()
            if t=='dereferenceable':
                while pre.nxt()!=')': pass
            elif t=='align': pre.nxt()
        f.ret=pre.type()
        p=P(h[m.end():],s)
        f.params=[]; f.sret=None; f.vararg=False
        if not p.acc(')'):
            while True:
                if p.acc('...'): f.vararg=True; p.exp(')'); break
                ty=p.type(); at=p.attrs()
                nm=p.nxt()
                if 'sret' in at: f.sret=len(f.params)
                f.params.append((ty,nm,at))
                if p.acc(')'): break
                p.exp(',')
        f.noexcept = False
        lines,a,b=f.body
        f.blocks={}; f.order=[]
        cur=None
        entry=len([1 for x in f.params])
        i=a
        label='%'+str(entry)
        # unnamed entry block label = number after params (if params unnamed numbers)
        cur=[]; f.blocks[label]=cur; f.order.append(label)
        first=True
        while i<b:
            l=lines[i]
            i+=1
            if not l.strip(): continue
            if l[0]!=' ':
                mm=re.match(r'("[^"]*"|[\w.$-]+):',l)
                if not mm: raise IRError('line %r'%l)
                lab='%'+mm.group(1)
                if first and not cur:
                    del f.blocks[label]; f.order.pop()
                cur=[]; f.blocks[lab]=cur; f.order.append(lab)
                first=False
                continue
            first=False
            st=l.strip()
            if st.startswith('switch ') or ' switch ' in st[:20]:
                while not lines[i-1].strip().endswith(']'):
                    st+=' '+lines[i].strip(); i+=1
            elif ('invoke ' in st[:60] and re.match(r'(%[^=]+= )?invoke ',st)):
                st+=' '+lines[i].strip(); i+=1
            elif re.match(r'(%[^=]+= )?landingpad ',st):
                while i<b and re.match(r'\s+(cleanup|catch|filter)\b',lines[i]):
                    st+=' '+lines[i].strip(); i+=1
            cur.append(s.instr(st))
        f.parsed=True
        return f
    def instr(s,st):
        p=P(st,s)
        dst=None
        if p.peek()[0]=='%' and p.peek(1)=='=':
            dst=p.nxt(); p.nxt()
        o=p.nxt()
        if o in('tail','musttail','notail'): o=p.nxt()
        if o=='alloca':
            ty=p.type(); n=('c',1); 
            if p.acc(','):
                if p.peek()!='align':
                    t2=p.type(); n=p.op(t2)
            return ('alloca',dst,ty,n)
        if o=='store':
            while p.peek() in('volatile','atomic'): p.nxt()
            ty=p.type(); v=p.op(ty); p.exp(','); p.type(); a=p.op(('ptr',))
            return ('store',None,ty,v,a)
        if o=='load':
            while p.peek() in('volatile','atomic'): p.nxt()
            ty=p.type(); p.exp(','); p.type(); a=p.op(('ptr',))
            return ('load',dst,ty,a)
        if o=='getelementptr':
            inb=False
            while p.peek() in FASTFLAGS:
                if p.nxt()=='inbounds': inb=True
            bt=p.type(); p.exp(','); p.type(); base=p.op(('ptr',)); idx=[]
            while p.acc(','):
                it=p.type(); idx.append((it,p.op(it)))
            return ('gep',dst,bt,base,idx,inb)
        if o in('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'):
            fl=[]
            while p.peek() in FASTFLAGS: fl.append(p.nxt())
            ty=p.type(); a=p.op(ty); p.exp(','); b=p.op(ty)
            return ('bin',dst,o,ty,a,b,tuple(fl))
        if o in('fadd','fsub','fmul','fdiv','frem'):
            while p.peek() in FASTFLAGS: p.nxt()
            ty=p.type(); a=p.op(ty); p.exp(','); b=p.op(ty)
            return ('fbin',dst,o,ty,a,b)
        if o=='icmp':
            pr=p.nxt(); ty=p.type(); a=p.op(ty); p.exp(','); b=p.op(ty)
            return ('icmp',dst,pr,ty,a,b)
        if o=='fcmp':
            pr=p.nxt(); ty=p.type(); a=p.op(ty); p.exp(','); b=p.op(ty)
            return ('fcmp',dst,pr,ty,a,b)
        if o in('zext','sext','trunc','bitcast','ptrtoint','inttoptr','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','addrspacecast'):
            while p.peek() in FASTFLAGS: p.nxt()
            ft=p.type(); a=p.op(ft); p.exp('to'); tt=p.type()
            return ('cast',dst,o,ft,a,tt)
        if o=='br':
            if p.acc('label'): return ('br',None,p.nxt())
            ty=p.type(); c=p.op(ty); p.exp(','); p.exp('label'); a=p.nxt(); p.exp(','); p.exp('label'); b=p.nxt()
            return ('cbr',None,c,a,b)
        if o=='switch':
            ty=p.type(); v=p.op(ty); p.exp(','); p.exp('label'); d=p.nxt(); p.exp('[')
            cs=[]
            while not p.acc(']'):
                t2=p.type(); c=p.op(t2); p.exp(','); p.exp('label'); cs.append((c[1],p.nxt()))
            return ('switch',None,ty,v,d,cs)
        if o=='ret':
            ty=p.type()
            if ty[0]=='void': return ('ret',None,ty,None)
            return ('ret',None,ty,p.op(ty))
        if o=='unreachable': return ('unreachable',None)
        if o=='phi':
            while p.peek() in FASTFLAGS: p.nxt()
            ty=p.type(); inc=[]
            while True:
                p.exp('['); v=p.op(ty); p.exp(','); lab=p.nxt(); p.exp(']'); inc.append((lab,v))
                if not p.acc(','): break
            return ('phi',dst,ty,inc)
        if o=='select':
            while p.peek() in FASTFLAGS: p.nxt()
            ct=p.type(); c=p.op(ct); p.exp(','); ty=p.type(); a=p.op(ty); p.exp(','); p.type(); b=p.op(ty)
            return ('select',dst,c,ty,a,b)
        if o=='extractvalue':
            ty=p.type(); a=p.op(ty); idx=[]
            while p.acc(','):
                if p.peek() and p.peek()[0]=='!': break
                idx.append(int(p.nxt()))
            return ('extractvalue',dst,ty,a,tuple(idx))
        if o=='insertvalue':
            ty=p.type(); a=p.op(ty); p.exp(','); et=p.type(); e=p.op(et); idx=[]
            while p.acc(','): idx.append(int(p.nxt()))
            return ('insertvalue',dst,ty,a,et,e,tuple(idx))
        if o in('call','invoke'):
            while p.peek() in FASTFLAGS or p.peek() in CCONV: p.nxt()
            p.attrs()
            rt=p.type()
            if rt[0]=='fn': rt=rt[1]
            callee=p.op(('ptr',))
            p.exp('('); args=[]
            if not p.acc(')'):
                while True:
                    ty=p.type()
                    if ty[0]=='meta':
                        # metadata argument: skip to matching , or )
                        d=0
                        while True:
                            x=p.peek()
                            if x=='(' : d+=1
                            if x==')':
                                if d==0: break
                                d-=1
                            if x==',' and d==0: break
                            p.nxt()
                        args.append((ty,('undef',),{}))
                    else:
                        at=p.attrs(); args.append((ty,p.op(ty),at))
                    if p.acc(')'): break
                    p.exp(',')
            to=uw=None
            if o=='invoke':
                while p.peek()!='to': p.nxt()
                p.nxt(); p.exp('label'); to=p.nxt(); p.exp('unwind'); p.exp('label'); uw=p.nxt()
            return ('call',dst,rt,callee,args,to,uw)
        if o=='landingpad': return ('landingpad',dst)
        if o=='resume': return ('resume',None)
        if o=='freeze':
            ty=p.type(); a=p.op(ty); return ('freeze',dst,ty,a)
        if o=='fence': return ('nop',None)
        if o=='atomicrmw':
            op2=p.nxt(); p.type(); a=p.op(('ptr',)); p.exp(','); ty=p.type(); v=p.op(ty)
            return ('atomicrmw',dst,op2,ty,a,v)
        return ('unsupported',dst,o,st)

class Program:
    """All modules; resolves symbols."""
    def __init__(s, paths):
        s.mods=[]
        s.funcs={}; s.globals={}; s.aliases={}
        for n,pth in enumerate(paths):
            s.add(Module(pth,'m%d'%n))
    def add(s,m):
        s.mods.append(m)
        for nm,f in m.funcs.items():
            if nm in m.internal: s.funcs[m.id+'::'+nm]=f; continue
            o=s.funcs.get(nm)
            if o is None or (o.linkage=='weak' and f.linkage=='strong'): s.funcs[nm]=f
        for nm,g in m.globals.items():
            if nm in m.internal: s.globals[m.id+'::'+nm]=g; continue
            o=s.globals.get(nm)
            if o is None or re.match(r'(dso_local )?external\b',o.text): s.globals[nm]=g
        for nm,t in m.aliases.items():
            s.aliases[nm]=(m.id+'::'+t) if t in m.internal else t
    def demangle(s,name):
        n=name.split('::')[-1] if '::' in name else name
        d=s._dem.get(n) if hasattr(s,'_dem') else None
        if d is None:
            if not hasattr(s,'_dem'):
                import subprocess
                names=sorted(set(x.split('::')[-1] for x in s.funcs))
                o=subprocess.run(['c++filt'],input='\n'.join(names)+'\n',stdout=subprocess.PIPE,text=True).stdout.split('\n')
                s._dem=dict(zip(names,o))
                d=s._dem.get(n)
            if d is None:
                import subprocess
                d=subprocess.run(['c++filt',n],stdout=subprocess.PIPE,text=True).stdout.strip()
                s._dem[n]=d
        return d
    def short(s,name):
        """demangled signature without the return type, abbreviated namespaces"""
        if not hasattr(s,'_short'): s._short={}
        r=s._short.get(name)
        if r is None:
            d=s.demangle(name)
            # cut the return type: last top-level space before the parameter list of the function itself
            depth=0; cut=0; i=0
            while i<len(d):
                c=d[i]
                if d.startswith('operator',i) and (i==0 or not (d[i-1].isalnum() or d[i-1]=='_')):
                    i+=8
                    if d.startswith('()',i): i+=2
                    else:
                        while i<len(d) and d[i] in '<>=!+-*/&|^[]': i+=1
                    # conversion operators: keep everything up to '('
                    while i<len(d) and d[i]!='(' and depth==0 and d[i]!='<': i+=1
                    continue
                if c in '<': depth+=1
                elif c=='>': depth-=1
                elif c=='(' and depth==0:
                    if d.startswith('(anonymous namespace)',i): i+=21; continue
                    break
                elif c==' ' and depth==0: cut=i+1
                i+=1
            r=d[cut:].replace('bnl::base::','').replace('bnl::http3::','').replace('bnl::','').replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >','string')
            r=r.replace('[abi:cxx11]','').replace('unsigned long','u64').replace('unsigned char','u8').replace('unsigned int','u32')
            s._short[name]=r
        return r
    def byshort(s,short):
        """mangled name of the defined function with this short signature"""
        if not hasattr(s,'_bys'):
            s._bys={}
            for n in s.funcs:
                s._bys.setdefault(s.short(n),n)
        return s._bys.get(short)
    def func(s,name):
        k=0
        while name in s.aliases and name not in s.funcs:
            name=s.aliases[name]; k+=1
            if k>10: break
        f=s.funcs.get(name)
        if f is not None and not f.parsed: f.mod.parse_func(f)
        return f

def natural_loops(f):
    """header label -> set of labels in the loop (natural loops of the CFG)."""
    if f._loops is not None: return f._loops
    succ={}
    for l in f.order:
        bl=f.blocks[l]
        t=bl[-1]
        if t[0]=='br': ss=[t[2]]
        elif t[0]=='cbr': ss=[t[3],t[4]]
        elif t[0]=='switch': ss=[t[4]]+[x[1] for x in t[5]]
        elif t[0]=='call' and t[5] is not None: ss=[t[5]]   # invoke: normal edge only (exceptions are not modelled)
        else: ss=[]
        succ[l]=ss
    # reachable + dominators (iterative)
    entry=f.order[0]
    seen=[];st=[entry];sset={entry}
    post=[];stack=[(entry,iter(succ[entry]))]
    while stack:
        n,it=stack[-1]
        for x in it:
            if x not in sset:
                sset.add(x); stack.append((x,iter(succ[x]))); break
        else:
            post.append(n); stack.pop()
    rpo=post[::-1]; idx={n:i for i,n in enumerate(rpo)}
    pred={n:[] for n in rpo}
    for n in rpo:
        for x in succ[n]: pred[x].append(n)
    dom={entry:entry}
    ch=True
    while ch:
        ch=False
        for n in rpo[1:]:
            new=None
            for p in pred[n]:
                if p in dom:
                    if new is None: new=p
                    else:
                        a,b=p,new
                        while a!=b:
                            while idx[a]>idx[b]: a=dom[a]
                            while idx[b]>idx[a]: b=dom[b]
                        new=a
            if dom.get(n)!=new: dom[n]=new; ch=True
    def dominates(a,b):
        while True:
            if a==b: return True
            if b==entry: return False
            b=dom[b]
    loops={}
    for n in rpo:
        for x in succ[n]:
            if dominates(x,n):
                body=loops.setdefault(x,{x})
                st=[n]
                while st:
                    y=st.pop()
                    if y in body: continue
                    body.add(y); st.extend(pred[y])
    f._loops=loops
    return loops
