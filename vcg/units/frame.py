"""C10, C11, C12: HTTP/3 frames (draft-ietf-quic-http, the version the code implements)."""
from ..seq import *
from .varint import BASE,write_seq,region,frame_post,bufpost,INCOMPLETE,VARINT_OVERFLOW,MAX,s_size,s_byte,s_fits,s_declen,s_value
MALFORMED=0x100; DELEGATE=(1<<62)+2
TYPES=dict(data=0,headers=1,priority=2,cancel_push=3,settings=4,push_promise=5,goaway=7,max_push_id=0xd,duplicate_push=0xe)
NF=dict(data=1,headers=1,priority=5,cancel_push=1,settings=4,push_promise=2,goaway=1,max_push_id=1,duplicate_push=1)
FSIZE=40
def known(t): return z3.Or([bv(t,64)==x for x in TYPES.values()])
# ---- integers as callers see them: length and value of the varint at a position, size and bytes of an encoding
class VA:
    def __init__(s,arr,p):
        a=(arr,bv(p,64)); s.len=mark_small(uf('VAlen',ARR,B64,B64)(*a)); s.val=uf('VAval',ARR,B64,B64)(*a)
        s.ax=[z3.Or([s.len==x for x in(1,2,4,8)]),z3.ULE(s.val,MAX)]
class VE:
    def __init__(s,v):
        s.v=v
        if isinstance(v,int): s.size=simp(s_size(v)); s.ax=[]
        else:
            s.size=mark_small(uf('VEsize',B64,B64)(bv(v,64))); s.ax=[z3.Or([s.size==x for x in(1,2,4,8)])]
    def byte(s,i): return s_byte(s.v,i) if isinstance(s.v,int) else uf('VEbyte',B64,B64,B8)(bv(s.v,64),bv(i,64))
FACTS='$varint facts'
def go_facts(ex):
    st=State(); bs=[ex.fresh('b',8) for _ in range(8)]; at=lambda i: bs[i]; v=ex.fresh('v',64); ex.unit.inputs['v']=v
    n=s_declen(bs[0])
    ex.oblige(st,z3.And(z3.Or([n==x for x in(1,2,4,8)]),z3.ULE(s_value(at),MAX)),'lemma','length and value of a varint')
    ex.oblige(st,z3.Or([s_size(v)==x for x in(1,2,4,8)]),'lemma','size of an encoded varint')
Unit('varint.facts',('C10','C11','C12'),go_facts,provides=(FACTS,))
def va_split(ex,st,arr,p):
    ex.used.add(FACTS)
    x=VA(arr,p); kk=('vav',str(x.val))
    if kk not in st.ghost:
        for a in x.ax: st.add(a)
        if getattr(ex.unit,'nosplit',False): x.big=None; return [(st,x)]
        out=[]
        for s,t in ex.branch(st,z3.ULE(x.val,1<<49)):
            if t:
                w=ex.small(s,'vv',1<<49); s.add(w==x.val); s.ghost[kk]=w
            else: s.ghost[kk]=None
            out+=va_split(ex,s,arr,p)
        return out
    w=st.ghost[kk]
    if w is not None: x.val=w
    x.big=w is None
    return [(st,x)]
VABS={}
def h_decode(ex,st,a,n):
    v=view(ex,st,kind_of(ex.prog.short(n)),a[0])
    if v is None: return []
    k=key(ex,st,v)
    if k is None: raise Unsupported('varint over something that is not one input array')
    res=[]
    for st,x in va_split(ex,st,k[0],k[1]):
        for s,kd,val,cn in apply_outcomes(ex,st,[(z3.ULE(x.len,bv(v.L,64)),'ok',x.val,x.len),(z3.ULT(bv(v.L,64),x.len),'err',INCOMPLETE,0)]):
            if kd=='err': res.append((s,ex.call1(s,'vpmk_u64_err',[val])))
            else:
                for s2 in consume(ex,s,v,simp(cn)): res.append((s2,ex.call1(s2,'vpmk_u64_ok',[simp(val)])))
    return res
for k in KINDS: VABS['varint::decode<%s>(%s&)'%(TNAME[k],TNAME[k])]=h_decode
def fits(v): return int(v<=MAX) if isinstance(v,int) else simp(s_fits(v))
def h_esize(ex,st,a,n):
    ex.used.add(FACTS); res=[]
    for s,t in ex.branch(st,fits(a[0])):
        if t:
            e=VE(a[0])
            for x in e.ax: s.add(x)
            res.append((s,ex.call1(s,'vpmk_u64_ok',[e.size])))
        else: res.append((s,ex.call1(s,'vpmk_u64_err',[VARINT_OVERFLOW])))
    return res
VABS['varint::encoded_size(u64)']=h_esize
def h_eraw(ex,st,a,n):
    ex.used.add(FACTS); res=[]
    if isinstance(a[0],int): ex.violate(st,'precondition','varint::encode destination is not null'); return []
    for s,t in ex.branch(st,fits(a[1])):
        if t:
            e=VE(a[1])
            for x in e.ax: s.add(x)
            write_seq(ex,s,a[0],e.size,e.byte)
            if s.dead: continue
            res.append((s,ex.call1(s,'vpmk_u64_ok',[e.size])))
        else: res.append((s,ex.call1(s,'vpmk_u64_err',[VARINT_OVERFLOW])))
    return res
VABS['varint::encode(u8*, u64)']=h_eraw
DEPS=BASE+(VABS,)
# ---- encoding
class FE:
    """encoding of a frame of type ty with fields fs: fits, size, byte(i)"""
    def __init__(s,st,ty,fs):
        t=TYPES[ty]; s.pay=bvv(0); ints=list(fs)
        pieces=[]                       # ('v',term)|('b',byte)|('opt',cond,[..])
        if ty in('data','headers'): pay=bv(fs[0],64); body=[]
        elif ty=='priority':
            a,b,c,d,e=fs
            body=[('b',((bv(a,8)<<6)|((bv(b,8)&3)<<4)&0xf0)),('v',c),('v',d),('b',bv(e,8))]; ints=[c,d]
        elif ty=='settings':
            body=[('v',6),('v',fs[0]),('o',fs[1],9),('v',1),('v',fs[2]),('v',7),('v',fs[3])]
        elif ty=='push_promise': body=[('v',fs[0])]
        else: body=[('v',fs[0])]
        s.items=[]; n=bvv(0)
        for x in body:
            if x[0]=='b': s.items.append((bvv(1),lambda i,b=x[1]: b))
            elif x[0]=='v': s.items.append(s.ve(st,x[1]))
            else:
                e=VE(x[1])
                for q in e.ax: st.add(q)
                s.items.append((z3.If(bv(x[1],64)==0,bvv(0),bvv(1)),lambda i: z3.BitVecVal(9,8)))
                s.items.append((z3.If(bv(x[1],64)==0,bvv(0),e.size),e.byte))
        for sz,_ in s.items: n=n+sz
        if ty in('data','headers'): s.pay=bv(fs[0],64)
        elif ty=='push_promise': s.pay=n+bv(fs[1],64)
        else: s.pay=n
        s.fits=z3.And([s_fits(x) for x in ints]+[s_fits(s.pay)])
        s.items=[s.ve(st,t),s.ve(st,simp(s.pay))]+s.items
        s.size=bvv(0)
        s.pos=[]
        for sz,_ in s.items: s.pos.append(s.size); s.size=s.size+sz
    def ve(s,st,v):
        e=VE(v)
        for x in e.ax: st.add(x)
        return (bv(e.size,64),e.byte)
    def byte(s,i):
        i=bv(i,64); r=None
        for (sz,f),p in reversed(list(zip(s.items,s.pos))):
            b=bv(f(simp(i-p)),8); r=b if r is None else z3.If(z3.ULT(i,p+sz),b,r)
        return r
def mkfields(ex,st,ty):
    fs=[ex.fresh('f%d'%i,8 if ty=='priority' and i in(0,1,4) else 64) for i in range(NF[ty])]
    for i,f in enumerate(fs): ex.unit.inputs['field%d'%i]=f
    if ty=='priority': st.add(z3.And(z3.ULE(fs[0],3),z3.ULE(fs[1],3)))
    return fs
def mkframe(ex,st,ty):
    fs=mkfields(ex,st,ty); p=stackobj(ex,st,FSIZE,'frame')
    ex.call1(st,'vp_frame_mk_'+ty,[p]+fs)
    ex.unit.inputs['type']=lambda m,ty=ty: ty
    return p,fs
def pieces_post(ex,st,oid,snap,lo,e,what):
    """frame_post, piece by piece of the encoding"""
    o=st.mem[oid]; off=bv(lo,64)
    def at(s2,i,exp,decide=True):
        if not ex.feasible(s2): return
        ex.oblige(s2,simp(bv(ex.obyte(s2,s2.mem[oid],i,decide=decide),8)==bv(exp,8)),'postcondition',what+': bytes written and nothing else')
    for (sz,f),p in zip(e.items,e.pos):
        s2=st.fork(); j=ex.fresh('j',64); mark_small(j); s2.add(z3.ULT(j,sz)); s2.add(z3.ULT(j,16))
        at(s2,simp(off+p+j),f(j))
    s2=st.fork(); i=ex.index(s2,'i',o.size); s2.add(z3.ULT(i,off)); at(s2,i,ex.obyte(s2,snap,i))
    s2=st.fork(); i=ex.index(s2,'i',o.size); s2.add(z3.ULE(simp(off+e.size),i)); at(s2,i,ex.obyte(s2,snap,i))
FRAME={}
def mk_enc(ty):
    def go_size(ex):
        st=State(); p,fs=mkframe(ex,st,ty); e=FE(st,ty,fs); o=outp(ex,st)
        for s,_ in ex.call(st,'vp_frame_encoded_size',[p,o]):
            outcomes_post(ex,s,[(e.fits,'ok',e.size,0),(z3.Not(e.fits),'err',VARINT_OVERFLOW,0)],okflag(ex,s,o),out(ex,s,o,-1),lambda s_,x:[('encoded size',out(ex,s_,o,0),x)],None,'frame::encoded_size (%s)'%ty)
    Unit('frame.encoded_size.'+ty,('C10',),go_size,provides=('frame::encoded_size(frame const&)',),contracts=DEPS)
    def go_raw(ex):
        st=State(); p,fs=mkframe(ex,st,ty); e=FE(st,ty,fs); o=outp(ex,st)
        ob,N,off,d=region(ex,st); st.add(z3.Implies(e.fits,z3.ULE(e.size,simp(N-off)))); st.add(z3.UGE(simp(N-off),64))
        snap=ex.snapshot(st,ob)
        for s,_ in ex.call(st,'vp_frame_encode_raw',[d,p,o]):
            outcomes_post(ex,s,[(e.fits,'ok',e.size,0),(z3.Not(e.fits),'err',VARINT_OVERFLOW,0)],okflag(ex,s,o),out(ex,s,o,-1),lambda s_,x:[('encoded size',out(ex,s_,o,0),x)],None,'frame::encode (%s)'%ty)
            s2=s.fork(); s2.add(e.fits)
            if ex.feasible(s2): pieces_post(ex,s2,ob.id,snap,off,e,'frame::encode (%s)'%ty)
    Unit('frame.encode_raw.'+ty,('C10',),go_raw,provides=('frame::encode(u8*, frame const&)',),contracts=DEPS,unroll=20)
    def go_buf(ex):
        st=State(); p,fs=mkframe(ex,st,ty); e=FE(st,ty,fs); o=outp(ex,st); b=stackobj(ex,st,40,'result')
        for s,_ in ex.call(st,'vp_frame_encode',[p,b,o]):
            for x,t in ex.branch(s,e.fits):
                ok=okflag(ex,x,o)
                if t:
                    if ex.oblige(x,ok,'postcondition','frame::encode succeeds (%s)'%ty): bufpost(ex,x,b,e.size,e.byte,'frame::encode (%s)'%ty)
                else:
                    if ex.oblige(x,simp(z3.Not(bl(ok))),'postcondition','frame::encode refuses integers over 2^62-1 (%s)'%ty):
                        ex.oblige(x,simp(bv(out(ex,x,o,-1),64)==VARINT_OVERFLOW),'postcondition','frame::encode error code (%s)'%ty)
    Unit('frame.encode.'+ty,('C10',),go_buf,provides=('frame::encode(frame const&)',),contracts=DEPS,unroll=20)
for ty in TYPES: mk_enc(ty)
# ---- decoding one frame
def W(st,x):
    """the small variable standing for a value, when the path knows it to be small"""
    return st.ghost.get(('vav',str(x.val))) if not hasattr(x,'big') else (None if x.big else x.val)
class ST:
    """settings payload of n bytes at (arr,p): bytes read, and the final values of the four settings (defaults when absent)"""
    def __init__(s,arr,p,n):
        a=(arr,bv(p,64),bv(n,64)); s.total=mark_small(uf('STtotal',ARR,B64,B64,B64)(*a))
        s.f=[uf('STf%d'%i,ARR,B64,B64,B64)(*a) for i in range(4)]
        s.ax=[z3.ULE(s.total,1<<50)]
class D1:
    """the frame at (arr,e) -- header, payload length as read T -- with every value taken from the bytes"""
    def __init__(s,arr,e):
        e=bv(e,64); s.arr=arr; s.e=e; s.t=VA(arr,e); s.n=VA(arr,simp(e+s.t.len)); s.h=simp(s.t.len+s.n.len); s.p=simp(e+s.h)
    def b(s,o): return z3.Select(s.arr,simp(s.p+o))
    def pieces(s,ty):
        """(T, fields, size taken from the input, extra axioms)"""
        p=s.p; n=s.n.val
        if ty in('data','headers'): return bvv(0),[n],bvv(0),[]
        if ty=='priority':
            x=VA(s.arr,simp(p+1)); y=VA(s.arr,simp(p+1+x.len)); T=1+x.len+y.len+1
            b0=s.b(0); w=lambda q: z3.ZeroExt(56,q)
            return T,[w(z3.LShR(b0,6)),w(z3.LShR(b0,4)&3),x.val,y.val,w(z3.Select(s.arr,simp(p+1+x.len+y.len)))],T,x.ax+y.ax
        if ty=='settings':
            q=ST(s.arr,p,n); return q.total,q.f,q.total,q.ax
        x=VA(s.arr,p)
        if ty=='push_promise': return x.len,[x.val,n-x.len],x.len,x.ax
        return x.len,[x.val],x.len,x.ax
    def outs(s,ty,L):
        """cases for a frame whose type is known to be ty"""
        L=bv(L,64); T,f,took,ax=s.pieces(ty)
        cut=z3.ULT(L,simp(s.h+T))
        bad=z3.BoolVal(False) if ty in('data','headers') else (z3.UGT(T,s.n.val) if ty=='push_promise' else T!=s.n.val)
        return [(cut,'err',INCOMPLETE,0),(z3.And(z3.Not(cut),bad),'err',MALFORMED,0),(z3.And(z3.Not(cut),z3.Not(bad)),'ok',f,simp(s.h+T))],ax
def mem_frame(ex,st,ty,fs):
    p=stackobj(ex,st,FSIZE,'tmpframe')
    args=[simp(z3.Extract(7,0,bv(f,64))) if ty=='priority' and i in(0,1,4) else simp(f) for i,f in enumerate(fs)]
    ex.call1(st,'vp_frame_mk_'+ty,[p]+args); return p
def split_type(ex,st,t):
    """[(state, type name or None)]"""
    out=[]; cur=st
    for ty,x in TYPES.items():
        nxt=None
        for s,c in ex.branch(cur,simp(bv(t,64)==x)):
            if c: out.append((s,ty))
            else: nxt=s
        cur=nxt
        if cur is None: return out
    return out+[(cur,None)]
def d1_cases(ex,st,v):
    """the specification of decoding a single frame: (state, 'err'|'skip'|'ok', type, value, consumed)"""
    k=key(ex,st,v)
    if k is None: raise Unsupported('frame over something that is not one input array')
    L=bv(v.L,64); out=[]
    for s0,t in va_split(ex,st,k[0],k[1]):
        for s1,n in va_split(ex,s0,k[0],simp(bv(k[1],64)+t.len)):
            d=D1(k[0],k[1]); d.n.val=n.val; d.t.val=t.val
            for s,short in ex.branch(s1,simp(z3.ULT(L,d.h))):
                if short: out.append((s,'err',None,INCOMPLETE,0)); continue
                for s2,ty in split_type(ex,s,t.val):
                    if ty is None:
                        for s3,cut in ex.branch(s2,simp(z3.UGT(n.val,simp(L-d.h)))):
                            out.append((s3,'err',None,INCOMPLETE,0) if cut else (s3,'skip',None,DELEGATE,simp(d.h+n.val)))
                        continue
                    outs,ax=d.outs(ty,L)
                    for a in ax: s2.add(a)
                    for s3,kd,x,cn in apply_outcomes(ex,s2,outs): out.append((s3,kd,ty,x,cn))
    return out
SINGLE={}
LAK=('bufferla','buffersla')
def h_single(ex,st,a,n):
    dst,p=a; v=view(ex,st,kind_of(ex.prog.short(n)),p)
    if v is None: return []
    res=[]
    for s,kd,ty,x,cn in d1_cases(ex,st,v):
        if kd=='err':
            # how far the lookahead got is not specified
            w=ex.small(s,'part'); s.add(z3.ULE(w,bv(v.L,64)))
            for s2 in consume(ex,s,v,w): ex.call1(s2,'vpmk_frame_err',[dst,x]); res.append((s2,None))
        elif kd=='skip':
            for s2 in consume(ex,s,v,cn): ex.call1(s2,'vpmk_frame_err',[dst,x]); res.append((s2,None))
        else:
            for s2 in consume(ex,s,v,simp(cn)): ex.call1(s2,'vpmk_frame_ok',[dst,mem_frame(ex,s2,ty,x)]); res.append((s2,None))
    return res
for k in LAK: SINGLE['decode_single<%s>(%s&)'%(TNAME[k],TNAME[k])]=h_single
class SFold:
    """settings payload: Q(k) bytes and F(i,k) setting i after k pairs; G(k): pairs 0..k-1 were needed"""
    ID=(6,9,1,7); DEF=((0x40<<56)-1,0,0,0)
    def __init__(s,arr,p,n,tag):
        s.arr=arr; s.p=bv(p,64); s.n=n
        s.Q=lambda k,f=uf('sQ_'+tag,B64,B64): mark_small(f(bv(k,64)))
        fs=[uf('sF%d_%s'%(i,tag),B64,B64) for i in range(4)]; s.F=lambda i,k: fs[i](bv(k,64))
        g=uf('sG_'+tag,B64,BOOL); s.G=lambda k: g(bv(k,64))
    def zero(s): return [s.Q(0)==0,s.G(0)]+[s.F(i,0)==s.DEF[i] for i in range(4)]
    def pair(s,k):
        i=VA(s.arr,simp(s.p+s.Q(k))); return i,VA(s.arr,simp(s.p+s.Q(k)+i.len))
    def step(s,k):
        i,v=s.pair(k); k1=simp(bv(k,64)+1)
        # sequences are shorter than 2^49, so the fold is only followed that far
        return i.ax+v.ax+[z3.Implies(z3.ULE(s.Q(k),1<<49),s.Q(k1)==s.Q(k)+i.len+v.len),z3.ULE(s.Q(k),1<<50),s.G(k1)==z3.And(s.G(k),z3.ULT(s.Q(k),s.n))]+[s.F(j,k1)==z3.If(i.val==s.ID[j],v.val,s.F(j,k)) for j in range(4)]
def check_frame(ex,st,fp,ty,fs,what):
    ex.oblige(st,simp(bv(ex.call1(st,'vp_frame_type',[fp]),64)==TYPES[ty]),'postcondition',what+': type')
    for i,f in enumerate(fs):
        if st.dead: return
        ex.oblige(st,simp(bv(ex.call1(st,'vp_frame_get_'+ty,[fp,i]),64)==bv(f,64)),'postcondition','%s: field %d'%(what,i))
def mk_single(kind,want):
    def go(ex):
        u=ex.unit; st=State(); p,v=mkseq(ex,st,kind,u); k=key(ex,st,v); L=bv(v.L,64); u.nosplit=False
        for s0,t in va_split(ex,st,k[0],k[1]):
            for s1,n in va_split(ex,s0,k[0],simp(bv(k[1],64)+t.len)):
                if want is None: s1.add(z3.Not(known(t.val)))
                else: s1.add(t.val==TYPES[want])
                if not s1.dead and ex.feasible(s1): one(ex,u,s1,p,v,k,L,t,n,want)
    def one(ex,u,st,p,v,k,L,t,n,ty):
        u.nosplit=True
        what='frame decoding (%s)'%(ty or 'unknown type'); d=D1(k[0],k[1]); d.n.val=n.val
        o=outp(ex,st); fp=stackobj(ex,st,FSIZE,'result'); la=v
        short=z3.ULT(L,d.h)
        if ty is None:
            outs=[(z3.Or(short,z3.UGT(n.val,L-d.h)),'err',INCOMPLETE,0),(z3.And(z3.Not(short),z3.ULE(n.val,L-d.h)),'err',DELEGATE,simp(d.h+n.val))]
            sts=[s for s,_ in ex.call(st,'vp_frame_single_'+kind,[p,fp,o])]
            for s in sts: post(ex,s,outs,o,fp,ty,v,what)
            return
        if ty!='settings':
            outs,ax=d.outs(ty,L)
            for a in ax: st.add(a)
            for s,_ in ex.call(st,'vp_frame_single_'+kind,[p,fp,o]): post(ex,s,outs,o,fp,ty,v,what)
            return
        S=SFold(k[0],d.p,n.val,kind)
        for a in S.zero(): st.add(a)
        def cands(ex,C):
            out=[('all pairs so far were needed',S.G(C.k)),('bytes so far small',z3.ULE(S.Q(C.k),L)),('bytes so far available',z3.ULE(d.h+S.Q(C.k),L))]
            for keyc,kd,var,init,extra in C.info.vars:
                if var.size()!=64 or init is None: continue
                out.append(('bytes so far',var==init+S.Q(C.k),(var,init+S.Q(C.k))))
                out+=[('setting %d'%i,var==S.F(i,C.k)) for i in range(4)]
            return out
        u.candidates=cands
        u.loop_axioms=lambda ex,Sx,C,kk: S.step(kk)+S.step(simp(bv(kk,64)+1))+S.zero()
        def on_loop(ex,Sx,C): Sx.ghost['k']=C.k
        u.on_loop=on_loop
        def rewrite(ex,b,C,kk):
            i,x=S.pair(kk); k1=simp(bv(kk,64)+1)
            return [(S.Q(k1),S.Q(kk)+i.len+x.len,z3.ULE(S.Q(kk),1<<49))]
        u.rewrite=rewrite
        for s,_ in ex.call(st,'vp_frame_single_'+kind,[p,fp,o]):
            kk=s.ghost.get('k',0)
            for a in S.step(kk): s.add(a)
            for x,c in ex.branch(s,okflag(ex,s,o)):
                if c:
                    if not ex.oblige(x,simp(z3.And(S.G(kk),z3.UGE(S.Q(kk),n.val))),'postcondition',what+': reads exactly the pairs of the payload'): continue
                    ex.oblige(x,simp(S.Q(kk)==n.val),'postcondition',what+': accepted only when the pairs fill the payload')
                    check_frame(ex,x,fp,ty,[S.F(i,kk) for i in range(4)],what)
                    took(ex,x,v,simp(d.h+S.Q(kk)),what)
                else:
                    e=bv(out(ex,x,o,-1),64)
                    for y,inc in ex.branch(x,simp(e==INCOMPLETE)):
                        if inc:
                            i,vv=S.pair(kk)
                            ex.oblige(y,simp(z3.Or(z3.ULT(L,d.h),z3.And(S.G(kk),z3.ULT(S.Q(kk),n.val),z3.ULT(L,d.h+S.Q(kk)+i.len+vv.len)))),'postcondition',what+': incomplete only when a needed pair is cut short')
                        else:
                            if not ex.oblige(y,simp(e==MALFORMED),'postcondition',what+': error code'): continue
                            ex.oblige(y,simp(z3.And(S.G(kk),z3.UGT(S.Q(kk),n.val))),'postcondition',what+': malformed only when the pairs overrun the payload')
    def took(ex,s,v,n,what):
        v1=view(ex,s,v.kind,v.p)
        ex.oblige(s,simp(bv(v1.L,64)==bv(v.L,64)-bv(n,64)),'postcondition',what+': bytes consumed')
        if s.dead: return
        if not hasattr(v,'basep'): return
        b=view(ex,s,'buffer' if v.kind=='bufferla' else 'buffers',v.basep)
        ex.oblige(s,simp(bv(b.L,64)==bv(v.N,64)),'postcondition',what+': a lookahead does not consume from its source')
    def post(ex,st,outs,o,fp,ty,v,what):
        for c,kd,x,n in outs:
            s=st.fork(); s.add(c)
            if s.dead or not ex.feasible(s): continue
            ok=okflag(ex,s,o)
            if kd=='err':
                if not ex.oblige(s,simp(z3.Not(bl(ok))),'postcondition',what+': fails when specified to fail'): continue
                ex.oblige(s,simp(bv(out(ex,s,o,-1),64)==x),'postcondition',what+': error code')
                if x==DELEGATE: took(ex,s,v,n,what)
            else:
                if not ex.oblige(s,ok,'postcondition',what+': succeeds when specified to succeed'): continue
                check_frame(ex,s,fp,ty,x,what); took(ex,s,v,n,what)
    nm='decode_single<%s>(%s&)'%(TNAME[kind],TNAME[kind])
    Unit('frame.single.%s.%s'%(kind,want or 'unknown'),('C11','C24'),go,provides=(nm,),contracts=DEPS,unroll=3)
for k in LAK:
    for ty in list(TYPES)+[None]: mk_single(k,ty)
# ---- decoding and peeking past frames of unknown type
class UFold:
    """frames from (arr,e) on: P(k) offset after k frames; Un(k): the first k are all of unknown type"""
    def __init__(s,arr,e,tag):
        s.arr=arr; s.e=bv(e,64)
        s.P=lambda k,f=uf('uP_'+tag,B64,B64): mark_small(f(bv(k,64)))
        g=uf('uU_'+tag,B64,BOOL); s.Un=lambda k: g(bv(k,64))
    def zero(s): return [s.P(0)==0,s.Un(0)]
    def at(s,k): return D1(s.arr,simp(s.e+s.P(k)))
    def guard(s,k): return z3.And(z3.ULE(s.P(k),1<<49),z3.ULE(s.at(k).n.val,1<<49))
    def step(s,k):
        d=s.at(k); k1=simp(bv(k,64)+1)
        return d.t.ax+d.n.ax+[z3.Implies(s.guard(k),s.P(k1)==s.P(k)+d.h+d.n.val),z3.ULE(s.P(k),(1<<50)+16),s.Un(k1)==z3.And(s.Un(k),z3.Not(known(d.t.val)))]
    def rewrite(s,k):
        d=s.at(k); k1=simp(bv(k,64)+1)
        return [(s.P(k1),s.P(k)+d.h+d.n.val,s.guard(k)),(s.Un(k1),z3.And(s.Un(k),z3.Not(known(d.t.val))),z3.BoolVal(True))]
def fold_hooks(u,S,L):
    def cands(ex,C):
        out=[('frames so far all of unknown type',S.Un(C.k)),('frames so far available',z3.ULE(S.P(C.k),L))]
        for keyc,kd,var,init,extra in C.info.vars:
            if var.size()!=64 or init is None: continue
            out.append(('skipped so far',var==init+S.P(C.k),(var,init+S.P(C.k))))
            if kd.startswith('ghost'): out.append(('skipped so far',var==init-S.P(C.k),(var,init-S.P(C.k))))
        return out
    u.candidates=cands
    u.loop_axioms=lambda ex,Sx,C,kk: S.step(kk)+S.zero()
    def on_loop(ex,Sx,C): Sx.ghost['k']=C.k
    u.on_loop=on_loop
    u.rewrite=lambda ex,b,C,kk: S.rewrite(kk)
def took(ex,s,v,n,what):
    v1=view(ex,s,v.kind,v.p)
    ex.oblige(s,simp(bv(v1.L,64)==bv(v.L,64)-bv(n,64)),'postcondition',what+': bytes consumed')
    if s.dead or not v.kind.endswith('la'): return
    b=view(ex,s,'buffer' if v.kind=='bufferla' else 'buffers',v.basep)
    ex.oblige(s,simp(bv(b.L,64)==bv(v.N,64)),'postcondition',what+': a lookahead does not consume from its source')
def mk_decode(kind):
    def go(ex):
        u=ex.unit; st=State(); p,v=mkseq(ex,st,kind,u); k=key(ex,st,v); L=bv(v.L,64); what='frame::decode'
        S=UFold(k[0],k[1],kind+'d')
        for a in S.zero(): st.add(a)
        fold_hooks(u,S,L)
        o=outp(ex,st); fp=stackobj(ex,st,FSIZE,'result')
        for s,_ in ex.call(st,'vp_frame_decode_'+kind,[p,fp,o]):
            kk=s.ghost.get('k',0); d=S.at(kk); skipped=S.P(kk); L1=simp(L-skipped); tv=d.t.val
            for a in S.step(kk): s.add(a)
            if not ex.oblige(s,simp(z3.And(S.Un(kk),z3.ULE(skipped,L))),'postcondition',what+': only frames of unknown type are skipped'): continue
            for x,c in ex.branch(s,okflag(ex,s,o)):
                if c:
                    T=ex.call1(x,'vp_frame_type',[fp])
                    for y,ty in split_type(ex,x,T):
                        if ty is None: ex.oblige(y,False,'postcondition',what+': only known types are reported'); continue
                        outs,ax=d.outs(ty,L1)
                        for a in ax: y.add(a)
                        if not ex.oblige(y,simp(tv==TYPES[ty]),'postcondition',what+': type of the frame'): continue
                        if not ex.oblige(y,simp(outs[2][0]),'postcondition',what+': succeeds only on a complete, well-formed frame'): continue
                        check_frame(ex,y,fp,ty,outs[2][2],what); took(ex,y,v,simp(skipped+outs[2][3]),what)
                else:
                    e=bv(out(ex,x,o,-1),64)
                    cut=[z3.ULT(L1,d.h),z3.And(z3.Not(known(tv)),z3.UGT(d.n.val,L1-d.h))]; bad=[]
                    for ty in TYPES:
                        outs,ax=d.outs(ty,L1)
                        for a in ax: x.add(a)
                        cut.append(z3.And(tv==TYPES[ty],outs[0][0])); bad.append(z3.And(tv==TYPES[ty],z3.UGE(L1,d.h),outs[1][0]))
                    for y,inc in ex.branch(x,simp(e==INCOMPLETE)):
                        if inc: ex.oblige(y,simp(z3.Or(cut)),'postcondition',what+': incomplete only when a frame is cut short')
                        else:
                            if not ex.oblige(y,simp(e==MALFORMED),'postcondition',what+': error code'): continue
                            ex.oblige(y,simp(z3.Or(bad)),'postcondition',what+': malformed only when the payload does not fill its length')
                        took(ex,y,v,skipped,what+' (failed)')
    Unit('frame.decode.'+kind,('C11','C12','C24'),go,deep=('C12','C24') if kind.endswith('la') else ('C24',),provides=('frame::decode<%s>(%s&)'%(TNAME[kind],TNAME[kind]),),contracts=DEPS+(SINGLE,),unroll=0)
    def go_peek(ex):
        u=ex.unit; st=State(); p,v=mkseq(ex,st,kind,u); k=key(ex,st,v); L=bv(v.L,64); what='frame::peek'
        S=UFold(k[0],k[1],kind+'p')
        for a in S.zero(): st.add(a)
        fold_hooks(u,S,L)
        o=outp(ex,st)
        for s,_ in ex.call(st,'vp_frame_peek_'+kind,[p,o]):
            kk=s.ghost.get('k',0); d=S.at(kk); L1=simp(L-S.P(kk)); tv=d.t.val
            for a in S.step(kk): s.add(a)
            if not ex.oblige(s,simp(z3.And(S.Un(kk),z3.ULE(S.P(kk),L))),'postcondition',what+': only frames of unknown type are skipped'): continue
            took(ex,s,v,0,what)
            for x,c in ex.branch(s,okflag(ex,s,o)):
                if c:
                    ex.oblige(x,simp(z3.And(z3.ULE(d.t.len,L1),known(tv),bv(out(ex,x,o,0),64)==tv)),'postcondition',what+': reports the type of the first frame of a known type')
                else:
                    if not ex.oblige(x,simp(bv(out(ex,x,o,-1),64)==INCOMPLETE),'postcondition',what+': error code'): continue
                    ex.oblige(x,simp(z3.Or(z3.ULT(L1,d.t.len),z3.And(z3.Not(known(tv)),z3.Or(z3.ULT(L1,d.h),z3.UGT(d.n.val,L1-d.h))))),'postcondition',what+': incomplete only when the type is not there yet')
    Unit('frame.peek.'+kind,('C12','C24'),go_peek,provides=('frame::peek<%s>(%s const&)'%(TNAME[kind],TNAME[kind]),),contracts=DEPS+(SINGLE,),unroll=0)
for k in KINDS: mk_decode(k)
# ---- frames as callers see them
class SK:
    """o: bytes of the complete frames of unknown type in front of the first frame of a known type (at least 2^50 when
    there is none within 2^49 bytes).  This is P(k) of UFold for the first k whose frame has a known type: the units
    frame.decode.* and frame.peek.* show that every outcome is the one at that k, or 'incomplete' at an earlier one."""
    def __init__(s,ex,st,arr,e):
        ex.used.add(FACTS)
        s.o=mark_small(uf('SKo',ARR,B64,B64)(arr,bv(e,64))); s.arr=arr; s.e=bv(e,64)
        s.d=D1(arr,simp(s.e+s.o))
        st.add(z3.ULE(s.o,1<<51))
        for a in s.d.t.ax+s.d.n.ax: st.add(a)
        st.add(known(s.d.t.val))
        # a frame of a known type starts there, so nothing is skipped in front of it
        st.add(z3.Implies(z3.ULE(s.o,1<<49),uf('SKo',ARR,B64,B64)(arr,simp(s.e+s.o))==0))
    def cut(s,ex,st,L):
        """bytes skipped before the input ran out"""
        L=bv(L,64); w=mark_small(uf('SKcut',ARR,B64,B64,B64)(s.arr,s.e,L))
        st.add(z3.ULE(w,L)); st.add(z3.ULE(w,s.o)); st.add(z3.Implies(z3.ULE(s.o,L),w==s.o))
        return w
    def peeked(s,L): return z3.ULE(simp(s.o+s.d.t.len),bv(L,64))
    def headed(s,L): return z3.ULE(simp(s.o+s.d.h),bv(L,64))
    def type(s): return s.d.t.val
def sk_at(ex,st,v):
    k=key(ex,st,v)
    if k is None: raise Unsupported('frame over something that is not one input array')
    return SK(ex,st,k[0],k[1])
def split_len(ex,st,k):
    """split on whether the announced payload length is small"""
    return va_split(ex,st,k.arr,simp(k.e+k.o+k.d.t.len))
def sk_cases(ex,st,v,at=None):
    """specification of frame::decode: (state, kind, type, value, consumed)"""
    k=sk_at(ex,st,v) if at is None else SK(ex,st,*at); L=bv(v.L,64); out=[]
    for s,t in ex.branch(st,simp(k.headed(L))):
        if not t: out.append((s,'err',None,INCOMPLETE,k.cut(ex,s,L))); continue
        L1=simp(L-k.o)
        for s2,ty in split_type(ex,s,k.type()):
            if ty is None: continue
            for s3,n in split_len(ex,s2,k):
                d=D1(k.arr,simp(k.e+k.o)); d.n.val=n.val
                outs,ax=d.outs(ty,L1)
                for a in ax: s3.add(a)
                for s4,kd,x,cn in apply_outcomes(ex,s3,outs):
                    out.append((s4,kd,ty,x,simp(k.o+bv(cn,64)) if kd=='ok' else k.o))
    return out
def c_decode(ex,st,a,n):
    dst,p=a; v=view(ex,st,kind_of(ex.prog.short(n)),p); res=[]
    if v is None: return []
    for s,kd,ty,x,cn in sk_cases(ex,st,v):
        for s2 in consume(ex,s,v,simp(cn)):
            if kd=='err': ex.call1(s2,'vpmk_frame_err',[dst,x])
            else: ex.call1(s2,'vpmk_frame_ok',[dst,mem_frame(ex,s2,ty,x)])
            res.append((s2,None))
    return res
def c_peek(ex,st,a,n):
    v=view(ex,st,kind_of(ex.prog.short(n)),a[0]); res=[]
    if v is None: return []
    k=sk_at(ex,st,v)
    for s,t in ex.branch(st,simp(k.peeked(v.L))):
        res.append((s,ex.call1(s,'vpmk_frame_type_ok',[k.type()]) if t else ex.call1(s,'vpmk_frame_type_err',[INCOMPLETE])))
    return res
for k in ('buffer','buffers'):
    FRAME['frame::decode<%s>(%s&)'%(TNAME[k],TNAME[k])]=c_decode
    FRAME['frame::peek<%s>(%s const&)'%(TNAME[k],TNAME[k])]=c_peek
def c_encode(ex,st,a,n):
    dst,fp=a; res=[]
    for s,ty in split_type(ex,st,ex.call1(st,'vp_frame_type',[fp])):
        if ty is None: ex.violate(s,'precondition','frame::encode of a frame of unknown type'); continue
        fs=[ex.call1(s,'vp_frame_get_'+ty,[fp,i]) for i in range(NF[ty])]
        if ty=='priority': fs=[simp(z3.Extract(7,0,bv(f,64))) if i in(0,1,4) else f for i,f in enumerate(fs)]
        e=FE(s,ty,fs)
        for x,t in ex.branch(s,simp(e.fits)):
            if t:
                o=content_obj(ex,x,simp(e.size),lambda st_,i: e.byte(i))
                p=stackobj(ex,x,40,'encoded'); setg(ex,x,p,GBuf(o.id,0,simp(e.size)))
                ex.call1(x,'vpmk_buffer_ok',[dst,p])
            else: ex.call1(x,'vpmk_buffer_err',[dst,VARINT_OVERFLOW])
            res.append((x,None))
    return res
FRAME['frame::encode(frame const&)']=c_encode
