"""C03: HPACK prefix integers (RFC 7541 section 5.1)."""
from ..seq import *
from .varint import BASE,write_seq,region,frame_post,bufpost,INCOMPLETE
QFAIL=0x200
# ---- specification of decoding, over the bytes at(0),at(1),...
# V(k), O(k): value of the first byte's prefix plus the first k continuation digits / "that value exceeds 2^64-1";
# Ct(k): the first k continuation bytes exist in the encoding, all have the continuation bit and none overflowed.
def pm_of(prefix): return (z3.BitVecVal(1,64)<<z3.ZeroExt(56,bv(prefix,8)))-1 if not isinstance(prefix,int) else bvv((1<<prefix)-1)
class Fold:
    def __init__(s,at,prefix,tag):
        s.at=at; s.pm=pm_of(prefix)
        s.V=uf('piV_'+tag,B64,B64); s.O=uf('piO_'+tag,B64,BOOL); s.Ct=uf('piC_'+tag,B64,BOOL)
        s.first=z3.ZeroExt(56,bv(at(0),8))&s.pm
        s.small=s.first!=s.pm
    def E(s,k): return bv(s.at(simp(bv(k,64)+1)),8)
    def digit(s,k): return z3.ZeroExt(57,z3.Extract(6,0,s.E(k)))
    def cont(s,k): return z3.Extract(7,7,s.E(k))==1
    def zero(s): return [s.V(bvv(0))==s.pm,z3.Not(s.O(bvv(0))),s.Ct(bvv(0))==z3.Not(s.small)]
    def step(s,k):
        """definition of V,O,Ct at k+1.  V+digit*2^(7k) in 64-bit arithmetic; lemma prefix_int.fold shows it is exact"""
        k=bv(k,64); d=s.digit(k); sh=k*7
        big=z3.And(d!=0,z3.Or(z3.UGT(k,9),z3.UGT(d,z3.LShR(bvv(mask(64))-s.V(k),sh))))
        return [s.O(k+1)==z3.Or(s.O(k),big),
                s.V(k+1)==z3.If(d==0,s.V(k),s.V(k)+(d<<sh)),
                s.Ct(k+1)==z3.And(s.Ct(k),s.cont(k),z3.Not(s.O(k+1)))]
def go_fold(ex):
    """the 64-bit step above is the step of the mathematical value (80-bit arithmetic; beyond k=9 any digit exceeds)"""
    st=State()
    V=ex.fresh('V',64); d=ex.fresh('d',64); k=ex.fresh('k',64)
    st.add(z3.ULT(d,128)); st.add(z3.ULE(k,1<<50))
    big=z3.And(d!=0,z3.Or(z3.UGT(k,9),z3.UGT(d,z3.LShR(bvv(mask(64))-V,k*7))))
    w=lambda t: z3.ZeroExt(80,t)
    s1=st.fork(); s1.add(z3.ULE(k,9))
    m=w(V)+(w(d)<<w(k*7))
    ex.oblige(s1,big==z3.UGT(m,z3.BitVecVal(mask(64),144)),'lemma','overflow test is exact for up to ten digits')
    ex.oblige(s1,z3.Implies(z3.Not(big),w(z3.If(d==0,V,V+(d<<(k*7))))==m),'lemma','value step is exact')
    s2=st.fork(); s2.add(z3.UGT(k,9)); s2.add(z3.ULE(k,11))
    ex.oblige(s2,z3.Implies(d!=0,z3.UGT(w(V)+(w(d)<<w(k*7)),z3.BitVecVal(mask(64),144))),'lemma','an eleventh non-zero digit exceeds 64 bits (and later ones more so)')
Unit('prefix_int.fold',('C03',),go_fold)
class PI:
    """what callers may assume: PIL bytes decide the integer at position e; PIF: it overflows; PIV: its value"""
    def __init__(s,arr,e,prefix):
        a=(arr,bv(e,64),bv(prefix,8))
        s.len=uf('PIL',ARR,B64,B8,B64)(*a); s.bad=uf('PIF',ARR,B64,B8,BOOL)(*a); s.val=uf('PIV',ARR,B64,B8,B64)(*a)
        mark_small(s.len)      # defined as at most 2^50: sequences are shorter than that, so a longer integer is cut short either way
        b0=z3.ZeroExt(56,z3.Select(arr,bv(e,64)))&pm_of(prefix)
        s.ax=[z3.UGE(s.len,1),z3.ULE(s.len,1<<50),(b0!=pm_of(prefix))==(s.len==1),z3.Implies(s.len==1,z3.And(z3.Not(s.bad),s.val==b0)),
              z3.Implies(s.len!=1,z3.UGE(s.val,pm_of(prefix)))]
    def outs(s,L):
        L=bv(L,64)
        return [(z3.ULT(L,s.len),'err',INCOMPLETE,0),(z3.And(z3.ULE(s.len,L),s.bad),'err',QFAIL,0),(z3.And(z3.ULE(s.len,L),z3.Not(s.bad)),'ok',s.val,s.len)]
def pi_split(ex,st,arr,e,prefix):
    """list of (state, PI): the value is either a small variable or known to exceed every sequence's length"""
    p=PI(arr,e,prefix)
    kk=('piv',p.val.get_id(),str(p.val))
    if kk not in st.ghost:
        for a in p.ax: st.add(a)
        out=[]
        for s,t in ex.branch(st,z3.ULE(p.val,1<<49)):
            if t:
                w=ex.small(s,'pv',1<<49); s.add(w==p.val); s.ghost[kk]=w
            else: s.ghost[kk]=None
            out+=pi_split(ex,s,arr,e,prefix)
        return out
    w=st.ghost[kk]
    if w is not None: p.val=w
    p.big=w is None
    return [(st,p)]
def pi_at(ex,st,v,prefix):
    k=key(ex,st,v)
    if k is None: raise Unsupported('prefix integer over something that is not one input array')
    return pi_split(ex,st,k[0],k[1],prefix)
PREFIX={}
def h_decode(ex,st,a,n):
    sh=ex.prog.short(n); v=view(ex,st,kind_of(sh),a[0])
    if v is None: return []
    pr=a[1]
    ok=simp(z3.And(z3.UGE(bv(pr,8),1),z3.ULE(bv(pr,8),8)))
    ex.oblige(st,ok,'precondition','prefix_int::decode prefix between 1 and 8')
    if st.dead: return []
    res=[]
    for st,p in pi_at(ex,st,v,pr):
        for s,k,x,cn in apply_outcomes(ex,st,p.outs(v.L)):
            if k=='err': res.append((s,ex.call1(s,'vpmk_u64_err',[x])))
            else:
                for s2 in consume(ex,s,v,simp(cn)): res.append((s2,ex.call1(s2,'vpmk_u64_ok',[simp(x)])))
    return res
for k in KINDS: PREFIX['qpack::prefix_int::decode<%s>(%s&, u8)'%(TNAME[k],TNAME[k])]=h_decode
def mk_decode(kind):
    def go(ex):
        u=ex.unit; st=State()
        p,v=mkseq(ex,st,kind,u)
        pr=ex.fresh('prefix',8); u.inputs['prefix']=pr
        st.add(z3.And(z3.UGE(pr,1),z3.ULE(pr,8)))
        F=Fold(v.at,pr,kind)
        for a in F.zero(): st.add(a)
        def cands(ex,C):
            out=[]
            for kk,nm in ((C.k,'k'),(C.k+1,'k+1')):
                for keyc,kd,var,init,extra in C.info.vars:
                    if var.size()==64 and init is not None: out.append(('value is the fold at '+nm,var==F.V(kk)))
                out.append(('all bytes before %s continue'%nm,F.Ct(kk))); out.append(('no overflow at '+nm,z3.Not(F.O(kk))))
            return out
        u.candidates=cands
        u.loop_axioms=lambda ex,S,C,k: F.step(k)+F.step(k+1)+F.zero()
        def on_loop(ex,S,C): S.ghost['pik']=C.k
        u.on_loop=on_loop
        o=outp(ex,st); what='prefix_int::decode'
        for s,_ in ex.call(st,'vp_prefix_int_decode_'+kind,[p,pr,o]):
            ok=okflag(ex,s,o)
            v1=view(ex,s,kind,p); n=simp(bv(v.L,64)-bv(v1.L,64))
            for x,t in ex.branch(s,ok):
                if t:
                    for y,sm in ex.branch(x,F.small):
                        if sm:
                            ex.oblige(y,simp(bv(out(ex,y,o,0),64)==F.first),'postcondition',what+': one-byte value')
                            after(ex,y,v,1,what)
                        else:
                            k=simp(n-2)
                            for kx in ([y.ghost['pik']] if 'pik' in y.ghost else [])+[k]:
                                for a in F.step(kx): y.add(a)
                            if not ex.oblige(y,simp(z3.And(z3.UGE(n,2),z3.ULE(n,bv(v.L,64)))),'postcondition',what+': bytes consumed are available'): continue
                            if not ex.oblige(y,simp(z3.And(F.Ct(k),z3.Not(F.cont(k)),z3.Not(F.O(k+1)))),'postcondition',what+': consumes exactly up to the last byte of the integer'): continue
                            ex.oblige(y,simp(bv(out(ex,y,o,0),64)==F.V(k+1)),'postcondition',what+': value is the mathematical value')
                            after(ex,y,v,n,what)
                else:
                    err=out(ex,x,o,-1)
                    for y,inc in ex.branch(x,simp(bv(err,64)==INCOMPLETE)):
                        after(ex,y,v,0,what)
                        if inc:
                            L=bv(v.L,64)
                            for kx in ([y.ghost['pik']] if 'pik' in y.ghost else []):
                                for a in F.step(kx): y.add(a)
                            ex.oblige(y,simp(z3.Or(L==0,F.Ct(L-1))),'postcondition',what+': incomplete only when every available byte continues')
                        else:
                            k=y.ghost.get('pik')
                            if not ex.oblige(y,simp(bv(err,64)==QFAIL),'postcondition',what+': overflow is a decompression failure'): continue
                            if k is None: ex.violate(y,'postcondition',what+': error without overflow'); continue
                            for kx in (k,k+1):
                                for a in F.step(kx): y.add(a)
                            ex.oblige(y,simp(z3.Or([z3.And(F.Ct(q),F.O(q+1),z3.ULE(q+2,bv(v.L,64))) for q in (k,k+1)])),'postcondition',what+': refuses only values over 2^64-1')
    nm='qpack::prefix_int::decode<%s>(%s&, u8)'%(TNAME[kind],TNAME[kind])
    Unit('prefix_int.decode.'+kind,('C03','C24'),go,provides=(nm,),contracts=BASE,unroll=3)
for k in KINDS: mk_decode(k)
# ---- encoding
def enc_spec(v,prefix):
    """(size, byte(i,first byte before))"""
    v=bv(v,64); pm=pm_of(prefix); pm8=z3.Extract(7,0,pm)
    small=z3.ULT(v,pm); r=v-pm
    digs=[z3.Extract(6,0,z3.LShR(r,7*k)) for k in range(10)]
    n=bvv(2)
    for k in range(1,10): n=z3.If(z3.LShR(r,7*k)!=0,bvv(k+2),n)
    size=z3.If(small,bvv(1),n)
    def byte(i,old):
        b=z3.If(small,(bv(old,8)&~pm8)|z3.Extract(7,0,v),bv(old,8)|pm8)
        res=z3.BitVecVal(0,8)
        for k in range(9,-1,-1):
            d=z3.ZeroExt(1,digs[k])|z3.If(bvv(k+2)==n,z3.BitVecVal(0,8),z3.BitVecVal(128,8))
            res=z3.If(bv(i,64)==k+1,d,res)
        return z3.If(bv(i,64)==0,b,res)
    return size,byte
def inprefix(ex,st,hi=8):
    pr=ex.fresh('prefix',8); ex.unit.inputs['prefix']=pr
    st.add(z3.And(z3.UGE(pr,1),z3.ULE(pr,hi))); return pr
def h_size(ex,st,a,n): return simp(enc_spec(a[0],a[1])[0])
PREFIX['qpack::prefix_int::encoded_size(u64, u8)']=h_size
def h_encraw(ex,st,a,n):
    d,v,pr=a
    size,byte=enc_spec(v,pr)
    o=ex.deref_n(st,d,simp(size),'prefix_int::encode destination')
    if o is None or st.dead: return []
    old=ex.obyte(st,o,d.off)
    write_seq(ex,st,d,size,lambda i: byte(i,old))
    return simp(size)
PREFIX['qpack::prefix_int::encode(u8*, u64, u8)']=h_encraw
def h_enc(ex,st,a,n):
    dst,v,pr=a
    size,byte=enc_spec(v,pr)
    o=content_obj(ex,st,simp(size),lambda st_,i: byte(i,0))
    setg(ex,st,dst,GBuf(o.id,0,simp(size)))
PREFIX['qpack::prefix_int::encode(u64, u8)']=h_enc
def go_size(ex):
    st=State(); v=ex.fresh('v',64); ex.unit.inputs['v']=v; pr=inprefix(ex,st)
    for s,r in ex.call(st,'vp_prefix_int_encoded_size',[v,pr]):
        ex.oblige(s,simp(bv(r,64)==enc_spec(v,pr)[0]),'postcondition','prefix_int::encoded_size')
Unit('prefix_int.encoded_size',('C03',),go_size,provides=('qpack::prefix_int::encoded_size(u64, u8)',),contracts=BASE)
def go_encraw(ex):
    st=State(); v=ex.fresh('v',64); ex.unit.inputs['v']=v; pr=inprefix(ex,st)
    ob,N,off,p=region(ex,st)
    size,byte=enc_spec(v,pr)
    st.add(z3.ULE(size,simp(N-off)))
    snap=ex.snapshot(st,ob); old=ex.obyte(st,snap,off)
    for s,r in ex.call(st,'vp_prefix_int_encode_raw',[p,v,pr]):
        ex.oblige(s,simp(bv(r,64)==size),'postcondition','prefix_int::encode: bytes written')
        frame_post(ex,s,ob.id,snap,off,size,lambda i: byte(i,old),'prefix_int::encode')
Unit('prefix_int.encode_raw',('C03',),go_encraw,provides=('qpack::prefix_int::encode(u8*, u64, u8)',),contracts=BASE)
def go_enc(ex):
    st=State(); v=ex.fresh('v',64); ex.unit.inputs['v']=v; pr=inprefix(ex,st); b=stackobj(ex,st,40,'result')
    size,byte=enc_spec(v,pr)
    for s,_ in ex.call(st,'vp_prefix_int_encode',[v,pr,b]):
        bufpost(ex,s,b,size,lambda i: byte(i,0),'prefix_int::encode')
Unit('prefix_int.encode',('C03',),go_enc,provides=('qpack::prefix_int::encode(u64, u8)',),contracts=BASE+(PREFIX,))
def go_rt(ex):
    """specification level: decoding the encoding of v gives v and uses exactly its bytes"""
    st=State(); v=ex.fresh('v',64); ex.unit.inputs['v']=v; pr=inprefix(ex,st)
    old=ex.fresh('old',8); size,byte=enc_spec(v,pr)
    pm=pm_of(pr); small=z3.ULT(v,pm)
    s=st.fork(); s.add(small)
    ex.oblige(s,(z3.ZeroExt(56,byte(0,old))&pm)==v,'lemma','one-byte form decodes to v')
    ex.oblige(s,(z3.ZeroExt(56,byte(0,old))&pm)!=pm,'lemma','one-byte form is recognised')
    for k in range(10):
        s=st.fork(); s.add(z3.Not(small)); s.add(size==k+2)
        if not ex.feasible(s): continue
        V=pm; bad=z3.BoolVal(False)
        ex.oblige(s,(z3.ZeroExt(56,byte(0,old))&pm)==pm,'lemma','long form is recognised')
        for j in range(k+1):
            b=byte(j+1,old)
            ex.oblige(s,(z3.Extract(7,7,b)==1)==(j<k),'lemma','continuation bit set on all bytes but the last')
            d=z3.ZeroExt(57,z3.Extract(6,0,b))
            bad=z3.Or(bad,z3.And(d!=0,z3.UGT(d,z3.LShR(bvv(mask(64))-V,7*j))))
            V=V+(d<<(7*j))
        ex.oblige(s,z3.And(V==v,z3.Not(bad)),'lemma','decoding the %d-byte form gives v without overflow'%(k+2))
Unit('prefix_int.roundtrip',('C03',),go_rt)
