"""C06: string literals (RFC 7541 section 5.2 with a variable prefix, RFC 9204 section 4.1.2)."""
from ..seq import *
from .varint import BASE,write_seq,region,frame_post,bufpost,INCOMPLETE
from .prefix import QFAIL,PI,PREFIX,pi_at,pi_split,pm_of,enc_spec
from .huffman import HUFFMAN,HE,HD,he_at,strkey,mkstring,str_result,newstr
# ---- integer encodings as callers see them (facts proved by prefix_int.encoding_facts)
class PE:
    def __init__(s,v,prefix):
        s.v=bv(v,64); s.pr=bv(prefix,8); s.a=(s.v,s.pr)
        s.size=mark_small(uf('PEsize',B64,B8,B64)(*s.a))
        s.ax=[z3.UGE(s.size,1),z3.ULE(s.size,11),(s.size==1)==z3.ULT(s.v,pm_of(prefix))]
    def byte(s,i,old): return uf('PEbyte',B64,B8,B64,B8,B8)(*s.a,bv(i,64),bv(old,8))
def go_pefacts(ex):
    st=State(); v=ex.fresh('v',64); pr=ex.fresh('prefix',8); ex.unit.inputs['v']=v; ex.unit.inputs['prefix']=pr
    st.add(z3.And(z3.UGE(pr,1),z3.ULE(pr,8)))
    size,byte=enc_spec(v,pr)
    ex.oblige(st,z3.And(z3.UGE(size,1),z3.ULE(size,11),(size==1)==z3.ULT(v,pm_of(pr))),'lemma','size of integer encodings')
Unit('prefix_int.encoding_facts',('C03','C06'),go_pefacts)
def pe(ex,st,v,pr):
    ex.used.add('$prefix encoding facts')
    p=PE(v,pr)
    for a in p.ax: st.add(a)
    return p
PREFIX_ABS=dict(PREFIX)
def h_size(ex,st,a,n):
    pre(ex,st,a[1]); return pe(ex,st,a[0],a[1]).size
def pre(ex,st,pr):
    ex.oblige(st,simp(z3.And(z3.UGE(bv(pr,8),1),z3.ULE(bv(pr,8),8))),'precondition','prefix between 1 and 8')
def h_encraw(ex,st,a,n):
    d,v,pr=a
    pre(ex,st,pr); p=pe(ex,st,v,pr)
    o=ex.deref_n(st,d,p.size,'prefix_int::encode destination')
    if o is None or st.dead: return []
    old=ex.obyte(st,o,d.off)
    write_seq(ex,st,d,p.size,lambda i: p.byte(i,old))
    return p.size
PREFIX_ABS['qpack::prefix_int::encoded_size(u64, u8)']=h_size
PREFIX_ABS['qpack::prefix_int::encode(u8*, u64, u8)']=h_encraw
# ---- specification
class LE:
    """encoding of the string of n bytes at (arr,pos) / at(i)"""
    def __init__(s,ex,st,arr,pos,n,prefix):
        s.h=HE(arr,pos,n)
        for a in s.h.ax: st.add(a)
        s.n=bv(n,64); s.pr=bv(prefix,8); s.arr=arr; s.pos=pos
        s.huff=z3.ULT(s.h.size,s.n); s.m=z3.If(s.huff,s.h.size,s.n)
        s.pe=pe(ex,st,s.m,prefix); s.size=s.pe.size+s.m
    def byte(s,i,old):
        i=bv(i,64); j=i-s.pe.size
        o=bv(old,8)|z3.If(s.huff,z3.BitVecVal(1,8)<<s.pr,z3.BitVecVal(0,8))
        return z3.If(z3.ULT(i,s.pe.size),s.pe.byte(i,o),z3.If(s.huff,s.h.byte(j),z3.Select(s.arr,bv(s.pos,64)+j)))
class LD:
    """decoding at (arr,e)"""
    def __init__(s,ex,st,pi,arr,e,prefix):
        e=bv(e,64); s.pi=pi; s.b0=z3.Select(arr,e)
        s.huff=simp(z3.Extract(0,0,z3.LShR(s.b0,bv(prefix,8)))==1) 
        s.p2=simp(e+s.pi.len); s.hd=HD(arr,s.p2,s.pi.val); s.arr=arr
        for a in s.hd.ax: st.add(a)
        s.len=z3.If(bl(s.huff),s.hd.len,s.pi.val)
    def byte(s,j): return z3.If(bl(s.huff),s.hd.byte(j),z3.Select(s.arr,s.p2+bv(j,64)))
    def outs(s,L):
        L=bv(L,64); h=bl(s.huff)
        short=z3.Or(L==0,z3.ULT(L,s.pi.len)); bad=z3.And(z3.Not(short),s.pi.bad); fine=z3.And(z3.Not(short),z3.Not(s.pi.bad))
        cut=z3.UGT(s.pi.val,L-s.pi.len)
        hb=z3.And(h,s.hd.bad)
        return [(z3.Or(short,z3.And(fine,cut)),'err',INCOMPLETE,0),(z3.Or(bad,z3.And(fine,z3.Not(cut),hb)),'err',QFAIL,0),(z3.And(fine,z3.Not(cut),z3.Not(hb)),'ok',s.len,s.pi.len+s.pi.val)]
LITERAL={}
def ld_at(ex,st,v,prefix):
    k=key(ex,st,v)
    if k is None: raise Unsupported('literal over something that is not one input array')
    return [(s,LD(ex,s,p,k[0],k[1],prefix)) for s,p in pi_split(ex,st,k[0],k[1],prefix)]
def pre7(ex,st,pr): ex.oblige(st,simp(z3.And(z3.UGE(bv(pr,8),1),z3.ULE(bv(pr,8),7))),'precondition','literal prefix between 1 and 7')
def h_decode(ex,st,a,n):
    dst,p,pr=a; v=view(ex,st,kind_of(ex.prog.short(n)),p)
    if v is None: return []
    pre7(ex,st,pr)
    res=[]
    for st,d in ld_at(ex,st,v,pr):
        for s,kd,x,cn in apply_outcomes(ex,st,d.outs(v.L)):
            if kd=='err': ex.call1(s,'vpmk_string_err',[dst,x]); res.append((s,None))
            else:
                for s2 in consume(ex,s,v,simp(cn)):
                    str_result(ex,s2,dst,d.len,d.byte); res.append((s2,None))
    return res
for k in KINDS: LITERAL['qpack::literal::decode<%s>(%s&, u8)'%(TNAME[k],TNAME[k])]=h_decode
def le_at(ex,st,p,n,pr):
    k=strkey(ex,st,p,n)
    if k is None: return None
    pre7(ex,st,pr)
    return LE(ex,st,k[0],k[1],n,pr)
def h_esize(ex,st,a,n):
    l=le_at(ex,st,a[0],a[1],a[2])
    return 0 if l is None else simp(l.size)
LITERAL['qpack::literal::encoded_size(string_view, u8)']=h_esize
def h_encode_raw(ex,st,a,n):
    d,p,ln,pr=a
    l=le_at(ex,st,p,ln,pr)
    if l is None: return 0
    o=ex.deref_n(st,d,simp(l.size),'literal::encode destination')
    if o is None or st.dead: return []
    old=ex.obyte(st,o,d.off)
    write_seq(ex,st,d,simp(l.size),lambda i: l.byte(i,old))
    return simp(l.size)
LITERAL['qpack::literal::encode(u8*, string_view, u8)']=h_encode_raw
# ---- units
DEPS=BASE+(PREFIX_ABS,HUFFMAN)
def inp(ex,st):
    pr=ex.fresh('prefix',8); ex.unit.inputs['prefix']=pr; st.add(z3.And(z3.UGE(pr,1),z3.ULE(pr,7))); return pr
def lenc(ex,st):
    p,n,at=mkstring(ex,st); pr=inp(ex,st); k=strkey(ex,st,p,n)
    return p,n,pr,LE(ex,st,k[0],k[1],n,pr)
def go_size(ex):
    st=State(); p,n,pr,l=lenc(ex,st)
    for s,r in ex.call(st,'vp_literal_encoded_size',[p,n,pr]):
        ex.oblige(s,simp(bv(r,64)==l.size),'postcondition','literal::encoded_size')
Unit('literal.encoded_size',('C06',),go_size,provides=('qpack::literal::encoded_size(string_view, u8)',),contracts=DEPS)
def go_encraw(ex):
    st=State(); p,n,pr,l=lenc(ex,st)
    ob,N,off,d=region(ex,st); st.add(z3.ULE(l.size,simp(N-off)))
    snap=ex.snapshot(st,ob); old=ex.obyte(st,snap,off)
    for s,r in ex.call(st,'vp_literal_encode_raw',[d,p,n,pr]):
        ex.oblige(s,simp(bv(r,64)==l.size),'postcondition','literal::encode: bytes written')
        frame_post(ex,s,ob.id,snap,off,simp(l.size),lambda i: l.byte(i,old),'literal::encode')
Unit('literal.encode_raw',('C06','C24'),go_encraw,provides=('qpack::literal::encode(u8*, string_view, u8)',),contracts=DEPS,unroll=3)
def go_enc(ex):
    st=State(); p,n,pr,l=lenc(ex,st); b=stackobj(ex,st,40,'result')
    for s,_ in ex.call(st,'vp_literal_encode',[p,n,pr,b]):
        bufpost(ex,s,b,simp(l.size),lambda i: l.byte(i,0),'literal::encode')
Unit('literal.encode',('C06','C24'),go_enc,provides=('qpack::literal::encode(string_view, u8)',),contracts=DEPS+(LITERAL,),unroll=3)
def mk_decode(kind):
    def go(ex):
        u=ex.unit; st=State(); p,v=mkseq(ex,st,kind,u); pr=inp(ex,st)
        for st,d in ld_at(ex,st,v,pr): run(ex,st,p,v,pr,d)
    def run(ex,st,p,v,pr,d):
        o=outp(ex,st); sp=stackobj(ex,st,32,'result'); what='literal::decode'
        def val(s,x):
            g=getg(ex,s,sp,GStr,what)
            j=ex.fresh('j',64); s2=s.fork(); s2.add(z3.ULT(j,bv(g.ln,64))); s2.add(z3.ULT(j,x))
            ex.oblige(s2,simp(bv(g.at(ex,s2,j),8)==d.byte(j)),'postcondition',what+': decoded characters')
            return [('decoded length',g.ln,x)]
        for s,_ in ex.call(st,'vp_literal_decode_'+kind,[p,pr,sp,o]):
            outcomes_post(ex,s,d.outs(v.L),okflag(ex,s,o),out(ex,s,o,-1),val,v,what)
    nm='qpack::literal::decode<%s>(%s&, u8)'%(TNAME[kind],TNAME[kind])
    Unit('literal.decode.'+kind,('C06','C24'),go,provides=(nm,),contracts=DEPS,unroll=3)
for k in KINDS: mk_decode(k)
# ---- literals as callers see them (facts proved by literal.facts)
class LEA:
    def __init__(s,ex,st,arr,pos,n,prefix):
        ex.used.add('$literal encoding facts')
        s.a=(arr,bv(pos,64),bv(n,64),bv(prefix,8))
        s.size=mark_small(uf('LESsize',ARR,B64,B64,B8,B64)(*s.a))
        st.add(z3.UGE(s.size,1)); st.add(z3.ULE(s.size,bv(n,64)+11))
    def byte(s,i,old): return uf('LESbyte',ARR,B64,B64,B8,B64,B8,B8)(*s.a,bv(i,64),bv(old,8))
class LDA:
    """need: the outcome is decided once that many bytes are there; then it is bad or a string of len characters"""
    def __init__(s,ex,st,arr,e,prefix):
        ex.used.add('$literal decoding facts')
        a=(arr,bv(e,64),bv(prefix,8)); s.a=a
        s.need=mark_small(uf('LDneed',ARR,B64,B8,B64)(*a)); s.bad=uf('LDbad',ARR,B64,B8,BOOL)(*a)
        s.len=mark_small(uf('LDlen',ARR,B64,B8,B64)(*a))
        st.add(z3.UGE(s.need,1)); st.add(z3.ULE(s.need,1<<51)); st.add(z3.ULE(s.len,1<<51))
    def byte(s,j): return uf('LDbyte',ARR,B64,B8,B64,B8)(*s.a,bv(j,64))
    def outs(s,L):
        L=bv(L,64); return [(z3.ULT(L,s.need),'err',INCOMPLETE,0),(z3.And(z3.ULE(s.need,L),s.bad),'err',QFAIL,0),(z3.And(z3.ULE(s.need,L),z3.Not(s.bad)),'ok',s.len,s.need)]
def go_facts(ex):
    st=State(); arr=ex.fresharr('a'); pos=ex.small(st,'pos'); n=ex.small(st,'n'); pr=ex.fresh('prefix',8); st.add(z3.And(z3.UGE(pr,1),z3.ULE(pr,7)))
    l=LE(ex,st,arr,pos,n,pr)
    ex.oblige(st,z3.And(z3.UGE(l.size,1),z3.ULE(l.size,n+11)),'lemma','size of literal encodings')
    st=State(); st.add(z3.And(z3.UGE(pr,1),z3.ULE(pr,7))); e=ex.small(st,'e'); L=ex.small(st,'L')
    for s,p in pi_split(ex,st,arr,e,pr):
        d=LD(ex,s,p,arr,e,pr)
        # definition of LDneed, LDbad, LDlen
        need=z3.If(p.bad,p.len,p.len+z3.If(z3.ULE(p.val,1<<49),p.val,bvv(1<<50))); bad=z3.Or(p.bad,z3.And(bl(d.huff),d.hd.bad))
        ln=z3.If(z3.And(z3.ULE(p.val,1<<49),z3.Not(bad)),d.len,bvv(0))
        ex.oblige(s,z3.And(z3.UGE(need,1),z3.ULE(need,1<<51),z3.ULE(ln,1<<51)),'lemma','bounds of literal decodings')
        a=LDA.__new__(LDA); a.need=need; a.bad=bad; a.len=ln
        for (c1,k1,x1,n1),(c2,k2,x2,n2) in zip(d.outs(L),a.outs(L)):
            ex.oblige(s,simp(c1==c2),'lemma','the outcome is decided at a fixed length')
            t=s.fork(); t.add(c1)
            if not ex.feasible(t): continue
            ex.oblige(t,simp(z3.And(bv(n1,64)==bv(n2,64),bv(x1,64)==bv(x2,64))),'lemma','and is the same from there on')
Unit('literal.facts',('C06','C08','C09'),go_facts)
LITERAL_ABS={}
def a_decode(ex,st,a,n):
    dst,p,pr=a; v=view(ex,st,kind_of(ex.prog.short(n)),p)
    if v is None: return []
    pre7(ex,st,pr); k=key(ex,st,v)
    if k is None: raise Unsupported('literal over something that is not one input array')
    d=LDA(ex,st,k[0],k[1],pr); res=[]
    for s,kd,x,cn in apply_outcomes(ex,st,d.outs(v.L)):
        if kd=='err': ex.call1(s,'vpmk_string_err',[dst,x]); res.append((s,None))
        else:
            for s2 in consume(ex,s,v,simp(cn)):
                str_result(ex,s2,dst,d.len,d.byte); res.append((s2,None))
    return res
for k in KINDS: LITERAL_ABS['qpack::literal::decode<%s>(%s&, u8)'%(TNAME[k],TNAME[k])]=a_decode
def lea_at(ex,st,p,n,pr):
    k=strkey(ex,st,p,n)
    if k is None: return None
    pre7(ex,st,pr)
    return LEA(ex,st,k[0],k[1],n,pr)
def a_esize(ex,st,a,n):
    l=lea_at(ex,st,a[0],a[1],a[2])
    return 0 if l is None else simp(l.size)
LITERAL_ABS['qpack::literal::encoded_size(string_view, u8)']=a_esize
def a_encode_raw(ex,st,a,n):
    d,p,ln,pr=a
    l=lea_at(ex,st,p,ln,pr)
    if l is None: return 0
    o=ex.deref_n(st,d,l.size,'literal::encode destination')
    if o is None or st.dead: return []
    old=ex.obyte(st,o,d.off)
    write_seq(ex,st,d,l.size,lambda i: l.byte(i,old))
    return l.size
LITERAL_ABS['qpack::literal::encode(u8*, string_view, u8)']=a_encode_raw
