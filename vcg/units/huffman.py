"""C04 / C05: Huffman coding (RFC 7541 section 5.2 and appendix B).

The code tables are compared entry by entry with spec/huffman_table.py (unit huffman.tables); the functions that read
them are verified for *any* table content T that satisfies the facts checked there, so every string is covered."""
from ..seq import *
from .varint import BASE,write_seq,region,frame_post,bufpost,INCOMPLETE
from .prefix import QFAIL
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..'))
from spec.huffman_table import CODES
# ---- the decoding automaton of the standard, over nibbles
def tree():
    """nodes 0.. (0 the root): node -> [child0, child1]; a child is ('n',node) or ('s',symbol)"""
    N=[[None,None]]
    for sym,(code,ln) in enumerate(CODES):
        cur=0
        for b in range(ln-1,-1,-1):
            bit=(code>>b)&1
            if b==0: assert N[cur][bit] is None; N[cur][bit]=('s',sym)
            else:
                if N[cur][bit] is None: N.append([None,None]); N[cur][bit]=('n',len(N)-1)
                assert N[cur][bit][0]=='n'; cur=N[cur][bit][1]
    assert all(x is not None for n in N for x in n)   # the code is complete
    return N
TREE=tree()
def pads():
    """nodes reached from the root by fewer than eight one bits (valid ends)"""
    r=[0]; cur=0
    for _ in range(7):
        k,x=TREE[cur][1]
        if k!='n': break
        cur=x; r.append(cur)
    return set(r)
PADS=pads()
def nibble(node,nib):
    """(failed, emitted symbol or None, next node)"""
    em=None
    for b in (3,2,1,0):
        k,x=TREE[node][(nib>>b)&1]
        if k=='n': node=x
        else:
            if x==256: return True,None,None
            assert em is None       # the shortest code has five bits
            em=x; node=0
    return False,em,node
def tname(o): return o.name if isinstance(o.name,str) else ''
def is_dec(o): return 'huffman' in tname(o) and 'decoding' in tname(o) and 'table' in tname(o)
def is_enc(o): return 'huffman' in tname(o) and 'encoding' in tname(o) and 'table' in tname(o)
TD=uf('huffman_decode_table',B64,B8)             # byte at an offset of the decoding table (3 bytes per entry, 16 entries per state)
TC=uf('huffman_code',B64,z3.BitVecSort(32)); TL=uf('huffman_bits',B64,B64)
def TDe(state,nib,f): return TD(z3.ZeroExt(56,bv(state,8))*48+z3.ZeroExt(56,bv(nib,8))*3+f)
def hook(ex,st,o,off,n):
    if is_dec(o) and n==1: return TD(off)
    if is_enc(o) and n in(4,8):
        want=0 if n==4 else 8
        b=simp(z3.LShR(off,4)); t=simp(off-want)
        if z3.is_expr(t) and t.decl().kind()==z3.Z3_OP_BMUL and t.num_args()==2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long()==16: b=t.arg(1)
        if ex.prove(st,z3.And(off==(bv(b,64)<<4)+want,z3.ULE(bv(b,64),256))) is not True: raise Unsupported('unaligned access to the Huffman table')
        enc_facts(st.add,b)
        return TC(bv(b,64)) if n==4 else TL(bv(b,64))
    return None
def enc_facts(add,b):
    """established for every entry by huffman.tables"""
    b=bv(b,64); l=TL(b); c=TC(b)
    add(z3.And(z3.UGE(l,5),z3.ULE(l,30),z3.LShR(z3.ZeroExt(32,c),l)==0))
def find_table(ex,pred):
    for nm in ex.prog.globals:
        if 'huffman' in nm and 'table' in nm:
            p=ex.global_ptr(None,nm); o=ex.gobj[p.obj]
            if pred(o) and o.data is not None: return o
    raise Unsupported('Huffman table not found')
def go_tables(ex):
    st=State()
    o=find_table(ex,is_enc)
    ex.oblige(st,int(len(o.data)>=257*16),'table','encoding table has 257 entries')
    for s,(code,ln) in enumerate(CODES):
        c=int.from_bytes(o.data[16*s:16*s+4],'little'); l=int.from_bytes(o.data[16*s+8:16*s+16],'little')
        ex.unit.inputs['entry']=lambda m,s=s,c=c,l=l: dict(symbol=s,code=hex(c),bits=l)
        ex.oblige(st.fork(),int((c,l)==(code,ln)),'table','code of symbol %d is the standard one'%s)
    ex.oblige(st,int(all(5<=l<=30 and c>>l==0 for c,l in CODES) and CODES[256]==((1<<30)-1,30)),'lemma','codes have 5 to 30 bits and EOS is 30 one bits')
    # decoding: an isomorphism between the reachable states of the table and the nodes of the code tree
    d=find_table(ex,is_dec).data
    m={0:0}; todo=[0]
    def ent(s,n): return d[48*s+3*n:48*s+3*n+3]
    n=0
    while todo:
        s=todo.pop()
        for nib in range(16):
            if 48*s+3*nib+3>len(d): ex.violate(st.fork(),'table','decoding table has a row for state %d'%s); continue
            ns,fl,sy=ent(s,nib)
            bad,em,nx=nibble(m[s],nib)
            ex.unit.inputs['entry']=lambda mm,s=s,nib=nib,e=(ns,fl,sy): dict(state=s,nibble=nib,entry=e)
            want='decoding table entry [%d][%d]'%(s,nib)
            if not ex.oblige(st.fork(),int(bool(fl&4)==bad),'table',want+' fails exactly for end-of-string'): continue
            if bad: continue
            if ns not in m: m[ns]=nx; todo.append(ns)
            ok=m[ns]==nx and bool(fl&2)==(em is not None) and (em is None or sy==em) and bool(fl&1)==(nx in PADS)
            ex.oblige(st.fork(),int(ok),'table',want+' is the standard step'); n+=1
    ex.oblige(st,int(len(m)<=256),'table','states fit a byte')
    # after a failing entry decoding stops, so the successors of failing entries do not matter
Unit('huffman.tables',('C04','C05'),go_tables,provides=('$huffman tables',))
def go_codes(ex):
    """every code leads from the root to its symbol and back to the root; up to seven one bits are acceptable padding; no
    code is a prefix of another (so the bit strings of two different symbol sequences differ)"""
    st=State()
    for s,(code,ln) in enumerate(CODES):
        node=0; em=[]
        for b in range(ln-1,-1,-1):
            k,x=TREE[node][(code>>b)&1]
            if k=='n': node=x
            else: em.append((b,x)); node=0
        ex.oblige(st.fork(),int(em==[(0,s)] and node==0),'lemma','walking the code of symbol %d emits exactly it, at its end'%s)
        ex.oblige(st.fork(),int(all(not(l2>ln and c2>>(l2-ln)==code) for c2,l2 in CODES)),'lemma','code %d is no prefix of another code'%s)
    node=0
    for i in range(8):
        ex.oblige(st.fork(),int((node in PADS)==(i<8)),'lemma','%d one bits of padding are acceptable'%i)
        k,node=TREE[node][1]
        if k!='n': ex.violate(st.fork(),'lemma','padding runs into a symbol')
    ex.oblige(st.fork(),int(node not in PADS),'lemma','eight one bits are not acceptable padding')
    ex.oblige(st.fork(),int(len(PADS)==8),'lemma','nothing but zero to seven one bits is acceptable')
Unit('huffman.codes',('C04','C05'),go_codes)
# ---- encoding
class Enc:
    """8*P(k)+R(k): bits of the first k codes.  B(j): byte j of the encoding"""
    def __init__(s,at,n,tag):
        s.at=at; s.n=bv(n,64); s.P0=uf('heP_'+tag,B64,B64); s.R=uf('heR_'+tag,B64,z3.BitVecSort(3)); s.B=uf('heB_'+tag,B64,B8)
    def P(s,k):
        t=s.P0(simp(bv(k,64)) if not isinstance(simp(bv(k,64)),int) else bvv(simp(bv(k,64)))); mark_small(t); return t   # at most 4 bytes per character: lemma huffman.mono
    def r64(s,k): return z3.ZeroExt(61,s.R(bv(k,64)))
    def idx(s,k): return z3.ZeroExt(56,bv(s.at(simp(k)),8))
    def zero(s): return [s.P(bvv(0))==0,s.R(bvv(0))==0]
    def step(s,k):
        k=bv(k,64); i=s.idx(k); out=[]
        enc_facts(out.append,i)
        t=z3.ZeroExt(3,s.R(k))+z3.Extract(5,0,TL(i))
        return out+[s.P(k+1)==s.P(k)+z3.ZeroExt(61,z3.Extract(5,3,t)),s.R(simp(k+1))==z3.Extract(2,0,t)]
    def mono(s,k):
        """lemma huffman.mono"""
        k=bv(k,64)
        le=lambda a,b: z3.Or(z3.ULT(s.P(a),s.P(b)),z3.And(s.P(a)==s.P(b),z3.ULE(s.R(a),s.R(b))))
        return [z3.Implies(z3.ULE(k,s.n),z3.And(le(k,s.n),z3.ULE(s.P(k),4*k))),z3.ULE(s.P(s.n),4*s.n)]
    def code(s,k):
        """the bits [8P+R(k),8P+R(k+1)) of the encoding are the code of character k"""
        k=bv(k,64); i=s.idx(k); l=z3.Extract(39,0,TL(i))
        win=z3.Concat(*[s.B(simp(s.P(k)+j)) for j in range(5)])
        sh=z3.BitVecVal(40,40)-z3.ZeroExt(37,s.R(k))-l
        return [(z3.LShR(win,sh)&((z3.BitVecVal(1,40)<<l)-1))==z3.ZeroExt(8,TC(i))]
    def pad(s):
        r=s.R(s.n); m=z3.LShR(z3.BitVecVal(255,8),z3.ZeroExt(5,r))
        return [z3.Implies(r!=0,(s.B(s.P(s.n))&m)==m)]
    def size(s): return s.P(s.n)+z3.If(s.R(s.n)!=0,bvv(1),bvv(0))
    def bits(s,k): return s.P(k)*8+s.r64(k)
    def fit(s,k,cap):
        """lemma huffman.fit: the bytes the code of character k touches lie within a destination that holds the encoding"""
        k=bv(k,64); q=touched(s.R(k),TL(s.idx(k)))
        return [z3.Implies(z3.And(z3.ULT(k,s.n),z3.UGE(q,c)),z3.ULE(s.P(k)+c,cap)) for c in range(1,6)]
def touched(R,l): return z3.LShR(z3.ZeroExt(3,R)+z3.Extract(5,0,l)+7,3)
def go_fit(ex):
    st=State(); P=ex.fresh('P',64); R=ex.fresh('R',3); l=ex.fresh('l',64); PN=ex.fresh('PN',64); RN=ex.fresh('RN',3); cap=ex.fresh('cap',64)
    for v in (P,PN,cap): st.add(z3.ULE(v,1<<52))
    st.add(z3.And(z3.UGE(l,5),z3.ULE(l,30)))
    t=z3.ZeroExt(3,R)+z3.Extract(5,0,l); P2=P+z3.ZeroExt(61,z3.Extract(5,3,t)); R2=z3.Extract(2,0,t)
    st.add(z3.Or(z3.ULT(P2,PN),z3.And(P2==PN,z3.ULE(R2,RN)))); st.add(z3.ULE(PN+z3.If(RN!=0,bvv(1),bvv(0)),cap))
    q=touched(R,l)
    for c in range(1,6): ex.oblige(st,z3.Implies(z3.UGE(q,c),z3.ULE(P+c,cap)),'lemma','touched byte %d lies within the encoding'%c)
    ex.oblige(st,z3.ULE(q,5),'lemma','a code touches at most five bytes')
def go_mono8(ex):
    """8P+R is the sum of the code lengths"""
    st=State(); P=ex.fresh('P',64); R=ex.fresh('R',3); l=ex.fresh('l',64); st.add(z3.ULE(P,1<<52)); st.add(z3.ULE(l,30)); st.add(z3.UGE(l,5))
    t=z3.ZeroExt(3,R)+z3.Extract(5,0,l); P2=P+z3.ZeroExt(61,z3.Extract(5,3,t)); R2=z3.Extract(2,0,t)
    ex.oblige(st,P2*8+z3.ZeroExt(61,R2)==P*8+z3.ZeroExt(61,R)+l,'lemma','bytes and left-over bits count the bits')
    ex.oblige(st,z3.And(z3.ULE(P,P2),z3.ULE(P2,P+4),z3.Implies(P==P2,z3.UGT(R2,R))),'lemma','positions grow by at most four bytes')
Unit('huffman.fit',('C04',),go_fit)
Unit('huffman.bits',('C04',),go_mono8)
def go_mono(ex):
    """induction steps of the monotonicity lemmas (sums of per-character amounts, at most 30 bits / 2 symbols each)"""
    st=State(); k=ex.fresh('k',64); Sk=ex.fresh('S',64); Sj=ex.fresh('Sj',64); l=ex.fresh('l',64)
    for lim in (30,2):
        s=st.fork(); s.add(z3.ULE(k,1<<50)); s.add(z3.ULE(Sk,lim*k)); s.add(z3.ULE(l,lim)); s.add(z3.ULE(Sj,Sk))
        ex.oblige(s,z3.And(z3.ULE(Sk+l,lim*(k+1)),z3.ULE(Sj,Sk+l)),'lemma','a sum of at most %d per step grows and stays below %d per step'%(lim,lim))
Unit('huffman.mono',('C04','C05'),go_mono)
class HE:
    """what callers may assume about the encoding of the n bytes at arr[pos..]"""
    def __init__(s,arr,pos,n):
        s.n=bv(n,64); s.a=(arr,bv(pos,64),s.n)
        s.size=mark_small(uf('HEsize',ARR,B64,B64,B64)(*s.a))      # strings are below 2^47 bytes
        s.ax=[z3.ULE(s.size,4*s.n),(s.size==0)==(s.n==0)]
    def byte(s,j): return uf('HEbyte',ARR,B64,B64,B64,B8)(*s.a,bv(j,64))
def strkey(ex,st,p,n):
    """(array,pos) of the string at p, n bytes; the empty string has an arbitrary key"""
    if isinstance(p,int):
        ex.oblige(st,simp(bv(n,64)==0),'precondition','null string has no bytes')
        return z3.Const('noarr',ARR),bvv(0)
    o=ex.deref_n(st,p,simp(n),'string contents')
    if o is None: return None
    x=z3.BitVec('key!x',64)
    if isinstance(n,int) and n==0: return z3.Const('noarr',ARR),bvv(0)
    snap=ex.snapshot(st,o)
    t=ex.obyte(st,snap,simp(bv(p.off,64)+x))
    if z3.is_expr(t) and z3.is_select(t) and t.arg(0).decl().kind()==z3.Z3_OP_UNINTERPRETED: return t.arg(0),simp(t.arg(1)-x)
    # anything else: name the content by a fresh array that agrees with it pointwise where asked
    raise Unsupported('string that is not one input array')
HUFFMAN={}
def he_at(ex,st,p,n):
    k=strkey(ex,st,p,n)
    if k is None: return None
    h=HE(k[0],k[1],n)
    for a in h.ax: st.add(a)
    return h
def h_esize(ex,st,a,n):
    h=he_at(ex,st,a[0],a[1])
    return 0 if h is None else h.size
HUFFMAN['qpack::huffman::encoded_size(string_view)']=h_esize
def h_enc(ex,st,a,n):
    h=he_at(ex,st,a[1],a[2])
    if h is None: return 0
    if isinstance(a[0],int):
        ex.oblige(st,h.size==0,'precondition','huffman::encode destination'); return h.size
    write_seq(ex,st,a[0],h.size,h.byte)
    return h.size
HUFFMAN['qpack::huffman::encode(u8*, string_view)']=h_enc
def h_encb(ex,st,a,n):
    h=he_at(ex,st,a[1],a[2])
    if h is None: return None
    o=content_obj(ex,st,h.size,lambda st_,i: h.byte(i))
    setg(ex,st,a[0],GBuf(o.id,0,h.size))
HUFFMAN['qpack::huffman::encode(string_view)']=h_encb
def mkstring(ex,st,name='s'):
    n=ex.small(st,'n'); o=ex.newbytes(st,n,'input',name)
    off=0
    at=lambda i,o=o: ex.obyte(None,o,i)
    ex.unit.inputs['string']=model_bytes(n,at); ex.unit.inputs['stringlen']=n
    return Ptr(o.id,0),n,at
def enc_unit(ex,st,tag,B=False):
    p,n,at=mkstring(ex,st)
    E=Enc(at,n,tag); u=ex.unit
    for a in E.zero()+E.mono(n)+E.pad(): st.add(a)
    ex.table_hook=hook
    def cands(ex,C):
        out=[]
        for keyc,kd,var,init,extra in C.info.vars:
            if var.size()!=64 or init is None: continue
            for nm,d in (('bits so far',init+E.bits(C.k)),('bytes so far',init+E.P(C.k)),('free bits',8-E.r64(C.k)),('used bits',E.r64(C.k))): out.append((nm,var==d,(var,d)))
        out.append(('count within the string',z3.ULE(C.k,E.n)))
        return out
    u.candidates=cands
    u.loop_axioms=lambda ex,S,C,k: E.step(k)+E.mono(k)+E.mono(simp(bv(k,64)+1))+(E.code(k) if B else [])
    return p,n,E
def go_esize(ex):
    st=State(); p,n,E=enc_unit(ex,st,'size')
    for s,r in ex.call(st,'vp_huffman_encoded_size',[p,n]):
        ex.oblige(s,simp(bv(r,64)==E.size()),'postcondition','huffman::encoded_size: bytes of the codes and the padding')
TABLES='$huffman tables'
def with_tables(go):
    def f(ex): ex.used.add(TABLES); return go(ex)
    return f
def go_esize_facts(ex):
    """the facts callers get about sizes"""
    st=State(); n=ex.small(st,'n'); S=ex.fresh('S',64); st.add(z3.ULE(S,30*n)); st.add(z3.UGE(S,5*n))
    sz=z3.LShR(S+7,3)
    ex.oblige(st,z3.And(z3.ULE(sz,4*n),(sz==0)==(n==0)),'lemma','between 5 and 30 bits per character')
Unit('huffman.size_facts',('C04','C06'),go_esize_facts)
Unit('huffman.encoded_size',('C04','C24'),with_tables(go_esize),provides=('qpack::huffman::encoded_size(string_view)',),contracts=(),unroll=3)
def go_encraw(ex):
    st=State(); p,n,E=enc_unit(ex,st,'enc',True)
    ob,N,off,d=region(ex,st)
    cap=simp(N-off); st.add(z3.ULE(E.size(),cap))
    u=ex.unit; la=u.loop_axioms
    u.loop_axioms=lambda ex,S,C,k: la(ex,S,C,k)+E.fit(k,cap)
    snap=ex.snapshot(st,ob)
    from .. import loops
    def part(b,k): return b&~z3.LShR(z3.BitVecVal(255,8),z3.ZeroExt(5,E.R(bv(k,64))))
    def blob(ex,C,oid):
        if oid!=ob.id: return None
        def extra(st_,i,env,k,r,cur):
            return z3.If(z3.And(i==cur,E.R(bv(k,64))!=0),part(E.B(simp(cur-bv(off,64))),k),r)
        cases=lambda: [simp(off+E.P(C.k)+d) for d in range(6)]
        return loops.SeqStore('codes so far',oid,bv(off,64),bv(off,64)+E.P(C.k),lambda st_,rel: E.B(rel),C,extra,cases,
            splits=lambda: [(E.R(C.k),list(range(8))),(TL(simp(E.idx(C.k))),list(range(5,31)))])
    u.blob_candidates=blob
    for s,r in ex.call(st,'vp_huffman_encode_raw',[d,p,n]):
        ex.oblige(s,simp(bv(r,64)==E.size()),'postcondition','huffman::encode: bytes written')
        frame_post(ex,s,ob.id,snap,off,E.size(),lambda i: E.B(i),'huffman::encode')
Unit('huffman.encode_raw',('C04','C24'),with_tables(go_encraw),provides=('qpack::huffman::encode(u8*, string_view)',),contracts=(),unroll=6,time_limit=800)
def go_encbuf(ex):
    st=State(); p,n,at=mkstring(ex,st); b=stackobj(ex,st,40,'result')
    h=he_at(ex,st,p,n)
    for s,_ in ex.call(st,'vp_huffman_encode',[p,n,b]):
        bufpost(ex,s,b,h.size,h.byte,'huffman::encode')
Unit('huffman.encode',('C04','C24'),go_encbuf,provides=('qpack::huffman::encode(string_view)',),contracts=BASE+(HUFFMAN,))
# ---- decoding
class Dec:
    """St(k): state after k bytes, F(k): some nibble of them failed, D(k): symbols emitted, A(k): acceptable end, Y(j): symbol j"""
    def __init__(s,at,n,tag):
        s.at=at; s.n=bv(n,64)
        s.St=uf('hdSt_'+tag,B64,B8); s.F=uf('hdF_'+tag,B64,BOOL); s.D=uf('hdD_'+tag,B64,B64); s.A=uf('hdA_'+tag,B64,BOOL); s.Y=uf('hdY_'+tag,B64,B8)
    def nibs(s,k):
        b=bv(s.at(simp(bv(k,64))),8)
        return z3.LShR(b,4),b&15
    def ents(s,k):
        hi,lo=s.nibs(k); st=s.St(bv(k,64))
        n1=TDe(st,hi,0)
        return (n1,TDe(st,hi,1),TDe(st,hi,2)),(TDe(n1,lo,0),TDe(n1,lo,1),TDe(n1,lo,2))
    def zero(s): return [s.St(bvv(0))==0,z3.Not(s.F(bvv(0))),s.D(bvv(0))==0,s.A(bvv(0))]
    @staticmethod
    def bit(f,b): return z3.Extract(b,b,f)==1
    def step(s,k):
        k=bv(k,64); (n1,f1,y1),(n2,f2,y2)=s.ents(k)
        e1=z3.If(s.bit(f1,1),bvv(1),bvv(0)); e2=z3.If(s.bit(f2,1),bvv(1),bvv(0))
        return [s.St(k+1)==n2,s.F(k+1)==z3.Or(s.F(k),s.bit(f1,2),s.bit(f2,2)),s.D(k+1)==s.D(k)+e1+e2,s.A(k+1)==s.bit(f2,0),
                z3.Implies(s.bit(f1,1),s.Y(s.D(k))==y1),z3.Implies(s.bit(f2,1),s.Y(s.D(k)+e1)==y2)]
    def mono(s,k):
        k=bv(k,64)
        return [z3.Implies(z3.ULE(k,s.n),z3.And(z3.ULE(s.D(k),s.D(s.n)),z3.ULE(s.D(k),2*k),z3.Implies(s.F(k),s.F(s.n)))),z3.ULE(s.D(s.n),2*s.n)]
    def bad(s): return z3.Or(s.F(s.n),z3.Not(s.A(s.n)))
class HD:
    def __init__(s,arr,pos,n):
        s.n=bv(n,64); s.a=(arr,bv(pos,64),s.n)
        s.bad=uf('HDbad',ARR,B64,B64,BOOL)(*s.a); s.len=uf('HDlen',ARR,B64,B64,B64)(*s.a)
        s.ax=[z3.Implies(z3.ULE(s.n,1<<49),z3.ULE(s.len,2*s.n)),z3.Implies(s.n==0,z3.And(s.len==0,z3.Not(s.bad)))]
    def byte(s,j): return uf('HDbyte',ARR,B64,B64,B64,B8)(*s.a,bv(j,64))
    def outs(s,L):
        L=bv(L,64); return [(z3.ULT(L,s.n),'err',INCOMPLETE,0),(z3.And(z3.ULE(s.n,L),s.bad),'err',QFAIL,0),(z3.And(z3.ULE(s.n,L),z3.Not(s.bad)),'ok',s.len,s.n)]
def newstr(ex,st,n,fn):
    """ghost string temporary with byte i = fn(i)"""
    n=simp(n)
    if not isinstance(n,int): st.add(z3.ULE(n,1<<46))
    o=ex.newobj(st,addo(n,1),'strdata','str'); o.bytesmode=True
    o.base=lambda st_,i: 0
    o.log=(0,n,(lambda st_,i: fn(i)),None)
    p=stackobj(ex,st,32,'tmpstr'); setg(ex,st,p,GStr(o.id,n)); return p
def str_result(ex,st,dst,n,fn):
    p=newstr(ex,st,n,fn)
    ex.call1(st,'vpmk_string_ok',[dst,p]); lib_call(ex,st,'string::~basic_string()',[p])
def h_decode(ex,st,a,n):
    dst,p,cnt=a; v=view(ex,st,kind_of(ex.prog.short(n)),p)
    if v is None: return []
    k=key(ex,st,v)
    if k is None: raise Unsupported('Huffman string over something that is not one input array')
    h=HD(k[0],k[1],cnt); res=[]
    for x in h.ax: st.add(x)
    for s,kd,x,cn in apply_outcomes(ex,st,h.outs(v.L)):
        if kd=='err': ex.call1(s,'vpmk_string_err',[dst,x]); res.append((s,None))
        else:
            for s2 in consume(ex,s,v,simp(cn)):
                str_result(ex,s2,dst,h.len,h.byte); res.append((s2,None))
    return res
for k in KINDS: HUFFMAN['qpack::huffman::decode<%s>(%s&, u64)'%(TNAME[k],TNAME[k])]=h_decode
def mk_decode(kind):
    def go(ex):
        from .. import loops
        u=ex.unit; st=State(); ex.table_hook=hook
        p,v=mkseq(ex,st,kind,u)
        n=ex.fresh('n',64); u.inputs['n']=n
        H=Dec(v.at,n,kind)
        for a in H.zero()+H.mono(n): st.add(z3.Implies(z3.ULE(n,1<<49),a))
        def cands(ex,C):
            out=[('count within the string',z3.ULE(C.k,H.n)),('nothing failed so far',z3.Not(H.F(C.k)))]
            for keyc,kd,var,init,extra in C.info.vars:
                if init is None: continue
                if var.size()==64: out.append(('symbols so far',var==init+H.D(C.k)))
                if var.size()==8: out+=[('state',var==H.St(C.k)),('acceptable end',var==z3.If(H.A(C.k),z3.BitVecVal(1,8),z3.BitVecVal(0,8)))]
            return out
        u.candidates=cands
        u.loop_axioms=lambda ex,S,C,k: H.step(k)+H.mono(k)+H.mono(simp(bv(k,64)+1))
        def blob(ex,C,oid):
            if C.entry.mem[oid].kind!='strdata': return None
            return loops.SeqStore('symbols so far',oid,bvv(0),H.D(C.k),lambda st_,rel: H.Y(rel),C)
        u.blob_candidates=blob
        o=outp(ex,st); sp=stackobj(ex,st,32,'result'); what='huffman::decode'
        outs=[(z3.ULT(bv(v.L,64),n),'err',INCOMPLETE,0),(z3.And(z3.ULE(n,bv(v.L,64)),H.bad()),'err',QFAIL,0),(z3.And(z3.ULE(n,bv(v.L,64)),z3.Not(H.bad())),'ok',H.D(H.n),n)]
        def val(s,x):
            g=getg(ex,s,sp,GStr,what)
            j=ex.fresh('j',64); s2=s.fork(); s2.add(z3.ULT(j,bv(g.ln,64))); s2.add(z3.ULT(j,x))
            ex.oblige(s2,simp(bv(g.at(ex,s2,j),8)==H.Y(j)),'postcondition',what+': decoded characters')
            return [('decoded length',g.ln,x)]
        for s,_ in ex.call(st,'vp_huffman_decode_'+kind,[p,n,sp,o]):
            outcomes_post(ex,s,outs,okflag(ex,s,o),out(ex,s,o,-1),val,v,what)
    nm='qpack::huffman::decode<%s>(%s&, u64)'%(TNAME[kind],TNAME[kind])
    Unit('huffman.decode.'+kind,('C05','C24'),with_tables(go),provides=(nm,),contracts=BASE,unroll=3,time_limit=800)
for k in KINDS: mk_decode(k)
