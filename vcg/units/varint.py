"""C01 / C02: QUIC variable-length integers (RFC 9000 section 16)."""
from ..seq import *
INCOMPLETE=1<<62
VARINT_OVERFLOW=(1<<62)+4
MAX=(1<<62)-1
# ---- specification
def s_size(v):
    v=bv(v,64)
    return z3.If(z3.ULT(v,1<<6),bvv(1),z3.If(z3.ULT(v,1<<14),bvv(2),z3.If(z3.ULT(v,1<<30),bvv(4),bvv(8))))
def s_byte(v,i):
    """byte i of the encoding of v"""
    v=bv(v,64); n=s_size(v)
    be=lambda k,tot: z3.Extract(8*(tot-1-k)+7,8*(tot-1-k),v)
    def enc(tot,tag):
        r=z3.BitVecVal(0,8)
        for k in range(tot-1,-1,-1):
            b=be(k,tot)
            if k==0: b=(b&0x3f)|(tag<<6)
            r=z3.If(bv(i,64)==k,b,r)
        return r
    return simp(z3.If(n==1,enc(1,0),z3.If(n==2,enc(2,1),z3.If(n==4,enc(4,2),enc(8,3)))))
def s_fits(v): return z3.ULE(bv(v,64),MAX)
def s_declen(b0): 
    t=z3.Extract(7,6,bv(b0,8))
    return z3.If(t==0,bvv(1),z3.If(t==1,bvv(2),z3.If(t==2,bvv(4),bvv(8))))
def s_value(at):
    """value of the varint starting at byte 0"""
    B=[bv(at(i),8) for i in range(8)]
    b0=B[0]&0x3f
    z=lambda bs: z3.ZeroExt(64-8*len(bs),z3.Concat(*bs)) if len(bs)>1 and len(bs)<8 else (z3.Concat(*bs) if len(bs)==8 else z3.ZeroExt(56,bs[0]))
    n=s_declen(B[0])
    return z3.If(n==1,z([b0]),z3.If(n==2,z([b0]+B[1:2]),z3.If(n==4,z([b0]+B[1:4]),z([b0]+B[1:8]))))
def s_complete(L,at): return z3.And(bv(L,64)!=0,z3.ULE(s_declen(at(0)),bv(L,64)))
def outcomes(L,at):
    c=s_complete(L,at)
    return [(c,'ok',s_value(at),s_declen(at(0))),(z3.Not(c),'err',INCOMPLETE,0)]
# ---- contracts
VARINT={}
def h_decode(ex,st,a,n):
    sh=ex.prog.short(n)
    v=view(ex,st,kind_of(sh),a[0])
    if v is None: return []
    res=[]
    for s,k,x,cn in apply_outcomes(ex,st,outcomes(v.L,v.at)):
        if k=='err': res.append((s,ex.call1(s,'vpmk_u64_err',[x])))
        else:
            for s2 in consume(ex,s,v,simp(cn)): res.append((s2,ex.call1(s2,'vpmk_u64_ok',[simp(x)])))
    return res
for k in KINDS: VARINT['varint::decode<%s>(%s&)'%(TNAME[k],TNAME[k])]=h_decode
def h_encoded_size(ex,st,a,n):
    res=[]
    for s,t in ex.branch(st,simp(s_fits(a[0])) if not isinstance(a[0],int) else int(a[0]<=MAX)):
        if t: res.append((s,ex.call1(s,'vpmk_u64_ok',[simp(s_size(a[0]))])))
        else: res.append((s,ex.call1(s,'vpmk_u64_err',[VARINT_OVERFLOW])))
    return res
VARINT['varint::encoded_size(u64)']=h_encoded_size
def write_seq(ex,st,p,n,fn):
    """*p .. *(p+n) := fn(i) (obligation: the region is writable)"""
    n=simp(n)
    o=ex.deref_n(st,p,n,'write of encoded bytes')
    if o is None or st.dead: return
    if o.const: ex.violate(st,'memory','write to constant'); return
    w=ex.wobj(st,p.obj)
    if isinstance(n,int) and isinstance(p.off,int) and not w.bytesmode and n<=64:
        for i in range(n): ex.store_o(st,ex.wobj(st,p.obj),p.off+i,1,simp(fn(i)))
        return
    ex.tobytes(st,w)
    w.log=(p.off,n,(lambda st_,d: fn(d)),w.log)
def h_encode_raw(ex,st,a,n):
    res=[]
    if isinstance(a[0],int): ex.violate(st,'precondition','varint::encode destination is not null'); return []
    for s,t in ex.branch(st,simp(s_fits(a[1])) if not isinstance(a[1],int) else int(a[1]<=MAX)):
        if t:
            v=a[1]
            write_seq(ex,s,a[0],s_size(v),lambda i,v=v: s_byte(v,i))
            if s.dead: continue
            res.append((s,ex.call1(s,'vpmk_u64_ok',[simp(s_size(v))])))
        else: res.append((s,ex.call1(s,'vpmk_u64_err',[VARINT_OVERFLOW])))
    return res
VARINT['varint::encode(u8*, u64)']=h_encode_raw
def h_encode(ex,st,a,n):
    dst,v=a
    res=[]
    for s,t in ex.branch(st,simp(s_fits(v)) if not isinstance(v,int) else int(v<=MAX)):
        if t:
            o=content_obj(ex,s,simp(s_size(v)),lambda st_,i,v=v: s_byte(v,i))
            tmp=stackobj(ex,s,40,'tmpbuf'); setg(ex,s,tmp,GBuf(o.id,0,simp(s_size(v))))
            ex.call1(s,'vpmk_buffer_ok',[dst,tmp]); lib_call(ex,s,'buffer::~buffer()',[tmp]); res.append((s,None))
        else: ex.call1(s,'vpmk_buffer_err',[dst,VARINT_OVERFLOW]); res.append((s,None))
    return res
VARINT['varint::encode(u64)']=h_encode
# ---- units
BASE=(BUFFER_CONTRACTS,BUFFERS_CONTRACTS,STRING_CONTRACTS)
def mk_decode(kind):
    def go(ex):
        u=ex.unit; st=State()
        p,v=mkseq(ex,st,kind,u)
        o=outp(ex,st)
        for s,_ in ex.call(st,'vp_varint_decode_'+kind,[p,o]):
            outcomes_post(ex,s,outcomes(v.L,v.at),okflag(ex,s,o),out(ex,s,o,-1) if True else 0,lambda s_,x: [('decoded value',out(ex,s_,o,0),x)],v,'varint::decode')
    nm='varint::decode<%s>(%s&)'%(TNAME[kind],TNAME[kind])
    Unit('varint.decode.'+kind,('C02',),go,provides=(nm,),contracts=BASE,replay=lambda i: [('varint_decode',i)])
for k in KINDS: mk_decode(k)
def go_size(ex):
    st=State(); v=ex.fresh('v',64); ex.unit.inputs['v']=v; o=outp(ex,st)
    for s,_ in ex.call(st,'vp_varint_encoded_size',[v,o]):
        outcomes_post(ex,s,[(s_fits(v),'ok',s_size(v),0),(z3.Not(s_fits(v)),'err',VARINT_OVERFLOW,0)],okflag(ex,s,o),out(ex,s,o,-1),lambda s_,x:[('encoded size',out(ex,s_,o,0),x)],None,'varint::encoded_size')
Unit('varint.encoded_size',('C01',),go_size,provides=('varint::encoded_size(u64)',),contracts=BASE)
def region(ex,st,name='dst'):
    """arbitrary writable region with a symbolic size and an interior destination pointer"""
    cap=ex.small(st,'cap',1<<49); off=ex.small(st,'doff',1<<49); N=off+cap
    o=ex.newbytes(st,N,'input',name)
    return o,N,off,Ptr(o.id,off)
def frame_post(ex,st,oid,snap,lo,n,fn,what):
    """bytes [lo,lo+n) are fn(i), all other bytes are as in snap"""
    o=st.mem[oid]; st2=st.fork(); i=ex.index(st2,'i',o.size)
    rel=i-bv(lo,64)
    exp=z3.If(bl(simp(z3.And(z3.ULE(bv(lo,64),i),z3.ULT(i,bv(lo,64)+bv(n,64))))),bv(fn(rel),8),bv(ex.obyte(st2,snap,i),8))
    ex.oblige(st2,simp(bv(ex.obyte(st2,st2.mem[oid],i),8)==exp),'postcondition',what+': bytes written and nothing else')
def go_encraw(ex):
    st=State(); v=ex.fresh('v',64); ex.unit.inputs['v']=v
    ob,N,off,p=region(ex,st)
    st.add(z3.Implies(s_fits(v),z3.ULE(s_size(v),simp(N-off))))
    snap=ex.snapshot(st,ob); o=outp(ex,st)
    for s,_ in ex.call(st,'vp_varint_encode_raw',[p,v,o]):
        outcomes_post(ex,s,[(s_fits(v),'ok',s_size(v),0),(z3.Not(s_fits(v)),'err',VARINT_OVERFLOW,0)],okflag(ex,s,o),out(ex,s,o,-1),lambda s_,x:[('encoded size',out(ex,s_,o,0),x)],None,'varint::encode')
        n=z3.If(s_fits(v),s_size(v),bvv(0))
        frame_post(ex,s,ob.id,snap,off,n,lambda i: s_byte(v,i),'varint::encode')
Unit('varint.encode_raw',('C01',),go_encraw,provides=('varint::encode(u8*, u64)',),contracts=BASE+(VARINT,))
def bufpost(ex,s,bp,n,fn,what):
    g=getg(ex,s,bp,GBuf,what)
    if g is None: return
    ex.oblige(s,simp(bv(g.ln,64)==bv(n,64)),'postcondition',what+': buffer size')
    j=ex.fresh('j',64); s2=s.fork(); s2.add(z3.ULT(j,bv(n,64)))
    ex.oblige(s2,simp(bv(g.at(ex,s2,j),8)==bv(fn(j),8)),'postcondition',what+': buffer content')
def go_enc(ex):
    st=State(); v=ex.fresh('v',64); ex.unit.inputs['v']=v; o=outp(ex,st); b=stackobj(ex,st,40,'result')
    for s,_ in ex.call(st,'vp_varint_encode',[v,b,o]):
        fit=s_fits(v)
        for x,t in ex.branch(s,fit):
            ok=okflag(ex,x,o)
            if t:
                if ex.oblige(x,ok,'postcondition','varint::encode succeeds'): bufpost(ex,x,b,s_size(v),lambda i: s_byte(v,i),'varint::encode')
            else:
                if ex.oblige(x,simp(z3.Not(bl(ok))),'postcondition','varint::encode rejects values over 2^62-1'):
                    ex.oblige(x,simp(bv(out(ex,x,o,-1),64)==VARINT_OVERFLOW),'postcondition','varint::encode error code')
Unit('varint.encode',('C01',),go_enc,provides=('varint::encode(u64)',),contracts=BASE+(VARINT,))
