"""C07 / C08 / C09: QPACK field lines over the static table (RFC 9204 sections 4.5 and appendix A)."""
from ..seq import *
from .varint import BASE,write_seq,region,frame_post,bufpost,INCOMPLETE
from .prefix import QFAIL,PI,pi_split
from .literal import PREFIX_ABS,LITERAL_ABS,LEA,LDA,pe
from .huffman import strkey,newstr
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..'))
from spec.static_table import TABLE
MALFORMED_HEADER=(1<<62)+5
NAMES=[]
for _n,_v in TABLE:
    if _n not in NAMES: NAMES.append(_n)
FIRST={n: min(i for i,(a,b) in enumerate(TABLE) if a==n) for n in NAMES}
# ---- upper case
def upper(b): return z3.And(z3.UGE(bv(b,8),65),z3.ULE(bv(b,8),90))
class Low:
    """'the n bytes at(i) contain no upper-case letter': a predicate with a witness W when it is false"""
    def __init__(s,n,at,*key):
        s.n=bv(n,64); s.at=at
        so=[k.sort() for k in key]
        s.p=uf('LOW%d'%len(key),*so,BOOL)(*key); s.w=uf('LOWwit%d'%len(key),*so,B64)(*key)
    def wit(s): return z3.Implies(z3.Not(s.p),z3.And(z3.ULT(s.w,s.n),upper(s.at(s.w))))
    def inst(s,i): return z3.Implies(z3.And(s.p,z3.ULT(bv(i,64),s.n)),z3.Not(upper(s.at(bv(i,64)))))
def lowspec(ex,st,l):
    """make a specification predicate known: the contract of header_is_lowercase is instantiated at its witness and it at theirs"""
    st.add(l.wit())
    st.ghost['low_specs']=st.ghost.get('low_specs',())+(l,)
LOWER={}
def h_lower(ex,st,a,n):
    p=a[0]; sp=ex.load(st,p,8,('ptr',)); ln=ex.load(st,p.add(8),8,('i',64))
    return lower_at(ex,st,sp,ln)
def lower_at(ex,st,sp,ln):
    ln=simp(ln)
    if isinstance(ln,int) and ln==0: return 1
    o=ex.deref_n(st,sp,ln,'header name')
    if o is None or st.dead: return 1
    sn=ex.snapshot(st,o); at=lambda i: bv(ex.obyte(st,sn,simp(bv(sp.off,64)+bv(i,64))),8)
    if isinstance(ln,int) and ln<=256:
        c=simp(z3.Not(z3.Or([upper(at(i)) for i in range(ln)])))
        if isinstance(c,int): return c
        return c
    r=ex.freshb('lower'); w=ex.fresh('lowerw',64)
    st.add(z3.Implies(z3.Not(r),z3.And(z3.ULT(w,bv(ln,64)),upper(at(w)))))
    for l in st.ghost.get('low_specs',()):
        st.add(l.inst(w)); st.add(z3.Implies(z3.And(r,z3.ULT(l.w,bv(ln,64))),z3.Not(upper(at(l.w)))))
    return r
LOWER['header_is_lowercase(header_view)']=h_lower
def go_lower(ex):
    st=State(); n=ex.small(st,'n'); o=ex.newbytes(st,n,'input','name'); vn=ex.small(st,'vn'); vo=ex.newbytes(st,vn,'input','value')
    at=lambda i: ex.obyte(None,o,i)
    ex.unit.inputs['name']=model_bytes(n,at); ex.unit.inputs['namelen']=n
    G=uf('lowerG',B64,BOOL); st.add(G(bvv(0)))      # G(k): the first k bytes contain no upper-case letter
    def cands(ex,C):
        out=[('lower case so far',G(C.k)),('count within the name',z3.ULE(C.k,n))]
        for keyc,kd,var,init,extra in C.info.vars:
            if var.size()==64 and init is not None: out.append(('position',var==init+C.k,(var,init+C.k)))
        return out
    ex.unit.candidates=cands
    def ax(ex,S,C,k):
        k=bv(k,64); r=[G(k+1)==z3.And(G(k),z3.Not(upper(at(simp(k)))))]
        for x in (k,k+1): r.append(z3.Implies(z3.And(z3.ULE(x,n),z3.Not(G(x))),z3.Not(G(n))))      # monotone
        return r
    ex.unit.loop_axioms=ax
    for s,r in ex.call(st,'vp_header_is_lowercase',[Ptr(o.id,0),n,Ptr(vo.id,0),vn]):
        ex.oblige(s,simp((bv(r,64)==1)==G(n)),'postcondition','header_is_lowercase: true exactly for names without an upper-case letter')
Unit('header.is_lowercase',('C08','C09'),go_lower,provides=('header_is_lowercase(header_view)',),contracts=BASE,unroll=3)
# ---- XXH64: a dependency.  On concrete bytes its body is executed; on anything else it returns some 64-bit number.
def h_xxh(ex,st,a,n):
    p,ln,seed=a
    ln=simp(ln)
    if isinstance(ln,int):
        bs=[]
        o=ex.obj(st,p) if isinstance(p,Ptr) else None
        for i in range(ln):
            b=ex.obyte(st,o,simp(p.add(i).off)) if o is not None else None
            b=simp(b) if b is not None and not isinstance(b,int) else b
            if not isinstance(b,int): bs=None; break
            bs.append(b)
        if bs is not None and isinstance(seed,int): return xxh64(bytes(bs),seed)
    elif isinstance(p,Ptr): ex.deref_n(st,p,ln,'XXH64 input')
    ex.assumptions.add('XXH64 only reads its input; its value is that of the published algorithm for the names and values of the static table and is otherwise left open')
    return ex.fresh('hash',64)
P1,P2,P3,P4,P5=0x9E3779B185EBCA87,0xC2B2AE3D27D4EB4F,0x165667B19E3779F9,0x85EBCA77C2B2AE63,0x27D4EB2F165667C5
def xxh64(d,seed=0):
    M=(1<<64)-1; rot=lambda x,r: ((x<<r)|(x>>(64-r)))&M
    rnd=lambda acc,l: (rot((acc+l*P2)&M,31)*P1)&M
    n=len(d); p=0
    if n>=32:
        v=[(seed+P1+P2)&M,(seed+P2)&M,seed,(seed-P1)&M]
        while p+32<=n:
            for i in range(4): v[i]=rnd(v[i],int.from_bytes(d[p+8*i:p+8*i+8],'little'))
            p+=32
        h=(rot(v[0],1)+rot(v[1],7)+rot(v[2],12)+rot(v[3],18))&M
        for x in v: h=((h^rnd(0,x))*P1+P4)&M
    else: h=(seed+P5)&M
    h=(h+n)&M
    while p+8<=n: h=(rot(h^rnd(0,int.from_bytes(d[p:p+8],'little')),27)*P1+P4)&M; p+=8
    if p+4<=n: h=(rot(h^(int.from_bytes(d[p:p+4],'little')*P1)&M,23)*P2+P3)&M; p+=4
    while p<n: h=(rot(h^(d[p]*P5)&M,11)*P1)&M; p+=1
    h^=h>>33; h=(h*P2)&M; h^=h>>29; h=(h*P3)&M; h^=h>>32
    return h
assert xxh64(b'')==0xEF46DB3751D8E999 and xxh64(b'abc')==0x44BC2CF5AD770999
# ---- encoder
def layout(ex,*names): return [const_global(ex.prog,ex,n) for n in names]
class QE:
    """an encoder in an arbitrary state of its invariant (state_ is one of its two values)"""
    def __init__(s,ex,st):
        sz,s.os,s.oc,s.pre,s.hdr=layout(ex,'vpsize_qpack_encoder','vpoff_qpack_encoder_state','vpoff_qpack_encoder_count','vpval_qpack_encoder_prefix','vpval_qpack_encoder_header')
        s.p=stackobj(ex,st,sz,'encoder')
        ex.call1(st,'vp_qpack_encoder_new',[s.p])
        s.w=4
        s.isp=ex.fresh('at_prefix',8); s.cnt=ex.fresh('count',64)
        ex.unit.inputs['encoder_at_prefix']=s.isp; ex.unit.inputs['encoder_count']=s.cnt
        st.add(z3.ULE(s.isp,1)); st.add(z3.ULE(s.cnt,1<<62))
        ex.store(st,s.p.add(s.os),s.w,simp(z3.If(s.isp==1,z3.BitVecVal(s.pre,32),z3.BitVecVal(s.hdr,32))))
        ex.store(st,s.p.add(s.oc),8,s.cnt)
        s.P=z3.If(s.isp==1,bvv(2),bvv(0))
    def now(s,ex,st): return ex.load(st,s.p.add(s.os),s.w,('i',32)),ex.call1(st,'vp_qpack_encoder_count',[s.p])
    def same(s,ex,st,what):
        a,c=s.now(ex,st)
        ex.oblige(st,simp(z3.And(bv(a,32)==z3.If(s.isp==1,z3.BitVecVal(s.pre,32),z3.BitVecVal(s.hdr,32)),bv(c,64)==s.cnt)),'postcondition',what+': encoder unchanged')
    def moved(s,ex,st,n,what):
        a,c=s.now(ex,st)
        ex.oblige(st,simp(z3.And(bv(a,32)==s.hdr,bv(c,64)==s.cnt+n)),'postcondition',what+': prefix done once and count advanced by the bytes written')
class Line:
    """specification of the encoding of one field, prefix bytes included: parts (size, byte)"""
    def __init__(s,ex,st,q,kind,idx,nk,vk):
        s.parts=[]
        if kind=='full': e=pe(ex,st,idx,6); s.parts=[(e.size,lambda i: e.byte(i,0xc0))]
        elif kind=='name':
            e=pe(ex,st,idx,4); v=LEA(ex,st,*vk,7)
            s.parts=[(e.size,lambda i: e.byte(i,0x50)),(v.size,lambda i: v.byte(i,0))]
        else:
            n=LEA(ex,st,*nk,3); v=LEA(ex,st,*vk,7)
            s.parts=[(n.size,lambda i: n.byte(i,0x20)),(v.size,lambda i: v.byte(i,0))]
        s.P=q.P
        s.size=simp(s.P+sum((bv(a,64) for a,_ in s.parts),bvv(0)))
    def pieces(s,P):
        r=[(P,lambda i: z3.BitVecVal(0,8))] if P else []
        return r+s.parts
    def byte(s,i):
        i=bv(i,64); j=i-s.P
        if len(s.parts)==1: r=s.parts[0][1](j)
        else:
            n0=bv(s.parts[0][0],64); r=z3.If(z3.ULT(j,n0),s.parts[0][1](j),s.parts[1][1](j-n0))
        return z3.If(z3.ULT(i,s.P),z3.BitVecVal(0,8),r)
def frame_pieces(ex,st,oid,snap,lo,pieces,what):
    """frame_post, one obligation per piece"""
    o=st.mem[oid]; cur=bv(lo,64); sides=[]
    for n,fn in pieces:
        s=st.fork(); i=ex.index(s,'i',o.size); s.add(z3.ULE(cur,i)); s.add(z3.ULT(i,simp(cur+bv(n,64))))
        ex.oblige(s,simp(bv(ex.obyte(s,s.mem[oid],i,decide=True),8)==bv(fn(simp(i-cur)),8)),'postcondition',what+': bytes written')
        cur=bv(simp(cur+bv(n,64)),64)
    for c in (lambda i: z3.ULT(i,bv(lo,64)),lambda i: z3.ULE(cur,i)):
        s=st.fork(); i=ex.index(s,'i',o.size); s.add(c(i))
        ex.oblige(s,simp(bv(ex.obyte(s,s.mem[oid],i,decide=True),8)==bv(ex.obyte(s,snap,i),8)),'postcondition',what+': nothing else is written')
def conc(ex,st,s,name):
    o=ex.newobj(st,len(s)+1,'input',name)
    for i,b in enumerate(s.encode()+b'\0'): ex.store_o(st,ex.wobj(st,o.id),i,1,b)
    return Ptr(o.id,0),len(s)
def sym(ex,st,name,avoid,empty_ok=True):
    """a symbolic string different from all strings of avoid"""
    n=ex.small(st,'n'); o=ex.newbytes(st,n,'input',name); at=lambda i: ex.obyte(None,o,i)
    ex.unit.inputs[name]=model_bytes(n,at); ex.unit.inputs[name+'len']=n
    for a in avoid: st.add(z3.Not(z3.And([n==len(a)]+[bv(at(i),8)==c for i,c in enumerate(a.encode())])))
    return Ptr(o.id,0),n
def cases(ex):
    """every (name,value) falls in one of these: (kind, index, state, name, value, both keys, quantity of lower-caseness)"""
    part,total=ex.unit.part
    todo=[]
    for n in NAMES:
        vals=[v for a,v in TABLE if a==n and v]
        for v in vals: todo.append((n,v))
        todo.append((n,None))
    todo.append((None,None))
    for n,v in ([(None,None)] if part>=total-2 else todo[:-1][part::total-2]):      # the last two: no table name, prefix ahead or not
        if os.environ.get("VCG_CASE"): print("CASE",n,v,flush=True)
        st=State(); q=QE(ex,st)
        if n is None: st.add(q.isp==(1 if part==total-1 else 0))
        vals=[b for a,b in TABLE if a==n and b] if n is not None else []
        np,nl=conc(ex,st,n,'name') if n is not None else sym(ex,st,'name',NAMES)
        vp,vl=conc(ex,st,v,'value') if v is not None else sym(ex,st,'value',vals)
        ex.unit.inputs['table_name']=lambda m,n=n: n; ex.unit.inputs['table_value']=lambda m,v=v: v
        nk=strkey(ex,st,np,nl)+(nl,) if n is None else None
        vk=strkey(ex,st,vp,vl)+(vl,) if v is None else None
        low=None
        if n is None:
            low=Low(nl,lambda i,a=nk: z3.Select(a[0],bv(a[1],64)+bv(i,64)),nk[0],bv(nk[1],64),bv(nl,64)); lowspec(ex,st,low)
        if v is not None: l=Line(ex,st,q,'full',TABLE.index((n,v)),nk,vk)
        elif n is not None: l=Line(ex,st,q,'name',FIRST[n],nk,vk)
        else: l=Line(ex,st,q,'literal',None,nk,vk)
        yield st,q,l,(np,nl,vp,vl),low
def lowcases(ex,s,low):
    """(state, is lower case)"""
    return [(s,1)] if low is None else ex.branch(s,low.p)
def go_qsize(ex):
    for st,q,l,h,low in cases(ex):
        o=outp(ex,st); what='qpack::encoder::encoded_size'
        for s,_ in ex.call(st,'vp_qpack_encoded_size',[q.p,*h,o]):
            for s,t in lowcases(ex,s,low):
                if t:
                    if ex.oblige(s,okflag(ex,s,o),'postcondition',what+' accepts lower-case names'):
                        ex.oblige(s,simp(bv(out(ex,s,o,0),64)==l.size),'postcondition',what+': size of the line')
                elif ex.oblige(s,simp(z3.Not(bl(okflag(ex,s,o)))),'postcondition',what+' refuses upper-case names'):
                    ex.oblige(s,simp(bv(out(ex,s,o,-1),64)==MALFORMED_HEADER),'postcondition',what+': error code')
                q.same(ex,s,what)
def go_qraw(ex):
    for st,q,l,h,low in cases(ex):
        o=outp(ex,st); what='qpack::encoder::encode'
        ob,N,off,d=region(ex,st); st.add(z3.ULE(bv(l.size,64),simp(N-off)))
        snap=ex.snapshot(st,ob)
        for s,_ in ex.call(st,'vp_qpack_encode_raw',[q.p,d,*h,o]):
            if ex.oblige(s,okflag(ex,s,o),'postcondition',what+' (raw) succeeds'):
                ex.oblige(s,simp(bv(out(ex,s,o,0),64)==l.size),'postcondition',what+': bytes written')
                q.moved(ex,s,l.size,what)
                for s2,t in ex.branch(s,q.isp==1): frame_pieces(ex,s2,ob.id,snap,off,l.pieces(2 if t else 0),what)
XXH={'XXH_INLINE_XXH64(void const*, u64, u64)':h_xxh}
DEPS=BASE+(PREFIX_ABS,LITERAL_ABS,LOWER,XXH)
NPART=8
for _i in range(NPART):
    Unit('qpack.encoded_size.%d'%_i,('C07','C08','C24'),go_qsize,deep=('C08','C24'),provides=('qpack::encoder::encoded_size(header_view) const',),contracts=DEPS,part=(_i,NPART),unroll=8)
    Unit('qpack.encode_raw.%d'%_i,('C07','C08','C24'),go_qraw,deep=('C08','C24'),provides=('qpack::encoder::encode(u8*, header_view)',),contracts=DEPS,part=(_i,NPART),unroll=8)
# ---- decoder
class QD:
    def __init__(s,ex,st):
        sz,s.os,s.oc,s.pre,s.hdr=layout(ex,'vpsize_qpack_decoder','vpoff_qpack_decoder_state','vpoff_qpack_decoder_count','vpval_qpack_decoder_prefix','vpval_qpack_decoder_header')
        s.p=stackobj(ex,st,sz,'decoder')
        ex.call1(st,'vp_qpack_decoder_new',[s.p])
        s.isp=ex.fresh('at_prefix',8); s.cnt=ex.fresh('count',64)
        ex.unit.inputs['decoder_at_prefix']=s.isp; ex.unit.inputs['decoder_count']=s.cnt
        st.add(z3.ULE(s.isp,1)); st.add(z3.ULE(s.cnt,1<<62))
        ex.store(st,s.p.add(s.os),4,simp(z3.If(s.isp==1,z3.BitVecVal(s.pre,32),z3.BitVecVal(s.hdr,32))))
        ex.store(st,s.p.add(s.oc),8,s.cnt)
    def at(s,ex,st,prefix,cnt,what):
        a=ex.load(st,s.p.add(s.os),4,('i',32)); c=ex.call1(st,'vp_qpack_decoder_count',[s.p])
        ex.oblige(st,simp(z3.And(bv(a,32)==(s.pre if prefix else s.hdr),bv(c,64)==s.cnt+cnt)),'postcondition',what+': prefix state and count')
CLASSES=('indexed','name','literal','other')
def in_class(b0,c):
    return {'indexed':(b0&0x80)!=0,'name':(b0&0xc0)==0x40,'literal':(b0&0xe0)==0x20,'other':(b0&0xe0)==0}[c]
def shift_outs(outs,n):
    """outcomes of a later step that starts n bytes in"""
    return [(c,k,x,simp(n+bv(cn,64)) if k=='ok' else 0) for c,k,x,cn in outs]
def line_spec(ex,st,arr,e,L,cls):
    """list of (state, outcomes over L bytes at e, value check).  cls is known on st (first byte exists)"""
    b0=z3.Select(arr,e); r=[]
    if cls=='other': return [(st,[(True,'err',QFAIL,0)],None)]
    if cls in('indexed','name'):
        sbit=0x40 if cls=='indexed' else 0x10
        for s,t in ex.branch(st,(b0&sbit)!=0):
            if not t: r.append((s,[(True,'err',QFAIL,0)],None)); continue
            for s2,p in pi_split(ex,s,arr,e,6 if cls=='indexed' else 4):
                bad=z3.UGT(p.val,98)
                outs=[(c,k,x,n) for c,k,x,n in p.outs(L)]
                okc=outs[-1][0]; outs=outs[:-1]+[(z3.And(okc,bad),'err',QFAIL,0)]; okc=z3.And(okc,z3.Not(bad))
                if cls=='indexed': r.append((s2,outs+[(okc,'ok',p.val,p.len)],('indexed',p)))
                else:
                    e2=simp(e+p.len); d=LDA(ex,s2,arr,e2,7)
                    o2=[(z3.And(okc,c),k,x,simp(p.len+bv(n,64)) if k=='ok' else 0) for c,k,x,n in d.outs(simp(L-p.len))]
                    r.append((s2,outs+o2,('name',p,d)))
        return r
    d1=LDA(ex,st,arr,e,3); d2=LDA(ex,st,arr,simp(e+d1.need),7)
    o1=d1.outs(L); ok1=o1[-1][0]
    low=Low(d1.len,d1.byte,arr,bv(e,64)); lowspec(ex,st,low)
    o2=d2.outs(simp(L-d1.need)); ok2=z3.And(ok1,o2[-1][0])
    outs=o1[:-1]+[(z3.And(ok1,c),k,x,0) for c,k,x,n in o2[:-1]]+[(z3.And(ok2,z3.Not(low.p)),'err',MALFORMED_HEADER,0),(z3.And(ok2,low.p),'ok',None,simp(d1.need+d2.need))]
    return [(st,outs,('literal',d1,d2))]
def strpost(ex,s,p,n,byte,what):
    g=getg(ex,s,p,GStr,what)
    if g is None: return
    ex.oblige(s,simp(bv(g.ln,64)==bv(n,64)),'postcondition',what+': length')
    j=ex.fresh('j',64); s2=s.fork(); s2.add(z3.ULT(j,bv(g.ln,64))); s2.add(z3.ULT(j,bv(n,64)))
    ex.oblige(s2,simp(bv(g.at(ex,s2,j),8)==byte(j)),'postcondition',what+': characters')
def strconst(ex,s,p,txt,what):
    g=getg(ex,s,p,GStr,what)
    if g is None: return
    b=txt.encode()
    if ex.oblige(s,simp(bv(g.ln,64)==len(b)),'postcondition',what+': length'):
        ex.oblige(s,simp(z3.And([bv(g.at(ex,s,i),8)==c for i,c in enumerate(b)]+[True])),'postcondition',what+': characters')
def entries(ex,s,idx):
    """(state, entry) for every value of a table index on this path"""
    c=ex.concretize(s,idx)
    if c is not None: yield s,c; return
    for i in range(99):
        t=s.fork(); t.add(idx==i)
        if ex.feasible(t): yield t,i
def mk_qdecode(kind,cls):
    def go(ex):
        u=ex.unit; st=State(); p,v=mkseq(ex,st,kind,u); q=QD(ex,st)
        on,ov,sz=layout(ex,'vpoff_header_name','vpoff_header_value','vpsize_header')
        what='qpack::decoder::decode'
        for st,pf in ex.branch(st,q.isp==1):
            P=2 if pf else 0
            if cls=='other':        # the rest: nothing there to classify
                s=st.fork(); s.add(z3.ULE(bv(v.L,64),P))
                run(ex,s,p,v,q,pf,0,[(z3.ULT(bv(v.L,64),P),'err',INCOMPLETE,'start'),(z3.UGE(bv(v.L,64),P),'err',INCOMPLETE,0)],None,on,ov,sz,what)
            st.add(z3.UGT(bv(v.L,64),P))
            k=key(ex,st,v)
            e=simp(bv(k[1],64)+P); L=simp(bv(v.L,64)-P)
            st.add(in_class(z3.Select(k[0],e),cls))
            if not ex.feasible(st): continue
            for s,outs,val in line_spec(ex,st,k[0],e,L,cls): run(ex,s,p,v,q,pf,P,outs,val,on,ov,sz,what)
    def run(ex,st,p,v,q,pf,P,outs,val,on,ov,sz,what):
        o=outp(ex,st); h=stackobj(ex,st,sz,'header')
        for s,_ in ex.call(st,'vp_qpack_decode_'+kind,[q.p,p,h,o]):
            ok=okflag(ex,s,o)
            for c,kd,x,n in outs:
                t=s.fork(); t.add(bl(c))
                if t.dead or not ex.feasible(t): continue
                if kd=='err':
                    if not ex.oblige(t,simp(z3.Not(bl(ok))),'postcondition',what+': fails when specified to fail'): continue
                    ex.oblige(t,simp(bv(out(ex,t,o,-1),64)==x),'postcondition',what+': error code')
                    if n=='start': after(ex,t,v,0,what); q.at(ex,t,True,0,what)
                    else:
                        Pn=2 if pf else 0
                        after(ex,t,v,Pn,what); q.at(ex,t,False,Pn,what)
                    continue
                if not ex.oblige(t,ok,'postcondition',what+': succeeds when specified to succeed'): continue
                n=simp(bv(n,64)+P)
                after(ex,t,v,n,what); q.at(ex,t,False,n,what)
                hn=h.add(on); hv=h.add(ov)
                if val[0]=='literal':
                    strpost(ex,t,hn,val[1].len,val[1].byte,what+': name'); strpost(ex,t,hv,val[2].len,val[2].byte,what+': value')
                else:
                    for t2,i in entries(ex,t,val[1].val):
                        strconst(ex,t2,hn,TABLE[i][0],what+': name of entry')
                        if val[0]=='indexed': strconst(ex,t2,hv,TABLE[i][1],what+': value of entry')
                        else: strpost(ex,t2,hv,val[2].len,val[2].byte,what+': value')
    nm='qpack::decoder::decode<%s>(%s&)'%(TNAME[kind],TNAME[kind])
    Unit('qpack.decode.%s.%s'%(cls,kind),(('C07',) if cls in('indexed','name') else ())+('C08','C09','C24'),go,provides=(nm,),contracts=BASE+(PREFIX_ABS_D,LITERAL_ABS,LOWER),unroll=8)
PREFIX_ABS_D=PREFIX_ABS
for k in('buffer','buffers'):
    for c in CLASSES: mk_qdecode(k,c)
# ---- field lines as callers see them
QFACTS='$field line facts'
class QL:
    """the field line that starts at e: decided once `need` bytes are there; then it is refused with err, or a field"""
    def __init__(s,ex,st,arr,e):
        ex.used.add(QFACTS); a=(arr,bv(e,64)); s.a=a
        s.need=mark_small(uf('QLneed',ARR,B64,B64)(*a)); s.err=uf('QLerr',ARR,B64,B64)(*a)
        s.nlen=mark_small(uf('QLnlen',ARR,B64,B64)(*a)); s.vlen=mark_small(uf('QLvlen',ARR,B64,B64)(*a))
        for c in s.facts(s.need,s.err,s.nlen,s.vlen): st.add(c)
    @staticmethod
    def facts(need,err,nlen,vlen): return [z3.UGE(need,1),z3.ULE(need,1<<52),z3.ULE(nlen,1<<51),z3.ULE(vlen,1<<51),z3.Or(err==0,err==QFAIL,err==MALFORMED_HEADER)]
    def nbyte(s,j): return uf('QLnbyte',ARR,B64,B64,B8)(*s.a,bv(j,64))
    def vbyte(s,j): return uf('QLvbyte',ARR,B64,B64,B8)(*s.a,bv(j,64))
    def outs(s,L): return QL.cases(s.need,s.err,L)
    @staticmethod
    def cases(need,err,L):
        L=bv(L,64); t=z3.ULE(need,L)
        return [(z3.ULT(L,need),'err',INCOMPLETE,0),(z3.And(t,err==QFAIL),'err',QFAIL,0),(z3.And(t,err==MALFORMED_HEADER),'err',MALFORMED_HEADER,0),(z3.And(t,err==0),'ok',None,need)]
class QN:
    """the line a field is encoded as: lower-case name or not, size, bytes"""
    def __init__(s,ex,st,nk,vk):
        ex.used.add(QFACTS); a=tuple(x if i in(0,3) else bv(x,64) for i,x in enumerate(nk+vk)); s.a=a; so=(ARR,B64,B64,ARR,B64,B64)
        s.low=uf('QNlow',*so,BOOL)(*a); s.size=mark_small(uf('QNsize',*so,B64)(*a))
        for c in s.facts(s.size,a[2],a[5]): st.add(c)
    @staticmethod
    def facts(size,nl,vl): return [z3.UGE(size,1),z3.ULE(size,bv(nl,64)+bv(vl,64)+32)]
    def byte(s,i): return uf('QNbyte',ARR,B64,B64,ARR,B64,B64,B64,B8)(*s.a,bv(i,64))
def go_qfacts(ex):
    st=State(); nl=ex.small(st,'nl'); vl=ex.small(st,'vl'); a1=ex.fresharr('n'); a2=ex.fresharr('v'); z=QE.__new__(QE); z.P=bvv(0)
    for kind,idxs in (('full',range(len(TABLE))),('name',range(len(TABLE))),('literal',[None])):
        for i in idxs:
            s=st.fork(); l=Line(ex,s,z,kind,i,(a1,bvv(0),nl),(a2,bvv(0),vl))
            ex.oblige(s,z3.And(QN.facts(l.size,nl,vl)),'lemma','size of field lines')
    for cls in CLASSES:
        st=State(); arr=ex.fresharr('a'); e=ex.small(st,'e'); L=ex.small(st,'L'); st.add(z3.UGT(L,0)); st.add(in_class(z3.Select(arr,e),cls))
        for s,outs,val in line_spec(ex,st,arr,e,L,cls):
            # definition of QLneed, QLerr and the lengths
            n1=v1=bvv(0); QF=bvv(QFAIL); OK=bvv(0)
            if val is None: need,err=bvv(1),QF
            elif val[0]=='indexed':
                p=val[1]; need=bv(p.len,64); err=z3.If(z3.Or(bl(p.bad),z3.UGT(p.val,98)),QF,OK)
            elif val[0]=='name':
                p,d=val[1:]; b=z3.Or(bl(p.bad),z3.UGT(p.val,98)); need=z3.If(b,bv(p.len,64),bv(p.len,64)+d.need); err=z3.If(z3.Or(b,d.bad),QF,OK); v1=d.len
            else:
                d,f=val[1:]; low=s.ghost['low_specs'][-1]
                need=z3.If(d.bad,d.need,d.need+f.need); err=z3.If(z3.Or(d.bad,f.bad),QF,z3.If(low.p,OK,bvv(MALFORMED_HEADER))); n1,v1=d.len,f.len
            ex.oblige(s,z3.And(QL.facts(need,err,n1,v1)),'lemma','bounds of field lines')
            mine=QL.cases(need,err,L)
            for key_ in [(k,x) for _,k,x,_ in mine]:
                c1=z3.Or([bl(c) if not isinstance(c,bool) else z3.BoolVal(c) for c,k,x,n in outs if k==key_[0] and (k=='ok' or x==key_[1])]+[False])
                c2=z3.Or([c for c,k,x,n in mine if (k,x)==key_])
                ex.oblige(s,simp(c1==c2),'lemma','the outcome of a field line is decided at a fixed length')
            for c,k,x,n in outs:
                if k!='ok': continue
                t=s.fork(); t.add(bl(c))
                if ex.feasible(t): ex.oblige(t,simp(bv(n,64)==need),'lemma','a field line is consumed exactly')
Unit('qpack.facts',('C08','C09','C17'),go_qfacts,provides=(QFACTS,))
QPACK={}
def q_encode(ex,st,a,n):
    dst,q,h=a; res=[]
    os,oc,pre,hdr=layout(ex,'vpoff_qpack_encoder_state','vpoff_qpack_encoder_count','vpval_qpack_encoder_prefix','vpval_qpack_encoder_header')
    k=[]
    for o in (0,16):
        p=ex.load(st,h.add(o),8,('ptr',)); l=simp(ex.load(st,h.add(o+8),8,('i',64))); kk=strkey(ex,st,p,l)
        if kk is None: return []
        k.append(tuple(kk)+(l,))
    x=QN(ex,st,*k)
    for s,t in ex.branch(st,x.low):
        if not t: ex.call1(s,'vpmk_buffer_err',[dst,MALFORMED_HEADER]); res.append((s,None)); continue
        stt=ex.load(s,q.add(os),4,('i',32))
        ex.oblige(s,simp(z3.Or(bv(stt,32)==pre,bv(stt,32)==hdr)),'precondition','QPACK encoder state')
        if s.dead: continue
        for s2,pf in ex.branch(s,simp(bv(stt,32)==pre)):
            P=2 if pf else 0; size=simp(x.size+P); cnt=ex.load(s2,q.add(oc),8,('i',64))
            ex.oblige(s2,simp(z3.ULE(bv(cnt,64),1<<62)),'precondition','QPACK encoder count')
            ex.store(s2,q.add(os),4,hdr); ex.store(s2,q.add(oc),8,simp(bv(cnt,64)+size))
            ob=content_obj(ex,s2,size,lambda st_,i,P=P: z3.If(z3.ULT(bv(i,64),P),z3.BitVecVal(0,8),x.byte(simp(bv(i,64)-P))) if P else x.byte(i))
            b=stackobj(ex,s2,40,'encoded'); setg(ex,s2,b,GBuf(ob.id,0,size)); ex.call1(s2,'vpmk_buffer_ok',[dst,b]); res.append((s2,None))
    return res
QPACK['qpack::encoder::encode(header_view)']=q_encode
def q_decode(ex,st,a,n):
    dst,q,p=a; res=[]; v=view(ex,st,kind_of(ex.prog.short(n)),p)
    if v is None: return []
    os,oc,pre,hdr,on,ov,sz=layout(ex,'vpoff_qpack_decoder_state','vpoff_qpack_decoder_count','vpval_qpack_decoder_prefix','vpval_qpack_decoder_header','vpoff_header_name','vpoff_header_value','vpsize_header')
    k=key(ex,st,v)
    if k is None: raise Unsupported('field line over something that is not one input array')
    for s,kd,x,cn,cnt,isp in ql_step(ex,st,k[0],k[1],v.L,simp(bv(ex.load(st,q.add(os),4,('i',32)),32)==pre),ex.load(st,q.add(oc),8,('i',64))):
        for s2 in consume(ex,s,v,cn):
            ex.store(s2,q.add(os),4,pre if isp else hdr); ex.store(s2,q.add(oc),8,cnt)
            if kd=='err': ex.call1(s2,'vpmk_header_err',[dst,x])
            else:
                h=stackobj(ex,s2,sz,'field')
                for off,ln,by in ((on,x.nlen,x.nbyte),(ov,x.vlen,x.vbyte)):
                    t=newstr(ex,s2,ln,by); g=getg(ex,s2,t,GStr,'field'); delg(ex,s2,t); setg(ex,s2,h.add(off),g)
                ex.call1(s2,'vpmk_header_ok',[dst,h])
                for off in (on,ov): lib_call(ex,s2,'string::~basic_string()',[h.add(off)])
            res.append((s2,None))
    return res
def ql_step(ex,st,arr,e,L,isp,cnt):
    """specification of decoder::decode: (state, kind, error or QL, consumed, count after, prefix still ahead)"""
    out=[]; L=bv(L,64)
    for s,pf in ex.branch(st,isp):
        P=2 if pf else 0
        if P:
            for s2,t in ex.branch(s,z3.ULT(L,2)):
                if t: out.append((s2,'err',INCOMPLETE,0,cnt,1))
                else: out+=ql_line(ex,s2,arr,simp(bv(e,64)+2),simp(L-2),simp(bv(cnt,64)+2),2)
        else: out+=ql_line(ex,s,arr,e,L,cnt,0)
    return out
def ql_line(ex,st,arr,e,L,cnt,P):
    l=QL(ex,st,arr,e)
    return [(s,kd,l if kd=='ok' else x,simp(bv(cn,64)+P),simp(bv(cnt,64)+bv(cn,64)),0) for s,kd,x,cn in apply_outcomes(ex,st,l.outs(L))]
for k in('buffer','buffers'): QPACK['qpack::decoder::decode<%s>(%s&)'%(TNAME[k],TNAME[k])]=q_decode
# encoder::encode(header_view), over the contracts of its two parts as callers see them (a line is a function QN of name and value)
def qn_at(ex,st,h):
    k=[]
    for o in (0,16):
        p=ex.load(st,h.add(o),8,('ptr',)); l=simp(ex.load(st,h.add(o+8),8,('i',64))); kk=strkey(ex,st,p,l)
        if kk is None: return None
        k.append(tuple(kk)+(l,))
    return QN(ex,st,*k)
def q_state(ex,st,q,what):
    """[(state, prefix still ahead)]"""
    os,oc,pre,hdr=layout(ex,'vpoff_qpack_encoder_state','vpoff_qpack_encoder_count','vpval_qpack_encoder_prefix','vpval_qpack_encoder_header')
    stt=ex.load(st,q.add(os),4,('i',32))
    ex.oblige(st,simp(z3.Or(bv(stt,32)==pre,bv(stt,32)==hdr)),'precondition','QPACK encoder state')
    return [] if st.dead else ex.branch(st,simp(bv(stt,32)==pre))
def q_esize(ex,st,a,n):
    q,h=a; res=[]; x=qn_at(ex,st,h)
    if x is None: return []
    for s,t in ex.branch(st,x.low):
        if not t: res.append((s,ex.call1(s,'vpmk_u64_err',[MALFORMED_HEADER]))); continue
        for s2,pf in q_state(ex,s,q,n): res.append((s2,ex.call1(s2,'vpmk_u64_ok',[simp(x.size+(2 if pf else 0))])))
    return res
def q_encraw(ex,st,a,n):
    q,d,h=a; res=[]; x=qn_at(ex,st,h)
    os,oc,pre,hdr=layout(ex,'vpoff_qpack_encoder_state','vpoff_qpack_encoder_count','vpval_qpack_encoder_prefix','vpval_qpack_encoder_header')
    if x is None: return []
    for s,pf in q_state(ex,st,q,n):
        P=2 if pf else 0; size=simp(x.size+P); cnt=ex.load(s,q.add(oc),8,('i',64))
        ex.oblige(s,simp(z3.ULE(bv(cnt,64),1<<62)),'precondition','QPACK encoder count')
        write_seq(ex,s,d,size,lambda i,P=P: z3.If(z3.ULT(bv(i,64),P),z3.BitVecVal(0,8),x.byte(simp(bv(i,64)-P))) if P else x.byte(i))
        if s.dead: continue
        ex.store(s,q.add(os),4,hdr); ex.store(s,q.add(oc),8,simp(bv(cnt,64)+size))
        res.append((s,ex.call1(s,'vpmk_u64_ok',[size])))
    return res
def go_qbuf(ex):
    st=State(); q=QE(ex,st); np,nl=sym(ex,st,'name',()); vp,vl=sym(ex,st,'value',())
    x=QN(ex,st,strkey(ex,st,np,nl)+(nl,),strkey(ex,st,vp,vl)+(vl,)); what='qpack::encoder::encode'
    o=outp(ex,st); b=stackobj(ex,st,40,'result'); size=simp(x.size+q.P)
    byte=lambda i: z3.If(z3.ULT(bv(i,64),q.P),z3.BitVecVal(0,8),x.byte(simp(bv(i,64)-q.P)))
    for s,_ in ex.call(st,'vp_qpack_encode',[q.p,np,nl,vp,vl,b,o]):
        for s,t in ex.branch(s,x.low):
            if t:
                if ex.oblige(s,okflag(ex,s,o),'postcondition',what+' accepts lower-case names'):
                    bufpost(ex,s,b,size,byte,what); q.moved(ex,s,size,what)
            elif ex.oblige(s,simp(z3.Not(bl(okflag(ex,s,o)))),'postcondition',what+' refuses upper-case names'):
                ex.oblige(s,simp(bv(out(ex,s,o,-1),64)==MALFORMED_HEADER),'postcondition',what+': error code')
                q.same(ex,s,what)
QPARTS={'qpack::encoder::encoded_size(header_view) const':q_esize,'qpack::encoder::encode(u8*, header_view)':q_encraw}
Unit('qpack.encode',('C07','C08','C24'),go_qbuf,provides=('qpack::encoder::encode(header_view)',),contracts=BASE+(QPARTS,),unroll=8)
