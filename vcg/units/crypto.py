"""C26: HKDF-Expand-Label (RFC 8446 section 7.1) and the parameters of the cipher suites.  The key derivation functions
themselves come from a TLS library behind hkdf_expand / hkdf_extract: any result of theirs is passed on unchanged."""
from ..seq import *
from .body import lay
from .varint import BASE,bufpost
EXPAND='quic::crypto::hkdf_expand(buffer_view, buffer_view, u64)'; LABEL='quic::crypto::hkdf_expand_label(buffer_view, buffer_view, u64)'; EXTRACT='quic::crypto::hkdf_extract(buffer_view, buffer_view)'
MAXLABEL=246        # 2 + 1 + 6 + 246 + 1 = 256 bytes, the storage for the encoded label; every label in use has at most 11
def record(which):
    def h(ex,st,a,n):
        """notes the call; returns some buffer or some error"""
        dst,res=a[0],[]
        c=[]
        for i in range(2,len(a)-1,2):
            p,ln=a[i],simp(a[i+1]); o=None
            if isinstance(p,Ptr):
                o=ex.deref_n(st,p,ln,which+' input')
                if o is None or st.dead: return []
                o=ex.snapshot(st,o)
            c.append((p,ln,o))
        size=a[-1] if len(a)%2 else None
        f=st.fork()
        for s,ok in((st,True),(f,False)):
            if ok:
                k=ex.small(s,'out'); arr=ex.fresharr('derived'); o=content_obj(ex,s,k,lambda st_,i,arr=arr: z3.Select(arr,bv(i,64))); b=stackobj(ex,s,40,'derived'); setg(ex,s,b,GBuf(o.id,0,k))
                r=(k,arr); ex.call1(s,'vpmk_qbuffer_ok',[dst,b])
            else: r=ex.fresh('err',64); ex.call1(s,'vpmk_qbuffer_err',[dst,r])
            s.ghost['derived']=s.ghost.get('derived',())+((which,c,size,ok,r),)
            res.append((s,None))
        return res
    return h
def arg(ex,st,name,lim=None):
    n=ex.small(st,'n')
    if lim is not None: st.add(z3.ULE(n,lim))
    o=ex.newbytes(st,n,'input',name); ex.unit.inputs[name]=model_bytes(n,lambda i: ex.obyte(None,o,i)); ex.unit.inputs[name+'len']=n
    return Ptr(o.id,0),n,lambda i: ex.obyte(None,o,simp(bv(i,64)))
def new(ex,st,a=0,h=0):
    sz,=lay(ex,'vpsize_qcrypto'); p=stackobj(ex,st,sz,'crypto'); ex.call1(st,'vp_qc_new',[p,a,h]); return p
def given(ex,st,call,i,p,n,what):
    q,ln,_=call[1][i]
    ex.oblige(st,int(isinstance(q,Ptr) and q.obj==p.obj),'postcondition',what); 
    if not st.dead: ex.oblige(st,simp(z3.And(bv(q.off,64)==bv(p.off,64),bv(ln,64)==bv(n,64))),'postcondition',what)
def content(ex,st,call,i,n,at,what):
    q,ln,o=call[1][i]
    if not ex.oblige(st,simp(bv(ln,64)==bv(n,64)),'postcondition',what+': size'): return
    if isinstance(n,int):
        for j in range(n): ex.oblige(st,simp(bv(ex.obyte(st,o,simp(q.add(j).off)),8)==bv(at(j),8)),'postcondition',what+': bytes')
        return
    s=st.fork(); j=ex.fresh('j',64); mark_small(j); s.add(z3.ULT(j,bv(n,64)))
    ex.oblige(s,simp(bv(ex.obyte(s,o,simp(bv(q.off,64)+j)),8)==bv(at(j),8)),'postcondition',what+': bytes')
def passed_on(ex,st,o,b,call,what):
    ok,r=call[3],call[4]
    if ok:
        if ex.oblige(st,okflag(ex,st,o),'postcondition',what+': succeeds with the derivation'): bufpost(ex,st,b,r[0],lambda j: z3.Select(r[1],bv(j,64)),what+': the derived bytes')
    elif ex.oblige(st,simp(z3.Not(bl(okflag(ex,st,o)))),'postcondition',what+': fails with the derivation'):
        ex.oblige(st,simp(bv(out(ex,st,o,-1),64)==r),'postcondition',what+': its error')
def go_label(ex):
    what='hkdf_expand_label'; st=State(); c=new(ex,st); sp,sn,_=arg(ex,st,'secret'); lp,ln,lat=arg(ex,st,'label',MAXLABEL); size=ex.fresh('size',64); st.add(z3.ULT(size,1<<16)); ex.unit.inputs['size']=size
    o=outp(ex,st); b=stackobj(ex,st,40,'result'); T=b'tls13 '
    def info(j):
        j=bv(j,64); r=z3.BitVecVal(0,8)
        r=z3.If(z3.And(z3.UGE(j,9),z3.ULT(j,9+ln)),bv(lat(simp(j-9)),8),r)
        for k,ch in enumerate(T): r=z3.If(j==3+k,z3.BitVecVal(ch,8),r)
        return z3.If(j==0,z3.Extract(15,8,size),z3.If(j==1,z3.Extract(7,0,size),z3.If(j==2,z3.Extract(7,0,ln+6),r)))
    for s,_ in ex.call(st,'vp_qc_expand_label',[c,sp,sn,lp,ln,size,b,o]):
        d=s.ghost.get('derived',())
        if not ex.oblige(s,int(len(d)==1 and d[0][0]=='expand'),'postcondition',what+': one key expansion'): continue
        given(ex,s,d[0],0,sp,sn,what+': expands the secret')
        content(ex,s,d[0],1,simp(ln+10),info,what+': HkdfLabel')
        ex.oblige(s,simp(bv(d[0][2],64)==size),'postcondition',what+': output size'); passed_on(ex,s,o,b,d[0],what)
Unit('crypto.expand_label',('C26',),go_label,provides=(LABEL,),contracts=BASE+({EXPAND:record('expand')},))
KEY={0:16,1:32,2:32}; HASH={0:32,1:48}
def go_derive(ex):
    for a in KEY:
        for h in HASH:
            for f,label,size in(('client',b'client in',HASH[h]),('server',b'server in',HASH[h]),('update',b'traffic upd',None),('data',b'quic key',KEY[a]),('iv',b'quic iv',12),('hp',b'quic hp',KEY[a])):
                st=State(); c=new(ex,st,a,h); sp,sn,_=arg(ex,st,'secret',(1<<16)-1 if f=='update' else None); o=outp(ex,st); b=stackobj(ex,st,40,'result'); what='derivation of '+label.decode()
                for s,_ in ex.call(st,'vp_qc_'+f,[c,sp,sn,b,o]):
                    d=s.ghost.get('derived',())
                    if not ex.oblige(s,int(len(d)==1 and d[0][0]=='label'),'postcondition',what+': one labelled expansion'): continue
                    given(ex,s,d[0],0,sp,sn,what+': from the secret'); content(ex,s,d[0],1,len(label),lambda j: label[j],what+': label')
                    ex.oblige(s,simp(bv(d[0][2],64)==(sn if size is None else size)),'postcondition',what+': size'); passed_on(ex,s,o,b,d[0],what)
            st=State(); c=new(ex,st,a,h)
            for f,x,v in(('overhead',None,16),('hash_size',h,HASH[h]),('key_size',a,KEY[a]),('nonce_size',a,12)):
                ex.oblige(st,simp(bv(ex.call1(st,'vp_qc_'+f,[c]+([] if x is None else [x])),64)==v),'postcondition','cipher suite: '+f)
            # the three parts of a packet protection key
            st=State(); c=new(ex,st,a,h); sp,sn,_=arg(ex,st,'secret'); o=outp(ex,st); sz,=lay(ex,'vpsize_qkey'); k=stackobj(ex,st,sz,'key'); what='packet protection key'
            want={b'quic key':KEY[a],b'quic iv':12,b'quic hp':KEY[a]}
            for s,_ in ex.call(st,'vp_qc_key',[c,sp,sn,k,o]):
                d=s.ghost.get('derived',()); bad=[x for x in d if not x[3]]
                if bad:
                    if ex.oblige(s,simp(z3.Not(bl(okflag(ex,s,o)))),'postcondition',what+': fails with a derivation'): ex.oblige(s,simp(z3.Or([bv(out(ex,s,o,-1),64)==x[4] for x in bad])),'postcondition',what+': its error')
                    continue
                if not ex.oblige(s,okflag(ex,s,o),'postcondition',what+': succeeds with its derivations'): continue
                if not ex.oblige(s,int(len(d)==3),'postcondition',what+': three derivations'): continue
                by={}
                for x in d:
                    q,ln,ob=x[1][1]; t=bytes(simp(ex.obyte(s,ob,simp(q.add(j).off))) for j in range(ln)) if isinstance(ln,int) else None; by[t]=x
                    given(ex,s,x,0,sp,sn,what+': from the secret')
                if not ex.oblige(s,int(set(by)==set(want)),'postcondition',what+': labels'): continue
                for t,f in((b'quic key','data'),(b'quic iv','iv'),(b'quic hp','hp')):
                    x=by[t]; ex.oblige(s,simp(bv(x[2],64)==want[t]),'postcondition',what+': size of '+f)
                    o2=outp(ex,s); pp=stackobj(ex,s,8,'data'); ex.call1(s,'vp_qkey_'+f,[k,o2,pp]); n,arr=x[4]
                    if ex.oblige(s,simp(bv(out(ex,s,o2,0),64)==n),'postcondition',what+': part '+f):
                        t2=s.fork(); j=ex.fresh('j',64); mark_small(j); t2.add(z3.ULT(j,n)); p=ex.load(t2,pp,8,('ptr',))
                        if ex.feasible(t2): ex.oblige(t2,simp(bv(ex.load(t2,p.add(j),1,('i',8)),8)==z3.Select(arr,j)),'postcondition',what+': part '+f)
    st=State(); c=new(ex,st); sp,sn,_=arg(ex,st,'cid'); tp,tn,_=arg(ex,st,'salt'); o=outp(ex,st); b=stackobj(ex,st,40,'result'); what='initial secret'
    for s,_ in ex.call(st,'vp_qc_initial',[c,sp,sn,tp,tn,b,o]):
        d=s.ghost.get('derived',())
        if not ex.oblige(s,int(len(d)==1 and d[0][0]=='extract'),'postcondition',what+': one extraction'): continue
        given(ex,s,d[0],0,sp,sn,what+': of the connection id'); given(ex,s,d[0],1,tp,tn,what+': with the salt'); passed_on(ex,s,o,b,d[0],what)
Unit('crypto.derive',('C26',),go_derive,provides=tuple('quic::crypto::'+f for f in('update_secret(buffer_view)','client_initial_secret(buffer_view)','server_initial_secret(buffer_view)','initial_secret(buffer_view, buffer_view)','packet_protection_key(buffer_view)','packet_protection_data(buffer_view)','packet_protection_iv(buffer_view)','packet_protection_hp(buffer_view)','aead_overhead() const')),contracts=BASE+({LABEL:record('label'),EXTRACT:record('extract')},))
