"""C25: events keep their payload; views, header fields, addresses and frames report and compare their contents."""
from ..seq import *
from .body import lay
from .huffman import newstr
from .varint import bufpost
from .qpack import strpost
from .frame import TYPES,NF
# ---- events
def strin(ex,st,name):
    n=ex.small(st,'n'); o=ex.newbytes(st,n,'input',name); at=lambda i: ex.obyte(None,o,simp(bv(i,64)))
    ex.unit.inputs[name+'len']=n
    return n,at
def payload(ex,st,kind):
    """(constructor arguments after the event, numbers by index, check of the resource at event address p or None)"""
    if kind=='settings': v=[ex.fresh('s',64) for _ in range(4)]; return v,v,None
    if kind=='finished': v=[ex.fresh('id',64)]; return v,v,None
    if kind=='error':
        t=ex.fresh('type',64); st.add(z3.ULE(t,2)); i,v=ex.fresh('id',64),ex.fresh('value',64); return [t,i,v],[i,t,v],None
    i=ex.fresh('id',64); f=ex.fresh('fin',8); st.add(z3.ULE(f,1)); fin=simp(f==1)
    if kind=='header':
        on,ov,sz=lay(ex,'vpoff_header_name','vpoff_header_value','vpsize_header'); h=stackobj(ex,st,sz,'field'); fs=[]
        for off,nm in((on,'name'),(ov,'value')):
            n,at=strin(ex,st,nm); t=newstr(ex,st,n,at); g=getg(ex,st,t,GStr,nm); delg(ex,st,t); setg(ex,st,h.add(off),g); fs.append((off,n,at,nm))
        def chk(s,p,what):
            for off,n,at,nm in fs: strpost(ex,s,p.add(off),n,lambda j,at=at: bv(at(j),8),what+': '+nm)
        return [i,fin,h],[i,z3.ZeroExt(56,f)],chk
    n,at=strin(ex,st,'bytes'); o=content_obj(ex,st,n,lambda st_,i: bv(at(i),8)); b=stackobj(ex,st,40,'payload'); setg(ex,st,b,GBuf(o.id,0,n))
    return [i,fin,b],[i,z3.ZeroExt(56,f)],lambda s,p,what: bufpost(ex,s,p,n,lambda j: bv(at(j),8),what)
def held(s,*ps):
    """resources (strings, buffers) still held by the objects ps"""
    r=0
    for p in ps:
        for c,(n,v) in s.mem[p.obj].cells.items():
            if isinstance(v,Ghost): r+=1
    return r
def mk_event(cls,kind,code):
    def go(ex):
        st=State(); sz,=lay(ex,'vpsize_%s'%cls); what='%s (%s)'%({'hevent':'http3::event','qevent':'quic::event'}[cls],kind)
        args,nums,chk=payload(ex,st,kind); e=stackobj(ex,st,sz,'event'); d=stackobj(ex,st,sz,'moved to')
        off={'header':'vpoff_hevent_header','body':'vpoff_hevent_body','data':'vpoff_qevent_data'}.get(kind)
        off=lay(ex,off)[0] if off else 0
        strs0=set(i for i,o in st.mem.items() if o.kind=='strdata')
        def check(s,p,what):
            ex.oblige(s,simp(bv(ex.call1(s,'vp_%s_kind'%cls,[p]),64)==code),'postcondition',what+': type')
            for i,x in enumerate(nums): ex.oblige(s,simp(bv(ex.call1(s,'vp_%s_get'%cls,[p,i]),64)==bv(x,64)),'postcondition',what+': field %d'%i)
            if cls=='qevent': ex.oblige(s,simp(bv(ex.call1(s,'vp_qevent_id',[p]),64)==bv(nums[0],64)),'postcondition',what+': id')
            if chk: chk(s,p.add(off),what)
        for s,_ in ex.call(st,'vp_%s_%s'%(cls,kind),[e]+args):
            check(s,e,what+' construction')
            for s2,_ in ex.call(s.fork(),'vp_%s_delete'%cls,[e]): ex.oblige(s2,int(held(s2,e)==0),'postcondition',what+': destruction releases the payload')
            for s2,_ in ex.call(s,'vp_%s_move'%cls,[d,e]):
                check(s2,d,what+' move')
                for order in ((e,d),(d,e)):
                    f=s2.fork(); todo=[f]
                    for k,p in enumerate(order):
                        nxt=[]
                        for t in todo:
                            for t2,_ in ex.call(t,'vp_%s_delete'%cls,[p]):
                                ex.oblige(t2,int(held(t2,p)==0),'postcondition',what+': destruction after a move releases what is held')
                                if k==0 and p is e: check(t2,d,what+' after destruction of the source')
                                nxt.append(t2)
                        todo=nxt
    Unit('event.%s.%s'%(cls,kind),('C25',),go,provides=tuple('%s::event::%s'%(cls[0]=='h' and 'http3' or 'quic',f) for f in('event(event&&)','~event()','operator event::type() const','event(payload::%s)'%kind)),contracts=BASE_)
from .varint import BASE as BASE_
for k,c in(('settings',0),('header',1),('body',2),('finished',3)): mk_event('hevent',k,c)
for k,c in(('data',0),('error',1)): mk_event('qevent',k,c)
# ---- comparison
def eqpost(ex,st,r,pairs,what,neg=False):
    """r is true exactly when all pairs (n1,at1,n2,at2) agree in size and bytes"""
    one=0 if neg else 1
    r=bv(r,64); ex.oblige(st,simp(z3.ULE(r,1)),'postcondition',what+': a truth value')
    facts=st.ghost.get('memcmp_facts',())
    s=st.fork(); s.add(r==one)
    if ex.feasible(s):
        for n1,a1,n2,a2 in pairs:
            ex.oblige(s,simp(bv(n1,64)==bv(n2,64)),'postcondition',what+': equal only with equal sizes')
            t=s.fork(); j=ex.fresh('j',64); mark_small(j); t.add(z3.ULT(j,bv(n1,64)))
            for z,ln,A,B,w in facts: t.add(z3.Implies(z3.And(z==0,z3.ULT(j,bv(ln,64))),A(j)==B(j)))
            ex.oblige(t,simp(bv(a1(j),8)==bv(a2(j),8)),'postcondition',what+': equal only with equal bytes')
    s=st.fork(); s.add(r!=one)
    for n1,a1,n2,a2 in pairs:
        s.add(bv(n1,64)==bv(n2,64))
        for i in [w for *_,w in facts]: s.add(z3.Implies(z3.ULT(bv(i,64),bv(n1,64)),bv(a1(i),8)==bv(a2(i),8)))
        if isinstance(n1,int):
            for i in range(n1): s.add(bv(a1(i),8)==bv(a2(i),8))
    if ex.feasible(s): ex.oblige(s,0,'postcondition',what+': different only with different contents')
def bytesin(ex,st,name):
    n=ex.small(st,'n'); o=ex.newbytes(st,n,'input',name); ex.unit.inputs[name]=model_bytes(n,lambda i: ex.obyte(None,o,i)); ex.unit.inputs[name+'len']=n
    return Ptr(o.id,0),n,lambda i: ex.obyte(None,o,simp(bv(i,64)))
def peq(x,y): return int(isinstance(x,Ptr) and x.obj==y.obj) and simp(bv(x.off,64)==bv(y.off,64)) if isinstance(x,Ptr) and isinstance(y,Ptr) else int(x==y)
def viewpost(ex,st,k,v,p,n,what):
    """view v (of kind k) shows the n bytes at p"""
    c=lambda f,*a: ex.call1(st,'vp_%s_%s'%(k,f),[v,*a])
    for f in('data','begin'): ex.oblige(st,peq(c(f),p),'postcondition',what+': '+f)
    ex.oblige(st,peq(c('end'),p.add(n)),'postcondition',what+': end')
    ex.oblige(st,simp(bv(c('size'),64)==bv(n,64)),'postcondition',what+': size')
    ex.oblige(st,simp((bv(c('empty'),64)==1)==(bv(n,64)==0)),'postcondition',what+': empty')
def go_views(ex):
    for k in('sv','bv','bm'):
        nm={'sv':'string_view','bv':'buffer_view','bm':'buffer_view_mut'}[k]; st=State(); sz,=lay(ex,'vpsize_sview'); v=stackobj(ex,st,sz,'view'); p,n,at=bytesin(ex,st,'bytes')
        ex.call1(st,'vp_%s_new'%k,[v,p,n]); viewpost(ex,st,k,v,p,n,nm)
        if k=='bm':
            r=stackobj(ex,st,sz,'view'); ex.call1(st,'vp_bm_view',[v,r]); viewpost(ex,st,'bv',r,p,n,nm+' as buffer_view'); continue
        s=st.fork(); i=ex.small(s,'i'); s.add(z3.ULT(i,n))
        ex.oblige(s,simp(bv(ex.call1(s,'vp_%s_at'%k,[v,i]),8)==bv(at(i),8)),'postcondition',nm+'[]')
        ex.oblige(s,simp(bv(ex.call1(s,'vp_%s_star'%k,[v]),8)==bv(at(0),8)),'postcondition','*'+nm)
        w=stackobj(ex,st,sz,'view'); p2,n2,at2=bytesin(ex,st,'other'); ex.call1(st,'vp_%s_new'%k,[w,p2,n2])
        for f in('eq','ne'):
            for s,r in ex.call(st.fork(),'vp_%s_%s'%(k,f),[v,w]): eqpost(ex,s,r,[(n,at,n2,at2)],nm+{'eq':' ==','ne':' !='}[f],f=='ne')
Unit('values.views',('C25',),go_views,provides=('string_view','buffer_view','buffer_view_mut'),contracts=())
def go_header(ex):
    st=State(); vs,=lay(ex,'vpsize_sview'); hs,=lay(ex,'vpsize_hview'); H=[]
    for x in 'ab':
        h=stackobj(ex,st,hs,'field'); a=bytesin(ex,st,'name_'+x); b=bytesin(ex,st,'value_'+x); ex.call1(st,'vp_hv_new',[h,a[0],a[1],b[0],b[1]]); H.append((h,a,b))
        for f,c in(('name',a),('value',b)):
            r=stackobj(ex,st,vs,'view'); ex.call1(st,'vp_hv_'+f,[h,r]); viewpost(ex,st,'sv',r,c[0],c[1],'header_view::'+f)
    (h1,a1,b1),(h2,a2,b2)=H
    for f in('eq','ne'):
        for s,r in ex.call(st.fork(),'vp_hv_'+f,[h1,h2]): eqpost(ex,s,r,[(a1[1],a1[2],a2[1],a2[2]),(b1[1],b1[2],b2[1],b2[2])],'header_view'+{'eq':' ==','ne':' !='}[f],f=='ne')
    st=State(); sz,=lay(ex,'vpsize_header'); h=stackobj(ex,st,sz,'header'); fs=[]; ss=[]
    for nm in('name','value'): n,at=strin(ex,st,nm); ss.append(newstr(ex,st,n,at)); fs.append((nm,n,at))
    for s,_ in ex.call(st,'vp_h_new',[h]+ss):
        hv=stackobj(ex,s,hs,'field'); ex.call1(s,'vp_h_view',[h,hv])
        for nm,n,at in fs:
            for o,f,how in((h,'vp_h_'+nm,'header::'+nm),(hv,'vp_hv_'+nm,'header as header_view: '+nm)):
                r=stackobj(ex,s,vs,'view'); ex.call1(s,f,[o,r])
                ex.oblige(s,simp(bv(ex.call1(s,'vp_sv_size',[r]),64)==bv(n,64)),'postcondition',how+': size')
                t=s.fork(); j=ex.fresh('j',64); mark_small(j); t.add(z3.ULT(j,bv(n,64)))
                if t.dead or not ex.feasible(t): continue
                ex.oblige(t,simp(bv(ex.call1(t,'vp_sv_at',[r,j]),8)==bv(at(j),8)),'postcondition',how+': characters')
Unit('values.header',('C25',),go_header,provides=('header_view','header'),contracts=BASE_)
def go_frame(ex):
    sz,=lay(ex,'vpsize_frame')
    for a in TYPES:
        for b in TYPES:
            st=State(); x=stackobj(ex,st,sz,'a'); y=stackobj(ex,st,sz,'b'); F=[]
            for p,t in((x,a),(y,b)):
                if t=='priority':
                    fs=[ex.fresh('f',w) for w in(8,8,64,64,8)]; st.add(z3.ULE(fs[0],3)); st.add(z3.ULE(fs[1],3))
                else: fs=[ex.fresh('f',64) for _ in range(NF[t])]
                ex.call1(st,'vp_frame_mk_'+t,[p]+fs); F.append(fs)
                ex.oblige(st,simp(bv(ex.call1(st,'vp_frame_type',[p]),64)==TYPES[t]),'postcondition','frame: type of what it was built from')
                for i,f in enumerate(fs): ex.oblige(st,simp(bv(ex.call1(st,'vp_frame_get_'+t,[p,i]),64)==(z3.ZeroExt(64-f.size(),f) if f.size()<64 else f)),'postcondition','frame: field of what it was built from')
            e=z3.And([f==g for f,g in zip(*F)]) if a==b else z3.BoolVal(False)
            for f in('eq','ne'):
                for s,r in ex.call(st.fork(),'vp_frame_'+f,[x,y]): ex.oblige(s,simp(bl(r if not isinstance(r,z3.BitVecRef) else r==1)==(e if f=='eq' else z3.Not(e))),'postcondition','frames are equal exactly when type and fields are')
Unit('values.frame',('C25',),go_frame,provides=('operator==(frame const&, frame const&)','operator!=(frame const&, frame const&)','frame::frame'),contracts=())
def go_addr(ex):
    s4,s6,sa,sv,se=lay(ex,'vpsize_ipv4','vpsize_ipv6','vpsize_address','vpsize_bview','vpsize_endpoint')
    def read(st,f,p,n,by,what):
        """p reports the n bytes by"""
        r=stackobj(ex,st,sv,'view'); ex.call1(st,f,[p,r]); d=ex.load(st,r,8,('ptr',))
        d=ex.call1(st,'vp_bv_data',[r]); k=ex.call1(st,'vp_bv_size',[r])
        if ex.oblige(st,simp(bv(k,64)==n),'postcondition',what+': size'):
            for i in range(n): ex.oblige(st,simp(bv(ex.load(st,d.add(i),1,('i',8)),8)==bv(by[i],8)),'postcondition',what+': bytes')
    def src(st,n):
        by=[ex.fresh('b',8) for _ in range(n)]; o=ex.newobj(st,n,'input','bytes')
        for i,b in enumerate(by): ex.store_o(st,ex.wobj(st,o.id),i,1,b)
        return Ptr(o.id,0),by
    def v4(st,how):
        a=stackobj(ex,st,s4,'v4')
        if how=='int': x=ex.fresh('x',32); ex.call1(st,'vp_v4_int',[a,x]); by=[z3.Extract(8*i+7,8*i,x) for i in range(4)]
        else: p,by=src(st,4); ex.call1(st,'vp_v4_'+how,[a,p]+([4] if how=='view' else []))
        return a,by
    def v6(st,how): a=stackobj(ex,st,s6,'v6'); p,by=src(st,16); ex.call1(st,'vp_v6_'+how,[a,p]+([16] if how=='view' else [])); return a,by
    for how in('int','bytes','view'): st=State(); a,by=v4(st,how); read(st,'vp_v4_get',a,4,by,'ipv4 address from '+how)
    for how in('bytes','view'): st=State(); a,by=v6(st,how); read(st,'vp_v6_get',a,16,by,'ipv6 address from '+how)
    def addr(st,how):
        a=stackobj(ex,st,sa,'address')
        if how=='none': ex.call1(st,'vp_addr_new',[a]); return a,4,[0]*4
        if how=='v4': b,by=v4(st,'bytes'); ex.call1(st,'vp_addr_v4',[a,b]); return a,4,by
        if how=='v6': b,by=v6(st,'bytes'); ex.call1(st,'vp_addr_v6',[a,b]); return a,16,by
        n=4 if how=='view4' else 16; p,by=src(st,n); ex.call1(st,'vp_addr_view',[a,p,n]); return a,n,by
    HOW=('none','v4','v6','view4','view16')
    for how in HOW:
        st=State(); a,n,by=addr(st,how); what='ip::address (%s)'%how
        c=stackobj(ex,st,sa,'copy'); ex.call1(st,'vp_addr_copy',[c,a])
        port=ex.fresh('port',16); e=stackobj(ex,st,se,'endpoint'); ex.call1(st,'vp_ep_new',[e,a,port])
        for x,w in((a,what),(c,what+' copy'),(ex.call1(st,'vp_ep_address',[e]),'endpoint of '+what)):
            read(st,'vp_addr_get',x,n,by,w); ex.oblige(st,simp(bv(ex.call1(st,'vp_addr_type',[x]),64)==(4 if n==4 else 6)),'postcondition',w+': type')
        ex.oblige(st,simp(bv(ex.call1(st,'vp_ep_port',[e]),16)==port),'postcondition','endpoint: port')
        for how2 in HOW:
            s=st.fork(); b,m,by2=addr(s,how2)
            e_=z3.And([bv(x,8)==bv(y,8) for x,y in zip(by,by2)]) if n==m else z3.BoolVal(False)
            for t,r in ex.call(s,'vp_addr_eq',[a,b]): ex.oblige(t,simp((bv(r,64)==1)==e_),'postcondition','addresses are equal exactly when their bytes are')
Unit('values.address',('C25',),go_addr,provides=('ip::address','ipv4::address','ipv6::address','ip::endpoint'),contracts=())
