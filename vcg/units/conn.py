"""C21 / C22: connections.  The request map is abstract: a map of any size of which an operation sees the entries it asks
for, each in an arbitrary state (an entry that was not asked for cannot be reached).  Control streams, senders and receivers
are represented by the contracts that C18-C20 establish; every call on one is noted with its arguments and result, and the
postconditions say exactly which calls there are, on which objects, and what becomes of their results.  The loop over the
requests in send is cut at the iterator: an arbitrary entry, everything as it was before the loop, the step to the next
entry being allowed only after an entry with nothing to send."""
import re
from ..seq import *
from ..exec import Ghost
from .varint import BASE
from .qpack import QPACK
from .frame import FRAME
from .huffman import newstr
from .body import lay,fails,succeeds,byteat,INTERNAL,IDLE
from .request import UNEXPECTED,WRONG_STREAM,NOT_IMPLEMENTED
DEPS=BASE+(FRAME,QPACK)
INC=1<<62; CLOSED=INC+6
PEER={'client':3,'server':2}
class GMap(Ghost):
    """a std::map: entries seen (key, node), keys known to be absent, whether there may be others"""
    nbytes=48
    def __init__(s,known=(),absent=(),rest=True): s.known=tuple(known); s.absent=tuple(absent); s.rest=rest
    def same(s,o): return s is o or (s.known==o.known and s.absent==o.absent and s.rest==o.rest)
    def __repr__(s): return 'GMap%r'%((s.known,s.absent,s.rest),)
    def havoc(s,ex,st): raise Unsupported('loop changes the request map')
HEAD=32     # bytes of a node before its entry
def method(short):
    d=0
    for i,c in enumerate(short):
        if c=='<': d+=1
        elif c=='>':
            d-=1
            if d==0: break
    r=short[i+3:]; return re.match(r'[~\w]+(=)?',r).group(0),r
class M:
    """a connection of a role with an arbitrary request map"""
    def __init__(s,ex,st,role,handles):
        s.ex=ex; s.role=role; s.handles=handles
        sz,s.om,s.ocs,s.ocr,s.op,s.ol=lay(ex,*['vp%s_conn_%s%s'%(a,role,b) for a,b in(('size',''),('off','_requests'),('off','_csender'),('off','_crecv'),('off','_peer'),('off','_local'))])
        s.esz,s.es,s.er=lay(ex,'vpsize_entry_'+role,'vpoff_entry_%s_sender'%role,'vpoff_entry_%s_receiver'%role)
        s.sos,s.soi,s.soh,s.ros,s.roi,s.hsz,s.hi,s.hs=lay(ex,'vpoff_rsender_state','vpoff_rsender_id','vpoff_rsender_handle','vpoff_rrecv_state','vpoff_rrecv_id','vpsize_rhandle','vpoff_rhandle_id','vpoff_rhandle_sender')
        s.S=dict(zip(('headers','body','fin'),lay(ex,*['vpval_rsender_'+x for x in('headers','body','fin')])))
        s.R=dict(zip(('closed','headers','body','fin'),lay(ex,*['vpval_rrecv_'+x for x in('closed','headers','body','fin')])))
        s.od,s.of,s.ob=lay(ex,'vpoff_qdata_id','vpoff_qdata_fin','vpoff_qdata_buffer'); s.ssz,=lay(ex,'vpsize_settings')
        ex.contract_res=[(re.compile(r'^std::map<u64, std::pair<%s::stream::request::sender'%role),s.h_map),(re.compile(r'^std::_Rb_tree_iterator<std::pair<u64 const, std::pair<%s::stream::request::sender.*::operator\+\+\('%role),s.h_next)]; ex._cres={}
        ex.assumptions.add('std::map behaves as the C++ standard says: each key once, an operation concerns only the entries it names, iteration visits every entry once'); ex.assumptions.add('a client opens fewer than 2^60 requests')
        s.p=stackobj(ex,st,sz,'connection'); ex.call1(st,'vp_conn_new_'+role,[s.p]); s.m=s.p.add(s.om); s.next=None
        s.csend=s.p.add(s.ocs); s.crecv=s.p.add(s.ocr)
        if role=='client':
            s.onext,=lay(ex,'vpoff_conn_client_next'); s.next=ex.fresh('next',64); st.add(z3.ULE(s.next,1<<62)); st.add(z3.Extract(1,0,s.next)==0); ex.store(st,s.p.add(s.onext),8,s.next); ex.unit.inputs['next']=s.next
        s.peer=[ex.fresh('peer',64) for _ in range(s.ssz//8)]
        for i,x in enumerate(s.peer): ex.store(st,s.p.add(s.op+8*i),8,x)
        setg(ex,st,s.m,GMap()); st.ghost['log']=()
    # ---- the map
    def entry(s,st,key):
        """an entry of the initial map, in any state"""
        ex=s.ex; st.add(z3.Extract(1,1,key)==0)
        if s.next is not None: st.add(z3.And(z3.ULT(key,s.next),z3.Extract(1,0,key)==0))
        if st.dead or not ex.feasible(st): return None
        o=ex.newobj(st,HEAD+s.esz,'heap','entry'); p=Ptr(o.id,HEAD); ex.call1(st,'vp_entry_new_'+s.role,[p,key])
        a=ex.fresh('sstate',8); b=ex.fresh('rstate',8); st.add(z3.Or([a==v for v in s.S.values()])); st.add(z3.Or([b==v for v in s.R.values()]))
        ex.store(st,p.add(s.es+s.sos),1,a); ex.store(st,p.add(s.er+s.ros),1,b); h=None
        if s.handles: h=stackobj(ex,st,s.hsz,'handle'); ex.call1(st,'vp_rhandle_new0',[h]); ex.store(st,h.add(s.hi),8,key); ex.store(st,h.add(s.hs),8,p.add(s.es)); ex.store(st,p.add(s.es+s.soh),8,h)
        g=getg(ex,st,s.m,GMap,'map'); setg(ex,st,s.m,GMap(g.known+((key,o.id),),g.absent,g.rest))
        st.ghost['entries']=st.ghost.get('entries',())+((o.id,key,a,b,h),)
        return o.id
    def locate(s,st,m,key):
        """(state, node or None)"""
        ex=s.ex; g=getg(ex,st,m,GMap,'map'); out=[]; key=bv(key,64)
        if g is None: return out
        cur=[st]
        for k,o in g.known:
            nxt=[]
            for x in cur:
                for y,e in ex.branch(x,simp(bv(k,64)==key)): (out.append((y,o)) if e else nxt.append(y))
            cur=nxt
        for k in g.absent:
            nxt=[]
            for x in cur:
                for y,e in ex.branch(x,simp(bv(k,64)==key)): (out.append((y,None)) if e else nxt.append(y))
            cur=nxt
        for x in cur:
            if g.rest:
                y=x.fork(); o=s.entry(y,key)
                if o is not None: out.append((y,o))
            setg(ex,x,m,GMap(g.known,g.absent+(key,),g.rest)); out.append((x,None))
        return out
    def add(s,st,m,key,fill):
        ex=s.ex; o=ex.newobj(st,HEAD+s.esz,'heap','entry'); fill(st,Ptr(o.id,HEAD)); g=getg(ex,st,m,GMap,'map')
        setg(ex,st,m,GMap(g.known+((key,o.id),),[k for k in g.absent if ex.prove(st,bv(k,64)!=bv(key,64))],g.rest)); st.ghost['added']=st.ghost.get('added',())+((o.id,key),)
        return o.id
    def remove(s,st,m,o):
        ex=s.ex; ex.call1(st,'vp_entry_delete_'+s.role,[Ptr(o,HEAD)]); del st.mem[o]; g=getg(ex,st,m,GMap,'map'); key=[k for k,x in g.known if x==o][0]
        setg(ex,st,m,GMap([x for x in g.known if x[1]!=o],g.absent+(key,),g.rest)); st.ghost['erased']=st.ghost.get('erased',())+(o,)
    def h_map(s,ex,st,a,n):
        f,rest=method(ex.prog.short(n)); m=a[0]; end=lambda m: m.add(8)
        if f=='map':
            if rest=='map()': setg(ex,st,m,GMap(rest=False)); return None
            raise Unsupported('request map: '+rest)
        if f=='~map':
            delg(ex,st,m); return None
        if f=='end' or f=='cend': return end(m)
        rd=lambda: ex.load(st,a[1],8,('i',64))
        if f=='find': return [(x,end(m) if o is None else Ptr(o,0)) for x,o in s.locate(st,m,rd())]
        if f in('count','contains'): return [(x,int(o is not None)) for x,o in s.locate(st,m,rd())]
        if f=='at':
            res=[]
            for x,o in s.locate(st,m,rd()):
                if o is None: ex.violate(x,'exception','map::at of a missing key')
                else: res.append((x,Ptr(o,HEAD+8)))
            return res
        if f=='erase' and 'u64 const&' in rest[:20]:
            res=[]
            for x,o in s.locate(st,m,rd()):
                if o is not None: s.remove(x,m,o)
                res.append((x,int(o is not None)))
            return res
        if f=='erase' and isinstance(a[1],Ptr):
            g=getg(ex,st,m,GMap,'map')
            if a[1].obj not in [o for _,o in g.known]: ex.violate(st,'memory','map::erase of what is not an entry'); return []
            s.remove(st,m,a[1].obj); return ex.fresh('iterator',64)
        if f in('insert','emplace','try_emplace') and (len(a)==2 or len(a)==3 and f!='insert'):
            key=ex.load(st,a[1],8,('i',64)); res=[]
            if len(a)==2: fill=lambda x,p: ex.call1(x,'vp_entry_move_'+s.role,[p,a[1]])
            else: fill=lambda x,p: ex.call1(x,'vp_entry_emplace_'+s.role,[p,a[1],a[2]])
            for x,o in s.locate(st,m,key):
                if o is not None: res.append((x,(Ptr(o,0),0)))
                else: res.append((x,(Ptr(s.add(x,m,key,fill),0),1)))
            return res
        if f in('size','empty'):
            g=getg(ex,st,m,GMap,'map'); n=len(g.known)
            if g.rest or g.absent:
                # the number of entries at the start, those seen among them; every one added and erased since counted
                n0=st.ghost.get('size0')
                if n0 is None: n0=ex.small(st,'entries'); st.ghost['size0']=n0
                add=len(st.ghost.get('added',())); gone=len(st.ghost.get('erased',())); old=len(st.ghost.get('entries',()))
                st.add(z3.UGE(n0,old)); n=simp(n0+bv(add,64)-bv(gone,64)) if add or gone else n0
                if st.dead or not ex.feasible(st): return []
                if not g.rest: n=len(g.known)
            return n if f=='size' else simp(z3.If(bv(n,64)==0,z3.BitVecVal(1,1),z3.BitVecVal(0,1)))
        if f=='begin':
            g=getg(ex,st,m,GMap,'map')
            if g.known or 'loop' in st.ghost: raise Unsupported('second iteration over the request map')
            x=st.fork(); setg(ex,x,m,GMap(rest=False)); x.ghost['loop']='end'; res=[(x,end(m))]
            if g.rest:
                y=st.fork(); o=s.entry(y,ex.fresh('key',64))
                if o is not None: y.ghost['loop']=(dict(y.mem),o,len(y.ghost['log'])); y.owner=object(); res.append((y,Ptr(o,0)))
            return res
        raise Unsupported('request map: '+rest)
    def h_next(s,ex,st,a,n):
        """step to the next entry: the loop continues only past an entry with nothing to send and leaves everything as it was"""
        it=ex.load(st,a[0],8,('ptr',)); lp=st.ghost.get('loop'); post='(int)' in n or n.endswith('Ei')
        if not isinstance(lp,tuple) or not isinstance(it,Ptr) or it.obj!=lp[1]: raise Unsupported('iteration over the request map')
        mem,o,nlog=lp; new=st.ghost['log'][nlog:]; e=[x for x in st.ghost['entries'] if x[0]==o][0]; what='send: an entry that is passed over'
        fin=simp(e[2]==s.S['fin'])
        if not new: ex.oblige(st,fin,'loop-invariant',what+' has sent everything')
        elif ex.oblige(st,int(len(new)==1 and new[0][0]=='rsend' and new[0][1].obj==o),'loop-invariant',what+' was asked once'):
            r=new[0][2]; ex.oblige(st,simp(bv(r[1],64)==IDLE) if r[0]=='err' else 0,'loop-invariant',what+' had nothing to send')
        if st.dead: return []
        for i,old in mem.items():
            cur=st.mem.get(i)
            if cur is old: continue
            if cur is None: raise Unsupported('loop over the request map frees memory')
            mine=i in(s.p.obj,o)
            if cur.log is not old.log or cur.base is not old.base: 
                raise Unsupported('loop over the request map changes memory')
            for off,(nb,v) in old.cells.items():
                if i==a[0].obj and off==a[0].off: continue
                w=cur.cells.get(off); same=w is not None and w[0]==nb and sameval(ex,st,v,w[1])
                if not same:
                    if not mine: raise Unsupported('loop over the request map carries state')
                    if not ex.oblige(st,0,'loop-invariant',what+' is left as it was'): return []
        st.ghost['loop']='end'
        ex.store(st,a[0],8,s.m.add(8))
        return it if post else a[0]
    # ---- contracts of the streams
    def table(s):
        T={}; E='endpoint::stream::'
        T[E+'control::sender::send()']=s.h_send('csend'); T[E+'request::sender::send()']=s.h_send('rsend')
        T[E+'control::receiver::recv(quic::data)']=s.h_recv('crecv'); T[E+'request::receiver::recv(quic::data)']=s.h_recv('rrecv')
        T[E+'control::receiver::process()']=s.h_process('cprocess'); T[E+'request::receiver::process()']=s.h_process('rprocess')
        return T
    def note(s,st,*x): st.ghost['log']=st.ghost['log']+(x,)
    def errs(s,st,dst,mk,op,this,idle):
        """fails with the given error or with another one, changing nothing"""
        ex=s.ex; out=[]
        for k in(0,1):
            y=st.fork(); e=idle if k==0 else ex.fresh('err',64)
            if k: y.add(e!=idle)
            ex.call1(y,mk,[dst,e]); s.note(y,op,this,('err',e)); out.append((y,None))
        return out
    def h_send(s,op):
        def h(ex,st,a,n):
            dst,this=a; out=[]
            if op=='rsend':
                cur=byteat(ex,st,this.add(s.sos),1); cases=ex.branch(st,simp(bv(cur,8)==s.S['fin']))
            else: cases=[(st,0)]
            for x,fin in cases:
                if fin: ex.call1(x,'vpmk_qevent_err',[dst,INTERNAL]); s.note(x,op,this,('err',INTERNAL)); out.append((x,None)); continue
                out+=s.errs(x,dst,'vpmk_qevent_err',op,this,IDLE)
                k=ex.small(x,'n'); c=ex.newbytes(x,k,'input','sent'); b=stackobj(ex,x,40,'sent'); setg(ex,x,b,GBuf(c.id,0,k)); f=0; i=ex.fresh('sid',64)
                if op=='rsend':
                    f=ex.fresh('sfin',8); ns=ex.fresh('sstate',8); x.add(z3.Or([ns==v for v in s.S.values()])); x.add(z3.ULE(f,1)); x.add((f==1)==(ns==s.S['fin'])); ex.store(x,this.add(s.sos),1,ns)
                    i=ex.load(x,this.add(s.soi),8,('i',64)); f=z3.ZeroExt(56,f)
                ex.call1(x,'vpmk_qevent_ok',[dst,i,f,b]); s.note(x,op,this,('ok',i,f,c.id,k)); out.append((x,None))
            return out
        return h
    def h_recv(s,op):
        def h(ex,st,a,n):
            this,d=a; i=ex.load(st,d.add(s.od),8,('i',64)); f=byteat(ex,st,d.add(s.of),1); g=getg(ex,st,d.add(s.ob),GBuf,'data')
            if g is None: return []
            setg(ex,st,d.add(s.ob),GBuf(None,0,0)); y=st.fork(); e=ex.fresh('err',64)
            s.note(y,op,this,(i,f,g),('err',e)); s.note(st,op,this,(i,f,g),('ok',))
            return [(st,ex.call1(st,'vpmk_void_ok',[])),(y,ex.call1(y,'vpmk_void_err',[e]))]
        return h
    def h_process(s,op):
        def h(ex,st,a,n):
            dst,this=a; out=s.errs(st,dst,'vpmk_event_err',op,this,INC)
            kinds=('settings',) if op=='cprocess' else ('header','body','finished')
            for k in kinds:
                x=st.fork(); r=s.make(x,dst,k,ex.load(x,this.add(s.roi),8,('i',64)) if op=='rprocess' else None)
                if op=='rprocess': ns=ex.fresh('rstate',8); x.add(z3.Or([ns==v for v in s.R.values()])); ex.store(x,this.add(s.ros),1,ns)
                s.note(x,op,this,r); out.append((x,None))
            return out
        return h
    def make(s,x,dst,k,i): return make_event(s.ex,x,dst,k,i,s.ssz)
def make_event(ex,x,dst,k,i,ssz):
    """a successful result holding that kind of event"""
    if k=='settings':
        v=[ex.fresh('setting',64) for _ in range(ssz//8)]; p=stackobj(ex,x,ssz,'settings')
        for j,t in enumerate(v): ex.store(x,p.add(8*j),8,t)
        ex.call1(x,'vpmk_event_settings',[dst,p]); return ('settings',v)
    if k=='finished': ex.call1(x,'vpmk_event_finished',[dst,i]); return ('finished',i)
    f=ex.fresh('efin',64); x.add(z3.ULE(f,1))
    if k=='body':
        n=ex.small(x,'n'); c=ex.newbytes(x,n,'input','bytes'); b=stackobj(ex,x,40,'bytes'); setg(ex,x,b,GBuf(c.id,0,n)); ex.call1(x,'vpmk_event_body',[dst,i,f,b]); return ('body',i,f,c.id,n)
    ss=[]; ids=[]
    for nm in('name','value'):
        n=ex.small(x,nm); arr=ex.fresharr(nm); b=newstr(ex,x,n,lambda j,arr=arr: z3.Select(arr,bv(j,64))); ss.append(b); ids.append(getg(ex,x,b,GStr,'field'))
    hs,=lay(ex,'vpsize_header'); h=stackobj(ex,x,hs,'field'); ex.call1(x,'vp_header_make',[h]+ss); ex.call1(x,'vpmk_event_header',[dst,i,f,h]); return ('header',i,f)+tuple(ids)
def eq(ex,st,a,b,what): return ex.oblige(st,simp(bv(a,64)==bv(b,64)),'postcondition',what)
def sent(ex,s,o,b,r,what):
    """the result is that of the stream, unchanged"""
    if r[0]=='err': return fails(ex,s,o,r[1],what+': the error of the stream')
    if not succeeds(ex,s,o,what): return False
    eq(ex,s,out(ex,s,o,0),0,what+': a data event'); eq(ex,s,out(ex,s,o,1),r[1],what+': stream id'); eq(ex,s,out(ex,s,o,2),r[2],what+': end mark')
    if s.dead: return False
    return buf(ex,s,b,r[3],r[4],what)
def buf(ex,s,b,obj,n,what):
    g=getg(ex,s,b,GBuf,what)
    if g is None: return False
    if g.obj!=obj:
        return ex.oblige(s,0,'postcondition',what+': the bytes')
    return eq(ex,s,g.off,0,what+': the bytes') and eq(ex,s,g.ln,n,what+': the bytes')
def happened(ex,s,o,h,b,r,what):
    """the result is that event or error"""
    if r[0]=='err': return fails(ex,s,o,r[1],what+': the error of the stream')
    if not succeeds(ex,s,o,what): return False
    if not eq(ex,s,out(ex,s,o,0),('settings','header','body','finished').index(r[0]),what+': kind of event'): return False
    if r[0]=='settings':
        for j,v in enumerate(r[1][:4]): eq(ex,s,out(ex,s,o,1+j),v,what+': settings')
        return not s.dead
    eq(ex,s,out(ex,s,o,1),r[1],what+': stream id')
    if r[0]=='finished': return not s.dead
    eq(ex,s,out(ex,s,o,2),r[2],what+': end mark')
    if s.dead: return False
    if r[0]=='body': return buf(ex,s,b,r[3],r[4],what)
    on,ov=lay(ex,'vpoff_header_name','vpoff_header_value')
    for off,w in((on,r[3]),(ov,r[4])):
        g=getg(ex,s,h.add(off),GStr,what)
        if g is None: return False
        j=ex.fresh('j',64); mark_small(j); eq(ex,s,g.ln,w.ln,what+': the field'); t=s.fork(); t.add(z3.ULT(j,bv(w.ln,64)))
        if not t.dead and ex.feasible(t): ex.oblige(t,simp(bv(g.at(ex,t,j),8)==bv(w.at(ex,t,j),8)),'postcondition',what+': the field')
    return not s.dead
def sameval(ex,st,a,b):
    if a is b: return True
    if isinstance(a,Ghost): return isinstance(b,Ghost) and type(a) is type(b) and a.same(b)
    if isinstance(a,Ptr) or isinstance(b,Ptr): return isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj and bool(ex.prove(st,simp(bv(a.off,64)==bv(b.off,64))))
    if isinstance(a,int) and isinstance(b,int): return a==b
    try: return ex.prove(st,simp(bv(a,b.size() if not isinstance(b,int) else a.size())==bv(b,a.size() if not isinstance(a,int) else b.size()))) is True
    except Exception: return False
def others(ex,s,m,obj,what,erased=()):
    """every entry but that one is as it was, and exactly the given ones are gone"""
    ex.oblige(s,int(tuple(s.ghost.get('erased',()))==tuple(erased)),'postcondition',what+': no other entry is dropped')
    if s.dead: return
    for o,key,a,b,h in s.ghost.get('entries',()):
        if o==obj or o in erased: continue
        p=Ptr(o,HEAD); ex.oblige(s,simp(bv(byteat(ex,s,p.add(m.es+m.sos),1),8)==a),'postcondition',what+': other entries as they were'); ex.oblige(s,simp(bv(byteat(ex,s,p.add(m.er+m.ros),1),8)==b),'postcondition',what+': other entries as they were')
    for j,x in enumerate(m.peer): eq(ex,s,ex.load(s,m.p.add(m.op+8*j),8,('i',64)),m.peer[j] if 'peer' not in s.ghost else s.ghost['peer'][j],what+': settings of the peer')
def entry_of(s,o): return [x for x in s.ghost.get('entries',()) if x[0]==o][0]
def recv_state(ex,s,m,o,v,what): ex.oblige(s,simp(bv(byteat(ex,s,Ptr(o,HEAD+m.er+m.ros),1),8)==v),'postcondition',what)
def known(ex,s,m): return dict((o,k) for k,o in getg(ex,s,m.m,GMap,'map').known)
def kept_ids(ex,s,m,what):
    """invariant of the entries"""
    for o,k in known(ex,s,m).items():
        for off in(m.es+m.soi,m.er+m.roi): eq(ex,s,ex.load(s,Ptr(o,HEAD+off),8,('i',64)),k,what+': stream id of an entry is its key')
        if s.dead: return
        if m.role=='client': ex.oblige(s,simp(z3.And(z3.ULT(bv(k,64),bv(ex.load(s,m.p.add(m.onext),8,('i',64)),64)),z3.Extract(1,0,bv(k,64))==0)),'postcondition',what+': ids in use are multiples of four below the next one')
def world(ex,role):
    for handles in(False,True):
        st=State(); m=M(ex,st,role,handles); ex.contracts.update(m.table()); ex._cres={}
        yield st,m
def at(x,p): return isinstance(x,Ptr) and x.obj==p.obj and simp(bv(x.off,64)==bv(p.off,64))
def isp(ex,s,x,p,what): return ex.oblige(s,at(x,p) if isinstance(x,Ptr) and x.obj==p.obj else 0,'postcondition',what)
def mk_send(role):
    def go(ex):
        for st,m in world(ex,role):
            o=outp(ex,st); b=stackobj(ex,st,40,'bytes'); what='%s connection::send'%role
            for s,_ in ex.call(st,'vp_conn_send_'+role,[m.p,b,o]):
                log=s.ghost['log']
                if not ex.oblige(s,int(len(log)>=1 and log[0][0]=='csend'),'postcondition',what+': the control stream first'): continue
                isp(ex,s,log[0][1],m.csend,what+': its control stream'); r=log[0][2]
                if s.dead: continue
                if role=='client': eq(ex,s,ex.load(s,m.p.add(m.onext),8,('i',64)),m.next,what+': next id')
                for s,idle in ([(s,False)] if r[0]=='ok' else ex.branch(s,simp(bv(r[1],64)==IDLE))):
                    if not idle:
                        ex.oblige(s,int(len(log)==1),'postcondition',what+': nothing else while the control stream has data'); sent(ex,s,o,b,r,what+' (control stream)'); others(ex,s,m,None,what); continue
                    if s.ghost.get('loop')=='end':
                        fails(ex,s,o,IDLE,what+' with nothing to send'); others(ex,s,m,None,what); kept_ids(ex,s,m,what); continue
                    if not ex.oblige(s,int(len(log)==2 and log[1][0]=='rsend'),'postcondition',what+': ends before the last request only with the result of a request'): continue
                    r=log[1][2]; e=log[1][1].obj; isp(ex,s,log[1][1],Ptr(e,HEAD+m.es),what+': asks the sender of an entry')
                    if not ex.oblige(s,int(any(e==x[0] for x in s.ghost.get('entries',()))),'postcondition',what+': asks the sender of an entry'): continue
                    en=entry_of(s,e)
                    if not sent(ex,s,o,b,r,what): continue
                    if r[0]=='err': ex.oblige(s,simp(bv(r[1],64)!=IDLE),'postcondition',what+': idle only after the last request'); others(ex,s,m,None,what); kept_ids(ex,s,m,what); continue
                    if role=='client':
                        for t,c in ex.branch(s,simp(en[3]==m.R['closed'])): recv_state(ex,t,m,e,m.R['headers'] if c else en[3],what+': the response is expected once the request has started'); others(ex,t,m,e,what); kept_ids(ex,t,m,what)
                    else:
                        for t,f in ex.branch(s,simp(bv(r[2],64)==1)):
                            ex.oblige(t,int((e in t.ghost.get('erased',()))==bool(f)),'postcondition',what+': an exchange is dropped exactly when its response has been sent completely')
                            if t.dead: continue
                            if f and en[4] is not None: eq(ex,t,ex.load(t,en[4].add(m.hs),8,('ptr',)) if not isinstance(ex.load(t,en[4].add(m.hs),8,('ptr',)),Ptr) else 1,0,what+': its handle is invalidated')
                            if not f: recv_state(ex,t,m,e,en[3],what+': the receiver of the exchange as it was')
                            others(ex,t,m,e,what,(e,) if f else ()); kept_ids(ex,t,m,what)
    Unit('connection.send.'+role,(C[role],),go,provides=(role+'::connection::send()',),contracts=DEPS)
C={'client':'C21','server':'C22'}
def mk_recv(role):
    def go(ex):
        for st,m in world(ex,role):
            gsz,gi,gf=lay(ex,'vpsize_gen_'+role,'vpoff_gen_%s_id'%role,'vpoff_gen_%s_finished'%role)
            what='%s connection::recv'%role; i=ex.fresh('id',64); f=ex.fresh('fin',64); st.add(z3.ULE(f,1)); ex.unit.inputs['id']=i; ex.unit.inputs['fin']=f
            s0=st.fork(); o=outp(ex,s0); g=stackobj(ex,s0,gsz,'generator')
            for s,_ in ex.call(s0,'vp_conn_recverr_'+role,[m.p,i,ex.fresh('code',64),g,o]):
                ex.oblige(s,int(s.ghost['log']==()),'postcondition',what+' of an error event: reaches nothing'); fails(ex,s,o,NOT_IMPLEMENTED,what+' of an error event'); others(ex,s,m,None,what); kept_ids(ex,s,m,what)
            o=outp(ex,st); g=stackobj(ex,st,gsz,'generator'); n=ex.small(st,'n'); c=ex.newbytes(st,n,'input','chunk'); bp=stackobj(ex,st,40,'buffer'); setg(ex,st,bp,GBuf(c.id,0,n))
            for s,_ in ex.call(st,'vp_conn_recv_'+role,[m.p,i,f,bp,g,o]):
                log=s.ghost['log']
                def accepted(s):
                    if not succeeds(ex,s,o,what): return
                    eq(ex,s,ex.load(s,g.add(gi),8,('i',64)),i,what+': events of that stream'); isp(ex,s,ex.call1(s,'vp_gen_conn_'+role,[g]),m.p,what+': events of this connection'); ex.oblige(s,simp(bv(byteat(ex,s,g.add(gf),1),8)&1==0),'postcondition',what+': events not finished')
                def handed(s,op,p,w,tail=0):
                    """exactly one delivery, of everything, to that stream"""
                    if not ex.oblige(s,int(len(log)==1 and log[0][0]==op),'postcondition',what+w+': delivered to one stream, once'): return
                    x=log[0]; isp(ex,s,x[1],p,what+w+': delivered to that stream')
                    if s.dead: return
                    eq(ex,s,x[2][0],i,what+w+': stream id'); ex.oblige(s,simp((bv(x[2][1],8)&1)==z3.Extract(7,0,f)),'postcondition',what+w+': end mark'); G=x[2][2]
                    if not ex.oblige(s,int(G.obj==c.id),'postcondition',what+w+': the bytes'): return
                    eq(ex,s,G.off,0,what+w+': the bytes'); eq(ex,s,G.ln,n,what+w+': the bytes')
                    if x[3][0]=='ok': accepted(s)
                    else: fails(ex,s,o,x[3][1],what+w+': the error of the stream')
                for s,ctl in ex.branch(s,simp(i==PEER[role])):
                    if ctl: handed(s,'crecv',m.crecv,' (control stream)'); others(ex,s,m,None,what); kept_ids(ex,s,m,what); continue
                    for s,uni in ex.branch(s,simp(z3.Extract(1,1,i)==1)):
                        if uni: ex.oblige(s,int(log==()),'postcondition',what+' (another unidirectional stream): ignored'); accepted(s); others(ex,s,m,None,what); kept_ids(ex,s,m,what); continue
                        had=None; new=s.ghost.get('added',())
                        for x in s.ghost.get('entries',()):
                            if ex.prove(s,x[1]==i): had=x
                        if had is not None: handed(s,'rrecv',Ptr(had[0],HEAD+m.er),''); recv_state(ex,s,m,had[0],had[3],what+': the exchange as it was'); ex.oblige(s,int(new==()),'postcondition',what+': no new exchange')
                        elif role=='client': ex.oblige(s,int(log==()),'postcondition',what+' for an unknown request: reaches nothing'); fails(ex,s,o,INTERNAL,what+' for an unknown request'); ex.oblige(s,int(new==()),'postcondition',what+': no new request')
                        else:
                            if not ex.oblige(s,int(len(new)==1),'postcondition',what+': the first bytes of a stream create an exchange'): continue
                            e=new[0][0]; handed(s,'rrecv',Ptr(e,HEAD+m.er),' (new exchange)'); eq(ex,s,new[0][1],i,what+': id of the new exchange'); recv_state(ex,s,m,e,m.R['headers'],what+': a new exchange awaits its headers')
                            ex.oblige(s,simp(bv(byteat(ex,s,Ptr(e,HEAD+m.es+m.sos),1),8)==m.S['headers']),'postcondition',what+': a new exchange has sent nothing')
                        if s.dead: continue
                        others(ex,s,m,None if had is None else had[0],what); kept_ids(ex,s,m,what)
                        if role=='client': eq(ex,s,ex.load(s,m.p.add(m.onext),8,('i',64)),m.next,what+': next id')
    Unit('connection.recv.'+role,(C[role],),go,provides=(role+'::connection::recv(quic::event)',role+'::connection::recv(quic::data)'),contracts=DEPS)
def mk_process(role):
    def go(ex):
        hs,=lay(ex,'vpsize_header')
        for st,m in world(ex,role):
            what='%s connection::process'%role; i=ex.fresh('id',64); ex.unit.inputs['id']=i; o=outp(ex,st); h=stackobj(ex,st,hs,'field'); b=stackobj(ex,st,40,'bytes')
            loc=[ex.load(st,m.p.add(m.ol+8*j),8,('i',64)) for j in range(m.ssz//8)]
            for s,_ in ex.call(st,'vp_conn_process_'+role,[m.p,i,h,b,o]):
                log=s.ghost['log']
                for j,v in enumerate(loc): eq(ex,s,ex.load(s,m.p.add(m.ol+8*j),8,('i',64)),v,what+': own settings kept')
                ex.oblige(s,int(s.ghost.get('added',())==()),'postcondition',what+': no new entry')
                if s.dead: continue
                for s,ctl in ex.branch(s,simp(i==PEER[role])):
                    if ctl:
                        if not ex.oblige(s,int(len(log)==1 and log[0][0]=='cprocess'),'postcondition',what+' (control stream): once'): continue
                        isp(ex,s,log[0][1],m.crecv,what+' (control stream)'); happened(ex,s,o,h,b,log[0][2],what+' (control stream)')
                        if log[0][2][0]=='settings': s.ghost['peer']=log[0][2][1]
                        if not s.dead: others(ex,s,m,None,what); kept_ids(ex,s,m,what)
                        continue
                    for s,uni in ex.branch(s,simp(z3.Extract(1,1,i)==1)):
                        had=None
                        for x in s.ghost.get('entries',()):
                            if ex.prove(s,x[1]==i): had=x
                        if uni or had is None:
                            ex.oblige(s,int(log==()),'postcondition',what+': reaches nothing'); fails(ex,s,o,INC if uni else INTERNAL if role=='client' else CLOSED,what+(' (another unidirectional stream)' if uni else ' of an unknown stream')); others(ex,s,m,None,what); kept_ids(ex,s,m,what); continue
                        if not ex.oblige(s,int(len(log)==1 and log[0][0]=='rprocess'),'postcondition',what+': once'): continue
                        isp(ex,s,log[0][1],Ptr(had[0],HEAD+m.er),what+': of the stream with that id'); 
                        if not happened(ex,s,o,h,b,log[0][2],what): continue
                        gone=role=='client' and log[0][2][0]=='finished'
                        ex.oblige(s,int((had[0] in s.ghost.get('erased',()))==gone),'postcondition',what+': a request is forgotten exactly when its finished event is reported')
                        if s.dead: continue
                        if gone and had[4] is not None: eq(ex,s,ex.load(s,had[4].add(m.hs),8,('ptr',)) if not isinstance(ex.load(s,had[4].add(m.hs),8,('ptr',)),Ptr) else 1,0,what+': its handle is invalidated')
                        others(ex,s,m,had[0],what,(had[0],) if gone else ()); kept_ids(ex,s,m,what)
    Unit('connection.process.'+role,(C[role],),go,provides=(role+'::connection::process(u64)',),contracts=DEPS)
def handed_out(ex,s,m,h,o,key,what):
    """the handle is that of the entry's sender"""
    eq(ex,s,ex.call1(s,'vp_rhandle_id',[h]),key,what+': id of the handle'); p=Ptr(o,HEAD+m.es)
    if s.dead: return
    isp(ex,s,ex.load(s,h.add(m.hs),8,('ptr',)),p,what+': sender of the handle')
    if not s.dead: isp(ex,s,ex.load(s,p.add(m.soh),8,('ptr',)),h,what+': handle of the sender')
def go_request(ex):
    for st,m in world(ex,'client'):
        what='client connection::request'; h=stackobj(ex,st,m.hsz,'result'); o=outp(ex,st)
        for s,_ in ex.call(st,'vp_conn_request',[m.p,h,o]):
            ex.oblige(s,int(s.ghost['log']==()),'postcondition',what+': reaches no stream')
            if s.dead or not succeeds(ex,s,o,what): continue
            new=s.ghost.get('added',())
            if not ex.oblige(s,int(len(new)==1),'postcondition',what+': one new request'): continue
            e,k=new[0]; eq(ex,s,k,m.next,what+': takes the next id'); eq(ex,s,ex.load(s,m.p.add(m.onext),8,('i',64)),simp(m.next+4),what+': ids advance by four')
            recv_state(ex,s,m,e,m.R['closed'],what+': no response is expected yet'); ex.oblige(s,simp(bv(byteat(ex,s,Ptr(e,HEAD+m.es+m.sos),1),8)==m.S['headers']),'postcondition',what+': nothing sent yet')
            if s.dead: continue
            handed_out(ex,s,m,h,e,m.next,what); others(ex,s,m,None,what); kept_ids(ex,s,m,what)
def go_response(ex):
    for st,m in world(ex,'server'):
        what='server connection::response'; h=stackobj(ex,st,m.hsz,'result'); o=outp(ex,st); i=ex.fresh('id',64); ex.unit.inputs['id']=i
        for s,_ in ex.call(st,'vp_conn_response',[m.p,i,h,o]):
            ex.oblige(s,int(s.ghost['log']==() and s.ghost.get('added',())==()),'postcondition',what+': changes no stream')
            if s.dead: continue
            had=[x for x in s.ghost.get('entries',()) if ex.prove(s,x[1]==i)]
            if not had: fails(ex,s,o,CLOSED,what+' for an exchange that is not there'); others(ex,s,m,None,what); continue
            if not succeeds(ex,s,o,what): continue
            x=had[0]; handed_out(ex,s,m,h,x[0],i,what); others(ex,s,m,None,what); kept_ids(ex,s,m,what)
            if x[4] is not None and not s.dead: p=ex.load(s,x[4].add(m.hs),8,('ptr',)); ex.oblige(s,0 if isinstance(p,Ptr) else simp(bv(p,64)==0),'postcondition',what+': an older handle is invalidated')
def mk_gen(role):
    def go(ex):
        gsz,gi,gf=lay(ex,'vpsize_gen_'+role,'vpoff_gen_%s_id'%role,'vpoff_gen_%s_finished'%role); hs,ssz=lay(ex,'vpsize_header','vpsize_settings'); what='%s event generator'%role; KINDS=('incomplete','err','settings','header','body','finished')
        def process(ex,st,a,n):
            dst,this,i=a; res=[]
            for k in KINDS:
                x=st.fork()
                if k in('incomplete','err'):
                    e=INC if k=='incomplete' else ex.fresh('err',64)
                    if k=='err': x.add(e!=INC)
                    ex.call1(x,'vpmk_event_err',[dst,e]); r=('err',e)
                else: r=make_event(ex,x,dst,k,i,ssz)
                x.ghost['log']=x.ghost.get('log',())+((this,i,k,r),); res.append((x,None))
            return res
        ex.contracts[role+'::connection::process(u64)']=process; ex._cres={}
        st=State(); c=stackobj(ex,st,8,'connection'); g=stackobj(ex,st,gsz,'generator'); i=ex.fresh('id',64); st.ghost['log']=()
        ex.call1(st,'vp_gen_new_'+role,[g,i,c]); ex.store(st,g.add(gi),8,i)
        def get(s,r,w):
            o=outp(ex,s); h=stackobj(ex,s,hs,'field'); b=stackobj(ex,s,40,'bytes')
            for t,_ in ex.call(s,'vp_gen_get_'+role,[g,h,b,o]):
                ex.oblige(t,int(len(t.ghost['log'])==len(s.ghost['log'])),'postcondition',what+': get processes nothing'); happened(ex,t,o,h,b,r,what+w)
                yield t
        for t in get(st.fork(),('err',INTERNAL),': get before next'): pass
        def step(s,depth,last):
            """next from a generator that holds `last`"""
            n=len(s.ghost['log'])
            for t,r in ex.call(s,'vp_gen_next_'+role,[g]):
                log=t.ghost['log']
                if last is not None and last[2]=='finished':
                    ex.oblige(t,int(len(log)==n),'postcondition',what+': processes nothing after the finished event'); eq(ex,t,r,0,what+': ends after the finished event'); continue
                if not ex.oblige(t,int(len(log)==n+1),'postcondition',what+': next processes once'): continue
                x=log[-1]; isp(ex,t,x[0],c,what+': of its connection'); eq(ex,t,x[1],i,what+': of its stream'); eq(ex,t,r,0 if x[2]=='incomplete' else 1,what+': pauses exactly when more data is needed')
                if t.dead: continue
                if x[2]!='incomplete':
                    for u in get(t.fork(),x[3],': the event processed'):
                        for v in get(u.fork(),('err',INTERNAL),': an event is given out once'): pass
                        if depth: step(u,0,x)
                if depth: step(t,0,x)
        step(st,1,None)
    Unit('generator.'+role,(C[role],),go,provides=('endpoint::generator<%s::connection>::next()'%role,'endpoint::generator<%s::connection>::get()'%role),contracts=DEPS)
for role in('client','server'): mk_send(role); mk_recv(role); mk_process(role); mk_gen(role)
Unit('connection.request',('C21',),go_request,provides=('client::connection::request()',),contracts=DEPS)
Unit('connection.response',('C22',),go_response,provides=('server::connection::response(u64)',),contracts=DEPS)
def go_initial(ex):
    for role in('client','server'):
        st=State(); m=M(ex,st,role,False); st=State(); p=stackobj(ex,st,lay(ex,'vpsize_conn_'+role)[0],'connection'); ex.call1(st,'vp_conn_new_'+role,[p]); what='new %s connection'%role
        g=getg(ex,st,p.add(m.om),GMap,what); ex.oblige(st,int(g.known==() and not g.rest),'postcondition',what+': no requests')
        if role=='client': eq(ex,st,ex.load(st,p.add(m.onext),8,('i',64)),0,what+': first id')
        eq(ex,st,ex.call1(st,'vp_crecv_id',[p.add(m.ocr)]),PEER[role],what+': control stream of the peer')
Unit('connection.initial',('C21','C22'),go_initial,provides=('client::connection::connection()','server::connection::connection()'),contracts=DEPS)
