"""C15: lookaheads.  Every reachable lookahead is built as: on the sequence, moved by a; a copy of it, moved by b."""
from ..seq import *
from .varint import BASE
def mk(kind):
    base=kind[:-2]; T=TNAME[kind]
    def shows(ex,st,p,n,at,cons,what):
        """the lookahead at p shows n bytes at(i) and has consumed cons"""
        c=lambda f,*a: ex.call1(st,'vp_%s_%s'%(kind,f),[p,*a])
        ex.oblige(st,simp(bv(c('size'),64)==bv(n,64)),'postcondition',what+': size')
        ex.oblige(st,simp((bv(c('empty'),64)==1)==(bv(n,64)==0)),'postcondition',what+': empty')
        ex.oblige(st,simp(bv(c('consumed'),64)==bv(cons,64)),'postcondition',what+': consumed count')
        s=st.fork(); i=ex.fresh('i',64); mark_small(i); s.add(z3.ULT(i,bv(n,64)))
        if not ex.feasible(s): return
        for s2,b in ex.call(s,'vp_%s_at'%kind,[p,i]): ex.oblige(s2,simp(bv(b,8)==bv(at(i),8)),'postcondition',what+': byte i')
        for s2,b in ex.call(s,'vp_%s_star'%kind,[p]): ex.oblige(s2,simp(bv(b,8)==bv(at(bvv(0)),8)),'postcondition',what+': first byte')
    def source(ex,st,bp,o,N,what):
        g=getg(ex,st,bp,GBuf if base=='buffer' else GBufs,what)
        if g is None: return
        ex.oblige(st,simp(bv(g.ln if base=='buffer' else g.size(),64)==N),'frame',what+': the sequence keeps its size')
        s=st.fork(); i=ex.fresh('i',64); mark_small(i); s.add(z3.ULT(i,N))
        if ex.feasible(s): ex.oblige(s,simp(bv(g.at(ex,s,i),8)==bv(ex.obyte(None,o,i),8)),'frame',what+': the sequence keeps its bytes')
    def go(ex):
        st=State(); N=ex.small(st,'N'); o=ex.newbytes(st,N,'input','in'); at=lambda i: ex.obyte(None,o,simp(bv(i,64)))
        bp=stackobj(ex,st,40 if base=='buffer' else 24,base); setg(ex,st,bp,GBuf(o.id,0,N) if base=='buffer' else GBufs(((o.id,0,N,'o'),)))
        call=lambda st,f,*a: ex.call1(st,'vp_%s_%s'%(kind,f),list(a))
        L=lambda: stackobj(ex,st,24,'lookahead')
        a=ex.small(st,'a'); b=ex.small(st,'b'); n=ex.small(st,'n'); st.add(z3.ULE(simp(a+b+n),N))
        for nm,x in(('N',N),('a',a),('b',b),('n',n)): ex.unit.inputs[nm]=x
        ex.unit.inputs['seq']=model_bytes(N,at)
        w=T
        p0=L(); call(st,'mk',p0,bp); shows(ex,st,p0,N,at,0,w+' on a sequence'); source(ex,st,bp,o,N,w+' on a sequence')
        call(st,'consume',p0,a); A=lambda i: at(bv(i,64)+a)
        shows(ex,st,p0,simp(N-a),A,a,w+'::consume'); source(ex,st,bp,o,N,w+'::consume')
        p=L(); call(st,'cp',p,p0); shows(ex,st,p,simp(N-a),A,0,w+' on a lookahead'); shows(ex,st,p0,simp(N-a),A,a,w+' on a lookahead (parent)')
        call(st,'consume',p,b); B=lambda i: at(bv(i,64)+a+b)
        # p is now an arbitrary lookahead; p0 its parent
        shows(ex,st,p,simp(N-a-b),B,b,w+'::consume (nested)'); shows(ex,st,p0,simp(N-a),A,a,w+'::consume (parent)'); source(ex,st,bp,o,N,w+'::consume (nested)')
        q=L(); call(st,'cp',q,p); C=lambda i: at(bv(i,64)+a+b+n)
        shows(ex,st,q,simp(N-a-b),B,0,w+' on a nested lookahead'); shows(ex,st,p,simp(N-a-b),B,b,w+' on a nested lookahead (parent)')
        call(st,'consume',p,n); shows(ex,st,p,simp(N-a-b-n),C,simp(b+n),w+'::consume (again)'); shows(ex,st,q,simp(N-a-b),B,0,w+'::consume (child)')
        shows(ex,st,p0,simp(N-a),A,a,w+'::consume (parent, again)'); source(ex,st,bp,o,N,w+'::consume (again)')
        # committing what was consumed on the parent leaves what the lookahead still shows
        s=st.fork(); call(s,'consume',p0,call(s,'consumed',p)); shows(ex,s,p0,simp(N-a-b-n),C,simp(a+b+n),w+': commit to the parent')
        # and on the sequence
        s=st.fork(); call(s,'consume',p0,call(s,'consumed',p)); c=call(s,'consumed',p0)
        for f in consume(ex,s,View(base,bp,N,at,None,None),c):
            g=getg(ex,f,bp,GBuf if base=='buffer' else GBufs,'commit')
            if g is None: continue
            M=simp(N-a-b-n)
            ex.oblige(f,simp(bv(g.ln if base=='buffer' else g.size(),64)==M),'postcondition',w+': commit to the sequence: size')
            i=ex.fresh('i',64); mark_small(i); f.add(z3.ULT(i,M))
            if ex.feasible(f): ex.oblige(f,simp(bv(g.at(ex,f,i),8)==bv(C(i),8)),'postcondition',w+': commit to the sequence: bytes')
    Unit('lookahead.'+base,('C15','C24'),go,provides=tuple('%s::%s'%(T,x) for x in('lookahead(%s const&)'%base,'lookahead(%s const&)'%T,'size() const','empty() const','operator[](u64) const','operator*() const','consume(u64)','consumed() const')),contracts=BASE)
for k in('bufferla','buffersla'): mk(k)
