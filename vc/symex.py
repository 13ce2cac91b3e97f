"""Symbolic verification-condition generator for the LLVM IR clang emits from the real KTL headers.

One harness function (specs/*.cpp) = one contract: it assumes the precondition, runs the real function, and
checks the postcondition.  Every path of the real code is executed symbolically over unbounded 64-bit inputs;
loops are cut by invariants (candidates come from the harness, a Houdini fixpoint keeps the inductive ones);
every check, memory access and copy becomes an obligation that z3 (second opinion: cvc5) must discharge."""
import re
import z3, time, sys, os, subprocess, tempfile
import lia
sys.setrecursionlimit(100000)
BV=z3.BitVecVal
def bv(x,w=64): return BV(x,w)
TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)
PTRCLS=1
class ToolLimit(Exception): pass
class PathEnd(Exception): pass

LOCAL_LO=1<<46; LOCAL_HI=1<<47; CONC_LO=0x700000000000

def isnum(t): return z3.is_bv_value(t)
def num(t): return t.as_long()
def simp(t): return z3.simplify(t)
def asimp(t): return z3.simplify(t,som=True)
def b01(t):
    """the condition c when the term is 1 if c holds and 0 otherwise"""
    if z3.is_bv_value(t): v=t.as_long(); return z3.BoolVal(bool(v)) if v<2 else None
    k=t.decl().kind()
    if k==z3.Z3_OP_ITE and z3.is_bv_value(t.arg(1)) and z3.is_bv_value(t.arg(2)):
        a,b=t.arg(1).as_long(),t.arg(2).as_long()
        if (a,b)==(1,0): return t.arg(0)
        if (a,b)==(0,1): return z3.Not(t.arg(0))
    if k==z3.Z3_OP_ZERO_EXT: return b01(t.arg(0))
    if k==z3.Z3_OP_CONCAT and t.num_args()==2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long()==0: return b01(t.arg(1))
    return None
def AND(*a):
    a=[x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a): return FALSE
    return TRUE if not a else a[0] if len(a)==1 else z3.And(*a)
def OR(*a):
    a=[x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a): return TRUE
    return FALSE if not a else a[0] if len(a)==1 else z3.Or(*a)
def NOT(a):
    if z3.is_true(a): return FALSE
    if z3.is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def taut(f):
    """obvious tautologies z3's simplifier leaves behind when branches join again"""
    if not z3.is_or(f): return False
    args=f.children(); ids={x.get_id() for x in args}
    for x in args:
        if z3.is_not(x):
            y=x.arg(0)
            if z3.is_or(y) and all(z.get_id() in ids for z in y.children()): return True
            if y.get_id() in ids: return True
        if z3.is_and(x) and all(NOT(z).get_id() in ids for z in x.children()): return True
    return False
def IMP(a,b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a,b)
def ITE(c,a,b):
    if a is b: return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a,tuple): return tuple(ITE(c,x,y) for x,y in zip(a,b))
    if a.eq(b): return a
    return z3.If(c,a,b)

# ---------------------------------------------------------------- flat memory (heap and ghost maps)
class Node:
    __slots__=('memo','prev','a','b','c','k','d')
    cnt=0
class Mem:
    """Lazily evaluated update log.  w = width of a cell in bits; cell = bytes (0: ghost map, any key)."""
    def base(name,w):
        n=Node(); n.k='base'; n.memo={}; n.a=z3.Function(name,z3.BitVecSort(64),z3.BitVecSort(w)); return n
    def const(v):
        n=Node(); n.k='const'; n.memo={}; n.a=v; return n
    def store(p,a,v):
        n=Node(); n.k='store'; n.memo={}; n.prev=p; n.a=a; n.b=v; return n
    def copy(p,dst,src,ln,frm):
        n=Node(); n.k='copy'; n.memo={}; n.prev=p; n.a=dst; n.b=src; n.c=ln; n.d=frm; return n
    def fill(p,dst,ln,v):
        n=Node(); n.k='fill'; n.memo={}; n.prev=p; n.a=dst; n.c=ln; n.b=v; return n
    def hrange(p,dst,ln,base):
        n=Node(); n.k='hrange'; n.memo={}; n.prev=p; n.a=dst; n.c=ln; n.d=base; return n
    def ite(c,x,y):
        n=Node(); n.k='ite'; n.memo={}; n.c=c; n.a=x; n.b=y; return n
    def read(n,addr):
        addr=asimp(addr)
        return Mem._read(n,addr)
    def _read(n,addr):
        m=n.memo.get(addr.get_id())
        if m is not None: return m[1]
        k=n.k
        if k=='base': r=n.a(addr)
        elif k=='const': r=n.a
        elif k=='store':
            d=asimp(addr-n.a)
            if isnum(d): r=n.b if num(d)==0 else Mem._read(n.prev,addr)
            else: r=ITE(d==0,n.b,Mem._read(n.prev,addr))
        elif k in('copy','fill','hrange'):
            off=asimp(addr-n.a)
            c=simp(z3.ULT(off,n.c))
            if z3.is_false(c): r=Mem._read(n.prev,addr)
            else:
                if k=='copy': x=Mem._read(n.d,asimp(off+n.b))
                elif k=='fill': x=n.b
                else: x=Mem._read(n.d,addr)
                r=x if z3.is_true(c) else ITE(c,x,Mem._read(n.prev,addr))
        elif k=='ite': r=ITE(n.c,Mem._read(n.a,addr),Mem._read(n.b,addr))
        n.memo[addr.get_id()]=(addr,r)
        return r

# ---------------------------------------------------------------- local objects
class Region:
    __slots__=('id','base','size','data','dead','name','ro','dflt','sym','fnname')
    def copy(s):
        r=Region(); r.id=s.id; r.base=s.base; r.size=s.size; r.data=dict(s.data); r.dead=s.dead; r.name=s.name; r.ro=s.ro; r.dflt=s.dflt; r.sym=s.sym; r.fnname=s.fnname
        return r
    def byte(s,off):
        for o in range(off,max(-1,off-16),-1):
            c=s.data.get(o)
            if c is not None and o+c[0]>off:
                t=c[1]; k=off-o
                return t if c[0]==1 else z3.Extract(8*k+7,8*k,t)
        if s.dflt is not None: return s.dflt
        return z3.BitVec(f'U!{s.id}!{off}',8)
    def read(s,off,w):
        c=s.data.get(off)
        if c is not None and c[0]==w: return c[1]
        bs=[s.byte(off+i) for i in range(w)]
        if w==1: return bs[0]
        # all undefined and aligned: one fresh word
        return simp(z3.Concat(*reversed(bs)))
    def write(s,off,w,v):
        for o in range(max(0,off-15),off+w):
            c=s.data.get(o)
            if c is None: continue
            e=o+c[0]
            if e<=off: continue
            del s.data[o]
            for b in range(o,e):
                if b<off or b>=off+w:
                    s.data[b]=(1,simp(z3.Extract(8*(b-o)+7,8*(b-o),c[1])))
        s.data[off]=(w,v)

class Hyp:
    __slots__=('id','cls','st','fn','ctx','guard','n')

class State:
    __slots__=('pc','regs','heap','ghost','hyps','terms','done','invs','dead','env','unroll','pcset','cell')
    def copy(s):
        n=State(); n.pc=list(s.pc); n.regs=dict(s.regs); n.heap=s.heap; n.ghost=dict(s.ghost); n.hyps=list(s.hyps)
        n.terms={k:list(v) for k,v in s.terms.items()}; n.done=set(s.done); n.invs=list(s.invs); n.env=s.env; n.unroll=s.unroll; n.cell=s.cell
        n.dead=s.dead
        return n
    def wreg(s,r):
        c=s.regs[r.id].copy(); s.regs[r.id]=c; return c

class Oblig:
    __slots__=('label','where','status','time','model','backend','detail')

class Exec:
    liafirst=int(os.environ.get('VC_LF','50'))
    firstmo=int(os.environ.get('VC_FIRST','150'))
    def __init__(self,mod,timeout=10000,tier='quick',verbose=0):
        self.stages={}; self.contracts=[]; self.contracts_used=set()
        self.weak=0; self.patience=1; self.decided=set(); self.m=mod; self.timeout=timeout; self.tier=tier; self.v=verbose
        self.obligs=[]; self.reach={}; self.covers=set(); self.nfresh=0; self.nreg=0; self.snaps=[]; self.hid=0
        self.greg={}; self.strs={}; self.quiet=0; self.pure=0; self.claims=None; self.fnreg={}; self.fnaddr={}
        self.curfn=[]; self.line=0; self.file=''; self.used=set(); self.axioms=[]; self.lastsym=None
        self.qtime=0.0; self.nq=0; self.limits=[]; self.inputs=[]; self.loopinfo=[]; self.failfast=False
        self.paths=0; self.deadline=None; self.models_used=set(); self.intr_used=set(); self.loopvars=0
        self.conc_next=CONC_LO; self.backends={}; self.unres=[]
        self.fcache={}; self._purec={}; self._nouf={}; self.termsink=None
    # ------------------------------------------------------------ basic
    def fresh(self,name,w=64):
        self.nfresh+=1
        return z3.BitVec(f'{name}!{self.nfresh}',w)
    def newregion(self,st,size,name,sym=False,align=16):
        self.nreg+=1
        r=Region(); r.id=self.nreg; r.size=size; r.data={}; r.dead=False; r.name=name; r.ro=False; r.dflt=None; r.fnname=self.curfn[-1] if self.curfn else ''
        if sym:
            r.base=z3.BitVec(f'B!{r.id}',64); r.sym=f'B!{r.id}'
            lo=bv(LOCAL_LO) if self.lastsym is None else self.lastsym[0]+self.lastsym[1]
            # bases of distinct objects: ordered, at least one byte apart, aligned, upper half of the user address space
            self.axioms.append(z3.And(z3.UGT(r.base,lo),z3.ULT(r.base,bv(CONC_LO-(1<<20))),(r.base&(max(align,1)-1))==0))
            self.lastsym=(r.base,max(size,1))
        else:
            a=max(align,16)
            self.conc_next=(self.conc_next+a-1)//a*a
            r.base=bv(self.conc_next); r.sym=None
            self.conc_next+=max(size,1)+16
            self.fnreg[num(r.base)]=r.id
        st.regs[r.id]=r
        self.symid=getattr(self,'symid',{})
        if sym: self.symid[r.sym]=r.id
        return r
    # ------------------------------------------------------------ solver
    def solve(self,fs,timeout=None,model=False):
        """'unsat' | 'sat' | 'unknown' for the conjunction of fs"""
        t0=time.time()
        if self.deadline and t0>self.deadline: raise ToolLimit('time budget exhausted')
        s=z3.SolverFor('QF_UFBV')
        full=int(timeout or self.timeout); first=min(full,self.firstmo)
        for f in fs: s.add(f)
        self.nq+=1
        stages=[('bv',first),('lia',4000*self.patience),('bv',full)] if len(fs)<self.liafirst else [('lia',4000*self.patience),('bv',full)]
        r=z3.unknown
        for be,to in stages:
            t1=time.time()
            if be=='bv':
                s.set('timeout',to); r=s.check(); d=str(r)
            else:
                d=lia.decide(fs,min(to,full))
                if d=='unsat' or (d=='sat' and not model):
                    self.qtime+=time.time()-t0
                    k=(be,d); n,t=self.stages.get(k,(0,0)); self.stages[k]=(n+1,t+time.time()-t1)
                    return (d,None,'z3-lia') if model is not False else d
            k=(be,d); n,t=self.stages.get(k,(0,0)); self.stages[k]=(n+1,t+time.time()-t1)
            if r!=z3.unknown: break
        res='unsat' if r==z3.unsat else 'sat' if r==z3.sat else 'unknown'
        m=s.model() if (model and r==z3.sat) else None
        be='z3'
        if res=='unknown' and model is not False:
            r2=self.cvc5(s.to_smt2(),int(timeout or self.timeout))
            if r2: res=r2; be='cvc5'
        dt=time.time()-t0
        self.qtime+=dt
        if os.environ.get('VC_DUMP') and dt>float(os.environ.get('VC_DUMP_T','3')):
            open('%s/q%d_%s_%d.smt2'%(os.environ['VC_DUMP'],self.nq,res,int(dt)),'w').write('(set-logic QF_UFBV)\n'+s.to_smt2())
        if self.v>1 and dt>1: print(f'   slow query {dt:.1f}s {res} at {self.file}:{self.line}',file=sys.stderr)
        return (res,m,be) if model is not False else res
    def cvc5(self,txt,timeout):
        try:
            with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f:
                f.write('(set-logic QF_UFBV)\n'+txt); fn=f.name
            p=subprocess.run(['cvc5',f'--tlimit={timeout}',fn],capture_output=True,text=True,timeout=timeout/1000+5)
            os.unlink(fn)
            o=p.stdout.strip().split('\n')[0]
            return o if o in('sat','unsat') else None
        except Exception: return None
    def facts(self,st):
        return self.axioms+st.pc
    def nouf(self,t):
        """does the formula mention no uninterpreted function?"""
        c=self._nouf; k=t.get_id(); r=c.get(k)
        if r is not None: return r[0]
        stk=[t]; seen=set(); ok=True
        while stk:
            x=stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: ok=False; break
                stk.extend(x.children())
        c[k]=(ok,t); return ok
    def quick(self,st,g,timeout=400):
        """is g refuted already by the facts about plain values?  (sound: fewer facts)"""
        if not self.nouf(g): return False
        fs=[f for f in self.axioms+st.pc if self.nouf(f)]
        s=z3.SolverFor('QF_BV'); s.set('timeout',timeout)
        for f in fs: s.add(f)
        s.add(g); self.nq+=1; t0=time.time()
        r=s.check()==z3.unsat
        self.qtime+=time.time()-t0
        return r
    def feasible(self,st,c,tried=False):
        if self.pure: return True
        if not tried and self.quick(st,c): return False
        r=self.solve(self.facts(st)+[c],timeout=min(self.timeout,4000))
        return r!='unsat'
    def addpc(self,st,c):
        c=simp(c)
        if z3.is_true(c) or taut(c): return
        if z3.is_and(c):
            for x in c.children(): st.pc.append(x)
        else: st.pc.append(c)
    # ------------------------------------------------------------ hypotheses
    def term(self,st,cls,t):
        t=asimp(t)
        l=st.terms.setdefault(cls,[])
        if any(x.eq(t) for x in l): return
        l.append(t)
    def instantiate(self,st):
        """finitely instantiate every universally quantified hypothesis with the registered terms"""
        if self.pure: return
        ch=True; rounds=0
        while ch and rounds<3:
            ch=False; rounds+=1
            for h in list(st.hyps):
                ts=st.terms.get(h.cls,[])
                if h.n==1: tups=[(t,) for t in ts]
                else: tups=[(a,b) for a in ts for b in ts if not a.eq(b)]
                for tu in tups:
                    key=(h.id,)+tuple(t.get_id() for t in tu)
                    if key in st.done: continue
                    st.done.add(key)
                    f=self.evalc(h.st,h.fn,h.ctx,list(tu),st)
                    f=simp(IMP(h.guard,f))
                    if not z3.is_true(f): st.pc.append(f); ch=True
    def evalc(self,snap,fn,ctx,args,st):
        """value of the boolean closure fn(ctx,*args) in the state snap, as a formula (pure evaluation)"""
        s=snap.copy(); s.pc=[]; s.hyps=[]; s.terms={}
        self.pure+=1; self.quiet+=1
        oc=self.claims; self.claims=None
        try: outs=self.call(s,fn,[ctx]+args)
        finally: self.pure-=1; self.quiet-=1; self.claims=oc
        r=[]
        for o,v in outs:
            b=self.tobool(v)
            r.append((AND(*o.pc),b))
        if len(r)==1: return r[0][1] if z3.is_true(r[0][0]) else IMP(r[0][0],r[0][1])
        return AND(*[IMP(a,b) for a,b in r])
    def runclaims(self,st,fn,ctx,args,guard=TRUE):
        """run a claim closure; returns list of (guard, kind, payload)"""
        s=st.copy(); n0=len(s.pc); base=s.pc; s.pc=[]
        self.pure+=1; self.quiet+=1; oc=self.claims; self.claims=[]
        try: outs=self.call(s,fn,[ctx]+args); cl=self.claims
        finally: self.pure-=1; self.quiet-=1; self.claims=oc
        return cl
    def assume_claim(self,st,cl):
        g,kind,p=cl
        if kind=='b': self.addpc(st,IMP(g,p))
        else:
            cls,fn,ctx,snap,n=p
            self.addhyp(st,cls,fn,ctx,snap,n,g)
    def addhyp(self,st,cls,fn,ctx,snap,n,guard=TRUE):
        self.hid+=1
        h=Hyp(); h.id=self.hid; h.cls=cls; h.fn=fn; h.ctx=ctx; h.st=snap; h.n=n; h.guard=guard
        st.hyps.append(h)
    def holds_claim(self,st,cl,timeout=None):
        r=self.claim_verdict(st,cl,int((timeout or self.timeout)*self.patience))
        if r=='unknown': self.weak+=1      # a candidate may have been lost for want of time
        return r=='unsat'
    def claim_verdict(self,st,cl,timeout):
        g,kind,p=cl
        if kind=='b':
            f=simp(IMP(g,p))
            if z3.is_true(f): return 'unsat'
            self.instantiate(st)
            return self.solve(self.facts(st)+[NOT(f)],timeout=timeout)
        cls,fn,ctx,snap,n=p
        s=st.copy()
        args=[self.fresh('sk') for _ in range(n)]
        for a in args: self.term(s,cls,a)
        self.termsink=s
        f=simp(IMP(g,self.evalc(snap,fn,ctx,args,s)))
        self.termsink=None
        if z3.is_true(f): return 'unsat'
        self.instantiate(s)
        return self.solve(self.facts(s)+[NOT(f)],timeout=timeout)
    # ------------------------------------------------------------ obligations
    def where(self):
        f=self.file
        return f'{f}:{self.line}'
    def check(self,st,f,label,kind='check',known=None,t0=0):
        if self.quiet: 
            return
        f=simp(f)
        o=Oblig(); o.label=label; o.where=self.where(); o.model=None; o.detail=kind; o.backend='simplifier'; o.time=0
        if z3.is_true(f): o.status='unsat'
        elif known: o.status=known; o.backend='z3'; o.time=time.time()-t0
        else:
            self.instantiate(st)
            t=time.time()
            r,m,be=self.solve(self.facts(st)+[NOT(f)],model=True)
            o.time=time.time()-t; o.status=r; o.backend=be
            if r=='sat' and m is not None: o.model=self.getmodel(m)
            if r!='unsat':
                if self.v: print(f'  FAIL[{r}] {label} at {o.where} {o.model}',file=sys.stderr)
                st.pc.append(f)
        self.obligs.append(o)
        self.backends[o.backend]=self.backends.get(o.backend,0)+1
    def getmodel(self,m):
        d={}
        for n,t in self.inputs:
            try: d[n]=m.eval(t,model_completion=True).as_long()
            except Exception: pass
        return d
    # ------------------------------------------------------------ addresses
    def split(self,addr):
        """-> (region id, offset term) or (None, addr)"""
        if isnum(addr):
            a=num(addr)
            if a>=CONC_LO:
                import bisect
                keys=self._ckeys()
                i=bisect.bisect_right(keys,a)-1
                if i>=0: return self.fnreg[keys[i]],bv(a-keys[i])
            return None,addr
        args=addr.children() if z3.is_app_of(addr,z3.Z3_OP_BADD) else [addr]
        for x in args:
            if z3.is_const(x) and not isnum(x):
                rid=getattr(self,'symid',{}).get(x.decl().name())
                if rid is not None: return rid,asimp(addr-x)
            elif isnum(x) and num(x)>=CONC_LO and num(x)<LOCAL_HI:
                r,o=self.split(x)
                if r is not None: return r,asimp(addr-x+o)
        return None,addr
    def _ckeys(self):
        k=getattr(self,'_ck',None)
        if k is None or len(k)!=len(self.fnreg): self._ck=k=sorted(self.fnreg)
        return k
    def haslocal(self,t,seen=None):
        if seen is None: seen=set()
        st=[t]
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x):
                if isnum(x):
                    if x.size()==64 and CONC_LO<=num(x)<LOCAL_HI: return True
                elif x.decl().name() in getattr(self,'symid',{}): return True
            elif z3.is_app_of(x,z3.Z3_OP_ITE): st.extend(x.children()[1:])
            elif z3.is_app_of(x,z3.Z3_OP_BADD): st.extend(x.children())
        return False
    def cases(self,addr):
        """split an address that is an if-then-else of local objects into (cond, addr) leaves"""
        addr=asimp(addr)
        r,o=self.split(addr)
        if r is not None and not self.has_ite(addr): return [(TRUE,addr)]
        if not self.haslocal(addr): return [(TRUE,addr)]
        i=self.has_ite(addr)
        if i is None: return [(TRUE,addr)]
        c,a,b=i.children()
        x=asimp(z3.substitute(addr,(i,a))); y=asimp(z3.substitute(addr,(i,b)))
        return [(AND(c,g),t) for g,t in self.cases(x)]+[(AND(NOT(c),g),t) for g,t in self.cases(y)]
    def has_ite(self,t):
        if z3.is_app_of(t,z3.Z3_OP_ITE): return t
        if z3.is_app_of(t,z3.Z3_OP_BADD):
            for x in t.children():
                r=self.has_ite(x)
                if r is not None: return r
        return None
    def valid(self,st,a,ln):
        """formula: [a,a+ln) lies inside one live heap block (among the registered block addresses)"""
        live=st.ghost.get('live'); size=st.ghost.get('size')
        if live is None: return FALSE
        cs=[]
        for p in st.terms.get(PTRCLS,[]):
            off=asimp(a-p)
            sz=Mem.read(size,p)
            lv=Mem.read(live,p)
            cs.append(AND(lv!=0,z3.ULE(ln,sz),z3.ULE(off,sz-ln)))
        return OR(*cs)
    def chkheap(self,st,a,ln,what):
        if self.quiet: return
        self.instantiate(st)
        c=self.valid(st,a,ln)
        f=simp(IMP(ln!=0,c)); known=None; t0=time.time()
        if not z3.is_true(f) and (self.quick(st,NOT(f)) or self.solve(self.facts(st)+[NOT(f)],timeout=3000)=='unsat'): known='unsat'
        elif not z3.is_true(f):
            # the address may itself be (a field of) a block known only through a hypothesis
            a=asimp(a); self.term(st,PTRCLS,a)
            if z3.is_app_of(a,z3.Z3_OP_BADD) and isnum(a.arg(0)) and num(a.arg(0))<4096: self.term(st,PTRCLS,asimp(a-a.arg(0)))
            self.instantiate(st)
            c=self.valid(st,a,ln)
        cell=st.cell
        al=TRUE if cell==1 else (z3.Extract(cell.bit_length()-2,0,a)==0)
        self.check(st,IMP(ln!=0,c),f'{what}: inside a live block','memory',known,t0)
        if cell>1:
            al=simp(al)
            if not z3.is_true(al): self.check(st,IMP(ln!=0,al),f'{what}: naturally aligned','memory')
    def heapcells(self,w,st):
        if w%st.cell: raise ToolLimit(f'access of {w} bytes with {st.cell}-byte cells at {self.where()}')
        return w//st.cell
    def hread(self,st,a,w):
        n=self.heapcells(w,st); cs=[Mem.read(st.heap,a+bv(i*st.cell)) for i in range(n)]
        return cs[0] if n==1 else simp(z3.Concat(*reversed(cs)))
    def hwrite(self,st,a,w,v):
        n=self.heapcells(w,st); c=st.cell*8; a=asimp(a)
        for i in range(n):
            x=v if n==1 else simp(z3.Extract(c*i+c-1,c*i,v))
            st.heap=Mem.store(st.heap,asimp(a+bv(i*st.cell)),x)
    def region_of(self,st,addr):
        rid,off=self.split(addr)
        if rid is None: return None,None
        r=st.regs.get(rid)
        if r is None: return self.deadregion(rid),off
        return r,off
    def deadregion(self,rid):
        r=Region(); r.id=rid; r.base=bv(0); r.size=1<<40; r.data={}; r.dead=True; r.name='(dead local)'; r.ro=False; r.dflt=None; r.sym=None; r.fnname=''
        return r
    def load(self,st,addr,w,what='load'):
        """returns list of (state,value)"""
        cs=self.cases(addr)
        if len(cs)==1: return [(st,self.load1(st,cs[0][1],w,what))]
        if self.pure:
            v=None
            for g,a in reversed(cs):
                x=self.load1(st,a,w,what); v=x if v is None else ITE(g,x,v)
            return [(st,v)]
        outs=[]
        for g,a in cs:
            if self.feasible(st,g):
                s=st.copy(); self.addpc(s,g); outs.append((s,self.load1(s,a,w,what)))
        return outs
    def load1(self,st,addr,w,what):
        r,off=self.region_of(st,addr)
        if r is None:
            self.chkheap(st,addr,bv(w),what)
            return self.hread(st,addr,w)
        if r.dead:
            self.check(st,FALSE,f'{what}: object {r.name} still alive','memory')
        if isnum(off):
            o=num(off)
            if o+w>r.size or o>=1<<63:
                self.check(st,FALSE,f'{what}: inside object {r.name}','memory')
                return self.fresh('oob',8*w)
            return r.read(o,w)
        # symbolic offset into a local object: complete case split over the aligned slots
        self.check(st,z3.And(z3.ULE(off,bv(max(r.size-w,0))),r.size>=w),f'{what}: inside object {r.name}','memory')
        step=w if w in(1,2,4,8) else 1
        if step>1: self.check(st,z3.Extract(step.bit_length()-2,0,off)==0,f'{what}: aligned in object','memory')
        v=self.fresh('oob',8*w)
        if r.size//step>600: raise ToolLimit('symbolic index into a large local object')
        for o in range(0,r.size-w+1,step): v=ITE(off==o,r.read(o,w),v)
        return v
    def store(self,st,addr,w,v,what='store'):
        cs=self.cases(addr)
        if len(cs)==1:
            self.store1(st,cs[0][1],w,v,what); return [st]
        outs=[]
        for g,a in cs:
            if self.feasible(st,g):
                s=st.copy(); self.addpc(s,g); self.store1(s,a,w,v,what); outs.append(s)
        return outs
    def store1(self,st,addr,w,v,what):
        r,off=self.region_of(st,addr)
        if r is None:
            self.chkheap(st,addr,bv(w),what)
            self.hwrite(st,addr,w,v); return
        if r.dead: self.check(st,FALSE,f'{what}: object {r.name} still alive','memory')
        if r.ro: self.check(st,FALSE,f'{what}: object is writable','memory')
        r=st.wreg(r)
        if isnum(off):
            o=num(off)
            if o+w>r.size or o>=1<<63:
                self.check(st,FALSE,f'{what}: inside object {r.name}','memory'); return
            r.write(o,w,v); return
        self.check(st,z3.And(z3.ULE(off,bv(max(r.size-w,0))),r.size>=w),f'{what}: inside object {r.name}','memory')
        step=w if w in(1,2,4,8) else 1
        if step>1: self.check(st,z3.Extract(step.bit_length()-2,0,off)==0,f'{what}: aligned in object','memory')
        if r.size//step>600: raise ToolLimit('symbolic index into a large local object')
        if step!=w: raise ToolLimit('symbolic odd-size store')
        for o in range(0,r.size-w+1,step): r.write(o,w,ITE(off==o,v,r.read(o,w)))
    def memcpy(self,st,dst,src,ln,move):
        ln=simp(ln)
        if isnum(ln) and num(ln)==0: return
        dst=asimp(dst); src=asimp(src)
        rd,od=self.region_of(st,dst); rs,os_=self.region_of(st,src)
        nm='memmove' if move else 'memcpy'
        if rd is None and rs is None:
            self.chkheap(st,dst,ln,nm+' destination'); self.chkheap(st,src,ln,nm+' source')
            if not move and not dst.eq(src):
                d=asimp(dst-src)
                self.check(st,OR(ln==0,dst==src,AND(z3.UGE(d,ln),z3.UGE(-d,ln))),'memcpy: ranges do not overlap','memory')
            if st.cell>1:
                al=simp(z3.Extract(st.cell.bit_length()-2,0,ln)==0)
                if not z3.is_true(al): self.check(st,al,nm+': whole cells','memory')
            st.heap=Mem.copy(st.heap,dst,src,ln,st.heap); return
        if not isnum(ln): 
            return self.memcpy_sym(st,dst,src,ln,rd,od,rs,os_,nm)
        n=num(ln)
        # gather
        if rs is None:
            self.chkheap(st,src,ln,nm+' source'); c=st.cell; vals=[(i,c,Mem.read(st.heap,src+bv(i))) for i in range(0,n,c)]
            if n%c: raise ToolLimit('memcpy of a partial cell')
        else:
            if rs.dead: self.check(st,FALSE,nm+f' source: object {rs.name} still alive','memory')
            if not isnum(os_): return self.memcpy_sym(st,dst,src,ln,rd,od,rs,os_,nm)
            o=num(os_)
            if o+n>rs.size: self.check(st,FALSE,nm+' source: inside object','memory'); return
            vals=[]; i=0
            unit=st.cell if rd is None else 0
            while i<n:
                if unit: vals.append((i,unit,rs.read(o+i,unit))); i+=unit; continue
                c=rs.data.get(o+i)
                if c is not None and i+c[0]<=n: vals.append((i,c[0],c[1])); i+=c[0]
                else: vals.append((i,1,rs.byte(o+i))); i+=1
        if rd is None:
            self.chkheap(st,dst,ln,nm+' destination')
            for i,w,v in vals: self.hwrite(st,dst+bv(i),w,v)
        else:
            if rd.dead: self.check(st,FALSE,nm+f' destination: object {rd.name} still alive','memory')
            if not isnum(od): return self.memcpy_sym(st,dst,src,ln,rd,od,rs,os_,nm)
            o=num(od)
            if o+n>rd.size: self.check(st,FALSE,nm+' destination: inside object','memory'); return
            r=st.wreg(rd)
            for i,w,v in vals: r.write(o+i,w,v)
    def memcpy_sym(self,st,dst,src,ln,rd,od,rs,os_,nm):
        raise ToolLimit(f'{nm} of symbolic length/offset touching a local object at {self.where()}')
    def memset(self,st,dst,v,ln):
        ln=simp(ln); dst=asimp(dst)
        if isnum(ln) and num(ln)==0: return
        r,off=self.region_of(st,dst)
        if r is None:
            self.chkheap(st,dst,ln,'memset')
            c=st.cell
            val=v if c==1 else simp(z3.Concat(*([v]*c)))
            if c>1:
                al=simp(z3.Extract(c.bit_length()-2,0,ln)==0)
                if not z3.is_true(al): self.check(st,al,'memset: whole cells','memory')
            st.heap=Mem.fill(st.heap,dst,ln,val); return
        if r.dead: self.check(st,FALSE,f'memset: object {r.name} still alive','memory')
        if not isnum(ln) or not isnum(off): raise ToolLimit('symbolic memset of a local object')
        o=num(off); n=num(ln)
        if o+n>r.size: self.check(st,FALSE,'memset: inside object','memory'); return
        r=st.wreg(r); i=0
        while i<n:
            if (o+i)%8==0 and i+8<=n: r.write(o+i,8,simp(z3.Concat(*([v]*8)))); i+=8
            else: r.write(o+i,1,v); i+=1
    # ------------------------------------------------------------ operands
    def fnaddr_of(self,name):
        a=self.fnaddr.get(name)
        if a is None: a=self.fnaddr[name]=0x10000+16*len(self.fnaddr); self.fnaddr['@%d'%a]=name
        return bv(a)
    def gregion(self,st,name):
        rid=self.greg.get(name)
        if rid is None:
            g=self.m.globals[name]
            r=self.newregion(st,g.ty.size,name,align=max(g.ty.align,1))
            rid=self.greg[name]=r.id
            self._gproto=getattr(self,'_gproto',{})
            init=self.m.ginit(g)
            if init is not None: self.ginit(st,r,0,g.ty,init)
            r.ro=g.const
            self._gproto[rid]=r.copy()
        if rid not in st.regs: st.regs[rid]=self._gproto[rid].copy()
        return st.regs[rid]
    def ginit(self,st,r,off,ty,o):
        k=o[0]
        if k=='zero' or (k=='c' and o[2]==0 and ty.kind=='ptr'):
            for i in range(0,ty.size):
                if i%8==0 and i+8<=ty.size: r.write(off+i,8,bv(0))
                elif i//8*8+8>ty.size: r.write(off+i,1,bv(0,8))
        elif k=='agg':
            for i,x in enumerate(o[2]):
                if ty.kind=='array': self.ginit(st,r,off+i*ty.el.size,ty.el,x)
                else: self.ginit(st,r,off+ty.offs[i],ty.fields[i],x)
        elif k=='undef': pass
        else:
            v=self.val({},o,st)
            if z3.is_bool(v): v=z3.If(v,bv(1,8),bv(0,8))
            w=v.size()//8
            r.write(off,w,v)
    def val(self,env,o,st):
        k=o[0]
        if k=='r': return env[o[1]]
        if k=='c':
            if o[1]==1: return TRUE if o[2] else FALSE
            return BV(o[2],o[1])
        if k=='g': return self.gregion(st,o[1]).base
        if k=='f': return self.fnaddr_of(o[1])
        if k in('undef','zero'):
            return self.zero(o[1]) if k=='zero' else self.undef(o[1])
        if k=='ce':
            if o[1]=='gep':
                ops=[self.val(env,x,st) for x in o[4]]
                return self.gep(o[3],ops)
            if o[1] in('bitcast','ptrtoint','inttoptr'): return self.val(env,o[4][0],st)
        if k=='agg': return tuple(self.val(env,x,st) for x in o[2])
        raise ToolLimit(f'operand {o}')
    def zero(self,t):
        if t.kind=='int': return FALSE if t.w==1 else BV(0,t.w)
        if t.kind=='ptr': return bv(0)
        if t.kind=='struct': return tuple(self.zero(x) for x in t.fields)
        if t.kind=='array': return tuple(self.zero(t.el) for _ in range(t.n))
        raise ToolLimit('zero '+t.kind)
    def undef(self,t):
        if t.kind=='int': return self.tobool(self.fresh('undef',1)) if t.w==1 else self.fresh('undef',t.w)
        if t.kind=='ptr': return self.fresh('undef')
        if t.kind=='struct': return tuple(self.undef(x) for x in t.fields)
        raise ToolLimit('undef '+t.kind)
    def gep(self,ty,ops):
        a=ops[0]
        def ext(i): 
            return i if i.size()==64 else z3.SignExt(64-i.size(),i)
        i=ext(ops[1]); 
        if not(isnum(i) and num(i)==0): a=a+i*bv(ty.size)
        t=ty
        for x in ops[2:]:
            if t.kind=='struct':
                k=num(x); o=t.offs[k]; t=t.fields[k]
                if o: a=a+bv(o)
            elif t.kind=='array':
                t=t.el; i=ext(x)
                if not(isnum(i) and num(i)==0): a=a+i*bv(t.size)
            else: raise ToolLimit('gep into '+t.kind)
        return asimp(a)
    def tobool(self,v):
        if v is None: return TRUE
        if z3.is_bool(v): return v
        c=b01(v)
        if c is not None: return simp(c)
        return simp(v!=0) if v.size()>1 else simp(v==1)
    # ------------------------------------------------------------ calls
    def call(self,st,name,args):
        """-> list of (state, value)"""
        if self.deadline and time.time()>self.deadline: raise ToolLimit('time budget exhausted')
        model='vc_model_'+name
        if model in self.m.funcs and not self.m.funcs[model].decl and self.curfn[-1:]!=[model]:
            self.models_used.add(name); return self.call(st,model,args)
        fo=self.m.funcs[name]
        if name.startswith('vc_') and fo.decl: return self.vcintr(st,name,args)
        if name.startswith('llvm.'): return self.intrinsic(st,name,args)
        if fo.decl: return self.external(st,name,args)
        for rx,stub in self.contracts:
            if stub not in self.curfn and re.search(rx,name):
                sf=self.m.body(stub); self.m.body(name); fo=self.m.funcs[name]
                if len(sf.args)==len(args) and [t.kind for _,t in sf.args]==[t.kind for _,t in fo.args]:
                    self.contracts_used.add((rx,stub)); return self.call(st,stub,args)
        fo=self.m.body(name)
        if len(self.curfn)>200: raise ToolLimit('call depth in '+name)
        if self.curfn.count(name)>40: raise ToolLimit('recursion in '+name)
        self.curfn.append(name)
        env={}
        for (i,t),v in zip(fo.args,args): env[i]=v
        sl,sf=self.line,self.file
        allocas=[]
        fr=(fo,allocas,{})
        try: outs=self.run(fr,st,env,0,-1,lambda p,b:False,0,False)
        finally: self.curfn.pop()
        self.line,self.file=sl,sf
        res=[]
        for o in outs:
            s=o[1]; v=o[2]
            for rid in allocas:
                r=s.regs.get(rid)
                if r is not None and not r.dead:
                    if self.pure: pass
                    del s.regs[rid]
            res.append((s,v))
        return res
    def run(self,fr,st,env,bb,prev,stop,idx,phidone):
        """execute from instruction idx of block bb until stop(edge) or return.
        -> list of ('stop',state,env,prev,bb) | ('ret',state,value)"""
        fo,allocas,active=fr
        first=True
        while True:
            if idx==0 and not first and stop(prev,bb): return [('stop',st,env,prev,bb)]
            b=fo.blocks[bb]
            if idx==0 and not phidone and bb in fo.loops and prev not in fo.loops[bb] and not active.get(bb):
                outs=self.loop(fr,st,env,bb,prev,stop)
                res=[]
                for o in outs:
                    if o[0]=='ret': res.append(o); continue
                    _,s2,e2,p2,b2=o
                    if o[0]=='join': res.extend(self.run(fr,s2,e2,b2,p2,stop,0,True)); continue
                    if stop(p2,b2): res.append(o)
                    else: res.extend(self.run(fr,s2,e2,b2,p2,stop,0,False))
                return res
            first=False
            if idx==0 and not phidone:
                self.phis(st,env,b,prev)
            phidone=False
            n=len(b.insts)
            i=idx; idx=0
            forked=None
            while i<n-1:
                ins=b.insts[i]
                if ins.op=='phi': i+=1; continue
                if ins.line: self.line=ins.line; self.file=ins.file
                try: outs=self.inst(fr,st,env,ins)
                except PathEnd: return []
                i+=1
                if outs is None: continue
                if len(outs)==0: return []
                if len(outs)==1:
                    st,v=outs[0]
                    if v is not None: env[ins.id]=v
                    continue
                forked=(outs,ins); break
            if forked:
                res=[]
                outs,ins=forked
                sl,sf=self.line,self.file
                for k,(s,v) in enumerate(outs):
                    self.line,self.file=sl,sf
                    e=dict(env)
                    if v is not None: e[ins.id]=v
                    res.extend(self.run(fr,s,e,bb,prev,stop,i,True) if i>0 else [])
                return res
            t=b.insts[n-1]
            if t.line: self.line=t.line; self.file=t.file
            if t.op=='ret':
                v=self.val(env,t.ops[0],st) if t.ops else None
                return [('ret',st,v)]
            if t.op=='unreachable':
                self.check(st,FALSE,'unreachable code is not reached','control'); return []
            if t.op=='br' and len(t.x)==1:
                prev,bb=bb,t.x[0]; continue
            if t.op=='br':
                c=simp(self.tobool(self.val(env,t.ops[0],st)))
                tb,fb=t.x
                if tb==fb: prev,bb=bb,tb; continue
                if z3.is_true(c): prev,bb=bb,tb; continue
                if z3.is_false(c): prev,bb=bb,fb; continue
                return self.branch(fr,st,env,bb,[(c,tb),(NOT(c),fb)],stop)
            if t.op=='switch':
                v=self.val(env,t.ops[0],st); dflt,cs=t.x
                if isnum(v):
                    tgt=dflt
                    for k,x in cs:
                        if k==num(v): tgt=x
                    prev,bb=bb,tgt; continue
                arms=[(simp(v==BV(k,v.size())),x) for k,x in cs]
                arms.append((AND(*[NOT(a) for a,_ in arms]),dflt))
                return self.branch(fr,st,env,bb,arms,stop)
            raise ToolLimit('terminator '+t.op)
    def phis(self,st,env,b,prev):
        vs=[]
        for ins in b.insts:
            if ins.op!='phi': break
            for p,o in ins.x:
                if p==prev: vs.append((ins.id,self.val(env,o,st))); break
            else: raise ToolLimit('phi without incoming edge')
        for i,v in vs: env[i]=v
    def branch(self,fr,st,env,bb,arms,stop):
        fo=fr[0]
        J0=fo.ipdom[bb]; implied=True
        if not self.pure and J0 is not None and J0<len(fo.blocks) and not stop(bb,J0) and len(arms)==2 and all(t==J0 or self.purearm(fo,t,J0) for c,t in arms):
            feas=arms   # both arms only compute values and meet again: no case split needed
        elif not self.pure:
            self.instantiate(st)
            feas=[]
            poss=[x for x in arms if not self.quick(st,x[0])]
            if len(poss)==1: feas=poss
            else:
                for k,(c,t) in enumerate(poss):
                    if len(poss)==2 and k==1 and not feas: feas.append((c,t)); implied=False; break
                    if self.feasible(st,c,True): feas.append((c,t))
                    else: implied=False
        else: feas=arms
        J=fo.ipdom[bb]
        if J is not None and J>=len(fo.blocks): J=None
        # a loop header post-dominating its own body is a stop anyway
        stop2=(lambda p,b:b==J or stop(p,b)) if J is not None else stop
        outs=[]
        sl,sf=self.line,self.file
        for c,t in feas:
            self.line,self.file=sl,sf
            s=st if len(feas)==1 else st.copy(); e=env if len(feas)==1 else dict(env)
            if len(feas)>1 or (not self.pure and not implied): self.addpc(s,c)
            if stop2(bb,t): outs.append((c,[('stop',s,e,bb,t)]))
            else: outs.append((c,self.run(fr,s,e,t,bb,stop2,0,False)))
        res=[]
        atJ=[]
        for c,os_ in outs:
            for o in os_:
                if o[0]=='stop' and o[4]==J and not stop(o[3],J): atJ.append((c,o))
                else: res.append(o)
        if not atJ: return res
        if len(atJ)>1:
            atJ=self.mergeall(fr,st,atJ,J)
        else: atJ=[(False,)+atJ[0][1][1:]]
        for done,s,e,p,b in atJ:
            res.extend(self.run(fr,s,e,J,p,stop,0,done))
        return res
    def purearm(self,fo,t,J):
        k=(t,J); c=fo.__dict__.setdefault('_pure',{}) if hasattr(fo,'__dict__') else self._purec.setdefault(fo.name,{})
        if k in c: return c[k]
        b=fo.blocks[t]; z=b.insts[-1]
        c[k]=z.op=='br' and len(z.x)==1 and z.x[0]==J and all(i.op in PURE for i in b.insts[:-1])
        return c[k]
    def samemem(self,a,b):
        if a.heap is not b.heap or len(a.hyps)!=len(b.hyps): return False
        for x,y in zip(a.hyps,b.hyps):
            if x is not y: return False
        for k in set(a.ghost)|set(b.ghost):
            if a.ghost.get(k) is not b.ghost.get(k): return False
        return True
    def mergeregs(self,c,a,b,base):
        """regions of a (under c) and b (otherwise); None if they cannot be merged simply"""
        out={}
        for rid in set(a.regs)|set(b.regs):
            x=a.regs.get(rid); y=b.regs.get(rid)
            if x is None or y is None or x is y: out[rid]=x if y is None else y; continue
            if x.dead or y.dead:
                if x.dead!=y.dead: return None
                out[rid]=x; continue
            r=x.copy()
            if x.data.keys()!=y.data.keys() or any(x.data[k][0]!=y.data[k][0] for k in x.data):
                return None
            for k in x.data:
                u,v=x.data[k][1],y.data[k][1]
                if u is v or u.eq(v): continue
                if self.haslocal(u) or self.haslocal(v): return None
                r.data[k]=(x.data[k][0],z3.If(c,u,v))
            out[rid]=r
        return out
    def mergeall(self,fr,st0,items,J,live=False):
        """merge the states that meet at block J, where nothing but values differ"""
        fo=fr[0]; b=fo.blocks[J]
        rows=[]
        n0=len(st0.pc)
        for c,o in items:
            _,s,e,p,_=o
            e=dict(e); self.phis(s,e,b,p)
            ph={ins.id:e[ins.id] for ins in b.insts if ins.op=='phi'}
            rows.append([AND(*s.pc[n0:]),s,e,ph,p])
        if live:   # values of different iterations: whatever may still be used is merged like a phi
            ks=[k for k in rows[0][2] if k not in rows[0][3] and all(k in r[2] for r in rows) and any(r[2][k] is not rows[0][2][k] for r in rows)]
            for r in rows:
                for k in ks: r[3][k]=r[2][k]
                r[2]={k:v for k,v in r[2].items() if all(k in q[2] for q in rows)} if r is rows[0] else r[2]
        merged=[rows[0]]
        for r in rows[1:]:
            done=False
            for m in merged:
                if self.pure and not self.samemem(m[1],r[1]) and not self.claims: pass
                if not self.samemem(m[1],r[1]): continue
                if any((isinstance(m[3][k],tuple) or isinstance(r[3][k],tuple)) and m[3][k] is not r[3][k] for k in m[3]): continue
                if any((not isinstance(m[3][k],tuple)) and not z3.is_bool(m[3][k]) and not m[3][k].eq(r[3][k]) and (self.haslocal(m[3][k]) or self.haslocal(r[3][k])) for k in m[3]) and not self.pure: continue
                g=m[0]
                regs=self.mergeregs(g,m[1],r[1],st0)
                if regs is None: continue
                s=m[1].copy(); s.regs=regs
                s.pc=list(st0.pc); cond=OR(m[0],r[0]); self.addpc(s,cond)
                # an exhaustive split needs no extra fact
                s.done=m[1].done&r[1].done
                for k,v in r[1].terms.items():
                    for t in v: self.term(s,k,t)
                ph={k:ITE(g,m[3][k],r[3][k]) for k in m[3]}
                m[0]=cond; m[1]=s; m[3]=ph
                done=True; break
            if not done: merged.append(r)
        out=[]
        for g,s,e,ph,p in merged:
            e=dict(e); e.update(ph)
            out.append((True,s,e,p,J))
        return out
    # ------------------------------------------------------------ loops
    def loop(self,fr,st,env,h,prev,outer=None):
        fo,allocas,active=fr
        body=fo.loops[h]
        # 1. complete unwinding when every exit test is decided
        lim=st.unroll if st.unroll else 80
        if not self.pure or True:
            r=self.unwind(fr,st.copy(),dict(env),h,prev,lim,bool(st.unroll))
            if r is not None: return self.joinexits(fr,st,r,outer)
        if self.pure: raise ToolLimit('undecided loop inside a specification closure')
        return self.loopinv(fr,st,env,h,prev)
    def joinexits(self,fr,st,outs,outer):
        """a loop that was unwound and left in several iterations: its exits meet again"""
        if self.pure or len(outs)<2 or outer is None: return outs
        res=[]; by={}
        for o in outs:
            if o[0]!='stop' or outer(o[3],o[4]): res.append(o)
            else: by.setdefault(o[4],[]).append(o)
        for J,os_ in by.items():
            if len(os_)==1: res.append(os_[0]); continue
            for done,s,e,p,b in self.mergeall(fr,st,[(None,o) for o in os_],J,True): res.append(('join',s,e,p,J))
        return res
    def unwind(self,fr,st,env,h,prev,lim,forced):
        fo,allocas,active=fr; body=fo.loops[h]
        stop=lambda p,b:(b==h and p in body) or b not in body
        exits=[]; cur=[(st,env,prev)]
        nob=len(self.obligs); saved=(len(self.obligs),len(self.inputs))
        back=dict(self.backends); rch=dict(self.reach); cl=None if self.claims is None else len(self.claims)
        q=self.v; 
        def abort():
            del self.obligs[nob:]; self.backends=back; self.reach=rch
            if cl is not None: del self.claims[cl:]
            return None
        t0=time.time(); early=0
        for it in range(lim+1):
            nxt=[]; nexit=0
            if early and time.time()-t0>90: return abort()
            for s,e,p in cur:
                active[h]=True; self.decided=set()
                s=s.copy(); e=dict(e)
                self.phis(s,e,fo.blocks[h],p)
                outs=self.run(fr,s,e,h,p,stop,0,True)
                active[h]=False
                b=[o for o in outs if o[0]=='stop' and o[4]==h and o[3] in body]
                x=[o for o in outs if not(o[0]=='stop' and o[4]==h and o[3] in body)]
                if not forced and b and x:
                    # left early on some inputs: go on as long as a test of the loop counter is decided
                    if self.pure or len(b)>1 or not any((fo.name,i.id) in self.decided for k in body for i in fo.blocks[k].insts): return abort()
                    early+=1
                if not forced and len(b)>4: return abort()
                exits+=x; nxt+=[(o[1],o[2],o[3]) for o in b]
            if not nxt: return exits
            if len(nxt)>64: return abort()
            cur=nxt
        if forced:
            for s,e,p in cur: self.check(s,FALSE,f'loop ends within {lim} iterations','unwinding')
            return exits
        return abort()
    def loopinv(self,fr,st,env,h,prev):
        fo,allocas,active=fr; body=fo.loops[h]; hb=fo.blocks[h]
        self.instantiate(st)
        stop=lambda p,b:(b==h and p in body) or b not in body
        e0=dict(env); self.phis(st,e0,hb,prev)
        phis=[i.id for i in hb.insts if i.op=='phi']
        tag=f'L{len(self.loopinfo)}'
        mods={'reg':set(),'heap':False,'ghost':set()}
        it=self.fresh('it')
        live0=set(st.regs)
        def havoc(closed=None):
            s=st.copy(); e=dict(env)
            vars_=[]
            for p in phis:
                v0=e0[p]
                if isinstance(v0,tuple): raise ToolLimit('aggregate loop variable')
                f=self.havocval(('p',p),v0,closed,it)
                e[p]=f; vars_.append((('p',p),v0,f))
            for key in sorted(mods['reg']):
                rid,off,w=key
                v0=st.regs[rid].read(off,w)
                f=self.havocval(key,v0,closed,it)
                s.wreg(s.regs[rid]).write(off,w,f); vars_.append((key,v0,f))
            if mods['heap']: s.heap=Mem.base(f'H!{tag}!{self.fresh("h").decl().name()}',8*st.cell)
            for g in sorted(mods['ghost']): s.ghost[g]=Mem.base(f'G!{g}!{self.fresh("g").decl().name()}',64)
            return s,e,vars_
        def bodyrun(s,e):
            active[h]=True
            try: outs=self.run(fr,s,e,h,prev,stop,0,True)
            finally: active[h]=False
            b=[o for o in outs if o[0]=='stop' and o[4]==h and o[3] in body]
            x=[o for o in outs if not(o[0]=='stop' and o[4]==h and o[3] in body)]
            return b,x
        def backval(o,key):
            _,s,e,p,_b=o
            if key[0]=='p':
                for ins in hb.insts:
                    if ins.op=='phi' and ins.id==key[1]:
                        for q,v in ins.x:
                            if q==p: return self.val(e,v,s)
            rid,off,w=key
            return s.regs[rid].read(off,w)
        self.quiet+=1
        svinfo=len(self.loopinfo)
        try:
            # 2. what does the body modify?
            while True:
                s,e,vars_=havoc()
                back,_=bodyrun(s.copy(),dict(e))
                new=False
                for o in back:
                    s2=o[1]
                    for rid in live0:
                        r1=s.regs[rid]; r2=s2.regs.get(rid)
                        if r2 is None or r1 is r2 or r2.dead: continue
                        for k,(w,v) in r2.data.items():
                            x=r1.data.get(k)
                            if x is None or x[0]!=w or not x[1].eq(v):
                                ent=(rid,k,w)
                                if ent not in mods['reg'] and x is not None and x[0]==w: mods['reg'].add(ent); new=True
                                elif ent not in mods['reg']:
                                    # shape changed: havoc as the new shape
                                    mods['reg'].add(ent); new=True
                    if s2.heap is not s.heap and not mods['heap']: mods['heap']=True; new=True
                    for g in set(s2.ghost)|set(s.ghost):
                        if s2.ghost.get(g) is not s.ghost.get(g) and g not in mods['ghost']: mods['ghost'].add(g); new=True
                if not new: break
            # 3. closed forms v = v0 + c*it
            closed={}
            for key,v0,f in vars_:
                if z3.is_bool(f): continue
                ds=[asimp(backval(o,key)-f) for o in back]
                if ds and all(isnum(d) and num(d)==num(ds[0]) for d in ds): closed[key]=ds[0]
            s,e,vars_=havoc(closed)
            # 4. candidates
            cands=[]  # (cand closure, var key or None)
            for ci,(kind,cfn,ctx,snap) in enumerate(st.invs):
                if kind==0: cands.append((ci,cfn,ctx,snap,()))
                elif kind==1:
                    for key,v0,f in vars_:
                        if not z3.is_bool(f) and f.size()==64: cands.append((ci,cfn,ctx,snap,(key,)))
                elif kind==2:
                    ks=[k for k,v0,f in vars_ if not z3.is_bool(f) and f.size()==64]
                    for a in ks:
                        for b2 in ks:
                            if a!=b2: cands.append((ci,cfn,ctx,snap,(a,b2)))
            auto=self.autocands(fo,h,body,e,s,vars_,closed)
            bound=z3.ULE(it,bv(1<<48)); auto.append(bound)
            def val_of(o,key):
                if o is None: return dict((k,v) for k,v,_ in vars_)[key]
                return backval(o,key)
            hv={k:f for k,_,f in vars_}
            self.snaps.append(st.copy()); esnap=len(self.snaps)-1
            def claims(c,state,itv,vals):
                ci,cfn,ctx,snap,keys=c
                self.entrysnap=esnap
                return self.runclaims(state,cfn,ctx,[itv]+[vals[k] for k in keys])
            alive=[]
            v0s={k:v for k,v,_ in vars_}
            E=st.copy()
            for c in cands:
                cl=claims(c,E,bv(0),v0s)
                for j,x in enumerate(cl):
                    ok=self.holds_claim(E.copy(),x,timeout=6000)
                    if ok: alive.append((c,j))
                    elif self.v>2: print('   cand dropped at entry',c[0],c[4],j,file=sys.stderr)
            aut=[]
            for f in auto:
                g=self.subst_entry(f,vars_,it)
                if self.solve(self.facts(E)+[NOT(g)],timeout=3000)=='unsat': aut.append(f)
            # 5. Houdini
            rounds=0
            while True:
                rounds+=1
                S=s.copy()
                for f in aut: self.addpc(S,f)
                cache={}
                for c,j in alive:
                    if c not in cache: cache[c]=claims(c,S,it,hv)
                for c,j in alive: self.assume_claim(S,cache[c][j])
                self.term(S,0,it); self.term(S,0,it-1 if False else it)
                back,_=bodyrun(S.copy(),dict(e))
                drop=[]; dropa=[]
                for o in back:
                    bs=o[1]
                    self.term(bs,0,it+1)
                    vals={}
                    for k,_,_f in vars_: vals[k]=backval(o,k)
                    memo={}
                    for c,j in alive:
                        if (c,j) in drop: continue
                        if c not in memo: memo[c]=claims(c,bs,it+1,vals)
                        cl=memo[c]
                        if j>=len(cl) or not self.holds_claim(bs.copy(),cl[j],timeout=12000):
                            drop.append((c,j))
                            if self.v>1: print(f'   cand {c[0]} {c[4]} claim {j} dropped (round {rounds}) loop at line {self.looplines(fo,h)}',file=sys.stderr)
                    for f in aut:
                        if f in dropa: continue
                        g=z3.substitute(f,*[(x,vals[k]) for k,_,x in vars_ if not x.eq(vals[k]) and z3.is_const(x)],(it,it+1))
                        if self.solve(self.facts(bs)+[NOT(g)],timeout=3000)!='unsat': dropa.append(f)
                if not drop and not dropa: break
                alive=[x for x in alive if x not in drop]; aut=[f for f in aut if not any(f is g for g in dropa)]
        finally: self.quiet-=1
        # 6. final: obligations on
        S=s.copy()
        for f in aut: self.addpc(S,f)
        cache={}
        for c,j in alive:
            if c not in cache: cache[c]=claims(c,S,it,hv)
            self.assume_claim(S,cache[c][j])
        self.term(S,0,it)
        if not self.quiet:
            self.loopinfo.append(dict(fn=self.curfn[-1],line=self.looplines(fo,h),vars=len(vars_),closed=len(closed),cands=len(cands),kept=[(c[0],str(c[4]),j) for c,j in alive],auto=len(aut),rounds=rounds,heap=mods['heap'],ghost=sorted(mods['ghost'])))
            if self.v>1: print('   loop',self.loopinfo[-1],file=sys.stderr)
        back,ex=bodyrun(S,dict(e))
        if not self.quiet and back:
            # 'it' counts the iterations exactly; an inductive bound on it means that the loop ends
            o=Oblig(); o.label='loop ends'; o.where=f'{fo.name}:{self.looplines(fo,h)}'; o.model=None; o.detail='termination'; o.backend='z3'; o.time=0
            o.status='unsat' if any(f is bound for f in aut) else 'unknown'
            if o.status!='unsat':
                S2=s.copy()
                for c,j in alive: self.assume_claim(S2,cache[c][j])
                self.term(S2,0,it); self.instantiate(S2)
                if self.solve(self.facts(S2)+[NOT(bound)])=='unsat': o.status='unsat'
            self.obligs.append(o); self.backends['z3']=self.backends.get('z3',0)+1
            if self.v and o.status!='unsat': print('  NO TERMINATION PROOF',o.where,file=sys.stderr)
        return ex
    def looplines(self,fo,h):
        for i in fo.blocks[h].insts:
            if i.line: return i.line
        return 0
    def subst_entry(self,f,vars_,it):
        return z3.substitute(f,*[(x,v) for _,v,x in vars_ if z3.is_const(x) and not isnum(x)],(it,bv(0)))
    def havocval(self,key,v0,closed,it):
        if closed is not None and key in closed:
            c=closed[key]
            if num(c)==0: return v0
            return asimp(v0+(it if v0.size()==64 else z3.Extract(v0.size()-1,0,it))*c)
        if z3.is_bool(v0): return self.tobool(self.fresh('lv',1))
        return self.fresh('lv',v0.size())
    def autocands(self,fo,h,body,e,s,vars_,closed):
        out=[]
        for bb in body:
            b=fo.blocks[bb]; t=b.insts[-1]
            if t.op!='br' or len(t.x)!=2: continue
            inb=[x in body for x in t.x]
            if all(inb): continue
            cond=t.ops[0]
            d=None
            for ins in b.insts:
                if ins.op=='icmp' and cond==('r',ins.id): d=ins
            if d is None: continue
            # evaluate operands in the header state when they are available there
            try:
                s2=s.copy(); e2=dict(e)
                if bb!=h: continue
                self.pure+=1; 
                try:
                    for ins in b.insts:
                        if ins is d: break
                        if ins.op=='phi': continue
                        o=self.inst((fo,[],{}),s2,e2,ins)
                        if o is not None:
                            if len(o)!=1: raise ToolLimit('x')
                            s2=o[0][0]
                            if o[0][1] is not None: e2[ins.id]=o[0][1]
                    a=self.val(e2,d.ops[0],s2); c=self.val(e2,d.ops[1],s2)
                finally: self.pure-=1
            except (ToolLimit,PathEnd,KeyError): continue
            out+= [simp(z3.ULE(a,c)),simp(z3.UGE(a,c)),simp(a<=c),simp(a>=c)]
            if closed:
                for (k,v0,f) in vars_:
                    if k in closed and num(closed[k])!=0:
                        pass
        return [f for f in out if not z3.is_true(f) and not z3.is_false(f)]
    # ------------------------------------------------------------ instructions
    def inst(self,fr,st,env,i):
        op=i.op
        V=lambda k:self.val(env,i.ops[k],st)
        if op in BIN:
            a=V(0); b=V(1)
            if z3.is_bool(a):
                if op=='and': env[i.id]=simp(z3.And(a,b))
                elif op=='or': env[i.id]=simp(z3.Or(a,b))
                elif op=='xor': env[i.id]=simp(z3.Xor(a,b))
                else: raise ToolLimit('i1 '+op)
                return None
            if op in('udiv','urem','sdiv','srem'):
                if not(isnum(b) and num(b)!=0): self.check(st,b!=0,'division by zero','arith')
                if op=='sdiv' and i.x and isnum(b): env[i.id]=self.exactdiv(st,a,b); return None
            if op in('and','or','xor'):
                x=b01(a); y=None if x is None else b01(b)
                if y is not None:
                    c=simp({'and':z3.And,'or':z3.Or,'xor':z3.Xor}[op](x,y)); w=a.size()
                    env[i.id]=bv(1,w) if z3.is_true(c) else bv(0,w) if z3.is_false(c) else z3.If(c,bv(1,w),bv(0,w)); return None
            if op=='sub': r=asimp(a-b)
            elif op=='add': r=asimp(a+b)
            else: r=simp(BIN[op](a,b))
            env[i.id]=r
            return None
        if op=='icmp':
            a=V(0); b=V(1)
            if z3.is_bool(a):
                r={'eq':a==b,'ne':z3.Xor(a,b)}[i.x]
            elif i.x in ORD and not isnum(a) and not isnum(b): r=self.order(a,b,i.x)
            else: r=CMP[i.x](a,b)
            r=simp(r)
            if i.x in('eq','ne') and not z3.is_true(r) and not z3.is_false(r):
                k=self.ptreq(st,a,b)
                if k is not None: r=z3.BoolVal(k if i.x=='eq' else not k)
            elif not self.pure and not z3.is_bool(a) and (z3.is_true(r) or z3.is_false(r) or i.x in ORD) and isnum(asimp(a-b)): self.decided.add((fr[0].name,i.id))
            env[i.id]=r; return None
        if op=='load':
            t=i.ty; a=V(0)
            if i.x not in('na','unordered') : self.atomic_hook(st,a)
            outs=self.load(st,a,t.store if t.kind in('int','ptr') else t.size)
            return [(s,self.fromint(v,t)) for s,v in outs]
        if op=='store':
            v=V(0); a=V(1)
            if i.x not in('na','unordered') : self.atomic_hook(st,a)
            if isinstance(v,tuple): raise ToolLimit('aggregate store')
            if z3.is_bool(v): v=z3.If(v,bv(1,8),bv(0,8))
            if v.size()%8: v=z3.ZeroExt(8-v.size()%8,v)
            outs=self.store(st,a,v.size()//8,simp(v))
            return [(s,None) for s in outs]
        if op=='gep':
            env[i.id]=self.gep(i.x,[V(k) for k in range(len(i.ops))]); return None
        if op=='alloca':
            cnt=V(0)
            if not isnum(cnt): raise ToolLimit('dynamic alloca')
            t=i.x
            sym=fr[0].name.startswith('h_') and t.kind=='struct' and not self.pure
            r=self.newregion(st,t.size*num(cnt),f'{fr[0].name}:%{i.id}',sym=sym and not self.anon(i),align=t.align)
            fr[1].append(r.id); env[i.id]=r.base; return None
        if op in('bitcast','ptrtoint','inttoptr','freeze','addrspacecast'):
            v=V(0)
            if i.ty.kind=='int' and not z3.is_bool(v) and v.size()!=i.ty.w: v=simp(z3.Extract(i.ty.w-1,0,v) if i.ty.w<v.size() else z3.ZeroExt(i.ty.w-v.size(),v))
            env[i.id]=v; return None
        if op=='zext':
            v=V(0)
            c=v if z3.is_bool(v) else b01(v)
            env[i.id]=simp(z3.If(c,BV(1,i.ty.w),BV(0,i.ty.w))) if c is not None else simp(z3.ZeroExt(i.ty.w-v.size(),v)); return None
        if op=='sext':
            v=V(0)
            env[i.id]=simp(z3.If(v,BV(-1,i.ty.w),BV(0,i.ty.w))) if z3.is_bool(v) else simp(z3.SignExt(i.ty.w-v.size(),v)); return None
        if op=='trunc':
            v=V(0)
            c=b01(v)
            env[i.id]=(simp(z3.Extract(0,0,v)==1) if c is None else simp(c)) if i.ty.w==1 else simp(z3.Extract(i.ty.w-1,0,v)); return None
        if op=='select':
            c=self.tobool(V(0)); env[i.id]=ITE(simp(c),V(1),V(2)); return None
        if op=='call': return self.docall(fr,st,env,i)
        if op=='extractvalue':
            v=V(0)
            for k in i.x: v=v[k]
            env[i.id]=v; return None
        if op=='insertvalue':
            a=V(0); v=V(1)
            def ins(a,ix):
                a=list(a)
                a[ix[0]]=v if len(ix)==1 else ins(a[ix[0]],ix[1:])
                return tuple(a)
            env[i.id]=ins(a,i.x); return None
        if op=='atomicrmw':
            a=V(0); v=V(1); o,order=i.x
            self.atomic_hook(st,a)
            self.lastorder=order
            w=v.size()//8
            res=[]
            for s,old in self.load(st,a,w,'atomic'):
                nv={'add':lambda:old+v,'sub':lambda:old-v,'xchg':lambda:v,'and':lambda:old&v,'or':lambda:old|v,'xor':lambda:old^v}.get(o)
                if nv is None: raise ToolLimit('atomicrmw '+o)
                for s2 in self.store(s,a,w,simp(nv()),'atomic'):
                    self.atomic_post(s2,a,o,order)
                    res.append((s2,old))
            return res
        if op=='cmpxchg':
            a=V(0); exp=V(1); new=V(2); self.atomic_hook(st,a)
            w=new.size()//8; res=[]
            for s,old in self.load(st,a,w,'atomic'):
                eq=simp(old==exp)
                for s2 in self.store(s,a,w,ITE(eq,new,old),'atomic'):
                    self.atomic_post(s2,a,'cas',i.x)
                    res.append((s2,(old,eq)))
            return res
        if op=='fence':
            f='vc_fence'
            if not self.pure and f in self.m.funcs and not self.m.funcs[f].decl:
                self.adopt(st,self.call(st,f,[bv(self.ORDER.get(i.x,3))]),f)
            return None
        raise ToolLimit(f'instruction {op} at {self.where()}')
    def order(self,a,b,op):
        """unsigned comparison; a < a+d with constant d says exactly that a+d does not wrap"""
        d=asimp(b-a)
        if not isnum(d): return CMP[op](a,b)
        if num(d)==0: return z3.BoolVal(op in('ule','uge'))
        lt=z3.ULE(a,~d)          # a < b
        return lt if op in('ult','ule') else z3.Not(lt)
    ORDER={'monotonic':0,'unordered':0,'acquire':1,'release':2,'acq_rel':3,'seq_cst':3}
    def atomic_hook(self,st,a):
        if self.pure: return
        f='vc_atomic_before'
        if f in self.m.funcs and not self.m.funcs[f].decl:
            outs=self.call(st,f,[a])
            self.adopt(st,outs,f)
    def atomic_post(self,st,a,o,order):
        if self.pure: return
        f='vc_atomic_after'
        if f in self.m.funcs and not self.m.funcs[f].decl:
            k=self.ORDER.get(order,0)
            outs=self.call(st,f,[a,bv({'add':0,'sub':1}.get(o,2)),bv(k)])
            self.adopt(st,outs,f)
    def adopt(self,st,outs,f):
        if len(outs)!=1: raise ToolLimit(f+' must not branch')
        o=outs[0][0]
        if o is not st:
            for k in State.__slots__:
                if hasattr(o,k): setattr(st,k,getattr(o,k))
    def anon(self,i):
        return i.x.size==0
    def ptreq(self,st,a,b):
        """decide equality of addresses that both name local objects / null"""
        if a.size()!=64: return None
        ra,oa=self.split(a); rb,ob=self.split(b)
        if ra is None and rb is None: return None
        if ra is not None and rb is not None and ra!=rb and isnum(oa) and isnum(ob):
            if num(oa)<=self.rsize(st,ra) and num(ob)<=self.rsize(st,rb) and (num(oa)<self.rsize(st,ra) or num(ob)!=0) and (num(ob)<self.rsize(st,rb) or num(oa)!=0): return False
        if ra is not None and isnum(b) and num(b)==0 and isnum(oa) and num(oa)<=self.rsize(st,ra): return False
        if rb is not None and isnum(a) and num(a)==0 and isnum(ob) and num(ob)<=self.rsize(st,rb): return False
        return None
    def rsize(self,st,rid):
        r=st.regs.get(rid); return r.size if r is not None else 0
    def exactdiv(self,st,a,b):
        """pointer difference divided by the element size: exact by the language rules"""
        c=num(b)
        a=asimp(a)
        if isnum(a):
            x=num(a); x=x-(1<<64) if x>>63 else x
            if x%c==0: return bv((x//c)&((1<<64)-1))
        if c&(c-1)==0:
            k=c.bit_length()-1
            q=self.divlin(a,c)
            if q is not None:
                lim=1<<(63-k)
                f=z3.And(q<lim,q>=-lim)
                if self.pure: pass
                elif self.solve(self.facts(st)+[NOT(f)],timeout=2000)=='unsat': return q
            return simp(a>>k)
        q=self.divlin(a,c)
        if q is not None:
            lim=((1<<63)-1)//c
            f=z3.And(q<=lim,q>=-lim)
            if self.pure or self.solve(self.facts(st)+[NOT(f)],timeout=2000)=='unsat': return q
        self.check(st,z3.SRem(a,b)==0,'pointer difference is a whole number of elements','arith')
        return simp(a/b)
    def divlin(self,a,c):
        """a = c * q syntactically -> q"""
        args=a.children() if z3.is_app_of(a,z3.Z3_OP_BADD) else [a]
        out=[]
        for x in args:
            if isnum(x):
                v=num(x); v=v-(1<<64) if v>>63 else v
                if v%c: return None
                out.append(bv((v//c)&((1<<64)-1)))
            elif z3.is_app_of(x,z3.Z3_OP_BMUL) and isnum(x.arg(0)):
                v=num(x.arg(0)); v=v-(1<<64) if v>>63 else v
                if v%c: return None
                r=x.children()[1:]
                p=r[0]
                for y in r[1:]: p=p*y
                out.append(p*bv((v//c)&((1<<64)-1)))
            elif z3.is_app_of(x,z3.Z3_OP_CONCAT) and c&(c-1)==0: return None
            else: return None
        r=out[0]
        for y in out[1:]: r=r+y
        return asimp(r)
    def fromint(self,v,t):
        if t.kind=='int' and t.w==1: c=b01(v); return simp(z3.Extract(0,0,v)==1) if c is None else simp(c)
        if t.kind=='int' and t.w%8: return simp(z3.Extract(t.w-1,0,v))
        if t.kind in('struct','array','float','vec'): raise ToolLimit('load of '+t.kind)
        return v
    def docall(self,fr,st,env,i):
        tgt=i.x
        if tgt[0]=='f': name=tgt[1]
        elif tgt[0]=='r' or tgt[0]=='ce':
            a=simp(self.val(env,tgt,st))
            if not isnum(a) or ('@%d'%num(a)) not in self.fnaddr: raise ToolLimit('indirect call')
            name=self.fnaddr['@%d'%num(a)]
        else: raise ToolLimit('call of '+str(tgt))
        if name.startswith(('llvm.dbg','llvm.lifetime','llvm.experimental.noalias','llvm.stacksave','llvm.stackrestore','llvm.prefetch')): return None
        args=[]
        for o in i.ops:
            if o[0]=='md': args.append(None)
            else: args.append(self.val(env,o,st))
        if self.file.startswith('/') and '/ktl/' in self.file: self.used.add(fr[0].name)
        elif '/ktl/' in self.file: self.used.add(fr[0].name)
        outs=self.call(st,name,args)
        if self.line!=i.line and i.line: self.line=i.line; self.file=i.file
        return outs
    def external(self,st,name,args):
        raise ToolLimit(f'call of external function {name} at {self.where()}')
    def intrinsic(self,st,name,args):
        p=name.split('.')
        n=p[1]
        if n=='memcpy': self.memcpy(st,args[0],args[1],args[2],False); return [(st,None)]
        if n=='memmove': self.memcpy(st,args[0],args[1],args[2],True); return [(st,None)]
        if n=='memset': self.memset(st,args[0],args[1],args[2]); return [(st,None)]
        if n in('umax','umin','smax','smin'):
            a,b=args[:2]
            c={'umax':z3.UGE(a,b),'umin':z3.ULE(a,b),'smax':a>=b,'smin':a<=b}[n]
            return [(st,ITE(simp(c),a,b))]
        if n in('assume','donothing'): return [(st,None)]
        if n in('expect','ssa','launder','strip'): return [(st,args[0])]
        if n in('trap','debugtrap'):
            self.check(st,FALSE,'trap is not reached','control')
            return [] if n=='trap' else [(st,None)]
        if n in('uadd','umul','usub','sadd','ssub','smul') and len(p)>2 and p[2]=='with':
            a,b=args[:2]; w=a.size()
            if n=='uadd': r=(a+b,z3.Not(z3.BVAddNoOverflow(a,b,False)))
            elif n=='umul': r=(a*b,z3.Not(z3.BVMulNoOverflow(a,b,False)))
            elif n=='usub': r=(a-b,z3.ULT(a,b))
            elif n=='sadd': r=(a+b,z3.Not(z3.And(z3.BVAddNoOverflow(a,b,True),z3.BVAddNoUnderflow(a,b))))
            elif n=='ssub': r=(a-b,z3.Not(z3.And(z3.BVSubNoOverflow(a,b),z3.BVSubNoUnderflow(a,b,True))))
            else: r=(a*b,z3.Not(z3.And(z3.BVMulNoOverflow(a,b,True),z3.BVMulNoUnderflow(a,b))))
            return [(st,(simp(r[0]),simp(r[1])))]
        if n=='ctlz':
            a=args[0]; w=a.size(); r=BV(w,w)
            for k in range(w): r=z3.If(z3.Extract(k,k,a)==1,BV(w-1-k,w),r)
            return [(st,r)]
        if n=='cttz':
            a=args[0]; w=a.size(); r=BV(w,w)
            for k in reversed(range(w)): r=z3.If(z3.Extract(k,k,a)==1,BV(k,w),r)
            return [(st,r)]
        if n=='ctpop':
            a=args[0]; w=a.size(); r=BV(0,w)
            for k in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(k,k,a))
            return [(st,r)]
        if n=='abs':
            a=args[0]; return [(st,z3.If(a<0,-a,a))]
        if n in('fshl',):
            a,b,c=args; w=a.size(); c=z3.URem(c,BV(w,w)); return [(st,simp(z3.If(c==0,a,(a<<c)|z3.LShR(b,BV(w,w)-c))))]
        raise ToolLimit('intrinsic '+name)
    # ------------------------------------------------------------ specification intrinsics
    def cstr(self,st,p):
        r,off=self.region_of(st,p)
        if r is None: raise ToolLimit('non-constant string')
        o=num(off); s=b''
        while o<r.size:
            c=simp(r.byte(o))
            if not isnum(c): raise ToolLimit('non-constant string')
            if num(c)==0: break
            s+=bytes([num(c)]); o+=1
        return s.decode('latin1')
    def gmap(self,st,name):
        g=st.ghost.get(name)
        if g is None: raise ToolLimit('ghost map '+name+' not declared')
        return g
    def fnname(self,p):
        return self.fnaddr['@%d'%num(simp(p))]
    def vcintr(self,st,name,a):
        n=name[3:]
        if n=='assume':
            c=self.tobool(a[0])
            if self.pure: st.pc.append(c); return [(st,None)]
            self.addpc(st,c)
            if z3.is_false(simp(c)): return []
            return [(st,None)]
        if n=='check':
            self.check(st,self.tobool(a[0]),self.cstr(st,a[1])); return [(st,None)]
        if n=='any':
            nm=self.cstr(st,a[0]); v=self.fresh(nm); 
            if not self.quiet: self.inputs.append((nm,v))
            return [(st,v)]
        if n=='fun1' or n=='fun2':
            nm=self.cstr(st,a[0]); k=int(n[3])
            f=z3.Function('F!'+nm,*([z3.BitVecSort(64)]*(k+1)))
            return [(st,f(*[simp(x) for x in a[1:1+k]]))]
        if n=='gmap':   # declare: arbitrary contents
            nm=self.cstr(st,a[0]); st.ghost[nm]=Mem.base(f'G!{nm}!{self.fresh("g").decl().name()}',64); return [(st,None)]
        if n=='gzero':
            nm=self.cstr(st,a[0]); st.ghost[nm]=Mem.const(a[1]); return [(st,None)]
        if n=='gget':
            return [(st,Mem.read(self.gmap(st,self.cstr(st,a[0])),a[1]))]
        if n=='gset':
            nm=self.cstr(st,a[0]); st.ghost[nm]=Mem.store(self.gmap(st,nm),asimp(a[1]),a[2]); return [(st,None)]
        if n=='ghrange':  # forget ghost values in [lo,lo+len)
            nm=self.cstr(st,a[0]); st.ghost[nm]=Mem.hrange(self.gmap(st,nm),asimp(a[1]),simp(a[2]),Mem.base(f'G!{nm}!{self.fresh("g").decl().name()}',64)); return [(st,None)]
        if n=='gfill':
            nm=self.cstr(st,a[0]); st.ghost[nm]=Mem.fill(self.gmap(st,nm),asimp(a[1]),simp(a[2]),a[3]); return [(st,None)]
        if n=='snap':
            self.snaps.append(st.copy()); return [(st,bv(len(self.snaps)-1))]
        if n=='entry':  # the state in which the loop being annotated was entered
            return [(st,bv(self.entrysnap))]
        if n=='gget_at':
            s=self.snaps[num(simp(a[0]))]; return [(st,Mem.read(self.gmap(s,self.cstr(st,a[1])),a[2]))]
        if n=='hload_at':
            s=self.snaps[num(simp(a[0]))]; v=Mem.read(s.heap,a[1]); return [(st,simp(z3.ZeroExt(64-v.size(),v)) if v.size()<64 else v)]
        if n=='hload':
            v=Mem.read(st.heap,a[0]); return [(st,simp(z3.ZeroExt(64-v.size(),v)) if v.size()<64 else v)]
        if n=='hstore':
            v=a[1]; w=8*st.cell
            st.heap=Mem.store(st.heap,asimp(a[0]),v if w==64 else simp(z3.Extract(w-1,0,v))); return [(st,None)]
        if n=='hhavoc':
            st.heap=Mem.hrange(st.heap,asimp(a[0]),simp(a[1]),Mem.base(f'H!{self.fresh("h").decl().name()}',8*st.cell)); return [(st,None)]
        if n=='cell':
            st.cell=num(simp(a[0])); st.heap=Mem.base(f'H!{self.fresh("h").decl().name()}',8*st.cell); return [(st,None)]
        if n=='term':
            if not self.pure: self.term(st,num(simp(a[0])),a[1])
            elif self.termsink is not None: self.term(self.termsink,num(simp(a[0])),a[1])
            return [(st,None)]
        if n=='term_div':  # a quotient as a term: which terms are registered affects completeness only
            q=self.divlin(asimp(a[1]),num(simp(a[2])))
            if q is None: q=z3.UDiv(a[1],a[2])
            t=self.termsink if self.pure else st
            if t is not None: self.term(t,num(simp(a[0])),q)
            return [(st,None)]
        if n in('assume_all_','assume_all2_'):
            self.addhyp(st,num(simp(a[0])),self.fnname(a[1]),a[2],st.copy(),2 if '2' in n else 1); return [(st,None)]
        if n in('check_all_','check_all2_'):
            if self.quiet: return [(st,None)]
            k=2 if '2' in n else 1
            s=st.copy(); args=[self.fresh('sk') for _ in range(k)]
            for t in args: self.term(s,num(simp(a[0])),t)
            self.termsink=s
            f=self.evalc(s,self.fnname(a[2]),a[3],args,s)
            self.termsink=None
            self.inputs+= [('sk',t) for t in args]
            self.check(s,f,self.cstr(st,a[1]))
            return [(st,None)]
        if n=='holds_all_':
            raise ToolLimit('holds_all')
        if n=='claim':
            if self.claims is None: raise ToolLimit('vc_claim outside a candidate')
            self.claims.append((AND(*st.pc),'b',self.tobool(a[0]))); return [(st,None)]
        if n in('claim_all_','claim_all2_'):
            if self.claims is None: raise ToolLimit('vc_claim outside a candidate')
            self.claims.append((AND(*st.pc),'q',(num(simp(a[0])),self.fnname(a[1]),a[2],st.copy(),2 if '2' in n else 1))); return [(st,None)]
        if n=='inv_':
            st.invs=st.invs+[(num(simp(a[0])),self.fnname(a[1]),a[2],None)]; return [(st,None)]
        if n=='contract_':  # calls of the functions whose (mangled) name matches are replaced by their contract
            self.contracts.append((self.cstr(st,a[0]),self.fnname(a[1]))); return [(st,None)]
        if n=='inv_clear': st.invs=[]; return [(st,None)]
        if n=='unroll': st.unroll=num(simp(a[0])); return [(st,None)]
        if n=='reach':
            if not self.quiet:
                l=self.cstr(st,a[0])
                self.covers.add(l)
                if self.reach.get(l)!='sat':
                    self.instantiate(st)
                    r=self.solve(self.facts(st),timeout=self.timeout)
                    if r=='sat' or l not in self.reach: self.reach[l]=r
            return [(st,None)]
        if n=='dead':
            return []
        if n=='print':
            print('VC',self.cstr(st,a[0]),simp(a[1]),file=sys.stderr); return [(st,None)]
        if n=='strid':
            s=self.cstr(st,a[0]); 
            if s not in self.strs: self.strs[s]=len(self.strs)+1
            return [(st,bv(self.strs[s]))]
        if n=='strfind':
            # position of a constant in a string that is one of finitely many constants
            nd=self.cstr(st,a[1]); v=None
            for g,t in reversed(self.cases(a[0])):
                x=bv(self.cstr(st,t).find(nd)&((1<<64)-1)); v=x if v is None else ITE(g,x,v)
            return [(st,v)]
        if n=='fork':
            # explicit case split, so that the two halves stay separate paths
            c=simp(self.tobool(a[0]))
            if z3.is_true(c) or z3.is_false(c) or self.pure: return [(st,c)]
            outs=[]
            for x,v in((c,TRUE),(NOT(c),FALSE)):
                if self.feasible(st,x):
                    s=st.copy(); self.addpc(s,x); outs.append((s,v))
            return outs
        if n=='pin':
            r=self.newregion(st,num(simp(a[0])),'pin'); return [(st,r.base)]
        if n=='islocal':
            r,o=self.region_of(st,asimp(a[0])); return [(st,TRUE if r is not None else FALSE)]
        raise ToolLimit('unknown specification intrinsic '+name)

ORD=('ult','ule','ugt','uge')
PURE={'add','sub','mul','shl','lshr','ashr','and','or','xor','icmp','select','zext','sext','trunc','ptrtoint','inttoptr','bitcast','getelementptr','gep','phi'}
BIN={'add':lambda a,b:a+b,'sub':lambda a,b:a-b,'mul':lambda a,b:a*b,'udiv':z3.UDiv,'sdiv':lambda a,b:a/b,'urem':z3.URem,'srem':z3.SRem,
'shl':lambda a,b:a<<b,'lshr':z3.LShR,'ashr':lambda a,b:a>>b,'and':lambda a,b:a&b,'or':lambda a,b:a|b,'xor':lambda a,b:a^b}
CMP={'eq':lambda a,b:a==b,'ne':lambda a,b:a!=b,'ugt':z3.UGT,'uge':z3.UGE,'ult':z3.ULT,'ule':z3.ULE,'sgt':lambda a,b:a>b,'sge':lambda a,b:a>=b,'slt':lambda a,b:a<b,'sle':lambda a,b:a<=b}

def fresh_state(ex):
    st=State(); st.pc=[]; st.regs={}; st.ghost={}; st.hyps=[]; st.terms={}; st.done=set(); st.invs=[]; st.env=None; st.unroll=0; st.dead=None; st.cell=8
    st.heap=Mem.base('H!0',64)
    return st
def run_harness(mod,name,timeout=10000,tier='quick',verbose=0,deadline=None,patience=1):
    ex=Exec(mod,timeout,tier,verbose); ex.patience=patience
    ex.deadline=deadline
    st=fresh_state(ex)
    err=None
    t=time.time()
    try:
        outs=ex.call(st,name,[])
        ex.paths=len(outs)
    except ToolLimit as e: err='tool limit: '+str(e)
    except z3.Z3Exception as e:
        import traceback; traceback.print_exc()
        err='z3: '+str(e)
    except RecursionError as e: err='recursion'
    return ex,err,time.time()-t

if __name__=='__main__':
    import llvmir
    m=llvmir.Module(sys.argv[1])
    for h in sys.argv[2:]:
        ex,err,dt=run_harness(m,h,verbose=int(os.environ.get("VV","2")))
        bad=[o for o in ex.obligs if o.status!='unsat']
        if os.environ.get('VC_STAGES'): print({k:(n,round(t,1)) for k,(n,t) in ex.stages.items()})
        print(f'{h}: {len(ex.obligs)} obligations, {len(bad)} failed, {ex.paths} paths, {dt:.1f}s, {ex.nq} queries {ex.qtime:.1f}s, reach {ex.reach} err={err}')
