"""Refuting bit-vector formulas through linear integer arithmetic.

unsat(fs) translates the conjunction of quantifier-free UFBV formulas to integers, exactly where the operations are
linear (every term denotes its unsigned value; a sum that may leave [0,2^w) gets an explicit wrap count) and by a fresh
integer of the right range everywhere else.  Every model of fs gives a model of the translation, so an 'unsat' answer
for the translation is an 'unsat' answer for fs; any other answer means nothing."""
import z3
K=z3
class TooBig(Exception): pass
class Tr:
    def __init__(s):
        s.memo={}; s.bmemo={}; s.side=[]; s.n=0; s.bnd={}; s.ufs={}; s.keep=[]; s.inexact=False
    def fresh(s,lo,hi):
        s.n+=1
        if s.n>20000: raise TooBig()
        v=z3.Int('i!%d'%s.n); s.side.append(v>=lo); s.side.append(v<=hi); return v
    # ---- bounds of atoms from the unit facts
    def learn(s,fs):
        # f is known to hold: x <= c for atoms x
        up={}; keep=s.keep
        def put(x,c):
            k=x.get_id()
            if k not in up or c<up[k]: up[k]=c; keep.append(x); return True
            return False
        def hi(x):
            k=x.get_id(); w=x.size(); top=(1<<w)-1
            if z3.is_bv_value(x): return x.as_long()
            r=up.get(k,top)
            d=x.decl().kind()
            if d==z3.Z3_OP_BMUL and x.num_args()==2 and z3.is_bv_value(x.arg(0)): r=min(r,max(0,min(top,x.arg(0).as_long()*hi(x.arg(1)))))
            elif d==z3.Z3_OP_BADD: 
                t=sum(hi(c) for c in x.children())
                if t<=top: r=min(r,t)
            elif d==z3.Z3_OP_EXTRACT and x.params()[1]==0: r=min(r,hi(x.arg(0)))
            return r
        atoms=[]
        for f in fs:
            neg=False
            while z3.is_not(f): f=f.arg(0); neg=not neg
            d=f.decl().kind()
            if d==z3.Z3_OP_EQ and not neg and z3.is_bv(f.arg(0)):
                for a,b in((f.arg(0),f.arg(1)),(f.arg(1),f.arg(0))):
                    if z3.is_bv_value(b):
                        if a.decl().kind()==z3.Z3_OP_EXTRACT and b.as_long()==0 and a.params()[0]==a.arg(0).size()-1: atoms.append(('c',a.arg(0),(1<<a.params()[1])-1))
                    else: atoms.append(('le',b,a))
            elif d==z3.Z3_OP_ULEQ: atoms.append(('lt',f.arg(1),f.arg(0)) if neg else ('le',f.arg(0),f.arg(1)))
        for rnd in range(4):
            ch=False
            for k,a,b in atoms:
                if k=='c': ch|=put(a,b)
                else:
                    h=hi(b)-(1 if k=='lt' else 0)
                    if h<0: continue
                    x=a
                    if x.decl().kind()==z3.Z3_OP_EXTRACT and x.params()[1]==0:
                        y=x.arg(0)
                        if hi(y)<(1<<x.size()): ch|=put(y,h)
                    if h<(1<<a.size())-1: ch|=put(a,h)
                    if x.decl().kind()==z3.Z3_OP_BMUL and x.num_args()==2 and z3.is_bv_value(x.arg(0)):
                        c=x.arg(0).as_long(); y=x.arg(1)
                        if c and c*hi(y)<(1<<x.size()): ch|=put(y,h//c)
            if not ch: break
        s.bnd=up
    # ---- terms: (z3 int expr, lo, hi) with lo<=value<=hi in [0,2^w)
    def t(s,x):
        k=x.get_id(); r=s.memo.get(k)
        if r is not None: return r
        r=s.t1(x)
        b=s.bnd.get(k)
        if b is not None and b<r[2]: s.side.append(r[0]<=b); r=(r[0],r[1],b)
        s.memo[k]=r; s.keep.append(x); return r
    def lin(s,x,c,acc):
        """add c*x to the linear form acc: dict id->[coef, term], const under None (over the integers mod 2^w)"""
        d=x.decl().kind()
        if z3.is_bv_value(x): acc[None]=acc.get(None,0)+c*x.as_long(); return
        if d==z3.Z3_OP_BADD:
            for y in x.children(): s.lin(y,c,acc)
            return
        if d==z3.Z3_OP_BSUB:
            ch=x.children(); s.lin(ch[0],c,acc)
            for y in ch[1:]: s.lin(y,-c,acc)
            return
        if d==z3.Z3_OP_BNEG: s.lin(x.arg(0),-c,acc); return
        if d==z3.Z3_OP_BMUL:
            ch=x.children(); m=1; o=[]
            for y in ch:
                if z3.is_bv_value(y): m*=y.as_long()
                else: o.append(y)
            if len(o)==1: 
                w=x.size(); m%=1<<w
                if m>>(w-1): m-=1<<w
                s.lin(o[0],c*m,acc); return
        if d==z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long()<x.size(): s.lin(x.arg(0),c<<x.arg(1).as_long(),acc); return
        k=x.get_id()
        if k in acc: acc[k][0]+=c
        else: acc[k]=[c,x]
    def t1(s,x):
        w=x.size(); M=1<<w; d=x.decl().kind()
        if z3.is_bv_value(x): v=x.as_long(); return (z3.IntVal(v),v,v)
        if d in(z3.Z3_OP_BADD,z3.Z3_OP_BSUB,z3.Z3_OP_BNEG,z3.Z3_OP_BMUL,z3.Z3_OP_BSHL):
            acc={}; s.lin(x,1,acc)
            if not(len(acc)==1 and x.get_id() in acc):
                c0=acc.pop(None,0)%M
                es=[];lo=hi=0
                for k,(c,y) in acc.items():
                    c%=M
                    if c>=M//2: c-=M
                    if c==0: continue
                    e,l,h=s.t(y)
                    es.append(e*c if c!=1 else e)
                    if c>0: lo+=c*l; hi+=c*h
                    else: lo+=c*h; hi+=c*l
                # choose the constant's representative that keeps the sum in range, if there is one
                for c in(c0,c0-M):
                    if lo+c>=0 and hi+c<M: return (z3.Sum(es+[z3.IntVal(c)]) if es else z3.IntVal(c),lo+c,hi+c)
                c=c0 if c0<M//2 else c0-M
                e=z3.Sum(es+[z3.IntVal(c)]); lo+=c; hi+=c
                q=s.fresh(lo//M,hi//M)
                r=e-q*M; s.side.append(r>=0); s.side.append(r<M)
                return (r,0,M-1)
        if d==z3.Z3_OP_EXTRACT:
            h,l=x.params(); y=x.arg(0); e,lo,hi=s.t(y)
            if l==0:
                if hi<M: return (e,lo,hi)
                q=s.fresh(lo>>(h+1),hi>>(h+1)); r=e-q*(1<<(h+1)); s.side.append(r>=0); s.side.append(r<(1<<(h+1))); return (r,0,M-1)
            if hi<(1<<(h+1)):
                v=s.fresh(lo>>l,hi>>l); s.side.append(e-v*(1<<l)>=0); s.side.append(e-v*(1<<l)<(1<<l)); return (v,lo>>l,hi>>l)
            q=s.fresh(lo>>(h+1),hi>>(h+1)); v=s.fresh(0,M-1); r=e-q*(1<<(h+1))-v*(1<<l)
            s.side.append(r>=0); s.side.append(r<(1<<l)); return (v,0,M-1)
        if d==z3.Z3_OP_CONCAT:
            es=[];sh=0;lo=hi=0
            for y in reversed(x.children()):
                e,l,h=s.t(y); es.append(e*(1<<sh)); lo+=l<<sh; hi+=h<<sh; sh+=y.size()
            return (z3.Sum(es),lo,hi)
        if d==z3.Z3_OP_ZERO_EXT: return s.t(x.arg(0))
        if d==z3.Z3_OP_ITE:
            c=s.b(x.arg(0)); a=s.t(x.arg(1)); b=s.t(x.arg(2))
            return (z3.If(c,a[0],b[0]),min(a[1],b[1]),max(a[2],b[2]))
        if d==z3.Z3_OP_BLSHR and z3.is_bv_value(x.arg(1)):
            n=x.arg(1).as_long(); e,lo,hi=s.t(x.arg(0))
            if n>=w: return (z3.IntVal(0),0,0)
            v=s.fresh(lo>>n,hi>>n); s.side.append(e-v*(1<<n)>=0); s.side.append(e-v*(1<<n)<(1<<n)); return (v,lo>>n,hi>>n)
        if d in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I) and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long():
            c=x.arg(1).as_long(); e,lo,hi=s.t(x.arg(0)); q=s.fresh(lo//c,hi//c); r=e-q*c; s.side.append(r>=0); s.side.append(r<c)
            return (q,lo//c,hi//c) if d in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) else (r,0,c-1)
        if d==z3.Z3_OP_UNINTERPRETED and x.num_args():
            f=x.decl(); key=f.name()
            g=s.ufs.get(key)
            if g is None: g=s.ufs[key]=z3.Function('u!'+key,*([z3.IntSort()]*(f.arity()+1)))
            if all(z3.is_bv(a) for a in x.children()):
                e=g(*[s.t(a)[0] for a in x.children()]); s.side.append(e>=0); s.side.append(e<=s.bnd.get(x.get_id(),M-1)); return (e,0,M-1)
        if d in(z3.Z3_OP_BOR,z3.Z3_OP_BAND,z3.Z3_OP_BXOR,z3.Z3_OP_BNOT):
            cs=s.cases(x)
            if cs:
                vs=sorted(cs); e=z3.IntVal(vs[0])
                for v in vs[1:]: e=z3.If(cs[v],z3.IntVal(v),e)
                return (e,vs[0],vs[-1])
            if d==z3.Z3_OP_BNOT: e,lo,hi=s.t(x.arg(0)); return (z3.IntVal(M-1)-e,M-1-hi,M-1-lo)
            if d==z3.Z3_OP_BAND and x.num_args()==2:
                for a,b in((x.arg(0),x.arg(1)),(x.arg(1),x.arg(0))):
                    if z3.is_bv_value(a):
                        m=a.as_long(); e,lo,hi=s.t(b)
                        if m&(m+1)==0:  # low bits
                            if hi<=m: return (e,lo,hi)
                            q=s.fresh(lo//(m+1),hi//(m+1)); r=e-q*(m+1); s.side.append(r>=0); s.side.append(r<=m); return (r,0,m)
                        n=(M-1)^m
                        if n&(n+1)==0:  # all but the low bits
                            q=s.fresh(lo//(n+1),hi//(n+1)); r=e-q*(n+1); s.side.append(r>=0); s.side.append(r<=n); return (q*(n+1),lo//(n+1)*(n+1),hi//(n+1)*(n+1))
        if not(d==z3.Z3_OP_UNINTERPRETED and not x.num_args()): s.inexact=True
        hi=min(M-1,s.bnd.get(x.get_id(),M-1))
        v=s.fresh(0,hi); return (v,0,hi)
    def cases(s,x):
        """constant -> condition, when the term takes few constant values"""
        if z3.is_bv_value(x): return {x.as_long():z3.BoolVal(True)}
        d=x.decl().kind(); M=1<<x.size()
        if d==z3.Z3_OP_ITE:
            a=s.cases(x.arg(1)); 
            if not a: return None
            b=s.cases(x.arg(2))
            if not b: return None
            c=s.b(x.arg(0)); r={}
            for v,g in a.items(): r.setdefault(v,[]).append(z3.And(c,g))
            for v,g in b.items(): r.setdefault(v,[]).append(z3.And(z3.Not(c),g))
        elif d==z3.Z3_OP_BNOT:
            a=s.cases(x.arg(0))
            return a and {M-1-v:g for v,g in a.items()}
        elif d in(z3.Z3_OP_BOR,z3.Z3_OP_BAND,z3.Z3_OP_BXOR):
            f={z3.Z3_OP_BOR:lambda p,q:p|q,z3.Z3_OP_BAND:lambda p,q:p&q,z3.Z3_OP_BXOR:lambda p,q:p^q}[d]
            r=None
            for y in x.children():
                a=s.cases(y)
                if not a: return None
                if r is None: r=a; continue
                n={}
                for v,g in r.items():
                    for u,h in a.items(): n.setdefault(f(v,u),[]).append(z3.And(g,h))
                if len(n)>8: return None
                r={v:(z3.Or(g) if len(g)>1 else g[0]) for v,g in n.items()}
            return r
        else: return None
        if len(r)>8: return None
        return {v:(z3.Or(g) if len(g)>1 else g[0]) for v,g in r.items()}
    def b(s,f):
        k=f.get_id(); r=s.bmemo.get(k)
        if r is None: r=s.bmemo[k]=s.b1(f); s.keep.append(f)
        return r
    def b1(s,f):
        if z3.is_true(f) or z3.is_false(f): return f
        d=f.decl().kind(); ch=f.children()
        if d==z3.Z3_OP_NOT: return z3.Not(s.b(ch[0]))
        if d==z3.Z3_OP_AND: return z3.And([s.b(c) for c in ch])
        if d==z3.Z3_OP_OR: return z3.Or([s.b(c) for c in ch])
        if d==z3.Z3_OP_IMPLIES: return z3.Implies(s.b(ch[0]),s.b(ch[1]))
        if d==z3.Z3_OP_XOR: return z3.Xor(s.b(ch[0]),s.b(ch[1]))
        if d==z3.Z3_OP_ITE: return z3.If(s.b(ch[0]),s.b(ch[1]),s.b(ch[2]))
        if d in(z3.Z3_OP_EQ,z3.Z3_OP_DISTINCT) and len(ch)==2:
            if z3.is_bool(ch[0]): r=s.b(ch[0])==s.b(ch[1])
            elif z3.is_bv(ch[0]): r=s.t(ch[0])[0]==s.t(ch[1])[0]
            else: raise TooBig()
            return r if d==z3.Z3_OP_EQ else z3.Not(r)
        if d in(z3.Z3_OP_ULEQ,z3.Z3_OP_ULT,z3.Z3_OP_UGEQ,z3.Z3_OP_UGT):
            a=s.t(ch[0])[0]; c=s.t(ch[1])[0]
            return {z3.Z3_OP_ULEQ:a<=c,z3.Z3_OP_ULT:a<c,z3.Z3_OP_UGEQ:a>=c,z3.Z3_OP_UGT:a>c}[d]
        if d in(z3.Z3_OP_SLEQ,z3.Z3_OP_SLT,z3.Z3_OP_SGEQ,z3.Z3_OP_SGT):
            a=s.sg(ch[0]); c=s.sg(ch[1])
            return {z3.Z3_OP_SLEQ:a<=c,z3.Z3_OP_SLT:a<c,z3.Z3_OP_SGEQ:a>=c,z3.Z3_OP_SGT:a>c}[d]
        if d==z3.Z3_OP_UNINTERPRETED and not ch: return z3.Bool('b!'+f.decl().name())
        raise TooBig()
    def sg(s,x):
        e,lo,hi=s.t(x); H=1<<(x.size()-1)
        if hi<H: return e
        return z3.If(e>=H,e-2*H,e)
def decide(fs,timeout=2000):
    """'unsat' | 'sat' (only when the translation lost nothing) | 'unknown'"""
    tr=Tr()
    try:
        tr.learn(fs)
        out=[tr.b(f) for f in fs]
        s=z3.SolverFor('QF_UFLIA') if tr.ufs else z3.SolverFor('QF_LIA')
        s.set('timeout',int(timeout))
        for f in tr.side: s.add(f)
        for f in out: s.add(f)
        r=s.check()
        if r==z3.unsat: return 'unsat'
        return 'sat' if r==z3.sat and not tr.inexact else 'unknown'
    except (TooBig,RecursionError): return 'unknown'
def unsat(fs,timeout=2000): return decide(fs,timeout)=='unsat'
