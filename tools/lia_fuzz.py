"""Differential test of vc/lia.py: it must never call a satisfiable formula unsatisfiable, or the other way round."""
import sys,random,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))+'/../vc')
import z3,lia
R=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1); N=int(sys.argv[2]) if len(sys.argv)>2 else 3000
def run(w):
    vs=[z3.BitVec('v%d'%i,w) for i in range(3)]; f=z3.Function('f',z3.BitVecSort(w),z3.BitVecSort(w))
    C=lambda:z3.BitVecVal(R.choice([0,1,2,3,7,8,(1<<w)-1,(1<<w)-8,1<<(w-1),(1<<(w-1))-1,R.randrange(1<<w)]),w)
    def T(d):
        k=R.randrange(16 if d else 3)
        if k<2: return R.choice(vs)
        if k==2: return C()
        a=lambda:T(d-1)
        if k in(3,4): return a()+a()
        if k==5: return a()-a()
        if k==6: return C()*a()
        if k==7: return -a()
        if k==8: return z3.If(B(d-1),a(),a())
        if k==9: h=R.randrange(1,w); l=R.randrange(0,h+1); e=z3.Extract(h,l,a()); return z3.ZeroExt(w-e.size(),e) if e.size()<w else e
        if k==10: return z3.Concat(z3.Extract(w//2-1,0,a()),z3.Extract(w-1,w//2,a()))
        if k==11: return f(a())
        if k==12: return z3.LShR(a(),z3.BitVecVal(R.randrange(w+1),w))
        if k==13: return R.choice([lambda:z3.UDiv(a(),C()),lambda:z3.URem(a(),C()),lambda:a()<<z3.BitVecVal(R.randrange(w+2),w)])()
        if k==14: return R.choice([lambda:a()|a(),lambda:a()&C(),lambda:a()^a(),lambda:~a()])()
        return z3.If(B(d-1),z3.BitVecVal(1,w),z3.BitVecVal(0,w))|z3.If(B(d-1),z3.BitVecVal(1,w),z3.BitVecVal(2%(1<<w),w))
    def B(d):
        k=R.randrange(9)
        if k<2 and d: return z3.Not(B(d-1))
        if k==2 and d: return R.choice([z3.And,z3.Or])(B(d-1),B(d-1))
        x,y=T(max(d-1,0)),T(max(d-1,0))
        return R.choice([lambda:x==y,lambda:z3.ULE(x,y),lambda:z3.ULT(x,y),lambda:x<y,lambda:x>=y,lambda:z3.UGT(x,y)])()
    fs=[z3.simplify(B(3)) if R.random()<.7 else B(3) for _ in range(R.randrange(1,6))]+[z3.ULE(v,z3.BitVecVal(R.randrange(1<<w),w)) for v in vs if R.random()<.4]
    d=lia.decide(fs,1500); r=d=='unsat'
    s=z3.Solver(); s.add(fs); s.set('timeout',4000); q=s.check()
    assert not(r and q==z3.sat),fs
    assert not(d=='sat' and q==z3.unsat),fs
    global ns; ns+=d=='sat'
    return r,q==z3.unsat
n=u=t=ns=0
for i in range(N):
    r,q=run(R.choice([4,8,16,64])); n+=1; u+=r; t+=q
print('formulas',n,'refuted by lia',u,'refuted by z3 bv',t,'satisfied by lia',ns)
