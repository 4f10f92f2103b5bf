"""Soundness test of the integer back end: never 'unsat' on a satisfiable bit-vector formula."""
import sys, random; sys.path.insert(0,'/verif/irv')
import z3, intprove
intprove_mon=None
def term(r,w,d,vs):
    if d==0 or r.random()<.15:
        return r.choice(vs[w]) if r.random()<.7 else z3.BitVecVal(r.randrange(1<<w),w)
    k=r.randrange(16)
    a=lambda: term(r,w,d-1,vs)
    if k==0: return a()+a()
    if k==1: return a()-a()
    if k==2: return a()*a()
    if k==3: return z3.UDiv(a(),a())
    if k==4: return z3.URem(a(),a())
    if k==5: return z3.LShR(a(),z3.BitVecVal(r.randrange(w+1),w))
    if k==6: return a()<<z3.BitVecVal(r.randrange(w+1),w)
    if k==7: return a()&z3.BitVecVal(r.randrange(1<<w),w)
    if k==8: return a()|z3.BitVecVal(r.randrange(1<<w),w)
    if k==9: return ~a()
    if k==10: return z3.If(boolt(r,w,d-1,vs),a(),a())
    if k==11:
        c=r.randrange(1,w); return z3.Concat(z3.Extract(c-1,0,a()),z3.Extract(w-1,c,a()))
    if k==12:
        c=r.randrange(1,w); return z3.ZeroExt(w-c,z3.Extract(c-1,0,a()))
    if k==13:
        c=r.randrange(1,w); return z3.SignExt(w-c,z3.Extract(c-1,0,a()))
    if k==14: return a()/a()
    return z3.SRem(a(),a())
def boolt(r,w,d,vs):
    a=lambda: term(r,w,d,vs)
    k=r.randrange(7)
    return [lambda:z3.ULT(a(),a()),lambda:z3.ULE(a(),a()),lambda:a()==a(),lambda:a()<a(),lambda:a()<=a(),lambda:z3.Not(a()==a()),
            lambda:z3.UGT(a(),z3.BitVecVal(r.randrange(1<<w),w))][k]()
seed=int(sys.argv[1]); n=int(sys.argv[2]); proved=un=0
for i in range(n):
    r=random.Random(seed*1000003+i)
    w=r.choice([3,4,6,8])
    vs={w:[z3.BitVec('x%d'%j,w) for j in range(3)]}
    fs=[boolt(r,w,r.randrange(1,4),vs) for _ in range(r.randrange(1,5))]
    s=z3.Solver(); s.set('timeout',5000); s.add(fs)
    t=s.check()
    p=intprove.prove(fs[:-1],fs[-1],1500)
    if p and t==z3.sat:
        print('UNSOUND',i,fs,s.model()); sys.exit(1)
    un+=t==z3.unsat; proved+=p
print('ok',n,'unsat',un,'proved',proved)
