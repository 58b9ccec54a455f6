import sys,time; sys.path.insert(0,'/verif')
import z3
from vf import irparse as ir, runner, registry, symex
prog=ir.extract('/repo','/tmp/ir_dbg')
C=registry.load(); runner.PROG,runner.CONTRACTS=prog,C
k=[c for c in C if sys.argv[1] in c.name][0]
pat=sys.argv[2]
ex=runner.engine(k,time.time()+900,verbose=False)
orig=symex.TrialCut.back
def back(self,ex_,s):
    before=set(self.failed)
    orig(self,ex_,s)
    if any(pat in n for n in before): return
    for nm,f in self.live:
        if pat in nm and nm in self.failed:
            print(ex_.abst.unsat(s.pc,[z3.Not(f(s))],20000), ex_.provable3(s,f(s)), len(s.ghost))
            c=f(s)
            so=z3.Solver(); so.set('timeout',60000)
            for p in s.pc: so.add(p)
            so.add(z3.Not(c) if not isinstance(c,bool) else z3.BoolVal(not c)); t0=time.time(); r=so.check(); print('fresh time',time.time()-t0,'pc',len(s.pc),'ex.timeout',ex.timeout); open('/tmp/q.smt2','w').write(so.to_smt2())
            print('FAILED',nm,r); print(z3.simplify(c) if not isinstance(c,bool) else c)
            if r==z3.sat: print(so.model())
            for p in s.pc[-int(sys.argv[3]):]: print('   pc',str(p)[:600])
            sys.exit()
symex.TrialCut.back=back
symex.FinalCut.back.__globals__['TrialCut']=symex.TrialCut
print(k.verify(ex).error)
print(ex.abst_n)
