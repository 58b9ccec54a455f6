import sys,time; sys.path.insert(0,'/verif')
from vf import irparse as ir, runner, registry, symex
import cProfile,pstats
prog=ir.extract('/repo','/tmp/ir_prof')
C=registry.load(); runner.PROG,runner.CONTRACTS=prog,C
k=[c for c in C if sys.argv[1] in c.name][0]
ex=runner.engine(k,time.time()+900)
pr=cProfile.Profile(); pr.enable()
r=k.verify(ex)
pr.disable()
print(r.error, r.wall, ex.abst_n, [o.name for o in r.failed()])
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
