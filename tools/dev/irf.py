import sys; sys.path.insert(0,'/verif')
from vf import irparse as ir
p=ir.extract('/repo','/tmp/ir_try_show')
for q in sys.argv[1:]:
    for n,d in p.dem.items():
        if q in d and p.get(n):
            f=p.get(n); print('=====',d,[a for a in getattr(f,'params',[])])
            for b in f.blocks.values() if isinstance(f.blocks,dict) else f.blocks:
                for i in (b.ins if hasattr(b,'ins') else b): print('   ',getattr(i,'res',''),getattr(i,'op',''),str(getattr(i,'a',''))[:200])
