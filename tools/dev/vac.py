import sys,time; sys.path.insert(0,'/verif')
import z3
from vf import irparse as ir, runner, registry, symex
prog=ir.extract('/repo','/tmp/ir_vac')
C=registry.load(); runner.PROG,runner.CONTRACTS=prog,C
for k in C:
    if not any(k.name.startswith(a) or k.target.startswith(a) for a in sys.argv[1:]): continue
    if not getattr(k,'lazy_feasible',False): continue
    ex=runner.engine(k,time.time()+900)
    stats={}
    op=k.post
    def post(ex_,old,st,a,ret,op=op):
        if ex_ is ex and not getattr(ex_,'applying',False):
            r=ex_.check(st); 
            if ret is None or z3.is_bool(ret) or isinstance(ret,bool): key=(r,)
            else:
                b=symex.bv(ret,32) if z3.is_bv(ret) or isinstance(ret,int) else ret
                key=(r,'ok' if ex_.check(st,b==0)=='sat' else '', 'fail' if ex_.check(st,b!=0)=='sat' else '')
            stats[key]=stats.get(key,0)+1
        return []
    k.post=post
    ex.muted=0
    orig=ex.oblige
    r=k.verify(ex)
    print(k.name, r.error, stats)
