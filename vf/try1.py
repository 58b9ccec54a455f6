"""dev: cd /verif && python3-vt -m vf.try1 [substring] [-v]   (verifies matching contracts of every module)"""
import multiprocessing.connection
import sys, time
from . import irparse as ir, runner, registry
args = [a for a in sys.argv[1:] if not a.startswith('-')]
v = '-v' in sys.argv
repo = next((a[7:] for a in sys.argv if a.startswith('--repo=')), '/repo')
prog = ir.extract(repo, '/tmp/ir_try%d' % __import__('os').getpid())
for e in prog.errors: print('extract:', e)
C = registry.load()
idx = [i for i, c in enumerate(C) if all(p in c.target or p in c.props for p in args)]
if v:
    runner.PROG, runner.CONTRACTS = prog, C
    for i in idx:
        ex = runner.engine(C[i], time.time() + 900, verbose=True)
        r = C[i].verify(ex)
        print('%-70s obl=%d paths=%d rets=%d loops=%d %.1fs %s' % (C[i].name[:70], len(r.obl), r.paths, r.rets, r.loops, r.wall, r.error or ('FAIL' if r.failed() else 'ok')))
        for o in r.obl.values():
            print('    ', o.status, o.instances, o.backends, o.name)
        for o in r.failed():
            print('    ', o.status, o.name); print(o.detail[:4000])
        print('used', r.used_contracts, 'trusted', r.trusted, 'inlined', len(r.inlined))
else:
    def done(r):
        bad = [o for o in r['obl'] if o[2] != 'discharged']
        print('%-70s obl=%d paths=%d rets=%d loops=%d %.1fs %s' % (r['name'][:70], len(r['obl']), r['paths'], r['rets'], r['loops'], r['wall'], r['error'] or ('FAIL' if bad else 'ok')), flush=True)
        for o in bad: print('    ', o[2], o[0])
    runner.verify(prog, C, idx, secs=800, on_done=done)
