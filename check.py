#!/opt/veriftools/pyvenv/bin/python3
"""check.py --property P [--tier quick|thorough] [--repo DIR]

Extracts the LLVM IR of /repo's current sources, discharges every obligation of the contracts tagged with P,
runs the bounded stand-in / replay harness for P, writes evidence/P.json, and prints the verdict."""
import argparse
import json
import multiprocessing.connection
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=None)
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    P = a.property
    scratch = tempfile.mkdtemp(prefix='flckv_%s_' % P)
    os.chmod(scratch, 0o755)
    try:
        rc = run(P, tier, seed, a.repo, scratch, a.no_harness)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


class Harness:
    """builds in the background; quick run first, deeper search on demand"""

    def __init__(self, repo, scratch, P, seed):
        self.repo, self.scratch, self.P, self.seed = repo, scratch, P, seed
        self.bin = os.path.join(scratch, 'h', 'harness')
        self.err = None
        self.t = threading.Thread(target=self.build)
        self.t.start()
        self.ran = {}
        self.known = []
        self.evals = 0
        self.cases = 0

    def build(self):
        try:
            r = subprocess.run(['bash', os.path.join(HERE, 'harness', 'build.sh'), self.repo, os.path.join(self.scratch, 'h')], capture_output=True, text=True, timeout=300)
            if r.returncode != 0:
                self.err = (r.stderr or r.stdout)[-1500:]
        except Exception as e:
            self.err = str(e)

    def run(self, shards, secs, thorough, seed, n=0):
        """[(shard output file)] of failures"""
        self.t.join()
        if self.err:
            return []
        ps = []
        for i in range(shards):
            d = os.path.join(self.scratch, 'r%d_%d' % (seed, i))
            os.makedirs(d, exist_ok=True)
            out = os.path.join(d, 'fail.txt')
            cmd = [self.bin, '--scratch', d, '--property', self.P, '--seed', str(seed), '--shard', '%d/%d' % (i, shards), '--limit', str(secs), '--out', out]
            if thorough:
                cmd.append('--thorough')
            lf = open(os.path.join(d, 'log.txt'), 'w')
            ps.append((subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True), d, out, lf))
        end = time.time() + secs + 60
        fails = []
        for p, d, out, lf in ps:
            try:
                p.wait(max(1, end - time.time()))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            lf.close()
            txt = open(os.path.join(d, 'log.txt'), errors='replace').read()
            for m in re.finditer(r'^RAN (\S+) cases=(\d+) evals=(\d+)', txt, re.M):
                x = self.ran.setdefault(m.group(1), [0, 0])
                x[0] += int(m.group(2))
                x[1] += int(m.group(3))
            for m in re.finditer(r'^KNOWN (.*)$', txt, re.M):
                if m.group(1) not in self.known:
                    self.known.append(m.group(1))
            if rc == 1 and os.path.exists(out):
                fails.append(open(out, errors='replace').read())
            elif rc == 'timeout':
                fails.append('property %s\nwhat the bounded stand-in did not end within %d s: an operation of the real code never returns\n%s' % (self.P, secs + 60, txt[-3000:]))
            elif rc != 0:
                fails.append('property %s\nwhat the real code ended abnormally (exit %s) in the bounded stand-in\n%s' % (self.P, rc, txt[-3000:]))
        self.cases = sum(x[0] for x in self.ran.values())
        self.evals = sum(x[1] for x in self.ran.values())
        return fails


def run(P, tier, seed, repo, scratch, no_harness):
    t0 = time.time()
    thorough = tier == 'thorough'
    from vf import irparse, runner, registry
    from vf.assume import ASSUMPTIONS, TRUSTED
    H = None if no_harness else Harness(repo, scratch, P, seed)
    allc = registry.load()
    idx = [i for i, c in enumerate(allc) if P in c.props]
    results = []
    xerr = None
    try:
        prog = irparse.extract(repo, os.path.join(scratch, 'ir'))
        xerr = '; '.join(map(str, prog.errors)) if prog.errors else None
    except Exception as e:
        prog = None
        xerr = '%s: %s' % (type(e).__name__, e)
    if prog is not None:
        budget = 1800 if thorough else 480
        results = runner.verify(prog, allc, idx, secs=800 if thorough else 400, jobs=8, second=thorough, total=budget)
    refuted, undecided = [], []
    nob = ndis = 0
    backends = {}
    solver = 0.0
    fns = []
    for r in results:
        c = allc[r['i']]
        solver += r['solver']
        bad = 0
        for name, kind, status, inst, be, detail, tm in r['obl']:
            nob += inst
            if status == 'discharged':
                ndis += inst
            else:
                good = sum(be.values())
                ndis += min(good, inst)
                bad += 1
                (refuted if status == 'refuted' else undecided).append((c, name, detail))
            for k, v in be.items():
                backends[k] = backends.get(k, 0) + v
        if r['error']:
            undecided.append((c, 'the whole function', r['error']))
        fns.append({'function': r['name'], 'obligation_names': len(r['obl']), 'obligations': sum(o[3] for o in r['obl']), 'paths': r['paths'], 'loops_with_invariant': r['loops'],
                    'status': 'undecided: ' + r['error'][:300] if r['error'] else ('failed' if bad else 'discharged'),
                    'callee_contracts_used': r['used'], 'inlined_bodies': len(r['inlined']), 'trusted_externals': r['trusted'],
                    'solver_s': round(r['solver'], 2), 'wall_s': round(r['wall'], 2)})
    # ---- bounded stand-in
    fails = []
    if H:
        fails = H.run(4 if not thorough else 8, 900 if thorough else 60, thorough, seed)
        if refuted and not fails:
            fails = H.run(8, 150, True, seed + 17)
    kf, kfound = known(P), []
    for k in (H.known if H else []):
        if any(k.split()[0] == x['id'] for x in kf):
            kfound.append(k)
        else:
            fails.append('property %s\nwhat %s (not a recorded finding)' % (P, k))
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    viol = len(refuted) + len(fails)
    rep = None
    if viol:
        rep = os.path.join(evd, '%s.replay.txt' % P)
        with open(rep, 'w') as f:
            f.write('property %s\n' % P)
            for c, name, detail in refuted:
                f.write('\nFAILED OBLIGATION of %s\n  %s\n%s\n' % (c.target, name, detail))
            for x in fails:
                f.write('\nFAILING HISTORY on the real code (replay: bash harness/build.sh %s DIR && DIR/harness --scratch D --test <test> --case <case>)\n%s\n' % (repo, x))
    assumptions = list(ASSUMPTIONS['*']) + ASSUMPTIONS.get(P, [])
    trusted = list(TRUSTED)
    for t in sorted({t for r in results for t in r['trusted']}):
        trusted.append('external function model: ' + t)
    used = sorted({u for r in results for u in r['used']})
    verified_names = {r['name'] for r in results}
    cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt check.py --property %s --tier %s' % (P, tier),
           'trusted_base': trusted, 'functions_under_contract': fns, 'back_ends': backends, 'solver_time_s': round(solver, 2),
           'callee_contracts_assumed_here_proved_under_other_properties': [u for u in used if u not in verified_names],
           'undecided': [{'function': c.target, 'obligation': n, 'why': d[:300]} for c, n, d in undecided],
           'extraction': 'clang -O0 IR of /repo/lib/*.cc at this run, mem2reg only; ' + (('errors: ' + xerr) if xerr else 'no errors'),
           'bounded_stand_in': {'label': 'bounded, not counted as proved', 'tests': H.ran if H else {}, 'cases': H.cases if H else 0, 'evaluations': H.evals if H else 0,
                                'build_error': H.err if H else 'not run'}}
    ev = {'property': P, 'tier': tier, 'seed': seed, 'level': 'proof' if nob and not undecided else 'other', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    if ev['level'] == 'other':
        cov['explanation'] = 'some obligations were not decided in this run (listed under undecided); for those only the bounded stand-in was run'
    with open(os.path.join(evd, P + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d functions under contract, %d/%d obligations discharged, %d undecided, bounded cases %d, %.1f s' % (P, len(fns), ndis, nob, len(undecided), H.cases if H else 0, time.time() - t0))
    for c, n, d in undecided:
        print('  undecided: %s: %s (%s)' % (c.target[:90], n, d[:160].replace('\n', ' ')))
    if H and H.err:
        print('  harness did not build: ' + H.err[:400])
    # ---- known findings
    for k in kfound:
        print('KNOWN-FINDING: property=%s %s' % (P, k))
    if refuted or fails:
        for c, n, d in refuted[:10]:
            print('  refuted: %s: %s' % (c.target[:90], n))
        for x in fails[:3]:
            m = re.search(r'^what (.*)$', x, re.M)
            print('  failing history: %s' % (m.group(1) if m else x[:200]))
        print('VIOLATION property=%s replay=%s%s' % (P, rep, '' if fails else ' no-failing-input-found'))
        return 1
    return 0


def known(P):
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == P:
                out.append({'id': m.group(2), 'text': m.group(3)})
    return out


if __name__ == '__main__':
    try:
        rc = main()
    except KeyboardInterrupt:
        rc = 1
    sys.exit(rc)
