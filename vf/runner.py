"""Verify a set of contracts in parallel, one forked worker per contract."""
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import symex, regions, registry, abst

PROG = None
CONTRACTS = None


def engine(c, deadline=None, verbose=False, second=False):
    ex = symex.Engine(PROG, verbose=verbose, second=second)
    ex.models = dict(regions.BASE_MODELS)
    ex.models['FindThreadProcess'] = regions.m_find_thread_process
    if getattr(c, 'models', None):
        ex.models.update(c.models)
    for d in getattr(c, 'drop_models', ()):
        ex.models.pop(d, None)
    ex.deadline = deadline
    ex.merge_at = getattr(c, 'merge_at', ())
    ex.model_fallback = getattr(c, 'fallback', None)
    ex.fresh_solver = getattr(c, 'fresh_solver', False)
    ex.abst = abst.Abst() if getattr(c, 'abstract', False) else None
    ex.abst_n = {}
    ex.lazy_feasible = getattr(c, 'lazy_feasible', False)
    ex.timeout = getattr(c, 'timeout', ex.timeout)
    uses = getattr(c, 'uses', None)
    if uses:
        tbl = {}
        for k in CONTRACTS:
            if k.target != c.target and any(u == k.target or u == k.target.split('(')[0] for u in uses):
                tbl[k.target] = k
        ex.contracts = tbl
    return ex


def one(i, secs, second):
    c = CONTRACTS[i]
    signal.alarm(int(secs) + 60)
    t = time.time()
    try:
        ex = engine(c, t + secs, second=second)
        rep = c.verify(ex)
        if rep.unknown_drops and rep.failed() and not rep.error:
            # an invariant was given up only because the solver did not answer: ask again with more time, and do not alarm on what is left open
            ex = engine(c, t + secs, second=second)
            ex.timeout = 5 * ex.timeout
            rep = c.verify(ex)
            if rep.unknown_drops:
                for o in rep.failed():
                    o.status = 'unknown'
        return dict(i=i, name=c.name, props=c.props, error=rep.error, paths=rep.paths, rets=rep.rets, loops=rep.loops,
                    inlined=sorted(rep.inlined), used=sorted(rep.used_contracts), trusted=sorted(rep.trusted),
                    solver=rep.solver_time, wall=rep.wall,
                    obl=[(o.name, o.kind, o.status, o.instances, dict(o.backends), o.detail, o.time) for o in rep.obl.values()])
    except Exception as e:
        return dict(i=i, name=c.name, props=c.props, error='engine: %s: %s' % (type(e).__name__, traceback.format_exc()[-800:]), paths=0, rets=0, loops=0,
                    inlined=[], used=[], trusted=[], solver=0.0, wall=time.time() - t, obl=[])


def _child(conn, i, secs, second):
    try:
        conn.send(one(i, secs, second))
    except BaseException:
        pass
    os._exit(0)


def verify(prog, contracts, idx, secs=200, jobs=8, second=False, total=None, on_done=None):
    """returns list of result dicts in idx order"""
    global PROG, CONTRACTS
    PROG, CONTRACTS = prog, contracts
    pend = sorted(idx, key=lambda i: -getattr(contracts[i], 'cost', 1))
    run = {}
    res = {}
    t0 = time.time()
    while pend or run:
        while pend and len(run) < jobs:
            i = pend.pop(0)
            s = secs if total is None else max(5, min(secs, total - (time.time() - t0)))
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, i, s, second))
            p.start()
            b.close()
            run[i] = (p, a, time.time(), s)
        ready = mp.connection.wait([x[1] for x in run.values()], 0.5)
        for i in list(run):
            p, a, t, s = run[i]
            r = None
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(i=i, name=contracts[i].name, props=contracts[i].props, error='worker ended', paths=0, rets=0, loops=0, inlined=[], used=[], trusted=[], solver=0.0, wall=time.time() - t, obl=[])
            elif time.time() - t > s + 90:
                p.kill()
                r = dict(i=i, name=contracts[i].name, props=contracts[i].props, error='unsupported: time budget exhausted', paths=0, rets=0, loops=0, inlined=[], used=[], trusted=[], solver=0.0, wall=time.time() - t, obl=[])
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del run[i]
                res[i] = r
                if on_done:
                    on_done(r)
    return [res[i] for i in idx]
