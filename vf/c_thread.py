"""Contracts of the recovery worker: control flag, life cycle, event scan, cleanup, main loop."""
import z3
from .symex import *
from .regions import *
from .contract import FnContract
from .c_prim import ptr
from .c_unit import F, FA, fld, fregion, G, sym, errno_setup, m_errno, set_errno
from .c_shm import B, gv
from .c_conf import CONFM, statics_setup
from .c_area import th_object, thoff
from .strmodel import *
from . import irparse as ir

RUN, STOP, EXIT, FIN = 0, 1, 2, 3
NOFD = mask(32)
EAGAIN, EINTR, EBUSY = 11, 4, 16


class FlagWord(ProtoRegion):
    """the control flag: once it is exit or finished it only moves forward"""

    def __init__(self, tag='flag'):
        ProtoRegion.__init__(self, tag, 32)

    @staticmethod
    def ghosts(st):
        st.ghost.setdefault('fl.last', z3.BitVecVal(99, 32))
        st.ghost.setdefault('fl.wrote', z3.BoolVal(False))

    def rely(self, ex, st, a):
        V = bv(self.get(st, a), 32)
        V2 = fresh('flag', 32)
        st.assume(And(z3.ULE(V2, FIN), Imp(z3.UGE(V, EXIT), z3.UGE(V2, V))))
        self.put(st, a, V2)

    def observe(self, ex, st, a, v):
        st.ghost['fl.last'] = bv(v, 32)

    def write(self, ex, st, a, old, new, ok):
        ex.oblige(st, 'guarantee: the control flag is a known state, and from exit on it only moves forward', Or(new == old, And(z3.ULE(new, FIN), Imp(z3.UGE(old, EXIT), z3.UGE(new, old)))), 'guarantee')
        done = z3.BoolVal(True) if ok is None else ok
        self.on_write(ex, st, new, done)
        st.ghost['fl.last'] = z3.If(done, new, st.ghost['fl.last'])
        st.ghost['fl.wrote'] = Or(st.ghost['fl.wrote'], And(done, new != old))
        self.put(st, a, new)

    def on_write(self, ex, st, new, done):
        pass


FLMOD = [('ghost', 'fl.last'), ('ghost', 'fl.wrote')]


# ---------------------------------------------------------------- Run, Stop, Exit
def obj_setup(ex, st):
    """a worker object other threads may use at the same time"""
    errno_setup(ex, st)
    FlagWord.ghosts(st)
    p = ptr(ex, st, 'this', 'FlckThread')
    ex.region_of[('FlckThread', 1)] = FlagWord(('FlckThread', 1))
    ex.region_of[('class.FlckThread', 1)] = ex.region_of[('FlckThread', 1)]
    for i in (0, 2, 4, 5):
        ex.region_of[('class.FlckThread', i)] = fregion(ex, 'FlckThread', i)
    st.assume(z3.ULE(flag(ex, st, p), FIN))
    st.assume(z3.ULE(F(ex, st, p, 'FlckThread', 4), 1))
    g = st.ghost
    g['cancel'], g['joined'], g['jerr'], g['napped'] = (), z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(True)
    return [p]


def flag(ex, st, p):
    return bv(ex.region_of[('FlckThread', 1)].get(st, FA(ex, p, 'FlckThread', 1)), 32)


def isrun(ex, st, p):
    return F(ex, st, p, 'FlckThread', 4) != 0


def go_post(want, frm):
    def f(ex, old, st, a, ret):
        p = a[0]
        ok = bl(ret)
        l = st.ghost['fl.last']
        return [('without a worker the request is refused', Imp(Not(isrun(ex, old, p)), And(Not(ok), Not(st.ghost['fl.wrote'])))),
                ('accepted: the flag is what was asked for, unless the worker is ending', Imp(ok, Or(l == want, z3.UGE(l, EXIT)))),
                ('refused: the worker was not in the state to leave', Imp(And(isrun(ex, old, p), Not(ok)), And(l != frm, Not(st.ghost['fl.wrote']))))]
    return f


def go_mod(ex, st, a):
    return FLMOD + [('mem', ('FlckThread', 1), FA(ex, a[0], 'FlckThread', 1))]


def m_cancel(ex, st, a, ins):
    """trusted: asks the thread to end, or an error"""
    ex.oblige(st, 'the worker of this object is asked to end', And(bv(a[0], 64) == F(ex, st, ex.this, 'FlckThread', 5), isrun(ex, st, ex.this)), 'post')
    s2 = st.copy()
    st.ghost['cancel'] = st.ghost['cancel'] + (True,)
    s2.ghost['cancel'] = s2.ghost['cancel'] + (False,)
    e = fresh('err', 32)
    s2.assume(e != 0)
    return [(st, 0), (s2, e)]


def m_join(ex, st, a, ins):
    """trusted: 0 and the thread has ended and is reaped, EBUSY while it runs, or an error"""
    g = st.ghost
    ex.oblige(st, 'the worker is waited for once, after it was asked to end and told so by the flag', And(bv(a[0], 64) == F(ex, st, ex.this, 'FlckThread', 5), bool(g['cancel'] and g['cancel'][-1]), Not(g['joined']), z3.UGE(flag(ex, st, ex.this), EXIT)), 'post')
    s2, s3 = st.copy(), st.copy()
    g['joined'] = z3.BoolVal(True)
    ex.store(st, None, ('int', 64), fresh('retval', 64), a[1])
    e = fresh('err', 32)
    s3.assume(And(e != 0, e != EBUSY))
    s3.ghost['jerr'] = z3.BoolVal(True)
    s2.ghost['lastj'] = st.ghost['fl.last']
    return [(st, 0), (s2, EBUSY), (s3, e)]


def m_nanosleep(ex, st, a, ins):
    """trusted"""
    return fresh('nanosleep', 32)


class Exit(FnContract):
    def setup(self, ex, st):
        a = obj_setup(ex, st)
        ex.this = a[0]
        st.ghost['lastj'] = z3.BitVecVal(0, 32)
        return a


def exit_post(ex, old, st, a, ret):
    p = a[0]
    ok = bl(ret)
    g = st.ghost
    c = g['cancel']
    now = flag(ex, st, p)
    out = [('without a worker the request is refused', Imp(Not(isrun(ex, old, p)), And(Not(ok), not c, Not(g['fl.wrote'])))),
           ('accepted: the worker is ending or finished', Imp(ok, z3.UGE(now, EXIT))),
           ('refused only without a worker or when it could not be asked to end', Imp(Not(ok), Or(Not(isrun(ex, old, p)), bool(c and not c[-1]))))]
    if c and c[-1]:
        out.append(('the worker has ended, unless waiting failed or it had finished and was given time', Or(g['joined'], g['jerr'], now == FIN)))
        out.append(('the object has no worker any more', Not(isrun(ex, st, p))))
    else:
        out.append(('otherwise an exit was under way', Or(Not(ok), z3.UGE(g['fl.last'], EXIT))))
    return out


def exit_mod(ex, st, a):
    return go_mod(ex, st, a) + [('ghost', x) for x in ('cancel', 'joined', 'jerr', 'lastj', 'napped')] + [('mem', ('FlckThread', 4), FA(ex, a[0], 'FlckThread', 4)), ('cell', ex.errno_addr, 4)]


def exit_cands(ex, entry, head, mods, depth, header, a, old):
    p = a[0]
    return [('ending', lambda s: z3.UGE(flag(ex, s, p), EXIT)), ('not joined', lambda s: Not(s.ghost['joined'])), ('no error', lambda s: Not(s.ghost['jerr'])), ('known', lambda s: z3.ULE(flag(ex, s, p), FIN)),
            ('nothing written yet', lambda s: Not(s.ghost['fl.wrote'])), ('running', lambda s: isrun(ex, s, p)), ('only this word', lambda s: only(ex, ('FlckThread', 1), FA(ex, p, 'FlckThread', 1), old, s))] + below(ex, head, mods, depth)


def only(ex, tag, p, old, s):
    r = ex.region_of[tag]
    return z3.Store(r.arr(old), bv(p, 64), sel(r.arr(s), p)) == r.arr(s)


def below(ex, head, mods, depth):
    out = []
    for it in mods:
        if it[0] in ('phi', 'cell'):
            v = ex.get_item(head, it, depth)
            if v is not None and not isinstance(v, tuple) and not isc(v) and z3.is_bv(v) and v.size() == 32:
                out.append(('%s is not yet exit' % (it,), lambda s, it=it: z3.ULT(bv(ex.get_item(s, it, depth), 32), EXIT)))
                if 'joined' in head.ghost:
                    out.append(('%s tells whether it was joined' % (it,), lambda s, it=it: (bv(ex.get_item(s, it, depth), 32) == 0) == s.ghost['joined']))
    return out


# ---------------------------------------------------------------- InitializeThread, ReInitializeThread
def m_new(ex, st, a, ins):
    """trusted: operator new does not fail"""
    p = ex.alloc(st, a[0], 'new')
    st.ghost['heap'] = st.ghost['heap'] + (p,)
    return p


def m_del(ex, st, a, ins):
    """trusted: operator delete"""
    p = a[0]
    ex.oblige(st, 'only a live parameter block is freed, once', isc(p) and p in st.ghost['heap'], 'post')
    st.ghost['heap'] = tuple(x for x in st.ghost['heap'] if x != p)


def m_strdup(ex, st, a, ins):
    """trusted: a copy of the text"""
    t = ctext(ex, st, a[0])
    q = fresh('dup', 64)
    st.assume(And(z3.UGE(q, 1 << 30), z3.ULT(q, 1 << 46), CSTR(q) == t))
    st.ghost['texts'] = st.ghost['texts'] + (q,)
    return q


def m_free(ex, st, a, ins):
    """trusted: frees the block"""
    q = a[0]
    t = [x for x in st.ghost['texts'] if same(x, q)]
    ex.oblige(st, 'only a live copy of the path is freed, once', len(t) == 1, 'post')
    st.ghost['texts'] = tuple(x for x in st.ghost['texts'] if not same(x, q))


def poff(ex, i):
    return fld(ex, 'flck_th_param', i)[0]


def m_create(ex, st, a, ins):
    """trusted: starts a thread, or an error"""
    w = ex.global_addr('@_ZN10FlckThread10WorkerProcEPv')
    this = ex.this
    pp = a[3]
    ok = isc(pp) and pp in st.ghost['heap'] and isc(a[2]) and a[2] == w
    ex.oblige(st, 'the worker procedure is started with its own parameter block, once', ok and st.ghost['thread'] is None, 'post')
    if not ok:
        raise PathEnd()
    ex.oblige(st, 'the worker follows the flag of this object', bv(ex.load_local(st, pp + poff(ex, 0), 8, 64), 64) == this + thoff(ex, 1), 'post')
    ex.oblige(st, 'the worker waits as long as asked', bv(ex.load_local(st, pp + poff(ex, 1), 4, 32), 32) == ex.want[1], 'post')
    ex.oblige(st, 'the worker watches the file asked for, by a copy of its name', And(bool(st.ghost['texts']) and same(st.ghost['texts'][-1], ex.load_local(st, pp + poff(ex, 2), 8, 64)), CSTR(bv(ex.load_local(st, pp + poff(ex, 2), 8, 64), 64)) == ex.want[0]), 'post')
    s2 = st.copy()
    ex.store(st, None, ('int', 64), fresh('tid', 64), a[0])
    ex.oblige(st, 'the thread is known by the object', isc(a[0]) and a[0] == this + thoff(ex, 5), 'post')
    st.ghost['thread'] = pp
    e = fresh('err', 32)
    s2.assume(e != 0)
    return [(st, 0), (s2, e)]


THRM = dict(CONFM, **{'_Znwm': m_new, '_ZdlPv': m_del, '_ZdlPvm': m_del, 'strdup': m_strdup, 'free': m_free, 'pthread_create': m_create})


class InitThread(FnContract):
    """entry cases: an object with and without a worker; a file name or none"""

    def initial_states(self, ex):
        for run in (False, True):
            st = State()
            str_setup(ex, st)
            errno_setup(ex, st)
            g = st.ghost
            g['heap'], g['texts'], g['thread'] = (), (), None
            p = ex.this = th_object(ex, st, run)
            f = B('pfile', 64)
            st.assume(Or(f == 0, And(z3.UGE(f, 4096), z3.ULT(f, 1 << 46))))
            n = B('intervalms', 32)
            ex.want = (CSTR(f), n)
            st.ghost['run'] = run
            yield st, [p, f, n]


def it_post(ex, old, st, a, ret):
    p, f, n = a
    g = st.ghost
    ok = bl(ret)
    runs = bv(ex.load_local(st, p + thoff(ex, 4), 1, 8), 8)
    out = [('accepted exactly when the thread was started', ok == z3.BoolVal(g['thread'] is not None)),
           ('an object has one worker, and needs a file', Imp(Or(f == 0, g['run']), g['thread'] is None)),
           ('it knows whether it has a worker', (runs != 0) == Or(g['run'], g['thread'] is not None))]
    if g['thread'] is not None:
        out.append(('file and interval are kept for a fork', And(get(ex, st, p + thoff(ex, 3)) == CSTR(f), bv(ex.load_local(st, p + thoff(ex, 2), 4, 32), 32) == n)))
        out.append(('nothing but the parameters of the worker is kept', len(g['heap']) == 1 and len(g['texts']) == 1))
    else:
        out.append(('a refusal keeps no memory', not g['heap'] and not g['texts']))
    return out


def it_mod(ex, st, a):
    return [('ghost', x) for x in ('heap', 'texts', 'thread')] + [('cell', a[0] + thoff(ex, i), n) for i, n in ((2, 4), (3, 32), (4, 1), (5, 8))]


class ReInitThread(FnContract):
    """in the child of a fork: the parameters of the parent's worker, or none"""

    def initial_states(self, ex):
        for old in (False, True):
            st = State()
            str_setup(ex, st)
            errno_setup(ex, st)
            g = st.ghost
            g['heap'], g['texts'], g['call'] = (), (), None
            p = ex.this = th_object(ex, st, True)
            ex.store_local(st, p + thoff(ex, 2), 4, B('bup.interval', 32))
            q = 0
            if old:
                q = ex.alloc(st, 24, 'oldparam')
                t = B('oldpath', 64)
                st.assume(And(z3.UGE(t, 1 << 30), z3.ULT(t, 1 << 46)))
                ex.store_local(st, q + poff(ex, 2), 8, t)
                g['heap'], g['texts'] = (q,), (t,)
            ex.store_local(st, sym(ex, 'FlckThread::pThreadParam'), 8, q)
            yield st, [p]


def m_init(ex, st, a, ins):
    """contract of InitializeThread"""
    p = ex.this
    ld = lambda i, n: bv(ex.load_local(st, p + thoff(ex, i), n, 8 * n), 8 * n)
    ex.oblige(st, 'the child starts its worker anew: no worker, flag stopped, the file and interval of the parent', And(isc(a[0]) and a[0] == p, st.ghost['call'] is None, ld(4, 1) == 0, ld(1, 4) == STOP, bv(a[2], 32) == B('bup.interval', 32), ctext(ex, st, a[1]) == z3.Const('bup.path', STR)), 'post')
    s2 = st.copy()
    st.ghost['call'] = True
    s2.ghost['call'] = False
    ex.store_local(st, p + thoff(ex, 4), 1, 1)
    return [(st, True), (s2, False)]


def ri_post(ex, old, st, a, ret):
    g = st.ghost
    return [('the worker is started unless no file is known', Or(z3.BoolVal(g['call'] is not None), empty(z3.Const('bup.path', STR)))),
            ('answers whether it started', bl(ret) == bool(g['call'])),
            ('the parameters of the worker that is not there are freed', Or(z3.BoolVal(g['call'] is None), And(not g['heap'], not g['texts'], G(ex, st, 'FlckThread::pThreadParam', 8) == 0)))]


def ri_mod(ex, st, a):
    return [('ghost', x) for x in ('heap', 'texts', 'call')] + [('cell', a[0] + thoff(ex, i), n) for i, n in ((1, 4), (4, 1))] + [('cell', sym(ex, 'FlckThread::pThreadParam'), 8)] + [('cell', q, 24) for q in st.ghost['heap']]


# ---------------------------------------------------------------- CheckEvent
REST = z3.Function('close_event_from', BV64, z3.BoolSort())


class EvRegion(Region):
    """the records read from the notification descriptor"""

    def load(self, ex, st, addr):
        s, e = ex.evs
        o, w = fld(ex, 'inotify_event', self.tag[1])
        a = bv(addr, 64) - o
        ex.oblige(st, 'only complete records that were read are looked at', And(z3.UGE(a, s), z3.ULE(a + 16, e)), 'safety')
        return self.get(st, addr)


def unfold(ex, st, p):
    """definition of: some record from p on tells a close of the watched file"""
    E = lambda i: F(ex, st, p, 'inotify_event', i)
    end = ex.evs[1]
    return REST(p) == And(z3.ULE(p + 16, end), Or(And(E(0) == ex.evw, (E(1) & 0x18) != 0), REST(p + 16 + z3.ZeroExt(32, E(3)))))


def ce_setup(ex, st):
    errno_setup(ex, st)
    st.ghost['read'], st.ghost['texts'] = None, ()
    ex.evw = B('WatchFd', 32)
    ex.evs = (B('ev.buf', 64), B('ev.end', 64))
    for i in range(4):
        o, w = fld(ex, 'inotify_event', i)
        ex.region_of[('inotify_event', i)] = EvRegion(('inotify_event', i), w)
    return [B('InotifyFd', 32), ex.evw]


def m_flckread(ex, st, a, ins):
    """contract of flck_read: all bytes that are there, in a new buffer, or -1"""
    ex.oblige(st, 'the notification descriptor is read, once', And(bv(a[0], 32) == B('InotifyFd', 32), st.ghost['read'] is None), 'post')
    s2 = st.copy()
    s, e = ex.evs
    n = e - s
    st.assume(And(z3.UGE(s, 1 << 30), z3.ULT(s, 1 << 45), z3.ULE(s, e), z3.ULT(n, 1 << 44)))
    st.ghost['read'], s2.ghost['read'] = True, False
    ex.store(st, None, ('ptr',), s, a[1])
    st.ghost['texts'] = (s,)
    return [(st, n), (s2, mask(64))]


def ce_post(ex, old, st, a, ret):
    g = st.ghost
    bad = Or(a[0] == NOFD, a[1] == NOFD)
    out = [('nothing is read without descriptors; otherwise what is there', z3.BoolVal(g['read'] is None) == bad), ('the buffer is freed', not g['texts'])]
    out.append(('tells exactly whether a close of the watched file was reported', bl(ret) == (REST(ex.evs[0]) if g['read'] else z3.BoolVal(False))))
    return out


def ce_cands(ex, entry, head, mods, depth, header, a, old):
    s0 = ex.evs[0]
    P, R = [], []
    for it in mods:
        if it[0] in ('phi', 'cell'):
            v = ex.get_item(head, it, depth)
            if v is None or isinstance(v, tuple):
                continue
            if not isc(v) and z3.is_bv(v) and v.size() == 64:
                P.append(it)
            elif isinstance(v, (int, bool)) or z3.is_bool(v) or (z3.is_bv(v) and v.size() in (8, 32)):
                R.append(it)
    # a cursor is an address in the buffer or a distance from its start
    P = [(it, b) for it in P for b in (0, s0)]
    gp = lambda s, p: bv(ex.get_item(s, p[0], depth), 64) + p[1]

    def gr(s, it):
        v = ex.get_item(s, it, depth)
        return bl(v) if isinstance(v, bool) or (not isc(v) and z3.is_bool(v)) else (z3.BoolVal(bool(v & 1)) if isc(v) else (v & 1) != 0)
    out = []
    for r in R:
        out.append(('%s is a truth value' % (r,), lambda s, r=r: (lambda v: True if isinstance(v, bool) or (not isc(v) and z3.is_bool(v)) else (v in (0, 1) if isc(v) else z3.ULE(v, 1)))(ex.get_item(s, r, depth))))
    for p in P:
        def known(s, p=p):
            s.assume(unfold(ex, s, gp(s, p)))
            return And(z3.UGE(gp(s, p), s0), z3.ULT(gp(s, p) - s0, 1 << 48))
        out.append(('%s walks the records' % (p,), known))
        out.append(('%s below' % (p,), lambda s, p=p: z3.ULT(gp(s, p), 1 << 47)))
        for r in R:
            out.append(('%s: found so far, %s: the rest' % (r, p), lambda s, p=p, r=r: Or(gr(s, r), REST(gp(s, p))) == REST(s0)))
    return out


# ---------------------------------------------------------------- CleanupHandler
class EndFlag(FlagWord):
    def on_write(self, ex, st, new, done):
        g = st.ghost
        ex.oblige(st, 'finished is told last: descriptors closed and parameters freed', Imp(And(done, new == FIN), And(not g['heap'], not g['texts'], *[G(ex, st, 'FlckThread::' + n, 4) == NOFD for n in ('InotifyFd', 'EventFd')])), 'post')


def m_rmwatch(ex, st, a, ins):
    """trusted"""
    ex.oblige(st, 'the watch is removed while its descriptor is open', And(bv(a[0], 32) == G(ex, st, 'FlckThread::InotifyFd', 4), bv(a[1], 32) == G(ex, st, 'FlckThread::WatchFd', 4)), 'post')
    return fresh('rm', 32)


def m_close(ex, st, a, ins):
    """trusted: closes the descriptor"""
    fd = bv(a[0], 32)
    ex.oblige(st, 'a descriptor is closed once, and only a valid one', And(fd != NOFD, Or(fd == B('ino', 32), fd == B('evt', 32)), *[fd != x for x in st.ghost['closed']]), 'post')
    st.ghost['closed'] = st.ghost['closed'] + (fd,)
    return fresh('close', 32)


class Cleanup(FnContract):
    def initial_states(self, ex):
        for par in (False, True):
            st = State()
            errno_setup(ex, st)
            FlagWord.ghosts(st)
            g = st.ghost
            g['heap'], g['texts'], g['closed'] = (), (), ()
            ex.region_of['flag'] = EndFlag('flag')
            for n, v in (('InotifyFd', 'ino'), ('EventFd', 'evt'), ('WatchFd', 'wat')):
                ex.store_local(st, sym(ex, 'FlckThread::' + n), 4, B(v, 32))
            st.assume(Or(B('ino', 32) == NOFD, B('ino', 32) != B('evt', 32)))
            st.assume(Imp(B('ino', 32) == NOFD, B('wat', 32) == NOFD))
            q = 0
            fp = ptr(ex, st, 'pflag', 'flag')
            st.assume(z3.ULE(bv(ex.region_of['flag'].get(st, fp), 32), FIN))
            if par:
                q = ex.alloc(st, 24, 'param')
                t = B('path', 64)
                st.assume(And(z3.UGE(t, 1 << 30), z3.ULT(t, 1 << 46)))
                ex.store_local(st, q + poff(ex, 0), 8, fp)
                ex.store_local(st, q + poff(ex, 2), 8, t)
                g['heap'], g['texts'] = (q,), (t,)
            ex.fp = fp
            ex.store_local(st, sym(ex, 'FlckThread::pThreadParam'), 8, q)
            yield st, [q]


def cl_post(ex, old, st, a, ret):
    g = st.ghost
    n = sum(1 for _ in g['closed'])
    out = [('what the worker held is given back', And(not g['heap'], not g['texts'], G(ex, st, 'FlckThread::pThreadParam', 8) == 0, *[G(ex, st, 'FlckThread::' + x, 4) == NOFD for x in ('InotifyFd', 'EventFd')])),
           ('every open descriptor is closed', And(*[Or(B(v, 32) == NOFD, Or(*[B(v, 32) == c for c in g['closed']])) for v in ('ino', 'evt')]))]
    if a[0] != 0:
        out.append(('the worker is finished', bv(ex.region_of['flag'].get(st, ex.fp), 32) == FIN))
    return out


def cl_mod(ex, st, a):
    out = FLMOD + [('ghost', x) for x in ('heap', 'texts', 'closed')] + [('cell', sym(ex, 'FlckThread::' + n), 4) for n in ('InotifyFd', 'EventFd', 'WatchFd')] + [('cell', sym(ex, 'FlckThread::pThreadParam'), 8), ('mem', 'flag', ex.fp)]
    return out + ([('cell', a[0], 24)] if a[0] else [])


CLM = {'free': m_free, '_ZdlPv': m_del, '_ZdlPvm': m_del, 'inotify_rm_watch': m_rmwatch, 'close': m_close, '__errno_location': m_errno}


# ---------------------------------------------------------------- WorkerProc
def wfd(ex, st, n):
    return G(ex, st, 'FlckThread::' + n, 4)


def err(st):
    st.ghost['err'] = z3.BoolVal(True)


def m_mkfd(kind, bits):
    def f(ex, st, a, ins):
        ex.oblige(st, 'reading notifications never blocks', (bits & a[0]) == bits if isc(a[0]) else False, 'post')
        s2 = st.copy()
        fd = fresh(kind, 32)
        st.assume(And(fd >= 0, *[fd != x for x in st.ghost['fds']]))
        st.ghost['fds'] = st.ghost['fds'] + (fd,)
        err(s2)
        set_errno(ex, s2, fresh('errno', 32))
        return [(st, fd), (s2, NOFD)]
    f.__doc__ = 'trusted: a new descriptor, or -1'
    return f


def m_addwatch(ex, st, a, ins):
    """trusted: a watch, or -1"""
    ex.oblige(st, 'every close of the given file is watched, after writing and after reading', And(bv(a[0], 32) == wfd(ex, st, 'InotifyFd'), bv(a[1], 64) == B('path', 64), (bv(a[2], 32) & 0x18) == 0x18), 'post')
    s2 = st.copy()
    fd = fresh('watch', 32)
    st.assume(fd >= 0)
    st.ghost['watched'] = True
    err(s2)
    set_errno(ex, s2, fresh('errno', 32))
    return [(st, fd), (s2, NOFD)]


def m_epollctl(ex, st, a, ins):
    """trusted: 0, or -1"""
    p = a[3]
    ev = bv(ex.load_local(st, p, 4, 32), 32)
    d = bv(ex.load_local(st, p + 4, 4, 32), 32)
    ex.oblige(st, 'notifications to read wake the worker', And(bv(a[0], 32) == wfd(ex, st, 'EventFd'), bv(a[1], 32) == 1, bv(a[2], 32) == wfd(ex, st, 'InotifyFd'), (ev & 1) == 1, d == wfd(ex, st, 'InotifyFd')), 'post')
    s2 = st.copy()
    st.ghost['polled'] = True
    err(s2)
    set_errno(ex, s2, fresh('errno', 32))
    return [(st, 0), (s2, NOFD)]


class EvData(Region):
    """what epoll reports: the data registered"""

    def load(self, ex, st, addr):
        return wfd(ex, st, 'InotifyFd')


def m_pwait(ex, st, a, ins):
    """trusted: the number of events, 0 at a timeout, or -1"""
    g = st.ghost
    ex.oblige(st, 'the worker waits only when everything reported was handled', And(Not(g['pend']), Not(g['owed'])), 'post')
    ex.oblige(st, 'the worker waits for notifications only while it is to run', And(bv(a[0], 32) == wfd(ex, st, 'EventFd'), g['watched'] and g['polled'], g['fl.last'] == RUN), 'post')
    ex.oblige(st, 'the worker looks at its flag again after at most the given interval', And(bv(a[3], 32) == B('intervalms', 32)), 'post')
    ex.oblige(st, 'the worker waits at a place where it can be cancelled', g['enabled'], 'post')
    s2 = st.copy()
    n = fresh('events', 32)
    st.assume(And(n >= 0, n <= bv(a[2], 32)))
    g['owed'] = n > 0
    e = fresh('errno', 32)
    set_errno(ex, s2, e)
    s2.ghost['err'] = Or(s2.ghost['err'], e != EINTR)
    return [(st, n), (s2, NOFD)]


def m_checkevent(ex, st, a, ins):
    """contract of CheckEvent"""
    ex.oblige(st, 'the notifications of the watched file are looked at', And(bv(a[0], 32) == wfd(ex, st, 'InotifyFd'), bv(a[1], 32) == wfd(ex, st, 'WatchFd')), 'post')
    r = fresh('closed', 1)
    st.ghost['owed'] = z3.BoolVal(False)
    st.ghost['pend'] = Or(st.ghost['pend'], r)
    return r


def m_recover(ex, st, a, ins):
    """contract of CheckProcessDead: one recovery pass"""
    ex.oblige(st, 'a recovery pass runs because of a close', st.ghost['pend'], 'post')
    st.ghost['pend'] = z3.BoolVal(False)
    return fresh('recovered', 1)


def m_setcancel(ex, st, a, ins):
    """trusted: sets the cancel state of the thread"""
    g = st.ghost
    old = z3.If(g['enabled'], z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    g['enabled'] = bv(a[0], 32) == 0
    if not (isc(a[1]) and a[1] == 0):
        ex.store(st, None, ('int', 32), old, a[1])
    return 0


def m_testcancel(ex, st, a, ins):
    """trusted: ends the thread when it was cancelled (the handler runs then), else nothing"""
    return None


def m_sigsetjmp(ex, st, a, ins):
    """trusted: 0; the second return, from a cancellation, is the other path"""
    s2 = st.copy()
    s2.ghost['unwound'] = True
    r = fresh('jmp', 32)
    s2.assume(r != 0)
    return [(st, 0), (s2, r)]


def m_register(ex, st, a, ins):
    """trusted: the cleanup handler runs when the thread ends"""
    st.ghost['registered'] = True


def m_unregister(ex, st, a, ins):
    """trusted"""
    st.ghost['registered'] = False


def m_handler(ex, st, a, ins):
    """contract of CleanupHandler"""
    ex.oblige(st, 'the worker gives back what it holds once', And(not st.ghost['cleaned'], not st.ghost['registered'], bv(a[0], 64) == st.ghost['param']), 'post')
    st.ghost['cleaned'] = True
    for n in ('InotifyFd', 'EventFd'):
        ex.store_local(st, sym(ex, 'FlckThread::' + n), 4, NOFD)


def m_end(ex, st, a, ins):
    """trusted: ends the thread; a registered handler runs"""
    g = st.ghost
    ex.oblige(st, 'the worker ends only with its handler run, so that it is told finished', bool(g['cleaned'] or g['registered'] or not g['param']), 'post')
    ex.oblige(st, 'the worker ends only when told to, when cancelled, or when it cannot watch the file', Or(g['err'], z3.And(z3.UGE(g['fl.last'], EXIT), z3.ULE(g['fl.last'], FIN)), g['unwound'], not g['param']), 'post')
    raise PathEnd()


def m_nothing(ex, st, a, ins):
    """constructor or destructor of the stateless class"""
    return None


WM = {'__errno_location': m_errno, 'epoll_create1': m_mkfd('epoll', 0), 'inotify_init1': m_mkfd('inotify', 0o4000), 'inotify_add_watch': m_addwatch, 'epoll_ctl': m_epollctl, 'epoll_pwait': m_pwait, 'epoll_wait': m_pwait,
      'FlckThread::CheckEvent': m_checkevent, 'FlShm::CheckProcessDead': m_recover, 'pthread_setcancelstate': m_setcancel, 'pthread_testcancel': m_testcancel, '__sigsetjmp': m_sigsetjmp, '__pthread_register_cancel': m_register,
      '__pthread_unregister_cancel': m_unregister, '__pthread_unwind_next': m_end, 'FlckThread::CleanupHandler': m_handler, 'pthread_exit': m_end, 'nanosleep': m_nanosleep, 'FlShm::FlShm': m_nothing, 'FlShm::~FlShm': m_nothing}


class Worker(FnContract):
    def initial_states(self, ex):
        for par in (True, False):
            st = State()
            errno_setup(ex, st)
            FlagWord.ghosts(st)
            g = st.ghost
            F_ = z3.BoolVal(False)
            g.update({'pend': F_, 'owed': F_, 'err': F_, 'fds': (), 'watched': False, 'polled': False, 'registered': False, 'cleaned': False, 'unwound': False, 'enabled': z3.BoolVal(True), 'param': 0})
            ex.region_of['flag'] = FlagWord('flag')
            ex.region_of[('epoll_event', 1)] = EvData(('epoll_event', 1), 32)
            q = 0
            if par:
                fp = ex.fp = ptr(ex, st, 'pflag', 'flag')
                st.assume(z3.ULE(bv(ex.region_of['flag'].get(st, fp), 32), FIN))
                q = ex.alloc(st, 24, 'param')
                ex.store_local(st, q + poff(ex, 0), 8, fp)
                ex.store_local(st, q + poff(ex, 1), 4, B('intervalms', 32))
                ex.store_local(st, q + poff(ex, 2), 8, B('path', 64))
                g['param'] = q
            yield st, [q]


def ending(ex, s):
    return z3.UGE(bv(ex.region_of['flag'].get(s, ex.fp), 32), EXIT)


def w_cands(ex, entry, head, mods, depth, header, a, old):
    out = [('nothing pending', lambda s: Not(s.ghost['pend'])), ('nothing owed', lambda s: Not(s.ghost['owed'])), ('owed only when ending', lambda s: Imp(s.ghost['owed'], ending(ex, s))), ('no error', lambda s: Not(s.ghost['err'])), ('can be cancelled', lambda s: s.ghost['enabled'])]
    for it in mods:
        if it[0] in ('phi', 'cell'):
            v = ex.get_item(head, it, depth)
            if v is not None and not isinstance(v, tuple) and not isc(v) and z3.is_bv(v):
                v0 = ex.get_item(entry, it, depth)
                v0 = 0 if v0 is None or isinstance(v0, tuple) else v0
                out.append(('owed only at the first %s' % (it,), lambda s, it=it, n=v.size(), v0=v0: Imp(s.ghost['owed'], Or(ending(ex, s), bv(ex.get_item(s, it, depth), n) == bv(v0, n)))))
    return out


def contracts():
    C = []

    def add(cls, *a, **k):
        C.append(cls(*a, **k))
    nm = {'__errno_location': m_errno, 'nanosleep': m_nanosleep, 'pthread_cancel': m_cancel, 'pthread_tryjoin_np': m_join}
    add(FnContract, 'FlckThread::Run()', obj_setup, None, go_post(RUN, STOP), go_mod, 1, ('P16',), models=nm)
    add(FnContract, 'FlckThread::Stop()', obj_setup, None, go_post(STOP, RUN), go_mod, 1, ('P16',), models=nm)
    add(Exit, 'FlckThread::Exit()', None, None, exit_post, exit_mod, 1, ('P16',), models=nm, cands=exit_cands)
    add(InitThread, 'FlckThread::InitializeThread(char const*, int)', None, None, it_post, it_mod, 1, ('P16',), models=THRM)
    add(ReInitThread, 'FlckThread::ReInitializeThread()', None, None, ri_post, ri_mod, 1, ('P16',), models=dict(THRM, **{'FlckThread::InitializeThread': m_init}))
    add(FnContract, 'FlckThread::CheckEvent(int, int)', ce_setup, None, ce_post, lambda ex, st, a: [('ghost', 'read'), ('ghost', 'texts'), ('cell', ex.errno_addr, 4)], 1, ('P16',), models={'flck_read': m_flckread, 'free': m_free, '__errno_location': m_errno}, cands=ce_cands)
    add(Cleanup, 'FlckThread::CleanupHandler(void*)', None, None, cl_post, cl_mod, None, ('P16',), models=CLM, cands=lambda ex, entry, head, mods, depth, header, a, old: [('only this word', lambda s: only(ex, 'flag', ex.fp, old, s)), ('known', lambda s: z3.ULE(bv(ex.region_of['flag'].get(s, ex.fp), 32), FIN))])
    add(Worker, 'FlckThread::WorkerProc(void*)', None, None, None, None, None, ('P16',), models=WM, cands=w_cands, noreturn=True)
    return C
