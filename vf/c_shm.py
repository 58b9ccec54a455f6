"""Contracts of the API wrappers, the unattached answers, the modes and the shared area's life cycle."""
import z3
from .symex import *
from .regions import *
from .contract import FnContract, Contract
from .c_prim import ptr, EINVAL, ENOLCK, EBUSY, ETIMEDOUT, EPERM
from .c_unit import F, FA, fld, fregion, G, sym, errno_setup, m_errno, set_errno, IDM, id_setup
from .c_io import init_value
from . import irparse as ir

BV32 = z3.BitVecSort(32)
B = lambda n, w: z3.Bool(n) if w == 1 else z3.BitVec(n, w)


def i32(v):
    return bv(v, 32)


# ================================================================ the C API and its class wrappers
RAW_MTX = 'FlShm::RawLock(flck_lock_type, char const*, long)'
RAW_RW = 'FlShm::RawLock(flck_lock_type, int, long, unsigned long, long)'
RAW_COND = 'FlShm::RawLock(flck_lock_type, char const*, char const*, bool, long)'


def m_raw(kind, w=32):
    def f(ex, st, args, ins):
        ex.oblige(st, 'the request is passed on at most once', st.ghost['call'] is None, 'post')
        r = fresh('ret_' + kind, w)
        st.ghost['call'] = (kind,) + tuple(args) + (r,)
        return r
    f.__doc__ = 'contract of the request function, recorded'
    return f


def m_islocked(ex, st, args, ins):
    """contract of the query, recorded"""
    r = z3.Bool('ret_islocked')
    st.ghost['call'] = ('query',) + tuple(args[1:]) + (r,)
    return r


WRAPM = {RAW_MTX: m_raw('mtx'), RAW_RW: m_raw('rw'), RAW_COND: m_raw('cond'), 'FlShm::IsLocked': m_islocked,
         'FlShm::InitializeSingleton': lambda ex, st, a, i: True, '__cxa_atexit': lambda ex, st, a, i: 0}


def wsetup(cls, *names):
    def f(ex, st):
        st.ghost['call'] = None
        a = []
        if cls:
            a.append(ex.alloc(st, 8, 'this'))
        for n in names:
            a.append(B(n, {'fd': 32}.get(n, 64)))
        return a
    return f


NOTO = (1 << 64) - 1


def wpost(cls, kind, lock, to, names):
    """lock: exact type, or None for any lock type; to: 'given' | 'try' | 'none' | 'any'"""
    def f(ex, old, st, a, ret):
        a = a[1:] if cls else a
        d = dict(zip(names, a))
        c = st.ghost['call']
        out = []
        if c is None:
            nn = [Or(d[n] == 0) for n in names if n in ('pname', 'pcondname')]
            return [('the request is passed on, or a missing name is refused', And(Or(*nn) if nn else False, i32(ret) == EINVAL))]
        same_kind = c[0] == kind
        out.append(('the request goes to the right kind of object', same_kind))
        if not same_kind:
            return out
        if kind == 'query':
            out.append(('the answer of the query is passed back', bl(ret) == c[-1]))
            out.append(('descriptor, offset and length are passed as given', And(bv(c[1], 32) == d['fd'], bv(c[2], 64) == d['offset'], bv(c[3], 64) == d['length'])))
            return out
        out.append(('the result is passed back', i32(ret) == c[-1]))
        t = i32(c[1])
        out.append(('the operation asked for is the operation requested', t == lock if lock is not None else t != 0))
        tv = bv(c[-2], 64)
        if to == 'given':
            out.append(('the timeout is passed as given', tv == d['timeout_usec']))
        elif to == 'try':
            out.append(('a try request does not wait', tv == 0))
        elif to == 'none':
            out.append(('an untimed request has no timeout', tv == NOTO))
        if kind == 'mtx':
            out.append(('the name is passed as given', bv(c[2], 64) == d['pname']))
        if kind == 'rw':
            out.append(('descriptor, offset and length are passed as given', And(bv(c[2], 32) == d['fd'], bv(c[3], 64) == d['offset'], bv(c[4], 64) == d['length'])))
        if kind == 'cond':
            out.append(('the condition name is passed as given', bv(c[2], 64) == d['pcondname']))
            if 'pmutexname' in d:
                out.append(('the mutex name is passed as given', bv(c[3], 64) == d['pmutexname']))
        return out
    return f


def bpost(cls, names, bc):
    g = wpost(cls, 'cond', 0, 'any', names)

    def f(ex, old, st, a, ret):
        out = g(ex, old, st, a, ret)
        c = st.ghost['call']
        if c is not None and c[0] == 'cond':
            out.append(('signal wakes one, broadcast all', bl(c[4]) == bc))
        return out
    return f


WR = []
for api, cls, kind, lock, to, names, props in (
        ('fullock_mutex_lock', 'FlShm::Lock(char const*)', 'mtx', None, 'none', ('pname',), ('P02', 'P04')),
        ('fullock_mutex_trylock', 'FlShm::TryLock(char const*)', 'mtx', None, 'try', ('pname',), ('P02', 'P04')),
        ('fullock_mutex_timedlock', 'FlShm::TimeoutLock(char const*, long)', 'mtx', None, 'given', ('pname', 'timeout_usec'), ('P02', 'P04')),
        ('fullock_mutex_unlock', 'FlShm::Unlock(char const*)', 'mtx', 0, 'any', ('pname',), ('P02',)),
        ('fullock_rwlock_rdlock', 'FlShm::ReadLock(int, long, unsigned long)', 'rw', 1, 'none', ('fd', 'offset', 'length'), ('P01', 'P04', 'P05')),
        ('fullock_rwlock_tryrdlock', 'FlShm::TryReadLock(int, long, unsigned long)', 'rw', 1, 'try', ('fd', 'offset', 'length'), ('P01', 'P04', 'P05')),
        ('fullock_rwlock_timedrdlock', 'FlShm::TimeoutReadLock(int, long, unsigned long, long)', 'rw', 1, 'given', ('fd', 'offset', 'length', 'timeout_usec'), ('P01', 'P04', 'P05')),
        ('fullock_rwlock_wrlock', 'FlShm::WriteLock(int, long, unsigned long)', 'rw', 2, 'none', ('fd', 'offset', 'length'), ('P01', 'P04', 'P05')),
        ('fullock_rwlock_trywrlock', 'FlShm::TryWriteLock(int, long, unsigned long)', 'rw', 2, 'try', ('fd', 'offset', 'length'), ('P01', 'P04', 'P05')),
        ('fullock_rwlock_timedwrlock', 'FlShm::TimeoutWriteLock(int, long, unsigned long, long)', 'rw', 2, 'given', ('fd', 'offset', 'length', 'timeout_usec'), ('P01', 'P04', 'P05')),
        ('fullock_rwlock_unlock', 'FlShm::Unlock(int, long, unsigned long)', 'rw', 0, 'any', ('fd', 'offset', 'length'), ('P01', 'P05')),
        ('fullock_rwlock_islocked', None, 'query', None, 'any', ('fd', 'offset', 'length'), ('P09',)),
        ('fullock_cond_timedwait', 'FlShm::TimeoutWait(char const*, char const*, long)', 'cond', None, 'given', ('pcondname', 'pmutexname', 'timeout_usec'), ('P03', 'P04')),
        ('fullock_cond_wait', 'FlShm::Wait(char const*, char const*)', 'cond', None, 'none', ('pcondname', 'pmutexname'), ('P03', 'P04')),
        ('fullock_cond_signal', 'FlShm::Signal(char const*)', 'cond', 0, False, ('pcondname',), ('P03',)),
        ('fullock_cond_broadcast', 'FlShm::Broadcast(char const*)', 'cond', 0, True, ('pcondname',), ('P03',))):
    for t, c in ((api, False), (cls, True)):
        if t is None:
            continue
        if kind == 'cond' and isinstance(to, bool):
            post = bpost(c, names, to)
        else:
            post = wpost(c, kind, lock, to, names)
        WR.append((t, wsetup(c, *names), post, 1 if kind == 'query' else 32, props))


# ================================================================ unattached or invalid use
def no_touch(what):
    def f(ex, st, args, ins):
        ex.oblige(st, 'shared state is not touched', Not(unatt_or_bad(st)), 'post')
        raise PathEnd()
    f.__doc__ = 'contract: touches the shared area'
    return f


def unatt_or_bad(st):
    g = st.ghost
    return Or(g['badfd'], Not(g['att']))


def m_initshm(ex, st, args, ins):
    """contract: attaches, or answers false and leaves the area unattached"""
    st.ghost['tries'] = st.ghost['tries'] + 1
    s2 = st.copy()
    st.ghost['att'] = z3.BoolVal(True)
    for n, b in (('FlShm::ShmFd', 4), ('FlShm::pFlHead', 8), ('FlShm::pShmBase', 8)):
        ex.store_local(st, sym(ex, n), b, fresh(n, 8 * b))
    return [(st, True), (s2, False)]


def m_fdev(ex, st, args, ins):
    """contract: answers whether the descriptor is usable"""
    s2 = st.copy()
    s2.ghost['badfd'] = z3.BoolVal(True)
    for p in args[1:3]:
        ex.store_local(st, p, 8, fresh('dev', 64))
    return [(st, True), (s2, False)]


NOAT = dict(IDM, **{'FlShm::InitializeShm': m_initshm, 'GetFileDevNode(int, unsigned long&, unsigned long&)': m_fdev,
                    'get_flckpid': lambda ex, st, a, i: fresh('me', 64)})
for _n in ('fullock::fl_lock_lockid', 'fullock::fl_unlock_lockid'):
    NOAT[_n] = no_touch(_n)


def unatt_setup(attached, this=False, *names):
    def f(ex, st):
        errno_setup(ex, st)
        st.ghost['tries'] = z3.BitVecVal(0, 32)
        st.ghost['att'] = z3.BoolVal(attached)
        st.ghost['badfd'] = z3.BoolVal(False)
        if attached:
            st.assume(G(ex, st, 'FlShm::ShmFd', 4) != -1)
        else:
            ex.store_local(st, sym(ex, 'FlShm::ShmFd'), 4, mask(32))
            ex.store_local(st, sym(ex, 'FlShm::pFlHead'), 8, 0)
            ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, 0)
        st.assume(z3.ULE(G(ex, st, 'FlShm::NomapMode', 4), 3))
        a = [ex.alloc(st, 8, 'this')] if this else []
        return a + [B(n, w) for n, w in names]
    return f


def mode(ex, st):
    return G(ex, st, 'FlShm::NomapMode', 4)


def retry(m):
    return Or(m == 2, m == 3)


def deny(m):
    return Or(m == 1, m == 3)


def att_mod(ex, st, a):
    return [('ghost', 'tries'), ('ghost', 'att'), ('ghost', 'badfd'), ('cell', ex.errno_addr, 4)] + [('cell', sym(ex, n), b) for n, b in (('FlShm::ShmFd', 4), ('FlShm::pFlHead', 8), ('FlShm::pShmBase', 8))]


def lock_answer(named):
    def f(ex, old, st, a, ret):
        r = i32(ret)
        m = mode(ex, old)
        ans = r == z3.If(deny(m), z3.BitVecVal(ENOLCK, 32), z3.BitVecVal(0, 32))
        att = st.ghost['att']
        nul = (a[1] == 0) if named else False
        out = [('without an attached area or a usable descriptor the answer is the one the mode says', Imp(And(Not(nul), unatt_or_bad(st)), ans)),
               ('an attach is tried exactly when unattached in a retry mode', Imp(Not(nul), st.ghost['tries'] == z3.If(And(Not(old.ghost['att']), retry(m)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))]
        if named:
            out.append(('a missing name is refused as invalid', Imp(nul, r == EINVAL)))
        return out
    return f


def query_answer(ex, old, st, a, ret):
    m = mode(ex, old)
    return [('without an attached area the answer is the one the mode says', Imp(Not(st.ghost['att']), bl(ret) == deny(m))),
            ('a descriptor that is not open is not locked', Imp(And(st.ghost['att'], st.ghost['badfd']), Not(bl(ret)))),
            ('an attach is tried exactly when unattached in a retry mode', st.ghost['tries'] == z3.If(And(Not(old.ghost['att']), retry(m)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))]


def attach_answer(ex, old, st, a, ret):
    m = mode(ex, old)
    return [('attached or not is answered truly', bl(ret) == st.ghost['att']),
            ('an attach is tried exactly when unattached in a retry mode', st.ghost['tries'] == z3.If(And(Not(old.ghost['att']), retry(m)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))]


def noat_contracts(add):
    lt = [('type', 32)]
    for att in (False, True):
        w = ' (attached)' if att else ' (unattached)'
        add('FlShm::CheckAttach()', unatt_setup(att), None, attach_answer, att_mod, 1, ('P10',), models=NOAT, name='FlShm::CheckAttach' + w)
        add(RAW_RW, unatt_setup(att, False, *(lt + [('fd', 32), ('offset', 64), ('length', 64), ('timeout', 64)])), None, lock_answer(False), att_mod, 32, ('P10',), models=NOAT, overloads=True, noreturn=True, name=RAW_RW + w)
        add('FlShm::IsLocked(int, long, unsigned long)', unatt_setup(att, True, ('fd', 32), ('offset', 64), ('length', 64)), None, query_answer, att_mod, 1, ('P10',), models=NOAT, noreturn=True, name='FlShm::IsLocked' + w)
        add(RAW_MTX, unatt_setup(att, False, *(lt + [('pname', 64), ('timeout', 64)])), None, lock_answer(True), att_mod, 32, ('P10',), models=NOAT, overloads=True, noreturn=True, name=RAW_MTX + w)
        add(RAW_COND, unatt_setup(att, False, *(lt + [('pcondname', 64), ('pmutexname', 64), ('bc', 1), ('timeout', 64)])), None, lock_answer(True), att_mod, 32, ('P10',), models=NOAT, overloads=True, noreturn=True, name=RAW_COND + w)


# ================================================================ modes and setters
def gset(*names):
    def f(ex, st):
        return [B(n, w) for n, w in names]
    return f


SZ = {'FlShm::RobustMode': 4, 'FlShm::NomapMode': 4, 'FlShm::FreeUnitMode': 4, 'FlShm::RobustLoopCnt': 4, 'FlShm::ShmFileUmask': 4, 'FlShm::IsAutoInitialize': 1,
      'FlShm::FileLockAreaCount': 8, 'FlShm::OffLockAreaCount': 8, 'FlShm::LockerAreaCount': 8, 'FlShm::NMtxAreaCount': 8, 'FlShm::NCondAreaCount': 8, 'FlShm::WaiterAreaCount': 8, 'FlShm::ShmFd': 4}
COUNTS = [('FlShm::FileLockAreaCount', 1, 2048, 128), ('FlShm::OffLockAreaCount', 4, 16384, 8192), ('FlShm::LockerAreaCount', 4, 16384, 8192),
          ('FlShm::NMtxAreaCount', 1, 8192, 256), ('FlShm::NCondAreaCount', 1, 8192, 256), ('FlShm::WaiterAreaCount', 4, 16384, 8192)]


def gv(ex, st, n):
    return G(ex, st, n, SZ[n])


def gmod(*names):
    return lambda ex, st, a: [('cell', sym(ex, n), SZ[n]) for n in names]


def robust_after(ex, old, new):
    c = gv(ex, old, 'FlShm::RobustLoopCnt')
    return z3.If(And(new == 2, c < 50), z3.BitVecVal(5000, 32), c)


def set_post(n, api=None):
    def f(ex, old, st, a, ret):
        v = a[0] if api is None else bv(api, 32)
        out = [('the mode in force is exactly the one given', gv(ex, st, n) == v)]
        if n == 'FlShm::RobustMode':
            out.append(('the check count changes only to its default, when the new mode is high and it is below the minimum', gv(ex, st, 'FlShm::RobustLoopCnt') == robust_after(ex, old, v)))
        if api is None:
            out.append(('the former value is answered', bv(ret, 8 * SZ[n]) == gv(ex, old, n)))
        else:
            out.append(('success is answered', bl(ret)))
        return out
    return f


def cnt_post(api):
    def f(ex, old, st, a, ret):
        n = 'FlShm::RobustLoopCnt'
        ok = And(gv(ex, old, 'FlShm::RobustMode') == 2, a[0] >= 50)
        o = gv(ex, old, n)
        r = Imp(o != -1, bl(ret) == ok) if api else i32(ret) == z3.If(ok, o, z3.BitVecVal(-1, 32))
        return [('the check count is changed only in high robust mode and never below the minimum', gv(ex, st, n) == z3.If(ok, a[0], o)),
                ('a refusal is told', r)]
    return f


def is_post(n, vals):
    def f(ex, old, st, a, ret):
        return [('answers the mode in force', bl(ret) == Or(*[gv(ex, old, n) == v for v in vals]))]
    return f


def val_post(n):
    def f(ex, old, st, a, ret):
        return [('answers the value in force', bv(ret, 8 * SZ[n]) == gv(ex, old, n))]
    return f


class InitialValues(Contract):
    """the values the program starts with, read from the initialisers of the globals in the IR"""
    VALUES = [('FlShm::RobustMode', 2), ('FlShm::NomapMode', 0), ('FlShm::FreeUnitMode', 1), ('FlShm::RobustLoopCnt', 5000), ('FlShm::IsAutoInitialize', 1), ('FlShm::ShmFd', mask(32))] + [(n, d) for n, l, h, d in COUNTS]

    def verify(self, ex):
        rep = Report(self.name)
        ex.rep = rep
        ex.muted = 0
        t = time.time()
        st = State()
        try:
            for n, v in self.VALUES:
                x = init_value(ex, '@_ZN' + ''.join('%d%s' % (len(p), p) for p in n.split('::')) + 'E')
                if x is None:
                    rep.error = 'unsupported: no initial value found for ' + n
                    break
                ex.oblige(st, '%s starts as documented' % n, x & mask(8 * SZ[n]) == v, 'init')
        except Unsupported as e:
            rep.error = 'unsupported: ' + str(e)
        rep.rets = 1
        rep.wall = time.time() - t
        return rep


def mode_contracts(add, C):
    add('FlShm::SetRobustMode(FlShm::robust_mode)', gset(('newval', 32)), lambda ex, st, a: [('a defined mode', z3.ULE(a[0], 2))], set_post('FlShm::RobustMode'), gmod('FlShm::RobustMode', 'FlShm::RobustLoopCnt'), 32, ('P13',))
    add('FlShm::SetNomapMode(FlShm::nomap_mode)', gset(('newval', 32)), lambda ex, st, a: [('a defined mode', z3.ULE(a[0], 3))], set_post('FlShm::NomapMode'), gmod('FlShm::NomapMode'), 32, ('P13',))
    add('FlShm::SetFreeUnitMode(FlShm::free_unit_mode)', gset(('newval', 32)), lambda ex, st, a: [('a defined mode', z3.ULE(a[0], 2))], set_post('FlShm::FreeUnitMode'), gmod('FlShm::FreeUnitMode'), 32, ('P13',))
    for n, l, h, d in COUNTS:
        add(n.replace('::', '::Set') + '(unsigned long)', gset(('newval', 64)), None, set_post(n), gmod(n), 64, ('P13',))
    add('FlShm::SetRobustLoopCnt(int)', gset(('newval', 32)), None, cnt_post(False), gmod('FlShm::RobustLoopCnt'), 32, ('P13',))
    add('fullock_set_robust_check_count', gset(('val', 32)), None, cnt_post(True), gmod('FlShm::RobustLoopCnt'), 1, ('P13',))
    for s, n, v in (('no_robust', 'FlShm::RobustMode', 0), ('low_robust', 'FlShm::RobustMode', 1), ('high_robust', 'FlShm::RobustMode', 2),
                    ('noretry_allow_nomap', 'FlShm::NomapMode', 0), ('noretry_deny_nomap', 'FlShm::NomapMode', 1), ('retry_allow_nomap', 'FlShm::NomapMode', 2), ('retry_deny_nomap', 'FlShm::NomapMode', 3),
                    ('no_freeunit', 'FlShm::FreeUnitMode', 0), ('fd_freeunit', 'FlShm::FreeUnitMode', 1), ('offset_freeunit', 'FlShm::FreeUnitMode', 2)):
        add('fullock_set_' + s, gset(), None, set_post(n, v), gmod(n, 'FlShm::RobustLoopCnt') if v == 2 and n == 'FlShm::RobustMode' else gmod(n), 1, ('P13',))
    for f, n, vals in (('FlShm::IsRobust()', 'FlShm::RobustMode', (1, 2)), ('FlShm::IsHighRobust()', 'FlShm::RobustMode', (2,)), ('FlShm::IsFreeUnitFd()', 'FlShm::FreeUnitMode', (1,)), ('FlShm::IsFreeUnitOffset()', 'FlShm::FreeUnitMode', (1, 2))):
        add(f, lambda ex, st, n=n: (st.assume(z3.ULE(gv(ex, st, n), 2)), [])[1], None, is_post(n, vals), None, 1, ('P13',))
    add('FlShm::GetRobustLoopCnt()', gset(), None, val_post('FlShm::RobustLoopCnt'), None, 32, ('P13',))
    C.append(InitialValues(target='(initial values)', name='initial values of the configuration', props=('P13',)))


def contracts():
    C = []

    def add(*a, **k):
        C.append(FnContract(*a, **k))
    for t, s, post, ret, props in WR:
        add(t, s, None, post, lambda ex, st, a: [('ghost', 'call')], ret, props, models=WRAPM, overloads=t.startswith('FlShm'), cost=0)
    noat_contracts(add)
    mode_contracts(add, C)
    return C
