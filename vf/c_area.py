"""Contracts of the shared area: layout, unit pools, attaching, detaching, forking."""
import z3
from .symex import *
from .regions import *
from .contract import FnContract
from .c_prim import ptr
from .c_unit import F, FA, fld, fregion, G, sym, errno_setup, m_errno, set_errno
from .c_shm import B, COUNTS, gv, SZ
from .c_io import m_pagesize, allc, statics
from .strmodel import *
from .c_conf import CONFM, statics_setup, sval
from . import irparse as ir

UNITS = ('fl_file_lock', 'fl_offset_lock', 'fl_locker', 'fl_named_mutex', 'fl_named_cond', 'fl_waiter')
MAKE = dict(zip(UNITS, ('FileLock', 'OffLock', 'Locker', 'NMtxLock', 'NCondLock', 'Waiter')))
LCLS = dict(zip(UNITS, ('FlListFileLock', 'FlListOffLock', 'FlListLocker', 'FlListNMtx', 'FlListNCond', 'FlListWaiter')))
POOLFIELD = {'fl_file_lock': 9, 'fl_offset_lock': 10, 'fl_locker': 11, 'fl_named_mutex': 12, 'fl_named_cond': 13, 'fl_waiter': 14}
ADDR = 1 << 46
MAXN = 1 << 14


def usize(ex, t):
    for m in ex.prog.modules:
        for nm in ('struct.' + t, '%struct.' + t, t):
            if nm in m.types:
                return ir.sizeof(m, ('named', nm))
    raise Unsupported('layout of ' + t)


def mul(x, sz):
    """x*sz for x up to MAXN, in few bits"""
    k = 15 + sz.bit_length()
    return z3.ZeroExt(64 - k, z3.Extract(k - 1, 0, bv(x, 64)) * z3.BitVecVal(sz, k))


def area_setup(ex, st):
    """the class variables that describe the attached area"""
    errno_setup(ex, st)
    base = B('shm.base', 64)
    fd = B('shm.fd', 32)
    ex.store_local(st, sym(ex, 'FlShm::ShmFd'), 4, fd)
    ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, base)
    st.assume(Or(base == 0, And(z3.UGE(base, 1 << 20), z3.ULT(base, ADDR), (base & 4095) == 0)))
    return base, fd


# ---------------------------------------------------------------- one pool as one chain
def ch_setup(t):
    def f(ex, st):
        errno_setup(ex, st)
        base = B('shm.base', 64)
        st.assume(And(z3.UGE(base, 1 << 20), z3.ULT(base, ADDR)))
        ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, base)
        this = ex.alloc(st, 16, 'this')
        ex.store_local(st, this + 8, 8, B('current0', 64))
        p, n = B('ptr', 64), B('count', 64)
        st.assume(And(z3.ULE(n, MAXN), Or(p == 0, And(z3.UGE(p, base), z3.ULT(p, ADDR)))))
        ex.K, ex.X = z3.ZeroExt(50, z3.BitVec('any.unit', 14)), B('any.place', 64)
        fregion(ex, t, 0)
        return [this, p, n]
    return f


def chain_at(ex, s, t, p, n, last):
    """unit K of the first n of the pool at p points to the next one; the last one of them to nothing"""
    sz = usize(ex, t)
    base = B('shm.base', 64)
    at = F(ex, s, p + mul(ex.K, sz), t, 0)
    return Imp(z3.ULT(ex.K, n), at == z3.If(ex.K + 1 == last, z3.BitVecVal(0, 64), p + mul(ex.K + 1, sz) - base))


def outside(ex, s, old, t, p, n):
    sz = usize(ex, t)
    x = ex.X
    return Imp(Or(z3.ULT(x, p), z3.UGE(x, p + mul(n, sz))), bv(fregion(ex, t, 0).get(s, x), 64) == bv(fregion(ex, t, 0).get(old, x), 64))


def ch_cands(t):
    def f(ex, entry, head, mods, depth, header, a, old):
        sz = usize(ex, t)
        p, n = a[1], a[2]
        its = []
        for it in mods:
            if it[0] in ('phi', 'cell'):
                v = ex.get_item(head, it, depth)
                if v is not None and not isinstance(v, tuple) and not isc(v) and z3.is_bv(v) and v.size() == 64:
                    its.append(it)
        get = lambda s, it: bv(ex.get_item(s, it, depth), 64)
        out = []
        for c in its:
            out.append(('%s counts' % (c,), lambda s, c=c: z3.ULE(get(s, c), n)))
            for o in its:
                if o is c:
                    continue
                out.append(('%s is unit number %s' % (o, c), lambda s, c=c, o=o: get(s, o) == p + mul(get(s, c), sz)))
                out.append(('%s is the unit before number %s' % (o, c), lambda s, c=c, o=o: get(s, o) == z3.If(get(s, c) == 0, z3.BitVecVal(0, 64), p + mul(get(s, c) - 1, sz))))
            out.append(('%s chained' % (c,), lambda s, c=c: chain_at(ex, s, t, p, get(s, c), get(s, c))))
            out.append(('%s chained to the next' % (c,), lambda s, c=c: chain_at(ex, s, t, p, get(s, c), n)))
        out.append(('untouched outside', lambda s: outside(ex, s, old, t, p, n)))
        return out
    return f


def ch_post(t):
    def f(ex, old, st, a, ret):
        this, p, n = a
        ok = And(p != 0, n != 0)
        return [('done exactly when there is a unit', bl(ret) == ok),
                ('each unit points to the next, the last to nothing: one chain of exactly the given number of units', Imp(ok, chain_at(ex, st, t, p, n, n))),
                ('nothing outside the pool is touched', Imp(ok, outside(ex, st, old, t, p, n))),
                ('the chain starts with the first unit', Imp(ok, bv(ex.load_local(st, this + 8, 8, 64), 64) == p))]
    return f


def ch_mod(t):
    return lambda ex, st, a: [('memall', (t, 0)), ('cell', a[0] + 8, 8)]


# ---------------------------------------------------------------- ALIGNMENT
class Align(FnContract):
    """rounding up; the size is any power of two up to 1 MiB, one case each"""

    def initial_states(self, ex):
        out = []
        for k in range(0, 21):
            st = State()
            v, z = ex.alloc(st, 8, 'value'), ex.alloc(st, 8, 'size')
            ex.store_local(st, v, 8, B('value0', 64))
            ex.store_local(st, z, 8, 1 << k)
            out.append((st, [v, z]))
        return out


def al_args(ex, st, a):
    return bv(ex.load(st, None, ('int', 64), a[0]), 64), bv(ex.load(st, None, ('int', 64), a[1]), 64)


def al_pre(ex, st, a):
    v, z = al_args(ex, st, a)
    return [('the value is a size of a file', z3.ULT(v, 1 << 40)), ('the alignment is a power of two up to 1 MiB', And(z != 0, (z & (z - 1)) == 0, z3.ULE(z, 1 << 20)))]


def al_post(ex, old, st, a, ret):
    v, z = al_args(ex, old, a)
    r = bv(ret, 64)
    return [('the answer is not less than the value, by less than the alignment', And(z3.UGE(r, v), z3.ULT(r, v + z))),
            ('the answer is aligned', (r & (z - 1)) == 0)]


# ---------------------------------------------------------------- MakeList*
def mk_setup(t):
    def f(ex, st):
        base = B('shm.base', 64)
        st.assume(And(z3.UGE(base, 1 << 20), z3.ULT(base, ADDR)))
        ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, base)
        st.ghost['made'] = None
        return [B('ptr', 64), B('count', 64)]
    return f


def m_chain(ex, st, a, ins):
    """contract of fl_list_base::initialize(ptr, count)"""
    ex.oblige(st, 'the pool is chained once', st.ghost['made'] is None, 'post')
    st.ghost['made'] = (bv(a[1], 64), bv(a[2], 64))
    ok = And(bv(a[1], 64) != 0, bv(a[2], 64) != 0)
    s2 = st.copy()
    st.assume(ok)
    s2.assume(Not(ok))
    ex.store_local(st, a[0] + 8, 8, bv(a[1], 64))
    return [x for x in ((st, True), (s2, False)) if ex.feasible(x[0])]


def mk_post(ex, old, st, a, ret):
    m = st.ghost['made']
    base = B('shm.base', 64)
    ret = bv(ret, 64)
    if m is None:
        return [('a pool is made unless no place is given', And(a[0] == 0, ret == 0))]
    return [('exactly the given units become the chain', And(m[0] == a[0], m[1] == a[1])),
            ('answers the first unit, relative to the area', Imp(And(a[0] != 0, a[1] != 0), ret == a[0] - base))]


# ---------------------------------------------------------------- InitializeShmFile
def ini_setup(ex, st):
    area_setup(ex, st)
    st.assume(B('shm.base', 64) == 0)
    g = st.ghost
    g['size'], g['map'], g['pools'] = None, None, ()
    ex.cnt = []
    for n, lo, hi, d in COUNTS:
        v = z3.ZeroExt(49, B('cnt.' + n, 15))      # every documented limit is below 2^15
        st.assume(And(z3.UGE(v, lo), z3.ULE(v, hi)))
        ex.store_local(st, sym(ex, n), 8, v)
        ex.cnt.append(v)
    for i in range(15):
        if i != 1:
            fregion(ex, 'fl_header', i)
    return []


def m_ftruncate(ex, st, a, ins):
    """trusted: sets the size of the file, or -1"""
    fd = G(ex, st, 'FlShm::ShmFd', 4)
    ex.oblige(st, 'the shared file is emptied before it is filled', And(bv(a[0], 32) == fd, bv(a[1], 64) == 0, st.ghost['map'] is None), 'post')
    s2 = st.copy()
    st.ghost['size'] = (z3.BoolVal(True), z3.BitVecVal(0, 64))
    set_errno(ex, s2, fresh('errno', 32))
    return [(st, 0), (s2, mask(32))]


def m_fill(ex, st, a, ins):
    """contract of flck_fill_zero: the whole range is zero, or false"""
    fd = G(ex, st, 'FlShm::ShmFd', 4)
    ex.oblige(st, 'the whole file is filled with zero, from its start, after it was emptied', And(bv(a[0], 32) == fd, bv(a[2], 64) == 0, st.ghost['size'] is not None), 'post')
    s2 = st.copy()
    st.ghost['size'] = (z3.BoolVal(True), bv(a[1], 64))
    return [(st, True), (s2, False)]


def m_map(ex, st, a, ins):
    """contract of RawMap: the mapping, or null"""
    fd = G(ex, st, 'FlShm::ShmFd', 4)
    g = st.ghost
    ex.oblige(st, 'the whole filled file is mapped', And(bv(a[0], 32) == fd, bv(a[2], 64) == 0, g['size'] is not None, *( [g['size'][1] == bv(a[1], 64)] if g['size'] is not None else [])), 'post')
    s2 = st.copy()
    b = B('map.base', 64)
    n = bv(a[1], 64)
    st.assume(And(z3.UGE(b, 1 << 20), z3.ULT(b, ADDR), (b & 4095) == 0, z3.ULT(n, 1 << 40)))
    g['map'] = (b, n)
    for i in range(15):
        if i != 1:
            o, w = fld(ex, 'fl_header', i)
            fregion(ex, 'fl_header', i).put(st, simp(b + o), z3.BitVecVal(0, w))
    return [(st, b), (s2, 0)]


def m_unmap(ex, st, a, ins):
    """contract of RawUnmap"""
    g = st.ghost
    m = g['map']
    ex.oblige(st, 'only what is mapped is unmapped', And(m is not None, *([bv(a[0], 64) == m[0], bv(a[1], 64) == m[1]] if m is not None else [])), 'post')
    g['map'] = None
    return True


def m_strcpy(ex, st, a, ins):
    """trusted: copies the text"""
    m = st.ghost.get('map')
    o, w = fld(ex, 'fl_header', 1)
    ex.oblige(st, 'the version text is copied into its place', And(m is not None, *([bv(a[0], 64) == m[0] + o] if m is not None else [])), 'post')
    return a[0]


def m_make(t):
    def f(ex, st, a, ins):
        p, n = bv(a[0], 64), bv(a[1], 64)
        m = st.ghost['map']
        want = ex.cnt[UNITS.index(t)]
        sz = usize(ex, t)
        hd = usize(ex, 'fl_header')
        ex.oblige(st, 'the pool of %s units has the configured number' % t, n == want, 'post')
        if m is None:
            ex.oblige(st, 'pools are made in the mapped area', False, 'post')
            raise PathEnd()
        ex.oblige(st, 'the pool of %s units is aligned' % t, (p & 7) == 0, 'post')
        ex.oblige(st, 'the pool of %s units lies behind the header and inside the file' % t, And(z3.UGE(p, m[0] + hd), z3.ULE(p + n * sz, m[0] + m[1])), 'post')
        for (t2, p2, n2, r2) in st.ghost['pools']:
            ex.oblige(st, 'no two pools overlap, and none is made twice', And(t2 != t, Or(z3.ULE(p + n * sz, p2), z3.ULE(p2 + n2 * usize(ex, t2), p))), 'post')
        st.assume(And(z3.UGE(p, m[0] + hd), z3.ULE(p + n * sz, m[0] + m[1])))
        r = p - m[0]
        st.ghost['pools'] = st.ghost['pools'] + ((t, p, n, r),)
        s2 = st.copy()
        s2.ghost['pools'] = st.ghost['pools'][:-1] + ((t, p, n, z3.BitVecVal(0, 64)),)
        return [(st, r)]
    f.__doc__ = 'contract of the pool maker'
    return f


INIM = {'__errno_location': m_errno, 'ftruncate': m_ftruncate, 'ftruncate64': m_ftruncate, 'flck_fill_zero': m_fill, 'RawMap': m_map, 'RawUnmap': m_unmap, 'strcpy': m_strcpy, 'GetSystemPageSize': m_pagesize}
for _t in UNITS:
    INIM['FlShm::MakeList' + MAKE[_t]] = m_make(_t)


def ini_post(ex, old, st, a, ret):
    m = st.ghost['map']
    nb, nh = G(ex, st, 'FlShm::pShmBase', 8), G(ex, st, 'FlShm::pFlHead', 8)
    ok = bl(ret)
    if m is None:
        return [('without a mapping there is no success', Not(ok)), ('and no area', And(nb == 0, Or(nh == 0, nh == G(ex, old, 'FlShm::pFlHead', 8))))]
    b, n = m
    H = lambda i: F(ex, st, b, 'fl_header', i)
    out = [('a mapping is answered as success', ok), ('the area and its header are where it was mapped', And(nb == b, nh == b)),
           ('the recorded size is the size of the file', H(2) == n),
           ('the format version is recorded', H(0) == file_version(ex)),
           ('every internal lock starts free', And(H(3) == 0, H(5) == 0, H(7) == 0)),
           ('every list starts empty', And(H(4) == 0, H(6) == 0, H(8) == 0)),
           ('each pool was made', len(st.ghost['pools']) == 6)]
    for t, p, c, r in st.ghost['pools']:
        out.append(('the free list of %s units is its pool' % t, H(POOLFIELD[t]) == r))
    return out


def ini_mod(ex, st, a):
    return [('ghost', 'size'), ('ghost', 'map'), ('ghost', 'pools'), ('cell', ex.errno_addr, 4), ('cell', sym(ex, 'FlShm::pShmBase'), 8), ('cell', sym(ex, 'FlShm::pFlHead'), 8)] + \
        [('memall', ('fl_header', i)) for i in range(15) if i != 1]


# ---------------------------------------------------------------- Attach, Detach, Destroy, InitializeShm, PreforkHandler
def file_version(ex):
    """the version this library writes: the constant of the header file"""
    import re, os
    m = re.search(r'#define\s+FLCK_FILE_VERSION\s+\(?(\d+)', open(os.path.join(ex.prog.repo, 'lib/flckstructure.h')).read())
    if not m:
        raise Unsupported('version constant')
    return int(m.group(1))


def live_setup(ex, st):
    """an area that is attached or not, its descriptor, the lock of this process on the file"""
    base, fd = area_setup(ex, st)
    head = B('shm.head', 64)
    ex.store_local(st, sym(ex, 'FlShm::pFlHead'), 8, head)
    g = st.ghost
    g['lk'] = B('lk0', 2)
    g['map'] = None
    g['unmapped'] = ()
    g['closed'] = ()
    st.assume(z3.ULE(g['lk'], 2))
    for i in range(15):
        if i != 1:
            fregion(ex, 'fl_header', i)
    return base, fd, head


def m_unmap2(ex, st, a, ins):
    """contract of RawUnmap: unmapped, or false"""
    s2 = st.copy()
    st.ghost['unmapped'] = st.ghost['unmapped'] + ((bv(a[0], 64), bv(a[1], 64)),)
    return [(st, True), (s2, False)]


def m_map2(ex, st, a, ins):
    """contract of RawMap: a mapping of the shared file, or null"""
    g = st.ghost
    ex.oblige(st, 'the shared file is mapped from its start', And(bv(a[0], 32) == G(ex, st, 'FlShm::ShmFd', 4), bv(a[2], 64) == 0), 'post')
    s2 = st.copy()
    b = fresh('map', 64)
    st.assume(And(z3.UGE(b, 1 << 20), z3.ULT(b, ADDR), (b & 4095) == 0))
    g['map'] = (g['map'] or ()) + ((b, bv(a[1], 64)),)
    if len(g['map']) > 1:
        # both show the same file, and this process holds it against initialisation
        for i in (0, 2):
            o, w = fld(ex, 'fl_header', i)
            r = fregion(ex, 'fl_header', i)
            st.assume(bv(r.get(st, simp(b + o)), w) == bv(r.get(st, simp(g['map'][0][0] + o)), w))
    return [(st, b), (s2, 0)]


def m_fl(mode):
    def f(ex, st, a, ins):
        ex.oblige(st, 'the marker is the lock at the start of the shared file', And(bv(a[0], 32) == G(ex, st, 'FlShm::ShmFd', 4), bv(a[0], 32) != mask(32), bv(a[1], 64) == 0), 'post')
        s2 = st.copy()
        st.ghost['lk'] = z3.BitVecVal(mode, 2)
        if mode == 1 and 'rlok' in s2.ghost:
            s2.ghost['rlok'] = False
        return [(st, True), (s2, False)]
    f.__doc__ = 'contract of the file lock helper: the lock is changed, or nothing'
    return f


def m_close(ex, st, a, ins):
    """trusted: closes the descriptor; the locks of this process on the file are gone"""
    g = st.ghost
    fd = bv(a[0], 32)
    ex.oblige(st, 'a descriptor is closed once, and only a valid one', And(fd != mask(32), *[fd != x for x in g['closed']]), 'post')
    g['closed'] = g['closed'] + (fd,)
    g['lk'] = z3.BitVecVal(0, 2)
    return fresh('close', 32)


ATTM = {'RawMap': m_map2, 'RawUnmap': m_unmap2, '__errno_location': m_errno}
AREAMOD = lambda ex: [('cell', ex.errno_addr, 4), ('cell', sym(ex, 'FlShm::pShmBase'), 8), ('cell', sym(ex, 'FlShm::pFlHead'), 8), ('cell', sym(ex, 'FlShm::ShmFd'), 4)]
GHM = [('ghost', x) for x in ('map', 'unmapped', 'closed', 'lk')]


def at_post(ex, old, st, a, ret):
    g = st.ghost
    ok = bl(ret)
    b0, fd = B('shm.base', 64), B('shm.fd', 32)
    nb, nh = G(ex, st, 'FlShm::pShmBase', 8), G(ex, st, 'FlShm::pFlHead', 8)
    maps = g['map'] or ()
    out = [('an area that is attached is not attached again, nor one without a file', Imp(Or(b0 != 0, fd == mask(32)), And(Not(ok), nb == b0, not maps))),
           ('failure leaves no area', Imp(And(Not(ok), b0 == 0), nb == 0)),
           ('the descriptor stays', G(ex, st, 'FlShm::ShmFd', 4) == fd)]
    if maps:
        h = maps[0][0]
        H = lambda i: F(ex, st, h, 'fl_header', i)
        newer = z3.UGT(H(0), file_version(ex))
        out.append(('an area of a newer version is refused', Imp(newer, Not(ok))))
        hs = usize(ex, 'fl_header')
        out.append(('the version is looked at in a mapping that holds the header', z3.UGE(maps[0][1], hs)))
        attached = Or(*[nb == b for b, n in maps])
        out.append(('success is an area: one of the mappings, with its header, in the recorded size', Imp(ok, And(nh == nb, Or(*[And(nb == b, n == H(2)) for b, n in maps])))))
        out.append(('every older version is accepted when mapping works', Imp(And(Not(newer), len(maps) > 1), ok)))
    else:
        out.append(('without a mapping there is no success', Not(ok)))
    return out


def de_setup(ex, st):
    base, fd, head = live_setup(ex, st)
    # established by InitializeShmFile and Attach
    st.assume(Imp(base != 0, head == base))
    return []


def de_post(ex, old, st, a, ret):
    g = st.ghost
    b0, fd = B('shm.base', 64), B('shm.fd', 32)
    nb, nh, nf = G(ex, st, 'FlShm::pShmBase', 8), G(ex, st, 'FlShm::pFlHead', 8), G(ex, st, 'FlShm::ShmFd', 4)
    out = [('always answers success', bl(ret)), ('the file is closed', And(nf == mask(32), g['lk'] == z3.If(fd == mask(32), old.ghost['lk'], z3.BitVecVal(0, 2)))),
           ('one close for an open file', z3.BoolVal(len(g['closed']) == 1) == (fd != mask(32)))]
    if g['unmapped']:
        b, n = g['unmapped'][0]
        out.append(('exactly the area is unmapped, in its recorded size', And(len(g['unmapped']) == 1, b0 != 0, b == b0, n == F(ex, old, b0, 'fl_header', 2))))
        out.append(('no area is left', And(nb == 0, nh == 0)))
    else:
        out.append(('what could not be unmapped stays known', nb == b0))
    return out


DETM = {'RawUnmap': m_unmap2, 'FileUnlock': m_fl(0), 'FileReadLock': m_fl(1), 'FileWriteLock': m_fl(2), 'close': m_close, '__errno_location': m_errno}


# the worker object
def thoff(ex, i):
    return fld(ex, 'FlckThread', i)[0]


def m_new(ex, st, a, ins):
    """trusted: operator new does not fail"""
    if not isc(a[0]):
        raise Unsupported('operator new of a symbolic size')
    p = ex.alloc(st, a[0], 'new')
    st.ghost['objs'] = st.ghost['objs'] + (p,)
    return p


def m_del(ex, st, a, ins):
    """trusted: operator delete"""
    p = a[0]
    ex.oblige(st, 'only a live worker object is freed, and after its worker was ended', isc(p) and p in st.ghost['objs'] and not (st.ghost['w'] and st.ghost['w'][0] == p), 'post')
    st.ghost['objs'] = tuple(x for x in st.ghost['objs'] if x != p)


def m_thinit(ex, st, a, ins):
    """contract of FlckThread::InitializeThread"""
    ex.oblige(st, 'the worker watches the shared file', ctext(ex, st, a[1]) == sval(ex, st, 'FlShm::ShmPath'), 'post')
    ex.oblige(st, 'one worker at a time', st.ghost['w'] is None and a[0] in st.ghost['objs'], 'post')
    s2 = st.copy()
    st.ghost['w'] = (a[0], 'stopped')
    ex.store_local(st, a[0] + thoff(ex, 4), 1, 1)
    return [(st, True), (s2, False)]


def m_threinit(ex, st, a, ins):
    """contract of FlckThread::ReInitializeThread"""
    s2 = st.copy()
    st.ghost['w'] = (a[0], 'stopped')
    s2.ghost['w'] = None
    s2.ghost['refused'] = True
    ex.store_local(st, a[0] + thoff(ex, 4), 1, 1)
    ex.store_local(s2, a[0] + thoff(ex, 4), 1, 0)
    return [(st, True), (s2, False)]


def m_thrun(ex, st, a, ins):
    """contract of FlckThread::Run"""
    w = st.ghost['w']
    if w is None or w[0] != a[0]:
        return False
    s2 = st.copy()
    s2.ghost['refused'] = True
    st.ghost['w'] = (a[0], 'running')
    return [(st, True), (s2, False)]


def m_thexit(ex, st, a, ins):
    """contract of FlckThread::Exit: the worker has ended"""
    ex.oblige(st, 'the worker that is ended is the one there is', a[0] in st.ghost['objs'], 'post')
    if st.ghost['w'] is None:
        return False
    st.ghost['w'] = None
    ex.store_local(st, a[0] + thoff(ex, 4), 1, 0)
    return fresh('exit', 1)


def m_detach(ex, st, a, ins):
    """contract of Detach"""
    g = st.ghost
    fd = G(ex, st, 'FlShm::ShmFd', 4)
    b = G(ex, st, 'FlShm::pShmBase', 8)
    ex.oblige(st, 'no worker runs on an area that is given up', g['w'] is None, 'post')
    g['detached'] = z3.BoolVal(True)
    g['lk'] = z3.BitVecVal(0, 2)
    f = fresh('unmap', 1)
    ex.store_local(st, sym(ex, 'FlShm::ShmFd'), 4, mask(32))
    ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, z3.If(f, 0, b))
    ex.store_local(st, sym(ex, 'FlShm::pFlHead'), 8, z3.If(f, 0, G(ex, st, 'FlShm::pFlHead', 8)))
    st.assume(Imp(b == 0, f))
    g['unmapok'] = And(g['unmapok'], f)
    return True


THM = dict(CONFM, **{'_Znwm': m_new, '_ZdlPv': m_del, '_ZdlPvm': m_del, 'FlckThread::InitializeThread': m_thinit, 'FlckThread::ReInitializeThread': m_threinit, 'FlckThread::Run': m_thrun, 'FlckThread::Exit': m_thexit,
                     'FlShm::Detach': m_detach, 'FileUnlock': m_fl(0), 'FileReadLock': m_fl(1), 'FileWriteLock': m_fl(2), 'close': m_close})


def th_object(ex, st, run):
    """a worker object as its constructor leaves it"""
    n = None
    for m in ex.prog.modules:
        for nm in ('class.FlckThread', '%class.FlckThread'):
            if nm in m.types:
                n = ir.sizeof(m, ('named', nm))
    p = ex.alloc(st, n, 'worker')
    ex.store_local(st, p, 8, ex.global_addr('@_ZTV10FlckThread') + 16)
    ex.store_local(st, p + thoff(ex, 1), 4, B('thflag0', 32))
    put(ex, st, p + thoff(ex, 3), z3.Const('bup.path', STR))
    ex.store_local(st, p + thoff(ex, 4), 1, 1 if run else 0)
    return p


class Life(FnContract):
    """entry cases: no worker object, one whose worker runs, one whose worker does not"""

    def initial_states(self, ex):
        out = []
        for case in self.cases:
            st = State()
            statics_setup(ex, st)
            base, fd, head = live_setup(ex, st)
            g = st.ghost
            g['objs'], g['w'], g['detached'], g['unmapok'] = (), None, z3.BoolVal(False), z3.BoolVal(True)
            g['um'], g['atfork'] = B('umask0', 32), ()
            g['rlok'], g['refused'] = True, False
            ex.atfork_flags = flags_of(ex)
            st.assume(Imp(base != 0, head == base))
            p = 0
            if case:
                p = th_object(ex, st, case == 'run')
                g['objs'] = (p,)
                g['w'] = (p, 'running') if case == 'run' else None
            ex.store_local(st, sym(ex, 'FlShm::pCheckPidThread'), 8, p)
            st.ghost['case'] = case
            ex.lastp = p
            out.append((st, []))
        return out


def dy_post(ex, old, st, a, ret):
    g = st.ghost
    fd = B('shm.fd', 32)
    nf = G(ex, st, 'FlShm::ShmFd', 4)
    was = fd != mask(32)
    return [('answers success', bl(ret)), ('an attached area is given up, file and mapping', And(nf == mask(32), g['detached'] == was)),
            ('its worker is ended and gone', Imp(was, And(g['w'] is None, not g['objs'], G(ex, st, 'FlShm::pCheckPidThread', 8) == 0))),
            ('without an area nothing changes', Imp(Not(was), And(G(ex, st, 'FlShm::pCheckPidThread', 8) == G(ex, old, 'FlShm::pCheckPidThread', 8), g['objs'] == old.ghost['objs'], g['w'] == old.ghost['w'])))]


def life_mod(ex, st, a):
    out = AREAMOD(ex) + GHM + [('ghost', x) for x in ('objs', 'w', 'detached', 'unmapok', 'um', 'atfork', 'rlok', 'refused')] + [('cell', sym(ex, 'FlShm::pCheckPidThread'), 8)]
    for p in st.ghost['objs']:
        out.append(('cell', p, 64))
    for n in ex.atfork_flags:
        out.append(('cell', n, 1))
    return out


def m_umask(ex, st, a, ins):
    """trusted: sets the mask for new files and answers the one before"""
    o = st.ghost['um']
    st.ghost['um'] = bv(a[0], 32)
    return o


def m_open(ex, st, a, ins):
    """trusted: a new descriptor, or -1"""
    if not isc(a[1]):
        raise Unsupported('open flags')
    ex.oblige(st, 'the shared file is opened for reading and writing, and an existing one is never emptied by opening it', And(ctext(ex, st, a[0]) == sval(ex, st, 'FlShm::ShmPath'), (a[1] & 3) == 2, (a[1] & 0o1000) == 0), 'post')
    if a[1] & 0o100:
        ex.oblige(st, 'a new file gets the configured permissions', And(st.ghost['um'] == G(ex, st, 'FlShm::ShmFileUmask', 4), isc(a[2]) and a[2] == 0o666), 'post')
    s2 = st.copy()
    fd = fresh('fd', 32)
    st.assume(fd >= 0)
    st.ghost['lk'] = z3.BitVecVal(0, 2)
    set_errno(ex, s2, fresh('errno', 32))
    return [(st, fd), (s2, mask(32))]


def m_inifile(ex, st, a, ins):
    """contract of InitializeShmFile"""
    ex.oblige(st, 'an area is initialised only while this process alone holds the file', st.ghost['lk'] == 2, 'post')
    return area_out(ex, st)


def m_attach(ex, st, a, ins):
    """contract of Attach"""
    ex.oblige(st, 'an area is attached only while this process keeps others from initialising it', Or(st.ghost['lk'] == 1, st.ghost['lk'] == 2), 'post')
    return area_out(ex, st)


def area_out(ex, st):
    ex.oblige(st, 'an area is set up on an open file, once', And(G(ex, st, 'FlShm::ShmFd', 4) != mask(32), G(ex, st, 'FlShm::pShmBase', 8) == 0), 'post')
    s2 = st.copy()
    b = fresh('area', 64)
    st.assume(And(z3.UGE(b, 1 << 20), z3.ULT(b, ADDR)))
    ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, b)
    ex.store_local(st, sym(ex, 'FlShm::pFlHead'), 8, b)
    ex.store_local(s2, sym(ex, 'FlShm::pShmBase'), 8, 0)
    return [(st, True), (s2, False)]


def m_nanosleep(ex, st, a, ins):
    """trusted"""
    return fresh('nanosleep', 32)


def m_atfork(ex, st, a, ins):
    """trusted: registers the handlers, or an error"""
    h = ex.global_addr('@_ZN5FlShm14PreforkHandlerEv')
    ex.oblige(st, 'the handler for the child of a fork is registered', And(isc(a[2]) and a[2] == h, isc(a[0]) and a[0] == 0, isc(a[1]) and a[1] == 0), 'post')
    s2 = st.copy()
    st.ghost['atfork'] = st.ghost['atfork'] + (1,)
    s2.ghost['atfork'] = s2.ghost['atfork'] + (0,)
    return [(st, 0), (s2, fresh_err(s2))]


def fresh_err(st):
    e = fresh('err', 32)
    st.assume(e != 0)
    return e


SHMM = dict(THM, **{'umask': m_umask, 'open': m_open, 'open64': m_open, 'FlShm::InitializeShmFile': m_inifile, 'FlShm::Attach': m_attach, 'nanosleep': m_nanosleep, 'pthread_atfork': m_atfork})


class Init(Life):
    """InitializeShm: no area is mapped (a failed unmap at detaching aside); a descriptor may be there"""

    def initial_states(self, ex):
        out = Life.initial_states(self, ex)
        for st, a in out:
            st.assume(B('shm.base', 64) == 0)
            fd = B('shm.fd', 32)
            st.assume(fd >= mask(32))
            st.assume(Imp(fd == mask(32), st.ghost['lk'] == 0))
        return out


def is_robust(ex, st):
    return gv(ex, st, 'FlShm::RobustMode') != 0


def is_cands(ex, entry, head, mods, depth, header, a, old):
    return [('no lock yet', lambda s: s.ghost['lk'] == 0), ('no area yet', lambda s: And(G(ex, s, 'FlShm::pShmBase', 8) == 0)),
            ('file open', lambda s: G(ex, s, 'FlShm::ShmFd', 4) != mask(32))]


def is_post(ex, old, st, a, ret):
    g = st.ghost
    ok = bl(ret)
    fd = B('shm.fd', 32)
    nf, nb, nh = G(ex, st, 'FlShm::ShmFd', 4), G(ex, st, 'FlShm::pShmBase', 8), G(ex, st, 'FlShm::pFlHead', 8)
    th = G(ex, st, 'FlShm::pCheckPidThread', 8)
    fl = ex.atfork_flags
    out = [('an area in use is not initialised again', Imp(fd != mask(32), And(Not(ok), nf == fd, nb == 0, g['lk'] == old.ghost['lk'], g['w'] is None))),
           ('success leaves the area in place and marked in use by this process', Imp(ok, And(nf != mask(32), nb != 0, nh == nb, g['lk'] == 1))),
           ('failure leaves no file open, no mark and no area', Imp(And(Not(ok), fd == mask(32)), And(nf == mask(32), g['lk'] == 0, Or(nb == 0, Not(g['unmapok']))))),
           ('a worker runs exactly when the area is set up in a robust mode', And(Imp(And(ok, is_robust(ex, st)), And(g['w'] is not None and g['w'][1] == 'running', th == (g['w'][0] if g['w'] else 0))),
                                                                          Imp(Not(And(ok, is_robust(ex, st))), g['w'] is None))),
           ('no worker object is lost', Imp(g['w'] is None, And(not g['objs'], Imp(fd == mask(32), th == 0)))),
           ('the mask for new files is given back', g['um'] == old.ghost['um'])]
    if len(fl) == 1:
        f0, f1 = bv(ex.load_local(old, fl[0], 1, 8), 8), bv(ex.load_local(st, fl[0], 1, 8), 8)
        out.append(('the handler for forks is registered, once', Imp(ok, And(Or((f0 & 1) == 1, len(g['atfork']) == 1), Imp((f0 & 1) == 1, len(g['atfork']) == 0), Imp((f1 & 1) == 1, Or((f0 & 1) == 1, bool(g['atfork'] and g['atfork'][0])))))))
    return out


def is_setup(ex, st):
    return []


def flags_of(ex):
    return [ad for n, ad, sz in statics(ex, '@_ZZN5FlShm13InitializeShmEv')]


def pf_post(ex, old, st, a, ret):
    g = st.ghost
    fd = B('shm.fd', 32)
    rl = g['lk'] == 1
    out = [('the child of a fork marks the area as in use', Or(fd == mask(32), rl, Not(g['rlok'])))]
    if st.ghost['case']:
        out.append(('the worker of the child runs, unless it could not be started', Or(g['w'] is not None and g['w'][1] == 'running', g['refused'])))
    else:
        out.append(('no worker starts where none was', g['w'] is None))
    return out


def contracts():
    return area_contracts() + life_contracts()


def life_contracts():
    C = []
    am = lambda ex, st, a: AREAMOD(ex) + GHM
    C.append(FnContract('FlShm::Attach()', lambda ex, st: (live_setup(ex, st), [])[1], None, at_post, am, 1, ('P12',), models=ATTM))
    C.append(FnContract('FlShm::Detach()', de_setup, None, de_post, am, 1, ('P12',), models=DETM))
    C.append(Life('FlShm::Destroy()', None, None, dy_post, life_mod, 1, ('P12', 'P16'), models=THM, cases=(None, 'run', 'idle')))
    C.append(Init('FlShm::InitializeShm()', None, None, is_post, life_mod, 1, ('P12', 'P16'), models=SHMM, cases=(None,), cands=is_cands, cost=5))
    C.append(Life('FlShm::PreforkHandler()', None, None, pf_post, life_mod, None, ('P12', 'P16'), models=SHMM, cases=(None, 'run', 'idle')))
    return C


def area_contracts():
    C = []

    def add(*a, **k):
        C.append(FnContract(*a, **k))
    for t in UNITS:
        add('fullock::fl_list_base<%s>::initialize(%s*, unsigned long)' % (t, t), ch_setup(t), None, ch_post(t), ch_mod(t), 1, ('P12', 'P07'), cands=ch_cands(t), overloads=True, timeout=30000, cost=20)
        add('FlShm::MakeList%s(%s*, unsigned long)' % (MAKE[t], t), mk_setup(t), None, mk_post, lambda ex, st, a: [('ghost', 'made')], 64, ('P12',),
            models={'fullock::fl_list_base<%s>::initialize(%s*, unsigned long)' % (t, t): m_chain})
    for t in ('unsigned long', 'long'):
        C.append(Align('%s ALIGNMENT<%s, unsigned long>' % (t, t), None, al_pre, al_post, lambda ex, st, a: [], 64, ('P12',)))
    add('FlShm::InitializeShmFile()', ini_setup, None, ini_post, ini_mod, 1, ('P12',), models=INIM, cost=5, timeout=700, uses=tuple('%s ALIGNMENT<%s, unsigned long>' % (t, t) for t in ('unsigned long', 'long')))
    return C
