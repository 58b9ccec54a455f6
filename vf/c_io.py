"""Contracts of the file I/O helpers (P15) and the advisory file lock wrappers (P12)."""
import z3
from .symex import *
from .contract import FnContract
from .c_unit import errno_setup, m_errno, set_errno, errno, fresh, EINTR, EAGAIN, EACCES

BIG = 1 << 61


def item_cands(pairs):
    """candidate invariants: a loop-carried value equals a ghost / stays below a bound"""
    def f(ex, entry, head, mods, depth, header, a, old):
        out = []
        for it in mods:
            if it[0] not in ('phi', 'cell'):
                continue
            v = ex.get_item(head, it, depth)
            if v is None or isinstance(v, tuple) or isc(v) or not z3.is_bv(v) or v.size() != 64:
                continue
            for nm, fn in pairs:
                out.append(('%s %s' % (it, nm), lambda s, it=it, fn=fn: fn(bv(ex.get_item(s, it, depth), 64), s, a)))
        return out
    return f


# ---------------------------------------------------------------- positioned transfers
def px_setup(ex, st):
    errno_setup(ex, st)
    st.ghost['done'] = z3.BitVecVal(0, 64)
    st.ghost['eof'] = z3.BoolVal(False)
    st.ghost['fail'] = z3.BoolVal(False)
    ex.io = a = [z3.BitVec('fd', 32), z3.BitVec('buf', 64), z3.BitVec('count', 64), z3.BitVec('offset', 64)]
    st.assume(And(z3.UGE(a[1], 4096), z3.ULT(a[1], BIG)))
    return a


def px_pre(ex, st, a):
    return [('the range has no negative or overflowing position', And(a[2] >= 0, a[2] < BIG, a[3] >= 0, a[3] < BIG))]


def m_px(kind):
    def f(ex, st, args, ins):
        """trusted: transfers between 0 and the asked number of bytes, or fails transferring nothing"""
        fd, buf, cnt, off = ex.io
        d = st.ghost['done']
        p, n, o = [bv(x, 64) for x in args[1:4]]
        ex.oblige(st, 'each transfer uses the given descriptor', bv(args[0], 32) == fd, 'post')
        ex.oblige(st, 'each transfer continues at the buffer byte after the last one transferred', p == buf + d, 'post')
        ex.oblige(st, 'each transfer continues at the file position after the last one transferred', o == off + d, 'post')
        ex.oblige(st, 'a transfer never reaches beyond the given buffer', And(z3.UGT(n, 0), z3.ULE(n, cnt - d), z3.ULE(d, cnt)), 'post')
        s2 = st.copy()
        r = fresh('moved', 64)
        st.assume(And(r >= 0, r <= n))
        st.ghost['done'] = d + r
        st.ghost['eof'] = (r == 0)
        st.ghost['fail'] = z3.BoolVal(False)
        s2.ghost['fail'] = z3.BoolVal(True)
        e = fresh('errno', 32)
        s2.assume(e != 0)
        set_errno(ex, s2, e)
        return [(st, r), (s2, mask(64))]
    f.__doc__ = 'trusted: %s transfers between 0 and the asked number of bytes, or fails transferring nothing' % kind
    return f


def px_post(kind):
    def f(ex, old, st, a, ret):
        ret = bv(ret, 64)
        d = st.ghost['done']
        c = [('a count is reported exactly as transferred', Imp(ret >= 0, ret == d)),
             ('a failure is reported only after a transfer failed', Imp(ret < 0, st.ghost['fail'])),
             ('a failed transfer is reported', Imp(st.ghost['fail'], ret < 0))]
        if kind == 'read':
            c.append(('fewer bytes than asked are reported only at the end of the file', Imp(ret >= 0, Or(ret == a[2], And(st.ghost['eof'], z3.ULE(ret, a[2]))))))
        else:
            c.append(('a write that reports a count has written everything', Imp(ret >= 0, ret == a[2])))
        return c
    return f


def px_mod(ex, st, a):
    return [('ghost', 'done'), ('ghost', 'eof'), ('ghost', 'fail'), ('cell', ex.errno_addr, 4)]


px_cands = item_cands([('is the number of bytes transferred', lambda v, s, a: v == s.ghost['done']),
                       ('is what is left', lambda v, s, a: v == a[2] - s.ghost['done']),
                       ('is the position', lambda v, s, a: v == a[3] + s.ghost['done']),
                       ('is the buffer place', lambda v, s, a: v == a[1] + s.ghost['done'])])


def gc(*fs):
    def f(ex, entry, head, mods, depth, header, a, old):
        return [(n, lambda s, fn=fn: fn(s, a)) for n, fn in fs]
    return f


def allc(*fs):
    def f(*x):
        r = []
        for g in fs:
            r.extend(g(*x))
        return r
    return f


px_g = gc(('done in range', lambda s, a: And(z3.ULE(s.ghost['done'], a[2]), s.ghost['done'] >= 0)), ('not failed', lambda s, a: Not(s.ghost['fail'])), ('not at the end', lambda s, a: Not(s.ghost['eof'])))


def init_value(ex, name):
    g = ex._global(name)[0]
    i = g.get('init')
    return int(i[2]) if i[0] == 'const' else 0 if i[0] == 'zero' else None


def statics(ex, prefix):
    """(name, address, size) of the writable function-local statics whose mangled name starts so"""
    from . import irparse as ir
    out = []
    for m in ex.prog.modules:
        for n, g in m.globals.items():
            if n.startswith(prefix) and not g.get('const') and g.get('init') is not None:
                out.append((n, ex.gname(m, n), ir.sizeof(m, g['type'])))
    return out


# ---------------------------------------------------------------- zero fill
def fz_setup(ex, st):
    errno_setup(ex, st)
    st.ghost['done'] = z3.BitVecVal(0, 64)
    st.ghost['fail'] = z3.BoolVal(False)
    ex.io = a = [z3.BitVec('fd', 32), z3.BitVec('count', 64), z3.BitVec('offset', 64)]
    # a static buffer is zero once its flag says so (its other state is unknown)
    st.ghost['junk'] = z3.BitVec('junk', 8)
    sv = statics(ex, '@_ZZ14flck_fill_zero')
    fl = [x for x in sv if x[2] == 1]
    if len(fl) == 1:
        f0 = z3.BitVec('is_init0', 8)
        ex.store_local(st, fl[0][1], 1, f0)
        for n, ad, sz in sv:
            if sz > 8:
                ex.find_obj(st, ad).zero.append((0, sz, z3.If((f0 & 1) == 1, z3.BitVecVal(0, 8), st.ghost['junk'])))
    elif not fl:
        for n, ad, sz in sv:
            if sz > 8:     # never written but by zero fills: as at program start
                ex.find_obj(st, ad).zero.append((0, sz, 0))
    return a


def fz_pre(ex, st, a):
    return [('the range has no negative or overflowing position', And(a[1] >= 0, a[1] < BIG, a[2] >= 0, a[2] < BIG))]


def m_flck_pwrite(ex, st, args, ins):
    """the proved contract of flck_pwrite: writes all bytes and answers their number, or -1"""
    fd, cnt, off = ex.io
    d = st.ghost['done']
    n, o = bv(args[2], 64), bv(args[3], 64)
    ex.oblige(st, 'each write uses the given descriptor', bv(args[0], 32) == fd, 'post')
    ex.oblige(st, 'each write continues where the last one ended', o == off + d, 'post')
    ex.oblige(st, 'nothing beyond the range is written', And(z3.UGT(n, 0), z3.ULE(n, cnt - d), z3.ULE(d, cnt)), 'post')
    if not isc(args[1]):
        raise Unsupported('write from an unknown buffer')
    b = ex.find_obj(st, args[1])
    if b is None:
        raise Unsupported('write from an unknown buffer')
    off0 = args[1] - b.base
    ex.oblige(st, 'the bytes written lie in the buffer', z3.ULE(n, b.size - off0), 'safety')
    bad, seen = [], set()
    for i in range(off0, b.size):
        x = ex.byte_at(b, i)
        if isc(x) and x == 0:
            continue
        if x is None:
            g = ex._global(b.name)[0] if b.name.startswith('@') else None
            x = 0 if g is not None and g.get('const') else fresh('unknown byte', 8)
        k = x if isc(x) else x.get_id()
        if k in seen:
            continue
        seen.add(k)
        bad.append(Imp(z3.UGT(n, i - off0), bv(x, 8) == 0))
    ex.oblige(st, 'only zero bytes are written', And(*bad) if bad else True, 'post')
    s2 = st.copy()
    st.ghost['done'] = d + n
    s2.ghost['fail'] = z3.BoolVal(True)
    set_errno(ex, s2, fresh('errno', 32))
    return [(st, n), (s2, mask(64))]


def fz_post(ex, old, st, a, ret):
    r = bl(ret)
    return [('success exactly when the whole range has been written', And(Imp(r, And(st.ghost['done'] == a[1], Not(st.ghost['fail']))), Imp(Not(r), st.ghost['fail'])))]


def fz_mod(ex, st, a):
    return [('ghost', 'done'), ('ghost', 'fail'), ('cell', ex.errno_addr, 4)] + [('cell', ad, sz) for n, ad, sz in statics(ex, '@_ZZ14flck_fill_zero')]


fz_cands = item_cands([('is the number of bytes written', lambda v, s, a: v == s.ghost['done']), ('is what is left', lambda v, s, a: v == a[1] - s.ghost['done']), ('is the position', lambda v, s, a: v == a[2] + s.ghost['done'])])
fz_g = gc(('done in range', lambda s, a: And(z3.ULE(s.ghost['done'], a[1]), s.ghost['done'] >= 0)), ('not failed', lambda s, a: Not(s.ghost['fail'])))


# ---------------------------------------------------------------- whole file read
def fr_setup(ex, st):
    errno_setup(ex, st)
    z = z3.BitVecVal(0, 64)
    for g in ('buf', 'cap', 'total', 'live'):
        st.ghost[g] = z
    st.ghost['last'] = z3.BitVecVal(0, 32)     # 0 full, 1 short, 2 EAGAIN, 3 EINTR, 4 other failure, 5 no memory
    p = ex.alloc(st, 8, 'ppbuff')
    ex.store_local(st, p, 8, z3.BitVec('pp0', 64))
    ex.io = [z3.BitVec('fd', 32)]
    return [ex.io[0], p]


def newbuf(ex, st, n, keep):
    b = fresh('heap', 64)
    st.assume(And(z3.UGE(b, 1 << 30), z3.ULT(b, 1 << 46)))
    st.ghost['buf'], st.ghost['cap'] = b, n
    return b


def m_malloc(ex, st, args, ins):
    """trusted: NULL, or a new block of the asked size"""
    ex.oblige(st, 'one buffer at a time', st.ghost['live'] == 0, 'post')
    s2 = st.copy()
    b = newbuf(ex, st, bv(args[0], 64), False)
    st.ghost['live'] = z3.BitVecVal(1, 64)
    s2.ghost['last'] = z3.BitVecVal(5, 32)
    return [(st, b), (s2, 0)]


def m_realloc(ex, st, args, ins):
    """trusted: NULL leaving the block, or a block of the new size with the old bytes"""
    ex.oblige(st, 'only the own buffer is resized', And(st.ghost['live'] == 1, bv(args[0], 64) == st.ghost['buf']), 'post')
    ex.oblige(st, 'resizing keeps all bytes read', z3.UGE(bv(args[1], 64), st.ghost['total']), 'post')
    s2 = st.copy()
    b = newbuf(ex, st, bv(args[1], 64), True)
    s2.ghost['last'] = z3.BitVecVal(5, 32)
    return [(st, b), (s2, 0)]


def m_free(ex, st, args, ins):
    """trusted: releases the block"""
    ex.oblige(st, 'only the own buffer is released, once', And(st.ghost['live'] == 1, bv(args[0], 64) == st.ghost['buf']), 'post')
    st.ghost['live'] = z3.BitVecVal(0, 64)
    return None


def m_read(ex, st, args, ins):
    """trusted: reads between 0 and the asked number of bytes, or fails reading nothing"""
    g = st.ghost
    p, n = bv(args[1], 64), bv(args[2], 64)
    ex.oblige(st, 'the given descriptor is read', bv(args[0], 32) == ex.io[0], 'post')
    ex.oblige(st, 'bytes are appended directly after those already read', p == g['buf'] + g['total'], 'post')
    ex.oblige(st, 'a read never reaches beyond the buffer', And(g['live'] == 1, z3.UGT(n, 0), z3.ULE(g['total'], g['cap']), z3.ULE(n, g['cap'] - g['total'])), 'safety')
    st.assume(z3.ULT(g['total'], BIG))
    s2 = st.copy()
    r = fresh('got', 64)
    st.assume(And(r >= 0, r <= n))
    g['total'] = g['total'] + r
    g['last'] = z3.If(r == n, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    e = fresh('errno', 32)
    s2.assume(e != 0)
    set_errno(ex, s2, e)
    s2.ghost['last'] = z3.If(e == EAGAIN, z3.BitVecVal(2, 32), z3.If(e == EINTR, z3.BitVecVal(3, 32), z3.BitVecVal(4, 32)))
    return [(st, r), (s2, mask(64))]


def m_pagesize(ex, st, args, ins):
    """assumed: the page size, a constant power of two between 512 bytes and 1 MiB"""
    p = z3.BitVec('page.size', 64)
    st.assume(And(z3.UGE(p, 512), z3.ULE(p, 1 << 20), (p & (p - 1)) == 0))
    return p


def fr_post(ex, old, st, a, ret):
    ret = bv(ret, 64)
    g = st.ghost
    out = bv(ex.load_local(st, a[1], 8, 64), 64)
    o0 = bv(ex.load_local(old, a[1], 8, 64), 64)
    ok = ret >= 0
    return [('the reported count is exactly the number of bytes read', Imp(ok, And(ret == g['total'], out == g['buf'], g['live'] == 1))),
            ('reading ends only where no more bytes are to be had; an interruption never ends it', Imp(ok, Or(g['last'] == 1, g['last'] == 2))),
            ('a failure is reported, hands out nothing and keeps no memory', Imp(Not(ok), And(ret == -1, out == o0, g['live'] == 0))),
            ('failure is reported only for a failed read, missing memory or a bad descriptor', Imp(Not(ok), Or(g['last'] == 4, g['last'] == 5, a[0] == -1)))]


def fr_mod(ex, st, a):
    return [('ghost', x) for x in ('buf', 'cap', 'total', 'live', 'last')] + [('cell', ex.errno_addr, 4), ('cell', a[1], 8)]


fr_cands = item_cands([('is the total', lambda v, s, a: v == s.ghost['total']), ('is the buffer', lambda v, s, a: v == s.ghost['buf']), ('is the capacity', lambda v, s, a: v == s.ghost['cap'])])


def fr_g(ex, entry, head, mods, depth, header, a, old):
    ps = z3.BitVec('page.size', 64)
    return [('live', lambda s: s.ghost['live'] == 1),
            ('cap', lambda s: And(z3.ULE(s.ghost['total'], BIG + (1 << 21)), s.ghost['total'] >= 0)),
            ('room', lambda s: And(z3.UGE(s.ghost['cap'], s.ghost['total'] + ps), z3.ULT(s.ghost['cap'], BIG + (1 << 22)))),
            ('buf', lambda s: And(z3.UGE(s.ghost['buf'], 1 << 30), z3.ULT(s.ghost['buf'], 1 << 46)))]


# ---------------------------------------------------------------- advisory file locks
def fl_setup(ex, st):
    errno_setup(ex, st)
    st.ghost['lk'] = z3.BitVecVal(9, 32)      # 9 none tried, 0 done, 1 refused, 2 interrupted
    ex.io = a = [z3.BitVec('fd', 32), z3.BitVec('offset', 64), z3.Bool('block')]
    return a


def m_fcntl(typ):
    def f(ex, st, args, ins):
        """trusted: sets the advisory lock, or fails leaving it"""
        fd, off, block = ex.io
        ex.oblige(st, 'the given descriptor is locked', bv(args[0], 32) == fd, 'post')
        ex.oblige(st, 'it waits exactly when asked to', bv(args[1], 32) == z3.If(block, z3.BitVecVal(7, 32), z3.BitVecVal(6, 32)), 'post')
        p = args[2]
        if not isc(p):
            raise Unsupported('fcntl argument')
        t, w = bv(ex.load_local(st, p, 2, 16), 16), bv(ex.load_local(st, p + 2, 2, 16), 16)
        s, l = bv(ex.load_local(st, p + 8, 8, 64), 64), bv(ex.load_local(st, p + 16, 8, 64), 64)
        ex.oblige(st, 'the kind of lock is the one asked for', t == typ, 'post')
        ex.oblige(st, 'it covers the byte at the given offset', And(w == 0, s == off, l == 1), 'post')
        s2, s3 = st.copy(), st.copy()
        st.ghost['lk'] = z3.BitVecVal(0, 32)
        s2.ghost['lk'] = z3.BitVecVal(1, 32)
        e = fresh('errno', 32)
        s2.assume(And(e != 0, e != EINTR))
        set_errno(ex, s2, e)
        s3.ghost['lk'] = z3.BitVecVal(2, 32)
        set_errno(ex, s3, EINTR)
        return [(st, 0), (s2, mask(32)), (s3, mask(32))]
    return f


def fl_post(ex, old, st, a, ret):
    return [('true exactly when the lock was set', bl(ret) == (st.ghost['lk'] == 0)),
            ('an interruption is not an answer', st.ghost['lk'] != 2),
            ('refused without asking only for no descriptor', Imp(st.ghost['lk'] == 9, a[0] == -1))]


def fl_mod(ex, st, a):
    return [('ghost', 'lk'), ('cell', ex.errno_addr, 4)]


def m_sysconf(ex, st, args, ins):
    """trusted: the page size, or -1"""
    ex.oblige(st, 'the page size is asked for', bv(args[0], 32) == 30, 'post')
    s2 = st.copy()
    p = z3.BitVec('page.size', 64)
    st.assume(And(z3.UGE(p, 512), z3.ULE(p, 1 << 20), (p & (p - 1)) == 0))
    return [(st, p), (s2, mask(64))]


def gp_setup(ex, st):
    sv = statics(ex, '@_ZZ17GetSystemPageSizevE')
    ini = [x for x in sv if x[2] == 1]
    siz = [x for x in sv if x[2] == 8]
    ps = z3.BitVec('page.size', 64)
    st.assume(And(z3.UGE(ps, 512), z3.ULE(ps, 1 << 20), (ps & (ps - 1)) == 0))
    for x in siz:
        s0 = z3.BitVec('s_pagesize0', 64)
        ex.store_local(st, x[1], 8, s0)
        st.assume(Or(s0 == init_value(ex, x[0]), s0 == ps))   # its initial value, or what an earlier call put there
    return []


def gp_mod(ex, st, a):
    return [('cell', ad, sz) for n, ad, sz in statics(ex, '@_ZZ17GetSystemPageSizevE')]


def gp_post(ex, old, st, a, ret):
    return [('answers the system page size, or 4096 where that is unknown', Or(bv(ret, 64) == z3.BitVec('page.size', 64), bv(ret, 64) == 4096))]


def contracts():
    C = []

    def add(*a, **k):
        C.append(FnContract(*a, **k))
    e = {'__errno_location': m_errno}
    add('flck_pread(int, void*, unsigned long, long)', px_setup, px_pre, px_post('read'), px_mod, 64, ('P15',), models=dict(e, pread=m_px('pread')), cands=allc(px_cands, px_g))
    add('flck_pwrite(int, void const*, unsigned long, long)', px_setup, px_pre, px_post('write'), px_mod, 64, ('P15',), models=dict(e, pwrite=m_px('pwrite')), cands=allc(px_cands, px_g))
    add('flck_fill_zero(int, unsigned long, long)', fz_setup, fz_pre, fz_post, fz_mod, 1, ('P15', 'P12'), models=dict(e, flck_pwrite=m_flck_pwrite), cands=allc(fz_cands, fz_g))
    add('flck_read(int, unsigned char**)', fr_setup, None, fr_post, fr_mod, 64, ('P15',), models=dict(e, malloc=m_malloc, realloc=m_realloc, free=m_free, read=m_read, GetSystemPageSize=m_pagesize), cands=allc(fr_cands, fr_g))
    for n, t in (('FileReadLock', 0), ('FileWriteLock', 1), ('FileUnlock', 2)):
        add(n + '(int, long, bool)', fl_setup, None, fl_post, fl_mod, 1, ('P12',), models=dict(e, fcntl=m_fcntl(t)))
    add('GetSystemPageSize()', gp_setup, None, gp_post, gp_mod, 64, ('P12', 'P15'), models=dict(e, sysconf=m_sysconf))
    return C
