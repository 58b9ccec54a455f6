"""Contracts of the lock primitives in lib/flckbaselist.tcc and the time helpers in lib/flckutil.h."""
import z3
from .symex import *
from .regions import *
from .contract import FnContract

ETIMEDOUT, EBUSY, EWOULDBLOCK, EPERM, EINVAL, ENOLCK = 110, 16, 11, 1, 22, 37
INVALID = 0
CLK = ('s', 'n', 'fs', 'fn', 'cnt', 'fail', 'on')


def ptr(ex, st, nm, tag):
    p = z3.BitVec(nm, 64)
    st.assume(And(z3.UGE(p, 4096), z3.ULT(p, 1 << 46)))
    ex.set_tag(p, tag)
    return p


def rw_regions(ex):
    ex.region_of['rw'] = RWWord('rw')


# ---------------------------------------------------------------- rwlock
def rw_setup(nargs):
    def f(ex, st):
        rw_regions(ex)
        RWWord.ghosts(st)
        clk_ghosts(st)
        p = ptr(ex, st, 'plockval', 'rw')
        args = [p]
        if 'max' in nargs:
            args.append(z3.BitVec('max_count', 32))
        if 'limit' in nargs:
            b = ex.alloc(st, 16, 'limit')
            ls, ln = z3.BitVec('limit_s', 64), z3.BitVec('limit_n', 64)
            ex.store_local(st, b, 8, ls)
            ex.store_local(st, b + 8, 8, ln)
            args.append(b)
        return args
    return f


def limit_of(ex, st, p):
    return bv(ex.load_local(st, p, 8, 64), 64), bv(ex.load_local(st, p + 8, 8, 64), 64)


def limit_common(old, st, ret):
    g, o = st.ghost, old.ghost
    return [('result is success, ETIMEDOUT, or EBUSY when the clock cannot be read', Or(ret == 0, ret == ETIMEDOUT, And(ret == EBUSY, g['clk.fail']))),
            ('time is measured from the call', Imp(ret != EBUSY, lex_le(o['clk.s'], o['clk.n'], g['clk.fs'], g['clk.fn'])))]


def rw_pre(kind, lim=False):
    def f(ex, st, a):
        st.assume(ex.region_of['rw'].inv(st, a[0], 0))     # shared invariant (kept by every guarantee obligation)
        out = []
        if lim:
            ls, ln = limit_of(ex, st, a[1])
            out.append(('the timeout is a normalised non-negative timespec', norm_ts(ls, ln)))
            if not z3.is_bv_value(st.ghost.get('clk.cnt')):
                pass
        if kind == 'unlock':
            out.append(('the caller holds a token of this lock word', Or(sel(st.ghost['rw.myr'], a[0]) > 0, sel(st.ghost['rw.myw'], a[0]))))
        return out
    return f


def rw_mod(clk):
    def f(ex, st, a):
        m = [('mem', 'rw', a[0]), ('ghostat', 'rw.myr', a[0]), ('ghostat', 'rw.myw', a[0]), ('ghostat', 'rw.or', a[0]), ('ghostat', 'rw.ow', a[0])]
        if clk:
            m += [('ghost', 'clk.' + x) for x in CLK]
        return m
    return f


def rw_post(kind, mode):
    def f(ex, old, st, a, ret):
        p = a[0]
        r0, w0 = sel(old.ghost['rw.myr'], p), sel(old.ghost['rw.myw'], p)
        r1, w1 = sel(st.ghost['rw.myr'], p), sel(st.ghost['rw.myw'], p)
        ret = bv(ret, 32)
        reg = ex.region_of['rw']
        out = [('the lock word still equals the number of holders (-1 one writer, n readers, 0 free)', reg.inv(st, p, 4))]
        if kind == 'rd':
            out += [('success adds exactly one reader token of the caller', Imp(ret == 0, And(r1 == r0 + 1, w1 == w0))),
                    ('failure leaves the caller without a new token', Imp(ret != 0, And(r1 == r0, w1 == w0)))]
        elif kind == 'wr':
            out += [('success makes the caller the only holder', Imp(ret == 0, And(w1, Not(w0), r1 == r0))),
                    ('failure leaves the caller without a new token', Imp(ret != 0, And(r1 == r0, w1 == w0)))]
        elif kind == 'un':
            out += [('releases exactly one token of the caller', And(ret == 0, Imp(w0, And(Not(w1), r1 == r0)), Imp(Not(w0), And(r1 == r0 - 1, w1 == w0))))]
        if mode == 'try':
            out += [('result is success or EBUSY', Or(ret == 0, ret == EBUSY))]
        elif mode == 'max':
            m = bv(a[1], 32)
            out += [('gives up only with ETIMEDOUT and only when an attempt limit was given', Or(ret == 0, And(ret == ETIMEDOUT, m != -1)))]
        elif mode == 'limit':
            ls, ln = limit_of(ex, old, a[1])
            g = st.ghost
            out += limit_common(old, st, ret) + [
                    ('ETIMEDOUT only after the full timeout has elapsed', Imp(ret == ETIMEDOUT, elapsed_ge(g['clk.fs'], g['clk.fn'], g['clk.s'], g['clk.n'], ls, ln)))]
        return out
    return f


def clk_back(ex, s, header, head, a, old, limidx):
    ls, ln = limit_of(ex, old, a[limidx])
    g = s.ghost
    return [('every retry has read the clock', g['clk.cnt'] != head.ghost['clk.cnt']),
            ('retries only while the timeout has not elapsed', Not(elapsed_ge(g['clk.fs'], g['clk.fn'], g['clk.s'], g['clk.n'], ls, ln)))]


def clk_cands(ex, entry, head, mods, depth, header, a, old):
    """start time cells equal the first clock reading"""
    out = [('clk.on', lambda s: s.ghost['clk.on']),
           ('clk first<=last', lambda s: lex_le(s.ghost['clk.fs'], s.ghost['clk.fn'], s.ghost['clk.s'], s.ghost['clk.n'])),
           ('clk norm', lambda s: norm_ts(s.ghost['clk.s'], s.ghost['clk.n'])),
           ('clk first norm', lambda s: norm_ts(s.ghost['clk.fs'], s.ghost['clk.fn']))]
    fs, fnn = entry.ghost['clk.fs'], entry.ghost['clk.fn']
    return out


def rw_cands(ex, entry, head, mods, depth, header, a, old):
    p = a[0]
    out = [('my tokens unchanged', lambda s: And(sel(s.ghost['rw.myr'], p) == sel(old.ghost['rw.myr'], p), sel(s.ghost['rw.myw'], p) == sel(old.ghost['rw.myw'], p))),
           ('only this word', lambda s: And(*[z3.Store(old.ghost[g], p, sel(s.ghost[g], p)) == s.ghost[g] for g in RWWord.G]
                                            + [z3.Store(ex.region_of['rw'].arr(old), p, sel(ex.region_of['rw'].arr(s), p)) == ex.region_of['rw'].arr(s)])),
           ('inv', lambda s: ex.region_of['rw'].inv(s, p, 2))]
    return out


def ghost_match_cands(ghosts):
    """every integer the body changes might equal (ghost + small constant)"""
    def f(ex, entry, head, mods, depth, header, a, old):
        out = []
        return out
    return f


def both(*fs):
    def f(*a):
        r = []
        for x in fs:
            r.extend(x(*a))
        return r
    return f


def lim_back(i):
    return lambda ex, s, header, head, a, old: clk_back(ex, s, header, head, a, old, i)


def attempts_back(ex, s, header, head, a, old):
    return []


# ---------------------------------------------------------------- mutex
def mx_regions(ex):
    ex.region_of['mc'] = MutexCnt('mc')
    ex.region_of['mv'] = MutexVal(ex.region_of['mc'], 'mv')


def mx_setup(kind):
    def f(ex, st):
        mx_regions(ex)
        MutexVal.ghosts(st)
        if kind == 'force':
            st.ghost['mx.force'] = z3.BoolVal(True)
        clk_ghosts(st)
        p = ptr(ex, st, 'plockval', 'mv')
        c = simp(p + 8)
        ex.set_tag(c, 'mc')
        args = [p, c]
        if kind != 'force':
            args.append(ME)
        if kind == 'max':
            args.append(z3.BitVec('max_count', 32))
        if kind == 'limit':
            b = ex.alloc(st, 16, 'limit')
            ex.store_local(st, b, 8, z3.BitVec('limit_s', 64))
            ex.store_local(st, b + 8, 8, z3.BitVec('limit_n', 64))
            args.append(b)
        return args
    return f


def mxVC(ex, st, p):
    V = bv(ex.region_of['mv'].get(st, p), 64)
    C = bv(ex.region_of['mc'].get(st, simp(bv(p, 64) + 8)), 32)
    return V, C


def mx_inv(ex, st, p, slack=0):
    V, C = mxVC(ex, st, p)
    return And(C >= 0, C < READER_LIMIT - 8 + slack, Imp(V == 0, C == 0), Imp(V == ME, C >= 1), ME != 0)


def mx_pre(kind):
    def f(ex, st, a):
        out = [('the calling thread has a valid id', ME != 0),
               ('the count word belongs to the owner word', bv(a[1], 64) == bv(a[0], 64) + 8),
               ('the mutex is in a legal state at call', mx_inv(ex, st, a[0]))]
        if kind == 'max':
            out.append(('the attempt limit is unlimited or non-negative', bv(a[3], 32) >= -1))
        if kind != 'force':
            out.append(('the lock id is the calling thread', bv(a[2], 64) == ME))
        else:
            V, C = mxVC(ex, st, a[0])
            out.append(('only the mutex of a dead owner is forced', And(st.ghost['mx.force'], V != 0, V != ME, dead(V))))
        if kind == 'limit':
            out.append(('the timeout is a normalised non-negative timespec', norm_ts(*limit_of(ex, st, a[3]))))
        return out
    return f


def mx_mod(clk):
    def f(ex, st, a):
        m = [('mem', 'mv', a[0]), ('mem', 'mc', a[1]), ('ghost', 'mx.saw0'), ('ghost', 'mx.sawo')]
        if clk:
            m += [('ghost', 'clk.' + x) for x in CLK]
        return m
    return f


def mx_post(kind, mode):
    def f(ex, old, st, a, ret):
        p = a[0]
        V0, C0 = mxVC(ex, old, p)
        V1, C1 = mxVC(ex, st, p)
        ret = bv(ret, 32)
        out = [('the mutex is in a legal state at return', mx_inv(ex, st, p, 8))]
        if kind == 'lock':
            out += [('success makes the caller the owner, one level deeper', Imp(ret == 0, And(V1 == ME, C1 == z3.If(V0 == ME, C0 + 1, z3.BitVecVal(1, 32))))),
                    ('failure leaves the ownership of the caller as it was', Imp(ret != 0, And((V0 == ME) == (V1 == ME), Imp(V0 == ME, C1 == C0)))),
                    ('an owner can always lock again', Imp(V0 == ME, ret == 0 if mode != 'limit' else Or(ret == 0, st.ghost['clk.fail'])))]
        elif kind == 'unlock':
            out += [('the owner releases one level; the last level frees it', Imp(V0 == ME, And(ret == 0, Imp(C0 == 1, V1 != ME), Imp(C0 > 1, And(V1 == ME, C1 == C0 - 1))))),
                    ('a non-owner changes nothing and gets EPERM, or 0 only if it was free', Imp(V0 != ME, And(V1 != ME, Or(And(ret == 0, st.ghost['mx.saw0']), And(ret == EPERM, st.ghost['mx.sawo'])))))]
        elif kind == 'force':
            out += [('afterwards the dead owner no longer owns it', And(ret == 0, V1 != V0))]
        if mode == 'try':
            out += [('result is success or EBUSY', Or(ret == 0, ret == EBUSY))]
        elif mode == 'max':
            out += [('gives up only with EWOULDBLOCK and only when an attempt limit was given', Or(ret == 0, And(ret == EWOULDBLOCK, bv(a[3], 32) != -1)))]
        elif mode == 'limit':
            ls, ln = limit_of(ex, old, a[3])
            g = st.ghost
            out += limit_common(old, st, ret) + [
                    ('ETIMEDOUT only after the full timeout has elapsed', Imp(ret == ETIMEDOUT, elapsed_ge(g['clk.fs'], g['clk.fn'], g['clk.s'], g['clk.n'], ls, ln)))]
        return out
    return f


def mx_cands(ex, entry, head, mods, depth, header, a, old):
    p = a[0]
    V0, C0 = mxVC(ex, old, p)

    def same_own(s):
        V, C = mxVC(ex, s, p)
        return And(Imp(V0 == ME, And(V == ME, C == C0)), Imp(V0 != ME, V != ME))

    def same_dead(s):
        V, C = mxVC(ex, s, p)
        return Imp(s.ghost['mx.force'], And(V == V0, Or(C == C0, C == 0)))

    def inv(s):
        return mx_inv(ex, s, p, 2)

    def inv2(s):
        V, C = mxVC(ex, s, p)
        return And(C >= 0, C < READER_LIMIT - 2, Imp(V == 0, C == 0))

    def words(s):
        return And(*[z3.Store(ex.region_of[t].arr(old), bv(x, 64), sel(ex.region_of[t].arr(s), x)) == ex.region_of[t].arr(s) for t, x in (('mv', p), ('mc', a[1]))])
    extra = []
    for it in mods:
        if it[0] in ('phi', 'cell'):
            e = ex.get_item(entry, it, depth)
            if e is not None and not isinstance(e, tuple):
                extra.append(('owner first try %s' % (it,), lambda s, it=it, e=e: Imp(V0 == ME, eqv(ex.get_item(s, it, depth), e))))
    return extra + [('own', same_own), ('dead', same_dead), ('inv', inv), ('inv2', inv2), ('words', words),
            ('no saw', lambda s: s.ghost['mx.sawo'] == False)]


# ---------------------------------------------------------------- lockid
def lid_setup(n):
    def f(ex, st):
        ex.region_of['lockid'] = LockId('lockid')
        p = ptr(ex, st, 'pflckpid', 'lockid')
        st.assume(ME != 0)
        st.assume(Not(dead(ME)))
        return [p] + [ME] * (n - 1)
    return f


def lidV(ex, st, p):
    return bv(ex.region_of['lockid'].get(st, p), 64)


def lid_pre(n):
    def f(ex, st, a):
        return [('the calling thread has a valid id', ME != 0)] + ([('the lock id is the calling thread', bv(a[1], 64) == ME)] if n > 1 else [])
    return f


def lid_mod(ex, st, a):
    return [('mem', 'lockid', a[0])]


def lid_post(kind):
    def f(ex, old, st, a, ret):
        V0, V1 = lidV(ex, old, a[0]), lidV(ex, st, a[0])
        if kind == 'lock':
            return [('the caller holds the internal lock at return', V1 == ME)]
        if kind == 'unlock':
            return [('the caller does not hold the internal lock at return', V1 != ME)]
        if kind == 'try':
            return [('true exactly when the caller held it, and then it is released', And(bl(ret) == (V0 == ME), V1 != ME))]
        if kind == 'is':
            return [('reports whether the word was seen taken', And(Imp(V0 == ME, bl(ret)), bl(ret) == (V1 != 0)))]
    return f


def lid_cands(ex, entry, head, mods, depth, header, a, old):
    p = a[0]
    return [('mine', lambda s: (lidV(ex, s, p) == ME) == (lidV(ex, old, p) == ME)),
            ('words', lambda s: z3.Store(ex.region_of['lockid'].arr(old), p, lidV(ex, s, p)) == ex.region_of['lockid'].arr(s))]


# ---------------------------------------------------------------- cond status word
def cs_setup(kind):
    def f(ex, st):
        ex.region_of['cs'] = CondStatus('cs')
        CondStatus.ghosts(st)
        clk_ghosts(st)
        p = ptr(ex, st, 'plockstatus', 'cs')
        args = [p, z3.BitVec('status', 32)]
        if kind == 'limit':
            b = ex.alloc(st, 16, 'limit')
            ex.store_local(st, b, 8, z3.BitVec('limit_s', 64))
            ex.store_local(st, b + 8, 8, z3.BitVec('limit_n', 64))
            args.append(b)
        return args
    return f


def cs_pre(kind):
    def f(ex, st, a):
        if kind == 'limit':
            return [('the timeout is a normalised non-negative timespec', norm_ts(*limit_of(ex, st, a[2])))]
        return []
    return f


def cs_mod(clk):
    def f(ex, st, a):
        m = [('mem', 'cs', a[0]), ('ghost', 'cs.last'), ('ghost', 'cs.obs'), ('ghost', 'cs.wrote')]
        if clk:
            m += [('ghost', 'clk.' + x) for x in CLK]
        return m
    return f


def cs_post(kind):
    def f(ex, old, st, a, ret):
        ret = bv(ret, 32)
        g = st.ghost
        stt = bv(a[1], 32)
        if kind == 'set':
            return [('the status was switched to the requested value', And(ret == 0, g['cs.wrote'] == stt))]
        out = [('waiting never changes the status', Or(g['cs.wrote'] == old.ghost['cs.wrote'], g['cs.wrote'] == g['cs.last'])),
               ('returns 0 only after seeing the awaited status', Imp(ret == 0, And(g['cs.last'] == stt, g['cs.obs'])))]
        if kind == 'wait':
            out += [('an untimed wait only ends with 0', ret == 0)]
        else:
            ls, ln = limit_of(ex, old, a[2])
            out += limit_common(old, st, ret) + [
                    ('ETIMEDOUT only after the full timeout has elapsed', Imp(ret == ETIMEDOUT, elapsed_ge(g['clk.fs'], g['clk.fn'], g['clk.s'], g['clk.n'], ls, ln)))]
        return out
    return f


def cs_cands(ex, entry, head, mods, depth, header, a, old):
    p = bv(a[0], 64)
    out = [('nowrite', lambda s: s.ghost['cs.wrote'] == old.ghost['cs.wrote']),
           ('words', lambda s: z3.Store(ex.region_of['cs'].arr(old), p, sel(ex.region_of['cs'].arr(s), p)) == ex.region_of['cs'].arr(s))]
    return out


# ---------------------------------------------------------------- process-local spin lock
def sp_setup(w):
    def f(ex, st):
        ex.region_of['spin'] = SpinWord('spin', w)
        SpinWord.ghosts(st)
        p = ptr(ex, st, 'plockval', 'spin')
        return [p]
    return f


def sp_post(kind):
    def f(ex, old, st, a, ret):
        h0, h1 = sel(old.ghost['sp.held'], a[0]), sel(st.ghost['sp.held'], a[0])
        if kind == 'lock':
            return [('the caller holds the spin lock at return', And(h1, Not(h0)))]
        if kind == 'try':
            return [('true exactly when the caller newly holds it', And(Imp(bl(ret), And(h1, Not(h0))), Imp(Not(bl(ret)), h1 == h0)))]
        return [('released', Not(h1))]
    return f


def sp_cands(ex, entry, head, mods, depth, header, a, old):
    p = a[0]
    return [('held', lambda s: sel(s.ghost['sp.held'], p) == sel(old.ghost['sp.held'], p)),
            ('gh', lambda s: z3.Store(old.ghost['sp.held'], p, sel(s.ghost['sp.held'], p)) == s.ghost['sp.held']),
            ('words', lambda s: z3.Store(ex.region_of['spin'].arr(old), p, sel(ex.region_of['spin'].arr(s), p)) == ex.region_of['spin'].arr(s))]


def sp_mod(ex, st, a):
    return [('mem', 'spin', a[0]), ('ghostat', 'sp.held', a[0])]


# ---------------------------------------------------------------- time helpers
def ts_setup(n):
    def f(ex, st):
        out = []
        for i in range(n):
            b = ex.alloc(st, 16, 'ts%d' % i)
            ex.store_local(st, b, 8, z3.BitVec('ts%d_s' % i, 64))
            ex.store_local(st, b + 8, 8, z3.BitVec('ts%d_n' % i, 64))
            out.append(b)
        return out
    return f


def sub_pre(ex, st, a):
    (s0, n0), (s1, n1) = limit_of(ex, st, a[0]), limit_of(ex, st, a[1])
    return [('both times are normalised and in order', And(norm_ts(s0, n0), norm_ts(s1, n1), lex_le(s0, n0, s1, n1)))]


def sub_post(ex, old, st, a, ret):
    (s0, n0), (s1, n1) = limit_of(ex, old, a[0]), limit_of(ex, old, a[1])
    rs, rn = limit_of(ex, st, a[2])
    b = n1 < n0
    return [('the result is the exact difference', And(rs == z3.If(b, s1 - s0 - 1, s1 - s0), rn == z3.If(b, n1 - n0 + NSEC, n1 - n0)))]


def over_pre(ex, st, a):
    ls, ln = limit_of(ex, st, a[2])
    return sub_pre(ex, st, a) + [('the limit is normalised', norm_ts(ls, ln))]


def over_post(ex, old, st, a, ret):
    (s0, n0), (s1, n1), (ls, ln) = [limit_of(ex, old, x) for x in a[:3]]
    return [('true exactly when the elapsed time has reached the limit', bl(ret) == elapsed_ge(s0, n0, s1, n1, ls, ln))]


F = 'fullock::'
P_RW, P_MX, P_CS, P_TM, P_LI = 'P01', 'P02', 'P03', 'P04', 'P08'


def contracts():
    C = []

    def add(*a, **k):
        C.append(FnContract(*a, **k))
    rwc = both(rw_cands)
    rwt = both(rw_cands, clk_cands)
    add(F + 'fl_rdlock_rwlock(int*, int)', rw_setup(['max']), rw_pre(''), rw_post('rd', 'max'), rw_mod(False), 32, (P_RW,), cands=rwc)
    add(F + 'fl_wrlock_rwlock(int*, int)', rw_setup(['max']), rw_pre(''), rw_post('wr', 'max'), rw_mod(False), 32, (P_RW,), cands=rwc)
    add(F + 'fl_tryrdlock_rwlock(int*)', rw_setup([]), rw_pre(''), rw_post('rd', 'try'), rw_mod(False), 32, (P_RW, P_TM), cands=rwc)
    add(F + 'fl_trywrlock_rwlock(int*)', rw_setup([]), rw_pre(''), rw_post('wr', 'try'), rw_mod(False), 32, (P_RW, P_TM), cands=rwc)
    add(F + 'fl_timedrdlock_rwlock(int*, timespec const*)', rw_setup(['limit']), rw_pre('', True), rw_post('rd', 'limit'), rw_mod(True), 32, (P_RW, P_TM), cands=rwt, back=lim_back(1))
    add(F + 'fl_timedwrlock_rwlock(int*, timespec const*)', rw_setup(['limit']), rw_pre('', True), rw_post('wr', 'limit'), rw_mod(True), 32, (P_RW, P_TM), cands=rwt, back=lim_back(1))
    add(F + 'fl_unlock_rwlock(int*)', rw_setup([]), rw_pre('unlock'), rw_post('un', ''), rw_mod(False), 32, (P_RW,), cands=rwc)

    mxt = both(mx_cands, clk_cands)
    add(F + 'fl_lock_mutex(unsigned long*, int*, unsigned long, int)', mx_setup('max'), mx_pre('max'), mx_post('lock', 'max'), mx_mod(False), 32, (P_MX,), cands=mx_cands)
    add(F + 'fl_trylock_mutex(unsigned long*, int*, unsigned long)', mx_setup('try'), mx_pre('try'), mx_post('lock', 'try'), mx_mod(False), 32, (P_MX, P_TM), cands=mx_cands)
    add(F + 'fl_timedlock_mutex(unsigned long*, int*, unsigned long, timespec const*)', mx_setup('limit'), mx_pre('limit'), mx_post('lock', 'limit'), mx_mod(True), 32, (P_MX, P_TM), cands=mxt, back=lim_back(3))
    add(F + 'fl_unlock_mutex(unsigned long*, int*, unsigned long)', mx_setup('unlock'), mx_pre('unlock'), mx_post('unlock', ''), mx_mod(False), 32, (P_MX,), cands=mx_cands)
    add(F + 'fl_force_unlock_mutex(unsigned long*, int*)', mx_setup('force'), mx_pre('force'), mx_post('force', ''), mx_mod(False), 32, (P_MX, 'P06'), cands=mx_cands)

    add(F + 'fl_lock_lockid(unsigned long*, unsigned long)', lid_setup(2), lid_pre(2), lid_post('lock'), lid_mod, None, (P_LI,), cands=lid_cands)
    add(F + 'fl_unlock_lockid(unsigned long*, unsigned long)', lid_setup(2), lid_pre(2), lid_post('unlock'), lid_mod, None, (P_LI,), cands=lid_cands)

    cst = both(cs_cands, clk_cands)
    add(F + 'fl_wait_cond(flck_lock_type*, flck_lock_type)', cs_setup('wait'), None, cs_post('wait'), cs_mod(False), 32, (P_CS,), cands=cs_cands)
    add(F + 'fl_timedwait_cond(flck_lock_type*, flck_lock_type, timespec const*)', cs_setup('limit'), cs_pre('limit'), cs_post('limit'), cs_mod(True), 32, (P_CS, P_TM), cands=cst, back=lim_back(2))
    add(F + 'fl_force_set_cond(flck_lock_type*, flck_lock_type)', cs_setup('set'), None, cs_post('set'), cs_mod(False), 32, (P_CS,), cands=cs_cands)

    add('SUB_TIMESPEC(timespec const*, timespec const*, timespec*)', ts_setup(3), sub_pre, sub_post, lambda ex, st, a: [('cell', a[2], 8), ('cell', a[2] + 8, 8)], None, (P_TM,))
    add('IS_OVER_TIMESPEC(timespec const*, timespec const*, timespec const*)', ts_setup(3), over_pre, over_post, None, 1, (P_TM,))
    return C
