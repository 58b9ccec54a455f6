"""Shared-memory words under rely/guarantee.

Every own access to such a word is preceded by a havoc of the word under the rely (what any number of
other threads and processes obeying the same contracts may have done since); every own write must be a
legal transition of the word's protocol (an obligation), and moves the ghost ownership state.
"""
import z3
from .symex import *

B32 = z3.BitVecSort(32)
A64_32 = z3.ArraySort(BV64, B32)
A64_B = z3.ArraySort(BV64, z3.BoolSort())
A64_64 = z3.ArraySort(BV64, BV64)

dead = z3.Function('dead', BV64, z3.BoolSort())
ME = z3.BitVec('me', 64)
READER_LIMIT = 1 << 28


def sel(a, i):
    return z3.Select(a, bv(i, 64))


class ProtoRegion(Region):
    """base: word with rely/guarantee. Subclasses define rely(ex,st,addr) and write(ex,st,addr,old,new)."""

    def load(self, ex, st, addr):
        self.rely(ex, st, addr)
        v = self.get(st, addr)
        self.observe(ex, st, addr, v)
        return v

    def observe(self, ex, st, addr, v):
        pass

    def store(self, ex, st, addr, v):
        self.rely(ex, st, addr)
        old = self.get(st, addr)
        self.write(ex, st, addr, old, bv(self.norm(v), self.w), None)

    def cas(self, ex, st, addr, c, n):
        self.rely(ex, st, addr)
        old = self.get(st, addr)
        self.observe(ex, st, addr, old)
        ok = z3.simplify(bv(old, self.w) == bv(c, self.w))
        if z3.is_false(ok):
            return old, False
        new = z3.If(ok, bv(n, self.w), bv(old, self.w)) if not z3.is_true(ok) else bv(n, self.w)
        self.write(ex, st, addr, bv(old, self.w), new, ok)
        return old, conc(ok)

    def rmw(self, ex, st, addr, f):
        self.rely(ex, st, addr)
        old = self.get(st, addr)
        self.observe(ex, st, addr, old)
        self.write(ex, st, addr, bv(old, self.w), bv(f(old), self.w), None)
        return old


class RWWord(ProtoRegion):
    """reader/writer word: -1 writer, 0 free, n>0 readers.  Ghost tokens: mine and everybody else's."""
    G = ('rw.myr', 'rw.myw', 'rw.or', 'rw.ow')

    def __init__(self, tag='rw'):
        ProtoRegion.__init__(self, tag, 32)

    @staticmethod
    def ghosts(st):
        st.ghost.setdefault('rw.myr', z3.Const('rw.myr0', A64_32))
        st.ghost.setdefault('rw.myw', z3.Const('rw.myw0', A64_B))
        st.ghost.setdefault('rw.or', z3.Const('rw.or0', A64_32))
        st.ghost.setdefault('rw.ow', z3.Const('rw.ow0', A64_B))

    def inv(self, st, a, slack=0):
        V = bv(self.get(st, a), 32)
        g = st.ghost
        mr, mw, orr, ow = sel(g['rw.myr'], a), sel(g['rw.myw'], a), sel(g['rw.or'], a), sel(g['rw.ow'], a)
        return And(mr >= 0, orr >= 0, mr < READER_LIMIT + slack, orr < READER_LIMIT + slack, Not(And(mw, ow)),
                   Imp(Or(mw, ow), And(mr == 0, orr == 0, V == -1)), Imp(Not(Or(mw, ow)), V == mr + orr))

    def rely(self, ex, st, a):
        g = st.ghost
        st.mem[self.tag] = z3.Store(self.arr(st), bv(a, 64), fresh('rwV', 32))
        g['rw.or'] = z3.Store(g['rw.or'], bv(a, 64), fresh('rwor', 32))
        g['rw.ow'] = z3.Store(g['rw.ow'], bv(a, 64), fresh('rwow', 1))
        st.assume(self.inv(st, a))

    def write(self, ex, st, a, old, new, ok):
        g = st.ghost
        mr, mw = sel(g['rw.myr'], a), sel(g['rw.myw'], a)
        acqw = And(old == 0, new == -1)
        acqr = And(old >= 0, new == old + 1)
        relr = And(old > 0, new == old - 1)
        relw = And(old == -1, new == 0)
        ex.oblige(st, 'guarantee: a write to the lock word is an acquisition from free/readers or the release of a token held',
                  Or(new == old, acqw, acqr, And(relr, mr > 0), And(relw, mw)), 'guarantee')
        g['rw.myr'] = z3.Store(g['rw.myr'], bv(a, 64), z3.If(acqr, mr + 1, z3.If(relr, mr - 1, mr)))
        g['rw.myw'] = z3.Store(g['rw.myw'], bv(a, 64), z3.If(acqw, True, z3.If(relw, False, mw)))
        st.mem[self.tag] = z3.Store(self.arr(st), bv(a, 64), new)


class MutexVal(ProtoRegion):
    """owner word of a recursive mutex; the count word lives at addr+8 (region MutexCnt)."""

    def __init__(self, cnt, tag='mv'):
        ProtoRegion.__init__(self, tag, 64)
        self.cnt = cnt
        cnt.val = self

    @staticmethod
    def ghosts(st):
        st.ghost.setdefault('mx.saw0', z3.BoolVal(False))
        st.ghost.setdefault('mx.sawo', z3.BoolVal(False))
        st.ghost.setdefault('mx.force', z3.BoolVal(False))

    def rely(self, ex, st, a):
        """an owner word that is mine (or a dead owner's) only changes by its owner (or a recoverer holding the list lock)"""
        a = bv(a, 64)
        V, C = bv(self.get(st, a), 64), bv(self.cnt.get(st, a + 8), 32)
        V2, C2 = fresh('mxV', 64), fresh('mxC', 32)
        frozen = Or(V == ME, And(st.ghost['mx.force'], V != 0, dead(V)))
        st.assume(Imp(frozen, And(V2 == V, C2 == C)))
        st.assume(Imp(Not(frozen), And(V2 != ME, Imp(V2 == 0, C2 == 0), C2 >= 0)))
        st.assume(C2 < READER_LIMIT - 8)
        self.put(st, a, V2)
        self.cnt.put(st, simp(a + 8), C2)

    def observe(self, ex, st, a, v):
        g = st.ghost
        v = bv(v, 64)
        g['mx.saw0'] = Or(g['mx.saw0'], v == 0)
        g['mx.sawo'] = Or(g['mx.sawo'], And(v != 0, v != ME))

    def write(self, ex, st, a, old, new, ok):
        a = bv(a, 64)
        C = bv(self.cnt.get(st, simp(a + 8)), 32)
        force = And(st.ghost['mx.force'], old != 0, dead(old), new == 0, C == 0)
        ex.oblige(st, 'guarantee: the owner word changes only free->self, self->free with count 0, or a dead owner is cleared',
                  Or(new == old, And(old == 0, new == ME), And(old == ME, new == 0, C == 0), force), 'guarantee')
        self.put(st, a, new)


class MutexCnt(ProtoRegion):
    def __init__(self, tag='mc'):
        ProtoRegion.__init__(self, tag, 32)

    def rely(self, ex, st, a):
        self.val.rely(ex, st, simp(bv(a, 64) - 8))

    def write(self, ex, st, a, old, new, ok):
        V = bv(self.val.get(st, simp(bv(a, 64) - 8)), 64)
        force = And(st.ghost['mx.force'], V != 0, dead(V))
        ex.oblige(st, 'guarantee: the recursion count is written only by the owner (or for a dead owner) and never negative',
                  Or(new == old, And(Or(V == ME, force), new >= 0)), 'guarantee')
        self.put(st, a, new)


class LockId(ProtoRegion):
    """internal spin lock word holding the packed pid/tid of the holder, 0 when free"""

    def __init__(self, tag='lockid'):
        ProtoRegion.__init__(self, tag, 64)

    def rely(self, ex, st, a):
        V = bv(self.get(st, a), 64)
        V2 = fresh('lidV', 64)
        st.assume(Imp(V == ME, V2 == ME))
        st.assume(Imp(V != ME, V2 != ME))
        self.put(st, a, V2)
        self.on_change(ex, st, a)

    def on_change(self, ex, st, a):
        pass

    def write(self, ex, st, a, old, new, ok):
        ex.oblige(st, 'guarantee: the internal lock is taken only when free or from a holder found dead, and released only by its holder',
                  Or(new == old, And(old == 0, new == ME), And(old == ME, new == 0), And(old != 0, old != ME, dead(old), Or(new == ME, new == 0))), 'guarantee')
        self.put(st, a, new)


class CondStatus(ProtoRegion):
    def __init__(self, tag='cs'):
        ProtoRegion.__init__(self, tag, 32)

    @staticmethod
    def ghosts(st):
        st.ghost.setdefault('cs.last', z3.BitVec('cs.last0', 32))
        st.ghost.setdefault('cs.obs', z3.BoolVal(False))
        st.ghost.setdefault('cs.wrote', z3.BitVecVal(99, 32))

    def rely(self, ex, st, a):
        self.put(st, a, fresh('csV', 32))

    def observe(self, ex, st, a, v):
        st.ghost['cs.last'] = bv(v, 32)
        st.ghost['cs.obs'] = z3.BoolVal(True)

    def write(self, ex, st, a, old, new, ok):
        done = z3.BoolVal(True) if ok is None else ok
        st.ghost['cs.wrote'] = z3.If(done, new, st.ghost['cs.wrote'])
        self.put(st, a, new)


class SpinWord(ProtoRegion):
    """process-local spin lock (0/1)"""

    def __init__(self, tag='spin', w=32):
        ProtoRegion.__init__(self, tag, w)

    @staticmethod
    def ghosts(st):
        st.ghost.setdefault('sp.held', z3.Const('sp.held0', A64_B))

    def rely(self, ex, st, a):
        V2 = fresh('spV', self.w)
        h = sel(st.ghost['sp.held'], a)
        st.assume(Imp(h, V2 == 1))
        st.assume(Or(V2 == 0, V2 == 1))
        self.put(st, a, V2)

    def write(self, ex, st, a, old, new, ok):
        h = sel(st.ghost['sp.held'], a)
        ex.oblige(st, 'guarantee: the spin word goes 0->1 to acquire and 1->0 only by the holder',
                  Or(new == old, And(old == 0, new == 1), And(old == 1, new == 0, h)), 'guarantee')
        st.ghost['sp.held'] = z3.Store(st.ghost['sp.held'], bv(a, 64), z3.If(And(old == 0, new == 1), True, z3.If(And(old == 1, new == 0), False, h)))
        self.put(st, a, new)


# ---------------------------------------------------------------- time
NSEC = 1000000000


def clk_ghosts(st):
    g = st.ghost
    g.setdefault('clk.s', z3.BitVec('clk.s0', 64))
    g.setdefault('clk.n', z3.BitVec('clk.n0', 64))
    g.setdefault('clk.fs', z3.BitVec('clk.fs0', 64))
    g.setdefault('clk.fn', z3.BitVec('clk.fn0', 64))
    g.setdefault('clk.cnt', z3.BitVecVal(0, 32))
    g.setdefault('clk.on', z3.BoolVal(False))
    g.setdefault('clk.fail', z3.BoolVal(False))


def norm_ts(s, n):
    return And(s >= 0, s < (1 << 40), n >= 0, n < NSEC)


def lex_le(s1, n1, s2, n2):
    return Or(s1 < s2, And(s1 == s2, n1 <= n2))


def elapsed_ge(s0, n0, s1, n1, ls, ln):
    """(s1,n1)-(s0,n0) >= (ls,ln), all normalised"""
    ds, dn = s1 - s0, n1 - n0
    ds2 = z3.If(dn < 0, ds - 1, ds)
    dn2 = z3.If(dn < 0, dn + NSEC, dn)
    return lex_le(ls, ln, ds2, dn2)


def m_clock_gettime(ex, st, args, ins):
    """trusted: returns -1, or a normalised monotone time"""
    clk_ghosts(st)
    s2 = st.copy()
    s2.ghost['clk.fail'] = z3.BoolVal(True)
    g = st.ghost
    s, n = fresh('now_s', 64), fresh('now_n', 64)
    st.assume(norm_ts(s, n))
    st.assume(lex_le(g['clk.s'], g['clk.n'], s, n))
    first = Not(g['clk.on'])
    g['clk.on'] = z3.BoolVal(True)
    g['clk.fs'] = z3.If(first, s, g['clk.fs'])
    g['clk.fn'] = z3.If(first, n, g['clk.fn'])
    g['clk.s'], g['clk.n'] = s, n
    g['clk.cnt'] = g['clk.cnt'] + 1
    ex.store(st, None, ('int', 64), s, args[1])
    ex.store(st, None, ('int', 64), n, ex.add(args[1], 8))
    ex.oblige(st, 'time is measured on the monotonic clock', bv(args[0], 32) == 1, 'post')
    return [(st, 0), (s2, mask(32))]


def m_sched_yield(ex, st, args, ins):
    """trusted: returns 0 or -1"""
    r = fresh('yield', 32)
    st.assume(Or(r == 0, r == -1))
    return r


def m_find_thread_process(ex, st, args, ins):
    """assumed contract: false only for a thread that no longer exists; the cache argument is only a cache"""
    r = fresh('alive', 1)
    idv = z3.Concat(bv(args[0], 32), bv(args[1], 32))
    st.assume(Imp(Not(r), dead(idv)))
    return r


BASE_MODELS = {'clock_gettime': m_clock_gettime, 'sched_yield': m_sched_yield}
