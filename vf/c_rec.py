"""Contracts of the file-lock records: lock, unlock, query, recovery, with the internal lock as monitor.

The lists and the unit contents guarded by an internal lock are known only while it is held: taking it forgets
everything about them (any history of other threads and processes) except the monitor invariant and what the
rely gives for this thread's own records; releasing it must re-establish the invariant (obligations, for an
arbitrary unit of each kind).  Invariant: the lists are well formed, no unit is outside every list, free units are
empty and unprotected, no protect flag is set, one file entry per file, and this thread's holds on the lock word
equal its locked records.
"""
import z3
from .symex import *
from .regions import *
from .contract import Contract, FnContract
from .c_prim import EINVAL, ENOLCK, EBUSY, ETIMEDOUT, EPERM
from .c_unit import FA, fld, G, sym, errno_setup, m_errno
from .c_shm import B, gv, i32, SZ
from .c_list import *
from . import irparse as ir

S, St = z3.Select, z3.Store
GROUP = {'locker': 'file', 'off': 'file', 'file': 'file', 'nmtx': 'nmtx', 'ncond': 'ncond', 'waiter': 'ncond'}
LOCKID = {3: 'file', 5: 'nmtx', 7: 'ncond'}
FREE = {'locker': ('fl_header', 11), 'off': ('fl_header', 10), 'file': ('fl_header', 9), 'nmtx': ('fl_header', 12), 'ncond': ('fl_header', 13), 'waiter': ('fl_header', 14)}
DATA = {'locker': {1: 'pid', 2: 'fd', 3: 'locked'}, 'off': {2: 'offset', 3: 'length', 6: 'protect'}, 'file': {1: 'dev', 2: 'ino', 4: 'protect'}}
RD, WR, UN = 1, 2, 0
ME = ME
J0 = z3.Function('owner_or_descriptor_gone_before_the_pass', BV64, z3.BitVecSort(32), BV64, BV64, z3.BoolSort())
J1 = z3.Function('owner_or_descriptor_gone', BV64, z3.BitVecSort(32), BV64, BV64, z3.BoolSort())
EACC = mask(64)


def code(h):
    return z3.Extract(71, 64, h)


def hbase(h):
    return z3.Extract(63, 0, h)


def is_list(h, tag):
    return code(h) == HEADCODE[tag]


# ---------------------------------------------------------------- shared words
class Shared(Region):
    """a word guarded by an internal lock"""

    def __init__(self, tag, w, kind, role):
        Region.__init__(self, tag, w)
        self.kind, self.role = kind, role      # kind: unit kind the word belongs to (for heads: kind of the listed units)
        self.group = GROUP[kind]
        self.off = None

    def unit(self, ex, addr):
        return simp(bv(addr, 64) - fld(ex, self.tag[0], self.tag[1])[0])

    def load(self, ex, st, addr):
        if not st.ghost['held.' + self.group]:
            if self.role == 'data' and self.kind == 'locker' and ex.provable(st, mine(ex, st, self.unit(ex, addr))):
                return self.get(st, addr)
            v = fresh('racy', self.w)
            return v
        v = self.get(st, addr)
        if self.role == 'head':
            inst_head(ex, st, self.tag, addr)
            if self.tag[0] == 'fl_offset_lock':
                st.ghost['_wit'] = self.unit(ex, addr)
                if 'wit' in st.ghost:
                    st.ghost['wit'] = z3.If(ex.wit_hit(st, st.ghost['wit']), st.ghost['wit'], bv(self.unit(ex, addr), 64))
        elif self.role == 'next':
            inst_node(ex, st, self.kind, bv(addr, 64))
        elif self.role == 'data':
            unit_facts(ex, st, self.kind, self.unit(ex, addr))
        return v

    def store(self, ex, st, addr, v):
        u = self.unit(ex, addr)
        heldv = st.ghost['held.' + self.group]
        if self.role == 'head':
            H = hid(ex, addr)
            ex.oblige(st, 'a list head is written directly only to empty a list that has no unit left', And(bv(v, 64) == 0, Or(bv(self.get(st, addr), 64) == 0, And(heldv, *[S(own(st, self.kind), b) != H for b in terms(ex, self.kind)]))), 'guarantee')
            self.put(st, addr, v)
            st.ghost['dis'] = z3.If(st.ghost['dis'] == H, NOHEAD, st.ghost['dis'])
            return
        ow = S(own(st, self.kind), u)
        if self.role == 'next':
            ex.oblige(st, 'the link of a unit is written directly only while the unit is in no list', ow == NOHEAD, 'guarantee')
        elif self.role == 'locked':
            pass
        elif DATA[self.kind].get(self.tag[1]) == 'protect':
            ex.oblige(st, 'a protect flag is written only under the internal lock, and set only on a unit in use', Or(ow == NOHEAD, And(heldv, Imp(ow == free_list(ex, st, self.kind), (bv(self.norm(v), 8) & 1) == 0))), 'guarantee')
        elif DATA[self.kind].get(self.tag[1]) == 'locked':
            nv = bv(self.norm(v), 8) & 1
            ov = bv(self.get(st, addr), 8) & 1
            ex.oblige(st, 'the state of a record is written only by its owner or while the record is in no list', Or(ow == NOHEAD, mine(ex, st, u), nv == ov), 'guarantee')
            add_bal(st, hbase(ow), z3.If(is_listed(ow), z3.ZeroExt(24, ov) - z3.ZeroExt(24, nv), z3.BitVecVal(0, 32)))
        else:
            ex.oblige(st, 'the contents of a unit are written only while it is in no list', ow == NOHEAD, 'guarantee')
        self.put(st, addr, v)

    def cas(self, ex, st, addr, c, n):
        raise Unsupported('direct atomic operation on a guarded word')

    def rmw(self, ex, st, addr, f):
        raise Unsupported('direct atomic operation on a guarded word')


class LockWord(Region):
    """the lock word of an entry: written directly only while the entry is in no list (nothing holds it)"""

    def load(self, ex, st, addr):
        raise Unsupported('lock word read directly')

    def store(self, ex, st, addr, v):
        u = simp(bv(addr, 64) - fld(ex, self.tag[0], self.tag[1])[0])
        ex.oblige(st, 'a lock word is set directly only to free, on an entry in no list', And(S(own(st, 'off'), u) == NOHEAD, bv(v, 32) == 0), 'guarantee')


def is_listed(ow):
    return Or(is_list(ow, ('fl_offset_lock', 4)), is_list(ow, ('fl_offset_lock', 5)))


def ensure(ex):
    for k, (s, heads) in KINDS.items():
        if k not in DATA and k not in getattr(ex, 'more_kinds', ()):
            continue
        ex.region_of.setdefault((s, 0), Shared((s, 0), 64, k, 'next'))
        for h in heads:
            ex.region_of.setdefault(h, Shared(h, 64, k, 'head'))
        for i in DATA.get(k, {}):
            ex.region_of.setdefault((s, i), Shared((s, i), fld(ex, s, i)[1], k, 'data'))


def A(ex, st, tag):
    return ex.region_of[tag].arr(st)


def D(ex, st, kind, i, u):
    """contents of unit u"""
    s = KINDS[kind][0]
    return S(A(ex, st, (s, i)), simp(bv(u, 64) + fld(ex, s, i)[0]))


def headw(ex, st, tag, u):
    return S(A(ex, st, tag), simp(bv(u, 64) + fld(ex, tag[0], tag[1])[0]))


def terms(ex, kind):
    return ex.watch.get(kind, [])


def hdr(ex, st):
    return G(ex, st, 'FlShm::pFlHead', 8)


def free_list(ex, st, kind):
    return hid_of(ex, FREE[kind][0], FREE[kind][1], hdr(ex, st))


def file_list(ex, st):
    return hid_of(ex, 'fl_header', 4, hdr(ex, st))


def mine(ex, st, u):
    return And(is_listed(S(own(st, 'locker'), u)), D(ex, st, 'locker', 1, u) == ME)


def pending(ex, st, u):
    return And(mine(ex, st, u), D(ex, st, 'locker', 3, u) & 1 == 0)


def in_use(ex, st, e):
    """an offset entry with records or protection"""
    return Or(headw(ex, st, ('fl_offset_lock', 4), e) != 0, headw(ex, st, ('fl_offset_lock', 5), e) != 0, D(ex, st, 'off', 6, e) & 1 == 1)


# ---------------------------------------------------------------- instances of the invariants
def unit_facts(ex, st, kind, u):
    if getattr(ex, 'unit_hook', None) is not None:
        return ex.unit_hook(ex, st, kind, u)
    fr = free_list(ex, st, kind)
    o = S(own(st, kind), u)
    if kind == 'off':
        st.assume(Imp(o == fr, And(Not(in_use(ex, st, u)))))
        st.assume(Imp(o != NOHEAD, Or(o == fr, is_list(o, ('fl_file_lock', 3)))))
        st.assume(Imp(is_list(o, ('fl_file_lock', 3)), S(own(st, 'file'), hbase(o)) == file_list(ex, st)))
        for x in node_terms(ex, 'locker', st):
            for t in (RD4, WR4):
                Hx = hid_of(ex, t[0], t[1], u)
                st.assume(Imp(And(o != NOHEAD, st.ghost['dis'] != Hx, headw(ex, st, t, u) == 0), S(own(st, 'locker'), x) != Hx))
        for f in getattr(ex, 'off_facts', ()):
            f(st, u)
        if ex.disjoint:
            q = lambda v: (D(ex, st, 'off', 2, v), D(ex, st, 'off', 3, v))
            for b in terms(ex, 'off'):
                if not z3.is_expr(u) or not u.eq(b):
                    st.assume(Imp(And(is_list(o, FL3), S(own(st, 'off'), b) == o, q(b)[0] == ex.Q[0], q(b)[1] == ex.Q[1], cmpoff(ex, st, ex.Q, q(u))), bv(u, 64) == b))
    elif kind == 'file':
        st.assume(Imp(o == fr, And(headw(ex, st, ('fl_file_lock', 3), u) == 0, D(ex, st, 'file', 4, u) & 1 == 0)))
        st.assume(Imp(o != NOHEAD, Or(o == fr, o == file_list(ex, st))))
        fl = file_list(ex, st)
        for b in terms(ex, 'file'):
            st.assume(Imp(And(o == fl, S(own(st, 'file'), b) == fl, D(ex, st, 'file', 1, u) == D(ex, st, 'file', 1, b), D(ex, st, 'file', 2, u) == D(ex, st, 'file', 2, b)), bv(u, 64) == b))
    elif kind == 'locker':
        st.assume(Imp(o != NOHEAD, Or(o == fr, is_listed(o))))
        # a listed record belongs to an entry in use
        e = hbase(o)
        eo = S(own(st, 'off'), e)
        st.assume(Imp(is_listed(o), is_list(eo, ('fl_file_lock', 3))))
        for acq in st.ghost.get('_acq') or ():
            own_rel(ex, st, acq, u)
        for f in ex.entry_facts:
            f(st, u)


def inst_head(ex, st, tag, addr, more=()):
    kind = HEADKIND[tag]
    H = hid(ex, addr)
    N = A(ex, st, tag)
    k = simp(S(N, addr) + shmbase(ex, st))
    for b in list(terms(ex, kind)) + list(more):
        st.assume(Imp(st.ghost['dis'] != H, inv_head(ex, st, kind, N, own(st, kind), pos(st, kind), addr, H, b)))
    if not terms(ex, kind) and not more:
        st.assume(Imp(st.ghost['dis'] != H, Imp(S(N, addr) != 0, And(S(own(st, kind), k) == H, valid(ex, st, k)))))
    if not ex.noinst:
        unit_facts(ex, st, kind, k)


def inst_node(ex, st, kind, m):
    s = KINDS[kind][0]
    N = A(ex, st, (s, 0))
    k = simp(S(N, m) + shmbase(ex, st))
    for b in terms(ex, kind) or [m]:
        st.assume(inv_node(ex, st, kind, N, own(st, kind), pos(st, kind), m, b))
    unit_facts(ex, st, kind, k)


def own_rel_conds(ex, o, n, u):
    """what stays the same of a record of this thread, its entry and its file, from snapshot o to n"""
    ls, os_, fs = 'fl_locker', 'fl_offset_lock', 'fl_file_lock'

    def at(a, t, x):
        return S(a[t], simp(bv(x, 64) + fld(ex, t[0], t[1])[0]))

    def mn(a):
        return And(is_listed(S(a['own.locker'], u)), at(a, (ls, 1), u) == ME)
    e = hbase(S(o['own.locker'], u))
    f = hbase(S(o['own.off'], e))
    return [mn(o) == mn(n),
            Imp(mn(o), And(S(o['own.locker'], u) == S(n['own.locker'], u), *[at(o, (ls, i), u) == at(n, (ls, i), u) for i in (2, 3)])),
            Imp(mn(o), And(S(o['own.off'], e) == S(n['own.off'], e), *[at(o, (os_, i), e) == at(n, (os_, i), e) for i in (2, 3)])),
            Imp(mn(o), And(S(o['own.file'], f) == S(n['own.file'], f), *[at(o, (fs, i), f) == at(n, (fs, i), f) for i in (1, 2)]))]


def own_rel(ex, st, acq, u):
    """rely: while this thread did not hold the internal lock, nobody touched its records, their entry or their file"""
    o, n, cond = acq[:3]
    g = Or(cond(u), And(is_listed(S(n['own.locker'], u)), S(n[('fl_locker', 1)], simp(bv(u, 64) + fld(ex, 'fl_locker', 1)[0])) == ME)) if cond else True
    if len(acq) > 3:
        g = And(Not(acq[3](bv(u, 64))), g)
    for c in own_rel_conds(ex, o, n, u):
        st.assume(Imp(g, c))


def snapshot(ex, st):
    d = {}
    for k in DATA:
        d['own.' + k] = own(st, k)
        for i in DATA[k]:
            t = (KINDS[k][0], i)
            d[t] = A(ex, st, t)
    return d


def forget(ex, st, group='file'):
    """taking the internal lock"""
    old = snapshot(ex, st)
    for k in KINDS:
        if GROUP[k] != group or ('own.' + k) not in st.ghost:
            continue
        s, heads = KINDS[k]
        st.ghost['own.' + k] = fresh('own.' + k, OWNS)
        st.ghost['pos.' + k] = fresh('pos.' + k, POSS)
        for t in [(s, 0)] + list(heads) + [(s, i) for i in DATA.get(k, {})]:
            st.mem[t] = fresh('M_%s_%d' % t, ex.region_of[t].init().sort())
    monitor_protect(ex, st)
    new = snapshot(ex, st)
    st.ghost['_acq'] = tuple(st.ghost['_acq'] or ()) + ((old, new, None),)
    assume_watch(ex, st)
    for f in ex.on_acquire:
        f(st)


def monitor_protect(ex, st, off=None, file=None):
    z = z3.K(BV64, z3.BitVecVal(0, 8))
    st.mem[('fl_offset_lock', 6)] = z if off is None else St(z, FA(ex, off, 'fl_offset_lock', 6), fresh('protect', 8))
    st.mem[('fl_file_lock', 4)] = z if file is None else St(z, FA(ex, file, 'fl_file_lock', 4), fresh('protect', 8))


def assume_watch(ex, st):
    for k in DATA:
        for b in terms(ex, k):
            st.assume(S(own(st, k), b) != NOHEAD)
            unit_facts(ex, st, k, b)
    if 'new' in st.ghost:
        unit_facts(ex, st, 'locker', st.ghost['new'])


def monitor(ex, st, off=None, file=None, lists=True):
    """the invariant, for an arbitrary unit of each kind (off, file: the entry whose protect flag may be set)"""
    out = []
    for k in DATA:
        for b in terms(ex, k):
            out.append(('every unit is in a list', S(own(st, k), b) != NOHEAD))
    for b in terms(ex, 'off'):
        p = D(ex, st, 'off', 6, b) & 1 == 0
        out.append(('no entry stays protected', p if off is None else Or(b == off, p)))
        out.append(('the holds on the lock word equal the locked records', S(st.ghost['bal'], b) == 0))
        for x in terms(ex, 'locker'):
            out.append(('a record is never left in an entry that is free', Imp(And(is_listed(S(own(st, 'locker'), x)), hbase(S(own(st, 'locker'), x)) == b), is_list(S(own(st, 'off'), b), ('fl_file_lock', 3)))))
        for f in terms(ex, 'file'):
            out.append(('an entry is never left in a file entry that is free', Imp(S(own(st, 'off'), b) == hid_of(ex, 'fl_file_lock', 3, f), S(own(st, 'file'), f) == file_list(ex, st))))
    for b in terms(ex, 'file'):
        p = D(ex, st, 'file', 4, b) & 1 == 0
        out.append(('no file entry stays protected', p if file is None else Or(b == file, p)))
        for c in terms(ex, 'file'):
            if c is not b:
                fl = file_list(ex, st)
                out.append(('one entry per file', Imp(And(S(own(st, 'file'), b) == fl, S(own(st, 'file'), c) == fl, D(ex, st, 'file', 1, b) == D(ex, st, 'file', 1, c), D(ex, st, 'file', 2, b) == D(ex, st, 'file', 2, c)), b == c)))
    out.append(('no list is left half taken apart', st.ghost['dis'] == NOHEAD))
    return out


def add_bal(st, e, d):
    b = st.ghost['bal']
    st.ghost['bal'] = St(b, bv(e, 64), S(b, bv(e, 64)) + d)


# ---------------------------------------------------------------- models
def group_of(ex, addr):
    t = ex.tag_of(addr) if not isc(addr) else None
    if t is None or t[0] != 'fl_header' or t[1] not in LOCKID:
        raise Unsupported('internal lock of unknown kind')
    return LOCKID[t[1]]


def m_lock_id(ex, st, args, ins):
    """contract of the internal lock (verified under P08): holds it when it returns"""
    g = group_of(ex, args[0])
    ex.oblige(st, 'the internal lock is taken for this thread, and not twice', And(bv(args[1], 64) == ME, not st.ghost['held.' + g]), 'monitor')
    st.ghost['held.' + g] = True
    forget(ex, st, g)
    return None


def m_unlock_id(ex, st, args, ins):
    """contract of the internal unlock (verified under P08): free, or not this thread's, when it returns"""
    g = group_of(ex, args[0])
    ex.oblige(st, 'the internal lock is released by the thread that holds it', And(bv(args[1], 64) == ME, st.ghost['held.' + g]), 'monitor')
    for l, c in monitor(ex, st):
        ex.oblige(st, 'at release: ' + l, c, 'monitor')
    for f in ex.on_release:
        f(st)
    st.ghost['held.' + g] = False
    return None


def entry_of(ex, st, addr):
    t = ex.tag_of(addr) if not isc(addr) else None
    if t != ('fl_offset_lock', 1):
        raise Unsupported('lock word of unknown kind')
    return simp(bv(addr, 64) - fld(ex, 'fl_offset_lock', 1)[0])


def m_rw(kind, how):
    def f(ex, st, args, ins):
        """contract of the reader/writer primitive (verified under P01, P04)"""
        e = entry_of(ex, st, args[0])
        ex.oblige(st, 'waiting for a lock word never happens inside the internal lock', Or(not st.ghost['held.file'], how == 'try'), 'post')
        ex.oblige(st, 'the lock word waited for is the one of this entry', e == ex.E, 'post')
        ex.oblige(st, 'a read request takes a read hold, a write request a write hold', (ex.ltype == RD) if kind == 'r' else (ex.ltype != RD), 'post')
        to = ex.timeout_arg
        if how == 'try':
            ex.oblige(st, 'a try request, and only it, does not wait', to == 0, 'post')
        elif how == 'timed':
            s, n = bv(ex.load(st, None, ('int', 64), args[1]), 64), bv(ex.load(st, None, ('int', 64), ex.add(args[1], 8)), 64)
            ex.oblige(st, 'a timed request waits for the time given', And(to != 0, to != -1, s == ex.to_sec, n == ex.to_usec * 1000), 'post')
        else:
            ex.oblige(st, 'a request without timeout waits without end', to == -1, 'post')
        ex.oblige(st, 'a request that was told busy or timed out does not try again', Or(to == -1, st.ghost['gaveup'] == 0), 'post')
        s2 = st.copy()
        s2.ghost['gaveup'] = s2.ghost['gaveup'] + 1
        add_bal(st, e, z3.BitVecVal(1, 32))
        st.ghost['acq.' + kind] = st.ghost['acq.' + kind] + 1
        r = fresh('rw', 32)
        s2.assume({'try': r == EBUSY, 'timed': Or(r == EBUSY, r == ETIMEDOUT), 'wait': r == ETIMEDOUT}[how])
        return [(st, 0), (s2, r)]
    return f


def m_rw_unlock(ex, st, args, ins):
    """contract of the reader/writer release (verified under P01): gives back one hold"""
    e = entry_of(ex, st, args[0])
    ex.oblige(st, 'holds are given back under the internal lock', st.ghost['held.file'], 'post')
    if ex.E is not None:
        ex.oblige(st, 'the hold given back is one of this entry', e == ex.E, 'post')
    add_bal(st, e, z3.BitVecVal(mask(32), 32))
    st.ghost['rel'] = st.ghost['rel'] + 1
    return 0


def m_devnode(ex, st, args, ins):
    """contract of the descriptor facts (verified under P11)"""
    pid, fd = z3.Concat(bv(args[0], 32), bv(args[1], 32)), bv(args[2], 32)
    d, i = fresh('dev', 64), fresh('ino', 64)
    r = fresh('found', 1)
    st.ghost['dn'] = (r, d, i, pid, fd)
    for p, v in ((args[3], d), (args[4], i)):
        ex.store(st, None, ('int', 64), z3.If(r, v, z3.BitVecVal(0, 64)), p)
    return r


RECM = {'fullock::fl_lock_lockid': m_lock_id, 'fullock::fl_unlock_lockid': m_unlock_id,
        'fullock::fl_rdlock_rwlock': m_rw('r', 'wait'), 'fullock::fl_wrlock_rwlock': m_rw('w', 'wait'),
        'fullock::fl_tryrdlock_rwlock': m_rw('r', 'try'), 'fullock::fl_trywrlock_rwlock': m_rw('w', 'try'),
        'fullock::fl_timedrdlock_rwlock': m_rw('r', 'timed'), 'fullock::fl_timedwrlock_rwlock': m_rw('w', 'timed'),
        'fullock::fl_unlock_rwlock': m_rw_unlock, 'get_flckpid': lambda ex, st, a, i: ME,
        'GetFileDevNode(int, int, int, unsigned long&, unsigned long&, std::map<fl_pid_cache_key, fl_pid_cache_value, std::less<fl_pid_cache_key>, std::allocator<std::pair<fl_pid_cache_key const, fl_pid_cache_value> > >*)': m_devnode,
        '__errno_location': m_errno}


def fallback(dem):
    if dem.startswith('std::map<fl_pid_cache_key') and ('::map(' in dem or '::~map(' in dem):
        def f(ex, st, args, ins):
            """trusted: construction and destruction of the cache"""
            return None
        return f
    return None


# ---------------------------------------------------------------- list operations at their call sites
def node_terms(ex, kind, st=None):
    W = list(terms(ex, kind))
    if kind == 'locker' and st is not None and z3.is_bv(st.ghost.get('new')) and not z3.is_bv_value(st.ghost['new']):
        W.append(st.ghost['new'])
    return W


def op_apply(self, ex, st, args, ins):
    kind, op, struct = self.kind, self.op, self.struct
    if op == 'rfind' and getattr(ex, 'rfind_waiter', None) is not None:
        return ex.rfind_waiter(ex, st, args, ins)
    this = args[0]
    h = args[-1]
    H = hid(ex, h)
    tg = ex.tag_of(h)
    g = GROUP[kind]
    if HEADKIND[tg] != kind:
        raise Unsupported('list of another kind')
    ex.oblige(st, 'lists are used only under their internal lock', st.ghost['held.' + g], 'monitor')
    n = bv(ex.load_local(st, this + 8, 8, 64), 64)
    ow, ps = own(st, kind), pos(st, kind)
    W = node_terms(ex, kind, st)
    HN, NN = tg, (struct, 0)

    def relink(s):
        s.mem[HN] = St(A(ex, s, HN), bv(h, 64), fresh('top', 64))
        s.mem[NN] = fresh('M_%s_next' % kind, A(ex, s, NN).sort())

    def setcur(s, v):
        ex.store_local(s, this + 8, 8, v)

    if op == 'retrieve':
        inst_head(ex, st, tg, h)
        top = S(A(ex, st, tg), bv(h, 64))
        s2 = st.copy()
        s2.assume(top == 0)
        st.assume(top != 0)
        k = simp(top + shmbase(ex, st))
        out = []
        if ex.feasible(st):
            unit_facts(ex, st, kind, k)
            unlink(ex, st, kind, k, H)
            relink(st)
            setcur(st, k)
            out.append((st, True))
        if ex.feasible(s2):
            s2.ghost['dry'] = True
            out.append((s2, False))
        return out
    if op == 'insert':
        out = []
        s2 = st.copy()
        s2.assume(n == 0)
        if ex.feasible(s2):
            out.append((s2, False))
        st.assume(n != 0)
        if not ex.feasible(st):
            return out
        o = S(ow, n)
        if not ex.provable(st, o == NOHEAD):
            # a unit handed over while its old list is taken apart from the front
            ex.oblige(st, 'requires of insert_list: the unit is in no list, or is the first of a list being taken apart', And(o != NOHEAD, o != H, Or(st.ghost['dis'] == NOHEAD, st.ghost['dis'] == o), *[Imp(S(ow, b) == o, S(ps, b) >= S(ps, n)) for b in W]), 'pre')
            st.ghost['dis'] = o
            unlink(ex, st, kind, n, o)
        else:
            ex.oblige(st, 'requires of insert_list: a valid unit', valid(ex, st, n), 'pre')
        link(ex, st, kind, n, H)
        relink(st)
        out.append((st, True))
        return out
    if op == 'cutoff':
        out = []
        inl = And(n != 0, S(ow, n) == H)
        ex.oblige(st, 'requires of cutoff_list: the unit is in some list', Or(n == 0, S(ow, n) != NOHEAD), 'pre')
        s2 = st.copy()
        s2.assume(Not(inl))
        if ex.feasible(s2):
            out.append((s2, False))
        st.assume(inl)
        if ex.feasible(st):
            unit_facts(ex, st, kind, n)
            unlink(ex, st, kind, n, H)
            relink(st)
            out.append((st, True))
        return out
    # find / rfind
    pb = args[1]
    s2 = st.copy()
    for b in W:
        s2.assume(Imp(S(own(s2, kind), b) == H, Not(match(ex, s2, kind, pb, b, True))))
    f = fresh('found_' + kind, 64)
    ex.set_tag(f, (struct,))
    st.assume(And(S(ow, f) == H, valid(ex, st, f), match(ex, st, kind, pb, f, True)))
    for b in W:
        st.assume(inv_node(ex, st, kind, A(ex, st, NN), ow, ps, f, b))
        other = S(ps, b) < S(ps, f) if op == 'find' else S(ps, b) > S(ps, f)
        st.assume(Imp(And(S(ow, b) == H, other), Not(match(ex, st, kind, pb, b, True))))
    unit_facts(ex, st, kind, f)
    out = []
    if ex.feasible(st):
        setcur(st, f)
        out.append((st, True))
    if ex.feasible(s2):
        out.append((s2, False))
    return out


def unlink(ex, st, kind, n, H):
    """a unit leaves the list H: what must hold then"""
    if getattr(ex, 'on_unlink', None) is not None:
        ex.on_unlink(ex, st, kind, n, H)
    fr = free_list(ex, st, kind)
    if kind == 'locker':
        lk = z3.ZeroExt(24, D(ex, st, 'locker', 3, n) & 1)
        listed = is_listed(H)
        ex.oblige(st, 'a record leaves an entry only by its own thread, or when its owner or descriptor is gone', Imp(listed, Or(D(ex, st, 'locker', 1, n) == ME, S(st.ghost['judged'], n))), 'guarantee')
        add_bal(st, hbase(H), z3.If(listed, lk, z3.BitVecVal(0, 32)))
        if 'ncut' in st.ghost:
            st.ghost['cut'] = bv(simp(z3.If(listed, n, st.ghost['cut'])), 64)
            st.ghost['ncut'] = bv(simp(st.ghost['ncut'] + z3.If(listed, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))), 32)
            st.ghost['new'] = bv(simp(z3.If(listed, st.ghost['new'], n)), 64)
    elif kind == 'off':
        st.ghost['_wit'] = None
        ex.oblige(st, 'an entry leaves its file entry only when nothing is recorded in it', Imp(H != fr, Not(in_use(ex, st, n))), 'guarantee')
        if 'newO' in st.ghost:
            st.ghost['newO'] = z3.If(H == fr, n, st.ghost['newO'])
    elif kind == 'file':
        fh = headw(ex, st, ('fl_file_lock', 3), n)
        HN = hid_of(ex, 'fl_file_lock', 3, n)
        ex.oblige(st, 'a file entry leaves the list only when no entry belongs to it, and unprotected', Imp(H != fr, And(D(ex, st, 'file', 4, n) & 1 == 0, *[S(own(st, 'off'), b) != HN for b in terms(ex, 'off')])), 'guarantee')
        # no unit belongs to the list (shown for an arbitrary one): the list is empty
        st.assume(Imp(H != fr, fh == 0))
    st.ghost['own.' + kind] = St(own(st, kind), n, NOHEAD)


def link(ex, st, kind, n, H):
    fr = free_list(ex, st, kind)
    if getattr(ex, 'on_link', None) is not None:
        ex.on_link(ex, st, kind, n, H)
    for g in ex.no_growth:
        ex.oblige(st, 'nothing is added to the list worked on', H != g, 'guarantee')
    if kind == 'locker':
        lk = z3.ZeroExt(24, D(ex, st, 'locker', 3, n) & 1)
        e = hbase(H)
        ex.oblige(st, 'a record is put only into an entry in use, under its own thread', Imp(H != fr, And(is_listed(H), D(ex, st, 'locker', 1, n) == ME, is_list(S(own(st, 'off'), e), ('fl_file_lock', 3)))), 'guarantee')
        add_bal(st, e, z3.If(H != fr, -lk, z3.BitVecVal(0, 32)))
    elif kind == 'off':
        q = lambda u: (D(ex, st, 'off', 2, u), D(ex, st, 'off', 3, u))
        ex.oblige(st, 'an entry is made only where it overlaps no entry of the file', Imp(H != fr, And(*[Imp(S(own(st, 'off'), b) == H, Not(cmpoff(ex, st, q(n), q(b)))) for b in terms(ex, 'off')])), 'guarantee')
        ex.oblige(st, 'an entry starts, and becomes free, empty', And(headw(ex, st, ('fl_offset_lock', 4), n) == 0, headw(ex, st, ('fl_offset_lock', 5), n) == 0, Imp(H == fr, D(ex, st, 'off', 6, n) & 1 == 0)), 'guarantee')
        ex.oblige(st, 'an entry is put only into a file entry in use', Imp(H != fr, And(is_list(H, ('fl_file_lock', 3)), S(own(st, 'file'), hbase(H)) == file_list(ex, st))), 'guarantee')
    elif kind == 'file':
        ex.oblige(st, 'a file entry starts, and becomes free, empty', And(headw(ex, st, ('fl_file_lock', 3), n) == 0, Imp(H == fr, D(ex, st, 'file', 4, n) & 1 == 0)), 'guarantee')
        ex.oblige(st, 'a file entry is made only for a file that has none', Imp(H != fr, And(*[Imp(S(own(st, 'file'), b) == H, Not(And(D(ex, st, 'file', 1, b) == D(ex, st, 'file', 1, n), D(ex, st, 'file', 2, b) == D(ex, st, 'file', 2, n)))) for b in terms(ex, 'file')])), 'guarantee')
    w = fresh('pos', z3.IntSort())
    for b in terms(ex, kind):
        st.assume(Imp(And(S(own(st, kind), b) == H, b != n), w < S(pos(st, kind), b)))
    st.ghost['own.' + kind] = St(own(st, kind), n, H)
    st.ghost['pos.' + kind] = St(pos(st, kind), n, w)


ListOp.apply = op_apply
LISTOPS = ['fullock::fl_list_base<%s>::%s' % (KINDS[k][0], o) for k in KINDS for o in ('insert_list', 'retrieve_list', 'cutoff_list', 'find', 'rfind')]


# ---------------------------------------------------------------- setting
def rec_setup(ex, st, held=True, off=None, file=None):
    errno_setup(ex, st)
    for k in DATA:
        list_ghosts(st, k)
    ex.noinst = False
    ex.entry_facts = []
    ex.off_facts = []
    ex.no_growth = []
    ex.on_acquire = []
    ex.on_release = []
    ex.disjoint = False
    ex.region_of.setdefault(('fl_offset_lock', 1), LockWord(('fl_offset_lock', 1), 32))
    ensure(ex)
    base, h = B('shm.base', 64), B('header', 64)
    ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, base)
    ex.store_local(st, sym(ex, 'FlShm::pFlHead'), 8, h)
    st.assume(And(base != 0, h != 0, z3.ULE(G(ex, st, 'FlShm::RobustMode', 4), 2), z3.ULE(G(ex, st, 'FlShm::FreeUnitMode', 4), 2)))
    st.assume(ME != 0)
    g = st.ghost
    g['held.file'] = held
    g['dis'] = NOHEAD
    g['bal'] = z3.K(BV64, z3.BitVecVal(0, 32))
    g['judged'] = z3.K(BV64, z3.BoolVal(False))
    g['acq.r'] = g['acq.w'] = g['rel'] = g['gaveup'] = z3.BitVecVal(0, 32)
    g['cut'] = g['new'] = z3.BitVecVal(0, 64)
    g['newO'] = z3.BitVecVal(0, 64)
    g['ncut'] = z3.BitVecVal(0, 32)
    g['dn'] = None
    g['dry'] = False
    g['_wit'] = None
    g['_served'] = None
    g['_acq'] = None
    ex.watch = {'locker': [B('any_record', 64)], 'off': [B('any_entry', 64)], 'file': [B('any_file', 64), B('any_other_file', 64)]}
    ex.E = None
    monitor_protect(ex, st, off, file)
    assume_watch(ex, st)


def obj(ex, st, struct, name):
    """an object of a list class standing for a unit"""
    o = ex.alloc(st, 16, 'this')
    u = B(name, 64)
    ex.set_tag(u, (struct,))
    st.assume(valid(ex, st, u))
    ex.store_local(st, o + 8, 8, u)
    return o, u


GHOSTS = ['own.locker', 'own.off', 'own.file', 'pos.locker', 'pos.off', 'pos.file', 'bal', 'judged', 'dis', 'acq.r', 'acq.w', 'rel', 'gaveup', 'cut', 'new', 'ncut', 'newO', 'dn', 'held.file', '_acq', 'dry', '_wit', '_served']


def allmem():
    out = []
    for k in DATA:
        s, heads = KINDS[k]
        out += [('memall', (s, 0))] + [('memall', h) for h in heads] + [('memall', (s, i)) for i in DATA[k]]
    return out


def rec_mod(*cells):
    def f(ex, st, a):
        return [('ghost', g) for g in GHOSTS] + allmem() + [('cell', ex.errno_addr, 4)]
    return f


def flag_items(ex, head, mods, depth):
    """the truth values a loop carries: [(name, fn(s) -> condition)], each with its negation"""
    out = []
    for it in mods:
        if it[0] not in ('phi', 'cell'):
            continue
        v = ex.get_item(head, it, depth)
        if v is None or isinstance(v, tuple) or isc(v):
            continue
        if z3.is_bool(v):
            f = lambda s, it=it: bl(ex.get_item(s, it, depth))
        elif z3.is_bv(v) and v.size() in (1, 8):
            f = lambda s, it=it, w=v.size(): bv(ex.get_item(s, it, depth), w) & 1 == 1
        else:
            continue
        out += [('%s' % (it,), f), ('not %s' % (it,), lambda s, f=f: Not(f(s)))]
    return out


def walk_cands(ex, head, entry, mods, depth, kind, Hs, visited):
    """candidate invariants of a walk over a list of the kind; visited: [(name, fn(s, b) -> fact of a unit already passed)]"""
    out = []
    it64 = []
    visited = visited + [('%s, or %s' % (vn, fl), lambda s, b, fn=fn, ff=ff: Or(ff(s), fn(s, b))) for vn, fn in visited for fl, ff in flag_items(ex, head, mods, depth)]
    for it in mods:
        if it[0] not in ('phi', 'cell'):
            continue
        v = ex.get_item(head, it, depth)
        e = ex.get_item(entry, it, depth)
        if v is None or isinstance(v, tuple) or isc(v):
            continue
        if z3.is_bv(v) and v.size() == 64:
            it64.append(it)
        if isc(e):
            out.append(('%s stays' % (it,), lambda s, it=it, e=e, v=v: eqv(ex.get_item(s, it, depth), e) if not z3.is_bool(v) else bl(ex.get_item(s, it, depth)) == bool(e)))

    def gi(s, it):
        return bv(ex.get_item(s, it, depth), 64)

    def ol(s):
        return own(s, kind)

    def ol_pos(s):
        return pos(s, kind)
    for hn, H in Hs:
        for it in it64:
            nm = '%s in %s' % (it, hn)
            out.append((nm, lambda s, it=it, H=H: Or(gi(s, it) == 0, And(S(ol(s), gi(s, it)) == H, valid(ex, s, gi(s, it))))))
            for b in terms(ex, kind):
                def before(s, it=it, b=b, H=H):
                    return And(S(ol(s), b) == H, Or(gi(s, it) == 0, S(ol_pos(s), b) < S(ol_pos(s), gi(s, it))))
                for vn, fn in visited:
                    out.append((nm + ' passed: ' + vn, lambda s, bf=before, fn=fn, b=b: Imp(bf(s), fn(s, b))))
                out.append((nm + ' is first', lambda s, it=it, b=b, H=H: Imp(S(ol(s), b) == H, And(gi(s, it) != 0, S(ol_pos(s), b) >= S(ol_pos(s), gi(s, it))))))
                for it2 in it64:
                    if it2 is it:
                        continue
                    out.append((nm + ' next of %s' % (it2,), lambda s, it=it, it2=it2, b=b, H=H: Imp(S(ol(s), b) == H, Or(And(gi(s, it2) != 0, S(ol_pos(s), b) <= S(ol_pos(s), gi(s, it2))), And(gi(s, it) != 0, S(ol_pos(s), b) >= S(ol_pos(s), gi(s, it)))))))
            for it2 in it64:
                if it2 is not it:
                    out.append((nm + ' behind %s' % (it2,), lambda s, it=it, it2=it2: Imp(And(gi(s, it) != 0, gi(s, it2) != 0), S(ol_pos(s), gi(s, it2)) < S(ol_pos(s), gi(s, it)))))
    return out


# ---------------------------------------------------------------- contracts
def recs(ex, st, old=None):
    """record terms: an arbitrary record, and the one taken by this operation"""
    out = list(terms(ex, 'locker'))
    if old is not None and getattr(ex, 'applying', False) and 'new' in old.ghost:
        out.append(old.ghost['new'])
    return out


def gone0(ex, st, x, dev, ino):
    return J0(D(ex, st, 'locker', 1, x), bv(D(ex, st, 'locker', 2, x), 32), bv(dev, 64), bv(ino, 64))


def gone1(ex, st, x, dev, ino):
    return J1(D(ex, st, 'locker', 1, x), bv(D(ex, st, 'locker', 2, x), 32), bv(dev, 64), bv(ino, 64))


def excepted(ex, st, x, ep, ef):
    return And(D(ex, st, 'locker', 1, x) == bv(ep, 64), bv(D(ex, st, 'locker', 2, x), 32) == bv(ef, 32))


def frame_cands(ex, k, entry, head, mods, depth, a, old):
    """candidate invariants: arrays change only where the contract says"""
    out = []
    ms = k.modifies(ex, old, a)
    for it in mods:
        if it[0] != 'mem' or ('memall', it[1]) in ms:
            continue
        ads = [m[2] for m in ms if m[0] == 'mem' and m[1] == it[1]]
        e = ex.get_item(entry, it, depth)
        if e is None:
            continue

        def fn(s, it=it, ads=ads, e=e):
            v = ex.get_item(s, it, depth)
            w = e
            for ad in ads:
                w = St(w, bv(ad, 64), S(v, bv(ad, 64)))
            return w == v
        out.append(('frame %s' % (it[1],), fn))
    for it in mods:
        if it[0] == 'ghost':
            e = entry.ghost.get(it[1])
            if e is not None and not isinstance(e, tuple) and it[1] in ('bal', 'dis'):
                out.append(('%s stays' % it[1], lambda s, g=it[1], e=e: s.ghost[g] == e))
        elif it[0] in ('phi', 'cell'):
            e = ex.get_item(entry, it, depth)
            v = ex.get_item(head, it, depth)
            if isc(e) and v is not None and not isinstance(v, tuple) and not isc(v):
                out.append(('%s keeps' % (it,), lambda s, it=it, e=e, v=v: eqv(ex.get_item(s, it, depth), e) if not z3.is_bool(v) else bl(ex.get_item(s, it, depth)) == bool(e)))
    return out


class LockerDead(Contract):
    """FlListLocker::check_dead_lock: the judgement over one record"""

    def __init__(self):
        Contract.__init__(self, target='FlListLocker::check_dead_lock', props=('P06',), models=RECM, fallback=fallback)

    def setup(self, ex, st):
        rec_setup(ex, st)
        o, u = obj(ex, st, 'fl_locker', 'this_record')
        st.assume(S(own(st, 'locker'), u) != NOHEAD)
        self.u = u
        return [o, z3.BitVec('dev', 64), z3.BitVec('ino', 64), z3.BitVec('cache', 64), z3.BitVec('except_pid', 64), z3.BitVec('except_fd', 32)]

    def post(self, ex, old, st, a, ret):
        u = self.u
        pid, fd = D(ex, old, 'locker', 1, u), bv(D(ex, old, 'locker', 2, u), 32)
        exc = excepted(ex, old, u, a[4], a[5])
        out = []
        dn = st.ghost['dn']
        if dn is None:
            return [('without asking the system the answer is: alive, and only for the requester itself', And(Not(bl(ret)), exc))]
        r, d, i, p, f = dn
        out.append(('the facts asked for are those of the owner and descriptor of this record', And(p == pid, f == fd)))
        out.append(('gone exactly when the owner or descriptor is not there, or stands for another file', bl(ret) == And(Not(exc), Or(bv(r, 8) == 0 if z3.is_bv(r) else Not(r), And(d != EACC, i != EACC, Or(d != a[1], i != a[2]))))))
        return out

    def modifies(self, ex, st, a):
        return [('ghost', 'dn')]

    def apply(self, ex, st, args, ins):
        this, dev, ino, _, ep, ef = args
        n = bv(ex.load_local(st, this + 8, 8, 64), 64)
        ex.oblige(st, 'requires of FlListLocker::check_dead_lock: a listed record, under the internal lock', And(n != 0, st.ghost['held.file'], S(own(st, 'locker'), n) != NOHEAD), 'pre')
        r = z3.Bool('gone!%d' % next_id())
        st.assume(Imp(r, And(gone1(ex, st, n, dev, ino), Not(excepted(ex, st, n, ep, ef)))))
        st.assume(Imp(And(gone0(ex, st, n, dev, ino), Not(excepted(ex, st, n, ep, ef))), r))
        j = st.ghost['judged']
        st.ghost['judged'] = St(j, n, Or(S(j, n), r))
        return [(st, r)]


import itertools
_ids = itertools.count()


def next_id():
    return next(_ids)


RD4, WR4 = ('fl_offset_lock', 4), ('fl_offset_lock', 5)


class OffDead(Contract):
    """FlListOffLock::check_dead_lock: the recovery pass over one entry"""

    def __init__(self):
        Contract.__init__(self, target='FlListOffLock::check_dead_lock', props=('P06', 'P07'), models=RECM, fallback=fallback, uses=LISTOPS + ['FlListLocker::check_dead_lock'])
        self.cost = 60
        self.fresh_solver = self.abstract = self.lazy_feasible = True

    def setup(self, ex, st):
        o = ex.alloc(st, 16, 'this')
        e = B('entry', 64)
        rec_setup(ex, st, off=e)
        ex.set_tag(e, ('fl_offset_lock',))
        st.assume(And(valid(ex, st, e), is_list(S(own(st, 'off'), e), ('fl_file_lock', 3))))
        ex.store_local(st, o + 8, 8, e)
        ex.E = e
        return [o, z3.BitVec('dev', 64), z3.BitVec('ino', 64), z3.BitVec('cache', 64), z3.BitVec('except_pid', 64), z3.BitVec('except_fd', 32)]

    def this(self, ex, st, a):
        return bv(ex.load_local(st, a[0] + 8, 8, 64), 64)

    def Hs(self, ex, e):
        return [('readers', hid_of(ex, RD4[0], RD4[1], e)), ('writers', hid_of(ex, WR4[0], WR4[1], e))]

    def pre(self, ex, st, a):
        e = self.this(ex, st, a)
        unit_facts(ex, st, 'off', e)
        return [('an entry in use, under the internal lock', And(e != 0, st.ghost['held.file'], is_list(S(own(st, 'off'), e), ('fl_file_lock', 3)))),
                ('the file of the entry', file_is(ex, st, e, a[1], a[2]))]

    def rel(self, ex, old, st, a, x, done=True):
        e = self.this(ex, old, a)
        H = [h for _, h in self.Hs(ex, e)]
        o0, o1 = S(own(old, 'locker'), x), S(own(st, 'locker'), x)
        inE = Or(o0 == H[0], o0 == H[1])
        exc = excepted(ex, old, x, a[4], a[5])
        out = [('only records of a gone owner or descriptor leave the entry, and become free', Or(o1 == o0, And(o1 == free_list(ex, old, 'locker'), inE, gone1(ex, old, x, a[1], a[2]), Not(exc)))),
               ('a judgement is kept only for what is gone', Imp(And(S(st.ghost['judged'], x), Not(S(old.ghost['judged'], x))), And(inE, gone1(ex, old, x, a[1], a[2]), Not(exc))))]
        if done:
            out.append(('every record whose owner or descriptor was gone leaves the entry', Imp(And(inE, gone0(ex, old, x, a[1], a[2]), Not(exc)), o1 == free_list(ex, old, 'locker'))))
        return out

    def post(self, ex, old, st, a, ret):
        e = self.this(ex, old, a)
        out = []
        for x in recs(ex, st, old):
            out += self.rel(ex, old, st, a, x)
        hr, hw = headw(ex, st, RD4, e), headw(ex, st, WR4, e)
        out.append(('the holds given back are exactly those of the records removed', st.ghost['bal'] == old.ghost['bal']))
        out.append(('the entry may go exactly when nothing is left in it', bl(ret) == Not(in_use(ex, st, e))))
        out.append(('no list is left half taken apart', st.ghost['dis'] == old.ghost['dis']))
        return out

    def modifies(self, ex, st, a):
        e = self.this(ex, st, a)
        return [('ghost', 'own.locker'), ('ghost', 'pos.locker'), ('ghost', 'bal'), ('ghost', 'judged'), ('ghost', 'rel'), ('ghost', 'cut'), ('ghost', 'ncut'), ('memall', ('fl_locker', 0)),
                ('mem', RD4, FA(ex, e, *RD4)), ('mem', WR4, FA(ex, e, *WR4)), ('mem', ('fl_header', 11), FA(ex, hdr(ex, st), 'fl_header', 11))]

    def ret_sort(self):
        return z3.BoolSort()

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        e = self.this(ex, old, a)
        out = walk_cands(ex, head, entry, mods, depth, 'locker', self.Hs(ex, e), [('not gone before the pass', lambda s, b: Or(excepted(ex, old, b, a[4], a[5]), Not(gone0(ex, old, b, a[1], a[2]))))])
        for x in recs(ex, head):
            for n, _ in self.rel(ex, old, head, a, x):
                out.append((n, lambda s, n=n, x=x: dict(self.rel(ex, old, s, a, x))[n]))
            H = self.Hs(ex, e)[0][1]
            out.append(('readers done', lambda s, x=x: Imp(And(S(own(old, 'locker'), x) == H, gone0(ex, old, x, a[1], a[2]), Not(excepted(ex, old, x, a[4], a[5]))), S(own(s, 'locker'), x) == free_list(ex, old, 'locker'))))
            out.append(('a removed reader does not return', lambda s, x=x: Imp(S(own(s, 'locker'), x) == H, S(own(old, 'locker'), x) == H)))
        return out + frame_cands(ex, self, entry, head, mods, depth, a, old)


def timeout_arg(ex, st):
    """the timeout: none (-1), try (0), or some microseconds; with its parts"""
    to = z3.BitVec('timeout', 64)
    sec = z3.ZeroExt(24, z3.BitVec('timeout.sec', 40))
    us = z3.ZeroExt(44, z3.BitVec('timeout.usec', 20))
    m = z3.BitVecVal(1000000, 64)
    st.assume(Or(to == -1, And(to >= 0, z3.ULT(us, 1000000))))
    # the parts of a number are unique: defines them
    st.assume(Imp(to >= 0, And(to / m == sec, z3.SRem(to, m) == us)))
    ex.timeout_arg, ex.to_sec, ex.to_usec = to, sec, us
    return to


def in_list_of_type(ex, ow, e, lt):
    return ow == z3.If(lt == RD, hid_of(ex, RD4[0], RD4[1], e), hid_of(ex, WR4[0], WR4[1], e))


def off_in_use(ex, st, e):
    return is_list(S(own(st, 'off'), e), ('fl_file_lock', 3))


def file_of(ex, st, e):
    return hbase(S(own(st, 'off'), e))


def file_is(ex, st, e, dev, ino):
    f = file_of(ex, st, e)
    return And(D(ex, st, 'file', 1, f) == bv(dev, 64), D(ex, st, 'file', 2, f) == bv(ino, 64))


def havoc_rely(ex, st, cond, *exc):
    """the internal lock was given back in between: everything may be different, except what cond protects"""
    old = snapshot(ex, st)
    for k in DATA:
        s, heads = KINDS[k]
        st.ghost['own.' + k] = fresh('own.' + k, OWNS)
        st.ghost['pos.' + k] = fresh('pos.' + k, POSS)
        for t in [(s, 0)] + list(heads) + [(s, i) for i in DATA.get(k, {})]:
            st.mem[t] = fresh('M_%s_%d' % t, ex.region_of[t].init().sort())
    j = st.ghost['judged']
    st.ghost['judged'] = fresh('judged', j.sort())
    new = snapshot(ex, st)
    st.ghost['_acq'] = tuple(st.ghost['_acq'] or ()) + ((old, new, cond) + exc,)
    return old, new, j


class DoLock(Contract):
    """FlListOffLock::dolock: waits for the lock word, recovering it when it takes too long"""

    def __init__(self):
        Contract.__init__(self, target='FlListOffLock::dolock', props=('P01', 'P04', 'P06', 'P07'), models=RECM, fallback=fallback, uses=['FlListOffLock::check_dead_lock'])
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 30, True, True, True

    def setup(self, ex, st):
        rec_setup(ex, st, held=False)
        o, e = obj(ex, st, 'fl_offset_lock', 'entry')
        n = B('my_record', 64)
        ex.E = e
        ex.ltype = z3.BitVec('lock_type', 32)
        st.ghost['new'] = n
        st.assume(Or(ex.ltype == 1, ex.ltype == 2))
        to = timeout_arg(ex, st)
        self.a = a = [o, ex.ltype, z3.BitVec('dev', 64), z3.BitVec('ino', 64), ME, z3.BitVec('fd', 32), to]
        ex.fd = a[5]
        unit_facts(ex, st, 'locker', n)
        unit_facts(ex, st, 'off', e)
        return a

    def pre(self, ex, st, a):
        e = bv(ex.load_local(st, a[0] + 8, 8, 64), 64)
        n = st.ghost['new']
        return [('the entry of this request', e == ex.E), ('the kind of this request', bv(a[1], 32) == ex.ltype), ('the time of this request', bv(a[6], 64) == ex.timeout_arg),
                ('the owner and descriptor of this request', And(bv(a[4], 64) == ME, bv(a[5], 32) == ex.fd)),
                ('not while the internal lock is held', Not(bl(st.ghost['held.file']))),
                ('not after the request was told busy or timed out', Or(ex.timeout_arg == -1, st.ghost['gaveup'] == 0)),
                ('a pending record of this request stands in the list of its kind', And(in_list_of_type(ex, S(own(st, 'locker'), n), e, ex.ltype), D(ex, st, 'locker', 1, n) == ME, bv(D(ex, st, 'locker', 2, n), 32) == ex.fd, D(ex, st, 'locker', 3, n) & 1 == 0)),
                ('the file of the entry', And(off_in_use(ex, st, e), file_is(ex, st, e, a[2], a[3]))),
                ('holds and records agree', st.ghost['bal'] == z3.K(BV64, z3.BitVecVal(0, 32)))]

    def my(self, ex, st, x):
        return And(D(ex, st, 'locker', 1, x) == ME, bv(D(ex, st, 'locker', 2, x), 32) == ex.fd)

    def post(self, ex, old, st, a, ret):
        e = ex.E
        r0 = bv(ret, 32) == 0
        to = ex.timeout_arg
        one = lambda g: st.ghost[g] == old.ghost[g] + 1
        zero = lambda g: st.ghost[g] == old.ghost[g]
        out = [('success: exactly one hold of the kind asked was taken', Imp(r0, z3.If(ex.ltype == RD, And(one('acq.r'), zero('acq.w')), And(zero('acq.r'), one('acq.w'))))),
               ('failure: no hold was taken', Imp(Not(r0), And(zero('acq.r'), zero('acq.w')))),
               ('the hold is on the entry, and on nothing else', st.ghost['bal'] == z3.If(r0, St(old.ghost['bal'], e, S(old.ghost['bal'], e) + 1), old.ghost['bal'])),
               ('a request without timeout succeeds when it returns', Imp(to == -1, r0)),
               ('a try request answers success or busy', Imp(to == 0, Or(r0, bv(ret, 32) == EBUSY))),
               ('a timed request answers success, busy or timed out', Imp(to > 0, Or(r0, bv(ret, 32) == EBUSY, bv(ret, 32) == ETIMEDOUT))),
               ('the internal lock is not held', Not(bl(st.ghost['held.file']))),
               ('nothing is left half done', st.ghost['dis'] == old.ghost['dis'])]
        if not getattr(ex, 'applying', False):
            for x in [terms(ex, 'locker')[0], old.ghost['new']]:
                for c in own_rel_conds(ex, snapshot(ex, old), snapshot(ex, st), x):
                    out.append(('the records of the requester are untouched, and no record appears', Imp(Or(self.my(ex, old, x), mine(ex, st, x)), c)))
        return out

    def modifies(self, ex, st, a):
        if getattr(ex, 'applying', None) is None:
            pass
        return [('ghost', g) for g in GHOSTS if g != 'new'] + allmem()

    def ret_sort(self):
        return z3.BitVecSort(32)

    def apply(self, ex, st, args, ins):
        for l, c in self.pre(ex, st, args):
            ex.oblige(st, 'requires of dolock: ' + l, c, 'pre')
        old = st.copy()
        s0 = snapshot(ex, st)
        fd = ex.fd
        o2, n2, j = havoc_rely(ex, st, lambda u, s0=s0: And(S(s0[('fl_locker', 2)], simp(bv(u, 64) + fld(ex, 'fl_locker', 2)[0])) == bv(fd, 32)))
        for g in ('bal', 'acq.r', 'acq.w', 'rel', 'gaveup', 'dis', 'cut', 'ncut'):
            st.ghost[g] = fresh('c_' + g, st.ghost[g].sort())
        r = fresh('dolock', 32)
        ex.applying = True
        for l, c in self.post(ex, old, st, args, r):
            st.assume(c)
        ex.applying = False
        assume_watch(ex, st)
        return [(st, r)]

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        out = frame_cands(ex, self, entry, head, mods, depth, a, old)
        s0 = snapshot(ex, old)
        to = ex.timeout_arg
        for x in [terms(ex, 'locker')[0], old.ghost['new']]:
            for i, c in enumerate(own_rel_conds(ex, s0, s0, x)):
                out.append(('record of the requester kept %d %s' % (i, x), lambda s, i=i, x=x: Imp(Or(self.my(ex, old, x), mine(ex, s, x)), own_rel_conds(ex, s0, snapshot(ex, s), x)[i])))
        out.append(('not given up', lambda s: Or(to == -1, s.ghost['gaveup'] == 0)))
        for g in ('acq.r', 'acq.w'):
            out.append(('%s stays' % g, lambda s, g=g: s.ghost[g] == entry.ghost[g]))
        out.append(('internal lock free', lambda s: Not(bl(s.ghost['held.file']))))
        for it in mods:
            if it[0] in ('phi', 'cell'):
                v = ex.get_item(head, it, depth)
                if v is not None and not isinstance(v, tuple) and not isc(v) and z3.is_bv(v) and v.size() == 32:
                    out.append(('not given up, or %s is the refusal' % (it,), lambda s, it=it: Or(to == -1, s.ghost['gaveup'] == 0, bv(ex.get_item(s, it, depth), 32) != 0)))
                    out.append(('%s answer' % (it,), lambda s, it=it: (lambda r: Or(r == 0, And(to == 0, r == EBUSY), And(to != -1, to != 0, Or(r == EBUSY, r == ETIMEDOUT))))(bv(ex.get_item(s, it, depth), 32))))
        return out


PEND0 = 'no request of this thread is pending when it makes one'


def entry_no_pending(ex, st):
    """a thread makes one request at a time: at the start none of its records is pending"""
    o, p, l = own(st, 'locker'), A(ex, st, ('fl_locker', 1)), A(ex, st, ('fl_locker', 3))
    fo = {i: fld(ex, 'fl_locker', i)[0] for i in (1, 3)}
    ex.entry_facts.append(lambda s, u: s.assume(Imp(And(is_listed(S(o, u)), S(p, simp(bv(u, 64) + fo[1])) == ME), S(l, simp(bv(u, 64) + fo[3])) & 1 == 1)))
    for x in terms(ex, 'locker'):
        unit_facts(ex, st, 'locker', x)


def pool_empty(ex, st, kind):
    return headw(ex, st, FREE[kind], hdr(ex, st)) == 0


class OffRaw(Contract):
    """FlListOffLock::rawlock: one record of one entry is made or given back"""
    overloads = True

    def __init__(self):
        Contract.__init__(self, target='FlListOffLock::rawlock', props=('P01', 'P05', 'P07', 'P08'), models=RECM, fallback=fallback, uses=LISTOPS + ['FlListOffLock::dolock'])
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 40, True, True, True

    def initial_states(self, ex):
        for lock in (False, True):
            st = State()
            o = ex.alloc(st, 16, 'this')
            e = B('entry', 64)
            rec_setup(ex, st, off=e if lock else None)
            ex.set_tag(e, ('fl_offset_lock',))
            st.assume(valid(ex, st, e))
            ex.store_local(st, o + 8, 8, e)
            ex.E, ex.req = e, None
            ex.fd = z3.BitVec('fd', 32)
            ex.ltype = z3.BitVec('lock_type', 32) if lock else 0
            if lock:
                st.assume(Or(ex.ltype == 1, ex.ltype == 2))
            to = timeout_arg(ex, st)
            entry_no_pending(ex, st)
            unit_facts(ex, st, 'off', e)
            self.lock = lock
            yield st, [o, ex.ltype, z3.BitVec('dev', 64), z3.BitVec('ino', 64), ME, ex.fd, to]

    def this(self, ex, st, a):
        return bv(ex.load_local(st, a[0] + 8, 8, 64), 64)

    def islock(self, a):
        return not (isc(a[1]) and a[1] == 0)

    def pre(self, ex, st, a):
        e = self.this(ex, st, a)
        out = [('an entry in use, under the internal lock', And(e != 0, bl(st.ghost['held.file']), off_in_use(ex, st, e))),
               ('the owner of the request', bv(a[4], 64) == ME),
               ('holds and records agree', st.ghost['bal'] == z3.K(BV64, z3.BitVecVal(0, 32))),
               ('no list is half taken apart', st.ghost['dis'] == NOHEAD)]
        for b in terms(ex, 'off'):
            out.append(('no other entry is protected', Or(b == e, D(ex, st, 'off', 6, b) & 1 == 0) if self.islock(a) else D(ex, st, 'off', 6, b) & 1 == 0))
        for b in terms(ex, 'file'):
            out.append(('no file entry is protected', D(ex, st, 'file', 4, b) & 1 == 0))
        if self.islock(a):
            out.append(('not after the request was told busy or timed out', Or(bv(a[6], 64) == -1, st.ghost['gaveup'] == 0)))
            out.append(('the kind of lock', Or(bv(a[1], 32) == 1, bv(a[1], 32) == 2)))
            out.append(('the file of the entry', file_is(ex, st, e, a[2], a[3])))
        if getattr(ex, 'applying_raw', False):
            out.append(('kind, time and descriptor are those of the request', And(bv(a[1], 32) == bv(ex.ltype, 32), Imp(bv(ex.ltype, 32) != 0, bv(a[6], 64) == ex.timeout_arg), bv(a[5], 32) == ex.fd)))
        return out

    def lists(self, ex, e):
        return hid_of(ex, RD4[0], RD4[1], e), hid_of(ex, WR4[0], WR4[1], e)

    def rec_is(self, ex, st, x, fd, locked):
        return And(D(ex, st, 'locker', 1, x) == ME, bv(D(ex, st, 'locker', 2, x), 32) == bv(fd, 32), D(ex, st, 'locker', 3, x) & 1 == locked)

    def post(self, ex, old, st, a, ret):
        e = self.this(ex, old, a)
        fd = a[5]
        r0 = bv(ret, 32) == 0
        HR, HW = self.lists(ex, e)
        fr = free_list(ex, old, 'locker')
        out = [('no list is half taken apart', st.ghost['dis'] == NOHEAD), ('holds and records agree', st.ghost['bal'] == old.ghost['bal'])]
        one = lambda g: st.ghost[g] == old.ghost[g] + 1
        zero = lambda g: st.ghost[g] == old.ghost[g]
        if not self.islock(a):
            n = st.ghost['cut']
            out += [('unlocking keeps the internal lock', bl(st.ghost['held.file'])), ('unlocking takes nothing', And(zero('acq.r'), zero('acq.w'))),
                    ('unlocking gives back exactly one hold, or fails', Imp(r0, And(one('rel'), one('ncut')))), ('a failed unlock gives nothing back', Imp(Not(r0), And(zero('rel'), zero('ncut')))),
                    ('a failed unlock is an invalid request', Imp(Not(r0), bv(ret, 32) == EINVAL)),
                    ('the hold given back was one of this thread and descriptor', Imp(r0, And(Or(S(own(old, 'locker'), n) == HR, S(own(old, 'locker'), n) == HW), self.rec_is(ex, old, n, fd, 1))))]
            for x in recs(ex, st, old):
                o0, o1 = S(own(old, 'locker'), x), S(own(st, 'locker'), x)
                out.append(('the record given back becomes free, every other stays where it is', z3.If(And(r0, x == n), o1 == fr, o1 == o0)))
                out.append(('an unlock that fails has no lock to give back', Imp(And(Not(r0), Or(o0 == HR, o0 == HW)), Not(self.rec_is(ex, old, x, fd, 1)))))
                out.append(('the records in use keep their contents', Imp(o1 != fr, D(ex, old, 'locker', 3, x) & 1 == D(ex, st, 'locker', 3, x) & 1)))
            return out
        out += [('the internal lock is not held', Not(bl(st.ghost['held.file']))),
                ('success: exactly one hold of the kind asked was taken', Imp(r0, z3.If(bv(a[1], 32) == RD, And(one('acq.r'), zero('acq.w')), And(zero('acq.r'), one('acq.w'))))),
                ('failure: no hold was taken', Imp(Not(r0), And(zero('acq.r'), zero('acq.w')))),
                ('a request without timeout fails only when no unit is left', Imp(And(bv(a[6], 64) == -1, Not(r0)), bv(ret, 32) == ENOLCK)),
                ('a try request answers success, busy or no unit left', Imp(bv(a[6], 64) == 0, Or(r0, bv(ret, 32) == EBUSY, bv(ret, 32) == ENOLCK))),
                ('a timed request answers success, busy, timed out or no unit left', Imp(bv(a[6], 64) > 0, Or(r0, bv(ret, 32) == EBUSY, bv(ret, 32) == ETIMEDOUT, bv(ret, 32) == ENOLCK))),
                ('a request fails for want of units exactly when no record is free', (bv(ret, 32) == ENOLCK) == pool_empty(ex, old, 'locker'))]
        n = st.ghost['new']
        took = Not(pool_empty(ex, old, 'locker'))
        out.append(('success: the record stands in the list of its kind, of this entry, for this thread and descriptor', Imp(r0, And(in_list_of_type(ex, S(own(st, 'locker'), n), e, bv(a[1], 32)), self.rec_is(ex, st, n, fd, 1)))))
        out.append(('the record taken was free', Imp(took, S(own(old, 'locker'), n) == fr)))
        out.append(('failure: the record taken is given back', Imp(And(took, Not(r0)), Not(is_listed(S(own(st, 'locker'), n))))))
        out.append(('success: entry and file stay', Imp(r0, And(S(own(st, 'off'), e) == S(own(old, 'off'), e), *[D(ex, old, 'off', i, e) == D(ex, st, 'off', i, e) for i in (2, 3)]))))
        if not getattr(ex, 'applying', False):
            x = terms(ex, 'locker')[0]
            for c in own_rel_conds(ex, snapshot(ex, old), snapshot(ex, st), x):
                out.append(('every other record of this thread and descriptor is untouched', Imp(And(bv(D(ex, old, 'locker', 2, x), 32) == fd, Not(And(took, x == n))), c)))
            out.append(('no request stays pending', Imp(And(mine(ex, st, x), bv(D(ex, st, 'locker', 2, x), 32) == fd), D(ex, st, 'locker', 3, x) & 1 == 1)))
        return out

    def modifies(self, ex, st, a):
        if self.islock(a):
            return [('ghost', g) for g in GHOSTS] + allmem() + [('cell', ex.errno_addr, 4)]
        e = self.this(ex, st, a)
        return [('ghost', g) for g in ('own.locker', 'pos.locker', 'bal', 'rel', 'cut', 'ncut')] + [('memall', ('fl_locker', 0)), ('memall', ('fl_locker', 3)),
                ('mem', RD4, FA(ex, e, *RD4)), ('mem', WR4, FA(ex, e, *WR4)), ('mem', ('fl_header', 11), FA(ex, hdr(ex, st), 'fl_header', 11)), ('cell', ex.errno_addr, 4)]

    def ret_sort(self):
        return z3.BitVecSort(32)


    def apply(self, ex, st, args, ins):
        e = self.this(ex, st, args)
        ex.applying_raw = True
        P = self.pre(ex, st, args)
        ex.applying_raw = False
        for l, c in P:
            ex.oblige(st, 'requires of FlListOffLock::rawlock: ' + l, c, 'pre')
            st.assume(c)
        f = file_of(ex, st, e)
        st.ghost['_served'] = (e, D(ex, st, 'off', 2, e), D(ex, st, 'off', 3, e), f, D(ex, st, 'file', 1, f), D(ex, st, 'file', 2, f), st.ghost['newO'] == e, S(own(st, 'locker'), terms(ex, 'locker')[0]))
        old = st.copy()
        if not self.islock(args):
            self.do_modify(ex, st, args)
            r = fresh('raw', 32)
            ex.applying = True
            for l, c in self.post(ex, old, st, args, r):
                st.assume(c)
            ex.applying = False
            unit_facts(ex, st, 'locker', st.ghost['cut'])
            return [(st, r)]
        s0 = snapshot(ex, st)
        n = fresh('new_record', 64)
        fd = ex.fd
        havoc_rely(ex, st, lambda u, s0=s0: And(S(s0[('fl_locker', 2)], simp(bv(u, 64) + fld(ex, 'fl_locker', 2)[0])) == bv(fd, 32), mine_in(ex, s0, u)), lambda u, t=Not(pool_empty(ex, old, 'locker')): And(t, u == n))
        for g in ('bal', 'acq.r', 'acq.w', 'rel', 'gaveup', 'dis', 'cut', 'ncut'):
            st.ghost[g] = fresh('c_' + g, st.ghost[g].sort())
        st.ghost['new'] = n
        st.ghost['held.file'] = False
        st.ghost['dn'] = None
        r = fresh('raw', 32)
        ex.applying = True
        for l, c in self.post(ex, old, st, args, r):
            st.assume(c)
        ex.applying = False
        st.assume(Imp(r == ENOLCK, pool_empty(ex, old, 'locker')))
        st.ghost['dry'] = Or(bl(st.ghost['dry']), r == ENOLCK)
        assume_watch(ex, st)
        return [(st, r)]


def mine_in(ex, a, u):
    return And(is_listed(S(a['own.locker'], u)), S(a[('fl_locker', 1)], simp(bv(u, 64) + fld(ex, 'fl_locker', 1)[0])) == ME)


# ---------------------------------------------------------------- file entries
FL3 = ('fl_file_lock', 3)


class FileObj(Contract):
    """methods of FlListFileLock under the internal lock, on a file entry in the list"""
    lists_only = True

    def setup(self, ex, st):
        o = ex.alloc(st, 16, 'this')
        f = B('file_entry', 64)
        rec_setup(ex, st)
        ex.set_tag(f, ('fl_file_lock',))
        st.assume(And(valid(ex, st, f), S(own(st, 'file'), f) == file_list(ex, st)))
        ex.store_local(st, o + 8, 8, f)
        unit_facts(ex, st, 'file', f)
        return [o] + self.more(ex, st)

    def more(self, ex, st):
        return []

    def this(self, ex, st, a):
        return bv(ex.load_local(st, a[0] + 8, 8, 64), 64)

    def H(self, ex, st, a):
        return hid_of(ex, FL3[0], FL3[1], self.this(ex, st, a))

    def pre(self, ex, st, a):
        f = self.this(ex, st, a)
        return [('a file entry in the list, under the internal lock', And(f != 0, bl(st.ghost['held.file']), S(own(st, 'file'), f) == file_list(ex, st))),
                ('no list is half taken apart', st.ghost['dis'] == NOHEAD)]

    def ret_sort(self):
        return z3.BoolSort()


class IsLocked(FileObj):
    """FlListFileLock::is_locked(), and of a range"""
    overloads = True

    def __init__(self, ranged):
        Contract.__init__(self, target='FlListFileLock::is_locked(%s) const' % ('long, unsigned long' if ranged else ''), props=('P09', 'P07') if ranged else ('P07',), models=RECM, fallback=fallback)
        self.ranged, self.fresh_solver, self.abstract, self.lazy_feasible = ranged, True, True, True

    def more(self, ex, st):
        return [z3.BitVec('offset', 64), z3.BitVec('length', 64)] if self.ranged else []

    def initial_states(self, ex):
        for st, a in FileObj.initial_states(self, ex):
            H = self.H(ex, st, a)
            st.ghost['wit'] = B('no_witness', 64)
            ex.wit_hit = lambda s, w: And(S(own(s, 'off'), w) == H, self.hit(ex, s, a, w))
            yield st, a

    def hit(self, ex, st, a, x, axioms=False):
        c = in_use(ex, st, x)
        if self.ranged:
            c = And(cmpoff(ex, st if axioms else None, (a[1], a[2]), (D(ex, st, 'off', 2, x), D(ex, st, 'off', 3, x))), c)
        return c

    def post(self, ex, old, st, a, ret):
        f, H, r = self.this(ex, old, a), self.H(ex, old, a), bl(ret)
        p = D(ex, old, 'file', 4, f) & 1 == 1
        if getattr(ex, 'applying', False):
            w = fresh('witness', 64)
            st.ghost['_wit'] = w
        else:
            w = st.ghost['wit']
        yes = And(S(own(old, 'off'), w) == H, self.hit(ex, old, a, w))
        if not self.ranged:
            yes = Or(p, yes)
        out = [('yes only when an entry %sis in use' % ('that the range overlaps ' if self.ranged else ''), Imp(r, yes))]
        if not self.ranged:
            out.append(('a protected file entry counts as in use', Imp(p, r)))
        for b in terms(ex, 'off'):
            out.append(('no only when no such entry is in use', Imp(And(Not(r), S(own(old, 'off'), b) == H), Not(self.hit(ex, old, a, b)))))
        return out

    def modifies(self, ex, st, a):
        return [('ghost', '_wit')] + ([('ghost', 'wit')] if 'wit' in st.ghost else [])

    def do_modify(self, ex, st, args):
        pass

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        out = [('%s has a witness' % n, lambda s, f=f: Imp(f(s), And(S(own(old, 'off'), s.ghost['wit']) == self.H(ex, old, a), self.hit(ex, old, a, s.ghost['wit'])))) for n, f in flag_items(ex, head, mods, depth)]
        return out + walk_cands(ex, head, entry, mods, depth, 'off', [('entries', self.H(ex, old, a))], [('not in use', lambda s, b: Not(self.hit(ex, old, a, b)))]) + frame_cands(ex, self, entry, head, mods, depth, a, old)


def m_cmp_off(ex, st, args, ins):
    """contract of the range comparator (verified under P05)"""
    r = fresh('cmp', 32)
    st.assume((r == 0) == match(ex, st, 'off', args[0], args[1], True))
    return r


RECM['fl_compare_list_base(fl_offset_lock*, fl_offset_lock*)'] = m_cmp_off


class FreeLockers(Contract):
    """FlListOffLock::free_locker_list on an entry without records"""

    def __init__(self):
        Contract.__init__(self, target='FlListOffLock::free_locker_list', props=('P07',), models=RECM, fallback=fallback, uses=LISTOPS)

    def setup(self, ex, st):
        rec_setup(ex, st)
        o, e = obj(ex, st, 'fl_offset_lock', 'entry')
        return [o]

    def pre(self, ex, st, a):
        e = bv(ex.load_local(st, a[0] + 8, 8, 64), 64)
        unit_facts(ex, st, 'off', e)
        return [('an entry without records, under the internal lock', And(e != 0, bl(st.ghost['held.file']), headw(ex, st, RD4, e) == 0, headw(ex, st, WR4, e) == 0))]

    def post(self, ex, old, st, a, ret):
        return [('the answer', bl(ret)), ('nothing changes', And(A(ex, st, RD4) == A(ex, old, RD4), A(ex, st, WR4) == A(ex, old, WR4)))]

    def modifies(self, ex, st, a):
        return [('ghost', '_wit')]

    def do_modify(self, ex, st, args):
        pass

    def ret_sort(self):
        return z3.BoolSort()


class FreeOffs(FileObj):
    """FlListFileLock::free_offset_lock_list on a file entry with no entry in use"""

    def __init__(self):
        Contract.__init__(self, target='FlListFileLock::free_offset_lock_list', props=('P07',), models=RECM, fallback=fallback, uses=LISTOPS + ['FlListOffLock::free_locker_list'])
        self.fresh_solver = self.abstract = self.lazy_feasible = True

    def setup(self, ex, st):
        a = FileObj.setup(self, ex, st)
        old = st.copy()
        H = self.H(ex, st, a)
        ex.no_growth.append(H)   # obligation at every insertion; so what is in the list now was in it at the start
        ex.off_facts.append(lambda s, u: s.assume(Imp(S(own(s, 'off'), u) == H, And(S(own(old, 'off'), u) == H, Not(in_use(ex, old, u))))))
        return a

    def pre(self, ex, st, a):
        H = self.H(ex, st, a)
        return FileObj.pre(self, ex, st, a) + [('no entry of the file is in use', Imp(S(own(st, 'off'), b) == H, Not(in_use(ex, st, b)))) for b in terms(ex, 'off')]

    def rel(self, ex, old, st, a, x, done):
        H, fr = self.H(ex, old, a), free_list(ex, old, 'off')
        o0, o1 = S(own(old, 'off'), x), S(own(st, 'off'), x)
        return [('entries of other files stay', Imp(o0 != H, o1 == o0)), ('the entries of the file become free', Imp(o0 == H, o1 == fr if done else Or(o1 == H, o1 == fr)))]

    def post(self, ex, old, st, a, ret):
        f = self.this(ex, old, a)
        out = [('the answer', bl(ret)), ('no list is half taken apart', st.ghost['dis'] == NOHEAD), ('the file entry has no entry', headw(ex, st, FL3, f) == 0)]
        T = list(terms(ex, 'off'))
        if getattr(ex, 'applying', False) and st.ghost.get('_served'):
            T.append(st.ghost['_served'][0])
        for x in T:
            out += self.rel(ex, old, st, a, x, True)
        return out

    def modifies(self, ex, st, a):
        f = self.this(ex, st, a)
        return [('ghost', g) for g in ('own.off', 'pos.off', 'dis', '_wit')] + [('memall', ('fl_offset_lock', 0)), ('mem', FL3, FA(ex, f, *FL3)), ('mem', ('fl_header', 10), FA(ex, hdr(ex, st), 'fl_header', 10))]

    def do_modify(self, ex, st, args):
        assume_facts(ex, st)
        st.ghost['_wit'] = z3.BitVecVal(0, 64)
        FileObj.do_modify(self, ex, st, args)
        st.ghost['_wit'] = None

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        H = self.H(ex, old, a)
        out = walk_cands(ex, head, entry, mods, depth, 'off', [('entries', H)], [])
        for x in terms(ex, 'off'):
            for n, _ in self.rel(ex, old, head, a, x, False):
                out.append((n, lambda s, n=n, x=x: dict(self.rel(ex, old, s, a, x, False))[n]))
        out.append(('only this list is taken apart', lambda s: Or(s.ghost['dis'] == NOHEAD, s.ghost['dis'] == H)))
        fc = [c for c in frame_cands(ex, self, entry, head, mods, depth, a, old) if not c[0].startswith('dis')]
        return out + fc


def watch_entry_of(ex, st):
    """the entry of the arbitrary record is an entry to look at, too"""
    ox = S(own(st, 'locker'), terms(ex, 'locker')[0])
    e = simp(z3.If(is_listed(ox), hbase(ox), terms(ex, 'off')[0]))
    ex.watch['off'].append(e)
    assume_watch(ex, st)


def watch_file_of(ex, st):
    eo = S(own(st, 'off'), terms(ex, 'off')[-1])
    ex.watch['file'].append(simp(z3.If(is_list(eo, FL3), hbase(eo), terms(ex, 'file')[0])))
    assume_watch(ex, st)


class FileDead(FileObj):
    """FlListFileLock::check_dead_lock: the recovery pass over one file"""

    def __init__(self):
        Contract.__init__(self, target='FlListFileLock::check_dead_lock', props=('P06', 'P07'), models=RECM, fallback=fallback, uses=LISTOPS + ['FlListOffLock::check_dead_lock', 'FlListFileLock::is_locked() const'])
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 60, True, True, True

    def more(self, ex, st):
        return [z3.BitVec('cache', 64), z3.BitVec('except_pid', 64), z3.BitVec('except_fd', 32)]

    def setup(self, ex, st):
        a = FileObj.setup(self, ex, st)
        watch_entry_of(ex, st)
        old = st.copy()
        H = self.H(ex, st, a)
        ex.no_growth.append(H)
        ex.off_facts.append(lambda s, u: s.assume(Imp(S(own(s, 'off'), u) == H, S(own(old, 'off'), u) == H)))
        return a

    def rel(self, ex, old, st, a, x, done=True):
        f, H = self.this(ex, old, a), self.H(ex, old, a)
        dev, ino = D(ex, old, 'file', 1, f), D(ex, old, 'file', 2, f)
        o0, o1 = S(own(old, 'locker'), x), S(own(st, 'locker'), x)
        inF = And(is_listed(o0), S(own(old, 'off'), hbase(o0)) == H)
        exc = excepted(ex, old, x, a[2], a[3])
        out = [('only records of a gone owner or descriptor leave, and become free', Or(o1 == o0, And(o1 == free_list(ex, old, 'locker'), inF, gone1(ex, old, x, dev, ino), Not(exc)))),
               ('a judgement is kept only for what is gone', Imp(And(S(st.ghost['judged'], x), Not(S(old.ghost['judged'], x))), And(inF, gone1(ex, old, x, dev, ino), Not(exc))))]
        if done:
            out.append(('every record whose owner or descriptor was gone leaves', Imp(And(inF, gone0(ex, old, x, dev, ino), Not(exc)), o1 == free_list(ex, old, 'locker'))))
        return out

    def post(self, ex, old, st, a, ret):
        f, H = self.this(ex, old, a), self.H(ex, old, a)
        out = []
        for x in recs(ex, st, old):
            out += self.rel(ex, old, st, a, x)
        out.append(('the holds given back are exactly those of the records removed', st.ghost['bal'] == old.ghost['bal']))
        out.append(('no list is left half taken apart', st.ghost['dis'] == old.ghost['dis']))
        for b in terms(ex, 'off'):
            o0, o1 = S(own(old, 'off'), b), S(own(st, 'off'), b)
            out.append(('only entries of this file leave it, and become free', Or(o1 == o0, And(o0 == H, o1 == free_list(ex, old, 'off')))))
            out.append(('the file may go only when it has no entry left', Imp(And(bl(ret), D(ex, old, 'file', 4, f) & 1 == 0), o1 != H)))
            out.append(('an entry stays only while it is in use', Imp(o1 == H, in_use(ex, st, b))))
        out.append(('the file may go only when it is not protected', Imp(bl(ret), D(ex, old, 'file', 4, f) & 1 == 0)))
        return out

    def modifies(self, ex, st, a):
        f = self.this(ex, st, a)
        return [('ghost', g) for g in ('own.locker', 'pos.locker', 'own.off', 'pos.off', 'bal', 'judged', 'rel', 'cut', 'ncut', '_wit', 'dis')] + \
               [('memall', t) for t in (('fl_locker', 0), ('fl_offset_lock', 0), RD4, WR4)] + \
               [('mem', FL3, FA(ex, f, *FL3))] + [('mem', ('fl_header', i), FA(ex, hdr(ex, st), 'fl_header', i)) for i in (10, 11)]

    def do_modify(self, ex, st, args):
        st.ghost['_wit'] = z3.BitVecVal(0, 64)
        FileObj.do_modify(self, ex, st, args)
        st.ghost['_wit'] = None

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        f, H = self.this(ex, old, a), self.H(ex, old, a)
        dev, ino = D(ex, old, 'file', 1, f), D(ex, old, 'file', 2, f)
        x = terms(ex, 'locker')[0]
        ox = S(own(old, 'locker'), x)
        gx = And(is_listed(ox), S(own(old, 'off'), hbase(ox)) == H, gone0(ex, old, x, dev, ino), Not(excepted(ex, old, x, a[2], a[3])))
        out = walk_cands(ex, head, entry, mods, depth, 'off', [('entries', H)], [('nothing gone is left in it', lambda s, b: Imp(And(gx, hbase(ox) == b), S(own(s, 'locker'), x) == free_list(ex, old, 'locker'))),
                                                                               ('in use', lambda s, b: in_use(ex, s, b))])
        for n, _ in self.rel(ex, old, head, a, x, False):
            out.append((n, lambda s, n=n: dict(self.rel(ex, old, s, a, x, False))[n]))
        for b in terms(ex, 'off'):
            out.append(('entries of this file stay or become free', lambda s, b=b: Or(S(own(s, 'off'), b) == S(own(old, 'off'), b), And(S(own(old, 'off'), b) == H, S(own(s, 'off'), b) == free_list(ex, old, 'off')))))
            out.append(('what left is empty of what was gone', lambda s, b=b: Imp(And(gx, hbase(ox) == b, S(own(s, 'off'), b) != H), S(own(s, 'locker'), x) == free_list(ex, old, 'locker'))))
        return out + frame_cands(ex, self, entry, head, mods, depth, a, old)


    def apply(self, ex, st, args, ins):
        r = FileObj.apply(self, ex, st, args, ins)
        assume_facts(ex, r[0][0])
        return r


def assume_facts(ex, st):
    for k in DATA:
        for b in terms(ex, k):
            unit_facts(ex, st, k, b)


def attached(ex, st):
    st.assume(G(ex, st, 'FlShm::ShmFd', 4) != -1)


def m_attached(ex, st, args, ins):
    """contract of CheckAttach (verified under P10): here the area is attached"""
    return True


def m_fddev(ex, st, args, ins):
    """contract of the descriptor facts (verified under P05): device and inode of the open file, or failure"""
    s2 = st.copy()
    d, i = fresh('file_dev', 64), fresh('file_ino', 64)
    ex.oblige(st, 'the descriptor asked about is the one of the request', bv(args[0], 32) == ex.fd, 'post')
    ex.store(st, None, ('int', 64), d, args[1])
    ex.store(st, None, ('int', 64), i, args[2])
    st.ghost['_fdn'] = (d, i)
    return [(st, True), (s2, False)]


TOPM = dict(RECM, **{'FlShm::CheckAttach': m_attached, 'GetFileDevNode(int, unsigned long&, unsigned long&)': m_fddev})


class FilesDead(Contract):
    """FlShm::CheckFileLockDeadLock: the recovery pass over every file"""

    def __init__(self):
        Contract.__init__(self, target='FlShm::CheckFileLockDeadLock', props=('P06', 'P07', 'P08'), models=TOPM, fallback=fallback, uses=LISTOPS + ['FlListFileLock::check_dead_lock'])
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 30, True, True, True

    def setup(self, ex, st):
        rec_setup(ex, st, held=False)
        attached(ex, st)
        pid = z3.BitVec('flckpid', 64)
        st.assume(Or(pid == 0, pid == ME))

        def acq(s):
            watch_entry_of(ex, s)
            watch_file_of(ex, s)
            self.at = s.copy()
            ex.no_growth.append(file_list(ex, s))
        ex.on_acquire.append(acq)
        self.at = None
        return [z3.BitVec('cache', 64), pid, z3.BitVec('except_pid', 64)]

    def facts(self, ex, a):
        """the arbitrary record at the start of the pass: its entry, its file"""
        at, x = self.at, terms(ex, 'locker')[0]
        ox = S(own(at, 'locker'), x)
        e = hbase(ox)
        f = hbase(S(own(at, 'off'), e))
        dev, ino = D(ex, at, 'file', 1, f), D(ex, at, 'file', 2, f)
        exc = excepted(ex, at, x, a[2], mask(32))
        return at, x, ox, e, f, And(is_listed(ox), gone0(ex, at, x, dev, ino), Not(exc)), And(is_listed(ox), gone1(ex, at, x, dev, ino), Not(exc))

    def post(self, ex, old, st, a, ret):
        out = [('the internal lock is not held', Not(bl(st.ghost['held.file'])))]
        if not st.ghost['_acq']:
            return out + [('nothing is done without looking', Not(bl(ret)))]
        at, x, ox, e, f, g0, g1 = self.facts(ex, a)
        o1 = S(own(st, 'locker'), x)
        out.append(('every record whose owner or descriptor was gone becomes free', Imp(g0, o1 == free_list(ex, at, 'locker'))))
        out.append(('every other record stays', Imp(Not(g1), o1 == ox)))
        out.append(('the holds given back are exactly those of the records removed', st.ghost['bal'] == at.ghost['bal']))
        for k in ('off', 'file'):
            for b in terms(ex, k):
                o0, o1 = S(own(at, k), b), S(own(st, k), b)
                out.append(('only %s without anything in use become free' % ('entries' if k == 'off' else 'files'), Or(o1 == o0, o1 == free_list(ex, at, k))))
        return out

    def modifies(self, ex, st, a):
        return [('ghost', g) for g in GHOSTS if g not in ('dn', 'new')] + allmem() + [('cell', ex.errno_addr, 4)]

    def ret_sort(self):
        return z3.BoolSort()

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        if self.at is None:
            return []
        at, x, ox, e, f, g0, g1 = self.facts(ex, a)
        fl = file_list(ex, at)
        fr = {k: free_list(ex, at, k) for k in DATA}
        out = walk_cands(ex, head, entry, mods, depth, 'file', [('files', fl)], [('nothing gone is left in it', lambda s, b: Imp(And(g0, f == b), S(own(s, 'locker'), x) == fr['locker']))])
        out.append(('record stays or becomes free', lambda s: Or(S(own(s, 'locker'), x) == ox, And(g1, S(own(s, 'locker'), x) == fr['locker']))))
        for k in ('off', 'file'):
            for b in terms(ex, k):
                out.append(('%s stays or becomes free %s' % (k, b), lambda s, k=k, b=b: Or(S(own(s, k), b) == S(own(at, k), b), S(own(s, k), b) == fr[k])))
        out.append(('what left is empty of what was gone', lambda s: Imp(And(g0, S(own(s, 'file'), f) != fl), S(own(s, 'locker'), x) == fr['locker'])))
        out.append(('a listed record has its entry', lambda s: Imp(And(is_listed(ox), S(own(s, 'locker'), x) == ox), And(S(own(s, 'off'), e) == S(own(at, 'off'), e), S(own(s, 'file'), f) == S(own(at, 'file'), f)))))
        for i, (l, _) in enumerate(monitor(ex, head)):
            out.append((l, lambda s, i=i: monitor(ex, s)[i][1]))
        return out + frame_cands(ex, self, entry, head, mods, depth, a, old)


class Query(Contract):
    """FlShm::IsLocked on an attached area"""

    def __init__(self):
        Contract.__init__(self, target='FlShm::IsLocked(int, long, unsigned long)', name='FlShm::IsLocked', props=('P09', 'P08'), models=TOPM, fallback=fallback, uses=LISTOPS + ['FlListFileLock::is_locked(long, unsigned long) const'])
        self.fresh_solver = self.abstract = self.lazy_feasible = True

    def setup(self, ex, st):
        rec_setup(ex, st, held=False)
        attached(ex, st)
        st.ghost['_fdn'] = None
        ex.fd = z3.BitVec('fd', 32)

        def acq(s):
            watch_file_of(ex, s)
            self.at = s.copy()
        ex.on_acquire.append(acq)
        return [ex.alloc(st, 8, 'this'), ex.fd, z3.BitVec('offset', 64), z3.BitVec('length', 64)]

    def post(self, ex, old, st, a, ret):
        r = bl(ret)
        out = [('the internal lock is not held', Not(bl(st.ghost['held.file'])))]
        if st.ghost['_fdn'] is None:
            return out + [('what is not an open file is not locked', Not(r))]
        at = self.at
        dev, ino = st.ghost['_fdn']
        fl = file_list(ex, at)

        def hit(b):
            f = hbase(S(own(at, 'off'), b))
            return And(is_list(S(own(at, 'off'), b), FL3), S(own(at, 'file'), f) == fl, D(ex, at, 'file', 1, f) == dev, D(ex, at, 'file', 2, f) == ino,
                       cmpoff(ex, None, (a[2], a[3]), (D(ex, at, 'off', 2, b), D(ex, at, 'off', 3, b))), in_use(ex, at, b))
        w = st.ghost['_wit']
        out.append(('yes only when an entry in use of this file overlaps the range', Imp(r, hit(w) if w is not None else False)))
        for b in terms(ex, 'off'):
            out.append(('no only when no entry in use of this file overlaps the range', Imp(Not(r), Not(hit(b)))))
        for t, v in at.mem.items():
            if t in st.mem and not v.eq(st.mem[t]):
                out.append(('asking changes nothing', st.mem[t] == v))
        for k in DATA:
            out.append(('asking changes nothing', And(own(st, k) == own(at, k), pos(st, k) == pos(at, k))))
        out.append(('asking takes and gives back nothing', And(*[st.ghost[g] == old.ghost[g] for g in ('acq.r', 'acq.w', 'rel', 'gaveup', 'bal')])))
        return out

    def modifies(self, ex, st, a):
        return [('ghost', g) for g in GHOSTS] + allmem() + [('cell', ex.errno_addr, 4)]

    def ret_sort(self):
        return z3.BoolSort()


class RawFile(Contract):
    """FlShm::RawLock of a file: one request, from the descriptor to the record"""
    overloads = True

    def __init__(self, lock, mode=None):
        Contract.__init__(self, target='FlShm::RawLock(flck_lock_type, int, long, unsigned long, long)', name='FlShm::RawLock(file) %s' % ('lock, reuse mode %d' % mode if lock else 'unlock'), props=('P01', 'P05', 'P07', 'P08'), models=TOPM, fallback=fallback,
                          uses=LISTOPS + ['FlListOffLock::rawlock', 'FlListFileLock::is_locked() const', 'FlListFileLock::free_offset_lock_list'])
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 60, True, True, True
        self.lock, self.mode, self.lazy_feasible = lock, mode, True

    def setup(self, ex, st):
        rec_setup(ex, st, held=False)
        if self.mode is not None:
            ex.store_local(st, sym(ex, 'FlShm::FreeUnitMode'), 4, z3.BitVecVal(self.mode, 32))
        attached(ex, st)
        st.ghost['_fdn'] = None
        st.ghost['_rels'] = ()
        ex.fd = z3.BitVec('fd', 32)
        ex.Q = (z3.BitVec('offset', 64), z3.BitVec('length', 64))
        if self.mode:
            ex.disjoint = True

            def rel(s):
                s.ghost['_rels'] = s.ghost['_rels'] + (s.copy(),)
            ex.on_release.append(rel)
        ex.ltype = z3.BitVec('lock_type', 32) if self.lock else 0
        if self.lock:
            st.assume(Or(ex.ltype == 1, ex.ltype == 2))
        to = timeout_arg(ex, st)
        entry_no_pending(ex, st)
        self.at = None

        def acq(s):
            if len(s.ghost['_acq']) == 1:
                watch_file_of(ex, s)
                if self.lock:
                    watch_entry_of(ex, s)
                    watch_file_of(ex, s)
                self.at = s.copy()
        ex.on_acquire.append(acq)
        return [ex.ltype, ex.fd, z3.BitVec('offset', 64), z3.BitVec('length', 64), to]

    def post(self, ex, old, st, a, ret):
        r = bv(ret, 32)
        r0 = r == 0
        one = lambda g: st.ghost[g] == old.ghost[g] + 1
        zero = lambda g: st.ghost[g] == old.ghost[g]
        out = [('the internal lock is not held', Not(bl(st.ghost['held.file']))),
               ('holds and records agree', st.ghost['bal'] == old.ghost['bal']), ('no list is half taken apart', st.ghost['dis'] == NOHEAD)]
        x = terms(ex, 'locker')[0]
        if st.ghost['_fdn'] is None:
            return out + [('what is not an open file takes and gives back nothing', And(zero('acq.r'), zero('acq.w'), zero('rel'), zero('ncut')))]
        dev, ino = st.ghost['_fdn']
        at, sv = self.at, st.ghost['_served']
        mode = G(ex, old, 'FlShm::FreeUnitMode', 4)
        if sv is not None:
            e, eo, el, f, fd_, fi, isnew, _ = sv
            out.append(('the entry used is one of the file asked for', And(fd_ == dev, fi == ino)))
            over = cmpoff(ex, st, (a[2], a[3]), (eo, el))
            exact = And(eo == a[2], el == a[3])
            out.append(('the entry used overlaps the range asked for, or is made for exactly it', Or(over, exact) if self.lock else over))
            out.append(('with ranges that are equal or apart, the entry used has exactly the range asked for', Imp(And(Or(exact, Not(over))), exact)))
            for b in terms(ex, 'off'):
                bo = S(own(at, 'off'), b)
                bf = hbase(bo)
                out.append(('an entry is made only when no entry of the file overlaps the range', Imp(And(isnew, is_list(bo, FL3), S(own(at, 'file'), bf) == file_list(ex, at), D(ex, at, 'file', 1, bf) == dev, D(ex, at, 'file', 2, bf) == ino),
                                                                                                      Not(cmpoff(ex, st, (a[2], a[3]), (D(ex, at, 'off', 2, b), D(ex, at, 'off', 3, b)))))))
        HR = lambda e: hid_of(ex, RD4[0], RD4[1], e)
        HW = lambda e: hid_of(ex, WR4[0], WR4[1], e)
        if not self.lock:
            n = st.ghost['cut']
            out += [('a successful unlock gives back exactly one hold', Imp(r0, And(one('rel'), one('ncut')))), ('a failed unlock gives back nothing, and is an invalid request', Imp(Not(r0), And(zero('rel'), zero('ncut'), r == EINVAL))),
                    ('unlocking takes nothing', And(zero('acq.r'), zero('acq.w'))), ('a successful unlock used an entry', Imp(r0, sv is not None))]
            if sv is not None:
                o = S(own(at, 'locker'), n)
                out.append(('the hold given back was one of this thread and descriptor in that entry', Imp(r0, And(Or(o == HR(e), o == HW(e)), D(ex, at, 'locker', 1, n) == ME, bv(D(ex, at, 'locker', 2, n), 32) == ex.fd, D(ex, at, 'locker', 3, n) & 1 == 1))))
                out.append(('the record given back becomes free, every other stays', S(own(st, 'locker'), x) == z3.If(And(r0, x == n), free_list(ex, at, 'locker'), S(own(at, 'locker'), x))))
                ho = S(own(at, 'locker'), x)
                out.append(('an unlock fails only when this thread has no lock of the descriptor in that entry', Imp(And(Not(r0), Or(ho == HR(e), ho == HW(e))), Not(And(D(ex, at, 'locker', 1, x) == ME, bv(D(ex, at, 'locker', 2, x), 32) == ex.fd, D(ex, at, 'locker', 3, x) & 1 == 1)))))
                fe = S(own(st, 'off'), e) == free_list(ex, at, 'off')
                out.append(('in a mode that reuses entries an entry without use becomes free', Imp(And(r0, mode != 0), Or(fe, in_use(ex, st, e)))))
                w = st.ghost['_wit']
                out.append(('in the mode that reuses file entries a file without an entry in use becomes free', Imp(And(r0, mode == 1), Or(S(own(st, 'file'), f) == free_list(ex, at, 'file'), And(S(own(st, 'off'), w) == hid_of(ex, 'fl_file_lock', 3, f), in_use(ex, st, w)) if w is not None else False))))
            for k in ('off', 'file'):
                for b in terms(ex, k):
                    o0, o1 = S(own(at, k), b), S(own(st, k), b)
                    out.append(('unlocking makes no unit used', Or(o1 == o0, o1 == free_list(ex, at, k))))
                    if k == 'off':
                        out.append(('an entry in use stays', Imp(in_use(ex, st, b), o1 == o0)))
                    out.append(('without reuse every entry stays', Imp(mode == 0, o1 == o0)))
            return out
        to = ex.timeout_arg
        out += [('success: exactly one hold of the kind asked was taken', Imp(r0, z3.If(ex.ltype == RD, And(one('acq.r'), zero('acq.w')), And(zero('acq.r'), one('acq.w'))))),
                ('failure: no hold was taken', Imp(Not(r0), And(zero('acq.r'), zero('acq.w')))),
                ('no unit left is reported exactly when a unit needed could not be had', (r == ENOLCK) == bl(st.ghost['dry'])),
                ('a request without timeout succeeds or finds no unit left', Imp(to == -1, Or(r0, r == ENOLCK))),
                ('a try request answers success, busy or no unit left', Imp(to == 0, Or(r0, r == EBUSY, r == ENOLCK))),
                ('a timed request answers success, busy, timed out or no unit left', Imp(to > 0, Or(r0, r == EBUSY, r == ETIMEDOUT, r == ENOLCK)))]
        if self.mode:
            R = st.ghost['_rels']
            if sv is not None:
                for b in terms(ex, 'off'):
                    def clean(s):
                        return Imp(And(S(own(s, 'off'), b) == hid_of(ex, 'fl_file_lock', 3, f), D(ex, s, 'off', 2, b) == a[2], D(ex, s, 'off', 3, b) == a[3]), in_use(ex, s, b))
                    out.append(('a failed request leaves no entry without use in a mode that reuses them', Imp(And(Not(r0), a[2] >= 0, a[2] < (1 << 62), z3.ULT(a[3], 1 << 62)), Or(*[clean(s) for s in R]) if R else False)))
            if self.mode == 1:
                for b in terms(ex, 'file'):
                    def fclean(s):
                        w = s.ghost['_wit']
                        us = And(S(own(s, 'off'), w) == hid_of(ex, 'fl_file_lock', 3, b), in_use(ex, s, w)) if w is not None else False
                        return Imp(And(S(own(s, 'file'), b) == file_list(ex, s), D(ex, s, 'file', 1, b) == dev, D(ex, s, 'file', 2, b) == ino), us)
                    # (when no file entry is left nothing was used)
                    out.append(('a failed request leaves no file entry without use in the mode that reuses them', Imp(Not(r0), Or(*[fclean(s) for s in R]) if R else False)))
        n = st.ghost['new']
        if sv is not None:
            out.append(('success: the record stands in the list of its kind in that entry', Imp(r0, And(in_list_of_type(ex, S(own(st, 'locker'), n), e, ex.ltype), D(ex, st, 'locker', 1, n) == ME, bv(D(ex, st, 'locker', 2, n), 32) == ex.fd, D(ex, st, 'locker', 3, n) & 1 == 1))))
            out.append(('success: the entry is still that of the file', Imp(r0, And(off_in_use(ex, st, e), D(ex, st, 'off', 2, e) == eo, D(ex, st, 'off', 3, e) == el))))
        else:
            out.append(('a request that used no entry fails', Not(r0)))
        s0, s1 = snapshot(ex, old), snapshot(ex, st)
        for c in own_rel_conds(ex, s0, s1, x):
            out.append(('every other record of this thread and descriptor is untouched', Imp(And(mine_in(ex, s0, x), bv(S(s0[('fl_locker', 2)], simp(x + fld(ex, 'fl_locker', 2)[0])), 32) == ex.fd), c)))
        out.append(('failure: no record of this request stays', Imp(And(Not(r0), Not(mine_in(ex, s0, x)), bv(D(ex, st, 'locker', 2, x), 32) == ex.fd), Not(mine(ex, st, x)))))
        out.append(('no request stays pending', Imp(And(mine(ex, st, x), bv(D(ex, st, 'locker', 2, x), 32) == ex.fd), D(ex, st, 'locker', 3, x) & 1 == 1)))
        return out

    def modifies(self, ex, st, a):
        return [('ghost', g) for g in GHOSTS] + allmem() + [('cell', ex.errno_addr, 4)]

    def ret_sort(self):
        return z3.BitVecSort(32)


def contracts():
    return [LockerDead(), OffDead(), DoLock(), OffRaw(), IsLocked(False), IsLocked(True), FreeLockers(), FreeOffs(), FileDead(), FilesDead(), Query(), RawFile(False)] + [RawFile(True, m) for m in (0, 1, 2)]
