"""Contracts of the named mutex, the condition variable and their waiters, from the request to the record.

The two internal locks (named mutexes; conditions with waiters) are monitors: taking one forgets the lists and the
contents it guards (any history of other threads) except the invariant and what the rely gives; releasing it must
re-establish the invariant, shown for an arbitrary unit of each kind.  Words that others change without the
internal lock (owner word, waiter status) are read anew at every access.
"""
import z3
from .symex import *
from .regions import *
from .contract import Contract
from .c_prim import EINVAL, ENOLCK, EBUSY, ETIMEDOUT, EPERM, EWOULDBLOCK
from .c_unit import FA, fld, G, sym, errno_setup, m_errno, set_errno
from .c_shm import B
from .c_list import *
from .c_rec import (S, St, GROUP, FREE, DATA as FDATA, code, hbase, is_list, A, D, headw, terms, hdr, free_list, valid, obj, timeout_arg, walk_cands,
                    LISTOPS, attached, m_attached, fallback, group_of)
from . import c_rec

EAGAIN = 11
WAITING, UP = 2, 0
NAMED = ('nmtx', 'ncond', 'waiter')
WORDS = {'nmtx': {3: 'hash'}, 'ncond': {2: 'hash'}, 'waiter': {1: 'pid', 3: 'mutex'}}
ACTIVE = {'nmtx': ('fl_header', 6), 'ncond': ('fl_header', 8)}
NAMEF = {'nmtx': ('fl_named_mutex', 4), 'ncond': ('fl_named_cond', 3)}
WL = ('fl_named_cond', 1)
SETB = z3.ArraySort(BV64, z3.BoolSort())
HASHF = z3.Function('hash_of_name', BV64, BV64)
LENF = z3.Function('length_of_name', BV64, BV64)
NAMEOF = z3.Function('first_63_characters_at', BV64, BV64)
EMPTY = z3.BitVec('the_empty_name', 64)
D0 = z3.Function('owner_gone_before_the_pass', BV64, z3.BoolSort())
D1 = z3.Function('owner_gone', BV64, z3.BoolSort())
OWNER0 = z3.Array('owner_at_start_of_pass', BV64, BV64)


def active(ex, st, kind):
    return hid_of(ex, ACTIVE[kind][0], ACTIVE[kind][1], hdr(ex, st))


def mutex_of(ex, st, w):
    """the mutex a waiter stands for"""
    r = D(ex, st, 'waiter', 3, w)
    return z3.If(r == 0, z3.BitVecVal(0, 64), r + shmbase(ex, st))


# ---------------------------------------------------------------- guarded words
class Word(Region):
    def __init__(self, tag, w, kind, role):
        Region.__init__(self, tag, w)
        self.kind, self.role = kind, role

    def unit(self, ex, addr):
        return simp(bv(addr, 64) - fld(ex, self.tag[0], self.tag[1])[0])

    def load(self, ex, st, addr):
        g = GROUP[self.kind]
        u = self.unit(ex, addr)
        if not st.ghost['held.' + g]:
            if self.role == 'data' and self.kind == 'waiter' and ex.provable(st, u == st.ghost['mywaiter']):
                return self.get(st, addr)
            return fresh('racy', self.w)
        v = self.get(st, addr)
        if self.role == 'head':
            c_rec.inst_head(ex, st, self.tag, addr)
        elif self.role == 'next':
            c_rec.inst_node(ex, st, self.kind, bv(addr, 64))
        else:
            facts(ex, st, self.kind, u)
        return v

    def store(self, ex, st, addr, v):
        u = self.unit(ex, addr)
        held = st.ghost['held.' + GROUP[self.kind]]
        if self.role == 'head':
            H = hid(ex, addr)
            ex.oblige(st, 'a list head is written directly only to empty a list that has no unit left', And(bv(v, 64) == 0, Or(bv(self.get(st, addr), 64) == 0, And(held, *[S(own(st, self.kind), b) != H for b in terms(ex, self.kind)]), S(own(st, 'ncond'), hbase(H)) == NOHEAD)), 'guarantee')
        else:
            ex.oblige(st, 'the contents and the link of a unit are written directly only while it is in no list', S(own(st, self.kind), u) == NOHEAD, 'guarantee')
        self.put(st, addr, v)

    def cas(self, ex, st, addr, c, n):
        raise Unsupported('direct atomic operation on a guarded word')

    rmw = cas


class Status(Region):
    """the status of a waiter: only WAIT -> UP while it is listed, by anybody, at any time"""

    def unit(self, ex, addr):
        return simp(bv(addr, 64) - fld(ex, 'fl_waiter', 2)[0])

    def see(self, ex, st, u):
        v = fresh('status', 32)
        nw = st.ghost['notw']
        st.assume(Or(v == UP, v == WAITING))
        st.assume(Imp(S(nw, u), v == UP))
        st.ghost['notw'] = St(nw, u, Or(S(nw, u), v == UP))
        mineu = And(u == st.ghost['mywaiter'], u != 0)
        st.ghost['signalled'] = bl(simp(Or(bl(st.ghost['signalled']), And(mineu, Not(bl(st.ghost['stopped'])), v == UP))))
        return v

    def load(self, ex, st, addr):
        u = self.unit(ex, addr)
        return self.see(ex, st, u)

    def store(self, ex, st, addr, v):
        u = self.unit(ex, addr)
        ex.oblige(st, 'the status of a waiter is set directly only while it is in no list', S(own(st, 'waiter'), u) == NOHEAD, 'guarantee')
        self.put(st, addr, v)

    def cas(self, ex, st, addr, c, n):
        u = self.unit(ex, addr)
        v = self.see(ex, st, u)
        ex.oblige(st, 'a status changes only from waiting to up', And(bv(c, 32) == WAITING, bv(n, 32) == UP), 'guarantee')
        ok = v == WAITING
        g = st.ghost
        mineu = And(u == g['mywaiter'], u != 0)
        wake = And(ok, Not(mineu))
        g['stopped'] = bl(simp(Or(bl(g['stopped']), And(ok, mineu))))
        g['nwoken'] = g['nwoken'] + z3.If(wake, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        g['woken'] = z3.If(wake, u, g['woken'])
        g['notw'] = St(g['notw'], u, z3.BoolVal(True))
        if ex.C is not None:
            ex.oblige(st, 'only a waiter of this condition is signalled', Or(mineu, S(own(st, 'waiter'), u) == ex.C), 'post')
        return v, conc(ok)

    def rmw(self, ex, st, addr, f):
        raise Unsupported('direct atomic operation on a waiter status')


class Owner(Region):
    """the owner word of a mutex: others change it at any time; an owner that is gone does not"""

    def unit(self, ex, addr):
        return simp(bv(addr, 64) - fld(ex, 'fl_named_mutex', 1)[0])

    def load(self, ex, st, addr):
        u = self.unit(ex, addr)
        v = fresh('owner', 64)
        ev = st.ghost['_ev']
        o = S(OWNER0, u)
        st.assume(Imp(And(D0(o), o != 0, Not(S(st.ghost['forced'], u))), v == o))
        for e in ev:
            if e[0] == 'load':
                st.assume(Imp(And(e[1] == u, D0(e[2]), e[2] != 0), v == e[2]))
        if ex.M is not None:
            st.assume(Imp(u == ex.M, (v == ME) == (st.ghost['mdep'] > 0)))      # contract of the mutex primitives
        st.ghost['_ev'] = ev + (('load', u, v),)
        return v

    def store(self, ex, st, addr, v):
        u = self.unit(ex, addr)
        ex.oblige(st, 'the owner word is set directly only to free, on a mutex in no list', And(S(own(st, 'nmtx'), u) == NOHEAD, bv(v, 64) == 0), 'guarantee')


class Count(Owner):
    def load(self, ex, st, addr):
        return fresh('count', 32)

    def store(self, ex, st, addr, v):
        u = simp(bv(addr, 64) - fld(ex, 'fl_named_mutex', 2)[0])
        ex.oblige(st, 'the recursion count is set directly only to zero, on a mutex in no list', And(S(own(st, 'nmtx'), u) == NOHEAD, bv(v, 32) == 0), 'guarantee')


class NameBytes(Region):
    """the name of a unit, abstracted to its content"""

    def __init__(self, tag, kind):
        Region.__init__(self, tag, 8)
        self.kind = kind

    def load(self, ex, st, addr):
        return fresh('char', 8)

    def store(self, ex, st, addr, v):
        name_byte(ex, st, self.kind, addr, v)


class Chars(Region):
    """characters at an address computed inside an array: the strings given, or the end of a name"""

    def store(self, ex, st, addr, v):
        for k, (s, i) in NAMEF.items():
            u = st.ghost['new.' + k]
            if ex.provable(st, bv(addr, 64) == FA(ex, u, s, i) + 63) and (isc(v) and v == 0 or z3.is_bv_value(v) and v.as_long() == 0):
                ex.oblige(st, 'a name is written only while the unit is in no list', S(own(st, k), u) == NOHEAD, 'guarantee')
                return
        raise Unsupported('a character written at an unknown place')


def unit_of_name(ex, addr):
    """(kind, unit, index) of an address inside a name"""
    e = simp(bv(addr, 64))
    t = ex.tag_of(addr)
    for k, tg in NAMEF.items():
        if t == tg:
            for i in (0, 63):
                u = simp(e - fld(ex, tg[0], tg[1])[0] - i)
                if z3.is_const(u) or z3.is_select(u) or ex.tag_of(u) == (tg[0],):
                    return k, u, i
            # the unit is the address without its constant part
            return k, simp(e - fld(ex, tg[0], tg[1])[0]), 0
    raise Unsupported('name at an unknown place')


def name_byte(ex, st, kind, addr, v):
    k, u, i = unit_of_name(ex, addr)
    ex.oblige(st, 'a name is written only while the unit is in no list', S(own(st, k), u) == NOHEAD, 'guarantee')
    if not (isc(v) and v == 0) and not (z3.is_bv_value(v) and v.as_long() == 0):
        raise Unsupported('a character of a name written directly')
    if i == 0:
        st.ghost['name.' + k] = St(st.ghost['name.' + k], u, EMPTY)


def set_name(ex, st, dst, c):
    if isc(dst):
        st.ghost['_loc'] = tuple(x for x in st.ghost['_loc'] if x[0] != dst) + ((dst, c),)
        return
    k, u, _ = unit_of_name(ex, dst)
    ex.oblige(st, 'a name is written only while the unit is in no list', S(own(st, k), u) == NOHEAD, 'guarantee')
    st.ghost['name.' + k] = St(st.ghost['name.' + k], u, c)


def content(ex, st, p):
    """content of the string at p"""
    if isc(p):
        b = ex.load_local(st, p, 1, 8)
        for d, c in st.ghost['_loc']:
            if d == p:
                return c
        if isc(b) and b == 0:
            return EMPTY
        raise Unsupported('string of unknown content')
    for k, tg in NAMEF.items():
        if ex.tag_of(p) == tg:
            k, u, _ = unit_of_name(ex, p)
            return S(st.ghost['name.' + k], u)
    return NAMEOF(p)


def m_strncpy(ex, st, args, ins):
    """trusted: copies the first n characters of the string"""
    ex.oblige(st, 'the first 63 characters of a name count', bv(args[2], 64) == 63, 'post')
    c = content(ex, st, args[1])
    if isc(args[0]):
        ex.clear_cells(ex.find_obj(st, args[0]), args[0] - ex.find_obj(st, args[0]).base, args[0] - ex.find_obj(st, args[0]).base + 63)
        ex.store_local(st, args[0], 1, fresh('char', 8))
    set_name(ex, st, args[0], c)
    return args[0]


def m_strlen(ex, st, args, ins):
    """trusted: the length of the string"""
    return LENF(content(ex, st, args[0]))


def m_hash(ex, st, args, ins):
    """assumed: the hash is a function of the bytes given"""
    c = content(ex, st, args[0])
    ex.oblige(st, 'the hash of a name is taken over the whole name', bv(args[1], 64) == LENF(c), 'post')
    return HASHF(c)


def name_match(ex, st, kind, pb, b, axioms):
    """the comparator (verified): hash and first 63 characters"""
    s, i = NAMEF[kind]
    hi = 3 if kind == 'nmtx' else 2
    hb = D(ex, st, kind, hi, b)
    nb = S(st.ghost['name.' + kind], b)
    if axioms:
        st.assume(Imp(S(own(st, kind), b) == active(ex, st, kind), hb == HASHF(nb)))
    if isc(pb):
        hp = bv(ex.load_local(st, pb + fld(ex, s, hi)[0], 8, 64), 64)
        np = content(ex, st, pb + fld(ex, s, i)[0])
    else:
        hp, np = D(ex, st, kind, hi, pb), S(st.ghost['name.' + kind], bv(pb, 64))
    return And(hp == hb, np == nb)


# ---------------------------------------------------------------- invariants
def facts(ex, st, kind, u):
    o = S(own(st, kind), u)
    fr = free_list(ex, st, kind)
    if kind in ACTIVE:
        ac = active(ex, st, kind)
        st.assume(Imp(o != NOHEAD, Or(o == fr, o == ac)))
        nm = st.ghost['name.' + kind]
        hi = 3 if kind == 'nmtx' else 2
        st.assume(Imp(o == ac, D(ex, st, kind, hi, u) == HASHF(S(nm, u))))
        for b in terms(ex, kind):
            st.assume(Imp(And(o == ac, S(own(st, kind), b) == ac, S(nm, b) == S(nm, u)), bv(u, 64) == b))
        if kind == 'ncond':
            for x in terms(ex, 'waiter'):
                st.assume(Imp(And(o != NOHEAD, o != ac), S(own(st, 'waiter'), x) != hid_of(ex, WL[0], WL[1], u)))
    else:
        st.assume(Imp(o != NOHEAD, Or(o == fr, And(is_list(o, WL), S(own(st, 'ncond'), hbase(o)) == active(ex, st, 'ncond')))))


def unit_hook(ex, st, kind, u):
    facts(ex, st, kind, u)


def watch_facts(ex, st, group=None):
    for k in NAMED:
        if group is not None and GROUP[k] != group:
            continue
        for b in terms(ex, k):
            st.assume(S(own(st, k), b) != NOHEAD)
            facts(ex, st, k, b)


def monitor(ex, st, group):
    out = []
    for k in NAMED:
        if GROUP[k] != group:
            continue
        T = terms(ex, k)[:2]
        for b in T:
            out.append(('every unit is in a list', S(own(st, k), b) != NOHEAD))
        if k in ACTIVE:
            ac = active(ex, st, k)
            nm = st.ghost['name.' + k]
            hi = 3 if k == 'nmtx' else 2
            for i, b in enumerate(T):
                out.append(('the hash of a named unit is that of its name', Imp(S(own(st, k), b) == ac, D(ex, st, k, hi, b) == HASHF(S(nm, b)))))
                for c in T[i + 1:]:
                    out.append(('one unit per name', Imp(And(S(own(st, k), b) == ac, S(own(st, k), c) == ac, S(nm, b) == S(nm, c)), b == c)))
        else:
            for b in T:
                o = S(own(st, k), b)
                out.append(('a waiter belongs to a condition in use, or is free', Or(o == free_list(ex, st, k), And(is_list(o, WL), S(own(st, 'ncond'), hbase(o)) == active(ex, st, 'ncond')))))
    out.append(('no list is left half taken apart', st.ghost['dis'] == NOHEAD))
    return out


def on_unlink(ex, st, kind, n, H):
    if kind == 'waiter':
        lst = is_list(H, WL)
        ex.oblige(st, 'a waiter leaves its condition only by its own thread, or when its thread is gone', Imp(lst, Or(D(ex, st, 'waiter', 1, n) == ME, S(st.ghost['judged'], n))), 'guarantee')
        st.ghost['newW'] = z3.If(lst, st.ghost['newW'], n)
        st.ghost['ntaken'] = st.ghost['ntaken'] + z3.If(lst, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    elif kind in ACTIVE:
        ex.oblige(st, 'a named unit is never taken out of use', H == free_list(ex, st, kind), 'guarantee')
        st.ghost['new.' + kind] = n
        st.ghost['nnew.' + kind] = st.ghost['nnew.' + kind] + 1


def on_link(ex, st, kind, n, H):
    fr = free_list(ex, st, kind)
    if kind == 'waiter':
        stt = S(A(ex, st, ('fl_waiter', 2)), FA(ex, n, 'fl_waiter', 2))
        ex.oblige(st, 'a waiter is put only into a condition in use, under its own thread, waiting', Imp(H != fr, And(is_list(H, WL), D(ex, st, 'waiter', 1, n) == ME, stt == WAITING, S(own(st, 'ncond'), hbase(H)) == active(ex, st, 'ncond'))), 'guarantee')
        st.ghost['notw'] = z3.If(H != fr, St(st.ghost['notw'], n, z3.BoolVal(False)), st.ghost['notw'])
        st.ghost['mywaiter'] = z3.If(H != fr, n, z3.If(st.ghost['mywaiter'] == n, z3.BitVecVal(0, 64), st.ghost['mywaiter']))
        st.ghost['signalled'] = z3.If(H != fr, z3.BoolVal(False), bl(st.ghost['signalled']))
        st.ghost['stopped'] = z3.If(H != fr, z3.BoolVal(False), bl(st.ghost['stopped']))
    else:
        ac = active(ex, st, kind)
        nm = st.ghost['name.' + kind]
        ex.oblige(st, 'a named unit is made only for a name that has none', Imp(H != fr, And(H == ac, *[Imp(S(own(st, kind), b) == H, S(nm, b) != S(nm, n)) for b in terms(ex, kind)])), 'guarantee')
        if kind == 'ncond':
            ex.oblige(st, 'a condition starts without a waiter', headw(ex, st, WL, n) == 0, 'guarantee')
            for x in terms(ex, 'waiter'):
                st.assume(S(own(st, 'waiter'), x) != hid_of(ex, WL[0], WL[1], n))   # it was in no list, or free


def forget(ex, st, group):
    old = {k: own(st, k) for k in NAMED}
    oldm = dict(st.mem)
    oldn = {k: st.ghost['name.' + k] for k in ACTIVE}
    for k in NAMED:
        if GROUP[k] != group:
            continue
        s, heads = KINDS[k]
        st.ghost['own.' + k] = fresh('own.' + k, OWNS)
        st.ghost['pos.' + k] = fresh('pos.' + k, POSS)
        for t in [(s, 0)] + list(heads) + [(s, i) for i in WORDS[k]]:
            st.mem[t] = fresh('M_%s_%d' % t, ex.region_of[t].init().sort())
        if k in ACTIVE:
            st.ghost['name.' + k] = fresh('name.' + k, st.ghost['name.' + k].sort())
    if group == 'ncond':
        st.ghost['notw'] = fresh('notw', SETB)
        # rely: a waiter stays in its list until its own thread takes it out
        w = st.ghost['mywaiter']
        c = And(w != 0, is_list(S(old['waiter'], w), WL))
        st.assume(Imp(c, And(S(own(st, 'waiter'), w) == S(old['waiter'], w), D(ex, st, 'waiter', 1, w) == ME)))
        facts(ex, st, 'waiter', w)
    # rely: a named unit stays in use under its name
    for k in ACTIVE:
        if GROUP[k] == group:
            ac = active(ex, st, k)
            for b in list(terms(ex, k)) + list(ex.kept.get(k, ())):
                st.assume(Imp(S(old[k], b) == ac, And(S(own(st, k), b) == ac, S(st.ghost['name.' + k], b) == S(oldn[k], b))))
                facts(ex, st, k, b)
    watch_facts(ex, st, group)
    for f in ex.on_acquire:
        f(st, group)


def m_lock_id(ex, st, args, ins):
    """contract of the internal lock (verified under P08): holds it when it returns"""
    g = group_of(ex, args[0])
    ex.oblige(st, 'the internal lock is taken for this thread, and not twice', And(bv(args[1], 64) == ME, not st.ghost['held.' + g]), 'monitor')
    st.ghost['held.' + g] = True
    forget(ex, st, g)
    st.ghost['nacq.' + g] = st.ghost['nacq.' + g] + 1
    return None


def m_unlock_id(ex, st, args, ins):
    """contract of the internal unlock (verified under P08): free, or not this thread's, when it returns"""
    g = group_of(ex, args[0])
    ex.oblige(st, 'the internal lock is released by the thread that holds it', And(bv(args[1], 64) == ME, st.ghost['held.' + g]), 'monitor')
    for l, c in monitor(ex, st, g):
        ex.oblige(st, 'at release: ' + l, c, 'monitor')
    st.ghost['held.' + g] = False
    return None


def m_find(ex, st, args, ins):
    """assumed contract: false only for a thread that no longer exists, and always for one gone before; the cache argument is only a cache"""
    r = fresh('alive', 1)
    i = z3.Concat(bv(args[0], 32), bv(args[1], 32))
    st.assume(Imp(Not(r), D1(i)))
    st.assume(Imp(D0(i), And(D1(i), Not(r))))
    if '_ev' in st.ghost:
        st.ghost['_ev'] = st.ghost['_ev'] + (('judge', i, r),)
    return r


BASEM = {'fullock::fl_lock_lockid': m_lock_id, 'fullock::fl_unlock_lockid': m_unlock_id, 'get_flckpid': lambda ex, st, a, i: ME, 'FindThreadProcess': m_find,
         '__errno_location': m_errno, 'strncpy': m_strncpy, 'strlen': m_strlen, 'flck_fnv_hash': m_hash, 'FlShm::CheckAttach': m_attached}


def rfind_waiter(ex, st, args, ins):
    """contract of the search for the last waiter (verified): statuses only go from waiting to up, so what was passed over stays up"""
    this, pb, h = args
    H = hid(ex, h)
    ex.oblige(st, 'lists are used only under their internal lock', st.ghost['held.ncond'], 'monitor')
    ex.oblige(st, 'what is searched for is a waiter that waits', bv(ex.load_local(st, pb + fld(ex, 'fl_waiter', 2)[0], 4, 32), 32) == WAITING, 'post')
    o = st.ghost['notw']
    nw = fresh('notw', SETB)
    W = terms(ex, 'waiter')
    for b in W:
        st.assume(Imp(S(o, b), S(nw, b)))
    st.ghost['notw'] = nw
    s2 = st.copy()
    ow, ps = own(st, 'waiter'), pos(st, 'waiter')
    for b in W:
        s2.assume(Imp(S(ow, b) == H, S(nw, b)))
    f = fresh('last_waiter', 64)
    ex.set_tag(f, ('fl_waiter',))
    st.assume(And(S(ow, f) == H, valid(ex, st, f)))
    for b in W:
        st.assume(c_rec.inv_node(ex, st, 'waiter', A(ex, st, ('fl_waiter', 0)), ow, ps, f, b))
        st.assume(Imp(And(S(ow, b) == H, S(ps, b) > S(ps, f)), S(nw, b)))
    ex.store_local(st, this + 8, 8, f)
    return [(st, True), (s2, False)]


# ---------------------------------------------------------------- setting
GHOSTS = ['own.nmtx', 'own.ncond', 'own.waiter', 'pos.nmtx', 'pos.ncond', 'pos.waiter', 'name.nmtx', 'name.ncond', 'notw', 'judged', 'forced', 'mywaiter', 'signalled', 'stopped', 'nwoken', 'woken', 'newW', 'ntaken',
          'new.nmtx', 'new.ncond', 'nnew.nmtx', 'nnew.ncond', 'held.nmtx', 'held.ncond', 'nacq.nmtx', 'nacq.ncond', 'dis', 'dry', 'macq', 'mrel', 'gaveup', 'mph', 'mdep', 'ncall', 'nwait']


def ensure(ex):
    for k in NAMED:
        s, heads = KINDS[k]
        ex.region_of.setdefault((s, 0), Word((s, 0), 64, k, 'next'))
        for h in heads:
            ex.region_of.setdefault(h, Word(h, 64, k, 'head'))
        for i in WORDS[k]:
            ex.region_of.setdefault((s, i), Word((s, i), fld(ex, s, i)[1], k, 'data'))
    ex.region_of.setdefault(('fl_waiter', 2), Status(('fl_waiter', 2), 32))
    ex.region_of.setdefault(('fl_named_mutex', 1), Owner(('fl_named_mutex', 1), 64))
    ex.region_of.setdefault(('fl_named_mutex', 2), Count(('fl_named_mutex', 2), 32))
    for k, t in NAMEF.items():
        ex.region_of.setdefault(t, NameBytes(t, k))


def setting(ex, st, nmtx=False, ncond=False):
    errno_setup(ex, st)
    for k in NAMED:
        list_ghosts(st, k)
    ex.noinst = False
    ex.entry_facts, ex.off_facts, ex.no_growth, ex.on_acquire = [], [], [], []
    ex.kept = {}
    ex.unit_hook, ex.on_unlink, ex.on_link, ex.match_hook, ex.rfind_waiter = unit_hook, on_unlink, on_link, name_match, rfind_waiter
    ensure(ex)
    ex.default_region[8] = ex.region_of['chars'] = Chars('chars', 8)
    base, h = B('shm.base', 64), B('header', 64)
    ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, base)
    ex.store_local(st, sym(ex, 'FlShm::pFlHead'), 8, h)
    st.assume(And(base != 0, h != 0, z3.ULE(G(ex, st, 'FlShm::RobustMode', 4), 2), ME != 0, HASHF(EMPTY) == 0))
    attached(ex, st)
    g = st.ghost
    z32, z64 = z3.BitVecVal(0, 32), z3.BitVecVal(0, 64)
    g['name.nmtx'], g['name.ncond'] = z3.Const('name0.nmtx', z3.ArraySort(BV64, BV64)), z3.Const('name0.ncond', z3.ArraySort(BV64, BV64))
    g['notw'] = z3.Const('notw0', SETB)
    g['judged'] = g['forced'] = z3.K(BV64, z3.BoolVal(False))
    for n in ('mywaiter', 'woken', 'newW', 'new.nmtx', 'new.ncond'):
        g[n] = z64
    for n in ('nwoken', 'ntaken', 'nnew.nmtx', 'nnew.ncond', 'nacq.nmtx', 'nacq.ncond', 'macq', 'mrel', 'gaveup', 'mph', 'mdep', 'ncall', 'nwait'):
        g[n] = z32
    g['signalled'] = g['stopped'] = z3.BoolVal(False)
    g['held.nmtx'], g['held.ncond'] = nmtx, ncond
    g['dis'], g['dry'] = NOHEAD, False
    g['_ev'], g['_loc'], g['_served'], g['_served2'] = (), (), None, None
    ex.watch = {'nmtx': [B('any_mutex', 64), B('any_other_mutex', 64)], 'ncond': [B('any_cond', 64), B('any_other_cond', 64)], 'waiter': [B('any_waiter', 64)]}
    ex.E = None
    ex.C = None
    ex.M = None
    watch_facts(ex, st)


def allmem():
    out = []
    for k in NAMED:
        s, heads = KINDS[k]
        out += [('memall', (s, 0))] + [('memall', h) for h in heads] + [('memall', (s, i)) for i in WORDS[k]]
    return out + [('memall', ('fl_waiter', 2)), ('memall', ('fl_named_mutex', 1)), ('memall', ('fl_named_mutex', 2))]


def everything(ex):
    return [('ghost', g) for g in GHOSTS] + allmem() + [('cell', ex.errno_addr, 4)]


def stay_cands(ex, entry, head, mods, depth, ghosts=None):
    out = []
    for it in mods:
        if it[0] == 'ghost' and not it[1].startswith('_'):
            e = entry.ghost.get(it[1])
            if e is not None and not isinstance(e, tuple) and (ghosts is None or it[1] in ghosts):
                out.append(('%s stays' % it[1], lambda s, g=it[1], e=e: eqv(s.ghost[g], e)))
        elif it[0] == 'mem':
            e = ex.get_item(entry, it, depth)
            if e is not None:
                out.append(('%s stays' % (it,), lambda s, it=it, e=e: ex.get_item(s, it, depth) == e))
        elif it[0] in ('phi', 'cell'):
            e, v = ex.get_item(entry, it, depth), ex.get_item(head, it, depth)
            if isc(e) and v is not None and not isinstance(v, tuple) and not isc(v):
                out.append(('%s keeps' % (it,), lambda s, it=it, e=e, v=v: eqv(ex.get_item(s, it, depth), e) if not z3.is_bool(v) else bl(ex.get_item(s, it, depth)) == bool(e)))
    return out


def this_unit(ex, st, o):
    return bv(ex.load_local(st, o + 8, 8, 64), 64)


# ---------------------------------------------------------------- A: FlListNMtx::rawlock
def m_mx(how):
    def f(ex, st, args, ins):
        """contract of the mutex primitive (verified under P02, P04)"""
        u = ex.U
        ex.oblige(st, 'the owner word and the count are those of this mutex', And(bv(args[0], 64) == FA(ex, u, 'fl_named_mutex', 1), bv(args[1], 64) == FA(ex, u, 'fl_named_mutex', 2)), 'post')
        ex.oblige(st, 'the mutex is taken and given back for this thread', bv(args[2], 64) == ME, 'post')
        to = ex.timeout_arg
        r = fresh('mx', 32)
        if how == 'unlock':
            st.ghost['ncall'] = st.ghost['ncall'] + 1
            s2 = st.copy()
            st.ghost['mrel'] = st.ghost['mrel'] + 1
            s2.assume(r == EPERM)
            s2.ghost['_r'] = r
            st.ghost['_r'] = z3.BitVecVal(0, 32)
            return [(st, 0), (s2, r)]
        ex.oblige(st, 'waiting for a mutex never happens inside the internal lock', Or(not st.ghost['held.nmtx'], how == 'try'), 'post')
        if how == 'lock':
            ex.oblige(st, 'a request without timeout waits without end', to == -1, 'post')
            m = bv(args[3], 32)
            ex.oblige(st, 'the wait is interrupted for recovery only in high robust mode', Imp(m != -1, ex.high), 'post')
            ans = And(r == EWOULDBLOCK, m != -1)
        elif how == 'try':
            ex.oblige(st, 'a try request, and only it, does not wait', to == 0, 'post')
            ans = r == EBUSY
        else:
            s, n = bv(ex.load(st, None, ('int', 64), args[3]), 64), bv(ex.load(st, None, ('int', 64), ex.add(args[3], 8)), 64)
            ex.oblige(st, 'a timed request waits for the time given', And(to != 0, to != -1, s == ex.to_sec, n == ex.to_usec * 1000), 'post')
            ans = Or(r == EBUSY, r == ETIMEDOUT)
        ex.oblige(st, 'a request that was told busy or timed out does not try again', Or(to == -1, st.ghost['gaveup'] == 0), 'post')
        s2 = st.copy()
        st.ghost['macq'] = st.ghost['macq'] + 1
        s2.ghost['gaveup'] = s2.ghost['gaveup'] + 1
        s2.assume(ans)
        return [(st, 0), (s2, r)]
    return f


def m_check_mutexes(ex, st, args, ins):
    """contract of the recovery pass over the mutexes (verified under P06)"""
    ex.oblige(st, 'recovery runs for this thread, spares it, and not inside the internal lock', And(Or(bv(args[1], 64) == 0, bv(args[1], 64) == ME), bv(args[2], 64) == ME, not st.ghost['held.nmtx']), 'post')
    return fresh('recovered', 1)


MXM = {'fullock::fl_lock_mutex': m_mx('lock'), 'fullock::fl_trylock_mutex': m_mx('try'), 'fullock::fl_timedlock_mutex': m_mx('timed'), 'fullock::fl_unlock_mutex': m_mx('unlock'), 'FlShm::CheckMutexDeadLock': m_check_mutexes}


class MutexRaw(Contract):
    """FlListNMtx::rawlock: one lock or unlock of a mutex"""

    def __init__(self):
        Contract.__init__(self, target='FlListNMtx::rawlock', props=('P02', 'P04'), models=dict(BASEM, **MXM), fallback=fallback)

    def setup(self, ex, st):
        setting(ex, st)
        o, u = obj(ex, st, 'fl_named_mutex', 'mutex')
        ex.U = u
        ex.high = G(ex, st, 'FlShm::RobustMode', 4) == 2
        to = timeout_arg(ex, st)
        lt = z3.BitVec('lock_type', 32)
        st.assume(Or(lt == 0, lt == 2))
        return [o, lt, to]

    def post(self, ex, old, st, a, ret):
        r, lt, to = bv(ret, 32), bv(a[1], 32), bv(a[2], 64)
        one = lambda g: st.ghost[g] == old.ghost[g] + 1
        zero = lambda g: st.ghost[g] == old.ghost[g]
        un = lt == UNLOCK_
        out = [('a lock request never gives back, an unlock never takes', And(Imp(un, zero('macq')), Imp(Not(un), zero('mrel')))),
               ('unlocking: exactly one hold is given back on success, none otherwise', Imp(un, z3.If(r == 0, one('mrel'), zero('mrel')))),
               ('unlocking answers success or not the owner', Imp(un, Or(r == 0, r == EPERM))),
               ('locking: exactly one hold is taken on success, none otherwise', Imp(Not(un), z3.If(r == 0, one('macq'), zero('macq')))),
               ('a request without timeout succeeds when it returns', Imp(And(Not(un), to == -1), r == 0)),
               ('a try request answers success or busy', Imp(And(Not(un), to == 0), Or(r == 0, r == EBUSY))),
               ('a timed request answers success, busy or timed out', Imp(And(Not(un), to > 0), Or(r == 0, r == EBUSY, r == ETIMEDOUT)))]
        return out

    def modifies(self, ex, st, a):
        return [('ghost', 'macq'), ('ghost', 'mrel'), ('ghost', 'gaveup'), ('ghost', 'ncall')]

    def ret_sort(self):
        return z3.BitVecSort(32)

    def apply(self, ex, st, args, ins):
        u = this_unit(ex, st, args[0])
        lt, to = bv(args[1], 32), bv(args[2], 64)
        ex.oblige(st, 'requires of FlListNMtx::rawlock: a mutex, and waiting never inside an internal lock', And(u != 0, Or(lt == 0, And(not st.ghost['held.nmtx'], not st.ghost['held.ncond'], Or(to == -1, st.ghost['gaveup'] == 0)))), 'pre')
        r = Contract.apply(self, ex, st, args, ins)
        for s, v in r:
            s.ghost['_served'] = (u, lt, to, v, S(s.ghost['name.nmtx'], u))
            s.ghost['ncall'] = simp(st.ghost['nwait'] * 0 + s.ghost['ncall'])
        return r

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        to = ex.timeout_arg
        return stay_cands(ex, entry, head, mods, depth) + [('not given up', lambda s: Or(to == -1, s.ghost['gaveup'] == 0))]


UNLOCK_ = 0


# ---------------------------------------------------------------- B: FlListNMtx::check_dead_lock
def m_force(ex, st, args, ins):
    """contract of the forced unlock (verified under P02, P06): clears the owner word of an owner that is gone"""
    t = ex.tag_of(args[0])
    if t != ('fl_named_mutex', 1):
        raise Unsupported('forced unlock of an unknown word')
    u = simp(bv(args[0], 64) - fld(ex, 'fl_named_mutex', 1)[0])
    ex.oblige(st, 'owner word and count belong together', bv(args[1], 64) == FA(ex, u, 'fl_named_mutex', 2), 'post')
    ev = st.ghost['_ev']
    just = []
    for j, e in enumerate(ev):
        if e[0] != 'judge':
            continue
        i, r = e[1], e[2]
        for a in ev[:j]:
            for b in ev[j + 1:]:
                if a[0] == b[0] == 'load':
                    just.append(And(Not(r), a[1] == u, b[1] == u, a[2] == i, b[2] == i, i != 0, i != ex.exc))
    ex.oblige(st, 'a mutex is taken away only from an owner found gone that still owned it after that', Or(*just) if just else False, 'guarantee')
    ex.oblige(st, 'a mutex is taken away only under the internal lock', st.ghost['held.nmtx'], 'guarantee')
    st.ghost['forced'] = St(st.ghost['forced'], u, z3.BoolVal(True))
    return 0


class MutexDead(Contract):
    """FlListNMtx::check_dead_lock: recovery of one mutex"""

    def __init__(self):
        Contract.__init__(self, target='FlListNMtx::check_dead_lock', props=('P06', 'P02'), models=dict(BASEM, **{'fullock::fl_force_unlock_mutex': m_force}), fallback=fallback)

    def setup(self, ex, st):
        setting(ex, st, nmtx=True)
        o, u = obj(ex, st, 'fl_named_mutex', 'mutex')
        st.assume(S(own(st, 'nmtx'), u) == active(ex, st, 'nmtx'))
        ex.exc = z3.BitVec('except_pid', 64)
        return [o, z3.BitVec('cache', 64), ex.exc]

    def pre(self, ex, st, a):
        u = this_unit(ex, st, a[0])
        return [('a mutex in use, under the internal lock', And(u != 0, st.ghost['held.nmtx'], S(own(st, 'nmtx'), u) == active(ex, st, 'nmtx')))]

    def post(self, ex, old, st, a, ret):
        u = this_unit(ex, old, a[0])
        o, f = S(OWNER0, u), S(st.ghost['forced'], u)
        return [('answers whether it was taken away', And(Imp(bl(ret), f), Imp(And(f, Not(S(old.ghost['forced'], u))), bl(ret)))),
                ('a mutex whose owner was gone before the pass is taken away', Imp(And(D0(o), o != 0, o != bv(a[2], 64)), f)),
                ('nothing else is taken away', st.ghost['forced'] == z3.If(bl(ret), St(old.ghost['forced'], u, z3.BoolVal(True)), old.ghost['forced']))]

    def modifies(self, ex, st, a):
        return [('ghost', 'forced')]

    def ret_sort(self):
        return z3.BoolSort()


# ---------------------------------------------------------------- C: FlListWaiter::rawlock
def m_nmtx(ex, st, args, ins):
    """contract of FlListNMtx::rawlock (verified under P02, P04), as used by a wait"""
    u = this_unit(ex, st, args[0])
    ex.oblige(st, 'the mutex used by a wait is the one of the request', u == ex.M, 'post')
    lt, to = bv(args[1], 32), bv(args[2], 64)
    g = st.ghost
    ph = g['mph']
    if ex.provable(st, lt == 0):
        ex.oblige(st, 'a wait releases the mutex, level by level, before it waits', Or(ph == 0, And(ph == 1, g['mdep'] > 0)), 'post')
        s2 = st.copy()
        st.ghost['mph'] = z3.BitVecVal(1, 32)
        st.ghost['mdep'] = z3.If(g['mdep'] > 0, g['mdep'] - 1, g['mdep'])
        s2.ghost['mph'] = z3.BitVecVal(9, 32)
        r = fresh('unlock', 32)
        s2.assume(And(r == EPERM, s2.ghost['mdep'] == 0))
        return [(st, 0), (s2, r)]
    ex.oblige(st, 'after a wait the mutex is taken again, without any timeout', And(lt == 2, to == -1, Or(ph == 2, ph == 3)), 'post')
    g['mph'] = z3.BitVecVal(3, 32)
    g['mdep'] = g['mdep'] + 1
    return [(st, 0)]


def status_unit(ex, addr):
    if isc(addr) or ex.tag_of(addr) != ('fl_waiter', 2):
        raise Unsupported('status word of unknown kind')
    return simp(bv(addr, 64) - fld(ex, 'fl_waiter', 2)[0])


def m_wait(timed):
    def f(ex, st, args, ins):
        """contract of the wait primitive (verified under P03, P04)"""
        u = status_unit(ex, args[0])
        g = st.ghost
        ex.oblige(st, 'a wait waits for its own status to go up, after the mutex was released', And(u == g['mywaiter'], bv(args[1], 32) == UP, g['mph'] == 1), 'post')
        ex.oblige(st, 'while it waits a thread does not own the mutex at any level', g['mdep'] == 0, 'post')
        to = ex.timeout_arg
        g['mph'] = z3.BitVecVal(2, 32)
        s2 = st.copy()
        st.ghost['signalled'] = z3.BoolVal(True)
        st.ghost['notw'] = St(st.ghost['notw'], u, z3.BoolVal(True))
        if not timed:
            ex.oblige(st, 'a wait without timeout waits without end', to == -1, 'post')
            return [(st, 0)]
        s, n = bv(ex.load(st, None, ('int', 64), args[2]), 64), bv(ex.load(st, None, ('int', 64), ex.add(args[2], 8)), 64)
        ex.oblige(st, 'a timed wait waits for the time given', And(to != -1, s == ex.to_sec, n == ex.to_usec * 1000), 'post')
        r = fresh('wait', 32)
        s2.assume(Or(r == EBUSY, r == ETIMEDOUT))
        return [(st, 0), (s2, r)]
    return f


def m_set_cond(ex, st, args, ins):
    """contract of the forced status change (verified under P03)"""
    u = status_unit(ex, args[0])
    ex.oblige(st, 'a wait is given up only by its own thread, when the mutex could not be released', And(u == st.ghost['mywaiter'], bv(args[1], 32) == UP, st.ghost['mph'] == 9), 'guarantee')
    st.ghost['stopped'] = z3.BoolVal(True)
    st.ghost['notw'] = St(st.ghost['notw'], u, z3.BoolVal(True))
    return 0


WTM = {'FlListNMtx::rawlock': m_nmtx, 'fullock::fl_wait_cond': m_wait(False), 'fullock::fl_timedwait_cond': m_wait(True), 'fullock::fl_force_set_cond': m_set_cond}


class WaiterRaw(Contract):
    """FlListWaiter::rawlock: waiting, or waking one waiter"""

    def __init__(self):
        Contract.__init__(self, target='FlListWaiter::rawlock', props=('P03', 'P04'), models=dict(BASEM, **WTM), fallback=fallback)

    def initial_states(self, ex):
        for lt in (UP, WAITING):
            st = State()
            setting(ex, st, ncond=(lt == UP))
            o, u = obj(ex, st, 'fl_waiter', 'waiter')
            to = timeout_arg(ex, st)
            if lt == WAITING:
                st.ghost['mywaiter'] = u
                st.assume(And(is_list(S(own(st, 'waiter'), u), WL), D(ex, st, 'waiter', 1, u) == ME))
                st.ghost['notw'] = fresh('notw', SETB)
                ex.M = simp(mutex_of(ex, st, u))
                st.assume(Or(D(ex, st, 'waiter', 3, u) == 0, valid(ex, st, ex.M)))
                st.ghost['mdep'] = fresh('own_levels', 32)
                st.assume(And(st.ghost['mdep'] >= 0, st.ghost['mdep'] < (1 << 28)))
            else:
                st.assume(is_list(S(own(st, 'waiter'), u), WL))
            yield st, [o, lt, to]

    def post(self, ex, old, st, a, ret):
        r, lt, to = bv(ret, 32), a[1], bv(a[2], 64)
        u = this_unit(ex, old, a[0])
        g, o = st.ghost, old.ghost
        if lt == UP:
            return [('a waiter is woken on success, and only then', z3.If(r == 0, And(g['nwoken'] == o['nwoken'] + 1, g['woken'] == u), And(g['nwoken'] == o['nwoken'], g['woken'] == o['woken']))),
                    ('otherwise it was no longer waiting', Imp(r != 0, r == EAGAIN)), ('after this it does not wait any more', S(g['notw'], u)),
                    ('waking one waiter touches no other', g['notw'] == St(o['notw'], u, S(g['notw'], u)))]
        sig, stp, ph = bl(g['signalled']), bl(g['stopped']), g['mph']
        M = mutex_of(ex, old, u)
        return [('after a wait the caller has the mutex again', Or(ph == 3, ph == 9, And(ph == 0, M == 0))),
                ('as many times as before', z3.If(ph == 3, g['mdep'] == z3.If(o['mdep'] == 0, z3.BitVecVal(1, 32), o['mdep']), g['mdep'] == o['mdep'])),
                ('success exactly when a signal came', Imp(ph == 3, (r == 0) == And(sig, Not(stp)))),
                ('a wait that ends without a signal takes no signal any more', Imp(And(ph == 3, r != 0), And(stp, Not(sig)))),
                ('a wait without timeout ends only by a signal', Imp(And(ph == 3, to == -1), r == 0)),
                ('a timed wait ends by a signal, busy or timed out', Imp(ph == 3, Or(r == 0, r == EBUSY, r == ETIMEDOUT))),
                ('a mutex that is not owned is refused without waiting', Imp(ph == 9, And(r == EPERM, stp))),
                ('without a mutex there is no wait', Imp(ph == 0, r == EINVAL)), ('waiting wakes nobody', And(g['nwoken'] == o['nwoken'], g['woken'] == o['woken']))]

    def modifies(self, ex, st, a):
        return [('ghost', x) for x in ('notw', 'signalled', 'stopped', 'nwoken', 'woken', 'mph', 'mdep')]

    def ret_sort(self):
        return z3.BitVecSort(32)

    def apply(self, ex, st, args, ins):
        u = this_unit(ex, st, args[0])
        lt = args[1] if isc(args[1]) else z3.simplify(bv(args[1], 32))
        if not isc(lt):
            if not z3.is_bv_value(lt):
                raise Unsupported('kind of waiter request unknown')
            lt = lt.as_long()
        a = [args[0], lt, args[2]]
        if lt == UP:
            ex.oblige(st, 'requires of FlListWaiter::rawlock: a listed waiter, under the internal lock', And(u != 0, st.ghost['held.ncond'], is_list(S(own(st, 'waiter'), u), WL)), 'pre')
            if ex.C is not None:
                ex.oblige(st, 'only a waiter of this condition is signalled', S(own(st, 'waiter'), u) == ex.C, 'post')
            return Contract.apply(self, ex, st, a, ins)
        ex.oblige(st, 'requires of FlListWaiter::rawlock: its own listed waiter, and not inside the internal lock', And(u != 0, u == st.ghost['mywaiter'], Not(bl(st.ghost['held.ncond'])), is_list(S(own(st, 'waiter'), u), WL)), 'pre')
        m = mutex_of(ex, st, u)
        ex.oblige(st, 'requires of FlListWaiter::rawlock: a valid mutex, or none', Or(D(ex, st, 'waiter', 3, u) == 0, valid(ex, st, m)), 'pre')
        st.ghost['mph'] = z3.BitVecVal(0, 32)
        st.ghost['mdep'] = fresh('own_levels', 32)
        st.assume(And(st.ghost['mdep'] >= 0, st.ghost['mdep'] < (1 << 28)))
        h = S(own(st, 'waiter'), u)
        st.ghost['nwait'] = st.ghost['nwait'] + 1
        r = Contract.apply(self, ex, st, a, ins)
        for s, v in r:
            s.ghost['_served2'] = (u, h, m, bv(args[2], 64), v)
        return r

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        out = stay_cands(ex, entry, head, mods, depth)
        d0 = bv(old.ghost['mdep'], 32)
        tot = z3.If(d0 == 0, z3.BitVecVal(1, 32), d0)
        out.append(('phase', lambda s: (s.ghost['mph'] == z3.If(s.ghost['mdep'] == 0, z3.BitVecVal(2, 32), z3.BitVecVal(3, 32)))))
        out.append(('levels', lambda s: And(s.ghost['mdep'] >= 0, s.ghost['mdep'] <= tot)))
        for it in mods:
            if it[0] not in ('phi', 'cell'):
                continue
            v = ex.get_item(head, it, depth)
            if v is None or isinstance(v, tuple) or isc(v) or not z3.is_bv(v) or v.size() != 32:
                continue
            out.append(('%s levels' % (it,), lambda s, it=it: And(bv(ex.get_item(s, it, depth), 32) >= 0, bv(ex.get_item(s, it, depth), 32) + s.ghost['mdep'] == tot)))
            out.append(('%s back' % (it,), lambda s, it=it: And(bv(ex.get_item(s, it, depth), 32) >= 0, bv(ex.get_item(s, it, depth), 32) == s.ghost['mdep'])))
            out.append(('%s left' % (it,), lambda s, it=it: And(bv(ex.get_item(s, it, depth), 32) >= 1, bv(ex.get_item(s, it, depth), 32) <= tot)))
        return out


# ---------------------------------------------------------------- E, F: recovery of waiters
class WaiterDead(Contract):
    """FlListWaiter::check_dead_lock: the judgement over one waiter"""

    def __init__(self):
        Contract.__init__(self, target='FlListWaiter::check_dead_lock', props=('P06',), models=BASEM, fallback=fallback)

    def setup(self, ex, st):
        setting(ex, st, ncond=True)
        o, u = obj(ex, st, 'fl_waiter', 'waiter')
        st.assume(S(own(st, 'waiter'), u) != NOHEAD)
        return [o, z3.BitVec('cache', 64), z3.BitVec('except_pid', 64)]

    def pre(self, ex, st, a):
        u = this_unit(ex, st, a[0])
        return [('a listed waiter, under the internal lock', And(u != 0, st.ghost['held.ncond'], S(own(st, 'waiter'), u) != NOHEAD))]

    def post(self, ex, old, st, a, ret):
        p = D(ex, old, 'waiter', 1, this_unit(ex, old, a[0]))
        exc = p == bv(a[2], 64)
        return [('gone only when its thread is gone, and never the excepted one', Imp(bl(ret), And(D1(p), Not(exc)))), ('gone whenever its thread was gone before the pass', Imp(And(D0(p), Not(exc)), bl(ret)))]

    def ret_sort(self):
        return z3.BoolSort()

    def apply(self, ex, st, args, ins):
        r = Contract.apply(self, ex, st, args, ins)
        for s, v in r:
            u = this_unit(ex, s, args[0])
            s.ghost['judged'] = St(s.ghost['judged'], u, Or(S(s.ghost['judged'], u), bl(v)))
        return r


class CondDead(Contract):
    """FlListNCond::check_dead_lock: the recovery pass over the waiters of one condition"""

    def __init__(self):
        Contract.__init__(self, target='FlListNCond::check_dead_lock', props=('P06', 'P07'), models=BASEM, fallback=fallback, uses=LISTOPS + ['FlListWaiter::check_dead_lock'])
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 10, True, True, True

    def setup(self, ex, st):
        setting(ex, st, ncond=True)
        o, c = obj(ex, st, 'fl_named_cond', 'condition')
        st.assume(S(own(st, 'ncond'), c) == active(ex, st, 'ncond'))
        return [o, z3.BitVec('cache', 64), z3.BitVec('except_pid', 64)]

    def H(self, ex, st, a):
        return hid_of(ex, WL[0], WL[1], this_unit(ex, st, a[0]))

    def pre(self, ex, st, a):
        c = this_unit(ex, st, a[0])
        return [('a condition in use, under the internal lock', And(c != 0, st.ghost['held.ncond'], S(own(st, 'ncond'), c) == active(ex, st, 'ncond')))]

    def rel(self, ex, old, st, a, x, done=True):
        H, fr = self.H(ex, old, a), free_list(ex, old, 'waiter')
        o0, o1 = S(own(old, 'waiter'), x), S(own(st, 'waiter'), x)
        p = D(ex, old, 'waiter', 1, x)
        exc = p == bv(a[2], 64)
        out = [('only waiters whose thread is gone leave, and become free', Or(o1 == o0, And(o1 == fr, o0 == H, D1(p), Not(exc)))),
               ('a judgement is kept only for what is gone', Imp(And(S(st.ghost['judged'], x), Not(S(old.ghost['judged'], x))), And(o0 == H, D1(p), Not(exc))))]
        if done:
            out.append(('every waiter whose thread was gone leaves', Imp(And(o0 == H, D0(p), Not(exc)), o1 == fr)))
        return out

    def post(self, ex, old, st, a, ret):
        out = []
        for x in terms(ex, 'waiter'):
            out += self.rel(ex, old, st, a, x)
        return out + [('no list is left half taken apart', st.ghost['dis'] == old.ghost['dis'])]

    def modifies(self, ex, st, a):
        c = this_unit(ex, st, a[0])
        return [('ghost', 'own.waiter'), ('ghost', 'pos.waiter'), ('ghost', 'judged'), ('ghost', 'newW'), ('ghost', 'ntaken'), ('ghost', 'mywaiter'), ('ghost', 'signalled'), ('ghost', 'stopped'), ('ghost', 'notw'), ('memall', ('fl_waiter', 0)),
                ('mem', WL, FA(ex, c, *WL)), ('mem', ('fl_header', 14), FA(ex, hdr(ex, st), 'fl_header', 14))]

    def ret_sort(self):
        return z3.BoolSort()

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        out = walk_cands(ex, head, entry, mods, depth, 'waiter', [('waiters', self.H(ex, old, a))], [('not gone before the pass', lambda s, b: Or(D(ex, old, 'waiter', 1, b) == bv(a[2], 64), Not(D0(D(ex, old, 'waiter', 1, b)))))])
        for x in terms(ex, 'waiter'):
            for n, _ in self.rel(ex, old, head, a, x):
                out.append((n, lambda s, n=n, x=x: dict(self.rel(ex, old, s, a, x))[n]))
        return out + c_rec.frame_cands(ex, self, entry, head, mods, depth, a, old)


# ---------------------------------------------------------------- D: FlListNCond::rawlock
class CondRaw(Contract):
    """FlListNCond::rawlock: signal, broadcast, wait"""

    def __init__(self, what):
        Contract.__init__(self, target='FlListNCond::rawlock', name='FlListNCond::rawlock ' + what, props=('P03', 'P07', 'P08'), models=BASEM, fallback=fallback, uses=LISTOPS + ['FlListWaiter::rawlock'])
        self.what = what
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 10, True, True, True

    def setup(self, ex, st):
        setting(ex, st, ncond=True)
        o, c = obj(ex, st, 'fl_named_cond', 'condition')
        st.assume(S(own(st, 'ncond'), c) == active(ex, st, 'ncond'))
        ex.C = hid_of(ex, WL[0], WL[1], c)
        ex.kept['ncond'] = [c]
        to = timeout_arg(ex, st)
        m = z3.BitVec('mutex', 64)
        lt = WAITING if self.what == 'wait' else UP
        b = {'signal': False, 'broadcast': True, 'wait': z3.Bool('broadcast')}[self.what]
        return [o, lt, b, m, to]

    def pre(self, ex, st, a):
        c = this_unit(ex, st, a[0])
        m = bv(a[3], 64)
        return [('a condition in use, under the internal lock', And(c != 0, st.ghost['held.ncond'], S(own(st, 'ncond'), c) == active(ex, st, 'ncond'))), ('a valid mutex, or none', Or(m == 0, valid(ex, st, m))), ('this thread is not waiting', st.ghost['mywaiter'] == 0)]

    def post(self, ex, old, st, a, ret):
        r = bv(ret, 32)
        g, o = st.ghost, old.ghost
        c = this_unit(ex, old, a[0])
        H = hid_of(ex, WL[0], WL[1], c)
        x = terms(ex, 'waiter')[0]
        inH = S(own(old, 'waiter'), x) == H
        if self.what != 'wait':
            out = [('the internal lock stays with the caller', bl(g['held.ncond'])), ('waking always succeeds', r == 0), ('waking moves no unit', And(*[And(own(st, k) == own(old, k), pos(st, k) == pos(old, k)) for k in NAMED])), ('waking does not wait', g['nwait'] == o['nwait'])]
            if self.what == 'broadcast':
                return out + [('a broadcast leaves no waiter of the condition waiting', Imp(inH, S(g['notw'], x)))]
            w = g['woken']
            out += [('a signal wakes at most one waiter', Or(g['nwoken'] == o['nwoken'], g['nwoken'] == o['nwoken'] + 1)),
                    ('it is a waiter of the condition', Imp(g['nwoken'] != o['nwoken'], S(own(st, 'waiter'), w) == H)),
                    ('every waiter that waits longer than the one woken no longer waits', Imp(And(g['nwoken'] != o['nwoken'], inH, S(pos(old, 'waiter'), x) > S(pos(old, 'waiter'), w)), S(g['notw'], x))),
                    ('nobody is woken only when nobody waits', Imp(And(g['nwoken'] == o['nwoken'], inH), S(g['notw'], x)))]
            return out
        out = [('the internal lock is not held', Not(bl(g['held.ncond']))), ('no unit left is reported exactly when there is none', (r == ENOLCK) == bl(g['dry'])), ('a wait wakes nobody', g['nwoken'] == o['nwoken']),
               ('without a mutex a wait is refused', Imp(a[3] == 0, And(r == EINVAL, g['nwait'] == o['nwait'])))]
        sv = st.ghost['_served2']
        if sv is None:
            return out + [('a wait happens unless it is refused', And(r != 0, Or(a[3] == 0, bl(g['dry'])), g['nwait'] == o['nwait'])), ('a refused wait takes no unit', g['ntaken'] == o['ntaken'])]
        u, h, m, to, v = sv
        out += [('exactly one wait', g['nwait'] == o['nwait'] + 1), ('the wait is for this condition, with the mutex and the time given', And(h == H, m == bv(a[3], 64), to == bv(a[4], 64))),
                ('the answer is that of the wait', r == v), ('the one unit taken for it is free again', And(g['ntaken'] == o['ntaken'] + 1, u == g['newW'], g['mywaiter'] == 0, S(own(st, 'waiter'), u) == free_list(ex, st, 'waiter')))]
        return out

    def modifies(self, ex, st, a):
        return everything(ex)

    def ret_sort(self):
        return z3.BitVecSort(32)

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        c = this_unit(ex, old, a[0])
        H = hid_of(ex, WL[0], WL[1], c)
        x = terms(ex, 'waiter')[0]
        out = stay_cands(ex, entry, head, mods, depth) + walk_cands(ex, head, entry, mods, depth, 'waiter', [('waiters', H)], [('not waiting any more', lambda s, b: S(s.ghost['notw'], b))])
        out.append(('what is up stays up', lambda s: Imp(S(entry.ghost['notw'], x), S(s.ghost['notw'], x))))
        return out


# ---------------------------------------------------------------- G: recovery passes
class Pass(Contract):
    """a recovery pass over a list of named units"""

    def __init__(self, kind, target, sub, props):
        Contract.__init__(self, target=target, props=props, models=BASEM, fallback=fallback, uses=LISTOPS + [sub])
        self.kind = kind
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 10, True, True, True

    def setup(self, ex, st):
        setting(ex, st)
        self.at = None
        pid = z3.BitVec('flckpid', 64)
        ex.exc = z3.BitVec('except_pid', 64)
        st.assume(Or(pid == 0, pid == ME))

        def acq(s, g):
            if self.kind == 'ncond':
                x = terms(ex, 'waiter')[0]
                c = simp(hbase(S(own(s, 'waiter'), x)))
                ex.watch['ncond'] = ex.watch['ncond'][:2] + [c]
                facts(ex, s, 'ncond', c)
            self.at = s.copy()
        ex.on_acquire.append(acq)
        return [z3.BitVec('cache', 64), pid, ex.exc]

    def done(self, ex, s, a, b):
        """the unit b was treated"""
        at = self.at
        if self.kind == 'nmtx':
            o = S(OWNER0, b)
            return Imp(And(D0(o), o != 0, o != a[2]), S(s.ghost['forced'], b))
        x = terms(ex, 'waiter')[0]
        p = D(ex, at, 'waiter', 1, x)
        return Imp(And(S(own(at, 'waiter'), x) == hid_of(ex, WL[0], WL[1], b), D0(p), p != a[2]), S(own(s, 'waiter'), x) == free_list(ex, at, 'waiter'))

    def keep(self, ex, s, a):
        at = self.at
        if self.kind == 'nmtx':
            return []
        x = terms(ex, 'waiter')[0]
        p = D(ex, at, 'waiter', 1, x)
        o0, o1 = S(own(at, 'waiter'), x), S(own(s, 'waiter'), x)
        return [('only waiters whose thread is gone leave, and become free', Or(o1 == o0, And(o1 == free_list(ex, at, 'waiter'), is_list(o0, WL), D1(p), p != a[2])))]

    def post(self, ex, old, st, a, ret):
        out = [('the internal lock is not held', And(Not(bl(st.ghost['held.nmtx'])), Not(bl(st.ghost['held.ncond']))))]
        if self.at is None or not ex.provable(st, st.ghost['nacq.' + self.kind] != 0):
            return out + [('nothing is done without looking', Not(bl(ret)))]
        for b in terms(ex, self.kind):
            out.append(('every unit in use is treated', Imp(S(own(self.at, self.kind), b) == active(ex, old, self.kind), self.done(ex, st, a, b))))
        return out + self.keep(ex, st, a)

    def modifies(self, ex, st, a):
        return everything(ex)

    def ret_sort(self):
        return z3.BoolSort()

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        if self.at is None:
            return []
        out = stay_cands(ex, entry, head, mods, depth) + walk_cands(ex, head, entry, mods, depth, self.kind, [('list', active(ex, old, self.kind))], [('treated', lambda s, b: self.done(ex, s, a, b))])
        for i, (n, _) in enumerate(self.keep(ex, head, a)):
            out.append((n, lambda s, i=i: self.keep(ex, s, a)[i][1]))
        for l, (n, _) in enumerate(monitor(ex, head, GROUP[self.kind])):
            out.append((n, lambda s, l=l: monitor(ex, s, GROUP[self.kind])[l][1]))
        return out


# ---------------------------------------------------------------- H: the requests
def asked(ex, st, p):
    """the name asked for"""
    c = bv(ex.default_region[8].get(st, bv(p, 64)), 8)
    return z3.If(Or(p == 0, c == 0), EMPTY, NAMEOF(p))


class RawMutex(Contract):
    """FlShm::RawLock of a named mutex"""
    overloads = True

    def __init__(self, lock):
        Contract.__init__(self, target='FlShm::RawLock(flck_lock_type, char const*, long)', name='FlShm::RawLock(mutex) ' + ('lock' if lock else 'unlock'), props=('P02', 'P07', 'P08', 'P11'), models=BASEM, fallback=fallback, uses=LISTOPS + ['FlListNMtx::rawlock'])
        self.lock = lock
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 10, True, True, True

    def setup(self, ex, st):
        setting(ex, st)
        self.at = None

        def acq(s, g):
            self.at = s.copy()
        ex.on_acquire.append(acq)
        return [2 if self.lock else 0, z3.BitVec('pname', 64), timeout_arg(ex, st)]

    def post(self, ex, old, st, a, ret):
        r, g, o = bv(ret, 32), st.ghost, old.ghost
        nm = asked(ex, old, a[1])
        out = [('the internal lock is not held', Not(bl(g['held.nmtx']))), ('a missing name is refused, and only so without looking', (a[1] == 0) == (g['nacq.nmtx'] == 0))]
        sv = g['_served']
        x = terms(ex, 'nmtx')[0]
        ac = active(ex, old, 'nmtx')
        if sv is None:
            none = And(S(own(self.at, 'nmtx'), x) == ac, S(self.at.ghost['name.nmtx'], x) == nm) if self.at is not None else z3.BoolVal(False)
            out += [('without a mutex nothing is taken or given back', And(g['macq'] == o['macq'], g['mrel'] == o['mrel'], g['nnew.nmtx'] == o['nnew.nmtx'])),
                    ('refused only when the name is missing or unknown, or no unit is left', Or(And(r == EINVAL, Or(a[1] == 0, not self.lock)), And(r == ENOLCK, bl(g['dry']), self.lock))),
                    ('refused only when no mutex has the name', Imp(a[1] != 0, Not(none)))]
            return out
        u, lt, to, v, name = sv
        out += [('the mutex used is the one of the name', And(name == nm, S(own(st, 'nmtx'), u) == ac)), ('the request is the one asked for', And(lt == a[0], Or(not self.lock, to == bv(a[2], 64)))), ('the answer is that of the mutex', r == v),
                ('a unit is taken only when no mutex has the name', Or(g['nnew.nmtx'] == o['nnew.nmtx'], And(g['nnew.nmtx'] == o['nnew.nmtx'] + 1, u == g['new.nmtx'], Not(And(S(own(self.at, 'nmtx'), x) == ac, S(self.at.ghost['name.nmtx'], x) == nm)), self.lock))),
                ('a request that found its mutex is not refused for lack of units', Not(bl(g['dry'])))]
        return out

    def modifies(self, ex, st, a):
        return everything(ex)

    def ret_sort(self):
        return z3.BitVecSort(32)


class RawCond(Contract):
    """FlShm::RawLock of a condition variable"""
    overloads = True

    def __init__(self, what):
        Contract.__init__(self, target='FlShm::RawLock(flck_lock_type, char const*, char const*, bool, long)', name='FlShm::RawLock(cond) ' + what, props=('P03', 'P07', 'P08', 'P11'), models=dict(BASEM, **{'FlListNCond::rawlock': self.m_cond}), fallback=fallback, uses=LISTOPS)
        self.what = what
        self.cost, self.fresh_solver, self.abstract, self.lazy_feasible = 10, True, True, True

    def m_cond(self, ex, st, args, ins):
        """contract of FlListNCond::rawlock (verified under P03)"""
        u = this_unit(ex, st, args[0])
        ex.oblige(st, 'requires of FlListNCond::rawlock: a condition in use, under the internal lock', And(u != 0, st.ghost['held.ncond'], S(own(st, 'ncond'), u) == active(ex, st, 'ncond')), 'pre')
        lt, b, m, to = bv(args[1], 32), bl(args[2]), bv(args[3], 64), bv(args[4], 64)
        v = fresh('cond', 32)
        st.ghost['_served2'] = (u, lt, b, m, to, v, S(st.ghost['name.ncond'], u))
        st.ghost['nwait'] = st.ghost['nwait'] + 1
        if self.what != 'wait':
            st.assume(v == 0)
            return v
        for l, c in monitor(ex, st, 'ncond'):
            ex.oblige(st, 'at release: ' + l, c, 'monitor')
        st.ghost['held.ncond'] = False
        return v

    def setup(self, ex, st):
        setting(ex, st)
        self.at = {}

        def acq(s, g):
            self.at[g] = s.copy()
        ex.on_acquire.append(acq)
        b = {'signal': False, 'broadcast': True, 'wait': z3.Bool('broadcast')}[self.what]
        return [WAITING if self.what == 'wait' else UP, z3.BitVec('pcondname', 64), z3.BitVec('pmutexname', 64), b, timeout_arg(ex, st)]

    def post(self, ex, old, st, a, ret):
        r, g, o = bv(ret, 32), st.ghost, old.ghost
        nm, mm = asked(ex, old, a[1]), asked(ex, old, a[2])
        wait = self.what == 'wait'
        out = [('the internal locks are not held', And(Not(bl(g['held.nmtx'])), Not(bl(g['held.ncond'])))), ('a missing name is refused without looking', Imp(a[1] == 0, And(g['nacq.nmtx'] == 0, g['nacq.ncond'] == 0, r == EINVAL)))]
        x, y = terms(ex, 'ncond')[0], terms(ex, 'nmtx')[0]
        ac, am = active(ex, old, 'ncond'), active(ex, old, 'nmtx')
        sv = g['_served2']
        at = self.at.get('ncond') if ex.provable(st, g['nacq.ncond'] != 0) else None
        am_ = self.at.get('nmtx') if ex.provable(st, g['nacq.nmtx'] != 0) else None
        has = And(S(own(at, 'ncond'), x) == ac, S(at.ghost['name.ncond'], x) == nm) if at is not None else z3.BoolVal(False)
        hasm = And(S(own(am_, 'nmtx'), y) == am, S(am_.ghost['name.nmtx'], y) == mm) if am_ is not None else z3.BoolVal(False)
        if sv is None:
            return out + [('a request without a condition takes no unit', And(g['nnew.ncond'] == o['nnew.ncond'], g['nnew.nmtx'] == o['nnew.nmtx'])),
                          ('refused only when the condition is missing or unknown, the mutex is unknown, or no unit is left',
                           Or(And(r == EINVAL, Or(a[1] == 0, And(wait, at is None, am_ is not None, Not(hasm)), And(not wait, at is not None, Not(has)))), And(r == ENOLCK, bl(g['dry']), wait, Not(has))))]
        u, lt, b, m, to, v, name = sv
        out += [('exactly one request to the condition', g['nwait'] == o['nwait'] + 1), ('the condition used is the one of the name', name == nm), ('the request is the one asked for', And(lt == a[0], Or(wait, b == bl(a[3])), Or(not wait, to == bv(a[4], 64)))), ('the answer is that of the condition', r == v),
                ('a unit is taken only when no condition has the name', Or(g['nnew.ncond'] == o['nnew.ncond'], And(g['nnew.ncond'] == o['nnew.ncond'] + 1, u == g['new.ncond'], Not(has), wait))), ('no mutex is made for a wait', g['nnew.nmtx'] == o['nnew.nmtx'])]
        if wait:
            out.append(('the mutex used is the one of the name', And(am_ is not None, m != 0, S(own(st, 'nmtx'), m) == am, S(st.ghost['name.nmtx'], m) == mm)))
        return out

    def modifies(self, ex, st, a):
        return everything(ex)

    def ret_sort(self):
        return z3.BitVecSort(32)


def contracts():
    return [MutexRaw(), MutexDead(), WaiterRaw(), WaiterDead(), CondDead(), CondRaw('signal'), CondRaw('broadcast'), CondRaw('wait'),
            Pass('nmtx', 'FlShm::CheckMutexDeadLock', 'FlListNMtx::check_dead_lock', ('P06', 'P08')), Pass('ncond', 'FlShm::CheckCondDeadLock', 'FlListNCond::check_dead_lock', ('P06', 'P07', 'P08')),
            RawMutex(True), RawMutex(False), RawCond('signal'), RawCond('broadcast'), RawCond('wait')]
