"""Contracts of the list template (insert, retrieve, cut off, search) for every kind of unit.

Ghost state per kind: own[node] = the list (head) the node is in, 0 = in no list; pos[node] = its place.
The links in memory and the ghosts are tied by the list invariants, used only through instances:
  A(h,b)   head word of h empty -> b not in h;  else the first node k is in h and b in h -> b = k or k before b
  B(m,b)   m in h: no next -> b in h is m or before m; next k is in h, after m, and no b of h lies between.
Each operation is proved to keep the invariants for an arbitrary head, node and observer node, and to change
the ghosts exactly as stated.
"""
import z3
from .symex import *
from .regions import *
from .contract import Contract
from .c_unit import F, FA, fld, G, sym, NAMEEQ, off_post
from . import irparse as ir

KINDS = {'locker': ('fl_locker', (('fl_offset_lock', 4), ('fl_offset_lock', 5), ('fl_header', 11))),
         'off': ('fl_offset_lock', (('fl_file_lock', 3), ('fl_header', 10))),
         'file': ('fl_file_lock', (('fl_header', 4), ('fl_header', 9))),
         'nmtx': ('fl_named_mutex', (('fl_header', 6), ('fl_header', 12))),
         'waiter': ('fl_waiter', (('fl_named_cond', 1), ('fl_header', 14))),
         'ncond': ('fl_named_cond', (('fl_header', 8), ('fl_header', 13)))}
KIND_OF = {v[0]: k for k, v in KINDS.items()}
HEADCODE = {}
HEADKIND = {}
for _k, _v in KINDS.items():
    for _h in _v[1]:
        HEADCODE[_h] = len(HEADCODE) + 1
        HEADKIND[_h] = _k
HID = z3.BitVecSort(72)
NOHEAD = z3.BitVecVal(0, 72)
OWNS = z3.ArraySort(BV64, HID)
POSS = z3.ArraySort(BV64, z3.IntSort())


def hid(ex, addr):
    """identity of the list whose head word is at addr"""
    t = ex.tag_of(addr) if not isc(addr) else None
    if t not in HEADCODE:
        raise Unsupported('list head of unknown kind: %s' % (str(addr)[:60],))
    base = simp(bv(addr, 64) - fld(ex, t[0], t[1])[0])
    return z3.Concat(z3.BitVecVal(HEADCODE[t], 8), base)


def hid_of(ex, struct, i, base):
    return z3.Concat(z3.BitVecVal(HEADCODE[(struct, i)], 8), bv(base, 64))


def own(st, kind):
    return st.ghost['own.' + kind]


def pos(st, kind):
    return st.ghost['pos.' + kind]


def list_ghosts(st, kind):
    st.ghost['own.' + kind] = z3.Const('own0.' + kind, OWNS)
    st.ghost['pos.' + kind] = z3.Const('pos0.' + kind, POSS)


def shmbase(ex, st):
    return G(ex, st, 'FlShm::pShmBase', 8)


class Links(Region):
    """all link words (heads and next) of one kind"""

    def __init__(self, kind):
        Region.__init__(self, 'link.' + kind, 64)
        self.kind = kind


def links(ex, kind):
    r = ex.region_of.get('link.' + kind)
    if r is None:
        r = Links(kind)
        ex.region_of['link.' + kind] = r
        ex.region_of[(KINDS[kind][0], 0)] = r
        for h in KINDS[kind][1]:
            ex.region_of[h] = r
    return r


def valid(ex, st, n):
    """a unit lies inside the mapped area, never at its very start"""
    b = shmbase(ex, st)
    return And(z3.UGE(n, 0x600000000000), z3.ULT(n, 0x700000000000), n != b)


def inv_head(ex, st, kind, N, own, pos, addr, H, b):
    v = simp(z3.Select(N, addr))
    k = v + shmbase(ex, st)
    return And(Imp(v == 0, z3.Select(own, b) != H),
               Imp(v != 0, And(z3.Select(own, k) == H, valid(ex, st, k), Imp(z3.Select(own, b) == H, Or(b == k, z3.Select(pos, k) < z3.Select(pos, b))))))


def inv_node(ex, st, kind, N, own, pos, m, b):
    v = simp(z3.Select(N, m))
    k = v + shmbase(ex, st)
    H = z3.Select(own, m)
    inH = z3.Select(own, b) == H
    pm, pb, pk = z3.Select(pos, m), z3.Select(pos, b), z3.Select(pos, k)
    return Imp(H != NOHEAD, And(valid(ex, st, m),
               Imp(And(inH, pb == pm), b == m),
               Imp(v == 0, Imp(inH, pb <= pm)),
               Imp(v != 0, And(z3.Select(own, k) == H, valid(ex, st, k), pm < pk, Imp(inH, Or(pb <= pm, b == k, pb > pk))))))


# ---------------------------------------------------------------- what the search looks for
CMPOFF = z3.Function('offset_ranges_compare_equal', BV64, BV64, BV64, BV64, z3.BoolSort())


def cmpoff(ex, st, x, y):
    """the answer of the range comparator: a function of the two ranges, known through its contract"""
    o1, l1, o2, l2 = [bv(v, 64) for v in x + y]
    c = CMPOFF(o1, l1, o2, l2)
    if st is None:
        return c
    lim = And(*[And(o >= 0, z3.ULT(l, 1 << 62), o < (1 << 62)) for o, l in ((o1, l1), (o2, l2))])
    st.assume(Imp(lim, And(Imp(And(l1 != 0, l2 != 0), c == And(o1 < o2 + l2, o2 < o1 + l1)), Imp(o1 == o2, c), Imp(Or(o1 + l1 < o2, o2 + l2 < o1), Not(c)))))
    return c


def fldv(ex, st, p, struct, i):
    if isc(p):
        o, w = fld(ex, struct, i)
        return bv(ex.load_local(st, p + o, max(1, w // 8), max(8, w)), max(8, w))
    return F(ex, st, p, struct, i)


MATCHES = z3.Function('matches', BV64, BV64, z3.BoolSort())


def match(ex, st, kind, base, b, axioms=False):
    """what the comparator of the kind answers as equal"""
    if getattr(ex, 'match_hook', None) is not None:
        return ex.match_hook(ex, st, kind, base, b, axioms)
    s = KINDS[kind][0]
    g = lambda p, i: fldv(ex, st, p, s, i)
    if kind == 'locker':
        return And(g(base, 1) == g(b, 1), g(base, 2) == g(b, 2), (g(base, 3) & 1) == (g(b, 3) & 1))
    if kind == 'off':
        return cmpoff(ex, st if axioms else None, (g(base, 2), g(base, 3)), (g(b, 2), g(b, 3)))
    if kind == 'file':
        return And(g(base, 1) == g(b, 1), g(base, 2) == g(b, 2))
    if kind == 'waiter':
        return g(base, 2) == g(b, 2)
    hi, ni = (3, 4) if kind == 'nmtx' else (2, 3)
    na = lambda p: bv(ex.add(p, fld(ex, s, ni)[0]), 64)
    return And(g(base, hi) == g(b, hi), NAMEEQ(na(base), na(b), z3.BitVecVal(63, 32)))


def m_compare(kind):
    def f(ex, st, args, ins):
        """contract of the comparator of this kind (verified)"""
        r = fresh('cmp', 32)
        st.assume((r == 0) == MATCHES(bv(args[0], 64), bv(args[1], 64)))   # the units' contents do not change during a search (frame)
        return r
    f.__doc__ = 'contract of the comparator (verified)'
    return f


CMPM = {'fl_compare_list_base(%s*, %s*)' % (v[0], v[0]): m_compare(k) for k, v in KINDS.items()}


# ---------------------------------------------------------------- the operations
class ListOp(Contract):
    """op in insert | retrieve | cutoff | find | rfind"""

    def __init__(self, kind, op, props):
        s = KINDS[kind][0]
        t = {'insert': 'insert_list(%s*&)', 'retrieve': 'retrieve_list(%s*&)', 'cutoff': 'cutoff_list(%s*&) const'}.get(op)
        t = t % s if t else '%s(%s*, %s*&)' % (op, s, s)
        Contract.__init__(self, target='fullock::fl_list_base<%s>::%s' % (s, t), props=props, models=CMPM)
        self.kind, self.op, self.struct = kind, op, s

    # -- verification
    def initial_states(self, ex):
        for tg in KINDS[self.kind][1]:
            st = State()
            L = links(ex, self.kind)
            ex.default_region['ptr'] = L
            ex.default_region[64] = L
            list_ghosts(st, self.kind)
            base = z3.BitVec('shmbase', 64)
            ex.store_local(st, sym(ex, 'FlShm::pShmBase'), 8, base)
            h = z3.BitVec('list', 64)
            ex.set_tag(h, tg)
            n = z3.BitVec('node', 64)
            ex.set_tag(n, (self.struct,))
            this = ex.alloc(st, 16, 'this')
            ex.store_local(st, this + 8, 8, n)
            self.this, self.h, self.n, self.H = this, h, n, hid(ex, h)
            self.b, self.m = z3.BitVec('any_node', 64), z3.BitVec('any_other_node', 64)
            self.g = z3.BitVec('any_other_list', 64)
            self.HG = z3.Concat(z3.BitVec('any_kind_of_list', 8), self.g)
            self.terms = [self.b, self.m]
            self.base = None
            self.N0, self.own0, self.pos0 = L.arr(st), own(st, self.kind), pos(st, self.kind)
            # nodes, heads: apart
            for x in (self.b, self.m, n):
                st.assume(x != h)
                st.assume(x != self.g)
            st.assume(self.g != h)
            st.assume(self.HG != self.H)
            st.assume(self.HG != NOHEAD)
            a = [this, h]
            if self.op in ('find', 'rfind'):
                pb = z3.BitVec('pbase', 64)
                ex.set_tag(pb, (self.struct,))
                self.base = pb
                a = [this, pb, h]
            else:
                self.terms.append(n)
            if self.op == 'insert':
                st.assume(And(n != 0, valid(ex, st, n), z3.Select(self.own0, n) == NOHEAD))
            if self.op == 'cutoff':
                st.assume(Imp(n != 0, And(valid(ex, st, n), z3.Select(self.own0, n) != NOHEAD)))
            self.w = fresh('newpos', z3.IntSort())
            self.assume_inv(ex, st)
            self.hook(ex)
            yield st, a

    def assume_inv(self, ex, st, more=()):
        T = list(self.terms) + list(more)
        for x in T:
            st.assume(inv_head(ex, st, self.kind, self.N0, self.own0, self.pos0, self.h, self.H, x))
            for y in T:
                st.assume(inv_node(ex, st, self.kind, self.N0, self.own0, self.pos0, x, y))
        st.assume(inv_head(ex, st, self.kind, self.N0, self.own0, self.pos0, self.g, self.HG, self.b))

    def hook(self, ex):
        c = self
        L = ex.region_of['link.' + self.kind]

        def load(ex_, st, addr, L=L):
            v = L.get(st, addr)
            c.seen(ex_, st, addr)
            return v
        L.load = load

    def seen(self, ex, st, addr):
        """instances of the invariants of the initial lists for the place read"""
        if addr.eq(self.h):
            k = simp(z3.Select(self.N0, addr) + shmbase(ex, st))
            st.assume(k != self.h)
            st.assume(k != self.g)
            for b in self.terms:
                st.assume(inv_head(ex, st, self.kind, self.N0, self.own0, self.pos0, addr, self.H, b))
            return
        st.assume(addr != self.g)
        v = simp(z3.Select(self.N0, addr))
        k = simp(v + shmbase(ex, st))
        st.assume(k != self.h)
        for b in self.terms:
            st.assume(inv_node(ex, st, self.kind, self.N0, self.own0, self.pos0, addr, b))

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        out = []
        own0, pos0, H, base = self.own0, self.pos0, self.H, shmbase(ex, head)
        it64 = []
        for it in mods:
            if it[0] not in ('phi', 'cell'):
                continue
            v = ex.get_item(head, it, depth)
            e = ex.get_item(entry, it, depth)
            if v is None or isinstance(v, tuple) or isc(v):
                continue
            if isc(e) and z3.is_bv(v):
                out.append(('%s stays' % (it,), lambda s, it=it, e=e, w=v.size(): bv(ex.get_item(s, it, depth), w) == e))
            if z3.is_bool(v) and isc(e):
                out.append(('%s stays' % (it,), lambda s, it=it, e=e: bl(ex.get_item(s, it, depth)) == bool(e)))
            if z3.is_bv(v) and v.size() == 64:
                it64.append(it)

        def gi(s, it):
            return bv(ex.get_item(s, it, depth), 64)
        sel_ = z3.Select
        for it in it64:
            nm = '%s' % (it,)
            out.append((nm + ' in list', lambda s, it=it: Or(gi(s, it) == 0, And(sel_(own0, gi(s, it)) == H, gi(s, it) != self.h))))
            out.append((nm + ' head or in list', lambda s, it=it: Or(gi(s, it) == self.h, sel_(own0, gi(s, it)) == H)))
            if self.op == 'cutoff':
                out.append((nm + ' target ahead', lambda s, it=it: Imp(sel_(own0, self.n) == H, And(gi(s, it) != 0, sel_(pos0, self.n) >= sel_(pos0, gi(s, it))))))
                for it2 in it64:
                    if it2 != it:
                        out.append((nm + ' links to %s' % (it2,), lambda s, it=it, it2=it2: Imp(gi(s, it2) != 0, And(sel_(self.N0, gi(s, it)) + base == gi(s, it2), sel_(self.N0, gi(s, it)) != 0))))
            if self.op in ('find', 'rfind'):
                def before(s, it=it):
                    return And(sel_(own0, self.b) == H, Or(gi(s, it) == 0, sel_(pos0, self.b) < sel_(pos0, gi(s, it))))
                if self.op == 'find':
                    out.append((nm + ' no match before', lambda s, bf=before: Imp(bf(s), Not(MATCHES(self.base, self.b)))))
                else:
                    for it2 in it64:
                        if it2 != it:
                            out.append((nm + ' last match is %s' % (it2,), lambda s, bf=before, it2=it2: Imp(And(bf(s), MATCHES(self.base, self.b)), And(gi(s, it2) != 0, sel_(pos0, self.b) <= sel_(pos0, gi(s, it2))))))
                            out.append((nm + ' after %s' % (it2,), lambda s, it=it, it2=it2: Imp(And(gi(s, it) != 0, gi(s, it2) != 0), sel_(pos0, gi(s, it2)) < sel_(pos0, gi(s, it)))))
                    out.append((nm + ' is a match', lambda s, it=it: Imp(gi(s, it) != 0, MATCHES(self.base, gi(s, it)))))
        return out

    def post(self, ex, old, st, a, ret):
        L = ex.region_of['link.' + self.kind]
        N = L.arr(st)
        own0, pos0, H, n = self.own0, self.pos0, self.H, self.n
        S, St = z3.Select, z3.Store
        r = bl(ret)
        cur = bv(ex.load_local(st, self.this + 8, 8, 64), 64)
        out = []
        self_cur = cur == n
        if self.op in ('find', 'rfind'):
            mt = lambda x: MATCHES(self.base, x)
            inb = S(own0, self.b) == H
            if self.op == 'find':
                other = Imp(And(inb, S(pos0, self.b) < S(pos0, cur)), Not(mt(self.b)))
            else:
                other = Imp(And(inb, S(pos0, self.b) > S(pos0, cur)), Not(mt(self.b)))
            out.append(('found: the unit is in the list and matches, and no unit %s it matches' % ('before' if self.op == 'find' else 'behind'), Imp(r, And(S(own0, cur) == H, mt(cur), other))))
            out.append(('not found: no unit of the list matches', Imp(And(Not(r), self.base != 0), And(Imp(inb, Not(mt(self.b))), self_cur))))
            out.append(('searching changes no link', N == self.N0))
            return out
        new_own, new_pos = own0, pos0
        b, m = self.b, self.m
        if self.op == 'insert':
            out.append(('a unit is always taken into the list', r))
            for x in (b, m, S(self.N0, self.h) + shmbase(ex, st)):
                st.assume(Imp(S(own0, x) == H, self.w < S(pos0, x)))
            new_own, new_pos = St(own0, n, H), St(pos0, n, self.w)
            out.append(('the object still stands for the unit', self_cur))
            ok = r
        elif self.op == 'retrieve':
            k = S(self.N0, self.h) + shmbase(ex, st)
            out.append(('a unit is handed out exactly when the list is not empty', r == (S(self.N0, self.h) != 0)))
            out.append(('the object stands for the first unit of the list, or as before', cur == z3.If(r, k, n)))
            new_own = z3.If(r, St(own0, k, NOHEAD), own0)
            ok = True
            self.assume_inv(ex, st, [k])
        else:
            out.append(('the object still stands for the unit', self_cur))
            out.append(('a unit is cut off exactly when it is in this list', r == And(n != 0, S(own0, n) == H)))
            new_own = z3.If(r, St(own0, n, NOHEAD), own0)
            more = []
            x = N
            while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
                if not x.arg(1).eq(self.h):
                    more.append(x.arg(1))
                x = x.arg(0)
            self.assume_inv(ex, st, [y for y in more if not any(y.eq(t) for t in self.terms)][:4])
            ok = True
        kb = S(self.N0, self.m) + shmbase(ex, st)
        for x in (kb, S(self.N0, self.h) + shmbase(ex, st)):
            st.assume(x != self.h)
        st.assume(And(inv_node(ex, st, self.kind, self.N0, own0, pos0, b, m)))
        ih = lambda addr, HH: inv_head(ex, st, self.kind, N, new_own, new_pos, addr, HH, b)
        out.append(('the list stays well formed: first unit', Imp(ok, ih(self.h, H))))
        out.append(('every other list stays well formed: first unit', ih(self.g, self.HG)))
        out.append(('every list stays well formed: order, next unit', inv_node(ex, st, self.kind, N, new_own, new_pos, m, b)))
        return out

    def modifies(self, ex, st, a):
        out = [('memall', 'link.' + self.kind)]
        if self.op in ('retrieve', 'find', 'rfind'):
            out.append(('cell', a[0] + 8, 8) if isc(a[0]) else ('mem', 'x', 0))
        if self.op in ('find', 'rfind'):
            out = out[1:]
        return out


def contracts():
    out = []
    for k in KINDS:
        for op in ('insert', 'retrieve', 'cutoff', 'find'):
            if (k, op) in (('nmtx', 'cutoff'), ('ncond', 'cutoff'), ('waiter', 'find')):
                continue   # not used by the program, not instantiated
            out.append(ListOp(k, op, ('P07',) if op != 'find' else ('P05', 'P09')))
    out.append(ListOp('waiter', 'rfind', ('P03',)))
    return out
