"""Address abstraction: a weaker form of a query in which wide words are values of uninterpreted sorts.

Every operation over words of 64 bits or more becomes an uninterpreted function or predicate (adding a constant is
injective, distinct numerals are distinct, a word in a range that starts above zero is not zero, packing and
unpacking of list identities are inverse).  Each of these is true of the real operations, so a query that has no
solution here has none; any other answer is put to the exact solver.
"""
import z3

WIDE = 64


class Abst:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.sorts = {}
        self.nums = {}
        self.decls = {}
        self.ax = {}          # ast id of a source node -> axioms that come with it
        self.axioms = []

    def sort(self, s):
        if s.kind() == z3.Z3_BV_SORT and s.size() >= WIDE:
            w = s.size()
            if w not in self.sorts:
                self.sorts[w] = z3.DeclareSort('W%d' % w)
            return self.sorts[w]
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return s

    def num(self, v, w):
        k = (v, w)
        if k not in self.nums:
            c = z3.Const('n%d_%d' % (w, v), self.sort(z3.BitVecSort(w)))
            idf = self.fn('value_%d' % w, [c.sort()], z3.IntSort())
            self.axioms.append(idf(c) == v)
            self.nums[k] = c
        return self.nums[k]

    def fn(self, name, dom, rng):
        k = (name, tuple(d.sexpr() for d in dom), rng.sexpr())
        if k not in self.decls:
            self.decls[k] = z3.Function('%s!%d' % (name, len(self.decls)), *dom, rng)
        return self.decls[k]

    def inc(self, x, c, w):
        """x + c, injective"""
        if c == 0:
            return x
        s = x.sort()
        f = self.fn('inc_%d' % c, [s], s)
        g = self.fn('dec_%d' % c, [s], s)
        r = f(x)
        self.axioms.append(g(r) == x)
        return r

    def go(self, e):
        """iterative post-order"""
        st = [e]
        c = self.cache
        while st:
            x = st[-1]
            i = x.get_id()
            if i in c:
                st.pop()
                continue
            ch = x.children()
            todo = [y for y in ch if y.get_id() not in c]
            if todo:
                st.extend(todo)
                continue
            c[i] = self.node(x, [c[y.get_id()] for y in ch])
            self.keep.append(x)
            st.pop()
        return c[e.get_id()]

    def node(self, x, ch):
        k = x.decl().kind()
        s = x.sort()
        wide = s.kind() == z3.Z3_BV_SORT and s.size() >= WIDE
        if z3.is_bv_value(x):
            return self.num(x.as_long(), s.size()) if wide else x
        if not ch and k == z3.Z3_OP_UNINTERPRETED:
            ns = self.sort(s)
            return x if ns.eq(s) else z3.Const('a!' + x.decl().name(), ns)
        anywide = wide or self.changed(x) or any(self.changed(y) for y in x.children())
        if not anywide:
            if all(a.eq(b) for a, b in zip(ch, x.children())):
                return x
            return x.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch))
        if k == z3.Z3_OP_EQ:
            if x.arg(0).sort().kind() == z3.Z3_BV_SORT and x.arg(0).size() == 64 and (self.neg(x.arg(0)) or self.neg(x.arg(1))):
                return self.linear_eq(x.arg(0), x.arg(1))
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        if k == z3.Z3_OP_SELECT:
            return z3.Select(*ch)
        if k == z3.Z3_OP_STORE:
            return z3.Store(*ch)
        if k == z3.Z3_OP_CONST_ARRAY:
            return z3.K(self.sort(s.domain()), ch[0])
        if k == z3.Z3_OP_BADD:
            w = s.size()
            c = 0
            rest = []
            for y, a in zip(x.children(), ch):
                if z3.is_bv_value(y):
                    c = (c + y.as_long()) % (1 << w)
                else:
                    rest.append((y.get_id(), a))
            rest.sort(key=lambda t: t[0])
            r = rest[0][1]
            for _, a in rest[1:]:
                r = self.fn('add', [r.sort(), a.sort()], r.sort())(r, a)
            return self.inc(r, c, w)
        if k == z3.Z3_OP_CONCAT and s.size() == 72 and len(ch) == 2:
            f = self.fn('pack', [ch[0].sort(), ch[1].sort()], self.sort(s))
            r = f(ch[0], ch[1])
            self.axioms.append(self.fn('x71_64', [r.sort()], z3.BitVecSort(8))(r) == ch[0])
            self.axioms.append(self.fn('x63_0', [r.sort()], ch[1].sort())(r) == ch[1])
            if z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() != 0:
                self.axioms.append(r != self.num(0, 72))
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            r = self.fn('x%d_%d' % (hi, lo), [ch[0].sort()], self.sort(s))(ch[0])
            if s.size() == 8 and x.arg(0).size() == 72:
                self.axioms.append(self.fn('x71_64', [self.num(0, 72).sort()], z3.BitVecSort(8))(self.num(0, 72)) == 0)
                b = self.fn('x63_0', [ch[0].sort()], self.sort(z3.BitVecSort(64)))(ch[0])
                p = self.fn('pack', [r.sort(), b.sort()], ch[0].sort())(r, b)
                self.axioms.append(p == ch[0])
            return r
        name = x.decl().name() + '_'.join(str(p) for p in self.params(x))
        r = self.fn(name, [c.sort() for c in ch], self.sort(s))(*ch)
        a = x.children()
        if len(a) == 2 and k in (z3.Z3_OP_UGEQ, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_ULT):
            # c <= y with c > 0, either way round
            lo, hi, y = (a[1], a[0], ch[0]) if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) else (a[0], a[1], ch[1])
            if z3.is_bv_value(lo) and lo.as_long() > 0:
                self.axioms.append(z3.Implies(r, y != self.num(0, hi.size())))
        return r

    M1 = (1 << 64) - 1

    def minus(self, t):
        return t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == self.M1

    def neg(self, t):
        return self.minus(t) or (t.decl().kind() == z3.Z3_OP_BADD and any(self.minus(c) for c in t.children()))

    def linear_eq(self, a, b):
        """negated summands go to the other side"""
        L, R, c = [], [], 0
        for side, (P, N), sg in ((a, (L, R), 1), (b, (R, L), -1)):
            for t in (side.children() if side.decl().kind() == z3.Z3_OP_BADD else [side]):
                if z3.is_bv_value(t):
                    c += sg * t.as_long()
                elif self.minus(t):
                    N.append(t.arg(1))
                else:
                    P.append(t)
        c %= 1 << 64
        if c >> 63:
            lc, rc = 0, (1 << 64) - c
        else:
            lc, rc = c, 0

        def total(ts, k):
            ts = sorted(ts, key=lambda t: t.get_id())
            self.keep.extend(ts)
            if not ts:
                return self.num(k, 64)
            r = self.go(ts[0])
            for t in ts[1:]:
                n = self.go(t)
                r = self.fn('add', [r.sort(), n.sort()], r.sort())(r, n)
            return self.inc(r, k, 64)
        return total(L, lc) == total(R, rc)

    def params(self, x):
        try:
            return x.params()
        except z3.Z3Exception:
            return []

    def changed(self, y):
        s = y.sort()
        return not self.sort(s).eq(s)

    def unsat(self, pc, extra, timeout):
        A = [self.go(c) for c in list(pc) + list(extra)]
        so = z3.SimpleSolver()
        so.set('timeout', timeout)
        cx, sv = so.ctx.ref(), so.solver
        for c in A:
            z3.Z3_solver_assert(cx, sv, c.as_ast())
        # axioms of the terms used: all collected so far (each is true)
        for c in self.axioms:
            z3.Z3_solver_assert(cx, sv, c.as_ast())
        return str(so.check())
