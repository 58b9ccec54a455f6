"""Contracts: one declaration, used both to verify the body and at the call sites."""
import time, z3
from .symex import *
from . import irparse as ir


class Contract:
    name = None          # display name
    target = None        # demangled name (with or without the parameter list)
    props = ()
    regions = None       # fn(ex): installs the regions used
    fresh_caps = ()

    def __init__(self, **kw):
        self.__dict__.update(kw)
        if self.name is None:
            self.name = self.target

    # ---- to override
    def setup(self, ex, st):
        """build the symbolic arguments; returns args"""
        raise NotImplementedError

    def pre(self, ex, st, a):
        return []

    def post(self, ex, old, st, a, ret):
        return []

    def modifies(self, ex, st, a):
        """[('mem',tag,addr) | ('memall',tag) | ('ghost',name) | ('ghostat',name,addr) | ('cell',addr,nbytes)]"""
        return []

    def ret_sort(self):
        return None

    def back(self, ex, st, header, head, a, old):
        """obligations at every loop back edge of the body"""
        return []

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        return []

    # ---- use at a call site
    def apply(self, ex, st, args, ins):
        for l, c in self.pre(ex, st, args):
            ex.oblige(st, 'requires of %s: %s' % (self.name, l), c, 'pre')
            st.assume(c)
        old = st.copy()
        self.do_modify(ex, st, args)
        rs = self.ret_sort()
        ret = None
        if rs is not None:
            ret = fresh('ret_' + self.name.split('::')[-1].split('<')[0], rs)
        ex.applying = True
        for l, c in self.post(ex, old, st, args, ret):
            st.assume(c)
        ex.applying = False
        if not ex.feasible(st):
            raise PathEnd()
        return [(st, ret)]

    def do_modify(self, ex, st, args):
        for m in self.modifies(ex, st, args):
            if m[0] == 'mem':
                r = ex.region_of[m[1]]
                st.mem[m[1]] = z3.Store(r.arr(st), bv(m[2], 64), fresh('c', r.arr(st).sort().range()))
            elif m[0] == 'memall':
                r = ex.region_of[m[1]]
                st.mem[m[1]] = fresh('c_%s' % (m[1],), r.arr(st).sort())
            elif m[0] == 'ghost':
                v = st.ghost[m[1]]
                st.ghost[m[1]] = fresh('c_' + m[1], v.sort()) if not isc(v) else fresh('c_' + m[1], 1 if isinstance(v, bool) else 64)
            elif m[0] == 'ghostat':
                v = st.ghost[m[1]]
                st.ghost[m[1]] = z3.Store(v, bv(m[2], 64), fresh('c', v.sort().range()))
            elif m[0] == 'cell':
                if isc(m[1]):
                    ex.store_local(st, m[1], m[2], fresh('c_cell', 8 * m[2]))
                else:
                    r = ex.region(st, m[1], ('int', 8 * m[2]), 8 * m[2])
                    r.put(st, m[1], fresh('c_cell', 8 * m[2]))

    # ---- verification of the body
    def frame(self, ex, old, st, a):
        out = []
        mods = self.modifies(ex, old, a)
        memall = {m[1] for m in mods if m[0] == 'memall'}
        gh = {m[1] for m in mods if m[0] == 'ghost'}
        for t, v in st.mem.items():
            if t in memall:
                continue
            o = old.mem.get(t)
            if o is None:
                o = ex.region_of[t].init()
            if o.eq(v):
                continue
            e = o
            for m in mods:
                if m[0] == 'mem' and m[1] == t:
                    e = z3.Store(e, bv(m[2], 64), z3.Select(v, bv(m[2], 64)))
                elif m[0] == 'cell' and not isc(m[1]):
                    rr = ex.region(old, m[1], ('int', 8 * m[2]), 8 * m[2])
                    if rr.tag == t:
                        e = z3.Store(e, bv(m[1], 64), z3.Select(v, bv(m[1], 64)))
            out.append(('frame: nothing else changes in %s' % (t if isinstance(t, str) else '.'.join(map(str, t))), e == v))
        for g, v in st.ghost.items():
            if g in gh or g.startswith('_'):
                continue
            o = old.ghost.get(g)
            if same(o, v):
                continue
            e = o
            for m in mods:
                if m[0] == 'ghostat' and m[1] == g:
                    e = z3.Store(e, bv(m[2], 64), z3.Select(v, bv(m[2], 64)))
            out.append(('frame: ghost %s' % g, eqv(e, v)))
        for b, o in old.objs.items():
            if o.const:
                continue
            so = st.objs.get(b)
            if so is None:
                continue
            for off, (n, v) in so.cells.items():
                if any(m[0] == 'cell' and isc(m[1]) and m[1] <= b + off and b + off + n <= m[1] + m[2] for m in mods):
                    continue
                oc = o.cells.get(off)
                if oc is not None and oc[0] == n:
                    if same(oc[1], v):
                        continue
                    out.append(('frame: %s+%d unchanged' % (o.name, off), eqv(oc[1], v)))
                elif o.name.startswith('@'):
                    iv = ex.uninit(st, o, off, n, 1 if (not isc(v) and not isinstance(v, tuple) and z3.is_bool(v)) else 8 * n)
                    if isinstance(v, tuple) or not same(iv, v):
                        out.append(('frame: global %s unchanged' % o.name, False if isinstance(v, tuple) else eqv(iv, v)))
        for b, so in st.objs.items():
            if b not in old.objs and so.name.startswith('@') and not so.const:
                for off, (n, v) in so.cells.items():
                    if any(m[0] == 'cell' and isc(m[1]) and m[1] <= b + off and b + off + n <= m[1] + m[2] for m in mods):
                        continue
                    iv = ex.uninit(st, so, off, n, 1 if (not isc(v) and not isinstance(v, tuple) and z3.is_bool(v)) else 8 * n)
                    if isinstance(v, tuple) or not same(iv, v):
                        if not isinstance(v, tuple) and not isc(v) and z3.is_bv(v) and z3.is_bv(iv) and v.size() == iv.size() or isc(v):
                            out.append(('frame: global %s unchanged' % so.name, eqv(iv, v)))
                        else:
                            out.append(('frame: global %s unchanged' % so.name, False))
        return out

    def initial_states(self, ex):
        st = State()
        a = self.setup(ex, st)
        return [(st, a)]

    def verify(self, ex):
        rep = Report(self.name)
        ex.rep = rep
        ex.muted = 0
        t0 = time.time()
        fn = ex.prog.find(self.target)
        if fn is None:
            rep.error = 'function not found: %s' % self.target
            rep.wall = time.time() - t0
            return rep
        rep.ir_name = fn.name
        ex.nocontract = {fn.demangled, fn.demangled.split('(')[0]} if not getattr(self, 'overloads', False) else {fn.demangled}
        try:
            for st, a in self.initial_states(ex):
                for l, c in self.pre(ex, st, a):
                    st.assume(c)
                if ex.check(st) != 'sat':
                    rep.obl['vacuity: precondition satisfiable'] = o = Obligation('vacuity: precondition satisfiable', 'vacuity')
                    o.status = 'unknown'
                    continue
                old = st.copy()
                self._a, self._old = a, old
                ex.loop_cands = [lambda e, en, h, m, d, hd: self.cands(e, en, h, m, d, hd, a, old)]
                ex.back_checks = [{'back': lambda e, s, hd, h: [e.oblige(s, l, c, 'loop') for l, c in self.back(e, s, hd, h, a, old)]}]
                nret = [0]

                real = [0]

                def on_ret(s, rv):
                    nret[0] += 1
                    if not real[0] and getattr(ex, 'lazy_feasible', False) and ex.check(s) == 'sat':
                        real[0] = 1
                    if rv is not None and isinstance(rv, int) and not isinstance(rv, bool):
                        rt = fn.rty
                        rv = bv(rv, 64 if rt[0] == 'ptr' else rt[1]) if rt[0] in ('int', 'ptr') and rt != ('int', 1) else rv
                    for l, c in self.post(ex, old, s, a, rv):
                        ex.oblige(s, 'ensures: ' + l, c, 'post')
                    for l, c in self.frame(ex, old, s, a):
                        ex.oblige(s, l, c, 'frame')
                ex.push_call(st, fn, a)
                ex.run(st, 0, on_ret)
                rep.rets += nret[0]
                if (nret[0] == 0 or (getattr(ex, 'lazy_feasible', False) and not real[0])) and not getattr(self, 'noreturn', False):
                    rep.obl['vacuity: some path returns'] = o = Obligation('vacuity: some path returns', 'vacuity')
                    o.status = 'unknown'
        except Unsupported as e:
            rep.error = 'unsupported: ' + str(e)
        except z3.Z3Exception as e:
            rep.error = 'solver exception: ' + str(e)[:200]
        except RecursionError as e:
            rep.error = 'recursion'
        rep.wall = time.time() - t0
        return rep


class FnContract(Contract):
    """contract given by functions"""

    def __init__(self, target, setup, pre=None, post=None, mod=None, ret=None, props=(), back=None, cands=None, **kw):
        self._setup, self._pre, self._post, self._mod, self._ret, self._back, self._cands = setup, pre, post, mod, ret, back, cands
        Contract.__init__(self, target=target, props=props, **kw)

    def setup(self, ex, st):
        return self._setup(ex, st)

    def pre(self, ex, st, a):
        return self._pre(ex, st, a) if self._pre else []

    def post(self, ex, old, st, a, ret):
        return self._post(ex, old, st, a, ret) if self._post else []

    def modifies(self, ex, st, a):
        return self._mod(ex, st, a) if self._mod else []

    def ret_sort(self):
        return self._ret

    def back(self, ex, st, header, head, a, old):
        return self._back(ex, st, header, head, a, old) if self._back else []

    def cands(self, ex, entry, head, mods, depth, header, a, old):
        return self._cands(ex, entry, head, mods, depth, header, a, old) if self._cands else []
