"""Deductive verification-condition generator over the LLVM IR extracted from /repo.

Function bodies are executed symbolically, path by path.  A call to a function that has a contract
is replaced by the contract (precondition proved, effect assumed); other library functions are
inlined.  Every loop is cut at its header: the locations the body changes are havocked and an inductive
invariant (the largest inductive subset of the candidate set) is assumed; the candidate set comes from
the contract and from generic templates.  There is no unrolling bound anywhere.
"""
import z3, time, itertools, os, sys
from . import irparse as ir

BV64 = z3.BitVecSort(64)


class Unsupported(Exception):
    pass


class Refuted(Exception):
    pass


# ------------------------------------------------------------------ values
def mask(w):
    return (1 << w) - 1


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v & mask(w), w)
    return v


def bl(v):
    if isinstance(v, (bool, int)):
        return z3.BoolVal(bool(v))
    return v


def isc(v):
    return isinstance(v, (int, bool))


def simp(e):
    e = z3.simplify(e)
    return conc(e)


def conc(e):
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def signed(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def And(*a):
    a = [bl(x) for x in a]
    return z3.And(*a) if len(a) != 1 else a[0]


def Or(*a):
    a = [bl(x) for x in a]
    return z3.Or(*a) if len(a) != 1 else a[0]


def Not(a):
    return z3.Not(bl(a))


def Imp(a, b):
    return z3.Implies(bl(a), bl(b))


def eqv(a, b, w=64):
    if a is None or b is None:
        return z3.BoolVal(a is b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return And(*[eqv(x, y) for x, y in zip(a, b)])
    if isc(a) and isc(b):
        return z3.BoolVal(a == b)
    if isc(a):
        a, b = b, a
    if isc(b):
        if z3.is_bool(a):
            return a == z3.BoolVal(bool(b))
        if z3.is_bv(a):
            return a == z3.BitVecVal(int(b) & mask(a.size()), a.size())
        return a == b
    return a == b


def same(a, b):
    """syntactic identity"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isc(a) or isc(b) or a is None or b is None:
        return isc(a) and isc(b) and a == b and True
    if isinstance(a, dict) or isinstance(b, dict):
        return False
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        return a == b
    return a.eq(b)


_fresh = itertools.count()


def fresh(name, sort):
    n = '%s!%d' % (name, next(_fresh))
    if isinstance(sort, int):
        return z3.Bool(n) if sort == 1 else z3.BitVec(n, sort)
    return z3.Const(n, sort)


def fresh_like(name, v, w=64):
    if isinstance(v, tuple):
        return tuple(fresh_like(name, x) for x in v)
    if isinstance(v, bool):
        return z3.Bool('%s!%d' % (name, next(_fresh)))
    if isinstance(v, int):
        return fresh(name, w)
    return fresh(name, v.sort())


# ------------------------------------------------------------------ state
class Obj:
    __slots__ = ('base', 'size', 'cells', 'zero', 'name', 'const')

    def __init__(self, base, size, name, const=False):
        self.base, self.size, self.name, self.const = base, size, name, const
        self.cells = {}     # off -> (nbytes, value)
        self.zero = []      # list of (lo,hi) filled with a byte value: (lo,hi,byte)

    def copy(self):
        o = Obj(self.base, self.size, self.name, self.const)
        o.cells = dict(self.cells)
        o.zero = list(self.zero)
        return o


class Frame:
    __slots__ = ('uid', 'fn', 'block', 'prev', 'idx', 'regs', 'call', 'cuts', 'allocs')

    def __init__(self, uid, fn):
        self.uid, self.fn = uid, fn
        self.block = fn.order[0]
        self.prev = None
        self.idx = 0
        self.regs = {}
        self.call = None
        self.cuts = {}
        self.allocs = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.uid, f.fn, f.block, f.prev, f.idx, f.call = self.uid, self.fn, self.block, self.prev, self.idx, self.call
        f.regs = dict(self.regs)
        f.cuts = dict(self.cuts)
        f.allocs = list(self.allocs)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.objs = {}
        self.mem = {}
        self.ghost = {}
        self.pc = []
        self.trace = []
        self.seen = frozenset()
        self.nopark = None

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.objs = {k: o.copy() if not o.const else o for k, o in self.objs.items()}
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        s.seen = self.seen
        s.nopark = self.nopark
        return s

    def assume(self, c):
        c = bl(c)
        if not z3.is_true(c):
            self.pc.append(c)

    @property
    def top(self):
        return self.frames[-1]


class Obligation:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.status = 'discharged'
        self.instances = 0
        self.backends = {}
        self.detail = ''
        self.time = 0.0


class Report:
    """obligations of one verified function"""

    def __init__(self, fn):
        self.fn = fn
        self.obl = {}
        self.paths = 0
        self.rets = 0
        self.loops = 0
        self.error = None       # unsupported
        self.error_detail = ''
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.solver_time = 0.0
        self.wall = 0.0
        self.reach = {}
        self.unknown_drops = set()   # candidate invariants given up without an answer of the solver

    def failed(self):
        return [o for o in self.obl.values() if o.status != 'discharged']


class Engine:
    LOCAL0 = 0x500000000000
    FN0 = 0x400000000000

    def __init__(self, prog, contracts=None, timeout=4000, verbose=False, second=False):
        self.prog = prog
        self.contracts = contracts or {}
        self.verbose = verbose
        self.timeout = timeout
        self.second = second
        self.next_base = self.LOCAL0
        self.uid = itertools.count()
        self.tags = {}        # expr id -> tag
        self.keep = []
        self.gaddr = {}       # global name -> base
        self.gobj = {}
        self.fnaddr = {}
        self.fnname = {}
        self.region_of = {}   # tag -> Region
        self.default_region = {}
        self.solver = None
        self.asserted = []
        self.rep = None
        self.muted = 0
        self.loop_cands = []
        self.back_checks = []
        self.models = {}      # trusted external models: name/regex -> fn(ex, st, args, instr)->[(st,val)]
        self.global_hook = None
        self.max_paths = 6000
        self.merge_at = ()
        self.model_fallback = None
        self.parked = {}
        self.deadline = None
        self.stats = {'z3': 0, 'cvc5': 0, 'z3-fresh': 0, 'trivial': 0}
        self.nocontract = set()

    # -------------------------------------------------------- solving
    def _sync(self, pc):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout)
            self.asserted = []
        n = 0
        a = self.asserted
        while n < len(a) and n < len(pc) and (a[n] is pc[n]):
            n += 1
        k = len(a) - n
        if k:
            self.solver.pop(k)
            del a[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            a.append(c)

    def check(self, st, *extra):
        """'unsat' | 'sat' | 'unknown' for pc and extra"""
        ex = []
        for c in extra:
            c = z3.simplify(bl(c))
            if z3.is_false(c):
                return 'unsat'
            if not z3.is_true(c):
                ex.append(c)
        t = time.time()
        self.last_model = None
        if getattr(self, 'abst', None) is not None:
            ra = self.abst.unsat(st.pc, ex, self.timeout)
            self.abst_n[ra] = self.abst_n.get(ra, 0) + 1
            if ra == 'unsat':
                if self.rep is not None:
                    self.rep.solver_time += time.time() - t
                return 'unsat'
        if getattr(self, 'fresh_solver', False):
            so = z3.Solver()
            so.set('timeout', self.timeout)
            for c in list(st.pc) + ex:
                z3.Z3_solver_assert(so.ctx.ref(), so.solver, c.as_ast())
            r = so.check()
            if r == z3.sat:
                try:
                    self.last_model = so.model()
                except z3.Z3Exception:
                    pass
        else:
            self._sync(st.pc)
            self.solver.push()
            for c in ex:
                self.solver.add(c)
            r = self.solver.check()
            if r == z3.sat:
                try:
                    self.last_model = self.solver.model()
                except z3.Z3Exception:
                    pass
            self.solver.pop()
        if self.rep is not None:
            self.rep.solver_time += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        return str(r)

    def feasible(self, st, c=True):
        if getattr(self, 'lazy_feasible', False) and self.abst is not None:
            # going on along a path that cannot be taken is sound; only the cheap test is made
            c = z3.simplify(bl(c))
            if z3.is_false(c):
                return False
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            return self.abst.unsat(st.pc, [] if z3.is_true(c) else [c], self.timeout) != 'unsat'
        return self.check(st, c) != 'unsat'

    def provable(self, st, c):
        c = z3.simplify(bl(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st, z3.Not(c)) == 'unsat'

    def provable3(self, st, c):
        c = z3.simplify(bl(c))
        if z3.is_true(c):
            return 'unsat'
        if z3.is_false(c):
            return 'sat'
        return self.check(st, z3.Not(c))

    def prove(self, st, c):
        """(status, backend, model_text)"""
        c = bl(c)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return 'unsat', 'trivial', ''
        r = self.check(st, z3.Not(c))
        if r == 'unsat':
            if self.second:
                r2 = self.cvc5(st, z3.Not(c))
                return 'unsat', ('z3+cvc5' if r2 == 'unsat' else 'z3'), ''
            return 'unsat', 'z3', ''
        if r == 'sat':
            return 'sat', 'z3', self.model_text(self.last_model)
        r = self.cvc5(st, z3.Not(c), ('--solve-bv-as-int=iand', '--tlimit=5000'))
        if r == 'unsat':
            return 'unsat', 'cvc5-int', ''
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*st.pc)
        s.add(z3.Not(c))
        r = s.check()
        if self.rep is not None:
            self.rep.solver_time += time.time() - t
        if r == z3.unsat:
            return 'unsat', 'z3-fresh', ''
        if r == z3.sat:
            return 'sat', 'z3-fresh', self.model_text(s.model())
        r = self.cvc5(st, z3.Not(c))
        return r, 'cvc5', ''

    def cvc5(self, st, neg, opts=('--tlimit=20000',)):
        import subprocess
        s = z3.Solver()
        s.add(*st.pc)
        s.add(neg)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t = time.time()
        try:
            o = subprocess.run(['cvc5', '--lang', 'smt2', *opts, '-'], input=txt, capture_output=True, text=True, timeout=30).stdout.strip()
        except Exception:
            o = 'unknown'
        if self.rep is not None:
            self.rep.solver_time += time.time() - t
        return o.split('\n')[-1] if o in ('sat', 'unsat') else 'unknown'

    @staticmethod
    def model_text(m):
        if m is None:
            return ''
        out = []
        for d in m.decls()[:80]:
            v = str(m[d])
            if len(v) < 80:
                out.append('%s = %s' % (d.name(), v))
        return '\n'.join(sorted(out))

    def oblige(self, st, name, cond, kind='post'):
        if self.muted:
            return
        o = self.rep.obl.get(name)
        if o is None:
            o = self.rep.obl[name] = Obligation(name, kind)
        o.instances += 1
        if o.status == 'refuted' and o.instances > 3:
            return
        t = time.time()
        r, be, mt = self.prove(st, cond)
        o.time += time.time() - t
        if r == 'unsat':
            o.backends[be] = o.backends.get(be, 0) + 1
        elif r == 'sat':
            if o.status != 'refuted':
                o.status = 'refuted'
                o.detail = 'path: %s\ncountermodel (%s):\n%s' % (' '.join(st.trace[-60:]), be, mt)
        else:
            if o.status == 'discharged':
                o.status = 'unknown'
                o.detail = 'path: %s (solver gave no answer)' % ' '.join(st.trace[-60:])

    # -------------------------------------------------------- memory
    def alloc(self, st, size, name, const=False):
        b = self.next_base
        self.next_base += ((size + 4095) // 4096 + 1) * 4096
        st.objs[b] = Obj(b, size, name, const)
        return b

    def find_obj(self, st, addr):
        b = addr & ~4095
        for _ in range(64):
            if b in st.objs:
                o = st.objs[b]
                if addr < o.base + max(o.size, 1) + 0:
                    return o
                return None
            g = self.gobj.get(b)
            if g is not None:
                self.make_global(st, g, b)
                continue
            b -= 4096
            if b < self.LOCAL0:
                break
        return None

    def global_addr(self, name):
        if name in self.gaddr:
            return self.gaddr[name]
        if name[1:].strip('"') in self.prog.funcs or self._is_declared_fn(name):
            return self.fn_addr(name[1:].strip('"'))
        g, mod = self._global(name)
        if g is not None and 'alias' in g:
            return self.global_addr(g['alias'])
        size = 64
        if g is not None:
            try:
                size = ir.sizeof(mod, g['type'])
            except Exception:
                pass
        b = self.next_base
        self.next_base += ((max(size, 1) + 4095) // 4096 + 1) * 4096
        self.gaddr[name] = b
        self.gobj[b] = name
        return b

    def _is_declared_fn(self, name):
        return any(name in m.declares for m in self.prog.modules)

    def fn_addr(self, n):
        if n not in self.fnaddr:
            a = self.FN0 + 16 * (len(self.fnaddr) + 1)
            self.fnaddr[n] = a
            self.fnname[a] = n
        return self.fnaddr[n]

    def _global(self, name, module=None):
        best = None
        for m in ([module] if module else []) + self.prog.modules:
            g = m.globals.get(name)
            if g is None:
                continue
            if 'alias' in g or g.get('init') is not None:
                return g, m
            best = best or (g, m)
        return best or (None, None)

    def make_global(self, st, name, base):
        # private constants (.str.N) exist per module: key is "@name\0module"
        nm, _, modn = name.partition('\0')
        module = None
        if modn:
            module = next(m for m in self.prog.modules if m.name == modn)
        g, mod = self._global(nm, module)
        size = 64
        o = Obj(base, size, nm)
        if g is not None:
            try:
                o.size = ir.sizeof(mod, g['type'])
            except Exception:
                o.size = 64
            if g.get('const') and g.get('init') is not None:
                o.cells = {}
                self.flatten(mod, g['type'], g['init'], 0, o)
                o.const = True
        st.objs[base] = o
        if not o.const and self.global_hook:
            self.global_hook(self, st, nm, o)

    def flatten(self, mod, ty, init, off, o):
        k = init[0]
        if k == 'zero' or k == 'undef':
            n = ir.sizeof(mod, ty)
            o.zero.append((off, off + n, 0))
            return
        if k == 'agg':
            if ty[0] == 'named':
                ty = ir.resolve(mod, ty)
            for i, (ety, e) in enumerate(init[2]):
                if ty[0] == 'arr':
                    eo = off + i * ir.sizeof(mod, ty[2])
                else:
                    eo = off + ir.field_offset(mod, ty, i)[0]
                self.flatten(mod, ety, e, eo, o)
            return
        if k == 'cstr':
            s = init[2]
            raw = s[s.index('"') + 1:-1]
            i, p = 0, off
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        c, i = 92, i + 2
                    else:
                        c, i = int(raw[i + 1:i + 3], 16), i + 3
                else:
                    c, i = ord(raw[i]), i + 1
                o.cells[p] = (1, c)
                p += 1
            return
        n = ir.sizeof(mod, ty)
        o.cells[off] = (n, self.const_operand(mod, ty, init))

    def const_operand(self, mod, ty, v):
        k = v[0]
        if k == 'const':
            t = v[1]
            if t[0] == 'float':
                return ('fp', v[2])
            x = v[2]
            if isinstance(x, str):
                x = int(x, 0)
            if t == ('int', 1):
                return bool(x)
            w = 64 if t[0] == 'ptr' else t[1]
            return x & mask(w)
        if k == 'global':
            return self.gname(mod, v[1])
        if k == 'zero':
            t = ir.resolve(mod, v[1]) if v[1][0] == 'named' else v[1]
            if t[0] in ('int', 'ptr'):
                return False if t == ('int', 1) else 0
            if t[0] == 'struct':
                return tuple(self.const_operand(mod, x, ('zero', x)) for x in t[1])
            if t[0] == 'arr':
                return tuple(self.const_operand(mod, t[2], ('zero', t[2])) for _ in range(t[1]))
            raise Unsupported('zero of %r' % (t,))
        if k == 'undef':
            t = ir.resolve(mod, v[1]) if v[1][0] == 'named' else v[1]
            if t[0] == 'struct':
                return tuple(self.const_operand(mod, x, ('undef', x)) for x in t[1])
            if t[0] == 'float':
                return ('fp', 'undef')
            return fresh('undef', 64 if t[0] == 'ptr' else t[1])
        if k == 'gep':
            base = self.const_operand(mod, ir.PTR, v[2][0][1])
            return self.gep(None, mod, v[1], base, [(t, self.const_operand(mod, t, x)) for t, x in v[2][1:]])
        if k == 'cast':
            return self.cast(v[1], v[2], self.const_operand(mod, v[2], v[3]), v[4])
        if k == 'cbin':
            return self.binop(None, v[1], v[2], self.const_operand(mod, v[2], v[3]), self.const_operand(mod, v[2], v[4]))
        if k == 'agg':
            return tuple(self.const_operand(mod, t, x) for t, x in v[2])
        raise Unsupported('constant %r' % (v,))

    def gname(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and g.get('private'):
            key = name + '\0' + mod.name
            if key not in self.gaddr:
                try:
                    size = ir.sizeof(mod, g['type'])
                except Exception:
                    size = 64
                b = self.next_base
                self.next_base += ((max(size, 1) + 4095) // 4096 + 1) * 4096
                self.gaddr[key] = b
                self.gobj[b] = key
            return self.gaddr[key]
        return self.global_addr(name)

    def set_tag(self, e, tag):
        if not isc(e):
            self.tags[e.get_id()] = tag
            self.keep.append(e)

    def tag_of(self, e):
        return self.tags.get(e.get_id())

    def ty_width(self, mod, ty):
        if ty[0] == 'ptr':
            return 64
        if ty[0] == 'int':
            return ty[1]
        raise Unsupported('width of %r' % (ty,))

    def load(self, st, mod, ty, addr, atomic=False):
        if ty[0] == 'named':
            ty = ir.resolve(mod, ty)
        if ty[0] == 'struct':
            return tuple(self.load(st, mod, f, self.add(addr, ir.field_offset(mod, ty, i)[0]) if True else 0) for i, f in enumerate(ty[1]))
        if ty[0] == 'float':
            return ('fp', 'mem')
        w = self.ty_width(mod, ty)
        n = max(1, (w + 7) // 8)
        if isc(addr):
            if addr == 0 or addr < 4096:
                self.oblige(st, 'memory-safety: null dereference', False, 'safety')
                raise PathEnd()
            return self.load_local(st, addr, n, w, ty)
        r = self.region(st, addr, ty, w)
        v = r.load(self, st, addr)
        return self.fit(v, w)

    def fit(self, v, w):
        if w == 1 and z3.is_bv(v if not isc(v) else z3.BitVecVal(0, 8)):
            if isc(v):
                return bool(v & 1)
            return v == 1 if v.size() == 1 else z3.Extract(0, 0, v) == 1
        return v

    def load_local(self, st, addr, n, w, ty=None):
        o = self.find_obj(st, addr)
        if o is None:
            raise Unsupported('load from unknown address %#x' % addr)
        off = addr - o.base
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if w == 1 and not isinstance(v, bool) and not (not isc(v) and not isinstance(v, tuple) and z3.is_bool(v)):
                return bool(v & 1) if isc(v) else z3.Extract(0, 0, v) == 1
            if w == 8 and isinstance(v, bool):
                return int(v)
            if w == 8 and not isc(v) and not isinstance(v, tuple) and z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return v
        # bytes
        bs = []
        missing = True
        for i in range(n):
            b = self.byte_at(o, off + i)
            bs.append(b)
            if b is not None:
                missing = False
        if missing:
            v = self.uninit(st, o, off, n, w)
            o.cells[off] = (n, v)
            return v
        bs = [fresh('uninit', 8) if b is None else b for b in bs]
        if all(isc(b) for b in bs):
            v = sum((b & 255) << (8 * i) for i, b in enumerate(bs))
            return bool(v & 1) if w == 1 else v
        if n == 1:
            v = bs[0]
        else:
            v = simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
        if w == 1:
            return z3.Extract(0, 0, v) == 1
        return v

    def uninit(self, st, o, off, n, w):
        if o.name.startswith('@'):
            # deterministic name: the value a global had when the function was entered
            nm = 'G_%s+%d' % (o.name[1:], off)
            return z3.Bool(nm) if w == 1 else z3.BitVec(nm, 8 * n)
        return fresh('%s+%d' % (o.name, off), 8 * n if w != 1 else 1)

    def byte_at(self, o, off):
        for d in range(0, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if isinstance(v, bool):
                        return int(v)
                    if isinstance(v, int):
                        return (v >> (8 * d)) & 255
                    if isinstance(v, tuple):
                        raise Unsupported('byte of aggregate')
                    if z3.is_bool(v):
                        return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                    return conc(z3.simplify(z3.Extract(8 * d + 7, 8 * d, v)))
                break
        for lo, hi, b in reversed(o.zero):
            if lo <= off < hi:
                return b
        return None

    def store(self, st, mod, ty, v, addr):
        if ty[0] == 'named':
            ty = ir.resolve(mod, ty)
        if ty[0] == 'struct':
            for i, f in enumerate(ty[1]):
                self.store(st, mod, f, v[i], self.add(addr, ir.field_offset(mod, ty, i)[0]))
            return
        if ty[0] == 'float':
            return
        w = self.ty_width(mod, ty)
        n = max(1, (w + 7) // 8)
        if isc(addr):
            if addr < 4096:
                self.oblige(st, 'memory-safety: null dereference', False, 'safety')
                raise PathEnd()
            self.store_local(st, addr, n, v)
            return
        r = self.region(st, addr, ty, w)
        r.store(self, st, addr, v)

    def store_local(self, st, addr, n, v):
        o = self.find_obj(st, addr)
        if o is None:
            raise Unsupported('store to unknown address %#x' % addr)
        if o.const:
            raise Unsupported('store to constant')
        off = addr - o.base
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear_cells(o, off, off + n)
        o.cells[off] = (n, v)

    def clear_cells(self, o, lo, hi):
        """remove cells overlapping [lo,hi), keeping the bytes outside"""
        for k in list(o.cells):
            n, v = o.cells[k]
            if k < hi and k + n > lo:
                keepb = [(k + i, self.byte_at(o, k + i)) for i in range(n) if not (lo <= k + i < hi)]
                del o.cells[k]
                for p, b in keepb:
                    o.cells[p] = (1, b)

    def memset(self, st, addr, byte, n):
        if not isc(addr) or not isc(n) or not isc(byte):
            raise Unsupported('symbolic memset')
        o = self.find_obj(st, addr)
        off = addr - o.base
        self.clear_cells(o, off, off + n)
        o.zero.append((off, off + n, byte & 255))

    def memcpy(self, st, mod, dst, src, n):
        if not (isc(dst) and isc(src) and isc(n)):
            raise Unsupported('symbolic memcpy')
        so = self.find_obj(st, src)
        do = self.find_obj(st, dst)
        if so is None or do is None:
            raise Unsupported('memcpy object')
        soff, doff = src - so.base, dst - do.base
        items = [(k, c) for k, c in so.cells.items() if k >= soff and k + c[0] <= soff + n]
        covered = set()
        for k, c in items:
            covered.update(range(k, k + c[0]))
        extra = []
        for b in range(soff, soff + n):
            if b not in covered:
                x = self.byte_at(so, b)
                if x is not None:
                    extra.append((b, (1, x)))
                else:
                    extra.append((b, None))
        self.clear_cells(do, doff, doff + n)
        do.zero = [z for z in do.zero] if n < do.size else []
        for k, c in items:
            do.cells[k - soff + doff] = c
        for k, c in extra:
            if c is not None:
                do.cells[k - soff + doff] = c
            else:
                # uninitialised source byte: lazily fresh, must not fall back to a zero range
                if do.zero:
                    do.cells[k - soff + doff] = (1, fresh('undefbyte', 8))

    def region(self, st, addr, ty, w):
        t = self.tag_of(addr)
        r = None
        if t is not None:
            r = self.region_of.get(t)
            if r is None and isinstance(t, tuple):
                r = Region(t, w)
                self.region_of[t] = r
        if r is None:
            r = self.default_region.get('ptr' if ty[0] == 'ptr' else w)
        if r is None:
            raise Unsupported('access of width %d at untyped symbolic address %s' % (w, str(addr)[:80]))
        return r

    # -------------------------------------------------------- arithmetic
    def add(self, a, k):
        if isc(a) and isc(k):
            return (a + k) & mask(64)
        return simp(bv(a, 64) + bv(k, 64))

    def gep(self, st, mod, ety, base, idx):
        ty = ety
        i0t, i0 = idx[0]
        off = None
        addr = base

        def addk(addr, k, size):
            if isc(k):
                kk = signed(k, 64)
                if kk == 0:
                    return addr
                if isc(addr):
                    return (addr + kk * size) & mask(64)
                return simp(addr + z3.BitVecVal((kk * size) & mask(64), 64))
            return simp(bv(addr, 64) + k * z3.BitVecVal(size, 64))

        def ext(t, k):
            if isc(k):
                return signed(k, t[1]) & mask(64)
            return z3.SignExt(64 - t[1], k) if t[1] < 64 else k
        tag = None
        if not (isc(i0) and i0 == 0):
            addr = addk(addr, ext(i0t, i0), ir.sizeof(mod, ty))
        path = None
        root = None
        for t, k in idx[1:]:
            if ty[0] == 'named':
                nm = ty[1]
                rty = ir.resolve(mod, ty)
                if rty[0] == 'struct':
                    root, path = nm, (k,)
                ty = rty
            elif ty[0] == 'struct' and path is not None:
                path = path + (k,)
            if ty[0] == 'struct':
                o, fty = ir.field_offset(mod, ty, k)
                addr = addk(addr, o, 1)
                ty = fty
            elif ty[0] == 'arr':
                addr = addk(addr, ext(t, k), ir.sizeof(mod, ty[2]))
                ty = ty[2]
                if path is not None:
                    path = path + ('[]',)
            else:
                raise Unsupported('gep into %r' % (ty,))
        if not isc(addr) and path is not None:
            nm = root.strip('%').strip('"')
            if nm.startswith('struct.'):
                nm = nm[7:]
            tg = (nm,) + path
            self.set_tag(addr, tg)
            if st is not None:
                self.on_gep(st, addr, tg)
        return addr

    def on_gep(self, st, addr, tag):
        pass

    def cast(self, op, sty, v, dty):
        if isinstance(v, tuple) or sty[0] == 'float' or dty[0] == 'float':
            if dty[0] == 'float':
                return ('fp', 'cast')
            return fresh('fpcast', dty[1] if dty[0] == 'int' else 64)
        sw = 64 if sty[0] == 'ptr' else sty[1]
        dw = 64 if dty[0] == 'ptr' else dty[1]
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if sw == dw:
                return v
            op = 'zext' if dw > sw else 'trunc'
        if isc(v):
            if op == 'sext':
                r = signed(int(v), sw) & mask(dw)
            else:
                r = int(v) & mask(dw)
            return bool(r) if dw == 1 else r
        if sw == 1:
            one = z3.BitVecVal(1 if op == 'zext' else mask(dw), dw)
            return z3.If(v, one, z3.BitVecVal(0, dw))
        if dw == 1:
            # trunc of a zext'ed bool
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                c, x, y = v.children()
                if z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() & 1 == 1 and y.as_long() & 1 == 0:
                    return c
            return z3.Extract(0, 0, v) == 1
        if op == 'zext':
            return z3.ZeroExt(dw - sw, v)
        if op == 'sext':
            return z3.SignExt(dw - sw, v)
        return simp(z3.Extract(dw - 1, 0, v))

    def binop(self, st, op, ty, x, y):
        if ty[0] == 'float':
            return ('fp', op)
        if ty[0] == 'vec':
            raise Unsupported('vector op')
        w = ty[1]
        if w == 1:
            if isc(x) and isc(y):
                x, y = bool(x), bool(y)
                return {'and': x and y, 'or': x or y, 'xor': x != y}[op]
            a, b = bl(x), bl(y)
            return conc(z3.simplify({'and': z3.And(a, b), 'or': z3.Or(a, b), 'xor': z3.Xor(a, b)}[op]))
        if isc(x) and isc(y):
            x, y = int(x) & mask(w), int(y) & mask(w)
            sx, sy = signed(x, w), signed(y, w)
            if op == 'add':
                r = x + y
            elif op == 'sub':
                r = x - y
            elif op == 'mul':
                r = x * y
            elif op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            elif op == 'xor':
                r = x ^ y
            elif op == 'shl':
                r = x << y
            elif op == 'lshr':
                r = x >> y
            elif op == 'ashr':
                r = sx >> y
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if y == 0:
                    if st is not None:
                        self.oblige(st, 'arithmetic: division by zero', False, 'safety')
                    raise PathEnd()
                if op == 'udiv':
                    r = x // y
                elif op == 'urem':
                    r = x % y
                else:
                    q = abs(sx) // abs(sy)
                    if (sx < 0) != (sy < 0):
                        q = -q
                    r = q if op == 'sdiv' else sx - q * sy
            else:
                raise Unsupported(op)
            return r & mask(w)
        a, b = bv(x, w), bv(y, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isc(y) and st is not None:
                return self.divmod_const(st, op, a, signed(y, w), w)
            if st is not None:
                self.oblige(st, 'arithmetic: division by zero', b != 0, 'safety')
            f = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op]
            return f(a, b)
        if op == 'add':
            return simp(a + b)
        if op == 'sub':
            return simp(a - b)
        if op == 'mul':
            return simp(a * b)
        if op == 'and':
            return simp(a & b)
        if op == 'or':
            return simp(a | b)
        if op == 'xor':
            return simp(a ^ b)
        if op == 'shl':
            return simp(a << b)
        if op == 'lshr':
            return simp(z3.LShR(a, b))
        if op == 'ashr':
            return simp(a >> b)
        raise Unsupported(op)

    _dm = {}

    def divmod_const(self, st, op, a, c, w):
        """a = q*c + r, with no-overflow side conditions: cached fresh q,r"""
        if c == 0:
            raise Unsupported('division by constant zero')
        sg = op[0] == 's'
        key = (a.get_id(), c, w, sg)
        ent = self._dm.get(key)
        if ent is None:
            q, r = fresh('quot', w), fresh('rem', w)
            C = z3.BitVecVal(c & mask(w), w)
            if not sg:
                ax = z3.And(a == q * C + r, z3.ULT(r, C), z3.ULE(q, z3.BitVecVal(mask(w) // c, w)))
            else:
                M = (1 << (w - 1)) // abs(c)
                pos = z3.And(a >= 0, q >= 0 if c > 0 else q <= 0, r >= 0, r < abs(c))
                neg = z3.And(a < 0, q <= 0 if c > 0 else q >= 0, r <= 0, r > -abs(c))
                ax = z3.And(a == q * C + r, q <= M, q >= -M, z3.Or(pos, neg))
            ent = self._dm[key] = (q, r, ax, a)
        q, r, ax, _ = ent
        if ax not in st.pc if False else not any(ax is p for p in st.pc):
            st.pc.append(ax)
        return q if op.endswith('div') else r

    def icmp(self, st, pred, ty, x, y):
        w = 64 if ty[0] == 'ptr' else ty[1]
        if isc(x) and isc(y):
            x, y = int(x) & mask(w), int(y) & mask(w)
            sx, sy = signed(x, w), signed(y, w)
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                    'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[pred]
        if w == 1:
            a, b = bl(x), bl(y)
            r = {'eq': a == b, 'ne': z3.Xor(a, b)}[pred]
            return conc(z3.simplify(r))
        if ty[0] == 'ptr' and pred in ('eq', 'ne'):
            # a symbolic (shared memory) pointer never equals the address of a local object
            for p, q in ((x, y), (y, x)):
                if isc(p) and p >= self.FN0 and p < 0x600000000000 and not isc(q):
                    if not (z3.is_app_of(q, z3.Z3_OP_ITE)):
                        return pred == 'ne'
        a, b = bv(x, w), bv(y, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return conc(z3.simplify(r))

    # -------------------------------------------------------- operands
    def val(self, st, ty, o):
        k = o[0]
        if k == 'reg':
            try:
                return st.top.regs[o[1]]
            except KeyError:
                raise Unsupported('undefined register %s' % o[1])
        return self.const_operand(st.top.fn.module, ty, o)

    # -------------------------------------------------------- execution
    def push_call(self, st, fn, args, call=None):
        if len(st.frames) > 40:
            raise Unsupported('recursion depth')
        self.prog.get(fn.name)
        if fn.irreducible:
            raise Unsupported('irreducible control flow in ' + fn.demangled)
        if getattr(fn, 'vararg', False):
            raise Unsupported('vararg body')
        f = Frame(next(self.uid), fn)
        for (ty, nm), v in zip(fn.params, args):
            f.regs[nm] = v
        f.call = call
        st.frames.append(f)

    def run(self, st, base, on_ret, stop=None):
        """explore from st until the frame at depth `base` returns; on_ret(state, value)."""
        work = [st]
        while True:
            if not work:
                s = self.next_merged() if base == 0 and stop is None else None
                if s is None:
                    break
                work.extend(s)
            s = work.pop()
            try:
                res = self.step_path(s, base, on_ret, stop)
            except PathEnd:
                continue
            if res:
                work.extend(res)
            if self.rep is not None and self.rep.paths > self.max_paths:
                raise Unsupported('path limit')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')

    # -------------------------------------------------------- merging of paths (at calls a contract names)
    def park(self, s, ins):
        f = s.top
        if len(s.frames) != 1 or f.cuts or ins.a[1][0] != 'global':
            return False
        name = ins.a[1][1][1:].strip('"')
        dem = self.prog.dem.get(name, name)
        if dem.split('(')[0] not in self.merge_at and dem not in self.merge_at:
            return False
        k = (f.block, f.idx)
        if s.nopark == k:
            s.nopark = None
            return False
        f.idx -= 1
        self.parked.setdefault((f.fn.order.index(f.block), f.idx), []).append(s)
        return True

    def next_merged(self):
        if not self.parked:
            return None
        k = min(self.parked)
        group = self.parked.pop(k)
        out = []
        while group:
            m = group.pop(0)
            rest = []
            for t in group:
                r = self.merge(m, t)
                if r is None:
                    rest.append(t)
                else:
                    m = r
            m.nopark = (m.top.block, m.top.idx + 1)
            out.append(m)
            group = rest
        return out

    def merge(self, x, y):
        """one state standing for both, or None"""
        n = 0
        while n < len(x.pc) and n < len(y.pc) and (x.pc[n] is y.pc[n] or x.pc[n].eq(y.pc[n])):
            n += 1
        cx, cy = And(*x.pc[n:]), And(*y.pc[n:])
        cx, cy = bl(cx), bl(cy)
        m = x.copy()
        m.pc = list(x.pc[:n])
        m.assume(simp(Or(cx, cy)))
        sel = z3.Bool('merge!%d' % next(_fresh))      # which of the two it was
        m.assume(And(Imp(sel, cx), Imp(Not(sel), cy)))

        class Differ(Exception):
            pass

        def ite(a, b):
            if a is b or same(a, b):
                return a
            if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
                raise Differ()
            if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)):
                return z3.If(sel, bl(a), bl(b))
            w = a.size() if not isc(a) and z3.is_bv(a) else b.size() if not isc(b) and z3.is_bv(b) else None
            if w is None:
                if isc(a) or isc(b):
                    raise Differ()
                if a.sort() != b.sort():
                    raise Differ()
                return z3.If(sel, a, b)
            a, b = bv(a, w), bv(b, w)
            if a.size() != b.size():
                raise Differ()
            return z3.If(sel, a, b)
        try:
            f, g = m.top, y.top
            for r in list(f.regs):
                if r not in g.regs:
                    del f.regs[r]
                elif not same(f.regs[r], g.regs[r]):
                    try:
                        a, b = f.regs[r], g.regs[r]
                        if isc(a) and isc(b) and not isinstance(a, bool):
                            a = bv(a, 64)      # a width is only known for symbolic values: such a register is dropped
                            raise Differ()
                        f.regs[r] = ite(a, b)
                    except Differ:
                        del f.regs[r]
            f.prev = f.prev if f.prev == g.prev else None
            for k in set(x.ghost) | set(y.ghost):
                a, b = x.ghost.get(k), y.ghost.get(k)
                if isc(a) and isc(b) and a is not None and b is not None and not isinstance(a, bool) and a != b:
                    a, b = bv(a, 64), bv(b, 64)
                m.ghost[k] = ite(a, b)
            for k in set(x.mem) | set(y.mem):
                a = x.mem.get(k)
                b = y.mem.get(k)
                i = self.region_of[k].init() if (a is None or b is None) else None
                m.mem[k] = ite(i if a is None else a, i if b is None else b)
            for b in set(x.objs) | set(y.objs):
                o, q = x.objs.get(b), y.objs.get(b)
                if o is None or q is None:
                    if (o or q).name.startswith('@'):
                        if o is None:
                            o = Obj(q.base, q.size, q.name, q.const)
                            o.cells = dict(q.cells) if q.const else {}
                            m.objs[b] = o.copy()
                        else:
                            q = Obj(o.base, o.size, o.name, o.const)
                            q.cells = dict(o.cells) if o.const else {}
                    else:
                        m.objs.pop(b, None)
                        continue
                if o.const:
                    m.objs[b] = o
                    continue
                if o.zero != q.zero:
                    raise Differ()
                mo = m.objs[b]
                for off in set(o.cells) | set(q.cells):
                    c, d = o.cells.get(off), q.cells.get(off)
                    nb = (c or d)[0]
                    if c is not None and d is not None and c[0] != d[0]:
                        raise Differ()
                    if c is None or d is None:
                        if not o.name.startswith('@'):
                            mo.cells.pop(off, None)
                            continue
                        v = (c or d)[1]
                        u = self.uninit(m, o, off, nb, 1 if isinstance(v, bool) or (not isc(v) and not isinstance(v, tuple) and z3.is_bool(v)) else 8 * nb)
                        c = c or (nb, u)
                        d = d or (nb, u)
                    a, e = c[1], d[1]
                    if isc(a) and isc(e) and not isinstance(a, bool) and not isinstance(e, bool) and a != e:
                        a, e = bv(a, 8 * nb), bv(e, 8 * nb)
                    mo.cells[off] = (nb, ite(a, e))
        except Differ:
            return None
        return m

    def jump(self, s, target, stop):
        """move to block target. Returns None to continue in place, or a list of successor states."""
        f = s.top
        fn = f.fn
        src = f.block
        # leaving loops
        for h in [h for h in f.cuts if target not in fn.loops[h]]:
            del f.cuts[h]
        f.prev, f.block, f.idx = src, target, 0
        # phis
        phis = []
        for ins in fn.blocks[target]:
            if ins.op != 'phi':
                break
            ty, inc = ins.a
            for v, l in inc:
                if l == src:
                    phis.append((ins.res, self.val(s, ty, v)))
                    break
            else:
                raise Unsupported('phi without incoming')
        for r, v in phis:
            f.regs[r] = v
        f.idx = len(phis)
        s.trace.append('%s:%s' % (fn.demangled.split('(')[0].split('::')[-1], target.strip('%')))
        if stop is not None:
            r = stop(s)
            if r:
                raise PathEnd()
        if target in fn.loops:
            if target in f.cuts:
                cut = f.cuts[target]
                cut.back(self, s)
                raise PathEnd()
            return self.handle_loop(s, target)
        return None

    def step_path(self, s, base, on_ret, stop):
        while True:
            f = s.top
            ins = f.fn.blocks[f.block][f.idx]
            f.idx += 1
            op = ins.op
            a = ins.a
            if op == 'nop':
                continue
            mod = f.fn.module
            if op == 'br':
                if len(a) == 1:
                    r = self.jump(s, a[0], stop)
                    if r is not None:
                        return r
                    continue
                c = self.val(s, ('int', 1), a[0])
                if isc(c):
                    r = self.jump(s, a[1] if c else a[2], stop)
                    if r is not None:
                        return r
                    continue
                outs = []
                c1 = bl(c)
                t_ok = self.feasible(s, c1)
                f_ok = self.feasible(s, z3.Not(c1))
                if t_ok and f_ok:
                    s2 = s.copy()
                    s2.pc.append(z3.Not(c1))
                    s.pc.append(c1)
                    for st, tg in ((s, a[1]), (s2, a[2])):
                        try:
                            r = self.jump(st, tg, stop)
                            outs.extend(r if r is not None else [st])
                        except PathEnd:
                            pass
                    return outs
                if not t_ok and not f_ok:
                    raise PathEnd()
                r = self.jump(s, a[1] if t_ok else a[2], stop)
                if r is not None:
                    return r
                continue
            if op == 'switch':
                ty, v, d, cs = a
                x = self.val(s, ty, v)
                outs = []
                w = ty[1]
                nots = []
                taken = False
                for cv, lab in cs:
                    k = self.const_operand(mod, ty, cv)
                    if isc(x):
                        if int(x) == int(k):
                            r = self.jump(s, lab, stop)
                            if r is not None:
                                return r
                            taken = True
                            break
                        continue
                    c = x == bv(k, w) if w > 1 else (bl(x) == bool(k))
                    nots.append(z3.Not(c))
                    if self.feasible(s, c):
                        s2 = s.copy()
                        s2.pc.append(c)
                        try:
                            r = self.jump(s2, lab, stop)
                            outs.extend(r if r is not None else [s2])
                        except PathEnd:
                            pass
                if taken:
                    continue
                if isc(x):
                    r = self.jump(s, d, stop)
                    if r is not None:
                        return r
                    continue
                if self.feasible(s, z3.And(*nots)):
                    s.pc.extend(nots)
                    try:
                        r = self.jump(s, d, stop)
                        outs.extend(r if r is not None else [s])
                    except PathEnd:
                        pass
                return outs
            if op == 'ret':
                ty, v = a
                rv = None if v is None else self.val(s, ty, v)
                fr = s.frames.pop()
                for b in fr.allocs:
                    s.objs.pop(b, None)
                if len(s.frames) == base:
                    if self.rep is not None and not self.muted:
                        self.rep.paths += 1
                    on_ret(s, rv)
                    return None
                if fr.call is not None and fr.call.res:
                    s.top.regs[fr.call.res] = rv
                continue
            if op == 'unreachable':
                raise PathEnd()
            if op == 'call':
                if self.merge_at and base == 0 and stop is None and self.park(s, ins):
                    return None
                r = self.do_call(s, ins)
                if r is not None:
                    return r
                continue
            if op == 'unsupported':
                raise Unsupported('instruction: ' + ins.text)
            self.simple(s, f, mod, op, a, ins)

    def simple(self, s, f, mod, op, a, ins):
        regs = f.regs
        if op == 'alloca':
            ty, n = a
            size = ir.sizeof(mod, ty)
            if n is not None:
                k = self.val(s, n[0], n[1])
                if not isc(k):
                    raise Unsupported('dynamic alloca')
                size *= k
            b = self.alloc(s, size, f.fn.demangled.split('(')[0].split('::')[-1] + ins.res)
            f.allocs.append(b)
            regs[ins.res] = b
        elif op == 'load':
            ty, p, at = a
            regs[ins.res] = self.load(s, mod, ty, self.val(s, ir.PTR, p), at)
        elif op == 'store':
            ty, v, p, at = a
            self.store(s, mod, ty, self.val(s, ty, v), self.val(s, ir.PTR, p))
        elif op == 'getelementptr':
            ety, ops = a
            base = self.val(s, ir.PTR, ops[0][1])
            idx = [(t, self.val(s, t, o)) for t, o in ops[1:]]
            regs[ins.res] = self.gep(s, mod, ety, base, idx)
        elif op in ir.BINOPS:
            ty, x, y, fl = a
            regs[ins.res] = self.binop(s, op, ty, self.val(s, ty, x), self.val(s, ty, y))
        elif op == 'icmp':
            pred, ty, x, y = a
            regs[ins.res] = self.icmp(s, pred, ty, self.val(s, ty, x), self.val(s, ty, y))
        elif op == 'fcmp':
            regs[ins.res] = fresh('fcmp', 1)
        elif op in ir.CASTS:
            ty, x, dty = a
            regs[ins.res] = self.cast(op, ty, self.val(s, ty, x), dty)
        elif op == 'select':
            c, ty, x, y = a
            cv = self.val(s, ('int', 1), c)
            xv, yv = self.val(s, ty, x), self.val(s, ty, y)
            if isc(cv):
                regs[ins.res] = xv if cv else yv
            elif same(xv, yv):
                regs[ins.res] = xv
            elif isinstance(xv, tuple):
                raise Unsupported('select of aggregate')
            else:
                w = self.ty_width(mod, ty)
                if w == 1:
                    regs[ins.res] = z3.If(bl(cv), bl(xv), bl(yv))
                else:
                    regs[ins.res] = z3.If(bl(cv), bv(xv, w), bv(yv, w))
        elif op == 'extractvalue':
            ty, v, idx = a
            x = self.val(s, ty, v)
            for i in idx:
                x = x[i]
            regs[ins.res] = x
        elif op == 'insertvalue':
            ty, v, ety, e, idx = a
            x = self.val(s, ty, v)
            if len(idx) != 1:
                raise Unsupported('insertvalue')
            x = list(x)
            x[idx[0]] = self.val(s, ety, e)
            regs[ins.res] = tuple(x)
        elif op == 'cmpxchg':
            ty, p, c, n = a
            addr = self.val(s, ir.PTR, p)
            cv, nv = self.val(s, ty, c), self.val(s, ty, n)
            w = self.ty_width(mod, ty)
            if isc(addr):
                old = self.load(s, mod, ty, addr)
                eq = self.icmp(s, 'eq', ('int', w), old, cv)
                if isc(eq):
                    if eq:
                        self.store(s, mod, ty, nv, addr)
                else:
                    self.store(s, mod, ty, z3.If(eq, bv(nv, w), bv(old, w)), addr)
            else:
                r = self.region(s, addr, ty, w)
                old, eq = r.cas(self, s, addr, cv, nv)
            regs[ins.res] = (old, eq)
        elif op == 'atomicrmw':
            o, ty, p, v = a
            addr = self.val(s, ir.PTR, p)
            x = self.val(s, ty, v)
            w = self.ty_width(mod, ty)
            if o not in ('add', 'sub', 'xchg', 'and', 'or', 'xor'):
                raise Unsupported('atomicrmw ' + o)
            if isc(addr):
                old = self.load(s, mod, ty, addr)
                self.store(s, mod, ty, x if o == 'xchg' else self.binop(s, o, ty, old, x), addr)
            else:
                r = self.region(s, addr, ty, w)
                old = r.rmw(self, s, addr, (lambda q: x) if o == 'xchg' else (lambda q: self.binop(s, o, ty, q, x)))
            regs[ins.res] = old
        elif op == 'freeze':
            regs[ins.res] = self.val(s, a[0], a[1])
        elif op == 'phi':
            raise Unsupported('phi out of place')
        else:
            raise Unsupported('op ' + op)

    # -------------------------------------------------------- calls
    def do_call(self, s, ins):
        rty, callee, args = ins.a
        if callee[0] == 'global':
            name = callee[1][1:].strip('"')
        else:
            c = self.val(s, ir.PTR, callee)
            if not isc(c) or c not in self.fnname:
                raise Unsupported('indirect call')
            name = self.fnname[c]
        vals = [self.val(s, t, o) for t, o in args]
        mod = s.top.fn.module
        if name.startswith('llvm.'):
            self.intrinsic(s, mod, name, vals, ins)
            return None
        dem = self.prog.dem.get(name, name)
        con = self.lookup(dem)
        if con is not None:
            self.rep.used_contracts.add(con.name)
            outs = con.apply(self, s, vals, ins)
            return self.finish_call(s, outs, ins)
        m = self.models.get(name) or self.models.get(dem) or self.models.get(dem.split('(')[0])
        if m is None and self.model_fallback is not None:
            m = self.model_fallback(dem)
        if m is not None:
            self.rep.trusted.add(dem.split('(')[0])
            outs = m(self, s, vals, ins)
            return self.finish_call(s, outs, ins)
        fn = self.prog.get(name)
        if fn is None:
            raise Unsupported('call to external function ' + dem)
        self.rep.inlined.add(dem)
        self.push_call(s, fn, vals, ins)
        return None

    def finish_call(self, s, outs, ins):
        """outs: None (=continue with s, void) | value | list of (state, value)"""
        if isinstance(outs, list):
            res = []
            for st, v in outs:
                if ins.res:
                    st.top.regs[ins.res] = v
                res.append(st)
            if len(res) == 1 and res[0] is s:
                return None
            return res
        if ins.res:
            s.top.regs[ins.res] = outs
        return None

    def lookup(self, dem):
        if dem in self.nocontract:
            return None
        c = self.contracts.get(dem)
        if c is None:
            c = self.contracts.get(dem.split('(')[0])
        return c

    def intrinsic(self, s, mod, name, v, ins):
        if name.startswith('llvm.memset'):
            self.memset(s, v[0], v[1], v[2])
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(s, mod, v[0], v[1], v[2])
        elif name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')):
            pass
        elif name.startswith('llvm.stacksave'):
            s.top.regs[ins.res] = 0x1
        elif name.startswith('llvm.stackrestore'):
            pass
        else:
            raise Unsupported('intrinsic ' + name)

    # -------------------------------------------------------- loops
    def handle_loop(self, entry, header):
        """entry: state positioned at the loop header (phis evaluated) coming from outside."""
        if self.rep is not None and not self.muted:
            self.rep.loops += 1
        fuid = entry.top.uid
        depth = len(entry.frames)
        fn = entry.top.fn
        phis = [i.res for i in fn.blocks[header] if i.op == 'phi']
        ptys = {i.res: i.a[0] for i in fn.blocks[header] if i.op == 'phi'}
        mod_items = set()
        dropped = set()
        self.muted += 1
        try:
            for it in range(60):
                head = self.havoc(entry, mod_items, depth, ptys)
                cands = self.candidates(entry, head, mod_items, depth, header)
                # establish on entry
                live = []
                for nm, fnc in cands:
                    if nm in dropped:
                        continue
                    try:
                        c = fnc(entry)
                    except Unsupported:
                        c = None
                    if c is not None and self.provable(entry, c):
                        live.append((nm, fnc))
                    else:
                        dropped.add(nm)
                for nm, fnc in live:
                    head.assume(fnc(head))
                cut = TrialCut(self, head, live, mod_items, depth, ptys)
                h2 = head.copy()
                h2.top.cuts[header] = cut
                body = fn.loops[header]

                def stop(s, body=body, fuid=fuid, depth=depth):
                    return len(s.frames) == depth and s.frames[depth - 1].uid == fuid and s.frames[depth - 1].block not in body
                self.run_trial(h2, depth, stop)
                if self.verbose:
                    print('   loop', fn.demangled[:40], header, 'it', it, 'new', sorted(map(str, cut.newmods)), 'failed', cut.failed, 'live', [n for n, _ in live])
                if not cut.newmods and not cut.failed:
                    break
                mod_items |= cut.newmods
                dropped |= cut.failed
                if cut.newmods:
                    # candidates about changed items may have been dropped only because of missing havoc: recompute lazily
                    pass
            else:
                raise Unsupported('invariant inference did not converge')
        finally:
            self.muted -= 1
        cut = FinalCut(self, head.copy(), live, mod_items, depth, ptys, header)
        head.top.cuts[header] = cut
        for chk in self.back_checks:
            if chk.get('head'):
                chk['head'](self, head, header)
        return [head]

    def run_trial(self, st, depth, stop):
        # explore the body; returning out of the frame or leaving the loop ends the path
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported('path limit in loop')
            try:
                res = self.step_path(s, depth - 1, lambda *_: None, stop)
            except PathEnd:
                continue
            if res:
                work.extend(res)

    def items_of(self, st, depth, ptys):
        out = {}
        f = st.frames[depth - 1]
        for r in ptys:
            out[('phi', r)] = f.regs.get(r)
        for b, o in st.objs.items():
            if o.const:
                continue
            for off, (n, v) in o.cells.items():
                out[('cell', b, off, n)] = v
        for t, v in st.mem.items():
            out[('mem', t)] = v
        for g, v in st.ghost.items():
            if g[0] != '_':
                out[('ghost', g)] = v
        return out

    def get_item(self, st, it, depth):
        if it[0] == 'phi':
            return st.frames[depth - 1].regs.get(it[1])
        if it[0] == 'cell':
            o = st.objs.get(it[1])
            if o is None:
                return None
            c = o.cells.get(it[2])
            if c is not None and c[0] == it[3]:
                return c[1]
            return None
        if it[0] == 'mem':
            return st.mem.get(it[1])
        return st.ghost.get(it[1])

    def havoc(self, entry, mods, depth, ptys):
        h = entry.copy()
        for it in mods:
            v = self.get_item(entry, it, depth)
            if it[0] == 'phi':
                w = self.ty_width(entry.top.fn.module, ptys[it[1]]) if ptys[it[1]][0] in ('int', 'ptr') else None
                if w is None:
                    raise Unsupported('havoc of aggregate phi')
                h.frames[depth - 1].regs[it[1]] = fresh('loop' + it[1].strip('%'), w)
            elif it[0] == 'cell':
                o = h.objs[it[1]]
                nv = z3.Bool('loopcell!%d' % next(_fresh)) if isinstance(v, bool) or (not isc(v) and v is not None and not isinstance(v, tuple) and z3.is_bool(v)) else fresh('loopcell_' + o.name, 8 * it[3])
                self.clear_cells(o, it[2], it[2] + it[3])
                o.cells[it[2]] = (it[3], nv)
            elif it[0] == 'mem':
                if it[1] not in h.mem:
                    entry.mem[it[1]] = h.mem[it[1]] = self.region_of[it[1]].init()
                h.mem[it[1]] = fresh('loopmem_%s' % (it[1],), h.mem[it[1]].sort())
            else:
                if not isc(v) and not isinstance(v, tuple) and v is not None:
                    h.ghost[it[1]] = fresh('loopghost_' + it[1], v.sort())
                elif isinstance(v, bool):
                    h.ghost[it[1]] = z3.Bool('loopghost_%s!%d' % (it[1], next(_fresh)))
                else:
                    h.ghost[it[1]] = fresh('loopghost_' + it[1], 64)
        self.after_havoc(h, mods)
        return h

    def after_havoc(self, st, mods):
        for fnc in getattr(self, 'havoc_axioms', []):
            fnc(self, st)

    def candidates(self, entry, head, mods, depth, header):
        cands = []

        def getter(it):
            return lambda s: self.get_item(s, it, depth)
        ev = {it: self.get_item(entry, it, depth) for it in mods}
        for it in mods:
            if it[0] in ('mem',):
                continue
            e = ev[it]
            g = getter(it)
            if e is None or isinstance(e, tuple):
                continue
            nm = 'inv:%s' % ('/'.join(map(str, it)))
            hv = g(head)
            if hv is None or isinstance(hv, tuple):
                continue
            if z3.is_bv(hv):
                w = hv.size()
                cands.append((nm + ' >=s entry', lambda s, g=g, e=e, w=w: bv(g(s), w) >= bv(e, w)))
                cands.append((nm + ' >=s 0', lambda s, g=g, w=w: bv(g(s), w) >= 0))
                cands.append((nm + ' != 0', lambda s, g=g, w=w: bv(g(s), w) != 0))
        for cf in self.loop_cands:
            cands.extend(cf(self, entry, head, mods, depth, header))
        return cands


class PathEnd(Exception):
    pass


class TrialCut:
    def __init__(self, ex, head, live, mods, depth, ptys):
        self.ex, self.head, self.live, self.mods, self.depth, self.ptys = ex, head, live, mods, depth, ptys
        self.newmods, self.failed = set(), set()

    def back(self, ex, s):
        hi = ex.items_of(self.head, self.depth, self.ptys)
        for it, v in hi.items():
            if it in self.mods or it in self.newmods:
                continue
            n = ex.get_item(s, it, self.depth)
            if n is None and it[0] == 'cell':
                if it[1] not in s.objs:
                    continue
                self.newmods.add(it)
                continue
            if same(n, v):
                continue
            if isinstance(n, tuple) or isinstance(v, tuple) or n is None or v is None:
                if same(n, v):
                    continue
                self.newmods.add(it)
                continue
            try:
                e = eqv(n, v)
            except z3.Z3Exception:
                self.newmods.add(it)
                continue
            if not ex.provable(s, e):
                self.newmods.add(it)
        for t, v in s.mem.items():
            if t not in self.head.mem and ('mem', t) not in self.mods:
                r = ex.region_of.get(t)
                if r is None or not v.eq(r.init()):
                    self.newmods.add(('mem', t))
        for g, v in s.ghost.items():
            if g not in self.head.ghost and g[0] != '_':
                self.newmods.add(('ghost', g))
        for b, o in self.head.objs.items():
            so = s.objs.get(b)
            if so is None or o.const:
                continue
            for off, (n, v) in so.cells.items():
                c = o.cells.get(off)
                if (c is None or c[0] != n) and ('cell', b, off, n) not in self.mods:
                    bs = [ex.byte_at(o, off + i) for i in range(n)]
                    if any(x is not None for x in bs):
                        if all(isc(x) for x in bs) and isc(v) and int(v) == sum(x << (8 * i) for i, x in enumerate(bs)):
                            continue
                        self.newmods.add(('cell', b, off, n))
                    elif o.name.startswith('@'):
                        # lazily read global: unchanged iff it is still the entry value
                        if not same(v, ex.uninit(s, o, off, n, 1 if (not isc(v) and not isinstance(v, tuple) and z3.is_bool(v)) else 8 * n)):
                            self.newmods.add(('cell', b, off, n))
        for nm, fnc in self.live:
            if nm in self.failed:
                continue
            c = fnc(s)
            if c is None:
                self.failed.add(nm)
                continue
            t = time.time()
            r = ex.provable3(s, c)
            if r != 'unsat':
                self.failed.add(nm)
                if r == 'unknown' and ex.rep is not None:
                    ex.rep.unknown_drops.add(nm)
            if ex.verbose and time.time() - t > 0.3:
                print('      slow candidate %.1fs %s %s' % (time.time() - t, nm, r), flush=True)


class FinalCut(TrialCut):
    def __init__(self, ex, head, live, mods, depth, ptys, header):
        TrialCut.__init__(self, ex, head, live, mods, depth, ptys)
        self.header = header
        self.fname = head.frames[depth - 1].fn.demangled.split('(')[0]

    def back(self, ex, s):
        # unchanged items
        TrialCut.back(self, ex, s)
        if self.newmods or self.failed:
            raise Unsupported('loop invariant not stable: %s %s' % (list(self.newmods)[:3], list(self.failed)[:3]))
        if not ex.muted:
            o = ex.rep.obl.get('loop-invariant:' + self.fname)
            if o is None:
                o = ex.rep.obl['loop-invariant:' + self.fname] = Obligation('loop-invariant:' + self.fname, 'loop')
            o.instances += 1
            o.backends['z3'] = o.backends.get('z3', 0) + len(self.live)
            for chk in ex.back_checks:
                if chk.get('back'):
                    chk['back'](ex, s, self.header, self.head)


class Region:
    """plain field region, indexed by absolute address of the field"""

    def __init__(self, tag, w):
        self.tag, self.w = tag, w

    def init(self):
        return z3.Const('M_%s' % '_'.join(map(str, self.tag if isinstance(self.tag, tuple) else (self.tag,))), z3.ArraySort(BV64, z3.BitVecSort(max(8, self.w))))

    def arr(self, st):
        a = st.mem.get(self.tag)
        if a is None:
            a = self.init()
            st.mem[self.tag] = a
        return a

    def get(self, st, addr):
        return simp(z3.Select(self.arr(st), bv(addr, 64)))

    def put(self, st, addr, v):
        st.mem[self.tag] = z3.Store(self.arr(st), bv(addr, 64), bv(self.norm(v), max(8, self.w)))

    def norm(self, v):
        if isinstance(v, bool):
            return int(v)
        if not isc(v) and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return v

    def load(self, ex, st, addr):
        return self.get(st, addr)

    def store(self, ex, st, addr, v):
        self.put(st, addr, v)

    def cas(self, ex, st, addr, c, n):
        old = self.load(ex, st, addr)
        eq = conc(z3.simplify(bv(old, self.w) == bv(c, self.w)))
        if isc(eq):
            if eq:
                self.store(ex, st, addr, n)
        else:
            self.store(ex, st, addr, z3.If(eq, bv(n, self.w), bv(old, self.w)))
        return old, eq

    def rmw(self, ex, st, addr, f):
        old = self.load(ex, st, addr)
        self.store(ex, st, addr, f(old))
        return old
