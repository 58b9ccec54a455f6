"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the extraction emits.

Only the instructions that occur in yahoojapan/fullock at -O0 + sroa are decoded; an instruction
that is not known becomes ('unsupported', text) and is an error only if symbolic execution reaches it.
"""
import re, subprocess, os, hashlib

TOK = re.compile(r'''
   \s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?(?![a-zA-Z_]))
 | (?P<hex>0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<punct>[()\[\]{}<>,=*:|])
 )''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('token: ' + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise SyntaxError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)))
        self.i += 1

    def end(self):
        return self.i >= len(self.t)


# types: ('int',n) ('ptr',) ('void',) ('float',n) ('named',name) ('arr',n,T) ('struct',[T],packed) ('fn',..) ('meta',)
PTR = ('ptr',)
PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
               'noalias', 'immarg', 'nofree', 'nest', 'inreg', 'swiftself', 'allocptr', 'allocalign', 'writable', 'dead_on_unwind',
               'noreturn', 'nounwind'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures', 'range', 'byref', 'preallocated', 'inalloca', 'memory', 'initializes', 'allocsize'}


def parse_type(t):
    v = t.next()
    if v == 'ptr':
        r = PTR
        if t.peek() == 'addrspace':
            t.next(); t.expect('('); t.next(); t.expect(')')
    elif v == 'void':
        r = ('void',)
    elif re.fullmatch(r'i\d+', v):
        r = ('int', int(v[1:]))
    elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
        r = ('float', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}[v])
    elif v in ('metadata', 'token', 'label', 'opaque'):
        r = (v,)
    elif v.startswith('%'):
        r = ('named', v)
    elif v == '[':
        n = int(t.next()); t.expect('x'); e = parse_type(t); t.expect(']')
        r = ('arr', n, e)
    elif v == '{':
        fs = []
        while not t.accept('}'):
            fs.append(parse_type(t)); t.accept(',')
        r = ('struct', tuple(fs), False)
    elif v == '<':
        if t.peek() == '{':
            t.next()
            fs = []
            while not t.accept('}'):
                fs.append(parse_type(t)); t.accept(',')
            t.expect('>')
            r = ('struct', tuple(fs), True)
        else:
            n = int(t.next()); t.expect('x'); e = parse_type(t); t.expect('>')
            r = ('vec', n, e)
    else:
        raise SyntaxError('type ' + v)
    while t.peek() == '(':  # function type
        d = 0
        while True:
            x = t.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
        r = ('fn', r)
    return r


CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'sitofp', 'fptoui', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv'}


def parse_const(t, ty):
    """operand of type ty -> ('const',ty,val) | ('reg',name) | ('global',name) | ('cexpr',...)"""
    v = t.peek(); k = t.kind()
    if k == 'id':
        t.next()
        return ('reg', v) if v[0] == '%' else ('global', v)
    if k == 'num':
        t.next()
        return ('const', ty, v)
    if k == 'hex':
        t.next()
        return ('const', ty, v)
    if v in ('true', 'false'):
        t.next()
        return ('const', ty, 1 if v == 'true' else 0)
    if v == 'null':
        t.next()
        return ('const', ty, 0)
    if v in ('undef', 'poison'):
        t.next()
        return ('undef', ty)
    if v == 'zeroinitializer':
        t.next()
        return ('zero', ty)
    if k == 'str':
        t.next()
        return ('cstr', ty, v)
    if v == 'getelementptr':
        t.next()
        while t.peek() in ('inbounds', 'nuw', 'nusw'):
            t.next()
        t.expect('(')
        ety = parse_type(t)
        ops = []
        while t.accept(','):
            t.accept('inrange')
            oty = parse_type(t)
            ops.append((oty, parse_const(t, oty)))
        t.expect(')')
        return ('gep', ety, ops)
    if v in CASTS:
        t.next(); t.expect('(')
        sty = parse_type(t); o = parse_const(t, sty); t.expect('to'); dty = parse_type(t); t.expect(')')
        return ('cast', v, sty, o, dty)
    if v in BINOPS:
        t.next()
        while t.peek() in ('nsw', 'nuw', 'exact'):
            t.next()
        t.expect('(')
        ty1 = parse_type(t); a = parse_const(t, ty1); t.expect(',')
        ty2 = parse_type(t); b = parse_const(t, ty2); t.expect(')')
        return ('cbin', v, ty1, a, b)
    if v in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[v]
        t.next()
        packed = False
        if v == '<' and t.peek() == '{':
            t.next(); close = '}'; packed = True
        el = []
        while not t.accept(close):
            ety = parse_type(t)
            el.append((ety, parse_const(t, ety))); t.accept(',')
        if packed:
            t.expect('>')
        return ('agg', ty, el)
    raise SyntaxError('operand %r in %s' % (v, ' '.join(x[1] for x in t.t)))


def parse_attrs(t):
    while True:
        v = t.peek()
        if v in PARAM_ATTRS_ARG:
            t.next()
            if t.peek() == '(':
                d = 0
                while True:
                    x = t.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            elif t.kind() == 'num':
                t.next()
        elif v in PARAM_ATTRS:
            t.next()
        else:
            return


def typed_operand(t):
    ty = parse_type(t)
    parse_attrs(t)
    return ty, parse_const(t, ty)


class Instr:
    __slots__ = ('op', 'res', 'a', 'text')

    def __init__(self, op, res, a, text):
        self.op, self.res, self.a, self.text = op, res, a, text

    def __repr__(self):
        return self.text


def parse_instr(line):
    text = line.strip()
    m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', text, re.S)
    res = None
    body = text
    if m:
        res, body = m.group(1), m.group(2)
    body = re.sub(r'(, )?!llvm\.loop ![0-9]+|, ![a-z_.A-Z]+ ![0-9]+', '', body)
    try:
        t = Toks(tokenize(body))
        op = t.next()
        if op in ('tail', 'musttail', 'notail'):
            op = t.next()
        a = None
        if op == 'alloca':
            t.accept('inalloca')
            ty = parse_type(t)
            n = None
            if t.accept(','):
                if t.peek() != 'align':
                    nt = parse_type(t); n = (nt, parse_const(t, nt))
            a = (ty, n)
        elif op == 'load':
            at = t.accept('atomic'); vol = t.accept('volatile')
            ty = parse_type(t); t.expect(',')
            pty, p = typed_operand(t)
            a = (ty, p, at or vol)
        elif op == 'store':
            at = t.accept('atomic'); vol = t.accept('volatile')
            ty, v = typed_operand(t); t.expect(',')
            pty, p = typed_operand(t)
            a = (ty, v, p, at or vol)
        elif op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw'):
                t.next()
            ety = parse_type(t)
            ops = []
            while t.accept(','):
                ops.append(typed_operand(t))
            a = (ety, ops)
        elif op in BINOPS:
            fl = []
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                fl.append(t.next())
            ty = parse_type(t); x = parse_const(t, ty); t.expect(','); y = parse_const(t, ty)
            a = (ty, x, y, fl)
        elif op in ('icmp', 'fcmp'):
            pred = t.next()
            ty = parse_type(t); x = parse_const(t, ty); t.expect(','); y = parse_const(t, ty)
            a = (pred, ty, x, y)
        elif op in CASTS:
            while t.peek() in ('nneg', 'nuw', 'nsw'):
                t.next()
            ty = parse_type(t); x = parse_const(t, ty); t.expect('to'); dty = parse_type(t)
            a = (ty, x, dty)
        elif op == 'br':
            if t.accept('label'):
                a = (t.next(),)
            else:
                ty = parse_type(t); c = parse_const(t, ty); t.expect(','); t.expect('label'); x = t.next(); t.expect(','); t.expect('label'); y = t.next()
                a = (c, x, y)
        elif op == 'switch':
            ty = parse_type(t); v = parse_const(t, ty); t.expect(','); t.expect('label'); d = t.next(); t.expect('[')
            cs = []
            while not t.accept(']'):
                cty = parse_type(t); cv = parse_const(t, cty); t.expect(','); t.expect('label'); cs.append((cv, t.next()))
            a = (ty, v, d, cs)
        elif op == 'phi':
            ty = parse_type(t)
            inc = []
            while True:
                t.expect('['); v = parse_const(t, ty); t.expect(','); l = t.next(); t.expect(']')
                inc.append((v, l))
                if not t.accept(','):
                    break
            a = (ty, inc)
        elif op == 'select':
            cty, c = typed_operand(t); t.expect(','); xty, x = typed_operand(t); t.expect(','); yty, y = typed_operand(t)
            a = (c, xty, x, y)
        elif op == 'call':
            parse_attrs(t)
            while t.peek() in ('fastcc', 'ccc', 'coldcc'):
                t.next()
            parse_attrs(t)
            rty = parse_type(t)
            parse_attrs(t)
            if t.peek() == 'asm':
                return Instr('unsupported', res, None, text)
            callee = parse_const(t, PTR)
            t.expect('(')
            args = []
            while not t.accept(')'):
                if t.peek() == 'metadata':
                    return Instr('nop', res, None, text)
                args.append(typed_operand(t)); t.accept(',')
            if rty[0] == 'fn':
                rty = rty[1]
            a = (rty, callee, args)
        elif op == 'ret':
            ty = parse_type(t)
            a = (ty, None if ty[0] == 'void' else parse_const(t, ty))
        elif op == 'cmpxchg':
            t.accept('weak'); t.accept('volatile')
            pty, p = typed_operand(t); t.expect(',')
            ty, c = typed_operand(t); t.expect(',')
            ty2, n = typed_operand(t)
            a = (ty, p, c, n)
        elif op == 'atomicrmw':
            t.accept('volatile')
            o = t.next()
            pty, p = typed_operand(t); t.expect(',')
            ty, v = typed_operand(t)
            a = (o, ty, p, v)
        elif op == 'extractvalue':
            ty, v = typed_operand(t)
            idx = []
            while t.accept(','):
                idx.append(int(t.next()))
            a = (ty, v, idx)
        elif op == 'insertvalue':
            ty, v = typed_operand(t); t.expect(',')
            ety, e = typed_operand(t)
            idx = []
            while t.accept(','):
                idx.append(int(t.next()))
            a = (ty, v, ety, e, idx)
        elif op == 'unreachable':
            a = ()
        elif op == 'fence':
            return Instr('nop', res, None, text)
        elif op == 'freeze':
            ty, v = typed_operand(t)
            a = (ty, v)
        else:
            return Instr('unsupported', res, None, text)
        return Instr(op, res, a, text)
    except SyntaxError as e:
        return Instr('unsupported', res, None, text + '   ; ' + str(e))


class Function:
    def __init__(self, name, rty, params, module):
        self.name, self.rty, self.params, self.module = name, rty, params, module
        self.blocks = {}     # label -> [Instr]
        self.order = []
        self.linkage = ''
        self.demangled = name

    def succs(self, b):
        i = self.blocks[b][-1]
        if i.op == 'br':
            return [x for x in i.a if isinstance(x, str)]
        if i.op == 'switch':
            return [i.a[2]] + [l for _, l in i.a[3]]
        return []

    def analyse(self):
        """dominators and natural loops"""
        entry = self.order[0]
        # reachable, RPO
        seen, post = set(), []
        stack = [(entry, iter(self.succs(entry)))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in rpo:
            for s in self.succs(b):
                if idx[s] <= idx[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.rpo_index = idx


class Module:
    def __init__(self, name, text):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.declares = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, ty = l.split(' = type ', 1)
                self.types[nm] = ('opaque',) if ty.strip() == 'opaque' else parse_type(Toks(tokenize(ty)))
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if m:
                    self.declares['@' + m.group(1)] = l
            i += 1

    def parse_global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        nm, rest = m.groups()
        if re.search(r'\balias\b', rest):
            m2 = re.search(r'(@[-a-zA-Z$._0-9]+)\s*(?:,.*)?$', rest)
            self.globals[nm] = {'alias': m2.group(1) if m2 else None}
            return
        m2 = re.match(r'(.*?)\b(global|constant) (.*)$', rest)
        if not m2:
            return
        linkage, kind, body = m2.groups()
        ext = 'external' in linkage
        try:
            t = Toks(tokenize(body))
            ty = parse_type(t)
            init = None
            if not ext and not t.end() and t.peek() != ',':
                init = parse_const(t, ty)
        except SyntaxError:
            ty, init = ('opaque',), None
        private = 'private' in linkage or 'internal' in linkage
        self.globals[nm] = {'type': ty, 'init': init, 'const': kind == 'constant', 'private': private, 'ext': ext}

    def parse_func(self, head, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        name = m.group(1).strip('"')
        pre = head[len('define '):m.start()]
        link = pre
        # params
        s = head[m.end() - 1:]
        d = 0
        for k, c in enumerate(s):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
        t = Toks(tokenize(s[1:k]))
        params = []
        cnt = 0
        vararg = False
        while not t.end():
            if t.peek() == '...':
                t.next(); vararg = True
                continue
            ty = parse_type(t)
            parse_attrs(t)
            if not t.end() and t.kind() == 'id':
                nm = t.next()
            else:
                nm = '%%%d' % cnt
                cnt += 1
            m2 = re.fullmatch(r'%(\d+)', nm)
            if m2:
                cnt = int(m2.group(1)) + 1
            params.append((ty, nm))
            t.accept(',')
        # return type: last type in pre
        toks = Toks(tokenize(pre))
        rty = None
        while not toks.end():
            save = toks.i
            v = toks.peek()
            if v in PARAM_ATTRS or v in PARAM_ATTRS_ARG:
                parse_attrs(toks)
                continue
            if v in ('dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'hidden', 'protected', 'external', 'available_externally', 'weak', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'linkonce', 'common'):
                toks.next()
                continue
            try:
                rty = parse_type(toks)
            except SyntaxError:
                toks.i = save + 1
        f = Function(name, rty, params, self)
        f.linkage = link
        f.vararg = vararg
        label = '%%%d' % cnt
        cur = []
        f.order.append(label)
        f.blocks[label] = cur
        acc = None
        for l in body:
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if l[0] not in ' \t':
                mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                label = '%' + mm.group(1)
                if not f.blocks[f.order[-1]] and len(f.order) == 1:
                    f.order = []
                    f.blocks = {}
                cur = []
                f.order.append(label)
                f.blocks[label] = cur
                continue
            if acc is not None:
                acc += ' ' + l.strip()
                if l.strip() == ']':
                    cur.append(parse_instr(acc))
                    acc = None
                continue
            if l.lstrip().startswith('switch ') and l.rstrip().endswith('['):
                acc = l
                continue
            cur.append(parse_instr(l))
        self.funcs[name] = f


class Program:
    def __init__(self):
        self.modules = []
        self.funcs = {}
        self.by_dem = {}

    def add(self, mod):
        self.modules.append(mod)
        for n, f in mod.funcs.items():
            if n not in self.funcs:
                self.funcs[n] = f

    def finish(self):
        for m in self.modules:
            for n, g in m.globals.items():
                a = g.get('alias')
                if a and a[1:].strip('"') in m.funcs:
                    self.funcs.setdefault(n[1:].strip('"'), m.funcs[a[1:].strip('"')])
        names = set(self.funcs)
        for m in self.modules:
            names |= {d[1:].strip('"') for d in m.declares}
        names = sorted(names)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        for n, f in self.funcs.items():
            if f.name != n:
                continue
            f.demangled = self.dem.get(n, n)
            self.by_dem.setdefault(f.demangled, f)
            f._an = False

    def get(self, name):
        f = self.funcs.get(name)
        if f is not None and not f._an:
            f.analyse()
            f._an = True
        return f

    def find(self, dem):
        """function by demangled name (exact, or unique prefix up to '(')"""
        f = self.by_dem.get(dem)
        if f is None:
            c = [g for d, g in self.by_dem.items() if d.split('(')[0] == dem]
            if len(c) == 1:
                f = c[0]
        if f is not None:
            self.get(f.name)
        return f


# ---------------------------------------------------------------- layout
def resolve(mod, ty):
    while ty[0] == 'named':
        ty = mod.types[ty[1]]
    return ty


def sizeof(mod, ty):
    return layout(mod, ty)[0]


def alignof(mod, ty):
    return layout(mod, ty)[1]


def layout(mod, ty):
    key = ty
    c = mod.__dict__.setdefault('_lay', {})
    if key in c:
        return c[key]
    r = _layout(mod, ty)
    c[key] = r
    return r


def _layout(mod, ty):
    k = ty[0]
    if k == 'named':
        return layout(mod, mod.types[ty[1]])
    if k == 'int':
        n = ty[1]
        b = 1
        while b * 8 < n:
            b *= 2
        return b, min(b, 16)
    if k == 'ptr':
        return 8, 8
    if k == 'float':
        return {32: (4, 4), 64: (8, 8), 16: (2, 2), 80: (16, 16), 128: (16, 16)}[ty[1]]
    if k == 'arr':
        s, a = layout(mod, ty[2])
        return s * ty[1], a
    if k == 'vec':
        s, a = layout(mod, ty[2])
        return s * ty[1], s * ty[1]
    if k == 'struct':
        off, al = 0, 1
        for f in ty[1]:
            s, a = layout(mod, f)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return off, al
    if k in ('opaque', 'fn', 'void', 'metadata', 'token'):
        return 0, 1
    raise SyntaxError('layout %r' % (ty,))


def field_offset(mod, ty, i):
    ty = resolve(mod, ty)
    off = 0
    for j, f in enumerate(ty[1]):
        s, a = layout(mod, f)
        if ty[2]:
            a = 1
        off = (off + a - 1) // a * a
        if j == i:
            return off, f
        off += s
    raise IndexError


TUS = ['flcklistlocker', 'flcklistofflock', 'flcklistfilelock', 'flcklistnmtx', 'flcklistncond', 'flcklistwaiter',
       'flckshm', 'flckshminit', 'flckutil', 'flckthread', 'rwlockrcsv', 'fullock']
CLANG = 'clang++-18'
OPT = 'opt-18'
CFLAGS = ['-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-DFLCK_DEBUG_MSG_NO',
          '-DHAVE_GETTID', '-DHAVE_CONFIG_H', '-Wno-everything', '-fno-threadsafe-statics']


def extract(repo, outdir, tus=TUS):
    """Re-extract the IR of the listed translation units from /repo's working tree."""
    os.makedirs(outdir, exist_ok=True)
    procs = []
    inc = []
    if not os.path.exists(os.path.join(repo, 'config.h')):
        inc = ['-UHAVE_CONFIG_H', '-DHAVE_GETTID']
    for tu in tus:
        src = os.path.join(repo, 'lib', tu + '.cc')
        o = os.path.join(outdir, tu + '.ll')
        cmd = '%s %s %s -I%s/lib -I%s -S -emit-llvm -o - %s | %s -S -passes=sroa -o %s' % (
            CLANG, ' '.join(CFLAGS), ' '.join(inc), repo, repo, src, OPT, o)
        procs.append((tu, o, subprocess.Popen(['bash', '-o', 'pipefail', '-c', cmd], stderr=subprocess.PIPE, text=True)))
    p = Program()
    p.repo = repo
    err = {}
    for tu, o, pr in procs:
        _, e = pr.communicate()
        if pr.returncode != 0:
            err[tu] = e
    for tu, o, pr in procs:
        if tu not in err:
            p.add(Module(tu, open(o).read()))
    p.finish()
    p.errors = err
    return p


if __name__ == '__main__':
    import sys, collections
    p = extract('/repo', '/tmp/ir2')
    print(p.errors)
    c = collections.Counter()
    for f in p.funcs.values():
        p.get(f.name)
        for b in f.blocks.values():
            for i in b:
                if i.op == 'unsupported':
                    c[i.text[:150]] += 1
    print(len(p.funcs), sum(c.values()))
    for k, v in c.most_common(30):
        print(v, k)
    for f in p.funcs.values():
        if f.loops and 'std::' not in f.demangled:
            print(f.demangled, len(f.loops), f.irreducible)
