"""Abstract model of std::string and of C strings: a value of an uninterpreted sort per object, library operations as
functions with the facts the library guarantees.  Character data are never looked at."""
import z3
from .symex import *

STR = z3.DeclareSort('Str')
S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
SN = S + '::'
CSTR = z3.Function('text_at', BV64, STR)            # the text a char pointer points at
PTROF = z3.Function('c_str_of', STR, BV64)
CAT = z3.Function('concat', STR, STR, STR)
TRIM = z3.Function('trimmed', STR, STR)
EMPTY = z3.Function('is_empty', STR, z3.BoolSort())
HAS = z3.Function('has_char', STR, z3.BitVecSort(8), z3.BoolSort())
FIND = z3.Function('find_char', STR, z3.BitVecSort(8), BV64)
HEAD = z3.Function('before', STR, BV64, STR)        # substr(0, n)
TAIL = z3.Function('from', STR, BV64, STR)          # substr(n)
REALOK = z3.Function('path_can_be_normalised', STR, z3.BoolSort())
REAL = z3.Function('normalised_path', STR, STR)
NPOS = (1 << 64) - 1
SZS = 32

_lit = {}
_txt = {}


def lit(s):
    if s not in _lit:
        c = z3.Const('"%s"' % s, STR)
        _lit[s] = c
        _txt[c.get_id()] = s
    return _lit[s]


def text(v):
    return _txt.get(v.get_id()) if z3.is_const(v) else None


def empty(v):
    t = text(v)
    return (t == '') if t is not None else EMPTY(v)


def str_eq(a, b):
    x, y = text(a), text(b)
    if x is not None and y is not None:
        return x == y
    return And(a == b, empty(a) == empty(b))


def const_text(ex, st, p, maxn=300):
    out = []
    o = ex.find_obj(st, p)
    if o is None:
        return None
    for i in range(maxn):
        c = ex.load_local(st, p + i, 1, 8)
        if not isc(c):
            return None
        if c == 0:
            return bytes(out).decode('latin1')
        out.append(c)
    return None


def ctext(ex, st, p):
    """the string a char const* points at"""
    if isc(p):
        if p < 4096:
            ex.oblige(st, 'memory-safety: a string is made of a null pointer', False, 'safety')
            raise PathEnd()
        t = const_text(ex, st, p)
        if t is None:
            raise Unsupported('text of a local buffer')
        return lit(t)
    v = None
    if z3.is_app(p) and p.decl().eq(PTROF):
        return p.arg(0)
    ex.oblige(st, 'memory-safety: a string is made of a null pointer', bv(p, 64) != 0, 'safety')
    st.assume(bv(p, 64) != 0)
    return CSTR(bv(p, 64))


def get(ex, st, p):
    if not isc(p):
        return CSTR(bv(p, 64))
    o = ex.find_obj(st, p)
    c = o.cells.get(p - o.base) if o is not None else None
    if c is None or c[0] != SZS:
        raise Unsupported('string object that was not constructed')
    return c[1]


def put(ex, st, p, v):
    if not isc(p):
        raise Unsupported('assignment to a string at a symbolic address')
    ex.store_local(st, p, SZS, v)


def cat(a, b):
    x, y = text(a), text(b)
    if x is not None and y is not None:
        return lit(x + y)
    if x == '':
        return b
    if y == '':
        return a
    if z3.is_app(b) and b.decl().eq(CAT):
        return cat(cat(a, b.arg(0)), b.arg(1))
    if y is not None and z3.is_app(a) and a.decl().eq(CAT) and text(a.arg(1)) is not None:
        return CAT(a.arg(0), lit(text(a.arg(1)) + y))
    return CAT(a, b)


def m_ctor0(ex, st, a, ins):
    """library: an empty string"""
    put(ex, st, a[0], lit(''))


def m_ctor_c(ex, st, a, ins):
    """library: a string of the text"""
    put(ex, st, a[0], ctext(ex, st, a[1]))


def m_copy(ex, st, a, ins):
    """library: a copy"""
    put(ex, st, a[0], get(ex, st, a[1]))


def m_assign(ex, st, a, ins):
    """library: assignment"""
    put(ex, st, a[0], get(ex, st, a[1]))
    return a[0]


def m_assign_c(ex, st, a, ins):
    """library: assignment of a text"""
    put(ex, st, a[0], ctext(ex, st, a[1]))
    return a[0]


def m_append(ex, st, a, ins):
    """library: append"""
    v = cat(get(ex, st, a[0]), get(ex, st, a[1]))
    note_cat(st, v)
    put(ex, st, a[0], v)
    return a[0]


def m_append_c(ex, st, a, ins):
    """library: append a text"""
    v = cat(get(ex, st, a[0]), ctext(ex, st, a[1]))
    note_cat(st, v)
    put(ex, st, a[0], v)
    return a[0]


def note_cat(st, v):
    if z3.is_app(v) and v.decl().eq(CAT):
        st.assume(EMPTY(v) == And(empty(v.arg(0)), empty(v.arg(1))))


def m_cstr(ex, st, a, ins):
    """library: a pointer to the text of the string"""
    v = get(ex, st, a[0])
    p = PTROF(v)
    st.assume(And(z3.UGE(p, 4096), z3.ULT(p, 1 << 46), CSTR(p) == v))
    return p


def m_empty(ex, st, a, ins):
    """library: whether the string is empty"""
    return empty(get(ex, st, a[0]))


def m_erase(ex, st, a, ins):
    """library: erase everything"""
    if not (isc(a[1]) and a[1] == 0 and isc(a[2]) and a[2] == NPOS):
        raise Unsupported('partial erase')
    put(ex, st, a[0], lit(''))
    return a[0]


def m_clear(ex, st, a, ins):
    put(ex, st, a[0], lit(''))


def m_dtor(ex, st, a, ins):
    """library: destructor"""
    return None


def m_find(ex, st, a, ins):
    """library: the place of the first such character, or npos"""
    if not (isc(a[2]) and a[2] == 0):
        raise Unsupported('find from a place')
    v = get(ex, st, a[0])
    c = bv(a[1], 8)
    t = text(v)
    if t is not None and isc(a[1]):
        i = t.find(chr(a[1]))
        return i & NPOS
    r = FIND(v, c)
    st.assume(And((r == NPOS) == Not(HAS(v, c)), Or(r == NPOS, z3.ULT(r, 1 << 46)), Imp(empty(v), Not(HAS(v, c)))))
    return r


def m_eq_c(ex, st, a, ins):
    """library: equality with a text"""
    v, t = get(ex, st, a[0]), ctext(ex, st, a[1])
    return str_eq(v, t)


def m_trim(ex, st, a, ins):
    """trim() of flckutil.h: the text without white space at its ends (assumed, covered by the bounded stand-in)"""
    t = TRIM(get(ex, st, a[1]))
    put(ex, st, a[0], t)
    return None


def m_getrealpath(ex, st, a, ins):
    """contract of GetRealPath (its body is under contract for P17): the normalised path, or refusal"""
    p = a[0]
    t = ctext(ex, st, p)
    s2 = st.copy()
    st.assume(And(REALOK(t), Not(empty(t))))
    put(ex, st, a[1], REAL(t))
    st.assume(Not(EMPTY(REAL(t))))
    s2.assume(Not(And(REALOK(t), Not(empty(t)))))
    return [x for x in ((st, True), (s2, False)) if ex.feasible(x[0])]


class CharRegion(Region):
    """character data behind a symbolic pointer: only whether a string is empty can be told"""

    def __init__(self):
        Region.__init__(self, 'chars', 8)

    def load(self, ex, st, addr):
        b = z3.Function('char_at', BV64, z3.BitVecSort(8))(bv(addr, 64))
        st.assume((b == 0) == EMPTY(CSTR(bv(addr, 64))))
        return b

    def store(self, ex, st, addr, v):
        raise Unsupported('store of a character')


STRM = {
    SN + 'basic_string()': m_ctor0,
    SN + 'basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)': m_ctor_c,
    SN + 'basic_string(%s const&)' % S: m_copy,
    SN + 'basic_string(%s&&)' % S: m_copy,
    SN + 'operator=(%s const&)' % S: m_assign,
    SN + 'operator=(%s&&)' % S: m_assign,
    SN + 'operator=(char const*)': m_assign_c,
    SN + 'operator+=(%s const&)' % S: m_append,
    SN + 'operator+=(char const*)': m_append_c,
    SN + 'append(%s const&)' % S: m_append,
    SN + 'append(char const*)': m_append_c,
    SN + 'assign(char const*)': m_assign_c,
    SN + 'assign(%s const&)' % S: m_assign,
    SN + 'c_str() const': m_cstr,
    SN + 'data() const': m_cstr,
    SN + 'empty() const': m_empty,
    SN + 'clear()': m_clear,
    SN + 'erase(unsigned long, unsigned long)': m_erase,
    SN + 'find(char, unsigned long) const': m_find,
    SN + '~basic_string()': m_dtor,
    'std::__new_allocator<char>::~__new_allocator()': m_dtor,
    'std::__new_allocator<char>::__new_allocator()': m_dtor,
    'std::allocator<char>::allocator()': m_dtor,
    'std::allocator<char>::~allocator()': m_dtor,
    'bool std::operator==<char, std::char_traits<char>, std::allocator<char> >(%s const&, char const*)' % S: m_eq_c,
    'trim(%s const&, %s const&)' % (S, S): m_trim,
    'GetRealPath(char const*, %s&)' % S: m_getrealpath,
}


def str_setup(ex, st):
    ex.default_region[8] = CharRegion()
