"""Contracts of the configuration: environment, reinitialisation, object initialisation."""
import z3
from .symex import *
from .regions import *
from .contract import FnContract
from .c_unit import F, FA, G, sym, errno_setup, m_errno, set_errno
from .c_shm import B, SZ, COUNTS, gv, i32
from .strmodel import *

STROBJ = {'FlShm::ShmDirPath': 'dirpath', 'FlShm::ShmFileName': 'filename', 'FlShm::ShmPath': 'path'}
DIRS = ('/tmp/.fullock', '/var/lib/antpickax/.fullock')
FILE = 'fullock.shm'
MKOK = z3.Function('directory_can_be_made', STR, z3.BoolSort())
LOWID = z3.Function('class_ignoring_case', STR, z3.BitVecSort(32))
ATOI = z3.Function('atoi', STR, z3.BitVecSort(32))
NUMOK = z3.Function('is_number', STR, z3.BoolSort())
NUM = z3.Function('number', STR, BV64)
_low = {}


def lowid(s):
    return _low.setdefault(s.lower(), len(_low) + 1)


def sobj(ex, n):
    return ex.strobj[n]


def sval(ex, st, n):
    return get(ex, st, ex.strobj[n])


def statics_setup(ex, st):
    str_setup(ex, st)
    errno_setup(ex, st)
    ex.strobj = {}
    for n, t in STROBJ.items():
        p = ex.strobj[n] = ex.alloc(st, 32, t)
        ex.store_local(st, p, SZS, z3.Const(t + '0', STR))
    for m in ex.prog.modules:
        for g, d in m.globals.items():
            if g.startswith('@_ZN5FlShm') and 'FLCK' in g and d.get('init') is not None and not d.get('const') and d['init'][0] not in ('zero', 'undef'):
                try:
                    ex.store_local(st, ex.global_addr(g), 8, ex.const_operand(m, d['type'], d['init']))
                except Unsupported:
                    pass


def m_sobj(n):
    def f(ex, st, a, ins):
        return ex.strobj[n]
    f.__doc__ = 'the path strings of the class (singleton helper)'
    return f


def m_stat_dir(ex, st, a, ins):
    """trusted: describes the file, or -1"""
    s2 = st.copy()
    set_errno(ex, s2, fresh('errno', 32))
    return [(st, 0), (s2, mask(32))]


def m_mkwork(ex, st, a, ins):
    """contract of MakeWorkDirectory: whether the directory exists afterwards"""
    t = ctext(ex, st, a[0])
    st.ghost['mk'] = And(st.ghost['mk'], MKOK(t))
    return MKOK(t)


CONFM = dict(STRM, **{'stat': m_stat_dir, 'MakeWorkDirectory': m_mkwork, '__errno_location': m_errno})
for _n in STROBJ:
    CONFM[_n + '[abi:cxx11]'] = m_sobj(_n)


# ---------------------------------------------------------------- environment
class Env:
    def __init__(self, name):
        self.set = z3.Bool('set.' + name)
        self.ptr = B('env.' + name, 64)
        self.t = CSTR(self.ptr)

    def has(self, v):
        return And(self.set, LOWID(self.t) == lowid(v))


ENV = {n: Env(n) for n in ('FLCKAUTOINIT', 'FLCKROBUSTMODE', 'FLCKNOMAPMODE', 'FLCKFREEUNITMODE', 'FLCKROBUSTCHKCNT', 'FLCKUMASK', 'FLCKDIRPATH', 'FLCKFILENAME',
                           'FLCKFILECNT', 'FLCKOFFETCNT', 'FLCKLOCKERCNT', 'FLCKNMTXCNT', 'FLCKNCONDCNT', 'FLCKWAITERCNT')}
CNTENV = dict(zip([c[0] for c in COUNTS], ('FLCKFILECNT', 'FLCKOFFETCNT', 'FLCKLOCKERCNT', 'FLCKNMTXCNT', 'FLCKNCONDCNT', 'FLCKWAITERCNT')))


def m_getenv(ex, st, a, ins):
    """trusted: the value of the variable, or null"""
    n = const_text(ex, st, a[0]) if isc(a[0]) else None
    if n not in ENV:
        if n is None:
            raise Unsupported('getenv of an unknown name')
        s2 = st.copy()
        p = fresh('env.' + n, 64)
        st.assume(And(z3.UGE(p, 4096), z3.ULT(p, 1 << 46)))
        return [(st, p), (s2, 0)]
    e = ENV[n]
    s2 = st.copy()
    st.assume(And(e.set, z3.UGE(e.ptr, 4096), z3.ULT(e.ptr, 1 << 46)))
    s2.assume(Not(e.set))
    return [x for x in ((st, e.ptr), (s2, 0)) if ex.feasible(x[0])]


def m_strcasecmp(ex, st, a, ins):
    """trusted: 0 exactly when the texts are equal ignoring case"""
    x, y = ctext(ex, st, a[0]), ctext(ex, st, a[1])
    if text(x) is not None:
        x, y = y, x
    if text(y) is None or text(x) is not None:
        raise Unsupported('strcasecmp')
    r = fresh('casecmp', 32)
    st.assume((r == 0) == (LOWID(x) == lowid(text(y))))
    return r


def m_atoi(ex, st, a, ins):
    """trusted: the number the text starts with, 0 when none"""
    return ATOI(ctext(ex, st, a[0]))


def m_cvt(ex, st, a, ins):
    """contract of CvtNumberStringToLong"""
    t = ctext(ex, st, a[0])
    s2 = st.copy()
    st.assume(NUMOK(t))
    ex.store_local(st, a[1], 8, NUM(t))
    s2.assume(Not(NUMOK(t)))
    ex.store_local(s2, a[1], 8, fresh('junk', 64))
    return [x for x in ((st, True), (s2, False)) if ex.feasible(x[0])]


ENVM = dict(CONFM, **{'getenv': m_getenv, 'strcasecmp': m_strcasecmp, 'atoi': m_atoi, 'CvtNumberStringToLong': m_cvt})


def env_setup(ex, st):
    statics_setup(ex, st)
    st.ghost['mk'] = z3.BoolVal(True)
    return []


def choose(old, *cases):
    r = old
    for c, v in reversed(cases):
        r = z3.If(c, z3.BitVecVal(v, old.size()) if isc(v) else v, r)
    return r


def env_post(ex, old, st, a, ret):
    o = lambda n: gv(ex, old, n)
    v = lambda n: gv(ex, st, n)
    E = ENV
    out = [('success is answered', bl(ret))]
    e = E['FLCKAUTOINIT']
    out.append(('the automatic initialisation is as the environment says, or kept', (v('FlShm::IsAutoInitialize') & 1) == choose(o('FlShm::IsAutoInitialize') & 1, (e.has('YES'), 1), (e.has('NO'), 0))))
    e = E['FLCKNOMAPMODE']
    out.append(('the no-map mode is as the environment says, or kept', v('FlShm::NomapMode') == choose(o('FlShm::NomapMode'), (e.has('ALLOW_NORETRY'), 0), (e.has('DENY_NORETRY'), 1), (e.has('ALLOW_RETRY'), 2), (e.has('DENY_RETRY'), 3), (e.has('ALLOW'), 0), (e.has('DENY'), 1))))
    e = E['FLCKFREEUNITMODE']
    out.append(('the free unit mode is as the environment says, or kept', v('FlShm::FreeUnitMode') == choose(o('FlShm::FreeUnitMode'), (e.has('NO'), 0), (e.has('FD'), 1), (e.has('OFFSET'), 2), (e.has('ALWAYS'), 1))))
    e = E['FLCKROBUSTMODE']
    rm = choose(o('FlShm::RobustMode'), (e.has('NO'), 0), (e.has('LOW'), 1), (e.has('HIGH'), 2))
    out.append(('the robust mode is as the environment says, or kept', v('FlShm::RobustMode') == rm))
    e = E['FLCKROBUSTCHKCNT']
    c = choose(o('FlShm::RobustLoopCnt'), (And(e.set, ATOI(e.t) >= 50), ATOI(e.t)))
    c = z3.If(And(rm == 2, c < 50), z3.BitVecVal(5000, 32), c)
    out.append(('the check count is as the environment says when that is allowed, or kept, and never below the minimum in high robust mode', v('FlShm::RobustLoopCnt') == c))
    e = E['FLCKUMASK']
    u = z3.Extract(31, 0, NUM(e.t))
    ok = And(e.set, NUMOK(e.t), NUM(e.t) >= 0, NUM(e.t) < 0o777)
    edge = And(e.set, NUMOK(e.t), NUM(e.t) == 0o777)
    uo, un = o('FlShm::ShmFileUmask'), v('FlShm::ShmFileUmask')
    out.append(('the file mode mask is as the environment says when that is valid, or kept', Or(And(ok, un == u), And(Not(ok), un == uo), And(edge, un == u))))
    for n, lo, hi, d in COUNTS:
        e = E[CNTENV[n]]
        x = z3.SignExt(32, ATOI(e.t))
        out.append(('%s is as the environment says when that is within the limits, or kept' % n, v(n) == choose(o(n), (And(e.set, x >= lo, x <= hi), x))))
    e = E['FLCKDIRPATH']
    dv, do = sval(ex, st, 'FlShm::ShmDirPath'), sval(ex, old, 'FlShm::ShmDirPath')
    ok = And(e.set, REALOK(e.t), Not(EMPTY(e.t)), MKOK(REAL(e.t)))
    out.append(('the directory is the normalised one of the environment when it is usable, otherwise a default one', z3.If(ok, dv == REAL(e.t), Or(dv == lit(DIRS[0]), dv == lit(DIRS[1]), dv == do))))
    e = E['FLCKFILENAME']
    fv, fo = sval(ex, st, 'FlShm::ShmFileName'), sval(ex, old, 'FlShm::ShmFileName')
    ok = Not(HAS(TRIM(e.t), z3.BitVecVal(47, 8)))
    out.append(('the file name is the one of the environment when it is one, kept when it is a path, the default when there is none', fv == z3.If(e.set, z3.If(ok, TRIM(e.t), fo), lit(FILE))))
    return out


CONFG = ('FlShm::RobustMode', 'FlShm::NomapMode', 'FlShm::FreeUnitMode', 'FlShm::RobustLoopCnt', 'FlShm::ShmFileUmask', 'FlShm::IsAutoInitialize') + tuple(c[0] for c in COUNTS)


def env_mod(ex, st, a):
    return [('cell', sym(ex, n), SZ[n]) for n in CONFG] + [('cell', ex.strobj[n], 32) for n in ('FlShm::ShmDirPath', 'FlShm::ShmFileName')] + [('cell', ex.errno_addr, 4), ('ghost', 'mk')]


# ---------------------------------------------------------------- reinitialisation
PAR = ('filelockcnt', 'offlockcnt', 'lockercnt', 'nmtxcnt', 'ncondcnt', 'waitercnt')


def re_setup(api):
    def f(ex, st):
        statics_setup(ex, st)
        for g, v in (('mk', True), ('destroyed', False), ('inited', False), ('ok', True)):
            st.ghost[g] = z3.BoolVal(v)
        st.ghost['single'], st.ghost['attached'] = z3.Bool('singleton_exists'), z3.Bool('attached_before')
        a = []
        for n in ('dirname', 'filename'):
            p = B(n, 64)
            st.assume(Or(p == 0, And(z3.UGE(p, 4096), z3.ULT(p, 1 << 46))))
            a.append(p)
        ex.cargs = [B(n, 64) for n in PAR] if api != 'plain' else [z3.BitVecVal(0, 64)] * 6
        ex.sargs = list(a)
        return a + (ex.cargs if api != 'plain' else [])
    return f


def counts_ok(ex):
    return And(*[Or(p == 0, And(z3.UGE(p, lo), z3.ULE(p, hi))) for p, (n, lo, hi, d) in zip(ex.cargs, COUNTS)])


def given(p):
    return And(p != 0, Not(EMPTY(CSTR(p))))


def touch(ex, st):
    """first use of the singleton attaches the default area when the environment lets it"""
    st.ghost['attached'] = Or(st.ghost['attached'], Not(st.ghost['single']))
    st.ghost['single'] = z3.BoolVal(True)


def m_single(ex, st, a, ins):
    """contract of the singleton helper: constructed at first use, which may attach the default area"""
    touch(ex, st)
    return True


def m_sobj1(n):
    def f(ex, st, a, ins):
        touch(ex, st)
        return ex.strobj[n]
    f.__doc__ = 'the path strings of the class (singleton helper)'
    return f


def m_destroy(ex, st, a, ins):
    """contract of Destroy: detaches"""
    st.ghost['attached'] = z3.BoolVal(False)
    ex.oblige(st, 'nothing is torn down before every count was accepted', counts_ok(ex), 'post')
    st.ghost['destroyed'] = z3.BoolVal(True)
    r = fresh('destroy', 1)
    st.ghost['ok'] = And(st.ghost['ok'], r)
    return r


def m_loadenv(ex, st, a, ins):
    """contract of LoadEnv: each value is the environment's when set and valid, otherwise kept"""
    for n, lo, hi, d in COUNTS:
        ex.oblige(st, 'before the environment is read %s has its default' % n, gv(ex, st, n) == d, 'post')
        e = CNTENV[n]
        x = B('envval.' + e, 64)
        ex.store_local(st, sym(ex, n), 8, choose(gv(ex, st, n), (z3.Bool('envset.' + e), x)))
    for n in CONFG[:6]:
        ex.store_local(st, sym(ex, n), SZ[n], B('env.' + n, 8 * SZ[n]))
    for n in ('FlShm::ShmDirPath', 'FlShm::ShmFileName'):
        put(ex, st, ex.strobj[n], z3.Const('env.' + n, STR))
    return True


def m_initobj(ex, st, a, ins):
    """contract of InitializeObject: takes the values in force; here they are what was asked for"""
    ex.oblige(st, 'no area is attached when the new one is set up', Not(st.ghost['attached']), 'post')
    ex.oblige(st, 'initialisation does not read the environment again', Not(bl(a[0])), 'post')
    for p, (n, lo, hi, d) in zip(ex.cargs, COUNTS):
        e = CNTENV[n]
        dv = choose(z3.BitVecVal(d, 64), (z3.Bool('envset.' + e), B('envval.' + e, 64)))
        ex.oblige(st, '%s in force is the one given, or the environment\'s, or the default' % n, gv(ex, st, n) == z3.If(p == 0, dv, p), 'post')
    ex.oblige(st, 'the area may be initialised at first use from now on', (gv(ex, st, 'FlShm::IsAutoInitialize') & 1) == 1, 'post')
    d, f = ex.sargs
    ex.oblige(st, 'the directory in force is the normalised one given, or the one of the environment', sval(ex, st, 'FlShm::ShmDirPath') == z3.If(given(d), REAL(CSTR(d)), z3.Const('env.FlShm::ShmDirPath', STR)), 'post')
    ex.oblige(st, 'the file name in force is the one given, or the one of the environment', sval(ex, st, 'FlShm::ShmFileName') == z3.If(given(f), TRIM(CSTR(f)), z3.Const('env.FlShm::ShmFileName', STR)), 'post')
    st.ghost['inited'] = z3.BoolVal(True)
    r = fresh('init', 1)
    st.ghost['ok'] = And(st.ghost['ok'], r)
    return r


REM = dict(CONFM, **{'FlShmHelper::Initialize': m_single, 'FlShm::Destroy': m_destroy, 'FlShm::LoadEnv': m_loadenv, 'FlShm::InitializeObject': m_initobj})


for _n in STROBJ:
    REM[_n + '[abi:cxx11]'] = m_sobj1(_n)


def re_post(ex, old, st, a, ret):
    d, f = ex.sargs
    okd = Imp(given(d), And(REALOK(CSTR(d)), st.ghost['mk']))
    okf = Imp(given(f), Not(HAS(TRIM(CSTR(f)), z3.BitVecVal(47, 8))))
    good = And(counts_ok(ex), okd, okf)
    out = [('success is answered exactly when every parameter is valid and the area could be set up', bl(ret) == And(good, st.ghost['ok'])),
           ('wrong parameters tear nothing down', Imp(Not(good), Not(st.ghost['destroyed']))),
           ('right parameters are put in force', Imp(And(good, bl(ret)), st.ghost['inited']))]
    out.append(('wrong parameters change no value in force', Imp(Not(good), And(*[gv(ex, st, n) == gv(ex, old, n) for n in CONFG] + [sval(ex, st, n) == sval(ex, old, n) for n in ('FlShm::ShmDirPath', 'FlShm::ShmFileName')]))))
    return out


def re_mod(ex, st, a):
    return env_mod(ex, st, a) + [('ghost', 'destroyed'), ('ghost', 'inited'), ('ghost', 'ok'), ('ghost', 'single'), ('ghost', 'attached')]


# ---------------------------------------------------------------- InitializeObject
def io_setup(ex, st):
    statics_setup(ex, st)
    for g, v in (('mk', True), ('env', False), ('attach', False), ('ok', True)):
        st.ghost[g] = z3.BoolVal(v)
    return [z3.Bool('is_load_env')]


def m_loadenv2(ex, st, a, ins):
    """contract of LoadEnv"""
    st.ghost['env'] = z3.BoolVal(True)
    for n in CONFG:
        ex.store_local(st, sym(ex, n), SZ[n], B('env.' + n, 8 * SZ[n]))
    for n in ('FlShm::ShmDirPath', 'FlShm::ShmFileName'):
        put(ex, st, ex.strobj[n], z3.Const('env.' + n, STR))
    return True


def m_initshm2(ex, st, a, ins):
    """contract of InitializeShm"""
    dv = sval(ex, st, 'FlShm::ShmDirPath')
    pv = sval(ex, st, 'FlShm::ShmPath')
    ex.oblige(st, 'the area is the file named in the directory in force', pv == cat(cat(dv, lit('/')), sval(ex, st, 'FlShm::ShmFileName')), 'post')
    st.ghost['attach'] = z3.BoolVal(True)
    r = fresh('attach', 1)
    st.ghost['ok'] = r
    return r


IOM = dict(CONFM, **{'FlShm::LoadEnv': m_loadenv2, 'FlShm::InitializeShm': m_initshm2, 'LoadFlckDbgEnv': lambda ex, st, a, i: fresh('dbg', 1)})


def io_post(ex, old, st, a, ret):
    auto = (gv(ex, st, 'FlShm::IsAutoInitialize') & 1) == 1
    return [('the environment is read when asked for', st.ghost['env'] == a[0]),
            ('the area is not attached at start when the environment says so', Imp(And(a[0], Not(auto)), And(bl(ret), Not(st.ghost['attach'])))),
            ('otherwise it is attached, and that is answered', Imp(Not(And(a[0], Not(auto))), bl(ret) == And(st.ghost['mk'], st.ghost['attach'], st.ghost['ok'])))]


def io_mod(ex, st, a):
    return env_mod(ex, st, a) + [('cell', ex.strobj['FlShm::ShmPath'], 32), ('ghost', 'env'), ('ghost', 'attach'), ('ghost', 'ok')]


# ---------------------------------------------------------------- CvtNumberStringToLong
def cv_setup(ex, st):
    str_setup(ex, st)
    errno_setup(ex, st)
    p = B('str', 64)
    st.assume(Or(p == 0, And(z3.UGE(p, 4096), z3.ULT(p, 1 << 46))))
    r = ex.alloc(st, 8, 'result')
    ex.store_local(st, r, 8, B('result0', 64))
    st.ghost['conv'] = z3.BoolVal(False)
    return [p, r]


ENDS = z3.Function('number_ends_at', BV64, BV64)
RANGE = z3.Function('number_out_of_range', BV64, z3.BoolSort())
LMAX, LMIN = (1 << 63) - 1, 1 << 63


def m_strtol(ex, st, a, ins):
    """trusted: the number at the start of the text in base 0, where it ends; out of range is told by ERANGE and an extreme value"""
    ex.oblige(st, 'numbers may be written in any base', isc(a[2]) and a[2] == 0, 'post')
    p = bv(a[0], 64)
    e = ENDS(p)
    st.assume(And(z3.UGE(e, p), z3.ULT(e, 1 << 46)))
    ex.store_local(st, a[1], 8, e)
    n = fresh('num', 64)
    s2 = st.copy()
    st.assume(And(Not(RANGE(p)), n == NUM(CSTR(p))))
    s2.assume(And(RANGE(p), Or(n == LMAX, n == LMIN)))
    set_errno(ex, s2, 34)
    return [(st, n), (s2, n)]


CVM = dict(STRM, **{'strtol': m_strtol, '__isoc23_strtol': m_strtol, '__errno_location': m_errno})


def cv_post(ex, old, st, a, ret):
    p = a[0]
    e = ENDS(p)
    whole = And(p != 0, Not(EMPTY(CSTR(p))), e != p, EMPTY(CSTR(e)), Not(RANGE(p)))
    return [('a text is accepted exactly when all of it is a number in range', bl(ret) == whole),
            ('an accepted text gives its number', Imp(whole, bv(ex.load_local(st, a[1], 8, 64), 64) == NUM(CSTR(p))))]


REO = 'FlShm::ReInitializeObject(char const*, char const*, unsigned long, unsigned long, unsigned long, unsigned long, unsigned long, unsigned long)'


def rw_setup(n):
    def f(ex, st):
        st.ghost['call'] = None
        return [B(x, 64) for x in ('dirname', 'filename') + PAR[:n]]
    return f


def m_reinit(ex, st, a, ins):
    """contract of ReInitializeObject, recorded"""
    ex.oblige(st, 'the request is passed on at most once', st.ghost['call'] is None, 'post')
    r = fresh('reinit', 1)
    st.ghost['call'] = tuple(a) + (r,)
    return r


def rw_post(ex, old, st, a, ret):
    c = st.ghost['call']
    if c is None:
        return [('the request is passed on', False)]
    w = list(a) + [z3.BitVecVal(0, 64)] * (8 - len(a))
    return [('directory, file name and counts are passed as given, missing counts as default', And(*[bv(x, 64) == y for x, y in zip(c[:8], w)])),
            ('the result is passed back', bl(ret) == c[-1])]


def contracts():
    C = []

    def add(*a, **k):
        C.append(FnContract(*a, **k))
    add('FlShm::LoadEnv()', env_setup, None, env_post, env_mod, 1, ('P13',), models=ENVM, merge_at=('getenv',), cost=9)
    add('FlShm::ReInitializeObject(char const*, char const*, unsigned long, unsigned long, unsigned long, unsigned long, unsigned long, unsigned long)', re_setup('all'), None, re_post, re_mod, 1, ('P13',), models=REM, cost=9, merge_at=('bool FLCKEMPTYSTR<char const*>', 'stat', 'FlShm::Destroy', 'FlShm::LoadEnv', 'FlShm::InitializeObject'))
    for t, n in (('fullock_reinitialize_ex', 6), ('fullock_reinitialize', 0)):
        add(t, rw_setup(n), None, rw_post, lambda ex, st, a: [('ghost', 'call')], 1, ('P13',), models={REO.split('(')[0]: m_reinit})
    add('FlShm::InitializeObject(bool)', io_setup, None, io_post, io_mod, 1, ('P13',), models=IOM)
    add('CvtNumberStringToLong', cv_setup, None, cv_post, lambda ex, st, a: [('cell', a[1], 8), ('cell', ex.errno_addr, 4)], 1, ('P13',), models=CVM)
    return C
