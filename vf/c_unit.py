"""Contracts of the comparators, identity, configuration, mode, wrapper, worker-control and I/O functions."""
import z3
from .symex import *
from .regions import *
from .contract import FnContract
from .c_prim import ptr, EINVAL, ENOLCK, EBUSY, ETIMEDOUT, EPERM
from . import irparse as ir

EINTR, EAGAIN, EACCES = 4, 11, 13
BOOLB = 8


# ---------------------------------------------------------------- field access
_lay = {}


def fld(ex, struct, i):
    """(offset, width) of field i of %struct.NAME"""
    k = (id(ex.prog), struct, i)
    if k not in _lay:
        r = None
        for m in ex.prog.modules:
            for nm in (struct, '%' + struct, 'struct.' + struct, 'class.' + struct, '%struct.' + struct, '%class.' + struct):
                if nm in m.types:
                    o, t = ir.field_offset(m, ('named', nm), i)
                    r = (o, 64 if t[0] == 'ptr' else t[1] if t[0] == 'int' else 8 * ir.sizeof(m, t))
        _lay[k] = r
    return _lay[k]


def fregion(ex, struct, i):
    t = (struct, i)
    r = ex.region_of.get(t)
    if r is None:
        o, w = fld(ex, struct, i)
        r = ex.region_of[t] = Region(t, w)
    return r


def F(ex, st, p, struct, i):
    """value of field i of the struct at p"""
    o, w = fld(ex, struct, i)
    return bv(fregion(ex, struct, i).get(st, simp(bv(p, 64) + o)), max(8, w))


def FA(ex, p, struct, i):
    return simp(bv(p, 64) + fld(ex, struct, i)[0])


# ---------------------------------------------------------------- globals
def sym(ex, name):
    """mangled global address by source-level name"""
    parts = name.split('::')
    m = '@_ZN' + ''.join('%d%s' % (len(p), p) for p in parts) + 'E'
    return ex.global_addr(m)


def G(ex, st, name, n):
    v = ex.load_local(st, sym(ex, name), n, 8 * n)
    return bv(v, 8 * n)


def two(tag):
    def f(ex, st):
        return [ptr(ex, st, 'psrc1', tag), ptr(ex, st, 'psrc2', tag)]
    return f


# ---------------------------------------------------------------- comparators
OFF, LEN = 2, 3


def off_pre(ex, st, a):
    c = []
    for p in a[:2]:
        o, l = F(ex, st, p, 'fl_offset_lock', OFF), F(ex, st, p, 'fl_offset_lock', LEN)
        c.append(And(o >= 0, z3.ULT(l, 1 << 62), o < (1 << 62)))
    return [('offsets are not negative and the ends do not overflow', And(*c))]


def off_post(ex, old, st, a, ret):
    ret = bv(ret, 32)
    o1, l1 = F(ex, st, a[0], 'fl_offset_lock', OFF), F(ex, st, a[0], 'fl_offset_lock', LEN)
    o2, l2 = F(ex, st, a[1], 'fl_offset_lock', OFF), F(ex, st, a[1], 'fl_offset_lock', LEN)
    ov = And(o1 < o2 + l2, o2 < o1 + l1)
    return [('ranges of at least one byte compare equal exactly when they overlap', Imp(And(l1 != 0, l2 != 0), (ret == 0) == ov)),
            ('ranges that start at one place compare equal', Imp(o1 == o2, ret == 0)),
            ('disjoint ranges are ordered by their place', Imp(ret != 0, And(Imp(o1 < o2, ret > 0), Imp(o2 < o1, ret < 0)))),
            ('ranges that neither touch nor overlap never compare equal', Imp(Or(o1 + l1 < o2, o2 + l2 < o1), ret != 0))]


def file_post(ex, old, st, a, ret):
    ret = bv(ret, 32)
    d = [F(ex, st, p, 'fl_file_lock', 1) for p in a[:2]]
    i = [F(ex, st, p, 'fl_file_lock', 2) for p in a[:2]]
    return [('two file entries compare equal exactly when device and inode are equal', (ret == 0) == And(d[0] == d[1], i[0] == i[1])),
            ('the order is by device, then inode', And(Imp(z3.ULT(d[0], d[1]), ret > 0), Imp(z3.ULT(d[1], d[0]), ret < 0), Imp(And(d[0] == d[1], z3.ULT(i[0], i[1])), ret > 0), Imp(And(d[0] == d[1], z3.ULT(i[1], i[0])), ret < 0)))]


def locker_post(ex, old, st, a, ret):
    ret = bv(ret, 32)
    i, f, l = [[F(ex, st, p, 'fl_locker', k) for p in a[:2]] for k in (1, 2, 3)]
    return [('two lock records compare equal exactly when owner, descriptor and locked state are equal', (ret == 0) == And(i[0] == i[1], f[0] == f[1], (l[0] & 1) == (l[1] & 1)))]


def waiter_post(ex, old, st, a, ret):
    ret = bv(ret, 32)
    s = [F(ex, st, p, 'fl_waiter', 2) for p in a[:2]]
    return [('two waiters compare equal exactly when their status is equal', (ret == 0) == (s[0] == s[1]))]


NAMEEQ = z3.Function('names_equal_up_to', BV64, BV64, z3.BitVecSort(32), z3.BoolSort())


def m_strncmp(ex, st, args, ins):
    """trusted: 0 exactly when the two strings are equal in their first n characters"""
    r = fresh('strncmp', 32)
    st.assume((r == 0) == NAMEEQ(bv(args[0], 64), bv(args[1], 64), z3.Extract(31, 0, bv(args[2], 64))))
    return r


def name_post(s, hi, ni):
    def f(ex, old, st, a, ret):
        ret = bv(ret, 32)
        h = [F(ex, st, p, s, hi) for p in a[:2]]
        n = [FA(ex, p, s, ni) for p in a[:2]]
        return [('two named objects compare equal exactly when hash and the first 63 characters of the name are equal',
                 (ret == 0) == And(h[0] == h[1], NAMEEQ(n[0], n[1], z3.BitVecVal(63, 32))))]
    return f


# ---------------------------------------------------------------- identity
MYPID, MYTID = z3.BitVec('my.pid', 32), z3.BitVec('my.tid', 32)


def m_getpid(ex, st, args, ins):
    """trusted: the id of the calling process"""
    return MYPID


def m_gettid(ex, st, args, ins):
    """trusted: the id of the calling thread"""
    return MYTID


def tsd_ghost(st):
    st.ghost.setdefault('tsd', z3.BitVec('tsd0', 64))


def m_getspecific(ex, st, args, ins):
    """trusted: this thread's value of the key"""
    return st.ghost['tsd']


def m_setspecific(ex, st, args, ins):
    """trusted: stores this thread's value, or fails and leaves it"""
    v = bv(args[1], 64)
    ex.oblige(st, 'guarantee: only this thread\'s own id (or nothing) is ever cached for it', Or(v == 0, v == z3.SignExt(32, MYTID)), 'guarantee')
    s2 = st.copy()
    st.ghost['tsd'] = v
    if isc(args[1]) and args[1] == 0:
        return 0   # clearing an existing key cannot fail
    r = fresh('setspec', 32)
    s2.assume(r != 0)
    return [(st, 0), (s2, r)]


def m_key_create(ex, st, args, ins):
    """trusted: 0 and a key, or an error"""
    s2 = st.copy()
    ex.store(st, None, ('int', 32), fresh('key', 32), args[0])
    r = fresh('kcr', 32)
    s2.assume(r != 0)
    return [(st, 0), (s2, r)]


def m_atfork(ex, st, args, ins):
    """trusted: registers the three handlers, or fails"""
    s2 = st.copy()
    st.ghost['atfork.child'] = bv(args[2], 64)
    st.ghost['atfork.n'] = st.ghost['atfork.n'] + 1
    s2.ghost['atfork.n'] = s2.ghost['atfork.n'] + 1
    r = fresh('atf', 32)
    s2.assume(r != 0)
    return [(st, 0), (s2, r)]


def m_key_delete(ex, st, args, ins):
    return 0


def m_is_init(ex, st, args, ins):
    """assumed: whether the key could be created, constant after start"""
    return z3.Bool('tid.key.exists')


def m_get_key(ex, st, args, ins):
    b = st.ghost.get('keycell')
    if b is None:
        b = ex.alloc(st, 8, 'tidkey')
        st.ghost['keycell'] = b
    return b


IDM = {'getpid': m_getpid, 'gettid': m_gettid, 'pthread_getspecific': m_getspecific, 'pthread_setspecific': m_setspecific,
       'pthread_key_create': m_key_create, 'pthread_atfork': m_atfork, 'pthread_key_delete': m_key_delete, '__cxa_atexit': lambda ex, st, a, i: 0,
       'FlTidCache::IsInit': m_is_init, 'FlTidCache::GetTid': m_get_key}


def id_setup(ex, st):
    tsd_ghost(st)
    m_get_key(ex, st, [], None)
    return []


def tsd_ok(st):
    return Or(st.ghost['tsd'] == 0, st.ghost['tsd'] == z3.SignExt(32, MYTID))


def id_pre(ex, st, a):
    return [('the cached id of this thread is its own or none (kept by every write, cleared in a forked child)', tsd_ok(st))]


def tid_post(ex, old, st, a, ret):
    return [('answers the id of the calling thread', bv(ret, 32) == MYTID), ('the cache stays sound', tsd_ok(st))]


def flckpid_post(ex, old, st, a, ret):
    return [('the owner id is the process id and thread id side by side, so that it determines both', bv(ret, 64) == z3.Concat(MYPID, MYTID)), ('the cache stays sound', tsd_ok(st))]


def fork_post(ex, old, st, a, ret):
    return [('after a fork the child has no cached thread id', Imp(z3.Bool('tid.key.exists'), st.ghost['tsd'] == 0))]


def atf_setup(ex, st):
    st.ghost['atfork.child'] = z3.BitVecVal(0, 64)
    st.ghost['atfork.n'] = z3.BitVecVal(0, 32)
    p = ptr(ex, st, 'this', ('class.FlTidCache',))
    return [p]


def atf_post(ex, old, st, a, ret):
    init = F(ex, st, a[0], 'class.FlTidCache', 1)
    h = next((n for n, d in ex.prog.dem.items() if d == 'FlTidCache::ForkChildHandler()'), None)
    return [('a usable cache has asked for its clearing in forked children', Imp((init & 1) == 1, st.ghost['atfork.n'] == 1)),
            ('the handler asked for is the one that clears the cache', Or(st.ghost['atfork.child'] == 0, st.ghost['atfork.child'] == bv(ex.fn_addr(h), 64) if h else False))]


def one_id(ex, st):
    return [z3.BitVec('flckpid', 64)]


def dpid_post(ex, old, st, a, ret):
    return [('the process id of an owner id is its upper half', bv(ret, 32) == z3.Extract(63, 32, bv(a[0], 64)))]


def dtid_post(ex, old, st, a, ret):
    return [('the thread id of an owner id is its lower half', bv(ret, 32) == z3.Extract(31, 0, bv(a[0], 64)))]


def key_setup(ex, st):
    return [ptr(ex, st, 'key1', ('fl_pid_cache_key',)), ptr(ex, st, 'key2', ('fl_pid_cache_key',))]


def key_post(ex, old, st, a, ret):
    x = [[F(ex, st, p, 'fl_pid_cache_key', k) for k in range(3)] for p in a[:2]]
    l = Or(x[0][0] < x[1][0], And(x[0][0] == x[1][0], Or(x[0][1] < x[1][1], And(x[0][1] == x[1][1], x[0][2] < x[1][2]))))
    return [('keys are ordered by process, thread and descriptor, so two keys are one entry exactly when all three are equal', bl(ret) == l)]


# ---------------------------------------------------------------- the /proc cache: std::map as an abstract map
KEY = z3.BitVecSort(96)
MAPNODE = z3.Function('cache_node', KEY, BV64)
MAPKEY = z3.Function('cache_node_key', BV64, KEY)
MEND = z3.BitVecVal(0x3ff0, 64)


def rd_key(ex, st, p):
    """the three fields of the key object at p (local or symbolic)"""
    v = []
    for k in range(3):
        if isc(p):
            v.append(bv(ex.load_local(st, p + 4 * k, 4, 32), 32))
        else:
            v.append(F(ex, st, p, 'fl_pid_cache_key', k))
    return z3.Concat(*v)


def map_ghosts(st):
    st.ghost.setdefault('map.has', z3.Const('map.has0', z3.ArraySort(KEY, z3.BoolSort())))


def node_of(ex, st, k):
    n = MAPNODE(k)
    st.assume(MAPKEY(n) == k)
    st.assume(And(z3.UGE(n, 0x600000000000), z3.ULT(n, 0x700000000000)))
    ex.set_tag(n, ('cache_node',))
    return n


def m_map_find(ex, st, args, ins):
    """trusted std::map: the iterator of the equal key, or end"""
    k = rd_key(ex, st, args[1])
    has = z3.Select(st.ghost['map.has'], k)
    s2 = st.copy()
    n = node_of(ex, st, k)
    st.assume(has)
    s2.assume(Not(has))
    return [x for x in ((st, n), (s2, 0x10)) if ex.feasible(x[0])]


def m_map_end(ex, st, args, ins):
    """trusted std::map: the end iterator (nothing may be read through it)"""
    return 0x10


def m_map_index(ex, st, args, ins):
    """trusted std::map: the value of the key, inserted when it was not there"""
    k = rd_key(ex, st, args[1])
    n = node_of(ex, st, k)
    st.ghost['map.has'] = z3.Store(st.ghost['map.has'], k, z3.BoolVal(True))
    v = simp(n + 16)
    ex.set_tag(v, ('fl_pid_cache_value',))
    return v


def m_iter_eq(ex, st, args, ins):
    x = [bv(ex.load_local(st, p, 8, 64), 64) if isc(p) else bv(p, 64) for p in args[:2]]
    return conc(z3.simplify(x[0] == x[1]))


def m_iter_arrow(ex, st, args, ins):
    v = ex.load_local(st, args[0], 8, 64)
    return v


def m_iter_conv(ex, st, args, ins):
    """const_iterator(iterator const&)"""
    v = ex.load_local(st, args[1], 8, 64)
    ex.store_local(st, args[0], 8, v)
    return None


MAPT = 'std::map<fl_pid_cache_key, fl_pid_cache_value, std::less<fl_pid_cache_key>, std::allocator<std::pair<fl_pid_cache_key const, fl_pid_cache_value> > >::'
ITN = 'std::_Rb_tree_%siterator<std::pair<fl_pid_cache_key const, fl_pid_cache_value> >::operator->() const'
MAPM = {ITN % 'const_': m_iter_arrow, ITN % '': m_iter_arrow, MAPT + 'find': m_map_find, MAPT + 'end': m_map_end, MAPT + 'operator[]': m_map_index}


# ---------------------------------------------------------------- system calls on files
EXISTS = z3.Function('thread_exists', z3.BitVecSort(32), z3.BitVecSort(32), z3.BoolSort())
FDOK = z3.Function('fd_stat_ok', z3.BitVecSort(32), z3.BitVecSort(32), z3.BoolSort())
FDACC = z3.Function('fd_no_permission', z3.BitVecSort(32), z3.BitVecSort(32), z3.BoolSort())
FDDEV = z3.Function('fd_dev', z3.BitVecSort(32), z3.BitVecSort(32), BV64)
FDINO = z3.Function('fd_ino', z3.BitVecSort(32), z3.BitVecSort(32), BV64)


def cstr(ex, st, p, maxn=200):
    """a constant string of the program"""
    out = []
    for i in range(maxn):
        c = ex.load_local(st, p + i, 1, 8)
        if not isc(c):
            raise Unsupported('format is not constant')
        if c == 0:
            return bytes(out).decode('latin1')
        out.append(c)
    raise Unsupported('long format')


def errno_setup(ex, st):
    a = ex.alloc(st, 4, 'errno')
    ex.store_local(st, a, 4, z3.BitVec('errno0', 32))
    ex.errno_addr = a


def m_errno(ex, st, args, ins):
    return ex.errno_addr


def set_errno(ex, st, v):
    ex.store_local(st, ex.errno_addr, 4, v)


def errno(ex, st):
    return bv(ex.load_local(st, ex.errno_addr, 4, 32), 32)


def m_sprintf(ex, st, args, ins):
    """trusted: formats a path"""
    fi = 1
    if ins is not None and len(args) > 2 and not isc(args[1]):
        raise Unsupported('sprintf format')
    f = cstr(ex, st, args[fi])
    st.ghost['path'] = (args[0], f, tuple(bv(x, 32) for x in args[fi + 1:]))
    return fresh('n', 32)


def m_snprintf(ex, st, args, ins):
    """trusted: formats a path"""
    f = cstr(ex, st, args[2])
    st.ghost['path'] = (args[0], f, tuple(bv(x, 32) for x in args[3:]))
    return fresh('n', 32)


def m_stat_proc(ex, st, args, ins):
    """trusted: /proc/P/task/T can be examined exactly when that thread exists; /proc/P/fd/F leads to the file open there, or fails (EACCES: not ours to see)"""
    p = st.ghost.get('path')
    if p is None or not isc(args[0]) or p[0] != args[0]:
        raise Unsupported('stat of an unknown path')
    f, v = p[1], p[2]
    if f == '/proc/%d/task/%d' and len(v) == 2:
        ok, acc = EXISTS(*v), False
        dev, ino = fresh('dev', 64), fresh('ino', 64)
    elif f == '/proc/%d/fd/%d' and len(v) == 2:
        ok, acc = FDOK(*v), FDACC(*v)
        dev, ino = FDDEV(*v), FDINO(*v)
    else:
        raise Unsupported('stat of ' + f)
    st2 = st.copy()
    st.assume(ok)
    st.assume(Not(And(dev == 0, ino == 0)))
    ex.store_local(st, args[1], 8, dev)
    ex.store_local(st, args[1] + 8, 8, ino)
    e = fresh('errno', 32)
    st2.assume(Not(ok))
    st2.assume(And(e != 0, (e == EACCES) == acc))
    set_errno(ex, st2, e)
    return [x for x in ((st, 0), (st2, mask(32))) if ex.feasible(x[0])]


FSOK = z3.Function('fstat_ok', z3.BitVecSort(32), z3.BoolSort())
FSDEV = z3.Function('fstat_dev', z3.BitVecSort(32), BV64)
FSINO = z3.Function('fstat_ino', z3.BitVecSort(32), BV64)


def m_fstat(ex, st, args, ins):
    """trusted: device and inode of the open descriptor, or -1"""
    st2 = st.copy()
    fd = bv(args[0], 32)
    st.assume(FSOK(fd))
    ex.store_local(st, args[1], 8, FSDEV(fd))
    ex.store_local(st, args[1] + 8, 8, FSINO(fd))
    st2.assume(Not(FSOK(fd)))
    set_errno(ex, st2, fresh('errno', 32))
    return [x for x in ((st, 0), (st2, mask(32))) if ex.feasible(x[0])]


PROCM = dict(MAPM, **{'sprintf': m_sprintf, 'snprintf': m_snprintf, 'stat': m_stat_proc, '__errno_location': m_errno, 'fstat': m_fstat})


def pcache(ex, st):
    map_ghosts(st)
    p = z3.BitVec('pcache', 64)
    st.assume(Or(p == 0, And(z3.UGE(p, 4096), z3.ULT(p, 1 << 46))))
    st.ghost['path'] = None
    return p


def cval(ex, st, k):
    """(dev, ino, is_run) recorded under key k"""
    n = MAPNODE(k)
    v = simp(n + 16)
    ex.set_tag(v, ('fl_pid_cache_value',))
    return [F(ex, st, v, 'fl_pid_cache_value', i) for i in range(3)]


def nokey(ex, k):
    v = simp(MAPNODE(k) + 16)
    return [('mem', ('fl_pid_cache_value', i), FA(ex, v, 'fl_pid_cache_value', i)) for i in range(3)]


def ftp_setup(ex, st):
    errno_setup(ex, st)
    for i in range(3):
        fregion(ex, 'fl_pid_cache_value', i)
    p = pcache(ex, st)
    return [z3.BitVec('pid', 32), z3.BitVec('tid', 32), p]


def xkey(a):
    return z3.Concat(bv(a[0], 32), bv(a[1], 32), z3.BitVecVal(0xffffffff, 32))


def hasx(st, k):
    return z3.Select(st.ghost['map.has'], k)


def isrun(v):
    return (z3.Extract(0, 0, v) == 1)


def ftp_pre(ex, st, a):
    k = xkey(a)
    return [('what the cache says about the thread is true', Imp(And(a[2] != 0, hasx(st, k)), isrun(cval(ex, st, k)[2]) == EXISTS(a[0], a[1])))]


def ftp_post(ex, old, st, a, ret):
    k = xkey(a)
    o = z3.Const('other.key', KEY)
    return [('answers whether the thread exists', bl(ret) == EXISTS(a[0], a[1])),
            ('what the cache says about the thread stays true', Imp(And(a[2] != 0, hasx(st, k)), isrun(cval(ex, st, k)[2]) == EXISTS(a[0], a[1]))),
            ('nothing is recorded under another key', Imp(o != k, hasx(st, o) == hasx(old, o)))]


def ftp_mod(ex, st, a):
    return nokey(ex, xkey(a)) + [('ghost', 'path'), ('ghost', 'map.has'), ('cell', ex.errno_addr, 4)]


def dev_setup(ex, st):
    errno_setup(ex, st)
    for i in range(3):
        fregion(ex, 'fl_pid_cache_value', i)
    p = pcache(ex, st)
    d, i = ex.alloc(st, 8, 'devid'), ex.alloc(st, 8, 'inodeid')
    ex.store_local(st, d, 8, z3.BitVec('dev0', 64))
    ex.store_local(st, i, 8, z3.BitVec('ino0', 64))
    return [z3.BitVec('pid', 32), z3.BitVec('tid', 32), z3.BitVec('fd', 32), d, i, p]


def nofd(fd):
    return z3.Extract(31, 31, fd) == 1


def dkey(a):
    return z3.Concat(bv(a[0], 32), bv(a[1], 32), bv(a[2], 32))


def dev_truth(a):
    """(alive and holding a descriptor, device, inode) of (pid, tid, fd)"""
    pid, tid, fd = a[:3]
    seen = FDOK(pid, fd)
    ok = z3.If(nofd(fd), EXISTS(pid, tid), And(Or(seen, FDACC(pid, fd)), EXISTS(pid, tid)))
    m1 = z3.BitVecVal(-1, 64)
    dev = z3.If(nofd(fd), m1, z3.If(seen, FDDEV(pid, fd), m1))
    ino = z3.If(nofd(fd), m1, z3.If(seen, FDINO(pid, fd), m1))
    return ok, dev, ino


def dev_facts(a):
    pid, tid, fd = a[:3]
    return And(Not(And(FDOK(pid, fd), FDACC(pid, fd))), Not(And(FDOK(pid, fd), FDDEV(pid, fd) == 0, FDINO(pid, fd) == 0)))


def dev_entry(ex, st, a):
    ok, dev, ino = dev_truth(a)
    v = cval(ex, st, dkey(a))
    return Imp(And(a[5] != 0, hasx(st, dkey(a))), z3.If(ok, And(v[0] == dev, v[1] == ino), And(v[0] == 0, v[1] == 0)))


def dev_pre(ex, st, a):
    return [('what the cache says about the descriptor is true', dev_entry(ex, st, a)), ('facts about descriptors', dev_facts(a)),
            ('the value used for execution entries is not a descriptor', a[2] != -1)]


def dev_post(ex, old, st, a, ret):
    ok, dev, ino = dev_truth(a)
    rd, ri = [bv(ex.load_local(st, p, 8, 64), 64) for p in a[3:5]]
    o = z3.Const('other.key', KEY)
    return [('true exactly when the thread exists and, with a descriptor, its process still has it open or it may not be examined', bl(ret) == ok),
            ('the file answered is the one the descriptor refers to, or unknown', Imp(ok, And(rd == dev, ri == ino))),
            ('an owner that is gone has no file', Imp(Not(ok), And(rd == 0, ri == 0))),
            ('what the cache says about the descriptor stays true', dev_entry(ex, st, a)),
            ('nothing is recorded under another key', Imp(o != dkey(a), hasx(st, o) == hasx(old, o)))]


def dev_mod(ex, st, a):
    return nokey(ex, dkey(a)) + [('ghost', 'path'), ('ghost', 'map.has'), ('cell', ex.errno_addr, 4), ('cell', a[3], 8), ('cell', a[4], 8)]


def fdev_setup(ex, st):
    errno_setup(ex, st)
    d, i = ex.alloc(st, 8, 'devid'), ex.alloc(st, 8, 'inodeid')
    ex.store_local(st, d, 8, z3.BitVec('dev0', 64))
    ex.store_local(st, i, 8, z3.BitVec('ino0', 64))
    return [z3.BitVec('fd', 32), d, i]


def fdev_post(ex, old, st, a, ret):
    fd = a[0]
    rd, ri = [bv(ex.load_local(st, p, 8, 64), 64) for p in a[1:3]]
    od, oi = [bv(ex.load_local(old, p, 8, 64), 64) for p in a[1:3]]
    return [('a file identity is answered exactly for an open descriptor or a pseudo descriptor', bl(ret) == Or(nofd(fd), FSOK(fd))),
            ('a descriptor is identified by the device and inode of its file, so that every descriptor of one file gives one identity', Imp(And(Not(nofd(fd)), FSOK(fd)), And(rd == FSDEV(fd), ri == FSINO(fd)))),
            ('all pseudo descriptors share one identity that no file has', Imp(nofd(fd), And(rd == -1, ri == -1)))]


def contracts():
    C = []

    def add(*a, **k):
        C.append(FnContract(*a, **k))
    CMP = 'fl_compare_list_base(%s*, %s*)'
    strn = {'strncmp': m_strncmp}
    for s, post, props, pre in (('fl_offset_lock', off_post, ('P05', 'P09'), off_pre), ('fl_file_lock', file_post, ('P05',), None), ('fl_locker', locker_post, ('P01',), None),
                                ('fl_waiter', waiter_post, ('P03',), None), ('fl_named_mutex', name_post('fl_named_mutex', 3, 4), ('P11',), None), ('fl_named_cond', name_post('fl_named_cond', 2, 3), ('P11',), None)):
        add(CMP % (s, s), two((s,)), pre, post, None, 32, props, overloads=True, models=strn)
    add('get_threadid()', id_setup, id_pre, tid_post, lambda ex, st, a: [('ghost', 'tsd')], 32, ('P11',), models=IDM)
    add('get_flckpid()', id_setup, id_pre, flckpid_post, lambda ex, st, a: [('ghost', 'tsd')], 64, ('P11',), models=IDM)
    add('FlTidCache::ForkChildHandler()', id_setup, None, fork_post, lambda ex, st, a: [('ghost', 'tsd')], None, ('P11',), models=IDM)
    add('FlTidCache::FlTidCache()', atf_setup, None, atf_post, lambda ex, st, a: [('ghost', 'atfork.child'), ('ghost', 'atfork.n'), ('mem', ('class.FlTidCache',), a[0])] + [('mem', ('class.FlTidCache', i), FA(ex, a[0], 'class.FlTidCache', i)) for i in (1, 2)], None, ('P11',), models=IDM)
    add('decompose_pid(unsigned long)', one_id, None, dpid_post, None, 32, ('P11',))
    add('decompose_tid(unsigned long)', one_id, None, dtid_post, None, 32, ('P11',))
    add('fl_pid_cache_key::operator<(fl_pid_cache_key const&) const', key_setup, None, key_post, None, 1, ('P11',))
    add('FindThreadProcess(int, int, ' + MAPT[:-2] + '*)', ftp_setup, ftp_pre, ftp_post, ftp_mod, 1, ('P06', 'P08', 'P11'), models=PROCM, drop_models=['FindThreadProcess'])
    add('GetFileDevNode(int, int, int, unsigned long&, unsigned long&, ' + MAPT[:-2] + '*)', dev_setup, dev_pre, dev_post, dev_mod, 1, ('P06', 'P11'), models=PROCM, overloads=True)
    add('GetFileDevNode(int, unsigned long&, unsigned long&)', fdev_setup, None, fdev_post, lambda ex, st, a: [('cell', ex.errno_addr, 4), ('cell', a[1], 8), ('cell', a[2], 8)], 1, ('P05',), models=PROCM, overloads=True)
    return C
