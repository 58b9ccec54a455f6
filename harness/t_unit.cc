// Single-call tests of the parts below and beside the locks, over the real functions: file helpers against scripted
// system calls, identities and caches, layout and attachment, configuration, unattached use, the worker.
// Everything with effects on the process runs in a forked child of its own.
#include "sim.h"
#include <stdarg.h>
#include <sys/syscall.h>
typedef unsigned long ul;
typedef std::vector<unsigned char> Bytes;

// ---------------------------------------------------------------- scripted system calls
static const int XFD = 777;
struct IO { bool on = false; Rng rng; Bytes file; u64 base = 0; long hard = 0, intr = 0, outside = 0, calls = 0; int pi = 5, ph = 40, ps = 2; Bytes given; size_t pos = 0; bool eagain = false; } X;
extern std::function<void()> g_sleep_hook; static long g_opens; static std::function<void(const char*, int, int)> g_open_hook; static std::function<const char*(const char*)> g_getenv; long g_pagesize = 8192;
static bool trouble() { X.calls++; if (X.rng.chance(1, X.pi)) { X.intr++; errno = EINTR; return true; } if (X.rng.chance(1, X.ph)) { X.hard++; errno = EIO; return true; } return false; }
static size_t part(size_t n) { return n > 1 && X.rng.chance(1, X.ps) ? 1 + X.rng.below(n - 1) : n; }
static ssize_t x_pread(void* b, size_t n, u64 off) { if (trouble()) return -1; if (off < X.base) { X.outside++; return -1; } off -= X.base; if (off >= X.file.size() || !n) return 0; n = part(std::min(n, X.file.size() - (size_t)off)); memcpy(b, &X.file[off], n); return n; }
static ssize_t x_pwrite(const void* b, size_t n, u64 off) { if (trouble()) return -1; if (!n) return 0; n = part(n); if (off < X.base || off - X.base + n > X.file.size()) { X.outside++; return n; } memcpy(&X.file[off - X.base], b, n); return n; }
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_pread64(int, void*, size_t, off_t); ssize_t __real_pwrite64(int, const void*, size_t, off_t); char* __real_getenv(const char*); int __real_open(const char*, int, ...); long __real_sysconf(int);
ssize_t __wrap_read(int fd, void* b, size_t n) {
	if (!X.on || fd != XFD) return __real_read(fd, b, n);
	if (trouble()) return -1; size_t left = X.file.size() - X.pos; if (!left) { if (X.eagain) { errno = EAGAIN; return -1; } return 0; }
	n = std::min(n, left); if (X.ps < 100) n = part(n); memcpy(b, &X.file[X.pos], n); X.given.insert(X.given.end(), &X.file[X.pos], &X.file[X.pos] + n); X.pos += n; return n; }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return X.on && fd == XFD ? x_pread(b, n, o) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return X.on && fd == XFD ? x_pwrite(b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
char* __wrap_getenv(const char* n) { return g_getenv && !strncmp(n, "FLCK", 4) ? (char*)g_getenv(n) : __real_getenv(n); }
long __wrap_sysconf(int n) { return n == _SC_PAGESIZE ? g_pagesize : __real_sysconf(n); }
int __wrap_open(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = (f & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); g_opens++; int r = __real_open(p, f, m); int e = errno; if (g_open_hook) g_open_hook(p, f, r); errno = e; return r; }
}
static S hex(const unsigned char* p, size_t n) { S s; for (size_t i = 0; i < n && i < 16; i++) s += fmt("%02x", p[i]); return s; }

// ---------------------------------------------------------------- one forked child per case
struct Out { int fd; Result* r = nullptr; bool bad = false; long n = 0;
	void line(const S& s) { S t = s; for (auto& c : t) if (c == '\n') c = ' '; t += "\n"; if (write(fd, t.data(), t.size()) < 0) {} }
	void note(const S& s) { line("N " + s); }
	void fail(const S& props, const S& s) { bad = true; line("F " + props + "|" + s); }
	bool check(bool ok, const S& props, const S& s) { n++; if (!ok && !bad) fail(props, s); return ok; } };
static Result isolated(const S& desc, const S& props, int secs, const std::function<void(Out&)>& f) {
	Result r; r.desc = desc; int p[2]; if (pipe(p)) return r; fflush(stdout);
	pid_t c = fork();
	if (c == 0) { setpgid(0, 0); close(p[0]); alarm(secs); Out o; o.fd = p[1]; f(o); o.line(fmt("E %ld", o.n)); _exit(0); }
	close(p[1]); S all; char b[4096]; ssize_t n; time_t t0 = time(nullptr); bool ended = false; fcntl(p[0], F_SETFL, O_NONBLOCK); int st = 0;
	while (1) { n = __real_read(p[0], b, sizeof b); if (n > 0) { all.append(b, n); continue; } if (ended) break; if (waitpid(c, &st, WNOHANG) == c) { ended = true; continue; } if (time(nullptr) - t0 > secs + 30) { kill(c, SIGKILL); } struct timespec ts = {0, 200000}; nanosleep(&ts, nullptr); }
	close(p[0]); ::kill(-c, SIGKILL); bool fin = false; std::istringstream is(all); S l;
	while (std::getline(is, l)) { if (l[0] == 'N') r.log.push_back(l.substr(2)); else if (l[0] == 'E') { fin = true; r.evals = atol(l.c_str() + 2); } else if (l[0] == 'F') { size_t k = l.find('|'); r.fails.push_back({l.substr(2, k - 2), l.substr(k + 1)}); } }
	if (!fin && r.fails.empty()) r.fails.push_back({props, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? fmt("the real code did not end within %d s", secs) : fmt("the real code ended abnormally (status 0x%x)", st)});
	return r;
}
static void area(const Counts& c) { if (!shm_setup(c)) { fprintf(stderr, "no area\n"); abort(); } }

// ---------------------------------------------------------------- P15
static Reg r_io("io", "P15", 3000, 60000, [](const Ctx& c) {
	Result r; Rng g(c.seed); X = IO(); X.rng = Rng(c.seed ^ 0x55); X.on = true; auto bad = [&](const S& s) { r.fails.push_back({"P15", s}); };
	X.pi = g.chance(1, 2) ? 1000000 : 2 + (int)g.below(8); X.ph = g.chance(2, 3) ? 1000000 : 2 + (int)g.below(30); X.ps = g.chance(1, 4) ? 1000000 : 1 + (int)g.below(4); r.evals = 1;
	int kind = (int)g.below(4); size_t ps = GetSystemPageSize();
	if (kind == 0) {
		size_t szs[] = {0, 1, ps - 1, ps, ps + 1, 2 * ps, 2 * ps + 1, 3 * ps + 17, (size_t)g.below(5 * ps)}; X.file.resize(szs[g.below(9)]); for (auto& b : X.file) b = (unsigned char)g.next(); X.eagain = g.chance(1, 2); if (g.chance(2, 3)) X.ps = 1000000;
		unsigned char* p = nullptr; ssize_t n = flck_read(XFD, &p); r.desc = fmt("flck_read of %zu bytes, end told by %s, %ld interruptions, %ld failures, %ld calls", X.file.size(), X.eagain ? "EAGAIN" : "a short read", X.intr, X.hard, X.calls);
		if (n < 0 && !X.hard) bad("flck_read reports a failure though nothing but interruptions happened"); else if (n >= 0 && X.hard) bad(fmt("flck_read answers %zd though reading failed", n));
		else if (n >= 0 && ((size_t)n != X.given.size() || (n && memcmp(p, X.given.data(), n)))) bad(fmt("flck_read answers %zd bytes, %zu were read, or not the same ones", n, X.given.size()));
		if (n >= 0) free(p);
	} else {
		size_t count = kind == 3 ? (size_t)g.below(12000) : (size_t)g.below(400); X.base = g.chance(1, 2) ? 0 : g.chance(1, 2) ? (u64)g.below(1ULL << 40) : 0xFFFFFF00ULL + g.below(200); size_t W = count + 64; X.file.resize(W); for (auto& b : X.file) b = 1 + (unsigned char)g.below(255); Bytes before = X.file; size_t at = (size_t)g.below(64); 
		if (kind == 1) { if (g.chance(1, 2)) { X.file.resize(g.below(W)); before = X.file; } Bytes buf(count + 16, 0xA5); ssize_t n = flck_pread(XFD, buf.data(), count, X.base + at); size_t avail = at < X.file.size() ? X.file.size() - at : 0; r.desc = fmt("flck_pread of %zu at %lu+%zu of %zu bytes there, %ld interruptions, %ld failures, %ld calls", count, (ul)X.base, at, X.file.size(), X.intr, X.hard, X.calls);
			if (n < 0 && !X.hard && !X.intr && !X.outside) bad("flck_pread reports a failure though none happened"); else if (X.outside) bad("flck_pread reads elsewhere"); else if (n >= 0 && X.hard) bad("flck_pread hides a failure");
			else if (n >= 0 && ((size_t)n != std::min(count, avail) || (n && memcmp(buf.data(), &X.file[at], n)))) bad(fmt("flck_pread answers %zd, %zu were to be read, or the bytes differ", n, std::min(count, avail)));
			for (size_t i = count; i < buf.size(); i++) if (buf[i] != 0xA5) { bad("flck_pread writes behind the buffer"); break; }
		} else { Bytes buf(count); for (auto& b : buf) b = kind == 3 ? 0 : (unsigned char)g.next(); ssize_t n = kind == 2 ? flck_pwrite(XFD, buf.data(), count, X.base + at) : flck_fill_zero(XFD, count, X.base + at) ? (ssize_t)count : -1; const char* nm = kind == 2 ? "flck_pwrite" : "flck_fill_zero"; r.desc = fmt("%s of %zu at %lu+%zu, %ld interruptions, %ld failures, %ld calls", nm, count, (ul)X.base, at, X.intr, X.hard, X.calls);
			if (X.outside) bad(fmt("%s writes elsewhere", nm)); else if (n < 0 && !X.hard && !X.intr) bad(fmt("%s reports a failure though none happened", nm)); else if (n >= 0 && X.hard) bad(fmt("%s hides a failure", nm)); else if (n >= 0 && ((size_t)n != count || (count && memcmp(&X.file[at], buf.data(), count)))) bad(fmt("%s reports %zd, but the bytes were not all written", nm, n));
			for (size_t i = 0; i < W; i++) if ((i < at || i >= at + count) && X.file[i] != before[i]) { bad(fmt("%s changes a byte outside its range", nm)); break; } }
	}
	X.on = false; return r;
}, "scripted reads and writes with short transfers, interruptions, failures: every reported count is what was transferred, in place");

// ---------------------------------------------------------------- P11 P06: identities and what is known about threads
static Reg r_id("ids", "P11", 60, 400, [](const Ctx& c) {
	area({2, 2, 2, 2, 2, 2});
	return isolated("identity of the threads of a process and of its forked children", "P11", 20, [&](Out& o) {
		Rng g(c.seed); auto mine = [] { return ((u64)(uint32_t)getpid() << 32) | (u64)(uint32_t)syscall(SYS_gettid); };
		for (int i = 0; i < 300; i++) { pid_t p = i < 4 ? (i & 1 ? 0x7fffffff : 1) : (pid_t)(g.next() & 0x7fffffff); tid_t t = i < 4 ? (i & 2 ? 0x7fffffff : 1) : (tid_t)(g.next() & 0x7fffffff); u64 f = compose_flckpid(p, t); pid_t a; tid_t b; decompose_flckpid(f, a, b); if (!o.check(a == p && b == t && decompose_pid(f) == p && decompose_tid(f) == t, "P11", fmt("identity of process %d thread %d unpacks to %d and %d", p, t, a, b))) return; }
		o.note("parent asks for its identity"); u64 me = get_flckpid(); o.check(me == mine(), "P11", fmt("identity %lx, this thread is %lx", (ul)me, (ul)mine())); o.check(get_flckpid() == me, "P11", "the identity changes");
		struct TA { u64 got, want, again; } ta[3]; pthread_t th[3]; for (int i = 0; i < 3; i++) { pthread_create(&th[i], nullptr, [](void* p) -> void* { TA* t = (TA*)p; t->got = get_flckpid(); t->want = ((u64)(uint32_t)getpid() << 32) | (u64)(uint32_t)syscall(SYS_gettid); t->again = get_flckpid(); return nullptr; }, &ta[i]); pthread_join(th[i], nullptr); o.check(ta[i].got == ta[i].want && ta[i].again == ta[i].want, "P11", fmt("thread %d has identity %lx, it is %lx", i, (ul)ta[i].got, (ul)ta[i].want)); }
		o.note("forks; the child asks for its identity, and its child"); 
		pid_t k = fork(); if (k == 0) { u64 x = get_flckpid(); int bad = x != mine() || x == me; pid_t k2 = fork(); if (k2 == 0) _exit(get_flckpid() != mine() || get_flckpid() == x); int s2 = 0; waitpid(k2, &s2, 0); if (!WIFEXITED(s2) || WEXITSTATUS(s2)) bad |= 2; _exit(bad); }
		int st = 0; waitpid(k, &st, 0); o.check(WIFEXITED(st) && !WEXITSTATUS(st), "P11", fmt("a forked child has the identity of another thread (status 0x%x)", st)); o.check(get_flckpid() == me, "P11", "the parent's identity changes by forking"); });
}, "every thread of every process has its own identity, also after forking");

static Reg r_pi("procinfo", "P11 P06", 600, 12000, [](const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); area({2, 2, 2, 2, 2, 2}); sim.reset(c.seed, SEQ); long ev = 0;
	std::vector<Proc*> ps; for (int i = 0; i < 3; i++) { Proc* p = sim.newproc(300 + i); ps.push_back(p); for (int t = 0; t < 3; t++) if (g.chance(2, 3)) p->tids.insert(300 + i + 1000 * t); for (int f = 0; f < 4; f++) if (g.chance(2, 3)) p->fds[f] = FileId{(dev_t)(10 + g.below(2)), (ino_t)(100 + g.below(3))}; p->eacces = g.chance(1, 6); }
	Proc* me = sim.newproc(900);
	sim.spawn(me, 900, [&](VT&) { fl_pid_cache_map_t cache; bool use = g.chance(2, 3);
		if (g.chance(1, 3)) { fl_pid_cache_map_t fresh; int pid = 300, tid = 300 + 1000 * (int)g.below(3); bool run = ps[0]->tids.count(tid) > 0; dev_t d; ino_t x; bool r = GetFileDevNode(pid, tid, -1, d, x, &fresh); bool f = FindThreadProcess(pid, tid, &fresh); ev++; if (r != run || f != run) SIM->fail("P11 P06", fmt("thread %d of process %d is %srunning; after asking for the file of its holding without a descriptor: %d, whether it runs: %d", tid, pid, run ? "" : "not ", r, f)); }
		for (int n = 0; n < 40 && !SIM->stop; n++) { int i = (int)g.below(3), pid = 300 + i, tid = 300 + i + 1000 * (int)g.below(3); Proc* p = ps[i]; bool run = p->tids.count(tid) > 0; ev++;
			if (g.chance(1, 3)) { bool x = FindThreadProcess(pid, tid, use ? &cache : nullptr); if (x != run) SIM->fail("P11 P06", fmt("thread %d of process %d is %srunning, answer %d", tid, pid, run ? "" : "not ", x)); continue; }
			int fd = g.chance(1, 5) ? (int)(0x80000000u | g.below(0x7ffffffe)) : (int)g.below(4); dev_t d = 77; ino_t x = 77; bool r = GetFileDevNode(pid, tid, fd, d, x, use ? &cache : nullptr);
			bool er; dev_t ed = 0; ino_t ei = 0; if (!run) er = false; else if (IS_FLCK_RWLOCK_NO_FD(fd) || p->eacces) { er = true; ed = (dev_t)-1; ei = (ino_t)-1; } else if (p->fds.count(fd)) { er = true; ed = p->fds[fd].dev; ei = p->fds[fd].ino; } else er = false;
			if (IS_FLCK_RWLOCK_NO_FD(fd) && fd == -1) continue;
			if (r != er || (r && (d != ed || x != ei))) SIM->fail("P11 P06", fmt("file of descriptor %d of thread %d of process %d: answer %d (%lu,%lu), it is %d (%lu,%lu)%s", fd, tid, pid, r, (ul)d, (ul)x, er, (ul)ed, (ul)ei, use ? " with a cache" : "")); } });
	sim.run(); Result r; r.fails = sim.fails; r.log = sim.log; r.evals = ev; r.desc = "facts about threads and descriptors, looked up with one cache"; SIM = nullptr; return r;
}, "what is told about a thread or descriptor is about that one, with and without the cache");

// ---------------------------------------------------------------- P10
static Reg r_at("unattached", "P10", 120, 2000, [](const Ctx& c) {
	area({4, 8, 8, 4, 4, 8});
	return isolated("the shared area is not attached", "P10", 20, [&](Out& o) {
		Rng g(c.seed); FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr; S good = g_scratch + "/p10.shm", none = g_scratch + "/no/such/dir/x.shm"; unlink(good.c_str());
		if (g.chance(1, 2)) FlShm::RobustMode = FlShm::ROBUST_NO;
		for (int n = 0; n < 60 && !o.bad; n++) { int mode = (int)g.below(4); switch (mode) { case 0: fullock_set_noretry_allow_nomap(); break; case 1: fullock_set_noretry_deny_nomap(); break; case 2: fullock_set_retry_allow_nomap(); break; default: fullock_set_retry_deny_nomap(); }
			bool can = g.chance(1, 6); FlShm::ShmPath() = can ? good : none; int op = (int)g.below(16); bool nul = g.chance(1, 5); const char* nm = nul ? nullptr : "n"; const char* nm2 = nul && g.chance(1, 2) ? "c" : nm; if (nul && op >= 12 && g.chance(1, 2)) { nm2 = nullptr; nm = "n"; } long o0 = g_opens; int r = 0; bool lockq = false; const char* w = "";
			switch (op) {
			case 0: w = "rdlock"; r = fullock_rwlock_rdlock(5, 0, 1); break; case 1: w = "tryrdlock"; r = fullock_rwlock_tryrdlock(5, 0, 1); break; case 2: w = "timedrdlock"; r = fullock_rwlock_timedrdlock(5, 0, 1, 10); break; case 3: w = "wrlock"; r = fullock_rwlock_wrlock(5, 0, 1); break; case 4: w = "trywrlock"; r = fullock_rwlock_trywrlock(5, 0, 1); break; case 5: w = "timedwrlock"; r = fullock_rwlock_timedwrlock(5, 0, 1, 10); break; case 6: w = "rwlock_unlock"; r = fullock_rwlock_unlock(5, 0, 1); break; case 7: w = "islocked"; lockq = true; r = fullock_rwlock_islocked(5, 0, 1); break;
			case 8: w = "mutex_lock"; r = fullock_mutex_lock(nm); break; case 9: w = "mutex_trylock"; r = fullock_mutex_trylock(nm); break; case 10: w = "mutex_timedlock"; r = fullock_mutex_timedlock(nm, 10); break; case 11: w = "mutex_unlock"; r = fullock_mutex_unlock(nm); break;
			case 12: w = "cond_wait"; r = fullock_cond_wait(nm2, nm); break; case 13: w = "cond_timedwait"; r = fullock_cond_timedwait(nm2, nm, 10); break; case 14: w = "cond_signal"; r = fullock_cond_signal(nm2); break; default: w = "cond_broadcast"; r = fullock_cond_broadcast(nm2); }
			bool half = op >= 12 && op < 14 && nm2 && !nm; bool isnull = op >= 8 && (op < 12 ? !nm : half ? r == EINVAL : !nm2); bool retry = mode >= 2, allow = !(mode & 1); long opened = g_opens - o0; S head = fmt("%s in mode %d (%s), %s", w, mode, FlShm::ShmFd == -1 ? "not attached" : "attached", can ? "the file can be made" : "no such directory"); o.note(fmt("%s = %d, %ld files opened", head.c_str(), r, opened));
			if (isnull) { o.check(r == EINVAL, "P10", head + fmt(": a missing name is answered %d", r)); o.check(FlShm::ShmFd == -1 || retry, "P10", head + ": attaches"); if (FlShm::ShmFd == -1) continue; }
			else if (!retry) { o.check(opened == 0 && FlShm::ShmFd == -1, "P10", head + ": tries to attach"); o.check(r == (lockq ? !allow : allow ? 0 : ENOLCK), "P10", head + fmt(": answers %d", r)); }
			else if (!can) { o.check(opened >= 1, "P10", head + ": does not try to attach"); o.check(FlShm::ShmFd == -1 && !FlShm::pShmBase, "P10", head + ": counts as attached"); o.check(r == (lockq ? !allow : allow ? 0 : ENOLCK), "P10", head + fmt(": answers %d", r)); }
			else { o.check(FlShm::ShmFd != -1 && FlShm::pShmBase && FlShm::pFlHead, "P10", head + ": is not attached afterwards"); if (o.bad) return; if (op >= 8 && op <= 10) o.check(r == 0 && FlShm::pFlHead->named_mutex_list, "P10", head + fmt(": answers %d, the mutex is%s there", r, FlShm::pFlHead->named_mutex_list ? "" : " not")); if (op == 11) o.check(r == EINVAL, "P10", head + fmt(": answers %d", r)); }
			if (FlShm::ShmFd != -1) { FlShm::Destroy(); unlink(good.c_str()); } } });
}, "every request in every mode without an area: the documented answer, attach attempts only and always in the retry modes");

// ---------------------------------------------------------------- P12
static S layout(const Counts& k, size_t fsize) {
	PFLHEAD h = FlShm::pFlHead; char* base = (char*)FlShm::pShmBase; if (!h || (char*)h != base) return "the header is not at the start";
	if (h->flength > fsize) return fmt("the recorded size %zu is beyond the end of the file %zu", (size_t)h->flength, fsize); if (h->flength % g_pagesize) return "the size is not a multiple of the page size";
	if (h->version != FLCK_FILE_VERSION) return "wrong version"; if (h->file_lock_list || h->named_mutex_list || h->named_cond_list || h->file_lock_lockid || h->named_mutex_lockid || h->named_cond_lockid) return "a list is not empty or is locked at the start";
	std::vector<std::pair<u64, u64>> iv; iv.push_back({0, sizeof(FLHEAD)}); S err;
#define POOL(T, head, n) { size_t x = 0; for (T* q = head; q; x++) { u64 a = (u64)q; if (a % 8) return #T ": not aligned"; if (a + sizeof(T) > h->flength) return #T ": outside the file"; if (x > (size_t)n) return #T ": too many units"; iv.push_back({a, a + sizeof(T)}); T* p = (T*)(base + a); T z; memset(&z, 0, sizeof z); z.next = p->next; (void)z; q = p->next; } if (x != (size_t)n) return fmt(#T ": %zu units instead of %zu", x, (size_t)n); }
	POOL(FLFILELOCK, h->file_lock_free, k.file) POOL(FLOFFLOCK, h->offset_lock_free, k.off) POOL(FLLOCKER, h->locker_free, k.locker) POOL(FLNAMEDMUTEX, h->named_mutex_free, k.nmtx) POOL(FLNAMEDCOND, h->named_cond_free, k.ncond) POOL(FLWAITER, h->waiter_free, k.waiter)
	std::sort(iv.begin(), iv.end()); for (size_t i = 1; i < iv.size(); i++) if (iv[i].first < iv[i - 1].second) return fmt("two units overlap at %lu", (ul)iv[i].first); return "";
}
extern "C" int __real_stat(const char*, struct stat*);
static size_t fsz(const S& p) { struct stat st; return __real_stat(p.c_str(), &st) ? 0 : (size_t)st.st_size; }
static Counts rc(Rng& g) { auto n = [&](size_t lo, size_t hi) { return g.chance(1, 3) ? lo : lo + (size_t)g.below(hi - lo); }; return {n(1, 60), n(4, 90), n(4, 90), n(1, 60), n(1, 60), n(4, 90)}; }
static void setc(const Counts& k) { FlShm::FileLockAreaCount = k.file; FlShm::OffLockAreaCount = k.off; FlShm::LockerAreaCount = k.locker; FlShm::NMtxAreaCount = k.nmtx; FlShm::NCondAreaCount = k.ncond; FlShm::WaiterAreaCount = k.waiter; }
static S ks(const Counts& k) { return fmt("(%zu,%zu,%zu,%zu,%zu,%zu)", k.file, k.off, k.locker, k.nmtx, k.ncond, k.waiter); }
static Reg r_ly("layout", "P12", 100, 2000, [](const Ctx& c) {
	Rng g0(c.seed); Counts k = rc(g0); area(k);
	return isolated("a new area with counts " + ks(k), "P12", 30, [&](Out& o) {
		Rng g(c.seed ^ 99); S path = FlShm::ShmPath(); S e = layout(k, fsz(path)); o.check(e.empty(), "P12", e); if (o.bad) return;
		// stale contents are not kept by a new initialisation
		if (g.chance(1, 2)) { FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr; path += ".old"; FlShm::ShmPath() = path; Counts k2 = rc(g); setc(k2); Bytes junk(g.below(60000), 0xEE); { std::ofstream f(path); f.write((char*)junk.data(), junk.size()); } o.note("initialises again over old contents, counts " + ks(k2)); o.check(FlShm::InitializeShm(), "P12", "cannot initialise the file nobody uses"); if (o.bad) return; e = layout(k2, fsz(path)); o.check(e.empty(), "P12", e); } });
}, "a new area: header and pools disjoint, aligned, inside the file, of exactly the configured counts, lists empty");

// another process that uses the file (a raw lock of the first byte, as the library takes it)
static pid_t holder(const S& path, short type, int ms, bool wait_locked = true) {
	int p[2]; if (pipe(p)) return -1; pid_t k = (pid_t)syscall(SYS_fork); if (k == 0) { int fd = (int)syscall(SYS_open, path.c_str(), O_RDWR, 0); struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = type; fl.l_whence = SEEK_SET; fl.l_len = 1; fcntl(fd, F_SETLKW, &fl); if (write(p[1], "x", 1) < 0) {} if (ms < 0) pause(); usleep(ms * 1000); _exit(0); }
	close(p[1]); char b; if (wait_locked && __real_read(p[0], &b, 1) < 0) {} close(p[0]); return k; }
static void end(pid_t k) { ::syscall(SYS_kill, k, SIGKILL); waitpid(k, nullptr, 0); }
static Reg r_ah("attach", "P12", 40, 600, [](const Ctx& c) {
	Rng g0(c.seed); Counts k = rc(g0); area(k);
	return isolated("an area shared with another process, counts " + ks(k), "P12 P11", 60, [&](Out& o) {
		Rng g(c.seed ^ 77); S path = FlShm::ShmPath(); int what = (int)((c.seed / 7) % 4);
		if (what == 3) { // the other process locks the file which this one has just created
			FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr; unlink(path.c_str()); pid_t h = 0; g_open_hook = [&](const char* p, int f, int r) { if (r >= 0 && (f & O_CREAT) && !h) { o.note("another process locks the new file first, and lets go when this one has slept three times"); h = holder(p, F_WRLCK, 500); } }; int slept = 0; g_sleep_hook = [&] { if (h && ++slept == 3) { end(h); h = 0; } }; bool x = FlShm::InitializeShm(); g_open_hook = nullptr; g_sleep_hook = nullptr; if (h) end(h); o.check(x, "P12", "the creator fails when another process locks the new file first"); if (o.bad) return; S e = layout(k, fsz(path)); o.check(e.empty(), "P12", e); return; }
		int used = 1 + (int)g.below(1); for (int i = 0; i < used; i++) fullock_mutex_trylock(fmt("m%d", i).c_str()); size_t len = FlShm::pFlHead->flength; Bytes img((char*)FlShm::pShmBase, (char*)FlShm::pShmBase + len);
		if (what == 0) { // a forked child counts as a user
			FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr; path = g_scratch + "/child.shm"; unlink(path.c_str()); FlShm::ShmPath() = path; o.check(FlShm::InitializeShm(), "P12", "cannot initialise a new file"); if (o.bad) return;
			int p[2], q[2]; if (pipe(p) || pipe(q)) return; pid_t ch = fork(); if (ch == 0) { if (write(q[1], "r", 1) < 0) {} char b; if (__real_read(p[0], &b, 1) < 0) {} _exit(0); } char b; if (__real_read(q[0], &b, 1) < 0) {}
			int fd = (int)syscall(SYS_open, path.c_str(), O_RDWR, 0); struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK; fl.l_whence = SEEK_SET; fl.l_len = 1; fcntl(fd, F_GETLK, &fl); o.note("forked a child, asked who uses the file"); o.check(fl.l_type != F_UNLCK, "P12", "a forked child does not count as a user of the shared area"); if (write(p[1], "x", 1) < 0) {} end(ch); return; }
		FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr; pid_t h = holder(path, F_RDLCK, -1); Counts k2 = rc(g); setc(k2);
		if (what == 1) { o.note("attaches with other counts " + ks(k2) + " while another process uses the area"); bool x = FlShm::InitializeShm(); o.check(x, "P12", "cannot attach the existing area"); if (!o.bad) { o.check(FlShm::pFlHead->flength == len, "P12", fmt("attached size %zu, the area has %zu", (size_t)FlShm::pFlHead->flength, len)); o.check(fsz(path) >= len, "P12", "the file shrank"); } if (!o.bad) o.check(!memcmp(img.data(), FlShm::pShmBase, len), "P12", "the area in use by another process was changed by attaching"); }
		else { int fd = (int)syscall(SYS_open, path.c_str(), O_RDWR, 0); (void)fd; long ver = FLCK_FILE_VERSION + 1 + (long)g.below(3); end(h); { int f2 = (int)syscall(SYS_open, path.c_str(), O_RDWR, 0); void* m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, f2, 0); ((PFLHEAD)m)->version = ver; munmap(m, 4096); } h = holder(path, F_RDLCK, -1); o.note("attaches an area of a newer version"); bool x = FlShm::InitializeShm(); o.check(!x && FlShm::ShmFd == -1 && !FlShm::pShmBase, "P12", "an area of a newer version is attached"); img[0] = 0; }
		end(h); });
}, "an area in use is attached as it is and at its size, a newer one refused, a lost race for a new file is no failure, children count as users");

// ---------------------------------------------------------------- P13
static const char* ENVS[] = {"FLCKAUTOINIT", "FLCKROBUSTMODE", "FLCKNOMAPMODE", "FLCKFREEUNITMODE", "FLCKROBUSTCHKCNT", "FLCKUMASK", "FLCKFILECNT", "FLCKOFFETCNT", "FLCKLOCKERCNT", "FLCKNMTXCNT", "FLCKNCONDCNT", "FLCKWAITERCNT"};
static const long LIM[6][3] = {{128, 1, 2048}, {8192, 4, 16384}, {8192, 4, 16384}, {256, 1, 8192}, {256, 1, 8192}, {8192, 4, 16384}};
static size_t* CNT(int i) { size_t* p[] = {&FlShm::FileLockAreaCount, &FlShm::OffLockAreaCount, &FlShm::LockerAreaCount, &FlShm::NMtxAreaCount, &FlShm::NCondAreaCount, &FlShm::WaiterAreaCount}; return p[i]; }
static Reg r_cf("config", "P13", 300, 6000, [](const Ctx& c) {
	area({4, 8, 8, 4, 4, 8});
	return isolated("settings from the environment, by reinitialisation and by the setters", "P13", 60, [&](Out& o) {
		Rng g(c.seed); std::map<S, S> env; S dir = g_scratch + "/cf"; mkdir(dir.c_str(), 0755); env["FLCKDIRPATH"] = dir; env["FLCKFILENAME"] = "env.shm"; env["FLCKROBUSTMODE"] = "NO"; 
		static const char* words[] = {"", "NO", "no", "YES", "Yes", "HIGH", "high", "LOW", "ALLOW", "DENY", "allow_retry", "DENY_RETRY", "ALLOW_NORETRY", "DENY_NORETRY", "FD", "OFFSET", "offset", "ALWAYS", "NOO", "F", "HIGHER", "DENY_", "OF", "0", "1", "2"};
		static const char* nums[] = {"", "0", "1", "3", "4", "5", "49", "50", "51", "5000", "2048", "2049", "8192", "8193", "16384", "16385", "-1", "-5", "4294967297", "007", "022", "0777", "0776", "0x10", "18z", "z", "511", "510", "512", " 7", "64"};
		g_getenv = [&](const char* n) -> const char* { auto i = env.find(n); return i == env.end() ? nullptr : i->second.c_str(); };
		if (g.chance(1, 2)) { // environment
			bool au = true; int rm = 2, nm = 0, fm = 1, rl = 5000; mode_t um = 0; size_t ct[6]; for (int i = 0; i < 6; i++) ct[i] = LIM[i][0];
			for (int i = 0; i < 12; i++) if (g.chance(1, 2)) env[ENVS[i]] = i < 4 ? words[g.below(sizeof words / sizeof *words)] : nums[g.below(sizeof nums / sizeof *nums)];
			if (g.chance(1, 3)) { rm = 0; rl = 5000; }
			FlShm::IsAutoInitialize = au; FlShm::RobustMode = (FlShm::ROBUSTMODE)rm; FlShm::NomapMode = (FlShm::NOMAPMODE)nm; FlShm::FreeUnitMode = (FlShm::FREEUNITMODE)fm; FlShm::RobustLoopCnt = rl; FlShm::ShmFileUmask = um; for (int i = 0; i < 6; i++) *CNT(i) = ct[i];
			auto has = [&](const char* n) { return env.count(n) > 0; }; auto is = [&](const char* n, const char* v) { return has(n) && !strcasecmp(env[n].c_str(), v); };
			if (is("FLCKAUTOINIT", "NO")) au = false; else if (is("FLCKAUTOINIT", "YES")) au = true;
			const char* rs[] = {"NO", "LOW", "HIGH"}; for (int i = 0; i < 3; i++) if (is("FLCKROBUSTMODE", rs[i])) rm = i; const char* ns[] = {"ALLOW_NORETRY", "DENY_NORETRY", "ALLOW_RETRY", "DENY_RETRY"}; for (int i = 0; i < 4; i++) if (is("FLCKNOMAPMODE", ns[i])) nm = i; if (is("FLCKNOMAPMODE", "ALLOW")) nm = 0; if (is("FLCKNOMAPMODE", "DENY")) nm = 1;
			const char* fs[] = {"NO", "FD", "OFFSET"}; for (int i = 0; i < 3; i++) if (is("FLCKFREEUNITMODE", fs[i])) fm = i; if (is("FLCKFREEUNITMODE", "ALWAYS")) fm = 1;
			if (has("FLCKROBUSTCHKCNT") && atoi(env["FLCKROBUSTCHKCNT"].c_str()) >= 50) rl = atoi(env["FLCKROBUSTCHKCNT"].c_str());
			if (has("FLCKUMASK")) { const char* s = env["FLCKUMASK"].c_str(); char* e; errno = 0; long v = strtol(s, &e, 0); if (*s && !*e && !errno && v >= 0 && v < 0777) um = (mode_t)v; }
			for (int i = 0; i < 6; i++) if (has(ENVS[6 + i])) { size_t v = (size_t)atoi(env[ENVS[6 + i]].c_str()); if ((size_t)LIM[i][1] <= v && v <= (size_t)LIM[i][2]) ct[i] = v; }
			S d; for (auto& kv : env) d += kv.first + "='" + kv.second + "' "; o.note("environment " + d); o.check(FlShm::LoadEnv(), "P13", "the environment is refused");
			auto eq = [&](long got, long want, const char* n) { o.check(got == want, "P13", fmt("%s is %ld, the environment says %ld", n, got, want)); }; eq(FlShm::IsAutoInitialize, au, "automatic initialisation"); eq(FlShm::RobustMode, rm, "the robust mode"); eq(FlShm::NomapMode, nm, "the mode without area"); eq(FlShm::FreeUnitMode, fm, "the reuse mode"); eq(FlShm::RobustLoopCnt, rl, "the robust check count"); eq(FlShm::ShmFileUmask, um, "the umask"); for (int i = 0; i < 6; i++) eq(*CNT(i), ct[i], ENVS[6 + i]); eq(FlShm::ShmDirPath() == dir, 1, "the directory"); eq(FlShm::ShmFileName() == "env.shm", 1, "the file name"); return; }
		if (g.chance(1, 3)) { // setters
			static const int modes[] = {0, 1, 2}; for (int n = 0; n < 30 && !o.bad; n++) { int rm = FlShm::RobustMode, nm = FlShm::NomapMode, fm = FlShm::FreeUnitMode, rl = FlShm::RobustLoopCnt; bool ret = true, exp = true; int k = (int)g.below(11); int v = 0; (void)modes;
				switch (k) { case 0: ret = fullock_set_no_robust(); rm = 0; break; case 1: ret = fullock_set_low_robust(); rm = 1; break; case 2: ret = fullock_set_high_robust(); rm = 2; if (rl < 50) rl = 5000; break; case 3: ret = fullock_set_noretry_allow_nomap(); nm = 0; break; case 4: ret = fullock_set_noretry_deny_nomap(); nm = 1; break; case 5: ret = fullock_set_retry_allow_nomap(); nm = 2; break; case 6: ret = fullock_set_retry_deny_nomap(); nm = 3; break; case 7: ret = fullock_set_no_freeunit(); fm = 0; break; case 8: ret = fullock_set_fd_freeunit(); fm = 1; break; case 9: ret = fullock_set_offset_freeunit(); fm = 2; break; default: { static const int vs[] = {-7, -1, 0, 1, 49, 50, 51, 100, 70000}; v = vs[g.below(9)]; ret = fullock_set_robust_check_count(v); exp = rm == 2 && v >= 50; if (exp) rl = v; } }
				o.note(fmt("setter %d value %d = %d", k, v, ret)); o.check(ret == exp && FlShm::RobustMode == rm && FlShm::NomapMode == nm && FlShm::FreeUnitMode == fm && FlShm::RobustLoopCnt == rl, "P13", fmt("setter %d (value %d) answers %d; robust %d no-area %d reuse %d count %d, expected %d %d %d %d", k, v, ret, FlShm::RobustMode, FlShm::NomapMode, FlShm::FreeUnitMode, FlShm::RobustLoopCnt, rm, nm, fm, rl)); } return; }
		// reinitialisation
		if (g.chance(1, 3)) for (int i = 6; i < 12; i++) if (g.chance(1, 3)) env[ENVS[i]] = fmt("%ld", LIM[i - 6][1] + 1 + (long)g.below(20)); 
		for (int n = 0; n < 4 && !o.bad; n++) { size_t a[6], want[6]; bool ok = true; for (int i = 0; i < 6; i++) { long lo = LIM[i][1], hi = LIM[i][2]; switch (g.below(n & 1 ? 7 : 4)) { case 0: a[i] = 0; break; case 1: a[i] = lo; break; case 2: a[i] = lo + g.below(40); break; case 3: a[i] = g.chance(1, 3) ? hi : lo + 1; break; case 4: a[i] = hi + 1; break; case 5: a[i] = lo > 1 ? lo - 1 : (size_t)-1; break; default: a[i] = lo; } if (a[i] && (a[i] < (size_t)lo || a[i] > (size_t)hi)) ok = false; want[i] = a[i] ? a[i] : env.count(ENVS[6 + i]) ? (size_t)atol(env[ENVS[6 + i]].c_str()) : (size_t)LIM[i][0]; }
			bool badname = g.chance(1, 8), baddir = g.chance(1, 10); S fn = badname ? "a/b" : fmt("r%d.shm", n), dn = baddir ? "/../x" : dir; ok = ok && !badname && !baddir; int fd0 = FlShm::ShmFd; void* b0 = FlShm::pShmBase; size_t c0[6]; for (int i = 0; i < 6; i++) c0[i] = *CNT(i);
			bool x = fullock_reinitialize_ex(dn.c_str(), fn.c_str(), a[0], a[1], a[2], a[3], a[4], a[5]); S d = fmt("reinitialise(%s,%s,%zu,%zu,%zu,%zu,%zu,%zu)", dn.c_str(), fn.c_str(), a[0], a[1], a[2], a[3], a[4], a[5]); o.note(d + fmt(" = %d", x)); o.check(x == ok, "P13", d + fmt(" answers %d", x)); if (o.bad) return;
			if (!ok) { o.check(FlShm::ShmFd == fd0 && FlShm::pShmBase == b0, "P13", d + ": the area was torn down"); for (int i = 0; i < 6; i++) o.check(*CNT(i) == c0[i], "P13", d + ": a count was changed"); }
			else { for (int i = 0; i < 6; i++) o.check(*CNT(i) == want[i], "P13", d + fmt(": count %d is %zu, expected %zu", i, *CNT(i), want[i])); o.check(FlShm::ShmPath() == dir + "/" + fn, "P13", d + ": attached at " + FlShm::ShmPath()); Counts k = {want[0], want[1], want[2], want[3], want[4], want[5]}; S e = layout(k, fsz(FlShm::ShmPath())); o.check(e.empty(), "P13 P12", d + ": " + e); } } });
}, "exact models of the environment, of the setters, and of reinitialisation with counts inside and outside the limits");
static Reg r_nu("numbers", "P13", 2000, 40000, [](const Ctx& c) {
	Rng g(c.seed); Result r; r.evals = 1; static const char al[] = "0123456789xXabcf+- \tz.L7"; S s; size_t n = g.below(8); for (size_t i = 0; i < n; i++) s += al[g.chance(1, 2) ? g.below(10) : g.below(sizeof al - 1)]; if (g.chance(1, 10)) s = fmt("%s%lu%s", g.chance(1, 2) ? "-" : "", (ul)g.next(), g.chance(1, 3) ? "0" : "");
	char* e; errno = 0; long v = strtol(s.c_str(), &e, 0); bool ok = !s.empty() && e != s.c_str() && !*e && errno != ERANGE; long got = 123; bool x = CvtNumberStringToLong(s.c_str(), &got); r.desc = "'" + s + "'"; r.log.push_back("'" + s + "'"); if (x != ok || (x && got != v)) r.fails.push_back({"P13", fmt("number string '%s' answers %d, value %ld; expected %d, %ld", s.c_str(), x, got, ok, v)}); return r;
}, "a number string is accepted exactly when all of it is a number that fits");
int special(const S& what, const S& dir) {		// in a process of its own, nothing called before
	if (what == "reinit-first") { setenv("FLCKDIRPATH", (dir + "/envdir").c_str(), 1); setenv("FLCKROBUSTMODE", "NO", 1); bool x = fullock_reinitialize_ex(dir.c_str(), "first.shm", 3, 5, 6, 2, 2, 7); if (!x) return 10; if (FlShm::ShmPath() != dir + "/first.shm") return 11; return layout({3, 5, 6, 2, 2, 7}, fsz(FlShm::ShmPath())).empty() ? 0 : 12; }
	if (what == "touch") { int fd = (int)syscall(SYS_open, dir.c_str(), O_RDONLY, 0); return fd < 0; }
	return 99;
}
static int run_special(const S& what, const S& dir) { pid_t k = (pid_t)syscall(SYS_fork); if (k == 0) { execl("/proc/self/exe", "harness", "--special", what.c_str(), dir.c_str(), (char*)nullptr); _exit(98); } int st = 0; waitpid(k, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + st; }
static Reg r_rf("reinit-first", "P13", 2, 4, [](const Ctx&) { S d = g_scratch + "/rf"; mkdir(d.c_str(), 0755); return isolated("reinitialisation is the first call of the process", "P13", 30, [&](Out& o) { int x = run_special("reinit-first", d); o.note(fmt("fullock_reinitialize_ex as first call: status %d", x)); o.check(x == 0, "P13", fmt("reinitialisation as the very first call %s", x == 10 ? "fails" : x == 11 ? "attaches another file" : fmt("ends with status %d", x).c_str())); }); }, "works as the first call of a process");

// ---------------------------------------------------------------- P16
static void mark_dead(PFLHEAD) { // a mutex of a thread that does not exist
	FlShm s; fullock_mutex_unlock("w"); fullock_mutex_trylock("w"); for (FLNAMEDMUTEX* m = to_abs(FlShm::pFlHead->named_mutex_list); m; m = to_abs(m->next)) if (!strcmp(m->name, "w")) { m->lockval = ((u64)0x3fffffff << 32) | 0x3fffffff; m->lockcnt = 1; } }
static u64 owner() { for (FLNAMEDMUTEX* m = to_abs(FlShm::pFlHead->named_mutex_list); m; m = to_abs(m->next)) if (!strcmp(m->name, "w")) return m->lockval; return 0; }
static bool soon(const std::function<bool()>& f, const std::function<void()>& again = nullptr) { for (int i = 0; i < 4000; i++) { if (f()) return true; if (again && i % 40 == 0) again(); usleep(5000); } return false; }
static int tasks() { int n = 0; for (int i = 0; i < 1; i++) { std::ifstream f("/proc/self/status"); S l; while (std::getline(f, l)) if (l.compare(0, 8, "Threads:") == 0) n = atoi(l.c_str() + 8); } return n; }
static Reg r_wk("worker", "P16 P06", 10, 60, [](const Ctx& c) {
	area({4, 8, 8, 4, 4, 8});
	return isolated("the recovery worker", "P16", 120, [&](Out& o) {
		Rng g(c.seed); FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr; FlShm::RobustMode = g.chance(1, 2) ? FlShm::ROBUST_HIGH : FlShm::ROBUST_LOW; S path = FlShm::ShmPath();
		o.check(FlShm::InitializeShm() && FlShm::pCheckPidThread, "P16", "no worker is made in robust mode"); if (o.bad) return;
		auto works = [&](const char* who) { mark_dead(FlShm::pFlHead); o.note(fmt("%s: another process closes the shared file while a dead thread owns a mutex", who)); if (owner() == 0) return; bool x = soon([] { return owner() == 0; }, [&] { run_special("touch", path); }); o.check(x, "P16 P06", fmt("%s: no recovery pass within 20 s of a close of the shared file", who)); };
		usleep(20000); works("parent"); if (o.bad) return; works("parent again"); if (o.bad) return;
		int what = (int)((c.seed / 7) % 3);
		if (what == 0) { o.note("stops and runs again"); o.check(FlShm::pCheckPidThread->Stop(), "P16", "the worker cannot be stopped"); o.check(!FlShm::pCheckPidThread->Stop(), "P16", "a stopped worker is stopped again"); o.check(FlShm::pCheckPidThread->Run(), "P16", "a stopped worker cannot be run"); o.check(!FlShm::pCheckPidThread->Run(), "P16", "a running worker is run again"); works("after stop and run"); }
		if (what == 1) { o.note("forks"); int p[2]; if (pipe(p)) return; int nh = 1 + (int)g.below(2); for (int i = 0; i < nh; i++) { o.note("reinitialises the area"); FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr; o.check(FlShm::InitializeShm(), "P16", "cannot initialise again"); }
			pid_t k = fork(); if (k == 0) { Out q; q.fd = o.fd; alarm(60); bool two = soon([] { return tasks() >= 2; }); q.check(two, "P16", "a forked child has no worker"); if (two) { mark_dead(FlShm::pFlHead); u64 dead = owner(); (void)dead; q.check(FlShm::pCheckPidThread && FlShm::pCheckPidThread->thflag == FlckThread::FLCK_THCNTL_RUN, "P16", "the worker of a forked child is not running"); usleep(30000); q.check(tasks() == 2, "P16", fmt("a forked child has %d threads instead of its own and one worker", tasks())); } bool e = FlShm::pCheckPidThread->Exit(); q.check(e, "P16", "the child's worker cannot be ended"); q.check(soon([] { return tasks() == 1; }), "P16", "the child's worker still runs after its end"); _exit(q.bad); }
			int st = 0; waitpid(k, &st, 0); o.check(WIFEXITED(st) && !WEXITSTATUS(st), "P16", fmt("forked child: status 0x%x", st)); works("parent after forking"); }
		o.note("ends the worker"); FlckThread* t = FlShm::pCheckPidThread; o.check(t->Exit(), "P16", "the worker cannot be ended"); o.check(soon([] { return tasks() == 1; }), "P16", "the worker still runs after its end"); o.check(t->thflag == FlckThread::FLCK_THCNTL_FIN || t->thflag == FlckThread::FLCK_THCNTL_EXIT, "P16", "the control state after the end is not finished"); o.check(!t->Run() && !t->Stop(), "P16", "an ended worker can be run or stopped"); });
}, "closes cause recovery passes; stop, run, fork and exit leave the worker as asked");
// the control flag against a change between the test and the atomic step
extern std::function<void(void*)> g_at_hook;
static Reg r_fl("control-flag", "P16", 40, 400, [](const Ctx& c) {
	Result r; r.evals = 1; Rng g(c.seed); FlckThread t; typedef FlckThread::THCNTLFLAG FG; bool run = g.chance(1, 2); t.is_run_worker = true; t.thflag = run ? FlckThread::FLCK_THCNTL_STOP : FlckThread::FLCK_THCNTL_RUN; FG to = g.chance(1, 2) ? FlckThread::FLCK_THCNTL_EXIT : FlckThread::FLCK_THCNTL_FIN; int at = 1 + (int)g.below(2); int n = 0;
	g_at_hook = [&](void* a) { if (a == (void*)&t.thflag && ++n == at) *(volatile FG*)&t.thflag = to; }; if (run) t.Run(); else t.Stop(); g_at_hook = nullptr; FG end = t.thflag; t.is_run_worker = false; r.desc = fmt("%s while the worker gets to state %d before atomic step %d", run ? "run" : "stop", to, at); r.log.push_back(r.desc + fmt(": state %d", end));
	if (n >= at && end < to) r.fails.push_back({"P16", fmt("the control state goes back from %d to %d", to, end)}); return r;
}, "run and stop never take the state back from exit or finished");

// ---------------------------------------------------------------- P17 P14 are not claimed; their replays live here for the proofs' use
static S norm(const S& in, bool& ok) { std::vector<S> st; ok = true; size_t i = 0; bool slash = !in.empty() && in.back() == '/'; while (i < in.size()) { size_t j = in.find('/', i); if (j == S::npos) j = in.size(); S l = in.substr(i, j - i); i = j + 1; if (l.empty() || l == ".") continue; if (l == "..") { if (st.empty()) { ok = false; return ""; } st.pop_back(); continue; } st.push_back(l); } S r; for (auto& x : st) r += "/" + x; if (slash || r.empty()) r += "/"; return r; }
static Reg r_pa("paths", "P17", 3000, 60000, [](const Ctx& c) {
	Rng g(c.seed); Result r; r.evals = 1; S s = g.chance(5, 6) ? "/" : ""; static const char* leaf[] = {"a", "bb", ".", "..", "...", "..x", ".y", "", "c d", "x."}; int n = (int)g.below(9); for (int i = 0; i < n; i++) { s += leaf[g.below(10)]; if (i + 1 < n || g.chance(1, 2)) s += "/"; }
	if (s.empty()) return r; char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return r; bool ok; S want = norm(s[0] == '/' ? s : S(cwd) + "/" + s, ok); S got = "?"; bool x = GetRealPath(s.c_str(), got); r.desc = "'" + s + "'"; r.log.push_back(r.desc);
	if (x != ok) r.fails.push_back({"P17", fmt("path '%s' answers %d, expected %d", s.c_str(), x, ok)}); else if (x && got != want) r.fails.push_back({"P17", fmt("path '%s' becomes '%s', expected '%s'", s.c_str(), got.c_str(), want.c_str())}); else if (x) { S b; if (!GetRealPath(got.c_str(), b) || b != got) r.fails.push_back({"P17", fmt("normalising '%s' again gives '%s'", got.c_str(), b.c_str())}); } return r;
}, "an exact normaliser");
