#include "sim.h"
#include <stdarg.h>
#include <sys/syscall.h>
Sim* SIM = nullptr; std::function<void(void*)> g_at_hook; std::function<void()> g_sleep_hook;
S g_scratch; Counts g_counts;
S fmt(const char* f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::vector<Test>& tests() { static std::vector<Test> t; return t; }

static const size_t STK = 256 * 1024;
static std::vector<char*> stack_pool;
static char* get_stack() { if (stack_pool.empty()) { void* p = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return (char*)p; } char* p = stack_pool.back(); stack_pool.pop_back(); return p; }

static void tramp(unsigned lo, unsigned hi) {
	VT* v = (VT*)(((u64)hi << 32) | lo);
	v->body(*v);
	v->done = true; v->proc->tids.erase(v->tid);
	SIM->note(fmt("t%d done", v->id));
	SIM->cur = nullptr;
	swapcontext(&v->ctx, &SIM->main);
	abort();
}
VT* Sim::spawn(Proc* p, int tid, std::function<void(VT&)> b) {
	VT* v = new VT; v->id = (int)vts.size(); v->proc = p; v->tid = tid; v->body = b; v->stack = get_stack(); p->tids.insert(tid);
	getcontext(&v->ctx); v->ctx.uc_stack.ss_sp = v->stack; v->ctx.uc_stack.ss_size = STK; v->ctx.uc_link = nullptr;
	makecontext(&v->ctx, (void (*)())tramp, 2, (unsigned)(u64)v, (unsigned)((u64)v >> 32));
	v->prio = 1000 + (int)rng.below(1000);
	vts.push_back(v); return v;
}
void Sim::clear() { for (auto v : vts) { stack_pool.push_back(v->stack); delete v; } vts.clear(); for (auto p : procs) delete p; procs.clear(); cur = nullptr; }
Sim::~Sim() { clear(); }
void Sim::reset(u64 seed, Strat s) { clear(); rng = Rng(seed); strat = s; steps = 0; switches = 0; hang = stop = false; fails.clear(); log.clear(); vclk = (u64)(100 + rng.below(1000)) * 1000000000ULL + (rng.chance(1, 2) ? 999990000ULL : rng.below(1000000000ULL)); pct_points.clear(); clkfail = false; on_sched_yield = nullptr;
	if (s == PCT) { for (int i = 0; i < 4; i++) pct_points.insert((long)rng.below(1500)); } }
bool Sim::alive_id(u64 id) { Proc* p = find((int)(id >> 32)); return p && p->tids.count((int)(id & 0xffffffff)); }
void Sim::kill_thread(VT* v) { v->dead = true; v->proc->tids.erase(v->tid); note(fmt("t%d killed in [%s]", v->id, v->op.c_str())); }
void Sim::kill_proc(Proc* p) { for (auto v : vts) if (v->proc == p && !v->done) v->dead = true; p->tids.clear(); p->fds.clear(); note(fmt("process %d killed", p->pid)); }
void Sim::to_sched() { VT* v = cur; cur = nullptr; swapcontext(&v->ctx, &main); cur = v; }
void Sim::yield_point(bool sched) {
	VT* v = cur; v->op_steps++; steps++;
	if (sched) v->op_yields++;
	if (stop || steps > budget) { if (!stop) { hang = true; stop = true; } to_sched(); return; }
	if (v->park_at && v->op_steps >= v->park_at) { v->parked = true; to_sched(); return; }
	bool sw = false;
	v->last_yield_was_sched = sched;
	if (sched || (v->op_steps % 1500) == 1499) { sw = true; if (strat == PCT) v->prio = pct_next--; }
	else switch (strat) {
		case SEQ: break;
		case RND2: sw = rng.chance(1, 2); break;
		case RND8: sw = rng.chance(1, 8); break;
		case RND40: sw = rng.chance(1, 40); break;
		case PCT: if (pct_points.count(steps)) { v->prio = pct_next--; sw = true; } break;
	}
	if (sw) to_sched();
}
void Sim::run() {
	pct_next = 500;
	VT* last = nullptr;
	while (!stop) {
		std::vector<VT*> r; for (auto v : vts) if (!v->done && !v->dead && !v->parked) r.push_back(v);
		if (r.empty()) break;
		VT* n = nullptr;
		if (strat == PCT) { for (auto v : r) if (!n || v->prio > n->prio) n = v; }
		else if (strat == SEQ) { // round robin among the others at a blocking point
			size_t i = 0; for (; i < r.size(); i++) if (last && r[i]->id > last->id) break; n = r[i < r.size() ? i : 0]; }
		else n = r[rng.below(r.size())];
		last = n; switches++;
		cur = n; swapcontext(&main, &n->ctx); cur = nullptr;
	}
}

void* shm_lo() { return FlShm::pShmBase; }
void* shm_hi() { return FlShm::pShmBase ? (char*)FlShm::pShmBase + FlShm::pFlHead->flength : nullptr; }
static char *c_lo, *c_hi;      // cached for the hooks
bool shm_setup(const Counts& c) {
	static bool env = false; if (!env) { env = true; setenv("FLCKDIRPATH", g_scratch.c_str(), 1); setenv("FLCKFILENAME", "first.shm", 1); setenv("FLCKROBUSTMODE", "NO", 1); }
	FlShm::ShmPath();		// the library initialises itself at first use
	FlShm::Destroy(); FlShm::pShmBase = nullptr; FlShm::pFlHead = nullptr;
	FlShm::RobustMode = FlShm::ROBUST_NO;
	FlShm::FileLockAreaCount = c.file; FlShm::OffLockAreaCount = c.off; FlShm::LockerAreaCount = c.locker; FlShm::NMtxAreaCount = c.nmtx; FlShm::NCondAreaCount = c.ncond; FlShm::WaiterAreaCount = c.waiter;
	g_counts = c; c_lo = c_hi = nullptr;
	FlShm::ShmPath() = g_scratch + "/sim.shm";
	unlink(FlShm::ShmPath().c_str());
	if (!FlShm::InitializeShm()) return false;
	c_lo = (char*)shm_lo(); c_hi = (char*)shm_hi();
	return true;
}

// ---- consistency of the whole area: every unit in exactly one place
template <typename T> static bool absl(T* rel, T*& out) { if (!rel) { out = nullptr; return true; } char* a = c_lo + (u64)rel; if (a < c_lo || a >= c_hi) return false; out = (T*)a; return true; }
S shm_walk(bool q, Counts* fc, Counts* uc) {
	PFLHEAD h = FlShm::pFlHead; Counts f = {0, 0, 0, 0, 0, 0}, u = f;
	std::map<void*, const char*> seen; S err;
	auto add = [&](void* p, const char* where) { if (!err.empty()) return false; if (seen.count(p)) { err = fmt("unit %p is in %s and in %s", p, seen[p], where); return false; } seen[p] = where; return true; };
	if (q && (h->file_lock_lockid || h->named_mutex_lockid || h->named_cond_lockid)) return "an internal list lock is left locked";
#define WALK(T, head, where, body) { T* p; T* rel = (T*)(head); long n = 0; while (rel) { if (!absl(rel, p)) return fmt("%s: link out of the area", where); if (!add(p, where)) return err; if (++n > 100000) return "endless list"; body; rel = p->next; } }
	WALK(FLFILELOCK, h->file_lock_free, "file free", f.file++);
	WALK(FLOFFLOCK, h->offset_lock_free, "offset free", f.off++);
	WALK(FLLOCKER, h->locker_free, "locker free", f.locker++);
	WALK(FLNAMEDMUTEX, h->named_mutex_free, "mutex free", f.nmtx++);
	WALK(FLNAMEDCOND, h->named_cond_free, "cond free", f.ncond++);
	WALK(FLWAITER, h->waiter_free, "waiter free", f.waiter++);
	std::vector<FLFILELOCK*> fls; std::vector<FLOFFLOCK*> ofs; std::vector<FLNAMEDCOND*> cds;
	WALK(FLFILELOCK, h->file_lock_list, "file list", (u.file++, fls.push_back(p)));
	for (auto x : fls) { WALK(FLOFFLOCK, x->offset_lock_list, "offset list", (u.off++, ofs.push_back(p))); if (q && x->protect) return "a file entry is left protected"; }
	for (auto x : ofs) { WALK(FLLOCKER, x->reader_list, "reader list", u.locker++); WALK(FLLOCKER, x->writer_list, "writer list", u.locker++); if (q && x->protect) return "an offset entry is left protected"; }
	WALK(FLNAMEDMUTEX, h->named_mutex_list, "mutex list", u.nmtx++);
	WALK(FLNAMEDCOND, h->named_cond_list, "cond list", (u.ncond++, cds.push_back(p)));
	for (auto x : cds) WALK(FLWAITER, x->waiter_list, "waiter list", u.waiter++);
	if (fc) *fc = f;
	if (uc) *uc = u;
	if (q) {
#define T_(m, n) if (f.m + u.m != g_counts.m) return fmt("%s units: %zu free + %zu in use != %zu", n, f.m, u.m, g_counts.m);
		T_(file, "file") T_(off, "offset") T_(locker, "locker") T_(nmtx, "mutex") T_(ncond, "cond") T_(waiter, "waiter")
		for (auto x : ofs) { int r = 0, w = 0; FLLOCKER* p; for (FLLOCKER* rel = x->reader_list; rel; rel = p->next) { absl(rel, p); r += p->locked; } for (FLLOCKER* rel = x->writer_list; rel; rel = p->next) { absl(rel, p); w += p->locked; }
			if (x->lockval != (w ? -1 : r) || w > 1) return fmt("offset entry: lock value %d with %d readers and %d writers recorded", x->lockval, r, w); }
	}
	return "";
}

// ---- word monitor: which internal lock protects an address, legal transitions of the lock words
static u64* guard_of(char* a, u64** word_kind) {
	static size_t nf, no, nl, nm, nc, nw; PFLHEAD h = (PFLHEAD)c_lo; *word_kind = nullptr;
	u64 off = a - c_lo; nf = g_counts.file; no = g_counts.off; nl = g_counts.locker; nm = g_counts.nmtx; nc = g_counts.ncond; nw = g_counts.waiter;
	u64 b = sizeof(FLHEAD); b = (b + 7) / 8 * 8;
	if (off < b) {
		if (a == (char*)&h->file_lock_lockid || a == (char*)&h->named_mutex_lockid || a == (char*)&h->named_cond_lockid) { *word_kind = (u64*)1; return nullptr; }
		if (a == (char*)&h->file_lock_list || a == (char*)&h->file_lock_free || a == (char*)&h->offset_lock_free || a == (char*)&h->locker_free) return &h->file_lock_lockid;
		if (a == (char*)&h->named_mutex_list || a == (char*)&h->named_mutex_free) return &h->named_mutex_lockid;
		if (a == (char*)&h->named_cond_list || a == (char*)&h->named_cond_free || a == (char*)&h->waiter_free) return &h->named_cond_lockid;
		return nullptr;
	}
#define RANGE(T, n) u64 e_##T = b + (sizeof(T) * n + 7) / 8 * 8; if (off < e_##T) { u64 fo = (off - b) % sizeof(T); (void)fo;
	RANGE(FLFILELOCK, nf) return &h->file_lock_lockid; } b = e_FLFILELOCK;
	RANGE(FLOFFLOCK, no) if (fo == offsetof(FLOFFLOCK, lockval)) return nullptr; return &h->file_lock_lockid; } b = e_FLOFFLOCK;
	RANGE(FLLOCKER, nl) if (fo == offsetof(FLLOCKER, locked)) return nullptr; return &h->file_lock_lockid; } b = e_FLLOCKER;
	RANGE(FLNAMEDMUTEX, nm) if (fo == offsetof(FLNAMEDMUTEX, lockval)) { *word_kind = (u64*)2; return nullptr; } if (fo == offsetof(FLNAMEDMUTEX, lockcnt)) return nullptr; return &h->named_mutex_lockid; } b = e_FLNAMEDMUTEX;
	RANGE(FLNAMEDCOND, nc) return &h->named_cond_lockid; } b = e_FLNAMEDCOND;
	RANGE(FLWAITER, nw) if (fo == offsetof(FLWAITER, lockstatus)) return nullptr; return &h->named_cond_lockid; }
	return nullptr;
}
static inline bool inshm(void* a) { return SIM && SIM->cur && (char*)a >= c_lo && (char*)a < c_hi; }
static void mon_write(void* a) {
	if (!SIM->monitor || SIM->stop) return; u64* k; u64* g = guard_of((char*)a, &k);
	if (g && *g != SIM->cur->flid()) SIM->fail("P08", fmt("t%d writes to the shared lists (offset %ld) in [%s] without having the list locked", SIM->cur->id, (long)((char*)a - c_lo), SIM->cur->op.c_str()));
}
static void mon_word(void* a, u64 o, u64 n) {
	if (!SIM->monitor || SIM->stop || o == n) return; u64* k; guard_of((char*)a, &k); u64 me = SIM->cur->flid();
	if (k == (u64*)1) { if (o != 0 && o != me && SIM->alive_id(o)) SIM->fail("P08 P06", fmt("t%d takes the internal list lock from a running thread in [%s]", SIM->cur->id, SIM->cur->op.c_str()));
		else if (n != 0 && n != me) SIM->fail("P08 P11", "the internal list lock gets the id of another thread"); }
	if (k == (u64*)2) { if (o != 0 && o != me && SIM->alive_id(o)) SIM->fail("P02 P06", fmt("t%d releases the mutex of a running thread in [%s]", SIM->cur->id, SIM->cur->op.c_str()));
		else if (n != 0 && n != me) SIM->fail("P02 P11", "a mutex gets the id of another thread"); }
}
#define YP(a) if (inshm(a)) SIM->yield_point(false)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* a) { YP(a); } void __tsan_write##n(void* a) { if (inshm(a)) { SIM->yield_point(false); mon_write(a); } } \
 void __tsan_unaligned_read##n(void* a) { __tsan_read##n(a); } void __tsan_unaligned_write##n(void* a) { __tsan_write##n(a); } \
 void __tsan_read_write##n(void* a) { __tsan_write##n(a); } void __tsan_unaligned_read_write##n(void* a) { __tsan_write##n(a); } \
 void __tsan_volatile_read##n(void* a) { __tsan_read##n(a); } void __tsan_volatile_write##n(void* a) { __tsan_write##n(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { YP(a); } void __tsan_write_range(void* a, unsigned long) { if (inshm(a)) { SIM->yield_point(false); mon_write(a); } }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (inshm(d)) { SIM->yield_point(false); mon_write(d); } else YP((void*)s); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (inshm(d)) { SIM->yield_point(false); mon_write(d); } else YP((void*)s); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (inshm(d)) { SIM->yield_point(false); mon_write(d); } return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T* a, int) { YP((void*)a); return *a; } \
 void __tsan_atomic##B##_store(volatile T* a, T v, int) { if (inshm((void*)a)) { SIM->yield_point(false); mon_write((void*)a); T o = *a; *a = v; mon_word((void*)a, (u64)o, (u64)v); } else *a = v; } \
 static T at_rmw_##B(volatile T* a, int op, T v) { bool m = inshm((void*)a); if (m) { SIM->yield_point(false); mon_write((void*)a); } T o = *a, n = op == 0 ? v : op == 1 ? (T)(o + v) : op == 2 ? (T)(o - v) : op == 3 ? (T)(o & v) : op == 4 ? (T)(o | v) : op == 5 ? (T)(o ^ v) : (T) ~(o & v); *a = n; if (m) mon_word((void*)a, (u64)o, (u64)n); return o; } \
 T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { return at_rmw_##B(a, 0, v); } T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { return at_rmw_##B(a, 1, v); } \
 T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { return at_rmw_##B(a, 2, v); } T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { return at_rmw_##B(a, 3, v); } \
 T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { return at_rmw_##B(a, 4, v); } T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { return at_rmw_##B(a, 5, v); } T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { return at_rmw_##B(a, 6, v); } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { bool m = inshm((void*)a); if (m) { SIM->yield_point(false); } else if (g_at_hook) g_at_hook((void*)a); T o = *a; if (o == c) { if (m && c != v) mon_write((void*)a); *a = v; if (m) mon_word((void*)a, (u64)o, (u64)v); } return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int x, int y) { T o = __tsan_atomic##B##_compare_exchange_val(a, *c, v, x, y); if (o == *c) return 1; *c = o; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, x, y); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- environment of a virtual thread
pid_t __real_getpid(); pid_t __real_gettid(); void* __real_pthread_getspecific(pthread_key_t); int __real_pthread_setspecific(pthread_key_t, const void*);
int __real_clock_gettime(clockid_t, struct timespec*); int __real_sched_yield(); int __real_stat(const char*, struct stat*); int __real_fstat(int, struct stat*); int __real_lstat(const char*, struct stat*); int __real_access(const char*, int); int __real_kill(pid_t, int); int __real_nanosleep(const struct timespec*, struct timespec*);
pid_t __wrap_getpid() { return SIM && SIM->cur ? SIM->cur->proc->pid : __real_getpid(); }
pid_t __wrap_gettid() { return SIM && SIM->cur ? SIM->cur->tid : (pid_t)syscall(SYS_gettid); }
void* __wrap_pthread_getspecific(pthread_key_t k) { if (SIM && SIM->cur) { auto i = SIM->cur->tsd.find(k); return i == SIM->cur->tsd.end() ? nullptr : (void*)i->second; } return __real_pthread_getspecific(k); }
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) { if (SIM && SIM->cur) { SIM->cur->tsd[k] = v; return 0; } return __real_pthread_setspecific(k, v); }
int __wrap_clock_gettime(clockid_t id, struct timespec* t) {
	if (!(SIM && SIM->cur)) return __real_clock_gettime(id, t);
	VT& v = *SIM->cur; if (SIM->clkfail && SIM->rng.chance(1, 6)) { errno = EINVAL; return -1; }
	SIM->vclk += SIM->rng.below(3000);
	if (v.clk_n++ == 0) v.clk_first = SIM->vclk;
	else if (v.op_limit && v.clk_last - v.clk_first >= v.op_limit) v.clk_after++;
	v.clk_last = SIM->vclk;
	if (id == CLOCK_MONOTONIC) { t->tv_sec = SIM->vclk / 1000000000ULL; t->tv_nsec = SIM->vclk % 1000000000ULL; }
	else { u64 w = SIM->rng.below(4000000000ULL) * 1000; t->tv_sec = w / 1000000000ULL; t->tv_nsec = w % 1000000000ULL; }	// wall clock: may jump
	return 0;
}
int __wrap_sched_yield() {
	if (!(SIM && SIM->cur)) return __real_sched_yield();
	VT& v = *SIM->cur; u64 j = v.op_limit ? v.op_limit / 3 + 1 : 2000;
	SIM->vclk += 1000 + SIM->rng.below(j);
	v.blocked = true; if (SIM->on_sched_yield) SIM->on_sched_yield(v);
	SIM->yield_point(true); v.blocked = false; return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (!(SIM && SIM->cur)) { if (g_sleep_hook) g_sleep_hook(); return __real_nanosleep(a, b); } SIM->vclk += a->tv_sec * 1000000000ULL + a->tv_nsec; SIM->yield_point(true); return 0; }
static int vstat(const char* p, struct stat* st, bool* handled) {
	int pid, x; *handled = false; if (!SIM || !SIM->cur) return 0; char tail; if (!strncmp(p, "/proc/", 6)) SIM->yield_point(false);
	if (sscanf(p, "/proc/%d/task/%d%c", &pid, &x, &tail) == 2) { *handled = true; Proc* q = SIM->find(pid); memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0555; if (q && q->tids.count(x)) return 0; errno = ENOENT; return -1; }
	if (sscanf(p, "/proc/%d/fd/%d%c", &pid, &x, &tail) == 2) { *handled = true; Proc* q = SIM->find(pid); memset(st, 0, sizeof *st); if (q && !q->tids.empty() && q->eacces) { errno = EACCES; return -1; }
		if (!q || q->tids.empty() || !q->fds.count(x)) { errno = ENOENT; return -1; } st->st_dev = q->fds[x].dev; st->st_ino = q->fds[x].ino; st->st_mode = S_IFREG | 0644; return 0; }
	if (sscanf(p, "/proc/%d%c", &pid, &tail) == 1) { *handled = true; Proc* q = SIM->find(pid); memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0555; if (q && !q->tids.empty()) return 0; errno = ENOENT; return -1; }
	return 0;
}
int __wrap_stat(const char* p, struct stat* st) { bool h; int r = vstat(p, st, &h); return h ? r : __real_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { bool h; int r = vstat(p, st, &h); return h ? r : __real_lstat(p, st); }
int __wrap_access(const char* p, int m) { bool h; struct stat st; int r = vstat(p, &st, &h); return h ? r : __real_access(p, m); }
int __wrap_kill(pid_t pid, int s) { if (SIM && SIM->cur) { Proc* q = SIM->find(pid); if (q && !q->tids.empty()) return 0; errno = ESRCH; return -1; } return __real_kill(pid, s); }
int __wrap_fstat(int fd, struct stat* st) { if (SIM && SIM->cur) { auto& m = SIM->cur->proc->fds; auto i = m.find(fd); if (i == m.end()) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_dev = i->second.dev; st->st_ino = i->second.ino; return 0; } return __real_fstat(fd, st); }
}
