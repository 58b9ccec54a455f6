// Deterministic scheduler over the real library code (bounded stand-in and replay engine).
// The library is compiled with clang -fsanitize=thread; this harness supplies the __tsan_* entry points and so
// gets control at every access to the shared area.  Virtual threads are coroutines with their own pid/tid/fds.
#pragma once
#include <ucontext.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <signal.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <fstream>
#define private public
#define protected public
#include "flckcommon.h"
#include "flckstructure.h"
#include "flckpidcache.h"
#include "flcklocktype.h"
#include "flckthread.h"
#include "flckshm.h"
#include "flckutil.h"
#include "fullock.h"
#include "rwlockrcsv.h"
#undef private
#undef protected

typedef uint64_t u64;
typedef std::string S;

struct FileId { dev_t dev; ino_t ino; };
struct Proc { int pid; std::set<int> tids; std::map<int, FileId> fds; bool eacces = false; };

struct VT {
	int id; Proc* proc; int tid;
	ucontext_t ctx; char* stack;
	std::function<void(VT&)> body;
	bool done = false, dead = false;
	std::map<pthread_key_t, const void*> tsd;
	// per operation
	S op; long op_steps = 0, op_yields = 0; bool in_api = false; bool blocked = false;
	u64 clk_first = 0, clk_last = 0; long clk_n = 0, clk_after = 0; u64 op_limit = 0; u64 op_t0 = 0;
	int prio = 0; bool parked = false; long park_at = 0;	// parks before its park_at-th access
	bool last_yield_was_sched = false;
	u64 flid() const { return ((u64)proc->pid << 32) | (u64)(uint32_t)tid; }
};

struct Fail { S props, msg; };
struct HangEx {};

enum Strat { SEQ = 0, RND2, RND8, RND40, PCT };

struct Rng { u64 s; explicit Rng(u64 x = 1) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
	u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
	u64 below(u64 n) { return n ? (next() >> 11) % n : 0; }
	bool chance(int num, int den) { return (int)below(den) < num; } };

struct Sim {
	std::vector<VT*> vts; std::vector<Proc*> procs; VT* cur = nullptr; ucontext_t main;
	Rng rng; Strat strat = SEQ; long steps = 0, budget = 400000; u64 vclk = 0; bool clkfail = false;
	std::vector<Fail> fails; std::vector<S> log; bool logging = true; bool hang = false; bool stop = false;
	int pct_next = 0; std::set<long> pct_points; bool monitor = true;
	long switches = 0;
	std::function<void(VT&)> on_sched_yield;
	Proc* newproc(int pid) { Proc* p = new Proc; p->pid = pid; procs.push_back(p); return p; }
	VT* spawn(Proc* p, int tid, std::function<void(VT&)> b);
	void run();              // until all VTs are done/dead, or stop/hang
	void reset(u64 seed, Strat s);
	void yield_point(bool sched);
	void to_sched();
	void fail(const S& props, const S& msg) { fails.push_back({props, msg}); note("FAIL[" + props + "] " + msg); stop = true; }
	void note(const S& s) { if (logging && log.size() < 4000) log.push_back(s); }
	void kill_thread(VT* v);      // thread ends without releasing anything
	void kill_proc(Proc* p);
	bool alive_id(u64 id);        // packed owner id
	Proc* find(int pid) { for (auto p : procs) if (p->pid == pid) return p; return nullptr; }
	~Sim();
	void clear();
};
extern Sim* SIM;

S fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- shared area helpers
struct Counts { size_t file, off, locker, nmtx, ncond, waiter; };
bool shm_setup(const Counts& c);       // fresh area with these counts in the scratch dir
S shm_walk(bool quiescent, Counts* freec, Counts* usedc);  // "" or what is inconsistent
void* shm_lo(); void* shm_hi();
extern S g_scratch;
extern Counts g_counts;

// ---- test registry
struct Ctx { u64 seed; long iter; S prop; bool thorough; };
struct Result { std::vector<Fail> fails; std::vector<S> log; long evals = 0; S desc; };
typedef std::function<Result(const Ctx&)> TestFn;
struct Test { S name; S props; long quick, thorough; TestFn fn; S rule; };
std::vector<Test>& tests();
struct Reg { Reg(const char* n, const char* p, long q, long t, TestFn f, const char* rule) { tests().push_back({n, p, q, t, f, rule}); } };
