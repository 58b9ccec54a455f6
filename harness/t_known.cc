// Recorded findings: each test replays the history of a known finding and prints KNOWN when the real code still
// shows it; every other deviation along the same histories is a failure.
#include "sim.h"
static const FileId KF[2] = {{21, 201}, {21, 202}};
template <typename T> static T* A(T* rel) { return rel ? (T*)((char*)FlShm::pShmBase + (u64)rel) : nullptr; }
static void known(std::set<S>& seen, const S& prop, const char* id, const S& txt) { if (seen.insert(prop + id).second) printf("KNOWN %s %s\n", id, txt.c_str()); }
static Result done(Sim& s, const S& d, long evals) { if (s.hang) s.fails.push_back({"P01 P05 P06 P07", "no progress: some request never returns"}); Result r; r.fails = s.fails; r.log = s.log; r.desc = d; r.evals = evals; SIM = nullptr; return r; }

// one coroutine acting as several threads one after another
struct Who { Proc* p; int tid; std::map<pthread_key_t, const void*> tsd; };
struct Many { VT& v; std::vector<Who> w; int cur = 0; Many(VT& v_, std::vector<Who> w_) : v(v_), w(w_) { use(0, true); } void use(int i, bool first = false) { if (!first) w[cur].tsd = v.tsd; cur = i; v.proc = w[i].p; v.tid = w[i].tid; v.tsd = w[i].tsd; } };

// overlapping ranges that are not equal: the entry first made decides, and is not extended
static Reg r_ov("overlap-findings", "P05 P09 P01", 1, 1, [](const Ctx& c) {
	Sim sim; SIM = &sim; std::set<S> seen; shm_setup({4, 8, 16, 2, 2, 2}); sim.reset(c.seed, SEQ); Proc* p[3]; for (int i = 0; i < 3; i++) { p[i] = sim.newproc(9000 + i); p[i]->fds[3] = KF[0]; p[i]->tids.insert(9100 + i); } long n = 0;
	bool k = false;
	sim.spawn(p[0], 9100, [&](VT& v) {
		Many m(v, {{p[0], 9100, {}}, {p[1], 9101, {}}, {p[2], 9102, {}}}); auto exp = [&](int got, int want, const char* props, const char* what) { n++; if (got != want) SIM->fail(props, fmt("%s answered %d, expected %d", what, got, want)); return !SIM->stop; };
		m.use(0); if (!exp(fullock_rwlock_rdlock(3, 0, 10), 0, "P01 P05", "first: rdlock [0,10)")) return;
		m.use(1); if (!exp(fullock_rwlock_rdlock(3, 5, 10), 0, "P01 P05", "second: rdlock [5,15)")) return;
		m.use(2); if (!exp(fullock_rwlock_trywrlock(3, 4, 3), EBUSY, "P01 P05", "third: trywrlock [4,7) under two read locks")) return;
		if (!exp(fullock_rwlock_trywrlock(3, 100, 5), 0, "P05", "third: trywrlock [100,105)")) return; exp(fullock_rwlock_unlock(3, 100, 5), 0, "P01", "unlock [100,105)");
		if (!fullock_rwlock_islocked(3, 12, 2)) { k = true; if (c.prop == "P09") known(seen, "P09", "overlap-beyond-entry", "islocked [12,14) answers no while another thread holds [5,15) recorded in the entry of [0,10)"); }
		int x = fullock_rwlock_trywrlock(3, 12, 8); n++;
		if (x == 0) { k = true; if (c.prop == "P05") known(seen, "P05", "overlap-beyond-entry", "trywrlock [12,20) is granted while another thread holds a read lock of [5,15) that was recorded in the entry of [0,10)");
			m.use(1); int y = fullock_rwlock_unlock(3, 5, 10); if (y == EINVAL) { if (c.prop == "P01") known(seen, "P01", "unlock-finds-other-entry", "unlock [5,15) is refused: the entry of [12,20) is found first, the hold recorded in the entry of [0,10) stays"); }
			m.use(2); exp(fullock_rwlock_unlock(3, 12, 8), 0, "P01", "unlock [12,20)"); m.use(1); if (y) exp(fullock_rwlock_unlock(3, 5, 10), 0, "P01", "unlock [5,15) after the other lock is gone"); m.use(0); exp(fullock_rwlock_unlock(3, 0, 10), 0, "P01", "unlock [0,10)"); }
		else { exp(x, EBUSY, "P05", "third: trywrlock [12,20)"); m.use(1); exp(fullock_rwlock_unlock(3, 5, 10), 0, "P01", "unlock [5,15)"); m.use(0); exp(fullock_rwlock_unlock(3, 0, 10), 0, "P01", "unlock [0,10)"); }
		if (SIM->stop) return;
		m.use(0); if (!exp(fullock_rwlock_rdlock(3, 0, 10), 0, "P01 P05", "first: rdlock [0,10)")) return;
		m.use(1); if (!exp(fullock_rwlock_rdlock(3, 5, 10), 0, "P01 P05", "second: rdlock [5,15)")) return;
		m.use(0); if (!exp(fullock_rwlock_unlock(3, 0, 10), 0, "P01", "unlock [0,10)")) return;
		m.use(2); if (fullock_rwlock_islocked(3, 0, 3) && c.prop == "P09") known(seen, "P09", "entry-outlives-its-range", "islocked [0,3) answers yes while only [5,15) is held, recorded in the entry of [0,10)");
		x = fullock_rwlock_trywrlock(3, 0, 3); n++; if (x == EBUSY) { if (c.prop == "P05") known(seen, "P05", "entry-outlives-its-range", "trywrlock [0,3) is refused while only [5,15) is held, recorded in the entry of [0,10)"); } else { exp(x, 0, "P05", "third: trywrlock [0,3)"); exp(fullock_rwlock_unlock(3, 0, 3), 0, "P01", "unlock [0,3)"); }
		m.use(1); exp(fullock_rwlock_unlock(3, 5, 10), 0, "P01", "unlock [5,15)"); m.use(0);
	});
	(void)k; sim.run(); if (!sim.stop) { S e = shm_walk(true, nullptr, nullptr); if (!e.empty()) sim.fails.push_back({"P05 P01", e}); }
	return done(sim, "overlapping, not equal ranges of one file", n);
}, "the recorded histories of overlapping ranges, and nothing else, deviate");

// a thread ends at any point inside a call; recovery gives back what it held
static Reg r_cw("crash-points", "P06 P07", 1, 4, [](const Ctx& c) {
	Result res; std::set<S> seen;
	static const char* OPS[] = {"rdlock", "wrlock", "unlock-r", "unlock-w", "mutex_lock", "mutex_unlock", "cond_wait"};
	for (int op = 0; op < 7; op++) for (int mode = 0; mode < 3; mode++) for (int oth = 0; oth < 3; oth++) {
		// oth 1: another thread holds a read lock of the range all along; 2: another one waits for a write lock
		if (oth == 1 && op != 0 && op != 2) continue; if (oth == 2 && op > 3) continue;
		bool again = true;
		for (long k = 1; again && k < 400; k++) {
			Sim sim; SIM = &sim; shm_setup({2, 4, 4, 2, 2, 2}); sim.reset(c.seed * 977 + op * 31 + k, SEQ); sim.budget = 300000; sim.logging = false; FlShm::FreeUnitMode = (FlShm::FREEUNITMODE)mode;
			Proc *p = sim.newproc(9500), *q = sim.newproc(9501); p->fds[3] = q->fds[3] = KF[0]; bool killed = false, fin = false; S state;
			VT* a = nullptr; VT* w = nullptr; bool wdone = false, held = false; long wy = 0;
			a = sim.spawn(p, 9600, [&](VT& v) {
				while (oth == 1 && !held && !SIM->stop) SIM->yield_point(true);
				int x = 0; if (op == 2) x = fullock_rwlock_rdlock(3, 0, 10); if (op == 3) x = fullock_rwlock_wrlock(3, 0, 10); if (op == 5 || op == 6) x = fullock_mutex_lock("M"); if (x) { SIM->fail("P01 P02", "lock"); return; }
				v.op = OPS[op]; v.op_steps = 0; v.park_at = k;
				switch (op) { case 0: fullock_rwlock_rdlock(3, 0, 10); break; case 1: fullock_rwlock_wrlock(3, 0, 10); break; case 2: case 3: fullock_rwlock_unlock(3, 0, 10); break; case 4: fullock_mutex_lock("M"); break; case 5: fullock_mutex_unlock("M"); break; case 6: fullock_cond_timedwait("C", "M", 1); break; }
				v.park_at = 0; fin = true; });
			sim.on_sched_yield = [&](VT& v) { if (&v == w) wy++; };
			if (oth == 2) w = sim.spawn(q, 9602, [&](VT& v) { while (!fin && !a->parked && !SIM->stop) SIM->yield_point(true); if (SIM->stop || fin) return; int x = fullock_rwlock_wrlock(3, 0, 10); if (SIM->stop) return; if (!x) x = fullock_rwlock_unlock(3, 0, 10); if (x && !SIM->stop) SIM->fail("P01", fmt("the waiting thread was answered %d", x)); wdone = true; });
			sim.spawn(q, 9601, [&](VT& v) {
				// runs the other thread step by step until its k-th access, then ends it there
				if (oth == 1) { if (fullock_rwlock_rdlock(3, 0, 10)) { SIM->fail("P01", "rdlock"); return; } held = true; }
				while (!fin && !a->parked && !SIM->stop) SIM->yield_point(true);
				if (SIM->stop) return; if (fin) { if (oth == 1) fullock_rwlock_unlock(3, 0, 10); return; }
				for (int i = 0; oth == 2 && !wdone && wy < 5 && i < 12 && !SIM->stop; i++) SIM->yield_point(true);
				if (SIM->stop) return;
				PFLHEAD h = FlShm::pFlHead; u64 id = a->flid(); bool inlist = h->file_lock_lockid == id || h->named_mutex_lockid == id || h->named_cond_lockid == id;
				bool pendheld = false; for (auto f = A(h->file_lock_list); f; f = A(f->next)) for (auto o = A(f->offset_lock_list); o; o = A(o->next)) { int r = 0, w = 0; for (auto l = A(o->reader_list); l; l = A(l->next)) r += l->locked; for (auto l = A(o->writer_list); l; l = A(l->next)) w += l->locked; int e = w ? -1 : r; if (o->lockval != e) { if (abs(o->lockval) > abs(e)) pendheld = true; } }
				SIM->kill_thread(a); killed = true; p->fds.clear();
				FlShm::CheckProcessDead(); if (SIM->stop) return; FlShm::CheckProcessDead(); if (SIM->stop) return;
				S bad; if (oth == 1 && fullock_rwlock_unlock(3, 0, 10)) bad = "unlock of what is held fails afterwards"; if (oth == 2) { for (int i = 0; i < 60 && !wdone && !SIM->stop; i++) SIM->yield_point(true); if (SIM->stop) return; if (!wdone) { bad = "the waiting thread waits for ever"; SIM->kill_thread(w); } }
				int x = !bad.empty() ? 0 : fullock_rwlock_timedwrlock(3, 0, 10, 5); if (SIM->stop) return; if (!bad.empty()) ; else if (x) bad = fmt("wrlock afterwards answers %d", x); else if ((x = fullock_rwlock_unlock(3, 0, 10)) != 0) bad = fmt("unlock afterwards answers %d", x);
				if (bad.empty()) { x = fullock_mutex_timedlock("M", 5); if (SIM->stop) return; if (x) bad = fmt("mutex_lock afterwards answers %d", x); else if ((x = fullock_mutex_unlock("M")) != 0) bad = fmt("mutex_unlock afterwards answers %d", x); }
				if (bad.empty()) { Counts u; S e = shm_walk(true, nullptr, &u); if (!e.empty()) bad = e; else if (u.locker) bad = "a record stays"; else if (u.waiter) bad = "a waiter stays"; }
				if (bad.empty()) return;
				if (inlist) { if (c.prop == "P06" || c.prop == "P07") known(seen, c.prop, "crash-in-list-update", "a thread ending inside an update of an internal list leaves it half done"); }
				else if (pendheld) { if (c.prop == "P06") known(seen, "P06", "crash-before-record", "a thread ending between taking the lock word and marking its record leaves the word locked"); }
				else SIM->fail("P06", fmt("thread ended at access %ld of %s (reuse mode %d, other threads %d): %s", k, OPS[op], mode, oth, bad.c_str())); });
			sim.run(); res.evals++;
			if (sim.hang && !killed) sim.fails.push_back({"P06", fmt("no progress, access %ld of %s mode %d others %d parked %d fin %d steps %ld", k, OPS[op], mode, oth, a->parked, fin, sim.steps)}); else if (sim.hang) sim.fails.push_back({"P06", fmt("after the end of a thread at access %ld of %s (reuse mode %d) another one never gets on", k, OPS[op], mode)});
			if (!sim.fails.empty()) { res.fails = sim.fails; res.desc = OPS[op]; SIM = nullptr; FlShm::FreeUnitMode = FlShm::FREE_FD; return res; }
			again = killed; SIM = nullptr;
		}
	}
	FlShm::FreeUnitMode = FlShm::FREE_FD; res.desc = "every access of every kind of call"; return res;
}, "a thread ends at any shared access inside any kind of call: apart from the recorded windows recovery restores everything");
