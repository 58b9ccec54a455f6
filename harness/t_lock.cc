// Lock scenarios over the real library: exact sequential models and scheduled concurrent runs.
#include "sim.h"
typedef unsigned long ul;

// ---------------------------------------------------------------- one API call
static int API(VT& v, const S& name, long timeout_usec, const std::function<int()>& f, bool kind_lock = true) {
	if (SIM->stop) return -1;
	v.op = name; v.op_steps = v.op_yields = 0; v.clk_n = v.clk_after = 0; v.op_limit = timeout_usec > 0 ? (u64)timeout_usec * 1000 : 0;
	SIM->note(fmt("t%d> %s", v.id, name.c_str()));
	v.in_api = true; int r = f(); v.in_api = false;
	SIM->note(fmt("t%d< %s = %d", v.id, name.c_str(), r));
	if (SIM->stop) return r;
	PFLHEAD h = FlShm::pFlHead; u64 me = v.flid();
	if (h->file_lock_lockid == me || h->named_mutex_lockid == me || h->named_cond_lockid == me) { SIM->fail("P08", fmt("t%d returns from [%s] with an internal list lock held", v.id, name.c_str())); return r; }
	if (kind_lock) {
		if (timeout_usec == 0 && v.op_yields) SIM->fail("P04", fmt("try request [%s] waited", name.c_str()));
		if (timeout_usec == -1 && (r == ETIMEDOUT || r == EWOULDBLOCK || r == EBUSY)) SIM->fail("P04", fmt("untimed request [%s] answered %d", name.c_str(), r));
		if (timeout_usec == 0 && r == ETIMEDOUT) SIM->fail("P04", fmt("try request [%s] timed out", name.c_str()));
		if (timeout_usec > 0) {
			if (r == ETIMEDOUT && v.clk_last - v.clk_first < v.op_limit) SIM->fail("P04", fmt("[%s] timed out after %lu ns of the monotonic clock", name.c_str(), (ul)(v.clk_last - v.clk_first)));
			if (v.clk_after > 1) SIM->fail("P04", fmt("[%s] went on waiting after its time had elapsed", name.c_str()));
			if (r == EBUSY && !SIM->clkfail) SIM->fail("P04", fmt("timed request [%s] answered busy", name.c_str()));
		}
	}
	return r;
}
static const char* ofs(int fd, long o, ul l) { static char b[4][96]; static int i; i = (i + 1) & 3; snprintf(b[i], 96, "fd=%d off=%ld len=%lu", fd, o, l); return b[i]; }
static int rdlock(VT& v, int fd, long o, ul l, long t) { return API(v, fmt("rdlock(%s,t=%ld)", ofs(fd, o, l), t), t, [=] { return t == -1 ? fullock_rwlock_rdlock(fd, o, l) : t == 0 ? fullock_rwlock_tryrdlock(fd, o, l) : fullock_rwlock_timedrdlock(fd, o, l, t); }); }
static int wrlock(VT& v, int fd, long o, ul l, long t) { return API(v, fmt("wrlock(%s,t=%ld)", ofs(fd, o, l), t), t, [=] { return t == -1 ? fullock_rwlock_wrlock(fd, o, l) : t == 0 ? fullock_rwlock_trywrlock(fd, o, l) : fullock_rwlock_timedwrlock(fd, o, l, t); }); }
static int unlock(VT& v, int fd, long o, ul l) { return API(v, fmt("unlock(%s)", ofs(fd, o, l)), -2, [=] { return fullock_rwlock_unlock(fd, o, l); }, false); }
static bool islocked(VT& v, int fd, long o, ul l) { return API(v, fmt("islocked(%s)", ofs(fd, o, l)), -2, [=] { return (int)fullock_rwlock_islocked(fd, o, l); }, false); }
static int mlock(VT& v, const char* n, long t) { return API(v, fmt("mutex_lock(%s,t=%ld)", n ? n : "NULL", t), t, [=] { return t == -1 ? fullock_mutex_lock(n) : t == 0 ? fullock_mutex_trylock(n) : fullock_mutex_timedlock(n, t); }); }
static int munlock(VT& v, const char* n) { return API(v, fmt("mutex_unlock(%s)", n ? n : "NULL"), -2, [=] { return fullock_mutex_unlock(n); }, false); }
static int cwait(VT& v, const char* c, const char* m, long t) { return API(v, fmt("cond_wait(%s,%s,t=%ld)", c, m, t), t == 0 ? -2 : t, [=] { return t == -1 ? fullock_cond_wait(c, m) : fullock_cond_timedwait(c, m, t); }, t != 0); }
static int csignal(VT& v, const char* c) { return API(v, fmt("cond_signal(%s)", c), -2, [=] { return fullock_cond_signal(c); }, false); }
static int cbcast(VT& v, const char* c) { return API(v, fmt("cond_broadcast(%s)", c), -2, [=] { return fullock_cond_broadcast(c); }, false); }
static void recover(VT& v) { API(v, "CheckProcessDead", -2, [] { return (int)FlShm::CheckProcessDead(); }, false); }

static Result finish(Sim& s, const S& desc, long evals = 1) {
	if (s.hang) s.fails.push_back({"P01 P02 P03 P04 P05 P06 P07 P08", "no progress: some request never returns"});
	Result r; r.fails = s.fails; r.log = s.log; r.evals = evals; r.desc = desc;
	SIM = nullptr; return r;
}
static const FileId FILES[4] = {{11, 101}, {11, 102}, {12, 101}, {13, 1013}};

template <typename T> static T* A(T* rel) { return rel ? (T*)((char*)FlShm::pShmBase + (u64)rel) : nullptr; }
struct Hold { dev_t dev; ino_t ino; long off; ul len; u64 id; int fd; bool w, locked; bool operator<(const Hold& o) const { return std::tie(dev, ino, off, len, id, fd, w, locked) < std::tie(o.dev, o.ino, o.off, o.len, o.id, o.fd, o.w, o.locked); } bool operator==(const Hold& o) const { return !(*this < o) && !(o < *this); } };
static std::vector<Hold> holders() {
	std::vector<Hold> r;
	for (auto f = A(FlShm::pFlHead->file_lock_list); f; f = A(f->next)) for (auto o = A(f->offset_lock_list); o; o = A(o->next)) {
		for (auto l = A(o->reader_list); l; l = A(l->next)) r.push_back({f->dev_id, f->ino_id, o->offset, o->length, l->flckpid, l->fd, false, l->locked});
		for (auto l = A(o->writer_list); l; l = A(l->next)) r.push_back({f->dev_id, f->ino_id, o->offset, o->length, l->flckpid, l->fd, true, l->locked}); }
	std::sort(r.begin(), r.end()); return r;
}
static FLNAMEDMUTEX* find_mutex(const S& n) { FLNAMEDMUTEX* r = nullptr; for (auto m = A(FlShm::pFlHead->named_mutex_list); m; m = A(m->next)) if (S(m->name) == n.substr(0, 63)) { if (r) return (FLNAMEDMUTEX*)1; r = m; } return r; }

// ---------------------------------------------------------------- exact sequential model
struct Ident { Proc* p; int tid; std::map<pthread_key_t, const void*> tsd; bool alive = true; };
struct SeqModel {
	Sim sim; VT* v = nullptr; std::vector<Ident> ids; Counts cnt; int mode = 1; bool kills = false; bool robust = false;
	std::map<std::pair<dev_t, ino_t>, std::set<std::pair<long, ul>>> entries;   // file entry -> offset entries present
	std::vector<Hold> holds; std::map<S, std::pair<u64, int>> mtx; std::set<S> conds; long evals = 0; int cur = 0;
	void as(int i) { ids[cur].tsd = v->tsd; cur = i; v->proc = ids[i].p; v->tid = ids[i].tid; v->tsd = ids[i].tsd; }
	u64 id(int i) { return ((u64)ids[i].p->pid << 32) | (uint32_t)ids[i].tid; }
	std::pair<dev_t, ino_t> fkey(int fd) { if (fd & 0x80000000) return {(dev_t)-1, (ino_t)-1}; auto f = v->proc->fds[fd]; return {f.dev, f.ino}; }
	size_t n_off() { size_t n = 0; for (auto& e : entries) n += e.second.size(); return n; }
	bool range_used(const std::pair<dev_t, ino_t>& k, const std::pair<long, ul>& r) { for (auto& h : holds) if (h.dev == k.first && h.ino == k.second && h.off == r.first && h.len == r.second) return true; return false; }
	bool file_used(const std::pair<dev_t, ino_t>& k) { for (auto& h : holds) if (h.dev == k.first && h.ino == k.second) return true; return false; }
	void gc(const std::pair<dev_t, ino_t>& k, const std::pair<long, ul>* r) { if (r && mode >= 1 && !range_used(k, *r) && entries.count(k)) entries[k].erase(*r); if (mode == 1 && !file_used(k)) entries.erase(k); }
	void check(const char* props) {
		if (SIM->stop) return; Counts f, u; S e = shm_walk(true, &f, &u); evals++;
		if (!e.empty()) { SIM->fail("P07 P08 P01", e); return; }
		std::sort(holds.begin(), holds.end());
		if (holders() != holds) { SIM->fail(props, fmt("recorded holders differ from the expected %zu", holds.size())); return; }
		if (u.file != entries.size() || u.off != n_off() || u.locker != holds.size() || u.nmtx != mtx.size() || u.ncond != conds.size() || u.waiter) {
			SIM->fail("P07", fmt("units in use: file %zu/%zu offset %zu/%zu locker %zu/%zu mutex %zu/%zu cond %zu/%zu waiter %zu/0 (found/expected)", u.file, entries.size(), u.off, n_off(), u.locker, holds.size(), u.nmtx, mtx.size(), u.ncond, conds.size(), u.waiter)); return; }
		for (auto& m : mtx) { auto x = find_mutex(m.first); if (!x || x == (void*)1) { SIM->fail("P11 P02", "no or more than one object for one mutex name"); return; } if (x->lockval != m.second.first || (m.second.first ? x->lockcnt != m.second.second : x->lockcnt != 0)) { SIM->fail("P02 P06", fmt("mutex %s: owner %lx count %d, expected %lx %d", m.first.c_str(), (ul)x->lockval, x->lockcnt, (ul)m.second.first, m.second.second)); return; } }
	}
	void lock(int fd, long o, ul l, bool w, long t) {
		auto k = fkey(fd); std::pair<long, ul> r{o, l}; bool anyw = false, any = false;
		for (auto& h : holds) if (h.dev == k.first && h.ino == k.second && h.off == o && h.len == l) { any = true; if (h.w) anyw = true; }
		bool conflict = w ? any : anyw; if (conflict && t == -1) t = 0;
		int exp = 0; bool newf = !entries.count(k), newo = newf || !entries[k].count(r);
		if (newf && entries.size() >= cnt.file) exp = ENOLCK;
		else { if (newo && n_off() >= cnt.off) exp = ENOLCK; else if (holds.size() >= cnt.locker) exp = ENOLCK;
			if (newf && exp != ENOLCK) entries[k]; else if (newf) entries[k]; if (!(newo && n_off() >= cnt.off)) entries[k].insert(r); }
		if (!exp && conflict) exp = t == 0 ? EBUSY : ETIMEDOUT;
		int got = w ? wrlock(*v, fd, o, l, t) : rdlock(*v, fd, o, l, t); if (SIM->stop) return;
		if (got != exp && !(SIM->clkfail && got == EBUSY && t > 0)) {
			S p = exp == ENOLCK || got == ENOLCK ? "P07" : got == 0 ? "P01 P05" : exp == 0 ? "P01 P05" : "P01 P04";
			SIM->fail(p, fmt("%slock(%s,t=%ld) answered %d, expected %d", w ? "wr" : "rd", ofs(fd, o, l), t, got, exp)); return; }
		if (got == 0) holds.push_back({k.first, k.second, o, l, id(cur), fd, w, true}); else gc(k, &r);
		check(got ? "P01 P07 P04 P06" : "P01 P11");
	}
	void unlk(int fd, long o, ul l) {
		auto k = fkey(fd); std::pair<long, ul> r{o, l}; int best = -1;
		for (size_t i = 0; i < holds.size(); i++) { auto& h = holds[i]; if (h.dev == k.first && h.ino == k.second && h.off == o && h.len == l && h.id == id(cur) && h.fd == fd) best = (int)i; }
		int got = unlock(*v, fd, o, l); if (SIM->stop) return;
		if (got != (best < 0 ? EINVAL : 0)) { SIM->fail("P01", fmt("unlock(%s) answered %d, %s", ofs(fd, o, l), got, best < 0 ? "but nothing is held" : "but a lock is held")); return; }
		if (best >= 0) { holds.erase(holds.begin() + best); gc(k, &r); }
		check("P01 P07");
	}
	void query(int fd, long o, ul l) {
		auto k = fkey(fd); bool exp = false; for (auto& h : holds) if (h.dev == k.first && h.ino == k.second && h.off < o + (long)l && o < h.off + (long)h.len) exp = true;
		std::vector<char> b((char*)shm_lo(), (char*)shm_hi()); bool got = islocked(*v, fd, o, l); if (SIM->stop) return;
		if (got != exp) SIM->fail("P09", fmt("islocked(%s) answered %d", ofs(fd, o, l), got));
		else if (memcmp(b.data(), shm_lo(), b.size())) SIM->fail("P09", "islocked changed the shared area");
	}
	void ml(const S& n, long t) {
		S key = n.substr(0, 63); int exp = 0; bool nw = !mtx.count(key); if (nw && mtx.size() >= cnt.nmtx) exp = ENOLCK;
		if (!exp && !nw && mtx[key].first && mtx[key].first != id(cur)) { if (t == -1) t = 0; exp = t == 0 ? EBUSY : ETIMEDOUT; }
		int got = mlock(*v, n.c_str(), t); if (SIM->stop) return;
		if (got != exp && !(SIM->clkfail && got == EBUSY && t > 0)) { SIM->fail(exp == ENOLCK || got == ENOLCK ? "P07" : "P02", fmt("mutex lock(%s,t=%ld) answered %d, expected %d", n.c_str(), t, got, exp)); return; }
		if (exp != ENOLCK) { auto& m = mtx[key]; if (got == 0) { m.first = id(cur); m.second++; } }
		check("P02");
	}
	void mu(const S& n) {
		S key = n.substr(0, 63); int exp = !mtx.count(key) ? EINVAL : mtx[key].first == 0 ? 0 : mtx[key].first == id(cur) ? 0 : EPERM;
		int got = munlock(*v, n.c_str()); if (SIM->stop) return;
		if (got != exp) { SIM->fail("P02", fmt("mutex unlock(%s) answered %d, expected %d", n.c_str(), got, exp)); return; }
		if (mtx.count(key) && mtx[key].first == id(cur)) if (--mtx[key].second == 0) mtx[key].first = 0;
		check("P02");
	}
	void cw(const S& c, const S& m) {
		S ck = c.substr(0, 63), mk = m.substr(0, 63); int exp; long t = 1 + SIM->rng.below(3000);
		if (!mtx.count(mk)) exp = EINVAL; else if (!conds.count(ck) && conds.size() >= cnt.ncond) exp = ENOLCK;
		else if (mtx[mk].first && mtx[mk].first != id(cur)) { conds.insert(ck); exp = EPERM; } else { conds.insert(ck); exp = ETIMEDOUT; }
		if (exp == ETIMEDOUT && cnt.waiter == 0) exp = ENOLCK;
		int got = cwait(*v, c.c_str(), m.c_str(), t); if (SIM->stop) return;
		if (got != exp && !(SIM->clkfail && got == EBUSY)) { SIM->fail(exp == ENOLCK || got == ENOLCK ? "P07" : "P03", fmt("cond wait answered %d, expected %d", got, exp)); return; }
		if (exp == ETIMEDOUT) { auto& x = mtx[mk]; if (!x.first) { x.first = id(cur); x.second = 1; } }
		check("P03 P02");
	}
	void recovery() {
		for (size_t i = 0; i < holds.size();) { auto& h = holds[i]; Proc* p = SIM->find((int)(h.id >> 32)); bool dead = !p || !p->tids.count((int)(h.id & 0xffffffff));
			if (!dead && !(h.fd & 0x80000000) && !p->eacces) { auto f = p->fds.find(h.fd); dead = f == p->fds.end() || f->second.dev != h.dev || f->second.ino != h.ino; }
			if (dead) holds.erase(holds.begin() + i); else i++; }
		for (auto e = entries.begin(); e != entries.end();) { for (auto o = e->second.begin(); o != e->second.end();) if (!range_used(e->first, *o)) o = e->second.erase(o); else ++o; if (!file_used(e->first)) e = entries.erase(e); else ++e; }
		for (auto& m : mtx) { Proc* p = SIM->find((int)(m.second.first >> 32)); if (m.second.first && (!p || !p->tids.count((int)(m.second.first & 0xffffffff)))) m.second = {0, 0}; }
		recover(*v); check("P06");
	}
};
static Result seq_run(const Ctx& c, bool kills) {
	SeqModel m; SIM = &m.sim; Rng g(c.seed);
	m.cnt = {1 + g.below(3), 1 + g.below(5), 1 + g.below(7), 1 + g.below(4), 1 + g.below(2), 1};
	if (g.chance(1, 3)) m.cnt = {8, 16, 32, 8, 4, 4};
	if (!shm_setup(m.cnt)) { Result r; r.fails.push_back({"P12", "the shared area could not be set up"}); SIM = nullptr; return r; }
	m.sim.reset(c.seed, SEQ); m.sim.budget = 3000000; m.sim.clkfail = g.chance(1, 6);
	if (kills && g.chance(1, 2)) { FlShm::RobustMode = FlShm::ROBUST_HIGH; FlShm::RobustLoopCnt = 20; m.robust = true; }
	for (int p = 0; p < 3; p++) { Proc* pr = m.sim.newproc(1000 + (int)g.below(5) + p * 10 + (g.chance(1, 4) ? 0x100000 : 0)); int base = pr->pid; for (int t = 0; t < 2; t++) { m.ids.push_back({pr, base + t * (g.chance(1, 2) ? 1 : 7), {}, true}); } for (int fd = 3; fd < 8; fd++) pr->fds[fd] = FILES[g.below(3)]; pr->eacces = kills && g.chance(1, 4); }
	for (auto& i : m.ids) i.p->tids.insert(i.tid);
	m.v = m.sim.spawn(m.ids[0].p, m.ids[0].tid, [&](VT&) {
		int modes = g.below(4) == 3; m.mode = (int)g.below(3); auto setmode = [&] { m.mode == 0 ? fullock_set_no_freeunit() : m.mode == 1 ? fullock_set_fd_freeunit() : fullock_set_offset_freeunit(); }; setmode();
		static const std::pair<long, ul> R[] = {{0, 10}, {10, 1}, {20, 5}, {1000000, 4096}, {11, 9}};
		S base(63, 'n'); const S names[] = {"a", "b", base + "x", base + "yy", "", base.substr(0, 62)};
		const int nsteps = 60 + (int)g.below(120);
		for (int s = 0; s < nsteps && !SIM->stop; s++) {
			std::vector<int> live; for (size_t i = 0; i < m.ids.size(); i++) if (m.ids[i].alive) live.push_back((int)i);
			m.as(live[g.below(live.size())]);
			if (modes && g.chance(1, 20)) { m.mode = (int)g.below(3); setmode(); }
			int fd = g.chance(1, 8) ? (int)FLCK_RWLOCK_NO_FD((int)g.below(3)) : 3 + (int)g.below(5);
			auto r = R[g.below(5)]; long t = g.chance(1, 2) ? 0 : g.chance(1, 2) ? -1 : 1 + (long)g.below(g.chance(1, 3) ? 2500000 : 2000);
			if (!(fd & 0x80000000) && !m.v->proc->fds.count(fd)) continue;
			S nm = names[g.below(6)];
			// most unlock requests are for something held
			if (g.chance(2, 5)) { std::vector<Hold> mine; for (auto& h : m.holds) if (h.id == m.id(m.cur) && ((h.fd & 0x80000000) || (m.v->proc->fds.count(h.fd) && m.v->proc->fds[h.fd].dev == h.dev && m.v->proc->fds[h.fd].ino == h.ino))) mine.push_back(h); if (!mine.empty()) { auto h = mine[g.below(mine.size())]; m.unlk(h.fd, h.off, h.len); continue; } }
			switch (g.below(12)) {
				case 0: case 1: m.lock(fd, r.first, r.second, false, t); break;
				case 2: case 3: m.lock(fd, r.first, r.second, true, t); break;
				case 4: m.unlk(fd, r.first, r.second); break;
				case 5: m.query(fd, (long)g.below(40), 1 + g.below(30)); break;
				case 6: case 7: m.ml(nm, t); break;
				case 8: m.mu(nm); break;
				case 9: m.cw(names[g.below(2)], nm); break;
				case 10: if (csignal(*m.v, names[0].c_str()) != (m.conds.count("a") ? 0 : EINVAL)) SIM->fail("P03", "signal with no waiter"); m.check("P03"); break;
				default: if (!kills) break;
					switch (g.below(5)) {
						case 0: if (live.size() > 2) { int x = live[g.below(live.size())]; if (x != m.cur) { m.ids[x].alive = false; m.ids[x].p->tids.erase(m.ids[x].tid); SIM->note(fmt("thread %d/%d ends", m.ids[x].p->pid, m.ids[x].tid)); } } break;
						case 1: if (live.size() > 3) { int x = live[g.below(live.size())]; if (m.ids[x].p != m.v->proc) { for (auto& i : m.ids) if (i.p == m.ids[x].p) i.alive = false; m.ids[x].p->tids.clear(); m.ids[x].p->fds.clear(); SIM->note(fmt("process %d ends", m.ids[x].p->pid)); } } break;
						case 2: { int x = live[g.below(live.size())]; int f = 3 + (int)g.below(5); m.ids[x].p->fds.erase(f); SIM->note(fmt("process %d closes fd %d", m.ids[x].p->pid, f)); break; }
						case 3: { int x = live[g.below(live.size())]; int f = 3 + (int)g.below(5); m.ids[x].p->fds[f] = FILES[g.below(3)]; SIM->note(fmt("process %d reopens fd %d", m.ids[x].p->pid, f)); break; }
						default: m.recovery();
					}
			}
		}
		if (kills) { m.recovery(); }
		// release everything: as many units as at the start must be there again
		for (size_t i = 0; i < m.ids.size() && !SIM->stop; i++) if (m.ids[i].alive) { m.as((int)i);
			for (bool again = true; again && !SIM->stop;) { again = false; for (auto& h : m.holds) if (h.id == m.id(m.cur)) { if (!(h.fd & 0x80000000) && (!m.v->proc->fds.count(h.fd) || m.v->proc->fds[h.fd].dev != h.dev || m.v->proc->fds[h.fd].ino != h.ino)) continue; m.unlk(h.fd, h.off, h.len); again = true; break; } }
			for (auto x : std::map<S, std::pair<u64, int>>(m.mtx)) for (int n = x.second.first == m.id(m.cur) ? x.second.second : 0; n > 0 && !SIM->stop; n--) m.mu(x.first); }
	});
	m.sim.run();
	FlShm::RobustMode = FlShm::ROBUST_NO; fullock_set_fd_freeunit();
	return finish(m.sim, "sequential model", m.evals);
}
static Reg r_seq("seq", "P01 P02 P03 P04 P05 P07 P08 P09 P11", 400, 6000, [](const Ctx& c) { return seq_run(c, false); }, "every API answer, the recorded holders, the unit counts and the area after every call equal an exact sequential model");
static Reg r_seqk("seq-dead", "P06 P07 P01 P02 P11", 400, 6000, [](const Ctx& c) { return seq_run(c, true); }, "as seq, with ended threads and processes, closed and reopened descriptors and recovery passes");

// ---------------------------------------------------------------- concurrent rwlock scenarios
struct Iv { long req, acq, rel, end; bool w; int vt; };
struct Track { std::map<std::tuple<dev_t, ino_t, long, ul>, std::vector<Iv>> m; };
static Strat pick(Rng& g) { return (Strat)(1 + g.below(4)); }
static const long NEVER = 1L << 60;
static Result rw_conc(const Ctx& c, bool kills, bool nested) {
	Sim sim; SIM = &sim; Rng g(c.seed); int nv = 2 + (int)g.below(3);
	bool tight = !nested && g.chance(1, 5); Counts cn = tight ? Counts{1 + g.below(2), 1 + g.below(2), 2 + g.below(3), 2, 2, 2} : Counts{6, 12, 24, 4, 4, 4};
	if (!shm_setup(cn)) { Result r; r.fails.push_back({"P12", "the shared area could not be set up"}); SIM = nullptr; return r; }
	sim.reset(c.seed, pick(g)); int mode = (int)g.below(3); bool gone = nested && g.chance(2, 3); if (gone) mode = 0; mode == 0 ? fullock_set_no_freeunit() : mode == 1 ? fullock_set_fd_freeunit() : fullock_set_offset_freeunit();
	if (kills || (!gone && g.chance(1, 4))) { FlShm::RobustMode = FlShm::ROBUST_HIGH; FlShm::RobustLoopCnt = 3 + (int)g.below(30); }
	Track tr; int np = 1 + (int)g.below(2); std::vector<Proc*> ps; for (int i = 0; i < np + 1; i++) { Proc* p = sim.newproc(2000 + i); ps.push_back(p); for (int fd = 3; fd < 7; fd++) p->fds[fd] = FILES[nested ? 0 : fd < 6 ? 0 : 1]; }
	static const std::pair<long, ul> RD[] = {{0, 10}, {10, 5}}; static const std::pair<long, ul> RN[] = {{0, 100}, {0, 10}, {30, 10}, {99, 1}, {5, 90}};
	typedef std::tuple<dev_t, ino_t, long, ul> K;
	auto key = [&](VT& v, int fd, std::pair<long, ul> r) { auto f = v.proc->fds[fd]; return nested ? K{f.dev, f.ino, 0, 100} : K{f.dev, f.ino, r.first, r.second}; };
	int finished = 0, anchor_ready = nested ? 0 : 1; std::vector<int> tgt;
	auto excl = [&](const K& k) { int w = 0, r = 0; for (auto& i : tr.m[k]) if (i.acq >= 0 && i.rel == NEVER) (i.w ? w : r)++; if (w > 1 || (w && r)) SIM->fail(nested ? "P01 P05" : "P01", fmt("%d writers and %d readers hold one range at once", w, r)); };
	int total = nv + (nested ? 1 : 0);
	auto body = [&, total](VT& v) {
		struct H { int fd; std::pair<long, ul> r; K k; bool w; size_t idx; }; std::vector<H> mine; int n = 3 + (int)g.below(5);
		Rng lg(c.seed * 7919 + v.id);
		auto rel = [&](size_t i) { auto h = mine[i]; mine.erase(mine.begin() + i); auto& iv = tr.m[h.k][h.idx]; iv.rel = SIM->steps;
			auto rr = nested ? RN[lg.below(5)] : h.r; int x = unlock(v, h.fd, nested ? rr.first : h.r.first, nested ? rr.second : h.r.second); if (SIM->stop) return; tr.m[h.k][h.idx].end = SIM->steps; if (x) SIM->fail("P01 P07 P06 P05", fmt("unlocking a held lock answered %d", x)); };
		for (int s = 0; s < n && !SIM->stop; s++) {
			int what = (int)lg.below(10); int fd = 3 + (int)lg.below(4); auto r = nested ? RN[lg.below(5)] : RD[lg.below(2)];
			if (!mine.empty() && what < 4) { rel(lg.below(mine.size())); continue; }
			K k = key(v, fd, r);
			if (what == 4) { long t0 = SIM->steps; bool got = islocked(v, fd, r.first, r.second); long t1 = SIM->steps; if (SIM->stop) return; bool must = false, may = false;
				for (auto& i : tr.m[k]) { if (i.acq >= 0 && i.acq <= t0 && i.rel >= t1) must = true; if (i.req <= t1 && i.end >= t0) may = true; }
				if (!nested && must && !got) SIM->fail("P09", "islocked answers no for a range locked all the time"); if (!may && got) SIM->fail("P09", "islocked answers yes though nobody holds or requests the range"); continue; }
			if (what == 5) { bool have = false; for (auto& h : mine) if (h.fd == fd && h.k == k) have = true; if (have) continue; int x = unlock(v, fd, r.first, r.second); if (x != EINVAL && !SIM->stop) SIM->fail("P01", fmt("unlocking what is not held answered %d", x)); continue; }
			bool w = lg.chance(1, 2); long t = !mine.empty() || (nested && !gone && w) || lg.chance(1, 3) ? (lg.chance(1, 2) ? 0 : 1 + (long)lg.below(60)) : -1;
			size_t idx = tr.m[k].size(); tr.m[k].push_back({SIM->steps, -1, NEVER, NEVER, w, v.id});
			int x = w ? wrlock(v, fd, r.first, r.second, t) : rdlock(v, fd, r.first, r.second, t); if (SIM->stop) return;
			if (x == 0) { tr.m[k][idx].acq = SIM->steps; mine.push_back({fd, r, k, w, idx}); excl(k); }
			else { tr.m[k][idx].rel = tr.m[k][idx].end = SIM->steps; if (x == ENOLCK && !tight) SIM->fail("P07", "no-locks error though units are left"); else if (x == EINVAL) SIM->fail("P01", "lock request refused as invalid"); else if (x != EBUSY && x != ETIMEDOUT && x != ENOLCK) SIM->fail("P01 P04", fmt("lock request answered %d", x)); }
		}
		while (!mine.empty() && !SIM->stop) rel(mine.size() - 1);
		finished++;
	};
	std::vector<VT*> vs; std::map<int, int> killed;
	if (nested) { // the anchor: one lock of the whole range stays in place, as a reader, or its entry does, so that all ranges meet in one entry
		vs.push_back(sim.spawn(ps[0], 2900, [&](VT& v) { int x = rdlock(v, 3, 0, 100, -1); if (x && !SIM->stop) SIM->fail("P05", "anchor"); K k = key(v, 3, {0, 100}); tr.m[k].push_back({SIM->steps, SIM->steps, NEVER, NEVER, false, v.id}); if (!gone) anchor_ready = 1; while (!gone && finished < nv && !SIM->stop) SIM->yield_point(true); if (SIM->stop) return; tr.m[k][0].rel = SIM->steps; if (unlock(v, 3, 0, 100) && !SIM->stop) SIM->fail("P05 P01", "the anchor could not be unlocked"); anchor_ready = 1; })); }
	for (int i = 0; i < nv; i++) vs.push_back(sim.spawn(ps[i % np], 2100 + i, [&, body](VT& v) { while (!anchor_ready && !SIM->stop) SIM->yield_point(true); body(v); }));
	if (kills) vs.push_back(sim.spawn(ps[np], 2999, [&](VT& v) {
		int dead = 0;
		for (int n = 0; n < 400 && !SIM->stop; n++) { SIM->yield_point(true);
			if (dead < nv - 1 && SIM->rng.chance(1, 12)) { VT* x = vs[SIM->rng.below(nv)]; if (!x->done && !x->dead && (!x->in_api || x->blocked)) { dead++; SIM->kill_thread(x); finished++; bool proc = false; (void)proc; for (auto& e : tr.m) for (auto& i : e.second) if (i.vt == x->id && i.end == NEVER) { i.rel = std::min(i.rel, SIM->steps); } if (x->proc->tids.empty()) x->proc->fds.clear(); } }
			if (SIM->rng.chance(1, 30)) { recover(v); for (auto& e : tr.m) for (auto& i : e.second) if (SIM->vts[i.vt]->dead && i.end == NEVER) i.end = SIM->steps; } 
			if (finished >= nv) break; }
		while (finished < nv && !SIM->stop) { SIM->yield_point(true); if (SIM->rng.chance(1, 30)) recover(v); }
		recover(v);
	}));
	(void)total;
	sim.run();
	S e; if (!sim.stop) { Counts f, u; e = shm_walk(true, &f, &u); if (!e.empty()) sim.fails.push_back({"P07 P08 P01 P06", e}); else { if (u.locker) sim.fails.push_back({kills ? "P06 P07" : "P07", fmt("%zu locker units still in use after everything was released", u.locker)}); else if ((mode == 1 && (u.file || u.off)) || (mode == 2 && u.off)) sim.fails.push_back({"P07", fmt("%zu file and %zu offset units still in use after everything was released", u.file, u.off)}); } }
	FlShm::RobustMode = FlShm::ROBUST_NO; fullock_set_fd_freeunit();
	return finish(sim, fmt("%d threads, strategy %d, free mode %d", nv, sim.strat, mode));
}
static Reg r_rw("rw-conc", "P01 P04 P07 P08 P09 P05", 1500, 40000, [](const Ctx& c) { return rw_conc(c, false, false); }, "under a random or priority schedule at every access to the shared area: exclusion, answers, query intervals, conservation at the end");
static Reg r_rwk("rw-dead", "P06 P01 P07 P08", 1500, 40000, [](const Ctx& c) { return rw_conc(c, true, false); }, "as rw-conc, threads ending between operations or while waiting, recovery passes and robust retries running along");
static Reg r_rwn("rw-nested", "P05 P01 P07", 1000, 20000, [](const Ctx& c) { return rw_conc(c, false, true); }, "overlapping ranges inside a range locked throughout, through several descriptors and processes: one lock");

// requests on different files, on ranges nothing connects, or by another path to the same file
static Reg r_rng("ranges", "P05 P09", 600, 8000, [](const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); shm_setup({8, 16, 64, 2, 2, 2}); sim.reset(c.seed, SEQ); sim.budget = 2000000; long ev = 0;
	Proc* p[2] = {sim.newproc(3000), sim.newproc(3001)}; for (auto q : p) { q->tids.insert(q->pid); for (int fd = 3; fd < 10; fd++) q->fds[fd] = FILES[(fd - 3) % 4]; }
	sim.spawn(p[0], 3000, [&](VT& v) {
		for (int n = 0; n < 40 && !SIM->stop; n++) {
			// one lock A in place; a second request B decides purely by file and overlap (a single entry in use, B identical, disjoint or inside A, or covering A)
			long base = g.chance(1, 4) ? (long)(g.below(1L << 62)) : (long)g.below(50); long o1 = base, l1 = 1 + (long)g.below(20); long o2, l2;
			switch (g.below(5)) { case 0: o2 = o1 + l1; l2 = 1 + (long)g.below(9); break; case 1: l2 = 1 + (long)g.below(9); o2 = o1 - l2; if (o2 < 0) { o2 = o1 + l1 + 1; } break; case 2: o2 = o1 + (long)g.below(l1); l2 = 1 + (long)g.below(l1 - (o2 - o1)); break; case 3: o2 = std::max(0L, o1 - (long)g.below(5)); l2 = l1 + (o1 - o2) + (long)g.below(5); break; default: o2 = (long)g.below(60); l2 = 1 + (long)g.below(60); }
			if (g.chance(1, 4)) { long k = (1L + (long)g.below(3)) << 32; switch (g.below(5)) { case 0: o2 += k; break; case 4: o1 += k; break; case 1: l1 += k; break; case 2: l2 += k; break; default: o1 += k; o2 += k + (g.chance(1, 2) ? 0 : 1L << 33); } }
			int f1 = 3 + (int)g.below(7), f2 = 3 + (int)g.below(7); bool same = (f1 - 3) % 4 == (f2 - 3) % 4; bool ov = o1 < o2 + l2 && o2 < o1 + l1; bool w1 = g.chance(1, 2), w2 = g.chance(1, 2);
			auto as = [&](int i) { v.proc = p[i]; v.tid = p[i]->pid; v.tsd.clear(); };
			as(0); if ((w1 ? wrlock(v, f1, o1, l1, 0) : rdlock(v, f1, o1, l1, 0)) && !SIM->stop) { SIM->fail("P05 P07", "a request on a free range was refused"); break; }
			int q = (int)g.below(2); as(q); bool il = islocked(v, f2, o2, l2); if (!SIM->stop && c.prop != "P05" && il != (same && ov)) SIM->fail("P09", fmt("islocked(%s) answered %d with %s locked", ofs(f2, o2, l2), il, ofs(f1, o1, l1)));
			int x = w2 ? wrlock(v, f2, o2, l2, 0) : rdlock(v, f2, o2, l2, 0); int exp = same && ov && (w1 || w2) ? EBUSY : 0; ev++;
			if (!SIM->stop && x != exp) SIM->fail("P05", fmt("%s lock of %s answered %d while %s lock of %s is held by %s", w2 ? "write" : "read", ofs(f2, o2, l2), x, w1 ? "write" : "read", ofs(f1, o1, l1), q ? "another process" : "the same thread"));
			if (x == 0 && unlock(v, f2, o2, l2) && !SIM->stop) SIM->fail("P05 P01", "unlock failed");
			as(0); if (unlock(v, f1, o1, l1) && !SIM->stop) SIM->fail("P05 P01", "unlock failed");
		} });
	sim.run(); return finish(sim, "two requests", ev);
}, "two requests of random ranges, files, descriptors, processes: they conflict exactly by file and overlap");

// ---------------------------------------------------------------- mutex and cond under schedules
static Result mx_conc(const Ctx& c, bool kills) {
	Sim sim; SIM = &sim; Rng g(c.seed); int nv = 2 + (int)g.below(3); shm_setup({2, 2, 2, 3, 2, 4}); sim.reset(c.seed, pick(g));
	if (kills || g.chance(1, 4)) { FlShm::RobustMode = FlShm::ROBUST_HIGH; FlShm::RobustLoopCnt = 3 + (int)g.below(30); }
	int np = 1 + (int)g.below(2); std::vector<Proc*> ps; for (int i = 0; i <= np; i++) ps.push_back(sim.newproc(4000 + i));
	S base(63, 'z'); const S names[2] = {"m", base + "1"}; const S alias[2] = {"m", base + "2"}; int own[2] = {-1, -1}; int finished = 0; std::vector<VT*> vs;
	for (int i = 0; i < nv; i++) vs.push_back(sim.spawn(ps[i % np], 4100 + i, [&](VT& v) {
		Rng lg(c.seed * 31 + v.id); int cnt[2] = {0, 0}; int n = 4 + (int)lg.below(6);
		auto lockm = [&](int m, long t) { int x = mlock(v, (lg.chance(1, 2) ? names : alias)[m].c_str(), t); if (SIM->stop) return; if (x == 0) { if (own[m] != -1 && own[m] != v.id) { SIM->fail("P02 P11", fmt("mutex granted to t%d while t%d owns it", v.id, own[m])); return; } own[m] = v.id; cnt[m]++; } else { if (cnt[m]) { SIM->fail("P02", fmt("the owner's lock request answered %d", x)); return; } if (x != EBUSY && x != ETIMEDOUT) SIM->fail("P02 P07", fmt("mutex lock answered %d", x)); } };
		auto unlockm = [&](int m) { int c0 = cnt[m]; if (c0 == 1) own[m] = -1; int x = munlock(v, (lg.chance(1, 2) ? names : alias)[m].c_str()); if (SIM->stop) return; if (x) { SIM->fail("P02", fmt("the owner's unlock answered %d", x)); return; } cnt[m]--; };
		for (int s = 0; s < n && !SIM->stop; s++) { int m = (int)lg.below(2);
			if (lg.chance(1, 8) && !cnt[m]) { int o = own[m]; int x = munlock(v, names[m].c_str()); (void)o; if (x != 0 && x != EPERM && x != EINVAL && !SIM->stop) SIM->fail("P02", fmt("unlock by another thread answered %d", x)); continue; }
			if (cnt[m] && lg.chance(1, 2)) { unlockm(m); continue; }
			bool any = cnt[0] || cnt[1]; long t = cnt[m] ? (lg.chance(1, 3) ? 0 : lg.chance(1, 2) ? 40 : -1) : any || lg.chance(1, 3) ? (lg.chance(1, 2) ? 0 : 1 + (long)lg.below(50)) : -1; lockm(m, t); }
		for (int m = 0; m < 2; m++) while (cnt[m] && !SIM->stop) unlockm(m);
		finished++; }));
	if (kills) sim.spawn(ps[np], 4999, [&](VT& v) { int dead = 0;
		for (int n = 0; n < 400 && finished < nv && !SIM->stop; n++) { SIM->yield_point(true); if (dead < nv - 1 && SIM->rng.chance(1, 12)) { VT* x = vs[SIM->rng.below(nv)]; if (!x->done && !x->dead && (!x->in_api || (x->blocked && x->op.find("unlock") == S::npos))) { dead++; SIM->kill_thread(x); finished++; for (int m = 0; m < 2; m++) if (own[m] == x->id) own[m] = -1; } } if (SIM->rng.chance(1, 25)) recover(v); }
		while (finished < nv && !SIM->stop) { SIM->yield_point(true); if (SIM->rng.chance(1, 25)) recover(v); } recover(v); });
	sim.run();
	if (!sim.stop) { S e = shm_walk(true, nullptr, nullptr); if (!e.empty()) sim.fails.push_back({"P07 P08", e}); for (int m = 0; m < 2; m++) { auto x = find_mutex(names[m]); if (x == (void*)1) sim.fails.push_back({"P11 P02", "two objects for one mutex name"}); else if (x && (x->lockval || x->lockcnt)) sim.fails.push_back({kills ? "P06 P02" : "P02", fmt("mutex left with owner %lx count %d", (ul)x->lockval, x->lockcnt)}); } }
	FlShm::RobustMode = FlShm::ROBUST_NO; return finish(sim, fmt("%d threads on two mutexes", nv));
}
static Reg r_mx("mutex-conc", "P02 P04 P08 P11", 1500, 40000, [](const Ctx& c) { return mx_conc(c, false); }, "one owner, recursion, refusal of others, under schedules at every shared access");
static Reg r_mxk("mutex-dead", "P06 P02 P08", 1500, 40000, [](const Ctx& c) { return mx_conc(c, true); }, "as mutex-conc with owners and waiters ending, recovery passes and robust retries");

static Result cv_conc(const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); int nw = 1 + (int)g.below(3), nt = (int)g.below(3), mode = (int)g.below(3); shm_setup({2, 2, 2, 2, 2, (size_t)(nw + nt)}); sim.reset(c.seed, pick(g)); sim.budget = 300000;
	int nm = 0; if (g.chance(1, 5)) { FlShm::RobustMode = FlShm::ROBUST_HIGH; FlShm::RobustLoopCnt = 10; } (void)nm;
	Proc* ps[2] = {sim.newproc(5000), sim.newproc(5001)}; struct W { int vt; bool timed; bool marked; bool back; int res; }; std::vector<W> q; int owner = -1, woken = 0, sent = 0, back = 0;
	auto acquired = [&](VT& v, const char* how) { auto m = find_mutex("M"); if (!m || m->lockval != v.flid()) { SIM->fail("P03", fmt("t%d returned from %s without owning the mutex", v.id, how)); return; } if (owner != -1) { SIM->fail("P02 P03", "two owners of the mutex"); return; } owner = v.id; };
	auto lockM = [&](VT& v) { int x = mlock(v, "M", -1); if (SIM->stop) return; if (x) { SIM->fail("P02", "lock"); return; } acquired(v, "lock"); };
	auto unlockM = [&](VT& v) { owner = -1; if (munlock(v, "M") && !SIM->stop) SIM->fail("P02", "unlock"); };
	int total = nw + nt, started = 0;
	for (int i = 0; i < total; i++) sim.spawn(ps[i & 1], 5100 + i, [&, i](VT& v) {
		lockM(v); if (SIM->stop) return; bool timed = i >= nw; size_t me = q.size(); q.push_back({v.id, timed, false, false, -1}); started++; owner = -1;
		long t = timed ? 1 + (long)SIM->rng.below(200) : -1; int x = cwait(v, "C", "M", t); if (SIM->stop) return; q[me].back = true; q[me].res = x; back++;
		if (x != 0 && !(timed && x == ETIMEDOUT)) { SIM->fail("P03 P04", fmt("wait answered %d", x)); return; }
		acquired(v, "wait"); if (SIM->stop) return; if (x == 0) woken++;
		if (x == 0 && nt == 0 && !q[me].marked) { SIM->fail("P03", fmt("t%d woke up without a signal for it", v.id)); return; }
		unlockM(v); });
	sim.spawn(ps[0], 5200, [&](VT& v) {
		while (started < total && !SIM->stop) SIM->yield_point(true);
		while (back < total && !SIM->stop) {
			// the mutex is held while looking at the queue: everyone in it has begun to wait, in this order
			bool hold = true; lockM(v); if (SIM->stop) return;
			int un = 0; for (auto& w : q) if (!w.timed && !w.marked) un++;
			if (mode == 2) { for (auto& w : q) w.marked = true; int x = cbcast(v, "C"); if (x && !SIM->stop) SIM->fail("P03", "broadcast"); if (hold) unlockM(v); break; }
			if (un == 0 || sent >= 50) { if (nt) { // the untimed ones may still be waiting for signals that went to timed ones
					int x = cbcast(v, "C"); (void)x; } if (hold) unlockM(v); break; }
			if (nt == 0) { for (auto& w : q) if (!w.marked) { w.marked = true; break; } }
			int before = 0; for (auto& w : q) if (!w.timed && !w.back) before++; 
			if (nt && before == 0) { if (hold) unlockM(v); break; }
			if (nt && !(before > sent - woken)) { if (hold) unlockM(v); SIM->yield_point(true); continue; }
			if (nt && SIM->rng.chance(1, 2)) { unlockM(v); hold = false; if (SIM->stop) return; }
			int x = csignal(v, "C"); if (SIM->stop) return; if (x) { SIM->fail("P03", fmt("signal answered %d", x)); return; } sent++;
			if (hold) unlockM(v);
			if (nt == 0 || SIM->rng.chance(1, 2)) { // exactly the longest-waiting one wakes up
				int guard = 0; while (woken < sent && !SIM->stop && guard++ < 3000) SIM->yield_point(true);
				if (!SIM->stop && woken < sent) { SIM->fail("P03", fmt("a signal was lost: %d sent while an untimed waiter was waiting, %d woke up", sent, woken)); return; } }
		} });
	sim.run();
	if (!sim.stop) { Counts u; S e = shm_walk(true, nullptr, &u); if (!e.empty()) sim.fails.push_back({"P07 P08", e}); if (u.waiter) sim.fails.push_back({"P07 P03", "waiter units still in use"}); auto m = find_mutex("M"); if (m && (m->lockval || m->lockcnt)) sim.fails.push_back({"P02 P03", "mutex left locked"});
		if (mode != 2 && nt == 0 && woken != sent) sim.fails.push_back({"P03", fmt("%d signals woke up %d waiters", sent, woken)}); }
	FlShm::RobustMode = FlShm::ROBUST_NO; return finish(sim, fmt("%d untimed, %d timed waiters, %s", nw, nt, mode == 2 ? "broadcast" : "signals"));
}
static Reg r_cv("cond-conc", "P03 P02 P07 P08 P04", 2000, 50000, [](const Ctx& c) { return cv_conc(c); }, "waiters own the mutex on return, a signal wakes exactly the longest-waiting one, none is lost, broadcast wakes all, under schedules at every shared access");

// a thread dying inside the wait of a cond: the recovery pass removes exactly its waiter
static Reg r_cvk("cond-dead", "P06 P07", 600, 10000, [](const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); int n = 2 + (int)g.below(3); shm_setup({2, 2, 2, 2, 2, (size_t)n}); sim.reset(c.seed, pick(g)); Proc* ps[3] = {sim.newproc(6000), sim.newproc(6001), sim.newproc(6002)}; int waiting = 0, back = 0, dead = 0; std::vector<VT*> vs;
	for (int i = 0; i < n; i++) vs.push_back(sim.spawn(ps[i & 1], 6100 + i, [&](VT& v) { if (mlock(v, "M", -1)) return; waiting++; int x = cwait(v, "C", "M", -1); if (SIM->stop) return; back++; if (x) SIM->fail("P06 P03", fmt("wait answered %d", x)); munlock(v, "M"); }));
	sim.spawn(ps[2], 6200, [&](VT& v) {
		while (waiting < n && !SIM->stop) SIM->yield_point(true);
		for (int k = 0; k < 50; k++) SIM->yield_point(true);
		for (auto x : vs) if (x->blocked && SIM->rng.chance(1, 2) && dead < n) { auto m = find_mutex("M"); if (m && m->lockval == x->flid()) continue; SIM->kill_thread(x); dead++; }
		recover(v); if (SIM->stop) return; recover(v); if (SIM->stop) return; Counts u; S e = shm_walk(false, nullptr, &u); if (!e.empty()) { SIM->fail("P07 P06", e); return; } if ((int)u.waiter != n - dead - back) { if ((int)u.waiter > n - dead || (int)u.waiter < n - dead - back) SIM->fail("P06", fmt("%zu waiters recorded, %d threads wait", u.waiter, n - dead)); }
		if (cbcast(v, "C") && !SIM->stop) SIM->fail("P03", "broadcast");
		while (back < n - dead && !SIM->stop) SIM->yield_point(true); });
	sim.run(); if (!sim.stop) { Counts u; S e = shm_walk(true, nullptr, &u); if (!e.empty()) sim.fails.push_back({"P07", e}); if (u.waiter) sim.fails.push_back({"P06 P07", "waiter units still in use"}); }
	return finish(sim, fmt("%d waiters, %d died", n, dead));
}, "waiters ending while they wait are removed by recovery, the others stay and wake up");

// internal list lock left by an ended thread is taken over, a running one's is not
static Reg r_lid("lockid", "P08 P06", 300, 4000, [](const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); shm_setup({2, 2, 4, 2, 2, 2}); sim.reset(c.seed, pick(g)); sim.budget = 900000; Proc* p = sim.newproc(7000); Proc* p2 = sim.newproc(7001); p2->fds[3] = p->fds[3] = FILES[0]; bool die = g.chance(1, 2); int which = (int)g.below(3); int inside = 0;
	auto word = [which]() -> flckpid_t* { PFLHEAD h = FlShm::pFlHead; return which == 0 ? &h->file_lock_lockid : which == 1 ? &h->named_mutex_lockid : &h->named_cond_lockid; };
	VT* a = sim.spawn(p, 7100, [&](VT& v) { fullock::fl_lock_lockid(word(), v.flid()); inside = 1; if (die) { SIM->kill_thread(&v); SIM->to_sched(); return; } for (int i = 0; i < 60; i++) { SIM->yield_point(true); if (*word() != v.flid()) { SIM->fail("P08", "the internal list lock was taken from a running thread"); return; } } fullock::fl_unlock_lockid(word(), v.flid()); inside = 2; }); (void)a;
	sim.spawn(p2, 7200, [&](VT& v) { while (!inside && !SIM->stop) SIM->yield_point(true); int x; if (which == 0) x = wrlock(v, 3, 0, 10, -1); else if (which == 1) x = mlock(v, "M", -1); else { x = mlock(v, "M", -1); int y = cwait(v, "C", "M", 50); if (y != ETIMEDOUT && !SIM->stop) SIM->fail("P08", "cond"); } if (SIM->stop) return; if (x) SIM->fail("P08", "lock"); if (!die && inside != 2 && which != 2) SIM->fail("P08", "went on while another running thread has the list locked"); });
	sim.run(); return finish(sim, die ? "the list's owner died" : "the list's owner runs on");
}, "the internal list lock of an ended thread is taken over, of a running one never");

// two waiters of one cond with their own mutexes, signals sent without any mutex: every signal sent while both are listed wakes one
static Reg r_cv2("cond-two-mutexes", "P03", 600, 10000, [](const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); shm_setup({2, 2, 2, 2, 2, 2}); sim.reset(c.seed, pick(g)); Proc* p = sim.newproc(8000); int back = 0; int lvl[2] = {1, 1}; for (auto& l : lvl) if (g.chance(1, 3)) l = 2 + (int)g.below(2); bool g2 = g.chance(1, 2);
	for (int i = 0; i < 2; i++) sim.spawn(p, 8100 + i, [&, i](VT& v) { S m = i ? "M1" : "M0"; for (int k = 0; k < lvl[i]; k++) if (mlock(v, m.c_str(), -1)) return; int x = cwait(v, "C", m.c_str(), -1); if (SIM->stop) return; if (x) { SIM->fail("P03", fmt("wait answered %d", x)); return; } auto o = find_mutex(m); if (!o || o->lockval != v.flid()) { SIM->fail("P03", "returned from wait without owning the mutex"); return; } back++; for (int k = 1; k <= lvl[i] && !SIM->stop; k++) { int u = munlock(v, m.c_str()); auto q = find_mutex(m); bool mine = q && q->lockval == v.flid(); if (!SIM->stop && (u || mine != (k < lvl[i]))) { SIM->fail("P03", fmt("locked at %d levels before waiting; unlock %d of them after it answered %d, the mutex is%s owned", lvl[i], k, u, mine ? "" : " not")); return; } } });
	sim.spawn(p, 8200, [&](VT& v) {
		auto listed = [] { int n = 0; for (auto k = A(FlShm::pFlHead->named_cond_list); k; k = A(k->next)) for (auto w = A(k->waiter_list); w; w = A(w->next)) n++; return n; };
		while (listed() < 2 && !SIM->stop) SIM->yield_point(true);
		if (g2) for (int i = 0; i < 2 && !SIM->stop; i++) { const char* m = i ? "M1" : "M0"; if (mlock(v, m, -1) || SIM->stop) return; munlock(v, m); }
		for (int i = 0; i < 2 && !SIM->stop; i++) { if (csignal(v, "C") && !SIM->stop) SIM->fail("P03", "signal"); for (int n = 0; n < 3000 && back <= i && !SIM->stop; n++) SIM->yield_point(true); if (back <= i && !SIM->stop) { SIM->fail("P03", fmt("%d signals sent while both waited, %d woke up", i + 1, back)); return; } } });
	sim.run(); return finish(sim, "two waiters");
}, "two waiters with different mutexes, locked at one or more levels and free while they wait, signals sent without a mutex as soon as both are listed");

// short-lived owners one after another, with recovery passes running all the time: no live owner ever loses anything
static Reg r_ho("handover", "P06 P02 P01", 1500, 30000, [](const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); int n = 3 + (int)g.below(3), fin = 0, owner = -1, writer = -1; shm_setup({2, 2, 8, 2, 2, 2}); sim.reset(c.seed, pick(g)); Proc* p = sim.newproc(8500); Proc* q = sim.newproc(8501); p->fds[3] = FILES[0]; bool rw = g.chance(1, 3);
	if (g.chance(1, 2)) { FlShm::RobustMode = FlShm::ROBUST_HIGH; FlShm::RobustLoopCnt = 2; }
	for (int i = 0; i < n; i++) sim.spawn(p, 8600 + i, [&, rw](VT& v) {
		int& o = rw ? writer : owner; if ((rw ? wrlock(v, 3, 0, 10, -1) : mlock(v, "M", -1)) && !SIM->stop) { SIM->fail("P06 P02", "lock"); } if (SIM->stop) return;
		if (o != -1) { SIM->fail(rw ? "P06 P01" : "P06 P02", "granted while another running thread holds it"); return; } o = v.id; SIM->yield_point(true); if (SIM->stop) return; o = -1;
		int x = rw ? unlock(v, 3, 0, 10) : munlock(v, "M"); if (x && !SIM->stop) SIM->fail("P06 P01 P02", fmt("unlock of what is held answered %d", x)); fin++; });
	sim.spawn(q, 8700, [&](VT& v) { while (fin < n && !SIM->stop) { recover(v); SIM->yield_point(SIM->rng.chance(1, 2)); } });
	sim.run(); FlShm::RobustMode = FlShm::ROBUST_NO; return finish(sim, "short-lived owners");
}, "owners that lock once, unlock and end, with recovery passes running all along: nothing of a running thread is released");

// the owner a recovery pass looks at gives the mutex away (by waiting) and ends, another running thread gets it meanwhile
static Reg r_rr("recovery-race", "P06 P02", 4000, 60000, [](const Ctx& c) {
	Sim sim; SIM = &sim; Rng g(c.seed); shm_setup({2, 2, 2, 2, 2, 2}); sim.reset(c.seed, g.chance(1, 2) ? RND8 : RND2); sim.budget = 300000; Proc* p = sim.newproc(8800); Proc* q = sim.newproc(8801); bool inside = false, killed = false, yown = false, yfin = false, rfin = false, rgo = false; VT *X = nullptr, *Y = nullptr, *R = nullptr;
	X = sim.spawn(p, 8810, [&](VT& v) { if (mlock(v, "M", -1)) return; inside = true; while (!Y->blocked && !SIM->stop) SIM->yield_point(true); v.park_at = 1 + (long)g.below(45); cwait(v, "C", "M", -1); if (!SIM->stop) { v.park_at = 0; munlock(v, "M"); } });
	Y = sim.spawn(q, 8820, [&](VT& v) { while (!inside && !SIM->stop) SIM->yield_point(true); if (SIM->stop || mlock(v, "M", -1) || SIM->stop) return; yown = true; for (int i = 0; i < 40 && !SIM->stop; i++) { SIM->yield_point(true); auto m = find_mutex("M"); if (!SIM->stop && (!m || m->lockval != v.flid())) { SIM->fail("P06 P02", "the mutex of a running thread was released"); return; } } for (int i = 0; i < 2000 && !rfin && !SIM->stop; i++) SIM->yield_point(true); if (SIM->stop) return; auto m = find_mutex("M"); if (!m || m->lockval != v.flid()) { SIM->fail("P06 P02", "the mutex of a running thread was released by a recovery pass"); return; } if (munlock(v, "M") && !SIM->stop) SIM->fail("P02 P06", "the owner's unlock is refused"); yfin = true; });
	R = sim.spawn(q, 8830, [&](VT& v) { while (!rgo && !SIM->stop) SIM->yield_point(true); v.park_at = 1 + (long)g.below(14); API(v, "CheckMutexDeadLock", -2, [] { fl_pid_cache_map_t k; return (int)FlShm::CheckMutexDeadLock(&k); }, false); v.park_at = 0; rfin = true; });
	sim.spawn(p, 8840, [&](VT&) {
		for (int i = 0; i < 400 && !X->parked && !X->blocked && !SIM->stop; i++) SIM->yield_point(true); rgo = true; for (int i = 0; i < 200 && !R->parked && !rfin && !SIM->stop; i++) SIM->yield_point(true);
		X->park_at = 0; X->parked = false; for (int i = 0; i < 300 && !yown && !SIM->stop; i++) SIM->yield_point(true); if (yown && X->blocked && !X->done && X->op.find("wait") != S::npos) { auto m = find_mutex("M"); if (m && m->lockval != X->flid()) { SIM->kill_thread(X); killed = true; } }
		R->park_at = 0; R->parked = false; while (!rfin && !SIM->stop) SIM->yield_point(true); if (!killed) while (!X->done && !SIM->stop) { R->parked = false; if (X->blocked) csignal(*sim.cur, "C"); SIM->yield_point(true); } });
	sim.run(); (void)yfin; return finish(sim, fmt("one recovery pass over the mutexes, the owner ended: %d", killed));
}, "an owner gives the mutex away and ends while a recovery pass looks at it: the next owner keeps it");
