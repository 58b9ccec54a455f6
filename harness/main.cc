#include "sim.h"
#include <chrono>
static Result run1(Test& t, u64 seed, long it, const S& prop, bool th) { Ctx c; c.seed = seed; c.iter = it; c.prop = prop; c.thorough = th; return t.fn(c); }
static bool has(const S& props, const S& p) { std::istringstream i(props); S w; while (i >> w) if (w == p) return true; return false; }
int special(const S& what, const S& dir);
int main(int argc, char** argv) {
	if (argc == 4 && S(argv[1]) == "--special") { int r = special(argv[2], argv[3]); fflush(stdout); _exit(r); }
	S prop, replay, only; u64 seed = 1, kase = 0; bool th = false, have_case = false, list = false; double limit = 1e9; S out; long n_over = 0; int shard = 0, shards = 1;
	for (int i = 1; i < argc; i++) { S a = argv[i]; auto nx = [&] { return S(++i < argc ? argv[i] : ""); };
		if (a == "--property") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--thorough") th = true; else if (a == "--test") only = nx(); else if (a == "--case") { kase = strtoull(nx().c_str(), 0, 10); have_case = true; } else if (a == "--limit") limit = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--list") list = true; else if (a == "--n") n_over = atol(nx().c_str()); else if (a == "--scratch") g_scratch = nx(); else if (a == "--shard") { S s = nx(); sscanf(s.c_str(), "%d/%d", &shard, &shards); } }
	if (g_scratch.empty()) { char b[] = "/tmp/flckh.XXXXXX"; g_scratch = mkdtemp(b); }
	signal(SIGPIPE, SIG_IGN);
	if (list) { for (auto& t : tests()) printf("%s\t%s\t%s\n", t.name.c_str(), t.props.c_str(), t.rule.c_str()); return 0; }
	auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
	long total = 0, evals = 0; bool bad = false; std::vector<Test*> sel; for (auto& t : tests()) if ((prop.empty() || has(t.props, prop)) && (only.empty() || t.name == only)) sel.push_back(&t);
	std::ostringstream sum;
	for (size_t k = 0; k < sel.size() && !bad; k++) { Test& t = *sel[k]; long n = have_case ? 1 : n_over ? n_over : th ? t.thorough : t.quick; long done = 0, te = 0; double share = el() + (limit - el()) / (sel.size() - k);
		for (long i = shard; i < n && !bad; i += have_case ? n : shards) { if (!have_case && i > shard + 20 * shards && el() > share) break;
			u64 cs = have_case ? kase : seed * 1000003ULL + i * 7ULL + 1; Result r = run1(t, cs, i, prop, th); done++; te += r.evals;
			for (auto& f : r.fails) if (prop.empty() || has(f.props, prop)) { bad = true; S p = prop.empty() ? f.props : prop;
				std::ostringstream o; o << "property " << p << "\ntest " << t.name << "\ncase " << cs << "\nwhat " << f.msg << "\nscenario " << r.desc << "\nrule " << t.rule << "\nhistory (tN> call, tN< answer):\n"; size_t from = r.log.size() > 300 ? r.log.size() - 300 : 0; for (size_t x = from; x < r.log.size(); x++) o << "  " << r.log[x] << "\n";
				if (!out.empty()) { std::ofstream fo(out); fo << o.str(); } printf("FAIL %s %s case=%llu: %s\n", p.c_str(), t.name.c_str(), (unsigned long long)cs, f.msg.c_str()); if (out.empty() && have_case) printf("%s", o.str().c_str()); break; } }
		total += done; evals += te; sum << "RAN " << t.name << " cases=" << done << " evals=" << te << " of=" << n << "\n"; }
	printf("%sTOTAL cases=%ld evals=%ld wall=%.2f\n", sum.str().c_str(), total, evals, el());
	fflush(stdout); _exit(bad ? 1 : 0);
}
