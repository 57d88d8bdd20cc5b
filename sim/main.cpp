// Driver: seeded batches of runs, one forked process per run; confirmation, minimisation and replay of violations.
#include "rt_int.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern "C" long sim_raw_syscall(long, long, long, long, long, long, long);
using namespace sim;
static double wall() { struct timespec ts; sim_raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return ts.tv_sec + ts.tv_nsec * 1e-9; }
template <class X> static X* shared(size_t n = 1) { void* p = mmap(nullptr, sizeof(X) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return (X*)p; }
static pid_t g_child; static int g_timeout = 120; static volatile int g_timed_out;
static void on_alarm(int) { if (g_child > 0) { g_timed_out = 1; kill(g_child, SIGKILL); } }
static void exec_run(const RunSpec &s, Result* r)
{
	r->status = ST_NONE; g_timed_out = 0; fflush(stdout);
	pid_t p = fork();
	if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(0); run_in_child(s, r); _exit(0); }
	if (p < 0) { r->status = ST_ERROR; snprintf(r->sig, sizeof r->sig, "fork: %s", strerror(errno)); return; }
	g_child = p; alarm(g_timeout); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } alarm(0); g_child = 0;
	if (g_timed_out && r->status != ST_VIOLATION) { // runs take milliseconds: one that is still going is stuck in a loop without memory accesses
		r->status = ST_VIOLATION; snprintf(r->sig, sizeof r->sig, "stuck:no-progress"); snprintf(r->detail, sizeof r->detail, "the run made no progress for %d s of real time", g_timeout); r->hash = 1; return;
	}
	if (r->status == ST_NONE || WIFSIGNALED(st)) { if (r->status != ST_VIOLATION) { r->status = ST_ERROR; snprintf(r->sig, sizeof r->sig, "run ended with %s %d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); } }
}
struct Viol { char sig[400]; char detail[1500]; uint64_t seed; uint64_t n; };
struct Acc {
	uint64_t runs, ok, disc, err, nontriv, steps, switches, preempts, sim_ns, threads, det_checks; uint32_t nCnt, nV, nH; Counter cnt[CAP_CNT]; Viol v[48]; char errmsg[400]; uint64_t errseed;
	struct HH { uint64_t h, s; uint8_t nt; } h[1 << 19];
};
struct Shared { volatile int stop; };
static std::set<std::string> g_known;
static bool known(const char* sig) { for (auto &k : g_known) { if (k == sig) return true; if (k.size() && k.back() == '*' && !strncmp(k.c_str(), sig, k.size() - 1)) return true; } return false; }
static uint64_t run_seed_of(uint64_t base, const char* sc, uint64_t i) { uint64_t h = hash64(base); for (const char* p = sc; *p; ++p) h = hash64(h ^ (uint8_t)*p); return hash64(h + i); }
static void merge_cnt(Counter* d, uint32_t &n, const Counter* s, uint32_t m) { for (uint32_t i = 0; i < m; ++i) { uint32_t j = 0; for (; j < n; ++j) if (!strcmp(d[j].name, s[i].name)) break; if (j == n) { if (n >= CAP_CNT) continue; d[n++] = s[i]; d[j].v = 0; } d[j].v += s[i].v; } }
static void worker(const Scenario* sc, uint64_t base, int w, int J, double tend, uint64_t maxruns, Acc* a, Shared* sh)
{
	signal(SIGALRM, on_alarm); prctl(PR_SET_PDEATHSIG, SIGKILL);
	Result* r = shared<Result>();
	for (uint64_t i = w; i < maxruns && !sh->stop && wall() < tend; i += J) {
		RunSpec s{sc, run_seed_of(base, sc->id, i), false, nullptr, nullptr, nullptr, 0, 0, 0};
		exec_run(s, r); ++a->runs; a->steps += r->steps; a->switches += r->switches; a->preempts += r->preempts; a->sim_ns += r->sim_ns; a->threads += r->threads;
		merge_cnt(a->cnt, a->nCnt, r->cnt, r->nCnt);
		if (a->nH < (1 << 19)) a->h[a->nH++] = {r->hash, r->sched_hash, (uint8_t)(r->nontrivial && r->status != ST_DISCARD)};
		if (r->nontrivial) ++a->nontriv;
		if (r->status == ST_OK) ++a->ok; else if (r->status == ST_DISCARD) ++a->disc;
		else if (r->status == ST_VIOLATION) {
			uint32_t j = 0; for (; j < a->nV; ++j) if (!strcmp(a->v[j].sig, r->sig)) break;
			if (j == a->nV && a->nV < 48) { memcpy(a->v[j].sig, r->sig, 400); snprintf(a->v[j].detail, 1500, "%s", r->detail); a->v[j].seed = s.seed; a->v[j].n = 0; ++a->nV; }
			if (j < a->nV) ++a->v[j].n;
			if (!known(r->sig)) sh->stop = 1;
		} else { ++a->err; if (!a->errmsg[0]) { snprintf(a->errmsg, 400, "%s", r->sig); a->errseed = s.seed; } if (a->err > 3) sh->stop = 1; }
		if (i % 41 == 0 && r->status != ST_ERROR) { uint64_t h = r->hash; exec_run(s, r); ++a->det_checks; if (r->hash != h) { ++a->err; snprintf(a->errmsg, 400, "nondeterministic run: seed %llu", (unsigned long long)s.seed); a->errseed = s.seed; sh->stop = 1; } }
	}
}
static std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
struct Trace { std::vector<uint32_t> W, S, F; };
static void trim(std::vector<uint32_t> &v) { while (!v.empty() && !v.back()) v.pop_back(); }
static bool try_trace(const Scenario* sc, const Trace &t, const char* sig, Result* r, uint64_t seed)
{
	RunSpec s{sc, seed, true, t.W.data(), t.S.data(), t.F.data(), (uint32_t)t.W.size(), (uint32_t)t.S.size(), (uint32_t)t.F.size()};
	exec_run(s, r); return r->status == ST_VIOLATION && !strcmp(r->sig, sig);
}
static Trace of(const Result* r) { Trace t; t.W.assign(r->W, r->W + r->nW); t.S.assign(r->S, r->S + r->nS); t.F.assign(r->F, r->F + r->nF); trim(t.W); trim(t.S); trim(t.F); return t; }
static Trace shrink(const Scenario* sc, Trace best, const char* sig, Result* r, uint64_t seed, double budget, uint64_t &attempts)
{
	double end = wall() + budget; attempts = 0;
	auto attempt = [&](const Trace &t) { if (wall() > end) return false; ++attempts; if (try_trace(sc, t, sig, r, seed)) { best = of(r); return true; } return false; };
	for (int round = 0; round < 4 && wall() < end; ++round) {
		size_t before = best.W.size() + best.S.size() + best.F.size(); uint64_t sum = 0; for (auto x : best.W) sum += x;
		for (int st = 0; st < 3; ++st) { // faults, schedule, workload
			auto sel = [&](Trace &t) -> std::vector<uint32_t> & { return st == 0 ? t.F : st == 1 ? t.S : t.W; };
			if (st < 2) { Trace t = best; sel(t).clear(); if (attempt(t)) continue; }
			for (size_t chunk = std::max<size_t>(sel(best).size() / 2, 1); wall() < end; chunk /= 2) {
				for (size_t i = 0; i < sel(best).size() && wall() < end;) {
					Trace t = best; auto &v = sel(t); size_t e = std::min(v.size(), i + chunk); bool any = false;
					if (st == 2) { v.erase(v.begin() + i, v.begin() + e); if (attempt(t)) continue; t = best; }
					auto &u = sel(t); e = std::min(u.size(), i + chunk); for (size_t k = i; k < e; ++k) { any |= u[k] != 0; u[k] = 0; }
					if (any && attempt(t)) { i += chunk; continue; }
					if (chunk == 1 && st == 2 && i < best.W.size() && best.W[i] > 1) { t = best; t.W[i] /= 2; if (!attempt(t)) { t = best; t.W[i] -= 1; attempt(t); } }
					i += chunk;
				}
				if (chunk == 1) break;
			}
		}
		uint64_t sum2 = 0; for (auto x : best.W) sum2 += x;
		if (best.W.size() + best.S.size() + best.F.size() == before && sum2 == sum) break;
	}
	return best;
}
static void write_replay(const char* path, const Scenario* sc, const Trace &t, const Result* r, uint64_t seed)
{
	FILE* f = fopen(path, "w"); if (!f) { perror(path); _exit(2); }
	fprintf(f, "simcex-replay 1\nscenario %s\nproperty %s\nseed %llu\nthorough %d\nhash %llu\nsig %s\n", sc->id, sc->property, (unsigned long long)seed, g_thorough, (unsigned long long)r->hash, r->sig);
	const std::vector<uint32_t>* v[3] = {&t.W, &t.S, &t.F}; const char* nm[3] = {"workload", "schedule", "faults"};
	for (int k = 0; k < 3; ++k) { fprintf(f, "%s %zu", nm[k], v[k]->size()); for (uint32_t x : *v[k]) fprintf(f, " %u", x); fprintf(f, "\n"); }
	fprintf(f, "violation %s\n", r->detail);
	fprintf(f, "# event log of the minimised run: threads %llu, switches %llu, preemptions %llu, steps %llu, simulated ns %llu\n", (unsigned long long)r->threads + 1, (unsigned long long)r->switches, (unsigned long long)r->preempts, (unsigned long long)r->steps, (unsigned long long)r->sim_ns);
	fwrite(r->log, 1, std::min(r->nLog, 20000u), f); fclose(f);
}
static const Scenario* find(const char* id) { for (auto &s : scenarios()) if (!strcmp(s.id, id)) return &s; return nullptr; }
static int replay(const char* path, bool verbose)
{
	FILE* f = fopen(path, "r"); if (!f) { perror(path); return 2; }
	char id[128] = "", sig[512] = ""; unsigned long long seed = 0, hash = 0; int th = 0; Trace t; size_t n; char line[128];
	if (!fgets(line, sizeof line, f) || strncmp(line, "simcex-replay", 13)) { fprintf(stderr, "not a replay file\n"); return 2; }
	if (fscanf(f, " scenario %127s property %127s seed %llu thorough %d hash %llu", id, line, &seed, &th, &hash) < 5) return 2;
	if (fscanf(f, " sig %511[^\n]", sig) != 1) return 2;
	for (int k = 0; k < 3; ++k) { char nm[32]; if (fscanf(f, " %31s %zu", nm, &n) != 2) return 2; auto &v = k == 0 ? t.W : k == 1 ? t.S : t.F; v.resize(n); for (size_t i = 0; i < n; ++i) if (fscanf(f, "%u", &v[i]) != 1) return 2; }
	fclose(f); g_thorough = th; const Scenario* sc = find(id); if (!sc) { fprintf(stderr, "unknown scenario %s\n", id); return 2; }
	if (sc->warm) sc->warm();
	Result* r = shared<Result>(); signal(SIGALRM, on_alarm); bool hit = try_trace(sc, t, sig, r, seed);
	if (verbose) { printf("status %d\nsig %s\nhash %llu (recorded %llu)\n%s\n", r->status, r->status == ST_VIOLATION || r->status == ST_ERROR ? r->sig : "-", (unsigned long long)r->hash, hash, r->status == ST_VIOLATION ? r->detail : ""); fwrite(r->log, 1, r->nLog, stdout); }
	if (!hit) printf("REPLAY not reproduced (status %d sig %s)\n", r->status, r->sig);
	else printf("REPLAY reproduced %s %s\n", r->hash == hash ? "exactly" : "same-signature", sig);
	return hit ? 1 : r->status == ST_ERROR ? 2 : 0;
}
int main(int argc, char** argv)
{
	int per = personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIMCEX_ASLR")) { if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIMCEX_ASLR", "1", 1); execv("/proc/self/exe", argv); } }
	std::string cmd = argc > 1 ? argv[1] : "list"; std::map<std::string, std::string> o;
	if (cmd == "list") { for (auto &s : scenarios()) printf("%s\t%s\t%s\n", s.id, s.property, s.rule); return 0; }
	if (cmd == "replay") return replay(argv[2], argc > 3);
	for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
	auto num = [&](const char* k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
	g_thorough = num("--thorough", 0) != 0; const Scenario* sc = find(o["--scenario"].c_str()); if (!sc) { fprintf(stderr, "unknown scenario\n"); return 2; }
	g_timeout = (int)num("--run-timeout", 120);
	if (o.count("--known")) { FILE* f = fopen(o["--known"].c_str(), "r"); char b[512]; if (f) { while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) g_known.insert(b); } fclose(f); } }
	uint64_t base = o.count("--seed") ? strtoull(o["--seed"].c_str(), nullptr, 10) : 1;
	if (sc->warm) sc->warm();
	if (cmd == "one") { // a single seed, verbose
		signal(SIGALRM, on_alarm); Result* r = shared<Result>(); uint64_t sd = o.count("--raw") ? strtoull(o["--raw"].c_str(), nullptr, 10) : run_seed_of(base, sc->id, (uint64_t)num("--index", 0)); RunSpec s{sc, sd, false, 0, 0, 0, 0, 0, 0}; double t0 = wall(); exec_run(s, r);
		printf("status %d sig %s\n%s\nhash %llx steps %llu switches %llu threads %llu sim_ns %llu W %u S %u F %u wall %.3f\n", r->status, r->sig, r->status == ST_VIOLATION ? r->detail : "", (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->threads, (unsigned long long)r->sim_ns, r->nW, r->nS, r->nF, wall() - t0);
		for (uint32_t i = 0; i < r->nCnt; ++i) printf("  %s %llu\n", r->cnt[i].name, (unsigned long long)r->cnt[i].v); fwrite(r->log, 1, r->nLog, stdout); return r->status == ST_OK ? 0 : 1;
	}
	double t0 = wall(), T = num("--time", 10); int J = (int)num("--jobs", 8); uint64_t maxr = (uint64_t)num("--max-runs", 1e12);
	Acc* a = shared<Acc>(J); Shared* sh = shared<Shared>(); std::vector<pid_t> ps; fflush(stdout);
	for (int w = 0; w < J; ++w) { pid_t p = fork(); if (!p) { worker(sc, base, w, J, t0 + T, maxr, &a[w], sh); _exit(0); } ps.push_back(p); }
	for (pid_t p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } }
	double t1 = wall();
	Acc* m = shared<Acc>(); std::set<uint64_t> dh, ds; std::map<std::string, Viol> vs;
	for (int w = 0; w < J; ++w) {
		Acc &x = a[w]; m->runs += x.runs; m->ok += x.ok; m->disc += x.disc; m->err += x.err; m->nontriv += x.nontriv; m->steps += x.steps; m->switches += x.switches; m->preempts += x.preempts; m->sim_ns += x.sim_ns; m->threads += x.threads; m->det_checks += x.det_checks;
		merge_cnt(m->cnt, m->nCnt, x.cnt, x.nCnt); for (uint32_t i = 0; i < x.nH; ++i) { if (x.h[i].nt) dh.insert(x.h[i].h); ds.insert(x.h[i].s); }
		for (uint32_t i = 0; i < x.nV; ++i) { auto it = vs.find(x.v[i].sig); if (it == vs.end()) vs[x.v[i].sig] = x.v[i]; else it->second.n += x.v[i].n; }
		if (x.errmsg[0] && !m->errmsg[0]) { memcpy(m->errmsg, x.errmsg, 400); m->errseed = x.errseed; }
	}
	FILE* out = o.count("--out") ? fopen(o["--out"].c_str(), "w") : stdout; if (!out) { perror("out"); return 2; }
	std::string rdir = o.count("--replay-dir") ? o["--replay-dir"] : "/tmp"; Result* r = shared<Result>(); signal(SIGALRM, on_alarm);
	fprintf(out, "{\"scenario\":\"%s\",\"property\":\"%s\",\"rule\":\"%s\",\"runs\":%llu,\"ok\":%llu,\"discarded\":%llu,\"errors\":%llu,\"error\":\"%s\",\"error_seed\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"distinct_schedules\":%zu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"threads\":%llu,\"sim_s\":%.6f,\"det_checks\":%llu,\"wall\":%.2f,\"counters\":{",
		sc->id, sc->property, esc(sc->rule).c_str(), (unsigned long long)m->runs, (unsigned long long)m->ok, (unsigned long long)m->disc, (unsigned long long)m->err, esc(m->errmsg).c_str(), (unsigned long long)m->errseed, (unsigned long long)m->nontriv, dh.size(), ds.size(), (unsigned long long)m->steps, (unsigned long long)m->switches, (unsigned long long)m->preempts, (unsigned long long)m->threads, m->sim_ns * 1e-9, (unsigned long long)m->det_checks, t1 - t0);
	for (uint32_t i = 0; i < m->nCnt; ++i) fprintf(out, "%s\"%s\":%llu", i ? "," : "", m->cnt[i].name, (unsigned long long)m->cnt[i].v);
	fprintf(out, "},\"violations\":["); bool first = true; int shr = 0; int rc = 0;
	for (auto &kv : vs) {
		Viol &v = kv.second; bool kn = known(v.sig); std::string path; bool exact = false, confirmed = false; uint64_t att = 0; size_t tn = 0; std::string det = v.detail;
		if (!kn && shr < 3) {
			++shr; RunSpec s{sc, v.seed, false, 0, 0, 0, 0, 0, 0}; exec_run(s, r); uint64_t h1 = r->hash; bool ok1 = r->status == ST_VIOLATION && !strcmp(r->sig, v.sig); bool fits = r->nW <= CAP_W && r->nS <= CAP_S && r->nF <= CAP_F; Trace t = of(r); exec_run(s, r); bool ok2 = r->status == ST_VIOLATION && r->hash == h1;
			if (ok1 && ok2 && fits && try_trace(sc, t, v.sig, r, v.seed)) {
				Trace b = shrink(sc, t, v.sig, r, v.seed, num("--shrink", 25), att); if (!try_trace(sc, b, v.sig, r, v.seed)) { b = t; try_trace(sc, b, v.sig, r, v.seed); }
				b = of(r); bool again = try_trace(sc, b, v.sig, r, v.seed); det = r->detail; tn = b.W.size() + b.S.size() + b.F.size();
				char nm[600]; snprintf(nm, sizeof nm, "%s/%s-%016llx.replay", rdir.c_str(), sc->id, (unsigned long long)hash64(v.seed)); path = nm; if (again) write_replay(nm, sc, b, r, v.seed);
				pid_t p = fork(); if (!p) { int fd = 1; fd = dup2(2, 1); (void)fd; execl("/proc/self/exe", "simcex", "replay", nm, nullptr); _exit(9); }
				int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } exact = WIFEXITED(st) && WEXITSTATUS(st) == 1; confirmed = again && exact;
			} else fprintf(stderr, "violation %s not confirmed: ok1=%d ok2=%d fits=%d\n", v.sig, ok1, ok2, fits);
			if (!confirmed) rc = 2;
		}
		fprintf(out, "%s{\"sig\":\"%s\",\"detail\":\"%s\",\"seed\":%llu,\"count\":%llu,\"known\":%s,\"confirmed\":%s,\"replay\":\"%s\",\"shrink_attempts\":%llu,\"choices\":%zu}", first ? "" : ",", esc(v.sig).c_str(), esc(det).c_str(), (unsigned long long)v.seed, (unsigned long long)v.n, kn ? "true" : "false", confirmed ? "true" : "false", esc(path).c_str(), (unsigned long long)att, tn); first = false;
	}
	fprintf(out, "]}\n"); fclose(out); return rc;
}
