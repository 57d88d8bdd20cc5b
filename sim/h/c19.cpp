// C19: independent objects used at the same time on different threads.
#include "asubj.h"
#include "../os.h"
#include "rnd.h"
#include <atomic>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
struct Job { std::function<Sp()> mk; std::string name; Bytes good; bool forged = false, threads = false; unsigned reps = 1; std::vector<Bytes> out; std::vector<R> r; };
// every job on a thread of its own, all at once; then each alone
void together(std::vector<Job> &js)
{
	unsigned T = (unsigned)js.size(); std::atomic<unsigned> inside(0); std::atomic<bool> overlap(false);
	for (unsigned t = 0; t < T; ++t) { Job &j = js[t]; sim::log("thread %u: %u x %s%s", t, j.reps, j.name.c_str(), j.forged ? " (forged input)" : ""); sim::count(("op." + j.name).c_str()); }
	std::vector<sim::Thread> th; for (unsigned t = 0; t < T; ++t) th.push_back(sim::spawn([&, t] { Job &j = js[t]; Sp kept;
		for (unsigned i = 0; i < j.reps; ++i) { Sp x; if (kept && i % 2) x = std::move(kept); else x = j.mk();
			++inside; if (inside > 1) overlap = true; R r = call([&] { x->init(); x->prepare(); x->run(); }); --inside; j.r.push_back(r); j.out.push_back(x->out); kept = std::move(x); } }, "user"));
	for (auto &t : th) sim::join(t); if (overlap) sim::nontrivial();
	for (unsigned t = 0; t < T; ++t) { Job &j = js[t]; Sp x = j.mk(); R r = call([&] { x->init(); x->prepare(); x->run(); });
		for (unsigned i = 0; i < j.reps; ++i) {
			SIM_CHECK(j.r[i].o == r.o, ("threads:outcome:" + j.name).c_str(), "%s on thread %u of %u: %s; alone: %s", j.name.c_str(), t, T, j.r[i].ok() ? "normal return" : j.r[i].what.c_str(), r.ok() ? "normal return" : r.what.c_str());
			if (r.ok()) SIM_CHECK(first_diff(j.out[i], x->out) < 0, ("threads:result:" + j.name).c_str(), "%s on thread %u of %u, use %u: byte %ld of %zu differs from what the object gives alone", j.name.c_str(), t, T, i, first_diff(j.out[i], x->out), x->out.size()); } }
}
// key pairs and signatures that take seconds to make: one set serves all runs
struct Slow { int par; Wire w; Bytes sig; std::string err; };
std::vector<Slow> slow;
void slow_warm()
{
	const int pars[] = {17, 50, 34, 13, 58}; std::vector<int> fd;
	for (int par : pars) { int p[2]; if (pipe(p)) _exit(9); if (fork() == 0) { syscall(SYS_alarm, 400); Bytes o; auto put = [&](const Bytes &b) { apn(o, b.size()); app(o, b); }; Wire w; Bytes sg; R r = call([&] { Rng g(par == 13 ? 4 : par * 3 + 1); if (par >= 13 && par <= 16) { std::unique_ptr<IAsymmetricCipher> c(make_kem(true, par, &g)); w = wire_of(c->Generate()); return; } std::unique_ptr<Asymmetric::Sign::IAsymmetricSigner> c(make_signer(par, &g)); w = wire_of(c->Generate()); std::unique_ptr<AsymmetricKey> k(unpack(w.sk)); c->Initialize(k.get()); c->Sign(Bytes(20, 7), sg); w.sk = pack(*k); }); if (!r.ok()) w = Wire();
		put(w.pk); put(w.sk); put(sg); put(Bytes(r.what.begin(), r.what.end())); const uint8_t* q = o.data(); size_t n = o.size(); while (n) { ssize_t k = write(p[1], q, n); if (k <= 0) _exit(1); q += k; n -= k; } _exit(0); } close(p[1]); fd.push_back(p[0]); }
	for (size_t x = 0; x < fd.size(); ++x) { Bytes o; uint8_t b[65536]; ssize_t k; while ((k = read(fd[x], b, sizeof b)) > 0) o.insert(o.end(), b, b + k); close(fd[x]); int st; wait(&st); size_t p = 0; auto get = [&](Bytes &v) { if (p + 8 > o.size()) return false; uint64_t n; memcpy(&n, &o[p], 8); p += 8; if (p + n > o.size()) return false; v.assign(o.begin() + p, o.begin() + p + n); p += n; return true; };
		Slow s; s.par = pars[x]; Bytes e; if (!(get(s.w.pk) && get(s.w.sk) && get(s.sig) && get(e))) s.err = "the process ended"; else if (s.w.pk.empty()) s.err = "failed: " + std::string(e.begin(), e.end()); slow.push_back(s); }
}
}
SCENARIO(independent_threads, "C19", "at least two threads were inside operations of the library at the same time")
{
	sim::random_machine(); sim::sched_random(); unsigned T = sim::pick_range(2, 4); bool twins = sim::chance(1, 3); std::vector<Job> js(T); if (twins) sim::count("probe.equal_objects");
	for (unsigned t = 0; t < T; ++t) { Job &j = js[t]; if (t && twins) { j.mk = js[0].mk; j.name = js[0].name; j.forged = js[0].forged; } else j.mk = draw_subject(j.name, j.threads, &j.good, j.forged, false); j.reps = sim::pick_range(1, 3); }
	together(js);
}
SCENARIO(other_threads, "C19", "at least two threads were inside operations of the library at the same time")
{
	sim::random_machine(); sim::sched_random(); simos::reset(); sim::StepLimit lim(2000000000); unsigned T = sim::pick_range(2, 3); unsigned twins = sim::pick(3); std::vector<Job> js(T); if (twins) sim::count("probe.equal_objects");
	for (unsigned t = 0; t < T; ++t) { Job &j = js[t]; if (t && twins == 2) { j.mk = js[0].mk; j.name = js[0].name; } else if (t && twins == 1 && sim::pick(2)) j.mk = draw_subject(j.name, j.threads, &j.good, j.forged, false); else j.mk = draw_other(j.name); j.reps = sim::pick_range(1, 2); }
	together(js);
}
SCENARIO_WARM(slow_threads, "C19", "at least two threads were inside operations of the library at the same time", slow_warm)
{
	sim::machine(); sim::sched_random(); sim::StepLimit lim(8000000000ull); unsigned T = 2; bool same = sim::chance(2, 3); unsigned which = sim::pick((uint32_t)slow.size()); std::vector<Job> js(T);
	for (unsigned t = 0; t < T; ++t) { Job &j = js[t]; if (t && !same) which = sim::pick((uint32_t)slow.size()); const Slow &s = slow[which]; SIM_CHECK(s.err.empty(), "threads:prepare", "preparing a key pair of parameter set %d failed: %s", s.par, s.err.c_str()); if (s.par >= 13 && s.par <= 16) j.mk = draw_kem(j.name, true, s.par, &s.w); else j.mk = draw_sig(j.name, s.par, &s.w, &s.sig); }
	together(js);
}
// generators and entropy providers: no two threads are given the same bytes
SCENARIO(random_threads, "C19", "at least two threads were inside operations of the library at the same time")
{
	sim::random_machine(); sim::sched_random(); simos::reset(); sim::StepLimit lim(200000000); unsigned T = sim::pick_range(2, 4); bool twins = sim::chance(1, 2); int k0 = (int)sim::pick(E_COUNT); static const Providers pv[] = {Providers::CSP, Providers::RDP, Providers::ACP, Providers::ECP}; Prngs pr0 = pick_prng(); Providers pv0 = pv[sim::pick(4)];
	struct Draw { int k; Providers pv; Prngs pr; std::vector<size_t> n; std::vector<bool> sec; bool reset; std::vector<Bytes> out; R r; }; std::vector<Draw> ds(T); std::atomic<unsigned> inside(0); std::atomic<bool> overlap(false);
	for (unsigned t = 0; t < T; ++t) { Draw &d = ds[t]; d.k = twins ? k0 : (int)sim::pick(E_COUNT); if (d.k == E_CJP) d.k = E_CSP; d.pv = twins ? pv0 : pv[sim::pick(4)]; d.pr = twins ? pr0 : pick_prng(); unsigned n = sim::pick_range(1, 3); for (unsigned i = 0; i < n; ++i) { d.n.push_back(16 + sim::pick(300)); d.sec.push_back(sim::pick(2)); } d.reset = sim::pick(2); sim::log("thread %u: %s, %u requests", t, ek_name(d.k), n); sim::count((std::string("op.") + ek_name(d.k)).c_str()); }
	std::vector<sim::Thread> th; for (unsigned t = 0; t < T; ++t) th.push_back(sim::spawn([&, t] { Draw &d = ds[t]; ++inside; if (inside > 1) overlap = true; d.r = call([&] { Source s = make_source(d.k, d.pv, d.pr); for (size_t i = 0; i < d.n.size(); ++i) { Bytes b(d.n[i]); if (d.sec[i]) { SBytes q(d.n[i]); s.gen(q, 0, d.n[i], false); b = U(q); } else s.gen(b, 0, d.n[i], false); d.out.push_back(b); if (d.reset && s.can_reset()) s.reset(); } }); --inside; }, "user"));
	for (auto &t : th) sim::join(t); if (overlap) sim::nontrivial();
	std::map<Bytes, unsigned> seen; for (unsigned t = 0; t < T; ++t) { Draw &d = ds[t]; SIM_CHECK(d.r.ok(), (std::string("threads:refused:") + ek_name(d.k)).c_str(), "%s on thread %u failed: %s", ek_name(d.k), t, d.r.what.c_str());
		for (auto &b : d.out) for (size_t i = 0; i + 16 <= b.size(); ++i) { Bytes w(b.begin() + i, b.begin() + i + 16); if (!seen.emplace(w, t).second) sim::violation((std::string("threads:repeated:") + ek_name(d.k)).c_str(), "%s on thread %u was given 16 bytes that thread %u also has", ek_name(d.k), t, seen[w]); } }
}
