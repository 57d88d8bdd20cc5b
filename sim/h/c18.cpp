// C18: the thread pool, the events and the asynchronous helpers.
#include "cx.h"
#include <atomic>
#include <list>
#include <future>
#include "ThreadPool.h"
#include "Event.h"
#include "EventHandler.h"
#include "ParallelCallback.h"
using namespace cx;
namespace {
struct TaskFailed { int id; };
struct Task { std::atomic<unsigned> runs{0}, ended{0}; std::atomic<bool> accepted{false}, refused{false}; unsigned yields = 0; bool fails = false, detached = false; int child = -1; };
struct Plan { std::vector<std::unique_ptr<Task>> all; unsigned add(unsigned depth) { unsigned id = (unsigned)all.size(); all.emplace_back(new Task); unsigned y = sim::pick(4); bool f = sim::chance(1, 10), d = sim::chance(1, 5); int c = depth < 2 && sim::chance(1, 6) ? (int)add(depth + 1) : -1; Task &t = *all[id]; t.yields = y; t.fails = f; t.detached = d; t.child = c; return id; } };
}
SCENARIO(thread_pool, "C18", "tasks were submitted while others ran, or a fault was injected")
{
	sim::random_machine(); sim::sched_random(); unsigned mx = sim::pick_range(2, 4), rounds = sim::pick_range(1, 3), nsub = sim::pick_range(1, 3); Plan P; bool faults = sim::chance(1, 3);
	std::atomic<unsigned> running(0), started(0), failed(0), reported(0); std::atomic<unsigned> most(0); std::atomic<bool> overlap(false);
	CEX::ThreadPool* pool = new CEX::ThreadPool(mx); SIM_CHECK(pool->MaximumThreads() == mx, "pool:maximum", "a pool of %u threads says it has at most %zu", mx, pool->MaximumThreads());
	std::function<void(unsigned, bool)> submit; // hands task id to the pool
	auto body = [&](unsigned id) { Task &t = *P.all[id]; unsigned r = ++running; unsigned m = most; while (r > m && !most.compare_exchange_weak(m, r)) { } if (r > 1) overlap = true; ++started;
		SIM_CHECK(++t.runs == 1, "pool:twice", "task %u was started a second time", id); SIM_CHECK(r <= mx, "pool:threads", "%u tasks run at the same time in a pool of %u threads", r, mx);
		for (unsigned y = 0; y < t.yields; ++y) sim::yield(); if (t.child >= 0) submit((unsigned)t.child, false); ++t.ended; --running; if (t.fails) { ++failed; throw TaskFailed{(int)id}; } };
	submit = [&](unsigned id, bool faulty) { Task &t = *P.all[id]; bool al = faulty && sim::fault("allocation", 1, 6), th = faulty && !al && sim::fault("thread_create", 1, 4); if (al) sim::arm_alloc(sim::fpick(5)); if (th) sim::arm_thread(0, 1 + sim::fpick(3)); t.accepted = true;
		R r = call([&] { std::function<void(void)> f = [&body, id] { body(id); }; if (t.detached) pool->AddDetachedTask(f); else pool->AddTask(f); }); bool fired = al || th ? sim::alloc_fault_fired() || sim::thread_fault_fired() : false; if (al) sim::arm_alloc(-1); if (th) sim::arm_thread(-1); if (fired) sim::nontrivial();
		if (!r.ok()) { t.accepted = false; t.refused = true; sim::count("probe.task_refused"); if (!faults) sim::violation("pool:refused", "a task was refused without a fault: %s", r.what.c_str()); } else sim::count("op.task"); };
	auto wait = [&](int how) { R r; bool err = false; r = call([&] { try { if (how == 0) pool->WaitAll(); else pool->JoinAll(how == 1); } catch (TaskFailed &) { err = true; } }); SIM_CHECK(r.ok(), "pool:wait", "waiting ended in %s", r.what.c_str()); if (err) ++reported; };
	unsigned base = 0; bool rounds_left = true;
	for (unsigned rd = 0; rd < rounds; ++rd) {
		std::vector<std::vector<unsigned>> work(nsub); std::vector<unsigned> waits(nsub); for (unsigned s = 0; s < nsub; ++s) { unsigned k = sim::pick_range(1, 5); for (unsigned i = 0; i < k; ++i) work[s].push_back(P.add(0)); waits[s] = sim::chance(1, 4) ? 1 + sim::pick(k) : 0; }
		unsigned how = sim::pick(4), f0 = failed, r0 = reported; if (rd + 1 == rounds && how == 0) how = 3; sim::log("round %u: %zu tasks, then %s", rd, P.all.size() - base, how == 0 ? "WaitAll" : how == 1 ? "JoinAll" : how == 2 ? "JoinAll(false)" : "destroy"); if (how == 3) { rd = rounds; rounds_left = false; }
		bool early = sim::chance(1, 4); // shut down while others still submit: allowed, the pool is not gone
		std::vector<sim::Thread> th; for (unsigned s = 1; s < nsub; ++s) th.push_back(sim::spawn([&, s] { unsigned i = 0; for (unsigned id : work[s]) { submit(id, false); if (++i == waits[s]) wait(0); } }, "submitter"));
		{ unsigned i = 0; for (unsigned id : work[0]) { submit(id, faults); if (++i == waits[0]) wait(0); } }
		if (early && (how == 1 || how == 2)) { wait((int)how); sim::count("probe.join_while_submitting"); }
		for (auto &t : th) sim::join(t);
		if (how == 3) delete pool; else wait((int)how);
		unsigned acc = 0, ran = 0; for (unsigned id = base; id < P.all.size(); ++id) { Task &t = *P.all[id]; unsigned r = t.runs, e = t.ended; if (t.accepted) ++acc; ran += r;
			if (t.refused) SIM_CHECK(!r, "pool:refused-ran", "task %u ran although it was refused", id); SIM_CHECK(r == e, "pool:still-running", "task %u is still running after the wait ended", id);
			bool may_drop = how == 2; if (t.accepted && !may_drop) SIM_CHECK(r == 1, "pool:lost", "task %u was accepted and ran %u times before %s ended", id, r, how == 0 ? "WaitAll" : how == 1 ? "JoinAll" : "the destructor"); }
		sim::log("%u accepted, %u ran", acc, ran); if (overlap || most > 1) sim::nontrivial(); if (ran < acc) sim::count("probe.dropped_by_join");
		if (how != 3 && failed > f0) { SIM_CHECK(reported > r0, "pool:error-lost", "%u tasks threw and no one who waited was told", failed - f0); sim::count("probe.task_error_reported"); } SIM_CHECK(reported <= failed, "pool:error-made-up", "%u errors were reported, %u tasks threw", (unsigned)reported, (unsigned)failed);
		if (how != 0) SIM_CHECK(sim::wait_quiesce(1000000000) && sim::live_threads() == 1, "pool:threads-left", "%u threads are still there after %s", sim::live_threads() - 1, how == 3 ? "the pool was destroyed" : "JoinAll");
		if (how != 3) { SIM_CHECK(pool->JobsRemaining() == 0, "pool:remaining", "%zu jobs remain after the wait", pool->JobsRemaining()); SIM_CHECK(pool->ThreadCount() <= mx, "pool:count", "%zu threads in a pool of %u", pool->ThreadCount(), mx); }
		base = (unsigned)P.all.size();
	}
	if (rounds_left) { delete pool; SIM_CHECK(sim::wait_quiesce(1000000000) && sim::live_threads() == 1, "pool:threads-left", "%u threads are still there after the pool was destroyed", sim::live_threads() - 1); }
}
SCENARIO(events, "C18", "handlers were attached or detached between or during calls")
{
	sim::random_machine(); sim::sched_random();
	typedef CEX::event<int> Ev; static const unsigned MAXC = 96, MAXH = 40; struct Hist { std::atomic<uint64_t> at{0}, bt{UINT64_MAX}, ab{0}, de{0}; }; // attach end / detach begin, attach begin / detach end
	std::atomic<uint64_t> clk(1); std::vector<std::unique_ptr<std::atomic<unsigned>>> hit; for (unsigned i = 0; i < MAXC * MAXH; ++i) hit.emplace_back(new std::atomic<unsigned>(0)); auto H = [&](unsigned c, unsigned h) -> std::atomic<unsigned> & { return *hit[c * MAXH + h]; };
	std::atomic<unsigned> calls(0); std::atomic<unsigned> order(0);
	if (sim::chance(1, 2)) { // one thread, several events, exact model
		unsigned ne = sim::pick_range(1, 3), nh = 0; std::vector<std::unique_ptr<Ev>> ev; std::vector<std::vector<unsigned>> mod(ne); for (unsigned i = 0; i < ne; ++i) ev.emplace_back(new Ev); std::vector<std::unique_ptr<CEX::event_handler<int>>> hd; std::vector<unsigned> seen; unsigned steps = sim::pick_range(4, 24);
		auto mk = [&] { unsigned h = nh++; hd.emplace_back(new CEX::event_handler<int>([&seen, h](int) { seen.push_back(h); })); return h; };
		for (unsigned s = 0; s < steps && nh < MAXH; ++s) { unsigned a = sim::pick(ne), b = sim::pick(ne), op = sim::pick(10); bool al = op != 2 && op != 3 && sim::fault("allocation", 1, 8); unsigned at = sim::fpick(6); R r; unsigned h = 0; auto run = [&](const std::function<void()> &f) { if (al) sim::arm_alloc(at); r = call([&] { f(); }); bool fired = sim::alloc_fault_fired(); if (al) sim::arm_alloc(-1); if (!r.ok() && !fired) sim::violation("event:failed", "an operation on an event failed without a fault: %s", r.what.c_str()); };
			switch (op) {
			case 0: case 1: h = mk(); run([&] { if (op) *ev[a] += *hd[h]; else ev[a]->add(*hd[h]); }); if (r.ok()) mod[a].push_back(h); sim::log("event %u: attach %u%s", a, h, r.ok() ? "" : " failed"); break;
			case 2: case 3: if (nh) { h = sim::pick(nh); bool got = op == 2 ? (*ev[a] -= *hd[h]) : ev[a]->remove_id(hd[h]->id()); auto it = std::find(mod[a].begin(), mod[a].end(), h); bool want = it != mod[a].end(); if (want) mod[a].erase(it); sim::log("event %u: detach %u", a, h); SIM_CHECK(got == want, "event:remove", "detaching a handler that %s attached returned %s", want ? "was" : "was not", got ? "true" : "false"); } break;
			case 4: run([&] { *ev[a] = *ev[b]; }); if (r.ok()) mod[a] = mod[b]; sim::log("event %u = event %u", a, b); break;
			case 5: { sim::log("event %u = move(event %u)", a, b); *ev[a] = std::move(*ev[b]); if (a != b) std::swap(mod[a], mod[b]); break; } // a move leaves the source in an unspecified state: it is replaced
			case 6: { std::unique_ptr<Ev> n; run([&] { n.reset(new Ev(*ev[a])); }); if (r.ok()) { ev[a] = std::move(n); } sim::log("event %u: replaced by a copy", a); break; }
			case 7: { if (al) sim::arm_alloc(-1); std::unique_ptr<Ev> n(new Ev(std::move(*ev[a]))); ev[a] = std::move(n); sim::log("event %u: replaced by a move", a); al = false; break; }
			default: { seen.clear(); seen.reserve(MAXH * 2); bool as = op == 9; sim::log("event %u: call%s", a, as ? " async" : ""); bool thr = as && !al && sim::fault("thread_create", 1, 8); if (thr) sim::arm_thread(0); r = call([&] { if (al) sim::arm_alloc(at); if (as) { ev[a]->call_async(7).get(); } else (*ev[a])(7); }); bool fired = sim::alloc_fault_fired() || sim::thread_fault_fired(); if (al) sim::arm_alloc(-1); if (thr) sim::arm_thread(-1);
				if (!r.ok()) { if (!fired) sim::violation("event:failed", "calling an event failed without a fault: %s", r.what.c_str()); SIM_CHECK(seen.empty(), "event:partial", "a call that failed called %zu handlers", seen.size()); }
				else { SIM_CHECK(seen == mod[a], "event:calls", "%zu handlers were called (first %d), %zu are attached (first %d)", seen.size(), seen.empty() ? -1 : (int)seen[0], mod[a].size(), mod[a].empty() ? -1 : (int)mod[a][0]); if (seen.size() && s) sim::nontrivial(); sim::count("op.event_call"); } break; } }
			if (op == 5 && a != b) { // give the moved-from event a known state again
				*ev[b] = Ev(); mod[b].clear(); Ev e2; *ev[b] = e2; }
		}
		return;
	}
	// several threads on one event; a pair of equal events is assigned to and fro meanwhile
	Ev e; Ev x, y; std::vector<std::unique_ptr<Hist>> hist; unsigned nt = sim::pick_range(2, 4); struct Op { unsigned kind, h; }; std::vector<std::vector<Op>> plan(nt); unsigned nh = 0, per = 0; std::vector<std::pair<uint64_t, uint64_t>> span(MAXC);
	unsigned fixed = sim::pick(3); std::atomic<unsigned> pairhits(0), paircalls(0), pairneed(0); unsigned pairn = sim::pick_range(1, 2); for (unsigned i = 0; i < pairn; ++i) { CEX::event_handler<int> h([&](int) { ++pairhits; }); x += h; } y = x;
	std::vector<std::unique_ptr<CEX::event_handler<int>>> hd; bool reent = sim::chance(1, 3);
	auto mk = [&] { unsigned h = nh++; hist.emplace_back(new Hist); bool self = reent && sim::chance(1, 3); Hist* p = hist.back().get(); hd.emplace_back(nullptr); hd.back().reset(new CEX::event_handler<int>([&, h, self, p](int c) { ++H((unsigned)c, h); sim::yield(); if (self && p->bt == UINT64_MAX) { uint64_t t = ++clk; uint64_t w = UINT64_MAX; if (p->bt.compare_exchange_strong(w, t)) e.remove(*hd[h]); } })); return h; };
	for (unsigned i = 0; i < fixed; ++i) { unsigned h = mk(); hist[h]->ab = ++clk; e += *hd[h]; hist[h]->at = ++clk; }
	for (unsigned t = 0; t < nt; ++t) { unsigned k = sim::pick_range(2, 7); for (unsigned i = 0; i < k && nh < MAXH; ++i) { unsigned kind = sim::pick(6); Op o{kind, 0}; if (kind == 0) o.h = mk(); else if (kind == 1) { if (!nh) continue; o.h = sim::pick(nh); } plan[t].push_back(o); ++per; } }
	auto work = [&](unsigned t) { for (Op o : plan[t]) switch (o.kind) {
		case 0: hist[o.h]->ab = ++clk; e += *hd[o.h]; hist[o.h]->at = ++clk; break;
		case 1: { uint64_t w = UINT64_MAX, n = ++clk; hist[o.h]->bt.compare_exchange_strong(w, n); bool got = e.remove_id(hd[o.h]->id()); if (got) hist[o.h]->de = ++clk; break; }
		case 2: case 3: { unsigned c = calls++; if (c >= MAXC) break; span[c].first = ++clk; if (o.kind == 2) { e.call((int)c); span[c].second = ++clk; } else { std::future<void> f = e.call_async((int)c); span[c].second = ++clk; f.get(); } break; }
		case 4: { ++paircalls; unsigned b = sim::pick(1); (void)b; x.call(0); break; }
		default: if (t & 1) x = y; else y = x; break; } };
	std::vector<sim::Thread> th; for (unsigned t = 0; t < nt; ++t) th.push_back(sim::spawn([&, t] { work(t); }, "user")); for (auto &t : th) sim::join(t); sim::nontrivial(); sim::count("probe.concurrent_event");
	for (unsigned c = 0; c < calls && c < MAXC; ++c) for (unsigned h = 0; h < nh; ++h) { Hist &q = *hist[h]; unsigned n = H(c, h); SIM_CHECK(n <= 1, "event:twice", "handler %u was called %u times for one event", h, n);
		bool att = q.at && q.at < span[c].first, kept = q.bt > span[c].second; if (att && kept) SIM_CHECK(n == 1, "event:missed", "handler %u was attached during the whole of call %u and was not called", h, c);
		bool before = !q.ab || q.ab > span[c].second, gone = q.de && q.de < span[c].first; if (before || gone) SIM_CHECK(n == 0, "event:detached-called", "handler %u was called by call %u %s", h, c, before ? "before it was attached" : "after it was detached"); }
	SIM_CHECK(pairhits == paircalls * pairn, "event:assign", "an event with %u handlers, assigned to meanwhile, called %u handlers in %u calls", pairn, (unsigned)pairhits, (unsigned)paircalls);
}
SCENARIO(delegates, "C18", "a delegate subscribed or unsubscribed while the event was delivered")
{
	sim::machine(); typedef CEX::Routing::Event<int> Ev; Ev e; unsigned n = sim::pick_range(1, 6); struct D : CEX::Routing::Delegate<int> { std::function<void(int)> f; void operator()(int v) override { f(v); } }; std::vector<std::unique_ptr<D>> d; std::vector<bool> on(n, false), all(n, false), touched(n, false); std::vector<unsigned> got(n, 0); int depth = 0; int value = 0; bool dead_call = false;
	struct Act { unsigned who; bool add; bool destroy; }; std::vector<std::vector<Act>> acts(n);
	auto apply = [&](unsigned w, bool add) { if (!d[w]) return; touched[w] = true; if (add) { e += d[w].get(); on[w] = true; } else { e -= d[w].get(); on[w] = false; } };
	for (unsigned i = 0; i < n; ++i) { d.emplace_back(new D); d[i]->f = [&, i](int v) { sim::log("delegate %u", i); SIM_CHECK(v == value, "delegate:value", "the wrong value was delivered"); if (!on[i]) dead_call = true; SIM_CHECK(!dead_call, "delegate:detached", "a delegate was called after it unsubscribed"); ++got[i]; if (depth < 2) for (auto &a : acts[i]) { sim::nontrivial(); apply(a.who, a.add); } }; }
	unsigned steps = sim::pick_range(3, 20);
	for (unsigned s = 0; s < steps; ++s) { unsigned op = sim::pick(5), w = sim::pick(n);
		if (op < 2) { apply(w, true); sim::log("subscribe %u", w); } else if (op == 2) { apply(w, false); sim::log("unsubscribe %u", w); } else if (op == 3) { acts[w].clear(); unsigned k = sim::pick(3); for (unsigned i = 0; i < k; ++i) { Act a; a.who = sim::pick(n); a.add = sim::chance(1, 2); a.destroy = false; acts[w].push_back(a); } }
		else { value = (int)sim::pick(1000); std::vector<bool> was = on; std::fill(touched.begin(), touched.end(), false); std::fill(got.begin(), got.end(), 0); sim::log("deliver"); sim::count("op.deliver"); R r = call([&] { e(value); }); SIM_CHECK(r.ok(), "delegate:failed", "delivering failed: %s", r.what.c_str());
			for (unsigned i = 0; i < n; ++i) { SIM_CHECK(got[i] <= 1 || touched[i], "delegate:twice", "delegate %u was called %u times for one event", i, got[i]); if (!touched[i]) SIM_CHECK(got[i] == (was[i] ? 1u : 0u), "delegate:count", "delegate %u, %s, was called %u times", i, was[i] ? "subscribed" : "not subscribed", got[i]); } } }
}
SCENARIO(parallel_callback, "C18", "at least two callbacks ran on different threads")
{
	sim::random_machine(); sim::sched_random(); unsigned n = sim::pick(6); std::atomic<unsigned> done(0), final(0), early(0); std::atomic<bool> checking(false); std::vector<CEX::Callback> cb; std::vector<sim::Thread> th;
	{
		std::unique_ptr<CEX::ParallelCallback> pc(new CEX::ParallelCallback([&] { ++final; if (done != n || !checking) ++early; }));
		for (unsigned i = 0; i < n; ++i) cb.push_back(*pc);
		unsigned before = sim::pick(n + 1), drop = sim::pick(2), style = sim::pick(3); if (n > 1) sim::nontrivial(); unsigned asyncs = 0;
		auto start = [&](unsigned i) { th.push_back(sim::spawn([&, i] { sim::yield(); ++done; cb[i](); }, "callback")); };
		for (unsigned i = 0; i < before; ++i) if (style == 1 && sim::chance(1, 2)) { std::atomic<unsigned> ran(0); bool f = sim::fault("thread_create", 1, 4); if (f) sim::arm_thread(0); R r = call([&] { pc->AsyncCall([&, i] { ++ran; ++done; cb[i](); }); }); bool fired = sim::thread_fault_fired(); if (f) sim::arm_thread(-1);
				if (!r.ok()) { if (!fired) sim::violation("callback:async", "AsyncCall failed without a fault: %s", r.what.c_str()); SIM_CHECK(ran == 0, "callback:async", "AsyncCall failed and the function ran"); start(i); } else { SIM_CHECK(ran == 1, "callback:async", "AsyncCall returned, the function ran %u times", (unsigned)ran); ++asyncs; } }
			else start(i);
		sim::yield(); SIM_CHECK(final == 0, "callback:early", "the final callback ran before check was called"); checking = true; pc->check(); if (drop) pc.reset();
		for (unsigned i = before; i < n; ++i) start(i); for (auto &t : th) sim::join(t);
	}
	SIM_CHECK(early == 0, "callback:early", "the final callback ran before all callbacks had"); SIM_CHECK(final == 1, "callback:final", "the final callback ran %u times after %u callbacks and check", (unsigned)final, n); SIM_CHECK(sim::live_threads() == 1, "callback:threads", "threads are left");
}
