// C15: owners of stateful private keys who sign, save, release, fail, crash and start again.
#include "asym.h"
#include <set>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
typedef std::string Str;
using Asymmetric::Sign::XMSS::XMSS;
struct Set { int par; const char* nm; unsigned h, ib, n; }; // parameter set: full height, bytes of the index, hash size
const Set sets[] = {{34, "XMSSMT-SHA2256-H20D4", 20, 3, 32}, {50, "XMSSMT-SHAKE256-H20D4", 20, 3, 32}, {42, "XMSSMT-SHA2512-H20D4", 20, 3, 64}, {58, "XMSSMT-SHAKE512-H20D4", 20, 3, 64}, {37, "XMSSMT-SHA2256-H40D8", 40, 5, 32}, {53, "XMSSMT-SHAKE256-H40D8", 40, 5, 32}, {40, "XMSSMT-SHA2256-H60D12", 60, 8, 32}, {56, "XMSSMT-SHAKE256-H60D12", 60, 8, 32}, {21, "XMSS-SHA2256-H10", 10, 4, 32}, {27, "XMSS-SHAKE256-H10", 10, 4, 32}};
const unsigned NSETS = 10, SLOW = 8;
std::vector<Wire> warm; std::vector<Str> warmerr;
void warm_up()
{
	int fd[NSETS][2]; for (unsigned i = NSETS; i-- > 0;) { if (pipe(fd[i])) _exit(9); if (fork() == 0) { syscall(SYS_alarm, 400); Wire w; R r = call([&] { Rng g(77 + i); XMSS c((Enumeration::XmssParameters)sets[i].par, &g); w = wire_of(c.Generate()); }); if (!r.ok()) w = Wire(); uint64_t l[3] = {w.pk.size(), w.sk.size(), r.what.size()}; Bytes o((uint8_t*)l, (uint8_t*)l + sizeof l); app(o, w.pk); app(o, w.sk); o.insert(o.end(), r.what.begin(), r.what.end()); const uint8_t* q = o.data(); size_t n = o.size(); while (n) { ssize_t k = write(fd[i][1], q, n); if (k <= 0) _exit(1); q += k; n -= k; } _exit(0); } close(fd[i][1]); }
	for (unsigned i = 0; i < NSETS; ++i) { Bytes o; uint8_t b[4096]; ssize_t k; while ((k = read(fd[i][0], b, sizeof b)) > 0) o.insert(o.end(), b, b + k); close(fd[i][0]); int st; wait(&st); uint64_t l[3] = {0, 0, 0}; Wire w; Str e = "the process ended"; if (o.size() >= sizeof l) { memcpy(l, o.data(), sizeof l); if (o.size() == sizeof l + l[0] + l[1] + l[2]) { auto p = o.begin() + sizeof l; w.pk.assign(p, p + l[0]); p += l[0]; w.sk.assign(p, p + l[1]); p += l[1]; e.assign(p, p + l[2]); } } warm.push_back(w); warmerr.push_back(w.pk.empty() ? e.empty() ? Str("no keys") : e : Str()); }
}
uint64_t be(const Bytes &b, size_t at, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v = v << 8 | b[at + i]; return v; }
const size_t OID = 4;
struct Owner {
	const Set &s; Bytes durable; std::unique_ptr<AsymmetricKey> k, pub; std::unique_ptr<Rng> r[2]; std::unique_ptr<XMSS> c[2], v; std::set<uint64_t> out, mem; std::vector<std::pair<Bytes, Bytes>> pending; uint64_t lo = 0; const Wire* w; bool hot[2] = {false, false};
	uint64_t index(const Bytes &b) { return be(b, HEAD + OID, s.ib); }
	uint64_t index() { return index(pack(*k)); }
	Str sig(const char* x) { return Str("stateful:") + x + (s.h == 10 ? ":XMSS" : ":XMSSMT"); }
	void boot(unsigned i) { c[i].reset(); r[i].reset(new Rng(5 + i)); c[i].reset(new XMSS((Enumeration::XmssParameters)s.par, r[i].get())); hot[i] = false; }
	// the machine stops: memory is gone, the saved key is loaded again
	void crash() { for (int i = 0; i < 2; ++i) c[i].reset(); pending.clear(); mem.clear(); k.reset(); SBytes b = S(durable); k.reset(AsymmetricKey::DeSerialize(b)); for (int i = 0; i < 2; ++i) boot(i); sim::count("op.crash"); sim::log("crash, the saved key has index %llu", (unsigned long long)index()); }
	Owner(const Set &x, const Wire* ww, uint64_t at) : s(x), w(ww) { durable = w->sk; for (unsigned i = 0; i < s.ib; ++i) durable[HEAD + OID + i] = (uint8_t)(at >> (8 * (s.ib - 1 - i))); lo = at; r[0].reset(new Rng(1)); pub.reset(unpack(w->pk)); v.reset(new XMSS((Enumeration::XmssParameters)s.par, r[0].get())); v->Initialize(pub.get()); SBytes b = S(durable); k.reset(AsymmetricKey::DeSerialize(b)); for (int i = 0; i < 2; ++i) boot(i); }
	uint64_t cap() { return s.h == s.ib * 8 ? (1ull << s.h) - 1 : 1ull << s.h; } // indices that can be used; the last one may have no successor the key can store
	bool sign(bool faulty)
	{
		unsigned i = sim::pick(2); if (!hot[i]) { R r0 = call([&] { c[i]->Initialize(k.get()); }); if (!r0.ok()) sim::violation(sig("refused").c_str(), "%s: the saved key was refused: %s", s.nm, r0.what.c_str()); hot[i] = true; }
		Bytes m = sim::bytes(1 + sim::pick_size(60)), o = sim::bytes(sim::pick(3) * 20), o0 = o; uint64_t was = index(); bool armed = false, spent = was >= 1ull << s.h;
		if (faulty) { unsigned how = sim::pick(4); armed = true; if (how == 0) sim::arm_alloc(sim::fpick(60)); else if (how == 1) sim::arm_alloc(sim::pick_size(200000)); else if (how == 2) sim::arm_alloc(sim::fpick(4), 1, w->sk.size() - HEAD); else sim::arm_alloc(sim::fpick(3), 1, v->SignatureSize() + m.size()); }
		R q = call([&] { c[i]->Sign(m, o); }); bool f = armed && sim::alloc_fault_fired(); sim::arm_alloc(-1); uint64_t now = index(); sim::log("instance %u signs at index %llu: %s, then %llu", i, (unsigned long long)was, q.ok() ? "ok" : q.what.c_str(), (unsigned long long)now); sim::count(q.ok() ? "op.sign" : spent ? "probe.exhausted" : "op.sign_failed");
		SIM_CHECK(now >= was, sig("rewind").c_str(), "%s: signing at index %llu left the key at %llu", s.nm, (unsigned long long)was, (unsigned long long)now);
		if (!q.ok()) {
			if (!f && was < cap()) sim::violation(sig("refused").c_str(), "%s: signing at index %llu of %llu failed: %s", s.nm, (unsigned long long)was, (unsigned long long)cap(), q.what.c_str()); if (!f) { SIM_CHECK(q.o == Out::crypto, sig("refused").c_str(), "%s: signing with a spent key ended in %s", s.nm, q.what.c_str()); sim::nontrivial(); } if (f) sim::nontrivial();
			// what a failed call leaves behind is not a signature of an index the key will use again
			if (o.size() >= v->SignatureSize() && o != o0) { uint64_t x = be(o, 0, s.ib); Bytes t; bool ok = false; call([&] { ok = v->Verify(o, t); }); if (ok && now <= x) sim::violation(sig("reuse").c_str(), "%s: a failed call gave out a signature of index %llu and left the key at %llu", s.nm, (unsigned long long)x, (unsigned long long)now); }
			return false; }
		SIM_CHECK(o.size() == v->SignatureSize() + m.size(), sig("size").c_str(), "%s: a signature of %zu bytes", s.nm, o.size()); uint64_t x = be(o, 0, s.ib);
		SIM_CHECK(x < 1ull << s.h, sig("exhausted").c_str(), "%s: signed with index %llu, the tree has %llu leaves", s.nm, (unsigned long long)x, 1ull << s.h);
		SIM_CHECK(!out.count(x) && !mem.count(x), sig("reuse").c_str(), "%s: index %llu was used for two signatures", s.nm, (unsigned long long)x); SIM_CHECK(now > x, sig("reuse").c_str(), "%s: signed with index %llu, and the key is at index %llu after it", s.nm, (unsigned long long)x, (unsigned long long)now); SIM_CHECK(x >= was, sig("reuse").c_str(), "%s: signed with index %llu, the key was at %llu", s.nm, (unsigned long long)x, (unsigned long long)was);
		Bytes t; bool ok = false; R z = call([&] { ok = v->Verify(o, t); }); SIM_CHECK(z.ok() && ok && t == m, sig("invalid").c_str(), "%s: the signature of index %llu does not verify", s.nm, (unsigned long long)x);
		mem.insert(x); pending.push_back({o, m}); return true;
	}
	bool save(bool faulty) { Bytes b; if (faulty) sim::arm_alloc(sim::fpick(12)); R q = call([&] { b = pack(*k); }); bool f = faulty && sim::alloc_fault_fired(); sim::arm_alloc(-1); if (!q.ok()) { if (!f) sim::violation(sig("refused").c_str(), "%s: the key could not be serialised: %s", s.nm, q.what.c_str()); sim::nontrivial(); return false; } if (faulty && sim::fault("save lost", 1, 4)) { sim::nontrivial(); return false; } durable = b; sim::count("op.save"); sim::log("saved at index %llu", (unsigned long long)index(b)); return true; }
	void release() { for (auto &p : pending) { uint64_t x = be(p.first, 0, s.ib); SIM_CHECK(!out.count(x), sig("reuse").c_str(), "%s: index %llu was released twice", s.nm, (unsigned long long)x); SIM_CHECK(index(durable) > x, sig("reuse").c_str(), "%s: index %llu is released, the saved key is at %llu", s.nm, (unsigned long long)x, (unsigned long long)index(durable)); out.insert(x); } pending.clear(); }
};
}
SCENARIO_WARM(stateful_key, "C15", "a call failed, a save was lost, the machine crashed between signatures, or the key was used up", warm_up)
{
	sim::machine(); sim::StepLimit lim(4000000000ull); bool slow = sim::pick(sim::thorough() ? 6 : 30) == 0; unsigned si = slow ? SLOW + sim::pick(NSETS - SLOW) : sim::pick(3) ? sim::pick(4) : sim::pick(SLOW); const Set &s = sets[si]; SIM_CHECK(warmerr[si].empty(), "stateful:generate", "%s: a key pair could not be generated: %s", s.nm, warmerr[si].c_str());
	uint64_t at, top = 1ull << s.h; switch (sim::pick(6)) { case 0: at = sim::pick(3); break; case 1: at = top - 1 - sim::pick(3); break; case 2: at = top - 1 + sim::pick(2); break; case 3: at = 32ull * (1 + sim::pick(60)) - 1 - sim::pick(2); break; case 4: { unsigned b = 1 + sim::pick(s.h - 1); at = (1ull << b) - 1 - sim::pick(2) * (b > 1); break; } default: { Bytes x = sim::bytes(8); at = be(x, 0, 8) & (top - 1); } }
	if (at >= top + 1) at = top; if (s.h == s.ib * 8 && at >= top) at = top - 1;
	Owner o(s, &warm[si], at); sim::count((Str("set.") + s.nm).c_str()); bool faults = sim::chance(2, 3); unsigned left = slow ? 1 : sim::thorough() ? 5 : 3, ops = sim::pick_range(3, 14);
	for (unsigned n = 0; n < ops; ++n) switch (sim::pick(7)) {
		case 0: case 1: case 2: { bool f = faults && sim::chance(1, 2); if (!left && !f && o.index() < top) break; if (!left && f) { o.hot[0] = o.hot[0]; } if (o.index() < top && left) --left; else if (o.index() < top) break; if (o.sign(f)) sim::count("op.signed"); break; }
		case 3: case 4: if (o.save(faults && sim::chance(1, 3))) o.release(); break;
		case 5: o.crash(); if (o.out.size()) sim::nontrivial(); break;
		default: o.boot(sim::pick(2)); break; }
	if (o.save(false)) o.release(); o.crash(); SIM_CHECK(o.out.empty() || o.index() > *o.out.rbegin(), "stateful:reuse", "%s: the last saved key is at index %llu, released was %llu", s.nm, (unsigned long long)o.index(), (unsigned long long)*o.out.rbegin());
}
