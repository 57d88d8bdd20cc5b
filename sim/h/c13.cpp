// C13: key encapsulation and key exchange between parties that restart, over a channel that damages, repeats and confuses messages.
#include "asym.h"
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
typedef std::string Str;
const char* kem_name(bool mc, int par) { static const char* n[] = {"Kyber-1632", "Kyber-2400", "Kyber-3168", "Kyber-3936", "McEliece-4608", "McEliece-6960", "McEliece-6688", "McEliece-8192"}; return n[(mc ? 4 + par - 13 : par - 9)]; }
struct Party { std::unique_ptr<IAsymmetricCipher> c; std::unique_ptr<Rng> r; std::unique_ptr<AsymmetricKey> pk, sk; bool pub = false, priv = false, own = false; int key = -1, skey = -1; };
struct Sess { int key; Bytes ct, ss, dom; size_t len; uint64_t seed; };
struct Kem {
	bool mc; int par; Str nm; bool faults; std::vector<Wire> keys; std::vector<uint64_t> kseed; std::vector<Sess> sess; Party p[2]; uint64_t next = 1;
	Str sig(const char* s) { return Str("kem:") + s + ":" + (mc ? "McEliece" : "Kyber"); }
	void boot(Party &q, bool other) { q.c.reset(); q.pk.reset(); q.sk.reset(); q.r.reset(new Rng(next++ + 1000 * sim::pick(1000))); q.key = q.skey = -1; int pr = other ? (mc ? 13 + sim::pick(4) : 9 + sim::pick(4)) : par; q.own = sim::chance(1, 6); if (q.own) { unsigned how = sim::pick(6); R r = call([&] { q.c.reset(how == 0 ? Helper::AsymmetricCipherFromName::GetInstance(mc ? Enumeration::AsymmetricCiphers::McEliece : Enumeration::AsymmetricCiphers::Kyber, (AsymmetricParameters)pr) : own_kem(mc, pr, OWN[how - 1])); }); judge(r, false, "construction with a generator of its own"); sim::count("probe.own_generator"); } else q.c.reset(make_kem(mc, pr, q.r.get())); }
	uint64_t fresh() { return (1ull << 50) + next++; }
	bool arm(Party &q) { if (!faults) return false; if (sim::fault("allocation", 1, 6)) { sim::arm_alloc(sim::fpick(120)); return true; } if (sim::fault("generator", 1, 8)) { if (q.own) entropy_off(true); else q.r->left = sim::fpick(3); return true; } return false; }
	bool calm(Party &q) { bool f = sim::alloc_fault_fired() || q.r->failed || (q.own && entropy_off(false)); sim::arm_alloc(-1); q.r->left = -1; q.r->failed = 0; return f; }
	void judge(const R &r, bool fired, const char* what) { if (r.ok()) return; if (fired) { sim::count("probe.failed_by_fault"); sim::nontrivial(); return; } sim::violation(sig("refused").c_str(), "%s: %s failed: %s", nm.c_str(), what, r.what.c_str()); }
	// a party gets a key from its bytes
	R load(Party &q, const Bytes &w, bool pub) { std::unique_ptr<AsymmetricKey> k; R r = call([&] { k.reset(unpack(w)); q.c->Initialize(k.get()); }); if (r.ok()) { if (pub) q.pk = std::move(k); else q.sk = std::move(k); } return r; }
	void gen()
	{
		Party &q = p[sim::pick(2)]; boot(q, false); if (!q.own && !keys.empty() && sim::chance(1, 4)) { uint64_t o = kseed[sim::pick((uint32_t)keys.size())]; if (o < 1ull << 50) q.r->seed = o; } uint64_t seed = q.own ? fresh() : q.r->seed; Wire w; R r; bool a = arm(q); r = call([&] { w = wire_of(q.c->Generate()); }); bool f = a && calm(q); sim::log("%s: key pair from seed %llu: %s", nm.c_str(), (unsigned long long)seed, r.ok() ? "ok" : r.what.c_str()); judge(r, f, "key generation"); if (!r.ok()) return;
		SIM_CHECK(w.pk.size() == HEAD + q.c->PublicKeySize() && w.sk.size() == HEAD + q.c->PrivateKeySize(), sig("sizes").c_str(), "%s: keys of %zu and %zu bytes, announced are %zu and %zu", nm.c_str(), w.pk.size() - HEAD, w.sk.size() - HEAD, q.c->PublicKeySize(), q.c->PrivateKeySize());
		for (size_t i = 0; i < keys.size(); ++i) { bool same = kseed[i] == seed; if (same ? (keys[i].pk != w.pk || keys[i].sk != w.sk) : (keys[i].pk == w.pk || keys[i].sk == w.sk)) sim::violation(sig("randomness").c_str(), "%s: key pairs from %s randomness are %s", nm.c_str(), same ? "the same" : "different", same ? "different" : "equal"); }
		keys.push_back(w); kseed.push_back(seed);
	}
	void encapsulate()
	{
		Party &q = p[sim::pick(2)]; int k = sim::pick((uint32_t)keys.size()); if (sim::chance(1, 3) || !q.c) boot(q, sim::pick(2)); if (q.key != k || sim::chance(1, 4) || !q.pk) { R r = load(q, keys[k].pk, true); judge(r, false, "initialisation with an intact public key"); q.key = k; if (q.skey >= 0 && !q.sk) q.skey = -1; }
		bool again = !sess.empty() && sim::chance(1, 5); Sess s; s.key = k; s.len = 32; if (sim::chance(1, 2)) { s.dom = sim::bytes(1 + sim::pick_size(80)); s.len = 1 + sim::pick_size(200); } s.seed = 5000 + next++; if (again) { Sess &o = sess[sim::pick((uint32_t)sess.size())]; if (o.key == k && o.seed < 1ull << 50) { s.seed = o.seed; s.dom = o.dom; s.len = o.len; } } if (q.own) s.seed = fresh();
		// the device gives a fresh stream for every encapsulation
		q.r->seed = s.seed; q.r->pos = 0; Bytes ct, ss; if (!s.dom.empty()) ss.assign(s.len, 0); else if (sim::pick(2)) ss.assign(sim::pick(100), 7); bool a = arm(q); R r = call([&] { q.c->DomainKey() = s.dom; q.c->Encapsulate(ct, ss); }); bool f = a && calm(q); sim::log("encapsulate to key %d, %zu domain bytes, secret of %zu, seed %llu: %s", k, s.dom.size(), s.len, (unsigned long long)s.seed, r.ok() ? "ok" : r.what.c_str()); judge(r, f, "encapsulation"); if (!r.ok()) return;
		SIM_CHECK(ct.size() == q.c->CipherTextSize() && ss.size() == s.len, sig("sizes").c_str(), "%s: a cipher-text of %zu and a secret of %zu bytes, expected %zu and %zu", nm.c_str(), ct.size(), ss.size(), q.c->CipherTextSize(), s.len); s.ct = ct; s.ss = ss; sim::count("op.encapsulate");
		for (auto &o : sess) { bool same = o.seed == s.seed && o.key == s.key; if (same && (o.ct != ct || (o.dom == s.dom && o.ss != ss))) sim::violation(sig("randomness").c_str(), "%s: encapsulations with the same randomness differ", nm.c_str()); if (!same && (o.ct == ct || (ss.size() >= 16 && o.ss == ss))) sim::violation(sig("randomness").c_str(), "%s: encapsulations with different randomness or keys are equal", nm.c_str()); }
		sess.push_back(s);
	}
	void decapsulate()
	{
		size_t x = sim::pick((uint32_t)sess.size()); Sess s = sess[x]; Party &q = p[sim::pick(2)]; if (sim::chance(1, 3) || !q.c) boot(q, sim::pick(2)); int k = s.key; unsigned how = sim::pick(8); const char* what = "intact"; Bytes ct = s.ct, sk = keys[k].sk, dom = s.dom; bool wrongkey = false;
		if (how == 1 || how == 2) ct = hurt(ct, 0, &what); else if (how == 3) sk = hurt(sk, HEAD, &what); else if (how == 4 && sess.size() > 1) { const Sess &o = sess[sim::pick((uint32_t)sess.size())]; if (o.ct != ct) { ct = o.ct; what = "another session's cipher-text"; } else how = 0; }
		else if (how == 5 && keys.size() > 1) { int j = sim::pick((uint32_t)keys.size()); if (keys[j].sk != keys[k].sk) { sk = keys[j].sk; wrongkey = true; what = "another private key"; } else how = 0; } else if (how == 6) { if (dom.empty()) dom = sim::bytes(1 + sim::pick(20)); else dom[sim::pick((uint32_t)dom.size())] ^= 1; what = "another domain key"; } else how = 0;
		bool intact = how == 0, reload = how == 3 || wrongkey || q.skey != k || !q.sk || sim::chance(1, 4); if (reload) { q.skey = -1; R r = load(q, sk, false); if (!r.ok()) { if (how == 3 && sk.size() != keys[k].sk.size() && r.o == Out::crypto) { sim::log("a private key %s was refused", what); sim::count("probe.key_refused"); sim::nontrivial(); return; } judge(r, false, "initialisation with a private key"); } if (how != 3 && !wrongkey) q.skey = k; if (how == 3 && sk.size() != keys[k].sk.size()) sim::violation(sig("key-size").c_str(), "%s: a private key of %zu bytes was accepted, it has %zu", nm.c_str(), sk.size() - HEAD, keys[k].sk.size() - HEAD); }
		Bytes ss; if (!dom.empty()) ss.assign(s.len, 0x33); else ss.assign(sim::pick(3) * 20, 0x33); bool a = arm(q); bool ok = false; R r = call([&] { q.c->DomainKey() = dom; ok = q.c->Decapsulate(ct, ss); }); bool f = a && calm(q); if (how == 3) { q.sk.reset(); boot(q, false); }
		sim::log("decapsulate session %zu, %s: %s", x, intact ? "intact" : what, r.ok() ? ok ? "true" : "false" : r.what.c_str()); sim::count(intact ? "op.decapsulate" : "op.decapsulate_damaged"); if (!intact) sim::nontrivial();
		if (!r.ok() && !(r.o == Out::crypto && !intact)) { judge(r, f, "decapsulation"); return; } if (!r.ok()) return;
		if (intact) { SIM_CHECK(ok, sig("reject").c_str(), "%s: an intact cipher-text was rejected", nm.c_str()); long d = first_diff(ss, s.ss); SIM_CHECK(d < 0, sig("secret").c_str(), "%s: the secrets differ at byte %ld of %zu", nm.c_str(), d, s.ss.size()); return; }
		if (how == 3) { if (ok && ss != s.ss) sim::violation(sig("altered-key").c_str(), "%s: with a private key with %s decapsulation reported success and gave another secret", nm.c_str(), what); return; }
		if (how == 6) { SIM_CHECK(ok, sig("reject").c_str(), "%s: an intact cipher-text was rejected under another domain key", nm.c_str()); if (ss.size() >= 16 && s.ss.size() >= 16) SIM_CHECK(ss != s.ss, sig("domain").c_str(), "%s: another domain key gave the same secret", nm.c_str()); return; }
		if (how == 4) { if (ok && ss.size() >= 16) { bool own = false; for (auto &o : sess) if (o.ct == ct && keys[o.key].sk == keys[k].sk) own = true; SIM_CHECK(own, sig("accept").c_str(), "%s: a cipher-text of another key was accepted", nm.c_str()); } if (ok && s.ss.size() >= 16) SIM_CHECK(ss != s.ss, sig("accept").c_str(), "%s: another session's cipher-text gave this session's secret", nm.c_str()); return; }
		SIM_CHECK(!ok, sig("accept").c_str(), "%s: decapsulation with %s reported success", nm.c_str(), what); if (s.ss.size() >= 16) SIM_CHECK(ss != s.ss, sig("accept").c_str(), "%s: decapsulation with %s gave the secret", nm.c_str(), what);
	}
	// a public key altered on its way: the owner of the private key does not end up with the sender's secret under a reported success
	void mitm()
	{
		int k = sim::pick((uint32_t)keys.size()); Party q, o; boot(q, false); boot(o, false); const char* what = ""; Bytes pk = hurt(keys[k].pk, HEAD, &what); sim::nontrivial(); sim::count("op.altered_public_key"); R r = load(q, pk, true); if (!r.ok()) { SIM_CHECK(r.o == Out::crypto && pk.size() != keys[k].pk.size(), sig("refused").c_str(), "%s: a public key of the right size was refused: %s", nm.c_str(), r.what.c_str()); return; }
		SIM_CHECK(pk.size() == keys[k].pk.size(), sig("key-size").c_str(), "%s: a public key of %zu bytes was accepted, it has %zu", nm.c_str(), pk.size() - HEAD, keys[k].pk.size() - HEAD); Bytes ct, ss, s2; r = call([&] { q.c->Encapsulate(ct, ss); }); if (!r.ok()) { SIM_CHECK(r.o == Out::crypto, sig("refused").c_str(), "%s: encapsulating to an altered key ended in %s", nm.c_str(), r.what.c_str()); return; }
		R l = load(o, keys[k].sk, false); judge(l, false, "initialisation"); bool ok = false; r = call([&] { ok = o.c->Decapsulate(ct, s2); }); if (!r.ok()) { SIM_CHECK(r.o == Out::crypto, sig("refused").c_str(), "%s: decapsulation ended in %s", nm.c_str(), r.what.c_str()); return; } sim::log("public key with %s: %s", what, ok ? "accepted" : "rejected");
		if (!mc) SIM_CHECK(!ok, sig("altered-key").c_str(), "%s: a secret encapsulated to a public key with %s was accepted", nm.c_str(), what); else if (ok) SIM_CHECK(ss == s2, sig("altered-key").c_str(), "%s: encapsulated to a public key with %s, decapsulation reported success and gave another secret", nm.c_str(), what);
	}
	void run(unsigned ops) { for (unsigned o = 0; o < ops; ++o) { unsigned w = keys.empty() ? 0 : sess.empty() ? 1 : sim::pick(10); if (w == 0 && (!mc || keys.empty()) && keys.size() < 3) gen(); else if (w < 4) encapsulate(); else if (w == 9) mitm(); else if (!sess.empty()) decapsulate(); else encapsulate(); if (keys.empty() && o > 4) return; } }
};
// McEliece key pairs take seconds to make: one set of them serves all runs. The first seed of each set meets a random
// permutation with a repeated element and has to try again.
const uint64_t mcseed[4][2] = {{1076, 4}, {2402, 24}, {1076, 26}, {1676, 12}};
std::vector<Wire> mckeys[4]; Str mcfail;
void mc_warm()
{
	int fd[8][2]; for (int i = 0; i < 8; ++i) { if (pipe(fd[i])) _exit(9); if (fork() == 0) { syscall(SYS_alarm, 300); Wire w; R r = call([&] { Rng g(mcseed[i / 2][i % 2]); std::unique_ptr<IAsymmetricCipher> c(make_kem(true, 13 + i / 2, &g)); w = wire_of(c->Generate()); });
		auto put = [&](const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd[i][1], q, n); if (k <= 0) _exit(1); q += k; n -= k; } }; if (!r.ok()) w = Wire(); uint64_t l[3] = {w.pk.size(), w.sk.size(), r.what.size()}; put(l, sizeof l); put(w.pk.data(), l[0]); put(w.sk.data(), l[1]); put(r.what.data(), l[2]); _exit(0); } close(fd[i][1]); }
	for (int i = 0; i < 8; ++i) { auto get = [&](void* p, size_t n) { char* q = (char*)p; while (n) { ssize_t k = read(fd[i][0], q, n); if (k <= 0) return false; q += k; n -= k; } return true; }; uint64_t l[3] = {0, 0, 0}; Wire w; Str e; bool ok = get(l, sizeof l); if (ok) { w.pk.resize(l[0]); w.sk.resize(l[1]); e.resize(l[2]); ok = get(w.pk.data(), l[0]) && get(w.sk.data(), l[1]) && get(&e[0], l[2]); } close(fd[i][0]); int st; wait(&st); if (!ok || w.pk.empty()) mcfail = Str(kem_name(true, 13 + i / 2)) + ": " + (e.empty() ? "the process ended" : e); mckeys[i / 2].push_back(w); }
}
}
SCENARIO(kyber, "C13", "a message or key was altered, or a fault struck")
{
	sim::machine(); sim::StepLimit lim(600000000); Kem k; k.mc = false; k.par = 9 + sim::pick(4); k.nm = kem_name(false, k.par); k.faults = sim::chance(1, 3); k.run(sim::pick_range(3, 14));
}
SCENARIO_WARM(mceliece, "C13", "a message or key was altered, or a fault struck", mc_warm)
{
	sim::machine(); sim::StepLimit lim(2000000000); Kem k; k.mc = true; unsigned s = sim::pick(4); k.par = 13 + s; k.nm = kem_name(true, k.par); k.faults = sim::chance(1, 3); SIM_CHECK(mcfail.empty(), "kem:generate:McEliece", "a key pair could not be generated: %s", mcfail.c_str()); k.keys = mckeys[s]; k.kseed = {mcseed[s][0], mcseed[s][1]}; k.run(sim::pick_range(2, 6));
}
SCENARIO(ecdh, "C13", "a public key was altered, the domain keys differed or a fault struck")
{
	sim::machine(); sim::StepLimit lim(600000000); using Encrypt::ECDH::ECDH; bool faults = sim::chance(1, 3); int par = 5 + sim::pick(2); unsigned n = sim::pick_range(2, 4), ops = sim::pick_range(2, 8); Str nm = par == 5 ? "ECDH-K" : "ECDH-S"; std::vector<Wire> w; std::vector<Bytes> seeds; std::vector<std::unique_ptr<Rng>> rng; std::vector<std::unique_ptr<ECDH>> ex;
	auto boot = [&](unsigned i) { ex[i].reset(); rng[i].reset(new Rng(10 * i + sim::pick(5))); ex[i].reset(new ECDH((Enumeration::ECDHParameters)par, rng[i].get())); };
	auto arm = [&](Rng &g) { if (!faults) return false; if (sim::fault("allocation", 1, 6)) { sim::arm_alloc(sim::fpick(60)); return true; } if (sim::fault("generator", 1, 8)) { g.left = 0; return true; } return false; };
	auto calm = [&](Rng &g) { bool f = sim::alloc_fault_fired() || g.failed; sim::arm_alloc(-1); g.left = -1; g.failed = 0; return f; };
	for (unsigned i = 0; i < n; ++i) { ex.emplace_back(); rng.emplace_back(); boot(i); bool own = sim::pick(2); if (sim::chance(1, 4)) { Bytes bad = sim::bytes(sim::pick(2) ? 33 + sim::pick(40) : sim::pick(32)); R r = call([&] { wire_of(ex[i]->Generate(bad)); }); SIM_CHECK(r.o == Out::crypto, "kx:seed", "%s: a seed of %zu bytes was not refused", nm.c_str(), bad.size()); } Bytes seed(32); if (own) sim::fill(seed.data(), 32); else { Rng t(rng[i]->seed); t.Generate(seed); } Bytes sc = seed; Wire k; R r; for (int t = 0; t < 2; ++t) { rng[i]->pos = 0; bool a = arm(*rng[i]); r = call([&] { k = wire_of(own ? ex[i]->Generate(sc) : ex[i]->Generate()); }); bool f = a && calm(*rng[i]); if (!r.ok() && !f) sim::violation("kx:refused", "%s: generating a key pair failed: %s", nm.c_str(), r.what.c_str()); if (r.ok()) break; sim::nontrivial(); } if (!r.ok()) sim::discard("no key pair"); sim::log("party %u: key pair from %s %s", i, own ? "a given seed" : "its generator", hex(seed).c_str());
		SIM_CHECK(k.pk.size() == HEAD + ex[i]->PublicKeySize() && k.sk.size() == HEAD + ex[i]->PrivateKeySize(), "kx:sizes", "%s: keys of %zu and %zu bytes", nm.c_str(), k.pk.size(), k.sk.size()); for (unsigned j = 0; j < i; ++j) SIM_CHECK((seeds[j] == seed) == (w[j].pk == k.pk), "kx:randomness", "%s: %s seeds gave %s public keys", nm.c_str(), seeds[j] == seed ? "equal" : "different", w[j].pk == k.pk ? "equal" : "different"); w.push_back(k); seeds.push_back(seed); }
	for (unsigned o = 0; o < ops; ++o) { unsigned a = sim::pick(n), b = sim::pick(n); Bytes da = sim::pick(2) ? sim::bytes(1 + sim::pick_size(60)) : Bytes(), db = da; size_t len = da.empty() ? 32 : 1 + sim::pick_size(150); unsigned how = sim::pick(5); const char* what = "intact"; Bytes pa = w[a].pk, pb = w[b].pk; bool alt = false; if (sim::chance(1, 4)) boot(a); if (sim::chance(1, 4)) boot(b);
		if (how == 1) { pb = hurt(pb, HEAD, &what); alt = true; } else if (how == 2) { if (db.empty()) db = sim::bytes(3); else db[0] ^= 1; what = "different domain keys"; } else if (how == 3) { std::fill(pb.begin() + HEAD, pb.end(), 0); pb[HEAD] = sim::pick(2); what = "a public key of small order"; }
		if (how) sim::nontrivial(); auto go = [&](unsigned who, const Bytes &pk, const Bytes &dom, Bytes &ss, bool &ok) { ss.assign(dom.empty() ? sim::pick(3) * 16 : len, 1); std::unique_ptr<AsymmetricKey> p, s(unpack(w[who].sk)); bool ar = false; R r = call([&] { p.reset(unpack(pk)); }); if (r.ok()) { ar = arm(*rng[who]); r = call([&] { ex[who]->DomainKey() = dom; ok = ex[who]->KeyExchange(p.get(), s.get(), ss); }); } bool f = ar && calm(*rng[who]); if (!r.ok()) { ok = false; if (f) { sim::count("probe.failed_by_fault"); return false; } if (r.o != Out::crypto || pk.size() == w[who].pk.size()) sim::violation("kx:refused", "%s: an exchange with a key of %zu bytes ended in %s", nm.c_str(), pk.size() - HEAD, r.what.c_str()); return true; } if (ok) SIM_CHECK(pk.size() == w[who].pk.size(), "kx:key-size", "%s: a public key of %zu bytes was accepted", nm.c_str(), pk.size() - HEAD); return true; };
		Bytes sa, sb; bool oka = false, okb = false; if (!go(a, pb, da, sa, oka) || !go(b, pa, db, sb, okb)) continue; sim::log("%u and %u, %s: %d %d", a, b, what, oka, okb); sim::count(how == 0 || how == 4 ? "op.exchange" : "op.exchange_damaged"); SIM_CHECK(okb, "kx:reject", "%s: an exchange with an intact public key was rejected", nm.c_str());
		if (how == 3) { SIM_CHECK(!oka, "kx:small-order", "%s: a public key of small order was accepted", nm.c_str()); continue; }
		if (how == 2) { if (sa.size() >= 16 && sb.size() >= 16) SIM_CHECK(sa != sb, "kx:domain", "%s: different domain keys gave the same secret", nm.c_str()); continue; }
		if (alt) { Bytes x = pb; if (x.size() == w[b].pk.size()) x.back() = (x.back() & 0x7f) | (w[b].pk.back() & 0x80); if (oka && sa.size() >= 16 && x != w[b].pk) SIM_CHECK(sa != sb, "kx:altered", "%s: a public key with %s gave the same secret", nm.c_str(), what); continue; }
		SIM_CHECK(oka, "kx:reject", "%s: an exchange with an intact public key was rejected", nm.c_str()); long d = first_diff(sa, sb); SIM_CHECK(d < 0 && sa.size() == len, "kx:agree", "%s: the parties' secrets (%zu and %zu bytes) differ at byte %ld", nm.c_str(), sa.size(), sb.size(), d); }
}
