// C14: signers and verifiers that restart, keys and signatures that travel as bytes, over a channel that damages, mixes and repeats them.
#include "asym.h"
#ifndef SIM_NO_INTERNALS
#include "DLTMBase.h"
#endif
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
typedef std::string Str;
using Asymmetric::Sign::IAsymmetricSigner;
IAsymmetricSigner* make_sig(int par, Prng::IPrng* r) { if (par <= 3) return new Asymmetric::Sign::DLTM::Dilithium((Enumeration::DilithiumParameters)par, r); if (par == 7 || par == 8) return new Asymmetric::Sign::ECDSA::ECDSA((Enumeration::ECDSAParameters)par, r); if (par >= 17 && par <= 20) return new Asymmetric::Sign::SPXP::SphincsPlus((Enumeration::SphincsPlusParameters)par, r); return new Asymmetric::Sign::XMSS::XMSS((Enumeration::XmssParameters)par, r); }
IAsymmetricSigner* own_sig(int par, Enumeration::Prngs g) { if (par <= 3) return new Asymmetric::Sign::DLTM::Dilithium((Enumeration::DilithiumParameters)par, g); if (par == 7 || par == 8) return new Asymmetric::Sign::ECDSA::ECDSA((Enumeration::ECDSAParameters)par, g); if (par >= 17 && par <= 20) return new Asymmetric::Sign::SPXP::SphincsPlus((Enumeration::SphincsPlusParameters)par, g); return new Asymmetric::Sign::XMSS::XMSS((Enumeration::XmssParameters)par, g); }
const char* fam(int par) { return par <= 3 ? "Dilithium" : par <= 8 ? "ECDSA" : par <= 20 ? "SphincsPlus" : "XMSS"; }
struct Signed { int key; Bytes msg, sig; uint64_t seed; };
struct Inst { std::unique_ptr<Rng> r; std::unique_ptr<IAsymmetricSigner> c; std::unique_ptr<AsymmetricKey> k; int key = -1; bool signer = false, own = false; };
const uint8_t ORDER[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10};
// a lattice signer that skips the rejection of responses that are too long
#ifndef SIM_NO_INTERNALS
template <class P> struct Loose : P { static const uint32_t DILITHIUM_BETA = 1; };
template <class P> bool too_long(const Bytes &sg) { const unsigned W = P::DILITHIUM_GAMMA1 == (1u << 17) ? 18 : 20; for (size_t i = 0; i < P::DILITHIUM_L * 256; ++i) { int64_t v = 0; for (unsigned b = 0; b < W; ++b) { size_t q = i * W + b; v |= (int64_t)(sg[32 + q / 8] >> (q % 8) & 1) << b; } v = (int64_t)P::DILITHIUM_GAMMA1 - v; if ((v < 0 ? -v : v) >= (int64_t)(P::DILITHIUM_GAMMA1 - P::DILITHIUM_BETA)) return true; } return false; }
template <class P> bool loose_sign(const Bytes &sk, const Bytes &msg, Bytes &sg) { Loose<P> x; std::unique_ptr<Prng::IPrng> g(new Rng(5)); sg.assign(P::DILITHIUM_SIGNATURE_SIZE + msg.size(), 0); Asymmetric::Sign::DLTM::DLTMBase::Sign(x, sg, msg, sk, g); std::copy(msg.begin(), msg.end(), sg.begin() + P::DILITHIUM_SIGNATURE_SIZE); return too_long<P>(sg); }
#endif
struct Sigs {
	int par; std::vector<int> pars; Str nm; bool faults, slow; std::vector<Wire> keys; std::vector<uint64_t> kseed; std::vector<Signed> made; Inst in[3]; uint64_t next = 1;
	Str sig(const char* s) { return Str("sign:") + s + ":" + fam(par); }
	void boot(Inst &i, bool other) { i.c.reset(); i.k.reset(); i.key = -1; i.signer = false; i.r.reset(new Rng(next++ + 1000 * sim::pick(1000))); int pr = other ? pars[sim::pick((uint32_t)pars.size())] : par; i.own = sim::chance(1, 6); if (i.own) { unsigned how = pr == 7 || pr == 8 ? 1 + sim::pick(5) : sim::pick(6); R r = call([&] { i.c.reset(how == 0 ? Helper::AsymmetricSignerFromName::GetInstance(pr <= 3 ? Enumeration::AsymmetricSigners::Dilithium : pr <= 20 ? Enumeration::AsymmetricSigners::SphincsPlus : Enumeration::AsymmetricSigners::XMSS, (AsymmetricParameters)pr) : own_sig(pr, OWN[how - 1])); }); judge(r, false, "construction with a generator of its own"); sim::count("probe.own_generator"); } else i.c.reset(make_sig(pr, i.r.get())); }
	uint64_t fresh() { return (1ull << 50) + next++; }
	bool arm(Inst &i, unsigned n) { if (!faults) return false; if (sim::fault("allocation", 1, 5)) { sim::arm_alloc(sim::fpick(n)); return true; } if (sim::fault("generator", 1, 8)) { if (i.own) entropy_off(true); else i.r->left = sim::fpick(2); return true; } return false; }
	bool calm(Inst &i) { bool f = sim::alloc_fault_fired() || i.r->failed || (i.own && entropy_off(false)); sim::arm_alloc(-1); i.r->left = -1; i.r->failed = 0; return f; }
	void judge(const R &r, bool fired, const char* what) { if (r.ok()) return; if (fired) { sim::count("probe.failed_by_fault"); sim::nontrivial(); return; } sim::violation(sig("refused").c_str(), "%s: %s failed: %s", nm.c_str(), what, r.what.c_str()); }
	R load(Inst &i, const Bytes &w, bool signer, int key) { std::unique_ptr<AsymmetricKey> k; R r = call([&] { k.reset(unpack(w)); i.c->Initialize(k.get()); }); if (r.ok()) { i.k = std::move(k); i.key = key; i.signer = signer; if (i.c->IsSigner() != signer || !i.c->IsInitialized()) sim::violation(sig("role").c_str(), "%s: initialised as %s, the instance says otherwise", nm.c_str(), signer ? "signer" : "verifier"); } return r; }
	void ready(Inst &i, bool signer, int key) { if (!i.c || sim::chance(1, 4)) boot(i, sim::chance(1, 3)); if (!i.k || i.key != key || i.signer != signer || sim::chance(1, 4)) { R r = load(i, signer ? keys[key].sk : keys[key].pk, signer, key); judge(r, false, "initialisation with an intact key"); } }
	void gen()
	{
		Inst &i = in[sim::pick(3)]; boot(i, false); if (!i.own && !keys.empty() && sim::chance(1, 4)) { uint64_t o = kseed[sim::pick((uint32_t)keys.size())]; if (o < 1ull << 50) i.r->seed = o; } auto* ec = dynamic_cast<Asymmetric::Sign::ECDSA::ECDSA*>(i.c.get()); bool given = ec && !i.own && sim::pick(2); Bytes sd(32); uint64_t seed = i.own ? fresh() : i.r->seed;
		if (given) { Rng t(seed); t.Generate(sd); if (sim::chance(1, 4)) { Bytes bad = sim::bytes(sim::pick(2) ? 33 + sim::pick(40) : sim::pick(32)); R r = call([&] { wire_of(ec->Generate(bad)); }); SIM_CHECK(r.o == Out::crypto, sig("seed").c_str(), "%s: a seed of %zu bytes was not refused", nm.c_str(), bad.size()); sim::count("probe.seed_refused"); } }
		Wire w; bool a = arm(i, 80); R r = call([&] { w = wire_of(given ? ec->Generate(sd) : i.c->Generate()); }); bool f = a && calm(i); sim::log("%s: key pair from seed %llu: %s", nm.c_str(), (unsigned long long)seed, r.ok() ? "ok" : r.what.c_str()); judge(r, f, "key generation"); if (!r.ok()) return;
		SIM_CHECK(w.pk.size() == HEAD + i.c->PublicKeySize() && w.sk.size() == HEAD + i.c->PrivateKeySize(), sig("sizes").c_str(), "%s: keys of %zu and %zu bytes", nm.c_str(), w.pk.size() - HEAD, w.sk.size() - HEAD);
		for (size_t j = 0; j < keys.size(); ++j) { bool same = kseed[j] == seed; if (same ? (keys[j].pk != w.pk || keys[j].sk != w.sk) : (keys[j].pk == w.pk || keys[j].sk == w.sk)) sim::violation(sig("randomness").c_str(), "%s: key pairs from %s randomness are %s", nm.c_str(), same ? "the same" : "different", same ? "different" : "equal"); }
		keys.push_back(w); kseed.push_back(seed);
	}
	void sign()
	{
		Inst &i = in[sim::pick(3)]; int k = sim::pick((uint32_t)keys.size()); ready(i, true, k); Signed s; s.key = k; s.seed = 7000 + next++; s.msg = sim::bytes(1 + sim::pick_size(300)); if (!made.empty() && sim::chance(1, 4)) { const Signed &o = made[sim::pick((uint32_t)made.size())]; s.msg = o.msg; if (sim::pick(2) && o.seed < 1ull << 50) s.seed = o.seed; } if (i.own) s.seed = fresh();
		i.r->seed = s.seed; i.r->pos = 0; Bytes out = sim::bytes(sim::pick(3) * 50); size_t n = 0; bool a = slow || arm(i, 400); if (slow) sim::arm_alloc(sim::fpick(3000)); R r = call([&] { n = i.c->Sign(s.msg, out); }); bool f = a && calm(i); sim::log("sign %zu bytes with key %d: %s", s.msg.size(), k, r.ok() ? "ok" : r.what.c_str()); sim::count(r.ok() ? "op.sign" : "op.sign_failed"); judge(r, f, "signing"); if (!r.ok()) return; s.sig = out;
		SIM_CHECK(out.size() == i.c->SignatureSize() + s.msg.size() && n == out.size(), sig("sizes").c_str(), "%s: a signature of %zu bytes (returned %zu) for a message of %zu, the scheme announces %zu", nm.c_str(), out.size(), n, s.msg.size(), i.c->SignatureSize());
		for (auto &o : made) if (o.key == k && o.msg == s.msg && o.seed == s.seed && o.sig != s.sig && par <= 20) sim::violation(sig("history").c_str(), "%s: the same key, message and randomness gave two signatures", nm.c_str()); else if (o.msg != s.msg && std::equal(o.sig.begin(), o.sig.begin() + i.c->SignatureSize(), s.sig.begin())) sim::violation(sig("history").c_str(), "%s: two messages have one signature", nm.c_str());
		made.push_back(s);
	}
	// the hints of a lattice signature written in another way that means the same, or nearly
	Bytes rehint(Bytes sg, const char** what)
	{
		static const struct { size_t k, l, om, z; } P[] = {{4, 4, 80, 576}, {6, 5, 55, 640}, {8, 7, 75, 640}}; auto &p = P[par - 1]; uint8_t* h = &sg[32 + p.l * p.z]; size_t i = sim::pick((uint32_t)p.k), e = h[p.om + i], b = i ? h[p.om + i - 1] : 0, n = h[p.om + p.k - 1]; unsigned how = sim::pick(4);
		if (how == 0 && e > b + 1) { size_t j = b + sim::pick((uint32_t)(e - b - 1)); std::swap(h[j], h[j + 1]); *what = "two hints out of order"; }
		else if (how == 1 && n < p.om && e > b) { size_t j = b + sim::pick((uint32_t)(e - b)); for (size_t q = n; q > j; --q) h[q] = h[q - 1]; for (; i < p.k; ++i) ++h[p.om + i]; *what = "a hint given twice"; }
		else if (how == 2 && n < p.om) { h[n + sim::pick((uint32_t)(p.om - n))] = (uint8_t)(1 + sim::pick(255)); *what = "an unused hint set"; }
		else if (e > b) { for (; i < p.k; ++i) --h[p.om + i]; *what = "one hint fewer"; }
		else { h[p.om + i] = (uint8_t)(p.om + 1 + sim::pick((uint32_t)(255 - p.om))); *what = "more hints than there are"; }
		return sg;
	}
	// the index, the randomiser and the ends of a hash-based signature: few bytes among thousands
	Bytes edge(Bytes sg, size_t ss, const char** what)
	{
		size_t h = par > 20 ? 4 + 64 : 64, p; switch (sim::pick(3)) { case 0: p = sim::pick(8); *what = "its first bytes changed"; break; case 1: p = sim::pick((uint32_t)h); *what = "its head changed"; break; default: p = ss - 1 - sim::pick(64); *what = "its last bytes changed"; }
		sg[p] ^= (uint8_t)(1u << sim::pick(8)); return sg;
	}
#ifndef SIM_NO_INTERNALS
	void forge()
	{
		int k = sim::pick((uint32_t)keys.size()); Inst &i = in[sim::pick(3)]; Bytes m = sim::bytes(1 + sim::pick(60)), sg, out, sk(keys[k].sk.begin() + HEAD, keys[k].sk.end()); bool lng = par == 1 ? loose_sign<Asymmetric::Sign::DLTM::DLTMBase::Params2544>(sk, m, sg) : par == 2 ? loose_sign<Asymmetric::Sign::DLTM::DLTMBase::Params4016>(sk, m, sg) : loose_sign<Asymmetric::Sign::DLTM::DLTMBase::Params4880>(sk, m, sg); ready(i, false, k); bool ok = false; R r = call([&] { ok = i.c->Verify(sg, out); });
		sim::log("a signature by a careless signer, response %s: %s", lng ? "too long" : "short enough", r.ok() ? ok ? "true" : "false" : r.what.c_str()); judge(r, false, "verification"); if (lng) { sim::nontrivial(); sim::count("probe.response_too_long"); SIM_CHECK(!ok, sig("norm").c_str(), "%s: a signature whose response is longer than the scheme allows was accepted", nm.c_str()); } else sim::count(ok ? "probe.careless_accepted" : "probe.careless_rejected");
	}
#else
	void forge() { }
#endif
	void verify()
	{
		const Signed &s = made[sim::pick((uint32_t)made.size())]; Inst &i = in[sim::pick(3)]; unsigned how = sim::pick(9); const char* what = "intact"; Bytes sg = s.sig, pk = keys[s.key].pk; int k = s.key; size_t ss = s.sig.size() - s.msg.size();
		if (how < 3) { sg = par <= 3 && sim::chance(1, 3) ? rehint(sg, &what) : par > 8 && sim::chance(1, 2) ? edge(sg, ss, &what) : hurt(sg, 0, &what); if (par == 8 || par == 7) if (sim::chance(1, 6)) { sg = s.sig; unsigned c = 0; for (int b = 0; b < 32; ++b) { c += sg[32 + b] + ORDER[b]; sg[32 + b] = (uint8_t)c; c >>= 8; } what = "the order added to the scalar"; } }
		else if (how == 3) { pk = hurt(pk, HEAD, &what); k = -1; }
		else if (how == 4 && keys.size() > 1) { int j = sim::pick((uint32_t)keys.size()); if (keys[j].pk == keys[s.key].pk) how = 8; else { k = j; pk = keys[j].pk; what = "another public key"; } }
		else if (how == 5 && made.size() > 1) { const Signed &o = made[sim::pick((uint32_t)made.size())]; if (o.msg == s.msg) how = 8; else { sg.resize(ss); app(sg, o.msg); what = "another message"; } }
		else if (how == 6) { sg.resize(sim::pick(2) ? sim::pick(3) : ss - sim::pick((uint32_t)std::min<size_t>(ss, 40))); what = "no message"; }
		else how = 8;
		if (how == 3) { if (!i.c || sim::chance(1, 4)) boot(i, sim::chance(1, 3)); R r = load(i, pk, false, -1); sim::nontrivial(); if (!r.ok()) { SIM_CHECK(r.o == Out::crypto, sig("refused").c_str(), "%s: a public key with %s ended in %s", nm.c_str(), what, r.what.c_str()); sim::count("probe.key_refused"); return; } SIM_CHECK(pk.size() == keys[s.key].pk.size(), sig("key-size").c_str(), "%s: a public key of %zu bytes was accepted", nm.c_str(), pk.size() - HEAD); }
		else ready(i, false, k);
		bool intact = how == 8; Bytes msg = sim::bytes(sim::pick(3) * 40); bool a = arm(i, 200), ok = false; R r = call([&] { ok = i.c->Verify(sg, msg); }); bool f = a && calm(i); if (how == 3) { i.k.reset(); boot(i, false); }
		sim::log("verify, %s: %s", what, r.ok() ? ok ? "true" : "false" : r.what.c_str()); sim::count(intact ? "op.verify" : "op.verify_damaged"); if (!intact) sim::nontrivial();
		if (!r.ok()) { if (!f && !intact && r.o == Out::crypto) return; judge(r, f, "verification"); return; }
		if (intact) { SIM_CHECK(ok, sig("reject").c_str(), "%s: an intact signature was rejected", nm.c_str()); SIM_CHECK(msg == s.msg, sig("message").c_str(), "%s: verification returned %zu bytes that are not the message of %zu", nm.c_str(), msg.size(), s.msg.size()); return; }
		SIM_CHECK(!ok, sig("accept").c_str(), "%s: a signature of a message of %zu bytes with %s was accepted", nm.c_str(), s.msg.size(), what);
	}
	// the wrong role, an empty message, a key of the wrong kind: refused, and the instance works on as it was
	void misuse()
	{
		Inst &i = in[sim::pick(3)]; int k = sim::pick((uint32_t)keys.size()); bool signer = sim::pick(2) && !slow; ready(i, signer, k); unsigned how = sim::pick(3); Bytes m = how == 1 ? Bytes() : sim::bytes(5), out; R r; const char* what;
		if (how == 0 || (how == 1 && !signer)) { what = signer ? "verifying with a private key" : "signing with a public key"; r = call([&] { if (signer) i.c->Verify(made.empty() ? m : made[0].sig, out); else i.c->Sign(m, out); }); }
		else if (how == 1) { what = "signing an empty message"; r = call([&] { i.c->Sign(m, out); }); }
		else { what = "a key cut short"; Bytes w = signer ? keys[k].sk : keys[k].pk; w.resize(HEAD + sim::pick((uint32_t)(w.size() - HEAD))); std::unique_ptr<AsymmetricKey> x; r = call([&] { x.reset(unpack(w)); i.c->Initialize(x.get()); }); }
		sim::log("%s: %s", what, r.ok() ? "ok" : r.what.c_str()); sim::count("probe.misuse"); SIM_CHECK(r.o == Out::crypto, sig("misuse").c_str(), "%s: %s was not refused (%s)", nm.c_str(), what, r.ok() ? "no error" : r.what.c_str());
	}
	void run(unsigned ops) { for (unsigned o = 0; o < ops; ++o) { unsigned w = keys.empty() ? 0 : sim::pick(12); if (w == 0 && !slow && keys.size() < 3) gen(); else if (keys.empty()) { if (o > 4) return; } else if (w == 1) misuse(); else if (w == 11 && par <= 3) forge(); else if (made.empty() || (w < 5 && !slow) || (slow && faults && w == 2)) sign(); else verify(); } }
};
// hash-based keys and signatures take seconds to make: one set of them serves all runs
struct Made { int par; Wire w; std::vector<Signed> s; Str err; double cost; };
std::vector<Made> made;
void hash_warm()
{
	static const struct { int par, n; } jobs[] = {{20, 1}, {27, 1}, {21, 1}, {18, 1}, {19, 1}, {17, 2}, {58, 2}, {42, 2}, {50, 2}, {34, 2}};
	std::vector<int> fd; for (auto &j : jobs) { int p[2]; if (pipe(p)) _exit(9); if (fork() == 0) { syscall(SYS_alarm, 400); Bytes o; auto put = [&](const Bytes &b) { uint64_t n = b.size(); const uint8_t* q = (const uint8_t*)&n; o.insert(o.end(), q, q + 8); app(o, b); };
		Wire w; std::vector<Signed> s; R r = call([&] { Rng g(j.par * 3 + 1); std::unique_ptr<IAsymmetricSigner> c(make_sig(j.par, &g)); w = wire_of(c->Generate()); std::unique_ptr<AsymmetricKey> k(unpack(w.sk)); c->Initialize(k.get()); for (int i = 0; i < j.n; ++i) { Signed x; x.key = 0; x.msg.assign(1 + 40 * i, (uint8_t)(i + 3)); c->Sign(x.msg, x.sig); s.push_back(x); } w.sk = pack(*k); });
		Str e = r.ok() ? "" : r.what; put(Bytes(e.begin(), e.end())); put(w.pk); put(w.sk); for (auto &x : s) { put(x.msg); put(x.sig); } const uint8_t* q = o.data(); size_t n = o.size(); while (n) { ssize_t k = write(p[1], q, n); if (k <= 0) _exit(1); q += k; n -= k; } _exit(0); } close(p[1]); fd.push_back(p[0]); }
	for (size_t x = 0; x < fd.size(); ++x) { Bytes o; uint8_t b[65536]; ssize_t k; while ((k = read(fd[x], b, sizeof b)) > 0) o.insert(o.end(), b, b + k); close(fd[x]); int st; wait(&st); size_t p = 0; auto get = [&](Bytes &v) { if (p + 8 > o.size()) return false; uint64_t n; memcpy(&n, &o[p], 8); p += 8; if (p + n > o.size()) return false; v.assign(o.begin() + p, o.begin() + p + n); p += n; return true; };
		Made m; m.par = jobs[x].par; Bytes e; bool ok = get(e) && get(m.w.pk) && get(m.w.sk); for (int i = 0; ok && i < jobs[x].n; ++i) { Signed s; s.key = 0; s.seed = i; ok = get(s.msg) && get(s.sig); m.s.push_back(s); } if (!ok) m.err = "the process ended"; if (e.size()) m.err.assign(e.begin(), e.end()); made.push_back(m); }
}
}
SCENARIO(sign_lattice, "C14", "a signature, message or key was altered, or a fault struck")
{
	sim::machine(); sim::StepLimit lim(900000000); Sigs s; s.pars = {1, 2, 3}; s.par = 1 + sim::pick(3); s.nm = Str("Dilithium-") + std::to_string(s.par); s.slow = false; s.faults = sim::chance(1, 3); s.run(sim::pick_range(4, 16));
}
SCENARIO(sign_curve, "C14", "a signature, message or key was altered, or a fault struck")
{
	sim::machine(); sim::StepLimit lim(900000000); Sigs s; s.pars = {7, 8}; s.par = 7 + sim::pick(2); s.nm = s.par == 7 ? "ECDSA-K" : "ECDSA-S"; s.slow = false; s.faults = sim::chance(1, 3); s.run(sim::pick_range(4, 16));
}
SCENARIO_WARM(sign_hash, "C14", "a signature, message or key was altered, or a fault struck", hash_warm)
{
	sim::machine(); sim::StepLimit lim(900000000); Made &m = made[sim::pick((uint32_t)made.size())]; Sigs s; for (auto &x : made) if ((x.par <= 20) == (m.par <= 20)) s.pars.push_back(x.par); s.par = m.par; s.nm = Str(fam(m.par)) + "-" + std::to_string(m.par); SIM_CHECK(m.err.empty(), s.sig("refused").c_str(), "%s: making a key pair and signatures failed: %s", s.nm.c_str(), m.err.c_str()); s.slow = true; s.faults = sim::chance(1, 3); s.keys.push_back(m.w); s.made = m.s;
	s.run(sim::pick_range(2, 8));
}
