// C16: key containers against the plain parts they were given, with failing allocations and system information calls.
#include "cx.h"
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "AsymmetricSecureKey.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
using namespace cx;
namespace {
using Cipher::SymmetricKey; using Cipher::SymmetricSecureKey; using Cipher::SymmetricKeySize; using Cipher::ISymmetricKey; using Enumeration::SecurityPolicy;
typedef std::string Str;
SecurityPolicy pick_policy() { return (SecurityPolicy)sim::pick_range(1, 6); }
Bytes part(bool big) { if (big && sim::chance(1, 6)) { Bytes b(65530 + sim::pick(12)); sim::fill_from(sim::pick(1u << 20), b.data(), b.size()); return b; } return sim::pick(4) ? sim::bytes(sim::pick_size(200)) : Bytes(); }
void eq(const Bytes &g, const Bytes &e, const Str &sig, const char* what)
{
	long d = first_diff(g, e); if (d >= 0) sim::violation(sig.c_str(), "%s: %zu bytes, expected %zu, first difference at %ld (expected ..%s, got ..%s)", what, g.size(), e.size(), d, d < (long)e.size() ? hex(&e[d], e.size() - d, 4).c_str() : "", d < (long)g.size() ? hex(&g[d], g.size() - d, 4).c_str() : "");
}
// faults around one call
struct Weather {
	bool alloc, os, on_os = false, on_al = false;
	void arm(bool can_os) { on_os = os && can_os && sim::fault("os_info", 1, 6); on_al = alloc && sim::chance(1, 2); simos::entropy().os_info_fail = on_os; if (on_al) sim::arm_alloc(sim::fpick(30)); }
	void calm() { sim::arm_alloc(-1); simos::entropy().os_info_fail = false; }
	// a failure is only allowed when something failed underneath
	void judge(const R &r, const Str &cls, const char* what, bool strange)
	{
		if (r.ok()) return; sim::count("probe.refused");
		if (r.o == Out::std_) sim::violation(("key:exception:" + cls).c_str(), "%s of %s ended in %s", what, cls.c_str(), r.what.c_str());
		if (!on_al && (r.o == Out::alloc || (!on_os && !strange))) sim::violation(("key:refused:" + cls).c_str(), "%s of %s failed: %s", what, cls.c_str(), r.what.c_str());
	}
};
struct SK { // a symmetric container and what it was given
	bool sec = false; std::unique_ptr<ISymmetricKey> p; Bytes k, n, i; bool torn = false; // torn: built while the system calls failed, may refuse
	SymmetricKey* a() { return (SymmetricKey*)p.get(); } SymmetricSecureKey* b() { return (SymmetricSecureKey*)p.get(); } Str nm() const { return sec ? "SymmetricSecureKey" : "SymmetricKey"; }
};
bool make_sym(SK &t, Weather &w)
{
	bool sv = sim::pick(2), pol = t.sec && sim::pick(2); unsigned parts = sim::pick_range(1, 3); bool big = sim::chance(1, 8); t.k = part(big); t.n = parts > 1 ? part(big) : Bytes(); t.i = parts > 2 ? part(big) : Bytes(); SecurityPolicy po = pick_policy(); Bytes salt = sim::pick(5) ? sim::bytes(sim::pick_range(4, 90)) : Bytes();
	bool bad = t.k.size() + t.n.size() + t.i.size() == 0 || (pol && salt.empty()); t.p.reset(); Bytes k = t.k, n = t.n, i = t.i; w.arm(t.sec);
	R r = call([&] {
		if (!t.sec) { if (sv) { SBytes k = S(t.k), n = S(t.n), i = S(t.i); t.p.reset(parts == 1 ? new SymmetricKey(k) : parts == 2 ? new SymmetricKey(k, n) : new SymmetricKey(k, n, i)); } else t.p.reset(parts == 1 ? new SymmetricKey(t.k) : parts == 2 ? new SymmetricKey(t.k, t.n) : new SymmetricKey(t.k, t.n, t.i)); }
		else if (sv) { SBytes k = S(t.k), n = S(t.n), i = S(t.i), s = S(salt); if (pol) t.p.reset(parts == 1 ? new SymmetricSecureKey(k, po, s) : parts == 2 ? new SymmetricSecureKey(k, n, po, s) : new SymmetricSecureKey(k, n, i, po, s)); else t.p.reset(parts == 1 ? new SymmetricSecureKey(k) : parts == 2 ? new SymmetricSecureKey(k, n) : new SymmetricSecureKey(k, n, i)); }
		else { if (pol) t.p.reset(parts == 1 ? new SymmetricSecureKey(t.k, po, salt) : parts == 2 ? new SymmetricSecureKey(t.k, t.n, po, salt) : new SymmetricSecureKey(t.k, t.n, t.i, po, salt)); else t.p.reset(parts == 1 ? new SymmetricSecureKey(t.k) : parts == 2 ? new SymmetricSecureKey(t.k, t.n) : new SymmetricSecureKey(t.k, t.n, t.i)); }
	});
	w.calm(); sim::log("new %s key %zu nonce %zu info %zu policy %d salt %zu: %s", t.nm().c_str(), t.k.size(), t.n.size(), t.i.size(), pol ? (int)po : -1, salt.size(), r.ok() ? "ok" : r.what.c_str()); t.torn = w.on_os;
	if (r.ok() && bad) sim::violation(("key:empty:" + t.nm()).c_str(), "a %s without any material, or without the salt its policy needs, was created", t.nm().c_str());
	w.judge(r, t.nm(), "construction", bad); sim::count(("op.new_" + t.nm()).c_str()); return r.ok();
}
// every part, read one way or the other
void read_sym(SK &t, Weather &w)
{
	unsigned which = sim::pick(3), sv = sim::pick(2); Bytes g; w.arm(t.sec);
	R r = call([&] { if (sv) { SBytes s = which == 0 ? t.p->SecureKey() : which == 1 ? t.p->SecureIV() : t.p->SecureInfo(); sim::NoFaults q; g = U(s); } else g = which == 0 ? t.p->Key() : which == 1 ? t.p->IV() : t.p->Info(); });
	w.calm(); sim::log("read part %u: %s", which, r.ok() ? "ok" : r.what.c_str()); w.judge(r, t.nm(), "reading a part", t.torn); if (r.ok()) eq(g, which == 0 ? t.k : which == 1 ? t.n : t.i, "key:part:" + t.nm(), which == 0 ? "the key" : which == 1 ? "the nonce" : "the info");
	SymmetricKeySize &z = t.p->KeySizes(); if (z.KeySize() != t.k.size() || z.IVSize() != t.n.size() || z.InfoSize() != t.i.size()) sim::violation(("key:sizes:" + t.nm()).c_str(), "%s reports sizes %zu/%zu/%zu, holds %zu/%zu/%zu", t.nm().c_str(), z.KeySize(), z.IVSize(), z.InfoSize(), t.k.size(), t.n.size(), t.i.size());
}
// a serialised container, whole or damaged, comes back as what its bytes say or not at all
bool restore_sym(SK &t, Bytes s, bool damaged, bool sec, Weather &w)
{
	SBytes v = S(s); SymmetricKey* k = nullptr; w.arm(false); R r = call([&] { k = sec ? SymmetricSecureKey::DeSerialize(v) : SymmetricKey::DeSerialize(v); }); w.calm(); std::unique_ptr<ISymmetricKey> own(k); Str cls = sec ? "SymmetricSecureKey" : "SymmetricKey"; sim::count(damaged ? "op.restore_damaged" : "op.restore");
	sim::log("restore %zu bytes: %s", s.size(), r.ok() ? "ok" : r.what.c_str()); w.judge(r, cls, "restoring a serialised key", damaged); if (!r.ok()) return false;
	if (!damaged) { t.sec = false; t.torn = false; t.p = std::move(own); return true; }
	sim::nontrivial(); size_t kl = 0, nl = 0, il = 0; if (s.size() >= 6) { kl = s[0] | s[1] << 8; nl = s[2] | s[3] << 8; il = s[4] | s[5] << 8; }
	if (s.size() < 6 + kl + nl + il || kl + nl + il == 0) sim::violation(("key:corrupt:" + cls).c_str(), "a container was made of %zu bytes that announce parts of %zu, %zu and %zu", s.size(), kl, nl, il);
	eq(k->Key(), slice(s, 6, kl), "key:restored:" + cls, "the key of a damaged serialisation"); eq(k->IV(), slice(s, 6 + kl, nl), "key:restored:" + cls, "the nonce of a damaged serialisation"); eq(k->Info(), slice(s, 6 + kl + nl, il), "key:restored:" + cls, "the info of a damaged serialisation"); return false;
}
Bytes damage(Bytes s)
{
	switch (sim::pick(5)) {
	case 0: s.resize(sim::pick((uint32_t)s.size() + 1)); break;
	case 1: s.resize(sim::pick(std::min<uint32_t>(8, (uint32_t)s.size() + 1))); break;
	case 2: { Bytes x = sim::bytes(sim::pick_range(1, 20)); s.insert(s.end(), x.begin(), x.end()); break; }
	case 3: if (s.size()) s[sim::pick(std::min<uint32_t>(8, (uint32_t)s.size()))] ^= (uint8_t)(1u << sim::pick(8)); break;
	default: s = sim::bytes(sim::pick(40));
	}
	return s;
}
void serial_sym(SK &t, Weather &w, std::vector<SK> &all)
{
	SBytes o; w.arm(t.sec); R r = call([&] { o = t.sec ? SymmetricSecureKey::Serialize(*t.b()) : SymmetricKey::Serialize(*t.a()); }); w.calm(); bool fits = t.k.size() < 65536 && t.n.size() < 65536 && t.i.size() < 65536; sim::log("serialise: %s, %zu bytes", r.ok() ? "ok" : r.what.c_str(), o.size());
	w.judge(r, t.nm(), "serialisation", t.torn || !fits); if (!r.ok()) return; Bytes s = U(o);
	if (t.k.size() + t.n.size() + t.i.size() == 0) { SK u; restore_sym(u, s, true, t.sec, w); return; } // a reset container
	if (sim::chance(1, 3)) { SK u; Bytes x = damage(s); if (x != s) restore_sym(u, x, true, sim::pick(2), w); if (s.size() >= 6) return; }
	SK u; u.k = t.k; u.n = t.n; u.i = t.i; if (!restore_sym(u, s, false, sim::pick(2), w)) return;
	eq(u.p->Key(), u.k, "key:restored:" + t.nm(), "the key after a round trip"); eq(u.p->IV(), u.n, "key:restored:" + t.nm(), "the nonce after a round trip"); eq(u.p->Info(), u.i, "key:restored:" + t.nm(), "the info after a round trip"); all.push_back(std::move(u)); sim::nontrivial();
}
}
SCENARIO(symmetric_keys, "C16", "a container was cloned, restored from its serialisation or offered a damaged one")
{
	sim::machine(); simos::reset(); sim::StepLimit lim(60000000); Weather w; w.alloc = sim::chance(1, 3); w.os = sim::chance(1, 3); std::vector<SK> all; unsigned ops = sim::pick_range(3, 16);
	for (unsigned o = 0; o < ops; ++o) {
		unsigned op = all.empty() ? 0 : sim::pick(9); size_t x = all.empty() ? 0 : sim::pick((uint32_t)all.size());
		switch (op) {
		case 0: { SK t; t.sec = sim::chance(2, 3); if (make_sym(t, w)) all.push_back(std::move(t)); break; }
		case 1: case 2: case 3: read_sym(all[x], w); break;
		case 4: case 5: serial_sym(all[x], w, all); break;
		case 6: { SK &t = all[x]; SK u; u.sec = t.sec; u.k = t.k; u.n = t.n; u.i = t.i; w.arm(t.sec); R r = call([&] { if (t.sec) u.p.reset(t.b()->Clone()); else u.p.reset(t.a()->Clone()); }); w.calm(); sim::log("clone: %s", r.ok() ? "ok" : r.what.c_str());
			bool none = t.k.size() + t.n.size() + t.i.size() == 0; if (r.ok() && none) sim::violation(("key:empty:" + t.nm()).c_str(), "a clone of a container that was reset was created"); w.judge(r, t.nm(), "cloning", t.torn || none); u.torn = w.on_os; if (r.ok()) { all.push_back(std::move(u)); sim::nontrivial(); } break; }
		case 7: { SK &t = all[x]; if (sim::pick(3)) break; sim::log("reset"); t.p->Reset(); t.k.clear(); t.n.clear(); t.i.clear(); sim::nontrivial(); break; }
		default: sim::log("destroy"); all.erase(all.begin() + x);
		}
		if (all.size() > 6) all.erase(all.begin());
	}
	w.alloc = w.os = false; for (auto &t : all) for (int i = 0; i < 3; ++i) read_sym(t, w);
}
namespace {
using namespace CEX::Asymmetric; using Enumeration::AsymmetricPrimitives; using Enumeration::AsymmetricKeyTypes; using Enumeration::AsymmetricParameters;
struct AK { std::unique_ptr<AsymmetricKey> a; std::unique_ptr<AsymmetricSecureKey> s; Bytes poly; uint8_t prim = 0, kt = 0, par = 0; bool torn = false, dead = false; Str nm() const { return s ? "AsymmetricSecureKey" : "AsymmetricKey"; } };
void head_asym(AK &t)
{
	uint8_t p = t.a ? (uint8_t)t.a->PrimitiveType() : (uint8_t)t.s->PrimitiveType(), k = t.a ? (uint8_t)t.a->KeyClass() : (uint8_t)t.s->KeyClass(), q = t.a ? (uint8_t)t.a->Parameters() : (uint8_t)t.s->Parameters();
	if (p != t.prim || k != t.kt || q != t.par) sim::violation(("key:header:" + t.nm()).c_str(), "%s reports primitive %u, class %u, parameters %u; given were %u, %u, %u", t.nm().c_str(), p, k, q, t.prim, t.kt, t.par);
}
void read_asym(AK &t, Weather &w)
{
	Bytes g; bool sv = sim::pick(2); size_t extra = sim::pick(3) ? 0 : sim::pick(20); SBytes o(t.poly.size() + extra, 0x5a); head_asym(t); w.arm(!!t.s);
	R r = call([&] { if (t.a) { if (sv) { const SBytes &x = t.a->SecurePolynomial(); sim::NoFaults q; g = U(x); } else g = t.a->Polynomial(); } else if (sv) { t.s->SecurePolynomial(o); sim::NoFaults q; g = U(o); } else g = t.s->Polynomial(); });
	w.calm(); sim::log("read polynomial: %s, %zu bytes", r.ok() ? "ok" : r.what.c_str(), g.size()); w.judge(r, t.nm(), "reading the polynomial", t.torn); if (!r.ok()) return;
	if (t.s && sv) { for (size_t i = t.poly.size(); i < g.size(); ++i) if (g[i] != 0x5a) sim::violation("key:bounds:AsymmetricSecureKey", "SecurePolynomial changed byte %zu, the polynomial has %zu", i, t.poly.size()); g.resize(t.poly.size()); }
	eq(g, t.poly, "key:part:" + t.nm(), "the polynomial");
}
bool make_asym(AK &t, bool sec, Weather &w)
{
	bool big = sim::chance(1, 10); t.poly = part(big); if (sim::chance(9, 10) && t.poly.empty()) t.poly = sim::bytes(1 + sim::pick(100)); auto id = [&](unsigned n) -> uint8_t { return sim::chance(1, 20) ? 0 : sim::pick_range(1, n); }; t.prim = id(11); t.kt = id(4); t.par = id(61); unsigned po = sim::chance(1, 20) ? 0 : sim::pick_range(1, 6); Bytes salt = sim::pick(3) ? sim::bytes(sim::pick_range(4, 90)) : Bytes(); bool sv = sim::pick(2);
	bool bad = t.poly.empty() || !t.prim || !t.kt || !t.par || (sec && !po); SBytes sp = S(t.poly), ss = S(salt); w.arm(sec);
	R r = call([&] { auto p = (AsymmetricPrimitives)t.prim; auto k = (AsymmetricKeyTypes)t.kt; auto q = (AsymmetricParameters)t.par;
		if (!sec) t.a.reset(sv ? new AsymmetricKey(sp, p, k, q) : new AsymmetricKey(t.poly, p, k, q)); else t.s.reset(sv ? new AsymmetricSecureKey(sp, ss, p, k, q, (SecurityPolicy)po) : new AsymmetricSecureKey(t.poly, salt, p, k, q, (SecurityPolicy)po)); });
	w.calm(); Str cls = sec ? "AsymmetricSecureKey" : "AsymmetricKey"; sim::log("new %s of %zu bytes, %u/%u/%u policy %u salt %zu: %s", cls.c_str(), t.poly.size(), t.prim, t.kt, t.par, po, salt.size(), r.ok() ? "ok" : r.what.c_str()); sim::count(("op.new_" + cls).c_str());
	if (r.ok() && bad) sim::violation(("key:empty:" + cls).c_str(), "a %s of %zu bytes with types %u/%u/%u and policy %u was created", cls.c_str(), t.poly.size(), t.prim, t.kt, t.par, po); t.torn = w.on_os; w.judge(r, cls, "construction", bad); return r.ok();
}
void serial_asym(AK &t, Weather &w, std::vector<AK> &all)
{
	SBytes o; w.arm(!!t.s); R r = call([&] { o = t.a ? AsymmetricKey::Serialize(*t.a) : AsymmetricSecureKey::Serialize(*t.s); }); w.calm(); sim::log("serialise: %s, %zu bytes", r.ok() ? "ok" : r.what.c_str(), o.size()); w.judge(r, t.nm(), "serialisation", t.torn); if (!r.ok()) return;
	Bytes s = U(o); bool dmg = t.dead; if (sim::chance(1, 3)) { Bytes x = damage(s); if (x != s) { s = x; dmg = true; } }
	SBytes v = S(s); AsymmetricKey* k = nullptr; bool via = sim::pick(2); w.arm(false); r = call([&] { k = via ? AsymmetricSecureKey::DeSerialize(v) : AsymmetricKey::DeSerialize(v); }); w.calm(); AK u; u.a.reset(k); sim::log("restore %zu bytes: %s", s.size(), r.ok() ? "ok" : r.what.c_str()); sim::count(dmg ? "op.restore_damaged" : "op.restore"); w.judge(r, t.nm(), "restoring a serialised key", dmg); if (!r.ok()) return;
	sim::nontrivial(); if (dmg) { if (s.size() < 4 || !s[0] || !s[1] || !s[2]) sim::violation("key:corrupt:AsymmetricKey", "a container was made of %zu bytes starting with %s", s.size(), hex(s, 3).c_str()); u.kt = s[0]; u.par = s[1]; u.prim = s[2]; u.poly = slice(s, 3, s.size() - 3); }
	else { u.kt = t.kt; u.par = t.par; u.prim = t.prim; u.poly = t.poly; }
	head_asym(u); eq(k->Polynomial(), u.poly, "key:restored:" + t.nm(), dmg ? "the polynomial of a damaged serialisation" : "the polynomial after a round trip"); all.push_back(std::move(u));
}
}
SCENARIO(asymmetric_keys, "C16", "a container was serialised and offered for restoring")
{
	sim::machine(); simos::reset(); sim::StepLimit lim(60000000); Weather w; w.alloc = sim::chance(1, 3); w.os = sim::chance(1, 3); std::vector<AK> all; unsigned ops = sim::pick_range(3, 16);
	for (unsigned o = 0; o < ops; ++o) {
		unsigned op = all.empty() ? 0 : sim::pick(8); size_t x = all.empty() ? 0 : sim::pick((uint32_t)all.size());
		switch (op) {
		case 0: { AK t; if (make_asym(t, sim::chance(2, 3), w)) all.push_back(std::move(t)); break; }
		case 1: case 2: case 3: read_asym(all[x], w); break;
		case 4: case 5: serial_asym(all[x], w, all); break;
		case 6: { AK &t = all[x];
			if (sim::pick(3)) { // the polynomial replaced by one of its size, or not at all
				if (!t.a) break; bool fit = sim::pick(2); Bytes n = sim::bytes(fit ? t.poly.size() : sim::pick_size(200)); fit = n.size() == t.poly.size(); if (w.alloc && sim::fault("allocation", 1, 4)) sim::arm_alloc(sim::fpick(4)); R r = call([&] { t.a->Update(n); }); bool fired = sim::alloc_fault_fired(); sim::arm_alloc(-1); sim::log("update with %zu bytes over %zu: %s", n.size(), t.poly.size(), r.ok() ? "ok" : r.what.c_str()); sim::count("op.update");
				if (r.ok() != fit && !(fit && fired)) sim::violation("key:update:AsymmetricKey", "an update of a key of %zu bytes with %zu bytes %s", t.poly.size(), n.size(), r.ok() ? "was accepted" : "was refused"); if (r.ok()) t.poly = n; eq(t.a->Polynomial(), t.poly, "key:part:AsymmetricKey", "the polynomial after an update"); break; }
			sim::log("reset"); if (t.a) t.a->Reset(); else t.s->Reset(); t.poly.clear(); t.prim = t.kt = t.par = 0; t.dead = true; break; }
		default: {
			if (sim::pick(2) || all.size() < 2 || !all[0].a || !all[1].a) { sim::log("destroy"); all.erase(all.begin() + x); break; }
			Bytes tag = sim::bytes(sim::pick(40)), tc = tag; { AsymmetricKeyPair kp(all[0].a.release(), all[1].a.release(), tag); for (auto &b : tag) b ^= 1; sim::log("pair"); // the pair owns both keys and a copy of the tag
				for (int i = 0; i < 2; ++i) eq((i ? kp.PublicKey() : kp.PrivateKey())->Polynomial(), all[i].poly, "key:part:AsymmetricKeyPair", "the polynomial of a key in a pair"); eq(kp.Tag(), tc, "key:part:AsymmetricKeyPair", "the tag of a pair"); } sim::count("op.pair"); all.erase(all.begin(), all.begin() + 2); }
		}
		if (all.size() > 6) all.erase(all.begin());
	}
	w.alloc = w.os = false; for (auto &t : all) for (int i = 0; i < 2; ++i) read_asym(t, w);
}
SCENARIO(key_generator, "C16", "a key was generated")
{
	sim::random_machine(); sim::machine().rdrand = true; simos::reset(); sim::StepLimit lim(400000000); static const Enumeration::Providers pv[] = {Enumeration::Providers::CSP, Enumeration::Providers::RDP, Enumeration::Providers::ACP}; auto pr = pv[sim::pick(4) ? 0 : sim::pick(3)]; SecurityPolicy po = pick_policy(); Cipher::SymmetricKeyGenerator g(po, pr); unsigned n = sim::pick_range(1, 5); std::vector<Bytes> seen; unsigned ends = 0; uint8_t any = 0; bool f = sim::chance(1, 3);
	for (unsigned i = 0; i < n; ++i) {
		size_t kl = sim::pick(8) ? sim::pick_size(300) : 0, nl = sim::pick(3) ? sim::pick_size(100) : 0, il = sim::pick(3) ? sim::pick_size(100) : 0; bool sec = sim::pick(2); std::unique_ptr<ISymmetricKey> k; auto &e = simos::entropy(); if (f) e.csp_gen_fail = sim::fpick(8); bool al = f && sim::chance(1, 2); if (al) sim::arm_alloc(sim::fpick(60));
		uint64_t f0 = e.csp_failures; R r = call([&] { SymmetricKeySize z(kl, nl, il); if (sec) k.reset(g.GetSecureKey(z)); else k.reset(g.GetSymmetricKey(z)); }); sim::arm_alloc(-1); e.csp_gen_fail = 0; const char* cls = sec ? "GetSecureKey" : "GetSymmetricKey"; sim::log("%s %zu/%zu/%zu: %s", cls, kl, nl, il, r.ok() ? "ok" : r.what.c_str());
		if (!r.ok()) { if (r.o == Out::std_) sim::violation((Str("key:exception:") + cls).c_str(), "%s ended in %s", cls, r.what.c_str()); if (kl && !al && e.csp_failures == f0) sim::violation((Str("key:refused:") + cls).c_str(), "%s of %zu/%zu/%zu bytes failed: %s", cls, kl, nl, il, r.what.c_str()); continue; }
		if (!kl) sim::violation((Str("key:empty:") + cls).c_str(), "%s made a key of size zero", cls); sim::nontrivial();
		Bytes p[3] = {k->Key(), k->IV(), k->Info()}; if (p[0].size() != kl || p[1].size() != nl || p[2].size() != il) sim::violation((Str("key:sizes:") + cls).c_str(), "%s of %zu/%zu/%zu bytes returned %zu/%zu/%zu", cls, kl, nl, il, p[0].size(), p[1].size(), p[2].size());
		SymmetricKeySize &z = k->KeySizes(); if (z.KeySize() != kl || z.IVSize() != nl || z.InfoSize() != il) sim::violation((Str("key:sizes:") + cls).c_str(), "%s of %zu/%zu/%zu bytes reports %zu/%zu/%zu", cls, kl, nl, il, z.KeySize(), z.IVSize(), z.InfoSize());
		for (auto &b : p) if (!b.empty()) { ++ends; any |= b.back(); }
		for (auto &b : p) if (b.size() >= 24) { Bytes t(b.end() - 12, b.end()); for (auto &o : seen) if (o == t) sim::violation((Str("key:repeated:") + cls).c_str(), "%s returned the same bytes twice (%s)", cls, hex(t).c_str()); seen.push_back(t); }
		for (auto &b : p) if (b.size() >= 12) { b.resize(12); for (auto &o : seen) if (o == b) sim::violation((Str("key:repeated:") + cls).c_str(), "%s returned the same bytes twice (%s)", cls, hex(b).c_str()); seen.push_back(b); }
	}
	SIM_CHECK(ends < 6 || any, "key:constant:SymmetricKeyGenerator", "the last byte of all of %u generated parts is zero", ends);
	// the size record itself
	size_t a = sim::pick(70000), b = sim::pick(300), c = sim::pick(300); SymmetricKeySize z(a, b, c), y(z.ToBytes()); SIM_CHECK(y.KeySize() == a && y.IVSize() == b && y.InfoSize() == c, "key:sizes:SymmetricKeySize", "sizes %zu/%zu/%zu came back as %zu/%zu/%zu", a, b, c, y.KeySize(), y.IVSize(), y.InfoSize());
	Bytes sh = z.ToBytes(); sh.resize(sim::pick(12)); R r = call([&] { SymmetricKeySize q(sh); }); SIM_CHECK(!r.ok(), "key:corrupt:SymmetricKeySize", "sizes were restored from %zu bytes", sh.size());
}
