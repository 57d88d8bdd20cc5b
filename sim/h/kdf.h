// Key derivation functions and generators behind one face, and their references.
#pragma once
#include "dg.h"
#include "BCG.h"
#include "CSG.h"
#include "CryptoRandomException.h"
#include "HCG.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SCBKDF.h"
#include "SHAKE.h"
#include <deque>
using namespace cx;
namespace {
struct Sponge { // a Keccak state absorbing padded messages, squeezing block by block
	uint64_t s[25] = {0}; size_t rate; Sponge(size_t r) : rate(r) {}
	void x(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) s[i / 8] ^= (uint64_t)p[i] << 8 * (i % 8); }
	void absorb(const Bytes &m, uint8_t dom) { size_t o = 0; for (; m.size() - o >= rate; o += rate) { x(&m[o], rate); keccak_f(s); } Bytes b(m.begin() + o, m.end()); b.push_back(dom); b.resize(rate, 0); b[rate - 1] |= 0x80; x(b.data(), rate); }
	void custom(const Bytes &c, const Bytes &name) { Bytes b; left_enc(b, rate); left_enc(b, name.size() * 8); app(b, name); left_enc(b, c.size() * 8); app(b, c); while (b.size() % rate) b.push_back(0); for (size_t o = 0; o < b.size(); o += rate) { x(&b[o], rate); keccak_f(s); } }
	Bytes peek() { Bytes o(rate); for (size_t i = 0; i < rate; ++i) o[i] = (uint8_t)(s[i / 8] >> 8 * (i % 8)); return o; }
	Bytes block() { keccak_f(s); return peek(); }
};
// ---- key derivation
enum KK { K_HKDF256, K_HKDF512, K_KDF2256, K_KDF2512, K_PB256, K_PB512, K_SH128, K_SH256, K_SH512, K_SC128, K_SC256, K_SC512, K_COUNT };
const char* kk_name(int k) { static const char* n[] = {"HKDF-SHA256", "HKDF-SHA512", "KDF2-SHA256", "KDF2-SHA512", "PBKDF2-SHA256", "PBKDF2-SHA512", "SHAKE128", "SHAKE256", "SHAKE512", "SCBKDF128", "SCBKDF256", "SCBKDF512"}; return n[k]; }
struct KSpec { int k; unsigned iter, cpu, mem; bool own; bool big() const { return k & 1; } size_t ds() const { return big() ? 64 : 32; } size_t rate() const { static const size_t r[] = {168, 136, 72, 168, 136, 72}; return r[k - K_SH128]; } size_t block() const { return k < K_SH128 ? ds() : rate(); } };
typedef std::unique_ptr<Kdf::IKdf> Kp;
struct KObj { Dg dg; Kp k; };
KObj make_kdf(const KSpec &s)
{
	using namespace Kdf; using namespace Enumeration; KObj o; SHA2Digests d = s.big() ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256;
	if (s.own && s.k < K_SH128) o.dg = make_digest(s.big() ? D_S2512 : D_S2256, 0);
	static const ShakeModes m[] = {ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512};
	switch (s.k) {
	case K_HKDF256: case K_HKDF512: o.k.reset(o.dg ? new HKDF(o.dg.get()) : new HKDF(d)); break;
	case K_KDF2256: case K_KDF2512: o.k.reset(o.dg ? new KDF2(o.dg.get()) : new KDF2(d)); break;
	case K_PB256: case K_PB512: o.k.reset(o.dg ? new PBKDF2(o.dg.get(), s.iter) : new PBKDF2(d, s.iter)); break;
	case K_SC128: case K_SC256: case K_SC512: o.k.reset(new SCBKDF(m[s.k - K_SC128], s.cpu, s.mem)); break;
	default: o.k.reset(new SHAKE(m[s.k - K_SH128])); break;
	}
	return o;
}
Key kdf_key(const KSpec &s)
{
	Key k; size_t bs = s.k < K_SH128 ? (s.big() ? 128 : 64) : s.rate(); size_t mn = s.k < K_PB256 || s.k >= K_SC128 ? 16 : 8;
	k.key = sim::bytes(sim::pick(2) ? std::max(mn, bs + sim::pick(3) - 1) : sim::pick_range((uint32_t)mn, 2 * (uint32_t)bs + 20));
	unsigned z = sim::pick(4); if (z & 1) k.nonce = sim::bytes(sim::pick_range(8, (uint32_t)bs * 3 / 2)); if (z & 2) k.info = sim::bytes(sim::pick_range(4, (uint32_t)bs * 3 / 2));
	return k;
}
struct SymOwn { std::unique_ptr<Cipher::SymmetricKey> k; Cipher::SymmetricKey &operator*() { return *k; } };
SymOwn ksym(const Key &k) { SymOwn r; if (k.info.size()) r.k.reset(new Cipher::SymmetricKey(k.key, k.nonce, k.info)); else if (k.nonce.size()) r.k.reset(new Cipher::SymmetricKey(k.key, k.nonce)); else r.k.reset(new Cipher::SymmetricKey(k.key)); return r; }
struct KRef { // blocks of output, one after the other; every request begins with a new block
	KSpec s; Key k; Bytes prk, t; unsigned ctr = 0; std::unique_ptr<Sponge> sp; Bytes cache;
	KRef(const KSpec &a, const Key &b) : s(a), k(b)
	{
		if (s.k <= K_HKDF512) prk = k.nonce.size() ? ref_hmac(s.big(), k.nonce, k.key) : k.key;
		if (s.k >= K_SH128) {
			sp.reset(new Sponge(s.rate())); bool c = k.nonce.size() || k.info.size(); if (c) sp->custom(k.nonce, k.info);
			sp->absorb(k.key, s.k >= K_SC128 ? 0x24 : c ? 4 : 0x1f); if (s.k >= K_SC128) { keccak_f(sp->s); cache = sp->peek(); }
		}
	}
	void request() { if (s.k >= K_SC128) for (unsigned i = 0; i < s.cpu; ++i) { sp->absorb(cache, 0x24); if (s.mem) app(cache, sp->peek()); } }
	Bytes block()
	{
		++ctr; uint8_t c[4] = {0, 0, (uint8_t)(ctr >> 8), (uint8_t)ctr}; size_t bs = s.big() ? 128 : 64;
		switch (s.k) {
		case K_HKDF256: case K_HKDF512: { Bytes m = t; app(m, k.info); m.push_back((uint8_t)ctr); return t = ref_hmac(s.big(), prk, m); }
		case K_KDF2256: case K_KDF2512: { Bytes m = k.key, salt = k.nonce; if (!k.nonce.size()) { if (m.size() > bs) { salt.assign(m.begin() + bs, m.end()); } m.resize(bs, 0); } app(salt, k.info); m.insert(m.end(), c, c + 4); app(m, salt); return ref_sha2(m.data(), m.size(), s.big()); }
		case K_PB256: case K_PB512: { Bytes m = k.nonce; app(m, k.info); m.insert(m.end(), c, c + 4); Bytes u = ref_hmac(s.big(), k.key, m), o = u; for (unsigned i = 1; i < s.iter; ++i) { u = ref_hmac(s.big(), k.key, u); for (size_t j = 0; j < o.size(); ++j) o[j] ^= u[j]; } return o; }
		default: return sp->block();
		}
	}
	Bytes gen(size_t n) { request(); Bytes o; while (o.size() < n) { Bytes b = block(); b.resize(std::min(b.size(), n - o.size())); app(o, b); } return o; }
};
// one request through one of the four faces of Generate
template <class G> R request(G &g, size_t n, Bytes &out, const char* stray)
{
	switch (sim::pick(4)) {
	case 0: { out.assign(n, 0); return call([&] { g.Generate(out); }); }
	case 1: { SBytes o(n); R r = call([&] { g.Generate(o); }); out = U(o); return r; }
	case 2: { Guarded o(sim::pick(40), n, sim::pick(40)); R r = call([&] { g.Generate(o.v, o.off, n); }); o.check(stray, n); out = o.data(); return r; }
	default: { Guarded o(sim::pick(40), n, sim::pick(40)); SBytes b = S(o.v); R r = call([&] { g.Generate(b, o.off, n); }); o.v = U(b); o.check(stray, n); out = o.data(); return r; }
	}
}
// a request for more than there is room for is refused, and nothing is written
template <class G> void small_output(G &g, size_t n, const char* sig, const char* name)
{
	size_t off = sim::pick(20), room = sim::pick((uint32_t)n); Bytes b = sim::bytes(off + room), c = b; SBytes s = S(b); bool sec = sim::chance(1, 2); R r = call([&] { if (sec) g.Generate(s, off, n); else g.Generate(b, off, n); }); if (sec) b = U(s);
	SIM_CHECK(r.o == Out::crypto, sig, "%s: a request of %zu bytes where there is room for %zu %s", name, n, room, r.ok() ? "succeeded" : r.what.c_str()); SIM_CHECK(b == c, sig, "%s refused an output and wrote to it", name); sim::count("probe.small_output");
}
}
namespace {
// ---- generators
struct Feed { std::deque<std::pair<bool, Bytes>> q; uint64_t calls = 0, failures = 0; bool alive = true; uint32_t fail16 = 0; };
class Script : public Provider::IProvider { // an entropy source that records what it delivers
	Feed &f;
	void go(uint8_t* p, size_t n) { ++f.calls; if (f.fail16 && sim::fault("provider_failure", f.fail16, 16)) { ++f.failures; f.q.push_back({false, Bytes()}); throw Exception::CryptoRandomException(std::string("Script"), std::string("Generate"), std::string("simulated failure"), Enumeration::ErrorCodes::NoAccess); } Bytes b = sim::bytes(n); if (n) memcpy(p, b.data(), n); f.q.push_back({true, b}); }
public:
	Script(Feed &x) : f(x) {} ~Script() override { f.alive = false; }
	const Enumeration::Providers Enumeral() override { return Enumeration::Providers::CSP; } const bool IsAvailable() override { return true; } const std::string Name() override { return "CSP"; }
	void Generate(std::vector<uint8_t> &o) override { go(o.data(), o.size()); } void Generate(SecureVector<uint8_t> &o) override { go(o.data(), o.size()); }
	void Generate(std::vector<uint8_t> &o, size_t a, size_t n) override { go(o.data() + a, n); } void Generate(SecureVector<uint8_t> &o, size_t a, size_t n) override { go(o.data() + a, n); }
	uint16_t NextUInt16() override { uint16_t v; go((uint8_t*)&v, 2); return v; } uint32_t NextUInt32() override { uint32_t v; go((uint8_t*)&v, 4); return v; } uint64_t NextUInt64() override { uint64_t v; go((uint8_t*)&v, 8); return v; } void Reset() override {}
};
struct Starved {}; // the entropy source failed
struct GRef {
	Feed* feed = nullptr; size_t threshold = 0, counter = 0, reseeds = 0;
	virtual ~GRef() {}
	virtual void init(const Key &k) = 0; virtual void expand(Bytes &o, size_t n) = 0; virtual void reseed() = 0; virtual void update(const Bytes &k) = 0;
	Bytes entropy() { if (feed->q.empty()) sim::violation("drbg:no-reseed", "the generator went on without asking its entropy source at the reseed threshold"); auto e = feed->q.front(); feed->q.pop_front(); if (!e.first) throw Starved(); return e.second; }
	Bytes generate(size_t n, bool &starved) { Bytes o; expand(o, n); starved = false; if (feed) { counter += n; if (counter >= threshold) { try { reseed(); counter = 0; } catch (Starved &) { starved = true; } } } return o; }
};
struct HcgRef : GRef {
	bool big; std::string name; Bytes key, code, buf; uint64_t nonce = 0; size_t cached = 0; HcgRef(bool b, const std::string &n) : big(b), name(n) {} size_t rate() { return big ? 128 : 64; }
	Bytes nb() { Bytes b(8); for (int i = 0; i < 8; ++i) b[i] = (uint8_t)(nonce >> (56 - 8 * i)); return b; }
	void fill() { Bytes m = buf; app(m, code); nonce += rate(); app(m, nb()); buf = ref_hmac(big, key, m); cached = buf.size(); }
	void init(const Key &k) override { counter = 0; cached = 0; nonce = 0; code.assign({'C', 'E', 'X', '-'}); code.insert(code.end(), name.begin(), name.end()); uint16_t st = (uint16_t)(rate() / 4 * 8); code.push_back((uint8_t)st); code.push_back((uint8_t)(st >> 8)); app(code, k.info); Bytes iv(8, 0); memcpy(iv.data(), k.nonce.data(), std::min<size_t>(8, k.nonce.size())); for (int i = 0; i < 8; ++i) nonce = nonce << 8 | iv[i]; key = k.key; nonce += code.size(); Bytes m = code; app(m, nb()); buf = ref_hmac(big, key, m); }
	void expand(Bytes &o, size_t n) override { size_t need = n; if (cached < need) { app(o, Bytes(buf.end() - cached, buf.end())); need -= cached; cached = 0; while (need) { fill(); size_t t = std::min(buf.size(), need); o.insert(o.end(), buf.begin(), buf.begin() + t); cached -= t; need -= t; } if (cached) memset(buf.data(), 0, buf.size() - cached); } else { o.insert(o.end(), buf.end() - cached, buf.end() - cached + need); cached -= need; } }
	void reseed() override { Bytes k = entropy(); fill(); app(k, ref_hmac(big, key, buf)); key = k; fill(); }
	void update(const Bytes &x) override { Bytes k = ref_hmac(big, key, x); fill(); app(k, ref_hmac(big, key, buf)); key = k; fill(); }
};
struct CsgRef : GRef {
	Sponge sp; uint8_t dom = 0; Bytes buf; CsgRef(size_t r) : sp(r) {}
	void init(const Key &k) override { counter = 0; buf.clear(); memset(sp.s, 0, sizeof sp.s); bool c = k.nonce.size() || k.info.size(); dom = c ? 4 : 0x1f; if (c) sp.custom(k.nonce, k.info); sp.absorb(k.key, dom); }
	void expand(Bytes &o, size_t n) override { while (n) { if (buf.empty()) buf = sp.block(); size_t t = std::min(n, buf.size()); o.insert(o.end(), buf.begin(), buf.begin() + t); buf.erase(buf.begin(), buf.begin() + t); n -= t; } }
	void reseed() override { Bytes e = entropy(); sp.absorb(e, dom); buf = sp.block(); }
	void update(const Bytes &k) override { if (feed) reseed(); sp.absorb(k, dom); buf = sp.block(); }
};
struct BcgRef : GRef {
	Bytes custom, nonce, rk; unsigned rounds = 0; bool fromInit = true;
	static const uint8_t* sbox() { static uint8_t s[256]; static bool ok = false; if (!ok) { ok = true; uint8_t p = 1, q = 1; do { p = p ^ (p << 1) ^ (p & 0x80 ? 0x1b : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09; auto r = [&](int n) { return (uint8_t)(q << n | q >> (8 - n)); }; s[p] = q ^ r(1) ^ r(2) ^ r(3) ^ r(4) ^ 0x63; } while (p != 1); s[0] = 0x63; } return s; }
	void enc(const uint8_t* in, uint8_t* out)
	{
		const uint8_t* S = sbox(); uint8_t a[32], b[32]; for (int i = 0; i < 32; ++i) a[i] = in[i] ^ rk[i]; static const int sh[4] = {0, 1, 3, 4};
		for (unsigned r = 1; r <= rounds; ++r) {
			for (int c = 0; c < 8; ++c) for (int w = 0; w < 4; ++w) b[4 * c + w] = S[a[4 * ((c + sh[w]) % 8) + w]];
			if (r < rounds) for (int c = 0; c < 8; ++c) { auto X = [](uint8_t v) { return (uint8_t)(v << 1 ^ (v & 0x80 ? 0x1b : 0)); }; uint8_t* p = b + 4 * c, t[4]; for (int w = 0; w < 4; ++w) t[w] = X(p[w]) ^ X(p[(w + 1) % 4]) ^ p[(w + 1) % 4] ^ p[(w + 2) % 4] ^ p[(w + 3) % 4]; memcpy(p, t, 4); }
			for (int i = 0; i < 32; ++i) a[i] = b[i] ^ rk[32 * r + i];
		}
		memcpy(out, a, 32);
	}
	void key(const Bytes &k, const Bytes &info) { rounds = k.size() == 128 ? 38 : (unsigned)k.size() / 4 + 14; const char* v = "BCG version 1.0b"; custom.assign(v, v + 16); app(custom, info); uint16_t kb = (uint16_t)(k.size() * 8); Bytes n{(uint8_t)kb, (uint8_t)(kb >> 8), 'B', 'C', 'G'}; Sponge sp(136); sp.custom(custom, n); sp.absorb(k, 4); rk.clear(); while (rk.size() < 32 * (rounds + 1)) app(rk, sp.block()); }
	void init(const Key &k) override { counter = 0; nonce = k.nonce; key(k.key, k.info); }
	void expand(Bytes &o, size_t n) override { while (n) { uint8_t b[32]; enc(nonce.data(), b); for (int j = 0; j < 16; ++j) if (++nonce[j]) break; size_t t = std::min<size_t>(32, n); o.insert(o.end(), b, b + t); n -= t; } }
	void update(const Bytes &k) override { Bytes n = k; if (feed) { Bytes e = entropy(); Sponge sp(136); sp.custom(e, Bytes()); sp.absorb(k, 4); n.clear(); while (n.size() < k.size()) { Bytes b = sp.block(); app(n, b); } n.resize(k.size()); } Bytes c = custom; key(n, c); counter = 0; }
	void reseed() override { Bytes k; expand(k, 32); update(k); }
};
enum GK { G_HCG256, G_HCG512, G_CSG128, G_CSG256, G_CSG512, G_BCG, G_COUNT };
const char* gk_name(int k) { static const char* n[] = {"HCG-SHA256", "HCG-SHA512", "CSG-SHAKE128", "CSG-SHAKE256", "CSG-SHAKE512", "BCG"}; return n[k]; }
Bytes up_key(int k) { if (k == G_BCG) { static const unsigned z[] = {32, 64, 128}; return sim::bytes(z[sim::pick(3)]); } return sim::bytes(sim::pick_range(32, 200)); }
}
