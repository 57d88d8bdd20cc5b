// Message authentication codes behind one face, and their references.
#pragma once
#include "dg.h"
#include "CMAC.h"
#include "GMAC.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
#include "MacFromName.h"
#include "Poly1305.h"
using namespace cx;
namespace {
enum MK { M_HMAC256, M_HMAC512, M_CMAC, M_GMAC, M_KMAC128, M_KMAC256, M_KMAC512, M_POLY, M_KPA128, M_KPA256, M_KPA512, M_COUNT };
const char* mk_name(int k) { static const char* n[] = {"HMAC-SHA256", "HMAC-SHA512", "CMAC", "GMAC", "KMAC128", "KMAC256", "KMAC512", "Poly1305", "KPA128", "KPA256", "KPA512"}; return n[k]; }
// a code with the digest or cipher its user lent it
struct Mp {
	std::unique_ptr<Cipher::Block::IBlockCipher> bc; std::unique_ptr<Digest::IDigest> dg; std::unique_ptr<Mac::IMac> m;
	Mp() {} explicit Mp(Mac::IMac* x) : m(x) {} Mp(Mp &&o) = default; Mp &operator=(Mp &&o) { m = std::move(o.m); bc = std::move(o.bc); dg = std::move(o.dg); return *this; }
	Mac::IMac* operator->() const { return m.get(); } Mac::IMac &operator*() const { return *m; } Mac::IMac* get() const { return m.get(); } void reset() { m.reset(); bc.reset(); dg.reset(); } explicit operator bool() const { return !!m; }
};
struct MSpec { int k; Enumeration::BlockCiphers bc; bool keccak() const { return (k >= M_KMAC128 && k <= M_KMAC512) || k >= M_KPA128; } size_t rate() const { static const size_t r[] = {168, 136, 72}; return r[k >= M_KPA128 ? k - M_KPA128 : k - M_KMAC128]; } size_t tag() const { static const size_t t[] = {32, 64, 16, 16, 16, 32, 64, 16, 16, 32, 64}; return t[k]; } };
Mp make_mac(const MSpec &s)
{
	using namespace Mac; using namespace Enumeration;
	if (s.k <= M_GMAC && sim::pick(5) == 4) { // works with an object of its user
		Mp r; if (s.k <= M_HMAC512) { r.dg = make_digest(s.k == M_HMAC256 ? D_S2256 : D_S2512, 0); r.m.reset(new HMAC(r.dg.get())); } else { r.bc.reset(Helper::BlockCipherFromName::GetInstance(s.bc)); if (s.k == M_CMAC) r.m.reset(new CMAC(r.bc.get())); else r.m.reset(new GMAC(r.bc.get())); } return r;
	}
	if (sim::pick(5) == 4) {
		Macs n = Macs::None; int h = s.bc == BlockCiphers::AES ? 0 : s.bc == BlockCiphers::RHXH256 ? 1 : s.bc == BlockCiphers::RHXH512 ? 2 : s.bc == BlockCiphers::RHXS256 ? 3 : s.bc == BlockCiphers::RHXS512 ? 4 : -1;
		static const Macs cm[] = {Macs::CMAC, Macs::CMACRHXH256, Macs::CMACRHXH512, Macs::CMACRHXS256, Macs::CMACRHXS512}, gm[] = {Macs::GMAC, Macs::GMACRHXH256, Macs::GMACRHXH512, Macs::GMACRHXS256, Macs::GMACRHXS512}, ot[] = {Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::None, Macs::None, Macs::KMAC128, Macs::KMAC256, Macs::KMAC512, Macs::Poly1305, Macs::KPA128, Macs::KPA256, Macs::KPA512};
		if (s.k == M_CMAC || s.k == M_GMAC) { if (h >= 0) n = (s.k == M_CMAC ? cm : gm)[h]; } else n = ot[s.k]; if (n != Macs::None) return Mp(Helper::MacFromName::GetInstance(n));
	}
	switch (s.k) {
	case M_HMAC256: return Mp(new HMAC(SHA2Digests::SHA2256)); case M_HMAC512: return Mp(new HMAC(SHA2Digests::SHA2512));
	case M_CMAC: return Mp(new CMAC(s.bc)); case M_GMAC: return Mp(new GMAC(s.bc));
	case M_KMAC128: return Mp(new KMAC(KmacModes::KMAC128)); case M_KMAC256: return Mp(new KMAC(KmacModes::KMAC256)); case M_KMAC512: return Mp(new KMAC(KmacModes::KMAC512));
	case M_POLY: return Mp(new Poly1305());
	case M_KPA128: return Mp(new KPA(KpaModes::KPA128)); case M_KPA256: return Mp(new KPA(KpaModes::KPA256)); default: return Mp(new KPA(KpaModes::KPA512));
	}
}
Key mac_key(const MSpec &s)
{
	Key k;
	switch (s.k) {
	case M_HMAC256: case M_HMAC512: k.key = sim::bytes(sim::pick(2) ? (s.k == M_HMAC256 ? 64 : 128) - sim::pick(3) + sim::pick(3) : sim::pick_range(8, 300)); break;
	case M_CMAC: case M_GMAC: { std::unique_ptr<Cipher::Block::IBlockCipher> e(Helper::BlockCipherFromName::GetInstance(s.bc)); auto &l = e->LegalKeySizes(); Cipher::SymmetricKeySize z = l[sim::pick((uint32_t)l.size())]; k.key = sim::bytes(z.KeySize()); if (s.k == M_GMAC) k.nonce = sim::bytes(sim::pick(3) ? 12 : sim::pick_range(12, 50)); break; }
	case M_POLY: k.key = sim::bytes(32); if (sim::chance(1, 3)) { /* a multiplier for which the sum is seen */ memset(k.key.data(), 0, 16); unsigned w = sim::pick(4); if (w < 3) k.key[0] = (uint8_t)(w == 2 ? 4 : w); else k.key[sim::pick(16)] = (uint8_t)(1 << sim::pick(8)); if (sim::chance(1, 2)) memset(k.key.data() + 16, 0, 16); break; } if (sim::chance(1, 3)) memset(k.key.data(), 0xff, 16); if (sim::chance(1, 6)) memset(k.key.data() + 16, 0xff, 16); break;
	case M_KPA128: case M_KPA256: case M_KPA512: k.key = sim::bytes(s.tag()); if (sim::chance(1, 3)) k.nonce = sim::bytes(sim::pick_range(4, 2 * (uint32_t)s.rate())); break;
	default: k.key = sim::bytes(sim::pick(2) ? s.tag() : sim::pick_range(16, 2 * (uint32_t)s.rate())); if (sim::chance(1, 3)) k.nonce = sim::bytes(sim::pick_range(4, 2 * (uint32_t)s.rate())); if (k.nonce.size() && sim::chance(1, 3)) k.info = sim::bytes(sim::pick_range(1, 2 * (uint32_t)s.rate())); break;
	}
	return k;
}
Bytes ref_kmac(size_t rate, const Key &k, const Bytes &msg, size_t outlen)
{
	Bytes b, name = k.info.size() ? k.info : Bytes{'K', 'M', 'A', 'C'}; left_enc(b, rate); left_enc(b, name.size() * 8); app(b, name); left_enc(b, k.nonce.size() * 8); app(b, k.nonce); while (b.size() % rate) b.push_back(0);
	left_enc(b, rate); left_enc(b, k.key.size() * 8); app(b, k.key); while (b.size() % rate) b.push_back(0);
	app(b, msg); right_enc(b, outlen * 8); return ref_sponge(b.data(), b.size(), rate, 4, outlen);
}
Bytes ref_poly(const Bytes &key, const Bytes &msg)
{
	// 26 bytes little endian arithmetic modulo 2^130-5, in 32-bit limbs
	typedef unsigned __int128 u128; uint32_t r[5] = {0}, h[5] = {0}; Bytes k = key; static const uint8_t cl[16] = {255, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15}; for (int i = 0; i < 16; ++i) r[i / 4] |= (uint32_t)(k[i] & cl[i]) << 8 * (i % 4);
	for (size_t o = 0; o < msg.size(); o += 16) {
		uint8_t b[20] = {0}; size_t n = std::min<size_t>(16, msg.size() - o); memcpy(b, msg.data() + o, n); b[n] = 1;
		uint64_t c = 0; for (int i = 0; i < 5; ++i) { uint32_t w; memcpy(&w, b + 4 * i, 4); c += (uint64_t)h[i] + w; h[i] = (uint32_t)c; c >>= 32; }
		uint32_t p[11] = {0}; for (int i = 0; i < 5; ++i) { uint64_t cy = 0; for (int j = 0; j < 5; ++j) { u128 z = (u128)h[i] * r[j] + p[i + j] + cy; p[i + j] = (uint32_t)z; cy = (uint64_t)(z >> 32); } p[i + 5] += (uint32_t)cy; }
		for (int pass = 0; pass < 3; ++pass) { // p = (p mod 2^130) + 5 * (p >> 130)
			uint32_t hi[8] = {0}; for (int i = 0; i < 7; ++i) { if (4 + i < 11) hi[i] = p[4 + i] >> 2 | (5 + i < 11 ? p[5 + i] << 30 : 0); } uint32_t lo[11] = {p[0], p[1], p[2], p[3], p[4] & 3}; uint64_t c2 = 0; for (int i = 0; i < 11; ++i) { c2 += (uint64_t)lo[i] + (i < 8 ? (uint64_t)hi[i] * 5 : 0); p[i] = (uint32_t)c2; c2 >>= 32; } }
		memcpy(h, p, sizeof h);
	}
	// final reduction
	uint32_t g[5]; uint64_t c = 5; for (int i = 0; i < 5; ++i) { c += h[i]; g[i] = (uint32_t)c; c >>= 32; } if (g[4] >> 2) { g[4] &= 3; memcpy(h, g, sizeof h); }
	Bytes out(16); c = 0; for (int i = 0; i < 4; ++i) { uint32_t w; memcpy(&w, key.data() + 16 + 4 * i, 4); c += (uint64_t)h[i] + w; uint32_t v = (uint32_t)c; memcpy(out.data() + 4 * i, &v, 4); c >>= 32; } return out;
}
Bytes ref_cmac(Ref &r, const Bytes &msg)
{
	uint8_t L[16] = {0}; r.E(L, L); auto dbl = [](uint8_t* x) { bool c = x[0] >> 7; for (int i = 0; i < 15; ++i) x[i] = x[i] << 1 | x[i + 1] >> 7; x[15] <<= 1; if (c) x[15] ^= 0x87; }; dbl(L); bool full = msg.size() && msg.size() % 16 == 0; if (!full) dbl(L);
	Bytes m = msg; if (!full) { m.push_back(0x80); while (m.size() % 16) m.push_back(0); } for (int i = 0; i < 16; ++i) m[m.size() - 16 + i] ^= L[i]; uint8_t x[16] = {0}; for (size_t o = 0; o < m.size(); o += 16) { for (int i = 0; i < 16; ++i) x[i] ^= m[o + i]; r.E(x, x); } return Bytes(x, x + 16);
}
Bytes ref_mac(const MSpec &s, const Key &k, const Bytes &msg, size_t outlen)
{
	switch (s.k) {
	case M_HMAC256: case M_HMAC512: return ref_hmac(s.k == M_HMAC512, k.key, msg);
	case M_CMAC: { Ref r(s.bc, k); return ref_cmac(r, msg); }
	case M_GMAC: { Key b; b.key = k.key; Ref r(s.bc, b); GcmRef g(r); Bytes ct, tag; g.seal(k.nonce, msg, Bytes(), ct, tag); return tag; }
	case M_KMAC128: case M_KMAC256: case M_KMAC512: return ref_kmac(s.rate(), k, msg, outlen);
	case M_POLY: return ref_poly(k.key, msg);
	default: return Bytes();
	}
}
}
