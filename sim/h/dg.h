// Digests behind one face, and small independent references for the sequential functions.
#pragma once
#include "cx.h"
#include "Blake256.h"
#include "Blake512.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
namespace cx {
enum DK { D_B256, D_B512, D_S2256, D_S2512, D_S3256, D_S3512, D_SK256, D_SK512, D_SK1024, D_COUNT };
inline const char* dk_name(int k) { static const char* n[] = {"Blake256", "Blake512", "SHA2256", "SHA2512", "SHA3256", "SHA3512", "Skein256", "Skein512", "Skein1024"}; return n[k]; }
typedef std::unique_ptr<Digest::IDigest> Dg;
// tree: 0 sequential, 1 the default tree; otherwise the degree set through ParallelMaxDegree
inline Dg make_digest(int k, unsigned tree)
{
	using namespace Digest; Dg d; bool p = tree != 0;
	switch (k) {
	case D_B256: d.reset(new Blake256(p)); break;
	case D_B512: d.reset(new Blake512(p)); break;
	case D_S2256: d.reset(new SHA2256(p)); break;
	case D_S2512: d.reset(new SHA2512(p)); break;
	case D_S3256: d.reset(new SHA3256(p)); break;
	case D_S3512: d.reset(new SHA3512(p)); break;
	case D_SK256: d.reset(new Skein256(p)); break;
	case D_SK512: d.reset(new Skein512(p)); break;
	default: d.reset(new Skein1024(p)); break;
	}
	if (tree > 1) d->ParallelMaxDegree(tree);
	return d;
}
// appends what a padding could look like: zeros, or a marker and zeros, to a block boundary, a row of blocks, or anywhere
inline void pad_like(Bytes &m, size_t blk, size_t width) { static const uint8_t mark[] = {0, 0x80, 0x06, 0x1f, 0x04, 0x01}; if (sim::pick(3)) m.push_back(mark[sim::pick(6)]); size_t unit = sim::pick(2) ? blk : blk * width, r = (unit - m.size() % unit) % unit, n = sim::pick(3) ? r : sim::pick((uint32_t)unit); if (n && sim::pick(2)) { m.insert(m.end(), n, 0); if (n && sim::pick(3) == 0) m.back() = 0x80; } else m.insert(m.end(), 1 + sim::pick(8), 0); }
// ---- references
inline Bytes ref_sha2(const uint8_t* m, size_t n, bool big)
{
	// constants from the fractional parts of roots of the first primes, computed once in integers
	static uint64_t K[80], H0[8]; static bool init = false;
	if (!init) {
		sim::Host h; init = true; int pr[80], c = 0; for (int x = 2; c < 80; ++x) { bool p = true; for (int i = 0; i < c; ++i) if (x % pr[i] == 0) { p = false; break; } if (p) pr[c++] = x; }
		typedef unsigned __int128 u128;
		auto root = [](int p, bool cube) { // floor(frac(root(p)) * 2^64)
			uint64_t ip = 0; while (cube ? (ip + 1) * (ip + 1) * (ip + 1) <= (uint64_t)p : (ip + 1) * (ip + 1) <= (uint64_t)p) ++ip;
			// binary search on 64 fractional bits with multi-word integers
			uint64_t f = 0;
			for (int b = 63; b >= 0; --b) {
				uint64_t t = f | 1ULL << b; // candidate r = ip + t/2^64
				// words little endian, 32 bits: r has 3 words
				uint32_t r[3] = {(uint32_t)t, (uint32_t)(t >> 32), (uint32_t)ip}; std::vector<uint32_t> acc(r, r + 3);
				for (int e = 1; e < (cube ? 3 : 2); ++e) { std::vector<uint32_t> o(acc.size() + 3, 0); for (size_t i = 0; i < acc.size(); ++i) { uint64_t cy = 0; for (int j = 0; j < 3; ++j) { u128 z = (u128)acc[i] * r[j] + o[i + j] + cy; o[i + j] = (uint32_t)z; cy = (uint64_t)(z >> 32); } o[i + 3] += (uint32_t)cy; } acc = o; }
				// compare with p << (64*e)
				size_t hi = cube ? 6 : 4; uint64_t top = acc.size() > hi ? acc[hi] : 0; if (acc.size() > hi + 1) top |= (uint64_t)acc[hi + 1] << 32;
				if (top < (uint64_t)p) f = t;
			}
			return f;
		};
		for (int i = 0; i < 80; ++i) K[i] = root(pr[i], true); for (int i = 0; i < 8; ++i) H0[i] = root(pr[i], false);
	}
	size_t bs = big ? 128 : 64; std::vector<uint8_t> x(m, m + n); x.push_back(0x80); while (x.size() % bs != bs - (big ? 16 : 8)) x.push_back(0); if (big) x.insert(x.end(), 8, 0); for (int i = 7; i >= 0; --i) x.push_back((uint8_t)((uint64_t)n * 8 >> 8 * i));
	Bytes out;
	if (big) {
		uint64_t h[8]; memcpy(h, H0, sizeof h); auto R = [](uint64_t v, int r) { return v >> r | v << (64 - r); };
		for (size_t o = 0; o < x.size(); o += 128) { uint64_t w[80]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 8; ++j) w[i] = w[i] << 8 | x[o + i * 8 + j]; } for (int i = 16; i < 80; ++i) w[i] = w[i - 16] + w[i - 7] + (R(w[i - 15], 1) ^ R(w[i - 15], 8) ^ w[i - 15] >> 7) + (R(w[i - 2], 19) ^ R(w[i - 2], 61) ^ w[i - 2] >> 6);
			uint64_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7]; for (int i = 0; i < 80; ++i) { uint64_t t = k + (R(e, 14) ^ R(e, 18) ^ R(e, 41)) + ((e & f) ^ (~e & g)) + K[i] + w[i], u = (R(a, 28) ^ R(a, 34) ^ R(a, 39)) + ((a & b) ^ (a & c) ^ (b & c)); k = g; g = f; f = e; e = d + t; d = c; c = b; b = a; a = t + u; }
			h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += k; }
		for (uint64_t v : h) for (int i = 7; i >= 0; --i) out.push_back((uint8_t)(v >> 8 * i));
	} else {
		uint32_t h[8]; for (int i = 0; i < 8; ++i) h[i] = (uint32_t)(H0[i] >> 32); auto R = [](uint32_t v, int r) { return v >> r | v << (32 - r); };
		for (size_t o = 0; o < x.size(); o += 64) { uint32_t w[64]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 4; ++j) w[i] = w[i] << 8 | x[o + i * 4 + j]; } for (int i = 16; i < 64; ++i) w[i] = w[i - 16] + w[i - 7] + (R(w[i - 15], 7) ^ R(w[i - 15], 18) ^ w[i - 15] >> 3) + (R(w[i - 2], 17) ^ R(w[i - 2], 19) ^ w[i - 2] >> 10);
			uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7]; for (int i = 0; i < 64; ++i) { uint32_t t = k + (R(e, 6) ^ R(e, 11) ^ R(e, 25)) + ((e & f) ^ (~e & g)) + (uint32_t)(K[i] >> 32) + w[i], u = (R(a, 2) ^ R(a, 13) ^ R(a, 22)) + ((a & b) ^ (a & c) ^ (b & c)); k = g; g = f; f = e; e = d + t; d = c; c = b; b = a; a = t + u; }
			h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += k; }
		for (uint32_t v : h) for (int i = 3; i >= 0; --i) out.push_back((uint8_t)(v >> 8 * i));
	}
	return out;
}
inline void keccak_f(uint64_t* a)
{
	uint8_t lf = 1; auto R = [](uint64_t v, int r) { return r ? v << r | v >> (64 - r) : v; };
	for (int rd = 0; rd < 24; ++rd) {
		uint64_t c[5], b[25]; for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; for (int x = 0; x < 5; ++x) { uint64_t d = c[(x + 4) % 5] ^ R(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) a[x + y] ^= d; }
		int x = 1, y = 0, r = 0; b[0] = a[0]; for (int t = 0; t < 24; ++t) { r = (r + t + 1) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; b[nx + 5 * ny] = R(a[x + 5 * y], r); x = nx; y = ny; }
		for (int yy = 0; yy < 25; yy += 5) for (int xx = 0; xx < 5; ++xx) a[yy + xx] = b[yy + xx] ^ (~b[yy + (xx + 1) % 5] & b[yy + (xx + 2) % 5]);
		for (int j = 0; j < 7; ++j) { bool bit = lf & 1; lf = (lf << 1) ^ (lf >> 7 ? 0x71 : 0); if (bit) a[0] ^= 1ULL << ((1 << j) - 1); }
	}
}
inline Bytes ref_sponge(const uint8_t* m, size_t n, size_t rate, uint8_t dom, size_t outlen)
{
	uint64_t s[25] = {0}; std::vector<uint8_t> x(m, m + n); x.push_back(dom); while (x.size() % rate) x.push_back(0); x.back() |= 0x80;
	for (size_t o = 0; o < x.size(); o += rate) { for (size_t i = 0; i < rate; ++i) s[i / 8] ^= (uint64_t)x[o + i] << 8 * (i % 8); keccak_f(s); }
	Bytes out; while (out.size() < outlen) { for (size_t i = 0; i < rate && out.size() < outlen; ++i) out.push_back((uint8_t)(s[i / 8] >> 8 * (i % 8))); if (out.size() < outlen) keccak_f(s); } return out;
}
// fan > 1: a node of the BLAKE2bp/sp tree
inline Bytes ref_blake2(const uint8_t* m, size_t n, bool big, unsigned fan = 1, unsigned off = 0, unsigned depth = 0, bool lastnode = false)
{
	static const uint8_t SG[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
	static const uint64_t IV[8] = {0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
	auto go = [&](auto w0, int rounds, int r1, int r2, int r3, int r4, size_t dl) { typedef decltype(w0) W; const int B = sizeof(W) * 8; W h[8], iv[8]; for (int i = 0; i < 8; ++i) h[i] = iv[i] = B == 64 ? (W)IV[i] : (W)(IV[i] >> 32); h[0] ^= (fan > 1 ? 0x02000000 | fan << 16 : 0x01010000) ^ (W)dl; if (fan > 1) { if (B == 64) { h[1] ^= off; h[2] ^= (W)(depth | dl << 8); } else { h[2] ^= off; h[3] ^= (W)(depth << 16 | dl << 24); } }
		auto R = [B](W v, int r) { return (W)(v >> r | v << (B - r)); }; size_t bs = sizeof(W) * 16, o = 0; 
		for (;;) { size_t left = n - o; bool last = left <= bs; size_t t = last ? left : bs; uint8_t blk[128] = {0}; memcpy(blk, m + o, t); o += t; W mm[16]; for (int i = 0; i < 16; ++i) { mm[i] = 0; for (size_t j = 0; j < sizeof(W); ++j) mm[i] |= (W)blk[i * sizeof(W) + j] << 8 * j; }
			W v[16]; for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[i + 8] = iv[i]; } v[12] ^= (W)o; if (last) { v[14] = ~v[14]; if (lastnode) v[15] = ~v[15]; }
			auto G = [&](int a, int b, int c, int d, W x, W y) { v[a] += v[b] + x; v[d] = R(v[d] ^ v[a], r1); v[c] += v[d]; v[b] = R(v[b] ^ v[c], r2); v[a] += v[b] + y; v[d] = R(v[d] ^ v[a], r3); v[c] += v[d]; v[b] = R(v[b] ^ v[c], r4); };
			for (int r = 0; r < rounds; ++r) { const uint8_t* s = SG[r % 10]; G(0, 4, 8, 12, mm[s[0]], mm[s[1]]); G(1, 5, 9, 13, mm[s[2]], mm[s[3]]); G(2, 6, 10, 14, mm[s[4]], mm[s[5]]); G(3, 7, 11, 15, mm[s[6]], mm[s[7]]); G(0, 5, 10, 15, mm[s[8]], mm[s[9]]); G(1, 6, 11, 12, mm[s[10]], mm[s[11]]); G(2, 7, 8, 13, mm[s[12]], mm[s[13]]); G(3, 4, 9, 14, mm[s[14]], mm[s[15]]); }
			for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8]; if (last) break; }
		Bytes out; for (int i = 0; i < 8; ++i) for (size_t j = 0; j < sizeof(W); ++j) out.push_back((uint8_t)(h[i] >> 8 * j)); return out; };
	return big ? go(uint64_t(0), 12, 32, 24, 16, 63, 64) : go(uint32_t(0), 10, 16, 12, 8, 7, 32);
}
inline Bytes ref_blake2_tree(const Bytes &m, bool big, unsigned fan)
{
	size_t bs = big ? 128 : 64; Bytes root;
	for (unsigned i = 0; i < fan; ++i) { Bytes l; for (size_t o = i * bs; o < m.size(); o += bs * fan) l.insert(l.end(), m.begin() + o, m.begin() + std::min(m.size(), o + bs)); Bytes h = ref_blake2(l.data(), l.size(), big, fan, i, 0, i + 1 == fan); root.insert(root.end(), h.begin(), h.end()); }
	return ref_blake2(root.data(), root.size(), big, fan, 0, 1, true);
}
// Skein with output as wide as its state
inline void threefish(int nw, const uint64_t* key, const uint64_t* tw, const uint64_t* in, uint64_t* v)
{
	static const uint8_t R4[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37}, {25, 33}, {46, 12}, {58, 22}, {32, 32}}, R8[8][4] = {{46, 36, 19, 37}, {33, 27, 14, 42}, {17, 49, 36, 39}, {44, 9, 54, 56}, {39, 30, 34, 24}, {13, 50, 10, 17}, {25, 29, 39, 43}, {8, 35, 56, 22}},
		R16[8][8] = {{24, 13, 8, 47, 8, 17, 22, 37}, {38, 19, 10, 55, 49, 18, 23, 52}, {33, 4, 51, 13, 34, 41, 59, 17}, {5, 20, 48, 41, 47, 28, 16, 25}, {41, 9, 37, 31, 12, 47, 44, 30}, {16, 34, 56, 51, 4, 53, 42, 41}, {31, 44, 47, 46, 19, 42, 44, 25}, {9, 48, 35, 52, 23, 31, 37, 20}};
	static const uint8_t P4[] = {0, 3, 2, 1}, P8[] = {2, 1, 4, 7, 6, 5, 0, 3}, P16[] = {0, 9, 2, 13, 6, 11, 4, 15, 10, 7, 12, 3, 14, 5, 8, 1};
	const uint8_t* P = nw == 4 ? P4 : nw == 8 ? P8 : P16; uint64_t k[17], t[3] = {tw[0], tw[1], tw[0] ^ tw[1]}, w[16]; k[nw] = 0x1BD11BDAA9FC1A22ull; for (int i = 0; i < nw; ++i) { k[i] = key[i]; k[nw] ^= key[i]; v[i] = in[i]; }
	int rounds = nw == 16 ? 80 : 72; auto add = [&](int s) { for (int i = 0; i < nw; ++i) v[i] += k[(s + i) % (nw + 1)] + (i == nw - 3 ? t[s % 3] : i == nw - 2 ? t[(s + 1) % 3] : i == nw - 1 ? (uint64_t)s : 0); };
	for (int d = 0; d < rounds; ++d) { if (d % 4 == 0) add(d / 4); const uint8_t* r = nw == 4 ? R4[d % 8] : nw == 8 ? R8[d % 8] : R16[d % 8]; for (int j = 0; j < nw / 2; ++j) { uint64_t a = v[2 * j], b = v[2 * j + 1]; a += b; b = (b << r[j] | b >> (64 - r[j])) ^ a; w[2 * j] = a; w[2 * j + 1] = b; } for (int i = 0; i < nw; ++i) v[i] = w[P[i]]; }
	add(rounds / 4);
}
inline void skein_ubi(int nw, uint64_t* g, const uint8_t* m, size_t n, uint64_t type)
{
	size_t bs = nw * 8, pos = 0; uint64_t first = 1ull << 62;
	do { size_t t = n - pos < bs ? n - pos : bs; uint64_t b[16] = {0}, v[16]; for (size_t i = 0; i < t; ++i) b[i / 8] |= (uint64_t)m[pos + i] << 8 * (i % 8); pos += t; uint64_t tw[2] = {pos, type << 56 | first | (pos == n ? 1ull << 63 : 0)}; first = 0; threefish(nw, g, tw, b, v); for (int i = 0; i < nw; ++i) g[i] = v[i] ^ b[i]; } while (pos < n);
}
inline Bytes ref_skein(const uint8_t* m, size_t n, int nw)
{
	uint64_t g[16] = {0}; uint8_t c[32] = {'S', 'H', 'A', '3', 1}, ctr[8] = {0}; unsigned bits = nw * 64; c[8] = (uint8_t)bits; c[9] = (uint8_t)(bits >> 8); skein_ubi(nw, g, c, 32, 4); skein_ubi(nw, g, m, n, 48); skein_ubi(nw, g, ctr, 8, 63);
	Bytes o(nw * 8); for (size_t i = 0; i < o.size(); ++i) o[i] = (uint8_t)(g[i / 8] >> 8 * (i % 8)); return o;
}
// empty when there is no independent reference
inline Bytes ref_digest(int k, const Bytes &m)
{
	switch (k) {
	case D_B256: return ref_blake2(m.data(), m.size(), false);
	case D_B512: return ref_blake2(m.data(), m.size(), true);
	case D_S2256: return ref_sha2(m.data(), m.size(), false);
	case D_S2512: return ref_sha2(m.data(), m.size(), true);
	case D_S3256: return ref_sponge(m.data(), m.size(), 136, 6, 32);
	case D_S3512: return ref_sponge(m.data(), m.size(), 72, 6, 64);
	case D_SK256: return ref_skein(m.data(), m.size(), 4);
	case D_SK512: return ref_skein(m.data(), m.size(), 8);
	default: return ref_skein(m.data(), m.size(), 16);
	}
}
inline void left_enc(Bytes &b, uint64_t v) { int n = 1; while (n < 8 && v >> 8 * n) ++n; b.push_back((uint8_t)n); for (int i = n; i--;) b.push_back((uint8_t)(v >> 8 * i)); }
inline void right_enc(Bytes &b, uint64_t v) { int n = 1; while (n < 8 && v >> 8 * n) ++n; for (int i = n; i--;) b.push_back((uint8_t)(v >> 8 * i)); b.push_back((uint8_t)n); }
inline void app(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
inline Bytes ref_hmac(bool big, const Bytes &key, const Bytes &msg)
{
	size_t bs = big ? 128 : 64; Bytes k = key; if (k.size() > bs) k = ref_sha2(k.data(), k.size(), big); k.resize(bs, 0); Bytes i(k), o(k); for (auto &c : i) c ^= 0x36; for (auto &c : o) c ^= 0x5c; app(i, msg); Bytes h = ref_sha2(i.data(), i.size(), big); app(o, h); return ref_sha2(o.data(), o.size(), big);
}
}
