// Asymmetric schemes behind one face, their keys as the bytes that travel, and a generator with a known stream.
#pragma once
#include "cx.h"
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "CryptoAsymmetricException.h"
#include "CryptoRandomException.h"
#include "AsymmetricCipherFromName.h"
#include "AsymmetricSignerFromName.h"
#include "AsymmetricCiphers.h"
#include "AsymmetricSigners.h"
#include "Prngs.h"
#include "os.h"
#include "Dilithium.h"
#include "ECDH.h"
#undef CEX_ECDHPARAMETERS_H // ECDSAParameters.h has the same guard
#include "ECDSA.h"
#include "Kyber.h"
#include "McEliece.h"
#include "SphincsPlus.h"
#include "XMSS.h"
using namespace cx;
namespace {
using namespace CEX::Asymmetric; using Enumeration::AsymmetricPrimitives; using Enumeration::AsymmetricKeyTypes; using Enumeration::AsymmetricParameters;
using CEX::Asymmetric::Encrypt::IAsymmetricCipher; using CEX::Asymmetric::Encrypt::IAsymmetricKeyExchange;
// a byte stream fixed by its seed, however it is read; its device may fail at the n-th request
struct Rng : Prng::IPrng {
	uint64_t seed, pos = 0; long left = -1; unsigned long calls = 0, failed = 0;
	explicit Rng(uint64_t s) : seed(s) { }
	uint8_t byte(uint64_t i) const { uint64_t z = seed * 0xd1342543de82ef95ull + (i / 8 + 1) * 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return (uint8_t)(z >> (8 * (i % 8))); }
	void step() { ++calls; if (left >= 0 && left-- == 0) { ++failed; throw Exception::CryptoRandomException("Rng", "Generate", "The device failed", Enumeration::ErrorCodes::NoAccess); } }
	template <class V> void out(V &o, size_t off, size_t n) { step(); if (off + n > o.size()) sim::violation("rng:bounds", "the generator was asked for %zu bytes at %zu of a buffer of %zu", n, off, o.size()); for (size_t i = 0; i < n; ++i) o[off + i] = byte(pos + i); pos += n; }
	const Enumeration::Prngs Enumeral() override { return Enumeration::Prngs::BCR; }
	const std::string Name() override { return "Rng"; }
	void Generate(Bytes &o, size_t off, size_t n) override { out(o, off, n); }
	void Generate(SBytes &o, size_t off, size_t n) override { out(o, off, n); }
	void Generate(Bytes &o) override { out(o, 0, o.size()); }
	void Generate(SBytes &o) override { out(o, 0, o.size()); }
	uint16_t NextUInt16() override { Bytes b(2); out(b, 0, 2); return (uint16_t)(b[0] | b[1] << 8); }
	uint32_t NextUInt32() override { uint32_t l = NextUInt16(); return l | (uint32_t)NextUInt16() << 16; }
	uint64_t NextUInt64() override { uint64_t l = NextUInt32(); return l | (uint64_t)NextUInt32() << 32; }
	void Reset() override { }
};
struct Wire { Bytes pk, sk; }; // a key pair as it is stored and sent
Bytes pack(AsymmetricKey &k) { return U(AsymmetricKey::Serialize(k)); }
AsymmetricKey* unpack(const Bytes &b) { SBytes s = S(b); return AsymmetricKey::DeSerialize(s); }
Wire wire_of(AsymmetricKeyPair* p) { std::unique_ptr<AsymmetricKeyPair> o(p); Wire w; w.pk = pack(*p->PublicKey()); w.sk = pack(*p->PrivateKey()); return w; }
const size_t HEAD = 3; // bytes in front of the polynomial: class, parameters, primitive
IAsymmetricCipher* make_kem(bool mc, int par, Prng::IPrng* r) { if (mc) return new Encrypt::MPKC::McEliece((Enumeration::McElieceParameters)par, r); return new Encrypt::MLWE::Kyber((Enumeration::KyberParameters)par, r); }
IAsymmetricCipher* own_kem(bool mc, int par, Enumeration::Prngs g) { if (mc) return new Encrypt::MPKC::McEliece((Enumeration::McElieceParameters)par, g); return new Encrypt::MLWE::Kyber((Enumeration::KyberParameters)par, g); }
// the generators an engine makes for itself, seeded by the machine
const Enumeration::Prngs OWN[] = {Enumeration::Prngs::BCR, Enumeration::Prngs::CSR, Enumeration::Prngs::CSRC512, Enumeration::Prngs::HCR, Enumeration::Prngs::HCRS512};
bool entropy_off(bool off) { static uint64_t seen; auto &e = simos::entropy(); uint64_t n = e.csp_failures + e.rd_failures; bool f = n != seen; seen = n; e.csp_gen_fail = e.csp_acquire_fail = off ? 16 : 0; e.rd_dead = off; return f; }
void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
// what can happen to bytes on their way; never leaves them as they were
Bytes hurt(const Bytes &b, size_t from, const char** how)
{
	Bytes r = b; unsigned k = sim::pick(8); size_t n = b.size() - from;
	if (n == 0) k = 5;
	if (k < 3) { size_t p = from + sim::pick((uint32_t)n); r[p] ^= (uint8_t)(1u << sim::pick(8)); *how = "one bit flipped"; }
	else if (k == 3) { size_t p = from + sim::pick((uint32_t)n), l = 1 + sim::pick_size((unsigned)std::min<size_t>(n - (p - from), 64)); if (l > b.size() - p) l = b.size() - p; Bytes x = sim::bytes(l); for (size_t i = 0; i < l; ++i) r[p + i] = x[i]; *how = "a piece overwritten"; }
	else if (k == 4) { r.resize(from + sim::pick((uint32_t)n)); *how = "cut short"; }
	else if (k == 5) { Bytes x = sim::bytes(1 + sim::pick(70)); r.insert(r.end(), x.begin(), x.end()); *how = "bytes appended"; }
	else if (k == 6) { size_t p = sim::pick(2) ? b.size() - 1 : from; r[p] ^= (uint8_t)(1u << sim::pick(8)); *how = "an end byte changed"; }
	else { size_t p = from + sim::pick((uint32_t)n), q = from + sim::pick((uint32_t)n); std::swap(r[p], r[q]); *how = "two bytes swapped"; }
	if (r == b) { r[from + (n ? n - 1 : 0)] ^= 1; *how = "one bit flipped"; }
	return r;
}
}
