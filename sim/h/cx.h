// Shared by the scenarios: one adapter over the library's symmetric ciphers, guarded buffers, exception capture.
#pragma once
#include "../rt.h"
#include "../os.h"
#include "CTR.h"
#include "CBC.h"
#include "CFB.h"
#include "ECB.h"
#include "ICM.h"
#include "OFB.h"
#include "GCM.h"
#include "HBA.h"
#include "CSX512.h"
#include "ChaChaP20.h"
#include "RCS.h"
#include "RWS.h"
#include "TSX256.h"
#include "TSX512.h"
#include "TSX1024.h"
#include "SymmetricKey.h"
#include "CryptoException.h"
#include "CryptoAuthenticationFailure.h"
#include "AeadModeFromName.h"
#include "BlockCipherFromName.h"
#include "CipherModeFromName.h"
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
namespace cx {
using namespace CEX;
typedef std::vector<uint8_t> Bytes;
typedef SecureVector<uint8_t> SBytes;

// ---- outcome of a call into the library
enum class Out { ok, crypto, auth, alloc, std_ };
struct R { Out o = Out::ok; std::string what; bool ok() const { return o == Out::ok; } };
template <class F> R call(F f)
{
	try { f(); return R(); }
	catch (Exception::CryptoAuthenticationFailure &e) { sim::NoFaults q; return {Out::auth, std::string(e.Origin()) + ": " + e.Message()}; }
	catch (Exception::CryptoException &e) { sim::NoFaults q; return {Out::crypto, std::string(e.Location()) + "::" + e.Origin() + ": " + e.Message()}; }
	catch (std::bad_alloc &) { return {Out::alloc, "bad_alloc"}; }
	catch (std::exception &e) { sim::NoFaults q; return {Out::std_, e.what()}; }
}
inline bool exc_text(char* sig, size_t ns, char* tx, size_t nt)
{
	try { throw; }
	catch (Exception::CryptoException &e) { std::string l = e.Location(), o = e.Origin(), m = e.Message(); snprintf(sig, ns, "uncaught:%s::%s", l.c_str(), o.c_str()); snprintf(tx, nt, "a legal use of the library was refused by %s::%s: %s", l.c_str(), o.c_str(), m.c_str()); return true; }
	catch (...) { return false; }
}
struct ExcInit { ExcInit() { sim::exception_text = exc_text; } };
static ExcInit exc_init;
inline std::string hex(const void* p, size_t n, size_t lim = 16) { std::string s; char b[4]; const uint8_t* q = (const uint8_t*)p; for (size_t i = 0; i < n && i < lim; ++i) { snprintf(b, 4, "%02x", q[i]); s += b; } if (n > lim) s += ".."; return s; }
inline std::string hex(const Bytes &v, size_t lim = 16) { return hex(v.data(), v.size(), lim); }
inline void log_bytes(const char* nm, const Bytes &v) { uint64_t h = 1469598103934665603ULL; for (uint8_t b : v) h = (h ^ b) * 1099511628211ULL; sim::mix(h); sim::log("%s len %zu %s", nm, v.size(), hex(v).c_str()); }
inline Bytes slice(const Bytes &v, size_t o, size_t n) { return Bytes(v.begin() + o, v.begin() + o + n); }
inline Bytes U(const SBytes &s) { return Bytes(s.begin(), s.end()); }
inline SBytes S(const Bytes &s) { return SBytes(s.begin(), s.end()); }
inline long first_diff(const Bytes &a, const Bytes &b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return (long)i; return a.size() == b.size() ? -1 : (long)n; }

// ---- a buffer whose surroundings must stay as they were
struct Guarded {
	Bytes v; size_t off, len, tail; uint64_t key;
	Guarded(size_t o, size_t n, size_t t) : v(o + n + t), off(o), len(n), tail(t), key(sim::pick(1u << 30)) { sim::fill_from(key, v.data(), v.size()); }
	Bytes data() const { return slice(v, off, len); }
	void check(const char* sig, size_t written) // bytes outside [off, off+written) unchanged
	{
		Bytes o(v.size()); sim::fill_from(key, o.data(), o.size());
		for (size_t i = 0; i < v.size(); ++i) if ((i < off || i >= off + written) && v[i] != o[i]) sim::violation(sig, "byte %zd relative to the output region of %zu bytes was changed", (ssize_t)i - (ssize_t)off, written);
	}
};

// ---- symmetric ciphers behind one face
enum Fam { F_ECB, F_CBC, F_CFB, F_OFB, F_CTR, F_ICM, F_GCM, F_HBA, F_CSX512, F_CHACHA, F_RCS, F_RWS, F_TSX256, F_TSX512, F_TSX1024, F_COUNT };
inline const char* fam_name(int f) { static const char* n[] = {"ECB", "CBC", "CFB", "OFB", "CTR", "ICM", "GCM", "HBA", "CSX512", "ChaChaP20", "RCS", "RWS", "TSX256", "TSX512", "TSX1024"}; return n[f]; }
inline const Enumeration::BlockCiphers* block_ciphers(size_t &n)
{
	using B = Enumeration::BlockCiphers;
	static const B b[] = {B::AES, B::Serpent, B::RHXH256, B::RHXH512, B::RHXS256, B::RHXS512, B::SHXH256, B::SHXH512, B::SHXS256, B::SHXS512}; n = sizeof b / sizeof *b; return b;
}
struct Spec {
	int fam = F_CTR; Enumeration::BlockCiphers bc = Enumeration::BlockCiphers::AES; bool auth = false; Enumeration::StreamAuthenticators ha = Enumeration::StreamAuthenticators::HMACSHA2256; size_t reg = 16;
	bool stream() const { return fam >= F_CSX512; }
	bool aead() const { return fam == F_GCM || fam == F_HBA || auth; }
	bool keystream() const { return fam == F_CTR || fam == F_ICM || fam == F_OFB || aead() || stream(); }
	bool ragged() const { return fam == F_CTR || fam == F_ICM || aead() || stream(); } // any length
	std::string name() const { return std::string(fam_name(fam)) + (stream() ? (auth ? "-auth" : "") : "-" + std::to_string((int)bc)) + (fam == F_CFB ? "/" + std::to_string(reg) : ""); }
};
struct Sym {
	Spec s; std::unique_ptr<Cipher::Block::IBlockCipher> ext; /* a cipher that belongs to the user of the mode */ std::unique_ptr<Cipher::Block::Mode::ICipherMode> m; std::unique_ptr<Cipher::Block::Mode::IAeadMode> a; std::unique_ptr<Cipher::Stream::IStreamCipher> st;
	void init(bool enc, Cipher::SymmetricKey &k) { if (m) m->Initialize(enc, k); else if (a) a->Initialize(enc, k); else st->Initialize(enc, k); }
	void xf(const Bytes &in, size_t io, Bytes &out, size_t oo, size_t n) { if (m) m->Transform(in, io, out, oo, n); else if (a) a->Transform(in, io, out, oo, n); else st->Transform(in, io, out, oo, n); }
	Sym() {} Sym(Sym &&o) = default;
	Sym &operator=(Sym &&o) { s = o.s; m = std::move(o.m); a = std::move(o.a); st = std::move(o.st); ext = std::move(o.ext); return *this; }
	void aad(const Bytes &d, size_t o, size_t n) { if (a && sim::pick(4) == 3) { SBytes q = S(d); a->SetAssociatedData(q, o, n); } else if (a) a->SetAssociatedData(d, o, n); else st->SetAssociatedData(d, o, n); }
	Bytes tag() { if (sim::pick(3) == 2) { SBytes q(sim::pick(2) ? tag_size() : 0); if (a) a->Tag(q); else st->Tag(q); return U(q); } return a ? a->Tag() : st->Tag(); }
	size_t tag_size() { return a ? a->TagSize() : st ? st->TagSize() : 0; }
	ParallelOptions &prof() { return m ? m->ParallelProfile() : a ? a->ParallelProfile() : st->ParallelProfile(); }
	const std::vector<Cipher::SymmetricKeySize> &legal() { return m ? m->LegalKeySizes() : a ? a->LegalKeySizes() : st->LegalKeySizes(); }
	void degree(size_t d) { if (m) m->ParallelMaxDegree(d); else if (a) a->ParallelMaxDegree(d); else st->ParallelMaxDegree(d); }
	bool initialized() { return m ? m->IsInitialized() : a ? a->IsInitialized() : st->IsInitialized(); }
	size_t block() const { switch (s.fam) { case F_CSX512: case F_TSX1024: return 128; case F_CHACHA: case F_RWS: case F_TSX512: return 64; case F_RCS: case F_TSX256: return 32; case F_CFB: return s.reg; default: return 16; } }
};
inline Sym make(const Spec &s)
{
	Sym r; r.s = s; using namespace Cipher::Block::Mode; using namespace Cipher::Stream;
	if (!s.stream() && sim::pick(5) == 4) { // the mode works with a cipher of its user
		r.ext.reset(Helper::BlockCipherFromName::GetInstance(s.bc)); auto* x = r.ext.get(); bool byname = sim::pick(2) && s.fam != F_ECB && (s.fam != F_CFB || s.reg == 16); using namespace Enumeration;
		static const CipherModes cm[] = {CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM};
		AeadModes am = AeadModes::GCM; if (s.fam == F_HBA) am = s.ha == StreamAuthenticators::HMACSHA2256 ? AeadModes::HBAH256 : s.ha == StreamAuthenticators::HMACSHA2512 ? AeadModes::HBAH512 : s.ha == StreamAuthenticators::KMAC256 ? AeadModes::HBAS256 : AeadModes::HBAS512;
		if (byname) { if (s.aead()) r.a.reset(Helper::AeadModeFromName::GetInstance(x, am)); else r.m.reset(Helper::CipherModeFromName::GetInstance(x, cm[s.fam])); return r; }
		switch (s.fam) { case F_ECB: r.m.reset(new ECB(x)); break; case F_CBC: r.m.reset(new CBC(x)); break; case F_CFB: r.m.reset(new CFB(x, s.reg)); break; case F_OFB: r.m.reset(new OFB(x)); break; case F_CTR: r.m.reset(new CTR(x)); break; case F_ICM: r.m.reset(new ICM(x)); break; case F_GCM: r.a.reset(new GCM(x)); break; default: r.a.reset(new HBA(x, s.ha)); break; }
		return r;
	}
	switch (s.fam) {
	case F_ECB: r.m.reset(new ECB(s.bc)); break;
	case F_CBC: r.m.reset(new CBC(s.bc)); break;
	case F_CFB: r.m.reset(new CFB(s.bc, s.reg)); break;
	case F_OFB: r.m.reset(new OFB(s.bc)); break;
	case F_CTR: r.m.reset(new CTR(s.bc)); break;
	case F_ICM: r.m.reset(new ICM(s.bc)); break;
	case F_GCM: r.a.reset(new GCM(s.bc)); break;
	case F_HBA: r.a.reset(new HBA(s.bc, s.ha)); break;
	case F_CSX512: r.st.reset(new CSX512(s.auth)); break;
	case F_CHACHA: r.st.reset(new ChaChaP20(s.auth)); break;
	case F_RCS: r.st.reset(new RCS(s.auth)); break;
	case F_RWS: r.st.reset(new RWS(s.auth)); break;
	case F_TSX256: r.st.reset(new TSX256(s.auth)); break;
	case F_TSX512: r.st.reset(new TSX512(s.auth)); break;
	default: r.st.reset(new TSX1024(s.auth)); break;
	}
	return r;
}
inline Enumeration::BlockCiphers pick_bc() { size_t n; auto* b = block_ciphers(n); return b[sim::pick(3) ? sim::pick(2) : sim::pick((uint32_t)n)]; }
inline Spec pick_spec(std::initializer_list<int> fams, int auth = -1)
{
	Spec s; s.fam = *(fams.begin() + sim::pick((uint32_t)fams.size()));
	if (s.stream()) s.auth = auth < 0 ? sim::chance(1, 2) : auth != 0;
	else {
		s.bc = pick_bc();
		if (s.fam == F_CFB) { static const size_t g[] = {16, 1, 4, 8}; unsigned z = sim::pick(8); s.reg = z < 4 ? g[z] : 1 + sim::pick(16); }
		if (s.fam == F_HBA) { using A = Enumeration::StreamAuthenticators; static const A a[] = {A::HMACSHA2256, A::HMACSHA2512, A::KMAC256, A::KMAC512}; s.ha = a[sim::pick(4)]; }
	}
	return s;
}
struct Key { Bytes key, nonce, info; };
inline Key pick_key(Sym &c)
{
	auto &l = c.legal(); const auto &z = l[sim::pick((uint32_t)l.size())]; Cipher::SymmetricKeySize ks = z; Key k; k.key = sim::bytes(ks.KeySize());
	size_t iv = ks.IVSize();
	if (c.s.fam == F_GCM) iv = sim::pick(3) ? 12 : sim::pick_range(10, 40); else if (!c.s.stream()) iv = 16;
	k.nonce = c.s.fam == F_ECB ? Bytes() : sim::bytes(iv);
	// counters near a carry are part of the input space
	if (c.s.fam != F_ECB && sim::chance(1, 4)) { size_t n = sim::pick_range(1, (uint32_t)k.nonce.size()); if (sim::chance(1, 2)) memset(k.nonce.data(), 0xff, n); else memset(k.nonce.data() + k.nonce.size() - n, 0xff, n); sim::count("probe.counter_near_carry"); }
	if (sim::chance(1, 4) && ks.InfoSize()) k.info = sim::bytes(sim::chance(1, 2) || c.s.fam == F_TSX256 || c.s.fam == F_CHACHA || ks.InfoSize() < 4 ? ks.InfoSize() : sim::pick_range(4, (uint32_t)ks.InfoSize())); // SHAKE customization is four bytes or more, TSX256 and ChaChaP20 take a full one only
	return k;
}
struct SymKey { std::unique_ptr<Cipher::SymmetricKey> k; Cipher::SymmetricKey &operator*() { return *k; } };
inline SymKey sk(const Key &k)
{
	SymKey r; if (k.info.size()) r.k.reset(new Cipher::SymmetricKey(k.key, k.nonce, k.info)); else if (k.nonce.size()) r.k.reset(new Cipher::SymmetricKey(k.key, k.nonce)); else r.k.reset(new Cipher::SymmetricKey(k.key)); return r;
}
// draws a parallel configuration; false when the simulated machine has one core
inline bool par_on(ParallelOptions &p, uint32_t maxmul = 3)
{
	size_t cores = p.ProcessorCount(); if (cores < 2) { p.IsParallel() = false; return false; }
	p.IsParallel() = true; size_t d = 2 * sim::pick_range(1, (uint32_t)std::min<size_t>(cores, 8) / 2); p.SetMaxDegree(d);
	size_t mn = p.ParallelMinimumSize(); p.SetBlockSize(mn * sim::pick_range(1, maxmul)); p.IsParallel() = true; return true;
}
inline void par_off(ParallelOptions &p) { p.IsParallel() = false; }

// ---- independent references
struct Ref { // block-at-a-time model over the raw block cipher
	std::unique_ptr<Cipher::Block::IBlockCipher> e, d;
	Ref(Enumeration::BlockCiphers b, const Key &k)
	{
		e.reset(Helper::BlockCipherFromName::GetInstance(b)); d.reset(Helper::BlockCipherFromName::GetInstance(b)); auto a = sk(k); e->Initialize(true, *a); auto c = sk(k); d->Initialize(false, *c);
	}
	void E(const uint8_t* in, uint8_t* out) { Bytes i(in, in + 16), o(16); e->EncryptBlock(i, o); memcpy(out, o.data(), 16); }
	void D(const uint8_t* in, uint8_t* out) { Bytes i(in, in + 16), o(16); d->DecryptBlock(i, o); memcpy(out, o.data(), 16); }
	// iv is the running state, updated
	void run(int fam, bool enc, size_t reg, Bytes &iv, const uint8_t* in, uint8_t* out, size_t n)
	{
		uint8_t b[16];
		switch (fam) {
		case F_ECB: for (size_t i = 0; i + 16 <= n; i += 16) { if (enc) E(in + i, out + i); else D(in + i, out + i); } break;
		case F_CBC: for (size_t i = 0; i + 16 <= n; i += 16) { if (enc) { for (int j = 0; j < 16; ++j) b[j] = in[i + j] ^ iv[j]; E(b, out + i); memcpy(iv.data(), out + i, 16); } else { D(in + i, b); uint8_t c[16]; memcpy(c, in + i, 16); for (int j = 0; j < 16; ++j) out[i + j] = b[j] ^ iv[j]; memcpy(iv.data(), c, 16); } } break;
		case F_CFB: for (size_t i = 0; i + reg <= n; i += reg) { E(iv.data(), b); Bytes c(reg); for (size_t j = 0; j < reg; ++j) { uint8_t x = in[i + j], y = x ^ b[j]; c[j] = enc ? y : x; out[i + j] = y; } memmove(iv.data(), iv.data() + reg, 16 - reg); memcpy(iv.data() + 16 - reg, c.data(), reg); } break;
		case F_OFB: for (size_t i = 0; i + 16 <= n; i += 16) { E(iv.data(), b); memcpy(iv.data(), b, 16); for (int j = 0; j < 16; ++j) out[i + j] = in[i + j] ^ b[j]; } break;
		case F_CTR: for (size_t i = 0; i < n; i += 16) { E(iv.data(), b); for (int j = 15; j >= 0; --j) if (++iv[j]) break; for (size_t j = 0; j < 16 && i + j < n; ++j) out[i + j] = in[i + j] ^ b[j]; } break;
		case F_ICM: for (size_t i = 0; i < n; i += 16) { E(iv.data(), b); for (int w = 0; w < 2; ++w) { bool carry = true; for (int j = 0; j < 8 && carry; ++j) carry = ++iv[w * 8 + j] == 0; if (!carry) break; } for (size_t j = 0; j < 16 && i + j < n; ++j) out[i + j] = in[i + j] ^ b[j]; } break;
		}
	}
};
struct GcmRef { // SP 800-38D over the raw block cipher
	Ref &r; uint8_t H[16]; GcmRef(Ref &x) : r(x) { uint8_t z[16] = {0}; r.E(z, H); }
	void mul(uint8_t* X) { uint8_t Z[16] = {0}, V[16]; memcpy(V, H, 16); for (int i = 0; i < 128; ++i) { if (X[i / 8] >> (7 - i % 8) & 1) for (int j = 0; j < 16; ++j) Z[j] ^= V[j]; bool lsb = V[15] & 1; for (int j = 15; j; --j) V[j] = V[j] >> 1 | V[j - 1] << 7; V[0] >>= 1; if (lsb) V[0] ^= 0xe1; } memcpy(X, Z, 16); }
	void gh(uint8_t* Y, const uint8_t* d, size_t n) { for (size_t i = 0; i < n; i += 16) { for (size_t j = 0; j < 16 && i + j < n; ++j) Y[j] ^= d[i + j]; mul(Y); } }
	void len(uint8_t* Y, uint64_t a, uint64_t c) { uint8_t b[16]; for (int i = 0; i < 8; ++i) { b[i] = a * 8 >> (56 - 8 * i); b[8 + i] = c * 8 >> (56 - 8 * i); } gh(Y, b, 16); }
	void seal(const Bytes &nonce, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag)
	{
		Bytes j(16, 0); if (nonce.size() == 12) { memcpy(j.data(), nonce.data(), 12); j[15] = 1; } else { gh(j.data(), nonce.data(), nonce.size()); len(j.data(), 0, nonce.size()); }
		uint8_t ej[16]; r.E(j.data(), ej); for (int k = 15; k >= 0; --k) if (++j[k]) break;
		ct.resize(pt.size()); r.run(F_CTR, true, 16, j, pt.data(), ct.data(), pt.size());
		tag.assign(16, 0); gh(tag.data(), aad.data(), aad.size()); gh(tag.data(), ct.data(), ct.size()); len(tag.data(), aad.size(), ct.size()); for (int k = 0; k < 16; ++k) tag[k] ^= ej[k];
	}
};
}
