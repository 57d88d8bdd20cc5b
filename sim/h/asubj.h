// Deterministic computations on the remaining objects of the library: asymmetric schemes, stream processors, key containers, byte streams, paddings.
#pragma once
#include "subj.h"
#include "asym.h"
#include "AsymmetricSecureKey.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "ESP.h"
#include "MacStream.h"
#include "MemoryStream.h"
#include "PKCS7.h"
#include "SecureStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "SymmetricKey.h"
#include "SymmetricSecureKey.h"
#include "X923.h"
#include "ZeroOne.h"
namespace {
// what holds the objects between uses, and a computation on them
struct Fn : Subject { std::function<void()> key; std::function<Bytes()> f; std::vector<std::shared_ptr<void>> own; void init() override { if (key) key(); } void run() override { out = f(); } };
void apn(Bytes &a, uint64_t v) { for (int i = 0; i < 8; ++i) a.push_back((uint8_t)(v >> (8 * i))); }
template <class T> std::shared_ptr<T> keep(Fn* f, T* t) { std::shared_ptr<T> p(t); f->own.push_back(p); return p; }
// runs a computation that may refuse, and what it said
template <class F> void part_of(Bytes &o, F f) { R r = call(f); if (!r.ok() && sim::alloc_fault_fired()) throw std::bad_alloc(); o.push_back((uint8_t)r.o); }
struct SchemeState { std::unique_ptr<Rng> g; std::unique_ptr<AsymmetricKey> k; };
inline std::function<Sp()> draw_kem(std::string &name, bool mc, int par, const Wire* made)
{
	uint64_t seed = 1 + sim::pick(50); Bytes dom = sim::pick(2) ? sim::bytes(1 + sim::pick(40)) : Bytes(); size_t len = 1 + sim::pick(100); bool dmg = sim::chance(1, 3); uint32_t at = sim::pick(1 << 20); name = std::string(mc ? "McEliece-" : "Kyber-") + std::to_string(par); Wire w; if (made) w = *made;
	return [=] { auto f = std::make_unique<Fn>(); auto g = keep(f.get(), new Rng(seed)); auto c = keep(f.get(), make_kem(mc, par, g.get())); auto d = keep(f.get(), make_kem(mc, par, g.get()));
		f->key = [=] { g->pos = 0; }; f->f = [=] { Bytes o; Wire k = w; if (k.pk.empty()) { k = wire_of(c->Generate()); app(o, k.pk); app(o, k.sk); } std::unique_ptr<AsymmetricKey> pk(unpack(k.pk)), sk(unpack(k.sk)); c->Initialize(pk.get()); d->Initialize(sk.get()); c->DomainKey() = dom; d->DomainKey() = dom; Bytes ct, s1, s2; if (dom.size()) { s1.resize(len); s2.resize(len); }
			c->Encapsulate(ct, s1); if (dmg) ct[at % ct.size()] ^= 4; part_of(o, [&] { o.push_back(d->Decapsulate(ct, s2)); }); app(o, ct); app(o, s1); app(o, s2); return o; }; return Sp(std::move(f)); };
}
inline Asymmetric::Sign::IAsymmetricSigner* make_signer(int par, Prng::IPrng* r) { if (par <= 3) return new Asymmetric::Sign::DLTM::Dilithium((Enumeration::DilithiumParameters)par, r); if (par == 7 || par == 8) return new Asymmetric::Sign::ECDSA::ECDSA((Enumeration::ECDSAParameters)par, r); if (par >= 17 && par <= 20) return new Asymmetric::Sign::SPXP::SphincsPlus((Enumeration::SphincsPlusParameters)par, r); return new Asymmetric::Sign::XMSS::XMSS((Enumeration::XmssParameters)par, r); }
inline std::function<Sp()> draw_sig(std::string &name, int par, const Wire* made, const Bytes* signature)
{
	uint64_t seed = 1 + sim::pick(50); Bytes msg = sim::bytes(1 + sim::pick(100)), given = signature ? *signature : Bytes(); bool dmg = sim::chance(1, 3), onlyv = signature && (par <= 20 || sim::chance(2, 3)); uint32_t at = sim::pick(1 << 20); name = std::string(par <= 3 ? "Dilithium-" : par <= 8 ? "ECDSA-" : par <= 20 ? "SphincsPlus-" : "XMSS-") + std::to_string(par) + (onlyv ? "-verify" : ""); Wire w; if (made) w = *made;
	return [=] { auto f = std::make_unique<Fn>(); auto g = keep(f.get(), new Rng(seed)); auto c = keep(f.get(), make_signer(par, g.get())); auto d = keep(f.get(), make_signer(par, g.get()));
		f->key = [=] { g->pos = 0; }; f->f = [=] { Bytes o; Wire k = w; if (k.pk.empty()) { k = wire_of(c->Generate()); app(o, k.pk); app(o, k.sk); } std::unique_ptr<AsymmetricKey> pk(unpack(k.pk)), sk(unpack(k.sk)); d->Initialize(pk.get()); Bytes s = given, m; if (!onlyv) { c->Initialize(sk.get()); s.clear(); c->Sign(msg, s); app(o, s); } if (dmg) s[at % s.size()] ^= 4;
			part_of(o, [&] { o.push_back(d->Verify(s, m)); }); app(o, m); return o; }; return Sp(std::move(f)); };
}
// one of the quick ones
inline std::function<Sp()> draw_other(std::string &name)
{
	using Cipher::SymmetricKey; using Cipher::SymmetricSecureKey; using Enumeration::SecurityPolicy; using namespace CEX::IO; using namespace CEX::Processing; using namespace Cipher::Block::Padding;
	switch (sim::pick(12)) {
	case 0: case 1: return draw_kem(name, false, 9 + sim::pick(4), nullptr);
	case 2: return draw_sig(name, 1 + sim::pick(3), nullptr, nullptr);
	case 3: return draw_sig(name, 7 + sim::pick(2), nullptr, nullptr);
	case 4: {
		int par = 5 + sim::pick(2); uint64_t seed = 1 + sim::pick(50); Bytes dom = sim::pick(2) ? sim::bytes(1 + sim::pick(40)) : Bytes(); size_t len = dom.empty() ? 32 : 1 + sim::pick(100); name = par == 5 ? "ECDH-K" : "ECDH-S"; using Encrypt::ECDH::ECDH;
		return [=] { auto f = std::make_unique<Fn>(); auto g = keep(f.get(), new Rng(seed)); auto c = keep(f.get(), new ECDH((Enumeration::ECDHParameters)par, g.get())); auto d = keep(f.get(), new ECDH((Enumeration::ECDHParameters)par, g.get())); f->key = [=] { g->pos = 0; };
			f->f = [=] { Bytes o; Wire a = wire_of(c->Generate()), b = wire_of(d->Generate()); app(o, a.pk); app(o, b.sk); std::unique_ptr<AsymmetricKey> ap(unpack(a.pk)), as(unpack(a.sk)), bp(unpack(b.pk)), bs(unpack(b.sk)); Bytes s(len), t(len); c->DomainKey() = dom; d->DomainKey() = dom; o.push_back(c->KeyExchange(bp.get(), as.get(), s)); o.push_back(d->KeyExchange(ap.get(), bs.get(), t)); app(o, s); app(o, t); return o; }; return Sp(std::move(f)); };
	}
	case 5: {
		using CM = Enumeration::CipherModes; using PM = Enumeration::PaddingModes; static const CM cms[] = {CM::CTR, CM::CBC, CM::CFB, CM::ICM, CM::OFB, CM::ECB}; static const int fams[] = {F_CTR, F_CBC, F_CFB, F_ICM, F_OFB, F_ECB}; unsigned mi = sim::pick(6); Spec s; s.fam = fams[mi]; s.bc = pick_bc(); s.reg = 16; PM pm = mi == 0 || mi == 3 ? PM::None : (PM)sim::pick_range(1, 4); Sym q = make(s); Key k = pick_key(q); Bytes in = sim::bytes(1 + sim::pick(300)); name = "CipherStream-" + s.name(); bool arr = sim::pick(2);
		return [=] { auto f = std::make_unique<Fn>(); auto c = keep(f.get(), new CipherStream(s.bc, cms[mi], pm)); f->f = [=] { Bytes o; par_off(c->ParallelProfile()); auto a = sk(k); c->Initialize(true, *a); Bytes ct; if (arr) { ct.resize(in.size() + 64); c->Write(in, 0, ct, 0); return ct; } MemoryStream x(in), y; c->Write(&x, &y); ct = y.ToArray(); app(o, ct); c->Initialize(false, *a); MemoryStream z(ct), v; c->Write(&z, &v); app(o, v.ToArray()); return o; }; return Sp(std::move(f)); };
	}
	case 6: {
		Bytes in = sim::bytes(1 + sim::pick(500)); int dk = (int)sim::pick(D_COUNT); MSpec ms; ms.k = (int)sim::pick(M_COUNT); ms.bc = pick_bc(); Key k = mac_key(ms); bool mac = sim::pick(2); name = mac ? std::string("MacStream-") + mk_name(ms.k) : std::string("DigestStream-") + dk_name(dk);
		return [=] { auto f = std::make_unique<Fn>(); f->f = [=] { MemoryStream x(in); if (mac) { Mp m = make_mac(ms); MacStream st(m.get()); auto a = sk(k); st.Initialize(*a); return st.Compute(&x); } Dg d = make_digest(dk, 0); std::unique_ptr<DigestStream> st(new DigestStream(d.get())); d.release(); return st->Compute(&x); }; return Sp(std::move(f)); };
	}
	case 7: {
		Bytes k = sim::bytes(1 + sim::pick(100)), n = sim::bytes(1 + sim::pick(40)), i = sim::bytes(1 + sim::pick(40)), salt = sim::bytes(4 + sim::pick(40)); bool sec = sim::pick(2); SecurityPolicy po = (SecurityPolicy)sim::pick_range(1, 6); name = sec ? "SymmetricSecureKey" : "SymmetricKey";
		return [=] { auto f = std::make_unique<Fn>(); f->f = [=] { Bytes o; std::unique_ptr<Cipher::ISymmetricKey> p; if (sec) p.reset(new SymmetricSecureKey(k, n, i, po, salt)); else p.reset(new SymmetricKey(k, n, i)); app(o, p->Key()); app(o, p->IV()); app(o, p->Info()); SBytes w = sec ? SymmetricSecureKey::Serialize(*(SymmetricSecureKey*)p.get()) : SymmetricKey::Serialize(*(SymmetricKey*)p.get()); app(o, U(w)); std::unique_ptr<SymmetricKey> q(SymmetricKey::DeSerialize(w)); app(o, q->Key()); app(o, U(q->SecureIV())); return o; }; return Sp(std::move(f)); };
	}
	case 8: {
		Bytes k = sim::bytes(1 + sim::pick(300)), salt = sim::bytes(4 + sim::pick(40)); SecurityPolicy po = (SecurityPolicy)sim::pick_range(1, 6); name = "AsymmetricSecureKey";
		return [=] { auto f = std::make_unique<Fn>(); f->f = [=] { Bytes o; AsymmetricSecureKey p(k, salt, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)9, po); app(o, p.Polynomial()); SBytes w = AsymmetricSecureKey::Serialize(p); app(o, U(w)); std::unique_ptr<AsymmetricKey> q(AsymmetricKey::DeSerialize(w)); app(o, q->Polynomial()); return o; }; return Sp(std::move(f)); };
	}
	case 9: {
		Bytes d = sim::bytes(1 + sim::pick(200)); name = "SecureStream"; uint32_t at = sim::pick((uint32_t)d.size());
		return [=] { auto f = std::make_unique<Fn>(); f->f = [=] { Bytes o; SecureStream s; s.Write(d, 0, d.size()); s.Seek(at, SeekOrigin::Begin); Bytes r(d.size() - at); apn(o, s.Read(r, 0, r.size())); app(o, r); app(o, s.ToArray()); return o; }; return Sp(std::move(f)); };
	}
	case 10: {
		Bytes d = sim::bytes(9 + sim::pick(100)); name = "StreamWriter";
		return [=] { auto f = std::make_unique<Fn>(); f->f = [=] { Bytes o; StreamWriter w(16); w.Write<uint32_t>(0x01020304u + d[0]); w.Write(d, 0, d.size()); w.Write<uint64_t>(d[1] * 77777777777ull); app(o, w.Generate()); MemoryStream m(o); StreamReader r(m); apn(o, r.ReadInt<uint32_t>()); app(o, r.ReadBytes(d.size())); apn(o, r.ReadInt<uint64_t>()); return o; }; return Sp(std::move(f)); };
	}
	default: {
		unsigned k = sim::pick(4), b = 16u << sim::pick(4), n = sim::pick(b); Bytes d = sim::bytes(b); static const char* nm[] = {"ESP", "PKCS7", "X923", "ZeroOne"}; name = nm[k];
		return [=] { auto f = std::make_unique<Fn>(); f->f = [=] { std::unique_ptr<IPadding> p; if (k == 0) p.reset(new ESP); else if (k == 1) p.reset(new PKCS7); else if (k == 2) p.reset(new X923); else p.reset(new ZeroOne); Bytes o = d; p->AddPadding(o, n, o.size()); bool rnd = k == 2; apn(o, p->GetBlockLength(o)); apn(o, p->GetBlockLength(o, 0, o.size())); if (rnd) for (size_t i = n; i + 1 < b; ++i) o[i] = 0; return o; }; return Sp(std::move(f)); };
	}
	}
}
}
