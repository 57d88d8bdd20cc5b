// Deterministic computations on objects of the library, as a factory of equal subjects.
#pragma once
#include "kdf.h"
#include "mac.h"
namespace {
struct Subject { // a deterministic computation on an object of the library
	std::string name; virtual ~Subject() {}
	virtual void init() = 0;      // key the object
	virtual void run() = 0;       // the operation; fills out
	virtual void init_other() { init(); } // with a key that init does not use
	Bytes out;                    // sized before the operation starts
	size_t outlen = 0; void prepare() { out.assign(outlen, 0); }
};
typedef std::unique_ptr<Subject> Sp;
struct CipherSubject : Subject {
	Sym c; Key k; SymKey key, key2; bool enc, enc2; void init_other() override { c.init(enc2, *key2); } Bytes in, aad; bool par; size_t degree, pbs; bool forged = false;
	void init() override { c.init(enc, *key); } void run() override { if (aad.size()) c.aad(aad, 0, aad.size()); c.xf(in, 0, out, 0, in.size() - (enc ? 0 : c.tag_size())); }
};
struct DigestSubject : Subject { Dg d; Bytes msg; void init() override { d->Reset(); } void run() override { d->Update(msg, 0, msg.size()); d->Finalize(out, 0); } };
struct MacSubject : Subject { Mp m; SymKey key, key2; void init_other() override { m->Initialize(*key2); } Bytes msg; void init() override { m->Initialize(*key); } void run() override { m->Update(msg, 0, msg.size()); m->Finalize(out, 0); } };
struct KdfSubject : Subject { KObj o; SymOwn key, key2; void init_other() override { o.k->Initialize(*key2); } bool sec; void init() override { o.k->Initialize(*key); } void run() override { if (sec) { SBytes b(out.size()); o.k->Generate(b); memcpy(out.data(), b.data(), b.size()); } else o.k->Generate(out, 0, out.size()); } };
struct DrbgSubject : Subject { std::unique_ptr<Drbg::IDrbg> g; SymKey key, key2; void init_other() override { g->Initialize(*key2); } Bytes up; bool sec; void init() override { g->Initialize(*key); } void run() override { if (up.size()) g->Update(up); if (sec) { SBytes b(out.size()); g->Generate(b); memcpy(out.data(), b.data(), b.size()); } else g->Generate(out, 0, out.size()); } };
// a factory of equal subjects: everything drawn is drawn once
inline std::function<Sp()> draw_subject(std::string &name, bool &threads, Bytes* good, bool &forged, bool reference = true)
{
	threads = false; forged = false;
	switch (sim::pick(8)) {
	default: {
		Spec s = pick_spec({F_CTR, F_ICM, F_CBC, F_CFB, F_ECB, F_OFB, F_GCM, F_HBA, F_CSX512, F_CHACHA, F_RCS, F_RWS, F_TSX256, F_TSX512, F_TSX1024}); Sym t = make(s); Key k = pick_key(t), k2 = pick_key(t); bool enc = sim::chance(1, 2), enc2 = sim::chance(1, 2); bool par = s.fam != F_OFB && par_on(t.prof(), 1); size_t deg = par ? t.prof().ParallelMaxDegree() : 0, pbs = 0; if (par) { pbs = t.prof().ParallelBlockSize(); if (pbs > 40000) pbs = t.prof().ParallelMinimumSize(); }
		size_t blk = t.block(), n = par && sim::pick(4) ? pbs + sim::pick((uint32_t)blk * 20) : 1 + sim::pick((uint32_t)blk * 12); if (!s.ragged()) { n -= n % blk; if (!n) n = blk; } Bytes in = sim::bytes(n), aad; if (s.aead() && sim::chance(1, 2)) aad = sim::bytes(1 + sim::pick(60)); threads = par && n >= pbs;
		if (s.aead() && !enc) { Sym x = make(s); par_off(x.prof()); auto a = sk(k); x.init(true, *a); if (aad.size()) x.aad(aad, 0, aad.size()); Bytes c(n + x.tag_size()); x.xf(in, 0, c, 0, n); *good = in; in = c; if (sim::chance(1, 3)) { forged = true; in[sim::pick((uint32_t)in.size())] ^= 1 << sim::pick(8); } }
		else { Sym x = make(s); if (s.fam != F_OFB) par_off(x.prof()); { auto a = sk(k); x.init(enc, *a); } good->assign(n + (enc ? x.tag_size() : 0), 0); if (reference) { if (aad.size()) x.aad(aad, 0, aad.size()); x.xf(in, 0, *good, 0, n); } }
		name = s.name(); size_t ol = good->size();
		return [=] { auto r = std::make_unique<CipherSubject>(); r->c = make(s); if (par) { auto &p = r->c.prof(); p.SetMaxDegree(deg); p.IsParallel() = true; p.SetBlockSize(pbs); p.IsParallel() = true; } else if (s.fam != F_OFB) par_off(r->c.prof()); r->k = k; r->key = sk(k); r->key2 = sk(k2); r->enc = enc; r->enc2 = enc2; r->in = in; r->aad = aad; r->outlen = ol; return Sp(std::move(r)); };
	}
	case 4: {
		int k = (int)sim::pick(D_COUNT); unsigned tree = sim::machine().cores > 1 && sim::pick(2) ? 1 : 0; Bytes m = sim::bytes(tree ? sim::pick(9000) : sim::pick(600)); name = std::string(dk_name(k)) + (tree ? "-tree" : ""); threads = tree; 
		{ Dg d = make_digest(k, tree); good->assign(d->DigestSize(), 0); if (reference) { d->Update(m, 0, m.size()); d->Finalize(*good, 0); } } size_t ol = good->size();
		return [=] { auto r = std::make_unique<DigestSubject>(); r->d = make_digest(k, tree); r->msg = m; r->outlen = ol; return Sp(std::move(r)); };
	}
	case 5: {
		MSpec s; s.k = (int)sim::pick(M_COUNT); s.bc = pick_bc(); Key k = mac_key(s), k2 = mac_key(s); Bytes m = sim::bytes(1 + sim::pick(400)); name = mk_name(s.k); if (reference) { Mp x = make_mac(s); auto a = sk(k); x->Initialize(*a); good->assign(s.tag(), 0); x->Update(m, 0, m.size()); x->Finalize(*good, 0); } size_t ol = s.tag();
		return [=] { auto r = std::make_unique<MacSubject>(); r->m = make_mac(s); r->key = sk(k); r->key2 = sk(k2); r->msg = m; r->outlen = ol; return Sp(std::move(r)); };
	}
	case 6: {
		KSpec s; s.k = (int)sim::pick(K_COUNT); s.iter = 2; s.cpu = 3; s.mem = sim::pick(2); s.own = false; Key k = kdf_key(s), k2 = kdf_key(s); size_t n = 1 + sim::pick(300); bool sec = sim::chance(1, 2); name = kk_name(s.k); if (reference) { KRef ref(s, k); *good = ref.gen(n); }
		return [=] { auto r = std::make_unique<KdfSubject>(); r->o = make_kdf(s); r->key = ksym(k); r->key2 = ksym(k2); r->sec = sec; r->outlen = n; return Sp(std::move(r)); };
	}
	case 7: {
		using namespace Enumeration; int k = (int)sim::pick(G_COUNT); Key key, key2; for (Key* q : {&key, &key2}) { if (k == G_BCG) { q->key = up_key(k); q->nonce = sim::bytes(32); } else { q->key = sim::bytes(sim::pick_range(16, 200)); if (sim::chance(1, 3)) q->nonce = sim::bytes(k <= G_HCG512 ? 8 : sim::pick_range(1, 200)); } if (q->nonce.size() && sim::chance(1, 3)) q->info = sim::bytes(sim::pick_range(1, 200)); } Bytes up; if (sim::chance(1, 3)) up = up_key(k); size_t n = 1 + sim::pick(500); bool sec = sim::chance(1, 2); name = gk_name(k);
		static const ShakeModes sm[] = {ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512};
		auto mk = [=] { auto r = std::make_unique<DrbgSubject>(); if (k <= G_HCG512) r->g.reset(new Drbg::HCG(k == G_HCG512 ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256, Providers::None)); else if (k < G_BCG) r->g.reset(new Drbg::CSG(sm[k - G_CSG128], Providers::None)); else r->g.reset(new Drbg::BCG(Providers::None)); r->key = sk(key); r->key2 = sk(key2); r->up = up; r->sec = sec; r->outlen = n; return Sp(std::move(r)); };
		if (reference) { Sp x = mk(); x->init(); x->prepare(); x->run(); *good = x->out; } return mk;
	}
	}
}
}
