// C17: what is left in heap blocks of the library when they are released. The same history runs with two secrets; a block whose content differs held key material and still does.
#include "kdf.h"
#include "mac.h"
#include "rnd.h"
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "AsymmetricSecureKey.h"
#include "ECDH.h"
#include "Kyber.h"
#include "McEliece.h"
#include "MemoryPool.h"
#include "SecureMemory.h"
#include "SecureStream.h"
#include "SymmetricSecureKey.h"
using namespace cx;
namespace {
struct Rel { size_t n; Bytes c; bool old; std::string who; const char* op; };
struct Tape { std::vector<Rel> r; bool on = false, temps = false; uint64_t since = 0; const char* op = ""; std::vector<std::pair<uint64_t, uint64_t>> spans; } tape;
void hook(void* p, size_t n, uint64_t serial) { if (!tape.on || n < 8) return; sim::Host h; Rel r; r.n = n; r.old = serial <= tape.since; r.op = tape.op; if (r.old || tape.temps) { r.c.assign((uint8_t*)p, (uint8_t*)p + n); r.who = sim::callers(0); } tape.r.push_back(std::move(r)); }
template <class F> R watched(const char* op, F f) { tape.since = sim::alloc_serial(); tape.op = op; tape.on = true; R r = call(f); tape.on = false; { sim::Host h; tape.spans.push_back({tape.since, sim::alloc_serial()}); } return r; }
// what the library allocated and still has
std::vector<Rel> kept()
{
	sim::Host h; std::vector<Rel> v; if (tape.spans.size()) sim::each_live(tape.spans[0].first, [](void* p, size_t n, uint64_t serial, void* x) { for (auto &s : tape.spans) if (serial > s.first && serial <= s.second) { Rel r; r.n = n; r.old = true; r.op = ""; r.c.assign((uint8_t*)p, (uint8_t*)p + n); ((std::vector<Rel>*)x)->push_back(std::move(r)); break; } }, &v); return v;
}
struct Holder { // an object of the library that keeps secrets between calls
	virtual ~Holder() {}
	virtual void make() = 0; virtual void init(int which) = 0; virtual void use(size_t n) = 0; virtual void reset() {} virtual void drop() = 0; virtual bool sealed() { return false; } virtual Bytes plain() { return Bytes(); } // plain(): held encrypted, look for this instead
};
typedef std::unique_ptr<Holder> Hp;
struct HCipher : Holder { Spec s; std::unique_ptr<Sym> c; SymKey k[2]; bool enc; Bytes in, out; void make() override { c.reset(new Sym(cx::make(s))); if (s.fam != F_OFB) par_off(c->prof()); } void init(int w) override { c->init(enc, *k[w]); } void use(size_t n) override { size_t b = c->block(); n = s.ragged() ? n : (n / b + 1) * b; if (s.aead()) { if (n & 1) c->aad(in, 0, 1 + n % 40); if (!enc) n = n / 2 + 1; } c->xf(in, 0, out, 0, n); } void drop() override { c.reset(); } };
struct HBlock : Holder { Enumeration::BlockCiphers bc; std::unique_ptr<Cipher::Block::IBlockCipher> c; SymKey k[2]; bool enc; Bytes in, out; void make() override { c.reset(Helper::BlockCipherFromName::GetInstance(bc)); } void init(int w) override { c->Initialize(enc, *k[w]); } void use(size_t n) override { if (n & 1) c->Transform(in, out); else c->Transform2048(in, 0, out, 0); } void drop() override { c.reset(); } };
struct HMac : Holder { MSpec s; Mp m; SymKey k[2]; Bytes in, out; void make() override { m = make_mac(s); } void init(int w) override { m->Initialize(*k[w]); } void use(size_t n) override { m->Update(in, 0, n); if (n & 1) m->Finalize(out, 0); } void reset() override { m->Reset(); } void drop() override { m.reset(); } };
struct HDigest : Holder { int dk; Dg d; Bytes secret[2], out; void make() override { d = make_digest(dk, 0); } void init(int w) override { d->Update(secret[w], 0, secret[w].size()); } void use(size_t) override { d->Finalize(out, 0); } void reset() override { d->Reset(); } void drop() override { d.reset(); } };
struct HKdf : Holder { KSpec s; KObj o; SymOwn k[2]; Bytes out; void make() override { o = make_kdf(s); } void init(int w) override { o.k->Initialize(*k[w]); } void use(size_t n) override { o.k->Generate(out, 0, n); } void reset() override { o.k->Reset(); } void drop() override { o.k.reset(); o.dg.reset(); } };
struct HDrbg : Holder { int k; std::unique_ptr<Drbg::IDrbg> g; SymKey key[2]; Bytes up, out; void make() override { using namespace Enumeration; static const ShakeModes sm[] = {ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512}; if (k <= G_HCG512) g.reset(new Drbg::HCG(k == G_HCG512 ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256, Providers::None)); else if (k < G_BCG) g.reset(new Drbg::CSG(sm[k - G_CSG128], Providers::None)); else g.reset(new Drbg::BCG(Providers::None)); } void init(int w) override { g->Initialize(*key[w]); } void use(size_t n) override { g->Generate(out, 0, n); } void reset() override { g->Update(up); } void drop() override { g.reset(); } };
struct HRandom : Holder { int k; Providers pv; Prngs pr; uint32_t st; Source s; Bytes out; SBytes sec; void make() override { simos::entropy().stream = st; s = make_source(k, pv, pr); } void init(int) override { if (s.can_reset()) s.reset(); } void use(size_t n) override { if (n & 1 || s.y) s.gen(sec, 0, n, false); else s.gen(out, 0, n, false); } void reset() override { init(0); } void drop() override { s = Source(); } };
struct HKey : Holder { // a container; init copies in the secret
	int kind; Bytes k[2], n, nine = Bytes(9, 1); std::unique_ptr<Cipher::ISymmetricKey> p; std::unique_ptr<Asymmetric::AsymmetricKey> a; std::unique_ptr<Asymmetric::AsymmetricSecureKey> b; std::unique_ptr<IO::SecureStream> st; SBytes salt; int po = 1, cur = 0;
	void make() override {}
	void init(int w) override
	{
		cur = w; SBytes s; { sim::NoFaults q; bool on = tape.on; tape.on = false; s = S(k[w]); tape.on = on; } // the scenario's own copy
		switch (kind) {
		case 0: p.reset(); p.reset(new Cipher::SymmetricKey(k[w], n)); break;
		case 1: p.reset(); p.reset(new Cipher::SymmetricSecureKey(k[w], n)); break;
		case 2: a.reset(); a.reset(new Asymmetric::AsymmetricKey(k[w], Enumeration::AsymmetricPrimitives::Kyber, Enumeration::AsymmetricKeyTypes::CipherPrivateKey, (Enumeration::AsymmetricParameters)1)); break;
		case 3: b.reset(); b.reset(new Asymmetric::AsymmetricSecureKey(s, salt, Enumeration::AsymmetricPrimitives::Kyber, Enumeration::AsymmetricKeyTypes::CipherPrivateKey, (Enumeration::AsymmetricParameters)1, (Enumeration::SecurityPolicy)po)); break;
		default: st.reset(); st.reset(new IO::SecureStream(k[w])); break;
		}
		tape.on = false; s.clear(); tape.on = true;
	}
	void use(size_t z) override
	{
		using namespace Cipher; using namespace Asymmetric;
		if (st) { Bytes &x = nine; st->Seek(0, IO::SeekOrigin::Begin); switch (z % 4) { case 0: st->Read(x, 0, 3); break; case 1: st->Write(x, 0, 1); break; case 2: st->WriteByte(1); break; default: st->SetLength(k[cur].size()); } return; }
		SBytes s;
		switch (z % 3) {
		case 0: if (p) s = p->SecureKey(); if (a) s = a->SecurePolynomial(); if (b) { s.resize(k[cur].size()); b->SecurePolynomial(s); } break;
		case 1: if (p) { std::unique_ptr<ISymmetricKey> c(kind ? (ISymmetricKey*)((SymmetricSecureKey*)p.get())->Clone() : (ISymmetricKey*)((SymmetricKey*)p.get())->Clone()); p = std::move(c); } break;
		default: if (p) s = kind ? SymmetricSecureKey::Serialize(*(SymmetricSecureKey*)p.get()) : SymmetricKey::Serialize(*(SymmetricKey*)p.get()); if (a) s = AsymmetricKey::Serialize(*a); if (b) s = AsymmetricSecureKey::Serialize(*b); if (p) std::unique_ptr<ISymmetricKey> c(SymmetricKey::DeSerialize(s)); if (a || b) std::unique_ptr<AsymmetricKey> c(AsymmetricKey::DeSerialize(s)); break;
		}
	}
	void reset() override { if (p) { if (kind) ((Cipher::SymmetricSecureKey*)p.get())->Reset(); else ((Cipher::SymmetricKey*)p.get())->Reset(); } if (a) a->Reset(); if (b) b->Reset(); if (st) st->Reset(); }
	void drop() override { p.reset(); a.reset(); b.reset(); st.reset(); }
	bool sealed() override { return kind & 1 || kind == 4; } // between calls the secret is in memory encrypted only
	Bytes plain() override { return k[0]; }
};
struct HEngine : Holder { // a key exchange and its domain key
	int kind; Bytes k[2]; std::unique_ptr<Asymmetric::Encrypt::ECDH::ECDH> e; std::unique_ptr<Asymmetric::Encrypt::MLWE::Kyber> y; std::unique_ptr<Asymmetric::Encrypt::MPKC::McEliece> m;
	void make() override { using namespace Asymmetric::Encrypt; using namespace Enumeration; switch (kind) { case 0: e.reset(new ECDH::ECDH(ECDHParameters::ECDHS2P25519S, Prngs::BCR)); break; case 1: y.reset(new MLWE::Kyber(KyberParameters::KYBERS3P2400, Prngs::BCR)); break; default: m.reset(new MPKC::McEliece(McElieceParameters::MPKCS3N4608T96, Prngs::BCR)); } }
	void init(int w) override { (e ? e->DomainKey() : y ? y->DomainKey() : m->DomainKey()) = k[w]; } void use(size_t) override {} void drop() override { e.reset(); y.reset(); m.reset(); }
};
std::function<Hp(int)> draw_holder(std::string &name)
{
	auto two = [](const Key &k) { Key z = k; z.key = sim::bytes(k.key.size()); return z; };
	Bytes in = sim::bytes(4096);
	switch (sim::pick(10)) {
	case 8: { int k = (int)sim::pick(3); size_t n = sim::pick_range(8, 100); Bytes a = sim::bytes(n), b = sim::bytes(n), c = sim::bytes(n); static const char* nm[] = {"ECDH", "Kyber", "McEliece"}; name = nm[k]; return [=](int p) { auto h = std::make_unique<HEngine>(); h->kind = k; h->k[0] = p ? b : a; h->k[1] = c; return Hp(std::move(h)); }; }
	default: { Spec s = pick_spec({F_CTR, F_ICM, F_CBC, F_CFB, F_ECB, F_OFB, F_GCM, F_HBA, F_CSX512, F_CHACHA, F_RCS, F_RWS, F_TSX256, F_TSX512, F_TSX1024}); Key k[3]; { Sym t = make(s); k[0] = pick_key(t); } k[1] = two(k[0]); k[2] = two(k[0]); bool enc = sim::pick(3); name = s.name(); return [=](int p) { auto h = std::make_unique<HCipher>(); h->s = s; h->k[0] = sk(p ? k[1] : k[0]); h->k[1] = sk(k[2]); h->enc = enc; h->in = in; h->out.assign(8192, 0); return Hp(std::move(h)); }; }
	case 1: { auto bc = pick_bc(); Key k[3]; { std::unique_ptr<Cipher::Block::IBlockCipher> e(Helper::BlockCipherFromName::GetInstance(bc)); auto &l = e->LegalKeySizes(); Cipher::SymmetricKeySize z = l[sim::pick((uint32_t)l.size())]; k[0].key = sim::bytes(z.KeySize()); } k[1] = two(k[0]); k[2] = two(k[0]); bool enc = sim::pick(2); name = "block-" + std::to_string((int)bc); return [=](int p) { auto h = std::make_unique<HBlock>(); h->bc = bc; h->k[0] = sk(p ? k[1] : k[0]); h->k[1] = sk(k[2]); h->enc = enc; h->in = in; h->out.assign(8192, 0); return Hp(std::move(h)); }; }
	case 2: { MSpec s; s.k = (int)sim::pick(M_COUNT); s.bc = pick_bc(); Key k[3]; k[0] = mac_key(s); k[1] = two(k[0]); k[2] = two(k[0]); name = mk_name(s.k); return [=](int p) { auto h = std::make_unique<HMac>(); h->s = s; h->k[0] = sk(p ? k[1] : k[0]); h->k[1] = sk(k[2]); h->in = in; h->out.assign(s.tag(), 0); return Hp(std::move(h)); }; }
	case 3: { int dk = (int)sim::pick(D_COUNT); size_t n = sim::pick(2) ? sim::pick_range(1, 40) : sim::pick_range(1, 700); Bytes a = sim::bytes(n), b = sim::bytes(n), c = sim::bytes(n); name = dk_name(dk); return [=](int p) { auto h = std::make_unique<HDigest>(); h->dk = dk; h->secret[0] = p ? b : a; h->secret[1] = c; h->out.assign(128, 0); return Hp(std::move(h)); }; }
	case 4: { KSpec s; s.k = (int)sim::pick(K_COUNT); s.iter = 2; s.cpu = 2; s.mem = sim::pick(2); s.own = sim::pick(2); Key k[3]; k[0] = kdf_key(s); k[1] = two(k[0]); k[2] = two(k[0]); name = kk_name(s.k); return [=](int p) { auto h = std::make_unique<HKdf>(); h->s = s; h->k[0] = ksym(p ? k[1] : k[0]); h->k[1] = ksym(k[2]); h->out.assign(4096, 0); return Hp(std::move(h)); }; }
	case 5: { int g = (int)sim::pick(G_COUNT); Key k[3]; if (g == G_BCG) { k[0].key = up_key(g); k[0].nonce = sim::bytes(32); } else k[0].key = sim::bytes(sim::pick_range(16, 200)); k[1] = two(k[0]); k[2] = two(k[0]); Bytes up = up_key(g); name = gk_name(g); return [=](int p) { auto h = std::make_unique<HDrbg>(); h->k = g; h->key[0] = sk(p ? k[1] : k[0]); h->key[1] = sk(k[2]); h->up = up; h->out.assign(4096, 0); return Hp(std::move(h)); }; }
	case 6: { static const int ks[] = {E_BCR, E_CSR256, E_CSR512, E_HCR256, E_HCR512, E_SRND, E_CSP, E_SKG}; int k = ks[sim::pick(8)]; Prngs pr = pick_prng(); uint32_t a = 1 + sim::pick(1u << 20), b = a + 1; name = ek_name(k); return [=](int p) { auto h = std::make_unique<HRandom>(); h->k = k; h->pv = Providers::CSP; h->pr = pr; h->st = p ? b : a; h->sec.resize(512); h->out.assign(512, 0); return Hp(std::move(h)); }; }
	case 7: { int k = (int)sim::pick(5); size_t n = sim::pick_range(8, 300); Bytes a = sim::bytes(n), b = sim::bytes(n), c = sim::bytes(n), nn = sim::bytes(sim::pick_range(4, 40)); int po = (int)sim::pick_range(1, 6); static const char* nm[] = {"SymmetricKey", "SymmetricSecureKey", "AsymmetricKey", "AsymmetricSecureKey", "SecureStream"}; name = nm[k]; return [=](int p) { auto h = std::make_unique<HKey>(); h->kind = k; h->k[0] = p ? b : a; h->k[1] = c; h->n = nn; h->salt = S(nn); h->po = po; return Hp(std::move(h)); }; }
	}
}
struct Op { int k; size_t n; int64_t arm; };
}
SCENARIO(released_memory, "C17", "state was released")
{
	simos::reset(); sim::random_machine(); tape = Tape(); sim::on_free = hook; sim::fixed_junk(0xA5);
	std::string name; auto mk = draw_holder(name); for (char c : name) sim::mix(c); bool faults = sim::chance(1, 2); std::vector<Op> ops; unsigned m = sim::pick_range(1, 6);
	for (unsigned i = 0; i < m; ++i) { Op o; unsigned z = sim::pick(8); o.k = i == 0 || z < 2 ? 0 : z < 3 ? 1 : z < 7 ? 2 : 3; o.n = sim::pick_range(1, 300); o.arm = faults && sim::chance(1, 3) ? (int64_t)sim::fpick(25) : -1; ops.push_back(o); }
	Bytes plain; std::vector<Rel> got[2], left[2]; sim::log("%s", name.c_str());
	for (int p = 0; p < 2; ++p) {
		tape.r.clear(); tape.spans.clear(); Hp h = mk(p); if (!p) { plain = h->plain(); tape.temps = plain.size(); } bool live = true; simos::entropy().stream = p; R r = watched("construction", [&] { h->make(); }); if (!r.ok()) sim::discard("construction refused");
		for (auto &o : ops) {
			if (!live && o.k >= 2) continue; // only what is keyed can be used
			static const char* on[] = {"re-keying", "re-keying", "use", "reset"}; if (o.arm >= 0) sim::arm_alloc(o.arm);
			r = watched(on[o.k], [&] { switch (o.k) { case 0: h->init(0); break; case 1: h->init(1); break; case 2: h->use(o.n); break; default: h->reset(); } });
			bool fired = sim::alloc_fault_fired(); sim::arm_alloc(-1); if (!p) sim::log("%s%s: %s", on[o.k], fired ? " with a failing allocation" : "", r.ok() ? "ok" : r.what.c_str()); if (!p) sim::count(("op." + std::string(on[o.k])).c_str());
			if (o.k < 2) live = r.ok(); else if (!r.ok()) live = false;
			if (!p && h->sealed()) for (Rel &x : kept()) for (size_t j = 0; j + 8 <= plain.size(); ++j) { auto f = std::search(x.c.begin(), x.c.end(), &plain[j], &plain[j] + 8); if (f != x.c.end()) sim::violation(("at-rest:" + name).c_str(), "after %s a block of %zu bytes holds the plain secret from byte %zu", on[o.k], x.n, j); }
		}
		std::string().swap(r.what); watched("destruction", [&] { h->drop(); }); got[p] = std::move(tape.r); tape.r.clear(); left[p] = kept();
	}
	sim::on_free = nullptr; if (got[0].size() != got[1].size()) { sim::log("%zu vs %zu", got[0].size(), got[1].size()); sim::discard("sequence"); }
	size_t judged = 0;
	if (plain.size()) for (Rel &x : got[0]) { ++judged; for (size_t j = 0; j + 8 <= plain.size(); ++j) { auto f = std::search(x.c.begin(), x.c.end(), &plain[j], &plain[j] + 8); if (f != x.c.end()) sim::violation(("plaintext:" + name).c_str(), "%s released a block of %zu bytes with the plain secret from byte %zu at offset %zu (%s)", x.op, x.n, j, (size_t)(f - x.c.begin()), x.who.c_str()); } }
	else
	for (size_t i = 0; i < got[0].size(); ++i) {
		Rel &x = got[0][i], &y = got[1][i]; if (x.n != y.n) sim::discard("sequence"); if (!x.old) continue; ++judged; size_t d = 0, at = 0;
		for (size_t j = 0; j + 8 <= x.n; j += 8) { if (!memcmp(&x.c[j], &y.c[j], 8)) continue; uint64_t v, u; memcpy(&v, &x.c[j], 8); memcpy(&u, &y.c[j], 8); if (sim::in_arena(v) && sim::in_arena(u)) continue; if (!d) at = j; ++d; }
		if (d) sim::violation(("secret:" + name).c_str(), "%s released a block of %zu bytes of which %zu, from offset %zu, still depended on the secret (%s): %s", x.op, x.n, d * 8, at, hex(&x.c[at], x.n - at, 24).c_str(), x.who.c_str());
	}
	if (left[1].size()) sim::violation(("leak:" + name).c_str(), "after its destruction %zu blocks stay allocated, the first of %zu bytes: %s", left[1].size(), left[1][0].n, hex(&left[1][0].c[0], left[1][0].n, 24).c_str());
	if (left[0].size() == left[1].size()) for (size_t i = 0; i < left[0].size(); ++i) { // what nobody will ever erase
		Rel &x = left[0][i], &y = left[1][i]; if (x.n != y.n) continue; size_t d = 0, at = 0;
		for (size_t j = 0; j + 8 <= x.n; j += 8) { if (!memcmp(&x.c[j], &y.c[j], 8)) continue; uint64_t v, u; memcpy(&v, &x.c[j], 8); memcpy(&u, &y.c[j], 8); if (sim::in_arena(v) && sim::in_arena(u)) continue; if (!d) at = j; ++d; }
		if (d) sim::violation(("left-behind:" + name).c_str(), "after its destruction a block of %zu bytes stays allocated, %zu of them, from offset %zu, depend on the secret: %s", x.n, d * 8, at, hex(&x.c[at], x.n - at, 24).c_str());
	}
	sim::count("probe.blocks_judged", judged); if (judged) sim::nontrivial();
}
// ---- the secure vector and the memory pool beneath it
namespace {
uint64_t dirty_n = 0; size_t dirty_off = 0; std::string dirty_who;
void clean_hook(void* p, size_t n, uint64_t serial) { if (!tape.on || dirty_n || (serial > tape.since && sim::alloc_fault_fired())) return; // the texts of the exception are not secret
	 for (size_t i = 0; i < n; ++i) if (((uint8_t*)p)[i]) { sim::Host h; dirty_n = n; dirty_off = i; dirty_who = sim::callers(0); return; } }
template <class T> void vectors()
{
	typedef SecureVector<T> V; typedef std::vector<T> M; std::vector<std::unique_ptr<V>> v; std::vector<M> m; unsigned nv = sim::pick_range(1, 3); for (unsigned i = 0; i < nv; ++i) { v.emplace_back(new V); m.emplace_back(); }
	auto elems = [&](size_t n) { M x(n); for (auto &e : x) e = (T)(sim::pick(1u << 30) | 1); return x; }; uint32_t lf = sim::pick(3) ? 0 : sim::pick_range(1, 16); bool faults = sim::chance(1, 2); simos::mem().lock_fail = lf; simos::mem().alloc_fail = sim::pick(4) ? 0 : sim::pick_range(1, 16);
	unsigned ops = sim::pick_range(2, 14);
	for (unsigned o = 0; o < ops; ++o) {
		unsigned i = sim::pick(nv), j = sim::pick(nv), k = sim::pick(13); M x = elems(sim::pick_size(200)); size_t n = sim::pick_size(200); M pl = elems(x.size()); V a, b; a.assign(x.begin(), x.end()); M was = m[i]; std::unique_ptr<V> drop; bool strong = false; M out; out.reserve(600);
		tape.on = true; tape.since = sim::alloc_serial(); if (faults && sim::pick(2)) sim::arm_alloc(sim::fpick(3));
		static const char* on[] = {"resize", "push_back", "assign", "copy", "move", "clear", "insert", "erase", "shrink", "lock", "insert part", "extract part", "destroy"};
		R r = call([&] { switch (k) {
			case 0: strong = true; v[i]->resize(n); break;
			case 1: strong = true; v[i]->push_back(x.size() ? x[0] : (T)7); break;
			case 2: v[i]->assign(x.begin(), x.end()); break;
			case 3: *v[i] = *v[j]; break;
			case 4: if (i != j) *v[i] = std::move(*v[j]); break;
			case 5: SecureClear(*v[i]); break;
			case 6: strong = true; SecureInsert(a, *v[i]); break;
			case 7: if (v[i]->size()) v[i]->erase(v[i]->begin(), v[i]->begin() + (n % v[i]->size())); break;
			case 8: strong = true; v[i]->shrink_to_fit(); break;
			case 9: { V t = SecureLock(x); *v[i] = std::move(t); break; }
			case 10: strong = true; { size_t io = x.size() ? n % x.size() : 0; SecureInsert(a, io, *v[i], n, x.size() - io); } break;
			case 11: strong = true; { size_t io = x.size() ? n % x.size() : 0; SecureExtract(a, io, *v[i], n, x.size() - io); } break;
			default: { V t; v[i]->swap(t); break; }
		} });
		bool fired = sim::alloc_fault_fired(); sim::arm_alloc(-1); tape.on = false; sim::log("%s %u (%zu, %zu): %s", on[k], i, n, x.size(), r.ok() ? "ok" : r.what.c_str()); sim::count((std::string("op.") + on[k]).c_str()); if (!r.ok() && !fired) sim::violation("vector:refused", "%s failed although memory was available: %s", on[k], r.what.c_str());
		if (dirty_n) sim::violation("vector:dirty", "%s gave %llu bytes back to the heap with data in them from byte %zu (%s)", on[k], (unsigned long long)dirty_n, dirty_off, dirty_who.c_str());
		if (r.ok()) switch (k) {
			case 0: m[i].resize(n); break; case 1: m[i].push_back(x.size() ? x[0] : (T)7); break; case 2: case 9: m[i] = x; break; case 3: m[i] = m[j]; break; case 4: if (i != j) { m[i] = m[j]; if (v[j]->size()) sim::violation("vector:moved", "the source of a move still holds %zu elements", v[j]->size()); m[j].clear(); } break;
			case 5: case 12: m[i].clear(); break; case 6: m[i].insert(m[i].end(), x.begin(), x.end()); break; case 7: if (m[i].size()) m[i].erase(m[i].begin(), m[i].begin() + (n % m[i].size())); break; case 8: break;
			default: { size_t io = x.size() ? n % x.size() : 0, c = x.size() - io; if (m[i].size() < n + c) m[i].resize(n + c); std::copy(x.begin() + io, x.end(), m[i].begin() + n); }
		} else if (!strong) { m[i].assign(v[i]->begin(), v[i]->end()); if (k == 12) m[i].clear(); if (k == 4) m[j].assign(v[j]->begin(), v[j]->end()); }
		for (unsigned q = 0; q < nv; ++q) if (M(v[q]->begin(), v[q]->end()) != m[q]) sim::violation("vector:content", "after %s vector %u holds %zu elements, expected %zu, or other values", on[k], q, v[q]->size(), m[q].size());
		for (unsigned q = 0; q < nv; ++q) for (unsigned s = 0; s < q; ++s) if (v[q]->size() && v[s]->size() && v[q]->data() < v[s]->data() + v[s]->size() && v[s]->data() < v[q]->data() + v[q]->size()) sim::violation("vector:overlap", "two live vectors share memory");
		tape.on = false;
	}
	tape.on = true; for (auto &e : v) { V t; e->swap(t); } tape.on = false; if (dirty_n) sim::violation("vector:dirty", "destruction gave %llu bytes back to the heap with data in them from byte %zu (%s)", (unsigned long long)dirty_n, dirty_off, dirty_who.c_str()); sim::nontrivial();
}
}
SCENARIO(secure_vector, "C17", "state was released")
{
	simos::reset(); sim::machine(); tape = Tape(); dirty_n = 0; sim::on_free = clean_hook; switch (sim::pick(3)) { case 0: vectors<uint8_t>(); break; case 1: vectors<uint32_t>(); break; default: vectors<uint64_t>(); } sim::on_free = nullptr;
}
SCENARIO(memory_pool, "C17", "state was released")
{
	simos::reset(); sim::machine(); sim::sched_random(); unsigned bit = sim::pick(7); size_t al = (size_t)1 << bit, size = 64 * sim::pick_range(4, 40), mn = sim::pick_range(1, 20), mx = sim::pick(3) ? sim::pick_range(32, 200) : size; if (mn > mx) mn = mx;
	Bytes room(size + 192, 0xEE); uint8_t* base = (uint8_t*)(((uintptr_t)room.data() + 64 + 63) & ~(uintptr_t)63); Tools::MemoryPool pool(base, size, 4096, mn, mx, (uint8_t)bit);
	struct Live { uint8_t* p; size_t n; uint8_t tag; }; struct Board { Live a[128]; size_t n = 0; }; static Board all; all.n = 0; // what is out, kept by the simulator
	auto put = [&](const Live &l) { sim::Host h; all.a[all.n++] = l; }; auto take = [&](const Live &l) { sim::Host h; for (size_t i = 0; i < all.n; ++i) if (all.a[i].p == l.p) { all.a[i] = all.a[--all.n]; return; } }; auto clash = [&](const Live &l) { sim::Host h; for (size_t i = 0; i < all.n; ++i) if (all.a[i].p < l.p + l.n && l.p < all.a[i].p + all.a[i].n) return true; return false; };
	 unsigned nt = sim::pick_range(1, 3); bool faults = nt == 1 && sim::chance(1, 2);
	auto outside = [&] { for (size_t i = 0; i < room.size(); ++i) { uint8_t* q = room.data() + i; if ((q < base || q >= base + size) && *q != 0xEE) sim::violation("pool:outside", "the pool wrote outside its memory"); } };
	auto whole = [&](const Live &l) { for (size_t i = 0; i < l.n; ++i) if (l.p[i] != l.tag) sim::violation("pool:overlap", "byte %zu of a live block of %zu bytes was changed by someone else", i, l.n); };
	std::vector<std::vector<Live>> mine(nt); std::vector<std::vector<std::array<uint32_t, 3>>> plan(nt);
	for (auto &p : plan) { unsigned k = sim::pick_range(3, 24); for (unsigned i = 0; i < k; ++i) p.push_back({sim::pick(5), sim::pick(4) ? sim::pick_range((uint32_t)mn, (uint32_t)mx) : 1 + (uint32_t)sim::pick_size(300), sim::pick(1000)}); }
	auto work = [&](unsigned t) {
		for (auto &s : plan[t]) {
			bool reset = nt == 1 && s[0] == 4 && s[2] % 16 == 0; if (reset) { pool.Reset(); mine[t].clear(); all.n = 0; sim::count("op.reset"); sim::log("reset"); continue; }
			if (s[0] < 3 || mine[t].empty()) {
				size_t n = s[1]; Live l; bool fire = faults && sim::chance(1, 4); if (fire) sim::arm_alloc(0); void* q = nullptr; R r = call([&] { q = pool.Allocate(n); }); bool fired = sim::alloc_fault_fired(); if (fire) sim::arm_alloc(-1); sim::count(q ? "op.allocate" : "op.refused"); if (t == 0) sim::log("allocate %zu: %s", n, q ? "block" : r.ok() ? "none" : "failed");
				if (!r.ok()) { if (r.o != Out::alloc || !fired) sim::violation("pool:exception", "Allocate(%zu) ended in %s", n, r.what.c_str()); continue; }
				if (!q) { if (nt == 1 && n >= mn && n <= mx && n && n <= size) { // the model: free space between live blocks
						std::vector<Live> s2 = mine[0]; std::sort(s2.begin(), s2.end(), [](const Live &a, const Live &b) { return a.p < b.p; }); uint8_t* at = base; auto fits = [&](uint8_t* a, uint8_t* b) { uintptr_t x = ((uintptr_t)(a - base) + al - 1) & ~(uintptr_t)(al - 1); return x + n <= (uintptr_t)(b - base); };
						bool can = false; for (auto &e : s2) { if (fits(at, e.p)) can = true; at = e.p + e.n; } if (fits(at, base + size)) can = true; if (can) sim::violation("pool:exhausted", "Allocate(%zu) found no memory although a large enough gap is free between %zu live blocks", n, s2.size()); } continue; }
				if (n < mn || n > mx) sim::violation("pool:limits", "the pool served %zu bytes, its limits are %zu to %zu", n, mn, mx); l.p = (uint8_t*)q; l.n = n; l.tag = (uint8_t)(1 + s[2] % 255); 
				if (l.p < base || l.p + n > base + size) sim::violation("pool:range", "a block outside the pool was handed out"); if ((uintptr_t)(l.p - base) % al) sim::violation("pool:align", "a misaligned block was handed out");
				if (clash(l)) sim::violation("pool:overlap", "a block of %zu bytes was handed out over a live one", n);
				for (size_t i = 0; i < n; ++i) if (l.p[i]) sim::violation("pool:dirty", "a block was handed out with data in it"); memset(l.p, l.tag, n); mine[t].push_back(l); put(l);
			} else {
				size_t i = s[2] % mine[t].size(); Live l = mine[t][i]; whole(l); mine[t].erase(mine[t].begin() + i); take(l); bool fire = faults && sim::chance(1, 4); if (fire) sim::arm_alloc(0); bool ok = false; R r = call([&] { ok = pool.Deallocate(l.p, l.n); }); if (fire) sim::arm_alloc(-1); sim::count("op.deallocate"); if (t == 0) sim::log("deallocate %zu", l.n);
				if (!r.ok() || !ok) sim::violation("pool:deallocate", "a block of the pool was not taken back: %s", r.what.c_str()); if (nt == 1) for (size_t k = 0; k < l.n; ++k) if (l.p[k]) sim::violation("pool:dirty", "a block that was given back was not erased");
			}
		}
	};
	std::vector<sim::Thread> th; for (unsigned t = 1; t < nt; ++t) th.push_back(sim::spawn([&, t] { work(t); }, "user")); work(0); for (auto &h : th) sim::join(h);
	uint8_t other[64]; if (pool.Deallocate(other, 64)) sim::violation("pool:foreign", "the pool took memory that is not its own");
	std::vector<Live> left(all.a, all.a + all.n); for (auto &l : left) whole(l); outside(); for (auto &l : left) if (!pool.Deallocate(l.p, l.n)) sim::violation("pool:deallocate", "a block of the pool was not taken back"); for (size_t i = 0; i < size; ++i) if (base[i]) sim::violation("pool:dirty", "byte %zu of the pool holds data although every block was given back", i);
	{ // the pages beneath it
		auto &mm = simos::mem(); mm.lock_fail = sim::pick(3) ? 0 : 16; mm.alloc_fail = sim::pick(6) ? 0 : 16; uint64_t f0 = mm.frees, a0 = mm.allocs, l0 = mm.locks - mm.unlocks, d0 = mm.dirty; size_t n = 1 + sim::pick_size(9000); uint8_t* p = (uint8_t*)SecureMemory::Allocate(n); bool no = mm.lock_fail || mm.alloc_fail; mm.lock_fail = mm.alloc_fail = 0; sim::log("pages for %zu bytes: %s", n, p ? "ok" : "none"); sim::count(p ? "op.pages" : "op.pages_refused");
		if (!p != no) sim::violation("pages:report", "memory that could %sbe locked was%s handed out", no ? "not " : "", p ? "" : " not"); if (p) { if (mm.locks - mm.unlocks != l0 + 1) sim::violation("pages:lock", "memory was handed out without being locked"); for (size_t i = 0; i < n; ++i) if (p[i]) sim::violation("pages:dirty", "fresh pages hold data"); memset(p, 0xA5, n); SecureMemory::Free(p, n); }
		if (mm.frees - f0 != mm.allocs - a0 || mm.locks - mm.unlocks != l0) sim::violation("pages:leak", "%llu regions were reserved and %llu released, %lld are still locked", (unsigned long long)(mm.allocs - a0), (unsigned long long)(mm.frees - f0), (long long)(mm.locks - mm.unlocks - l0)); if (mm.dirty != d0) sim::violation("pages:dirty", "pages were given back with data in them"); }
	if (mx >= size && !pool.Allocate(size)) sim::violation("pool:leak", "after every block was given back the pool could not serve its whole size"); sim::nontrivial();
}
