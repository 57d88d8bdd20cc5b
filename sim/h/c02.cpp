// C02: a failed allocation or thread never silently yields a wrong result.
#include "asubj.h"
#include "ParallelTools.h"
#include "RHX.h"
#include "SHX.h"
namespace {
const char* oname(Out o) { static const char* n[] = {"ok", "library exception", "authentication failure", "bad_alloc", "std exception"}; return n[(int)o]; }
// whatever was allocated in between is gone again
void nothing_left(const std::string &name, uint64_t from, uint64_t to)
{
	struct Left { uint64_t to; size_t n, count; Bytes c; } left{to, 0, 0, Bytes()};
	{ sim::Host h; sim::each_live(from, [](void* p, size_t z, uint64_t serial, void* c) { Left &l = *(Left*)c; if (serial > l.to) return; if (!l.count++) { l.n = z; l.c.assign((uint8_t*)p, (uint8_t*)p + std::min<size_t>(z, 24)); } }, &left); }
	if (left.count) sim::violation(("alloc:leak:" + name).c_str(), "%s left %zu blocks allocated after a failure and its destruction, the first of %zu bytes: %s", name.c_str(), left.count, left.n, hex(left.c, 24).c_str());
}
}
SCENARIO(fail_operation, "C02", "the injected allocation or thread failure happened inside the operation")
{
	sim::random_machine(); sim::sched_random(); std::string name; bool threads, forged; Bytes good; auto mk = draw_subject(name, threads, &good, forged);
	// how many allocations the phases make
	uint64_t a0, a1, a2, a3; { a0 = sim::alloc_count(); Sp x = mk(); a1 = sim::alloc_count(); x->init(); a2 = sim::alloc_count(); x->prepare(); call([&] { x->run(); }); a3 = sim::alloc_count(); }
	unsigned phase = sim::pick(4); if (phase > 2) phase = 2; // construct, key, run
	bool thr = threads && phase == 2 && sim::chance(1, 3); uint64_t n = phase == 0 ? a1 - a0 : phase == 1 ? a2 - a1 : a3 - a2; uint32_t len = sim::fault("repeated_failure", 1, 4) ? 1 + sim::fpick(6) : 1; uint32_t at = sim::fpick(thr ? 8 : (uint32_t)n + 2);
	sim::log("%s, phase %u, %s failure %u of %llu, run %u%s", name.c_str(), phase, thr ? "thread" : "allocation", at, (unsigned long long)n, len, forged ? ", forged input" : ""); sim::count(("op." + name).c_str());
	Sp x; R r; bool fired; uint64_t from = sim::alloc_serial(); struct End { std::string &n; uint64_t from; Sp &x; R &r; bool on; ~End() { if (!on) return; x.reset(); std::string().swap(r.what); nothing_left(n, from, sim::alloc_serial()); } } end{name, from, x, r, true}; auto arm = [&] { if (thr) sim::arm_thread(at, len); else sim::arm_alloc(at, len); }; auto disarm = [&] { fired = thr ? sim::thread_fault_fired() : sim::alloc_fault_fired(); sim::arm_alloc(-1); sim::arm_thread(-1); };
	if (phase == 0) { arm(); r = call([&] { x = mk(); }); disarm(); if (!r.ok()) { x = mk(); } x->init(); x->prepare(); R q = call([&] { x->run(); }); if (!forged && !q.ok()) sim::violation(("alloc:construct:" + name).c_str(), "%s: constructed under a failing allocation (%s), the next operation failed: %s", name.c_str(), oname(r.o), q.what.c_str()); r = q; }
	else if (phase == 1) { x = mk(); bool used = sim::chance(1, 2); if (used) { x->init(); x->prepare(); call([&] { x->run(); }); } bool other = sim::chance(1, 2); arm(); r = call([&] { if (other) x->init_other(); else x->init(); }); disarm(); sim::log("%s key: %s", other ? "another" : "the", oname(r.o)); if (!r.ok() || other) { x->init(); sim::count("probe.initialised_again"); } x->prepare(); r = call([&] { x->run(); }); }
	else { x = mk(); x->init(); x->prepare(); arm(); r = call([&] { x->run(); }); disarm(); sim::log("operation: %s", oname(r.o));
		if (!r.ok() && !(forged && r.o == Out::auth)) {
			if (!fired) sim::violation(("alloc:refused:" + name).c_str(), "%s failed without a fault: %s", name.c_str(), r.what.c_str());
			if (r.o == Out::auth) sim::violation(("alloc:misreported:" + name).c_str(), "%s reported an authentication failure for a genuine message when an allocation failed", name.c_str());
			sim::count("probe.failure_reported"); if (sim::chance(1, 4)) { sim::nontrivial(); return; } // destroyed as it is
			x->init(); x->prepare(); r = call([&] { x->run(); }); sim::count("probe.initialised_again"); sim::log("again: %s", oname(r.o)); } }
	if (fired) { sim::nontrivial(); sim::count(thr ? "fault.thread_creation" : "fault.allocation"); }
	if (forged) { if (r.ok()) sim::violation(("alloc:forgery:" + name).c_str(), "%s accepted a forged message", name.c_str()); return; }
	if (!r.ok()) sim::violation(("alloc:after:" + name).c_str(), "%s cannot be used after it reported a failure and was initialised again: %s", name.c_str(), r.what.c_str());
	if (first_diff(x->out, good) >= 0) sim::violation(((thr ? "thread:silent:" : "alloc:silent:") + name).c_str(), "%s returned normally with wrong output at byte %ld of %zu although %s failed", name.c_str(), first_diff(x->out, good), good.size(), thr ? "the creation of a thread" : "an allocation");
}
SCENARIO(fail_loop, "C02,C18", "a worker of the parallel loop failed, or a thread could not be created")
{
	sim::random_machine(); sim::sched_random(); size_t n = sim::pick_range(1, 8); std::vector<unsigned> hits(n, 0); size_t bad = sim::pick((uint32_t)n + 1); bool thr = sim::chance(1, 2), task = sim::chance(1, 5); uint32_t len = 1 + sim::fpick(8);
	sim::log("%zu workers, worker %zu throws, threads fail %d", n, bad, thr); if (thr) sim::arm_thread(sim::fpick((uint32_t)n), len);
	R r = call([&] { if (task) Tools::ParallelTools::ParallelTask([&] { if (bad == 0) throw std::bad_alloc(); ++hits[0]; }); else Tools::ParallelTools::ParallelFor(0, n, [&](size_t i) { if (i == bad) throw std::bad_alloc(); ++hits[i]; }); });
	bool fired = thr && sim::thread_fault_fired(); sim::arm_thread(-1); sim::log("%s", oname(r.o)); if (fired) sim::count("fault.thread_creation"); bool throws = task ? bad == 0 : bad < n; if (throws || fired) sim::nontrivial(); if (throws) sim::count("fault.worker_exception");
	if (throws && r.ok()) sim::violation("loop:lost-failure", "a worker failed and the parallel loop returned normally");
	if (r.ok()) for (size_t i = 0; i < (task ? 1 : n); ++i) SIM_CHECK(hits[i] == 1, "loop:index", "index %zu ran %u times although the loop returned normally", i, hits[i]);
	if (!throws && !fired) SIM_CHECK(r.ok(), "loop:failed", "the loop failed without a fault: %s", r.what.c_str());
	SIM_CHECK(sim::live_threads() == 1, "loop:running", "%u workers are still running after the loop returned", sim::live_threads() - 1);
}
// the schemes, stream processors, containers, streams and paddings
SCENARIO(fail_other, "C02", "the injected allocation failure happened inside the operation")
{
	sim::machine(); sim::StepLimit lim(400000000); std::string name; auto mk = draw_other(name); Bytes good; uint64_t n; { Sp x = mk(); R r = call([&] { x->init(); uint64_t a = sim::alloc_count(); x->run(); n = sim::alloc_count() - a; good = x->out; }); if (!r.ok()) sim::discard("refused"); }
	sim::count(("op." + name.substr(0, name.find('-'))).c_str()); unsigned rounds = n > 3000 ? 2 : sim::pick_range(2, 10);
	for (unsigned i = 0; i < rounds; ++i) {
		uint32_t at = sim::fpick((uint32_t)n + 1), len = sim::fpick(4) ? 1 : 1 + sim::fpick(6); Sp x = mk(); R r; bool fired; uint64_t from = sim::alloc_serial(), to; x->init(); sim::arm_alloc(at, len); r = call([&] { x->run(); }); fired = sim::alloc_fault_fired(); sim::arm_alloc(-1); to = sim::alloc_serial(); if (fired) { sim::nontrivial(); sim::count("fault.allocation"); }
		sim::log("%s, allocation %u of %llu fails, run %u: %s", name.c_str(), at, (unsigned long long)n, len, oname(r.o));
		if (!r.ok() && !fired) sim::violation(("alloc:refused:" + name).c_str(), "%s failed without a fault: %s", name.c_str(), r.what.c_str());
		if (r.ok() && first_diff(x->out, good) >= 0) sim::violation(("alloc:silent:" + name).c_str(), "%s returned normally with other output at byte %ld of %zu although an allocation failed", name.c_str(), first_diff(x->out, good), good.size());
		if (!r.ok() && sim::chance(1, 2)) { std::string().swap(r.what); x->init(); R q = call([&] { x->run(); }); sim::count("probe.used_again"); if (!q.ok() || first_diff(x->out, good) >= 0) sim::violation(("alloc:after:" + name).c_str(), "%s, used again after a failed allocation, %s %s", name.c_str(), q.ok() ? "gives other output" : "fails:", q.what.c_str()); }
		std::string().swap(r.what); x.reset(); nothing_left(name, from, to);
	}
}
// objects that work with an object of their user
SCENARIO(fail_construct, "C02", "the injected allocation failure happened inside the construction")
{
	using namespace Enumeration; using namespace Cipher::Block::Mode; sim::random_machine();
	enum { T_ECB, T_CBC, T_CFB, T_OFB, T_CTR, T_ICM, T_GCM, T_HBA, T_CMAC, T_GMAC, T_HMAC, T_HKDF, T_KDF2, T_PBKDF2, T_HCG, T_CSG, T_BCG, T_RHX, T_SHX, T_CSTREAM, T_MSTREAM, T_MODEN, T_AEADN, T_COUNT };
	static const char* nm[] = {"ECB", "CBC", "CFB", "OFB", "CTR", "ICM", "GCM", "HBA", "CMAC", "GMAC", "HMAC", "HKDF", "KDF2", "PBKDF2", "HCG", "CSG", "BCG", "RHX", "SHX", "CipherStream", "MacStream", "CipherModeFromName", "AeadModeFromName"};
	int k = (int)sim::pick(T_COUNT); std::string name = nm[k]; BlockCiphers bt = pick_bc(); bool big = sim::chance(1, 2), lent = sim::chance(1, 2); static const ShakeModes sm[] = {ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512}; static const StreamAuthenticators ha[] = {StreamAuthenticators::HMACSHA2256, StreamAuthenticators::HMACSHA2512, StreamAuthenticators::KMAC256, StreamAuthenticators::KMAC512}; unsigned w = sim::pick(4); static const CipherModes cm[] = {CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM}; unsigned cw = sim::pick(5);
	bool cipher = k <= T_GMAC || k >= T_MODEN, digest = k >= T_HMAC && k <= T_HCG; Feed feed; Spec ms; ms.fam = F_CBC; ms.bc = bt; MSpec as; as.k = (int)sim::pick(M_COUNT); if (as.k == M_GMAC) as.k = M_CMAC; as.bc = bt; KSpec ks; ks.k = w & 1 ? (w & 2 ? K_HKDF512 : K_HKDF256) : (w & 2 ? K_SH512 : K_SH256); ks.own = false; ks.iter = ks.cpu = 1; ks.mem = 0;
	std::unique_ptr<Cipher::Block::IBlockCipher> bc; Dg dg; std::unique_ptr<Script> pv; KObj kd; Sym md; std::unique_ptr<Cipher::Block::Padding::IPadding> pad; Mp mac;
	if (cipher) bc.reset(Helper::BlockCipherFromName::GetInstance(bt)); if (digest) dg = make_digest(big ? D_S2512 : D_S2256, 0); if (k == T_HCG || k == T_CSG || k == T_BCG) pv.reset(new Script(feed)); if (k == T_RHX || k == T_SHX) kd = make_kdf(ks); if (k == T_CSTREAM) { md = make(ms); if (lent) pad.reset(new Cipher::Block::Padding::PKCS7()); } if (k == T_MSTREAM) mac = make_mac(as);
	auto build = [&]() -> std::shared_ptr<void> {
		switch (k) {
		case T_ECB: return std::shared_ptr<void>(new ECB(bc.get()), [](void* p) { delete (ECB*)p; }); case T_CBC: return std::make_shared<CBC>(bc.get()); case T_CFB: return std::make_shared<CFB>(bc.get(), 1 + w * 5); case T_OFB: return std::make_shared<OFB>(bc.get()); case T_CTR: return std::make_shared<CTR>(bc.get()); case T_ICM: return std::make_shared<ICM>(bc.get()); case T_GCM: return std::make_shared<GCM>(bc.get()); case T_HBA: return std::make_shared<HBA>(bc.get(), ha[w]);
		case T_CMAC: return std::make_shared<Mac::CMAC>(bc.get()); case T_GMAC: return std::make_shared<Mac::GMAC>(bc.get()); case T_HMAC: return std::make_shared<Mac::HMAC>(dg.get()); case T_HKDF: return std::make_shared<Kdf::HKDF>(dg.get()); case T_KDF2: return std::make_shared<Kdf::KDF2>(dg.get()); case T_PBKDF2: return std::make_shared<Kdf::PBKDF2>(dg.get(), 2);
		case T_HCG: return std::make_shared<Drbg::HCG>(dg.get(), pv.get()); case T_CSG: return std::make_shared<Drbg::CSG>(sm[w % 3], pv.get()); case T_BCG: return std::make_shared<Drbg::BCG>(pv.get());
		case T_RHX: return std::make_shared<Cipher::Block::RHX>(kd.k.get()); case T_SHX: return std::make_shared<Cipher::Block::SHX>(kd.k.get());
		case T_CSTREAM: return std::make_shared<Processing::CipherStream>(md.m.get(), pad.get()); case T_MSTREAM: return std::make_shared<Processing::MacStream>(mac.get());
		case T_MODEN: return std::shared_ptr<ICipherMode>(Helper::CipherModeFromName::GetInstance(bc.get(), cm[cw])); default: return std::shared_ptr<IAeadMode>(Helper::AeadModeFromName::GetInstance(bc.get(), w & 1 ? AeadModes::GCM : AeadModes::HBAH256));
		} };
	uint64_t n; { uint64_t a = sim::alloc_count(); auto x = build(); n = sim::alloc_count() - a; } sim::count(("op." + name).c_str());
	unsigned rounds = sim::pick_range(1, 6);
	for (unsigned i = 0; i < rounds; ++i) {
		uint32_t at = sim::fpick((uint32_t)n + 1); std::shared_ptr<void> x; bool fired; uint64_t from = sim::alloc_serial(), to; sim::arm_alloc(at); R r = call([&] { x = build(); }); fired = sim::alloc_fault_fired(); sim::arm_alloc(-1); to = sim::alloc_serial(); sim::log("%s, allocation %u of %llu fails: %s", name.c_str(), at, (unsigned long long)n, oname(r.o)); if (fired) { sim::nontrivial(); sim::count("fault.allocation"); }
		if (!r.ok() && !fired) sim::violation(("alloc:refused:" + name).c_str(), "%s cannot be constructed: %s", name.c_str(), r.what.c_str());
		std::string().swap(r.what); x.reset(); nothing_left(name, from, to); if (pv && !feed.alive) sim::violation(("alloc:user-object:" + name).c_str(), "%s destroyed the entropy provider of its user", name.c_str());
		// what the user lent is as good as before
		if (bc) { auto &l = bc->LegalKeySizes(); Cipher::SymmetricKeySize z = l[0]; Key q; q.key = sim::bytes(z.KeySize()); auto a = sk(q); Bytes in = sim::bytes(16), o(16), e(16); std::unique_ptr<Cipher::Block::IBlockCipher> f(Helper::BlockCipherFromName::GetInstance(bt)); f->Initialize(true, *a); f->Transform(in, e); bc->Initialize(true, *a); bc->Transform(in, o); SIM_CHECK(o == e, ("alloc:user-object:" + name).c_str(), "the cipher lent to %s encrypts wrongly after a construction that failed", name.c_str()); }
		if (dg) { Bytes m = sim::bytes(sim::pick(100)), o(dg->DigestSize()); dg->Compute(m, o); SIM_CHECK(first_diff(o, ref_sha2(m.data(), m.size(), big)) < 0, ("alloc:user-object:" + name).c_str(), "the digest lent to %s is wrong after a construction that failed", name.c_str()); }
		if (kd.k) { Key q = kdf_key(ks); auto a = ksym(q); kd.k->Initialize(*a); Bytes o(50); kd.k->Generate(o); KRef ref(ks, q); SIM_CHECK(first_diff(o, ref.gen(50)) < 0, ("alloc:user-object:" + name).c_str(), "the generator lent to %s is wrong after a construction that failed", name.c_str()); }
		if (md.m) { SIM_CHECK(md.m->Name().size() > 3, ("alloc:user-object:" + name).c_str(), "the mode lent to %s is gone", name.c_str()); Key q = pick_key(md); auto a = sk(q); md.init(true, *a); } if (pad) { Bytes b(16), c(16); Cipher::Block::Padding::PKCS7 f; f.AddPadding(c, 5, 11); pad->AddPadding(b, 5, 11); SIM_CHECK(b == c, ("alloc:user-object:" + name).c_str(), "the padding lent to %s is gone", name.c_str()); }
		if (mac) { Key q = mac_key(as); auto a = sk(q); mac->Initialize(*a); Bytes o(mac->TagSize()), e(o); mac->Compute(Bytes(33, 7), o); Mp f = make_mac(as); f->Initialize(*a); f->Compute(Bytes(33, 7), e); SIM_CHECK(o == e, ("alloc:user-object:" + name).c_str(), "the code lent to %s is wrong after a construction that failed", name.c_str()); }
	}
}
