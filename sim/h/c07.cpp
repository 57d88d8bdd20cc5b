// C07: key derivation and generator output is a function of key, parameters and request history.
#include "kdf.h"
SCENARIO(kdf_history, "C07", "the object had a past, or the output was requested in several pieces")
{
	sim::random_machine();
	KSpec s; s.k = (int)sim::pick(K_COUNT); s.iter = sim::pick_range(1, 4); s.cpu = sim::pick_range(1, 6); s.mem = sim::pick(2); s.own = sim::chance(1, 4); KObj ob = make_kdf(s); Kdf::IKdf &m = *ob.k; std::string nm = kk_name(s.k);
	sim::log("%s iterations %u cost %u memory %u", nm.c_str(), s.iter, s.cpu, s.mem); sim::count(("op." + nm).c_str()); bool inited = false; std::vector<Key> keys; unsigned n = sim::pick_range(1, 4);
	for (unsigned i = 0; i < n; ++i) {
		unsigned z = sim::pick(6);
		if (z == 1) { m.Reset(); inited = false; sim::log("reset"); SIM_CHECK(!m.IsInitialized(), ("kdf:reset:" + nm).c_str(), "%s is initialised after Reset", nm.c_str()); }
		else if (z == 2) { Cipher::SymmetricKey a(sim::bytes(sim::pick_range(1, 3))); R r = call([&] { m.Initialize(a); }); SIM_CHECK(r.o == Out::crypto, ("kdf:short-key:" + nm).c_str(), "%s took a key of %zu bytes", nm.c_str(), (size_t)a.KeySizes().KeySize()); sim::count("probe.refused_key"); }
		if (!inited && sim::chance(1, 6)) { Bytes o; R r = request(m, 32, o, "kdf:stray-write"); SIM_CHECK(r.o == Out::crypto, ("kdf:no-key:" + nm).c_str(), "%s generated output without a key", nm.c_str()); }
		Key k = kdf_key(s); if (keys.size() && sim::chance(1, 3)) { k = keys[sim::pick((uint32_t)keys.size())]; sim::count("probe.same_key_again"); } keys.push_back(k);
		if (sim::chance(1, 6)) { Key q = kdf_key(s); q.nonce = sim::bytes(sim::pick(4)); q.info = sim::bytes(sim::pick(4)); if (q.info.size() && q.nonce.empty() && sim::pick(2)) q.nonce = sim::bytes(1); auto a = ksym(q); R r = call([&] { m.Initialize(*a); }); if (!r.ok()) { SIM_CHECK(r.o == Out::crypto, ("kdf:short-salt:" + nm).c_str(), "%s: a salt of %zu bytes: %s", nm.c_str(), q.nonce.size(), r.what.c_str()); sim::count("probe.refused_salt"); sim::nontrivial(); } sim::log("salt %zu info %zu: %s", q.nonce.size(), q.info.size(), r.ok() ? "ok" : "refused"); }
		if (s.k <= K_HKDF512 && sim::chance(1, 5)) { // the extraction step on its own
			Kdf::HKDF* h = static_cast<Kdf::HKDF*>(&m); Bytes sl = sim::pick(3) ? sim::bytes(sim::pick_range(8, 200)) : Bytes(), kk = sim::bytes(sim::pick_range(1, 200)), o(s.ds()); if (sim::pick(2)) h->Extract(kk, sl, o); else { SBytes a = S(kk), b = S(sl), c(s.ds()); h->Extract(a, b, c); o = U(c); }
			SIM_CHECK(first_diff(o, ref_hmac(s.big(), sl.size() ? sl : Bytes(s.ds(), 0), kk)) < 0, ("kdf:extract:" + nm).c_str(), "%s: the extraction from a key of %zu and a salt of %zu bytes is not the code of the key under the salt", nm.c_str(), kk.size(), sl.size()); sim::count("probe.extract");
		}
		unsigned face = s.k >= K_SH128 && s.k <= K_SH512 ? sim::pick(5) : 0;
		if (face) { // the other ways to key SHAKE
			Kdf::SHAKE* h = static_cast<Kdf::SHAKE*>(&m); bool sec = sim::chance(1, 2); if (face <= 2) { k.nonce.clear(); k.info.clear(); } if (face == 3) k.info.clear(); if (face == 4 && k.nonce.empty() && sim::pick(2)) k.nonce = sim::bytes(8); SBytes a = S(k.key), b = S(k.nonce), c = S(k.info); Bytes pre = sim::bytes(sim::pick(20)), w = pre; app(w, k.key); app(w, sim::bytes(sim::pick(20))); SBytes sw = S(w); size_t n = k.key.size();
			switch (face) { case 1: if (sec) h->Initialize(a); else h->Initialize(k.key); break; case 2: if (sec) h->Initialize(sw, pre.size(), n); else h->Initialize(w, pre.size(), n); break; case 3: if (sec) h->Initialize(a, b); else h->Initialize(k.key, k.nonce); break; default: if (sec) h->Initialize(a, b, c); else h->Initialize(k.key, k.nonce, k.info); } inited = true; sim::log("face %u", face); sim::count("probe.shake_face"); keys.back() = k;
		} else { auto a = ksym(k); m.Initialize(*a); inited = true; } KRef ref(s, k); sim::log("key %zu salt %zu info %zu", k.key.size(), k.nonce.size(), k.info.size()); if (i) sim::nontrivial();
		unsigned reqs = sim::pick_range(1, 4);
		for (unsigned q = 0; q < reqs; ++q) {
			size_t b = s.block(), len; switch (sim::pick(5)) { case 0: len = b * sim::pick_range(1, 3); break; case 1: len = b * sim::pick_range(1, 3) - 1; break; case 2: len = b * sim::pick(3) + 1 + sim::pick(4); break; case 3: len = (s.k < K_PB256 ? sim::chance(1, 8) : s.k <= K_PB512 && sim::chance(1, 6)) ? b * (250 + sim::pick(12)) + sim::pick((uint32_t)b) : b; break; default: len = 1 + sim::pick((uint32_t)b * 4); break; }
			if (sim::chance(1, 8)) { small_output(m, 1 + sim::pick((uint32_t)len), ("kdf:small-output:" + nm).c_str(), nm.c_str()); }
			size_t blocks = (len + b - 1) / b; Bytes got; R r = request(m, len, got, "kdf:stray-write"); sim::log("request %u: %zu bytes%s", q, len, r.ok() ? "" : " refused"); if (q) sim::nontrivial();
			if (!r.ok()) { if (r.o != Out::crypto || s.k >= K_PB256 || ref.ctr + blocks < 250) sim::violation(("kdf:refused:" + nm).c_str(), "%s refused %zu bytes: %s", nm.c_str(), len, r.what.c_str()); sim::count("probe.output_limit"); continue; }
			if (s.k <= K_HKDF512 && ref.ctr + blocks > 255) sim::violation(("kdf:limit:" + nm).c_str(), "%s generated %zu blocks, its 8-bit counter repeats after 255", nm.c_str(), ref.ctr + blocks);
			Bytes e = ref.gen(len); if (first_diff(got, e) >= 0) sim::violation((std::string(q ? "kdf:continuation:" : i ? "kdf:history:" : "kdf:model:") + nm).c_str(), "%s: request %u of %zu bytes after %u earlier keys (key %zu, salt %zu, info %zu bytes) differs from the function's definition at byte %ld", nm.c_str(), q, len, i, k.key.size(), k.nonce.size(), k.info.size(), first_diff(got, e));
		}
	}
	ob.k.reset(); if (ob.dg) { Bytes h(ob.dg->DigestSize()); Bytes t = sim::bytes(10); ob.dg->Reset(); ob.dg->Update(t, 0, t.size()); ob.dg->Finalize(h, 0); SIM_CHECK(h == ref_sha2(t.data(), t.size(), s.big()), "kdf:user-digest", "the user's digest is unusable after the object was destroyed"); }
}
SCENARIO(drbg_history, "C07", "output was requested in more than one piece, after a re-initialisation, an update or a reseed")
{
	sim::random_machine(); sim::sched_random(); using namespace Enumeration;
	int k = (int)sim::pick(G_COUNT); bool prov = sim::chance(1, 2), own = sim::chance(1, 3); Feed feed; std::unique_ptr<Script> script; if (prov) script.reset(new Script(feed)); Dg dg; std::unique_ptr<Drbg::IDrbg> g; std::unique_ptr<GRef> ref; Drbg::BCG* bcg = nullptr; std::string nm = gk_name(k);
	static const ShakeModes sm[] = {ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512}; static const size_t rates[] = {168, 136, 72};
	if (k <= G_HCG512) {
		bool big = k == G_HCG512; SHA2Digests sd = big ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256; std::string name; { Drbg::HCG t(sd, Providers::None); name = t.Name(); }
		if (prov || own) { dg = make_digest(big ? D_S2512 : D_S2256, 0); g.reset(new Drbg::HCG(dg.get(), script.get())); } else g.reset(new Drbg::HCG(sd, Providers::None));
		ref.reset(new HcgRef(big, name));
	} else if (k <= G_CSG512) { if (prov) g.reset(new Drbg::CSG(sm[k - G_CSG128], script.get())); else g.reset(new Drbg::CSG(sm[k - G_CSG128], Providers::None)); ref.reset(new CsgRef(rates[k - G_CSG128])); }
	else { bcg = prov ? new Drbg::BCG(script.get()) : new Drbg::BCG(Providers::None); g.reset(bcg); ref.reset(new BcgRef()); }
	size_t pbs = 0; if (bcg) { if (sim::chance(1, 2) && par_on(bcg->ParallelProfile())) pbs = bcg->ParallelProfile().ParallelBlockSize(); else par_off(bcg->ParallelProfile()); if (pbs > 40000) { pbs = bcg->ParallelProfile().ParallelMinimumSize(); bcg->ParallelProfile().SetBlockSize(pbs); } }
	if (prov) { ref->feed = &feed; ref->threshold = sim::pick(2) ? sim::pick_range(1, 600) : 100000; g->ReseedThreshold() = ref->threshold; if (sim::chance(1, 3)) feed.fail16 = sim::pick_range(1, 8); }
	sim::log("%s provider %d threshold %zu parallel block %zu", nm.c_str(), prov, ref->threshold, pbs); sim::count(("op." + nm).c_str());
	unsigned rounds = sim::pick_range(1, 3), done = 0;
	for (unsigned i = 0; i < rounds; ++i) {
		if (!i && sim::chance(1, 6)) { Bytes o; R r = request(*g, 32, o, "drbg:stray-write"); SIM_CHECK(r.o == Out::crypto, ("drbg:no-key:" + nm).c_str(), "%s generated output without a key", nm.c_str()); }
		if (sim::chance(1, 8)) { Cipher::SymmetricKey a(sim::bytes(sim::pick_range(1, 15)), sim::bytes(32)); R r = call([&] { g->Initialize(a); }); SIM_CHECK(r.o == Out::crypto, ("drbg:short-key:" + nm).c_str(), "%s took a key of %zu bytes", nm.c_str(), (size_t)a.KeySizes().KeySize()); sim::count("probe.refused_key"); }
		if (sim::chance(1, 8)) { Key q; q.key = k == G_BCG ? up_key(k) : sim::bytes(sim::pick_range(16, 200)); q.nonce = sim::bytes(sim::pick(12)); q.info = sim::bytes(sim::pick(12)); if (q.info.size() && q.nonce.empty()) q.nonce = sim::bytes(1); auto a = sk(q); R r = call([&] { g->Initialize(*a); }); sim::log("nonce %zu info %zu: %s", q.nonce.size(), q.info.size(), r.ok() ? "ok" : "refused"); if (!r.ok()) { SIM_CHECK(r.o == Out::crypto, ("drbg:short-nonce:" + nm).c_str(), "%s: a nonce of %zu bytes: %s", nm.c_str(), q.nonce.size(), r.what.c_str()); sim::count("probe.refused_nonce"); } feed.q.clear(); }
		Key key; if (k == G_BCG) { key.key = up_key(k); key.nonce = sim::bytes(32); } else { key.key = sim::bytes(sim::pick_range(16, 200)); if (sim::chance(1, 2)) key.nonce = sim::bytes(k <= G_HCG512 ? 8 : sim::pick_range(1, 200)); }
		if (key.nonce.size() && sim::chance(1, 4)) memset(key.nonce.data(), 0xff, std::min<size_t>(key.nonce.size(), 1 + sim::pick(16))); if (key.nonce.size() && sim::chance(1, 3)) key.info = sim::bytes(sim::pick_range(1, 200));
		{ auto a = sk(key); g->Initialize(*a); } ref->init(key); sim::log("key %zu nonce %zu info %zu", key.key.size(), key.nonce.size(), key.info.size()); SIM_CHECK(g->IsInitialized(), ("drbg:init:" + nm).c_str(), "%s is not initialised", nm.c_str());
		unsigned steps = sim::pick_range(1, 8); bool updated = false;
		for (unsigned q = 0; q < steps; ++q) {
			if (sim::chance(1, 6)) {
				Bytes u = up_key(k); R r = sim::chance(1, 2) ? call([&] { g->Update(u); }) : call([&] { SBytes z = S(u); g->Update(z); }); bool starved = false; sim::log("update %zu%s", u.size(), r.ok() ? "" : " failed");
				try { ref->update(u); } catch (Starved &) { starved = true; } if (starved == r.ok()) sim::violation(("drbg:update-outcome:" + nm).c_str(), "%s: the update %s but the entropy source %s: %s", nm.c_str(), r.ok() ? "succeeded" : "failed", starved ? "failed" : "worked", r.what.c_str()); updated = true; sim::count("probe.update"); continue;
			}
			size_t n; switch (sim::pick(6)) { case 0: n = sim::pick(40); break; case 1: n = 32 * sim::pick_range(1, 6); break; case 2: n = sim::pick(300); break; case 3: n = pbs ? pbs + sim::pick(200) - sim::pick(3) : sim::pick(200); break; case 4: n = 1; break; default: n = sim::pick(pbs ? (uint32_t)pbs * 2 : 700); break; }
			if (!n && sim::pick(4)) n = 16; if (bcg && !pbs) n %= 700;
			if (sim::chance(1, 8)) { small_output(*g, 1 + sim::pick(100), ("drbg:small-output:" + nm).c_str(), nm.c_str()); }
			Bytes got, e; bool starved; R r = request(*g, n, got, "drbg:stray-write"); e = ref->generate(n, starved); sim::log("generate %zu%s", n, r.ok() ? "" : " failed"); ++done; if (done > 1) sim::nontrivial();
			if (starved == r.ok()) sim::violation(("drbg:reseed-outcome:" + nm).c_str(), "%s: the request %s but the entropy source %s: %s", nm.c_str(), r.ok() ? "succeeded" : "failed", starved ? "failed at the reseed" : "worked", r.what.c_str());
			if (!r.ok()) { sim::count("probe.failed_reseed"); continue; }
			if (first_diff(got, e) >= 0) sim::violation((std::string(updated ? "drbg:after-update:" : q ? "drbg:continuation:" : i ? "drbg:history:" : "drbg:model:") + nm).c_str(), "%s: request %u of %zu bytes%s differs from the definition of the generator at byte %ld", nm.c_str(), q, n, pbs && n >= pbs ? " (parallel)" : "", first_diff(got, e));
			
			if (feed.q.size()) sim::violation(("drbg:reseed-early:" + nm).c_str(), "%s asked for entropy below its reseed threshold", nm.c_str());
		}
	}
	if (feed.calls) sim::count("probe.reseeded", feed.calls);
	g.reset(); SIM_CHECK(feed.alive, ("drbg:user-provider:" + nm).c_str(), "%s destroyed the provider of its user", nm.c_str());
}
