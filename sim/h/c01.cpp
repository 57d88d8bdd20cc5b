// C01: parallel processing changes nothing but the time taken.
#include "cx.h"
#include "ParallelTools.h"
using namespace cx;
static size_t pick_len(const Sym &p, size_t pbs, size_t blk, bool ragged)
{
	size_t n; switch (sim::pick(4)) {
	case 0: n = pbs * sim::pick_range(1, 3); break;
	case 1: n = pbs * sim::pick_range(1, 2) + sim::pick((uint32_t)pbs); break;
	case 2: n = pbs + sim::pick((uint32_t)blk * 3) ; break;
	default: n = sim::pick((uint32_t)pbs * 2 + 1); }
	if (!n) n = blk; if (!ragged) { n -= n % blk; if (!n) n = blk; }
	return n;
}
SCENARIO(parallel_ciphers, "C01", "a message at least one parallel block long was processed by more than one worker thread")
{
	sim::random_machine(); sim::sched_random();
	Spec s = pick_spec({F_CTR, F_ICM, F_CBC, F_CFB, F_ECB, F_GCM, F_HBA, F_CSX512, F_CHACHA, F_RCS, F_RWS, F_TSX256, F_TSX512, F_TSX1024});
	Sym P = make(s), Q = make(s); Key k = pick_key(P); bool enc = sim::chance(1, 2);
	bool par = par_on(P.prof(), s.fam == F_HBA ? 1 : 3); par_off(Q.prof());
	if (sim::chance(1, 4)) { // the degree set through the cipher: possible ones are taken, others refused and nothing changes
		size_t d = sim::pick_range(0, 9), was = P.prof().ParallelMaxDegree(); bool legal = d && d % 2 == 0 && d <= P.prof().ProcessorCount(); R r = call([&] { P.degree(d); }); size_t is = P.prof().ParallelMaxDegree(); if (legal && par) { P.prof().IsParallel() = true; }
		if (legal != r.ok() || is != (legal ? d : was) || (!r.ok() && r.o != Out::crypto)) sim::violation("parallel:degree", "%s on %zu processors: ParallelMaxDegree(%zu) %s, and the degree went from %zu to %zu", s.name().c_str(), P.prof().ProcessorCount(), d, r.ok() ? "was accepted" : r.what.c_str(), was, is);
	}
	size_t pbs = P.prof().ParallelBlockSize(), blk = P.block(); unsigned msgs = sim::pick_range(1, 3);
	if (pbs > 70000) { pbs = P.prof().ParallelMinimumSize(); P.prof().SetBlockSize(pbs); }
	sim::log("%s %s par %d degree %zu pbs %zu", s.name().c_str(), enc ? "encrypt" : "decrypt", par, P.prof().ParallelMaxDegree(), pbs);
	sim::count((std::string("op.") + fam_name(s.fam)).c_str());
	std::unique_ptr<Ref> ref; Bytes iv; if (!s.stream() && s.fam != F_HBA) { ref.reset(new Ref(s.bc, k)); iv = k.nonce; }
	Bytes tagp, tagq; { auto a = sk(k), b = sk(k); P.init(enc, *a); Q.init(enc, *b); }
	size_t ts = P.tag_size();
	std::unique_ptr<Sym> X; // an encryptor that produces authenticated input for a decrypting session
	if (s.aead() && !enc) { X.reset(new Sym(make(s))); par_off(X->prof()); auto a = sk(k); X->init(true, *a); }
	for (unsigned m = 0; m < msgs; ++m) {
		size_t n = pick_len(P, par ? pbs : blk * 4, blk, s.ragged() && (m + 1 == msgs || s.aead())), io = sim::pick(3) ? sim::pick(40) : 0, tail = sim::pick(20);
		size_t ilen = n + (enc ? 0 : ts), olen = n + (enc ? ts : 0);
		Bytes data = sim::bytes(n), aad; if (s.aead() && sim::chance(1, 2)) { aad = sim::bytes(1 + sim::pick(50)); }
		if (m && s.fam == F_GCM) { k.nonce = sim::bytes(12); auto a = sk(k), b = sk(k); P.init(enc, *a); Q.init(enc, *b); if (X) { auto c = sk(k); X->init(true, *c); } }
		if (aad.size()) { P.aad(aad, 0, aad.size()); Q.aad(aad, 0, aad.size()); if (X) X->aad(aad, 0, aad.size()); }
		Bytes in = sim::bytes(io); if (X) { Bytes c(n + ts); X->xf(data, 0, c, 0, n); in.insert(in.end(), c.begin(), c.end()); } else { in.insert(in.end(), data.begin(), data.end()); in.resize(io + ilen); }
		Bytes inq = in; Guarded op(sim::pick(3) ? sim::pick(40) : 0, olen, tail), oq(sim::pick(40), olen, tail);
		sim::log("message %u: %zu bytes at %zu -> %zu, aad %zu", m, n, io, op.off, aad.size());
		P.xf(in, io, op.v, op.off, n); Q.xf(inq, io, oq.v, oq.off, n);
		if (par && n >= pbs && sim::live_threads()) sim::nontrivial();
		op.check("parallel:stray-write", olen); SIM_CHECK(in == inq, "parallel:input-changed", "%s changed its input", s.name().c_str());
		Bytes rp = op.data(), rq = oq.data(); long df = first_diff(rp, rq);
		if (df >= 0) sim::violation((std::string("parallel:differs:") + fam_name(s.fam)).c_str(), "%s %s: message %u of %zu bytes (parallel block %zu, degree %zu, input offset %zu, output offset %zu): parallel and sequential output differ from byte %ld on", s.name().c_str(), enc ? "encrypt" : "decrypt", m, n, pbs, P.prof().ParallelMaxDegree(), io, op.off, df);
		if (s.aead()) { tagp = P.tag(); tagq = Q.tag(); SIM_CHECK(tagp == tagq, "parallel:tag-differs", "%s: message %u of %zu bytes: tags differ", s.name().c_str(), m, n); }
		if (X || (s.aead() && !enc)) SIM_CHECK(slice(rp, 0, n) == data, "parallel:decrypt-wrong", "%s: authenticated plaintext is not what was sealed (message %u of %zu bytes)", s.name().c_str(), m, n);
		if (ref) {
			Bytes e(n), t; if (s.fam == F_GCM) { if (enc) { GcmRef(*ref).seal(k.nonce, aad, data, e, t); e.insert(e.end(), t.begin(), t.end()); } else e = data; }
			else ref->run(s.fam, enc, s.reg, iv, in.data() + io, e.data(), n);
			long d = first_diff(rp, e); if (d >= 0) sim::violation((std::string("parallel:model:") + fam_name(s.fam)).c_str(), "%s %s: message %u of %zu bytes (input offset %zu, output offset %zu) differs from the block-at-a-time model from byte %ld on", s.name().c_str(), enc ? "encrypt" : "decrypt", m, n, io, op.off, d);
		}
	}
}
SCENARIO(parallel_for, "C01,C18", "more than one worker thread ran the body")
{
	sim::random_machine(); sim::sched_random();
	size_t from = sim::pick(5), n = sim::pick(13), calls = 1 + sim::pick(3);
	for (size_t c = 0; c < calls; ++c) {
		std::vector<uint32_t> hit(from + n + 1, 0); uint32_t extra = 0; bool thr = false;
		if (sim::fault("thread_create", 1, 3)) { sim::arm_thread(1 + sim::fpick(6), 1 + sim::fpick(3)); thr = true; }
		Tools::ParallelTools::ParallelFor(from, from + n, [&](size_t i) { sim::yield(); if (i < hit.size()) ++hit[i]; else __atomic_add_fetch(&extra, 1, __ATOMIC_RELAXED); sim::yield(); });
		if (thr) { if (sim::thread_fault_fired()) sim::count("probe.thread_create_failed"); sim::arm_thread(-1); }
		if (n > 1) sim::nontrivial();
		SIM_CHECK(!extra, "parallelfor:range", "the body ran for an index outside [%zu, %zu)", from, from + n);
		for (size_t i = 0; i < hit.size(); ++i) { uint32_t want = i >= from && i < from + n; SIM_CHECK(hit[i] == want, "parallelfor:count", "index %zu of [%zu, %zu) ran %u times before the call returned", i, from, from + n, hit[i]); }
	}
}
