// C03: authenticated encryption over whole sessions and a faulty channel.
#include "cx.h"
using namespace cx;
namespace {
struct Msg { Bytes aad, pt, wire; };
struct Old { Bytes wire, key, aad; size_t pos; };
// what a fresh sealer, initialised with the same key and fed the same messages, produces
Bytes replay_seal(const Spec &s, const Key &k, const std::vector<Msg> &log, size_t ts)
{
	Sym f = make(s); par_off(f.prof()); auto a = sk(k); f.init(true, *a); Bytes o;
	for (auto &m : log) { if (m.aad.size()) f.aad(m.aad, 0, m.aad.size()); o.assign(m.pt.size() + ts, 0); f.xf(m.pt, 0, o, 0, m.pt.size()); }
	return o;
}
size_t msg_len(size_t blk) { switch (sim::pick(4)) { case 0: return sim::chance(1, 4) ? 0 : sim::pick_range(1, 40); case 1: return blk * sim::pick_range(1, 6); case 2: return blk * sim::pick_range(1, 20) + sim::pick((uint32_t)blk); default: return sim::pick_range(1, 700); } }
}
SCENARIO(aead_session, "C03", "at least one message was delivered after the objects had already processed another message, re-initialisation or rejection")
{
	sim::random_machine(); sim::sched_random();
	Spec s = pick_spec({F_GCM, F_HBA, F_CSX512, F_CHACHA, F_RCS, F_RWS, F_TSX256, F_TSX512, F_TSX1024}, 1);
	Sym A = make(s), B = make(s); bool pa = false, pb = false; Key k = pick_key(A);
	if (sim::chance(1, 4)) pa = par_on(A.prof(), 1); else par_off(A.prof());
	if (sim::chance(1, 4)) pb = par_on(B.prof(), 1); else par_off(B.prof());
	sim::log("%s key %zu nonce %zu info %zu parallel %d/%d", s.name().c_str(), k.key.size(), k.nonce.size(), k.info.size(), pa, pb); sim::count((std::string("op.") + fam_name(s.fam)).c_str());
	std::unique_ptr<Ref> ref; auto newref = [&] { if (s.fam == F_GCM) ref.reset(new Ref(s.bc, k)); };
	std::vector<Bytes> used{k.nonce}; auto unique = [&] { if (k.nonce.size()) while (std::find(used.begin(), used.end(), k.nonce) != used.end()) for (auto &b : k.nonce) if (++b) break; used.push_back(k.nonce); }; // a nonce never comes back, or a replay would be genuine
	auto init = [&](Sym &c, bool enc, const Key &q) { auto a = sk(q); c.init(enc, *a); };
	init(A, true, k); init(B, false, k); newref(); std::vector<Msg> log; size_t ts = A.tag_size(), ots = ts; unsigned hist = 0; bool fresh = true;
	std::vector<Old> old; Old* was = nullptr; // earlier messages, for replays
	unsigned n = sim::pick_range(1, 7);
	for (unsigned i = 0; i < n; ++i) {
		// ---- re-initialisation
		unsigned re = sim::pick(6); bool must = s.fam == F_GCM && !fresh;
		if (re >= 3 || must) {
			if (sim::chance(1, 4) && A.initialized()) { Bytes d = sim::bytes(1 + sim::pick(30)); A.aad(d, 0, d.size()); sim::log("abandoned associated data on the sealer"); sim::count("probe.abandoned_aad"); }
			if (sim::chance(1, 4) && B.initialized()) { Bytes d = sim::bytes(1 + sim::pick(30)); B.aad(d, 0, d.size()); sim::log("abandoned associated data on the opener"); }
			if (re == 5) { Key z = pick_key(A); k = z; unique(); init(A, true, k); init(B, false, k); newref(); sim::log("new key, nonce %zu", k.nonce.size()); sim::count("op.rekey"); }
			else if (s.fam == F_GCM && re >= 3 && sim::chance(1, 2)) { k.nonce = sim::bytes(sim::chance(1, 2) ? 12 : sim::pick_range(10, 40)); unique(); Key q; q.nonce = k.nonce; init(A, true, q); init(B, false, q); sim::log("new nonce of %zu bytes under the installed key", k.nonce.size()); sim::count("op.nonce_only"); }
			else { if (k.nonce.size()) k.nonce = sim::bytes(k.nonce.size()); unique(); init(A, true, k); init(B, false, k); sim::log("same key, new nonce"); sim::count("op.renonce"); }
			if (sim::chance(1, 6)) { init(A, true, k); init(B, false, k); sim::log("initialised twice"); }
			log.clear(); ++hist; fresh = true;
		}
		// ---- seal
		ts = A.tag_size(); if (ts != ots) { old.clear(); ots = ts; }
		Msg m; m.pt = sim::bytes(msg_len(A.block())); if (sim::chance(1, 2)) m.aad = sim::bytes(1 + sim::pick(70));
		Bytes in = sim::bytes(sim::pick(2) ? sim::pick(30) : 0); size_t io = in.size(); in.insert(in.end(), m.pt.begin(), m.pt.end());
		Bytes ab = sim::bytes(sim::pick(2) ? sim::pick(90) : 0); size_t ao = ab.size(); ab.insert(ab.end(), m.aad.begin(), m.aad.end());
		if (m.aad.size()) A.aad(ab, ao, m.aad.size());
		Guarded w(sim::pick(2) ? sim::pick(30) : 0, m.pt.size() + ts, sim::pick(20)); A.xf(in, io, w.v, w.off, m.pt.size()); w.check("aead:stray-write", w.len); m.wire = w.data(); fresh = false;
		log.push_back(m); sim::log("message %u: %zu bytes, aad %zu at %zu", i, m.pt.size(), m.aad.size(), ao);
		SIM_CHECK(A.tag() == slice(m.wire, m.pt.size(), ts), "aead:tag-accessor", "%s: the tag the sealer reports is not the one it appended", s.name().c_str());
		Bytes e, t; if (s.fam == F_GCM) { GcmRef(*ref).seal(k.nonce, m.aad, m.pt, e, t); e.insert(e.end(), t.begin(), t.end()); } else e = replay_seal(s, k, log, ts);
		long d = first_diff(e, m.wire); if (d >= 0) sim::violation((std::string("aead:seal-history:") + fam_name(s.fam)).c_str(), "%s: message %u (%zu bytes, aad %zu) sealed by an object with a history differs from the reference from byte %ld on (%s)", s.name().c_str(), i, m.pt.size(), m.aad.size(), d, (size_t)d >= m.pt.size() ? "tag" : "ciphertext");
		// ---- channel
		Bytes wire = m.wire, aad = m.aad; size_t len = m.pt.size(); bool bad = false; was = nullptr; const char* kind = "intact";
		if (sim::fault("channel", 2, 5)) {
			bad = true;
			switch (sim::fpick(8)) {
			case 0: { size_t p = sim::fpick((uint32_t)wire.size()); wire[p] ^= 1 << sim::fpick(8); kind = p < len ? "flip_body" : "flip_tag"; break; }
			case 1: { size_t p = len + sim::fpick((uint32_t)ts); wire[p] ^= 1 << sim::fpick(8); kind = "flip_tag"; break; }
			case 2: { size_t c = 1 + sim::fpick((uint32_t)std::min<size_t>(len, 20)); if (len > c) { wire.resize(wire.size() - c); len -= c; kind = "truncate"; } else { wire[0] ^= 1; kind = "flip_body"; } break; }
			case 3: { size_t c = 1 + sim::fpick(20); if (sim::fpick(3) == 0) c = 1 + (128 - len % 128) % (16u << sim::fpick(4)); wire.resize(wire.size() + c, (uint8_t)(sim::fpick(3) ? sim::fpick(256) : 0)); len += c; kind = "extend"; break; }
			case 4: { if (aad.size()) { if (sim::fpick(2)) aad[sim::fpick((uint32_t)aad.size())] ^= 1 << sim::fpick(8); else aad.clear(); } else aad.push_back(0); if (sim::fpick(3) == 0) { aad = m.aad; static const uint8_t mk[] = {0, 0x80, 0x01, 0x06}; if (aad.size() && sim::fpick(3) == 0) aad.pop_back(); else { size_t b = 8u << sim::fpick(4), r = (b - aad.size() % b) % b; if (sim::fpick(2)) { aad.push_back(mk[sim::fpick(4)]); if (r) --r; } aad.resize(aad.size() + (r ? r : b), 0); } kind = "aad_padding"; } else kind = "aad"; break; }
			case 5: { Key q = k; if (q.nonce.size()) q.nonce[sim::fpick((uint32_t)q.nonce.size())] ^= 1 << sim::fpick(8); if (!q.nonce.size() || log.size() > 1) { wire[0] ^= 0x80; kind = "flip_body"; } else { init(B, false, q); kind = "wrong_nonce"; } break; }
			case 6: { if (old.size()) { was = &old[sim::fpick((uint32_t)old.size())]; wire = was->wire; len = wire.size() - ts; kind = "replay"; if (wire == m.wire) bad = false; } else { wire[wire.size() - 1] ^= 1; kind = "flip_tag"; } break; }
			default: { if (aad.size() && wire.size() > ts + 1) { size_t c = sim::fpick(2) ? 1 : 1 + sim::fpick((uint32_t)aad.size()); if (sim::fpick(2) && len > c) { aad.insert(aad.end(), wire.begin(), wire.begin() + c); wire.erase(wire.begin(), wire.begin() + c); len -= c; } else { wire.insert(wire.begin(), aad.end() - c, aad.end()); aad.resize(aad.size() - c); len += c; } kind = "boundary_shift"; } else { size_t p = sim::fpick((uint32_t)wire.size()); wire[p] ^= 0xff; kind = "flip_body"; } break; }
			}
			if (!strcmp(kind, "extend")) { size_t z = sim::fpick(2); if (z) { Bytes tg = slice(m.wire, m.pt.size(), ts); std::copy(tg.begin(), tg.end(), wire.end() - ts); } }
			if (!strcmp(kind, "truncate") && sim::fpick(2)) { Bytes tg = slice(m.wire, m.pt.size(), ts); std::copy(tg.begin(), tg.end(), wire.end() - ts); }
			sim::count((std::string("fault.channel_") + kind).c_str());
		}
		sim::log("channel: %s", kind);
		// ---- open
		if (aad.size()) B.aad(aad, 0, aad.size());
		Guarded p(sim::pick(2) ? sim::pick(30) : 0, len, sim::pick(20)); Bytes before = p.v; R r = call([&] { B.xf(wire, 0, p.v, p.off, len); });
		if (hist || i) sim::nontrivial();
		if (bad) {
			size_t pos = 0; for (size_t j = 0; j + 1 < log.size(); ++j) pos += log[j].pt.size();
			// only the nonce tells this message from a genuine one
			bool nonce_only = !strcmp(kind, "wrong_nonce") || (was && was->key == k.key && was->aad == aad && was->pos == pos);
			if (nonce_only) SIM_CHECK(!r.ok(), (std::string("aead:nonce-not-authenticated:") + fam_name(s.fam)).c_str(), "%s: message %u (%zu bytes, aad %zu), sealed under another nonce (%s), was accepted", s.name().c_str(), i, m.pt.size(), m.aad.size(), kind);
			SIM_CHECK(!r.ok(), (std::string("aead:forgery-accepted:") + fam_name(s.fam)).c_str(), "%s: message %u (%zu bytes, aad %zu) with channel fault %s was accepted", s.name().c_str(), i, m.pt.size(), m.aad.size(), kind);
			SIM_CHECK(r.o == Out::auth, "aead:rejection-kind", "%s: a forged message was refused with \"%s\" instead of an authentication failure", s.name().c_str(), r.what.c_str());
			SIM_CHECK(p.v == before, "aead:plaintext-released", "%s: a rejected message (%s) left output behind", s.name().c_str(), kind);
			sim::count("probe.rejected");
			old.push_back({m.wire, k.key, m.aad, pos});
			// a rejection ends the session: both ends start over
			if (k.nonce.size()) k.nonce = sim::bytes(k.nonce.size()); unique(); init(A, true, k); init(B, false, k); log.clear(); fresh = true; ++hist;
		} else {
			if (!r.ok()) sim::violation((std::string("aead:intact-rejected:") + fam_name(s.fam)).c_str(), "%s: intact message %u (%zu bytes, aad %zu, %u re-initialisations before) was refused: %s", s.name().c_str(), i, m.pt.size(), m.aad.size(), hist, r.what.c_str());
			p.check("aead:stray-write", len); SIM_CHECK(p.data() == m.pt, "aead:wrong-plaintext", "%s: message %u decrypts to something else (first difference at %ld of %zu)", s.name().c_str(), i, first_diff(p.data(), m.pt), m.pt.size());
			SIM_CHECK(B.tag() == slice(m.wire, m.pt.size(), ts), "aead:tag-accessor", "%s: the opener's tag is not the message's", s.name().c_str()); sim::count("probe.accepted"); size_t pos = 0; for (size_t j = 0; j + 1 < log.size(); ++j) pos += log[j].pt.size(); old.push_back({m.wire, k.key, m.aad, pos});
		}
	}
}
