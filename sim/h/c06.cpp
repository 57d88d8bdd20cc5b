// C06: a message authentication code is a function of key and message.
#include "mac.h"
namespace {
void feed(Mac::IMac &m, const Bytes &msg, size_t blk)
{
	size_t from = 0, to = msg.size();
	while (from < to) {
		size_t left = to - from, n; switch (sim::pick(6)) { case 0: n = left; break; case 1: n = 1 + sim::pick((uint32_t)blk * 2); break; case 2: n = blk * sim::pick_range(1, 4); break; case 3: n = 1; break; case 4: n = blk - from % blk; break; default: n = 1 + sim::pick((uint32_t)left); break; }
		if (n > left) n = left;
		if (sim::chance(1, 3)) m.Update(msg, from, n); else { Bytes b = sim::bytes(sim::pick(20)); size_t o = b.size(); b.insert(b.end(), msg.begin() + from, msg.begin() + from + n); app(b, sim::bytes(sim::pick(20))); m.Update(b, o, n); }
		if (sim::chance(1, 12)) m.Update(msg, from + n, 0); sim::log("update %zu", n); from += n;
	}
}
struct Seen { Key k; Bytes msg, tag; };
}
SCENARIO(mac_history, "C06", "the object had a past or the message was fed in several calls")
{
	sim::random_machine();
	MSpec s; s.k = (int)sim::pick(M_COUNT); s.bc = pick_bc(); Mp m = make_mac(s); size_t blk = s.k >= M_KPA128 ? s.rate() * 8 : m->BlockSize(); size_t ts = m->TagSize();
	SIM_CHECK(ts == s.tag(), (std::string("mac:tag-size:") + mk_name(s.k)).c_str(), "%s reports a code of %zu bytes", mk_name(s.k), ts);
	sim::log("%s cipher %d", mk_name(s.k), (int)s.bc); sim::count((std::string("op.") + mk_name(s.k)).c_str());
	std::vector<Seen> seen; unsigned n = sim::pick_range(1, 4); bool inited = false;
	for (unsigned i = 0; i < n; ++i) {
		unsigned z = sim::pick(6);
		if (z == 1) { m->Reset(); inited = false; sim::log("reset"); }
		else if (z == 2) { Key k = mac_key(s); auto a = sk(k); m->Initialize(*a); inited = true; Bytes junk = sim::bytes(sim::pick((uint32_t)blk * 3)); feed(*m, junk, blk); sim::log("message of %zu bytes abandoned", junk.size()); sim::count("probe.abandoned"); sim::nontrivial(); if (sim::chance(1, 3)) { m->Reset(); inited = false; } }
		else if (z == 3) { Cipher::SymmetricKey a(sim::bytes(sim::pick_range(1, 7))); R r = call([&] { m->Initialize(a); }); SIM_CHECK(r.o == Out::crypto, "mac:short-key-accepted", "%s took a key of %zu bytes", mk_name(s.k), (size_t)a.KeySizes().KeySize()); sim::log("short key refused"); sim::count("probe.refused_key"); }
		if (!inited && sim::chance(1, 6)) { Bytes t(ts); R r = call([&] { m->Finalize(t, 0); }); SIM_CHECK(r.o == Out::crypto, "mac:no-key", "%s returned a code without a key", mk_name(s.k)); }
		Key k = mac_key(s); size_t len; switch (sim::pick(5)) { case 0: len = sim::pick(40); break; case 1: len = blk * sim::pick_range(1, 4) - sim::pick(5); break; case 2: len = blk * sim::pick_range(0, 3) + sim::pick(5); break; case 3: len = blk * sim::pick_range(1, 6); break; default: len = sim::pick((uint32_t)blk * 5); break; }
		Bytes msg = sim::bytes(len); if (sim::chance(1, 8)) memset(msg.data(), 0xff, len); if (s.k == M_POLY && sim::chance(1, 3)) for (size_t o = 0; o < len; o += 16) { unsigned w = sim::pick(4); size_t e = std::min<size_t>(len - o, 16); if (w == 3) continue; memset(msg.data() + o, w ? 0xff : 0, e); if (w == 2) msg[o] = (uint8_t)(0xf8 + sim::pick(8)); }
		if (seen.size()) {
			auto &p = seen[sim::pick((uint32_t)seen.size())]; unsigned w = sim::pick(6); if (w) { k = p.k; msg = p.msg; }
			if (w == 2 && msg.size()) msg[sim::pick((uint32_t)msg.size())] ^= 1 << sim::pick(8);
			else if (w == 3) { if (sim::chance(1, 2) || msg.empty()) msg.push_back((uint8_t)(sim::pick(2) ? 0 : 0x80)); else msg.pop_back(); }
			else if (w == 4) { size_t at = sim::pick((uint32_t)k.key.size()); if (s.k == M_POLY) at = 16 + at % 16; k.key[at] ^= 1; }
			else if (w == 5) { if (s.k == M_GMAC || (s.keccak() && k.nonce.size())) k.nonce[sim::pick((uint32_t)k.nonce.size())] ^= 1 << sim::pick(8); }
		}
		len = msg.size(); { auto a = sk(k); m->Initialize(*a); inited = true; } SIM_CHECK(m->IsInitialized(), "mac:not-initialized", "%s is not initialised after Initialize", mk_name(s.k));
		size_t outlen = ts; if (s.keccak() && sim::chance(1, 3)) outlen = sim::pick_range((uint32_t)ts, 3 * (uint32_t)s.rate());
		sim::log("message %u: %zu bytes, key %zu, nonce %zu, info %zu, code %zu bytes", i, len, k.key.size(), k.nonce.size(), k.info.size(), outlen);
		Bytes e(outlen); { Mp f = make_mac(s); auto a = sk(k); f->Initialize(*a); f->Compute(msg, e); }
		{ Bytes r = ref_mac(s, k, msg, outlen); if (r.size() && first_diff(r, e) >= 0) sim::violation((std::string("mac:model:") + mk_name(s.k)).c_str(), "%s of %zu bytes (key %zu, nonce %zu, info %zu, code %zu bytes) in one call is not the standard code", mk_name(s.k), len, k.key.size(), k.nonce.size(), k.info.size(), outlen); }
		Bytes got; unsigned how = sim::pick(4);
		if (inited && sim::chance(1, 5)) { size_t room = sim::pick((uint32_t)ts), off = sim::pick(20); Bytes b = sim::bytes(off + room), c = b; bool sec = sim::pick(2); SBytes sb = S(b); R r = call([&] { if (sec) m->Finalize(sb, off); else m->Finalize(b, off); }); if (sec) b = U(sb); SIM_CHECK(r.o == Out::crypto, (std::string("mac:small-output:") + mk_name(s.k)).c_str(), "%s put a code of %zu bytes where there is room for %zu", mk_name(s.k), ts, room); SIM_CHECK(b == c, (std::string("mac:refused-write:") + mk_name(s.k)).c_str(), "%s refused an output and wrote to it", mk_name(s.k)); sim::count("probe.small_output"); }
		if (how == 0) { got.resize(outlen); m->Compute(msg, got); sim::log("compute"); }
		else {
			feed(*m, msg, blk); Guarded o(sim::pick(20), outlen, s.keccak() ? 0 : sim::pick(20)); // the Keccak MACs fill their output
			if (how == 1) { SBytes b(o.v.begin(), o.v.end()); m->Finalize(b, o.off); o.v.assign(b.begin(), b.end()); sim::log("secure vector"); } else m->Finalize(o.v, o.off);
			o.check("mac:stray-write", outlen); got = o.data();
		}
		inited = m->IsInitialized(); if (i || len > 1) sim::nontrivial();
		if (first_diff(got, e) >= 0) sim::violation((std::string("mac:differs:") + mk_name(s.k)).c_str(), "%s: message %u of %zu bytes fed in pieces has another code than on a fresh object in one call", mk_name(s.k), i, len);
		if (outlen == ts) {
			for (auto &p : seen) { bool same = p.k.key == k.key && p.k.nonce == k.nonce && p.k.info == k.info && p.msg == msg; 
				if (s.k < M_CMAC && !same && p.msg == msg) { Bytes a = p.k.key, b = k.key; size_t bs = s.k == M_HMAC512 ? 128 : 64; if (a.size() <= bs && b.size() <= bs) { a.resize(bs); b.resize(bs); same = a == b; } } // HMAC pads short keys with zeros
				if (!same && s.k == M_POLY && memcmp(p.k.key.data(), k.key.data(), 16)) continue; // the sum may be equal for another multiplier
				if (!same && s.k == M_POLY && p.msg != msg) { unsigned nz = 0; for (int j = 0; j < 16; ++j) nz += k.key[j] != 0; if (nz < 8) continue; } // a degenerate multiplier
				if (same != (p.tag == e)) sim::violation((std::string(same ? "mac:unstable:" : "mac:collision:") + mk_name(s.k)).c_str(), "%s: %s inputs (messages of %zu and %zu bytes, first difference %ld; keys first differ at %ld) have %s codes", mk_name(s.k), same ? "equal" : "different", p.msg.size(), len, first_diff(p.msg, msg), first_diff(p.k.key, k.key), same ? "different" : "equal"); }
			seen.push_back({k, msg, e});
		}
	}
}
