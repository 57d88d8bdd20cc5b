// C08: failing entropy sources.
#include "rnd.h"
namespace {
struct Windows { // every 8-byte window ever handed out
	std::unordered_set<uint64_t> seen;
	bool add(const Bytes &b) { sim::Host h; bool dup = false; std::vector<uint64_t> v; for (size_t i = 0; i + 8 <= b.size(); ++i) { uint64_t x; memcpy(&x, &b[i], 8); if (!seen.insert(x).second) dup = true; } return !dup; }
};
void set_faults()
{
	auto &e = simos::entropy(); static const uint32_t lv[] = {0, 0, 2, 6, 16}; e.csp_acquire_fail = lv[sim::fpick(5)]; e.csp_gen_fail = lv[sim::fpick(5)]; e.csp_partial = lv[sim::fpick(5)]; e.rd_fail = lv[sim::fpick(5)]; if (e.rd_fail > 12) e.rd_fail = 15; e.rd_dead = sim::fpick(4) == 3; e.os_info_fail = sim::fpick(3) == 2; if (sim::fpick(8) == 7) e.csp_stuck = e.rd_stuck = true;
}
void heal() { auto &e = simos::entropy(); e.csp_acquire_fail = e.csp_gen_fail = e.csp_partial = e.rd_fail = 0; e.rd_dead = e.os_info_fail = e.csp_stuck = e.rd_stuck = false; }
bool device(int k) { return k <= E_RDRAND; }
}
SCENARIO(entropy_failure, "C08", "a device failed or gave the same answer again while a request needed it, or an unfaulted request followed")
{
	sim::random_machine(); sim::machine().rdrand = sim::pick(4) || 1; bool stuck_clock = sim::fault("fault.clock_stuck", 1, 40); sim::machine().tsc_noise = sim::pick(3) ? 64 : sim::pick_range(24, 300); simos::reset(); auto &e = simos::entropy(); e.stream = sim::pick(1u << 20);
	static const int kinds[] = {E_CSP, E_RDSEED, E_RDRAND, E_ACP, E_ECP, E_BCR, E_CSR256, E_CSR512, E_HCR256, E_HCR512, E_SRND, E_SKG, E_CJP}; int k = kinds[sim::pick(sim::pick(6) ? 12 : 13)]; static const Providers pvs[] = {Providers::CSP, Providers::RDP, Providers::ACP, Providers::ECP, Providers::CJP};
	Providers pv = pvs[sim::pick(sim::pick(10) ? 4 : 5)]; Prngs pr = pick_prng(); sim::StepLimit lim(400000000); std::string nm = ek_name(k); if (k >= E_BCR) nm += "-" + std::to_string((int)pv); sim::log("%s%s", nm.c_str(), stuck_clock ? ", clock stands still" : ""); sim::count((std::string("op.") + ek_name(k)).c_str());
	if (stuck_clock) sim::machine().tsc_stuck = true;
	bool jitter = k == E_CJP || k == E_ACP || (k >= E_BCR && (pv == Providers::CJP || pv == Providers::ACP));
	Source src; bool have = false; Windows win; unsigned ops = jitter ? sim::pick_range(1, 3) : sim::pick_range(1, 8), same = 0; bool stuck_before = false;
	for (unsigned i = 0; i <= ops; ++i) {
		heal(); bool clean = i == ops || sim::pick(3) == 0; if (!clean) set_faults(); uint64_t c0 = e.csp_bytes, w0 = e.rd_words, f0 = e.csp_failures + e.rd_failures; size_t d0 = e.delivered.size(), r0 = e.rd_delivered.size();
		if (!have) { // construct
			R r = call([&] { src = make_source(k, pv, pr); }); sim::log("construct: %s", r.ok() ? "ok" : r.what.c_str());
			if (r.o == Out::alloc || r.o == Out::std_) sim::violation(("entropy:exception:" + nm).c_str(), "%s: construction failed with %s", nm.c_str(), r.what.c_str());
			if (!r.ok()) { sim::count("probe.refused"); sim::nontrivial(); if (clean && !stuck_clock) sim::violation(("entropy:refused:" + nm).c_str(), "%s cannot be constructed while nothing fails: %s", nm.c_str(), r.what.c_str()); continue; }
			have = true; same = 0; stuck_before = false; uint64_t got = e.csp_bytes - c0 + (e.rd_words - w0) * 8; bool cspless = (k >= E_BCR && pv == Providers::CJP) || k == E_CJP;
			if (k >= E_ACP && k != E_SKG && !cspless && got < 32) sim::violation(("entropy:unseeded:" + nm).c_str(), "%s was constructed although the devices delivered only %llu bytes", nm.c_str(), (unsigned long long)got);
			continue;
		}
		unsigned op = sim::pick(8);
		if (op == 0 && src.can_reset() && !(clean && i == ops)) {
			R r = call([&] { src.reset(); }); sim::log("reset: %s", r.ok() ? "ok" : r.what.c_str()); bool cspless = (k >= E_BCR && pv == Providers::CJP) || k == E_CJP; uint64_t got = e.csp_bytes - c0 + (e.rd_words - w0) * 8;
			if (r.ok() && k >= E_ACP && !cspless && got < 32) sim::violation(("entropy:unseeded:" + nm).c_str(), "%s was reset although the devices delivered only %llu bytes", nm.c_str(), (unsigned long long)got);
			if (!r.ok()) { sim::count("probe.refused"); sim::nontrivial(); if (clean && !stuck_clock) sim::violation(("entropy:refused:" + nm).c_str(), "%s cannot be reset while nothing fails: %s", nm.c_str(), r.what.c_str()); if (k >= E_ACP && sim::chance(1, 2)) { src = Source(); have = false; } }
			continue;
		}
		if (op == 1 && !clean) { src = Source(); have = false; continue; }
		if (clean && op == 2) { // room for less than what is asked for
			size_t n = 1 + sim::pick(3000), off = sim::pick(20), room = sim::pick((uint32_t)n); Bytes b = sim::bytes(off + room), c = b; SBytes s = S(b); bool sec = k == E_SKG || sim::chance(1, 2); R r = call([&] { if (sec) src.gen(s, off, n, false); else src.gen(b, off, n, false); }); if (sec) b = U(s); sim::log("%zu bytes where there is room for %zu: %s", n, room, r.ok() ? "ok" : r.what.c_str());
			SIM_CHECK(r.o == Out::crypto && b == c, ("entropy:small-output:" + nm).c_str(), "%s: a request of %zu bytes where there is room for %zu %s", nm.c_str(), n, room, r.ok() ? "succeeded" : b != c ? "was refused and wrote to the output" : r.what.c_str()); sim::count("probe.small_output"); if (i < ops) continue;
		}
		if (op == 3 && src.p && i < ops) { // the integers of a provider
			unsigned w = sim::pick(3); uint64_t v = 0; R r = call([&] { v = w == 0 ? src.p->NextUInt16() : w == 1 ? src.p->NextUInt32() : src.p->NextUInt64(); }); size_t n = (size_t)2 << w; sim::log("integer of %zu bytes: %s", n, r.ok() ? "ok" : r.what.c_str()); sim::count("probe.integer"); if (e.csp_stuck || e.rd_stuck) stuck_before = true;
			if (!r.ok()) { sim::count("probe.refused"); same = 0; if (r.o != Out::crypto) sim::violation(("entropy:exception:" + nm).c_str(), "%s: a failing source surfaced as %s", nm.c_str(), r.what.c_str()); if (clean && !stuck_clock) sim::violation(("entropy:refused:" + nm).c_str(), "%s refused an integer while nothing fails: %s", nm.c_str(), r.what.c_str()); continue; }
			uint64_t d = 0; if (k == E_CSP) { if (e.delivered.size() - d0 < n) sim::violation(("entropy:unfilled:" + nm).c_str(), "%s returned an integer of %zu bytes, the device delivered %zu", nm.c_str(), n, e.delivered.size() - d0); memcpy(&d, &e.delivered[e.delivered.size() - n], n); } else if (device(k)) { if (e.rd_delivered.size() == r0) sim::violation(("entropy:unfilled:" + nm).c_str(), "%s returned an integer although the processor delivered nothing", nm.c_str()); d = e.rd_delivered.back(); if (n < 8) d &= ((uint64_t)1 << 8 * n) - 1; }
			if (device(k) && v != d) sim::violation(("entropy:unfilled:" + nm).c_str(), "%s: the integer of %zu bytes is %llx, the device delivered %llx", nm.c_str(), n, (unsigned long long)v, (unsigned long long)d);
			if (k == E_CSP && e.csp_stuck) { if (++same > 1) sim::violation(("entropy:repeated:" + nm).c_str(), "%s passed on the %u-th request although the device keeps answering the same", nm.c_str(), same); } else same = 0;
			continue;
		}
		size_t n = 1 + sim::pick_size(jitter && k == E_CJP ? 40 : 2500), off = sim::pick(3) ? sim::pick(20) : 0, tail = sim::pick(20); bool sec = sim::chance(1, 2), whole = sim::chance(1, 2); if (whole) off = tail = 0;
		Guarded b(off, n, tail); Bytes before = b.data(); SBytes sb = S(b.v);
		R r = call([&] { if (sec) { src.gen(sb, off, n, whole); b.v = U(sb); } else src.gen(b.v, off, n, whole); }); bool failed = e.csp_failures + e.rd_failures != f0; sim::log("%zu bytes at %zu: %s", n, off, r.ok() ? "ok" : r.what.c_str()); if (failed || e.csp_stuck || e.rd_stuck || clean) sim::nontrivial();
		bool stuck = e.csp_stuck && (device(k) || k == E_SKG);
		if (!r.ok()) {
			sim::count("probe.refused"); if (r.o != Out::crypto) sim::violation(("entropy:exception:" + nm).c_str(), "%s: a failing source surfaced as %s", nm.c_str(), r.what.c_str());
			if (clean && !stuck_clock) sim::violation(("entropy:refused:" + nm).c_str(), "%s refused %zu bytes at offset %zu of %zu while nothing fails: %s", nm.c_str(), n, off, off + n + tail, r.what.c_str());
			same = 0; continue; }
		b.check(("entropy:bounds:" + nm).c_str(), n); Bytes o = b.data(); log_bytes("out", o);
		if (device(k)) { // the bytes are those the device delivered in this call
			Bytes d; if (k == E_CSP) { if (e.delivered.size() - d0 < n) sim::violation(("entropy:unfilled:" + nm).c_str(), "%s returned %zu bytes normally, the device delivered %zu", nm.c_str(), n, e.delivered.size() - d0); d.assign(e.delivered.end() - n, e.delivered.end()); }
			else { size_t w = (n + 7) / 8; if (e.rd_delivered.size() - r0 < w) sim::violation(("entropy:unfilled:" + nm).c_str(), "%s returned %zu bytes normally, the processor delivered %zu words", nm.c_str(), n, e.rd_delivered.size() - r0); d.resize(w * 8); memcpy(d.data(), &e.rd_delivered[e.rd_delivered.size() - w], w * 8); d.resize(n); }
			SIM_CHECK(first_diff(o, d) < 0, ("entropy:unfilled:" + nm).c_str(), "%s returned normally, and byte %ld of %zu is not what the device delivered", nm.c_str(), first_diff(o, d), n);
			if (e.csp_stuck) { if (++same > 1) sim::violation(("entropy:repeated:" + nm).c_str(), "%s passed on the %u-th request although the device keeps answering the same", nm.c_str(), same); continue; } same = 0;
		}
		if (e.csp_stuck || e.rd_stuck || stuck_before) { stuck_before = true; continue; }
		for (size_t j = 0; j + 8 <= n; ++j) { static const uint8_t z[8] = {0}; if (!memcmp(&o[j], &before[j], 8) || !memcmp(&o[j], z, 8)) sim::violation(("entropy:unfilled:" + nm).c_str(), "%s returned normally and left bytes %zu to %zu of %zu unfilled", nm.c_str(), j, j + 7, n); }
		if (!win.add(o)) sim::violation(("entropy:repeated:" + nm).c_str(), "%s returned bytes it has returned before", nm.c_str());
	}
}
