// C09: ranges, and no byte handed out twice.
#include "rnd.h"
namespace {
// the positions of the underlying stream the consumer may be at
struct Track {
	Bytes st; std::set<size_t> at; size_t chunk;
	Track(const Bytes &s, size_t c) : st(s), chunk(c) { at.insert(0); }
	size_t next(size_t p) const { return (p + chunk - 1) / chunk * chunk; }
	bool match(size_t p, const Bytes &o) const { return p + o.size() <= st.size() && !memcmp(&st[p], o.data(), o.size()); }
	bool take(const Bytes &o) { if (!o.size()) return true; std::set<size_t> n; for (size_t p : at) for (size_t b : {p, next(p), next(p) + chunk}) if (match(b, o)) n.insert(b + o.size()); at = n; return n.size(); }
	template <class T, class F> bool bounded(F derived) // any number of raw values, the last of which gives the result
	{
		std::set<size_t> n, seen; std::vector<size_t> q(at.begin(), at.end()); 
		for (unsigned i = 0; i < 500 && q.size() && n.size() < 60; ++i) { std::vector<size_t> q2; for (size_t p : q) for (size_t b : {p, next(p), next(p) + chunk}) { if (b + sizeof(T) > st.size()) continue; size_t e = b + sizeof(T); if (!seen.insert(e).second) continue; T v; memcpy(&v, &st[b], sizeof v); if (derived(v)) n.insert(e); q2.push_back(e); } q = q2; }
		at = n; return n.size();
	}
	size_t furthest() const { return at.size() ? *at.rbegin() : 0; }
};
template <class T> T pick_bound() { uint64_t v; switch (sim::pick(6)) { case 0: v = 1 + sim::pick(4); break; case 1: v = std::numeric_limits<T>::max(); break; case 2: v = (uint64_t)std::numeric_limits<T>::max() - sim::pick(3); break; case 3: v = 1ull << sim::pick(sizeof(T) * 8 - 1); break; case 4: v = (1ull << sim::pick(sizeof(T) * 8 - 1)) + sim::pick(3); break; default: v = ((uint64_t)sim::pick(1u << 31) << 32 | sim::pick(1u << 31)) & (uint64_t)std::numeric_limits<T>::max(); } T r = (T)v; return r < 1 ? 1 : r; }
template <class T, class NX, class N1, class N2> void typed(Track &t, const char* nm, NX nx, N1 n1, N2 n2, unsigned &spent)
{
	switch (sim::pick(3)) {
	case 0: { T v = nx(); sim::log("%s -> %lld", nm, (long long)v); Bytes b(sizeof v); memcpy(b.data(), &v, sizeof v); SIM_CHECK(t.take(b), "random:stream", "%s returned a value that is not the next of the generator's output", nm); break; }
	case 1: { T m = pick_bound<T>(), v = n1(m); sim::log("%s(%llu) -> %lld", nm, (unsigned long long)m, (long long)v); SIM_CHECK(v >= 0 && v < m, "random:range", "%s(%llu) returned %lld", nm, (unsigned long long)m, (long long)v); SIM_CHECK(t.bounded<T>([&](T r) { return (r < 0 ? -(uint64_t)r : (uint64_t)r) % (uint64_t)m == (uint64_t)v; }), "random:stream", "%s(%llu) returned %lld, which no unused value of the generator's output gives", nm, (unsigned long long)m, (long long)v); break; }
	default: { T m = pick_bound<T>(), lo = pick_bound<T>(); switch (sim::pick(4)) { case 0: lo = 0; break; case 1: lo = std::is_signed<T>::value ? (T)(0 - lo) : 0; break; case 2: lo = std::is_signed<T>::value ? std::numeric_limits<T>::min() : 0; break; default: if (lo > m) std::swap(lo, m); } T v = n2(m, lo); sim::log("%s(%lld, %lld) -> %lld", nm, (long long)m, (long long)lo, (long long)v); SIM_CHECK(v >= lo && v <= m, "random:range", "%s(%lld, %lld) returned %lld", nm, (long long)m, (long long)lo, (long long)v); SIM_CHECK(t.bounded<T>([&](T) { return true; }), "random:stream", "the generator's output ran out"); break; }
	}
	(void)spent;
}
}
SCENARIO(random_stream, "C09", "at least three requests were compared with the generator's output and a buffer refill happened")
{
	sim::random_machine(); simos::reset(); auto &e = simos::entropy(); e.stream = sim::pick(1u << 20); int k = sim::pick(3) ? (int)E_SRND : (int)(E_BCR + sim::pick(5)); Prngs pr = pick_prng(); bool rdp = sim::pick(4) == 3; Providers pv = rdp ? Providers::RDP : Providers::CSP; sim::machine().rdrand = true; sim::StepLimit lim(80000000);
	sim::log("%s %d, provider %d", ek_name(k), (int)pr, (int)pv); sim::count((std::string("op.") + ek_name(k)).c_str());
	Source a = make_source(k, pv, pr); const size_t CH = 1024; auto d = e.delivered; auto w = e.rd_delivered; unsigned resets = sim::pick(3), good = 0, spent = 0; bool refill = false; std::unordered_set<uint64_t> seen;
	for (unsigned epoch = 0;; ++epoch) {
		// the same generator, seeded by the same device bytes, asked for whole buffers
		Bytes st(CH * sim::pick_range(4, 9)); { int kk = k; if (k == E_SRND) { static const int m[] = {0, E_BCR, 0, 0, 0, 0, E_CSR256, E_CSR512, 0, E_HCR256, E_HCR256}; kk = m[(int)pr]; } auto script = [&] { e.script = d; e.rd_script = w; e.script_pos = e.rd_script_pos = 0; }; Source b; if (epoch) { b = make_source(kk, pv, pr); script(); b.reset(); } else { script(); b = make_source(kk, pv, pr); } for (size_t p = 0; p < st.size(); p += CH) b.gen(st, p, CH, false); e.script.clear(); e.rd_script.clear(); e.script_pos = e.rd_script_pos = 0; }
		for (size_t i = 0; i + 8 <= st.size(); ++i) { sim::Host h; uint64_t x; memcpy(&x, &st[i], 8); if (!seen.insert(x).second) sim::violation("random:repeated", "%s: the eight bytes at %zu of the output were handed out before", ek_name(k), i); }
		Track t(st, CH); if (epoch) for (size_t p = 1; p < CH; ++p) t.at.insert(p); // a reset may resume anywhere in the first buffer
		unsigned ops = sim::pick_range(1, 14);
		for (unsigned i = 0; i < ops; ++i) {
			if (t.furthest() + CH * 3 + 8 > st.size()) break;
			unsigned op = a.s ? sim::pick(14) : sim::pick(8) < 6 ? sim::pick(4) : 4 + sim::pick(3);
			if (op < 4) {
				size_t room = st.size() - t.furthest() - CH * 2, n = sim::pick(3) ? sim::pick(400) : sim::pick((uint32_t)std::min<size_t>(room, 2600) + 1), off = sim::pick(20), tail = sim::pick(20); bool sec = sim::chance(1, 2), whole = sim::chance(1, 3); if (whole) off = tail = 0; Guarded b(off, n, tail); SBytes sb = S(b.v);
				if (a.s && whole && sim::chance(1, 3)) b.v = a.s->Generate(n); else if (sec) { a.gen(sb, off, n, whole); b.v = U(sb); } else a.gen(b.v, off, n, whole);
				sim::log("%zu bytes at %zu%s%s", n, off, sec ? " secure" : "", whole ? " whole" : ""); b.check("random:bounds", n); SIM_CHECK(t.take(b.data()), "random:stream", "%s: %zu bytes at offset %zu are not the next unused bytes of the generator's output (or the next whole buffer)", ek_name(k), n, off);
			}
			else if (a.g) { switch (op) {
				case 4: { uint16_t v = a.g->NextUInt16(); Bytes b(2); memcpy(b.data(), &v, 2); SIM_CHECK(t.take(b), "random:stream", "%s NextUInt16 is not the next output", ek_name(k)); break; }
				case 5: { uint32_t v = a.g->NextUInt32(); Bytes b(4); memcpy(b.data(), &v, 4); SIM_CHECK(t.take(b), "random:stream", "%s NextUInt32 is not the next output", ek_name(k)); break; }
				default: { uint64_t v = a.g->NextUInt64(); Bytes b(8); memcpy(b.data(), &v, 8); SIM_CHECK(t.take(b), "random:stream", "%s NextUInt64 is not the next output", ek_name(k)); } } }
			else { auto &s = *a.s; switch (op) {
				case 4: typed<int16_t>(t, "NextInt16", [&] { return s.NextInt16(); }, [&](int16_t m) { return s.NextInt16(m); }, [&](int16_t m, int16_t l) { return s.NextInt16(m, l); }, spent); break;
				case 5: typed<uint16_t>(t, "NextUInt16", [&] { return s.NextUInt16(); }, [&](uint16_t m) { return s.NextUInt16(m); }, [&](uint16_t m, uint16_t l) { return s.NextUInt16(m, l); }, spent); break;
				case 6: typed<int32_t>(t, "NextInt32", [&] { return s.NextInt32(); }, [&](int32_t m) { return s.NextInt32(m); }, [&](int32_t m, int32_t l) { return s.NextInt32(m, l); }, spent); break;
				case 7: typed<uint32_t>(t, "NextUInt32", [&] { return s.NextUInt32(); }, [&](uint32_t m) { return s.NextUInt32(m); }, [&](uint32_t m, uint32_t l) { return s.NextUInt32(m, l); }, spent); break;
				case 8: typed<int64_t>(t, "NextInt64", [&] { return s.NextInt64(); }, [&](int64_t m) { return s.NextInt64(m); }, [&](int64_t m, int64_t l) { return s.NextInt64(m, l); }, spent); break;
				case 9: typed<uint64_t>(t, "NextUInt64", [&] { return s.NextUInt64(); }, [&](uint64_t m) { return s.NextUInt64(m); }, [&](uint64_t m, uint64_t l) { return s.NextUInt64(m, l); }, spent); break;
				case 10: { Bytes b{sim::pick(2) ? (uint8_t)s.NextChar() : s.NextUChar()}; SIM_CHECK(t.take(b), "random:stream", "NextChar is not the next output"); break; }
				case 11: { double v = s.NextDouble(); Bytes b(8); memcpy(b.data(), &v, 8); SIM_CHECK(t.take(b), "random:stream", "NextDouble is not the next output"); break; }
				default: { size_t z = sim::pick(3), el = sim::pick(200), off = sim::pick(8), tl = sim::pick(8), sz = 2u << z; Bytes o; bool clean = true;
					auto fill = [&](auto &v) { for (auto &x : v) x = 0x5a; s.Fill(v, off, el); o.resize(el * sz); memcpy(o.data(), v.data() + off, el * sz); for (size_t j = 0; j < v.size(); ++j) if ((j < off || j >= off + el) && v[j] != 0x5a) clean = false; };
					if (sim::chance(1, 2) && z == 0) { SecureVector<uint16_t> v(off + el + tl); fill(v); } else if (z == 0) { std::vector<uint16_t> v(off + el + tl); fill(v); } else if (z == 1) { std::vector<uint32_t> v(off + el + tl); fill(v); } else { std::vector<uint64_t> v(off + el + tl); fill(v); }
					SIM_CHECK(clean, "random:bounds", "Fill wrote outside the elements asked for"); SIM_CHECK(t.take(o), "random:stream", "Fill of %zu elements of %zu bytes is not the next output", el, sz); break; } } }
			++good; if (t.furthest() > CH) refill = true;
		}
		if (!resets-- || !a.can_reset()) break;
		e.delivered.clear(); e.rd_delivered.clear(); a.reset(); d = e.delivered; w = e.rd_delivered; sim::log("reset"); sim::count("probe.reset");
	}
	if (good >= 3 && refill) sim::nontrivial();
}
SCENARIO(random_cover, "C09", "every value of a small range had the chance to appear")
{
	simos::reset(); simos::entropy().stream = sim::pick(1u << 30); Prng::SecureRandom s(Prngs::HCR, Providers::CSP); unsigned n = sim::pick_range(1, 5), lo = sim::pick(20); std::vector<unsigned> h(n), g(n); unsigned w = sim::pick(6);
	sim::log("range of %u values from %u, width %u", n, lo, w);
	for (unsigned i = 0; i < 260; ++i) {
		uint64_t v, x; switch (w) { case 0: v = s.NextInt16((int16_t)n); x = s.NextInt16((int16_t)(lo + n - 1 ? lo + n - 1 : 1), (int16_t)lo); break; case 1: v = s.NextUInt16((uint16_t)n); x = s.NextUInt16((uint16_t)(lo + n - 1 ? lo + n - 1 : 1), (uint16_t)lo); break; case 2: v = s.NextInt32((int32_t)n); x = s.NextInt32((int32_t)(lo + n - 1 ? lo + n - 1 : 1), (int32_t)lo); break; case 3: v = s.NextUInt32(n); x = s.NextUInt32(lo + n - 1 ? lo + n - 1 : 1, lo); break; case 4: v = s.NextInt64((int64_t)n); x = s.NextInt64((int64_t)(lo + n - 1 ? lo + n - 1 : 1), (int64_t)lo); break; default: v = s.NextUInt64(n); x = s.NextUInt64(lo + n - 1 ? lo + n - 1 : 1, lo); }
		SIM_CHECK(v < n, "random:range", "%llu of a range below %u", (unsigned long long)v, n); ++h[v]; if (lo + n - 1 == 0) continue; SIM_CHECK(x >= lo && x < lo + n, "random:range", "%llu of a range of %u from %u", (unsigned long long)x, n, lo); ++g[x - lo];
	}
	for (unsigned i = 0; i < n; ++i) { SIM_CHECK(h[i], "random:cover", "value %u of %u never appeared in 260 draws", i, n); if (lo + n - 1) SIM_CHECK(g[i], "random:cover", "value %u of %u from %u never appeared in 260 draws", lo + i, n, lo); }
	sim::nontrivial();
}
