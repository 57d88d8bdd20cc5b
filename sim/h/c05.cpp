// C05: a digest is a function of the message.
#include "dg.h"
using namespace cx;
namespace {
// feeds msg[from, to) through the different update calls
void feed(Digest::IDigest &d, const Bytes &msg, size_t from, size_t to, size_t blk, size_t tree)
{
	while (from < to) {
		size_t left = to - from, n;
		switch (sim::pick(7)) {
		case 0: n = left; break;
		case 1: n = 1 + sim::pick((uint32_t)blk * 2); break;
		case 2: n = blk * sim::pick_range(1, 8); break;
		case 3: n = blk * tree * sim::pick_range(1, 3) + sim::pick(3) - 1; break;
		case 4: n = 1; break;
		case 5: n = sim::pick(2) ? 4 : 8; break;
		default: n = 1 + sim::pick((uint32_t)left); break;
		}
		if (!n) n = 1; if (n > left) n = left;
		uint64_t le = 0; if (n <= 8) memcpy(&le, msg.data() + from, n);
		if (n == 1 && sim::chance(1, 2)) d.Update((uint8_t)le);
		else if (n == 4 && sim::chance(1, 2)) d.Update((uint32_t)le);
		else if (n == 8 && sim::chance(1, 2)) d.Update((uint64_t)le);
		else if (sim::chance(1, 3)) d.Update(msg, from, n);
		else { Bytes b = sim::bytes(sim::pick(20)); size_t o = b.size(); b.insert(b.end(), msg.begin() + from, msg.begin() + from + n); Bytes t = sim::bytes(sim::pick(20)); b.insert(b.end(), t.begin(), t.end()); d.Update(b, o, n); }
		if (sim::chance(1, 12)) d.Update(msg, from + n, 0);
		sim::log("update %zu", n); from += n;
	}
}
}
namespace {
// two messages for a tree of SHA2 states whose leaves absorb the same blocks: what the padding of the shorter one adds to each leaf is written out in the longer one
std::pair<Bytes, Bytes> padding_as_data(bool big, size_t d)
{
	size_t B = big ? 128 : 64, lb = big ? 16 : 8, rows = sim::pick(3); Bytes a = sim::bytes(rows * d * B + (d - 1) * B), t = sim::bytes(B - lb + sim::pick((uint32_t)lb)); Bytes m = a; app(m, t); Bytes n = a, x = t; x.push_back(0x80); x.resize(B, 0); app(n, x); uint64_t t0 = B * (1 + rows);
	auto len = [&](Bytes &b, uint64_t bytes) { for (int i = 0; i < 8; ++i) b[B - 1 - i] = (uint8_t)((bytes * 8) >> 8 * i); };
	for (size_t i = 0; i + 1 < d; ++i) { Bytes p(B, 0); p[0] = 0x80; len(p, t0 + B); app(n, p); } Bytes p(B, 0); if (!big) { p = x; } if (!big && B - lb) memset(&p[B - lb], 0, lb); len(p, t0 + t.size()); app(n, p); return {m, n};
}
}
SCENARIO(digest_history, "C05", "the object had a past, the message was fed in several calls, or worker threads took part")
{
	sim::random_machine(); sim::sched_random();
	int k = (int)sim::pick(D_COUNT); unsigned cores = sim::machine().cores; unsigned tree = cores < 2 && k <= D_B512 ? 0 : sim::pick(2) ? 0 : sim::pick(2) ? 1 : 2 * sim::pick_range(1, 8);
	Dg d = make_digest(k, tree); size_t blk = d->BlockSize(), ds = d->DigestSize(); size_t width = tree ? d->ParallelProfile().ParallelMaxDegree() : 1; if (!width) width = 1;
	sim::log("%s tree %u degree %zu cores %u parallel %d", dk_name(k), tree, width, cores, d->IsParallel()); sim::count((std::string("op.") + dk_name(k) + (tree ? "-tree" : "")).c_str());
	if (tree && (k == D_S2256 || k == D_S2512) && width > 1 && sim::chance(1, 4)) { auto p = padding_as_data(k == D_S2512, width); Bytes a(ds), b(ds); { Dg f = make_digest(k, tree); f->Compute(p.first, a); } { Dg f = make_digest(k, tree); f->Compute(p.second, b); } SIM_CHECK(a != b, (std::string("digest:padding-collision:") + dk_name(k)).c_str(), "%s (tree, degree %zu): a message of %zu bytes and one of %zu bytes that writes out the padding of its leaves have the same digest", dk_name(k), width, p.first.size(), p.second.size()); sim::count("probe.padding_as_data"); }
	unsigned n = sim::pick_range(1, 4); std::vector<std::pair<Bytes, Bytes>> seen;
	for (unsigned i = 0; i < n; ++i) {
		// what came before
		unsigned z = sim::pick(5);
		if (z == 1) { d->Reset(); sim::log("reset"); }
		else if (z == 2) { Bytes junk = sim::bytes(sim::pick((uint32_t)(blk * width * 3))); feed(*d, junk, 0, junk.size(), blk, width); d->Reset(); sim::log("message of %zu bytes abandoned", junk.size()); sim::count("probe.abandoned"); sim::nontrivial(); }
		size_t pb = tree ? d->ParallelProfile().ParallelBlockSize() : 0, len; if (pb > 80000) pb = 0; switch (sim::pick(7)) { case 6: len = pb ? pb * sim::pick_range(1, 2) + sim::pick((uint32_t)(blk * width)) : sim::pick(3000); break; case 0: len = sim::pick(40); break; case 1: len = blk * sim::pick_range(0, 5) + sim::pick(5); break; case 2: len = blk * width * sim::pick_range(1, 4) + sim::pick((uint32_t)blk * 2); break; case 3: len = blk * width * sim::pick_range(1, 3) - sim::pick((uint32_t)blk); break; case 4: len = sim::pick((uint32_t)(blk * width * 4)); break; default: len = blk * width * sim::pick_range(1, 6); break; }
		Bytes msg = sim::bytes(len); if (seen.size() && sim::chance(1, 2)) { msg = seen[sim::pick((uint32_t)seen.size())].first; len = msg.size(); if (len && sim::chance(2, 3)) { size_t p = sim::pick((uint32_t)len); if (sim::chance(1, 3)) { msg.pop_back(); } else msg[p] ^= 1 << sim::pick(8); len = msg.size(); } else if (sim::chance(1, 2)) { pad_like(msg, blk, width); len = msg.size(); sim::count("probe.padding_like"); } }
		sim::log("message %u: %zu bytes", i, len);
		Bytes e; { Dg f = make_digest(k, tree); e.resize(ds); f->Compute(msg, e); }
		if (!tree || k <= D_B512) { Bytes r = tree ? ref_blake2_tree(msg, k == D_B512, (unsigned)width) : ref_digest(k, msg); if (r.size() && first_diff(r, e) >= 0) sim::violation((std::string("digest:model:") + dk_name(k) + (tree ? "-tree" : "")).c_str(), "%s of %zu bytes in one call is not the standard digest", dk_name(k), len); }
		Guarded o(sim::pick(20), ds, sim::pick(20));
		if (sim::chance(1, 8)) { Bytes t(ds); d->Compute(msg, t); memcpy(o.v.data() + o.off, t.data(), ds); sim::log("compute"); } else { feed(*d, msg, 0, len, blk, width); if (sim::chance(1, 6)) { size_t room = sim::pick((uint32_t)ds), off = sim::pick(20); Bytes b = sim::bytes(off + room), c = b; R r = call([&] { d->Finalize(b, off); }); SIM_CHECK(r.o == Out::crypto, (std::string("digest:small-output:") + dk_name(k)).c_str(), "%s put a digest of %zu bytes where there is room for %zu", dk_name(k), ds, room); SIM_CHECK(b == c, (std::string("digest:refused-write:") + dk_name(k)).c_str(), "%s refused an output and wrote to it", dk_name(k)); sim::count("probe.small_output"); } d->Finalize(o.v, o.off); }
		o.check("digest:stray-write", ds); if (i || len > 1) sim::nontrivial();
		long df = first_diff(o.data(), e); if (df >= 0) sim::violation((std::string("digest:differs:") + dk_name(k) + (tree ? "-tree" : "")).c_str(), "%s (tree %u, degree %zu): message %u of %zu bytes fed in pieces differs from the digest of a fresh object in one call", dk_name(k), tree, width, i, len);
		for (auto &p : seen) if ((p.first == msg) != (p.second == e)) sim::violation((std::string(p.first == msg ? "digest:unstable:" : "digest:collision:") + dk_name(k) + (tree ? "-tree" : "")).c_str(), "%s (tree %u, degree %zu): %s messages of %zu and %zu bytes (first difference at %ld) have %s digests", dk_name(k), tree, width, p.first == msg ? "equal" : "different", p.first.size(), len, first_diff(p.first, msg), p.first == msg ? "different" : "equal");
		seen.push_back({msg, e});
	}
}
