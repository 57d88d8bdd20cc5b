// C10: byte streams against a byte array, also on a disk that misbehaves.
#include "cx.h"
#include "FileStream.h"
#include "MemoryStream.h"
#include "SecureStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
using namespace cx;
using namespace CEX::IO;
namespace {
enum Kind { K_MEM, K_SEC, K_FILE };
const char* kind_name(int k) { static const char* n[] = {"MemoryStream", "SecureStream", "FileStream"}; return n[k]; }
struct Model {
	Bytes d; uint64_t pos = 0;
	size_t left() const { return pos < d.size() ? d.size() - pos : 0; }
	void put(const uint8_t* p, size_t n) { if (!n) return; if (d.size() < pos + n) d.resize(pos + n); memcpy(&d[pos], p, n); pos += n; }
};
struct Dut { // the stream under test, next to its model
	int k; std::unique_ptr<IByteStream> s; Model m; std::string path; FileStream::FileAccess acc = FileStream::FileAccess::ReadWrite; FileStream::FileModes mode = FileStream::FileModes::Binary;
	uint64_t dirty = UINT64_MAX; bool broken = false; // lowest unflushed byte; a reported failure left the bytes from there on unspecified
	std::string nm() const { return kind_name(k); }
	FileStream* f() { return (FileStream*)s.get(); }
	bool wr() const { return k != K_FILE || acc != FileStream::FileAccess::Read; }
	bool rd() const { return k != K_FILE || acc != FileStream::FileAccess::Write; }
	bool app() const { return k == K_FILE && mode == FileStream::FileModes::Append; }
};
std::string sg(const char* what, Dut &t) { return std::string("stream:") + what + ":" + t.nm(); }
void state(Dut &t, const char* after)
{
	uint64_t l = t.s->Length(), p = t.s->Position();
	if (l != t.m.d.size()) sim::violation(sg("length", t).c_str(), "%s: Length is %llu after %s, %zu bytes are stored", t.nm().c_str(), (unsigned long long)l, after, t.m.d.size());
	if (p != t.m.pos) sim::violation(sg("position", t).c_str(), "%s: Position is %llu after %s, expected %llu", t.nm().c_str(), (unsigned long long)p, after, (unsigned long long)t.m.pos);
}
Bytes all_of(Dut &t) // everything the stream holds, read by its own means
{
	if (t.k == K_MEM) return ((MemoryStream*)t.s.get())->ToArray();
	if (t.k == K_SEC) return ((SecureStream*)t.s.get())->ToArray();
	return simos::disk::content(t.path);
}
void same(const Bytes &g, const Bytes &e, const std::string &sig, const char* what, size_t upto = SIZE_MAX)
{
	if (upto != SIZE_MAX) { // only a prefix is specified
		if (g.size() < std::min(upto, e.size())) sim::violation(sig.c_str(), "%s: %zu bytes are left, the first %zu had been stored safely", what, g.size(), std::min(upto, e.size()));
		for (size_t i = 0; i < upto && i < e.size(); ++i) if (g[i] != e[i]) sim::violation(sig.c_str(), "%s: byte %zu of %zu safely stored ones changed", what, i, upto);
		return;
	}
	long d = first_diff(g, e); if (d >= 0) sim::violation(sig.c_str(), "%s: %zu bytes, expected %zu, first difference at %ld (expected ..%s, got ..%s)", what, g.size(), e.size(), d, d < (long)e.size() ? hex(&e[d], e.size() - d, 4).c_str() : "", d < (long)g.size() ? hex(&g[d], g.size() - d, 4).c_str() : "");
}
void disk_faults()
{
	auto &c = simos::disk::config(); static const uint32_t lv[] = {0, 0, 1, 4, 16}; c.read_err = lv[sim::fpick(5)]; c.read_short = lv[sim::fpick(5)]; c.write_err = lv[sim::fpick(5)]; c.write_short = lv[sim::fpick(5)]; c.seek_err = lv[sim::fpick(4)]; c.open_err = lv[sim::fpick(4)]; c.close_err = lv[sim::fpick(4)];
	if (sim::fpick(4) == 3) c.capacity = sim::fpick(20000);
}
void disk_heal() { simos::disk::config() = simos::disk::Config(); }
void open_file(Dut &t, bool faulty)
{
	using A = FileStream::FileAccess; using M = FileStream::FileModes; static const A as[] = {A::ReadWrite, A::ReadWrite, A::ReadWrite, A::Read, A::Write}; static const M ms[] = {M::Binary, M::Binary, M::Binary, M::Append, M::AtEnd, M::Truncate};
	t.acc = as[sim::pick(5)]; t.mode = ms[sim::pick(6)]; if (t.acc == A::Read && (t.mode == M::Truncate || t.mode == M::Append)) t.mode = M::Binary; bool ex = simos::disk::exists(t.path); if (!ex && t.acc == A::Read) t.acc = A::ReadWrite;
	uint64_t f0 = simos::disk::faults_fired(); R r = call([&] { t.s.reset(new FileStream(t.path, t.acc, t.mode)); });
	sim::log("open access %d mode %d: %s", (int)t.acc, (int)t.mode, r.ok() ? "ok" : r.what.c_str()); bool fired = simos::disk::faults_fired() != f0;
	if (!r.ok()) { if (!fired || !faulty) sim::violation("stream:open:FileStream", "a file (existing: %d) could not be opened with access %d and mode %d on a healthy disk: %s", ex, (int)t.acc, (int)t.mode, r.what.c_str()); t.s.reset(); if (t.acc == A::Write || t.mode == M::Truncate) t.m.d = simos::disk::content(t.path); return; }
	bool cut = t.mode == M::Truncate || (t.acc == A::Write && t.mode != M::Append); if (cut) t.m.d.clear();
	t.m.pos = t.mode == M::AtEnd ? t.m.d.size() : 0; if (t.mode == M::Append) t.m.pos = t.s->Position() == t.m.d.size() ? t.m.d.size() : 0; t.dirty = UINT64_MAX; t.broken = false; state(t, "opening");
}
void make_fresh(Dut &t, int k, const char* path)
{
	t.k = k; t.path = path;
	if (k == K_FILE) { if (sim::pick(2)) { Bytes b = sim::bytes(sim::pick_size(9000)); simos::disk::put(path, b); t.m.d = b; } open_file(t, false); return; }
	Bytes b = sim::bytes(sim::pick(3) ? sim::pick_size(600) : 0); uint64_t salt = sim::pick(3) ? 0 : sim::pick(4) ? sim::pick(100000) + 1 : 0x8000000000000001ull + sim::pick(1000);
	switch (sim::pick(3)) {
	case 0: b.clear(); if (k == K_MEM) t.s.reset(sim::pick(2) ? new MemoryStream() : new MemoryStream((size_t)sim::pick(300))); else t.s.reset(sim::pick(2) ? new SecureStream() : new SecureStream((size_t)sim::pick(300), salt)); break;
	case 1: if (k == K_MEM) t.s.reset(new MemoryStream(b)); else t.s.reset(new SecureStream(b, salt)); break;
	default: { size_t o = sim::pick(20), z = sim::pick(20); Bytes w = sim::bytes(o); w.insert(w.end(), b.begin(), b.end()); Bytes u = sim::bytes(z); w.insert(w.end(), u.begin(), u.end()); if (k == K_MEM) t.s.reset(new MemoryStream(w, o, b.size())); else t.s.reset(new SecureStream(w, o, b.size(), salt)); }
	}
	t.m.d = b; t.m.pos = 0; state(t, "construction");
}
// closes, reopens and compares
void reopen(Dut &t, bool faulty)
{
	uint64_t f0 = simos::disk::faults_fired(); bool cl = sim::chance(2, 3); R r; if (cl) { r = call([&] { t.s->Close(); }); sim::log("close: %s", r.ok() ? "ok" : r.what.c_str()); if (r.ok() && !t.broken) { Bytes c = simos::disk::content(t.path); same(c, t.m.d, sg("lost", t), "content of the file after a Close that reported success"); } }
	if (cl && !r.ok() && simos::disk::faults_fired() == f0 && !t.broken) sim::violation(sg("refused", t).c_str(), "Close failed on a healthy disk: %s", r.what.c_str());
	t.s.reset(); bool fired = simos::disk::faults_fired() != f0; Bytes c = simos::disk::content(t.path);
	if (t.broken || (cl ? !r.ok() : fired)) same(c, t.m.d, sg("damaged", t), "content of the file after a reported failure", std::min<uint64_t>(t.dirty, t.m.d.size()));
	else same(c, t.m.d, sg("lost", t), "content of the file after the stream was destroyed");
	if (t.broken || fired) t.m.d = c; (void)faulty;
}
// one operation; false: the object is gone
bool step(Dut &t, bool faulty, bool alloc)
{
	unsigned op = sim::pick(13); bool file = t.k == K_FILE; uint64_t f0 = simos::disk::faults_fired(); Model before = t.m; uint64_t d0 = t.dirty; R r; std::string what; size_t n = 0;
	bool os = t.k == K_SEC && !t.m.d.empty() && sim::fault("os_weather", 1, 16); auto arm = [&] { simos::entropy().os_info_fail = os; if (alloc) sim::arm_alloc(sim::fpick(12)); }; auto disarm = [&] { sim::arm_alloc(-1); simos::entropy().os_info_fail = false; };
	bool changed_none = false; // a failed operation must leave everything as it was
	switch (op) {
	case 0: case 1: case 2: {
		if (!t.rd()) return true; n = sim::pick_size(file ? 9000 : 500); size_t off = sim::pick(3) ? sim::pick(30) : 0, want = std::min(n, t.m.left()); Guarded o(off, n, sim::pick(30)); size_t got = 0; what = "Read";
		arm(); r = call([&] { got = t.s->Read(o.v, off, n); }); disarm(); sim::log("Read %zu at %zu: %s %zu", n, off, r.ok() ? "ok" : r.what.c_str(), got);
		if (r.ok()) {
			if (got > want || (got < want && simos::disk::faults_fired() == f0)) sim::violation(sg("count", t).c_str(), "%s: Read of %zu bytes at position %llu of %zu returned %zu", t.nm().c_str(), n, (unsigned long long)t.m.pos, t.m.d.size(), got);
			o.check(sg("bounds", t).c_str(), got); if (got) same(slice(o.v, off, got), slice(t.m.d, t.m.pos, got), sg("data", t), "bytes read"); t.m.pos += got;
		} else changed_none = true;
		break; }
	case 3: case 4: case 5: {
		if (!t.wr()) return true; n = sim::pick_size(file ? 9000 : 500); if (!n && t.m.pos > t.m.d.size()) return true; size_t off = sim::pick(3) ? sim::pick(30) : 0; Bytes w = sim::bytes(off + n + sim::pick(30)); if (sim::pick(4) == 0) for (auto &x : w) if (x % 3 == 0) x = 10; else if (x % 3 == 1) x = 13; what = "Write"; if (t.app() && n) t.m.pos = t.m.d.size();
		uint64_t lo = std::min<uint64_t>(t.m.pos, t.m.d.size()); arm(); r = call([&] { t.s->Write(w, off, n); }); disarm(); sim::log("Write %zu from %zu at %llu: %s", n, off, (unsigned long long)t.m.pos, r.ok() ? "ok" : r.what.c_str());
		if (file && n) t.dirty = std::min(t.dirty, lo); if (r.ok()) t.m.put(w.data() + off, n); else changed_none = true;
		break; }
	case 6: {
		if (!t.rd() || !t.m.left()) return true; uint8_t b = 0; what = "ReadByte"; arm(); r = call([&] { b = t.s->ReadByte(); }); disarm(); sim::log("ReadByte: %s", r.ok() ? "ok" : r.what.c_str());
		if (r.ok()) { if (b != t.m.d[t.m.pos]) sim::violation(sg("data", t).c_str(), "%s: ReadByte at %llu of %zu returned %02x, stored is %02x", t.nm().c_str(), (unsigned long long)t.m.pos, t.m.d.size(), b, t.m.d[t.m.pos]); ++t.m.pos; } else changed_none = true;
		break; }
	case 7: {
		if (!t.wr()) return true; uint8_t b = sim::pick(4) ? sim::pick(256) : 10; what = "WriteByte"; if (t.app()) t.m.pos = t.m.d.size(); uint64_t lo = std::min<uint64_t>(t.m.pos, t.m.d.size()); arm(); r = call([&] { t.s->WriteByte(b); }); disarm(); sim::log("WriteByte at %llu: %s", (unsigned long long)t.m.pos, r.ok() ? "ok" : r.what.c_str());
		if (file) t.dirty = std::min(t.dirty, lo); if (r.ok()) t.m.put(&b, 1); else changed_none = true;
		break; }
	case 8: {
		unsigned o = sim::pick(3); uint64_t v, np; size_t z = t.m.d.size(); bool far = sim::pick(6) == 0;
		if (o == 0) { v = far ? z + sim::pick(200) : sim::pick((uint32_t)z + 1); np = v; } else if (o == 1) { size_t l = t.m.left(); v = far ? sim::pick(200) : sim::pick((uint32_t)l + 1); np = t.m.pos + v; } else { v = sim::pick((uint32_t)z + 1); np = z - v; }
		static const SeekOrigin os[] = {SeekOrigin::Begin, SeekOrigin::Current, SeekOrigin::End}; what = "Seek"; r = call([&] { t.s->Seek(v, os[o]); }); sim::log("Seek %llu from %u: %s", (unsigned long long)v, o, r.ok() ? "ok" : r.what.c_str()); if (r.ok()) t.m.pos = np; else changed_none = true;
		break; }
	case 9: {
		if (!t.wr() || sim::pick(2)) return true; size_t z = t.m.d.size(); n = sim::pick(3) == 0 ? z : sim::pick(2) ? sim::pick((uint32_t)z + 1) : z + sim::pick_size(file ? 9000 : 300); what = "SetLength"; uint64_t lo = std::min<uint64_t>(z, n); arm(); r = call([&] { t.s->SetLength(n); }); disarm(); sim::log("SetLength %zu of %zu: %s", n, z, r.ok() ? "ok" : r.what.c_str());
		if (r.ok()) { t.m.d.resize(n); uint64_t p = t.s->Position(); if (p == t.m.pos || p == std::min<uint64_t>(t.m.pos, n)) t.m.pos = p; if (file) t.dirty = UINT64_MAX; } else { if (file) t.dirty = std::min(t.dirty, lo); changed_none = true; }
		break; }
	case 10: {
		if (!t.rd() || sim::pick(2) || (file && t.broken)) return true; int dk = sim::pick(file || faulty ? 2 : 3); Dut u; u.k = dk; u.path = "copy"; Bytes old; what = "CopyTo";
		if (dk == K_MEM) u.s.reset(new MemoryStream()); else if (dk == K_SEC) u.s.reset(new SecureStream()); else { u.s.reset(new FileStream("copy", FileStream::FileAccess::Write)); }
		if (sim::pick(2) && dk != K_FILE) { old = sim::bytes(sim::pick(100)); u.s->Write(old, 0, old.size()); u.s->Seek(0, SeekOrigin::Begin); }
		arm(); r = call([&] { t.s->CopyTo(u.s.get()); }); disarm(); sim::log("CopyTo %s: %s", u.nm().c_str(), r.ok() ? "ok" : r.what.c_str());
		if (r.ok()) { u.m.d = t.m.d; if (old.size() > u.m.d.size()) u.m.d.insert(u.m.d.end(), old.begin() + u.m.d.size(), old.end()); if (dk == K_FILE) u.f()->Close(); same(all_of(u), u.m.d, sg("copy", t), "the destination of CopyTo"); sim::count("op.copy"); } else changed_none = true;
		break; }
	case 11: {
		if (!file) { what = "ToArray"; Bytes a; arm(); r = call([&] { a = all_of(t); }); disarm(); if (r.ok()) same(a, t.m.d, sg("data", t), "ToArray"); else changed_none = true; break; }
		if (t.acc == FileStream::FileAccess::Read) return true;
		what = "Flush"; r = call([&] { t.f()->Flush(); }); sim::log("Flush: %s", r.ok() ? "ok" : r.what.c_str()); if (r.ok()) { if (!t.broken) same(simos::disk::content(t.path), t.m.d, sg("lost", t), "content of the file after a Flush that reported success"); t.dirty = UINT64_MAX; sim::count("op.flush"); } else changed_none = true;
		break; }
	default: {
		if (sim::pick(3)) return true;
		if (file) { if (sim::pick(3) == 0) { what = "Reset"; r = call([&] { t.s->Reset(); }); if (r.ok()) t.m.pos = 0; else changed_none = true; break; } sim::count("op.reopen"); reopen(t, faulty); return false; }
		if (t.k == K_MEM && sim::pick(2)) { MemoryStream c(*(MemoryStream*)t.s.get()); same(c.ToArray(), t.m.d, sg("copy", t), "a copy of the stream"); Bytes x(1, 0x5a); c.Write(x, 0, 1); what = "writing to a copy"; break; }
		bool z = sim::pick(2); what = z ? "Reset" : "Close"; r = call([&] { if (z) t.s->Reset(); else t.s->Close(); }); if (r.ok()) { t.m.d.clear(); t.m.pos = 0; } sim::log("%s", what.c_str()); }
	}
	bool fired = simos::disk::faults_fired() != f0 || os;
	if (!r.ok()) {
		sim::count("probe.refused"); sim::nontrivial(); if (r.o == Out::std_) sim::violation(sg("exception", t).c_str(), "%s of %s failed with %s", what.c_str(), t.nm().c_str(), r.what.c_str());
		if (r.o == Out::alloc && !alloc) sim::violation(sg("refused", t).c_str(), "%s of %s ran out of memory", what.c_str(), t.nm().c_str());
		if (r.o != Out::alloc && !fired && !t.broken) sim::violation(sg("refused", t).c_str(), "%s of %zu bytes failed on a healthy disk (position %llu of %zu): %s", what.c_str(), n, (unsigned long long)before.pos, before.d.size(), r.what.c_str());
		if (changed_none) {
			t.m = before; if (!file || (r.o == Out::alloc)) { if (t.k != K_FILE) { state(t, (what + ", which failed,").c_str()); same(all_of(t), t.m.d, sg("damaged", t), (what + " failed; content").c_str()); } return true; }
			if (t.dirty != UINT64_MAX) t.broken = true; else { uint64_t p = t.s->Position(); if (what == "CopyTo" ? p > t.m.d.size() : p < before.pos || p > before.pos + n + 1) p = before.pos; t.m.pos = p; (void)d0; }
		}
		if (t.broken) { disk_heal(); reopen(t, true); return false; }
		disk_heal(); state(t, (what + ", which reported a failure,").c_str()); return true;
	}
	if (!t.broken) state(t, what.c_str()); return true;
}
}
SCENARIO(stream_model, "C10", "the stream was written or resized after its construction")
{
	sim::machine().rdrand = true; simos::reset(); sim::StepLimit lim(60000000); int k = sim::pick(2); Dut t; make_fresh(t, k, ""); bool alloc = sim::chance(1, 3); sim::count((std::string("op.") + t.nm()).c_str()); unsigned ops = sim::pick_range(2, k == K_SEC ? 12 : 30); sim::log("%s, %zu bytes, allocation faults %d", t.nm().c_str(), t.m.d.size(), alloc);
	Bytes first = t.m.d; for (unsigned i = 0; i < ops; ++i) { step(t, false, alloc && sim::chance(1, 2)); if (t.m.d != first) sim::nontrivial(); }
	same(all_of(t), t.m.d, sg("data", t), "final content");
}
SCENARIO(file_model, "C10", "the file was written, resized or opened again after it was created")
{
	sim::machine(); simos::reset(); disk_heal(); simos::disk::remove_all(); sim::StepLimit lim(60000000); Dut t; make_fresh(t, K_FILE, "data.bin"); bool faulty = sim::chance(1, 2); unsigned ops = sim::pick_range(2, 30); sim::count(faulty ? "op.FileStream_faulty" : "op.FileStream"); Bytes first = t.m.d;
	for (unsigned i = 0; i < ops; ++i) {
		if (faulty && sim::fault("disk_weather", 1, 3)) disk_faults(); else disk_heal();
		if (!t.s) { open_file(t, faulty); continue; }
		if (!step(t, faulty, false)) sim::nontrivial(); if (t.m.d != first) sim::nontrivial();
	}
	disk_heal(); if (t.s) { reopen(t, false); std::string no = t.path + "x"; uint64_t fs = FileStream::FileSize(t.path); size_t cs = simos::disk::content(t.path).size(); SIM_CHECK(FileStream::FileExists(t.path) && fs == cs, "stream:file-size:FileStream", "the size of a file of %zu bytes is given as %llu", cs, (unsigned long long)fs); SIM_CHECK(!FileStream::FileExists(no) && FileStream::FileSize(no) == 0, "stream:file-size:FileStream", "a file that is not there is said to exist"); }
	SIM_CHECK(simos::disk::open_handles() == 0, "stream:handle:FileStream", "%u file handles are still open after the stream was destroyed", simos::disk::open_handles());
}
SCENARIO(reader_writer, "C10", "something was written and read back")
{
	simos::reset(); std::unique_ptr<StreamWriter> w; Model m;
	switch (sim::pick(3)) { case 0: { size_t n = sim::pick(200); w.reset(new StreamWriter(n)); m.d.resize(n); break; } case 1: { Bytes b = sim::bytes(sim::pick(200)); w.reset(new StreamWriter(b)); m.d = b; break; } default: { Bytes b = sim::bytes(sim::pick(200)); MemoryStream s(b); w.reset(new StreamWriter(s)); m.d = b; } }
	struct Item { unsigned t; uint64_t v; std::vector<uint64_t> a; }; std::vector<Item> items; unsigned n = sim::pick_range(1, 20);
	auto le = [&](uint64_t v, unsigned b) { uint8_t x[8]; for (unsigned i = 0; i < b; ++i) x[i] = (uint8_t)(v >> (8 * i)); m.put(x, b); };
	for (unsigned i = 0; i < n; ++i) {
		Item it; it.t = sim::pick(8); Bytes r = sim::bytes(8); memcpy(&it.v, r.data(), 8);
		switch (it.t) {
		case 0: it.v &= 0xff; w->Write((uint8_t)it.v); le(it.v, 1); break;
		case 1: it.v &= 0xffff; w->Write((uint16_t)it.v); le(it.v, 2); break;
		case 2: it.v &= 0xffffffff; w->Write((uint32_t)it.v); le(it.v, 4); break;
		case 3: w->Write((uint64_t)it.v); le(it.v, 8); break;
		default: { unsigned b = 1u << (it.t - 4); size_t z = sim::pick(12); for (size_t j = 0; j < z; ++j) { Bytes q = sim::bytes(8); uint64_t v; memcpy(&v, q.data(), 8); if (b < 8) v &= (1ull << (8 * b)) - 1; it.a.push_back(v); }
			if (b == 1) { std::vector<uint8_t> a(it.a.begin(), it.a.end()); w->Write(a); } else if (b == 2) { std::vector<uint16_t> a(it.a.begin(), it.a.end()); w->Write(a); } else if (b == 4) { std::vector<uint32_t> a(it.a.begin(), it.a.end()); w->Write(a); } else { std::vector<uint64_t> a(it.a.begin(), it.a.end()); w->Write(a); }
			for (uint64_t v : it.a) le(v, b); }
		}
		items.push_back(it); sim::log("write kind %u, %zu elements", it.t, it.a.size());
		SIM_CHECK(w->Position() == m.pos, "stream:position:StreamWriter", "Position is %zu, %llu bytes were written", w->Position(), (unsigned long long)m.pos); SIM_CHECK(w->Length() == m.d.size(), "stream:length:StreamWriter", "Length is %zu, expected %zu", w->Length(), m.d.size());
	}
	same(w->Generate(), m.d, "stream:data:StreamWriter", "the writer's content"); sim::nontrivial();
	bool trunc = sim::chance(1, 2); std::unique_ptr<MemoryStream> s(trunc ? w->GetStream() : new MemoryStream(w->Generate())); if (trunc) { m.d.resize(m.pos); same(s->ToArray(), m.d, "stream:data:StreamWriter", "the stream made by the writer"); }
	StreamReader rd(*s); SIM_CHECK(rd.Length() == m.d.size() && rd.Position() == 0, "stream:length:StreamReader", "a new reader reports %zu bytes at %zu", rd.Length(), rd.Position()); size_t p = 0;
	for (auto &it : items) {
		auto chk = [&](uint64_t g, uint64_t e) { if (g != e) sim::violation("stream:data:StreamReader", "value at %zu (kind %u) came back as %llx, written was %llx", p, it.t, (unsigned long long)g, (unsigned long long)e); };
		auto rb = [&](unsigned b, uint64_t e) { switch (b) { case 1: chk(sim::pick(2) ? rd.ReadByte() : rd.ReadInt<uint8_t>(), e); break; case 2: chk(rd.ReadInt<uint16_t>(), e); break; case 4: chk(rd.ReadInt<uint32_t>(), e); break; default: chk(rd.ReadInt<uint64_t>(), e); } p += b; };
		if (it.t < 4) rb(1u << it.t, it.v); else { unsigned b = 1u << (it.t - 4); if (sim::pick(2)) for (uint64_t v : it.a) rb(b, v); else { size_t z = b * it.a.size(); Bytes g = rd.ReadBytes(z); same(g, slice(m.d, p, z), "stream:data:StreamReader", "ReadBytes"); p += z; } }
		SIM_CHECK(rd.Position() == p, "stream:position:StreamReader", "Position is %zu after %zu bytes were read", rd.Position(), p);
	}
}
