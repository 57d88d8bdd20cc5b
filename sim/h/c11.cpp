// C11: stream processors against one call over the whole content, with sources and sinks of every kind.
#include "mac.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "ESP.h"
#include "FileStream.h"
#include "MemoryStream.h"
#include "PKCS7.h"
#include "SecureStream.h"
#include "X923.h"
#include "ZeroOne.h"
#include "Delegate.h"
using namespace cx;
using namespace CEX::IO;
using namespace CEX::Processing;
namespace {
// ---- a source of the caller's own making: delivers in pieces, may end early or fail
struct Pieces : IByteStream {
	Bytes d; uint64_t pos = 0; uint64_t claim, fail_at = UINT64_MAX; bool fired = false; unsigned maxp;
	Pieces(const Bytes &b, uint64_t p) : d(b), pos(p), claim(b.size()), maxp(sim::pick(3) ? sim::pick_range(1, 40) : 0) {}
	const StreamModes Enumeral() override { return StreamModes::MemoryStream; } const bool CanRead() override { return true; } const bool CanSeek() override { return true; } const bool CanWrite() override { return false; }
	const uint64_t Length() override { return claim; } const std::string Name() override { return "Pieces"; } const uint64_t Position() override { return pos; }
	void Close() override {} void Destroy() override {} void CopyTo(IByteStream*) override {} 
	size_t Read(std::vector<uint8_t> &o, size_t off, size_t n) override { if (pos >= fail_at) { fired = true; throw Exception::CryptoProcessingException("Pieces", "Read", "the device failed", Enumeration::ErrorCodes::InvalidState); } size_t left = pos < d.size() ? d.size() - pos : 0; if (n > left) n = left; if (maxp && n > 1) n = std::min<size_t>(n, 1 + sim::pick(maxp)); if (!n && pos < claim) fired = true; if (n) memcpy(&o[off], &d[pos], n); pos += n; return n; }
	uint8_t ReadByte() override { return d.at(pos++); } void Reset() override { pos = 0; } void Seek(uint64_t p, SeekOrigin) override { pos = p; } void SetLength(uint64_t) override {} void Write(const std::vector<uint8_t> &, size_t, size_t) override {} void WriteByte(uint8_t) override {}
};
enum SK { SK_MEM, SK_SEC, SK_FILE, SK_PIECES };
const char* sk_name(int k) { static const char* n[] = {"memory", "secure", "file", "pieces"}; return n[k]; }
// content preceded by `skip` bytes that are not part of the message
struct Source { int k; std::unique_ptr<IByteStream> s; Pieces* p = nullptr; bool in_file = false; };
Source source(const Bytes &d, bool faulty, const char* path)
{
	Source r; r.k = sim::pick(4); if (d.size() > 3000 && r.k == SK_SEC) r.k = SK_MEM; /* a secure stream deciphers everything on every read */ Bytes pre = sim::pick(3) ? Bytes() : sim::bytes(sim::pick(40)); size_t skip = pre.size(); Bytes b = pre; app(b, d);
	if (r.k == SK_MEM) r.s.reset(new MemoryStream(b)); else if (r.k == SK_SEC) r.s.reset(new SecureStream(b)); else if (r.k == SK_FILE) { simos::disk::put(path, b); r.s.reset(new FileStream(path, FileStream::FileAccess::Read)); }
	else { r.p = new Pieces(b, 0); r.s.reset(r.p); if (faulty && sim::fault("source_ends_early", 1, 2)) { size_t cut = sim::fpick((uint32_t)d.size()) + 1; r.p->d.resize(b.size() - cut); } else if (faulty && sim::fault("source_fails", 1, 2)) r.p->fail_at = skip + sim::fpick((uint32_t)d.size()); }
	if (skip) r.s->Seek(skip, SeekOrigin::Begin); return r;
}
struct Sink { int k; std::unique_ptr<IByteStream> s; Bytes pre; };
Sink sink(const char* path)
{
	Sink r; r.k = sim::pick(3); if (r.k == SK_MEM) r.s.reset(new MemoryStream()); else if (r.k == SK_SEC) r.s.reset(new SecureStream()); else { simos::disk::put(path, Bytes()); r.s.reset(new FileStream(path, FileStream::FileAccess::ReadWrite)); }
	if (sim::pick(4) == 0) { r.pre = sim::bytes(sim::pick_range(1, 40)); r.s->Write(r.pre, 0, r.pre.size()); } return r;
}
Bytes drained(Sink &k, const char* path) { if (k.k == SK_MEM) return ((MemoryStream*)k.s.get())->ToArray(); if (k.k == SK_SEC) return ((SecureStream*)k.s.get())->ToArray(); k.s->Close(); return simos::disk::content(path); }
struct Watch : Routing::Delegate<int32_t> { std::atomic<int> n{0}; std::atomic<int> last{0}, bad{0}; void operator()(int32_t v) override { ++n; if (v < 0 || v > 100) bad = v; last = v; } };
void faults(bool on)
{
	auto &c = simos::disk::config(); c = simos::disk::Config(); if (!on) { sim::arm_alloc(-1); sim::arm_thread(-1); return; }
	static const uint32_t lv[] = {0, 0, 0, 2, 8}; c.read_err = lv[sim::fpick(5)]; c.read_short = lv[sim::fpick(5)]; c.write_err = lv[sim::fpick(5)]; c.write_short = lv[sim::fpick(5)]; if (sim::fpick(8) == 7) c.capacity = sim::fpick(4000);
	if (sim::fault("arm_alloc", 1, 3)) sim::arm_alloc(sim::fpick(60)); if (sim::fault("arm_thread", 1, 4)) sim::arm_thread(sim::fpick(6));
}
uint64_t fired() { return simos::disk::faults_fired() + sim::alloc_fault_fired() + sim::thread_fault_fired(); }
// the call ended in an error: is there a reason, and is it told properly
void refused(const R &r, const char* who, const std::string &what, bool reason)
{
	sim::count("probe.refused"); sim::nontrivial();
	if (r.o == Out::std_ && !sim::thread_fault_fired()) sim::violation((std::string("streams:exception:") + who).c_str(), "%s failed with %s", what.c_str(), r.what.c_str());
	if (!reason) sim::violation((std::string("streams:refused:") + who).c_str(), "%s failed though nothing went wrong: %s", what.c_str(), r.what.c_str());
}
// ---- paddings, independently
using PM = Enumeration::PaddingModes;
Bytes pad(PM p, const Bytes &d) { size_t n = 16 - d.size() % 16; Bytes r = d; for (size_t i = 1; i <= n; ++i) r.push_back(p == PM::ESP ? (uint8_t)i : p == PM::PKCS7 ? (uint8_t)n : p == PM::X923 ? (i == n ? (uint8_t)n : 0) : (i == 1 ? 0x80 : 0)); return r; }

const char* pm_name(PM p) { static const char* n[] = {"none", "ESP", "PKCS7", "X923", "ZeroOne"}; return n[(int)p]; }
}
SCENARIO(cipher_stream, "C11", "a message of more than one block was processed, or a fault was injected")
{
	sim::random_machine(); sim::sched_random(); simos::reset(); faults(false); simos::disk::remove_all(); sim::StepLimit lim(200000000);
	using CM = Enumeration::CipherModes; static const CM cms[] = {CM::CTR, CM::CBC, CM::CFB, CM::ICM, CM::OFB, CM::ECB}; static const int fams[] = {F_CTR, F_CBC, F_CFB, F_ICM, F_OFB, F_ECB}; unsigned mi = sim::pick(6); Spec s; s.fam = fams[mi]; s.bc = pick_bc(); s.reg = 16; bool counter = s.fam == F_CTR || s.fam == F_ICM;
	PM pm = counter ? PM::None : (PM)sim::pick_range(s.fam == F_ECB ? 0 : 1, 4); bool own = sim::chance(1, 3); std::unique_ptr<Cipher::Block::IBlockCipher> ext; std::unique_ptr<Cipher::Block::Mode::ICipherMode> m; std::unique_ptr<Cipher::Block::Padding::IPadding> pd; std::unique_ptr<CipherStream> cs;
	if (own) {
		if (s.fam == F_ECB && pm == PM::None) pm = PM::X923; Sym q = make(s); m = std::move(q.m); ext = std::move(q.ext); using namespace Cipher::Block::Padding; if (pm == PM::ESP) pd.reset(new ESP); else if (pm == PM::PKCS7) pd.reset(new PKCS7); else if (pm == PM::ZeroOne) pd.reset(new ZeroOne); else if (pm == PM::X923 && sim::pick(2)) pd.reset(new X923);
		cs.reset(new CipherStream(m.get(), pd.get()));
	} else cs.reset(new CipherStream(s.bc, cms[mi], pm));
	std::string nm = std::string(fam_name(s.fam)) + "/" + pm_name(pm); sim::count((std::string("op.") + fam_name(s.fam)).c_str()); sim::count((std::string("op.pad_") + pm_name(pm)).c_str());
	Watch w; if (sim::pick(2)) cs->ProgressPercent += &w; bool par = sim::pick(2); auto shape = [&] { if (!par || !par_on(cs->ParallelProfile(), 2)) { par_off(cs->ParallelProfile()); return (size_t)0; } return (size_t)cs->ParallelBlockSize(); };
	sim::log("%s cipher %d, instance %d, parallel %d", nm.c_str(), (int)s.bc, own, par);
	if (sim::chance(1, 6)) { Bytes i(32), o(64); R r = call([&] { cs->Write(i, 0, o, 0); }); SIM_CHECK(r.o == Out::crypto, "streams:no-key:CipherStream", "Write before Initialize %s", r.ok() ? "reported success" : r.what.c_str()); }
	unsigned n = sim::pick_range(1, 4); Bytes back; Key backkey; std::vector<size_t> prl; bool faulty = sim::chance(1, 3);
	for (unsigned i = 0; i < n; ++i) {
		Sym q = make(s); Key k = pick_key(q); size_t pb = shape(); bool enc = sim::chance(1, 2); size_t len; switch (sim::pick(6)) { case 0: len = 1 + sim::pick(40); break; case 1: len = 16; break; case 2: len = 16 * sim::pick_range(1, 20); break; case 3: len = pb ? pb * sim::pick_range(1, 3) : 16 * sim::pick_range(1, 100); break; case 4: len = (pb ? pb * sim::pick_range(1, 3) : 160) + sim::pick(33) - 16; break; default: len = 1 + sim::pick(pb ? (uint32_t)(pb * 2) : 600); }
		if (pb > 40000) len = 1 + len % 40000; Bytes pt = sim::bytes(len); if (sim::pick(3) == 0) { size_t z = std::min<size_t>(len, 1 + sim::pick(18)); uint8_t v = (uint8_t)z; for (size_t j = 0; j < z; ++j) { unsigned t = sim::pick(4); pt[len - z + j] = t == 0 ? v : t == 1 ? (uint8_t)(j + 1) : t == 2 ? 0 : (j ? 0 : 0x80); } sim::count("probe.padding_lookalike"); }
		Bytes padded = pm == PM::None ? pt : pad(pm, pt); if (pm == PM::None && !counter) { pt.resize(std::max<size_t>(16, len / 16 * 16)); padded = pt; }
		Bytes ct(padded.size()); { Ref r(s.bc, k); Bytes iv = k.nonce; iv.resize(16); r.run(s.fam, true, 16, iv, padded.data(), ct.data(), padded.size()); }
		Bytes in = enc ? pt : ct, expect = enc ? ct : pt; bool garbage = false, odd = false;
		if (!enc && !counter && sim::chance(1, 5)) { if (sim::pick(2)) { odd = true; size_t c = 1 + sim::pick(15); if (sim::pick(2)) in.resize(in.size() - std::min(c, in.size() - 1)); else app(in, sim::bytes(c)); odd = in.size() % 16 != 0; garbage = !odd; } else { garbage = true; in = sim::bytes(in.size()); } sim::count(odd ? "probe.ragged_ciphertext" : "probe.garbage_ciphertext"); }
		if (enc && pm == PM::None && !counter && sim::chance(1, 6)) { in.resize(in.size() - 1 - sim::pick(15)); if (in.empty()) in.resize(3); odd = true; }
		if (in.size() > 16) sim::nontrivial();
		{ auto a = sk(k); cs->Initialize(enc, *a); }
		if (sim::chance(1, 8)) { MemoryStream e; MemoryStream o; R r = call([&] { cs->Write(&e, &o); }); SIM_CHECK(r.o == Out::crypto, "streams:empty:CipherStream", "an empty source %s", r.ok() ? "was accepted" : r.what.c_str()); }
		bool arr = sim::chance(1, 3); R r; Bytes got; bool reason = odd; w.bad = 0; std::string what; sim::log("%s %zu bytes%s%s, parallel block %zu, %s", enc ? "encrypt" : "decrypt", in.size(), odd ? " (ragged)" : "", garbage ? " (garbage)" : "", pb, arr ? "array" : "stream");
		if (arr) {
			size_t io = sim::pick(3) ? 0 : sim::pick(40), oo = sim::pick(3) ? 0 : sim::pick(40); Bytes a = sim::bytes(io); app(a, in); size_t room = std::max(expect.size(), in.size()); Guarded o(oo, room, counter ? sim::pick(30) : 0); what = nm + ": Write of an array of " + std::to_string(in.size()) + " bytes";
			if (sim::chance(1, 4)) o.v.resize(oo + room); faults(faulty); uint64_t f0 = fired(); r = call([&] { cs->Write(a, io, o.v, oo); }); bool f = fired() != f0 || sim::alloc_fault_fired() || sim::thread_fault_fired(); faults(false); reason |= f;
			if (r.ok()) { Bytes head(o.v.begin(), o.v.begin() + std::min(oo, o.v.size())), h0(oo); { Bytes x(oo + 1); sim::fill_from(o.key, x.data(), x.size()); } if (counter) { if (o.v.size() < oo + in.size()) sim::violation("streams:length:CipherStream", "%s: the output array shrank to %zu bytes", what.c_str(), o.v.size()); if (o.v.size() == o.off + o.len + o.tail) o.check("streams:bounds:CipherStream", in.size()); got = slice(o.v, oo, in.size()); } else { if (o.v.size() < oo) sim::violation("streams:length:CipherStream", "%s: the output array shrank to %zu bytes", what.c_str(), o.v.size()); Bytes e(oo + room); sim::fill_from(o.key, e.data(), e.size()); if (memcmp(e.data(), o.v.data(), oo)) sim::violation("streams:bounds:CipherStream", "%s changed bytes before the output offset %zu", what.c_str(), oo); got = slice(o.v, oo, o.v.size() - oo); } }
		} else {
			Source a = source(in, faulty, "in.bin"); bool inplace = a.k == SK_FILE && sim::chance(1, 3); uint64_t at = a.s->Position(); Sink o; if (inplace) { o.k = SK_FILE; o.s.reset(new FileStream("in.bin", FileStream::FileAccess::ReadWrite)); Bytes all = simos::disk::content("in.bin"); o.pre = slice(all, 0, at); o.s->Seek(at, SeekOrigin::Begin); sim::count("probe.in_place"); } else o = sink("out.bin");
			what = nm + ": Write of " + std::to_string(in.size()) + " bytes from a " + sk_name(a.k) + " stream to a " + sk_name(o.k) + " stream"; sim::log("%s -> %s%s", sk_name(a.k), sk_name(o.k), inplace ? " in place" : "");
			faults(faulty); uint64_t f0 = fired(); r = call([&] { cs->Write(a.s.get(), o.s.get()); if (o.k == SK_FILE) ((FileStream*)o.s.get())->Flush(); }); bool f = fired() != f0 || sim::alloc_fault_fired() || sim::thread_fault_fired() || (a.p && a.p->fired); faults(false); reason |= f;
			if (r.ok() && a.p && a.p->fired) sim::violation("streams:early-end:CipherStream", "%s reported success though the source ended early or failed", what.c_str());
			if (r.ok() && !f && a.s->Position() != at + in.size()) sim::violation("streams:position:CipherStream", "%s left the source at %llu of %llu", what.c_str(), (unsigned long long)a.s->Position(), (unsigned long long)(at + in.size()));
			if (r.ok()) { got = drained(o, inplace ? "in.bin" : "out.bin"); if (got.size() < o.pre.size() || memcmp(got.data(), o.pre.data(), o.pre.size())) sim::violation("streams:bounds:CipherStream", "%s changed what was in the sink before", what.c_str()); got.erase(got.begin(), got.begin() + o.pre.size()); if (inplace && got.size() > expect.size() && !garbage) got.resize(std::max(expect.size(), (size_t)0)); if (inplace && garbage) got.clear(); }
			if (inplace && garbage) garbage = true;
		}
		if (w.bad) sim::violation("streams:progress:CipherStream", "progress of %d percent was reported", (int)w.bad);
		if (!r.ok()) { refused(r, "CipherStream", what, reason || garbage); continue; }
		if (odd) sim::violation("streams:ragged:CipherStream", "%s reported success though the length is not a multiple of the block", what.c_str());
		if (garbage) { if (got.size() > in.size()) sim::violation("streams:length:CipherStream", "%s: %zu bytes came out", what.c_str(), got.size()); Bytes raw(in.size()); Ref rf(s.bc, k); Bytes iv = k.nonce; iv.resize(16); rf.run(s.fam, false, 16, iv, in.data(), raw.data(), in.size()); if (got.size() && memcmp(raw.data(), got.data(), got.size())) sim::violation((std::string("streams:differs:CipherStream:") + fam_name(s.fam)).c_str(), "%s: decrypting arbitrary blocks gives other bytes than the cipher", what.c_str()); continue; }
		long d = first_diff(got, expect); if (d >= 0) sim::violation((std::string("streams:differs:CipherStream:") + fam_name(s.fam)).c_str(), "%s (%s, parallel block %zu): %zu bytes came out, expected %zu, first difference at %ld", what.c_str(), enc ? "encrypting" : "decrypting", pb, got.size(), expect.size(), d);
	}
	cs.reset(); m.reset(); pd.reset(); SIM_CHECK(simos::disk::open_handles() == 0, "streams:handle", "%u file handles are open at the end", simos::disk::open_handles());
}
SCENARIO(digest_stream, "C11", "a message of more than one block was processed, or a fault was injected")
{
	sim::random_machine(); sim::sched_random(); simos::reset(); faults(false); simos::disk::remove_all(); sim::StepLimit lim(200000000);
	int k = sim::pick(D_COUNT); bool tree = sim::chance(1, 3) && (sim::machine().cores > 1 || (k != D_B256 && k != D_B512)); if (tree && sim::machine().cores < 2) tree = false; using D = Enumeration::Digests; static const D ds[] = {D::Blake256, D::Blake512, D::SHA2256, D::SHA2512, D::SHA3256, D::SHA3512, D::Skein256, D::Skein512, D::Skein1024};
	bool own = sim::chance(1, 3); std::unique_ptr<DigestStream> s(own ? new DigestStream(make_digest(k, tree).release()) : new DigestStream(ds[k], tree)); Watch w; if (sim::pick(2)) s->ProgressPercent += &w; size_t pb = tree ? s->ParallelBlockSize() : 0; size_t bs = make_digest(k, 0)->BlockSize(); bool faulty = sim::chance(1, 3);
	sim::count((std::string("op.") + dk_name(k)).c_str()); unsigned n = sim::pick_range(1, 4);
	for (unsigned i = 0; i < n; ++i) {
		size_t len; switch (sim::pick(5)) { case 0: len = 1 + sim::pick(40); break; case 1: len = bs * sim::pick_range(1, 4); break; case 2: len = bs * sim::pick_range(1, 4) + sim::pick(5) - 2; break; case 3: len = pb ? pb * sim::pick_range(1, 2) + sim::pick(3) - 1 : 1 + sim::pick(2000); break; default: len = 1 + sim::pick((uint32_t)bs * 8); } if (len > 150000) len = 1 + len % 150000;
		Bytes msg = sim::bytes(len), e; { Dg d = make_digest(k, tree); e.resize(d->DigestSize()); d->Compute(msg, e); } if (!tree) { Bytes f = ref_digest(k, msg); if (f.size()) e = f; } if (len > bs) sim::nontrivial();
		bool arr = sim::chance(1, 3); R r; Bytes got; bool reason = false; std::string what; w.bad = 0;
		if (arr) { size_t io = sim::pick(3) ? 0 : sim::pick(40); Bytes a = sim::bytes(io); app(a, msg); app(a, sim::bytes(sim::pick(20))); what = std::string(dk_name(k)) + ": Compute of an array of " + std::to_string(len) + " bytes at " + std::to_string(io); faults(faulty); uint64_t f0 = fired(); r = call([&] { got = s->Compute(a, io, len); }); reason = fired() != f0 || sim::alloc_fault_fired() || sim::thread_fault_fired(); faults(false); }
		else { Source a = source(msg, faulty, "in.bin"); what = std::string(dk_name(k)) + ": Compute of " + std::to_string(len) + " bytes from a " + sk_name(a.k) + " stream"; faults(faulty); uint64_t f0 = fired(); r = call([&] { got = s->Compute(a.s.get()); }); reason = fired() != f0 || sim::alloc_fault_fired() || sim::thread_fault_fired() || (a.p && a.p->fired); faults(false); if (r.ok() && a.p && a.p->fired) sim::violation("streams:early-end:DigestStream", "%s reported success though the source ended early or failed", what.c_str()); }
		sim::log("%s, tree %d: %s", what.c_str(), tree, r.ok() ? "ok" : r.what.c_str());
		if (w.bad) sim::violation("streams:progress:DigestStream", "progress of %d percent was reported", (int)w.bad);
		if (!r.ok()) { refused(r, "DigestStream", what, reason); continue; }
		if (first_diff(got, e) >= 0) sim::violation((std::string("streams:differs:DigestStream:") + dk_name(k)).c_str(), "%s (tree %d) gives another code than one call of the digest", what.c_str(), tree);
	}
}
SCENARIO(mac_stream, "C11", "a message of more than one block was processed, or a fault was injected")
{
	sim::random_machine(); sim::sched_random(); simos::reset(); faults(false); simos::disk::remove_all(); sim::StepLimit lim(200000000);
	using M = Enumeration::Macs; static const int ks[] = {M_HMAC256, M_HMAC512, M_CMAC, M_KMAC128, M_KMAC256, M_KMAC512, M_POLY}; static const M ms[] = {M::HMACSHA2256, M::HMACSHA2512, M::CMAC, M::KMAC128, M::KMAC256, M::KMAC512, M::Poly1305}; unsigned x = sim::pick(7); MSpec sp; sp.k = ks[x]; sp.bc = Enumeration::BlockCiphers::AES;
	bool own = sim::chance(1, 2); Mp mac; if (own) { sp.bc = pick_bc(); mac = make_mac(sp); } std::unique_ptr<MacStream> s(own ? new MacStream(mac.get()) : new MacStream(ms[x])); Watch w; if (sim::pick(2)) s->ProgressPercent += &w; size_t bs = make_mac(sp)->BlockSize(); bool faulty = sim::chance(1, 3), keyed = false, fin = false;
	sim::count((std::string("op.") + mk_name(sp.k)).c_str()); unsigned n = sim::pick_range(1, 5); Key k;
	for (unsigned i = 0; i < n; ++i) {
		size_t len; switch (sim::pick(4)) { case 0: len = 1 + sim::pick(40); break; case 1: len = bs * sim::pick_range(1, 4); break; case 2: len = bs * sim::pick_range(1, 4) + sim::pick(5) - 2; break; default: len = 1 + sim::pick((uint32_t)bs * 8); }
		Bytes msg = sim::bytes(len); if (len > bs) sim::nontrivial();
		bool again = !keyed && !fin && sim::pick(3) == 0; // without a key, or after a failure: an error, or the right code
		if (!again) { for (unsigned t = 0;; ++t) { k = mac_key(sp); auto a = sk(k); R r = call([&] { s->Initialize(*a); }); if (r.ok()) break; auto ls = s->LegalKeySizes(); bool legal = false; for (auto &l : ls) if (l.KeySize() == k.key.size()) legal = true; if (legal) sim::violation("streams:refused:MacStream", "%s: Initialize with a legal key of %zu bytes failed: %s", mk_name(sp.k), k.key.size(), r.what.c_str()); Key z; k.key = sim::bytes(sp.k == M_CMAC ? 32 : ls[sim::pick((uint32_t)ls.size())].KeySize()); k.nonce.clear(); k.info.clear(); auto b = sk(k); s->Initialize(*b); break; } keyed = true; }
		Bytes e; if (k.key.size()) { Mp f = make_mac(sp); auto a = sk(k); f->Initialize(*a); e.resize(f->TagSize()); f->Compute(msg, e); Bytes z = ref_mac(sp, k, msg, e.size()); if (z.size()) e = z; }
		bool arr = sim::chance(1, 3); R r; Bytes got; bool reason = again; std::string what; w.bad = 0;
		if (arr) { size_t io = sim::pick(3) ? 0 : sim::pick(40); Bytes a = sim::bytes(io); app(a, msg); app(a, sim::bytes(sim::pick(20))); what = std::string(mk_name(sp.k)) + ": Compute of an array of " + std::to_string(len) + " bytes at " + std::to_string(io); faults(faulty); uint64_t f0 = fired(); r = call([&] { got = s->Compute(a, io, len); }); reason |= fired() != f0 || sim::alloc_fault_fired(); faults(false); }
		else { Source a = source(msg, faulty, "in.bin"); what = std::string(mk_name(sp.k)) + ": Compute of " + std::to_string(len) + " bytes from a " + sk_name(a.k) + " stream"; faults(faulty); uint64_t f0 = fired(); r = call([&] { got = s->Compute(a.s.get()); }); reason |= fired() != f0 || sim::alloc_fault_fired() || (a.p && a.p->fired); faults(false); if (r.ok() && a.p && a.p->fired) sim::violation("streams:early-end:MacStream", "%s reported success though the source ended early or failed", what.c_str()); }
		sim::log("%s%s: %s", what.c_str(), again ? " without a new key" : "", r.ok() ? "ok" : r.what.c_str());
		if (w.bad) sim::violation("streams:progress:MacStream", "progress of %d percent was reported", (int)w.bad);
		fin = r.ok(); keyed = false; if (!r.ok()) { refused(r, "MacStream", what, reason); continue; }
		if (e.empty()) sim::violation("streams:no-key:MacStream", "%s before Initialize gave a code", what.c_str());
		if (first_diff(got, e) >= 0) sim::violation((std::string("streams:differs:MacStream:") + mk_name(sp.k)).c_str(), "%s%s gives another code than one call of the mac", what.c_str(), again ? " without a key" : "");
	}
	s.reset(); if (mac) { Key kk = mac_key(sp); auto a = sk(kk); mac->Initialize(*a); }
}
