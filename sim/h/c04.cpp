// C04: cipher output is a function of key, nonce, direction and data.
#include "cx.h"
#include "KdfFromName.h"
#include "RHX.h"
#include "SHX.h"
#include "cx.h"
using namespace cx;
namespace {
// the one-shot answer of an object without a past, and of the block-at-a-time model where there is one
Bytes oneshot(const Spec &s, const Key &k, bool enc, const Bytes &in)
{
	if (!s.stream()) { Ref r(s.bc, k); Bytes iv = k.nonce, o(in.size()); r.run(s.fam, enc, s.reg, iv, in.data(), o.data(), in.size()); return o; }
	Sym f = make(s); par_off(f.prof()); auto a = sk(k); f.init(enc, *a); Bytes o(in.size()); f.xf(in, 0, o, 0, in.size()); return o;
}
size_t total_len(size_t blk, bool ragged) { size_t n = blk * (sim::pick(4) ? sim::pick_range(1, 12) : sim::pick_range(1, 70)); if (ragged && sim::chance(1, 2)) n += sim::pick((uint32_t)blk); return n; }
bool serializes(int f) { return f == F_CSX512 || f == F_CHACHA || f == F_RCS || f == F_RWS; }
SBytes save(Sym &c) { switch (c.s.fam) { case F_CSX512: return ((Cipher::Stream::CSX512*)c.st.get())->Serialize(); case F_CHACHA: return ((Cipher::Stream::ChaChaP20*)c.st.get())->Serialize(); case F_RCS: return ((Cipher::Stream::RCS*)c.st.get())->Serialize(); default: return ((Cipher::Stream::RWS*)c.st.get())->Serialize(); } }
void restore(Sym &c, SBytes &st) { using namespace Cipher::Stream; switch (c.s.fam) { case F_CSX512: c.st.reset(new CSX512(st)); break; case F_CHACHA: c.st.reset(new ChaChaP20(st)); break; case F_RCS: c.st.reset(new RCS(st)); break; default: c.st.reset(new RWS(st)); break; } par_off(c.prof()); }
// feeds a message in pieces cut at block boundaries
Bytes feed(Sym &c, const Bytes &msg, bool enc, const char* who)
{
	size_t blk = c.block(), done = 0, n = msg.size(); Bytes out;
	while (done < n) {
		size_t left = n - done, step;
		switch (sim::pick(5)) { case 0: step = blk; break; case 1: step = left; break; case 2: step = blk * sim::pick_range(1, 4); break; case 3: step = blk * sim::pick_range(1, 20); break; default: step = blk * (sim::pick(2) ? 8 : 16); break; }
		if (step > left) step = left;
		if (sim::fault("crash", 1, 25) && serializes(c.s.fam)) { SBytes st = save(c); c.st.reset(); restore(c, st); sim::log("%s: state saved at %zu, object destroyed, resumed from the saved state", who, done); sim::count("probe.resumed"); }
		Bytes in = sim::bytes(sim::pick(3) ? 0 : sim::pick(40)); size_t io = in.size(); in.insert(in.end(), msg.begin() + done, msg.begin() + done + step); { Bytes t = sim::bytes(sim::pick(3) ? 0 : sim::pick(40)); in.insert(in.end(), t.begin(), t.end()); } Bytes in0 = in;
		Guarded o(sim::pick(3) ? 0 : sim::pick(40), step, sim::pick(40));
		if (c.m && step == 16 && c.s.fam != F_CFB && sim::chance(1, 2)) { if (io + o.off == 0 && sim::pick(2)) { if (enc) c.m->EncryptBlock(in, o.v); else c.m->DecryptBlock(in, o.v); } else if (enc) c.m->EncryptBlock(in, io, o.v, o.off); else c.m->DecryptBlock(in, io, o.v, o.off); sim::count("op.single_block_call"); }
		else c.xf(in, io, o.v, o.off, step);
		SIM_CHECK(in == in0, "history:input-changed", "%s changed its input", c.s.name().c_str()); o.check("history:stray-write", step);
		Bytes d = o.data(); out.insert(out.end(), d.begin(), d.end()); done += step; sim::log("%s: %zu bytes at %zu -> %zu", who, step, io, o.off);
	}
	return out;
}
}
SCENARIO(cipher_history, "C04", "the object had processed data before the message that is judged, or processed it in more than one call")
{
	sim::random_machine(); sim::sched_random();
	Spec s = pick_spec({F_ECB, F_CBC, F_CFB, F_OFB, F_CTR, F_ICM, F_CSX512, F_CHACHA, F_RCS, F_RWS, F_TSX256, F_TSX512, F_TSX1024}, 0);
	Sym A = make(s), B = make(s); Sym* o[2] = {&A, &B}; bool par[2]; for (int i = 0; i < 2; ++i) if (sim::chance(1, 6)) par[i] = par_on(o[i]->prof(), 1); else { par_off(o[i]->prof()); par[i] = false; }
	sim::count((std::string("op.") + fam_name(s.fam)).c_str()); sim::log("%s parallel %d/%d", s.name().c_str(), par[0], par[1]);
	Key k = pick_key(A); unsigned n = sim::pick_range(1, 5);
	for (unsigned i = 0; i < n; ++i) {
		if (i) { unsigned z = sim::pick(4); if (z == 3) { k = pick_key(A); sim::count("op.rekey"); } else if (z && k.nonce.size()) k.nonce = sim::bytes(k.nonce.size()); else sim::count("op.same_key_and_nonce"); }
		Sym &X = *o[sim::pick(2)]; bool enc = sim::chance(1, 2);
		{ auto a = sk(k); X.init(enc, *a); if (sim::chance(1, 8)) { auto b = sk(k); X.init(enc, *b); } }
		if (i && sim::chance(1, 4)) { Bytes junk = sim::bytes(X.block() * sim::pick_range(1, 5)), t(junk.size()); X.xf(junk, 0, t, 0, junk.size()); auto b = sk(k); X.init(enc, *b); sim::log("session abandoned after %zu bytes", junk.size()); sim::count("probe.abandoned"); }
		Bytes msg = sim::bytes(total_len(X.block(), s.ragged())); sim::log("session %u: %s %zu bytes", i, enc ? "encrypt" : "decrypt", msg.size());
		Bytes e = oneshot(s, k, enc, msg), g = feed(X, msg, enc, enc ? "encrypt" : "decrypt"); if (i || msg.size() > X.block()) sim::nontrivial();
		long d = first_diff(e, g); if (d >= 0) sim::violation((std::string("history:differs:") + fam_name(s.fam)).c_str(), "%s %s: session %u, %zu bytes in pieces, differs from the one-shot result of a fresh object from byte %ld on", s.name().c_str(), enc ? "encrypt" : "decrypt", i, msg.size(), d);
		if (sim::chance(1, 2)) { // and back, under another cutting
			Sym &Y = *o[sim::pick(2)]; { auto a = sk(k); Y.init(!enc, *a); } Bytes back = feed(Y, g, !enc, enc ? "decrypt" : "encrypt");
			d = first_diff(back, msg); if (d >= 0) sim::violation((std::string("history:round-trip:") + fam_name(s.fam)).c_str(), "%s: %zu bytes do not come back from byte %ld on", s.name().c_str(), msg.size(), d); sim::count("probe.round_trip");
		}
	}
}
// a stream cipher session goes on across crashes: the object is lost, only the saved state survives
static void resume(bool auth)
{
	sim::random_machine(); sim::sched_set(sim::Sched::none);
	Spec s = pick_spec({F_CSX512, F_CHACHA, F_RCS, F_RWS}, auth); Sym A = make(s), B = make(s), C = make(s); Sym* all[3] = {&A, &B, &C};
	Key k = pick_key(A); for (int i = 0; i < 3; ++i) { par_off(all[i]->prof()); auto a = sk(k); all[i]->init(i != 1, *a); }
	size_t ts = A.tag_size(); unsigned n = sim::pick_range(1, 5); sim::log("%s key %zu info %zu", s.name().c_str(), k.key.size(), k.info.size()); sim::count((std::string("op.") + fam_name(s.fam)).c_str());
	bool late = false; // a session resumed after its first message
	for (unsigned i = 0; i < n; ++i) {
		for (int j = 0; j < 2; ++j) if (sim::fault("crash", 1, 3)) { SBytes st = save(*all[j]); all[j]->st.reset(); SBytes t = st; restore(*all[j], t); sim::log("%s: saved (%zu bytes), destroyed and resumed before message %u", j ? "opener" : "sealer", st.size(), i); sim::nontrivial(); if (i) { late = true; sim::count("probe.resumed_mid_session"); } SIM_CHECK(all[j]->initialized() && all[j]->tag_size() == ts && all[j]->st->IsEncryption() == (j == 0), "resume:flags", "%s: the resumed object lost its mode", s.name().c_str()); }
		size_t len = A.block() * sim::pick_range(1, 9) + (s.auth || i + 1 == n ? sim::pick(40) : 0); Bytes m = sim::bytes(len), aad = s.auth && sim::chance(1, 2) ? sim::bytes(1 + sim::pick(40)) : Bytes(), w(len + ts), v(len + ts), p(len);
		if (aad.size()) for (auto* c : all) c->aad(aad, 0, aad.size());
		A.xf(m, 0, w, 0, len); C.xf(m, 0, v, 0, len);
		const char* kind = auth && late ? "resume:mac-history-lost:" : "resume:differs:";
		long d = first_diff(w, v); if (d >= 0) sim::violation((std::string((size_t)d >= len ? kind : "resume:differs:") + fam_name(s.fam)).c_str(), "%s: message %u of %zu bytes from a resumed sealer differs from an uninterrupted one from byte %ld on", s.name().c_str(), i, len, d);
		R r = call([&] { B.xf(w, 0, p, 0, len); }); if (!r.ok()) sim::violation((std::string(kind) + fam_name(s.fam)).c_str(), "%s: the opener refused message %u: %s", s.name().c_str(), i, r.what.c_str());
		d = first_diff(p, m); if (d >= 0) sim::violation((std::string("resume:plaintext:") + fam_name(s.fam)).c_str(), "%s: message %u of %zu bytes opens wrong from byte %ld on", s.name().c_str(), i, len, d);
	}
}
SCENARIO(cipher_resume, "C04", "an unauthenticated session went on from saved state") { resume(false); }
SCENARIO(aead_resume, "C03", "an authenticated session went on from saved state") { resume(true); }
// the raw block ciphers: every call form, both directions, under re-keying
SCENARIO(block_cipher_history, "C04", "the object was initialised at least twice or processed more than one block")
{
	sim::random_machine(); sim::sched_set(sim::Sched::none);
	auto bc = pick_bc(); using namespace Enumeration; Kdfs kt = bc == BlockCiphers::RHXH256 || bc == BlockCiphers::SHXH256 ? Kdfs::HKDF256 : bc == BlockCiphers::RHXH512 || bc == BlockCiphers::SHXH512 ? Kdfs::HKDF512 : bc == BlockCiphers::RHXS256 || bc == BlockCiphers::SHXS256 ? Kdfs::SHAKE256 : bc == BlockCiphers::RHXS512 || bc == BlockCiphers::SHXS512 ? Kdfs::SHAKE512 : Kdfs::None;
	bool shx = bc == BlockCiphers::SHXH256 || bc == BlockCiphers::SHXH512 || bc == BlockCiphers::SHXS256 || bc == BlockCiphers::SHXS512; std::unique_ptr<Kdf::IKdf> kdf; std::unique_ptr<Cipher::Block::IBlockCipher> x;
	if (kt != Kdfs::None && sim::chance(1, 3)) { kdf.reset(Helper::KdfFromName::GetInstance(kt)); if (shx) x.reset(new Cipher::Block::SHX(kdf.get())); else x.reset(new Cipher::Block::RHX(kdf.get())); sim::count("probe.lent_generator"); } else x.reset(Helper::BlockCipherFromName::GetInstance(bc)); sim::log("block cipher %d%s", (int)bc, kdf ? ", lent generator" : "");
	SIM_CHECK(x->Enumeral() == bc, "block:enumeral", "block cipher %d calls itself %d", (int)bc, (int)x->Enumeral());
	unsigned n = sim::pick_range(1, 4);
	for (unsigned i = 0; i < n; ++i) {
		Cipher::SymmetricKeySize ks = x->LegalKeySizes()[sim::pick((uint32_t)x->LegalKeySizes().size())]; Key k; k.key = sim::bytes(ks.KeySize()); if (ks.InfoSize() && sim::chance(1, 3)) { k.nonce = sim::bytes(16); k.info = sim::bytes(ks.InfoSize()); }
		bool enc = sim::chance(1, 2); { auto a = sk(k); x->Initialize(enc, *a); } Ref r(bc, k); sim::log("key %zu info %zu %s", k.key.size(), k.info.size(), enc ? "encrypt" : "decrypt");
		unsigned m = sim::pick_range(1, 6);
		for (unsigned j = 0; j < m; ++j) {
			static const size_t bl[] = {16, 32, 64, 128, 256}; unsigned f = sim::pick(6); size_t len = f < 2 ? 16 : bl[f - 1]; size_t io = sim::pick(20), oo = sim::pick(20);
			Bytes in = sim::bytes(io + len), e(len); Guarded o(oo, len, sim::pick(20));
			for (size_t b = 0; b < len; b += 16) if (enc) r.E(in.data() + io + b, e.data() + b); else r.D(in.data() + io + b, e.data() + b);
			switch (f) { case 0: if (enc) x->EncryptBlock(in, io, o.v, o.off); else x->DecryptBlock(in, io, o.v, o.off); break; case 1: x->Transform(in, io, o.v, o.off); break; case 2: x->Transform256(in, io, o.v, o.off); break; case 3: x->Transform512(in, io, o.v, o.off); break; case 4: x->Transform1024(in, io, o.v, o.off); break; default: x->Transform2048(in, io, o.v, o.off); break; }
			o.check("block:stray-write", len); long d = first_diff(o.data(), e); if (i || j) sim::nontrivial();
			if (d >= 0) sim::violation("block:differs", "block cipher %d, %s of %zu bytes at %zu -> %zu after %u keys and %u calls differs from the block-at-a-time result of a fresh object from byte %ld on", (int)bc, enc ? "encryption" : "decryption", len, io, oo, i, j, d);
			// the inverse of the model is the model
			Bytes back(16); if (enc) r.D(e.data(), back.data()); else r.E(e.data(), back.data()); SIM_CHECK(back == slice(in, io, 16), "block:inverse", "block cipher %d: decryption does not invert encryption", (int)bc);
		}
	}
}
