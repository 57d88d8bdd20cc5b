// Entropy providers, generators and random front ends behind one face.
#pragma once
#include "cx.h"
#include "../os.h"
#include "ACP.h"
#include "BCR.h"
#include "CJP.h"
#include "CSP.h"
#include "CSR.h"
#include "CryptoRandomException.h"
#include "ECP.h"
#include "HCR.h"
#include "RDP.h"
#include "SecureRandom.h"
#include "SymmetricKeyGenerator.h"
#include <set>
#include <unordered_set>
using namespace cx;
namespace {
using Enumeration::Providers; using Enumeration::Prngs;
enum EK { E_CSP, E_RDSEED, E_RDRAND, E_ACP, E_ECP, E_CJP, E_BCR, E_CSR256, E_CSR512, E_HCR256, E_HCR512, E_SRND, E_SKG, E_COUNT };
const char* ek_name(int k) { static const char* n[] = {"CSP", "RDP-seed", "RDP-rand", "ACP", "ECP", "CJP", "BCR", "CSR256", "CSR512", "HCR256", "HCR512", "SecureRandom", "SymmetricKeyGenerator"}; return n[k]; }
struct Source {
	int k; Providers pv = Providers::CSP; Prngs pr = Prngs::BCR; Cipher::SymmetricKeyGenerator* x = nullptr;
	std::unique_ptr<Provider::IProvider> p; std::unique_ptr<Prng::IPrng> g; std::unique_ptr<Prng::SecureRandom> s; std::unique_ptr<Cipher::SymmetricKeyGenerator> y;
	void gen(Bytes &o, size_t off, size_t n, bool whole)
	{
		if (p) whole ? p->Generate(o) : p->Generate(o, off, n); else if (g) whole ? g->Generate(o) : g->Generate(o, off, n); else if (s) whole ? s->Generate(o) : s->Generate(o, off, n);
		else { SBytes b = S(o); if (whole) b = y->Generate(n); else y->Generate(b, off, n); o = U(b); }
	}
	void gen(SBytes &o, size_t off, size_t n, bool whole)
	{
		if (p) whole ? p->Generate(o) : p->Generate(o, off, n); else if (g) whole ? g->Generate(o) : g->Generate(o, off, n); else if (s) whole ? s->Generate(o) : s->Generate(o, off, n); else if (whole) o = y->Generate(n); else y->Generate(o, off, n);
	}
	bool can_reset() const { return p || g; }
	void reset() { if (p) p->Reset(); else if (g) g->Reset(); }
};
Source make_source(int k, Providers pv, Prngs pr = Prngs::BCR)
{
	using namespace Enumeration; Source r; r.k = k; r.pv = pv; r.pr = pr;
	switch (k) {
	case E_CSP: r.p.reset(new Provider::CSP); break;
	case E_RDSEED: r.p.reset(new Provider::RDP(Provider::DrandEngines::RdSeed)); break;
	case E_RDRAND: r.p.reset(new Provider::RDP(Provider::DrandEngines::RdRand)); break;
	case E_ACP: r.p.reset(new Provider::ACP); break;
	case E_ECP: r.p.reset(new Provider::ECP); break;
	case E_CJP: r.p.reset(new Provider::CJP); break;
	case E_BCR: r.g.reset(new Prng::BCR(pv)); break;
	case E_CSR256: r.g.reset(new Prng::CSR(ShakeModes::SHAKE256, pv)); break;
	case E_CSR512: r.g.reset(new Prng::CSR(ShakeModes::SHAKE512, pv)); break;
	case E_HCR256: r.g.reset(new Prng::HCR(SHA2Digests::SHA2256, pv)); break;
	case E_HCR512: r.g.reset(new Prng::HCR(SHA2Digests::SHA2512, pv)); break;
	case E_SRND: r.s.reset(new Prng::SecureRandom(pr, pv)); break;
	default: { static const SecurityPolicy po[] = {SecurityPolicy::SPL256, SecurityPolicy::SPL512, SecurityPolicy::SPL1024}; r.y.reset(new Cipher::SymmetricKeyGenerator(po[(int)pr % 3], pv)); }
	}
	return r;
}
Prngs pick_prng() { static const Prngs p[] = {Prngs::BCR, Prngs::CSR, Prngs::CSRC512, Prngs::HCR, Prngs::HCRS512}; return p[sim::pick(5)]; }
}
