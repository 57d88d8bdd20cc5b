// Simulator internals shared by rt.cpp, os.cpp, net.cpp, file.cpp and main.cpp.
#pragma once
#include "rt.h"
#include <pthread.h>
namespace sim {
constexpr uint32_t CAP_W = 1 << 16, CAP_S = 1 << 17, CAP_F = 1 << 16, CAP_LOG = 1 << 16, CAP_CNT = 192;
struct Counter { char name[48]; uint64_t v; };
enum Status : int { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_DISCARD = 3, ST_ERROR = 4 };
struct Result {
	int status; int nontrivial;
	char sig[400]; char detail[6000];
	uint64_t hash, sched_hash, steps, switches, preempts, sim_ns, threads;
	uint32_t nW, nS, nF, nCnt, nLog;
	uint32_t W[CAP_W], S[CAP_S], F[CAP_F];
	Counter cnt[CAP_CNT];
	char log[CAP_LOG];
};
struct RunSpec {
	const Scenario* sc; uint64_t seed; bool forced; // forced: choices come from the arrays, zero after their end
	const uint32_t *W, *S, *F; uint32_t nW, nS, nF;
};
void run_in_child(const RunSpec &spec, Result* out);   // called in a freshly forked child; does not return
const std::vector<Scenario> &scenarios();
extern bool g_thorough;
bool running();
uint64_t run_seed();
void point(const char* what);                           // schedule point
uint64_t hash64(uint64_t x);
void fd_init();
std::string callers(int skip);
}
