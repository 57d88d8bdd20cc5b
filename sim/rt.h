// Deterministic simulator: public interface used by the scenarios and by the simulated OS, network, disk and CPU.
// One seed (or one explicit choice trace) decides every interleaving, delay, fault, datum and machine configuration of a run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- choices. Three recorded streams: W (workload and machine configuration), S (schedule), F (faults).
// Value 0 is always the simplest choice (smallest, no preemption, no fault): the shrinker moves towards zero.
uint32_t pick(uint32_t n);                        // W: 0..n-1
uint32_t pick_range(uint32_t lo, uint32_t hi);    // W: lo..hi
bool chance(uint32_t num, uint32_t den);          // W: true with probability num/den
uint32_t pick_size(uint32_t max);                 // W: sizes, biased to small and to block boundaries
bool fault(const char* kind, uint32_t num, uint32_t den); // F: true with probability num/den; counts under `kind` when it fires
uint32_t fpick(uint32_t n);                       // F: 0..n-1
void fill(void* p, size_t n);                     // W: deterministic bytes derived from one draw
std::vector<uint8_t> bytes(size_t n);
void fill_from(uint64_t key, void* p, size_t n);  // pure function of key

// ---- verdicts
[[noreturn]] void violation(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char* why);       // the run explored nothing of interest (still counted)
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log: hashed, kept in the replay file
void count(const char* name, uint64_t n = 1);     // named counters ("fault.*", "probe.*", "op.*")
void nontrivial();                                // this run satisfied the scenario's rule
void mix(uint64_t v);                             // folds a value into the run hash

// ---- machine configuration, set by the scenario before it touches CEX
struct Machine {
	unsigned cores = 4;         // hardware_concurrency
	unsigned l1_kb = 32;        // L1 data cache per core reported by cpuid
	unsigned l2_kb = 256;
	bool aes = true, avx2 = true, sha = false, rdrand = true, ht = false;
	bool tsc_stuck = false;     // timestamp counter does not advance
	uint32_t tsc_noise = 64;    // jitter range
};
Machine &machine();
void random_machine();          // draws one

// ---- schedule
enum class Sched { none, coarse, fine, pct };
void sched_random();            // draws the strategy for this run
void sched_set(Sched s);
unsigned live_threads();        // simulated threads that have not finished, this one included
unsigned unjoined_threads();
uint64_t now_ns();
void advance_ns(uint64_t ns);
void yield();                   // voluntary schedule point
bool wait_quiesce(uint64_t max_ns); // sleeps in simulated time until every other thread finished (false: timed out)
void set_max_steps(uint64_t n); // step budget of the run: exceeding it is a liveness violation ("stuck")
uint64_t steps();
struct StepLimit { uint64_t old; StepLimit(uint64_t n); ~StepLimit(); };  // budget for a section
struct Thread { void* h; };
Thread spawn(std::function<void()> f, const char* name);
void join(Thread t);

// ---- blocking primitives for the simulated OS (network etc.)
struct WaitQ { uint32_t id = 0; };
// blocks the calling thread until wake(q) or the deadline (ns; UINT64_MAX: none). false: timed out
bool block_on(WaitQ &q, uint64_t deadline_ns, const char* what);
void wake(WaitQ &q, bool all = true);
void at(uint64_t t_ns, std::function<void()> f);  // event at simulated time t
void sync_release(const void* a);                 // happens-before edges made by the simulated OS
void sync_acquire(const void* a);

// ---- faults that live inside the runtime
struct AllocFaults { int64_t fail_at = -1; uint32_t fail_run = 1; }; // n-th allocation made while armed fails (and the next fail_run-1)
void arm_alloc(int64_t nth, uint32_t run = 1, size_t size = 0); // counts from here, only blocks of this size if given; -1 disarms
bool alloc_fault_fired();
void arm_thread(int64_t nth, uint32_t run = 1);   // n-th thread creation fails with EAGAIN
bool thread_fault_fired();
uint64_t alloc_count();
struct NoFaults { int64_t a, t; NoFaults(); ~NoFaults(); }; // scenario code that must not see them
void memory_checks(bool on);    // use after free / heap overflow detection (on by default)
void race_checks(bool on);      // data race detection (on by default)
extern void (*on_free)(void* p, size_t n, uint64_t serial); // called before a block of the simulated heap is released
uint64_t alloc_serial();        // of the last block allocated
void each_live(uint64_t after, void (*f)(void* p, size_t n, uint64_t serial, void* ctx), void* ctx); // live blocks of the simulated heap, allocated after that serial
bool in_arena(uint64_t v);      // looks like a pointer into the simulated heap
void fixed_junk(int byte);      // fresh memory holds this byte; -1: differs from block to block
bool heap_block(const void* p, void** base, size_t* n);
std::string callers(int);       // the library functions on the stack
struct Host { Host(); ~Host(); };                 // code that belongs to the simulator: no schedule points, host allocator

extern bool (*exception_text)(char* sig, size_t ns, char* text, size_t nt); // describes the exception in flight, when it is of the library's own kind

// ---- scenarios
struct Scenario { const char* id; const char* property; const char* rule; void (*warm)(); void (*run)(); };
struct Reg { Reg(const Scenario &s); };
#define SCENARIO(ID, PROP, RULE) \
	static void scenario_##ID(); \
	static sim::Reg reg_##ID({#ID, PROP, RULE, nullptr, scenario_##ID}); \
	static void scenario_##ID()
#define SCENARIO_WARM(ID, PROP, RULE, WARM) \
	static void scenario_##ID(); \
	static sim::Reg reg_##ID({#ID, PROP, RULE, WARM, scenario_##ID}); \
	static void scenario_##ID()
bool thorough();
}
#define SIM_CHECK(c, sig, ...) do { if (!(c)) sim::violation(sig, __VA_ARGS__); } while (0)
