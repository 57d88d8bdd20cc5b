// Deterministic simulator runtime: choices, scheduler, simulated heap, data race and memory checks, libc/pthread seams.
#include "rt_int.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <ucontext.h>

extern "C" char __executable_start, _end;
extern "C" long sim_raw_syscall(long n, long a, long b, long c, long d, long e, long f);
__asm__(".text\n.globl sim_raw_syscall\nsim_raw_syscall:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n");

namespace sim {
bool g_thorough = false;
// ------------------------------------------------------------------ layout
constexpr int MAXT = 48;
constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t HEAP_SZ = 1536ull << 20, STACK_SZ = 8ull << 20, STACKS_SZ = STACK_SZ * MAXT, ARENA_SZ = HEAP_SZ + STACKS_SZ;
constexpr uintptr_t RSHADOW = 0x200000000000ull;   // 4 cells of 8 bytes per 8 bytes of arena
constexpr uintptr_t GSHADOW = 0x280000000000ull;   // the same for the executable image
constexpr uintptr_t PSHADOW = 0x300000000000ull;   // addressability, 1 byte per 8
constexpr uintptr_t HOSTMEM = 0x380000000000ull;
constexpr size_t HOST_SZ = 8ull << 30;
constexpr uintptr_t SYNCTAB = 0x3c0000000000ull;
constexpr uint32_t SYNC_N = 1 << 16;

enum TState : uint8_t { T_FREE, T_RUN, T_BLOCKED, T_DONE };
struct VC { uint32_t c[MAXT]; };
struct T {
	int id; TState st; bool detached, joined, timed_out, real_joined;
	pthread_t real; int park; VC vc;
	const void* wait_addr; const char* what; uint64_t deadline;
	void* (*fn)(void*); void* arg; void* ret; const char* name;
	uint32_t prio; uint64_t blocked_seq; void* bt[12]; int nbt; uint32_t serial;
	char* altstack;
};
static T g_t[MAXT]; static int g_nt; // slots in use
static T* g_cur; static __thread T* t_self;
static int g_rt;            // >0: inside the simulator
static bool g_running; static Result* R; static RunSpec g_spec;
static bool g_mt; static bool g_want_race = true, g_want_mem = true;
static int64_t g_fuel = INT64_MAX / 4, g_loaded = INT64_MAX / 4;
static uint64_t g_steps, g_extra_ns, g_max_steps = 3000000000ull; static uint64_t g_step_limit_at = UINT64_MAX;
static uint32_t g_chk;      // 1: memory, 2: race; zero inside the simulator
static Sched g_sched; static uint32_t g_serial, g_low_prio; static uint64_t g_max_preempts = 3000;
static Machine g_machine;
static bool slice_pending; static int64_t g_slice_left = -1;

static inline void set_chk() { g_chk = (g_running && !g_rt) ? ((g_want_mem ? 1 : 0) | (g_mt && g_want_race ? 2 : 0)) : 0; }
struct In { In() { ++g_rt; g_chk = 0; } ~In() { --g_rt; set_chk(); } };
Host::Host() { ++g_rt; g_chk = 0; } Host::~Host() { --g_rt; set_chk(); }
static inline bool me() { return g_running && t_self && t_self == g_cur && !g_rt; }
bool running() { return g_running; }
uint64_t run_seed() { return g_spec.seed; }
Machine &machine() { return g_machine; }
bool thorough() { return g_thorough; }

uint64_t hash64(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static uint64_t g_hash;
void mix(uint64_t v) { g_hash = hash64(g_hash ^ v); }

// ------------------------------------------------------------------ choices
struct Prng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } };
static Prng g_pW{1}, g_pS{2}, g_pF{3};
static uint32_t draw(Prng &p, uint32_t n, const uint32_t* forced, uint32_t nforced, uint32_t &pos, uint32_t* rec, uint32_t cap, uint32_t num = 0, uint32_t den = 0)
{
	uint32_t v;
	if (g_running && g_spec.forced) v = pos < nforced ? (n ? forced[pos] % n : 0) : 0;
	else if (den) v = (p.next() >> 11) % den < num ? 1 : 0;
	else v = n ? uint32_t((p.next() >> 11) % n) : 0;
	if (g_running) { if (pos < cap) rec[pos] = v; ++pos; }
	return v;
}
#define DW(n) draw(g_pW, (n), g_spec.W, g_spec.nW, *(R ? &R->nW : &g_dummy), R ? R->W : nullptr, CAP_W)
#define DS(n) draw(g_pS, (n), g_spec.S, g_spec.nS, *(R ? &R->nS : &g_dummy), R ? R->S : nullptr, CAP_S)
static uint32_t g_dummy;
uint32_t pick(uint32_t n) { In in; return n <= 1 ? 0 : DW(n); }
uint32_t pick_range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }
bool chance(uint32_t num, uint32_t den) { In in; return draw(g_pW, 2, g_spec.W, g_spec.nW, *(R ? &R->nW : &g_dummy), R ? R->W : nullptr, CAP_W, num, den) != 0; }
uint32_t pick_size(uint32_t max)
{
	switch (pick(6)) {
	case 0: return pick(max < 4 ? max + 1 : 4);
	case 1: return pick((max < 40 ? max : 40) + 1);
	case 2: { uint32_t b = 16u << pick(4); uint32_t k = pick(max / b + 1); return k * b; }
	case 3: { uint32_t b = 16u << pick(7); uint32_t k = pick(max / b + 1) * b; uint32_t d = pick(3); return k + d > max ? max : (d == 2 && k ? k - 1 : k + (d == 1)); }
	case 4: return pick((max < 600 ? max : 600) + 1);
	default: return pick(max + 1);
	}
}
bool fault(const char* kind, uint32_t num, uint32_t den)
{
	In in;
	if (!num) return false;
	bool v = draw(g_pF, 2, g_spec.F, g_spec.nF, *(R ? &R->nF : &g_dummy), R ? R->F : nullptr, CAP_F, num, den) != 0;
	if (v) count(kind);
	return v;
}
uint32_t fpick(uint32_t n) { In in; return n <= 1 ? 0 : draw(g_pF, n, g_spec.F, g_spec.nF, *(R ? &R->nF : &g_dummy), R ? R->F : nullptr, CAP_F); }
void fill_from(uint64_t key, void* p, size_t n)
{
	In in; uint8_t* b = (uint8_t*)p; uint64_t k = hash64(key);
	for (size_t i = 0; i < n; i += 8) { uint64_t v = hash64(k + i); size_t m = n - i < 8 ? n - i : 8; memcpy(b + i, &v, m); }
}
void fill(void* p, size_t n) { uint32_t k = pick(1u << 30); fill_from(k, p, n); }
std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); if (n) fill(v.data(), n); return v; }

// ------------------------------------------------------------------ results
void count(const char* name, uint64_t n)
{
	In in; if (!R) return;
	for (uint32_t i = 0; i < R->nCnt; ++i) if (!strcmp(R->cnt[i].name, name)) { R->cnt[i].v += n; return; }
	if (R->nCnt < CAP_CNT) { strncpy(R->cnt[R->nCnt].name, name, 47); R->cnt[R->nCnt].v = n; ++R->nCnt; }
}
void log(const char* fmt, ...)
{
	In in; if (!R) return;
	char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 2) n = sizeof b - 2;
	uint64_t h = 0; for (int i = 0; i < n; ++i) h = h * 131 + (uint8_t)b[i];
	mix(h); b[n] = '\n';
	if (R->nLog + n + 1 < CAP_LOG) { memcpy(R->log + R->nLog, b, n + 1); R->nLog += n + 1; }
}
void nontrivial() { if (R) R->nontrivial = 1; }
static inline uint64_t cur_steps() { return g_steps + (uint64_t)(g_loaded - g_fuel); }
uint64_t steps() { return cur_steps(); }
uint64_t now_ns() { return 1000000000ull + cur_steps() + g_extra_ns; }
[[noreturn]] static void finish(int st)
{
	R->hash = hash64(g_hash ^ g_steps); R->steps = cur_steps(); R->sim_ns = now_ns() - 1000000000ull;
	__atomic_store_n(&R->status, st, __ATOMIC_SEQ_CST);
	_exit(0);
}
static std::string sym(void* pc)
{
	Dl_info di; char b[64];
	if (dladdr((char*)pc - 1, &di) && di.dli_sname) {
		int st = 0; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
		std::string s = st == 0 && d ? d : di.dli_sname; free(d);
		size_t p = s.find('('); if (p != std::string::npos && p > 0) s.resize(p);
		size_t q; int depth = 0; (void)depth; (void)q;
		if (s.compare(0, 7, "CEX::::") == 0) s = s.substr(7);
		return s;
	}
	snprintf(b, sizeof b, "0x%lx", (unsigned long)pc); return b;
}
static int walk_from(void** fp, void** out, int max)
{
	int n = 0; uintptr_t lo = (uintptr_t)fp;
	uintptr_t base = ARENA + HEAP_SZ; if (!t_self) return 0;
	uintptr_t top = base + (uintptr_t)(t_self->id + 1) * STACK_SZ, bot = base + (uintptr_t)t_self->id * STACK_SZ;
	while (n < max && (uintptr_t)fp >= lo && (uintptr_t)fp >= bot && (uintptr_t)fp < top - 16) { void* r = fp[1]; if (!r) break; out[n++] = r; void** nf = (void**)fp[0]; if (nf <= fp) break; fp = nf; }
	return n;
}
static int walk(void** out, int max) { return walk_from((void**)__builtin_frame_address(0), out, max); }
static bool interesting(const std::string &s) { return s.compare(0, 5, "sim::") && s.compare(0, 5, "std::") && s.compare(0, 2, "__") && s.find("std::") != 0 && s.compare(0, 2, "0x") && s != "operator new" && s != "malloc" && s != "free" && s.find("pthread_") == std::string::npos && s.find("void std::") && s.find("decltype") && s != "start_thread" && s.find("simw_") && s != "syscall" && s.compare(0, 3, "_ZN") && s.find("gnu_cxx") == std::string::npos && s.find("std::") == std::string::npos; }
static std::string bt_str(void** bt, int n, int maxn)
{
	std::string o; int k = 0; std::string last;
	for (int i = 0; i < n && k < maxn; ++i) { std::string s = sym(bt[i]); if (interesting(s) && s != last) { if (k++) o += "<"; o += s; last = s; } }
	return o.empty() ? "?" : o;
}
std::string callers(int) { In in; void* bt[64]; int n = walk(bt, 64); return bt_str(bt, n, 3); }
[[noreturn]] void violation(const char* sig, const char* fmt, ...)
{
	In in;
	if (R->status == ST_NONE) {
		snprintf(R->sig, sizeof R->sig, "%s", sig);
		va_list ap; va_start(ap, fmt); vsnprintf(R->detail, sizeof R->detail, fmt, ap); va_end(ap);
	}
	mix(0xbad); for (const char* p = sig; *p; ++p) mix(*p);
	finish(ST_VIOLATION);
}
[[noreturn]] void discard(const char* why) { In in; std::string s = std::string("discard.") + why; count(s.c_str()); finish(ST_DISCARD); }
[[noreturn]] static void sim_error(const char* why) { In in; snprintf(R->sig, sizeof R->sig, "%s", why); finish(ST_ERROR); }

// ------------------------------------------------------------------ host allocator
static inline uint32_t cls_of(size_t n, size_t &sz)
{
	if (n <= 1024) { uint32_t c = (uint32_t)((n + 15) / 16); if (!c) c = 1; sz = c * 16ull; return c; }
	uint32_t lg = 63 - __builtin_clzll(n - 1); size_t step = 1ull << (lg - 2); size_t r = (n + step - 1) / step * step;
	uint32_t sub = (uint32_t)((r - (1ull << lg)) / step); sz = r; return 65 + (lg - 10) * 5 + sub;
}
struct FreeQ { char *head, *tail; uint32_t n; };
struct Hdr { uint32_t cls; uint32_t off; uint64_t size; };
static FreeQ h_q[400]; static uintptr_t h_top; static int h_lock;
static void hlock() { while (__atomic_exchange_n(&h_lock, 1, __ATOMIC_ACQUIRE)) { } }
static void hunlock() { __atomic_store_n(&h_lock, 0, __ATOMIC_RELEASE); }
static void* host_alloc(size_t n, size_t align)
{
	if (align < 16) align = 16;
	size_t tot = n + sizeof(Hdr) + (align > 16 ? align : 0), sz; if (tot < n) return nullptr;
	uint32_t c = cls_of(tot, sz); char* raw;
	hlock();
	if (!h_top) { void* p = mmap((void*)HOSTMEM, HOST_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) { hunlock(); return nullptr; } h_top = HOSTMEM; }
	if (h_q[c].head) { raw = h_q[c].head; h_q[c].head = *(char**)raw; }
	else { if (h_top + sz > HOSTMEM + HOST_SZ) { hunlock(); return nullptr; } raw = (char*)h_top; h_top += sz; }
	hunlock();
	char* p = raw + sizeof(Hdr); if (align > 16) p = (char*)(((uintptr_t)p + align - 1) & ~(align - 1));
	Hdr* h = (Hdr*)p - 1; h->cls = c; h->off = (uint32_t)(p - raw); h->size = n; return p;
}
static void host_free(void* p) { Hdr* h = (Hdr*)p - 1; char* raw = (char*)p - h->off; uint32_t c = h->cls; hlock(); *(char**)raw = h_q[c].head; h_q[c].head = raw; hunlock(); }

// ------------------------------------------------------------------ simulated heap
struct AHdr { uint64_t magic; uint64_t size; uint32_t cls, off; uint64_t serial; };
constexpr uint64_t A_LIVE = 0x51A11FE0A110Cull, A_DEAD = 0xDEADB10C0DEADull;
static FreeQ a_q[400]; static uintptr_t a_top = ARENA; static uint64_t a_serial, a_count, a_live_bytes;
static int64_t g_alloc_at = -1, g_thread_at = -1; static uint32_t g_alloc_run, g_thread_run; static bool g_alloc_fired, g_thread_fired; static size_t g_alloc_size;
void (*on_free)(void*, size_t, uint64_t); static int g_junk = -1; bool (*exception_text)(char*, size_t, char*, size_t);
static inline uint8_t* pmap(uintptr_t a) { return (uint8_t*)(PSHADOW + ((a - ARENA) >> 3)); }
static void shadow_reset(uintptr_t a, size_t n) { uintptr_t b = a & ~7ull, e = (a + n + 7) & ~7ull; memset((void*)(RSHADOW + (b - ARENA) * 4), 0, (e - b) * 4); }
static bool alloc_faulty(size_t n)
{
	++a_count;
	if (g_alloc_at < 0 || (g_alloc_size && g_alloc_size != n)) return false;
	if (g_alloc_at > 0) { --g_alloc_at; return false; }
	if (g_alloc_run) { --g_alloc_run; g_alloc_fired = true; count("fault.alloc_fail"); if (!g_alloc_run) g_alloc_at = -1; return true; }
	g_alloc_at = -1; return false;
}
static void* arena_alloc(size_t n, size_t align)
{
	In in;
	if (alloc_faulty(n)) return nullptr;
	if (align < 16) align = 16;
	size_t tot = n + sizeof(AHdr) + 16 + (n > 4096 ? 64 : 0) + (align > 16 ? align : 0), sz; if (tot < n || n > HEAP_SZ / 2) { count("probe.huge_alloc"); return nullptr; }
	uint32_t c = cls_of(tot, sz); char* raw; FreeQ &q = a_q[c]; uint32_t hold = sz < 4096 ? 64 : sz < (1 << 20) ? 6 : 1;
	if (q.n > hold) { raw = q.head; q.head = *(char**)raw; --q.n; }
	else { if (a_top + sz > ARENA + HEAP_SZ) { if (q.head) { raw = q.head; q.head = *(char**)raw; --q.n; } else return nullptr; } else { raw = (char*)a_top; a_top += sz; } }
	char* p = raw + sizeof(AHdr); if (align > 16) p = (char*)(((uintptr_t)p + align - 1) & ~(align - 1));
	AHdr* h = (AHdr*)p - 1; h->magic = A_LIVE; h->size = n; h->cls = c; h->off = (uint32_t)(p - raw); h->serial = ++a_serial;
	memset(p, g_junk >= 0 ? g_junk : (int)(hash64(a_serial ^ g_spec.seed) & 0xff), n);   // fresh memory holds junk, as on a real machine
	memset(pmap((uintptr_t)p), 8, n >> 3); if (n & 7) *pmap((uintptr_t)p + (n & ~7ull)) = n & 7;
	if (g_mt) shadow_reset((uintptr_t)p, n);
	a_live_bytes += n;
	return p;
}
static void arena_free(void* p)
{
	In in;
	AHdr* h = (AHdr*)p - 1;
	if (h->magic != A_LIVE) { if (h->magic == A_DEAD) { void* bt[48]; int k = walk(bt, 48); std::string s = "memory:double-free:" + bt_str(bt, k, 1); violation(s.c_str(), "double free of %p (%s)", p, bt_str(bt, k, 6).c_str()); } violation("memory:bad-free", "free of %p which is not a heap block: %s", p, callers(0).c_str()); }
	if (on_free) on_free(p, h->size, h->serial);
	h->magic = A_DEAD; size_t n = h->size; a_live_bytes -= n;
	memset(pmap((uintptr_t)p), 0xFD, (n + 7) >> 3);
	memset(p, 0xDD, n < 4096 ? n : 4096);
	char* raw = (char*)p - h->off; FreeQ &q = a_q[h->cls];
	// the link lives in the header area of the block, never in user memory
	*(char**)raw = nullptr; if (q.n && q.head) *(char**)q.tail = raw; else q.head = raw; q.tail = raw; ++q.n;
}
bool heap_block(const void* p, void** base, size_t* n)
{
	(void)n; if ((uintptr_t)p < ARENA || (uintptr_t)p >= a_top) return false;
	uintptr_t a = (uintptr_t)p & ~7ull; if (*pmap(a) == 0 || *pmap(a) == 0xFD) return false;
	while (a > ARENA && *pmap(a - 8) == 8) a -= 8;
	AHdr* h = (AHdr*)a - 1; if (h->magic != A_LIVE) return false; *base = (void*)a; *n = h->size; return true;
}
void arm_alloc(int64_t nth, uint32_t run, size_t size) { g_alloc_at = nth; g_alloc_size = size; g_alloc_run = run; g_alloc_fired = false; }
bool alloc_fault_fired() { return g_alloc_fired; }
void arm_thread(int64_t nth, uint32_t run) { g_thread_at = nth; g_thread_run = run; g_thread_fired = false; }
bool thread_fault_fired() { return g_thread_fired; }
uint64_t alloc_count() { return a_count; }
uint64_t alloc_serial() { return a_serial; }
void each_live(uint64_t after, void (*f)(void*, size_t, uint64_t, void*), void* ctx)
{
	Host hh; for (uintptr_t a = ARENA; a < a_top;) { uint8_t m = *pmap(a); AHdr* h = (AHdr*)a - 1; if (m == 0 || m == 0xFD || a == ARENA || h->magic != A_LIVE) { a += 8; continue; } if (h->serial > after) f((void*)a, h->size, h->serial, ctx); a += (h->size + 7) & ~7ull; if (!h->size) a += 8; }
}
bool in_arena(uint64_t v) { return v >= ARENA && v < ARENA + ARENA_SZ; }
void fixed_junk(int b) { g_junk = b; }
NoFaults::NoFaults() : a(g_alloc_at), t(g_thread_at) { g_alloc_at = -1; g_thread_at = -1; }
NoFaults::~NoFaults() { g_alloc_at = a; g_thread_at = t; }
void memory_checks(bool on) { g_want_mem = on; set_chk(); }
void race_checks(bool on) { g_want_race = on; set_chk(); }

// ------------------------------------------------------------------ happens-before
struct Sync { const void* addr; VC vc; };
static Sync* const g_sync = (Sync*)SYNCTAB; static uint32_t g_nsync;
static Sync* sync_of(const void* a, bool create)
{
	uint32_t i = (uint32_t)(hash64((uint64_t)a) & (SYNC_N - 1));
	for (;;) {
		if (g_sync[i].addr == a) return &g_sync[i];
		if (!g_sync[i].addr) { if (!create) return nullptr; if (++g_nsync > SYNC_N * 3 / 4) sim_error("sync table full"); g_sync[i].addr = a; return &g_sync[i]; }
		i = (i + 1) & (SYNC_N - 1);
	}
}
static inline void vjoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void sync_release(const void* a) { if (!g_mt || !t_self) return; In in; Sync* s = sync_of(a, true); vjoin(s->vc, t_self->vc); ++t_self->vc.c[t_self->id]; }
void sync_acquire(const void* a) { if (!g_mt || !t_self) return; In in; Sync* s = sync_of(a, false); if (s) vjoin(t_self->vc, s->vc); }
static void report_race(uintptr_t a, size_t n, bool w, int other, bool ow)
{
	In in; void* bt[48]; int k = walk(bt, 48);
	std::string s = "race:" + bt_str(bt, k, 1);
	violation(s.c_str(), "data race: thread %d %s %zu bytes at %s while thread %d's earlier %s is not ordered before it; in %s", t_self->id, w ? "writes" : "reads", n,
		a >= ARENA + HEAP_SZ && a < ARENA + ARENA_SZ ? "a stack" : a >= ARENA && a < ARENA + HEAP_SZ ? "the heap" : "a global", other, ow ? "write" : "read", bt_str(bt, k, 6).c_str());
}
// cell: clk<<24 | tid<<16 | mask<<8 | used<<1 | write
static inline void race_one(uintptr_t a, uint32_t mask, bool w)
{
	uint64_t* c;
	if (a - ARENA < ARENA_SZ) c = (uint64_t*)(RSHADOW + ((a & ~7ull) - ARENA) * 4);
	else if (a - (uintptr_t)&__executable_start < (uintptr_t)(&_end - &__executable_start)) c = (uint64_t*)(GSHADOW + ((a & ~7ull) - (uintptr_t)&__executable_start) * 4);
	else return;
	T* t = t_self; uint64_t mine = ((uint64_t)t->vc.c[t->id] << 24) | ((uint64_t)t->id << 16) | (mask << 8) | 2 | (w ? 1 : 0);
	int slot = -1;
	for (int i = 0; i < 4; ++i) {
		uint64_t v = c[i];
		if (!v) { if (slot < 0) slot = i; continue; }
		if (v == mine) return;
		uint32_t m = (v >> 8) & 0xff, tid = (v >> 16) & 0xff;
		if (!(m & mask)) continue;
		if ((int)tid == t->id) { if ((m & ~mask) == 0 && (w || !(v & 1))) slot = i; continue; }
		if (!w && !(v & 1)) continue;
		if ((uint32_t)(v >> 24) <= t->vc.c[tid]) { if ((m & ~mask) == 0 && w) slot = i; continue; }
		report_race(a, __builtin_popcount(mask), w, tid, v & 1);
	}
	if (slot < 0) slot = t->vc.c[t->id] & 3;
	c[slot] = mine;
}
static void race_range(uintptr_t a, size_t n, bool w)
{
	uintptr_t e = a + n;
	while (a < e) { uintptr_t g = a & ~7ull, ge = g + 8; uintptr_t x = ge < e ? ge : e; uint32_t m = ((1u << (x - a)) - 1) << (a - g); race_one(a, m, w); a = x; }
}
static void mem_bad(uintptr_t a, size_t n, bool w)
{
	In in; void* bt[48]; int k = walk(bt, 48); uintptr_t x = a; while (x < a + n && *pmap(x) == 8) ++x;
	uint8_t v = *pmap(x);
	std::string s = std::string("memory:") + (v == 0xFD ? "use-after-free" : w ? "heap-overflow-write" : "heap-overflow-read") + ":" + bt_str(bt, k, 1);
	violation(s.c_str(), "%s of %zu bytes at %p %s (%s)", w ? "write" : "read", n, (void*)a, v == 0xFD ? "touches freed memory" : "leaves its heap block", bt_str(bt, k, 6).c_str());
}
static inline void mem_check(uintptr_t a, size_t n, bool w)
{
	if (a - ARENA >= HEAP_SZ || !n) return;
	uint8_t v = *pmap(a); uint32_t o = a & 7;
	if (o + n <= 8) { if (v == 8 || (v < 8 && o + n <= v)) return; mem_bad(a, n, w); }
	uintptr_t e = a + n;
	for (uintptr_t g = a & ~7ull; g < e; g += 8) { v = *pmap(g); if (v == 8) continue; uintptr_t need = (e - g) < 8 ? e - g : 8; if (v < 8 && need <= v) continue; mem_bad(a, n, w); }
}
static void slow();
static __attribute__((noinline)) void checked(uintptr_t a, size_t n, bool w)
{
	if (g_chk & 1) mem_check(a, n, w);
	if (g_chk & 2) { uint32_t o = a & 7; if (o + n <= 8) race_one(a, ((1u << n) - 1) << o, w); else race_range(a, n, w); }
}
static inline __attribute__((always_inline)) void access(void* p, size_t n, bool w)
{
	if (__builtin_expect(--g_fuel < 0, 0)) slow();
	uint32_t c = g_chk;
	if (__builtin_expect(c != 0, 1)) {
		if (c == 1) { uintptr_t a = (uintptr_t)p; if (a - ARENA < HEAP_SZ && (*pmap(a) != 8 || ((a & 7) + n > 8))) mem_check(a, n, w); return; }
		checked((uintptr_t)p, n, w);
	}
}

// ------------------------------------------------------------------ scheduler
static void futex_wait(int* p, int v) { sim_raw_syscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(int* p) { sim_raw_syscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void park_self() { T* t = t_self; while (!__atomic_load_n(&t->park, __ATOMIC_ACQUIRE)) futex_wait(&t->park, 0); __atomic_store_n(&t->park, 0, __ATOMIC_RELEASE); }
static void unpark(T* t) { __atomic_store_n(&t->park, 1, __ATOMIC_RELEASE); futex_wake(&t->park); }

struct Ev { uint64_t t, seq; std::function<void()>* f; };
static Ev* g_ev; static uint32_t g_nev, g_capev; static uint64_t g_evseq;
void at(uint64_t t, std::function<void()> f)
{
	In in;
	if (g_nev == g_capev) { uint32_t nc = g_capev ? g_capev * 2 : 256; Ev* n = (Ev*)host_alloc(nc * sizeof(Ev), 16); if (g_nev) memcpy(n, g_ev, g_nev * sizeof(Ev)); if (g_ev) host_free(g_ev); g_ev = n; g_capev = nc; }
	g_ev[g_nev++] = Ev{t, g_evseq++, new std::function<void()>(std::move(f))};
	g_slice_left = -1; g_steps += g_loaded - g_fuel; g_loaded = g_fuel = 0;
}
static uint64_t next_deadline()
{
	uint64_t d = UINT64_MAX;
	for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED && g_t[i].deadline < d) d = g_t[i].deadline;
	for (uint32_t i = 0; i < g_nev; ++i) if (g_ev[i].t < d) d = g_ev[i].t;
	return d;
}
static void make_runnable(T* t, bool timeout) { t->st = T_RUN; t->timed_out = timeout; t->wait_addr = nullptr; t->deadline = UINT64_MAX; g_slice_left = -1; g_steps += g_loaded - g_fuel; g_loaded = g_fuel = 0; }
static void fire_timers()
{
	for (;;) {
		uint64_t now = now_ns(); int best = -1;
		for (uint32_t i = 0; i < g_nev; ++i) if (g_ev[i].t <= now && (best < 0 || g_ev[i].t < g_ev[best].t || (g_ev[i].t == g_ev[best].t && g_ev[i].seq < g_ev[best].seq))) best = i;
		if (best < 0) break;
		std::function<void()>* f = g_ev[best].f; g_ev[best] = g_ev[--g_nev]; (*f)(); delete f;
	}
	uint64_t now = now_ns();
	for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED && g_t[i].deadline <= now) make_runnable(&g_t[i], true);
}
static int runnable(T** out) { int n = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_RUN) out[n++] = &g_t[i]; return n; }
static void check_steps()
{
	uint64_t s = cur_steps(); uint64_t lim = g_max_steps < g_step_limit_at ? g_max_steps : g_step_limit_at;
	if (s >= lim) { In in; void* bt[48]; int k = walk(bt, 48); int e = k; std::string top; // the outermost library frame names the call that does not end
		std::string full = bt_str(bt, e, 8); std::string sg = "stuck:" + bt_str(bt, k, 8); size_t p = sg.rfind('<'); if (p != std::string::npos) sg = "stuck:" + sg.substr(p + 1);
		violation(sg.c_str(), "no completion within the step budget (%llu steps); in %s", (unsigned long long)s, full.c_str()); }
}
static int64_t draw_slice();
static void refuel()
{
	// g_fuel/g_loaded are folded already
	if (g_slice_left == -1) { T* r[MAXT]; g_slice_left = runnable(r) > 1 ? draw_slice() : -2; if (g_slice_left == INT64_MAX) g_slice_left = -2; }
	uint64_t lim = (g_max_steps < g_step_limit_at ? g_max_steps : g_step_limit_at) - g_steps; int64_t f = lim > (uint64_t)INT64_MAX / 4 ? INT64_MAX / 4 : (int64_t)lim;
	if (g_slice_left > 0 && g_slice_left < f) f = g_slice_left;
	uint64_t d = next_deadline(); if (d != UINT64_MAX) { uint64_t now = now_ns(); int64_t k = d > now ? (int64_t)(d - now) : 1; if (k < f) f = k; }
	if (f < 1) f = 1; g_loaded = g_fuel = f;
}
static void fold() { uint64_t u = (uint64_t)(g_loaded - g_fuel); g_steps += u; if (g_slice_left > 0) { g_slice_left -= (int64_t)u; if (g_slice_left < 0) g_slice_left = 0; } g_loaded = g_fuel = 0; }
static int64_t draw_slice()
{
	if (R->preempts >= g_max_preempts) return INT64_MAX;
	uint32_t e;
	switch (g_sched) {
	case Sched::none: return INT64_MAX;
	case Sched::coarse: e = DS(12); if (!e) return INT64_MAX; e += 5; break;
	case Sched::fine: e = DS(13); if (!e) return INT64_MAX; e = e > 8 ? e - 4 : e; break;
	default: e = DS(20); if (!e) return INT64_MAX; break;
	}
	return (1ll << e) + DS(1u << e);
}
static T* choose(T** r, int n, T* exclude)
{
	if (g_sched == Sched::pct) { T* b = nullptr; for (int i = 0; i < n; ++i) if (!b || r[i]->prio > b->prio) b = r[i]; return b; }
	T* c[MAXT]; int m = 0; for (int i = 0; i < n; ++i) if (r[i] != exclude) c[m++] = r[i];
	if (!m) return exclude; if (m == 1) return c[0];
	return c[DS(m)];
}
static void switch_to(T* n)
{
	T* o = g_cur; if (n == o) return;
	++R->switches; R->sched_hash = hash64(R->sched_hash ^ ((uint64_t)o->serial << 40) ^ ((uint64_t)n->serial << 20) ^ cur_steps()); mix(R->sched_hash);
	int save = g_rt; g_cur = n; g_rt = 0; unpark(n); 
	if (o->st == T_DONE) return;
	park_self(); g_rt = save;
}
// the calling thread gives up the baton if the strategy says so; it is runnable
static void maybe_switch(bool slice_over)
{
	T* r[MAXT]; int n = runnable(r); if (n <= 1) { g_slice_left = -1; return; }
	T* c = g_cur;
	if (g_sched == Sched::pct) {
		if (slice_over) { c->prio = --g_low_prio; ++R->preempts; }
		T* x = choose(r, n, nullptr); g_slice_left = draw_slice(); if (g_slice_left == INT64_MAX) g_slice_left = -2;
		if (x != c) switch_to(x);
		return;
	}
	if (slice_over) { ++R->preempts; T* x = choose(r, n, c); g_slice_left = -1; if (x != c) { switch_to(x); } }
}
static __attribute__((noinline)) void slow()
{
	if (!g_running || g_rt || !t_self || t_self != g_cur) { if (!g_running) g_loaded = g_fuel = INT64_MAX / 4; else { g_fuel += 1 << 20; g_loaded += 1 << 20; } return; }
	In in;
	fold(); check_steps(); fire_timers();
	bool over = g_slice_left == 0;
	if (over || (g_slice_left == -1 && g_sched == Sched::pct)) maybe_switch(over);
	fold(); refuel();
}
void point(const char*)
{
	if (!me()) return;
	In in; fold(); fire_timers();
	T* r[MAXT]; int n = runnable(r);
	if (n > 1 && g_sched == Sched::pct && g_slice_left == -1) maybe_switch(false);
	else if (n > 1 && (g_sched == Sched::fine || g_sched == Sched::coarse) && R->preempts < g_max_preempts && DS(4) == 3) { g_slice_left = 0; maybe_switch(true); }
	fold(); refuel();
}
void yield()
{
	if (!me()) return;
	In in; fold(); fire_timers(); T* r[MAXT]; int n = runnable(r);
	if (n > 1) { if (g_sched == Sched::pct) g_cur->prio = --g_low_prio; T* x = choose(r, n, g_cur); g_slice_left = -1; switch_to(x); }
	else { uint64_t d = next_deadline(); if (d != UINT64_MAX && d > now_ns()) g_extra_ns += (d - now_ns() < 1000 ? d - now_ns() : 1000); else g_extra_ns += 1000; }
	fold(); refuel();
}
static bool block(const void* addr, uint64_t deadline, const char* what)
{
	// in the simulator (In held by the caller)
	T* t = g_cur; fold(); t->st = T_BLOCKED; t->wait_addr = addr; t->deadline = deadline; t->what = what; t->timed_out = false; t->nbt = walk(t->bt, 12);
	for (;;) {
		fire_timers();
		T* r[MAXT]; int n = runnable(r);
		if (n) { T* x = choose(r, n, nullptr); g_slice_left = -1; if (x != t) switch_to(x); break; }
		uint64_t d = next_deadline();
		if (d == UINT64_MAX) {
			std::string s = "deadlock:", det; int k = 0;
			for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED) { std::string f = bt_str(g_t[i].bt, g_t[i].nbt, 1); if (k < 2) s += std::string(k ? "," : "") + g_t[i].what + "@" + f; ++k; char b[400]; snprintf(b, sizeof b, "thread %d (%s) waits for %s in %s; ", i, g_t[i].name, g_t[i].what, bt_str(g_t[i].bt, g_t[i].nbt, 4).c_str()); det += b; }
			violation(s.c_str(), "no thread can run: %s", det.c_str());
		}
		if (d > now_ns()) g_extra_ns += d - now_ns();
	}
	fold(); refuel();
	return !t->timed_out;
}
bool block_on(WaitQ &q, uint64_t deadline, const char* what) { In in; bool ok = block(&q, deadline, what); return ok; }
static int wake_addr(const void* a, int max, bool pickone)
{
	int n = 0; T* w[MAXT]; int m = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED && g_t[i].wait_addr == a) w[m++] = &g_t[i];
	if (max == 1 && m > 1 && pickone) { make_runnable(w[DS(m)], false); return 1; }
	for (int i = 0; i < m && n < max; ++i, ++n) make_runnable(w[i], false);
	return n;
}
void wake(WaitQ &q, bool all) { In in; wake_addr(&q, all ? INT_MAX : 1, true); }
unsigned live_threads() { unsigned n = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_RUN || g_t[i].st == T_BLOCKED) ++n; return n; }
unsigned unjoined_threads() { unsigned n = 0; for (int i = 1; i < g_nt; ++i) if (g_t[i].st != T_FREE) ++n; return n; }
void advance_ns(uint64_t ns) { In in; block(&g_extra_ns, now_ns() + ns, "sleep"); }
bool wait_quiesce(uint64_t max_ns) { uint64_t end = now_ns() + max_ns; uint64_t st = 1000; while (live_threads() > 1) { if (now_ns() >= end) return false; advance_ns(st); if (st < 10000000) st *= 2; } return true; }
void set_max_steps(uint64_t n) { In in; fold(); g_max_steps = n; refuel(); }
StepLimit::StepLimit(uint64_t n) : old(g_step_limit_at) { In in; fold(); uint64_t x = g_steps + n; if (x < g_step_limit_at) g_step_limit_at = x; refuel(); }
StepLimit::~StepLimit() { In in; fold(); g_step_limit_at = old; refuel(); }
void sched_set(Sched s) { In in; g_sched = s; fold(); g_slice_left = -1; refuel(); g_loaded = g_fuel = 1; }
void sched_random() { uint32_t v = pick(8); sched_set(v == 0 ? Sched::none : v <= 2 ? Sched::coarse : v <= 5 ? Sched::fine : Sched::pct); static const char* nm[] = {"sched.none", "sched.coarse", "sched.fine", "sched.pct"}; count(nm[(int)g_sched]); }
void random_machine()
{
	static const unsigned cs[] = {1, 2, 4, 4, 6, 8, 3, 12}; static const unsigned l1[] = {32, 48, 16, 64, 32};
	g_machine.cores = cs[pick(8)]; g_machine.l1_kb = l1[pick(5)]; g_machine.ht = pick(2);
}

// ------------------------------------------------------------------ threads
static void* real_fn(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) { write(2, "no symbol\n", 10); _exit(70); } return p; }
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static void update_mt()
{
	bool m = false; for (int i = 1; i < g_nt; ++i) if (g_t[i].st != T_FREE) m = true;
	g_mt = m; set_chk();
}
static void thread_done(T* t)
{
	// runs on t with In held
	t->st = T_DONE;
	wake_addr(t, INT_MAX, false);
	T* r[MAXT]; 
	for (;;) {
		fire_timers(); int n = runnable(r); if (n) { T* x = choose(r, n, nullptr); g_slice_left = -1; fold(); refuel(); g_loaded = g_fuel = 1; switch_to(x); return; }
		uint64_t d = next_deadline();
		if (d == UINT64_MAX) { std::string s = "deadlock:", det; int k = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED) { std::string f = bt_str(g_t[i].bt, g_t[i].nbt, 1); if (k < 2) s += std::string(k ? "," : "") + g_t[i].what + "@" + f; ++k; det += std::string(g_t[i].what) + " in " + bt_str(g_t[i].bt, g_t[i].nbt, 4) + "; "; } violation(s.c_str(), "no thread can run after a thread ended: %s", det.c_str()); }
		if (d > now_ns()) g_extra_ns += d - now_ns();
	}
}
static void* tramp(void* p)
{
	T* t = (T*)p; t_self = t;
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = t->altstack; ss.ss_size = 65536; sigaltstack(&ss, nullptr);
	park_self(); g_rt = 0; set_chk();
	{ In in; fold(); refuel(); g_loaded = g_fuel = 1; }
	void* r = t->fn(t->arg);
	++g_rt; g_chk = 0; fold();
	t->ret = r;
	for (int i = 0; i < 1; ++i) ++t->vc.c[t->id];
	if (t->detached) count("probe.detached_finish");
	thread_done(t);
	t_self = nullptr; return nullptr;
}
static T* new_slot(const char* name)
{
	// reap finished detached or joined threads
	for (int i = 1; i < g_nt; ++i) if (g_t[i].st == T_DONE && (g_t[i].detached || g_t[i].joined)) { if (!g_t[i].real_joined) { real_join(g_t[i].real, nullptr); g_t[i].real_joined = true; } g_t[i].st = T_FREE; }
	int id = -1; for (int i = 1; i < g_nt; ++i) if (g_t[i].st == T_FREE) { id = i; break; }
	if (id < 0) { if (g_nt >= MAXT) return nullptr; id = g_nt++; }
	T* t = &g_t[id]; uint32_t clk = t->vc.c[id]; char* as = t->altstack; memset(t, 0, sizeof *t); t->altstack = as ? as : (char*)host_alloc(65536, 64); t->id = id; t->vc.c[id] = clk; t->name = name; t->deadline = UINT64_MAX; t->serial = ++g_serial;
	return t;
}
static int create_thread(pthread_t* out, void* (*fn)(void*), void* arg, const char* name)
{
	In in;
	if (g_thread_at >= 0) { if (g_thread_at > 0) --g_thread_at; else if (g_thread_run) { --g_thread_run; g_thread_fired = true; count("fault.thread_create_fail"); if (!g_thread_run) g_thread_at = -1; return EAGAIN; } else g_thread_at = -1; }
	T* t = new_slot(name); if (!t) { count("probe.thread_slots_full"); return EAGAIN; }
	uintptr_t sb = ARENA + HEAP_SZ + (uintptr_t)t->id * STACK_SZ;
	madvise((void*)(RSHADOW + (sb - ARENA) * 4), STACK_SZ * 4, MADV_DONTNEED);
	static bool guarded[MAXT]; if (!guarded[t->id]) { guarded[t->id] = true; mprotect((void*)sb, 4096, PROT_NONE); }
	t->fn = fn; t->arg = arg; T* p = t_self;
	uint32_t own = t->vc.c[t->id]; t->vc = p->vc; t->vc.c[t->id] = (own > p->vc.c[t->id] ? own : p->vc.c[t->id]) + 1; ++p->vc.c[p->id];
	t->st = T_RUN; t->prio = g_sched == Sched::pct ? 1000 + DS(64) : 0; ++R->threads;
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, (void*)(sb + 4096), STACK_SZ - 4096);
	int rc = real_create(&t->real, &a, tramp, t); pthread_attr_destroy(&a);
	if (rc) sim_error("real pthread_create failed");
	*out = (pthread_t)(0x7700000000ull + t->id + ((uint64_t)t->serial << 8));
	g_mt = true; mix(0x7000 + t->id); make_runnable(t, false);
	return 0;
}
static T* t_of(pthread_t h) { uint64_t v = (uint64_t)h; int id = v & 0xff; if ((v & ~0xffull) < 0x7700000000ull || id >= g_nt) return nullptr; T* t = &g_t[id]; return (((uint64_t)t->serial << 8) + 0x7700000000ull + id) == v && t->st != T_FREE ? t : nullptr; }
static int join_thread(pthread_t h, void** ret)
{
	In in; T* t = t_of(h); if (!t || t == t_self || t->detached || t->joined) return EINVAL;
	while (t->st != T_DONE) block(t, UINT64_MAX, "join");
	t->joined = true; if (ret) *ret = t->ret; vjoin(t_self->vc, t->vc);
	real_join(t->real, nullptr); t->real_joined = true; t->st = T_FREE; update_mt();
	return 0;
}
struct SpawnArg { std::function<void()> f; };
static void* spawn_entry(void* p) { SpawnArg* a = (SpawnArg*)p; a->f(); { Host h; delete a; } return nullptr; }
Thread spawn(std::function<void()> f, const char* name)
{
	SpawnArg* a; { Host h; a = new SpawnArg; } a->f = f; // the closure itself is simulated memory
	int64_t s = g_thread_at; g_thread_at = -1; pthread_t h; if (create_thread(&h, spawn_entry, a, name)) sim_error("spawn"); g_thread_at = s;
	point("spawn"); return Thread{(void*)h};
}
void join(Thread t) { point("join"); if (join_thread((pthread_t)t.h, nullptr)) sim_error("join"); }

// ------------------------------------------------------------------ mutexes and conditions
static void mtx_lock(pthread_mutex_t* m)
{
	In in; int self = t_self->id + 1;
	if (g_want_mem) mem_check((uintptr_t)m, 4, true);
	if (m->__data.__lock == self && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; return; }
	while (m->__data.__lock) { count("probe.mutex_contended"); block(m, UINT64_MAX, "mutex"); }
	m->__data.__lock = self; m->__data.__count = 1; sync_acquire(m);
}
static void mtx_unlock(pthread_mutex_t* m)
{
	In in;
	if (g_want_mem) mem_check((uintptr_t)m, 4, true);
	if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1) { --m->__data.__count; return; }
	m->__data.__lock = 0; m->__data.__count = 0; sync_release(m); wake_addr(m, INT_MAX, false);
}
static uint64_t abs_to_sim(const struct timespec* ts, int) { return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }

// ------------------------------------------------------------------ run
static void on_signal(int s, siginfo_t* si, void* uc)
{
	if (!R || !g_running) { signal(s, SIG_DFL); raise(s); return; }
	++g_rt; g_chk = 0; void* bt[48]; const greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs; bt[0] = (void*)(g[REG_RIP] + 1);
	int n = 1 + (s == SIGSEGV && t_self && (uintptr_t)g[REG_RBP] - ARENA >= ARENA_SZ ? 0 : walk_from((void**)g[REG_RBP], bt + 1, 40));
	const char* nm = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "SIGABRT";
	std::string sg = std::string("crash:") + nm + ":" + bt_str(bt, n, 1);
	violation(sg.c_str(), "%s at address %p (%s)", nm, si ? si->si_addr : nullptr, bt_str(bt, n, 5).c_str());
}
static void on_terminate()
{
	++g_rt; g_chk = 0; const std::type_info* ti = abi::__cxa_current_exception_type(); std::string t = "none";
	if (ti) { int st; char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st); t = d ? d : ti->name(); }
	void* bt[48]; int n = walk(bt, 48); std::string f = bt_str(bt, n, 1);
	if (R && g_running) violation(("terminate:" + t + ":" + f).c_str(), "std::terminate called with %s in %s", t.c_str(), bt_str(bt, n, 6).c_str());
	_exit(71);
}
static void* main_entry(void* p)
{
	const Scenario* s = (const Scenario*)p;
	try { s->run(); }
	catch (std::exception &e) { char sg[200] = "", tx[600] = ""; if (exception_text && exception_text(sg, sizeof sg, tx, sizeof tx)) { ++g_rt; violation(sg, "%s", tx); } ++g_rt; violation("uncaught:std::exception", "the scenario ended with an unexpected exception: %s (%s)", e.what(), typeid(e).name()); }
	++g_rt; g_chk = 0; fold(); finish(ST_OK);
	return nullptr;
}
static bool map_fixed(uintptr_t a, size_t n) { return mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == (void*)a; }
static char g_sigstack[65536];
void run_in_child(const RunSpec &spec, Result* out)
{
	if (!real_create) { real_create = (decltype(real_create))real_fn("pthread_create"); real_join = (decltype(real_join))real_fn("pthread_join"); }
	g_spec = spec; memset(out, 0, offsetof(Result, W)); out->nW = out->nS = out->nF = out->nCnt = out->nLog = 0; R = out;
	g_pW.s = hash64(spec.seed * 3 + 1); g_pS.s = hash64(spec.seed * 3 + 2); g_pF.s = hash64(spec.seed * 3 + 3); g_hash = hash64(0x51);
	size_t img = (size_t)(&_end - &__executable_start) + 4096;
	if (!map_fixed(ARENA, ARENA_SZ) || !map_fixed(RSHADOW, ARENA_SZ * 4) || !map_fixed(GSHADOW, img * 4) || !map_fixed(PSHADOW, ARENA_SZ / 8) || !map_fixed(SYNCTAB, SYNC_N * sizeof(Sync))) { snprintf(out->sig, sizeof out->sig, "mmap"); out->status = ST_ERROR; _exit(0); }
	memset((void*)PSHADOW, 0, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
	std::set_terminate(on_terminate);
	g_rt = 1; g_nt = 1; T* t = &g_t[0]; memset(t, 0, sizeof *t); t->st = T_RUN; t->name = "main"; t->deadline = UINT64_MAX; t->vc.c[0] = 1; t->fn = main_entry; t->arg = (void*)spec.sc; t->altstack = g_sigstack; t->serial = ++g_serial; t->prio = 1032;
	g_cur = t; g_running = true; g_steps = 0; g_fuel = g_loaded = 1000; g_slice_left = -2; t->park = 1;
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, (void*)(ARENA + HEAP_SZ), STACK_SZ);
	if (real_create(&t->real, &a, tramp, t)) { out->status = ST_ERROR; _exit(0); }
	real_join(t->real, nullptr); for (;;) pause();
}
static std::vector<Scenario>* g_sc;
const std::vector<Scenario> &scenarios() { static std::vector<Scenario> none; return g_sc ? *g_sc : none; }
Reg::Reg(const Scenario &s) { if (!g_sc) g_sc = new std::vector<Scenario>; g_sc->push_back(s); }
} // namespace sim

// ====================================================================== seams
using namespace sim;
#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT void* malloc(size_t n) { void* p = me() ? arena_alloc(n, 16) : host_alloc(n, 16); if (!p) errno = ENOMEM; return p; }
EXPORT void free(void* p) { if (!p) return; if ((uintptr_t)p - ARENA < HEAP_SZ) { if (g_running && t_self == g_cur) arena_free(p); } else if ((uintptr_t)p - HOSTMEM < HOST_SZ) host_free(p); }
static size_t usable(void* p) { return (uintptr_t)p - ARENA < HEAP_SZ ? ((AHdr*)p - 1)->size : ((Hdr*)p - 1)->size; }
EXPORT void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = malloc(n); if (p) memset(p, 0, n); return p; }
EXPORT void* realloc(void* p, size_t n) { if (!p) return malloc(n); void* q = malloc(n); if (!q) return nullptr; size_t o = usable(p); memcpy(q, p, o < n ? o : n); free(p); return q; }
EXPORT void* memalign(size_t al, size_t n) { return me() ? arena_alloc(n, al) : host_alloc(n, al); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
EXPORT size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void* operator new(size_t n, std::align_val_t a) { void* p = memalign((size_t)a, n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = memalign((size_t)a, n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

EXPORT int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
	if (!me()) { if (!real_create) { real_create = (decltype(real_create))real_fn("pthread_create"); real_join = (decltype(real_join))real_fn("pthread_join"); } return real_create(o, a, f, arg); }
	int rc = create_thread(o, f, arg, "worker"); if (!rc) point("create"); return rc;
}
EXPORT int pthread_join(pthread_t h, void** r) { if (!me()) { if (!real_join) real_join = (decltype(real_join))real_fn("pthread_join"); return real_join(h, r); } point("join"); return join_thread(h, r); }
EXPORT int pthread_detach(pthread_t h) { if (!me()) return 0; In in; T* t = t_of(h); if (!t || t->joined || t->detached) return EINVAL; t->detached = true; return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { if (me()) { point("lock"); mtx_lock(m); } return 0; }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { if (!me()) return 0; point("trylock"); In in; if (m->__data.__lock && !(m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__lock == t_self->id + 1)) return EBUSY; if (m->__data.__lock) ++m->__data.__count; else { m->__data.__lock = t_self->id + 1; m->__data.__count = 1; sync_acquire(m); } return 0; }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { if (me()) { mtx_unlock(m); point("unlock"); } return 0; }
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } return 0; }
EXPORT int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl)
{
	In in;
	if (m->__data.__lock != t_self->id + 1) return EPERM;
	uint32_t cnt = m->__data.__count; m->__data.__lock = 0; m->__data.__count = 0; sync_release(m); wake_addr(m, INT_MAX, false);
	bool ok = block(c, dl, "condition"); 
	while (m->__data.__lock) block(m, UINT64_MAX, "mutex");
	m->__data.__lock = t_self->id + 1; m->__data.__count = cnt; sync_acquire(m);
	return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!me()) return 0; point("wait"); return cond_wait(c, m, UINT64_MAX); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!me()) return 0; point("wait"); return cond_wait(c, m, abs_to_sim(ts, 0)); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!me()) return 0; point("wait"); return cond_wait(c, m, abs_to_sim(ts, k)); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (!me()) return 0; { In in; wake_addr(c, 1, true); } point("signal"); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { if (!me()) return 0; { In in; wake_addr(c, INT_MAX, false); } point("broadcast"); return 0; }
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int mtx_timed(pthread_mutex_t* m, uint64_t dl)
{
	In in; int self = t_self->id + 1; if (m->__data.__lock == self && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; return 0; }
	while (m->__data.__lock) { count("probe.mutex_contended"); if (!block(m, dl, "mutex")) return ETIMEDOUT; }
	m->__data.__lock = self; m->__data.__count = 1; sync_acquire(m); return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!me()) return 0; point("lock"); return mtx_timed(m, abs_to_sim(ts, 0)); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!me()) return 0; point("lock"); return mtx_timed(m, abs_to_sim(ts, k)); }
// reader-writer locks: the writer's thread or the number of readers
static int rw_lock(pthread_rwlock_t* l, bool w, uint64_t dl, bool wait = true)
{
	In in; int self = t_self->id + 1; auto &d = l->__data;
	while (d.__cur_writer || (w && d.__readers)) { if (!wait) return EBUSY; if (d.__cur_writer == self) return EDEADLK; count("probe.rwlock_contended"); if (!block(l, dl, "rwlock")) return ETIMEDOUT; }
	if (w) d.__cur_writer = self; else ++d.__readers;
	sync_acquire(l); return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!me()) return 0; point("lock"); return rw_lock(l, false, UINT64_MAX); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!me()) return 0; point("lock"); return rw_lock(l, true, UINT64_MAX); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!me()) return 0; point("trylock"); return rw_lock(l, false, UINT64_MAX, false); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!me()) return 0; point("trylock"); return rw_lock(l, true, UINT64_MAX, false); }
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { if (!me()) return 0; point("lock"); return rw_lock(l, false, abs_to_sim(ts, 0)); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { if (!me()) return 0; point("lock"); return rw_lock(l, true, abs_to_sim(ts, 0)); }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t k, const struct timespec* ts) { if (!me()) return 0; point("lock"); return rw_lock(l, false, abs_to_sim(ts, k)); }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t k, const struct timespec* ts) { if (!me()) return 0; point("lock"); return rw_lock(l, true, abs_to_sim(ts, k)); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!me()) return 0; { In in; auto &d = l->__data; if (d.__cur_writer) d.__cur_writer = 0; else if (d.__readers) --d.__readers; sync_release(l); wake_addr(l, INT_MAX, false); } point("unlock"); return 0; }
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
EXPORT int pthread_once(pthread_once_t* o, void (*f)(void))
{
	if (!me()) { if (*o == 2) return 0; *o = 2; try { f(); } catch (...) { *o = 0; throw; } return 0; }
	for (;;) {
		{ In in; if (*o == 2) { sync_acquire(o); return 0; } while (*o == 1) block(o, UINT64_MAX, "once"); if (*o == 2) { sync_acquire(o); return 0; } *o = 1; }
		try { f(); } catch (...) { In in; *o = 0; wake_addr(o, INT_MAX, false); throw; }
		In in; *o = 2; sync_release(o); wake_addr(o, INT_MAX, false); return 0;
	}
}
EXPORT int sim_guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
EXPORT void sim_guard_release(uint64_t* g) __asm__("__cxa_guard_release");
EXPORT void sim_guard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(uint64_t* g)
{
	volatile uint8_t* b = (volatile uint8_t*)g; if (b[0]) { if (me()) sync_acquire(g); return 0; }
	if (!me()) { b[1] = 1; return 1; }
	In in; while (b[1]) { count("probe.guard_contended"); block(g, UINT64_MAX, "static-init"); }
	if (b[0]) { sync_acquire(g); return 0; } b[1] = 1; return 1;
}
void sim_guard_release(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[0] = 1; b[1] = 0; if (me()) { In in; sync_release(g); wake_addr(g, INT_MAX, false); } }
void sim_guard_abort(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[1] = 0; if (me()) { In in; wake_addr(g, INT_MAX, false); } }
EXPORT int sched_yield(void) { if (me()) yield(); return 0; }
EXPORT int nanosleep(const struct timespec* r, struct timespec*) { if (me()) { count("probe.sleep"); advance_ns((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); } return 0; }
EXPORT int clock_nanosleep(clockid_t, int fl, const struct timespec* r, struct timespec*) { if (me()) { uint64_t v = (uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec, n = now_ns(); advance_ns(fl & TIMER_ABSTIME ? (v > n ? v - n : 0) : v); } return 0; }
EXPORT int usleep(useconds_t u) { if (me()) advance_ns((uint64_t)u * 1000); return 0; }
EXPORT int clock_gettime(clockid_t, struct timespec* ts) { uint64_t n = g_running ? now_ns() : 1000000000ull; ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
EXPORT int gettimeofday(struct timeval* tv, void*) { uint64_t n = g_running ? now_ns() : 1000000000ull; tv->tv_sec = n / 1000000000ull; tv->tv_usec = n % 1000000000ull / 1000; return 0; }
EXPORT time_t time(time_t* o) { time_t v = 1600000000 + (time_t)((g_running ? now_ns() : 1000000000ull) / 1000000000ull); if (o) *o = v; return v; }
EXPORT clock_t clock(void) { return (clock_t)((g_running ? now_ns() : 1000000000ull) / 1000); }
EXPORT int get_nprocs(void) __THROW { return (int)g_machine.cores; }
EXPORT long syscall(long n, ...)
{
	va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
	if (n == SYS_futex && me()) {
		int op = (int)a[1] & 127; int* u = (int*)a[0];
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			point("futex"); In in;
			if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
			uint64_t dl = UINT64_MAX; if (a[3]) { const struct timespec* ts = (const struct timespec*)a[3]; uint64_t v = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; dl = op == FUTEX_WAIT ? now_ns() + v : v; }
			if (!block(u, dl, "future")) { errno = ETIMEDOUT; return -1; }
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int k; { In in; k = wake_addr(u, (int)a[2], true); } point("futex"); return k; }
	}
	if (n == SYS_getrandom && g_running) { In in; fill_from(hash64(g_spec.seed ^ cur_steps()), (void*)a[0], (size_t)a[1]); return a[1]; }
	long r = sim_raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
EXPORT int rand(void) { static uint64_t c; return (int)(hash64(g_spec.seed + ++c) & 0x7fffffff); }
EXPORT void srand(unsigned) { }
// exception objects carry references counted inside libstdc++, which is not instrumented: order them all
static char g_exc_sync;
static void exc_sync() { if (g_mt && t_self && t_self == g_cur) { sync_acquire(&g_exc_sync); sync_release(&g_exc_sync); } }
EXPORT void __cxa_end_catch(void) { static void (*f)(void); exc_sync(); if (!f) { In in; f = (void (*)(void))real_fn("__cxa_end_catch"); } f(); }
EXPORT void* __cxa_begin_catch(void* p) { static void* (*f)(void*); exc_sync(); if (!f) { In in; f = (void* (*)(void*))real_fn("__cxa_begin_catch"); } return f(p); }
EXPORT void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void* s) { static void (*f)(void*); exc_sync(); if (!f) { In in; f = (void (*)(void*))real_fn("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); } f(s); }
EXPORT void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void* s) { static void (*f)(void*); exc_sync(); if (!f) { In in; f = (void (*)(void*))real_fn("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"); } f(s); }

// ====================================================================== instrumentation callbacks
#define TS extern "C" __attribute__((visibility("default")))
TS void __tsan_init() { }
TS void __tsan_func_entry(void*) { }
TS void __tsan_func_exit() { }
TS void __tsan_ignore_thread_begin() { }
TS void __tsan_ignore_thread_end() { }
#define RW(n) \
	TS void __tsan_read##n(void* p) { access(p, n, false); } TS void __tsan_write##n(void* p) { access(p, n, true); } \
	TS void __tsan_unaligned_read##n(void* p) { access(p, n, false); } TS void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
	TS void __tsan_read_write##n(void* p) { access(p, n, true); } TS void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); } \
	TS void __tsan_volatile_read##n(void* p) { access(p, n, false); } TS void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
	TS void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } TS void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
TS void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
TS void __tsan_vptr_read(void** p) { access(p, 8, false); }
static void range(void* p, size_t n, bool w) { if (!n) return; if (__builtin_expect((g_fuel -= 1 + (int64_t)(n >> 4)) < 0, 0)) slow(); if (g_chk & 1) mem_check((uintptr_t)p, n, w); if (g_chk & 2) race_range((uintptr_t)p, n, w); }
TS void __tsan_read_range(void* p, size_t n) { range(p, n, false); }
TS void __tsan_write_range(void* p, size_t n) { range(p, n, true); }
TS void* __tsan_memcpy(void* d, const void* s, size_t n) { range((void*)s, n, false); range(d, n, true); return memcpy(d, s, n); }
TS void* __tsan_memmove(void* d, const void* s, size_t n) { range((void*)s, n, false); range(d, n, true); return memmove(d, s, n); }
TS void* __tsan_memset(void* d, int c, size_t n) { range(d, n, true); return memset(d, c, n); }
typedef unsigned __int128 u128;
static inline void at_pre(const volatile void* p, size_t n) { if (__builtin_expect(--g_fuel < 0, 0)) slow(); if (g_chk & 1) mem_check((uintptr_t)p, n, true); if (g_mt && !g_rt) point("atomic"); }
static inline void at_acq(const volatile void* p) { if (g_mt && !g_rt) sync_acquire((const void*)p); }
static inline void at_rel(const volatile void* p) { if (g_mt && !g_rt) sync_release((const void*)p); }
#define AT(N, ty) \
	TS ty __tsan_atomic##N##_load(const volatile ty* p, int) { at_pre(p, sizeof(ty)); at_acq(p); return *p; } \
	TS void __tsan_atomic##N##_store(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_rel(p); *p = v; } \
	TS ty __tsan_atomic##N##_exchange(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; *p = v; return o; } \
	TS ty __tsan_atomic##N##_fetch_add(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; *p = o + v; return o; } \
	TS ty __tsan_atomic##N##_fetch_sub(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; *p = o - v; return o; } \
	TS ty __tsan_atomic##N##_fetch_and(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; *p = o & v; return o; } \
	TS ty __tsan_atomic##N##_fetch_or(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; *p = o | v; return o; } \
	TS ty __tsan_atomic##N##_fetch_xor(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; *p = o ^ v; return o; } \
	TS ty __tsan_atomic##N##_fetch_nand(volatile ty* p, ty v, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; *p = ~(o & v); return o; } \
	TS int __tsan_atomic##N##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	TS int __tsan_atomic##N##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	TS ty __tsan_atomic##N##_compare_exchange_val(volatile ty* p, ty e, ty v, int, int) { at_pre(p, sizeof(ty)); at_acq(p); at_rel(p); ty o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
TS void __tsan_atomic_thread_fence(int) { }
TS void __tsan_atomic_signal_fence(int) { }
