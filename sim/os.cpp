// Simulated Windows API, CPU identification, time stamp counter and entropy devices.
#include "rt_int.h"
#include "os.h"
#include "fakewin/simwin.h"
#include "fakewin/malloc_win.h"
#include <cerrno>
#include <map>
using namespace sim;
namespace simos {
static Entropy g_e; static Mem g_m; static DWORD g_err;
static uint64_t g_ctr, g_tsc_last, g_heapwalk;
Entropy &entropy() { return g_e; }
Mem &mem() { return g_m; }
void reset() { Host h; g_e = Entropy(); g_m = Mem(); }
static uint64_t dev(uint64_t kind) { return hash64(hash64(g_e.stream * 0x9e37 + kind) + ++g_ctr); }
}
using namespace simos;
#define E extern "C"
// ---- CPU
E void simcpu_cpuid(int o[4], int leaf, int sub)
{
	Host h; Machine &m = machine(); unsigned r[4] = {0, 0, 0, 0};
	switch ((unsigned)leaf) {
	case 0: r[0] = 0x16; r[1] = 0x756e6547; r[2] = 0x6c65746e; r[3] = 0x49656e69; break;
	case 1: r[0] = 0x906ea; r[1] = 0x00100800 | (m.cores << 16);
		r[2] = 1u | (m.aes ? 1u << 25 : 0) | (1u << 1) | (1u << 9) | (1u << 19) | (1u << 20) | (1u << 26) | (1u << 27) | (m.avx2 ? 1u << 28 : 0) | (m.rdrand ? 1u << 30 : 0);
		r[3] = (1u << 4) | (1u << 25) | (1u << 26) | (m.ht ? 1u << 28 : 0); break;
	case 4: r[0] = 0x1c004121 | ((m.cores - 1) << 26); r[1] = 0x01c0003f; r[2] = 63; break;
	case 7: if (sub == 0) r[1] = (1u << 3) | (m.avx2 ? 1u << 5 : 0) | (1u << 8) | (m.rdrand ? 1u << 18 : 0) | (m.sha ? 1u << 29 : 0); break;
	case 0x16: r[0] = 3000; r[1] = 4000; r[2] = 100; break;
	case 0x80000000: r[0] = 0x80000008; break;
	case 0x80000001: r[2] = 1; r[3] = 1u << 27; break;
	case 0x80000005: r[2] = (m.l1_kb << 24) | 0x080140 | 0; r[2] = (r[2] & ~0xffu) | m.l1_kb; break;
	case 0x80000006: r[2] = (m.l2_kb << 16) | 0x6000 | (m.l1_kb & 0xff); break;
	}
	for (int i = 0; i < 4; ++i) o[i] = (int)r[i];
}
E unsigned long long simcpu_xgetbv(unsigned) { return machine().avx2 ? 7 : 3; }
E unsigned long long simcpu_rdtsc(void)
{
	Host h; if (machine().tsc_stuck) return 123456789;
	uint64_t n = now_ns() * 3; uint32_t z = machine().tsc_noise; n += z ? dev(11) % z : 0; if (n <= g_tsc_last) n = g_tsc_last + 1; g_tsc_last = n; return n;
}
static int rd(uint64_t* v)
{
	point("rdrand"); Host h;
	if (g_e.rd_dead || (g_e.rd_fail && fault("fault.rdrand_fail", g_e.rd_fail, 16))) { if (g_e.rd_dead) count("fault.rdrand_dead"); ++g_e.rd_failures; *v = 0; return 0; }
	*v = g_e.rd_stuck ? ~0ull : g_e.rd_script_pos < g_e.rd_script.size() ? g_e.rd_script[g_e.rd_script_pos++] : dev(12); if (g_e.rd_stuck) count("fault.rdrand_stuck"); ++g_e.rd_words; if (g_e.rd_delivered.size() < (1 << 17)) g_e.rd_delivered.push_back(*v); return 1;
}
E int simcpu_rdrand64(unsigned long long* p) { uint64_t v; int r = rd(&v); *p = v; return r; }
E int simcpu_rdseed64(unsigned long long* p) { uint64_t v; int r = rd(&v); *p = v; return r; }
E int simcpu_rdrand32(unsigned* p) { uint64_t v; int r = rd(&v); *p = (unsigned)v; return r; }
E int simcpu_rdseed32(unsigned* p) { uint64_t v; int r = rd(&v); *p = (unsigned)v; return r; }
// ---- entropy service
E BOOL simw_CryptAcquireContextW(HCRYPTPROV* p, const WCHAR*, const WCHAR*, DWORD, DWORD)
{
	Host h; if (fault("fault.csp_acquire_fail", g_e.csp_acquire_fail, 16)) { ++g_e.csp_failures; *p = 0; g_err = 5; return 0; }
	*p = 0x5150; return 1;
}
E BOOL simw_CryptReleaseContext(HCRYPTPROV, DWORD) { return 1; }
E BOOL simw_CryptGenRandom(HCRYPTPROV c, DWORD n, BYTE* b)
{
	point("entropy"); Host h; ++g_e.csp_calls; if (c != 0x5150) { ++g_e.csp_failures; g_err = 87; return 0; }
	if (fault("fault.csp_gen_fail", g_e.csp_gen_fail, 16)) { ++g_e.csp_failures; g_err = 0x80090020; return 0; }
	size_t lim = n; bool part = false;
	if (n > 1 && fault("fault.csp_partial", g_e.csp_partial, 16)) { part = true; lim = fpick(n); }
	if (g_e.csp_stuck) { count("fault.csp_stuck"); memset(b, 0x5c, n); }
	else if (g_e.script_pos < g_e.script.size()) { for (size_t i = 0; i < lim; ++i) b[i] = g_e.script_pos < g_e.script.size() ? g_e.script[g_e.script_pos++] : 0x77; }
	else for (size_t i = 0; i < lim; i += 8) { uint64_t v = dev(13); memcpy(b + i, &v, lim - i < 8 ? lim - i : 8); }
	if (part) { ++g_e.csp_failures; g_err = 0x80090020; return 0; }
	g_e.csp_bytes += n; if (g_e.delivered.size() < (1 << 20)) g_e.delivered.insert(g_e.delivered.end(), b, b + n);
	return 1;
}
// ---- memory
E void* simw_aligned_malloc(size_t n, size_t a) { void* p = nullptr; return posix_memalign(&p, a < 16 ? 16 : a, n) ? nullptr : p; }
E void* simw_aligned_realloc(void* q, size_t n, size_t a) { void* p = simw_aligned_malloc(n, a); if (p && q) { memcpy(p, q, n); free(q); } return p; }
E void simw_aligned_free(void* p) { free(p); }
E void* simw_securezero(void* p, size_t n) { volatile uint8_t* b = (volatile uint8_t*)p; while (n--) *b++ = 0; return p; }
static std::map<void*, size_t> g_regions;
E void* simw_VirtualAlloc(void*, SIZE_T n, DWORD, DWORD)
{
	{ Host h; if (fault("fault.virtualalloc_fail", g_m.alloc_fail, 16)) { g_err = 8; return nullptr; } ++g_m.allocs; }
	void* p = simw_aligned_malloc(n, 4096); if (p) { memset(p, 0, n); Host h; g_regions[p] = n; } return p;
}
E BOOL simw_VirtualFree(void* p, SIZE_T, DWORD) { { Host h; auto r = g_regions.find(p); if (r == g_regions.end()) { g_err = 487; return 0; } for (size_t i = 0; i < r->second; ++i) if (((uint8_t*)p)[i]) { ++g_m.dirty; break; } g_regions.erase(r); } ++g_m.frees; free(p); return 1; }
E BOOL simw_VirtualLock(void*, SIZE_T n) { Host h; if (fault("fault.virtuallock_fail", g_m.lock_fail, 16)) { g_err = 1453; return 0; } ++g_m.locks; g_m.locked_now += n; return 1; }
E BOOL simw_VirtualUnlock(void*, SIZE_T n) { ++g_m.unlocks; g_m.locked_now -= n; return 1; }
E BOOL simw_VirtualProtect(void*, SIZE_T, DWORD, ULONG* o) { if (o) *o = 4; return 1; }
E BOOL simw_VirtualProtectEx(HANDLE, void*, SIZE_T, DWORD, ULONG* o) { if (o) *o = 4; return 1; }
E SIZE_T simw_VirtualQueryEx(HANDLE, const void*, MEMORY_BASIC_INFORMATION* m, SIZE_T n) { memset(m, 0, n); m->BaseAddress = (void*)0x10000; m->RegionSize = 4096; m->State = MEM_COMMIT; m->Protect = PAGE_READWRITE; return n; }
E BOOL simw_GetProcessWorkingSetSize(HANDLE, SIZE_T* a, SIZE_T* b) { *a = 1 << 20; *b = 4 << 20; return 1; }
E BOOL simw_SetProcessWorkingSetSize(HANDLE, SIZE_T, SIZE_T) { return 1; }
// ---- system information
#define FAILS do { if (g_e.os_info_fail) { count("fault.os_info_fail"); g_err = 5; return 0; } } while (0)
static void wcpy(WCHAR* d, const char* s) { while ((*d++ = (WCHAR)*s++)) { } }
E DWORD simw_GetLastError(void) { return g_err; }
E BOOL simw_GetComputerName(WCHAR* b, DWORD* n) { Host h; FAILS; wcpy(b, "SIMNODE"); *n = 7; return 1; }
E BOOL simw_GetUserName(WCHAR* b, DWORD* n) { Host h; FAILS; wcpy(b, "simuser"); *n = 8; return 1; }
E UINT simw_GetDriveType(const WCHAR*) { return 3; }
E DWORD simw_GetLogicalDriveStrings(DWORD n, WCHAR* b) { Host h; FAILS; if (n < 5) return 5; wcpy(b, "C:\\"); b[4] = 0; return 4; }
E BOOL simw_GetDiskFreeSpaceEx(const WCHAR*, ULARGE_INTEGER* a, ULARGE_INTEGER* b, ULARGE_INTEGER* c) { Host h; FAILS; uint64_t v = dev(20) >> 20; if (a) a->QuadPart = v; if (b) b->QuadPart = v * 2; if (c) c->QuadPart = v; return 1; }
E BOOL simw_GlobalMemoryStatusEx(MEMORYSTATUSEX* m) { Host h; FAILS; m->dwMemoryLoad = 30; m->ullTotalPhys = 1ull << 34; m->ullAvailPhys = dev(21) >> 30; m->ullTotalVirtual = 1ull << 47; m->ullAvailVirtual = dev(22) >> 17; return 1; }
E DWORD simw_GetCurrentProcessId(void) { return 4242; }
E DWORD simw_GetCurrentThreadId(void) { return 77; }
E HANDLE simw_GetCurrentProcess(void) { return (HANDLE)-1; }
E HANDLE simw_GetCurrentThread(void) { return (HANDLE)-2; }
E BOOL simw_QueryPerformanceCounter(LARGE_INTEGER* l) { Host h; if (machine().tsc_stuck) l->QuadPart = 1234567; else l->QuadPart = now_ns() / 100; return 1; }
E BOOL simw_QueryPerformanceFrequency(LARGE_INTEGER* l) { l->QuadPart = 10000000; return 1; }
E void simw_GetSystemTimeAsFileTime(FILETIME* f) { Host h; uint64_t v = 132000000000000000ull + now_ns() / 100; f->dwLowDateTime = (DWORD)v; f->dwHighDateTime = v >> 32; }
E ULONGLONG simw_GetTickCount64(void) { Host h; return now_ns() / 1000000; }
E BOOL simw_GetThreadTimes(HANDLE, FILETIME* a, FILETIME* b, FILETIME* c, FILETIME* d) { Host h; uint64_t v = now_ns() / 100; for (FILETIME* f : {a, b, c, d}) if (f) { f->dwLowDateTime = (DWORD)v; f->dwHighDateTime = v >> 32; } return 1; }
E BOOL simw_GetProcessTimes(HANDLE h, FILETIME* a, FILETIME* b, FILETIME* c, FILETIME* d) { return simw_GetThreadTimes(h, a, b, c, d); }
E void simw_Sleep(DWORD ms) { if (running()) { count("probe.sleep"); advance_ns((uint64_t)ms * 1000000 + 1000); } }
E void simw_GetSystemInfo(SYSTEM_INFO* s) { memset(s, 0, sizeof *s); s->dwPageSize = 4096; s->dwNumberOfProcessors = machine().cores; s->wProcessorArchitecture = 9; s->dwAllocationGranularity = 65536; }
E HANDLE simw_GetProcessHeap(void) { return (HANDLE)0x11; }
E void* simw_HeapAlloc(HANDLE, DWORD f, SIZE_T n) { void* p = malloc(n); if (p && (f & 8)) memset(p, 0, n); return p; }
E BOOL simw_HeapFree(HANDLE, DWORD, void* p) { free(p); return 1; }
E DWORD simw_GetAdaptersInfo(IP_ADAPTER_INFO*, ULONG* n) { Host h; *n = sizeof(IP_ADAPTER_INFO); return 232; }
E DWORD simw_GetTcpStatistics(MIB_TCPSTATS* s) { Host h; memset(s, 0, sizeof *s); s->dwInSegs = (DWORD)dev(23); return 0; }
E BOOL simw_GetCursorPos(POINT* p) { Host h; p->x = (LONG)(dev(24) % 1920); p->y = (LONG)(dev(25) % 1080); return 1; }
E HANDLE simw_CreateToolhelp32Snapshot(DWORD, DWORD) { Host h; if (g_e.os_info_fail) { count("fault.os_info_fail"); return INVALID_HANDLE_VALUE; } g_heapwalk = 0; return (HANDLE)0x21; }
E BOOL simw_CloseHandle(HANDLE) { return 1; }
E BOOL simw_Heap32ListFirst(HANDLE, HEAPLIST32* l) { l->th32HeapID = 1; l->th32ProcessID = 4242; g_heapwalk = 1; return 1; }
E BOOL simw_Heap32ListNext(HANDLE, HEAPLIST32* l) { return 0; }
E BOOL simw_Heap32First(HEAPENTRY32* e, DWORD, ULONG_PTR) { Host h; e->dwAddress = 0x1000; e->dwBlockSize = (SIZE_T)(dev(26) % 5000); g_heapwalk = 1; return 1; }
E BOOL simw_Heap32Next(HEAPENTRY32* e) { Host h; e->dwAddress += 0x1000; e->dwBlockSize = (SIZE_T)(dev(26) % 5000); return ++g_heapwalk < 6; }
E BOOL simw_Module32First(HANDLE, MODULEENTRY32* m) { DWORD s = m->dwSize; memset(m, 0, sizeof *m); m->dwSize = s; m->modBaseAddr = (BYTE*)0x400000; m->modBaseSize = 4096; g_heapwalk = 1; return 1; }
E BOOL simw_Module32Next(HANDLE, MODULEENTRY32* m) { m->modBaseAddr += 0x100000; return ++g_heapwalk < 4; }
E BOOL simw_Process32First(HANDLE, PROCESSENTRY32* p) { DWORD s = p->dwSize; memset(p, 0, sizeof *p); p->dwSize = s; p->th32ProcessID = 4; g_heapwalk = 1; return 1; }
E BOOL simw_Process32Next(HANDLE, PROCESSENTRY32* p) { p->th32ProcessID += 4; return ++g_heapwalk < 5; }
E BOOL simw_Thread32First(HANDLE, THREADENTRY32* t) { DWORD s = t->dwSize; memset(t, 0, sizeof *t); t->dwSize = s; t->th32OwnerProcessID = 4242; t->th32ThreadID = 1; g_heapwalk = 1; return 1; }
E BOOL simw_Thread32Next(HANDLE, THREADENTRY32* t) { t->th32ThreadID++; return ++g_heapwalk < 5; }
E BOOL simw_GetModuleHandleEx(DWORD, LPCTSTR, HMODULE* m) { *m = (HMODULE)0x400000; return 1; }
E LSTATUS simw_RegOpenKeyEx(HKEY, const WCHAR*, DWORD, DWORD, HKEY*) { return 5; }
E LSTATUS simw_RegEnumKeyEx(HKEY, DWORD, WCHAR*, DWORD*, DWORD*, WCHAR*, DWORD*, FILETIME*) { return ERROR_NO_MORE_ITEMS; }
E LSTATUS simw_RegCloseKey(HKEY) { return 0; }
E BOOL simw_OpenProcessToken(HANDLE, DWORD, HANDLE* h) { *h = nullptr; return 0; }
E BOOL simw_GetTokenInformation(HANDLE, TOKEN_INFORMATION_CLASS, void*, DWORD, DWORD* n) { if (n) *n = 0; return 0; }
E BOOL simw_IsValidSid(void*) { return 0; }
E BOOL simw_ConvertSidToStringSid(void*, WCHAR** s) { *s = nullptr; return 0; }
E HANDLE simw_LocalFree(void*) { return nullptr; }
E int simw_IsWindowsServer(void) { return 0; }
E int simw_IsWindowsVersionOrGreater(WORD, WORD, WORD) { return 1; }
