// Simulated Windows API surface used by CEX's CEX_OS_WINDOWS branches.
// Every function here is implemented by the simulator (simos.cpp); nothing reaches the host OS.
#pragma once
#include "simwsaerr.h"
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <sys/time.h>
#include <sys/select.h>

#define WINAPI
#define CALLBACK
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define UNICODE 1
#define _UNICODE 1
#define TEXT(x) L##x
#define _T(x) L##x
typedef wchar_t TCHAR, WCHAR;
typedef int BOOL; typedef uint8_t BYTE; typedef uint16_t WORD; typedef uint32_t DWORD, *LPDWORD, *PDWORD;
typedef uint32_t UINT; typedef uint32_t ULONG, *PULONG; typedef int32_t LONG; typedef int64_t LONGLONG; typedef uint64_t ULONGLONG;
typedef uint64_t DWORDLONG; typedef size_t SIZE_T; typedef SIZE_T* PSIZE_T; typedef uintptr_t ULONG_PTR, DWORD_PTR, UINT_PTR;
typedef void *HANDLE, *HMODULE, *HINSTANCE, *HKEY, *LPVOID, *PVOID, *HWND; typedef const void* LPCVOID;
typedef char *PSTR, *LPSTR; typedef const char *PCSTR, *LPCSTR; typedef wchar_t *LPTSTR, *LPWSTR; typedef const wchar_t *LPCTSTR, *LPCWSTR;
typedef LONG LSTATUS; typedef LONG NTSTATUS; typedef BYTE* PBYTE; typedef int INT; typedef unsigned short USHORT; typedef char CHAR; typedef void VOID;
typedef uintptr_t HCRYPTPROV;
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define MAX_PATH 260
#define MAX_COMPUTERNAME_LENGTH 15
#define UNLEN 256
#define NO_ERROR 0
#define ERROR_SUCCESS 0
#define ERROR_CALL_NOT_IMPLEMENTED 120
#define ERROR_BUFFER_OVERFLOW 111
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_NO_MORE_ITEMS 259
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000
#define CRYPT_SILENT 0x40
#define HKEY_CLASSES_ROOT ((HKEY)(uintptr_t)0x80000000)
#define KEY_READ 0x20019
#define TOKEN_QUERY 8
#define PAGE_GUARD 0x100
#define PAGE_NOACCESS 1
#define PAGE_READWRITE 4
#define PAGE_EXECUTE_READWRITE 0x40
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define HEAP_ZERO_MEMORY 8
#define TH32CS_SNAPHEAPLIST 1
#define TH32CS_SNAPPROCESS 2
#define TH32CS_SNAPTHREAD 4
#define TH32CS_SNAPMODULE 8
#define GET_MODULE_HANDLE_EX_FLAG_FROM_ADDRESS 4
#define ZeroMemory(p, n) std::memset((p), 0, (n))

union LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; LONGLONG QuadPart; };
union ULARGE_INTEGER { struct { DWORD LowPart; DWORD HighPart; }; ULONGLONG QuadPart; };
struct FILETIME { DWORD dwLowDateTime, dwHighDateTime; };
struct POINT { LONG x, y; };
struct SYSTEM_INFO { WORD wProcessorArchitecture, wReserved; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress; DWORD_PTR dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; WORD wProcessorLevel, wProcessorRevision; };
struct MEMORYSTATUSEX { DWORD dwLength, dwMemoryLoad; DWORDLONG ullTotalPhys, ullAvailPhys, ullTotalPageFile, ullAvailPageFile, ullTotalVirtual, ullAvailVirtual, ullAvailExtendedVirtual; };
struct MEMORY_BASIC_INFORMATION { PVOID BaseAddress, AllocationBase; DWORD AllocationProtect; SIZE_T RegionSize; DWORD State, Protect, Type; };
struct HEAPLIST32 { SIZE_T dwSize; DWORD th32ProcessID; ULONG_PTR th32HeapID; DWORD dwFlags; };
struct HEAPENTRY32 { SIZE_T dwSize; HANDLE hHandle; ULONG_PTR dwAddress; SIZE_T dwBlockSize; DWORD dwFlags, dwLockCount, dwResvd, th32ProcessID; ULONG_PTR th32HeapID; };
struct MODULEENTRY32 { DWORD dwSize, th32ModuleID, th32ProcessID, GlblcntUsage, ProccntUsage; BYTE* modBaseAddr; DWORD modBaseSize; HMODULE hModule; WCHAR szModule[256]; WCHAR szExePath[MAX_PATH]; };
struct PROCESSENTRY32 { DWORD dwSize, cntUsage, th32ProcessID; ULONG_PTR th32DefaultHeapID; DWORD th32ModuleID, cntThreads, th32ParentProcessID; LONG pcPriClassBase; DWORD dwFlags; WCHAR szExeFile[MAX_PATH]; };
struct THREADENTRY32 { DWORD dwSize, cntUsage, th32ThreadID, th32OwnerProcessID; LONG tpBasePri, tpDeltaPri; DWORD dwFlags; };
struct MIB_TCPSTATS { DWORD dwRtoAlgorithm, dwRtoMin, dwRtoMax, dwMaxConn, dwActiveOpens, dwPassiveOpens, dwAttemptFails, dwEstabResets, dwCurrEstab, dwInSegs, dwOutSegs, dwRetransSegs, dwInErrs, dwOutRsts, dwNumConns; };
struct IP_ADDRESS_STRING { char String[16]; };
struct IP_ADDR_STRING { IP_ADDR_STRING* Next; IP_ADDRESS_STRING IpAddress, IpMask; DWORD Context; };
struct IP_ADAPTER_INFO { IP_ADAPTER_INFO* Next; DWORD ComboIndex; char AdapterName[260]; char Description[132]; UINT AddressLength; BYTE Address[8]; DWORD Index; UINT Type; UINT DhcpEnabled; IP_ADDR_STRING* CurrentIpAddress; IP_ADDR_STRING IpAddressList, GatewayList, DhcpServer; BOOL HaveWins; IP_ADDR_STRING PrimaryWinsServer, SecondaryWinsServer; int64_t LeaseObtained, LeaseExpires; };
typedef IP_ADAPTER_INFO* PIP_ADAPTER_INFO;
enum TOKEN_INFORMATION_CLASS { TokenUser = 1 };
struct SID_AND_ATTRIBUTES { PVOID Sid; DWORD Attributes; };
struct TOKEN_USER { SID_AND_ATTRIBUTES User; }; typedef TOKEN_USER* PTOKEN_USER;
struct SYSTEMTIME { WORD wYear, wMonth, wDayOfWeek, wDay, wHour, wMinute, wSecond, wMilliseconds; };

extern "C" {
#define SIMW(r, n, a) r n a __asm__("simw_" #n)
SIMW(DWORD, GetLastError, (void));
SIMW(BOOL, GetComputerName, (WCHAR*, DWORD*));
SIMW(BOOL, GetUserName, (WCHAR*, DWORD*));
SIMW(UINT, GetDriveType, (const WCHAR*));
SIMW(DWORD, GetLogicalDriveStrings, (DWORD, WCHAR*));
SIMW(BOOL, GetDiskFreeSpaceEx, (const WCHAR*, ULARGE_INTEGER*, ULARGE_INTEGER*, ULARGE_INTEGER*));
SIMW(BOOL, GlobalMemoryStatusEx, (MEMORYSTATUSEX*));
SIMW(DWORD, GetCurrentProcessId, (void));
SIMW(DWORD, GetCurrentThreadId, (void));
SIMW(HANDLE, GetCurrentProcess, (void));
SIMW(HANDLE, GetCurrentThread, (void));
SIMW(BOOL, QueryPerformanceCounter, (LARGE_INTEGER*));
SIMW(BOOL, QueryPerformanceFrequency, (LARGE_INTEGER*));
SIMW(void, GetSystemTimeAsFileTime, (FILETIME*));
SIMW(ULONGLONG, GetTickCount64, (void));
SIMW(BOOL, GetThreadTimes, (HANDLE, FILETIME*, FILETIME*, FILETIME*, FILETIME*));
SIMW(BOOL, GetProcessTimes, (HANDLE, FILETIME*, FILETIME*, FILETIME*, FILETIME*));
SIMW(void, Sleep, (DWORD));
SIMW(void, GetSystemInfo, (SYSTEM_INFO*));
SIMW(HANDLE, GetProcessHeap, (void));
SIMW(void*, HeapAlloc, (HANDLE, DWORD, SIZE_T));
SIMW(BOOL, HeapFree, (HANDLE, DWORD, void*));
SIMW(DWORD, GetAdaptersInfo, (IP_ADAPTER_INFO*, ULONG*));
SIMW(DWORD, GetTcpStatistics, (MIB_TCPSTATS*));
SIMW(BOOL, GetCursorPos, (POINT*));
SIMW(HANDLE, CreateToolhelp32Snapshot, (DWORD, DWORD));
SIMW(BOOL, CloseHandle, (HANDLE));
SIMW(BOOL, Heap32ListFirst, (HANDLE, HEAPLIST32*));
SIMW(BOOL, Heap32ListNext, (HANDLE, HEAPLIST32*));
SIMW(BOOL, Heap32First, (HEAPENTRY32*, DWORD, ULONG_PTR));
SIMW(BOOL, Heap32Next, (HEAPENTRY32*));
SIMW(BOOL, Module32First, (HANDLE, MODULEENTRY32*));
SIMW(BOOL, Module32Next, (HANDLE, MODULEENTRY32*));
SIMW(BOOL, Process32First, (HANDLE, PROCESSENTRY32*));
SIMW(BOOL, Process32Next, (HANDLE, PROCESSENTRY32*));
SIMW(BOOL, Thread32First, (HANDLE, THREADENTRY32*));
SIMW(BOOL, Thread32Next, (HANDLE, THREADENTRY32*));
SIMW(BOOL, GetModuleHandleEx, (DWORD, LPCTSTR, HMODULE*));
SIMW(SIZE_T, VirtualQueryEx, (HANDLE, const void*, MEMORY_BASIC_INFORMATION*, SIZE_T));
SIMW(BOOL, VirtualProtectEx, (HANDLE, void*, SIZE_T, DWORD, ULONG*));
SIMW(BOOL, VirtualProtect, (void*, SIZE_T, DWORD, ULONG*));
SIMW(void*, VirtualAlloc, (void*, SIZE_T, DWORD, DWORD));
SIMW(BOOL, VirtualFree, (void*, SIZE_T, DWORD));
SIMW(BOOL, VirtualLock, (void*, SIZE_T));
SIMW(BOOL, VirtualUnlock, (void*, SIZE_T));
SIMW(BOOL, GetProcessWorkingSetSize, (HANDLE, SIZE_T*, SIZE_T*));
SIMW(BOOL, SetProcessWorkingSetSize, (HANDLE, SIZE_T, SIZE_T));
SIMW(LSTATUS, RegOpenKeyEx, (HKEY, const WCHAR*, DWORD, DWORD, HKEY*));
SIMW(LSTATUS, RegEnumKeyEx, (HKEY, DWORD, WCHAR*, DWORD*, DWORD*, WCHAR*, DWORD*, FILETIME*));
SIMW(LSTATUS, RegCloseKey, (HKEY));
SIMW(BOOL, OpenProcessToken, (HANDLE, DWORD, HANDLE*));
SIMW(BOOL, GetTokenInformation, (HANDLE, TOKEN_INFORMATION_CLASS, void*, DWORD, DWORD*));
SIMW(BOOL, IsValidSid, (void*));
SIMW(BOOL, ConvertSidToStringSid, (void*, WCHAR**));
SIMW(HANDLE, LocalFree, (void*));
SIMW(BOOL, CryptAcquireContextW, (HCRYPTPROV*, const WCHAR*, const WCHAR*, DWORD, DWORD));
SIMW(BOOL, CryptReleaseContext, (HCRYPTPROV, DWORD));
SIMW(BOOL, CryptGenRandom, (HCRYPTPROV, DWORD, BYTE*));
SIMW(int, IsWindowsServer, (void));
SIMW(int, IsWindowsVersionOrGreater, (WORD, WORD, WORD));
SIMW(HANDLE, CreateFileW, (const WCHAR*, DWORD, DWORD, void*, DWORD, DWORD, HANDLE));
}
#define RtlSecureZeroMemory(p, n) simw_securezero((p), (n))
#define SecureZeroMemory(p, n) simw_securezero((p), (n))
extern "C" void* simw_securezero(void*, size_t);
#define CryptAcquireContext CryptAcquireContextW
typedef PROCESSENTRY32 PROCESSENTRY32W; typedef MODULEENTRY32 MODULEENTRY32W;
