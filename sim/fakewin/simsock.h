#pragma once
#include "simwin.h"
typedef uintptr_t SOCKET; typedef uint32_t u_long_w; 
#define INVALID_SOCKET (SOCKET)(~0)
#define SOCKET_ERROR (-1)
#define AF_UNSPEC 0
#define AF_INET 2
#define AF_INET6 23
#define PF_INET AF_INET
#define PF_INET6 AF_INET6
#define INADDR_LOOPBACK 0x7f000001
#define INADDR_ANY 0
#define SOCK_STREAM 1
#define SOCK_DGRAM 2
#define SOCK_RAW 3
#define IPPROTO_TCP 6
#define IPPROTO_UDP 17
#define SOL_SOCKET 0xffff
#define SO_REUSEADDR 4
#define SD_RECEIVE 0
#define SD_SEND 1
#define SD_BOTH 2
#define MSG_PEEK 2
#define MSG_OOB 1
#define MSG_DONTROUTE 4
#define MSG_WAITALL 8
#define INET_ADDRSTRLEN 22
#define INET6_ADDRSTRLEN 65
#define NI_MAXHOST 1025
#define NI_MAXSERV 32
#define NI_NUMERICSERV 8
#define NI_NUMERICHOST 2
#define AI_PASSIVE 1
#define FIONBIO 0x8004667e
#define FIONREAD 0x4004667f
#include "simwsaerr.h"
struct in_addr { union { struct { uint8_t s_b1, s_b2, s_b3, s_b4; } S_un_b; uint32_t S_addr; } S_un; };
#define s_addr S_un.S_addr
struct in6_addr { union { uint8_t Byte[16]; uint16_t Word[8]; } u; };
#define s6_addr u.Byte
typedef in_addr IN_ADDR; typedef in6_addr IN6_ADDR;
struct sockaddr { uint16_t sa_family; char sa_data[14]; };
struct sockaddr_in { int16_t sin_family; uint16_t sin_port; in_addr sin_addr; char sin_zero[8]; };
struct sockaddr_in6 { int16_t sin6_family; uint16_t sin6_port; uint32_t sin6_flowinfo; in6_addr sin6_addr; uint32_t sin6_scope_id; };
struct sockaddr_storage { int16_t ss_family; char pad[126]; };
typedef sockaddr SOCKADDR, *PSOCKADDR, *LPSOCKADDR; typedef sockaddr_in SOCKADDR_IN; typedef sockaddr_in6 SOCKADDR_IN6;
struct addrinfo { int ai_flags, ai_family, ai_socktype, ai_protocol; size_t ai_addrlen; char* ai_canonname; sockaddr* ai_addr; addrinfo* ai_next; };
typedef addrinfo ADDRINFOA, *PADDRINFOA;
struct addrinfoW { int ai_flags, ai_family, ai_socktype, ai_protocol; size_t ai_addrlen; wchar_t* ai_canonname; sockaddr* ai_addr; addrinfoW* ai_next; };
struct hostent { char* h_name; char** h_aliases; short h_addrtype, h_length; char** h_addr_list; };
#define h_addr h_addr_list[0]
struct servent { char* s_name; char** s_aliases; char* s_proto; short s_port; };
struct WSADATA { WORD wVersion, wHighVersion; char rest[400]; };
#undef FD_SET
#undef FD_ZERO
#undef FD_ISSET
#undef FD_CLR
struct simw_fdset { uint32_t fd_count; SOCKET fd_array[64]; };
#define fd_set simw_fdset
#define FD_ZERO(s) ((s)->fd_count = 0)
#define FD_SET(f, s) ((s)->fd_array[(s)->fd_count++] = (f))
static const in6_addr in6addr_linklocalprefix = {{{0xfe, 0x80}}};
static const in6_addr in6addr_loopback = {{{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1}}};
extern "C" {
SIMW(int, WSAAddressToStringW, (sockaddr*, DWORD, void*, WCHAR*, DWORD*));
SIMW(int, simw_FD_ISSET, (SOCKET, simw_fdset*));
SIMW(SOCKET, socket, (int, int, int));
SIMW(int, bind, (SOCKET, const sockaddr*, int));
SIMW(int, listen, (SOCKET, int));
SIMW(SOCKET, accept, (SOCKET, sockaddr*, int*));
SIMW(int, connect, (SOCKET, const sockaddr*, int));
SIMW(int, recv, (SOCKET, char*, int, int));
SIMW(int, send, (SOCKET, const char*, int, int));
SIMW(int, shutdown, (SOCKET, int));
SIMW(int, closesocket, (SOCKET));
SIMW(int, ioctlsocket, (SOCKET, long, unsigned long*));
SIMW(int, setsockopt, (SOCKET, int, int, const char*, int));
SIMW(int, getsockopt, (SOCKET, int, int, char*, int*));
SIMW(int, getpeername, (SOCKET, sockaddr*, int*));
SIMW(int, getsockname, (SOCKET, sockaddr*, int*));
SIMW(int, WSAStartup, (WORD, WSADATA*));
SIMW(int, WSACleanup, (void));
SIMW(int, WSAGetLastError, (void));
SIMW(void, WSASetLastError, (int));
SIMW(int, inet_pton, (int, const char*, void*));
SIMW(const char*, inet_ntop, (int, const void*, char*, size_t));
SIMW(int, getaddrinfo, (const char*, const char*, const addrinfo*, addrinfo**));
SIMW(void, freeaddrinfo, (addrinfo*));
SIMW(int, getnameinfo, (const sockaddr*, int, char*, DWORD, char*, DWORD, int));
SIMW(int, gethostname, (char*, int));
SIMW(hostent*, gethostbyname, (const char*));
SIMW(hostent*, gethostbyaddr, (const char*, int, int));
SIMW(servent*, getservbyname, (const char*, const char*));
int simw_select(int, simw_fdset*, simw_fdset*, simw_fdset*, const timeval*);
}
#define select simw_select
#define FD_ISSET(f, s) simw_FD_ISSET((f), (s))
static inline uint16_t simw_bswap16(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
#undef htons
#undef ntohs
#undef htonl
#undef ntohl
#define htons(x) simw_bswap16(x)
#define ntohs(x) simw_bswap16(x)
#define htonl(x) __builtin_bswap32(x)
#define ntohl(x) __builtin_bswap32(x)
