// Simulated TCP/IP: the Winsock calls of every node of a run meet here.
#include "rt_int.h"
#include "os.h"
#include "fakewin/simsock.h"
#include <deque>
#include <cstdio>
#include <memory>
using namespace sim;
namespace simos { namespace net {
struct Sock;
typedef std::shared_ptr<Sock> SP;
struct Sock {
	uint64_t id; int fam; bool bound = false, listening = false, connected = false, connecting = false, nonblock = false, closed = false;
	uint16_t lport = 0, pport = 0; int backlog = 0; uint8_t laddr[16] = {0}, paddr[16] = {0};
	std::deque<uint8_t> rx; int oob = -1; size_t inflight = 0; bool eof = false, rst = false, shut_rd = false, shut_wr = false, conn_failed = false;
	std::weak_ptr<Sock> peer; std::deque<SP> pending; uint64_t last_arrival = 0;
};
static Config g_c; static Use g_u; static std::map<uint64_t, SP> g_s; static std::set<uint64_t> g_old; static uint64_t g_next = 0x100, g_sent; static uint16_t g_eph = 49152; static std::set<uint16_t> g_given;
static WaitQ g_q; static std::map<uint64_t, int> g_errs; static int g_started; static bool g_heal;
Config &config() { return g_c; }
Use &use() { return g_u; }
size_t open_sockets() { return g_s.size(); } void first_port(uint16_t p) { g_eph = p; } bool take_port(uint16_t p) { return g_given.erase(p) > 0; }
uint64_t bytes_sent() { return g_sent; }
static uint64_t g_part; static std::vector<uint64_t> g_free; // end of the partition; closed handles
void heal() { g_heal = true; Config k = g_c; g_c = Config(); g_c.rcvbuf = k.rcvbuf; g_c.reuse = k.reuse; g_c.local_set = k.local_set; memcpy(g_c.local, k.local, 16); if (g_part > now_ns()) g_part = now_ns(); }
static uint64_t handle() { if (g_c.reuse && !g_free.empty()) { uint64_t h = g_free.back(); g_free.pop_back(); g_old.erase(h); count("probe.handle_reused"); return h; } uint64_t h = g_next; g_next += 4; return h; }
static __thread int t_err;
static int fail(int e) { t_err = e; return SOCKET_ERROR; }
static SP get(uint64_t h) { ++g_u.calls; auto it = g_s.find(h); if (it == g_s.end()) { if (g_old.count(h)) { ++g_u.on_closed; count("probe.use_after_close"); } return nullptr; } return it->second; }
static uint64_t lat() { uint64_t l = g_c.lat_min + fpick((uint32_t)g_c.lat_jitter + 1); if (fault("fault.net_stall", g_c.stall, 32)) l += 50000000ull * (1 + fpick(8)); if (now_ns() >= g_part && fault("fault.net_partition", g_c.partition, 256)) g_part = now_ns() + 500000000ull * (1 + fpick(8)); return now_ns() < g_part ? l + (g_part - now_ns()) : l; }
static uint64_t arrival(SP &to) { uint64_t t = now_ns() + lat(); if (t <= to->last_arrival) t = to->last_arrival + 1; to->last_arrival = t; return t; }
static bool wait_net(uint64_t dl, const char* what) { return block_on(g_q, dl, what); }
static void poke() { wake(g_q); }
static bool ff(const char* k, uint32_t n, uint32_t d) { if (!fault(k, n, d)) return false; ++g_u.faults; return true; }
static void do_reset(SP s) { s->rst = true; s->rx.clear(); SP p = s->peer.lock(); if (p) { p->rst = true; p->rx.clear(); } poke(); }
}}
using namespace simos::net;
#define E extern "C"
static bool is_any(const uint8_t* a) { for (int i = 0; i < 16; ++i) if (a[i]) return false; return true; }
static uint16_t port_of(const sockaddr* a) { return __builtin_bswap16(((const sockaddr_in*)a)->sin_port); }
static void addr_of(const sockaddr* a, uint8_t* o) { memset(o, 0, 16); if (a->sa_family == AF_INET6) memcpy(o, ((const sockaddr_in6*)a)->sin6_addr.s6_addr, 16); else memcpy(o, &((const sockaddr_in*)a)->sin_addr, 4); }
static void put_addr(sockaddr* a, int* len, int fam, const uint8_t* ip, uint16_t port)
{
	if (!a || !len) return;
	if (fam == AF_INET6) { sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = __builtin_bswap16(port); memcpy(s.sin6_addr.s6_addr, ip, 16); int n = *len < (int)sizeof s ? *len : (int)sizeof s; memcpy(a, &s, n); *len = sizeof s; }
	else { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = __builtin_bswap16(port); memcpy(&s.sin_addr, ip, 4); int n = *len < (int)sizeof s ? *len : (int)sizeof s; memcpy(a, &s, n); *len = sizeof s; }
}
E int simw_WSAStartup(WORD v, WSADATA* d) { if (d) { memset(d, 0, sizeof *d); d->wVersion = v; } ++g_started; return 0; }
E int simw_WSACleanup(void) { if (g_started <= 0) return fail(10093); --g_started; return 0; }
E int simw_WSAGetLastError(void) { return t_err; }
E void simw_WSASetLastError(int e) { t_err = e; }
E SOCKET simw_socket(int fam, int type, int)
{
	point("socket"); Host h; if (ff("fault.net_socket", g_c.fail_socket, 16)) { t_err = 10024; return INVALID_SOCKET; }
	if (fam != AF_INET && fam != AF_INET6) { t_err = 10047; return INVALID_SOCKET; }
	SP s = std::make_shared<Sock>(); s->id = handle(); s->fam = fam; g_s[s->id] = s; return (SOCKET)s->id;
}
E int simw_bind(SOCKET k, const sockaddr* a, int)
{
	point("bind"); Host h; SP s = get(k); if (!s) return fail(10038); uint16_t p = port_of(a);
	if (s->bound) return fail(10022);
	for (auto &o : g_s) if (o.second->bound && o.second->lport == p && p && o.second->listening) return fail(10048);
	s->bound = true; s->lport = p ? p : g_eph++; addr_of(a, s->laddr); return 0;
}
E int simw_listen(SOCKET k, int b) { point("listen"); Host h; SP s = get(k); if (!s) return fail(10038); if (!s->bound) return fail(10022); s->listening = true; s->backlog = b < 1 ? 1 : b; poke(); return 0; }
E SOCKET simw_accept(SOCKET k, sockaddr* a, int* n)
{
	point("accept");
	for (;;) {
		{
			Host h; SP s = get(k); if (!s) { t_err = 10038; return INVALID_SOCKET; } if (!s->listening) { t_err = 10022; return INVALID_SOCKET; }
			if (!s->pending.empty()) { SP c = s->pending.front(); s->pending.pop_front(); c->id = handle(); g_s[c->id] = c; put_addr(a, n, c->fam, c->paddr, c->pport); sync_acquire(c.get()); return (SOCKET)c->id; }
			if (s->nonblock) { t_err = 10035; return INVALID_SOCKET; }
			if (ff("fault.net_intr", g_c.intr, 16)) { t_err = 10004; return INVALID_SOCKET; }
			s.reset();
		}
		wait_net(UINT64_MAX, "accept");
	}
}
E int simw_connect(SOCKET k, const sockaddr* a, int)
{
	point("connect"); bool nb; 
	{
		Host h; SP s = get(k); if (!s) return fail(10038); if (s->connected) return fail(10056); if (s->listening) return fail(10022);
		if (!s->bound) { s->bound = true; s->lport = g_eph++; g_given.insert(s->lport); if (g_c.local_set) memcpy(s->laddr, g_c.local, 16); else if (s->fam == AF_INET6) s->laddr[15] = 1; else { s->laddr[0] = 127; s->laddr[3] = 1; } }
		s->connecting = true; s->conn_failed = false; s->pport = port_of(a); addr_of(a, s->paddr); nb = s->nonblock;
		bool refuse = ff("fault.net_refuse", g_c.refuse, 16); uint16_t port = s->pport; std::weak_ptr<Sock> w = s; sync_release(s.get());
		at(now_ns() + lat(), [w, port, refuse]() {
			SP c = w.lock(); if (!c || c->closed) return; SP l; for (auto &o : g_s) if (o.second->listening && o.second->lport == port && o.second->fam == c->fam && !o.second->closed && (is_any(o.second->laddr) || !memcmp(o.second->laddr, c->paddr, 16))) l = o.second;
			c->connecting = false;
			if (!l || refuse || (int)l->pending.size() >= l->backlog) { c->conn_failed = true; if (l && !refuse) count("probe.backlog_full"); poke(); return; }
			SP n = std::make_shared<Sock>(); n->fam = c->fam; n->bound = n->connected = true; n->lport = port; n->pport = c->lport; memcpy(n->paddr, c->laddr, 16); memcpy(n->laddr, c->paddr, 16);
			n->peer = c; c->peer = n; c->connected = true; l->pending.push_back(n); poke();
		});
		if (nb) return fail(10035);
	}
	for (;;) {
		{ Host h; SP s = get(k); if (!s) return fail(10038); if (s->connected) { sync_acquire(s.get()); return 0; } if (s->conn_failed) return fail(10061); s.reset(); }
		wait_net(UINT64_MAX, "connect");
	}
}
E int simw_recv(SOCKET k, char* b, int n, int flags)
{
	point("recv");
	for (;;) {
		std::vector<uint8_t> got; bool have = false;
		{
			Host h; SP s = get(k); if (!s) return fail(10038); if (s->rst) return fail(10054); if (!s->connected) return fail(10057); if (s->shut_rd) return 0;
			if (n < 0) return fail(10014);
			if (flags & MSG_OOB) { if (s->oob < 0) return fail(10022); *b = (char)s->oob; if (!(flags & MSG_PEEK)) s->oob = -1; return 1; }
			if ((!s->rx.empty() && (!(flags & MSG_WAITALL) || s->rx.size() >= (size_t)n || s->eof || s->rx.size() + 1 >= g_c.rcvbuf)) || n == 0) {
				size_t m = s->rx.size() < (size_t)n ? s->rx.size() : n;
				if (m > 1 && !(flags & MSG_WAITALL) && fault("fault.net_short_recv", g_c.short_read, 16)) m = 1 + fpick((uint32_t)m - 1);
				for (size_t i = 0; i < m; ++i) b[i] = (char)s->rx[i];
				if (!(flags & MSG_PEEK)) s->rx.erase(s->rx.begin(), s->rx.begin() + m);
				sync_acquire(s.get()); poke(); return (int)m;
			}
			if (s->eof) { sync_acquire(s.get()); return 0; }
			if (s->nonblock) return fail(10035);
			if (ff("fault.net_intr", g_c.intr, 16)) return fail(10004);
			s.reset();
		}
		wait_net(UINT64_MAX, "recv");
	}
}
E int simw_send(SOCKET k, const char* b, int n, int flags)
{
	point("send"); int done = 0;
	for (;;) {
		{
			Host h; SP s = get(k); if (!s) return fail(10038); if (s->rst) return fail(10054); if (!s->connected) return fail(10057); if (s->shut_wr) return fail(10058);
			if (n < 0) return fail(10014);
			SP p = s->peer.lock(); if (!p || p->closed) { s->rst = true; poke(); return fail(10054); }
			if (ff("fault.net_reset", g_c.reset, 256)) { do_reset(s); return fail(10054); }
			size_t used = p->rx.size() + p->inflight, win = used < g_c.rcvbuf ? g_c.rcvbuf - used : 0;
			size_t m = (size_t)(n - done) < win ? n - done : win; bool urgent = (flags & MSG_OOB) && m && done + (int)m == n; // the last byte travels outside the stream
			if (m) {
				bool shortw = m > 1 && fault("fault.net_short_send", g_c.short_write, 16); if (shortw) m = 1 + fpick((uint32_t)m - 1);
				if (shortw) urgent = false; size_t o = 0, in = urgent ? m - 1 : m; sync_release(p.get());
				if (urgent) { uint8_t u = (uint8_t)b[done + m - 1]; std::weak_ptr<Sock> w = p; count("probe.net_oob"); at(arrival(p), [w, u]() { SP q = w.lock(); if (q) q->oob = u; poke(); }); }
				while (o < in) {
					size_t k2 = in - o; if (k2 > 1 && fault("fault.net_split", g_c.seg_split, 16)) k2 = 1 + fpick((uint32_t)k2 - 1);
					auto seg = std::make_shared<std::vector<uint8_t>>((const uint8_t*)b + done + o, (const uint8_t*)b + done + o + k2); p->inflight += k2; std::weak_ptr<Sock> w = p;
					at(arrival(p), [w, seg]() { SP q = w.lock(); if (!q) return; q->inflight -= seg->size(); if (!q->rst) q->rx.insert(q->rx.end(), seg->begin(), seg->end()); poke(); });
					o += k2;
				}
				g_sent += m; done += (int)m;
				if (done == n || s->nonblock || shortw) return done;
			} else if (n == done) return done;
			else if (s->nonblock) { if (done) return done; return fail(10035); }
			else if (ff("fault.net_intr", g_c.intr, 16)) { if (done) return done; return fail(10004); }
			s.reset(); p.reset();
		}
		wait_net(UINT64_MAX, "send");
	}
}
static void send_fin(SP s) { SP p = s->peer.lock(); if (!p) return; std::weak_ptr<Sock> w = p; sync_release(p.get()); at(arrival(p), [w]() { SP q = w.lock(); if (q) { q->eof = true; poke(); } }); }
E int simw_shutdown(SOCKET k, int how)
{
	point("shutdown"); Host h; SP s = get(k); if (!s) return fail(10038); if (!s->connected) return fail(10057);
	if (how == SD_RECEIVE || how == SD_BOTH) s->shut_rd = true; if ((how == SD_SEND || how == SD_BOTH) && !s->shut_wr) { s->shut_wr = true; send_fin(s); } poke(); return 0;
}
E int simw_closesocket(SOCKET k)
{
	point("close"); Host h; SP s = get(k); if (!s) return fail(10038); s->closed = true;
	if (s->connected) { if (!s->rx.empty() || s->inflight) do_reset(s); else if (!s->shut_wr) send_fin(s); } // unread data: the peer gets a reset
	for (auto &p : s->pending) { SP c = p->peer.lock(); if (c) c->rst = true; }
	g_s.erase(k); g_old.insert(k); g_free.push_back(k); poke(); return 0;
}
E int simw_ioctlsocket(SOCKET k, long cmd, unsigned long* v) { Host h; SP s = get(k); if (!s) return fail(10038); if ((uint32_t)cmd == FIONBIO) s->nonblock = *v != 0; else if ((uint32_t)cmd == FIONREAD) *v = s->rx.size(); return 0; }
E int simw_setsockopt(SOCKET k, int, int, const char*, int) { Host h; return get(k) ? 0 : fail(10038); }
E int simw_getsockopt(SOCKET k, int, int, char* v, int* n) { Host h; SP s = get(k); if (!s) return fail(10038); memset(v, 0, *n); return 0; }
E int simw_getpeername(SOCKET k, sockaddr* a, int* n) { Host h; SP s = get(k); if (!s) return fail(10038); if (!s->connected) return fail(10057); if (*n < (s->fam == AF_INET6 ? 28 : 16)) return fail(10014); put_addr(a, n, s->fam, s->paddr, s->pport); return 0; }
E int simw_getsockname(SOCKET k, sockaddr* a, int* n) { Host h; SP s = get(k); if (!s) return fail(10038); if (!s->bound) return fail(10022); if (*n < (s->fam == AF_INET6 ? 28 : 16)) return fail(10014); put_addr(a, n, s->fam, s->laddr, s->lport); return 0; }
static bool rd_ready(SP &s) { return s->listening ? !s->pending.empty() : (!s->rx.empty() || s->eof || s->rst || s->shut_rd); }
static bool wr_ready(SP &s) { SP p = s->peer.lock(); return s->connected && (s->rst || !p || p->rx.size() + p->inflight < g_c.rcvbuf); }
E int simw_select(int, simw_fdset* r, simw_fdset* w, simw_fdset* x, const timeval* tv)
{
	point("select"); uint64_t dl = tv ? now_ns() + (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000 + 1 : UINT64_MAX;
	for (;;) {
		{
			Host h; simw_fdset R, W, X; R.fd_count = W.fd_count = X.fd_count = 0;
			for (int q = 0; q < 3; ++q) { simw_fdset* f = q == 0 ? r : q == 1 ? w : x; simw_fdset* o = q == 0 ? &R : q == 1 ? &W : &X; if (!f) continue;
				for (uint32_t i = 0; i < f->fd_count; ++i) { SP s = get(f->fd_array[i]); if (!s) return fail(10038); bool y = q == 0 ? rd_ready(s) : q == 1 ? wr_ready(s) : s->conn_failed; if (y) { o->fd_array[o->fd_count++] = f->fd_array[i]; sync_acquire(s.get()); } } }
			int n = (int)(R.fd_count + W.fd_count + X.fd_count);
			if (n || now_ns() >= dl) { if (r) *r = R; if (w) *w = W; if (x) *x = X; return n; }
		}
		wait_net(dl, "select");
	}
}
E int simw_FD_ISSET(SOCKET k, simw_fdset* f) { for (uint32_t i = 0; i < f->fd_count; ++i) if (f->fd_array[i] == k) return 1; return 0; }
E int host_pton(int, const char*, void*) __asm__("inet_pton"); E const char* host_ntop(int, const void*, char*, unsigned) __asm__("inet_ntop"); // of the host; its family numbers are 2 and 10
E int simw_inet_pton(int fam, const char* s, void* o) { Host h; return host_pton(fam == AF_INET6 ? 10 : 2, s, o); }
E const char* simw_inet_ntop(int fam, const void* a, char* o, size_t n) { Host h; return host_ntop(fam == AF_INET6 ? 10 : 2, a, o, (unsigned)n); }
E int simw_getaddrinfo(const char* host, const char* svc, const addrinfo* hint, addrinfo** out)
{
	Host h; int fam = hint && hint->ai_family ? hint->ai_family : AF_INET; if (host && !strcmp(host, "nohost")) return 11001;
	addrinfo* a = (addrinfo*)calloc(1, sizeof *a); sockaddr_in6* sa = (sockaddr_in6*)calloc(1, sizeof *sa); int port = svc ? atoi(svc) : 0;
	a->ai_family = fam; a->ai_socktype = 1; a->ai_protocol = 6; a->ai_addr = (sockaddr*)sa;
	if (fam == AF_INET6) { sa->sin6_family = AF_INET6; sa->sin6_port = __builtin_bswap16(port); if (host) host_pton(10, host, sa->sin6_addr.s6_addr); a->ai_addrlen = 28; }
	else { sockaddr_in* s4 = (sockaddr_in*)sa; s4->sin_family = AF_INET; s4->sin_port = __builtin_bswap16(port); uint8_t lo[4] = {127, 0, 0, 1}; if (!host || !host_pton(2, host, &s4->sin_addr)) memcpy(&s4->sin_addr, lo, 4); a->ai_addrlen = 16; }
	*out = a; return 0;
}
E void simw_freeaddrinfo(addrinfo* a) { Host h; while (a) { addrinfo* n = a->ai_next; free(a->ai_addr); free(a); a = n; } }
E int simw_getnameinfo(const sockaddr*, int, char* h, DWORD n, char* s, DWORD m, int) { if (h && n) h[0] = 0; if (s && m) s[0] = 0; return 0; }
E int simw_gethostname(char* b, int n) { snprintf(b, n, "simnode"); return 0; }
E hostent* simw_gethostbyname(const char*) { return nullptr; }
E hostent* simw_gethostbyaddr(const char*, int, int) { return nullptr; }
E servent* simw_getservbyname(const char* n, const char*) { static servent s; static char nm[32]; snprintf(nm, sizeof nm, "%s", n); s.s_name = nm; s.s_port = (short)__builtin_bswap16((uint16_t)atoi(n)); return atoi(n) ? &s : nullptr; }
E int simw_WSAAddressToStringW(sockaddr*, DWORD, void*, WCHAR* b, DWORD* n) { if (*n) b[0] = 0; return 0; }
