// C12: clients and servers on a simulated network.
#include "cx.h"
#include <atomic>
#include "SocketClient.h"
#include "SocketServer.h"
#include "NetworkTools.h"
using namespace cx;
namespace {
using namespace CEX::Network;
using Enumeration::SocketSendFlags; using Enumeration::SocketReceiveFlags;
typedef std::string Str;
void nap(uint64_t ns) { sim::WaitQ q; sim::block_on(q, sim::now_ns() + ns, "sleep"); }
template <class F> bool until(uint64_t ns, F f) { uint64_t e = sim::now_ns() + ns; while (!f()) { if (sim::now_ns() >= e) return false; nap(5000000); } return true; }
const uint64_t SEC = 1000000000ull, AGES = 900 * SEC;
struct Addr { bool v6 = false; ipv4_address a4; ipv6_address a6; Str s; };
Addr pick_addr(bool v6) { Addr a; a.v6 = v6; uint8_t b[16] = {0}; unsigned how = sim::pick(3); if (how == 1) { if (v6) b[15] = 1; else { b[0] = 127; b[3] = 1; } } else if (how == 2) { Bytes r = sim::bytes(16); memcpy(b, r.data(), 16); if (v6) for (int i = 0; i < 16; i += 2) if (sim::chance(1, 3)) b[i] = b[i + 1] = 0; if (!b[0]) b[0] = 10; } a.a4 = ipv4_address(b[0], b[1], b[2], b[3]); a.a6 = ipv6_address(b); return a; }
bool any(const Addr &a) { return a.v6 ? a.a6 == ipv6_address::Any() : a.a4 == ipv4_address::Any(); }
bool same(const Addr &a, const Addr &b) { return a.v6 ? a.a6 == b.a6 : a.a4 == b.a4; }
Str text(const Addr &a) { char b[64]; if (!a.v6) snprintf(b, sizeof b, "%u.%u.%u.%u", a.a4.a1, a.a4.a2, a.a4.a3, a.a4.a4); else { Bytes v = ipv6_address::ToVector(a.a6); int z = -1; if (v[4] == 0 && v[5] == 0 && v[6] == 0 && v[7] == 0) z = 2; Str o; for (int i = 0; i < 8; ++i) { if (i == z) { o += "::"; i += 1; continue; } snprintf(b, sizeof b, "%s%x", i && o.back() != ':' ? ":" : "", v[2 * i] << 8 | v[2 * i + 1]); o += b; } return o; } return b; }
auto fam(bool v6) { return v6 ? Enumeration::SocketAddressFamilies::IPv6 : Enumeration::SocketAddressFamilies::IPv4; }
bool connect(SocketClient &c, const Addr &a, uint16_t port) { return a.v6 ? c.Connect(a.a6, port) : c.Connect(a.a4, port); }
// what the two ends of a connection have done so far
struct Flow { uint64_t key = 0; std::atomic<uint64_t> offered{0}, sent{0}, got{0}; std::atomic<bool> closed{false}, ended{false}; uint8_t at(uint64_t i) { return (uint8_t)((key >> (8 * (i % 8))) * 31 + i * 7 + (i >> 8) * 13); } };
struct Link { Flow f[2]; std::atomic<bool> broken{false}; };
struct Ends { unsigned connected = 0, disconnected = 0, errors = 0; uint64_t sent = 0, sends = 0; };
// the address clients connect from, in the text the system gives it
Str ntop(const Addr &a) { uint8_t q[16] = {0}; if (a.v6) { Bytes v = ipv6_address::ToVector(a.a6); memcpy(q, v.data(), 16); } else { q[0] = a.a4.a1; q[1] = a.a4.a2; q[2] = a.a4.a3; q[3] = a.a4.a4; } char b[64]; inet_ntop(a.v6 ? AF_INET6 : AF_INET, q, b, sizeof b); return b; }
Addr client_from(bool v6) { Addr a; do a = pick_addr(v6); while (any(a)); auto &n = simos::net::config(); memset(n.local, 0, 16); if (v6) { Bytes v = ipv6_address::ToVector(a.a6); memcpy(n.local, v.data(), 16); } else { n.local[0] = a.a4.a1; n.local[1] = a.a4.a2; n.local[2] = a.a4.a3; n.local[3] = a.a4.a4; } n.local_set = true; simos::net::first_port((uint16_t)(49152 + sim::pick(16000))); a.s = ntop(a); return a; }
bool given(uint16_t p) { sim::Host h; return simos::net::take_port(p); }
uint64_t net_faults() { sim::Host h; return simos::net::use().faults; }
// one end of a connection
struct End {
	SocketClient &c; Link &l; unsigned me; const char* nm; std::atomic<unsigned> dis{0}, err{0}, sends{0}, lastsent{0}; std::atomic<bool> async{false}; bool gone = false, recv_async = false; std::vector<uint8_t> evt; bool inevt = false;
	Flow &out() { return l.f[me]; } Flow &in() { return l.f[1 - me]; }
	End(SocketClient &cc, Link &ll, unsigned m) : c(cc), l(ll), me(m), nm(m ? "server" : "client")
	{
		c.OnSocketReceived += CEX::event_handler<int32_t, const std::vector<uint8_t>&>([this](int32_t, const std::vector<uint8_t> &v) { if (recv_async) take(v, v.size(), "ReceiveAsync"); else { evt = v; inevt = true; } });
		c.OnSocketDisconnected += CEX::event_handler<int32_t, const std::string&>([this](int32_t, const std::string&) { ++dis; });
		c.OnSocketError += CEX::event_handler<SocketExceptions, const std::string&>([this](SocketExceptions, const std::string &s) { ++err; sim::log("%s: error event: %s", nm, s.c_str()); });
		c.OnSocketSent += CEX::event_handler<int32_t>([this](int32_t n) { lastsent = (unsigned)n; ++sends; });
	}
	void take(const std::vector<uint8_t> &v, size_t n, const char* how)
	{
		uint64_t p = in().got, o = in().offered; sim::log("%s: %s gave %zu bytes at %llu", nm, how, n, (unsigned long long)p); SIM_CHECK(n <= v.size(), "socket:length", "%s: %s reported %zu bytes in a buffer of %zu", nm, how, n, v.size());
		SIM_CHECK(p + n <= o, "socket:made-up", "%s: %s delivered %llu bytes, the peer sent %llu", nm, how, (unsigned long long)(p + n), (unsigned long long)o);
		for (size_t i = 0; i < n; ++i) if (v[i] != in().at(p + i)) sim::violation("socket:bytes", "%s: %s delivered %02x at position %llu, the peer sent %02x", nm, how, v[i], (unsigned long long)(p + i), in().at(p + i));
		in().got = p + n; if (n) sim::nontrivial();
	}
	void at_end() { in().ended = true; SIM_CHECK(in().closed || l.broken || net_faults(), "socket:end", "%s: the end of the data was reported, the peer has not closed", nm); uint64_t g = in().got, s = in().sent; SIM_CHECK(g == s || l.broken || net_faults(), "socket:lost", "%s: the end of the data was reported after %llu bytes, the peer sent %llu and closed", nm, (unsigned long long)g, (unsigned long long)s); sim::count("op.end_of_data"); }
	void failed(const R &r, const char* op) { bool ex = net_faults() || l.broken || out().ended || in().closed; if (!ex) sim::violation("socket:refused", "%s: %s failed without a fault: %s", nm, op, r.what.c_str()); SIM_CHECK(r.o == Out::crypto, "socket:refused", "%s: %s ended in %s", nm, op, r.what.c_str()); l.broken = true; gone = true; sim::log("%s: %s failed: %s", nm, op, r.what.c_str()); sim::count("probe.broken"); sim::nontrivial(); }
	void send(size_t n, bool as)
	{
		Bytes b; bool fresh = true; while (n && !gone) {
			if (fresh) { b.resize(n + sim::pick(3)); uint64_t p = out().sent; for (size_t i = 0; i < b.size(); ++i) b[i] = i < n ? out().at(p + i) : 0xEE; out().offered = p + n; fresh = false; }
			uint32_t k = 0; unsigned how = sim::pick(3), s0 = sends, e0 = err; R r;
			if (as) { r = call([&] { c.SendAsync(b, n, SocketSendFlags::None); }); b.assign(b.size(), 0x55); if (r.ok()) { SIM_CHECK(until(AGES, [&] { return sends != s0 || err != e0; }), "socket:no-event", "%s: SendAsync reported neither success nor failure", nm); if (sends == s0) { R q; q.o = Out::crypto; q.what = "error event"; failed(q, "SendAsync"); return; } k = lastsent; sim::count("op.send_async"); } }
			else { r = call([&] { k = how == 0 ? c.Send(b, n) : c.Send(b, n, SocketSendFlags::None); }); sim::count("op.send"); if (r.ok() && k) SIM_CHECK(sends == s0 + 1 && lastsent == k, "socket:sent-event", "%s: Send of %u bytes raised %u events, the last of %u bytes", nm, k, sends - s0, (unsigned)lastsent); }
			if (!r.ok()) { failed(r, as ? "SendAsync" : "Send"); return; }
			SIM_CHECK(k <= n, "socket:sent-too-much", "%s: sending %zu bytes reported %u", nm, n, k); out().sent += k; sim::log("%s: sent %u of %zu", nm, k, n); if (!k) { failed(R{Out::crypto, "nothing was sent"}, "Send"); return; }
			n -= k; b.erase(b.begin(), b.begin() + k); if (n) { fresh = true; sim::count("probe.short_send"); } }
	}
	void receive(uint64_t upto) // reads until the peer's stream is at this position, or to its end
	{
		while (!gone && !in().ended && in().got < upto) {
			uint64_t left = upto - in().got; unsigned how = sim::pick(5); size_t n = 1 + sim::pick_size((uint32_t)(left < 3000 ? left : 3000)); if (n > left) n = left; Bytes b(n, 0xDD); uint32_t k = 0; R r; bool ended = false;
			switch (how) {
			case 0: inevt = false; r = call([&] { k = c.Receive(n); }); if (r.ok() && k) { SIM_CHECK(inevt && evt.size() == k, "socket:received-event", "%s: Receive returned %u and the event gave %zu bytes", nm, k, evt.size()); take(evt, k, "Receive"); } break;
			case 1: r = call([&] { k = c.Receive(b, SocketReceiveFlags::Peek); }); if (r.ok() && k) { SIM_CHECK(k <= n, "socket:length", "%s: a peek of %u bytes into %zu", nm, k, n); uint64_t p = in().got; for (unsigned i = 0; i < k; ++i) SIM_CHECK(b[i] == in().at(p + i), "socket:peek", "%s: a peek shows %02x at %llu, the peer sent %02x", nm, b[i], (unsigned long long)(p + i), in().at(p + i)); } break;
			case 2: r = call([&] { k = c.Receive(b, SocketReceiveFlags::WaitAll); }); if (r.ok() && k) { take(b, k, "Receive"); } break;
			default: r = call([&] { k = c.Receive(b); }); if (r.ok() && k) take(b, k, "Receive"); break; }
			sim::count("op.receive"); if (!r.ok()) { failed(r, "Receive"); return; } if (!k) ended = true; if (ended) { at_end(); return; } }
	}
	void shut() { out().closed = true; R r = call([&] { c.ShutDown(); }); sim::log("%s: shut down", nm); if (!r.ok() && !net_faults()) sim::violation("socket:refused", "%s: ShutDown failed: %s", nm, r.what.c_str()); }
};
void random_net(bool faults)
{
	auto &n = simos::net::config(); n.lat_min = 1000ull * (1 + sim::pick(200)); n.lat_jitter = 1000ull * sim::pick(2000); n.rcvbuf = sim::chance(1, 3) ? 16 + sim::pick(200) : 1024 << sim::pick(7); n.seg_split = sim::pick(3) * 4; n.short_read = sim::pick(3) * 3; n.short_write = sim::pick(3) * 2; n.reuse = sim::chance(1, 2);
	if (faults) { n.stall = sim::pick(3); n.partition = sim::pick(3) * 4; if (sim::chance(1, 2)) n.reset = 1 + sim::pick(12); if (sim::chance(1, 3)) n.refuse = sim::pick(6); if (sim::chance(1, 4)) n.fail_socket = 1 + sim::pick(3); if (sim::chance(1, 5)) n.intr = 1; }
}
}
SCENARIO(socket_stream, "C12", "data crossed the network or a call failed")
{
	sim::random_machine(); sim::sched_random(); bool v6 = sim::chance(1, 3), faults = sim::chance(1, 2); random_net(faults); Addr A = pick_addr(v6), B; do B = pick_addr(v6); while (any(B)); if (!any(A) && sim::chance(3, 4)) B = A; uint16_t port = (uint16_t)(1 + sim::pick(65535)); if (port >= 49152) port -= 20000;
	bool wrong = !any(A) && !same(A, B); Addr from = client_from(v6); Str dest = ntop(B); Link L; L.f[0].key = sim::pick(1u << 30) * 77777777777ull + 1; L.f[1].key = ~L.f[0].key * 3; struct Step { unsigned who; unsigned n; bool as; }; std::vector<Step> plan; unsigned ns = sim::pick_range(0, 5); for (unsigned i = 0; i < ns; ++i) plan.push_back({sim::pick(2), 1 + sim::pick_size(sim::chance(1, 4) ? 20000 : 600), sim::chance(1, 4)}); unsigned closer = sim::pick(2); bool ra[2] = {sim::chance(1, 4), sim::chance(1, 4)}; bool casync = sim::chance(1, 3), chost = !casync && sim::chance(1, 4);
	sim::log("%s %s port %u, client goes to %s, %zu steps, %s closes%s%s%s", v6 ? "IPv6" : "IPv4", text(A).c_str(), port, text(B).c_str(), plan.size(), closer ? "server" : "client", ra[0] ? ", client reads async" : "", ra[1] ? ", server reads async" : "", casync ? ", connects async" : "");
	std::atomic<bool> listening(false), served(false), gaveup(false); std::atomic<unsigned> stand(0); std::vector<std::unique_ptr<Socket>> bystand[2];
	auto session = [&](SocketClient &c, unsigned me) {
		End e(c, L, me); if (ra[me]) { e.recv_async = true; R r = call([&] { c.ReceiveAsync(1 + sim::pick_size(2000), SocketReceiveFlags::None); }); if (!r.ok()) sim::violation("socket:refused", "ReceiveAsync failed: %s", r.what.c_str()); sim::count("op.receive_async"); }
		uint64_t want = 0; for (auto &s : plan) { if (e.gone) break; if (s.who == me) e.send(s.n, s.as); else { want += s.n; if (ra[me]) { SIM_CHECK(until(AGES, [&] { return e.in().got >= want || e.dis; }), "socket:stalled", "%s: %llu of %llu bytes arrived", e.nm, (unsigned long long)e.in().got, (unsigned long long)want); if (e.dis && e.in().got < want) { SIM_CHECK(net_faults() || L.broken, "socket:disconnected", "%s: disconnected after %llu of %llu bytes without a fault", e.nm, (unsigned long long)e.in().got, (unsigned long long)want); L.broken = true; e.gone = true; } } else e.receive(want); if (e.in().ended && e.in().got < want) e.gone = true; } }
		if (me == closer || e.gone) { unsigned d0 = e.dis; (void)d0; e.shut(); }
		else if (ra[me]) { SIM_CHECK(until(AGES, [&] { return e.dis > 0; }), "socket:stalled", "%s: the peer closed and the asynchronous receiver does not end", e.nm); if (e.err && net_faults()) { L.broken = true; sim::count("probe.broken"); } e.at_end(); e.shut(); }
		else { e.receive(UINT64_MAX); e.shut(); }
		SIM_CHECK(until(AGES, [&] { return e.dis > 0; }), "socket:no-disconnect-event", "%s: no event for the end of the connection", e.nm); nap(SEC); SIM_CHECK(e.dis == 1, "socket:disconnect-events", "%s: %u events for the end of one connection", e.nm, (unsigned)e.dis);
		if (sim::chance(1, 2)) { std::unique_ptr<Socket> s(new Socket(fam(v6), Enumeration::SocketProtocols::TCP, Enumeration::SocketTransports::Stream)); if (SocketBase::Create(*s)) bystand[me].push_back(std::move(s)); }
		R r = call([&] { Bytes b(3); c.Send(b, 3, SocketSendFlags::None); }); SIM_CHECK(!r.ok(), "socket:send-after-close", "%s: sending after ShutDown succeeded", e.nm); r = call([&] { c.ShutDown(); }); sim::wait_quiesce(SEC); };
	sim::Thread srv = sim::spawn([&] {
		SocketServer s(fam(v6)); std::atomic<unsigned> acc(0); s.OnSocketAccepted += CEX::event_handler<int32_t, Socket&>([&](int32_t, Socket&) { ++acc; }); 
		for (unsigned tries = 0; tries < 40 && !gaveup; ++tries) { Socket t; listening = true; R r = call([&] { t = v6 ? s.Listen(A.a6, port) : s.Listen(A.a4, port); }); if (!r.ok()) { SIM_CHECK(net_faults() && r.o == Out::crypto, "socket:refused", "Listen failed: %s", r.what.c_str()); nap(20000000); continue; } if (t.Connection == UNINITIALIZED_SOCKET || !acc) { SIM_CHECK(net_faults(), "socket:refused", "Listen returned no connection"); continue; }
			SIM_CHECK(acc == 1, "socket:accepted-events", "%u events for one accepted connection", (unsigned)acc); SIM_CHECK(t.Address == from.s && given(t.Port), "socket:peer-address", "the accepted connection comes from %s, it is said to come from %s port %u", from.s.c_str(), t.Address.c_str(), t.Port); Str pn; R r2 = call([&] { pn = Tools::NetworkTools::GetPeerName(t); }); SIM_CHECK(r2.ok() && pn == t.Address, "socket:peer-address", "the peer of the accepted connection is %s, its name %s", t.Address.c_str(), r2.ok() ? pn.c_str() : r2.what.c_str()); r2 = call([&] { pn = Tools::NetworkTools::GetSocketName(t); }); SIM_CHECK(r2.ok() && pn == dest, "socket:own-address", "the accepted connection was made to %s, its name is %s", dest.c_str(), r2.ok() ? pn.c_str() : r2.what.c_str()); served = true; SocketClient c(t); session(c, 1); break; } }, "server");
	{
		SocketClient c(fam(v6)); std::atomic<unsigned> con(0), errs(0); c.OnSocketConnected += CEX::event_handler<int32_t, const std::string&>([&](int32_t, const std::string &w) { ++con; }); c.OnSocketError += CEX::event_handler<SocketExceptions, const std::string&>([&](SocketExceptions, const std::string&) { ++errs; });
		bool ok = false; unsigned tries = wrong ? 3 : 200; while (!listening) nap(1000000);
		for (unsigned t = 0; t < tries && !ok; ++t) { nap(20000000); unsigned e0 = errs; R r; if (casync) { r = call([&] { c.ConnectAsync(text(B), port); }); if (r.ok()) { SIM_CHECK(until(AGES, [&] { return con || errs != e0; }), "socket:no-event", "ConnectAsync reported neither success nor failure"); nap(SEC); SIM_CHECK(con + (errs - e0) == 1, "socket:connect-events", "ConnectAsync raised %u connected and %u error events", (unsigned)con, (unsigned)errs - e0); ok = con > 0; } sim::count("op.connect_async"); }
			else { if (chost) { Str svc = std::to_string(port); r = call([&] { ok = c.Connect(text(B), svc); }); } else r = call([&] { ok = connect(c, B, port); }); sim::count(chost ? "op.connect_host" : "op.connect"); if (r.ok()) SIM_CHECK(con == (ok ? 1u : 0u) && errs - e0 == (ok ? 0u : 1u), "socket:connect-events", "Connect returned %s and raised %u connected and %u error events", ok ? "true" : "false", (unsigned)con, (unsigned)errs - e0); }
			if (!r.ok()) SIM_CHECK(net_faults() && r.o == Out::crypto, "socket:refused", "Connect failed: %s", r.what.c_str()); }
		if (wrong) { SIM_CHECK(!ok, "socket:address", "a server bound to %s accepted a connection to %s", text(A).c_str(), text(B).c_str()); sim::count("probe.wrong_address"); }
		if (ok) { Str pn; R r = call([&] { pn = Tools::NetworkTools::GetPeerName(c.BaseSocket()); }); SIM_CHECK((r.ok() && pn == dest) || net_faults() || L.broken, "socket:peer-address", "the client connected to %s, the peer's name is %s", dest.c_str(), r.ok() ? pn.c_str() : r.what.c_str()); SIM_CHECK(until(AGES, [&] { return served.load(); }) || net_faults(), "socket:not-accepted", "the client is connected, the server did not accept it"); session(c, 0); }
		else { gaveup = true; if (!wrong) SIM_CHECK(net_faults(), "socket:refused", "200 connections were refused without a fault"); // end the server's wait
			simos::net::heal(); L.broken = true; SocketClient z(fam(v6)); for (unsigned t = 0; t < 200 && !served; ++t) { bool k = false; call([&] { if (!any(A)) { sim::Host h; dest = ntop(A); } k = connect(z, any(A) ? B : A, port); }); if (k) { call([&] { z.ShutDown(); }); break; } nap(20000000); } }
	}
	sim::join(srv); SIM_CHECK(sim::wait_quiesce(AGES), "socket:threads", "%u threads are still there after everything was closed", sim::live_threads() - 1);
	unsigned by = 0; for (auto &v : bystand) for (auto &s : v) { R r = call([&] { SocketBase::CloseSocket(*s); }); SIM_CHECK(r.ok(), "socket:foreign-close", "a socket that was opened after the connection ended is not open any more: %s", r.what.c_str()); ++by; }
	size_t left; { sim::Host h; left = simos::net::open_sockets(); } SIM_CHECK(left == 0, "socket:leak", "%zu sockets are still open after everything was closed", left); sim::mix(by);
	if (!L.broken && served && !wrong) for (unsigned d = 0; d < 2; ++d) { uint64_t g = L.f[d].got, s = L.f[d].sent; SIM_CHECK(g == s, "socket:lost", "the %s sent %llu bytes and %llu arrived, no fault ended the connection", d ? "server" : "client", (unsigned long long)s, (unsigned long long)g); }
}
// A server with several clients: each connection is announced once, carries its own data, and the server stops and starts again at any time.
SCENARIO(socket_server, "C12", "a client was served")
{
	sim::random_machine(); sim::sched_random(); bool v6 = sim::chance(1, 3), faults = sim::chance(1, 2); random_net(faults); auto &cf = simos::net::config(); cf.reuse = false; Addr A = pick_addr(v6), B; do B = pick_addr(v6); while (any(B)); if (!any(A)) B = A; uint16_t port = (uint16_t)(1 + sim::pick(40000)); Addr from = client_from(v6);
	unsigned rounds = 1 + sim::pick(3); bool idle = sim::chance(1, 4); uint32_t limit = sim::chance(1, 3) ? 1 + sim::pick(3) : 10000, backlog = sim::chance(1, 3) ? 1 + sim::pick(3) : 100;
	sim::log("%s %s port %u, at most %u connections, backlog %u%s", v6 ? "IPv6" : "IPv4", text(A).c_str(), port, limit, backlog, idle ? ", idle connections" : "");
	// a connection is known to both ends by the number of the client, which is the first thing it sends
	struct Peer { std::atomic<unsigned> served{0}; std::atomic<bool> ok{false}, done{false}; unsigned n = 0; };
	struct World { std::vector<Peer> peers = std::vector<Peer>(32); std::atomic<unsigned> acc{0}, errs{0}, sessions{0}, blank{0}; std::atomic<bool> stopped{false}, stop_in{false}, dead{true}; std::vector<sim::Thread> th; } W;
	auto session = [&](Socket copy) {
		// echoes what follows the number, until the client closes
		{ SocketClient c(copy); Peer* p = nullptr; bool go = true; while (go) {
			Bytes b(p ? 1 + sim::pick(40) : 1); uint32_t k = 0; R r = call([&] { k = c.Receive(b); }); if (!r.ok() || !k) { if (!r.ok() && !net_faults() && !W.stopped && !(p && p->done)) sim::violation("socket:refused", "a session of the server: Receive failed: %s", r.what.c_str()); break; }
			if (!p) { SIM_CHECK(b[0] < W.peers.size(), "socket:bytes", "a session starts with %u", b[0]); p = &W.peers[b[0]]; SIM_CHECK(++p->served == 1, "socket:accepted-twice", "the connection of client %u was announced twice", b[0]); continue; }
			b.resize(k); while (!b.empty()) { uint32_t m = 0; r = call([&] { m = c.Send(b, b.size()); }); if (!r.ok() || !m) { if (!net_faults() && !W.stopped && !p->done) sim::violation("socket:refused", "a session of the server: Send failed: %s", r.what.c_str()); go = false; break; } b.erase(b.begin(), b.begin() + m); } }
		if (!p) ++W.blank; call([&] { c.ShutDown(); }); } --W.sessions; };
	{
		std::unique_ptr<SocketServer> s(new SocketServer(fam(v6))); s->MaxConnections() = limit; s->Backlog() = backlog; SocketServer* sp = s.get();
		s->OnSocketError += CEX::event_handler<SocketExceptions, const std::string&>([&](SocketExceptions, const std::string &w) { ++W.errs; sim::log("server: error event: %s", w.c_str()); });
		s->OnAsyncSocketAccepted += CEX::event_handler<int32_t, Socket&>([&, sp](int32_t, Socket &k) {
			SIM_CHECK(!W.dead, "socket:after-stop", "a connection was announced after ListenStop returned"); ++W.acc; SIM_CHECK(k.Connection != UNINITIALIZED_SOCKET && k.Address == from.s && given(k.Port), "socket:peer-address", "the accepted connection comes from %s, it is said to come from %s port %u", from.s.c_str(), k.Address.c_str(), k.Port); sim::nontrivial();
			if (W.stop_in.exchange(false)) { sim::log("stopped from the handler"); sim::count("op.stop_in_handler"); W.stopped = true; sp->ListenStop(); }
			if (!idle) { ++W.sessions; Socket copy(k); sim::Thread t = sim::spawn([&, copy] { session(copy); }, "session"); sim::Host h; W.th.push_back(t); } });
		unsigned first = 0; for (unsigned round = 0; round < rounds && s; ++round) {
			bool up = false; W.stopped = false; for (unsigned t = 0; t < 60 && !up; ++t) { W.dead = false; unsigned e0 = W.errs; R r = call([&] { if (v6) s->ListenAsync(A.a6, port); else s->ListenAsync(A.a4, port); }); up = r.ok() && W.errs == e0; if (!up) { SIM_CHECK(net_faults() && (r.ok() || r.o == Out::crypto), "socket:refused", "ListenAsync failed on a free port: %s", r.what.c_str()); W.dead = true; nap(10000000); } }
			if (!up) break; SIM_CHECK(s->IsListening() && !s->IsClosed(), "socket:state", "the server listens and says IsListening %d, IsClosed %d", s->IsListening(), s->IsClosed()); sim::count("op.listen_async");
			if (sim::chance(1, 6)) { R r = call([&] { if (v6) s->ListenAsync(A.a6, port); else s->ListenAsync(A.a4, port); }); SIM_CHECK(r.o == Out::crypto, "socket:listen-twice", "ListenAsync on a listening server: %s", r.ok() ? "no error" : r.what.c_str()); }
			unsigned nc = sim::pick_range(0, limit < 10000 ? 2 * limit + 1 : 4), a0 = W.acc, b0 = W.blank; bool inh = nc && sim::chance(1, 5), early = inh || sim::chance(1, 3); if (inh) W.stop_in = true; for (unsigned i = 0; i < nc; ++i) W.peers[first + i].n = sim::pick(5) ? 1 + sim::pick_size(400) : 0;
			std::vector<sim::Thread> cl; std::atomic<unsigned> running(nc), conn(0);
			for (unsigned i = 0; i < nc; ++i) cl.push_back(sim::spawn([&, i, first] {
				unsigned id = first + i; Peer &p = W.peers[id]; nap(1000000ull * sim::pick(300)); SocketClient c(fam(v6)); bool ok = false; for (unsigned t = 0; t < 100 && !ok && !W.stopped; ++t) { R r = call([&] { ok = connect(c, B, port); }); if (!r.ok()) SIM_CHECK(net_faults() && r.o == Out::crypto, "socket:refused", "Connect failed: %s", r.what.c_str()); if (!ok) nap(20000000); }
				auto fine = [&](const R &r, const char* op) { if (r.ok()) return true; SIM_CHECK(net_faults() || W.stopped, "socket:refused", "client %u: %s failed without a fault: %s", id, op, r.what.c_str()); SIM_CHECK(r.o == Out::crypto, "socket:refused", "client %u: %s ended in %s", id, op, r.what.c_str()); return false; };
				if (!ok) SIM_CHECK(net_faults() || W.stopped || backlog < nc || limit < 10000, "socket:refused", "client %u: 100 connections were refused without a fault", id);
				else if (idle) { ++conn; if (sim::chance(1, 2)) { Bytes b(1); R r = call([&] { c.Receive(b); }); if (r.ok()) SIM_CHECK(W.stopped, "socket:end", "an idle connection ended before the server was stopped"); while (!W.dead) nap(10000000); } else while (!W.dead) nap(10000000); }
				else { ++conn; Bytes hello(1, (uint8_t)id); uint32_t k = 0; R r = call([&] { k = c.Send(hello, 1); }); bool good = fine(r, "Send") && k; size_t at = 0; uint64_t key = (id + 1) * 2654435761ull; auto byte = [&](size_t j) { return (uint8_t)((key >> (j % 13)) + j * 3); };
					while (good && at < p.n) {
						size_t m = 1 + sim::pick_size((uint32_t)(p.n - at)), g = 0; if (m > p.n - at) m = p.n - at; if (m > 8) m = 8; Bytes b(m); for (size_t j = 0; j < m; ++j) b[j] = byte(at + j); while (good && !b.empty()) { r = call([&] { k = c.Send(b, b.size()); }); good = fine(r, "Send") && k; if (good) b.erase(b.begin(), b.begin() + k); }
						while (good && g < m) { Bytes q(m - g); r = call([&] { k = c.Receive(q); }); good = fine(r, "Receive"); if (good && !k) { SIM_CHECK(W.stopped || net_faults(), "socket:end", "client %u: the connection ended after %zu of %u bytes", id, at + g, p.n); good = false; } for (size_t j = 0; good && j < k; ++j) SIM_CHECK(q[j] == byte(at + g + j), "socket:bytes", "client %u: the echo of byte %zu is %02x, sent was %02x", id, at + g + j, q[j], byte(at + g + j)); if (good) g += k; }
						at += m; }
					p.ok = good; if (good) sim::count("op.echo_session"); }
				p.done = true; call([&] { c.ShutDown(); }); --running; }, "client"));
			if (inh) { until(20 * SEC, [&] { return W.stopped || !running; }); W.stop_in = false; } else if (early || idle) nap(1000000ull * sim::pick(600)); else { SIM_CHECK(until(AGES, [&] { return !running; }), "socket:stalled", "%u clients do not end", (unsigned)running); SIM_CHECK(until(AGES, [&] { return !W.sessions; }), "socket:stalled", "%u sessions of the server do not end", (unsigned)W.sessions); }
			W.stopped = true; uint64_t t0 = sim::now_ns(); const char* how;
			if (round + 1 == rounds && sim::chance(1, 2)) { how = "the destructor"; sim::count("op.destroyed_listening"); s.reset(); } else { bool sd = sim::chance(1, 3); how = sd ? "ShutDown" : "ListenStop"; R r = call([&] { if (sd) s->ShutDown(); else s->ListenStop(); }); SIM_CHECK(r.ok(), "socket:refused", "%s failed: %s", how, r.what.c_str()); sim::count("op.listen_stop"); }
			W.dead = true; SIM_CHECK(sim::now_ns() - t0 < 30 * SEC, "socket:stop", "%s took %llu s", how, (unsigned long long)((sim::now_ns() - t0) / SEC));
			if (s) { SIM_CHECK(!s->IsListening() && s->IsClosed(), "socket:state", "the server is stopped and says IsListening %d, IsClosed %d", s->IsListening(), s->IsClosed()); if (sim::chance(1, 4)) { R r = call([&] { s->ListenStop(); }); SIM_CHECK(r.ok(), "socket:refused", "a second ListenStop failed: %s", r.what.c_str()); } }
			SIM_CHECK(until(AGES, [&] { return !running; }), "socket:stalled", "the server is stopped and %u clients do not end", (unsigned)running); for (auto &t : cl) sim::join(t); SIM_CHECK(until(AGES, [&] { return !W.sessions; }), "socket:stalled", "the server is stopped and %u sessions do not end", (unsigned)W.sessions);
			unsigned na = W.acc - a0, ns = 0, want = 0; for (unsigned i = first; i < first + nc; ++i) { if (W.peers[i].ok) ++want; if (W.peers[i].served) ++ns; } unsigned nb = W.blank - b0; first += nc;
			for (unsigned i = first - nc; i < first; ++i) if (W.peers[i].ok && W.peers[i].n) SIM_CHECK(W.peers[i].served == 1, "socket:not-accepted", "client %u was served and its connection was not announced", i); (void)want;
			if (!net_faults()) SIM_CHECK(na <= conn, "socket:accepted-events", "%u connections were announced and %u made", na, (unsigned)conn); if (!idle) SIM_CHECK(na == ns + nb, "socket:accepted-events", "%u connections announced, %u clients heard and %u silent sessions", na, ns, nb); if (!net_faults() && !early && !idle && limit >= 10000) SIM_CHECK(na == conn, "socket:not-accepted", "%u connections were made and %u announced", (unsigned)conn, na);
		}
		s.reset(); for (auto &t : W.th) sim::join(t);
	}
	SIM_CHECK(sim::wait_quiesce(AGES), "socket:threads", "%u threads are still there after everything was closed", sim::live_threads() - 1); size_t left; { sim::Host h; left = simos::net::open_sockets(); } SIM_CHECK(left == 0, "socket:leak", "%zu sockets are still open after everything was closed", left);
}
