// Simulated disk below libstdc++'s real filebuf: the libc descriptor calls it makes are answered here.
#include "rt_int.h"
#include "os.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <sys/uio.h>
#include <unistd.h>
#include "fakewin/io.h"
using namespace sim;
namespace simos { namespace disk {
static int sim_raw_open() { return (int)::open("/dev/null", O_RDWR); }
struct Inode { std::vector<uint8_t> d; };
struct Handle { std::shared_ptr<Inode> ino; size_t pos; bool rd, wr, app, text; };
static Config g_c; static std::map<std::string, std::shared_ptr<Inode>> g_files; static std::map<int, Handle> g_h; static uint64_t g_fired;
Config &config() { return g_c; }
bool exists(const std::string &p) { Host h; return g_files.count(p) != 0; }
std::vector<uint8_t> content(const std::string &p) { std::shared_ptr<Inode> i; { Host h; auto it = g_files.find(p); if (it != g_files.end()) i = it->second; } std::vector<uint8_t> o; if (i) o.assign(i->d.begin(), i->d.end()); { Host h; i.reset(); } return o; }
void put(const std::string &p, const std::vector<uint8_t> &v) { Host h; auto i = std::make_shared<Inode>(); i->d.assign(v.begin(), v.end()); g_files[p] = i; }
void remove_all() { Host h; g_files.clear(); }
unsigned open_handles() { return (unsigned)g_h.size(); }
uint64_t faults_fired() { return g_fired; }
static bool flt(const char* k, uint32_t n) { bool f = fault(k, n, 32); if (f) ++g_fired; return f; }
static Handle* hnd(int fd) { if (!running() || fd < 3) return nullptr; auto it = g_h.find(fd); return it == g_h.end() ? nullptr : &it->second; }
static ssize_t do_write(Handle* h, const uint8_t* b, size_t n)
{
	if (!h->wr) { errno = EBADF; return -1; }
	if (!n) return 0;
	if (flt("fault.disk_write_eio", g_c.write_err)) { errno = EIO; return -1; }
	if (n > 1 && flt("fault.disk_write_short", g_c.write_short)) n = 1 + fpick((uint32_t)n - 1);
	std::vector<uint8_t> conv; size_t given = n; if (h->text) { for (size_t i = 0; i < n; ++i) { if (b[i] == 10) conv.push_back(13); conv.push_back(b[i]); } b = conv.data(); n = conv.size(); } // a text file of Windows
	auto &d = h->ino->d; if (h->app) h->pos = d.size();
	if (g_c.capacity >= 0) { size_t used = 0; for (auto &f : g_files) used += f.second->d.size(); size_t avail = (size_t)g_c.capacity > used ? (size_t)g_c.capacity - used : 0; size_t grow = h->pos + n > d.size() ? h->pos + n - d.size() : 0; if (grow > avail) { count("fault.disk_full"); ++g_fired; if (n <= grow - avail) { errno = ENOSPC; return -1; } n -= grow - avail; } }
	if (h->pos + n > d.size()) d.resize(h->pos + n);
	memcpy(d.data() + h->pos, b, n); h->pos += n; return (ssize_t)(h->text ? given : n);
}
}}
using namespace simos::disk;
#define EXPORT extern "C" __attribute__((visibility("default")))
template <class F> static F rs(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
EXPORT FILE* fopen64(const char* p, const char* m)
{
	static auto real = rs<FILE* (*)(const char*, const char*)>("fopen64");
	if (!running()) return real(p, m);
	point("open"); Host hh;
	if (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5)) { errno = ENOENT; return nullptr; }
	std::string path(p); bool ex = g_files.count(path) != 0;
	if (flt("fault.disk_open", g_c.open_err)) { errno = EACCES; return nullptr; }
	if (m[0] == 'r' && !ex) { errno = ENOENT; return nullptr; }
	if (path.empty()) { errno = ENOENT; return nullptr; }
	std::shared_ptr<Inode> &i = g_files[path]; if (!i) i = std::make_shared<Inode>();
	if (m[0] == 'w') i->d.clear();
	bool plus = strchr(m, '+') != nullptr;
	int fd = sim_raw_open(); FILE* f = fdopen(fd, plus ? "r+" : m[0] == 'r' ? "r" : "w");
	if (!f) { ::close(fd); errno = EMFILE; return nullptr; }
	g_h[fd] = Handle{i, 0, m[0] == 'r' || plus, m[0] != 'r' || plus, m[0] == 'a', strchr(m, 'b') == nullptr};
	return f;
}
EXPORT FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
EXPORT int fclose(FILE* f)
{
	static auto real = rs<int (*)(FILE*)>("fclose"); Host hh; bool bad = false;
	if (running() && f) { int fd = fileno(f); if (hnd(fd)) { g_h.erase(fd); bad = flt("fault.disk_close", g_c.close_err); } }
	int r = real(f); if (bad) { errno = EIO; return -1; } return r;
}
EXPORT ssize_t read(int fd, void* b, size_t n)
{
	if (Handle* h = hnd(fd)) {
		point("read"); Host hh; if (!h->rd) { errno = EBADF; return -1; }
		if (flt("fault.disk_read_eio", g_c.read_err)) { errno = EIO; return -1; }
		size_t av = h->pos < h->ino->d.size() ? h->ino->d.size() - h->pos : 0; if (n > av) n = av;
		if (n > 1 && flt("fault.disk_read_short", g_c.read_short)) n = 1 + fpick((uint32_t)n - 1);
		memcpy(b, h->ino->d.data() + h->pos, n); h->pos += n; return (ssize_t)n;
	}
	static auto real = rs<ssize_t (*)(int, void*, size_t)>("read"); return real(fd, b, n);
}
EXPORT ssize_t write(int fd, const void* b, size_t n)
{
	if (Handle* h = hnd(fd)) { point("write"); Host hh; return do_write(h, (const uint8_t*)b, n); }
	static auto real = rs<ssize_t (*)(int, const void*, size_t)>("write"); return real(fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int c)
{
	if (Handle* h = hnd(fd)) { point("writev"); Host hh; ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t r = do_write(h, (const uint8_t*)v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
	static auto real = rs<ssize_t (*)(int, const struct iovec*, int)>("writev"); return real(fd, v, c);
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) noexcept
{
	if (Handle* h = hnd(fd)) {
		Host hh; if (flt("fault.disk_seek", g_c.seek_err)) { errno = EIO; return -1; }
		off64_t p = w == SEEK_SET ? o : w == SEEK_CUR ? (off64_t)h->pos + o : (off64_t)h->ino->d.size() + o; if (p < 0) { errno = EINVAL; return -1; } h->pos = (size_t)p; return p;
	}
	static auto real = rs<off64_t (*)(int, off64_t, int)>("lseek64"); return real(fd, o, w);
}
EXPORT off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
extern "C" int simw_sopen_s(int* out, const char* p, int, int, int)
{
	Host hh; auto it = g_files.find(p); if (it == g_files.end() || flt("fault.disk_open", g_c.open_err)) { *out = -1; return 2; }
	int fd = sim_raw_open(); g_h[fd] = Handle{it->second, 0, true, true, false, false}; *out = fd; return 0;
}
extern "C" int simw_chsize(int fd, long n)
{
	Handle* h = hnd(fd); if (!h || n < 0) return -1; Host hh;
	if (g_c.capacity >= 0 && n > g_c.capacity) { count("fault.disk_full"); ++g_fired; return 28; }
	h->ino->d.resize((size_t)n); return 0;
}
extern "C" int simw_close(int fd) { Handle* h = hnd(fd); if (!h) return -1; Host hh; g_h.erase(fd); ::close(fd); return 0; }
