#include "seams.hpp"
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <new>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

std::string fmt(const char* f, ...)
{
	char b[4096];
	va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	return b;
}
void Sim::ev(const char* f, ...)
{
	char b[2048];
	va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	hash = fnv(hash, b, strlen(b));
	if (events.size() < 4000) events.push_back(b);
	if (shm_ev) { strncpy(shm_ev, b, 511); }
	if (verbose) fprintf(stderr, "  %s\n", b);
}
std::vector<PropEntry>& registry() { static std::vector<PropEntry> r; return r; }

// ===================================================================== disk
const char* fs_op_name[] = { "open-read", "open-write", "read", "write", "seek", "close" };
static SimFs g_fs;
SimFs& fs() { return g_fs; }
struct SimFd { std::string path; size_t off = 0; bool app = false, r = false, w = false; bool used = false; };
static SimFd g_fd[1024];
void SimFs::reset()
{
	img.clear(); cwd.clear(); nops = 0; hook = nullptr; crash_at = -1; crashed = false; crash_img.clear();
}
static thread_local int tl_inlib = 0;
static const char PREFIX[] = "/sim/";
static bool is_sim(const char* p) { return p && (strncmp(p, PREFIX, sizeof(PREFIX) - 1) == 0 || strncmp(p, "Mooring/", 8) == 0 || (!g_fs.cwd.empty() && *p && *p != '/')); }
static bool is_simfd(int fd) { return fd >= 0 && fd < 1024 && g_fd[fd].used; }
// One name for each file: relative to the working folder, "//", "." and ".." resolved
static std::string norm(const char* p)
{
	std::string in = p;
	if (!g_fs.cwd.empty() && in[0] != '/') in = g_fs.cwd + in;
	const bool abs = !in.empty() && in[0] == '/';
	std::vector<std::string> part;
	for (size_t i = 0; i <= in.size();) {
		size_t e = std::min(in.find('/', i), in.size());
		std::string c = in.substr(i, e - i);
		if (c == ".." && !part.empty()) part.pop_back();
		else if (!c.empty() && c != ".") part.push_back(c);
		i = e + 1;
	}
	std::string s;
	for (auto& c : part) s += (s.empty() && !abs ? "" : "/") + c;
	return s;
}
struct Suspend { // bookkeeping done by the simulator is not a library allocation
	int d; Suspend() : d(tl_inlib) { tl_inlib = 0; } ~Suspend() { tl_inlib = d; }
};
static FsAct fs_step(FsOpKind k, const std::string& path, size_t len)
{
	long idx = g_fs.nops++;
	if (g_fs.crash_at == idx && !g_fs.crashed) {
		g_fs.crashed = true;
		g_fs.crash_img = g_fs.img;
		g_fs.crash_op = std::string(fs_op_name[k]) + " " + path;
	}
	FsAct a;
	if (g_fs.hook) a = g_fs.hook({ k, path, len, idx });
	return a;
}
template<class F> static F real(const char* n) { static_assert(sizeof(F) == sizeof(void*), ""); return (F)dlsym(RTLD_NEXT, n); }

extern "C" {
static FILE* sim_fopen(const char* path, const char* mode)
{
	Suspend sp;
	std::string p = norm(path);
	bool r = strchr(mode, 'r') != nullptr, plus = strchr(mode, '+') != nullptr, a = strchr(mode, 'a') != nullptr;
	bool w = strchr(mode, 'w') != nullptr || a || plus;
	FsAct act = fs_step((r && !plus) ? FS_OPEN_R : FS_OPEN_W, p, 0);
	if (act.kind == FA_ERR || act.kind == FA_SHORT_ERR) { errno = act.err; return nullptr; }
	bool exists = g_fs.img.count(p) != 0;
	if (r && !exists) { errno = ENOENT; return nullptr; }
	if (!r && !a) g_fs.img[p] = "";
	else if (!exists) g_fs.img[p] = "";
	static auto rf = real<FILE* (*)(const char*, const char*)>("fopen");
	FILE* f;
	{ Suspend sp2; f = rf("/dev/null", "r+"); }
	if (!f) return nullptr;
	int fd = fileno(f);
	g_fd[fd] = SimFd();
	g_fd[fd].path = p; g_fd[fd].r = r || plus; g_fd[fd].w = w; g_fd[fd].app = a; g_fd[fd].used = true;
	g_fs.open_fds++;
	return f;
}
FILE* fopen(const char* path, const char* mode)
{
	if (is_sim(path)) return sim_fopen(path, mode);
	static auto rf = real<FILE* (*)(const char*, const char*)>("fopen");
	return rf(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fclose(FILE* f)
{
	int ret = 0;
	int fd = f ? fileno(f) : -1;
	if (is_simfd(fd)) {
		Suspend sp;
		FsAct act = fs_step(FS_CLOSE, g_fd[fd].path, 0);
		g_fd[fd].used = false;
		g_fs.open_fds--;
		if (act.kind == FA_ERR || act.kind == FA_SHORT_ERR) { ret = EOF; errno = act.err; }
	}
	static auto rf = real<int (*)(FILE*)>("fclose");
	int e = errno;
	int rr = rf(f);
	if (ret) { errno = e; return ret; }
	return rr;
}
ssize_t read(int fd, void* buf, size_t n)
{
	if (is_simfd(fd)) {
		Suspend sp;
		SimFd& s = g_fd[fd];
		FsAct a = fs_step(FS_READ, s.path, n);
		if (a.kind == FA_ERR) { errno = a.err; return -1; }
		auto it = g_fs.img.find(s.path);
		if (it == g_fs.img.end()) return 0;
		const std::string& d = it->second;
		size_t av = s.off < d.size() ? d.size() - s.off : 0;
		size_t k = n < av ? n : av;
		if (a.kind == FA_SHORT && k > 1) k = 1 + a.n % (k - 1);
		memcpy(buf, d.data() + s.off, k);
		s.off += k;
		return (ssize_t)k;
	}
	return syscall(SYS_read, fd, buf, n);
}
static ssize_t sim_write(int fd, const char* buf, size_t n)
{
	Suspend sp;
	SimFd& s = g_fd[fd];
	size_t k = n;
	bool crash_here = !g_fs.crashed && g_fs.crash_at == g_fs.nops;
	FsAct a = fs_step(FS_WRITE, s.path, n);
	if (crash_here && g_fs.crashed) { // torn write at the crash instant
		size_t keep = g_fs.crash_keep % (n + 1);
		std::string& d = g_fs.crash_img[s.path];
		size_t off = s.app ? d.size() : s.off;
		if (d.size() < off) d.resize(off, '\0');
		d.replace(off, std::min(keep, d.size() - off), std::string(buf, keep));
	}
	if (a.kind == FA_ERR) { errno = a.err; return -1; }
	if (a.kind == FA_SHORT || a.kind == FA_SHORT_ERR) k = n > 1 ? 1 + a.n % (n - 1) : n;
	std::string& d = g_fs.img[s.path];
	if (s.app) s.off = d.size();
	if (d.size() < s.off) d.resize(s.off, '\0');
	d.replace(s.off, std::min(k, d.size() - s.off), std::string(buf, k));
	s.off += k;
	return (ssize_t)k;
}
ssize_t write(int fd, const void* buf, size_t n)
{
	if (is_simfd(fd)) return sim_write(fd, (const char*)buf, n);
	return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* iov, int c)
{
	if (is_simfd(fd)) {
		// one operation, as for the kernel: an error is either for all of it or seen as a short write
		std::string all;
		{ Suspend sp; for (int i = 0; i < c; i++) all.append((const char*)iov[i].iov_base, iov[i].iov_len); }
		ssize_t k = sim_write(fd, all.data(), all.size());
		{ Suspend sp; std::string().swap(all); }
		return k;
	}
	return syscall(SYS_writev, fd, iov, c);
}
off64_t lseek64(int fd, off64_t off, int wh)
{
	if (is_simfd(fd)) {
		Suspend sp;
		SimFd& s = g_fd[fd];
		FsAct a = fs_step(FS_SEEK, s.path, 0);
		if (a.kind == FA_ERR) { errno = a.err; return -1; }
		off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)s.off : (off64_t)g_fs.img[s.path].size();
		if (base + off < 0) { errno = EINVAL; return -1; }
		s.off = (size_t)(base + off);
		return (off64_t)s.off;
	}
	return syscall(SYS_lseek, fd, off, wh);
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
}

// =================================================================== memory
SimMem g_mem;
int g_stack_poison = -1;
bool in_lib() { return tl_inlib > 0; }
InLib::InLib() { if (g_stack_poison >= 0) scribble_stack(g_stack_poison); tl_inlib++; }
InLib::~InLib() { tl_inlib--; }
SimCode::SimCode() : d(tl_inlib) { tl_inlib = 0; }
SimCode::~SimCode() { tl_inlib = d; }
__attribute__((noinline)) void scribble_stack(int byte)
{
	volatile unsigned char b[48 * 1024];
	if (byte == 256) { uint64_t z = 88172645463325252ull; for (size_t i = 0; i < sizeof b; i++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; b[i] = (unsigned char)z; } }
	else for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)byte;
}
static void poison_fill(void* p, size_t n)
{
	if (g_mem.poison == 256) {
		unsigned char* c = (unsigned char*)p;
		uint64_t z = 0x2545F4914F6CDD1Dull ^ (uint64_t)g_mem.n;
		for (size_t i = 0; i < n; i++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; c[i] = (unsigned char)(z >> 24); }
	} else memset(p, g_mem.poison, n);
}
// Open addressing table of tracked pointers (no allocation of its own)
static const size_t TBL = 1u << 18;
static void** g_tbl = nullptr;
static size_t* g_tsz = nullptr;
static void tbl_init()
{
	if (g_tbl) return;
	static void* t[TBL]; static size_t z[TBL];
	g_tbl = t; g_tsz = z;
}
static size_t slot(void* p) { uint64_t h = (uint64_t)p; h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; return h & (TBL - 1); }
static void* const TOMB = (void*)1;
static void track_add(void* p, size_t n)
{
	tbl_init();
	size_t s = slot(p), i = 0;
	while (g_tbl[s] && g_tbl[s] != TOMB && i < TBL) { s = (s + 1) & (TBL - 1); i++; }
	if (i >= TBL) return;
	g_tbl[s] = p; g_tsz[s] = n; g_mem.live++; g_mem.live_bytes += n;
}
static void track_del(void* p)
{
	if (!g_tbl || !g_mem.live) return;
	size_t s = slot(p), i = 0;
	while (g_tbl[s] && i < TBL) {
		if (g_tbl[s] == p) { g_tbl[s] = TOMB; g_mem.live--; g_mem.live_bytes -= g_tsz[s]; return; }
		s = (s + 1) & (TBL - 1); i++;
	}
}
void mem_forget() { if (g_tbl) memset(g_tbl, 0, TBL * sizeof(void*)); g_mem.live = 0; g_mem.live_bytes = 0; }
void mem_reset() { mem_forget(); g_mem = SimMem(); }
// Decide the fate of an allocation of n bytes; true: it fails
static bool alloc_fails(size_t n)
{
	if (!tl_inlib) return false;
	long k = g_mem.n++;
	if (n > g_mem.max_single) { g_mem.failed++; return true; }
	if (g_mem.fail_at >= 0 && k >= g_mem.fail_at && k < g_mem.fail_at + g_mem.fail_count) { g_mem.failed++; return true; }
	return false;
}
#ifndef SIM_ASAN
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void* fin(void* p, size_t n, bool zero)
{
	if (p && tl_inlib) {
		if (g_mem.poison >= 0 && !zero) poison_fill(p, n);
		if (g_mem.track) track_add(p, n);
	}
	return p;
}
void* malloc(size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } return fin(__libc_malloc(n), n, false); }
void* calloc(size_t a, size_t b) { if (alloc_fails(a * b)) { errno = ENOMEM; return nullptr; } return fin(__libc_calloc(a, b), a * b, true); }
void* realloc(void* q, size_t n)
{
	if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
	if (q) track_del(q);
	void* p = __libc_realloc(q, n);
	if (p && tl_inlib && g_mem.track) track_add(p, n);
	return p;
}
void* memalign(size_t a, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } return fin(__libc_memalign(a, n), n, false); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void* p)
{
	if (!p) return;
	track_del(p);
	if (tl_inlib && g_mem.poison >= 0) poison_fill(p, malloc_usable_size(p));
	__libc_free(p);
}
}
#else
static void* nw(size_t n)
{
	if (alloc_fails(n)) return nullptr;
	void* p = malloc(n ? n : 1);
	if (p && tl_inlib && g_mem.poison >= 0) poison_fill(p, n);
	return p;
}
void* operator new(size_t n) { void* p = nw(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = nw(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

// ================================================================= terminal
struct NullBuf : std::streambuf {
	int overflow(int c) override { return c; }
	std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
void mute_terminal()
{
	static NullBuf b;
	if (getenv("SIM_STDERR")) return;
	std::cout.rdbuf(&b);
	std::cerr.rdbuf(&b);
}
