// Allocation and file seams.  Everything here is interposed at link/load time;
// the code under test is unmodified.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "sim_int.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include <new>
#include <map>
#include <unordered_map>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p,n) ASAN_POISON_MEMORY_REGION(p,n)
#define UNPOISON(p,n) ASAN_UNPOISON_MEMORY_REGION(p,n)
#else
#define POISON(p,n)
#define UNPOISON(p,n)
#endif

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t); char* __real_strdup(const char*);
void sim_on_alloc(void* p, size_t n) __attribute__((weak));
bool sim_on_free(void* p, size_t n) __attribute__((weak)); // true: keep the block (quarantine)
}

namespace sim {
__thread int internal_depth = 0;
bool layers_on = false;
Internal::Internal() { internal_depth++; }
Internal::~Internal() { internal_depth--; }
External::External() : saved(internal_depth) { internal_depth = 0; }
External::~External() { internal_depth = saved; }

namespace mem {
static uint64_t nalloc; static __thread uint64_t countdown, nfired; static __thread uint32_t burst_left, burst_len; static __thread bool armed; static int64_t nlive, nbytes; // faults are armed per thread
void arm(uint64_t k, uint32_t burst) { countdown = k; burst_len = burst; burst_left = 0; armed = k > 0; nfired = 0; }
bool disarm() { armed = false; countdown = 0; burst_left = 0; return nfired > 0; }
uint64_t fired() { return nfired; }
uint64_t allocs() { return nalloc; }
int64_t live() { return nlive; }
int64_t live_bytes() { return nbytes; }
int fill = 0xBE; // content of fresh memory
void on() { nalloc = 0; nlive = 0; nbytes = 0; }
static inline bool counted() { return layers_on && internal_depth == 0; }
static void dbg_fail() { static int on = -1; if (on < 0) on = getenv("SIM_BT") != 0; if (on) { Internal I; armed = false; void* b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); armed = true; } }
static bool should_fail()
{
    nalloc++;
    if (!armed) return false;
    if (burst_left) { burst_left--; nfired++; return true; }
    if (countdown && --countdown == 0) { burst_left = burst_len - 1; nfired++; dbg_fail(); return true; }
    return false;
}
struct Hdr { uint64_t size; uint32_t magic; uint32_t flags; };
enum { MAGIC = 0x51A110C5 };
static void* alloc(size_t n)
{
    bool c = counted();
    if (c && should_fail()) { count("fault.alloc"); return 0; }
    if (n > (size_t)1 << 40) return 0;
    Hdr* h = (Hdr*)__real_malloc(n + sizeof(Hdr));
    if (!h) return 0;
    h->size = n; h->magic = MAGIC; h->flags = c;
    if (c) { nlive++; nbytes += n; }
    void* p = h + 1;
    if (layers_on && internal_depth == 0) { Internal I; memset(p, fill, n < 16384 ? n : 16384); }
    if (&sim_on_alloc && layers_on) sim_on_alloc(p, n);
    POISON(h, sizeof(Hdr));
    return p;
}
static void release(void* p)
{
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    UNPOISON(h, sizeof(Hdr));
    if (h->magic != MAGIC) { if (layers_on) violate("memory:bad-delete", "delete of a pointer that was not allocated with new, or was deleted before"); }
    h->magic = 0xDEADu;
    if (h->flags & 1) { nlive--; nbytes -= (int64_t)h->size; }
    if (&sim_on_free && layers_on) { if (sim_on_free(p, h->size)) return; }
    __real_free(h);
}
static std::unordered_map<void*, size_t>& cset() { static std::unordered_map<void*, size_t>* m = new std::unordered_map<void*, size_t>; return *m; }
static void* cmade(void* p, size_t n) { if (p) { Internal I; memset(p, fill, n < 16384 ? n : 16384); cset()[p] = n; nlive++; nbytes += n; if (&sim_on_alloc) sim_on_alloc(p, n); } return p; }
static bool cdrop(void* p) { size_t n; { Internal I; auto it = cset().find(p); if (it == cset().end()) return false; n = it->second; nlive--; nbytes -= n; cset().erase(it); } return &sim_on_free && layers_on ? sim_on_free(p, n) : false; }
}
} // namespace sim

using sim::mem::alloc; using sim::mem::release;
void* operator new(size_t n) { void* p = alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }

extern "C" {
void* __wrap_malloc(size_t n) { if (!sim::mem::counted()) return __real_malloc(n); if (sim::mem::should_fail()) { sim::count("fault.alloc"); errno = ENOMEM; return 0; } return sim::mem::cmade(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { if (!sim::mem::counted()) return __real_calloc(a, b); if (sim::mem::should_fail()) { sim::count("fault.alloc"); errno = ENOMEM; return 0; } void* p = sim::mem::cmade(__real_calloc(a, b), a * b); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    if (!sim::mem::counted()) return __real_realloc(p, n);
    if (sim::mem::should_fail()) { sim::count("fault.alloc"); errno = ENOMEM; return 0; }
    void* q = __real_malloc(n); if (!q) return 0;
    sim::mem::cmade(q, n);
    if (p) { sim::Internal I; auto it = sim::mem::cset().find(p); if (it != sim::mem::cset().end()) memcpy(q, p, it->second < n ? it->second : n); else sim::broken("realloc of unknown block"); }
    if (p && !sim::mem::cdrop(p)) __real_free(p);
    return q;
}
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
void __wrap_free(void* p) { if (p && sim::layers_on) { if (sim::mem::cdrop(p)) return; } __real_free(p); }
}

// ---------------------------------------------------------------------------
namespace sim { namespace io {
static hook_t g_hook;
static std::map<int, std::string>& fds() { static std::map<int, std::string>* m = new std::map<int, std::string>; return *m; }
static const char* KN[NKIND] = { "open", "read", "write", "stat", "close", "trunc", "fsync", "seek", "other" };
void set_hook(const hook_t& h) { Internal I; g_hook = h; }
void clear_hook() { Internal I; g_hook = hook_t(); }
static bool on() { return layers_on && internal_depth == 0; }
bool cwd_scratch = false;
void use_scratch_cwd() { Internal I; if (chdir(scratch().c_str())) broken("chdir"); cwd_scratch = true; }
int fd_count() { int n = 0; for (int i = 0; i < 160; i++) if (syscall(SYS_fcntl, i, F_GETFD, 0) >= 0) n++; return n; }
int open_files() { Internal I; return (int)fds().size(); }
static bool mine(const char* p) { return p && ((cwd_scratch && p[0] != '/') || !strncmp(p, scratch().c_str(), scratch().size())); }
static Decision ask(Kind k, const char* fn, const std::string& path, int fd, size_t len)
{
    sched::point("io"); // another thread may run between any two file-system calls
    Internal I;
    Decision d;
    std::string kc = std::string("io.") + KN[k]; count(kc.c_str());
    if (g_hook) { Event e; e.kind = k; e.fn = fn; e.path = path; e.fd = fd; e.len = len; d = g_hook(e); }
    if (d.err) { char b[48]; snprintf(b, sizeof b, "fault.%s.errno%d", KN[k], d.err); count(b); }
    else if (d.limit && d.maxlen < len) { char b[48]; snprintf(b, sizeof b, "fault.%s.short", KN[k]); count(b); }
    return d;
}
template<class F> static F real(const char* n) { static_assert(sizeof(F) == sizeof(void*), ""); return (F)dlsym(RTLD_NEXT, n); }

void set_mtime(const std::string& path, int64_t t)
{
    struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = t; ts[0].tv_nsec = ts[1].tv_nsec = 0;
    utimensat(AT_FDCWD, path.c_str(), ts, 0);
}
void put(const std::string& path, const std::string& data, int64_t t)
{
    Internal I;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) broken("put %s errno %d", path.c_str(), errno);
    size_t o = 0; while (o < data.size()) { long n = syscall(SYS_write, fd, data.data() + o, data.size() - o); if (n <= 0) broken("put write"); o += n; }
    syscall(SYS_close, fd);
    set_mtime(path, t);
}
std::string get(const std::string& path)
{
    Internal I; std::string s;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0); if (fd < 0) return s;
    char b[65536]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
    syscall(SYS_close, fd); return s;
}
static void note(int fd, const char* p) { Internal I; fds()[fd] = p; }
static bool lookup(int fd, std::string& p) { Internal I; auto it = fds().find(fd); if (it == fds().end()) return false; p = it->second; return true; }

struct Cookie { int fd; std::string path; };
static ssize_t ck_read(void* c, char* buf, size_t n)
{
    sched::point("io"); Internal I; Cookie* C = (Cookie*)c;
    Decision d = ask(READ, "read", C->path, C->fd, n);
    if (d.err) { errno = d.err; return -1; }
    if (d.limit && d.maxlen < n) n = d.maxlen ? d.maxlen : 1;
    return syscall(SYS_read, C->fd, buf, n);
}
static ssize_t ck_write(void* c, const char* buf, size_t n)
{
    sched::point("io"); Internal I; Cookie* C = (Cookie*)c;
    Decision d = ask(WRITE, "write", C->path, C->fd, n);
    if (d.err) { errno = d.err; return 0; }
    if (d.limit && d.maxlen < n) n = d.maxlen ? d.maxlen : 1;
    long r = syscall(SYS_write, C->fd, buf, n); return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int wh) { Cookie* C = (Cookie*)c; off64_t r = lseek64(C->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { Internal I; Cookie* C = (Cookie*)c; syscall(SYS_close, C->fd); delete C; count("io.fclose"); return 0; }
}}
using namespace sim::io;

extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m)
{
    if (!on() || !mine(p)) return __real_fopen(p, m);
    Decision d = ask(OPEN, "fopen", p, -1, 0); if (d.err) { errno = d.err; return 0; }
    sim::Internal I;
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) fl = (fl & ~3) | O_RDWR;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, 0644); if (fd < 0) return 0;
    Cookie* c = new Cookie; c->fd = fd; c->path = p;
    cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
    FILE* r = fopencookie(c, m, f); if (!r) { syscall(SYS_close, fd); delete c; }
    return r;
}
// reached by shared libraries (libstdc++, libhdf5)
FILE* fopen(const char* p, const char* m)
{
    static FILE* (*R)(const char*, const char*) = real<FILE* (*)(const char*, const char*)>("fopen");
    if (!on() || !mine(p)) return R(p, m);
    Decision d = ask(OPEN, "fopen", p, -1, 0); if (d.err) { errno = d.err; return 0; }
    FILE* f = R(p, m); if (f) note(fileno(f), p); return f;
}
int fclose(FILE* f)
{
    static int (*R)(FILE*) = real<int (*)(FILE*)>("fclose"); std::string p; int fd;
    if (!on() || (fd = fileno(f)) < 0 || !lookup(fd, p)) return R(f);
    Decision d = ask(CLOSE, "fclose", p, fd, 0); { sim::Internal I; fds().erase(fd); }
    int r = R(f); if (d.err) { errno = d.err; return EOF; } return r;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
static int do_open(const char* fn, const char* p, int fl, mode_t mode)
{
    if (on() && mine(p)) { Decision d = ask(OPEN, fn, p, -1, 0); if (d.err) { errno = d.err; return -1; } }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    if (fd >= 0 && on() && mine(p)) note(fd, p);
    return fd;
}
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return do_open("open", p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return do_open("open", p, fl, m); }
int close(int fd)
{
    std::string p;
    if (on() && lookup(fd, p)) {
        Decision d = ask(CLOSE, "close", p, fd, 0);
        { sim::Internal I; fds().erase(fd); }
        int r = (int)syscall(SYS_close, fd);
        if (d.err) { errno = d.err; return -1; }
        return r;
    }
    return (int)syscall(SYS_close, fd);
}
#define RW(NAME, KIND, SIG, CALL, LENVAR) \
ssize_t NAME SIG { std::string p; if (on() && lookup(fd, p)) { Decision d = ask(KIND, #NAME, p, fd, n); if (d.err) { errno = d.err; return -1; } if (d.limit && d.maxlen < n) n = d.maxlen ? d.maxlen : (n ? 1 : 0); } return CALL; }
RW(read, READ, (int fd, void* b, size_t n), syscall(SYS_read, fd, b, n), n)
RW(write, WRITE, (int fd, const void* b, size_t n), syscall(SYS_write, fd, b, n), n)
RW(pread, READ, (int fd, void* b, size_t n, off_t o), syscall(SYS_pread64, fd, b, n, o), n)
RW(pread64, READ, (int fd, void* b, size_t n, off64_t o), syscall(SYS_pread64, fd, b, n, o), n)
RW(pwrite, WRITE, (int fd, const void* b, size_t n, off_t o), syscall(SYS_pwrite64, fd, b, n, o), n)
RW(pwrite64, WRITE, (int fd, const void* b, size_t n, off64_t o), syscall(SYS_pwrite64, fd, b, n, o), n)
ssize_t writev(int fd, const struct iovec* v, int c)
{
    std::string p;
    if (on() && lookup(fd, p)) {
        size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
        Decision d = ask(WRITE, "writev", p, fd, n); if (d.err) { errno = d.err; return -1; }
        if (d.limit && d.maxlen < n) { size_t m = d.maxlen ? d.maxlen : 1; if (v[0].iov_len) return syscall(SYS_write, fd, v[0].iov_base, m < v[0].iov_len ? m : v[0].iov_len); if (c > 1) return syscall(SYS_write, fd, v[1].iov_base, m < v[1].iov_len ? m : v[1].iov_len); }
    }
    return syscall(SYS_writev, fd, v, c);
}
int statx(int dfd, const char* p, int fl, unsigned mask, struct statx* st)
{
    if (on() && mine(p)) { Decision d = ask(STAT, "statx", p, -1, 0); if (d.err) { errno = d.err; return -1; } }
    return (int)syscall(SYS_statx, dfd, p, fl, mask, st);
}
int stat(const char* p, struct stat* st)
{
    if (on() && mine(p)) { Decision d = ask(STAT, "stat", p, -1, 0); if (d.err) { errno = d.err; return -1; } }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int fstat(int fd, struct stat* st)
{
    std::string p;
    if (on() && lookup(fd, p)) { Decision d = ask(STAT, "fstat", p, fd, 0); if (d.err) { errno = d.err; return -1; } }
    return (int)syscall(SYS_fstat, fd, st);
}
int ftruncate(int fd, off_t n) noexcept
{
    std::string p;
    if (on() && lookup(fd, p)) { Decision d = ask(TRUNC, "ftruncate", p, fd, n); if (d.err) { errno = d.err; return -1; } }
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
// reached by CPython only
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
ssize_t sendfile64(int fd, int in, off64_t* o, size_t n) noexcept
{
    std::string p;
    if (on() && lookup(fd, p)) { Decision d = ask(WRITE, "sendfile", p, fd, n); if (d.err) { errno = d.err; return -1; } if (d.limit && d.maxlen < n) n = d.maxlen ? d.maxlen : 1; }
    return syscall(SYS_sendfile, fd, in, o, n);
}
int mkdir(const char* p, mode_t m) noexcept
{
    if (on() && mine(p)) { Decision d = ask(OTHER, "mkdir", p, -1, 0); if (d.err) { errno = d.err; return -1; } }
    return (int)syscall(SYS_mkdir, p, m);
}
// wall clock: simulated, advances one second per call
static int64_t g_clock = 1500000000;
time_t time(time_t* t) noexcept { if (!on()) { static time_t (*R)(time_t*) = real<time_t (*)(time_t*)>("time"); return R(t); } time_t v = ++g_clock; if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void* tz) noexcept { if (!on()) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } tv->tv_sec = ++g_clock; tv->tv_usec = 0; return 0; }
}

namespace sim {
void prepare_child()
{
    mem::on();
    sched::init_child();
    layers_on = true;
}
void finish_child() { layers_on = false; }
#ifndef SIM_SCHED
namespace sched { void init_child() {} bool available() { return false; }
 void run(const std::vector<std::function<void()> >& f, const Policy&) { for (size_t i = 0; i < f.size(); i++) f[i](); } Policy random_policy() { return Policy(); } void point(const char*) {} uint64_t seq() { static uint64_t n; return ++n; } int self() { return 0; } uint64_t switches() { return 0; } uint64_t steps() { return 0; } void set_policy(const Policy&) {} void join_all() {} }
#endif
}
#if defined(__SANITIZE_ADDRESS__)
#ifdef SIM_REALSTACK
#define SIM_STACKOPT "detect_stack_use_after_return=0:"
#else
#define SIM_STACKOPT
#endif
extern "C" const char* __asan_default_options() { return SIM_STACKOPT "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0:detect_odr_violation=0:quarantine_size_mb=64:handle_segv=1:print_legend=0"; }
#endif
