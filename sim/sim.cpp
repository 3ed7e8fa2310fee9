#include <sys/prctl.h>
#include <sys/personality.h>
#include <execinfo.h>
#include <exception>
#include "sim.h"
#include "sim_int.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <map>
#include <set>
#include <algorithm>

namespace sim {

enum { MAXCH = 1 << 20, MAXLOG = 1 << 19, MAXCNT = 160, MAXREACH = 1 << 14, MAXSPAN = 1 << 16 };
enum Outcome { RUNNING = 0, OK, VIOLATION, DISCARD, BROKEN };

struct Shared {
    uint32_t outcome;
    uint32_t nch;                 // choices consumed
    uint32_t nspan, nreach, ncnt;
    uint64_t hash;
    double simtime;
    uint32_t loglen; bool logtrunc;
    char cls[96], msg[4000];
    struct { char name[48]; uint64_t v; } cnt[MAXCNT];
    uint32_t span_s[MAXSPAN], span_e[MAXSPAN];
    uint64_t reach[MAXREACH];
    uint32_t ch[MAXCH];
    char log[MAXLOG];
};
static Shared* S;

// per-process run state
static uint64_t rng_s[4];
static const std::vector<uint32_t>* replay_from;
static std::string g_scratch;
static int g_tier = 0;
static bool g_trace = false;

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd() { uint64_t* s = rng_s; uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
static void reseed(uint64_t seed) { uint64_t x = seed; for (int i = 0; i < 4; i++) rng_s[i] = splitmix(x); }

uint32_t draw(uint32_t n)
{
    Internal I;
    if (n <= 1) return 0;
    if (S->nch >= MAXCH) broken("too many choices");
    uint32_t v;
    if (replay_from) {
        v = S->nch < replay_from->size() ? (*replay_from)[S->nch] : 0;
        if (v >= n) v = n - 1;
    } else v = (uint32_t)(rnd() % n);
    S->ch[S->nch++] = v;
    return v;
}

uint32_t logdraw(uint32_t maxbits)
{
    uint32_t b = draw(maxbits + 1);
    if (b == 0) return 0;
    return (1u << (b - 1)) + draw(1u << (b - 1));
}

bool more(uint32_t avg, uint32_t& c, uint32_t max)
{
    if (c >= max) return false;
    if (draw(avg + 1) == 0) return false;
    c++;
    return true;
}

Op::Op() : idx(~0u) { if (S->nspan < MAXSPAN) { idx = S->nspan++; S->span_s[idx] = S->nch ? S->nch - 1 : 0; S->span_e[idx] = 0; } }
Op::~Op() { if (idx != ~0u) S->span_e[idx] = S->nch; }

void log(const char* fmt, ...)
{
    Internal I;
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    if (n < 0) n = 0;
    buf[n++] = '\n';
    S->hash = hashbytes(buf, n, S->hash);
    if (S->loglen + n < MAXLOG) { memcpy(S->log + S->loglen, buf, n); S->loglen += n; } else S->logtrunc = true;
    if (g_trace) { ssize_t r = write(3, buf, n); (void)r; }
}
uint64_t hashbytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
void count(const char* name, uint64_t n)
{
    Internal I;
    for (uint32_t i = 0; i < S->ncnt; i++) if (!strcmp(S->cnt[i].name, name)) { S->cnt[i].v += n; return; }
    if (S->ncnt < MAXCNT) { strncpy(S->cnt[S->ncnt].name, name, 47); S->cnt[S->ncnt].name[47] = 0; S->cnt[S->ncnt].v = n; S->ncnt++; }
}
void reach(uint64_t h) { if (S->nreach < MAXREACH) S->reach[S->nreach++] = h; }
void sim_time(double s) { S->simtime += s; }
bool tracing() { return g_trace; }
int tier() { return g_tier; }
const std::string& scratch() { return g_scratch; }

void violate(const char* cls, const char* fmt, ...)
{
    strncpy(S->cls, cls, sizeof S->cls - 1);
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    __atomic_store_n(&S->outcome, VIOLATION, __ATOMIC_SEQ_CST);
    syscall(SYS_exit_group, 77); __builtin_unreachable();
}
void broken(const char* fmt, ...)
{
    strncpy(S->cls, "harness", sizeof S->cls - 1);
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    __atomic_store_n(&S->outcome, BROKEN, __ATOMIC_SEQ_CST);
    syscall(SYS_exit_group, 78); __builtin_unreachable();
}
void discard(const char* why) { strncpy(S->msg, why, 100); S->outcome = DISCARD; syscall(SYS_exit_group, 76); __builtin_unreachable(); }

std::string isolated(const std::function<std::string()>& fn)
{
    Internal I;
    int p[2]; if (pipe(p)) broken("pipe");
    pid_t pid = fork();
    if (pid < 0) broken("fork");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); mem::fill = 0x41; // other garbage in fresh memory
        close(p[0]);
        std::string r = fn();
        size_t o = 0; while (o < r.size()) { ssize_t n = write(p[1], r.data() + o, r.size() - o); if (n <= 0) break; o += n; }
        syscall(SYS_exit_group, 0);
    }
    close(p[1]);
    std::string r; char b[4096]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
    close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (st) {
        if (S->outcome == RUNNING) { if (WIFSIGNALED(st)) raise(WTERMSIG(st)); syscall(SYS_exit_group, WEXITSTATUS(st)); }
        syscall(SYS_exit_group, 77); // already reported
    }
    return r;
}

static bool wr_all(int fd, const void* b, size_t n) { const char* p = (const char*)b; while (n) { ssize_t k = write(fd, p, n); if (k <= 0) return false; p += k; n -= k; } return true; }
static bool rd_all(int fd, void* b, size_t n) { char* p = (char*)b; while (n) { ssize_t k = read(fd, p, n); if (k <= 0) return false; p += k; n -= k; } return true; }
static bool wr_msg(int fd, uint32_t st, const std::string& s) { uint32_t h[2] = { st, (uint32_t)s.size() }; return wr_all(fd, h, sizeof h) && wr_all(fd, s.data(), s.size()); }
static bool rd_msg(int fd, uint32_t& st, std::string& s) { uint32_t h[2]; if (!rd_all(fd, h, sizeof h)) return false; st = h[0]; s.resize(h[1]); return rd_all(fd, &s[0], h[1]); }
void Pristine::serve(int in, int out)
{
    uint32_t st; std::string q;
    while (rd_msg(in, st, q)) {
        pid_t pid = fork();
        if (pid == 0) { std::string r = fn(q); wr_msg(out, 0, r); syscall(SYS_exit_group, 0); }
        int ws = 0; if (pid < 0) ws = 1; else waitpid(pid, &ws, 0);
        if (ws) wr_msg(out, WIFSIGNALED(ws) ? 1000 + WTERMSIG(ws) : WEXITSTATUS(ws), "");
    }
    syscall(SYS_exit_group, 0);
}
Pristine::Pristine(const std::function<std::string(const std::string&)>& f) : fn(f)
{
    Internal I; int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) broken("pipe");
    pid_t pid = fork(); if (pid < 0) broken("fork");
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); mem::fill = 0x41; close(a[1]); close(b[0]); serve(a[0], b[1]); }
    close(a[0]); close(b[1]); to = a[1]; from = b[0];
}
Pristine::~Pristine() { Internal I; close(to); close(from); int ws; while (waitpid(-1, &ws, 0) > 0) {} }
std::string Pristine::ask(const std::string& req)
{
    Internal I; uint32_t st = 0; std::string r;
    if (!wr_msg(to, 0, req) || !rd_msg(from, st, r)) broken("pristine process is gone");
    if (st) { // it crashed, or reported a violation
        if (S->outcome == RUNNING) { if (st > 1000) raise(st - 1000); syscall(SYS_exit_group, st); }
        syscall(SYS_exit_group, 77);
    }
    return r;
}

static std::vector<Workload>& wls() { static std::vector<Workload> w; return w; }
void add_workload(const Workload& w) { wls().push_back(w); }

// ---------------------------------------------------------------------------
// parent side
static int errfd = -1;

struct Result {
    int outcome; std::string cls, msg, err; uint64_t hash; std::vector<uint32_t> ch;
    std::vector<std::pair<uint32_t, uint32_t> > spans; std::string log; double wall;
};

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void rmtree(const std::string& d, bool self)
{
    DIR* D = opendir(d.c_str()); if (!D) return;
    while (dirent* e = readdir(D)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = d + "/" + n; struct stat st;
        if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); rmtree(p, true); } else unlink(p.c_str());
    }
    closedir(D);
    if (self) rmdir(d.c_str());
}

static std::string scrub(const std::string& s) // drop addresses etc.
{
    std::string o;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') { size_t j = i + 2; while (j < s.size() && isxdigit(s[j])) j++; o += "0x?"; i = j; }
        else o += s[i++];
    }
    return o;
}

static double g_runlimit = 40;
static uint64_t g_hangs = 0;

static void dbg_term() { void* b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); abort(); }
static Result run_once(const Workload& w, uint64_t seed, const std::vector<uint32_t>* rp)
{
    Result R; R.outcome = BROKEN; R.hash = 0;
    rmtree(g_scratch, false);
    S->outcome = RUNNING; S->nch = S->nspan = S->nreach = S->ncnt = 0; S->hash = 1469598103934665603ULL; S->simtime = 0; S->loglen = 0; S->logtrunc = false; S->cls[0] = S->msg[0] = 0;
    if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET);
    double t0 = now();
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (g_trace) dup2(1, 3);
        dup2(errfd, 1); dup2(errfd, 2);
        int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); close(nul);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        replay_from = rp; reseed(seed);
        if (getenv("SIM_BT")) std::set_terminate(dbg_term);
        prepare_child();
        w.run();
        finish_child();
        S->outcome = OK;
        syscall(SYS_exit_group, 0);
    }
    if (pid < 0) { R.msg = "fork failed"; return R; }
    int st = 0; bool hung = false;
    // wait with timeout: SIGALRM interrupts waitpid
    struct itimerval itv; memset(&itv, 0, sizeof itv); itv.it_value.tv_sec = (long)g_runlimit;
    setitimer(ITIMER_REAL, &itv, 0);
    while (waitpid(pid, &st, 0) < 0) { if (errno == EINTR) { if (now() - t0 > g_runlimit - 0.5) { hung = true; kill(pid, SIGKILL); } } else break; }
    memset(&itv, 0, sizeof itv); setitimer(ITIMER_REAL, &itv, 0);
    R.wall = now() - t0;
    R.outcome = S->outcome; R.cls = S->cls; R.msg = S->msg; R.hash = S->hash;
    R.ch.assign(S->ch, S->ch + S->nch);
    for (uint32_t i = 0; i < S->nspan; i++) R.spans.push_back(std::make_pair(S->span_s[i], S->span_e[i] ? S->span_e[i] : S->nch));
    R.log.assign(S->log, S->loglen);
    if (R.outcome == RUNNING) { // died
        char buf[6000]; ssize_t n = 0; off_t sz = lseek(errfd, 0, SEEK_END);
        n = pread(errfd, buf, sizeof buf - 1, 0); (void)sz;
        if (n < 0) n = 0;
        buf[n] = 0; R.err = buf;
        R.outcome = VIOLATION;
        const char* a;
        if (hung) { R.cls = "hang"; R.msg = "operation did not return"; g_hangs++; }
        else if ((a = strstr(buf, "ERROR: AddressSanitizer: "))) {
            a += 25; std::string k; while (*a && *a != ' ' && *a != '\n') k += *a++;
            R.cls = "memory:" + k; R.msg = scrub(std::string(buf).substr(0, 1500));
        } else if (WIFSIGNALED(st)) { char b[64]; snprintf(b, sizeof b, "crash:signal%d", WTERMSIG(st)); R.cls = b; R.msg = scrub(std::string(buf).substr(0, 1500)); }
        else { char b[64]; snprintf(b, sizeof b, "process-exit:%d", WEXITSTATUS(st)); R.cls = b; R.msg = "the code under test ended the process: " + scrub(std::string(buf).substr(0, 1000)); }
    }
    return R;
}

static bool shrink_try(const Workload& w, uint64_t seed, const std::vector<uint32_t>& c, const std::string& cls, Result& best, unsigned& runs)
{
    runs++;
    Result r = run_once(w, seed, &c);
    if (r.outcome == VIOLATION && r.cls == cls) {
        // normalise to consumed choices
        while (!r.ch.empty() && r.ch.back() == 0) r.ch.pop_back();
        if (r.ch.size() < best.ch.size() || (r.ch.size() == best.ch.size() && r.ch < best.ch)) { best = r; return true; }
    }
    return false;
}

static void shrink(const Workload& w, uint64_t seed, Result& best, double tmax, unsigned& runs)
{
    double t0 = now(); std::string cls = best.cls;
    while (!best.ch.empty() && best.ch.back() == 0) best.ch.pop_back();
    bool progress = true;
    #define TIMEUP (now() - t0 > tmax)
    while (progress && !TIMEUP) {
        progress = false;
        // 1. delete spans
        for (bool again = true; again && !TIMEUP;) {
            again = false;
            std::vector<std::pair<uint32_t, uint32_t> > sp = best.spans;
            std::sort(sp.begin(), sp.end(), [](const std::pair<uint32_t, uint32_t>& a, const std::pair<uint32_t, uint32_t>& b) { uint32_t la = a.second - a.first, lb = b.second - b.first; return la != lb ? la > lb : a.first > b.first; });
            for (size_t i = 0; i < sp.size() && !TIMEUP; i++) {
                if (sp[i].second <= sp[i].first || sp[i].first >= best.ch.size()) continue;
                std::vector<uint32_t> c(best.ch.begin(), best.ch.begin() + sp[i].first);
                if (sp[i].second < best.ch.size()) c.insert(c.end(), best.ch.begin() + sp[i].second, best.ch.end());
                if (shrink_try(w, seed, c, cls, best, runs)) { again = progress = true; break; }
            }
        }
        // 2. truncate / zero chunks / delete chunks
        for (size_t len = std::max<size_t>(best.ch.size() / 2, 1); len >= 1 && !TIMEUP; len /= 2) {
            for (size_t s = 0; s + len <= best.ch.size() && !TIMEUP;) {
                bool allz = true; for (size_t k = s; k < s + len; k++) if (best.ch[k]) allz = false;
                std::vector<uint32_t> c(best.ch); c.erase(c.begin() + s, c.begin() + s + len);
                if (shrink_try(w, seed, c, cls, best, runs)) { progress = true; continue; }
                if (!allz) { c = best.ch; std::fill(c.begin() + s, c.begin() + s + len, 0u); if (shrink_try(w, seed, c, cls, best, runs)) { progress = true; } }
                s += len;
            }
        }
        // 3. reduce single values
        for (size_t i = 0; i < best.ch.size() && !TIMEUP; i++) {
            uint32_t v = best.ch[i]; if (!v) continue;
            uint32_t lo = 0;
            for (int it = 0; it < 6 && lo < v && i < best.ch.size() && !TIMEUP; it++) {
                uint32_t t = it == 0 ? v - 1 : lo + (v - lo) / 2; if (t >= v) break;
                std::vector<uint32_t> c(best.ch); c[i] = t;
                if (shrink_try(w, seed, c, cls, best, runs)) { progress = true; if (i >= best.ch.size()) break; v = best.ch[i]; } else if (it) lo = t + 1;
            }
        }
    }
}

static void jstr(FILE* f, const std::string& s)
{
    fputc('"', f);
    for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}

static void write_replay(const std::string& path, const Workload& w, uint64_t seed, const Result& r, const char* note)
{
    FILE* f = fopen(path.c_str(), "w"); if (!f) return;
    fprintf(f, "# deterministic simulation replay file (%s)\nworkload %s\nflavour %s\nseed %llu\nclass %s\nhash %016llx\nmessage ", note, w.name, sched::available() ? "sched" : "asan", (unsigned long long)seed, r.cls.c_str(), (unsigned long long)r.hash);
    std::string m = r.msg; for (size_t i = 0; i < m.size(); i++) if (m[i] == '\n') m[i] = '|';
    fprintf(f, "%s\nchoices", m.c_str());
    for (size_t i = 0; i < r.ch.size(); i++) fprintf(f, " %u", r.ch[i]);
    fprintf(f, "\ntrace\n%s", r.log.c_str());
    fclose(f);
}

static uint64_t seed_of(uint64_t base, const char* wl, uint64_t i) { uint64_t x = base * 0x9E3779B97F4A7C15ULL ^ hashstr(wl) ^ (i * 0xD1B54A32D192ED03ULL); return splitmix(x) >> 1; }

static void noop(int) {}

int sim_main(int argc, char** argv)
{
    std::map<std::string, std::string> A; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) A[argv[i]] = argv[i + 1];
    if (mode == "list") { for (size_t i = 0; i < wls().size(); i++) printf("%s %s\n", wls()[i].name, wls()[i].about); return 0; }
    setvbuf(stdout, 0, _IOLBF, 0);
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    errfd = memfd_create("simerr", 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = noop; sigaction(SIGALRM, &sa, 0);
    char sb[64]; snprintf(sb, sizeof sb, "/flamesim-%010d", (int)getpid());
    const char* tb = getenv("SIM_TMP"); g_scratch = std::string(tb ? tb : "/tmp") + sb;
    mkdir(g_scratch.c_str(), 0700);
    g_tier = A["--tier"] == "thorough";
    int rc = 0;

    if (mode == "replay") {
        FILE* f = fopen(A["--file"].c_str(), "r"); if (!f) { perror("open"); return 2; }
        std::string wl, cls; uint64_t seed = 0, hash = 0; std::vector<uint32_t> ch; char* line = 0; size_t cap = 0; ssize_t n;
        while ((n = getline(&line, &cap, f)) > 0) {
            if (line[n - 1] == '\n') line[--n] = 0;
            if (!strncmp(line, "workload ", 9)) wl = line + 9;
            else if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, 0, 10);
            else if (!strncmp(line, "class ", 6)) cls = line + 6;
            else if (!strncmp(line, "hash ", 5)) hash = strtoull(line + 5, 0, 16);
            else if (!strncmp(line, "choices", 7)) { char* p = line + 7; while (*p) { char* e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; } }
            else if (!strncmp(line, "trace", 5)) break;
        }
        fclose(f); free(line);
        const Workload* w = 0; for (size_t i = 0; i < wls().size(); i++) if (wl == wls()[i].name) w = &wls()[i];
        if (!w) { fprintf(stderr, "unknown workload %s\n", wl.c_str()); rmtree(g_scratch, true); return 2; }
        g_trace = A.count("--trace");
        if (w->prepare) w->prepare();
        Result r = run_once(*w, seed, &ch);
        bool same = r.outcome == VIOLATION && r.cls == cls && r.hash == hash;
        printf("REPLAY outcome=%d class=%s hash=%016llx expected_class=%s expected_hash=%016llx %s\n%s\n%s\n", r.outcome, r.cls.c_str(), (unsigned long long)r.hash, cls.c_str(), (unsigned long long)hash, same ? "REPRODUCED" : "DIFFERENT", r.msg.c_str(), r.err.c_str());
        rmtree(g_scratch, true);
        return same ? 1 : (r.outcome == VIOLATION ? 3 : 0);
    }
    if (mode != "run") { fprintf(stderr, "usage\n"); return 2; }

    const Workload* w = 0; for (size_t i = 0; i < wls().size(); i++) if (A["--wl"] == wls()[i].name) w = &wls()[i];
    if (!w) { fprintf(stderr, "unknown workload\n"); rmtree(g_scratch, true); return 2; }
    uint64_t base = strtoull(A["--base"].c_str(), 0, 10);
    uint64_t first = strtoull(A["--first"].c_str(), 0, 10), cnt = strtoull(A["--count"].c_str(), 0, 10), stride = A.count("--stride") ? strtoull(A["--stride"].c_str(), 0, 10) : 1;
    double tmax = A.count("--time") ? atof(A["--time"].c_str()) : 1e9, tshrink = A.count("--shrink") ? atof(A["--shrink"].c_str()) : 15;
    std::string out = A["--out"], stopfile = A["--stop"];
    g_trace = A.count("--trace");
    bool dump = A.count("--dump");
    if (w->prepare) w->prepare();
    double t0 = now();
    std::map<std::string, uint64_t> C; std::set<uint64_t> RS, HS; uint64_t runs = 0, disc = 0, dbl = 0, choices = 0; double simt = 0, maxwall = 0;
    std::vector<std::string> samples;
    Result V; bool have = false; uint64_t vseed = 0; unsigned sruns = 0; std::string bad; bool repro = false;
    // known findings, from the driver: lines "class|message-substring"
    std::vector<std::pair<std::string, std::string> > known;
    if (A.count("--known")) { FILE* f = fopen(A["--known"].c_str(), "r"); char b[2048]; while (f && fgets(b, sizeof b, f)) { std::string l(b); while (!l.empty() && l[l.size() - 1] == '\n') l.resize(l.size() - 1); size_t z = l.find('|'); if (z != std::string::npos) known.push_back(std::make_pair(l.substr(0, z), l.substr(z + 1))); } if (f) fclose(f); }
    for (uint64_t k = 0; k < cnt; k++) {
        if (now() - t0 > tmax) break;
        if (!stopfile.empty() && (k & 15) == 0 && access(stopfile.c_str(), F_OK) == 0) break;
        uint64_t idx = first + k * stride, seed = A.count("--seed") ? strtoull(A["--seed"].c_str(), 0, 10) + k : seed_of(base, w->name, idx);
        Result r = run_once(*w, seed, 0);
        runs++; if (r.wall > maxwall) maxwall = r.wall; choices += r.ch.size(); simt += S->simtime;
        for (uint32_t i = 0; i < S->ncnt; i++) C[S->cnt[i].name] += S->cnt[i].v;
        for (uint32_t i = 0; i < S->nreach && RS.size() < 400000; i++) RS.insert(S->reach[i]);
        HS.insert(r.hash);
        if (dump) printf("%llu %llu outcome=%d hash=%016llx choices=%zu wall=%.4f %s %s\n", (unsigned long long)idx, (unsigned long long)seed, r.outcome, (unsigned long long)r.hash, r.ch.size(), r.wall, r.cls.c_str(), r.msg.substr(0, 300).c_str());
        if (r.outcome == DISCARD) disc++;
        if (r.outcome == BROKEN) { bad = "harness error: " + r.msg + " seed " + std::to_string(seed); rc = 2; break; }
        if (r.outcome == OK && samples.size() < 2 && r.log.size() > 40) samples.push_back("seed " + std::to_string(seed) + ": " + r.log.substr(0, 1500));
        if (r.outcome == OK && ((k < 6) || (k % 50) == 0)) {
            Result r2 = run_once(*w, seed, 0); dbl++;
            if (r2.hash != r.hash || r2.outcome != r.outcome) {
                bad = "nondeterminism: seed " + std::to_string(seed); rc = 3;
                FILE* f = fopen((out + ".a").c_str(), "w"); if (f) { fwrite(r.log.data(), 1, r.log.size(), f); fclose(f); }
                f = fopen((out + ".b").c_str(), "w"); if (f) { fwrite(r2.log.data(), 1, r2.log.size(), f); fclose(f); }
                break;
            }
        }
        if (r.outcome == VIOLATION) {
            if (dump && A.count("--keep-going")) continue;
            { bool kn = false; for (size_t q = 0; q < known.size(); q++) if (r.cls == known[q].first && r.msg.find(known[q].second) != std::string::npos) { kn = true; C["known." + std::to_string(q)]++; break; } if (kn) continue; }
            Result r2 = run_once(*w, seed, 0);
            if (r2.cls != r.cls || r2.outcome != VIOLATION) { bad = "violation not repeatable: seed " + std::to_string(seed) + " " + r.cls + " vs " + r2.cls; rc = 3; break; }
            repro = true; have = true; V = r; vseed = seed;
            if (!stopfile.empty()) { int fd = open(stopfile.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); }
            if (!out.empty()) write_replay(out + ".full", *w, seed, V, "unminimised");
            if (r.cls == "hang") g_runlimit = 8;
            shrink(*w, seed, V, tshrink, sruns);
            // re-run the minimised one so that log/hash are of this exact choice list
            Result r3 = run_once(*w, seed, &V.ch);
            if (r3.outcome == VIOLATION && r3.cls == V.cls) { std::vector<uint32_t> keep = V.ch; V = r3; V.ch = keep; } else { bad = "minimised run not repeatable: seed " + std::to_string(seed); rc = 3; break; }
            if (!out.empty()) write_replay(out + ".replay", *w, seed, V, "minimised");
            rc = 1; break;
        }
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (f) {
            fprintf(f, "{\"workload\":\"%s\",\"rc\":%d,\"runs\":%llu,\"discarded\":%llu,\"double_runs\":%llu,\"choices\":%llu,\"distinct_logs\":%zu,\"sim_seconds\":%.6g,\"wall\":%.3f,\"max_wall\":%.3f,\"counters\":{", w->name, rc, (unsigned long long)runs, (unsigned long long)disc, (unsigned long long)dbl, (unsigned long long)choices, HS.size(), simt, now() - t0, maxwall);
            bool c1 = true; for (std::map<std::string, uint64_t>::iterator it = C.begin(); it != C.end(); ++it) { if (!c1) fputc(',', f); c1 = false; jstr(f, it->first); fprintf(f, ":%llu", (unsigned long long)it->second); }
            fputs("},\"samples\":[", f); for (size_t i = 0; i < samples.size(); i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
            fputs("],\"bad\":", f); jstr(f, bad);
            if (have) { fprintf(f, ",\"violation\":{\"seed\":%llu,\"class\":", (unsigned long long)vseed); jstr(f, V.cls); fputs(",\"message\":", f); jstr(f, V.msg); fprintf(f, ",\"choices\":%zu,\"shrink_runs\":%u,\"repro\":%s}", V.ch.size(), sruns, repro ? "true" : "false"); }
            fputs(",\"reach\":[", f); bool f1 = true; for (std::set<uint64_t>::iterator it = RS.begin(); it != RS.end(); ++it) { if (!f1) fputc(',', f); f1 = false; fprintf(f, "%llu", (unsigned long long)*it); } fputs("]}\n", f);
            fclose(f);
        }
    }
    if (have) fprintf(stderr, "%s seed=%llu class=%s : %s\n", w->name, (unsigned long long)vseed, V.cls.c_str(), V.msg.substr(0, 600).c_str());
    if (!bad.empty()) fprintf(stderr, "%s\n", bad.c_str());
    rmtree(g_scratch, true);
    return rc;
}

} // namespace sim

int main(int argc, char** argv)
{
    // same addresses in every process, so that even address-dependent behaviour repeats
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOPERS")) { if (personality(per | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOPERS", "1", 1); execv("/proc/self/exe", argv); } }
    return sim::sim_main(argc, argv);
}
