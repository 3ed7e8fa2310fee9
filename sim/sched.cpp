// Simulated threads: real pthreads, exactly one of which runs at a time; who runs next is a
// choice of the simulator.  The code under test is compiled with -fsanitize=thread; this file
// is the runtime behind that instrumentation: preemption points, a happens-before data race
// detector, use-after-free detection, simulated mutexes, condition variables and once-guards,
// deadlock and no-progress detection.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "sim_int.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>

extern "C" { void* __real_malloc(size_t); void __real_free(void*); extern char __executable_start; extern char etext; void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }

namespace sim { namespace sched {
enum { MAXT = 24, STK = 64 };
struct VC { uint32_t c[MAXT]; };
struct Thread {
    int id; bool used, done, blocked, timed, timedout, started; const char* what; const void* obj;
    const cond_t* cond; VC vc; uint32_t futex; pthread_t pt; std::function<void()> fn; const char* name; int prio;
    void* stk[STK]; int depth; uint32_t seqno;
};
static Thread* T; static int nT;         // T[0] is the main thread
static __thread int me;
static int cur;
static bool active;                      // more than the main thread exists
static bool detect = true;
static uint64_t g_seq, g_steps, g_switch; static int64_t quantum; static Policy pol; static int prio_low; static uint64_t change_at[8]; static int nchange;

static void fwait(uint32_t* f) { while (__atomic_load_n(f, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_SEQ_CST); }
static void fwake(uint32_t* f) { __atomic_store_n(f, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static inline bool in() { return layers_on && internal_depth == 0 && T; }

static inline void join(VC& a, const VC& b) { for (int i = 0; i < nT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ---- sync objects: address -> state (open hashing, never removed except on reset) ----
struct Obj { const void* a; VC vc; int owner; int depth; uint64_t gen; Obj* next; };
static Obj* ohash[4096];
static Obj* obj(const void* a)
{
    size_t h = ((size_t)a >> 3) * 0x9E3779B97F4A7C15ULL >> 52;
    for (Obj* o = ohash[h]; o; o = o->next) if (o->a == a) return o;
    Obj* o = (Obj*)__real_malloc(sizeof(Obj)); __real_memset(o, 0, sizeof *o); o->a = a; o->owner = -1; o->next = ohash[h]; ohash[h] = o; return o;
}
static Obj* obj_find(const void* a) { size_t h = ((size_t)a >> 3) * 0x9E3779B97F4A7C15ULL >> 52; for (Obj* o = ohash[h]; o; o = o->next) if (o->a == a) return o; return 0; }

void hb_release(const void* a) { Obj* o = obj(a); join(o->vc, T[me].vc); T[me].vc.c[me]++; }
void hb_acquire(const void* a) { Obj* o = obj_find(a); if (o) join(T[me].vc, o->vc); }

// ---- shadow memory ----
struct Rec { uint32_t clk; uint32_t pc; uint8_t tid, mask, flags, pad; uint32_t fn; }; // flags: 1 write, 2 atomic, 4 freed
struct Cell { Rec r[4]; };
struct Page { Cell c[512]; };
enum { L1 = 1 << 18, L2 = 1 << 18 }; // 48-bit address space - 12 bits
static Page*** dir;
static char* pool; static size_t pool_left;
static void* pget(size_t n) { if (pool_left < n) { pool_left = n > (8u << 20) ? n : 8u << 20; pool = (char*)mmap(0, pool_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (pool == MAP_FAILED) broken("shadow memory"); } void* p = pool; pool += n; pool_left -= n; return p; }
static Page* page(uintptr_t a, bool make)
{
    size_t i = (a >> 30) & (L1 - 1), j = (a >> 12) & (L2 - 1);
    if (!dir) { if (!make) return 0; dir = (Page***)mmap(0, L1 * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (dir == MAP_FAILED) broken("shadow dir"); }
    Page** d = dir[i];
    if (!d) { if (!make) return 0; d = dir[i] = (Page**)mmap(0, L2 * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (d == MAP_FAILED) broken("shadow dir"); }
    Page* p = d[j];
    if (!p && make) p = d[j] = (Page*)pget(sizeof(Page));
    return p;
}
static void shadow_clear(uintptr_t a, size_t n)
{
    if (!dir) return;
    uintptr_t e = a + n; a &= ~7ul;
    for (; a < e;) { Page* p = page(a, false); uintptr_t pe = (a | 4095) + 1; if (pe > e) pe = e; if (p) __real_memset(&p->c[(a & 4095) >> 3], 0, ((pe - a + 7) >> 3) * sizeof(Cell)); a = pe; }
}
static std::string sym(uint32_t off)
{
    char b[300]; void* p = (void*)(&__executable_start + off); Dl_info i;
    if (dladdr(p, &i) && i.dli_sname) snprintf(b, sizeof b, "%s", i.dli_sname); else snprintf(b, sizeof b, "exe+0x%x", off);
    return b;
}
static uint32_t pcoff(void* p) { return (uint32_t)((char*)p - &__executable_start); }
static uint32_t curfn() { Thread& t = T[me]; int d = t.depth; return d > 0 ? pcoff(t.stk[(d - 1) % STK]) : 0; }
static __attribute__((noinline)) void race(uintptr_t a, const Rec& o, bool wr, bool at, void* pc)
{
    internal_depth++;
    std::string s1 = sym(pcoff(pc)), s2 = sym(o.pc), c1 = sym(curfn()), c2 = sym(o.fn);
    if (o.flags & 4) violate("use-after-free", "thread %d %s freed memory in %s (called from %s); freed by thread %d in %s", me, wr ? "writes" : "reads", s1.c_str(), c1.c_str(), o.tid, s2.c_str());
    const char* sec = ""; char g[32] = ""; (void)sec;
    Dl_info i; std::string var; if (dladdr((void*)a, &i) && i.dli_sname) var = std::string(" of ") + i.dli_sname; else if ((char*)a >= &__executable_start && (char*)a < &__executable_start + (1 << 26)) var = " of a global";
    (void)g;
    violate("data-race", "%s%s%s by thread %d in %s (called from %s) and %s%s by thread %d in %s (called from %s) are not ordered", at ? "atomic " : "", wr ? "write" : "read", var.c_str(), me, s1.c_str(), c1.c_str(), o.flags & 2 ? "atomic " : "", o.flags & 1 ? "write" : "read", o.tid, s2.c_str(), c2.c_str());
}
static inline void access8(uintptr_t a, unsigned mask, bool wr, bool at, void* pc)
{
    Page* p = page(a, true); Cell& C = p->c[(a & 4095) >> 3]; Thread& t = T[me]; int slot = -1, old = -1;
    for (int i = 0; i < 4; i++) {
        Rec& r = C.r[i];
        if (!r.mask) { if (slot < 0) slot = i; continue; }
        if (!(r.mask & mask)) { if (r.tid != me && r.clk <= t.vc.c[r.tid] && old < 0) old = i; continue; }
        if (r.flags & 4) race(a, r, wr, at, pc);
        if (r.tid == me) { if (r.mask == mask && (!(r.flags & 1) || wr) && (!(r.flags & 2) || at)) { if (slot < 0 || C.r[slot].mask == 0) slot = i; } continue; }
        if (r.clk <= t.vc.c[r.tid]) { old = i; continue; }
        if (!(wr || (r.flags & 1))) continue;
        if (at && (r.flags & 2)) continue;
        race(a, r, wr, at, pc);
    }
    if (slot < 0) slot = old >= 0 ? old : (int)(g_steps & 3);
    Rec& r = C.r[slot]; r.clk = t.vc.c[me]; r.tid = (uint8_t)me; r.mask = (uint8_t)mask; r.flags = (wr ? 1 : 0) | (at ? 2 : 0); r.pc = pcoff(pc); r.fn = curfn();
}
static inline void range(uintptr_t a, size_t n, bool wr, bool at, void* pc)
{
    uintptr_t e = a + n;
    while (a < e) { unsigned o = a & 7, k = 8 - o; if (k > e - a) k = (unsigned)(e - a); access8(a, ((1u << k) - 1) << o, wr, at, pc); a += k; }
}

// ---- scheduling ----
static bool runnable(Thread& t)
{
    if (!t.used || t.done) return false;
    if (!t.blocked) return true;
    internal_depth++; bool r = (*t.cond)(); internal_depth--;
    return r;
}
static void new_quantum()
{
    if (pol.kind == 1) { quantum = 1 << 30; uint64_t nx = ~0ULL; for (int i = 0; i < nchange; i++) if (change_at[i] > g_steps && change_at[i] < nx) nx = change_at[i]; if (nx != ~0ULL) quantum = (int64_t)(nx - g_steps); return; }
    if (pol.kind == 2) { quantum = 1 << 30; return; }
    uint32_t q = logdraw(pol.quantum_bits); quantum = q ? (int64_t)q : 1 << 30;
}
static void transfer(int to)
{
    if (to == me) return;
    int self = me; g_switch++; cur = to;
    fwake(&T[to].futex); fwait(&T[self].futex);
}
static int choose(bool forced) // forced: current can't continue
{
    int r[MAXT], n = 0;
    if (!forced && runnable(T[me])) r[n++] = me;
    for (int i = 1; i <= nT; i++) { int k = (me + i) % nT; if (k != me && runnable(T[k])) r[n++] = k; }
    if (forced && runnable(T[me])) r[n++] = me;
    if (!n) return -1;
    if (pol.kind == 1) { int b = r[0]; for (int i = 1; i < n; i++) if (T[r[i]].prio > T[b].prio) b = r[i]; return b; }
    return r[n > 1 ? draw(n) : 0];
}
static void dead()
{
    internal_depth++;
    // a timed wait may end by timeout
    int r[MAXT], n = 0; for (int i = 0; i < nT; i++) if (T[i].used && !T[i].done && T[i].blocked && T[i].timed) r[n++] = i;
    if (n) { int k = r[n > 1 ? draw(n) : 0]; T[k].timedout = true; internal_depth--; return; }
    std::string s; for (int i = 0; i < nT; i++) if (T[i].used && !T[i].done) { char b[200]; int own = -1; if (T[i].obj) { Obj* o = obj_find(T[i].obj); if (o) own = o->owner; } snprintf(b, sizeof b, "; thread %d waits for %s", i, T[i].blocked && T[i].what ? T[i].what : "nothing"); s += b; if (own >= 0) { snprintf(b, sizeof b, " held by thread %d", own); s += b; } }
    violate("deadlock", "no thread can run%s", s.c_str());
}
static void resched(bool forced)
{
    for (;;) {
        int k = choose(forced);
        if (k < 0) { dead(); for (int i = 0; i < nT; i++) if (T[i].used && T[i].blocked && T[i].timedout) { k = i; break; } }
        new_quantum();
        transfer(k);
        return;
    }
}
static inline void step()
{
    g_steps++;
    if (--quantum > 0 || !active) return;
    if (g_steps > pol.max_steps) { internal_depth++; violate("no-progress", "threads still running after %llu steps", (unsigned long long)g_steps); }
    if (pol.kind == 1) { for (int i = 0; i < nchange; i++) if (change_at[i] == g_steps) T[me].prio = --prio_low; }
    resched(false);
}
static void sync_point()
{
    if (!active || !in()) return;
    g_steps += 16; g_seq++;
    if (g_steps > pol.max_steps) { internal_depth++; violate("no-progress", "threads still running after %llu steps", (unsigned long long)g_steps); }
    if (pol.kind != 1 && pol.sync_pct && chance(pol.sync_pct, 100)) resched(false);
}
bool block_until(const cond_t& ready, const char* what, bool timed)
{
    if (ready()) return true;
    if (!T) broken("block_until outside a run");
    Thread& t = T[me]; t.blocked = true; t.cond = &ready; t.what = what; t.timed = timed; t.timedout = false;
    if (timed && chance(1, 8)) { // time passes
        sync_point(); if (!ready()) { t.blocked = false; t.cond = 0; count("fault.timeout"); return false; }
    }
    while (!ready()) { if (t.timedout) break; if (!active) { internal_depth++; violate("deadlock", "the only thread waits for %s", what); } resched(true); }
    bool ok = ready(); t.blocked = false; t.cond = 0; t.what = 0; t.obj = 0; t.timedout = false;
    return ok;
}
static bool block_obj(const cond_t& c, const char* what, const void* o) { T[me].obj = o; return block_until(c, what); }
void point(const char*) { g_seq++; sync_point(); }
uint64_t seq() { return ++g_seq; }
int self() { return me; }
uint64_t switches() { return g_switch; }
uint64_t steps() { return g_steps; }
bool available() { return true; }
bool race_detect(bool on) { bool o = detect; detect = on; return o; }
Policy random_policy()
{
    Policy p; uint32_t k = draw(8);
    if (k == 7) { p.kind = 1; p.changes = draw(5); }
    else if (k == 6) { p.kind = 2; p.sync_pct = 10 + draw(60); }
    else { p.kind = 0; static const uint32_t B[] = { 8, 12, 5, 10, 16, 3 }; p.quantum_bits = B[k]; p.sync_pct = draw(3) * 25; }
    return p;
}

static void* entry(void* v)
{
    Thread* t = (Thread*)v; me = t->id; internal_depth = 0;
    fwait(&t->futex); t->started = true;
    t->fn();
    internal_depth++; t->done = true;
    bool any = false; for (int i = 0; i < nT; i++) if (T[i].used && !T[i].done) any = true;
    if (any) { internal_depth--; int k = choose(true); if (k < 0) { dead(); for (int i = 0; i < nT; i++) if (T[i].used && T[i].blocked && T[i].timedout) k = i; } internal_depth++; new_quantum(); g_switch++; cur = k; fwake(&T[k].futex); }
    for (;;) syscall(SYS_futex, &t->seqno, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); // never exits: its clean-up would run unscheduled
    return 0;
}
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int make(const std::function<void()>& f, const char* name)
{
    Internal I; int id = -1;
    for (int i = 1; i < MAXT; i++) if (!T[i].used) { id = i; break; }
    if (id < 0) broken("too many threads");
    Thread& t = T[id]; t.id = id; t.used = true; t.done = t.blocked = t.started = t.timedout = false; t.futex = 0; t.fn = f; t.name = name; t.depth = 0;
    if (id >= nT) nT = id + 1;
    uint32_t was = t.vc.c[id]; __real_memset(&t.vc, 0, sizeof t.vc); join(t.vc, T[me].vc); t.vc.c[id] = (was > t.vc.c[id] ? was : t.vc.c[id]) + 1; T[me].vc.c[me]++;
    t.prio = 1000 + (int)draw(1000);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20);
    if (!real_create) real_create = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (real_create(&t.pt, &a, entry, &t)) broken("pthread_create");
    return id;
}
void spawn(const std::function<void()>& f, const char* name) { active = true; make(f, name); sync_point(); }
bool others_idle(int self) { for (int i = 0; i < nT; i++) if (i != self && T[i].used && !T[i].done && runnable(T[i])) return false; return true; }
bool all_done() { for (int i = 1; i < nT; i++) if (T[i].used && !T[i].done) return false; return true; }
void join_all()
{
    cond_t c = [] { return all_done(); };
    block_until(c, "the other threads to end");
    for (int i = 1; i < nT; i++) if (T[i].used) { join(T[0].vc, T[i].vc); T[i].fn = std::function<void()>(); T[i].used = false; }
    active = false; nT = nT; // ids are not reused with a lower clock: keep vc slots
}
void set_policy(const Policy& p)
{
    pol = p; g_steps = 0; prio_low = 0; nchange = 0;
    if (p.kind == 1) { nchange = (int)p.changes; for (int i = 0; i < nchange; i++) change_at[i] = 1 + logdraw(20); }
    pol.max_steps = p.max_steps;
}
void run(const std::vector<std::function<void()> >& fns, const Policy& p)
{
    Internal I0; set_policy(p); active = true; T[0].prio = 1; // the main thread only waits
    uint64_t sw = g_switch;
    for (size_t i = 0; i < fns.size(); i++) make(fns[i], "worker");
    new_quantum();
    { External X; join_all(); }
    count("sched.runs"); count("sched.switches", g_switch - sw); count("sched.steps", g_steps); count(p.kind == 0 ? "sched.policy.random" : p.kind == 1 ? "sched.policy.pct" : "sched.policy.sync");
    sim_time(1e-9 * (double)g_steps);
    log("threads done: switches %llu steps %llu", (unsigned long long)(g_switch - sw), (unsigned long long)g_steps);
}
void init_child()
{
    T = (Thread*)calloc(MAXT, sizeof(Thread)); for (int i = 0; i < MAXT; i++) new (&T[i].fn) std::function<void()>();
    nT = 1; T[0].used = T[0].started = true; T[0].vc.c[0] = 1; me = 0; cur = 0; active = false; g_seq = g_steps = g_switch = 0; quantum = 1 << 30;
}
}} // namespace

using namespace sim; using namespace sim::sched;
#define LIVE() (active && internal_depth == 0 && layers_on)
#define PC() __builtin_return_address(0)

extern "C" {
void sim_on_alloc(void* p, size_t n) { if (dir) { shadow_clear((uintptr_t)p, n); } }
// quarantine
static struct Q { void* p; size_t n; } qbuf[1 << 16]; static unsigned qh, qt; static size_t qbytes;
bool sim_on_free(void* p, size_t n)
{
    if (!T || internal_depth) return false;
    if (!active) return false;
    if (n) { range((uintptr_t)p, n, true, false, PC()); // freeing conflicts with unordered accesses
        uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + n; for (; a < e; a += 8) { Cell& C = page(a, true)->c[(a & 4095) >> 3]; __real_memset(&C, 0, sizeof C); Rec& r = C.r[0]; r.clk = T[me].vc.c[me]; r.tid = (uint8_t)me; r.mask = 0xff; r.flags = 5; r.pc = pcoff(PC()); r.fn = curfn(); } }
    return qbytes += n, qbytes < ((size_t)512 << 20); // the block is never reused within the run (up to 512 MB)
}
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (!LIVE()) return; Thread& t = T[me]; t.stk[(t.depth++) % STK] = pc; step(); }
void __tsan_func_exit() { if (!LIVE()) return; Thread& t = T[me]; if (t.depth > 0) t.depth--; }
#define ACC(N) \
void __tsan_read##N(void* a) { if (LIVE()) { if (detect) range((uintptr_t)a, N, false, false, PC()); step(); } } \
void __tsan_write##N(void* a) { if (LIVE()) { if (detect) range((uintptr_t)a, N, true, false, PC()); step(); } } \
void __tsan_unaligned_read##N(void* a) { if (LIVE()) { if (detect) range((uintptr_t)a, N, false, false, PC()); step(); } } \
void __tsan_unaligned_write##N(void* a) { if (LIVE()) { if (detect) range((uintptr_t)a, N, true, false, PC()); step(); } } \
void __tsan_volatile_read##N(void* a) { if (LIVE()) { if (detect) range((uintptr_t)a, N, false, false, PC()); step(); } } \
void __tsan_volatile_write##N(void* a) { if (LIVE()) { if (detect) range((uintptr_t)a, N, true, false, PC()); step(); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { if (LIVE()) { if (detect) range((uintptr_t)a, n, false, false, PC()); step(); } }
void __tsan_write_range(void* a, size_t n) { if (LIVE()) { if (detect) range((uintptr_t)a, n, true, false, PC()); step(); } }
void __tsan_vptr_update(void** p, void* v) { if (LIVE()) { if (detect && *p != v) range((uintptr_t)p, 8, true, false, PC()); step(); } }
void __tsan_vptr_read(void** p) { if (LIVE()) { if (detect) range((uintptr_t)p, 8, false, false, PC()); step(); } }

static inline void atom(const void* a, size_t n, bool wr, int mo, bool rmw, void* pc)
{
    if (!LIVE()) return;
    sync_point();
    if (detect) range((uintptr_t)a, n, wr, true, pc);
    bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5; // consume acquire release acq_rel seq_cst
    if (acq && (!wr || rmw)) hb_acquire(a);
    if (rel && wr) hb_release(a);
}
#define ATOM(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY* a, int mo) { atom((const void*)a, sizeof(TY), false, mo, false, PC()); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile TY* a, TY v, int mo) { atom((const void*)a, sizeof(TY), true, mo, false, PC()); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int mo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int mo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int mo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int mo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int mo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int mo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); if (LIVE() && chance(1, 64)) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); count("fault.cas-spurious"); return 0; } return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { atom((const void*)a, sizeof(TY), true, mo, true, PC()); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (LIVE()) { sync_point(); static int F; hb_acquire(&F); hb_release(&F); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, const void* s, size_t n) { if (LIVE() && detect && n) { range((uintptr_t)s, n, false, false, PC()); range((uintptr_t)d, n, true, false, PC()); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (LIVE() && detect && n) { range((uintptr_t)s, n, false, false, PC()); range((uintptr_t)d, n, true, false, PC()); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (LIVE() && detect && n) range((uintptr_t)d, n, true, false, PC()); return __real_memset(d, c, n); }
// C library functions that read or write memory of the code under test
#define RD(p, n) range((uintptr_t)(p), (n), false, false, PC())
#define WR(p, n) range((uintptr_t)(p), (n), true, false, PC())
#define TR() (LIVE() && detect)
size_t __real_strlen(const char*); int __real_strcmp(const char*, const char*); int __real_strncmp(const char*, const char*, size_t); int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); char* __real_strchr(const char*, int); char* __real_strcpy(char*, const char*); char* __real_strncpy(char*, const char*, size_t); char* __real_strcat(char*, const char*); int __real_vsnprintf(char*, size_t, const char*, va_list);
double __real_strtod(const char*, char**); long __real_strtol(const char*, char**, int); unsigned long __real_strtoul(const char*, char**, int); unsigned long long __real_strtoull(const char*, char**, int);
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (TR()) { RD(s, n + 1); step(); } return n; }
int __wrap_strcmp(const char* a, const char* b) { if (TR()) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; RD(a, i + 1); RD(b, i + 1); step(); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { if (TR() && n) { size_t i = 0; while (i + 1 < n && a[i] && a[i] == b[i]) i++; RD(a, i + 1); RD(b, i + 1); step(); } return __real_strncmp(a, b, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (TR() && n) { RD(a, n); RD(b, n); step(); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); if (TR() && n) { RD(a, r ? (size_t)((char*)r - (char*)a) + 1 : n); step(); } return r; }
char* __wrap_strchr(const char* a, int c) { char* r = __real_strchr(a, c); if (TR()) { RD(a, r ? (size_t)(r - a) + 1 : __real_strlen(a) + 1); step(); } return r; }
char* __wrap_strcpy(char* d, const char* s) { if (TR()) { size_t n = __real_strlen(s) + 1; RD(s, n); WR(d, n); step(); } return __real_strcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { if (TR() && n) { size_t l = strnlen(s, n); RD(s, l < n ? l + 1 : n); WR(d, n); step(); } return __real_strncpy(d, s, n); }
char* __wrap_strcat(char* d, const char* s) { if (TR()) { size_t n = __real_strlen(s) + 1, l = __real_strlen(d); RD(s, n); RD(d, l + 1); WR(d + l, n); step(); } return __real_strcat(d, s); }
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list a) { int r = __real_vsnprintf(d, n, f, a); if (TR() && n && r >= 0) { WR(d, (size_t)r < n ? (size_t)r + 1 : n); step(); } return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, n, f, a); va_end(a); return r; }
int __wrap_vsprintf(char* d, const char* f, va_list a) { return __wrap_vsnprintf(d, (size_t)1 << 30, f, a); }
int __wrap_sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, (size_t)1 << 30, f, a); va_end(a); return r; }
#define STRTO(T, NAME, SIG, CALL) T __wrap_##NAME SIG { char* q; if (!e) e = &q; T r = CALL; if (TR()) { RD(s, (size_t)(*e - s) + 1); step(); } return r; }
STRTO(double, strtod, (const char* s, char** e), __real_strtod(s, e)) STRTO(long, strtol, (const char* s, char** e, int b), __real_strtol(s, e, b)) STRTO(unsigned long, strtoul, (const char* s, char** e, int b), __real_strtoul(s, e, b)) STRTO(unsigned long long, strtoull, (const char* s, char** e, int b), __real_strtoull(s, e, b))
int __wrap_atoi(const char* s) { return (int)__wrap_strtol(s, 0, 10); }
double __wrap_atof(const char* s) { return __wrap_strtod(s, 0); }
// the parts of std::map that live in libstdc++.so
struct RB { long color; RB *parent, *left, *right; };
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, RB*, RB*, RB*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, RB* x, RB* p, RB* h)
{
    if (LIVE() && detect) { range((uintptr_t)&h->parent, 24, true, false, PC()); range((uintptr_t)p, 32, true, false, PC()); range((uintptr_t)x, 32, true, false, PC()); }
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
RB* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RB*, RB*);
RB* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RB* z, RB* h)
{
    if (LIVE() && detect) { range((uintptr_t)&h->parent, 24, true, false, PC()); range((uintptr_t)z, 32, true, false, PC()); if (z->parent) range((uintptr_t)z->parent, 32, true, false, PC()); }
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}

// ---- pthread synchronisation ----
static inline bool simulated() { return layers_on && T; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!simulated() || internal_depth) return 0;
    sync_point();
    Obj* o = obj(m); int kind = m->__data.__kind & 3;
    if (o->owner == me) { if (kind == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; } if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; internal_depth++; violate("deadlock", "thread %d locks a mutex it already holds", me); }
    if (o->owner >= 0) { count("sched.contended"); cond_t c = [o] { return o->owner < 0; }; block_obj(c, "a mutex", m); }
    o->owner = me; o->depth = 1; hb_acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!simulated() || internal_depth) return 0;
    sync_point(); Obj* o = obj(m);
    if (o->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; }
    if (o->owner >= 0) return EBUSY;
    o->owner = me; o->depth = 1; hb_acquire(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!simulated() || internal_depth) return 0;
    Obj* o = obj(m);
    if (o->owner != me) { internal_depth++; violate("bad-unlock", "thread %d unlocks a mutex held by %d", me, o->owner); }
    if (--o->depth > 0) return 0;
    hb_release(m); o->owner = -1; sync_point();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!simulated() || internal_depth) return 0;
    Obj* o = obj_find(m); if (o && o->owner >= 0) { internal_depth++; violate("bad-unlock", "a mutex is destroyed while held by thread %d", o->owner); }
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { __real_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    Obj* o = obj(c); uint64_t g = o->gen; bool ok = true;
    pthread_mutex_unlock(m);
    if (!chance(1, 32)) { cond_t f = [o, g] { return o->gen != g; }; T[me].obj = 0; ok = block_until(f, "a condition", timed); if (ok) hb_acquire(c); } else count("fault.spurious-wakeup");
    pthread_mutex_lock(m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!simulated() || internal_depth) return 0; return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { if (!simulated() || internal_depth) return ETIMEDOUT; return cwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { if (!simulated() || internal_depth) return ETIMEDOUT; return cwait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { if (!simulated() || internal_depth) return 0; hb_release(c); obj(c)->gen++; sync_point(); return 0; } // may wake more than one: allowed
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
int pthread_once(pthread_once_t* once, void (*f)())
{
    if (!simulated() || internal_depth) { if (*once == 0) { *once = 2; f(); } return 0; }
    sync_point();
    while (*once == 1) { cond_t c = [once] { return *once != 1; }; block_until(c, "pthread_once"); }
    if (*once == 0) { *once = 1; try { f(); } catch (...) { *once = 0; throw; } hb_release(once); *once = 2; }
    hb_acquire(once); return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    if (b[0]) { if (LIVE()) hb_acquire(g); return 0; }
    if (!simulated() || internal_depth) { b[1] = 1; return 1; }
    sync_point();
    while (!b[0]) { if (!b[1]) { b[1] = 1; return 1; } cond_t c = [b] { return b[0] || !b[1]; }; block_until(c, "a static initialization"); }
    hb_acquire(g); return 0;
}
void __cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; if (simulated() && !internal_depth) hb_release(g); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; }
// reader/writer locks: owner = writer, depth = number of readers
static int rwlock(pthread_rwlock_t* l, bool wr, bool wait)
{
    if (!simulated() || internal_depth) return 0;
    sync_point(); Obj* o = obj(l);
    if (o->owner == me) { if (!wait) return EBUSY; internal_depth++; violate("deadlock", "thread %d locks a reader/writer lock it already holds", me); }
    auto ok = [o, wr] { return o->owner < 0 && (!wr || o->depth == 0); };
    if (!ok()) { if (!wait) return EBUSY; count("sched.contended"); cond_t c = ok; block_obj(c, "a reader/writer lock", l); }
    if (wr) o->owner = me; else o->depth++;
    hb_acquire(l); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { __real_memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return rwlock(l, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return rwlock(l, true, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return rwlock(l, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return rwlock(l, true, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if (!simulated() || internal_depth) return 0;
    Obj* o = obj(l);
    if (o->owner == me) o->owner = -1; else if (o->owner < 0 && o->depth > 0) o->depth--; else { internal_depth++; violate("bad-unlock", "thread %d unlocks a reader/writer lock it does not hold", me); }
    hb_release(l); sync_point(); return 0;
}
static void yield() { if (!LIVE()) return; if (!active) return; if (pol.kind == 1) T[me].prio = --prio_low; g_steps += 16; resched(false); } // a spinning thread lets the others run
int sched_yield(void) noexcept { yield(); return 0; }
static int zzz(time_t sec, long nsec) { if (layers_on && T) { yield(); return 0; } struct timespec t = { sec, nsec }; return (int)syscall(SYS_nanosleep, &t, 0); }
int usleep(useconds_t u) { return zzz(u / 1000000, u % 1000000 * 1000L); }
unsigned sleep(unsigned n) { zzz(n, 0); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) { return zzz(t->tv_sec, t->tv_nsec); }
}
