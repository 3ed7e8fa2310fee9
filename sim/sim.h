// Deterministic simulation core.
// One run = one sequence of bounded choices.  The choices come from a PRNG
// seeded with one integer (search), or from a recorded list (replay, shrink).
// Every generated operation, fault and scheduling decision is such a choice.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- choices -------------------------------------------------------------
uint32_t draw(uint32_t n);                 // uniform in [0,n), n>=1
inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // 0 == "no"
inline int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); } // inclusive, lo simplest
uint32_t logdraw(uint32_t maxbits);        // log-uniform-ish, 0 simplest
template<class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }
// an operation: begin_op() marks a span the shrinker may delete
struct Op { uint32_t idx; Op(); ~Op(); };
// "another operation?"  drawn so that 0 == stop
bool more(uint32_t avg, uint32_t& count, uint32_t max);

// ---- logging / reporting ---------------------------------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // no pointers, no real times
void count(const char* name, uint64_t n = 1);
void reach(uint64_t h);                    // a distinct state / interleaving was reached
uint64_t hashbytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hashstr(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hashbytes(s.data(), s.size(), h); }
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // harness error
[[noreturn]] void discard(const char* why);  // run not meaningful
const std::string& scratch();              // per-run scratch directory (absolute, empty)
bool tracing();
int tier();                                // 0 quick, 1 thorough
void sim_time(double seconds);             // simulated time covered by this run

// run fn in a forked copy of this process (pristine history from here on) and return its result
std::string isolated(const std::function<std::string()>& fn);

// A process forked off early (before the code under test was used): ask() runs fn in a fresh copy of it.
// Nothing this process did since then can influence the answer.
class Pristine {
    int to, from; std::function<std::string(const std::string&)> fn;
    void serve(int in, int out);
    Pristine(const Pristine&);
public:
    explicit Pristine(const std::function<std::string(const std::string&)>& f);
    ~Pristine();
    std::string ask(const std::string& req);
};

// mark code of the harness (not counted, never failed, never preempted)
struct Internal { Internal(); ~Internal(); };
// code under test called from within Internal code
struct External { int saved; External(); ~External(); };

// ---- allocation layer ------------------------------------------------------
namespace mem {
 // countdown to failure: fail the k-th (1-based) allocation from now, 0 = never. burst: number of consecutive failures
 void arm(uint64_t k, uint32_t burst = 1);
 bool disarm();                 // stop failing. true if a failure was delivered since arm()
 uint64_t fired();
 uint64_t allocs();             // number of allocations made so far (not Internal)
 int64_t live();                // live allocations (blocks) made outside Internal
 int64_t live_bytes();
 extern int fill;               // content of fresh memory
}

// ---- file layer --------------------------------------------------------------
namespace io {
 enum Kind { OPEN, READ, WRITE, STAT, CLOSE, TRUNC, FSYNC, SEEK, OTHER, NKIND };
 struct Event { Kind kind; const char* fn; std::string path; int fd; size_t len; };
 struct Decision { int err; size_t maxlen; bool limit; Decision() : err(0), maxlen(0), limit(false) {} };
 // called before each intercepted call on a scratch path; may modify files itself (it runs Internal)
 typedef std::function<Decision(const Event&)> hook_t;
 void set_hook(const hook_t& h);
 void clear_hook();
 void use_scratch_cwd();         // relative paths are scratch paths from now on
 int open_files();              // descriptors of scratch files opened and not closed yet
 int fd_count();                 // descriptors of the process in use
 // write a file and set its modification time to t (seconds)
 void put(const std::string& path, const std::string& data, int64_t t);
 void set_mtime(const std::string& path, int64_t t);
 std::string get(const std::string& path);
}

// ---- threads (sched flavour only) -------------------------------------------
namespace sched {
 bool available();
 // run the functions as simulated threads until all have returned; aborts run with violation on deadlock/livelock
 struct Policy { int kind; uint32_t changes; uint32_t quantum_bits; uint32_t sync_pct; uint64_t max_steps; Policy() : kind(0), changes(0), quantum_bits(8), sync_pct(30), max_steps(400000000ULL) {} }; // kind 0 random, 1 priorities with change points, 2 switch at synchronisation only
 void run(const std::vector<std::function<void()> >& fns, const Policy& p);
 Policy random_policy();
 void point(const char* what);  // explicit scheduling point
 uint64_t seq();                // global event sequence number (order of events)
 int self();
 uint64_t switches();
 uint64_t steps();
 void set_policy(const Policy& p);
 void join_all();
 bool race_detect(bool on);
 // blocking primitives for stubs
 typedef std::function<bool()> cond_t;
 bool block_until(const cond_t& ready, const char* what, bool timed = false); // false: timed out (simulated)
 void hb_release(const void* obj);
 void hb_acquire(const void* obj);
 void spawn(const std::function<void()>& f, const char* name);  // from within a simulated thread
}

// prepare: called once, before any run, in the process that forks the runs
struct Workload { const char* name; void (*run)(); const char* about; void (*prepare)(); };
void add_workload(const Workload& w);
struct Reg { Reg(const char* n, void (*f)(), const char* about = "", void (*prep)() = 0) { Workload w = { n, f, about, prep }; add_workload(w); } };

} // namespace sim
#define WORKLOAD(NAME, ABOUT) static void wl_##NAME(); static sim::Reg reg_##NAME(#NAME, wl_##NAME, ABOUT); static void wl_##NAME()
#define WORKLOAD_PREP(NAME, ABOUT, PREP) static void wl_##NAME(); static sim::Reg reg_##NAME(#NAME, wl_##NAME, ABOUT, PREP); static void wl_##NAME()
#endif
