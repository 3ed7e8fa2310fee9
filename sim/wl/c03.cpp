// C03: a failed operation is contained: clean error, no leak, retry gives the answer.
#include "gen.h"
#include <flame/util.h>
#include <flame/moment.h>
#include <string.h>
#include <errno.h>
#include <stdexcept>
#include <sstream>
using namespace sim;

namespace {
typedef std::unique_ptr<StateBase> SP;
struct NullBuf : public std::streambuf { int overflow(int c) { return c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };
struct NullLog : public Machine::Logger { void log(const Machine::LogRecord& r) { std::string s(r.strm.str()); (void)s; } };

struct Ctx {
    Config conf, beam; int kind; Machine* M; StateBase* in; size_t start; int max; bool trace;
};
enum OpKind { BUILD, ALLOC, ALLOCDEF, CLONE, PROP, ASSIGN, SHOW, NOPS };
const char* ON[] = { "build", "allocState(config)", "allocState()", "clone", "propagate", "assign", "show" };

// one operation on real objects.  Result in 'res' (Internal), throws on failure.
void perform(OpKind o, Ctx& C, gen::Snap* res, SP* keep = 0)
{
    if (o == BUILD) { Machine M(C.conf); if (res) { Internal I; std::ostringstream s; s << M; SP st(M.allocState(C.beam)); std::string e; try { M.propagate(st.get(), 0, INT_MAX); } catch (std::exception& x) { e = "error"; } *res = gen::snap(st.get(), true); res->names.push_back(s.str() + e); } return; }
    if (o == ALLOC) { SP s(C.M->allocState(C.beam)); if (res) *res = gen::snap(s.get(), true); return; }
    if (o == ALLOCDEF) { SP s(C.M->allocState()); if (res) *res = gen::snap(s.get(), true); return; }
    if (o == CLONE) { SP s(C.in->clone()); if (res) *res = gen::snap(s.get(), true); return; }
    if (o == ASSIGN) { SP s; { Internal I; s.reset(C.M->allocState()); } s->assign(*C.in); if (res) *res = gen::snap(s.get(), true); { Internal I; s.reset(); } return; }
    if (o == SHOW) { std::ostringstream s; s << *C.M; C.in->show(s, 2); if (res) { Internal I; res->names.push_back(s.str()); } return; }
    SP s; { Internal I; s.reset(C.in->clone()); }
    struct Drop { SP& p; ~Drop() { Internal I; p.reset(); } } drop = { s };
    C.M->propagate(s.get(), C.start, C.max);
    if (res) *res = gen::snap(s.get(), true);
}
std::string attempt(OpKind o, Ctx& C, gen::Snap* res)
{
    try { perform(o, C, res); return ""; }
    catch (std::exception& e) { Internal I; return std::string("error: ") + e.what(); }
    catch (...) { violate("strange-exception", "%s ended with an exception that is not a std::exception", ON[o]); }
}
std::string strip(std::string s) { size_t z; while ((z = s.find(scratch())) != std::string::npos) s.replace(z, scratch().size(), "$S"); return s; }
}

WORKLOAD(c03, "containment of failures")
{
    gen::setup_data();
    Ctx C; C.kind = gen::random_kind(85); C.M = 0;
    unsigned n = 1 + draw(5), flags = gen::F_ALL;
    if (chance(1, 3)) flags &= ~gen::F_CAVITY;
    // part of the runs use data files of their own, so that file access can fail
    bool own = C.kind == 0 && (flags & gen::F_CAVITY) && chance(1, 2);
    if (own) { std::string d = scratch() + "/data"; std::vector<std::string> k; k.push_back("41"); k.push_back("85"); k.push_back("29"); k.push_back("53"); gen::copy_data(d, 1400000000, k); gen::datadir = d; }
    bool src = chance(1, 2);
    C.conf = gen::machine(C.kind, n, flags, src);
    if (C.kind == 0) C.beam = gen::moment_beam(); else { std::vector<double> v; for (int i = 0; i < (C.kind == 1 ? 6 : 36); i++) v.push_back(1e-3 * draw(100)); C.beam.set<std::vector<double> >("initial", v); }
    bool cold = chance(1, 3), logging = chance(1, 4);
    boost::shared_ptr<NullLog> nl; if (logging) { Internal I; nl.reset(new NullLog); Machine::set_logger(nl); Machine::log_detail = draw(2) ? FLAME_FINE : FLAME_DEBUG; }
    NullBuf nb; std::ostream tr(&nb);
    // reference results from an undisturbed copy of the process (also tells whether the machine is buildable)
    OpKind first = BUILD;
    uint32_t nop = 0; std::unique_ptr<Machine> M, other; SP in, oin; gen::Snap oref;
    auto needmachine = [&]() {
        if (M) return; Internal I;
        try { M.reset(new Machine(C.conf)); in.reset(M->allocState(C.beam)); } catch (std::exception& e) { discard("machine not buildable"); }
        C.M = M.get(); C.in = in.get();
    };
    if (!cold) needmachine();
    int64_t live0 = 0;
    { std::string r = isolated([&] { std::string s; try { Machine X(C.conf); SP st(X.allocState(C.beam)); s = "ok"; } catch (std::exception& e) { s = "bad"; } return s; }); if (r != "ok") discard("machine not buildable"); }
    // a bystander, which no failure may damage
    { Internal I; Config oc = gen::machine(0, 2, gen::F_CAVITY, true); try { other.reset(new Machine(oc)); oin.reset(other->allocState(gen::moment_beam())); SP t(oin->clone()); other->propagate(t.get(), 0, INT_MAX); oref = gen::snap(t.get(), true); } catch (std::exception&) { other.reset(); } }
    if (!cold) { C.start = 0; C.max = INT_MAX; for (int w = 0; w < 2; w++) for (int o = 0; o < NOPS; o++) { gen::Snap g; attempt((OpKind)o, C, &g); if (w == 0 || o != NOPS - 1) continue; } Internal I; M.reset(); in.reset(); live0 = mem::live(); }
    while (more(5, nop, tier() ? 14 : 6)) {
        Op op;
        OpKind o = nop == 1 && cold ? first : (OpKind)draw(NOPS);
        if (draw(3) == 2) o = PROP; if (o != BUILD) needmachine();
        if (o == PROP) { size_t N = C.M->size(); C.start = draw(4) == 3 ? draw((unsigned)N) : 0; C.max = draw(4) == 3 ? 1 + (int)draw((unsigned)N) : INT_MAX; C.M->set_trace(chance(1, 4) ? &tr : 0); }
        // undisturbed: number of allocations, file operations and the expected result
        struct Info { uint64_t allocs; uint32_t io; bool ok; };
        std::string raw = isolated([&] {
            Info f; f.io = 0; gen::Snap s; 
            io::set_hook([&](const io::Event&) { f.io++; return io::Decision(); });
            uint64_t a0; std::string e;
            { External X; a0 = mem::allocs(); e = attempt(o, C, &s); f.allocs = mem::allocs() - a0; }
            f.ok = e.empty();
            std::string r((char*)&f, sizeof f);
            for (size_t i = 0; i < s.vals.size(); i++) { size_t k = s.vals[i].size(); r.append((char*)&k, sizeof k); r.append((char*)s.vals[i].data(), 8 * k); }
            for (size_t i = 0; i < s.names.size(); i++) r += s.names[i] + "\n";
            return r; });
        if (raw.size() < sizeof(Info)) broken("short reference");
        Info inf; memcpy(&inf, raw.data(), sizeof inf);
        auto image = [&](const gen::Snap& s) { std::string r; for (size_t i = 0; i < s.vals.size(); i++) { size_t k = s.vals[i].size(); r.append((char*)&k, sizeof k); r.append((char*)s.vals[i].data(), 8 * k); } for (size_t i = 0; i < s.names.size(); i++) r += s.names[i] + "\n"; return r; };
        std::string expect = raw.substr(sizeof inf);
        // fault plan
        unsigned mode = inf.io && own ? draw(3) : 0; // 0 allocation, 1 file, 2 both
        uint64_t k = 0; unsigned burst = 1; uint32_t ioat = 0; int ioerr = 0;
        if (mode != 1) { if (!inf.allocs) continue; k = 1 + draw((uint32_t)(inf.allocs < 60000 ? inf.allocs : 60000)); burst = draw(4) == 3 ? 2 + draw(20) : 1; }
        if (mode != 0) { ioat = draw(inf.io); ioerr = draw(2) ? EIO : draw(2) ? EMFILE : ENOENT; }
        unsigned reps = 2 + n + draw(3); bool leaky = true, measured = false; int64_t prev = 0; unsigned failed = 0; std::string lasterr; int fd0 = io::fd_count();
        for (unsigned r = 0; r < reps; r++) {
            uint32_t seen = 0, iofired = 0; gen::Snap got;
            if (mode != 0) io::set_hook([&](const io::Event& e) { io::Decision d; if (e.kind != io::CLOSE && seen++ == ioat) { d.err = ioerr; iofired++; } return d; }); // close errors of files being read carry no information
            if (k) mem::arm(k, burst);
            std::string e = attempt(o, C, &got);
            bool fired = mem::disarm(); int64_t now = mem::live(); io::clear_hook();
            Internal I; lasterr = e;
            if (!fired && !iofired && e.empty() != inf.ok) violate("spurious-error", "%s without any fault: '%s', expected %s", ON[o], strip(e).c_str(), inf.ok ? "success" : "an error");
            if (e.empty() && o != SHOW) { if (inf.ok && image(got) != expect) violate("wrong-result-with-fault", "%s succeeded although a fault was delivered (alloc %llu io %u) but with a different result", ON[o], (unsigned long long)mem::fired(), iofired); }
            if (e.empty() && !inf.ok && (fired || iofired)) violate("wrong-result-with-fault", "%s succeeded only when a fault was delivered", ON[o]);
            if (!e.empty()) failed++;
            if (r) { if (now <= prev) leaky = false; measured = true; }
            prev = now;
        }
        log("%s with fault mode %u alloc %llu burst %u file op %u errno %d: %u of %u failed, last '%s'", ON[o], mode, (unsigned long long)k, burst, ioat, ioerr, failed, reps, strip(lasterr).c_str());
        if (o != PROP && !(cold && k) && measured && leaky && failed) violate("leak", "%s failing at allocation %llu (file op %u): the number of live blocks grows with every attempt", ON[o], (unsigned long long)k, ioat);
        if (io::fd_count() >= fd0 + (int)reps) violate("leak", "%s failing at allocation %llu (file op %u) leaves a file open every time", ON[o], (unsigned long long)k, ioat);
        count((std::string("op.") + ON[o] + (failed ? ".failed" : ".survived")).c_str());
        reach(hashstr(std::string(ON[o]) + char('0' + mode) + (failed ? "f" : "s") + std::to_string(k < 64 ? k : 64 + k / 64) + (burst > 1 ? "b" : "") + (lasterr.size() > 60 ? lasterr.substr(0, 60) : lasterr)));
        // the fault is gone: same operation on the same objects
        gen::Snap got; std::string e = attempt(o, C, &got);
        if (e.empty() != inf.ok) violate("not-recovered", "%s after a failed attempt: '%s', expected %s", ON[o], strip(e).c_str(), inf.ok ? "success" : "an error");
        { Internal I; if (e.empty() && image(got) != expect) violate("wrong-result-after-fault", "%s repeated after a failed attempt gives a different result than if the failure had not happened", ON[o]); }
        if (other) { Internal I; SP t(oin->clone()); try { other->propagate(t.get(), 0, INT_MAX); } catch (std::exception& x) { violate("bystander-damaged", "another machine fails after a failed %s: %s", ON[o], x.what()); } std::string w; if (!gen::bit_equal(gen::snap(t.get(), true), oref, &w)) violate("bystander-damaged", "another machine computes something else after a failed %s: %s", ON[o], w.c_str()); }
        if (M) { Internal I; M->set_trace(0); }
    }
    { Internal I; M.reset(); in.reset(); }
    if (!cold) { int64_t l = mem::live(); if (l > live0) violate("leak", "%lld blocks still allocated after failed operations once every object is gone", (long long)(l - live0)); }
}
