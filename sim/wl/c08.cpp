// C08: machines used from different threads do not influence each other.
// Every thread runs a program drawn beforehand on machines and states of its own; what each step gave
// must be, bit for bit, what it gives when the program runs alone in a pristine process.
#include "gen.h"
#include <flame/util.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <math.h>
#include <limits.h>
#include <sys/stat.h>
#include <stdexcept>
#include <sstream>
using namespace sim;

namespace {
enum Kind { BUILD, PARSE, PARSEFILE, RECONF, PROP, BACK, STEP, SHOW, FETCH, LOOKUP, DESTROY, CLONE, OBSERVE, NK };
const char* const KN[] = { "build", "parse", "parse file", "reconfigure", "propagate", "propagate back", "step", "show", "fetch", "lookup", "destroy", "clone", "observe" };
struct Step { Kind k; Config conf; std::string text; unsigned a, b; unsigned oom, ioerr; Step() : k(SHOW), a(0), b(0), oom(0), ioerr(0) {} };
struct Prog { std::vector<Step> steps; };
struct Out { std::vector<std::string> r; };
struct Shared { std::vector<Config> lats; };   // configurations all threads copy from
const Shared* SH; unsigned iofail[32];

struct Obs : public Observer { std::string* out; void view(const ElementVoid* e, const StateBase* s) { gen::Snap x = gen::snap(const_cast<StateBase*>(s)); Internal I; uint64_t h = hashstr(e->name); for (size_t i = 0; i < x.vals.size(); i++) h = hashbytes(x.vals[i].data(), 8 * x.vals[i].size(), h); char b[32]; snprintf(b, sizeof b, " %016llx", (unsigned long long)h); *out += b; } };

std::string enc(const gen::Snap& s)
{
    Internal I; std::string o; char b[40];
    for (size_t i = 0; i < s.names.size(); i++) { o += s.names[i] + ":"; for (size_t k = 0; k < s.vals[i].size(); k++) { snprintf(b, sizeof b, " %.17g", s.vals[i][k]); o += b; } o += "\n"; }
    return o;
}

struct Ctx {
    std::unique_ptr<Machine> M; std::unique_ptr<StateBase> S; std::vector<Obs*> obs;
    void drop() { if (M) for (size_t i = 0; i < M->size(); i++) (*M)[i]->set_observer(0); M.reset(); }
    ~Ctx() { drop(); for (size_t i = 0; i < obs.size(); i++) delete obs[i]; }
};

std::string one(Ctx& C, const Step& s)
{
    switch (s.k) {
    case BUILD: { Config c(s.a < SH->lats.size() ? SH->lats[s.a] : s.conf); std::unique_ptr<Machine> n(new Machine(c)); C.S.reset(); C.drop(); C.M.swap(n); mem::disarm(); /* printing a matrix out of memory truncates it silently */ std::ostringstream o; o.exceptions(std::ios::badbit); o << *C.M; return o.str(); }
    case PARSE: case PARSEFILE: {
        GLPSParser P; std::unique_ptr<Config> c;
        if (s.k == PARSE) c.reset(P.parse_byte(s.text.c_str(), s.text.size())); else c.reset(P.parse_file((scratch() + "/" + s.text).c_str()));
        std::ostringstream o; o.exceptions(std::ios::badbit); GLPSPrint(o, *c);
        if (s.b) { std::unique_ptr<Machine> n(new Machine(*c)); C.S.reset(); C.drop(); C.M.swap(n); }
        return o.str(); }
    case RECONF: { if (!C.M || s.a >= C.M->size()) return "none"; Config c(s.conf); ElementVoid* E = (*C.M)[s.a]; if (s.b) c = E->conf(); c.set<std::string>("type", E->type_name()); if (s.b) c.set<double>("L", 0.1 * s.b); C.M->reconfigure(s.a, c); std::ostringstream o; o.exceptions(std::ios::badbit); E->show(o, 2); return o.str(); }
    case PROP: { if (!C.M) return "none"; C.S.reset(C.M->allocState(s.conf)); C.M->propagate(C.S.get(), 0, INT_MAX); return enc(gen::snap(C.S.get(), true)); }
    case BACK: { if (!C.M || !C.S || !C.M->size()) return "none"; std::unique_ptr<StateBase> t(C.S->clone()); C.M->propagate(t.get(), C.M->size() - 1, -(int)C.M->size()); return enc(gen::snap(t.get(), true)); }
    case STEP: { if (!C.M || !C.S || !C.M->size()) return "none"; std::unique_ptr<StateBase> t(C.S->clone()); C.M->propagate(t.get(), s.a % C.M->size(), 1 + s.b); std::string r = enc(gen::snap(t.get(), true)); C.S.swap(t); return r; }
    case SHOW: { std::ostringstream o; o.exceptions(std::ios::badbit); if (C.M) { o << *C.M; C.M->conf().show(o, 2); } if (C.S) C.S->show(o, 3); return o.str(); }
    case FETCH: { numeric_table_cache::table_pointer T = numeric_table_cache::get()->fetch(s.text); double h = 0; for (size_t i = 0; i < T->table.size1(); i++) for (size_t j = 0; j < T->table.size2(); j++) h = h * 1.0001 + T->table(i, j); char b[64]; snprintf(b, sizeof b, "%zux%zu %.17g", T->table.size1(), T->table.size2(), h); if (s.b) numeric_table_cache::get()->clear(); return b; }
    case LOOKUP: { if (!C.M) return "none"; std::string r; char b[40]; ElementVoid* E = C.M->find(s.text, s.a); snprintf(b, sizeof b, "%zd ", E ? (ssize_t)E->index : -1); r = b; std::pair<Machine::lookup_iterator, Machine::lookup_iterator> p = C.M->equal_range_type(s.b ? "drift" : "quadrupole"); for (; p.first != p.second; ++p.first) { snprintf(b, sizeof b, "%zu,", (*p.first)->index); r += b; } mem::disarm(); std::ostringstream o; o.exceptions(std::ios::badbit); GLPSPrint(o, C.M->conf()); return r + o.str(); }
    case DESTROY: { C.S.reset(); C.drop(); return "destroyed"; }
    case CLONE: { if (!C.S) return "none"; std::unique_ptr<StateBase> t(C.S->clone()); C.S.swap(t); return enc(gen::snap(C.S.get())); }
    case OBSERVE: { if (!C.M || !C.M->size()) return "none"; std::string r; Obs* o = new Obs; o->out = &r; C.obs.push_back(o); (*C.M)[s.a % C.M->size()]->set_observer(o); std::string e; try { C.S.reset(C.M->allocState(s.conf)); C.M->propagate(C.S.get()); } catch (std::exception& x) { e = x.what(); } (*C.M)[s.a % C.M->size()]->set_observer(0); if (!e.empty()) throw std::runtime_error(e); return r; }
    default: return "";
    }
}
void exec(const Prog& P, Out& o, bool faults)
{
    Ctx C;
    for (size_t i = 0; i < P.steps.size(); i++) {
        const Step& s = P.steps[i]; std::string r;
        // a failing attempt first: it must be reported, and must disturb neither this thread's next attempt nor anybody else
        if (faults && (s.oom || s.ioerr) && s.k != RECONF && s.k != OBSERVE && s.k != STEP && !(s.k == SHOW && s.oom) && !(s.k == PARSE && s.oom) && !(s.k == PARSEFILE && s.oom)) {
            if (s.oom) mem::arm(s.oom);
            iofail[sched::self()] = s.ioerr;
            bool failed = false;
            try { r = one(C, s); } catch (std::exception&) { failed = true; }
            mem::disarm(); iofail[sched::self()] = 0;
            if (failed) { count("step.failed-by-fault"); try { r = one(C, s); } catch (std::exception& e) { r = std::string("error: ") + e.what(); } }
        } else
            try { r = one(C, s); } catch (std::exception& e) { r = std::string("error: ") + e.what(); }
        Internal I; o.r.push_back(r);
    }
}
std::string pack(const Out& o) { std::string r; for (size_t i = 0; i < o.r.size(); i++) { r += std::to_string(o.r[i].size()) + ":" + o.r[i]; } return r; }
Out unpack(const std::string& s) { Out o; for (size_t p = 0; p < s.size();) { size_t c = s.find(':', p); size_t n = strtoull(s.c_str() + p, 0, 10); o.r.push_back(s.substr(c + 1, n)); p = c + 1 + n; } return o; }

const char* const TEXTS[] = {
 "sim_type = \"MomentMatrix\"; IonEs = 931494320.0; IonEk = 500000.0; AMU = 238.0; IonChargeStates = [33.0/AMU]; NCharge = [10111.0];\n"
 "VV: source, vector_variable = \"x\", matrix_variable = \"P\"; S: source, vector_variable = \"BaryCenter\", matrix_variable = \"S\";\n"
 "BaryCenter0 = [1.0, 0.001, 0.5, 0.0, 0.0, 0.0, 1.0];\nd1: drift, L = 0.5*sin(1.2)+1; q1: quadrupole, L = 0.25, B2 = 7.3; sol: solenoid, L = 0.1, B = 5.34;\nb: bpm;\ncell: LINE = (d1, q1, d1, 2*sol, b);\nfoo: LINE = (cell, -cell);\nUSE: cell;\n",
 "sim_type = \"Vector\"; Frf = 80.5e6; pi = 3.14159; d: drift, L = 2*pi; q: quadrupole, L = 0.1, K = sqrt(2.0); m: marker; l: LINE = (d, q, m, 3*q);\n",
 "sim_type = \"TransferMatrix\";\nx = [1, 2, 3*4]; y = \"a string\"; d: drift, L = cos(0.0), note = y; z: LINE = (d);\n# comment\n",
 "sim_type = \"Vector\"; a: drift, L = ; b: LINE = (a);\n",
 "q = 1/0; x: unknown_thing, L = 3; y: LINE = (x, nosuch);\n",
 "sim_type = \"MomentMatrix\"; e: quadrupole, L = undefinedvar; l: LINE = (e);\n",
};
}

WORKLOAD(c08, "threads with machines of their own against running alone")
{
    gen::setup_data(); Shared sh; SH = &sh; memset(iofail, 0, sizeof iofail);
    unsigned flags = 0; if (chance(1, 2)) flags |= gen::F_CAVITY; if (chance(1, 2)) flags |= gen::F_GENERIC; if (chance(1, 2)) flags |= gen::F_CURVEFILE; if (chance(1, 2)) flags |= gen::F_STRIPPER; if (chance(1, 3)) flags |= gen::F_SEXT;
    std::string dd = scratch() + "/d"; bool local = chance(1, 2);
    if (local) { std::vector<std::string> cv; static const char* CV[] = { "41", "85", "29", "53" }; cv.assign(CV, CV + 4); gen::copy_data(dd, 1400000000, cv); gen::datadir = dd; }
    { Internal I; mkdir((scratch() + "/l").c_str(), 0755); for (int i = 0; i < 6; i++) io::put(scratch() + "/l/t" + std::to_string(i) + ".lat", TEXTS[i], 1400000001 + i); }
    unsigned nl = 1 + draw(2); std::vector<int> kinds;
    for (unsigned i = 0; i < nl; i++) { int k = gen::random_kind(80); kinds.push_back(k); sh.lats.push_back(gen::machine(k, 1 + draw(4), flags, chance(1, 2))); }
    unsigned nt = 2 + draw(3); std::vector<Prog> P(nt); bool faults = chance(1, 2);
    for (unsigned t = 0; t < nt; t++) {
        int kind = kinds[0]; unsigned ne = 4; uint32_t q = 0;
        { Step s; s.k = BUILD; unsigned z = draw(nl + 1); s.a = z; if (z < nl) kind = kinds[z]; else { kind = gen::random_kind(80); s.conf = gen::machine(kind, 1 + draw(4), flags, chance(1, 2)); s.a = 99; } if (draw(4) != 3) P[t].steps.push_back(s); }
        while (more(6, q, tier() ? 24 : 10)) {
            Op op; Step s; static const Kind K[] = { PROP, PROP, PROP, RECONF, RECONF, BACK, STEP, SHOW, FETCH, LOOKUP, CLONE, OBSERVE, PARSE, PARSEFILE, BUILD, DESTROY, FETCH };
            s.k = K[draw(17)]; s.a = draw(ne); s.b = draw(3);
            if (s.k == BUILD) { unsigned z = draw(nl + 1); s.a = z; if (z < nl) kind = kinds[z]; else { kind = gen::random_kind(80); s.conf = gen::machine(kind, 1 + draw(4), flags, chance(1, 2)); s.a = 99; } }
            else if (s.k == PARSE) { s.text = TEXTS[draw(6)]; s.b = draw(2); }
            else if (s.k == PARSEFILE) { s.text = "l/t" + std::to_string(draw(7)) + ".lat"; s.b = draw(2); }
            else if (s.k == RECONF) s.conf = kind == 0 ? gen::moment_element("r" + std::to_string(draw(3)), flags) : gen::linear_element("r" + std::to_string(draw(3)));
            else if (s.k == FETCH) { static const char* C[] = { "41", "85", "29", "53" }; s.text = gen::datadir + "/axisData_" + C[draw(4)] + ".txt"; s.b = draw(4) == 3; }
            else if (s.k == LOOKUP) s.text = "e" + std::to_string(draw(4));
            if (s.k == PROP || s.k == OBSERVE) s.conf = gen::moment_beam();
            if (faults && chance(1, 4)) { if (draw(2)) s.oom = 1 + logdraw(8); else s.ioerr = 1 + draw(6); }
            P[t].steps.push_back(s);
        }
    }
    // alone, each in a pristine process
    std::vector<Out> want(nt);
    for (unsigned t = 0; t < nt; t++) { std::string s = isolated([&] { Out o; { External X; exec(P[t], o, false); } return pack(o); }); Internal I; want[t] = unpack(s); }
    // together
    io::set_hook([](const io::Event& e) { io::Decision D; unsigned& f = iofail[sched::self()]; if (f && e.kind != io::CLOSE && --f == 0) { D.err = e.kind == io::OPEN ? EMFILE : EIO; } return D; });
    std::vector<Out> got(nt); std::vector<std::function<void()> > fns;
    for (unsigned t = 0; t < nt; t++) { const Prog* p = &P[t]; Out* o = &got[t]; fns.push_back([p, o, faults] { exec(*p, *o, faults); }); }
    sched::run(fns, sched::random_policy());
    io::clear_hook();
    Internal I;
    for (unsigned t = 0; t < nt; t++) for (size_t i = 0; i < P[t].steps.size(); i++) {
        std::string a = i < got[t].r.size() ? got[t].r[i] : "(missing)", b = i < want[t].r.size() ? want[t].r[i] : "(missing)";
        const char* kn = KN[P[t].steps[i].k];
        count((std::string("op.") + kn).c_str()); if (b.compare(0, 6, "error:") == 0) count("op.error"); else if (b != "none") count("op.ok");
        log("thread %u step %zu %s: %016llx", t, i, kn, (unsigned long long)hashstr(b));
        if (a != b) { size_t z = 0; while (z < a.size() && z < b.size() && a[z] == b[z]) z++; size_t y = z > 40 ? z - 40 : 0; violate("threads-interfere", "step %zu (%s) of thread %u of %u gives '...%s' instead of '...%s'", i, kn, t, nt, a.substr(y, 160).c_str(), b.substr(y, 160).c_str()); }
        reach(hashstr(std::string(kn) + (b.compare(0, 6, "error:") == 0 ? "E" : b == "none" ? "N" : "O") + std::to_string(nt) + (P[t].steps[i].oom ? "m" : P[t].steps[i].ioerr ? "i" : "") + std::to_string(P[t].steps[i].k == BUILD || P[t].steps[i].k == PROP ? hashstr(b) % 65536 : 0)));
    }
}
