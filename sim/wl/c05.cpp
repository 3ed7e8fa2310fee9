// C05: the type registry against a linearizable reference model, from several threads.
#include "gen.h"
#include <string.h>
#include <stdio.h>
#include <stdexcept>
#include <sstream>
#include <set>
using namespace sim;

namespace {
const char* const SN[] = { "simA", "a simulation type with a long name", "simC", "Vector" };
const char* const EN[] = { "ea", "an element type with a long name", "ec", "drift" };
enum { NS = 4, NE = 4, NIMPL = 3 };
int alive_elems;                       // elements constructed and not destroyed

template<int N> struct St : public StateBase {
    int tag; double sum;
    St(const Config& c) : StateBase(c), tag(N), sum(0) { if (c.get<double>("boom", 0.0) == 1.0) throw std::runtime_error("state constructor"); }
    St(const St& o, clone_tag t) : StateBase(o, t), tag(o.tag), sum(o.sum) {}
    void assign(const StateBase& o) { StateBase::assign(o); sum = static_cast<const St&>(o).sum; }
    StateBase* clone() const { return new St(*this, clone_tag()); }
    bool getArray(unsigned i, ArrayInfo& A) { if (i == 0) { A.name = "tag"; A.ndim = 0; A.type = ArrayInfo::Sizet; static size_t t; t = tag; A.ptr = &t; return true; } return StateBase::getArray(i - 1, A); }
};
struct Tagged { virtual ~Tagged() {} virtual int tag() const = 0; virtual double v() const = 0; };
struct Mutex { Mutex() { Internal I; } };
template<int N> struct El : public ElementVoid, public Tagged {
    std::string tn; double val;
    El(const Config& c) : ElementVoid(c), tn(c.get<std::string>("type")), val(c.get<double>("val", 1.0) * (N + 1))
    {
        { Internal I; alive_elems++; }
        try { inside(c); } catch (...) { Internal I; alive_elems--; throw; }
    }
    ~El() { Internal I; alive_elems--; }
    static void inside(const Config& c)
    {
        double d = c.get<double>("inside", 0.0);
        if (d == 1) throw std::runtime_error("element constructor");
        if (d == 2) { Config m, e; m.set<std::string>("sim_type", c.get<std::string>("inner")); e.set<std::string>("type", "ea"); e.set<std::string>("name", "x"); std::vector<Config> v(1, e); m.set<std::vector<Config> >("elements", v); try { Machine M(m); } catch (std::exception&) {} }
        if (d == 3) { FLAME_LOG(INFO) << "from a constructor"; }
        if (d == 4) { try { Machine::registerElement<El<0> >(c.get<std::string>("inner").c_str(), "ez"); } catch (std::logic_error&) {} }
        if (d == 5) sched::point("ctor");
    }
    const char* type_name() const { return tn.c_str(); }
    void advance(StateBase& s) { s.pos += val; }
    void assign(const ElementVoid* o) { ElementVoid::assign(o); const El* e = static_cast<const El*>(o); tn = e->tn; val = e->val; }
    int tag() const { return N; } double v() const { return val; }
};
struct Quiet : public Machine::Logger { void log(const Machine::LogRecord&) {} };

enum Kind { REGS, REGE, BUILD, CLEAN };
struct Rec { Kind k; int s, impl; std::vector<int> e; int thread; uint64_t t0, t1; bool ok, nomem, other; int stag; std::vector<int> etags; Rec() : k(REGS), s(0), impl(0), thread(0), t0(0), t1(0), ok(false), nomem(false), other(false), stag(-1) {} };
std::string show(const Rec& r) { std::string o = r.k == REGS ? "registerState " : r.k == REGE ? "registerElement " : r.k == BUILD ? "build " : "cleanup "; if (r.k != CLEAN) o += SN[r.s]; for (size_t i = 0; i < r.e.size(); i++) o += std::string("/") + EN[r.e[i]]; if (r.k != CLEAN && r.k != BUILD) o += "#" + std::to_string(r.impl); o += r.ok ? " ok" : r.nomem ? " no-memory" : r.other ? " ctor-error" : " refused"; if (r.k == BUILD && r.ok) { o += " tags " + std::to_string(r.stag); for (size_t i = 0; i < r.etags.size(); i++) o += "," + std::to_string(r.etags[i]); } char b[60]; snprintf(b, sizeof b, " [t%d %llu-%llu]", r.thread, (unsigned long long)r.t0, (unsigned long long)r.t1); return o + b; }
// model: per sim type the implementation (0: none) and per element type its implementation
struct Model { signed char s[NS], e[NS][NE]; Model() { memset(this, 0, sizeof *this); } bool operator<(const Model& o) const { return memcmp(this, &o, sizeof *this) < 0; } };
bool apply(Model& m, const Rec& r)
{
    switch (r.k) {
    case CLEAN: memset(&m, 0, sizeof m); return true;
    case REGS: if (r.nomem) return true; if (r.ok) { if (m.s[r.s]) return false; m.s[r.s] = r.impl + 1; return true; } return m.s[r.s] != 0;
    case REGE: if (r.nomem) return true; if (r.ok) { if (!m.s[r.s] || m.e[r.s][r.e[0]]) return false; m.e[r.s][r.e[0]] = r.impl + 1; return true; } return !m.s[r.s] || m.e[r.s][r.e[0]];
    case BUILD:
        if (r.nomem) return true;
        { bool have = m.s[r.s] != 0; for (size_t i = 0; have && i < r.e.size(); i++) if (!m.e[r.s][r.e[i]]) have = false;
          if (r.other) return m.s[r.s] != 0; // an element constructor failed: its sim type was known
          if (!r.ok) return !have; if (!have) return false;
          if (r.stag >= 0 && m.s[r.s] != r.stag + 1) return false;
          for (size_t i = 0; i < r.e.size(); i++) if (m.e[r.s][r.e[i]] != r.etags[i] + 1) return false;
          return true; }
    }
    return false;
}
bool search(const std::vector<Rec>& H, uint64_t done, Model m, std::set<std::pair<uint64_t, Model> >& seen, size_t& budget)
{
    if (done == (H.size() == 64 ? ~0ULL : (1ULL << H.size()) - 1)) return true;
    if (!budget) return true; budget--;
    if (!seen.insert(std::make_pair(done, m)).second) return false;
    uint64_t first = ~0ULL; for (size_t i = 0; i < H.size(); i++) if (!(done >> i & 1) && H[i].t1 < first) first = H[i].t1;
    for (size_t i = 0; i < H.size(); i++) if (!(done >> i & 1) && H[i].t0 <= first) { Model n = m; if (apply(n, H[i]) && search(H, done | 1ULL << i, n, seen, budget)) return true; }
    return false;
}

int pick_s() { return draw(3) ? draw(2) : draw(NS); } int pick_e() { return draw(3) ? draw(2) : draw(NE); }
struct Mach { std::unique_ptr<Machine> M; int s; std::vector<int> e; std::vector<int> tags; };
std::vector<Rec>* H; bool OOM;

template<int N> void reg_s(int s) { Machine::registerState<St<N> >(SN[s]); }
template<int N> void reg_e(int s, int e) { Machine::registerElement<El<N> >(SN[s], EN[e]); }

void use(Mach& m, bool gone)
{
    Op op; unsigned k = draw(4); const char* what = "?";
    try {
        if (k == 0) { what = "propagate"; std::unique_ptr<StateBase> s(m.M->allocState()); m.M->propagate(s.get()); double want = 0; for (size_t i = 0; i < m.M->size(); i++) want += dynamic_cast<Tagged*>((*m.M)[i])->v(); if (s->pos != want) { Internal I; violate("machine-broken", "propagation gives position %g instead of %g", s->pos, want); } std::unique_ptr<StateBase> c(s->clone()); c->assign(*s); }
        else if (k == 1 && m.M->size()) { what = "reconfigure"; size_t i = draw((unsigned)m.M->size()); Config c((*m.M)[i]->conf()); double v = 1 + draw(9); c.set<double>("val", v); c.set<double>("inside", 0.0); m.M->reconfigure(i, c); Tagged* t = dynamic_cast<Tagged*>((*m.M)[i]); if (!t || t->tag() != m.tags[i] || t->v() != v * (m.tags[i] + 1)) { Internal I; violate("machine-broken", "reconfigured element %zu is of implementation %d instead of %d, or has the wrong value", i, t ? t->tag() : -1, m.tags[i]); } }
        else if (k == 2) { what = "show"; std::ostringstream o; o << *m.M; Internal I; if (o.str().find(SN[m.s]) == std::string::npos) violate("machine-broken", "machine shows '%s'", o.str().c_str()); }
        else { what = "lookup"; for (size_t i = 0; i < m.M->size(); i++) { std::pair<Machine::lookup_iterator, Machine::lookup_iterator> p = m.M->equal_range_type(EN[m.e[i]]); bool f = false; for (; p.first != p.second; ++p.first) if ((*p.first)->index == i) f = true; if (!f) { Internal I; violate("machine-broken", "element %zu not found by type", i); } } }
    } catch (std::exception& e) { Internal I; violate("machine-broken", "%s of a machine failed%s: %s", what, gone ? " after clean-up" : "", e.what()); }
    count((std::string("use.") + what).c_str());
}
void session(int thread, unsigned nops)
{
    std::vector<Mach> ms; bool cleaned = false;
    for (uint32_t n = 0; more(nops, n, nops);) {
        Op op; unsigned k = draw(12); Rec r; r.thread = thread;
        if (k >= 8 && !ms.empty()) { if (k == 11) { ms.erase(ms.begin() + draw((unsigned)ms.size())); count("use.destroy"); } else use(ms[draw((unsigned)ms.size())], cleaned); continue; }
        r.s = pick_s(); r.impl = draw(NIMPL); unsigned arm = OOM && chance(1, 5) ? 1 + draw(12) : 0; Config c; double inside = 0;
        if (k < 2) r.k = REGS; else if (k < 5) { r.k = REGE; r.e.push_back(pick_e()); } else if (k == 5 && draw(3) == 2) r.k = CLEAN;
        else { r.k = BUILD; unsigned ne = draw(5) ? 1 + draw(2) : draw(4); std::vector<Config> v; for (unsigned i = 0; i < ne; i++) { int e = pick_e(); r.e.push_back(e); Config ec; ec.set<std::string>("type", EN[e]); ec.set<std::string>("name", "n" + std::to_string(draw(3))); ec.set<double>("val", 1 + draw(9)); if (chance(1, 4)) { inside = 1 + draw(5); ec.set<double>("inside", inside); ec.set<std::string>("inner", SN[draw(NS)]); } v.push_back(ec); } c.set<std::string>("sim_type", SN[r.s]); c.set<std::vector<Config> >("elements", v); }
        if (inside == 4) { arm = 0; } // registers "ez", which no one looks at
        std::unique_ptr<Machine> M; std::string err; bool hang = false; (void)hang;
        { Internal I; r.t0 = sched::seq(); }
        if (arm) mem::arm(arm);
        try {
            if (r.k == REGS) { if (r.impl == 0) reg_s<0>(r.s); else if (r.impl == 1) reg_s<1>(r.s); else reg_s<2>(r.s); }
            else if (r.k == REGE) { if (r.impl == 0) reg_e<0>(r.s, r.e[0]); else if (r.impl == 1) reg_e<1>(r.s, r.e[0]); else reg_e<2>(r.s, r.e[0]); }
            else if (r.k == CLEAN) Machine::registeryCleanup();
            else M.reset(new Machine(c));
            r.ok = true;
        } catch (std::bad_alloc&) { r.nomem = true; } catch (std::exception& e) { Internal I; err = e.what(); if (err.find("constructor") != std::string::npos) r.other = true; if (err.find("bad_alloc") != std::string::npos) r.nomem = true; }
        bool fired = arm && mem::disarm();
        Internal I; r.t1 = sched::seq();
        if (fired && !r.ok) r.nomem = true; // which error it is reported as does not matter
        if (r.nomem && !fired) violate("registry:spurious-error", "%s: out of memory without cause: %s", show(r).c_str(), err.c_str());
        if (r.k == CLEAN && !r.ok) violate("registry:cleanup", "clean-up failed: %s", err.c_str());
        if (r.k == CLEAN) cleaned = true;
        if (M) {
            for (size_t i = 0; i < M->size(); i++) { Tagged* t = dynamic_cast<Tagged*>((*M)[i]); r.etags.push_back(t ? t->tag() : 9); }
            Mach m; { External X; std::unique_ptr<StateBase> s(M->allocState()); Internal J; r.stag = dynamic_cast<St<0>*>(s.get()) ? 0 : dynamic_cast<St<1>*>(s.get()) ? 1 : dynamic_cast<St<2>*>(s.get()) ? 2 : 9; }
            m.M.swap(M); m.s = r.s; m.e = r.e; m.tags = r.etags; ms.push_back(std::move(m));
        }
        log("%s", show(r).c_str()); H->push_back(r);
        count((std::string("op.") + (r.k == REGS ? "registerState" : r.k == REGE ? "registerElement" : r.k == BUILD ? "build" : "cleanup") + (r.ok ? ".ok" : r.nomem ? ".nomem" : r.other ? ".ctor" : ".refused")).c_str());
    }
    while (!ms.empty()) { if (draw(2)) use(ms.back(), cleaned); ms.pop_back(); }
}
}

WORKLOAD(c05, "type registry against a reference model")
{
    Internal I0; std::vector<Rec> h; H = &h; OOM = chance(1, 2); alive_elems = 0;
    if (draw(2)) { boost::shared_ptr<Machine::Logger> q(new Quiet); Machine::set_logger(q); Machine::log_detail = draw(2) ? FLAME_INFO : FLAME_DEBUG; }
    unsigned pre = draw(3); // some types are there before the threads start
    for (int s = 0; s < 2 && pre; s++) { Rec r; r.s = s; r.impl = draw(NIMPL); r.t0 = r.t1 = sched::seq(); r.ok = true; { External X; if (r.impl == 0) reg_s<0>(s); else if (r.impl == 1) reg_s<1>(s); else reg_s<2>(s); } h.push_back(r); for (int e = 0; e < 2 && pre > 1; e++) { Rec q; q.k = REGE; q.s = s; q.e.push_back(e); q.impl = draw(NIMPL); q.t0 = q.t1 = sched::seq(); q.ok = true; { External X; if (q.impl == 0) reg_e<0>(s, e); else if (q.impl == 1) reg_e<1>(s, e); else reg_e<2>(s, e); } h.push_back(q); } }
    { External X; session(0, 6); }
    unsigned nt = 2 + draw(3), per = tier() ? 12 : 8; std::vector<std::function<void()> > fns; for (unsigned t = 0; t < nt; t++) fns.push_back([t, per] { session(t + 1, per); });
    { External X; sched::run(fns, sched::random_policy()); session(0, 4); }
    if (alive_elems) violate("registry:elements-left", "%d elements not destroyed with their machines", alive_elems);
    if (h.size() > 64) discard("history too long");
    std::set<std::pair<uint64_t, Model> > seen; size_t budget = 400000; Model m;
    if (!search(h, 0, m, seen, budget)) { std::string s; for (size_t i = 0; i < h.size(); i++) s += show(h[i]) + "; "; violate("registry:not-linearizable", "no order of the operations explains their outcomes: %s", s.c_str()); }
    if (!budget) count("lin.budget-exhausted"); count("lin.checked"); count("lin.ops", h.size());
    uint64_t x = nt; for (size_t i = 0; i < h.size(); i++) x = hashstr(show(h[i]).substr(0, show(h[i]).find('[')), x); reach(x);
    { External X; Machine::registeryCleanup(); }
    { External X; Machine::set_logger(boost::shared_ptr<Machine::Logger>()); }
}
