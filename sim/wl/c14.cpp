// C14: observers see every traversed element exactly once and change nothing.
#include "gen.h"
#include <flame/moment.h>
#include <string.h>
#include <stdexcept>
#include <sstream>
using namespace sim;

namespace {
typedef std::unique_ptr<StateBase> SP;
struct World; World* W;
template <class E> struct GaveUp : public E { GaveUp() {} GaveUp(const E& e) : E(e) {} const char* what() const noexcept { return "observer gave up"; } };
struct Gone {}; // not an std::exception
struct Obs : public Observer {
    int id; bool thrower; int thrown; int act; // act: 0 none, 1 attach to next, 2 detach from next, 3 nested propagation, 4 detach itself, 5 replace itself
    Obs() : id(0), thrower(false), thrown(0), act(0) {}
    void view(const ElementVoid* e, const StateBase* s);
};
struct Call { int obs; size_t elem; size_t next; gen::Snap snap; };
struct World {
    Config conf; int kind; Machine* M; std::vector<std::unique_ptr<Obs> > obs; std::vector<int> at; // observer attached to each element (-1 none)
    std::vector<Call> calls; StateBase* current; Config beam; int nesting; int bad;
};
void Obs::view(const ElementVoid* e, const StateBase* s)
{
    Internal I;
    if (W->nesting) return; // calls belonging to a nested propagation of another beam
    Call c; c.obs = id; c.elem = e->index; c.next = s->next_elem;
    if (s != W->current) violate("observer-wrong-state", "observer %d of element %zu was given another state", id, e->index);
    if ((*W->M)[e->index] != e) violate("observer-wrong-element", "observer %d was given an element which is not in the machine", id);
    c.snap = gen::snap(const_cast<StateBase*>(s), true); W->calls.push_back(c);
    size_t n = e->index + (s->retreat ? -1 : 1), N = W->M->size();
    if (act == 1 && n < N) { int k = (id + 1) % (int)W->obs.size(); (*W->M)[n]->set_observer(W->obs[k].get()); W->at[n] = k; }
    if (act == 2 && n < N) { (*W->M)[n]->set_observer(0); W->at[n] = -1; }
    if (act == 3) { External X; W->nesting++; SP t(W->M->allocState(W->beam)); try { W->M->propagate(t.get(), 0, INT_MAX); } catch (std::exception&) {} W->nesting--; }
    if (act == 4) { (*W->M)[e->index]->set_observer(0); W->at[e->index] = -1; }
    if (act == 5) { int k = (id + 2) % (int)W->obs.size(); (*W->M)[e->index]->set_observer(W->obs[k].get()); W->at[e->index] = k; }
    if (thrower) { External X; switch (thrown) { case 0: throw std::runtime_error("observer gave up"); case 1: throw GaveUp<std::bad_alloc>(); case 2: throw GaveUp<std::logic_error>(std::logic_error("observer gave up")); case 3: throw std::invalid_argument("observer gave up"); default: throw Gone(); } }
}
// a trace stream that may fail
struct Tr : public std::streambuf {
    std::string got; size_t limit; bool thr; Tr() : limit(~(size_t)0), thr(false) {}
    bool full(size_t n) { if (got.size() + n <= limit) return false; if (thr) throw std::runtime_error("stream gave up"); return true; }
    int overflow(int c) { Internal I; if (full(1)) return EOF; got += (char)c; return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) { Internal I; if (full(n)) return 0; got.append(p, n); return n; }
};
}

WORKLOAD(c14, "observers and trace against an unobserved element-by-element run")
{
    gen::setup_data();
    World w; W = &w; w.nesting = 0; w.kind = gen::random_kind(80);
    unsigned n = 1 + draw(7), flags = 0;
    if (chance(1, 3)) flags |= gen::F_CAVITY | gen::F_GENERIC; if (chance(1, 3)) flags |= gen::F_STRIPPER; if (chance(1, 3)) flags |= gen::F_SEXT;
    w.conf = gen::machine(w.kind, n, flags, chance(1, 2));
    if (w.kind == 0) w.beam = gen::moment_beam(); else { std::vector<double> v; for (int i = 0; i < (w.kind == 1 ? 6 : 36); i++) v.push_back(1e-3 * draw(100)); w.beam.set<std::vector<double> >("initial", v); }
    std::unique_ptr<Machine> M; try { M.reset(new Machine(w.conf)); } catch (std::exception& e) { discard("machine not buildable"); }
    w.M = M.get(); size_t N = M->size(); w.at.assign(N, -1);
    unsigned no = 2 + draw(4); for (unsigned i = 0; i < no; i++) { w.obs.emplace_back(new Obs); w.obs[i]->id = i; }
    uint32_t nop = 0;
    while (more(8, nop, tier() ? 30 : 12)) {
        Op op; unsigned k = draw(8);
        if (k < 3) { size_t e = draw((unsigned)N); int o = draw(4) ? (int)draw(no) : -1; (*M)[e]->set_observer(o < 0 ? 0 : w.obs[o].get()); w.at[e] = o; log("observer %d on element %zu", o, e); count("op.attach"); continue; }
        if (k == 3) { Obs& o = *w.obs[draw(no)]; o.act = draw(6); log("observer %d will do %d", o.id, o.act); count("op.act"); continue; }
        for (size_t i = 0; i < N; i++) { if ((*M)[i]->observer() != (w.at[i] < 0 ? (Observer*)0 : w.obs[w.at[i]].get())) violate("observer-lost", "element %zu reports another observer than was attached", i); }
        int thr = chance(1, 4) ? (int)draw(no) : -1; if (thr >= 0) w.obs[thr]->thrower = true, w.obs[thr]->thrown = (int)draw(5);
        Tr tb; std::ostream ts(&tb); bool trace = chance(1, 3), badtrace = false;
        if (trace && chance(1, 3)) { tb.limit = draw(300); tb.thr = draw(2); badtrace = true; }
        size_t start = draw(3) == 2 ? draw((unsigned)N + 1) : 0; int max = draw(3) == 2 ? (int)draw((unsigned)N + 2) : INT_MAX;
        bool back = w.kind != 0 ? false : chance(1, 4); for (size_t i = 0; i < N && back; i++) if (!strcmp((*M)[i]->type_name(), "rfcavity")) back = false;
        if (back) { start = N - 1; max = -(int)(1 + draw((unsigned)N)); }
        // expected: fresh machine, no observers, one element at a time
        struct Step { size_t elem; gen::Snap snap; }; std::vector<Step> exp; std::string experr; gen::Snap fin;
        { Internal I; Machine F(w.conf); SP s(F.allocState(w.beam)); size_t i = start; int c = 0;
          F.propagate(s.get(), start, 0); s->retreat = back;
          for (; i < N && c < (max == INT_MAX ? INT_MAX : abs(max)); c++) { try { F.propagate(s.get(), i, back ? -1 : 1); } catch (std::exception& e) { experr = e.what(); break; } Step st; st.elem = i; st.snap = gen::snap(s.get(), true); exp.push_back(st); i = s->next_elem; }
          fin = gen::snap(s.get(), true); }
        M->set_trace(trace ? &ts : 0);
        w.calls.clear(); std::vector<int> at0 = w.at; std::string err; SP s(M->allocState(w.beam)); w.current = s.get();
        try { M->propagate(s.get(), start, max); } catch (std::exception& e) { Internal I; err = e.what(); } catch (Gone&) { err = "observer gave up"; }
        M->set_trace(0); if (thr >= 0) w.obs[thr]->thrower = false;
        Internal I;
        // replay the model of attachments over the expected steps
        std::vector<int> m = at0; size_t ci = 0; bool stopped = false; size_t last = 0;
        for (size_t q = 0; q < exp.size() && !stopped; q++) {
            size_t e = exp[q].elem; int o = m[e]; last = q;
            if (o < 0) continue;
            if (ci >= w.calls.size()) violate("observer-missed", "element %zu was traversed but its observer %d was not called (%zu calls of %zu steps)", e, o, w.calls.size(), exp.size());
            Call& c = w.calls[ci++];
            if (c.elem != e || c.obs != o) violate("observer-order", "expected a call of observer %d for element %zu, got observer %d for element %zu", o, e, c.obs, c.elem);
            std::string d; if (!gen::bit_equal(c.snap, exp[q].snap, &d)) violate("observer-state", "observer of element %zu saw a state which is not that element's result: %s", e, d.c_str());
            size_t nx = e + (back ? -1 : 1); Obs& O = *w.obs[o];
            if (O.act == 1 && nx < N) m[nx] = (o + 1) % (int)no; if (O.act == 2 && nx < N) m[nx] = -1; if (O.act == 4) m[e] = -1; if (O.act == 5) m[e] = (o + 2) % (int)no;
            if (o == thr) stopped = true;
        }
        if (ci != w.calls.size()) violate("observer-extra", "%zu observer calls for %zu expected (next one: observer %d element %zu)", w.calls.size(), ci, w.calls[ci].obs, w.calls[ci].elem);
        if (stopped) { if (err != "observer gave up") violate("observer-exception-lost", "an observer's exception did not reach the caller of propagate() ('%s')", err.c_str()); std::string d; if (!gen::bit_equal(gen::snap(s.get(), true), exp[last].snap, &d)) violate("observer-changes-result", "state after an observer's exception: %s", d.c_str()); count("op.observer-threw"); }
        else {
            if (badtrace && tb.thr && err == "stream gave up") violate("trace-changes-result", "an exception of the trace stream's buffer ended the propagation"); // std::ostream never lets it through by default
            if (err != experr && (err.empty() || experr.empty())) violate("observer-changes-result", "observed '%s', unobserved '%s'", err.c_str(), experr.c_str());
            if (err.empty()) { std::string d; if (!gen::bit_equal(gen::snap(s.get(), true), fin, &d)) violate("observer-changes-result", "result differs from the unobserved one: %s", d.c_str()); }
            bool nested = false; for (size_t q = 0; q < w.calls.size(); q++) nested |= w.obs[w.calls[q].obs]->act == 3; // a nested propagation is traced too
            if (trace && !badtrace && !nested) { size_t p = 0; for (size_t q = 0; q < exp.size(); q++) { std::string want = "After [" + std::to_string(exp[q].elem) + "] "; p = tb.got.find(want, p); if (p == std::string::npos) violate("trace-missing", "no trace of element %zu", exp[q].elem); p += want.size(); } size_t cnt = 0; for (p = 0; (p = tb.got.find("After [", p)) != std::string::npos; p++) cnt++; if (cnt != exp.size()) violate("trace-extra", "%zu traces of %zu steps", cnt, exp.size()); count("op.traced"); }
            count("op.propagate");
        }
        if (m != w.at) violate("observer-lost", "attachments after the propagation differ from the ones made");
        log("propagate from %zu max %d: %zu steps %zu calls '%s'", start, max == INT_MAX ? -9999 : max, exp.size(), w.calls.size(), err.c_str());
        uint64_t h = hashbytes(&stopped, 1); for (size_t q = 0; q < w.calls.size(); q++) { h = hashbytes(&w.calls[q].elem, sizeof(size_t), h); int a = w.obs[w.calls[q].obs]->act; h = hashbytes(&a, sizeof a, h); } reach(h);
    }
    for (size_t i = 0; i < N; i++) (*M)[i]->set_observer(0);
}
