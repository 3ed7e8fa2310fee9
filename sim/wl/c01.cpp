// C01: propagation results do not depend on what the machine did before.
#include "gen.h"
#include <flame/moment.h>
#include <string.h>
#include <stdexcept>
#include <sstream>
using namespace sim;

namespace {
typedef std::shared_ptr<StateBase> SP;

struct Thrower : public Observer {
    bool fire; Thrower() : fire(false) {}
    void view(const ElementVoid*, const StateBase*) { if (fire) throw std::runtime_error("observer-abort"); }
};

struct World {
    Config conf; int kind; std::shared_ptr<Machine> M;
    std::vector<SP> pool;
    std::vector<SP> in;        // per element: input of the most recent successful forward pass
    std::vector<bool> taint;   // a later forward pass failed inside the element
    std::vector<std::string> types; std::unique_ptr<Pristine> fresh;
};
// the same call in a process that did nothing before
std::string alone(const Config& conf, const std::string& q)
{
    size_t p = 0; size_t start = gen::unpack_num(q, p); int max = (int)(int64_t)gen::unpack_num(q, p); std::string o;
    Machine M(conf); SP s(gen::unpack_state(M, q.substr(p)));
    try { M.propagate(s.get(), start, max); } catch (std::exception& e) { return std::string("E") + e.what(); }
    return "S" + gen::pack(gen::snap(s.get(), true));
}
void check_alone(World& W, const std::string& in, SP s, const std::string& err, size_t start, int max, const char* what)
{
    std::string q; gen::pack_num(q, start); gen::pack_num(q, (uint64_t)(int64_t)max); q += in;
    std::string r = W.fresh->ask(q); count("compare.alone");
    if (err.empty() != (r[0] == 'S')) violate("history-dependent:error", "%s: used machine -> '%s', alone -> '%s'", what, err.c_str(), r.substr(0, 200).c_str());
    if (!err.empty()) return;
    std::string d = gen::diff(gen::snap(s.get(), true), gen::unpack_snap(r.substr(1)), 1e-12, 1e-14);
    if (!d.empty()) violate("history-dependent:result", "%s: used machine vs alone in a new process: %s", what, d.c_str());
}

bool off(double a, double b) { return !(fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b))) && !(std::isnan(a) && std::isnan(b)); }
bool other(const Particle& a, const Particle& b) { return off(a.IonEk, b.IonEk) || off(a.IonEs, b.IonEs) || off(a.IonZ, b.IonZ) || off(a.IonQ, b.IonQ) || off(a.SampleFreq, b.SampleFreq); }
void back_one(size_t i, const char* w, size_t k, const Particle& in, const Particle& out, const Particle& was, const Particle& is)
{
    if (off(is.IonEk, in.IonEk)) violate("backward-not-undone", "element %zu %s[%zu]: energy %.17g after going back, %.17g before the forward pass", i, w, k, is.IonEk, in.IonEk);
    double m = std::max(std::max(fabs(in.phis), fabs(out.phis)), std::max(fabs(was.phis), fabs(is.phis)));
    if (fabs((is.phis - was.phis) - (in.phis - out.phis)) > 1e-9 * m) violate("backward-not-undone", "element %zu %s[%zu]: phase changed by %.17g going back, by %.17g forward", i, w, k, is.phis - was.phis, out.phis - in.phis);
}
// going back through cavity i was accepted: state "was" must match the output of the forward pass, and become its input
void undone(size_t i, const StateBase& in_, const StateBase& out_, const StateBase& was_, const StateBase& is_)
{
    const MomentState &in = dynamic_cast<const MomentState&>(in_), &out = dynamic_cast<const MomentState&>(out_), &was = dynamic_cast<const MomentState&>(was_), &is = dynamic_cast<const MomentState&>(is_);
    bool mis = out.real.size() != was.real.size() || other(out.ref, was.ref);
    for (size_t k = 0; !mis && k < was.real.size(); k++) mis = other(out.real[k], was.real[k]);
    if (mis) violate("backward-mismatch-accepted", "going back through cavity %zu was accepted for a beam which is not the one that came forward", i);
    back_one(i, "ref", 0, in.ref, out.ref, was.ref, is.ref);
    for (size_t k = 0; k < is.real.size(); k++) back_one(i, "real", k, in.real[k], out.real[k], was.real[k], is.real[k]);
    count("cavity-undone");
}

// Reference: a fresh machine, element by element.  Returns error text ("" = ok).  Updates the records.
// upto: number of elements known to have completed (aborted operations), -1: run to the end
std::string reference(World& W, SP s, size_t start, int max, int upto, bool update, bool& refuse_ok)
{
    Internal I;
    refuse_ok = false;
    std::unique_ptr<Machine> F(new Machine(W.conf));
    bool back = std::signbit((double)max) && max != 0;
    int n = abs(max); size_t i = start; int done = 0;
    if (n == 0 || start >= F->size()) { F->propagate(s.get(), start, max); return ""; }
    for (; done < n && i < F->size(); done++) {
        if (upto >= 0 && done >= upto) return "";
        SP fwd_in, fwd_out, was; // backward through a cavity: the forward pass to undo
        if (back && W.types[i] == "rfcavity") {
            if (!W.in[i]) refuse_ok = true; // no forward pass: must be refused
            else {
                std::unique_ptr<StateBase> p(W.in[i]->clone());
                F->propagate(p.get(), i, 1);
                fwd_in = W.in[i]; fwd_out.reset(p.release());
            }
            if (W.taint[i]) refuse_ok = true;
        }
        SP before;
        if (!back) before.reset(s->clone());
        if (fwd_out) was.reset(s->clone());
        try { F->propagate(s.get(), i, back ? -1 : 1); }
        catch (std::exception& e) { if (update && !back) W.taint[i] = true; return std::string("error: ") + e.what(); }
        if (update && !back) { W.in[i] = before; W.taint[i] = false; }
        if (fwd_out) undone(i, *fwd_in, *fwd_out, *was, *s);
        i = s->next_elem;
    }
    return "";
}

std::string go(World& W, SP s, size_t start, int max, bool& alloc_fault)
{
    try { W.M->propagate(s.get(), start, max); return ""; }
    catch (std::bad_alloc&) { alloc_fault = true; return "bad_alloc"; }
    catch (std::exception& e) { return std::string("error: ") + e.what(); }
}

void check(World& W, SP a, SP b, const std::string& ea, const std::string& eb, bool refuse_ok, const char* what)
{
    if (!ea.empty() && refuse_ok) { count("refused"); return; }
    if (ea.empty() != eb.empty()) violate("history-dependent:error", "%s: used machine -> '%s', fresh machine -> '%s'", what, ea.c_str(), eb.c_str());
    if (!ea.empty()) { count("both-refuse"); return; }
    gen::Snap x = gen::snap(a.get(), true), y = gen::snap(b.get(), true);
    std::string d = gen::diff(x, y, 1e-12, 1e-14);
    if (!d.empty()) violate("history-dependent:result", "%s: used machine vs fresh machine: %s", what, d.c_str());
    count(gen::finite(x) ? "compare.finite" : "compare.nonfinite");
    uint64_t h = hashstr(what); for (size_t i = 0; i < x.vals.size(); i++) h = hashbytes(x.vals[i].data(), 8 * x.vals[i].size(), h);
    reach(h);
}

// the same particles, in part, with some more, or in another order
std::string regroup(StateBase* b)
{
    MomentState* m = dynamic_cast<MomentState*>(b); if (!m) return "none"; size_t n = m->real.size(); unsigned k = draw(3);
    auto size = [&](size_t z) { m->real.resize(z, m->real[0]); m->moment0.resize(z, m->moment0[0]); m->moment1.resize(z, m->moment1[0]); m->transmat.resize(z, m->transmat[0]); };
    if (k == 0 && n > 1) size(1 + draw((unsigned)n - 1));
    else if (k == 1 && n > 1) { size_t i = draw((unsigned)n), j = draw((unsigned)n); std::swap(m->real[i], m->real[j]); std::swap(m->moment0[i], m->moment0[j]); std::swap(m->moment1[i], m->moment1[j]); }
    else { size(n + 1); m->real[n].IonZ *= 1.0 + 0.01 * draw(4); m->moment0[n](0) += 0.125 * draw(4); }
    m->calc_rms(); return std::to_string(n) + "->" + std::to_string(m->real.size()) + " charge states";
}

SP newbeam(World& W)
{
    Config c;
    if (W.kind == 0) c = gen::moment_beam();
    else { std::vector<double> v; for (int i = 0; i < (W.kind == 1 ? 6 : 36); i++) v.push_back(1e-3 * draw(100)); c.set<std::vector<double> >("initial", v); }
    return SP(W.M->allocState(c));
}
}

WORKLOAD(c01, "history independence of propagation")
{
    gen::setup_data();
    World W; W.kind = gen::random_kind(90);
    unsigned n = 1 + draw(6), flags = 0;
    if (chance(1, 2)) flags |= gen::F_CAVITY; if (chance(1, 2)) flags |= gen::F_GENERIC; if (chance(1, 2)) flags |= gen::F_CURVEFILE;
    if (chance(1, 2)) flags |= gen::F_STRIPPER; if (chance(1, 4)) flags |= gen::F_SEXT;
    W.conf = gen::machine(W.kind, n, flags, chance(1, 2));
    W.fresh.reset(new Pristine([&](const std::string& q) { return alone(W.conf, q); }));
    try { W.M.reset(new Machine(W.conf)); } catch (std::exception& e) { log("build: %s", e.what()); discard("machine not buildable"); }
    size_t N = W.M->size();
    W.in.resize(N); W.taint.resize(N, false);
    std::vector<std::unique_ptr<Thrower> > obs;
    for (size_t i = 0; i < N; i++) { W.types.push_back((*W.M)[i]->type_name()); std::string c = "elem." + W.types.back(); count(c.c_str()); obs.emplace_back(new Thrower); (*W.M)[i]->set_observer(obs.back().get()); }
    { std::string t; for (size_t i = 0; i < N; i++) t += W.types[i] + " "; log("machine %s: %s", W.M->simtype().c_str(), t.c_str()); }
    W.pool.push_back(newbeam(W));
    uint32_t ops = 0; unsigned maxops = tier() ? 40 : 16; gen::Chatter ch;
    while (more(14, ops, maxops)) {
        Op op; ch.turn(W.M.get());
        unsigned k = draw(12);
        if (k == 0) { SP b = newbeam(W); if (W.pool.size() < 4) W.pool.push_back(b); else W.pool[draw(4)] = b; log("new beam"); count("op.newbeam"); continue; }
        if (k == 1 || k == 2) { // variation of an existing beam in one quantity
            unsigned a = draw((unsigned)W.pool.size()); SP b(W.pool[a]->clone());
            std::string f = W.kind == 0 ? chance(1, 4) ? regroup(b.get()) : gen::perturb(b.get()) : std::string("none");
            if (W.pool.size() < 4) W.pool.push_back(b); else W.pool[draw(4)] = b;
            log("beam %u varied in %s", a, f.c_str()); count("op.vary"); continue;
        }
        if (k == 3) { std::ostringstream o; o << *W.M; for (size_t i = 0; i < W.pool.size(); i++) W.pool[i]->show(o, 3); (*W.M)[draw((unsigned)N)]->show(o, 1); log("show"); count("op.show"); continue; }
        if (k == 4 && W.pool.size() > 1) { // two beams stepped in turn
            unsigned a = draw((unsigned)W.pool.size()), b = draw((unsigned)W.pool.size());
            SP s[2] = { SP(W.pool[a]->clone()), SP(W.pool[b]->clone()) }; bool dead[2] = { false, false };
            log("interleave beams %u %u", a, b); count("op.interleave");
            for (size_t i = 0; i < N; i++) for (int j = 0; j < 2; j++) {
                if (dead[j]) continue;
                SP r(s[j]->clone()); bool af = false, rok = false;
                std::string ea = go(W, s[j], i, 1, af), eb = reference(W, r, i, 1, -1, true, rok);
                check(W, s[j], r, ea, eb, rok, ("interleaved step " + W.types[i]).c_str());
                if (!ea.empty()) dead[j] = true;
            }
            continue;
        }
        unsigned a = draw((unsigned)W.pool.size());
        SP s(W.pool[a]->clone()), r(W.pool[a]->clone());
        if (chance(1, 4)) { SP t(W.M->allocState()); t->assign(*W.pool[a]); s = t; }
        SP keep; if (k < 10 && chance(1, 4)) { keep = s; s = W.pool[a]; }   // used again itself, not a copy
        bool back = k >= 5 && k <= 7; size_t start; int max;
        if (back) { start = draw(4) ? N - 1 : draw((unsigned)N + 1); max = draw(3) ? -(int)N : -(int)(1 + draw((unsigned)N)); if (max < -(int)start - 1) max = -(int)start - 1; }
        else { start = draw(4) != 3 ? 0 : draw((unsigned)N + 1); max = draw(3) ? INT_MAX : (int)draw((unsigned)N + 1); }
        std::string what = std::string(back ? "backward" : "forward") + " beam " + std::to_string(a) + " from " + std::to_string(start) + " max " + (max == INT_MAX ? std::string("all") : std::to_string(max));
        bool rok = false, af = false;
        if (k >= 10) { // aborted
            if (chance(1, 2)) {
                size_t t = draw((unsigned)N); obs[t]->fire = true;
                std::string ea = go(W, s, start, max, af); obs[t]->fire = false;
                log("%s aborted by observer of %zu: %s", what.c_str(), t, ea.c_str());
                if (ea == "error: observer-abort") {
                    int done = back ? (int)start - (int)t + 1 : (int)t - (int)start + 1;
                    reference(W, r, start, max, done, true, rok); count("op.abort-observer");
                } else { std::string eb = reference(W, r, start, max, -1, true, rok); check(W, s, r, ea, eb, rok, what.c_str()); }
            } else {
                unsigned kk = 1 + logdraw(9);
                mem::arm(kk); std::string ea = go(W, s, start, max, af); bool fired = mem::disarm();
                log("%s with allocation %u failing (%d): %s", what.c_str(), kk, (int)fired, ea.c_str());
                if (ea.empty()) { std::string eb = reference(W, r, start, max, -1, true, rok); check(W, s, r, ea, eb, rok, what.c_str()); }
                else {
                    // element in progress is the one before next_elem
                    size_t cur = back ? s->next_elem + 1 : s->next_elem - 1;
                    int done = back ? (int)start - (int)cur : (int)cur - (int)start;
                    reference(W, r, start, max, done, true, rok);
                    if (cur < N && !back) W.taint[cur] = true;
                    count("op.abort-alloc");
                }
            }
            continue;
        }
        std::string img; bool al = chance(1, 3);
        if (al && back) for (size_t i = 0; i < N && i <= start; i++) if (W.types[i] == "rfcavity") al = false; // needs its forward pass
        if (al) img = gen::pack(keep ? keep.get() : s.get());
        std::string ea = go(W, s, start, max, af), eb = reference(W, r, start, max, -1, true, rok);
        if (al) check_alone(W, img, s, ea, start, max, what.c_str());
        log("%s: %s", what.c_str(), ea.empty() ? "ok" : ea.c_str());
        check(W, s, r, ea, eb, rok, what.c_str());
        count(back ? "op.backward" : "op.forward"); if (keep && !ea.empty()) W.pool[a] = keep;
        if (ea.empty() && chance(1, 2)) { if (W.pool.size() < 4) W.pool.push_back(s); else W.pool[draw(4)] = s; }
        if (!back && ea.empty() && chance(1, 3)) { // and straight back again
            SP r2(s->clone()); bool rok2 = false; size_t st = N - 1;
            if (max == INT_MAX && start == 0) {
                SP s2(s->clone());
                std::string e2 = go(W, s2, st, -(int)N, af), f2 = reference(W, r2, st, -(int)N, -1, true, rok2);
                check(W, s2, r2, e2, f2, rok2, "forward then backward"); count("op.roundtrip");
                log("and back: %s", e2.c_str());
                if (e2.empty() && chance(1, 2)) W.pool[draw((unsigned)W.pool.size())] = s2;
            }
        }
    }
    for (size_t i = 0; i < N; i++) (*W.M)[i]->set_observer(0);
}
