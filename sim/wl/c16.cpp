// C16: beam states are independent values which always describe themselves consistently.
#include "gen.h"
#include <flame/moment.h>
#include <string.h>
#include <stdexcept>
#include <sstream>
#include <algorithm>
using namespace sim;

namespace {
typedef std::unique_ptr<StateBase> SP;
struct Desc { std::string name; int type; unsigned ndim; bool operator==(const Desc& o) const { return name == o.name && type == o.type && ndim == o.ndim; } };
struct Slot { int m; SP s; gen::Snap img; std::vector<Desc> desc; };
struct Sys { Config conf; int kind; std::unique_ptr<Machine> M; };

std::vector<Desc> describe(StateBase* s)
{
    std::vector<Desc> r; for (unsigned i = 0;; i++) { StateBase::ArrayInfo A; if (!s->getArray(i, A)) break; Desc d; d.name = A.name; d.type = A.type; d.ndim = A.ndim; r.push_back(d); if (r.size() > 500) violate("description", "a state with endless quantities"); }
    return r;
}
// every quantity can be read, sizes fit together
void sound(const Slot& x, const char* when)
{
    Internal I; std::vector<Desc> d = describe(x.s.get());
    if (!x.desc.empty() && !(d == x.desc)) violate("description", "%s: the set of quantities, their types or dimensions have changed", when);
    size_t n = 0; const char* first = 0;
    for (unsigned i = 0; i < d.size(); i++) {
        StateBase::ArrayInfo A; if (!x.s->getArray(i, A)) violate("description", "%s: quantity %u is gone", when, i);
        if (!A.ptr) violate("description", "%s: quantity %s has no storage", when, A.name);
        for (unsigned k = 0; k < A.ndim; k++) if (A.dim[k] == 0) violate("inconsistent", "%s: quantity %s is empty", when, A.name);
        if (d.size() < 10) continue;
        bool per = !strcmp(A.name, "moment0") || !strcmp(A.name, "moment1") || !strcmp(A.name, "transmat") || (A.ndim == 1 && strncmp(A.name, "moment0_", 8));
        if (!per) continue;
        size_t c = A.dim[A.ndim - 1]; if (!first) { first = A.name; n = c; } else if (c != n) violate("inconsistent", "%s: %s has %zu charge states, %s has %zu", when, first, n, A.name, c);
    }
    gen::snap(x.s.get());
}
struct Ext { const char *b, *e; size_t slot; std::string name; };
void apart(const std::vector<Slot>& S, const char* when)
{
    Internal I; std::vector<Ext> v;
    for (size_t k = 0; k < S.size(); k++) for (unsigned i = 0;; i++) {
        StateBase::ArrayInfo A; if (!S[k].s->getArray(i, A)) break; size_t last[3] = { 0, 0, 0 }; for (unsigned d = 0; d < A.ndim; d++) last[d] = A.dim[d] - 1;
        Ext e; e.b = (const char*)A.ptr; e.e = (const char*)A.raw(last) + 8; e.slot = k; e.name = A.name; v.push_back(e);
    }
    for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) if (v[a].slot != v[b].slot && v[a].b < v[b].e && v[b].b < v[a].e) violate("shared-storage", "%s: %s of state %zu and %s of state %zu share memory", when, v[a].name.c_str(), v[a].slot, v[b].name.c_str(), v[b].slot);
}
void untouched(const std::vector<Slot>& S, size_t but, const char* when)
{
    std::string w; for (size_t k = 0; k < S.size(); k++) { sound(S[k], when); if (k == but) continue; if (!gen::bit_equal(S[k].img, gen::snap(S[k].s.get(), true), &w)) violate("other-state-changed", "%s: another state has changed: %s", when, w.c_str()); }
    apart(S, when);
}
std::string shown(StateBase* s, int level) { std::ostringstream o; s->show(o, level); return o.str(); }
void legible(StateBase* s, int level, const char* when)
{
    std::string have = shown(s, level), want = gen::render(s, level); if (have == want) return;
    size_t i = 0; while (i < have.size() && i < want.size() && have[i] == want[i]) i++;
    violate("shown", "%s: at level %d the state prints '%s' where its quantities give '%s'", when, level, have.substr(i > 20 ? i - 20 : 0, 90).c_str(), want.substr(i > 20 ? i - 20 : 0, 90).c_str());
}
void same(const Slot& a, const Slot& b, const char* what)
{
    std::string w; if (!gen::bit_equal(gen::snap(a.s.get()), gen::snap(b.s.get()), &w)) violate("not-a-copy", "%s: %s", what, w.c_str());
    if (!(describe(a.s.get()) == describe(b.s.get()))) violate("not-a-copy", "%s: described differently", what);
}
void take(Slot& x) { x.img = gen::snap(x.s.get(), true); }
}

WORKLOAD(c16, "states are independent values")
{
    gen::setup_data(); std::vector<Sys> sys(1 + draw(2));
    for (auto& y : sys) {
        y.kind = gen::random_kind(80); unsigned fl = 0; if (chance(2, 3)) fl |= gen::F_STRIPPER; if (chance(1, 4)) fl |= gen::F_CAVITY; if (chance(1, 6)) fl |= gen::F_GENERIC; if (chance(1, 6)) fl |= gen::F_SEXT;
        y.conf = gen::machine(y.kind, 1 + draw(4), fl, chance(2, 3)); try { y.M.reset(new Machine(y.conf)); } catch (std::exception& e) { discard("not buildable"); }
    }
    gen::Chatter ch; std::vector<Slot> S; uint32_t ops = 0;
    while (more(16, ops, tier() ? 50 : 20)) {
        Op op; ch.turn(0); unsigned k = draw(12); bool flt = chance(1, 3); std::string err; size_t tgt = (size_t)-1;
        auto arm = [&]() { if (flt) mem::arm(1 + logdraw(5), 1 + (draw(4) == 3 ? 1000000 : 0)); };
        if (S.empty() || (k == 0 && S.size() < 5)) {
            Slot x; x.m = (int)draw((unsigned)sys.size()); Sys& y = sys[x.m]; Config b; if (y.kind == 0 && draw(4)) b = gen::moment_beam();
            arm(); try { x.s.reset(y.M->allocState(b)); } catch (std::exception& e) { Internal I; err = e.what(); } bool f = mem::disarm();
            log("new state of machine %d: %s", x.m, err.empty() ? "ok" : "error"); count(err.empty() ? "op.new" : "op.new.failed");
            if (!err.empty() && !f) violate("spurious-error", "allocating a state fails: %s", err.c_str());
            if (err.empty()) { x.desc = describe(x.s.get()); sound(x, "a new state"); take(x); S.push_back(std::move(x)); tgt = S.size() - 1; }
        } else if (k <= 2 && S.size() < 6) {
            size_t a = draw((unsigned)S.size()); Slot x; x.m = S[a].m;
            arm(); try { x.s.reset(S[a].s->clone()); } catch (std::exception& e) { Internal I; err = e.what(); } bool f = mem::disarm();
            log("clone %zu: %s", a, err.empty() ? "ok" : "error"); count(err.empty() ? "op.clone" : "op.clone.failed");
            if (!err.empty() && !f) violate("spurious-error", "cloning a state fails: %s", err.c_str());
            if (err.empty()) { x.desc = S[a].desc; sound(x, "a clone"); same(S[a], x, "a clone differs from its original"); take(x); S.push_back(std::move(x)); tgt = S.size() - 1; }
        } else if (k <= 5) {
            size_t a = draw((unsigned)S.size()), b = draw((unsigned)S.size()); bool compat = S[a].m == S[b].m, other = sys[S[a].m].kind != sys[S[b].m].kind; if (!compat && !other) continue;
            arm(); try { S[a].s->assign(*S[b].s); } catch (std::exception& e) { Internal I; err = e.what(); } bool f = mem::disarm();
            log("state %zu = state %zu: %s", a, b, err.empty() ? "ok" : "error"); count(!compat ? "op.assign.incompatible" : err.empty() ? "op.assign" : "op.assign.failed"); tgt = a;
            if (other) { if (err.empty()) violate("incompatible-assigned", "a state was assigned from a state of another kind"); tgt = (size_t)-1; }   // refused: nothing has changed
            else if (!err.empty() && !f) violate("spurious-error", "assigning a state fails: %s", err.c_str());
            else if (err.empty()) { sound(S[a], "after assignment"); same(S[b], S[a], "after assignment the states differ"); take(S[a]); }
            else { sound(S[a], "after a failed assignment"); for (int l = 0; l < 4; l++) legible(S[a].s.get(), l, "after a failed assignment"); take(S[a]); }
        } else if (k <= 8) {
            size_t a = draw((unsigned)S.size()); Machine& M = *sys[S[a].m].M; size_t N = M.size(), st = draw(3) ? 0 : draw((unsigned)N); int mx = draw(4) ? 1 + (int)draw((unsigned)N) : -1 - (int)draw((unsigned)N); bool twin = !flt && chance(1, 2);
            SP t; if (twin) t.reset(S[a].s->clone());
            arm(); try { M.propagate(S[a].s.get(), st, mx); } catch (std::exception& e) { Internal I; err = e.what(); if (err.empty()) err = "?"; } bool f = mem::disarm(); (void)f;
            log("propagate state %zu from %zu max %d: %s", a, st, mx, err.empty() ? "ok" : "error"); count(err.empty() ? "op.propagate" : flt ? "op.propagate.failed" : "op.propagate.refused"); tgt = a;
            sound(S[a], err.empty() ? "after propagation" : "after a failed propagation");
            if (!err.empty()) for (int l = 0; l < 4; l++) legible(S[a].s.get(), l, "after a failed propagation");
            if (twin && mx > 0) {
                std::string e2; try { M.propagate(t.get(), st, mx); } catch (std::exception& e) { e2 = e.what(); if (e2.empty()) e2 = "?"; }
                if (e2.empty() != err.empty()) violate("clone-behaves-differently", "propagating a clone: '%s', its original: '%s'", e2.c_str(), err.c_str());
                if (err.empty()) { std::string d = gen::diff(gen::snap(S[a].s.get(), true), gen::snap(t.get(), true), 1e-12, 1e-14); if (!d.empty()) violate("clone-behaves-differently", "a clone propagates differently: %s", d.c_str()); count("twins"); }
            }
            take(S[a]);
        } else if (k == 9) {
            size_t a = draw((unsigned)S.size()); StateBase::ArrayInfo A; unsigned q = draw((unsigned)S[a].desc.size()); S[a].s->getArray(q, A); size_t d[3] = { 0, 0, 0 }; for (unsigned i = 0; i < A.ndim; i++) d[i] = draw((unsigned)A.dim[i]);
            double v = draw(1000) / 64.0; gen::Snap before = gen::snap(S[a].s.get(), true); double was;
            if (A.type == StateBase::ArrayInfo::Double) { was = *(double*)A.raw(d); *(double*)A.raw(d) = v; } else { was = (double)*(size_t*)A.raw(d); v = (double)(size_t)v; *(size_t*)A.raw(d) = (size_t)v; }
            gen::Snap after = gen::snap(S[a].s.get(), true); tgt = a; int changed = 0; bool mine = false;
            for (size_t i = 0; i < after.names.size(); i++) for (size_t j = 0; j < after.vals[i].size(); j++) if (memcmp(&before.vals[i][j], &after.vals[i][j], 8)) { changed++; mine |= after.names[i] == A.name; }
            bool differs = memcmp(&was, &v, 8) != 0; log("write %s of state %zu", A.name, a); count("op.write");
            if (changed != (differs ? 1 : 0) || (differs && !mine)) violate("description", "writing one value of %s changes %d values", A.name, changed);
            if (chance(1, 2)) {   // states which differ in this one value only
                Slot t; t.m = S[a].m; t.s.reset(S[a].s->clone()); same(S[a], t, "a clone differs from its original"); StateBase::ArrayInfo T; t.s->getArray(q, T); bool up = chance(1, 2);
                if (A.type == StateBase::ArrayInfo::Double) *(double*)T.raw(d) = was; else *(size_t*)T.raw(d) = (size_t)was;
                if (up) { S[a].s->assign(*t.s); same(t, S[a], "after assignment the states differ"); } else { t.s->assign(*S[a].s); same(S[a], t, "after assignment the states differ"); } count("op.assign.near");
                if (!S[a].s->getArray(q, A)) violate("description", "quantity %u is gone", q);
            }
            // put back: further propagation is about beams that make sense
            if (A.type == StateBase::ArrayInfo::Double) *(double*)A.raw(d) = was; else *(size_t*)A.raw(d) = (size_t)was; take(S[a]);
        } else if (k == 10) {
            size_t a = draw((unsigned)S.size()); int l = (int)draw(5) - 1; legible(S[a].s.get(), l, "printing"); log("show state %zu level %d", a, l); count("op.show");
            std::ostringstream o; o << *S[a].s; if (o.str() != shown(S[a].s.get(), 0)) violate("shown", "operator<< prints something else than show()");
        } else { size_t a = draw((unsigned)S.size()); S.erase(S.begin() + a); log("destroy state %zu", a); count("op.destroy"); }
        untouched(S, tgt, "after this step");
        reach(hashstr(std::to_string(k) + (flt ? "f" : "-") + (err.empty() ? "o" : "e") + std::to_string(S.size()) + (tgt < S.size() ? "k" + std::to_string(sys[S[tgt].m].kind) + "n" + std::to_string(S[tgt].img.vals.size() > 9 ? S[tgt].img.vals[1].at(2) : 0.0) : "")));
    }
    // whatever happened, states that went through failures can be given a good value
    for (size_t a = 0; a < S.size(); a++) { Sys& y = sys[S[a].m]; Slot g; g.m = S[a].m; Config b; if (y.kind == 0) b = gen::moment_beam(); g.s.reset(y.M->allocState(b)); S[a].s->assign(*g.s); same(g, S[a], "finally, after assignment the states differ"); }
}
