// C02: reconfiguring an element is equivalent to rebuilding the machine.
#include "gen.h"
#include <flame/moment.h>
#include <string.h>
#include <stdexcept>
#include <sstream>
using namespace sim;

namespace {
typedef std::shared_ptr<StateBase> SP;
struct Watch : public Observer { unsigned n; Watch() : n(0) {} void view(const ElementVoid*, const StateBase*) { n++; } };

struct World {
    Config base; int kind; std::vector<Config> cur; std::shared_ptr<Machine> M;
    std::vector<std::shared_ptr<Watch> > obs; unsigned flags;
    std::unique_ptr<Pristine> fresh;
    Config conf() const { Config c(base); c.set<std::vector<Config> >("elements", cur); return c; }
};

std::string lookups(Machine& M, const std::vector<std::string>& names, const std::vector<std::string>& types)
{
    Internal I; std::ostringstream o;
    o << M.size() << "|";
    for (size_t i = 0; i < M.size(); i++) o << M[i]->name << ":" << M[i]->type_name() << ":" << M[i]->index << ":" << M[i]->length << ",";
    o << "|all:";
    { std::pair<Machine::lookup_iterator, Machine::lookup_iterator> R = M.all_range(); for (; R.first != R.second; ++R.first) o << (*R.first)->index << ","; }
    for (size_t i = 0; i < names.size(); i++) {
        o << "|" << names[i] << "=";
        std::pair<Machine::lookup_iterator, Machine::lookup_iterator> R = M.equal_range(names[i]); for (; R.first != R.second; ++R.first) o << (*R.first)->index << ",";
        for (size_t k = 0; k < 3; k++) { ElementVoid* e = M.find(names[i], k); o << (e ? (int)e->index : -1) << ";"; }
    }
    for (size_t i = 0; i < types.size(); i++) {
        o << "|" << types[i] << "=";
        std::pair<Machine::lookup_iterator, Machine::lookup_iterator> R = M.equal_range_type(types[i]); for (; R.first != R.second; ++R.first) o << (*R.first)->index << ",";
    }
    return o.str();
}

// propagation in a newly built machine in a process that did nothing before
std::string alone(const std::string& q)
{
    size_t p = 0; size_t start = gen::unpack_num(q, p); int max = (int)(int64_t)gen::unpack_num(q, p); Config conf = gen::unpack(q, p);
    Machine M(conf); SP s(gen::unpack_state(M, q.substr(p)));
    try { M.propagate(s.get(), start, max); } catch (std::exception& e) { return std::string("E") + e.what(); }
    return "S" + gen::pack(gen::snap(s.get(), true));
}

SP newbeam(World& W)
{
    Config c;
    if (W.kind == 0) c = gen::moment_beam();
    else { std::vector<double> v; for (int i = 0; i < (W.kind == 1 ? 6 : 36); i++) v.push_back(1e-3 * draw(100)); c.set<std::vector<double> >("initial", v); }
    return SP(W.M->allocState(c));
}
std::string go(Machine& M, StateBase* s, size_t start, int max)
{
    try { M.propagate(s, start, max); return ""; }
    catch (std::exception& e) { Internal I; return std::string("error: ") + e.what(); }
}

void structure(World& W, const char* when)
{
    Internal I;
    std::unique_ptr<Machine> F(new Machine(W.conf()));
    std::vector<std::string> names, types;
    for (size_t i = 0; i < W.cur.size(); i++) { names.push_back(W.cur[i].get<std::string>("name")); types.push_back(W.cur[i].get<std::string>("type")); }
    names.push_back("e0"); names.push_back("renamed0"); names.push_back("renamed1"); names.push_back("nosuch");
    std::string a = lookups(*W.M, names, types), b = lookups(*F, names, types);
    if (a != b) violate("structure", "%s: machine '%s' rebuilt '%s'", when, a.c_str(), b.c_str());
    for (size_t i = 0; i < W.cur.size(); i++) {
        std::string x = gen::cfg_full((*W.M)[i]->conf()), y = gen::cfg_full(W.cur[i]);
        if (x != y) violate("element-config", "%s: element %zu reports '%s' expected '%s'", when, i, x.c_str(), y.c_str());
        if ((*W.M)[i]->observer() != W.obs[i].get()) violate("observer-lost", "%s: element %zu", when, i);
    }
    std::ostringstream p, q; p << *W.M; q << *F;
    if (p.str() != q.str()) violate("structure", "%s: printed machine '%s' rebuilt '%s'", when, p.str().c_str(), q.str().c_str());
}

void propagate(World& W, const char* when)
{
    size_t N = W.cur.size();
    SP s = newbeam(W), r(s->clone());
    size_t start = draw(4) == 3 ? draw((unsigned)N) : 0; int max = draw(4) == 3 ? 1 + (int)draw((unsigned)N) : INT_MAX;
    bool back = chance(1, 3);
    std::vector<unsigned> n0; for (size_t i = 0; i < N; i++) n0.push_back(W.obs[i]->n);
    std::string q; if (chance(1, 2)) { gen::pack_num(q, start); gen::pack_num(q, (uint64_t)(int64_t)max); q += gen::pack(W.conf()); q += gen::pack(s.get()); }
    std::string ea = go(*W.M, s.get(), start, max);
    if (!q.empty()) {
        std::string r = W.fresh->ask(q); count("compare.alone");
        if (ea.empty() != (r[0] == 'S')) violate("result:error", "%s: reconfigured '%s' rebuilt in a new process '%s'", when, ea.c_str(), r.substr(0, 200).c_str());
        if (ea.empty()) { std::string d = gen::diff(gen::snap(s.get(), true), gen::unpack_snap(r.substr(1)), 1e-12, 1e-14); if (!d.empty()) violate("result", "%s: reconfigured vs rebuilt in a new process: %s", when, d.c_str()); }
    }
    std::unique_ptr<Machine> F; { Internal I; F.reset(new Machine(W.conf())); }
    std::string eb = go(*F, r.get(), start, max);
    log("%s: propagate from %zu max %d: %s", when, start, max, ea.c_str());
    if (ea.empty() != eb.empty()) violate("result:error", "%s: reconfigured '%s' rebuilt '%s'", when, ea.c_str(), eb.c_str());
    if (!ea.empty()) { count("both-fail"); return; }
    std::string d = gen::diff(gen::snap(s.get(), true), gen::snap(r.get(), true), 1e-12, 1e-14);
    if (!d.empty()) violate("result", "%s: reconfigured vs rebuilt: %s", when, d.c_str());
    for (size_t i = 0; i < N; i++) { bool in = i >= start && (long)i < (long)start + (long)max; if (W.obs[i]->n - n0[i] != (in ? 1u : 0u)) violate("observer-lost", "%s: observer of element %zu called %u times", when, i, W.obs[i]->n - n0[i]); }
    count("compare");
    uint64_t h = hashstr(when); gen::Snap z = gen::snap(s.get()); for (size_t i = 0; i < z.vals.size(); i++) h = hashbytes(z.vals[i].data(), 8 * z.vals[i].size(), h); reach(h);
    if (back && start == 0 && max == INT_MAX) {
        ea = go(*W.M, s.get(), N - 1, -(int)N); eb = go(*F, r.get(), N - 1, -(int)N);
        if (ea.empty() != eb.empty()) violate("result:error", "%s and back: reconfigured '%s' rebuilt '%s'", when, ea.c_str(), eb.c_str());
        if (ea.empty()) { d = gen::diff(gen::snap(s.get(), true), gen::snap(r.get(), true), 1e-12, 1e-14); if (!d.empty()) violate("result", "%s and back: reconfigured vs rebuilt: %s", when, d.c_str()); count("compare.back"); }
    }
}
bool buildable(World& W, size_t i, const Config& c)
{
    Internal I;
    std::vector<Config> e(W.cur); e[i] = c; Config m(W.base); m.set<std::vector<Config> >("elements", e);
    try { Machine F(m); return true; } catch (std::exception&) { return false; }
}
}

WORKLOAD(c02, "reconfigure is rebuild")
{
    gen::setup_data();
    // machines may refer to data in the scratch directory, which faults can reach
    bool own = chance(1, 2); std::string dd = scratch() + "/data", shipped = gen::datadir;
    if (own) { std::vector<std::string> k; k.push_back("41"); k.push_back("85"); k.push_back("29"); k.push_back("53"); gen::copy_data(dd, 1000, k); gen::datadir = dd; }
    World W; W.kind = gen::random_kind(85); W.flags = 0;
    if (chance(1, 2)) W.flags |= gen::F_CAVITY; if (chance(1, 2)) W.flags |= gen::F_GENERIC; if (chance(1, 2)) W.flags |= gen::F_CURVEFILE; if (chance(1, 2)) W.flags |= gen::F_STRIPPER; if (chance(1, 4)) W.flags |= gen::F_SEXT;
    unsigned n = 1 + draw(5);
    W.base = gen::machine(W.kind, n, W.flags, chance(1, 2));
    W.cur = W.base.get<std::vector<Config> >("elements");
    W.fresh.reset(new Pristine(alone));
    try { W.M.reset(new Machine(W.base)); } catch (std::exception& e) { log("build: %s", e.what()); discard("not buildable"); }
    size_t N = W.cur.size();
    for (size_t i = 0; i < N; i++) { W.obs.emplace_back(new Watch); (*W.M)[i]->set_observer(W.obs[i].get()); std::string c = std::string("elem.") + (*W.M)[i]->type_name(); count(c.c_str()); }
    structure(W, "initially");
    uint32_t ops = 0; gen::Chatter ch;
    while (more(10, ops, tier() ? 40 : 14)) {
        Op op; ch.turn(W.M.get()); unsigned k = draw(10);
        if (k < 3) { propagate(W, "propagation"); structure(W, "after propagation"); count("op.propagate"); continue; }
        size_t i = draw((unsigned)N); Config c(W.cur[i]); std::string what; bool expect_fail = false;
        unsigned bad = k == 9 ? 1 + draw(7) : 0;
        if (W.kind == 0) c = gen::mutate_element(W.cur[i], W.flags, what);
        else { // linear element of the same type
            std::string t = W.cur[i].get<std::string>("type"); what = t;
            if (t == "source") { std::vector<double> v; for (int q = 0; q < (W.kind == 1 ? 6 : 36); q++) v.push_back(1e-3 * draw(100)); c.set<std::vector<double> >("initial", v); }
            else { double L = 0; c.tryGet<double>("L", L); if (draw(2)) c.set<double>("L", L + 0.1 * (1 + draw(3))); double K; if (c.tryGet<double>("K", K)) c.set<double>("K", K * 0.5 + 0.01); }
        }
        if (k == 8) { c.set<std::string>("name", draw(2) ? "renamed" + std::to_string(draw(2)) : W.cur[draw((unsigned)N)].get<std::string>("name")); what += " rename"; }
        size_t idx = i;
        if (bad == 1) { c.set<std::string>("type", "nosuchtype"); expect_fail = true; what = "unknown type"; }
        else if (bad == 2) { std::string t = W.cur[i].get<std::string>("type"); c = W.kind == 0 ? gen::moment_element_type(t == "drift" ? "quadrupole" : "drift", "x", 0) : gen::linear_element("x"); if (c.get<std::string>("type") == t) continue; expect_fail = true; what = "changed type"; }
        else if (bad == 3) { idx = N + draw(3); expect_fail = true; what = "index out of range"; }
        else if (bad == 4) { // required or wrongly typed parameter
            Config d; for (Config::const_iterator it = c.begin(); it != c.end(); ++it) d.setAny(it->first, it->second);
            static const char* K[] = { "L", "phi", "f", "cavtype", "matrix", "B2", "type", "name", "IonEs", "initial" };
            const char* kk = K[draw(10)]; if (draw(2)) d.set<std::string>(kk, "not a number"); else { Config e2; for (Config::const_iterator it = d.begin(); it != d.end(); ++it) if (it->first != kk) e2.setAny(it->first, it->second); d = e2; }
            c = d; what = std::string("bad ") + kk;
        } else if (bad == 5) { c.set<std::string>("Eng_Data_Dir", scratch() + "/nonexistent"); what = "missing data"; }
        else if (bad == 6 && own) { // data file unreadable while reconfiguring
            what = "unreadable data"; unsigned at = draw(3), seen = 0; unsigned how = draw(2); bool fired = false; std::string err; bool ok = true;
            std::string cav; if (W.cur[i].tryGet<std::string>("cavtype", cav) && draw(2)) { numeric_table_cache::get()->clear(); }
            io::set_hook([&](const io::Event& e) { io::Decision d; if (how == 0 && e.kind == io::OPEN && seen++ == at) { d.err = EMFILE; fired = true; } if (how == 1 && e.kind == io::READ && seen++ >= at) { d.err = EIO; fired = true; } return d; });
            try { W.M->reconfigure(i, c); } catch (std::exception& e) { ok = false; Internal I; err = e.what(); }
            io::clear_hook();
            { size_t z; while ((z = err.find(scratch())) != std::string::npos) err.replace(z, scratch().size(), "$S"); }
            log("reconfigure %zu with data fault %d: %s", i, (int)fired, ok ? "ok" : "refused");
            count(ok ? "op.datafault-ok" : "op.datafault-refused");
            if (ok) W.cur[i] = c;
            structure(W, "after reconfiguration with data fault"); if (chance(1, 2)) propagate(W, "after reconfiguration with data fault");
            continue;
        } else if (bad == 7 || (bad == 0 && chance(1, 6))) { // failing allocation, then try again
            if (k != 8 && draw(3) == 2) { c.set<std::string>("name", "renamed" + std::to_string(draw(2))); what += " rename"; }
            if (!buildable(W, i, c)) continue;
            unsigned kk; if (draw(2)) kk = 1 + logdraw(8); else { uint64_t n0, n1; std::unique_ptr<Machine> F; { Internal I; F.reset(new Machine(W.conf())); } n0 = mem::allocs(); F->reconfigure(i, c); n1 = mem::allocs(); kk = n1 > n0 ? (unsigned)(n1 - n0) : 1; kk = draw(2) ? 1 + draw(kk) : kk - draw(std::min(kk, 12u)); } // any allocation, or a late one
            bool ok = true; mem::arm(kk);
            try { W.M->reconfigure(i, c); } catch (std::exception&) { ok = false; }
            bool f = mem::disarm();
            log("reconfigure %zu (%s) with allocation %u failing (%d): %s", i, what.c_str(), kk, (int)f, ok ? "ok" : "refused");
            count("op.allocfault");
            if (!f && !ok) violate("refused", "valid reconfiguration of element %zu (%s) refused", i, what.c_str());
            if (!ok) { // retry must succeed
                try { W.M->reconfigure(i, c); } catch (std::exception& e) { violate("refused", "valid reconfiguration of element %zu (%s) refused after a failed allocation: %s", i, what.c_str(), e.what()); }
            }
            W.cur[i] = c; structure(W, "after reconfiguration with failing allocation"); if (chance(1, 2)) propagate(W, "after reconfiguration with failing allocation");
            continue;
        }
        bool valid = !expect_fail && buildable(W, i, c), ok = true; std::string err;
        try { W.M->reconfigure(idx, c); } catch (std::exception& e) { ok = false; Internal I; err = e.what(); }
        log("reconfigure %zu (%s): %s", idx, what.c_str(), ok ? "ok" : "refused");
        if (ok && !valid) violate("accepted", "invalid reconfiguration of element %zu (%s) accepted", idx, what.c_str());
        if (!ok && valid) violate("refused", "valid reconfiguration of element %zu (%s) refused: %s", idx, what.c_str(), err.c_str());
        if (ok) W.cur[i] = c;
        count(ok ? "op.reconfigure" : "op.refused");
        structure(W, ok ? "after reconfiguration" : "after refused reconfiguration");
        if (chance(1, 2)) propagate(W, ok ? "after reconfiguration" : "after refused reconfiguration");
    }
    propagate(W, "finally");
    for (size_t i = 0; i < N; i++) (*W.M)[i]->set_observer(0);
}
