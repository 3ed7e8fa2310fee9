// C04: configurations are independent values, against a deep-copying model.
#include "gen.h"
#include <string.h>
#include <stdexcept>
#include <sstream>
using namespace sim;

namespace {
const char* const NAMES[] = { "a", "b", "c", "d", "e", "type", "name", "elements", "sim_type" };
enum { NN = 9, NFREE = 5 };
struct Mod;
struct Val { int t; double d; std::vector<double> v; std::string s; std::vector<Mod> c; Val() : t(0), d(0) {} };
typedef std::map<std::string, Val> Map;
struct Mod { Map in, im; };
bool operator==(const Mod& a, const Mod& b);
bool operator==(const Val& a, const Val& b) { return a.t == b.t && a.d == b.d && a.v == b.v && a.s == b.s && a.c == b.c; }
const Val* look(const Mod& m, const std::string& n) { Map::const_iterator i = m.in.find(n); if (i != m.in.end()) return &i->second; i = m.im.find(n); return i != m.im.end() ? &i->second : 0; }
bool operator==(const Mod& a, const Mod& b)
{
    if (a.in != b.in) return false;
    for (int i = 0; i < NN; i++) { const Val *x = look(a, NAMES[i]), *y = look(b, NAMES[i]); if (!x != !y || (x && !(*x == *y))) return false; }
    return true;
}
Mod scope(const Mod& m) { Mod r; r.im = m.in; r.im.insert(m.im.begin(), m.im.end()); return r; }
void flat(Mod& m) { m.in.insert(m.im.begin(), m.im.end()); m.im.clear(); }
size_t nodes(const Mod& m) { size_t n = 1; for (int k = 0; k < 2; k++) { const Map& M = k ? m.im : m.in; for (Map::const_iterator i = M.begin(); i != M.end(); ++i) { n++; for (size_t j = 0; j < i->second.c.size(); j++) n += nodes(i->second.c[j]); } } return n; }

Mod read(const Config& c);
struct Rd : public boost::static_visitor<Val> {
    Val operator()(double x) const { Val v; v.d = x; return v; }
    Val operator()(const std::vector<double>& x) const { Val v; v.t = 1; v.v = x; return v; }
    Val operator()(const std::string& x) const { Val v; v.t = 2; v.s = x; return v; }
    Val operator()(const std::vector<Config>& x) const { Val v; v.t = 3; for (size_t i = 0; i < x.size(); i++) v.c.push_back(read(x[i])); return v; }
};
Mod read(const Config& c)
{
    Mod m; for (Config::const_iterator i = c.begin(); i != c.end(); ++i) m.in[i->first] = boost::apply_visitor(Rd(), i->second);
    for (int i = 0; i < NN; i++) { Config::value_t v; if (!m.in.count(NAMES[i]) && c.tryGetAny(NAMES[i], v)) m.im[NAMES[i]] = boost::apply_visitor(Rd(), v); }
    return m;
}
std::string str(const Mod& m);
std::string str(const Val& v) { std::ostringstream o; if (v.t == 0) o << v.d; else if (v.t == 1) { o << "["; for (size_t i = 0; i < v.v.size(); i++) o << v.v[i] << ","; o << "]"; } else if (v.t == 2) o << '"' << v.s << '"'; else { o << "("; for (size_t i = 0; i < v.c.size(); i++) o << str(v.c[i]) << ";"; o << ")"; } return o.str(); }
std::string str(const Mod& m) { std::string o; for (Map::const_iterator i = m.in.begin(); i != m.in.end(); ++i) o += i->first + "=" + str(i->second) + " "; o += "|"; for (int i = 0; i < NN; i++) if (!m.in.count(NAMES[i])) { const Val* v = look(m, NAMES[i]); if (v) o += std::string(" ") + NAMES[i] + "=" + str(*v); } return o; }

struct Client {
    int id; std::vector<Config> v; std::vector<Mod> m;
    std::unique_ptr<Machine> M; Mod mm; std::vector<Mod> em; // machine, its configuration and its elements'
    const std::vector<Config>* pool; const std::vector<Mod>* pm; // read only, shared by all threads
    bool oom;
    Client() : id(0), pool(0), pm(0), oom(false) {}
    Client(Client&&) = default;
};

void verify_one(const Config& c, const Mod& m, const char* what, int i, const char* op, bool deepiter)
{
    Mod r = read(c);
    if (!(r == m)) violate("config-changed", "%s %d reports other values than it was given after '%s': %s  instead of  %s", what, i, op, str(r).c_str(), str(m).c_str());
    if (!deepiter) return;
    for (int k = 0; k < NN; k++) { // the typed and throwing lookups agree with tryGetAny()
        const Val* v = look(m, NAMES[k]); bool have = true; try { c.getAny(NAMES[k]); } catch (key_error&) { have = false; }
        if (have != (v != 0)) violate("lookup", "getAny('%s') disagrees with tryGetAny()", NAMES[k]);
        double d = c.get<double>(NAMES[k], -77.0); if (d != (v && v->t == 0 ? v->d : -77.0)) violate("lookup", "get<double>('%s', default) = %g", NAMES[k], d);
        std::string s = c.get<std::string>(NAMES[k], "none"); if (s != (v && v->t == 2 ? v->s : std::string("none"))) violate("lookup", "get<string>('%s', default) = '%s'", NAMES[k], s.c_str());
        bool thr = false; try { c.get<std::vector<double> >(NAMES[k]); } catch (key_error&) { thr = true; } if (thr != !(v && v->t == 1)) violate("lookup", "get<vector>('%s') %s", NAMES[k], thr ? "throws" : "does not throw");
    }
}
void verify(Client& C, const char* op, int except = -1, bool me = false)
{
    Internal I;
    for (size_t i = 0; i < C.v.size(); i++) if ((int)i != except) verify_one(C.v[i], C.m[i], "config", (int)i, op, false);
    if (C.M && !me) { verify_one(C.M->conf(), C.mm, "machine configuration", C.id, op, false); for (size_t i = 0; i < C.em.size(); i++) verify_one((*C.M)[i]->conf(), C.em[i], "element configuration", (int)i, op, false); }
    if (C.pool) for (size_t i = 0; i < C.pool->size(); i++) verify_one((*C.pool)[i], (*C.pm)[i], "shared config", (int)i, op, false);
}

Val val(int type)
{
    Internal I; Val v; v.t = type;
    if (type == 0) v.d = 1 + draw(50); else if (type == 1) { unsigned n = draw(4); for (unsigned i = 0; i < n; i++) v.v.push_back(draw(9)); } else if (type == 2) v.s = std::string(1 + draw(30), 'k' + draw(8));
    return v;
}
Config::value_t any(const Val& v) { switch (v.t) { case 0: return v.d; case 1: return v.v; default: return v.s; } }

void step(Client& C)
{
    Op op; unsigned k = draw(15), n = (unsigned)C.v.size(); unsigned i = draw(n), j = draw(n); std::string name = NAMES[draw(NFREE)];
    unsigned arm = C.oom && chance(1, 4) ? 1 + draw(6) : 0; const char* what = "?"; Mod after; bool set = false, swapped = false; Mod aft2; bool machine = false; Mod amm; std::vector<Mod> aem; std::string touched = name;
    { Internal I; after = C.m[i]; aft2 = C.m[j]; amm = C.mm; aem = C.em; }
    Val v; Config::value_t av; std::string s; std::vector<double> vd; std::vector<Config> vc; std::unique_ptr<Machine> NM;
    if (k < 3) v = val(draw(3));
    if (k == 1 || k == 2) { Internal I; av = any(v); }
    bool failed = false; std::string err;
    if (nodes(C.m[i]) + nodes(C.m[j]) > 300 && (k == 3 || k == 9 || k == 12)) k = 10;
    // what the operation should lead to
    {
        Internal I;
        switch (k) {
        case 0: what = "set"; after.in[name] = v; break;
        case 1: what = "setAny"; after.in[name] = v; break;
        case 2: what = "swapAny"; after.in[name] = v; break;
        case 3: what = "set sub-configurations"; { Val x; x.t = 3; x.c.push_back(C.m[j]); if (draw(2)) x.c.push_back(scope(C.m[i])); after.in[name] = x; vc.push_back(C.v[j]); if (x.c.size() > 1) vc.push_back(C.v[i].new_scope()); } break;
        case 4: what = "assign"; after = C.m[j]; break;
        case 5: what = "new scope"; after = scope(C.m[j]); break;
        case 6: what = "push_scope"; flat(after); after.im.swap(after.in); break;
        case 7: what = "flatten"; flat(after); break;
        case 8: what = "swap configurations"; after = C.m[j]; aft2 = C.m[i]; swapped = true; break;
        case 9: what = "take sub-configuration"; { const Val* x = look(C.m[j], name); if (x && x->t == 3 && x->c.size()) after = x->c[draw((unsigned)x->c.size())]; else { what = "read"; k = 10; } } break;
        case 10: what = "read"; break;
        case 11: what = "typed swap"; { Val x = val(1 + draw(2)); if (x.t == 2) s = x.s; else vd = x.v; v = x; after.in[name] = x; } break;
        case 12: what = "build machine"; machine = true; { unsigned ne = 1 + draw(3); Val x; x.t = 3; amm = scope(C.m[j]); aem.clear(); for (unsigned e = 0; e < ne; e++) { unsigned q = draw(n); Mod em = draw(2) ? scope(C.m[q]) : C.m[q]; Config ec = draw(2) ? C.v[q] : C.v[q].new_scope(); em = read(ec); Val t; t.t = 2; t.s = e & 1 ? "drift" : "marker"; em.in["type"] = t; Val nm; nm.t = 2; nm.s = "e" + std::to_string(e); em.in["name"] = nm; ec.set<std::string>("type", t.s); ec.set<std::string>("name", nm.s); vc.push_back(ec); x.c.push_back(em); aem.push_back(em); }
                 Val st; st.t = 2; st.s = "Vector"; amm.in["sim_type"] = st; amm.in["elements"] = x; } break;
        case 13: if (!C.M) { what = "read"; k = 10; break; } what = "reconfigure"; machine = true; { unsigned e = draw((unsigned)C.em.size()); Config ec = C.v[j]; Mod em = C.m[j]; Val t; t.t = 2; t.s = e & 1 ? "drift" : "marker"; Val nm; nm.t = 2; nm.s = "r" + std::to_string(draw(3)); em.in["type"] = t; em.in["name"] = nm; ec.set<std::string>("type", t.s); ec.set<std::string>("name", nm.s); vc.push_back(ec); aem[e] = em; v.d = e; } break;
        case 14: if (C.M && draw(2)) { if (draw(3)) { what = "take element configuration"; v.d = draw((unsigned)C.em.size()); after = C.em[(size_t)v.d]; } else { what = "take machine configuration"; v.d = -1; if (nodes(C.mm) < 200) after = C.mm; else { what = "read"; k = 10; } } }
                 else if (C.pool && C.pool->size()) { what = "copy shared"; v.d = -2; v.v.push_back(draw((unsigned)C.pool->size())); after = (*C.pm)[(size_t)v.v[0]]; if (draw(2)) { v.d = -3; after = scope(after); } }
                 else { what = "read"; k = 10; } break;
        }
    }
    if (arm && k != 13) mem::arm(arm);
    try {
        switch (k) {
        case 0: if (v.t == 0) C.v[i].set<double>(name, v.d); else if (v.t == 1) C.v[i].set<std::vector<double> >(name, v.v); else C.v[i].set<std::string>(name, v.s); break;
        case 1: C.v[i].setAny(name, av); break;
        case 2: C.v[i].swapAny(name, av); break;
        case 3: C.v[i].set<std::vector<Config> >(name, vc); break;
        case 4: C.v[i] = C.v[j]; break;
        case 5: { Config t(C.v[j].new_scope()); C.v[i].swap(t); } break;
        case 6: C.v[i].push_scope(); break;
        case 7: C.v[i].flatten(); break;
        case 8: C.v[i].swap(C.v[j]); break;
        case 9: { Config t; bool got = false; for (size_t q = 0; !got; q++) { const std::vector<Config>& x = C.v[j].get<std::vector<Config> >(name); if (q >= x.size()) break; bool eq; { Internal I; eq = read(x[q]) == after; } if (eq) { t = x[q]; got = true; } } if (got) C.v[i] = t; else { Internal I; violate("config-changed", "sub-configuration vanished"); } } break;
        case 10: { std::ostringstream o; C.v[i].show(o); o << C.v[j]; GLPSPrint(o, C.v[j]); double d; C.v[i].tryGet<double>(name, d); } break;
        case 11: if (v.t == 2) C.v[i].swap<std::string>(name, s); else C.v[i].swap<std::vector<double> >(name, vd); break;
        case 12: { Config c(C.v[j].new_scope()); c.set<std::string>("sim_type", "Vector"); c.set<std::vector<Config> >("elements", vc); NM.reset(new Machine(c)); c.set<std::string>("sim_type", "changed"); vc[0].set<std::string>("type", "changed"); } break;
        case 13: C.M->reconfigure((size_t)v.d, vc[0]); break;
        case 14: { if (v.d == -1) C.v[i] = C.M->conf(); else if (v.d == -2) C.v[i] = (*C.pool)[(size_t)v.v[0]]; else if (v.d == -3) C.v[i] = (*C.pool)[(size_t)v.v[0]].new_scope(); else C.v[i] = (*C.M)[(size_t)v.d]->conf(); } break;
        }
    } catch (std::exception& e) { Internal I; failed = true; err = e.what(); }
    Internal I; bool fired = arm && k != 13 ? mem::disarm() : false; set = true;
    log("client %d %s config %u/%u '%s'%s%s", C.id, what, i, j, name.c_str(), fired ? " allocation failed" : "", failed ? " -> error" : "");
    count(("op." + std::string(what)).c_str());
    if (failed && !fired) violate("config-refused", "'%s' failed: %s", what, err.c_str());
    if (failed) {
        verify(C, what, machine ? -1 : (int)i, false);
        if (!machine) { // the modified one may be left part way, but only as far as the named parameter is concerned
            Mod r = read(C.v[i]);
            for (int q = 0; q < NN; q++) {
                const Val *x = look(r, NAMES[q]), *b = look(C.m[i], NAMES[q]), *a = look(after, NAMES[q]); std::string sx = x ? str(*x) : "-", sb = b ? str(*b) : "-", sa = a ? str(*a) : "-";
                if (sx == sb || sx == sa) continue;
                if (name == NAMES[q] && (k <= 3 || k == 11)) continue;
                violate("config-changed", "'%s' of config %u is %s after a failed '%s' of '%s', was %s", NAMES[q], i, sx.c_str(), what, name.c_str(), sb.c_str());
            }
            C.m[i] = r;
        }
        count("op.failed");
        return;
    }
    if (k == 2) { // the exchanged value
        const Map::const_iterator b = C.m[i].in.find(name); Val got = boost::apply_visitor(Rd(), av); Val want; if (b != C.m[i].in.end()) want = b->second;
        if (!(got == want)) violate("lookup", "swapAny('%s') handed back %s instead of %s", name.c_str(), str(got).c_str(), str(want).c_str());
    }
    if (machine) { if (NM) { C.M.reset(); C.M = std::move(NM); } C.mm = amm; C.em = aem; }
    else if (k != 10) { C.m[i] = after; if (swapped) C.m[j] = i == j ? after : aft2; }
    verify(C, what); verify_one(C.v[i], C.m[i], "config", i, what, true);
    uint64_t h = hashstr(what); bool im = !C.m[i].im.empty(); h = hashbytes(&im, 1, h); size_t z = C.m[i].in.size(); h = hashbytes(&z, sizeof z, h); h = hashbytes(&fired, 1, h); reach(h);
}
}

WORKLOAD(c04, "configurations against a deep-copying model")
{
    gen::setup_data(); Client C; C.oom = chance(1, 2); unsigned n = 2 + draw(4); C.v.resize(n); C.m.resize(n);
    if (draw(2)) { GLPSParser P; static const char* T = "a = 3; b = \"str\"; c = [1, 2, 3];\nx: drift, L = 0.1, d = 2;\ny: marker, a = 4;\ncell: LINE = (x, y, x);\n"; std::unique_ptr<Config> p(P.parse_byte(T, strlen(T))); C.v[0] = *p; Internal I; C.m[0] = read(C.v[0]); }
    uint32_t q = 0; bool thr = sched::available() && chance(3, 4);
    while (more(thr ? 6 : 20, q, tier() ? 120 : thr ? 12 : 50)) step(C);
    if (thr) {
        std::vector<Client> T; unsigned nt = 2 + draw(3);
        std::vector<Config> pool(C.v.begin(), C.v.end()); std::vector<Mod> pm; { Internal I; pm = C.m; T.reserve(nt); }
        for (unsigned t = 0; t < nt; t++) { Client c; c.id = t + 1; c.v = C.v; Internal I; c.m = C.m; c.pool = &pool; c.pm = &pm; T.push_back(std::move(c)); }
        C.v.clear(); C.m.clear();
        std::vector<std::function<void()> > fns; for (unsigned t = 0; t < nt; t++) { Client* c = &T[t]; fns.push_back([c] { for (uint32_t z = 0; more(8, z, tier() ? 30 : 10);) step(*c); if (draw(2)) { c->v.clear(); Internal I; c->m.clear(); } }); }
        sched::run(fns, sched::random_policy());
        for (unsigned t = 0; t < nt; t++) verify(T[t], "end");
    }
}
