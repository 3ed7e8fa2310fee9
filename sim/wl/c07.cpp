// C07: parsing depends only on the lattice text, not on how it arrives.
#include "gen.h"
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <math.h>
#include <stdexcept>
#include <sstream>
#include <sys/stat.h>
#include <algorithm>
#include <set>
using namespace sim;

namespace {
// ---- generated lattice with its meaning --------------------------------------
struct Val { int kind; double d; std::string s; std::vector<double> v; Val() : kind(0), d(0) {} }; // 0 num 1 str 2 vec
struct Elem { std::string name, type; std::vector<std::pair<std::string, Val> > props; };
struct Model {
    std::string text; bool valid;
    std::vector<std::pair<std::string, Val> > vars;
    std::vector<Elem> elems; std::vector<std::pair<std::string, std::vector<std::string> > > lines;
    std::string use; std::string printed; unsigned line; bool hasinc;
    Model() : valid(true), line(1), hasinc(false) {}
};
std::string num(double d) { char b[48]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string ws(Model& m)
{
    switch (draw(10)) {
    case 7: return "  "; case 8: m.line++; return "\n"; case 9: { m.line++; std::string c = " # note"; if (draw(6) == 5) c += std::string(draw(2000), 'x'); return c + " ; = \"\n"; }
    default: return " ";
    }
}
double lit(std::string& t) { double v; switch (draw(5)) { case 0: v = draw(10); break; case 1: v = draw(1000) / 8.0; break; case 2: v = draw(100000) * 1e-7; break; case 3: v = (1 + draw(9)) * 1e15; break; default: v = draw(1000000) / 1000.0; } t = num(v); return strtod(t.c_str(), 0); }
// prec: 0 additive, 1 multiplicative, 2 atom
double expr(Model& m, std::string& t, int prec, int depth)
{
    unsigned k = depth <= 0 ? draw(2) : draw(7);
    std::string a, b;
    if (k == 1) { std::vector<size_t> c; for (size_t i = 0; i < m.vars.size(); i++) if (m.vars[i].second.kind == 0) c.push_back(i); if (!c.empty()) { size_t i = pick(c); t = m.vars[i].first; return m.vars[i].second.d; } }
    if (k <= 1) { if (draw(12) == 11) { t = "pi"; return 3.14159265358979323846; } return lit(t); }
    double x, y, r;
    switch (k) {
    case 2: x = expr(m, a, 0, depth - 1); y = expr(m, b, 1, depth - 1); r = draw(2) ? (t = a + "+" + b, x + y) : (t = a + " - " + b, x - y); if (prec > 0) t = "(" + t + ")"; return r;
    case 3: x = expr(m, a, 1, depth - 1); y = expr(m, b, 2, depth - 1); r = x * y; t = a + "*" + b; if (prec > 1) t = "(" + t + ")"; return r;
    case 4: { x = expr(m, a, 1, depth - 1); unsigned l0 = m.line; y = expr(m, b, 2, depth - 1); if (y == 0 || !std::isfinite(x / y)) { m.line = l0; t = a; if (prec > 1) t = "(" + t + ")"; return x; } r = x / y; t = a + ws(m) + "/" + b; if (prec > 1) t = "(" + t + ")"; return r; }
    case 5: x = expr(m, a, 2, depth - 1); t = "(-" + a + ")"; return -x;
    default: {
        static const char* F[] = { "sin", "cos", "atan", "deg2rad", "rad2deg", "arctan", "tan", "asin", "acos", "arcsin", "arccos" };
        unsigned f = draw(11); x = expr(m, a, 0, depth - 1); if (f > 6 && !(fabs(x) <= 1)) f = 2; t = std::string(F[f]) + "(" + a + ")";
        const double PI = 3.14159265358979323846;
        switch (f) { case 0: return sin(x); case 1: return cos(x); case 2: case 5: return atan(x); case 3: return x * (PI / 180.0); case 6: return tan(x); case 7: case 9: return asin(x); case 8: case 10: return acos(x); default: return x * (180.0 / PI); }
    } }
}
std::string rstr(unsigned n) { static const char C[] = "abcXYZ 0123_:;=#()[],+-*/.'%$@!?<>{}\t"; std::string s; for (unsigned i = 0; i < n; i++) s += C[draw(sizeof C - 1)]; return s; }
Val value(Model& m, std::string& t)
{
    Val v; unsigned k = draw(6);
    if (k == 4) { v.kind = 1; unsigned n = draw(12); v.s = rstr(n); if (draw(12) == 11) { static const unsigned L[] = { 900, 1020, 1023, 1024, 1025, 3000, 17000 }; v.s = std::string(L[draw(7)], 'q') + v.s; } t = "\"" + v.s + "\""; }
    else if (k == 5) { v.kind = 2; unsigned n = draw(5); if (draw(12) == 11) n = 100 + draw(600); t = "["; for (unsigned i = 0; i < n; i++) { std::string e; double d = n > 10 ? lit(e) : expr(m, e, 0, 1); if (i) t += draw(4) ? ", " : ("," + ws(m)); t += e; v.v.push_back(d); } t += "]"; }
    else v.d = expr(m, t, 0, (int)draw(4));
    return v;
}
std::string sep() { return draw(4) ? "\n" : " "; }

Model make()
{
    Model m; std::string& T = m.text; unsigned n = 0, nid = 0; uint32_t c = 0;
    auto nl = [&](const std::string& s) { T += s; if (s == "\n") m.line++; };
    std::set<std::string> used;
    while (more(12, c, 60)) {
        Op op; unsigned k = draw(12); std::string t, nm = std::string(1, "abcdefgh"[draw(8)]) + std::to_string(nid++); if (draw(3) == 2) nm += ":x_" + std::to_string(draw(3));
        if (draw(40) == 39) nm += std::string(1100, 'n');
        if (k < 5) { Val v = value(m, t); T += nm + (draw(2) ? " = " : "=") + t + ";"; m.vars.push_back(std::make_pair(nm, v)); nl(sep()); }
        else if (k < 9) {
            static const char* TY[] = { "drift", "quadrupole", "marker", "anything" };
            Elem e; e.name = nm; e.type = TY[draw(4)]; T += nm + ": " + e.type; unsigned np = draw(5);
            for (unsigned i = 0; i < np; i++) { std::string pn = std::string("p") + std::to_string(i) + (draw(2) ? "L" : ""); Val v = value(m, t); T += "," + ws(m) + pn + " = " + t; e.props.push_back(std::make_pair(pn, v)); }
            T += ";"; nl(sep()); m.elems.push_back(e);
        } else if (k == 9 && !m.elems.empty()) {
            std::vector<std::string> L; unsigned it = 1 + draw(5); T += nm + ": " + (draw(2) ? "LINE" : "line") + " = (";
            for (unsigned i = 0; i < it; i++) {
                if (i) T += ",";
                T += ws(m);
                if (!m.lines.empty() && draw(2)) {
                    size_t q = draw((unsigned)m.lines.size()); std::vector<std::string> w = m.lines[q].second;
                    if (w.size() > 200) { w.clear(); w.push_back(m.elems[0].name); T += m.elems[0].name; }
                    else if (draw(3) == 2) { T += "-" + m.lines[q].first; std::reverse(w.begin(), w.end()); }
                    else if (draw(3) == 2) { unsigned r = draw(4); bool left = draw(2); T += left ? std::to_string(r) + "*" + m.lines[q].first : m.lines[q].first + "*" + std::to_string(r); std::vector<std::string> x; while (r--) x.insert(x.end(), w.begin(), w.end()); w = x; }
                    else T += m.lines[q].first;
                    L.insert(L.end(), w.begin(), w.end());
                } else { const Elem& e = pick(m.elems); T += e.name; L.push_back(e.name); }
            }
            T += ");"; nl(sep()); m.lines.push_back(std::make_pair(nm, L));
        } else if (k == 10) {
            std::ostringstream o; std::string pt; unsigned what = draw(5);
            if (what == 1) { Val v; v.s = rstr(draw(20)); pt = "\"" + v.s + "\""; o << pt; }
            else if (what == 2) { unsigned q = draw(4); pt = "["; o << "["; for (unsigned i = 0; i < q; i++) { std::string e; double d = lit(e); pt += (i ? "," : "") + e; o << d << ", "; } pt += "]"; o << "]"; }
            else if (what == 3 && !m.elems.empty()) { const std::string& e = pick(m.elems).name; pt = e; o << "(" << e << ", )"; }
            else if (what == 4 && !m.lines.empty()) { const std::pair<std::string, std::vector<std::string> >& L = pick(m.lines); pt = L.first; o << "("; for (size_t i = 0; i < L.second.size(); i++) o << L.second[i] << ", "; o << ")"; }
            else o << lit(pt);
            T += "print(" + pt + ");"; std::ostringstream l; l << "On line " << m.line << " : " << o.str() << "\n"; m.printed += l.str(); nl(sep());
        }
        else { T += ws(m); }
        n++;
    }
    if (m.elems.empty()) { Elem e; e.name = "E0"; e.type = "drift"; T += "E0: drift;\n"; m.line++; m.elems.push_back(e); }
    if (m.lines.empty()) { T += "LN: LINE = (" + m.elems[0].name + ");\n"; m.line++; m.lines.push_back(std::make_pair(std::string("LN"), std::vector<std::string>(1, m.elems[0].name))); }
    if (draw(3) == 2) { m.use = pick(m.lines).first; T += "USE: " + m.use + ";\n"; m.line++; }
    if (draw(3) == 2) { T += "END;\n"; m.line++; }
    return m;
}
void valstr(std::string& o, const Val& v)
{
    if (v.kind == 0) o += num(v.d); else if (v.kind == 1) o += "\"" + v.s + "\""; else { o += "["; for (size_t i = 0; i < v.v.size(); i++) o += num(v.v[i]) + ","; o += "]"; }
}
// what cfg_full() must give
std::string expected(const Model& m, const std::string& inc = std::string())
{
    std::map<std::string, std::string> top; std::string o;
    for (size_t i = 0; i < m.vars.size(); i++) { std::string s; valstr(s, m.vars[i].second); top[m.vars[i].first] = s; }
    size_t L = m.lines.size() - 1; if (!m.use.empty()) for (size_t i = 0; i < m.lines.size(); i++) if (m.lines[i].first == m.use) L = i;
    if (m.lines[L].second.empty()) return "";
    std::string es = "{";
    for (size_t i = 0; i < m.lines[L].second.size(); i++) {
        std::map<std::string, std::string> p; const Elem* e = 0;
        for (size_t k = 0; k < m.elems.size(); k++) if (m.elems[k].name == m.lines[L].second[i]) e = &m.elems[k];
        for (size_t k = 0; k < e->props.size(); k++) { std::string s; valstr(s, e->props[k].second); p[e->props[k].first] = s; }
        p["type"] = "\"" + e->type + "\""; p["name"] = "\"" + e->name + "\"";
        for (auto& q : p) es += q.first + "=" + q.second + " ";
        es += ";";
    }
    es += "}";
    if (m.hasinc) top["zinc"] = "{" + inc + ";}";
    top["elements"] = es; top["name"] = "\"" + m.lines[L].first + "\"";
    for (auto& q : top) o += q.first + "=" + q.second + " ";
    return o;
}

struct Delivery { int how; bool have_fault; };

struct Src { std::string text, dir, path; };

// outcome text: "ok <config> | printed" or "error <message>"
std::string outcome(GLPSParser& P, int how, const Src& s, std::ostringstream& pr)
{
    P.setPrinter(&pr);
    try {
        std::unique_ptr<Config> c;
        if (how == 0) c.reset(P.parse_byte(s.text.data(), s.text.size(), s.dir.c_str()));
        else if (how == 1) c.reset(P.parse_byte(s.text, s.dir.c_str()));
        else if (how == 2) c.reset(P.parse_file(s.path.c_str()));
        else if (how >= 4) { // standard input, which is left open
            FILE* fp = fopen(s.path.c_str(), "r"); if (!fp) return "error open";
            struct Stdin { FILE* o; Stdin(FILE* f) : o(stdin) { stdin = f; } ~Stdin() { FILE* f = stdin; stdin = o; fclose(f); } } S(fp);
            c.reset(P.parse_file(how == 4 ? "-" : (const char*)0));
        } else {
            FILE* fp = fopen(s.path.c_str(), "r"); if (!fp) return "error open";
            try { c.reset(P.parse_file(true, fp, s.dir.c_str())); } catch (...) { fclose(fp); throw; }
            fclose(fp);
        }
        if (!c.get()) return "error NULL";
        Internal I0; std::string r = "ok " + gen::cfg_str(*c);
        { // the enclosing scope of each element gives the global definitions
            Internal I; std::vector<Config> es;
            if (c->tryGet<std::vector<Config> >("elements", es)) for (size_t i = 0; i < es.size(); i++) for (Config::const_iterator it = c->begin(); it != c->end(); ++it) {
                Config::value_t v; if (it->first == "elements" || it->first == "name") continue;
                if (!es[i].tryGetAny(it->first, v)) r += " SCOPE-MISSING:" + it->first;
            }
        }
        return r;
    } catch (std::bad_alloc&) { Internal I; return "error bad_alloc"; }
    catch (std::exception& e) { Internal I; return std::string("error ") + e.what(); }
}
}

WORKLOAD(c07, "delivery independence of parsing")
{
    std::string dir = scratch() + "/d"; mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) broken("chdir");
    // texts of this run
    unsigned nt = 1 + draw(3); std::vector<Src> src; std::vector<Model> mods;
    std::vector<std::vector<Model> > incm(nt); std::vector<std::vector<std::string> > inc(nt), vref(nt), vrefp(nt); std::vector<unsigned> cur(nt, 0); // contents the included file takes, outcome with each
    for (unsigned i = 0; i < nt; i++) {
        Op op; Model m = make(); Src s; s.dir = dir; s.path = dir + "/f" + std::to_string(i) + ".lat";
        unsigned k = draw(8);
        if (k == 4 && !m.text.empty()) { m.valid = false; m.text.resize(draw((unsigned)m.text.size())); }
        else if (k == 5) { m.valid = false; uint32_t c = 0; while (more(3, c, 6) && !m.text.empty()) { unsigned p = draw((unsigned)m.text.size()); switch (draw(3)) { case 0: m.text.erase(p, 1 + draw(3)); break; case 1: m.text.insert(p, 1, "=;:,()[]\"-+*/ \nax0.\x80"[draw(21)]); break; default: m.text[p] = (char)draw(256); } } }
        else if (k == 6) { // includes and file functions
            m.valid = false; for (unsigned nv = 1 + draw(3); nv; nv--) { incm[i].push_back(make()); inc[i].push_back(incm[i].back().text); }
            static const char* V[] = { "zinc = parse(\"inc%u.lat\");\n", "zf = file(\"inc%u.lat\");\n", "zd = dir(\".\"); zz = file(\"f%u.lat\");\n", "zf = file(\"missing%u\");\n", "zp = parse(\"missing%u\");\n", "zq = h5file(\"inc%u.lat\");\n", "zq = h5file(\"/nonexistent%u/a/b\");\n", "zq = h5file(\"no/group%u\");\n", "zq = h5file(\"inc%u.lat/group\");\n" };
            char b[128]; unsigned v = draw(2) ? 0 : draw(9); snprintf(b, sizeof b, V[v], i); if (v == 0 && draw(3)) { m.text += std::string("\n") + b; m.valid = m.hasinc = true; } else m.text = b + m.text; }
        else if (k == 7) { // errors the grammar detects late
            static const char* X[] = { "q1 = 1; q1 = 2;\n", "q2 = undefinedvar;\n", "q3 = [1,\"a\"];\n", "q4 = \"a\"+1;\n", "e1: drift, L=1 2;\n", "q5 = 1/0;\n", "foo(1);\n", "BAR;\n", "l1: NOTLINE = (x);\n", "q6 = \"unterminated\n", "q7 = 1e999;\n", "e2: drift, L=, K=1;\n", "e3: drift, L=[1,2,(3];\n", "USE: nothing;\n", "q8 = sin(\"x\");\n", "e4: drift, L=1, L=2;\n", "q9 = -\"s\";\n", "l2: LINE = (1);\n", "l3: LINE = ();\n" };
            m.valid = false; size_t pos = draw(2) ? 0 : m.text.size(); m.text.insert(pos, X[draw(19)]); }
        s.text = m.text; io::put(s.path, s.text, 1000);
        src.push_back(s); mods.push_back(m);
        log("text %u: %zu bytes valid=%d hash %016llx", i, s.text.size(), (int)m.valid, (unsigned long long)hashstr(s.text));
        if (tracing()) log("<<<%s>>>", s.text.substr(0, 1500).c_str());
    }
    bool wantvar = chance(1, 4);
    auto include = [&](unsigned i, unsigned v, unsigned t) { if (!inc[i].empty()) io::put(dir + "/inc" + std::to_string(i) + ".lat", inc[i][v], t); cur[i] = v; };
    for (unsigned i = 0; i < nt; i++) for (unsigned v = 0; v == 0 || v < inc[i].size(); v++) {
        include(i, v, 1000);
        std::string r = isolated([&]() { GLPSParser P; if (wantvar) P.setVar("preset", 42.0); std::ostringstream pr; std::string o = outcome(P, 0, src[i], pr); return o + "\001" + pr.str(); });
        size_t z = r.rfind('\001'); std::vector<std::string> &ref = vref[i], &refp = vrefp[i]; ref.push_back(r.substr(0, z)); refp.push_back(r.substr(z + 1));
        if (mods[i].valid) {
            Model mm = mods[i]; if (wantvar) { Val v; v.d = 42.0; mm.vars.push_back(std::make_pair(std::string("preset"), v)); }
            std::string inx, wantp = mm.printed; if (mm.hasinc) { inx = expected(incm[i][v]); wantp += incm[i][v].printed; }
            std::string ex = mm.hasinc && inx.empty() ? inx : expected(mm, inx); if (mm.hasinc && !ex.empty()) count("include-checked");
            if (ex.empty()) { if (ref[v].compare(0, 5, "error")) violate("wrong-result", "empty beamline accepted: %s", ref[v].substr(0, 300).c_str()); }
            else {
                if (ref[v] != "ok " + ex) { size_t p = 0; std::string e = "ok " + ex; while (p < e.size() && p < ref[v].size() && e[p] == ref[v][p]) p++; violate("wrong-result", "parsed configuration differs from the text at '%s', expected '%s'", ref[v].substr(p > 20 ? p - 20 : 0, 120).c_str(), e.substr(p > 20 ? p - 20 : 0, 120).c_str()); }
                if (refp[v] != wantp) violate("wrong-result", "printed '%s' expected '%s'", refp[v].substr(0, 200).c_str(), wantp.substr(0, 200).c_str());
                count("valid-checked");
            }
        }
        if (ref[v].compare(0, 3, "ok ") == 0) count("ref.ok"); else count("ref.error");
    }
    // warm up one-time allocations
    { GLPSParser P; std::ostringstream o; Src s; s.dir = dir; s.path = dir + "/warm"; s.text = "a=1; e: drift; l: LINE=(e);"; io::put(s.path, s.text, 1); for (int h = 0; h < 6; h++) outcome(P, h, s, o); s.text = "a=1/0;b=;"; io::put(s.path, s.text, 1); for (int h = 0; h < 6; h++) outcome(P, h, s, o); s.text = "a=parse(\"nofile\"); e: drift, L=1 1;"; for (int h = 0; h < 2; h++) outcome(P, h, s, o); s.path = dir + "/none"; outcome(P, 2, s, o); }
    std::unique_ptr<GLPSParser> shared(new GLPSParser); if (wantvar) shared->setVar("preset", 42.0);
    uint32_t ops = 0; unsigned maxops = tier() ? 30 : 12;
    while (more(10, ops, maxops)) {
        Op op; unsigned i = draw(nt); int how = (int)draw(6); unsigned fk = draw(10); // fault kind
        bool fresh = chance(1, 2);
        std::unique_ptr<GLPSParser> own; if (fresh) { own.reset(new GLPSParser); if (wantvar) own->setVar("preset", 42.0); }
        GLPSParser& P = fresh ? *own : *shared;
        bool split = how >= 2 && draw(2), must_fail = false, may_fail = false, fired = false; unsigned at = 0, eintr = 0, nread = 0, nopen = 0;
        unsigned mode = 0; // 0 none 1 EIO persistent 2 EIO once 3 open error 4 alloc 5 directory
        if (fk == 5 && how >= 2) { mode = 1; at = draw(6); }
        else if (fk == 6 && how >= 2) { mode = 2; at = draw(6); }
        else if (fk == 7 && how >= 2) { mode = 3; at = draw(2); }
        else if (fk >= 8) mode = 4;
        else if (fk == 4 && how >= 2) mode = 5;
        eintr = split ? draw(3) : 0;
        static const int OE[] = { ENOENT, EACCES, EMFILE, ENOMEM, EISDIR };
        int oe = mode == 3 ? OE[draw(5)] : 0; unsigned chunk = split ? (draw(3) ? 1 + draw(64) : 1 + draw(2000)) : 0;
        Src s = src[i];
        // files change between parses: the included one, or which path holds the text
        if (!inc[i].empty() && draw(2)) { unsigned v = draw((unsigned)inc[i].size()); include(i, v, 1000 + draw(3)); count("op.include-replaced"); }
        if (how >= 2) { s.path = src[draw(nt)].path; io::put(s.path, s.text, 1000 + draw(3)); }
        const std::string &ref = vref[i][cur[i]], &refp = vrefp[i][cur[i]];
        if (mode == 5) s.path = dir;
        auto hook = [&](const io::Event& e) {
            io::Decision d;
            if (e.kind == io::OPEN) { if (mode == 3 && nopen++ == at) { d.err = oe; fired = true; } return d; }
            if (e.kind == io::READ) {
                unsigned k = nread++;
                if ((mode == 1 && k >= at) || (mode == 2 && k == at)) { d.err = EIO; fired = true; return d; }
                if (eintr && k % 3 == eintr - 1) { d.err = EINTR; return d; }
                if (split) { d.limit = true; d.maxlen = 1 + draw(chunk); }
            }
            return d;
        };
        int fd0 = io::fd_count();
        io::set_hook(hook);
        int64_t lv = mem::live();
        unsigned ak = 0; if (mode == 4) { ak = 1 + logdraw(10); mem::arm(ak, 1 + (draw(3) == 2) * 1000000); }
        std::string r, prs; bool af = false, prbad = false;
        {
            std::ostringstream pr; std::string r0 = outcome(P, how, s, pr);
            af = mem::disarm(); io::clear_hook();
            Internal I; r = r0; prs = pr.str(); prbad = !pr.good();
        }
        P.setPrinter(0);
        int64_t left = mem::live() - lv;
        if (mode == 1 && fired) must_fail = true; if (mode == 3 && fired) may_fail = true; if (mode == 3 && fired && at == 0) must_fail = true; if (mode == 2 && fired) may_fail = true; if (mode == 4 && af) may_fail = true; if (mode == 5) must_fail = true;
        std::string rs = r.compare(0, 3, "ok ") == 0 ? "ok " + std::to_string(hashstr(r)) : r.substr(0, 200);
        // scratch paths are the same in every run of this worker but not across workers
        size_t z; while ((z = rs.find(scratch())) != std::string::npos) rs.replace(z, scratch().size(), "$S");
        log("parse text %u how %d fault %u at %u/%u split %u eintr %u fresh %d fired %d: %s", i, how, mode, at, ak, chunk, eintr, (int)fresh, (int)(fired || af), rs.c_str());
        bool err = r.compare(0, 5, "error") == 0;
        if (must_fail && !err) violate("fault-unreported", "text %u delivered as %d with fault %d: no error reported, result %s", i, how, (int)mode, rs.c_str());
        if (!must_fail && !(may_fail && err)) {
            if (r != ref) violate("delivery-dependent", "text %u delivered as %d: '%s' but alone from memory '%s'", i, how, r.substr(0, 300).c_str(), ref.substr(0, 300).c_str());
            if (!(err && may_fail) && !(af && prbad) && prs != refp) violate("delivery-dependent", "printed output differs: '%s' vs '%s'", prs.substr(0, 200).c_str(), refp.substr(0, 200).c_str());
        }
        if (io::fd_count() > fd0) { // likewise
            int fd1 = io::fd_count(); nread = nopen = 0; io::set_hook(hook); { std::ostringstream pr; outcome(P, how, s, pr); io::clear_hook(); } P.setPrinter(0);
            if (io::fd_count() > fd1) violate("file-left-open", "parsing (how %d, fault %d) leaves a file open: %s", how, (int)mode, rs.c_str());
        }
        // something kept on first use is not a leak: the same parse has to leave blocks every time
        for (int again = 0; again < 2 && left > 0 && mode != 4; again++) {
            nread = nopen = 0; io::set_hook(hook); lv = mem::live();
            { std::ostringstream pr; outcome(P, how, s, pr); io::clear_hook(); }
            P.setPrinter(0); left = mem::live() - lv;
        }
        if (mode != 4) { if (left > 0) violate("leak", "parsing (how %d, fault %d) left %lld blocks allocated: %s", how, (int)mode, (long long)left, rs.c_str()); }
        static const char* MN[] = { "none", "EIO", "EIO-once", "open", "alloc", "directory" };
        std::string cn = std::string("op.") + MN[mode]; count(cn.c_str());
        reach(hashstr(rs, hashstr(cn)) ^ (uint64_t)how);
    }
}
