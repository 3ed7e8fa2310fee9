// C17: machines described by damaged files or unusable parameters are refused, or do what the bytes say: the outcome never depends on anything else.
#include "gen.h"
#include <flame/moment.h>
#include <alloca.h>
#include <string.h>
#include <stdexcept>
#include <sstream>
#include <cmath>
using namespace sim;

namespace {
typedef std::vector<double> dvec;
// leave garbage where local variables are going to be
void __attribute__((noinline)) scribble(int byte) { size_t n = 400000; char* p = (char*)alloca(n); memset(p, byte, n); asm volatile("" : : "r"(p) : "memory"); }

struct Job { std::string text; bool parse; Config conf, beam; std::string dir; bool has_beam; int start, max, back; };
// everything observable of building and using the machine
std::string run(const Job& j, int byte)
{
    External X; mem::fill = byte; std::string o;
    try {
        std::unique_ptr<Config> own; const Config* c = &j.conf; scribble(byte);
        if (j.parse) { GLPSParser P; own.reset(P.parse_byte(j.text, j.dir.c_str())); c = own.get(); }
        scribble(byte); Machine M(*c); o += "built " + std::to_string(M.size()) + "\n";
        { std::ostringstream s; s << M; o += s.str(); for (size_t i = 0; i < M.size(); i++) { s.str(""); M[i]->show(s, 2); o += s.str(); } }
        scribble(byte); std::unique_ptr<StateBase> s(M.allocState(j.has_beam ? j.beam : Config())); { Internal I; o += gen::pack(gen::snap(s.get(), true)); }
        for (int pass = 0; pass < 4; pass++) {
            std::string e; scribble(byte);
            try { if (pass == 0) M.propagate(s.get()); else if (pass == 1) M.propagate(s.get(), M.size() - 1, -j.back); else if (pass == 2) M.propagate(s.get(), j.start % std::max(M.size(), (size_t)1), j.max); else M.propagate(s.get()); } catch (std::exception& x) { e = x.what(); }
            Internal I; o += "pass: " + e + "\n"; o += gen::pack(gen::snap(s.get(), true));
        }
        { std::ostringstream t; s->show(t, 3); o += t.str(); }
    } catch (std::exception& e) { Internal I; return "E" + o + "error: " + e.what(); }
    return "S" + o;
}
std::string damage_text(std::string t, const std::string& other, std::string& what)
{
    if (t.empty()) { what = "empty"; return t; }
    unsigned k = draw(12); size_t pos = draw((unsigned)t.size());
    if (draw(2) == 0) { // aim at a line that is not just numbers
        std::vector<size_t> L; size_t p = 0; while (p < t.size()) { size_t q = p; while (q < t.size() && (t[q] == ' ' || t[q] == '\t')) q++; if (q < t.size() && isalpha((unsigned char)t[q])) L.push_back(p); p = t.find('\n', p); if (p == t.npos) break; p++; }
        if (!L.empty()) { size_t b = L[draw(3) ? draw((unsigned)L.size()) : 0], e = t.find('\n', b); if (e == t.npos) e = t.size(); pos = b + draw((unsigned)std::min(e - b, (size_t)300) + 1); if (pos >= t.size()) pos = t.size() - 1; }
    }
    size_t lb = t.rfind('\n', pos); lb = lb == t.npos ? 0 : lb + (lb < pos); size_t le = t.find('\n', pos); if (le == t.npos) le = t.size();
    auto tok = [&](size_t& b, size_t& e) { static const char* SEP = " \t,[]();=\n\r"; b = t.find_first_not_of(SEP, pos); if (b == t.npos) b = pos; e = t.find_first_of(SEP, b); if (e == t.npos) e = t.size(); };
    switch (k) {
    case 0: what = "cut"; t.resize(pos); break;
    case 1: what = "zeros"; { size_t n = std::min((size_t)1 + logdraw(9), t.size() - pos); t.replace(pos, n, std::string(n, '\0')); } break;
    case 2: what = "garbage"; { size_t n = std::min((size_t)1 + logdraw(4), t.size() - pos); for (size_t i = 0; i < n; i++) t[pos + i] = (char)draw(256); } break;
    case 3: what = "line lost"; t.erase(lb, le - lb + 1); break;
    case 4: what = "line repeated"; t.insert(lb, t.substr(lb, le - lb) + "\n"); break;
    case 5: what = "word lost"; { size_t b, e; tok(b, e); t.erase(b, e - b + (e < t.size() && t[e] == ',')); } break;
    case 6: what = "word replaced"; { static const char* W[] = { "x", "nan", "1e999", "-1", "0", "drift", "\"s\"", "[]", "[1]", "AccGap", "EFocus1", "1e300" }; size_t b, e; tok(b, e); t.replace(b, e - b, W[draw(12)]); } break;
    case 7: what = "line cut"; t.erase(pos, le - pos); break;
    case 9: what = "list shortened"; { std::vector<size_t> B; for (size_t i = 0; i < t.size(); i++) if (t[i] == '[') B.push_back(i); if (B.empty()) { t.resize(pos); break; } size_t b = B[draw((unsigned)B.size())], e = t.find(']', b); if (e == t.npos) break; std::vector<size_t> C; for (size_t i = b; i < e; i++) if (t[i] == ',') C.push_back(i); unsigned keep = draw(4); if (keep == 0 || C.empty()) { t.erase(b + 1, e - b - 1); break; } size_t c = keep == 1 ? C[0] : keep == 2 ? C.back() : C[draw((unsigned)C.size())]; t.erase(c, e - c); } break;
    case 10: what = "only the beginning left"; { size_t p = 0; for (unsigned n = draw(5); n && p < t.size(); n--) { p = t.find('\n', p); if (p == t.npos) p = t.size(); else p++; } t.resize(p); } break;
    case 11: what = "columns lost"; { unsigned keep = draw(3); std::string r; std::istringstream in(t); std::string l; while (std::getline(in, l)) { std::istringstream w(l); std::string x, o; for (unsigned n = 0; n <= keep && w >> x; n++) o += (n ? " " : "") + x; r += o + "\n"; } t = r; } break;
    default: what = "mixed with another file"; { size_t n = 1 + logdraw(12); if (!other.empty()) { size_t q = draw((unsigned)other.size()); t.replace(pos, std::min(n, t.size() - pos), other.substr(q, n)); } } break;
    }
    return t;
}
Config damage_conf(const Config& c, std::string& what)
{
    std::vector<std::string> keys; for (Config::const_iterator it = c.begin(); it != c.end(); ++it) if (it->first != "name" && it->first != "elements" && it->first != "step" && it->first != "Eng_Data_Dir") keys.push_back(it->first);
    if (keys.empty()) { what = "nothing"; return c; }
    if (draw(6) == 5) { // something nobody asked for
        static const char* N[] = { "cstate", "cstate", "cstate", "IonZ", "IonQ", "IonEs", "IonEk", "SampleFreq", "MpoleLevel", "EmitGrowth", "HdipoleFitMode", "syncflag", "Rm", "roll", "pitch", "dx", "ver", "scl_fac", "skipcache", "forcettfcalc", "charge_model", "vector_variable", "matrix_variable", "initial", "IonChargeStates", "NCharge", "Stripper_Para", "Stripper_E0Para", "scl_fac0", "CurveFile", "B", "B2", "V", "radius" };
        Config r(c); std::string n = N[draw(34)]; unsigned z = draw(8); what = n + " added";
        if (z == 7) r.set<std::string>(n, "x"); else if (z == 6) r.set<dvec>(n, dvec(draw(4), 0.5)); else r.set<double>(n, draw(10) == 9 ? -1.5 : (double)draw(6));
        return r;
    }
    if (draw(8) == 7) { dvec q, n; if (c.tryGet<dvec>("IonChargeStates", q) && c.tryGet<dvec>("NCharge", n)) { Config r(c); unsigned k = draw(8); q.resize(k, 0.2); n.resize(k, 1.0); r.set<dvec>("IonChargeStates", q); r.set<dvec>("NCharge", n); what = std::to_string(k) + " charge states"; return r; } }
    std::string k = keys[draw((unsigned)keys.size())]; Config r; unsigned how = draw(12);
    for (Config::const_iterator it = c.begin(); it != c.end(); ++it) {
        if (it->first != k) { r.setAny(it->first, it->second); continue; }
        if (how == 0) { what = k + " removed"; continue; }
        if (how == 1) { what = k + " is text"; r.set<std::string>(k, draw(2) ? "" : "nosuch"); continue; }
        if (const double* d = boost::get<double>(&it->second)) {
            static const double V[] = { 0.0, -1.0, 1e300, -1e300, 0.5, 3.0, 1e-300, 1.0, 2.0, 4.0, 5.0 }; unsigned z = draw(14);
            if (how == 2) { what = k + " is a vector"; r.set<dvec>(k, dvec(draw(3), 1.0)); continue; }
            double v = z < 11 ? V[z] : z == 11 ? NAN : z == 12 ? INFINITY : -*d; std::ostringstream w; w << k << " is " << v; what = w.str(); r.set<double>(k, v);
        } else if (const dvec* v = boost::get<dvec>(&it->second)) {
            dvec n(*v); switch (draw(7)) { case 0: n.clear(); break; case 1: if (!n.empty()) n.pop_back(); break; case 2: n.resize(std::min(n.size(), (size_t)1)); break; case 3: n.push_back(1.0); break; case 4: n.resize(n.size() + 60, 0.5); break; case 5: if (!n.empty()) n[draw((unsigned)n.size())] = NAN; break; default: if (!n.empty()) n.resize(draw((unsigned)n.size())); }
            if (how == 2) { what = k + " is a number"; r.set<double>(k, 1.0); continue; }
            what = k + " has " + std::to_string(n.size()) + " values"; r.set<dvec>(k, n);
        } else if (how < 6) { what = k + " is a number"; r.set<double>(k, draw(4) - 1.0); }
        else { what = k + " is something else"; static const char* W[] = { "", "Generic", "0.041QWR", "0.53HWR", "off", "x/y", "drift", "rfcavity" }; r.set<std::string>(k, W[draw(8)]); }
    }
    return r;
}
std::string head(const std::string& r) { size_t p = r.rfind("error: "); return r[0] == 'E' && p != r.npos ? r.substr(p, 160) : r[0] == 'S' ? "built" : r.substr(0, 80); }
}

WORKLOAD(c17, "damaged descriptions")
{
    gen::setup_data(); std::string dd = scratch() + "/data"; std::vector<std::string> K; for (auto k : { "41", "85", "29", "53" }) K.push_back(k); gen::copy_data(dd, 1000, K); gen::datadir = dd;
    Job j; int kind = gen::random_kind(90); unsigned fl = gen::F_ALL & ~(draw(2) ? gen::F_STRIPPER : 0); Config healthy = gen::machine(kind, 1 + draw(4), fl, chance(3, 4)); j.has_beam = kind == 0 && chance(1, 2); if (j.has_beam) j.beam = gen::moment_beam();
    j.start = (int)draw(5); j.max = 1 + (int)draw(5); j.back = 1 + (int)draw(5); j.dir = dd; j.parse = false;
    // a machine in this process, which nothing below may influence
    std::string before = isolated([&] { Job h = j; h.conf = healthy; return run(h, 0x41); });
    std::vector<std::string> files; for (auto& k : K) { files.push_back("axisData_" + k + ".txt"); files.push_back("Multipole" + k + "/thinlenlon_" + k + ".txt"); files.push_back("Multipole" + k + "/CaviMlp_" + k + ".txt"); files.push_back("thinlenlon_" + k + ".lat"); files.push_back("thinlenlon_" + k + "_p.lat"); } files.push_back("curve_sample.lat");
    // those in use
    std::vector<std::string> used; { std::string all = gen::cfg_str(healthy); static const char* CT[] = { "0.041QWR", "0.085QWR", "0.29HWR", "0.53HWR" }; for (size_t i = 0; i < 4; i++) { if (all.find(CT[i]) != all.npos) for (int q = 0; q < 3; q++) used.push_back(files[i * 5 + q]); for (int q = 3; q < 5; q++) if (all.find(files[i * 5 + q]) != all.npos) used.push_back(files[i * 5 + q]); } if (all.find("curve_sample") != all.npos) { used.push_back(files.back()); } }
    uint32_t ops = 0; int64_t t = 2000;
    while (more(5, ops, tier() ? 14 : 6)) {
        Op op; Job d = j; d.conf = healthy; std::string what, file; unsigned k = draw(used.empty() ? 6 : 12);
        std::string saved;
        if (k >= 6) { file = used[draw((unsigned)used.size())]; saved = io::get(dd + "/" + file); std::string bad = saved; for (unsigned n = 1 + draw(2); n; n--) bad = damage_text(bad, io::get(dd + "/" + files[draw((unsigned)files.size())]), what); io::put(dd + "/" + file, bad, ++t); what = file + ": " + what; }
        else if (k >= 4) { Internal I; std::ostringstream s; GLPSPrint(s, healthy); d.text = damage_text(s.str(), std::string(), what); d.parse = true; what = "lattice: " + what; }
        else { // parameters
            Config::vector_t es = healthy.get<Config::vector_t>("elements");
            if (d.has_beam && draw(4) == 3) { d.beam = damage_conf(j.beam, what); what = "beam: " + what; }
            else { for (unsigned n = 1 + draw(2); n; n--) { size_t i = draw((unsigned)es.size()); std::string w; es[i] = damage_conf(es[i], w); what += es[i].get<std::string>("name") + ": " + w + " "; } Config top(healthy); top.set<Config::vector_t>("elements", es); if (draw(4) == 3) { std::string w; Config e2 = damage_conf(top, w); e2.set<Config::vector_t>("elements", es); what = "machine: " + w; top = e2; } d.conf = top; }
        }
        log("damage %s", what.c_str());
        std::string a = isolated([&] { return run(d, 0x41); }), b = isolated([&] { return run(d, 0xBE); });
        log("-> %s", head(a).c_str());
        if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; violate("garbage", "%s: the outcome depends on the previous content of memory: '%s' or '%s' (byte %zu)", what.c_str(), head(a).c_str(), head(b).c_str(), i); }
        count(a[0] == 'S' ? "op.accepted" : "op.refused"); std::string cn = "fault.damaged-" + std::string(k >= 6 ? "data" : k >= 4 ? "lattice" : "parameter"); count(cn.c_str());
        // in this process, too; and what is not damaged still works here
        std::string c = run(d, 0xBE); if (c != a) violate("history-dependent", "%s: after earlier damaged descriptions the outcome is '%s' instead of '%s'", what.c_str(), head(c).c_str(), head(a).c_str());
        if (!file.empty()) { io::put(dd + "/" + file, saved, ++t); }
        Job h = j; h.conf = healthy; std::string now = run(h, 0xBE); if (now != before) violate("history-dependent", "after '%s' an undamaged machine gives '%s' instead of '%s'", what.c_str(), head(now).c_str(), head(before).c_str());
        reach(hashstr(head(a), hashstr(what.substr(what.find(':') == what.npos ? 0 : what.find(':')))));
    }
}
