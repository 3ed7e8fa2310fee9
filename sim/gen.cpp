#include <iomanip>
#include <map>
#include "gen.h"
extern void registerLinear();
extern void registerMoment();
#include <flame/moment.h>
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sstream>
#include <set>
using namespace sim;
namespace gen {
std::string datadir;
void setup_data() { static bool once; if (!once) { once = true; Internal I; registerLinear(); registerMoment(); }
    set_datadir(); }
void set_datadir() {
    const char* d = getenv("SIM_DATA"); datadir = d ? d : "/verif/data"; }

void set_m(Config& c, const char* k, double v) { c.set<double>(k, v); }

static const char* CAVT[] = { "0.041QWR", "0.085QWR", "0.29HWR", "0.53HWR" };
static const char* CAVN[] = { "41", "85", "29", "53" };

void copy_data(const std::string& dst, int64_t mt, const std::vector<std::string>& cavs)
{
    Internal I;
    mkdir(dst.c_str(), 0755);
    for (size_t i = 0; i < cavs.size(); i++) {
        const std::string& n = cavs[i];
        io::put(dst + "/axisData_" + n + ".txt", io::get(datadir + "/axisData_" + n + ".txt"), mt);
        mkdir((dst + "/Multipole" + n).c_str(), 0755);
        io::put(dst + "/Multipole" + n + "/thinlenlon_" + n + ".txt", io::get(datadir + "/Multipole" + n + "/thinlenlon_" + n + ".txt"), mt);
        io::put(dst + "/Multipole" + n + "/CaviMlp_" + n + ".txt", io::get(datadir + "/Multipole" + n + "/CaviMlp_" + n + ".txt"), mt);
        io::put(dst + "/thinlenlon_" + n + ".lat", io::get(datadir + "/thinlenlon_" + n + ".lat"), mt);
        io::put(dst + "/thinlenlon_" + n + "_p.lat", io::get(datadir + "/thinlenlon_" + n + "_p.lat"), mt);
    }
    io::put(dst + "/curve_sample.lat", io::get(datadir + "/curve_sample.lat"), mt);
}

static double uni(double lo, double hi) { return lo + (hi - lo) * (draw(1001) / 1000.0); }
static double sgn() { return draw(2) ? -1.0 : 1.0; }

static std::vector<double> S0()
{
    static const double d[49] = {
  2.76309450173216,     -0.000428247336601120,  0.0158178569170548,    2.15594190999033e-05,  0.000186380506020608, -2.99394486972954e-05, 0.0,
 -0.000428247336601120,  3.84946606786835e-06, -1.38385440065569e-06, -1.85409877831153e-08,  1.06777952235670e-07,  5.28564015969982e-09, 0.0,
  0.0158178569170548,   -1.38385440065569e-06,  2.36251225995801,     -0.000669320459982719, -0.000580099938581586,  6.71651534058884e-06, 0.0,
  2.15594190999033e-05, -1.85409877831153e-08, -0.000669320459982719,  4.89711389179344e-06, -5.01614882231616e-07,  5.57484221804692e-08, 0.0,
  0.000186380506020608,  1.06777952235670e-07, -0.000580099938581586, -5.01614882231616e-07,  0.000671687184532941, -1.23223341528590e-05, 0.0,
 -2.99394486972954e-05,  5.28564015969982e-09,  6.71651534058884e-06,  5.57484221804692e-08, -1.23223341528590e-05,  1.99524668993273e-06, 0.0,
  0.0,                   0.0,                   0.0,                   0.0,                   0.0,                   0.0,                  0.0 };
    return std::vector<double>(d, d + 49);
}

Config moment_beam()
{
    Config c;
    static const double EK[] = { 0.5e6, 0.505e6, 3e6, 16.623e6, 20e6, 100e6 };
    double Ek = EK[draw(6)];
    c.set<double>("IonEs", draw(8) == 7 ? 938.272e6 : 931.49432e6);
    c.set<double>("IonEk", Ek);
    if (draw(6) == 5) c.set<double>("SampleFreq", draw(2) ? 161.0e6 : 80.5e6);
    unsigned n = 1 + draw(4); if (draw(24) == 23) n = 5 + draw(9); // charge states
    std::vector<double> ics, nchg;
    for (unsigned i = 0; i < n; i++) { ics.push_back((33.0 + i + draw(2) * 5) / 238.0); nchg.push_back(1000.0 + 500 * i + draw(3)); }
    c.set<std::vector<double> >("IonChargeStates", ics);
    c.set<std::vector<double> >("NCharge", nchg);
    if (draw(4) == 3) c.set<double>("IonZ", (33.5) / 238.0);
    const char *vn = "moment0", *mn = "initial";
    if (draw(8) == 7) { vn = "X"; mn = "S"; c.set<std::string>("vector_variable", vn); c.set<std::string>("matrix_variable", mn); }
    if (draw(8) == 7) c.set<double>("cstate", draw(n)); // one of them
    for (unsigned i = 0; i < n; i++) {
        char b[32];
        std::vector<double> m0(7, 0.0); m0[6] = 1.0;
        m0[0] = uni(0, 0.5) * sgn(); m0[1] = uni(0, 1e-4); m0[2] = uni(0, 0.5); m0[3] = uni(0, 1e-4) * sgn(); m0[4] = uni(0, 0.02); m0[5] = uni(0, 2e-3);
        snprintf(b, sizeof b, "%s%u", vn, i); c.set<std::vector<double> >(b, m0);
        std::vector<double> m1 = S0(); double f = 1.0 + 0.25 * draw(4); for (size_t k = 0; k < m1.size(); k++) m1[k] *= f;
        snprintf(b, sizeof b, "%s%u", mn, i); c.set<std::vector<double> >(b, m1);
    }
    return c;
}

const std::vector<std::string>& moment_types()
{
    static const char* T[] = { "drift", "marker", "bpm", "quadrupole", "solenoid", "orbtrim", "sbend", "edipole", "equad", "tmatrix", "rfcavity", "sextupole", "stripper" };
    static std::vector<std::string> v(T, T + 13); return v;
}

static void misalign(Config& c)
{
    if (draw(3) != 2) return;
    if (draw(2)) c.set<double>("dx", uni(0, 2e-3) * sgn());
    if (draw(2)) c.set<double>("dy", uni(0, 2e-3));
    if (draw(3) == 2) c.set<double>("pitch", uni(0, 5e-3));
    if (draw(3) == 2) c.set<double>("yaw", uni(0, 5e-3) * sgn());
    if (draw(3) == 2) c.set<double>("roll", uni(0, 2e-2));
}

static void curves(Config& c, unsigned flags, double scale)
{
    unsigned n = 1 + draw(3); char b[32];
    c.set<double>("ncurve", n);
    bool file = (flags & F_CURVEFILE) && draw(2);
    if (file) { c.set<std::string>("CurveFile", "curve_sample.lat"); c.set<std::string>("Eng_Data_Dir", datadir); }
    unsigned len = 3 + draw(3);
    for (unsigned i = 0; i < n; i++) {
        if (!file) { std::vector<double> v; for (unsigned k = 0; k < len; k++) v.push_back(uni(0, 1)); snprintf(b, sizeof b, "curve%u", i); c.set<std::vector<double> >(b, v); }
        snprintf(b, sizeof b, "scl_fac%u", i); c.set<double>(b, uni(0.1, 1) * scale);
    }
    if (file && draw(3) == 2) { std::vector<double> r; r.push_back(draw(2)); r.push_back(3 + draw(2)); c.set<std::vector<double> >("use_range", r); }
}

Config moment_element_type(const std::string& type, const std::string& name, unsigned flags)
{
    Config c; c.set<std::string>("type", type); c.set<std::string>("name", name);
    if (draw(12) == 11) c.set<double>("skipcache", 1.0);
    if (type == "drift") c.set<double>("L", uni(0.01, 1));
    else if (type == "marker" || type == "bpm") { if (draw(4) == 3) c.set<double>("L", 0.1); }
    else if (type == "quadrupole") {
        c.set<double>("L", uni(0.05, 0.4));
        if (draw(4) == 3) curves(c, flags, 8.0); else c.set<double>("B2", uni(0, 15) * sgn());
        misalign(c);
    } else if (type == "solenoid") {
        c.set<double>("L", uni(0.05, 0.4));
        if (draw(4) == 3) curves(c, flags, 4.0); else c.set<double>("B", uni(0.5, 7) * sgn());
        misalign(c);
    } else if (type == "equad") {
        c.set<double>("L", uni(0.05, 0.3));
        if (draw(4) == 3) curves(c, flags, 1e5); else { c.set<double>("V", uni(100, 3000) * sgn()); c.set<double>("radius", uni(0.05, 0.1)); }
        misalign(c);
    } else if (type == "orbtrim") {
        if (draw(3) == 2) { c.set<double>("realpara", 1.0); c.set<double>("tm_xkick", uni(0, 1e-3)); c.set<double>("tm_ykick", uni(0, 1e-3)); }
        else { c.set<double>("theta_x", uni(0, 1e-3)); c.set<double>("theta_y", uni(0, 1e-3) * sgn()); }
        if (draw(3) == 2) c.set<double>("xyrotate", uni(0, 45));
        misalign(c);
    } else if (type == "sbend") {
        c.set<double>("L", uni(0.1, 0.6)); c.set<double>("phi", uni(2, 20) * sgn()); c.set<double>("phi1", uni(0, 7)); c.set<double>("phi2", uni(0, 7));
        if (draw(3) == 2) c.set<double>("K", uni(0, 1));
        if (draw(2)) { if (draw(2)) c.set<double>("HdipoleFitMode", 0.0); else c.set<std::string>("HdipoleFitMode", "0"); c.set<double>("bg", uni(0.03, 0.2)); }
        misalign(c);
    } else if (type == "edipole") {
        c.set<double>("L", uni(0.1, 0.6)); c.set<double>("phi", uni(5, 40)); c.set<double>("ver", draw(2)); c.set<double>("spher", draw(2));
        if (draw(2)) { c.set<double>("fringe_x", uni(0, 0.5)); c.set<double>("fringe_y", uni(0, 0.5)); c.set<double>("asym_fac", uni(0, 0.1)); }
        if (draw(2)) { c.set<double>("HdipoleFitMode", 0.0); c.set<double>("beta", uni(0.02, 0.05)); }
        misalign(c);
    } else if (type == "tmatrix") {
        std::vector<double> m(49, 0.0); for (int i = 0; i < 7; i++) m[i * 8] = 1.0;
        m[1] = uni(0, 1); m[2 * 7 + 3] = uni(0, 1); m[4 * 7 + 5] = uni(0, 1); m[6] = uni(0, 0.1);
        c.set<std::vector<double> >("matrix", m);
        if (draw(2)) c.set<double>("L", uni(0, 1));
    } else if (type == "sextupole") {
        c.set<double>("L", uni(0.05, 0.3)); c.set<double>("B3", uni(0, 10));
        if (draw(2)) c.set<double>("step", 1 + draw(4));
        if (draw(2)) c.set<double>("thinlens", draw(2));
        if (draw(2)) c.set<double>("dstkick", draw(2));
        misalign(c);
    } else if (type == "stripper") {
        unsigned n = 1 + draw(5); if (draw(16) == 15) n = 6 + draw(9); std::vector<double> a, q;
        for (unsigned i = 0; i < n; i++) { a.push_back((76.0 + i) / 238.0); q.push_back(2000 + 100 * draw(20)); }
        c.set<std::vector<double> >("IonChargeStates", a); c.set<std::vector<double> >("NCharge", q);
        if (draw(2)) c.set<std::string>("charge_model", draw(2) ? "off" : "baron");
        if (draw(2)) c.set<double>("Stripper_IonZ", 77.0 / 238.0);
        if (draw(3) == 2) c.set<double>("Stripper_E1Para", uni(2e-3, 3e-3));
        if (draw(3) == 2) c.set<double>("Stripper_lambda", uni(5, 6));
        if (draw(4) == 3) c.set<double>("Stripper_IonMass", 238.0 - draw(3));
        if (draw(4) == 3) c.set<double>("Stripper_IonProton", 92.0 - draw(3));
        if (draw(4) == 3) c.set<double>("Stripper_upara", 2.0 + draw(3) * 0.5);
        if (draw(3) == 2) { std::vector<double> p; p.push_back(3.0); p.push_back(10.0 + draw(10)); p.push_back(16.6e6); c.set<std::vector<double> >("Stripper_Para", p); }
        if (draw(3) == 2) { std::vector<double> p; p.push_back(16.0e6 + draw(5) * 1e4); p.push_back(1.00547); p.push_back(-0.10681); c.set<std::vector<double> >("Stripper_E0Para", p); }
    } else if (type == "rfcavity") {
        unsigned k = draw(4); bool generic = (flags & F_GENERIC) && draw(2);
        c.set<std::string>("Eng_Data_Dir", datadir);
        if (generic) { c.set<std::string>("cavtype", "Generic"); c.set<std::string>("datafile", std::string("thinlenlon_") + CAVN[k] + (draw(2) ? "_p.lat" : ".lat")); }
        else c.set<std::string>("cavtype", CAVT[k]);
        c.set<double>("f", k < 2 ? 80.5e6 : 322e6); c.set<double>("phi", uni(-90, 0)); c.set<double>("scl_fac", uni(0.1, 0.9)); c.set<double>("L", 0.2 + 0.1 * draw(4));
        if (draw(3) == 2) c.set<double>("syncflag", draw(3));
        if (draw(3) == 2) c.set<double>("forcettfcalc", 1.0);
        if (draw(2)) { if (draw(2)) c.set<std::string>("MpoleLevel", draw(2) ? "1" : "0"); else c.set<double>("MpoleLevel", draw(3)); }
        if (draw(2)) { if (draw(2)) c.set<std::string>("EmitGrowth", "1"); else c.set<double>("EmitGrowth", 1.0); }
        if (draw(4) == 3) c.set<double>("Rm", 15.0 + draw(5));
        misalign(c);
    }
    return c;
}

Config moment_element(const std::string& name, unsigned flags)
{
    const std::vector<std::string>& T = moment_types();
    static int focus = -2; // in some runs half of the elements are of one type
    if (focus == -2) focus = chance(1, 3) ? (int)draw((unsigned)T.size()) : -1;
    for (;;) {
        unsigned k = focus >= 0 && chance(1, 2) ? (unsigned)focus : draw((unsigned)T.size() + 2); // cavities get extra weight
        std::string t = k >= T.size() ? "rfcavity" : T[k];
        if (t == "stripper" && (int)k == focus && (flags & F_STRIPPER)) return moment_element_type(t, name, flags);
        if (t == "rfcavity" && !(flags & F_CAVITY)) t = "quadrupole";
        if (t == "stripper" && (!(flags & F_STRIPPER) || draw(2))) t = "solenoid";
        if (t == "sextupole" && !(flags & F_SEXT)) t = "drift";
        return moment_element_type(t, name, flags);
    }
}

Config mutate_element(const Config& e, unsigned flags, std::string& what)
{
    std::string type = e.get<std::string>("type"), name = e.get<std::string>("name");
    Config c(e);
    if (type == "source") {
        Config b = moment_beam();
        if (draw(2)) { what = "source-new-beam"; c = b; c.set<std::string>("type", type); c.set<std::string>("name", name); }
        else { what = "source-Ek"; double v = 0; if (c.tryGet<double>("IonEk", v)) c.set<double>("IonEk", v * 1.1); }
        return c;
    }
    unsigned r = draw(4);
    if (r == 0) { // one numeric parameter
        std::vector<std::string> ks;
        for (Config::const_iterator it = e.begin(); it != e.end(); ++it) if (boost::get<double>(&it->second)) ks.push_back(it->first);
        if (!ks.empty()) {
            std::string k = pick(ks); double v = e.get<double>(k);
            static const std::set<std::string> flagsnames = { "skipcache", "ncurve", "realpara", "HdipoleFitMode", "ver", "spher", "step", "thinlens", "dstkick", "syncflag", "forcettfcalc", "MpoleLevel", "EmitGrowth", "f" };
            if (!flagsnames.count(k)) { c.set<double>(k, v == 0 ? 1e-3 : v * (draw(2) ? 1.05 : 0.9)); what = type + "." + k; return c; }
            if (k == "ver" || k == "spher" || k == "thinlens" || k == "dstkick" || k == "forcettfcalc" || k == "EmitGrowth" || k == "skipcache") { c.set<double>(k, v ? 0.0 : 1.0); what = type + "." + k; return c; }
        }
    }
    if (r == 1) { // add / change misalignment
        static const char* K[] = { "dx", "dy", "pitch", "yaw", "roll", "L" };
        const char* k = K[draw(6)]; c.set<double>(k, uni(1e-3, 5e-3) * sgn() + (k[0] == 'L' ? 0.2 : 0)); what = type + "." + k; return c;
    }
    if (r == 2 && type == "rfcavity") {
        Config o = moment_element_type("rfcavity", name, flags);
        what = "rfcavity.cavtype";
        static const char* K[] = { "cavtype", "datafile", "f", "MpoleLevel", "EmitGrowth", "Rm" };
        for (int i = 0; i < 6; i++) { Config::value_t v; if (o.tryGetAny(K[i], v)) c.setAny(K[i], v); }
        return c;
    }
    what = type + ".all";
    return moment_element_type(type, name, flags);
}

Config linear_element(const std::string& name)
{
    static const char* T[] = { "drift", "quadrupole", "solenoid", "sbend", "marker", "generic" };
    Config c; unsigned k = draw(6); c.set<std::string>("type", T[k]); c.set<std::string>("name", name);
    c.set<double>("L", uni(0.1, 1));
    if (k == 1) c.set<double>("K", uni(0, 1) * sgn());
    if (k == 2) c.set<double>("K", uni(0, 1));
    if (k == 3) { c.set<double>("K", uni(0, 1)); c.set<double>("phi", 0.1); }
    if (k == 5) { std::vector<double> m(36, 0.0); for (int i = 0; i < 6; i++) m[i * 7] = 1.0; m[1] = uni(0, 1); c.set<std::vector<double> >("transfer", m); }
    return c;
}

int random_kind(unsigned pct) { return draw(100) < pct ? 0 : 1 + draw(2); }

Config machine(int kind, unsigned n, unsigned flags, bool source)
{
    Config c; char b[32];
    c.set<std::string>("sim_type", kind == 0 ? "MomentMatrix" : kind == 1 ? "Vector" : "TransferMatrix");
    std::vector<Config> E;
    bool scoped = chance(1, 4); // elements inherit definitions of the enclosing scope, as those of a lattice file do
    if (scoped) {
        c.set<std::string>("Eng_Data_Dir", datadir);
        if (draw(2)) c.set<double>("MpoleLevel", draw(3));
        if (draw(2)) c.set<double>("EmitGrowth", draw(2));
        if (draw(3) == 2) c.set<double>("skipcache", draw(2));
        if (draw(3) == 2) c.set<double>("dx", uni(0, 2e-3));
        if (draw(3) == 2) c.set<double>("L", uni(0.1, 0.3));
        if (draw(4) == 3) c.set<double>("syncflag", draw(3));
    }
    if (source) {
        Config s;
        if (kind == 0) s = moment_beam();
        else { std::vector<double> v; for (int i = 0; i < (kind == 1 ? 6 : 36); i++) v.push_back(kind == 1 ? 1e-3 * (1 + draw(9)) : (i % 7 == 0) + 0.0); s.set<std::vector<double> >("initial", v); }
        s.set<std::string>("type", "source"); s.set<std::string>("name", "S");
        E.push_back(s);
    }
    for (unsigned i = 0; i < n; i++) {
        Op op;
        // names may repeat
        snprintf(b, sizeof b, "e%u", draw(4) == 3 && i ? draw(i) : i);
        E.push_back(kind == 0 ? moment_element(b, flags) : linear_element(b));
    }
    if (scoped) for (size_t i = 0; i < E.size(); i++) {
        Config n = c.new_scope(); bool dd = draw(2), mp = draw(2);
        for (Config::const_iterator it = E[i].begin(); it != E[i].end(); ++it) {
            if ((dd && it->first == "Eng_Data_Dir") || (mp && (it->first == "MpoleLevel" || it->first == "EmitGrowth" || it->first == "dx"))) continue; // inherited
            n.setAny(it->first, it->second);
        }
        E[i] = n;
    }
    c.set<std::vector<Config> >("elements", E);
    return c;
}

Snap snap(StateBase* s, bool with_next)
{
    Internal I; Snap R;
    for (unsigned i = 0;; i++) {
        StateBase::ArrayInfo A;
        if (!s->getArray(i, A)) break;
        if (!with_next && !strcmp(A.name, "next_elem")) continue;
        R.names.push_back(A.name); std::vector<double> v;
        size_t d[StateBase::ArrayInfo::maxdims] = { 0 }, lim[3] = { 1, 1, 1 };
        for (unsigned k = 0; k < A.ndim; k++) { lim[k] = A.dim[k]; v.push_back((double)A.dim[k]); }
        for (d[0] = 0; d[0] < lim[0]; d[0]++) for (d[1] = 0; d[1] < lim[1]; d[1]++) for (d[2] = 0; d[2] < lim[2]; d[2]++)
            v.push_back(A.type == StateBase::ArrayInfo::Double ? *(double*)A.raw(d) : (double)*(size_t*)A.raw(d));
        R.vals.push_back(v);
    }
    return R;
}
bool finite(const Snap& a) { for (size_t i = 0; i < a.vals.size(); i++) for (size_t k = 0; k < a.vals[i].size(); k++) if (!std::isfinite(a.vals[i][k])) return false; return true; }

std::string diff(const Snap& a, const Snap& b, double rel, double sc)
{
    Internal I; char buf[256];
    if (a.names != b.names) return "different set of quantities";
    for (size_t i = 0; i < a.names.size(); i++) {
        const std::vector<double>&x = a.vals[i], &y = b.vals[i];
        if (x.size() != y.size()) { snprintf(buf, sizeof buf, "%s: size %zu vs %zu", a.names[i].c_str(), x.size(), y.size()); return buf; }
        double m = 0; for (size_t k = 0; k < x.size(); k++) { if (std::isfinite(x[k])) m = std::max(m, fabs(x[k])); if (std::isfinite(y[k])) m = std::max(m, fabs(y[k])); }
        for (size_t k = 0; k < x.size(); k++) {
            bool nx = std::isnan(x[k]), ny = std::isnan(y[k]);
            if (nx && ny) continue;
            if (x[k] == y[k]) continue;
            if (nx != ny || !(fabs(x[k] - y[k]) <= rel * std::max(fabs(x[k]), fabs(y[k])) + sc * m)) { snprintf(buf, sizeof buf, "%s[%zu]: %.17g vs %.17g", a.names[i].c_str(), k, x[k], y[k]); return buf; }
        }
    }
    return "";
}
bool bit_equal(const Snap& a, const Snap& b, std::string* where)
{
    if (a.names != b.names || a.vals.size() != b.vals.size()) { if (where) *where = "shape"; return false; }
    for (size_t i = 0; i < a.vals.size(); i++) {
        if (a.vals[i].size() != b.vals[i].size() || memcmp(a.vals[i].data(), b.vals[i].data(), a.vals[i].size() * sizeof(double))) { if (where) *where = diff(a, b, 0, 0); return false; }
    }
    return true;
}

std::string perturb(StateBase* s)
{
    static const char* F[] = { "ref_IonEk", "ref_IonEs", "ref_IonZ", "ref_IonQ", "ref_phis", "ref_SampleFreq", "IonEk", "IonEs", "IonZ", "IonQ", "phis", "SampleFreq", "moment0", "moment1", "pos" };
    const char* f = F[draw(15)];
    for (unsigned i = 0;; i++) {
        StateBase::ArrayInfo A;
        if (!s->getArray(i, A)) return "none";
        if (strcmp(A.name, f)) continue;
        size_t d[StateBase::ArrayInfo::maxdims] = { 0 };
        for (unsigned k = 0; k < A.ndim; k++) d[k] = draw((unsigned)A.dim[k]);
        double* p = (double*)A.raw(d);
        if (chance(1, 3)) { // a tiny change: still another beam
            static const double R[] = { 1e-4, 1e-6, 1e-8, 1e-10 };
            double r = R[draw(4)];
            if (!strcmp(f, "moment0") && d[0] == 6) return f;
            *p = *p == 0 ? r : *p * (1 + r);
            return std::string(f) + " (tiny)";
        }
        if (!strcmp(f, "ref_SampleFreq") || !strcmp(f, "SampleFreq")) *p = *p == 80.5e6 ? 161e6 : 80.5e6;
        else if (strstr(f, "phis")) *p += 0.25 * (1 + draw(3));
        else if (!strcmp(f, "moment0")) { if (d[0] != 6) *p += 1e-4; }
        else if (!strcmp(f, "moment1")) { *p *= 1.5; }
        else if (strstr(f, "IonEs")) *p *= 1.001;
        else *p = *p == 0 ? 1.0 : *p * (1 + 0.01 * (1 + draw(3)));
        return f;
    }
}

namespace {
struct V : public boost::static_visitor<void> {
    std::ostream& o; V(std::ostream& s) : o(s) {}
    void operator()(double v) const { char b[40]; snprintf(b, sizeof b, "%.17g", v); o << b; }
    void operator()(const std::string& v) const { o << '"' << v << '"'; }
    void operator()(const std::vector<double>& v) const { o << '['; for (size_t i = 0; i < v.size(); i++) { (*this)(v[i]); o << ','; } o << ']'; }
    void operator()(const std::vector<Config>& v) const { o << '{'; for (size_t i = 0; i < v.size(); i++) o << cfg_str(v[i]) << ';'; o << '}'; }
};
}
std::string cfg_str(const Config& c)
{
    Internal I; std::ostringstream o;
    for (Config::const_iterator it = c.begin(); it != c.end(); ++it) { o << it->first << '='; boost::apply_visitor(V(o), it->second); o << ' '; }
    return o.str();
}

void pack_num(std::string& o, uint64_t v) { o.append((const char*)&v, 8); }
void pack_str(std::string& o, const std::string& v) { pack_num(o, v.size()); o += v; }
uint64_t unpack_num(const std::string& s, size_t& p) { uint64_t v; if (p + 8 > s.size()) broken("unpack"); memcpy(&v, s.data() + p, 8); p += 8; return v; }
std::string unpack_str(const std::string& s, size_t& p) { size_t n = unpack_num(s, p); if (p + n > s.size()) broken("unpack"); p += n; return s.substr(p - n, n); }
static void pack_vec(std::string& o, const std::vector<double>& v) { pack_num(o, v.size()); o.append((const char*)v.data(), 8 * v.size()); }
static std::vector<double> unpack_vec(const std::string& s, size_t& p) { size_t n = unpack_num(s, p); if (p + 8 * n > s.size()) broken("unpack"); std::vector<double> v(n); memcpy(v.data(), s.data() + p, 8 * n); p += 8 * n; return v; }
std::string pack(const Config& c_)
{
    Internal I; std::string o; uint64_t n = 0; Config c(c_); c.flatten();
    for (Config::const_iterator it = c.begin(); it != c.end(); ++it) n++;
    pack_num(o, n);
    for (Config::const_iterator it = c.begin(); it != c.end(); ++it) {
        pack_str(o, it->first); pack_num(o, it->second.which());
        if (const double* d = boost::get<double>(&it->second)) o.append((const char*)d, 8);
        else if (const std::string* t = boost::get<std::string>(&it->second)) pack_str(o, *t);
        else if (const std::vector<double>* v = boost::get<std::vector<double> >(&it->second)) pack_vec(o, *v);
        else { const std::vector<Config>& e = boost::get<std::vector<Config> >(it->second); pack_num(o, e.size()); for (size_t i = 0; i < e.size(); i++) o += pack(e[i]); }
    }
    return o;
}
Config unpack(const std::string& s, size_t& p)
{
    Config c; uint64_t n = unpack_num(s, p);
    static const int WD = Config::value_t(0.0).which(), WS = Config::value_t(std::string()).which(), WV = Config::value_t(std::vector<double>()).which();
    while (n--) {
        std::string k = unpack_str(s, p); int w = (int)unpack_num(s, p);
        if (w == WD) { double d; memcpy(&d, s.data() + p, 8); p += 8; c.set<double>(k, d); }
        else if (w == WS) c.set<std::string>(k, unpack_str(s, p));
        else if (w == WV) c.set<std::vector<double> >(k, unpack_vec(s, p));
        else { std::vector<Config> e(unpack_num(s, p)); for (size_t i = 0; i < e.size(); i++) e[i] = unpack(s, p); c.set<std::vector<Config> >(k, e); }
    }
    return c;
}
std::string pack(const Snap& s)
{
    std::string o; pack_num(o, s.names.size());
    for (size_t i = 0; i < s.names.size(); i++) { pack_str(o, s.names[i]); pack_vec(o, s.vals[i]); }
    return o;
}
Snap unpack_snap(const std::string& s) { Snap r; size_t p = 0; for (uint64_t n = unpack_num(s, p); n; n--) { r.names.push_back(unpack_str(s, p)); r.vals.push_back(unpack_vec(s, p)); } return r; }
std::string cfg_full(const Config& c) { Internal I; Config f(c); f.flatten(); return cfg_str(f); }
// quantities by the array interface; of a moment state also what that does not show (the particles)
std::string pack(StateBase* s)
{
    Internal I; std::string o; MomentState* m = dynamic_cast<MomentState*>(s);
    pack_num(o, m ? m->real.size() : 0);
    if (m) { o.append((const char*)&m->ref, sizeof m->ref); for (size_t i = 0; i < m->real.size(); i++) o.append((const char*)&m->real[i], sizeof m->real[i]); }
    return o + pack(snap(s, true));
}
StateBase* unpack_state(Machine& M, const std::string& s)
{
    size_t p = 0, n = unpack_num(s, p); Config c;
    if (n) {
        c.set<std::vector<double> >("IonChargeStates", std::vector<double>(n, 0.1)); c.set<std::vector<double> >("NCharge", std::vector<double>(n, 1.0));
        c.set<double>("IonEs", 1e9); c.set<double>("IonEk", 1e6);
        for (size_t i = 0; i < n; i++) { c.set<std::vector<double> >("moment0" + std::to_string(i), std::vector<double>(7, 0.0)); c.set<std::vector<double> >("initial" + std::to_string(i), std::vector<double>(49, 0.0)); }
    }
    std::unique_ptr<StateBase> r(M.allocState(c)); MomentState* m = dynamic_cast<MomentState*>(r.get());
    if (m && n) { memcpy((void*)&m->ref, s.data() + p, sizeof m->ref); p += sizeof m->ref; for (size_t i = 0; i < n; i++) { memcpy((void*)&m->real[i], s.data() + p, sizeof m->real[i]); p += sizeof m->real[i]; } }
    Snap z = unpack_snap(s.substr(p));
    for (unsigned i = 0; i < z.names.size(); i++) {
        StateBase::ArrayInfo A; bool ok = false;
        for (unsigned j = 0; !ok && r->getArray(j, A); j++) ok = z.names[i] == A.name;
        if (!ok) broken("unpack_state: no %s", z.names[i].c_str());
        size_t d[StateBase::ArrayInfo::maxdims] = { 0 }, lim[3] = { 1, 1, 1 }, q = 0;
        for (unsigned k = 0; k < A.ndim; k++) { lim[k] = A.dim[k]; q++; }
        for (d[0] = 0; d[0] < lim[0]; d[0]++) for (d[1] = 0; d[1] < lim[1]; d[1]++) for (d[2] = 0; d[2] < lim[2]; d[2]++, q++) {
            double v = z.vals[i].at(q); if (A.type == StateBase::ArrayInfo::Double) *(double*)A.raw(d) = v; else *(size_t*)A.raw(d) = (size_t)v;
        }
    }
    std::string w; if (!bit_equal(z, snap(r.get(), true), &w)) broken("unpack_state: %s", w.c_str());
    return r.release();
}

namespace { struct NullLog : public Machine::Logger { void log(const Machine::LogRecord& r) { std::string s(r.strm.str()); (void)s; } }; }
Chatter::Chatter() : on(sim::chance(1, 5)), cout0(0) { if (on) cout0 = std::cout.rdbuf(out.rdbuf()); }
Chatter::~Chatter() { if (on) { Machine::log_detail = FLAME_WARN; boost::shared_ptr<Machine::Logger> none; Machine::set_logger(none); std::cout.rdbuf(cout0); } }
void Chatter::turn(Machine* M)
{
    if (!on || sim::draw(3)) return; out.str("");
    static const int LV[] = { FLAME_WARN, FLAME_INFO, FLAME_DEBUG, FLAME_FINE }; unsigned l = sim::draw(4), t = sim::draw(2);
    boost::shared_ptr<Machine::Logger> L(new NullLog); Machine::set_logger(L); Machine::log_detail = LV[l]; if (M) M->set_trace(t ? &out : 0); sim::count("op.chatter"); sim::log("logging level %u, trace %s", l, t ? "on" : "off");
}

std::string render(StateBase* s, int level) { Internal I; std::ostringstream o; render(o, s, level); return o.str(); }
void render(std::ostream& o, StateBase* s, int level)
{
    Internal I; std::map<std::string, StateBase::ArrayInfo> q;
    for (unsigned i = 0;; i++) { StateBase::ArrayInfo A; if (!s->getArray(i, A)) break; q[A.name] = A; }
    auto at = [&](const char* n, size_t a = 0, size_t b = 0, size_t c = 0) { size_t d[3] = { a, b, c }; return *(double*)q[n].raw(d); };
    if (q.count("state")) {
        size_t r = q["state"].dim[0], c = q["state"].ndim > 1 ? q["state"].dim[1] : 0; o << "State: [" << r;
        if (!c) { o << "]("; for (size_t i = 0; i < r; i++) o << (i ? "," : "") << at("state", i); o << ")\n"; }
        else { o << "," << c << "]("; for (size_t i = 0; i < r; i++) { o << (i ? ",(" : "("); for (size_t j = 0; j < c; j++) o << (j ? "," : "") << at("state", i, j); o << ")"; } o << ")\n"; }
        return;
    }
    size_t n = q["IonZ"].dim[0];
    auto vec = [&](std::ostream& o, const char* nm, size_t k) { o << "[7]("; for (size_t i = 0; i < 7; i++) o << (i ? "," : "") << at(nm, i, k); o << ")"; };
    auto part = [&](bool ref, size_t k) {
        static const char* F[] = { "IonZ", "IonQ", "IonEs", "IonEk", "SampleIonK", "phis", "IonW", "gamma", "beta", "bg" };
        for (int f = 0; f < 10; f++) { std::string nm = (ref ? "ref_" : "") + std::string(F[f]); o << (f ? " " : "") << F[f] << "="; if (!f) o << std::scientific << std::setprecision(10); o << (ref ? at(nm.c_str()) : at(nm.c_str(), k)); }
    };
    if (level <= 0) { o << "State: moment0 mean="; vec(o, "moment0_env", 0); return; }
    o << std::scientific << std::setprecision(8) << "\nState:\n  energy [eV] =\n" << std::setw(20) << at("IonEk", 0) << "\n  moment0 mean =\n    " << std::setprecision(10);
    for (size_t i = 0; i < 7; i++) o << std::setw(18) << at("moment0_env", i) << ",";
    o << "\n  moment0 rms =\n    "; for (size_t i = 0; i < 7; i++) o << std::setw(18) << at("moment0_rms", i) << ",";
    o << "\n  moment1 mean =\n"; for (size_t i = 0; i < 7; i++) { o << "    "; for (size_t j = 0; j < 7; j++) o << std::setw(18) << at("moment1_env", i, j) << ","; if (i < 6) o << "\n"; }
    if (level >= 2) {
        o << "\n  Reference state:\n    "; part(true, 0); o << "\n";
        for (size_t k = 0; k < n; k++) {
            o << "  Charge state " << k << "\n    "; part(false, k); o << "\n    moment0 "; vec(o, "moment0", k); o << "\n";
            if (level >= 3) { o << "    moment1 [7,7]("; for (size_t i = 0; i < 7; i++) { o << (i ? ",(" : "("); for (size_t j = 0; j < 7; j++) o << (j ? "," : "") << at("moment1", i, j, k); o << ")"; } o << ")\n"; }
        }
    }
}
}
