// C06: cached data files always reflect the file on disk.
#include "gen.h"
#include <flame/util.h>
#include <string.h>
#include <errno.h>
#include <stdexcept>
#include <set>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace sim;

namespace {
enum What { GOOD, BAD, MISSING };
struct Version { What what; std::string text; int64_t mtime; uint64_t since; std::vector<double> vals; size_t rows, cols; std::vector<std::string> heads; double key; };
enum Kind { TABLE, CURVE, CAVITY };
struct File { Kind kind; std::string path; std::vector<Version> hist; };
struct Handed { numeric_table_cache::table_pointer t; const File* f; size_t ver; };
struct World {
    std::vector<File> files; std::set<int64_t> *used; std::vector<Handed> out; bool threaded; uint64_t faults; // number of injected faults so far
    std::vector<std::string> cavlat; int nested;
};
World* G;

int64_t fresh_time()
{
    for (;;) { int64_t t = 1400000000 + (int64_t)draw(400) * (draw(2) ? 1 : 86400); if (G->used->insert(t).second) return t; }
}

Version make(File& f)
{
    Version v; v.mtime = fresh_time(); v.rows = v.cols = 0; v.key = 0;
    unsigned k = draw(8);
    v.what = k == 7 ? MISSING : k == 6 ? BAD : GOOD;
    if (f.hist.empty() && v.what == MISSING && draw(2)) v.what = GOOD;
    std::ostringstream o;
    if (f.kind == TABLE) {
        v.rows = 1 + draw(6); v.cols = 1 + draw(4); bool crlf = chance(1, 6); const char* nl = crlf ? "\r\n" : "\n";
        if (chance(1, 2)) { o << "%"; for (size_t c = 0; c < v.cols; c++) { std::string h = std::string(1, 'a' + draw(5)) + std::to_string(c); v.heads.push_back(h); o << " " << h; } o << nl; }
        if (v.what == GOOD && chance(1, 10)) v.rows = 0;
        double base = draw(1000) + 1;
        for (size_t r = 0; r < v.rows; r++) { for (size_t c = 0; c < v.cols; c++) { double x = base + r * 0.25 + c * 16; v.vals.push_back(x); o << (c ? " " : "") << x; } o << nl; if (!crlf && chance(1, 8)) o << nl; }
        if (!v.rows) v.cols = 0;
        if (v.what == BAD) { if (draw(2)) o << "1 2 bogus" << nl; else { o << "1"; for (size_t c = 0; c < v.cols; c++) o << " 2"; o << nl; } }
    } else if (f.kind == CURVE) {
        unsigned n = 3 + draw(3); double s = 0.125 * (1 + draw(50)); o << "curve0 = [";
        for (unsigned i = 0; i < n; i++) { double x = s + 0.125 * i; v.vals.push_back(x); o << (i ? ", " : "") << x; } o << "];\n";
        if (v.what == BAD) o << "curve1 = [1, ;\n";
    } else {
        v.key = draw((unsigned)G->cavlat.size()); o << io::get(gen::datadir + "/" + G->cavlat[(size_t)v.key]);
        if (v.what == BAD) { std::string t = o.str(); o.str(""); o << t.substr(0, t.size() / 2) << " = = ;\n"; }
    }
    v.text = o.str(); return v;
}

void install(File& f, bool inplace_ok)
{
    Internal I;
    Version v = make(f);
    if (v.what == MISSING) unlink(f.path.c_str());
    else { std::string tmp = f.path + ".new"; io::put(tmp, v.text, v.mtime); if (rename(tmp.c_str(), f.path.c_str())) broken("rename"); }
    (void)inplace_ok;
    v.since = sched::seq(); f.hist.push_back(v);
    log("file %s becomes version %zu (%s) mtime %lld", f.path.c_str() + scratch().size(), f.hist.size() - 1, v.what == GOOD ? "good" : v.what == BAD ? "bad" : "missing", (long long)v.mtime);
    count(v.what == GOOD ? "change.good" : v.what == BAD ? "change.bad" : "change.missing");
}
void touch(File& f)
{
    Internal I; Version v = f.hist.back(); if (v.what == MISSING) return;
    v.mtime = fresh_time(); io::set_mtime(f.path, v.mtime); v.since = sched::seq(); f.hist.push_back(v); log("file %s touched, mtime %lld", f.path.c_str() + scratch().size(), (long long)v.mtime); count("change.touch");
}

// versions current at some moment of [t0, t1]
void current(const File& f, uint64_t t0, uint64_t t1, std::vector<size_t>& ok)
{
    for (size_t i = 0; i < f.hist.size(); i++) { uint64_t b = f.hist[i].since, e = i + 1 < f.hist.size() ? f.hist[i + 1].since : ~0ULL; if (b <= t1 && e >= t0) ok.push_back(i); }
}

bool same(const numeric_table& t, const Version& v)
{
    if (v.what != GOOD) return false;
    if (t.table.size1() != v.rows || (v.rows && t.table.size2() != v.cols)) return false;
    for (size_t r = 0; r < v.rows; r++) for (size_t c = 0; c < v.cols; c++) if (t.table(r, c) != v.vals[r * v.cols + c]) return false;
    if (t.colnames.size() != v.heads.size()) return false;
    for (size_t i = 0; i < v.heads.size(); i++) { numeric_table::colnames_t::const_iterator it = t.colnames.find(v.heads[i]); if (it == t.colnames.end() || it->second != i) return false; }
    return true;
}

Config curve_conf(const File& f, const Version* v)
{
    Config E; E.set<std::string>("type", "quadrupole"); E.set<std::string>("name", "q"); E.set<double>("L", 0.3); E.set<double>("ncurve", 1.0); E.set<double>("scl_fac0", 2.0);
    if (v) E.set<std::vector<double> >("curve0", v->vals);
    else { size_t p = f.path.rfind('/'); E.set<std::string>("Eng_Data_Dir", f.path.substr(0, p)); E.set<std::string>("CurveFile", f.path.substr(p + 1)); }
    return E;
}
Config cav_conf(const File& f, const Version* v)
{
    Config E; E.set<std::string>("type", "rfcavity"); E.set<std::string>("name", "c"); E.set<std::string>("cavtype", "Generic"); E.set<double>("f", 80.5e6); E.set<double>("phi", -30.0); E.set<double>("scl_fac", 0.6); E.set<double>("L", 0.24);
    if (v) { E.set<std::string>("Eng_Data_Dir", gen::datadir); E.set<std::string>("datafile", G->cavlat[(size_t)v->key]); }
    else { size_t p = f.path.rfind('/'); E.set<std::string>("Eng_Data_Dir", f.path.substr(0, p)); E.set<std::string>("datafile", f.path.substr(p + 1)); }
    return E;
}
Config lattice(const Config& E)
{
    Config c; c.set<std::string>("sim_type", "MomentMatrix"); std::vector<Config> v(1, E); c.set<std::vector<Config> >("elements", v); return c;
}
Config beam()
{
    Config c; c.set<double>("IonEs", 931.49432e6); c.set<double>("IonEk", 0.5e6); std::vector<double> q(1, 33.0 / 238), n(1, 1000.0), m(7, 0.0), s(49, 0.0); m[6] = 1; m[0] = 0.2; m[2] = 0.1; m[1] = 1e-4;
    for (int i = 0; i < 6; i++) s[i * 8] = 1e-3 * (i + 1);
    c.set<std::vector<double> >("IonChargeStates", q); c.set<std::vector<double> >("NCharge", n); c.set<std::vector<double> >("moment00", m); c.set<std::vector<double> >("initial0", s); return c;
}
gen::Snap result(const Config& E)
{
    Machine M(lattice(E)); std::unique_ptr<StateBase> s(M.allocState(beam())); M.propagate(s.get()); return gen::snap(s.get());
}

void fetch(File& f, unsigned arm = 0)
{
    uint64_t t0 = sched::seq(), f0 = G->faults; std::string err; bool ok = true;
    numeric_table_cache::table_pointer T; gen::Snap S;
    if (arm) mem::arm(arm);
    try {
        if (f.kind == TABLE) T = numeric_table_cache::get()->fetch(f.path);
        else { Config E; { Internal I; E = f.kind == CURVE ? curve_conf(f, 0) : cav_conf(f, 0); } S = result(E); }
    } catch (std::exception& e) { Internal I; ok = false; err = e.what(); }
    if (arm && mem::disarm()) G->faults++;
    uint64_t t1 = sched::seq(); bool fault = G->faults != f0;
    std::vector<size_t> cur; std::vector<Version> hist; { Internal I; current(f, t0, t1, cur); hist = f.hist; }
    std::string vs; bool anybad = false, hit = false; size_t which = 0;
    auto match = [&](const Version& v) { // the expected result is computed like any caller would (preemptible)
        if (v.what != GOOD) return false;
        if (f.kind == TABLE) { Internal I; return (bool)T && same(*T, v); }
        Config E; { Internal I; E = f.kind == CURVE ? curve_conf(f, &v) : cav_conf(f, &v); }
        gen::Snap R = result(E); Internal I; return gen::bit_equal(S, R); };
    for (size_t i = 0; i < cur.size(); i++) {
        const Version& v = hist[cur[i]]; { Internal I; vs += " " + std::to_string(cur[i]) + (v.what == GOOD ? "" : v.what == BAD ? "(bad)" : "(missing)"); }
        if (v.what != GOOD) anybad = true;
        if (ok && !hit && match(v)) { hit = true; which = cur[i]; }
    }
    std::string old = "no version ever written"; if (ok && !hit) for (size_t i = 0; i < hist.size(); i++) if (match(hist[i])) old = "version " + std::to_string(i);
    Internal I;
    { size_t z; while ((z = err.find(scratch())) != std::string::npos) err.replace(z, scratch().size(), "$S"); }
    log("thread %d fetch %s: %s%s; current%s", sched::self(), f.path.c_str() + scratch().size(), ok ? "ok" : "error", hit ? (" version " + std::to_string(which)).c_str() : "", vs.c_str());
    if (ok && !hit) {
        violate("stale-data", "fetch of %s returned the content of %s, current during the fetch:%s", f.path.c_str() + scratch().size(), old.c_str(), vs.c_str());
    }
    if (!ok && !anybad && !fault && cur.size() == 1) violate("fetch-refused", "fetch of a good file %s failed: %s", f.path.c_str() + scratch().size(), err.c_str());
    count(ok ? "fetch.ok" : "fetch.error"); if (fault) count("fetch.with-fault");
    reach(hashstr(std::string(ok ? "ok" : "err") + (fault ? "F" : "") + char('0' + f.kind) + std::to_string(cur.size()) + (anybad ? "b" : "") + std::to_string(hist.back().what) + std::to_string(ok ? hist.size() - 1 - which : 9)));
    if (ok && f.kind == TABLE && G->out.size() < 24) { Handed h; h.t = T; h.f = &f; h.ver = which; G->out.push_back(h); }
}

void session(unsigned nops)
{
    for (uint32_t n = 0; more(nops, n, nops);) {
        Op op; unsigned k = draw(10); File& f = G->files[draw((unsigned)G->files.size())];
        if (k < 5) fetch(f);
        else if (k == 5) install(f, true);
        else if (k == 6) touch(f);
        else if (k == 7) { numeric_table_cache::get()->clear(); count("op.clear"); log("cache cleared"); }
        else if (k == 8 && !G->threaded) { unsigned a = 1 + logdraw(6); log("next fetch with allocation %u failing", a); fetch(f, a); }
        else fetch(f);
    }
}
}

WORKLOAD(c06, "data file cache against the file's history")
{
    gen::setup_data();
    World W; W.used = new std::set<int64_t>; W.threaded = sched::available() && chance(3, 4); W.faults = 0; W.nested = 0; G = &W;
    static const char* L[] = { "thinlenlon_41.lat", "thinlenlon_85.lat", "thinlenlon_41_p.lat" }; W.cavlat.assign(L, L + 3);
    std::string d = scratch() + "/d"; { Internal I; mkdir(d.c_str(), 0755); }
    unsigned nf = 1 + draw(3);
    for (unsigned i = 0; i < nf; i++) { File f; unsigned k = draw(8); f.kind = k < 5 ? TABLE : k < 7 ? CURVE : CAVITY; f.path = d + "/f" + std::to_string(i) + (f.kind == TABLE ? ".txt" : ".lat"); W.files.push_back(f); }
    for (unsigned i = 0; i < nf; i++) install(W.files[i], false);
    unsigned pmod = draw(3) == 2 ? 6 : draw(2) ? 40 : 0, perr = draw(3) == 2 ? 12 : 0, pshort = draw(2) ? 4 : 0;
    io::set_hook([&](const io::Event& e) {
        io::Decision D;
        if (W.nested) return D;
        if (pshort && e.kind == io::READ && chance(1, pshort)) { D.limit = true; D.maxlen = 1 + draw(64); }
        if (perr && (e.kind == io::OPEN || e.kind == io::READ || e.kind == io::STAT) && chance(1, perr)) { D.err = e.kind == io::OPEN ? (draw(2) ? EACCES : EMFILE) : EIO; W.faults++; log("%s of %s fails with errno %d", e.fn, e.path.c_str() + scratch().size(), D.err); return D; }
        if (pmod && e.kind != io::CLOSE && chance(1, pmod)) { // the file changes under our feet
            W.nested++;
            for (size_t i = 0; i < W.files.size(); i++) if (W.files[i].path == e.path) { if (draw(4) == 3) touch(W.files[i]); else install(W.files[i], false); count("change.mid-fetch"); }
            W.nested--;
        }
        return D;
    });
    unsigned nops = tier() ? 40 : 20;
    if (W.threaded) {
        std::vector<std::function<void()> > fns; unsigned nt = 2 + draw(3);
        for (unsigned i = 0; i < nt; i++) fns.push_back([=] { session(nops / 2); });
        sched::run(fns, sched::random_policy());
    } else session(nops);
    io::clear_hook();
    // nothing changes any more: the answer must be the last version
    for (size_t i = 0; i < W.files.size(); i++) fetch(W.files[i]);
    for (size_t i = 0; i < W.out.size(); i++) if (!same(*W.out[i].t, W.out[i].f->hist[W.out[i].ver])) violate("handed-out-table-changed", "a table returned earlier (version %zu) has changed", W.out[i].ver);
}
