// C10: saved results read back exactly or the failure is reported.
// H5StateWriter and H5Loader over the real libhdf5, whose file system calls are those of the simulator.
#include "gen.h"
#include "wl/h5model.h"
#include <flame/h5writer.h>
#include <flame/h5loader.h>
#include <hdf5.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <math.h>
#include <limits.h>
#include <unistd.h>
#include <sys/stat.h>
#include <set>
#include <stdexcept>
using namespace sim;

namespace {
typedef std::unique_ptr<StateBase> SP;
struct Writer { std::unique_ptr<H5StateWriter> W; bool open, failed; std::string file, group; Writer() : open(false), failed(false) {} };

uint32_t fault_seen, fault_at; struct Fired { uint32_t n; operator uint32_t() const { return n + (uint32_t)mem::fired(); } } fault_fired; int fault_err; size_t fault_short; bool fault_persist; unsigned fault_kinds;
io::Decision decide(const io::Event& e)
{
    io::Decision D;
    if (!fault_at) return D;
    if (!(fault_kinds >> e.kind & 1)) return D;
    fault_seen++;
    if (fault_short) { if ((e.kind == io::WRITE || e.kind == io::READ) && fault_seen >= fault_at) { D.limit = true; D.maxlen = fault_short > e.len / 64 ? fault_short : e.len / 64; } return D; }
    if (fault_seen == fault_at || (fault_persist && fault_seen > fault_at)) { D.err = fault_err; fault_fired.n++; }
    return D;
}
void make_table(hid_t f, const std::string& g, const std::string& name, const Table& t)
{
    hid_t gr = g.empty() ? H5Gopen2(f, "/", H5P_DEFAULT) : H5Lexists(f, g.c_str(), H5P_DEFAULT) > 0 ? H5Gopen2(f, g.c_str(), H5P_DEFAULT) : H5Gcreate2(f, g.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    hid_t sp = t.dim.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple((int)t.dim.size(), t.dim.data(), 0);
    hid_t pl = H5P_DEFAULT;
    if (t.kind == 3 && !t.dim.empty()) { pl = H5Pcreate(H5P_DATASET_CREATE); std::vector<hsize_t> c(t.dim); for (auto& x : c) if (x > 3) x = 3; if (c[0]) H5Pset_chunk(pl, (int)c.size(), c.data()); }
    hid_t d = H5Dcreate2(gr, name.c_str(), t.kind == 1 ? H5T_STD_I32BE : t.kind == 2 ? H5T_IEEE_F32LE : H5T_NATIVE_DOUBLE, sp, H5P_DEFAULT, pl, H5P_DEFAULT);
    if (d < 0) broken("make_table");
    if (!t.v.empty()) H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, t.v.data());
    H5Dclose(d); H5Sclose(sp); H5Gclose(gr); if (pl != H5P_DEFAULT) H5Pclose(pl);
}
}

WORKLOAD(c10, "results files against a model of their content")
{
    gen::setup_data(); { Internal I; H5Eset_auto2(H5E_DEFAULT, 0, 0); }
    H5StateWriter::dontPrint(); H5Loader::dontPrint();
    io::use_scratch_cwd();
    { Internal I; mkdir((scratch() + "/sub").c_str(), 0755); if (chance(1, 8)) mkdir((scratch() + "/ro").c_str(), 0755); }
    int kind = gen::random_kind(75); unsigned flags = 0; if (chance(1, 2)) flags |= gen::F_STRIPPER; if (chance(1, 4)) flags |= gen::F_SEXT;
    Config mc = gen::machine(kind, 1 + draw(5), flags, chance(1, 2));
    std::unique_ptr<Machine> M; std::vector<SP> states;
    {
        Internal I; External X;
        try { M.reset(new Machine(mc)); } catch (std::exception&) { discard("machine not buildable"); }
        // states of different size and content
        for (unsigned i = 0, n = 1 + draw(3); i < n; i++) try {
            SP s(M->allocState(kind == 0 ? gen::moment_beam() : Config())); states.push_back(SP(s->clone()));
            for (size_t k = 0; k < M->size(); k++) { M->propagate(s.get(), k, 1); states.push_back(SP(s->clone())); }
        } catch (std::exception&) {}
    }
    if (states.empty()) discard("no states");
    Internal harness;   // code under test runs in External blocks
    std::map<std::string, File> files; Writer w[2]; bool wild = false;   // wild: a fault has hit, what it touched is unknown
    static const char* FN[] = { "a.h5", "b.h5", "sub/c.h5" };
    auto arm = [&](bool yes) {
        mem::arm(0); fault_at = 0; fault_seen = fault_fired.n = 0; if (!yes) return; if (chance(1, 4)) { mem::arm(1 + logdraw(8), 1 + (draw(3) == 2 ? draw(20) : 0)); return; }
        fault_at = 1 + logdraw(7); fault_short = 0; fault_persist = chance(1, 2); static const int E[] = { ENOSPC, EIO, EDQUOT, EFBIG }; fault_err = E[draw(4)];
        switch (draw(6)) { case 0: fault_kinds = 1 << io::WRITE; break; case 1: fault_kinds = ~0u; break; case 2: fault_kinds = 1 << io::OPEN | 1 << io::STAT; fault_err = EMFILE; break; case 3: fault_kinds = 1 << io::TRUNC | 1 << io::CLOSE | 1 << io::FSYNC; fault_err = EIO; fault_at = 1; break; case 4: fault_kinds = 1 << io::WRITE | 1 << io::READ; fault_short = 1 + logdraw(12); fault_at = 1 + draw(2); break; default: fault_kinds = 1 << io::READ; fault_err = EIO; }
    };
    io::set_hook(decide);
    bool faulty = chance(1, 2);
    auto where = [&](const Writer& x) { return x.file + (x.group.empty() ? "" : "/" + x.group); };
    // all writers of a file are closed, none failed: it must hold exactly what was appended
    auto settled = [&](const std::string& fn) { File& F = files[fn]; if (F.open == 0 && !F.unknown && F.exists) { bool any = false; for (auto& g : F.groups) any |= !g.second.unknown; if (any) verify(scratch() + "/" + fn, fn, F); } };
    auto fail = [&](Writer& x) { x.failed = true; File& F = files[x.file]; if (fault_fired || wild) F.unknown = true; F.groups[x.group].unknown = true; if (fault_fired) wild = true; };
    auto forget = [&](Writer& x) { if (x.open) { x.open = false; files[x.file].open--; } };
    auto do_close = [&](Writer& x, bool destroy) {
        if (!x.W) return; bool was = x.open, bad = x.failed; std::string fn = x.file; uint32_t f0 = fault_fired;
        if (destroy) { { External X; x.W.reset(); } if (was && fault_fired > f0) { files[fn].unknown = true; wild = true; } }   // an error in a destructor can't be reported
        else try { { External X; x.W->close(); } log("close %s ok", where(x).c_str()); count("op.close.ok"); }
            catch (std::exception& e) { log("close %s: error", where(x).c_str()); count("op.close.error"); if (!fault_fired && !wild && !bad) violate("spurious-error", "closing %s fails without any fault: %s", where(x).c_str(), e.what()); if (was) { fail(x); bad = true; } }
        if (was) { forget(x); if (!bad) settled(fn); x.failed = false; }
    };
    // tables for the loader
    bool tabs = chance(1, 2);
    if (tabs) {
        Internal I; File& F = files["t.h5"]; F.exists = true; hid_t f = H5Fcreate((scratch() + "/t.h5").c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
        static const char* G[] = { "", "g", "g/sub" };
        for (int gi = 0; gi < 3; gi++) for (unsigned i = 0, n = 1 + draw(2); i < n; i++) {
            Table t; t.kind = draw(4); unsigned nd = draw(8); nd = nd == 7 ? 3 : nd > 3 ? 2 : nd; if (nd == 3 && draw(2)) nd = 2;
            size_t tot = 1; for (unsigned k = 0; k < nd; k++) { t.dim.push_back(draw(6) == 5 ? 0 : 1 + (draw(10) == 9 ? draw(60) : draw(5))); tot *= t.dim.back(); }
            for (size_t k = 0; k < tot; k++) t.v.push_back(t.kind == 1 ? (double)((int)draw(1000) - 500) : t.kind == 2 ? (double)(float)(draw(1000) / 8.0f) : draw(100000) / 977.0);
            std::string nm = "t" + std::to_string(i); make_table(f, G[gi], nm, t); F.tables[std::string(G[gi]) + "|" + nm] = t;
        }
        H5Fclose(f);
    }
    std::unique_ptr<H5Loader> L; std::string lgroup; bool lopen = false, reading = tabs && draw(3) == 0;   // histories that mostly load
    uint32_t nop = 0;
    while (more(9, nop, tier() ? 30 : 16)) {
        Op op; Writer& x = w[draw(3) == 2]; unsigned what = reading && draw(4) ? 11 : draw(tabs ? 14 : 11); bool flt = faulty && !wild && chance(1, 4);
        if (what < 2 || (!x.W && what < 9) || (what < 9 && !x.open)) {   // open
            std::string fn = FN[draw(3)], gr = draw(3) == 0 ? "" : draw(5) == 4 ? "x/y" : std::string("g") + char('0' + draw(2));
            bool abs = chance(1, 3), bad = chance(1, 8); std::string base = (abs ? scratch() + "/" : std::string()) + (bad ? "nosuch/dir/" : "") + fn; std::string spec = base + (gr.empty() ? "" : "/" + gr);
            // opening an existing group replaces it: not while another writer uses it
            Writer& y = w[&x == &w[0]]; if (y.open && y.file == fn) { if (y.group == gr || files[fn].unknown || draw(2)) continue; }
            bool ctor = !x.W || draw(3) == 2; if (ctor) do_close(x, true); else if (x.open) { do_close(x, false); }
            arm(flt); File& F = files[fn]; bool existed = F.exists; if (bad) gr = "";
            std::string err; bool ok = false;
            try { External X; if (ctor) x.W.reset(draw(2) ? new H5StateWriter(spec) : new H5StateWriter(spec.c_str())); else x.W->open(spec); ok = true; } catch (std::exception& e) { err = e.what(); }
            log("open %s%s: %s", fn.c_str(), gr.empty() ? "" : ("/" + gr).c_str(), ok ? "ok" : "error");
            x.file = fn; x.group = gr; x.failed = false;
            if (bad) { if (ok) violate("opened-nothing", "%s/%s could be opened although its directory does not exist", "nosuch/dir", fn.c_str()); count("op.open.refused"); if (fault_fired) wild = true; }
            else {
                bool must = !fault_fired && !wild && !F.unknown && gr != "x/y";
                if (ok) { x.open = true; F.open++; F.exists = true; if (gr.empty()) { if (existed && !F.groups[""].rows.empty()) F.groups[""].unknown = true; } else { F.groups[gr] = Group(); } if (fault_fired) wild = true; count("op.open.ok"); }
                else { count("op.open.error"); if (must) violate("spurious-error", "opening %s fails: %s", spec.substr(abs ? scratch().size() + 1 : 0).c_str(), err.c_str()); if (fault_fired) wild = true; if (gr != "x/y" || fault_fired) { F.groups[gr].unknown = true; if (fault_fired) F.unknown = true; } F.exists = access((scratch() + "/" + fn).c_str(), F_OK) == 0; }
            }
        } else if (what < 7) { // append
            SP& s = states[draw((uint32_t)states.size())]; Row r = row_of(s.get()); Group& G = files[x.file].groups[x.group];
            arm(flt); std::string err; try { External X; x.W->append(s.get()); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
            log("append to %s: %s", where(x).c_str(), err.empty() ? "ok" : "error");
            if (err.empty()) { G.rows.push_back(r); count("op.append.ok"); if (fault_fired) wild = true; }
            else { count("op.append.error"); if (!fault_fired && !wild && !x.failed && !G.unknown) violate("spurious-error", "appending to %s fails without any fault: %s", where(x).c_str(), err.c_str()); fail(x); }
        } else if (what < 8) { // attribute
            std::string n = std::string("attr") + char('0' + draw(3)), v; for (unsigned k = 0, m = draw(40); k < m; k++) v += char('a' + (k + m) % 26);
            Group& G = files[x.file].groups[x.group]; std::unique_ptr<char[]> exact; { Internal I; exact.reset(new char[v.size() + 1]); memcpy(exact.get(), v.c_str(), v.size() + 1); }
            arm(flt); std::string err; try { External X; if (draw(2)) x.W->setAttr(n.c_str(), v); else x.W->setAttr(n.c_str(), (const char*)exact.get()); } catch (std::exception& e) { err = e.what(); }
            log("attribute %s of %s: %s", n.c_str(), where(x).c_str(), err.empty() ? "ok" : "error");
            if (err.empty()) { G.attrs[n] = v; count("op.attr.ok"); if (fault_fired) wild = true; } else { count("op.attr.error"); if (!v.empty() && !fault_fired && !wild && !x.failed && !G.unknown) violate("spurious-error", "setting an attribute of %s fails without any fault: %s", where(x).c_str(), err.c_str()); fail(x); }
            Internal I; exact.reset();
        } else if (what < 11) { arm(flt); do_close(x, what == 10); }
        else { // loader
            // closing a file that was only read: libhdf5 (1.10.10) crashes when the system call fails, which says nothing about FLAME
            auto arm_ro = [&](bool yes) { arm(yes); if (yes && draw(2)) { fault_kinds = 1 << io::READ; fault_at = 1 + draw(4); fault_err = EIO; } fault_kinds &= ~(1u << io::CLOSE); };
            if (!L || draw(reading ? 6 : 3) == 0 || !lopen) {
                static const char* G[] = { "", "g", "g/sub", "nosuch" }; lgroup = G[draw(4)]; bool abs = chance(1, 3), miss = chance(1, 8); std::string spec = (abs ? scratch() + "/" : std::string()) + (miss ? "none/" : "") + "t.h5" + (lgroup.empty() ? "" : "/" + lgroup);
                arm_ro(flt); std::string err; lopen = false; try { External X; if (!L || draw(2)) { L.reset(); L.reset(new H5Loader(spec)); } else L->open(spec.c_str()); lopen = true; } catch (std::exception& e) { err = e.what(); }
                log("load from t.h5/%s: %s", lgroup.c_str(), lopen ? "ok" : "error"); count(lopen ? "op.loader.open" : "op.loader.refused");
                if (lopen && (miss || lgroup == "nosuch")) violate("opened-nothing", "a group or file that does not exist was opened for loading");
                if (!lopen && !miss && lgroup != "nosuch" && !fault_fired && !wild) violate("spurious-error", "opening t.h5/%s for loading fails: %s", lgroup.c_str(), err.c_str());
                if (!lopen && fault_fired) { External X; L.reset(); }   // reads never spoil the library's idea of other files
            } else {
                std::string nm = "t" + std::to_string(draw(3)), key = lgroup + "|" + nm; auto it = files["t.h5"].tables.find(key); bool have = it != files["t.h5"].tables.end();
                arm_ro(flt); std::string err; H5Loader::matrix_t m; bool ok = false; try { External X; m = draw(2) ? L->load(nm) : L->load(nm.c_str()); ok = true; } catch (std::exception& e) { err = e.what(); }
                log("load t.h5/%s/%s: %s", lgroup.c_str(), nm.c_str(), ok ? "ok" : "error"); count(ok ? "op.load.ok" : "op.load.error");
                Internal I;
                if (ok && !have) violate("loaded-nothing", "a table that does not exist was loaded");
                if (ok) { const Table& t = it->second; size_t r = t.dim.size() > 0 ? t.dim[0] : 1, c = t.dim.size() > 1 ? t.dim[1] : 1; if (t.dim.size() > 2) violate("wrong-table", "a table of %zu dimensions was loaded as a matrix", t.dim.size());
                    if (m.size1() != r || m.size2() != c) violate("wrong-table", "table %s has shape %zux%zu instead of %zux%zu", key.c_str(), m.size1(), m.size2(), r, c);
                    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (m(i, j) != t.v[i * c + j]) violate("wrong-table", "table %s (%zu,%zu) is %.17g instead of %.17g", key.c_str(), i, j, m(i, j), t.v[i * c + j]); }
                else if (have && it->second.dim.size() <= 2 && !fault_fired && !wild) violate("spurious-error", "loading table %s fails without any fault: %s", key.c_str(), err.c_str());
            }
        }
        arm(false);
        reach(hashstr(std::to_string(what) + (wild ? "w" : flt ? "f" : "-") + (x.open ? "o" : "c") + (x.failed ? "F" : "-") + std::to_string(files[x.file].groups.count(x.group) ? files[x.file].groups[x.group].rows.size() : 0) + x.group + (files[x.file].open > 1 ? "2" : "1")));
    }
    // the fault is over: what is still open is closed, and a new writer works whatever happened before
    for (int i = 0; i < 2; i++) if (w[i].W && w[i].open) do_close(w[i], false);
    { External X; for (int i = 0; i < 2; i++) w[i].W.reset(); L.reset(); }
    {
        std::string err; Row r = row_of(states[0].get()); File F; F.exists = true; F.groups["fin"].rows.push_back(r); F.groups["fin"].attrs["sim_type"] = "final";
        try { { External E; H5StateWriter X("final.h5/fin"); X.setAttr("sim_type", "final"); X.append(states[0].get()); X.close(); } verify(scratch() + "/final.h5", "final.h5", F); } catch (std::exception& e) { violate("later-writer", "a new writer to a new file fails after earlier %s: %s", wild ? "faults" : "use", e.what()); }
    }
    if (!wild && io::open_files()) violate("leak", "%d results files are still open after every writer and loader is gone", io::open_files());

    io::clear_hook(); states.clear(); M.reset();
}
