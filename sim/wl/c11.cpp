// C11: a run of the command-line simulator that exits with status 0 has written all of its output.
// The real tools/cli.cpp (its main renamed) runs in a fork of this process: standard output is a stream whose
// every write the simulator decides, all other files go through the file layer.
#include "gen.h"
#include "wl/h5model.h"
#include <flame/base.h>
#include <flame/config.h>
#include <flame/h5writer.h>
#include <ext/stdio_sync_filebuf.h>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <regex>
#include <limits.h>
#include <errno.h>
#include <stdio.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
using namespace sim;
extern void registerLinear();
extern void registerMoment();
int flame_cli_main(int, char**);

namespace {
struct Plan { unsigned kinds; std::string path; uint32_t at; bool persist; int err; size_t brief; uint64_t alloc; uint32_t burst; uint32_t oat; bool opersist; int oerr; unsigned obuf; Plan() : kinds(0), at(0), persist(false), err(0), brief(0), alloc(0), burst(0), oat(0), opersist(false), oerr(0), obuf(0) {} };
struct Shared { uint32_t seen, fired, brief, oseen, ofired; uint64_t alloc; } *sh;
Plan plan; int out_fd;

io::Decision decide(const io::Event& e)
{
    io::Decision D;
    if (!(plan.kinds >> e.kind & 1) || (!plan.path.empty() && e.path.find(plan.path) == std::string::npos)) return D;
    sh->seen++;
    if (plan.brief) { if (sh->seen >= plan.at && (e.kind == io::READ || e.kind == io::WRITE)) { D.limit = true; D.maxlen = plan.brief > e.len / 64 ? plan.brief : e.len / 64; sh->brief++; } return D; }
    if (sh->seen == plan.at || (plan.persist && sh->seen > plan.at)) { D.err = plan.err; sh->fired++; }
    return D;
}
ssize_t out_write(void*, const char* b, size_t n)
{
    Internal I; sh->oseen++; count("io.stdout.write");
    if (plan.oat && (sh->oseen == plan.oat || (plan.opersist && sh->oseen > plan.oat))) {
        sh->ofired++; count("fault.stdout.error"); errno = plan.oerr; return 0;
    }
    long r = syscall(SYS_write, out_fd, b, n); return r < 0 ? 0 : r;
}
struct Outcome { int status, sig; std::string out, err; };

Outcome run_cli(const std::vector<std::string>& args)
{
    Internal I; memset(sh, 0, sizeof *sh);
    std::string so = scratch() + "/.stdout", se = scratch() + "/.stderr"; unlink(so.c_str()); unlink(se.c_str());
    pid_t pid = fork(); if (pid < 0) broken("fork");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        out_fd = (int)syscall(SYS_openat, AT_FDCWD, so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        int efd = (int)syscall(SYS_openat, AT_FDCWD, se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(efd, 2); if (out_fd < 3 || efd < 0) broken("output files");
        cookie_io_functions_t f = { 0, out_write, 0, 0 }; FILE* F = fopencookie(0, "w", f); setvbuf(F, 0, plan.obuf == 1 ? _IOLBF : _IOFBF, plan.obuf == 2 ? 64 : 4096); stdout = F;
        std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(F));
        std::vector<char*> av; for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(0);
        io::set_hook(decide); External X; if (plan.alloc) mem::arm(plan.alloc, plan.burst);
        int rc = flame_cli_main((int)args.size(), av.data());
        sh->alloc = mem::fired();
        // libhdf5 (1.10.10) crashes in its exit handler when a file could not be closed: by then the failure is reported
        if (rc && sh->fired) { fflush(0); syscall(SYS_exit_group, rc); }
        exit(rc);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1; o.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; o.out = io::get(so); o.err = io::get(se); unlink(so.c_str()); unlink(se.c_str()); return o;
}

// ---- the same run by direct use of the library ------------------------------------------------
struct Opt { int verb; std::vector<std::pair<std::string, Config::value_t> > defs; std::string lattice; int max; int fmt; std::string file, group; bool hasfile; int detail; std::vector<std::string> quant; bool all, last, timeit; std::vector<std::string> types, names; bool help; int bad; Opt() : verb(0), max(INT_MAX), fmt(0), hasfile(false), detail(1), all(false), last(false), timeit(false), help(false), bad(0) {} };
struct Obs : public Observer {
    const Opt* o; std::ostream* txt; std::vector<Row>* rows;
    Obs(const Opt* o, std::ostream* t, std::vector<Row>* r) : o(o), txt(t), rows(r) {}
    void view(const ElementVoid* E, const StateBase* st)
    {
        StateBase* S = const_cast<StateBase*>(st);
        if (o->fmt == 2) { rows->push_back(row_of(S)); return; }
        if (o->fmt == 0) { (*txt) << "After Element [" << E->index << "] " << E->name << " "; gen::render(*txt, S, o->detail); (*txt) << "\n"; return; }
        std::ostream& T = *txt; T << "    def test_" << E->type_name() << "(self):\n        # " << E->name << "\n        self.checkPropagate(0, {}, {\n";
        for (auto& q : o->quant) {
            StateBase::ArrayInfo A; bool found = false;
            for (unsigned i = 0; S->getArray(i, A); i++) if (q == A.name && A.ndim <= 2 && (A.type == StateBase::ArrayInfo::Double || A.ndim == 0)) { found = true; break; }
            if (!found) throw std::runtime_error("no such quantity");
            T << "            '" << q << "':";
            if (A.ndim == 0) { if (A.type == StateBase::ArrayInfo::Double) T << std::scientific << std::setprecision(17) << *(double*)A.ptr; else T << *(size_t*)A.ptr; }
            else if (A.ndim == 1) { T << "asfarray(["; for (size_t i = 0; i < A.dim[0]; i++) T << std::scientific << std::setprecision(16) << (i ? ", " : "") << *A.get<double>(&i); T << "])"; }
            else { T << "asfarray([\n"; size_t x[3] = { 0, 0, 0 }; for (x[0] = 0; x[0] < A.dim[0]; x[0]++) { T << "                ["; for (x[1] = 0; x[1] < A.dim[1]; x[1]++) T << std::scientific << std::setprecision(16) << (x[1] ? ", " : "") << *A.get<double>(x); T << "],\n"; } T << "            ])"; }
            T << ",\n";
        }
        T << "        }, max=" << E->index + 1 << ")\n";
    }
};
// returns "" if the run must fail
struct Direct { bool ok; std::string why, out, file; std::vector<Row> rows; std::string simtype; };
Direct direct(const Opt& o)
{
    Direct d; d.ok = false; External X; std::ostringstream out, file; std::cout.rdbuf(out.rdbuf());   // the library itself prints to standard output when it logs in detail
    try {
        GLPSParser P; for (auto& v : o.defs) P.setVar(v.first, v.second);
        std::unique_ptr<Config> C(P.parse_file(o.lattice.c_str()));
        if (o.verb) { out << "# Reduced lattice\n"; GLPSPrint(out, *C); out << "\n"; }
        registerLinear(); registerMoment(); if (o.verb > 2) Machine::log_detail = FLAME_ERROR - 10 * (o.verb - 2);
        Machine M(*C); d.simtype = M.simtype(); std::ostream* dst = o.fmt == 0 && o.hasfile ? &file : &out;
        std::vector<std::unique_ptr<Obs> > keep;
        for (size_t i = 0; i < M.size(); i++) {
            bool sel = o.all || (o.last && i + 1 == M.size()); for (auto& t : o.types) sel |= t == M[i]->type_name(); for (auto& n : o.names) sel |= n == M[i]->name;
            if (sel && !(o.fmt == 2 && !o.hasfile)) { keep.push_back(std::unique_ptr<Obs>(new Obs(&o, dst, &d.rows))); M[i]->set_observer(keep.back().get()); }
        }
        if (o.verb) { M.set_trace(&out); out << "# Machine configuration\n" << M << "\n\n"; }
        try {
            std::unique_ptr<StateBase> S(M.allocState());
            M.propagate(S.get(), 0, o.max); if (o.timeit) M.propagate(S.get(), 0, o.max);
            if (o.verb) { out << "\n# Final "; gen::render(out, S.get(), 0); out << "\n"; }
            d.ok = true;
        } catch (std::exception& e) { d.why = e.what(); }
        for (size_t i = 0; i < M.size(); i++) M[i]->set_observer(0);
    } catch (std::exception& e) { d.why = e.what(); }
    d.out = out.str(); d.file = file.str(); return d;
}
std::string cut(const std::string& s, size_t at) { size_t b = at > 30 ? at - 30 : 0; std::string r = s.substr(b, 80); for (auto& c : r) if (c == '\n') c = '|'; return r; }
void same(const char* what, const std::string& have, const std::string& want)
{
    if (have == want) return; size_t i = 0; while (i < have.size() && i < want.size() && have[i] == want[i]) i++;
    violate("wrong-output", "the run ended with status 0 but %s has %zu bytes instead of %zu and differs from byte %zu on: '%s' instead of '%s'", what, have.size(), want.size(), i, cut(have, i).c_str(), cut(want, i).c_str());
}
std::string untimed(const std::string& s)
{
    static const char* L[] = { "Parsing", "Setup 1", "Create Machine", "Setup 2", "Alloc State", "Simulate (cache cold)", "Simulate (cache hot)", "Cleanup" };
    std::string r; size_t p = 0;
    while (p < s.size()) { size_t e = s.find('\n', p); if (e == s.npos) e = s.size() - 1; std::string l = s.substr(p, e - p + 1); bool t = false; for (auto x : L) { std::string k = std::string(x) + " : "; if (l.compare(0, k.size(), k) == 0 && l.size() > 4 && l.find(" ms\n") == l.size() - 4) t = true; } if (!t) r += l; p = e + 1; }
    return r;
}
}

WORKLOAD(c11, "runs of the command-line simulator against direct use of the library")
{
    Internal harness; gen::set_datadir(); io::use_scratch_cwd();
    sh = (Shared*)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) broken("mmap");
    mkdir((scratch() + "/sub").c_str(), 0755); mkdir((scratch() + "/isdir").c_str(), 0755);
    bool owndata = chance(1, 4); if (owndata) { gen::copy_data(scratch() + "/data", 1400000000, { "41", "85", "29", "53" }); gen::datadir = scratch() + "/data"; }
    // lattices
    int kind = gen::random_kind(60); std::vector<std::string> en, et, lat;
    for (unsigned i = 0, n = 1 + draw(2); i < n; i++) {
        Config c = gen::machine(kind, draw(8) == 7 ? 0 : 1 + draw(6), gen::F_ALL & ~(draw(3) ? gen::F_SEXT : 0), chance(3, 4));
        std::ostringstream t; if (kind == 0 && chance(1, 3)) { Config b = gen::moment_beam(); std::vector<std::string> k; }
        bool var = chance(1, 2); if (var) t << "udef = " << draw(100) / 7.0 << ";\n";
        GLPSPrint(t, c); std::string s = "\n" + t.str();
        if (chance(1, 3)) { static const char* V[] = { "IonEk", "IonZ", "IonEs", "L", "dx", "MpoleLevel", "IonChargeStates", "BaryCenter1" }; std::string k = std::string("\n") + V[draw(8)] + " = "; size_t q = s.find(k); if (q != s.npos) s.erase(q, s.find('\n', q + 1) - q); }   // left to the command line, if anything
        if (draw(12) == 11) { size_t cutat = draw((uint32_t)s.size() + 1); s = s.substr(0, cutat); }
        std::string fn = "lat" + std::to_string(i) + ".lat"; io::put(scratch() + "/" + fn, s, 1400000000); lat.push_back(fn);
        const Config::vector_t& E = c.get<Config::vector_t>("elements"); for (auto& e : E) { en.push_back(e.get<std::string>("name")); et.push_back(e.get<std::string>("type")); }
    }
    std::map<std::string, int> h5state; // 1: last run that wrote to it succeeded, 2: unknown
    uint32_t nop = 0;
    do {
        Op op; Opt o; std::vector<std::string> a(1, "flame"), opts; auto arg = [&](const std::string& l, const char* s, const std::string& v) { switch (draw(3)) { case 0: a.push_back(l); a.push_back(v); break; case 1: a.push_back(l + "=" + v); break; default: a.push_back(s); a.push_back(v); } };
        o.lattice = lat[draw((uint32_t)lat.size())]; if (draw(20) == 19) o.lattice = "nosuch.lat"; if (draw(30) == 29) o.lattice = "isdir";
        bool lpos = draw(3) < 2, lfirst = draw(2) == 1; if (lpos && lfirst) a.push_back(o.lattice);
        if (draw(3) == 2) { o.verb = 1 + draw(5); arg("--verbose", "-v", std::to_string(o.verb)); }
        for (unsigned i = 0, n = draw(3) == 2 ? 1 + draw(2) : 0; i < n; i++) {
            static const char* T[] = { "double", "D", "str", "S", "int", "" }; unsigned t = draw(40); t = t < 38 ? t % 4 : t - 34; unsigned shape = draw(30); double v = draw(1000) / 8.0; static const char* V[] = { "IonEk", "IonZ", "IonEs", "L", "dx", "MpoleLevel", "simtype", "Eng_Data_Dir" }; std::string nm = draw(3) == 0 ? V[draw(8)] : draw(2) ? "udef" : "vdef" + std::to_string(i), val; bool strt = t == 2 || t == 3;
            std::ostringstream vs; vs << (nm == "IonEk" ? 5e5 * (1 + v) : nm == "IonEs" ? 931.49432e6 : nm == "IonZ" ? 0.01 + v / 500 : v); val = vs.str(); if (nm == "MpoleLevel") val = std::to_string(draw(3)); if (strt && draw(2)) val = "a=b:c"; if (!strt && draw(15) == 14) { val = "x1"; }
            if (t >= 4) o.bad |= 1; else if (!strt && val == "x1") o.bad |= 1;
            std::string def = nm + "=" + T[t] + ":" + val; if (shape == 29) { def = nm; o.bad |= 1; } else if (shape == 28) { def = nm + "=" + val; if (val.find(':') == val.npos) o.bad |= 1; else { def = nm; o.bad |= 1; } } else if (shape == 27) { def = "=" + std::string("S:x"); o.bad |= 1; }
            if (strt) o.defs.push_back(std::make_pair(nm, Config::value_t(val))); else o.defs.push_back(std::make_pair(nm, Config::value_t(atof(val.c_str()))));
            arg("--define", "-D", def);
        }
        if (draw(4) == 3) { o.max = (int)draw(8); std::string s; if (draw(8) == 7) { o.max = -(int)draw(4); } s = std::to_string(o.max); if (draw(15) == 14) { s = draw(2) ? "1x" : "99999999999"; o.bad |= 2; } switch (draw(2)) { case 0: a.push_back("--max=" + s); break; default: a.push_back("-M" + s); } }
        if (draw(6) == 5) { o.timeit = true; a.push_back("--timeit"); }
        // output
        unsigned fm = draw(12); std::string f; static const char* FN[] = { "out", "sub/out", "res" };
        std::string base = FN[draw(3)]; bool abs = chance(1, 4);
        auto dest = [&](const char* ext) { std::string p = base + ext; unsigned w = draw(24); if (w == 23) { p = "nodir/none/" + p; o.bad |= 4; } else if (w == 22) { p = "isdir"; o.bad |= 4; } return (abs ? scratch() + "/" : std::string()) + p; };
        bool given = true;
        if (fm < 2) { o.fmt = 0; f = "txt"; given = draw(2); }
        else if (fm < 5) { o.fmt = 0; o.hasfile = true; o.file = dest(".txt"); f = "txt,file=" + o.file; }
        else if (fm < 7) { o.fmt = 1; f = "utest"; static const char* Q[] = { "IonEk", "state", "pos", "moment1_env", "moment0_rms", "moment0", "ref_IonZ", "next_elem", "last_caviphi0", "IonQ", "phis", "transmat" }; for (unsigned i = 0, n = draw(4); i < n; i++) { std::string q = Q[draw(12)]; if (draw(20) == 19) q = "nosuch"; o.quant.push_back(q); f += "," + q; } }
        else if (fm < 11) { o.fmt = 2; f = "hdf5"; if (draw(12) < 11) { o.hasfile = true; o.file = dest(".h5"); if (!(o.bad & 4) && draw(2)) o.group = draw(2) ? "g" : "h"; f += ",file=" + o.file + (o.group.empty() ? "" : "/" + o.group); } }
        else { f = draw(2) ? "csv" : ""; o.bad |= 8; given = true; }
        if (o.fmt == 0) { if (draw(4) == 3) { unsigned d = draw(4); if (d == 3) f += ",verbose"; else { o.detail = (int)d * 2; f += ",verbose=" + std::to_string(o.detail); } } if (draw(25) == 24) { f += ",verbose=x"; o.bad |= 8; } if (draw(12) == 11) f += ",,"; if (draw(12) == 11) f += ",bogus"; }
        if (!given && f == "txt") {} else if (f.empty()) { a.push_back("--format"); a.push_back(""); } else arg("--format", "-F", f);
        unsigned sel = draw(8);
        if (sel < 2) { o.all = true; a.push_back(draw(2) ? "-A" : "--select-all"); } if (sel == 2 || sel == 6) { o.last = true; a.push_back(draw(2) ? "-L" : "--select-last"); }
        if (sel >= 3 && sel < 5 && !et.empty()) for (unsigned i = 0, n = 1 + draw(2); i < n; i++) { std::string t = draw(10) == 9 ? "nosuchtype" : et[draw((uint32_t)et.size())]; o.types.push_back(t); arg("--select-type", "-T", t); }
        if (sel >= 4 && sel < 7 && !en.empty()) for (unsigned i = 0, n = 1 + draw(3); i < n; i++) { std::string t = draw(10) == 9 ? "nosuchname" : en[draw((uint32_t)en.size())]; o.names.push_back(t); arg("--select-name", "-N", t); }
        if (draw(40) == 39) { a.push_back("--bogus"); o.bad |= 16; } if (draw(60) == 59) { a.push_back(draw(2) ? "-h" : "--help"); o.help = true; }
        if (lpos && !lfirst) a.push_back(o.lattice); if (!lpos) { if (draw(15) == 14) o.help = true; else { a.push_back("--lattice"); a.push_back(o.lattice); } }
        // faults
        plan = Plan(); unsigned fk = draw(8); plan.obuf = draw(3);
        static const int E[] = { ENOSPC, EIO, EDQUOT, EFBIG, EPIPE };
        if (fk == 3 || fk == 4) { plan.oat = 1 + logdraw(o.verb ? 6 : 4); plan.opersist = chance(1, 2); plan.oerr = E[draw(5)]; }   // short writes are repeated by the C library itself
        else if (fk == 5) { plan.alloc = 1 + logdraw(13); plan.burst = draw(2) ? 1 : 1 + logdraw(10); }
        else if (fk >= 6) {
            switch (draw(5)) { case 0: plan.kinds = 1 << io::WRITE; plan.err = E[draw(4)]; break; case 1: plan.kinds = 1 << io::OPEN; plan.err = draw(2) ? EMFILE : EACCES; break; case 2: plan.kinds = 1 << io::READ; plan.err = EIO; break; case 3: plan.kinds = 1 << io::TRUNC | 1 << io::CLOSE; plan.err = draw(2) ? EIO : EDQUOT; break; default: plan.kinds = 1 << io::WRITE | 1 << io::READ; plan.brief = 1 + logdraw(10); }
            plan.at = 1 + logdraw(plan.kinds & (1 << io::CLOSE) ? 1 : 6); plan.persist = chance(1, 2); if (o.hasfile && chance(2, 3)) plan.path = base; if (plan.kinds & (1 << io::CLOSE)) plan.path = base; // closing what was only read can't lose anything
        }
        std::string dpath = o.hasfile ? (abs ? o.file : scratch() + "/" + o.file) : "";
        if (o.fmt == 0 && o.hasfile && !(o.bad & 4) && draw(4) == 3) io::put(dpath, std::string(1 + draw(60000), 'z'), 1400000000); // older, longer content
        Outcome R = run_cli(a);
        std::string line; for (size_t i = 1; i < a.size(); i++) { std::string s = a[i]; size_t q = s.find(scratch()); if (q != s.npos) s.replace(q, scratch().size(), "<dir>"); line += (i > 1 ? " " : "") + (s.empty() ? std::string("''") : s); }
        bool hard = sh->fired || sh->ofired || sh->alloc;
        log("flame %s -> status %d%s", line.c_str(), R.status, hard ? " (fault)" : sh->brief ? " (short transfers)" : "");
        { size_t q = R.err.find("ERROR: AddressSanitizer: "); if (q != R.err.npos) { fprintf(stderr, "%.5000s", R.err.c_str() + q); violate(("memory:" + R.err.substr(q + 25, R.err.find_first_of(" \n", q + 25) - q - 25)).c_str(), "flame %s: invalid memory access: %.600s", line.c_str(), R.err.c_str() + q); } }
        if (R.sig) violate("crash", "flame %s ended by signal %d: %.300s", line.c_str(), R.sig, R.err.c_str());
        if (R.status != 0 && R.status != 1) violate("status", "flame %s ended with status %d: %.300s", line.c_str(), R.status, R.err.c_str());
        count(R.status ? hard ? "op.run.failed.fault" : "op.run.failed" : hard ? "op.run.ok.fault" : "op.run.ok");
        // a run on a results file that exists may be refused; a new one, or a new group in an intact one, may not
        bool mayrefuse = false; std::string key = dpath; if (o.fmt == 2 && o.hasfile && !(o.bad & 4)) { int& s = h5state[key]; mayrefuse = s == 2 || (s == 1 && o.group.empty()); if (R.status) { if (access(dpath.c_str(), F_OK) == 0) s = 2; } else s = 1; }
        std::string verdict = isolated([&]() -> std::string {
            std::string what;
            if (o.help || o.bad) { if (R.status == 0) violate("no-error", "flame %s ended with status 0 although %s", line.c_str(), o.help ? "no run was made" : o.bad & 4 ? "the output file can't be written" : "an argument is not valid"); what = "refused"; }
            else {
                Direct d = direct(o);
                if (!d.ok && R.status == 0) violate("no-error", "flame %s ended with status 0 although the simulation fails: %s", line.c_str(), d.why.c_str());
                if (d.ok && R.status && !hard && !mayrefuse) violate("spurious-error", "flame %s fails without any fault: %.300s", line.c_str(), R.err.c_str());
                what = d.ok ? "runs" : "fails";
                // printing a vector under lack of memory is the business of a third-party library, which drops what it can't print
                if (R.status == 0 && !(sh->alloc && (o.fmt == 0 || o.verb))) {
                    same("standard output", o.timeit ? untimed(R.out) : R.out, d.out);
                    if (o.fmt == 0 && o.hasfile) same(o.file.find('/') == 0 ? "the file" : o.file.c_str(), io::get(dpath), d.file);
                    if (o.fmt == 2 && o.hasfile) { H5Eset_auto2(H5E_DEFAULT, 0, 0); File F; F.exists = true; Group& G = F.groups[o.group]; G.rows = d.rows; G.attrs["sim_type"] = d.simtype; verify(dpath, o.file.find('/') == 0 ? "the file" : o.file, F); }
                    count("verified.outputs");
                }
            }
            if (R.status && !sh->alloc && !(o.help && sh->ofired) && R.err.empty() && R.out.empty()) violate("no-message", "flame %s failed without any message", line.c_str());
            return what;
        });
        reach(hashstr(verdict + std::to_string(R.status) + std::to_string(o.fmt) + std::to_string(o.hasfile) + std::to_string(o.verb > 0) + std::to_string(o.timeit) + std::to_string(sel) + std::to_string(sh->fired ? 1 + plan.kinds : 0) + (sh->ofired ? "o" : "") + (sh->alloc ? "a" : "") + (sh->brief ? "s" : "") + std::to_string(o.bad)));
        if (hard && R.status && o.fmt == 2 && o.hasfile) h5state[key] = access(dpath.c_str(), F_OK) == 0 ? 2 : 0;
    } while (more(3, nop, 3));
}
