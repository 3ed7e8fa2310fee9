// C12: the virtual accelerator server (vaccel/), on a stand-in for EPICS base.
// The server's worker, the scan thread, the shell and 1-3 clients are simulated threads.  Every setting, request
// and reading is recorded; after the run each reading must show the result of one completed simulation of settings
// which that simulation may have seen, and every request must have been answered.
//
// Semantics of EPICS base relied upon: mutexes are recursive; an event is a binary semaphore; an exception that
// leaves a thread's function ends the thread; time does not go backwards (generalTime); a record is processed under
// its lock, alarms are cleared before and published after; records of an I/O interrupt list are processed by the
// callback thread once per scanIoRequest(), whose queue is bounded.
#include "gen.h"
#include "epics/epicsstub.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <deque>
#include <set>
#include <algorithm>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
using namespace sim;
namespace sim { namespace sched { bool others_idle(int self); } }

extern dset *pvar_dset_devFLAMEwaveformLastMsg, *pvar_dset_devFLAMEboDoSim, *pvar_dset_devFLAMEaiRuntime, *pvar_dset_devFLAMElonginRuncount, *pvar_dset_devFLAMElonginIndex, *pvar_dset_devFLAMEaoSetting, *pvar_dset_devFLAMEaiSetting, *pvar_dset_devFLAMEaiState, *pvar_dset_devFLAMEwaveformSOrbit, *pvar_dset_devFLAMEwaveformIOrbit;
extern void (*pvar_func_flameRegistrar)();

// ---- EPICS base ---------------------------------------------------------------------------------
namespace {
bool start_oom = false; int alive = 0; // threads of the server that have begun and not ended
bool faults = false; // may resources be refused
double now_ = 1e9; bool phase_faulty;
bool worker_shortage() { return draw(3) == 2; } // memory is short while the worker simulates
}
epicsMutex::epicsMutex() { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&m, &a); pthread_mutexattr_destroy(&a); }
epicsMutex::~epicsMutex() { pthread_mutex_destroy(&m); }
void epicsMutex::lock() { pthread_mutex_lock(&m); }
void epicsMutex::unlock() { pthread_mutex_unlock(&m); }
bool epicsMutex::tryLock() { return pthread_mutex_trylock(&m) == 0; }
epicsEvent::epicsEvent(int i) { Internal I; full = i; }
epicsEvent::~epicsEvent() {}
void epicsEvent::signal() { sched::point("event"); { Internal I; full = true; sched::hb_release(this); } sched::point("event"); }
void epicsEvent::wait() { mem::disarm(); sched::point("event"); Internal I; sched::cond_t c = [this] { return full; }; sched::block_until(c, "an event"); full = false; sched::hb_acquire(this); }
bool epicsEvent::wait(double) { sched::point("event"); Internal I; sched::cond_t c = [this] { return full; }; if (!sched::block_until(c, "an event", true)) return false; full = false; sched::hb_acquire(this); return true; }
bool epicsEvent::tryWait() { sched::point("event"); Internal I; if (!full) return false; full = false; sched::hb_acquire(this); return true; }
unsigned epicsThreadGetStackSize(epicsThreadStackSizeClass) { return 1 << 20; }
epicsThread::epicsThread(epicsThreadRunable& R, const char* name, unsigned, unsigned) : r(R)
{
    Internal I; begun = cancel = ended = false; id = 0;
    if (faults && chance(1, 16)) { count("fault.thread"); throw unableToCreateThread(); }
    sched::spawn([this] {
        { Internal I; sched::cond_t c = [this] { return begun || cancel; }; sched::block_until(c, "its start"); sched::hb_acquire(this); }
        if (begun) { try { r.run(); } catch (std::exception& e) { count("thread.exception"); log("a thread ends: %s", e.what()); } catch (...) { count("thread.exception"); log("a thread ends by an exception"); } }
        Internal I; if (begun) alive--; sched::hb_release(this); ended = true;
    }, "epics");
}
void epicsThread::start() { { Internal I; sched::hb_release(this); if (!begun) alive++; begun = true; if (start_oom) { start_oom = false; mem::arm(1 + draw(6), 1); } } sched::point("start"); }
void epicsThread::exitWait() { Internal I; sched::cond_t c = [this] { return ended; }; sched::block_until(c, "the end of a thread"); sched::hb_acquire(this); }
bool epicsThread::exitWait(double) { Internal I; sched::cond_t c = [this] { return ended; }; if (!sched::block_until(c, "the end of a thread", true)) return false; sched::hb_acquire(this); return true; }
epicsThread::~epicsThread() { { Internal I; if (!begun) cancel = true; } exitWait(); }
void epicsThread::sleep(double) { sched::point("sleep"); }
void epicsThreadSleep(double) { sched::point("sleep"); }
extern "C" int epicsTimeGetCurrent(epicsTimeStamp* t) { double n; { Internal I; static const double D[] = { 1e-6, 1e-3, 1, 0, 3600 }; double d = D[draw(5)]; now_ += d; sim_time(d); if (phase_faulty && worker_shortage()) { count("fault.worker-memory"); mem::arm(1 + (draw(3) ? draw(30) : draw(600)), draw(2) ? 1 + draw(4) : 100000); } if (d > 100) count("fault.clock-jump"); n = now_; } t->secPastEpoch = (uint32_t)n; t->nsec = (uint32_t)((n - floor(n)) * 1e9); return 0; }
extern "C" double epicsTimeDiffInSeconds(const epicsTimeStamp* a, const epicsTimeStamp* b) { return (double)a->secPastEpoch - (double)b->secPastEpoch + ((double)a->nsec - (double)b->nsec) * 1e-9; }
extern "C" int errlogPrintf(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (tracing()) fprintf(stderr, "errlog: %s", b); return n; }
namespace { void (*exitfn)(void*) = 0; void* exitarg = 0; std::map<std::string, iocshCallFunc>* shell; unsigned crashes = 0; }
extern "C" int epicsAtExit(void (*f)(void*), void* a) { Internal I; exitfn = f; exitarg = a; return 0; }
extern "C" void iocshRegister(const iocshFuncDef* d, iocshCallFunc f) { Internal I; (*shell)[d->name] = f; }
extern "C" void iocshRegisterVariable(const iocshVarDef*) {}
struct Rec;
struct ioscan_head { std::vector<Rec*> list; uint64_t done; };
namespace { std::deque<ioscan_head*>* cbq; bool cbstop = false; size_t cbcap = 6; std::vector<ioscan_head*>* heads; }
extern "C" void scanIoInit(IOSCANPVT* p) { Internal I; ioscan_head* h = new ioscan_head; h->done = 0; heads->push_back(h); *p = h; }
extern "C" unsigned scanIoRequest(IOSCANPVT h)
{
    { Internal I; mem::disarm(); h->done++; count("simulation"); if (cbq->size() < cbcap) { cbq->push_back(h); sched::hb_release(cbq); } else count("fault.callback-queue-full"); }
    sched::point("scan"); return 1;
}
extern "C" int recGblSetSevr(void* v, unsigned short st, unsigned short se) { dbCommon* p = (dbCommon*)v; if (p->nsev < se) { p->nsta = st; p->nsev = se; return 1; } return 0; }

// ---- records --------------------------------------------------------------------------------------
enum RK { SETAO, SETAI, DOSIM, STATE, ORBIT, INDEX, IORBIT, LASTMSG, RUNTIME, RUNCOUNT };
static const char* const RKN[] = { "setting", "setting readback", "request", "state", "orbit", "index", "index orbit", "last message", "run time", "run count" };
struct Rec {
    RK kind; dset* ds; dbCommon* p; pthread_mutex_t lock; std::string link; int sim; int param; // param: number of the setting
    size_t elem; std::vector<size_t> elems; std::string qty; std::vector<size_t> dim; bool bad; double aslo, aoff, eslo, eoff; bool lin; std::vector<char> buf; uint32_t nelm;
    double conv(double v) const { if (aslo) v *= aslo; v += aoff; if (lin && eslo != 0) v = v * eslo + eoff; return v; }
};
struct dsetx { long num; long (*report)(int); long (*init)(int); long (*init_record)(dbCommon*); long (*get_iointr)(int, dbCommon*, IOSCANPVT*); long (*readwrite)(dbCommon*); long (*junk)(dbCommon*); };

namespace {
// ---- an element of the harness: it can refuse a setting, fail a simulation, and move the beam ----
struct SimElem : public ElementVoid {
    double gain, fail; SimElem(const Config& c) : ElementVoid(c), gain(c.get<double>("gain", 0)), fail(c.get<double>("fail", 0)) { if (c.get<double>("refuse", 0) > 0.5) throw std::invalid_argument("this setting is refused"); }
    virtual ~SimElem() {} virtual const char* type_name() const { return "simelem"; }
    virtual void advance(StateBase& s) { if (fail > 0.5) { char b[200]; snprintf(b, sizeof b, "%s fails as it was told to (%g), with a message that does not fit in a small string", name.c_str(), fail); std::runtime_error e(b); { Internal I; if (phase_faulty && draw(3) == 2) { count("fault.memory-on-error"); mem::arm(1 + draw(2), 1 + draw(4)); } } throw e; } s.pos += gain; }
    virtual void assign(const ElementVoid* o) { const SimElem* e = static_cast<const SimElem*>(o); ElementVoid::assign(o); gain = e->gain; fail = e->fail; }
};

struct Param { std::string elem; size_t idx; std::string name; double v0; };
struct Set { int param; double v; uint64_t inv, resp; bool flagged, faulty; };
struct Req { uint64_t inv, resp; bool flagged, faulty; };
struct Read { int rec; uint64_t inv, resp; uint64_t done_inv; bool flagged, final, faulty; int phase, thread; std::vector<double> v; std::string text; };
struct Phase { uint64_t begin, end; bool faulty; bool exact; uint64_t d0, d1; uint64_t ff; };
struct SimI { std::string name, file; std::vector<Param> params; ioscan_head* head; bool up; std::unique_ptr<Config> conf; std::vector<Set> sets; std::vector<Req> reqs; std::vector<Read> reads; std::vector<Phase> phases; };
std::vector<SimI>* sims; std::vector<Rec*>* recs; int phase; bool shutting;

Rec* mk(RK k, dset* ds, const std::string& link, int sim)
{
    Rec* r = new Rec; r->kind = k; r->ds = ds; r->link = link; r->sim = sim; r->param = -1; r->elem = 0; r->bad = false; r->aslo = r->aoff = r->eslo = r->eoff = 0; r->lin = false; r->nelm = 0;
    switch (k) {
    case SETAO: { aoRecord* p = (aoRecord*)calloc(1, sizeof(aoRecord)); p->out.type = INST_IO; p->out.value.instio.string = strdup(link.c_str()); r->p = p; break; }
    case SETAI: case STATE: case RUNTIME: { aiRecord* p = (aiRecord*)calloc(1, sizeof(aiRecord)); p->inp.type = INST_IO; p->inp.value.instio.string = strdup(link.c_str()); r->p = p; break; }
    case DOSIM: { boRecord* p = (boRecord*)calloc(1, sizeof(boRecord)); p->out.type = INST_IO; p->out.value.instio.string = strdup(link.c_str()); r->p = p; break; }
    case INDEX: case RUNCOUNT: { longinRecord* p = (longinRecord*)calloc(1, sizeof(longinRecord)); p->inp.type = INST_IO; p->inp.value.instio.string = strdup(link.c_str()); r->p = p; break; }
    default: { waveformRecord* p = (waveformRecord*)calloc(1, sizeof(waveformRecord)); p->inp.type = INST_IO; p->inp.value.instio.string = strdup(link.c_str()); p->ftvl = k == LASTMSG ? menuFtypeCHAR : menuFtypeDOUBLE; r->p = p; break; }
    }
    snprintf(r->p->name, sizeof r->p->name, "rec%zu", recs->size()); r->p->udf = 1; r->p->tpro = draw(3) == 2; r->p->tse = draw(4) == 3 ? epicsTimeEventDeviceTime : 0;
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&r->lock, &a);
    recs->push_back(r); return r;
}
void convert(Rec* r)
{
    if (draw(3) == 2) { r->aslo = draw(2) ? 2 : -0.5; r->aoff = draw(2) ? 0 : 1.5; }
    if (draw(3) == 2) { r->lin = true; r->eslo = draw(3) ? 4 : 0; r->eoff = draw(2) ? 0 : -0.25; }
    int linr = r->lin ? 1 + (int)draw(2) : 0;
    if (r->kind == SETAO) { aoRecord* p = (aoRecord*)r->p; p->aslo = r->aslo; p->aoff = r->aoff; p->eslo = r->eslo; p->eoff = r->eoff; p->linr = linr; }
    else { aiRecord* p = (aiRecord*)r->p; p->aslo = r->aslo; p->aoff = r->aoff; p->eslo = r->eslo; p->eoff = r->eoff; p->linr = linr; }
}
void wave(Rec* r, uint32_t n) { waveformRecord* p = (waveformRecord*)r->p; r->nelm = p->nelm = n; p->bptr = calloc(n ? n : 1, r->kind == LASTMSG ? 1 : 8); }

// process a record: returns its severity.  called Internal
int process(Rec* r, const std::function<void()>& before, const std::function<void()>& after)
{
    { External X; pthread_mutex_lock(&r->lock); }
    before();
    r->p->nsta = r->p->nsev = 0;
    long rc;
    bool shortage = phase_faulty && draw(3) == 2; if (shortage) mem::arm(1 + (draw(3) ? draw(20) : draw(200)), 1 + (draw(3) == 2 ? draw(4) : 0));
    try { External X; rc = ((dsetx*)r->ds)->readwrite(r->p); }
    catch (std::exception& e) { violate("exception-escaped", "processing a %s record (%s) ended by an exception: %s", RKN[r->kind], r->link.c_str(), e.what()); }
    catch (...) { violate("exception-escaped", "processing a %s record (%s) ended by an exception", RKN[r->kind], r->link.c_str()); }
    if (shortage) mem::disarm();
    if (rc < 0 && r->p->nsev == 0) recGblSetSevr(r->p, READ_ALARM, INVALID_ALARM);
    r->p->stat = r->p->nsta; r->p->sevr = r->p->nsev;
    after();
    int s = r->p->sevr;
    { External X; pthread_mutex_unlock(&r->lock); }
    return s;
}
bool after_faults; bool armed() { return phase_faulty || after_faults; }
void do_set(SimI& S, Rec* r, double v)
{
    Set s; s.param = r->param; s.v = v; s.faulty = armed();
    int sev = process(r, [&] { s.inv = sched::seq(); ((aoRecord*)r->p)->val = r->conv(v); }, [&] { s.resp = sched::seq(); });
    s.flagged = sev != 0; if (r->bad) return;
    log("set %s %.6g%s", r->link.c_str(), v, s.flagged ? ": refused" : ""); count(s.flagged ? "op.set.refused" : "op.set"); S.sets.push_back(s);
}
void do_req(SimI& S, Rec* r)
{
    Req q; q.faulty = armed();
    int sev = process(r, [&] { q.inv = sched::seq(); ((boRecord*)r->p)->val = draw(2); }, [&] { q.resp = sched::seq(); });
    q.flagged = sev != 0; if (r->bad) return;
    log("request %s%s", r->link.c_str(), q.flagged ? ": refused" : ""); count("op.request"); S.reqs.push_back(q);
}
void do_read(Rec* r, bool final, int thread)
{
    SimI& S = (*sims)[r->sim]; Read R; R.rec = -1; for (size_t i = 0; i < recs->size(); i++) if ((*recs)[i] == r) R.rec = (int)i;
    R.final = final; R.phase = phase; R.thread = thread; R.faulty = armed();
    int sev = process(r, [&] { R.inv = sched::seq(); R.done_inv = S.head ? S.head->done : 0; }, [&] {
        switch (r->kind) {
        case SETAI: case STATE: case RUNTIME: R.v.push_back(((aiRecord*)r->p)->val); break;
        case INDEX: case RUNCOUNT: R.v.push_back(((longinRecord*)r->p)->val); break;
        case ORBIT: case IORBIT: { waveformRecord* p = (waveformRecord*)r->p; if (p->nord > p->nelm) violate("overrun", "%s: %u elements in a record of %u", r->link.c_str(), p->nord, p->nelm); R.v.assign((double*)p->bptr, (double*)p->bptr + p->nord); break; }
        case LASTMSG: { waveformRecord* p = (waveformRecord*)r->p; if (p->nord > p->nelm) violate("overrun", "%s: %u elements in a record of %u", r->link.c_str(), p->nord, p->nelm); R.text.assign((char*)p->bptr, p->nord); break; }
        default: break; }
        R.resp = sched::seq(); });
    R.flagged = sev != 0; count(R.flagged ? "op.read.invalid" : "op.read"); S.reads.push_back(R);
}
bool shellcmd(const char* name, const char* a, const char* b, int n = 0)
{
    iocshArgBuf x[3]; memset(x, 0, sizeof x); x[0].sval = (char*)a; if (b || !strcmp(name, "flamePrepare")) x[1].sval = (char*)b; else x[1].ival = n;
    iocshCallFunc f = (*shell)[name]; if (!f) broken("no command %s", name);
    try { External X; f(x); } catch (std::exception& e) { violate("exception-escaped", "the command %s ended by an exception: %s", name, e.what()); }
    log("shell: %s %s", name, a ? a : "-"); count("op.shell"); return true;
}
void client(int id, unsigned nops)
{
    for (unsigned i = 0; i < nops; i++) {
        Rec* r = 0; uint32_t k = draw(10); std::vector<Rec*> c;
        for (size_t j = 0; j < recs->size(); j++) { Rec* q = (*recs)[j]; bool set = q->kind == SETAO, req = q->kind == DOSIM; if (k < 3 ? set : k < 5 ? req : (!set && !req)) c.push_back(q); }
        if (k == 9 || c.empty()) {
            uint32_t w = draw(5); const std::string& n = (*sims)[draw((uint32_t)sims->size())].name;
            if (w == 0) shellcmd("flameDebug", n.c_str(), 0, (int)draw(4) - 1); else if (w == 1) shellcmd("flameShow", n.c_str(), 0); else if (w == 2) shellcmd("flameShowConfig", n.c_str(), 0); else if (w == 3 && (*sims)[n[1] - '0'].up) shellcmd("flamePrepare", n.c_str(), (*sims)[0].file.c_str()); else shellcmd("flameDebug", draw(2) ? 0 : "nosuch", 0, 1);
            continue;
        }
        r = c[draw((uint32_t)c.size())]; SimI& S = (*sims)[r->sim];
        if (r->kind == SETAO) {
            if (r->bad) { do_set(S, r, 1); continue; }
            const Param& P = S.params[r->param]; double v;
            if (P.name == "fail" || P.name == "refuse") v = draw(2) ? draw(8) + 1 : 0; else v = (P.v0 == 0 ? 0.125 : P.v0) * (1 + 0.03125 * (double)(1 + draw(30)));
            do_set(S, r, v);
        } else if (r->kind == DOSIM) do_req(S, r); else do_read(r, false, id);
        External X; sched::point("client");
    }
}

// ---- reference ------------------------------------------------------------------------------------
typedef std::vector<int> Vec; // version of each parameter: 0 initial, k: k-th accepted setting
struct Ans { bool ok; std::string err; std::vector<gen::Snap> at; };
struct Obs : public Observer { Ans* a; virtual ~Obs() {} virtual void view(const ElementVoid* e, const StateBase* s) { if (a->at.size() <= e->index) a->at.resize(e->index + 1); a->at[e->index] = gen::snap(const_cast<StateBase*>(s)); } };
struct Ref {
    SimI& S; std::vector<std::vector<const Set*> > vers; std::map<Vec, Ans> memo;
    Ref(SimI& s) : S(s), vers(s.params.size()) { std::sort(S.sets.begin(), S.sets.end(), [](const Set& a, const Set& b) { return a.inv < b.inv; }); /* a setting has one record, which is locked while it is processed */ for (size_t i = 0; i < S.sets.size(); i++) if (!S.sets[i].flagged) vers[S.sets[i].param].push_back(&S.sets[i]); }
    double value(size_t p, int v) { return v ? vers[p][v - 1]->v : S.params[p].v0; }
    const Ans& get(const Vec& V)
    {
        std::map<Vec, Ans>::iterator it = memo.find(V); if (it != memo.end()) return it->second;
        Ans& A = memo[V]; A.ok = false; Machine M(*S.conf); Obs o; o.a = &A;
        for (size_t p = 0; p < V.size(); p++) if (V[p]) { Config c(M[S.params[p].idx]->conf()); c.set<double>(S.params[p].name, value(p, V[p])); try { M.reconfigure(S.params[p].idx, c); } catch (std::exception& e) { violate("accepted", "setting %s of %s to %g was accepted, but is invalid: %s", S.params[p].name.c_str(), S.params[p].elem.c_str(), value(p, V[p]), e.what()); } }
        for (size_t i = 0; i < M.size(); i++) M[i]->set_observer(&o);
        try { std::unique_ptr<StateBase> s(M.allocState()); M.propagate(s.get()); A.ok = true; } catch (std::exception& e) { A.err = e.what(); }
        for (size_t i = 0; i < M.size(); i++) M[i]->set_observer(0);
        return A;
    }
    bool refuses(int p, double v) { Machine M(*S.conf); Config c(M[S.params[p].idx]->conf()); c.set<double>(S.params[p].name, v); try { M.reconfigure(S.params[p].idx, c); } catch (std::exception&) { return true; } return false; }
};
bool same(double a, double b) { return a == b || (a != a && b != b) || fabs(a - b) <= 1e-7 * std::max(fabs(a), fabs(b)) || fabs(a - b) < 1e-300; }
// the quantity of a snapshot
bool quantity(const gen::Snap& s, const std::string& n, const std::vector<size_t>& idx, double& out)
{
    for (size_t i = 0; i < s.names.size(); i++) if (s.names[i] == n) {
        size_t nd = idx.size(), flat = 0; const std::vector<double>& v = s.vals[i]; // v: the dimensions, then the values
        for (size_t d = 0; d < nd; d++) { if (d >= v.size() || idx[d] >= (size_t)v[d]) return false; flat = flat * (size_t)v[d] + idx[d]; }
        if (nd + flat >= v.size()) return false;
        out = v[nd + flat]; return true;
    }
    return false;
}
struct Shape { std::vector<size_t> dim; };
bool matches(const Rec& r, const Read& R, const Ans& A, std::string& why)
{
    char b[200]; const std::vector<size_t>* el; std::vector<size_t> one(1, r.elem); el = r.kind == ORBIT ? &r.elems : &one;
    for (size_t i = 0; i < el->size() && i < R.v.size(); i++) {
        size_t e = (*el)[i]; double w; if (e >= A.at.size() || !quantity(A.at[e], r.qty, r.dim, w)) { why = "no such quantity"; return false; }
        if (r.kind == STATE) w = r.conv(w);
        if (!same(R.v[i], w)) { snprintf(b, sizeof b, "element %zu: %.12g, should be %.12g", e, R.v[i], w); why = b; return false; }
    }
    return true;
}
void check(SimI& S)
{
    if (!S.up) return;
    Ref ref(S); size_t NP = S.params.size();
    for (size_t i = 0; i < S.sets.size(); i++) { const Set& s = S.sets[i]; if (s.flagged && !s.faulty && !ref.refuses(s.param, s.v)) violate("refused", "setting %s of %s to %g was refused", S.params[s.param].name.c_str(), S.params[s.param].elem.c_str(), s.v); }
    for (size_t i = 0; i < S.reqs.size(); i++) if (S.reqs[i].flagged && !S.reqs[i].faulty) violate("refused", "a request for a simulation was refused");
    Vec lo(NP, 0); bool ran = false; // lo: what the last simulation before this phase contains at least
    std::map<int, std::pair<uint64_t, std::vector<Vec> > > prev; // last reading of each thread
    for (size_t ph = 0; ph < S.phases.size(); ph++) {
        const Phase& P = S.phases[ph]; Vec need = lo; uint64_t lastreq = 0; bool clean = false;
        for (size_t i = 0; i < S.reqs.size(); i++) if (S.reqs[i].inv >= P.begin && S.reqs[i].resp <= P.end && !S.reqs[i].flagged && S.reqs[i].inv > lastreq) { lastreq = S.reqs[i].inv; clean = !S.reqs[i].faulty; }
        if (lastreq) {
            if (P.d1 <= P.d0) violate("lost-request", "no simulation was completed after a request, and the server is idle");
            for (size_t p = 0; p < NP; p++) for (size_t k = 0; k < ref.vers[p].size(); k++) if (ref.vers[p][k]->resp < lastreq) need[p] = std::max(need[p], (int)k + 1);
        }
        std::vector<Vec> fin; bool first = true; // what may be shown once the server is idle
        for (size_t i = 0; i < S.reads.size(); i++) {
            const Read& R = S.reads[i]; if (R.phase != (int)ph) continue;
            const Rec& r = *(*recs)[R.rec]; if (r.bad) continue;
            Vec L = R.final ? need : lo, Hi(NP, 0); uint64_t combos = 1;
            for (size_t p = 0; p < NP; p++) { for (size_t k = 0; k < ref.vers[p].size(); k++) if (ref.vers[p][k]->inv < R.resp) Hi[p] = (int)k + 1; if (Hi[p] < L[p]) Hi[p] = L[p]; combos *= Hi[p] - L[p] + 1; }
            bool norun = R.done_inv == 0 && !R.final; bool faulty = R.faulty || (R.phase < (int)S.phases.size() && P.faulty && !R.final);
            switch (r.kind) {
            case INDEX: if (R.flagged || R.v[0] != r.elem) violate("wrong-index", "%s: %g, should be %zu", r.link.c_str(), R.v[0], r.elem); break;
            case IORBIT: { bool fit = r.elems.size() <= r.nelm; if (fit == R.flagged && !faulty) violate("wrong-index", "%s: %s", r.link.c_str(), fit ? "invalid" : "valid"); if (!R.flagged && R.v.size() != std::min((size_t)r.nelm, r.elems.size())) violate("wrong-index", "%s: %zu elements", r.link.c_str(), R.v.size()); for (size_t k = 0; k < R.v.size(); k++) if (R.v[k] != r.elems[k]) violate("wrong-index", "%s: %g, should be %zu", r.link.c_str(), R.v[k], r.elems[k]); break; }
            case SETAI: {
                if (R.flagged) { if (!faulty) violate("invalid", "%s: invalid", r.link.c_str()); break; }
                int p = r.param; bool ok = false; int newest = 0; for (size_t k = 0; k < ref.vers[p].size(); k++) if (ref.vers[p][k]->resp < R.inv) newest = (int)k + 1;
                for (int k = newest; k <= (int)ref.vers[p].size() && !ok; k++) if (k == 0 || ref.vers[p][k - 1]->inv < R.resp) ok = same(R.v[0], r.conv(ref.value(p, k)));
                if (!ok) violate("stale-setting", "%s: %.12g, should be %.12g", r.link.c_str(), R.v[0], r.conv(ref.value(p, newest)));
                break; }
            case RUNTIME: if (!R.flagged && R.done_inv && !(R.v[0] >= 0)) violate("run-time", "the run time is %g", R.v[0]); break;
            case LASTMSG: if (R.final && lastreq && clean && P.exact) { const Ans& A = ref.get(need); if (!A.ok && R.text != A.err.substr(0, r.nelm)) violate("message", "the last message is '%s', should be '%s'", R.text.c_str(), A.err.c_str()); } break;
            case STATE: case ORBIT: {
                if (combos > 256) { count("reading.skipped"); break; }
                bool cut = r.kind == ORBIT && r.elems.size() > r.nelm; // always invalid
                bool asked = false; for (size_t k = 0; k < S.reqs.size(); k++) if (S.reqs[k].inv < R.resp) asked = true;
                if (R.final && !ran && !lastreq) { if (!R.flagged) violate("valid-before-first", "%s is valid before any simulation", r.link.c_str()); break; }
                if (!asked && !R.flagged) violate("valid-before-first", "%s is valid before any simulation was requested", r.link.c_str());
                if (cut) { if (!R.flagged) violate("cut", "%s does not hold all elements, but is valid", r.link.c_str()); break; }
                if (r.kind == ORBIT && !R.flagged && R.v.size() != r.elems.size()) violate("wrong-result", "%s: %zu values, should be %zu", r.link.c_str(), R.v.size(), r.elems.size());
                std::vector<Vec> ok; std::string why, w1; bool mayfail = norun || faulty;
                // a quantity that states of this machine do not have
                Vec V = L; for (;;) {
                    const Ans& A = ref.get(V);
                    if (!A.ok) { mayfail = true; if (R.flagged) ok.push_back(V); }
                    else if (!R.flagged && matches(r, R, A, w1)) ok.push_back(V); else if (!R.flagged && why.empty()) why = w1;
                    else if (R.flagged && A.ok) { double x; std::vector<size_t> el(1, r.elem); if (r.kind == ORBIT) el = r.elems; bool has = true; for (size_t k = 0; k < el.size(); k++) has = has && el[k] < A.at.size() && quantity(A.at[el[k]], r.qty, r.dim, x); if (!has) { if (r.kind == ORBIT && r.elems[0] < A.at.size() && quantity(A.at[r.elems[0]], r.qty, r.dim, x)) count("reading.partly-absent"); mayfail = true; ok.push_back(V); } }
                    size_t p = 0; while (p < NP && V[p] == Hi[p]) { V[p] = L[p]; p++; } if (p == NP) break; V[p]++;
                }
                if (R.flagged && !mayfail) violate("invalid", "%s is invalid although no simulation failed", r.link.c_str());
                if (!R.flagged && ok.empty()) violate(R.final ? "stale-result" : "wrong-result", "%s shows the result of no simulation of the settings made%s: %s", r.link.c_str(), R.final ? " before the last request" : "", why.c_str());
                reach(hashstr(r.qty) ^ (R.flagged * 7919) ^ (combos * 104729) ^ (R.final * 31) ^ (ok.size() * 1299709));
                if (R.flagged && (norun || faulty)) break; // may be from any
                if (R.final) {
                    if (first) fin = ok; else { std::vector<Vec> x; for (size_t a = 0; a < fin.size(); a++) for (size_t c = 0; c < ok.size(); c++) if (fin[a] == ok[c]) { x.push_back(fin[a]); break; } fin = x; }
                    first = false;
                    if (fin.empty()) violate("mixture", "readings of an idle server show different simulations (%s)", r.link.c_str());
                } else {
                    std::map<int, std::pair<uint64_t, std::vector<Vec> > >::iterator q = prev.find(R.thread);
                    if (q != prev.end()) { bool any = false; for (size_t a = 0; a < ok.size() && !any; a++) for (size_t c = 0; c < q->second.second.size() && !any; c++) { bool ge = true; for (size_t p = 0; p < NP; p++) if (ok[a][p] < q->second.second[c][p]) ge = false; any = ge; } if (!any && !ok.empty()) violate("went-back", "%s shows an older simulation than the reading before it", r.link.c_str()); }
                    if (!ok.empty()) prev[R.thread] = std::make_pair(R.resp, ok);
                }
                break; }
            default: break; }
        }
        if (lastreq) ran = true;
        lo = need; prev.clear();
        if (!fin.empty()) { Vec m = fin[0]; for (size_t a = 1; a < fin.size(); a++) for (size_t p = 0; p < NP; p++) m[p] = std::min(m[p], fin[a][p]); for (size_t p = 0; p < NP; p++) lo[p] = std::max(lo[p], m[p]); }
    }
}

// ---- the server ---------------------------------------------------------------------------------------
int go = 0, finished = 0, nclients = 0; unsigned nops[4]; bool quit = false;
void prepare_sims(unsigned n)
{
    for (unsigned i = 0; i < n; i++) {
        sims->push_back(SimI()); SimI& S = sims->back(); S.head = 0; S.up = false; char b[64]; snprintf(b, sizeof b, "S%u", i); S.name = b; S.file = scratch() + "/" + b + ".lat";
        int kind = draw(2) ? 1 + (int)draw(2) : 0; Config c = gen::machine(kind, 1 + draw(4), (draw(2) ? gen::F_CAVITY : 0) | (draw(2) ? gen::F_STRIPPER : 0), true);
        Config::vector_t E = c.get<Config::vector_t>("elements"), F; bool strip = kind == 0 && draw(3) == 2; if (strip) { Config e = gen::moment_element_type("stripper", "strip", gen::F_STRIPPER); unsigned nc = 1 + draw(2); std::vector<double> a, q; for (unsigned k = 0; k < nc; k++) { a.push_back((76.0 + k) / 238); q.push_back(1000 + 10 * k); } e.set<std::vector<double> >("IonChargeStates", a); e.set<std::vector<double> >("NCharge", q); E.insert(E.begin() + 1 + draw((uint32_t)E.size()), e); count("machine.stripped"); }
        bool onename = draw(2); unsigned ne = 1 + draw(onename ? 5 : 3), at[5]; for (unsigned k = 0; k < ne; k++) at[k] = draw((uint32_t)E.size() + 1); if (strip) at[0] = 1 + draw((uint32_t)E.size()), at[ne - 1] = (unsigned)E.size();
        unsigned serial = 0;
        for (size_t k = 0; k <= E.size(); k++) { for (unsigned j = 0; j < ne; j++) if (at[j] == k && k > 0) { Config e; snprintf(b, sizeof b, "se%u", onename ? 0 : serial++); e.set<std::string>("name", b); e.set<std::string>("type", "simelem"); e.set<double>("gain", 0.5); e.set<double>("fail", draw(12) == 11 ? 1 : 0); e.set<double>("refuse", 0); F.push_back(e); } if (k < E.size()) F.push_back(E[k]); }
        c.set<Config::vector_t>("elements", F);
        std::ostringstream o; GLPSPrint(o, c); io::put(S.file, draw(16) == 15 ? o.str().substr(0, o.str().size() / 2) : o.str(), 1000000);
        try { GLPSParser P; S.conf.reset(P.parse_file(S.file.c_str())); Machine M(*S.conf); static const char* const N[] = { "L", "B", "B2", "theta_x", "theta_y", "phi", "scl_fac", "K", "gain", "fail", "refuse" };
            std::vector<Param> all; for (size_t k = 0; k < M.size(); k++) for (size_t j = 0; j < sizeof N / sizeof *N; j++) { double v; if (M[k]->conf().tryGet<double>(N[j], v)) { Param p; p.elem = M[k]->name; p.idx = k; p.name = N[j]; p.v0 = v; all.push_back(p); if (M[k]->name == "se0") all.push_back(p); } }
            unsigned np = 1 + draw(4); for (unsigned k = 0; k < np && !all.empty(); k++) { unsigned j = draw((uint32_t)all.size()); Param q = all[j]; S.params.push_back(q); for (size_t i = all.size(); i-- > 0;) if (all[i].idx == q.idx && all[i].name == q.name) all.erase(all.begin() + i); }
        } catch (std::exception& e) { S.conf.reset(); log("lattice is invalid: %s", e.what()); }
        gen::Snap dummy;
    }
}
size_t instance(Machine& M, size_t e) { size_t n = 0; for (size_t i = 0; i < e; i++) if (M[i]->name == M[e]->name) n++; return n; }
std::string nth(Machine& M, size_t e) { size_t n = instance(M, e); if (n == 0 && draw(2)) return M[e]->name; char b[32]; snprintf(b, sizeof b, "[%zu]", n); return M[e]->name + b; }
void make_records()
{
    for (size_t si = 0; si < sims->size(); si++) {
        SimI& S = (*sims)[si]; if (!S.conf.get()) { if (draw(2)) { Rec* r = mk(DOSIM, pvar_dset_devFLAMEboDoSim, S.name, (int)si); r->bad = true; } continue; }
        Machine M(*S.conf); std::unique_ptr<StateBase> st(M.allocState());
        for (size_t p = 0; p < S.params.size(); p++) {
            std::string l = S.name + " " + nth(M, S.params[p].idx) + " " + S.params[p].name;
            Rec* r = mk(SETAO, pvar_dset_devFLAMEaoSetting, l, (int)si); r->param = (int)p; convert(r);
            if (draw(2)) { r = mk(SETAI, pvar_dset_devFLAMEaiSetting, l, (int)si); r->param = (int)p; convert(r); }
        }
        for (unsigned k = 0; k < 1 + draw(2); k++) mk(DOSIM, pvar_dset_devFLAMEboDoSim, S.name, (int)si);
        // quantities of a state, with the position of one value of each in the snapshot
        bool E0 = M.find("strip", 0) != 0; struct Q { std::string n; std::vector<size_t> d; }; std::vector<Q> qs;
        for (unsigned k = 0;; k++) { StateBase::ArrayInfo I; if (!st->getArray(k, I)) break; if (I.type != StateBase::ArrayInfo::Double || I.ndim > 2) continue; Q q; q.n = I.name; for (unsigned d = 0; d < I.ndim; d++) q.d.push_back(draw(I.dim[d] ? (uint32_t)I.dim[d] : 3)); if (draw(12) == 11 && q.d.size()) q.d[draw((uint32_t)q.d.size())] += draw(2) ? 3 : 1000000; // beyond the array: never valid
            qs.push_back(q); if (q.d.size() && E0) for (int k = 0; k < 3; k++) { q.d.back() = draw(3); qs.push_back(q); } if (q.n == "pos") { qs.push_back(q); qs.push_back(q); } }
        unsigned n = 1 + draw(4);
        for (unsigned k = 0; k < n; k++) {
            const Q& q = qs[draw((uint32_t)qs.size())]; char b[80]; std::string suffix = q.n; if (q.d.size() == 1) { snprintf(b, sizeof b, "[%zu]", q.d[0]); suffix += b; } else if (q.d.size() == 2) { snprintf(b, sizeof b, "[%zu,%zu]", q.d[0], q.d[1]); suffix += b; }
            uint32_t w = draw(4); if (E0 && draw(2)) w = 2; size_t e = draw((uint32_t)M.size());
            if (w < 2) { Rec* r = mk(STATE, pvar_dset_devFLAMEaiState, S.name + " " + nth(M, e) + " " + suffix, (int)si); r->elem = e; r->qty = q.n; r->dim = q.d; convert(r); }
            else {
                std::string t = draw(2) ? "simelem" : M[e]->type_name(); std::pair<Machine::lookup_iterator, Machine::lookup_iterator> p = M.equal_range_type(t); std::vector<size_t> el; for (; p.first != p.second; ++p.first) el.push_back((*p.first)->index); if (el.empty()) continue;
                Rec* r = mk(w == 2 ? ORBIT : IORBIT, w == 2 ? pvar_dset_devFLAMEwaveformSOrbit : pvar_dset_devFLAMEwaveformIOrbit, S.name + " " + t + " " + suffix, (int)si); r->elems = el; r->qty = q.n; r->dim = q.d; wave(r, draw(8) == 7 ? (uint32_t)el.size() - 1 : (uint32_t)el.size() + draw(3));
            }
        }
        if (draw(2)) { Rec* r = mk(LASTMSG, pvar_dset_devFLAMEwaveformLastMsg, S.name, (int)si); wave(r, draw(4) == 3 ? 10 : 200); }
        if (draw(2)) mk(RUNTIME, pvar_dset_devFLAMEaiRuntime, S.name, (int)si);
        if (draw(2)) mk(RUNCOUNT, pvar_dset_devFLAMElonginRuncount, S.name, (int)si);
        if (draw(2)) { size_t e = draw((uint32_t)M.size()); Rec* r = mk(INDEX, pvar_dset_devFLAMElonginIndex, S.name + " " + nth(M, e), (int)si); r->elem = e; }
        if (draw(3) == 2) { // links that name nothing
            static const char* const B[] = { "", "x", "nosuch a b", "%s nosuch L", "%s nosuch[3] pos", "%s  ", "%s se0 nosuch", "%s se0[7] gain", "%s se0 moment0[9999999999999999999999]" };
            char b[200]; snprintf(b, sizeof b, B[draw(9)], S.name.c_str()); RK k = (RK)draw(10); dset* D[] = { pvar_dset_devFLAMEaoSetting, pvar_dset_devFLAMEaiSetting, pvar_dset_devFLAMEboDoSim, pvar_dset_devFLAMEaiState, pvar_dset_devFLAMEwaveformSOrbit, pvar_dset_devFLAMElonginIndex, pvar_dset_devFLAMEwaveformIOrbit, pvar_dset_devFLAMEwaveformLastMsg, pvar_dset_devFLAMEaiRuntime, pvar_dset_devFLAMElonginRuncount };
            Rec* r = mk(k, D[k], b, (int)si); r->bad = true; if (k == ORBIT || k == IORBIT || k == LASTMSG) wave(r, 4);
        }
    }
}
void scan_thread()
{
    Internal I;
    for (;;) {
        sched::cond_t c = [] { return !cbq->empty() || cbstop; }; sched::block_until(c, "a callback");
        if (cbstop) return;
        ioscan_head* h = cbq->front(); cbq->pop_front(); sched::hb_acquire(cbq);
        for (size_t i = 0; i < h->list.size(); i++) { Rec* r = h->list[i]; if (r->kind == SETAI || r->kind == STATE || r->kind == ORBIT || r->kind == LASTMSG || r->kind == RUNTIME || r->kind == RUNCOUNT || r->kind == IORBIT) do_read(r, false, 90); }
    }
}
void client_thread(int id)
{
    Internal I;
    for (int ph = 1;; ph++) {
        sched::cond_t c = [ph] { return go >= ph || quit; }; sched::block_until(c, "the next phase"); sched::hb_acquire(&go);
        if (quit && go < ph) return;
        client(id, nops[id]);
        finished++; sched::hb_release(&finished);
    }
}
struct NullBuf : public std::streambuf { int overflow(int c) { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };

void server()
{
    Internal I;
    faults = chance(1, 3); cbcap = draw(3) ? 6 : 1;
    // start-up script: one thread
    if (draw(8) == 7) { shellcmd("flamePrepare", "nolattice", 0); shellcmd("flamePrepare", 0, 0); }
    for (size_t i = 0; i < sims->size(); i++) {
        SimI& S = (*sims)[i]; size_t h0 = heads->size(); unsigned tries = 0; bool refused = false;
        bool oom = faults && draw(3) == 2;
        do {
            unsigned t0 = 0; (void)t0;
            if (oom && !tries) { if (draw(2)) start_oom = true; else mem::arm(1 + (draw(2) ? draw(30) : draw(2000)), 1); }
            shellcmd("flamePrepare", S.name.c_str(), tries == 0 && draw(20) == 19 ? "/nosuch/file.lat" : S.file.c_str());
            mem::disarm(); start_oom = false; refused = heads->size() == h0 || false;
            // up? a setting record finds it
            Rec* r = mk(RUNTIME, pvar_dset_devFLAMEaiRuntime, S.name, (int)i); try { External X; ((dsetx*)r->ds)->init_record(r->p); } catch (std::exception& e) { violate("exception-escaped", "initialising a record: %s", e.what()); }
            S.up = r->p->dpvt != 0; recs->pop_back();
            if (S.up) S.head = heads->back();
        } while (!S.up && ++tries < 3 && S.conf.get());
        (void)refused;
        if (S.up && !S.conf.get()) violate("accepted", "an invalid lattice file gave a simulation");
        if (!S.up && S.conf.get() && !faults) violate("refused", "a valid lattice file gave no simulation");
        if (!S.up && S.conf.get()) { S.conf.reset(); count("prepare.failed"); }
    }
    make_records();
    // iocInit
    for (size_t i = 0; i < recs->size(); i++) {
        Rec* r = (*recs)[i]; dsetx* d = (dsetx*)r->ds; long rc; (void)rc;
        try { External X; rc = d->init_record(r->p); } catch (std::exception& e) { violate("exception-escaped", "initialising %s: %s", r->link.c_str(), e.what()); }
        if (!r->bad && !r->p->dpvt) violate("record-refused", "a %s record with link '%s' could not be initialised", RKN[r->kind], r->link.c_str());
        if (r->bad && r->p->dpvt && r->kind != RUNCOUNT) r->bad = true;
        if (!r->bad && (r->kind == SETAO || r->kind == SETAI)) { double v = r->kind == SETAO ? ((aoRecord*)r->p)->val : ((aiRecord*)r->p)->val, w = r->conv((*sims)[r->sim].params[r->param].v0); if (!same(v, w)) violate("initial-value", "%s starts with %.12g, should be %.12g", r->link.c_str(), v, w); }
        if (d->get_iointr && draw(4)) { IOSCANPVT h = 0; { External X; d->get_iointr(0, r->p, &h); } if (h) h->list.push_back(r); }
    }
    sched::hb_release(&go);
    sched::spawn([] { { Internal I; sched::hb_acquire(&go); } scan_thread(); }, "scan");
    nclients = 1 + (int)draw(3); for (int k = 0; k < nclients; k++) sched::spawn([k] { client_thread(k); }, "client");
    unsigned np = 1 + draw(sim::tier() ? 5 : 3);
    for (unsigned ph = 0; ph < np; ph++) {
        Op op; if (ph) phase++; phase_faulty = faults && draw(2); finished = 0;
        for (size_t i = 0; i < sims->size(); i++) { Phase P; P.begin = sched::seq(); P.end = ~0ULL; P.faulty = phase_faulty; P.exact = false; P.d0 = (*sims)[i].head ? (*sims)[i].head->done : 0; P.d1 = 0; (*sims)[i].phases.push_back(P); }
        for (int k = 0; k < nclients; k++) nops[k] = draw(6);
        sched::hb_release(&go); go = (int)ph + 1;
        sched::cond_t c = [] { return finished >= nclients; }; sched::block_until(c, "the clients"); sched::hb_acquire(&finished);
        int srv = sched::self(); bool was = phase_faulty; sched::cond_t idle = [srv] { return sched::others_idle(srv); }; sched::block_until(idle, "an idle server");
        mem::disarm(); bool exact = phase_faulty || draw(3) > 0; phase_faulty = false;
        if (was) { // what an idle server shows after failures: the last simulation, or that it is not valid
            after_faults = true; for (size_t i = 0; i < sims->size(); i++) { SimI& S = (*sims)[i]; S.phases.back().end = sched::seq(); S.phases.back().d1 = S.head ? S.head->done : 0; }
            for (size_t i = 0; i < recs->size(); i++) if ((*recs)[i]->kind != SETAO && (*recs)[i]->kind != DOSIM && (*sims)[(*recs)[i]->sim].up) do_read((*recs)[i], true, 99);
            after_faults = false; phase++;
            for (size_t i = 0; i < sims->size(); i++) { Phase P; P.begin = sched::seq(); P.end = ~0ULL; P.faulty = false; P.exact = false; P.d0 = (*sims)[i].head ? (*sims)[i].head->done : 0; P.d1 = 0; (*sims)[i].phases.push_back(P); }
        }
        for (size_t i = 0; i < sims->size(); i++) { SimI& S = (*sims)[i]; if (!S.up) continue; if (exact) { uint64_t d = S.head->done; for (size_t k = 0; k < recs->size(); k++) if ((*recs)[k]->kind == DOSIM && !(*recs)[k]->bad && (*recs)[k]->sim == (int)i) { S.phases.back().d0 = d; do_req(S, (*recs)[k]); S.phases.back().exact = true; break; } } }
        sched::block_until(idle, "an idle server");
        for (size_t i = 0; i < sims->size(); i++) { SimI& S = (*sims)[i]; S.phases.back().end = sched::seq(); S.phases.back().d1 = S.head ? S.head->done : 0; }
        for (size_t i = 0; i < recs->size(); i++) if ((*recs)[i]->kind != SETAO && (*recs)[i]->kind != DOSIM && (*sims)[(*recs)[i]->sim].up) do_read((*recs)[i], true, 99);
        log("phase %u done", ph);
    }
    // shutdown, possibly while clients are busy
    phase = 1 << 20; finished = 0; bool busy = draw(2);
    if (busy) { for (int k = 0; k < nclients; k++) nops[k] = draw(6); sched::hb_release(&go); go = (int)np + 1; External X; for (unsigned k = draw(6); k > 0; k--) sched::point("exit"); }
    shutting = true;
    { External X; exitfn(exitarg); }
    if (alive) violate("worker-left", "the server has stopped, but %d of its threads are still running", alive);
    log("stopped");
    if (busy) { sched::cond_t c = [] { return finished >= nclients; }; sched::block_until(c, "the clients"); }
    quit = true; cbstop = true;
}
} // namespace

WORKLOAD(c12, "virtual accelerator server: settings, requests, readings and shutdown under every interleaving")
{
    Internal I; static NullBuf nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
    if (!tracing()) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
    sims = new std::vector<SimI>; recs = new std::vector<Rec*>; shell = new std::map<std::string, iocshCallFunc>; cbq = new std::deque<ioscan_head*>; heads = new std::vector<ioscan_head*>;
    gen::set_datadir();
    { External X; pvar_func_flameRegistrar(); }
    static const char* const T[] = { "Vector", "TransferMatrix", "MomentMatrix" }; for (int i = 0; i < 3; i++) Machine::registerElement<SimElem>(T[i], "simelem");
    Machine::log_detail = 32767;
    prepare_sims(1 + (draw(3) == 2));
    std::vector<std::function<void()> > f; f.push_back(server);
    sched::run(f, sched::random_policy());
    uint64_t h = 0; for (size_t i = 0; i < sims->size(); i++) { SimI& S = (*sims)[i]; h = hashbytes(&i, sizeof i, h); for (size_t k = 0; k < S.reads.size(); k++) { char c[2] = { (char)S.reads[k].rec, (char)(S.reads[k].flagged + 2 * (S.reads[k].done_inv & 63)) }; h = hashbytes(c, 2, h); } }
    reach(h);
    for (size_t i = 0; i < sims->size(); i++) check((*sims)[i]);
}
