// C09: log messages are delivered exactly once, whole, to a logger installed meanwhile; loggers are released.
#include "gen.h"
#include <string.h>
#include <stdio.h>
#include <stdexcept>
#include <sstream>
#include <iostream>
#include <boost/make_shared.hpp>
#include <boost/weak_ptr.hpp>
using namespace sim;

namespace {
enum Beh { PLAIN, THROWS, RECURSES, REPLACES, SLOW, RESETS, BUILDS, LASTWORDS, NB };
const char* const BN[] = { "plain", "throwing", "logging", "replacing", "slow", "resetting", "machine building", "farewell" };
struct Install { int id; uint64_t t0, t1; };                 // set_logger(logger id), id 0: the default logger
struct Msg { std::string text, file; unsigned line, level; bool enabled; uint64_t t0, t1; int thread; bool done; };
struct Del { int logger; std::string text, file; unsigned line, level; uint64_t t; int thread; };
struct World { std::vector<Install> ins; std::vector<Msg> msgs; std::vector<Del> dels; int nlog, alive; std::vector<int> live; int depth[32]; std::string err[32]; std::vector<std::string> lines; std::string cerrbuf; std::vector<boost::weak_ptr<Machine::Logger> > weak; int nmsg; };
World* W;

void install(int id, const boost::shared_ptr<Machine::Logger>& p)
{
    Install x; x.id = id; size_t at; { Internal I; x.t0 = sched::seq(); x.t1 = ~0ULL; at = W->ins.size(); W->ins.push_back(x); log("thread %d set_logger(%d)", sched::self(), id); }
    Machine::set_logger(p);
    { Internal I; W->ins[at].t1 = sched::seq(); count(id ? "op.set_logger" : "op.reset_logger"); }
}
void say(unsigned lvl, const char* how);
void fresh(unsigned beh);
struct L : public Machine::Logger {
    int id; unsigned beh;
    L(unsigned b) : beh(b) { Internal I; id = ++W->nlog; W->live.resize(W->nlog + 1); W->live[id] = 1; W->alive++; }
    ~L() { if (beh == LASTWORDS) { int& dep = W->depth[sched::self()]; if (dep < 2) { dep++; say(FLAME_ERROR, "farewell"); dep--; } } Internal I; W->live[id] = 0; W->alive--; sim::log("logger %d destroyed", id); count("logger.destroyed"); }
    void log(const Machine::LogRecord& r)
    {
        Del d; d.logger = id; d.text = r.strm.str(); d.file = r.fname; d.line = r.lnum; d.level = r.level;
        { Internal I; d.thread = sched::self(); d.t = sched::seq(); W->dels.push_back(d); if (W->live[id] != 1) violate("logger-used-after-release", "logger %d", id); sim::log("logger %d (%s) gets '%s'", id, BN[beh], d.text.c_str()); }
        int& dep = W->depth[sched::self()];
        if (dep < 2) {
            dep++;
            struct D { int& d; ~D() { d--; } } guard = { dep };
            switch (beh) {
            case THROWS: count("fault.logger-throws"); throw std::runtime_error("logger fails");
            case RECURSES: say(FLAME_ERROR, "nested"); break;
            case REPLACES: fresh(draw(NB)); break;
            case SLOW: for (int i = 0; i < 3; i++) sched::point("slow"); break;
            case RESETS: install(0, boost::shared_ptr<Machine::Logger>()); break;
            case BUILDS: { Config c, e; e.set<std::string>("type", "drift"); e.set<std::string>("name", "d"); std::vector<Config> v(1, e); c.set<std::string>("sim_type", "Vector"); c.set<std::vector<Config> >("elements", v); Machine M(c); } break;
            default: break;
            }
        }
        { Internal I; if (W->live[id] != 1) violate("logger-used-after-release", "logger %d was destroyed while handling a message", id); }
    }
};
void fresh(unsigned beh)
{
    L* l = new L(beh); boost::shared_ptr<Machine::Logger> p(l); int id = l->id; { Internal I; W->weak.push_back(boost::weak_ptr<Machine::Logger>(p)); }
    install(id, p);
}
// standard error, where the default logger writes
struct Cerr : public std::streambuf {
    int overflow(int c) { if (c != EOF) { char ch = (char)c; xsputn(&ch, 1); } return c; }
    std::streamsize xsputn(const char* s, std::streamsize n)
    {
        sched::point("stderr"); Internal I;
        W->cerrbuf.append(s, n);
        size_t e; while ((e = W->cerrbuf.find('\n')) != std::string::npos) { W->lines.push_back(W->cerrbuf.substr(0, e)); W->cerrbuf.erase(0, e + 1); W->err[sched::self()] = ""; Del d; d.logger = 0; d.text = W->lines.back(); d.t = sched::seq(); d.thread = sched::self(); d.level = d.line = 0; if (d.text.find("failed to log") == std::string::npos) { W->dels.push_back(d); log("stderr gets '%s'", d.text.c_str()); } }
        return n;
    }
};
void say(unsigned lvl, const char* how)
{
    Msg m; size_t at; std::string pay; double num = draw(1000) / 8.0;
    { Internal I; m.level = lvl; m.enabled = Machine::log_detail <= (int)lvl; m.thread = sched::self(); m.done = false; m.file = __FILE__; m.t1 = ~0ULL; pay = std::string(draw(4) ? draw(20) : draw(200), 'a' + draw(26)); char b[64]; snprintf(b, sizeof b, "<m%d %s ", ++W->nmsg, how); std::ostringstream o; o << b << num << pay << ">"; m.text = o.str(); at = W->msgs.size(); m.t0 = sched::seq(); pay = pay + ">"; W->msgs.push_back(m); }
    std::string head; { Internal I; char b[64]; snprintf(b, sizeof b, "<m%d %s ", (int)at + 1, how); head = b; W->msgs[at].text = head; std::ostringstream o; o << num; W->msgs[at].text += o.str() + pay; }
    unsigned line = 0; bool esc = false;
    try { switch (lvl) {
    case FLAME_ERROR: line = __LINE__; FLAME_LOG(ERROR) << head << num << pay; break;
    case FLAME_WARN: line = __LINE__; FLAME_LOG(WARN) << head << num << pay; break;
    case FLAME_INFO: line = __LINE__; FLAME_LOG(INFO) << head << num << pay; break;
    case FLAME_DEBUG: line = __LINE__; FLAME_LOG(DEBUG) << head << num << pay; break;
    default: line = __LINE__; FLAME_LOG(FINE) << head << num << pay; break;
    } } catch (std::exception&) { esc = true; }
    Internal I; W->msgs[at].line = line; W->msgs[at].t1 = sched::seq(); W->msgs[at].done = true; count(m.enabled ? "op.log.enabled" : "op.log.disabled");
    if (esc) violate("logging-throws", "an exception escapes from a logging statement");
}
void session(unsigned nops)
{
    for (uint32_t n = 0; more(nops, n, nops);) {
        Op op; unsigned k = draw(10);
        static const unsigned LV[] = { FLAME_ERROR, FLAME_WARN, FLAME_INFO, FLAME_DEBUG, FLAME_FINE };
        if (k < 5) say(LV[draw(5)], "direct");
        else if (k < 8) fresh(draw(NB));
        else if (k == 8) install(0, boost::shared_ptr<Machine::Logger>());
        else { // the library's own messages
            Config c, e; e.set<std::string>("type", "drift"); e.set<std::string>("name", "d"); std::vector<Config> v(1, e); c.set<std::string>("sim_type", "Vector"); c.set<std::vector<Config> >("elements", v); Machine M(c); count("op.library");
        }
    }
}
void check()
{
    Internal I; World& w = *W;
    if (!w.cerrbuf.empty()) violate("message-mixed", "left on standard error: '%s'", w.cerrbuf.c_str());
    std::vector<int> got(w.msgs.size(), 0);
    for (size_t i = 0; i < w.dels.size(); i++) {
        const Del& d = w.dels[i]; size_t b = d.text.find("<m"); if (b == std::string::npos) { if (d.text.find("onstructing Machine w/ sim_type='Vector'") == std::string::npos) violate("message-mixed", "logger %d got '%s', which nobody logged", d.logger, d.text.c_str()); continue; }
        size_t k = (size_t)atoi(d.text.c_str() + b + 2) - 1; if (k >= w.msgs.size()) violate("message-mixed", "logger %d got '%s'", d.logger, d.text.c_str());
        const Msg& m = w.msgs[k]; got[k]++;
        std::string want = m.text;
        if (d.logger == 0) { want = m.file + ":" + std::to_string(m.line) + " : " + m.text; if (d.text != want) violate("message-mixed", "standard error got '%s' instead of '%s'", d.text.c_str(), want.c_str()); }
        else if (d.text != want || d.level != m.level || d.line != m.line || d.file != m.file) violate("message-mixed", "logger %d got '%s' (level %u, %s:%u) instead of '%s' (level %u, line %u)", d.logger, d.text.c_str(), d.level, d.file.c_str(), d.line, want.c_str(), m.level, m.line);
        if (!m.enabled) violate("message-below-threshold", "'%s' was delivered", m.text.c_str());
        if (d.t < m.t0 || d.t > m.t1) violate("message-late", "'%s' was delivered outside its logging call", m.text.c_str());
        // was that logger installed at some moment of the call?
        bool ok = false;
        for (size_t a = 0; a < w.ins.size() && !ok; a++) {
            if (w.ins[a].id != d.logger || w.ins[a].t0 > m.t1) continue;
            bool replaced = false; for (size_t c = 0; c < w.ins.size(); c++) if (w.ins[c].t0 > w.ins[a].t1 && w.ins[c].t1 < m.t0) replaced = true;
            if (!replaced) ok = true;
        }
        if (!ok) violate("wrong-logger", "'%s' was delivered to logger %d, which was not installed during the logging call", m.text.c_str(), d.logger);
    }
    for (size_t i = 0; i < w.msgs.size(); i++) {
        if (w.msgs[i].enabled && got[i] != 1) violate(got[i] ? "message-repeated" : "message-lost", "'%s' was delivered %d times", w.msgs[i].text.c_str(), got[i]);
        reach(hashstr(std::to_string(w.msgs[i].level) + (w.msgs[i].enabled ? "e" : "d")));
    }
    uint64_t h = w.msgs.size(); for (size_t i = 0; i < w.dels.size(); i++) { h = hashbytes(&w.dels[i].logger, sizeof(int), h); h = hashbytes(&w.dels[i].thread, sizeof(int), h); } reach(h);
    count("messages", w.msgs.size()); count("deliveries", w.dels.size());
}
}

WORKLOAD(c09, "log delivery against the recorded history")
{
    gen::setup_data(); World w; W = &w; w.nlog = w.alive = w.nmsg = 0; memset(w.depth, 0, sizeof w.depth); w.live.push_back(1);
    { Install x; x.id = 0; x.t0 = x.t1 = 0; w.ins.push_back(x); }
    Cerr cb; std::streambuf* old = std::cerr.rdbuf(&cb); std::cerr.clear();
    static const int LV[] = { FLAME_WARN, FLAME_FINE, FLAME_INFO, FLAME_ERROR, FLAME_DEBUG, FLAME_ERROR + 1 };
    Machine::log_detail = LV[draw(6)];
    session(8);
    for (unsigned round = 0, nr = 1 + draw(2); round < nr; round++) {
        Machine::log_detail = LV[draw(6)];
        unsigned nt = 2 + draw(3); std::vector<std::function<void()> > fns; unsigned per = tier() ? 16 : 8; for (unsigned t = 0; t < nt; t++) fns.push_back([per] { session(per); });
        sched::run(fns, sched::random_policy());
    }
    session(4);
    install(0, boost::shared_ptr<Machine::Logger>());
    std::cerr.rdbuf(old); Machine::log_detail = FLAME_WARN;
    check();
    Internal I; if (w.alive) violate("logger-not-released", "%d loggers were not released after being replaced", w.alive);
}
