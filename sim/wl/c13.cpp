// C13: the Python API.  An embedded interpreter runs the workload (c13.py); this file gives it the simulator,
// an oracle that uses the C++ library directly, and failing allocations on both sides of the boundary.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include "gen.h"
#include <sstream>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include <map>
using namespace sim;
extern "C" PyObject* PyInit__internal(void);
StateBase* unwrapstate(PyObject*);

namespace {
// ---- Python's allocators -----------------------------------------------------------
PyMemAllocatorEx orig[3];
struct _PyInterpreterFrame* pybase;
bool pyarmed = false; uint64_t pycount = 0, pyfired = 0; uint32_t pyburst = 1, pyleft = 0; int64_t pylive = 0; uint64_t pyallocs = 0;
__attribute__((noinline)) void pyfault() { pyfired++; count("fault.pyalloc"); }
bool pyfail()
{
    pyallocs++;
    if (!pyarmed || _PyThreadState_UncheckedGet()->cframe->current_frame != pybase) return false; // only in calls made by the extension: the interpreter itself does not survive failures everywhere
    if (pyleft) { pyleft--; pyfault(); return true; }
    if (pycount && --pycount == 0) { pyleft = pyburst - 1; pyfault(); return true; }
    return false;
}
void* h_malloc(void* c, size_t n) { if (pyfail()) return 0; PyMemAllocatorEx* o = (PyMemAllocatorEx*)c; void* p = o->malloc(o->ctx, n); if (p) pylive++; return p; }
void* h_calloc(void* c, size_t a, size_t b) { if (pyfail()) return 0; PyMemAllocatorEx* o = (PyMemAllocatorEx*)c; void* p = o->calloc(o->ctx, a, b); if (p) pylive++; return p; }
void* h_realloc(void* c, void* q, size_t n) { if (pyfail()) return 0; PyMemAllocatorEx* o = (PyMemAllocatorEx*)c; void* p = o->realloc(o->ctx, q, n); if (p && !q) pylive++; return p; }
void h_free(void* c, void* p) { PyMemAllocatorEx* o = (PyMemAllocatorEx*)c; if (p) pylive--; o->free(o->ctx, p); }

// ---- the oracle ----------------------------------------------------------------------
std::map<long, Config> confs; std::map<long, std::unique_ptr<Machine> > machs; std::map<long, std::unique_ptr<StateBase> > states; long nexth = 1;
PyObject* OErr = 0;
struct Quiet { Internal I; int l; Quiet() : l(Machine::log_detail) { Machine::log_detail = 32767; } ~Quiet() { Machine::log_detail = l; } }; // the oracle does not log
#define ORACLE(...) do { Quiet I; try { __VA_ARGS__ } catch (std::exception& e) { PyErr_SetString(OErr, e.what()); return 0; } } while (0)
#define ARGS(...) if (!PyArg_ParseTuple(args, __VA_ARGS__)) return 0
template<class T> typename T::mapped_type& at(T& m, long h) { typename T::iterator i = m.find(h); if (i == m.end()) broken("oracle handle %ld", h); return i->second; }

PyObject* conf_py(const Config& c, int form);
struct ToPy : public boost::static_visitor<PyObject*> {
    int form; ToPy(int f) : form(f) {}
    PyObject* operator()(double v) const { return PyFloat_FromDouble(v); }
    PyObject* operator()(const std::string& v) const { return PyUnicode_DecodeUTF8(v.data(), v.size(), "surrogateescape"); }
    PyObject* operator()(const std::vector<double>& v) const { PyObject* L = PyTuple_New(v.size()); for (size_t i = 0; i < v.size(); i++) PyTuple_SET_ITEM(L, i, PyFloat_FromDouble(v[i])); return L; }
    PyObject* operator()(const std::vector<Config>& v) const { PyObject* L = PyList_New(0); for (size_t i = 0; i < v.size(); i++) { PyObject* o = conf_py(v[i], form); PyList_Append(L, o); Py_DECREF(o); } return L; }
};
PyObject* conf_py(const Config& c, int form)
{
    PyObject* L = PyList_New(0);
    for (Config::const_iterator i = c.begin(); i != c.end(); ++i) { PyObject* v = boost::apply_visitor(ToPy(form), i->second); PyObject* t = Py_BuildValue("(s#N)", i->first.data(), (Py_ssize_t)i->first.size(), v); PyList_Append(L, t); Py_DECREF(t); }
    return L;
}
// [(name, float | str | tuple of floats | list of such lists)]
void py_conf(Config& c, PyObject* L)
{
    for (Py_ssize_t i = 0; i < PyList_Size(L); i++) {
        PyObject* t = PyList_GetItem(L, i); Py_ssize_t n; const char* k = PyUnicode_AsUTF8AndSize(PyTuple_GetItem(t, 0), &n); std::string key(k, n); PyObject* v = PyTuple_GetItem(t, 1);
        if (PyUnicode_Check(v)) { k = PyUnicode_AsUTF8AndSize(v, &n); if (!k) broken("py_conf string"); c.set<std::string>(key, std::string(k, n)); }
        else if (PyFloat_Check(v) || PyLong_Check(v)) c.set<double>(key, PyFloat_AsDouble(v));
        else if (PyTuple_Check(v)) { std::vector<double> x; for (Py_ssize_t j = 0; j < PyTuple_Size(v); j++) x.push_back(PyFloat_AsDouble(PyTuple_GetItem(v, j))); c.set<std::vector<double> >(key, x); }
        else if (PyList_Check(v)) { std::vector<Config> x; for (Py_ssize_t j = 0; j < PyList_Size(v); j++) { x.push_back(c.new_scope()); py_conf(x.back(), PyList_GetItem(v, j)); } c.set<std::vector<Config> >(key, x); }
        else broken("py_conf value");
    }
}

PyObject* s_draw(PyObject*, PyObject* args) { unsigned n; ARGS("I", &n); return PyLong_FromUnsignedLong(draw(n)); }
std::vector<Op*> ops;
PyObject* s_opb(PyObject*, PyObject*) { Internal I; ops.push_back(new Op); Py_RETURN_NONE; }
PyObject* s_ope(PyObject*, PyObject*) { Internal I; if (ops.empty()) broken("op end"); delete ops.back(); ops.pop_back(); Py_RETURN_NONE; }
PyObject* s_log(PyObject*, PyObject* args) { const char* s; ARGS("s", &s); sim::log("%s", s); Py_RETURN_NONE; }
PyObject* s_count(PyObject*, PyObject* args) { const char* s; ARGS("s", &s); count(s); Py_RETURN_NONE; }
PyObject* s_reach(PyObject*, PyObject* args) { const char* s; ARGS("s", &s); reach(hashstr(s)); Py_RETURN_NONE; }
PyObject* s_violate(PyObject*, PyObject* args) { const char *a, *b; ARGS("ss", &a, &b); violate(a, "%s", b); }
PyObject* s_broken(PyObject*, PyObject* args) { const char* a; ARGS("s", &a); broken("%s", a); }
PyObject* s_live(PyObject*, PyObject*) { return Py_BuildValue("LL", (long long)mem::live(), (long long)pylive); }
std::vector<std::vector<long long> > rows;
PyObject* s_measure(PyObject*, PyObject* args) // without allocating anything of Python's
{
    PyObject* L; ARGS("O", &L); if (L == Py_None) { Internal I; rows.clear(); Py_RETURN_NONE; }
    PyType_ClearCache(); PyGC_Collect(); Internal I; // also empties the free lists
    std::vector<long long> r; r.push_back(mem::live()); r.push_back(pylive); for (Py_ssize_t i = 0; i < PyList_GET_SIZE(L); i++) r.push_back((long long)Py_REFCNT(PyList_GET_ITEM(L, i)));
    rows.push_back(r); Py_RETURN_NONE;
}
PyObject* s_rows(PyObject*, PyObject*) { PyObject* R = PyList_New(0); for (size_t i = 0; i < rows.size(); i++) { PyObject* r = PyList_New(0); for (size_t k = 0; k < rows[i].size(); k++) { PyObject* o = PyLong_FromLongLong(rows[i][k]); PyList_Append(r, o); Py_DECREF(o); } PyList_Append(R, r); Py_DECREF(r); } return R; }
PyObject* s_tier(PyObject*, PyObject*) { return PyLong_FromLong(tier()); }
PyObject* s_scratch(PyObject*, PyObject*) { return PyUnicode_FromString(scratch().c_str()); }
PyObject* s_get(PyObject*, PyObject* args) { const char* p; ARGS("s", &p); std::string d; { Internal I; if (access(p, F_OK)) Py_RETURN_NONE; d = io::get(p); } return PyBytes_FromStringAndSize(d.data(), d.size()); }
PyObject* s_mkdir(PyObject*, PyObject* args) { const char* p; ARGS("s", &p); Internal I; std::string q(p); for (size_t i = 1; i <= q.size(); i++) if (i == q.size() || q[i] == '/') ::mkdir(q.substr(0, i).c_str(), 0755); Py_RETURN_NONE; }
PyObject* s_rm(PyObject*, PyObject* args) { const char* p; ARGS("s", &p); Internal I; ::unlink(p); Py_RETURN_NONE; }
PyObject* s_chdir(PyObject*, PyObject*) { io::use_scratch_cwd(); Py_RETURN_NONE; }
PyObject* s_openfiles(PyObject*, PyObject*) { return PyLong_FromLong(io::open_files()); }
// fault(mode, k): file faults from now on; returns the number of errors (not short transfers, EINTR) delivered by the previous setting
uint64_t iofired = 0, iocount = 0; unsigned iomode = 0;
io::Decision io_decide(const io::Event& e)
{
    io::Decision d; static const int E_OPEN[] = { EACCES, EMFILE, ENFILE, EIO }, E_W[] = { ENOSPC, EIO, EDQUOT };
    if (iomode == 3) { // every transfer short or interrupted, which is no error
        if (e.kind == io::READ || e.kind == io::WRITE) { if (chance(1, 3)) { d.limit = true; d.maxlen = 1 + draw(700); } else if (chance(1, 8)) d.err = EINTR; }
        return d;
    }
    if (e.kind == io::STAT) return d; // an unreachable template counts as missing; other uses of stat don't matter
    if (iomode == 2) { if (e.kind == io::WRITE && iocount && --iocount == 0) { iocount = 1; d.err = ENOSPC; iofired++; } return d; }
    if (iocount && --iocount == 0) {
        switch (e.kind) { case io::OPEN: d.err = E_OPEN[draw(4)]; break; case io::READ: d.err = EIO; break; case io::WRITE: d.err = E_W[draw(3)]; break; case io::CLOSE: d.err = EIO; break; case io::OTHER: d.err = E_W[draw(2)]; break; default: return d; }
        iofired++;
    }
    return d;
}
PyObject* s_fault(PyObject*, PyObject* args)
{
    unsigned m; unsigned long k; ARGS("Ik", &m, &k); uint64_t r = iofired; iofired = 0; iomode = m; iocount = k;
    if (m) io::set_hook(io_decide); else io::clear_hook();
    return PyLong_FromUnsignedLongLong(r);
}
PyObject* s_put(PyObject*, PyObject* args) { const char *p, *d; Py_ssize_t n; ARGS("sy#", &p, &d, &n); io::put(p, std::string(d, n), 1000000); Py_RETURN_NONE; }

// call(fn, args, kw, c_k, c_burst, py_k, py_burst) -> (ok, value or exception, c failures, python failures)
PyObject* s_call(PyObject*, PyObject* args)
{
    PyObject *fn, *a, *kw; unsigned ck, cb, pk, pb; ARGS("OOOIIII", &fn, &a, &kw, &ck, &cb, &pk, &pb);
    if (ck) mem::arm(ck, cb);
    if (pk) { pycount = pk; pyburst = pb; pyleft = 0; pyfired = 0; pybase = _PyThreadState_UncheckedGet()->cframe->current_frame; pyarmed = true; }
    PyObject* r = PyObject_Call(fn, a, kw == Py_None ? 0 : kw);
    uint64_t cf = 0, pf = 0;
    if (ck) { cf = mem::fired(); mem::disarm(); }
    if (pk) { pf = pyfired; pyarmed = false; pycount = 0; pyleft = 0; }
    PyObject* ex = 0;
    if (!r) { ex = PyErr_GetRaisedException(); if (!ex) { PyObject* n = PyObject_Repr(fn); violate("no-exception", "a call of %s failed without an exception (%s)", n ? PyUnicode_AsUTF8(n) : "?", pf ? "a Python allocation failed" : cf ? "a C++ allocation failed" : "no fault"); } }
    else if (PyErr_Occurred()) violate("exception-set", "a call returned a value with an exception set");
    PyObject* ret = Py_BuildValue("(iNkk)", r ? 1 : 0, r ? r : ex, (unsigned long)cf, (unsigned long)pf);
    if (!ret) broken("result of call");
    return ret;
}

PyObject* o_gen(PyObject*, PyObject* args) { int kind; unsigned n, src; ARGS("iII", &kind, &n, &src); ORACLE( confs[nexth] = gen::machine(kind, n, gen::F_ALL & ~gen::F_CURVEFILE, src); ); return PyLong_FromLong(nexth++); }
PyObject* o_text(PyObject*, PyObject* args) { long h; ARGS("l", &h); std::string s; ORACLE( std::ostringstream o; GLPSPrint(o, at(confs, h)); s = o.str(); ); return PyBytes_FromStringAndSize(s.data(), s.size()); }
PyObject* o_py(PyObject*, PyObject* args) { long h; ARGS("l", &h); Internal I; return conf_py(at(confs, h), 0); }
PyObject* o_frompy(PyObject*, PyObject* args) { PyObject* L; ARGS("O", &L); ORACLE( Config c; py_conf(c, L); confs[nexth] = c; ); return PyLong_FromLong(nexth++); }
// overlay [(k,v)] on a new scope of, or a copy of, the configuration
PyObject* o_overlay(PyObject*, PyObject* args) { long h; PyObject* L; int scope; ARGS("lOi", &h, &L, &scope); ORACLE( Config c(at(confs, h)); if (scope) c.push_scope(); py_conf(c, L); confs[nexth] = c; ); return PyLong_FromLong(nexth++); }
PyObject* o_parse(PyObject*, PyObject* args)
{
    const char* t; Py_ssize_t n; const char* path; PyObject* ex; ARGS("y#zO", &t, &n, &path, &ex);
    ORACLE( GLPSParser P; for (Py_ssize_t i = 0; i < PyList_Size(ex); i++) { PyObject* e = PyList_GetItem(ex, i); const char* k = PyUnicode_AsUTF8(PyTuple_GetItem(e, 0)); PyObject* v = PyTuple_GetItem(e, 1); if (PyUnicode_Check(v)) P.setVar(k, std::string(PyUnicode_AsUTF8(v))); else P.setVar(k, PyFloat_AsDouble(v)); }
            std::unique_ptr<Config> c(P.parse_byte(t, n, path)); if (!c.get()) throw std::runtime_error("no result"); confs[nexth] = *c; );
    return PyLong_FromLong(nexth++);
}
PyObject* o_machine(PyObject*, PyObject* args) { long h; ARGS("l", &h); ORACLE( machs[nexth].reset(new Machine(at(confs, h))); ); return PyLong_FromLong(nexth++); }
PyObject* o_free(PyObject*, PyObject* args) { long h; ARGS("l", &h); Internal I; confs.erase(h); machs.erase(h); states.erase(h); Py_RETURN_NONE; }
PyObject* o_len(PyObject*, PyObject* args) { long h; ARGS("l", &h); return PyLong_FromSize_t(at(machs, h)->size()); }
PyObject* o_name(PyObject*, PyObject* args) { long h; unsigned long i; ARGS("lk", &h, &i); Internal I; ElementVoid* e = (*at(machs, h))[i]; return Py_BuildValue("ss", e->name.c_str(), e->type_name()); }
PyObject* o_find(PyObject*, PyObject* args)
{
    long h; const char *n, *t; ARGS("lzz", &h, &n, &t); Internal I; Machine& M = *at(machs, h); PyObject* L = PyList_New(0); // the order is not specified
    for (size_t i = 0; i < M.size(); i++) if ((!n || M[i]->name == n) && (!t || !strcmp(M[i]->type_name(), t))) { PyObject* o = PyLong_FromSize_t(i); PyList_Append(L, o); Py_DECREF(o); }
    return L;
}
PyObject* o_str(PyObject*, PyObject* args) { long h; ARGS("l", &h); std::string s; ORACLE( std::ostringstream o; o << *at(machs, h); s = o.str(); ); return PyUnicode_DecodeUTF8(s.data(), s.size(), 0); }
PyObject* o_conf(PyObject*, PyObject* args) { long h, i; ARGS("ll", &h, &i); Config c; ORACLE( if (i < 0) c = at(machs, h)->conf(); else c = (*at(machs, h))[i]->conf(); c.flatten(); ); Internal I; return conf_py(c, 0); }
PyObject* o_mconf(PyObject*, PyObject* args) { long h, i; ARGS("ll", &h, &i); ORACLE( if (i < 0) confs[nexth] = at(machs, h)->conf(); else confs[nexth] = (*at(machs, h))[i]->conf(); ); return PyLong_FromLong(nexth++); }
PyObject* o_mutate(PyObject*, PyObject* args) { long h, i; ARGS("ll", &h, &i); std::string what; Config r; ORACLE( r = gen::mutate_element((*at(machs, h))[i]->conf(), gen::F_ALL & ~gen::F_CURVEFILE, what); ); Internal I; return Py_BuildValue("sN", what.c_str(), conf_py(r, 0)); }
PyObject* o_reconf(PyObject*, PyObject* args) { long h, i, c; ARGS("lll", &h, &i, &c); ORACLE( at(machs, h)->reconfigure(i, at(confs, c)); ); Py_RETURN_NONE; }
PyObject* o_alloc(PyObject*, PyObject* args) { long h, c; ARGS("ll", &h, &c); ORACLE( Config e = c < 0 ? at(machs, h)->conf() : at(confs, c); states[nexth].reset(at(machs, h)->allocState(e)); ); return PyLong_FromLong(nexth++); }
PyObject* o_clone(PyObject*, PyObject* args) { long h; ARGS("l", &h); ORACLE( states[nexth].reset(at(states, h)->clone()); ); return PyLong_FromLong(nexth++); }
struct Obs : public Observer { std::vector<std::pair<size_t, long> >* out; virtual ~Obs() {} virtual void view(const ElementVoid* e, const StateBase* s) { states[nexth].reset(s->clone()); out->push_back(std::make_pair(e->index, nexth++)); } };
PyObject* o_prop(PyObject*, PyObject* args)
{
    long h, s; unsigned long start; int max; PyObject* L; ARGS("llkiO", &h, &s, &start, &max, &L); std::vector<std::pair<size_t, long> > got;
    ORACLE( Machine& M = *at(machs, h); Obs o; o.out = &got; struct G { Machine& M; ~G() { for (size_t i = 0; i < M.size(); i++) M[i]->set_observer(0); } } g = { M };
            for (Py_ssize_t i = 0; i < PyList_Size(L); i++) { size_t k = PyLong_AsUnsignedLongMask(PyList_GetItem(L, i)); if (k >= M.size()) throw std::runtime_error("element index out of range"); M[k]->set_observer(&o); }
            M.propagate(at(states, s).get(), start, max); );
    PyObject* R = PyList_New(0); for (size_t i = 0; i < got.size(); i++) { PyObject* t = Py_BuildValue("(kl)", (unsigned long)got[i].first, got[i].second); PyList_Append(R, t); Py_DECREF(t); }
    return R;
}
// the quantities of a state: [(name, 'd' or 'u', (dims), [values])]
PyObject* o_attrs(PyObject*, PyObject* args)
{
    long h; ARGS("l", &h); Internal I; StateBase* s = at(states, h).get(); PyObject* R = PyList_New(0);
    for (unsigned i = 0;; i++) {
        StateBase::ArrayInfo A; if (!s->getArray(i, A)) break;
        PyObject* D = PyTuple_New(A.ndim); size_t lim[3] = { 1, 1, 1 }, d[StateBase::ArrayInfo::maxdims] = { 0 };
        for (unsigned k = 0; k < A.ndim; k++) { lim[k] = A.dim[k]; PyTuple_SET_ITEM(D, k, PyLong_FromSize_t(A.dim[k])); }
        PyObject* V = PyList_New(0);
        for (d[0] = 0; d[0] < lim[0]; d[0]++) for (d[1] = 0; d[1] < lim[1]; d[1]++) for (d[2] = 0; d[2] < lim[2]; d[2]++) { PyObject* o = A.type == StateBase::ArrayInfo::Double ? PyFloat_FromDouble(*(double*)A.raw(d)) : PyLong_FromSize_t(*(size_t*)A.raw(d)); PyList_Append(V, o); Py_DECREF(o); }
        PyObject* t = Py_BuildValue("(sCNN)", A.name, A.type == StateBase::ArrayInfo::Double ? 'd' : 'u', D, V); PyList_Append(R, t); Py_DECREF(t);
    }
    return R;
}
PyObject* o_set(PyObject*, PyObject* args)
{
    long h; const char* n; PyObject* V; ARGS("lsO", &h, &n, &V); Internal I; StateBase* s = at(states, h).get();
    for (unsigned i = 0;; i++) {
        StateBase::ArrayInfo A; if (!s->getArray(i, A)) broken("o_set %s", n);
        if (strcmp(A.name, n)) continue;
        size_t lim[3] = { 1, 1, 1 }, d[StateBase::ArrayInfo::maxdims] = { 0 }; for (unsigned k = 0; k < A.ndim; k++) lim[k] = A.dim[k];
        Py_ssize_t q = 0;
        for (d[0] = 0; d[0] < lim[0]; d[0]++) for (d[1] = 0; d[1] < lim[1]; d[1]++) for (d[2] = 0; d[2] < lim[2]; d[2]++) { PyObject* o = PyList_GetItem(V, q++); if (A.type == StateBase::ArrayInfo::Double) *(double*)A.raw(d) = PyFloat_AsDouble(o); else *(size_t*)A.raw(d) = PyLong_AsSize_t(o); }
        break;
    }
    Py_RETURN_NONE;
}
PyObject* o_show(PyObject*, PyObject* args) { long h; int lvl; ARGS("li", &h, &lvl); std::string s; ORACLE( std::ostringstream o; at(states, h)->show(o, lvl); s = o.str(); ); return PyUnicode_DecodeUTF8(s.data(), s.size(), 0); }
PyObject* o_diff(PyObject*, PyObject* args)
{
    long h; PyObject* p; ARGS("lO", &h, &p); std::string d;
    ORACLE( StateBase* s = unwrapstate(p); if (!s) violate("state-lost", "a State without a state"); gen::Snap a = gen::snap(s, true), b = gen::snap(at(states, h).get(), true); d = gen::diff(a, b, 1e-9, 1e-12); );
    return PyUnicode_FromString(d.c_str());
}
PyObject* o_log(PyObject*, PyObject* args) { int lvl; const char* s; ARGS("is", &lvl, &s); switch (lvl) { case FLAME_ERROR: FLAME_LOG(ERROR) << s; break; case FLAME_WARN: FLAME_LOG(WARN) << s; break; case FLAME_INFO: FLAME_LOG(INFO) << s; break; case FLAME_DEBUG: FLAME_LOG(DEBUG) << s; break; default: FLAME_LOG(FINE) << s; } Py_RETURN_NONE; }
PyObject* o_threshold(PyObject*, PyObject*) { return PyLong_FromLong(Machine::log_detail); }

#define M_(n) { #n, n, METH_VARARGS, 0 }
PyMethodDef methods[] = { { "draw", s_draw, METH_VARARGS, 0 }, { "opb", s_opb, METH_VARARGS, 0 }, { "ope", s_ope, METH_VARARGS, 0 }, { "log", s_log, METH_VARARGS, 0 }, { "count", s_count, METH_VARARGS, 0 }, { "reach", s_reach, METH_VARARGS, 0 }, { "violate", s_violate, METH_VARARGS, 0 }, { "broken", s_broken, METH_VARARGS, 0 }, { "live", s_live, METH_VARARGS, 0 }, { "measure", s_measure, METH_VARARGS, 0 }, { "rows", s_rows, METH_VARARGS, 0 }, { "tier", s_tier, METH_VARARGS, 0 }, { "scratch", s_scratch, METH_VARARGS, 0 }, { "put", s_put, METH_VARARGS, 0 }, { "call", s_call, METH_VARARGS, 0 },
    { "get", s_get, METH_VARARGS, 0 }, { "mkdir", s_mkdir, METH_VARARGS, 0 }, { "rm", s_rm, METH_VARARGS, 0 }, { "chdir", s_chdir, METH_VARARGS, 0 }, { "openfiles", s_openfiles, METH_VARARGS, 0 }, { "fault", s_fault, METH_VARARGS, 0 },
    M_(o_gen), M_(o_text), M_(o_py), M_(o_frompy), M_(o_overlay), M_(o_parse), M_(o_machine), M_(o_free), M_(o_len), M_(o_name), M_(o_find), M_(o_str), M_(o_conf), M_(o_mconf), M_(o_mutate), M_(o_reconf), M_(o_alloc), M_(o_clone), M_(o_prop), M_(o_attrs), M_(o_set), M_(o_show), M_(o_diff), M_(o_log), M_(o_threshold), { 0, 0, 0, 0 } };
PyModuleDef simmod = { PyModuleDef_HEAD_INIT, "_sim", 0, -1, methods };
PyObject* init_sim() { PyObject* m = PyModule_Create(&simmod); OErr = PyErr_NewException("_sim.OracleError", PyExc_RuntimeError, 0); Py_INCREF(OErr); PyModule_AddObject(m, "OracleError", OErr); return m; }

PyObject* g_run = 0;
void die(const char* what) { if (PyErr_Occurred()) PyErr_Print(); fprintf(stderr, "c13: cannot %s\n", what); exit(2); }
void prepare(const char* script)
{
    Internal I;
    setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
    PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator = PYMEM_ALLOCATOR_MALLOC; pre.utf8_mode = 1;
    if (PyStatus_Exception(Py_PreInitialize(&pre))) die("preinitialise");
    PyConfig cfg; PyConfig_InitIsolatedConfig(&cfg); cfg.use_hash_seed = 1; cfg.hash_seed = 0; cfg.write_bytecode = 0; cfg.install_signal_handlers = 0; cfg.site_import = 0;
    PyConfig_SetString(&cfg, &cfg.program_name, L"/usr/bin/python3"); PyConfig_SetString(&cfg, &cfg.executable, L"/usr/bin/python3"); PyConfig_SetString(&cfg, &cfg.home, L"/usr");
    PyImport_AppendInittab("_sim", init_sim);
    if (PyStatus_Exception(Py_InitializeFromConfig(&cfg))) die("initialise");
    PyConfig_Clear(&cfg);
    if (PyRun_SimpleString("import sys\nsys.dont_write_bytecode=True\nsys.path.insert(0,'" SIM_REPO_DIR "/python')\nsys.path.append('/usr/lib/python3/dist-packages')\nimport numpy, logging, gc, io, weakref, copy, os.path, traceback, warnings, collections, linecache\n")) die("import");
    PyObject* fi = PyInit__internal(); if (!fi) die("initialise flame._internal");
    PyObject* mods = PyImport_GetModuleDict(); PyDict_SetItemString(mods, "flame._internal", fi);
    if (PyRun_SimpleString("import flame, flame._internal\n")) die("import flame");
    gen::set_datadir();
    FILE* f = fopen((std::string(SIM_VERIF_DIR "/sim/wl/") + script).c_str(), "r"); if (!f) die("open the workload");
    std::string src; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) src.append(b, n); fclose(f);
    PyObject* mod = PyModule_New("workload"); PyObject* d = PyModule_GetDict(mod); PyDict_SetItemString(d, "__builtins__", PyEval_GetBuiltins());
    PyObject* code = Py_CompileString(src.c_str(), script, Py_file_input); if (!code) die("compile the workload");
    if (!PyEval_EvalCode(code, d, d)) die("run the workload");
    g_run = PyDict_GetItemString(d, "run"); if (!g_run) die("find run()");
    PyMemAllocatorDomain dom[3] = { PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ };
    for (int i = 0; i < 3; i++) { PyMem_GetAllocator(dom[i], &orig[i]); PyMemAllocatorEx h = { &orig[i], h_malloc, h_calloc, h_realloc, h_free }; PyMem_SetAllocator(dom[i], &h); }
}
void prepare13() { prepare("c13.py"); }
void prepare15() { prepare("c15.py"); }
void runpy() { PyObject* r = PyObject_CallNoArgs(g_run); if (!r) { PyErr_Print(); broken("exception in the workload"); } }
}

WORKLOAD_PREP(c13, "the Python API", prepare13) { runpy(); }
WORKLOAD_PREP(c15, "the generator of control-system directories", prepare15) { runpy(); }
