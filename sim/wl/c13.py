# Workload of C13: random histories of Python API calls with misbehaving arguments and failing allocations,
# mirrored on the C++ library used directly (the o_* functions of _sim).
import gc, io, os, sys, weakref, logging, copy
from collections import OrderedDict
import numpy as np
import flame, flame._internal as fi
import _sim as S
OE = S.OracleError
gc.collect(); gc.freeze()

class Boom(Exception): pass
def boom(*a, **k): raise Boom("boom")
def draw(n): return S.draw(n)
def pick(l): return l[S.draw(len(l))]
def chance(a, b): return S.draw(b) >= b - a

class Obj: pass
W = None
BASELEVEL = S.o_threshold()

class World: pass

class Handler(logging.Handler):
    def __init__(self): logging.Handler.__init__(self); self.got = []; self.mode = 0; self.keep = False; self.depth = 0; self.left = 40
    def emit(self, rec):
        if self.keep: self.got.append((rec.levelno, rec.getMessage(), rec.name))
        m = self.mode
        if m == 1: raise Boom("handler")
        if m == 2 and not self.depth and self.left: # a message may come from the innermost loop: a few of these per run
            self.depth += 1; self.left -= 1
            try: nested(None)
            finally: self.depth -= 1
class Filter:
    def __init__(self): self.mode = 0
    def filter(self, rec):
        if self.mode: raise Boom("filter")
        return True
H = Handler(); F = Filter()
lg = logging.getLogger(flame.getLoggerName()); lg.propagate = False; lg.addHandler(H); lg.addFilter(F); logging.raiseExceptions = False
def unraisable(u): S.count("unraisable")
sys.unraisablehook = unraisable

# ---- nested use from within callbacks: reads, propagations of copies, other machines ----
def nested(exclude):
    S.count("nested")
    W.nesting += 1
    try:
        k = draw(6)
        if k == 0:
            if not H.depth: W.boomed = True
            raise Boom("nested")
        ms = [x for x in W.m if not (H.depth and x is W.busym)]
        if not ms: return
        m = pick(ms)
        if k == 1: len(m.o); str(m.o); m.o.conf(); m.o.find(type='drift')
        elif k == 2 and W.s:
            ss = [x for x in W.s if x is not W.busys]
            if not ss: return
            s = pick(ss); c = s.o.clone(); oc = S.o_clone(s.h)
            n = S.o_len(m.h); obs = [draw(n) for i in range(draw(3))] if n else []
            got = err = None
            try: r = m.o.propagate(c, observe=obs if draw(2) else None)
            except Exception as e: got = e
            try: w = S.o_prop(m.h, oc, 0, 2147483647, obs)
            except OE as e: err = e
            if W.arming: S.o_free(oc); return
            if (got is None) != (err is None): S.violate("nested", "a propagation from within a callback %s" % ("failed: %r" % got if got else "succeeded"))
            if got is None: same(c, oc, "propagated from within a callback")
            S.o_free(oc)
        elif k == 3 and W.s and not H.depth: s = pick(W.s); [getattr(s.o, a) for a in s.o]; str(s.o)
        elif k == 4: gc.collect()
        elif k == 5:
            try: m.o.allocState({'x': object()})
            except Exception: pass
    finally: W.nesting -= 1

def same(obj, h, what):
    d = S.o_diff(h, obj)
    if d: S.violate("wrong-result", "%s: %s" % (what, d))

# ---- misbehaving values ------------------------------------------------------------
class BadFloat:
    def __init__(self, mode): self.mode = mode
    def __float__(self):
        if self.mode == 0: raise Boom("float")
        if self.mode == 1: return "x"
        nested(None); return 0.25
    def __index__(self): return self.__float__()
class NestedFloat:
    'a good number whose conversion uses the API'
    def __init__(self, v): self.v = v
    def __float__(self): nested(None) if not W.quiet else None; return self.v
class BadSeq:
    def __init__(self, mode): self.mode = mode
    def __len__(self):
        if self.mode == 0: raise Boom("len")
        if self.mode == 3: return 1 << 60
        return 3
    def __getitem__(self, i):
        if self.mode == 1 and i == 1: raise Boom("item")
        return {'name': 'x'} if self.mode else {}
class BadIter(list):
    def __init__(self, mode): list.__init__(self); self.mode = mode
    def __iter__(self):
        if self.mode == 0: raise Boom("iter")
        yield ('a', 1.0)
        raise Boom("next")
class BadBool:
    def __bool__(self): raise Boom("bool")
class BadIndex:
    def __index__(self): raise Boom("index")
class BadArray:
    def __array__(self, *a, **k): raise Boom("array")
class NestedArray:
    def __init__(self, v, f): self.v, self.f = v, f
    def __array__(self, *a, **k):
        if not W.quiet: self.f()
        return self.v
class Reader:
    def __init__(self, val, name=None, exc=False): self.val, self.exc = val, exc; self.n = name
    def read(self, *a):
        if self.exc: raise Boom("read")
        return self.val
class NamedReader(Reader):
    @property
    def name(self):
        if self.n is Boom: raise Boom("name")
        return self.n

# ---- one call of the API -------------------------------------------------------------
def attempt(what, fn, args, kw, expect, leak=True, fault=True, busym=None, busys=None):
    '''expect: 'ok' | 'fail' | 'any'.  returns (ok, value, fault delivered)'''
    ck = cb = pk = pb = 0
    f = draw(8) if W.oom and fault else 0
    if f in (5, 6): ck = 1 + (draw(200) if draw(2) else draw(12)); cb = 1 if draw(3) else 1 + draw(4)
    if f in (6, 7): pk = 1 + (draw(300) if draw(3) == 2 else draw(25)); pb = 1 if draw(3) else 1 + draw(4)
    if any(isinstance(a, OrderedDict) for a in args): pk = pb = 0 # iterating one crashes the interpreter when it is out of memory
    W.arming = bool(ck or pk); W.busym, W.busys, W.boomed = busym, busys, False
    r = S.call(fn, args, kw, ck, cb, pk, pb)
    W.arming = False; W.busym = W.busys = None
    ok, val, cf, pf = r
    if W.boomed and expect == 'ok': expect = 'fail' # a callback raised
    fired = bool(cf or pf)
    if not ok:
        val.__traceback__ = None
        if isinstance(val, SystemError) and 'new style getargs' not in str(val): S.violate("system-error", "%s: %s" % (what, val))
        if not isinstance(val, Exception): S.violate("odd-exception", "%s: %r" % (what, val))
        if isinstance(val, RecursionError): S.violate("odd-exception", "%s: %r" % (what, val))
    S.log("%s%s -> %s" % (what, (" [%s%s]" % ("c++ allocation " if cf else "", "python allocation" if pf else "")) if fired else "", "ok" if ok else type(val).__name__))
    S.count("op." + what.split(' ')[0] + (".ok" if ok else ".error"))
    S.reach("%s|%d|%s|%d%d" % (what, ok, type(val).__name__ if not ok else '', bool(cf), bool(pf)))
    if ok and expect == 'fail' and not (pf and 'bad10' in what): S.violate("accepted", "%s succeeded" % what) # PyObject_HasAttrString() can't report it
    if not ok and not fired and expect == 'ok': S.violate("refused", "%s raised %r" % (what, val))
    if leak and W.leaks and chance(1, 3): leakcheck(what, fn, args, kw, ck, cb, pk, pb)
    return ok, val, fired

def leakcheck(what, fn, args, kw, ck, cb, pk, pb):
    'repeat the call: neither memory nor references may pile up'
    S.count("leakcheck")
    keep, H.keep = H.keep, False; mode, H.mode = H.mode, 0; fm, F.mode = F.mode, 0; q, W.quiet = W.quiet, True
    watch = [a for a in args] + [type(a) for a in args] + [type(v) for a in args if isinstance(a, (dict, OrderedDict)) for v in a.values()] + ([v for v in kw.values()] if kw else [])
    watch += [type(i[1]) for a in args if type(a) is list for i in a if isinstance(i, tuple) and len(i) > 1]
    watch += [type(j) for a in args if isinstance(a, dict) for v in a.values() if isinstance(v, list) for j in v]
    watch += [fi.Machine, fi.State, flame.Machine, os.path, os.path.dirname]
    N = 10; call, measure = S.call, S.measure
    measure(None)
    for i in range(N):
        call(fn, args, kw, ck, cb, pk, pb)
        measure(watch)
    rows = S.rows()
    H.keep, H.mode, F.mode, W.quiet = keep, mode, fm, q
    for c in range(len(rows[0])):
        d = [rows[i + 1][c] - rows[i][c] for i in range(3, N - 1)]
        if c == 0 and ck and what in W.parses: continue # the parser may leave memory behind when an allocation fails
        if min(d) > 0: S.violate("leak", "every '%s' leaves %s behind" % (what.split(' [')[0], "%d C++ allocations" % d[-1] if c == 0 else "%d Python allocations" % d[-1] if c == 1 else "%d references to %s" % (d[-1], type(watch[c - 2]).__name__ + ' ' + getattr(watch[c - 2], '__name__', ''))))

# ---- sources of lattices ---------------------------------------------------------------
def topy(L, form, nest=False):
    out = []
    for k, v in L:
        if isinstance(v, tuple):
            v = np.array(v)
            if draw(4) == 3: v = np.asarray(list(v), dtype=v.dtype)
        elif isinstance(v, list): v = [topy(e, 1 if draw(2) else 0) for e in v]
        elif isinstance(v, float) and nest and draw(3) == 2: v = NestedFloat(v)
        elif isinstance(v, float) and v == int(v) and repr(v) != '-0.0' and abs(v) < 1e9 and draw(4) == 3: v = pick([int(v), np.float64(v), np.int64(v)])
        out.append((k, v))
    return out if form == 0 else dict(out) if form == 1 else OrderedDict(out)

def source():
    'returns description, positional args, keywords, oracle: function giving a configuration handle, form'
    kind = pick([0, 0, 1, 2]); n = 1 + draw(4)
    h = S.o_gen(kind, n, 1 if draw(4) else 0)
    form = draw(10); kw = {}; extra = []
    if form >= 7:
        L = S.o_py(h); L = ([x for x in L if x[0] != 'elements'] + [x for x in L if x[0] == 'elements']) if draw(3) else L
        S.o_free(h)
        o = topy(L, form - 7, form == 8)
        return ['list', 'dict', 'odict'][form - 7], (o,), kw, (lambda: S.o_frompy(L))
    t = S.o_text(h); S.o_free(h)
    if draw(4) == 3: t = b"zz = vx * 2;\nyy = vs;\n" + t; extra = [('vx', 3.5), ('vs', 'str')]
    if draw(12) == 11: t = pick([t[:len(t) // 2], t + b"\nq: nosuch;", b"", t + b"\0", b"= 5;", t + b"\nw = [1, 2", b'\xff\xfe' + t, t + b"\nnn=parse(\"nosuchfile\");"])
    if extra:
        kw['extra'] = dict(extra)
        if draw(3) == 2: kw['extra']['vx'] = pick([np.float64(3.5), NestedFloat(3.5)])
    path = None
    if draw(6) == 5: path = S.scratch(); kw['path'] = path
    if form == 0:
        try: a = t.decode('utf8')
        except UnicodeDecodeError: a = t
    elif form == 1: a = t
    elif form == 2: a = bytearray(t)
    elif form == 3: a = memoryview(t)
    elif form == 4: a = Reader(t)
    elif form == 5: a = NamedReader(bytearray(t), pick(['', Boom, S.scratch() + "/x.lat", 'x.lat']))
    else:
        a = io.BytesIO(t)
    p2 = path
    if path is None and form == 5 and isinstance(a.n, str): p2 = os.path.dirname(a.n)
    nm = ['str', 'bytes', 'bytearray', 'memoryview', 'reader', 'named-reader', 'BytesIO'][form]
    return nm, (a,), kw, (lambda: S.o_parse(t, p2, extra))

def badsource():
    t = S.o_text(S.o_gen(0, 1, 1)); good = t
    k = draw(30)
    F2 = [lambda: ((), {}), lambda: ((5,), {}), lambda: ((None,), {}), lambda: ((good,), {'extra': []}), lambda: ((good,), {'extra': {'x': []}}), lambda: ((good,), {'extra': {5: 1.0}}),
          lambda: ((good,), {'path': 5}), lambda: ((Reader(good, exc=True),), {}), lambda: ((Reader('text'),), {}), lambda: ((Reader(None),), {}), lambda: ((NamedReader(good, 7),), {}),
          lambda: (([5],), {}), lambda: (([(1, 2)],), {}), lambda: (({'elements': [5]},), {}), lambda: (({'sim_type': 'Vector', 'elements': [{'name': 'x'}]},), {}), lambda: (({'sim_type': 'Vector', 'elements': [{'name': 'x', 'type': 'nosuch'}]},), {}),
          lambda: (({'sim_type': 'nosuch', 'elements': []},), {}), lambda: (({'sim_type': 'Vector'},), {}), lambda: ((good,), {'nosuch': 1}), lambda: (({'a': Obj()},), {}), lambda: (({'a': BadFloat(draw(2))},), {}),
          lambda: (({'a': BadSeq(draw(2))},), {}), lambda: ((BadIter(draw(2)),), {}), lambda: (({'a': [{'b': [{'c': [{'d': [{'e': 1}]}]}]}]},), {}), lambda: ((good,), {'extra': {'x': BadFloat(draw(2))}}),
          lambda: (([('a',)],), {}), lambda: (({'a': np.array(['x'])},), {}), lambda: (({'a': np.zeros((2, 2, 2))},), {}), lambda: ((good + b"\nzz = nosuchvariable;\n",), {}), lambda: ((good, None, {'\ud800': 1.0}), {})]
    a, kw = F2[k % len(F2)]()
    return "bad%d" % k, a, kw

def oracle_machine(oc):
    try:
        c = oc()
        try: return S.o_machine(c)
        finally: S.o_free(c)
    except OE: return None

def norm(L):
    'a configuration as returned by conf(): comparable'
    if isinstance(L, (OrderedDict, dict)): L = list(L.items())
    out = []
    for k, v in L:
        if isinstance(v, np.ndarray):
            if v.ndim != 1 or v.dtype != np.float64: S.violate("wrong-config", "array value of %s has %d dimensions" % (k, v.ndim))
            v = tuple(v.tolist())
        elif isinstance(v, list): v = [norm(e) for e in v]
        out.append((k, v))
    return out
def cfgeq(a, b): return repr(a) == repr(b)

def check_machine(m, deep):
    n = S.o_len(m.h)
    if len(m.o) != n: S.violate("machine-changed", "len is %d, should be %d" % (len(m.o), n))
    c = norm(m.o.conf()); w = S.o_conf(m.h, -1)
    if not cfgeq(c, w): S.violate("machine-changed", "conf() is %s, should be %s" % (repr(c)[:300], repr(w)[:300]))
    for i in (range(n) if deep else [draw(n)] if n else []):
        c = norm(m.o.conf(i)); w = S.o_conf(m.h, i)
        if not cfgeq(c, w): S.violate("machine-changed", "conf(%d) is %s, should be %s" % (i, repr(c)[:300], repr(w)[:300]))
def check_state(s):
    same(s.o, s.h, "a state")
    if s.x is not None and s.o.extra != s.x: S.violate("state-changed", "an attribute set on a state is %r, should be %r" % (s.o.extra, s.x))
def check_all(deep=False):
    for m in W.m: check_machine(m, deep)
    for s in W.s: check_state(s)

def check_attrs(s):
    A = S.o_attrs(s.h)
    if set(s.o) != set([a[0] for a in A]) or len(s.o) != len(A): S.violate("attributes", "a state lists %r" % sorted(s.o))
    for n, t, dims, vals in A:
        v = getattr(s.o, n)
        if dims == ():
            if type(v) is not (float if t == 'd' else int) or not eq(v, vals[0]): S.violate("attributes", "%s is %r, should be %r" % (n, v, vals[0]))
        else:
            if not isinstance(v, np.ndarray) or v.shape != dims or v.dtype != (np.float64 if t == 'd' else np.uint64): S.violate("attributes", "%s has shape %r type %r" % (n, v.shape, v.dtype))
            l = v.ravel(order='C').tolist()
            if not all(eq(a, b) for a, b in zip(l, vals)): S.violate("attributes", "%s is %r, should be %r" % (n, l, vals))
            if not v.flags.owndata or not v.flags.writeable: S.violate("attributes", "%s is not an array of its own" % n)
            v.fill(3) # a copy: the state does not change
    same(s.o, s.h, "a state whose attributes were read")
def eq(a, b): return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))

class Sub(fi.Machine):
    def __init__(self, *a, **k): pass
class Sub2(flame.Machine): pass

# ---- operations ---------------------------------------------------------------------------
def op_build():
    cls = pick([flame.Machine, flame.Machine, fi.Machine, Sub2])
    W.oneshot = False
    nm, a, kw, oc = source(); what = "Machine(%s)" % nm; W.parses.add(what)
    h = oracle_machine(oc)
    ok, val, fired = attempt(what, cls, a, kw, 'fail' if h is None else 'ok', leak=nm != 'BytesIO')
    if ok:
        m = World(); m.o = val; m.h = h; val = None; check_machine(m, True); W.m.append(m)
    elif h is not None: S.o_free(h)
    a = None
    if len(W.m) > 3: drop_machine(draw(len(W.m)))
def drop_machine(i):
    m = W.m.pop(i); S.o_free(m.h)
    if draw(3) == 2:
        gc.collect(); l = []; r = weakref.ref(m.o, lambda _: (gc.collect(), l.append(1))); m.o = None
        if not l or r() is not None: S.violate("leak", "a machine outlives its last reference")
def op_badbuild():
    nm, a, kw = badsource(); what = "Machine(%s)" % nm; W.parses.add(what)
    attempt(what, pick([flame.Machine, fi.Machine]), a, kw, 'fail')
def op_reinit():
    if not W.m: return
    m = pick(W.m)
    if draw(2):
        nm, a, kw = badsource(); what = "__init__(%s)" % nm; W.parses.add(what)
        attempt(what, fi.Machine.__init__, (m.o,) + a, kw, 'fail', fault=nm != 'bad10')
    else:
        nm, a, kw, oc = source(); what = "__init__(%s)" % nm; W.parses.add(what)
        h = oracle_machine(oc)
        ok, val, fired = attempt(what, fi.Machine.__init__, (m.o,) + a, kw, 'fail' if h is None else 'ok', leak=False, busym=m)
        if ok: S.o_free(m.h); m.h = h
        elif h is not None: S.o_free(h)
        if ok and nm != 'BytesIO' and W.leaks and chance(1, 2): leakcheck(what, fi.Machine.__init__, (m.o,) + a, kw, 0, 0, 0, 0)
    check_machine(m, True)
def op_uninit():
    u = pick([lambda: fi.Machine.__new__(fi.Machine), lambda: Sub("x"), lambda: flame.Machine.__new__(flame.Machine)])()
    if W.s: st = pick(W.s).o
    else: st = None
    k = draw(8)
    fn, a = [(len, (u,)), (str, (u,)), (u.conf, ()), (u.conf, (0,)), (u.allocState, ()), (u.propagate, (st,)), (u.reconfigure, (0, {})), (u.find, ())][k]
    attempt("uninitialised %d" % k, fn, a, None, 'fail')
    if draw(3) == 2:
        nm, a, kw, oc = source()
        h = oracle_machine(oc)
        ok, val, fired = attempt("late init(%s)" % nm, fi.Machine.__init__, (u,) + a, kw, 'fail' if h is None else 'ok', leak=False)
        if ok: m = World(); m.o = u; m.h = h; check_machine(m, True); W.m.append(m)
        elif h is not None: S.o_free(h)

def op_alloc():
    if not W.m: return
    m = pick(W.m); k = draw(7)
    if k <= 1: a, kw, oc = ((None,) if k else ()), {}, lambda: -1
    elif k == 2: a, kw, oc = ({},), {}, lambda: S.o_frompy([])
    elif k in (3, 4, 5):
        L = S.o_conf(m.h, -1); L = [x for x in L if x[0] != 'elements']
        if k == 5 or draw(2): L = [x for x in L if draw(2)]
        inh = k == 4 or (k == 5 and draw(2))
        a, kw = (topy(L, 1, k == 3),), {'inherit': pick([True, 1, 'x']) if inh else pick([False, 0, None])}
        if not inh and draw(2): kw = {}
        oc = (lambda: S.o_overlay(S.o_mconf(m.h, -1), L, 1)) if inh else (lambda: S.o_frompy(L))
    else:
        a, kw = pick([((5,), {}), (([],), {}), (({'a': Obj()},), {}), (({5: 5},), {}), (({'a': BadFloat(draw(2))},), {}), (({},), {'inherit': BadBool()}), (({}, True, 3), {}), ((), {'x': 1}), (('x',), {}), (({'a': BadSeq(draw(2))},), {}), (({'\ud800': 1.},), {}), (({'a': '\ud800'},), {})])
        attempt("allocState bad", m.o.allocState, a, kw, 'fail'); return
    try: c = oc(); h = S.o_alloc(m.h, c)
    except OE: h = None
    ok, val, fired = attempt("allocState %d" % k, m.o.allocState, a, kw, 'fail' if h is None else 'ok')
    if ok: add_state(val, h); check_attrs(W.s[-1])
    elif h is not None: S.o_free(h)
def add_state(o, h):
    s = World(); s.o = o; s.h = h; s.x = None; W.s.append(s)
    if len(W.s) > 5: drop_state(draw(5)) # not the newest: the caller refers to it
def drop_state(i):
    s = W.s.pop(i); S.o_free(s.h); o = s.o; s.o = None; k = draw(4)
    if k == 1:
        gc.collect(); l = []; r = weakref.ref(o, lambda _: (gc.collect(), l.append(1))); o = None
        if not l or r() is not None: S.violate("leak", "a state outlives its last reference")
    elif k == 2:
        r = weakref.ref(o); o.me = o; o = None; gc.collect()
        if r() is not None: S.violate("leak", "a state that refers to itself is never collected")
    elif k == 3:
        x = Final(); o.fin = x; x = None; o = None
class Final:
    def __del__(self): gc.collect()

def op_propagate():
    if not W.m or not W.s: return
    m = pick(W.m); s = pick(W.s); n = S.o_len(m.h); kw = {}; start = 0; mx = 2147483647; obs = []; expect = None; nest = False; what = "propagate"
    if draw(3) == 2: start = draw(n + 2); kw['start'] = start
    if draw(3) == 2:
        mx = pick([0, 1, 2, -1, -n, n, n + 1, draw(n + 2)]); kw['max'] = pick([mx, mx, np.int64(mx)])
        if draw(8) == 7: kw['max'] = None; mx = 2147483647
    if draw(2):
        obs = [draw(n) for i in range(draw(4))] if n else []
        f = draw(6); L = list(obs)
        if f == 0: kw['observe'] = L
        elif f == 1: kw['observe'] = tuple(L)
        elif f == 2: kw['observe'] = np.array(L, dtype=int)
        elif f == 3: kw['observe'] = (x for x in L); what = "propagate iter"
        elif f == 4: kw['observe'] = range(n); obs = list(range(n))
        elif f == 5:
            nest = True; what = "propagate nested"
            def g():
                for x in L:
                    nested(m); yield x
            kw['observe'] = g()
    if draw(5) == 4:
        what = "propagate bad"; k = draw(12); kw2 = dict(kw); expect = 'fail'
        def ge():
            if n: yield 0
            raise Boom("generator")
        b = [('observe', ge()), ('observe', [n]), ('observe', [-1]), ('observe', ['x']), ('observe', 5), ('observe', [BadIndex()]), ('max', 'x'), ('max', BadFloat(0)), ('max', 1 << 40), ('max', 1 << 80), ('start', 'x'), ('nosuch', 1)][k]
        kw2[b[0]] = b[1]; args = (s.o,)
        if draw(5) == 4: args = pick([(5,), (None,), (), (m.o,)]); kw2 = kw
        if draw(9) == 8 and n: kw2 = dict(kw); kw2['observe'] = [0, BadIndex()]; args = (s.o,)
        attempt(what + " %d" % k, m.o.propagate, args, kw2, expect, leak=k > 0 and 'observe' not in kw or k in (1, 2, 3, 4, 5))
        check_state(s); return
    oc = S.o_clone(s.h)
    try: w = S.o_prop(m.h, oc, start, mx, obs); okw = True
    except OE: okw = False
    leakable = not nest and 'iter' not in what and draw(3) == 2
    tgt = s.o.clone() if leakable else s.o
    ok, val, fired = attempt(what, m.o.propagate, (tgt,), kw, 'ok' if okw else 'fail', leak=False, busym=m, busys=s)
    if not ok:
        if not leakable: S.o_free(s.h); i = [q for q in range(len(W.s)) if W.s[q] is s]; W.s.pop(i[0])
        # a later correct call gives the normal result
        if okw and draw(2):
            try: c2 = m.o.allocState()
            except Exception: c2 = None
        S.o_free(oc); check_machine(m, True); return
    if not okw: S.violate("accepted", "propagate succeeded")
    same(tgt, oc, "propagated state")
    if leakable: S.o_free(oc)
    else: S.o_free(s.h); s.h = oc
    if val is None: val = []
    if [x[0] for x in val] != [x[0] for x in w]: S.violate("observed", "observed elements %r, should be %r" % ([x[0] for x in val], [x[0] for x in w]))
    for a, b in zip(val, w):
        if type(a) is not tuple or type(a[1]) is not fi.State: S.violate("observed", "observed %r" % (a,))
        same(a[1], b[1], "state observed at element %d" % a[0])
    for b in w: S.o_free(b[1])
    tgt = None
    if val and draw(3) == 2: 
        x = pick(val)[1]; h = capture(x)
        if h is not None: add_state(x, h) # keep one
    val = None
    if leakable and W.leaks and chance(1, 2):
        leakcheck(what, leakprop, (m.o, s.o, kw), None, 0, 0, 0, 0)
def leakprop(m, s, kw): m.propagate(s.clone(), **kw)
def capture(o):
    # an oracle copy of an existing state: start from any oracle state of the same shape
    for s in W.s:
        A = S.o_attrs(s.h)
        if set(o) == set(a[0] for a in A) and all(np.shape(getattr(o, a[0])) == a[2] for a in A):
            h = S.o_clone(s.h)
            for n, t, dims, vals in A: S.o_set(h, n, np.ravel(getattr(o, n)).tolist() if dims else [getattr(o, n)])
            return h
    return None

def op_reconf():
    if not W.m: return
    m = pick(W.m); n = S.o_len(m.h)
    if draw(3) == 2 or n == 0:
        k = draw(14); i = 0
        a, kw = [((n, {}), {}), ((-1, {}), {}), (('x', {}), {}), ((0, []), {}), ((0, {'L': Obj()}), {}), ((0, {'L': BadFloat(draw(2))}), {}), ((0, {5: 5}), {}), ((0, {}), {'replace': BadBool()}), ((0,), {}), ((0, {'type': 'nosuch'}), {'replace': True}), ((0, {'a': [{'b': 1}]}), {}), ((0, {'a': [5]}), {}), ((0, {'\ud800': 5}), {}), ((BadIndex(), {}), {})][k]
        if k == 10 or (n == 0 and 0): pass
        attempt("reconfigure bad%d" % k, m.o.reconfigure, a, kw, 'fail'); check_machine(m, True); return
    i = draw(n)
    try: what, L = S.o_mutate(m.h, i)
    except OE: return
    full = draw(3) == 2
    if full: c = S.o_frompy(L)
    else:
        old = dict(S.o_conf(m.h, i)); L = [x for x in L if repr(old.get(x[0])) != repr(x[1]) or draw(3) == 2]
        c = S.o_overlay(S.o_mconf(m.h, i), L, 0)
    nest = draw(2)
    kw = {'replace': pick([True, 1])} if full else pick([{}, {'replace': False}])
    d = topy(L, pick([1, 2]), nest)
    ok, val, fired = attempt("reconfigure %s" % ('replace' if full else 'change'), m.o.reconfigure, (i, d), kw, 'any', leak=False, busym=m)
    if ok or not (fired or W.boomed): # otherwise nothing changed
        try: S.o_reconf(m.h, i, c); okw = True
        except OE: okw = False
        if ok and not okw: S.violate("accepted", "reconfigure(%d) %s succeeded" % (i, what))
        if ok and W.boomed: S.violate("accepted", "reconfigure() ignored an exception")
        if not ok and okw: S.violate("refused", "reconfigure(%d) %s raised %r" % (i, what, val))
        if ok and W.leaks and chance(1, 2): leakcheck("reconfigure", m.o.reconfigure, (i, d), kw, 0, 0, 0, 0)
    S.o_free(c)
    check_machine(m, True)

def op_query():
    if not W.m: return
    m = pick(W.m); n = S.o_len(m.h); k = draw(8)
    if k == 0:
        ok, v, f = attempt("str(machine)", str, (m.o,), None, 'ok')
        if ok and not f and v != S.o_str(m.h): S.violate("wrong-result", "str(machine) is %r, should be %r" % (v[:300], S.o_str(m.h)[:300]))
    elif k == 1:
        ok, v, f = attempt("len(machine)", len, (m.o,), None, 'ok')
        if ok and v != n: S.violate("wrong-result", "len")
    elif k in (2, 3, 4):
        nm = ty = None
        if k > 2 and n:
            e = S.o_name(m.h, draw(n)); nm, ty = (e[0], None) if k == 3 else (None, e[1])
            if draw(6) == 5: nm, ty = ('nosuch', None) if k == 3 else (None, 'nosuch')
        kw = {}
        if nm: kw['name'] = nm
        if ty: kw['type'] = ty
        ok, v, f = attempt("find", m.o.find, (), kw, 'ok')
        if ok and sorted(v) != S.o_find(m.h, nm, ty): S.violate("wrong-result", "find(%r) is %r, should be %r" % (kw, v, S.o_find(m.h, nm, ty)))
    elif k == 5:
        a, kw = pick([((), {'name': 'x', 'type': 'y'}), ((5,), {}), ((), {'x': 1}), (('a\0b',), {})]); attempt("find bad", m.o.find, a, kw, 'fail')
    elif k == 6:
        i = draw(n + 1)
        a = pick([(), (None,)]) if i == n else (pick([i, i, np.int64(i)]),)
        ok, v, f = attempt("conf", m.o.conf, a, None, 'ok') if draw(2) else attempt("conf", fi.Machine.conf, (m.o,) + a, None, 'ok')
        if ok and not cfgeq(norm(v), S.o_conf(m.h, -1 if i == n else i)): S.violate("wrong-result", "conf() is %r" % (norm(v),))
    elif k == 7:
        a, kw = pick([((n,), {}), ((-1,), {}), ((1 << 80,), {}), (('x',), {}), ((BadFloat(0),), {}), ((), {'x': 1}), ((Obj(),), {})]); attempt("conf bad", m.o.conf, a, kw, 'fail')

def op_setattr():
    if not W.s: return
    s = pick(W.s); A = S.o_attrs(s.h); n, t, dims, vals = pick(A); k = draw(8)
    if k == 7:
        k = draw(5)
        if k == 0: s.x = draw(100); s.o.extra = s.x
        elif k == 1:
            ok, v, f = attempt("delattr", delattr, (s.o, n), None, 'fail')
        elif k == 2: attempt("delattr none", delattr, (s.o, 'nosuch'), None, 'fail')
        elif k == 3: attempt("getattr none", getattr, (s.o, 'nosuch'), None, 'fail')
        else: attempt("setattr method", setattr, (s.o, 5, 5), None, 'fail')
        check_attrs(s); return
    if k >= 4: # refused
        if dims == (): bad = pick(['x', None, [1, 2], Obj(), 1 << 2000, np.zeros(3)] + ([-1, -5.5, float('nan'), float('inf'), 1 << 70, 1e30] if t == 'u' else []))
        else: bad = pick(['x', None, 5, np.zeros(tuple(d + 1 for d in dims)), np.zeros(dims + (2,)), np.zeros(dims[:-1]) if len(dims) > 1 else 1.5, BadArray(), np.full(dims, 'x'), Obj(), [[[[[1]]]]], [BadFloat(0)], np.zeros(0)])
        attempt("setattr bad %d%s" % (len(dims), t), setattr, (s.o, n, bad), None, 'fail')
        check_state(s)
        if draw(3) == 2: check_attrs(s)
        return
    new = [((v * 1.25 + 0.5) if v == v and abs(v) < 1e200 else 1.0) if t == 'd' else int(draw(9)) for v in vals]
    if n == 'next_elem': new = [draw(4)]
    if dims == ():
        v = new[0]
        if t == 'd' and v == int(v) and repr(v) != '-0.0' and abs(v) < 1e15: v = pick([v, int(v), np.float64(v)])
        elif t == 'u': v = pick([v, float(v), np.float64(v)])
    else:
        v = np.array(new).reshape(dims); f = draw(6)
        if f == 1: v = v.tolist()
        elif f == 2: v = np.asfortranarray(v)
        elif f == 3: b = np.zeros(tuple(2 * d for d in dims)); b[tuple(slice(None, None, 2) for d in dims)] = v; v = b[tuple(slice(None, None, 2) for d in dims)]
        elif f == 4 and t == 'd': v = np.array(new, dtype='>f8').reshape(dims)
        elif f == 5 and W.m:
            m = pick(W.m); inner = World()
            def use():
                # the state changes while the new value is being produced
                inner.r = None
                try: m.o.propagate(s.o); inner.r = True
                except Exception: inner.r = False
            oc = S.o_clone(s.h)
            try: S.o_prop(m.h, oc, 0, 2147483647, []); okw = True
            except OE: okw = False
            if not okw: S.o_free(oc)
            else:
                v = NestedArray(v, use)
                nd = [a for a in S.o_attrs(oc) if a[0] == n][0][2]
                ok, val, fired = attempt("setattr nested", setattr, (s.o, n, v), None, 'ok' if nd == dims else 'any', leak=False, busym=m, busys=s)
                if ok and not fired and nd != dims: S.violate("accepted", "setattr of a value of the wrong shape succeeded")
                if fired: W.s[:] = [x for x in W.s if x is not s]; S.o_free(s.h); S.o_free(oc); return
                S.o_free(s.h); s.h = oc
                if ok: S.o_set(s.h, n, new)
                check_attrs(s); return
    ok, val, fired = attempt("setattr %d%s" % (len(dims), t), setattr, (s.o, n, v), None, 'ok', leak=False)
    if ok:
        S.o_set(s.h, n, new)
        if W.leaks and chance(1, 2): leakcheck("setattr", setattr, (s.o, n, v), None, 0, 0, 0, 0)
    check_attrs(s)

def op_state():
    if not W.s: return
    s = pick(W.s); k = draw(9)
    if k == 0:
        ok, v, f = attempt("clone", s.o.clone, (), None, 'ok')
        if ok: add_state(v, S.o_clone(s.h))
    elif k == 1:
        l = draw(3); ok, v, f = attempt("show", s.o.show, (l,), None, 'ok')
        if ok and not f and v != S.o_show(s.h, l): S.violate("wrong-result", "show(%d) is %r, should be %r" % (l, v[:200], S.o_show(s.h, l)[:200]))
    elif k == 2:
        ok, v, f = attempt("str(state)", pick([str, repr]), (s.o,), None, 'ok')
        if ok and not f and v != S.o_show(s.h, 0): S.violate("wrong-result", "str(state) is %r" % v[:200])
    elif k == 3:
        A = S.o_attrs(s.h); n, t, dims, vals = pick(A)
        attempt("getattr %d%s" % (len(dims), t), getattr, (s.o, n), None, 'ok')
        check_attrs(s)
    elif k == 4: attempt("list(state)", list, (s.o,), None, 'ok'); attempt("len(state)", len, (s.o,), None, 'ok')
    elif k == 5: attempt("State()", pick([fi.State, type('X', (fi.State,), {}), lambda: fi.State.__new__(fi.State), lambda: object.__new__(fi.State)]), (), None, 'fail')
    elif k == 6: attempt("copy(state)", pick([copy.copy, copy.deepcopy]), (s.o,), None, 'any', leak=False)
    elif k == 7: attempt("show bad", s.o.show, pick([('x',), (1, 2), (None,)]), None, 'fail')
    elif k == 8: drop_state([q for q in range(len(W.s)) if W.s[q] is s][0])

def op_parse():
    W.oneshot = False
    if draw(3) == 2:
        nm, a, kw = badsource()
        if nm in ("bad13", "bad14", "bad15", "bad16", "bad17"): return
        what = "parse(%s)" % nm; W.parses.add(what)
        attempt(what, pick([flame.GLPSParser().parse, fi._GLPSParse]), a, kw, 'fail'); return
    nm, a, kw, oc = source(); what = "parse(%s)" % nm; W.parses.add(what)
    try: c = oc(); w = S.o_py(c)
    except OE: w = None
    ok, v, f = attempt(what, pick([flame.GLPSParser().parse, fi._GLPSParse]), a, kw, 'fail' if w is None else 'ok', leak=nm != 'BytesIO')
    if ok and not cfgeq(norm(v), w): S.violate("wrong-result", "parse() gives %s, should be %s" % (repr(norm(v))[:400], repr(w)[:400]))
    if ok: 
        t = S.o_text(c)
        ok, t2, f = attempt("GLPSPrinter", flame.GLPSPrinter, (v if draw(2) else dict(v),), None, 'ok')
        if ok and not f and t2.encode('utf8') != t: S.violate("wrong-result", "GLPSPrinter gives %r, should be %r" % (t2[:300], t[:300]))
    if w is not None: S.o_free(c)
    if draw(4) == 3: attempt("GLPSPrinter bad", flame.GLPSPrinter, pick([(), (5,), ([5],), ({'a': Obj()},), ({5: 5},), ({'a': BadFloat(0)},), (BadIter(draw(2)),), ({'a': [5]},), ({'a': BadSeq(draw(2))},)]), None, 'fail')

def op_log():
    k = draw(6)
    if k == 0: lvl = pick([0, 10, 20, 30, 40, 50]); flame.setLogLevel(lvl)
    elif k == 1: attempt("setLogLevel bad", flame.setLogLevel, pick([('x',), (), (None,), (1, 2), (1.5,)]), None, 'fail')
    else:
        lvl = pick([40, 30, 20, 10]); t = S.o_threshold(); msg = pick(["x", "message %s %d", "two\nlines", "end\n", "\n", "a\n\n", "percent %"])
        H.keep = True; H.got = []; F.mode = draw(4) == 3; H.mode = pick([0, 0, 0, 1, 2])
        ok, v, f = attempt("log %d" % lvl, S.o_log, (lvl, msg), None, 'ok', leak=False)
        H.keep = False; got, H.got = H.got, []
        if not f:
            want = [(lvl, msg.rstrip('\n') if msg.strip('\n') else None, flame.getLoggerName())] if lvl >= t and not F.mode else []
            g = [x for x in got if x[1] in (msg, msg.rstrip('\n'))] if H.mode == 2 else got
            if len(g) < len(want) or (H.mode != 2 and len(g) != len(want)) or (want and want[0][1] is not None and g[0] != want[0]): S.violate("log", "message %r at level %d (threshold %d) arrived as %r" % (msg, lvl, t, got))
        F.mode = 0; H.mode = 0

def op_ambient(): # what the log handler does during later operations
    H.mode = pick([0, 1, 2]); F.mode = draw(6) == 5; flame.setLogLevel(pick([BASELEVEL, 20, 10, 0]))

def run():
    try: history()
    except Exception:
        import traceback; S.broken(traceback.format_exc()[-1500:])
def history():
    global W
    W = World(); W.m = []; W.s = []; W.oom = chance(2, 3); W.leaks = chance(1, 2); W.parses = set(); W.nesting = 0; W.arming = False; W.quiet = False; W.oneshot = False; W.busym = W.busys = None; W.boomed = False
    c = 0; mx = 60 if S.tier() else 25
    while c < mx and draw(15):
        c += 1; S.opb()
        f = pick([op_build, op_build, op_badbuild, op_alloc, op_alloc, op_propagate, op_propagate, op_propagate, op_reconf, op_reconf, op_query, op_setattr, op_setattr, op_state, op_state, op_parse, op_reinit, op_uninit, op_log, op_ambient])
        f()
        check_all()
        S.ope()
    H.mode = F.mode = 0
    check_all(True)
    # usable afterwards: a fresh machine behaves normally
    W.oom = False; W.leaks = False
    op_build(); op_alloc(); op_propagate()
    for m in W.m: S.o_free(m.h)
    for s in W.s: S.o_free(s.h)
    W.m = []; W.s = []; gc.collect()
