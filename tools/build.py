"""Content-addressed builds of the simulators from /repo's working tree."""
import hashlib, os, subprocess, sys, glob, shutil, concurrent.futures as cf
REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")
H5I = "/usr/include/hdf5/serial"
H5L = "/usr/lib/x86_64-linux-gnu/hdf5/serial"

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(str(len(p)).encode() + b":"); h.update(p)
    return h.hexdigest()

def rd(p):
    with open(p, "rb") as f: return f.read()

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))

def headers():
    """hash of every file a compilation of repository code may include"""
    l = []
    for pat in [d + "/*." + e for d in ("src", "src/flame/**", "python/flame", "vaccel", "tools") for e in ("h", "hpp", "hh", "ipp", "inc", "def")]:
        l += glob.glob(os.path.join(REPO, pat), recursive=True)
    parts = []
    for f in sorted(set(l)): parts += [os.path.relpath(f, REPO), rd(f)]
    return sha(*parts)

def simheaders():
    parts = []
    for f in sorted(glob.glob(VERIF + "/sim/**/*.h", recursive=True)): parts += [f, rd(f)]
    return sha(*parts)

BASE = ["-g1", "-DNDEBUG", "-DUSE_HDF5", "-DBOOST_ATOMIC_DYN_LINK", "-DBOOST_ATOMIC_NO_LIB", "-DBOOST_FILESYSTEM_DYN_LINK", "-DBOOST_FILESYSTEM_NO_LIB", "-DBOOST_THREAD_DYN_LINK", "-DBOOST_THREAD_NO_LIB", "-DBOOST_SYSTEM_DYN_LINK", "-DBOOST_SYSTEM_NO_LIB", "-DBOOST_PROGRAM_OPTIONS_DYN_LINK", "-DBOOST_PROGRAM_OPTIONS_NO_LIB", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w"]
FLAVOUR = {
    # compile flags for the code under test, for the harness, link flags
    "asan": (["-O1", "-fsanitize=address"], ["-O1", "-fsanitize=address"], ["-fsanitize=address"]),
    "sched": (["-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-include", VERIF + "/sim/inc/instrument_string.h", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=0"], ["-O1", "-DSIM_SCHED=1"], []),
    # as asan, but local variables without an initialiser keep what the stack holds (the workload fills it differently in different processes)
    "asanu": (["-O1", "-fsanitize=address", "-ftrivial-auto-var-init=uninitialized"], ["-O1", "-fsanitize=address", "-DSIM_REALSTACK=1"], ["-fsanitize=address"]),
    "plain": (["-O2"], ["-O1"], []),
}

def jobs(): return int(os.environ.get("SIM_JOBS", "0")) or os.cpu_count() or 4

def gensrc():
    y, l = rd(REPO + "/src/glps.y"), rd(REPO + "/src/glps.l")
    d = os.path.join(OUT, "gen-" + sha(y, l)[:16])
    if not os.path.exists(d + "/ok"):
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        run(["bison", "-o", tmp + "/glps.par.c", "--defines=" + tmp + "/glps.par.h", REPO + "/src/glps.y"])
        run(["flex", "-o", tmp + "/glps.tab.c", "--header-file=" + tmp + "/glps.tab.h", REPO + "/src/glps.l"])
        open(tmp + "/ok", "w").close()
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

def compile_one(src, flags, extra_hash, tag):
    if src.endswith(".c"): flags = flags + ["-fexceptions"]
    cc = "gcc" if src.endswith(".c") else "g++"
    key = sha(cc, " ".join(flags), rd(src), src, extra_hash)[:24]
    obj = os.path.join(OUT, "obj", "%s-%s-%s.o" % (tag, os.path.basename(src), key))
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        try: run([cc, "-c"] + flags + [src, "-o", tmp])
        except BuildError:
            if os.path.exists(tmp): os.unlink(tmp)
            raise
        os.rename(tmp, obj)
    return obj

def core_sources(gen):
    s = [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) if not os.path.basename(f).startswith("test_") and os.path.basename(f) != "h5loadertest.cpp"]
    return s + [gen + "/glps.par.c", gen + "/glps.tab.c"]

SCHED_WRAPS = ["memcpy", "memmove", "memset", "strlen", "strcmp", "strncmp", "memcmp", "memchr", "strchr", "strcpy", "strncpy", "strcat", "vsnprintf", "snprintf", "sprintf", "vsprintf", "strtod", "strtol", "strtoul", "strtoull", "atoi", "atof", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"]
WRAPS = ["malloc", "free", "realloc", "calloc", "strdup", "fopen"]

def build(name, flavour, wl, extra_repo=(), extra_flags=(), libs=(), sim=("sim.cpp", "layers.cpp", "gen.cpp"), defs=(), incs=()):
    """link build/<name>-<hash> from repo core + extra_repo [(path, flags)] + harness files sim/<x> + wl (list in sim/)"""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    cf_, hf, lf = FLAVOUR[flavour]
    gen = gensrc(); hh = headers(); sh = simheaders()
    inc = ["-I" + REPO + "/src", "-I" + gen, "-I" + H5I] + ["-I" + i for i in incs]
    todo = []
    for s in core_sources(gen): todo.append((s, BASE + cf_ + inc + list(defs), hh + sha(gen), flavour))
    for s, fl in extra_repo: todo.append((os.path.join(REPO, s), BASE + cf_ + inc + list(defs) + list(fl), hh + sha(gen) + sh, flavour))
    hs = [VERIF + "/sim/" + x for x in list(sim) + list(wl)] + ([VERIF + "/sim/sched.cpp"] if flavour == "sched" else [])
    for s in hs:
        # workloads are instrumented like the code under test (inline code of its headers), the simulator itself is not
        hf2 = cf_ + ["-DSIM_SCHED=1"] if flavour == "sched" and (os.path.basename(s) == "gen.cpp" or "/wl/" in s) else hf
        todo.append((s, BASE + hf2 + inc + ["-I" + VERIF + "/sim"] + list(defs) + list(extra_flags), hh + sh + sha(gen), flavour + "h"))
    # big first
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    with cf.ThreadPoolExecutor(jobs()) as ex:
        objs = list(ex.map(lambda t: compile_one(*t), todo))
    objs.sort()
    link = ["g++", "-rdynamic"] + lf + ["-Wl,--wrap=" + w for w in WRAPS + (SCHED_WRAPS if flavour == "sched" else [])]
    tail = ["-L" + H5L, "-lhdf5_cpp", "-lhdf5", "-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lboost_atomic", "-lboost_program_options", "-ldl", "-lpthread"] + list(libs)
    key = sha(" ".join(link + tail), *objs)[:20]
    exe = os.path.join(OUT, "%s-%s" % (name, key))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        run(link + ["-o", tmp] + objs + tail)
        os.rename(tmp, exe)
    return exe

def prune(keep_days=0.5):
    import time
    now = time.time()
    for d in (OUT, os.path.join(OUT, "obj")):
        if not os.path.isdir(d): continue
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p) and now - os.path.getatime(p) > keep_days * 86400:
                try: os.unlink(p)
                except OSError: pass
