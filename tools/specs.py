"""What each check runs: simulators (stages), budgets, and what the evidence says about them."""
CORE = ["src/base.cpp", "src/config.cpp", "src/linear.cpp", "src/moment.cpp", "src/moment_sup.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/glps.y", "src/glps.l", "src/util.cpp", "src/h5loader.cpp", "src/h5writer.cpp", "boost", "libhdf5", "libstdc++"]
SEAM = ["allocator (operator new, malloc: every allocation counted and failable)", "file system calls on the run's scratch directory (errors, short transfers, EINTR, concurrent modification)", "clock"]
THREADS = "thread scheduler (every memory access, atomic, lock and file-system call is a scheduling point)"
def asan(*wl, **kw): return dict({"name": wl[0].split("/")[-1].split(".")[0], "flavour": "asan", "wl": list(wl)}, **kw)
def sched(*wl, **kw): return dict({"name": wl[0].split("/")[-1].split(".")[0] + "s", "flavour": "sched", "wl": list(wl)}, **kw)
import build as _b, glob as _g, os as _os
def _src(d): return [_os.path.relpath(f, _b.REPO) for f in sorted(_g.glob(_os.path.join(_b.REPO, d, "*.cpp")))]
PYI = ["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include"]
PY = dict(extra_repo=[(f, PYI) for f in _src("python/flame")], libs=["-lpython3.12"], extra_flags=PYI + ['-DSIM_REPO_DIR="%s"' % _b.REPO, '-DSIM_VERIF_DIR="%s"' % _b.VERIF])
EPI = ["-I" + _b.VERIF + "/sim/epics"]
EPICS = dict(extra_repo=[(f, EPI) for f in _src("vaccel")], libs=["-lboost_regex"], extra_flags=EPI)
SPECS = {
 "C01": {"stages": [{"workload": "c01", "build": asan("wl/c01.cpp"), "quick": 4000, "thorough": 400000}],
  "rule": "one evaluation is one simulated history: a random lattice, several beams, interleaved forward, backward, partial and stepwise propagations, some aborted by an injected failure, each compared with a fresh machine; distinct_nontrivial counts distinct (operation, element type, history shape, outcome) combinations reached",
  "real": CORE, "stub": SEAM, "assumptions": ["cavity data files are those shipped with the repository's tests", "results are compared exactly for identical call sequences"]},
 "C02": {"stages": [{"workload": "c02", "build": asan("wl/c02.cpp"), "quick": 5600, "thorough": 400000}],
  "rule": "one evaluation is one history of reconfigurations (good, refused, failing on data files or allocation), propagations and lookups on one machine, each compared with a machine newly built from the current element configurations; distinct_nontrivial counts distinct (element type, changed parameter, outcome, fault) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["element configurations are drawn from the parameters each element type documents or reads"]},
 "C03": {"stages": [{"workload": "c03", "build": asan("wl/c03.cpp"), "quick": 4800, "thorough": 400000}],
  "rule": "one evaluation is one history of building, cloning and propagating operations with allocation and file faults at drawn points, each followed by a retry compared with the undisturbed result and by leak accounting; distinct_nontrivial counts distinct (operation, fault kind, outcome, element types) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["memory left behind by a lattice parse interrupted by lack of memory is not counted"]},
 "C04": {"stages": [{"workload": "c04", "build": asan("wl/c04.cpp"), "quick": 7200, "thorough": 600000}, {"workload": "c04", "build": sched("wl/c04.cpp"), "quick": 4000, "thorough": 300000}],
  "rule": "one evaluation is one history of copy, assign, scope, flatten, swap, set and store operations over several configurations and a machine, mirrored operation by operation on a deep-copying model; distinct_nontrivial counts distinct (operation, shape of the target, fault) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["the configuration being modified when an allocation fails may keep its old or get its new value, or a placeholder for the parameter being set"]},
 "C06": {"stages": [{"workload": "c06", "build": asan("wl/c06.cpp"), "quick": 9600, "thorough": 600000}, {"workload": "c06", "build": sched("wl/c06.cpp"), "quick": 4000, "thorough": 300000}],
  "rule": "one evaluation is one history of fetches of tables, curve files and cavity files against files being replaced, touched, damaged and removed, also between two file-system calls of a fetch, with errors and short reads; distinct_nontrivial counts distinct (outcome, fault, number of versions current, age of the version returned) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["each change of content is atomic (rename) and gives the file a modification time it never had before, in whole seconds"]},
 "C07": {"stages": [{"workload": "c07", "build": asan("wl/c07.cpp"), "quick": 8000, "thorough": 600000}],
  "rule": "one evaluation is one history of parses of 1-3 generated texts (well formed, damaged or with late errors) through memory, file name and FILE*, with short reads, EINTR, EIO, failing opens and failing allocations; distinct_nontrivial counts distinct (text outcome, delivery, fault) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["texts up to some tens of kilobytes", "memory left behind by a parse interrupted by lack of memory is not counted as a leak"]},
 "C05": {"stages": [{"workload": "c05", "build": sched("wl/c05.cpp"), "quick": 40000, "thorough": 1000000}, {"workload": "c05", "build": asan("wl/c05.cpp"), "quick": 4000, "thorough": 200000}],
  "rule": "one evaluation is one history of registrations, clean-ups, constructions (some with constructors that fail, log, register or build machines themselves), uses and reconfigurations over 2-4 simulated threads with failing allocations; its outcomes must be explained by some order of the operations on a reference model; distinct_nontrivial counts distinct sequences of completed operations",
  "real": CORE, "stub": SEAM + [THREADS, "sim and element types (harness)"], "assumptions": ["histories of up to 64 registry operations", "memory accesses are interleaved sequentially consistently; weaker orders are covered by the happens-before race detector"]},
 "C08": {"stages": [{"workload": "c08", "build": sched("wl/c08.cpp"), "quick": 4000, "thorough": 400000}, {"workload": "c08", "build": asan("wl/c08.cpp"), "quick": 1200, "thorough": 100000}],
  "rule": "one evaluation is one interleaving of 2-4 simulated threads, each running its own program of parses, builds, reconfigurations, propagations, fetches and lookups, with failing allocations and file accesses in some threads; each step's result is compared bit for bit with the same program alone in a pristine process; distinct_nontrivial counts distinct (operation, outcome, fault, result) combinations",
  "real": CORE, "stub": SEAM + [THREADS], "assumptions": ["each thread uses machines and states of its own", "results files (HDF5) are not used from several threads", "memory accesses are interleaved sequentially consistently; weaker orders are covered by the happens-before race detector"]},
 "C09": {"stages": [{"workload": "c09", "build": sched("wl/c09.cpp"), "quick": 40000, "thorough": 1000000}, {"workload": "c09", "build": asan("wl/c09.cpp"), "quick": 4000, "thorough": 100000}],
  "rule": "one evaluation is one history of logging calls and logger replacements over 2-4 simulated threads, with loggers that throw, log, replace or reset themselves or build machines, checked against the recorded history; distinct_nontrivial counts distinct sequences of (logger, thread) deliveries",
  "real": CORE, "stub": SEAM + [THREADS, "loggers and standard error (harness)"], "assumptions": ["the threshold is changed only while no other thread is logging", "loggers throw only exceptions derived from std::exception"]},
 "C10": {"stages": [{"workload": "c10", "build": asan("wl/c10.cpp"), "quick": 4000, "thorough": 300000}],
  "rule": "one evaluation is one history of opening, appending to, annotating, closing and reopening results files and groups by two writers, and of loading tables, with failing, short and interrupted file-system calls and failing allocations; every file that was closed without error is read back with the C library and compared value by value with a model; distinct_nontrivial counts distinct (operation, writer state, fault, rows, group) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["an error met while a writer is destroyed without being closed can't be reported", "two writers never use the same group at the same time", "close(2) of a file opened only for reading does not fail (libhdf5 1.10.10 crashes)"]},
 "C11": {"stages": [{"workload": "c11", "build": asan("wl/c11.cpp", extra_repo=[("tools/cli.cpp", ["-Dmain=flame_cli_main"])]), "quick": 4000, "thorough": 300000}],
  "rule": "one evaluation is one history of 1-4 runs of the command-line simulator with drawn lattices, options, selections, formats and destinations, with failing or short file-system calls, failing writes to standard output and failing allocations; the output of every run that ended with status 0 is compared completely with direct use of the library in a pristine process; distinct_nontrivial counts distinct (outcome, format, destination, selection, fault) combinations",
  "real": CORE + ["tools/cli.cpp", "boost::program_options"], "stub": SEAM + ["standard output (its every write is decided by the simulator)"], "assumptions": ["the exit handler of libhdf5, which crashes (1.10.10) after a file could not be closed, is not run after a failure was reported", "text printed by boost::ublas while allocations fail is not compared"]},
 "C12": {"stages": [{"workload": "c12", "build": sched("wl/c12.cpp", **EPICS), "quick": 8000, "thorough": 600000}],
  "rule": "one evaluation is one life of the server: start-up script, records of all kinds, 1-3 clients, the scan callback thread and one worker per simulation interleaved over several phases, then shutdown, possibly while clients are busy; every reading is compared with reference simulations of the settings it may include; distinct_nontrivial counts distinct (quantity, validity, number of candidate settings, matches) combinations and reading histories",
  "real": CORE + ["vaccel/*.cpp", "vaccel/iocshelper.h", "boost::regex"], "stub": SEAM + ["EPICS base (mutex, event, thread, time, record processing, scan lists, shell) after its documented semantics", "the clients"], "assumptions": ["EPICS base behaves as documented: recursive mutexes, events are binary semaphores, generalTime does not go backwards, a record is processed under its lock", "simulations are created by the start-up script before records are initialised; one record per setting"]},
 "C13": {"stages": [{"workload": "c13", "build": asan("wl/c13.cpp", **PY), "quick": 4000, "thorough": 200000}],
  "rule": "one evaluation is one history of up to 25 (thorough: 60) Python API calls on several machines and states in an embedded interpreter, with misbehaving arguments (conversions, iterators, readers and log handlers that raise or use the API themselves), failing C++ and Python allocations, and repeated calls whose memory and reference balance is measured; every object and result is compared with the C++ library used directly; distinct_nontrivial counts distinct (operation, outcome, exception, fault) combinations",
  "real": CORE + ["python/flame/*.cpp", "python/flame/__init__.py", "CPython 3.12", "numpy"], "stub": SEAM + ["CPython's allocators (allocations made on behalf of the extension are failable)"], "assumptions": ["Python allocations made while Python code runs do not fail (CPython 3.12 itself loses exceptions or crashes then), nor while an OrderedDict is passed (its iterator crashes)", "a log handler does not use the machine whose call is being logged", "one thread: the GIL is never released by the extension"]},
 "C15": {"stages": [{"workload": "c15", "build": asan("wl/c13.cpp", **PY), "quick": 5000, "thorough": 300000}],
  "rule": "one evaluation is one history of up to 6 (thorough: 14) generator runs over generated lattices, naming functions and output directories, with failing, short and interrupted file-system calls; the complete output of every run that ended without an exception is compared with what the lattice asks for; distinct_nontrivial counts distinct (entry point, outcome, fault, size of the lattice, number of element types) combinations",
  "real": CORE + ["python/flame/ioc.py", "python/flame/*.cpp", "CPython 3.12"], "stub": SEAM, "assumptions": ["a template that can't be found (stat fails) counts as missing, and its elements are left out with a warning", "the lattice file does not change during a run"]},
 "C14": {"stages": [{"workload": "c14", "build": asan("wl/c14.cpp"), "quick": 12000, "thorough": 600000}],
  "rule": "one evaluation is one history of attaching, replacing, detaching observers (also from within observers), throwing observers, failing trace streams and nested propagations, with each observed propagation compared with an unobserved element-by-element one; distinct_nontrivial counts distinct call sequences",
  "real": CORE, "stub": SEAM + ["observers and trace stream (harness)"], "assumptions": []},
 "C16": {"stages": [{"workload": "c16", "build": asan("wl/c16.cpp"), "quick": 16000, "thorough": 800000}],
  "rule": "one evaluation is one history of creating, cloning, assigning, editing, propagating, printing and destroying up to a dozen states of all three kinds, with failing allocations; after every operation every live state is compared with a value model and its description with the one it was born with; distinct_nontrivial counts distinct (operation, kind, outcome, fault, number of charge states) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["only quantities the description of a state lists are edited, within their bounds", "the next element and the direction of a propagation are no part of a state's value"]},
 "C17": {"stages": [{"workload": "c17", "build": asan("wl/c17.cpp", flavour="asanu"), "quick": 5600, "thorough": 400000}],
  "rule": "one evaluation is one history of machines built and used from damaged descriptions (torn, mixed-up, shortened or garbled lattice texts and data files, parameters that are missing or have the wrong type, length or value), each in two fresh processes whose heap and stack hold different garbage and once in a process with a history, followed by an undamaged machine; distinct_nontrivial counts distinct (damage, outcome) combinations",
  "real": CORE, "stub": SEAM, "assumptions": ["the 'step' counts of drifts and dipoles are not damaged (run time is proportional to them)", "lattice texts up to some kilobytes"]},
}
