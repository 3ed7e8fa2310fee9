#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Propagation results do not depend on what the machine did before",
 "Propagating a beam state through a machine gives the result that a freshly built machine with the same configuration gives for the same state, start element, count and direction, whatever the machine was used for before: other beams (other energies, charge states, phases, orders), forward, backward or partial passes, element-by-element stepping, interrupted or failed propagations. The only exception is backward propagation through an accelerating cavity, which must either undo the most recent forward pass through that cavity whose output it matches, or be refused. Repeating, splitting or interleaving propagations therefore never changes any beam's result.",
 ["histories", "inputs", "fault_sequences"],
 "every lattice of every element type, every history of propagate calls over several live beam states in both directions, with propagations aborted at any element (observer exception, failed allocation, unreadable data file)",
 "Existing tests propagate one or two fixed beams, almost always once, through a fresh machine; they never interleave beams, repeat after a failure, or cross forward with backward passes on the same element.",
 ["src/moment.cpp", "src/flame/moment.h", "src/flame/rf_cavity.h", "src/rf_cavity.cpp", "src/linear.cpp", "src/chg_stripper.cpp", "src/base.cpp"],
 [("per-element transfer-matrix cache keyed on the input particle state", "MomentElementBase::advance / check_cache (src/moment.cpp), ElementSBend::advance, ElementRFCavity::advance (src/flame/rf_cavity.h)"),
  ("backward admission test", "MomentElementBase::check_backward")],
 [("last_ref_in/out, last_real_in/out, transfer, misalign", "memoised result of the last computation of an element", "src/flame/moment.h")],
 ["Machine::propagate result state (all state arrays)"])

prop("C02", "Reconfiguring an element is equivalent to rebuilding the machine",
 "After any sequence of successful element reconfigurations, a machine behaves exactly like one newly built from its elements' current configurations: propagation results, element parameters, positions, and lookup by name, type and index all agree, and observers attached to elements stay attached. A reconfiguration that is refused (unknown type, changed type, missing or wrong parameter, index out of range, missing or unreadable data file) reports an error and leaves the machine as it was; one that runs out of memory reports an error, and repeating it then succeeds.",
 ["histories", "configurations", "fault_sequences"],
 "every element type and parameter, every interleaving of reconfigure, failed reconfigure, propagate and lookup, with allocation or data-file faults inside the reconfiguration",
 "Tests reconfigure one or two parameters of a few element types once; the assign() of each element type must copy every derived member, which only shows for the parameter that was forgotten.",
 ["src/base.cpp", "src/flame/base.h", "src/flame/rf_cavity.h", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/flame/chg_stripper.h", "src/linear.cpp", "src/moment.cpp"],
 [("rebuild then assign", "Machine::element_builder_impl::rebuild (src/flame/base.h)"), ("assign() overrides", "every Element class")],
 [("p_lookup / p_lookup_type", "name and type indices", "src/flame/base.h")],
 ["Machine::propagate", "Machine::find / equal_range", "element show()/conf()"])

prop("C03", "A failed operation is contained: clean error, no leak, retry gives the answer",
 "When memory allocation or file access fails at any point inside building a machine, allocating or cloning a state, or propagating, the operation reports an error to its caller: the process neither crashes, exits nor hangs, nothing is leaked (memory left behind by a lattice or data file parse that ran out of memory excepted), and no other object is damaged. Once the fault is gone, repeating the operation on the same objects (with a fresh input state) gives exactly the result it would have given had the fault never happened.",
 ["fault_sequences", "crash_points", "inputs"],
 "every allocation, open, read, and stat performed inside the operation fails in turn or in random combination, for every element type and sim_type",
 "Tests never inject a failure; every error path after a partially completed operation is unexecuted.",
 ["src/base.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/flame/rf_cavity.h", "src/linear.cpp", "src/chg_stripper.cpp", "src/util.cpp", "src/config.cpp"],
 [("exception safety of construction", "Machine::Machine"), ("cache keys updated before the matrices they describe", "MomentElementBase::advance, ElementRFCavity::advance")],
 observe=["exception or result", "live allocations", "process status"])

prop("C04", "Configuration copies are independent values",
 "Every copy, assignment, nested scope or stored sub-configuration of a configuration behaves as an independent value: changing, swapping, re-scoping or flattening one never changes what any other one (including the configurations held by machines and elements) reports, and reading never changes anything. Lookups always return the innermost value, and this holds when copies are used from different threads and when a modification fails part way for lack of memory.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of copy, assign, set, swap, get, scope and flatten operations over several handles, split over any number of threads in any interleaving, with allocations failing inside any of them",
 "Tests touch one Config with a few keys and one scope; sharing bugs need particular sequences of copies and mutations, and thread interleavings are never controlled.",
 ["src/config.cpp", "src/flame/config.h"],
 [("copy on write", "Config::_cow"), ("scope sharing", "Config::new_scope / push_scope / flatten")],
 [("values / implicit_values", "reference counted maps shared between copies", "src/flame/config.h")],
 ["get/tryGet/getAny/iteration/show of every handle"])

prop("C05", "The type registry is usable from any thread at any time",
 "Registering simulation and element types, building machines, allocating states, discarding the registry and destroying machines may happen from any threads in any interleaving: each registration takes effect exactly once or fails with an error, each machine is built from one consistent registry, duplicate or orphan registrations are refused, and there is no data race, deadlock or use of freed memory. A machine stays fully usable, including reconfiguration, after the registry has been discarded.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of registration, construction, reconfiguration, use, cleanup and destruction over several threads, with failing constructors and allocations",
 "The tests are single threaded and only ever register the built-in types once.",
 ["src/base.cpp", "src/flame/base.h"],
 [("registry mutex", "info_mutex in src/base.cpp"), ("builders", "Machine::p_registerElement / registeryCleanup")],
 [("p_state_infos", "global map of sim_types", "src/base.cpp")],
 ["registration and construction outcomes, race/deadlock detector"])

prop("C06", "Cached data files always reflect the file on disk",
 "Fetching a numeric data file, or building an element from a curve or cavity data file, uses the file's content as of some moment not before the call began, for every history of the file being created, replaced, touched, made unreadable or removed, as long as each new content arrives at once (by renaming) with a modification time (whole seconds, earlier or later) the file never had before; a failed fetch is reported, is not remembered, and does not spoil later fetches or tables handed out earlier. This holds for any number of threads fetching any files concurrently, without data race or deadlock.",
 ["histories", "schedules", "fault_sequences"],
 "every interleaving of fetches, cache clears and file modifications (including modification between any two file-system calls of a fetch), any direction of modification-time jumps, with open/read/stat errors and allocation failures",
 "The only test fetches one file that never changes; races with writers and clock jumps are never produced.",
 ["src/util.cpp", "src/flame/util.h", "src/rf_cavity.cpp", "src/chg_stripper.cpp"],
 [("mtime-validated cache under a mutex", "numeric_table_cache::fetch"), ("table parser", "numeric_table::read")],
 [("cache / lastmod", "path -> table and its modification time", "src/util.cpp")],
 ["numeric_table_cache::fetch result vs reference file history"])

prop("C07", "Parsing depends only on the lattice text, not on how it arrives",
 "Parsing a lattice gives the same configuration (or the same error) whether the text comes from a byte buffer, a file or a stream, however the reads are split or interrupted, and whatever the process parsed before, including failed parses. A read error, missing or unreadable file, or failed allocation is always reported as an error: the parser never ends the process, crashes, hangs, leaks (except when out of memory), or returns a configuration made from part of the text.",
 ["fault_sequences", "inputs", "histories"],
 "every valid or malformed lattice text, every split of the byte stream, an I/O error or failed allocation at every point, any sequence of previous parses",
 "Tests parse small strings and intact local files; no read is ever short, interrupted or failing, and malformed input is limited to a handful of cases.",
 ["src/glps.y", "src/glps.l", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp", "src/h5loader.cpp"],
 [("reentrant scanner and parser", "src/glps.l, src/glps.y"), ("parse context clean-up", "parse_context in src/glps_parser.cpp"), ("destructors for discarded symbols", "%destructor in src/glps.y")],
 observe=["GLPSParser::parse_byte / parse_file result", "process status", "live allocations"])

prop("C08", "Machines used from different threads do not influence each other",
 "Threads that each use their own machine and states (parse, build, reconfigure, propagate, inspect, destroy) get exactly the results they would get running alone, for every interleaving, even when the machines were built from copies of one configuration and use the same data files. There is no data race and no deadlock.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving at the granularity of single memory accesses of several threads each running an arbitrary sequence of operations on machines of their own",
 "No test uses more than one thread; hidden process-wide state shared between machines is invisible to single-threaded runs.",
 ["src/base.cpp", "src/moment.cpp", "src/moment_sup.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/config.cpp", "src/util.cpp", "src/glps_parser.cpp", "src/glps.y", "src/glps.l"],
 [("mutex-protected process-wide caches", "numeric_table_cache, ElementRFCavity::CavConfMap"), ("reentrant parser", "src/glps.y / src/glps.l")],
 [("CavConfMap", "process-wide cache of parsed cavity description files", "src/rf_cavity.cpp")],
 ["final states bit-compared with a serial run; happens-before race detector"])

prop("C09", "Every enabled log message reaches exactly one logger, whole and once",
 "A message logged at an enabled severity is delivered exactly once, complete and unmixed with others, with its severity and source position, to a logger that was installed at some moment between the start and the end of the logging call, and messages below the threshold are not delivered. Loggers may be replaced from any thread, including from inside a logger and while others are logging: a logger is never used after it was released and there is no deadlock or data race.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of logging and logger replacement over several threads (the threshold being set while no other thread logs), with loggers that throw, log recursively, build machines or replace themselves",
 "Tests install one Python logger and check one message from one thread.",
 ["src/base.cpp", "src/flame/base.h"],
 [("logger hand-over under the registry mutex", "Machine::set_logger, Machine::LogRecord::~LogRecord")],
 [("p_logger / log_detail", "current logger and threshold", "src/base.cpp")],
 ["recorded deliveries of instrumented loggers"])

prop("C10", "Saved results read back exactly or the failure is reported",
 "Every state appended to a results file is, once the file has been closed without error, read back bit for bit: each quantity of each recorded element, for any number of charge states, in order, with the right shape. If any file-system operation fails (open, write, full disk, flush, close), some call reports an error; no call hangs or crashes, later writers are unaffected, and loading a table from such a file returns exactly the stored table or an error.",
 ["fault_sequences", "histories", "inputs"],
 "every sequence of open/append/close over several writers and readers, any number of charge states, any path form, with an error, short write or full disk at every file-system call",
 "Tests write one file with one charge state and never fail a system call, and the writer has no read-back test.",
 ["src/h5writer.cpp", "src/flame/h5writer.h", "src/h5loader.cpp", "src/flame/h5loader.h"],
 [("HDF5 append", "H5StateWriter::append / prepare"), ("path/group splitting", "H5StateWriter::open, H5Loader::open")],
 observe=["file contents read back through the HDF5 library"])

prop("C11", "A simulation run that exits successfully has written all of its output",
 "If the command-line simulator exits with status 0, every output it was asked for has been written completely to the requested destination, in the requested format, for every selected element in order, with the values a direct propagation gives. Any failure (unreadable lattice or data, unwritable or full destination, invalid option or value, unknown quantity, failed simulation or allocation) ends with status 1 and a message, never a crash or hang. A selection that matches no element, an unknown sub-option of a format, and HDF5 output without a file name only give a warning.",
 ["fault_sequences", "configurations", "inputs"],
 "every output format, destination and element selection, with any file-system call of the run failing, short or interrupted",
 "The command-line tests only check that a run on an intact disk ends and match one fixed output.",
 ["tools/cli.cpp", "src/h5writer.cpp"],
 [("output formats", "StreamObserver, UnitTestObserver, H5Observer and their factories in tools/cli.cpp"), ("exit status", "main in tools/cli.cpp")],
 observe=["exit status, produced files and standard output"])

prop("C12", "Virtual IOC: simulation requests are never lost and results are consistent",
 "In the virtual accelerator control server (vaccel), every accepted request for a simulation, made at any time by any client, is followed by a completed simulation that includes all settings accepted before it, within a bounded time once requests stop. Readings that are not flagged invalid show, with the record's unit conversion, the results of one completed simulation of settings that were in force - never a mixture with a running, failed or older one, never uninitialised or out-of-range data, never more elements than the record holds. A failed simulation (also for lack of memory) flags the readings, its message can be read, and it does not prevent the next one. A setting that is refused is flagged and changes nothing; setting readbacks show the value in force. Shell commands and record links that name nothing are refused without effect. Stopping the server always terminates its workers before it returns. No interleaving of records, workers and shell has a data race or deadlock.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of record processing, scan callbacks, shell commands, the simulation workers and shutdown, with simulations that fail at any element, refused settings, full callback queues, clock jumps and memory or thread shortage",
 "The server is not covered by any test in this repository.",
 ["vaccel/flame.cpp", "vaccel/flame.h", "vaccel/flamedev.cpp", "vaccel/flameset.cpp", "vaccel/flamemeasure.cpp", "vaccel/flameorbit.cpp", "vaccel/flameelem.cpp"],
 [("worker loop and wake-up", "Sim::run / Sim::queueSim in vaccel/flame.cpp"), ("per-simulation lock", "Sim::lock")],
 [("doSim, stop, valid, last_msg", "worker state", "vaccel/flame.h")],
 ["record values and alarm states", "worker progress"])

prop("C13", "Python API: failures surface as exceptions and leave objects usable",
 "From Python, any failure while parsing, building, configuring or propagating (a file-like object or iterable that raises or misbehaves, wrong arguments, bad lattice, failing allocation) raises a Python exception and leaves the interpreter and every existing machine and state usable, with no reference leaked; a later correct call gives the normal result. Results observed through the Python API equal the propagated values, and observation never outlives the call that asked for it.",
 ["fault_sequences", "histories", "inputs"],
 "every API call in any order, with a Python callback raising, or an allocation failing, at any point inside the call",
 "Python tests cover success paths and a few argument errors, each on a fresh object.",
 ["python/flame/modmain.cpp", "python/flame/modmachine.cpp", "python/flame/modstate.cpp", "python/flame/modconfig.cpp", "python/flame/pyflame.h"],
 [("exception translation", "TRY/CATCH macros in python/flame/pyflame.h"), ("temporary observers", "PyMachine_propagate in python/flame/modmachine.cpp")],
 observe=["Python exceptions, return values, reference and allocation counts"])

prop("C14", "Observers see every traversed element exactly once and change nothing",
 "During a propagation each attached observer is called exactly once per traversal of its element, in traversal order, right after that element acted and with that element's resulting state; no observer of an element that was not traversed is called. Attaching, replacing or detaching observers or a trace stream, or an observer that throws, never changes the computed results, the elements visited, or later propagations, and an observer exception reaches the caller of the propagation.",
 ["histories", "fault_sequences", "inputs"],
 "every lattice, start, count and direction, any set of observers changing between propagations, observers that throw at any element, failing trace streams",
 "Tests observe fixed elements in one forward pass.",
 ["src/base.cpp", "src/flame/base.h"],
 [("observer call in the propagation loop", "Machine::propagate")],
 [("p_observe / p_trace", "observer and trace attached to an element / machine", "src/flame/base.h")],
 ["observer call log vs reference traversal"])

prop("C15", "A generated IOC directory is complete and correct, or an error is raised",
 "When the generator of control-system files (flame.ioc: Generator.emit_subst, gendb) ends without an error, the output directory holds everything the server start-up needs: exact copies of the lattice file, of the common databases and of the template of every element type in use; a substitutions file that lists every element whose type has a template exactly once in beam order, for the common and for its own template, under a record name that no other element has and with an element reference (name, or name[N] for the N-th repetition of that name, counted from 0) that selects exactly that element; and a start-up script naming the lattice file and the number of markers. This holds for every lattice, every record naming function and whatever the directory held before. If any file operation fails (open, read, write, full disk, close, creating the directory) an exception is raised, the lattice file is untouched, and running it again gives the complete result.",
 ["fault_sequences", "histories", "inputs"],
 "every lattice (repeated, nested and unknown elements), naming function, output directory state and failing or short file-system call",
 "There are no tests of the generator.",
 ["python/flame/ioc.py", "python/flame/data/*"],
 [("collecting and naming elements, writing files", "Generator.emit_subst in python/flame/ioc.py")],
 observe=["files in the output directory, exceptions"])

prop("C16", "Beam states are independent, consistently described values",
 "Cloning a state or assigning one to another gives equal quantities (all of them, bit for bit) and equal results in every later propagation. From then on the two are independent: editing, propagating, assigning or destroying one never changes what any other reports. The list of quantities a state offers (names, types, dimensions) never changes, all its per-charge-state arrays always have the same number of entries, and printing it shows its quantities. Assigning from a state of another kind is refused. Any of these failing for lack of memory reports an error and leaves every state, including the one being changed, readable, printable and assignable.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of clone, assign, edit, propagate, print and destroy over states of all kinds with 1 to many charge states, and every failing allocation in it",
 "Tests clone one state and compare a few numbers.",
 ["src/moment.cpp", "src/linear.cpp", "src/base.cpp", "src/flame/state/*.h", "src/chg_stripper.cpp"],
 [("copy, assignment, description and printing of states", "MomentState/VectorState/MatrixState ctor, assign, getArray, show"), ("change of the number of charge states", "ElementStripper::Stripper_GetMat")],
 [("real, moment0, moment1, transmat", "per-charge-state arrays of a state", "src/flame/state/moment.h")],
 ["StateBase::getArray of every live state"])

prop("C17", "Damaged descriptions are refused or read deterministically",
 "Building and using a machine from a damaged description - a lattice or data file (field map, multipole table, thin-lens list, generic cavity file, curve table) that is torn, shortened, mixed up with another or garbled, or parameters that are missing or have the wrong type, length or value - either reports an error, or gives an outcome that depends only on the bytes and values given: never an invalid memory access, an abort or a use of uninitialised memory, and never a different outcome in another process or after another history. It has no effect on other machines, nor on a later one built from the repaired description.",
 ["inputs", "fault_sequences", "histories"],
 "every lattice and data file damaged at any point in any way a torn write, a lost or repeated line or a mix-up gives, every parameter value",
 "Tests use intact data files and a few missing parameters.",
 ["src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/moment.cpp", "src/moment_sup.cpp", "src/util.cpp", "src/config.cpp", "src/linear.cpp", "src/base.cpp"],
 [("reading cavity data", "ElementRFCavity::LoadCavityFile, numeric_table::read"), ("reading parameters", "element constructors, Stripper_GetMat, MomentState ctor")],
 observe=["outcome of building and propagating in processes with different memory garbage"])

prop("N01", "Transfer matrices agree with the physics model",
 "Each element's transfer matrix is the one the documented beam-physics model gives for its parameters and the beam's energy and charge, and composing slices of an element equals the whole element.",
 ["inputs"], "all element parameters and beam energies",
 "Numeric tests compare a few lattices with reference numbers.",
 ["src/moment.cpp", "src/moment_sup.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/linear.cpp"],
 [("matrix formulas", "Get*Matrix in src/moment_sup.cpp, InitRFCav in src/rf_cavity.cpp")])

prop("N02", "Expressions evaluate as documented and printed lattices parse back",
 "Arithmetic, function calls and references in lattice files evaluate to their documented values, and printing a parsed lattice and parsing the text again gives an equivalent lattice.",
 ["inputs", "programs"], "all lattice expressions",
 "Tests evaluate a handful of expressions.",
 ["src/glps_ops.cpp", "src/glps_parser.cpp", "src/config.cpp"],
 [("expression evaluation", "src/glps_ops.cpp"), ("printer", "GLPSPrint in src/config.cpp")])

prop("N03", "Backward propagation inverts forward propagation numerically",
 "Propagating forward and then backward through the same range returns the initial beam within rounding, for all supported elements.",
 ["inputs"], "all element parameters and beams",
 "One lattice is checked.",
 ["src/moment.cpp", "src/flame/rf_cavity.h", "src/moment_sup.cpp"],
 [("inverse transfer matrix", "MomentElementBase::advance, inverse() in src/moment_sup.cpp")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
