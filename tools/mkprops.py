#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Propagation depends only on the lattice and the input state",
 "Propagating a beam state through a machine (forward or backward, whole or partial) gives the same resulting state as the same call on a machine freshly built from the same configuration, whatever was propagated through the first machine before. "
 "Earlier calls with other states, other directions, other ranges, with observers, or calls that ended in an error leave no trace that changes a later result. Going backward through an RF cavity is excepted: it needs the matching forward pass first and is refused without it.",
 ["histories", "inputs"],
 "every history of propagate calls (forward, backward, partial, observed, failing) on one machine, every moment/vector/matrix lattice, every input state",
 "The tests propagate once or twice through a machine with one input state; the per-element caches keyed on the last input (which must be bypassed exactly when the outcome would differ) are only exercised on the trivial histories.",
 ["src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/base.cpp", "src/flame/moment.h"],
 [("cached transfer matrices keyed on last input reference/charge states", "src/moment.cpp MomentElementBase::advance/check_cache"),
  ("bend cache", "src/moment.cpp ElementSBend::advance/check_cache"), ("cavity cache", "src/rf_cavity.cpp ElementRFCavity::advance/check_cache/check_backward"),
  ("direction and next element set per call", "src/base.cpp Machine::propagate")],
 ["all state attributes after propagate"],
 [("last_ref_in, last_real_in, last_ref_out, last_real_out, transfer, misalign", "cached outcome of the last advance", "src/flame/moment.h")])

prop("C02", "Reconfiguring elements equals rebuilding the machine",
 "After any sequence of element reconfigurations (changing some properties or replacing them all), every propagation gives the result of a machine newly built from the lattice with those properties changed, and the element reports the changed configuration (a replacing reconfiguration keeps only the given properties). "
 "No other element is affected, and a rejected reconfiguration (bad index, unusable property value) raises an error and leaves the machine's behaviour and reported configuration as they were.",
 ["histories", "configurations"],
 "every interleaving of reconfigure (merge/replace, valid/invalid) and propagate calls, every element type and property, every simulation type",
 "Tests reconfigure a handful of elements once (a drift length, a corrector kick); whether every derived and cached field of each of 15 element types is refreshed is only visible for particular property/type/history combinations.",
 ["src/base.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/linear.cpp", "src/chg_stripper.cpp", "python/flame/modmachine.cpp"],
 [("rebuild a fresh element and assign it over the old one", "src/flame/base.h Machine::element_builder_impl::rebuild, src/base.cpp Machine::reconfigure"),
  ("per-type assign() copies every derived field", "src/moment.cpp, src/rf_cavity.cpp, src/chg_stripper.cpp, src/flame/linear.h assign()"),
  ("merge of new properties over the element's own", "python/flame/modmachine.cpp PyMachine_reconfigure")],
 ["conf(i) and state attributes after propagate"])

prop("C03", "Propagation composes, and observers see the true states passively",
 "Propagating a range of elements in any number of consecutive pieces gives the state that one call over the whole range gives; the element count limit, start index and travel direction select exactly the documented elements, and the position after a forward pass grows by the lengths of the elements passed. "
 "Observing elements returns exactly one entry per visit of each requested element, in visiting order, holding the state as it is right after that element, and asking for observations never changes the final state or any later propagation.",
 ["histories", "inputs"],
 "every lattice, start, count (including 0, negative and beyond the end), partition of a range, and set of observed elements",
 "Tests observe one or two fixed elements of fixed lattices and never compare split with whole propagation.",
 ["src/base.cpp", "python/flame/modmachine.cpp", "src/linear.cpp", "src/moment.cpp"],
 [("element loop with start/max/next_elem", "src/base.cpp Machine::propagate"),
  ("observer installation and removal, state cloning", "python/flame/modmachine.cpp PyStoreObserver/PyMachine_propagate"),
  ("pos accumulation", "src/moment.cpp advance, src/flame/linear.h advance")],
 ["propagate(observe=...) result list, state attributes, state.pos, state.next_elem"])

prop("C04", "Lattice files evaluate to the documented machine",
 "For every well-formed lattice file, parsing yields exactly the variables, element sequence and element properties that the lattice language defines: arithmetic with the usual precedence and functions, vectors, strings, constants, comments, references resolved to earlier definitions, line repetition, nesting and reversal, USE selecting the line, and each element seeing its own properties over the globals defined at top level. "
 "Redefinition of a name, references to undefined names, ill-typed operations and non-finite divisions are rejected with an error naming the line and the offending name or operation, and definitions supplied by the caller behave as if written at the top of the file.",
 ["programs", "inputs"],
 "every program of the lattice grammar",
 "The parser tests cover about forty fixed snippets; precedence, scoping, repetition and redefinition interact combinatorially.",
 ["src/glps.y", "src/glps.l", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp", "python/flame/modconfig.cpp"],
 [("grammar and actions", "src/glps.y"), ("scanner", "src/glps.l"),
  ("assignment, element and line construction, reference resolution", "src/glps_parser.cpp parse_context"),
  ("operators", "src/glps_ops.cpp")],
 ["GLPSParser().parse(text, extra=...)", "Machine(text).conf()"])

prop("C05", "Any input text is parsed or rejected cleanly",
 "Whatever bytes are given as a lattice (text, file or command line), parsing terminates with either a usable configuration or an error report; it never crashes, reads or writes out of bounds, frees wrongly, leaks memory per call, or disturbs a later parse. "
 "Building a machine from any configuration that parses, allocating a state and propagating it likewise either succeeds or reports an error.",
 ["inputs", "programs"],
 "every byte string, and every syntactically valid lattice with arbitrary property types and values",
 "Tests hold fixed inputs, most of them valid; memory errors on malformed input need generated inputs and sanitizers.",
 ["src/glps.y", "src/glps.l", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp", "src/base.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/util.cpp"],
 [("scanner and grammar error paths, destructors of discarded values", "src/glps.l, src/glps.y"),
  ("semantic errors and exception containment", "src/glps_parser.cpp"),
  ("validation in element constructors", "src/moment.cpp, src/rf_cavity.cpp, src/chg_stripper.cpp, src/linear.cpp")],
 ["GLPSParser, Machine construction, propagate under ASan/UBSan"])

prop("C06", "Printing a configuration and parsing it back preserves it",
 "Printing any lattice configuration as lattice text and parsing that text gives a configuration with the same variables, element sequence, element names, types and properties, up to the printed precision of numbers. "
 "Printing the reparsed configuration gives the same text again.",
 ["programs", "configurations"],
 "every configuration obtainable from a lattice file or from values the API can hold whose strings and names are expressible in the language",
 "One Boost test prints one lattice with four elements.",
 ["src/glps_parser.cpp", "src/config.cpp", "python/flame/modconfig.cpp", "tools/cli.cpp"],
 [("GLPSPrint visitor over variables, elements and line", "src/glps_parser.cpp GLPSPrint"), ("parser", "src/glps.y")],
 ["GLPSPrinter(conf), GLPSParser().parse(text), run_flame -L style dump"])

prop("C07", "Configurations behave as independent values with scoped lookup",
 "Any sequence of set, get, exchange, copy, assignment, scope push, scope creation, nesting and flattening on configurations behaves like independent nested dictionaries: a lookup finds the innermost definition, writes touch only the innermost scope, and changing a configuration never changes a copy of it, a scope created from it or a configuration it is nested in. "
 "Looking up a missing name or a name holding another type reports an error (or the given default), and iteration yields exactly the names of the innermost scope with their current values, after flattening all visible names.",
 ["histories"],
 "every sequence of configuration operations over several aliased configuration objects",
 "Tests check a few short fixed sequences; copy-on-write sharing bugs need particular orders of copy, scope push and write.",
 ["src/config.cpp", "src/flame/config.h"],
 [("copy on write of the value map", "src/config.cpp Config::_cow"), ("scope chain", "src/config.cpp push_scope/new_scope/flatten"),
  ("typed getters and setters", "src/flame/config.h get/set/tryGet/getAny/swap")],
 ["Config C++ API through a harness"])

prop("C08", "Linear simulations compute the ordered product of element maps",
 "In the vector and transfer-matrix simulations every element applies its documented linear map (drift, sector bend, quadrupole, solenoid, generic matrix, marker, source) in lattice order. "
 "The vector result equals the transfer-matrix result applied to the initial vector, the maps of length-bearing magnets preserve phase-space volume and compose over length, and position is the sum of element lengths.",
 ["inputs", "configurations"],
 "every lattice over the linear element types, every parameter sign and magnitude including zero, every initial vector or matrix",
 "Tests check three two-element lattices with hand-computed numbers.",
 ["src/linear.cpp", "src/flame/linear.h", "src/flame/state/vector.h", "src/flame/state/matrix.h"],
 [("per-element matrix construction", "src/linear.cpp Element* constructors and Get2by2Matrix"), ("state update", "src/flame/linear.h LinearElementBase::advance")],
 ["state.state, state.pos"])

prop("C09", "Moments are transported by the reported transfer matrices",
 "In the envelope simulation, after each element other than a source, stripper or sextupole, each charge state's centroid and covariance are those before the element transported by that charge state's reported transfer matrix (apart from the cavity's documented replacement of longitudinal centroid and its optional emittance growth), and the covariance stays symmetric and positive semidefinite. "
 "Energies are unchanged by static elements, the position advances by the element's length, the reference phase advances by wavenumber times length (charge-state phases too, plus in bends the longitudinal shift of the centroid), all derived kinematic attributes stay mutually consistent, and each static element's matrix (user matrices and electrostatic dipoles with an asymmetry factor apart) preserves phase-space volume.",
 ["inputs", "configurations"],
 "every lattice of moment elements with arbitrary parameters, any beam (energies, charges, covariances), every element position",
 "Tests compare a few end-of-lattice numbers of fixed FRIB lattices at loose tolerances.",
 ["src/moment.cpp", "src/moment_sup.cpp", "src/rf_cavity.cpp", "src/flame/moment.h"],
 [("moment0 = T m0; moment1 = T m1 T^t", "src/moment.cpp MomentElementBase::advance, ElementSBend::advance, src/rf_cavity.cpp advance"),
  ("phase and position bookkeeping", "src/moment.cpp advance"), ("Particle::recalc", "src/flame/moment.h")],
 ["state attributes before/after each element via observers"])

prop("C10", "Static elements apply their documented transfer maps",
 "For every beam and parameter set, drift, quadrupole, solenoid, sector bend with pole-face angles and field index, electrostatic dipole, electrostatic quadrupole, dipole corrector, sextupole, user matrix, marker and monitor apply the transfer map the element documentation defines from the beam rigidity, for each charge state with its own energy and charge. "
 "The map is the identity (or a drift) in the documented zero-strength limits, and consecutive halves of an element of uniform field compose to the whole.",
 ["inputs", "configurations"],
 "every element type, parameter sign and magnitude, length, beam energy, mass and charge, reference and off-reference charge states",
 "Each element type is tested at one operating point; focusing versus defocusing branches, zero limits, off-reference charge states and option flags are not enumerated.",
 ["src/moment.cpp", "src/moment_sup.cpp", "sphinx_doc/element.rst"],
 [("per-element recompute_matrix", "src/moment.cpp"), ("GetQuadMatrix, GetSolMatrix, GetSBendMatrix, GetEBendMatrix, GetSextMatrix, GetEdgeMatrix", "src/moment_sup.cpp")],
 ["state.transmat, moment0, moment1"])

prop("C11", "Beam averages weigh charge states, and charge states are independent",
 "After any propagation, and when a state is created, the reported averages are the charge-fraction weighted mean centroid, the weighted covariance about that mean including the spread of centroids, and its root diagonal. "
 "Each charge state evolves independently of the other charge states present with it (strippers excepted): adding, removing, reordering, splitting into equal copies, or rescaling all fractions changes only the averages in the way the weights say.",
 ["inputs", "configurations"],
 "every set of charge states and fractions, every lattice",
 "Tests use at most five fixed charge states in one order.",
 ["src/moment.cpp"],
 [("calc_rms weighted sums", "src/moment.cpp MomentState::calc_rms"), ("loop over charge states", "src/moment.cpp advance"),
  ("initialisation from IonChargeStates/NCharge and numbered vectors", "src/moment.cpp MomentState::MomentState")],
 ["moment0_env, moment1_env, moment0_rms, per-charge arrays"])

prop("C12", "A new beam state is what the configuration says",
 "A state allocated from a machine or a configuration holds exactly the configured reference energy, mass, sampling frequency, charge states, fractions, centroids and covariances, including the options that select variable names, a subset charge state or a reference charge, with derived kinematics consistent; missing or wrongly sized fractions, centroids or covariances of a listed charge state are rejected with an error rather than silently replaced. "
 "A source element at the head of a lattice sets the state to its own configuration, regardless of what the state held before.",
 ["configurations", "inputs"],
 "every combination of beam-definition keys, charge-state counts, sizes and option keys, from text or from dictionaries",
 "Tests allocate from four fixed lattices.",
 ["src/moment.cpp", "src/linear.cpp", "python/flame/modmachine.cpp"],
 [("state constructor", "src/moment.cpp MomentState::MomentState, load_storage"), ("source assign", "src/moment.cpp ElementSource, src/linear.cpp ElementSource"), ("allocState config/inherit", "python/flame/modmachine.cpp PyMachine_allocState")],
 ["allocState() attributes, state after propagate of a source"])

prop("C13", "Backward propagation undoes forward propagation",
 "For any lattice without strippers or sextupoles, propagating a state forward over a range and then backward over the same range restores reference and charge-state energies, phases, centroids, covariances (apart from emittance growth a cavity was told to add) and position, up to rounding. "
 "Elements that cannot be traversed backward report an error.",
 ["inputs", "histories"],
 "every reversible lattice (all static elements, misalignments, cavities), any beam, any sub-range",
 "One test goes back through one fixed lattice.",
 ["src/moment.cpp", "src/rf_cavity.cpp", "src/base.cpp"],
 [("inverse transfer on retreat", "src/moment.cpp advance, get_misalign, ElementSBend::advance"), ("cavity backward branch", "src/rf_cavity.cpp advance/check_backward/recompute_matrix")],
 ["state attributes after propagate(start, max) then propagate(end, -max)"])

prop("C14", "Misalignments act as a rigid displacement of the element",
 "An element with offset (dx, dy), pitch, yaw or roll parameters acts on the beam as the ideal element conjugated by the rigid-body change of frame about the element's middle that those parameters define, for every element type that accepts them (drifts, markers, monitors and user matrices ignore them); zero misalignment changes nothing. "
 "Consequently a beam translated with the element sees the ideal map, rolling a quadrupole by a quarter turn equals reversing its polarity, and a misaligned field-free element is a drift.",
 ["inputs", "configurations"],
 "every misalignment vector, every supporting element type, any beam",
 "Tests check one misaligned lattice at one operating point.",
 ["src/moment.cpp", "src/rf_cavity.cpp", "src/moment_sup.cpp"],
 [("get_misalign", "src/moment.cpp MomentElementBase::get_misalign"), ("RotMat", "src/moment_sup.cpp"), ("inverse(misalign)*T*misalign", "src/moment.cpp recompute_matrix of each element, src/rf_cavity.cpp")],
 ["state.transmat, moment0"])

prop("C15", "RF cavities follow the on-axis field integral and documented models",
 "Traversing an accelerating cavity changes the reference and every charge state's energy and phase by integrating the motion through the scaled on-axis field at the documented phase (driven, or synchronous with any of the synchronous-phase options), for the built-in cavity types and for cavities defined in data files. "
 "The applied longitudinal map and centroid are those the resulting energies and phases imply, zero field strength leaves energies unchanged and acts as a drift, and the reported driven phase reproduces the same result when used as input.",
 ["inputs", "configurations"],
 "every cavity type, frequency, phase, scaling, option flag and beam energy, charge state and arrival phase within the data tables' range",
 "Tests run fixed lattices with fixed phases and compare a few end values.",
 ["src/rf_cavity.cpp", "src/moment_sup.cpp"],
 [("GetCavBoost, PropagateLongRFCav, GetCavPhase", "src/rf_cavity.cpp"), ("InitRFCav, GetCavMat, TransFacts", "src/rf_cavity.cpp")],
 ["ref_IonEk, ref_phis, IonEk, phis, last_caviphi0, transmat"])

prop("C16", "Charge strippers replace the charge states and apply stripping physics",
 "Passing a stripper yields exactly the configured output charge states with the configured or computed (Baron) charge fractions, the documented mean energy loss, energy spread and angular straggling, weighted-mean input centroids and covariances, and averages consistent with the new states. "
 "With the charge model switched off the configured fractions are used as given, and energies, centroids and covariances after the stripper do not depend on the order of the incoming charge states.",
 ["inputs", "configurations"],
 "every stripper parameter set and every incoming multi-charge beam",
 "Two fixed stripper lattices are tested.",
 ["src/chg_stripper.cpp", "src/moment.cpp"],
 [("Charge_Stripper, ChargeStripper weights, Stripper_Propagate", "src/chg_stripper.cpp"), ("state resize and average", "src/chg_stripper.cpp Stripper_GetMat")],
 ["IonZ, IonQ, IonEk, moment0, moment1, *_env after the stripper"])

prop("C17", "Data files are read faithfully and caches follow their content",
 "Numeric tables and cavity or field-curve data files read with any comments, blank lines and column layout yield exactly the numbers in the file, and malformed files are rejected. "
 "A machine built or reconfigured after a data file changed uses the new content, however often and whenever the file was changed or read before (rewritten with equal size, or equal, older or future time stamps, replaced or renamed), and two files with the same name in different directories are never confused.",
 ["inputs", "histories"],
 "every table content and layout, every history of writing, replacing and renaming files with any time stamps and building or reconfiguring machines from them",
 "One Boost test reads two fixed tables; no test changes a data file.",
 ["src/util.cpp", "src/flame/util.h", "src/moment.cpp", "src/rf_cavity.cpp"],
 [("numeric_table::read", "src/util.cpp"), ("numeric_table_cache", "src/util.cpp"), ("per-process Config cache keyed by path and modification time", "src/moment.cpp GetCurveData, src/rf_cavity.cpp LoadCavityFile")],
 ["numeric_table API, propagate results with CurveFile / Generic cavity data files"])

prop("C18", "Python states are faithful, independent and checked views",
 "Every attribute of a state read from Python equals the simulator's value; writing an attribute with a value of the right shape is read back exactly and is what later propagations use; clones and observed states are independent of the original. "
 "Writing the wrong shape or type, reading unknown attributes, and any other misuse of the Python API raises a Python exception and leaves objects usable: it never crashes the interpreter, changes a machine or corrupts a state.",
 ["histories", "inputs"],
 "every sequence of attribute reads, writes, clones, propagations and misuse calls",
 "Tests read and write a few attributes once, with valid values.",
 ["python/flame/modstate.cpp", "python/flame/modmachine.cpp", "python/flame/modconfig.cpp", "src/moment.cpp"],
 [("attribute table built from getArray", "python/flame/modstate.cpp"), ("argument checking", "python/flame/modmachine.cpp"), ("array layout with strides", "src/moment.cpp getArray")],
 ["State attributes, clone(), str()"])

prop("C19", "HDF5 simulation output equals the simulated states",
 "Writing a series of states to an HDF5 file and reading it back gives, for every recorded state in order, every array and scalar attribute with the value the state had when recorded, for any number of charge states (varying between records too; unused places of a record are padding), file creation mode, group path and count of states. "
 "Loading numeric arrays from HDF5 files yields the stored shape and values or an error.",
 ["histories", "inputs"],
 "every simulation type, number of charge states and sequence of appended states; every stored array shape",
 "No test reads back a written state file; the loader is tested with one file.",
 ["src/h5writer.cpp", "src/h5loader.cpp", "src/flame/h5writer.h", "tools/cli.cpp"],
 [("H5StateWriter::prepare/append", "src/h5writer.cpp"), ("H5Loader::load", "src/h5loader.cpp")],
 ["HDF5 file contents read with h5py"])

prop("C20", "The command-line tool reports what the library computes",
 "Running the command-line simulator on a lattice prints or writes, for each selected element, the values the library computes for the state after that element, honouring the element-count limit, definitions from the command line (as if written at the top of the lattice), output format and output file options. "
 "Invalid options, unreadable or malformed lattices end with a non-zero exit status and an error message.",
 ["inputs", "configurations"],
 "every lattice, simulation type and combination of options",
 "No test runs the command-line tool.",
 ["tools/cli.cpp", "src/moment.cpp", "src/linear.cpp", "src/h5writer.cpp"],
 [("option parsing and observers", "tools/cli.cpp"), ("state show", "src/moment.cpp MomentState::show, src/linear.cpp show")],
 ["stdout/stderr/exit status/output files of the simulator"])

prop("C21", "Field-curve elements integrate exactly the given field samples",
 "A solenoid, quadrupole or electrostatic quadrupole defined by sampled field curves acts as the ordered sequence of equal uniform slices whose strength is the scaled sum of all curves at that sample, covering the element's length, for any number of curves, scaling factors, sub-range selection and source (inline values or a data file). "
 "A constant curve equals the uniform element, and curves of unequal length or invalid ranges are rejected.",
 ["inputs", "configurations"],
 "every number of curves, sample values, scalings, ranges, lengths and beams",
 "One test compares one sampled curve to a stored number.",
 ["src/moment.cpp", "src/moment_sup.cpp"],
 [("GetCurveData", "src/moment.cpp"), ("slice products", "src/moment.cpp recompute_matrix of solenoid, quadrupole, equad")],
 ["state.transmat"])

prop("C22", "A machine represents its configuration, however it was supplied",
 "A machine built from a lattice text, from the equivalent dictionary, from parsed configuration objects or from printed-and-reparsed text has the same elements in the same order and gives the same results. "
 "Its length, per-element configuration (own properties plus inherited globals) and lookups of elements by name and by type agree with the supplied lattice for every name, type, repetition and order, and unsupported element types or simulation types are rejected.",
 ["configurations", "inputs"],
 "every lattice configuration, repeated names, all query arguments",
 "Tests query one or two names in fixed lattices.",
 ["src/base.cpp", "python/flame/modmachine.cpp", "python/flame/modconfig.cpp", "src/config.cpp"],
 [("Machine constructor and lookup maps", "src/base.cpp Machine::Machine"), ("dict/list conversion", "python/flame/modconfig.cpp Dict2Config/List2Config/conf2dict"), ("find()", "python/flame/modmachine.cpp PyMachine_find")],
 ["len(M), M.conf(i), M.find(name=|type=), propagate"])

prop("C23", "Machines, states and threads are independent of each other",
 "What one machine or state does never depends on other machines, states or configurations in the process: with any number of machines over equal, similar or different lattices, with shared or separate data files, and any interleaving of building, propagating, observing, reconfiguring, printing and destroying them, every result, reported configuration and error is the one the same operations give when they are the only ones in a new process; states stay valid and unchanged after their machine is gone. "
 "As documented, any thread may create and use machines of its own at any time: threads that each use only their own machines and states get the results they get alone, without data races, deadlocks or crashes.",
 ["histories", "schedules"],
 "every interleaving of operations on several machines in one thread, and every schedule of threads with machines of their own",
 "The tests use one machine at a time in one thread; process-wide caches, registries and shared configuration objects matter only with several machines, and races only under particular schedules.",
 ["src/base.cpp", "src/moment_sup.cpp", "src/rf_cavity.cpp", "src/util.cpp", "src/config.cpp", "src/glps_parser.cpp", "python/flame/modmachine.cpp", "python/flame/modstate.cpp"],
 [("registry of simulation and element types, its mutex", "src/base.cpp Machine::Machine, info_mutex, p_state_infos"), ("process-wide maps of parsed data files", "src/rf_cavity.cpp CavConfMap, src/moment_sup.cpp CurveMap, src/util.cpp numeric_table_cache"),
  ("shared and copied configuration values", "src/config.cpp Config"), ("reentrant parser context", "src/glps_parser.cpp, src/glps.l, src/glps.y"), ("Python objects owning machines and states", "python/flame/modmachine.cpp, python/flame/modstate.cpp")],
 ["results of all operations of each machine, thread sanitizer reports"])

prop("C24", "Diagnostics are delivered and never influence results",
 "Log messages at or above the level set with setLogLevel, and only those, reach the python logger getLoggerName() in the order they were issued, each once, with its level and complete text: the construction of a machine is announced (INFO when it begins, DEBUG when it is complete), and a Generic cavity warns exactly when the incident reference energy or the normalised field scale is outside of the limits given in its data file, naming value and limits. "
 "Whatever the log level, the handlers and filters installed (even ones that raise or that use FLAME themselves) and the verbosity of the command-line tool, every result, configuration, error and output file is the same as with logging silenced, and the process carries on.",
 ["configurations", "histories"],
 "every lattice, history of operations, sequence of log levels and python logging set-up",
 "One test looks for one message at one level; diagnostics interleaved with the computation can change formatting, state or control flow only for particular levels and elements.",
 ["python/flame/modmain.cpp", "src/base.cpp", "src/flame/base.h", "src/rf_cavity.cpp", "tools/cli.cpp"],
 [("log records and level test", "src/flame/base.h FLAME_LOG, Machine::LogRecord, Machine::detail"), ("dispatch to the logger", "src/base.cpp Machine::LogRecord::~LogRecord, set_logger"), ("python logger", "python/flame/modmain.cpp PyLogger::log, py_set_log"),
  ("limit warnings", "src/rf_cavity.cpp ElementRFCavity::PropagateLongRFCav"), ("verbosity", "tools/cli.cpp main")],
 ["records of the logger flame.machine, results at each level, output files"])

prop("C25", "Repeated use gives back memory, references and files",
 "Whatever is done with parsers, configurations, machines, states, observers, loggers and HDF5 writers or loaders, successfully or ending in an error at any point, can be repeated without limit: once the objects are gone, and also while the same machine and states stay in use, the memory in use, the Python objects alive, the reference counts of the objects passed in and the open files do not grow with the number of repetitions.",
 ["histories", "inputs"],
 "every sequence of operations of the Python module and of the HDF5 reader and writer, including failing ones, repeated",
 "Tests run each operation once or twice and look at results; a lost reference, allocation or descriptor on one error path shows only in the count of many repetitions.",
 ["python/flame/modmachine.cpp", "python/flame/modstate.cpp", "python/flame/modconfig.cpp", "python/flame/modmain.cpp", "python/flame/pyflame.h", "src/base.cpp", "src/config.cpp", "src/glps_parser.cpp", "src/h5writer.cpp", "src/h5loader.cpp", "src/util.cpp"],
 [("reference holders", "python/flame/pyflame.h PyRef, PyCString, PyGetBuf"), ("ownership of states and machines", "python/flame/modstate.cpp PyState_free, wrapstate; python/flame/modmachine.cpp PyMachine_free, PyStoreObserver"), ("elements of a machine, also one that fails to build or to reconfigure", "src/base.cpp Machine::Machine, ~Machine, src/flame/base.h rebuild"),
  ("values of the parser", "src/glps_parser.cpp, src/glps.y destructors"), ("open files and groups", "src/h5writer.cpp, src/h5loader.cpp")],
 ["heap in use, python memory blocks, /proc/self/fd, sys.getrefcount after n and 2n repetitions"])

prop("C26", "The generated control-system database names exactly the lattice's elements",
 "For every lattice file, template directory and record-name mangler, the database generator (flame.ioc.Generator and python -m flame.ioc gendb) lists each element whose type has a template exactly once in the common block and once in the block of its type, in beam-line order; the record names are unique and start with what the mangler gives, and each ELEM link, name or name[N], leads to that very element (the N-th of that name, as Machine.find counts). "
 "Elements of other types are left out with one warning per type, and a lattice with none to list is refused; input.lat and all templates referred to are identical copies, and st.cmd holds the lattice's absolute path and the number of markers. Every record of the shipped templates reads a quantity that states have, or reads and sets a parameter that the element has and that affects the beam. Running the package itself reports its versions.",
 ["inputs", "configurations"],
 "every lattice of repeated, nested and similarly named elements with and without templates, every mangler, template directory and output directory, new or used",
 "No test covers the generator; a wrong instance number, a name clash or an element left out shows only in lattices where names repeat in a particular order.",
 ["python/flame/ioc.py", "python/flame/data", "python/flame/__main__.py", "vaccel/flameelem.cpp"],
 [("grouping by type, instance numbers, record names and files", "python/flame/ioc.py Generator.emit_subst"), ("records", "python/flame/data/*.template"), ("link syntax", "vaccel/flameelem.cpp linkpat"), ("versions", "python/flame/__main__.py")],
 ["independent reader of the substitutions file, the generated element sequence, flame.Machine.find and reconfigure"])

prop("C27", "Printed machines and states show what they hold",
 "After any history of propagation, attribute changes, copying and reconfiguration, the printed form of a state holds its current values to the digits shown: at level 0 (and as a string) the mean centroid; from level 1 the energy of the first charge state, mean, rms and covariance of the beam; from level 2 also the reference particle and every charge state's particle and centroid; from level 3 their covariances; a linear state its whole array. "
 "A printed machine gives its simulation type, the number of elements and every element in order with index, name and type, sources with the beam they start and linear elements with the map they apply. Printing changes nothing.",
 ["histories", "inputs"],
 "every machine and state, at every level, after every sequence of operations",
 "Tests print one or two states and look for a few words; which charge state, level or history goes wrong in the text is not sampled.",
 ["src/moment.cpp", "src/linear.cpp", "src/flame/linear.h", "src/base.cpp", "python/flame/modstate.cpp", "python/flame/modmachine.cpp"],
 [("states", "src/moment.cpp MomentState::show, operator<<(Particle); src/linear.cpp show"), ("machines and elements", "src/base.cpp operator<<(Machine), ElementVoid::show; show of the elements"), ("Python", "python/flame/modstate.cpp PyState_show, PyState_str; modmachine.cpp PyMachine_str")],
 ["independent reader of the text, state attributes, maps observed by propagation"])

prop("C28", "User-defined simulations work like the built-in ones",
 "A program using the C++ library may register simulation and element types of its own at any time; registering a name twice, or an element for an unknown simulation, is refused with std::logic_error and changes nothing. "
 "Machines of such types, built from a configuration or lattice text, hold one element per entry in order (index, name, type, length and configuration as given); a refused build names element and parameter and leaves no object behind. "
 "propagate() visits exactly the elements next_elem leads to, also when an element changes next_elem to branch or loop, in either direction and never more than max; observers and the trace see every visit, exceptions pass through. "
 "reconfigure() replaces one element or, refused, none; find(), equal_range(), equal_range_type(), all_range(), iteration and at() agree with the list of elements. "
 "Every parameter a state exposes through getArray() (up to three dimensions, any strides, real or integer) is seen and set faithfully from Python and written faithfully to HDF5.",
 ["histories", "inputs"],
 "every set of registrations, every machine and state class keeping the documented contract, every sequence of operations",
 "Tests define one custom simulation with scalar state and run it straight through; branching, failing constructors, strided arrays, lookups after renaming and registration errors are not exercised.",
 ["src/flame/base.h", "src/base.cpp", "src/h5writer.cpp", "python/flame/modstate.cpp", "examples/customsim.cpp"],
 [("registration", "src/base.cpp Machine::p_registerState, p_registerElement, registeryCleanup"), ("machines", "src/base.cpp Machine::Machine, propagate, reconfigure; src/flame/base.h find, equal_range, equal_range_type, all_range"), ("state parameters", "src/flame/base.h StateBase::ArrayInfo, getArray; python/flame/modstate.cpp; src/h5writer.cpp append")],
 ["reference model of registry, machine and states"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), [p["id"] for p in P if len(p["title"]) > 80])
