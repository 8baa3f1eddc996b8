#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A checkpoint file restarts the simulation exactly",
 "Saving a running simulation to a file and loading that file into a freshly created and initialised simulation of the same model gives a simulation which, driven with the same remaining inputs, continues exactly like the one that was never interrupted: same times, node positions and velocities, tensions and coupling forces at every later coupling step. It holds wherever in the run the checkpoint is taken, for every object kind, integration scheme and environment, after the process that saved it died at any later moment.",
 ["crash_points", "histories", "configurations"],
 "every model, every host history before and after the checkpoint, every crash instant after a successful save",
 "The suite never saves a state in the middle of a run and restarts it from disk for more than one model; the crash instant and history are unbounded.",
 ["source/IO.cpp", "source/MoorDyn2.cpp", "source/Time.hpp", "source/Time.cpp", "source/Line.cpp", "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp"],
 [("state packing and file framing", "source/IO.cpp"), ("per-object state serialisation", "source/Line.cpp, Point.cpp, Rod.cpp, Body.cpp"), ("integrator serialisation", "source/Time.hpp"), ("save/load entry points", "source/MoorDyn2.cpp")],
 ["MoorDyn_Save", "MoorDyn_Load", "MoorDyn_Step", "object getters"])

prop("C02", "In-memory rollback is exact",
 "Restoring a state captured in memory earlier in the same simulation and repeating the same coupling steps reproduces the results of the first pass exactly, whatever happened in between (other motions, other step sizes, several nested rollbacks, line pay-out commands); taking a capture twice without stepping gives identical bytes, and the capture itself changes nothing.",
 ["histories", "configurations"],
 "every model and every sequence of captures, steps and rollbacks a host can issue",
 "Implicit coupling hosts roll back arbitrarily; the suite has no nested or repeated rollback histories.",
 ["source/MoorDyn2.cpp", "source/IO.cpp", "source/Time.hpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp"],
 [("serialise / deserialise", "source/MoorDyn2.cpp, source/IO.cpp"), ("integrator state and clock", "source/Time.hpp")],
 ["MoorDyn_Serialize", "MoorDyn_Deserialize", "MoorDyn_Step"])

prop("C03", "A successful save is complete and durable; a failed one says so",
 "When saving a state to a file reports success, the file holds the whole state and loading it restores exactly that state; if any write, flush or open needed for it failed or came up short on storage, the call reports an error instead. The running simulation is not affected by the save, successful or not.",
 ["fault_sequences", "crash_points"],
 "every sequence of storage faults (open failure, short write, I/O error, full disk) at every system call of the save",
 "Tests run on a disk that never fails.",
 ["source/IO.cpp", "source/MoorDyn2.cpp"],
 [("file writing", "source/IO.cpp IO::Save, IO::SaveFile"), ("C entry point", "source/MoorDyn2.cpp MoorDyn_Save")],
 ["MoorDyn_Save", "MoorDyn_Load", "bytes on the simulated disk"])

prop("C04", "Damaged or foreign checkpoints are refused without side effects",
 "Loading a checkpoint file that is missing, unreadable, truncated at any byte, not a checkpoint, written by an incompatible version, or taken from a model whose state has a different size returns an error; the simulation that attempted the load then continues exactly as if the load had never been attempted.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation point, read fault and foreign file, at every moment of a run",
 "No test loads a damaged file; the truncation points and read faults are unbounded.",
 ["source/IO.cpp", "source/MoorDyn2.cpp"],
 [("load-time validation", "source/IO.cpp IO::LoadFile, IO::Load"), ("C entry point", "source/MoorDyn2.cpp MoorDyn_Load")],
 ["MoorDyn_Load", "MoorDyn_Step", "object getters"])

prop("C05", "Start-up survives bad files, failing I/O and failing memory",
 "Creating and initialising a simulation from an input file that is truncated, garbled or unreadable, or whose auxiliary files are, or while file operations or memory allocations fail, either succeeds or reports failure to the caller (no instance, or an error code): it never crashes, hangs, reads outside its memory or lets an exception escape through the C interface. When it succeeds although reads or allocations failed, the simulation is the complete one the files describe, never one read in part. A failed attempt does not prevent a later healthy one from giving the normal results.",
 ["fault_sequences", "inputs", "crash_points"],
 "every truncation or corruption of the input files and every position of a failing open, read or allocation",
 "The tests feed well-formed files on a healthy machine.",
 ["source/MoorDyn2.cpp", "source/Misc.cpp", "source/Misc.hpp", "source/Waves.cpp", "source/Waves/WaveGrid.cpp", "source/Waves/WaveSpectrum.cpp", "source/Seafloor.cpp"],
 [("input parser", "source/MoorDyn2.cpp ReadInFile"), ("exception to error code translation", "source/Misc.hpp MOORDYN_CATCHER"), ("auxiliary file readers", "source/Misc.cpp, source/Waves/*, source/Seafloor.cpp")],
 ["MoorDyn_Create", "MoorDyn_Init", "process exit status"])

prop("C06", "Results depend on the inputs only",
 "Two simulations of the same model driven through the same calls give bit-identical times, positions, velocities, tensions, forces, saved states and output files, whatever the memory they were given contained before, whatever simulations the process ran (and closed) earlier, and however often it is repeated.",
 ["configurations", "histories"],
 "every model and call history, every initial content of heap and stack",
 "A test run sees one memory layout; an uninitialised field reads as zero there and as anything in a host.",
 ["source/MoorDyn2.cpp", "source/Time.hpp", "source/Time.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Waves.cpp"],
 [("initialisation of every state field", "constructors and setup() of all objects"), ("absence of process-wide state", "source/MoorDyn2.cpp, source/Log.cpp")],
 ["MoorDyn_Step", "MoorDyn_Serialize", "output files"])

prop("C07", "Simulations in one process do not influence each other",
 "Several simulations alive in one process, each driven by its own caller (one thread per simulation, or one thread switching between them) under any interleaving, give exactly the results and output files each would give alone, including when one of them fails, is closed or is created while others are in the middle of a step.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of the callers, including preemption inside library calls",
 "The suite runs one simulation at a time; interleavings are uncountable.",
 ["source/MoorDyn2.cpp", "source/Log.cpp", "source/Time.cpp", "source/Waves.cpp", "source/Misc.cpp"],
 [("all state is held per instance", "source/MoorDyn2.hpp, source/Log.hpp")],
 ["MoorDyn_Step", "object getters", "output files"])

prop("C08", "Observing a simulation never changes it",
 "Asking for outputs, output files, log files and verbosity, reading any getter, capturing or saving states, issuing zero-length coupling calls, or failing to write an output or log file (disk full, I/O error, cannot open at run time) leaves every later time, position, velocity, tension and coupling force bit-identical to a run without those observations.",
 ["histories", "fault_sequences", "configurations"],
 "every placement of observations and of storage faults on outputs within a run",
 "Tests never run the same case with and without observation, and never with a failing disk.",
 ["source/MoorDyn2.cpp", "source/Log.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp"],
 [("outputs are computed from state, never stored back", "source/MoorDyn2.cpp AllOutput, GetOutput; source/*.cpp GetOutput"), ("getters are read-only", "source/Line.cpp, Point.cpp, Rod.cpp, Body.cpp")],
 ["MoorDyn_Step", "getters", "output files"])

prop("C09", "Output files record each due instant once, in order, and truthfully",
 "Every output file gets one header and then rows whose times increase: one at start and one per coupling step when no output interval is requested, otherwise one at each coupling step that reaches or passes a multiple of the interval, and the values in a row equal, to the printed precision, what the query functions report at that instant. If the process dies, what is on disk is a prefix of that record.",
 ["histories", "crash_points", "configurations"],
 "every sequence of coupling step sizes, output interval, output selection and crash instant",
 "Tests do not parse output files, use constant steps and never crash.",
 ["source/MoorDyn2.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp"],
 [("output scheduling", "source/MoorDyn2.cpp AllOutput"), ("channel evaluation", "source/MoorDyn2.cpp GetOutput, source/*.cpp GetOutput")],
 ["<root>.out, <root>_LineN.out, _RodN.out, _BodyN.out", "getters"])

prop("C10", "The simulation clock is the sum of the coupling steps",
 "After any sequence of coupling steps the time reported back to the host equals the start time plus the sum of the requested positive step sizes (to rounding), with every integration scheme, internal step size and step-limiting rule; a zero or negative step size leaves time, state and outputs as they were.",
 ["histories", "configurations"],
 "every sequence of step sizes relative to the internal step, every scheme",
 "Tests use one or two constant step sizes per scheme.",
 ["source/MoorDyn2.cpp", "source/Time.cpp", "source/Time.hpp"],
 [("sub-stepping", "source/MoorDyn2.cpp Step"), ("clock advance in each scheme", "source/Time.cpp")],
 ["MoorDyn_Step t argument", "Time column of the outputs"])

prop("C11", "Coupled motion is imposed exactly and attachments never come apart",
 "The objects handed out are the ones the input describes, by number, kind and discretisation. Every object starts where the input (or, if coupled, the host) places it. After each coupling step every coupled body, rod and point has the position and velocity the host prescribed for the end of that step (the given position advanced with the given velocity), every fixed object is still where it was placed, everything attached to a body or rod sits where its rigid motion puts it, and each line end coincides in position and velocity with what it is attached to. The coupling loads are returned in the same order and number as the degrees of freedom.",
 ["histories", "configurations"],
 "every model topology and every motion and step-size history",
 "Tests sample a few topologies and compare selected outputs.",
 ["source/MoorDyn2.cpp", "source/Body.cpp", "source/Rod.cpp", "source/Point.cpp", "source/Line.cpp", "source/Time.cpp"],
 [("prescribed kinematics", "source/MoorDyn2.cpp Step; Body/Rod/Point updateFairlead"), ("propagation to dependents", "Body::setDependentStates, Rod::setDependentStates, Point::setState")],
 ["getters", "MoorDyn_Step forces"])

prop("C12", "Paid-out line length follows the commands",
 "The unstretched length of a line changes only by commands: after commanding a pay-out rate it equals its previous length plus the integral of the commanded rate over the simulated time since, for any split of that time into coupling and internal steps, and setting a length or a zero rate takes effect as given. Other lines are unaffected and the mass and weight carried by the line scale with its length.",
 ["histories", "configurations"],
 "every sequence of length and rate commands, step sizes, schemes and rollbacks",
 "One test pays out a single line with constant steps.",
 ["source/Line.cpp", "source/Line.hpp", "source/Time.hpp", "source/Time.cpp", "source/MoorDyn2.cpp"],
 [("length update", "source/Line.hpp updateUnstretchedLength"), ("per-step rebasing", "source/Time.hpp Next/Update")],
 ["MoorDyn_GetLineUnstretchedLength", "MoorDyn_GetLineNodeM", "MoorDyn_GetLineNodeWeight"])

prop("C13", "How the host slices time does not matter",
 "Driving the same prescribed motion over the same time span gives the same trajectory whichever way the host slices it into coupling steps that are whole multiples of the internal step (up to rounding growth), for every integration scheme with a fixed internal step.",
 ["histories", "schedules", "configurations"],
 "every partition of the time span into coupling calls",
 "Tests use one slicing per case.",
 ["source/MoorDyn2.cpp", "source/Time.cpp", "source/Time.hpp"],
 [("sub-stepping and linear extrapolation of host motion", "source/MoorDyn2.cpp Step; source/Time.hpp"), ("multi-step history", "source/Time.cpp ABScheme")],
 ["getters after each coinciding instant"])

prop("C14", "Externally supplied wave kinematics are used as supplied",
 "With externally supplied wave kinematics, the coordinates handed to the host are the current positions of the structure nodes in a stable order and number, and the velocities and accelerations the host supplies are the ones each node sees (any current is added) until the next supply; supplying the same values again changes nothing, a value supplied for one node never leaks into another, a uniform stream acts as the same uniform current, and kinematics of still water have the same effect as no waves.",
 ["histories", "schedules", "configurations"],
 "every timing of supplies relative to coupling steps and every field of values",
 "One test supplies a constant pattern at matching times.",
 ["source/Waves.cpp", "source/Waves.hpp", "source/MoorDyn2.cpp", "source/MoorDyn.cpp"],
 [("external kinematics buffer", "source/Waves.cpp setWaveKinematics / updateWaves"), ("C interface", "source/MoorDyn2.cpp MoorDyn_ExternalWaveKin*")],
 ["MoorDyn_ExternalWaveKinGetCoordinates", "MoorDyn_ExternalWaveKinSet", "node forces"])

prop("C15", "Invalid calls are reported and leave the simulation intact",
 "Calling any function of the C interface with a null handle, a null input argument the call needs (coupled positions, velocities or forces, time, name, file path, data), an out-of-range object or node index, an unknown option value or in an unsupported mode returns the documented error value, does not crash or let an exception escape, and a simulation that received such calls at any points of its life continues exactly as one that did not.",
 ["histories", "inputs"],
 "every placement and combination of invalid calls in a run",
 "Tests check a handful of null-handle calls outside of any running simulation.",
 ["source/MoorDyn2.cpp", "source/Line.cpp", "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Waves.cpp", "source/Seafloor.cpp"],
 [("argument guards", "CHECK_SYSTEM, CHECK_LINE, CHECK_POINT, CHECK_ROD, CHECK_BODY macros")],
 ["return codes", "subsequent results"])

prop("C16", "The legacy interface is the same simulator",
 "A host that uses the legacy single-simulation interface gets the same forces, positions, tensions and output files as one making the corresponding calls of the current interface, over any sequence of start, step, query, close and start again.",
 ["histories", "configurations"],
 "every model and call history, including reopening after close",
 "One legacy test case is compared with nothing.",
 ["source/MoorDyn.cpp", "source/MoorDyn.h", "source/MoorDyn2.cpp"],
 [("singleton forwarding", "source/MoorDyn.cpp")],
 ["MoorDynStep, GetFairTen, GetNodePos, GetPointPos, GetPointForce, GetFASTtens"])

prop("C17", "Without excitation the system settles to static equilibrium",
 "A damped mooring system whose host stops moving it, in still water, comes to rest within a bounded simulated time whatever motion, changes of scheme and rollbacks it went through before; at rest the loads balance: every free object carries no net force or moment, every pinned one no moment about its pin, and the loads handed to the host and reported for anchored objects equal the tensions of the attached lines plus the submerged weights they carry.",
 ["histories", "configurations"],
 "every excitation history and configuration of damped catenary systems",
 "Tests check a few end states and no load balance over the whole system.",
 ["source/Line.cpp", "source/Point.cpp", "source/Body.cpp", "source/Rod.cpp", "source/MoorDyn2.cpp", "source/Time.cpp"],
 [("line internal and external forces", "source/Line.cpp getStateDeriv"), ("force summation to ends", "Point::doRHS, Rod::doRHS, Body::doRHS")],
 ["getters for velocity, force, weight"])

prop("C18", "Lines and free points obey the published lumped-mass equations",
 "At every step the acceleration of each inner line node and free point is the one that the documented lumped-mass model (axial stiffness constant or tabulated, internal damping, weight and buoyancy of the submerged part, Morison added mass and drag against water motion, bending, internal pressure, seabed contact and friction) gives for the current positions, velocities, line lengths and water motion, and the integrator advances positions and velocities with it as the selected scheme prescribes.",
 ["histories", "configurations"],
 "every reachable state, motion history and command history of systems without the optional vortex-induced vibration or viscoelastic models",
 "Tests compare few end states; a sign or term that matters only in some states passes.",
 ["source/Line.cpp", "source/Point.cpp", "source/Time.cpp", "source/State.cpp", "source/Seafloor.cpp"],
 [("line right-hand side", "source/Line.cpp getStateDeriv"), ("free points", "source/Point.cpp getStateDeriv"), ("integration schemes", "source/Time.cpp")],
 ["node and point positions and velocities between steps"])

prop("C19", "Changing integration settings mid-run keeps state and clock",
 "Changing the integration scheme, internal step size or step-limiting number while a simulation runs keeps time, positions, velocities, line lengths and output files as they are, and the simulation continues from there with the new setting.",
 ["histories", "configurations"],
 "every pair of schemes and every moment of change",
 "Tests set these only before starting.",
 ["source/MoorDyn2.cpp", "source/Time.cpp", "source/Time.hpp", "source/Waves.cpp"],
 [("scheme replacement", "source/MoorDyn2.cpp MoorDyn_SetTimeScheme"), ("step size setting", "source/MoorDyn2.cpp MoorDyn_SetDt, MoorDyn_SetCFL")],
 ["MoorDyn_SetTimeScheme", "MoorDyn_SetDt", "MoorDyn_SetCFL", "getters"])

prop("C20", "A closed simulation gives everything back",
 "Closing a simulation, at any point of its life and after any errors or faults met during it, releases all the memory and all the files it took, so that any number of open-run-close cycles in one process is sustainable and its output files are complete on disk.",
 ["histories", "fault_sequences", "configurations"],
 "every life history including failing ones",
 "The tests exit the process instead of accounting for what is left.",
 ["source/MoorDyn2.cpp", "source/Log.cpp", "source/Waves.cpp", "source/Time.cpp", "source/MoorDyn.cpp"],
 [("ownership and destructors", "source/MoorDyn2.cpp ~MoorDyn and error paths of MoorDyn_Create")],
 ["live allocations and open descriptors of the simulated process"])

prop("C21", "The water and seabed that act are the ones the files describe",
 "At every instant of a run, whatever steps, rollbacks, changes of scheme, restarts or other simulations preceded it, the water velocity, acceleration, surface elevation and dynamic pressure at any place are those that linear wave theory and the interpolation of the given current tables give for the spectrum, elevation series, grids and currents in the input files at the present simulated time, and the seabed is the one of the bathymetry file (held constant beyond its edges). Waves given by a discrete spectrum or an elevation series repeat once their table has been passed through.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "every wave, current and bathymetry input of the implemented modes, every place and every instant covered by the tables or their repetition",
 "Tests compare a few components at a few points for one input per mode.",
 ["source/Waves.cpp", "source/Waves/WaveGrid.cpp", "source/Waves/SpectrumKin.cpp", "source/Waves/WaveSpectrum.cpp", "source/Seafloor.cpp", "source/Util/Interp.hpp", "source/Misc.cpp"],
 [("grid tables and their interpolation", "source/Waves/WaveGrid.cpp, source/Util/Interp.hpp"), ("direct summation", "source/Waves/SpectrumKin.cpp"), ("readers", "source/Waves/WaveSpectrum.cpp, source/Seafloor.cpp"), ("present time of the waves", "source/Waves.cpp getWaveKin")],
 ["MoorDyn_GetWavesKin", "MoorDyn_GetDepthAt", "MoorDyn_GetAverageDepth", "MoorDyn_GetMinDepth"])

prop("C22", "The loads handed to the host and to queries are the ones that act",
 "After every step the loads given to the host for coupled points, rods and bodies, and every load, mass matrix, tension and curvature that can be queried of lines, points, rods and bodies, coupled, free or anchored, are those that the documented model gives for the state and the imposed motion of that instant: nothing that acts is left out, counted twice, given about another point or left over from before.",
 ["histories", "configurations"],
 "every reachable state, motion and command history and configuration of lines, points, rods and bodies",
 "Tests check few loads of single objects in few states.",
 ["source/Line.cpp", "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp", "source/MoorDyn2.cpp", "source/Time.cpp", "source/Misc.cpp", "source/Misc.hpp"],
 [("coupling loads", "MoorDyn::GetForces, Body::getFnet, Rod::getFnet, Point::getFnet"), ("force summation to ends", "Point::doRHS, Rod::doRHS, Body::doRHS, Line::getEndStuff"), ("order of evaluation", "source/Time.cpp CalcStateDeriv")],
 ["MoorDyn_Step forces, MoorDyn_GetLineNode*, GetLineFairTen, GetLineMaxTen, GetPointForce, GetPointM, GetRodForce, GetRodM, GetBodyForce, GetBodyM"])

prop("C23", "Free rods and bodies accelerate as rigid bodies",
 "At every step free rods and bodies accelerate, and pinned ones turn, as a rigid body with the described mass, inertia and added mass does under the loads of the attached lines, points and rods, weight, buoyancy, drag, water acceleration and seabed, whatever the host does with the pins and the lines.",
 ["histories", "configurations"],
 "every reachable state of slowly turning rods and bodies, every motion and command history",
 "Tests compare few end states of single rods and bodies.",
 ["source/Rod.cpp", "source/Body.cpp", "source/Misc.cpp", "source/Time.cpp", "source/State.cpp"],
 [("rigid-body right-hand sides", "Rod::getStateDeriv, Body::getStateDeriv"), ("mass matrices", "source/Misc.cpp translateMass6, rotateMass6")],
 ["rod node and body velocities between steps"])

prop("C24", "Equivalent input files describe the same simulation",
 "Input files that say the same in another way lead to the same simulation to the last bit, in every result, saved state and output file: the order of the options, of the line types and of the rod types, the names of the types, alternative words and cases for sections, attachments, line ends and options, explicit defaults, short and long forms of the body columns, other notations of the same numbers, spaces, comments and the path by which the host names the file do not matter.",
 ["configurations", "histories"],
 "every valid description of a system and every other way to write it that the reader accepts as the same, every history",
 "Tests read one way to write each model.",
 ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Misc.cpp", "source/Misc.hpp"],
 [("reader of the input file", "MoorDyn::ReadInFile, readOptionsLine, readLineProps, readRodProps, readBody, readRod"), ("words and numbers", "source/Misc.cpp str::split, str::isOneOf, decomposeString")],
 ["MoorDyn_Create, Init and Step with rewritten input files; every query, saved state and output file"])

prop("C25", "Numbering and placement of the system do not matter",
 "The behaviour of a system depends neither on the numbers its bodies, rods, points and lines carry, nor on which end of a line is called A, nor on where in the horizontal plane and at what heading it is placed: the same system renumbered, described from the other end, shifted, turned about the vertical or mirrored, with its environment, moves and loads its host in the same way, renumbered, shifted, turned or mirrored.",
 ["histories", "configurations"],
 "every system, motion and command history, every renumbering, horizontal shift, rotation about the vertical and mirroring that the environment allows, up to rounding",
 "Tests have one numbering and placement per model, mostly along the axes.",
 ["source/Line.cpp", "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp", "source/MoorDyn2.cpp", "source/Time.cpp", "source/Misc.cpp", "source/Misc.hpp", "source/Waves.cpp", "source/Seafloor.cpp"],
 [("order of the coupled degrees of freedom", "MoorDyn::Init, Step, GetForces"), ("attachments by number", "MoorDyn::ReadInFile"), ("rotations", "source/Misc.cpp, source/Misc.hpp"), ("line ends", "Line::getEndStuff, setEndKinematics, setEndOrientation")],
 ["MoorDyn_Step forces and every query of lines, points, rods and bodies"])

prop("C26", "A host in Python drives the same simulator",
 "Whatever calls a Python host makes through the module moordyn (creation, start, steps, line commands, external water motion, queries, capture and restore, save and load, close), in whatever order and with whatever kinds of sequences and numbers, it gets exactly what a C host gets from the same calls. A call with wrong arguments, objects or sizes, and a save or load that storage refuses, raises an exception or returns an error code and leaves the simulation as it was; it never crashes the interpreter and never passes for a success.",
 ["histories", "faults", "inputs"],
 "every history of calls on every system, every refused call at every point of it, every write of a save that finds the disk full",
 "Two Python tests make one step and one rotation; most functions of the module are never called.",
 ["wrappers/python/cmoordyn.cpp", "wrappers/python/moordyn/moordyn.py", "source/MoorDyn2.cpp"],
 [("arguments to arrays", "py_iterable_to_double, init, step, ext_wave_set, line_set_pint"), ("capture and restore", "serialize, deserialize, save, load"), ("queries", "body_get_*, rod_get_*, point_get_*, line_get_*, waves_getkin, seafloor_*"), ("the module", "wrappers/python/moordyn/moordyn.py")],
 ["return values and exceptions of the functions of the module moordyn", "the C query functions on the same system", "output files"])

prop("C27", "A host in Fortran drives the same simulator",
 "Whatever calls a Fortran host makes through the module moordyn (creation, start, steps, line commands, log, external water motion, queries, save and load, close), in whatever order and with file names padded by any number of blanks, it gets exactly the values, times, error codes and files a C host gets from the same calls, and nothing outside the arrays it passed is written.",
 ["histories", "faults", "inputs"],
 "every history of calls on every system with contiguous arrays, refused calls and full disks included",
 "One Fortran test makes one step of one model and calls a dozen of the functions.",
 ["wrappers/fortran/MoorDyn.f90", "source/MoorDyn2.cpp"],
 [("arguments by value or by address", "the interface block of the module moordyn"), ("strings", "MD_Create, MD_SetLogFile, MD_Log, MD_Save, MD_Load, MD_*VTK"), ("arrays", "MD_Init, MD_Step, MD_ExternalWaveKinSet, MD_GetFASTtens, MD_Get*")],
 ["results and arguments of the MD_* functions", "the C query functions on the same system", "output files and log"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
