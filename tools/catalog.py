#!/usr/bin/env python3
"""The property catalogue: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), tech, note, na))


prop("S01", "A failed linear solve is never accepted as a pressure solution",
     "A pressure solve or simulation run during which the linear solver reports failure, throws, runs out of memory or delivers non-finite values ends with an error, never with a normal return. A pressure solve that returns normally leaves finite pressures, fluxes and well results that satisfy the volume balance of every cell and the active control of every well to solver accuracy.",
     ["fault_sequences", "inputs", "histories"],
     "every grid, rock, fluid, well and boundary configuration; every sequence of solves on one solver object; every position and kind of linear-solver failure, including failing allocations inside UMFPACK and the matrix copy",
     "No test runs a pressure solver at all, and the linear solver never fails in one; the claim is about every failure position in every Newton iteration and every drive configuration.",
     ["opm/core/pressure/IncompTpfa.cpp", "opm/core/pressure/CompressibleTpfa.cpp", "opm/core/pressure/tpfa/ifs_tpfa.c", "opm/core/pressure/tpfa/cfs_tpfa_residual.c", "opm/core/linalg/LinearSolverUmfpack.cpp", "opm/core/linalg/call_umfpack.c"],
     [("assembly and solution of the incompressible two-point flux system", "opm/core/pressure/tpfa/ifs_tpfa.c"), ("Newton iteration of the compressible system", "opm/core/pressure/CompressibleTpfa.cpp"), ("linear solver report", "opm/core/linalg/LinearSolverInterface.hpp"), ("UMFPACK status handling", "opm/core/linalg/call_umfpack.c")],
     T + ": failing linear solver and allocator behind the linear-solver interface, cell-balance and well-target oracles",
     "Seeded search over worlds x solve histories x failure positions with the real assembly, Newton loops and UMFPACK. Sampling; worlds up to 60 cells; a Newton iteration that gives up with an error is accepted.",
     observe=["return or exception of the solve", "pressure, face flux, bottom-hole pressure and completion rates after it"])

prop("S02", "Incompressible runs conserve the volume of each phase",
     "Over every step of an incompressible two-phase run with the reordering transport solver, the volume of each phase in place changes by exactly what was injected less what was produced, to solver tolerance, with or without wells, sources, open boundaries, rock compressibility, transport substeps and gravity segregation splitting. Saturations stay within [0,1], and the volume balance the run reports agrees with the states it passes through.",
     ["histories", "inputs", "configurations"],
     "every sequence of steps with changing rates, step lengths and well controls (without flow from a producer into the reservoir or from the reservoir into an injector), every grid, rock, fluid and drive in scope",
     "No test runs a simulator; conservation is a statement about every state in every history, not about a sample end state.",
     ["opm/core/simulator/SimulatorIncompTwophase.cpp", "opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "opm/core/pressure/IncompTpfa.cpp", "opm/core/utility/miscUtilities.cpp"],
     [("sequential splitting loop", "opm/core/simulator/SimulatorIncompTwophase.cpp"), ("implicit upwind transport in flow order", "opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp"), ("source terms from wells and boundaries", "opm/core/utility/miscUtilities.cpp")],
     T + ": simulated histories of the real simulator with injected failures, volume bookkeeping by an independent account",
     "Every step of every sampled history is balanced by an account computed outside the library from states and rates. Sampling; worlds up to 60 cells; smooth relative permeabilities.",
     observe=["saturations, fluxes and well rates at every step boundary", "printed volume balance report"])

prop("S03", "Compressible runs conserve water mass and keep pore space filled",
     "Over every step of a compressible two-phase run, the surface volume of water in place changes by exactly what was injected less what was produced, to solver tolerance, with or without rock compressibility and transport substeps, as long as no cell is asked to hold more than its pore volume; gravity segregation splitting only moves fluid within the columns it works on. After every step saturations lie within [0,1], sum to one, and agree with the surface volumes at the pressure of the cell.",
     ["histories", "inputs", "configurations"],
     "every sequence of steps with changing step lengths, rates and well controls (without flow against the purpose of a well), every compressible water-oil fluid and rock in scope",
     "No test runs the compressible simulator; conservation is a statement about every state in every history.",
     ["opm/core/simulator/SimulatorCompressibleTwophase.cpp", "opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp", "opm/core/pressure/CompressibleTpfa.cpp", "opm/core/utility/miscUtilitiesBlackoil.cpp"],
     [("sequential splitting loop", "opm/core/simulator/SimulatorCompressibleTwophase.cpp"), ("compressible transport in flow order", "opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp"), ("surface-volume source terms", "opm/core/utility/miscUtilitiesBlackoil.cpp")],
     T + ": simulated histories of the real simulator, surface-volume bookkeeping by an independent account",
     "As S02, for the compressible simulator and deck-defined fluids.",
     observe=["surface volumes, saturations, pressures, well rates at every step boundary"])

prop("S04", "Transport steps solve their equations whatever the numbering or flow order",
     "After a transport step every cell satisfies the implicit upwind saturation equation for the given fluxes, sources and step length, also where the flow circulates in loops, or the step fails with an error and leaves the saturations as they were. The result does not depend on how cells and faces are numbered.",
     ["schedules", "inputs"],
     "every flux field including circulating ones, every source distribution, saturation state and step length; every permutation of cell, face and neighbour order (the schedule in which cells are visited)",
     "No test runs a transport solver; the order in which cells are solved is chosen by the flow field and the numbering, so the claim ranges over all of them.",
     ["opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "opm/core/transport/reorder/ReorderSolverInterface.cpp", "opm/core/transport/reorder/reordersequence.cpp", "opm/core/transport/reorder/tarjan.c"],
     [("flow-order sequencing by strongly connected components", "opm/core/transport/reorder/reordersequence.cpp"), ("single-cell and multi-cell solves", "opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp")],
     T + ": the simulator draws flow fields and visiting orders (numberings); residual oracle and twin run under a permuted numbering",
     "Every cell's residual is recomputed from first principles by the harness; twin runs differ only in numbering. Sampling; up to 60 cells; smooth relative permeabilities.",
     observe=["saturations after a step"])

prop("S05", "Simulations in one process do not influence each other",
     "Any number of simulations, readers and writers in one process, with their calls interleaved in any order, each give exactly the states, messages of failure and output files they give alone. Results do not depend on the previous contents of the memory the library allocates.",
     ["schedules", "histories"],
     "every interleaving of several instances at linear-solver calls, step boundaries, stream and file operations; every prior content of fresh memory; failures of one instance in the middle of a call",
     "Tests run one instance at a time from a fresh process; hidden shared state shows only under particular interleavings.",
     ["opm/core/simulator/SimulatorIncompTwophase.cpp", "opm/core/io/vtk/writeVtkData.cpp", "opm/core/utility/parameters/ParameterGroup.cpp", "opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp"],
     [("instance state of solvers and simulators", "opm/core/simulator/SimulatorIncompTwophase.cpp"), ("function- and class-level statics", "opm/core/io/vtk/writeVtkData.cpp")],
     T + ": instances as cooperative fibers under a seeded scheduler, bitwise comparison with solo runs, fresh memory filled by the simulator",
     "Interleaving points are linear solver calls, stream writes and call boundaries (the library has no threads). Sampling.",
     observe=["states, files and exceptions of every instance"])

prop("S06", "A reused solver object behaves like a fresh one",
     "A call on a pressure, transport or time-of-flight solver gives exactly the result, or the failure, that a newly constructed solver gives for the same arguments and state, whatever calls the object served before, including calls that failed.",
     ["histories", "fault_sequences"],
     "every history of calls on one solver object, with changing states, steps, sources and well controls, and with linear-solver, memory and convergence failures at any point of it",
     "Tests construct, call once and discard; leftovers from earlier or failed calls cannot show.",
     ["opm/core/pressure/IncompTpfa.cpp", "opm/core/pressure/CompressibleTpfa.cpp", "opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp", "opm/core/tof/TofReorder.cpp", "opm/core/tof/TofDiscGalReorder.cpp"],
     [("solver-internal work data kept between calls", "opm/core/pressure/IncompTpfa.cpp"), ("per-call members of reorder solvers", "opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp")],
     T + ": call histories with injected failures, reference model = the same call on a fresh object, bitwise comparison",
     "Sampling over histories; bitwise oracle.",
     observe=["all outputs of each call"])

prop("S07", "A run split at any step boundary continues as if never interrupted",
     "Stopping a simulation after any step and continuing it with new simulator, solver and timer objects from the stored state gives exactly the states, well results and per-step files of the uninterrupted run, and the clock of the timer agrees with the schedule at every step.",
     ["crash_points", "histories"],
     "every cut of a run's step sequence into consecutive runs, incompressible and compressible, with output on; only the reservoir state, the well state, the files and the step number survive a cut",
     "No test restarts anything; the claim ranges over all cut positions of all runs.",
     ["opm/core/simulator/SimulatorIncompTwophase.cpp", "opm/core/simulator/SimulatorCompressibleTwophase.cpp", "opm/core/simulator/SimulatorTimer.cpp"],
     [("run loop driven by the timer", "opm/core/simulator/SimulatorIncompTwophase.cpp"), ("setting the step number of a timer", "opm/core/simulator/SimulatorTimer.cpp")],
     T + ": crash and restart at drawn step boundaries with only durable state surviving, refinement against the uninterrupted run",
     "Bitwise comparison of states and files. Sampling over cut positions and worlds.",
     observe=["states at every step boundary", "output files"])

prop("S08", "Simulation output is complete and correct, or an error is reported",
     "The files of a run hold the states it passed through (saturations, pressures, velocities, surface volumes, VTK grid and fields), the water cut curve and the well report that follow from them, one row per step. When a run with file output returns normally, every file it was to write holds exactly the contents an undisturbed run writes; a failed open, write, close or directory creation, a full disk or an I/O error ends the run with an error. Interrupted and partial transfers that the operating system allows are completed, and output to one file never depends on earlier contents of the directory, except for the step timing file, which is appended to.",
     ["fault_sequences", "crash_points", "histories"],
     "every position and kind of disk fault (I/O error, full disk, short write, interrupted call, failed directory creation) during runs of both simulators and during the stand-alone writers",
     "No test injects a disk fault; the failure must be reported wherever in the sequence of file operations it falls.",
     ["opm/core/simulator/SimulatorIncompTwophase.cpp", "opm/core/simulator/SimulatorCompressibleTwophase.cpp", "opm/core/io/vtk/writeVtkData.cpp", "opm/core/utility/parameters/ParameterGroup.cpp", "opm/core/linalg/sparse_sys.c"],
     [("per-step state files", "opm/core/simulator/SimulatorIncompTwophase.cpp"), ("VTK writer", "opm/core/io/vtk/writeVtkData.cpp")],
     T + ": simulated disk with errors, full device, short and interrupted transfers; comparison with the undisturbed run's files",
     "Sampling over fault positions; the disk is simulated below the C library's system-call wrappers.",
     observe=["return or exception of the run", "bytes on the simulated disk"])

prop("S09", "Readers report damaged input and do not depend on how bytes arrive",
     "Reading a deck, grid file, parameter file or table delivers what the file says, however the operating system divides the data into transfers. If reading fails part way, if a file it refers to is missing, or if the data ends inside the construct being read, the reader reports an error instead of delivering what it has (a line-oriented file has no end; there an incomplete line adds nothing). Damaged input may be refused, but it never makes a reader crash, hang or read outside its buffers. A grid converted to the VAG description and back is the same grid.",
     ["fault_sequences", "inputs"],
     "every division of the input into transfers, every position of an I/O error, truncation, failed open or failed allocation",
     "Tests read a handful of intact files in one piece.",
     ["opm/core/io/eclipse/EclipseGridParser.cpp", "opm/core/grid/grid.c", "opm/core/utility/parameters/ParameterGroup.cpp", "opm/core/utility/parameters/tinyxml/tinyxml.cpp", "opm/core/io/vag/vag.cpp"],
     [("keyword parser", "opm/core/io/eclipse/EclipseGridParser.cpp"), ("grid file reader", "opm/core/grid/grid.c"), ("parameter reader", "opm/core/utility/parameters/ParameterGroup.cpp")],
     T + ": simulated disk delivering arbitrary fragments, errors and truncations; comparison with the undisturbed read",
     "Sampling over fragmentations and fault positions.",
     observe=["parsed contents", "reported error"])

prop("S10", "Well containers keep exactly what was put in, even when memory runs out",
     "After any sequence of creating, extending, re-controlling, cloning and destroying well containers, a container holds exactly the wells, completions, names, controls and active control selections given to it, and a clone shares nothing with its original. An operation that fails for lack of memory says so, changes nothing a user can observe, loses no memory and leaves every container usable.",
     ["histories", "fault_sequences"],
     "every sequence of container operations, interleaved over several containers; every position of one or more failing allocations",
     "Three unit tests cover one construction, one set of controls and one copy, without failing allocations.",
     ["opm/core/wells/wells.c", "opm/core/wells.h"],
     [("growing the completion and control arrays", "opm/core/wells/wells.c")],
     T + ": operation histories under failing allocations and arbitrary fresh-memory contents, executable reference model",
     "Full comparison with a reference model after every operation, leak accounting at the end, AddressSanitizer throughout. Sampling.",
     observe=["all fields of the containers", "returned status", "live allocations"])

prop("S11", "Construction and growth under memory exhaustion fail cleanly",
     "Creating a grid (Cartesian, tensor, corner-point, from a file), a boundary-condition set, a table of sources, a sparse matrix, a discretisation (TPFA, hybrid, multiscale), a coarse partition or topology, or a manager or property object from a deck either succeeds with exactly the contents it has when memory is plentiful, or reports failure; the same holds for each operation that makes such an object grow. It never crashes or ends the program, never hands out a partly built object, never loses memory, never depends on what fresh memory contains, and a failed operation leaves the object as it was. Objects built earlier are unaffected, and the same call succeeds once memory is back.",
     ["fault_sequences", "histories", "inputs"],
     "every position of one or more failing allocations in every constructor and growing operation, for every size of object, every history of such operations over several objects, and every prior content of fresh memory",
     "No test fails an allocation.",
     ["opm/core/grid/grid.c", "opm/core/grid/cart_grid.c", "opm/core/grid/cornerpoint_grid.c", "opm/core/grid/cpgpreprocess/preprocess.c", "opm/core/pressure/flow_bc.c", "opm/core/pressure/fsh.c", "opm/core/pressure/ifsh.c", "opm/core/linalg/sparse_sys.c", "opm/core/pressure/tpfa/ifs_tpfa.c", "opm/core/pressure/tpfa/cfs_tpfa_residual.c", "opm/core/pressure/tpfa/compr_source.c", "opm/core/pressure/msmfem/coarse_sys.c", "opm/core/pressure/msmfem/coarse_conn.c", "opm/core/pressure/msmfem/partition.c", "opm/core/transport/implicit/transport_source.c", "opm/core/wells/WellsManager.cpp"],
     [("allocate-then-fill constructors", "opm/core/grid/grid.c"), ("growing tables", "opm/core/pressure/flow_bc.c"), ("coarse topology and basis", "opm/core/pressure/msmfem/coarse_conn.c")],
     T + ": histories of constructions and growth with allocation failure at drawn positions, a twin under plentiful memory as the model",
     "Sampling over positions (small constructors are covered at every position many times).",
     observe=["returned object", "live allocations"])

prop("S12", "Well and group control decisions follow limits, and shut wells stay shut",
     "When the completed rates and pressures of a step violate a limit of an open well, or of a group that has a procedure for it, the control check reports it and makes one change that answers one violated limit: the well goes to the violated limit; or the group's target is shared out over its wells in proportion to their guide rates, so that the shares add up to the target; or the group shuts its open producer with the largest rate of the limited quantity. When nothing is violated it reports so and changes nothing. A well shut in the deck or by a group is not opened by any later check or group control. Reinjection controls give the wells of a group, at any depth of the group tree, the produced volume times the fraction of the group. With a responding reservoir the changes end within a bounded number of checks. In whole simulations that check controls, every accepted step keeps all limits, and equals the step made from the same state with its final controls from the start; a step whose limits cannot be met fails.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every group tree, every set of targets, limits, guide rates and procedures (no group with a control of its own beneath another; no gas rate as initial group control), every sequence of rates and pressures fed to successive checks, every position of a failing allocation in a check",
     "No test builds a group hierarchy; control decisions depend on the sequence of earlier decisions and on the response of the reservoir to them.",
     ["opm/core/wells/WellsGroup.cpp", "opm/core/wells/WellCollection.cpp", "opm/core/wells/WellsManager.cpp", "opm/core/simulator/SimulatorIncompTwophase.cpp", "opm/core/simulator/SimulatorCompressibleTwophase.cpp"],
     [("condition checks and control switching", "opm/core/wells/WellsGroup.cpp"), ("controls and shut flags from the deck", "opm/core/wells/WellsManager.cpp"), ("repeated pressure solves with changed controls", "opm/core/simulator/SimulatorIncompTwophase.cpp")],
     T + ": histories of adversarial and simulated well responses against an executable reference of the control rules; twin simulation begun with the final controls",
     "Sampling over trees, limits and response histories; whole simulations have reservoir-rate and pressure limits only.",
     observe=["active control and targets of every well", "result of the check", "states at step boundaries"])

prop("S13", "Elapsed times and step clocks stay right under any clock and step history",
     "Measured durations equal the time that really passed, to the resolution of the clock, whenever the measured interval contains a change of the local time zone or daylight saving time. Under every sequence of advancing, resetting and repositioning, a simulation timer's step number, step length, current time and completion flag agree with the list of step lengths; a request for a step outside the schedule is refused and changes nothing.",
     ["schedules", "histories", "fault_sequences"],
     "every sequence of start, stop and read operations against every history of the clock; every sequence of timer operations",
     "No test touches the clock or the timer; clock changes do not happen in tests.",
     ["opm/core/utility/StopWatch.cpp", "opm/core/simulator/SimulatorTimer.cpp"],
     [("wall-clock differences", "opm/core/utility/StopWatch.cpp"), ("step bookkeeping", "opm/core/simulator/SimulatorTimer.cpp")],
     T + ": simulated clock with zone changes, operation histories against a reference model",
     "Sampling; clock reads go to the simulated clock.",
     observe=["returned durations, step numbers, times"])

prop("S14", "A schedule read from a deck is replayed epoch by epoch as written",
     "For every deck with a schedule, the wells, completions, controls, open and shut wells, guide rates, group tree, group limits and step lengths in force in each epoch are those the keywords up to that epoch define, in the order in which they are written: the last line for a well or group counts, and epochs that come later leave no trace. This holds whatever the order in which epochs are visited and how often, whatever the parser was used for before, and however the records are laid out (repeat counts, defaulted and omitted items, comments, skipped keywords). Steps add up to the dates and step lengths written, and a timer repositioned at an epoch goes on where the one before ended. Wells that cannot be built as written (unknown wells, control modes or phases, a control without its rate, completions outside the grid) are refused in that epoch and leave earlier epochs alone. A deck is read as a whole or refused, and a failed construction of wells leaves the deck as it was.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every sequence of well, group and time keywords, every order of visiting the epochs, every earlier use of the parser, every position of a failing allocation in reading and in building wells (wells do not change between injector and producer; name roots in COMPDAT only)",
     "The tests read no schedule section.",
     ["opm/core/io/eclipse/EclipseGridParser.cpp", "opm/core/io/eclipse/SpecialEclipseFields.hpp", "opm/core/wells/WellsManager.cpp", "opm/core/simulator/SimulatorTimer.cpp"],
     [("epoch splitting", "opm/core/io/eclipse/EclipseGridParser.cpp"), ("keyword records", "opm/core/io/eclipse/SpecialEclipseFields.hpp"), ("wells from an epoch", "opm/core/wells/WellsManager.cpp")],
     T + ": generated schedules with failing allocations replayed in drawn epoch orders against an executable reference model",
     "Sampling over schedules; keyword subset used by the simulators, metric and field units.",
     observe=["wells structure, well tree and step lengths per epoch"])

prop("S15", "Time of flight and tracers solve their upwind equations in every flow order",
     "After a time-of-flight or tracer computation on a flow without circulation, the values of every cell satisfy the upwind finite-volume (or discontinuous Galerkin degree zero) equation for the given fluxes, pore volumes and sources; tracer values lie in [0,1], and sum to one where all inflow comes from sources. First-order values do not depend on the numbering of cells and faces. Discontinuous Galerkin values of degree one balance every cell for constant and linear weights, with the linear and the multilinear basis; limited values are nowhere below zero, nor below the least value upstream. A computation that cannot be done fails with an error and the next one on the same solver is unaffected.",
     ["schedules", "inputs", "fault_sequences"],
     "every loop-free flux field with any number of stagnant faces, every source distribution, every permutation of cell and face numbers (the schedule in which cells are visited), every failing allocation",
     "No test runs a time-of-flight solver; the order in which cells are solved is chosen by the flow field and the numbering.",
     ["opm/core/tof/TofReorder.cpp", "opm/core/tof/TofDiscGalReorder.cpp", "opm/core/transport/reorder/ReorderSolverInterface.cpp", "opm/core/transport/reorder/reordersequence.cpp"],
     [("single-cell solves in flow order", "opm/core/tof/TofReorder.cpp"), ("discontinuous Galerkin cell systems", "opm/core/tof/TofDiscGalReorder.cpp")],
     T + ": the simulator draws flow fields and visiting orders (numberings) and failing allocations; residual oracle and twin run under a permuted numbering",
     "Every cell's residual is recomputed by the harness from the definition. Sampling; up to 60 cells.",
     observe=["time of flight and tracer values after a call"])

prop("S16", "Hybrid and multiscale pressure systems satisfy their equations on every assembly",
     "After every assembly and solution of a mixed hybrid pressure system (incompressible with wells, or compressible), half-face fluxes follow the pressures through the cell's inner product, neighbouring cells agree on the flux between them, every cell balances, and prescribed pressures, fluxes, well pressures and rates are met; gravity enters with its sign. Coarse partitions are complete and contiguous after each operation on them, split blocks are the connected components, and the coarse topology has exactly the interfaces of the partition with exactly their fine faces. Multiscale fluxes balance every fine cell's share of the block sources, combine the basis functions, and are driven by the block pressures. A construction that runs out of memory reports it and loses nothing; systems assembled again, or alongside others, give what fresh ones give.",
     ["histories", "configurations", "fault_sequences"],
     "every grid, permeability, set of wells, boundary conditions and partition; every history of assemblies of several live systems; every failing allocation in construction (multiscale: connected grids with at least three blocks, sources of a block of one sign)",
     "No test assembles a hybrid or multiscale system; the tests of partitions use one grid.",
     ["opm/core/pressure/ifsh.c", "opm/core/pressure/cfsh.c", "opm/core/pressure/fsh.c", "opm/core/pressure/mimetic", "opm/core/pressure/msmfem"],
     [("assembly and elimination", "opm/core/pressure/ifsh.c"), ("Schur complement and back-substitution", "opm/core/pressure/mimetic/hybsys.c"), ("basis functions", "opm/core/pressure/msmfem/coarse_sys.c"), ("partitions", "opm/core/pressure/msmfem/partition.c")],
     T + ": histories of interleaved systems with failing allocations and arbitrary fresh memory; residual oracle, reference partitions and reference basis functions",
     "Every equation is recomputed by the harness from the outputs. Sampling; up to about 40 cells.",
     observe=["pressures, fluxes, well flows, partitions and coarse topology after a call"])

prop("S17", "Implicit and single-point upwind transport steps satisfy their equations",
     "A transport step of the implicit two-phase solver that is reported as converged satisfies, in every cell, the discrete equation of water with each phase taken from the cell it leaves, under viscous flow, gravity, capillary pressure, injection and production, to the tolerance it converged to. Saturations stay within the residual saturations of each cell and add to one. Steps of small length converge. A step that runs out of memory ends with an error and leaves the state unchanged; changed pore volumes are refused. A step depends only on its arguments, not on earlier steps or other solvers. The explicit upwind step makes exactly the change its definition gives, and the minimal implicit step satisfies its equation when its reported residual is small and reports failure otherwise. Segregation in columns solves each column's equations and leaves other cells alone.",
     ["histories", "configurations", "fault_sequences", "inputs"],
     "every grid (also cells that share several faces), flow, fluid with residual saturations, gravity, capillary pressure and Newton limits; every history of steps of several live solvers; every failing allocation",
     "No test makes an implicit or single-point upwind transport step.",
     ["opm/core/transport/implicit", "opm/core/transport/minimal"],
     [("upwind fluxes and Newton control", "opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp"), ("Newton iteration and line search", "opm/core/transport/implicit/ImplicitTransport.hpp"), ("matrix structure", "opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp"), ("upwind steps", "opm/core/transport/minimal/spu_implicit.c")],
     T + ": histories of steps of interleaved solvers with failing allocations and arbitrary fresh memory; residual oracle with an independent choice of upwind cells, twin runs",
     "Every equation is recomputed by the harness. Sampling; up to 40 cells. Steps that do not converge are only reported (printed) by the library: nothing but saturation bounds is required of them.",
     observe=["saturations, printed convergence report, returned residual norm"])

prop("S18", "Initial states are the described ones, in equilibrium, and stay at rest",
     "A state made from parameters or a deck has the described saturations, within each cell's residual saturations, that add to one. Its pressures are given by the deck or are hydrostatic for the fluids present above and below a contact, with the given pressure at the datum, in any units. Face pressures, surface volumes and the initial well pressures follow from the cells. Fluxes start at zero. The result does not depend on earlier use of the state object, nor on attempts that ran out of memory; incomplete or contradictory descriptions are refused. Pressure and transport steps leave a system in hydrostatic equilibrium, without wells, at rest.",
     ["histories", "configurations", "fault_sequences", "inputs"],
     "every grid, fluid (residual saturations, compressible, dissolved components), contact, datum and gravity; every history of initialisations of reused objects; every failing allocation, truncated field and linear-solver failure; every sequence of steps of a system at rest",
     "No test initialises a state; rest is a statement about every step of every history.",
     ["opm/core/simulator/initState_impl.hpp", "opm/core/simulator/initState.hpp", "opm/core/simulator/TwophaseState.hpp", "opm/core/simulator/BlackoilState.hpp", "opm/core/simulator/WellState.hpp"],
     [("contacts, hydrostatic pressures and face pressures", "opm/core/simulator/initState_impl.hpp"), ("state objects", "opm/core/simulator/BlackoilState.hpp"), ("initial well pressures", "opm/core/simulator/WellState.hpp")],
     T + ": histories of initialisations of reused objects and of steps at rest, with failing allocations, truncated decks and failing linear solves; closed-form reference states, twin runs",
     "Sampling; up to 40 cells. Compressible pressures are held to the library's own integration step, not to the exact solution; compressible steps that do not converge end the run.",
     observe=["saturations, pressures, face pressures, surface volumes, fluxes and well pressures after each call"])

prop("S19", "The shipped programs carry a simulation through every epoch to its output files",
     "Given arguments and input files, the simulation and time-of-flight programs either fail or end with all their results on disk. A deck's epochs are simulated one after the other, each with its own wells, controls and steps, whatever wells appear, open, shut or change their targets; every reported step is written under its number and holds saturations that conserve the injected and produced water, and the well report shows the prescribed rates and pressures. Dividing an epoch in two, or reporting less often, changes no reported state. Times of flight and tracers solve their equations. Missing, short or damaged input, failing disks and lack of memory never lead to a normal end with wrong or missing results.",
     ["histories", "configurations", "fault_sequences", "inputs"],
     "every schedule of epochs and well changes; every grid, fluid and parameter combination of a program; every failing, short or interrupted disk operation, full disk, failing allocation and damaged input file of a run",
     "No test runs a program, more than one epoch, or a failing disk.",
     ["examples/sim_2p_incomp.cpp", "examples/sim_2p_comp_reorder.cpp", "examples/compute_tof.cpp", "examples/compute_tof_from_files.cpp", "opm/core/simulator", "opm/core/tof", "opm/core/wells", "opm/core/io/eclipse"],
     [("epochs and their wells", "examples/sim_2p_incomp.cpp"), ("steps and output", "opm/core/simulator/SimulatorIncompTwophase.cpp"), ("input files and results", "examples/compute_tof_from_files.cpp")],
     T + ": whole programs in one process, from argument list and simulated disk to the files left behind, under disk, allocation and input faults; conservation and closed-form oracles on the files, metamorphic twin runs",
     "Sampling; up to 32 cells, 4 epochs, 12 steps. Compressible programs: completeness, twin runs and faults only (balances are S03's). import_rewrite needs a library that is not installed.",
     observe=["exit, exceptions and every file left in the output directory"])

PURE = "Pure function of its arguments: no schedule, clock, I/O, fault or multi-step history for a simulator to control, so deterministic simulation adds nothing over plain input sampling."
prop("N01", "Phase properties are thermodynamically consistent",
     "Formation volume factors, viscosities and gas-oil ratios interpolate their tables, derivatives agree with differences of values, and surface volumes map to consistent reservoir volumes.",
     ["inputs"], "every table and pressure", "Table tests sample a few points.", ["opm/core/props/pvt"], [("table interpolation", "opm/core/props/pvt")], na=PURE)
prop("N02", "Relative permeabilities and capillary pressures reproduce their tables",
     "Saturation functions reproduce tabulated values, stay within bounds, and their derivatives agree with differences of values, also under end-point scaling.",
     ["inputs"], "every table, saturation and scaling", "Tests do not evaluate saturation functions.", ["opm/core/props/satfunc"], [("saturation functions", "opm/core/props/satfunc")], na=PURE)
prop("N03", "Corner-point processing yields a conforming grid with correct geometry",
     "Every cell is bounded by faces whose normals point consistently and close up, connections match where columns touch, and volumes and centroids are those of the described bodies.",
     ["inputs"], "every corner-point description", "Tests process a few columns.", ["opm/core/grid/cpgpreprocess", "opm/core/grid/cornerpoint_grid.c"], [("face matching", "opm/core/grid/cpgpreprocess/facetopology.c")], na=PURE)
prop("N04", "Velocity interpolation and quadrature are exact for the functions they claim",
     "Constant and linear fields are reproduced exactly and quadrature rules integrate polynomials of their order exactly on every cell shape.",
     ["inputs"], "every cell geometry and field", "Tests use two grids.", ["opm/core/utility/VelocityInterpolation.cpp", "opm/core/grid/CellQuadrature.hpp"], [("interpolation", "opm/core/utility/VelocityInterpolation.cpp")], na=PURE)
prop("N05", "Unit conversion of deck values is complete and exact",
     "Every dimensional number of a deck is converted from the deck's unit system with the factor of its physical dimension.",
     ["inputs"], "every keyword and unit system", "Tests read no dimensional keywords.", ["opm/core/io/eclipse/EclipseGridParser.cpp", "opm/core/utility/Units.hpp"], [("conversion to SI", "opm/core/io/eclipse/EclipseGridParser.cpp")], na=PURE)


def main():
    built = set(sys.argv[1:]) or set(f[:3].upper() for f in os.listdir(os.path.join(V, "harness/props")) if f.endswith(".cpp") and f[0] == "s")
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, tech, note, why in P:
        if p["id"] in built:
            cmd = "python3 harness/check.py %s --tier " % p["id"]
            checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", evidence_file="evidence/%s.json" % p["id"],
                               technique=tech, level="exploration", level_note=note))
        else:
            na.append(dict(property=p["id"], reason=why or "Check not built yet."))
    m = dict(version=1, setup_cmd="python3 harness/check.py setup",
             hooks=dict(guard="OPM_CORE_DST", enable="not needed: every seam is reached by link-time wrapping of system and allocator calls and by the library's own interfaces; no guarded code was added to /repo", source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
