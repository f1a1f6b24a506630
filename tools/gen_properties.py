#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

p("P01", "A data exchange delivers every item once, intact, to the addressed rank",
  "When all ranks take part in a data exchange, each rank receives from every other rank exactly the items that rank addressed to it: none lost, duplicated, altered, reordered or credited to the wrong sender, with ranks that sent nothing contributing an empty list. "
  "This holds for any number of ranks, any message sizes (including none) and any number of consecutive or chunked exchanges, where every rank takes part in the same number of rounds and its chunks, put together, are its items. Every exchange completes, however messages are delayed.",
  ["schedules", "inputs", "histories", "configurations"],
  "all rank counts, per-pair item lists, sequences of exchange rounds, chunk sizes and all delivery timings MPI permits (delay, reordering across senders, late completion, rendezvous or eager sends)",
  "The only stable test of this code sends one 3-element message from a rank to itself; nothing runs two ranks, so ordering, empty rounds, consecutive rounds and chunking over uneven ranks are never exercised.",
  ["src/communication/exchange_communicator.rs", "src/communication/data_by_rank.rs", "src/communication/sized_communicator.rs", "src/communication/mpi_world.rs"],
  [("every rank sends exactly one (possibly empty) message to every other rank per round, then receives one from each", "ExchangeCommunicator::exchange_all / receive_vec"),
   ("per-rank table of items that knows the own rank has no entry", "DataByRank"),
   ("same number of chunks on all ranks via a global maximum", "divide_into_chunks_with_same_num_globally")],
  observe=["ExchangeCommunicator", "DataByRank", "divide_into_chunks_with_same_num_globally"])

p("P02", "Collective operations give every rank the same, rank-ordered, exact result",
  "Gathers return one contribution per rank, in rank order, identical on all ranks, with variable-length contributions concatenated in rank order. Global sums, minima, maxima and agreement tests equal the mathematical result over exactly the ranks' contributions on every rank. "
  "Collectives mixed with point-to-point traffic in the same program order on all ranks never mismatch, whatever the timing.",
  ["schedules", "inputs", "configurations"],
  "all rank counts, contribution values and lengths (including empty), sequences of collectives interleaved with point-to-point messages, all timings",
  "No stable test runs a collective on more than one rank; rank order, displacement computation and reductions are invisible at one rank.",
  ["src/communication/mpi_world.rs", "src/communication/exchange_communicator.rs"],
  [("all_gather based reductions", "MpiWorld::all_gather_{sum,min,max}"), ("displacements as exclusive prefix sums of counts", "MpiWorld::all_gather_varcount"),
   ("tag verification before each collective", "MpiWorld::verify_tag")],
  observe=["MpiWorld collectives"])

p("P03", "Messages of different types never mix and values arrive bit-exact",
  "A value received over a typed channel equals the value that was sent, field by field, for every communicated type including nested records, identified items and optional values with or without content; messages of one type are never received as another. "
  "Memory handed to an asynchronous send stays untouched until that send has completed, every started send is completed, and no message is left unreceived when the program ends.",
  ["schedules", "inputs", "histories"],
  "all values of the communicated types, all interleavings of channels of several types between the same ranks, all completion times of asynchronous sends",
  "Tests pack and unpack a handful of values on one rank; an early free of a send buffer only shows when a send is slow, and tag confusion only when channels interleave.",
  ["src/communication/mpi_world.rs", "src/communication/communicated_option.rs", "src/communication/identified.rs", "src/sweep/communicator.rs"],
  [("tag derived from the type", "get_tag_for_type"), ("datatype descriptions by field offset", "CommunicatedOption / Identified Equivalence impls"),
   ("wait for pending sends before reusing or freeing buffers", "SweepCommunicator::wait_for_all / Drop")],
  observe=["simulated MPI layer: datatype of send and receive, buffer checksums, frees of in-flight memory, messages left over"])

p("P04", "Every sweep terminates, on any partition and any message timing",
  "A sweep over any grid, any assignment of its cells to ranks, any set of directions, any number of timestep levels and both boundary types finishes on all ranks after finitely many steps, without deadlock, livelock or crash. "
  "Every cell active at a level is solved for every direction in that sweep, and no message of one sweep is consumed by a later one. The optional deadlock check does not change this.",
  ["schedules", "inputs", "configurations"],
  "all cell-to-rank assignments, direction sets, timestep-level histories, batch sizes and message schedules",
  "The sweep tests are ignored and run only with real MPI, one natural schedule and a block partition of one cube; the stable suite never runs a sweep.",
  ["src/sweep/mod.rs", "src/sweep/communicator.rs", "src/sweep/count_by_dir.rs", "src/sweep/active_list.rs", "src/sweep/deadlock_detection.rs", "src/sweep/task.rs"],
  [("upwind dependency counts per cell and direction", "Sweep::init_counts, CountByDir"), ("remaining number of tasks to solve, messages to send", "Sweep::solve"),
   ("poll for incoming rates between batches", "Sweep::receive_all_messages")],
  state=[("to_solve_count", "tasks left in this sweep on this rank", "src/sweep/mod.rs")],
  observe=["simulation update returning on all ranks", "rate components of every cell"])

p("P05", "Sweep results do not depend on the number of ranks or on message timing",
  "With non-periodic boundaries, photon rates, ionized fractions, temperatures, timescales and chosen timestep levels of every cell after any number of sweeps are the same (up to rounding) for every way of distributing the cells over ranks and every message schedule. "
  "This includes runs with several timestep levels in which neighbouring cells on different ranks are on different levels.",
  ["schedules", "inputs", "configurations", "histories"],
  "all grids, distributions over ranks, timestep-level assignments, numbers of sweeps and schedules, compared with the same problem on one rank",
  "Needs several ranks, several timestep levels and adverse timing at the same time; no stable test runs a sweep at all.",
  ["src/sweep/mod.rs", "src/sweep/communicator.rs", "src/sweep/timestep_state.rs", "src/chemistry/hydrogen_only/mod.rs"],
  [("remote neighbours get exactly the correction a local neighbour would get", "Sweep::handle_remote_neighbour / handle_local_neighbour"),
   ("a task runs only when all upwind rates have arrived", "Sweep::count_remaining")],
  observe=["cell components after each update"])

p("P06", "Photons are transported to the right cells, once, and none are created",
  "The photon rate arriving in a cell equals the sum over directions of what its upwind neighbours passed on through the shared faces, in proportion to the face area projected on the direction, plus its own source; the directions represent the full sphere with equal weight. "
  "Rates are finite and never negative, and over a sweep of a non-absorbing medium the photons leaving the box equal the photons emitted.",
  ["inputs", "schedules", "configurations"],
  "all grids, source distributions, opacities, direction sets, numbers of ranks and schedules, compared with an independent reference solution in topological order",
  "No stable test computes a single photon rate; conservation over many cells, ranks and directions cannot be sampled by hand-picked values.",
  ["src/sweep/mod.rs", "src/sweep/site.rs", "src/sweep/direction/mod.rs", "src/sweep/direction/healpix.rs", "src/chemistry/hydrogen_only/mod.rs"],
  [("corrections distributed over downwind faces", "Sweep::solve_task"), ("direction bins", "Directions::from"), ("rotation of the direction bins", "rotate_directions_system")],
  observe=["rate and chemistry components of every cell", "photon rates by direction"])

p("P07", "All ranks agree on time and timesteps and stop at the final time together",
  "After every step all ranks hold the same simulation time, the same step length and the same set of timestep levels to run next; time never decreases, each step advances it by the largest currently allowed timestep, which starts at the shortest one and doubles up to the configured maximum, and every cell's level satisfies the requested safety limits within the allowed range. "
  "A run with a final time stops on all ranks in the same step, at most one further step after time has reached the final time.",
  ["schedules", "histories", "configurations"],
  "all level histories, rank counts, final times and schedules",
  "Agreement between ranks is a property of several ranks over many steps; the existing timestep tests are single rank and not in the stable suite.",
  ["src/sweep/timestep_state.rs", "src/sweep/timestep_level.rs", "src/sweep/mod.rs", "src/simulation_plugin/mod.rs", "src/simulation_plugin/time.rs"],
  [("global minimum of desired timesteps", "Sweep::update_timestep_levels / TimestepState"), ("stop event when time reaches the final time", "stop_simulation_system")],
  observe=["SimulationTime resource", "timestep level components", "termination of the run"])

p("P08", "Domain decomposition: one owner per position, same on all ranks, balanced",
  "After decomposition every position in the box has exactly one owning rank, all ranks agree on it, and it depends only on the set of particles, not on how they were initially distributed or on timing. "
  "Positions are ordered along a space-filling curve whose keys are distinct for distinguishable positions and preserve locality (consecutive subcells of the curve share a face), each rank owns one contiguous key range, and no rank's particle count is far above the average when positions are distinguishable at about 1e-4 of the box and every rank starts with a particle.",
  ["schedules", "inputs", "configurations"],
  "all particle distributions with at least one particle per rank, initial distributions over ranks, rank counts and schedules",
  "Existing decomposition tests need a local MPI run and are not in the stable suite; key tests check a few points at two dimensions.",
  ["src/domain/decomposition.rs", "src/domain/key.rs", "src/domain/mod.rs", "src/peano_hilbert.rs", "src/extent.rs", "src/domain/extent.rs"],
  [("binary search for the cuts over globally summed counts", "Decomposition::new"), ("global extent from gathered local extents", "get_extent_from_min_and_max_reduce"), ("Peano-Hilbert key", "PeanoKey3d::from_point_and_min_max")],
  observe=["get_owning_rank for arbitrary keys on every rank"])

p("P09", "Particle migration keeps every particle and all of its data exactly once",
  "After particles are redistributed over the ranks, every particle that existed before exists exactly once, on the rank that owns its position, with all its components unchanged and still belonging together. "
  "Particle identifiers are unique over all ranks, count up from zero on each rank, name the rank that holds the particle, and lead back to that particle.",
  ["schedules", "inputs", "configurations"],
  "all particle sets, component values, initial distributions, rank counts, schedules, orders of unordered systems and iteration orders",
  "Requires several ranks and the complete startup; the exchange test is a local MPI run that is not in the stable suite.",
  ["src/domain/exchange_data_plugin.rs", "src/domain/mod.rs", "src/particle.rs", "src/communication/exchange_communicator.rs"],
  [("per-component exchange in the same entity order", "ExchangeDataPlugin"), ("ids assigned after exchange", "domain::assign_particle_ids_system")],
  observe=["components of all local particles after startup"])

p("P10", "The parallel Voronoi grid equals the serial one and partitions the box",
  "The grid built in parallel has, for every particle, the same cell volume, size and set of neighbours with the same face areas and normals as the grid built from all particles on one rank, for any distribution of particles over ranks and any schedule. "
  "Cell volumes are positive and sum to the box volume, neighbour relations are symmetric with equal area and opposite normals, also across ranks and periodic boundaries, and faces at the box surface are boundaries. Point sets that are degenerate or too sparse for the construction may be refused with an explicit error, but never give a wrong grid.",
  ["schedules", "inputs", "configurations"],
  "all particle sets in general position, rank counts, decompositions, periodic and non-periodic boxes, schedules",
  "The stable tests only check small geometric helper functions; the parallel construction needs several ranks exchanging search results.",
  ["src/voronoi/constructor/parallel/mod.rs", "src/voronoi/constructor/mod.rs", "src/voronoi/delaunay/mod.rs", "src/voronoi/math/utils.rs", "src/voronoi/indexed_arena.rs", "src/quadtree/mod.rs", "src/quadtree/node_index.rs", "src/quadtree/radius_search.rs"],
  [("iterated radius search until no undecided tetrahedra remain on any rank", "ParallelSearch"), ("exact predicates fallback", "voronoi::math::precision_types"), ("quad tree search for particles within a radius", "quadtree::radius_search")],
  observe=["Cell components with faces and neighbours", "halo particles"])

p("P11", "Snapshots hold every particle exactly once with all fields aligned",
  "The files of one snapshot together contain every particle exactly once and row i of every requested field belongs to the same particle, also from one snapshot to the next, with values and units as in memory, fields that can change being in every snapshot; the set of rows does not depend on the number of ranks, the number of files or timing. "
  "Each rank writes exactly its own rows into the share of the files assigned to it, the shares being disjoint and covering every file completely.",
  ["schedules", "inputs", "configurations"],
  "all particle counts per rank (including none), numbers of files and ranks, fields and schedules",
  "Stable tests check a few hand-made tables of the file distribution; no test writes a snapshot from more than one rank.",
  ["src/io/output/mod.rs", "src/io/file_distribution.rs", "src/io/to_dataset.rs", "src/io/output/plugin.rs"],
  [("regions of each file per rank", "get_rank_output_assignment_for_rank"), ("ranks open files one after another", "output systems with barriers")],
  observe=["snapshot files after the run"])

p("P12", "Initial conditions: every entry is read by exactly one rank, fields aligned",
  "Reading initial conditions from any number of files creates exactly one particle per entry over all ranks together, with every field of a particle taken from the same entry and with unit factors applied; entries are split evenly over the ranks. "
  "The result does not depend on the order in which a directory lists its files, even if ranks see different orders, on the sizes of the files (including empty ones) or on timing. Files that are damaged, lack a field or disagree in their number of entries are refused."
  ,["schedules", "inputs", "configurations", "fault_sequences"],
  "all file counts and sizes, rank counts, directory listing orders and schedules",
  "Stable tests check a few hand-made tables on one rank; nothing reads files on several ranks or with differing directory orders.",
  ["src/io/input/mod.rs", "src/io/file_distribution.rs", "src/io/input/attribute.rs"],
  [("regions of each file per rank", "get_rank_input_assignment_for_rank"), ("read by region over the list of files", "io::input::Reader")],
  observe=["components of all local particles after reading"])

p("P13", "A run restarted from a snapshot continues from exactly what was written",
  "Reading back a written snapshot as initial conditions, on the same or a different number of ranks, yields particles with exactly the field values that were in memory when it was written, in the same units. "
  "The time and other attributes stored with a snapshot are those of the moment it was written.",
  ["configurations", "histories", "crash_points"],
  "all rank counts of writer and reader, file counts, values, and all crash points of the writing job after a snapshot was complete",
  "No stable test writes and reads a file.",
  ["src/io/output/mod.rs", "src/io/input/mod.rs", "src/io/to_dataset.rs", "src/io/unit_reader.rs", "src/io/output/attribute.rs"],
  [("scale factor and dimension attributes per dataset", "io::to_dataset"), ("units applied on reading", "DefaultUnitReader")],
  observe=["components after restart", "snapshot attributes"])

p("P14", "Snapshots follow the requested cadence, numbered without gaps, plus a last one",
  "A run writes its first snapshot when the time reaches the time of the first output and then once for every multiple of the interval that time passes step by step, numbered consecutively without gaps or overwriting, and a last one when the run stops. "
  "All ranks write in the same steps.",
  ["histories", "configurations", "schedules"],
  "all combinations of step lengths, output intervals, first output times and final times, rank counts and schedules",
  "The timer test is single rank, fixed step and not in the stable suite.",
  ["src/io/output/timer.rs", "src/io/output/mod.rs", "src/simulation_plugin/mod.rs"],
  [("next output time", "io::output::timer::Timer"), ("output stage run criterion", "io::output::plugin")],
  observe=["snapshot directories and their time attributes"])

p("P15", "Faults and crashes never lead to silent loss or damage of output",
  "If a write, directory creation or file opening fails, or the disk is full, the run ends with an error rather than finishing as if the output were complete; a run that reports success has complete output. "
  "A job killed at any point leaves earlier complete snapshots untouched, and starting again with existing output does what the configured policy says: refuse, replace the files of the same name, or delete the old output first, never touching anything outside the output directory.",
  ["fault_sequences", "crash_points", "histories"],
  "all positions of disk errors, full disks and short writes, all crash points, followed by a restart under each policy",
  "Needs faults at particular calls and crashes at particular points; no test injects any.",
  ["src/io/output/mod.rs", "src/io/output/parameters.rs", "src/simulation_builder.rs", "src/io/time_series.rs"],
  [("errors of the file layer are fatal", "io::output"), ("policy for existing output", "make_output_dirs / HandleExistingOutput")],
  observe=["files on the simulated disk after the job", "outcome of the job"])

p("P16", "All ranks run with the same parameters, and they are recorded faithfully",
  "Every rank uses the same parameter values, taken from the parameter file with command line overrides applied, each override changing exactly the value it names. "
  "The parameter record written with the output contains every section in effect and, used as the parameter file of another run, reproduces the same parameters; unknown parameters and sections are rejected, not ignored.",
  ["inputs", "configurations", "schedules"],
  "all parameter files, override lists and rank counts",
  "Parameter tests check single structs on one rank and are not in the stable suite.",
  ["src/parameter_plugin/mod.rs", "src/parameter_plugin/parameter_file_contents.rs", "src/parameters.rs", "src/io/output/mod.rs", "src/command_line_options.rs"],
  [("contents with overrides, extraction by section", "ParameterFileContents"), ("used parameters file", "write_used_parameters_system")],
  observe=["parameter resources on every rank", "used parameters file"])

p("P17", "Time series hold one correct global value per step, in order",
  "Every time series file contains one entry per recorded step, in order of time and complete after the run, whose value is the global quantity over all particles of all ranks: averages weighted by volume or mass, totals as sums over ranks. "
  "The values do not depend on the number of ranks or on timing.",
  ["schedules", "configurations", "histories"],
  "all particle distributions over ranks, numbers of steps, rank counts and schedules",
  "Requires a multi-rank run with output; nothing in the stable suite does this.",
  ["src/io/time_series.rs", "src/sweep/time_series.rs"],
  [("global sums of weighted values", "sweep::time_series"), ("written by the main rank only", "TimeSeriesPlugin")],
  observe=["time series files"])

p("P18", "Every source feeds exactly one cell, the nearest, on the rank owning it",
  "Each radiation source is credited exactly once, to the particle nearest to it among those of the rank owning its position, several sources falling on the same particle adding up, so that the total source rate over all particles of all ranks equals the total luminosity. "
  "This holds for any distribution of particles and sources over ranks.",
  ["inputs", "configurations", "schedules"],
  "all source and particle positions, rank counts and schedules",
  "Needs several ranks with a decomposition; no stable test assigns a source.",
  ["src/source_systems.rs", "src/domain/decomposition.rs"],
  [("owner by decomposition, then nearest local particle", "set_source_terms_system")],
  observe=["Source component of all particles"])

p("P19", "Gas follows the hydrogen rate equations with the photons that arrive",
  "After every chemistry step the ionized fraction lies within (0, 1), temperature and rates are finite and non-negative, and both have advanced by the cell's own elapsed time according to the photoionization, recombination, collisional ionization, heating and cooling rates of hydrogen for the photon rate the sweep delivered to the cell (to the accuracy of the configured safety factor); with cooling prevented the temperature never falls. "
  "The derived output fields (rates of photoionization, recombination, collisional ionization, heating) are those of the state of the cell they are written with, the recorded ionization time is that of the first step that left the cell more than half ionized, and the timescale that selects the next timestep is the one of the fastest change. None of this depends on the rank count, on timing or on the order in which cells are solved.",
  ["inputs", "configurations", "schedules", "histories"],
  "all densities, temperatures, ionized fractions, photon rates, timesteps, flags, rank counts and schedules",
  "The chemistry tests of the repository are not in the stable suite and sample a few single cells; the coupling through the sweep is not tested.",
  ["src/chemistry/hydrogen_only/mod.rs", "src/chemistry/timescale.rs", "src/chemistry/mod.rs", "src/sweep/mod.rs"],
  [("explicit/implicit solver with adaptive sub-steps", "Solver::perform_timestep"), ("photon consumption and update of the site", "HydrogenOnly::update_abundances")],
  observe=["temperature and ionized fraction after the run", "derived fields written to the output", "timestep levels"])

p("P20", "The run starts from exactly the state in the initial conditions",
  "In the first snapshot every particle of the initial conditions appears once with its density, temperature and ionized fraction converted to SI units as the units stored with each dataset (including powers of the scale factor and of h in a cosmological run) say, the temperature following from internal energy and the ionized fraction, an ionized fraction given in the parameters taking precedence, its mass being density times the volume of its cell, no photons before the first sweep, and the sources listed in the parameters adding up to their total luminosity. "
  "This holds however the particles are spread over files and ranks, and in whatever order independent parts of the startup run.",
  ["inputs", "configurations", "schedules"],
  "all sets of particles, file layouts, dataset units, cosmologies, source lists, rank counts, orders of unordered systems and schedules",
  "No stable test starts the program; units, order of the startup systems and distribution over files and ranks only act together in a complete run.",
  ["src/main.rs", "src/arepo_postprocess/mod.rs", "src/arepo_postprocess/unit_reader.rs", "src/source_systems.rs", "src/io/input/mod.rs"],
  [("dataset attributes to SI with cosmology", "ArepoUnitReader"), ("temperature from internal energy", "src/main.rs startup systems"), ("photon sources from parameters", "set_source_terms_system")],
  observe=["first snapshot of a run of the whole program", "time series of the total luminosity"])

p("P21", "Remapping takes the state of the nearest particle of the earlier run",
  "When a run continues from the output of an earlier run at another time, every particle gets the larger of its own and the earlier run's temperature and ionized fraction, that of the earlier particle closest to it in comoving position wherever among the ranks that particle is held, from the last snapshot of the earlier run. "
  "The result does not depend on the number of ranks, on how the earlier output is divided into files, or on some ranks holding no earlier particles.",
  ["inputs", "configurations", "schedules"],
  "all earlier particle sets (also fewer than ranks, also clustered), scale factors, snapshot names, file layouts, rank counts and schedules; earlier particles at the same distance may be exchanged for each other",
  "Remapping has no test; it needs two runs, several ranks and particles whose nearest counterpart is on another rank.",
  ["src/arepo_postprocess/remap.rs", "src/main.rs", "src/io/input/mod.rs"],
  [("requests to all ranks that could hold a closer earlier particle", "Remapper"), ("latest snapshot of the earlier run", "get_files_of_last_snapshot")],
  observe=["first snapshot of the continued run"])

p("P22", "A grid read from file gives every cell exactly its listed connections",
  "A run that reads its grid from a connection file transports photons across exactly the listed interior connections, each used from both sides with its area and opposite normals, on whichever ranks the two cells are; connections across periodic boundaries become boundaries of the box, other entries are ignored, and cell volumes are those in the file. "
  "The photon rates after the first step are those of an independent solution on that grid, for every distribution of cells over ranks.",
  ["inputs", "configurations", "schedules"],
  "all connection lists (also with entries to ignore, in any order and orientation), particle identifiers, rank counts, and schedules, for non-periodic runs",
  "Reading a grid has no test; cells and their neighbours only meet after decomposition over several ranks.",
  ["src/arepo_postprocess/read_grid/mod.rs", "src/arepo_postprocess/read_grid/id_cache.rs", "src/main.rs", "src/sweep/mod.rs"],
  [("connections and particle ids joined over all ranks", "Constructor, IdCache"), ("type of connection decides interior or boundary", "ConnectionType")],
  observe=["photon rates and masses of all particles after the first step"])

p("P23", "Every star of the input shines with its tabulated luminosity, once",
  "With sources from a simulation, every star particle that is not a wind particle (formation time not positive) contributes exactly once its mass times the ionizing luminosity tabulated for its age and metallicity times the escape fraction, the age following from its formation and the present scale factor in the given cosmology, and the total equals the sum over all stars. "
  "This holds however stars are spread over files and ranks, including files and ranks without any star.",
  ["inputs", "configurations", "schedules"],
  "all sets of stars (none, ages and metallicities outside of the table), cosmologies, escape fractions, file layouts, rank counts and schedules",
  "The stable suite reads no star; empty ranks and files and the sum over ranks need a run of the whole program on several ranks.",
  ["src/arepo_postprocess/sources.rs", "src/arepo_postprocess/bpass.rs", "src/cosmology.rs", "src/source_systems.rs"],
  [("table lookup by age and metallicity", "bpass_lookup"), ("age from scale factors", "Cosmology"), ("stars read as a particle type of their own", "read_sources")],
  observe=["sources of all particles in the first snapshot", "time series of the total luminosity"])

p("P24", "The regular grid has each cell once and matching neighbours, on all rank counts",
  "A box whose sides are multiples of the cell size is divided into exactly one cell per lattice position, each owned by exactly one rank in slabs along x of nearly equal thickness, with identifiers that are unique, count from 0 on every rank and name their rank; the cell volumes add up to the volume of the box. "
  "Each cell has its six faces, with the area and normal of its side, and behind each face the cell at the neighbouring position (on the same or another rank, or across the box in a periodic run) or, in a non-periodic run, the boundary; haloes of a rank are exactly the cells of other ranks next to its own. A sweep on this grid gives the rates of the same cells put together in any other way, for every rank count and schedule.",
  ["inputs", "configurations", "schedules"],
  "all numbers of cells along the axes, cell sizes, rank counts up to the number of cells along x, periodic or not, and schedules",
  "The tests build one or two sizes of grid on a fixed number of ranks and only look at the photons; whether neighbours match across ranks depends on both sides' arithmetic for every size and rank count.",
  ["src/sweep/grid/cartesian.rs", "src/sweep/grid/mod.rs", "src/sweep/mod.rs"],
  [("lattice position to rank and number on that rank", "GridConstructor in src/sweep/grid/cartesian.rs"), ("neighbour behind each face, wrapped or boundary", "IntegerPosition::wrapped, get_neighbour")],
  observe=["cells, identifiers and haloes of all ranks", "photon rates after a step"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
