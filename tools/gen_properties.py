#!/usr/bin/env python3
"""Writes /verif/properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    if len(title) > 80: raise SystemExit(f"{id} title {len(title)}")
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["core/src/" + f for f in files], "mechanism": [{"name": a, "where": "core/src/" + b} for a, b in mech]}})

p("P01", "The mesh tiles the domain exactly once, shared out in order among processes",
  "After any history of refinement, coarsening and load balancing, the leaves held by all processes together cover the whole domain exactly once, with no leaf below the minimum or above the requested maximum level, each process holding a contiguous, non-overlapping piece in space-filling-curve order. Global counts, global indices, positions, sizes and levels reported for a leaf agree on every process and with its logical position, also for non-cubic coarse grids.",
  ["histories", "inputs", "configurations"], "every sequence of refine/coarsen/balance operations, dimension, coarse grid, periodicity, number of processes",
  "The unit tests build a few fixed meshes (one refinement pattern, 1 and 2 processes) and compare counts; tiling must hold after every history and on every partition.",
  ["amr/AMRmesh_hashmap_new.cpp", "amr/LightOctree_storage.h", "amr/AMRmesh.h", "morton_utils.h"],
  [("adapt rebuilds the leaf list", "amr/AMRmesh_hashmap_new.cpp"), ("load balance recomputes Morton intervals", "amr/AMRmesh_hashmap_new.cpp")])
p("P02", "Adaptation does what was asked, keeps 2:1 balance, and ignores the partition",
  "A mesh adaptation refines exactly the leaves marked for refinement plus those needed to keep adjacent leaves (faces, edges and corners, through periodic borders) within one level of each other, and coarsens only complete groups of siblings that were all marked and whose coarsening keeps that balance. The resulting set of leaves depends only on the previous leaves and marks, not on how they were distributed among processes or threads.",
  ["histories", "inputs", "configurations", "schedules"], "every mesh, every assignment of marks, every partition",
  "Tests use one marking on one mesh; a wrong ripple at a periodic corner or across a process border needs a particular mark pattern and partition.",
  ["amr/AMRmesh_hashmap_new.cpp", "amr/AMRmesh_hashmap_new.h"], [("2:1 marker propagation and coarsening vote", "amr/AMRmesh_hashmap_new.cpp")])
p("P03", "Neighbour and position queries return the leaves and cells that are really there",
  "For every leaf and direction a neighbour query returns exactly the leaves geometrically adjacent in that direction (same size, the one bigger, or all the smaller ones touching it), wrapping around periodic borders and reporting a border otherwise; a cell neighbour query returns the cell covering the requested position with the right size relation. A position query returns the leaf and cell containing the point, and the process owning it.",
  ["histories", "inputs", "configurations"], "every mesh and partition, every leaf/cell and offset, every point of the domain",
  "Tests check a handful of hand-picked neighbours; the answer must be right for every leaf of every mesh, including non-cubic grids and ghosts.",
  ["amr/LightOctree_hashmap.h", "foreach_cell/AMRBlockForeachCell_CellArray.h", "foreach_cell/AMRBlockForeachCell.h"],
  [("findNeighbors / getiOctFromPos / getDomainFromPos", "amr/LightOctree_hashmap.h"), ("getNeighbor_ghost / convert_index_ghost / getCellFromPos", "foreach_cell/AMRBlockForeachCell_CellArray.h")])
p("P04", "Ghost exchange delivers the neighbours' values; ghost reduction sums once",
  "Every remote leaf adjacent to a local one is present as a ghost exactly once, and after an exchange all its cells within the requested depth of the shared border equal the owner's values for every exchanged field, leaving local data and other fields untouched. Reducing ghosts adds each ghost cell's contribution exactly once to its owner's cell.",
  ["histories", "inputs", "configurations", "schedules"], "every mesh, partition, block shape, ghost depth, selection of fields",
  "Existing tests use two processes, one mesh and one depth; a missing corner ghost or a skipped cell row appears only for particular partitions.",
  ["mpi/GhostCommunicator_partial_blocks.cpp", "mpi/GhostCommunicator_full_blocks.h", "mpi/ViewCommunicator.cpp", "amr/AMRmesh_hashmap_new.cpp"],
  [("ghost list construction", "amr/AMRmesh_hashmap_new.cpp"), ("partial-block send masks and packing", "mpi/GhostCommunicator_partial_blocks.cpp"), ("reduce_ghosts", "mpi/ViewCommunicator.h")])
p("P05", "Load balancing moves whole leaves with all their data and evens out the work",
  "Load balancing changes neither the set of leaves nor the value of any field in any cell nor any particle or attribute: each arrives exactly once, bit for bit, on the process that now owns its place. Afterwards leaf counts differ among processes by no more than the requested grouping of siblings requires, whatever fields were created, renamed or deleted before.",
  ["histories", "inputs", "configurations"], "every mesh, prior partition, grouping level, set and history of fields and particles",
  "The test moves one freshly created set of fields once; renamed and deleted fields, repeated balancing and groupings are not exercised.",
  ["amr/AMRmesh_hashmap_new.cpp", "UserData_fields.h", "UserData_particles.h", "mpi/ViewCommunicator.cpp"],
  [("loadBalance_userdata", "amr/AMRmesh_hashmap_new.cpp"), ("exchange_loadbalance", "UserData_fields.h"), ("distributeParticles", "UserData_particles.h")])
p("P06", "Remapping after adaptation keeps unchanged cells and conserves every field",
  "After a mesh adaptation the value of every field in an unchanged leaf is unchanged, a refined leaf's cells take the value of the parent cell covering them, and a coarsened leaf's cells take the mean of the cells they replace. Hence the volume integral of every field is unchanged by the adaptation, on any number of processes.",
  ["histories", "inputs", "configurations"], "every old/new mesh pair produced by adaptation, every partition, block shape and field set",
  "The unit test runs on one process with one pattern; siblings split across processes and odd block sizes are never remapped.",
  ["amr/MapUserData_mean.cpp", "amr/CellIndexRemapper.h", "UserData_fields.h"], [("remap", "amr/MapUserData_mean.cpp")])
p("P07", "Hydro and MHD updates conserve mass, momentum, energy and magnetic flux",
  "In a closed periodic domain the volume integrals of mass, each momentum component, total energy and each magnetic component are constant to rounding over any number of steps, with adaptation and load balancing in between, for every update scheme and Riemann solver that accounts for level changes, on any mesh; schemes documented as non-conservative at level changes conserve them on meshes of a single level. (In two dimensions the out-of-plane velocity is not evolved.)",
  ["histories", "inputs", "configurations"], "every initial state, adaptive mesh, block shape, scheme, Riemann solver, number of processes",
  "The test checks mass and energy of one blast on one mesh family with 4-cell blocks; momentum, magnetic flux, other block shapes, adaptation and partitions are not observed.",
  ["hydro/HydroUpdate_euler.cpp", "hydro/HydroUpdate_RK2.cpp", "hydro/HydroUpdate_hancock.cpp", "hydro/HydroUpdate_hancock_oneneighbor.cpp", "RiemannSolvers.h"],
  [("flux differencing at conforming and non-conforming faces", "hydro/HydroUpdate_euler.cpp")])
p("P08", "Flux functions and state conversions are physically consistent",
  "Converting a state between conserved and primitive form and back gives the same state; exchanging axes and back is the identity. Every Riemann solver returns the exact physical flux when both sides are equal, the mirrored flux for mirrored inputs and the turned flux for turned inputs, a flux close to the mean one for nearly equal sides, and never NaN or infinity for admissible states; each computes the flux of the published solver it is named after, without lower bounds on the sound speed, density or pressure other than the configured ones. HLLC and HLLD return the flux of the upwind side in supersonic flows and across contacts, HLLD across rotational discontinuities, and HLLC the linear upwind flux for small jumps. The cleaning part carries the normal field and the potential with the configured speeds.",
  ["inputs"], "every admissible pair of states, adiabatic index and solver",
  "The tests convert a few states; consistency and symmetry must hold for every pair of states including near-vacuum, strong shocks and magnetised ones.",
  ["RiemannSolvers.h", "utils_hydro.h", "states/State_hydro.h", "states/State_MHD.h", "states/State_GLMMHD.h"],
  [("riemann_hllc / riemann_hlld / five_waves", "RiemannSolvers.h"), ("consToPrim / primToCons", "utils_hydro.h")])
p("P09", "Results do not depend on the number of processes",
  "The same simulation run on any number of processes, with any load-balancing frequency and grouping, produces the same leaves, the same time steps and the same field and particle values up to rounding.",
  ["configurations", "schedules", "inputs"], "every configuration and initial state; every number of processes and balancing policy",
  "Tests run on 1 and 2 processes but never compare the results.",
  ["DyabloTimeLoop.h", "mpi/GhostCommunicator_partial_blocks.cpp", "amr/AMRmesh_hashmap_new.cpp", "hydro", "gravity/GravitySolver_cg.cpp"],
  [("ghost exchanges around every kernel", "DyabloTimeLoop.h")])
p("P10", "Kernels are free of data races: results do not depend on threads",
  "Running the same simulation with any number of threads and any interleaving gives the same leaves and bit-identical cell values (up to rounding only where sums over threads are taken), with no two threads accessing the same memory concurrently without synchronisation when one writes.",
  ["schedules", "configurations"], "every thread count and interleaving",
  "The tests run with 4 threads and look only at loose aggregate values.",
  ["foreach_cell", "hydro", "particles", "amr", "mpi"], [("parallel kernels over cells, leaves, patches and particles", "foreach_cell/AMRBlockForeachCell.h")])
p("P11", "The scheme treats all directions and places alike",
  "Mirroring the initial state along an axis, exchanging axes, or shifting it periodically by whole coarse cells yields the mirrored, exchanged or shifted solution at all later times, up to rounding, for every update scheme on adaptive meshes.",
  ["inputs", "configurations", "histories"], "every initial state, scheme, mesh and symmetry of the grid",
  "No test compares symmetric runs; an error in one direction, or at one face of a level change, leaves conservation intact.",
  ["hydro", "foreach_cell", "amr/LightOctree_hashmap.h", "RiemannSolvers.h"], [("per-direction flux and neighbour handling", "hydro/HydroUpdate_euler.cpp")])
p("P12", "Computed flows converge to the exact solution of the equations",
  "For problems with known solutions (uniform flow, advected density and magnetic structures, smooth waves, shock tubes) the computed solution stays within a small fraction of the wave, vortex or jump of the exact one, flow of uniform velocity, pressure and field keeps them to rounding whatever its density and on any mesh, and on uniform meshes the error of smooth flows decreases with resolution at second order (between first and second for the Euler schemes).",
  ["inputs", "configurations"], "every scheme, Riemann solver, direction, block shape and resolution; every Riemann problem",
  "No test compares a computed flow with an exact solution.",
  ["hydro", "RiemannSolvers.h", "compute_dt/Compute_dt_hydro.cpp"], [("reconstruction and time integration", "hydro/HydroUpdate_utils.h")])
p("P13", "Restarting from a checkpoint continues the run as if it had not stopped",
  "A checkpoint written at any iteration restores, on any number of processes, the same leaves, field values, particles and attributes, iteration number, time and scalars bit for bit, and a run continued from it reaches the same states as the uninterrupted run up to rounding.",
  ["crash_points", "configurations", "inputs"], "every iteration at which the run may be stopped; every number of writing and reading processes; every physics selection",
  "The restart test uses one configuration and stops at one iteration on the same number of processes.",
  ["io/IOManager_checkpoint.cpp", "init/InitialConditions_restart.cpp", "DyabloTimeLoop.h", "utils/config/ConfigMap.h"],
  [("restart file writing", "io/IOManager_checkpoint.cpp"), ("restart file reading", "init/InitialConditions_restart.cpp")])
p("P14", "Output files describe the simulated state faithfully",
  "Every snapshot contains each leaf cell exactly once with its true position, level and owner, and each requested field and particle attribute with the value it has in the simulation (rounded to the selected precision), in matching order; the accompanying index files are well formed and refer to existing data of the stated size, with the time of the snapshot (to the digits printed).",
  ["configurations", "inputs", "histories"], "every mesh, partition, field selection, precision and particle set",
  "No test reads an output file back.",
  ["io/IOManager_hdf5.cpp", "utils/io"], [("HDF5 and XDMF writing", "io/IOManager_hdf5.cpp")])
p("P15", "Self-gravity solves the Poisson equation; imposed gravity is what was asked",
  "The potential computed from any density satisfies the discrete Poisson equation to the requested tolerance and the accelerations are minus its gradient, independent of the number of processes; constant and point-mass gravity give the prescribed acceleration at every cell, and gravity changes momentum and energy by the work of that acceleration.",
  ["inputs", "configurations"], "every density, mesh, boundary type, partition",
  "The test compares one two-sphere case with loose tolerance.",
  ["gravity/GravitySolver_cg.cpp", "gravity/GravitySolver_constant.cpp", "gravity/GravitySolver_point_mass.cpp", "hydro/HydroUpdate_utils.h"],
  [("conjugate gradient and gradient of the potential", "gravity/GravitySolver_cg.cpp")])
p("P16", "Particles are never lost, duplicated or altered, and move with their velocity",
  "Throughout a run with adaptation, motion and load balancing, every particle exists exactly once, keeps its attributes, lies inside the domain (wrapping around periodically) and on the process that owns its position. Each step moves it by its velocity (tracers: the gas velocity at its position; gravitating particles: velocity kicked by the local acceleration) times the time step.",
  ["histories", "inputs", "configurations"], "every particle set including positions on cell and domain borders, every mesh history, partition and time step",
  "Tests move a few particles once on one mesh.",
  ["particles/ParticleUpdate_NGP_move.cpp", "particles/ParticleUpdate_CIC_move.cpp", "particles/ParticleUpdate_tracers_move.cpp", "particles/ForeachParticle.h", "UserData_particles.h", "mpi/ViewCommunicator.cpp"],
  [("position update and periodic wrapping", "particles/ParticleUpdate_NGP_move.cpp"), ("redistribution", "particles/ForeachParticle.h")])
p("P17", "Projecting particles onto the grid conserves their mass",
  "The density projected from particles integrates to the total particle mass plus the gas mass, whatever the mesh, the partition and the particle positions, with each particle's mass placed in its own cell (nearest grid point) or shared among the cells overlapping its cloud (cloud in cell).",
  ["inputs", "configurations"], "every particle set, adaptive mesh, partition",
  "Tests project onto a uniform region; particles next to level changes, corners and process borders are not covered.",
  ["particles/ParticleUpdate_CIC_density.cpp", "particles/ParticleUpdate_NGP_density.cpp"], [("deposit and ghost reduction", "particles/ParticleUpdate_CIC_density.cpp")])
p("P18", "Domain borders behave as declared",
  "Across a reflecting border nothing flows: mass and (unmagnetised) energy in a closed box are conserved, and a gas flow mirrored at a wall equals the flow next to its mirror image (schemes using edge neighbours, and diffusion: on meshes of a single level). Across an absorbing border the state beyond the border is that of the cells next to it, so uniform flow leaves undisturbed; a periodic border joins opposite sides; each face follows its own setting.",
  ["inputs", "configurations"], "every combination of border types per face, state, scheme and mesh",
  "The unit test evaluates border cells of one linear field; it never runs a flow against a border.",
  ["boundary_conditions/BoundaryConditions.h", "hydro/CopyGhostBlockCellData.h", "hydro"], [("getBoundaryValue", "boundary_conditions/BoundaryConditions.h")])
p("P19", "The time loop steps stably, ends where told and writes when told",
  "Every time step is positive, the same on all processes and within the CFL limits of all selected physics; the run stops at the first of the iteration limit and the end time, which it reaches exactly without overshoot. Snapshots are written at the start, at the requested iteration and time intervals, and at the end, once each; checkpoints at the requested intervals and at the end.",
  ["configurations", "inputs", "histories"], "every combination of limits, intervals, restart points and dt criteria",
  "No test runs the time loop.",
  ["DyabloTimeLoop.h", "compute_dt/Compute_dt_hydro.cpp", "compute_dt/Compute_dt_particle_velocity.cpp", "compute_dt/Compute_dt_parabolic.cpp", "compute_dt/Compute_dt_cosmology.cpp"],
  [("triggers, stop criterion and dt correction", "DyabloTimeLoop.h")])
p("P20", "An interrupt ends the run cleanly on all processes with a usable checkpoint",
  "If any process receives an interrupt signal at any moment of the time loop, all processes stop after the same iteration, the final snapshot and checkpoint are written completely, the program exits successfully, and the run can be continued from that checkpoint as if it had not been interrupted.",
  ["fault_sequences", "crash_points", "schedules"], "every process receiving the signal and every moment at which it arrives",
  "No test sends a signal.",
  ["DyabloTimeLoop.h", "io/IOManager_checkpoint.cpp"], [("interrupt_handler and any_interrupted reduction", "DyabloTimeLoop.h")])
p("P21", "A run is determined by its parameter file, and the recorded one reproduces it",
  "Parameters read from a file have the written values whatever the case of the names, the spacing, comments or order; missing ones take their defaults; malformed numbers, unknown names of choices and negative numbers for unsigned parameters are refused. The parameter file the program records at start lists the value actually used for every parameter and, when given back to the program, reproduces the same run exactly.",
  ["inputs", "configurations"], "every parameter file",
  "No test writes a parameter file and runs it again.",
  ["utils/config/ConfigMap.h", "utils/config/inih/ini.cpp", "DyabloTimeLoop.h"], [("getValue, output", "utils/config/ConfigMap.h")])
p("P22", "Cosmological time and expansion factor correspond one to one per Friedmann",
  "Conversions between time and expansion factor are inverse to each other, increasing, and agree with the Friedmann integral for any matter/vacuum mix over the whole configured range including its ends, up to the accuracy of the configured table; a cosmological run starts at the configured expansion factor, limits each step's relative growth of the expansion factor as configured, and ends at the configured one.",
  ["inputs", "configurations"], "every cosmology and every time in the range",
  "No test covers the cosmology module.",
  ["Cosmo.h", "compute_dt/Compute_dt_cosmology.cpp", "DyabloTimeLoop.h"], [("lookup tables and Romberg integration", "Cosmo.h")])
p("P23", "Diffusive terms and cooling act the right way and conserve what they must",
  "In hydrodynamic runs viscosity applies the divergence of the stress of a compressible Newtonian fluid with the configured coefficient, and the work of that stress; thermal conduction applies the divergence of the configured conductivity times the temperature gradient, to the total energy only; both accurately for smooth fields. In a periodic domain viscosity conserves mass, momentum and total energy where cells have one size, conduction conserves energy on any mesh. Uniform velocity and temperature stay unchanged on any mesh, heat only flows from hot to cold, and the change of a cell depends only on its surroundings. Flux cooling takes the configured heat flux out of the cells along the lower border of the vertical direction and puts the same into those along the upper border, changing nothing else.",
  ["inputs", "configurations"], "every state, coefficient, mesh and partition",
  "No test covers these kernels.",
  ["parabolic/ParabolicUpdate_explicit.cpp", "parabolic/ParabolicTerm_viscosity.h", "parabolic/ParabolicTerm_thermal_conduction.h", "cooling/CoolingUpdate_FF.cpp"],
  [("parabolic fluxes", "parabolic/ParabolicUpdate_explicit.cpp")])
p("P24", "Refinement criteria mark exactly what their thresholds say",
  "Each refinement criterion refines a leaf when any of its cells exceeds the refinement threshold of that criterion, coarsens it when all its cells lie below the coarsening threshold, otherwise leaves it, and never asks to leave the configured range of levels; the marks do not depend on the partition.",
  ["inputs", "configurations"], "every state, mesh, threshold and partition",
  "No test evaluates a refinement criterion.",
  ["refine_condition/RefineCondition_second_derivative_error.cpp", "refine_condition/RefineCondition_pseudo_gradient.cpp", "refine_condition/RefineCondition_mass.cpp", "refine_condition/RefineCondition_helper.h"],
  [("mark_cells and set_markers", "refine_condition/RefineCondition_helper.h")])
p("P25", "Named fields and particle attributes behave as independent variables",
  "Through any sequence of creating, renaming, replacing and deleting fields and particle attributes, and of mesh changes in between, each live name refers to its own storage: it starts at zero, keeps its last written values, is unaffected by operations on other names, and misuse (duplicate or unknown names) is refused.",
  ["histories"], "every sequence of operations on names",
  "The test follows one fixed sequence.",
  ["UserData_fields.h", "UserData_particles.h", "UserData.h"], [("field_index and storage reallocation", "UserData_fields.h")])
p("P26", "No run reads or writes memory it does not own or relies on undefined behaviour",
  "For every supported configuration, mesh history and number of processes the program performs no out-of-bounds, use-after-free or uninitialised-pointer access, no undefined arithmetic, and no internal assertion fails.",
  ["inputs", "configurations", "histories"], "every supported configuration: physics, dimensions, block shape, mesh, process count",
  "Tests are built without sanitizers and with assertions off; reads beyond an array normally go unnoticed.",
  ["amr", "foreach_cell", "hydro", "io", "mpi", "particles", "Cosmo.h"], [("all array accesses", "foreach_cell/AMRBlockForeachCell_CellArray.h")])
p("P27", "Initial conditions put the documented problem on a well refined mesh",
  "Each built-in initial condition fills every cell with the admissible state of its documented definition at the cell centre for the given parameters (random perturbations within their amplitude and drawn from the given seed), on the mesh its refinement rule asks for, identically on any number of processes; initial particles have the given positions, velocities and masses; fields read from files or tiled from a checkpoint are those of the file.",
  ["inputs", "configurations"], "every built-in problem, parameter set, dimension, mesh and partition",
  "Only the blast is initialised by a test and its values are not inspected.",
  ["init/InitialConditions_analytical.h", "init/InitialConditions_blast.cpp", "init/InitialConditions_implode.cpp", "init/InitialConditions_riemann2d.cpp", "init/InitialConditions_kelvin_helmholtz.cpp", "init/InitialConditions_orszag_tang.cpp", "init/InitialConditions_sod.cpp"],
  [("analytical fill and refinement", "init/InitialConditions_analytical.h")])
p("P28", "Results do not depend on the units of the problem",
  "The same problem stated in other units of density, velocity and length (every parameter with a dimension converted) gives, state by state, the same meshes, times, fields and particles converted to those units: no hidden absolute scale enters the time step, the fluxes, the reconstruction, the refinement criteria, the sources, gravity or the motion of particles.",
  ["inputs", "configurations"], "every problem, choice of units, solver, dimension and partition",
  "Tests run one problem in one set of units, near one.",
  ["compute_dt/Compute_dt_hydro.cpp", "hydro/HydroUpdate_utils.h", "refine_condition/RefineCondition_second_derivative_error.cpp", "hydro/HydroUpdate_hancock.cpp", "hydro/HydroUpdate_euler.cpp", "parabolic/ParabolicUpdate_explicit.cpp", "gravity/GravitySolver_cg.cpp", "particles/ParticleUpdate_CIC_move.cpp"],
  [("refinement criteria and time step", "compute_dt/Compute_dt_hydro.cpp")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
