#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a checks/pNN.py is claimed, the others are listed with a reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Judges the executions of the listed workloads only; trusts the recorders in /verif/monitors (they use the public accessors of the code), MPI, Kokkos and the compiler."
T = {
 "P01": ("runtime monitor over seeded mesh histories (mon_mesh, mon_cells)", "After every adaptation/load balance of seeded histories on 1-7 processes the gathered leaves are compared with a dense model. " + TRUST),
 "P02": ("runtime monitor over seeded mesh histories against an independent model of adaptation (mon_mesh, mon_cells)", "Every adaptation's leaves compared with the least change that keeps 2:1 and whole sibling groups. " + TRUST),
 "P03": ("runtime monitor: every neighbour/position query against a dense model of the gathered mesh (mon_mesh, mon_cells)", "All leaf neighbour queries of every state, sampled cell neighbour and position queries. " + TRUST),
 "P04": ("runtime monitor: poisoned ghosts and integer contributions around every exchange/reduction (mon_mesh, mon_cells)", "Both communicators, depths 1-4, random field subsets, 1-7 processes. " + TRUST),
 "P05": ("runtime monitor: global model of leaves, fields and particles across every load balance (mon_mesh, mon_cells)", "Values bit for bit, boundaries within one group of siblings of the even split. " + TRUST),
 "P06": ("runtime monitor: every cell value after adaptation+remap against a global model (mon_cells)", "Kept, refined and coarsened cells of every field. " + TRUST),
 "P25": ("runtime monitor: global model of named fields/attributes over seeded operation histories (mon_cells)", "Create, write, rename, delete, misuse, interleaved with mesh changes. " + TRUST),
 "P07": ("monitoring of recorded runs: conservation ledger over every update, remap and load balance", "Every recorded state of seeded AMR+MPI+thread runs of all update schemes: totals constant to 3e-13 relative. " + TRUST),
 "P08": ("runtime monitor: the program's own flux functions and conversions on millions of seeded pairs of states, judged against the equations and an independent implementation of the published solvers (sanitized too)", "Eleven classes of states (strong shocks, near vacuum, supersonic, magnetised, resonant, no field...), HLLC, HLLD, five waves, with and without divergence cleaning; consistency, mirror, rotation, upwinding, contacts, Alfven discontinuities, small jumps. " + TRUST),
 "P09": ("monitoring of recorded runs: state-by-state comparison between partitions", "Seeded simulations over all physics kinds on 1 process and on 2-7 processes with random load balancing: leaves, scalars, every field and particle of every recorded state. " + TRUST),
 "P10": ("ThreadSanitizer on whole simulations and histories, plus bit comparison of recorded states between thread counts", "libgomp and Kokkos barriers are made visible to TSan; reports between two accesses of Kokkos' own lock-free code are set aside. " + TRUST),
 "P13": ("monitoring of recorded runs: states of runs continued from checkpoints compared with the uninterrupted run", "Checkpoints of seeded runs over all physics kinds, written and read on different numbers of processes: restored state bit for bit, continuation to rounding. " + TRUST),
 "P16": ("runtime monitor: every particle followed through every recorded state and motion step", "Identity, attributes, place, owner after every step; displacement and kick of every motion against an independent computation (cloud in cell with the mean of smaller cells touched). Periodic domains: the code always wraps positions. " + TRUST),
 "P17": ("runtime monitor around every particle projection of recorded runs, against an independent projection", "Nearest grid point cell by cell; cloud in cell likewise, with the even share of smaller cells; mass balance, sign and support; several domains and processes. " + TRUST),
 "P11": ("monitoring of recorded runs: mirrored, axis-exchanged and shifted runs against the original, state by state", "All physics kinds, border mixes, non-cubic blocks, grids and domains. " + TRUST),
 "P14": ("runtime monitor: every output file read back by an independent reader and compared with the state recorded when it was written", "HDF5 data, connectivity, particle files and XMF indices of seeded runs. " + TRUST),
 "P18": ("monitoring of recorded runs: flux balance of every step through every face, mirror-image runs, uniform flows, shifted runs", "All updates, mixes of border types, with gravity and diffusion. " + TRUST),
 "P19": ("runtime monitor over recorded steps, outputs and checkpoints against an independent model of time stepping and of the triggers", "Time-step bounds recomputed from the recorded states. " + TRUST),
 "P20": ("runtime monitor under injected signals: SIGINT at chosen or random moments on chosen processes", "Exit, agreement of all processes, outputs and the continuation are compared with an uninterrupted run. " + TRUST),
 "P15": ("runtime monitor: discrete Poisson equation, gradient and imposed fields of every recorded gravity solution, and the work gravity does in runs", "Residual of the equation and gradient recomputed from the recorded potential on the recorded mesh; equal runs with the field given as constant and as point mass. " + TRUST),
 "P22": ("runtime monitor: the conversions of the cosmology module and every state of cosmological runs against an independent quadrature of the Friedmann equation", "Errors up to that of the linear interpolation of the configured table are accepted. " + TRUST),
 "P24": ("runtime monitor: the refinement decision of every cell of recorded adaptations against an independent evaluation of the criterion and of the resulting mesh", "All five criteria, thresholds, border kinds and domains; cells whose decision hinges on rounding are set aside. " + TRUST),
 "P23": ("runtime monitor: change of every cell by diffusion and cooling in recorded steps against high-order derivatives of the recorded state, conservation ledgers, and runs on refined against uniform meshes", "Hydrodynamic runs; accuracy is judged on meshes of one size, refined meshes by locality, sign and uniform states. " + TRUST),
 "P21": ("runtime monitor: every parameter of seeded files as read by the program's ConfigMap against an independent reader (sanitized), and whole runs repeated bit for bit from their recorded file", "Files with any spacing, case, comments, order, malformed values; physics of every kind, shipped settings. " + TRUST),
 "P12": ("monitoring of recorded runs against exact solutions: plane waves, Alfven waves, vortices, Riemann problems, contacts, at two resolutions", "Every scheme and solver, directions, oblique waves, refined and moving meshes; exact eigenvectors, exact gas Riemann solutions, an independent 1D MHD solver for MHD jumps. Bounds on the error are 1.4 times the largest seen over 250 flows; a defect that stays below them and keeps the order is not seen. " + TRUST),
 "P27": ("monitoring of recorded initial states against the written definitions of every built-in problem", "Analytic problems with random parameters, domains, blocks, levels, processes: every cell and the set of leaves; random perturbations within amplitude and dependent on the seed; particle lists and grids, grafic files of both byte orders, tiled restarts. The blast's quadrants are only claimed for the unit domain. " + TRUST),
 "P28": ("differential monitoring of recorded state traces: the same problem stated in other units (powers of two) compared with the original run", "12 physics kinds with uniform, point-mass and self gravity, AMR, particles, 1-2 processes; diffusion keeps its density unit and GLM its length unit; tolerance from rounding only. " + TRUST),
 "P26": ("AddressSanitizer and UndefinedBehaviorSanitizer with internal assertions on whole simulations and histories", "All physics kinds, 1-4 processes, with output and checkpoints. " + TRUST),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = "checks/%s.py" % p.lower()
    if p in T and os.path.exists(os.path.join(V, f)):
        checks.append({"property": p, "quick_cmd": "python3-vt %s quick" % f, "thorough_cmd": "python3-vt %s thorough" % f, "evidence_file": "evidence/%s.json" % p,
                       "technique": T[p][0], "level": "exploration", "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the monitors attach through dyablo's own factories and are added to the build with CMAKE_PROJECT_dyablo_INCLUDE", "source_commits": []},
           "checks": checks, "not_applicable": na, "notes": "See DESIGN.md"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
