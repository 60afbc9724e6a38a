"""P19: every time step, end and output of recorded runs against an independent computation from the recorded states."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from workloads import domain

C = Check("P19", rule="evaluations: one time step (sign, agreement of processes, limits of every selected physics), end of run or list of outputs of a recorded run; distinct: (limits, dimension, end rule, output rule, processes)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
UPD = ["HydroUpdate_euler", "MHDUpdate_euler", "HydroUpdate_hancock_oneneighbor", "GLMMHDUpdate_euler", "HydroUpdate_RK2", "MHDUpdate_RK2", "HydroUpdate_hancock", "MHDUpdate_hancock_oneneighbor"]

def cfg_of(R, k):
    nd = R.pick([2, 3])
    lo, L = domain(R, nd)
    up = UPD[k % len(UPD)]
    x = {}
    ker = ["Compute_dt_hydro"]
    if k % 3 == 1:
        ker.append("Compute_dt_particle_velocity")
        x.update(gravity__solver="GravitySolver_point_mass", gravity__gravity_type="constant_field", gravity__softening=0.2, gravity__point_mass_Gmass=0.02, particles__update_position="ParticleUpdate_NGP_move",
                 vp__npart=R.pick([1, 50]), vp__pvel=R.pick([0.1, 20.0]), dt__particle_cfl=R.pick([0.2, 0.5]), amr__load_balancing_frequency=1)
    if k % 3 == 2 and "MHD" not in up:
        ker.append("Compute_dt_parabolic")
        x.update(dt__parabolic_cfl=R.pick([0.1, 0.25]))
        if R.u() < 0.7:
            x.update(viscosity__update="ParabolicUpdate_explicit", viscosity__mu=R.pick([1e-4, 1e-2, 0.1]))
        if R.u() < 0.7 or "viscosity__update" not in x:
            x.update(thermal_conduction__update="ParabolicUpdate_explicit", thermal_conduction__kappa=R.pick([1e-4, 1e-2, 0.1]), thermal_conduction__diffusivity_mode="constant")
    if R.u() < 0.5:
        ker = ker[::-1]
    x["dt__dt_kernel"] = ",".join(["vp_probe"] + ker)
    cfg = random_cfg(R, nd, up, steps=4, output__backend="IOManager_vp", output__checkpoint="IOManager_ckvp", run__enable_output=True, run__enable_checkpoint=True, **x)
    for a, n in enumerate("xyz"[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
        cfg["gravity/point_mass_" + n] = lo[a] + 0.4 * L[a]
    if nd == 2:
        cfg["gravity/point_mass_z"] = 0.0
    cfg["amr/cycle_frequency"] = R.pick([1, 1, 2, 3, 0, -1])
    if R.u() < 0.6:         # the limits hold in flows of either direction along every axis
        cfg["vp/v0"] = [R.pick([-3.0, -1.0, 1.0, 3.0]) * R.u() if a < nd else 0.0 for a in range(3)]
        if R.u() < 0.5:
            d = R.i(0, nd - 1)
            cfg["vp/v0"] = [v if a == d else 0.0 for a, v in enumerate(cfg["vp/v0"])]
    if "MHD" in up and R.u() < 0.7:
        cfg["vp/b0"] = [R.pick([-6.0, -2.0, 2.0, 6.0]) * R.u() for a in range(3)]
    return cfg, ker, nd, lo, L, up

def limit(s, cfg, ker, nd, lo, L, up):
    """largest stable time step of a state according to the documented limits"""
    G = Grid(s, lo, L)
    h = G.sizes()[:, None, :]
    out = {}
    g = cfg["hydro/gamma0"]
    rho = s.f("rho")
    v = [s.f("rho_v" + a) / rho for a in "xyz"]
    e = s.f("e_tot") - 0.5 * rho * sum(x * x for x in v)
    mhd = "MHD" in up
    if mhd:
        B = [s.f("B" + a) for a in "xyz"]
        b2 = sum(x * x for x in B)
        e = e - 0.5 * b2
    p = np.maximum((g - 1) * e, 0)
    c = np.sqrt(g * p / rho)
    inv = sum((c + np.abs(v[a])) / h[..., a] for a in range(nd)).max()
    if mhd:
        hyd = inv
        for a in range(nd):
            bn2, A = B[a] ** 2 / rho, c * c + b2 / rho
            cf = np.sqrt(0.5 * (A + np.sqrt(np.maximum(A * A - 4 * c * c * bn2, 0))))
            q = (np.abs(v[a]) + cf) / h[..., a]
            inv = max(inv, q.max())
            i = np.unravel_index(q.argmax(), q.shape)
            if q.max() > hyd:
                C.count("limits_set_by_a_magnetic_wave_" + ("up" if v[a][i] > 0 else "down"))
    out["hydro"] = cfg["dt/hydro_cfl"] / inv
    if "Compute_dt_particle_velocity" in ker:
        P = s.particles()
        u = G.unit(P["pos"])
        if nd == 2:
            u[:, 2] = 0
        leaf, _ = G.find(u)
        vel = np.sqrt(sum(P["v" + a] ** 2 for a in "xyz"[:nd]))
        ok = G.edge_distance(u) > 1e-9
        if ok.any():
            out["particles"] = cfg["dt/particle_cfl"] / (vel / G.sizes()[leaf][:, :nd].min(axis=1))[ok].max()
    if "Compute_dt_parabolic" in ker:
        D = 0
        if cfg.get("viscosity/update"):
            D = max(D, cfg["viscosity/mu"])
        if cfg.get("thermal_conduction/update"):
            D = max(D, cfg["thermal_conduction/kappa"])
        if D:
            out["diffusion"] = cfg["dt/parabolic_cfl"] / (D / G.sizes()[:, :nd].min() ** 2)
    return out

def expected(states, freq, tslice, first, last=True):
    """iterations at which a snapshot is due; states: (iteration, time) of every state, the final one included. Second value: iterations that hinge on rounding"""
    due, unsure = set(), set()
    it0, t0 = states[0]
    if first:
        due.add(it0)
    pt = t0
    for it, t in states[1:-1]:
        if freq and freq > 0 and it % freq == 0:
            due.add(it)
        if tslice and tslice > 0:
            a, b = pt / tslice, t / tslice
            if np.floor(b) > np.floor(a):
                due.add(it)
            if min(abs(x - round(x)) for x in (a, b)) < 1e-9 * max(1, abs(b)):
                unsure.add(it)
        pt = t
    due.add(states[-1][0])
    unsure.discard(states[-1][0])
    return due, unsure

def one(k):
    R = Rand("p19", C.seed, k)
    cfg, ker, nd, lo, L, up = cfg_of(R, k)
    np_, th = R.pick([1, 2, 3, 4]), R.pick([1, 2])
    # a first guess of the time step fixes the scale of the end time and intervals
    guess = 0.02 * min(L[:nd]) / (2 ** cfg["amr/level_max"])
    end = ["steps", "time", "both", "first", "start_at_end"][k % 5] if k % 10 != 9 else "start_at_iter"
    cfg["run/nstepmax"] = R.i(1, 7)
    t0 = R.pick([0.0, 0.0, 0.3, -1.0]) if end != "steps" else 0.0
    i0 = R.pick([0, 0, 5])
    if t0:
        cfg["run/tStart"] = t0
    if i0:
        cfg["run/iter_start"] = i0
        cfg["run/nstepmax"] += i0
    if end in ("time", "both", "first"):
        cfg["run/tEnd"] = t0 + guess * {"time": R.u(2, 8), "both": R.u(1, 10), "first": R.u(0.01, 0.3)}[end]
        cfg["run/use_tEnd"] = True
        if end in ("time", "first"):
            cfg["run/nstepmax"] = R.pick([-1, 0, 400])
    if end == "start_at_end":
        cfg["run/tEnd"] = t0 - R.pick([0.0, 0.01])
        cfg["run/use_tEnd"] = True
    if end == "start_at_iter":
        cfg["run/iter_start"] = i0 = 5
        cfg["run/nstepmax"] = R.i(2, 5)
    freq, cfreq = R.pick([-1, 0, 1, 2, 3]), R.pick([-1, 0, 1, 2, 3])
    ts, cts = R.pick([-1.0, guess * R.u(0.2, 4), guess * R.u(1, 3), 0.0]), R.pick([-1.0, guess * R.u(0.5, 4)])
    cfg["run/output_frequency"], cfg["run/checkpoint_frequency"] = freq, cfreq
    cfg["run/output_timeslice"], cfg["run/checkpoint_timeslice"] = ts, cts
    w = Workload(C, exe, cfg, np_, th, ("step", "out", "ckpt"), timeout=200)
    what = "%s/%dD/%s" % ("+".join(sorted(x[11:] for x in ker)), nd, end)
    if not C.run_ok(w.r, what, w.replay):
        return
    T = w.trace()
    S = [s for s in T if s.tag == "step"]
    O = [s for s in T if s.tag == "out"]
    K = [s for s in T if s.tag == "ckpt"]
    at = "%s np=%d" % (what, np_)
    C.evals += 1
    for s in T:
        a = {(m["scalars"]["iter"], m["scalars"]["time"], m["scalars"].get("dt")) for m in s.metas}
        C.require(len(a) == 1, what + ":agree", lambda: at + ": processes disagree on iteration, time and time step: %s" % sorted(a, key=str), w.replay)
    if not C.require(O and K, what + ":final", at + ": no final snapshot or checkpoint", w.replay):
        return
    F = O[-1]
    states = [(s.scal["iter"], s.scal["time"]) for s in S] + [(F.scal["iter"], F.scal["time"])]
    C.require(states[0] == (i0, t0), what + ":start", at + ": the run starts at iteration %s, time %r instead of %s, %r" % (states[0] + (i0, t0)), w.replay)
    tend = cfg.get("run/tEnd") if cfg.get("run/use_tEnd") else None
    nmax = cfg["run/nstepmax"] if cfg["run/nstepmax"] > 0 else None
    done = lambda it, t: (nmax is not None and it >= nmax) or (tend is not None and t >= tend)
    C.require([i for i, _ in states] == list(range(i0, i0 + len(states))), what + ":count", at + ": iterations %s" % [i for i, _ in states], w.replay)
    for (i, t) in states[:-1]:
        C.require(not done(i, t), what + ":late", at + ": a step is made from iteration %d, time %r although the limits are %s and %s" % (i, t, nmax, tend), w.replay)
    C.require(done(*states[-1]), what + ":early", at + ": the run ends at iteration %d, time %r; limits %s and %s" % (states[-1] + (nmax, tend)), w.replay)
    if tend is not None and t0 < tend:
        C.require(states[-1][1] <= tend * (1 + 4e-16) + 1e-300 if tend > 0 else states[-1][1] <= tend + 1e-15, what + ":overshoot", at + ": ends at time %r, beyond %r" % (states[-1][1], tend), w.replay)
    for j, s in enumerate(S):
        C.evals += 1
        (i, t), (_, t2) = states[j], states[j + 1]
        dt = S[j + 1].scal["dt"] if j + 1 < len(S) else F.scal["dt"]
        if not C.require(dt is not None and np.isfinite(dt) and dt > 0, what + ":positive", at + ": time step of iteration %d is %r" % (i, dt), w.replay):
            break
        C.require(abs(t2 - (t + dt)) <= 1e-15 * (abs(t) + dt), what + ":advance", at + ": iteration %d goes from %r by %r to %r" % (i, t, dt, t2), w.replay)
        for n, m in limit(s, cfg, ker, nd, lo, L, up).items():
            C.count("limits_checked_" + n)
            C.require(dt <= m * (1 + 1e-9), what + ":limit:" + n, at + ": the time step of iteration %d is %.12g, the limit of %s is %.12g" % (i, dt, n, m), w.replay)
    for name, X, fr, sl, first in (("snapshot", O, freq, ts, True), ("checkpoint", K, cfreq, cts, False)):
        got = [s.scal["iter"] for s in X]
        due, unsure = expected(states, fr, sl, first)
        C.evals += 1
        C.require(len(got) == len(set(got)) and set(got) - unsure == due - unsure, what + ":" + name, at + ": %ss at iterations %s instead of %s (every %s iterations, every %s of time; times %s)" % (name, got, sorted(due), fr, sl, states), w.replay)
        C.count(name + "s", len(got))
    if cfg["amr/cycle_frequency"] != 1:
        f = cfg["amr/cycle_frequency"]
        for a, b in zip(S, S[1:]):
            if f <= 0 or b.scal["iter"] % f:
                C.require(set(map(tuple, a.oct.tolist())) == set(map(tuple, b.oct.tolist())), what + ":cycle", at + ": the mesh changed at iteration %d, adaptation is every %d" % (b.scal["iter"], f), w.replay)
    C.count("steps", len(S))
    C.distinct.add("%s/out %d,%d/ck %d,%d/np%d" % (what, freq, ts > 0, cfreq, cts > 0, np_))
    C.sample("%s: %d steps to %r, snapshots %s" % (at, len(S), states[-1][1], [s.scal["iter"] for s in O]))
    w.clean()

guarded(C, lambda: pmap(one, range(60 if not C.thorough else 600), 4))
