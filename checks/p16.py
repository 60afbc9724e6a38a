"""P16: every particle of recorded runs followed through motion, adaptation, load balancing and migration."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from workloads import domain

C = Check("P16", rule="evaluations: one particle in one recorded state compared with the previous state (identity, attributes, place, owner) or one particle in one motion step compared with the prescribed displacement; distinct: (motion, dimension, processes, threads) with particles that changed process or crossed a border")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
MOVES = ["ParticleUpdate_NGP_move", "ParticleUpdate_tracers_move", "ParticleUpdate_CIC_move"]

def cfg_of(R, k):
    mv = MOVES[k % 3]
    nd = R.pick([2, 3])
    lo, L = domain(R, nd)
    up = R.pick(["HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor", "MHDUpdate_euler"])
    x = {}
    fast = (k // 3) % 4 == 3      # particles that cross the domain several times in one step, gas at rest
    if "tracers" not in mv:
        x = dict(gravity__solver="GravitySolver_point_mass", gravity__gravity_type="constant_field", gravity__softening=0.2, gravity__point_mass_Gmass=R.pick([0.02, 0.3]))
        if not fast:
            x["dt__dt_kernel"] = "Compute_dt_hydro,Compute_dt_particle_velocity,vp_probe"
    if fast:
        x.update(vp__fixed_dt=R.pick([0.5, 1.0]), vp__amp=0.0, vp__vamp=0.0, vp__jump=1.0, vp__bamp=0.0, dt__dt_kernel="vp_probe", gravity__point_mass_Gmass=0.0)
        if "tracers" in mv:
            x.pop("gravity__point_mass_Gmass")
            x["vp__v0"] = [R.u(-5, 5), R.u(-5, 5), R.u(-5, 5) if nd == 3 else 0.0]
            x["dt__dt_kernel"], up = "vp_probe", "HydroUpdate_euler"
            x["vp__fixed_dt"] = 1e-3 if R.u() < 0.5 else 2e-2
    cfg = random_cfg(R, nd, up, steps=R.i(3, 7), particles__update_position="vpwrap_" + mv, vp__npart=R.pick([1, 40, 200, 400]), vp__pcluster=R.pick([0.0, 0.0, 0.8]), vp__pedge=R.u() < 0.4, vp__pvel=R.pick([0.3, 1.0, 3.0]) * (3 if fast else 1), **x)
    for a, n in enumerate("xyz"[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
        cfg["gravity/point_mass_" + n] = lo[a] + 0.4 * L[a]
    if nd == 2:
        cfg["gravity/point_mass_z"] = 0.0
    return cfg, mv, nd, lo, L, fast

def byid(s):
    p = s.particles()
    n = [len(r["p:particles:id"]) for r in s.ranks]
    p["rank"] = np.concatenate([np.full(c, i) for i, c in enumerate(n)]) if n else np.zeros(0, int)
    return p

def wrap(x, lo, L):
    return lo + np.mod(x - lo, L)

def one(k):
    R = Rand("p16", C.seed, k)
    cfg, mv, nd, lo, L, fast = cfg_of(R, k)
    lo, L = np.array(lo), np.array(L)
    N = cfg["vp/npart"]
    np_, th = R.pick([1, 2, 3, 4]), R.pick([1, 2, 4])
    w = Workload(C, exe, cfg, np_, th, ("init", "step", "premove", "postmove", "out"), timeout=150)
    what = "%s/%dD%s" % (mv[15:], nd, "/fast" if fast else "")
    if not C.run_ok(w.r, what, w.replay):
        return
    T = w.trace()
    prev, moved, crossed, near = None, 0, 0, 0
    for s in T:
        at = "%s np=%d %s of iteration %s" % (what, np_, s.tag, s.scal.get("iter"))
        P = byid(s)
        ids = P["id"]
        C.evals += max(1, len(ids))
        o = np.argsort(ids, kind="stable")
        if not C.require(len(ids) == N and (ids[o] == np.arange(N)).all(), what + ":set", lambda: at + ": %d particles instead of %d; missing %s, several times %s" % (len(ids), N, sorted(set(range(N)) - set(ids.astype(int).tolist()))[:5], sorted({int(i) for i in ids if (ids == i).sum() > 1})[:5]), w.replay):
            return
        P = {n: v[o] for n, v in P.items()}
        if not C.require(np.isfinite(P["pos"]).all(), what + ":nan", at + ": a position is not finite", w.replay):
            return
        if s.tag == "init":
            C.require(P["pos"].shape[0] == N, what + ":init", "", w.replay)
        inside = ((P["pos"] >= lo) & (P["pos"] < lo + L))[:, :nd].all(axis=1)
        bad = np.nonzero(~inside)[0]
        if not C.require(len(bad) == 0, what + ":outside", lambda: at + ": particle %d is at %s, outside the domain %s..%s" % (bad[0], P["pos"][bad[0]].tolist(), lo.tolist(), (lo + L).tolist()), w.replay):
            return
        G = Grid(s, lo, L)
        u = G.unit(P["pos"])
        if nd == 2:
            u[:, 2] = 0
        leaf, cell = G.find(u)
        edge = G.edge_distance(u)
        if s.tag != "postmove":
            own = s.rank[leaf]
            bad = np.nonzero((own != P["rank"]) & (edge > 1e-9))[0]
            if not C.require(len(bad) == 0, what + ":owner", lambda: at + ": particle %d at %s lies on process %d, but process %d owns that place" % (bad[0], P["pos"][bad[0]].tolist(), P["rank"][bad[0]], own[bad[0]]), w.replay):
                return
        if prev is not None:
            q, qs = prev
            C.count("particles_migrated", int((q["rank"] != P["rank"]).sum()))
            crossed += int((q["rank"] != P["rank"]).sum())
            keep = [n for n in P if n != "rank" and n in q]
            if s.tag == "postmove":
                crossed += move(what, at, mv, nd, lo, L, qs, q, P, s, w)
                keep = [n for n in keep if n not in ("pos", "vx", "vy", "vz")] + (["vx", "vy", "vz"] if "tracers" in mv else [])
                moved += 1
            C.require(set(q) <= set(P), what + ":attributes", at + ": attributes %s are gone" % (set(q) - set(P)), w.replay)
            for n in keep:
                d = np.nonzero((P[n] != q[n]).reshape(N, -1).any(axis=1))[0]
                C.require(len(d) == 0, what + ":altered:" + n, lambda: at + ": %s of particle %d changed from %s to %s" % (n, d[0], q[n][d[0]], P[n][d[0]]), w.replay)
        prev = (P, (s, G, leaf, cell, edge, u))
        if C.viol:
            return
    C.require(moved >= cfg["run/nstepmax"], what + ":moves", "%s: particles were moved in %d of %d steps" % (what, moved, cfg["run/nstepmax"]), w.replay)
    C.count("motion_steps", moved)
    if crossed:
        C.distinct.add("%s/np%d/th%d" % (what, np_, th))
    C.sample("%s np=%d: %d particles over %d states, %d border or process crossings" % (what, np_, N, len(T), crossed))
    w.clean()

def move(what, at, mv, nd, lo, L, qs, q, P, s, w):
    """One motion step, before -> after"""
    s0, G, leaf, cell, edge, u = qs
    dt = s.scal["dt"]
    N = len(u)
    C.evals += N
    V = np.stack([q["vx"], q["vy"], q["vz"]], 1)
    scale = lambda x: np.abs(x).max() + 1e-300
    ok = edge > 1e-9
    lowhigh = None
    if "tracers" in mv:
        gv = np.stack([s0.f(n)[leaf, cell] / s0.f("rho")[leaf, cell] for n in ("rho_vx", "rho_vy", "rho_vz")], 1)
        vel = gv
    else:
        g3 = np.stack([s0.f(n) for n in ("gx", "gy", "gz")], -1)
        if "NGP" in mv:
            g = g3[leaf, cell]
        else:
            g = np.zeros((N, 3))
            lo_, hi_ = np.full((N, 3), np.inf), np.full((N, 3), -np.inf)
            h = G.csize[leaf]
            same = np.ones(N, bool)
            for o in np.ndindex(3, 3, 3 if nd == 3 else 1):
                o = np.array([o[0] - 1, o[1] - 1, (o[2] - 1) if nd == 3 else 0])
                base = (np.floor(u / h) + 0.5 + o) * h
                if nd == 2:
                    base[:, 2] = 0
                fr = np.ones(N)
                for a in range(nd):
                    fr *= np.maximum(0.0, 1.0 - np.abs(u[:, a] - base[:, a]) / h[:, a])
                l2, c2 = G.find(base)
                val = g3[l2, c2]
                fine = s0.level[l2] > s0.level[leaf]
                if fine.any():      # a refined neighbour counts with the mean of its cells that touch the particle's cell
                    val = val.copy()
                    m = np.zeros((int(fine.sum()), 3))
                    sub = [[-0.25 * o[a]] if o[a] else [-0.25, 0.25] for a in range(nd)]
                    pts = list(itertools.product(*sub))
                    for p_ in pts:
                        x = base[fine].copy()
                        x[:, :nd] += np.array(p_) * h[fine][:, :nd]
                        l3, c3 = G.find(x)
                        m += g3[l3, c3] / len(pts)
                    val[fine] = m
                same &= (s0.level[l2] == s0.level[leaf]) | (fr == 0)
                g += fr[:, None] * val
            for o in np.ndindex(*([9] * nd)):
                x = u.copy()
                for a in range(nd):
                    x[:, a] += (o[a] - 4) / 4 * 1.6 * h[:, a]
                l2, c2 = G.find(x)
                lo_, hi_ = np.minimum(lo_, g3[l2, c2]), np.maximum(hi_, g3[l2, c2])
            lowhigh = (lo_, hi_, same)
            C.count("cic_particles_exact", int(ok.sum()))
            C.count("cic_particles_across_levels", int((ok & ~same).sum()))
        nv = np.stack([P["vx"], P["vy"], P["vz"]], 1)
        tol = 1e-12 * (scale(V) + dt * scale(g3)) 
        if "CIC" in mv:
            tol *= 100
        err = np.abs(nv - (V + dt * g))
        err[~ok] = 0
        if nd == 2:
            err[:, 2] = np.abs(nv - (V + dt * g))[:, 2] * ok
        i = int(err.max(axis=1).argmax()) if N else 0
        C.require(err.max() <= tol, what + ":kick", lambda: at + ": velocity of particle %d at %s went from %s to %s, expected %s" % (i, q["pos"][i].tolist(), V[i].tolist(), nv[i].tolist(), (V + dt * g)[i].tolist()), w.replay)
        if lowhigh is not None:
            lo_, hi_, same = lowhigh
            k = (nv - V) / dt
            e = np.maximum(lo_ - k, k - hi_)
            j = int(e.max(axis=1).argmax())
            C.require(e.max() <= 1e-10 * (scale(g3) + scale(V) / dt), what + ":kick-range", lambda: at + ": particle %d was accelerated by %s, outside the range %s..%s of the cells around it" % (j, k[j].tolist(), lo_[j].tolist(), hi_[j].tolist()), w.replay)
        vel = nv
        ok = np.ones(N, bool)
    tgt = q["pos"] + dt * vel
    d = P["pos"] - tgt
    n = np.round(d / L)
    d = d - n * L
    d[:, nd:] = 0
    err = np.abs(d).max(axis=1) * ok
    i = int(err.argmax())
    C.require(err.max() <= 1e-12 * (np.abs(lo).max() + L.max() + dt * scale(vel)), what + ":displacement", lambda: at + ": particle %d moved from %s with velocity %s for %.6g to %s" % (i, q["pos"][i].tolist(), vel[i].tolist(), dt, P["pos"][i].tolist()), w.replay)
    C.count("border_crossings", int((n[:, :nd] != 0).any(axis=1).sum()))
    return int((n[:, :nd] != 0).any(axis=1).sum())

guarded(C, lambda: pmap(one, range(72 if not C.thorough else 600), 4))
