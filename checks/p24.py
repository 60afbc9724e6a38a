"""P24: the adaptation after every evaluation of a refinement criterion against an independent evaluation of that criterion on the recorded state."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from vpmesh import adapted
from workloads import domain

C = Check("P24", rule="evaluations: one leaf whose mark (as seen in the mesh after the adaptation) was compared with the criterion; distinct: (criterion, dimension, borders, processes, leaves the criterion refined/kept/coarsened)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
CRIT = ["RefineCondition_second_derivative_error", "RefineCondition_pseudo_gradient", "RefineCondition_mass", "RefineCondition_downflows", "RefineCondition_legacy", "RefineCondition_mass/particles"]

def cfg_of(R, k):
    crit = CRIT[k % len(CRIT)]
    nd = R.pick([2, 2, 3])
    lo, L = domain(R, nd)
    x = dict(vp__inner_refine=crit.split("/")[0], vp__refine_prob=R.pick([0.2, 0.4, 0.6]), vp__kmax=R.pick([1, 2, 3]), vp__amp=R.pick([0.1, 0.3]), amr__cycle_frequency=R.pick([1, 1, 2]))
    up = R.pick(["HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor", "HydroUpdate_RK2"])
    if "second" in crit or "legacy" in crit:
        x.update(amr__error_min=R.u(0.03, 0.25), amr__error_max=R.u(0.25, 0.7))
    if "pseudo" in crit:
        if k // len(CRIT) % 3:      # cells that differ in every direction: which neighbour decides varies from leaf to leaf
            a = R.u(0.1, 0.35)
            t = 2 * a * R.u(0.75, 0.93)
            x.update(vp__noise=a, vp__vamp=0.02, amr__epsilon_refine=t, amr__epsilon_coarsen=t * R.u(0.6, 0.95))
        elif R.u() < 0.8:
            x.update(amr__epsilon_coarsen=R.u(0.02, 0.1), amr__epsilon_refine=R.u(0.1, 0.3))
    if "downflows" in crit:
        x.update(amr__velocity_coarsen=R.u(-0.1, 0.1), amr__velocity_refine=R.u(0.1, 0.3), amr__downflow_sign=R.pick([1.0, -1.0]))
        if R.u() < 0.5:
            up = R.pick(["MHDUpdate_euler", "GLMMHDUpdate_euler"])
    per = R.pick(["periodic", "periodic", "absorbing", "mixed"])
    cfg = random_cfg(R, nd, up, steps=5 if not C.thorough else 8, **x)
    # a box with leaves of different extents per direction must stay well resolved: the same cell counts, another size
    for a, n in enumerate("xyz"[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    if "mass" in crit:
        V = np.prod(L[:nd])
        cg = [cfg.get("amr/coarse_oct_resolution_" + a, 1 << cfg["amr/level_min"]) for a in "xyz"[:nd]]
        n = np.prod([c * cfg["amr/b" + a] for c, a in zip(cg, "xyz")])
        f = R.pick([0, 1, 2]) if cfg["amr/level_max"] - cfg["amr/level_min"] > 1 else R.pick([0, 1])
        ref = V / n / (2.0 ** nd) ** f
        cfg["amr/mass_refine"], cfg["amr/mass_coarsen"] = ref * R.u(0.9, 1.2), ref * R.u(0.1, 0.9) * (1 if R.u() < 0.5 else 2.0 ** -nd)
        if "particles" in crit:
            cfg["vp/npart"], cfg["particles/update_density"] = R.pick([30, 300]), "ParticleUpdate_NGP_density"
            cfg["vp/pcluster"] = R.pick([0.0, 0.5])
            cfg["amr/mass_refine"] *= 3
    cfg["exact"] = False
    if k // len(CRIT) % 5 == 4 and "particles" not in crit:     # gas at rest and uniform: quantities exactly equal to the thresholds
        cfg.update({"exact": True, "vp/amp": 0.0, "vp/vamp": 0.0, "vp/noise": 0.0, "vp/bamp": 0.0})
        at = R.pick(["refine", "coarsen", "both"])
        names = ("amr/velocity_coarsen", "amr/velocity_refine") if "downflows" in crit else ("amr/epsilon_coarsen", "amr/epsilon_refine") if "pseudo" in crit else ("amr/mass_coarsen", "amr/mass_refine") if "mass" in crit else ("amr/error_min", "amr/error_max")
        v = 0.0
        if "mass" in crit:
            cfg.update({"vp/rho0": 1.0, "amr/bx": 4, "amr/by": 4, "amr/bz": 4 if nd == 3 else 1})
            for a in "xyz"[:nd]:
                cfg.pop("amr/coarse_oct_resolution_" + a, None)
                cfg["mesh/%smin" % a], cfg["mesh/%smax" % a] = 0.0, 1.0
            lo, L = [0.0] * 3, [1.0] * 3
            v = 2.0 ** (-nd * (2 + cfg["amr/level_min"] + R.pick([0, 1])))
        cfg[names[0]] = v if at != "refine" else v - R.u(0.1, 0.5) * (v or 1.0)
        cfg[names[1]] = v if at != "coarsen" else v + R.u(0.1, 0.5) * (v or 1.0)
    pa = []
    for a in "xyz":
        t = per if per != "mixed" else R.pick(["periodic", "absorbing", "reflecting"] if "MHD" not in up else ["periodic", "absorbing"])
        for s in ("min", "max"):
            cfg["mesh/boundary_type_%s%s" % (a, s)] = t
        pa.append(t == "periodic")
    return cfg, crit, nd, lo, L, per, pa

def prim_p(u, g):
    return np.maximum((g - 1) * (u[1] - 0.5 * (u[2] ** 2 + u[3] ** 2 + u[4] ** 2) / u[0]), 0)

def measure(s, G, cfg, crit, nd, pa, L):
    """per cell: the criterion's quantity, thresholds (coarsen <=, refine >), and its uncertainty"""
    if crit == "RefineCondition_downflows":
        v = cfg["amr/downflow_sign"] * s.f("rho_v" + "xyz"[nd - 1]) / s.f("rho")
        return v, cfg["amr/velocity_coarsen"], cfg["amr/velocity_refine"], np.zeros(len(v), bool)
    if crit.startswith("RefineCondition_mass"):
        V = G.vol()
        m = s.f("rho") * V[:, None]
        bad = np.zeros(len(m), bool)
        if "particles" in crit:
            m = m.copy()
            P = s.particles()
            u = G.unit(P["pos"])
            if nd == 2:
                u[:, 2] = 0
            leaf, cell = G.find(u)
            np.add.at(m, (leaf, cell), P["mass"])
            for i in np.nonzero(G.edge_distance(u) < 1e-9)[0]:
                d = 1e-7 * (np.array(np.meshgrid(*[[-1, 1]] * 3)).reshape(3, -1).T)
                bad[G.find(u[i][None] + d)[0]] = True
        return m, cfg["amr/mass_coarsen"], cfg["amr/mass_refine"], bad
    # neighbours: the values of the (up to 2^nd) cells in the place of the same-size neighbour
    c, h = G.centers(), G.csize
    n, nc = c.shape[:2]
    sub = np.array([[(b >> a & 1) - 0.5 if a < nd else 0.0 for a in range(3)] for b in range(2 ** nd)])
    def look(axis, sign, face):
        """leaf, cell [leaf, cell, sub] of the neighbouring places; face: only those touching the cell. outside: beyond a border"""
        off = np.zeros(3)
        off[axis] = sign
        p = c + off * h[:, None, :]
        outside = (p[..., axis] < 0) | (p[..., axis] > 1) if not pa[axis] else np.zeros((n, nc), bool)
        q = p[:, :, None, :] + 0.5 * sub[None, None] * h[:, None, None, :]
        keep = (sub[:, axis] * sign < 0) if face else np.ones(len(sub), bool)
        q = q[:, :, keep]
        lf, ce = G.find(q.reshape(-1, 3))
        return lf.reshape(n, nc, -1), ce.reshape(n, nc, -1), outside
    bad = np.zeros(n, bool)
    if crit == "RefineCondition_pseudo_gradient":
        r = s.f("rho")
        best = np.zeros((n, nc))
        for a in range(nd):
            for sg in (-1, 1):
                lf, ce, out = look(a, sg, True)
                q = r[lf, ce]
                m = np.maximum(np.abs(q), np.abs(r[..., None]))
                d = np.where(m < 0.001, 0.0, np.clip(np.abs(q - r[..., None]) / m, 0, 1)).max(axis=2)
                best = np.maximum(best, np.where(out, 0, d))
        return best, cfg.get("amr/epsilon_coarsen", 0.002), cfg.get("amr/epsilon_refine", 0.001), bad
    U = np.stack([s.f("rho"), s.f("e_tot"), s.f("rho_vx"), s.f("rho_vy"), s.f("rho_vz")])
    if nd == 2:
        U[4] = 0
    g = cfg["hydro/gamma0"]
    own = [U[0], prim_p(U, g)]
    best = np.zeros((n, nc))
    for a in range(nd):
        nb = []
        for sg in (-1, 1):
            lf, ce, out = look(a, sg, False)
            M = U[:, lf, ce].mean(axis=3)
            nb.append([np.where(out, o, q) for o, q in zip(own, (M[0], prim_p(M, g)))])
        for q, l, r in zip(own, *nb):
            fr, fl = r - q, l - q
            best = np.maximum(best, np.abs(fr + fl) / (np.abs(fr) + np.abs(fl) + 0.01 * (np.abs(r) + np.abs(l) + 2 * np.abs(q)) + 2.2e-16))
    return best, cfg["amr/error_min"], cfg["amr/error_max"], bad

def one(k):
    R = Rand("p24", C.seed, k)
    cfg, crit, nd, lo, L, per, pa = cfg_of(R, k)
    exact = cfg.pop("exact")
    np_, th = R.pick([1, 2, 3, 4]), R.pick([1, 3])
    w = Workload(C, exe, cfg, np_, th, ("preamr", "postamr"), timeout=120)
    key = "%s/%dD/%s/np%d" % (crit[16:], nd, per, np_)
    if not C.run_ok(w.r, key, w.replay):
        w.clean()
        return
    T = w.trace()
    for s, t in zip(T[:-1], T[1:]):
        if s.tag != "preamr" or t.tag != "postamr":
            continue
        if not all(np.isfinite(s.f(f)).all() for f in s.fields):
            C.count("states_not_finite")
            continue
        G = Grid(s, lo, L)
        m, lowt, hight, bad = measure(s, G, cfg, crit, nd, pa, L)
        best = m.max(axis=1)
        mark = np.where(best > hight, 1, np.where(best <= lowt, -1, 0))
        tol = 1e-9 * max(abs(hight), abs(lowt), 1e-3 if "mass" not in crit else 0)
        unsure = bad | (np.abs(best - hight) < tol) | (np.abs(best - lowt) < tol)
        if exact:
            C.count("leaves_exactly_at_a_threshold", int(((best == hight) | (best == lowt)).sum()))
            unsure &= (best != hight) & (best != lowt)
        lmin, lmax = cfg["amr/level_min"], cfg["amr/level_max"]
        if unsure.any():
            C.count("adaptations_hinging_on_rounding")
            continue
        want = adapted(G, mark, pa, lmin, lmax)
        have = set((int(l), int(x), int(y), int(z)) for x, y, z, l in t.oct)
        C.count("leaves_refined", int((mark > 0).sum())); C.count("leaves_coarsened", int((mark < 0).sum())); C.count("leaves_kept", int((mark == 0).sum()))
        with C.lock:
            C.evals += len(mark)
            C.distinct.add("%s %s" % (key, "".join(c for c, v in zip("r=c", (1, 0, -1)) if (mark == v).any())))
        if want != have:
            a, b = sorted(want - have)[:4], sorted(have - want)[:4]
            C.violation("marks:" + crit, "%s iteration %s: leaves the criterion asks for and missing: %s (%d), not asked for and present: %s (%d); thresholds %s %s" % (key, s.scal.get("iter"), a, len(want - have), b, len(have - want), lowt, hight), w.replay)
            break
    C.sample("%s: %d leaves" % (key, len(T[0].oct)) if T else key)
    w.clean()

guarded(C, lambda: pmap(one, range(216 if not C.thorough else 720), 6))
