"""P15: recorded potentials and accelerations against the discrete Poisson equation; pairs of runs with and without gravity against the work of the recorded acceleration."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from vpcompare import same_leaves
from workloads import domain

C = Check("P15", rule="evaluations: one cell whose potential/acceleration, or whose change of momentum and energy by gravity, was compared; distinct: (solver, scheme or criterion, dimension, borders, projection, processes)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
SCH = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock", "HydroUpdate_hancock_oneneighbor", "MHDUpdate_euler", "MHDUpdate_RK2", "MHDUpdate_hancock", "MHDUpdate_hancock_oneneighbor", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2", "HydroUpdate_legacy"]

def box(cfg, nd, lo, L):
    for a, n in enumerate("xyz"[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]

def borders(R, cfg, kinds):
    bt = {}
    for a in "xyz":
        t = [R.pick(kinds)] * 2
        if t[0] != "periodic" and R.u() < 0.4:
            t[1] = R.pick([k for k in kinds if k != "periodic"])
        for i, s in enumerate(("min", "max")):
            cfg["mesh/boundary_type_%s%s" % (a, s)] = t[i]
        bt[a] = t
    return bt

def poisson(k):
    R = Rand("p15cg", C.seed, k)
    lo, L = domain(R, 3)
    den = ["none", "ParticleUpdate_NGP_density", "ParticleUpdate_CIC_density", "none"][k % 4]
    cosmo = k % 5 == 4
    eps = R.pick([1e-3, 1e-6, 1e-10])
    x = dict(gravity__solver="vpwrap_GravitySolver_cg", gravity__gravity_type="field", gravity__CG_eps=eps, vp__mark_refine=0.1, vp__amp=R.pick([0.1, 0.5]))
    if den != "none":
        x.update(vp__npart=R.pick([20, 300]), particles__update_density=den, vp__pcluster=R.pick([0.0, 0.6]))
    uniform = den == "none" and k % 8 == 0   # nothing to attract: no acceleration
    if uniform:
        x.update(vp__amp=0.0, vp__jump=1.0, vp__vamp=0.0, vp__rho0=R.pick([1.0, 0.1, 0.7, 3.3]))
    lmin = R.pick([1, 2])
    cfg = random_cfg(R, 3, R.pick(["HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor"]), steps=3, lmin=lmin, lmax=lmin + R.pick([1, 1, 2]) if lmin == 1 else 3, bs=R.pick([4, 4, (4, 6, 4)]), cg=None, **x)
    box(cfg, 3, lo, L)
    G4 = R.pick([1.0, 12.5])
    cfg["gravity/4_Pi_G"] = G4
    if cosmo:
        cfg.update({"cosmology/active": True, "cosmology/aStart": 0.3, "cosmology/aEnd": 0.9, "cosmology/omega_m": 0.3, "cosmology/omega_v": 0.7})
    kinds = ["periodic", "periodic", "absorbing", "reflecting"] if R.u() < 0.6 and den != "ParticleUpdate_CIC_density" else ["periodic"]
    bt = borders(R, cfg, kinds)
    np_ = R.pick([1, 2, 3, 4])
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("grav",), timeout=120)
    key = "cg/%s/%s%s/np%d" % (den[15:18], "-".join("".join(t[0] for t in bt[a]) for a in "xyz"), "/cosmo" if cosmo else "", np_)
    if not C.run_ok(w.r, key, w.replay):
        w.clean(); return
    for s in w.trace():
        G = Grid(s, lo, L)
        h, c, hu = G.sizes(), G.centers(), G.csize
        V = G.vol()
        phi, rho = s.f("gphi"), s.f("rho")
        n, nc = phi.shape
        mean = (rho * V[:, None]).sum() / np.prod(L)
        b = -(6 * s.scal["aexp"] * (rho / mean - 1) if cosmo else G4 * (rho - mean)) * V[:, None]
        A = np.zeros((n, nc))
        dist_all = []
        for a in range(3):
            S = V / h[:, a]
            g = np.zeros((n, nc))
            for i, sg in enumerate((-1, 1)):
                off = np.zeros(3); off[a] = sg
                p = c + off * hu[:, None, :]
                out = (p[..., a] < 0) | (p[..., a] > 1) if bt["xyz"[a]][i] != "periodic" else np.zeros((n, nc), bool)
                q = np.stack([p + 0.5 * np.array(d) * hu[:, None, :] for d in [[-0.5 * sg if x == a else v for x, v in enumerate(e)] for e in [(u1, u2, u3) for u1 in (-0.5, 0.5) for u2 in (-0.5, 0.5) for u3 in (-0.5, 0.5) if (u1, u2, u3)[a] < 0]]], axis=2)
                lf, ce = G.find(q.reshape(-1, 3))
                nb = phi[lf, ce].reshape(n, nc, -1).mean(axis=2)
                dl = s.level[lf].reshape(n, nc, -1)[:, :, 0] - s.level[:, None]
                d = h[:, a][:, None] * np.where(dl > 0, 0.75, np.where(dl < 0, 1.5, 1.0))   # distance between the cells' centres
                d = np.where(out, h[:, a][:, None], d)
                nb = np.where(out, 0.0, nb)
                slope = (nb - phi) / d
                if bt["xyz"[a]][i] == "absorbing":
                    slope = np.where(out, 0.0, slope)
                A += S[:, None] * slope
                g -= sg * slope / 2
            have = s.f("g" + "xyz"[a])
            sc = np.abs(phi).max() / h[:, a].min() + 1e-300
            err = np.abs(have - g).max()
            C.require(err <= 1e-11 * sc, "acceleration", lambda: "%s iteration %s: g%s differs from minus the gradient of the potential by %g (of %g)" % (key, s.scal.get("iter"), "xyz"[a], err, np.abs(g).max()), w.replay)
        if uniform:
            # rounding aside there is no source
            acc = max(np.abs(s.f("g" + a)).max() for a in "xyz")
            C.require(np.isfinite(phi).all() and acc <= 1e-10 * G4 * cfg["vp/rho0"] * max(L), "uniform", lambda: "%s: uniform density attracts with %g" % (key, acc), w.replay)
            C.saw(key + "/uniform", n * nc)
            continue
        res = np.sqrt(((b + A) ** 2).sum() / max((b ** 2).sum(), 1e-300))
        ok = np.isfinite(phi).all() and res <= eps * 1.05 + 1e-11 * np.abs(phi).max() * (h.max() / h.min() + 1) / max(np.sqrt((b ** 2).sum()), 1e-300) + 1e-12
        C.require(ok, "poisson", lambda: "%s iteration %s: relative residual %g, requested %g" % (key, s.scal.get("iter"), res, eps), w.replay)
        C.saw(key, n * nc)
        C.count("poisson_solves")
        if len(set(s.level)) > 1:
            C.count("poisson_solves_several_levels")
    w.clean()

def imposed(k):
    """one step with and without gravity from the same state"""
    R = Rand("p15st", C.seed, k)
    up = SCH[k % len(SCH)]
    kind = R.pick(["constant", "point_mass", "cg"])
    nd = 3 if kind == "cg" else R.pick([2, 3])
    lo, L = domain(R, nd)
    x = {}
    if up == "HydroUpdate_legacy" or (up.endswith("hancock") and R.u() < 0.5):
        x = dict(vp__refine_prob=0.0)
    cfg = random_cfg(R, nd, up, steps=1, vp__vamp=0.4, vp__v0=[R.u(0.5, 1), R.u(-1, -0.5), R.u(0.5, 1) if nd == 3 else 0.0], vp__jump=1.0, vp__amp=0.2, **x)
    if nd == 3:
        cfg["amr/level_max"] = min(cfg["amr/level_max"], 3)
    box(cfg, nd, lo, L)
    cg = [cfg.get("amr/coarse_oct_resolution_" + a, 1 << cfg["amr/level_min"]) for a in "xyz"[:nd]]
    hmin = min(L[a] / (cg[a] * cfg["amr/b" + "xyz"[a]]) for a in range(nd)) / 2 ** (cfg["amr/level_max"] - cfg["amr/level_min"])
    dt = R.pick([0.02, 0.05]) * hmin / 3
    cfg["vp/fixed_dt"] = dt
    cfg["dt/dt_kernel"] = "vp_probe"
    kinds = ["periodic", "periodic", "absorbing"] + (["reflecting"] if "MHD" not in up else [])
    borders(R, cfg, kinds if up != "HydroUpdate_legacy" else ["periodic"])
    on = dict(cfg)
    scale = 0.3 / max(L[:nd])
    if kind == "constant":
        g = [R.u(-1, 1) for _ in range(3)]
        if nd == 2: g[2] = R.pick([0.0, 0.5])
        on.update({"gravity/solver": "GravitySolver_constant", "gravity/gravity_type": "constant_scalar", "gravity/gx": g[0], "gravity/gy": g[1], "gravity/gz": g[2]})
    elif kind == "point_mass":
        m = [lo[a] + R.u(0.2, 0.8) * L[a] for a in range(nd)] + ([0.0] if nd == 2 else [])
        soft, GM = R.pick([0.05, 0.3]) * L[0], R.pick([0.01, 1.0])
        on.update({"gravity/solver": "vpwrap_GravitySolver_point_mass", "gravity/gravity_type": "constant_field", "gravity/softening": soft, "gravity/point_mass_Gmass": GM, **{"gravity/point_mass_" + a: m[i] for i, a in enumerate("xyz")}})
    else:
        on.update({"gravity/solver": "vpwrap_GravitySolver_cg", "gravity/gravity_type": "field", "gravity/CG_eps": 1e-8, "gravity/4_Pi_G": 5.0})
    np_ = R.pick([1, 2, 3])
    key = "%s/%s/%dD/np%d" % (kind, up, nd, np_)
    a = Workload(C, exe, cfg, np_, 1, ("post",), timeout=120)
    b = Workload(C, exe, on, np_, R.pick([1, 2]), ("post", "grav"), timeout=120)
    if C.run_ok(a.r, key + "/off", a.replay) and C.run_ok(b.r, key, b.replay):
        (s,) = a.trace(["post"]); (t,) = b.trace(["post"])
        if not C.require(same_leaves(s, t), "mesh", key + ": the first step starts from another mesh with gravity", b.replay):
            return
        os_, ot = s.order(), t.order()
        f = lambda q, o, n: q.f(n)[o]
        G = Grid(t, lo, L)
        if kind == "constant":
            acc = [np.full(f(t, ot, "rho").shape, g[i] if i < nd else 0.0) for i in range(3)]
        else:
            acc = [f(t, ot, "g" + "xyz"[i]) if i < nd else np.zeros(f(t, ot, "rho").shape) for i in range(3)]
        if kind == "point_mass":
            x = np.array(lo) + G.centers()[ot] * np.array(L)
            r = [x[..., i] - m[i] for i in range(nd)]
            r3 = (sum(q * q for q in r) + soft ** 2) ** 1.5
            for i in range(nd):
                want = -GM * r[i] / r3
                err = np.abs(want - acc[i]).max()
                C.require(err <= 1e-11 * max(np.abs(want).max(), 1e-300), "point_mass", lambda: "%s: g%s differs from the point mass's by %g (of %g)" % (key, "xyz"[i], err, np.abs(want).max()), b.replay)
        old, n0, n1 = f(t, ot, "rho"), f(s, os_, "rho_next"), f(t, ot, "rho_next")
        V = G.vol()[ot][:, None]
        # the step's mass change does not depend on gravity but for second-order terms in dt
        gm = max(np.abs(q).max() for q in acc)
        vmax = max(np.abs(f(t, ot, "rho_v" + "xyz"[i]) / old).max() for i in range(nd)) + 3.0
        e = f(t, ot, "e_tot_next") - f(s, os_, "e_tot_next")
        work = np.zeros(old.shape)
        exact = not (up.split("_")[1] in ("euler", "RK2") and kind == "constant") and "RK2" not in up and "legacy" not in up
        rel = dt * vmax * 8 / hmin + dt * gm   # relative size of second-order terms
        k0, k1 = np.zeros(old.shape), np.zeros(old.shape)
        for i in range(3):
            nm = "rho_v" + "xyz"[i] + "_next"
            d = f(t, ot, nm) - f(s, os_, nm)
            want = 0.5 * dt * acc[i] * (old + n1)
            if exact:
                C.require(np.abs(d - want).max() <= 1e-12 * (np.abs(f(t, ot, nm)).max() + np.abs(want).max()), "momentum:" + up.split("_")[0] + up.split("_", 1)[1], lambda: "%s: momentum %s changed by gravity by %g instead of %g" % (key, "xyz"[i], d.flat[np.abs(d - want).argmax()], want.flat[np.abs(d - want).argmax()]), b.replay)
            sc = dt * gm * old.max()
            C.require(np.abs(d - want).max() <= rel * sc + 1e-12, "momentum:" + up, lambda: "%s: momentum %s changed by gravity by %g where dt*rho*g is %g" % (key, "xyz"[i], d.flat[np.abs(d - want).argmax()], want.flat[np.abs(d - want).argmax()]), b.replay)
            mom = 0.5 * (f(s, os_, nm) + f(t, ot, nm))
            if i < nd:
                work += dt * acc[i] * mom
                k0 += f(s, os_, nm) ** 2
                k1 += f(t, ot, nm) ** 2
        if exact:
            want = 0.5 * (k1 - k0) / n1
            bad = np.abs(e - want)
            C.require(bad.max() <= 1e-11 * np.abs(f(t, ot, "e_tot_next")).max(), "energy:" + up, lambda: "%s: energy changed by gravity by %g, kinetic energy by %g" % (key, e.flat[bad.argmax()], want.flat[bad.argmax()]), b.replay)
        sc = dt * gm * old.max() * vmax
        if up.split("_")[1] in ("euler", "RK2") and kind == "constant":
            # energy follows the mass fluxes through the faces: their mean differs from the cell's momentum by the gradient of it
            bad = abs((e * V).sum() - (work * V).sum()) / V.sum()
            per = all(cfg["mesh/boundary_type_" + q + "min"] == "periodic" for q in "xyz")
            if per:
                C.require(bad <= (rel + 0.05) * sc, "energy:" + up, lambda: "%s: total energy changed by gravity by %g per volume, its work is %g" % (key, (e * V).sum() / V.sum(), (work * V).sum() / V.sum()), b.replay)
                C.count("energy_totals")
        else:
            bad = np.abs(e - work)
            C.require(bad.max() <= rel * sc + 1e-12, "energy:" + up, lambda: "%s: energy changed by gravity by %g where its work is %g (allowed difference %g)" % (key, e.flat[bad.argmax()], work.flat[bad.argmax()], rel * sc), b.replay)
        C.saw(key, old.size)
    a.clean(); b.clean()

def body():
    n = 1 if not C.thorough else 6
    pmap(lambda q: q[0](q[1]), [(poisson, k) for k in range(20 * n)] + [(imposed, k) for k in range(33 * n)], 6)
guarded(C, body)
