"""P23: the change made by viscosity, thermal conduction and cooling in recorded steps."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from workloads import domain

C = Check("P23", rule="evaluations: change of one quantity over all cells of one step against the high-order operator, a conserved total, the flow of heat, the cells of a refined against those of a uniform mesh, or the cooling of all cells; distinct: (oracle, terms, dimension, borders, processes)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
XYZ = "xyz"
UPD = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock", "HydroUpdate_hancock_oneneighbor"]
NAMES = ["rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"]

def changes(T):
    """per step: the state before the update, and what the terms after the hydrodynamic update did to each cell, divided by the time step"""
    r = []
    pre = post = None
    for s in T:
        if s.tag == "pre":
            pre, post = s, None
        elif s.tag == "post":
            post = s
        elif s.tag == "preamr" and pre is not None and post is not None:
            assert np.array_equal(pre.oct, post.oct) and np.array_equal(pre.oct, s.oct)
            dt = pre.scal["dt"] if pre.scal.get("dt") else s.scal["dt"]
            dt = s.scal["time"] - pre.scal["time"] 
            if dt > 0:
                r.append((pre, dt, {n: (s.f(n) - post.f(n + "_next")) / dt for n in NAMES}, {n: 4e-16 * np.abs(post.f(n + "_next")).max() / dt for n in NAMES}))
            pre = None
    return r

# ---------------------------------------------------------------- uniform meshes: accuracy and conservation
def dense(s, nd):
    """leaf x cell -> regular array [x, y, z] and the way back (one level)"""
    bs, cg = np.array(s.bs), np.array(s.cg) * 2 ** (s.level[0] - s.meta["level_min"])
    if nd == 2:
        cg[2] = 1
        bs[2] = 1
    k, j, i = np.meshgrid(*[np.arange(bs[a]) for a in (2, 1, 0)], indexing="ij")
    ijk = np.stack([i.ravel(), j.ravel(), k.ravel()], axis=1)
    idx = s.oct[:, None, :3] * bs + ijk[None]
    if nd == 2:
        idx[..., 2] = 0
    sh = tuple(bs * cg)
    def to(f):
        a = np.empty(sh)
        a[idx[..., 0], idx[..., 1], idx[..., 2]] = f
        return a
    return to, idx, sh

def d6(f, a, h):
    r = lambda n: np.roll(f, -n, a)
    return (45 * (r(1) - r(-1)) - 9 * (r(2) - r(-2)) + (r(3) - r(-3))) / (60 * h)
def d2(f, a, h):
    return (np.roll(f, -1, a) - np.roll(f, 1, a)) / (2 * h)

def viscous(D, v, h, nd, mu):
    v = v[:nd]
    g = [[D(v[i], j, h[j]) for j in range(nd)] for i in range(nd)]
    div = sum(g[i][i] for i in range(nd))
    tau = [[mu * (g[i][j] + g[j][i] - (2.0 / 3 * div if i == j else 0)) for j in range(nd)] for i in range(nd)]
    out = {"rho_v" + XYZ[i]: sum(D(tau[i][j], j, h[j]) for j in range(nd)) for i in range(nd)}
    out["e_tot"] = sum(D(sum(v[i] * tau[i][j] for i in range(nd)), j, h[j]) for j in range(nd))
    return out
def conduct(D, T, h, nd, kap):
    return {"e_tot": sum(D(kap * D(T, j, h[j]), j, h[j]) for j in range(nd))}

def tri(cfg, x, L):
    th, z1, z2 = cfg["tri_layer/transition_thickness"], cfg["tri_layer/z1"], cfg["tri_layer/z2"]
    t = 0.25 * (np.tanh((x - z1) / th) + 1) * (np.tanh((z2 - x) / th) + 1)
    return cfg["thermal_conduction/kappa"] * (cfg["tri_layer/K2"] * (1 - t) + cfg["tri_layer/K1"] * t)

def base(R, nd, up, **kw):
    lo, L = domain(R, nd)
    cfg = random_cfg(R, nd, up, steps=3, cg=None, **kw)
    for k in [k for k in cfg if k.startswith("amr/coarse")]:
        del cfg[k]
    for a, n in enumerate(XYZ[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    return cfg, lo, L

def terms(R, cfg, nd, lo, L, which):
    """selects the terms; returns their scale"""
    sc = min(L[:nd]) ** 2
    if "viscosity" in which:
        cfg["viscosity/update"] = "ParabolicUpdate_explicit"
        cfg["viscosity/mu"] = sc * R.pick([1e-3, 0.02, 0.3])
    if "conduction" in which:
        cfg["thermal_conduction/update"] = "ParabolicUpdate_explicit"
        cfg["thermal_conduction/kappa"] = sc * R.pick([1e-3, 0.02, 0.3])
        cfg["thermal_conduction/diffusivity_mode"] = "constant"
    cfg["dt/dt_kernel"] = "Compute_dt_hydro,Compute_dt_parabolic,vp_probe"
    cfg["dt/parabolic_cfl"] = 0.1

def accuracy(k):
    R = Rand("p23a", C.seed, k)
    nd = 2 if k % 5 < 3 else 3
    up = UPD[k % 4]
    cfg, lo, L = base(R, nd, up)
    which = [["viscosity"], ["conduction"], ["viscosity", "conduction"]][k % 3]
    lev = (4 if nd == 2 else 3)
    bs = (4, 4, 4) if R.u() < 0.5 else tuple(R.pick([4, 6]) for _ in range(3))
    cfg.update({"amr/level_min": lev, "amr/level_max": lev, "vp/kmax": 1, "vp/jump": 1.0, "vp/refine_prob": 0.0, "vp/amp": R.pick([0.1, 0.3]), "vp/vamp": 0.5, "run/nstepmax": 2})
    for a, n in enumerate(XYZ[:nd]):
        cfg["amr/b" + n] = bs[a]
    for q in ("amr/coarse_oct_resolution_x", "amr/coarse_oct_resolution_y", "amr/coarse_oct_resolution_z"):
        cfg.pop(q, None)
    terms(R, cfg, nd, lo, L, which)
    kmode = "constant"
    if "conduction" in which and R.u() < 0.5:
        kmode = "tri_layer"
        d = nd - 1
        cfg["thermal_conduction/diffusivity_mode"] = "analytical"
        cfg["thermal_conduction/kappa_mode"] = "tri_layer"
        cfg.update({"tri_layer/transition_thickness": 0.12 * L[d], "tri_layer/z1": lo[d] + 0.3 * L[d], "tri_layer/z2": lo[d] + 0.7 * L[d], "tri_layer/K1": R.pick([0.5, 3.0]), "tri_layer/K2": R.pick([1.0, 2.0])})
    np_ = R.pick([1, 2, 3, 4])
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("pre", "post", "preamr"), timeout=200)
    what = "uniform/%s/%s" % ("+".join(which), kmode)
    at = "%s %s %dD blocks %s np=%d" % (what, up, nd, bs[:nd], np_)
    if not C.run_ok(w.r, what, w.replay):
        return
    steps = changes(w.trace())
    if not C.require(steps, what + ":none", at + ": no step was recorded", w.replay):
        return
    g = cfg["hydro/gamma0"]
    for s, dt, ch, eps in steps:
        to, idx, sh = dense(s, nd)
        h = [L[a] / sh[a] for a in range(nd)]
        rho = to(s.f("rho"))
        v = [to(s.f("rho_v" + a)) / rho for a in XYZ]
        e = to(s.f("e_tot"))
        T = (g - 1) * (e - 0.5 * rho * sum(x * x for x in v)) / rho
        ref, low = {}, {}
        ok = np.ones(sh, bool)
        if "viscosity" in which:
            for D, o in ((d6, ref), (d2, low)):
                for n, x in viscous(D, v, h, nd, cfg["viscosity/mu"]).items():
                    o[n] = o.get(n, 0) + x
        if "conduction" in which:
            kap = cfg["thermal_conduction/kappa"]
            if kmode == "tri_layer":
                d = nd - 1
                x = lo[d] + (np.arange(sh[d]) + 0.5) * h[d]
                kap = tri(cfg, x, L).reshape([-1 if a == d else 1 for a in range(3)]) * np.ones(sh)
                # the profile is not periodic: its ends are left out
                c = np.zeros(sh[d], bool); c[6:-6] = True
                ok &= c.reshape([-1 if a == d else 1 for a in range(3)])
            for D, o in ((d6, ref), (d2, low)):
                for n, x in conduct(D, T, h, nd, kap).items():
                    o[n] = o.get(n, 0) + x
        for n in NAMES:
            C.evals += 1
            got = to(ch[n])
            if n not in ref:
                C.require(np.abs(got).max() <= eps[n], what + ":other:" + n, lambda: at + ": %s changes by up to %.3g per unit of time" % (n, np.abs(got).max()), w.replay)
                continue
            want, tol = ref[n], 2.5 * np.abs(ref[n] - low[n])[ok].max() + 1e-10 * np.abs(ref[n]).max() + 10 * eps[n]
            err = np.abs(got - want)[ok]
            C.require(np.isfinite(got).all() and err.max() <= tol, what + ":rate:" + n, lambda: at + ": change of %s per unit of time is off by up to %.3g (change up to %.3g, accuracy of second order %.3g)" % (n, err.max(), np.abs(want).max(), tol), w.replay)
            C.count("cells_checked", int(ok.sum()))
            C.sample("%s: %s changes by up to %.3g, largest error %.2g, accepted %.2g" % (at, n, np.abs(want).max(), err.max(), tol))
            # the sum over the periodic domain does not change
            if kmode == "constant" or "viscosity" not in which:
                C.evals += 1
                C.require(abs(got.sum()) <= 1e-12 * np.abs(got).sum() + got.size * eps[n], what + ":conserved:" + n, lambda: at + ": the total of %s changes by %.3g of the exchanged amount" % (n, got.sum() / np.abs(got).sum()), w.replay)
        C.count("steps")
    C.distinct.add("%s/%dD/np%d/%s" % (what, nd, np_, "cubic" if len(set(bs[:nd])) == 1 else "blocks"))
    w.clean()

# ---------------------------------------------------------------- any mesh: direction of heat, conservation of what must not change, uniform states
def neighbours_max(G, s, nd, f):
    """largest value of f among the cells that touch each cell (any size), periodic"""
    c, h = G.centers(), G.csize[:, None, :]
    best = np.full(f.shape, -np.inf)
    rng = (-1, 0, 1)
    for dx in rng:
        for dy in rng:
            for dz in (rng if nd == 3 else (0,)):
                if dx == dy == dz == 0:
                    continue
                d = (dx, dy, dz)
                # quarter points reach every smaller neighbour
                sub = [(-0.25, 0.25) if d[a] == 0 and a < nd else (0.0,) for a in range(3)]
                for qx in sub[0]:
                    for qy in sub[1]:
                        for qz in sub[2]:
                            q = (qx, qy, qz)
                            u = c + np.array([(0.75 * d[a] if d[a] else q[a]) for a in range(3)]) * h
                            leaf, cell = G.find(u.reshape(-1, 3))
                            best = np.maximum(best, f[leaf, cell].reshape(f.shape))
    return best

def two_point(G, s, nd, T, kap):
    """heat each cell gets through its faces: conductivity times temperature difference over the distance of the cell centres across the face"""
    c, h = G.centers(), G.csize[:, None, :]
    out = np.zeros(T.shape)
    for a in range(nd):
        o = [b for b in range(nd) if b != a]
        subs = [(x,) for x in (-0.25, 0.25)] if nd == 2 else [(x, y) for x in (-0.25, 0.25) for y in (-0.25, 0.25)]
        for sg in (-1, 1):
            for q in subs:
                d = np.zeros(3)
                d[a] = 0.75 * sg
                d[o] = q
                leaf, cell = G.find((c + d * h).reshape(-1, 3))
                Tn, hn = T[leaf, cell].reshape(T.shape), G.sizes()[leaf, a].reshape(T.shape)
                ha = G.sizes()[:, None, a]
                out += kap * (Tn - T) / (0.5 * (ha + hn)) / ha / len(subs)
    return out

def anymesh(k):
    R = Rand("p23m", C.seed, k)
    nd = R.pick([2, 2, 3])
    up = R.pick(["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock_oneneighbor"])
    lo, L = domain(R, nd)
    kind = ["heat", "uniform_v", "uniform_T", "rough"][k % 4]
    x = {}
    if kind == "uniform_v":
        x.update(vp__vamp=0.0, vp__v0=[0.3, -0.2, 0.1 if nd == 3 else 0.0])
    if kind == "uniform_T":
        x.update(vp__amp=0.0, vp__jump=1.0, vp__vamp=0.0)
    single = kind == "rough"
    cfg = random_cfg(R, nd, up, steps=3, **x)
    for a, n in enumerate(XYZ[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    if single:
        cfg.update({"vp/refine_prob": 0.0, "vp/mark_refine": 0.0, "vp/mark_coarsen": 0.0, "vp/kmax": 4, "vp/jump": 3.0})
    which = {"heat": ["conduction"], "uniform_v": ["viscosity"], "uniform_T": ["conduction"], "rough": [["viscosity"], ["conduction"], ["viscosity", "conduction"]][(k // 4) % 3]}[kind]
    terms(R, cfg, nd, lo, L, which)
    np_ = R.pick([1, 2, 3, 5]) if cfg["amr/level_min"] > 1 and not single else R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("pre", "post", "preamr"), timeout=200)
    what = "%s/%s" % (kind, "+".join(which))
    at = "%s %s %dD np=%d" % (what, up, nd, np_)
    if not C.run_ok(w.r, what, w.replay):
        return
    g = cfg["hydro/gamma0"]
    steps = changes(w.trace())
    C.require(steps, what + ":none", at + ": no step was recorded", w.replay)
    for i, (s, dt, ch, eps) in enumerate(steps):
        C.evals += 1
        G = Grid(s, lo, L)
        rho, e = s.f("rho"), s.f("e_tot")
        v = [s.f("rho_v" + a) / rho for a in XYZ]
        T = (g - 1) * (e - 0.5 * rho * sum(q * q for q in v)) / rho
        coef = max(cfg.get("viscosity/mu", 0), cfg.get("thermal_conduction/kappa", 0))
        rate = coef / G.sizes()[:, :nd].min() ** 2
        others = ["rho"] + (["rho_v" + a for a in XYZ] if which == ["conduction"] else [])
        for n in others:
            C.require(np.abs(ch[n]).max() <= eps[n], what + ":other:" + n, lambda: at + ": %s changes" % n, w.replay)
        if kind == "heat":
            A = G.vol()[:, None]
            q = A * ch["e_tot"]
            C.evals += 2
            C.require(abs(q.sum()) <= 1e-11 * np.abs(q).sum() + (A * eps["e_tot"]).sum() * G.nc, what + ":conserved", lambda: at + ": the total energy changes by %.3g of the exchanged heat" % (q.sum() / np.abs(q).sum()), w.replay)
            want = two_point(G, s, nd, T, cfg["thermal_conduction/kappa"])
            err = np.abs(ch["e_tot"] - want)
            j = np.unravel_index(np.argmax(err), err.shape)
            C.require(err[j] <= 1e-10 * np.abs(want).max() + 10 * eps["e_tot"], what + ":rate", lambda: at + ": the energy of a cell of level %d changes by %.6g per unit of time, the heat through its faces is %.6g" % (s.level[j[0]], ch["e_tot"][j], want[j]), w.replay)
            C.count("cells_two_point", err.size)
            for sg, t in ((1, "warmer"), (-1, "colder")):
                m = neighbours_max(G, s, nd, sg * T)
                sel = sg * T >= m
                gain = sg * ch["e_tot"]
                C.count("extremal_cells", int(sel.sum()))
                bad = sel & (gain > 1e-11 * rate * np.abs(T).max() + 10 * eps["e_tot"])
                C.require(not bad.any(), what + ":uphill", lambda: at + ": a cell that is %s than all around it gets even %s (%.3g per unit of time)" % (t, t, gain[bad].max()), w.replay)
        elif kind == "uniform_v" and i == 0:
            for n in NAMES:
                C.require(np.abs(ch[n]).max() <= 1e-12 * rate + 10 * eps[n], what + ":uniform", lambda: at + ": viscosity changes %s by up to %.3g although the velocity is uniform" % (n, np.abs(ch[n]).max()), w.replay)
        elif kind == "uniform_T":
            C.require(np.abs(ch["e_tot"]).max() <= 1e-12 * rate + 10 * eps["e_tot"], what + ":uniform", lambda: at + ": conduction changes the energy by up to %.3g although the temperature is uniform" % np.abs(ch["e_tot"]).max(), w.replay)
        elif kind == "rough":
            for n in NAMES:
                q = ch[n]
                C.require(abs(q.sum()) <= 1e-12 * np.abs(q).sum() + q.size * eps[n], what + ":conserved:" + n, lambda: at + ": the total of %s changes by %.3g of the exchanged amount" % (n, q.sum() / np.abs(q).sum()), w.replay)
            if which == ["conduction"]:
                C.require((T * ch["e_tot"]).sum() <= 1e-12 * np.abs(T * ch["e_tot"]).sum(), what + ":uphill", lambda: at + ": heat flows from cold to hot on the whole", w.replay)
            if which == ["viscosity"]:
                p = sum(v[a] * ch["rho_v" + XYZ[a]] for a in range(nd))
                C.require(p.sum() <= 1e-12 * np.abs(p).sum(), what + ":drives", lambda: at + ": viscosity adds kinetic energy", w.replay)
    C.count("steps", len(steps))
    C.distinct.add("%s/%dD/np%d" % (what, nd, np_))
    C.sample("%s: %d steps" % (at, len(steps)))
    w.clean()

# ---------------------------------------------------------------- refined against uniform mesh
def local(k):
    R = Rand("p23l", C.seed, k)
    nd = R.pick([2, 2, 3])
    lo, L = domain(R, nd)
    cfg = random_cfg(R, nd, "HydroUpdate_euler", steps=1)
    for a, n in enumerate(XYZ[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    cfg["vp/refine_prob"] = 0.6
    which = [["viscosity"], ["conduction"], ["viscosity", "conduction"]][k % 3]
    terms(R, cfg, nd, lo, L, which)
    what = "local/" + "+".join(which)
    for key in [q for q in cfg if q.startswith("amr/coarse")]:
        del cfg[key]
    cfg["amr/level_min"], cfg["amr/level_max"] = (2, 4) if nd == 2 else (1, 3)
    np_ = R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, 1, ("pre", "post", "preamr"), timeout=200)
    if not C.run_ok(w.r, what, w.replay):
        return
    A = changes(w.trace())
    if not C.require(A, what + ":none", what + ": no step was recorded", w.replay):
        return
    s, dt, ch, eps = A[0]
    at = "%s %dD np=%d" % (what, nd, np_)
    G = Grid(s, lo, L)
    c, h = G.centers(), G.csize[:, None, :]
    for lev in sorted(set(s.level)):
        # cells whose surroundings (two cells each way) are cells of the same size
        same = (s.level == lev)[:, None] & np.ones((1, G.nc), bool)
        for dx in (-2, -1, 0, 1, 2):
            for dy in (-2, -1, 0, 1, 2):
                for dz in ((-2, 0, 2) if nd == 3 else (0,)):
                    leaf, _ = G.find((c + np.array([dx, dy, dz]) * h).reshape(-1, 3))
                    same &= (s.level[leaf] == lev).reshape(same.shape)
        if same.sum() < 4:
            continue
        u = dict(cfg)
        u.update({"amr/level_min": int(lev), "amr/level_max": int(lev), "vp/refine_prob": 0.0})
        w2 = Workload(C, exe, u, 1, 2, ("pre", "post", "preamr"), timeout=200)
        if not C.run_ok(w2.r, what, w2.replay):
            return
        B = changes(w2.trace())
        s2, dt2, ch2, eps2 = B[0]
        G2 = Grid(s2, lo, L)
        li, ci = np.nonzero(same)
        l2, c2 = G2.find(c[li, ci])
        for n in NAMES:
            C.evals += 1
            a, b = ch[n][li, ci], ch2[n][l2, c2]
            if not C.require(np.abs(s.f(n)[li, ci] - s2.f(n)[l2, c2]).max() <= 1e-12 * np.abs(s2.f(n)).max() + 1e-300, "machinery", "initial states differ", w.replay):
                return
            tol = 1e-10 * np.abs(ch2[n]).max() + 10 * (eps[n] + eps2[n])
            C.require(np.abs(a - b).max() <= tol, what + ":" + n, lambda: at + ": in cells of level %d surrounded by cells of the same size %s changes by up to %.3g other than on the uniform mesh of that level (changes up to %.3g)" % (lev, n, np.abs(a - b).max(), np.abs(b).max()), w.replay)
        C.count("cells_compared", len(li))
        C.distinct.add("%s/%dD/np%d/level%d" % (what, nd, np_, lev))
        w2.clean()
    w.clean()

# ---------------------------------------------------------------- cooling
def cooling(k):
    R = Rand("p23c", C.seed, k)
    nd = R.pick([2, 3])
    up = R.pick(UPD[:2] + ["HydroUpdate_hancock_oneneighbor", "MHDUpdate_euler", "GLMMHDUpdate_euler"])
    lo, L = domain(R, nd)
    cfg = random_cfg(R, nd, up, steps=3)
    for a, n in enumerate(XYZ[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
        if R.u() < 0.5 or a == nd - 1:
            b = R.pick(["absorbing", "reflecting"])
            cfg["mesh/boundary_type_%smin" % n] = cfg["mesh/boundary_type_%smax" % n] = b
    F = R.pick([1e-3, 0.05, -0.02]) * L[nd - 1]
    cfg["cooling/update"] = "CoolingUpdate_FF"
    cfg["cooling/FF_fluxes"] = F
    if R.u() < 0.5:
        cfg["cooling/FF_layer"] = "one_cell"
    np_ = R.pick([1, 2, 3, 4]) if cfg["amr/level_min"] > 1 else R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("pre", "post", "preamr"), timeout=200)
    what = "cooling/" + ("MHD" if "MHD" in up else "hydro")
    at = "%s %s %dD np=%d" % (what, up, nd, np_)
    if not C.run_ok(w.r, what, w.replay):
        return
    steps = changes(w.trace())
    C.require(steps, what + ":none", at + ": no step was recorded", w.replay)
    d = nd - 1
    for s, dt, ch, eps in steps:
        C.evals += len(NAMES) + 1
        G = Grid(s, lo, L)
        c, h = G.centers()[..., d], G.csize[:, None, d]
        want = np.where(c < h, -F / G.sizes()[:, None, d], np.where(c > 1 - h, F / G.sizes()[:, None, d], 0))
        for n in NAMES:
            t = want if n == "e_tot" else 0 * want
            err = np.abs(ch[n] - t)
            j = np.unravel_index(np.argmax(err), err.shape)
            C.require(err[j] <= 1e-12 * np.abs(t).max() + 2 * eps[n], what + ":" + n, lambda: at + ": cooling changes %s of the cell at height %.4g of the domain by %.6g per unit of time, %.6g is right" % (n, c[j], ch[n][j], t[j]), w.replay)
        A = G.vol()[:, None]
        tot, exch = (A * ch["e_tot"]).sum(), (A * np.abs(ch["e_tot"])).sum()
        C.require(abs(tot) <= 1e-11 * exch + (A * eps["e_tot"]).sum() * G.nc, what + ":balance", lambda: at + ": the total energy changes by %.3g of the exchanged heat" % (tot / exch), w.replay)
        C.count("heated_cells", int((want > 0).sum())); C.count("cooled_cells", int((want < 0).sum()))
    C.count("steps", len(steps))
    C.distinct.add("%s/%dD/np%d" % (what, nd, np_))
    w.clean()

F = {"a": accuracy, "m": anymesh, "l": local, "c": cooling}
m = 1 if not C.thorough else 12
guarded(C, lambda: pmap(lambda t: F[t[0]](t[1]), [(x, i) for x, n in (("a", 20), ("m", 24), ("l", 9), ("c", 12)) for i in range(n * m)], 4))
