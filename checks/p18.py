"""P18: borders of real runs. (a) fluxes through each face, from the balance of every step; (b) walls against mirror images; (c) uniform flow through
open borders; (d) periodic pairs next to other borders, shifted along the periodic axes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from vpcompare import scale_of
from workloads import domain

C = Check("P18", rule="evaluations: balance of one quantity over one step, or one field of one state compared with its mirror image, with the undisturbed uniform flow or with the shifted run; distinct: (oracle, update, dimension, borders) with flow across or along the borders")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
XYZ = "xyz"
HYDRO = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock", "HydroUpdate_hancock_oneneighbor", "HydroUpdate_legacy"]
MHD = ["MHDUpdate_euler", "MHDUpdate_RK2", "MHDUpdate_hancock", "MHDUpdate_hancock_oneneighbor", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2"]
SINGLE = dict(vp__refine_prob=0.0, vp__mark_refine=0.0, vp__mark_coarsen=0.0)

def place(R, cfg, nd):
    lo, L = domain(R, nd)
    for a, n in enumerate(XYZ[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    return lo, L

def borders(R, cfg, nd, kinds=("absorbing", "reflecting", "periodic", "mixed", "mixed")):
    t = ""
    for a, n in enumerate(XYZ[:nd]):
        k = R.pick(kinds)
        b = [k, k] if k != "mixed" else R.pick([["absorbing", "reflecting"], ["reflecting", "absorbing"]])
        for s, v in zip(("min", "max"), b):
            cfg["mesh/boundary_type_%s%s" % (n, s)] = v
        t += b[0][0] + b[1][0] + " "
    return t.strip()

# ---------------------------------------------------------------- (a)
def faces(G, s, nd):
    """cells at each domain face: {(axis, side): (leaf numbers, cell numbers)}"""
    r = {}
    n = s.cg * 1
    for a in range(nd):
        cnt = s.cg[a] * 2 ** (s.level - s.meta["level_min"])
        for side in (0, 1):
            leaf = np.nonzero(s.oct[:, a] == (0 if side == 0 else cnt - 1))[0]
            cell = np.nonzero(G.ijk[:, a] == (0 if side == 0 else G.bs[a] - 1))[0]
            r[a, side] = (np.repeat(leaf, len(cell)), np.tile(cell, len(leaf)))
    return r

def phys_flux(W, a, g, mhd):
    """exact physical flux in direction a of conservative states"""
    rho, e, m = W["rho"], W["e_tot"], [W["rho_v" + x] for x in XYZ]
    v = [x / rho for x in m]
    ek = 0.5 * sum(x * y for x, y in zip(m, v))
    B = [W["B" + x] for x in XYZ] if mhd else [0 * rho] * 3
    p = (g - 1) * (e - ek - 0.5 * sum(b * b for b in B))
    pt = p + 0.5 * sum(b * b for b in B)
    F = {"rho": m[a], "e_tot": (e + pt) * v[a] - B[a] * sum(b * x for b, x in zip(B, v))}
    for d in range(3):
        F["rho_v" + XYZ[d]] = m[d] * v[a] - B[a] * B[d] + (pt if d == a else 0)
        if mhd:
            F["B" + XYZ[d]] = v[a] * B[d] - v[d] * B[a]
    return F

def balance(k):
    R = Rand("p18a", C.seed, k)
    up = ["HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor", "MHDUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_euler", "HydroUpdate_hancock", "MHDUpdate_hancock_oneneighbor", "HydroUpdate_legacy"][k % 8]
    nd = R.pick([2, 2, 3])
    x = dict(SINGLE) if up.endswith("hancock") or "legacy" in up else {}
    grav = R.pick([None, None, "cst"]) if up in ("HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor") else None
    if k % 8 in (3, 4):
        grav = "wb"          # well balanced: every border that is not periodic is closed
    if grav:
        x.update(gravity__solver="GravitySolver_constant", gravity__gravity_type="constant_scalar", gravity__gx=R.u(-1, 1), gravity__gy=R.u(-1, 1), gravity__gz=R.u(-1, 1) if nd == 3 else 0.0)
        if grav == "wb":
            if R.u() < 0.5:
                x.update(SINGLE)
            x.update(hydro__well_balanced=True, vp__vamp=0.3)
    exact = grav == "wb" or up in ("HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor", "MHDUpdate_euler", "MHDUpdate_hancock_oneneighbor")
    mhd = "MHD" in up
    cfg = random_cfg(R, nd, up, steps=R.i(3, 5), vp__v0=[R.u(-1, 1), R.u(-1, 1), 0.0], **x)
    if not exact:
        t = borders(R, cfg, nd, ("reflecting", "periodic", "reflecting"))
    else:
        t = borders(R, cfg, nd)
    lo, L = place(R, cfg, nd)
    np_ = R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("pre", "post"))
    what = "balance/%s/%dD/%s%s" % (up, nd, t, "/" + grav if grav else "")
    if not C.run_ok(w.r, what, w.replay):
        return
    T = w.trace()
    g = cfg["hydro/gamma0"]
    flow = 0
    for a, b in zip(T[0::2], T[1::2]):
        assert a.tag == "pre" and b.tag == "post"
        dt = a.scal["dt"]
        G = Grid(a, lo, L)
        h, V = G.sizes(), G.vol()
        fc = faces(G, a, nd)
        names = ["rho"] + ([] if grav else ["e_tot"] + ["rho_v" + n for n in XYZ[:nd]])
        change = {n: float(((b.f(n + "_next") - a.f(n)).sum(axis=1) * V).sum()) for n in names}
        want, scale = {n: 0.0 for n in names}, {n: float((np.abs(a.f(n)).sum(axis=1) * V).sum()) for n in names}
        vmax = 0.0
        skip = set()
        for (ax, side), (lf, cl) in fc.items():
            bt = cfg["mesh/boundary_type_%s%s" % (XYZ[ax], ("min", "max")[side])]
            if bt == "periodic":
                continue
            if grav == "wb":
                continue
            W = {n: a.f(n)[lf, cl] for n in a.fields if n.startswith("rho") or n == "e_tot" or n.startswith("B")}
            if nd == 2:
                W["rho_vz"] = W["rho_vz"] * 0
            F = phys_flux(W, ax, g, mhd)
            area = V[lf] / h[lf, ax]
            sgn = 1 if side == 0 else -1
            for n in names:
                if bt == "reflecting":
                    if n == "rho_v" + XYZ[ax] or (mhd and n != "rho"):
                        skip.add(n)       # the wall's pressure; magnetised walls: only mass is blocked
                    continue
                if not exact:
                    skip.add(n)
                want[n] += sgn * dt * float((F[n] * area).sum())
                scale[n] += dt * float((np.abs(F[n]) * area).sum())
            if bt == "absorbing":
                vmax = max(vmax, float(np.abs(F["rho"]).max()) if len(lf) else 0)
        if grav == "wb" and up == "HydroUpdate_euler" and "pp" not in t and len(set(a.level.tolist())) == 1:
            # total energy with the potential of the constant acceleration
            gv = [cfg["gravity/g" + n] for n in XYZ]
            pot = -sum(gv[d] * (G.centers()[:, :, d] * L[d]) for d in range(nd))
            names.append("energy")
            change["energy"] = float((((b.f("e_tot_next") - a.f("e_tot")) + (b.f("rho_next") - a.f("rho")) * pot).sum(axis=1) * V).sum())
            want["energy"], scale["energy"] = 0.0, float(((np.abs(a.f("e_tot")) + np.abs(a.f("rho") * pot)).sum(axis=1) * V).sum())
        ms = max(scale["rho" + "_v" + n] for n in XYZ[:nd]) if not grav else 1
        for n in names:
            if n in skip or (nd == 2 and mhd and n == "rho_vz"):
                continue
            sc = scale[n] + (1e-3 * scale["rho"] + ms if n.startswith("rho_v") else 0)
            C.evals += 1
            C.require(abs(change[n] - want[n]) <= 2e-12 * sc, "balance:%s:%s" % (up, n), "%s np=%d iteration %s: total %s changed by %.12g in one step, the fluxes through the open borders make %.12g (difference %.3g of the total)" % (
                what, np_, a.scal["iter"], n, change[n], want[n], abs(change[n] - want[n]) / sc), w.replay)
        flow += vmax > 1e-3 or "a" not in t
        if C.viol:
            return
    if flow:
        with C.lock:
            C.distinct.add(what)
    C.sample("%s np=%d: %d steps" % (what, np_, len(T) // 2))
    w.clean()

# ---------------------------------------------------------------- (b)
def mirror(k):
    R = Rand("p18b", C.seed, k)
    up = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock", "HydroUpdate_legacy"][k % 4]
    nd = 3 if k % 3 == 2 else 2
    ax, side = R.i(0, nd - 1), R.i(0, 1)
    lmin = 2
    cg = [R.pick([3, 4]) for _ in range(3)]
    cg[ax] = 2
    if nd == 2:
        cg[2] = 1
    diff = R.u() < 0.4 and "legacy" not in up
    # (schemes that take values at edges of the cells' neighbourhood: single-level meshes)
    x = dict(SINGLE) if "legacy" in up or up.endswith("hancock") or diff else {}
    if diff:
        x.update(viscosity__update="ParabolicUpdate_explicit", viscosity__mu=0.01, thermal_conduction__update="ParabolicUpdate_explicit", thermal_conduction__kappa=0.01, thermal_conduction__diffusivity_mode="constant", dt__dt_kernel="Compute_dt_hydro,Compute_dt_parabolic,vp_probe")
    grav = R.pick([None, None, "cst", "wb"]) if up in ("HydroUpdate_euler", "HydroUpdate_RK2") and not diff else None
    if grav:
        gv = [R.u(-1, 1) if a != ax and a < nd else 0.0 for a in range(3)]
        x.update(gravity__solver="GravitySolver_constant", gravity__gravity_type="constant_scalar", gravity__gx=gv[0], gravity__gy=gv[1], gravity__gz=gv[2])
    cfg = random_cfg(R, nd, up, steps=R.i(3, 6) if nd == 2 else 3, lmin=lmin, lmax=lmin + (2 if nd == 2 else 1), cg=cg, vp__v0=[R.u(-0.5, 0.5), R.u(-0.5, 0.5), 0.0], **x)
    t = borders(R, cfg, nd)
    s, o = ("min", "max") if side == 0 else ("max", "min")
    key = "mesh/boundary_type_" + XYZ[ax]
    cfg[key + s] = "reflecting"
    cfg[key + o] = R.pick(["reflecting", "absorbing"])
    what = "mirror/%s/%dD/%s%s %s%s%s" % (up, nd, XYZ[ax], s, t, "/diffusion" if diff else "", "/g" if grav else "")
    lo, L = place(R, cfg, nd)
    d = dict(cfg)
    d["vp/mirror"], d["vp/mirror_side"] = ax, side
    d["amr/coarse_oct_resolution_" + XYZ[ax]] = 2 * cg[ax]
    n = "mesh/" + XYZ[ax]
    if side == 0:
        d[n + "min"] = lo[ax] - L[ax]
    else:
        d[n + "max"] = lo[ax] + 2 * L[ax]
    d[key + s] = cfg[key + o]
    if cfg[key + o] == "reflecting" and R.u() < 0.5:
        d[key + s] = d[key + o] = "periodic"
    np_ = R.pick([1, 2, 3])
    tags = ("step", "out")
    w1, w2 = Workload(C, exe, cfg, np_, 2, tags), Workload(C, exe, d, R.pick([1, 2]), 2, tags)
    if not (C.run_ok(w1.r, what, w1.replay) and C.run_ok(w2.r, what, w2.replay)):
        return
    A, B = w1.trace(), w2.trace()
    C.require(len(A) == len(B), "mirror:steps", "%s: %d states against %d with the mirror image" % (what, len(A), len(B)), w1.replay)
    rp = {"walled": w1.replay, "doubled": w2.replay}
    jump = 0
    for a, b in zip(A, B):
        at = "%s np=%d state %s iteration %s" % (what, np_, a.tag, a.scal.get("iter"))
        lv = b.level - b.meta["level_min"]
        half = cg[ax] * 2 ** lv
        ob = b.oct.copy()
        if side == 0:
            ob[:, ax] -= half
        sel = np.nonzero((ob[:, ax] >= 0) & (ob[:, ax] < half))[0]
        ob = ob[sel]
        pa, pb = np.lexsort(a.oct.T), np.lexsort(ob.T)
        if not C.require(a.oct.shape == ob.shape and (a.oct[pa] == ob[pb]).all(), "mirror:leaves", at + ": the leaves next to the wall differ from those next to the mirror image", rp):
            return
        jump = max(jump, len(set(a.level.tolist())))
        for f in a.fields:
            if f.endswith("_next"):
                continue
            C.evals += 1
            x, y = a.f(f)[pa], b.f(f)[sel][pb]
            m = float(np.abs(x - y).max()) / scale_of(a, f)
            if not C.require(m <= 1e-10, "mirror:%s:%s" % (up, f), lambda: "%s: field %s next to the wall differs by %.3g of its scale from the flow next to its mirror image, leaf %s" % (at, f, m, a.oct[pa][int(np.argmax(np.abs(x - y).max(axis=1)))].tolist()), rp):
                return
    with C.lock:
        C.distinct.add(what)
    C.sample("%s: %d states, %d leaves" % (what, len(A), len(A[-1].oct)))
    w1.clean()
    w2.clean()

# ---------------------------------------------------------------- (c)
def uniform(k):
    R = Rand("p18c", C.seed, k)
    up = (HYDRO + MHD)[k % 11]
    nd = R.pick([2, 2, 3])
    x = dict(SINGLE) if "legacy" in up else {}
    v0 = [R.u(-2, 2) if a < nd else 0.0 for a in range(3)]       # (2D runs do not evolve the out-of-plane velocity)
    b0 = [R.u(-1, 1) for _ in range(3)]
    cfg = random_cfg(R, nd, up, steps=R.i(3, 6), vp__amp=0.0, vp__vamp=0.0, vp__bamp=0.0, vp__jump=1.0, vp__rho0=R.u(0.5, 2), vp__p0=R.u(0.3, 2), **x)
    t = borders(R, cfg, nd, ("absorbing", "absorbing", "periodic", "reflecting"))
    for a in range(nd):
        if cfg["mesh/boundary_type_%smin" % XYZ[a]] == "reflecting":
            v0[a] = 0.0           # along the wall only
            if "MHD" in up:
                b0[a] = 0.0
    cfg["vp/v0"], cfg["vp/b0"] = v0, b0
    lo, L = place(R, cfg, nd)
    np_ = R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, 2, ("step", "out"))
    what = "uniform/%s/%dD/%s" % (up, nd, t)
    if not C.run_ok(w.r, what, w.replay):
        return
    T = w.trace()
    for s in T[1:]:
        for f in T[0].fields:
            if f.endswith("_next"):
                continue
            C.evals += 1
            ref = T[0].f(f)
            v = float(ref.flat[0])
            d = np.abs(s.f(f) - v)
            sc = max(scale_of(T[0], f), 1.0)
            if not C.require(np.isfinite(d).all() and d.max() <= 2e-12 * sc * (1 + s.scal["iter"]), "uniform:%s:%s" % (up, f), lambda: "%s np=%d iteration %s: %s of a uniform flow changed by %.3g in leaf %s" % (what, np_, s.scal["iter"], f, float(d.max()), s.oct[int(np.argmax(d.max(axis=1)))].tolist()), w.replay):
                return
    with C.lock:
        C.distinct.add(what)
    C.sample("%s: %d states, %d leaves" % (what, len(T), len(T[-1].oct)))
    w.clean()

# ---------------------------------------------------------------- (d)
def joined(k):
    R = Rand("p18d", C.seed, k)
    up = (HYDRO + ["MHDUpdate_euler", "MHDUpdate_hancock"])[k % 7]
    nd = R.pick([2, 3])
    x = dict(SINGLE) if "legacy" in up else {}
    cfg = random_cfg(R, nd, up, steps=4, **x)
    t = borders(R, cfg, nd, ("absorbing", "mixed", "reflecting") if "MHD" not in up else ("absorbing",))
    ax = R.i(0, nd - 1)
    for s in ("min", "max"):
        cfg["mesh/boundary_type_%s%s" % (XYZ[ax], s)] = "periodic"
    what = "joined/%s/%dD/%s %s" % (up, nd, XYZ[ax], t)
    place(R, cfg, nd)
    w1 = Workload(C, exe, cfg, 1, 2, ("step", "out"))
    if not C.run_ok(w1.r, what, w1.replay):
        return
    A = w1.trace()
    n = A[0].cg[ax]
    sh = R.i(1, max(1, n - 1))
    d = dict(cfg)
    d["vp/shift"] = [sh / n if a == ax else 0.0 for a in range(3)]
    w2 = Workload(C, exe, d, R.pick([1, 3]), 2, ("step", "out"))
    if not C.run_ok(w2.r, what, w2.replay):
        return
    for a, b in zip(A, w2.trace()):
        cnt = n * 2 ** (b.level - b.meta["level_min"])
        ob = b.oct.copy()
        ob[:, ax] = (ob[:, ax] - sh * cnt // n) % cnt
        pa, pb = np.lexsort(a.oct.T), np.lexsort(ob.T)
        at = "%s shifted by %d/%d, state %s iteration %s" % (what, sh, n, a.tag, a.scal.get("iter"))
        if not C.require(a.oct.shape == ob.shape and (a.oct[pa] == ob[pb]).all(), "joined:leaves", at + ": not the shifted leaves", w2.replay):
            return
        for f in a.fields:
            if f.endswith("_next"):
                continue
            C.evals += 1
            m = float(np.abs(a.f(f)[pa] - b.f(f)[pb]).max()) / scale_of(a, f)
            if not C.require(m <= 1e-10, "joined:%s:%s" % (up, f), "%s: field %s differs by %.3g of its scale" % (at, f, m), w2.replay):
                return
    if n > 1:
        with C.lock:
            C.distinct.add(what)
    w1.clean()
    w2.clean()

def one(j):
    j[0](j[1])

m = 1 if not C.thorough else 10
guarded(C, lambda: pmap(one, [(f, k) for f, n in ((balance, 64), (mirror, 48), (uniform, 33), (joined, 21)) for k in range(n * m)], 4))
