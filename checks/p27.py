"""P27: the first recorded state of runs started from every built-in initial condition against its published definition at the cell centres and the mesh its refinement rule leads to."""
import os, sys, shutil, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from workloads import domain
import vpinit
import vpcompare

C = Check("P27", rule="evaluations: one cell (or particle) of a first state compared with the definition of the initial condition, or one mesh compared with the refinement rule; distinct: (initial condition, dimension, domain, processes, mesh refined or not)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
ANALYTIC = ["blast", "implode", "riemann2d", "kelvin_helmholtz", "sod", "rayleigh_taylor", "C91", "tri_layer", "orszag_tang", "orszag_tang_glm", "MHD_blast", "MHD_blast_glm", "MHD_rotor", "MHD_rotor_glm"]
ONLY2D = ("kelvin_helmholtz", "implode", "orszag_tang", "orszag_tang_glm", "MHD_rotor", "MHD_rotor_glm")

def setup(R, P, nd):
    """a small mesh with a random shape, and the problem's parameters"""
    up = {"glm": "GLMMHDUpdate_euler"}.get(P.split("_")[-1]) or ("MHDUpdate_euler" if P.startswith(("MHD", "orszag")) else "HydroUpdate_euler")
    bs = tuple(R.pick([4, 4, 6, 8] if nd == 2 else [4, 4, 6]) for _ in range(3))
    lmin, lmax = R.pick([(1, 4), (2, 5), (3, 5), (2, 4)] if nd == 2 else [(1, 3), (2, 3), (1, 2)])
    cg = [1 << lmin] * 3
    if R.u() < 0.4:
        cg = [R.pick([2, 3, 4]), R.pick([3, 4]), R.pick([1, 2])] if nd == 2 else [R.pick([2, 3]), R.pick([1, 2, 3]), R.pick([2])]
        lmin = (max(cg[:nd]) - 1).bit_length()
        lmax = lmin + (3 if nd == 2 else R.pick([1, 2]))
    per = R.pick(["periodic", "absorbing", "mixed"])
    lo, L = [0.0] * 3, [1.0] * 3
    if "blast" not in P:
        if R.u() < 0.6:
            lo, L = domain(R, nd)
        if P in ("C91", "tri_layer", "rayleigh_taylor"):
            lo = [R.pick([0.0, 0.25]), 0.0, 0.0]
            if P == "rayleigh_taylor":
                a = 1 if nd == 2 else 2
                lo[a] = -0.5 * L[a]
    if nd == 2:
        cg[2] = 1
        lo[2], L[2] = 0.0, 1.0
    x = {"run/initial_conditions": P, "run/nstepmax": 1, "hydro/gamma0": R.pick([1.4, 5 / 3., 1.2])}
    if R.u() < 0.8:
        x["amr/epsilon_coarsen" if P == "kelvin_helmholtz" else "amr/error_max"] = R.u(0.02, 0.9) if P not in ("kelvin_helmholtz", "C91", "tri_layer", "rayleigh_taylor") else R.u(0.003, 0.3)
    cfg = base_cfg(ndim=nd, bs=bs, cg=cg, lmin=lmin, lmax=lmax, update=up)
    pa = []
    for a, n in enumerate("xyz"):
        t = per if per != "mixed" else R.pick(["periodic", "absorbing"])
        for s in ("min", "max"):
            cfg["mesh/boundary_type_%s%s" % (n, s)] = t
        pa.append(t == "periodic")
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    at = lambda a, f0=0.15, f1=0.85: lo[a] + L[a] * R.u(f0, f1)
    def maybe(k, v):
        if R.u() < 0.75:
            x[k] = v
    if "blast" in P:
        if R.u() < 0.5:
            for a in "xyz":
                x["blast/blast_n" + a] = R.pick([1, 1, 2, 3])
        for a in "xyz":
            maybe("blast/center_" + a, R.u(0.35, 0.65))
        maybe("blast/radius", R.u(0.08, 0.3))
        for k in ("density_in", "density_out", "pressure_in", "pressure_out"):
            maybe("blast/" + k, R.u(0.1, 5.0))
        if "MHD" in P:
            maybe("blast/blast_B", R.u(-2, 2)); maybe("blast/blast_alpha", R.u(-3, 3))
    elif P == "implode":
        maybe("implode/x0", R.u(-0.5, 0.5) * L[0])
        for k in ("p_in", "p_out", "rho_in", "rho_out"):
            maybe("implode/" + k, R.u(0.1, 3.0))
    elif P == "riemann2d":
        x["riemann2d/test_case"] = R.i(1, 19)
        x["riemann2d/x0"], x["riemann2d/y0"] = at(0), at(1)
    elif P == "kelvin_helmholtz":
        for k, v in (("rho_fac", R.u(-0.5, 2)), ("z1", at(1, .1, .45)), ("z2", at(1, .55, .9)), ("a", R.u(.03, .2)), ("amplitude", R.u(0.01, 0.5)), ("sigma", R.u(.1, .4)), ("P0", R.u(.5, 10)), ("uflow", R.u(-2, 2))):
            maybe("KH/" + k, v)
    elif P == "sod":
        x["sod/x0"] = at(0)
        for k in ("pL", "pR", "rhoL", "rhoR"):
            maybe("sod/" + k, R.u(0.1, 3.0))
    elif P == "rayleigh_taylor":
        for k, v in (("rho_top", R.u(1, 4)), ("rho_bot", R.u(.3, 3)), ("z0", R.u(-.2, .2)), ("P0", R.u(2.5, 5)), ("amplitude", R.u(.01, .5))):
            maybe("RT/" + k, v)
        x["gravity/gy"], x["gravity/gz"] = R.u(-.3, .1), R.u(-.3, .1)
    elif P == "C91":
        x["C91/pert_amplitude"] = 0.0
        for k, v in (("theta", R.u(1, 20)), ("mpoly", R.u(.5, 2)), ("rho0", R.u(.5, 10)), ("T0", R.u(.5, 10))):
            maybe("C91/" + k, v)
    elif P == "tri_layer":
        a = 1 if nd == 2 else 2
        x["tri_layer/perturbation"] = 0.0
        x["tri_layer/z1"], x["tri_layer/z2"] = at(a, .2, .45), at(a, .5, .8)
        for k, v in (("theta1", R.u(1, 20)), ("theta2", R.u(1, 20)), ("m1", R.u(.5, 2)), ("m2", R.u(.5, 2)), ("rho0", R.u(1, 10)), ("T0", R.u(1, 10))):
            maybe("tri_layer/" + k, v)
    cfg.update(x)
    return cfg, (lo, L, bs, cg, lmin, lmax, pa, per)

def first(w):
    T = w.trace(("step",))
    return T[0] if T and T[0].scal["iter"] == 0 else None

def compare_cells(w, s, P, cfg, lo, L, key):
    G = Grid(s, lo, L)
    X, h = lo + G.centers() * L, G.sizes()[:, None, :]
    want = vpinit.value(P, cfg, X[..., 0], X[..., 1], X[..., 2])
    sure = np.ones(X.shape[:2], bool)
    # cells at a discontinuity: the side depends on rounding
    for d in ((1, 1, 1), (-1, -1, -1), (1, -1, 1), (-1, 1, -1)):
        q = X + 1e-9 * np.array(d) * h
        v = vpinit.value(P, cfg, q[..., 0], q[..., 1], q[..., 2])
        for f in ("rho", "_p"):
            sure &= np.abs(v[f] - want[f]) <= 1e-5 * np.abs(want[f])
    C.count("cells_hinging_on_rounding", int((~sure).sum()))
    for f in want:
        if f.startswith("_"):
            continue
        if not C.require(f in s.fields, key + ":field", "field %s missing after initialisation" % f, w.replay):
            continue
        a, b = s.f(f), want[f]
        sc = max(np.abs(b).max(), np.abs(want["e_tot"]).max() if f != "rho" else 0)
        d = np.where(sure, np.abs(a - b), 0)
        d = np.where(np.isfinite(a), d, np.inf)
        if C.require(d.max() <= 1e-11 * sc, key + ":value:" + f, lambda: "%s: field %s differs from its definition by %.3g at %s (%.17g instead of %.17g)" % (key, f, d.max(), X[np.unravel_index(d.argmax(), d.shape)], a.flat[d.argmax()], b.flat[d.argmax()]), w.replay):
            C.count("cells_%s" % f, int(sure.sum()))
    C.evals += int(sure.sum())
    return sure

def analytic(k):
    R = Rand("p27", C.seed, k)
    P = ANALYTIC[k % len(ANALYTIC)]
    nd = 2 if P in ONLY2D else R.pick([2, 3])
    cfg, (lo, L, bs, cg, lmin, lmax, pa, per) = setup(R, P, nd)
    np_, th = R.pick([1, 2, 3, 4]), R.pick([1, 3])
    key = "%s/%dD" % (P, nd)
    w = Workload(C, exe, cfg, np_, th, ("step",), timeout=120)
    if not C.run_ok(w.r, key, w.replay):
        w.clean()
        return
    s = first(w)
    if C.require(s is not None, key + ":none", key + ": no state recorded after initialisation", w.replay):
        with C.lock:
            compare_cells(w, s, P, cfg, np.array(lo), np.array(L), key)
            want = vpinit.mesh(P, cfg, nd, list(bs[:nd]) + [1] * (3 - nd), cg, lmin, lmax, pa, lo, L)
            have = set((int(l), int(x), int(y), int(z)) for x, y, z, l in s.oct)
            if want is None:
                C.count("meshes_hinging_on_rounding")
            else:
                C.evals += 1
                C.count("meshes_compared")
                C.require(have == want, key + ":mesh", lambda: "%s on %d processes: the mesh has %d leaves instead of the %d the refinement rule leads to, e.g. %s against %s" % (key, np_, len(have), len(want), sorted(have - want)[:2], sorted(want - have)[:2]), w.replay)
            C.saw((key, per, "unit" if L == [1.0] * 3 else "other", np_, len(have) > np.prod(cg[:nd]), len(set(s.level))))
            C.count("leaves_at_maximum_level", int((s.level == lmax).sum()))
            if k < 3:
                C.sample("%s on %d processes: %d leaves, levels %d to %d" % (key, np_, len(s.oct), s.level.min(), s.level.max()))
    w.clean()

def perturbed(k):
    """random perturbations: within the configured amplitude and only where documented; another seed gives another realisation, the same seed the same"""
    R = Rand("p27r", C.seed, k)
    P = ("C91", "tri_layer", "rayleigh_taylor")[k % 3]
    nd = R.pick([2, 3])
    cfg, (lo, L, bs, cg, lmin, lmax, pa, per) = setup(R, P, nd)
    cfg["amr/error_max"], cfg["amr/level_max"] = 2.0, lmin + 1
    amp = R.u(1e-4, 1e-2)
    sd = R.i(1, 10**6)
    np_ = R.pick([1, 2, 3])
    names = {"C91": ("C91/pert_amplitude", "C91/seed"), "tri_layer": ("tri_layer/perturbation", "tri_layer/seed"), "rayleigh_taylor": ("RT/amplitude", "RT/seed")}[P]
    cfg[names[0]] = amp
    if P == "rayleigh_taylor":
        cfg["RT/multi_mode"] = True
    key = "%s/random/%dD" % (P, nd)
    got = []
    for s_ in (sd, sd, sd + R.i(1, 1000)):
        cfg[names[1]] = s_
        w = Workload(C, exe, cfg, np_, 1, ("step",), timeout=120)
        if not C.run_ok(w.r, key, w.replay):
            w.clean()
            return
        s = first(w)
        G = Grid(s, lo, L)
        X = np.array(lo) + G.centers() * np.array(L)
        ref = vpinit.value(P, cfg, X[..., 0], X[..., 1], X[..., 2])
        d = X[..., nd - 1]
        g = cfg["hydro/gamma0"]
        with C.lock:
            ok = True
            if P == "rayleigh_taylor":
                f = "rho_v" + "xyz"[nd - 1]
                r = s.f(f) / s.f("rho") / np.maximum(amp * 0.25 * (1 + np.cos(2 * np.pi * d)), 1e-300)
                r = np.where(1 + np.cos(2 * np.pi * d) < 1e-6, 0, r)
                mask = 1 + np.cos(2 * np.pi * d) > 1e-6
                p = (g - 1) * (s.f("e_tot") - 0.5 * s.f(f) ** 2 / s.f("rho"))
            else:
                p = (g - 1) * s.f("e_tot")
                r = (p / ref["_p"] - 1) / (amp * (1 if P == "C91" else 0.5))
                mask = (d >= 0.1) & (d <= 0.9) if P == "C91" else (d > cfg["tri_layer/z1"]) & (d <= cfg["tri_layer/z2"])
                edge = np.abs(d - 0.1) < 1e-9
                edge = edge | (np.abs(d - 0.9) < 1e-9)
                ok &= C.require(np.abs(r[~mask & ~edge]).max(initial=0) * amp < 1e-12, key + ":layer", lambda: "%s: perturbation %g outside the perturbed layer" % (key, np.abs(r[~mask]).max() * amp), w.replay)
            ok &= C.require(np.abs(r[mask]).max(initial=0) <= 1 + 1e-9 + 1e-12 / amp, key + ":amplitude", lambda: "%s: perturbation of %g times the configured amplitude" % (key, np.abs(r[mask]).max()), w.replay)
            n = int(mask.sum())
            if n >= 200:
                ok &= C.require(abs(r[mask].std() * np.sqrt(3) - 1) < 4 / np.sqrt(n) + 0.05 and abs(r[mask].mean()) < 4.5 / np.sqrt(3 * n), key + ":distribution", lambda: "%s: %d perturbations with mean %g and spread %g, not evenly spread over the amplitude" % (key, n, r[mask].mean(), r[mask].std()), w.replay)
            if ok:
                C.evals += n
        got.append(r[mask])
        last = w
        w.clean()
    with C.lock:
        if len(got[0]):
            C.require(np.array_equal(got[0], got[1]), key + ":repeat", key + ": two runs with one seed start from different states", last.replay)
            C.require(not np.allclose(got[0], got[2], atol=1e-6), key + ":seed", key + ": the configured seed changes nothing", last.replay)
            parts = np.array_split(got[0], 1)
        C.saw((key, np_))

def particles(k):
    R = Rand("p27p", C.seed, k)
    nd = R.pick([2, 3])
    lo, L = domain(R, nd)
    grid = k % 2 == 0
    x = {}
    N = [R.i(1, 14) for _ in range(3)]
    if nd == 2: N[2] = 1
    np_ = R.pick([1, 2, 3, 4])
    cfg = random_cfg(R, nd, "HydroUpdate_euler", steps=1, periodic=True)
    for a, n in enumerate("xyz"):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    if grid:
        cfg["run/initial_conditions"] = "vp_ic,particle_grid"
        if R.u() < 0.7:
            for a in range(3):
                cfg["particle_grid/n" + "xyz"[a]] = N[a]
        else:
            N = [(cfg.get("amr/coarse_oct_resolution_" + a) or (1 << cfg["amr/level_min"])) * cfg["amr/b" + a] for a in "xyz"]
            if nd == 2: N[2] = 1
        M, dt = R.u(.5, 3), R.pick([0.0, R.u(-.1, .1)]) * min(L[:nd])
        cfg["particle_grid/total_mass"], cfg["particle_grid/dt_perturb"] = M, dt
    else:
        n, m = R.i(1, 12), 0
        cfg["run/initial_conditions"] = "vp_ic,simple_particles"
        cfg["simple_particles/npart"] = n
        V = {}
        for f in ("px", "py", "pz", "vx", "vy", "vz", "mass"):
            m = R.pick([n, n, n, max(0, n - R.i(1, 3)), n + R.i(1, 5)])
            if f in ("px", "py", "pz"):
                a = "xyz".index(f[1])
                m = n if R.u() < 0.7 or lo[a] != 0 else m
                v = [lo[a] + L[a] * R.u(0.001, .999) for _ in range(m)]
                if nd == 2 and f == "pz": v = [0.0] * m
            else:
                v = [R.u(-1, 1) for _ in range(m)]
            if not v and R.u() < 0.5:
                V[f] = np.zeros(n)
                continue
            cfg["simple_particles/" + f] = v if v else None
            V[f] = np.array((v + [0.0] * n)[:n])
    key = "%s/%dD" % ("particle_grid" if grid else "simple_particles", nd)
    w = Workload(C, exe, cfg, np_, R.pick([1, 3]), ("step",), timeout=120)
    if C.run_ok(w.r, key, w.replay):
        s = first(w)
        p = s.particles()
        G = Grid(s, lo, L)
        if grid:
            i = np.stack(np.meshgrid(*[np.arange(v) for v in N], indexing="ij"), -1).reshape(-1, 3)
            u = (i + 0.5) / N
            uu = u.copy()
            if nd == 2: uu[:, 2] = 0
            leaf, cell = G.find(uu)
            unsure = G.edge_distance(uu) < 1e-9
            v = np.stack([s.f("rho_v" + a)[leaf, cell] / s.f("rho")[leaf, cell] for a in "xyz"], 1)
            pos = np.array(lo) + u * np.array(L) + v * dt
            pos = np.array(lo) + (pos - np.array(lo)) % np.array(L)
            want = {"pos": pos, "mass": np.full(len(pos), M / len(pos)), "vx": v[:, 0], "vy": v[:, 1], "vz": v[:, 2]}
        else:
            want = {"pos": np.stack([V["px"], V["py"], V["pz"]], 1), "mass": V["mass"], "vx": V["vx"], "vy": V["vy"], "vz": V["vz"]}
            unsure = np.zeros(len(want["mass"]), bool)
        with C.lock:
            n = len(want["mass"])
            if C.require(len(p.get("pos", [])) == n, key + ":count", lambda: "%s: %d particles instead of %d" % (key, len(p.get("pos", [])), n), w.replay):
                C.require(abs(p["mass"].sum() - want["mass"].sum()) <= 1e-12 * max(1e-3, np.abs(want["mass"]).sum()), key + ":mass", lambda: "%s: total mass %.17g instead of %.17g" % (key, p["mass"].sum(), want["mass"].sum()), w.replay)
                # match by nearest position: positions are distinct
                from scipy.spatial import cKDTree
                per = np.array(L) if grid else None
                q = (p["pos"] - np.array(lo)) % np.array(L) if grid else p["pos"]
                t = cKDTree(np.minimum((want["pos"] - np.array(lo)) % np.array(L), np.array(L) * (1 - 1e-15)), boxsize=np.array(L)) if grid else cKDTree(want["pos"])
                dist, idx = t.query(np.minimum(q, np.array(L) * (1 - 1e-15)) if grid else q)
                ok = ~unsure[idx]
                if not unsure.any():
                    C.require(len(set(idx)) == n, key + ":place", lambda: "%s: %d places are taken by no particle" % (key, n - len(set(idx))), w.replay)
                C.require((dist[ok] <= 1e-11 * max(L)).all(), key + ":place", lambda: "%s: a particle is %.3g away from its place" % (key, dist[ok].max()), w.replay)
                for f in ("vx", "vy", "vz", "mass"):
                    d = np.abs(p[f] - want[f][idx])[ok]
                    C.require((d <= 1e-11 * max(1.0, np.abs(want[f]).max())).all(), key + ":" + f, lambda: "%s: attribute %s of a particle is off by %.3g" % (key, f, d.max()), w.replay)
                C.count("particles_unsure", int((~ok).sum()))
                C.evals += int(ok.sum())
            C.saw((key, np_, n > 20))
    w.clean()

def record(f, b):
    f.write(struct.pack("=i", len(b)) + b + struct.pack("=i", len(b)))

def grafic(k):
    """files of cosmological initial conditions, written here (either byte order)"""
    R = Rand("p27g", C.seed, k)
    b, cg = R.pick([4, 4, 6]), [R.pick([2, 4]), R.pick([2, 4, 3]), R.pick([1, 2])]
    bs = [b, R.pick([4, b]), b]
    n = [bs[a] * cg[a] for a in range(3)]
    lmin = (max(cg) - 1).bit_length()
    dx, ast, om, ov, H0 = R.u(.1, 2), R.u(.005, .05), R.u(.2, .4), R.u(.5, .8), R.u(60, 75)
    f32 = lambda v: float(np.float32(v))
    d = C.dir()
    swap = R.u() < 0.5
    data = {}
    for name in ("ic_deltab", "ic_velbx", "ic_velby", "ic_velbz"):
        a = (R.g.uniform(-.5, .5, size=n[::-1]) if name == "ic_deltab" else R.g.uniform(-300, 300, size=n[::-1])).astype(np.float32)
        data[name] = a.astype(float)
        with open(os.path.join(d, name), "wb") as f:
            e = ">" if swap else "="
            w4 = lambda b_: f.write(struct.pack(e + "i", len(b_)) + b_ + struct.pack(e + "i", len(b_)))
            w4(struct.pack(e + "3i8f", n[0], n[1], n[2], dx, 0, 0, 0, ast, om, ov, H0))
            for z in range(n[2]):
                w4(a[z].astype(">f4" if swap else "=f4").tobytes())
    ob = R.pick([None, R.u(.03, .06)])
    cfg = base_cfg(ndim=3, bs=tuple(bs), cg=cg, lmin=lmin, lmax=lmin + 1, update="HydroUpdate_euler", run__initial_conditions="grafic_fields", run__nstepmax=1, hydro__gamma0=5 / 3., grafic__inputDir=d)
    if ob: cfg["cosmology/omegab"] = ob
    ob = ob or 0.049
    np_ = R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("step",), timeout=120)
    key = "grafic_fields"
    if C.run_ok(w.r, key, w.replay):
        s = first(w)
        x = ((s.oct[:, None, :3] * np.array(bs)) + Grid(s).ijk[None])
        g = {k_: v[x[..., 2], x[..., 1], x[..., 0]] for k_, v in data.items()}
        G_, mp, kb, Mpc = 6.67384e-11, 1.67262158e-27, 1.3806e-23, 3.085677e22
        h = f32(H0) * 1e3 / Mpc
        om, a_ = f32(om), f32(ast)
        rhoc = 3 * h * h / (8 * np.pi * G_)
        vstar = n[0] * f32(dx) * Mpc * h * np.sqrt(om) / 2
        rho = (1 + g["ic_deltab"]) * ob / om
        v = [g["ic_velb" + c] * 1e3 * a_ / vstar for c in "xyz"]
        Y = 0.24
        nb = (1 + g["ic_deltab"]) * ob * rhoc / a_ ** 3 * (1 - Y) / mp * (1 + Y / (1 - Y) / 4.002)
        p = (2 / 3.) * 1.5 * nb * kb * 317.5 * (1 / a_ - 1) ** 2 / 151 ** 2 * a_ ** 5 / (rhoc * om * vstar ** 2)
        p = np.maximum(p, 1e-20)
        want = vpinit.cons(5 / 3., rho, v[0], v[1], v[2], p)
        with C.lock:
            C.require(len(s.oct) == np.prod(cg), key + ":mesh", "grafic_fields: %d leaves instead of %d" % (len(s.oct), np.prod(cg)), w.replay)
            for f in ("rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"):
                e = np.abs(s.f(f) - want[f]) / np.abs(want[f]).max()
                C.require(e.max() < 1e-5, key + ":" + f, lambda: "grafic_fields (block %s, grid %s%s): field %s differs by %.3g from the files" % (bs, cg, ", swapped bytes" if swap else "", f, e.max()), w.replay)
            C.evals += s.f("rho").size
            C.saw((key, np_, swap, tuple(cg), bs[0] == bs[1]))
    w.clean()
    shutil.rmtree(d, True)

def tiled(k):
    """a checkpoint repeated in some directions: every tile is the checkpointed state"""
    R = Rand("p27t", C.seed, k)
    nd = R.pick([2, 2, 3])
    rep = R.pick([[2, 1, 1], [1, 2, 1], [2, 2, 1]] if nd == 2 else [[2, 1, 1], [1, 1, 2], [2, 2, 1], [1, 2, 2]])
    lmin = R.pick([1, 2]) if nd == 2 else 1
    cfg = random_cfg(R, nd, R.pick(["HydroUpdate_euler", "GLMMHDUpdate_euler", "MHDUpdate_euler"]), steps=2, cg=None, lmin=lmin, lmax=lmin + 2 if nd == 2 else lmin + 1)
    for a in "xyz":
        cfg.pop("amr/coarse_oct_resolution_" + a, None)
    cfg.update({"run/enable_checkpoint": True, "run/checkpoint_frequency": 1})
    w = Workload(C, exe, cfg, R.pick([1, 2]), 1, ("step",), timeout=120)
    key = "tiled_restart/%dD" % nd
    if not C.run_ok(w.r, key + "/first", w.replay):
        w.clean()
        return
    s = w.trace(("step",))[1]
    c2 = dict(cfg)
    c2.update({"run/initial_conditions": "tiled_restart", "run/enable_checkpoint": False, "restart/filename": os.path.join(w.d, "restart_out_1.h5"), "amr/level_min": lmin + 1, "amr/level_max": cfg["amr/level_max"] + 1, "run/nstepmax": 1})
    for a in range(3):
        c2["restart/nrep_" + "xyz"[a]] = rep[a]
        c2["amr/coarse_oct_resolution_" + "xyz"[a]] = (1 << lmin) * rep[a] if a < nd else 1
    np_ = int(np.prod(rep))
    w2 = Workload(C, exe, c2, np_, R.pick([1, 2]), ("step",), timeout=120)
    if C.run_ok(w2.r, key, w2.replay):
        t = first(w2)
        # the tile's leaf (x, y, z, level) appears at level + 1, shifted by whole tiles
        src = {tuple(int(v) for v in o): i for i, o in enumerate(s.oct)}
        hit = np.full(len(t.oct), -1)
        for i, (x, y, z, l) in enumerate(t.oct):
            n = 1 << int(l - 1)
            hit[i] = src.get((int(x) % n, int(y) % n, int(z) % n if nd == 3 else int(z), int(l) - 1), -1)
        with C.lock:
            ok = C.require((hit >= 0).all() and len(t.oct) == np_ * len(s.oct), key + ":mesh", lambda: "%s, %s tiles: %d leaves, %d of them not of the checkpointed mesh of %d leaves" % (key, rep, len(t.oct), (hit < 0).sum(), len(s.oct)), w2.replay)
            if ok:
                for f in ("rho", "e_tot", "rho_vx", "rho_vy"):
                    d = np.abs(t.f(f) - s.f(f)[hit])
                    C.require(d.max() == 0, key + ":" + f, lambda: "%s, %s tiles: field %s differs from the checkpoint by %.3g" % (key, rep, f, d.max()), w2.replay)
                C.evals += t.f("rho").size
                C.saw((key, tuple(rep), len(set(s.level)) > 1))
    w.clean(); w2.clean()

def body():
    f = 3 if C.thorough else 1
    jobs = [(analytic, k) for k in range(56 * f)] + [(perturbed, k) for k in range(6 * f)] + [(particles, k) for k in range(12 * f)] + [(grafic, k) for k in range(4 * f)] + [(tiled, k) for k in range(6 * f)]
    only = os.environ.get("VP_ONLY")
    pmap(lambda j: j[0](j[1]), [j for j in jobs if not only or j[0].__name__ == only], workers=6)

guarded(C, body)
