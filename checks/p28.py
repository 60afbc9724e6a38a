"""P28: the same problem stated in other units of density, velocity and length (powers of two), compared state by state with the original run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpcompare import same_leaves, leaf_diff
from workloads import physics_cfg, domain

C = Check("P28", rule="evaluations: one field, scalar or particle attribute of one recorded state of a run in other units compared with the original run; distinct: (physics, dimension, borders, which units were changed)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")

def powers(cfg, nd):
    """parameter -> exponents of the units of density, velocity, length"""
    d = {}
    for n in "xyz"[:nd]:
        d["mesh/%smin" % n] = d["mesh/%smax" % n] = d["gravity/point_mass_" + n] = (0, 0, 1)
        d["gravity/g" + n] = (0, 2, -1)
    d.update({"vp/rho0": (1, 0, 0), "vp/p0": (1, 2, 0), "vp/v0": (0, 1, 0), "vp/vamp": (0, 1, 0), "vp/b0": (.5, 1, 0), "vp/bamp": (.5, 1, 0), "vp/pvel": (0, 1, 0), "vp/pmass": (1, 0, nd), "vp/fixed_dt": (0, -1, 1),
              "gravity/softening": (0, 0, 1), "gravity/point_mass_Gmass": (0, 2, 1), "gravity/4_Pi_G": (-1, 2, -2), "viscosity/mu": (1, 1, 1), "thermal_conduction/kappa": (1, 1, 1),
              "amr/mass_refine": (1, 0, nd), "amr/mass_coarsen": (1, 0, nd), "amr/velocity_refine": (0, 1, 0), "amr/velocity_coarsen": (0, 1, 0), "hydro/smallr": (1, 0, 0), "hydro/smallp": (0, 2, 0), "hydro/smallc": (0, 1, 0), "run/tEnd": (0, -1, 1)})
    return d

FIELDS = {"rho": (1, 0, 0), "rho_g": (1, 0, 0), "e_tot": (1, 2, 0), "rho_v": (1, 1, 0), "B": (.5, 1, 0), "psi": (.5, 2, 0), "g": (0, 2, -1), "gphi": (0, 2, 0)}
PART = {"pos": (0, 0, 1), "vx": (0, 1, 0), "vy": (0, 1, 0), "vz": (0, 1, 0), "mass": None, "id": (0, 0, 0)}

def one(k):
    R = Rand("p28", C.seed, k)
    cfg, what, tol = physics_cfg(R, k, thorough=C.thorough, cooling__update="none")
    nd = cfg["mesh/ndim"]
    lo, L = domain(R, nd)
    for a, n in enumerate("xyz"[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    if "point_mass" in what:
        for a, n in enumerate("xyz"[:nd]):
            cfg["gravity/point_mass_" + n] = lo[a] + R.u(0.3, 0.6) * L[a]
    for key, v in (("vp/rho0", 1.0), ("vp/p0", 1.0), ("vp/vamp", 0.5), ("vp/bamp", 0.5), ("vp/pmass", 1.0), ("vp/pvel", 1.0), ("hydro/smallr", 1e-12), ("hydro/smallp", 1e-12)):
        cfg.setdefault(key, v)
    if "cg" in what:
        cfg.setdefault("gravity/4_Pi_G", 1.0)
    if R.u() < 0.4:
        cfg["vp/v0"] = [R.u(-1, 1) if a < nd else 0.0 for a in range(3)]
    if "downflows" in what:
        cfg["amr/velocity_coarsen"], cfg["amr/velocity_refine"] = R.u(-0.1, 0.1), R.u(0.1, 0.4)
    glm = "GLM" in cfg["hydro/update"]
    # units: density by powers of 4 (the magnetic field takes its root), velocity and length by powers of 2
    U = [4.0 ** R.pick([-2, -1, 1, 2]), 2.0 ** R.pick([-3, -1, 1, 4]), 2.0 ** R.pick([-2, -1, 1, 3])]
    keep = R.pick([0, 0, 1, 2, 3])     # change all, or one only
    if keep:
        U = [u if i == keep - 1 else 1.0 for i, u in enumerate(U)]
    if "diffusion" in what:            # the parabolic limit takes mu and kappa for diffusivities: it is stated for densities near one
        U[0] = 1.0
    if glm:                            # the speed of the divergence cleaning is set from the cell size
        U[2] = 1.0
    if U == [1.0] * 3:
        U[1] = 4.0
    f = lambda e: U[0] ** e[0] * U[1] ** e[1] * U[2] ** e[2]
    new = dict(cfg)
    for key, e in powers(cfg, nd).items():
        if key in cfg:
            v = cfg[key]
            new[key] = [x * f(e) for x in v] if isinstance(v, list) else v * f(e)
    tol = max(tol, 1e-11) if "cg" not in what else 1e-6
    if "Compute_dt_particle_velocity" in str(cfg.get("dt/dt_kernel")):     # adds 1e-10 to every velocity
        tol = max(tol, 1e-7)
    np_ = R.pick([1, 1, 2])
    ref = Workload(C, exe, cfg, np_, 1, ("step", "out"))
    w = Workload(C, exe, new, np_, 1, ("step", "out"))
    tag = "%s units of density, velocity, length multiplied by %g, %g, %g" % (what, *U)
    if not C.run_ok(ref.r, what, ref.replay) or not C.run_ok(w.r, what, w.replay, tag):
        return
    A, B = ref.trace(), w.trace()
    if not C.require(len(A) == len(B), what + ":steps", "%s: %d states, originally %d" % (tag, len(B), len(A)), w.replay):
        return
    worst = 0.0
    for a, b in zip(A, B):
        at = "%s state %s iteration %s" % (tag, b.tag, b.scal.get("iter"))
        if not all(np.isfinite(a.f(n)).all() for n in a.fields):
            C.count("states_not_finite")
            break
        if not C.require(same_leaves(a, b), what + ":leaves", lambda: at + ": " + leaf_diff(a, b), w.replay):
            return
        for n in ("time", "dt"):
            x, y = a.scal.get(n), b.scal.get(n)
            if x is not None and y is not None and x < 1e300:
                y = y / f((0, -1, 1))
                C.evals += 1
                C.require(abs(x - y) <= tol * max(abs(x), 1e-300), what + ":" + n, "%s: %s is %r, originally %r" % (at, n, y, x), w.replay)
        pa, pb = a.order(), b.order()
        sc = {}
        for n in a.fields:
            base = n[:-5] if n.endswith("_next") else n
            g = base if base in FIELDS else base[:-1]
            if g not in FIELDS or (nd == 2 and n == "gz"):
                continue
            x, y = a.f(n)[pa], b.f(n)[pb] / f(FIELDS[g])
            m = np.abs(x).max()
            if g in ("rho_v", "B", "g"):
                m = max(np.abs(a.f(c)).max() for c in a.fields if c[:-1] == g)
            if g == "rho_v":
                m = max(m, np.sqrt(np.abs(a.f("rho")).max() * np.abs(a.f("e_tot")).max()) * 1e-3)
            if g == "psi":
                m = max(m, np.abs(a.f("e_tot")).max() / np.sqrt(np.abs(a.f("rho")).max()))
            C.evals += 1
            d = np.abs(x - y).max() / (m or 1.0)
            worst = max(worst, d)
            if not C.require(d <= tol, what + ":" + n, "%s: field %s differs by %.3g of its scale" % (at, n, d), w.replay):
                return
        p, q = a.particles(), b.particles()
        if p:
            i, j = np.argsort(p["id"]), np.argsort(q["id"])
            if not C.require(len(i) == len(j) and (p["id"][i] == q["id"][j]).all(), what + ":particles", at + ": not the same particles", w.replay):
                return
            for n in p:
                e = PART.get(n, (0, 0, 0)) or (1, 0, nd)
                x, y = p[n][i], q[n][j] / f(e)
                if n == "pos":
                    x, y = x[:, :nd], y[:, :nd]
                m = np.abs(x).max() if x.size else 1.0
                d = np.abs(x - y)
                if n == "pos":
                    d = np.minimum(d, np.abs(d - np.array(L)[:nd]))
                C.evals += 1
                d = d.max() / (m or 1.0) if d.size else 0.0
                worst = max(worst, d)
                C.require(d <= 10 * tol, what + ":particles:" + n, "%s: %s of a particle differs by %.3g" % (at, n, d), w.replay)
    if worst == 0:
        C.count("runs_identical_bit_for_bit")
    C.distinct.add("%s/%s" % (what, "".join(c for c, u in zip("dvl", U) if u != 1)))
    C.sample("%s np=%d: %d states, largest difference %.2g" % (tag, np_, len(A), worst))
    ref.clean(); w.clean()

guarded(C, lambda: pmap(one, range(48 if not C.thorough else 480), 4))
