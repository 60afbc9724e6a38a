"""P10: the same simulation with different numbers of threads compared bit for bit; and under ThreadSanitizer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpcompare import *
from workloads import physics_cfg
import vptsan

C = Check("P10", rule="evaluations: recorded states compared between thread counts plus parallel regions watched by ThreadSanitizer; distinct: (physics, processes, threads) situations compared or watched with several threads at work")
rel = C.build("rel", "dyablo_mon")("dyablo_mon")
tsan = C.build("tsan", "dyablo_mon", "mon_cells", "mon_mesh")

def compare(k):
    R = Rand("p10", C.seed, k)
    cfg, what, tol = physics_cfg(R, k, thorough=C.thorough)
    np_ = R.pick([1, 1, 2])
    ref = Workload(C, rel, cfg, np_, 1, ("step", "post", "out"))
    if not C.run_ok(ref.r, what, ref.replay):
        return
    A = ref.trace()
    # sums over threads (particles or cells adding to one cell) may round differently
    exact = not ("cg" in what or "point_mass" in what)
    for th in [R.pick([2, 3, 4])] if not C.thorough else [2, 5, 8]:
        w = Workload(C, rel, cfg, np_, th, ("step", "post", "out"))
        if not C.run_ok(w.r, what + ":threads", w.replay):
            continue
        B = w.trace()
        good = C.require(len(A) == len(B), what + ":steps", "%s: %d states with 1 thread, %d with %d" % (what, len(A), len(B), th), w.replay)
        for a, b in zip(A, B):
            if not good:
                break
            C.evals += 1
            at = "%s np=%d threads=%d state %s iteration %s" % (what, np_, th, a.tag, a.scal.get("iter"))
            if not C.require(same_leaves(a, b), what + ":leaves", lambda: at + ": " + leaf_diff(a, b), w.replay):
                break
            for n, d in field_diff(a, b).items():
                if not C.require(d <= tol, what + ":" + n, "%s: field %s differs by %.3g of its scale" % (at, n, d), w.replay):
                    good = False
                if d > 0:
                    C.count("rounding_differences:" + what.split("/")[0])
                    if exact:
                        good &= C.require(False, what + ":bits:" + n, "%s: field %s is not bit-identical (%.3g)" % (at, n, d), w.replay)
            P = particle_diff(a, b)
            if P:
                good &= C.require(P[0] is None and all(d <= tol for d in P[1].values()), what + ":particles", "%s: %s" % (at, P), w.replay)
        C.distinct.add("%s np=%d threads=%d" % (what, np_, th))
        w.clean()
    ref.clean()

def watch(k):
    R = Rand("p10t", C.seed, k)
    cfg, what, tol = physics_cfg(R, k, steps=2 if not C.thorough else 4)
    if "vp/npart" in cfg:
        cfg["vp/npart"], cfg["vp/pcluster"] = 400, 0.7
        if what.startswith("cg"):
            den = ["NGP", "CIC"][(k // 12) % 2]
            cfg.update({"particles/update_density": "ParticleUpdate_%s_density" % den, "particles/update_position": "ParticleUpdate_%s_move" % den})
            cfg["gravity/CG_eps"] = 1e-4
            what = "cg/" + den
    np_, th = R.pick([1, 2]), R.pick([3, 4])
    what = "tsan:" + what
    w = Workload(C, tsan("dyablo_mon"), cfg, np_, th, ("none",), timeout=240, env={"TSAN_OPTIONS": vptsan.OPTS % "tsan"})
    judge(w.r, w.d, what, np_, th, w.replay)
    w.clean()

def project(k):
    """Many particles crowded around random places of a refined mesh, projected and moved by several threads"""
    R = Rand("p10p", C.seed, k)
    den, nd = ["CIC", "NGP"][k % 2], 3 if k % 4 < 2 else 2
    np_, th = [1, 3][k // 2 % 2], R.pick([3, 4])
    cfg = random_cfg(R, nd, "HydroUpdate_euler", steps=2, bs=4, cg=None, lmin=1 if nd == 3 else 2, lmax=3, vp__refine_prob=0.5, vp__mark_refine=0.05, vp__npart=1200, vp__psites=80, vp__pvel=0.01,
                     particles__update_density="ParticleUpdate_%s_density" % den, particles__update_position="ParticleUpdate_%s_move" % den,
                     gravity__solver="GravitySolver_point_mass", gravity__gravity_type="constant_field", gravity__softening=0.2, gravity__point_mass_Gmass=0.01)
    if nd == 2: cfg["gravity/point_mass_z"] = 0.0
    what = "tsan:project/%s/%dD" % (den, nd)
    w = Workload(C, tsan("dyablo_mon"), cfg, np_, th, ("none",), timeout=240, env={"TSAN_OPTIONS": vptsan.OPTS % "tsan"})
    judge(w.r, w.d, what, np_, th, w.replay)
    w.clean()

def judge(r, d, what, np_, th, replay):
    keep, aside = vptsan.reports(d)
    reg, parts = vptsan.regions(d)
    for loc, text in keep:
        C.violation("race:" + loc, "%s: %s" % (what, text), replay)
    C.run_ok(r, what, replay)
    with C.lock:
        C.evals += reg
        C.count("parallel_regions_watched", reg)
        C.count("thread_participations", parts)
        C.count("reports_set_aside_in_kokkos_lockfree_code", aside)
        if parts > reg:
            C.distinct.add("%s np=%d threads=%d" % (what, np_, th))
    C.sample("%s np=%d threads=%d: %d parallel regions, %d thread participations, %d races" % (what, np_, th, reg, parts, len(keep)))

def watch_mon(k):
    R = Rand("p10m", C.seed, k)
    exe = ["mon_cells", "mon_mesh"][k % 2]
    d = C.dir()
    np_ = [4, 2, 3, 4][k % 4]
    args = monitor_args(exe, R, 1 + (k % 2 == 0))
    r = run(tsan(exe), args, np_, 3, cwd=d, timeout=240, env={"TSAN_OPTIONS": vptsan.OPTS % "tsan"})
    judge(r, d, "tsan:" + exe, np_, 3, {"exe": exe, "args": args, "np": np_, "threads": 3})

def monitor_args(exe, R, n):
    return [R.i(1, 10**8), 2 * n, 8 * n, R.pick([2, 3])]

def body():
    pmap(compare, range(24 if not C.thorough else 240), 3)
    pmap(watch, list(range(12)) + [21] if not C.thorough else range(96), 3)
    pmap(project, range(4 if not C.thorough else 24), 3)
    pmap(watch_mon, range(6 if not C.thorough else 60), 3)
guarded(C, body)
