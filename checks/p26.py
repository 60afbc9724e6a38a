"""P26: whole simulations and mesh/field histories under AddressSanitizer and UndefinedBehaviorSanitizer with dyablo's own debug assertions on."""
import os, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from workloads import physics_cfg, shipped, cosmology

C = Check("P26", rule="evaluations: simulation steps and monitor operations executed under the sanitizers; distinct: (physics, dimension, block shape, processes) configurations run to completion")
exe = C.build("asan", "dyablo_mon", "mon_mesh", "mon_cells")

def sim(k):
    R = Rand("p26", C.seed, k)
    cfg, what, tol = physics_cfg(R, k, thorough=C.thorough, steps=3)
    np_ = R.pick([1, 2, 3])
    if R.u() < 0.4:
        cfg.update({"run/enable_output": True, "run/output_frequency": 2, "run/enable_checkpoint": True, "run/checkpoint_frequency": 2})
    w = Workload(C, exe("dyablo_mon"), cfg, np_, R.pick([1, 2]), ("none",), timeout=240, env=ASAN_ENV)
    if C.run_ok(w.r, what, w.replay):
        with C.lock:
            C.evals += 3
            C.count("steps_under_sanitizers", 3)
            C.distinct.add("%s %dx%dx%d np=%d" % (what, cfg["amr/bx"], cfg["amr/by"], cfg["amr/bz"], np_))
        C.sample("%s np=%d: %.1f s clean" % (what, np_, w.r.wall))
    w.clean()

def again(k):
    """a run with a checkpoint, and its continuation on other processes"""
    R = Rand("p26r", C.seed, k)
    cfg, what, tol = physics_cfg(R, R.pick([0, 2, 3, 7, 8, 11]) + 12 * R.i(0, 20), steps=3)
    if R.u() < 0.3:
        cosmology(cfg, R)
    b = R.pick([(8, 8, 4), (4, 6, 4), (6, 4, 8), (4, 8, 6), (4, 4, 4)]) # the patch schemes need even blocks
    if "legacy" not in what:
        for a, n in zip("xyz"[:cfg["mesh/ndim"]], b):
            cfg["amr/b" + a] = n
    cfg.update({"run/enable_output": True, "run/output_frequency": 2, "run/enable_checkpoint": True, "run/checkpoint_frequency": 2})
    np_ = R.pick([1, 2])
    w = Workload(C, exe("dyablo_mon"), cfg, np_, 1, ("none",), timeout=240, env=ASAN_ENV)
    if C.run_ok(w.r, what, w.replay):
        f = sorted(os.path.basename(x) for x in glob.glob(w.d + "/restart_*_2.ini"))
        if C.require(f, what + ":missing", what + ": no checkpoint of iteration 2", w.replay):
            m = R.pick([1, 2, 3])
            r = run(exe("dyablo_mon"), [f[0]], m, 1, cwd=w.d, timeout=240, env=ASAN_ENV)
            if C.run_ok(r, what + ":continue", dict(w.replay, restart=f[0], restart_np=m)):
                with C.lock:
                    C.evals += 5
                    C.count("steps_under_sanitizers", 5)
                    C.count("continued_runs_under_sanitizers")
                    C.distinct.add("continued %s %dx%dx%d np=%d->%d" % (what, cfg["amr/bx"], cfg["amr/by"], cfg["amr/bz"], np_, m))
    w.clean()

def settings(k):
    files = sorted(glob.glob("/repo/settings/*/*.ini") + glob.glob("/repo/settings/*/*/*.ini"))
    f = files[(k + C.seed * 5) % len(files)]
    cfg = shipped(f, 2, 5)
    R = Rand("p26s", C.seed, k)
    np_ = R.pick([1, 2])
    what = "shipped/" + os.path.relpath(f, "/repo/settings")
    w = Workload(C, exe("dyablo_mon"), cfg, np_, R.pick([1, 2]), ("none",), timeout=240, env=ASAN_ENV)
    if C.run_ok(w.r, what, w.replay):
        with C.lock:
            C.evals += 2
            C.count("steps_under_sanitizers", 2)
            C.distinct.add("%s np=%d" % (what, np_))
    w.clean()

def hist(k):
    R = Rand("p26h", C.seed, k)
    m = ["mon_cells", "mon_mesh"][k % 2]
    np_, nd = R.pick([1, 2, 3, 4]), R.pick([2, 3])
    args = (R.i(1, 10**8), 2, 12, nd)
    d = C.dir()
    r = run(exe(m), args, np_, R.pick([1, 2]), cwd=d, timeout=240, env=ASAN_ENV)
    if C.run_ok(r, m, {"exe": m, "args": args, "np": np_}):
        with C.lock:
            C.evals += 24
            C.count("history_operations_under_sanitizers", 24)
            C.distinct.add("%s %dD np=%d" % (m, nd, np_))

def body():
    pmap(sim, range(30 if not C.thorough else 360), 4)
    pmap(again, range(8 if not C.thorough else 80), 4)
    pmap(settings, range(10 if not C.thorough else 60), 4)
    pmap(hist, range(10 if not C.thorough else 120), 4)
guarded(C, body)
