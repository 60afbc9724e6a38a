"""P09: the same simulation on different numbers of processes and load-balancing settings, compared state by state."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpcompare import *
from workloads import physics_cfg, cosmology

C = Check("P09", rule="evaluations: one recorded state compared (leaves, time step, every field, particles) between two partitions; distinct: (update, physics, dimension, processes, load balancing, criterion) with more than one process holding leaves")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")

def one(k):
    R = Rand("p09", C.seed, k)
    cfg, what, tol = physics_cfg(R, k, thorough=C.thorough)
    if k % 24 in (1, 3, 9):
        cosmology(cfg, R)
        what += "/cosmology"
    ref = Workload(C, exe, cfg, 1, 1, ("step", "out"))
    if not C.run_ok(ref.r, what, ref.replay):
        return
    A = ref.trace()
    ok = True
    for np_ in R.pick([(2, 5), (3, 4), (2, 7), (3, 6)])[: (1 if not C.thorough and k % 3 else 2)]:
        np_ = max(2, min(np_, min(len(a.oct) for a in A) // 2, 2 ** (cfg["mesh/ndim"] * cfg["amr/level_min"]) // 2 if not cfg.get("amr/coarse_oct_resolution_x") else 3))
        c2 = dict(cfg)
        c2["amr/load_balancing_frequency"] = R.pick([1, 1, 2, 3, 1000])
        c2["amr/loadbalance_coherent_levels"] = R.pick([0, 1, 2, 3])
        c2["vp/ic_loadbalance"] = R.pick([True, True, False])
        w = Workload(C, exe, c2, np_, R.pick([1, 2]), ("step", "out"))
        if not C.run_ok(w.r, what + ":np%d" % np_, w.replay):
            ok = False
            continue
        B = w.trace()
        good = C.require(len(A) == len(B), what + ":steps", "%s: %d states on 1 process, %d on %d" % (what, len(A), len(B), np_), w.replay)
        spread = 0
        for a, b in zip(A, B):
            C.evals += 1
            if not good:
                break
            at = "%s np=%d state %s iteration %s" % (what, np_, a.tag, a.scal.get("iter"))
            spread = max(spread, len(set(b.rank.tolist())))
            if not C.require(same_leaves(a, b), what + ":leaves", lambda: at + ": " + leaf_diff(a, b), w.replay):
                good = False
                break
            for s in a.scal:
                x, y = a.scal[s], b.scal.get(s)
                good &= C.require(x == y or (x is not None and y is not None and abs(x - y) <= tol * max(abs(x), abs(y))), what + ":scalar", "%s: %s is %r on 1 process, %r" % (at, s, x, y), w.replay)
                for m in b.metas[1:]:
                    good &= C.require(m["scalars"].get(s) == y, what + ":scalar-ranks", "%s: %s differs among the processes: %r %r" % (at, s, y, m["scalars"].get(s)), w.replay)
            if a.fields != b.fields:
                C.violation(what + ":fields", at + ": fields %s / %s" % (a.fields, b.fields), w.replay)
                good = False
                break
            D = field_diff(a, b)
            for n, d in D.items():
                t = tol if not n.startswith("g") else max(tol, cfg.get("vp_gtol", 0))
                good &= C.require(d <= t, what + ":" + n, "%s: field %s differs by %.3g of its scale" % (at, n, d), w.replay)
            P = particle_diff(a, b)
            if P:
                good &= C.require(P[0] is None, what + ":particles", "%s: %s" % (at, P[0]), w.replay)
                for n, d in P[1].items():
                    good &= C.require(d <= tol, what + ":particles", "%s: particle %s differs by %.3g" % (at, n, d), w.replay)
            with C.lock:
                C.stats["max_relative_difference"] = max(C.stats.get("max_relative_difference", 0), max(D.values()) if good and D else 0)
            if not good:
                break
        if spread > 1:
            with C.lock:
                C.distinct.add("%s/np%d/lb%d.%d" % (what, np_, c2["amr/load_balancing_frequency"], c2["amr/loadbalance_coherent_levels"]))
        C.count("leaves_compared", sum(len(a.oct) for a in A))
        C.sample("%s np=%d: %d states, %d..%d leaves" % (what, np_, len(A), len(A[0].oct), len(A[-1].oct)))
        ok &= good
        w.clean()
    ref.clean()

guarded(C, lambda: pmap(one, range(36 if not C.thorough else 400), 4))
