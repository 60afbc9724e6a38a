"""P13: runs continued from checkpoints compared, state by state, with the uninterrupted run."""
import os, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpcompare import *
from workloads import physics_cfg, cosmology

C = Check("P13", rule="evaluations: one state of a continued run compared with the uninterrupted run (the first bit for bit: leaves, every field, particles, scalars); distinct: (physics, processes writing, processes reading, iteration) of the checkpoints continued from")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
TAGS = ("step", "out", "ckpt")

def continue_from(k, what, tol, A, w, it, np_, cfg, R):
    """starts the program again from the checkpoint of iteration it in w's directory"""
    src = os.path.join(w.d, "restart_out_%d.ini" % it)
    C.require(os.path.exists(src) and os.path.exists(src[:-4] + ".h5"), what + ":missing", "no checkpoint of iteration %d was written" % it, w.replay)
    if not os.path.exists(src):
        return
    d = C.dir()
    for f in (src, src[:-4] + ".h5"):
        shutil.copy(f, d)
    replay = dict(w.replay, restart_iteration=it, restart_np=np_)
    r = run(exe, ["restart_out_%d.ini" % it], np_, R.pick([1, 2]), cwd=d, timeout=120)
    C.count("runs")
    at0 = "%s written on %d, continued on %d processes from iteration %d" % (what, w.np_, np_, it)
    if not C.run_ok(r, what + ":continue", replay, at0):
        return
    B = read_trace(d)
    C.count("recorded_states", len(B))
    ck = [s for s in A if s.tag == "ckpt" and s.scal["iter"] == it][0]
    last = max(s.scal["iter"] for s in A)
    if not C.require(B and B[0].tag == "out", what + ":first", at0 + ": no state recorded at the start", replay):
        return
    b = B[0]
    C.evals += 1
    # the restored state itself: bit for bit
    if not C.require(same_leaves(ck, b), what + ":restored:leaves", lambda: at0 + ": restored mesh differs: " + leaf_diff(ck, b), replay):
        return
    C.require(ck.fields == b.fields, what + ":restored:fields", at0 + ": fields %s became %s" % (ck.fields, b.fields), replay)
    for n in set(ck.fields) & set(b.fields):
        C.require(value_multiset(ck, [n]) == value_multiset(b, [n]), what + ":restored:" + n, lambda: at0 + ": field %s is not restored bit for bit (largest difference %.3g)" % (n, field_diff(ck, b, [n])[n]), replay)
    p, q = ck.particles(), b.particles()
    if p or q:
        same = set(p) == set(q) and len(p["id"]) == len(q["id"])
        if same:
            i, j = np.argsort(p["id"], kind="stable"), np.argsort(q["id"], kind="stable")
            same = all(p[n][i].tobytes() == q[n][j].tobytes() for n in p)
        C.require(same, what + ":restored:particles", at0 + ": the particles are not restored bit for bit: %d %s, now %d %s" % (len(p.get("id", [])), sorted(p), len(q.get("id", [])), sorted(q)), replay)
        C.count("particles_restored", len(p.get("id", [])))
    for s in ("iter", "time"):
        C.require(ck.scal[s] == b.scal[s], what + ":restored:" + s, at0 + ": %s was %r and is restored as %r" % (s, ck.scal[s], b.scal[s]), replay)
    # the continuation
    sa = {s.scal["iter"]: s for s in A if s.tag == "step" and s.scal["iter"] >= it}
    sb = {s.scal["iter"]: s for s in B if s.tag == "step"}
    good = C.require(sorted(sa) == sorted(sb), what + ":steps", at0 + ": steps %s instead of %s" % (sorted(sb), sorted(sa)), replay)
    pairs = [(sa[i], sb[i]) for i in sorted(sa) if i in sb] + [([s for s in A if s.tag == "out"][-1], [s for s in B if s.tag == "out"][-1])]
    for a, b in pairs:
        C.evals += 1
        at = "%s, state %s of iteration %s" % (at0, a.tag, a.scal["iter"])
        if not C.require(same_leaves(a, b), what + ":leaves", lambda: at + ": " + leaf_diff(a, b), replay):
            break
        for s in ("iter", "time") + (("aexp",) if "aexp" in a.scal and a.tag == "step" else ()):
            C.require(abs(a.scal[s] - b.scal[s]) <= tol * abs(a.scal[s]), what + ":" + s, at + ": %s is %r instead of %r" % (s, b.scal[s], a.scal[s]), replay)
        bad = [(n, d) for n, d in field_diff(a, b, [n for n in a.fields if n in b.fields]).items() if not d <= tol]
        C.require(not bad, what + ":state", at + ": fields differ %s" % bad[:3], replay)
        P = particle_diff(a, b)
        if P:
            C.require(P[0] is None and all(d <= tol for d in P[1].values()), what + ":particles", "%s: particles: %s" % (at, P), replay)
        if bad or (P and P[0]):
            break
    C.distinct.add("%s np%d->np%d iteration %d" % (what, w.np_, np_, it))
    C.sample("%s: %d states compared, %d leaves" % (at0, len(pairs) + 1, len(ck.oct)))
    shutil.rmtree(d, True)

def one(k):
    R = Rand("p13", C.seed, k)
    n = R.i(4, 6) if not C.thorough else R.i(4, 9)
    cfg, what, tol = physics_cfg(R, k, steps=n)
    if k % 24 in (0, 2, 4, 9):
        cosmology(cfg, R)
        what += "/cosmology"
    cfg.update({"run/enable_output": True, "output/backend": "IOManager_vp", "run/enable_checkpoint": True, "output/checkpoint": "IOManager_ckvp", "run/checkpoint_frequency": R.pick([1, 2])})
    nleaf = 2 ** (cfg["mesh/ndim"] * cfg["amr/level_min"]) if not cfg.get("amr/coarse_oct_resolution_x") else 4
    npmax = max(1, min(5, nleaf // 2))
    w = Workload(C, exe, cfg, R.i(1, npmax), 1, TAGS)
    if not C.run_ok(w.r, what, w.replay):
        return
    A = w.trace()
    its = sorted(set(s.scal["iter"] for s in A if s.tag == "ckpt"))
    if not C.require(its, what + ":missing", "%s: no checkpoint although the frequency is %d" % (what, cfg["run/checkpoint_frequency"]), w.replay):
        return
    picks = [its[R.i(0, len(its) - 1)]] if not C.thorough else its
    for it in picks:
        continue_from(k, what, tol, A, w, it, R.i(1, npmax), cfg, R)
    w.clean()

guarded(C, lambda: pmap(one, range(36 if not C.thorough else 300), 4))
