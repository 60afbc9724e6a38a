"""P07: conservation, decided on recorded states of real runs (every update, every remap, every load balance)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *

C = Check("P07", rule="evaluations: one conserved quantity compared between two consecutive recorded states; distinct: (update, riemann, dim, mesh kind, processes) with mesh activity and evolving flow")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")

def cases():
    l = []
    reps = 3 if not C.thorough else 16
    for rep in range(reps):
        for u in CONSERVATIVE:
            for ndim in (2, 3):
                R = Rand("p07", C.seed, rep, u, ndim)
                l.append((random_cfg(R, ndim, u, steps=R.i(3, 5) if not C.thorough else R.i(4, 10)), R.pick([1, 2, 3] if ndim == 3 else [1, 3, 4]), R.pick([1, 2]), u))
        for u in UNIFORM_ONLY:
            R = Rand("p07u", C.seed, rep, u)
            ndim = R.pick([2, 3])
            cfg = random_cfg(R, ndim, u, steps=4, vp__refine_prob=0.0, vp__mark_refine=0.0, vp__mark_coarsen=0.0)
            l.append((cfg, R.pick([1, 3]), 1, u))
    return l

def one(case):
    cfg, np_, th, u = case
    w = Workload(C, exe, cfg, np_, th, ("step", "pre", "post", "preamr", "postamr", "out"))
    if not C.run_ok(w.r, "%s:d%d" % (u, cfg["mesh/ndim"]), w.replay):
        return
    T = w.trace()
    nd = cfg["mesh/ndim"]
    names = ["rho", "e_tot", "rho_vx", "rho_vy"] + (["rho_vz"] if nd == 3 else []) + (["Bx", "By"] + (["Bz"] if nd == 3 else []) if "MHD" in u else [])
    ref = {}
    prev = None
    moved = levels = 0
    for s in T:
        for n in names:
            # between an update's output and the end of the step the new state lives in the *_next fields
            key = n + "_next" if s.tag == "post" and n + "_next" in s.fields else n
            if key not in s.fields:
                C.violation("field", "field %s is missing in state %s" % (n, s.tag), w.replay)
                return
            f = s.f(key)
            v = float((f.sum(axis=1) * s.vol()).sum())
            scale = float((np.abs(f).sum(axis=1) * s.vol()).sum())
            if n.startswith("rho_v") or n.startswith("B"):
                scale = max(scale, ref["rho_scale"] * 1e-3)
            if n == "rho":
                ref.setdefault("rho_scale", scale)
            C.evals += 1
            if not np.isfinite(v):
                C.violation("%s:%s:nonfinite" % (u, n), "%s is not finite at %s, iteration %s" % (n, s.tag, s.scal.get("iter")), w.replay)
                return
            if n in ref:
                if not C.require(abs(v - ref[n][0]) <= 3e-13 * max(scale, ref[n][1]), "%s:%s:%s" % (u, n, s.tag),
                          "%s (%dD, %d processes): total %s changed from %.17g to %.17g (relative to scale %.2e) by state '%s' of iteration %s" % (u, nd, np_, n, ref[n][0], v, abs(v - ref[n][0]) / max(scale, ref[n][1]), s.tag, s.scal.get("iter")), w.replay):
                    return
            else:
                ref[n] = (v, scale)
        if prev is not None and len(prev.oct) != len(s.oct):
            moved += 1
        if prev is not None and s.tag == "post" and "rho_next" in s.fields and len(prev.oct) == len(s.oct):
            levels += int(np.abs(s.f("rho_next") - s.f("rho")).max() > 1e-8)
        prev = s
    nl = len(set(T[-1].level.tolist()))
    if levels and (nl > 1 or u in UNIFORM_ONLY):
        C.distinct.add("%s/%s/%dD/np%d/th%d/%s" % (u, cfg.get("hydro/riemann"), nd, np_, th, "levels%d" % nl))
    C.count("mesh_changes", moved)
    C.count("flow_updates", levels)
    C.sample("%s %dD np=%d: %d states, %d leaves on %d levels, total mass %.15g" % (u, nd, np_, len(T), len(T[-1].oct), nl, ref["rho"][0]))
    w.clean()

guarded(C, lambda: pmap(one, cases(), 4))
