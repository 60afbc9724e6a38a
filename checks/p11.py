"""P11: the same run mirrored, with axes exchanged and shifted periodically, compared state by state with the original."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpcompare import scale_of
from workloads import physics_cfg, domain
import itertools

C = Check("P11", rule="evaluations: one field of one recorded state of a transformed run compared cell by cell with the original run; distinct: (update, physics, dimension, borders, exchange, mirror, shift) with leaves on several levels or a scheme for one level")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
XYZ = "xyz"

class Frame:
    """base axis a is physical axis P[a], with sign F[a], shifted by S[a] (in units of the domain)"""
    def __init__(self, nd, P, F, S):
        self.nd, self.P, self.F, self.S = nd, P, F, S
    def config(self, c):
        d = dict(c)
        P, F = self.P, self.F
        d["vp/perm"], d["vp/flip"], d["vp/shift"] = list(P), list(F), [float(s) for s in self.S]
        for a in range(self.nd):
            p = P[a]
            d["amr/b" + XYZ[p]] = c["amr/b" + XYZ[a]]
            for k in ("amr/coarse_oct_resolution_",):
                if k + XYZ[a] in c:
                    d[k + XYZ[p]] = c[k + XYZ[a]]
            for s in ("min", "max"):
                t = s if F[a] > 0 else ("max" if s == "min" else "min")
                d["mesh/boundary_type_" + XYZ[p] + t] = c["mesh/boundary_type_" + XYZ[a] + s]
                d["mesh/" + XYZ[p] + s] = c["mesh/" + XYZ[a] + s]
            if "gravity/g" + XYZ[a] in c:
                d["gravity/g" + XYZ[p]] = F[a] * c["gravity/g" + XYZ[a]]
            k = "gravity/point_mass_"
            if k + XYZ[a] in c:
                lo, hi = c["mesh/" + XYZ[a] + "min"], c["mesh/" + XYZ[a] + "max"]
                d[k + XYZ[p]] = c[k + XYZ[a]] if F[a] > 0 else lo + hi - c[k + XYZ[a]]
        return d
    def back(self, s):
        """leaf and cell order of a transformed state in the base frame: (leaves in base coordinates, leaf order, cell order)"""
        nd = self.nd
        o = np.zeros_like(s.oct)
        o[:, 3] = s.oct[:, 3]
        lv = s.level - s.meta["level_min"]
        for a in range(nd):
            p = self.P[a]
            n = s.cg[p] * 2 ** lv
            sh = np.rint(self.S[a] * n).astype(np.int64)
            i = s.oct[:, p] - sh
            i = (i if self.F[a] > 0 else -1 - i) % n
            o[:, a] = i
        order = np.lexsort((o[:, 0], o[:, 1], o[:, 2], o[:, 3]))
        bp = np.array(s.bs)
        bb = [bp[self.P[a]] if a < nd else bp[a] for a in range(3)]
        k, j, i = np.meshgrid(*[np.arange(bb[a]) for a in (2, 1, 0)], indexing="ij")
        ijk = [i.ravel(), j.ravel(), k.ravel()]        # base cell indices
        phys = [None] * 3
        for a in range(3):
            phys[self.P[a] if a < nd else a] = ijk[a] if a >= nd or self.F[a] > 0 else bb[a] - 1 - ijk[a]
        cell = phys[0] + bp[0] * (phys[1] + bp[1] * phys[2])
        return o[order], order, cell
    def field(self, s, n):
        """field n of the base frame out of a transformed state"""
        base, suf = (n[:-5], "_next") if n.endswith("_next") else (n, "")
        for g in ("rho_v", "B", "g"):
            if base[:-1] == g and base[-1] in XYZ[:self.nd]:
                a = XYZ.index(base[-1])
                return self.F[a] * s.f(g + XYZ[self.P[a]] + suf)
        return s.f(n)
    def point(self, x, lo, L):
        """physical positions -> base positions, given the base domain"""
        r = np.array(x, float)
        for a in range(self.nd):
            p = self.P[a]
            u = (x[:, p] - lo[a]) / L[a]      # domain of physical axis p is that of base axis a
            u = self.F[a] * (u - self.S[a])
            r[:, a] = lo[a] + (u - np.floor(u)) * L[a]
        return r

def frames(R, nd, periodic, cg, shift_ok):
    l = []
    perms = [list(p) + [2] * (nd == 2) for p in itertools.permutations(range(nd))]
    P = R.pick(perms[1:])
    l.append(("exchange", P, [1, 1, 1], [0, 0, 0]))
    a = R.i(0, nd - 1)
    F = [1, 1, 1]
    F[a] = -1
    l.append(("mirror", [0, 1, 2], F, [0, 0, 0]))
    F2, S = [R.pick([1, -1]) if a < nd else 1 for a in range(3)], [0, 0, 0]
    if shift_ok:
        S = [R.i(0, cg[a] - 1) / cg[a] if a < nd else 0 for a in range(3)]
        S1 = [R.i(1, cg[a] - 1) / cg[a] if a < nd and cg[a] > 1 else 0 for a in range(3)]
        l.append(("shift", [0, 1, 2], [1, 1, 1], S1))
    l.append(("all", R.pick(perms), F2, S))
    return l

def one(k):
    R = Rand("p11", C.seed, k)
    cfg, what, tol = physics_cfg(R, k, thorough=C.thorough, cooling__update="none")
    nd = cfg["mesh/ndim"]
    if cfg.get("vp/inner_refine", "").endswith("downflows"):
        cfg["vp/inner_refine"] = "RefineCondition_mass"
        what = what.replace("downflows", "mass")
    lo, L = domain(R, nd)
    for a, n in enumerate(XYZ[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    if "point_mass" in what:
        for a, n in enumerate(XYZ[:nd]):
            cfg["gravity/point_mass_" + n] = lo[a] + R.u(0.3, 0.6) * L[a]
    tol = max(tol, 1e-10) if "cg" not in what else 1e-6
    per = cfg["mesh/boundary_type_xmin"] == "periodic"
    if not per and R.u() < 0.6 and "MHD" not in what:
        # a different border on every side
        for n in XYZ[:nd]:
            t = R.pick(["absorbing", "reflecting", "periodic", "mixed"])
            for s in ("min", "max"):
                cfg["mesh/boundary_type_%s%s" % (n, s)] = R.pick(["absorbing", "reflecting"]) if t == "mixed" else t
        what += "-mixed"
    if R.u() < 0.5:         # a mean flow in any direction
        cfg["vp/v0"] = [R.u(-1, 1) if a < nd else 0.0 for a in range(3)]
    ref = Workload(C, exe, cfg, R.pick([1, 2]), 2, ("step", "out"))
    if not C.run_ok(ref.r, what, ref.replay):
        return
    A = ref.trace()
    cg = A[0].cg
    good = True
    for name, P, F, S in frames(R, nd, per, cg, per and "point_mass" not in what):
        fr = Frame(nd, P, F, S)
        w = Workload(C, exe, fr.config(cfg), R.pick([1, 1, 3]), 2, ("step", "out"))
        tag = "%s perm=%s flip=%s shift=%s" % (what, P, F, ["%.3g" % s for s in S])
        if not C.run_ok(w.r, what + ":" + name, w.replay):
            good = False
            continue
        B = w.trace()
        if not C.require(len(A) == len(B), what + ":steps", "%s: %d states, originally %d" % (tag, len(B), len(A)), w.replay):
            good = False
            continue
        lv = 0
        for a, b in zip(A, B):
            at = "%s state %s iteration %s" % (tag, b.tag, b.scal.get("iter"))
            lv = max(lv, len(set(a.level.tolist())))
            pa = np.lexsort((a.oct[:, 0], a.oct[:, 1], a.oct[:, 2], a.oct[:, 3]))
            o, pb, cell = fr.back(b)
            if not C.require(o.shape == a.oct[pa].shape and (o == a.oct[pa]).all(), what + ":leaves:" + name, lambda: at + ": not the transformed leaves (%d against %d originally)" % (len(o), len(pa)), w.replay):
                good = False
                break
            if a.tag != "init":
                x, y = a.scal.get("time"), b.scal.get("time")
                good &= C.require(x is None or abs(x - y) <= tol * max(abs(x), 1e-300), what + ":time:" + name, "%s: time %r, originally %r" % (at, y, x), w.replay)
            for n in a.fields:
                if n.endswith("_next") or (nd == 2 and n in ("gz",)):
                    continue
                x = a.f(n)[pa]
                y = fr.field(b, n)[pb][:, cell]
                C.evals += 1
                sc = scale_of(a, n)
                if n == "gphi":
                    sc = max(sc, 1e-3)
                d = np.abs(x - y)
                m = float(d.max()) / sc if np.isfinite(d).all() or not np.isfinite(x).all() else np.inf
                with C.lock:
                    C.stats["max_relative_difference"] = max(C.stats.get("max_relative_difference", 0), m)
                if not C.require(m <= tol, what + ":%s:%s" % (n, name), lambda: "%s: field %s differs from the transformed original by %.3g of its scale, leaf %s" % (at, n, m, o[int(np.argmax(d.max(axis=1)))].tolist()), w.replay):
                    good = False
            if "particles" in what or a.particles():
                p, q = a.particles(), b.particles()
                i, j = np.argsort(p["id"]), np.argsort(q["id"])
                C.evals += 1
                if not C.require(len(i) == len(j), what + ":particles", at + ": %d particles, originally %d" % (len(j), len(i)), w.replay):
                    good = False
                    break
                x, y = p["pos"][i], fr.point(q["pos"][j], lo, L)
                d = np.abs(x - y) / np.array(L)
                d = np.minimum(d, np.abs(1 - d))[:, :nd]
                good &= C.require(float(d.max()) <= 1e3 * tol, what + ":particles:" + name, lambda: "%s: particle %d at %s, the transformed original is at %s" % (at, int(np.argmax(d.max(axis=1))), y[int(np.argmax(d.max(axis=1)))].tolist(), x[int(np.argmax(d.max(axis=1)))].tolist()), w.replay)
            if not good:
                break
        if good and (lv > 1 or "legacy" in what):
            with C.lock:
                C.distinct.add("%s/%s" % (what, name))
        C.sample("%s: %d states, %d leaves" % (tag, len(B), len(B[-1].oct)))
        if good:
            w.clean()
    if good:
        ref.clean()

guarded(C, lambda: pmap(one, range(36 if not C.thorough else 300), 4))
