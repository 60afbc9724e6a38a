"""P22: the cosmology module against an independent quadrature of the Friedmann equation, and recorded cosmological runs against both."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vplib import ini

C = Check("P22", rule="evaluations: one conversion (value against the quadrature, inverse, order), step length, or recorded state (expansion factor of its time, growth of the step) or end of a run; distinct: (kind, cosmology class, range, table size, end rule)")
conv = {b: C.build(b, "mon_cosmo")("mon_cosmo") for b in ("rel", "asan")}
exe = C.build("rel", "dyablo_mon")("dyablo_mon")

XG, WG = np.polynomial.legendre.leggauss(40)
def T(a, om, ov, ref=1.0):
    """supercomoving time of an expansion factor: integral of da / (a^3 H), in y = log a, 40 points per unit of y"""
    def one(a):
        y0, y1 = np.log(ref), np.log(a)
        n = max(1, int(np.ceil(abs(y1 - y0))))
        e = np.linspace(y0, y1, n + 1)
        s = 0.0
        for p, q in zip(e[:-1], e[1:]):
            x = np.exp(0.5 * (p + q) + 0.5 * (q - p) * XG)
            s += 0.5 * (q - p) * np.sum(WG * x * dT(x, om, ov)) 
        return s
    return np.array([one(x) for x in np.atleast_1d(a)])
def dT(a, om, ov):
    return 0.5 * np.sqrt(om) / np.sqrt(om * a ** 3 + (1 - om - ov) * a ** 4 + ov * a ** 6)
def table_error(a, cfg, om, ov):
    """how far a linear interpolation of the configured number of entries may be from the curve, in time"""
    h = (1.1 * cfg["cosmology/aEnd"] - cfg["cosmology/aStart"]) / (cfg["cosmology/lookup_size"] - 1)
    a = np.maximum(np.atleast_1d(a) - h, cfg["cosmology/aStart"])
    d2 = np.abs(dT(a * (1 + 1e-4), om, ov) - dT(a * (1 - 1e-4), om, ov)) / (2e-4 * a)
    return h * h / 8 * d2 * 1.05

def cosmology(R):
    kind = R.pick(["lcdm", "lcdm", "eds", "open", "any", "closed", "vacuum"])
    if kind == "lcdm":
        om = R.u(0.1, 0.9); ov = 1 - om
    elif kind == "eds":
        om, ov = 1.0, 0.0
    elif kind == "open":
        om, ov = R.u(0.1, 0.9), 0.0
    elif kind == "vacuum":
        om = R.u(0.02, 0.1); ov = 1 - om
    elif kind == "closed":
        om, ov = R.u(0.5, 1.2), R.u(0.2, 0.7)
    else:
        om = R.u(0.1, 0.8); ov = R.u(0, 1 - om)
    return kind, om, ov

def cosmo_cfg(R):
    kind, om, ov = cosmology(R)
    a0 = R.pick([0.005, 0.01, 0.02, 0.1, 0.5, R.u(0.01, 0.8)])
    a1 = a0 + (R.pick([1.0, 1.0, R.u(0.3, 1.0), 1.5]) - a0) if a0 < 0.3 else R.pick([1.0, R.u(a0 * 1.05, 1.5)])
    a1 = max(a1, a0 * 1.05)
    return kind, om, ov, {"cosmology/active": True, "cosmology/omega_m": om, "cosmology/omega_v": ov, "cosmology/aStart": a0, "cosmology/aEnd": a1,
                          "cosmology/da": R.pick([1.02, 1.001, 1.1, 1.005]), "cosmology/lookup_size": R.pick([1024, 300, 4000, 10000])}

def conversions(k):
    R = Rand("p22c", C.seed, k)
    kind, om, ov, cfg = cosmo_cfg(R)
    b = "asan" if k % 6 == 0 else "rel"
    if b == "asan":
        cfg["cosmology/lookup_size"] = min(1024, cfg["cosmology/lookup_size"])
    d = C.dir("conv%d" % k)
    ini(cfg, os.path.join(d, "c.ini"))
    rep = {"monitor": "mon_cosmo", "build": b, "cfg": cfg}
    n = cfg["cosmology/lookup_size"]
    a0, a1, da = cfg["cosmology/aStart"], cfg["cosmology/aEnd"], cfg["cosmology/da"]
    h = (1.1 * a1 - a0) / (n - 1)
    A = np.unique(np.concatenate([[a0, a1, 1.1 * a1, a0 * (1 + 1e-12), a1 * (1 - 1e-12)], a0 + (a1 - a0) * np.array([R.u() for _ in range(200)]), a0 * (a1 / a0) ** np.array([R.u() for _ in range(200)]), a0 + h * np.array([R.i(0, int((a1 - a0) / h)) for _ in range(50)])]))
    A = A[(A >= a0) & (A <= 1.1 * a1)]
    def ask(q):
        with open(os.path.join(d, "q"), "w") as f:
            f.write("\n".join(q) + "\n")
        r = run(conv[b], ["c.ini", "q"], cwd=d, env=ASAN_ENV if b == "asan" else None, timeout=200)
        v = [float(l.split()[2]) for l in r.out.splitlines() if l.startswith("= ")]
        if not C.run_ok(r, "conversions", rep) or not C.require(len(v) == len(q), "answers", "%d answers to %d requests" % (len(v), len(q)), rep):
            return None
        return np.array(v)
    what = "conversion/%s" % kind
    at = "omega_m %.4g omega_v %.4g, a in [%.4g,%.4g], %d entries (%s)" % (om, ov, a0, a1, n, b)
    t = ask(["a %.17g" % a for a in A])
    if t is None:
        return
    S = [(R.u(0.05, 1.3), R.u(0, 0.9), R.u(0.01, 1.2), R.pick([1.0001, 1.02, 1.3, 2.0])) for _ in range(20)]
    S = [s for s in S if (s[0] + (1 - s[0] - s[1]) * np.linspace(0.005, 3, 100) + s[1] * np.linspace(0.005, 3, 100) ** 3).min() > 0.02]
    v = ask(["t %.17g" % x for x in t] + ["d %.17g" % a for a in A] + ["s %.17g %.17g %.17g %.17g" % s for s in S])
    if v is None:
        return
    back, D, SV = v[:len(A)], v[len(A):2 * len(A)], v[2 * len(A):]
    exact = T(A, om, ov)
    tol = 2e-7 + 1e-9 * np.abs(exact)
    err, lim = np.abs(t - exact), tol + table_error(A, cfg, om, ov)
    C.evals += 3 * len(A) + len(S)
    j = int(np.argmax(err / lim))
    C.require(np.isfinite(t).all() and err[j] <= lim[j], what + ":friedmann", lambda: "%s: a=%.10g has time %.10g, the integral is %.10g (allowed %.2g)" % (at, A[j], t[j], exact[j], lim[j]), rep)
    C.require((np.diff(t) > 0).all(), what + ":order", lambda: "%s: time does not increase with the expansion factor near a=%r" % (at, A[int(np.argmin(np.diff(t)))]), rep)
    j = int(np.argmax(np.abs(back - A)))
    C.require(np.isfinite(back).all() and np.abs(back - A)[j] <= 1e-9 * a1, what + ":inverse", lambda: "%s: a=%.12g -> time %.12g -> a=%.12g" % (at, A[j], t[j], back[j]), rep)
    ex = T(A * da, om, ov) - exact
    j = int(np.argmax(np.abs(D - ex) - 1e-9 * ex))
    C.require(np.isfinite(D).all() and np.abs(D - ex)[j] <= 2e-7 + 1e-7 * ex[j], what + ":step", lambda: "%s: a growth by %g from a=%.8g takes %.10g, the integral is %.10g" % (at, da, A[j], D[j], ex[j]), rep)
    for s, x in zip(S, SV):
        e = T(s[2] * s[3], s[0], s[1])[0] - T(s[2], s[0], s[1])[0]
        C.require(abs(x - e) <= 2e-7 + 1e-7 * e, what + ":step", "omega_m %.4g omega_v %.4g: from a=%.6g by a factor %g takes %.10g, the integral is %.10g" % (s + (x, e)), rep)
    C.count("conversions_" + b, len(A)); C.count("step_lengths", len(A) + len(S))
    C.distinct.add("%s/n%d/a%.1g-%.1g/%s" % (what, n, a0, a1, b))
    C.sample("%s: largest error %.2g of %.2g allowed" % (at, float((err / lim).max()), 1))
    shutil.rmtree(d, True)

def runs(k):
    R = Rand("p22r", C.seed, k)
    kind, om, ov, cc = cosmo_cfg(R)
    nd = R.pick([2, 3])
    up = R.pick(["HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor"])
    end = ["aexp", "steps", "aexp", "time"][k % 4]
    ker = ["Compute_dt_cosmology"] + (["Compute_dt_hydro"] if k % 3 == 2 else [])
    cc["cosmology/lookup_size"] = R.pick([1024, 4000, 10000])
    a0, da = cc["cosmology/aStart"], cc["cosmology/da"]
    n = R.i(2, 9)
    x = {}
    if end == "aexp":
        # the number of steps to the end when only the growth limits them
        ae = a0 * da ** (n - R.u(0.05, 0.95))
        x.update(run__t_end_var="aexp", run__tEnd=ae, run__nstepmax=R.pick([-1, 300]), run__use_tEnd=True)
        cc["cosmology/aEnd"] = max(cc["cosmology/aEnd"], ae)
        ker = ker[:1]
    elif end == "steps":
        x.update(run__nstepmax=n)
    else:
        x.update(run__tEnd=float(T(a0 * da ** (n - 0.5), om, ov)[0]), run__use_tEnd=True, run__nstepmax=100)
        ker = ker[:1]
    if R.u() < 0.5:
        ker = ker[::-1]
    if R.u() < 0.4:
        a_s = a0 * da ** R.u(0, 3)
        x["run__tStart"] = float(T(a_s, om, ov)[0])
        if end == "aexp":
            x["run__tEnd"] = a_s * da ** (n - R.u(0.05, 0.95))
            cc["cosmology/aEnd"] = max(cc["cosmology/aEnd"], x["run__tEnd"])
        elif end == "time":
            x["run__tEnd"] = float(T(a_s * da ** (n - 0.5), om, ov)[0])
    cfg = random_cfg(R, nd, up, steps=4, dt__dt_kernel=",".join(["vp_probe"] + ker), output__backend="IOManager_vp", output__checkpoint="IOManager_ckvp", run__enable_output=True, run__enable_checkpoint=True, run__output_frequency=1, vp__vamp=0.001)
    for q, v in x.items():
        cfg[q.replace("__", "/")] = v
    cfg.update(cc)
    cfg["cosmology/save_expansion_table"] = k % 2 == 0
    sl = None
    if k % 3 == 1:
        # outputs at multiples of the expansion factor
        sl = a0 * (da - 1) * R.u(0.3, 4)
        cfg["run/output_frequency"] = -1
        cfg["run/output_slice_var"] = "aexp"
        cfg[R.pick(["run/output_timeslice", "run/output_expslice"])] = sl
    np_ = R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("step", "out", "ckpt"), timeout=200)
    what = "run/%s/%s" % (end, "+".join(sorted(q[11:] for q in ker)))
    at = "%s omega_m %.4g omega_v %.4g aStart %.4g da %g np=%d" % (what, om, ov, a0, da, np_)
    if not C.run_ok(w.r, what, w.replay):
        return
    Tr = w.trace()
    S, O, K = ([s for s in Tr if s.tag == g] for g in ("step", "out", "ckpt"))
    if not C.require(S and O and K, what + ":final", at + ": no step, snapshot or checkpoint", w.replay):
        return
    terr = lambda a: float(2e-7 + table_error(a, cfg, om, ov)[0])
    aerr = lambda a: terr(a) / float(dT(a, om, ov)) + 1e-9 * a
    a_first = cfg["cosmology/aStart"]
    t_first = float(T(a_first, om, ov)[0])
    if "run/tStart" in cfg:
        C.require(S[0].scal["time"] == cfg["run/tStart"], what + ":start", at + ": starts at time %r, not at %r" % (S[0].scal["time"], cfg["run/tStart"]), w.replay)
    else:
        C.require(abs(S[0].scal["time"] - t_first) <= terr(a_first), what + ":start", at + ": starts at time %.10g, the configured expansion factor is that of %.10g" % (S[0].scal["time"], t_first), w.replay)
    for s in Tr:
        C.evals += 1
        v = {(m["scalars"]["iter"], m["scalars"]["time"], m["scalars"].get("aexp"), m["scalars"].get("z")) for m in s.metas}
        C.require(len(v) == 1, what + ":agree", lambda: at + ": processes disagree: %s" % sorted(v, key=str), w.replay)
        a = s.scal.get("aexp")
        if not C.require(a is not None and a > 0, what + ":aexp", at + ": no expansion factor in the %s of iteration %d" % (s.tag, s.scal["iter"]), w.replay):
            return
        t = float(T(a, om, ov)[0])
        C.require(abs(t - s.scal["time"]) <= terr(a) * 1.01 + 1e-9 * abs(t), what + ":aexp", lambda: at + ": %s of iteration %d is at time %.10g with expansion factor %.10g, which is that of time %.10g" % (s.tag, s.scal["iter"], s.scal["time"], a, t), w.replay)
        z = s.scal.get("z")
        C.require(z is not None and abs(z - (1 / a - 1)) <= 1e-12 / a, what + ":z", at + ": redshift %r at expansion factor %r" % (z, a), w.replay)
    st = [(s.scal["iter"], s.scal["time"], s.scal["aexp"]) for s in S] + [tuple(O[-1].scal[q] for q in ("iter", "time", "aexp"))]
    for (i, t, a), (j, t2, a2) in zip(st[:-1], st[1:]):
        C.evals += 1
        C.require(j == i + 1 and t2 > t, what + ":advance", at + ": iteration %d at time %r is followed by iteration %d at %r" % (i, t, j, t2), w.replay)
        lim = float(T(a * da, om, ov)[0] - T(a, om, ov)[0])
        C.require(t2 - t <= lim * (1 + 1e-7) + 2e-7, what + ":growth", lambda: at + ": iteration %d lasts %.10g, a growth by %g takes %.10g" % (i, t2 - t, da, lim), w.replay)
        C.require(a2 <= a * da + aerr(a) + aerr(a2), what + ":growth", lambda: at + ": the expansion factor goes from %.8g to %.8g in iteration %d" % (a, a2, i), w.replay)
        if j < st[-1][0] and len(ker) == 1 and not (end == "aexp" and a2 > cfg["run/tEnd"] - 3 * aerr(a2)):
            C.require(t2 - t >= lim * (1 - 1e-7) - 2e-7, what + ":short", lambda: at + ": iteration %d lasts %.10g, a growth by %g takes %.10g" % (i, t2 - t, da, lim), w.replay)
    last = st[-1]
    if end == "aexp":
        e = cfg["run/tEnd"]
        C.require(abs(last[2] - e) <= 3e-8 + 3 * aerr(e), what + ":end", at + ": ends at expansion factor %.10g instead of %.10g" % (last[2], e), w.replay)
        C.require(all(a < e - 1e-8 for _, _, a in st[:-1]), what + ":late", at + ": a step is made from expansion factor %s" % [a for _, _, a in st], w.replay)
        tt = float(T(e, om, ov)[0])
        C.require(abs(last[1] - tt) <= 3 * terr(e) + 3e-8 * float(dT(e, om, ov)), what + ":end", at + ": ends at time %.10g, the final expansion factor is that of %.10g" % (last[1], tt), w.replay)
    elif end == "steps":
        C.require(last[0] == cfg["run/nstepmax"], what + ":end", at + ": ends at iteration %d" % last[0], w.replay)
    else:
        C.require(abs(last[1] - cfg["run/tEnd"]) <= 1e-12, what + ":end", at + ": ends at time %r instead of %r" % (last[1], cfg["run/tEnd"]), w.replay)
    if sl:
        due, unsure, pa = {st[0][0], last[0]}, set(), st[0][2]
        for i, t, a in st[1:-1]:
            if np.floor(a / sl) > np.floor(pa / sl):
                due.add(i)
            if min(abs(q / sl - round(q / sl)) for q in (a, pa)) < 1e-9:
                unsure.add(i)
            pa = a
        got = [s.scal["iter"] for s in O]
        C.evals += 1
        C.require(len(got) == len(set(got)) and set(got) - unsure == due - unsure, what + ":slices", lambda: at + ": snapshots every %g of the expansion factor at iterations %s instead of %s (%s)" % (sl, got, sorted(due), st), w.replay)
        C.count("snapshots", len(got))
    if cfg["cosmology/save_expansion_table"]:
        f = os.path.join(w.r.cwd, "expansion_table.dat")
        if C.require(os.path.exists(f), what + ":table", at + ": no expansion table was written", w.replay):
            tab = np.loadtxt(f)
            C.evals += 1
            ok = tab.shape == (cfg["cosmology/lookup_size"], 2) and (np.diff(tab[:, 0]) >= 0).all()
            sel = np.linspace(0, len(tab) - 1, 60).astype(int)
            ex = T(tab[sel, 0], om, ov) if ok else 0
            # six digits of both columns are written
            C.require(ok and (np.abs(tab[sel, 1] - ex) <= 2e-7 + 6e-6 * np.abs(ex) + 6e-6 * tab[sel, 0] * dT(tab[sel, 0], om, ov)).all() and abs(tab[0, 0] - cfg["cosmology/aStart"]) < 1e-5 * a_first, what + ":table", at + ": the expansion table written does not follow the Friedmann equation", w.replay)
            C.count("tables")
    C.count("runs"); C.count("states", len(Tr)); C.count("steps", len(S))
    C.distinct.add("%s/%s/%dD/np%d/n%d" % (what, kind, nd, np_, cfg["cosmology/lookup_size"]))
    C.sample("%s: %d steps to a=%.8g" % (at, len(S), last[2]))
    w.clean()

def both(k):
    (conversions if k[0] == "c" else runs)(k[1])
n = 24 if not C.thorough else 300
guarded(C, lambda: pmap(both, [("c", i) for i in range(n)] + [("r", i) for i in range(40 if not C.thorough else 500)], 5))
