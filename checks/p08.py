"""P08: the program's flux functions and conversions on seeded pairs of states, judged against the equations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vplib import ini

C = Check("P08", rule="evaluations: one pair of states under one law (finite, consistent, mirrored, rotated, upwind, contact, Alfven discontinuity, small jump, bounded, conversion, exchange of axes); distinct: (law, solver, class of states)")
exe = {b: C.build(b, "mon_flux")("mon_flux") for b in ("rel", "asan")}
# a state is rho p u v w Bx By Bz psi; a flux is rho e_tot rho_u rho_v rho_w [Bx By Bz [psi]]
SOL = ["hllc", "hlld", "five_waves", "glm_hlld", "glm_five_waves"]
W = {"hllc": 6, "hlld": 8, "five_waves": 8, "glm": 9}

def evaluate(cfg, q, dt, build="rel", cwd=None):
    """q [n,2,9] -> dict of results"""
    d = C.dir()
    ini(cfg, os.path.join(d, "c.ini"))
    np.concatenate([[dt], q.ravel()]).tofile(os.path.join(d, "in"))
    r = run(exe[build], ["c.ini", "in", "out"], cwd=d, env=ASAN_ENV if build == "asan" else None, timeout=200)
    if not C.run_ok(r, "evaluate", {"exe": exe[build], "cfg": cfg}):
        return None
    o = np.fromfile(os.path.join(d, "out")).reshape(len(q), -1)
    ch = float(open(os.path.join(d, "out.txt")).read())
    shutil.rmtree(d, True)
    res, p = {"ch": ch}, 0
    for k in ("hllc", "hlld", "five_waves", "glm"):
        res[k] = o[:, p:p + W[k]]; p += W[k]
    res["p_out"], res["hllc"] = res["hllc"][:, 5], res["hllc"][:, :5]
    for k, w in (("H", 5), ("M", 8), ("G", 9)):
        res["conv" + k] = o[:, p:p + 14 * w].reshape(len(q), 14, w); p += 14 * w
    assert p == o.shape[1]
    return res

def cons(q, g, n):
    """conservative variables"""
    rho, pr, u, v, w, Bx, By, Bz, psi = q.T
    m = 0 if n == 5 else 1
    E = pr / (g - 1) + 0.5 * rho * (u * u + v * v + w * w) + m * 0.5 * (Bx * Bx + By * By + Bz * Bz)
    return np.stack([rho, E, rho * u, rho * v, rho * w, Bx, By, Bz, psi], axis=1)[:, :n]

def flux(q, g, n):
    """flux of the ideal equations in direction x (without psi)"""
    rho, pr, u, v, w, Bx, By, Bz, psi = q.T
    m = 0.0 if n == 5 else 1.0
    Bx, By, Bz = m * Bx, m * By, m * Bz
    E = cons(q, g, n)[:, 1]
    pt = pr + 0.5 * (Bx * Bx + By * By + Bz * Bz)
    return np.stack([rho * u, (E + pt) * u - Bx * (u * Bx + v * By + w * Bz), rho * u * u + pt - Bx * Bx, rho * u * v - Bx * By, rho * u * w - Bx * Bz, 0 * u, u * By - v * Bx, u * Bz - w * Bx], axis=1)[:, :n]

def fast(q, g, n):
    rho, pr, u, v, w, Bx, By, Bz, psi = q.T
    c2 = g * pr / rho
    if n == 5:
        return np.sqrt(c2)
    b2, a2 = (Bx * Bx + By * By + Bz * Bz) / rho, (By * By + Bz * Bz) / rho
    return np.sqrt(0.5 * (c2 + b2 + np.sqrt((c2 - b2) ** 2 + 4 * c2 * a2)))

def scale(q, g, n):
    """size of the terms of each component of the flux of a pair of states [n,2,9]"""
    s = 0
    for i in (0, 1):
        x = q[:, i]
        c = fast(x, g, n) + np.abs(x[:, 2:5]).max(axis=1)
        E = cons(x, g, n)[:, 1]
        rho = x[:, 0]
        b = np.abs(x[:, 5:8]).max(axis=1)
        f = np.stack([rho * c, (E + x[:, 1]) * c] + [E + x[:, 1] + rho * c * c] * 3 + [b * c] * 3, axis=1)[:, :n]
        s = s + f
    return s + 1e-300

# ---- the published solvers, written down once more from their papers
def ref_hllc(l, r, g):
    """Toro's HLLC with the outer speeds of Davis; states [n,9]"""
    cl, cr = fast(l, g, 5), fast(r, g, 5)
    S = [np.minimum(l[:, 2], r[:, 2]) - np.maximum(cl, cr), np.maximum(l[:, 2], r[:, 2]) + np.maximum(cl, cr)]
    rl, rr, ul, ur, pl, pr = l[:, 0], r[:, 0], l[:, 2], r[:, 2], l[:, 1], r[:, 1]
    us = (pr - pl + rl * ul * (S[0] - ul) - rr * ur * (S[1] - ur)) / (rl * (S[0] - ul) - rr * (S[1] - ur))
    def star(q, s):
        rho, p, u = q[:, 0], q[:, 1], q[:, 2]
        U = cons(q, g, 5)
        f = rho * (s - u) / (s - us)
        Us = f[:, None] * np.stack([np.ones_like(us), U[:, 1] / rho + (us - u) * (us + p / (rho * (s - u))), us, q[:, 3], q[:, 4]], axis=1)
        return flux(q, g, 5) + s[:, None] * (Us - U)
    F = np.where((us > 0)[:, None], star(l, S[0]), star(r, S[1]))
    F = np.where((S[0] > 0)[:, None], flux(l, g, 5), F)
    return np.where((S[1] <= 0)[:, None], flux(r, g, 5), F), np.minimum(np.minimum(np.abs(S[0]), np.abs(S[1])), np.abs(us))

def ref_hlld(l, r, bx, g, smalle):
    """Miyoshi and Kusano 2005 with the outer speeds of Davis; the outer states keep their own normal field in their flux"""
    def fastx(q):
        x = q.copy(); x[:, 5] = bx
        return fast(x, g, 8)
    cm = np.maximum(fastx(l), fastx(r))
    sl, sr = np.minimum(l[:, 2], r[:, 2]) - cm, np.maximum(l[:, 2], r[:, 2]) + cm
    def side(q, s, sm, pts):
        rho, p, u, v, w, _, By, Bz, _ = q.T
        b2 = bx * bx + By * By + Bz * Bz
        pt, E = p + 0.5 * b2, p / (g - 1) + 0.5 * rho * (u * u + v * v + w * w) + 0.5 * b2
        rs = rho * (s - u) / (s - sm)
        D = rho * (s - u) * (s - sm) - bx * bx
        deg = np.abs(D) < smalle * bx * bx
        Di = np.where(deg, 1.0, D)
        m, k = np.where(deg, 0.0, bx * (sm - u) / Di), np.where(deg, 1.0, (rho * (s - u) ** 2 - bx * bx) / Di)
        vs, ws, bys, bzs = v - By * m, w - Bz * m, By * k, Bz * k
        Es = ((s - u) * E - pt * u + pts * sm + bx * (u * bx + v * By + w * Bz - sm * bx - vs * bys - ws * bzs)) / (s - sm)
        return dict(rs=rs, v=vs, w=ws, By=bys, Bz=bzs, E=Es, near=np.abs(np.abs(D) - smalle * bx * bx) / (np.abs(D) + bx * bx + 1e-300))
    ptl, ptr = [q[:, 1] + 0.5 * (bx * bx + q[:, 6] ** 2 + q[:, 7] ** 2) for q in (l, r)]
    al, ar = (sl - l[:, 2]) * l[:, 0], (sr - r[:, 2]) * r[:, 0]
    sm = (ar * r[:, 2] - al * l[:, 2] - ptr + ptl) / (ar - al)
    pts = (ar * ptl - al * ptr + al * ar * (r[:, 2] - l[:, 2])) / (ar - al)
    L, Rr = side(l, sl, sm, pts), side(r, sr, sm, pts)
    ql, qr = np.sqrt(L["rs"]), np.sqrt(Rr["rs"])
    sg = np.where(bx < 0, -1.0, 1.0)
    dd = {}
    for a, b in (("v", "By"), ("w", "Bz")):
        dd[a] = (ql * L[a] + qr * Rr[a] + (Rr[b] - L[b]) * sg) / (ql + qr)
        dd[b] = (ql * Rr[b] + qr * L[b] + ql * qr * (Rr[a] - L[a]) * sg) / (ql + qr)
    e2 = dd["v"] * dd["By"] + dd["w"] * dd["Bz"]
    L2 = dict(rs=L["rs"], E=L["E"] - ql * (L["v"] * L["By"] + L["w"] * L["Bz"] - e2) * sg, **dd)
    R2 = dict(rs=Rr["rs"], E=Rr["E"] + qr * (Rr["v"] * Rr["By"] + Rr["w"] * Rr["Bz"] - e2) * sg, **dd)
    def fl(x):
        return np.stack([x["rs"] * sm, (x["E"] + pts) * sm - bx * (bx * sm + x["By"] * x["v"] + x["Bz"] * x["w"]), x["rs"] * sm * sm + pts - bx * bx, x["rs"] * sm * x["v"] - bx * x["By"], x["rs"] * sm * x["w"] - bx * x["Bz"], 0 * sm, x["By"] * sm - bx * x["v"], x["Bz"] * sm - bx * x["w"]], axis=1)
    def outer(q):
        # total pressure and energy with the normal field of the interface, the rest with the field of the state
        f = flux(q, g, 8)
        d = 0.5 * (bx * bx - q[:, 5] ** 2)
        f[:, 2] += d
        f[:, 1] += 2 * d * q[:, 2]
        return f
    sls, srs = sm - np.abs(bx) / ql, sm + np.abs(bx) / qr
    F, c = outer(r), lambda x: (x > 0)[:, None]
    F = fl(Rr)
    F = np.where(c(srs), fl(R2), F)
    F = np.where(c(sm), fl(L2), F)
    F = np.where(c(sls), fl(L), F)
    F = np.where((sr <= 0)[:, None], outer(r), F)
    F = np.where(c(sl), outer(l), F)
    gap = np.stack([np.abs(x) for x in (sl, sls, sm, srs, sr)]).min(axis=0)
    return F, gap, np.minimum(L["near"], Rr["near"])

def ref_five(l, r, g, three=False):
    """relaxation solver with five (or three) waves: acoustic relaxation speeds of Bouchut, Klingenberg and Waagan's 3+1+1 splitting"""
    def speeds(q):
        rho, p, bn2, bt2 = q[:, 0], q[:, 1], q[:, 5] ** 2, q[:, 6] ** 2 + q[:, 7] ** 2
        return np.sqrt(rho * (1.5 * bn2 + 0.5 * bt2)) + 1e-16, np.sqrt(rho * (g * p + 1.5 * bt2 + 0.5 * bn2))
    al, bl = speeds(l)
    ar, br = speeds(r)
    c3 = np.maximum(l[:, 0] * fast(l, g, 8), r[:, 0] * fast(r, g, 8))
    one = (l[:, 5] * r[:, 5] < -1e-16) | (l[:, 6] * r[:, 6] < -1e-16) | (l[:, 7] * r[:, 7] < -1e-16) | three
    al, bl, ar, br = [np.where(one, c3, x) for x in (al, bl, ar, br)]
    def P(q):
        b2 = 0.5 * (q[:, 5:8] ** 2).sum(axis=1)
        p = -q[:, 5:6] * q[:, 5:8]
        p[:, 0] += b2 + q[:, 1]
        return p
    cl, cr = np.stack([bl, al, al], 1), np.stack([br, ar, ar], 1)
    pl, pr, vl, vr = P(l), P(r), l[:, 2:5], r[:, 2:5]
    us, ps = (cl * vl + cr * vr + pl - pr) / (cl + cr), (cr * pl + cl * pr + cl * cr * (vl - vr)) / (cl + cr)
    left = (us[:, 0] > 0)[:, None]
    U = np.where(left, cons(l, g, 8), cons(r, g, 8))
    bn = np.where(left[:, 0], r[:, 5], l[:, 5])[:, None]
    F = us[:, :1] * U
    F[:, 1] += (ps * us).sum(axis=1)
    F[:, 2:5] += ps
    F[:, 5:8] -= bn * us
    return F, np.abs(us[:, 0])


CLASSES = ["mild", "shock", "vacuum", "supersonic", "magnetic", "weakfield", "aligned", "resonant", "still", "signs", "zero_field"]
def states(R, cls, n, gam):
    g = R.g
    def one():
        lg = lambda a, b: 10 ** g.uniform(a, b, n)
        rho, p = lg(-0.5, 0.5), lg(-0.5, 0.5)
        v, B = g.uniform(-1, 1, (n, 3)), g.uniform(-1, 1, (n, 3))
        if cls == "shock":
            rho, p, v = lg(-3, 3), lg(-5, 5), v * lg(-1, 1.5)[:, None]
        elif cls == "vacuum":
            rho, p, v, B = lg(-6, -1), lg(-6, -1), v * lg(-2, 1)[:, None], B * lg(-4, 0)[:, None]
        elif cls == "supersonic":
            v = v * 0.2 + 0
            v[:, 0] += lg(1.0, 2.5) * SIGN
        elif cls == "magnetic":
            B = B * lg(0, 1.5)[:, None]
        elif cls == "weakfield":
            B = B * lg(-9, -3)[:, None]
        elif cls == "aligned":
            B[:, 1:] = 0
        elif cls == "resonant":
            # sound and Alfven speed along x are the same, no transverse field
            B[:, 1:] = 0
            p = B[:, 0] ** 2 / gam * (1 + g.choice([0, 0, 1e-16, -1e-16, 3e-16], n))
        elif cls == "still":
            v = np.zeros((n, 3))
        elif cls == "signs":
            B = np.abs(B) * g.choice([-1, 1], (n, 3))
        elif cls == "zero_field":
            B[:] = 0
        return np.concatenate([rho[:, None], p[:, None], v, B, np.zeros((n, 1))], axis=1)
    SIGN = g.choice([-1.0, 1.0], n)
    return np.stack([one(), one()], axis=1)

MIR = np.array([1, 1, -1, 1, 1, -1, 1, 1, 1.0])             # reflection along x of a state (the potential of the cleaning stays)
FMIR = np.array([-1, -1, 1, -1, -1, 1, -1, -1, -1.0])       # and of a flux
ROT = [0, 1, 2, 4, 3, 5, 7, 6, 8]                           # exchange of y and z

def bad(name, law, cls, q, i, text):
    t = lambda x: "rho=%r p=%r v=(%r,%r,%r) B=(%r,%r,%r) psi=%r" % tuple(float(y) for y in x)
    C.violation("%s:%s" % (name, law), "%s, %s, states of class %s: %s; left %s right %s" % (name, law, cls, text, t(q[i, 0]), t(q[i, 1])), {"q": q[i].tolist()})

def worst(name, law, cls, q, err, lim, text="off by %.3g, allowed %.3g"):
    """err, lim: [n] or [n, components]"""
    err, lim = np.broadcast_arrays(np.nan_to_num(np.abs(err), nan=np.inf), lim)
    r = err / (lim + 1e-300)
    C.evals += len(q)
    if len(q) == 0:
        return
    C.distinct.add("%s/%s/%s" % (name, law, cls))
    j = np.unravel_index(np.argmax(r), r.shape)
    if not r[j] <= 1:
        bad(name, law, cls, q, j[0], text % (err[j], lim[j]) + (" (component %d)" % j[1] if len(j) > 1 else ""))
    C.count("pairs_" + law, len(q))

def config(R, riemann):
    g = R.pick([1.4, 5.0 / 3, 1.1, 2.0])
    return {"hydro/gamma0": g, "hydro/riemann": riemann, "hydro/smallr": 1e-14, "hydro/smallp": 1e-14, "hydro/update": "GLMMHDUpdate_euler", "mesh/ndim": 3, "amr/level_max": 4, "amr/bx": 4, "amr/by": 4, "amr/bz": 4, "hydro/cr": R.pick([0.1, 0.5])}, g

def fluxes(res, glm):
    return {"hllc": res["hllc"], "hlld": res["hlld"], "five_waves": res["five_waves"], "glm_" + glm: res["glm"]}

def same_bx(q):
    q = q.copy()
    q[:, 1, 5] = q[:, 0, 5]
    return q

def block(k):
    R = Rand("p08", C.seed, k)
    glm = ["hlld", "five_waves"][k % 2]
    cfg, g = config(R, glm)
    n = 400
    dt = 10 ** R.u(-4, -1)
    b = "asan" if k % 7 == 0 else "rel"
    for cls in CLASSES:
        q = same_bx(states(R, cls, n, g))
        qm = q[:, ::-1] * MIR
        qr = q[:, :, ROT]
        eq = np.stack([q[:, 0], q[:, 0]], axis=1)
        eps = 10 ** R.g.uniform(-5, -3, n)[:, None]
        near = np.stack([q[:, 0], q[:, 0] + eps * (q[:, 1] - q[:, 0])], axis=1) if cls in ("mild", "signs", "aligned", "zero_field", "still") else eq
        # contact: equal pressure, velocity and field, any density, at rest
        ct = np.stack([q[:, 0], q[:, 0]], axis=1)
        ct[:, 1, 0] = q[:, 1, 0]
        ct[:, :, 2] = 0
        # moving contact
        cm = ct.copy()
        cm[:, :, 2] = q[:, :1, 2]
        # rotational discontinuity: transverse field turned, transverse velocity follows, moving with the Alfven speed to either side
        al = np.stack([q[:, 0], q[:, 0]], axis=1)
        th = R.g.uniform(-2.5, 2.5, n)
        co, si = np.cos(th), np.sin(th)
        by, bz = q[:, 0, 6], q[:, 0, 7]
        nby, nbz = co * by - si * bz, si * by + co * bz
        way = R.g.choice([-1.0, 1.0], n)
        sg = np.where(q[:, 0, 5] < 0, -1.0, 1.0) * way / np.sqrt(q[:, 0, 0])
        al[:, 1, 6], al[:, 1, 7] = nby, nbz
        al[:, 1, 3] = q[:, 0, 3] - sg * (nby - by)
        al[:, 1, 4] = q[:, 0, 4] - sg * (nbz - bz)
        psi = q.copy()
        psi[:, :, 8] = R.g.uniform(-1, 1, (n, 2))
        sets = {"q": q, "m": qm, "r": qr, "eq": eq, "near": near, "ct": ct, "cm": cm, "al": al, "psi": psi, "psim": psi[:, ::-1] * MIR}
        names = list(sets)
        o = evaluate(cfg, np.concatenate([sets[x] for x in names]), dt, b if cls in ("mild", "vacuum") else "rel")
        if o is None:
            return
        ch, cr = o["ch"] / dt, cfg["hydro/cr"]
        part = {x: {kk: v[i * n:(i + 1) * n] for kk, v in o.items() if kk != "ch"} for i, x in enumerate(names)}
        tag = "%s" % cls
        F = {x: fluxes(part[x], glm) for x in names}
        for s in F["q"]:
            nc = F["q"][s].shape[1]
            h = 5 if nc == 5 else 8
            sc = lambda Q: np.pad(scale(Q, g, h), ((0, 0), (0, nc - h)), mode="edge") if nc > h else scale(Q, g, h)
            def scg(Q):
                # the cleaning waves have terms of their own
                x = sc(Q)
                if nc == 9:
                    m = (np.abs(Q[:, :, 5]).sum(axis=1) * ch + np.abs(Q[:, :, 8]).sum(axis=1))
                    x[:, 5] += m
                    x[:, 8] = ch * m
                    dp = np.abs(Q[:, :, 8]).sum(axis=1) / ch
                    x[:, 1:5] += ((np.abs(Q[:, :, 5:8]).max(axis=(1, 2)) + dp) * dp * (1 + np.abs(Q[:, :, 2:5]).max(axis=(1, 2)) + fast(Q[:, 0], g, 8) + fast(Q[:, 1], g, 8)))[:, None]
                    x[:, 6:8] += (dp * np.abs(Q[:, :, 2:5]).max(axis=(1, 2)))[:, None]
                return x
            for x in names:
                worst(s, "finite", tag, sets[x], ~np.isfinite(F[x][s]).all(axis=1), 0.5, "the flux is not finite (%.0f, %.1f)")
            # consistency
            want = flux(q[:, 0], g, h)
            if nc == 9:
                want = np.concatenate([want, (ch * ch * q[:, 0, 5])[:, None]], axis=1)
                want[:, 5] = 0
            S = scg(eq)
            fin = np.isfinite(F["eq"][s]).all(axis=1)
            worst(s, "consistent", tag, eq[fin], (F["eq"][s] - want)[fin], 1e-9 * S[fin], "flux of equal states is off by %.3g, allowed %.3g")
            # mirror: five waves chooses a side where the interface does not move
            fin = np.isfinite(F["q"][s]).all(axis=1) & np.isfinite(F["m"][s]).all(axis=1)
            if s in ("hllc",):
                fin &= np.abs(F["q"][s][:, 0]) > 1e-9 * scg(q)[:, 0]
            if "five" in s:
                fin &= np.abs(F["q"][s][:, 0]) > 1e-9 * scg(q)[:, 0]
            if "hlld" in s:
                # at the switch to two states and at the sign of a vanishing normal field any side is right
                fin &= np.abs(q[:, 0, 5]) > 0 if cls != "zero_field" else fin
            big = 1e-6 if cls in ("vacuum", "shock", "weakfield", "magnetic", "resonant") else 1e-8
            worst(s, "mirrored", tag, q[fin], (F["m"][s] - F["q"][s] * FMIR[:nc])[fin], big * scg(q)[fin], "flux of the mirrored states is off by %.3g, allowed %.3g")
            ix = [i for i in ROT if i < nc]
            worst(s, "rotated", tag, q[fin], (F["r"][s] - F["q"][s][:, ix])[fin], big * scg(q)[fin], "flux of the states turned around x is off by %.3g, allowed %.3g")
            if nc == 9:
                fin = np.isfinite(F["psi"][s]).all(axis=1) & (np.abs(F["psi"][s][:, 0]) > 1e-9 * scg(psi)[:, 0]) & (np.abs(0.5 * (psi[:, 0, 5] + psi[:, 1, 5]) - 0.5 / ch * (psi[:, 1, 8] - psi[:, 0, 8])) > 1e-9)
                worst(s, "mirrored", "psi+" + tag, psi[fin], (F["psim"][s] - F["psi"][s] * FMIR[:nc])[fin], big * scg(psi)[fin], "flux of the mirrored states is off by %.3g, allowed %.3g")
            # the solver is the published one
            for x in ("q", "ct", "cm", "al", "near") + (("psi",) if nc == 9 else ()):
                Q = sets[x]
                l, r = Q[:, 0], Q[:, 1]
                far = 1.0
                with np.errstate(all="ignore"):
                    if nc == 9:
                        damp = np.exp(-0.5 * dt * ch / cr)
                        bm, pm = 0.5 * (l[:, 5] + r[:, 5]) - 0.5 / ch * damp * (r[:, 8] - l[:, 8]), 0.5 * damp * (l[:, 8] + r[:, 8]) - 0.5 * ch * (r[:, 5] - l[:, 5])
                    else:
                        bm = 0.5 * (l[:, 5] + r[:, 5])
                    if s == "hllc":
                        want, gap = ref_hllc(l, r, g)
                    elif "five" in s:
                        want, gap = ref_five(l, r, g)
                        one = l[:, 5:8] * r[:, 5:8] + 1e-16
                        far = np.where((np.abs(one) < 1e-22).any(axis=1), 0.0, 1.0)
                    else:
                        want, gap, deg = ref_hlld(l, r, bm, g, 1e-5)
                        far = np.where((deg < 1e-9) | ((np.abs(bm) < 1e-12) & (cls != "zero_field")), 0.0, 1.0)
                    if nc == 9:
                        want = np.concatenate([want, (ch * ch * bm)[:, None]], axis=1)
                        want[:, 5] += pm
                v = np.abs(Q[:, :, 2]).max(axis=1) + fast(l, g, 8) + fast(r, g, 8)
                sel = (far > 0) & (gap > 1e-9 * v) & np.isfinite(want).all(axis=1)
                worst(s, "published", x + "/" + tag, Q[sel], (F[x][s] - want)[sel], big * scg(Q)[sel], "flux differs from the published solver by %.3g, allowed %.3g")
            # upwinding
            if "five" not in s:
                cmax = np.maximum(fast(q[:, 0], g, h), fast(q[:, 1], g, h))
                for side, sel in ((0, q[:, :, 2].min(axis=1) > cmax * 1.001), (1, q[:, :, 2].max(axis=1) < -cmax * 1.001)):
                    want = flux(q[:, side], g, h)
                    got = F["q"][s][:, :h].copy()
                    if nc == 9:
                        got[:, 5] = want[:, 5]
                    worst(s, "upwind", tag, q[sel], (got - want)[sel], 1e-11 * scg(q)[sel][:, :h], "supersonic flux is not that of the upwind side, off by %.3g, allowed %.3g")
                # contact discontinuities: at rest nothing crosses, moving they are carried along
                want = flux(ct[:, 0], g, h)
                got = F["ct"][s][:, :h].copy()
                if nc == 9:
                    got[:, 5] = want[:, 5]
                # momentum and field fluxes are those of either side; no mass, and only the energy carried by the field
                worst(s, "contact", tag, ct, got - np.where(np.arange(h) == 1, want, want), big * 1e-2 * scg(ct)[:, :h], "flux through a resting contact is off by %.3g, allowed %.3g")
                up = np.where((cm[:, 0, 2] > 0)[:, None], flux(cm[:, 0], g, h), flux(cm[:, 1], g, h))
                sel = np.abs(cm[:, 0, 2]) > 1e-9
                got = F["cm"][s][:, :h].copy()
                if nc == 9:
                    got[:, 5] = up[:, 5]
                worst(s, "contact", "moving/" + tag, cm[sel], (got - up)[sel], big * scg(cm)[sel][:, :h], "flux of a moving contact is not that of its upwind side, off by %.3g, allowed %.3g")
            if "hlld" in s and cls in ("mild", "magnetic", "signs", "still", "shock"):
                sp = al[:, 0, 2] + way * np.abs(al[:, 0, 5]) / np.sqrt(al[:, 0, 0])
                sel = (np.abs(sp) > 1e-3) & (np.abs(al[:, 0, 5]) > 1e-2 * np.sqrt(al[:, 0, 1]))
                want = np.where((sp > 0)[:, None], flux(al[:, 0], g, 8), flux(al[:, 1], g, 8))
                got = F["al"][s][:, :8].copy()
                if nc == 9:
                    got[:, 5] = 0
                worst(s, "alfven", tag, al[sel], (got - want)[sel], 1e-6 * scg(al)[sel][:, :8], "flux of a rotational discontinuity is not that of its upwind side, off by %.3g, allowed %.3g")
            if cls in ("mild", "signs", "aligned", "zero_field", "still"):
                dn = np.abs(cons(near[:, 1], g, h) - cons(near[:, 0], g, h)).max(axis=1)[:, None]
                smn = (fast(near[:, 0], g, h) + np.abs(near[:, 0, 2:5]).max(axis=1))[:, None]
                mean = 0.5 * (flux(near[:, 0], g, h) + flux(near[:, 1], g, h))
                got = F["near"][s][:, :h].copy()
                if nc == 9:
                    got[:, 5] = mean[:, 5]
                wt = np.maximum(1.0, scg(near)[:, :h] / scg(near)[:, :1])
                worst(s, "near", tag, near, got - mean, 60 * (1 + smn) * dn * wt + 1e-9 * scg(near)[:, :h], "flux of nearly equal states is %.3g away from their mean flux, allowed %.3g")
        # small jumps: the solver for gases resolves every wave, so its flux is the upwind one of the linearised equations
        if cls in ("mild", "still", "zero_field"):
            m = 0.5 * (near[:, 0] + near[:, 1])
            d = near[:, 1] - near[:, 0]
            rho, u = m[:, 0], m[:, 2]
            c = fast(m, g, 5)
            lam = np.stack([u - c, u, u, u, u + c], axis=1)
            al_ = np.stack([(d[:, 1] - rho * c * d[:, 2]) / (2 * c * c), d[:, 0] - d[:, 1] / (c * c), rho * d[:, 3], rho * d[:, 4], (d[:, 1] + rho * c * d[:, 2]) / (2 * c * c)], axis=1)
            Hh = cons(m, g, 5)[:, 1] / rho + m[:, 1] / rho
            v, w_ = m[:, 3], m[:, 4]
            z, o1 = 0 * u, 0 * u + 1
            Rv = np.stack([np.stack([o1, Hh - u * c, u - c, v, w_], 1), np.stack([o1, 0.5 * (u * u + v * v + w_ * w_), u, v, w_], 1), np.stack([z, v, z, o1, z], 1), np.stack([z, w_, z, z, o1], 1), np.stack([o1, Hh + u * c, u + c, v, w_], 1)], axis=1)
            up = 0.5 * (flux(near[:, 0], g, 5) + flux(near[:, 1], g, 5)) - 0.5 * (np.abs(lam) * al_)[:, :, None].repeat(5, 2).__mul__(Rv).sum(axis=1)
            rel = np.abs(d[:, :5] / np.stack([rho, m[:, 1], c, c, c], 1)).max(axis=1)
            lim = (20 * rel * rel)[:, None] * scale(near, g, 5) + 1e-11 * scale(near, g, 5)
            # where a wave speed is next to zero the upwind side is not determined to this accuracy
            worst("hllc", "small_jump", tag, near, F["near"]["hllc"] - up, lim, "flux of a small jump is off the linear upwind flux by %.3g, allowed %.3g")
            worst("hllc", "pressure", tag, eq, part["eq"]["p_out"] - q[:, 0, 1], 1e-9 * q[:, 0, 1], "interface pressure of equal states off by %.3g, allowed %.3g")
        if cls == "zero_field":
            worst("hlld", "gas", tag, q, F["q"]["hlld"][:, :5] - F["q"]["hllc"], 1e-9 * scale(q, g, 5), "without magnetic field the flux differs from the gas solver by %.3g, allowed %.3g")
        # conversions
        for x in ("q", "psi"):
            Q = sets[x][:, 0]
            for kk, nv in (("H", 5), ("M", 8), ("G", 9)):
                Y = part[x]["conv" + kk]
                U = cons(Q, g, nv)
                P = Q[:, :nv]
                mag = np.abs(U) + 1e-300
                worst("to_conservative", kk, tag, sets[x], Y[:, 0] - U, 1e-13 * mag)
                tol = 1e-13 * np.abs(P) + 1e-300
                tol[:, 1] += 1e-14 * g * U[:, 1]
                worst("to_primitive", kk, tag, sets[x], Y[:, 1] - P, tol)
                worst("there_and_back", kk, tag, sets[x], Y[:, 2] - Y[:, 0], 1e-13 * mag)
                Q2 = Q.copy(); Q2[:, 4] = 0
                U2, P2 = cons(Q2, g, nv), Q2[:, :nv]
                worst("to_conservative", kk + "2D", tag, sets[x], Y[:, 3] - U2, 1e-13 * (np.abs(U2) + 1e-300))
                worst("to_primitive", kk + "2D", tag, sets[x], Y[:, 4] - P2, tol)
                sw = [list(range(9)), [0, 1, 3, 2, 4, 6, 5, 7, 8], [0, 1, 4, 3, 2, 7, 6, 5, 8]]
                for a in range(3):
                    ix = sw[a][:nv]
                    worst("exchange", kk, tag, sets[x], np.abs(Y[:, 5 + 3 * a] - P[:, ix]) + np.abs(Y[:, 6 + 3 * a] - P) + np.abs(Y[:, 7 + 3 * a] - Y[:, 0][:, ix]), 1e-300)
    C.count("blocks_" + b)
    C.sample("gamma %.3g, GLM with %s, dt %.2g: %d classes of %d pairs" % (g, glm, dt, len(CLASSES), n))

guarded(C, lambda: pmap(block, range(14 if not C.thorough else 300)))
