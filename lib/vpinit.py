"""The built-in initial conditions from their published / documented definitions, and the mesh their refinement rule asks for (independent of the program's code)"""
import math
import numpy as np
from types import SimpleNamespace
from vpgrid import Grid
from vpmesh import adapted

def cons(g, rho, u, v, w, p, B=None, psi=False):
    """conservative fields of a primitive state"""
    z = np.zeros(np.broadcast(rho, u, v, w, p).shape)
    rho, u, v, w, p = (z + q for q in (rho, u, v, w, p))
    o = {"rho": rho, "e_tot": p / (g - 1) + 0.5 * rho * (u * u + v * v + w * w), "rho_vx": rho * u, "rho_vy": rho * v, "rho_vz": rho * w}
    if B is not None:
        bx, by, bz = (z + b for b in B)
        o["e_tot"] = o["e_tot"] + 0.5 * (bx * bx + by * by + bz * bz)
        o.update(Bx=bx, By=by, Bz=bz)
        if psi:
            o["psi"] = z.copy()
    o["_p"] = p
    return o

# Lax & Liu (1998): the 19 configurations; per quadrant (upper right, upper left, lower left, lower right): p, rho, u, v
RIEMANN = [
 [(1, 1, 0, 0), (.4, .5197, -.7259, 0), (.0439, .1072, -.7259, -1.4045), (.15, .2579, 0, -1.4045)],
 [(1, 1, 0, 0), (.4, .5197, -.7259, 0), (1, 1, -.7259, -.7259), (.4, .5197, 0, -.7259)],
 [(1.5, 1.5, 0, 0), (.3, .5323, 1.206, 0), (.029, .138, 1.206, 1.206), (.3, .5323, 0, 1.206)],
 [(1.1, 1.1, 0, 0), (.35, .5065, .8939, 0), (1.1, 1.1, .8939, .8939), (.35, .5065, 0, .8939)],
 [(1, 1, -.75, -.5), (1, 2, -.75, .5), (1, 1, .75, .5), (1, 3, .75, -.5)],
 [(1, 1, .75, -.5), (1, 2, .75, .5), (1, 1, -.75, .5), (1, 3, -.75, -.5)],
 [(1, 1, .1, .1), (.4, .5197, -.6259, .1), (.4, .8, .1, .1), (.4, .5197, .1, -.6259)],
 [(.4, .5197, .1, .1), (1, 1, -.6259, .1), (1, .8, .1, .1), (1, 1, .1, -.6259)],
 [(1, 1, 0, .3), (1, 2, 0, -.3), (.4, 1.039, 0, -.8133), (.4, .5197, 0, -.4259)],
 [(1, 1, 0, .4297), (1, .5, 0, .6076), (.3333, .2281, 0, -.6076), (.3333, .4562, 0, -.4297)],
 [(1, 1, .1, 0), (.4, .5313, .8276, 0), (.4, .8, .1, 0), (.4, .5313, .1, .7276)],
 [(.4, .5313, 0, 0), (1, 1, .7276, 0), (1, .8, 0, 0), (1, 1, 0, .7276)],
 [(1, 1, 0, -.3), (1, 2, 0, .3), (.4, 1.0625, 0, .8145), (.4, .5313, 0, .4276)],
 [(8, 2, 0, -.5606), (8, 1, 0, -1.2172), (2.6667, .4736, 0, 1.2172), (2.6667, .9474, 0, 1.1606)],
 [(1, 1, .1, -.3), (.4, .5197, -.6259, -.3), (.4, .8, .1, -.3), (.4, .5313, .1, .4276)],
 [(.4, .5313, .1, .1), (1, 1.0222, -.6179, .1), (1, .8, .1, .1), (1, 1, .1, .8276)],
 [(1, 1, 0, -.4), (1, 2, 0, -.3), (.4, 1.0625, 0, .2145), (.4, .5197, 0, -1.1259)],
 [(1, 1, 0, 1), (1, 2, 0, -.3), (.4, 1.0625, 0, .2145), (.4, .5197, 0, .2741)],
 [(1, 1, 0, .3), (1, 2, 0, -.3), (.4, 1.0625, 0, .2145), (.4, .5197, 0, -.4259)],
]

def blast(c, P, x, y, z, B):
    g, nd = c["hydro/gamma0"], c["mesh/ndim"]
    n = [c.get("blast/blast_n" + a, 1) for a in "xyz"]
    qs = [1.0 / n[0], 1.0 / n[1], 1.0 / n[2] if nd == 3 else 1.0]
    r = c.get("blast/radius", 0.1) * min(qs)
    r2 = 0.0
    for a, q in enumerate((x, y, z)[:nd]):
        i = np.clip(np.floor(q / qs[a]), 0, None)
        r2 = r2 + (q - (i + c.get("blast/center_" + "xyz"[a], 0.5)) * qs[a]) ** 2
    ins = r2 < r * r
    rho = np.where(ins, c.get("blast/density_in", 1.0), c.get("blast/density_out", 1.0 if B else 1.2))
    p = np.where(ins, c.get("blast/pressure_in", 10.0), c.get("blast/pressure_out", 0.1))
    if B:
        b, al = c.get("blast/blast_B", 3.54491), c.get("blast/blast_alpha", 0.785398)
        return cons(g, rho, 0, 0, 0, p, (b * math.cos(al), b * math.sin(al), 0), "glm" in P)
    return cons(g, rho, 0, 0, 0, p)

def value(P, c, x, y, z):
    """problem P with configuration c at the points: dict of conservative fields (random perturbations left out)"""
    g, nd = c["hydro/gamma0"], c["mesh/ndim"]
    G = lambda k, d: c.get(k, d)
    if P == "blast":
        return blast(c, P, x, y, z, False)
    if P.startswith("MHD_blast"):
        return blast(c, P, x, y, z, True)
    if P == "implode":
        ins = y < x - G("implode/x0", 0.25)
        return cons(g, np.where(ins, G("implode/rho_in", .125), G("implode/rho_out", 1.0)), 0, 0, 0, np.where(ins, G("implode/p_in", .14), G("implode/p_out", 1.0)))
    if P == "riemann2d":
        up, right = y >= G("riemann2d/y0", .5), x >= G("riemann2d/x0", .5)
        q = np.where(up, np.where(right, 0, 1), np.where(right, 3, 2))
        T = np.array(RIEMANN[G("riemann2d/test_case", 1) - 1])[q]
        return cons(g, T[..., 1], T[..., 2], T[..., 3], 0, T[..., 0])
    if P == "kelvin_helmholtz":
        z1, z2, a, s = G("KH/z1", .5), G("KH/z2", 1.5), G("KH/a", .05), G("KH/sigma", .2)
        t = np.tanh((y - z1) / a) - np.tanh((y - z2) / a)
        v = G("KH/amplitude", .01) * np.sin(2 * np.pi * x) * (np.exp(-((y - z1) / s) ** 2) + np.exp(-((y - z2) / s) ** 2))
        return cons(g, 1 + 0.5 * G("KH/rho_fac", 0.0) * t, G("KH/uflow", 1.0) * (t - 1), v, 0, G("KH/P0", 1.0))
    if P.startswith("orszag_tang"):
        b = 1 / math.sqrt(4 * math.pi)
        s = lambda k, q: np.sin(2 * np.pi * k * q)
        return cons(g, 25 / (36 * math.pi), -s(1, y), s(1, x), 0, 5 / (12 * math.pi), (-b * s(1, y), b * s(2, x), 0), "glm" in P)
    if P == "sod":
        l = x < G("sod/x0", .5)
        return cons(g, np.where(l, G("sod/rhoL", 1.0), G("sod/rhoR", .125)), 0, 0, 0, np.where(l, G("sod/pL", 1.0), G("sod/pR", .1)))
    if P == "rayleigh_taylor":
        d = y if nd == 2 else z
        rho = np.where(d > G("RT/z0", 0.0), G("RT/rho_top", 2.0), G("RT/rho_bot", 1.0))
        p = G("RT/P0", 2.5) + rho * G("gravity/g" + "yz"[nd - 2], -0.1) * d
        w = np.zeros_like(d)
        if not G("RT/multi_mode", False):
            w = G("RT/amplitude", .01) * 0.25 * (1 + np.cos(4 * np.pi * x)) * (1 + np.cos(2 * np.pi * d))
            if nd == 3:
                w = w * (1 + np.cos(4 * np.pi * y))
        return cons(g, rho, 0, w if nd == 2 else 0, w if nd == 3 else 0, p)
    if P.startswith("MHD_rotor"):
        xm, ym = (0.5 * (c["mesh/%smin" % a] + c["mesh/%smax" % a]) for a in "xy")
        r = np.hypot(x - xm, y - ym)
        f = np.clip((0.115 - r) / 0.015, 0, 1)
        return cons(g, 1 + 9 * f, -20 * f * (ym - y), 20 * f * (xm - x), 0, 1.0, (5 / math.sqrt(4 * math.pi), 0, 0), "glm" in P)
    if P == "C91":
        d = y if nd == 2 else z
        T0, r0, m = G("C91/T0", 10.0), G("C91/rho0", 10.0), G("C91/mpoly", 1.0)
        t = 1 + G("C91/theta", 10.0) * d / T0
        return cons(g, r0 * t ** m, 0, 0, 0, r0 * T0 * t ** (m + 1))
    if P == "tri_layer":
        d = y if nd == 2 else z
        T, r, q = G("tri_layer/T0", 10.0), G("tri_layer/rho0", 10.0), None
        p = r * T
        z1, z2 = G("tri_layer/z1", 1.0), G("tri_layer/z2", 1.0)
        L = [("2", 0.0, z1), ("1", z1, z2), ("2", z2, None)]
        rho, pp = None, None
        for n, a, b in L:
            th, m = G("tri_layer/theta" + n, 1.0), G("tri_layer/m" + n, 1.0)
            t = 1 + th * (d - a) / T
            with np.errstate(invalid="ignore"):
                ri, pi = r * t ** m, p * t ** (m + 1)
            rho = ri if rho is None else np.where(d > a, ri, rho)
            pp = pi if pp is None else np.where(d > a, pi, pp)
            if b is not None:
                e = 1 + th * (b - a) / T
                r, p, T = r * e ** m, p * e ** (m + 1), T * e
        return cons(g, rho, 0, 0, 0, pp)
    raise KeyError(P)

def error(P, c, x, y, z, h):
    """largest normalised second difference of density and pressure over the directions"""
    best = 0
    o = value(P, c, x, y, z)
    for a in range(3):
        d = [h[i] if i == a else 0.0 for i in range(3)]
        l, r = value(P, c, x - d[0], y - d[1], z - d[2]), value(P, c, x + d[0], y + d[1], z + d[2])
        for k in ("rho", "_p"):
            fr, fl = r[k] - o[k], l[k] - o[k]
            best = np.maximum(best, np.abs(fr + fl) / (np.abs(fr) + np.abs(fl) + 0.01 * (np.abs(r[k]) + np.abs(l[k]) + 2 * np.abs(o[k])) + 2.3e-16))
    return best

def wants(P, c, G):
    """per leaf: 1 refine, 0 not, -1 hinges on rounding"""
    X = G.lo + G.centers() * G.L
    h = G.sizes()
    if G.nd == 2:
        h = h.copy(); h[:, 2] = 0.0
    thr = c.get("amr/epsilon_coarsen", 0.8) if P == "kelvin_helmholtz" else c.get("amr/error_max", 0.8)
    yes = np.zeros(X.shape[:2], bool); no = yes.copy()
    for s in (0.0, 1e-8, -1e-8):
        for s2 in ((s,) if s == 0 else (s, -s)):
            x, y, z = X[..., 0] + s * h[:, None, 0], X[..., 1] + s2 * h[:, None, 1], X[..., 2] + s * h[:, None, 2]
            if P == "sod":
                e, t = np.abs(x - c.get("sod/x0", .5)), 1.1 * h[:, None, 0]
                y_, n_ = e < t * (1 - 1e-9), e > t * (1 + 1e-9)
            else:
                e = error(P, c, x, y, z, (h[:, None, 0], h[:, None, 1], h[:, None, 2]))
                y_, n_ = e > thr + 1e-7, e < thr - 1e-7
            yes = y_ if s == 0 else yes & y_
            no = n_ if s == 0 else no & n_
    sure = yes.any(axis=1)
    return np.where(sure, 1, np.where(no.all(axis=1), 0, -1))

def mesh(P, c, nd, bs, cg, lmin, lmax, per, lo, L):
    """leaves (set of (level, i, j, k)) the refinement rule leads to, or None if that hinges on rounding"""
    n = [cg[a] if a < nd else 1 for a in range(3)]
    leaves = set((lmin, i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2]))
    for _ in range(lmax - lmin):
        o = np.array(sorted((x, y, z, l) for l, x, y, z in leaves), np.int64)
        s = SimpleNamespace(ndim=nd, bs=bs, meta={"level_min": lmin}, level=o[:, 3], cg=cg, oct=o)
        G = Grid(s, lo, L)
        w = wants(P, c, G)
        if (w < 0).any():
            return None
        leaves = adapted(G, w, per, lmin, lmax)
    return leaves
