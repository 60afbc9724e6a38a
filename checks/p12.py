"""P12: computed flows against exact solutions (waves, vortices, Riemann problems, uniform pressure and velocity), and the decrease of the error with resolution."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
import vpexact
import vpref1d

C = Check("P12", rule="evaluations: one flow compared with its exact (or independently computed) solution at one resolution, or one recorded state of a flow with uniform velocity and pressure; distinct: (flow, scheme, solver, dimension, direction, mesh refined or not)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
ALL = ["HydroUpdate_hancock", "HydroUpdate_hancock_oneneighbor", "HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_legacy", "MHDUpdate_hancock", "MHDUpdate_hancock_oneneighbor", "MHDUpdate_euler", "MHDUpdate_RK2", "GLMMHDUpdate_euler/hlld", "GLMMHDUpdate_RK2/hlld", "GLMMHDUpdate_euler/five_waves", "GLMMHDUpdate_RK2/five_waves"]
HYDRO = ALL[:5]
CAL = os.environ.get("VP_CAL")
cal = []

def comps(s, g):
    """primitive states of a recorded state, one array per component"""
    r = s.f("rho")
    h = [r, None] + [s.f("rho_v" + c) / r for c in "xyz"]
    e = s.f("e_tot") - 0.5 * r * sum(v * v for v in h[2:5])
    if "Bx" in s.fields:
        h += [s.f("B" + c) for c in "xyz"]
        e = e - 0.5 * sum(b * b for b in h[5:8])
    h[1] = (g - 1) * e
    return h

def scales(q0, g):
    c = np.sqrt(g * q0[1] / q0[0])
    return [q0[0], g * q0[1]] + [c] * 3 + [np.sqrt(g * q0[1])] * 3

def conf(nd, n, L, update, g, refine=0.0, moving=False, per=(True,) * 3):
    """mesh of n cells per direction (multiples of 4) of a box L"""
    up, _, ri = update.partition("/")
    cg = [max(1, n[a] // 4) for a in range(3)]
    if nd == 2: cg[2] = 1
    lmin = (max(cg[:nd]) - 1).bit_length()
    cfg = base_cfg(ndim=nd, bs=4, cg=cg, lmin=lmin, lmax=lmin + (1 if refine else 0), update=up)
    if ri: cfg["hydro/riemann"] = ri
    cfg.update({"hydro/gamma0": g, "vp/refine_prob": refine, "vp/mark_refine": 0.2 if moving else 0.0, "vp/mark_coarsen": 0.3 if moving else 0.0, "amr/cycle_frequency": 4 if moving else -1, "run/nstepmax": 100000,
                "run/enable_output": True, "output/backend": "IOManager_vp", "run/initial_conditions": "vp_flow", "dt/hydro_cfl": 0.4})
    for a, x in enumerate("xyz"):
        cfg["mesh/%smin" % x], cfg["mesh/%smax" % x] = 0.0, float(L[a])
        for s in ("min", "max"):
            cfg["mesh/boundary_type_%s%s" % (x, s)] = "periodic" if per[a] else "absorbing"
    return cfg

def final(cfg, key, np_=1, tags=("out",)):
    w = Workload(C, exe, cfg, np_, 1, tags, timeout=120)
    if not C.run_ok(w.r, key, w.replay):
        w.clean()
        return w, None
    T = w.trace()
    w.clean()
    return w, T

# ---- waves
def background(R, mhd, nd):
    q = [R.u(.5, 2), R.u(.4, 2), R.u(-.5, .5), R.u(-.5, .5), R.u(-.5, .5), 0, 0, 0, 0]
    if mhd:
        q[5:8] = [R.pick([-1, 1]) * R.u(.3, 1) for _ in range(3)]
        if nd == 2: q[7] = 0.0
    if nd == 2: q[4] = 0.0
    return q

def wave_run(update, nd, k, N, q0, vec, speed, eps, T, g, refine, key, np_):
    L = [1.0 * max(1, abs(k[a])) if k[a] else 4.0 / N for a in range(3)]
    if nd == 2: L[2] = 1.0
    n = [N * max(1, abs(k[a])) if k[a] else 4 for a in range(3)]
    cfg = conf(nd, n, L, update, g, refine)
    kp = np.array([k[a] / L[a] for a in range(3)])
    cfg.update({"vp/flow": "wave", "vp/q0": list(q0), "vp/qre": list(np.real(vec)), "vp/qim": list(np.imag(vec)), "vp/k": list(k), "vp/eps": eps, "run/tEnd": T})
    w, tr = final(cfg, key, np_)
    if not tr:
        return None, w
    s = tr[-1]
    X = Grid(s, [0] * 3, L)
    c = X.centers() * np.array(L)
    ph = 2 * np.pi * ((c @ kp) - speed * np.linalg.norm(kp) * s.scal["time"])
    h, sc = comps(s, g), scales(q0, g)
    V = X.vol()[:, None] * np.ones(h[0].shape[1])
    num = den = 0.0
    for i in range(len(h)):
        e = eps * (np.real(vec[i]) * np.cos(ph) - np.imag(vec[i]) * np.sin(ph))
        num += (np.abs(h[i] - q0[i] - e) / sc[i] * V).sum()
        den += (np.abs(e) / sc[i] * V).sum()
    return num / den, w

# largest error relative to the amplitude after half the time the fastest signal needs to cross one wave length, at 32 and 64 cells per wave length (and, on uniform meshes, the smallest ratio of the two): about 1.4 times the largest seen with 250 flows
def limits(update, refined):
    if refined: return (0.16, 0.10), None
    return ((0.19, 0.085), 1.8) if "euler" in update else ((0.095, 0.028), 2.7)

def wave(k_):
    R = Rand("p12w", C.seed, k_)
    update = ALL[k_ % len(ALL)]
    mhd = "MHD" in update
    nd = R.pick([2, 2, 3])
    g = R.pick([1.4, 5 / 3.])
    kv = R.pick([[1, 0, 0], [0, 1, 0], [1, 1, 0], [1, -1, 0]] if nd == 2 else [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    q0 = background(R, mhd, nd)
    kind = R.pick(["linear", "linear", "density"] + (["alfven"] if mhd and nd == 3 else []))
    n = np.array(kv, float) / np.linalg.norm(kv)
    un = float(np.dot(q0[2:5], n))
    cf = 0
    M = vpexact.modes(q0, n, g, mhd)
    cf = max(abs(c) for c, _, _ in M)
    if kind == "linear":
        ok = [m for m in M if nd == 3 or (abs(m[2][4]) < 1e-6 and abs(m[2][7]) < 1e-6)]
        if not mhd:
            ok = [m for m in ok if np.abs(m[2][5:8]).max() < 1e-6]
        c, speed, vec = R.pick(ok)
        eps, name = 1e-3, "linear"
        # degenerate eigenvectors (shear and density waves share a speed): any combination is a solution
        vec = vec * np.exp(1j * R.u(0, 6.28))
    elif kind == "density":
        c, speed, vec, eps, name = 0.0, un, np.array([q0[0] * 0.5] + [0] * 8) * np.exp(1j * R.u(0, 6.28)), 1.0, "density"
    else:
        # circularly polarised Alfven wave of finite amplitude
        F = vpexact.frame(n)
        bn = float(np.dot(q0[5:8], n))
        q0[5:8] = list(bn * n)
        sg = R.pick([-1, 1])
        va = bn / np.sqrt(q0[0])
        c, eps = sg * va, 1.0
        speed = un + c
        A = R.u(.1, .4)
        b = F[1] + 1j * R.pick([-1, 1]) * F[2]
        vec = np.zeros(9, complex)
        vec[5:8] = A * b
        vec[2:5] = -sg * A * b / np.sqrt(q0[0])
        cf = np.sqrt(g * q0[1] / q0[0] + (bn * bn + A * A) / q0[0])
        name = "alfven"
    if kind == "density":
        cf = np.sqrt((g * q0[1] + sum(b * b for b in q0[5:8])) / (0.5 * q0[0]))
    T = 0.5 / np.linalg.norm(n) / (abs(un) + cf)
    T = T / np.linalg.norm(kv) * 1.0
    refine = 0.0 if update.split("/")[0] in ("HydroUpdate_legacy", "HydroUpdate_hancock", "MHDUpdate_hancock") else R.pick([0.0, 0.0, 0.4])
    np_ = R.pick([1, 1, 1, 2])
    key = "%s/%s/%dD" % (name, update, nd)
    e = []
    for i, N in enumerate((32, 64) if not C.thorough else (32, 64, 128)):
        if np.prod([N * abs(a) if a else 4 for a in kv[:nd]]) > 40000: break
        x, w = wave_run(update, nd, kv, N, q0, vec, speed, eps, T, g, refine, key, np_)
        if x is None:
            return
        e.append(x)
    with C.lock:
        C.evals += len(e)
        C.saw((name, update, nd, tuple(kv), refine > 0))
        if CAL: cal.append(("wave", name, update, nd, tuple(kv), refine > 0, e[0], e[1], np.log2(e[0] / e[1]), abs(speed)))
        lim, low = limits(update, refine > 0)
        for v, m, N in zip(e, lim, (32, 64)):
            C.require(v <= m, key + ":error", lambda: "%s wave along %s: error %.3g of the amplitude with %d cells per wave length (at most %.3g expected)" % (key, kv, v, N, m), w.replay)
        if low:
            for i in range(1, len(e)):
                C.require(e[i] * low <= e[i - 1] or e[i] < 0.0007, key + ":order", lambda: "%s wave along %s: error %.4g with %d and %.4g with %d cells per wave length, expected to decrease by at least %g" % (key, kv, e[i - 1], 16 << i, e[i], 32 << i, low), w.replay)
        if k_ < 4:
            C.sample("%s wave, %s, %dD along %s: errors %s" % (name, update, nd, kv, ["%.4f" % x for x in e]))

# ---- vortex
def vortex(k_):
    R = Rand("p12v", C.seed, k_)
    update = HYDRO[k_ % 5]
    nd, axis = 2, 2
    if R.u() < 0.4:
        nd, axis = 3, R.i(0, 2)
    g = R.pick([1.4, 5 / 3.])
    q0 = [R.u(.5, 2), R.u(.5, 2)] + [R.u(-1, 1) if a != axis else 0.0 for a in range(3)] + [0] * 4
    cs = np.sqrt(g * q0[1] / q0[0])
    eps = 0.5 * cs
    Rr = 0.1
    key = "vortex/%s/%dD" % (update, nd)
    refine = 0.0 if update in ("HydroUpdate_legacy", "HydroUpdate_hancock") else R.pick([0.0, 0.3])
    e = []
    for N in (32, 64):
        L = [1.0 if a != axis else 4.0 / N for a in range(3)]
        if nd == 2: L[2] = 1.0
        cfg = conf(nd, [N if a != axis else 4 for a in range(3)], L, update, g, refine)
        T = 0.3 / cs
        cfg.update({"vp/flow": "vortex", "vp/q0": q0, "vp/eps": eps, "vp/radius": Rr, "vp/axis": axis, "run/tEnd": T})
        w, tr = final(cfg, key, R.pick([1, 1, 1, 2]))
        if not tr:
            return
        s = tr[-1]
        G = Grid(s, [0] * 3, L)
        X = G.centers() * np.array(L)
        a, b = (axis + 1) % 3, (axis + 2) % 3
        d = [X[..., i] - 0.5 * L[i] - q0[2 + i] * s.scal["time"] for i in (a, b)]
        d = [(v + 0.5) % 1.0 - 0.5 for v in d]
        u, v = d[0] / Rr, d[1] / Rr
        f = np.exp(0.5 * (1 - u * u - v * v))
        Tm = 1 - (g - 1) * eps ** 2 / (2 * g) * f * f * q0[0] / q0[1]
        ex = [q0[0] * Tm ** (1 / (g - 1)), q0[1] * Tm ** (g / (g - 1))] + [q0[2 + i] + 0 * u for i in range(3)]
        ex[2 + a] = ex[2 + a] - eps * f * v
        ex[2 + b] = ex[2 + b] + eps * f * u
        h, sc = comps(s, g), scales(q0, g)
        V = G.vol()[:, None]
        num = sum((np.abs(h[i] - ex[i]) / sc[i] * V).sum() for i in range(5))
        den = sum((np.abs(ex[i] - q0[i]) / sc[i] * V).sum() for i in range(5))
        e.append(num / den)
    with C.lock:
        C.evals += 2
        C.saw(("vortex", update, nd, axis, refine > 0))
        if CAL: cal.append(("vortex", update, nd, axis, refine > 0, e[0], e[1], e[0] / e[1]))
        C.require(e[0] <= 0.33 and e[1] <= 0.10, key + ":error", lambda: "%s: error %.3g and %.3g of the vortex with 3.2 and 6.4 cells in its radius" % (key, e[0], e[1]), w.replay)
        C.require(e[1] * (2.5 if not refine else 1.7) <= e[0], key + ":order", lambda: "%s: error %.3g and %.3g of the vortex with 3.2 and 6.4 cells in its radius" % (key, e[0], e[1]), w.replay)

# ---- Riemann problems
def reference(ql, qr, g, T):
    # in a process of its own: numpy on short arrays does not run in parallel threads
    import subprocess, json
    f = [sys.executable, os.path.join(os.path.dirname(os.path.abspath(vpref1d.__file__)), "vpref1d.py")]
    o = subprocess.run(f, input=json.dumps([list(map(float, ql)), list(map(float, qr)), g, float(T), 1200]), capture_output=True, text=True, check=True, env=dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"))
    x, q = json.loads(o.stdout)
    return np.array(x), np.array(q)

def jump(k_):
    R = Rand("p12j", C.seed, k_)
    update = ALL[k_ % len(ALL)]
    mhd = "MHD" in update
    nd = R.pick([2, 3])
    axis = R.i(0, nd - 1)
    g = R.pick([1.4, 5 / 3.])
    while True:
        def state():
            q = [10 ** R.u(-.7, .7), 10 ** R.u(-.7, .7)] + [R.u(-.6, .6) if nd == 3 or a < 2 else 0.0 for a in range(3)] + [0] * 4
            if mhd:
                q[5:8] = [R.u(-1, 1) if nd == 3 or a < 2 else 0.0 for a in range(3)]
            return q
        ql, qr = state(), state()
        if R.u() < 0.3:   # like sod: only density and pressure jump
            qr[2:8] = ql[2:8]
        qr[5 + axis] = ql[5 + axis]
        sp = 0
        for q in (ql, qr):
            sp = max(sp, abs(q[2 + axis]) + np.sqrt((g * q[1] + sum(b * b for b in q[5:8])) / q[0]))
        if not mhd:
            sol = vpexact.riemann((ql[0], ql[2 + axis], ql[1]), (qr[0], qr[2 + axis], qr[1]), g)
            if sol is None: continue
        break
    T = 0.3 / sp
    key = "riemann/%s/%dD" % (update, nd)
    refine = 0.0 if update.split("/")[0] in ("HydroUpdate_legacy", "HydroUpdate_hancock", "MHDUpdate_hancock") else R.pick([0.0, 0.0, 0.4])
    moving = refine > 0 and R.u() < 0.5
    o1, o2 = (axis + 1) % 3, (axis + 2) % 3
    perm = [axis, o1, o2]
    ref = None
    e = []
    for N in (64, 128):
        L = [1.0 if a == axis else 4.0 / N for a in range(3)]
        if nd == 2: L[2] = 1.0
        cfg = conf(nd, [N if a == axis else 4 for a in range(3)], L, update, g, refine, moving, per=[a != axis for a in range(3)])
        cfg.update({"vp/flow": "jump", "vp/q0": ql, "vp/qre": qr, "vp/x0": 0.5, "vp/axis": axis, "run/tEnd": T})
        w, tr = final(cfg, key, R.pick([1, 1, 1, 2]))
        if not tr:
            return
        s = tr[-1]
        t = s.scal["time"]
        G = Grid(s, [0] * 3, L)
        x = G.centers()[..., axis]
        h = comps(s, g)
        if not mhd:
            # average of the exact solution over the cell
            ex = [0.0] * 3
            dx = G.csize[:, None, axis]
            for f in (np.arange(16) + 0.5) / 16 - 0.5:
                r = sol((x + f * dx - 0.5) / t)
                ex = [a + b / 16 for a, b in zip(ex, r)]
            u = x[..., None]
            # transverse velocities jump with the contact
            cmp_ = [(h[0], ex[0]), (h[2 + axis], ex[1]), (h[1], ex[2])]
        else:
            if ref is None:
                p9 = lambda q: [q[0], q[1]] + [q[2 + i] for i in perm] + [q[5 + i] for i in perm]
                ref = reference(p9(ql), p9(qr), g, T)
            xr, qs = ref
            cmp_ = []
            for j, i in enumerate([0, 1] + [2 + a for a in perm] + [5 + a for a in perm]):
                if j == 5: continue
                cmp_.append((h[i], np.interp(x, xr, qs[j])))
        V = G.vol()[:, None]
        num = sum((np.abs(a - b) * V).sum() / max(np.ptp(b), 0.1 * np.abs(b).max(), 0.1 * (sp if i > (1 if mhd else 0) else 0)) for i, (a, b) in enumerate(cmp_)) / V.sum() / x.shape[1]
        e.append(num / len(cmp_))
    with C.lock:
        C.evals += 2
        C.saw(("riemann", update, nd, axis, refine > 0, moving))
        if CAL: cal.append(("jump", update, nd, axis, refine > 0, moving, e[0], e[1], e[0] / e[1]))
        C.require(e[0] <= (0.05 if not refine else 0.07) and e[1] <= (0.03 if not refine else 0.045), key + ":error", lambda: "%s: mean error %.3g and %.3g of the jump with 64 and 128 cells" % (key, e[0], e[1]), w.replay)
        C.require(refine > 0 or e[1] * 1.1 <= e[0] or e[1] < 0.003, key + ":order", lambda: "%s: mean error %.3g and %.3g of the jump with 64 and 128 cells" % (key, e[0], e[1]), w.replay)

# ---- uniform velocity and pressure stay so whatever the density and the mesh do
def contact(k_):
    R = Rand("p12c", C.seed, k_)
    update = ALL[k_ % len(ALL)]
    mhd = "MHD" in update
    nd = R.pick([2, 3])
    g = R.pick([1.4, 5 / 3.])
    up, _, ri = update.partition("/")
    fixed = up in UNIFORM_ONLY
    cfg = random_cfg(R, nd, up, steps=R.i(4, 8), periodic=True)
    if ri: cfg["hydro/riemann"] = ri
    if up == "HydroUpdate_legacy":
        cfg["vp/refine_prob"] = cfg["vp/mark_refine"] = cfg["vp/mark_coarsen"] = 0.0
    q0 = background(R, mhd, nd)
    s_ = R.pick([1.0, 1.0, 1e-3, 1e3])
    q0[1] *= s_
    amp = R.pick([0.0, 0.5, 0.9]) * q0[0]
    kv = [R.i(-2, 2) if a < nd else 0 for a in range(3)]
    cfg.update({"run/initial_conditions": "vp_flow", "vp/flow": R.pick(["wave", "jump"]), "vp/q0": q0, "vp/k": kv, "vp/eps": 1.0, "vp/x0": R.u(.2, .8), "vp/axis": R.i(0, nd - 1), "hydro/gamma0": g})
    vec = [amp] + [0] * 8
    if cfg["vp/flow"] == "jump":
        vec = list(q0); vec[0] = q0[0] + amp * R.pick([1, 10])
    cfg["vp/qre"] = vec
    lo, L = [0.0] * 3, [1.0] * 3
    np_ = R.pick([1, 2, 3])
    key = "contact/%s/%dD" % (update, nd)
    w, tr = final(cfg, key, np_, ("step",))
    if not tr:
        return
    with C.lock:
        for s in tr:
            h = comps(s, g)
            v = np.sqrt(sum(c * c for c in q0[2:5])) + np.sqrt((g * q0[1] + sum(b * b for b in q0[5:8])) / min(q0[0] - (amp if vec[0] <= q0[0] or cfg["vp/flow"] == "wave" else 0), q0[0]))
            tot = q0[1] + sum(b * b for b in q0[5:8]) + h[0].max() * sum(c * c for c in q0[2:5])
            for i, x in enumerate(h):
                if i == 0: continue
                d = np.abs(x - q0[i]).max()
                sc = tot if i == 1 else v if i < 5 else np.sqrt(tot)
                lim = 1e-11
                if CAL and s is tr[-1]: cal.append(("contact", update, nd, i, d / sc))
                if not C.require(d <= lim * sc, key + ":%s" % "rho p u v w Bx By Bz".split()[i], lambda: "%s: %s departs from its uniform value by %.3g (of %.3g) in step %d" % (key, "rho p u v w Bx By Bz".split()[i], d, sc, s.scal["iter"]), w.replay):
                    break
            C.evals += 1
        C.saw(("contact", update, nd, len(set(tr[-1].level)) > 1, np_, amp > 0))

def body():
    f = 3 if C.thorough else 1
    jobs = [(wave, k) for k in range(26 * f)] + [(vortex, k) for k in range(5 * f)] + [(jump, k) for k in range(13 * f)] + [(contact, k) for k in range(26 * f)]
    only = os.environ.get("VP_ONLY")
    pmap(lambda j: j[0](j[1]), [j for j in jobs if not only or j[0].__name__ == only], workers=6)
    for c in sorted(cal, key=str):
        print("CAL", c)

guarded(C, body)
