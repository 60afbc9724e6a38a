"""P17: mass projected from particles onto the grid, recorded around every projection of real runs and of seeded particle sets."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from workloads import domain

C = Check("P17", rule="evaluations: one projection recorded with the particles and densities before and after, compared cell by cell with an independent projection; distinct: (scheme, dimension, processes, particle kind, mesh) with particles in cells next to level changes")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")

def cfg_of(R, k):
    den = ["NGP", "CIC"][k % 2]
    nd = 3 if (den == "CIC" and k % 4 == 1) or R.u() < 0.5 else 2
    lo, L = domain(R, nd)
    cfg = random_cfg(R, nd, "HydroUpdate_euler", steps=R.i(2, 4), gravity__solver="GravitySolver_point_mass", gravity__gravity_type="constant_field", gravity__softening=0.2, gravity__point_mass_Gmass=0.05,
                     particles__update_density="vpwrap_ParticleUpdate_%s_density" % den, particles__update_position="ParticleUpdate_NGP_move", vp__npart=R.pick([1, 30, 300]), vp__pcluster=R.pick([0.0, 0.0, 0.7]), vp__pedge=R.pick([False, True]),
                     vp__pvel=0.7, dt__dt_kernel="Compute_dt_hydro,Compute_dt_particle_velocity,vp_probe")
    for a, n in enumerate("xyz"[:nd]):
        cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
        cfg["gravity/point_mass_" + n] = lo[a] + 0.4 * L[a]
    if nd == 2:
        cfg["gravity/point_mass_z"] = 0.0
    return cfg, den, nd, lo, L

def one(k):
    R = Rand("p17", C.seed, k)
    cfg, den, nd, lo, L = cfg_of(R, k)
    np_ = R.pick([1, 2, 3])
    w = Workload(C, exe, cfg, np_, R.pick([1, 3]), ("preproj", "postproj"))
    what = "%s/%dD" % (den, nd)
    if not C.run_ok(w.r, what, w.replay):
        return
    T = w.trace()
    for a, b in zip(T[0::2], T[1::2]):
        C.evals += 1
        at = "%s np=%d iteration %s" % (what, np_, a.scal["iter"])
        G = Grid(b, lo, L)
        P = b.particles()
        V = G.vol()
        gas = b.f("rho")
        add = b.f("rho_g") - gas
        eps = 1e-12 * np.abs(gas).max() + 1e-12 * np.abs(add).max()
        if not C.require(np.isfinite(b.f("rho_g")).all(), what + ":nan", at + ": projected density is not finite", w.replay):
            return
        C.require((a.f("rho") == gas).all(), what + ":gas", at + ": the gas density was changed by the projection", w.replay)
        tot, m = float((add.sum(axis=1) * V).sum()), float(P["mass"].sum())
        bad = not C.require(abs(tot - m) <= 1e-10 * (m + np.abs(gas).max()), what + ":mass", "%s: %d particles of total mass %.12g add a mass of %.12g to the grid" % (at, len(P["mass"]), m, tot), w.replay)
        bad |= not C.require(add.min() >= -eps, what + ":negative", at + ": the projection lowers the density by %.3g" % add.min(), w.replay)
        u = G.unit(P["pos"])
        if nd == 2:
            u[:, 2] = 0
        edge = G.edge_distance(u)
        leaf, cell = G.find(u)
        if den == "NGP":
            ref = np.zeros_like(add)
            np.add.at(ref, (leaf, cell), P["mass"] / V[leaf])
            d = np.abs(ref - add)
            # a particle within rounding of a cell face may be counted on either side
            for p in np.nonzero(edge < 1e-9)[0]:
                for o in np.ndindex(3, 3, 3 if nd == 3 else 1):
                    off = (np.array([o[0] - 1, o[1] - 1, (o[2] - 1) if nd == 3 else 0])) * 1e-7 * G.csize[leaf[p]]
                    l2, c2 = G.find((u[p] + off)[None])
                    d[l2, c2] = 0
            bad |= not C.require(d.max() <= eps, what + ":cell", lambda: "%s: leaf %s cell %d received %.12g instead of %.12g" % ((at, tuple(b.oct[np.unravel_index(d.argmax(), d.shape)[0]]), np.unravel_index(d.argmax(), d.shape)[1]) + (add.ravel()[d.argmax()], ref.ravel()[d.argmax()])), w.replay)
        else:
            ref, sure = cic(G, u, P["mass"], V, leaf, cell, edge, nd)
            d = np.where(sure, np.abs(ref - add), 0)
            bad |= not C.require(d.max() <= eps, what + ":cell", lambda: "%s: leaf %s cell %d received %.12g instead of %.12g" % ((at, tuple(b.oct[np.unravel_index(d.argmax(), d.shape)[0]]), np.unravel_index(d.argmax(), d.shape)[1]) + (add.ravel()[d.argmax()], ref.ravel()[d.argmax()])), w.replay)
            with C.lock:
                C.count("cells_compared_exactly", int((sure & (ref > 0)).sum()))
        C.count("particles_projected", len(P["mass"]))
        jump = near_jump(G, u, leaf, nd)
        C.count("particles_next_to_level_change", jump)
        if jump:
            C.distinct.add("%s/np%d/%d levels/pedge%d" % (what, np_, len(set(b.level.tolist())), cfg["vp/pedge"]))
        if bad:
            return
    C.sample("%s np=%d: %d projections of %d particles" % (what, np_, len(T) // 2, cfg["vp/npart"]))
    w.clean()

def near_jump(G, u, leaf, nd):
    n = 0
    for o in np.ndindex(3, 3, 3 if nd == 3 else 1):
        off = np.array([o[0] - 1, o[1] - 1, (o[2] - 1) if nd == 3 else 0]) * G.csize[leaf]
        l2, _ = G.find(u + off)
        n = n | (G.s.level[l2] != G.s.level[leaf])
    return int(np.sum(n))

def cic(G, u, mass, V, leaf, cell, edge, nd):
    """cloud in cell with clouds of the size of the particle's cell: each place of that size receives its overlap with the cloud; a bigger cell there
    receives it all, smaller cells share it evenly, those that touch the particle's cell. Particles within rounding of a cell face are left to the
    mass balance and the support check."""
    ref = np.zeros((len(G.s.oct), G.nc))
    sure = np.ones_like(ref, bool)
    h = G.csize[leaf]
    ok = edge >= 1e-9
    for o in np.ndindex(3, 3, 3 if nd == 3 else 1):
        o = np.array([o[0] - 1, o[1] - 1, (o[2] - 1) if nd == 3 else 0])
        base = (np.floor(u / h) + 0.5 + o) * h
        if nd == 2:
            base[:, 2] = 0
        l2, c2 = G.find(base)
        frac = np.ones(len(mass))
        for a in range(nd):
            frac *= np.maximum(0.0, 1.0 - np.abs(u[:, a] - base[:, a]) / h[:, a])
        fine = G.s.level[l2] > G.s.level[leaf]
        k = ok & ~fine
        np.add.at(ref, (l2[k], c2[k]), (mass * frac / V[l2])[k])
        k = ok & fine
        sub = list(itertools.product(*[[-0.25 * o[a]] if o[a] else [-0.25, 0.25] for a in range(nd)]))
        for p in sub:
            x = base[k].copy()
            x[:, :nd] += np.array(p) * h[k][:, :nd]
            l3, c3 = G.find(x)
            np.add.at(ref, (l3, c3), mass[k] * frac[k] / len(sub) / V[l3])
    same = ok
    # other particles: everything within one cell size of the particle's cell
    for o in np.ndindex(*([9] * nd)):
        q = np.zeros_like(u[~same])
        for a in range(nd):
            q[:, a] = u[~same, a] + (o[a] - 4) / 4 * 1.6 * h[~same, a]
        l2, c2 = G.find(q)
        sure[l2, c2] = False
    return ref, sure

guarded(C, lambda: pmap(one, range(48 if not C.thorough else 300), 4))
