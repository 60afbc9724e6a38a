"""P14: every output file of recorded runs read back (with the HDF5 library and an XML parser) and compared with the state recorded when it was written."""
import os, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpgrid import Grid
from workloads import physics_cfg, domain
import vph5

C = Check("P14", rule="evaluations: one cell or particle of a snapshot file compared with the recorded state, or one index file checked; distinct: (physics, precision, variables, processes, number of levels)")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
TYPES = {("Float", 4): "<f4", ("Float", 8): "<f8", ("UInt", 4): "<u4", ("UInt", 8): "<u8", ("Int", 4): "<i4", ("Int", 8): "<i8"}

def xmf(d, name, what, at, w, dirn):
    """parses one index file: (grid, {attribute: (array)}, time), every referenced dataset checked"""
    p = os.path.join(dirn, name)
    if not C.require(os.path.exists(p), what + ":xmf-missing", at + ": %s is not there" % name, w.replay):
        return None
    try:
        g = ET.parse(p).getroot().find("Domain/Grid")
        assert g is not None
    except Exception as e:
        C.violation(what + ":xmf-form", at + ": %s is not well formed: %s" % (name, e), w.replay)
        return None
    files = {}
    out = {}
    for it in g.iter("DataItem"):
        f, ds = it.text.strip().split(":/")
        if f not in files:
            q = os.path.join(dirn, f)
            if not C.require(os.path.exists(q), what + ":xmf-file", at + ": %s refers to %s which is not there" % (name, f), w.replay):
                return None
            files[f] = vph5.read(q)[0]
        if not C.require(ds in files[f], what + ":xmf-data", at + ": %s refers to %s in %s which is not there" % (name, ds, f), w.replay):
            return None
        a = files[f][ds]
        dims = [int(x) for x in it.get("Dimensions").split()]
        C.require(int(np.prod(dims)) == a.size and dims[0] == a.shape[0] and (len(a.shape) == 1 or dims[1] == a.shape[1]), what + ":xmf-size", at + ": %s declares %s for %s of shape %s" % (name, dims, ds, a.shape), w.replay)
        nt = (it.get("NumberType") or it.get("DataType"), int(it.get("Precision")))
        C.require(TYPES.get(nt) == a.dtype.str, what + ":xmf-type", at + ": %s declares %s for %s of type %s" % (name, nt, ds, a.dtype), w.replay)
        out[ds] = a
    return g, out, float(g.find("Time").get("Value"))

def snapshot(s, cfg, w, what, prefix, dirn, want, pwant, lo, L):
    nd, it = s.ndim, s.scal["iter"]
    at = "%s np=%d snapshot of iteration %d" % (what, w.np_, it)
    base = "%s_iter%07d" % (prefix, it)
    X = xmf(s, base + ".xmf", what, at, w, dirn)
    C.evals += 1
    if X is None:
        return
    g, _, t = X
    data, attrs = vph5.read(os.path.join(dirn, base + ".h5"))
    for n in ("iter", "time"):
        C.require(attrs.get("scalar_data/" + n) == s.scal[n], what + ":scalar", at + ": %s is recorded as %r instead of %r" % (n, attrs.get("scalar_data/" + n), s.scal[n]), w.replay)
    C.require(abs(t - s.scal["time"]) <= 6e-6 * abs(s.scal["time"]), what + ":time", at + ": time %r in the index file instead of %r" % (t, s.scal["time"]), w.replay)
    G = Grid(s, lo, L)
    n = len(s.oct) * G.nc
    conn, xyz = data["connectivity"].astype(np.int64), data["coordinates"]
    nn = 4 if nd == 2 else 8
    real = np.dtype("<f8") if cfg.get("output/output_real_type") == "double" else np.dtype("<f4")
    if not C.require(conn.shape == (n, nn), what + ":cells", at + ": %s in the file for %d cells" % (conn.shape, n), w.replay):
        return
    C.require(xyz.dtype == real, what + ":precision", at + ": coordinates of type %s" % xyz.dtype, w.replay)
    C.require(int(g.find("Topology").get("NumberOfElements")) == n and g.find("Topology").get("TopologyType") == ("Quadrilateral" if nd == 2 else "Hexahedron"), what + ":topology", at + ": topology %s" % g.find("Topology").attrib, w.replay)
    if not C.require(conn.min() >= 0 and conn.max() < len(xyz), what + ":connectivity", at + ": node %d of %d" % (conn.max(), len(xyz)), w.replay):
        return
    P = xyz[conn].astype(float)                      # [cell, node, 3]
    if not C.require(np.isfinite(P).all(), what + ":position", at + ": a node is not finite", w.replay):
        return
    eps = np.finfo(real).eps
    # order of the nodes of a cell
    order = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]])[:nn]
    c = P.mean(axis=1)
    u = G.unit(c)
    if nd == 2:
        u[:, 2] = 0
    if not C.require(((u > 0) & (u < 1))[:, :nd].all(), what + ":position", at + ": a cell lies outside the domain", w.replay):
        return
    leaf, cell = G.find(u)
    idx = leaf * G.nc + cell
    if not C.require(len(np.unique(idx)) == n, what + ":once", at + ": %d different cells in the file instead of %d" % (len(np.unique(idx)), n), w.replay):
        return
    h = G.sizes()[leaf]
    low = G.lo + (s.oct[leaf][:, :3] * G.osize[leaf] + G.ijk[cell] * G.csize[leaf]) * G.L
    if nd == 2:
        low[:, 2] = G.lo[2]
        h = h * np.array([1, 1, 0])
    E = low[:, None, :] + order[None] * h[:, None, :]
    err = np.abs(P - E)[:, :, :nd].max() if nd == 3 else np.abs(P - E)[:, :, :2].max()
    C.require(err <= 4 * eps * (np.abs(G.lo) + G.L).max(), what + ":position", at + ": corners of a cell are off by %.3g" % err, w.replay)
    C.evals += n
    have = {e.get("Name") for e in g.iter("Attribute")}
    exp = {v for v in want if v in ("ioct", "level", "rank") or v in s.fields}
    C.require(have == exp and set(data) == exp | {"connectivity", "coordinates"}, what + ":variables", at + ": variables %s in the index, %s in the file, expected %s" % (sorted(have), sorted(set(data)), sorted(exp)), w.replay)
    for v in exp & set(data):
        a = data[v]
        if not C.require(a.shape == (n,), what + ":shape", at + ": %s has shape %s" % (v, a.shape), w.replay):
            continue
        if v == "ioct":
            C.require((a == leaf).all(), what + ":ioct", at + ": global leaf numbers differ", w.replay)
        elif v == "level":
            C.require((a == s.level[leaf]).all(), what + ":level", at + ": levels differ", w.replay)
        elif v == "rank":
            C.require((a == s.rank[leaf]).all(), what + ":rank", at + ": owners differ", w.replay)
        else:
            with np.errstate(over="ignore"):
                e = s.f(v)[leaf, cell].astype(real)
            same = (a == e) | (np.isnan(a) & np.isnan(e))
            C.require(a.dtype == real and same.all(), what + ":value", lambda: at + ": %s (%s) differs in %d cells, e.g. %r instead of %r" % (v, a.dtype, (~same).sum(), a[~same][:1].tolist(), e[~same][:1].tolist()), w.replay)
        C.count("values_compared", n)
    Q = s.particles()
    if pwant and Q:
        base = "%s_particles_particles_iter%07d" % (prefix, it)
        X = xmf(s, base + ".xmf", what, at, w, dirn)
        C.evals += 1
        if X is None:
            return
        g, _, t = X
        data, _ = vph5.read(os.path.join(dirn, base + ".h5"))
        m = len(Q["pos"])
        C.require(abs(t - s.scal["time"]) <= 6e-6 * abs(s.scal["time"]), what + ":particle-time", at + ": time %r in the particle index" % t, w.replay)
        C.require(int(g.find("Topology").get("NumberOfElements")) == m, what + ":particles", at + ": %s particles declared, there are %d" % (g.find("Topology").get("NumberOfElements"), m), w.replay)
        exp = {v for v in pwant if v in Q}
        C.require(set(data) == exp | {"coordinates"} and {e.get("Name") for e in g.iter("Attribute")} == exp, what + ":attributes", at + ": particle attributes %s, expected %s" % (sorted(data), sorted(exp)), w.replay)
        # rows as sets: the order of the particles in the file is free, but every attribute must be in the same order
        cols = ["coordinates"] + sorted(exp)
        if all(len(data.get(v, [])) == m for v in cols):
            row = lambda D: sorted(np.concatenate([np.asarray(D[v], real).reshape(m, -1) for v in cols], axis=1).tolist()) if m else []
            a, b = row(data), row(dict(Q, coordinates=Q["pos"]))
            C.require(a == b, what + ":particle-values", lambda: at + ": particle rows differ, e.g. %s instead of %s" % next((x, y) for x, y in zip(a, b) if x != y), w.replay)
            C.evals += m
            C.count("particles_compared", m)
        else:
            C.violation(what + ":particles", at + ": datasets of lengths %s for %d particles" % ({v: len(data.get(v, [])) for v in cols}, m), w.replay)
    C.distinct.add("%s/%s/%s/np%d/%d levels" % (what, real, "+".join(sorted(want)), w.np_, len(set(s.level.tolist()))))

def one(k):
    R = Rand("p14", C.seed, k)
    cfg, what, tol = physics_cfg(R, k, steps=R.i(2, 4))
    nd = cfg["mesh/ndim"]
    names = ["rho", "e_tot", "rho_vx", "rho_vy", "rho_vz", "level", "rank", "ioct", "Bx", "gphi", "gx", "nothing"]
    want = [v for v in names if R.u() < 0.55] or ["rho"]
    if R.u() < 0.5:
        want = want[::-1]
    pn = [v for v in ("vx", "id", "mass", "vz", "nothing") if R.u() < 0.6]
    lo, L = [0.0] * 3, [1.0] * 3
    if "point_mass" not in what:
        lo, L = domain(R, nd)
        for a, n in enumerate("xyz"[:nd]):
            cfg["mesh/%smin" % n], cfg["mesh/%smax" % n] = lo[a], lo[a] + L[a]
    prefix = R.pick(["out", "a_b"])
    sub = R.pick(["./", ".", "./sub", "deep/er/"])
    cfg.update({"run/enable_output": True, "output/backend": "IOManager_h5vp", "run/output_frequency": R.pick([1, 2, -1]), "output/write_variables": ",".join(want), "output/outputPrefix": prefix, "output/outputDir": sub, "output/output_real_type": R.pick(["float", "double"])})
    if "vp/npart" in cfg and cfg["vp/npart"]:
        cfg["output/write_particle_variables"] = ",".join(["particles/" + v for v in pn] + R.pick([[], ["unknown/x"]])) or "particles"
    nleaf = 2 ** (nd * cfg["amr/level_min"]) if not cfg.get("amr/coarse_oct_resolution_x") else 4
    np_ = R.i(1, max(1, min(5, nleaf // 2)))
    w = Workload(C, exe, cfg, np_, R.pick([1, 2]), ("out",), timeout=120)
    if not C.run_ok(w.r, what, w.replay):
        return
    T = w.trace()
    dirn = os.path.join(w.d, sub)
    for s in T:
        snapshot(s, cfg, w, what, prefix, dirn, want, pn if "output/write_particle_variables" in cfg else None, lo, L)
    at = "%s np=%d" % (what, np_)
    for name, suffix in (("%s_main.xmf" % prefix, ""), ("%s_particles_particles_main.xmf" % prefix, "_particles_particles")):
        if suffix and "output/write_particle_variables" not in cfg:
            continue
        p = os.path.join(dirn, name)
        C.evals += 1
        try:
            href = [e.get("href") for e in ET.parse(p).getroot().iter("{http://www.w3.org/2001/XInclude}include")]
        except Exception as e:
            C.violation(what + ":main-form", at + ": %s cannot be read: %s" % (name, e), w.replay)
            continue
        exp = ["%s%s_iter%07d.xmf" % (prefix, suffix, s.scal["iter"]) for s in T]
        C.require(href == exp, what + ":main", at + ": %s lists %s instead of %s" % (name, href, exp), w.replay)
    extra = sorted(f for f in os.listdir(dirn) if f.endswith(".h5") and "particles" not in f)
    C.require(extra == sorted("%s_iter%07d.h5" % (prefix, s.scal["iter"]) for s in T), what + ":files", at + ": files %s" % extra, w.replay)
    C.sample("%s: %d snapshots of %s read back" % (at, len(T), ",".join(want)))
    w.clean()

guarded(C, lambda: pmap(one, range(48 if not C.thorough else 480), 4))
