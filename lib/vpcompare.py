"""Comparison of recorded states of two runs"""
import numpy as np

def canon(s):
    """leaves in canonical order with the permutation applied to the fields"""
    return s.order()

def same_leaves(a, b):
    oa, ob = a.oct[a.order()], b.oct[b.order()]
    return oa.shape == ob.shape and bool((oa == ob).all())

def leaf_diff(a, b):
    sa, sb = set(map(tuple, a.oct.tolist())), set(map(tuple, b.oct.tolist()))
    return "%d leaves against %d, only in the first %s, only in the second %s" % (len(sa), len(sb), sorted(sa - sb)[:3], sorted(sb - sa)[:3])

VEC = ("rho_vx", "rho_vy", "rho_vz", "Bx", "By", "Bz", "gx", "gy", "gz")
def scale_of(s, name, key=None):
    f = np.abs(s.f(key or name))
    m = float(f.max()) if f.size else 0.0
    base = name[:-5] if name.endswith("_next") else name
    for g in (("rho_vx", "rho_vy", "rho_vz"), ("Bx", "By", "Bz"), ("gx", "gy", "gz")):
        if base in g:
            for n in g:
                if n in s.fields:
                    m = max(m, float(np.abs(s.f(n)).max()))
    if base.startswith("rho_v") and "rho" in s.fields:
        m = max(m, 1e-3 * float(np.abs(s.f("rho")).max()))
    if base in ("gphi", "psi"):
        m = max(m, 1e-6)
    return m or 1.0

def field_diff(a, b, names=None):
    """largest difference of each field relative to its scale, where both hold the same leaves"""
    pa, pb = a.order(), b.order()
    r = {}
    for n in names or a.fields:
        x, y = a.f(n)[pa], b.f(n)[pb]
        bad = ~(np.isfinite(x) & np.isfinite(y))
        d = np.abs(x - y) / scale_of(a, n)
        d[bad & ~((x == y) | (np.isnan(x) & np.isnan(y)))] = np.inf
        d[bad & ((x == y) | (np.isnan(x) & np.isnan(y)))] = 0
        r[n] = float(d.max()) if d.size else 0.0
    return r

def particle_diff(a, b, L=(1.0, 1.0, 1.0)):
    """particles matched by id: (missing, largest difference per attribute)"""
    p, q = a.particles(), b.particles()
    if not p and not q:
        return None
    if set(p) != set(q):
        return "attributes %s against %s" % (sorted(p), sorted(q)), {}
    i, j = np.argsort(p["id"]), np.argsort(q["id"])
    if len(i) != len(j) or (p["id"][i] != q["id"][j]).any():
        return "particles lost or duplicated: %d against %d" % (len(i), len(j)), {}
    r = {}
    for k in p:
        x, y = p[k][i], q[k][j]
        if k == "pos":
            d = np.abs(x - y)
            for ax in range(3):
                d[:, ax] = np.minimum(d[:, ax], abs(L[ax] - d[:, ax])) / L[ax]
            r[k] = float(d.max()) if d.size else 0.0
        else:
            s = max(1e-30, float(np.abs(x).max()) if x.size else 0.0)
            r[k] = float(np.abs(x - y).max() / s) if x.size else 0.0
    return None, r

def value_multiset(s, names):
    """sorted bytes of all leaves' data: bit-exact identity independent of the order"""
    o = s.order()
    return np.concatenate([s.f(n)[o] for n in names], axis=1).tobytes()
