"""Comparison of recorded states cell by cell"""
from kit import *

def cells(s, perm=(0, 1, 2), flip=()):
    """(key of each cell: level and position, order that sorts the cells by it); perm: axis a of the state is read from axis perm[a]; flip: mirrored axes"""
    bs, cg = np.array(s.bs), np.array(s.cg)
    if s.ndim == 2:
        bs[2] = cg[2] = 1
    k, j, i = np.meshgrid(*[np.arange(bs[a]) for a in (2, 1, 0)], indexing="ij")
    ijk = np.stack([i.ravel(), j.ravel(), k.ravel()], axis=1)
    o = s.oct[:, :3].copy()
    if s.ndim == 2:
        o[:, 2] = 0
    x = o[:, None, :] * bs + ijk[None]
    lv = (s.level - s.meta["level_min"])[:, None]
    n = (cg * bs)[None, :] * np.where(np.arange(3) < s.ndim, 2 ** lv, 1)
    for a in flip:
        x[..., a] = n[:, None, a] - 1 - x[..., a]
    x = x[..., list(perm)]
    key = np.concatenate([np.broadcast_to(lv[..., None], x.shape[:2] + (1,)), x], axis=2).reshape(-1, 4)
    return key[np.lexsort(key.T)], np.lexsort(key.T)

def differences(a, b, names, perm=(0, 1, 2), flip=(), signs={}, b_names=None):
    """largest relative difference per field between a and the image of b; None if the meshes differ"""
    ka, oa = cells(a)
    kb, ob = cells(b, perm, flip)
    if ka.shape != kb.shape or not np.array_equal(ka, kb):
        return None
    r = {}
    for n in names:
        x, y = a.f(n).ravel()[oa], b.f((b_names or {}).get(n, n)).ravel()[ob] * signs.get(n, 1)
        r[n] = float(np.abs(x - y).max() / max(np.abs(x).max(), 1e-300))
    return r

def same(a, b, tol, what, names=None, **kw):
    d = differences(a, b, names or a.fields, **kw)
    check(d is not None, what + ": same mesh")
    check(all(v <= tol for v in d.values()), "%s: largest differences %s" % (what, {k: float("%.2g" % v) for k, v in d.items()}))
