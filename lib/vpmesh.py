"""The adaptation a set of marks asks for: least change of the marks that keeps 2:1 balance (faces, edges, corners) and complete groups of siblings"""
import numpy as np

def neighbours(G, periodic):
    """pairs (i, j) of leaves that touch, as two arrays; periodic: per axis"""
    o = G.owner
    out = []
    rng = [(-1, 0, 1)] * G.nd + [(0,)] * (3 - G.nd)
    for dx in rng[0]:
        for dy in rng[1]:
            for dz in rng[2]:
                if (dx, dy, dz) <= (0, 0, 0):
                    continue
                a, b = o, o
                for ax, d in enumerate((dx, dy, dz)):
                    if d == 0:
                        continue
                    if periodic[ax]:
                        b = np.roll(b, -d, axis=ax)
                    else:
                        n = o.shape[ax]
                        lo = [slice(None)] * 3
                        hi = [slice(None)] * 3
                        lo[ax] = slice(0, n - 1) if d > 0 else slice(1, n)
                        hi[ax] = slice(1, n) if d > 0 else slice(0, n - 1)
                        a, b = a[tuple(lo)], b[tuple(hi)]
                out.append(np.unique(np.stack([a.ravel(), b.ravel()], axis=1), axis=0))
    p = np.unique(np.concatenate(out), axis=0)
    p = p[p[:, 0] != p[:, 1]]
    return np.concatenate([p[:, 0], p[:, 1]]), np.concatenate([p[:, 1], p[:, 0]])

def adapted(G, marks, periodic, lmin, lmax):
    """set of (level, i, j, k) after the adaptation"""
    oct_, lev = G.s.oct, G.s.level
    m = np.array(marks).copy()
    m[(lev >= lmax) & (m > 0)] = 0
    m[(lev <= lmin) & (m < 0)] = 0
    t = lev + m
    I, J = neighbours(G, periodic)
    par = np.stack([oct_[:, 0] // 2, oct_[:, 1] // 2, oct_[:, 2] // 2 if G.nd == 3 else oct_[:, 2], lev], axis=1)
    _, g = np.unique(par, axis=0, return_inverse=True)
    g = g.ravel()
    size = np.bincount(g)
    while True:
        old = t.copy()
        w = t == lev - 1
        full = (np.bincount(g, weights=w) == 2 ** G.nd) & (size == 2 ** G.nd)
        t = np.where(w & ~full[g], lev, t)
        need = t.copy()
        np.maximum.at(need, I, t[J] - 1)
        t = need
        if (t == old).all():
            break
    out = set()
    for i in range(len(t)):
        x, y, z, l = (int(v) for v in oct_[i])
        if t[i] == l:
            out.add((l, x, y, z))
        elif t[i] < l:
            out.add((l - 1, x // 2, y // 2, z // 2))
        else:
            for k in range(2 ** G.nd):
                out.add((l + 1, 2 * x + (k & 1), 2 * y + ((k >> 1) & 1), 2 * z + ((k >> 2) & 1)))
    return out
