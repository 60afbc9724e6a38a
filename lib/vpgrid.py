"""Geometry of a recorded state, computed from the leaves' logical positions only (independent of the code's own geometry)"""
import numpy as np

class Grid:
    """Cells of a recorded state: positions, sizes, lookup of the cell containing a point. Domain lo..lo+L."""
    def __init__(self, s, lo=(0, 0, 0), L=(1, 1, 1)):
        self.s, self.nd = s, s.ndim
        self.lo, self.L = np.array(lo, float), np.array(L, float)
        self.bs = np.array(s.bs)
        self.lmin, self.lmax = s.meta["level_min"], int(s.level.max())
        self.cg = np.array(s.cg)
        if self.nd == 2:
            self.cg[2] = 1
        # leaf number on a regular grid of the finest leaf size
        r = 2 ** (self.lmax - self.lmin)
        self.n = np.array([self.cg[a] * r if a < self.nd else 1 for a in range(3)])
        self.owner = np.full(self.n, -1, np.int64)
        for i, (x, y, z, l) in enumerate(s.oct):
            k = 1 << (self.lmax - l)
            if self.nd == 3:
                self.owner[x * k:(x + 1) * k, y * k:(y + 1) * k, z * k:(z + 1) * k] = i
            else:
                self.owner[x * k:(x + 1) * k, y * k:(y + 1) * k, 0] = i
        lv = s.level - self.lmin
        self.osize = np.stack([1.0 / (self.cg[a] * 2.0 ** lv) if a < self.nd else np.ones(len(lv)) for a in range(3)], axis=1)  # leaf size, unit domain
        self.csize = self.osize / self.bs        # cell size per leaf, unit domain
        nc = int(np.prod(self.bs))
        k, j, i = np.meshgrid(*[np.arange(self.bs[a]) for a in (2, 1, 0)], indexing="ij")
        self.ijk = np.stack([i.ravel(), j.ravel(), k.ravel()], axis=1)   # cell number -> indices
        self.nc = nc
    def centers(self):
        """unit coordinates of the cell centres [leaf, cell, 3]"""
        c = self.s.oct[:, None, :3] * self.osize[:, None, :]
        c = c + (self.ijk[None] + 0.5) * self.csize[:, None, :]
        if self.nd == 2:
            c[:, :, 2] = 0.0
        return c
    def sizes(self):
        """physical cell sizes per leaf"""
        return self.csize * self.L
    def vol(self):
        v = self.sizes()
        return v[:, :self.nd].prod(axis=1)
    def unit(self, x):
        u = (np.asarray(x, float) - self.lo) / self.L
        return u
    def find(self, u):
        """leaf and cell number containing unit positions u[n,3] (wrapped periodically)"""
        u = np.array(u, float)
        u[:, :self.nd] -= np.floor(u[:, :self.nd])
        u[:, :self.nd][u[:, :self.nd] >= 1.0] = 0.0
        q = [np.minimum((u[:, a] * self.n[a]).astype(int), self.n[a] - 1) if a < self.nd else np.zeros(len(u), int) for a in range(3)]
        leaf = self.owner[q[0], q[1], q[2]]
        rel = u - self.s.oct[leaf][:, :3] * self.osize[leaf]
        c = np.zeros((len(u), 3), int)
        for a in range(self.nd):
            c[:, a] = np.clip(np.floor(rel[:, a] / self.csize[leaf, a]), 0, self.bs[a] - 1).astype(int)
        return leaf, c[:, 0] + self.bs[0] * (c[:, 1] + self.bs[1] * c[:, 2])
    def edge_distance(self, u):
        """distance of each point to the nearest cell face, in units of the cell size (to set aside points whose cell depends on rounding)"""
        leaf, cell = self.find(u)
        u = np.array(u, float)
        u[:, :self.nd] -= np.floor(u[:, :self.nd])
        d = np.full(len(u), 1.0)
        for a in range(self.nd):
            r = u[:, a] / self.csize[leaf, a]
            d = np.minimum(d, np.abs(r - np.round(r)))
        return d
