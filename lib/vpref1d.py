"""Independent one-dimensional MHD solver (HLL, limited slopes, two-stage time integration) for reference solutions of Riemann problems"""
import numpy as np

def _cons(W, g):
    r, p, u, v, w, bx, by, bz = W
    return np.array([r, r * u, r * v, r * w, p / (g - 1) + 0.5 * r * (u * u + v * v + w * w) + 0.5 * (bx * bx + by * by + bz * bz), by, bz])

def _prim(U, bx, g):
    r = U[0]
    u, v, w = U[1] / r, U[2] / r, U[3] / r
    p = (g - 1) * (U[4] - 0.5 * r * (u * u + v * v + w * w) - 0.5 * (bx * bx + U[5] ** 2 + U[6] ** 2))
    return np.array([r, np.maximum(p, 1e-8), u, v, w, np.full_like(r, bx), U[5], U[6]])

def _flux(W, U):
    r, p, u, v, w, bx, by, bz = W
    pt = p + 0.5 * (bx * bx + by * by + bz * bz)
    return np.array([r * u, r * u * u + pt - bx * bx, r * u * v - bx * by, r * u * w - bx * bz, (U[4] + pt) * u - bx * (u * bx + v * by + w * bz), by * u - bx * v, bz * u - bx * w])

def _fast(W, g):
    r, p, u, v, w, bx, by, bz = W
    a, b = g * p / r, (bx * bx + by * by + bz * bz) / r
    return np.sqrt(0.5 * (a + b + np.sqrt(np.maximum((a + b) ** 2 - 4 * a * bx * bx / r, 0))))

def solve(WL, WR, g, T, n):
    """WL, WR: rho, p, u, v, w, Bx, By, Bz with normal direction first; interface at 0.5 of the unit interval. Returns cell centres and primitive state at T"""
    x = (np.arange(n) + 0.5) / n
    WL, WR = np.array(WL, float), np.array(WR, float)
    bx = WL[5]
    W = np.where(x[None] < 0.5, WL[:, None], WR[:, None])
    U = _cons(W, g)
    dx, t = 1.0 / n, 0.0
    def rhs(U):
        W = _prim(U, bx, g)
        P = np.concatenate([W[:, :1]] * 2 + [W] + [W[:, -1:]] * 2, axis=1)
        d = np.diff(P, axis=1)
        a, b = d[:, :-1], d[:, 1:]
        s = np.where(a * b > 0, 2 * a * b / np.where(a + b == 0, 1, a + b), 0.0)   # van Leer
        c = P[:, 1:-1]
        L, R = (c + 0.5 * s)[:, :-1], (c - 0.5 * s)[:, 1:]
        UL, UR = _cons(L, g), _cons(R, g)
        cl, cr = _fast(L, g), _fast(R, g)
        sl = np.minimum(np.minimum(L[2] - cl, R[2] - cr), 0)
        sr = np.maximum(np.maximum(L[2] + cl, R[2] + cr), 0)
        F = (sr * _flux(L, UL) - sl * _flux(R, UR) + sl * sr * (UR - UL)) / (sr - sl)
        return -np.diff(F, axis=1) / dx
    while t < T:
        W = _prim(U, bx, g)
        dt = min(0.4 * dx / (np.abs(W[2]) + _fast(W, g)).max(), T - t)
        k1 = rhs(U)
        U1 = U + dt * k1
        U = 0.5 * (U + U1 + dt * rhs(U1))
        t += dt
    return x, _prim(U, bx, g)

if __name__ == "__main__":
    import sys, json
    x, W = solve(*json.load(sys.stdin))
    json.dump([x.tolist(), W.tolist()], sys.stdout)
