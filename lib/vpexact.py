"""Exact solutions of the gas and MHD equations, independent of the program's code"""
import numpy as np

# primitive states: rho, p, u, v, w, Bx, By, Bz, psi
def frame(n):
    """orthonormal frame with first axis n"""
    n = np.array(n, float) / np.linalg.norm(n)
    a = np.eye(3)[np.argmin(np.abs(n))] if n[2] == 0 or abs(n[2]) < 0.99 else np.eye(3)[0]
    if n[2] == 0:
        a = np.array([0, 0, 1.0])
        t1 = np.cross(a, n)          # in the plane
        return np.array([n, t1, a])
    t1 = np.cross(a, n); t1 /= np.linalg.norm(t1)
    return np.array([n, t1, np.cross(n, t1)])

def rot(q, M):
    """vectors of state q into the frame M"""
    q = np.array(q, complex if np.iscomplexobj(q) else float)
    q[2:5] = M @ q[2:5]
    q[5:8] = M @ q[5:8]
    return q

def modes(q0, n, g, mhd):
    """plane waves along n about the uniform state q0: list of (name, speed, amplitude vector), amplitude of order one in units of the state"""
    M = frame(n)
    r, p, u, v, w, bn, b1, b2, _ = rot(q0, M)
    A = np.zeros((7, 7))             # rho p u v w b1 b2
    A[range(7), range(7)] = u
    A[0, 2], A[1, 2], A[2, 1] = r, g * p, 1 / r
    if mhd:
        A[2, 5], A[2, 6] = b1 / r, b2 / r
        A[3, 5] = A[4, 6] = -bn / r
        A[5, 2], A[6, 2], A[5, 3], A[6, 4] = b1, b2, -bn, -bn
    l, R = np.linalg.eig(A)
    out = []
    c = np.sqrt(g * p / r)
    for i in np.argsort(l.real):
        x = R[:, i].real
        s = l[i].real
        q = np.zeros(9)
        q[:5] = x[:5]; q[6:8] = x[5:]
        q = rot(q, M.T)
        scale = max(abs(q[0]) / r, abs(q[1]) / (g * p), np.abs(q[2:5]).max() / c, np.abs(q[5:8]).max() / np.sqrt(r) / c)
        out.append((s - u, s, q / scale))
    return out

def riemann(WL, WR, g):
    """exact solution of the Riemann problem for states (rho, u, p): function of x/t returning rho, u, p"""
    (rl, ul, pl), (rr, ur, pr) = WL, WR
    cl, cr = np.sqrt(g * pl / rl), np.sqrt(g * pr / rr)
    def f(p, r, P, c):
        if p > P:
            return (p - P) * np.sqrt(2 / ((g + 1) * r) / (p + (g - 1) / (g + 1) * P))
        return 2 * c / (g - 1) * ((p / P) ** ((g - 1) / (2 * g)) - 1)
    F = lambda p: f(p, rl, pl, cl) + f(p, rr, pr, cr) + ur - ul
    if 2 * (cl + cr) / (g - 1) <= ur - ul:
        return None                  # vacuum
    a, b = 1e-14 * min(pl, pr), 10 * max(pl, pr)
    while F(b) < 0:
        b *= 10
    for _ in range(200):
        m = 0.5 * (a + b)
        if F(m) > 0: b = m
        else: a = m
    p = 0.5 * (a + b)
    u = 0.5 * (ul + ur) + 0.5 * (f(p, rr, pr, cr) - f(p, rl, pl, cl))
    def side(xi, r, uu, P, c, sg):
        """sg = -1: left of the contact; xi array"""
        z = np.ones_like(xi)
        h = (g - 1) / (g + 1)
        if p > P:
            S = uu + sg * c * np.sqrt((g + 1) / (2 * g) * p / P + (g - 1) / (2 * g))
            rs = r * (p / P + h) / (h * p / P + 1)
            out = sg * xi > sg * S
            return np.where(out, r, rs), np.where(out, uu, u), np.where(out, P, p)
        rs, cs = r * (p / P) ** (1 / g), c * (p / P) ** ((g - 1) / (2 * g))
        head, tail = uu + sg * c, u + sg * cs
        uf = 2 / (g + 1) * (-sg * c + (g - 1) / 2 * uu + xi)
        cf = np.maximum(2 / (g + 1) * (c - sg * (g - 1) / 2 * (uu - xi)), 1e-300)
        out, ins = sg * xi > sg * head, sg * xi < sg * tail
        return (np.where(out, r, np.where(ins, rs, r * (cf / c) ** (2 / (g - 1)))), np.where(out, uu, np.where(ins, u, uf)), np.where(out, P, np.where(ins, p, P * (cf / c) ** (2 * g / (g - 1)))))
    def sol(xi):
        xi = np.asarray(xi, float)
        L, R = side(xi, rl, ul, pl, cl, -1), side(xi, rr, ur, pr, cr, 1)
        return [np.where(xi < u, a, b) for a, b in zip(L, R)]
    return sol
