"""Independent numpy model of one step: dense tensor-product B-spline weights over *all* nodes, no stencils, no hashes.

It is the oracle for the transfer equations; it never evaluates a constitutive law (the monitors resynchronise from the
observed state before every step)."""
import numpy as np


def kernel(kind, r):
    """value and derivative d/dr of the 1D kernel at normalised signed distance r = (x - X)/h"""
    a, s = np.abs(r), np.sign(r)
    if kind == "linear":
        return np.where(a < 1, 1 - a, 0.0), np.where(a < 1, -s, 0.0)
    if kind == "quadratic":
        v = np.where(a < 0.5, 0.75 - a * a, np.where(a < 1.5, 0.5 * (1.5 - a) ** 2, 0.0))
        d = np.where(a < 0.5, -2 * a, np.where(a < 1.5, -(1.5 - a), 0.0)) * s
        return v, d
    if kind == "cubic":
        v = np.where(a < 1, 0.5 * a ** 3 - a * a + 2 / 3, np.where(a < 2, (2 - a) ** 3 / 6, 0.0))
        d = np.where(a < 1, 1.5 * a * a - 2 * a, np.where(a < 2, -0.5 * (2 - a) ** 2, 0.0)) * s
        return v, d
    raise KeyError(kind)


HALF = dict(linear=1.0, quadratic=1.5, cubic=2.0)


class Grid:
    """Regular grid: nodes origin + h*(i,j,k), last axis fastest."""

    def __init__(self, origin, h, size):
        self.origin, self.h, self.size = np.array(origin, float), float(h), tuple(int(s) for s in size)
        self.dim = len(self.size)
        self.idx = np.stack(np.meshgrid(*[np.arange(s) for s in self.size], indexing="ij"), -1).reshape(-1, self.dim)
        self.X = self.origin + self.h * self.idx

    @classmethod
    def of(cls, domain):
        return cls(domain.origin, domain.cell_size, domain.grid_size)

    def weights(self, x, kind):
        """W (np, nn) and G (np, nn, dim)"""
        r = (x[:, None, :] - self.X[None]) / self.h
        v, d = kernel(kind, r)
        W = v.prod(-1)
        G = np.empty(v.shape)
        for k in range(self.dim):
            o = [j for j in range(self.dim) if j != k]
            G[..., k] = d[..., k] / self.h * v[..., o].prod(-1)
        return W, G


def p2g(grid, bodies, forces=None):
    """bodies: dicts x v m V stress kernel [Bp] [fext];  returns mass, momentum, force on nodes"""
    nn, dim = len(grid.X), grid.dim
    M, P, Fo = np.zeros(nn), np.zeros((nn, dim)), np.zeros((nn, dim))
    for b in bodies:
        W, G = grid.weights(b["x"], b["kernel"])
        b["W"], b["G"] = W, G
        M += b["m"] @ W
        wm = W * b["m"][:, None]
        P += wm.T @ b["v"]
        if b.get("Bp") is not None:
            C = -b["Bp"][:, :dim, :dim]
            # momentum of the affine field: sum_p w m C (X - x)
            d = grid.X[None] - b["x"][:, None]
            P += np.einsum("pn,pij,pnj->ni", wm, C, d)
        s = b["stress"][:, :dim, :dim]
        Fo += np.einsum("p,pij,pnj->ni", b["V"], s, G)
        if b.get("fext") is not None:
            Fo += W.T @ b["fext"]
    return M, P, Fo


def g2p(grid, b, M, P, Pn, dt, prm):
    """prm: scheme, alpha, cutoff, and for usl_aflip dyn, smin, smax, bmin, bmax, cfl, mls.  New v, x, F, L, V, Bp."""
    dim = grid.dim
    ok = M > prm["cutoff"]
    Ms = np.where(ok, M, 1.0)[:, None]
    v0 = np.where(ok[:, None], P / Ms, 0)
    v1 = np.where(ok[:, None], Pn / Ms, 0)
    W, G = b["W"], b["G"]
    p0, p1 = W @ v0, W @ v1
    grad = np.zeros((len(b["x"]), 3, 3))
    grad[:, :dim, :dim] = np.einsum("ni,pnj->pij", v1, G)
    out = {}
    if prm["scheme"] == "usl":
        out["v"] = (1 - prm["alpha"]) * p1 + prm["alpha"] * (b["v"] + p1 - p0)
        out["x"] = b["x"] + dt * p1
        out["L"] = -grad
    else:
        if not prm["mls"]:
            D = grid.h ** 2 * (1 / 3 if b["kernel"] == "cubic" else 1 / 4)
            d = grid.X[None] - b["x"][:, None]
            grad[:, :dim, :dim] = np.einsum("pn,ni,pnj->pij", W, v1, d) / D
        a = np.full(len(b["x"]), prm["alpha"], dtype=float)
        if prm["dyn"]:
            ratio = (W @ M) / (b["m"] + 1e-9)
            out["ratio"] = ratio
            a = a * np.clip((ratio - prm["smin"]) / (prm["smax"] - prm["smin"]), 0, 1)
        dv = b["v"] - p0
        v = p1 + a[:, None] * dv
        sp = np.linalg.norm(v, axis=1)
        vmax = prm["cfl"] * grid.h / dt
        out["speed"], out["vmax"] = sp, vmax
        out["v"] = v * np.minimum(1.0, vmax / (sp + 1e-12))[:, None]
        out["L"] = -grad
        out["Bp"] = -grad
    F = (np.eye(3) - dt * out["L"]) @ b["F"]
    if dim == 2:
        F[:, 2, 2] = 1.0
    out["F"] = F
    out["J"] = np.linalg.det(F)
    out["V"] = out["J"] * b["V0"]
    if prm["scheme"] != "usl":
        beta = np.where(out["J"] < 1, prm["bmin"], prm["bmax"])
        out["x"] = b["x"] + dt * (p1 + prm["alpha"] * beta[:, None] * dv)
    if b.get("F_store") is not None:
        out["F_store"] = (np.eye(3) - dt * out["L"]) @ b["F_store"]
    return out
