"""Independent numpy descriptions of the shapes (distance, outward normal) and of rigid motion, used as oracles."""
import numpy as np


def rot2(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s], [s, c]])


def quat_matrix(q):
    w, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rotvec_matrix(r):
    """exp of the rotation vector r"""
    t = np.linalg.norm(r)
    K = np.array([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]])
    if t < 1e-12:
        return np.eye(3) + K
    return np.eye(3) + np.sin(t) / t * K + (1 - np.cos(t)) / t ** 2 * K @ K


def R_of(rotation, dim):
    return rot2(float(rotation)) if dim == 2 else quat_matrix(rotation)


def _box(p, half):
    d = np.abs(p) - half
    return np.linalg.norm(np.maximum(d, 0), axis=-1) + np.minimum(d.max(-1), 0)


def _rad(p):
    return np.linalg.norm(p[:, [0, 2]], axis=1)


def star_polygon(n, R, r):
    """CCW/CW irrelevant: tip on +y, alternating radii"""
    k = np.arange(2 * int(n))
    a = k * np.pi / n
    rad = np.where(k % 2 == 0, R, r)
    return np.stack([rad * np.sin(a), rad * np.cos(a)], 1)


def polygon(p, V):
    W = np.roll(V, -1, 0)
    e = W - V
    w = p[:, None] - V[None]
    t = np.clip((w * e).sum(-1) / (e * e).sum(-1), 0, 1)
    d = np.linalg.norm(w - t[..., None] * e, axis=-1).min(1)
    y, yi, yj = p[:, None, 1], V[None, :, 1], W[None, :, 1]
    x = p[:, None, 0]
    with np.errstate(divide="ignore", invalid="ignore"):
        xc = V[None, :, 0] + (y - yi) * e[None, :, 0] / (yj - yi)
    cross = ((yi > y) != (yj > y)) & (x < xc)
    return np.where(cross.sum(1) % 2 == 1, -d, d)


def local_distance(shape, p):
    """shape: dict(kind=..., parameters); p (n, dim) local points"""
    k = shape["kind"]
    if k == "sphere":
        return np.linalg.norm(p, axis=1) - shape["radius"]
    if k == "plane":
        n = np.asarray(shape["normal"], float)
        return p @ (n / np.linalg.norm(n))
    if k == "box":
        return _box(p, np.asarray(shape["size"], float) / 2)
    if k == "capsule":
        c = np.zeros_like(p)
        c[:, 1] = np.clip(p[:, 1], -shape["height"] / 2, shape["height"] / 2)
        return np.linalg.norm(p - c, axis=1) - shape["radius"]
    if k == "cylinder":
        q = np.stack([_rad(p), p[:, 1]], 1)
        return _box(q, np.array([shape["radius"], shape["height"] / 2]))
    if k == "torus":
        return np.hypot(_rad(p) - shape["major_r"], p[:, 1]) - shape["minor_r"]
    if k == "pipe":          # tube of finite height, axis y
        mid, w = (shape["outer_radius"] + shape["inner_radius"]) / 2, (shape["outer_radius"] - shape["inner_radius"]) / 2
        q = np.stack([_rad(p) - mid, p[:, 1]], 1)
        return _box(q, np.array([w, shape["height"] / 2]))
    if k == "ring":
        mid, w = (shape["outer_radius"] + shape["inner_radius"]) / 2, (shape["outer_radius"] - shape["inner_radius"]) / 2
        return np.abs(np.linalg.norm(p, axis=1) - mid) - w
    if k == "walls":
        mid, w = (shape["outer_radius"] + shape["inner_radius"]) / 2, (shape["outer_radius"] - shape["inner_radius"]) / 2
        q = np.stack([np.abs(p[:, 0]) - mid, p[:, 1]], 1)
        return _box(q, np.array([w, shape["height"] / 2]))
    if k == "star":
        return polygon(p, star_polygon(shape["points"], shape["outer_radius"], shape["inner_radius"]))
    if k == "domain":        # world space, positive inside
        lo, hi = np.asarray(shape["origin"], float), np.asarray(shape["end"], float)
        return np.minimum((p - lo).min(1), (hi - p).min(1))
    if k == "composite":
        return np.min([local_distance(s, p) for s in shape["shapes"]], axis=0)
    raise KeyError(k)


def distance(shape, x, com, R):
    if shape["kind"] == "domain":
        return local_distance(shape, x)
    return local_distance(shape, (x - com) @ R)      # R^T (x - com)


def normal_fd(shape, x, com, R, d):
    g = np.empty_like(x)
    for k in range(x.shape[1]):
        e = np.zeros(x.shape[1])
        e[k] = d
        g[:, k] = (distance(shape, x + e, com, R) - distance(shape, x - e, com, R)) / (2 * d)
    return g


def make(shape):
    """the real object for a shape description"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from hydraxmpm.sdf.sdfcollection import CompositeSDF
    k = shape["kind"]
    a = {x: v for x, v in shape.items() if x not in ("kind", "shapes", "frictions")}
    if k == "sphere":
        return hdx.SphereSDF(**a)
    if k == "plane":
        return hdx.PlaneSDF(normal=jnp.asarray(a["normal"]))
    if k == "box":
        return hdx.BoxSDF(size=jnp.asarray(a["size"]))
    if k == "capsule":
        return hdx.CapsuleSDF(**a)
    if k == "cylinder":
        return hdx.CylinderSDF(**a)
    if k == "torus":
        return hdx.TorusSDF(**a)
    if k == "pipe":
        return hdx.HollowCylinderSDF(**a)
    if k == "ring":
        return hdx.HollowCylinderSDF(is_2d_ring=True, **a)
    if k == "walls":
        return hdx.HollowCylinderSDF(is_2d_ring=False, **a)
    if k == "star":
        return hdx.StarSDF(**a)
    if k == "domain":
        return hdx.DomainSDF(origin=tuple(a["origin"]), end=tuple(a["end"]), frictions=shape.get("frictions", 0.5))
    if k == "composite":
        return CompositeSDF([make(s) for s in shape["shapes"]], jnp.asarray(shape["frictions"]))
    raise KeyError(k)


def friction(shape, x, com, R):
    """surface friction at world points"""
    if shape["kind"] == "domain":
        lo, hi = np.asarray(shape["origin"], float), np.asarray(shape["end"], float)
        fr = np.asarray(shape.get("frictions", 0.5), float)
        d = np.concatenate([x - lo, hi - x], 1)
        return np.broadcast_to(fr, (d.shape[1],))[d.argmin(1)]
    if shape["kind"] == "composite":
        p = (x - com) @ R
        return np.asarray(shape["frictions"], float)[np.argmin([local_distance(s, p) for s in shape["shapes"]], axis=0)]
    return np.ones(len(x))


def domain_normal(shape, x):
    lo, hi = np.asarray(shape["origin"], float), np.asarray(shape["end"], float)
    d = np.concatenate([x - lo, hi - x], 1)
    dim = x.shape[1]
    k = d.argmin(1)
    n = np.zeros_like(x)
    n[np.arange(len(x)), k % dim] = np.where(k < dim, 1.0, -1.0)
    return n


def velocity(x, com, vel, omega):
    if x.shape[1] == 2:
        r = x - com
        return vel + float(omega) * np.stack([-r[:, 1], r[:, 0]], 1)
    return vel + np.cross(np.asarray(omega, float), x - com)


def rand_shape(rng, kind, s):
    u = lambda a, b: float(rng.uniform(a, b) * s)
    if kind == "sphere":
        return dict(kind=kind, radius=u(0.3, 1))
    if kind == "plane":
        raise KeyError
    if kind == "capsule":
        return dict(kind=kind, radius=u(0.2, 0.6), height=u(0.3, 1.5))
    if kind == "cylinder":
        return dict(kind=kind, radius=u(0.2, 0.8), height=u(0.3, 1.5))
    if kind == "torus":
        return dict(kind=kind, major_r=u(0.6, 1.0), minor_r=u(0.1, 0.4))
    if kind in ("pipe", "ring", "walls"):
        i = u(0.2, 0.6)
        return dict(kind=kind, height=u(0.4, 1.5), inner_radius=i, outer_radius=i + u(0.1, 0.5))
    if kind == "star":
        R = u(0.6, 1.0)
        n = int(rng.integers(3, 9))
        return dict(kind=kind, points=n, outer_radius=R, inner_radius=R * float(rng.uniform(0.3, 0.9)))
    raise KeyError(kind)
