"""C09: signed distance objects describe the shapes they are named after."""
import os
import tempfile

import numpy as np

ID = "C09"
RULE = ("every shape in 2D/3D with random dimensions, position and orientation, probed at random points, on the surface, at the centre and on axes and "
        "edges; compared with independent closed-form/polygon geometry; non-trivial: distinct (shape, dimension, precision, pose)")
ASSUMPTIONS = ["normals are only compared where the distance is differentiable"]
FLOOR = {"distance": 5000, "normal": 2000, "normals finite": 5000, "rigid motion invariance": 2000, "1-Lipschitz": 5000, "inside/outside sign": 2000,
         "composite is the union": 200, "composite friction of nearest": 100, "domain walls": 100, "voxel interpolation": 100, "particle cloud": 50,
         "compiled step geometry": 5000}
K2 = ["sphere", "plane", "box", "capsule", "ring", "walls", "star", "domain", "composite"]
K3 = ["sphere", "plane", "box", "capsule", "cylinder", "torus", "pipe", "domain", "composite", "voxel"]


def gen_cases(rng, tier):
    cases = []
    for rep in range(4 if tier == "quick" else 40):
        for dim, ks in ((2, K2), (3, K3)):
            for k in ks + ["cloud"]:
                cases.append(dict(kind=k, dim=dim, s=float(rng.choice([0.05, 1.0, 20.0])), posed=bool(rep % 4), x64=bool(rep % 3 != 1), seed=int(rng.integers(1 << 30))))
    return cases


def shape_of(rng, kind, dim, s):
    import sdfref
    if kind == "plane":
        return dict(kind="plane", normal=(rng.normal(size=dim) * rng.uniform(0.1, 10)).tolist())
    if kind == "box":
        return dict(kind="box", size=(rng.uniform(0.2, 1.5, dim) * s).tolist())
    if kind == "domain":
        lo = rng.uniform(-1, 0, dim) * s
        return dict(kind="domain", origin=lo.tolist(), end=(lo + rng.uniform(0.3, 2, dim) * s).tolist(), frictions=rng.uniform(0, 1, 2 * dim).tolist())
    if kind == "composite":
        sub = ["sphere", "box", "capsule"] + (["star"] if dim == 2 else ["torus", "cylinder"])
        ch = rng.choice(sub, int(rng.integers(2, 4)), replace=False)
        return dict(kind="composite", shapes=[shape_of(rng, str(c), dim, s) for c in ch], frictions=rng.uniform(0, 1, len(ch)).tolist())
    return sdfref.rand_shape(rng, kind, s)


def J(f):
    import jax
    return jax.jit(lambda *a: f(*a))


def run_case(ck, case):
    import jax
    import jax.numpy as jnp
    import sdfref
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, s, kind = case["dim"], case["s"], case["kind"]
    if kind == "voxel":
        return voxel(ck, case, rng)
    if kind == "cloud":
        return cloud(ck, case, rng)
    shape = shape_of(rng, kind, dim, s)
    obj = sdfref.make(shape)
    com = rng.uniform(-1, 1, dim) * s if case["posed"] else np.zeros(dim)
    if dim == 2:
        rot = float(rng.uniform(-4, 4)) if case["posed"] else 0.0
    else:
        rot = rng.normal(size=4) if case["posed"] else np.array([1.0, 0, 0, 0])
        rot = rot / np.linalg.norm(rot)
    st = obj.create_state(center_of_mass=jnp.asarray(com), rotation=rot if dim == 2 else jnp.asarray(rot))
    com = np.asarray(st.center_of_mass, float)
    R = sdfref.R_of(np.asarray(st.rotation, float), dim)
    n = 400
    x = com + rng.uniform(-1.5, 1.5, (n, dim)) * s
    # special points: centre, local axes, and the surface itself
    sp = [np.zeros(dim)] + [np.eye(dim)[k] * a * s for k in range(dim) for a in (0.3, -0.3, 1.1, -1.1)]
    x = np.concatenate([x, com + np.array(sp) @ R.T])
    d0 = sdfref.distance(shape, x, com, R)
    xs = x - d0[:, None] * sdfref.normal_fd(shape, x, com, R, 1e-6 * s)
    x = np.concatenate([x, xs[: n // 2]])
    xj = jnp.asarray(x)
    x = np.asarray(xj, float)
    eps = float(jnp.finfo(xj.dtype).eps)
    D = J(obj.get_signed_distance_stack)
    N = J(obj.get_normal_stack)
    d = np.asarray(D(st, xj), float)
    nr = np.asarray(N(st, xj), float)
    want = sdfref.distance(shape, x, com, R)
    size = 8 * s
    # the regularised norms of the library may err by 1e-6 absolute at the very centre (sqrt of a tiny epsilon)
    tol = 100 * eps * size + 2e-6 * (np.abs(want) < -1)
    ck.true("distance shape", d.shape == (len(x),) and nr.shape == x.shape, f"{d.shape} {nr.shape}")
    ck.close("distance", d, want, tol + (1.1e-6 if kind in ("sphere", "plane", "capsule", "domain") else 2.2e-6), kind)
    clear = np.abs(want) > tol + 2e-6
    ck.all("inside/outside sign", np.sign(d[clear]) == np.sign(want[clear]), kind)
    # 1-Lipschitz on the observed values
    j = rng.permutation(len(x))
    ck.all("1-Lipschitz", np.abs(d - d[j]) <= np.linalg.norm(x - x[j], axis=1) + 2 * tol + 2.2e-6, kind)
    ck.all("normals finite", np.isfinite(nr), kind)
    ln = np.linalg.norm(nr, axis=1)
    ck.all("normals finite", ln <= 1 + 1e-4, f"{kind} normal longer than one")
    g1 = sdfref.normal_fd(shape, x, com, R, 1e-5 * s)
    g2 = sdfref.normal_fd(shape, x, com, R, 4e-3 * s)
    core = np.abs(np.linalg.norm(g1, axis=1) - 1) < 1e-6
    smooth = core & (np.abs(g1 - g2).max(1) < 0.05) & (np.abs(want) > 1e-4 * s)
    ck.close("normal", nr[smooth], g1[smooth], 2e-4 if eps < 1e-10 else 5e-2, f"{kind} where differentiable")
    # moving the object and the points together changes nothing
    if kind != "domain":
        com2 = rng.uniform(-1, 1, dim) * s
        if dim == 2:
            rot2 = float(rng.uniform(-4, 4))
        else:
            rot2 = rng.normal(size=4)
            rot2 /= np.linalg.norm(rot2)
        R2 = sdfref.R_of(rot2, dim)
        st2 = obj.create_state(center_of_mass=jnp.asarray(com2), rotation=rot2 if dim == 2 else jnp.asarray(rot2))
        y = (x - com) @ R @ R2.T + com2
        ck.close("rigid motion invariance", np.asarray(D(st2, jnp.asarray(y)), float), d, 2 * tol + 100 * eps * size + 1e-6, kind)
    in_step(ck, case, rng, obj, st, shape)
    fr = np.asarray(J(obj.get_surface_friction_stack)(st, xj), float)
    wf = sdfref.friction(shape, x, com, R)
    if kind == "composite":
        dd = np.sort(np.stack([sdfref.distance(c, x, com, R) for c in shape["shapes"]], 1), 1)
        ok = dd[:, 1] - dd[:, 0] > 1e-4 * s
        ck.close("composite friction of nearest", fr[ok], wf[ok], 1e-6, "")
        ck.close("composite is the union", d, np.min([np.asarray(J(sdfref.make(c).get_signed_distance_stack)(st, xj), float) for c in shape["shapes"]], axis=0), 2 * tol, "")
    elif kind == "domain":
        lo, hi = np.array(shape["origin"]), np.array(shape["end"])
        dd = np.sort(np.concatenate([x - lo, hi - x], 1), 1)
        ok = dd[:, 1] - dd[:, 0] > 1e-4 * s
        ck.close("domain walls", fr[ok], wf[ok], 1e-6, "wall friction")
        ck.close("domain walls", nr[ok], sdfref.domain_normal(shape, x)[ok], 1e-6, "inward normal of the nearest wall")
        inside = ((x > lo + 1e-4 * s) & (x < hi - 1e-4 * s)).all(1)
        ck.all("domain walls", d[inside] > 0, "positive inside the container")
        out = ((x < lo - 1e-4 * s) | (x > hi + 1e-4 * s)).any(1)
        ck.all("domain walls", d[out] < 0, "negative outside the container")
    else:
        ck.close("unit default friction", fr, 1.0, 0.0, kind)
    return f"{kind} {dim}D posed={case['posed']} x64={case['x64']} s={s} {int(smooth.sum())}"


def in_step(ck, case, rng, obj, st, shape):
    """what a compiled step sees at the grid nodes - object moved, nodes placed and normals taken inside one compiled function -
    is the geometry itself, whatever the compiler fuses: same distances as the reference, normals of unit length where there is one"""
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import sdfref
    dim, s = case["dim"], case["s"]
    n = 14 if dim == 2 else 9
    com = np.asarray(st.center_of_mass, float)
    lo = com - 1.5 * s + rng.uniform(-0.1, 0.1, dim) * s
    g = hdx.GridDomain.create(tuple(lo.tolist()), tuple((lo + 3.0 * s).tolist()), 3.0 * s / n, padding=3)
    st = moving(st, velocity=jnp.asarray(rng.normal(size=dim) * s, dtype=st.center_of_mass.dtype),
                     angular=jnp.asarray(rng.normal() if dim == 2 else rng.normal(size=3), dtype=st.center_of_mass.dtype))
    dt = float(rng.choice([0.0, 1e-3, 3e-2]))

    def f(o, state):
        new = o.update_kinematics(state, dt)
        x = g.position_stack
        return new, x, o.get_signed_distance_stack(new, x), o.get_normal_stack(new, x)

    new, x, d, nr = [jax.tree_util.tree_map(lambda v: np.asarray(v, float), v) for v in jax.jit(f)(obj, st)]
    eps = float(jnp.finfo(jnp.asarray(st.center_of_mass).dtype).eps)
    R = sdfref.R_of(new.rotation, dim)
    cm = new.center_of_mass
    want = sdfref.distance(shape, x, cm, R)
    ck.close("compiled step geometry", d, want, 100 * eps * 8 * s + 2.2e-6, f"{case['kind']} distance at the nodes")
    h = max(1e-4, 300 * eps) * s
    g1 = sdfref.normal_fd(shape, x, cm, R, h)
    g2 = sdfref.normal_fd(shape, x, cm, R, 10 * h)
    smooth = (np.abs(np.linalg.norm(g1, axis=1) - 1) < 1e-4) & (np.abs(g1 - g2).max(1) < 0.02) & (np.abs(want) > 20 * h)
    ck.all("normals finite", np.isfinite(nr), f"{case['kind']} at the nodes")
    ck.close("compiled step geometry", nr[smooth], g1[smooth], 2e-2 if eps < 1e-10 else 5e-2, f"{case['kind']} normal at the nodes")


def moving(st, velocity, angular):
    import equinox as eqx
    return eqx.tree_at(lambda t: (t.velocity, t.angular_velocity), st, (velocity.reshape(np.shape(st.velocity)), angular.reshape(np.shape(st.angular_velocity))))


def voxel(ck, case, rng):
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import sdfref
    from scipy.interpolate import RegularGridInterpolator
    s = case["s"]
    lo = rng.uniform(-1.2, -0.8, 3) * s
    hi = rng.uniform(0.8, 1.2, 3) * s
    res = rng.integers(6, 14, 3)
    ax = [np.linspace(a, b, r) for a, b, r in zip(lo, hi, res)]
    P = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
    shape = dict(kind="sphere", radius=0.5 * s)
    data = sdfref.local_distance(shape, P.reshape(-1, 3)).reshape(res)
    th, sc = float(rng.uniform(0, 0.1) * s), float(rng.choice([1.0, 0.5, 3.0]))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "g.npz")
        np.savez(f, sdf=data, min=lo, max=hi)
        obj = hdx.GridSDF(f, thickness=th, scale=sc)
    com = rng.uniform(-1, 1, 3) * s
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    R = sdfref.quat_matrix(q)
    st = obj.create_state(center_of_mass=jnp.asarray(com), rotation=jnp.asarray(q))
    loc = rng.uniform(lo * 0.98, hi * 0.98, (300, 3)) * sc
    x = com + loc @ R.T
    xj = jnp.asarray(x)
    eps = float(jnp.finfo(xj.dtype).eps)
    got = np.asarray(J(obj.get_signed_distance_stack)(st, xj), float)
    want = RegularGridInterpolator(ax, data)(np.clip(loc / sc, lo, hi)) * sc - th
    tol = 400 * eps * s * sc * 10 + 1e-9 * s
    ck.close("voxel interpolation", got, want, tol, "trilinear lookup")
    bl, bh = (np.asarray(v, float) for v in obj.get_local_bounds())
    ck.close("voxel interpolation", np.stack([bl, bh]), np.stack([lo * sc - th, hi * sc + th]), 40 * eps * s * sc + 1e-9 * s, "bounds of the voxel box, grown by the thickness")
    true = sdfref.local_distance(shape, loc / sc) * sc - th
    cell = ((hi - lo) / (res - 1)).max() * sc
    ck.close("voxel interpolation", got, true, 1.5 * cell, "distance to the voxelised shape")
    # beyond the box the value may only change by the distance to it
    far = loc * rng.uniform(1.0, 3.0, (300, 1))
    gf = np.asarray(J(obj.get_signed_distance_stack)(st, jnp.asarray(com + far @ R.T)), float)
    cl = np.clip(far / sc, lo, hi) * sc
    ck.all("voxel interpolation", np.abs(gf - (sdfref.local_distance(shape, cl / sc) * sc - th)) <= 1.5 * cell, "clamped outside the box")
    nr = np.asarray(J(obj.get_normal_stack)(st, xj), float)
    ck.all("normals finite", np.isfinite(nr), "voxel")
    radial = (x - com) / np.linalg.norm(x - com, axis=1)[:, None]
    awayc = np.linalg.norm(loc, axis=1) > 3 * cell
    ck.all("normal", (nr[awayc] * radial[awayc]).sum(1) > 0.8, "voxel normal points away from the sphere")
    return f"voxel s={s} scale={sc} {res.tolist()}"


def cloud(ck, case, rng):
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    dim, s = case["dim"], case["s"]
    n = int(rng.integers(1, 12))
    c = rng.uniform(-1, 1, (n, dim)) * s
    rad = rng.uniform(0.05, 0.2, n) * s
    vol = np.pi * rad ** 2 if dim == 2 else 4 / 3 * np.pi * rad ** 3
    mp = hdx.MaterialPointState.create(position_stack=jnp.asarray(c), volume_stack=jnp.asarray(vol))
    k = float(rng.choice([0.0, 2.0, 50.0])) / s
    obj = hdx.MaterialPointCloudSDF(smooth_k=k)
    x = rng.uniform(-1.5, 1.5, (200, dim)) * s
    xj = jnp.asarray(x)
    eps = float(jnp.finfo(xj.dtype).eps)
    got = np.asarray(J(obj.get_signed_distance_stack)(xj, mp), float)
    ds = np.linalg.norm(x[:, None] - c[None], axis=-1) - rad[None]
    want = ds.min(1)
    tol = 400 * eps * s * 4 + 1e-5 * s + 2e-11 / (rad.min())
    if k > 1e-3:
        from scipy.special import logsumexp
        want = -logsumexp(-k * ds, axis=1) / k
        ck.all("particle cloud", (got <= ds.min(1) + tol) & (got >= ds.min(1) - np.log(n) / k - tol), "soft union bounds")
    ck.close("particle cloud", got, want, tol, f"k={k}")
    nr = np.asarray(J(obj.get_normal_stack)(xj, mp), float)
    ck.all("normals finite", np.isfinite(nr), "cloud")
    ck.close("particle cloud", np.linalg.norm(nr, axis=1), 1.0, 1e-3, "unit normals")
    at = np.asarray(J(obj.get_normal_stack)(jnp.asarray(c), mp), float)
    ck.all("normals finite", np.isfinite(at), "cloud, at its own particles")
    ck.all("normals finite", np.linalg.norm(at, axis=1) < 1 + 1e-3, "cloud, at its own particles: never longer than one")
    return f"cloud {dim}D n={n} k={k * s}"
