"""C23: generated particles fill the requested shape: all inside, none missing, with the requested density, and reproducibly."""
import numpy as np

ID = "C23"
RULE = ("random shapes, poses, bounds, cell sizes and particles per cell in every documented mode, compared with an independent enumeration of the sampling points and an independent "
        "description of the shape; non-trivial: distinct (mode, shape, dimension, particles per cell, pose, precision)")
ASSUMPTIONS = ["sampling points within rounding of the surface may fall either way", "uniformity of random sampling judged at 6 standard deviations"]
FLOOR = {"inside the shape": 3000, "none missing": 1500, "inside the bounds": 500, "volume carried": 10, "reproducible": 20, "shifted with the lattice": 10, "uniform": 8}
SHAPES = {2: ["sphere", "capsule", "ring", "walls", "star", "box"], 3: ["sphere", "capsule", "cylinder", "torus", "pipe", "box"]}


def gen_cases(rng, tier):
    cases = []
    for i in range(48 if tier == "quick" else 900):
        dim = 2 + i % 2
        cases.append(dict(dim=dim, shape=SHAPES[dim][(i // 2) % 6], mode=["regular", "gauss_legendre", "random", "rejection"][int(rng.choice(4, p=[.4, .25, .2, .15])) if i % 7 != 3 else (i // 14) % 2],
                          ppc=int(rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 27])) if i % 7 != 3 else int(rng.choice([25, 30, 36, 49, 64] if dim == 2 else [27, 40, 64])), posed=bool(rng.integers(2)), state=bool(rng.integers(2)), tight=bool(rng.integers(2)), x64=bool(i % 5), seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from hydraxmpm.utils.generate_body import generate_particles_in_sdf
    import sdfref
    from vlib import sub_rng, f, eps_of
    rng = sub_rng(case["seed"])
    dim, mode = case["dim"], case["mode"]
    e = eps_of(jnp.zeros(1))
    s = float(10 ** rng.uniform(-1.5, 1.5))
    shape = dict(kind="box", size=(rng.uniform(.5, 1.5, dim) * s).tolist()) if case["shape"] == "box" else sdfref.rand_shape(rng, case["shape"], s)
    com = rng.normal(size=dim) * 3 * s
    kw = {}
    R = np.eye(dim)
    if case["posed"]:
        if dim == 2:
            rot = float(rng.uniform(-3, 3))
            R = sdfref.rot2(rot)
            kw["rotation"] = rot
        else:
            q = rng.normal(size=4)
            q /= np.linalg.norm(q)
            R = sdfref.quat_matrix(q)
            kw["rotation"] = jnp.asarray(q)
    obj = sdfref.make(shape)
    ext = 2.2 * s if not case["tight"] else 0.45 * s       # bounds around or across the shape
    lo, hi = com - ext * rng.uniform(.95, 1.05, dim), com + ext * rng.uniform(.95, 1.05, dim)
    centred = not case["posed"] and not case["state"]
    if centred and rng.random() < .5:      # the documented default: middle of the bounds
        com = (lo + hi) / 2
    elif case["state"]:
        kw = dict(sdf_state=obj.create_state(jnp.asarray(com), **kw))
    else:
        kw["center_of_mass"] = jnp.asarray(com)
    cell = s * float(rng.uniform(.15, .3)) * (1.6 if dim == 3 else 1)
    ppc = case["ppc"]
    big = np.abs(np.concatenate([lo, hi])).max() + s
    tol = 300 * e * big
    note = f"{mode} {shape['kind']} {dim}D ppc={ppc}"

    def gen(lo=lo, hi=hi, key=0, num=4000, **over):
        a = dict(kw)
        a.update(over)
        if mode in ("regular", "gauss_legendre"):
            a.update(cell_size=cell, ppc=ppc)
        else:
            a.update(num_particles=num, key=jax.random.PRNGKey(key))
        return f(generate_particles_in_sdf(sdf_obj=obj, bounds_min=jnp.asarray(lo), bounds_max=jnp.asarray(hi), mode=mode, **a))

    P = gen()
    ck.true("shape of the result", P.ndim == 2 and P.shape[1] == dim, f"{note}: {P.shape}")
    d = sdfref.distance(shape, P, com, R) if len(P) else np.zeros(0)
    for v in d:
        ck.true("inside the shape", v < tol, f"{note}: distance {v}")
    ck.close("reproducible", gen(), P, 0.0, note)
    if mode in ("regular", "gauss_legendre"):
        m = 1
        while m**dim < ppc:
            m += 1
        off = (np.arange(m) + .5) / m if mode == "regular" else {1: [.5], 2: [.5 - .5 / 3**.5, .5 + .5 / 3**.5], 3: [.5 - .5 * .6**.5, .5, .5 + .5 * .6**.5]}.get(m)
        if off is None:
            off = np.polynomial.legendre.leggauss(m)[0] / 2 + .5
        off = np.asarray(off)
        ax = []
        for k in range(dim):
            i0, i1 = int(np.floor(lo[k] / cell + 1e-4)) - 1, int(np.ceil(hi[k] / cell - 1e-4)) + 1
            c = np.arange(i0, i1)
            ax.append((c[:, None] + off[None]).ravel() * cell)
        G = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, dim)
        dg = sdfref.distance(shape, G, com, R)
        # every sampling point of the cells within the bounds that is inside the shape is delivered, once
        full = np.all((G >= lo + 1e-6 * s) & (G <= hi - 1e-6 * s), axis=1)
        need = G[full & (dg < -tol)]
        may = G[np.all((G >= lo - cell * 1.0001) & (G <= hi + cell * 1.0001), axis=1) & (dg < tol)]
        from scipy.spatial import cKDTree
        if len(need):
            dist, idx = cKDTree(P).query(need) if len(P) else (np.full(len(need), np.inf), np.zeros(len(need), int))
            for v in dist:
                ck.true("none missing", v < tol, f"{note}: a sampling point inside the shape and the bounds is missing")
            ck.true("none twice", len(np.unique(idx)) == len(need), note)
        if len(P):
            dist, idx = cKDTree(may).query(P) if len(may) else (np.full(len(P), np.inf), None)
            for v in dist:
                ck.true("on the sampling lattice", v < tol, f"{note}: {v}")
            ck.true("none twice", len(np.unique(idx)) == len(P), note)
        # moved with its lattice the shape is filled alike
        if len(P):
            sh = rng.integers(-3, 4, dim) * cell
            o = dict(center_of_mass=jnp.asarray(com + sh))
            if case["posed"] and "sdf_state" not in kw:
                o["rotation"] = kw["rotation"]
            if "sdf_state" in kw:
                import equinox as eqx
                o = dict(sdf_state=eqx.tree_at(lambda q: q.center_of_mass, kw["sdf_state"], jnp.asarray(com + sh)))
            P2 = gen(lo=lo + sh, hi=hi + sh, **o)
            amb = (np.abs(dg) < 2 * tol).sum() + 0
            edge = np.any((np.abs(G - lo) < tol) | (np.abs(G - hi) < tol), axis=1).sum()
            if amb == 0 and edge == 0 and np.all(np.abs(lo / cell - np.round(lo / cell)) > 1e-3) and np.all(np.abs(hi / cell - np.round(hi / cell)) > 1e-3):
                ck.true("shifted with the lattice", len(P2) == len(P), f"{note}: {len(P)} -> {len(P2)}")
                if len(P2) == len(P):
                    ck.close("shifted with the lattice", P2 - sh, P, 4 * tol, note)
        # volume: each point stands for cell^dim / m^dim
        if not case["tight"]:
            S = rng.uniform(lo, hi, (200000, dim))
            ds = sdfref.distance(shape, S, com, R)
            V = np.prod(hi - lo) * (ds < 0).mean()
            rim = np.prod(hi - lo) * (np.abs(ds) < cell / m).mean()
            ck.close("volume carried", len(P) * (cell / m) ** dim, V, 0.6 * rim + 0.02 * V, note)
            if len(P) > 200:
                ck.saw("hundreds of points", 1)
        if len(P):
            near = cKDTree(P).query(P, k=2)[0][:, 1] if len(P) > 1 else np.array([cell])
            ck.true("spacing", near.min() > 0.99 * cell * min(np.diff(np.append(off, off[0] + 1)).min(), 1), f"{note}: {near.min() / cell}")
    else:
        ck.true("inside the bounds", len(P) == 0 or (np.all(P >= lo - tol) and np.all(P <= hi + tol)), note)
        for row in P[:300]:
            ck.true("inside the bounds", np.all(row >= lo - tol) and np.all(row <= hi + tol), note)
        S = rng.uniform(lo, hi, (200000, dim))
        ds = sdfref.distance(shape, S, com, R) < 0
        pr = ds.mean()
        ck.close("volume carried", len(P), 4000 * pr, 6 * (4000 * pr * (1 - pr) + 4000**2 * pr * (1 - pr) / 200000) ** .5 + 3, note)
        P2 = gen(key=1)
        ck.true("other key, other points", len(P) == 0 or P2.shape != P.shape or np.abs(P2 - P).max() > 0, note)
        if len(P) > 100:
            Q = S[ds]
            for k in range(dim):
                sd = Q[:, k].std() / len(P) ** .5
                ck.close("uniform", P[:, k].mean(), Q[:, k].mean(), 6 * sd * (1 + len(P) / len(Q)) ** .5, f"{note}: mean along axis {k}")
                qs = np.quantile(Q[:, k], [.25, .5, .75])
                fr = (P[:, k][:, None] < qs).mean(0)
                ck.close("uniform", fr, [.25, .5, .75], 6 * .5 * (1 / len(P) + 1 / len(Q)) ** .5, f"{note}: quartiles along axis {k}")
        # fewer candidates than asked for is an error of the caller and said so
        for bad in (dict(num_particles=None), dict(key=None)):
            a = dict(sdf_obj=obj, bounds_min=jnp.asarray(lo), bounds_max=jnp.asarray(hi), mode=mode, num_particles=10, key=jax.random.PRNGKey(0), **kw)
            a.update(bad)
            try:
                generate_particles_in_sdf(**a)
                ck.true("missing arguments are rejected", False, f"{note}: {bad}")
            except ValueError:
                ck.true("missing arguments are rejected", True, "")
    return f"{mode} {shape['kind']} {dim}D ppc={ppc if mode in ('regular', 'gauss_legendre') else '-'} pose={case['posed']} {'f64' if case['x64'] else 'f32'}"
