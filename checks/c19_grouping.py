"""C19: only the material matters: not the order points are listed in, nor the bodies they are grouped into, nor how finely a point's mass is divided."""
import numpy as np

ID = "C19"
RULE = ("random clouds of 20-60 points of one law run beside the same material listed in another order, divided into 2-3 bodies on the same grid, or with points replaced by "
        "several coincident lighter ones; with gravity, damping and an obstacle in part of the scenes; non-trivial: distinct (transformation, law, kernel, scheme, dimension, forces)")
ASSUMPTIONS = ["dividing points is compared with blending by neighbour mass switched off (its documented input is the mass of the point itself)"]
FLOOR = {"order of points": 5000, "grouping into bodies": 5000, "dividing points": 5000, "law state": 500}
LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]


def gen_cases(rng, tier):
    cases = []
    for i in range(24 if tier == "quick" else 260):
        cases.append(dict(what=["permute", "split", "divide"][i % 3], dim=2 if i % 4 else 3, scheme=["usl", "usl_aflip"][(i // 3) % 2], law=LAWS[int(rng.integers(5))],
                          kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))], gravity=bool(rng.integers(2)), damping=bool(rng.integers(2)), obstacle=bool(rng.integers(2)),
                          dyn=bool(rng.integers(2)), x64=bool(i % 6), parts=int(rng.integers(2, 4)), seed=int(rng.integers(1 << 30))))
    return cases


def take(tree, idx, n):
    """the law state of the points idx"""
    import jax
    import jax.numpy as jnp
    return jax.tree.map(lambda a: a[jnp.asarray(idx)] if getattr(a, "ndim", 0) and a.shape[0] == n else a, tree)


def scene(case, P, law, st, n, groups, sc, share=False):
    """groups: list of index arrays; one body each"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    dim, L = case["dim"], sc["L"]
    sb = hdx.SimBuilder()
    g = sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=sc["h"])
    c0 = None
    for k, idx in enumerate(groups):
        p = sb.add_material_points(**{q: jnp.asarray(P[q][idx]) for q in P})
        if share and k:
            c = c0
        else:
            c = c0 = sb.add_constitutive_law(law=law, law_state=None if st is None else take(st, idx, n))
        sb.couple(p_idx=p, g_idx=g, c_idx=c, shapefunction=case["kernel"])
    if case["gravity"]:
        sb.add_gravity(gravity=jnp.asarray(sc["g"]))
    if case["damping"]:
        sb.add_damping(alpha=sc["damp"])
    if case["obstacle"]:
        s = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=sc["r"]), center_of_mass=jnp.asarray(sc["c"]), velocity=jnp.asarray(sc["ov"]))
        sb.add_sdf_collider(sdf_idx=s, friction=sc["fr"])
    prm = dict(alpha=sc["alpha"])
    if case["scheme"] == "usl_aflip":
        prm.update(use_dynamic_alpha=case["dyn"] and case["what"] != "divide", beta_min=0.1, beta_max=0.5)
    sb.set_solver(scheme=case["scheme"], **prm)
    return sb.build(dt=4e-4)


NAMES = ("position_stack", "velocity_stack", "stress_stack", "F_stack", "L_stack", "volume_stack")


def gather(state, groups):
    """values by original point, whatever the grouping"""
    from vlib import f
    order = np.concatenate(groups)
    out = {}
    for q in NAMES:
        a = np.concatenate([f(getattr(mp, q)) for mp in state.world.material_points])
        z = np.empty_like(a)
        z[order] = a
        out[q] = z
    return out


def run_case(ck, case):
    import contextlib
    import io
    import jax
    import jax.numpy as jnp
    import scen
    from vlib import sub_rng, eps_of, f
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], 0.5
    L = 8 * h
    n = int(rng.integers(20, 60))
    law, st, stress, dens = scen.make_law(rng, case["law"], n, dim)
    lo = rng.uniform(0.15, 0.3, dim) * L
    x = rng.uniform(lo, lo + 0.4 * L, (n, dim))
    vol = np.full(n, (h / 2) ** dim) * rng.uniform(0.7, 1.4, n)
    P = dict(position_stack=x, velocity_stack=rng.normal(size=(n, dim)), volume_stack=vol, mass_stack=vol * dens, stress_stack=stress)
    sc = dict(L=L, h=h, g=rng.normal(size=dim) * 8, damp=float(rng.uniform(0, 0.5)), c=lo - 0.05 * L, r=0.12 * L, ov=rng.normal(size=dim), fr=float(rng.uniform(0, 1)),
              alpha=float(rng.uniform(0, 1)))
    base = [np.arange(n)]
    share = False
    if case["what"] == "permute":
        groups, name = [rng.permutation(n)], "order of points"
    elif case["what"] == "split":
        perm = rng.permutation(n)
        cuts = sorted(rng.choice(np.arange(1, n), case["parts"] - 1, replace=False).tolist())
        groups, name = [np.asarray(g) for g in np.split(perm, cuts)], "grouping into bodies"
        share = st is None and bool(rng.integers(2))
    with contextlib.redirect_stdout(io.StringIO()):
        s1, z1 = scene(case, P, law, st, n, base, sc)
        if case["what"] == "divide":
            name = "dividing points"
            rep = rng.integers(1, 4, n)
            src = np.repeat(np.arange(n), rep)
            w = rng.uniform(0.3, 1, len(src))
            w /= np.bincount(src, w)[src]
            P2 = {q: P[q][src] * (w if q in ("volume_stack", "mass_stack") else 1.0) for q in P}
            st2 = None if st is None else take(st, src, n)
            s2, z2 = scene(case, P2, law, st2, len(src), [np.arange(len(src))], sc)
        else:
            s2, z2 = scene(case, P, law, st, n, groups, sc, share)
    for k, (a, b) in enumerate(zip(scen.run(s1, z1, 3), scen.run(s2, z2, 3))):
        if not k:
            continue
        A = gather(a, base)
        if case["what"] == "divide":
            B = gather(b, [np.arange(len(src))])
            A = {q: A[q][src] * (w if q == "volume_stack" else 1.0) for q in A}
        else:
            B = gather(b, groups)
        e = eps_of(a.world.material_points[0].velocity_stack)
        for q in NAMES:
            s = max(np.abs(A[q]).max(), np.abs(B[q]).max()) + (1.0 if q in ("velocity_stack", "L_stack") else 0)
            ck.close(name, B[q], A[q], (1e5 if k > 1 else 3e4) * (1 if e < 1e-10 else 0.05) * e * s, f"step {k} {q} {case['law']}")
        if st is not None:
            la = a.mechanics.constitutive_laws[0]
            idx = np.concatenate(groups) if case["what"] != "divide" else src
            lb = [s for s in b.mechanics.constitutive_laws if s is not None]
            for path, leaf in jax.tree_util.tree_leaves_with_path(la):
                if getattr(leaf, "ndim", 0) and leaf.shape[0] == n:
                    parts = [dict((jax.tree_util.keystr(p), l) for p, l in jax.tree_util.tree_leaves_with_path(s))[jax.tree_util.keystr(path)] for s in lb]
                    got, want = np.concatenate([f(p) for p in parts]), f(leaf)[idx]
                    ck.close("law state", got, want, (1e6 if e < 1e-10 else 3e3) * e * (np.abs(want).max() + 1e-3), f"step {k} {jax.tree_util.keystr(path)}")
    return f"{case['what']} {case['law']} {case['kernel']} {case['scheme']} {dim}D g={case['gravity']} d={case['damping']} o={case['obstacle']} dyn={case['dyn']} share={share}"
