"""C20: derivatives through laws, obstacles and whole steps are finite and are the derivatives of what is computed."""
import numpy as np

ID = "C20"
RULE = ("random losses on the outcome of law updates, obstacle queries and 2-step scenes, differentiated with respect to every float array of state, law and forces; at generic states "
        "compared with central differences leaf by leaf (kinks detected by one-sided differences and left out), at special states (rest, isotropic stress, empty or touching "
        "obstacle nodes, free surface, disconnected points, points on nodes) required to be finite; non-trivial: distinct (law or shape, scheme, kernel, dimension, state)")
ASSUMPTIONS = ["double precision", "one-sided differences that disagree by more than 2 % mark a kink, where no derivative exists"]
FLOOR = {"finite derivative": 200, "derivative is the difference quotient": 60, "forward and reverse mode agree": 8}
LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]
STATES = ["generic", "rest", "isotropic", "loose", "spin", "plastic"]
SHAPES = {2: ["sphere", "box", "plane", "capsule", "ring", "star", "domain"], 3: ["sphere", "box", "plane", "capsule", "cylinder", "torus", "ring", "domain"]}


def gen_cases(rng, tier):
    cases = []
    k = 1 if tier == "quick" else 12
    for rep in range(k):
        for law in LAWS:
            for st in STATES:
                cases.append(dict(what="law", law=law, state=st, dim=2 + int(rng.integers(2)), seed=int(rng.integers(1 << 30))))
        for dim in (2, 3):
            for s in SHAPES[dim]:
                cases.append(dict(what="shape", shape=s, dim=dim, seed=int(rng.integers(1 << 30))))
        for i in range(10):
            cases.append(dict(what="step", law=LAWS[(i + rep) % 5], scheme=["usl", "usl_aflip"][i % 2], dim=3 if i % 5 == 4 else 2, kernel=["quadratic", "cubic", "linear"][int(rng.integers(3))],
                              state=["generic", "rest", "generic", "mixed"][int(rng.integers(4))], obstacle=[None, "sphere", "plane", "box"][int(rng.integers(4))],
                              gravity=bool(rng.integers(2)), damping=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    full = []      # a scene in which everything acts, for either scheme
    for j in range(2 * k):
        full.append(dict(what="step", law=LAWS[int(rng.integers(5))], scheme=["usl", "usl_aflip"][j % 2], dim=2 + int(j % 5 == 4), kernel=["quadratic", "cubic"][int(rng.integers(2))],
                         state="generic", full=True, obstacle=["sphere", "plane", "box"][int(rng.integers(3))], gravity=True, damping=True, seed=int(rng.integers(1 << 30))))
        full.append(dict(what="step", law=LAWS[int(rng.integers(5))], scheme=["usl", "usl_aflip"][j % 2], dim=2, kernel="linear",
                         state="mixed", obstacle=["sphere", "plane", "box"][int(rng.integers(3))], gravity=True, damping=True, seed=int(rng.integers(1 << 30))))
    if tier == "quick":      # per kind: laws, shapes and steps differ in cost
        pick = dict(law=18, shape=9, step=2)
        kept = []
        for kind, m in pick.items():
            sub = [c for c in cases if c["what"] == kind]
            kept += [sub[i] for i in rng.permutation(len(sub))[:m]]
        cases = kept
    cases = cases + full
    order = rng.permutation(len(cases))
    return [cases[i] for i in order]


def flt(tree):
    """Python floats become arrays, so that they are differentiated as well"""
    import jax
    import jax.numpy as jnp
    return jax.tree.map(lambda x: jnp.asarray(x) if isinstance(x, float) else x, tree)


def examine(ck, fun, tree, rng, what, generic, scales=None, skip=()):
    """fun(tree) -> dict of arrays"""
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    dyn, stat = eqx.partition(tree, eqx.is_inexact_array)
    out0 = jax.jit(lambda d: fun(eqx.combine(d, stat)))(dyn)
    W = {}
    for q, a in out0.items():
        a = np.asarray(a)
        ck.true("finite outcome", np.isfinite(a).all(), f"{what}: {q}")
        W[q] = jnp.asarray(rng.normal(size=a.shape) / (np.abs(a).max() + 1e-6) / max(a.size, 1) ** 0.5)

    def loss(d):
        o = fun(eqx.combine(d, stat))
        return sum(jnp.sum(W[q] * o[q]) for q in W)

    F = jax.jit(loss)
    g = jax.jit(jax.grad(loss))(dyn)
    leaves = jax.tree_util.tree_leaves_with_path(dyn)
    gl = dict((jax.tree_util.keystr(p), np.asarray(v)) for p, v in jax.tree_util.tree_leaves_with_path(g))
    for p, v in leaves:
        ck.true("finite derivative", np.isfinite(gl[jax.tree_util.keystr(p)]).all(), f"{what}: d loss / d {jax.tree_util.keystr(p)}", mech="non-finite derivative")
    if not generic:
        return
    f0 = float(F(dyn))
    # forward mode in one direction over all leaves
    flat, tdef = jax.tree.flatten(dyn)
    dirs = [np.asarray(rng.normal(size=l.shape)) * (np.abs(np.asarray(l)).max() + 1e-3) for l in flat]
    tang = jax.tree.unflatten(tdef, [jnp.asarray(d, l.dtype) for d, l in zip(dirs, flat)])
    _, fwd = jax.jit(lambda d, t: jax.jvp(loss, (d,), (t,)))(dyn, tang)
    gf = jax.tree.leaves(g)
    parts = [float((np.asarray(a) * d).sum()) for a, d in zip(gf, dirs)]
    ck.close("forward and reverse mode agree", float(fwd), sum(parts), 1e-7 * (sum(abs(x) for x in parts) + 1e-9) + 1e-9, what)
    for i, (p, v) in enumerate(leaves):
        name = jax.tree_util.keystr(p)
        if any(s in name for s in skip):
            continue
        val = {}
        h0 = 2e-6
        for s in (1.0, -1.0, 0.5, -0.5):
            new = list(flat)
            new[i] = flat[i] + jnp.asarray(s * h0 * dirs[i], flat[i].dtype)
            val[s] = float(F(jax.tree.unflatten(tdef, new)))
        fp, fm = (val[1.0] - f0) / h0, (f0 - val[-1.0]) / h0
        c1, c2 = (val[1.0] - val[-1.0]) / (2 * h0), (val[0.5] - val[-0.5]) / h0
        noise = 1e-14 * (abs(f0) + 1) / h0
        if abs(fp - fm) > 0.02 * max(abs(fp), abs(fm)) + 20 * noise or abs(c1 - c2) > 0.01 * max(abs(c1), abs(c2)) + 20 * noise:
            ck.saw("kink or curvature, left out")
            continue
        ck.close("derivative is the difference quotient", parts[i], c1, 3e-3 * abs(c1) + 30 * noise + 20 * abs(c1 - c2) + abs(fp - fm), f"{what}: {name}",
                 mech="derivative disagrees with the difference quotient")


def run_case(ck, case):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return dict(law=law_case, shape=shape_case, step=step_case)[case["what"]](ck, case)


def law_state_outputs(ls):
    import jax
    import jax.numpy as jnp
    return {f"law{i}": l for i, l in enumerate(jax.tree.leaves(ls)) if hasattr(l, "dtype") and jnp.issubdtype(l.dtype, jnp.inexact)}


def law_case(ck, case):
    import jax.numpy as jnp
    import scen
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    n, dim = 6, case["dim"]
    law, st, stress, dens = scen.make_law(rng, case["law"], n, dim)
    law, st = flt(law), scen.as_arrays(st) if st is not None else None
    dt = 1e-3
    L = scen.rand_L(rng, n, dim, 2e-3, dt)
    if case["state"] in ("generic", "plastic"):
        g = rng.normal(size=(n, 3, 3))
        if dim == 2:
            g[:, 2, :] = g[:, :, 2] = 0
        L = g * (1e-4 if case["state"] == "generic" else 2e-2) / dt
        p = np.trace(stress, axis1=1, axis2=2) / 3
        stress = stress + 0.2 * np.abs(p)[:, None, None] * scen.rand_sym(rng, n)
    elif case["state"] == "rest":
        L = np.zeros((n, 3, 3))
    elif case["state"] == "isotropic":
        L = np.eye(3) * rng.normal(size=(n, 1, 1)) * 1e-3 / dt
    elif case["state"] == "spin":
        w = rng.normal(size=(n, 3, 3))
        L = (w - np.swapaxes(w, 1, 2)) * 1e-3 / dt
    elif case["state"] == "loose":
        dens = dens * rng.choice([0.5, 0.999, 1.0, 1.001], n)
        dens = np.array(dens)
        dens[[0, -1]] *= 0.5
        L[: n // 2] = 0
    mp = scen.points(n, dim, stress=stress, density=dens, L=L, rng=rng)

    def fun(t):
        law, mp, st, dt = t
        m, s = law.update(mp, st, dt)
        return dict(stress=m.stress_stack, **law_state_outputs(s))

    examine(ck, fun, (law, mp, st, jnp.asarray(dt)), rng, f"{case['law']} {case['state']}", case["state"] in ("generic", "plastic"))
    # the readings offered of a point
    import jax

    def reads(mp):
        return dict(p=mp.pressure_stack, q=mp.q_stack)

    examine(ck, reads, mp, rng, f"readings {case['state']}", False)
    return f"law {case['law']} {case['state']} {dim}D"


def shape_case(ck, case):
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, k = case["dim"], case["shape"]
    u = lambda a, b: float(rng.uniform(a, b))
    logic = {"sphere": lambda: hdx.SphereSDF(radius=u(.5, 1.5)), "box": lambda: hdx.BoxSDF(size=jnp.asarray(rng.uniform(.5, 2, dim))), "plane": lambda: hdx.PlaneSDF(normal=jnp.asarray(rng.normal(size=dim))),
             "capsule": lambda: hdx.CapsuleSDF(radius=u(.3, .8), height=u(.5, 2)), "ring": lambda: hdx.HollowCylinderSDF(height=u(1, 2), outer_radius=u(1.2, 2), inner_radius=u(.3, 1)),
             "star": lambda: hdx.StarSDF(5, u(1, 2), u(.3, .8)), "domain": lambda: hdx.DomainSDF(origin=tuple(rng.uniform(-2, -1, dim)), end=tuple(rng.uniform(1, 2, dim))),
             "cylinder": lambda: hdx.CylinderSDF(radius=u(.3, 1), height=u(.5, 2)), "torus": lambda: hdx.TorusSDF(major_r=u(1, 2), minor_r=u(.2, .6))}[k]()
    kw = dict(velocity=jnp.asarray(rng.normal(size=dim)), angular_velocity=jnp.asarray(rng.normal(size=3)) if dim == 3 else u(-1, 1))
    q = rng.normal(size=4)
    kw["rotation"] = jnp.asarray(q / np.linalg.norm(q)) if dim == 3 else u(-3, 3)
    c = rng.normal(size=dim)
    st = flt(logic.create_state(jnp.asarray(c), **kw))
    for kind in ("generic", "special"):
        x = rng.normal(size=(12, dim)) * 1.5
        if kind == "special":        # centre, axes, aligned directions in the frame of the obstacle
            x = np.concatenate([np.zeros((1, dim)), np.eye(dim), -0.5 * np.eye(dim), np.full((1, dim), 0.25)])
            st0 = flt(logic.create_state(jnp.asarray(c)))
        pos = jnp.asarray(x + c)

        def fun(t):
            logic, s, x = t
            s2 = logic.update_kinematics(s, 1e-2)
            return dict(d=logic.get_signed_distance_stack(s2, x), n=logic.get_normal_stack(s2, x), v=logic.get_velocity_stack(s2, x, 1e-2))

        # lengths of the shape are floats and may stay so: state and positions are differentiated
        examine(ck, lambda t: fun((logic,) + t), (st if kind == "generic" else st0, pos), rng, f"{k} {dim}D {kind}", kind == "generic")
    return f"shape {k} {dim}D"


def step_case(ck, case):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    import scen
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, full = case["dim"], case.get("full", False)

    def hook(sb):
        if case["obstacle"]:
            logic = {"plane": lambda: hdx.PlaneSDF(normal=jnp.eye(dim)[-1]), "sphere": lambda: hdx.SphereSDF(radius=0.8), "box": lambda: hdx.BoxSDF(size=jnp.ones(dim))}[case["obstacle"]]()
            s = sb.add_sdf_object(sdf_logic=logic, center_of_mass=jnp.full((dim,), 1.0), velocity=None if case["state"] != "generic" else jnp.asarray(rng.normal(size=dim)))
            sb.add_sdf_collider(sdf_idx=s, friction=0.4)
        if full:
            sb.add_gravity(gravity=jnp.asarray(rng.normal(size=dim)), is_apply_on_grid=False)

    gen = case["state"] == "generic"
    bodies = [dict(n=6, law=case["law"], kernel=case["kernel"], vel=1.0 if gen else 0.0, box=(.35, .6), stress_free=case["state"] == "rest" and case["law"] == "elastic")]
    if case["state"] == "mixed":      # a moving body beside one at rest
        bodies.append(dict(n=4, law="elastic", kernel=case["kernel"], vel=1.0, box=(.7, .8)))
    prm = dict(alpha=0.7)
    if case["scheme"] == "usl_aflip":
        prm.update(use_dynamic_alpha=full or bool(rng.integers(2)), beta_min=0.1, beta_max=0.1)
    spec = dict(dim=dim, scheme=case["scheme"], cell=0.5, bodies=bodies, hook=hook, params=prm, gravity=[0.0] * (dim - 1) + [-9.8] if case["gravity"] else None,
                damping=0.2 if case["damping"] else None, dt=2e-4)
    solver, state, _ = scen.build(spec, rng)
    state = scen.as_arrays(state)
    if full:      # a moment later: every memory of the scheme is in use
        state = jax.jit(lambda s: solver(solver(s)))(state)
    if not gen:      # some points exactly on nodes
        mp = state.world.material_points[0]
        x = np.array(mp.position_stack)
        x[:2] = np.round(x[:2] / 0.5) * 0.5
        x[2] = [3.0] * (dim - 1) + [0.5]                        # on a node out of reach of all others: its neighbours are touched but stay empty
        state = eqx.tree_at(lambda s: s.world.material_points[0].position_stack, state, jnp.asarray(x))

    def fun(t):
        s = t
        for _ in range(2):
            s = solver(s)
        out = {}
        for i, mp in enumerate(s.world.material_points):
            out.update({f"x{i}": mp.position_stack, f"v{i}": mp.velocity_stack, f"s{i}": mp.stress_stack, f"V{i}": mp.volume_stack})
        return out

    examine(ck, fun, state, rng, f"{case['scheme']} {case['law']} {case['state']} obstacle={case['obstacle']}", gen)
    return f"step {case['scheme']} {case['law']} {case['kernel']} {dim}D {case['state']} o={case['obstacle']} g={case['gravity']} d={case['damping']}"
