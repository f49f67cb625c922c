"""C28: simulations run side by side, bodies on other grids, bodies out of reach and bodies outside the domain do not influence each other."""
import numpy as np

ID = "C28"
RULE = ("random scenes (law, kernel, scheme, gravity, damping, obstacle) stepped as members of a batch beside stepping them one by one, and a body stepped alone beside the same body with company that shares no node "
        "with it: on another grid, far away on the same grid, or outside the domain; company may be broken (not-a-number); non-trivial: distinct (arrangement, law, law of company, kernel, scheme, dimension, forces)")
ASSUMPTIONS = ["broken company is placed on another grid or in another member of the batch only"]
FLOOR = {"batch equals one by one": 5000, "batch members isolated": 3000, "company on another grid": 3000, "company out of reach": 3000, "company outside the domain": 3000, "company moves": 12, "law state": 300}
LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]
WHATS = ["batch", "other_grid", "far", "outside"]


def gen_cases(rng, tier):
    cases = []
    for i in range(24 if tier == "quick" else 300):
        cases.append(dict(what=WHATS[i % 4], dim=2 if rng.random() < .7 else 3, scheme=["usl", "usl_aflip"][(i // 4) % 2], law=LAWS[int(rng.integers(5))], law2=LAWS[int(rng.integers(5))],
                          kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))], kernel2=["linear", "quadratic", "cubic"][int(rng.integers(3))], gravity=[None, "grid", "points"][int(rng.integers(3))],
                          damping=bool(rng.integers(2)), obstacle=bool(rng.integers(2)), dyn=bool(rng.integers(2)), poison=bool(rng.integers(2)), first=bool(rng.integers(2)), x64=bool(i % 5), seed=int(rng.integers(1 << 30))))
    return cases


Q = ("position_stack", "velocity_stack", "stress_stack", "F_stack", "L_stack", "volume_stack")


def body(rng, kind, n, dim, lo, hi, h, vel=1.0):
    import jax.numpy as jnp
    import scen
    law, st, s, d = scen.make_law(rng, kind, n, dim)
    vol = np.full(n, (h / 2) ** dim) * rng.uniform(.8, 1.2, n)
    x = rng.uniform(lo, hi, (n, dim))
    return dict(law=law, st=st, mp=dict(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(rng.normal(size=(n, dim)) * vel), volume_stack=jnp.asarray(vol), mass_stack=jnp.asarray(vol * d),
                                        stress_stack=jnp.asarray(s)))


def scene(case, sc, bodies, grids):
    """bodies: (body, grid index, kernel)"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    dim, L, h = case["dim"], sc["L"], sc["h"]
    sb = hdx.SimBuilder()
    for _ in range(grids):
        sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=h)
    for b, g, k in bodies:
        p = sb.add_material_points(**b["mp"])
        c = sb.add_constitutive_law(law=b["law"], law_state=b["st"])
        sb.couple(p_idx=p, g_idx=g, c_idx=c, shapefunction=k)
    if case["gravity"]:
        sb.add_gravity(gravity=jnp.asarray(sc["g"]), is_apply_on_grid=case["gravity"] == "grid")
    if case["obstacle"]:
        s = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=sc["r"]), center_of_mass=jnp.asarray(sc["c"]), velocity=jnp.asarray(sc["ov"]), angular_velocity=jnp.asarray(sc["ow"]) if dim == 3 else float(sc["ow"][0]))
        sb.add_sdf_collider(sdf_idx=s, friction=sc["fr"])
    if case["damping"]:
        sb.add_damping(alpha=sc["damp"])
    prm = dict(alpha=sc["alpha"])
    if case["scheme"] == "usl_aflip":
        prm.update(use_dynamic_alpha=case["dyn"], beta_min=.1, beta_max=.5)
    sb.set_solver(scheme=case["scheme"], **prm)
    return sb.build(dt=4e-4)


def common(rng, dim):
    h = float(rng.uniform(.4, .6))
    return dict(h=h, L=(20 if dim == 2 else 15) * h, g=rng.normal(size=dim) * 10, c=rng.uniform(2.5, 3.5, dim) * h, ov=rng.normal(size=dim), ow=rng.normal(size=3 if dim == 3 else 1), r=float(rng.uniform(.8, 1.6) * h),
                fr=float(rng.uniform(0, .8)), damp=float(rng.uniform(.02, .2)), alpha=float(rng.uniform(.4, 1)))


def run_case(ck, case):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import scen
    from vlib import sub_rng, eps_of, f
    rng = sub_rng(case["seed"])
    e = eps_of(jnp.zeros(1))
    dim, what = case["dim"], case["what"]
    sc = common(rng, dim)
    h, L = sc["h"], sc["L"]
    steps = 4
    n = 25

    def twins(mon, a, b, steps_done, exact=False):
        for q in Q:
            x, y = f(getattr(a, q)), f(getattr(b, q))
            s = max(np.abs(x).max(), 1e-3)
            if q == "velocity_stack":
                s = max(s, 1.0)
            if q == "stress_stack":
                s = max(s, 1e3)
            if q == "L_stack":
                s = max(s, 1.0 / h)
            ck.close(mon, y, x, 0.0 if exact else 300 * e * s * steps_done, q)

    def states(a, b, exact=False):
        for u, v in zip(jax.tree.leaves(a), jax.tree.leaves(b)):
            if eqx.is_array(u) and u.size:
                u, v = f(u), f(v)
                ck.close("law state", v, u, 0.0 if exact else 1e3 * e * max(np.abs(u).max(), 1e-3), "law state")

    sig = f"{what} {case['law']} {case['kernel']} {case['scheme']} {dim} {case['gravity']} {case['damping']} {case['obstacle']}"
    if what == "batch":
        b = body(rng, case["law"], n, dim, 2.5 * h, 7 * h, h)
        solver, st = scene(case, sc, [(b, 0, case["kernel"])], 1)
        st = scen.as_arrays(st)
        def vary(s, k):
            s = eqx.tree_at(lambda t: t.world.material_points[0].velocity_stack, s, s.world.material_points[0].velocity_stack + jnp.asarray(rng.normal(size=(n, dim))).astype(s.world.material_points[0].velocity_stack.dtype))
            s = eqx.tree_at(lambda t: t.world.material_points[0].position_stack, s, s.world.material_points[0].position_stack + jnp.asarray(rng.uniform(0, 3) * h).astype(s.world.material_points[0].position_stack.dtype))
            s = eqx.tree_at(lambda t: t.dt, s, s.dt * (1 - .2 * k))
            return eqx.tree_at(lambda t: t.time, s, s.time + k)
        members = [vary(st, k) for k in range(3)]
        fn = eqx.filter_jit(solver)
        run = eqx.filter_jit(eqx.filter_vmap(lambda s: solver(s)))
        stack = lambda ms: jax.tree.map(lambda *a: jnp.stack(a) if eqx.is_array(a[0]) else a[0], *ms)
        B = stack(members)
        single = list(members)
        bad = None
        if case["poison"]:
            m = members[1]
            bad = stack([members[0], eqx.tree_at(lambda t: t.world.material_points[0].stress_stack, m, m.world.material_points[0].stress_stack * jnp.nan), members[2]])
        for k in range(steps):
            B = run(B)
            single = [fn(s) for s in single]
            for i in range(3):
                mine = jax.tree.map(lambda a: a[i] if eqx.is_array(a) else a, B)
                twins("batch equals one by one", single[i].world.material_points[0], mine.world.material_points[0], k + 1)
                states(single[i].mechanics.constitutive_laws, mine.mechanics.constitutive_laws)
                ck.close("batch equals one by one", f(mine.time), f(single[i].time), 4 * e * 3, "time")
                ck.true("batch equals one by one", int(mine.step) == int(single[i].step) == k + 1, "step")
                for a, c in zip(jax.tree.leaves(single[i].world.sdfs), jax.tree.leaves(mine.world.sdfs)):
                    ck.close("batch equals one by one", f(c), f(a), 30 * e * (np.abs(f(a)).max() + 1), "obstacle")
            if bad is not None:
                bad = run(bad)
                for i in (0, 2):
                    for u, v in zip(jax.tree.leaves(B), jax.tree.leaves(bad)):
                        ck.close("batch members isolated", f(v[i]), f(u[i]), 0.0, "beside a broken member")
        ck.true("company moves", not np.allclose(f(B.world.material_points[0].velocity_stack[0]), f(B.world.material_points[0].velocity_stack[1])), "members differ")
        return sig
    b = body(rng, case["law"], n, dim, 2.5 * h, 7 * h, h)
    if what == "other_grid":
        comp = body(rng, case["law2"], 18, dim, 2.5 * h, 7 * h, h, 3.0)
        if case["poison"]:
            comp["mp"]["stress_stack"] = comp["mp"]["stress_stack"] * jnp.nan
        place = 1
    elif what == "far":
        comp = body(rng, case["law2"], 18, dim, 12 * h, L - 1.5 * h, h, 3.0)
        place = 0
    else:
        m = 18
        comp = body(rng, case["law2"], m, dim, 0, L, h, 3.0)
        x = np.array(comp["mp"]["position_stack"])
        ax = rng.integers(0, dim, m)
        x[np.arange(m), ax] = np.where(rng.random(m) < .5, -rng.uniform(6, 40, m) * h, L + rng.uniform(6, 40, m) * h)
        comp["mp"]["position_stack"] = jnp.asarray(x)
        place = 0
    mine, other = (b, 0, case["kernel"]), (comp, place, case["kernel2"])
    sA, A = scene(case, sc, [mine], 2 if place else 1)
    order = [other, mine] if case["first"] else [mine, other]
    sB, Bst = scene(case, sc, order, 2 if place else 1)
    me = 1 if case["first"] else 0
    mon = {"other_grid": "company on another grid", "far": "company out of reach", "outside": "company outside the domain"}[what]
    x0 = f(Bst.world.material_points[1 - me].position_stack)
    for k, (a, c) in enumerate(zip(scen.run(sA, A, steps), scen.run(sB, Bst, steps))):
        if not k:
            continue
        twins(mon, a.world.material_points[0], c.world.material_points[me], k)
        states(a.mechanics.constitutive_laws[0], c.mechanics.constitutive_laws[me])
        ck.finite(mon, f(c.world.material_points[me].velocity_stack), "finite")
        if what == "outside":
            o = c.world.material_points[1 - me]
            ck.finite(mon, f(o.position_stack), "points outside stay finite")
            ck.finite(mon, f(o.stress_stack), "points outside stay finite")
        last = c
    x1 = f(last.world.material_points[1 - me].position_stack)
    ck.true("company moves", what == "outside" or not np.array_equal(x0, x1), "company is alive")
    return sig + f" {case['law2']} {case['kernel2']} {case['first']} {case['poison']}"
