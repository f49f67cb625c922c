"""C29: no scene the builder accepts turns into not-a-numbers or loses points, however awkward its starting state; everything the builder offers can be stepped."""
import numpy as np

ID = "C29"
RULE = ("scenes made awkward on purpose (points on nodes, cell faces, domain corners, obstacle surfaces, centres and axes, coincident points, single points, rest, very light beside very heavy, leaving the domain, deep inside "
        "obstacles, overlapping obstacles) stepped in both precisions with a sanitizer for not-a-numbers on every value of the state; every law, kernel, shape and force the builder offers stepped at least once; "
        "non-trivial: distinct (awkward traits, law, kernel, scheme, dimension, obstacle, precision)")
ASSUMPTIONS = ["with the linear kernel a run is followed until light nodes make it fast (a limit of the method)", "time steps below the critical one; materials with an upper limit of strength or speed are not driven beyond it"]
FLOOR = {"finite": 2000, "mass and volume positive": 300, "no explosion": 100, "rest stays rest": 20, "every element steps": 20, "outsiders harmless": 20, "orientation stays a rotation": 20}
LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]
TRAITS = ["nodes", "faces", "coincident", "single", "rest", "mass range", "edge", "leaving", "surface", "centre", "buried", "two obstacles"]
SHAPES = {2: ["sphere", "box", "plane", "capsule", "ring", "star", "walls", "domain", "composite"], 3: ["sphere", "box", "plane", "capsule", "cylinder", "torus", "pipe", "domain", "composite"]}


def gen_cases(rng, tier):
    cases = []
    sh = {2: 0, 3: 0}
    for i in range(30 if tier == "quick" else 400):
        dim = 2 if i % 3 else 3
        sh[dim] += 1
        tr = [TRAITS[i % len(TRAITS)]] + [t for t in TRAITS if rng.random() < .12]
        cases.append(dict(what="scene", traits=sorted(set(tr)), dim=dim, law=LAWS[int(rng.integers(5))], kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))], scheme=["usl", "usl_aflip"][i % 2],
                          shape=SHAPES[dim][sh[dim] % 9], gravity=[None, "grid", "points"][int(rng.integers(3))], damping=bool(rng.integers(2)), dyn=bool(rng.integers(2)), psc=bool(rng.integers(2)), x64=bool(rng.integers(2)),
                          rigid=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    for i in range(5 if tier == "quick" else 30):
        cases.append(dict(what="rest", dim=2 + i % 2, law=["elastic", "dp"][i % 2], kernel=["linear", "quadratic", "cubic"][i % 3], scheme=["usl", "usl_aflip"][i % 2], x64=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    cases.append(dict(what="elements", x64=True, seed=int(rng.integers(1 << 30))))
    return cases


def obstacle(rng, kind, dim, s):
    """(logic, local points of special interest)"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from hydraxmpm.sdf.sdfcollection import CompositeSDF
    z = np.zeros(dim)
    ex = np.eye(dim)
    if kind == "sphere":
        return hdx.SphereSDF(radius=s), [z, s * ex[0], -s * ex[1]]
    if kind == "box":
        return hdx.BoxSDF(size=jnp.full(dim, 2 * s)), [z, s * ex[0], s * np.ones(dim), s * ex[0] + s * ex[1]]
    if kind == "plane":
        return hdx.PlaneSDF(normal=jnp.asarray(ex[-1])), [z, ex[0] * s]
    if kind == "capsule":
        return hdx.CapsuleSDF(radius=s / 2, height=s), [z, s / 2 * ex[0], s * ex[1], s / 2 * ex[1]]
    if kind in ("ring", "walls", "pipe"):
        return hdx.HollowCylinderSDF(height=2 * s, outer_radius=s, inner_radius=s / 2, is_2d_ring=kind != "walls"), [z, s * ex[0], s / 2 * ex[0], s * ex[1], s * ex[0] + s * ex[1]]
    if kind == "star":
        return hdx.StarSDF(points=5, outer_radius=s, inner_radius=s / 2), [z, s * ex[0], s * ex[1]]
    if kind == "cylinder":
        return hdx.CylinderSDF(radius=s, height=2 * s), [z, s * ex[0], s * ex[1], s * ex[0] + s * ex[1]]
    if kind == "torus":
        return hdx.TorusSDF(major_r=s, minor_r=s / 3), [z, s * ex[0], s * ex[2], s * ex[0] * 4 / 3]
    if kind == "composite":
        return CompositeSDF([hdx.SphereSDF(radius=s), hdx.PlaneSDF(normal=jnp.asarray(ex[1]))], jnp.asarray([.3, .6])), [z, s * ex[0], s * ex[1]]
    raise KeyError(kind)


def scene(ck, case, rng):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    import scen
    from vlib import eps_of, f
    dim, T = case["dim"], set(case["traits"])
    e = eps_of(jnp.zeros(1))
    h, N = 0.5, 8
    L = N * h
    com = np.full(dim, 3 * h)
    s = 0.8
    if case["shape"] == "domain":
        logic, spots = hdx.DomainSDF(origin=(0.0,) * dim, end=(L,) * dim), [np.zeros(dim), np.full(dim, L / 2), L * np.eye(dim)[0], np.full(dim, L)]
        com = np.zeros(dim)
    else:
        logic, spots = obstacle(rng, case["shape"], dim, s)
    n = 1 if "single" in T else 24
    law, st, stress, dens = scen.make_law(rng, case["law"], n, dim)
    vol = np.full(n, (h / 2) ** dim)
    if "mass range" in T:
        vol = vol * 10.0 ** rng.uniform(-4, 0, n)
    x = rng.uniform(1.5, 6.5, (n, dim)) * h
    if "nodes" in T:
        x = np.round(x / h) * h
    if "faces" in T:
        x[:, 0] = (np.floor(x[:, 0] / h) + .5) * h
        x[: n // 2, 1] = np.round(x[: n // 2, 1] / h) * h
    if "coincident" in T:
        x[:] = x[0]
    if "edge" in T:
        for k in range(0, n, 3):
            x[k] = np.where(rng.random(dim) < .5, 0.0, L)
            x[k, int(rng.integers(dim))] = rng.uniform(0, L)
    if "surface" in T or "centre" in T:
        for k in range(0, n, 2):
            x[k] = com + spots[0 if "centre" in T and k % 4 == 0 else int(rng.integers(len(spots)))]
    if "buried" in T:
        x[::3] = com + rng.normal(size=(len(x[::3]), dim)) * 1e-3
    v = rng.normal(size=(n, dim))
    if "rest" in T:
        v, stress = 0 * v, 0 * stress if case["law"] in ("elastic",) else stress
    dt = 2e-4
    if "leaving" in T:
        x[:2] = L - .1 * h
        v[:2] = 0.3 * h / dt / 5
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=h)
    p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.asarray(vol), mass_stack=jnp.asarray(vol * dens), stress_stack=jnp.asarray(stress))
    c = sb.add_constitutive_law(law=law, law_state=st)
    sb.couple(p_idx=p, g_idx=0, c_idx=c, shapefunction=case["kernel"])
    if case["rigid"]:
        r = sb.add_material_points(position_stack=jnp.asarray(x[:1]), is_rigid=True)
        sb.couple(p_idx=r, g_idx=0, shapefunction=case["kernel"])
    mov = case["shape"] != "domain"
    i = sb.add_sdf_object(sdf_logic=logic, center_of_mass=jnp.asarray(com), velocity=jnp.asarray(rng.normal(size=dim) * mov), angular_velocity=jnp.asarray(rng.normal(size=3) * mov) if dim == 3 else float(rng.normal() * mov))
    sb.add_sdf_collider(sdf_idx=i, friction=float(rng.choice([0.0, .5])))
    if "two obstacles" in T:
        j = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=s), center_of_mass=jnp.asarray(com + .5 * s))
        sb.add_sdf_collider(sdf_idx=j, friction=1.0)
    if case["gravity"]:
        sb.add_gravity(gravity=jnp.asarray(rng.normal(size=dim) * 10), is_apply_on_grid=case["gravity"] == "grid")
    if case["damping"]:
        sb.add_damping(alpha=float(rng.choice([0.0, .1])))
    prm = dict(alpha=float(rng.choice([0.0, .9, 1.0])))
    if case["scheme"] == "usl_aflip":
        prm.update(use_dynamic_alpha=case["dyn"], beta_min=.1, beta_max=.5)
    sb.set_solver(scheme=case["scheme"], **prm)
    solver, state = sb.build(dt=dt)
    m0 = f(state.world.material_points[0].mass_stack)
    sig = f"{'+'.join(case['traits'])} {case['law']} {case['kernel']} {case['scheme']} {dim} {case['shape']} {case['x64']}"
    for k, stt in enumerate(scen.run(solver, state, 12)):
        if not k:
            prev = stt
            continue
        mp = stt.world.material_points[0]
        if case["kernel"] == "linear" and (np.abs(f(mp.velocity_stack)).max() > 100 or np.abs(f(mp.L_stack)).max() * dt > .2):
            break    # light nodes of the linear kernel: a known limit of the method, not of the code
        for path, a in jax.tree_util.tree_leaves_with_path(stt):
            if eqx.is_array(a) and jnp.issubdtype(a.dtype, jnp.floating):
                ck.finite("finite", f(a), f"{jax.tree_util.keystr(path)} after {k} steps: {sig}")
        ck.true("mass and volume positive", np.array_equal(f(mp.mass_stack), m0) and (f(mp.volume_stack) > 0).all(), "mass and volume")
        v0, v1 = np.abs(f(prev.world.material_points[0].velocity_stack)).max(), np.abs(f(mp.velocity_stack)).max()
        ck.true("no explosion", v1 < 3 * v0 + 60, f"speed {v0} -> {v1} in one step: {sig}")
        q = stt.world.sdfs[0].rotation
        if dim == 3:
            ck.close("orientation stays a rotation", np.linalg.norm(f(q)), 1.0, 1e-10 + 60 * e, "unit quaternion")
        prev = stt
    return sig


def rest(ck, case, rng):
    """stress-free resting bodies beside resting obstacles without gravity stay exactly as they are; a point far outside changes nothing"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import scen
    from vlib import f
    dim, h = case["dim"], 0.5
    n = 20
    x = rng.uniform(1, 7, (n, dim)) * h
    x[0] = 100 * h
    law = hdx.LinearElasticLaw(E=1e4, nu=.3) if case["law"] == "elastic" else hdx.DruckerPrager(K=5e4, nu=.3, mu_1=.4, mu_2=.3, c0=10.0, H=0.0, mu_1_hat=0.0, rho_0=900.0)
    st = None if case["law"] == "elastic" else law.create_state(jnp.zeros((n, 3, 3)))
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(8 * h,) * dim, cell_size=h)
    p = sb.add_material_points(position_stack=jnp.asarray(x), volume_stack=jnp.full(n, (h / 2) ** dim), mass_stack=jnp.full(n, 1000 * (h / 2) ** dim))
    c = sb.add_constitutive_law(law=law, law_state=st)
    sb.couple(p_idx=p, g_idx=0, c_idx=c, shapefunction=case["kernel"])
    i = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=1.0), center_of_mass=jnp.asarray(x[1]))
    sb.add_sdf_collider(sdf_idx=i, friction=.4)
    sb.add_damping(alpha=.1)
    sb.add_gravity(gravity=jnp.zeros(dim))
    sb.set_solver(scheme=case["scheme"])
    solver, state = sb.build(dt=1e-3)
    for k, s in enumerate(scen.run(solver, state, 6)):
        mp = s.world.material_points[0]
        ck.close("rest stays rest", f(mp.position_stack), f(jnp.asarray(x)), 0.0, "position")
        ck.true("rest stays rest", not f(mp.velocity_stack).any() and not f(mp.L_stack).any(), "velocity")
        ck.true("rest stays rest", np.array_equal(f(mp.F_stack), np.tile(np.eye(3), (n, 1, 1))), "shape")
        ck.close("rest stays rest", f(mp.stress_stack), 0 * f(mp.stress_stack), 1e-9, "stress")
        ck.true("outsiders harmless", np.isfinite(f(mp.position_stack)).all(), "finite")
        ck.saw("outsiders harmless", 3)
    return f"rest {case['law']} {case['kernel']} {case['scheme']} {dim} {case['x64']}"


def elements(ck, case, rng):
    """every element the builder offers, with as little given as the signature asks for"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import scen
    from vlib import f

    def step(fill, mech, what, dim=2, bodies=1, scheme="usl_aflip"):
        try:
            sb = hdx.SimBuilder()
            for b in range(bodies):
                sb.add_grid(origin=(0.0,) * dim, end=(4.0,) * dim, cell_size=.5)
                sb.add_material_points(position_stack=jnp.asarray(rng.uniform(1, 3, (6, dim))), cell_size=.5)
                sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e4, nu=.3))
                sb.couple()
            fill(sb)
            sb.set_solver(scheme=scheme)
            solver, state = sb.build()
            for s in scen.run(solver, state, 2):
                pass
            ok, why = all(np.isfinite(f(mp.position_stack)).all() for mp in s.world.material_points), "not finite"
        except Exception as ex:
            ok, why = False, f"{type(ex).__name__}: {str(ex)[:120]}"
        ck.true("every element steps", ok, f"{what}: {why}", mech=mech)

    for dim in (2, 3):
        step(lambda sb: sb.add_gravity(gravity=(0.0,) * (dim - 1) + (-9.8,)), "gravity", f"gravity {dim}D", dim)
        for scheme in ("usl", "usl_aflip", "USL", "USL_AFLIP"):
            step(lambda sb: None, f"scheme {scheme}", f"scheme {scheme} {dim}D", dim, scheme=scheme)
        for kind in SHAPES[dim]:
            if kind == "domain":
                logic = hdx.DomainSDF(origin=(0.0,) * dim, end=(4.0,) * dim)
            else:
                logic = obstacle(rng, kind, dim, .7)[0]
            def add(sb):
                sb.add_sdf_object(sdf_logic=logic, center_of_mass=jnp.full(dim, 2.0))
                sb.add_sdf_collider()
            step(add, f"obstacle {kind}", f"{kind} {dim}D", dim)
        step(lambda sb: sb.add_damping(alpha=.1), "damping", f"damping {dim}D", dim)
        step(lambda sb: sb.add_damping(alpha=.1, is_apply_on_grid=False), "damping on points", f"damping on points {dim}D", dim)
        step(lambda sb: sb.add_material_points(position_stack=jnp.ones((2, dim)), is_rigid=True) and sb.couple(), "rigid points", f"rigid points {dim}D", dim)
    step(lambda sb: sb.add_body_contact(), "body-contact", "contact of two bodies", bodies=2)
    step(lambda sb: (sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=.5)), sb.add_sdf_collider()), "obstacle-without-centre", "obstacle without a centre of mass")
    step(lambda sb: (sb.add_sdf_object(sdf_logic=hdx.DomainSDF(origin=(0.0, 0.0), end=(4.0, 4.0))), sb.add_sdf_collider()), "domain without centre", "domain without a centre of mass")
    return "elements"


def run_case(ck, case):
    from vlib import sub_rng
    return globals()[case["what"]](ck, case, sub_rng(case["seed"]))
