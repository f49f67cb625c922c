"""C18: a scene means the same whatever order its parts are registered in, and selections select exactly what they name."""
import numpy as np

ID = "C18"
RULE = ("random multi-body, multi-grid, multi-obstacle scenes registered in random orders (bodies, laws, grids, couplings, forces, obstacles, rigid bodies in between), run "
        "beside the same scene in canonical order and with subsets of couplings, forces and obstacles selected; non-trivial: distinct (scheme, dimension, selection, orders)")
ASSUMPTIONS = ["damping keeps its place after the forces it damps (its documented meaning depends on that)", "obstacles on one grid do not overlap (projections of overlapping obstacles do not commute)"]
FLOOR = {"order of registration": 600, "law state follows its law": 60, "obstacle trajectory": 60, "unselected bodies untouched": 60, "unselected bodies do not act": 60,
         "unselected force": 30, "unselected obstacle": 30, "rigid points": 20, "several solvers": 40, "shared parts": 60, "nothing selected": 20, "defaults": 10}


def gen_cases(rng, tier):
    cases = []
    for i in range(10 if tier == "quick" else 120):
        cases.append(dict(what="order", dim=2 + (i // 2) % 2 if i % 3 else 2, scheme=["usl", "usl_aflip"][i % 2], nb=5 if i == 4 else int(rng.integers(2, 4)), ng=3 if i % 4 == 1 else int(rng.integers(1, 3)),
                          ns=2 if i % 4 == 1 else int(rng.integers(0, 3)), rigid=bool(rng.integers(0, 2)), seed=int(rng.integers(1 << 30))))
    for i in range(7 if tier == "quick" else 80):
        cases.append(dict(what="subset", dim=2, scheme=["usl", "usl_aflip"][i % 2], nb=3, ng=int(rng.integers(1, 3)), ns=2 + i % 2, rigid=bool(i % 3 == 0), seed=int(rng.integers(1 << 28)) * 3 + (i > 1)))
    for i in range(3 if tier == "quick" else 30):
        cases.append(dict(what="several", dim=2, scheme=["usl", "usl_aflip"][i % 2], nb=3, ng=2, ns=1, rigid=bool(i % 2), seed=int(rng.integers(1 << 30))))
    for i in range(2 if tier == "quick" else 20):
        cases.append(dict(what="shared", dim=2, scheme=["usl", "usl_aflip"][i % 2], nb=2, ng=1, ns=2, seed=int(rng.integers(1 << 30))))
    cases.append(dict(what="defaults", dim=2, seed=int(rng.integers(1 << 30))))
    return cases


LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]


def describe(case, rng):
    """the scene as data, independent of registration order"""
    dim, h = case["dim"], 0.5
    L = 8 * h
    bodies = []
    import scen
    for k in range(case["nb"]):
        n = 24 + 5 * k
        kind = LAWS[int(rng.integers(5))]
        law, st, stress, dens = scen.make_law(rng, kind, n, dim)
        lo = 0.2 * L + 0.15 * L * rng.random(dim)
        x = rng.uniform(lo, lo + 0.35 * L, (n, dim))
        vol = np.full(n, (h / 2) ** dim) * rng.uniform(0.8, 1.2, n)
        bodies.append(dict(x=x, v=rng.normal(size=(n, dim)), vol=vol, m=vol * dens, stress=stress, law=law, st=st, kind=kind, grid=int(rng.integers(case["ng"])),
                           kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))]))
    grids = [dict(h=h * [1.0, 0.8, 1.25][g]) for g in range(case["ng"])]
    # obstacles in opposite corners: they do not overlap and a node is in reach of one at most
    obs = []
    for s in range(case["ns"]):
        c = np.array([[0.1, 0.9, 0.1][s]] + [[0.1, 0.9, 0.9][s]] * (dim - 1)) * L
        obs.append(dict(c=c, r=0.12 * L, v=rng.normal(size=dim) * 0.5, w=float(rng.normal()) if dim == 2 else rng.normal(size=3), fr=float(rng.uniform(0, 1)),
                        shape=["sphere", "box"][int(rng.integers(2))], grids=sorted(rng.choice(case["ng"], int(rng.integers(1, case["ng"] + 1)), replace=False).tolist())))
    forces = [dict(kind="gravity", g=rng.normal(size=dim) * 5, grid=True, sel=[int(rng.integers(case["ng"]))]), dict(kind="gravity", g=rng.normal(size=dim) * 5, grid=False, sel=[int(rng.integers(case["nb"]))] if case["nb"] < 4 else list(range(case["nb"])))]
    forces += [dict(kind="collider", obs=s) for s in range(case["ns"])]
    return dict(dim=dim, L=L, bodies=bodies, grids=grids, obs=obs, forces=forces, damping=float(rng.uniform(0, 0.2)) if rng.random() < 0.5 else None)


def register(sc, case, rng, shuffle, params, solvers=None, rigid=False):
    """-> (solver(s), state, maps): builds the scene with every list in its own order"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    sb = hdx.SimBuilder()
    dim, L = sc["dim"], sc["L"]
    order = (lambda n: [int(i) for i in rng.permutation(n)]) if shuffle else (lambda n: list(range(n)))
    gmap, pmap, lmap, smap, cmap, fmap = {}, {}, {}, {}, {}, {}
    rig = []
    for g in order(len(sc["grids"])):
        gmap[g] = sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=sc["grids"][g]["h"])

    def add_rigid():
        x = rng.uniform(0.3 * L, 0.6 * L, (4, dim))
        i = sb.add_material_points(position_stack=jnp.asarray(x), is_rigid=True)
        rig.append((i, x))
        return i

    for k, b in enumerate(order(len(sc["bodies"]))):
        B = sc["bodies"][b]
        if rigid and k == 1:
            add_rigid()
        pmap[b] = sb.add_material_points(position_stack=jnp.asarray(B["x"]), velocity_stack=jnp.asarray(B["v"]), volume_stack=jnp.asarray(B["vol"]), mass_stack=jnp.asarray(B["m"]),
                                         stress_stack=jnp.asarray(B["stress"]))
    for b in order(len(sc["bodies"])):
        lmap[b] = sb.add_constitutive_law(law=sc["bodies"][b]["law"], law_state=sc["bodies"][b]["st"])
    for s in order(len(sc["obs"])):
        o = sc["obs"][s]
        logic = hdx.SphereSDF(radius=o["r"]) if o["shape"] == "sphere" else hdx.BoxSDF(size=jnp.full((dim,), 1.4 * o["r"]))
        smap[s] = sb.add_sdf_object(sdf_logic=logic, center_of_mass=jnp.asarray(o["c"]), velocity=jnp.asarray(o["v"]), angular_velocity=jnp.asarray(o["w"]) if dim == 3 else o["w"])
    for k, b in enumerate(order(len(sc["bodies"]))):
        if rigid and rig and k == 1:
            sb.couple(p_idx=rig[0][0], g_idx=0, shapefunction="linear")
        cmap[b] = sb.couple(p_idx=pmap[b], g_idx=gmap[sc["bodies"][b]["grid"]], c_idx=lmap[b], shapefunction=sc["bodies"][b]["kernel"])
    for f in order(len(sc["forces"])):
        F = sc["forces"][f]
        if F["kind"] == "gravity":
            kw = dict(g_idx_list=[gmap[i] for i in F["sel"]]) if F["grid"] else dict(p_idx_list=[pmap[i] for i in F["sel"]])
            fmap[f] = sb.add_gravity(gravity=jnp.asarray(F["g"]), is_apply_on_grid=F["grid"], **kw)
        else:
            o = sc["obs"][F["obs"]]
            fmap[f] = sb.add_sdf_collider(sdf_idx=smap[F["obs"]], friction=o["fr"], g_idx_list=[gmap[i] for i in o["grids"]])
    if sc["damping"] is not None:
        fmap["damping"] = sb.add_damping(alpha=sc["damping"])
    maps = dict(g=gmap, p=pmap, l=lmap, s=smap, c=cmap, f=fmap, rig=rig)
    for sel in (solvers or [None]):
        kw = dict(params)
        if sel is not None:
            if "b" in sel:
                kw["b_idx_list"] = [cmap[b] for b in sel["b"]]
            if "f" in sel:
                kw["f_idx_list"] = [fmap[f] for f in sel["f"]]
            if "s" in sel:
                kw["sdf_idx_list"] = [smap[s] for s in sel["s"]]
        sb.set_solver(scheme=case["scheme"], **kw)
    solver, state = sb.build(dt=5e-4)
    return solver, state, maps


def view(state, maps, b):
    from vlib import f
    mp = state.world.material_points[maps["p"][b]]
    return {k: f(getattr(mp, k)) for k in ("position_stack", "velocity_stack", "stress_stack", "F_stack", "L_stack", "volume_stack")}


def run_case(ck, case):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return dict(order=order, subset=subset, several=several, shared=shared, defaults=defaults)[case["what"]](ck, case)


def same(ck, name, A, B, what, factor=1.0):
    from vlib import eps_of
    import jax.numpy as jnp
    e = eps_of(jnp.zeros(1))
    for k in A:
        sc = max(np.abs(A[k]).max(), np.abs(B[k]).max(), 1e-3 if k == "L_stack" else 0)
        ck.close(name, B[k], A[k], factor * 3e4 * e * (sc + (1.0 if k == "velocity_stack" else 0)), f"{what}: {k}")


def params_of(case, rng):
    if case["scheme"] == "usl":
        return dict(alpha=float(rng.uniform(0.5, 1)))
    return dict(alpha=float(rng.uniform(0.5, 1)), use_dynamic_alpha=bool(rng.integers(2)), beta_min=0.1, beta_max=0.4, use_mls_update=bool(rng.integers(2)), cfl_limit=float(rng.choice([0.5, 1e-3])))


def order(ck, case):
    import jax
    import scen
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    sc = describe(case, rng)
    params = params_of(case, rng)
    s1, z1, m1 = register(sc, case, rng, False, params)
    s2, z2, m2 = register(sc, case, rng, True, params, rigid=case["rigid"])
    for k, (a, b) in enumerate(zip(scen.run(s1, z1, 3), scen.run(s2, z2, 3))):
        if k == 0:
            continue
        for i, B in enumerate(sc["bodies"]):
            same(ck, "order of registration", view(a, m1, i), view(b, m2, i), f"step {k} body {i} ({B['kind']})", 1 + 30 * (k > 1))
            la, lb = a.mechanics.constitutive_laws[m1["l"][i]], b.mechanics.constitutive_laws[m2["l"][i]]
            ck.true("law state follows its law", jax.tree.structure(la) == jax.tree.structure(lb), f"law state of body {i}")
            for x, y in zip(jax.tree.leaves(la), jax.tree.leaves(lb)):
                ck.close("law state follows its law", f(y), f(x), 1e-6 * (np.abs(f(x)).max() + 1e-2), f"step {k} body {i}")
        for i in range(len(sc["obs"])):
            x, y = a.world.sdfs[m1["s"][i]], b.world.sdfs[m2["s"][i]]
            for p, q in zip(jax.tree.leaves(x), jax.tree.leaves(y)):
                ck.close("obstacle trajectory", f(q), f(p), 1e-12 + 1e-6 * (f(p).dtype != np.float64), f"step {k} obstacle {i}")
            ck.close("obstacle trajectory", f(x.center_of_mass), sc["obs"][i]["c"] + sc["obs"][i]["v"] * 5e-4 * k, 1e-6, f"step {k} obstacle {i} moves once per step")
        for i, x in m2["rig"]:
            ck.close("rigid points", f(b.world.material_points[i].position_stack), x, 1e-12, "rigid body not moved by the solver")
    return f"order {case['scheme']} {case['dim']}D nb={case['nb']} ng={case['ng']} ns={case['ns']} rigid={case['rigid']} " + "".join(b["kind"][0] for b in sc["bodies"])


def subset(ck, case):
    """a solver restricted to some couplings / forces / obstacles acts as if the others did not exist"""
    import scen
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    sc = describe(case, rng)
    params = params_of(case, rng)
    keep = sorted(rng.choice(3, int(rng.integers(1, 3)), replace=False).tolist())
    sel = dict(b=[keep[i] for i in rng.permutation(len(keep))])
    # particle-mode gravity only on kept bodies in the reduced scene
    solver, z, m = register(sc, case, rng, True, params, solvers=[sel], rigid=case["rigid"])
    red = dict(sc, bodies=[sc["bodies"][i] for i in keep],
               forces=[F if F["kind"] != "gravity" or F["grid"] else dict(F, sel=[keep.index(i) for i in F["sel"] if i in keep]) for F in sc["forces"]])
    rsolver, rz, rm = register(red, case, rng, False, params)
    z0 = z
    ra = None
    for k, (a, b) in enumerate(zip(scen.run(solver, z, 3), scen.run(rsolver, rz, 3))):
        if k == 0:
            continue
        for j, i in enumerate(keep):
            same(ck, "unselected bodies do not act", view(b, rm, j), view(a, m, i), f"step {k} body {i} of {keep}", 1 + 30 * (k > 1))
        for i in range(3):
            if i not in keep:
                A, B = view(a, m, i), view(z0, m, i)
                for q in ("position_stack", "velocity_stack", "stress_stack", "volume_stack", "F_stack"):
                    ck.true("unselected bodies untouched", np.array_equal(A[q], B[q]), f"step {k} body {i}: {q}")
        ra = a
    # forces
    nf = list(range(len(sc["forces"]))) + (["damping"] if sc["damping"] is not None else [])
    drop = int(rng.integers(len(sc["forces"])))
    fs = [x for x in nf if x != drop]
    solver, z, m = register(sc, case, rng, True, params, solvers=[dict(f=fs)])
    red = dict(sc, forces=[F for i, F in enumerate(sc["forces"]) if i != drop])
    rsolver, rz, rm = register(red, case, rng, False, params)
    for k, (a, b) in enumerate(zip(scen.run(solver, z, 2), scen.run(rsolver, rz, 2))):
        if k:
            for i in range(3):
                same(ck, "unselected force", view(b, rm, i), view(a, m, i), f"step {k} body {i} without force {drop} ({sc['forces'][drop]['kind']})", 1 + 30 * (k > 1))
    # obstacles: the unselected one keeps its state and acts on nothing
    ns = len(sc["obs"])
    ks = sorted(rng.choice(ns, ns - 1, replace=False).tolist())
    fs = [i for i, F in enumerate(sc["forces"]) if F["kind"] != "collider" or F["obs"] in ks] + (["damping"] if sc["damping"] is not None else [])
    solver, z, m = register(sc, case, rng, bool(rng.integers(2)), params, solvers=[dict(s=ks, f=fs)])
    red = dict(sc, obs=[sc["obs"][q] for q in ks], forces=[dict(F, obs=ks.index(F["obs"])) if F["kind"] == "collider" else F for F in sc["forces"] if F["kind"] != "collider" or F["obs"] in ks])
    rsolver, rz, rm = register(red, case, rng, False, params)
    for k, (a, b) in enumerate(zip(scen.run(solver, z, 2), scen.run(rsolver, rz, 2))):
        if k:
            for i in range(3):
                same(ck, "unselected obstacle", view(b, rm, i), view(a, m, i), f"step {k} body {i} with obstacles {ks} of {ns}", 1 + 30 * (k > 1))
            ck.true("unselected obstacle", len(a.world.sdfs) == ns, "the unselected obstacle stays in the world")
            for q, o in enumerate(sc["obs"]):
                moves = k if q in ks else 0
                ck.close("unselected obstacle", f(a.world.sdfs[m["s"][q]].center_of_mass), o["c"] + o["v"] * 5e-4 * moves, 1e-6, "a selected obstacle moves, an unselected one rests")
                if case["dim"] == 2:
                    ck.close("unselected obstacle", float(f(a.world.sdfs[m["s"][q]].rotation)), float(o["w"]) * 5e-4 * moves, 1e-6, "a selected obstacle turns, an unselected one does not")
    # nothing selected is not the same as no selection
    if case["seed"] % 3 == 0:
        solver, z, m = register(dict(sc, damping=None), case, rng, True, params, solvers=[dict(s=[], f=[])])
        rsolver, rz, rm = register(dict(sc, obs=[], forces=[], damping=None), case, rng, False, params)
        for k, (a, b) in enumerate(zip(scen.run(solver, z, 2), scen.run(rsolver, rz, 2))):
            if k:
                for i in range(3):
                    same(ck, "nothing selected", view(b, rm, i), view(a, m, i), f"step {k} body {i} with no force and no obstacle selected", 1 + 30 * (k > 1))
                for q, o in enumerate(sc["obs"]):
                    ck.close("nothing selected", f(a.world.sdfs[m["s"][q]].center_of_mass), o["c"], 1e-6, "an unselected obstacle rests")
    return f"subset {case['scheme']} keep={sel['b']} drop={sc['forces'][drop]['kind']} obstacles={ks} of {ns} ng={case['ng']}"


def several(ck, case):
    """two solvers over disjoint couplings: each advances its own bodies as if alone"""
    import scen
    import jax
    import equinox as eqx
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    sc = describe(case, rng)
    sc["forces"] = [F for F in sc["forces"] if F["kind"] != "gravity" or F["grid"]]
    params = params_of(case, rng)
    perm = [int(i) for i in rng.permutation(3)]
    parts = [perm[:1], perm[1:]]
    solvers, z, m = register(sc, case, rng, True, params, solvers=[dict(b=parts[0]), dict(b=parts[1], s=[])] if False else [dict(b=p) for p in parts], rigid=case["rigid"])
    ck.true("several solvers", isinstance(solvers, list) and len(solvers) == 2, "one solver per registration")
    st = scen.as_arrays(z)
    f1, f2 = (eqx.filter_jit(s) for s in solvers)
    hist = [f1(st)]
    hist.append(f2(st))
    hist.append(f2(f1(st)))
    for j, keep in enumerate(parts):
        red = dict(sc, bodies=[sc["bodies"][i] for i in keep])
        rs, rz, rm = register(red, case, rng, False, params)
        r = eqx.filter_jit(rs)(scen.as_arrays(rz))
        for jj, i in enumerate(keep):
            same(ck, "several solvers", view(r, rm, jj), view(hist[j], m, i), f"solver {j} body {i}")
        for i in range(3):
            if i not in keep:
                A, B = view(hist[j], m, i), view(st, m, i)
                ck.true("several solvers", np.array_equal(A["position_stack"], B["position_stack"]) and np.array_equal(A["velocity_stack"], B["velocity_stack"]), f"solver {j} leaves body {i} alone")
    for i in parts[0]:
        A, B = view(hist[2], m, i), view(hist[0], m, i)
        ck.true("several solvers", np.array_equal(A["velocity_stack"], B["velocity_stack"]), "the second solver leaves the bodies of the first alone")
    ck.true("several solvers", jax.tree.structure(hist[2]) == jax.tree.structure(st), "structure kept")
    return f"several {case['scheme']} {parts} rigid={case['rigid']}"


def shared(ck, case):
    """parts used twice act like two equal parts: one law for two bodies, one shape in two places, one coupling under two schemes"""
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    import scen
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    L, n = 4.0, 20
    xs = [rng.uniform(lo, lo + 1.0, (n, 2)) for lo in (1.0, 1.8)]
    vs = [rng.normal(size=(n, 2)) for _ in xs]
    E, nu, r = float(10 ** rng.uniform(3, 5)), float(rng.uniform(0, .4)), float(rng.uniform(.3, .5))
    cs = [np.array([1.0, 1.2]), np.array([2.6, 2.9])]
    params = params_of(case, rng)
    other = dict(usl="usl_aflip", usl_aflip="usl")[case["scheme"]]

    def mk(one, schemes):
        sb = hdx.SimBuilder()
        sb.add_grid(origin=(0.0, 0.0), end=(L, L), cell_size=0.5)
        ps = [sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), mass_stack=jnp.full((n,), 50.0), volume_stack=jnp.full((n,), 0.05)) for x, v in zip(xs, vs)]
        law, ball = hdx.LinearElasticLaw(E=E, nu=nu), hdx.SphereSDF(radius=r)
        if one == "index":
            c = [sb.add_constitutive_law(law=law)] * 2
        else:
            c = [sb.add_constitutive_law(law=law if one else hdx.LinearElasticLaw(E=E, nu=nu)) for _ in ps]
        k = [sb.couple(p_idx=q, g_idx=0, c_idx=w) for q, w in zip(ps, c)]
        for i, com in enumerate(cs):
            o = ball if one else hdx.SphereSDF(radius=r)
            if one:
                s, st = sb.add_sdf_object(sdf_logic=o, sdf_state=o.create_state(center_of_mass=jnp.asarray(com), velocity=jnp.asarray([0.2, -0.3 * i])), return_state=True)
                ck.close("shared parts", f(st.center_of_mass), com, 1e-6, "given obstacle state is used")
            else:
                s = sb.add_sdf_object(sdf_logic=o, center_of_mass=jnp.asarray(com), velocity=jnp.asarray([0.2, -0.3 * i]))
            sb.add_sdf_collider(sdf_idx=s, friction=0.3)
        for sch in schemes:
            sb.set_solver(scheme=sch, **(params if sch == case["scheme"] else dict(alpha=0.9)))
        solver, z = sb.build(dt=5e-4)
        return solver, z, k

    ref, z0, _ = mk(False, [case["scheme"]])
    hist = list(scen.run(ref, z0, 3))
    for one in (True, "index"):
        s1, z1, _ = mk(one, [case["scheme"]])
        for k, (a, b) in enumerate(zip(hist, scen.run(s1, z1, 3))):
            for i in range(2):
                for q in ("position_stack", "velocity_stack", "stress_stack", "F_stack"):
                    ck.true("shared parts", np.array_equal(f(getattr(a.world.material_points[i], q)), f(getattr(b.world.material_points[i], q))), f"step {k} body {i} {q}, one law {'object' if one is True else 'index'} for both")
            for i in range(2):
                ck.true("shared parts", np.array_equal(f(a.world.sdfs[i].center_of_mass), f(b.world.sdfs[i].center_of_mass)), f"step {k} obstacle {i}")
    # the same couplings under two schemes: the scheme in question does what it does alone
    for schemes in ([case["scheme"], other], [other, case["scheme"]]):
        both, z, _ = mk(False, schemes)
        ck.true("shared parts", isinstance(both, list) and len(both) == 2, "one solver per scheme")
        sol = both[schemes.index(case["scheme"])]
        b = eqx.filter_jit(sol)(scen.as_arrays(z))
        for i in range(2):
            for q in ("position_stack", "velocity_stack", "stress_stack", "F_stack"):
                ck.true("shared parts", np.array_equal(f(getattr(hist[1].world.material_points[i], q)), f(getattr(b.world.material_points[i], q))), f"{schemes}: body {i} {q}")
        c = eqx.filter_jit(both[schemes.index(other)])(b)
        ck.finite("shared parts", f(c.world.material_points[0].velocity_stack), f"{schemes}: the other scheme goes on from there")
    # no centre given: the middle of the box the obstacle names
    sb = hdx.SimBuilder()
    lo, hi = rng.uniform(-2, 0, 2), rng.uniform(1, 3, 2)
    i = sb.add_sdf_object(sdf_logic=hdx.DomainSDF(origin=lo.tolist(), end=hi.tolist()))
    ck.close("shared parts", f(sb.sdf_states[i].center_of_mass), (lo + hi) / 2, 1e-6, "centre of the bounding box")
    return f"shared {case['scheme']}"


def defaults(ck, case):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import scen
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    x = rng.uniform(1.2, 2.8, (10, 2))

    def mk(explicit, early=False):
        sb = hdx.SimBuilder()
        sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
        sb.add_material_points(position_stack=jnp.asarray(x + 0.1), mass_stack=jnp.ones(10), volume_stack=jnp.full((10,), 0.05))
        sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=0.1))
        sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=3.0, nu=0.2))
        g = sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.4)
        p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(np.tile([0.3, -2.0], (10, 1))), mass_stack=jnp.ones(10), volume_stack=jnp.full((10,), 0.05))
        c = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=50.0, nu=0.1))
        if not early:
            k = sb.couple(p_idx=p, g_idx=g, c_idx=c, shapefunction="cubic") if explicit else sb.couple()
        s = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=0.3), center_of_mass=jnp.array([3.5, 3.5]))
        s, st = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.array([0.0, 1.0])), center_of_mass=jnp.array([2.0, 1.0]), velocity=jnp.array([0.1, 0.0]), return_state=True)
        ck.close("defaults", f(st.center_of_mass), [2.0, 1.0], 1e-12, "returned obstacle state")
        if explicit:
            sb.add_sdf_collider(sdf_idx=s, g_idx_list=[0, 1], friction=1.0)
            sb.add_gravity(gravity=jnp.array([0.0, -9.0]), g_idx_list=[0, 1])
            sb.set_solver(scheme="usl", b_idx_list=[k], f_idx_list=[0, 1], sdf_idx_list=[0, 1])
        else:
            sb.add_sdf_collider()
            sb.add_gravity(gravity=jnp.array([0.0, -9.0]))
            if early:       # forces may be registered before the couplings they act through
                sb.couple()
            sb.set_solver(scheme="USL")
        solver, state = sb.build()
        ck.true("defaults", float(state.time) == 0 and int(state.step) == 0 and float(state.dt) == 1e-3, "default clock")
        sb.summary(dt=1e-3)
        return solver, state

    for a, b, c in zip(scen.run(*mk(True), 3), scen.run(*mk(False), 3), scen.run(*mk(False, True), 3)):
        for i in range(2):
            for q in ("position_stack", "velocity_stack", "stress_stack"):
                ck.true("defaults", np.array_equal(f(getattr(a.world.material_points[i], q)), f(getattr(b.world.material_points[i], q))), f"body {i} {q}")
                ck.true("defaults", np.array_equal(f(getattr(a.world.material_points[i], q)), f(getattr(c.world.material_points[i], q))), f"forces registered before couplings: body {i} {q}")
    sb = hdx.SimBuilder()
    for law in (hdx.DruckerPrager(K=1e4, nu=0.2, mu_1=0.3, mu_2=0.3), hdx.ModifiedCamClay(nu=0.3, M=1.1, lam=0.05, kap=0.01, N=1.7)):
        try:
            sb.add_constitutive_law(law=law)
            ok = False
        except ValueError:
            ok = True
        ck.true("defaults", ok, f"{type(law).__name__} without a state is refused")
    ck.true("defaults", len(sb.law_logics) == len(sb.law_states) == 0, "a refused law leaves nothing behind")
    for law in (hdx.NewtonFluid(K=1e4), hdx.MuI_LC(mu_s=0.3, mu_d=0.6, I_0=0.3, d_p=0.01)):
        i = sb.add_constitutive_law(law=law, density_stack=jnp.full((3,), 900.0))
        ck.close("defaults", f(sb.law_states[i].density_ref_stack), np.full(3, 900.0), 1e-3, "fluid state from density")
        j = sb.add_constitutive_law(law=law, density_stack=jnp.full((5,), 700.0))
        ck.close("defaults", f(sb.law_states[j].density_ref_stack), np.full(5, 700.0), 1e-3, "the same law with another density has a state of its own")
    gd = hdx.GridDomain.create((0.0, 0.0), (1.0, 1.0), 0.25) if hasattr(hdx, "GridDomain") else None
    if gd is not None:
        ck.true("defaults", sb.grid_domains[sb.add_grid(grid_domain=gd)] is gd, "given grid domain is used")
    return "defaults"
