"""C03: body forces add exactly mass*g*dt to the bodies they are assigned to, and to nothing else."""
import numpy as np

ID = "C03"
RULE = ("scenes with 1-3 bodies on shared or separate grids and 1-3 gravity fields (on grid or on particles, each restricted to a random "
        "subset of grids/bodies, registered in random order with other forces, re-assigned between steps); per grid: momentum gained = "
        "sum of selected m*g*dt and centre of mass follows symplectic Euler; non-trivial: distinct configurations with a non-zero selection")
ASSUMPTIONS = ["per-particle adaptive blending, clamping and separable position correction are off (they do not conserve momentum by design)"]
FLOOR = {"momentum gained": 100, "centre of mass": 100, "unselected unaffected": 10, "free-fall closed form": 4}


def gen_cases(rng, tier):
    cases = []
    for i in range(56 if tier == "quick" else 400):
        dim = 2 + i % 2
        scheme = ["usl", "usl_aflip"][(i // 2) % 2]
        nb = int(rng.integers(1, 4))
        split = nb > 1 and rng.random() < 0.7
        if i % 8 == 2:
            nb, split = max(nb, 2), True
        bodies = [dict(n=int(rng.integers(1, 25)), law=str(rng.choice(["elastic", "fluid", "mui", "dp", "mcc"])),
                       kernel=str(rng.choice(["linear", "quadratic", "cubic"])), grid=b if split else 0) for b in range(nb)]
        ng = nb if split else 1
        fields = []
        for k in range(int(rng.integers(1, 4))):
            on_grid = bool(rng.integers(0, 2))
            pool = ng if on_grid else nb
            sel = None if rng.random() < 0.35 else sorted(rng.choice(pool, int(rng.integers(1, pool + 1)), replace=False).tolist())
            fields.append(dict(on_grid=on_grid, sel=sel, g=(rng.normal(size=dim) * 10).tolist()))
        if i % 8 == 2:      # somebody is left out
            fields = [dict(fl, sel=[0]) for fl in fields]
        prm = dict(alpha=float(rng.choice([0.0, 0.6, 1.0])))
        if scheme == "usl_aflip":
            prm.update(use_dynamic_alpha=False, cfl_limit=1e7, beta_min=0.0, beta_max=0.0, small_mass_cutoff=1e-14)
        cases.append(dict(kind="mix", dim=dim, scheme=scheme, params=prm, bodies=bodies, grids=ng, fields=fields,
                          collider=bool(rng.random() < 0.3), cell=float(rng.choice([0.2, 1.0])), steps=4 if tier == "quick" else 12,
                          vary=bool(rng.random() < 0.4), x64=bool(i % 5), seed=int(rng.integers(1 << 30))))
        if i % 5 in (1, 3):
            import scen
            w = scen.wide(i // 5, rng)
            size = 10 ** rng.uniform(-3, 1.5) / w["clock"] ** 2
            cases[-1].update(cell=w["cell"], wide=w, fields=[dict(fl, g=[v * size for v in fl["g"]]) for fl in fields])
            if i % 10 == 3:
                bodies[0]["n"] = 600
            elif i % 10 == 6:      # many bodies and grids, chosen from
                bd = [dict(bodies[0], n=int(rng.integers(1, 10)), grid=k // 2 if split else k % 4) for k in range(5)]
                fl = [dict(on_grid=q, sel=sorted(rng.choice(4, 3, replace=False).tolist()), g=(rng.normal(size=dim) * 10 / w["clock"] ** 2).tolist()) for q in (False, True)] + \
                     [dict(on_grid=bool(rng.integers(2)), sel=None, g=(rng.normal(size=dim) * 10 / w["clock"] ** 2).tolist())]
                cases[-1].update(bodies=[dict(q, grid=q["grid"] % 4) for q in bd], grids=4, fields=fl)
    return cases


def run_case(ck, case):
    import scen
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    from vlib import sub_rng, eps_of
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], case["cell"]
    ids = []

    def hook(sb):
        for k, fl in enumerate(case["fields"]):
            if case["collider"] and k == len(case["fields"]) - 1:     # a far-away wall registered in between
                s = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=0.1 * h), center_of_mass=jnp.full((dim,), 1e3 * h))
                sb.add_sdf_collider(sdf_idx=s)
            kw = dict(g_idx_list=fl["sel"]) if fl["on_grid"] else dict(p_idx_list=fl["sel"])
            ids.append(sb.add_gravity(gravity=jnp.asarray(fl["g"]), is_apply_on_grid=fl["on_grid"], **kw))

    dt = 2e-3 * h
    spec = dict(dim=dim, scheme=case["scheme"], params=case["params"], cell=h, grids=case["grids"], bodies=case["bodies"], dt=dt, hook=hook)
    if "wide" in case:
        spec = scen.widened(spec, case["wide"])
        dt = spec["dt"]
    solver, state, info = scen.build(spec, rng)
    groups = {}
    for b, body in enumerate(case["bodies"]):
        groups.setdefault(body["grid"], []).append(b)
    G = [np.array(fl["g"]) for fl in case["fields"]]
    fn = eqx.filter_jit(solver)
    st = scen.as_arrays(state)
    hit = False
    hist = {g: None for g in groups}
    for k in range(case["steps"]):
        if case["vary"] and k:
            G = [g * rng.uniform(-1.5, 1.5) for g in G]
            st = eqx.tree_at(lambda s: tuple(s.mechanics.forces[i].gravity for i in ids), st,
                             tuple(jnp.asarray(g, dtype=st.mechanics.forces[i].gravity.dtype) for g, i in zip(G, ids)))
        a = scen.snapshot(st)
        st = fn(st)
        z = scen.snapshot(st)
        e = eps_of(st.world.material_points[0].velocity_stack)
        for g, bs in groups.items():
            want = np.zeros(dim)
            Mtot = sum(a[b]["mass"].sum() for b in bs)
            for fl, gv in zip(case["fields"], G):
                if fl["on_grid"]:
                    if fl["sel"] is None or g in fl["sel"]:
                        want = want + Mtot * gv
                else:
                    for b in bs:
                        if fl["sel"] is None or b in fl["sel"]:
                            want = want + a[b]["mass"].sum() * gv
            hit |= bool(np.abs(want).max() > 0)
            P0 = sum((a[b]["mass"][:, None] * a[b]["velocity"]).sum(0) for b in bs)
            P1 = sum((z[b]["mass"][:, None] * z[b]["velocity"]).sum(0) for b in bs)
            scale = sum((s[b]["mass"] * np.linalg.norm(s[b]["velocity"], axis=1)).sum() for s in (a, z) for b in bs)
            imp = sum((a[b]["volume"] * np.linalg.norm(a[b]["stress"], axis=(1, 2))).sum() for b in bs) * 4 / h * dt
            gs = dt * Mtot * sum(np.abs(x).max() for x in G)
            tol = (300 + 10 * abs(case.get('wide', {}).get('far', 0))) * e * (scale + imp + gs) + 1e-10 * (np.abs(np.concatenate([z[b]["velocity"] for b in bs])).max())
            name = "momentum gained" if np.abs(want).max() > 0 else "unselected unaffected"
            ck.close(name, P1 - P0, dt * want, tol, f"step {k} grid {g} fields {case['fields']}")
            c0 = sum((a[b]["mass"][:, None] * a[b]["position"]).sum(0) for b in bs)
            c1 = sum((z[b]["mass"][:, None] * z[b]["position"]).sum(0) for b in bs)
            xs = Mtot * (20 * h + max(np.abs(a[b]['position']).max() for b in bs))
            ck.close("centre of mass", c1 - c0, dt * (P0 + dt * want), dt * tol + 40 * e * xs, f"step {k} grid {g}")
            # history: closed form over all steps so far
            if hist[g] is None:
                hist[g] = dict(P=P0, C=c0, tol=0.0, ct=0.0)
            H = hist[g]
            H["P"] = H["P"] + dt * want
            H["C"] = H["C"] + dt * H["P"]
            H["tol"] += tol
            H["ct"] += dt * H["tol"] + 40 * e * xs
            ck.close("free-fall closed form", P1, H["P"], H["tol"], f"after {k + 1} steps grid {g}")
            ck.close("free-fall closed form", c1, H["C"], H["ct"], f"after {k + 1} steps grid {g}")
    if hit:
        return f"{dim}D {case['scheme']} " + " ".join(f"{'g' if f_['on_grid'] else 'p'}{f_['sel']}" for f_ in case["fields"]) + \
               f" {[(b['law'], b['kernel'], b['grid']) for b in case['bodies']]}"
