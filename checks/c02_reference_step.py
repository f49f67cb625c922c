"""C02: every step applies exactly the documented particle/grid update (independent reference model as online monitor)."""
import numpy as np

ID = "C02"
RULE = ("random scenes (2D/3D, both schemes, all kernels, several bodies on shared or separate grids, random blending, support, "
        "position-correction, clamp and cutoff parameters, gravity on grid or particles), each observed step compared with an independent dense "
        "numpy model resynchronised from the observed state; non-trivial: distinct configurations whose velocities changed")
ASSUMPTIONS = ["deformation is not judged of points that are turned inside out within one step (at the rim of the domain, or by a light node)", "the grid-level effect of gravity, damping and colliders is checked by their own properties",
               "round-off tolerance scaled by the sum of absolute contributions"]
FLOOR = {"velocity": 500, "position": 500, "deformation gradient": 500, "velocity gradient": 500, "clamped": 5,
         "dynamic alpha interior": 5, "dynamic alpha saturated": 5, "beta_min branch": 20, "beta_max branch": 20, "tiny node mass": 5}


def gen_cases(rng, tier):
    cases = []
    for i in range(64 if tier == "quick" else 520):
        dim = 3 if i % 3 == 2 else 2
        scheme = "usl" if i % 3 == 0 else "usl_aflip"
        nb = int(rng.integers(1, 4))
        split = bool(rng.integers(0, 2)) and nb > 1
        classic = scheme == "usl_aflip" and rng.random() < 0.25
        kern = ["quadratic", "cubic"] if classic else ["linear", "quadratic", "cubic"]
        bodies = []
        for b in range(nb):
            law = str(rng.choice(["elastic", "fluid", "mui", "dp", "mcc"]))
            d = dict(law=law, kernel=str(rng.choice(kern)), grid=b if split else 0, vel=float(rng.choice([0.1, 1.0, 5.0])),
                     n=int(rng.integers(1, 25)))
            if rng.random() < 0.4:
                d.update(lattice=float(rng.choice([0.5, 0.8, 1.4])), box=[0.35, 0.65], jitter=0.3)
            if rng.random() < 0.3:
                d["store_F"] = True
            bodies.append(d)
        prm = dict(alpha=float(rng.choice([0.0, 0.5, 0.97, 1.0])))
        if scheme == "usl_aflip":
            prm.update(use_dynamic_alpha=bool(rng.random() < 0.6), use_mls_update=not classic)
            if rng.random() < 0.6:
                lo = float(rng.uniform(0.3, 1.2))
                prm.update(alpha_support_min=lo, alpha_support_max=lo + float(rng.uniform(0.2, 2.0)))
            if rng.random() < 0.6:
                prm.update(beta_min=float(rng.uniform(0, 1)), beta_max=float(rng.uniform(0, 1)))
            if rng.random() < 0.7:
                prm.update(cfl_limit=float(rng.choice([1e-3, 5e-3, 0.2])))
            if rng.random() < 0.5:
                prm.update(small_mass_cutoff=float(rng.choice([1e-12, 1e-2])))
        cases.append(dict(dim=dim, scheme=scheme, params=prm, bodies=bodies, grids=nb if split else 1,
                          cell=float(rng.choice([0.1, 0.5, 1.0])), gravity=bool(rng.integers(0, 2)), g_on_grid=bool(rng.integers(0, 2)),
                          drift=float(rng.choice([0.4, 1.3, 3.0])) if i % 4 == 1 else 0.0,
                          steps=3 if tier == "quick" else 8, x64=bool(i % 6), seed=int(rng.integers(1 << 30))))
        if i % 3 == 1 or i % 6 == 3:
            widen(cases[-1], rng, i)
    return cases


def widen(case, rng, i):
    """The same scenes at other sizes: cells, clocks, masses, places, numbers of points, nodes, bodies, forces and obstacles."""
    j = i // 3
    case.update(cell=[0.02, 0.1, 1.0, 4.0, 20.0][(j + j // 5) % 5], clock=[0.003, 0.05, 1.0, 30.0, 1000.0][(2 * j + j // 5) % 5], start=float(rng.choice([0.0, 2.0, 300.0])), far=float(rng.choice([0, 30.0, -200.0])),
                mass=float(rng.choice([1e-4, 1.0, 1e3])), strain=float(rng.choice([0.0, 0.25, 0.5])), forces=int(rng.integers(0, 5)), obstacles=int(rng.integers(0, 5)), x64=True)
    kind = i // 3 % 5
    if kind == 0:        # many nodes
        case["wide"] = [230, 230] if case["dim"] == 2 else [37, 37, 37]
        case["bodies"] = [dict(b, n=min(b["n"], 8)) for b in case["bodies"][:1]]
        case["grids"] = 1
        case["bodies"][0].update(grid=0)
        case["bodies"][0].pop("lattice", None)
        case["steps"] = 2
    elif kind == 1:      # many points
        b = case["bodies"][0]
        b["n"] = int(rng.choice([300, 1100]))
        b.pop("lattice", None)
        case["steps"] = 2
    elif kind == 2:      # many bodies
        case["bodies"] = [dict(case["bodies"][k % len(case["bodies"])], law=["elastic", "fluid", "dp"][k % 3], n=[1, 2, 9, 1, 6][k]) for k in range(5)]
    elif kind == 3:      # long and thin
        case["wide"] = [8.0, 60.0] if case["dim"] == 2 else [6.0, 6.0, 40.0]
    for b in case["bodies"]:
        if case["mass"] != 1:
            b["law"] = "elastic"


def run_case(ck, case):
    import scen
    import ref
    import jax.numpy as jnp
    import equinox as eqx
    from vlib import sub_rng, eps_of
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], case["cell"]
    g = rng.normal(size=dim) * 10 if case["gravity"] else None
    ts = case.get("clock", 1.0)      # everything that has to do with time in another unit
    dt = 4e-3 * h * ts
    if g is not None:
        g = g / ts**2
    scaled = [dict(b, vel=b["vel"] / ts, stiff=1 / ts**2) for b in case["bodies"]]

    def hook(sb):
        import hydraxmpm as hdx
        for j in range(case.get("forces", 0)):
            sb.add_gravity(gravity=jnp.zeros(dim), is_apply_on_grid=bool(j % 2), p_idx_list=[0], g_idx_list=[0])
        for j in range(case.get("obstacles", 0)):
            s_idx = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=h), center_of_mass=jnp.asarray(np.array(spec["origin"]) - (1000 + 7 * j) * h))
            sb.add_sdf_collider(sdf_idx=s_idx, friction=0.5)

    spec = dict(dim=dim, hook=hook, time=case.get("start", 0.0), step=int(case.get("start", 0) * 1000), scheme=case["scheme"], params=case["params"], cell=h, grids=case["grids"], bodies=scaled, dt=dt,
                L=np.array(case.get("wide", 6 if dim == 3 else 8)) * h, origin=list((rng.uniform(-3, 3, dim) + case.get("far", 0)) * h), gravity=g, g_on_grid=case["g_on_grid"])
    solver, state, info = scen.build(spec, rng)
    if case.get("drift"):      # everything moves several cells within the observed steps, some of it out of the domain
        d = rng.normal(size=dim)
        d *= case["drift"] * h / dt / np.linalg.norm(d)
        state = eqx.tree_at(lambda s: [m.velocity_stack for m in s.world.material_points], state,
                            [m.velocity_stack + jnp.asarray(d, m.velocity_stack.dtype) for m in state.world.material_points])
    if case.get("mass", 1.0) != 1:
        state = eqx.tree_at(lambda s: [m.mass_stack for m in s.world.material_points], state, [m.mass_stack * case["mass"] for m in state.world.material_points])
    if case.get("strain"):      # already deformed
        Fs = []
        for m in state.world.material_points:
            q = np.zeros((m.num_points, 3, 3))
            q[:, :dim, :dim] = np.eye(dim) + rng.uniform(-1, 1, (m.num_points, dim, dim)) * case["strain"]
            q[:, dim:, dim:] = np.eye(3 - dim)
            q[np.linalg.det(q) < 0.2] = np.eye(3)
            Fs.append(q)
        state = eqx.tree_at(lambda s: [a for m in s.world.material_points for a in (m.F_stack, m.volume_stack)], state,
                            [a for q, m in zip(Fs, state.world.material_points) for a in (jnp.asarray(q, m.F_stack.dtype), jnp.asarray(np.linalg.det(q), m.F_stack.dtype) * m.volume0_stack)])
    P = case["params"]
    aflip = case["scheme"] == "usl_aflip"
    prm = dict(scheme=case["scheme"], alpha=P["alpha"], cutoff=P.get("small_mass_cutoff", 1e-7) if aflip else 1e-12,
               dyn=P.get("use_dynamic_alpha", True), smin=P.get("alpha_support_min", 1.1), smax=P.get("alpha_support_max", 1.5),
               bmin=P.get("beta_min", 0.0), bmax=P.get("beta_max", 0.5), cfl=P.get("cfl_limit", 0.5), mls=P.get("use_mls_update", True))
    grids = [ref.Grid.of(d) for d in solver.grid_domains]
    groups = {}
    for b, body in enumerate(case["bodies"]):
        groups.setdefault(body["grid"], []).append(b)
    prev, pst, moved = None, None, 0.0
    nclamp = 0
    for k, st in enumerate(scen.run(solver, state, case["steps"])):
        sn = scen.snapshot(st)
        e = eps_of(st.world.material_points[0].velocity_stack)
        if prev is not None and not all(np.isfinite(s[q]).all() for s in prev for q in ("position", "velocity", "stress", "F", "volume")):
            break
        # blown up (the method's own limit): rounding is amplified beyond any bound
        if prev is not None and any(np.abs(s["F"]).max() > 1e3 or np.abs(s["velocity"]).max() * dt > 1e3 * h or (s["volume"] <= 0).any() or (s["volume"] > 1e9 * s["volume0"]).any() for s in prev):
            ck.saw("blown up", 1)
            break
        if prev is not None:
            for gi, bs in groups.items():
                grid = grids[gi]
                bodies = []
                for b in bs:
                    s = prev[b]
                    d = dict(x=s["position"], v=s["velocity"], m=s["mass"], V=s["volume"], V0=s["volume0"], stress=s["stress"],
                             F=s["F"], F_store=s["F_store"], kernel=case["bodies"][b]["kernel"], idx=b)
                    if aflip:
                        d["Bp"] = np.asarray(pst.mechanics.solvers[b].Bp_stack, float)
                    if g is not None and not case["g_on_grid"]:
                        d["fext"] = s["mass"][:, None] * g
                    bodies.append(d)
                M, Pm, Fo = ref.p2g(grid, bodies)
                if g is not None and case["g_on_grid"]:
                    Fo = Fo + M[:, None] * g
                # round-off: the code's float sums, divided by the (possibly tiny) node mass but re-weighted by the kernel
                vmax = max(np.abs(d["v"]).max() for d in bodies) + 1e-30
                if aflip:
                    vmax += max(np.abs(d["Bp"]).max() for d in bodies) * 2 * h
                near = np.abs(M - prm["cutoff"]) < 1e-3 * prm["cutoff"]     # mass on the edge of the cutoff: undecided
                ck.saw("tiny node mass", ((M > 0) & (M <= prm["cutoff"])).sum())
                for d in bodies:
                    o = ref.g2p(grid, d, M, Pm, Pm + dt * Fo, dt, prm)
                    s1, s0 = sn[d["idx"]], prev[d["idx"]]
                    n = len(d["x"])
                    W, G = d["W"], d["G"]
                    bad = (W[:, near] > 0).any(1)
                    Ms = np.where(M > prm["cutoff"], M, np.inf)
                    # absolute sizes of everything that enters node velocities
                    A = sum((dd["W"] * dd["m"][:, None]).T @ np.abs(dd["v"]).max(1) for dd in bodies)
                    if aflip:
                        A = A + sum((dd["W"] * dd["m"][:, None]).T @ (np.abs(dd["Bp"]).max((1, 2)) * 6 * h) for dd in bodies)
                    A = A + dt * (sum((np.abs(dd["G"]).max(-1) * (dd["V"] * np.abs(dd["stress"]).max((1, 2)))[:, None]).sum(0)
                                      for dd in bodies) * 3 + M * (0 if g is None else np.abs(g).max()))
                    # the kernel values themselves carry an absolute error ~ eps*(position/h)
                    pos = (np.abs(d["x"]).max() + np.abs(grid.origin).max()) / h + 8
                    dW = sum((np.abs(dd["G"]).max(-1) * h).T @ (dd["m"] * np.abs(dd["v"]).max(1)) for dd in bodies)
                    dF = dt * sum(((dd["W"] > 0) / h ** 2).T @ (dd["V"] * np.abs(dd["stress"]).max((1, 2))) for dd in bodies) * h
                    dM = sum((np.abs(dd["G"]).max(-1) * h).T @ dd["m"] for dd in bodies)
                    nv = (A + pos * (dW + dF + dM * vmax)) / Ms
                    vn = np.where(M > prm["cutoff"], A / np.maximum(M, 1e-300), 0)
                    tv = 40 * e * (W @ nv + pos * (np.abs(G).max(-1) * h) @ vn + pos * vmax) + 1e-30
                    tg = 40 * e * (np.abs(G).max(-1) @ nv + pos * ((W > 0) / h) @ vn + pos * vmax / h)
                    if not prm["mls"]:
                        tg = tg + 40 * e * (W @ nv) * 12 / h + 40 * e * pos * (np.abs(G).max(-1) @ vn) * 12
                    # with vanishing support the dynamic factor amplifies errors of the ratio
                    if prm["dyn"] and aflip:
                        tv = tv + 40 * e * pos * 10 * prm["alpha"] * np.abs(d["v"]).max() / (prm["smax"] - prm["smin"])
                        frac = (o["ratio"] - prm["smin"]) / (prm["smax"] - prm["smin"])
                        ck.saw("dynamic alpha interior", ((frac > 0.01) & (frac < 0.99)).sum())
                        ck.saw("dynamic alpha saturated", ((frac <= 0) | (frac >= 1)).sum())
                    if aflip:
                        ck.saw("clamped", (o["speed"] > o["vmax"]).sum())
                        near1 = np.abs(o["J"] - 1) < 100 * e + 10 * dt * tg      # compression/expansion undecided
                        ck.saw("beta_min branch", ((o["J"] < 1) & ~near1).sum())
                        ck.saw("beta_max branch", ((o["J"] > 1) & ~near1).sum())
                    else:
                        near1 = np.zeros(n, bool)
                    g1 = ~bad
                    where = f"step {k} body {d['idx']} ({case['bodies'][d['idx']]['law']}/{d['kernel']})"
                    ck.close("velocity", s1["velocity"][g1], o["v"][g1], tv[g1, None] * 3, where)
                    g2 = g1 & ~near1
                    xt = dt * tv * 3 + 8 * e * np.abs(d["x"]).max(1) + 1e-30
                    ck.close("position", s1["position"][g2], o["x"][g2], xt[g2, None], where)
                    ck.close("velocity gradient", s1["L"][g1], o["L"][g1], tg[g1, None, None] * 3, where)
                    if aflip:
                        bp = np.asarray(st.mechanics.solvers[d["idx"]].Bp_stack, float)
                        if dim == 2:
                            bp, wb = bp[:, :2, :2], o["Bp"][:, :2, :2]
                        else:
                            wb = o["Bp"]
                        ck.close("affine matrix", bp[g1], wb[g1], tg[g1, None, None] * 3, where)
                    fs = np.abs(d["F"]).max((1, 2)) * 3
                    f1 = np.maximum(fs, 3 * np.abs(o["F"]).max((1, 2)))
                    g3 = g1 & (o["J"] > 0)      # not turned inside out
                    if d["F_store"] is not None:
                        ck.close("deformation gradient (stored)", s1["F_store"][g1], o["F_store"][g1],
                                 (dt * tg * np.abs(d["F_store"]).max((1, 2)) * 9 + 20 * e * 3)[g1, None, None], where)
                    law = case["bodies"][d["idx"]]["law"]
                    if law == "dp":      # keeps the full F; the others reduce it to its volumetric part
                        ck.close("deformation gradient", s1["F"][g1], o["F"][g1], (dt * tg * fs * 3 + 20 * e * fs)[g1, None, None], where)
                    else:
                        ck.close("deformation gradient", np.linalg.det(s1["F"])[g3], o["J"][g3], (9 * dt * tg * fs * f1 ** (dim - 1) + 60 * e * f1 ** dim)[g3], where)
                    ck.close("volume", s1["volume"][g3], o["V"][g3], ((9 * dt * tg * fs * f1 ** (dim - 1) + 60 * e * f1 ** dim) * d["V0"])[g3], where)
                    moved = max(moved, np.abs(s1["velocity"] - s0["velocity"]).max())
        prev, pst = sn, st
    if moved > 1e-6:
        return f"{dim}D {case['scheme']} {sorted(P.items())} " + "+".join(f"{b['law']}/{b['kernel']}@{b['grid']}" for b in case["bodies"])
