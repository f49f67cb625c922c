"""C08: rigid colliders: non-penetration, Coulomb limit, no adhesion, no action at a distance, exact node response."""
import numpy as np

ID = "C08"
RULE = ("particle clouds thrown at planes, spheres, boxes, domains and composites that are static, translating or spinning, with random friction, "
        "several colliders and grids; each step compared with an independent node model and with the Coulomb cone on total wall impulse; "
        "long runs watch penetration; non-trivial: distinct configurations in which a collider changed momentum")
ASSUMPTIONS = ["contact acts on grid nodes up to one cell outside the surface (the documented contact band)"]
FLOOR = {"contact response": 200, "coulomb cone": 10, "no adhesion": 10, "far particles unaffected": 50, "wall changed momentum": 20,
         "no penetration": 500, "unlisted grid unaffected": 5}


def gen_cases(rng, tier):
    cases = []
    q = tier == "quick"
    for i in range(44 if q else 320):
        dim = 2 + i % 2
        kinds = ["plane", "sphere", "box", "domain", "composite"]
        nc = 1 if i % 5 < 2 else int(rng.choice([1, 2, 3, 4], p=[.4, .3, .15, .15]))
        cols = []
        for c in range(nc):
            k = kinds[(i // 2 + c) % len(kinds)]
            cols.append(dict(kind=k, friction=float(rng.choice([0.0, 0.2, 0.7, 1.0, 5.0])), motion=str(rng.choice(["static", "moving", "spinning"])),
                             grids=None))
        split = rng.random() < 0.35
        if split:
            for c in cols:
                c["grids"] = [[0], [1], [0, 1], None][int(rng.integers(0, 4))]
        speed = [1.0, 1.0, 1e-5, 1.0, 1e-2][i % 5]         # creeping contact obeys the same law
        bodies = [dict(law=str(rng.choice(["elastic", "dp"])), kernel=str(rng.choice(["linear", "quadratic", "cubic"])), n=int(rng.integers(1, 30)),
                       vel=speed, stress_free=True, box=(0.15, 0.85), grid=b if split else 0) for b in range(2 if split else 1)]
        cases.append(dict(what="step", dim=dim, scheme=["usl", "usl_aflip"][int(rng.integers(0, 2))], bodies=bodies, cols=cols, grids=2 if split else 1,
                          alpha=float(rng.choice([0.0, 0.9])), steps=3 if q else 8, gravity=bool(rng.integers(0, 2)), h=float(rng.choice([0.1, 0.5, 4.0])), speed=speed,
                          pace=[1.0, 0.02, 3.0, 0.2][(i + i // 4) % 4], start=float(rng.choice([0.0, 2.0, 400.0])), idle=int(rng.integers(0, 4)),
                          seed=int(rng.integers(1 << 30))))
    for i in range(8 if q else 40):
        dim = 2 if i % 4 < 3 else 3
        cases.append(dict(what="long", dim=dim, scheme=["usl", "usl_aflip"][i % 2], kind=["plane", "domain", "sphere", "moving"][i % 4] if i % 4 < 3 else "plane",
                          law=["elastic", "dp", "fluid", "mcc"][int(rng.integers(0, 3))], kernel=str(rng.choice(["linear", "quadratic", "cubic"])),
                          friction=float(rng.choice([0.0, 0.5])), steps=250 if q else 1500, seed=int(rng.integers(1 << 30))))
    return cases


def random_collider(rng, kind, dim, L):
    import sdfref
    c = np.full(dim, L / 2)
    if kind == "plane":
        n = rng.normal(size=dim)
        return dict(kind="plane", normal=(n / np.linalg.norm(n)).tolist()), c + rng.uniform(-0.2, 0.2, dim) * L
    if kind == "sphere":
        return dict(kind="sphere", radius=float(rng.uniform(0.1, 0.3) * L)), c + rng.uniform(-0.2, 0.2, dim) * L
    if kind == "box":
        return dict(kind="box", size=(rng.uniform(0.2, 0.5, dim) * L).tolist()), c + rng.uniform(-0.2, 0.2, dim) * L
    if kind == "domain":
        return dict(kind="domain", origin=(rng.uniform(0.1, 0.3, dim) * L).tolist(), end=(rng.uniform(0.7, 0.9, dim) * L).tolist(),
                    frictions=rng.uniform(0, 1, 2 * dim).tolist()), np.zeros(dim)
    if kind == "composite":
        return dict(kind="composite", frictions=rng.uniform(0, 1, 2).tolist(), shapes=[
            dict(kind="sphere", radius=float(rng.uniform(0.1, 0.3) * L)),
            dict(kind="box", size=(rng.uniform(0.1, 0.6, dim) * L).tolist())]), c + rng.uniform(-0.2, 0.2, dim) * L
    raise KeyError(kind)


def run_case(ck, case):
    return (step_case if case["what"] == "step" else long_case)(ck, case)


def step_case(ck, case):
    import scen
    import ref
    import sdfref
    import jax.numpy as jnp
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], case["h"]
    L = (6 if dim == 3 else 8) * h
    dt = 5e-3 * min(h, 0.5) * case.get("pace", 1.0)
    sp = case.get("speed", 1.0)
    cols = []

    def hook(sb):
        for j in range(case.get("idle", 0)):
            sb.add_gravity(gravity=jnp.zeros(dim), is_apply_on_grid=bool(j % 2), p_idx_list=[0], g_idx_list=[0])
        if case["gravity"]:
            sb.add_gravity(gravity=jnp.asarray([0.0] * (dim - 1) + [-9.81 * sp]))
        for c in case["cols"]:
            shape, com = random_collider(rng, c["kind"], dim, L)
            vel = np.zeros(dim) if c["motion"] == "static" else rng.normal(size=dim) * sp
            om = (0.0 if dim == 2 else np.zeros(3)) if c["motion"] != "spinning" else (float(rng.normal()) * sp if dim == 2 else rng.normal(size=3) * sp)
            if shape["kind"] == "domain":
                vel, om = np.zeros(dim), (0.0 if dim == 2 else np.zeros(3))
            if dim == 2:
                rot = float(rng.uniform(-3, 3))
            else:
                rot = rng.normal(size=4)
                rot /= np.linalg.norm(rot)
            s = sb.add_sdf_object(sdf_logic=sdfref.make(shape), center_of_mass=jnp.asarray(com), velocity=jnp.asarray(vel),
                                  angular_velocity=om if dim == 2 else jnp.asarray(om), rotation=rot if dim == 2 else jnp.asarray(rot))
            cols.append(dict(shape=shape, com=com, vel=vel, om=om, R=sdfref.R_of(rot, dim), s=s, spec=c))
        for c in cols:
            sb.add_sdf_collider(sdf_idx=c["s"], friction=c["spec"]["friction"], g_idx_list=c["spec"]["grids"])

    prm = dict(alpha=case["alpha"])
    aflip = case["scheme"] == "usl_aflip"
    if aflip:
        prm.update(cfl_limit=1e6, use_dynamic_alpha=False, small_mass_cutoff=1e-13)
    spec = dict(dim=dim, scheme=case["scheme"], params=prm, cell=h, grids=case["grids"], bodies=case["bodies"], dt=dt, L=L, hook=hook, time=case.get("start", 0.0), step=int(case.get("start", 0.0) * 100))
    solver, state, info = scen.build(spec, rng)
    rp = dict(scheme=case["scheme"], alpha=case["alpha"], cutoff=1e-13 if aflip else 1e-12, dyn=False, smin=1, smax=2, bmin=0.0, bmax=0.5, cfl=1e6, mls=True)
    grids = [ref.Grid.of(d) for d in solver.grid_domains]
    g = np.array([0.0] * (dim - 1) + [-9.81 * sp]) if case["gravity"] else np.zeros(dim)
    groups = {}
    for b, body in enumerate(case["bodies"]):
        groups.setdefault(body["grid"], []).append(b)
    prev, pst, hit = None, None, 0.0
    for k, st in enumerate(scen.run(solver, state, case["steps"])):
        sn = scen.snapshot(st)
        if prev is not None:
            for c in cols:      # rigid motion of the obstacles, once per step, before contact
                c["com"] = c["com"] + dt * c["vel"]
                c["R"] = sdfref.rot2(dt * c["om"]) @ c["R"] if dim == 2 else sdfref.rotvec_matrix(dt * np.asarray(c["om"])) @ c["R"]
                R = sdfref.R_of(np.asarray(st.world.sdfs[c["s"]].rotation, float), dim)
                if np.abs(R - c["R"]).max() < 1e-4:      # the integration of rotations is third order and judged by C10
                    c["R"] = R
            for gi, bs in groups.items():
                grid = grids[gi]
                bodies = [dict(x=prev[b]["position"], v=prev[b]["velocity"], m=prev[b]["mass"], V=prev[b]["volume"], V0=prev[b]["volume0"],
                               stress=prev[b]["stress"], F=prev[b]["F"], kernel=case["bodies"][b]["kernel"],
                               Bp=np.asarray(pst.mechanics.solvers[b].Bp_stack, float) if aflip else None) for b in bs]
                M, P, Fo = ref.p2g(grid, bodies)
                Pn = P + dt * (Fo + M[:, None] * g)
                free = Pn.copy()
                ok = M > 1e-14
                v = np.where(ok[:, None], Pn / np.where(ok, M, 1.0)[:, None], 0)
                vs = max(np.abs(v).max(), sp)
                unsure, touched = np.zeros(len(M), bool), np.zeros(len(M), bool)
                cones = []
                for c in cols:
                    gl = c["spec"]["grids"]
                    if gl is not None and gi not in gl:
                        ck.saw("unlisted grid unaffected")
                        continue
                    X = grid.X
                    d = sdfref.distance(c["shape"], X, c["com"], c["R"])
                    n = sdfref.domain_normal(c["shape"], X) if c["shape"]["kind"] == "domain" else sdfref.normal_fd(c["shape"], X, c["com"], c["R"], 1e-6 * h)
                    ln = np.linalg.norm(n, axis=1)
                    inside = d - h <= 0
                    kink = np.abs(ln - 1) > 1e-6            # distance not differentiable there: any sub-gradient is fine
                    if c["shape"]["kind"] == "domain":
                        dd = np.sort(np.concatenate([X - np.array(c["shape"]["origin"]), np.array(c["shape"]["end"]) - X], 1), 1)
                        kink = dd[:, 1] - dd[:, 0] < 1e-5 * h
                    if c["shape"]["kind"] in ("box", "composite"):      # medial axis
                        n2 = sdfref.normal_fd(c["shape"], X, c["com"], c["R"], 3e-3 * h)
                        kink |= np.abs(n2 - n).max(1) > 0.05
                    unsure |= (np.abs(d - h) < 1e-5 * h) | (inside & kink)
                    n = n / np.maximum(ln, 1e-12)[:, None]
                    vw = sdfref.velocity(X, c["com"], c["vel"], c["om"])
                    mu = c["spec"]["friction"] * sdfref.friction(c["shape"], X, c["com"], c["R"])
                    vr = v - vw
                    vn = (vr * n).sum(1)
                    dv = np.maximum(0, -vn)
                    vt = vr - vn[:, None] * n
                    lt = np.linalg.norm(vt, axis=1)
                    red = np.minimum(lt, mu * dv)
                    vnew = vw + np.maximum(vn, 0)[:, None] * n + vt * (1 - red / np.maximum(lt, 1e-300))[:, None]
                    act = inside & ok
                    touched |= act & (dv > 0)
                    v = np.where(act[:, None], vnew, v)
                    if c["shape"]["kind"] == "plane" and len(cols) == 1:
                        cones.append((n[0], mu[0]))
                Pc = np.where(ok[:, None], v * M[:, None], Pn)
                for b, body in zip(bs, bodies):
                    o = ref.g2p(grid, body, M, P, Pc, dt, rp)
                    f0 = ref.g2p(grid, body, M, P, free, dt, rp)
                    s1 = sn[b]
                    near = (body["W"][:, unsure] > 0).any(1)
                    w = f"step {k} grid {gi} {[c['spec'] for c in cols]}"
                    tol = 2e-6 * vs
                    ck.close("contact response", s1["velocity"][~near], o["v"][~near], tol, w)
                    # compression or expansion undecided: either correction of the position is right
                    sure = ~near & ((np.abs(o["J"] - 1) > 40 * dt * tol / h + 1e-12) | (case["scheme"] == "usl"))
                    ck.close("contact response", s1["position"][sure], o["x"][sure], dt * tol + 1e-12, w + " position")
                    far = ~((body["W"][:, touched | unsure] > 0).any(1))
                    ck.close("far particles unaffected", s1["velocity"][far], f0["v"][far], 1e-9 * vs, w)
                    if cones and not near.any():
                        n, mu = cones[0]
                        # PIC-like part of the impulse: what the wall gave the grid
                        dP = (body["m"][:, None] * (s1["velocity"] - f0["v"])).sum(0)
                        dn = dP @ n
                        dT = np.linalg.norm(dP - dn * n)
                        sc = (body["m"] * vs).sum()
                        ck.true("no adhesion", dn >= -1e-9 * sc, f"{w}: normal impulse {dn}")
                        ck.true("coulomb cone", dT <= mu * dn + 1e-6 * sc, f"{w}: tangential {dT} > mu*normal {mu * dn}")
                    dv = np.abs(s1["velocity"] - f0["v"]).max()
                    hit = max(hit, dv)
                    if dv > 1e-6 * sp:
                        ck.saw("wall changed momentum")
        prev, pst = sn, st
    if hit > 1e-6 * sp:
        return f"{dim}D {case['scheme']} speed={sp} a={case['alpha']} {[(c['kind'], c['friction'], c['motion'], c['grids']) for c in case['cols']]} " \
               f"{[(b['law'], b['kernel'], b['grid']) for b in case['bodies']]}"


def long_case(ck, case):
    """a block driven into an obstacle for a long time never tunnels, and never gains speed from a static wall"""
    import scen
    import sdfref
    import jax.numpy as jnp
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], 0.5
    L = 8 * h
    kind = case["kind"]
    up = np.array([0.0] * (dim - 1) + [1.0])
    if kind == "plane":
        shape, com = dict(kind="plane", normal=up.tolist()), up * 0.25 * L
    elif kind == "domain":
        shape, com = dict(kind="domain", origin=[0.2 * L] * dim, end=[0.8 * L] * dim, frictions=0.3), np.zeros(dim)
    else:
        shape, com = dict(kind="sphere", radius=0.25 * L), np.full(dim, 0.5 * L) - up * 0.25 * L

    def hook(sb):
        sb.add_gravity(gravity=jnp.asarray(-9.81 * up))
        s = sb.add_sdf_object(sdf_logic=sdfref.make(shape), center_of_mass=jnp.asarray(com))
        sb.add_sdf_collider(sdf_idx=s, friction=case["friction"])

    b = dict(law=case["law"], kernel=case["kernel"], lattice=0.5, jitter=0.2, box=(0.55, 0.75) if kind != "domain" else (0.4, 0.6), vel=0.0,
             stress_free=case["law"] in ("elastic", "dp"), v0=(-2.0 * up).tolist(), stiff=3.0)
    dt = 2e-3 if case["law"] != "fluid" else 1e-3
    solver, state, info = scen.build(dict(dim=dim, scheme=case["scheme"], params={}, cell=h, L=L, bodies=[b], dt=dt, hook=hook), rng)
    worst, lo = np.inf, np.inf
    for k, st in enumerate(scen.run(solver, state, case["steps"])):
        s = scen.snapshot(st)[0]
        ck.finite("finite", s["position"], s["velocity"])
        d = sdfref.distance(shape, s["position"], com, np.eye(dim))
        worst = min(worst, d.min())
        ck.all("no penetration", d >= -0.25 * h, f"step {k}: particle {-d.min() / h:.3f} cells inside a {kind}")
    ck.true("reached the wall", worst < 2.2 * h, f"{worst / h}")
    return f"long {dim}D {case['scheme']} {kind} {case['law']} {case['kernel']} mu={case['friction']}"
