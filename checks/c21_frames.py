"""C21: results do not depend on where the origin is, which way the axes point, who observes, or which units are used."""
import numpy as np

ID = "C21"
RULE = ("random one- or two-body scenes (law, kernel, scheme, obstacle, gravity, damping) run beside the same scene shifted by an arbitrary vector, with its axes permuted or mirrored, "
        "seen from a moving frame (one step), or expressed in other units of length, mass and time; non-trivial: distinct (change, law, kernel, scheme, dimension, forces)")
ASSUMPTIONS = ["a moving frame is compared over one step (the grid does not move along) and beside a flat obstacle moving along, without damping (which resists absolute motion)",
               "units are powers of two and keep masses and strain rates above the absolute guards of the code (1e-12 kg, 1e-6/s)"]
FLOOR = {"shifted origin": 4000, "permuted axes": 4000, "mirrored axis": 4000, "moving frame": 2000, "other units": 4000}
LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]
WHATS = ["shift", "permute", "mirror", "boost", "units"]


def gen_cases(rng, tier):
    cases = []
    for i in range(25 if tier == "quick" else 400):
        what = WHATS[i % 5]
        cases.append(dict(what=what, dim=2 if rng.random() < 0.65 else 3, scheme=["usl", "usl_aflip"][(i // 5) % 2], law=LAWS[int(rng.integers(5))], law2=LAWS[int(rng.integers(5))],
                          kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))], nb=int(rng.integers(1, 3)), gravity=[None, "grid", "points"][int(rng.integers(3))],
                          damping=bool(rng.integers(2)) and what != "boost", obstacle=[None, "plane", "sphere", "box"][int(rng.integers(4))] if what != "boost" else [None, "plane"][int(rng.integers(2))],
                          dyn=bool(rng.integers(2)), x64=True, steps=1 if what == "boost" else int(rng.integers(3, 6)), seed=int(rng.integers(1 << 30))))
    return cases


# exponents of (length, mass, time)
STRESS, DENSITY = (-1, 1, -2), (-3, 1, 0)
UNITS = dict(elastic=dict(E=STRESS), fluid=dict(K=STRESS, viscosity=(-1, 1, -1)), mui=dict(d_p=(1, 0, 0), K=STRESS, rho_p=DENSITY, alpha=(0, 0, -1), p_min_calc=STRESS),
             dp=dict(K=STRESS, c0=STRESS, H=STRESS, rho_0=DENSITY), mcc=dict(p_ref=STRESS, p_min_calc=STRESS, rho_p=DENSITY))
STATE_UNITS = dict(density_ref_stack=DENSITY, stress_ref_stack=STRESS, p_c_stack=STRESS, p_0_stack=STRESS)


def law_def(rng, kind, n, dim):
    """parameters, law state, stress, density in SI units"""
    import jax.numpy as jnp
    import hydraxmpm as hdx
    u = lambda a, b: float(rng.uniform(a, b))
    p = rng.uniform(500, 3000, n)
    dens = np.full(n, 1000.0)
    stress = p[:, None, None] * np.eye(3)
    if kind == "elastic":
        par = dict(E=u(1e4, 1e5), nu=u(0, .4))
        g = rng.normal(size=(n, 3, 3)) * 300
        stress = 0.5 * (g + np.swapaxes(g, 1, 2))
        if dim == 2:
            stress[:, 2, :2] = stress[:, :2, 2] = 0
    elif kind == "fluid":
        par = dict(K=2e4, viscosity=u(1, 20), beta=u(1.5, 7))
    elif kind == "mui":
        par = dict(mu_s=.38, mu_d=.64, I_0=.28, d_p=u(.005, .05), K=5e4, rho_p=2650.0, alpha=u(1e-6, 1e-2), p_min_calc=u(0, 5))
    elif kind == "dp":
        par = dict(K=5e4, nu=.3, mu_1=.4, mu_2=u(0, .5), c0=u(0, 100), H=u(0, 50), mu_1_hat=u(0, .2), rho_0=900.0)
    else:
        par = dict(nu=.3, M=1.1, lam=.05, kap=.01, N=1.7, rho_p=2650.0, p_ref=1000.0, p_min_calc=10.0)
        p = rng.uniform(5e3, 2e4, n)
        law = make(kind, par)
        st, s, d = law.create_state_from_ocr(jnp.asarray(p), jnp.full((n,), 1.5))
        return par, st, np.asarray(s), np.asarray(d)
    law = make(kind, par)
    if kind in ("fluid", "mui"):
        st = law.create_state_from_density(density_stack=jnp.asarray(dens), pressure_stack=jnp.asarray(p))
    elif kind == "dp":
        st = law.create_state(jnp.asarray(stress))
    else:
        st = None
    return par, st, stress, dens


def make(kind, par):
    import hydraxmpm as hdx
    return dict(elastic=hdx.LinearElasticLaw, fluid=hdx.NewtonFluid, mui=hdx.MuI_LC, dp=hdx.DruckerPrager, mcc=hdx.ModifiedCamClay)[kind](**par)


def describe(case, rng):
    dim, h = case["dim"], float(rng.uniform(.4, .6))
    nc = [int(rng.integers(7, 10)) for _ in range(dim)]
    o = rng.uniform(-1, 1, dim)
    bodies = []
    for k in range(case["nb"]):
        n = 20 + 7 * k
        kind = case["law"] if k == 0 else case["law2"]
        par, st, stress, dens = law_def(rng, kind, n, dim)
        vol = np.full(n, (h / 2) ** dim) * rng.uniform(.8, 1.2, n)
        x = o + rng.uniform(.25, .6, (n, dim)) * np.array(nc) * h
        bodies.append(dict(kind=kind, par=par, st=st, stress=stress, vol=vol, m=vol * dens, x=x, v=rng.normal(size=(n, dim))))
    q = rng.normal(size=4)
    obs = None
    if case["obstacle"]:
        nrm = rng.normal(size=dim)
        obs = dict(shape=case["obstacle"], c=o + 0.3 * np.array(nc) * h, v=rng.normal(size=dim), w=rng.normal(size=1 if dim == 2 else 3) * 2, n=nrm / np.linalg.norm(nrm),
                   r=float(rng.uniform(.5, 1)), size=rng.uniform(.6, 1.5, dim), fr=float(rng.uniform(0, .8)))
        if case["what"] == "boost":
            obs["w"] = 0 * obs["w"]
    par = dict(alpha=float(rng.uniform(.5, 1)))
    if case["scheme"] == "usl_aflip":
        par.update(use_dynamic_alpha=case["dyn"], beta_min=.1, beta_max=.4, small_mass_cutoff=1e-20 if case["what"] == "boost" else 1e-7)
    return dict(dim=dim, o=o, e=o + np.array(nc) * h, h=h, bodies=bodies, obs=obs, g=rng.normal(size=dim) * 10 if case["gravity"] else None, dt=4e-4,
                damp=float(rng.uniform(.02, .2)) if case["damping"] else None, par=par)


def build(case, sc):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import scen
    dim = sc["dim"]
    sb = hdx.SimBuilder()
    sb.add_grid(origin=tuple(float(a) for a in sc["o"]), end=tuple(float(a) for a in sc["e"]), cell_size=float(sc["h"]))
    for b in sc["bodies"]:
        p = sb.add_material_points(position_stack=jnp.asarray(b["x"]), velocity_stack=jnp.asarray(b["v"]), volume_stack=jnp.asarray(b["vol"]), mass_stack=jnp.asarray(b["m"]),
                                   stress_stack=jnp.asarray(b["stress"]))
        c = sb.add_constitutive_law(law=make(b["kind"], b["par"]), law_state=b["st"])
        sb.couple(p_idx=p, g_idx=0, c_idx=c, shapefunction=case["kernel"])
    if sc["g"] is not None:
        sb.add_gravity(gravity=jnp.asarray(sc["g"]), is_apply_on_grid=case["gravity"] == "grid")
    o = sc["obs"]
    if o:
        logic = {"plane": lambda: hdx.PlaneSDF(normal=jnp.asarray(o["n"])), "sphere": lambda: hdx.SphereSDF(radius=o["r"]), "box": lambda: hdx.BoxSDF(size=jnp.asarray(o["size"]))}[o["shape"]]()
        s = sb.add_sdf_object(sdf_logic=logic, center_of_mass=jnp.asarray(o["c"]), velocity=jnp.asarray(o["v"]), angular_velocity=jnp.asarray(o["w"]) if dim == 3 else float(o["w"][0]))
        sb.add_sdf_collider(sdf_idx=s, friction=o["fr"])
    if sc["damp"] is not None:
        sb.add_damping(alpha=sc["damp"])
    sb.set_solver(scheme=case["scheme"], **sc["par"])
    solver, state = sb.build(dt=sc["dt"])
    return solver, scen.as_arrays(state)


def mapped(case, sc, rng):
    """the scene as the other observer describes it, and the dictionary of how recorded quantities translate"""
    import copy
    import jax
    dim = sc["dim"]
    w = case["what"]
    s2 = copy.copy(sc)
    s2["bodies"] = [dict(b) for b in sc["bodies"]]
    s2["obs"] = dict(sc["obs"]) if sc["obs"] else None
    s2["par"] = dict(sc["par"])
    ident = lambda a: a
    tr = dict(x=ident, v=ident, s=ident, L=ident, F=ident, vol=ident, law=lambda name, a: a, oc=ident)
    if w in ("shift",):
        d = rng.normal(size=dim) * 7
        for k in ("o", "e"):
            s2[k] = sc[k] + d
        for b in s2["bodies"]:
            b["x"] = b["x"] + d
        if s2["obs"]:
            s2["obs"]["c"] = s2["obs"]["c"] + d
        tr["x"] = tr["oc"] = lambda a: a + d
        info = 0.0
    elif w in ("permute", "mirror"):
        if w == "permute":
            P = list(range(dim))
            while P == list(range(dim)):
                P = [int(i) for i in rng.permutation(dim)]
            Q = np.eye(dim)[P]
        else:
            sg = np.ones(dim)
            sg[int(rng.integers(dim))] = -1
            Q = np.diag(sg)
        Q3 = np.eye(3)
        Q3[:dim, :dim] = Q
        det = np.linalg.det(Q)
        vec = lambda a: a @ Q.T
        ten = lambda a: Q3 @ a @ Q3.T
        a, b_ = vec(sc["o"]), vec(sc["e"])
        s2["o"], s2["e"] = np.minimum(a, b_), np.maximum(a, b_)
        for b in s2["bodies"]:
            b["x"], b["v"], b["stress"] = vec(b["x"]), vec(b["v"]), ten(b["stress"])
            if b["st"] is not None:
                import equinox as eqx
                b["st"] = jax.tree.map(lambda t: ten(np.asarray(t)) if getattr(t, "ndim", 0) == 3 else t, b["st"])
        if s2["g"] is not None:
            s2["g"] = vec(s2["g"])
        o = s2["obs"]
        if o:
            o["c"], o["v"], o["n"], o["size"] = vec(o["c"]), vec(o["v"]), vec(o["n"]), np.abs(vec(o["size"]))
            o["w"] = det * (o["w"] if dim == 2 else vec(o["w"]))      # an axial vector
        tr.update(x=vec, v=vec, s=ten, L=ten, F=ten, oc=vec, law=lambda name, a: ten(a) if a.ndim == 3 else a)
    elif w == "boost":
        c = rng.normal(size=dim) * 3
        o = s2["obs"]
        if o:      # along the wall, which moves along
            c = c - (c @ o["n"]) * o["n"]
            o["v"] = o["v"] + c
        for b in s2["bodies"]:
            b["v"] = b["v"] + c
        dt = sc["dt"]
        tr.update(x=lambda a: a + c * dt, v=lambda a: a + c, oc=lambda a: a + c * dt)
    else:
        while True:
            ex = rng.integers([-7, -3, -4], [8, 4, 5])
            if ex.any() and -24 <= -ex[0] + ex[1] - 2 * ex[2] <= 24:
                break
        U = 2.0 ** ex
        un = lambda e: float(np.prod(U ** np.array(e)))
        ln, ve, ac = un((1, 0, 0)), un((1, 0, -1)), un((1, 0, -2))
        vol = U[0] ** dim                                     # per unit thickness in two dimensions
        # in two dimensions a mass per thickness: densities scale with length**-dim
        fix = lambda e: un(e) if dim == 3 else float(U[1] * U[0] ** (e[0] + 1) * U[2] ** e[2]) if e[1] == 1 else un(e)
        for k in ("o", "e", "h"):
            s2[k] = sc[k] * ln
        s2["dt"] = sc["dt"] * un((0, 0, 1))
        if s2["g"] is not None:
            s2["g"] = sc["g"] * ac
        if "small_mass_cutoff" in s2["par"]:
            s2["par"]["small_mass_cutoff"] *= U[1]
        law = lambda name, a: a * fix(STATE_UNITS[name]) if name in STATE_UNITS else a
        for b in s2["bodies"]:
            b["x"], b["v"], b["vol"], b["m"], b["stress"] = b["x"] * ln, b["v"] * ve, b["vol"] * vol, b["m"] * U[1], b["stress"] * fix(STRESS)
            b["par"] = {k: v * fix(UNITS[b["kind"]][k]) if k in UNITS[b["kind"]] else v for k, v in b["par"].items()}
            if b["st"] is not None:
                import equinox as eqx
                import dataclasses
                names = [f.name for f in dataclasses.fields(b["st"])]
                b["st"] = type(b["st"])(**{k: None if getattr(b["st"], k) is None else law(k, getattr(b["st"], k)) for k in names})
        o = s2["obs"]
        if o:
            o["c"], o["v"], o["w"], o["r"], o["size"] = o["c"] * ln, o["v"] * ve, o["w"] / U[2], o["r"] * ln, o["size"] * ln
        tr.update(x=lambda a: a * ln, v=lambda a: a * ve, s=lambda a: a * fix(STRESS), L=lambda a: a / U[2], vol=lambda a: a * vol, oc=lambda a: a * ln, law=law)
    return s2, tr


def laws_alone(ck, rng):
    """every law stepped along a rough strain path, in two systems of units"""
    import dataclasses
    import equinox as eqx
    import jax.numpy as jnp
    import hydraxmpm as hdx
    n, dt = 12, 1e-3
    for kind in LAWS:
        dim = int(rng.integers(2, 4))
        par, st, stress, dens = law_def(rng, kind, n, dim)
        L = rng.normal(size=(8, n, 3, 3)) * rng.choice([0.1, 1.0, 4.0], (1, n, 1, 1)) * (0.2 if kind == "mcc" else 1.0)
        if dim == 2:
            L[..., 2, :] = L[..., :, 2] = 0
        vol = np.full(n, 0.01)
        sy = np.array([1.0, 1.0, 1.0])
        while True:
            ex = np.array([int(rng.integers(-7, 8)), int(rng.integers(-3, 4)), int(rng.integers(-4, 5))])
            if abs(-ex[0] + ex[1] - 2 * ex[2]) >= 11:
                break
        out = []
        for U in (sy, 2.0 ** ex, 2.0 ** -ex):
            un = lambda e: float(np.prod(U ** np.array(e)))
            law = make(kind, {k: v * un(UNITS[kind][k]) if k in UNITS[kind] else v for k, v in par.items()})
            ls = st
            if st is not None:
                ls = type(st)(**{f.name: None if getattr(st, f.name) is None else getattr(st, f.name) * un(STATE_UNITS.get(f.name, (0, 0, 0))) for f in dataclasses.fields(st)})
            V = vol * un((3, 0, 0))
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, dim)), mass_stack=jnp.asarray(vol * dens) * un((0, 1, 0)), volume_stack=jnp.asarray(V),
                                               stress_stack=jnp.asarray(stress) * un(STRESS))
            J = np.ones(n)
            step = eqx.filter_jit(lambda m, l, d: law.update(m, l, d))
            hist = []
            for Lk in L:
                J = J * (1 - dt * np.trace(Lk, axis1=1, axis2=2))
                mp = eqx.tree_at(lambda m: (m.L_stack, m.volume_stack), mp, (jnp.asarray(Lk / U[2]), jnp.asarray(V * J)))
                mp, ls = step(mp, ls, jnp.asarray(dt * U[2]))
                hist.append(np.asarray(mp.stress_stack) / un(STRESS))
            out.append(np.array(hist))
        a = out[0]
        for b, e in zip(out[1:], (ex, -ex)):
            ck.close("other units", b, a, 1e-7 * np.abs(a).max() + 1e-300, f"{kind} alone, units 2^{e.tolist()}")


NAMES = dict(shift="shifted origin", permute="permuted axes", mirror="mirrored axis", boost="moving frame", units="other units")


def run_case(ck, case):
    import io
    import contextlib
    import dataclasses
    import equinox as eqx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    sc = describe(case, rng)
    s2, tr = mapped(case, sc, rng)
    if case["what"] == "units":
        laws_alone(ck, sub_rng(case["seed"] + 1))
    with contextlib.redirect_stdout(io.StringIO()):
        A, za = build(case, sc)
        B, zb = build(case, s2)
        fa, fb = eqx.filter_jit(A), eqx.filter_jit(B)
        for _ in range(case["steps"]):
            za, zb = fa(za), fb(zb)
    name = NAMES[case["what"]]
    tol = dict(shift=1e-9, permute=1e-11, mirror=1e-9, boost=5e-9, units=1e-8)[case["what"]]
    note = f"{case['law']} {case['kernel']} {case['scheme']} {case['dim']}D g={case['gravity']} d={case['damping']} o={case['obstacle']}"
    for k, (ma, mb) in enumerate(zip(za.world.material_points, zb.world.material_points)):
        for q, kind in (("position_stack", "x"), ("velocity_stack", "v"), ("stress_stack", "s"), ("L_stack", "L"), ("F_stack", "F"), ("volume_stack", "vol")):
            a, b = tr[kind](f(getattr(ma, q))), f(getattr(mb, q))
            ck.close(name, b, a, tol * max(np.abs(a).max(), np.abs(f(getattr(ma, q))).max() * 1e-3), f"{note}: {q} of body {k}")
    for i, (la, lb) in enumerate(zip(za.mechanics.constitutive_laws if hasattr(za, "mechanics") else (), zb.mechanics.constitutive_laws if hasattr(zb, "mechanics") else ())):
        if la is None:
            continue
        for fl in dataclasses.fields(la):
            a, b = getattr(la, fl.name), getattr(lb, fl.name)
            if a is None:
                continue
            a = tr["law"](fl.name, f(a))
            ck.close(name, f(b), a, tol * (np.abs(a).max() + (1e-3 if "eps" in fl.name else 0)) + 1e-300, f"{note}: {fl.name} of law {i}")
    if sc["obs"]:
        a = tr["oc"](f(za.world.sdfs[0].center_of_mass))
        ck.close(name, f(zb.world.sdfs[0].center_of_mass), a, 1e-12 * (1 + np.abs(a).max()), f"{note}: obstacle")
    return f"{case['what']} {case['law']} {case['law2'] if case['nb'] > 1 else ''} {case['kernel']} {case['scheme']} {case['dim']}D g={case['gravity']} d={case['damping']} o={case['obstacle']}"
