"""C06: volume, mass, density and deformation stay consistent along whole histories."""
import numpy as np

ID = "C06"
RULE = ("multi-body scenes with gravity, walls, all laws, both schemes and random initial deformation, run for tens of steps; after every step the "
        "reported volume, density, deformation, velocity gradient, stress and strain accessors are checked against each other and against the "
        "history; non-trivial: distinct (dimension, scheme, law, kernel) whose volume changed")
ASSUMPTIONS = ["time step below the elastic limit, so that no particle inverts"]
FLOOR = {"volume = det F V0": 2000, "J history": 2000, "mass and reference volume constant": 2000, "stress symmetric": 2000,
         "plane strain": 1000, "F reset keeps only volume": 500, "full history stored": 500, "strain accessors": 500}


def gen_cases(rng, tier):
    cases = []
    laws = ["elastic", "fluid", "mui", "dp", "mcc"]
    for i in range(40 if tier == "quick" else 240):
        dim = 2 + i % 2
        b = dict(law=laws[(i // 2) % 5], kernel=["linear", "quadratic", "cubic"][(i // 3) % 3], lattice=0.5, box=(0.25, 0.55) if dim == 2 else (0.3, 0.5),
                 jitter=0.3, vel=float(rng.choice([0.05, 0.5])), store_F=bool(rng.integers(0, 2)))
        prm = {} if rng.random() < 0.5 else dict(alpha=float(rng.choice([0.5, 0.95, 1.0])))
        cases.append(dict(dim=dim, scheme=["usl", "usl_aflip"][int(rng.integers(0, 2))], params=prm, bodies=[b], reset=str(rng.choice(["default", "default", "on", "off"])),
                          cell=float(rng.choice([0.1, 1.0])), wall=bool(rng.integers(0, 2)), F0=bool(rng.integers(0, 2)),
                          steps=25 if tier == "quick" else 150, x64=bool(i % 4), seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    import scen
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    from vlib import sub_rng, eps_of
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], case["cell"]
    L = 8 * h

    def hook(sb):
        sb.add_gravity(gravity=jnp.asarray([0.0] * (dim - 1) + [-9.81]))
        if case["wall"]:
            s = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.array([0.0] * (dim - 1) + [1.0])),
                                  center_of_mass=jnp.asarray([0.0] * (dim - 1) + [0.2 * L]))
            sb.add_sdf_collider(sdf_idx=s)

    dt = 2e-4 * h ** 0.5
    law = case["bodies"][0]["law"]
    if law == "mcc":
        dt *= 0.3
    reset = law != "dp"
    if case["reset"] != "default":
        reset = case["reset"] == "on"
        case["bodies"][0]["law_kw"] = dict(requires_F_reset=reset)
    spec = dict(dim=dim, scheme=case["scheme"], params=case["params"], cell=h, bodies=case["bodies"], dt=dt, L=L, hook=hook)
    solver, state, info = scen.build(spec, rng)
    mp = state.world.material_points[0]
    n = mp.position_stack.shape[0]
    F0 = np.tile(np.eye(3), (n, 1, 1))
    if case["F0"]:
        if rng.random() < 0.5:
            F0[:, :dim, :dim] += rng.uniform(-0.1, 0.1, (n, dim, dim))
        else:      # turned and stretched or squeezed several times over
            q1, q2 = (np.linalg.qr(rng.normal(size=(n, dim, dim)))[0] for _ in range(2))
            F0[:, :dim, :dim] = q1 * np.exp(rng.uniform(-0.8, 0.8, (n, 1, dim))) @ q2
            F0[:, 0, :] *= np.sign(np.linalg.det(F0))[:, None]
        Fj = jnp.asarray(F0, mp.F_stack.dtype)
        V0 = mp.volume_stack / jnp.linalg.det(Fj)
        state = eqx.tree_at(lambda s: (s.world.material_points[0].F_stack, s.world.material_points[0].volume0_stack), state, (Fj, V0))
        if mp.F_store_stack is not None:
            state = eqx.tree_at(lambda s: s.world.material_points[0].F_store_stack, state, Fj)
    m0, V00, prev, changed = None, None, None, 0
    for k, st in enumerate(scen.run(solver, state, case["steps"])):
        mp = st.world.material_points[0]
        s = scen.snapshot(st)[0]
        e = eps_of(mp.position_stack)
        if prev is None:
            m0, V00 = np.asarray(mp.mass_stack), np.asarray(mp.volume0_stack)
            prev = s
            continue
        w = f"step {k} {law}"
        ck.finite("finite", s["position"], s["velocity"], s["stress"], s["F"], s["volume"], detail=w)
        ck.all("mass and reference volume constant", np.asarray(mp.mass_stack) == m0, w)
        ck.all("mass and reference volume constant", np.asarray(mp.volume0_stack) == V00, w)
        J = np.linalg.det(s["F"])
        nF = np.abs(s["F"]).max((1, 2))
        tJ = 60 * e * np.maximum(nF, 1) ** 3
        ck.all("volume positive", s["volume"] > 0, w)
        ck.close("volume = det F V0", s["volume"], J * s["volume0"], tJ * s["volume0"], w)
        ck.close("density = mass / volume", np.asarray(mp.density_stack, float), s["mass"] / s["volume"], (20 * e + 3e-16 / s["volume"]) * s["mass"] / s["volume"], w)
        inc = np.eye(3) - dt * s["L"]
        Jh = np.linalg.det(inc) * np.linalg.det(prev["F"])
        ck.close("J history", J, Jh, 3 * tJ, w)
        ck.close("stress symmetric", s["stress"], np.swapaxes(s["stress"], 1, 2), 60 * e * np.abs(s["stress"]).max() + 1e-30, w)
        if dim == 2:
            ck.close("plane strain", s["L"][:, 2, :], 0.0, 0.0, w)
            ck.close("plane strain", s["L"][:, :, 2], 0.0, 0.0, w)
            ck.close("plane strain", s["F"][:, 2, 2], 1.0, 0.0, w)
            ck.close("plane strain", np.abs(s["F"][:, 2, :2]) + np.abs(s["F"][:, :2, 2]), 0.0, 0.0, w)
            ck.close("plane strain", np.abs(s["stress"][:, 2, :2]), 0.0, 60 * e * np.abs(s["stress"]).max() + 1e-30, w)
        if reset:
            want = np.zeros_like(s["F"])
            for i in range(3):
                want[:, i, i] = (J ** (1 / dim)) if i < dim else 1.0
            ck.close("F reset keeps only volume", s["F"], want, 60 * e, w)
        else:
            ck.close("F follows its increments", s["F"], inc @ prev["F"], 60 * e * nF[:, None, None], w)
        if s["F_store"] is not None:
            nS = np.abs(s["F_store"]).max((1, 2))
            ck.close("full history stored", s["F_store"], inc @ prev["F_store"], 60 * e * nS[:, None, None], w)
            ck.close("full history stored", np.linalg.det(s["F_store"]), J, 60 * e * (k + 1) * np.maximum(nS, 1) ** 3, w + " volume of the stored history")
        if k % 5 == 0:
            ev = np.asarray(mp.eps_v_stack, float)
            ck.close("strain accessors", ev, -np.log(J), 100 * e * nF ** 2 / J.clip(1e-3), w + " volumetric")
            D = np.asarray(mp.deps_dt_stack, float)
            ck.close("strain accessors", D, 0.5 * (s["L"] + np.swapaxes(s["L"], 1, 2)), 10 * e * np.abs(s["L"]).max(), w + " rate")
            p = np.asarray(mp.pressure_stack, float)
            ck.close("stress accessors", p, np.trace(s["stress"], axis1=1, axis2=2) / 3, 20 * e * np.abs(s["stress"]).max(), w)
            dev = s["stress"] - p[:, None, None] * np.eye(3)
            q = np.sqrt(1.5 * (dev ** 2).sum((1, 2)))
            ck.close("stress accessors", np.asarray(mp.q_stack, float), q, 40 * e * np.abs(s["stress"]).max() + 1e-5 * q + 1e-5, w)
            ck.close("kinetic energy accessor", np.asarray(mp.KE_stack, float), 0.5 * s["mass"] * (s["velocity"] ** 2).sum(1), 20 * e * (s["mass"] * (s["velocity"] ** 2).sum(1)).max(), w)
        changed = max(changed, np.abs(s["volume"] / s["volume0"] - 1).max())
        prev = s
    if changed > 1e-9:
        return f"{dim}D {case['scheme']} {law} {case['bodies'][0]['kernel']} reset={case['reset']} wall={case['wall']} F0={case['F0']} {case['params']}"

