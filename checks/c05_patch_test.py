"""C05: constant and affine velocity fields are reproduced exactly (patch test)."""
import numpy as np

ID = "C05"
RULE = ("stress-free scattered particles carrying a constant or affine velocity field (affine: affine transfer seeded with the field, or a "
        "regular lattice for the non-affine scheme), stepped repeatedly; the field, positions, velocity gradient and deformation must be those of "
        "the exact motion; non-trivial: distinct (field, scheme, kernel, dimension, parameters)")
ASSUMPTIONS = ["particles stay two cells inside the grid", "no node-mass cutoff in the affine cases"]
FLOOR = {"constant field kept": 200, "no spurious strain": 200, "affine velocity gradient": 100, "affine velocities": 100,
         "homogeneous deformation": 100, "affine lattice gradient": 20}


def gen_cases(rng, tier):
    cases = []
    for i in range(52 if tier == "quick" else 360):
        dim = 2 + i % 2
        what = ["constant", "affine", "affine", "lattice"][(i // 2) % 4]
        scheme = "usl_aflip" if what == "affine" else (["usl", "usl_aflip"][int(rng.integers(0, 2))] if what == "constant" else "usl")
        kern = str(rng.choice(["linear", "quadratic", "cubic"] if what != "lattice" else ["linear", "quadratic", "cubic"]))
        prm = dict(alpha=float(rng.choice([0.0, 0.5, 0.99, 1.0])))
        if scheme == "usl_aflip":
            prm.update(use_dynamic_alpha=bool(rng.integers(0, 2)), cfl_limit=1e6)
            if what == "affine":
                prm["small_mass_cutoff"] = 0.0
                prm["use_mls_update"] = not (kern != "linear" and rng.random() < 0.4)
                if rng.random() < 0.5:
                    prm.update(beta_min=float(rng.uniform()), beta_max=float(rng.uniform()))
        cases.append(dict(what=what, dim=dim, scheme=scheme, kernel=kern, params=prm, h=float(rng.choice([0.05, 0.4, 1.0, 3.0])),
                          law=str(rng.choice(["elastic", "dp"])), steps=4 if tier == "quick" else 12, x64=bool(i % 4), seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    import scen
    import jax.numpy as jnp
    import equinox as eqx
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, h, kern = case["dim"], case["h"], case["kernel"]
    dt = 1e-2
    b = dict(law=case["law"], kernel=kern, stress_free=True, vel=0.0, n=30, store_F=True)
    if case["what"] == "lattice":
        b.update(lattice=0.5, jitter=0.0, box=(1 / 12, 11 / 12))
    else:
        b.update(box=(0.3, 0.7))
    L = (12 if case['what'] == 'lattice' else 8) * h
    org = list(rng.uniform(-4, 4, dim) * h)
    spec = dict(dim=dim, scheme=case["scheme"], params=case["params"], cell=h, bodies=[b], dt=dt, L=L, origin=org)
    solver, state, info = scen.build(spec, rng)
    x = np.asarray(state.world.material_points[0].position_stack, float)
    n = len(x)
    if case["what"] == "lattice":
        mp = state.world.material_points[0]
        state = eqx.tree_at(lambda s: s.world.material_points[0].mass_stack, state, jnp.full_like(mp.mass_stack, 1000.0 * (h / 2) ** dim))
    eps = float(jnp.finfo(state.world.material_points[0].position_stack.dtype).eps)
    pos = 20 + np.abs(org).max() / h
    v0 = rng.normal(size=dim) * h / 4
    A = np.zeros((3, 3))
    if case["what"] != "constant":
        A[:dim, :dim] = rng.normal(size=(dim, dim)) * 0.5
    fn = eqx.filter_jit(solver)
    st = scen.as_arrays(state)
    Fx = np.eye(3)
    xs = x
    V0 = np.asarray(st.world.material_points[0].volume0_stack, float)
    # interior particles of the lattice: their whole stencil is filled uniformly
    if case["what"] == "lattice":
        hw = dict(linear=1.0, quadratic=1.5, cubic=2.0)[kern]
        m = 2 * hw
        inner = ((x > np.array(org) + h + m * h) & (x < np.array(org) + L - h - m * h)).all(1)
    for k in range(case["steps"]):
        mp = st.world.material_points[0]
        xs = np.asarray(mp.position_stack, float)
        v = xs @ A[:dim, :dim].T + v0 if case["what"] != "constant" else np.tile(v0, (n, 1))
        # re-impose the exact field at the current positions (the motion itself is what is being observed)
        mp = eqx.tree_at(lambda s: (s.velocity_stack, s.stress_stack), mp, (jnp.asarray(v, mp.velocity_stack.dtype), jnp.zeros_like(mp.stress_stack)))
        st = eqx.tree_at(lambda s: s.world.material_points, st, (mp,))
        if case["what"] == "affine":
            Bp = jnp.asarray(np.tile(-A, (n, 1, 1)), mp.velocity_stack.dtype)
            st = eqx.tree_at(lambda s: s.mechanics.solvers[0].Bp_stack, st, Bp)
        elif case["what"] == "constant" and case["scheme"] == "usl_aflip":
            st = eqx.tree_at(lambda s: s.mechanics.solvers[0].Bp_stack, st, jnp.zeros_like(st.mechanics.solvers[0].Bp_stack))
        st = fn(st)
        s = scen.snapshot(st)[0]
        vs = np.abs(v).max() + np.abs(A).max() * pos * h + 1e-30
        tv, tg = 200 * eps * pos * vs, 2000 * eps * pos * vs / h
        if case["what"] == "constant":
            # (nodes below the fixed mass cutoff are dropped: their weight is at most cutoff / particle mass)
            drop = 1e-6 / max(1e-300, float(np.asarray(mp.mass_stack).min()))
            ck.close("constant field kept", s["velocity"], v, tv + 64 * drop * vs, f"step {k}")
            ck.close("constant field kept", s["position"], xs + dt * v, dt * (tv + 64 * drop * vs) + 10 * eps * pos * h, f"positions step {k}")
            ck.close("no spurious strain", s["L"], 0.0, tg + 64 * drop ** 0.5 * vs / h, f"step {k}")
            ck.close("no spurious strain", s["volume"] / V0, 1.0, (k + 1) * dt * (tg + 64 * drop ** 0.5 * vs / h) * 4 + 50 * eps, f"volume step {k}")
        else:
            sel = np.ones(n, bool) if case["what"] == "affine" else inner
            name = "affine velocity gradient" if case["what"] == "affine" else "affine lattice gradient"
            if case["what"] == "affine":
                # vanishing node masses carry only round-off of the affine field
                ck.close(name, s["L"], np.tile(-A, (n, 1, 1)), tg, f"step {k}")
                ck.close("affine velocities", s["velocity"], v, tv, f"step {k}")
                ck.close("affine velocities", s["position"], xs + dt * v, dt * tv + 10 * eps * pos * h, f"positions step {k}")
                Fx = (np.eye(3) + dt * A) @ Fx
                ck.close("homogeneous deformation", s["F_store"], np.tile(Fx, (n, 1, 1)), (k + 1) * (dt * tg + 60 * eps) * 4, f"step {k}")
                ck.close("homogeneous deformation", s["volume"] / V0, np.linalg.det(Fx), (k + 1) * (dt * tg + 60 * eps) * 8, f"volume step {k}")
            elif k == 0:
                # away from the free surface a regular lattice smooths an affine field into itself
                ck.close(name, s["L"][sel], np.tile(-A, (int(sel.sum()), 1, 1)), tg + 0.0, f"step {k}")
                ck.close("affine lattice velocity", s["position"][sel], (xs + dt * v)[sel], dt * tv + 10 * eps * pos * h, "")
    return f"{case['what']} {case['scheme']} {kern} {dim}D {sorted(case['params'].items())} x64={case['x64']} h={h}"
