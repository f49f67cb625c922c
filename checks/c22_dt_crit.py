"""C22: the critical time step a law reports is the time its fastest signal needs to cross the stated part of a cell, and stepping with it is stable."""
import numpy as np

ID = "C22"
RULE = ("random laws, densities, velocities, cell sizes and safety factors; the signal speed is measured from the law itself by small uniaxial and shear strains; scenes of every law "
        "and kernel are stepped with the reported step and watched for growth of energy; non-trivial: distinct (law, dimension, kernel, scheme)")
ASSUMPTIONS = ["wave speed measured near the reference density (fluid) and in the elastic range (soils)", "viscous and plastic time scales are outside the reported step"]
FLOOR = {"step is crossing time of the fastest signal": 40, "scales with cell and safety factor": 200, "never beyond any single point's own limit": 300, "stepping is stable": 400}
LAWS = ["elastic", "fluid", "mui", "dp"]


def gen_cases(rng, tier):
    cases = []
    for i in range(64 if tier == "quick" else 200):
        cases.append(dict(what="speed", law=LAWS[i % 4], dim=2 + int(rng.integers(2)), x64=bool(i % 5), seed=int(rng.integers(1 << 30))))
    for i in range(8 if tier == "quick" else 100):
        cases.append(dict(what="stable", law=LAWS[i % 4], dim=3 if i % 7 == 6 else 2, kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))], scheme=["usl", "usl_aflip"][int(rng.integers(2))],
                          seed=int(rng.integers(1 << 30))))
    return cases


def make(rng, kind, n):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    u = lambda a, b: float(rng.uniform(a, b))
    K = float(10 ** u(3, 7))
    rho = float(10 ** u(2, 3.5))
    p = np.full(n, 0.3 * K * 1e-3)
    if kind == "elastic":
        law = hdx.LinearElasticLaw(E=K, nu=u(0, .45))
        return law, None, 0 * p, np.full(n, rho)
    if kind == "fluid":
        law = hdx.NewtonFluid(K=K, viscosity=1e-6 * K, beta=u(1, 7))
    elif kind == "mui":
        law = hdx.MuI_LC(mu_s=.38, mu_d=.64, I_0=.28, d_p=.005, K=K, rho_p=2650.0)
    else:
        law = hdx.DruckerPrager(K=K, nu=u(0, .45), mu_1=.6, mu_2=0.0, c0=K, rho_0=0.5 * rho)
        s = p[:, None, None] * np.eye(3)
        return law, law.create_state(jnp.asarray(s)), p, np.full(n, rho)
    return law, law.create_state_from_density(density_stack=jnp.full((n,), rho), pressure_stack=jnp.asarray(p)), p, np.full(n, rho)


def run_case(ck, case):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return dict(speed=speed, stable=stable)[case["what"]](ck, case)


def speed(ck, case):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from vlib import sub_rng, f, eps_of
    rng = sub_rng(case["seed"])
    dim, kind = case["dim"], case["law"]
    e = eps_of(jnp.zeros(1))
    n = int(rng.integers(3, 12))
    law, st, p, rho = make(rng, kind, n)
    # points of different density: the law's own reference density where it has one
    if kind in ("elastic", "dp"):
        rho = rho * rng.uniform(.7, 1.6, n)
    vol = rng.uniform(.5, 2, n)
    vol0 = vol * rng.uniform(.6, 1.6, n)      # deformed since: signals travel through the current density
    c_typ = float(np.sqrt(law.K / rho.mean()))
    v = rng.normal(size=(n, dim)) * c_typ * float(rng.choice([0, .01, 1, 5]))
    stress = p[:, None, None] * np.eye(3)
    mk = lambda idx, vv: hdx.MaterialPointState.create(position_stack=jnp.zeros((len(idx), dim)), velocity_stack=jnp.asarray(vv[idx]), mass_stack=jnp.asarray((rho * vol)[idx]),
                                                       volume_stack=jnp.asarray(vol[idx]), volume0_stack=jnp.asarray(vol0[idx]), stress_stack=jnp.asarray(stress[idx]))
    al = np.arange(n)
    mp = mk(al, v)
    h, a = float(10 ** rng.uniform(-3, 1)), float(rng.uniform(.1, 1))
    dt = float(f(law.get_dt_crit(mp, h, a)))
    # wave speed of each point measured by a small uniaxial strain
    if case["x64"]:
        d = 1e-6
        Ls = np.zeros((n, 3, 3))
        Ls[:, 0, 0] = d

        def stress_after(sign):
            m = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, dim)), velocity_stack=jnp.asarray(v), mass_stack=jnp.asarray(rho * vol),
                                              volume_stack=jnp.asarray(vol * (1 - sign * d)), volume0_stack=jnp.asarray(vol0), stress_stack=jnp.asarray(stress), L_stack=jnp.asarray(sign * Ls))
            return f(law.update(m, st, 1.0)[0].stress_stack)[:, 0, 0]

        if kind in ("elastic", "dp"):
            M = (stress_after(1) - stress_after(-1)) / (2 * d)
        else:      # at rest: volume changes without a rate, which leaves viscosity out
            Ls[:] = 0
            M = (stress_after(1) - stress_after(-1)) / (2 * d)
        c = np.sqrt(M / rho)
        own = a * h / (c + np.linalg.norm(v, axis=1))
        # near the reference density the fluid's speed is the reported one up to p/K
        ck.close("step is crossing time of the fastest signal", dt, own.min(), 4e-3 * own.min() if kind in ("fluid", "mui") else 1e-5 * own.min(), f"{kind} {dim}D")
    ck.true("positive and finite", np.isfinite(dt) and dt > 0, f"{kind}: {dt}")
    dt2 = float(f(law.get_dt_crit(mp, 2 * h, a)))
    dt3 = float(f(law.get_dt_crit(mp, h, a / 2)))
    ck.close("scales with cell and safety factor", dt2, 2 * dt, 20 * e * dt2, f"{kind}: cell")
    ck.close("scales with cell and safety factor", dt3, dt / 2, 20 * e * dt3, f"{kind}: factor")
    ck.close("scales with cell and safety factor", float(f(law.get_dt_crit(mp, h))), float(f(law.get_dt_crit(mp, h, 0.5))), 20 * e * dt, f"{kind}: documented default")
    Q = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    ck.close("scales with cell and safety factor", float(f(law.get_dt_crit(mk(al, v @ Q.T), h, a))), dt, 100 * e * dt, f"{kind}: direction of motion")
    single = np.array([float(f(law.get_dt_crit(mk(np.array([i]), v), h, a))) for i in range(n)])
    for i in range(n):
        ck.true("never beyond any single point's own limit", dt <= single[i] * (1 + 50 * e), f"{kind}: point {i}: {dt} > {single[i]}")
    ck.close("never beyond any single point's own limit", dt, single.min(), 50 * e * dt, f"{kind}: limit of the fastest point")
    return f"speed {kind} {dim}D {'f64' if case['x64'] else 'f32'}"


def stable(ck, case):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    import scen
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim, kind = case["dim"], case["law"]
    h = 0.25
    x = scen.lattice(rng, dim, [1.0] * dim, [2.0] * dim, h / 2)
    n = len(x)
    law, st, p, rho = make(rng, kind, n)
    if kind != "elastic":
        p = 0 * p
        if kind == "dp":
            st = law.create_state(jnp.zeros((n, 3, 3)))
        else:
            st = law.create_state_from_density(density_stack=jnp.asarray(rho))
    c = float(np.sqrt(law.K / rho[0]))
    v = rng.normal(size=(n, dim)) * 1e-3 * c
    vol = np.full(n, (h / 2) ** dim)
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(3.0,) * dim, cell_size=h)
    pi = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.asarray(vol), mass_stack=jnp.asarray(vol * rho))
    ci = sb.add_constitutive_law(law=law, law_state=st)
    sb.couple(p_idx=pi, g_idx=0, c_idx=ci, shapefunction=case["kernel"])
    sb.set_solver(scheme=case["scheme"], alpha=0.9)
    solver, state = sb.build(dt=1.0)
    dt = float(f(law.get_dt_crit(state.world.material_points[0], h)))
    state = scen.as_arrays(eqx.tree_at(lambda s: s.dt, state, dt))

    @jax.jit
    def go(state):
        def body(s, _):
            s = solver(s)
            m = s.world.material_points[0]
            return s, (0.5 * jnp.sum(m.mass_stack[:, None] * m.velocity_stack**2), jnp.abs(m.F_stack).max(), jnp.abs(m.stress_stack).max())
        return jax.lax.scan(body, state, None, length=120)

    _, (ke, F, s) = go(state)
    ke, F, s = f(ke), f(F), f(s)
    e0 = 0.5 * (rho * vol * (v**2).sum(1)).sum()
    for k in range(len(ke)):
        ck.true("stepping is stable", np.isfinite(ke[k]) and ke[k] <= 1.5 * e0, f"{kind} {case['kernel']} {case['scheme']}: step {k}: kinetic energy {ke[k] / e0:.3g} times the initial one")
    ck.close("bounded strain", F[-1], 1.0, 0.2, f"{kind} {case['kernel']}")
    ck.saw("largest share of kinetic energy", 1)
    return f"stable {kind} {dim}D {case['kernel']} {case['scheme']}"
