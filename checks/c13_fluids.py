"""C13: fluids and dense granular flows: equation of state, viscosity, friction law, dissipation."""
import numpy as np

ID = "C13"
RULE = ("random flows (shear, spin, compression, rest; rates over 8 decades) at random densities around the reference, random parameters, states created "
        "from densities, pressures and material points; plus solver scenes of a pressurised blob and a shear layer; "
        "non-trivial: distinct (law, dimension, precision, rate decade)")
ASSUMPTIONS = ["densities within 30% of the reference"]
FLOOR = {"EOS round trip": 500, "fluid stress": 5000, "mu(I) stress": 5000, "dissipation": 5000, "friction bounds": 2000, "no tension": 5000,
         "pressure grows with density": 2000, "disconnected is stress free": 500, "law keeps its state": 1000, "pressure pushes outward": 16, "viscosity damps shear": 6}


def gen_cases(rng, tier):
    cases = []
    seed0 = int(rng.integers(2))
    for i in range(64 if tier == "quick" else 600):
        cases.append(dict(what="law", law=["fluid", "mui"][i % 2], dim=2 + (i // 2) % 2, x64=bool(i % 3), n=int([128, 128, 128, 5, 400][(i // 12) % 5]), make=["density", "pressure", "points"][(i // 4) % 3],
                          rate=float(10.0 ** rng.integers(-5, 4)), seed=int(rng.integers(1 << 30))))
    for i in range(16 if tier == "quick" else 60):
        cases.append(dict(what=["blob", "shear"][i % 2], dim=2 + (i // 2) % 2, scheme=["usl", "usl_aflip"][(i // 4 + seed0) % 2], law="fluid" if i % 2 else str(rng.choice(["fluid", "mui"])),
                          kernel=str(rng.choice(["quadratic", "cubic"])), seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    return law(ck, case) if case["what"] == "law" else scene(ck, case)


def law(ck, case):
    import jax.numpy as jnp
    import equinox as eqx
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f, eps_of
    rng = sub_rng(case["seed"])
    n, dim = case["n"], case["dim"]
    K = float(10 ** rng.uniform(0, 10))
    rho = rng.uniform(900, 1100, n) * 10.0 ** rng.choice([0, 0, -3, 1])
    p_in = K * rng.uniform(0, 0.3, n)
    p_in[: n // 4] = 0
    if case["law"] == "fluid":
        beta, visc = float(rng.choice([1.0, 2.0, rng.uniform(1, 8), rng.uniform(8, 15)])), float(rng.choice([0.0, *10 ** rng.uniform(-6, 5, 5)]))
        m = hdx.NewtonFluid(K=K, viscosity=visc, beta=beta)
    else:
        pr = dict(mu_s=float(rng.uniform(0.05, 1.2)), I_0=float(10 ** rng.uniform(-3, 0.5)), d_p=float(10 ** rng.uniform(-5, 0)), rho_p=float(rng.choice([2650.0, 10 ** rng.uniform(1, 4)])),
                  alpha=float(10 ** rng.uniform(-8, -2)))
        pr["mu_d"] = pr["mu_s"] + float(rng.uniform(0, 0.5))
        if rng.random() < 0.4:
            pr["p_min_calc"] = K * float(10 ** rng.uniform(-4, -1.5))
        m = hdx.MuI_LC(K=K, **pr)
    if case["make"] == "density":
        p_in[:] = 0
        st = m.create_state_from_density(density_stack=jnp.asarray(rho))
        mp = scen.points(n, dim, None, rho, rng=rng)
    elif case["make"] == "pressure":
        st = m.create_state_from_density(density_stack=jnp.asarray(rho), pressure_stack=jnp.asarray(p_in))
        mp = scen.points(n, dim, None, rho, rng=rng)
    else:
        mp = scen.points(n, dim, p_in[:, None, None] * np.eye(3), rho, rng=rng)
        # "defaults to using initial density": points that are already deformed refer to their undeformed volume
        st = m.create_state(eqx.tree_at(lambda q: q.volume_stack, mp, mp.volume_stack * jnp.asarray(rng.uniform(0.8, 1.2, n), mp.volume_stack.dtype)))
    m, st = scen.as_arrays(m), scen.as_arrays(st)
    eps = eps_of(mp.stress_stack)
    lo = (lambda k: float(getattr(m, k)))
    K = lo("K")
    ref0 = f(st.density_ref_stack)
    # at rest, at the density the state was made for, the pressure is the one asked for
    mp0, st0 = scen.law_step(m, scen.with_L(mp, np.zeros((n, 3, 3))), st, 1e-3)
    s0 = f(mp0.stress_stack)
    tol = 40 * eps * K * (8 if case["law"] == "fluid" else 2) * 1.5
    pm = 0.0 if case["law"] == "fluid" else lo("p_min_calc")
    asked = p_in > pm if pm else slice(None)         # below its floor a connected grain body is taken at the floor
    ck.close("EOS round trip", s0[asked], (p_in[:, None, None] * np.eye(3))[asked], tol, f"{case['law']} state from {case['make']}")
    prev_p = None
    for k, fac in enumerate([0.7, 0.9, 0.99, 1.0, 1.001, 1.01, 1.05, 1.2, 1.3]):
        mpk = scen.with_density(mp, ref0 * fac)
        L = scen.rand_L(rng, n, dim, case["rate"] * 10 ** rng.uniform(-0.5, 0.5, (n, 1, 1)), 1.0)
        mpk = scen.with_L(mpk, L)
        dt = 10.0 ** rng.uniform(-6, 0)
        out, st1 = scen.law_step(m, mpk, st, dt)
        L = f(mpk.L_stack)
        s = f(out.stress_stack)
        w = f"{case['law']} density ratio {fac}"
        ck.finite("finite", s, detail=w)
        ck.close("law keeps its state", f(st1.density_ref_stack), ref0, 0.0, w)
        ck.all("law keeps its state", np.asarray(out.velocity_stack) == np.asarray(mpk.velocity_stack), w)
        ck.all("law keeps its state", np.asarray(out.volume_stack) == np.asarray(mpk.volume_stack), w)
        D = 0.5 * (L + np.swapaxes(L, 1, 2))
        dD = D - np.trace(D, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
        gd = np.sqrt(2 * (dD * dD).sum((1, 2)))
        r = f(mpk.mass_stack) / f(mpk.volume_stack) / ref0
        p = np.trace(s, axis1=1, axis2=2) / 3
        d = s - p[:, None, None] * np.eye(3)
        ms = np.abs(s).max((1, 2))
        Dm = np.abs(L).max((1, 2))
        if case["law"] == "fluid":
            be, vi = lo("beta"), lo("viscosity")
            pw = np.maximum(K * (np.maximum(r, 1e-6) ** be - 1), 0)
            T = 60 * eps * (K * (be + 1) * np.maximum(r, 1) ** be + vi * Dm)
            ck.close("fluid stress", s, pw[:, None, None] * np.eye(3) + 2 * vi * dD, T[:, None, None], w)
            tau_rate = (d * dD).sum((1, 2))
            ck.all("dissipation", tau_rate >= -T * Dm * 3, w)
        else:
            pw = np.maximum(K * (r - 1), pm) if pm else K * (r - 1)
            T = 60 * eps * (K * (r + 1) + ms) + 1e-300
            con = r > 1 + 4 * eps
            dis = r < 1 - 4 * eps
            ck.close("disconnected is stress free", s[dis], 0.0, 0.0, w)
            with np.errstate(all="ignore"):
                # stated as friction: |tau| = mu(I) p with mu between its static and dynamic values
                I = lo("d_p") * gd / np.sqrt(pw / lo("rho_p"))
                mu = lo("mu_s") * gd / np.sqrt(gd ** 2 + lo("alpha") ** 2) + (lo("mu_d") - lo("mu_s")) * I / (lo("I_0") + I)
            tau = np.sqrt(0.5 * (d * d).sum((1, 2)))
            with np.errstate(all="ignore"):
                eta = mu * np.maximum(pw, 0) / np.maximum(gd, lo("alpha"))
                eta = np.where(np.isfinite(eta), eta, 0) + lo("mu_s") * np.maximum(pw, 0) / np.sqrt(gd ** 2 + lo("alpha") ** 2)
            T = T + 20 * eps * eta * Dm        # round-off of the trace-free part, amplified by the regularised viscosity
            # relative error of p is amplified near the reference density; in sqrt and in eta
            Tc = 10 * T + 40 * eps * Dm / np.maximum(gd, 1e-300) * mu * pw
            ck.close("mu(I) stress", p[con], pw[con], T[con], w + " pressure")
            ck.close("mu(I) stress", tau[con], (mu * pw)[con], Tc[con] + 1e-300, w + " |tau| = mu(I) p")
            g = gd > 30 * eps * Dm
            ok = con & g
            ck.close("mu(I) stress", d[ok] / np.maximum(gd[ok], 1e-300)[:, None, None], (dD * (mu * pw / np.maximum(gd, 1e-300) ** 2)[:, None, None] * 2)[ok],
                     (4 * Tc / np.maximum(gd, 1e-300))[ok][:, None, None], w + " tau along the strain rate")
            ck.all("friction bounds", tau[con] <= (lo("mu_d") * pw + Tc)[con], w + " below dynamic friction")
            fast = con & (gd > 100 * lo("alpha")) & g
            ck.all("friction bounds", tau[fast] >= (lo("mu_s") * pw * (1 - 1e-4) - Tc)[fast], w + " above static friction when sheared")
            ck.all("dissipation", (d * dD).sum((1, 2)) >= -Tc * Dm * 3 - 1e-300 if con.all() else (d * dD).sum((1, 2))[con] >= (-Tc * Dm * 3)[con], w)
        ck.all("no tension", p >= -T, w)
        if prev_p is not None:
            ck.all("pressure grows with density", p >= prev_p - 2 * (T + prev_T), w)
            if fac > 1:
                ck.all("pressure grows with density", p > prev_p - 2 * (T + prev_T), w)
        if fac >= 1.05:
            ck.all("pressure grows with density", p > -T * (T > K * 0.01), w + " compressed fluid carries pressure")
        prev_p, prev_T = p, T
        # spin and dt do not matter
        W = rng.normal(size=(n, 3, 3)) * case["rate"]
        if dim == 2:
            W[:, 2] = W[:, :, 2] = 0
        out2, _ = scen.law_step(m, scen.with_L(mpk, L + W - np.swapaxes(W, 1, 2)), st, dt * 7.3)
        slack = np.abs(W).max((1, 2)) + Dm
        ck.close("rate objectivity", f(out2.stress_stack), s, (60 * eps * (K * 10 + ms * (1 + slack / np.maximum(gd, 1e-300)) + (lo("viscosity") if case["law"] == "fluid" else 0) * slack))[:, None, None]
                 + (0 if case["law"] == "fluid" else (np.where(gd < 1e3 * eps * slack, ms * 1.5 + 10 * eps * slack / lo("alpha") * K, 0))[:, None, None]), w + " superposed spin, other dt")
    return f"{case['law']} {dim}D x64={case['x64']} {case['make']} rate={case['rate']:.0e}"


def scene(ck, case):
    import jax.numpy as jnp
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], 0.1
    L = 10 * h
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=h)
    lo, hi = (0.3, 0.7) if case["what"] == "blob" else (0.25, 0.75)
    x = scen.lattice(rng, dim, [lo * L] * dim, [hi * L] * dim, h / 2, 0.1)
    n = len(x)
    V = np.full(n, (h / 2) ** dim)
    K = 1e5
    p0 = 5000.0 if case["what"] == "blob" else 0.0
    if case["law"] == "fluid":
        m = hdx.NewtonFluid(K=K, viscosity=0.1 if case["what"] == "blob" else 30.0, beta=7.0)
    else:
        m = hdx.MuI_LC(mu_s=0.3, mu_d=0.6, I_0=0.3, d_p=0.01, K=K, rho_p=2650.0)
    st = m.create_state_from_density(density_stack=jnp.full((n,), 1000.0), pressure_stack=jnp.full((n,), p0))
    v = np.zeros_like(x)
    if case["what"] == "shear":
        v[:, 0] = np.sin(2 * np.pi * (x[:, 1] / L - 0.25) / 0.5)
    p_idx = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.asarray(V), mass_stack=jnp.asarray(V * 1000.0),
                                   stress_stack=jnp.asarray(np.tile(p0 * np.eye(3), (n, 1, 1))))
    c = sb.add_constitutive_law(law=m, law_state=st)
    sb.couple(p_idx=p_idx, g_idx=0, c_idx=c, shapefunction=case["kernel"])
    sb.set_solver(scheme=case["scheme"])
    solver, state = sb.build(dt=1e-4)
    hist = list(scen.run(solver, state, 12))
    mp = hist[-1].world.material_points[0]
    if case["what"] == "blob":
        r = x - x.mean(0)
        flux = (f(mp.velocity_stack) * r).sum() / (r * r).sum()
        # dv/dt ~ p / (rho R): the sign and the order of magnitude
        expect = p0 / 1000.0 / (0.2 * L) * 12e-4 / (0.2 * L)
        ck.true("pressure pushes outward", 0.1 * expect < flux < 10 * expect, f"expansion rate {flux:.4g}, of the order of {expect:.4g}")
        ck.true("pressure pushes outward", f(mp.volume_stack).sum() > V.sum(), "the blob grows")
        ck.true("pressure pushes outward", (np.trace(f(mp.stress_stack), axis1=1, axis2=2) / 3).mean() < p0, "and its pressure drops")
    else:
        ke = [0.5 * (f(s.world.material_points[0].mass_stack) * (f(s.world.material_points[0].velocity_stack) ** 2).sum(1)).sum() for s in hist]
        ck.true("viscosity damps shear", ke[-1] < ke[0], f"kinetic energy {ke[0]:.6g} -> {ke[-1]:.6g}")
        # the same scene without viscosity loses less
        m0 = hdx.NewtonFluid(K=K, viscosity=0.0, beta=7.0)
        s2 = list(scen.run(*rebuild(sb, m0, st, x, v, V, case, h, L, dim), 12))[-1].world.material_points[0]
        ke0 = 0.5 * (f(s2.mass_stack) * (f(s2.velocity_stack) ** 2).sum(1)).sum()
        mu, k = 30.0, 2 * np.pi / (0.5 * L)
        decay = 1 - np.exp(-2 * mu / 1000.0 * k * k * 11e-4)
        ck.true("viscosity damps shear", 0.08 * decay < (ke0 - ke[-1]) / ke[0] < 8 * decay, f"viscous loss {(ke0 - ke[-1]) / ke[0]:.4g}, of the order of {decay:.4g}")
    return f"{case['what']} {dim}D {case['scheme']} {case['kernel']} {case['law']}"


def rebuild(_, m, st, x, v, V, case, h, L, dim):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=h)
    p_idx = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.asarray(V), mass_stack=jnp.asarray(V * 1000.0))
    c = sb.add_constitutive_law(law=m, law_state=st)
    sb.couple(p_idx=p_idx, g_idx=0, c_idx=c, shapefunction=case["kernel"])
    sb.set_solver(scheme=case["scheme"])
    return sb.build(dt=1e-4)
