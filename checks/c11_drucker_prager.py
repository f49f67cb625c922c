"""C11: the frictional solid never leaves its yield surface, and follows its own flow and hardening rules."""
import numpy as np

ID = "C11"
RULE = ("random strain histories (compression, extension, shear, spin, rest; increments from 1e-7 to 5e-2; densities crossing the disconnection limit) "
        "on random parameters including zero/large dilatancy, cohesion and hardening, plus column-collapse scenes; each step judged against the "
        "optimality conditions of the return mapping; non-trivial: distinct (parameter class, dimension, precision) that yielded on the cone and/or apex")
ASSUMPTIONS = ["dilatancy does not exceed friction and hardening is non-negative (the documented non-associated model)"]
FLOOR = {"yield never exceeded": 20000, "elastic when inside": 2000, "on the surface when yielding": 2000, "flow rule": 1000, "hardening": 2000,
         "apex": 200, "stress from elastic strain": 20000, "dissipation": 2000, "disconnected is stress free": 200, "disconnected forgets its strain": 200, "solver: yield": 5000}


def gen_cases(rng, tier):
    cases = []
    for i in range(48 if tier == "quick" else 400):
        cases.append(dict(what="path", dim=2 + i % 2, hat=float(rng.choice([0.0, 0.3, 1.0])), coh=float(rng.choice([0.0, 1.0, 30.0])),
                          H=float(rng.choice([0.0, 0.0, 1.0, 20.0])), inc=float(rng.choice([1e-8, 1e-6, 1e-4, 1e-3, 1e-2, 5e-2])), mu=float(rng.choice([0.05, 0.4, 1.2, 2.0])), n=int([96, 96, 96, 96, 13, 260][(i // 6) % 6]),
                          steps=50 if tier == "quick" else 400, x64=bool(i % 3), seed=int(rng.integers(1 << 30))))
    for i in range(8 if tier == "quick" else 48):
        cases.append(dict(what="solver", dim=2 + i % 2, scheme=["usl", "usl_aflip"][(i // 2) % 2], hat=float(rng.choice([0.0, 0.2])), coh=float(rng.choice([0.0, 1.0])),
                          H=float(rng.choice([0.0, 5.0])), steps=60 if tier == "quick" else 400, seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    return path(ck, case) if case["what"] == "path" else solver(ck, case)


def inv(s):
    p = np.trace(s, axis1=1, axis2=2) / 3
    d = s - p[:, None, None] * np.eye(3)
    return p, d, np.sqrt(0.5 * (d * d).sum((1, 2)))


def path(ck, case):
    import jax.numpy as jnp
    import equinox as eqx
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f, eps_of
    rng = sub_rng(case["seed"])
    n, dim = case["n"], case["dim"]
    K, nu = float(10 ** rng.uniform(2.5, 10)), float(rng.choice([rng.uniform(0, 0.45), rng.uniform(-0.3, 0.495)]))
    mu1, mu2 = case["mu"], float(rng.choice([0.0, rng.uniform(0.02, 0.1), *rng.uniform(0.1, 1.2, 4), rng.uniform(1.2, 2.5)]))
    c0, H, hat = case["coh"] * 1e-4 * K, case["H"] * 1e-2 * K, case["hat"] * case["mu"]
    rho0 = float(rng.choice([1000.0, rng.uniform(1, 100), rng.uniform(1500, 8000)]))
    law = scen.as_arrays(hdx.DruckerPrager(K=K, nu=nu, mu_1=mu1, mu_2=mu2, c0=c0, H=H, mu_1_hat=hat, rho_0=rho0))
    K, G, mu1, mu2, c0, H, hat = (float(x) for x in (law.K, law.G, law.mu_1, law.mu_2, law.c0, law.H, law.mu_1_hat))
    p0 = K * rng.uniform(0, 2e-3, n)
    p0[: n // 8] = 0
    if c0 > 0:                             # cohesive material may start under tension
        p0[n // 8: n // 4] = -rng.uniform(0, 0.9, len(p0[n // 8: n // 4])) * mu2 * c0 / mu1
    stress = p0[:, None, None] * np.eye(3)
    ls = scen.as_arrays(law.create_state(jnp.asarray(stress)))
    mp = scen.points(n, dim, stress, np.full(n, 1.1 * rho0), rng=rng)
    # the last points sit exactly at the limit density (rho_0 kg in 1 m3), where the material is still connected
    brim = np.arange(n) >= n - 6
    mp = eqx.tree_at(lambda m: m.mass_stack, mp, jnp.where(jnp.asarray(brim), jnp.asarray(rho0, mp.mass_stack.dtype), mp.mass_stack))
    eps = eps_of(mp.stress_stack)
    p0 = f(ls.p_0_stack)
    dt = 10.0 ** rng.uniform(-8, 1)
    seen = set()
    for k in range(case["steps"]):
        L = scen.rand_L(rng, n, dim, case["inc"] * 10 ** rng.uniform(-1, 0.7), dt)
        mp = scen.with_L(mp, L)
        if k % 5 == 0:
            rho = np.where(rng.random(n) < 0.08, rho0 * 0.97, rho0 * 1.02)
            rho = np.where(brim & (rng.random(n) < 0.8), rho0, rho)
            mp = scen.with_density(mp, rho)
        e0, a0 = f(ls.eps_e_stack), f(ls.eps_p_acc_stack)
        L = f(mp.L_stack)
        mp, ls = scen.law_step(law, mp, ls, dt)
        s, e1, a1 = f(mp.stress_stack), f(ls.eps_e_stack), f(ls.eps_p_acc_stack)
        w = f"step {k}"
        ck.finite("finite", s, e1, a1, detail=w)
        con = rho >= rho0
        ck.close("disconnected is stress free", s[~con], 0.0, 0.0, w)
        ck.close("disconnected is stress free", a1[~con], a0[~con], 0.0, w + " hardening is kept")
        ck.close("disconnected forgets its strain", e1[~con], 0.0, 0.0, w)     # ... so that it carries no stress from before when it is packed again
        ck.close("reference pressure kept", f(ls.p_0_stack), p0, 0.0, w)
        D, W = 0.5 * (L + np.swapaxes(L, 1, 2)), -0.5 * (L - np.swapaxes(L, 1, 2))
        etr = e0 + (W @ e0 - e0 @ W) * dt + D * dt
        str_ = 2 * G * (etr - np.trace(etr, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)) + (K * np.trace(etr, axis1=1, axis2=2) + p0)[:, None, None] * np.eye(3)
        ptr, dtr, qtr = inv(str_)
        p, d, q = inv(s)
        mag = K * (np.abs(etr).max((1, 2)) + np.abs(e0).max((1, 2))) + np.abs(p0) + 2 * G * np.abs(etr).max((1, 2))
        T = 60 * eps * (mag * (1 + mu1) + mu2 * (c0 + H * np.abs(a1))) + 4e-6
        c_old, c_new = c0 + H * a0, c0 + H * a1
        fn = q - mu1 * p - mu2 * c_new
        ftr = qtr - mu1 * ptr - mu2 * c_old
        ck.close("stress symmetric", s, np.swapaxes(s, 1, 2), (8 * eps * mag)[:, None, None] + 1e-300, w)
        ck.all("yield never exceeded", fn[con] <= T[con], w + f" f={np.max(fn[con]):.4g}", mech="yield exceeded")
        se = 2 * G * (e1 - np.trace(e1, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)) + (K * np.trace(e1, axis1=1, axis2=2) + p0)[:, None, None] * np.eye(3)
        ck.close("stress from elastic strain", s[con], se[con], T[con][:, None, None], w)
        ela = con & (ftr < -T)
        ck.close("elastic when inside", s[ela], str_[ela], T[ela][:, None, None], w)
        ck.close("elastic when inside", e1[ela], etr[ela], 8 * eps * (np.abs(etr[ela]).max((1, 2)) + np.abs(e0[ela]).max((1, 2)))[:, None, None] + 1e-300, w + " elastic strain")
        ck.close("elastic when inside", a1[ela], a0[ela], 0.0, w + " hardening")
        pl = con & (ftr > T)
        ck.close("on the surface when yielding", fn[pl], 0.0, T[pl], w)
        qc = qtr - G * ftr / (G + K * mu1 * hat + H * mu2 ** 2)     # where the return to the smooth part would land
        cone = pl & (qc > 1e-3 * qtr) & (qc > 100 * T)
        lam = (qtr - q) / G
        ck.close("flow rule", d[cone] * qtr[cone][:, None, None], dtr[cone] * q[cone][:, None, None], (8 * T[cone] * (q[cone] + qtr[cone]))[:, None, None], w + " deviatoric direction")
        ck.all("flow rule", lam[cone] >= -T[cone] / G, w + " plastic multiplier")
        ck.close("flow rule", p[cone] - ptr[cone], K * hat * lam[cone], T[cone] * (4 + 4 * K * hat / G), w + " dilatancy")
        ck.close("hardening", (a1 - a0)[cone], (mu2 * lam)[cone], (2 * mu2 * T / G + 8 * eps * np.abs(a1))[cone], w + " cone")
        apex = pl & (qc < -100 * T)
        ck.all("apex", q[apex] <= T[apex], w + " no shear at the tip")
        # at the tip the tensile volumetric plastic strain drives hardening
        ck.close("apex", mu1 * p[apex] + mu2 * c_new[apex], 0.0, 4 * T[apex], w)
        ck.close("hardening", (a1 - a0)[apex], (mu2 / mu1 * (p - ptr) / K)[apex], (4 * T * mu2 / mu1 / K + 8 * eps * np.abs(a1))[apex], w + " apex")
        ck.all("hardening", (a1 - a0)[con] >= -1e-300 - (8 * eps * np.abs(a1) + 4 * T * (mu2 / mu1 / K + mu2 / G))[con], w + " monotone")
        dep = etr - e1
        ck.all("dissipation", (s * dep).sum((1, 2))[con] >= -(10 * T * (np.abs(etr).max((1, 2)) + np.abs(e1).max((1, 2)) + np.abs(e0).max((1, 2))) + 10 * T * T / min(K, G))[con], w)
        if cone.any():
            seen.add("cone")
        if apex.any():
            seen.add("apex")
    return f"path {dim}D hat={case['hat']} coh={case['coh']} H={case['H']} mu={mu1:.2g} inc={case['inc']} x64={case['x64']} {sorted(seen)}" if seen else None


def solver(ck, case):
    import jax.numpy as jnp
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], 0.1
    L = 8 * h
    K = 2e5
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=h)
    x = scen.lattice(rng, dim, [0.25 * L] * dim, ([0.6 * L] if dim == 3 else []) + [0.6 * L, 0.7 * L][: dim if dim == 2 else 2], h / 2, 0.2)
    n = len(x)
    p0 = 1000.0 * 9.81 * np.maximum(0.7 * L - x[:, -1], 0)
    stress = p0[:, None, None] * np.eye(3)
    law = hdx.DruckerPrager(K=K, nu=0.3, mu_1=0.4, mu_2=0.4, c0=case["coh"] * 100.0, H=case["H"] * 1e3, mu_1_hat=case["hat"], rho_0=1000.0)
    V = np.full(n, (h / 2) ** dim)
    p_idx = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(0.3 * rng.normal(size=x.shape)), volume_stack=jnp.asarray(V), mass_stack=jnp.asarray(V * 1000.0), stress_stack=jnp.asarray(stress))
    c_idx = sb.add_constitutive_law(law=law, law_state=law.create_state(jnp.asarray(stress)))
    sb.couple(p_idx=p_idx, g_idx=0, c_idx=c_idx, shapefunction="cubic")
    sb.add_gravity(gravity=jnp.asarray([0.0] * (dim - 1) + [-9.81]))
    s = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.array([0.0] * (dim - 1) + [1.0])), center_of_mass=jnp.asarray([0.0] * (dim - 1) + [0.22 * L]))
    sb.add_sdf_collider(sdf_idx=s)
    sb.set_solver(scheme=case["scheme"])
    solver_, state = sb.build(dt=4e-4)
    a_prev, moved, disc, plastic = 0.0, 0, 0, 0
    G = float(law.G)
    for k, st in enumerate(scen.run(solver_, state, case["steps"])):
        if k == 0:
            continue
        mp, ls = st.world.material_points[0], st.mechanics.constitutive_laws[0]
        sg, e, a = f(mp.stress_stack), f(ls.eps_e_stack), f(ls.eps_p_acc_stack)
        ck.finite("finite", sg, e, a)
        p, d, q = inv(sg)
        T = 1e-12 * (K * np.abs(e).max() + p0.max()) * 60 + 4e-6
        rho = f(mp.mass_stack) / f(mp.volume_stack)
        con = rho >= 1000.0 * (1 + 1e-12)
        dis = rho < 1000.0 * (1 - 1e-12)
        ck.all("solver: yield", (q - 0.4 * p - 0.4 * (case["coh"] * 100 + case["H"] * 1e3 * a))[con] <= T, f"step {k}", mech="yield exceeded in solver")
        ck.close("solver: disconnected", sg[dis], 0.0, 0.0, f"step {k}")
        se = 2 * G * (e - np.trace(e, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)) + (K * np.trace(e, axis1=1, axis2=2) + f(ls.p_0_stack))[:, None, None] * np.eye(3)
        ck.close("solver: stress", sg[con], se[con], 1e-9 * (1 + np.abs(se[con])) + T, f"step {k}")
        ck.all("solver: hardening grows", a - a_prev >= -1e-12, f"step {k}")
        a_prev = a
        disc += dis.sum()
        plastic += int((np.abs(q - 0.4 * p - 0.4 * (case["coh"] * 100 + case["H"] * 1e3 * a)) < T)[con].sum())
    return f"solver {dim}D {case['scheme']} hat={case['hat']} coh={case['coh']} H={case['H']} disc={disc > 0}" if plastic else None
