"""C16: the element-test driver applies the strains it says and holds the stresses it is asked to hold."""
import numpy as np

ID = "C16"
RULE = ("triaxial runs (drained, constant pressure, undrained; compression and extension; constant, varying and reversing rates; strides; static starts) on "
        "three laws, every stored state judged; single driver steps on random gradients; non-trivial: distinct (law, mode, loading, stride)")
ASSUMPTIONS = ["increments small enough for the documented 20 damped Newton iterations"]
FLOOR = {"confining stress held": 300, "pressure held": 300, "volume held": 500, "applied axial strain": 2000, "volume = det F V0": 2000, "stride subsamples": 50,
         "replay through the law": 1000, "failure state": 6, "driver deformation": 500, "axial strain output": 500}


def gen_cases(rng, tier):
    cases = []
    modes = ["drained", "constant_p", "undrained"]
    for i in range(27 if tier == "quick" else 200):
        law = ["mcc", "dp", "elastic"][i % 3]
        cases.append(dict(what="trx", law=law, mode=modes[(i // 3) % 3], loading=["constant", "varying", "reversing"][(i // 9) % 3], sign=float(rng.choice([1, 1, -1])),
                          stride=int(rng.choice([1, 1, 5])), static=bool(rng.random() < 0.3), array_dt=bool(rng.integers(0, 2)), seed=int(rng.integers(1 << 30))))
    for i in range(6 if tier == "quick" else 24):
        cases.append(dict(what="failure", law=["mcc", "dp"][i % 2], mode=modes[(i // 2) % 3], seed=int(rng.integers(1 << 30))))
    for i in range(8 if tier == "quick" else 60):
        cases.append(dict(what="driver", law=["elastic", "dp", "fluid", "mui"][i % 4], setting=bool((i // 4) % 2), seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    return {"trx": trx, "failure": failure, "driver": driver}[case["what"]](ck, case)


def make(rng, law, p):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    if law == "mcc":
        m = hdx.ModifiedCamClay(nu=0.25, M=float(rng.uniform(0.8, 1.3)), lam=float(rng.uniform(0.03, 0.08)), kap=float(rng.uniform(0.006, 0.012)), N=2.2)
        st, s, rho = m.create_state_from_ocr(jnp.array([p]), jnp.array([float(rng.choice([1.01, 1.5, 3.0]))]))
        return m, st, np.asarray(s), float(rho[0])
    s = p * np.eye(3)[None]
    if law == "dp":
        m = hdx.DruckerPrager(K=float(100 * p), nu=0.3, mu_1=0.4, mu_2=0.4, c0=float(rng.choice([0, 0.1 * p])), mu_1_hat=float(rng.choice([0.0, 0.2])), rho_0=500.0)
        return m, m.create_state(jnp.asarray(s)), s, 1000.0
    m = hdx.LinearElasticLaw(E=float(100 * p), nu=0.3)
    return m, m.create_state(stress_ref_stack=jnp.asarray(s)), s, 1000.0


def points(s, rho):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    return hdx.MaterialPointState.create(position_stack=jnp.zeros((1, 3)), mass_stack=jnp.array([rho * 2.0]), volume_stack=jnp.array([2.0]), stress_stack=jnp.asarray(s))


def trx(ck, case):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    p = float(10 ** rng.uniform(4, 5.3))
    m, st, s, rho = make(rng, case["law"], p)
    mp = points(s, rho)
    N = 100
    dt = 1e-3
    base = case["sign"] * float(rng.uniform(0.3, 1.5)) * {"mcc": 5e-4, "dp": 1e-4, "elastic": 5e-4}[case["law"]] / dt
    rate = np.full(N, base)
    if case["loading"] == "varying":
        rate = base * rng.uniform(0.2, 1.0, N)
    elif case["loading"] == "reversing":
        rate[N // 2: 3 * N // 4] *= -0.5
    dts = dt * rng.uniform(0.5, 1.0, N) if case["array_dt"] else np.full(N, dt)
    kw = dict(num_steps=N, stride=case["stride"], start_static=case["static"], is_undrained=case["mode"] == "undrained", is_p_constant=case["mode"] == "constant_p")
    scalar = case["loading"] == "constant" and not case["array_dt"]
    if scalar:
        kw.update(axial_rate=float(base), dt=float(dt))
    else:
        kw.update(axial_rate=jnp.asarray(rate), dt=jnp.asarray(dts) if case["array_dt"] else float(dt))
    drv = hdx.ElementTestDriver(constitutive_law=m)
    test = hdx.TriaxialTest(solver=drv, confine=p, **kw)
    tmp, tls = eqx.filter_jit(lambda t, a, b: t.run(a, b))(test, mp, st)
    S, F, V, L = f(tmp.stress_stack), f(tmp.F_stack), f(tmp.volume_stack), f(tmp.L_stack)
    w = f"{case['law']} {case['mode']} {case['loading']}"
    ck.finite("finite", S, F, V, detail=w)
    applied = rate * dts
    if case["static"]:
        applied[0] = 0
    k = case["stride"]
    cum = np.cumsum(applied)[k - 1::k]
    ck.true("trajectory length", S.shape[0] == N // k, f"{S.shape}")
    ck.close("applied axial strain", -np.log(F[:, 2, 2]), cum, 1e-11, w)
    ck.close("applied axial strain", np.abs(F * (1 - np.eye(3))).max((1, 2)), 0.0, 1e-14, w + " no shear")
    J = np.linalg.det(F)
    ck.close("volume = det F V0", V, J * 2.0, 1e-12, w)
    ck.close("volume = det F V0", f(tmp.volume0_stack), 2.0, 0, w)
    first = 1 if case["static"] and k == 1 else 0
    scale = np.abs(S).max()
    tol = 1e-7 * scale
    ck.close("axisymmetric", S[:, 0, 0] - S[:, 1, 1], 0.0, 1e-10 * scale, w)
    if case["mode"] == "drained":
        ck.close("confining stress held", S[first:, 0, 0], p, tol, w)
    elif case["mode"] == "constant_p":
        ck.close("pressure held", np.trace(S, axis1=1, axis2=2)[first:] / 3, p, tol, w)
    else:
        ck.close("volume held", V, 2.0, 1e-11, w)
    if case["static"] and k == 1:
        ck.close("static start", S[0], s[0], 1e-10 * scale, w)
    # the same strain history given to the law step by step
    if k == 1:
        a, b = points(s, rho), st
        stp = eqx.filter_jit(lambda a, b, L, d: drv.step(a, b, L, d))
        for j in range(N):
            if not (case["static"] and j == 0):
                a, b = stp(a, b, jnp.asarray(L[j][None]), jnp.asarray(dts[j]))
            if j % 9 == 0 or j == N - 1:
                ck.close("replay through the law", f(a.stress_stack)[0], S[j], 1e-9 * scale, w + f" step {j}")
                ck.close("replay through the law", f(a.volume_stack)[0], V[j], 1e-12, w)
    else:
        t1 = eqx.tree_at(lambda t: t.stride, test, 1) if not isinstance(test.stride, int) else hdx.TriaxialTest(solver=drv, confine=p, **{**kw, "stride": 1})
        t1mp, _ = eqx.filter_jit(lambda t, a, b: t.run(a, b))(t1, mp, st)
        ck.close("stride subsamples", S, f(t1mp.stress_stack)[k - 1::k], 1e-9 * scale, w)
        ck.close("stride subsamples", F, f(t1mp.F_stack)[k - 1::k], 1e-12, w)
    # the strain reported beside the trajectory (two known defects, see known_findings.txt; anything else is new)
    got = f(test.axial_strain_stack)
    inc = rate * dts
    documented_bug = np.linspace(0, base * dt * N, N)[::k] if not case["array_dt"] else np.cumsum(inc)[::k]
    if not case["array_dt"] and case["loading"] != "constant":
        documented_bug = np.linspace(np.zeros(N), inc * N, N)[::k] if got.ndim == 2 else None
    right = got.shape == cum.shape and np.all(np.abs(got - cum) <= 1e-11)
    same_bug = documented_bug is not None and got.shape == documented_bug.shape and np.all(np.abs(got - documented_bug) <= 1e-12)
    ck.true("axial strain output", right, f"{w}: reported axial strain differs from the strain applied: {got.ravel()[:3]} vs {cum[:3]}",
            mech="axial-strain-offset" if same_bug else "axial strain output")
    ck.saw("axial strain output", cum.size)
    return f"{w} stride={k} sign={case['sign']} static={case['static']} array_dt={case['array_dt']}"


def failure(ck, case):
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    p = float(10 ** rng.uniform(4, 5.3))
    m, st, s, rho = make(rng, case["law"], p)
    mp = points(s, rho)
    N, dt = 1500, 1e-3
    de = 3e-4 if case["law"] == "mcc" else 5e-5
    test = hdx.TriaxialTest(solver=hdx.ElementTestDriver(constitutive_law=m), confine=p, axial_rate=float(de / dt), dt=dt, num_steps=N, stride=100,
                            is_undrained=case["mode"] == "undrained", is_p_constant=case["mode"] == "constant_p")
    a, b = eqx.filter_jit(lambda t, x, y: t.run(x, y))(test, mp, st)
    S = f(a.stress_stack)[-1]
    pm, q = np.trace(S) / 3, S[2, 2] - S[0, 0]
    w = f"{case['law']} {case['mode']}"
    if case["law"] == "mcc":
        pc = float(np.asarray(b.p_c_stack).ravel()[-1])
        ck.true("failure state", abs(q / (float(m.M) * pm) - 1) < 0.02, f"{w}: q/(M p) = {q / (float(m.M) * pm):.4f} at critical state")
        ck.true("failure state", abs(2 * pm / pc - 1) < 0.04, f"{w}: 2p/p_c = {2 * pm / pc:.4f} at critical state")
        v = 2650.0 / (rho * 2.0 / float(np.asarray(a.volume_stack).ravel()[-1]))
        vc = float(m.N) * 2 ** (float(m.kap) - float(m.lam)) * (1000.0 / pm) ** float(m.lam)
        ck.true("failure state", abs(np.log(v / vc)) < 0.04 * float(m.lam) + 1e-4, f"{w}: specific volume {v:.5f}, critical state line {vc:.5f}")
    else:
        lim = np.sqrt(3) * (float(m.mu_1) * pm + float(m.mu_2) * float(m.c0))
        ck.true("failure state", abs(q / lim - 1) < 1e-5, f"{w}: q={q:.6g}, limit {lim:.6g}")
    return "failure " + w


def driver(ck, case):
    import jax.numpy as jnp
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    from scipy.linalg import expm
    rng = sub_rng(case["seed"])
    n = 16
    law, st, s, rho = scen.make_law(rng, case["law"], n, 3)
    law, st = scen.as_arrays(law), scen.as_arrays(st)
    drv = hdx.ElementTestDriver(constitutive_law=law, is_F_linear_approx=case["setting"])
    mp = scen.points(n, 3, s, rho, rng=rng)
    F = f(mp.F_stack)
    for k in range(6):
        dt = 10.0 ** rng.uniform(-4, -1)
        L = scen.rand_L(rng, n, 3, 0.02, dt)
        arg = [None, True, False][k % 3]
        linear = case["setting"] if arg is None else arg
        mp1, st1 = drv.step(mp, st, jnp.asarray(L), dt, **({} if arg is None else dict(is_F_linear_approx=arg)))
        inc_l, inc_e = np.eye(3) - L * dt, np.stack([expm(-l * dt) for l in L])
        F1 = f(mp1.F_stack)
        want = (inc_l if linear else inc_e) @ f(mp.F_stack)
        other = inc_e @ f(mp.F_stack)
        ignored = arg is None and linear and np.abs(F1 - other).max() < 1e-12
        ck.close("driver deformation", F1, want, 1e-12, f"setting {case['setting']} argument {arg}", mech="driver-linear-setting-ignored" if ignored else "driver deformation")
        ck.close("driver volume", f(mp1.volume_stack), np.linalg.det(F1) * f(mp.volume0_stack), 1e-11, "")
        ck.close("driver keeps the rest", f(mp1.mass_stack), f(mp.mass_stack), 0.0, "mass")
        ck.close("driver keeps the rest", f(mp1.L_stack), L, 1e-15 * np.abs(L).max(), "velocity gradient")
        # one law update with that gradient, at the density before the step
        ref, rst = law.update(scen.with_L(mp, L), st, dt)
        ck.close("driver stress", f(mp1.stress_stack), f(ref.stress_stack), 1e-9 * np.abs(f(ref.stress_stack)).max() + 1e-12, case["law"])
        mp, st = mp1, st1
    return f"driver {case['law']} setting={case['setting']}"
