"""C12: the critical-state soil stays inside its yield surface, on its swelling lines, and hardens/softens by its own rules."""
import numpy as np

ID = "C12"
RULE = ("random strain histories (compression, extension, shear, spin, rest) from random over-consolidated, critical and density-defined states, with "
        "random parameters and stiffness limits, including crossings of the disconnection volume; volume integrated exactly beside the law; "
        "non-trivial: distinct (parameter class, dimension, initialisation) that yielded on the wet and/or dry side")
ASSUMPTIONS = ["strain increments of the order of a tenth of the swelling index per step, so that the documented 10 damped Newton iterations converge",
               "pressures above the documented minimum calculation pressure, and no snap-back (dry-side softening steeper than a capped shear stiffness)"]
FLOOR = {"yield never exceeded": 20000, "on the surface when yielding": 3000, "elastic when inside": 3000, "flow rule": 1000, "swelling line": 10000,
         "hardening sign": 2000, "disconnected is stress free": 200, "never tensile": 5000, "solver: yield": 3000, "solver: swelling line": 3000, "initial state": 500, "elastic strain record": 5000}


def gen_cases(rng, tier):
    cases = []
    for i in range(56 if tier == "quick" else 480):
        cases.append(dict(dim=2 + i % 2, init=["ocr", "ocr_q", "stress", "density"][(i // 2) % 4], inc=float(rng.choice([1e-3, 1e-2, 0.04, 0.1])),
                          n=int([96, 96, 96, 96, 7, 260][(i // 8) % 6]), M=float(rng.choice([0.3, 0.5, 1.0, 1.6, 1.9])), unit=[1.0, 1.0, 1e-3, 1e-6][(i // 3) % 4], bounds=bool(rng.integers(0, 2)), drift=float(rng.choice([-0.6, 0.0, 0.0, 0.6])),
                          steps=60 if tier == "quick" else 500, x64=bool(i % 4), seed=int(rng.integers(1 << 30))))
    for i in range(8 if tier == "quick" else 40):
        cases.append(dict(dim=2 + i % 2, init="solver", scheme=["usl", "usl_aflip"][(i // 2) % 2], ocr=float(rng.choice([1.0, 1.5, 5.0])),
                          steps=60 if tier == "quick" else 300, seed=int(rng.integers(1 << 30))))
    return cases


def inv(s):
    p = np.trace(s, axis1=1, axis2=2) / 3
    d = s - p[:, None, None] * np.eye(3)
    return p, d, np.sqrt(1.5 * (d * d).sum((1, 2)))


def run_case(ck, case):
    import jax.numpy as jnp
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f, eps_of
    if case["init"] == "solver":
        return solver(ck, case)
    rng = sub_rng(case["seed"])
    n, dim = case["n"], case["dim"]
    kap = float(rng.choice([*rng.uniform(0.004, 0.03, 3), rng.uniform(0.03, 0.06)]))
    lam = kap * float(rng.uniform(2.5, 8))
    nu, M, N, rho_p = float(rng.uniform(0.0, 0.45)), case["M"], float(rng.uniform(1.5, 3.0)), float(rng.choice([2650.0, 2650.0, rng.uniform(50, 500), rng.uniform(5e3, 2e4)]))
    u = case.get("unit", 1.0)              # stresses in Pa, kPa or MPa; the minimum pressure is given in the same units
    pref = float(rng.choice([1.0, 1000.0, 1000.0, 3e4])) * u
    p_min = 10.0 * u
    kw = dict(K_min=1e5 * u, K_max=5e6 * u) if case["bounds"] else {}
    law = scen.as_arrays(hdx.ModifiedCamClay(nu=nu, M=M, lam=lam, kap=kap, N=N, p_ref=pref, p_min_calc=p_min, rho_p=rho_p, **kw))
    nu, M, N, lam, kap, pref, p_min = (float(x) for x in (law.nu, law.M, law.N, law.lam, law.kap, law.p_ref, law.p_min_calc))
    p = u * 10 ** rng.uniform(3.2, 5.5 if rng.random() < 0.7 else 7.0, n)
    ocr = 10 ** rng.uniform(0, 1.0, n) * (1 + 1e-3)
    one = rng.random() < 0.4               # the same over-consolidation ratio for all points, given as a number
    if one:
        ocr[:] = ocr[0]
    eps_in = eps_of(jnp.asarray(p))
    v_sl = lambda p, pc: N * (pref / pc) ** lam * (pc / p) ** kap
    if case["init"].startswith("ocr"):
        q = None
        if case["init"] == "ocr_q":
            q = rng.uniform(0, 2.0, n) * M * p * np.sqrt(ocr - 1)
        ls, stress, rho = law.create_state_from_ocr(jnp.asarray(p), float(ocr[0]) if one else jnp.asarray(ocr), None if q is None else jnp.asarray(q))
        s = f(stress)
        pi, di, qi = inv(s)
        ck.close("initial state", pi, p, 30 * eps_in * p * (1 + M * ocr), "pressure from OCR")
        ck.close("initial state", f(ls.p_c_stack), p * ocr, 8 * eps_in * p * ocr, "preconsolidation pressure = OCR p")
        qy = M * p * np.sqrt(ocr - 1)
        ck.close("initial state", qi, 0 * p if q is None else np.minimum(q, qy), 1e3 * eps_in * p * (1 + M * ocr) * np.sqrt(1 + 1 / (ocr - 1)), "shear stress kept inside, projected outside the yield surface")
        ck.close("initial state", f(rho), rho_p / v_sl(p, p * ocr), 100 * eps_in * f(rho), "density from the swelling line")
    elif case["init"] == "stress":
        q = rng.uniform(0, 1.5, n) * M * p
        ls, rho = law.create_state_from_stress(jnp.asarray(p), jnp.asarray(q))
        stress = f(ls.stress_ref_stack)
        pi, di, qi = inv(f(stress))
        pc = f(ls.p_c_stack)
        ck.close("initial state", pi, p, 100 * eps_in * p, "pressure")
        ck.close("initial state", qi, q, 100 * eps_in * (p + q), "shear stress")
        ck.close("initial state", q ** 2 / M ** 2 + p ** 2 - pc * p, 0.0, 100 * eps_in * pc ** 2, "on the yield surface")
        ck.close("initial state", f(rho), rho_p / v_sl(p, pc), 100 * eps_in * f(rho), "density from the swelling line")
    else:
        rho = rho_p / v_sl(p, p * ocr)
        ls, v = law.create_state_from_density(jnp.asarray(p), jnp.asarray(rho))
        stress = f(ls.stress_ref_stack)
        ck.close("initial state", f(v), rho_p / rho, 8 * eps_in * f(v), "specific volume")
        ck.close("initial state", f(ls.p_c_stack), p * ocr, 300 * eps_in / (lam - kap) * p * ocr, "preconsolidation pressure recovered from density")
        pi, di, qi = inv(f(stress))
        ck.close("initial state", pi, p, 100 * eps_in * p, "pressure")
        ck.close("initial state", qi, 0.0, 100 * eps_in * p, "isotropic")
    pk = p.copy()
    ck.close("initial state", f(law.get_v_csl(jnp.asarray(pk), pref, N, lam, kap)), v_sl(pk, 2 * pk), 100 * eps_in * v_sl(pk, 2 * pk), "critical state line: the swelling line at half the consolidation pressure")
    ls = scen.as_arrays(ls)
    mp = scen.points(n, dim, f(stress), f(rho), rng=rng)
    eps = eps_of(mp.stress_stack)
    pi, di, qi = inv(f(mp.stress_stack))
    iso = qi < 1e-6 * pi
    ck.close("initial state", f(law.create_state(mp).p_c_stack)[iso], pi[iso], 30 * eps * pi[iso], "from the points alone: normally consolidated")
    dt = 10.0 ** rng.uniform(-8, 1)
    v_true = rho_p / f(mp.mass_stack / mp.volume_stack)
    v0_line = v_sl(inv(f(mp.stress_stack))[0], f(ls.p_c_stack))
    off = np.log(v_true / v0_line)          # zero unless rounding
    track = np.ones(n, bool)
    lost = np.zeros(n, bool)
    seen = set()
    inc = (case["inc"] if case["M"] >= 0.5 else min(case["inc"], 0.02)) * kap      # flat ellipse: large steps do not converge
    cum = 0.0
    vac_side = rng.random(n) < 0.06
    drift = case["drift"]
    for k in range(case["steps"]):
        L = scen.rand_L(rng, n, dim, inc * 10 ** rng.uniform(-1, 0), dt)
        if k % 20 == 10:
            drift = -drift
        L = L + drift * inc / dt * np.diag([1, 1, 1.0 if dim == 3 else 0]) / 3
        tr = np.trace(L, axis1=1, axis2=2)
        mp = scen.with_L(mp, L)
        L = f(mp.L_stack)
        dev = np.trace(L, axis1=1, axis2=2) * dt
        # the law sees the volume of its own history, except where a particle is driven through the disconnection volume
        vac = vac_side & ((k // 7) % 3 == 1)
        v_now = np.where(vac, 1.02 * N, np.minimum(v_true, 0.99 * N))
        mp = scen.with_density(mp, rho_p / v_now)
        s0, pc0, e0 = f(mp.stress_stack), f(ls.p_c_stack), f(ls.eps_e_stack)
        mp, ls = scen.law_step(law, mp, ls, dt)
        s1, pc1 = f(mp.stress_stack), f(ls.p_c_stack)
        v_true = v_true * np.exp(-dev)
        w = f"step {k}"
        ck.finite("finite", s1, pc1, f(ls.eps_e_stack), detail=w)
        ck.close("disconnected is stress free", s1[vac], 0.0, 0.0, w)
        e1 = f(ls.eps_e_stack)
        ck.close("disconnected is stress free", pc1[vac], pc0[vac], 0.0, w + " consolidation is remembered")
        con = ~vac
        track &= con
        every = con
        ck.close("stress symmetric", s1, np.swapaxes(s1, 1, 2), 40 * eps * (np.abs(s1).max((1, 2)) + np.abs(s0).max((1, 2)))[:, None, None] + 1e-300, w)
        W = -0.5 * (L - np.swapaxes(L, 1, 2))
        D = 0.5 * (L + np.swapaxes(L, 1, 2))
        sr = s0 + (W @ s0 - s0 @ W) * dt
        p0, d0, q0 = inv(sr)
        pe = np.maximum(p0, p_min)
        track &= p0 >= p_min
        ptr = pe * np.exp(dev / kap)
        Kb = lambda p: np.clip(np.maximum(p, 0.1 * p_min) / kap, 1e5 * u if case["bounds"] else None, 5e6 * u if case["bounds"] else None)
        g = 3 * (1 - 2 * nu) / (2 * (1 + nu))
        dD = D - np.trace(D, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
        dtr = d0 + 2 * g * Kb(np.maximum(ptr, p_min))[:, None, None] * dD * dt
        qtr = np.sqrt(1.5 * (dtr * dtr).sum((1, 2)))
        p1, d1, q1 = inv(s1)
        ftr = qtr ** 2 / M ** 2 + ptr ** 2 - pc0 * ptr
        f1 = q1 ** 2 / M ** 2 + p1 ** 2 - pc1 * p1
        sc = (qtr / M) ** 2 + ptr ** 2 + pc0 * ptr + p1 ** 2 + pc1 * p1
        # what remains of a Newton iteration damped by 0.8 after 10 steps, plus rounding
        con = every
        T = (3e-6 + 1e-3 * np.clip(ftr / (pc0 * ptr), 0, 1)) * np.maximum(ftr, 0) + 200 * eps * sc * (1 + np.abs(np.log(pc0)) + 1 / kap * np.abs(dev))
        T = T + (qtr < 1e-6) * 2e-12 / M ** 2          # the return treats shear below 1e-6 as 1e-6
        # where a stiffness cap or the minimum pressure makes shear softer than the dry-side softening, the return has no
        # nearby solution (snap-back): such particles are not judged from then on
        hard = (pe < 200 * u) | (pc0 < 200 * u) | ((ptr / kap > 4e6 * u) & case["bounds"] & (2 * ptr < 1.2 * pc0))
        lost |= every & hard & (ftr > -0.02 * pc0 * ptr)
        lost |= vac
        con = every & ~lost
        track &= ~lost
        ck.all("yield never exceeded", f1[con] <= T[con], w + f" f/scale={np.max((f1 / sc)[con]):.3g}", mech="yield exceeded")
        ck.all("never tensile", p1[every] > -100 * eps * sc[every] ** 0.5, w)
        ela = con & (ftr < -T)
        Ts = 60 * eps * (np.abs(s0).max((1, 2)) + ptr + qtr + pe * np.abs(dev) / kap)
        ck.close("elastic when inside", s1[ela], (dtr + ptr[:, None, None] * np.eye(3))[ela], Ts[ela][:, None, None], w)
        ck.close("elastic when inside", pc1[ela], pc0[ela], 0.0, w + " preconsolidation")
        etr = e0 + (W @ e0 - e0 @ W) * dt + D * dt
        ck.close("elastic strain record", e1[ela], etr[ela], (40 * eps * (np.abs(e0).max((1, 2)) + np.abs(D).max((1, 2)) * dt)[ela])[:, None, None] + 1e-300, w + " grows by the strain, turned with the material")
        pl = con & (ftr > T)
        ck.all("on the surface when yielding", np.abs(f1[pl]) <= (3 * T)[pl], w)
        ck.close("flow rule", d1[pl] * qtr[pl][:, None, None], dtr[pl] * q1[pl][:, None, None], (20 * (Ts * (q1 + qtr + Ts))[pl])[:, None, None] + 1e-9 * u * u, w + " deviatoric direction")
        pr, dr, _ = inv(f(ls.stress_ref_stack))
        sec = (d1 - dr) / (2 * g * Kb(p1))[:, None, None] + ((p1 - pr) / Kb(p1) / 3)[:, None, None] * np.eye(3)
        ck.close("elastic strain record", e1[pl], sec[pl], ((400 * eps * (p1 + pr + qtr + q1) / np.minimum(Kb(p1), g * Kb(p1)) * (1 + np.abs(sec).max((1, 2)))))[pl][:, None, None] + 1e-300, w + " explains the stress beyond the reference when yielding")
        dpv = (lam - kap) * np.log(pc1 / pc0)
        G = g * Kb(p1)
        with np.errstate(all="ignore"):
            mult = (qtr / q1 - 1) / (6 * G)
        want = mult * (2 * p1 - pc1) * M ** 2
        ok = pl & (q1 > 0.02 * p1) & (np.abs(mult) * 6 * G > 1e-4)
        # both sides of associated flow, compared with the increment that was applied
        deps = np.abs(dev) + np.sqrt((dD * dD).sum((1, 2))) * dt
        ck.close("flow rule", dpv[ok], want[ok], ((1e-5 + 1e-3 * np.clip(ftr / (pc0 * ptr), 0, 1)) * deps + 1e-4 * np.abs(want) + 400 * eps * (1 + np.abs(2 * p1 - pc1) / G * M ** 2 * (qtr / q1) * (ptr + qtr) / q1))[ok], w + " dilatancy")
        ck.all("flow rule", mult[ok] > 0, w + " plastic multiplier")
        wet = pl & (2 * p1 > pc1 * 1.02) & (ftr > 100 * T)
        dry = pl & (2 * p1 < pc1 * 0.98) & (ftr > 100 * T)
        ck.all("hardening sign", pc1[wet] > pc0[wet] * (1 - 8 * eps), w + " wet side hardens")
        ck.all("hardening sign", pc1[dry] < pc0[dry] * (1 + 8 * eps), w + " dry side softens")
        tv = 3e-6 * (k + 1) * inc + 60 * eps * (k + 2)
        with np.errstate(all="ignore"):
            ck.close("swelling line", np.log(v_true / v_sl(p1, pc1))[track], off[track], tv, w)
        # keep the state in the range of the model
        if wet.any():
            seen.add("wet")
        if dry.any():
            seen.add("dry")
    ck.saw("still tracked", int(track.sum()))
    ck.saw("left the judged range", int(lost.sum()))
    return f"{dim}D {case['init']} M={M:.2g} inc={case['inc']} drift={case['drift']} bounds={case['bounds']} unit={u} x64={case['x64']} {sorted(seen)}" if seen else None


def solver(ck, case):
    import jax.numpy as jnp
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], 0.1
    L = 8 * h
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(L,) * dim, cell_size=h)
    x = scen.lattice(rng, dim, [0.3 * L] * dim, [0.6 * L] * dim, h / 2, 0.2)
    n = len(x)
    M, lam, kap, N, rho_p, pref = 1.1, 0.06, 0.015, 1.9, 2650.0, 1000.0
    law = hdx.ModifiedCamClay(nu=0.25, M=M, lam=lam, kap=kap, N=N, rho_p=rho_p, p_ref=pref)
    p0 = 5000.0 + 1500.0 * 9.81 * np.maximum(0.6 * L - x[:, -1], 0)
    ls, stress, rho = law.create_state_from_ocr(jnp.asarray(p0), jnp.full((n,), case["ocr"]))
    V = np.full(n, (h / 2) ** dim)
    squeeze = -(x - x.mean(0)) * rng.uniform(-0.3, 1.0, dim) + 0.1 * rng.normal(size=x.shape)
    p_idx = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(squeeze), volume_stack=jnp.asarray(V), mass_stack=jnp.asarray(V) * rho, stress_stack=stress)
    c_idx = sb.add_constitutive_law(law=law, law_state=ls)
    sb.couple(p_idx=p_idx, g_idx=0, c_idx=c_idx, shapefunction="cubic")
    sb.add_gravity(gravity=jnp.asarray([0.0] * (dim - 1) + [-9.81]))
    s = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.array([0.0] * (dim - 1) + [1.0])), center_of_mass=jnp.asarray([0.0] * (dim - 1) + [0.28 * L]))
    sb.add_sdf_collider(sdf_idx=s)
    sb.set_solver(scheme=case["scheme"])
    dt = 1e-4
    solver_, state = sb.build(dt=dt)
    second, low, yielded, pc_prev = np.zeros(n), np.zeros(n, bool), 0, None
    for k, st in enumerate(scen.run(solver_, state, case["steps"])):
        if k == 0:
            continue
        mp, l = st.world.material_points[0], st.mechanics.constitutive_laws[0]
        sg, pc, Lk = f(mp.stress_stack), f(l.p_c_stack), f(mp.L_stack)
        v = rho_p * f(mp.volume_stack) / f(mp.mass_stack)
        p, d, q = inv(sg)
        second += (np.linalg.norm(Lk, axis=(1, 2)) * dt) ** 2
        ck.finite("finite", sg, pc)
        dis = v > N * (1 + 1e-9)
        ck.close("solver: disconnected", sg[dis], 0.0, 0.0, f"step {k}")
        low |= (p < 50) | (v > N * 0.99999)
        ok = ~low
        fy = q ** 2 / M ** 2 + p ** 2 - pc * p
        ck.all("solver: yield", fy[ok] <= 2e-5 * pc[ok] ** 2, f"step {k}", mech="yield exceeded in solver")
        ck.close("solver: swelling line", np.log(v / (N * (pref / pc) ** lam * (pc / p) ** kap))[ok], 0.0, (4 * second + 1e-7)[ok], f"step {k}")
        yielded += int((np.abs(fy) < 1e-5 * pc ** 2)[ok].sum())
    return f"solver {dim}D {case['scheme']} ocr={case['ocr']} {case['seed'] % 5}" if yielded else None
