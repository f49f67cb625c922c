"""C24: damping opposes motion by its stated amount, and neither damping, transfers nor resting obstacles ever add energy."""
import numpy as np

ID = "C24"
RULE = ("stress-free clouds moved with every scheme, kernel and blending beside resting obstacles (kinetic energy, with the energy of the affine field, watched every step); damped scenes "
        "compared with local (Cundall) damping evaluated independently; solids, soils and fluids falling onto a floor with total energy watched over hundreds of steps; "
        "non-trivial: distinct (part, law, kernel, scheme, dimension, obstacle, forces)")
ASSUMPTIONS = ["the energy of the affine field counts with the kernel's own inertia (quadratic and cubic kernels)", "blended (FLIP) velocities beside obstacles are left out of the per-step bound",
               "falling bodies: time step a fifth of the critical one, 3 % of the available energy allowed for time integration"]
FLOOR = {"transfers add no kinetic energy": 150, "damping follows its law": 200, "damping off": 1, "damping leaves bodies at rest alone": 10, "damping makes a difference": 6, "energy really taken": 50, "frames with kinetic energy": 100, "total energy does not grow": 300}


def gen_cases(rng, tier):
    cases = []
    for i in range(12 if tier == "quick" else 160):
        sch = ["usl", "usl_aflip"][i % 2]
        obs = [None, "sphere", "plane"][int(rng.integers(3))]
        cases.append(dict(what="transfer", scheme=sch, dim=2 if i % 3 else 3, kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))] if sch == "usl" else ["quadratic", "cubic"][int(rng.integers(2))],
                          alpha=0.0 if obs or sch == "usl_aflip" else float(rng.uniform(0, 1)), obstacle=obs, seed=int(rng.integers(1 << 30))))
    for i in range(28 if tier == "quick" else 240):
        cases.append(dict(what="damp", cell=[0.5, 0.05, 4.0][(i + i // 3) % 3], start=[0.0, 3.0, 500.0][(i + i // 6) % 3], idle=(i + i // 4) % 5, separate=bool(rng.integers(2)),
                          speed=[None, 1e-4, 30.0][int(rng.integers(3))], scheme=["usl", "usl_aflip"][i % 2], dim=2 if i % 3 else 3, kernel=["linear", "quadratic", "cubic"][int(rng.integers(3))], grid=i % 4 in (1, 2),
                          gravity=[None, "grid", "points"][int(rng.integers(3))] if i % 4 in (1, 2) else "points", law=["elastic", "mui", "dp", "mcc", "fluid"][int(rng.integers(5))], nb=int(rng.integers(1, 4)),
                          alpha=float([0.05, 0.5, 1.0, 0.01, 0.95, rng.uniform(0, 1), 0.0 if i % 4 != 1 else 0.7][(i + i // 7) % 7]) if i else 0.0, rest=i % 4 == 1, x64=True, seed=int(rng.integers(1 << 30))))
    for i in range(5 if tier == "quick" else 60):
        cases.append(dict(what="fall", scheme=["usl_aflip", "usl"][i % 2], law=["elastic", "mui", "dp", "mcc", "fluid"][i % 5], kernel=["quadratic", "cubic"][int(rng.integers(2))], damp=bool(rng.integers(2)), dim=2,
                          spin=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return dict(transfer=transfer, damp=damp, fall=fall)[case["what"]](ck, case)


def transfer(ck, case):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import scen
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], 0.5
    n = int(rng.integers(10, 50))
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0,) * dim, end=(4.0,) * dim, cell_size=h)
    x = rng.uniform(1.2, 2.8, (n, dim))
    m = 10 ** rng.uniform(-1, 1, n)
    v = rng.normal(size=(n, dim)) * 10 ** rng.uniform(-1, 1)
    p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.full((n,), .01), mass_stack=jnp.asarray(m))
    c = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e-9, nu=.2))
    sb.couple(p_idx=p, g_idx=0, c_idx=c, shapefunction=case["kernel"])
    if case["obstacle"]:
        nrm = rng.normal(size=dim)
        s = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=.6) if case["obstacle"] == "sphere" else hdx.PlaneSDF(normal=jnp.asarray(nrm)), center_of_mass=jnp.full((dim,), 1.5))
        sb.add_sdf_collider(sdf_idx=s, friction=float(rng.uniform(0, 1)))
    par = dict(alpha=case["alpha"])
    if case["scheme"] == "usl_aflip":
        par.update(use_dynamic_alpha=False, cfl_limit=100.0, small_mass_cutoff=1e-14)
    sb.set_solver(scheme=case["scheme"], **par)
    solver, state = sb.build(dt=1e-3)
    D = h**2 * (1 / 4 if case["kernel"] == "quadratic" else 1 / 3)

    def energy(st):
        mp = st.world.material_points[0]
        e = 0.5 * (m * (f(mp.velocity_stack) ** 2).sum(1)).sum()
        if case["scheme"] == "usl_aflip":
            B = f(st.mechanics.solvers[0].Bp_stack)
            e += 0.5 * (m * D * (B**2).sum((1, 2))).sum()
        return e

    old = None
    note = f"{case['scheme']} {case['kernel']} {dim}D alpha={case['alpha']:.3g} obstacle={case['obstacle']}"
    e0 = energy(state)
    for k, st in enumerate(scen.run(solver, state, 15)):
        e = energy(st)
        if old is not None:
            ck.true("transfers add no kinetic energy", e <= old * (1 + 1e-12) + 1e-12 * e0, f"{note}: step {k}: {old} -> {e}")
            ck.saw("energy really taken", int(e < old * (1 - 1e-6)))
        old = e
    return f"transfer {case['scheme']} {case['kernel']} {dim}D alpha={'0' if case['alpha'] == 0 else '>0'} o={case['obstacle']}"


def damp(ck, case):
    import jax.numpy as jnp
    import ref
    import scen
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], case.get("cell", 0.5)
    g = rng.normal(size=dim) * (10 if rng.random() < .5 else 10 ** rng.uniform(-5, 2)) if case["gravity"] else None
    dt = 2e-3 * h
    ng = case["nb"] if case.get("separate") else 1
    al = case["alpha"]
    aflip = case["scheme"] == "usl_aflip"
    bodies = [dict(n=int(rng.integers(6, 25)), law=case["law"] if k == 0 else "elastic", kernel=case["kernel"], vel=0.0 if case.get("rest") else float(case.get("speed") or rng.choice([.1, 1, 5])), box=(.3, .7), grid=k % ng) for k in range(case["nb"])]
    par = dict(alpha=float(rng.uniform(0, 1)))
    if aflip:
        par.update(use_dynamic_alpha=False, beta_min=.1, beta_max=.1, cfl_limit=100.0)
    # damping registered before the builder's own forces would damp nothing: it comes after gravity
    damped = list(range(case["nb"])) if case["grid"] or rng.random() < .5 else [case["nb"] - 1]
    pull = list(range(case["nb"]))
    # which grids are damped: all of them, or the last only
    which = list(range(ng)) if rng.random() < .6 else [ng - 1]

    def hook(sb):
        for j in range(case.get("idle", 0)):
            sb.add_gravity(gravity=jnp.zeros(dim), is_apply_on_grid=bool(j % 2))
        if g is not None:
            sb.add_gravity(gravity=jnp.asarray(g), is_apply_on_grid=case["gravity"] == "grid", p_idx_list=pull, g_idx_list=list(range(ng)))
        sb.add_damping(alpha=al, is_apply_on_grid=case["grid"], p_idx_list=damped, g_idx_list=which)

    spec = dict(dim=dim, scheme=case["scheme"], params=par, cell=h, bodies=bodies, dt=dt, L=8 * h if dim == 2 else 6 * h, hook=hook, grids=ng, time=case.get("start", 0.0))
    solver, state, _ = scen.build(spec, rng)
    prm = dict(scheme=case["scheme"], alpha=par["alpha"], cutoff=1e-7 if aflip else 1e-12, dyn=False, smin=0, smax=1, bmin=.1, bmax=.1, cfl=100.0, mls=True)
    grid = ref.Grid.of(solver.grid_domains[0])
    prev = pst = None
    note = f"{case['scheme']} {case['kernel']} {dim}D {'grid' if case['grid'] else 'points'} gravity={case['gravity']} alpha={al}"
    for k, st in enumerate(scen.run(solver, state, 3)):
        sn = scen.snapshot(st)
        for gi in range(ng) if prev is not None else ():
            bs = []
            mine = [b for b in range(case["nb"]) if b % ng == gi]
            for b in mine:
                s = prev[b]
                d = dict(x=s["position"], v=s["velocity"], m=s["mass"], V=s["volume"], V0=s["volume0"], stress=s["stress"], F=s["F"], F_store=None, kernel=case["kernel"])
                if aflip:
                    d["Bp"] = np.asarray(pst.mechanics.solvers[b].Bp_stack, float)
                if case["gravity"] == "points":
                    d["fext"] = s["mass"][:, None] * g
                    if not case["grid"] and b in damped:
                        d["fext"] = d["fext"] - al * np.abs(d["fext"]) * np.sign(s["velocity"])
                bs.append(d)
            M, P, Fo = ref.p2g(grid, bs)
            if case["gravity"] == "grid":
                Fo = Fo + M[:, None] * g
            F0 = Fo
            amb = np.zeros(len(M), bool)
            if case["grid"] and gi in which:
                Fo = Fo - al * np.abs(Fo) * np.sign(P)
                A = sum((dd["W"] * dd["m"][:, None]).T @ np.abs(dd["v"]).max(1, keepdims=True) for dd in bs)
                amb = (np.abs(P) < 1e-9 * A).any(1) & (M > 0)
                # what damping does to every node: it never drives
                ck.true("damping never drives", ((Fo - F0) * P <= 0).all(), note)
            for b, d in zip(mine, bs):
                light = (M > 0) & (M < 1e-6)
                ok = ~((d["W"][:, amb | light] > 0).any(1))
                o = ref.g2p(grid, d, M, P, P + dt * Fo, dt, prm)
                sc = np.abs(o["v"]).max() + dt * np.abs(F0 / np.maximum(M, 1e-6)[:, None]).max()
                ck.close("damping follows its law", sn[b]["velocity"][ok], o["v"][ok], 1e-9 * sc, f"{note}: step {k} body {b}")
                if case.get("rest") and k == 1 and al:
                    ck.saw("damping leaves bodies at rest alone", int(ok.sum()))
                if al and ok.any():
                    o0 = ref.g2p(grid, d, M, P, P + dt * F0, dt, prm)
                    ck.saw("damping makes a difference", int(np.abs(o0["v"][ok] - o["v"][ok]).max() > 1e-6 * sc))
                if not al:
                    ck.saw("damping off", 1)
        prev, pst = sn, st
    return f"damp {note.split(' alpha')[0]} {case['law']} {'off' if not al else 'on'}{' from rest' if case.get('rest') else ''}"


def fall(ck, case):
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import scen
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h = 0.1
    kind = case["law"]
    x = scen.lattice(rng, 2, [.5, .16], [1.1, .7], h / 2)
    n = len(x)
    rho = np.full(n, 1000.0)
    stiff = 4e5
    st, stress = None, np.zeros((n, 3, 3))
    if kind == "elastic":
        law = hdx.LinearElasticLaw(E=stiff, nu=.3)
        cw = (1.35 * stiff / 1000) ** .5
    elif kind == "fluid":
        law = hdx.NewtonFluid(K=stiff, viscosity=.1, beta=1.0)
        st = law.create_state_from_density(density_stack=jnp.asarray(rho))
        cw = (stiff / 1000) ** .5
    elif kind == "mui":
        law = hdx.MuI_LC(mu_s=.38, mu_d=.64, I_0=.28, d_p=.005, K=stiff, rho_p=2650.0, alpha=1e-2)
        st = law.create_state_from_density(density_stack=jnp.asarray(rho))
        cw = (stiff / 1000) ** .5
    elif kind == "dp":
        law = hdx.DruckerPrager(K=stiff, nu=.3, mu_1=.6, mu_2=0.0, c0=0.0, rho_0=950.0)
        st = law.create_state(jnp.zeros((n, 3, 3)))
        cw = (1.7 * stiff / 1000) ** .5
    else:
        law = hdx.ModifiedCamClay(nu=.3, M=1.1, lam=.03, kap=.008, N=1.5, rho_p=2650.0)
        st, s, d = law.create_state_from_ocr(jnp.full((n,), 2000.0), jnp.full((n,), 1.2))
        stress, rho = np.asarray(s), np.asarray(d)
        cw = (3 * 2000 / .008 / 1500) ** .5
    vol = np.full(n, (h / 2) ** 2)
    m = vol * rho
    drop = float(rng.uniform(.3, 1.2))
    v = np.zeros((n, 2))
    v[:, 1] = -drop
    if case["spin"]:
        r = x - x.mean(0)
        v += np.stack([-r[:, 1], r[:, 0]], 1) * float(rng.uniform(-1, 1))
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(1.6, 1.2), cell_size=h)
    p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.asarray(vol), mass_stack=jnp.asarray(m), stress_stack=jnp.asarray(stress))
    c = sb.add_constitutive_law(law=law, law_state=st)
    sb.couple(p_idx=p, g_idx=0, c_idx=c, shapefunction=case["kernel"])
    gy = -9.81
    sb.add_gravity(gravity=jnp.array([0.0, gy]))
    s = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.array([0.0, 1.0])), center_of_mass=jnp.array([.8, .12]))
    sb.add_sdf_collider(sdf_idx=s, friction=float(rng.uniform(0, .6)))
    if case["damp"]:
        sb.add_damping(alpha=.05)
    par = dict(alpha=float(rng.choice([.5, .9, .99])))
    sb.set_solver(scheme=case["scheme"], **par)
    dt = .2 * .5 * h / cw / 2
    solver, state = sb.build(dt=dt)
    state = scen.as_arrays(state)

    def stats(z):
        mp = z.world.material_points[0]
        return mp.position_stack, mp.velocity_stack, mp.stress_stack, mp.volume_stack

    @jax.jit
    def go(z):
        def body(z, _):
            for _ in range(4):
                z = solver(z)
            return z, stats(z)
        return jax.lax.scan(body, z, None, length=150)

    _, (X, V, S, W) = go(state)
    X, V, S, W = f(X), f(V), f(S), f(W)
    floor = .12
    ke = 0.5 * (m * (V**2).sum(2)).sum(1)
    pe = (m * 9.81 * (X[:, :, 1] - floor)).sum(1)
    if kind == "elastic":
        tr = np.trace(S, axis1=2, axis2=3)
        el = (W * ((1 + .3) / (2 * stiff) * (S**2).sum((2, 3)) - .3 / (2 * stiff) * tr**2)).sum(1)
    else:
        el = 0 * ke
    stored = 0.0
    if kind == "mcc":      # energy in the initial stress: p kap per volume, at most
        stored = float((vol * 2000 * .008 * 1.5).sum())
    e0 = 0.5 * (m * (v**2).sum(1)).sum() + (m * 9.81 * (x[:, 1] - floor)).sum() + stored
    slack = 0.03 * (0.5 * (m * (v**2).sum(1)).sum() + (m * 9.81 * (x[:, 1] - x[:, 1].min())).sum() + (m.sum() * 9.81 * .04))
    note = f"{kind} {case['kernel']} {case['scheme']} damping={case['damp']}"
    for k in range(len(ke)):
        e = ke[k] + pe[k] + el[k]
        ck.true("total energy does not grow", np.isfinite(e) and e <= e0 + slack, f"{note}: frame {k}: {e0:.5g} -> {e:.5g} (slack {slack:.3g})")
    if case.get("verbose"):
        print(note, e0, (ke + pe + el)[::15], slack)
    ck.saw("frames with kinetic energy", int((ke > 1e-6 * e0).sum()))
    ck.true("stays above the floor", X[:, :, 1].min() > floor - 1.1 * h, f"{note}: lowest point {X[:, :, 1].min()}")
    return f"fall {note}"
