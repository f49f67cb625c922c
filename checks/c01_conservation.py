"""C01: mass, linear and (affine transfer) angular momentum of force-free motion."""
import numpy as np
import jax.numpy as jnp

ID = "C01"
RULE = ("random scenes (2D/3D, both schemes, all kernels, 1-3 bodies with random laws, stresses and velocities on shared or "
        "separate grids, no external force) stepped several times; non-trivial: the internal forces moved momentum between "
        "particles (velocity changed by more than 1e-6 of its scale)")
ASSUMPTIONS = ["bodies stay at least two cells from the end of the grid", "per-particle adaptive blending and velocity clamping are off"]
FLOOR = {"linear momentum": 100, "mass constant": 100, "angular momentum": 10, "grid momentum per body group": 20}


def gen_cases(rng, tier):
    cases = []
    n = 46 if tier == "quick" else 400
    for i in range(n):
        dim = [2, 3][i % 2]
        scheme = ["usl", "usl_aflip", "usl_aflip"][i % 3]
        nb = int(rng.integers(1, 4))
        split = bool(rng.integers(0, 2)) and nb > 1
        apic = scheme == "usl_aflip" and i % 6 == 2 or (scheme == "usl_aflip" and rng.random() < 0.25)
        kern = ["linear", "quadratic", "cubic"]
        if apic:
            kern = kern[1:]
        bodies = [dict(n=int(rng.integers(1, 40)), law=str(rng.choice(["elastic", "fluid", "mui", "dp", "mcc"])),
                       kernel=str(rng.choice(kern)), grid=(b if split else 0)) for b in range(nb)]
        if not split:
            pass
        params = dict(alpha=float(rng.choice([0.0, 0.3, 0.9, 1.0])))
        if apic:
            params["alpha"] = 0.0
        if scheme == "usl_aflip":
            params.update(use_dynamic_alpha=False, cfl_limit=1e6, use_mls_update=not apic)
            if rng.random() < 0.5 or apic:
                params["small_mass_cutoff"] = 1e-14
        cases.append(dict(dim=dim, scheme=scheme, params=params, bodies=bodies, grids=nb if split else 1, apic=bool(apic),
                          cell=float(rng.choice([0.1, 0.37, 1.0])), steps=3 if tier == "quick" else 12,
                          x64=bool(i % 5), seed=int(rng.integers(1 << 30))))
        if i % 5 in (2, 4):
            import scen
            w = scen.wide(i // 5, rng)
            cases[-1].update(cell=w["cell"], wide=w)
            if i % 10 == 4:
                bodies[0]["n"] = int(rng.choice([300, 1100]))
            elif i % 10 == 7:
                cases[-1]["bodies"] = [dict(bodies[k % nb], n=[1, 2, 9, 4, 1][k]) for k in range(5)]
    return cases


def ang(x, v, m, C, D):
    """total angular momentum, with the affine part m D eps_ijk C_kj"""
    dim = x.shape[1]
    X = np.pad(x, ((0, 0), (0, 3 - dim)))
    V = np.pad(v, ((0, 0), (0, 3 - dim)))
    Lr = (m[:, None] * np.cross(X, V)).sum(0)
    if C is not None:
        ax = np.stack([C[:, 2, 1] - C[:, 1, 2], C[:, 0, 2] - C[:, 2, 0], C[:, 1, 0] - C[:, 0, 1]], -1)
        Lr = Lr + (m[:, None] * D * ax).sum(0)
    return Lr


def run_case(ck, case):
    import scen
    from vlib import sub_rng, eps_of
    rng = sub_rng(case["seed"])
    spec = dict(dim=case["dim"], scheme=case["scheme"], params=case["params"], cell=case["cell"], grids=case["grids"],
                bodies=case["bodies"])
    h = case["cell"]
    # time step: particles move a small fraction of a cell
    spec["dt"] = 2e-3 * h
    if "wide" in case:
        spec = scen.widened(spec, case["wide"])
    solver, state, info = scen.build(spec, rng)
    dt = spec["dt"]
    m = [np.asarray(mp.mass_stack) for mp in state.world.material_points]
    groups = {}
    for b, body in enumerate(case["bodies"]):
        groups.setdefault(body["grid"], []).append(b)
    cutoff = case["params"].get("small_mass_cutoff", 1e-7 if case["scheme"] == "usl_aflip" else 1e-12)
    prev, moved = None, 0.0
    S0 = None
    for k, st in enumerate(scen.run(solver, state, case["steps"])):
        sn = scen.snapshot(st)
        e = eps_of(st.world.material_points[0].velocity_stack)
        for b, s in enumerate(sn):
            ck.all("mass constant", np.asarray(st.world.material_points[b].mass_stack) == m[b], "particle mass changed")
            ck.finite("finite", s["position"], s["velocity"], s["stress"], s["F"])
        if prev is not None:
            for g, bs in groups.items():
                P0 = sum((s["mass"][:, None] * s["velocity"]).sum(0) for s in [prev[b] for b in bs])
                P1 = sum((s["mass"][:, None] * s["velocity"]).sum(0) for s in [sn[b] for b in bs])
                # what rounding is relative to: momenta, and impulses of the individual internal forces
                scale = sum((s["mass"] * np.linalg.norm(s["velocity"], axis=1)).sum() for s in [prev[b] for b in bs])
                scale += sum((s["mass"] * np.linalg.norm(s["velocity"], axis=1)).sum() for s in [sn[b] for b in bs])
                imp = sum((s["volume"] * np.linalg.norm(s["stress"], axis=(1, 2))).sum() for s in [prev[b] for b in bs]) * 4 / h * dt
                vmax = max(np.abs(s["velocity"]).max() for s in [sn[b] for b in bs] + [prev[b] for b in bs])
                nn = sum(s["mass"].size for s in [sn[b] for b in bs]) * 64
                tol = 200 * e * (scale + imp) + 4 * cutoff * nn * vmax
                ck.close("linear momentum", P1, P0, tol, f"step {k} grid {g}")
                ck.saw("grid momentum per body group")
                if case["apic"]:
                    L = []
                    for ss, stt in ((prev, pst), (sn, st)):
                        tot = 0
                        for b in bs:
                            C = -np.asarray(stt.mechanics.solvers[b].Bp_stack, dtype=float)
                            D = h * h / (3 if case["bodies"][b]["kernel"] == "cubic" else 4)
                            if case["dim"] == 2:
                                C = C.copy()
                                C[:, 2, :] = 0
                                C[:, :, 2] = 0
                            s = ss[b]
                            tot = tot + ang(s["position"], s["velocity"], s["mass"], C, D)
                        L.append(tot)
                    R = max(np.abs(s["position"]).max() for s in sn) + 3 * h
                    ck.close("angular momentum", L[1], L[0], tol * R * 4, f"step {k} grid {g}")
            moved = max([moved] + [np.abs(a["velocity"] - b["velocity"]).max() for a, b in zip(sn, prev)])
        prev, pst = sn, st
    if moved > 1e-6:
        return f"{case['dim']}D {case['scheme']} {case['params']['alpha']} apic={case['apic']} " + \
               "+".join(f"{b['law']}/{b['kernel']}@{b['grid']}" for b in case["bodies"])
