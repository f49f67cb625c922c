"""C30: whole simulations follow the closed-form solutions of mechanics (sliding blocks, belts, waves, columns, pistons, fluids at rest, collisions)."""
import numpy as np

ID = "C30"
RULE = ("whole simulations of hundreds to thousands of steps with every scheme and kernel, watched against the closed-form solution: block on a slope (aligned, tilted in the grid, in 3D) and on a moving belt with "
        "Coulomb friction, longitudinal and shear waves, viscous decay, column under its own weight, confined piston, heavy fluids and grains at rest, collision of twins, collapse of a column of grains; "
        "non-trivial: distinct (part, scheme, kernel, dimension, parameters)")
ASSUMPTIONS = ["tolerances are about three times the discretisation error measured on the sound code at these cell sizes", "sliding blocks use the quadratic and cubic kernels (nearly empty nodes of the linear kernel upset stiff blocks)"]
FLOOR = {"slides as Coulomb says": 3, "stays on the surface": 4, "carried along by the belt": 20, "longitudinal wave": 20, "shear wave": 10, "viscous decay": 5, "stress under own weight": 40, "lateral stress": 2, "settlement": 1,
         "comes to rest": 1, "confined compression": 6, "pressure at rest": 2, "twins stay mirrored": 10, "rebound": 1, "grains collapse": 3}

KER = ["quadratic", "cubic"]
SCH = ["usl", "usl_aflip"]


def gen_cases(rng, tier):
    q = tier == "quick"
    cases = []
    off = int(rng.integers(4))

    def add(what, i, **kw):
        j = i + off
        cases.append(dict(what=what, scheme=SCH[j % 2], kernel=KER[j // 2 % 2], seed=int(rng.integers(1 << 30)), **kw))

    for i in range(2 if q else 12):
        add("slide", i, dim=2, sticky=i % 3 == 1)
    for i in range(1 if q else 6):
        add("slide", i, dim=3, sticky=False)
    for i in range(2 if q else 16):
        add("tilt", i, sticky=i % 4 == 3)
    for i in range(2 if q else 12):
        add("belt", i)
    for i in range(2 if q else 12):
        add("wave", i, linear=i % 3 == 2)
    for i in range(1 if q else 8):
        add("shear", i)
    for i in range(1 if q else 8):
        add("viscous", i)
    for i in range(2 if q else 12):
        add("settle", i)
    for i in range(1 if q else 8):
        add("piston", i)
    for i in range(3 if q else 18):
        add("hydro", i, law=["fluid", "dp", "mui"][i % 3])
    for i in range(1 if q else 8):
        add("collide", i)
    for i in range(1 if q else 6):
        add("collapse", i, law=["dp", "mui"][int(rng.integers(2))])
    return cases


def run_case(ck, case):
    return globals()[case["what"]](ck, case)


def march(solver, state, steps, every):
    import equinox as eqx
    import jax
    import scen
    state = scen.as_arrays(state)

    @eqx.filter_jit
    def chunk(s):
        return jax.lax.fori_loop(0, every, lambda i, s: solver(s), s)

    yield state
    for _ in range(steps // every):
        state = chunk(state)
        yield state


def lat(lo, hi, sep):
    ax = [np.arange(a + sep / 2, b, sep) for a, b in zip(lo, hi)]
    return np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, len(lo))


def block(sb, x, sep, law, ls, rho, kernel, v=None):
    import jax.numpy as jnp
    n, dim = x.shape
    p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(np.zeros_like(x) if v is None else v), volume_stack=jnp.full((n,), sep**dim), mass_stack=jnp.full((n,), rho * sep**dim))
    c = sb.add_constitutive_law(law=law, law_state=ls)
    sb.couple(p_idx=p, g_idx=0, c_idx=c, shapefunction=kernel)


def plane(sb, normal, com, mu, velocity=None):
    import hydraxmpm as hdx
    import jax.numpy as jnp
    kw = {} if velocity is None else dict(velocity=jnp.asarray(velocity, dtype=float))
    s = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.asarray(normal, dtype=float)), center_of_mass=jnp.asarray(com, dtype=float), **kw)
    sb.add_sdf_collider(sdf_idx=s, friction=float(mu))


def box(sb, lo, hi, floor, h):
    """Frictionless floor and side walls holding a block that starts one contact band away."""
    plane(sb, (0, 1), (0, floor - h), 0)
    plane(sb, (1, 0), (lo - h, 0), 0)
    plane(sb, (-1, 0), (hi + h, 0), 0)


def angles(rng, sticky):
    """Slope and friction well away from the threshold."""
    th = float(rng.uniform(0.2, 0.7))
    if sticky:
        return th, float(np.tan(th) * rng.uniform(1.5, 2.5))
    return th, float(rng.choice([0.0, np.tan(th) * rng.uniform(0.2, 0.7)]))


def slide(ck, case):
    import hydraxmpm as hdx
    import jax.numpy as jnp
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim, h = case["dim"], 0.1
    g = float(rng.choice([1.6, 9.81]))
    th, mu = angles(rng, case["sticky"])
    sb = hdx.SimBuilder()
    E = (2.6, 1.0) if dim == 2 else (1.8, 1.0, 1.8)
    sb.add_grid(origin=(0.0,) * dim, end=E, cell_size=h)
    if dim == 2:
        x = lat((1.0, 0.3), (1.6, 0.6), h / 2)
        t = np.array([rng.choice([-1.0, 1.0]), 0])
        n = np.array([0.0, 1])
    else:
        x = lat((0.7, 0.3, 0.7), (1.1, 0.5, 1.1), h / 2)
        a = rng.uniform(0, 2 * np.pi)
        t = np.array([np.cos(a), 0, np.sin(a)])
        n = np.array([0.0, 1, 0])
    block(sb, x, h / 2, hdx.LinearElasticLaw(E=1e6, nu=0.2), None, 1000.0, case["kernel"])
    sb.add_gravity(gravity=jnp.asarray(g * (np.sin(th) * t - np.cos(th) * n)))
    com = 0.2 * n + rng.uniform(-1, 1) * t
    plane(sb, n, com, mu)
    sb.set_solver(scheme=case["scheme"], alpha=float(rng.uniform(0.9, 0.99)))
    solver, state = sb.build(dt=5e-4)
    o = []
    for s in march(solver, state, 600 if dim == 2 else 300, 50):
        mp = s.world.material_points[0]
        o.append([float(s.time), *f(mp.velocity_stack).mean(0), f(mp.position_stack)[:, 1].min()])
    o = np.array(o)
    acc = np.array([np.polyfit(o[:, 0], o[:, 1 + k], 1)[0] for k in range(dim)])
    want = max(0.0, g * (np.sin(th) - mu * np.cos(th)))
    note = f"{case['scheme']} {case['kernel']} {dim}D slope {th:.3f} friction {mu:.3f} g={g}"
    along = acc @ t
    ck.close("slides as Coulomb says", along, want, 0.04 * g if case["sticky"] else 0.02 * g if mu else 1e-3 * g, note + ": acceleration")
    ck.close("slides straight down", acc - along * t - (acc @ n) * n, np.zeros(dim), 0.01 * g, note)
    ck.true("stays on the surface", abs(o[-1, -1] - (0.3 + h / 4)) < 0.3 * h and np.abs(o[len(o) // 2:, 1 + 1]).max() < 0.05 * g * o[-1, 0] + 0.02, f"{note}: {o[-1]}")
    return f"slide {dim}D {case['scheme']} {case['kernel']} {'stick' if case['sticky'] else 'slip' if mu else 'smooth'}"


def tilt(ck, case):
    import hydraxmpm as hdx
    import jax.numpy as jnp
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h, g = 0.1, 9.81
    th, mu = angles(rng, case["sticky"])
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(3.0, 3.0), cell_size=h)
    x = lat((-0.8, 0.1), (-0.2, 0.4), h / 2) @ R.T + np.array([1.8, 1.5])
    block(sb, x, h / 2, hdx.LinearElasticLaw(E=1e6, nu=0.2), None, 1000.0, case["kernel"])
    sb.add_gravity(gravity=jnp.array([0.0, -g]))
    plane(sb, R @ np.array([0.0, 1.0]), (1.8, 1.5), mu)
    sb.set_solver(scheme=case["scheme"], alpha=0.95)
    solver, state = sb.build(dt=5e-4)
    o = []
    for s in march(solver, state, 500, 50):
        mp = s.world.material_points[0]
        o.append([float(s.time), *(f(mp.velocity_stack).mean(0) @ R)])
    o = np.array(o)
    a = -np.polyfit(o[:, 0], o[:, 1], 1)[0]
    want = max(0.0, g * (np.sin(th) - mu * np.cos(th)))
    note = f"{case['scheme']} {case['kernel']} slope {th:.3f} friction {mu:.3f} tilted in the grid"
    ck.close("slides as Coulomb says", a, want, 0.04 * g if case["sticky"] else 0.015 * g if mu else 0.01 * g, note + ": acceleration")
    ck.true("stays on the surface", abs(o[-1, 2]) < 0.05, f"{note}: {o[-1]}")
    return f"tilt {case['scheme']} {case['kernel']} {'stick' if case['sticky'] else 'slip' if mu else 'smooth'}"


def belt(ck, case):
    import hydraxmpm as hdx
    import jax.numpy as jnp
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h, g = 0.1, 9.81
    V = float(rng.choice([-1, 1]) * rng.uniform(0.5, 1))
    v0 = float(V + rng.choice([-1, 1]) * rng.uniform(0.5, 1)) if rng.random() < 0.7 else 0.0
    mu = float(rng.uniform(0.2, 0.5))
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(3.6, 1.0), cell_size=h)
    x = lat((1.5, 0.3), (2.1, 0.6), h / 2)
    v = np.zeros_like(x)
    v[:, 0] = v0
    block(sb, x, h / 2, hdx.LinearElasticLaw(E=1e6, nu=0.2), None, 1000.0, case["kernel"], v=v)
    sb.add_gravity(gravity=jnp.array([0.0, -g]))
    plane(sb, (0, 1), (0, 0.2), mu, velocity=(V, 0.0))
    sb.set_solver(scheme=case["scheme"], alpha=0.95)
    solver, state = sb.build(dt=5e-4)
    note = f"{case['scheme']} {case['kernel']} belt {V:.3f} block {v0:.3f} friction {mu:.3f}"
    got, want = [], []
    for s in march(solver, state, 1200, 80):
        t = float(s.time)
        got.append(f(s.world.material_points[0].velocity_stack)[:, 0].mean())
        want.append(V + np.sign(v0 - V) * max(0.0, abs(v0 - V) - mu * g * t))
    d0 = abs(v0 - V)
    if d0 / (mu * g) < 0.5:
        ck.close("carried along by the belt: in the end", got[-1], V, 0.05, note)
    ck.close("carried along by the belt", got, want, 0.1 * d0 + 0.02, note + " velocity over time")
    return f"belt {case['scheme']} {case['kernel']} {V > 0} {v0 > V}"


def wave(ck, case):
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h, L = 0.05, 1.0
    kernel = "linear" if case["linear"] else case["kernel"]
    E, rho = 10 ** rng.uniform(4, 7), float(rng.uniform(500, 2500))
    ax = int(rng.integers(2))
    c = np.sqrt(E / rho)
    v0 = 5e-3 * c
    sb = hdx.SimBuilder()
    x = lat((0.3, 0.2), (0.3 + L, 0.3), h / 2)
    sh = np.cos(np.pi * (x[:, 0] - 0.3) / L)
    v = np.zeros_like(x)
    v[:, 0] = v0 * sh
    end = (1.6, 0.5)
    if ax:
        x, v, end = x[:, ::-1].copy(), v[:, ::-1].copy(), end[::-1]
    sb.add_grid(origin=(0.0, 0.0), end=end, cell_size=h)
    block(sb, x, h / 2, hdx.LinearElasticLaw(E=E, nu=0.0), None, rho, kernel, v=v)
    sb.set_solver(scheme=case["scheme"], alpha=1.0)
    w = np.pi * c / L
    n = 400
    solver, state = sb.build(dt=2 * np.pi / w / n)
    o = []
    for s in march(solver, state, n, 20):
        o.append([float(s.time) * w, (f(s.world.material_points[0].velocity_stack)[:, ax] * sh).sum() / (v0 * (sh**2).sum())])
    o = np.array(o)
    ck.close("longitudinal wave", o[:, 1], np.cos(o[:, 0]), 0.12, f"{case['scheme']} {kernel} along axis {ax} E={E:.3g} rho={rho:.3g}: amplitude of the first mode over one period")
    return f"wave {case['scheme']} {kernel} {ax}"


def strip(ck, case, law, ls, rho, v0, dt, steps, every, alpha):
    """A long strip with a velocity along it that varies across it; the amplitude in the middle over time."""
    import hydraxmpm as hdx
    from vlib import f
    h, H, L = 0.05, 0.4, 2.4
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(L + 0.6, H + 0.6), cell_size=h)
    x = lat((0.3, 0.3), (0.3 + L, 0.3 + H), h / 2)
    sh = np.cos(np.pi * (x[:, 1] - 0.3) / H)
    v = np.zeros_like(x)
    v[:, 0] = v0 * sh
    n = len(x)
    block(sb, x, h / 2, law, ls(n) if ls else None, rho, case["kernel"], v=v)
    sb.set_solver(scheme=case["scheme"], alpha=alpha)
    solver, state = sb.build(dt=dt)
    mid = np.abs(x[:, 0] - 0.3 - L / 2) < 0.15
    o = []
    for s in march(solver, state, steps, every):
        o.append([float(s.time), (f(s.world.material_points[0].velocity_stack)[:, 0] * sh)[mid].sum() / (v0 * (sh[mid] ** 2).sum())])
    return np.array(o), np.pi / H


def shear(ck, case):
    import hydraxmpm as hdx
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    E, rho, nu = 10 ** rng.uniform(4, 7), float(rng.uniform(500, 2500)), float(rng.uniform(0.0, 0.35))
    G = E / 2 / (1 + nu)
    c = np.sqrt(G / rho)
    w = c * np.pi / 0.4
    n = 200
    o, k = strip(ck, case, hdx.LinearElasticLaw(E=E, nu=nu), None, rho, 2e-3 * c, np.pi / w / n, n, 20, 1.0)
    ck.close("shear wave", o[:, 1], np.cos(o[:, 0] * w), 0.16, f"{case['scheme']} {case['kernel']} E={E:.3g} nu={nu:.3g} rho={rho:.3g}: amplitude over half a period")
    return f"shear {case['scheme']} {case['kernel']}"


def viscous(ck, case):
    import hydraxmpm as hdx
    import jax.numpy as jnp
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    rho, mu, K = 1000.0, float(10 ** rng.uniform(0.5, 1.5)), 2e3
    k = np.pi / 0.4
    rate = mu / rho * k**2
    T = 0.7 / rate
    dt = min(5e-3, T / 400)
    n = int(T / dt) // 20 * 20
    v0 = 0.02 / T
    o, k = strip(ck, case, hdx.NewtonFluid(K=K, viscosity=mu, beta=1.0), lambda m: hdx.NewtonFluid(K=K, viscosity=mu, beta=1.0).create_state_from_density(density_stack=jnp.full((m,), rho)), rho, v0, dt, n, n // 10, 1.0)
    ck.close("viscous decay", o[:, 1], np.exp(-rate * o[:, 0]), 0.1, f"{case['scheme']} {case['kernel']} viscosity {mu:.3g}: amplitude over time, {n} steps")
    return f"viscous {case['scheme']} {case['kernel']}"


def settle(ck, case):
    import hydraxmpm as hdx
    import jax.numpy as jnp
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h, H, g = 0.1, 1.0, 9.81
    E, rho, nu = 10 ** rng.uniform(5.7, 6.5), float(rng.uniform(700, 1500)), float(rng.uniform(0.0, 0.35))
    M = E * (1 - nu) / ((1 + nu) * (1 - 2 * nu))
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(1.2, 1.6), cell_size=h)
    x = lat((0.4, 0.3), (0.8, 0.3 + H), h / 2)
    block(sb, x, h / 2, hdx.LinearElasticLaw(E=E, nu=nu), None, rho, case["kernel"])
    sb.add_gravity(gravity=jnp.array([0.0, -g]))
    sb.add_damping(alpha=0.7)
    box(sb, 0.4, 0.8, 0.3, h)
    sb.set_solver(scheme=case["scheme"], alpha=1.0 if case["scheme"] == "usl" else 0.99)
    solver, state = sb.build(dt=0.2 * h / np.sqrt(M / rho))
    for s in march(solver, state, 3000, 3000):
        pass
    mp = s.world.material_points[0]
    y = x[:, 1]
    sg = f(mp.stress_stack)
    want = rho * g * (0.3 + H - y)
    mid = (y > 0.5) & (y < 0.1 + H)
    uw = -rho * g / M * (H * (y - 0.3) - (y - 0.3) ** 2 / 2)
    u = f(mp.position_stack)[:, 1] - y
    note = f"{case['scheme']} {case['kernel']} E={E:.3g} nu={nu:.3g} rho={rho:.3g}"
    ck.close("stress under own weight", sg[mid, 1, 1], want[mid], 0.2 * want.max(), note)
    ck.close("stress under own weight: on average", sg[mid, 1, 1].sum() / want[mid].sum(), 1.0, 0.03, note)
    for k in (0, 2):
        ck.close("lateral stress", sg[mid, k, k].sum() / sg[mid, 1, 1].sum(), nu / (1 - nu), 0.03, f"{note} component {k}")
    ck.close("settlement", u.min() / uw.min(), 1.05, 0.15, note)
    ck.true("comes to rest", np.abs(f(mp.velocity_stack)).max() < 5e-3, note)
    return f"settle {case['scheme']} {case['kernel']}"


def piston(ck, case):
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h, H, rho = 0.1, 0.8, 1000.0
    E, nu = 10 ** rng.uniform(5.5, 6.5), float(rng.uniform(0.0, 0.35))
    M = E * (1 - nu) / ((1 + nu) * (1 - 2 * nu))
    c = np.sqrt(M / rho)
    vp = 0.01 * c
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(1.2, 1.6), cell_size=h)
    block(sb, lat((0.4, 0.3), (0.8, 0.3 + H), h / 2), h / 2, hdx.LinearElasticLaw(E=E, nu=nu), None, rho, case["kernel"])
    box(sb, 0.4, 0.8, 0.3, h)
    plane(sb, (0, -1), (0, 0.4 + H), 0, velocity=(0.0, -vp))
    sb.add_damping(alpha=0.1)
    sb.set_solver(scheme=case["scheme"], alpha=0.9)
    dt = 0.2 * h / c
    n = int(0.08 * H / vp / dt) // 8 * 8
    solver, state = sb.build(dt=dt)
    o = []
    for s in march(solver, state, n, n // 8):
        mp = s.world.material_points[0]
        sg = f(mp.stress_stack).mean(0) / M
        o.append([vp * float(s.time) / H, sg[1, 1], sg[0, 0], sg[2, 2], -np.log(f(mp.volume_stack).sum() / (0.4 * H))])
    o = np.array(o)
    note = f"{case['scheme']} {case['kernel']} E={E:.3g} nu={nu:.3g}"
    # small gap to the contact band closes first: compare what the specimen feels with how much it was really compressed
    ck.close("confined compression", o[2:, 1], o[2:, 4], 0.004, note + ": axial stress over modulus against strain of the volume")
    ck.close("confined compression: driven by the piston", o[-1, 4], o[-1, 0], 0.25 * o[-1, 0], note)
    for k in (2, 3):
        ck.close("lateral stress", o[-1, k] / o[-1, 1], nu / (1 - nu), 0.03, note)
    return f"piston {case['scheme']} {case['kernel']}"


def hydro(ck, case):
    import hydraxmpm as hdx
    import jax.numpy as jnp
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h, H, g = 0.1, 0.8, 9.81
    rho = float(rng.uniform(800, 1800))
    K = 500 * rho
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(1.2, 1.6), cell_size=h)
    x = lat((0.4, 0.3), (0.8, 0.3 + H), h / 2)
    n = len(x)
    mu = float(rng.uniform(0.3, 0.5))
    full = jnp.full((n,), rho)
    if case["law"] == "fluid":
        law = hdx.NewtonFluid(K=K / 7, viscosity=5.0, beta=7.0)
        ls = law.create_state_from_density(density_stack=full)
    elif case["law"] == "mui":
        law = hdx.MuI_LC(mu_s=0.3, mu_d=0.6, I_0=0.3, d_p=0.01, K=K)
        ls = law.create_state_from_density(density_stack=full)
    else:
        law = hdx.DruckerPrager(K=K, nu=0.3, mu_1=mu, rho_0=rho * 0.9999999)
        ls = law.create_state(jnp.zeros((n, 3, 3)))
    block(sb, x, h / 2, law, ls, rho, case["kernel"])
    sb.add_gravity(gravity=jnp.array([0.0, -g]))
    sb.add_damping(alpha=0.7)
    box(sb, 0.4, 0.8, 0.3, h)
    sb.set_solver(scheme=case["scheme"], alpha=0.95)
    solver, state = sb.build(dt=0.15 * h / np.sqrt(2 * K / rho))
    for s in march(solver, state, 4000, 4000):
        pass
    mp = s.world.material_points[0]
    y = f(mp.position_stack)[:, 1]
    sg = f(mp.stress_stack)
    dep = y.max() + h / 4 - y
    mid = (dep > 0.2) & (y > 0.5)
    note = f"{case['law']} {case['scheme']} {case['kernel']} rho={rho:.4g}"
    ck.close("pressure at rest", sg[mid, 1, 1].sum() / (rho * g * dep[mid]).sum(), 1.0, 0.2 if case["law"] == "mui" else 0.06, note + ": vertical stress against the weight above")
    r = sg[mid, 0, 0].sum() / sg[mid, 1, 1].sum()
    if case["law"] == "fluid":
        ck.close("pressure at rest: the same all round", r, 1.0, 0.05, note)
    elif case["law"] == "dp":
        k = np.sqrt(3) * mu / 3
        ck.true("stress at rest within the strength", (1 - k) / (1 + 2 * k) - 0.02 < r < 1.05, f"{note}: lateral to vertical {r}, friction {mu}")
    ck.true("volume at rest kept", abs(f(mp.volume_stack).sum() / (0.4 * H) - 1) < 0.06, note)
    return f"hydro {case['law']} {case['scheme']} {case['kernel']}"


def collide(ck, case):
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h = 0.05
    a = float(rng.uniform(0.4, 1.1))
    d = np.array([np.cos(a), np.sin(a)])
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(1.0, 1.0), cell_size=h)
    x = lat((-0.2, -0.2), (0.2, 0.2), h / 2)
    x = x[(x**2).sum(1) < 0.03]
    n = len(x)
    V0 = 0.1
    X = np.concatenate([x + 0.5 - 0.27 * d, -x + 0.5 + 0.27 * d])
    v = np.concatenate([np.tile(V0 * d, (n, 1)), np.tile(-V0 * d, (n, 1))])
    block(sb, X, h / 2, hdx.LinearElasticLaw(E=1000.0, nu=0.3), None, 1000.0, case["kernel"], v=v)
    sb.set_solver(scheme=case["scheme"], alpha=1.0 if case["scheme"] == "usl" else 0.99)
    solver, state = sb.build(dt=1e-3)
    note = f"{case['scheme']} {case['kernel']} direction {a:.3f}"
    for s in march(solver, state, 2500, 250):
        mp = s.world.material_points[0]
        P, V = f(mp.position_stack), f(mp.velocity_stack)
        ck.true("twins stay mirrored", np.abs(P[:n] + P[n:] - 1).max() < 1e-7 and np.abs(V[:n] + V[n:]).max() < 1e-7, f"{note} at {float(s.time):.3f}: {np.abs(P[:n] + P[n:] - 1).max()}")
        ck.true("collision gains nothing", (V**2).sum() <= (v**2).sum() * 1.0001, note)
    ck.close("rebound", V[:n].mean(0) @ d / V0, -0.87, 0.13, note)
    return f"collide {case['scheme']} {case['kernel']}"


def collapse(ck, case):
    import contextlib
    import io
    import hydraxmpm as hdx
    import jax.numpy as jnp
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    h, L0, H, rho, K, g = 0.05, 0.3, 0.3, 1500.0, 2e5, 9.81
    mus = [float(rng.uniform(0.25, 0.35)), float(rng.uniform(0.5, 0.6))]
    right = bool(rng.integers(2))
    run = []
    for mu in mus:
        sb = hdx.SimBuilder()
        sb.add_grid(origin=(0.0, 0.0), end=(2.0, H + 0.4), cell_size=h)
        x = lat((0.15, 0.15), (0.15 + L0, 0.15 + H), h / 2)
        if right:
            x[:, 0] = 2.0 - x[:, 0]
        n = len(x)
        with contextlib.redirect_stdout(io.StringIO()):
            if case["law"] == "dp":
                law = hdx.DruckerPrager(K=K, nu=0.3, mu_1=mu, rho_0=rho)
                ls = law.create_state(jnp.zeros((n, 3, 3)))
            else:
                law = hdx.MuI_LC(mu_s=mu, mu_d=mu + 0.2, I_0=0.3, d_p=0.005, K=K)
                ls = law.create_state_from_density(density_stack=jnp.full((n,), rho))
        block(sb, x, h / 2, law, ls, rho, case["kernel"])
        sb.add_gravity(gravity=jnp.array([0.0, -g]))
        plane(sb, (0, 1), (0, 0.10), 0.7)
        plane(sb, (-1, 0) if right else (1, 0), (1.9 if right else 0.1, 0), 0)
        sb.set_solver(scheme="usl_aflip", alpha=0.95)
        solver, state = sb.build(dt=2e-4)
        for s in march(solver, state, 6000, 6000):
            pass
        mp = s.world.material_points[0]
        P = f(mp.position_stack)
        d = 2.0 - P[:, 0] if right else P[:, 0]
        r = (np.quantile(d, 0.98) - 0.15 - L0) / L0
        run.append(r)
        note = f"{case['law']} {case['kernel']} friction {mu:.3f}"
        # column collapse: run-out of about 1.2 times the aspect ratio, less with more friction (Lube; Lajeunesse)
        ck.true("grains collapse", 0.45 < r < 1.5 and 0.5 < (P[:, 1].max() - 0.15) / H < 0.97, f"{note}: run-out {r}, height {P[:, 1].max() - 0.15}")
        ck.true("grains collapse: and stop", np.abs(f(mp.velocity_stack)).mean() < 0.02, note)
        ck.true("grains collapse: volume", abs(f(mp.volume_stack).sum() / (L0 * H) - 1) < 0.05, f"{note}: {f(mp.volume_stack).sum() / (L0 * H)}")
    ck.true("grains collapse", run[0] > 1.15 * run[1], f"{case['law']} {case['kernel']}: frictions {mus} run out {run}")
    return f"collapse {case['law']} {case['kernel']} {right}"
