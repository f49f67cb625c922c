"""Random scenes driven through the public builder API, and the numpy views monitors use."""
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
import hydraxmpm as hdx

KERNELS = ("linear", "quadratic", "cubic")
SCHEMES = ("usl", "usl_aflip")
LAWS = ("elastic", "fluid", "mui", "dp", "mcc")


def np64(x):
    return np.asarray(x, dtype=np.float64)


def blob(rng, dim, n, lo, hi):
    return rng.uniform(lo, hi, (n, dim))


def lattice(rng, dim, lo, hi, sep, jitter=0.0):
    ax = [np.arange(l + sep / 2, h, sep) for l, h in zip(lo, hi)]
    x = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, dim)
    if jitter:
        x = x + rng.uniform(-jitter, jitter, x.shape) * sep
    return x


def rand_sym(rng, n, scale=1.0):
    a = rng.normal(size=(n, 3, 3)) * scale
    return 0.5 * (a + np.swapaxes(a, 1, 2))


def plane_strain_sym(rng, n, scale=1.0):
    a = rand_sym(rng, n, scale)
    a[:, 0, 2] = a[:, 2, 0] = a[:, 1, 2] = a[:, 2, 1] = 0
    return a


def make_law(rng, kind, n, dim, stiff=1.0, rho=1000.0, **kw):
    """law, state, stress (n,3,3), density (n,) consistent with each other"""
    p = rng.uniform(200.0, 2000.0, n) * stiff
    if kind == "elastic":
        law = hdx.LinearElasticLaw(E=float(rng.uniform(1e4, 1e5) * stiff), nu=float(rng.uniform(0.0, 0.4)), **kw)
        s = (rand_sym if dim == 3 else plane_strain_sym)(rng, n, 300.0 * stiff)
        return law, None, s, np.full(n, rho)
    if kind == "fluid":
        law = hdx.NewtonFluid(K=float(2e4 * stiff), viscosity=float(rng.uniform(0.1, 5.0)), beta=float(rng.uniform(1.5, 7.0)), **kw)
        st = law.create_state_from_density(density_stack=jnp.full((n,), rho), pressure_stack=jnp.asarray(p))
        return law, st, p[:, None, None] * np.eye(3), np.full(n, rho)
    if kind == "mui":
        law = hdx.MuI_LC(mu_s=0.38, mu_d=0.64, I_0=0.279, d_p=0.005, K=float(5e4 * stiff), rho_p=2650.0, **kw)
        st = law.create_state_from_density(density_stack=jnp.full((n,), rho), pressure_stack=jnp.asarray(p))
        return law, st, p[:, None, None] * np.eye(3), np.full(n, rho)
    if kind == "dp":
        law = hdx.DruckerPrager(K=float(5e4 * stiff), nu=0.3, mu_1=0.4, mu_2=0.5, c0=100.0 * stiff, H=50.0 * stiff,
                                mu_1_hat=0.1, rho_0=0.9 * rho, **kw)
        s = p[:, None, None] * np.eye(3)
        return law, law.create_state(jnp.asarray(s)), s, np.full(n, rho)
    if kind == "mcc":
        law = hdx.ModifiedCamClay(nu=0.3, M=1.1, lam=0.05, kap=0.01, N=1.7, rho_p=2650.0, **kw)
        p = rng.uniform(2e3, 2e4, n) * stiff
        st, s, d = law.create_state_from_ocr(jnp.asarray(p), jnp.full((n,), 1.5))
        return law, st, np64(s), np64(d)
    raise KeyError(kind)


def wide(i, rng, cells=(0.02, 0.1, 1.0, 4.0, 20.0), clocks=(0.01, 1.0, 30.0)):
    """Other sizes, clocks, places and company for the i-th scene."""
    return dict(cell=cells[(i + i // 5) % len(cells)], clock=clocks[(i + i // 3) % len(clocks)], start=float(rng.choice([0.0, 2.0, 300.0])), far=float(rng.choice([0.0, 30.0, -200.0])),
                idle=int(rng.integers(0, 5)), obstacles=int(rng.integers(0, 5)))


def widened(spec, w):
    """The scene in other units of time (velocities and stiffnesses follow), starting at another time and place, with forces of nothing and obstacles far away."""
    h, t, dim = spec["cell"], w.get("clock", 1.0), spec["dim"]
    spec = dict(spec, bodies=[dict(b, vel=b.get("vel", 1.0) / t, stiff=b.get("stiff", 1.0) / t**2) for b in spec["bodies"]], dt=spec["dt"] * t, time=w.get("start", 0.0), step=int(w.get("start", 0.0) * 1000),
                origin=[float(o) + w.get("far", 0.0) * h for o in spec.get("origin", [0.0] * dim)])
    hook0 = spec.get("hook")

    def hook(sb):
        for j in range(w.get("idle", 0)):
            sb.add_gravity(gravity=jnp.zeros(dim), is_apply_on_grid=bool(j % 2), p_idx_list=[0], g_idx_list=[0])
        for j in range(w.get("obstacles", 0)):
            s = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=h), center_of_mass=jnp.asarray(np.array(spec["origin"]) - (1000 + 7 * j) * h))
            sb.add_sdf_collider(sdf_idx=s, friction=0.5)
        if hook0:
            hook0(sb)

    return dict(spec, hook=hook)


def build(spec, rng):
    """spec: dict(dim, scheme, params, cell, L (domain length), bodies=[dict(n, law, kernel, box, vel, grid)], grids=1,
    gravity, g_on_grid, damping, dt).  Returns builder-made (solver, state, info)."""
    dim, h = spec["dim"], spec["cell"]
    sb = hdx.SimBuilder()
    L = np.broadcast_to(np.asarray(spec.get("L", 8 * h), float), (dim,))
    origin = tuple(float(o) for o in spec.get("origin", [0.0] * dim))
    for g in range(spec.get("grids", 1)):
        sb.add_grid(origin=origin, end=tuple(float(o + l) for o, l in zip(origin, L)), cell_size=h)
    info = []
    for b in spec["bodies"]:
        n = b.get("n")
        lo, hi = b.get("box", (0.15, 0.85))
        if "lattice" in b:
            x = lattice(rng, dim, [o + lo * l for o, l in zip(origin, L)], [o + hi * l for o, l in zip(origin, L)], b["lattice"] * h, b.get("jitter", 0.2))
            n = len(x)
        else:
            x = np.array(origin) + blob(rng, dim, n, lo * L, hi * L)
        law, st, stress, dens = make_law(rng, b["law"], n, dim, b.get("stiff", 1.0), **b.get("law_kw", {}))
        vol = np.full(n, (b["lattice"] * h if "lattice" in b else h / 2) ** dim) * rng.uniform(0.8, 1.2, n)
        v = rng.normal(size=(n, dim)) * b.get("vel", 1.0) + np.array(b.get("v0", [0.0] * dim))
        if b.get("stress_free"):
            stress = 0 * stress
        kw = dict(store_F=True) if b.get("store_F") else {}
        p_idx = sb.add_material_points(
            position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.asarray(vol),
            mass_stack=jnp.asarray(vol * dens), stress_stack=jnp.asarray(stress), **kw)
        c_idx = sb.add_constitutive_law(law=law, law_state=st)
        sb.couple(p_idx=p_idx, g_idx=b.get("grid", 0), c_idx=c_idx, shapefunction=b["kernel"])
        info.append(dict(x=x, v=v, vol=vol, m=vol * dens, stress=stress, law=law, n=n))
    if spec.get("gravity") is not None:
        sb.add_gravity(gravity=jnp.asarray(spec["gravity"]), is_apply_on_grid=spec.get("g_on_grid", True))
    if spec.get("damping") is not None:
        sb.add_damping(alpha=spec["damping"], is_apply_on_grid=spec.get("d_on_grid", True))
    hook = spec.get("hook")
    if hook:
        hook(sb)
    sb.set_solver(scheme=spec["scheme"], **spec.get("params", {}))
    solver, state = sb.build(dt=spec.get("dt", 1e-3), time=spec.get("time", 0.0), step=spec.get("step", 0))
    return solver, state, info


def snapshot(state):
    """Per-body numpy copies of everything observable."""
    out = []
    for mp in state.world.material_points:
        d = {}
        for k in ("position_stack", "velocity_stack", "mass_stack", "volume_stack", "volume0_stack", "stress_stack",
                  "F_stack", "L_stack", "force_stack", "F_store_stack"):
            a = getattr(mp, k, None)
            d[k[:-6]] = None if a is None else np64(a)
        out.append(d)
    return out


def as_arrays(state):
    """Python scalars (time, step, dt) -> arrays, and no weak types, so that stepping compiles once."""
    def conv(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            return jnp.asarray(np.asarray(x, dtype=jnp.asarray(x).dtype))
        if isinstance(x, jax.Array):
            return jnp.asarray(np.asarray(x))
        return x
    return jax.tree.map(conv, state)


def run(solver, state, steps, jit=True):
    fn = eqx.filter_jit(solver) if jit else solver
    state = as_arrays(state)
    yield state
    for _ in range(steps):
        state = fn(state)
        yield state


def points(n, dim=3, stress=None, density=None, L=None, volume=None, rng=None):
    """A bare cloud of material points for driving a constitutive law directly."""
    rng = rng or np.random.default_rng(0)
    density = np.full(n, 1000.0) if density is None else np.asarray(density)
    volume = rng.uniform(0.5, 2.0, n) * 10.0 ** rng.choice([0, 0, -3, -1, 1]) if volume is None else np.asarray(volume)
    kw = {}
    if stress is not None:
        kw["stress_stack"] = jnp.asarray(stress)
    if L is not None:
        kw["L_stack"] = jnp.asarray(L)
    return as_arrays(hdx.MaterialPointState.create(
        position_stack=jnp.asarray(rng.uniform(0, 1, (n, dim))), velocity_stack=jnp.zeros((n, dim)),
        mass_stack=jnp.asarray(density * volume), volume_stack=jnp.asarray(volume), **kw))


def with_L(mp, L):
    return eqx.tree_at(lambda m: m.L_stack, mp, jnp.asarray(L, mp.L_stack.dtype))


def with_density(mp, rho):
    return eqx.tree_at(lambda m: m.volume_stack, mp, mp.mass_stack / jnp.asarray(rho, mp.mass_stack.dtype))


@eqx.filter_jit
def _law_step(law, mp, ls, dt):
    return law.update(mp, ls, dt)


def law_step(law, mp, ls, dt):
    return _law_step(law, mp, ls, jnp.asarray(np.asarray(dt, mp.mass_stack.dtype)))


def rand_L(rng, n, dim, scale, dt):
    """velocity gradients whose increments L*dt have the given size; mixes of shear, spin, volumetric, uniaxial, rest"""
    g = rng.normal(size=(n, 3, 3))
    if dim == 2:
        g[:, 2, :] = 0
        g[:, :, 2] = 0
    kind = rng.integers(0, 6, n)
    sym = 0.5 * (g + np.swapaxes(g, 1, 2))
    tr = np.trace(sym, axis1=1, axis2=2)[:, None, None] / 3
    for k, a in ((1, sym - (tr * np.eye(3))), (2, tr * np.eye(3) if dim == 3 else tr * np.diag([1, 1, 0.0])), (3, g - sym)):
        g[kind == k] = a[kind == k]
    g[kind == 4] = 0
    return g * scale / dt
