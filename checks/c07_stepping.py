"""C07: stepping is a pure, deterministic function of the state, however it is driven."""
import numpy as np

ID = "C07"
RULE = ("random scenes with every kind of force and collider, each stepped eagerly, compiled, inside scan/fori loops, twice from the same state, and through "
        "a saved intermediate state; non-trivial: distinct (scheme, law, forces, driver) whose state changed")
ASSUMPTIONS = ["compiled and eager execution may differ by round-off"]
FLOOR = {"input state untouched": 200, "bit-identical repeat": 200, "clock": 50, "structure preserved": 20, "compiled = eager": 50,
         "loop driver = step by step": 50, "solver unchanged": 10}


def gen_cases(rng, tier):
    cases = []
    laws = ["elastic", "fluid", "mui", "dp", "mcc"]
    for i in range(24 if tier == "quick" else 120):
        dim = 2 + i % 2
        nb = 1 + int(rng.random() < 0.5)
        bodies = [dict(law=laws[(i + b) % 5], kernel=str(rng.choice(["linear", "quadratic", "cubic"])), n=int(rng.integers(1, 20)), vel=0.3,
                       store_F=bool(rng.integers(0, 2))) for b in range(nb)]
        cases.append(dict(dim=dim, scheme=["usl", "usl_aflip"][(i // 2) % 2], bodies=bodies, damping=bool(rng.integers(0, 2)),
                          gp=bool(rng.integers(0, 2)), sdf=str(rng.choice(["none", "moving", "domain"])), steps=5, eager=bool(i % 8 == 0), pyclock=bool(i % 4 == 1), loop=["scan", "fori"][(i // 2 + i) % 2],
                          step0=int(rng.integers(0, 1000)), time0=float(rng.uniform(0, 5)), x64=bool(i % 3), seed=int(rng.integers(1 << 30))))
    return cases


def leaves(state):
    import jax
    return [np.array(l) for l in jax.tree.leaves(state)]


def same(ck, name, a, b, what):
    ok = len(a) == len(b)
    for x, y in zip(a, b):
        ok = ok and x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True)
    ck.true(name, ok, what)
    ck.saw(name, len(a) - 1)


def near(ck, name, a, b, eps, what):
    for x, y in zip(a, b):
        x, y = np.asarray(x, float), np.asarray(y, float)
        sc = max(np.abs(x).max(initial=0.0), np.abs(y).max(initial=0.0))
        ck.close(name, x, y, eps * sc + 1e-25, what)


def run_case(ck, case):
    import scen
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import hydraxmpm as hdx
    from vlib import sub_rng, eps_of
    rng = sub_rng(case["seed"])
    dim = case["dim"]
    h = 0.5
    L = 6 * h

    def hook(sb):
        sb.add_gravity(gravity=jnp.asarray([0.0] * (dim - 1) + [-9.81]), is_apply_on_grid=not case["gp"])
        if case["damping"]:
            sb.add_damping(alpha=0.3)
        if case["sdf"] == "moving":
            s = sb.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=0.7 * h), center_of_mass=jnp.full((dim,), 0.4 * L),
                                  velocity=jnp.asarray(rng.normal(size=dim)), angular_velocity=1.3 if dim == 2 else jnp.asarray(rng.normal(size=3)))
            sb.add_sdf_collider(sdf_idx=s, friction=0.4)
        elif case["sdf"] == "domain":
            s = sb.add_sdf_object(sdf_logic=hdx.DomainSDF(origin=tuple([0.1 * L] * dim), end=tuple([0.9 * L] * dim)),
                                  center_of_mass=jnp.zeros(dim))
            sb.add_sdf_collider(sdf_idx=s)

    dt = 5e-4
    spec = dict(dim=dim, scheme=case["scheme"], cell=h, L=L, bodies=case["bodies"], dt=dt, hook=hook, time=case["time0"], step=case["step0"])
    solver, state, info = scen.build(spec, rng)
    st0 = scen.as_arrays(state)
    eps = eps_of(st0.world.material_points[0].position_stack)
    before = leaves(st0)
    solver_before = leaves(eqx.filter(solver, eqx.is_array))
    tree0 = jax.tree.structure(st0)
    shapes0 = [(l.shape, l.dtype) for l in before]
    fn = eqx.filter_jit(solver)
    s1 = fn(st0)
    after = leaves(st0)
    same(ck, "input state untouched", before, after, "stepping modified the state it was given")
    ck.true("structure preserved", jax.tree.structure(s1) == tree0, "tree structure changed by a step")
    ck.true("structure preserved", [(np.asarray(l).shape, np.asarray(l).dtype) for l in jax.tree.leaves(s1)] == shapes0, "leaf shapes/dtypes changed by a step")
    again = fn(st0)
    same(ck, "bit-identical repeat", leaves(s1), leaves(again), "same state, same solver, different result")
    # step by step, with saved intermediate
    states = [st0, s1]
    for k in range(1, case["steps"]):
        states.append(fn(states[-1]))
    for k, s in enumerate(states):
        ck.true("clock", int(s.step) == case["step0"] + k, f"step counter {int(s.step)} after {k} steps from {case['step0']}")
        t = case["time0"] + k * dt
        ck.close("clock", float(s.time), t, (k + 1) * eps * (abs(t) + 1), f"time after {k} steps")
        ck.close("clock", float(s.dt), float(st0.dt), 0.0, "time step changed")
    mid = jax.tree.unflatten(tree0, [jnp.asarray(a) for a in leaves(states[2])])    # went through plain numpy
    r = mid
    for k in range(2, case["steps"]):
        r = fn(r)
    same(ck, "bit-identical repeat", leaves(r), leaves(states[-1]), "continuing from a copied intermediate state")
    same(ck, "solver unchanged", leaves(eqx.filter(solver, eqx.is_array)), solver_before, "the solver object changed")
    ck.saw("solver unchanged", 1)
    # loop drivers
    n = case["steps"]
    fin = leaves(states[-1])
    if case["loop"] == "scan":
        out = jax.jit(lambda s: jax.lax.scan(lambda c, _: (solver(c), c.step), s, None, length=n)[0])(st0)
    else:
        out = jax.jit(lambda s: jax.lax.fori_loop(0, n, lambda i, c: solver(c), s))(st0)
    near(ck, "loop driver = step by step", leaves(out), fin, 1e4 * eps, case["loop"])
    if case["pyclock"]:      # the same scene with plain Python scalars for time, step and dt
        near(ck, "compiled = eager", leaves(scen.as_arrays(fn(state))), leaves(s1), 1e3 * eps, "python-scalar clock")
    if case["eager"]:
        e = solver(st0)
        near(ck, "compiled = eager", leaves(e), leaves(s1), 1e4 * eps, "eager")
    # dt is honoured per state: half the step, half the clock
    half = eqx.tree_at(lambda s: s.dt, st0, st0.dt * 0.5)
    sh = fn(half)
    ck.close("clock", float(sh.time) - case["time0"], 0.5 * dt, 4 * eps * (case["time0"] + 1), "time advances by the dt of the state")
    # ... and a step size changed on the way counts from then on only
    late = eqx.tree_at(lambda s: s.dt, states[-1], st0.dt * 0.25)
    for k in range(1, 3):
        late = fn(late)
        t = case["time0"] + (case["steps"] + 0.25 * k) * dt
        ck.close("clock", float(late.time), t, (case["steps"] + 4) * eps * (abs(t) + 1) if case["x64"] else 40 * eps * (abs(t) + 1), "time after the step size changed on the way")
    moved = max(np.abs(np.asarray(a.position_stack) - np.asarray(b.position_stack)).max() for a, b in zip(s1.world.material_points, st0.world.material_points))
    if moved > 0:
        return f"{dim}D {case['scheme']} {[b['law'] for b in case['bodies']]} sdf={case['sdf']} damp={case['damping']} gp={case['gp']} x64={case['x64']} eager={case['eager']}"

