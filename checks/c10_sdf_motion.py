"""C10: moving obstacles follow rigid-body kinematics, once per step."""
import numpy as np

ID = "C10"
RULE = ("long histories of piecewise constant linear/angular velocities (changed between steps) for 2D and 3D objects, driven directly and through "
        "solvers with several objects, colliders and grids; compared with exact rigid motion; non-trivial: distinct (dimension, driver, spin rate)")
ASSUMPTIONS = ["orientation is integrated to second order per step (angle error below (w dt)^3/8 per step)"]
FLOOR = {"unit quaternion": 500, "centre follows velocity": 500, "orientation": 500, "distance is carried along": 2000, "velocity field": 1000,
         "once per step in solver": 50, "rigid velocity": 1000}


def gen_cases(rng, tier):
    cases = []
    for i in range(24 if tier == "quick" else 160):
        cases.append(dict(what="direct", dim=2 + i % 2, rate=float(rng.choice([0.0, 0.5, 10.0, 100.0])), shape=str(rng.choice(["box", "capsule", "plane", "composite"])),
                          steps=300 if tier == "quick" else 5000, x64=bool(i % 3), seed=int(rng.integers(1 << 30))))
    for i in range(16 if tier == "quick" else 100):
        cases.append(dict(what="solver", dim=2 + i % 2, scheme=["usl", "usl_aflip"][(i // 2) % 2], nsdf=int(rng.integers(1, 4)), grids=int(rng.integers(1, 3)),
                          cols=int(rng.integers(0, 5)), steps=5, seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    return direct(ck, case) if case["what"] == "direct" else solver(ck, case)


def advance(com, R, v, w, dt, dim):
    import sdfref
    return com + dt * v, (sdfref.rot2(dt * w) if dim == 2 else sdfref.rotvec_matrix(dt * np.asarray(w))) @ R


def direct(ck, case):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import sdfref
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim = case["dim"]
    if case["shape"] == "plane":
        shape = dict(kind="plane", normal=rng.normal(size=dim).tolist())
    elif case["shape"] == "box":
        shape = dict(kind="box", size=rng.uniform(0.3, 1.5, dim).tolist())
    elif case["shape"] == "composite":
        shape = dict(kind="composite", frictions=[0.1, 0.2], shapes=[dict(kind="capsule", radius=0.3, height=1.0), dict(kind="box", size=rng.uniform(0.3, 1.5, dim).tolist())])
    else:
        shape = dict(kind="capsule", radius=0.3, height=1.0)
    obj = sdfref.make(shape)
    com = rng.normal(size=dim)
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    a0 = float(rng.uniform(-3, 3))
    st = obj.create_state(center_of_mass=jnp.asarray(com), velocity=jnp.asarray(rng.normal(size=dim)),
                          angular_velocity=jnp.asarray(1.0) if dim == 2 else jnp.asarray(rng.normal(size=3)),
                          rotation=jnp.asarray(a0) if dim == 2 else jnp.asarray(q))
    com = np.asarray(st.center_of_mass, float)
    R = sdfref.R_of(np.asarray(st.rotation, float), dim)
    eps = float(jnp.finfo(st.center_of_mass.dtype).eps)
    y0 = rng.uniform(-1.5, 1.5, (20, dim))          # body-fixed probe points
    upd = jax.jit(lambda s, dt: obj.update_kinematics(s, dt))
    dist = jax.jit(lambda s, x: obj.get_signed_distance_stack(s, x))
    vel = jax.jit(lambda s, x: obj.get_velocity_stack(s, x, 1e-3))
    d0 = np.asarray(dist(st, jnp.asarray(com + y0 @ R.T)), float)
    err, path = 0.0, 0.0
    dt = 1e-3
    v = w = None
    for k in range(case["steps"]):
        if k % 37 == 0:
            v = rng.normal(size=dim)
            w = rng.normal() * case["rate"] if dim == 2 else rng.normal(size=3) * case["rate"]
            st = eqx.tree_at(lambda s: (s.velocity, s.angular_velocity), st,
                             (jnp.asarray(v, st.velocity.dtype), jnp.asarray(w, st.velocity.dtype)))
            v, w = np.asarray(st.velocity, float), np.asarray(st.angular_velocity, float)
        Rp, cp = R, com
        com, R = advance(com, R, v, w, dt, dim)
        st = upd(st, dt)
        path += dt * np.abs(v).max()
        wd = np.linalg.norm(w) * dt
        err += wd ** 3 / 8 + 8 * eps
        if k % 10 == 0 or k == case["steps"] - 1:
            rot = np.asarray(st.rotation, float)
            if dim == 3:
                ck.close("unit quaternion", np.linalg.norm(rot), 1.0, 20 * eps + 2e-12, f"step {k}")
            else:
                ck.saw("unit quaternion")
            ck.close("centre follows velocity", np.asarray(st.center_of_mass, float), com, 4 * eps * (k + 1) * (path + np.abs(com).max() + 1), f"step {k}")
            ck.close("orientation", sdfref.R_of(rot, dim), R, err * 2 + 5e-12 + 20 * eps * (1 + abs(float(rot)) if dim == 2 else 1), f"step {k} rate {case['rate']}")
            Ro = sdfref.R_of(rot, dim)
            x = np.asarray(st.center_of_mass, float) + y0 @ Ro.T
            ck.close("distance is carried along", np.asarray(dist(st, jnp.asarray(x)), float), d0, 200 * eps * (np.abs(x).max() + 2) + 1.2e-6, f"step {k}")
            V = np.asarray(vel(st, jnp.asarray(x)), float)
            sc = np.abs(V).max() + 1
            ck.close("velocity field", V, sdfref.velocity(x, np.asarray(st.center_of_mass, float), v, w), 60 * eps * sc * (1 + np.abs(x).max()), f"step {k}")
            # velocity is what the next update does to body-fixed points
            st2 = upd(st, 1e-4)
            x2 = np.asarray(st2.center_of_mass, float) + y0 @ sdfref.R_of(np.asarray(st2.rotation, float), dim).T
            if eps < 1e-10:
                ck.close("velocity field", (x2 - x) / 1e-4, V, 1e-4 * (np.linalg.norm(w) ** 2 + 1) * 4 + 1e-9, f"step {k} displacement / dt")
            i, j = rng.integers(0, 20, (2, 30))
            ck.close("rigid velocity", ((x[i] - x[j]) * (V[i] - V[j])).sum(1), 0.0, 200 * eps * sc * (1 + np.abs(x).max()), "points of a rigid body keep their distance")
    return f"direct {dim}D {case['shape']} rate={case['rate']} x64={case['x64']} {case['seed'] % 97}"


def solver(ck, case):
    import jax.numpy as jnp
    import scen
    import sdfref
    import hydraxmpm as hdx
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim = case["dim"]
    h = 0.5
    L = 6 * h
    objs = []

    def hook(sb):
        order = rng.permutation(case["nsdf"])
        for k in range(case["nsdf"]):
            com, v = rng.uniform(0.2, 0.8, dim) * L, rng.normal(size=dim)
            w = float(rng.normal()) if dim == 2 else rng.normal(size=3)
            q = rng.normal(size=4)
            q /= np.linalg.norm(q)
            rot = float(rng.uniform(-3, 3)) if dim == 2 else q
            s = sb.add_sdf_object(sdf_logic=hdx.BoxSDF(size=jnp.asarray(rng.uniform(0.1, 0.3, dim))), center_of_mass=jnp.asarray(com), velocity=jnp.asarray(v),
                                  angular_velocity=w if dim == 2 else jnp.asarray(w), rotation=rot if dim == 2 else jnp.asarray(rot))
            objs.append([com, sdfref.R_of(rot, dim), v, w, s])
        for c in range(case["cols"]):
            sb.add_sdf_collider(sdf_idx=int(order[c % case["nsdf"]]), friction=0.3)

    dt = 1e-3
    spec = dict(dim=dim, scheme=case["scheme"], cell=h, L=L, grids=case["grids"], dt=dt, hook=hook,
                bodies=[dict(law="elastic", kernel="linear", n=3, vel=0.1, grid=g) for g in range(case["grids"])])
    solver_, state, info = scen.build(spec, rng)
    err = 0.0
    for k, st in enumerate(scen.run(solver_, state, case["steps"])):
        if k:
            for o in objs:
                o[0], o[1] = advance(o[0], o[1], o[2], o[3], dt, dim)
                err = max(err, k * (np.linalg.norm(o[3]) * dt) ** 3 / 8)
        for o in objs:
            s = st.world.sdfs[o[4]]
            ck.close("once per step in solver", np.asarray(s.center_of_mass, float), o[0], 1e-12, f"after {k} steps, {case['cols']} colliders")
            ck.close("once per step in solver", sdfref.R_of(np.asarray(s.rotation, float), dim), o[1], err * 2 + 1e-12, f"after {k} steps")
            ck.close("once per step in solver", np.asarray(s.velocity, float), o[2], 0.0, "obstacle velocity is prescribed")
            ck.close("once per step in solver", np.asarray(s.angular_velocity, float), o[3], 0.0, "obstacle spin is prescribed")
    return f"solver {dim}D {case['scheme']} sdf={case['nsdf']} cols={case['cols']} grids={case['grids']} {case['seed'] % 7}"
