"""C27: grids and material points start out as requested."""
import numpy as np

ID = "C27"
RULE = ("random domains (origin, extent, cell size, padding, tuples or arrays), random points inside them met by every kernel, and bodies created with random subsets of their arguments; compared with the "
        "documented layout and defaults; non-trivial: distinct (family, dimension, precision, arguments given)")
ASSUMPTIONS = ["extents that are no whole number of cells may end up to one cell early", "cover by the quadratic kernel with one ghost cell is judged on whole numbers of cells"]
FLOOR = {"nodes as many as requested": 25, "nodes where requested": 25, "row-major order": 25, "requested domain covered": 100, "weights belong to the nodes": 100, "supplied values kept": 100, "documented defaults": 100,
         "views": 100, "builder passes on": 15, "rigid points": 10, "summary": 3}
GIVEN = ["velocity_stack", "force_stack", "mass_stack", "volume_stack", "volume0_stack", "L_stack", "stress_stack", "F_stack"]


def gen_cases(rng, tier):
    cases = []
    for i in range(36 if tier == "quick" else 500):
        cases.append(dict(what="grid", dim=2 + i % 2, pad=int(rng.choice([0, 1, 2, 3, 5])), whole=bool(i % 3), arrays=bool(rng.integers(2)), x64=bool(i % 4), builder=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    for i in range(36 if tier == "quick" else 500):
        cases.append(dict(what="points", dim=2 + i % 2, given=[g for g in GIVEN if rng.random() < .4], how=["none", "cell", "ppc", "points_per_cell", "density"][i % 5], x64=bool(i % 4), store=bool(rng.integers(2)),
                          builder=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    for i in range(12 if tier == "quick" else 100):
        cases.append(dict(what="rigid", dim=2 + i % 2, x64=bool(i % 4), normals=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    import jax.numpy as jnp
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    return globals()[case["what"]](ck, case, rng)


def grid(ck, case, rng):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from hydraxmpm.grid.grid import GridDomain, GridArrays
    from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
    from vlib import f, eps_of
    dim, pad = case["dim"], case["pad"]
    e = eps_of(jnp.zeros(1))
    h = float(rng.choice([0.1, 0.3, 1.0, 0.0125, 2.5, 0.007, float(10 ** rng.uniform(-3, 1))]))
    cells = rng.integers(1, 24 if dim == 2 else 9, dim)
    frac = np.zeros(dim) if case["whole"] else rng.uniform(0.05, 0.95, dim)
    o = rng.choice([0.0, 1.0, -1.0, 0.3], dim) * rng.uniform(0.0, 5.0, dim) * h
    end = o + (cells + frac) * h
    O, E = (jnp.asarray(o), jnp.asarray(end)) if case["arrays"] else (tuple(map(float, o)), tuple(map(float, end)))
    if case["builder"]:
        sb = hdx.SimBuilder()
        sb.add_grid(origin=(0.0,) * dim, end=(1.0,) * dim, cell_size=0.5)
        g = sb.add_grid(origin=O, end=E, cell_size=h, padding=pad)
        ck.true("nodes as many as requested", g == 1, "index of registration")
        gd = sb.grid_domains[g]
        ck.true("nodes as many as requested", sb.grid_domains[sb.add_grid(grid_domain=gd)] is gd, "a ready domain is taken as it is")
    else:
        gd = GridDomain.create(O, E, h, padding=pad)
    o, end = (f(O), f(E)) if case["arrays"] else (o, end)
    want = tuple(int(c) + 1 + 2 * pad for c in cells)
    ck.true("nodes as many as requested", tuple(gd.grid_size) == want, f"{gd.grid_size} for {want}, h {h}, padding {pad}, origin {o}, end {end}")
    ck.true("nodes as many as requested", gd.num_cells == int(np.prod(want)) and gd.dim == dim and gd.cell_size == h and abs(gd._inv_cell_size * h - 1) < 1e-12, "counts")
    P = f(gd.position_stack)
    M = f(gd.position_mesh)
    ck.true("row-major order", P.shape == (gd.num_cells, dim) and M.shape == want + (dim,), "shapes")
    idx = np.stack(np.meshgrid(*[np.arange(k) for k in want], indexing="ij"), -1)
    ref = o - pad * h + idx * h
    sc = np.abs(ref).max() + h
    ck.close("nodes where requested", M, ref, 8 * e * sc, "node positions")
    ck.close("row-major order", P, ref.reshape(-1, dim), 8 * e * sc, "stack")
    ck.close("nodes where requested", f(np.array(gd.origin)), o - pad * h, 8 * e * sc, "origin")
    ck.close("nodes where requested", f(np.array(gd.end)), end + pad * h, 8 * e * sc, "end")
    ga = GridArrays.new(gd)
    for name in ("mass_stack", "moment_stack", "moment_nt_stack", "force_stack"):
        a = f(getattr(ga, name))
        ck.true("nodes as many as requested", a.shape == ((gd.num_cells,) if name == "mass_stack" else (gd.num_cells, dim)) and not a.any(), "fresh arrays")
    ck.true("nodes as many as requested", ga.dim == dim, "dimension")
    # particles anywhere in the requested domain, edges and corners included
    n = 40
    u = rng.uniform(0, 1, (n, dim))
    u[:10] = np.round(u[:10])
    u[10:20, 0] = np.round(u[10:20, 0])
    x = o + u * (end - o)
    xs = f(jnp.asarray(x))
    for kernel, need in (("linear", 1), ("quadratic", 1), ("cubic", 2)):
        if pad < need + (kernel == "quadratic" and not case["whole"]):
            continue
        shp = ShapeFunctionMapping(shapefunction=kernel, dim=dim)
        c = shp.compute(jnp.asarray(x), origin=gd.origin, grid_size=gd.grid_size, inv_cell_size=gd._inv_cell_size)
        w, hh, pid = f(c.shape_vals), np.asarray(c.node_hashes).astype(int), np.asarray(c.point_ids).astype(int)
        ck.true("weights belong to the nodes", hh.min() >= 0 and hh.max() < gd.num_cells, "indices")
        tot = np.bincount(pid, w, n)
        rel = e * (sc / h + 30)
        ck.close("requested domain covered", tot, np.ones(n), 60 * rel, f"{kernel}, padding {pad}")
        back = np.stack([np.bincount(pid, w * ref.reshape(-1, dim)[hh, k], n) for k in range(dim)], 1)
        ck.close("weights belong to the nodes", back, xs, 60 * rel * (sc + h), f"{kernel}")
        d = f(c.rel_dist)[:, :dim]
        on = np.abs(w) > 0
        ck.close("weights belong to the nodes", d[on], ((xs[pid] - ref.reshape(-1, dim)[hh]) / h)[on], 60 * rel, "relative distance")
    return f"grid {dim}D {pad} {case['x64']} {case['whole']} {case['arrays']} {case['builder']}"


def points(ck, case, rng):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from vlib import f, eps_of
    import io, contextlib
    dim, n = case["dim"], int(rng.integers(1, 9))
    e = eps_of(jnp.zeros(1))
    x = rng.normal(size=(n, dim))
    val = dict(velocity_stack=rng.normal(size=(n, dim)), force_stack=rng.normal(size=(n, dim)), mass_stack=rng.uniform(.1, 5, n), volume_stack=rng.uniform(.1, 2, n), volume0_stack=rng.uniform(.1, 2, n),
               L_stack=rng.normal(size=(n, 3, 3)), stress_stack=rng.normal(size=(n, 3, 3)), F_stack=np.eye(3) + .1 * rng.normal(size=(n, 3, 3)))
    val["stress_stack"] = val["stress_stack"] + np.swapaxes(val["stress_stack"], 1, 2)
    given = {k: jnp.asarray(val[k]) for k in case["given"]}
    kw = {}
    h, ppc, rho = 1.0, 4.0, np.full(n, 1000.0)
    if case["how"] in ("cell", "ppc", "points_per_cell", "density"):
        h = kw["cell_size"] = float(rng.uniform(.05, 3))
    if case["how"] in ("ppc", "points_per_cell"):
        ppc = kw[case["how"]] = int(rng.integers(1, 10))
    if case["how"] == "density" or rng.random() < .3:
        rho = rng.uniform(500, 3000, n)
        kw["density_stack"] = jnp.asarray(rho)
    if case["store"]:
        kw["store_F"] = True
    if case["builder"]:
        sb = hdx.SimBuilder()
        sb.add_material_points(position_stack=jnp.asarray(rng.normal(size=(3, dim))))
        i = sb.add_material_points(position_stack=jnp.asarray(x), **given, **kw)
        mp = sb.particle_states[i]
        ck.true("builder passes on", i == 1 and type(mp) is hdx.MaterialPointState, "index and kind")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            sb.summary(dt=1e-3)
        ck.true("summary", f"{n + 3}" in [t for ln in buf.getvalue().splitlines() if "Total" in ln for t in ln.split()], buf.getvalue()[:200])
    else:
        mp = hdx.MaterialPointState.create(position_stack=jnp.asarray(x), **given, **kw)
    ck.true("builder passes on", mp.num_points == n and mp.dim == dim, "size")
    ck.close("supplied values kept", f(mp.position_stack), f(jnp.asarray(x)), 0.0, "position")
    for k in case["given"]:
        ck.close("supplied values kept", f(getattr(mp, k)), f(given[k]), 0.0, k)
    vol = f(given["volume_stack"]) if "volume_stack" in given else np.full(n, h**dim / ppc)
    dflt = dict(velocity_stack=np.zeros((n, dim)), force_stack=np.zeros((n, dim)), L_stack=np.zeros((n, 3, 3)), stress_stack=np.zeros((n, 3, 3)), F_stack=np.tile(np.eye(3), (n, 1, 1)),
                volume_stack=vol, volume0_stack=vol, mass_stack=vol * rho)
    for k, a in dflt.items():
        if k not in given:
            got = f(getattr(mp, k))
            ck.true("documented defaults", got.shape == a.shape, k)
            ck.close("documented defaults", got, a, 8 * e * (np.abs(a).max()), f"{k} ({case['how']})")
    F = f(mp.F_stack)
    if case["store"]:
        ck.close("supplied values kept", f(mp.F_store_stack), F, 0.0, "stored deformation starts as the deformation")
    else:
        ck.true("documented defaults", mp.F_store_stack is None, "no stored deformation unless asked for")
    m, v, v0, s = f(mp.mass_stack), f(mp.volume_stack), f(mp.volume0_stack), f(mp.stress_stack)
    ck.close("views", f(mp.density_stack), m / v, (20 * e + 2e-16 / v.min()) * (m / v).max(), "density")
    ck.close("views", f(mp.density_ref_stack), m / v0, (20 * e + 2e-16 / v0.min()) * (m / v0).max(), "reference density")
    ck.close("views", f(mp.pressure_stack), np.trace(s, axis1=1, axis2=2) / 3, 20 * e * 9, "pressure")
    ck.close("views", f(mp.KE_stack), .5 * m * (f(mp.velocity_stack)**2).sum(1), 20 * e * m.max() * 20, "kinetic energy")
    d = s - np.trace(s, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
    ck.close("views", f(mp.q_stack), np.sqrt(1.5 * (d**2).sum((1, 2))), 60 * e * 9, "shear stress")
    D = .5 * (f(mp.L_stack) + np.swapaxes(f(mp.L_stack), 1, 2))
    ck.close("views", f(mp.deps_dt_stack), D, 20 * e * 9, "strain rate")
    ck.close("views", f(mp.eps_v_stack), -np.log(np.linalg.det(F)), 200 * e + 3e-8, "volumetric strain")
    return f"points {dim}D {case['x64']} {case['how']} {sorted(case['given'])} {case['store']}"


def rigid(ck, case, rng):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from hydraxmpm.material_points.material_points import RigidMaterialPointState
    from vlib import f
    dim, n = case["dim"], int(rng.integers(1, 9))
    x, nn = rng.normal(size=(n, dim)), rng.normal(size=(n, dim))
    kw = dict(normal_stack=jnp.asarray(nn)) if case["normals"] else {}
    sb = hdx.SimBuilder()
    i = sb.add_material_points(position_stack=jnp.asarray(x), is_rigid=True, **kw)
    j = sb.add_material_points(position_stack=jnp.asarray(x[:1]))
    r = sb.particle_states[i]
    ck.true("rigid points", (i, j) == (0, 1) and isinstance(r, RigidMaterialPointState) and not isinstance(sb.particle_states[j], RigidMaterialPointState), "kinds")
    ck.close("rigid points", f(r.position_stack), f(jnp.asarray(x)), 0.0, "position")
    ck.true("rigid points", (f(r.mass_stack) == 1).all() and f(r.mass_stack).shape == (n,) and not f(r.velocity_stack).any() and f(r.velocity_stack).shape == (n, dim), "defaults")
    ck.close("rigid points", f(r.normal_stack), f(jnp.asarray(nn)) if case["normals"] else np.zeros((n, dim)), 0.0, "normals")
    return f"rigid {dim}D {case['x64']} {case['normals']}"
