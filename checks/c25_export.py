"""C25: exported files and viewer messages show the state as it is."""
import os
import numpy as np

ID = "C25"
RULE = ("random states and obstacles exported to VTK and read back from disk with the VTK library, or sent to a recorder standing in for the Rerun viewer; "
        "compared with the state and an independent description of the obstacle; non-trivial: distinct (writer, what, property or shape, dimension, precision)")
ASSUMPTIONS = ["exported surfaces lie within a fraction of the sampling distance of the true surface away from edges", "colours are judged by their order, not their hue"]
FLOOR = {"points as in the state": 20, "property as in the state": 20, "radius from the volume": 20, "surface on the obstacle": 1000, "surface complete": 300, "outward normals": 500, "one file per step": 10,
         "viewer: points as in the state": 6, "viewer: colours rank the property": 4, "exporting changes nothing": 20}
PROPS = ["velocity_stack", "pressure_stack", "stress_stack", "mass_stack", "q_stack", "density_stack", None]
SHAPES = {2: ["sphere", "capsule", "star", "ring", "box"], 3: ["sphere", "capsule", "cylinder", "torus", "box"]}


def gen_cases(rng, tier):
    cases = []
    k = 1 if tier == "quick" else 10
    for i in range(14 * k):
        cases.append(dict(what="points", dim=2 + i % 2, prop=PROPS[i % 7], writer="vtk", x64=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    for i in range(8 * k):
        cases.append(dict(what="points", dim=2 + i % 2, prop=PROPS[i % 6], writer="rerun", x64=True, seed=int(rng.integers(1 << 30))))
    for w in ("vtk", "rerun"):
        for i in range((8 if w == "vtk" else 6) * k):
            cases.append(dict(what="surface", dim=2 + i % 2, shape=SHAPES[2 + i % 2][int(rng.integers(5))], writer=w, x64=bool(rng.integers(2)), seed=int(rng.integers(1 << 30))))
    cases += [dict(what="domain", dim=2 + i % 2, writer=["vtk", "rerun"][i // 2 % 2], x64=True, seed=int(rng.integers(1 << 30))) for i in range(8 * k)]
    cases.append(dict(what="save", dim=2, writer="rerun", x64=True, seed=int(rng.integers(1 << 30))))
    return cases


def run_case(ck, case):
    import contextlib
    import io
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix="c25_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            return dict(points=points, surface=surface, domain=domain, save=save)[case["what"]](ck, case, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


class Recorder:
    """stands in for the rerun module of the viewer"""

    def __init__(self):
        self.logged, self.calls = {}, []

    def log(self, path, *objs, **kw):
        self.logged.setdefault(path, []).extend(objs)

    def __getattr__(self, name):
        if name[0].isupper():
            return lambda *a, **k: (name, a, k)

        def call(*a, **k):
            self.calls.append((name, a, k))
        return call


def viewer(rec):
    import importlib
    m = importlib.import_module("hydraxmpm.common.rerun")
    old = m.rr
    m.rr = rec
    return m, old


def points(ck, case, d):
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim, n = case["dim"], int(rng.integers(1, 40))
    x, v = rng.normal(size=(n, dim)) * 10, rng.normal(size=(n, dim))
    vol, m = rng.uniform(.1, 2, n), rng.uniform(1, 5, n)
    s = rng.normal(size=(n, 3, 3))
    s = s + np.swapaxes(s, 1, 2)
    mp = hdx.MaterialPointState.create(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), volume_stack=jnp.asarray(vol), mass_stack=jnp.asarray(m), stress_stack=jnp.asarray(s))
    before = [np.array(a) for a in jax.tree.leaves(mp)]
    sc = float(rng.uniform(.2, 2))
    rad = (vol / np.pi) ** .5 if dim == 2 else (3 * vol / 4 / np.pi) ** (1 / 3)
    truth = dict(velocity_stack=v, pressure_stack=np.trace(s, axis1=1, axis2=2) / 3, stress_stack=s, mass_stack=m, density_stack=m / vol,
                 q_stack=(1.5 * ((s - np.trace(s, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)) ** 2).sum((1, 2))) ** .5)
    note = f"{case['writer']} {dim}D {case['prop']}"
    if case["writer"] == "vtk":
        import pyvista as pv
        from hydraxmpm.common.vtk_io import VTKVisualizer
        vis = VTKVisualizer(output_dir=os.path.join(d, "out"))
        steps = sorted(int(k) for k in rng.choice(200000, 3, replace=False))
        for k in steps:
            vis.log_particles(mp, label="mat_a", property_name=case["prop"], scale_radius=sc, time=k * 1e-3, step=k)
        vis.log_particles(mp, label="mat_b", property_name=case["prop"])
        names = sorted(os.listdir(os.path.join(d, "out", "mat_a")))
        ck.true("one file per step", len(names) == 3, f"{note}: {names} for steps {steps}")
        ck.true("one file per step", sorted(os.listdir(os.path.join(d, "out"))) == ["mat_a", "mat_b"], note)
        for nm in names:
            k = int("".join(c for c in nm if c.isdigit()))
            ck.true("one file per step", k in steps, f"{note}: {nm}")
            c = pv.read(os.path.join(d, "out", "mat_a", nm))
            P = np.asarray(c.points, float)
            ck.true("points as in the state", P.shape == (n, 3), f"{note}: {P.shape}")
            ck.close("points as in the state", P[:, :dim], x, 1e-5 * 40, note)
            if dim == 2:
                ck.close("points as in the state", P[:, 2], 0 * P[:, 2], 0.0, f"{note}: third axis")
            ck.close("radius from the volume", np.asarray(c.point_data["Radius"], float), rad * sc, 1e-5 * (rad * sc).max(), note)
            ck.close("time as given", float(np.asarray(c.field_data["TimeValue"])[0]), k * 1e-3, 1e-5 * max(k * 1e-3, 1e-3), note)
            if case["prop"] is None:
                ck.true("property as in the state", set(c.point_data.keys()) == {"Radius"}, f"{note}: {c.point_data.keys()}")
            else:
                a = np.asarray(c.point_data[case["prop"]], float)
                t = truth[case["prop"]]
                if t.ndim == 2 and dim == 2:
                    ck.true("property as in the state", a.shape == (n, 3) and not a[:, 2].any(), f"{note}: {a.shape}")
                    a = a[:, :2]
                if t.ndim == 3:       # VTK stores tensors column by column: symmetric here
                    a = a.reshape(n, 3, 3)
                ck.close("property as in the state", a, t, 1e-5 * np.abs(t).max(), note)
    else:
        rec = Recorder()
        mod, old = viewer(rec)
        try:
            vis = mod.RerunVisualizer(mode="none", root_path="S")
            kw = dict(property_name=case["prop"]) if case["prop"] else {}
            vis.log_material_points(mp, label="pts", scale_radius=sc, **kw)
        finally:
            mod.rr = old
        (kind, a, k), = rec.logged["S/pts"]
        P = np.asarray(a[0] if a else k["positions"], float)
        X = x.copy()
        if dim == 2:
            X[:, 1] *= -1           # the viewer's second axis points down
        ck.true("viewer: points as in the state", kind == f"Points{dim}D", kind)
        ck.close("viewer: points as in the state", P, X, 1e-5 * 40, note)
        ck.close("radius from the volume", np.asarray(k["radii"], float), rad * sc, 1e-5 * (rad * sc).max(), note)
        import matplotlib.pyplot as plt
        t = truth[case["prop"] or "velocity_stack"]
        t = np.linalg.norm(t.reshape(n, -1), axis=1) if t.ndim > 1 else t
        nrm = (t - t.min()) / (t.max() - t.min()) if t.max() - t.min() > 1e-6 else 0 * t
        ck.close("viewer: colours rank the property", np.asarray(k["colors"], float), plt.get_cmap("turbo")(nrm), 0.02, note)
    after = [np.array(a) for a in jax.tree.leaves(mp)]
    ck.true("exporting changes nothing", all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, after)), note)
    return f"points {note} {'f64' if case['x64'] else 'f32'}"


def surface(ck, case, d):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import sdfref
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    dim = case["dim"]
    s = float(10 ** rng.uniform(-1, 1))
    shape = dict(kind="box", size=(rng.uniform(.5, 1.2, dim) * s).tolist()) if case["shape"] == "box" else sdfref.rand_shape(rng, case["shape"], s)
    obj = sdfref.make(shape)
    com = rng.normal(size=dim) * 10 * s
    if dim == 2:
        rot = float(rng.uniform(-3, 3))
        R = sdfref.rot2(rot)
    else:
        q = rng.normal(size=4)
        q /= np.linalg.norm(q)
        R, rot = sdfref.quat_matrix(q), jnp.asarray(q)
    st = obj.create_state(jnp.asarray(com), rotation=rot)
    lo, hi = com - s * rng.uniform(1.5, 1.9, dim), com + s * rng.uniform(1.5, 1.9, dim)
    if dim == 2 and rng.random() < .5:       # long and narrow windows
        k = int(rng.integers(2))
        lo[k], hi[k] = lo[k] - s * rng.uniform(0, 3), hi[k] + s * rng.uniform(0, 3)
    res = int(rng.integers(60, 100)) if dim == 2 else 40
    note = f"{case['writer']} {shape['kind']} {dim}D"
    step = int(rng.integers(0, 200000)) if rng.random() < .6 else None
    kw = dict(start=tuple(lo.tolist()), end=tuple(hi.tolist()), resolution=res)
    N = T = None
    if case["writer"] == "vtk":
        import pyvista as pv
        from hydraxmpm.common.vtk_io import VTKVisualizer
        VTKVisualizer(output_dir=os.path.join(d, "o")).log_sdf(obj, st, step=step, time=.25, label="b", **kw)
        names = os.listdir(os.path.join(d, "o", "b"))
        ck.true("one file per step", len(names) == 1 and (("static" in names[0]) if step is None else int("".join(c for c in names[0] if c.isdigit())) == step), f"{note}: {names}")
        m = pv.read(os.path.join(d, "o", "b", names[0]))
        P = np.asarray(m.points, float)
        if dim == 2:
            ck.close("points as in the state", P[:, 2], 0 * P[:, 2], 0.0, note)
        else:
            N, T = np.asarray(m.point_data["normals"], float), np.asarray(m.faces).reshape(-1, 4)[:, 1:]
        ck.close("time as given", float(np.asarray(m.field_data["TimeValue"])[0]), .25, 1e-6, note)
    else:
        rec = Recorder()
        mod, old = viewer(rec)
        try:
            mod.RerunVisualizer(mode="none", root_path="S").log_sdf(obj, st, label="b", **kw)
        finally:
            mod.rr = old
        (kind, a, k), = rec.logged["S/b"]
        if dim == 2:
            P = np.vstack([np.asarray(z, float) for z in (a[0] if a else k["strips"])])
            P[:, 1] *= -1
        else:
            P, N, T = np.asarray(k["vertex_positions"], float), np.asarray(k["vertex_normals"], float), np.asarray(k["triangle_indices"])
    P = P[:, :dim]
    h = 1.05 * (hi - lo).max() / res
    big = np.abs(np.concatenate([lo, hi])).max()
    dd = np.abs(sdfref.distance(shape, P, com, R))
    # near edges the interpolation cuts corners
    for v in dd[:2000]:
        ck.true("surface on the obstacle", v < 0.75 * h + 1e-5 * big, f"{note}: {v / h:.3g} sampling distances off")
    ck.close("mean surface error", np.median(dd), 0.0, 0.1 * h + 1e-5 * big, note)
    # nothing missing: points of the true surface have exported points nearby
    S = rng.uniform(lo, hi, (4000, dim))
    for _ in range(6):
        ds = sdfref.distance(shape, S, com, R)
        S = S - ds[:, None] * sdfref.normal_fd(shape, S, com, R, 1e-5 * s)
    ds = np.abs(sdfref.distance(shape, S, com, R))
    S = S[(ds < 1e-3 * s) & np.all((S > lo + 2 * h) & (S < hi - 2 * h), axis=1)]
    from scipy.spatial import cKDTree
    far = cKDTree(P).query(S)[0]
    for v in far[:500]:
        ck.true("surface complete", v < 2.5 * h, f"{note}: nothing exported within {v / h:.3g} sampling distances of the surface")
    if N is not None:
        ref = sdfref.normal_fd(shape, P, com, R, 1e-4 * s)
        smooth = np.abs(np.linalg.norm(ref, axis=1) - 1) < 1e-3
        a = (N * ref).sum(1) / np.maximum(np.linalg.norm(N, axis=1), 1e-12)
        ck.true("outward normals", np.mean(a[smooth] > 0.7) > 0.9, f"{note}: {np.mean(a[smooth] > 0.7):.2f} of the normals agree")
        ck.saw("outward normals", int(smooth.sum()))
        fn = np.cross(P[T[:, 1]] - P[T[:, 0]], P[T[:, 2]] - P[T[:, 0]])
        area = np.linalg.norm(fn, axis=1)
        b = (fn * ref[T[:, 0]]).sum(1) / np.maximum(area, 1e-300)
        w = area > 1e-3 * area.max()
        ck.true("triangles face outward", np.mean(b[w] > 0) > 0.9, f"{note}: {np.mean(b[w] > 0):.2f}")
    return f"surface {note} {'static' if step is None else 'step'}"


def domain(ck, case, d):
    import pyvista as pv
    from hydraxmpm.common.vtk_io import VTKVisualizer
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim = case["dim"]
    lo = rng.normal(size=dim)
    hi = lo + rng.uniform(1, 3, dim)
    h = .1
    if case["writer"] == "rerun":
        rec = Recorder()
        mod, old = viewer(rec)
        try:
            vis = mod.RerunVisualizer(mode="none", root_path="S")
            vis.log_static_domain(origin=tuple(lo.tolist()), end=tuple(hi.tolist()), cell_size=h, label="dom")
            vis.log_time(17, 0.25)
        finally:
            mod.rr = old
        (kind, a, k), = rec.logged["S/dom"]
        ck.true("viewer: domain", kind == f"Boxes{dim}D", kind)
        e0 = np.asarray(k["mins"], float).reshape(dim)
        e1 = e0 + np.asarray(k["sizes"], float).reshape(dim)
        if dim == 2:
            e0[1], e1[1] = -e0[1], -e1[1]
        b0, b1 = np.minimum(e0, e1), np.maximum(e0, e1)
        ck.true("viewer: domain", (np.abs(b0 - lo) <= 2 * h).all() and (np.abs(b1 - hi) <= 2 * h).all() and (b0 <= lo + 1e-6).all() and (b1 >= hi - 1e-6).all(), f"{b0}..{b1} for {lo}..{hi}")
        times = [c[2] for c in rec.calls if c[0] == "set_time"]
        ck.true("viewer: clock", any(17 in t.values() for t in times) and any(0.25 in t.values() for t in times), f"{times}")
        return f"domain rerun {dim}D"
    VTKVisualizer(output_dir=os.path.join(d, "o")).log_static_domain(tuple(lo.tolist()), tuple(hi.tolist()), h)
    b = np.asarray(pv.read(os.path.join(d, "o", "domain", "bounds.vtp")).bounds, float).reshape(3, 2)[:dim]
    ck.true("box encloses the domain", (b[:, 0] <= lo + 1e-6).all() and (b[:, 1] >= hi - 1e-6).all() and (b[:, 0] >= lo - 2 * h).all() and (b[:, 1] <= hi + 2 * h).all(), f"{b} for {lo}..{hi}")
    return f"domain {dim}D"


def save(ck, case, d):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import importlib
    mod = importlib.import_module("hydraxmpm.common.rerun")
    rec = Recorder()
    m, old = viewer(rec)
    flag = mod.RerunVisualizer._viewer_started
    try:
        mod.RerunVisualizer._viewer_started = False
        for k in range(2):
            mod.RerunVisualizer(mode="save", root_path=f"S{k}")
            ck.true("viewer: save mode records", sum(c[0] == "save" for c in rec.calls) == k + 1, f"visualizer {k}: {[c[0] for c in rec.calls]}")
            ck.true("viewer: save mode opens no viewer", not any(c[0] in ("spawn", "serve") for c in rec.calls), "")
        mod.RerunVisualizer._viewer_started = False
        for k in range(3):
            mod.RerunVisualizer(mode="spawn", root_path="T")
        ck.true("viewer: one window", sum(c[0] == "spawn" for c in rec.calls) == 1, f"{[c[0] for c in rec.calls]}")
    finally:
        mod.rr = old
        mod.RerunVisualizer._viewer_started = flag
    return "save"
