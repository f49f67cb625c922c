"""C04: shape functions and grid transfers."""
import numpy as np

ID = "C04"
RULE = ("random and adversarial particle positions (on nodes, on cell edges/centres, in corners of the domain, outside the grid, at "
        "kernel break points) on random anisotropic grids; non-trivial: distinct (kernel, dimension, precision, position class, grid)")
ASSUMPTIONS = ["a linear kernel has no unique gradient on a node; there only the balance identities are checked"]
FLOOR = {"partition of unity": 500, "linear completeness": 500, "matches reference kernel": 2000, "gradient = derivative": 200,
         "scatter conserves": 20, "gather exact for linear fields": 50, "outside nodes are silent": 20, "adjoint": 10,
         "node layout": 20, "non-negative": 1000}
CLASSES = ["random", "on_nodes", "on_edges", "centres", "breaks", "border", "outside"]


def gen_cases(rng, tier):
    cases = []
    for rep in range(2 if tier == "quick" else 10):
        for kind in ("linear", "quadratic", "cubic"):
            for dim in (2, 3):
                for c in CLASSES:
                    cases.append(dict(kind=kind, dim=dim, cls=c, h=float(rng.choice([0.01, 0.1, 0.37, 1.0, 2.5])), x64=bool(rng.random() < 0.7),
                                      pad=int(rng.integers(1, 4)), seed=int(rng.integers(1 << 30))))
    for i in range(4 if tier == "quick" else 12):      # far beyond 2^16 nodes, points and interactions
        cases.append(dict(what="large", kind=["linear", "quadratic", "cubic", "linear"][i % 4], dim=3 if i % 4 == 1 else 2, cls="large", h=0.1, x64=bool(i % 2),
                          pad=2, seed=int(rng.integers(1 << 30))))
    return cases


def large(ck, case):
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import ref
    from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, h, kind = case["dim"], case["h"], case["kind"]
    cells = [280, 260] if dim == 2 else [48, 44, 46]
    n = 70000
    dom = hdx.GridDomain.create((0.0,) * dim, tuple(h * c for c in cells), h, padding=case["pad"])
    size = np.array(cells) + 1 + 2 * case["pad"]
    nn = int(np.prod(size))
    ck.true("node layout", dom.num_cells == nn and tuple(dom.grid_size) == tuple(size), f"{dom.grid_size} nodes")
    xj = jnp.asarray(rng.uniform(2 * h, h * (np.array(cells) - 2), (n, dim)))
    x = np.asarray(xj, float)
    eps = float(jnp.finfo(xj.dtype).eps)
    m = rng.uniform(0.5, 2.0, n)
    mp = ShapeFunctionMapping(shapefunction=kind, dim=dim)
    cache = jax.jit(lambda p: mp.compute(p, origin=dom.origin, grid_size=dom.grid_size, inv_cell_size=dom._inv_cell_size))(xj)
    pid, nid, val = np.asarray(cache.point_ids).astype(int), np.asarray(cache.node_hashes).astype(int), np.asarray(cache.shape_vals, float)
    t = 60 * eps * max(size)
    ck.close("partition of unity", np.bincount(pid, val, n), 1.0, t, f"{kind}: weights of each of {n} points")
    want = np.zeros(nn)
    base = np.floor(x / h).astype(int)
    rngs = np.stack(np.meshgrid(*[np.arange(-2, 4)] * dim, indexing="ij"), -1).reshape(-1, dim)
    for o in rngs:
        node = base + o
        w = np.prod(ref.kernel(kind, x / h - node)[0], axis=1)
        np.add.at(want, np.ravel_multi_index(tuple((node + case["pad"]).T), tuple(size)), w * m)
    got = np.asarray(mp.scatter_to_grid(cache, jnp.ones(n), jnp.asarray(m), nn, normalize=False), float).reshape(nn)
    ck.close("scatter matches reference", np.bincount(nid, val * m[pid], nn), want, 40 * t, f"{kind} {dim}D: mass of {nn} nodes")
    ck.close("scatter matches reference", got, want, 40 * t, f"{kind} {dim}D: scatter_to_grid over {nn} nodes")
    ck.close("scatter conserves", got.sum(), m.sum(), n * eps * 40 + t * m.sum(), "total mass")
    A, b = rng.normal(size=dim), rng.normal()
    lin = np.asarray(dom.position_stack, float) @ A + b
    ck.close("gather exact for linear fields", np.asarray(mp.gather_from_grid(cache, jnp.asarray(lin)), float), x @ A + b, 60 * t * np.abs(lin).max(), f"{kind} {dim}D: {n} points")
    return f"{kind} {dim}D large x64={case['x64']}"


def positions(rng, grid, cls, n, half):
    lo, hi = grid.X.min(0), grid.X.max(0)
    h, dim = grid.h, grid.dim
    m = np.ceil(half) * h
    a, b = lo + m, hi - m
    cells = [rng.integers(0, s, n) for s in grid.size]
    node = grid.origin + h * np.stack(cells, 1)
    node = np.clip(node, a, b)
    if cls == "random":
        return rng.uniform(a, b, (n, dim))
    if cls == "on_nodes":
        return node
    if cls == "on_edges":
        x = rng.uniform(a, b, (n, dim))
        k = rng.integers(0, dim, n)
        x[np.arange(n), k] = node[np.arange(n), k]
        return x
    if cls == "centres":
        return np.clip(node + h / 2, a, b)
    if cls == "breaks":
        off = rng.choice([0, 0.5, 1e-7, -1e-7, 0.5 - 1e-7, 0.5 + 1e-7, 1e-3], (n, dim))
        return np.clip(node + off * h, a, b)
    if cls == "border":      # stencil cut by the grid end
        x = rng.uniform(lo, hi, (n, dim))
        k = rng.integers(0, dim, n)
        side = rng.integers(0, 2, n)
        x[np.arange(n), k] = np.where(side, hi[k] - rng.uniform(0, 1, n) * h, lo[k] + rng.uniform(0, 1, n) * h)
        return x
    if cls == "outside":
        x = rng.uniform(lo, hi, (n, dim))
        k = rng.integers(0, dim, n)
        side = rng.integers(0, 2, n)
        d = (half + rng.uniform(0.6, 40, n)) * h
        x[np.arange(n), k] = np.where(side, hi[k] + d, lo[k] - d)
        return x


def run_case(ck, case):
    if case.get("what") == "large":
        return large(ck, case)
    import jax
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import ref
    from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    dim, h, kind = case["dim"], case["h"], case["kind"]
    origin = rng.uniform(-5, 5, dim) * h
    size = rng.integers(4, 8, dim)
    dom = hdx.GridDomain.create(tuple(float(o) for o in origin), tuple(float(v) for v in origin + size * h), h, padding=case["pad"])
    grid = ref.Grid.of(dom)
    nn = len(grid.X)
    ck.true("node layout", grid.size == tuple(int(s) + 1 + 2 * case["pad"] for s in size), f"{grid.size} nodes for {size} cells + {case['pad']} padding")
    ck.close("node layout", np.asarray(dom.position_stack, float), grid.X, 4e-7 * (np.abs(grid.X).max() + h * max(grid.size)), "node positions")
    ck.true("node layout", dom.num_cells == nn, "node count")
    half = ref.HALF[kind]
    n = 24
    x = positions(rng, grid, case["cls"], n, half)
    xj = jnp.asarray(x)
    x = np.asarray(xj, float)            # what the code actually got
    eps = float(jnp.finfo(xj.dtype).eps)
    mp = ShapeFunctionMapping(shapefunction=kind, dim=dim)
    cache = jax.jit(lambda p: mp.compute(p, origin=dom.origin, grid_size=dom.grid_size, inv_cell_size=dom._inv_cell_size))(xj)
    pid, nid = np.asarray(cache.point_ids).astype(int), np.asarray(cache.node_hashes).astype(int)
    val, gr = np.asarray(cache.shape_vals, float), np.asarray(cache.shape_grads, float)
    rd = np.asarray(cache.rel_dist, float)
    ck.finite("finite", val, gr)
    W = np.zeros((n, nn))
    G = np.zeros((n, nn, 3))
    np.add.at(W, (pid, nid), val)
    np.add.at(G, (pid, nid), gr)
    Wr, Gr = grid.weights(x, kind)
    pos = np.abs(x - grid.origin).max() / h + np.abs(grid.origin).max() / h + 4
    t = 20 * eps * pos
    ck.all("non-negative", val >= -t, "kernel value")
    ck.close("matches reference kernel", W, Wr, t, f"kernel values {kind}")
    if dim == 2:
        ck.all("plane: no out-of-plane gradient", G[..., 2] == 0, "2D gradient has a z component")
    # one-sided at kinks of the linear kernel
    r = (x[:, None] - grid.X[None]) / h
    smooth = np.ones((n, nn), bool)
    if kind == "linear":
        smooth = (np.abs(r) > 50 * eps * pos).all(-1) & (np.abs(np.abs(r) - 1) > 50 * eps * pos).all(-1)
    ck.close("gradient matches reference kernel", G[..., :dim][smooth], Gr[smooth], 6 * t / h, f"{kind}")
    inside = case["cls"] not in ("border", "outside")
    if inside:
        ck.close("partition of unity", W.sum(1), 1.0, t, kind)
        ck.close("gradients sum to zero", G.sum(1), 0.0, 20 * t / h, kind)
        ck.close("linear completeness", W @ grid.X, x, 10 * t * h + 40 * eps * np.abs(x).max(), kind)
        ck.close("gradient completeness", np.einsum("pnj,ni->pij", G[..., :dim], grid.X), np.eye(dim), 40 * t * pos, kind)
    elif case["cls"] == "border":
        ck.all("partition of unity", W.sum(1) <= 1 + t, "weights of a cut stencil exceed one")
    else:
        ck.close("outside nodes are silent", W.sum(1), 0.0, 0.0, "a particle off the grid touches nodes")
        ck.close("outside nodes are silent", np.abs(G).sum((1, 2)), 0.0, 0.0, "a particle off the grid touches nodes")
    live = val > 1e-3
    ck.close("relative distances", rd[live, :dim], (x[pid] - grid.X[nid])[live] / h, 4 * t, "rel_dist of touched nodes")
    if kind != "linear" and inside:
        # derivative of the code's own kernel values by central differences
        d = h * (1e-3 if not case["x64"] else 1e-5)
        kinks = (np.abs((np.abs(r) * 2) % 1) < 4 * d / h).any(-1) | (np.abs((np.abs(r) * 2) % 1) > 1 - 4 * d / h).any(-1)
        for k in range(dim):
            dx = np.zeros(dim)
            dx[k] = d
            Ws = []
            for s in (1, -1):
                c = mp.compute(jnp.asarray(x + s * dx), origin=dom.origin, grid_size=dom.grid_size, inv_cell_size=dom._inv_cell_size)
                w = np.zeros((n, nn))
                np.add.at(w, (np.asarray(c.point_ids).astype(int), np.asarray(c.node_hashes).astype(int)), np.asarray(c.shape_vals, float))
                Ws.append(w)
            fd = (Ws[0] - Ws[1]) / (2 * d)
            ok = ~kinks
            ck.close("gradient = derivative", G[..., k][ok], fd[ok], t / d * 2 + 4 * (d / h) ** 2 / h, f"{kind} d/dx{k}")
    # scatter / gather helpers
    m = rng.uniform(0.5, 2.0, n)
    for shape in ((), (dim,), (3, 3)):
        q = rng.normal(size=(n,) + shape)
        S = np.asarray(mp.scatter_to_grid(cache, jnp.asarray(q), jnp.asarray(m), nn, normalize=False), float)
        ck.true("scatter shape", S.shape == (nn,) + shape, f"{S.shape}")
        want = np.tensordot((Wr * m[:, None]).T, q, 1)
        ck.close("scatter matches reference", S, want, 40 * t * 10, "mass weighted sum")
        if inside:
            ck.close("scatter conserves", S.sum(0), (q.T * m).T.sum(0), 40 * t * n * 4, "total of scattered quantity")
        u = rng.normal(size=(nn,) + shape)
        Gt = np.asarray(mp.gather_from_grid(cache, jnp.asarray(u)), float)
        ck.true("gather shape", Gt.shape == (n,) + shape, f"{Gt.shape}")
        ck.close("gather matches reference", Gt, np.tensordot(Wr, u, 1), 40 * t * 10, "")
        ck.close("adjoint", (S * u).sum(), (Gt * (q.T * m).T).sum(), 40 * t * n * 30, "<scatter(q),u> = <q m, gather(u)>")
    if inside:
        c = rng.normal()
        N = np.asarray(mp.scatter_to_grid(cache, jnp.full((n,), c), jnp.asarray(m), nn, normalize=True), float)
        mass = (Wr * m[:, None]).sum(0)
        clear = mass > 1e-6
        ck.close("normalised scatter keeps constants", N[clear], c, 1e-4 if not case["x64"] else 1e-7, "")
        ck.close("normalised scatter keeps constants", N[W.sum(0) <= 0], 0.0, 0.0, "untouched nodes")
        A, b = rng.normal(size=(dim, dim)), rng.normal(size=dim)
        lin = grid.X / h @ A.T + b
        ck.close("gather exact for linear fields", np.asarray(mp.gather_from_grid(cache, jnp.asarray(lin)), float), x / h @ A.T + b,
                 60 * t * pos, "")
    return f"{kind} {dim}D {case['cls']} x64={case['x64']} grid {grid.size} h={h}"
