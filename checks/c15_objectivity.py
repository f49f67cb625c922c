"""C15: constitutive laws do not depend on the choice of axes, and stresses turn with the material."""
import numpy as np

ID = "C15"
RULE = ("random strain histories for all five laws, repeated in rotated, mirrored and permuted axes, and rigid spins of stressed material through angles up "
        "to several turns in steps of different size; every material point independent of its neighbours; non-trivial: distinct (law, dimension, axes change)")
ASSUMPTIONS = ["the stress rate is the Jaumann rate integrated explicitly, hence second-order error in the angle per step"]
FLOOR = {"isotropy": 20000, "spin turns stress": 2000, "invariants under spin": 2000, "points are independent": 2000, "state scalars": 2000, "state tensors turn too": 20000}


def gen_cases(rng, tier):
    cases = []
    laws = ["elastic", "fluid", "mui", "dp", "mcc"]
    for i in range(60 if tier == "quick" else 600):
        cases.append(dict(what="axes", law=laws[i % 5], dim=2 + (i // 5) % 2, axes=["rotation", "mirror", "permutation"][(i // 10) % 3], x64=bool(i % 4),
                          inc=float(rng.choice([1e-4, 1e-3])), seed=int(rng.integers(1 << 30))))
    for i in range(24 if tier == "quick" else 160):
        cases.append(dict(what="spin", law=["dp", "mcc"][i % 2], dim=2 + (i // 2) % 2, angle=float(rng.choice([0.5, 3.0, 10.0])), steps=int(rng.choice([400, 2000])),
                          seed=int(rng.integers(1 << 30))))
    return cases


def rot(rng, dim, kind):
    if dim == 2:
        a = rng.uniform(0, 2 * np.pi)
        Q = np.eye(3)
        Q[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
        if kind == "permutation":
            Q[:2, :2] = [[0, -1], [1, 0]]
        if kind == "mirror":
            Q = Q @ np.diag([1, -1, 1.0])
        return Q
    Q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    Q = Q * np.sign(np.diag(r))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    if kind == "permutation":
        Q = np.eye(3)[rng.permutation(3)]
    if kind == "mirror":
        Q = -Q
    return Q


def run_case(ck, case):
    return axes(ck, case) if case["what"] == "axes" else spin(ck, case)


def turn(x, Q):
    return Q @ x @ Q.T


def rotated_state(ls, Q):
    import jax
    import jax.numpy as jnp
    if ls is None:
        return None
    return jax.tree.map(lambda a: jnp.asarray(turn(np.asarray(a, float), Q), a.dtype) if getattr(a, "ndim", 0) == 3 else a, ls)


def setup(rng, case, n):
    import jax.numpy as jnp
    import scen
    law, st, stress, rho = scen.make_law(rng, case["law"], n, 3)
    if case["law"] in ("mcc",):
        # from nearly normally consolidated to heavily overconsolidated
        st, stress, rho = law.create_state_from_ocr(jnp.asarray(np.trace(stress, axis1=1, axis2=2) / 3), jnp.asarray(np.exp(rng.uniform(0.05, 3.0, n))))
        stress, rho = np.array(stress, float), np.array(rho, float)
        a = scen.rand_sym(rng, n, 1.0)
        a -= np.trace(a, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
        if case["dim"] == 2:
            a[:, 0, 2] = a[:, 2, 0] = a[:, 1, 2] = a[:, 2, 1] = 0
        p = np.trace(stress, axis1=1, axis2=2) / 3
        stress = stress + 0.1 * p[:, None, None] * a
    if case["law"] == "elastic":
        st = law.create_state(stress_ref_stack=jnp.asarray(stress))
    return scen.as_arrays(law), scen.as_arrays(st), stress, rho


def axes(ck, case):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import scen
    from vlib import sub_rng, f, eps_of
    rng = sub_rng(case["seed"])
    n, dim = 64, case["dim"]
    law, ls, stress, rho = setup(rng, case, n)
    if dim == 2:
        stress[:, 0, 2] = stress[:, 2, 0] = stress[:, 1, 2] = stress[:, 2, 1] = 0
    Q = rot(rng, dim, case["axes"])
    mp = scen.points(n, dim, stress, rho, rng=rng)
    if case["law"] == "dp":     # give it elastic strain first
        L0 = scen.rand_L(rng, n, dim, 5e-3, 1.0)
        mp, ls = scen.law_step(law, scen.with_L(mp, L0), ls, 1.0)
    eps = eps_of(mp.stress_stack)
    mpq = eqx.tree_at(lambda m: m.stress_stack, mp, jnp.asarray(turn(f(mp.stress_stack), Q), mp.stress_stack.dtype))
    lsq = rotated_state(ls, Q)
    dt = 1e-3
    mp_alone, ls_alone = mp, ls
    perm = rng.permutation(n)
    take = lambda t: jax.tree.map(lambda a: a[perm] if getattr(a, "ndim", 0) >= 1 and a.shape[0] == n else a, t)
    mpp, lsp = take(mp), take(ls)
    smax = np.abs(f(mp.stress_stack)).max()
    for k in range(12):
        L = scen.rand_L(rng, n, dim, case["inc"], dt)
        fac = 1 + rng.uniform(-0.002, 0.01, n)
        r = f(mp.mass_stack) / f(mp.volume_stack) * fac
        if case["law"] == "mcc":
            r = f(mp.mass_stack) / f(mp.volume_stack)
        mp = scen.with_density(scen.with_L(mp, L), r)
        mpq = scen.with_density(scen.with_L(mpq, turn(L, Q)), r)
        mpp = scen.with_density(scen.with_L(mpp, L[perm]), r[perm])
        mp, ls = scen.law_step(law, mp, ls, dt)
        mpq, lsq = scen.law_step(law, mpq, lsq, dt)
        mpp, lsp = scen.law_step(law, mpp, lsp, dt)
        s, sq = f(mp.stress_stack), f(mpq.stress_stack)
        smax = max(smax, np.abs(s).max())
        stiff = 2e6 if case["law"] == "mcc" else 1e5
        cond = 400 if case["law"] != "mui" else 4000
        tol = cond * eps * (k + 1) * (smax + stiff * case["inc"])
        if case["law"] == "mui":
            # the regularised friction direction is undetermined where the deviatoric rate is pure round-off
            D = 0.5 * (L + np.swapaxes(L, 1, 2))
            dD = D - np.trace(D, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
            good = np.sqrt((dD * dD).sum((1, 2))) > 1e-3 * np.abs(L).max((1, 2)).clip(1e-12)
        else:
            good = np.ones(n, bool)
        if case["law"] == "mcc":
            tol = tol + 3e-6 * smax        # Newton remainder
        ck.close("isotropy", sq[good], turn(s, Q)[good], tol, f"{case['law']} {case['axes']} step {k}")
        ck.close("points are independent", f(mpp.stress_stack), s[perm], 0.1 * tol, f"{case['law']} order of the points, step {k}")
        for a, b in zip(jax.tree.leaves(ls), jax.tree.leaves(lsq)):
            if getattr(a, "ndim", 0) == 3:
                sc = np.abs(f(a)).max()
                ck.close("state tensors turn too", f(b)[good], turn(f(a), Q)[good], (cond * eps * (k + 1) * 20 + (3e-6 if case["law"] == "mcc" else 0)) * (sc + case["inc"]), f"{case['law']} step {k}")
            if getattr(a, "ndim", 0) == 1:
                sc = np.abs(f(a)).max()
                ck.close("state scalars", f(b), f(a), (cond * eps * (k + 1) * 20 + (3e-6 if case["law"] == "mcc" else 0)) * (sc + 0.05), f"{case['law']} step {k}")
    # a subset of the points evolves as it did in the crowd
    m = n // 4
    sub = lambda t: jax.tree.map(lambda a: a[:m] if getattr(a, "ndim", 0) >= 1 and a.shape[0] == n else a, t)
    a1, _ = scen.law_step(law, mp, ls, dt)
    a2, _ = scen.law_step(law, sub(mp), sub(ls), dt)
    ck.close("points are independent", f(a2.stress_stack), f(a1.stress_stack)[:m], 100 * eps * smax + (3e-6 * smax if case["law"] == "mcc" else 0), "subset")
    return f"{case['law']} {dim}D {case['axes']} x64={case['x64']}"


def spin(ck, case):
    import jax.numpy as jnp
    import scen
    from scipy.linalg import expm
    from vlib import sub_rng, f
    rng = sub_rng(case["seed"])
    n, dim = 32, case["dim"]
    law, ls, stress, rho = setup(rng, case, n)
    mp = scen.points(n, dim, stress, rho * (1.0 if case["law"] == "mcc" else 1.05), rng=rng)
    if case["law"] == "dp":
        a = scen.rand_sym(rng, n, 2e-3)
        if dim == 2:
            a[:, 0, 2] = a[:, 2, 0] = a[:, 1, 2] = a[:, 2, 1] = 0
        a -= np.trace(a, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
        a += 5e-3 * np.eye(3)
        mp, ls = scen.law_step(law, scen.with_L(mp, a), ls, 1.0)
    N = case["steps"]
    dt = 1e-3
    w = rng.normal(size=3)
    if dim == 2:
        w[:2] = 0
    w *= case["angle"] / np.linalg.norm(w) / (N * dt)
    Wx = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    s0 = f(mp.stress_stack)
    # shrink the deviator so that the explicit drift never reaches the yield surface
    th = case["angle"] / N
    mp = scen.with_L(mp, np.tile(-Wx, (n, 1, 1)))      # compression-positive velocity gradient
    p0 = np.trace(s0, axis1=1, axis2=2) / 3
    d0 = s0 - p0[:, None, None] * np.eye(3)
    dn = np.sqrt((d0 ** 2).sum((1, 2)))
    import jax
    import equinox as eqx

    @eqx.filter_jit
    def many(law, mp, ls):
        return jax.lax.fori_loop(0, N // 10, lambda i, c: law.update(c[0], c[1], dt), (mp, ls))

    sc0 = [f(a) for a in jax.tree.leaves(ls) if a.ndim == 1]
    for j in range(1, 11):
        mp, ls = many(law, mp, ls)
        k = j * (N // 10)
        R = expm(Wx * dt * k)
        s = f(mp.stress_stack)
        # explicit Jaumann: the deviator grows by at most (1 + 4 th^2)^(k/2) and lags by O(k th^2)
        bound = np.expm1(4 * k * th * th) * dn + 1e-9 * (p0 + dn)
        p = np.trace(s, axis1=1, axis2=2) / 3
        d = s - p[:, None, None] * np.eye(3)
        inside = np.ones(n, bool)
        for a, b in zip(sc0, [f(x) for x in jax.tree.leaves(ls) if x.ndim == 1]):
            inside &= np.abs(a - b) <= 1e-12 * (1 + np.abs(a))
        ck.close("spin turns stress", s[inside], turn(s0, R)[inside], bound[inside][:, None, None], f"{case['law']} {k} steps of {th:.2g} rad")
        ck.close("invariants under spin", p[inside], p0[inside], 1e-9 * p0[inside] + 1e-9, "pressure")
        ck.close("invariants under spin", np.sqrt((d ** 2).sum((1, 2)))[inside], dn[inside], bound[inside], "shear magnitude")
        ck.saw("spun points inside yield", int(inside.sum()))
    return f"spin {case['law']} {dim}D angle={case['angle']} N={N}"
