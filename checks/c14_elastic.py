"""C14: the linear elastic solid obeys Hooke's law along any strain history."""
import numpy as np

ID = "C14"
RULE = ("random strain histories on random (E, nu) from random prestresses, split, reordered, reversed and superposed; uniaxial, hydrostatic and simple-shear "
        "paths against E, K, G; closed loops; non-trivial: distinct (dimension, precision, Poisson ratio)")
ASSUMPTIONS = ["small-strain incremental law (stress increment from the symmetric part of the velocity gradient)"]
FLOOR = {"Hooke increment": 5000, "path independence": 1000, "closed loop": 1000, "moduli": 1000, "stored energy": 1000, "spin does not load": 1000, "split step": 1000}


def gen_cases(rng, tier):
    return [dict(dim=2 + i % 2, nu=float(rng.choice([-0.8, -0.3, 0.0, 0.2, 0.33, 0.45, 0.49])), x64=bool(i % 3), n=int([64, 64, 64, 3, 300][(i // 6) % 5]), inc=float(10.0 ** rng.integers(-7, -1)),
                 seed=int(rng.integers(1 << 30))) for i in range(40 if tier == "quick" else 600)]


def run_case(ck, case):
    import jax.numpy as jnp
    import scen
    import hydraxmpm as hdx
    from vlib import sub_rng, f, eps_of
    rng = sub_rng(case["seed"])
    n, dim, nu = case["n"], case["dim"], case["nu"]
    E = float(10 ** rng.uniform(-1, 12))
    law = scen.as_arrays(hdx.LinearElasticLaw(E=E, nu=nu))
    E, nu = float(law.E), float(law.nu)
    K, G = E / 3 / (1 - 2 * nu), E / 2 / (1 + nu)
    s0 = scen.rand_sym(rng, n, E * case["inc"] * rng.choice([0, 1, 100]))
    mp0 = scen.points(n, dim, s0, rng=rng)
    ls = scen.as_arrays(law.create_state(material_points=mp0))
    s0 = f(mp0.stress_stack)
    eps = eps_of(mp0.stress_stack)
    ck.close("law leaves the rest alone", f(ls.stress_ref_stack), s0, 0.0, "the state remembers the stress it was made from")
    ck.close("law leaves the rest alone", f(law.create_state(density_stack=mp0.density_stack).stress_ref_stack), 0 * s0, 0.0, "a state made from density remembers none")
    I = np.eye(3)

    def hooke(e):
        return (K - 2 * G / 3) * np.trace(e, axis1=1, axis2=2)[:, None, None] * I + 2 * G * e

    def drive(mp, Ls, dt):
        st, out = ls, []
        for L in Ls:
            mp, st = scen.law_step(law, scen.with_L(mp, L), st, dt)
            out.append(f(mp.stress_stack))
        return mp, out

    dt = 10.0 ** rng.uniform(-9, 1.5)
    Ls = [scen.rand_L(rng, n, dim, case["inc"], dt) for _ in range(6)]
    sym = lambda L: 0.5 * (f(L) + np.swapaxes(f(L), 1, 2))
    mag = np.abs(s0).max() + 6 * (abs(K) + 2 * G) * max(np.abs(L).max() for L in Ls) * dt * 3
    T = 40 * eps * mag * (1 + 1 / (1 - 2 * nu))
    mp1, hist = drive(mp0, Ls, dt)
    prev = s0
    work = np.zeros(n)
    for k, L in enumerate(Ls):
        ck.close("Hooke increment", hist[k], prev + hooke(sym(L) * dt), T, f"step {k}")
        ck.close("stress symmetric", hist[k], np.swapaxes(hist[k], 1, 2), T, f"step {k}")
        work += (0.5 * (hist[k] + prev) * sym(L) * dt).sum((1, 2))
        prev = hist[k]
    ck.close("law leaves the rest alone", f(mp1.position_stack), f(mp0.position_stack), 0.0, "")
    ck.close("law leaves the rest alone", f(mp1.volume_stack), f(mp0.volume_stack), 0.0, "")
    ck.close("law leaves the rest alone", f(mp1.F_stack), f(mp0.F_stack), 0.0, "")
    perm = rng.permutation(6)
    ck.close("path independence", drive(mp0, [Ls[i] for i in perm], dt)[1][-1], prev, T, "increments in another order")
    ck.close("split step", drive(mp0, [L for L in Ls for _ in range(4)], dt / 4)[1][-1], prev, 4 * T, "each step in four")
    ck.close("split step", drive(mp0, [sum(Ls)], dt)[1][-1], prev, 2 * T, "all in one")
    ck.close("closed loop", drive(mp1, [-L for L in Ls[::-1]], dt)[1][-1], s0, 2 * T, "there and back")
    W = rng.normal(size=(n, 3, 3))
    ck.close("spin does not load", drive(mp0, [(W - np.swapaxes(W, 1, 2)) * case["inc"] / dt], dt)[1][-1], s0, T, "pure spin of the velocity gradient")
    # stored energy of the strain equals the work done from a stress-free state, and is positive
    e = sum(sym(L) * dt for L in Ls)
    ds = prev - s0
    U = 0.5 * (ds * e).sum((1, 2))
    ck.close("stored energy", work - (s0 * e).sum((1, 2)), U, 20 * T * np.abs(e).max() * 6 + 1e-300, "work = stored energy")
    ck.all("stored energy", U >= -20 * T * np.abs(e).max(), "positive")
    # engineering moduli
    a = case["inc"] * rng.uniform(0.2, 1, n)
    z = scen.as_arrays(hdx.MaterialPointState.create(position_stack=mp0.position_stack, mass_stack=mp0.mass_stack, volume_stack=mp0.volume_stack))
    Tm = 40 * eps * E * case["inc"] * (1 + 1 / (1 - 2 * nu))
    uni = a[:, None, None] * np.diag([-nu, -nu, 1.0])
    s = drive(z, [uni / dt], dt)[1][-1]
    ck.close("moduli", s, E * a[:, None, None] * np.diag([0, 0, 1.0]), Tm, "uniaxial stress: E (compression positive)")
    s = drive(z, [a[:, None, None] * I / dt], dt)[1][-1]
    ck.close("moduli", s, 3 * K * a[:, None, None] * I, Tm, "hydrostatic: K")
    sh = np.zeros((3, 3))
    sh[0, 1] = 1
    s = drive(z, [a[:, None, None] * sh / dt], dt)[1][-1]
    ck.close("moduli", s, G * a[:, None, None] * (sh + sh.T), Tm, "simple shear: G")
    s = drive(z, [a[:, None, None] * np.diag([0, 1.0, 0]) / dt], dt)[1][-1]
    ck.close("moduli", s[:, 1, 1], (K + 4 * G / 3) * a, Tm, "uniaxial strain: P-wave modulus")
    ck.close("moduli", s[:, 0, 0], nu / (1 - nu) * s[:, 1, 1], 2 * Tm, "lateral pressure coefficient")
    return f"{dim}D nu={nu:.2g} x64={case['x64']} inc={case['inc']:.0e}"
