"""C26: stress, strain, density and rotation measures obey their defining identities for every input."""
import numpy as np

ID = "C26"
RULE = ("random tensors of any magnitude (isotropic, deviatoric, rank-deficient, nearly singular, single or stacked), densities and rotations, in both precisions, put through every helper; "
        "monitored against the defining identities and independent numpy evaluations; non-trivial: distinct (family, precision, magnitude, stack shape)")
ASSUMPTIONS = ["the strain helpers' regularisation (1e-8 of strain) is allowed for"]
FLOOR = {"stress split": 300, "invariants": 300, "strain measure": 300, "work conjugate": 100, "porosity": 300, "triaxial round trip": 100, "lithostatic": 100, "inverse": 300, "rotation": 300,
         "stack equals points": 100, "rates": 100, "point measures": 100}
FAMS = ["stress", "strain", "porosity", "triaxial", "inverse", "rotation", "stack", "points"]


def gen_cases(rng, tier):
    return [dict(fam=FAMS[i % 8], x64=bool((i // 8) % 3), mag=float(10 ** rng.uniform(-4, 7)), shape=[[], [5], [3, 4]][(i // 8) % 3], seed=int(rng.integers(1 << 30)))
            for i in range(72 if tier == "quick" else 700)]


def run_case(ck, case):
    import jax
    import jax.numpy as jnp
    import hydraxmpm.utils.math_helpers as H
    from vlib import sub_rng, f, eps_of
    rng = sub_rng(case["seed"])
    e = eps_of(jnp.zeros(1))
    n = 40
    J = jnp.asarray
    mag = case["mag"]
    sh = tuple(case["shape"])
    globals()[case["fam"]](ck, case, rng, H, J, f, e, mag, sh, n)
    return f"{case['fam']} {'f64' if case['x64'] else 'f32'} 1e{round(np.log10(mag))} {sh}"


def sym(rng, sh):
    a = rng.normal(size=sh + (3, 3))
    return a + np.swapaxes(a, -1, -2)


def tr(a):
    return np.trace(a, axis1=-2, axis2=-1)


def I(a):
    return a[..., None, None] * np.eye(3)


def rand_rot(rng, dim=3):
    q = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    return q * np.sign(np.linalg.det(q))


def stress(ck, case, rng, H, J, f, e, mag, sh, n):
    for k in range(n):
        s = sym(rng, sh) * mag
        kind = k % 4
        if kind == 1:
            s = I(tr(s) / 3)
        if kind == 2:
            s = s - I(tr(s) / 3)
        s = f(J(s))
        p, d, q, j2 = f(H.get_pressure(J(s))), f(H.get_dev_stress(J(s))), f(H.get_q_vm(J(s))), f(H.get_J2(J(s)))
        sc = np.abs(s).max()
        ck.close("stress split", p, tr(s) / 3, 8 * e * sc, "pressure")
        ck.close("stress split", I(p) + d, s, 8 * e * sc, "spherical and deviatoric part add up")
        ck.close("stress split", tr(d), 0 * p, 20 * e * sc, "the deviator has no trace")
        dd = s - I(tr(s) / 3)
        ref = np.sqrt(1.5 * (dd**2).sum((-1, -2)))
        ck.close("invariants", q, ref, 30 * e * sc, "von Mises stress")
        ck.close("invariants", np.sqrt(3 * np.maximum(j2, 0)), ref, 60 * e * sc, "J2")
        ck.true("invariants", (q >= 0).all() and (j2 >= 0).all(), "never negative")
        tau = f(H.get_scalar_shear_stress(J(s), None, None))
        ck.close("invariants", tau * 3**.5, ref, 30 * e * sc, "shear stress")
        # the same from parts that are already known
        ck.close("invariants", f(H.get_q_vm(dev_stress=J(d))), q, 30 * e * sc, "from the deviator")
        ck.close("invariants", f(H.get_dev_stress(J(s), J(p))), d, 30 * e * sc, "from the pressure")
        Q = rand_rot(rng)
        ck.close("invariants", f(H.get_q_vm(J(Q @ s @ Q.T))), q, 100 * e * sc, "frame")
        ck.close("invariants", f(H.get_q_vm(J(s + 5 * mag * np.eye(3)))), q, 200 * e * (sc + 5 * mag), "independent of pressure")
        b = sym(rng, sh) * mag
        ck.close("invariants", f(H.get_double_contraction(J(s), J(b))), (s * b).sum((-1, -2)), 60 * e * sc * np.abs(b).max(), "double contraction")


def strain(ck, case, rng, H, J, f, e, mag, sh, n):
    import scipy.linalg as sl
    for k in range(n):
        size = float(10 ** rng.uniform(-4, 0))
        A = rng.normal(size=(3, 3))
        V = sl.expm(-size * 0.5 * (A + A.T))
        R = rand_rot(rng)
        if k % 5 == 0:      # coincident stretches
            w = np.full(3, np.exp(-size))
            if k % 2:
                w[0] *= np.exp(size)
            V = R @ np.diag(w) @ R.T
        F = V @ rand_rot(rng) if k % 3 else V
        F = f(J(F))
        want = -0.5 * sl.logm(F @ F.T).real
        h = f(H.get_hencky_strain(J(F)))
        sc = np.abs(want).max() + 1
        wide = np.linalg.cond(F) ** 2   # squared by the definition through F F^T
        sc = sc * wide
        ck.close("strain measure", h, want, 60 * e * sc, "logarithm of the stretch, compression positive")
        ck.close("strain measure", h, h.T, 60 * e * sc, "symmetric")
        ck.close("strain measure", f(H.get_volumetric_strain(J(h))), -np.log(np.linalg.det(F)), 60 * e * sc, "volume change")
        Q = rand_rot(rng)
        ck.close("strain measure", f(H.get_hencky_strain(J(F @ Q))), h, 100 * e * sc, "no strain by a rotation first")
        ck.close("strain measure", f(H.get_hencky_strain(J(Q @ F))), Q @ h @ Q.T, 100 * e * sc, "turns with a rotation afterwards")
        ck.close("strain measure", f(H.get_hencky_strain(J(np.linalg.inv(F)))), -f(H.get_hencky_strain(J(F.T))), 300 * e * sc * np.linalg.cond(F), "inverse")
        d = f(H.get_dev_strain(J(h)))
        ck.close("strain measure", d, h - np.trace(h) / 3 * np.eye(3), 20 * e * sc, "deviator")
        ck.close("strain measure", f(H.get_shear_strain_vm(J(h))), np.sqrt(2 / 3 * (d**2).sum()), 2e-8 + 30 * e * sc, "equivalent shear strain")
        ck.close("strain measure", f(H.get_scalar_shear_strain(J(h))), np.sqrt(.5 * (d**2).sum()), 30 * e * sc, "scalar shear strain")
        small = f(H.get_small_strain(J(F)))
        ck.close("strain measure", small, .5 * (F + F.T) - np.eye(3), 10 * e * 3, "small strain")
        # work: p dev + q deq = s : d for coaxial states
        a = rng.normal()
        ax = np.diag([1.0, 1.0, -2.0]) / 3
        p0, q0 = rng.normal() * mag, abs(rng.normal()) * mag
        s = p0 * np.eye(3) - q0 * ax
        de = size * (rng.normal() * np.eye(3) - abs(a) * ax)
        lhs = f(H.get_pressure(J(s))) * f(H.get_volumetric_strain(J(de))) + f(H.get_q_vm(J(s))) * f(H.get_shear_strain_vm(J(de)))
        ck.close("work conjugate", lhs, (s * de).sum(), 60 * e * np.abs(s).max() * np.abs(de).max() * 9 + 2e-8 * q0, "p dev + q deq")
        L = rng.normal(size=(3, 3)) * mag
        D, W = f(H.get_sym_tensor(J(L))), f(H.get_spin_tensor(J(L)))
        ck.close("rates", D + W, L, 8 * e * np.abs(L).max(), "stretch and spin add up")
        ck.close("rates", D - D.T, 0 * D, 8 * e * np.abs(L).max(), "symmetric")
        ck.close("rates", W + W.T, 0 * D, 8 * e * np.abs(L).max(), "skew")
        ck.close("rates", f(H.get_strain_rate_tensor(J(L))), D, 8 * e * np.abs(L).max(), "strain rate")
        ck.close("rates", f(H.get_skew_tensor(J(L))), W, 8 * e * np.abs(L).max(), "skew part")


def porosity(ck, case, rng, H, J, f, e, mag, sh, n):
    for k in range(n):
        phi = rng.uniform(.05, .99, sh)
        ee = f(H.phi_to_e(J(phi)))
        ck.close("porosity", ee, 1 / phi - 1, 40 * e * 20, "void ratio")
        ck.close("porosity", f(H.e_to_phi(J(ee))), phi, 10 * e * 20, "back again")
        rs, rb = rng.uniform(2000, 3000, sh), rng.uniform(900, 1900, sh)
        eb = f(H.get_e_from_bulk_density(J(rs), J(rb)))
        ck.close("porosity", eb, (rs - rb) / rb, 40 * e * 3, "voids per solids from densities")
        pb = f(H.get_phi_from_bulk_density(J(rs), J(rb)))
        ck.close("porosity", pb, rb / rs, 40 * e, "solid fraction from densities")
        ck.true("porosity", (eb >= 0).all() and (pb <= 1).all(), "bounds")
        # solids are conserved by a volume change
        L = rng.normal(size=(3, 3)) * 10.0
        dt = 1e-5
        p0 = float(rng.uniform(.3, .7))
        p1 = float(f(H.get_phi_from_L(J(L), J(p0), dt)))
        V = np.linalg.det(np.eye(3) - L * dt)
        ck.close("porosity", p1 * V, p0, 1e-6 + 20 * e, "solids conserved by a small volume change")
        a1, n1 = rng.normal(size=3) * 10, rng.normal(size=3)     # shear with compression along one axis: the volume is exactly 1 - a.n dt
        dt1 = float(rng.uniform(.01, .5) / np.abs(a1).max() / np.abs(n1).sum())
        ck.close("porosity", float(f(H.get_phi_from_L(J(np.outer(a1, n1)), J(p0), dt1))) * (1 - a1 @ n1 * dt1), p0, 60 * e, "solids conserved by a finite simple compression")
        ck.true("porosity", (p1 > p0) == (np.trace(L) > 0) or abs(np.trace(L)) < 1e-2, "compression packs")
        m, v = float(rng.uniform(.1, 9)), rng.normal(size=3)
        ck.close("porosity", float(f(H.get_KE(m, J(v)))), .5 * m * (v**2).sum(), 30 * e * m * 9, "kinetic energy")
        p, g, d, r = (float(10 ** rng.uniform(-1, 5)), float(10 ** rng.uniform(-3, 3)), float(10 ** rng.uniform(-4, -1)), 2650.0)
        i0 = float(f(H.get_inertial_number(J(p), J(g), d, r)))
        ck.close("porosity", i0, g * d / (p / r) ** .5, 30 * e * i0, "inertial number")


def triaxial(ck, case, rng, H, J, f, e, mag, sh, n):
    for k in range(n):
        m = int(rng.integers(1, 8))
        p, q = rng.normal(size=m) * mag, rng.normal(size=m) * mag       # extension (q < 0) too
        s = f(H.reconstruct_stress_from_triaxial(J(p), J(q)))
        sc = np.abs(s).max()
        ck.close("triaxial round trip", f(H.get_pressure(J(s))), p, 20 * e * sc, "pressure")
        ck.close("triaxial round trip", f(H.get_q_vm(J(s))), np.abs(q), 40 * e * sc, "shear")
        ck.true("triaxial round trip", (np.abs(s - np.swapaxes(s, 1, 2)) == 0).all() and (np.abs(s[:, 0, 0] - s[:, 1, 1]) <= 8 * e * sc).all(), "equal lateral stresses, no shear")
        ck.close("triaxial round trip", s[:, 2, 2] - s[:, 0, 0], q, 20 * e * sc, "the third axis carries q more")
        rho, z = rng.uniform(900, 2000, m), rng.uniform(0, 30, m)
        g, k0, th = float(rng.uniform(1, 20)), float(rng.uniform(.2, 1.5)), float(rng.choice([0, 10, 30, -20]))
        pp, qq = H.precondition_from_lithostatic(J(rho), J(z), g, th, k0)
        pp, qq = f(pp), f(qq)
        t = np.radians(th)
        S = np.zeros((m, 3, 3))
        S[:, 2, 2] = rho * g * z * np.cos(t)
        S[:, 0, 0] = S[:, 1, 1] = k0 * S[:, 2, 2]
        S[:, 0, 2] = S[:, 2, 0] = rho * g * z * np.sin(t)
        dv = S - I(tr(S) / 3)
        sc = np.abs(S).max() + 1e-9
        ck.close("lithostatic", pp, tr(S) / 3, 20 * e * sc, f"pressure, slope {th}, k0 {k0}")
        ck.close("lithostatic", qq, np.sqrt(1.5 * (dv**2).sum((1, 2))), 60 * e * sc, f"shear, slope {th}, k0 {k0}")
        d0, d1 = f(H.precondition_from_lithostatic(J(rho), J(z), g)[0]), f(H.precondition_from_lithostatic(J(rho), J(z), g, 0.0, 0.5)[0])
        ck.close("lithostatic", d0, d1, 0.0, "documented defaults")


def inverse(ck, case, rng, H, J, f, e, mag, sh, n):
    import jax
    sc = float(np.clip(mag, 1e-3, 1e4))
    for k in range(n):
        A2, A3 = rng.normal(size=(2, 2)) * sc, rng.normal(size=(3, 3)) * sc
        if k % 4 == 0:
            A2[1] = A2[0] * 2 + 1e-3 * A2[1]
            A3[2] = A3[0] + A3[1] + 1e-2 * A3[2]
        A2, A3 = f(J(A2)), f(J(A3))
        i2, i3 = f(H.inv_2x2_robust(J(A2))), f(H.inv_3x3_robust(J(A3)))
        for A, B in ((A2, i2), (A3, i3)):
            c = np.linalg.cond(A)
            if c < 0.05 / e**.5:
                ck.close("inverse", A @ B, np.eye(len(A)), 60 * e * c * c + 4e-20 / abs(np.linalg.det(A)), "product with the matrix")
        x = float(rng.normal() * sc)
        ck.close("inverse", float(f(H.safe_inv_scalar_clamped(J(x)))) * x, 1.0, 10 * e + 2e-20 / abs(x), "scalar")
        # slope of 1/x, limited in size
        gx = float(f(jax.grad(H.safe_inv_scalar_clamped)(J(x))))
        ck.close("inverse", gx, -min(1 / x**2, 1e6), 1e-3 * min(1 / x**2, 1e6), "slope")
        v = rng.normal(size=(4, 3)) * sc
        ck.close("inverse", f(H.safe_norm(J(v), axis=1)), np.linalg.norm(v, axis=1), 1.1e-6 + 10 * e * sc * 5, "norm")
    for z in (0.0, 1e-30):
        ck.finite("inverse", f(H.safe_inv_scalar_clamped(J(z))), "zero")
        ck.finite("inverse", f(jax.grad(H.safe_inv_scalar_clamped)(J(z))), "slope at zero")
    ck.finite("inverse", f(H.inv_2x2_robust(J(np.zeros((2, 2))))), "singular matrix")
    ck.finite("inverse", f(jax.grad(lambda t: H.safe_norm(t))(J(np.zeros(3)))), "slope of the norm at zero")


def rotation(ck, case, rng, H, J, f, e, mag, sh, n):
    import sdfref
    for k in range(n):
        q = rng.normal(size=4)
        q = f(J(q / np.linalg.norm(q)))
        v = rng.normal(size=3) * mag
        R = sdfref.quat_matrix(q)
        w = f(H.quaternion_rotate(J(q), J(v)))
        ck.close("rotation", w, R @ v, 30 * e * mag * 5, "quaternion and matrix")
        ck.close("rotation", f(H.quaternion_rotate(H.quaternion_inv(J(q)), J(w))), v, 60 * e * mag * 5, "there and back")
        t, u = float(rng.uniform(-9, 9)), rng.normal(size=2) * mag
        w2 = f(H.rotation_2d(J(t), J(u)))
        ck.close("rotation", w2, sdfref.rot2(t) @ u, 60 * e * mag * 9, "angle and matrix")
        ck.close("rotation", f(H.rotation_2d_inv(J(t), J(w2))), u, 60 * e * mag * 9, "there and back")
        om, dt = rng.normal(size=3) * 10, float(10 ** rng.uniform(-5, -2))
        q1 = f(H.integrate_quaternion(J(q), J(om), dt))
        ck.close("rotation", np.linalg.norm(q1), 1.0, 1e-11 + 10 * e, "stays a rotation")
        ex = sdfref.rotvec_matrix(om * dt) @ R
        ang = np.linalg.norm(om) * dt
        ck.close("rotation", sdfref.quat_matrix(q1), ex, ang**3 + 60 * e, "turns about the given axis, in the fixed frame")
        ck.close("rotation", float(f(H.rotate_2d_update(t, float(om[0]), dt))), t + om[0] * dt, 30 * e * 10, "plane angle")
        # a stress turning with the material: first order
        s = sym(rng, ()) * mag
        W = rng.normal(size=(3, 3))
        W = W - W.T
        inc = f(H.get_jaumann_increment(J(s), J(W), 1e-3))
        ck.close("rotation", np.trace(inc), np.trace(s), 40 * e * np.abs(s).max(), "spin keeps the pressure")
        ck.close("rotation", inc, inc.T, 40 * e * np.abs(s).max(), "spin keeps symmetry")


def stack(ck, case, rng, H, J, f, e, mag, sh, n):
    m = 7
    s = sym(rng, (m,)) * mag
    L = rng.normal(size=(m, 3, 3))
    F = np.eye(3) + .2 * rng.normal(size=(m, 3, 3))
    sc = np.abs(s).max()
    one = [("get_pressure", s), ("get_dev_stress", s), ("get_q_vm", s), ("get_J2", s), ("get_volumetric_strain", s), ("get_dev_strain", s), ("get_shear_strain_vm", s), ("get_strain_rate_tensor", L),
           ("get_hencky_strain", F), ("get_small_strain", F), ("get_sym_tensor", L), ("get_skew_tensor", L), ("get_scalar_shear_strain", s)]
    for name, a in one:
        A = f(getattr(H, name + "_stack")(J(a)))
        ref = np.stack([f(getattr(H, name)(J(x))) for x in a])
        tol = 60 * e * (np.abs(ref).max() + np.abs(a).max() ** (2 if name == "get_J2" else 1) + 1)
        for i in range(m):
            ck.close("stack equals points", A[i], ref[i], tol, name)
    tau = f(H.get_scalar_shear_stress_stack(J(s)))
    ck.close("stack equals points", tau * 3**.5, f(H.get_q_vm_stack(J(s))), 60 * e * sc, "shear stress")
    b = sym(rng, (m,))
    ck.close("stack equals points", f(H.get_double_contraction_stack(J(s), J(b))), (s * b).sum((1, 2)), 90 * e * sc * 9, "double contraction")
    mass, v = rng.uniform(1, 2, m), rng.normal(size=(m, 3))
    ck.close("stack equals points", f(H.get_KE_stack(J(mass), J(v))), .5 * mass * (v**2).sum(1), 60 * e * 20, "kinetic energy")
    p, g = rng.uniform(1, 2, m), rng.uniform(1, 2, m)
    ck.close("stack equals points", f(H.get_inertial_number_stack(J(p), J(g), .01, 2650.0)), g * .01 / (p / 2650) ** .5, 60 * e * 5, "inertial number")
    ck.close("stack equals points", f(H.get_plastic_strain_stack(J(s), J(b))), s - b, 10 * e * (sc + 9), "plastic strain")
    phi = rng.uniform(.2, .9, m)
    ck.close("stack equals points", f(H.e_to_phi_stack(H.phi_to_e_stack(J(phi)))), phi, 60 * e, "void ratio there and back")


def points(ck, case, rng, H, J, f, e, mag, sh, n):
    """the quantities a material point set derives from what it stores"""
    import hydraxmpm as hdx
    import scipy.linalg as sl
    for dim in (2, 3):
        m = int(rng.integers(1, 9))
        F, Fs = [f(J(np.eye(3) + a * rng.normal(size=(m, 3, 3)))) for a in (.15, .25)]
        F, Fs = [a[np.linalg.det(a) > .2] if (np.linalg.det(a) > .2).any() else np.eye(3)[None] for a in (F, Fs)]
        m = min(len(F), len(Fs))
        F, Fs = F[:m], Fs[:m]
        L, s, v, mass = rng.normal(size=(m, 3, 3)) * 7, sym(rng, (m,)) * mag, rng.normal(size=(m, dim)), rng.uniform(.1, 9, m)
        V0 = rng.uniform(.1, 3, m) * 1e-3
        V = V0 * np.linalg.det(F)
        mp = hdx.MaterialPointState.create(position_stack=J(rng.normal(size=(m, dim))), velocity_stack=J(v), mass_stack=J(mass), volume_stack=J(V), volume0_stack=J(V0),
                                           L_stack=J(L), stress_stack=J(s), F_stack=J(Fs), store_F=True)
        import equinox as eqx
        mp = eqx.tree_at(lambda t: t.F_stack, mp, J(F))
        ck.true("point measures", mp.num_points == m and mp.dim == dim, "sizes")
        k = 200 * e * 30
        D = .5 * (L + np.swapaxes(L, 1, 2))
        dv = lambda a: a - I(tr(a) / 3)
        vm = lambda a: np.sqrt(2 / 3 * (dv(a) ** 2).sum((1, 2)))
        lg = lambda A: np.stack([-.5 * sl.logm(x @ x.T).real for x in A])
        for name, want, tol in [("density_stack", mass / V, k * 1e5), ("density_ref_stack", mass / V0, k * 1e5), ("pressure_stack", tr(s) / 3, k * mag), ("KE_stack", .5 * mass * (v**2).sum(1), k * 9),
                                ("q_stack", np.sqrt(1.5 * (dv(s) ** 2).sum((1, 2))), k * mag), ("eps_stack", lg(F), k), ("stored_eps_stack", lg(Fs), k), ("eps_v_stack", -np.log(np.linalg.det(F)), k),
                                ("deps_dt_stack", D, k * 9), ("shear_strain_rate_stack", vm(D), 2e-8 + k * 9), ("shear_strain_stack", vm(lg(F)), 2e-8 + k), ("stored_shear_strain_stack", vm(lg(Fs)), 2e-8 + k)]:
            ck.close("point measures", f(getattr(mp, name)), want, tol, f"{name} {dim}D")
