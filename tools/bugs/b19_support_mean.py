PROPERTY = 'C19'
EDITS = [('hydraxmpm/solvers/usl_asflip.py', '                support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)', '                support_ratio = p_mass_support / (jnp.mean(mp_state.mass_stack) + 1e-9)')]
NEEDS = 'the AFLIP scheme with dynamic alpha and points of different mass, grouped differently'
BREAKS = 'the support of a point is measured against the mean mass of its body, so the motion depends on which points are listed together'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
n = 30
x, v, m = rng.uniform(1.5, 3.0, (n, 2)), rng.normal(size=(n, 2)), np.where(np.arange(n) % 2, 1.0, 3.0)
def run(groups):
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(5.0, 5.0), cell_size=0.5)
    for g in groups:
        p = sb.add_material_points(position_stack=jnp.asarray(x[g]), velocity_stack=jnp.asarray(v[g]), mass_stack=jnp.asarray(m[g]), volume_stack=jnp.asarray(0.01 * m[g]))
        l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e2, nu=0.2), law_state=None)
        sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="quadratic")
    sb.set_solver(scheme="usl_aflip", alpha=0.95, use_dynamic_alpha=True)
    solver, s = sb.build(dt=1e-3)
    for _ in range(4):
        s = solver(s)
    out = np.zeros((n, 2))
    for g, mp in zip(groups, s.world.material_points):
        out[g] = np.asarray(mp.velocity_stack)
    return out
a = run([np.arange(n)])
b = run([np.arange(0, n, 2), np.arange(1, n, 2)])
assert np.allclose(a, b, atol=1e-9), abs(a - b).max()
print("same")
"""
