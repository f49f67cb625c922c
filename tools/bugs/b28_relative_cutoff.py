PROPERTY = 'C28'
EDITS = [('hydraxmpm/solvers/usl_asflip.py', '                intr_mass_stack > self.small_mass_cutoff, intr_mass_stack, 1.0', '                intr_mass_stack > cutoff, intr_mass_stack, 1.0'), ('hydraxmpm/solvers/usl_asflip.py', '            mask = (intr_mass_stack > self.small_mass_cutoff)[:, None]', '            mask = (intr_mass_stack > cutoff)[:, None]'), ('hydraxmpm/solvers/usl_asflip.py', '            # Small mass cutoff to prevent instabilities', '            # Small mass cutoff to prevent instabilities\n            cutoff = jnp.maximum(self.small_mass_cutoff, 1e-6 * jnp.max(grid_cache.mass_stack))')]
NEEDS = 'the AFLIP scheme, and a body a million times heavier anywhere on the same grid'
BREAKS = 'a light body is brought to a halt because a heavy one, out of reach, shares the grid'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
xa, xb = rng.uniform(1.0, 2.0, (20, 2)), rng.uniform(6.0, 7.0, (20, 2))
def run(heavy):
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(8.0, 8.0), cell_size=0.5)
    for x, m, v in [(xa, 1e-2, [1.0, 0.5])] + ([(xb, 1e6, [0.0, 0.0])] if heavy else []):
        p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.tile(jnp.array(v), (20, 1)), mass_stack=jnp.full((20,), m), volume_stack=jnp.full((20,), 0.05))
        l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e-2, nu=0.2), law_state=None)
        sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="cubic")
    sb.set_solver(scheme="usl_aflip", alpha=0.9)
    solver, s = sb.build(dt=1e-3)
    for _ in range(3):
        s = solver(s)
    return np.asarray(s.world.material_points[0].velocity_stack)
a, b = run(False), run(True)
assert np.allclose(a, b, atol=1e-9), abs(a - b).max()
print("same")
"""
