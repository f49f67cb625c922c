PROPERTY = "C01"
EDITS = [("hydraxmpm/solvers/usl.py",
          "            safe_masses = jnp.where(intr_mass_stack > 1e-12, intr_mass_stack, 1.0)[\n                :, None\n            ]\n            mask = (intr_mass_stack > 1e-12)[:, None]",
          "            node_cutoff = 1e-3 * jnp.max(grid_cache.mass_stack)\n            safe_masses = jnp.where(intr_mass_stack > node_cutoff, intr_mass_stack, 1.0)[\n                :, None\n            ]\n            mask = (intr_mass_stack > node_cutoff)[:, None]")]
NEEDS = "a light body in the same grid as one that is thousands of times heavier, or nodes touched only by the tail of a kernel"
BREAKS = "nodes carrying less than a thousandth of the heaviest node are ignored when gathering: momentum of light material is lost"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
for k, (c, m) in enumerate([(1.0, 1.0), (3.0, 1e-5)]):
    n = 30
    p = sb.add_material_points(position_stack=jnp.asarray(rng.uniform(c - 0.4, c + 0.4, (n, 2))), velocity_stack=jnp.ones((n, 2)),
                               mass_stack=jnp.full((n,), m), volume_stack=jnp.full((n,), 0.02))
    l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=0.2), law_state=None)
    sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="cubic")
sb.set_solver(scheme="usl", alpha=0.0)
solver, s = sb.build(dt=1e-4)
for _ in range(3):
    s = solver(s)
for mp in s.world.material_points:
    v = np.asarray(mp.velocity_stack)
    assert np.allclose(v, 1.0, atol=1e-9), ("free uniform motion lost momentum", v.min(), v.max())
print("momentum kept")
'''
