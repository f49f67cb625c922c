PROPERTY = "C03"
EDITS = [("hydraxmpm/forces/gravity.py", "            new_force_stack = grid_cache.force_stack + gravity_impulse",
          "            new_force_stack = grid_cache.force_stack + jnp.where(\n                grid_cache.mass_stack[:, None] > 1e-6, gravity_impulse, 0.0\n            )")]
NEEDS = "bodies whose nodal masses are below 1e-6 (small grains in SI units)"
BREAKS = "nodes lighter than an absolute threshold get no gravity: light bodies float"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
n = 25
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
p = sb.add_material_points(position_stack=jnp.asarray(rng.uniform(1.5, 2.5, (n, 2))), velocity_stack=jnp.zeros((n, 2)), mass_stack=jnp.full((n,), 1e-7),
                           volume_stack=jnp.full((n,), 1e-2))
l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e-6, nu=0.2), law_state=None)
sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="quadratic")
sb.add_gravity(gravity=jnp.array([0.0, -9.81]), is_apply_on_grid=True)
sb.set_solver(scheme="usl", alpha=1.0)
solver, s = sb.build(dt=1e-3)
for _ in range(5):
    s = solver(s)
v = np.asarray(s.world.material_points[0].velocity_stack).mean(0)
assert abs(v[1] + 9.81 * 5e-3) < 1e-6, v
print(v)
'''
