PROPERTY = "C08"
EDITS = [("hydraxmpm/forces/sdf_collider.py", "    friction_limit = friction_coeff * delta_v_kinematic", "    friction_limit = friction_coeff * jnp.abs(v_n_mag)")]
NEEDS = "material in reach of an obstacle that is separating from it while sliding"
BREAKS = "friction acts on separating motion although there is no normal impulse"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
n = 20
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
p = sb.add_material_points(position_stack=jnp.asarray(rng.uniform([1.0, 1.0], [3.0, 1.3], (n, 2))), velocity_stack=jnp.tile(jnp.array([1.0, 0.8]), (n, 1)),
                           mass_stack=jnp.ones(n), volume_stack=jnp.full((n,), 0.05))
l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=0.2), law_state=None)
sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="quadratic")
f = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.array([0.0, 1.0])), center_of_mass=jnp.array([2.0, 0.9]))
sb.add_sdf_collider(sdf_idx=f, friction=0.5)
sb.set_solver(scheme="usl", alpha=1.0)
solver, s = sb.build(dt=1e-3)
s = solver(s)
v = np.asarray(s.world.material_points[0].velocity_stack)
assert np.allclose(v, [1.0, 0.8], atol=1e-6), ("leaving the plane must be free", v[:3])
print("free")
'''
