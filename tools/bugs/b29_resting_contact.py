PROPERTY = 'C29'
EDITS = [('hydraxmpm/forces/sdf_collider.py', '    v_t_frictional = v_t_vec * (1.0 - reduction / (vt_mag + 1e-12))', '    v_t_frictional = v_t_vec * (1.0 - reduction / vt_mag)')]
NEEDS = 'a node that meets an obstacle without any relative motion (a body at rest on, or moving exactly with, an obstacle)'
BREAKS = 'zero over zero: the velocity of the node, and then of its points, is not-a-number'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
x = jnp.array([[2.0, 1.2], [2.2, 1.3]])
p = sb.add_material_points(position_stack=x, velocity_stack=jnp.tile(jnp.array([0.0, 0.0]), (2, 1)), mass_stack=jnp.ones(2), volume_stack=jnp.full((2,), 0.05))
l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e2, nu=0.2), law_state=None)
sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="quadratic")
o = sb.add_sdf_object(sdf_logic=hdx.PlaneSDF(normal=jnp.array([0.0, 1.0])), center_of_mass=jnp.array([0.0, 1.0]))
sb.add_sdf_collider(sdf_idx=o, friction=0.5)
sb.set_solver(scheme="usl", alpha=0.9)
solver, s = sb.build(dt=1e-3)
v = np.asarray(solver(s).world.material_points[0].velocity_stack)
assert np.isfinite(v).all(), v
print(v)
"""
