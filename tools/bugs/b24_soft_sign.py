PROPERTY = 'C24'
EDITS = [('hydraxmpm/forces/damping.py', '            damping_force = -f_state.alpha * jnp.abs(f_total) * jnp.sign(v_grid)', '            damping_force = -f_state.alpha * jnp.abs(f_total) * jnp.tanh(v_grid / 1e-3)')]
NEEDS = 'a damped scene that moves slowly (below millimetres per second), as when settling'
BREAKS = 'slow motion is damped by less than the stated fraction of the force'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
def run(v0):
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
    x = jnp.asarray(np.random.default_rng(0).uniform(1.5, 2.5, (20, 2)))
    p = sb.add_material_points(position_stack=x, velocity_stack=jnp.tile(jnp.array([0.0, v0]), (20, 1)), mass_stack=jnp.ones(20), volume_stack=jnp.full((20,), 0.05))
    l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e-9, nu=0.2), law_state=None)
    sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="quadratic")
    sb.add_gravity(gravity=jnp.array([0.0, -10.0]), is_apply_on_grid=True)
    sb.add_damping(alpha=0.5) if hasattr(sb, "add_damping") else sb.add_local_damping(alpha=0.5)
    sb.set_solver(scheme="usl", alpha=1.0)
    solver, s = sb.build(dt=1e-6)
    return (np.asarray(solver(s).world.material_points[0].velocity_stack)[:, 1] - v0).mean() / 1e-6
for v0 in (-1.0, -1e-5):
    a = run(v0)
    assert abs(a + 5.0) < 1e-6, (v0, a)
print("damped")
"""
