PROPERTY = "C07"
EDITS = [("hydraxmpm/solvers/usl.py", "        time = time + dt\n\n        step = state.step + 1\n", "        step = state.step + 1\n        time = step * dt\n\n")]
NEEDS = "a run that starts at a time other than step * dt, or changes its time step"
BREAKS = "the clock is recomputed from the step counter instead of advancing by one time step"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
p = sb.add_material_points(position_stack=jnp.full((2, 2), 2.1), velocity_stack=jnp.zeros((2, 2)), mass_stack=jnp.ones(2), volume_stack=jnp.full((2,), 0.05))
l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=0.2), law_state=None)
sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="linear")
sb.set_solver(scheme="usl")
solver, s = sb.build(dt=0.25, time=3.0, step=5)
s = solver(solver(s))
assert abs(float(s.time) - 3.5) < 1e-9 and int(s.step) == 7, (s.time, s.step)
print(s.time)
'''
