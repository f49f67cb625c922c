PROPERTY = "C17"
EDITS = [("hydraxmpm/common/sim_io.py", '        filename = f"state_{int(step):05d}.eqx"\n        path', '        filename = f"state_{int(step):05d}"[:11] + ".eqx"\n        path')]
NEEDS = "checkpoints at steps of 100000 and more"
BREAKS = "step numbers are cut to five digits: later checkpoints overwrite each other and cannot be found by their step"
DEMO = '''
import contextlib, io, tempfile
import jax.numpy as jnp, hydraxmpm as hdx
from hydraxmpm.common.sim_io import SimIO, load_simulation
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
p = sb.add_material_points(position_stack=jnp.full((2, 2), 2.1), velocity_stack=jnp.ones((2, 2)), mass_stack=jnp.ones(2), volume_stack=jnp.full((2,), 0.05))
l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=0.2), law_state=None)
sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="linear")
sb.set_solver(scheme="usl")
solver, s = sb.build(dt=1e-3, step=123455)
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    rec = SimIO(output_dir=d + "/o")
    rec.save_solver(solver)
    states = []
    for _ in range(3):
        s = solver(s)
        rec.save_step(s)
        states.append(s)
    for x in states:
        y = load_simulation(d + "/o", solver, states[0], int(x.step))[1]
        assert int(y.step) == int(x.step), (y.step, x.step)
print("ok")
'''
