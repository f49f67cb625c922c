PROPERTY = "C06"
EDITS = [("hydraxmpm/solvers/usl_asflip.py", 'p_F_store_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_store_stack)', 'p_F_store_next = jnp.einsum("ijk,ikl->ijl", mp_state.F_store_stack, F_inc)')]
NEEDS = "the stored deformation history with the affine scheme and increments that do not commute (shear then stretch, two or more steps)"
BREAKS = "the stored deformation gradient composes increments in the wrong order"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
n = 40
x = rng.uniform(1.0, 3.0, (n, 2))
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(rng.normal(size=(n, 2))), mass_stack=jnp.ones(n), volume_stack=jnp.full((n,), 0.05), store_F=True)
l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=0.2), law_state=None)
sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="quadratic")
sb.set_solver(scheme="usl_aflip", alpha=0.9)
solver, s = sb.build(dt=0.02)
F = np.broadcast_to(np.eye(3), (n, 3, 3))
for _ in range(6):
    s = solver(s)
    mp = s.world.material_points[0]
    F = (np.eye(3) - 0.02 * np.asarray(mp.L_stack)) @ F
got = np.asarray(mp.F_store_stack)
assert np.allclose(got[:, :2, :2], F[:, :2, :2], atol=1e-9), np.abs(got - F).max()
print("ok")
'''
