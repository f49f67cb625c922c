PROPERTY = 'C20'
EDITS = [('hydraxmpm/solvers/usl.py', '            intr_vels_nt = jnp.where(mask, intr_momement_nt_stack / safe_masses, 0.0)', '            intr_vels_nt = jnp.where(\n                mask, intr_momement_nt_stack / intr_mass_stack[:, None], 0.0\n            )')]
NEEDS = 'differentiating through a step in which a point touches a node without mass (a point on a cell face)'
BREAKS = 'the untaken branch divides by zero: values stay right, gradients are not-a-number'
DEMO = """
import numpy as np, jax, jax.numpy as jnp, equinox as eqx, hydraxmpm as hdx
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
x = jnp.array([[2.0, 2.0], [2.25, 2.0], [2.0, 2.5]])
p = sb.add_material_points(position_stack=x, velocity_stack=jnp.array([[0.1, 0.0], [0.0, 0.2], [0.0, 0.0]]), mass_stack=jnp.ones(3), volume_stack=jnp.full((3,), 0.05))
l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e2, nu=0.2), law_state=None)
for k in ("linear",):
    sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction=k)
sb.set_solver(scheme="usl", alpha=0.9)
solver, s = sb.build(dt=1e-3)
def loss(v):
    t = eqx.tree_at(lambda s: s.world.material_points[0].velocity_stack, s, v)
    return jnp.sum(solver(t).world.material_points[0].velocity_stack ** 2)
g = np.asarray(jax.grad(loss)(s.world.material_points[0].velocity_stack))
assert np.isfinite(g).all(), g
print(g)
"""
