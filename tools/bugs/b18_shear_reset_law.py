PROPERTY = 'C18'
EDITS = [('hydraxmpm/solvers/usl.py', '            mp_state = self.constitutive_laws[c.c_idx].remove_accumulated_shear(', '            mp_state = self.constitutive_laws[i].remove_accumulated_shear(')]
NEEDS = 'two bodies whose laws are registered in another order than they are coupled, one law forgetting shear and the other not, and sheared material'
BREAKS = 'which body forgets its accumulated shear depends on the order in which bodies are coupled, not on the law it has'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
xa, xb = rng.uniform(1.2, 2.0, (20, 2)), rng.uniform(3.5, 4.2, (20, 2))
def run(swap):
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(6.0, 6.0), cell_size=0.5)
    mk = lambda x: sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(np.stack([x[:, 1], 0 * x[:, 1]], 1)), mass_stack=jnp.full((20,), 10.0), volume_stack=jnp.full((20,), 0.05))
    a, b = mk(xa), mk(xb)
    la = lambda: sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e3, nu=0.2, requires_F_reset=False), law_state=None)
    lb = lambda: sb.add_constitutive_law(law=hdx.NewtonFluid(K=1e3, viscosity=1.0), law_state=hdx.NewtonFluid(K=1e3, viscosity=1.0).create_state_from_density(density_stack=jnp.full((20,), 200.0), pressure_stack=jnp.zeros(20)))
    if swap:
        il = lb(); ie = la()
    else:
        ie = la(); il = lb()
    sb.couple(p_idx=a, g_idx=0, c_idx=ie, shapefunction="quadratic")
    sb.couple(p_idx=b, g_idx=0, c_idx=il, shapefunction="quadratic")
    sb.set_solver(scheme="usl", alpha=1.0)
    solver, s = sb.build(dt=1e-3)
    for _ in range(5):
        s = solver(s)
    return [np.asarray(m.F_stack) for m in s.world.material_points]
for p, q in zip(run(False), run(True)):
    assert np.allclose(p, q, atol=1e-12), abs(p - q).max()
print("same")
"""
