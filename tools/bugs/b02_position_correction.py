PROPERTY = "C02"
EDITS = [("hydraxmpm/solvers/usl_asflip.py", "            beta_p = jnp.where(J_next < 1.0, self.beta_min, self.beta_max)",
          "            beta_p = jnp.where(\n                p_volume_next < mp_state.volume_stack, self.beta_min, self.beta_max\n            )")]
NEEDS = "a particle whose total volume change and current volume rate have opposite signs (unloading after compression), beta_min != beta_max and alpha > 0"
BREAKS = "the separable position correction switches on the current rate of volume change instead of the total compression"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx, equinox as eqx
rng = np.random.default_rng(1)
n = 40
def make(beta_min, beta_max):
    r = np.random.default_rng(3)
    sb = hdx.SimBuilder()
    sb.add_grid(origin=(0.0, 0.0), end=(4.0, 4.0), cell_size=0.5)
    x = r.uniform(1.2, 2.8, (n, 2))
    v = 0.5 * (x - 2.0) + 0.3 * r.normal(size=(n, 2))          # expanding
    p = sb.add_material_points(position_stack=jnp.asarray(x), velocity_stack=jnp.asarray(v), mass_stack=jnp.full((n,), 1.0), volume_stack=jnp.full((n,), 0.05))
    l = sb.add_constitutive_law(law=hdx.LinearElasticLaw(E=1.0, nu=0.2), law_state=None)
    sb.couple(p_idx=p, g_idx=0, c_idx=l, shapefunction="quadratic")
    sb.set_solver(scheme="usl_aflip", alpha=0.9, use_dynamic_alpha=False, beta_min=beta_min, beta_max=beta_max)
    solver, s = sb.build(dt=1e-3)
    mp = s.world.material_points[0]
    # compressed before: F = 0.8 I in the plane
    F = jnp.broadcast_to(jnp.diag(jnp.array([0.8, 0.8, 1.0])), (n, 3, 3))
    s = eqx.tree_at(lambda z: (z.world.material_points[0].F_stack, z.world.material_points[0].volume_stack), s, (F, 0.64 * mp.volume0_stack))
    return solver(s).world.material_points[0]
a, b = make(0.1, 0.1), make(0.1, 0.7)
J = np.linalg.det(np.asarray(b.F_stack))
assert (J < 1).all()
d = np.abs(np.asarray(a.position_stack) - np.asarray(b.position_stack)).max()
assert d < 1e-12, ("compressed particles must use beta_min", d)
print("ok")
'''
