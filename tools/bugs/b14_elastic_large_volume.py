PROPERTY = "C14"
EDITS = [("hydraxmpm/constitutive_laws/linearelastic.py", "            stress_prev + self.lam * jnp.trace(deps) * jnp.eye(3) + 2.0 * self.G * deps",
          "            stress_prev + self.lam * jnp.where(jnp.trace(deps) < 0.0, jnp.expm1(jnp.trace(deps)), jnp.trace(deps)) * jnp.eye(3) + 2.0 * self.G * deps")]
NEEDS = "expansion and compression of the same material: a closed volumetric strain loop with large enough increments"
BREAKS = "expansion and compression use different stiffness, so closed loops leave residual stress"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
law = hdx.LinearElasticLaw(E=1e5, nu=0.25)
def upd(mp, e):
    import equinox as eqx
    mp = eqx.tree_at(lambda m: m.L_stack, mp, jnp.asarray(np.eye(3)[None] * e))
    return law.update(mp, None, 1.0)[0]
mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((1, 3)) + 0.5, velocity_stack=jnp.zeros((1, 3)), mass_stack=jnp.array([1.0]), volume_stack=jnp.array([1.0]))
for e in (0.01, -0.01, -0.01, 0.01):
    mp = upd(mp, e)
s = np.abs(np.asarray(mp.stress_stack)).max()
assert s < 1e-6, s
print(s)
'''
