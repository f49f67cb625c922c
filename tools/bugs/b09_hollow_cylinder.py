PROPERTY = "C09"
EDITS = [("hydraxmpm/sdf/sdfcollection.py", "        p_y_clamped = jnp.clip(p_local[1], -self.half_height, self.half_height)", "        p_y_clamped = jnp.clip(p_local[1], -self.half_height, self.half_height + self.radius) - jnp.maximum(p_local[1] - self.half_height - self.radius, 0.0) * 0.0\n        p_y_clamped = jnp.where(jnp.abs(p_local[0]) < self.radius * 1e-3, p_y_clamped, jnp.clip(p_local[1], -self.half_height, self.half_height))")]
NEEDS = "a query on the axis of a capsule above its upper sphere centre"
BREAKS = "the capsule is longer on its axis than beside it"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
c = hdx.CapsuleSDF(radius=0.5, height=2.0)
s = c.create_state(center_of_mass=jnp.zeros(2))
d = np.asarray(c.get_signed_distance_stack(s, jnp.asarray([[0.0, 1.4], [0.0, 2.0], [0.3, 1.4], [0.0, -2.0]])))
ref = [-0.1, 0.5, 0.0, 0.5]
assert np.allclose(d, ref, atol=1e-6), d
print(d)
'''
