PROPERTY = 'C27'
EDITS = [('hydraxmpm/material_points/material_points.py', '        volume0_stack = volume0_stack if volume0_stack is not None else volume_stack', '        volume0_stack = volume_stack')]
NEEDS = 'material points created in a deformed state, with their own reference volume'
BREAKS = 'a supplied reference volume is silently replaced by the current one'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((2, 3)), mass_stack=jnp.ones(2), volume_stack=jnp.array([1.0, 2.0]), volume0_stack=jnp.array([3.0, 4.0]))
assert np.allclose(np.asarray(mp.volume0_stack), [3.0, 4.0]), mp.volume0_stack
print("kept")
"""
