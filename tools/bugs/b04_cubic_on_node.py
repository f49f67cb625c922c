PROPERTY = "C04"
EDITS = [("hydraxmpm/shapefunctions/cubic.py", "        (intr_dist >= 1) * (intr_dist < 2),", "        (intr_dist > 1) * (intr_dist < 2),")]
NEEDS = "cubic kernel and a particle exactly on a node plane (coordinate on a grid line)"
BREAKS = "the neighbour exactly one cell away loses its weight of 1/6, so weights no longer sum to one"
DEMO = '''
import numpy as np, jax.numpy as jnp
from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
m = ShapeFunctionMapping("cubic", 2)
x = jnp.asarray([[2.0, 2.5], [2.3, 2.0], [2.1, 1.9]])
c = m.compute(x, origin=(0.0, 0.0), grid_size=(10, 10), inv_cell_size=2.0)
w = np.zeros(3)
np.add.at(w, np.asarray(c.point_ids), np.asarray(c.shape_vals))
assert np.allclose(w, 1, atol=1e-9), w
print(w)
'''
