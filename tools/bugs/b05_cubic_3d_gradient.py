PROPERTY = "C05"
EDITS = [("hydraxmpm/shapefunctions/cubic.py", "                dbasis.at[2].get() * basis.at[0].get() * basis.at[1].get(),", "                dbasis.at[2].get() * basis.at[0].get() * basis.at[0].get(),")]
NEEDS = "three dimensions with the cubic kernel and a velocity gradient along the third axis"
BREAKS = "the third gradient component of the cubic kernel uses the first axis twice"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
rng = np.random.default_rng(0)
g = np.arange(0.25, 5.0, 0.5)
x = np.stack(np.meshgrid(g, g, g, indexing="ij"), -1).reshape(-1, 3) + rng.uniform(-0.05, 0.05, (len(g) ** 3, 3))
A = rng.normal(size=(3, 3))
sb = hdx.SimBuilder()
sb.add_grid(origin=(0.0,) * 3, end=(5.0,) * 3, cell_size=0.5)
n = len(x)
# nodal field is set through the particles' affine state, one PIC step reproduces a linear field only if gradients are exact
from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping
m = ShapeFunctionMapping("cubic", 3)
xp = x[(np.abs(x - 2.5) < 1.2).all(1)]
c = m.compute(jnp.asarray(xp), origin=(0.0,) * 3, grid_size=(11,) * 3, inv_cell_size=2.0)
idx = np.stack(np.unravel_index(np.asarray(c.node_hashes), (11,) * 3), -1) * 0.5
vel = idx @ A.T
L = np.zeros((len(xp), 3, 3))
np.add.at(L, np.asarray(c.point_ids), np.einsum("ni,nj->nij", vel, np.asarray(c.shape_grads)))
assert np.allclose(L, A, atol=1e-8), np.abs(L - A).max()
print("ok")
'''
