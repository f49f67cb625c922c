PROPERTY = 'C23'
EDITS = [('hydraxmpm/utils/generate_body.py', '        start_idx = jnp.floor(bounds_min / cell_size).astype(int)', '        start_idx = (bounds_min / cell_size).astype(int)')]
NEEDS = 'a shape reaching into negative coordinates whose bounds are not multiples of the cell size'
BREAKS = 'truncation instead of rounding down: the first, negative row of cells gets no particles'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
from hydraxmpm.utils.generate_body import generate_particles_in_sdf
x = np.asarray(generate_particles_in_sdf(sdf_obj=hdx.BoxSDF(size=jnp.array([1.0, 1.0])), bounds_min=jnp.array([-0.55, -0.55]), bounds_max=jnp.array([0.55, 0.55]),
                                         center_of_mass=jnp.zeros(2), cell_size=0.2, ppc=4, mode="regular"))
c = (np.stack(np.meshgrid(*[np.arange(-4, 4)] * 2, indexing="ij"), -1).reshape(-1, 1, 2) + np.stack(np.meshgrid([.25, .75], [.25, .75], indexing="ij"), -1).reshape(1, -1, 2)).reshape(-1, 2) * 0.2
d = np.asarray(hdx.BoxSDF(size=jnp.array([1.0, 1.0])).get_signed_distance_stack(hdx.BoxSDF(size=jnp.array([1.0, 1.0])).create_state(center_of_mass=jnp.zeros(2)), jnp.asarray(c)))
assert len(x) == (d < 0).sum(), (len(x), (d < 0).sum())
print(len(x))
"""
