PROPERTY = 'C26'
EDITS = [('hydraxmpm/utils/math_helpers.py', "    eps_spatial = jnp.einsum('...ik,...k,...jk->...ij', u, log_s, u)", "    eps_spatial = jnp.einsum('...ki,...k,...kj->...ij', vh, log_s, vh)")]
NEEDS = 'a deformation that rotates material while stretching it (simple shear, spin)'
BREAKS = 'the logarithmic strain is that of the material frame: it does not turn with the material'
DEMO = """
import numpy as np, jax.numpy as jnp
from hydraxmpm.utils.math_helpers import get_hencky_strain
F = np.array([[1.0, 0.6, 0.0], [0.0, 1.1, 0.2], [0.1, 0.0, 0.9]])
w, V = np.linalg.eigh(F @ F.T)
want = -(V * (0.5 * np.log(w))) @ V.T
got = np.asarray(get_hencky_strain(jnp.asarray(F)))
assert np.allclose(got, want, atol=1e-5), (got, want)
print(got)
"""
