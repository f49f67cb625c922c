PROPERTY = "C12"
EDITS = [("hydraxmpm/constitutive_laws/modifiedcamclay.py", "            denominator = specific_volume_stack * (p_stack**self.kap)", "            denominator = specific_volume_stack * (self.p_ref**self.kap)")]
NEEDS = "a Cam-Clay state created from density at a pressure other than the reference pressure"
BREAKS = "the consolidation pressure is not on the swelling line through the given pressure and density"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
law = hdx.ModifiedCamClay(nu=0.3, M=1.1, lam=0.1, kap=0.02, N=1.8, rho_p=2650.0)
p = jnp.array([5e3, 2e4, 1e3])
s1, stress, rho = law.create_state_from_ocr(p, jnp.array([1.0, 2.0, 3.0]))
s2, _ = law.create_state_from_density(p, rho)
a, b = np.asarray(s1.p_c_stack), np.asarray(s2.p_c_stack)
assert np.allclose(a, b, rtol=1e-6), (a, b)
print(a, b)
'''
