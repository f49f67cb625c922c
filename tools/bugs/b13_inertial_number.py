PROPERTY = "C13"
EDITS = [("hydraxmpm/constitutive_laws/mu_i_rheology.py", "/ (pconf + self.d_p * dot_gamma)", "/ (pconf + self.d_p * dot_gamma / jnp.sqrt(2.0))")]
NEEDS = "shear rates at which the inertial number is between the static and dynamic limits"
BREAKS = "friction no longer follows mu(I) = mu_s + (mu_d - mu_s) / (1 + I_0 / I)"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
law = hdx.MuI_LC(mu_s=0.38, mu_d=0.64, I_0=0.279, d_p=0.005, K=5e4, rho_p=2650.0)
ls = law.create_state_from_density(density_stack=jnp.array([1500.0]), pressure_stack=jnp.array([1000.0]))
g = 20.0
L = np.zeros((1, 3, 3)); L[0, 0, 1] = g
mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((1, 3)) + 0.5, velocity_stack=jnp.zeros((1, 3)), mass_stack=jnp.array([1500.0]), volume_stack=jnp.array([1.0]), L_stack=jnp.asarray(L))
mp, _ = law.update(mp, ls, 1e-4)
s = np.asarray(mp.stress_stack)[0]
p = np.trace(s) / 3
I = g * 0.005 / np.sqrt(p / 2650.0)
mu = 0.38 + (0.64 - 0.38) / (1 + 0.279 / I)
assert abs(s[0, 1] / p - mu) < 1e-4, (s[0, 1] / p, mu)
print(mu)
'''
