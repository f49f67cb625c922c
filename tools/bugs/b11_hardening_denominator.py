PROPERTY = "C11"
EDITS = [("hydraxmpm/constitutive_laws/druckerprager.py", "            pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)", "            pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2)")]
NEEDS = "a Drucker-Prager material with hardening (H > 0) whose mu_2 is not one, yielding on the cone"
BREAKS = "the plastic multiplier uses the wrong hardening modulus, so the stress is not returned to the yield surface"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
law = hdx.DruckerPrager(K=1e5, nu=0.3, mu_1=0.4, mu_2=0.5, c0=100.0, H=2e4, mu_1_hat=0.1, rho_0=900.0)
st = np.eye(3)[None] * 1000.0
mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((1, 3)) + 0.5, velocity_stack=jnp.zeros((1, 3)), mass_stack=jnp.array([1000.0]), volume_stack=jnp.array([1.0]),
                                   stress_stack=jnp.asarray(st), L_stack=jnp.asarray(np.array([[[0, 0.1, 0], [0.1, 0, 0], [0, 0, 0.0]]])))
ls = law.create_state(jnp.asarray(st))
mp, ls = law.update(mp, ls, 1.0)
s = np.asarray(mp.stress_stack)[0]
p = np.trace(s) / 3
d = s - p * np.eye(3)
f = np.sqrt(0.5 * (d * d).sum()) - 0.4 * p - 0.5 * (100.0 + 2e4 * float(ls.eps_p_acc_stack[0]))
assert abs(f) < 1e-3 * p, f
print(f)
'''
