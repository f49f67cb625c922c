PROPERTY = "C15"
EDITS = [("hydraxmpm/constitutive_laws/modifiedcamclay.py", "        stress_prev = stress_prev_rot\n", "        stress_prev = jnp.where(p_c_prev > 2.0 * get_pressure(stress_prev), stress_prev, stress_prev_rot)\n")]
NEEDS = "heavily overconsolidated Cam-Clay (ratio above two) under rotation with shear stress present"
BREAKS = "the stress of heavily overconsolidated points does not turn with the material"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx, equinox as eqx
law = hdx.ModifiedCamClay(nu=0.3, M=1.1, lam=0.05, kap=0.01, N=1.7, rho_p=2650.0)
ls, stress, rho = law.create_state_from_ocr(jnp.array([5e3]), jnp.array([4.0]), jnp.array([2e3]))
W = np.zeros((1, 3, 3)); W[0, 1, 2], W[0, 2, 1] = 1.0, -1.0
mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((1, 3)) + 0.5, velocity_stack=jnp.zeros((1, 3)), mass_stack=rho, volume_stack=jnp.ones(1), stress_stack=stress, L_stack=jnp.asarray(W))
s0 = np.asarray(stress)[0]
for _ in range(400):
    mp, ls = law.update(mp, ls, np.pi / 2 / 400)
s = np.asarray(mp.stress_stack)[0]
R = np.array([[1.0, 0, 0], [0, 0, -1], [0, 1, 0]])
want = R @ s0 @ R.T
assert np.abs(s - want).max() < 0.02 * 2e3, (s0, s)
print("turned")
'''
