PROPERTY = 'C22'
EDITS = [('hydraxmpm/constitutive_laws/linearelastic.py', '        rho = material_points_state.mass_stack / material_points_state.volume_stack', '        rho = material_points_state.mass_stack / material_points_state.volume0_stack')]
NEEDS = 'an elastic body that has been stretched or compressed since its creation'
BREAKS = 'the critical time step uses the wave speed of the initial density: too long a step for an expanded body'
DEMO = """
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
law = hdx.LinearElasticLaw(E=1e5, nu=0.25)
m, v = np.array([10.0, 12.0]), np.array([0.02, 0.01])
mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((2, 3)), mass_stack=jnp.asarray(m), volume_stack=jnp.asarray(v), volume0_stack=jnp.array([0.01, 0.01]))
M = float(law.K) + 4 / 3 * float(law.G)
want = 0.5 * 0.1 / np.sqrt(M * v / m).max()
got = float(law.get_dt_crit(mp, 0.1, 0.5))
assert abs(got - want) < 1e-6 * want, (got, want)
print(got)
"""
