PROPERTY = 'C21'
EDITS = [('hydraxmpm/constitutive_laws/druckerprager.py', 'jnp.maximum(get_J2(dev_stress=s_tr), 1e-12)', 'jnp.maximum(get_J2(dev_stress=s_tr), 1.0)')]
NEEDS = 'a frictional material with stresses given in a large unit (kPa, MPa), or at very low stress'
BREAKS = 'an absolute floor on the shear stress changes where the material yields, in units in which the stress is below it'
DEMO = """
import numpy as np, jax.numpy as jnp, equinox as eqx, hydraxmpm as hdx
def run(u):
    law = hdx.DruckerPrager(E=1e6 * u, nu=0.3, mu_1=0.5, rho_0=900.0) if False else None
    import inspect
    kw = dict(nu=0.3, mu_1=0.5, mu_2=0.0, c0=0.0, H=0.0, mu_1_hat=0.0, rho_0=900.0)
    kw["K" if "K" in inspect.signature(hdx.DruckerPrager.__init__).parameters else "E"] = 1e6 * u
    law = hdx.DruckerPrager(**kw)
    s = 1e3 * u * jnp.eye(3)[None]
    st = law.create_state(s)
    mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((1, 3)), mass_stack=jnp.array([1000.0]), volume_stack=jnp.ones(1), stress_stack=s)
    L = jnp.zeros((1, 3, 3)).at[0, 0, 1].set(1.0)
    for _ in range(30):
        mp = eqx.tree_at(lambda m: m.L_stack, mp, L)
        mp, st = law.update(mp, st, 1e-4)
    return np.asarray(mp.stress_stack[0]) / u
a, b = run(1.0), run(1e-6)
assert np.allclose(a, b, rtol=1e-6, atol=1e-6), (a, b)
print(a)
"""
