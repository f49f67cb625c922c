PROPERTY = "C10"
EDITS = [("hydraxmpm/sdf/sdfobject.py", "            cross = jnp.cross(sdf_state.angular_velocity, p_local)", "            cross = jnp.cross(quaternion_rotate(sdf_state.rotation, sdf_state.angular_velocity), p_local)")]
NEEDS = "a three-dimensional obstacle that is already rotated about an axis other than its spin axis"
BREAKS = "surface velocity interprets the angular velocity in the body frame while the orientation is integrated in the world frame"
DEMO = '''
import numpy as np, jax.numpy as jnp, hydraxmpm as hdx
b = hdx.BoxSDF(size=jnp.array([1.0, 0.6, 0.4]))
q = np.array([np.cos(0.5), np.sin(0.5), 0, 0])
w = np.array([0.0, 0.0, 2.0])
s = b.create_state(center_of_mass=jnp.zeros(3), angular_velocity=jnp.asarray(w), rotation=jnp.asarray(q))
x = np.array([[0.3, 0.2, -0.4], [1.0, 0.0, 0.0]])
v = np.asarray(b.get_velocity_stack(s, jnp.asarray(x), 1e-3))
assert np.allclose(v, np.cross(w, x), atol=1e-9), v
print(v)
'''
