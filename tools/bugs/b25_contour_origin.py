PROPERTY = 'C25'
EDITS = [('hydraxmpm/common/vtk_io.py', '                        world_y = start[1] + contour[:, 1] * step_size', '                        world_y = start[0] + contour[:, 1] * step_size')]
NEEDS = 'a two-dimensional obstacle exported in a window whose corner has unequal coordinates'
BREAKS = 'the exported outline is shifted along the second axis'
DEMO = """
import tempfile, os, numpy as np, jax.numpy as jnp, hydraxmpm as hdx, pyvista as pv, inspect
from hydraxmpm.common import vtk_io
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    cls = [c for n, c in vars(vtk_io).items() if inspect.isclass(c) and hasattr(c, "log_sdf")][0]
    v = cls(output_dir=d + "/o") if "output_dir" in inspect.signature(cls.__init__).parameters else cls(d + "/o")
    s = hdx.SphereSDF(radius=0.5)
    v.log_sdf(s, s.create_state(center_of_mass=jnp.array([1.0, 3.0])), start=(0.0, 2.0), end=(2.0, 4.0), label="b")
    fs = [os.path.join(r, f) for r, _, q in os.walk(d) for f in q if f.endswith(".vtp")]
    x = pv.read(fs[0]).points
    e = abs(np.linalg.norm(x[:, :2] - [1.0, 3.0], axis=1) - 0.5).max()
    assert e < 0.02, e
    print(e)
"""
