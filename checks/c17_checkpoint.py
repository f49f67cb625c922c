"""C17: a saved simulation resumes exactly, and a damaged checkpoint never loads as something else."""
import glob
import os
import shutil
import tempfile

import numpy as np

ID = "C17"
RULE = ("random multi-body scenes (all laws, both schemes, moving obstacles, forces) saved at random steps into scratch folders, reloaded into freshly built "
        "skeletons with different numbers and continued beside the uninterrupted run; checkpoints truncated at random offsets, missing, interrupted by write "
        "errors, or read into the wrong scene; non-trivial: distinct (laws, dimension, scheme, save step)")
ASSUMPTIONS = ["the skeleton is built by the same script (documented)"]
FLOOR = {"state bitwise": 300, "solver bitwise": 50, "resume equals uninterrupted": 300, "truncated checkpoint": 60, "damage elsewhere": 30, "folder handling": 20}


def gen_cases(rng, tier):
    cases = []
    laws = ["elastic", "fluid", "mui", "dp", "mcc"]
    for i in range(10 if tier == "quick" else 60):
        cases.append(dict(dim=2 + i % 2, scheme=["usl", "usl_aflip"][(i // 2) % 2], laws=[laws[i % 5], laws[int(rng.integers(5))]], x64=bool(i % 3),
                          save=int(rng.integers(0, 6)), start=int(rng.choice([0, 7, 99995, 123456])), seed=int(rng.integers(1 << 30))))
    return cases


def scene(case, rng):
    import jax.numpy as jnp
    import hydraxmpm as hdx
    import scen
    dim, h = case["dim"], 0.5
    kernels = [["quadratic", "cubic", "linear"][(case["seed"] + k) % 3] for k in range(len(case["laws"]))]      # structure: the same for every rng
    L = 8 * h

    def hook(sb):
        s = sb.add_sdf_object(sdf_logic=hdx.BoxSDF(size=jnp.asarray(rng.uniform(0.5, 1.0, dim))), center_of_mass=jnp.asarray(rng.uniform(0.2, 0.4, dim) * L),
                              velocity=jnp.asarray(rng.normal(size=dim)), angular_velocity=float(rng.normal()) if dim == 2 else jnp.asarray(rng.normal(size=3)))
        sb.add_sdf_collider(sdf_idx=s, friction=0.4)

    bodies = [dict(law=l, kernel=kernels[k], n=int(8 + 3 * k), vel=0.3, store_F=bool(k)) for k, l in enumerate(case["laws"])]
    spec = dict(dim=dim, scheme=case["scheme"], params=dict(alpha=0.9), cell=h, L=L, bodies=bodies, gravity=[0.0] * (dim - 1) + [-float(rng.uniform(1, 10))],
                damping=float(rng.uniform(0, 0.1)), dt=1e-4, step=case["start"], time=case["start"] * 1e-4 + float(np.random.default_rng(case["seed"]).uniform(0, 1)), hook=hook)
    return scen.build(spec, rng)


def leaves(t):
    import jax
    return [(jax.tree_util.keystr(k), v) for k, v in jax.tree_util.tree_flatten_with_path(t)[0]]


def compare(ck, name, a, b, where):
    la, lb = leaves(a), leaves(b)
    if not ck.true(name, [k for k, _ in la] == [k for k, _ in lb], f"{where}: structure differs"):
        return
    for (k, x), (_, y) in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        ck.true(name, x.shape == y.shape and np.array_equal(x, y), f"{where}: {k}: {x.ravel()[:3]} vs {y.ravel()[:3]}")
        if x.ndim:
            ck.true(name, x.dtype == y.dtype, f"{where}: {k}: {x.dtype} vs {y.dtype}")


def run_case(ck, case):
    import io
    import contextlib
    root = tempfile.mkdtemp(prefix="verif_ckpt_")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return body(ck, case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def body(ck, case, root):
    import jax
    import equinox as eqx
    import hydraxmpm as hdx
    import scen
    from hydraxmpm.common.sim_io import SimIO, load_simulation
    from vlib import sub_rng
    rng = sub_rng(case["seed"])
    solver, state, _ = scene(case, sub_rng(case["seed"], "a"))
    d = os.path.join(root, "out")
    rec = SimIO(output_dir=d, overwrite=True)
    rec.save_solver(solver, meta_info=dict(note="x"))
    step = eqx.filter_jit(solver)
    st = scen.as_arrays(state)
    saved, hist = {}, {}
    for k in range(9):
        i = int(st.step)
        hist[i] = st
        if k == case["save"] or k in (2, 7):
            rec.save_step(st)
            saved[i] = st
        st = step(st)
    ck.true("folder handling", len(glob.glob(os.path.join(d, "state_*.eqx"))) == len(saved), "one file per saved step")
    # a freshly built skeleton with other numbers in it
    sk_solver, sk_state, _ = scene(case, sub_rng(case["seed"], "b"))
    sk_state = scen.as_arrays(sk_state)
    for i, want in saved.items():
        sv, s = load_simulation(d, sk_solver, sk_state, i)
        compare(ck, "state bitwise", s, want, f"saved at step {i}")
        compare(ck, "solver bitwise", sv, solver, "solver")
    i = case["start"] + case["save"]
    sv, s = load_simulation(d, sk_solver, sk_state, i)
    step2 = eqx.filter_jit(sv)
    for k in range(i + 1, case["start"] + 9):
        s = step2(scen.as_arrays(s))
        for (key, x), (_, y) in zip(leaves(s), leaves(hist[k])):
            x, y = np.asarray(x), np.asarray(y)
            e = np.finfo(x.dtype).eps if np.issubdtype(x.dtype, np.floating) else 0
            sc = np.abs(y).max() if y.size else 0
            ck.true("resume equals uninterrupted", np.all(np.abs(x - y) <= 1e3 * e * (sc + (1 if e else 0))), f"step {k} after resuming at {i}: {key}")
    # the skeleton as built, with Python numbers for time and step, is accepted as well
    sv, s = load_simulation(d, sk_solver, scene(case, sub_rng(case["seed"], "c"))[1], i)
    ck.true("state bitwise", int(s.step) == i and abs(float(s.time) - float(saved[i].time)) <= 1e-6 * abs(float(s.time)), f"time {s.time} step {s.step}")

    # as built, before any step: time and step are still Python numbers
    d0 = os.path.join(root, "built")
    rec0 = SimIO(output_dir=d0, overwrite=True)
    rec0.save_solver(solver)
    rec0.save_step(state)
    sv, s = load_simulation(d0, sk_solver, scene(case, sub_rng(case["seed"], "b"))[1], case["start"])
    compare(ck, "state bitwise", s, state, "saved as built")
    # values no step should produce are saved as they are too
    odd = np.array([np.nan, np.inf, -np.inf, -0.0, 1e-310, 3e38, 1e-40, -5.0])
    was = st.world.material_points[0].velocity_stack
    weird = np.array(was)
    weird.ravel()[: len(odd)] = odd.astype(weird.dtype)
    strange = eqx.tree_at(lambda q: q.world.material_points[0].velocity_stack, st, jax.numpy.asarray(weird))
    rec0.save_step(strange)
    s = load_simulation(d0, sk_solver, sk_state, int(st.step))[1]
    ck.true("state bitwise", np.asarray(s.world.material_points[0].velocity_stack).tobytes() == np.asarray(strange.world.material_points[0].velocity_stack).tobytes(), "not-a-numbers, infinities, signed zeros and tiny numbers")
    shutil.rmtree(d0)

    def attempt(sk=sk_state, idx=i, sks=sk_solver):
        try:
            return load_simulation(d, sks, sk, idx)
        except Exception as e:
            return e

    # damaged files
    path = os.path.join(d, f"state_{i:05d}.eqx")
    ck.true("folder handling", os.path.exists(path), f"checkpoint of step {i} is named by its step")
    blob = open(path, "rb").read()
    cuts = sorted(set([0, 1, len(blob) - 1, len(blob) // 2] + rng.integers(0, len(blob), 12).tolist()))
    for c in cuts:
        open(path, "wb").write(blob[:c])
        r = attempt()
        ck.true("truncated checkpoint", isinstance(r, Exception), f"truncated to {c}/{len(blob)} bytes loads silently")
        other = [j for j in saved if j != i]
        if other and c == cuts[len(cuts) // 2]:
            compare(ck, "state bitwise", load_simulation(d, sk_solver, sk_state, other[0])[1], saved[other[0]], "another checkpoint beside a damaged one")
    open(path, "wb").write(blob)
    compare(ck, "state bitwise", attempt()[1], saved[i], "restored file")
    ck.true("damage elsewhere", isinstance(attempt(idx=i + 1 if i + 1 not in saved else i + 1000), FileNotFoundError), "a step that was never saved")
    # the wrong scene
    big = dict(case, laws=case["laws"] + ["elastic"])
    ck.true("damage elsewhere", isinstance(attempt(sk=scen.as_arrays(scene(big, sub_rng(1))[1])), Exception), "skeleton with another body")
    import jax.numpy as jnp
    wrong = eqx.tree_at(lambda s: s.world.material_points[0].mass_stack, sk_state, jnp.zeros(3, sk_state.world.material_points[0].mass_stack.dtype))
    ck.true("damage elsewhere", isinstance(attempt(sk=wrong), Exception), "skeleton with another number of points")
    # a write that fails half way leaves the other checkpoints alone
    real = np.save
    count = [0]

    def failing(*a, **k):
        count[0] += 1
        if count[0] > 4:
            raise OSError(28, "No space left on device")
        return real(*a, **k)

    np.save = failing
    try:
        try:
            rec.save_step(eqx.tree_at(lambda s: s.step, saved[i], saved[i].step + 500), verbose=False)
            wrote = True
        except OSError:
            wrote = False
    finally:
        np.save = real
    if count[0]:
        ck.true("damage elsewhere", not wrote, "a failed write is reported")
    for j in saved:
        compare(ck, "state bitwise", load_simulation(d, sk_solver, sk_state, j)[1], saved[j], "after a failed write of another step")
    # saving a step again keeps the last version
    again = eqx.tree_at(lambda s: s.time, saved[i], saved[i].time + 1)
    rec.save_step(again)
    compare(ck, "state bitwise", attempt()[1], again, "saved twice")
    # folders: keep, clean, and touch nothing else
    for j in range(4):      # however little is in the folder, it is kept
        few = os.path.join(root, f"few{j}")
        os.makedirs(few)
        for q in range(j):
            open(os.path.join(few, ["notes.txt", "state_00001.eqx", "metadata.json"][q]), "w").write(str(q))
        SimIO(output_dir=few, overwrite=False)
        ck.true("folder handling", sorted(os.listdir(few)) == sorted(["notes.txt", "state_00001.eqx", "metadata.json"][:j]), f"overwrite=False keeps a folder with {j} files")
    keep = os.path.join(root, "bystander.txt")
    open(keep, "w").write("x")
    SimIO(output_dir=d, overwrite=False)
    ck.true("folder handling", len(glob.glob(os.path.join(d, "state_*.eqx"))) >= len(saved), "overwrite=False keeps checkpoints")
    SimIO(output_dir=d, overwrite=True)
    ck.true("folder handling", not os.listdir(d), "overwrite=True starts empty")
    ck.true("folder handling", os.path.exists(keep), "nothing outside the folder is touched")
    rel = SimIO(output_dir="sub", relative_dir=os.path.join(root, "script.py"))
    ck.true("folder handling", os.path.isdir(os.path.join(root, "sub")), "folder relative to the script")
    # checkpoints taken from inside a compiled loop
    rel.save_solver(solver)
    got = []

    def loop(i, s):
        s = solver(s)
        jax.debug.callback(lambda z: (rel.save_step(z, verbose=False), got.append(int(z.step))), s, ordered=True)
        return s

    out = eqx.filter_jit(lambda s: jax.lax.fori_loop(0, 3, loop, s))(hist[case["start"]])
    jax.block_until_ready(jax.tree.leaves(out))
    jax.effects_barrier()
    ck.true("folder handling", got == [case["start"] + 1 + j for j in range(3)], f"callback order {got}")
    s3 = load_simulation(os.path.join(root, "sub"), sk_solver, sk_state, case["start"] + 3)[1]
    compare(ck, "state bitwise", s3, out, "saved from inside a compiled loop")
    return f"{case['dim']}D {case['scheme']} {'+'.join(case['laws'])} save={case['save']} start={case['start']}"
