"""Titles, statements and anchors of every property; tools/gen_meta.py turns this into properties.jsonl and MANIFEST.json."""
S = "hydraxmpm/solvers/usl.py"
SA = "hydraxmpm/solvers/usl_asflip.py"
MAP = "hydraxmpm/shapefunctions/mapping.py"
B = "hydraxmpm/common/builder.py"
CL = "hydraxmpm/constitutive_laws/"

P = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note,
                 observe=list(observe))


prop("C01", "Mass and linear/angular momentum are conserved",
     "In a scene without external forces or obstacles a step of any transfer scheme leaves total mass and total linear momentum unchanged to round-off, whatever the "
     "positions, velocities, stresses, materials and number of bodies. Schemes that carry the affine velocity also keep the angular momentum they define. With gravity the "
     "momentum changes by exactly mass times gravity times the time step.",
     ["inputs", "configurations", "histories"], "every particle configuration inside the grid, kernel, scheme and parameter set, number of bodies and grids, over whole runs",
     "tests scatter one fixed cloud once; conservation must hold for every configuration and accumulate over histories",
     [S, SA, MAP], [("internal force and momentum scatter", S + " p2g"), ("APIC/FLIP gather", SA + " g2p"), ("kernel weights", MAP)],
     "conservation monitor (online invariant over recorded states)", "randomised scenes; exact in real arithmetic, tolerance scaled from round-off")

prop("C02", "One solver step is the documented update-stress-last transfer",
     "Each step moves particles exactly as the documented scheme prescribes: grid mass, momentum and forces gathered from all bodies on that grid, nodal velocity update, and "
     "FLIP/PIC/affine gather with the documented blending parameters. The result agrees with an independent dense evaluation of those formulas for every kernel, scheme, parameter set and body arrangement.",
     ["inputs", "configurations"], "all combinations of dimension, kernel, scheme, blending parameters, materials, bodies per grid and grids",
     "no test executes a solver step at all", [S, SA, MAP], [("step", S + " __call__"), ("affine step", SA + " __call__")],
     "reference-model monitor (differential oracle on recorded steps)", "numpy model of the documented equations, written from the documentation; f64 and f32")

prop("C03", "Gravity and body forces act as uniform acceleration on the intended bodies",
     "Gravity gives every selected body the same acceleration regardless of mass, stress-free shape, or whether it is applied on the grid or on the particles; unselected bodies are untouched. "
     "A free body's centre of mass follows the discrete parabola, and changing gravity between steps takes effect on the next step.",
     ["inputs", "configurations", "histories"], "all selections of bodies and grids, application modes, gravity vectors and histories of changes",
     "tests never run a force through a solver", ["hydraxmpm/forces/gravity.py", B], [("gravity on grid / particles", "hydraxmpm/forces/gravity.py")],
     "trajectory monitor against closed-form motion", "closed form of the discrete scheme")

prop("C04", "Shape functions partition unity and transfers are exact for linear fields",
     "For every particle position inside the grid the weights of each kernel sum to one, are non-negative and vanish outside their support, their gradients are the derivatives of the weights and sum to zero. "
     "Scattering preserves totals, gathering reproduces constant and linear grid fields, and scatter and gather are adjoint.",
     ["inputs", "configurations"], "all positions including on nodes, cell faces and near domain edges, kernels, dimensions, grids with any origin and spacing",
     "the mapping tests in the suite fail to run at this commit and sample one position", [MAP, "hydraxmpm/shapefunctions/linear.py", "hydraxmpm/shapefunctions/quadratic.py", "hydraxmpm/shapefunctions/cubic.py"],
     [("weights", "hydraxmpm/shapefunctions/*.py"), ("scatter/gather", MAP)], "algebraic-identity monitors on recorded weights and transfers", "identities exact up to round-off; hostile positions included")

prop("C05", "Uniform motion and uniform deformation are reproduced exactly",
     "A body translating uniformly keeps its velocity, shape and stress under every scheme, and an affine velocity field yields exactly that velocity gradient in every particle whose support is filled.",
     ["inputs", "configurations"], "all velocities, gradients, kernels, schemes and particle arrangements", "no patch test exists in the suite",
     [S, SA, MAP], [("velocity gradient", S + " g2p")], "patch-test monitor", "exact up to round-off")

prop("C06", "Volume, density and deformation stay mutually consistent",
     "At every step the reported volume is the determinant of the deformation times the reference volume, mass and reference volume never change, plane strain holds in two dimensions, and the shear reset keeps volume while the stored history keeps the full deformation. "
     "Reported pressure, shear stress, density and strain measures agree with the stress, mass, volume and deformation they derive from.",
     ["inputs", "configurations", "histories"], "all laws, schemes, initial deformations and whole histories",
     "tests only construct states", [S, "hydraxmpm/material_points/material_points.py", CL + "constitutive_law.py"], [("F update", S), ("F reset", CL + "constitutive_law.py remove_accumulated_shear"), ("accessors", "hydraxmpm/material_points/material_points.py")],
     "per-step consistency monitors over histories", "checked at each recorded state")

prop("C07", "Stepping is pure, deterministic and its clock exact",
     "A step depends on nothing but the state passed in: repeating it, stepping eagerly or compiled, in one loop or many, gives the same state and never alters its input. The step counter and simulation time advance by exactly one step, and every loop driver delivers the states a plain loop would.",
     ["histories", "schedules"], "all scenes, loop drivers, chunkings and repetition orders", "no test steps a simulation",
     [S, SA, "hydraxmpm/common/simstate.py"], [("step", S + " __call__")], "replay and differential monitors over loop drivers", "bitwise where the same program runs, round-off where compilation differs")

prop("C08", "Obstacles never pull, never let material through, and respect Coulomb friction",
     "At nodes in reach of an obstacle the velocity relative to it never points into it afterwards, separating motion is untouched, and the tangential change is opposed to sliding and bounded by the friction coefficient times the normal change. Nodes out of reach are unaffected, and only grids the obstacle is attached to are touched.",
     ["inputs", "configurations"], "all shapes, motions, frictions, gaps, selections and velocities", "no test exercises contact",
     ["hydraxmpm/forces/sdf_collider.py", "hydraxmpm/sdf/sdfobject.py"], [("contact projection", "hydraxmpm/forces/sdf_collider.py")], "contact-law monitor on nodal velocities before/after", "independent geometry; nodes within tolerance of the contact threshold excluded")

prop("C09", "Signed distances and normals describe the stated geometry",
     "For every shape and composition of shapes the distance is negative inside and positive outside with unit-length outward normals equal to its gradient, is 1-Lipschitz and exact where the shape's distance is documented as exact, and moves rigidly with the object.",
     ["inputs", "configurations"], "all shapes, sizes, poses and query points including centres, edges and axes", "no test touches the geometry",
     ["hydraxmpm/sdf/sdfcollection.py", "hydraxmpm/sdf/sdfobject.py", "hydraxmpm/sdf/gridsdf.py"], [("shapes", "hydraxmpm/sdf/sdfcollection.py")],
     "geometry oracle over sampled points", "independent numpy geometry")

prop("C10", "Moving obstacles follow rigid-body kinematics, once per step",
     "An obstacle's centre and orientation follow its prescribed linear and angular velocity, advancing exactly one time step per solver step however many colliders, grids or bodies refer to it. Its orientation stays a rotation over arbitrarily long runs and its surface velocity is that of the rigid motion.",
     ["histories", "configurations"], "all velocity histories, spin rates, shapes and numbers of references", "no test moves an obstacle",
     ["hydraxmpm/sdf/sdfobject.py", S], [("kinematics", "hydraxmpm/sdf/sdfobject.py update_kinematics")], "trajectory monitor against exact rigid motion", "second-order integration error bound per step")

prop("C11", "The frictional solid never leaves its yield surface",
     "After every update of a connected point of the Drucker-Prager material the stress satisfies the friction-cohesion limit, including hardening and the cone tip; steps inside the limit are purely elastic. Plastic steps follow the stated flow and hardening rules, never create energy, and a disconnected point carries no stress.",
     ["inputs", "histories", "configurations"], "all strain histories, parameters (dilatancy, cohesion, hardening) and density crossings", "no test of this law exists",
     [CL + "druckerprager.py"], [("return mapping", CL + "druckerprager.py _update_stress")], "optimality-condition monitor on every material update", "independent trial state; ambiguous points within round-off of the surface excluded from branch-specific rules")

prop("C12", "The critical-state soil keeps its yield surface and compression lines",
     "Every connected point of the Cam-Clay material stays within its yield surface, and its specific volume stays on the swelling line through its consolidation pressure along any history. It hardens on the wet side and softens on the dry side by the associated flow rule, is never tensile, and states initialised from over-consolidation ratio, stress or density are consistent with each other.",
     ["inputs", "histories", "configurations"], "all strain histories, initialisations and parameters at pressures above the documented minimum", "no test of this law exists",
     [CL + "modifiedcamclay.py"], [("return mapping", CL + "modifiedcamclay.py _update_stress"), ("initial states", CL + "modifiedcamclay.py create_state_from_*")],
     "trace monitor with exactly integrated volume beside the law", "strain increments of the order of a tenth of the swelling index; snap-back states excluded; stress units from Pa to MPa")

prop("C13", "Fluids and granular flows obey their equation of state and dissipate",
     "Pressure is the stated function of density, never tensile and increasing with density, and a state created for a given density and pressure returns that pressure at rest. Shear stress is aligned with and never does negative work on the strain rate; for the granular flow it stays between static and dynamic friction times pressure, and compressed material pushes outward.",
     ["inputs", "configurations"], "all flow rates over many decades, densities, parameters and ways of creating states", "two constructor tests only",
     [CL + "newtonfluid.py", CL + "mu_i_rheology.py"], [("fluid stress", CL + "newtonfluid.py"), ("mu(I) stress", CL + "mu_i_rheology.py")], "constitutive monitors plus scene-level sign monitors", "closed forms of the stated laws")

prop("C14", "The elastic solid obeys Hooke's law along any history",
     "Stress increments are those of isotropic linear elasticity with the given moduli; the stress depends only on accumulated strain, returns after a closed loop, and the work done is the stored energy.",
     ["inputs", "histories"], "all strain histories, moduli and prestresses", "one increment is tested",
     [CL + "linearelastic.py"], [("increment", CL + "linearelastic.py _update_stress")], "path-independence and energy monitors", "exact up to round-off")

prop("C15", "Material response is independent of axes, and stress turns with the material",
     "Rotating, mirroring or permuting the coordinate axes of a strain history rotates the resulting stresses the same way and leaves scalar state unchanged, for every law. Rigidly spinning stressed frictional or critical-state material rotates its stress with it and changes no invariant, and points never influence each other.",
     ["inputs", "histories"], "all axes changes, spin rates and strain histories for all five laws", "tests use one axis-aligned increment",
     [CL + "*.py", "hydraxmpm/utils/math_helpers.py"], [("objective rate", "hydraxmpm/utils/math_helpers.py get_jaumann_increment")], "metamorphic trace monitor (twin executions)", "second-order error of the explicit objective rate allowed")

prop("C16", "Element-test drivers apply exactly the strain path they report",
     "The single-point drivers and the triaxial test impose the requested strain increments step by step: accumulated strain, volume and density match the prescribed path, drained tests hold the lateral stress at its target, undrained tests hold the volume, "
     "and the recorded histories are those of the law stepped by hand. Points run side by side do not influence each other.",
     ["inputs", "histories", "configurations"], "all laws, strain paths, time steps, storage strides and static phases", "the element tests in the suite compare one path with fixed plots or do not run",
     ["hydraxmpm/element_tests/driver.py", "hydraxmpm/element_tests/triaxial_test.py"], [("driver", "hydraxmpm/element_tests/driver.py"), ("triaxial", "hydraxmpm/element_tests/triaxial_test.py")],
     "trace monitor against hand-stepped laws", "two recorded defects of the reported axial strain and the driver setting are listed as known findings")

prop("C17", "A saved simulation resumes exactly",
     "State and solver reloaded from disk equal what was saved bit for bit, including affine velocities, material history, obstacle poses and the clock, and continuing from them gives the same run as never having stopped. "
     "A truncated, missing or mismatching checkpoint is rejected rather than loaded as something else, and a failed or repeated save leaves every other checkpoint intact.",
     ["histories", "crash_points", "fault_sequences", "configurations"], "all save points, crash offsets in the file, failed writes, precision settings and scenes", "no test saves or loads",
     ["hydraxmpm/common/sim_io.py", "hydraxmpm/common/simstate.py"], [("save/load", "hydraxmpm/common/sim_io.py")],
     "differential replay monitor with fault injection (truncation, ENOSPC)", "file damage other than truncation is out of reach: the format carries no checksum")

prop("C18", "Registration order and selections mean exactly what they name",
     "A scene behaves the same in whatever order its bodies, laws, grids, couplings, forces and obstacles are registered; each body keeps its own law, law state, grid and obstacle whatever the order. "
     "Selecting some couplings, forces or obstacles lets exactly those act and leaves all others untouched; the default selections are the documented ones.",
     ["configurations", "programs"], "all registration orders, numbers of parts, rigid points in between, selections and several solvers over one world", "tests register one body, one grid and nothing else",
     [B, S, SA, "hydraxmpm/common/simstate.py"], [("registration and defaults", B), ("look-up by index", S + ", " + SA)], "metamorphic trace monitor (twin scenes) and non-interference monitor",
     "damping keeps its place after the forces it damps; obstacles sharing a grid do not overlap")

prop("C19", "Only the material matters, not how it is listed, grouped or divided",
     "Listing the points of a body in another order, dividing them over several bodies on the same grid, or replacing a point by coincident lighter ones gives the same motion, stress and history of every piece of material, for every law, kernel and scheme.",
     ["inputs", "configurations", "programs"], "all permutations, groupings and divisions of random clouds with gravity, damping and obstacles", "tests never run one scene in two representations",
     [S, SA, MAP, B], [("scatter over bodies", S + " p2g"), ("per-point state", MAP)], "metamorphic trace monitor (twin scenes)", "dividing points with blending by neighbour mass switched off")

prop("C20", "Derivatives through laws, obstacles and steps are finite and correct",
     "Differentiating the outcome of law updates, obstacle queries or whole steps with respect to any state, material parameter or force gives finite values, also at rest, at isotropic stress, on grid nodes and beside empty or touching obstacle nodes. "
     "Away from kinks they equal the derivatives of the computed outcome.",
     ["inputs", "configurations"], "all laws, shapes, schemes, kernels and special states where square roots, divisions and cases meet", "no test differentiates anything",
     [S, SA, CL + "*.py", "hydraxmpm/utils/math_helpers.py", "hydraxmpm/forces/sdf_collider.py", "hydraxmpm/sdf/sdfobject.py"],
     [("square roots and guarded divisions", "hydraxmpm/utils/math_helpers.py")], "NaN sanitizer on derivatives and difference-quotient oracle", "kinks detected by one-sided differences and left out")

MH = "hydraxmpm/utils/math_helpers.py"

prop("C21", "Results do not depend on origin, axes, observer or units",
     "Shifting the whole scene, permuting or mirroring its axes, or expressing it in other units of length, mass and time changes the result only accordingly, for every law, kernel, scheme, force and obstacle, in two and three dimensions. "
     "A uniformly moving observer sees the same step.",
     ["inputs", "configurations"], "all scenes, shifts, axis permutations and mirrors, unit systems and frame velocities", "no test runs one scene in two frames",
     [S, SA, MAP, "hydraxmpm/grid/grid.py", "hydraxmpm/forces/*.py", "hydraxmpm/sdf/*.py"], [("position to node", MAP), ("node position", "hydraxmpm/grid/grid.py position_mesh")],
     "metamorphic trace monitor (twin scenes)", "moving frame over one step; units are powers of two and keep the solver's absolute guards out of play; laws alone also in units far apart")

prop("C22", "The reported critical time step is right and stepping with it is stable",
     "The time step a law reports is the stated fraction of the time its fastest signal needs to cross a cell at the current state of the points, including their own velocity, and never exceeds the limit of any single point. "
     "It scales with cell size and safety factor, and scenes stepped with it stay stable.",
     ["inputs", "configurations", "histories"], "all material parameters, densities, stresses, velocities, cell sizes, factors", "no test asks for a time step",
     [CL + "linearelastic.py", CL + "newtonfluid.py", CL + "mu_i_rheology.py", CL + "druckerprager.py"], [("get_dt_crit", CL + "*.py")],
     "measured signal speed as oracle, stability monitor on recorded energy", "signal speed measured from the law by small strains near the reference state")

prop("C23", "Generated particles fill the requested shape",
     "Generated particles all lie inside the shape and the bounds, no sampling point inside is missing, and lattice modes place the requested number of points in every cell at the documented places, whatever the cell size, pose or precision. "
     "Random modes are uniform and reproducible from their key.",
     ["inputs", "configurations"], "all shapes, poses, bounds, modes, cell sizes, particles per cell and keys", "no test generates particles from a shape",
     ["hydraxmpm/utils/generate_body.py", "hydraxmpm/sdf/sdfcollection.py"], [("generate_particles_in_sdf", "hydraxmpm/utils/generate_body.py")],
     "enumeration oracle over generated sets, statistical monitor for random modes", "points within rounding of the surface may fall either way")

prop("C24", "Damping and transfers only take energy; energy never appears from nowhere",
     "Transfers between points and grid and obstacles at rest never add kinetic energy to stress-free material, and damping opposes each force by exactly its stated fraction in the direction of motion. "
     "Falling, bouncing and settling bodies never hold more energy than they started with, beyond the error of time integration.",
     ["inputs", "configurations", "histories"], "all schemes, kernels, blending factors, damping factors, laws and resting obstacles over whole runs", "no test looks at energy",
     [S, SA, "hydraxmpm/forces/damping.py", "hydraxmpm/forces/sdf_collider.py"], [("local damping", "hydraxmpm/forces/damping.py"), ("gather", SA)],
     "conservation monitor (energy balance over recorded runs) and reference model of damping", "blended velocities beside obstacles and 3 % of integration error allowed for")

prop("C25", "Exported files and viewer messages show the state as it is",
     "Points written to disk or sent to the viewer have the positions, sizes and property values of the state, in order; colours rank the property. Exported surfaces lie on the obstacle at its current pose, are complete and face outward. "
     "Exporting alters nothing, and every step gets its own file.",
     ["inputs", "configurations"], "all properties, dimensions, shapes, poses, precisions and sampling distances", "no test exports anything",
     ["hydraxmpm/common/vtk_io.py", "hydraxmpm/common/rerun.py"], [("VTK", "hydraxmpm/common/vtk_io.py"), ("Rerun", "hydraxmpm/common/rerun.py")],
     "read-back monitor over written files and recorded viewer messages", "the viewer itself is replaced by a recorder; hue of colours is not judged")

prop("C26", "Stress, strain, density and rotation measures obey their identities",
     "For every tensor, density and rotation, single or stacked, the measures obey their definitions: spherical and deviatoric parts add up, invariants are frame independent and non-negative, strain is the logarithm of the stretch, void ratio and solid fraction are inverse to each other, "
     "stress built from invariants returns them, quaternions rotate like matrices. Stacked forms equal point-by-point evaluation, and regularised reciprocals are finite at zero in both precisions.",
     ["inputs"], "all tensors of any magnitude and rank, densities, rotations and slopes in both precisions", "tests use measures only through one elastic increment",
     [MH], [("definitions", MH)], "identity monitors and independent numpy evaluation", "regularisation of 1e-8 of strain and 1e-20 of determinants allowed for")

prop("C27", "Grids and material points start out as requested",
     "A grid has exactly the nodes the requested origin, extent, cell size and padding call for, at the stated places and in row-major order, and its nodes carry the full weight of any point in the requested domain. "
     "Material points keep every supplied value exactly, get the documented default for every other, and rigid points and the overview show what was registered.",
     ["inputs", "configurations"], "all origins, extents, cell sizes, paddings, precisions and subsets of arguments", "tests create one grid and a few points with round numbers",
     ["hydraxmpm/grid/grid.py", "hydraxmpm/material_points/material_points.py", B, MAP], [("grid layout", "hydraxmpm/grid/grid.py"), ("defaults", "hydraxmpm/material_points/material_points.py")],
     "state monitor against the documented layout", "extents of a broken number of cells may end up to one cell early")

prop("C28", "Simulations and bodies out of reach of each other do not interact",
     "A simulation stepped as a member of a batch gives what it gives alone, even beside a broken member. A body moves as if alone when the other bodies are on another grid (even when those hold not-a-numbers), share no node with it, or lie outside the domain.",
     ["inputs", "configurations", "schedules"], "all scenes, batches, placements and broken neighbours", "tests never step two bodies", [S, SA, MAP, "hydraxmpm/forces/*.py"],
     [("scatter and gather by node", MAP), ("loops over bodies and grids", S)], "non-interference monitor (twin runs)", "broken company only on another grid or in another member")

prop("C29", "Awkward scenes stay finite and everything offered can be stepped",
     "Points on nodes, faces, corners, obstacle surfaces, centres or axes, coincident or single points, rest, very light beside very heavy points, points leaving the domain, buried or in overlapping obstacles never turn any value of the state into a not-a-number or lose mass. "
     "A resting stress-free scene stays exactly as it is. Every law, kernel, shape, force and scheme the builder offers can be stepped.",
     ["inputs", "configurations", "histories"], "all special placements and their combinations in both precisions", "tests use generic positions", [S, SA, MAP, B, "hydraxmpm/sdf/sdfcollection.py", CL + "*.py"],
     [("guarded divisions", S), ("kernels at breaks", "hydraxmpm/shapefunctions/*.py"), ("shape distances at centres", "hydraxmpm/sdf/sdfcollection.py")], "numeric sanitizer on every recorded state",
     "two elements of the builder are recorded as known findings (contact of two bodies, obstacle without a centre)")

prop("C30", "Whole simulations follow the closed-form solutions of mechanics",
     "Run over hundreds to thousands of steps, a body slides on a slope or a moving belt as Coulomb friction says, waves run through bars and strips at their speed, viscous flow decays at its rate, a column under its own weight and a specimen under a piston take up the stress and settlement of elasticity, "
     "fluids and grains at rest carry the weight above them, columns of grains collapse the less the more friction they have, and mirrored bodies collide as mirror images. This holds for every scheme and kernel, within the discretisation error.",
     ["inputs", "configurations", "histories"], "all slopes, frictions, stiffnesses, densities, viscosities, schemes and kernels in the given set-ups", "no test compares a whole simulation with a known solution",
     [S, SA, MAP, "hydraxmpm/forces/*.py", "hydraxmpm/sdf/*.py", CL + "*.py"], [("step", S + " update"), ("contact and friction", "hydraxmpm/forces/sdf_collider.py"), ("damping, gravity", "hydraxmpm/forces/*.py")],
     "closed-form solutions as oracle over recorded runs", "tolerances about three times the discretisation error measured at the cell sizes used")
