"""One table behind properties.jsonl and MANIFEST.json."""
GRP = "artist/field/heliostat_group.py"
GRB = "artist/field/heliostat_group_rigid_body.py"
KIN = "artist/field/kinematics_rigid_body.py"
ACT = "artist/field/actuators_linear.py"
RT = "artist/raytracing/heliostat_ray_tracer.py"
TRF = "artist/geometry/transforms.py"
COMMON = ("Decides the structural clause stated in DESIGN.md for every path of the analysed functions; trusts the parsed source to be what "
          "runs, annotations to be honest and torch/h5py functions to have their documented semantics. Numerical accuracy is not decided.")

PROPS = [
 dict(id="A01", title="Activating heliostats is exact, row-aligned and independent of history",
  st="After activating a heliostat group with a mask, every per-heliostat quantity used for alignment and ray tracing (surfaces, canting, kinematics, deviations, actuator geometry and optimizable actuator parameters) consists of the row of heliostat i repeated mask[i] times, in heliostat order. The result depends only on the stored heliostat data and the mask, never on earlier activations or alignments; without a mask every heliostat is activated exactly once.",
  over=["histories", "inputs"], q="all masks (including all-zero and repeated entries) and all sequences of activations and alignments before it",
  why="Tests activate a few fixed masks once; forgetting one of ~20 fields, using another order for one of them, or reading a leftover of the previous activation only shows for particular masks and sequences.",
  files=[GRP, GRB, KIN, "artist/field/actuators.py"], mech=[("activation", f"{GRP} HeliostatGroup.activate_heliostats"), ("active fields", f"{KIN} active_* attributes")],
  tech="value-flow analysis: completeness, pairing and history-freedom of all state written by activation", note=COMMON),
 dict(id="A02", title="Alignment and tracing act only on the activated heliostats, in order",
  st="Aligning surfaces or tracing rays uses a group's active data only if the mask passed in equals the mask the group was activated with; otherwise an error is raised. Alignment rotates surface points and normals by one and the same orientation computed from the caller's inputs, and every workflow of the package activates, then aligns exactly once, then traces the same group with the same mask and the same incident directions.",
  over=["histories", "programs"], q="all call sequences of activation, alignment and tracing made by the library's own workflows, and every path of the alignment/tracing entry points",
  why="Tests call the steps in the right order with matching masks; double alignment or a mismatched mask gives plausible numbers and is not exercised.",
  files=[GRP, GRB, RT, "artist/optim"], mech=[("alignment", f"{GRB} align_surfaces_with_*"), ("tracing", f"{RT} HeliostatRayTracer.trace_rays")],
  tech="typestate and dominance over gated value-flow graphs", note=COMMON),
 dict(id="A03", title="Forward and inverse rigid-body kinematics describe the same joint chain",
  st="The orientation computed for given motor positions is the product of the heliostat's translations, tilt deviations, joint rotations and initial-orientation offset, in the documented order, entry by entry. The inverse solves that same chain for the mirror normal that bisects the reversed incident direction and the direction from the mirror to the aim point, and alignment returns an orientation the forward chain yields for the motor positions of the current iteration; it stops early only once the misalignment of every heliostat changed by at most the given tolerance, and keeps the motor positions it found.",
  over=["inputs"], q="all motor positions, deviations, aim points, incident directions and numbers of heliostats",
  why="Tests compare a handful of poses, mostly with near-zero deviations; a swapped deviation column or transposed factor vanishes at those points.",
  files=[KIN], mech=[("forward kinematics", f"{KIN} _compute_orientations / motor_positions_to_orientations"), ("inverse kinematics", f"{KIN} incident_ray_directions_to_orientations")],
  tech="symbolic normal form of extracted matrix products compared with the specified chain", note=COMMON),
 dict(id="A04", title="Actuator models: motor position and joint angle are inverse, feasible, positive",
  st="For linear actuators the joint angle follows the law-of-cosines geometry with stroke equal to position divided by increment plus initial stroke, signed by the movement direction, and the motor position is its algebraic inverse; both directions limit the stroke to the same feasible interval and use geometric parameters only through a strictly positive map. Ideal actuators are the identity in both directions.",
  over=["inputs"], q="all motor positions, angles, actuator parameters and both movement directions",
  why="Tests sample a few positions with nominal parameters and often one movement direction; sign, scale or clamp mistakes away from those points stay invisible.",
  files=[ACT, "artist/field/actuators_ideal.py"], mech=[("forward", f"{ACT} motor_positions_to_angles"), ("inverse", f"{ACT} angles_to_motor_positions")],
  tech="polynomial normal forms of the extracted formulas for both direction cases", note=COMMON),
 dict(id="A05", title="Rotation, translation, canting and axis decomposition are rigid and as named",
  st="The rotation builders return, for every angle and batch, the homogeneous rotation about the named axis (east: north towards up; north: east towards up; up: east towards north), and the translation builder the identity with the given offsets in its last column; each is orthonormal with determinant one and keeps the homogeneous coordinate. Canting applies the right-handed orthonormal frame spanned by the normalised canting vectors, its inverse is the transpose, and the decomposition of a rotation returns the normalised axis and the enclosed angle (scaled components or separately, also for parallel and opposite directions).",
  over=["inputs"], q="all angles, offsets, vectors, batch sizes",
  why="Tests use a few angles and special axes, where several sign errors cancel.",
  files=[TRF, "artist/geometry/rotations.py"], mech=[("builders", f"{TRF} rotate_e/rotate_n/rotate_u/translate_enu"), ("canting", f"{TRF} perform_canting"), ("decomposition", "artist/geometry/rotations.py decompose_rotations, rotation_angle_and_axis")],
  tech="symbolic matrix extraction and algebraic comparison of each entry", note=COMMON),
 dict(id="A06", title="Motor positions within limits are chosen whenever one solution allows",
  st="Of the two inverse-kinematics solutions, a solution whose motor positions all lie within the actuators' limits is selected for each heliostat whenever one exists, and always as a whole (never mixing axes of different solutions). Exactly the heliostats without any valid solution are warned about.",
  over=["inputs"], q="all combinations of limit violations per heliostat and batch",
  why="Tests reach only poses in which the first solution is valid.",
  files=[KIN], mech=[("selection", f"{KIN} solution selection in incident_ray_directions_to_orientations")],
  tech="truth-table analysis of extracted selection predicates", note=COMMON),
 dict(id="A07", title="Points carry homogeneous 1 and directions 0 throughout",
  st="Everywhere in the library a position is represented with fourth coordinate 1 and a direction, normal or offset with 0: converters append the right constant and reject other widths, and no value of one kind reaches a parameter, attribute or result documented to hold the other. Consequently translations move points only, and only directions are normalised or negated.",
  over=["inputs", "programs"], q="all values flowing through geometry, field, scene, ray tracing and optimisation code",
  why="Tests slice away the fourth coordinate or compare end results to stored ones; a wrong constant only matters when a translation is applied later.",
  files=["artist/geometry", "artist/field", "artist/raytracing", "artist/scene", "artist/optim"], mech=[("converters", "artist/geometry/coordinates.py convert_3d_*_to_4d_format")],
  tech="abstract interpretation: homogeneous-coordinate kind inference over value-flow graphs", note=COMMON),
 dict(id="S01", title="A saved scenario loads back to the same plant",
  st="Every value a scenario configuration writes to a scenario file (power plant, target areas, light sources, prototypes and individual heliostats) is read back into the attribute, row and column that stands for it, and nothing is read that is not written. Optional values are used exactly when they are present, individual heliostat sections take precedence over prototypes, and rows of heliostat and target data stay aligned with their names.",
  over=["inputs", "programs"], q="all scenario configurations that can be written, all sections present or absent, all numbers of targets, light sources, facets and heliostats",
  why="Tests load a few stored scenarios, whose values often coincide (zero deviations, equal actuators), so a swapped key, column or default does not show.",
  files=["artist/scenario", "artist/field", "artist/scene", "artist/io"], mech=[("writer", "artist/scenario/h5_scenario_generator.py and configuration classes"), ("reader", "artist/scenario/scenario.py Scenario.load_scenario_from_hdf5")],
  tech="interpretation of writer dictionaries composed with the reader's value-flow graph; the composition must be the identity", note=COMMON),
 dict(id="R02", title="Ray-target intersections follow plane and cylinder geometry",
  st="For every ray and target, the bitmap coordinates, distance and intensity are those of the nearest forward intersection of the ray with the plane or cylinder side surface described by centre, normal, axis, radius, height and opening angle. A ray contributes if and only if it hits the front of the target within its area, with the ray's magnitude times the cosine of incidence; misses contribute zero intensity and zero distance. Reflection mirrors a direction at the given normal.",
  over=["inputs"], q="all rays, target poses and dimensions, bitmap resolutions, numbers of heliostats",
  why="Tests use a few rays and axis-aligned targets facing north; wrong frames or conditions coincide there.",
  files=["artist/raytracing/geometry.py"], mech=[("plane", "artist/raytracing/geometry.py line_plane_intersections"), ("cylinder", "artist/raytracing/geometry.py line_cylinder_intersections"), ("reflection", "artist/raytracing/geometry.py reflect")],
  tech="value-flow extraction and normal-form equivalence with reference formulas over all condition cases", note=COMMON),
 dict(id="R03", title="Splatting distributes each ray's intensity bilinearly and conserves it",
  st="Every ray inside the bitmap adds its intensity to the four surrounding pixels with bilinear weights that sum to one, in the bitmap of its own heliostat; rays outside the bitmap add nothing. Bitmaps start at zero, contributions accumulate, and rows run from top to bottom.",
  over=["inputs"], q="all intersection coordinates, intensities, resolutions (including non-square) and numbers of heliostats",
  why="Tests use square bitmaps and stored images; a swapped weight or stride shifts flux by a pixel or only shows for non-square bitmaps.",
  files=[RT], mech=[("splatting", f"{RT} bilinear_splatting")],
  tech="extraction of scatter-add contributions and normal-form comparison with the bilinear reference", note=COMMON),
 dict(id="R04", title="Each traced ray meets its own target and lands in its own bitmap",
  st="Tracing scatters the reflection of each active heliostat, intersects it with the planar or cylindrical target area selected by that heliostat's target index, removes blocked rays, and returns exactly one bitmap per sample of the rank, in the order the tracer reports them. The intercept, on-target and unblocked fractions count the rays of the same heliostat and always lie between zero and one. With an irradiance given, the power of all rays of one heliostat equals irradiance times mirror area; without one, each ray carries magnitude one.",
  over=["inputs", "schedules"], q="all masks, target assignments, batch sizes, world sizes, with and without blocking, planar and cylindrical targets mixed",
  why="Tests trace a few heliostats in one batch against stored bitmaps; a wrong row, subset or index only shows for particular batch splits or mixed targets.",
  files=[RT], mech=[("tracing", f"{RT} HeliostatRayTracer.trace_rays"), ("scattering", f"{RT} scatter_rays"), ("ray magnitude", f"{RT} __init__")],
  tech="argument-by-argument normal-form equivalence of the batch loop with a reference body, all guard cases", note=COMMON),
 dict(id="R05", title="Ray batches are partitioned over ranks and sampled reproducibly",
  st="For every number of ranks, active heliostats and samples, the indices given to the ranks are disjoint and together cover every sample exactly once, and a tracer reports exactly the indices it traces. Distortions of sample i stay with activation i, are drawn from the configured sun distribution with the configured number of rays, and depend only on the random seed.",
  over=["inputs", "schedules"], q="all world sizes, ranks, numbers of active heliostats and samples, batch sizes and seeds",
  why="Tests use one or two ranks with divisible counts; a dropped or doubled sample only shows for other ratios, and unseeded draws look equally plausible.",
  files=["artist/raytracing/sampling.py", "artist/scene/sun.py", "artist/scene/rays.py", RT], mech=[("sampler", "artist/raytracing/sampling.py RestrictedDistributedSampler"), ("sun", "artist/scene/sun.py Sun.get_distortions")],
  tech="loop-canonical value-flow equivalence with reference bodies; dominance of seeding over sampling", note=COMMON),
 dict(id="R01", title="Every heliostat uses exactly the target area its index or name selects",
  st="A global target area index addresses planar areas first and cylindrical areas after them, consistently in every place that resolves it, so normals, centres, dimensions and axes always belong to the same area. The mapping of heliostat names, target names and light source directions to tensors activates each heliostat once per requested sample in the order of its group and pairs it with its own target index and incident direction; names or indices that do not exist are rejected. Heliostats absent from the mapping stay inactive.",
  over=["inputs", "histories"], q="all numbers of planar and cylindrical areas, all target index vectors, mappings and name orders",
  why="Tests use scenarios with one or two areas and mappings in field order; a wrong offset or dispatch only shows when both area types are mixed or names come in another order.",
  files=["artist/field/solar_tower.py", "artist/field/tower_target_areas_planar.py", "artist/scenario/scenario.py", RT], mech=[("target geometry", "artist/field/solar_tower.py"), ("mapping", "artist/scenario/scenario.py index_mapping")],
  tech="value-flow extraction and normal-form equivalence of every resolving function with a reference body, including raise conditions", note=COMMON),
 dict(id="R06", title="Blocking removes a ray's intensity exactly where another mirror is in its way",
  st="Each potentially blocking heliostat is represented by the rectangle spanned by its current corner points, and a ray is attenuated by the soft product of inside-rectangle and in-front tests of all candidate blockers, never by its own heliostat. The candidate search keeps every primitive whose box the ray can hit before its target and never drops one because of its position in the tree. Without candidates nothing is removed.",
  over=["inputs"], q="all surfaces, ray bundles, numbers of blockers and tree shapes",
  why="Tests use few mirrors with stored results; a dropped candidate or a wrong self-exclusion only shows for particular fields.",
  files=["artist/raytracing/blocking.py"], mech=[("rectangles", "artist/raytracing/blocking.py create_blocking_primitives_rectangles_by_index"), ("mask", "artist/raytracing/blocking.py soft_ray_blocking_mask"), ("traversal", "artist/raytracing/blocking.py lbvh_filter_blocking_planes")],
  tech="normal-form equivalence with reference bodies; coinductive comparison of loop state and exit conditions", note=COMMON),
 dict(id="B01", title="The blocking hierarchy is a complete radix tree over all primitives",
  st="Morton codes interleave the ten-bit quantised centroids, equal codes are ordered by position, and every internal node splits its range where the longest common prefix changes. Every primitive is a leaf reachable from the root, and every box encloses the boxes of its children. Traversal depth bounds are computed from the tree itself.",
  over=["inputs"], q="all numbers and positions of primitives, including coincident centroids",
  why="Tests build trees of a handful of primitives without equal codes; lost nodes only appear for particular code patterns.",
  files=["artist/raytracing/blocking.py"], mech=[("construction", "artist/raytracing/blocking.py build_linear_bounding_volume_hierarchies")],
  tech="loop-canonical equivalence of the construction with a reference radix-tree construction", note=COMMON),
 dict(id="G01", title="Sun angles and geodetic positions map to the right local directions",
  st="Azimuth and elevation map to the unit east-north-up direction with azimuth zero towards south and a quarter turn towards east, in degrees or radians as requested. Geodetic positions map to east, north and up offsets from the reference position with the WGS84 radii of curvature, in that order. Points are normalised to the open unit interval per axis.",
  over=["inputs"], q="all angles, positions and reference positions",
  why="Tests use a few positions; a swapped axis, sign or radius is small near the reference and passes.",
  files=["artist/geometry/coordinates.py"], mech=[("angles", "artist/geometry/coordinates.py azimuth_elevation_to_enu"), ("geodesy", "artist/geometry/coordinates.py convert_wgs84_coordinates_to_local_enu")],
  tech="component-wise normal-form equivalence with reference formulas", note=COMMON),
 dict(id="F01", title="Flux statistics measure the bitmap they are given",
  st="The centre of mass of each bitmap is its intensity-weighted mean pixel index, columns (east) first and rows (up) second, independent of the total intensity. The crop is centred on that centre of mass and has the requested physical size. The trapezoid distribution is one on the requested plateau, falls linearly over the slope width and is zero outside.",
  over=["inputs"], q="all bitmaps, target dimensions, crop sizes and plateaus",
  why="Tests use symmetric or square bitmaps where axis mistakes cancel.",
  files=["artist/flux/bitmap.py"], mech=[("centre of mass", "artist/flux/bitmap.py get_center_of_mass"), ("crop", "artist/flux/bitmap.py crop_flux_distributions_around_center")],
  tech="normal-form equivalence with reference formulas, axis arguments compared exactly", note=COMMON),
 dict(id="L01", title="Losses and regularisers compute their documented distances per sample",
  st="Every loss and regulariser returns one value per sample or surface, reducing exactly the documented axes, with the documented distance between prediction and ground truth. The focal spot loss compares centres of mass in the metres of the target area of each sample. A missing required argument is rejected, and a reduction per heliostat groups the samples of the same heliostat.",
  over=["inputs"], q="all predictions, ground truths, target assignments and reduction dimensions",
  why="Tests check a few numbers on square inputs; a wrong axis, sign or reduction still produces a decreasing loss.",
  files=["artist/optim/loss.py", "artist/optim/regularizers.py"], mech=[("losses", "artist/optim/loss.py"), ("regularisers", "artist/optim/regularizers.py")],
  tech="normal-form equivalence with reference definitions; attribute and raise-condition comparison through the class hierarchy", note=COMMON),
 dict(id="X01", title="Every module can be imported first and every name it uses exists",
  st="Each module of the package can be the first one imported: no import cycle takes a name before it is defined. Every name, module attribute and member used anywhere in the package, including error and multi-process branches, exists. Every call to a function, method or constructor of the package binds to its signature, for every class the receiver can be.",
  over=["schedules", "inputs"], q="all import orders, all branches of all functions",
  why="Tests import modules in one order and execute few of the error, distributed and logging branches.",
  files=["artist"], mech=[("imports", "artist/*/__init__.py"), ("calls", "artist")],
  tech="abstract execution of module-level statements per first import; scope analysis; signature binding over the class hierarchy", note=COMMON),
 dict(id="D01", title="Ranks run matching collectives and end with the same complete results",
  st="In reconstruction and aim-point optimisation every collective operation is reached by all ranks of its process group with matching operation, source and shape, whatever the distribution of groups to ranks and whether or not a rank has work. Gradients, losses and stopping decisions that ranks of one heliostat group must share are combined over exactly these ranks before they are used, losses with the weight of each rank's heliostats. At the end every rank holds the parameters and losses of all groups, taken from a rank that computed them.",
  over=["schedules", "inputs"], q="all world sizes, distributions of heliostat groups to ranks, ranks without work, nested and plain data parallel set-ups",
  why="The tests run a single process; deadlocks and diverging replicas need several ranks with unequal work.",
  files=["artist/optim", "artist/util/env.py", RT], mech=[("reconstruction", "artist/optim/kinematics_reconstructor.py"), ("surfaces", "artist/optim/surface_reconstructor.py"), ("aim points", "artist/optim/aim_point_optimizer.py")],
  tech="abstract interpretation with rank-dependence tags (information flow): collective matching, scaling and provenance of shared values", note=COMMON),
 dict(id="D02", title="Heliostat groups are spread over all ranks and process subgroups match",
  st="Every heliostat group is assigned to at least one rank and every rank to at least one group where numbers allow, round-robin; the two mappings describe the same assignment. With more ranks than groups, each process subgroup consists of exactly the ranks of one group and is created by all ranks in the same order; ranks inside a subgroup are numbered from zero. Devices follow the requested kind and the local rank.",
  over=["inputs", "schedules"], q="all world sizes and numbers of heliostat groups",
  why="Tests enumerate a few sizes of the mapping and never create real process groups.",
  files=["artist/util/env.py"], mech=[("distribution", "artist/util/env.py distribute_groups_among_ranks"), ("subgroups", "artist/util/env.py create_subgroups_for_nested_ddp"), ("set-up", "artist/util/env.py setup_distributed_environment")],
  tech="round-robin distribution abstraction over the mapping loops; normal-form comparison of subgroup creation and set-up paths", note=COMMON),
 dict(id="O01", title="Optimisation loops, schedulers and early stopping follow the configuration",
  st="Every epoch of kinematic and surface reconstruction and aim-point optimisation resets the gradients, computes the loss, runs one backward pass, takes one optimizer step and shows that loss to scheduler and early stopping. The loop ends when the loss reaches the tolerance, after the configured number of epochs or when early stopping triggers, which happens after the configured number of successive windows without sufficient relative improvement. Learning rates, scheduler and stopping parameters are the configured ones.",
  over=["histories", "inputs"], q="all loss histories, scheduler types and configurations, numbers of epochs",
  why="Tests run a few epochs and check that values stay close to stored ones; patience, windows and schedules rarely take effect there.",
  files=["artist/optim"], mech=[("early stopping", "artist/optim/training.py EarlyStopping"), ("schedulers", "artist/optim/training.py"), ("loops", "artist/optim/*.py")],
  tech="typestate check of one loop iteration over all paths of the value-flow graph; normal-form equivalence of the stopping automaton and the scheduler factories", note=COMMON),
 dict(id="O03", title="Train and test samples are disjoint, complete and keep their heliostat",
  st="The split assigns every calibration sample of every heliostat to exactly one of training and test set, with the requested share per heliostat. Flux, incident direction, target, mask and measured position of one sample stay together and stay in the block of their heliostat. Heliostats with different numbers of samples are refused.",
  over=["inputs"], q="all numbers of heliostats and samples per heliostat, all shares",
  why="Tests use one mapping with equal counts; leaking or mixing samples leaves losses plausible.",
  files=["artist/optim/training.py"], mech=[("split", "artist/optim/training.py train_test_split")],
  tech="symbolic index-range analysis of the split with axis tracking; comparison with a reference partition", note=COMMON),
 dict(id="O02", title="Reconstruction compares every sample with its own measurement",
  st="Kinematic and surface reconstruction predict each calibration sample with the parameters, motor positions, sun and target area of its own heliostat and compare it with the measurement of that sample. The differentiated objective is the configured loss averaged over the samples of each heliostat, plus the weighted regularisers and constraints. Validation uses the held-out samples only, and the reported loss of a heliostat is its own.",
  over=["inputs", "histories"], q="all numbers of groups, heliostats and samples, losses and regularisers, both reconstruction methods",
  why="Tests check that the loss stays near a stored number on one data set; a sample compared with its neighbour still trains.",
  files=["artist/optim/kinematics_reconstructor.py", "artist/optim/surface_reconstructor.py", "artist/optim/training.py"], mech=[("kinematics", "artist/optim/kinematics_reconstructor.py"), ("surfaces", "artist/optim/surface_reconstructor.py"), ("validation", "artist/optim/training.py")],
  tech="path-wise comparison of calls, stores and the differentiated value with a reference body (value-flow normal form over loops)", note=COMMON),
 dict(id="O07", title="Aim-point optimisation optimises the plan it reports",
  st="Aim-point optimisation varies the motor positions of every heliostat around its initial alignment within its motor range, moves all heliostats before tracing any group and aims every heliostat at the requested target area. The loss compares the summed flux on that target area with the requested distribution, converted and constrained as configured. The final motor positions and flux are those of the optimised parameters.",
  over=["inputs", "histories"], q="all fields, targets, loss definitions, constraints and numbers of epochs",
  why="Tests run one small field with two losses and compare with stored values.",
  files=["artist/optim/aim_point_optimizer.py"], mech=[("optimisation", "artist/optim/aim_point_optimizer.py AimPointOptimizer.optimize")],
  tech="path-wise comparison of calls, stores and the differentiated value with a reference body (value-flow normal form over loops)", note=COMMON),
 dict(id="R07", title="NURBS evaluation uses each surface's own control points and knots",
  st="A surface point is the sum of the control points of its own surface and facet, weighted by the B-spline basis functions of its u and v coordinates; the normal is the normalised cross product of the u and v derivatives of the same sum. Knot vectors are clamped and uniform for the degree and number of control points of their direction, and every evaluation point is assigned the knot span that contains it. Canting and translation are applied to the facet they belong to, for every heliostat a scenario loads and for every group a field update re-evaluates.",
  over=["inputs"], q="all degrees, control nets, numbers of surfaces and facets, evaluation points inside the unit square",
  why="Tests use symmetric degrees and control nets, for which exchanged directions or facets cancel.",
  files=["artist/nurbs", "artist/field/surface.py", "artist/field/heliostat_field.py"], mech=[("evaluation", "artist/nurbs/surfaces.py"), ("grids", "artist/nurbs/utils.py"), ("owners", "artist/field/surface.py get_surface_points_and_normals, artist/field/heliostat_field.py update_surfaces")],
  tech="normal-form equivalence over loops with reference algorithms, axis positions compared exactly", note=COMMON),
 dict(id="S05", title="Calibration rows keep measurement, image and heliostat together",
  st="Each row of the loaded calibration data takes target area, focal spot, sun position, motor positions and bitmap from the files of one and the same measurement, in the order of the group's heliostats and their files. The mask counts exactly the rows of each heliostat, limited by the sample limit. Selected files are paired by measurement number and the selection is reproducible for a given seed.",
  over=["inputs"], q="all file sets, sample limits, groups and orders of heliostats",
  why="Tests load one directory whose files are already in order.",
  files=["artist/io/calibration_parser.py", "artist/io/paint_calibration_parser.py", "artist/io/paint_scenario_parser.py"], mech=[("images", "artist/io/calibration_parser.py load_flux_from_png"), ("properties", "artist/io/paint_calibration_parser.py"), ("selection", "artist/io/paint_scenario_parser.py build_heliostat_data_mapping")],
  tech="normal-form equivalence over loops with reference loaders; in-place mutation and loop exits tracked", note=COMMON),
 dict(id="S06", title="Imported measurement files end up in the field they describe",
  st="Every entry of a PAINT tower, heliostat or deflectometry file and of a STRAL file reaches the configuration field it stands for, converted to local coordinates, radians and homogeneous form. Geometry derived from corner points (extent, centre, height and axis of a target) uses the corners of that target. Every listed heliostat appears exactly once with its own name and files, whatever the mix of ideal and fitted surfaces.",
  over=["inputs"], q="all tower, heliostat, deflectometry and STRAL files, all mixes of ideal and fitted heliostats",
  why="Tests use one recorded data set, partly missing in the repository.",
  files=["artist/io/paint_scenario_parser.py", "artist/io/stral_scenario_parser.py"], mech=[("tower", "artist/io/paint_scenario_parser.py extract_paint_tower_measurements"), ("heliostats", "artist/io/paint_scenario_parser.py"), ("STRAL", "artist/io/stral_scenario_parser.py")],
  tech="normal-form equivalence over loops with reference importers", note=COMMON),
 dict(id="S04", title="Generated surfaces are fitted to and placed like their own facet",
  st="Facet i of a generated ideal or fitted surface has the control points, degrees, translation and canting of facet i. A fitted facet starts from a plane of the facet's extent and is fitted by the given optimizer and scheduler to its own measured points or normals, reduced by the step size. The fit ends at the tolerance or after the configured number of epochs, and unknown fit methods are refused.",
  over=["inputs", "histories"], q="all facets, measured point clouds, fit methods, optimizers, schedulers and numbers of epochs",
  why="Tests fit one facet set with one scheduler for few epochs.",
  files=["artist/scenario/surface_generator.py"], mech=[("fit", "artist/scenario/surface_generator.py fit_nurbs"), ("surfaces", "artist/scenario/surface_generator.py")],
  tech="normal-form equivalence over loops and path-wise comparison of the fit protocol with reference bodies", note=COMMON),
 dict(id="S02", title="Loading a scenario file builds the plant it describes",
  st="Every heliostat, actuator, target area and light source of a scenario file becomes one row of the object that stands for it, in the same order for all its quantities, with the heliostat's own section where it has one and the prototype otherwise. Each heliostat group holds the heliostats of its kinematics and actuator type with their own surfaces and degrees; inconsistent files are refused. The writer stores every section of the configuration, flattened without loss, with the number of groups.",
  over=["inputs"], q="all scenario files: every mixture of individual and prototype sections, actuator types, numbers of facets and target areas",
  why="Tests load a few scenarios whose heliostats all use the prototypes or one group.",
  files=["artist/io/h5_scenario_parser.py", "artist/field/heliostat_field.py", "artist/field/tower_target_areas_planar.py", "artist/field/tower_target_areas_cylindrical.py", "artist/scene", "artist/scenario", "artist/util/type_registry.py"],
  mech=[("field", "artist/field/heliostat_field.py from_hdf5"), ("parameters", "artist/io/h5_scenario_parser.py"), ("writer", "artist/scenario/h5_scenario_generator.py")],
  tech="normal-form equivalence over loops with reference loaders, path-wise comparison of the writer, table check of the type registry", note=COMMON),
 dict(id="X02", title="Everything is computed on the device the caller selects",
  st="When a function is given a device, every tensor it creates and every function it calls uses that device, through any chain of calls; only numbers, placeholders and index tensors may be created elsewhere. Nothing silently falls back to the default device of the machine. Results leave the device only when they are detached for reporting or written to file.",
  over=["inputs", "configurations"], q="all functions that take a device and all their call sites, for any device",
  why="The tests run on machines where default and selected device are both the CPU.",
  files=["artist"], mech=[("selection", "artist/util/env.py get_device"), ("use", "artist (all modules)")],
  tech="device dataflow: closure over assignments, checked at every factory, call and move", note=COMMON),
 dict(id="X03", title="Computations leave the caller's data and the plant unchanged",
  st="Public functions and methods do not change the tensors, lists, dictionaries or objects they are given, nor views of them. The only intended effects are: activation and alignment change a group's active state, surface updates and reconstruction the surface and kinematic parameters they optimise, aim-point optimisation the motor positions, the tracer the preferred directions and early stopping its own history. Global state is changed only by seeding the random generator in the light source.",
  over=["inputs", "histories"], q="all public functions and all paths, including through views and aliases of arguments",
  why="Tests call each function once with fresh data and do not look at their inputs again.",
  files=["artist"], mech=[("effects", "artist (all modules)")],
  tech="effect analysis: in-place changes traced through views and aliases to caller-owned objects, against a table of intended effects", note=COMMON),
]

NA = [
 dict(id="N01", title="Iterative alignment converges to the requested reflection",
  st="After alignment the reflected central ray of every heliostat hits its aim point within the documented tolerance.",
  over=["inputs"], q="all aim points, incident directions and heliostat parameters", why="Tests sample few poses.",
  files=[KIN], mech=[("fixed point iteration", KIN)],
  reason="Convergence of a floating-point fixed-point iteration over runtime values; no static argument in reach bounds it. The structural part (right chain, right goal vector) is claimed in A03."),
 dict(id="N02", title="NURBS surfaces approximate the measured mirror surface",
  st="Evaluated NURBS points and normals deviate from the measured surface by no more than the fit tolerance.",
  over=["inputs"], q="all control nets and measured surfaces", why="Tests fit one example.",
  files=["artist/nurbs/surfaces.py"], mech=[("evaluation", "artist/nurbs/surfaces.py")],
  reason="Numerical accuracy of evaluation and of a gradient-based fit; runtime quantities only."),
 dict(id="N03", title="Rounding in the blocking search never loses an occluder",
  st="In floating-point arithmetic, every ray-blocker intersection found by exhaustive testing is also found through the bounding volume hierarchy.",
  over=["inputs"], q="all scenes and ray bundles", why="Tests use small scenes.",
  files=["artist/raytracing/blocking.py"], mech=[("LBVH", "artist/raytracing/blocking.py")],
  reason="Rounding of box bounds and slab tests at runtime values; no static error bound is in reach. The structural part (complete tree, candidate conditions) is claimed in B01 and R06."),
 dict(id="N04", title="Optimisation reduces the loss and reaches the optimum",
  st="Reconstruction and aim-point optimisation end with a loss not above the initial one and recover the true parameters.",
  over=["inputs", "histories"], q="all calibration data and initial states", why="Only integration tests on recorded data exist.",
  files=["artist/optim"], mech=[("optimisers", "artist/optim")],
  reason="Convergence of stochastic gradient descent over runtime data; not a property of the code's shape."),
 dict(id="N05", title="Geodetic to local coordinates are accurate to millimetres",
  st="Conversion of WGS84 coordinates to local east-north-up offsets is accurate relative to a geodetic reference.",
  over=["inputs"], q="all coordinates within a plant", why="Tests use a few coordinates.",
  files=["artist/geometry/coordinates.py"], mech=[("conversion", "artist/geometry/coordinates.py convert_wgs84_coordinates_to_local_enu")],
  reason="Accuracy of a floating-point approximation formula against an external geodetic model; only its axis order and domain could be judged statically, not the statement."),
]
NOTES = "All checks are static: they parse /repo/artist on every run and never import or execute it. See DESIGN.md."
