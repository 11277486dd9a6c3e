"""Build flavours, stages (property functions x builds x case counts) and the non-triviality rules."""

import sysconfig

INCLUDES = ["-isystem", "/usr/include/eigen3"]
PCL_FLAGS = ["-isystem", "/usr/include/pcl-1.14", "-DBUILD_WITH_PCL", "-DEIGEN_HAS_CXX17_OVERALIGN=0"]
PCL_LIBS = ["-lpcl_common", "-lpcl_search", "-lpcl_kdtree", "-lpcl_octree", "-lpcl_registration", "-lpcl_sample_consensus", "-lpcl_features", "-lpcl_filters"]

_common = ["-std=gnu++17", "-w", "-DBUILD_WITH_TBB"]
BUILDS = {
    # what users get: optimised, OpenMP on, asserts off
    "fast": dict(cxx="g++", flags=_common + ["-O2", "-DNDEBUG", "-fopenmp"], ldflags=["-fopenmp"], libs=["-ltbb", "-lpthread"]),
    # address + undefined behaviour sanitizers, Eigen and libstdc++ assertions on
    "asan": dict(cxx="g++", flags=_common + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=null,vptr,object-size,alignment,return,pointer-overflow,nonnull-attribute,returns-nonnull-attribute", "-fno-sanitize-recover=all", "-fopenmp", "-D_GLIBCXX_SANITIZE_VECTOR"],
                 ldflags=["-fopenmp", "-fsanitize=address,undefined"], libs=["-ltbb", "-lpthread"]),
    # everything UBSan knows about (compiles slowly)
    "ubfull": dict(cxx="g++", flags=_common + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=null,vptr", "-fno-sanitize-recover=all", "-fopenmp", "-D_GLIBCXX_SANITIZE_VECTOR"],
                 ldflags=["-fopenmp", "-fsanitize=address,undefined"], libs=["-ltbb", "-lpthread"]),
    # OpenMP/TBB constructs run on the harness's own runtime (engine/minirt)
    # ... free-running threads whose synchronisation ThreadSanitizer can see
    "tsan": dict(cxx="g++", flags=_common + ["-O1", "-g1", "-fsanitize=thread", "-fopenmp", "-DMINIRT", "-DMINIRT_TSAN"], pre_inc=["-I$VERIF/engine/minirt"], ldflags=["-fsanitize=thread"], libs=["-lpthread"],
                 units=["$VERIF/engine/minirt/minirt.cpp", "$VERIF/engine/minirt/minigomp.cpp"], optional=True),
    # ... one thread at a time, the interleaving chosen by the test case
    "sched": dict(cxx="g++", flags=_common + ["-O2", "-DNDEBUG", "-fopenmp", "-DMINIRT", "-DMINIRT_SCHED"], pre_inc=["-I$VERIF/engine/minirt"], ldflags=[], libs=["-lpthread"],
                 units=["$VERIF/engine/minirt/minirt.cpp", "$VERIF/engine/minirt/minigomp.cpp"], optional=True),
}

# the Python package, linked into a harness that embeds the interpreter
PYTHON = dict(flags=["-isystem", sysconfig.get_paths()["include"], "-fvisibility=hidden"], units=["$REPO/src/python/*.cpp", "$REPO/src/small_gicp/registration/*.cpp"],
              libs=["-L" + (sysconfig.get_config_var("LIBDIR") or "/usr/lib"), "-L" + (sysconfig.get_config_var("LIBPL") or "/usr/lib"), "-lpython" + sysconfig.get_config_var("LDVERSION"), "-ldl", "-lm"])

# per harness: extra flags / translation units / PCL
HARNESS_FLAGS = {
    "kdtree.cpp": dict(pcl=True),
    "voxelgrid_serial.cpp": dict(pcl=True),
    "estimation.cpp": dict(pcl=True),
    "pcl_registration.cpp": dict(pcl=True, libs=["-lflann_cpp", "-llz4"]),
    "containers.cpp": dict(pcl=True),
    "degenerate.cpp": dict(pcl=True, units=["$REPO/src/small_gicp/registration/registration_helper.cpp"], libs=["-lflann_cpp", "-llz4"]),
    "py_search.cpp": PYTHON,
    "py_registration.cpp": PYTHON,
    "ops.cpp": dict(units=["$REPO/src/small_gicp/registration/registration_helper.cpp"]),
    "odometry.cpp": dict(pcl=True, units=["$REPO/src/small_gicp/registration/registration_helper.cpp"], libs=["-lflann_cpp", "-llz4"]),
    "purity.cpp": dict(pcl=True, units=["$REPO/src/small_gicp/registration/registration_helper.cpp"], libs=["-lflann_cpp", "-llz4"]),
    "backends.cpp": dict(units=["$REPO/src/small_gicp/registration/registration_helper.cpp"]),
    "helper.cpp": dict(units=["$REPO/src/small_gicp/registration/registration_helper.cpp"]),
}

COMMON_ASSUMPTIONS = [
    "Case generation is a pure function of VERIF_SEED and the case number; a wall-clock budget can only stop a run early (recorded per stage), never fail it.",
    "The oracles (exhaustive search, long double references, sequential models) are part of /verif and are trusted.",
]

# memory safety alone: wrong results are the concern of the other properties
CRASH_ONLY = {"PBT_CRASH_ONLY": "1"}

STAGES = {
    "C01": [
        dict(src="kdtree.cpp", prop="kdtree_exact", build="fast", quick=500000, thorough=20000000, weight=3),
        dict(src="kdtree.cpp", prop="kdtree_exact", build="asan", quick=40000, thorough=1500000, weight=1),
    ],
    "C02": [
        dict(src="kdtree_par.cpp", prop="kdtree_parallel", build="fast", quick=18000, thorough=1000000, weight=2, schedule=True),
        dict(src="kdtree_par.cpp", prop="kdtree_parallel", build="sched", quick=10000, thorough=300000, weight=1),
        dict(src="kdtree_par.cpp", prop="kdtree_parallel", build="tsan", quick=1500, thorough=30000, weight=1, schedule=True),
        dict(src="kdtree_par.cpp", prop="kdtree_parallel", build="asan", quick=500, thorough=30000, weight=1, schedule=True),
    ],
    "C03": [
        dict(src="knn_container.cpp", prop="knn_container", build="fast", quick=300000, thorough=10000000, weight=1),
        dict(src="knn_epsilon.cpp", prop="knn_epsilon", build="fast", quick=400000, thorough=10000000, weight=2),
        dict(src="knn_container.cpp", prop="knn_container", build="asan", quick=20000, thorough=1000000, weight=1),
        dict(src="knn_epsilon.cpp", prop="knn_epsilon", build="asan", quick=20000, thorough=1000000, weight=1),
    ],
    "C04": [
        dict(src="voxelgrid_serial.cpp", prop="voxelgrid_serial", build="fast", quick=300000, thorough=3000000, weight=3),
        dict(src="voxelgrid_serial.cpp", prop="voxelgrid_serial", build="asan", quick=30000, thorough=300000, weight=1),
    ],
    "C05": [
        dict(src="voxelgrid_parallel.cpp", prop="voxelgrid_parallel", build="fast", quick=40000, thorough=2000000, weight=2, schedule=True),
        dict(src="voxelgrid_parallel.cpp", prop="voxelgrid_parallel", build="sched", quick=15000, thorough=600000, weight=1),
        dict(src="voxelgrid_parallel.cpp", prop="voxelgrid_parallel", build="tsan", quick=4000, thorough=30000, weight=1, schedule=True),
        dict(src="voxelgrid_parallel.cpp", prop="voxelgrid_parallel", build="asan", quick=5000, thorough=30000, weight=1, schedule=True),
    ],
    "C06": [
        dict(src="random_sampling.cpp", prop="random_sampling_subset", build="fast", quick=1000000, thorough=4000000, weight=3),
        dict(src="random_sampling.cpp", prop="random_sampling_subset", build="asan", quick=100000, thorough=300000, weight=1),
    ],
    "C07": [
        dict(src="sorts.cpp", prop="omp_sorts", build="fast", quick=40000, thorough=600000, weight=1, schedule=True),
        dict(src="sorts.cpp", prop="radix_sort", build="fast", quick=20000, thorough=600000, weight=1, schedule=True),
        dict(src="sorts.cpp", prop="omp_sorts", build="sched", quick=2500, thorough=200000, weight=1),
        dict(src="sorts.cpp", prop="radix_sort", build="sched", quick=2000, thorough=200000, weight=1),
        dict(src="sorts.cpp", prop="omp_sorts", build="tsan", quick=2000, thorough=60000, weight=1, schedule=True),
        dict(src="sorts.cpp", prop="radix_sort", build="tsan", quick=800, thorough=60000, weight=1, schedule=True),
        dict(src="sorts.cpp", prop="omp_sorts", build="asan", quick=1500, thorough=60000, weight=1, schedule=True),
        dict(src="sorts.cpp", prop="radix_sort", build="asan", quick=1500, thorough=60000, weight=1, schedule=True),
    ],
    "C08": [
        dict(src="estimation.cpp", prop="local_features", build="fast", quick=500000, thorough=3000000, weight=3),
        dict(src="estimation.cpp", prop="local_features", build="asan", quick=40000, thorough=300000, weight=1),
    ],
    "C09": [
        dict(src="estimation_par.cpp", prop="local_features_parallel", build="fast", quick=60000, thorough=400000, weight=2, schedule=True),
        dict(src="estimation_par.cpp", prop="local_features_parallel", build="sched", quick=15000, thorough=150000, weight=1),
        dict(src="estimation_par.cpp", prop="local_features_parallel", build="tsan", quick=8000, thorough=40000, weight=1, schedule=True),
    ],
    "C10": [
        dict(src="voxelmap_flat.cpp", prop="voxelmap_flat", build="fast", quick=150000, thorough=6000000, weight=3),
        dict(src="voxelmap_flat.cpp", prop="voxelmap_flat", build="asan", quick=8000, thorough=400000, weight=1),
    ],
    "C11": [
        dict(src="voxelmap_gaussian.cpp", prop="voxelmap_gaussian", build="fast", quick=150000, thorough=6000000, weight=3),
        dict(src="voxelmap_gaussian.cpp", prop="voxelmap_gaussian", build="asan", quick=8000, thorough=400000, weight=1),
    ],
    "C12": [
        dict(src="voxelmap_search.cpp", prop="voxelmap_search", build="fast", quick=150000, thorough=6000000, weight=3),
        dict(src="voxelmap_search.cpp", prop="voxelmap_search", build="asan", quick=8000, thorough=400000, weight=1),
    ],
    "C13": [
        dict(src="factor_consistency.cpp", prop="factor_consistency", build="fast", quick=400000, thorough=10000000, weight=3),
        dict(src="factor_consistency.cpp", prop="factor_consistency", build="asan", quick=15000, thorough=500000, weight=1),
    ],
    "C14": [
        dict(src="robust_kernel.cpp", prop="robust_kernels", build="fast", quick=2000000, thorough=10000000, weight=3),
        dict(src="robust_kernel.cpp", prop="robust_kernels", build="asan", quick=100000, thorough=500000, weight=1),
    ],
    "C15": [
        dict(src="reductions.cpp", prop="reductions", build="fast", quick=60000, thorough=1500000, weight=2, schedule=True),
        dict(src="reductions.cpp", prop="reductions", build="sched", quick=15000, thorough=400000, weight=1),
        dict(src="reductions.cpp", prop="reductions", build="tsan", quick=4000, thorough=80000, weight=1, schedule=True),
    ],
    "C16": [
        dict(src="optimizers.cpp", prop="optimizers", build="fast", quick=1000000, thorough=5000000, weight=3),
        dict(src="optimizers.cpp", prop="optimizers", build="asan", quick=40000, thorough=200000, weight=1),
    ],
    "C20": [
        dict(src="lie.cpp", prop="lie", build="fast", quick=4000000, thorough=100000000, weight=3),
        dict(src="lie.cpp", prop="lie", build="asan", quick=300000, thorough=5000000, weight=1),
    ],
    "C19": [
        dict(src="dof.cpp", prop="dof_restriction", build="fast", quick=400000, thorough=1500000, weight=3),
        dict(src="dof.cpp", prop="dof_restriction", build="asan", quick=15000, thorough=100000, weight=1),
    ],
    "C17": [
        dict(src="registration.cpp", prop="registration_recovers", build="fast", quick=35000, thorough=600000, weight=3),
    ],
    "C18": [
        dict(src="equivariance.cpp", prop="equivariance", build="fast", quick=60000, thorough=1500000, weight=1),
    ],
    "C21": [
        dict(src="helper.cpp", prop="helper", build="fast", quick=40000, thorough=1500000, weight=1),
        dict(src="helper.cpp", prop="helper", build="asan", quick=0, thorough=60000, weight=1),
    ],
    "C22": [
        dict(src="pcl_registration.cpp", prop="pcl_registration", build="fast", quick=40000, thorough=1500000, weight=1),
    ],
    "C23": [
        dict(src="containers.cpp", prop="containers", build="fast", quick=2000000, thorough=20000000, weight=3),
        dict(src="containers.cpp", prop="containers", build="asan", quick=80000, thorough=400000, weight=1),
    ],
    "C24": [
        dict(src="projective.cpp", prop="projective_search", build="fast", quick=300000, thorough=10000000, weight=3),
        dict(src="projective.cpp", prop="projective_search", build="asan", quick=20000, thorough=1000000, weight=1),
    ],
    "C25": [
        dict(src="file_io.cpp", prop="point_files", build="fast", quick=30000, thorough=1000000, weight=1),
        dict(src="file_io.cpp", prop="ply_files", build="fast", quick=60000, thorough=2000000, weight=2),
        dict(src="file_io.cpp", prop="point_files", build="asan", quick=12000, thorough=100000, weight=1),
        dict(src="file_io.cpp", prop="ply_files", build="asan", quick=25000, thorough=400000, weight=1),
    ],
    "C28": [
        dict(src="ops.cpp", prop="memory_safety", build="fast", quick=24000, thorough=2000000, weight=1),
        dict(src="ops.cpp", prop="memory_safety", build="ubfull", quick=0, thorough=200000, weight=1),
        dict(src="ops.cpp", prop="memory_safety", build="asan", quick=12000, thorough=300000, weight=2),
        dict(src="sorts.cpp", prop="omp_sorts", build="asan", quick=1500, thorough=60000, weight=1, env=CRASH_ONLY, schedule=True),
        dict(src="sorts.cpp", prop="radix_sort", build="asan", quick=1000, thorough=60000, weight=1, env=CRASH_ONLY, schedule=True),
        dict(src="voxelgrid_parallel.cpp", prop="voxelgrid_parallel", build="asan", quick=3000, thorough=60000, weight=1, env=CRASH_ONLY, schedule=True),
        dict(src="containers.cpp", prop="containers", build="asan", quick=30000, thorough=400000, weight=1, env=CRASH_ONLY),
        dict(src="pcl_registration.cpp", prop="pcl_registration", build="asan", quick=1200, thorough=40000, weight=1, env=CRASH_ONLY, schedule=True),
        dict(src="voxelmap_search.cpp", prop="voxelmap_search", build="asan", quick=4000, thorough=200000, weight=1, env=CRASH_ONLY),
        dict(src="voxelmap_flat.cpp", prop="voxelmap_flat", build="asan", quick=0, thorough=200000, weight=1, env=CRASH_ONLY),
        dict(src="voxelmap_gaussian.cpp", prop="voxelmap_gaussian", build="asan", quick=0, thorough=200000, weight=1, env=CRASH_ONLY),
        dict(src="kdtree.cpp", prop="kdtree_exact", build="asan", quick=0, thorough=500000, weight=1, env=CRASH_ONLY),
        dict(src="kdtree_par.cpp", prop="kdtree_parallel", build="asan", quick=0, thorough=30000, weight=1, env=CRASH_ONLY, schedule=True),
        dict(src="knn_container.cpp", prop="knn_container", build="asan", quick=0, thorough=500000, weight=1, env=CRASH_ONLY),
        dict(src="voxelgrid_serial.cpp", prop="voxelgrid_serial", build="asan", quick=0, thorough=200000, weight=1, env=CRASH_ONLY),
        dict(src="random_sampling.cpp", prop="random_sampling_subset", build="asan", quick=0, thorough=200000, weight=1, env=CRASH_ONLY),
        dict(src="estimation.cpp", prop="local_features", build="asan", quick=0, thorough=200000, weight=1, env=CRASH_ONLY),
        dict(src="projective.cpp", prop="projective_search", build="asan", quick=0, thorough=500000, weight=1, env=CRASH_ONLY),
        dict(src="optimizers.cpp", prop="optimizers", build="asan", quick=0, thorough=100000, weight=1, env=CRASH_ONLY),
        dict(src="helper.cpp", prop="helper", build="asan", quick=0, thorough=30000, weight=1, env=CRASH_ONLY, schedule=True),
    ],
    "C29": [
        dict(src="sharing.cpp", prop="parallel_races", build="tsan", quick=6000, thorough=200000, weight=1, schedule=True),
        dict(src="sharing.cpp", prop="concurrent_reads", build="tsan", quick=3000, thorough=200000, weight=1, schedule=True),
        dict(src="sharing.cpp", prop="concurrent_reads", build="fast", quick=30000, thorough=1000000, weight=1, schedule=True),
    ],
    "C26": [
        dict(src="py_search.cpp", prop="python_search", build="fast", quick=120000, thorough=3000000, weight=1),
        dict(src="py_search.cpp", prop="python_search", build="asan", quick=8000, thorough=50000, weight=1),
    ],
    "C27": [
        dict(src="py_registration.cpp", prop="python_registration", build="fast", quick=40000, thorough=1500000, weight=1),
        dict(src="py_registration.cpp", prop="python_registration", build="asan", quick=0, thorough=40000, weight=1),
    ],
    "C31": [
        dict(src="purity.cpp", prop="history_independence", build="fast", quick=70000, thorough=2000000, weight=1, schedule=True),
    ],
    "C30": [
        dict(src="odometry.cpp", prop="odometry", build="fast", quick=4000, thorough=100000, weight=1),
    ],
    "C32": [
        dict(src="extension.cpp", prop="user_components", build="fast", quick=60000, thorough=1500000, weight=1),
        dict(src="extension.cpp", prop="user_search_estimation", build="fast", quick=20000, thorough=500000, weight=1),
    ],
    "C33": [
        dict(src="degenerate.cpp", prop="no_correspondences", build="fast", quick=200000, thorough=4000000, weight=1),
        dict(src="degenerate.cpp", prop="degenerate_scenes", build="fast", quick=200000, thorough=4000000, weight=1),
    ],
    "C34": [
        dict(src="backends.cpp", prop="backends", build="fast", quick=30000, thorough=600000, weight=3, schedule=True),
        dict(src="backends.cpp", prop="backends", build="sched", quick=8000, thorough=150000, weight=1, schedule=True),
    ],
}

RULES = {
    "C34": 'One case = one registration pipeline (raw points, voxel-grid downsampling or none, search structure, normals and covariances, registration with one of five factors and two optimisers, or the simple API) run with a generated choice of serial, OpenMP or TBB for every step and a generated number of threads, compared with the all-serial (API: one-thread) pipeline. A case whose result depends on a jitter of 1e-9 of the guess and 1e-10 of the points decides nothing and is counted as "unstable problem". Non-trivial: more than 20 inliers and at least one update.',
    "C33": "One case = one registration of two clouds without any possible pair (far apart by a generated margin, or an empty side) through the templates (five factors, three reductions, two optimisers, with and without a restriction of degrees of freedom, KdTree or voxel map), the simple API or the PCL interface, whose result must be the initial guess and the empty sum; or one registration of a cloud of one, two, few, coincident, collinear or coplanar points with random or estimated attributes. Non-trivial: at least one iteration allowed and points on both sides (or the empty side is the point of the case).",
    "C32": "One case = one registration assembled from user-supplied components only (a structure-of-arrays cloud handed out by value, an exhaustive search with just one of the two entry points and optionally a blind radius, a rejector with a per-point decision, a factor wrapper with its own setting, a general factor holding extra fixed pairs, a reduction and an optimizer) compared with the built-in components on the equivalent problem - dropped source points removed, extra pairs appended as points - while every argument the components receive is checked; or one attribute estimation through a user's cloud and search. Non-trivial: more than one iteration allowed, or enough points and neighbours.",
    "C30": 'One case = one room with boxes sampled anew for each of 2 to 12 (scan-to-scan: rarely 40) noisy scans along a smooth path, one of eight pipelines (scan-to-scan with preprocessed clouds, raw arrays or the PCL interface; scan-to-model with Gaussian or flat voxel maps), any combination of serial, OpenMP and TBB parts, units of 0.1, 1 or 10, LRU settings and world frames. A sequence that leaves the tolerance is repeated with four other samplings of the surfaces and counts as wrong if at least three of the five do. Non-trivial: at least three scans.',
    "C31": 'One case = two to five calls (fourteen operations of the library, mostly one operation on different clouds, some of equal size or differing in one point) run once each on fresh objects, then in a generated order with repetitions on one reused set of objects at the same addresses, partly on other threads, and then concurrently from several threads with separate data; every result is compared bit for bit with the first one of the same call, and every const input with its original contents. Non-trivial: calls on more than one cloud.',
    "C27": 'One case = one call or short history of the Python preprocessing, estimation, registration (array, cloud and voxel-map overloads) factor or PLY functions on structured clouds in 14 array layouts and element types, written with generated positional/keyword arguments and defaults left out; results are compared with the composition of the C++ building blocks under the same settings, inputs must stay unchanged; malformed arguments must be rejected. Non-trivial: merged points and comparable neighbourhoods, more than ten inliers and an update, or an accepted correspondence.',
    "C26": 'One case = one tree built from an array or point cloud (3 or 4 columns, 14 memory layouts and element types, any number of threads; the source may be overwritten or dropped afterwards) with two batches of queries through the four query functions compared slot by slot with exhaustive search; or one history of accesses and estimations on a point cloud; or malformed arrays passed to every function; or one history of insertions into one of the five voxel maps compared with the C++ class. Non-trivial: a tree of more than 20 points with at least one query, a cloud of more than one point, or a map with merged or rejected points.',
    "C29": 'One case = either one parallel operation (tree, voxel grid, estimation, reduction, registration or sort; OpenMP or TBB; own or user-defined cloud type; generated size, threads and schedule) executed under ThreadSanitizer on a runtime whose synchronisation it sees, or two to four threads that each perform up to 14 read-only calls (queries on trees, voxel maps and projective searches, attribute access, alignment with a shared registration object against shared targets, downsampling and tree building of a shared cloud) whose answers must equal the single-threaded ones bit for bit. Non-trivial: more than one thread.',
    "C28": 'One case = one history of 4 to 24 calls over the public header API (cloud construction, resizing, copies, both downsamplings, normal/covariance estimation, trees, three voxel maps, nine registration combinations, the simple interface, projective search; serial, OpenMP, TBB; empty, one-point and duplicate clouds, extreme legal settings, buffers of exactly k elements on the heap) run under AddressSanitizer and UndefinedBehaviorSanitizer, and run twice without them over heap and stack memory filled with different patterns, when all deterministic results must agree bit for bit. Non-trivial: at least three results of substance (several neighbours, merged voxels, estimated attributes, more than five inliers).',
    "C25": 'One case = one to three point lists (any float bit patterns, newline bytes, up to 60000 points) written over one another, read back, truncated and read again, or one to three generated PLY files: well-formed with 3 to 23 float properties, comments, spacing and trailing bytes; truncated data; too few or non-float properties; further elements; other names; truncated or damaged headers. Non-trivial: more than one point compared with the model of the file.',
    "C24": 'One case = one cloud (points within 1e-7 pixels of a pixel border removed; seam, pole, axis and origin points added on purpose), image size (1x1 to 360x90), window (0 to wider than the image) and up to nine queries through all entry points, own and user-defined cloud types, exact or with an early-termination threshold; compared with an index image built from an independent long-double projection. Non-trivial: a query whose window holds more points than requested.',
    "C23": 'One case = one history of resizes, attribute writes, trait-to-trait copies, constructions from vectors of Eigen vectors (eight element/allocator types) and accesses on seven cloud types at once (own, user-defined, five PCL point types), plus the PCL proxy and Eigen matrices; after every step every element ever stored is compared bit for bit with the model (rounded to float for PCL). Non-trivial: at least one conversion between types.',
    "C22": "One case = one history of 3 to 15 calls on a PCL registration object (inputs from a pool of four overlapping views, covariances, every parameter setter including rejected values, clear, swap, empty clouds, align with and without a guess), each align compared with the composition of the building blocks on the model's current inputs and parameters (pose, inliers, error, Hessian, convergence, covariances, aligned cloud, fitness score). Non-trivial: an align after the state was changed following an earlier align.",
    "C21": 'One case = one pair of structured clouds with several points per downsampling voxel (any orientation and place, occasionally nearly empty), generated settings, and one entry point: preprocess_points (own cloud or one of four vector types), align on raw points, align on preprocessed clouds, or create_gaussian_voxelmap plus align on it. The result is compared with the composition of the building blocks; where rounding decides the end of the iteration, jittered and reordered compositions tell which ends are possible. Non-trivial: more than ten inliers and at least one update (registration), or downsampling that merges points and more than five comparable neighbourhoods (preprocessing).',
    "C18": 'One case = one noisy, incomplete, structured registration problem (9 combinations of factor, search structure, reduction and optimiser, generated limits and thresholds) solved in its own frame and again after a generated change of target frame, source frame and/or point order. A case whose result depends on a 1e-9 jitter of the initial guess decides nothing and is counted as "unstable problem". Non-trivial: more than 20 inliers, at least one update and some frame or order change.',
    "C17": 'One case = one structured cloud (walls, cylinders, wavy surfaces with a minimum point spacing, any orientation and place), a true motion, an initial guess that leaves every point within a fraction of the spacing of its partner, and one of 13 combinations of factor, robust kernel, reduction, optimiser and search structure. Non-trivial: the initial guess differs from the solution.',
    "C19": 'One case = one random linear system, mask (also fractional) and weight for the algebra of the factor, and one registration problem (GICP/ICP, LM/GN) with a mask (translation only, rotation only, random, all free, all masked), a weight and an initial guess; every update between consecutive linearisation poses is examined. Non-trivial: at least one masked component and at least one update that moves the pose, or the all-free comparison.',
    "C20": 'One case = one twist (angles log-uniform from 1e-12, around the small-angle switch, around pi, up to 40 rad; axis-aligned and general axes; translations of five magnitudes) compared with a long double scaling-and-squaring matrix exponential, plus group laws for two random multiples. Non-trivial: a non-zero rotation.',
    "C16": 'One case = one optimiser with generated settings (iteration limits, damping, thresholds), one problem (ICP, robust point-to-plane or GICP on generated clouds, or factors with an arbitrary inconsistent cost), optionally a user-supplied general factor; every linearisation and error evaluation the optimiser makes is recorded and the history judged. Non-trivial: at least two linearisations.',
    "C15": 'One case = one factor vector (0 to 3000 user-defined factors with integer contributions, so that sums are exact in any order; or ICP/GICP factors on user-defined clouds), a share of rejected factors that leave garbage behind, several rounds of linearisation and error evaluation, a reduction, a thread count and a schedule seed. Non-trivial: a parallel reduction with more than one thread and more than eight factors.',
    "C14": 'One case = one kernel type and width (weight laws checked at 12 residuals around and far from the width), one scene and a history of linearisations of a plain and a wrapped factor at the same poses. Non-trivial: at least one accepted correspondence whose weight is below one.',
    "C13": 'One case = one scene (target cloud or voxel map, source points, normals, covariances), a factor type and a history of linearisations of re-used factors at generated poses under generated rejection rules. The cost matrix is identified from error() alone and H, b and e are compared with its Gauss-Newton system and with finite differences. Non-trivial: at least one accepted correspondence was linearised.',
    "C12": "One case = one history of insertions interleaved with search-pattern changes and queries through the four search entry points, compared with exhaustive search over the model's points. Non-trivial: at least one query whose neighbourhood holds more than one stored point.",
    "C11": 'One case = one history of insertions into a Gaussian voxel map, compared with a long-double model after each insertion. Non-trivial: at least two insertions and at least one voxel holding several points.',
    "C10": 'One case = one history of insertions (batches with poses, LRU horizon/cycle, cell limits, settings changed midway, own or user-defined cloud type, any of the four containers). The complete contents are compared with a sequential model after each insertion. Non-trivial: at least two insertions, two voxels, and at least one eviction, too-close rejection or full voxel.',
    "C07": "One case = one or several sequences (random, few distinct keys, sorted, reversed, equal, organ pipe; sizes around the task, tile and block borders), ordering or key width / bits per step / tile size, buffers reused or not, thread count and schedule seed. Non-trivial: OpenMP sorts - at least 1024 elements (tasks are forked) and more than one thread; radix sort - more than one tile.",
    "C08": "One case = one cloud, neighbour count, attribute selection, cloud type and neighbour search (own tree, supplied tree, supplied arbitrary search). Non-trivial: at least one point with five or more uniquely determined neighbours, whose normal/covariance is compared with the long-double covariance of that neighbourhood.",
    "C09": "One case = one cloud, neighbour count, attribute selection, OpenMP/TBB, supplied or own tree, cloud type, thread count and schedule seed. Non-trivial: more than one thread, more than five points and k >= 5.",
    "C04": "One case = one cloud (ordinary, degenerate, or with coordinates around and beyond the 21-bit voxel range), leaf size (powers of two with points exactly on voxel borders, or arbitrary), input/output cloud type pair and optionally a permutation. Non-trivial: more than one occupied voxel and at least one voxel holding several points.",
    "C05": "One case = one cloud as for C04 with up to 20000 points, a thread count, a schedule seed, OpenMP or TBB, own or user-defined cloud type. Non-trivial: more points than one summation block (1024), more than one voxel and more than one thread.",
    "C06": "One case = one cloud, sample count (0, few, all, more than all), generator type and state; some cases add 1200 repeated draws from a small cloud for the uniformity test. Non-trivial: 0 < count < size.",
    "C02": "One case = one cloud, leaf size, projection, thread count, builder (OpenMP/TBB) and schedule seed; the built tree answers a batch of queries and a self-query per point. Non-trivial: the cloud is large enough (> 512 points) for construction to fork tasks and more than one thread is used.",
    "C03": "One case = one push sequence into a result container (run-time or compile-time capacity, optional index transform), or one cloud with queries under a termination threshold. Non-trivial: at least one push; or a tree with inner nodes and at least one query whose exact answer lies below the threshold, so that early termination may strike.",
    "C01": "One case = one generated cloud, leaf size, scan count, projection, cloud type and a batch of queries. Non-trivial: the cloud has more points than the leaf size (the tree has inner nodes) and at least one query has k >= 1 compared against exhaustive search.",
}
ASSUMPTIONS = {}
TECHNIQUE = {
    'C01': 'property-based testing: generated clouds and queries, exhaustive-search oracle, shrinking; plain and sanitized builds',
    'C02': 'property-based testing with generated schedules (scheduler-controlled runtime, ThreadSanitizer, real runtimes), exhaustive-search oracle',
    'C33': 'property-based testing: generated unmatched and rank-deficient problems; invariants of the result and fixed-point oracle',
    'C34': 'differential property-based testing: generated pipelines, backends, thread counts and schedules against the serial pipeline',
    'C03': 'property-based testing: generated push sequences against a sorted-list model; generated searches against the epsilon contract',
    'C04': 'property-based testing: generated clouds against a long-double voxel model; metamorphic (permutation, cloud types)',
    'C05': 'property-based testing with generated schedules against a voxel model (partition into block means)',
    'C06': 'property-based testing: multiset inclusion and determinism; statistical uniformity over repeated draws',
    'C07': 'property-based testing with generated schedules: sortedness, permutation, stability against std::stable_sort, buffer-reuse histories',
    'C08': 'property-based testing: long-double neighbourhood covariance oracle',
    'C09': 'property-based testing with generated schedules: differential against the serial estimation, write counting',
    'C10': 'stateful model-based testing: generated insertion histories against a sequential map model',
    'C11': 'stateful model-based testing: generated insertion histories against a long-double accumulation model',
    'C12': "stateful model-based testing: histories with interleaved queries, exhaustive search over the model's points",
    'C13': 'property-based testing: cost matrix identified from error() alone, Gauss-Newton and finite-difference oracles, histories of re-linearisations',
    'C14': 'property-based testing: algebraic laws of the weights, differential between the plain and the wrapped factor',
    'C15': 'property-based testing with generated schedules: exact integer sums against the sequential sum, visit counting',
    'C16': 'property-based testing: recorded optimisation histories judged by invariants; generated costs and general factors',
    'C17': 'property-based testing: round trip (known motion recovered), with an independent Gauss-Newton reference deciding the basin',
    'C18': 'metamorphic property-based testing: frame changes and permutations of generated registration problems',
    'C19': 'property-based testing: algebraic oracle for the factor, invariants over every update of generated optimisations',
    'C20': 'property-based testing: differential against a long-double matrix exponential, group laws',
    'C21': 'property-based testing: differential against the composition of the building blocks under generated settings',
    'C22': 'stateful model-based testing: generated call histories, differential against a computation from the current inputs',
    'C23': 'stateful model-based testing: generated operation histories on seven cloud types against a value model',
    'C24': 'property-based testing: independent long-double projection and index-image model, exhaustive window search',
    'C25': 'property-based testing / structured fuzzing of files: round trip and a model of the file contents, sanitized builds',
    'C26': 'property-based testing in an embedded interpreter: generated NumPy inputs, exhaustive-search and C++ differential oracles',
    'C27': 'property-based testing in an embedded interpreter: differential against the composition of the C++ building blocks',
    'C28': 'stateful fuzzing: generated call histories under AddressSanitizer/UBSan and differential runs over pre-filled memory',
    'C30': 'stateful property-based testing of generated scan sequences against the known trajectory',
    'C31': 'stateful property-based testing: metamorphic relation between the first and every later run of the same call within generated histories',
    'C32': 'property-based testing: metamorphic comparison of user-supplied components with equivalent built-in ones, plus checks of every argument they are given',
    'C29': 'property-based testing with generated schedules under ThreadSanitizer; differential of concurrent readers against single-threaded answers',
}
LEVEL_NOTE = {}
NOT_APPLICABLE = {}
