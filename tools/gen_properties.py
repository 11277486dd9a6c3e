#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})
I="include/small_gicp/"
p("C01","KdTree search is exact nearest-neighbour search",
  "For every point cloud (including empty, duplicated, collinear and far-from-origin points), query, k >= 1, leaf-size and axis-projection setting, a k-nearest-neighbour or nearest-neighbour query on a KdTree returns exactly min(k, cloud size) distinct indices of the cloud, in ascending order of distance, each reported with its true squared distance, and no point left out is closer than the last one returned. The safe and the non-owning tree, the run-time and compile-time k entry points and every supported point-cloud type give the same distances.",
  ["inputs","configurations"],"All clouds, queries, k, max_leaf_size >= 1, axis-scan counts >= 1, axis-aligned and normal projection, all supported cloud types.",
  "kdtree tests compare with brute force on one PLY file and a few 256-point random sets with default leaf size; ties, degenerate clouds, other leaf sizes, empty clouds, k > n are never sampled.",
  [I+"ann/kdtree.hpp",I+"ann/projection.hpp",I+"ann/knn_result.hpp",I+"ann/traits.hpp"],
  [("median split and best-child-first descent with cut-distance pruning","kdtree.hpp KdTreeBuilder::create_node, UnsafeKdTree::knn_search"),("sorted insertion with worst-distance bound","knn_result.hpp KnnResult::push"),("largest-variance axis / direction","projection.hpp find_axis")],
  ["nearest_neighbor_search","knn_search"],[("nodes/indices/root","flattened tree and the permutation of point indices held by the leaves","kdtree.hpp")])
p("C02","Parallel KdTree construction gives an exact tree under every schedule",
  "For every cloud, number of threads, leaf size and execution schedule, a tree built by the OpenMP or TBB builder answers every query exactly as the single-threaded tree does: same number of neighbours and same distances, equal to exhaustive search. Every indexed point can be found again at distance zero, and building never drops, duplicates or corrupts an index.",
  ["inputs","schedules","configurations"],"All clouds (in particular large enough to be split into parallel tasks), thread counts 1..16 and task interleavings.",
  "Tests build a handful of trees with a fixed thread count; a lost update of the node counter or a task using a stale reference shows only for particular sizes, leaf sizes and interleavings.",
  [I+"ann/kdtree_omp.hpp",I+"ann/kdtree_tbb.hpp",I+"ann/kdtree.hpp"],
  [("atomic node allocation","kdtree_omp.hpp / kdtree_tbb.hpp create_node"),("task fork/join on disjoint index ranges","kdtree_omp.hpp omp task + taskwait; kdtree_tbb.hpp parallel_invoke")],
  ["knn_search on the built tree"])
p("C03","Neighbour result container and early-termination contract",
  "A neighbour result of capacity k fed with any sequence of (index, distance) pairs holds the k smallest distances in ascending order with their (transformed) indices, reports how many were stored, and leaves unused slots marked invalid; run-time and compile-time capacities agree. With a search-termination threshold epsilon a KdTree query still returns genuine neighbours in ascending order with true distances, and its worst returned squared distance is never larger than max(epsilon, the exact one); with epsilon 0 it is exact.",
  ["inputs","histories","configurations"],"All push sequences (ties, descending, k=1 and k>1), all epsilon >= 0, all clouds and queries.",
  "No test uses a non-zero epsilon or feeds the container directly; tests only see sequences a tree walk over one file happens to produce.",
  [I+"ann/knn_result.hpp",I+"ann/kdtree.hpp"],
  [("bounded insertion sort","knn_result.hpp push"),("early termination test","knn_result.hpp KnnSetting::fulfilled; kdtree.hpp knn_search")],
  ["KnnResult buffers","knn_search return value"])
p("C04","Voxel-grid downsampling yields the exact mean of every occupied voxel",
  "For every input cloud and leaf size > 0, serial voxel-grid downsampling returns exactly one point per occupied voxel (floor(p / leaf) on each axis), equal to the arithmetic mean of all input points in that voxel, for any input order and any supported input/output cloud types. Points whose voxel coordinate falls outside the documented 21-bit range are ignored and never appear in, nor influence, the output; an empty or fully ignored input gives an empty output.",
  ["inputs","configurations"],"All clouds (negative coordinates, coordinates on voxel borders, out-of-range points, one-point voxels, one huge voxel) and leaf sizes.",
  "The downsampling tests only compare output sizes against PCL within a ratio on one file; values of the points and out-of-range inputs are never checked.",
  [I+"util/downsampling.hpp",I+"util/fast_floor.hpp"],
  [("21-bit packed voxel key and sort","downsampling.hpp voxelgrid_sampling"),("run-length averaging over sorted keys","downsampling.hpp voxelgrid_sampling")],
  ["returned cloud"])
p("C05","Parallel voxel-grid downsampling conserves points under every schedule",
  "For every cloud, leaf size, thread count and schedule, OpenMP and TBB voxel-grid downsampling cover exactly the voxels the serial version covers; a voxel may be split over several output points only at block borders (documented: a small increase of the output size), and then those outputs are means of a partition of the points of that voxel - otherwise the output is the exact voxel mean. Out-of-range points are ignored and nothing is lost, duplicated or invented.",
  ["inputs","schedules","configurations"],"All clouds including sizes around and far above the block size, thread counts 1..16, all block schedules.",
  "Tests only bound the number of output points on one file at a few leaf sizes.",
  [I+"util/downsampling_omp.hpp",I+"util/downsampling_tbb.hpp",I+"util/sort_omp.hpp"],
  [("atomic reservation of output slots per block","downsampling_omp.hpp / downsampling_tbb.hpp"),("parallel sort of voxel keys","sort_omp.hpp quick_sort_omp")],
  ["returned cloud"])
p("C06","Random sampling draws a uniform subset without replacement",
  "For every cloud and sample count, random sampling returns exactly min(count, cloud size) points, each an exact copy of an input point and none used more often than it occurs in the input; the result depends only on the cloud, the count and the state of the random generator passed in, which advances. Over repeated draws every input point is drawn equally often (in the statistical sense).",
  ["inputs","histories"],"All clouds, counts (0, n, > n) and generator states.",
  "Tests check only the output size for one file.",
  [I+"util/downsampling.hpp"],[("std::sample over the index range","downsampling.hpp random_sampling")],["returned cloud"])
p("C07","Parallel sorts produce a sorted permutation; radix sort is stable",
  "For every sequence, strict weak ordering, thread count and schedule, the OpenMP merge and quick sorts leave the range sorted and a permutation of its input. The TBB radix sort orders any sequence by its unsigned key for every key width, is stable, and gives the same result when its scratch buffers are reused across calls of different sizes.",
  ["inputs","schedules","configurations","histories"],"All sequences (sizes around the serial cut-offs and tile borders, few distinct keys, presorted, reversed), comparators, thread counts, radix widths and buffer-reuse histories.",
  "The sort tests use random uniform integers up to 8192 elements with default widths; stability, extreme keys, skewed key distributions and large sizes are not reached.",
  [I+"util/sort_omp.hpp",I+"util/sort_tbb.hpp"],
  [("three-way partition / merge with tasks","sort_omp.hpp"),("tiled histogram + prefix sums","sort_tbb.hpp radix_sort_tbb")],["sorted range"])
p("C08","Local normal and covariance estimation is geometrically correct",
  "For every cloud, neighbour count and point, the estimated covariance is the documented regularised form: symmetric, zero homogeneous row and column, eigenvalues (1e-3, 1, 1) with the small one along the direction of least variance of that point's k nearest neighbours; the normal is that direction, unit length, zero homogeneous component and oriented towards the sensor origin. With fewer than five neighbours the documented fallback (zero normal, identity covariance) is stored, k is 20 when left out, and point positions are never modified.",
  ["inputs","configurations"],"All clouds (planar, curved, collinear, degenerate, small), k >= 1, user-supplied or internal search tree.",
  "Tests compare with PCL on one downsampled file with one k.",
  [I+"util/normal_estimation.hpp"],
  [("neighbour scatter matrix and closed-form eigen solver","normal_estimation.hpp estimate_local_features"),("regularisation and orientation setters","normal_estimation.hpp NormalSetter/CovarianceSetter/NormalCovarianceSetter")],["normals and covariances of the cloud"])
p("C09","Parallel normal/covariance estimation equals the serial one",
  "For every cloud, neighbour count, thread count and schedule, OpenMP and TBB estimation of normals and/or covariances stores for every point the same values the serial estimation stores, writes every point exactly once, and leaves positions untouched.",
  ["inputs","schedules","configurations"],"All clouds, k, thread counts 1..16 and loop schedules.",
  "Tests compare three fixed configurations on one cloud with loose angular tolerances.",
  [I+"util/normal_estimation_omp.hpp",I+"util/normal_estimation_tbb.hpp",I+"util/normal_estimation.hpp"],
  [("index-parallel loop with disjoint writes","normal_estimation_omp.hpp / normal_estimation_tbb.hpp")],["normals and covariances of the cloud"])
p("C10","Incremental flat voxel map follows its insertion/eviction model",
  "After any sequence of insertions with arbitrary poses and settings, an incremental voxel map with flat voxels contains exactly what the sequential rule gives: a transformed point is kept iff its voxel holds fewer than the maximum and no stored point closer than the minimum distance, with its normal and covariance transformed by the same pose; voxels not touched during the last lru_horizon insertions are dropped at every lru_clear_cycle-th insertion and nothing else is. Global point indices, voxel count and the enumeration of stored points, normals and covariances stay mutually consistent.",
  ["histories","inputs","configurations"],"All insertion histories, poses, leaf sizes, voxel capacities, distance thresholds, LRU horizons and cycles.",
  "voxelmap tests insert one cloud once; eviction, re-insertion after eviction, capacity and distance limits over histories are not exercised.",
  [I+"ann/incremental_voxelmap.hpp",I+"ann/flat_container.hpp"],
  [("LRU sweep and rehash","incremental_voxelmap.hpp insert"),("capacity and distance filter","flat_container.hpp add")],
  ["traits::point/normal/cov, point_indices, voxel_points/normals/covs, size"],
  [("lru_counter / VoxelInfo::lru","insertion clock and last touch","incremental_voxelmap.hpp"),("flat_voxels / voxels","storage and hash index","incremental_voxelmap.hpp")])
p("C11","Gaussian voxel map holds exact means and mean covariances over any history",
  "After any sequence of insertions with arbitrary poses, every live voxel of a Gaussian voxel map holds the arithmetic mean of all transformed points inserted into it since the voxel was created and the mean of their rotated covariances, independent of how the points were batched; voxels evicted by the LRU rule start afresh when touched again.",
  ["histories","inputs","configurations"],"All insertion histories (single batch vs many batches, empty batches, re-touched and evicted voxels), poses, leaf sizes, LRU settings.",
  "Tests insert each cloud once, so re-opening a finalised voxel and LRU eviction are never observed.",
  [I+"ann/gaussian_voxelmap.hpp",I+"ann/incremental_voxelmap.hpp"],
  [("sum/finalise toggling","gaussian_voxelmap.hpp add/finalize")],["voxel_points, voxel_covs, traits::point/cov"])
p("C12","Voxel map queries return the exact nearest stored points of the neighbourhood",
  "For every voxel map state reached by any history (including changes of the search pattern), query and k, neighbour queries return exactly the k nearest distinct stored points among the voxels selected by the 1, 7 or 27 neighbourhood around the query's voxel, in ascending order, with true squared distances and global indices that resolve to those points; if none is stored there they return 0. Maps of any cloud type and both single-nearest and k-nearest entry points agree.",
  ["histories","inputs","configurations"],"All map states, queries (negative coordinates, voxel borders, outside the map), k, neighbourhood patterns and the order in which patterns were set.",
  "Tests check only that distances are self-consistent for one pattern.",
  [I+"ann/incremental_voxelmap.hpp",I+"ann/flat_container.hpp",I+"ann/gaussian_voxelmap.hpp",I+"ann/knn_result.hpp"],
  [("offset scan with global index transform","incremental_voxelmap.hpp knn_search / nearest_neighbor_search / set_search_offsets")],["knn_search, nearest_neighbor_search"])
p("C13","Factor linearisation is consistent with the factor's cost",
  "For every pair of clouds, pose, correspondence and factor type (point-to-point, point-to-plane, GICP, and with any target search structure), linearisation associates the source point with its true nearest target point and rejects it iff the squared distance exceeds the limit (1 when left out); its gradient b equals the derivative of the reported error with respect to a right-multiplied pose perturbation ordered (rotation, translation), its H is symmetric positive semidefinite and equals the Gauss-Newton matrix of that cost, and its error equals the value the error function returns at the same pose. A rejected correspondence contributes nothing until it is linearised again.",
  ["inputs","histories","configurations"],"All poses (any rotation), points, covariances/normals, distance limits, sequences of linearise/error calls on one factor object.",
  "Tests run full registrations from small perturbations and accept 2.5 degrees; a wrong Jacobian block, missing rotation of the covariance or off-by-one rejection still converges there.",
  [I+"factors/icp_factor.hpp",I+"factors/plane_icp_factor.hpp",I+"factors/gicp_factor.hpp",I+"registration/rejector.hpp"],
  [("analytic Jacobians","factors/*.hpp linearize"),("correspondence caching and fused covariance","gicp_factor.hpp linearize/error"),("distance gate","rejector.hpp DistanceRejector")],["linearize, error, inlier"])
p("C14","Robust kernels scale a factor consistently",
  "For every factor, pose and kernel width c > 0, wrapping a factor with a Huber or Cauchy kernel keeps its correspondence and inlier decision and returns H, b and error each multiplied by the kernel's weight of the unwrapped residual (the square root of the unwrapped error), with weight 1 at zero residual, in (0, 1], non-increasing in the residual and equal to the documented formula; the error function of the wrapped factor agrees with its linearisation at the same pose.",
  ["inputs","configurations"],"All factors, poses, residual magnitudes and kernel widths.",
  "Robust kernels are only run inside one registration that must converge.",
  [I+"factors/robust_kernel.hpp"],[("weight functions","robust_kernel.hpp Huber/Cauchy"),("wrapping","robust_kernel.hpp RobustFactor")],["linearize, error"])
p("C15","Parallel reductions equal the sequential sum of all factors",
  "For every set of factors, pose, thread count and schedule, the serial, OpenMP and TBB reductions return the sum over all source points of the individual factors' (H, b, error) - every factor linearised exactly once, none skipped or counted twice - and leave the factors in the same state, so that error evaluation afterwards also agrees between all reductions.",
  ["inputs","schedules","configurations"],"All source sizes (0, 1, fewer than threads, large), thread counts 1..16, schedules, poses.",
  "Tests only check the converged pose per reduction on one pair.",
  [I+"registration/reduction.hpp",I+"registration/reduction_omp.hpp",I+"registration/reduction_tbb.hpp"],
  [("per-thread accumulators and final sum","reduction_omp.hpp"),("parallel_reduce body split/join","reduction_tbb.hpp")],["linearize, error"])
p("C16","Optimiser results are self-consistent and honour their limits",
  "For every problem, initial guess, optimiser and setting, the returned pose is a rigid transform, the reported number (or index) of iterations never exceeds the maximum, 'converged' is reported only when the last update met both termination thresholds, and the reported H, b, error and inlier count are those of the factors at the poses documented for that optimiser. Levenberg-Marquardt never accepts a step that increases the total cost (including any user-supplied general factor) it evaluates, and zero iterations return the initial guess; settings left out have their documented defaults.",
  ["inputs","configurations","histories"],"All problems (degenerate, no inliers, single point), initial poses, iteration limits, damping settings, general factors.",
  "Tests only look at the final pose of well-conditioned problems with default settings.",
  [I+"registration/optimizer.hpp",I+"registration/termination_criteria.hpp",I+"registration/registration_result.hpp",I+"factors/general_factor.hpp"],
  [("GN update and termination","optimizer.hpp GaussNewtonOptimizer"),("LM damping, acceptance test","optimizer.hpp LevenbergMarquardtOptimizer")],["RegistrationResult"])
p("C17","Registration recovers the true transform of overlapping clouds",
  "For every sufficiently structured target cloud, rigid motion and initial guess within the basin of attraction, aligning a rigidly moved copy of the cloud with any factor, reduction or optimiser recovers the motion to within a small tolerance, reports convergence (Levenberg-Marquardt may also stop at rounding level without it), and the recovered transform maps source onto target (target = T * source). With a voxel map as the target the motion is recovered to within a fraction of a voxel. Starting at the solution stays at the solution.",
  ["inputs","configurations","schedules"],"All structured synthetic scenes, motions anywhere in SE(3) with a guess near the truth, all factor x reduction x optimiser combinations.",
  "Tests use one pair of LiDAR scans with four initial guesses and a tolerance of 2.5 degrees / 0.2 m.",
  [I+"registration/registration.hpp",I+"registration/optimizer.hpp",I+"factors/gicp_factor.hpp",I+"factors/icp_factor.hpp",I+"factors/plane_icp_factor.hpp"],
  [("iterative association + least squares","registration.hpp align, optimizer.hpp")],["RegistrationResult::T_target_source, converged"])
p("C18","Registration is equivariant to rigid frame changes and point order",
  "For every registration problem, expressing the target in another rigid frame, the source in another rigid frame, or permuting the points changes the result exactly as the frame change implies: the recovered transform is composed with the frame changes and the error and inlier count stay the same up to rounding (for a moved source origin: at convergence, because damping acts on the increment in the source frame). Point-to-plane registration, whose cost is component-wise, and voxel maps, whose grid is axis-aligned, follow this for the frame changes that preserve their structure (translations - for voxel maps by multiples of the voxel size - and axis permutations and reflections).",
  ["inputs","configurations"],"All problems and rigid frame changes of target and source, permutations, factors (with covariances/normals moved along), reductions and optimisers.",
  "No test relates two runs.",
  [I+"registration/registration.hpp",I+"factors/gicp_factor.hpp",I+"util/lie.hpp",I+"registration/optimizer.hpp"],
  [("right-multiplicative update on SE(3)","optimizer.hpp"),("covariance transport R C R^T","gicp_factor.hpp")],["RegistrationResult"])
p("C19","DoF restriction keeps masked degrees of freedom at the initial guess",
  "For every problem and mask, the degree-of-freedom restriction factor adds lambda on the masked diagonal of H and nothing else, and an optimisation using it with a strong weight moves only along unmasked components of each update, so that, e.g., a motion restricted to translation keeps the initial rotation; with all components free the result equals the unrestricted one.",
  ["inputs","configurations"],"All masks, weights, problems, initial guesses.",
  "One registration test with fixed masks and tolerance.",
  [I+"factors/general_factor.hpp",I+"registration/optimizer.hpp"],
  [("diagonal penalty","general_factor.hpp RestrictDoFFactor")],["RegistrationResult, H"])
p("C20","SO(3)/SE(3) exponential maps are accurate group exponentials",
  "For every finite tangent vector, including near zero and beyond pi, the rotation exponential returns a unit quaternion and the rigid exponential a rigid transform equal to the matrix exponential of the tangent (rotation first, then translation) to the rounding error of the closed form (relative 1e-7 at worst, close to zero angle); exp(-a) is the inverse of exp(a), exp(s a) exp(t a) = exp((s+t) a), and the skew-symmetric matrix satisfies skew(a) b = a x b.",
  ["inputs"],"All tangent vectors with norms from 1e-300 to about 1e3.",
  "No unit test targets these functions; registration only uses tiny and moderate steps.",
  [I+"util/lie.hpp"],[("closed form with small-angle series","lie.hpp so3_exp/se3_exp/skew")],["so3_exp, se3_exp, skew"])
p("C21","The simple align and preprocess API honours its settings",
  "For every input and setting, the high-level preprocess and align functions give the result of composing the documented building blocks with those settings: voxel downsampling with the given resolution, k-neighbour normals and covariances, a KdTree or Gaussian voxel map of the given resolution, the selected registration type, correspondence distance, rotation/translation thresholds, iteration limit, and initial guess. Changing the number of threads does not change the result beyond rounding and the documented block splitting of downsampling, inputs are not modified, and settings and arguments left out have their documented defaults.",
  ["inputs","configurations"],"All clouds, registration types, settings, initial guesses and thread counts.",
  "The helper test runs four types on one pair with default thresholds; individual settings are not observed.",
  [I+"registration/registration_helper.hpp","src/small_gicp/registration/registration_helper.cpp"],
  [("dispatch on RegistrationSetting","registration_helper.cpp align/preprocess_points/create_gaussian_voxelmap")],["RegistrationResult, preprocessed clouds"])
p("C22","The PCL interface computes on the current inputs after any call history",
  "After any sequence of setting inputs, covariances, parameters, clearing, swapping and aligning, the PCL registration object returns the same transform, aligned cloud, Hessian, convergence flag and fitness score as a freshly constructed object given the current inputs and parameters, for both GICP and VGICP (clouds are not modified while they are set). No stale search tree, covariance or voxel map of an earlier input or parameter is ever used.",
  ["histories","inputs","configurations"],"All call sequences over the public interface, cloud contents and parameters.",
  "The PCL test performs one fixed sequence per type.",
  [I+"pcl/pcl_registration.hpp",I+"pcl/pcl_registration_impl.hpp"],
  [("cached trees, covariances and voxel maps invalidated on input change","pcl_registration_impl.hpp setInputSource/setInputTarget/swapSourceAndTarget/clear*")],
  ["align, getFinalTransformation, getFinalHessian, getFitnessScore, get*Covariances"],
  [("*_tree_, *_covs_, *_voxelmap_","per-cloud caches","pcl_registration.hpp")])
p("C23","Point-cloud containers and traits conversions are faithful",
  "For every sequence of operations, a point cloud keeps one position, normal and covariance per point, positions have homogeneous coordinate 1 and normals 0, constructing from 3- or 4-element float/double vectors or copying via traits between any supported cloud types (own, user-defined, Eigen matrices, PCL clouds, PCL proxy) preserves values exactly up to the element type, and resizing keeps the surviving prefix of every attribute.",
  ["histories","inputs","configurations"],"All operation sequences, sizes and cloud-type pairs.",
  "points_test performs one fixed sequence per type on one file.",
  [I+"points/point_cloud.hpp",I+"points/eigen.hpp",I+"points/traits.hpp",I+"pcl/pcl_point_traits.hpp",I+"pcl/pcl_proxy.hpp",I+"pcl/pcl_point.hpp"],
  [("trait specialisations","points/*.hpp, pcl/*.hpp")],["traits::point/normal/cov/size, PointCloud members"])
p("C24","Projective search finds the nearest indexed point in its window",
  "For every cloud, image size, window and query, projective search returns distinct cloud indices in ascending order with true squared distances, and these are exactly the nearest among the points held by the pixels of the window around the query's projection (wrapping horizontally, clipped vertically), where every point of the cloud that is the last one projecting to its pixel is held. Azimuth wrap-around and the poles are handled.",
  ["inputs","configurations"],"All clouds, queries (behind the sensor, at the seam, at the poles), image sizes, window sizes, k.",
  "Tests compare with brute force only loosely on one scan.",
  [I+"ann/projective_search.hpp"],
  [("equirectangular index map","projective_search.hpp constructor"),("window scan with border modes","projective_search.hpp knn_search")],["knn_search, nearest_neighbor_search"])
p("C25","Point files round-trip and PLY reading returns the stored points",
  "Writing any point list in the library's binary point format and reading it back returns the same points in the same order, and reading any well-formed binary little-endian PLY with float vertex properties starting with x, y, z returns exactly its vertices with homogeneous coordinate 1, regardless of additional float properties; a missing file gives an empty result, a truncated one the stored prefix, and no other file makes the readers touch memory outside their buffers (an unreadable header may also raise an exception).",
  ["inputs","fault_sequences"],"All point lists, PLY headers with 3 or more float properties, truncations and unreadable paths.",
  "Only two bundled files with one header layout are ever read.",
  [I+"benchmark/read_points.hpp"],[("header parsing and binary block read","read_points.hpp read_ply/read_points/write_points")],["returned points"])
p("C26","Python search and container bindings agree with exact search and with C++",
  "For every NumPy input accepted by the Python package (N x 3 or N x 4, C- or Fortran-ordered, any supported dtype, views), point clouds expose exactly those points (homogeneous, whatever a fourth column holds), single and batch nearest-neighbour and k-neighbour queries on a KdTree return the exact neighbours for every number of threads (slots without a neighbour hold index -1 and the largest double), batch results equal the single-query results row by row, and voxel maps hold what the C++ maps hold. Arrays of the wrong shape and None are rejected with an exception (a point cloud may instead report the error and stay empty) and never crash.",
  ["inputs","configurations"],"All arrays, k, thread counts, malformed shapes.",
  "python_test compares against scipy on one 100-point-scale input with default threads.",
  ["src/python/pointcloud.cpp","src/python/kdtree.cpp","src/python/voxelmap.cpp"],
  [("NumPy conversion and batch loops","src/python/kdtree.cpp, pointcloud.cpp")],["Python API results"])
p("C27","Python preprocessing and registration bindings honour their arguments",
  "For every input and argument combination, the Python voxel-downsampling, covariance/normal estimation, preprocess, align (array, point-cloud and voxel-map overloads) and per-point factor functions produce the result of the corresponding documented computation - the same answer through every overload, each keyword argument (resolution, correspondence distance, iterations, initial guess, registration type, number of threads, neighbours) having its documented effect - and do not modify their input arrays. Arguments of the wrong shape or an unknown registration type raise an exception or are reported with an empty or non-converged identity result.",
  ["inputs","configurations"],"All arrays, argument combinations, initial guesses.",
  "python_test runs each entry point once with nearly default arguments on one scan pair.",
  ["src/python/align.cpp","src/python/preprocess.cpp","src/python/factors.cpp","src/python/result.cpp","src/python/misc.cpp","src/python/pointcloud.cpp"],
  [("argument dispatch","src/python/align.cpp, preprocess.cpp")],["Python API results"])
p("C28","Public operations never touch memory out of bounds or hit undefined behaviour",
  "No sequence of documented calls on valid data - finite, voxel coordinates within the integer range, attributes set before they are read, k >= 1; including empty and single-point clouds, repeated clearing and re-use, extreme but legal settings, buffers of exactly k elements - reads or writes outside its objects, uses freed or uninitialised memory, overflows, or otherwise executes undefined behaviour; the library terminates every call and leaves its objects usable.",
  ["histories","inputs","configurations"],"All operation sequences over the public header API with data in the documented domain.",
  "The suite runs without sanitizers on two well-formed files.",
  [I+"ann/kdtree.hpp",I+"ann/incremental_voxelmap.hpp",I+"util/downsampling.hpp",I+"util/normal_estimation.hpp",I+"registration/registration.hpp"],
  [("bounds implied by sizes","all headers")],["sanitizer reports"])
p("C29","Parallel code is free of data races and read-only use is thread-safe",
  "During any parallel operation of the library (tree building, downsampling, sorting, normal estimation, linearisation) no two threads access the same memory concurrently with at least one write, for every input, thread count and schedule. Const operations on shared trees, maps and clouds (queries, attribute access, alignment against a shared target) may run concurrently from several threads, give the single-threaded answers, and never modify the shared objects.",
  ["schedules","inputs","configurations"],"All schedules, thread counts and inputs.",
  "Races rarely change the sampled results, and no test queries a shared structure from several threads.",
  [I+"ann/kdtree_omp.hpp",I+"ann/kdtree_tbb.hpp",I+"util/downsampling_omp.hpp",I+"util/downsampling_tbb.hpp",I+"util/normal_estimation_omp.hpp",I+"util/normal_estimation_tbb.hpp",I+"util/sort_omp.hpp",I+"util/sort_tbb.hpp",I+"registration/reduction_omp.hpp",I+"registration/reduction_tbb.hpp"],
  [("disjoint writes, atomics, joins","parallel headers")],["race detector reports, results of concurrent queries"])
p("C30","Odometry pipelines built from the library follow the true trajectory",
  "Over every sequence of up to a dozen noisy scans of a well-constrained environment with small motions, matching each scan to the previous one (preprocessed clouds, raw points, PCL interface with source and target swapped) recovers each motion, and matching each scan to an incremental voxel map it is then inserted into keeps the pose in the map's frame true, to within a small fraction of the voxel size - for every unit of length, world frame, serial or parallel components, thread count and LRU setting.",
  ["histories","inputs","configurations"],"All environments, trajectories, pipelines and settings; a sequence is a history because each step's output (target cloud, voxel map, pose, motion prior) feeds the next.",
  "No test runs more than one registration in a row.",
  [I+"registration/registration.hpp",I+"registration/registration_helper.hpp","src/small_gicp/registration/registration_helper.cpp",I+"ann/incremental_voxelmap.hpp",I+"ann/gaussian_voxelmap.hpp",I+"pcl/pcl_registration_impl.hpp"],
  [("align, then insert at the estimated pose","registration.hpp align, incremental_voxelmap.hpp insert"),("swap of source and target","pcl_registration_impl.hpp swapSourceAndTarget")],["estimated poses"])
p("C31","Results depend on the arguments alone and const inputs stay unchanged",
  "Repeating a call with the same arguments gives the identical result whatever happened before - other calls of the same or other functions, on inputs of the same size or at the same address, through fresh or reused registration objects, on another thread, or while unrelated calls run concurrently; this covers every serial operation and the parallel ones whose result does not depend on an order of summation or output (neighbour search, attribute estimation, sorting). No call modifies an input it takes as const.",
  ["histories","inputs","schedules"],"All call histories over all operations and inputs.",
  "Tests call each operation on one cloud per process and never repeat a call after different ones.",
  [I+"ann/kdtree.hpp",I+"ann/incremental_voxelmap.hpp",I+"util/downsampling.hpp",I+"util/normal_estimation.hpp",I+"util/sort_omp.hpp",I+"registration/registration.hpp",I+"registration/optimizer.hpp",I+"registration/reduction.hpp","src/small_gicp/registration/registration_helper.cpp",I+"pcl/pcl_registration_impl.hpp"],
  [("no static, cached or mutable state","all headers")],["results of repeated calls"])
p("C32","User-supplied components plug in and are called by the documented protocol",
  "For every registration problem, a user-supplied point cloud, nearest-neighbour search (offering either entry point, possibly finding nothing), rejector, per-point factor, general factor, reduction or optimizer takes part exactly as the built-in component of the same behaviour would: same result up to rounding, source points dropped by the user's rejector contribute nothing, terms added by a general factor act like additional points. Every component is given the registration's own clouds, tree, settings and initial guess, the pose of the linearisation in progress, the indices of the nearest pair and its squared distance; every factor stands for one source point and every accepted pair was put to the rejector once. Attribute estimation likewise uses the user's cloud and search.",
  ["inputs","configurations"],"All problems and all combinations of user-supplied components; the extension points are what the template design is for (README, example 03).",
  "The tests register with the built-in components only; the example with custom ones is not a test.",
  [I+"registration/registration.hpp",I+"registration/optimizer.hpp",I+"registration/reduction.hpp",I+"registration/reduction_omp.hpp",I+"registration/reduction_tbb.hpp",I+"factors/icp_factor.hpp",I+"factors/plane_icp_factor.hpp",I+"factors/gicp_factor.hpp",I+"factors/general_factor.hpp",I+"points/traits.hpp",I+"ann/traits.hpp",I+"util/normal_estimation.hpp"],
  [("construction of factors from point_factor","registration.hpp align"),("rejector call","factors/*.hpp linearize"),("general factor calls","optimizer.hpp"),("search fallback","ann/traits.hpp nearest_neighbor_search")],["registration result, arguments seen by the components"])
p("C33","Registration of unmatched or degenerate clouds stays put and finite",
  "In every registration in which no source point has an accepted correspondence (clouds too far apart, empty target or source), every factor, reduction, optimiser, target structure and interface (templates, simple API, PCL) returns the initial guess as the transform, zero inliers and zero error, H and b of no points. For every degenerate scene (one or few points, coincident, collinear or coplanar points), the result is a finite rigid transform with finite error, H and b, at most as many inliers as source points, and clouds that coincide under the initial guess are left where they are.",
  ["inputs","configurations"],"All clouds, initial guesses, limits and combinations of components; unmatched and rank-deficient problems make the linear system singular.",
  "The tests register one well-structured pair of overlapping clouds only.",
  [I+"registration/registration.hpp",I+"registration/optimizer.hpp",I+"registration/registration_result.hpp",I+"registration/reduction.hpp",I+"registration/reduction_omp.hpp",I+"registration/reduction_tbb.hpp",I+"factors/icp_factor.hpp",I+"factors/plane_icp_factor.hpp",I+"factors/gicp_factor.hpp",I+"factors/robust_kernel.hpp",I+"registration/rejector.hpp",I+"util/normal_estimation.hpp","src/small_gicp/registration/registration_helper.cpp",I+"pcl/pcl_registration_impl.hpp"],
  [("damped solution of a singular system","optimizer.hpp"),("rejection before linearisation","factors/*.hpp linearize"),("initial result","registration_result.hpp")],["registration result, aligned cloud"])
p("C34","Pipelines agree across backends and thread counts",
  "For every pair of clouds, a pipeline of downsampling, search structure, normal and covariance estimation and registration gives the same number of points, pose, inlier count and error up to rounding whichever steps run serially, with OpenMP or with TBB, for every number of threads and every schedule; Gauss-Newton also takes the same number of iterations. The same holds for preprocessing and alignment through the simple API when num_threads changes. (With downsampling, for clouds of at most 1024 points: beyond that parallel downsampling may split voxels.)",
  ["inputs","configurations","schedules"],"All clouds, all combinations of backends over the steps, thread counts from one to more than the cores, schedules.",
  "The tests run each backend on one pair of scans and only compare with a pose tolerance of 2.5 degrees / 0.2 m.",
  [I+"util/downsampling_omp.hpp",I+"util/downsampling_tbb.hpp",I+"ann/kdtree_omp.hpp",I+"ann/kdtree_tbb.hpp",I+"util/normal_estimation_omp.hpp",I+"util/normal_estimation_tbb.hpp",I+"registration/reduction_omp.hpp",I+"registration/reduction_tbb.hpp",I+"registration/registration.hpp","src/small_gicp/registration/registration_helper.cpp"],
  [("block-wise voxel sums","downsampling_omp.hpp, downsampling_tbb.hpp"),("task-parallel tree construction","kdtree_omp.hpp, kdtree_tbb.hpp"),("partial sums","reduction_omp.hpp, reduction_tbb.hpp"),("dispatch on num_threads","registration_helper.cpp")],["preprocessed cloud sizes, registration result"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
