DEFS = []
NOT_APPLICABLE = []

def D(id, title, statement, over, quant, why, files, mech, design, note, technique="property-based testing against a long double reference model"):
    DEFS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, design=design, note=note, technique=technique))

D("P01", "Poses and rotations form the rigid-motion group in every representation",
  "Composing, inverting and applying rotations and poses gives exactly the rigid motion that the mathematics prescribes, for every rotation including the identity, half turns and either sign of the quaternion. Converting a pose or rotation to its vector, matrix or logarithmic form and back gives the same rigid motion. Long chains of such operations stay rigid motions and agree with a reference computation.",
  ["inputs", "histories"], "all unit quaternions (edge biased: identity, tiny, near 180 and 360 degrees, both signs, rounding noise), translations, points; random chains of compose/invert/convert",
  "The unit tests convert a few random uniform rotations; the failing regions (half turns, matrices with negative trace, rounding beyond |w|=1) have measure close to zero.",
  ["src/utMath/Quaternion.h", "src/utMath/Quaternion.cpp", "src/utMath/Pose.h", "src/utMath/Pose.cpp"],
  [("quaternion product, conjugate, matrix conversion", "src/utMath/Quaternion.cpp"), ("pose product and inverse", "src/utMath/Pose.h")],
  "Generators draw axis and angle classes separately (exact axes, small integer axes, random; 0, 1e-2..1e-15, 180 +- tiny, 360 - tiny, multiples of 15 and 90 degrees).  Oracle: long double quaternion algebra; matrices are compared entrywise with a rotation built from three rotated unit vectors.  `history` interprets a random program over a register file of poses (compose, invert, 7-vector, 3x4, 4x4, quaternion-from-matrix, scale of the quaternion) in the library and in the reference in parallel and compares after every step.",
  "random and edge-biased rotations, stateful chains of operations vs a long double model")
D("P02", "Rotation representations agree: Euler angles, axis-angle, matrix, quaternion",
  "Converting a rotation between quaternion, rotation matrix, axis and angle, rotation vector and Euler angles of any supported order, in any direction and in single or double precision, yields the same rotation. Axes have unit length, angles lie in their documented range, and the identity, half turns and the poles of the Euler angles yield finite and correct results.",
  ["inputs"], "all rotations (edge biased, including gimbal lock and half turns), all Euler sequences, all pairs of representations, float and double",
  "Tests cover a few sequences and uniform random rotations; poles and half turns have measure zero.",
  ["src/utMath/Quaternion.h", "src/utMath/Quaternion.cpp", "src/utMath/Util/RotationCast.h"],
  [("getEulerAngles and Euler constructor", "src/utMath/Quaternion.cpp"), ("RotationCast overloads", "src/utMath/Util/RotationCast.h")],
  "Oracle: the rotation the result denotes, rebuilt in long double from elementary rotations; compared by rotation distance.  Tolerance 5e-7 rad where an acos is on the path (condition number at 0/180 degrees), tighter elsewhere; conversions that invert no cosine must keep 14 digits of angles down to 2e-10 rad.",
  "all conversions, edge-biased rotations including gimbal lock")
D("P03", "Interpolation of rotations and poses follows the shortest path at constant speed",
  "Interpolating between two rotations or poses yields the end points at 0 and 1, rotates about a fixed axis along the shorter arc at constant angular speed in between, and moves the translation linearly. An angular velocity derived from two rotations and a time span, integrated over that span, reproduces the second rotation.",
  ["inputs"], "pairs of rotations (same, opposite sign, nearly equal, nearly opposite), parameters in [0,1], time spans",
  "Tests check one or two interpolations; sign flips and nearly equal rotations are not sampled.",
  ["src/utMath/Quaternion.cpp", "src/utMath/Pose.cpp", "src/utMath/RotationVelocity.h"],
  [("slerp", "src/utMath/Quaternion.cpp"), ("linearInterpolate", "src/utMath/Pose.cpp"), ("RotationVelocity", "src/utMath/RotationVelocity.h")],
  "Oracle: long double exponential map: from * exp(t log(from^-1 to)) with the shorter arc; cases where the arc is ambiguous (180 degrees) accept either.",
  "pairs of rotations incl. antipodal signs vs exponential-map reference")
D("P04", "Pose covariances propagate like the first-order error of the operation",
  "For poses and points with uncertainty, the covariance of every operation (composition, inversion, inverse composition, application to a point, conversion to and from the additive seven-parameter form, a general function of an uncertain vector) equals the first-order propagation of the error model of the class. The mean is the result of the same operation without uncertainty, and covariances remain symmetric and positive semi-definite along any chain of operations.",
  ["inputs", "histories"], "poses with arbitrary positive semi-definite covariances (rank deficient included), chains of operations",
  "Existing tests compare with a Monte-Carlo estimate for one or two poses with tolerance that hides wrong correlation terms.",
  ["src/utMath/ErrorPose.h", "src/utMath/ErrorPose.cpp", "src/utMath/ErrorVector.h", "src/utMath/Stochastic/CovarianceTransform.h"],
  [("ErrorPose operators", "src/utMath/ErrorPose.cpp"), ("transformWithCovariance", "src/utMath/Stochastic/CovarianceTransform.h")],
  "Oracle: the error model is written down once (a left/right perturbation of the mean by a 6-vector) and the Jacobian of each operation is obtained by numeric differentiation in long double of the reference operation; J C J^T is compared entrywise.",
  "numeric-Jacobian oracle for every operation; random PSD covariances; chains")
D("P05", "Serialization round-trips every value and measurement exactly",
  "Writing any value, list or time-stamped measurement with any archive format and reading it back, alone or after other objects, gives the value that was written, bit for bit. Each record is consumed completely, so that later records in the same stream are read correctly no matter how the bytes are delivered, and an incomplete record is reported.",
  ["inputs", "histories"], "all serializable types, all finite and special values, sequences of records, arbitrary splits of the byte stream",
  "Tests write one value per type; mixed records, non-square shapes, re-use of the target object and partial delivery are not covered.",
  ["src/utSerialization/Serialization.h", "src/utSerialization/BoostArchiveSerializer.h", "src/utSerialization/MsgpackSerializer.h", "src/utMeasurement/Measurement.h", "src/utMath/Vector.h", "src/utMath/Matrix.h", "src/utMath/CameraIntrinsics.h"],
  [("boost archives", "src/utSerialization/BoostArchiveSerializer.h"), ("msgpack adaptors", "src/utSerialization/MsgpackSerializer.h")],
  "For each serializable type a generator (special values, denormals, NaN-free) and a bitwise dump; boost binary/text and msgpack (stream, buffer, zone object, as<>).  Targets are pre-filled with another value, so that fields that are not read show up.",
  "typed generators for all serializable types; record histories with random delivery",
  technique="property-based round-trip testing")
D("P06", "Damaged or foreign serialized bytes are rejected cleanly",
  "Reading any byte string as any serializable type either yields a well-formed value or reports an error by an exception. It never crashes, reads or writes out of bounds, allocates without bound, or leaves an object whose declared sizes exceed what it holds.",
  ["inputs", "fault_sequences"], "mutated, truncated, foreign and random bytes for each type and format",
  "Tests only read what they have written.",
  ["src/utSerialization/MsgpackSerializer.h", "src/utSerialization/BoostArchiveSerializer.h", "src/utMath/CameraIntrinsics.h", "src/utMath/Vector.h", "src/utMath/Matrix.h"],
  [("size checks in the msgpack adaptors", "src/utSerialization/MsgpackSerializer.h")],
  "AddressSanitizer and UBSan build; structure-aware mutations of valid bytes, msgpack trees of nearly the right shape, bytes of other types; allocation limit.",
  "ASan/UBSan, structured mutations", technique="structure-aware mutation fuzzing with sanitizers")
D("P07", "Calibration files restore what was saved and report what they cannot",
  "A value saved to a calibration file is restored exactly, with its time stamp, whatever value it is. A missing, truncated, empty or foreign file and a write that fails are reported with the library's exception and never as silent success. The textual string form of a value restores it to the printed precision.",
  ["inputs", "fault_sequences"], "all calibration types and values; truncation at every kind of position, missing directories, full devices",
  "Tests write and read one file.",
  ["src/utUtil/CalibFile.h", "src/utUtil/SimpleStringIArchive.h", "src/utUtil/SimpleStringOArchive.h"],
  [("readCalibFile, writeCalibFile", "src/utUtil/CalibFile.h")],
  "Round trip through real files in a scratch directory; injected faults: truncation, replaced bytes, directory missing, /dev/full.",
  "round trips and injected I/O faults in a scratch directory", technique="property-based round-trip testing with fault injection")
D("P08", "Dense linear algebra primitives agree with exact arithmetic",
  "Norms, products, distances, cross products, determinants, inverses, pseudo-inverses, comparisons and element access of fixed-size and dynamically sized vectors and matrices agree with a reference up to rounding. Equality and ordering distinguish exactly the values that differ, and the storage order and shape of matrices are preserved by all conversions. Converting a transformation between left-handed and right-handed coordinates gives the same transformation of points with mirrored z axis.",
  ["inputs"], "all sizes the types support, float and double, well conditioned and rank-deficient matrices",
  "Tests use a couple of fixed sizes and random values.",
  ["src/utMath/Vector.h", "src/utMath/Matrix.h", "src/utMath/Blas1.h", "src/utMath/Blas2.h", "src/utMath/Blas3.h", "src/utMath/MatrixOperations.h", "src/utMath/VectorFunctions.h"],
  [("BLAS-like functors", "src/utMath/Blas1.h"), ("determinant, inverse, pseudo-inverse", "src/utMath/MatrixOperations.h")],
  "Reference in long double with error bounds from the condition of the generated matrix (built as U diag V^T).",
  "all sizes/types of the functors vs long double")
D("P09", "Points transform, project and normalize as their homogeneous algebra says",
  "Transforming, projecting or normalizing points, singly or as whole lists in any supported input and output dimension, gives the result of the homogeneous matrix product, element by element and in order, whatever the number of points and whether the results are appended or overwritten. A normalization maps the points it was computed from to zero mean and the documented spread, its correction matrix reproduces exactly that map, and the inverse correction undoes it.",
  ["inputs"], "all supported combinations of matrix shape and point dimension, any number of points (including one), float and double",
  "A test picks one matrix/point combination each; wrong single coefficients only show for matrices where that entry matters.",
  ["src/utMath/Geometry/PointTransformation.h", "src/utMath/Geometry/PointProjection.h", "src/utMath/Geometry/PointNormalization.h"],
  [("TransformPoint", "src/utMath/Geometry/PointTransformation.h"), ("ProjectPoint", "src/utMath/Geometry/PointProjection.h"), ("normalize and correction matrix", "src/utMath/Geometry/PointNormalization.h")],
  "Every functor overload is instantiated; matrices are dense random with occasional zero/one entries; oracle is the long double homogeneous product with an error bound proportional to the sum of the absolute products divided by the projective depth.",
  "all overloads vs long double homogeneous products")
D("P10", "Conics and quadrics report their true shape and projections",
  "The center, semi-axes, angle, eccentricity, area and type reported for a conic are those of the curve, for any position, scale and sign of its coefficients, and dual, inverse and transformed conics agree with the matrix algebra. The projection of an ellipsoid or sphere by a camera is the conic that the projected outline points lie on. The covariance reported for a fitted ellipse is positive semi-definite and scales with the noise, and a conic without a finite center is reported as an error.",
  ["inputs"], "ellipses (circles, axis-parallel, rotated by any angle), hyperbolas, parabolas, degenerate signs and scales; ellipsoids in front of random cameras",
  "Tests only check a matrix identity on a few conics; the branches on signs of coefficients are not reached.",
  ["src/utMath/Geometry/Conic.h", "src/utMath/Geometry/ConicCovariance.h", "src/utMath/Geometry/QuadricFunctors.h"],
  [("conic functors", "src/utMath/Geometry/Conic.h"), ("projection of quadrics", "src/utMath/Geometry/QuadricFunctors.h")],
  "Conics are generated from their shape (center, axes, angle) and multiplied by a random signed scale; the functors have to return the shape.  Projected outlines are checked with tangency of rays: points of the outline are computed independently and inserted in the conic equation.",
  "conics built from known shapes; tangent rays for quadric outlines")
D("P11", "The assignment solver returns a cheapest complete assignment",
  "For any cost matrix, square or not, with ties, zeros or negative costs, the solver terminates with a one-to-one assignment of as many rows to columns as possible whose total cost is minimal. The row list, the column list and the mask matrix describe the same assignment, and a solver object gives correct results when it is used again for another matrix.",
  ["inputs", "histories"], "cost matrices up to 30x30: integers with many ties, zeros, negative values, products, distances of points, reals; sequences of problems on one solver",
  "The tests solve one small matrix where the greedy first step already is optimal.",
  ["src/utMath/Graph/Munkres.h"],
  [("Munkres steps 1-5", "src/utMath/Graph/Munkres.h")],
  "Oracle: exhaustive dynamic programming over column subsets (up to 8 columns), an independent potentials algorithm above; an endless loop is a failure (CPU limit per case).  Found: the solver lost the position of the zero it found and padded non-square problems with a wrong range (both fixed).",
  "brute force / potentials oracle, ties, non-square, reuse histories", technique="property-based testing against a brute-force optimum")
D("P12", "Least-squares optimizers descend, converge and tell the truth",
  "The error that a minimizer reports is the error at the parameters it returns, that error is never larger than at the start, and the parameters stay finite. On problems with a well-conditioned solution the minimizers reach it, weights act as a weighted sum of squares, and every run terminates within the allowed number of iterations. The Tukey weights are between zero and one, fall with the error and are one at zero error.",
  ["inputs", "histories"], "linear and non-linear problems (exact and noisy, weighted, rank-deficient, with undefined regions, starting at or far from the solution), float and double, any iteration limit",
  "Tests run one easy problem; rejected steps, exact data, zero start values and undefined regions are never reached, and two of the three optimizers were never even instantiated.",
  ["src/utMath/Optimization/LevenbergMarquardt.h", "src/utMath/Optimization/GaussNewton.h", "src/utMath/Optimization/DownhillSimplex.h", "src/utMath/Optimization/Optimization.h", "src/utMath/Optimization/TukeyWeightFunction.h"],
  [("levenbergMarquardt", "src/utMath/Optimization/LevenbergMarquardt.h"), ("gaussNewton", "src/utMath/Optimization/GaussNewton.h"), ("downhillSimplex", "src/utMath/Optimization/DownhillSimplex.h"), ("TukeyWeightFunction", "src/utMath/Optimization/TukeyWeightFunction.h")],
  "Problems with a known minimum (built from singular values, or curve fitting with known parameters) are generated; the returned error is recomputed by the harness in long double, and compared with the start and with the normal-equation solution.",
  "recomputed residuals, known minima, all optimizers and weightings", technique="property-based testing with known-optimum problems")
D("P13", "Analytic derivatives are the derivatives of the functions",
  "For every function object that the optimizers and the error propagation use (projections, distortion, rotations, normalizations, time updates, hand-eye, tool-tip and bundle-adjustment functions), evaluate gives the documented function and jacobian gives its derivative with respect to every parameter. Evaluating both at once gives the same results, all outputs are written, the input is not changed, and derivatives stay finite where the function is defined; derivatives documented for small rotations per step are exact in that limit.",
  ["inputs"], "all parameters, any number of points, cameras, images and bodies, float and double",
  "A wrong sign or term in one of about 300 hand-expanded derivative entries only slows an optimizer down or falsifies a covariance; the tests compare end results at loose tolerance.",
  ["src/utAlgorithm/Function/LieRotation.h", "src/utAlgorithm/Function/MultipleCameraProjection.h", "src/utAlgorithm/Function/RadialDistortion.h", "src/utAlgorithm/Function/BundleAdjustment.h", "src/utAlgorithm/Function/RotHecFunction.h", "src/utMath/Optimization/Function/VectorNormalize.h", "src/utMath/Optimization/Function/RotationVelocityIntegration.h", "src/utTracking/Function/PoseTimeUpdate.h", "src/utTracking/Function/QuaternionTimeUpdate.h", "src/utAlgorithm/PoseEstimation3D3D/Optimization.h", "src/utAlgorithm/ToolTip/Optimization.h"],
  [("function objects", "src/utAlgorithm/Function/QuaternionRotation.h"), ("projection error Jacobians", "src/utAlgorithm/Function/MultipleCameraProjectionError.h"), ("time updates", "src/utTracking/Function/InsideOutPoseTimeUpdate.h")],
  "Each function is written down a second time from its documentation in long double; the analytic Jacobian is compared entry by entry with a five-point numeric derivative of that reference.  Output containers are pre-filled with NaN.",
  "all function objects vs numeric derivative of an independent reference", technique="property-based differential testing against numeric derivatives")
D("P14", "RANSAC samples, counts inliers and refines exactly as parametrized",
  "RANSAC tries at most the allowed number of hypotheses, each from a sample of exactly the requested size (of different values, in the list variants) in which corresponding measurements stay together and which can be any subset of the data. A value is an inlier if its error is strictly below the threshold; a positive return value is the inlier count of the best hypothesis tried and at least the required number, and the result is the estimate from exactly those inliers. Zero is returned only if all allowed hypotheses failed (or there is too little data, or the final estimation fails), and parameters computed from an outlier rate give the iterations needed for the requested success probability.",
  ["inputs", "schedules"], "any data, outlier share, sample size, threshold, iteration limits, failing or throwing estimators, and any state of the random generator",
  "Which samples are drawn depends on the random generator, so a test sees one sequence; bookkeeping errors (stale inlier flags, early exits, off-by-one counts) only show for particular sequences and data.",
  ["src/utMath/Optimization/Ransac.h"],
  [("ransac over one list", "src/utMath/Optimization/Ransac.h"), ("RansacParameter", "src/utMath/Optimization/Ransac.h")],
  "A recording estimator/evaluator logs every call; the history is judged by a model that recounts the inliers of each hypothesis.  The random generator is seeded per case; reachability and outlier-rejection checks choose iteration counts whose failure probability is below 1e-13.",
  "call history judged by a recounting model; reachability of all samples; outlier rejection", technique="stateful property-based testing of the recorded call history")
D("P15", "Averages, covariances, correlations and random generators are correct",
  "An average is the mean of the measurements added so far; the average of rotations and poses does not depend on quaternion signs, on the order, or on where in rotation space the measurements lie, and the covariances are those of the (multiplicative) deviations from the mean. Gaussian estimates (plain, weighted, selected), correlation and Mahalanobis distance equal their definitions for every container, and a singular covariance is refused. The random generators stay inside their limits and have the documented mean, variance and independence.",
  ["inputs", "histories"], "any number, dimension, magnitude and offset of the data, rotations anywhere including half turns, every generator state",
  "Tests average nothing and draw random numbers without judging them; sign ambiguities, frames of covariances and offsets only show for particular data.",
  ["src/utMath/Stochastic/Average.h", "src/utMath/Stochastic/Gaussian.h", "src/utMath/Stochastic/Correlation.h", "src/utMath/Stochastic/MahalanobisDistance.h", "src/utMath/Stochastic/Weighted.h", "src/utMath/Random/Scalar.h", "src/utMath/Random/Vector.h", "src/utMath/Random/Rotation.h", "src/utMath/Random/Pose.h", "src/utMath/Util/TypeToVector.h", "src/utAlgorithm/Correlation.cpp"],
  [("Average", "src/utMath/Stochastic/Average.h"), ("estimate_gaussian", "src/utMath/Stochastic/Gaussian.h"), ("random functors", "src/utMath/Random/Vector.h")],
  "The statistics are recomputed in long double from the definition.  Random generators are seeded per case and judged by sample moments with bounds of 8 to 12 standard errors, so a correct generator never fails.",
  "definitions in long double; moment tests with fixed seeds", technique="property-based testing against long-double definitions and sample moments")
D("P16", "Clustering returns true centroids and never loses likelihood",
  "k-means assigns every point to a nearest centroid, returns finite centroids (as many as asked for, or as there are different points), makes the clustering no worse than its starting means, finds separated groups exactly, and after convergence every centroid is the mean of its members. The seeding functions select elements of the data, no place twice. Expectation maximization never makes the data less likely, reports the likelihood of the mixture it returns, keeps the weights a distribution and preserves mean and second moment of the data.",
  ["inputs", "histories"], "any points, dimension, number of clusters, starting means (including ones without members), random generator state, float and double",
  "The tests only run the algorithms without judging the result, on one random data set.",
  ["src/utMath/Stochastic/k_means.h", "src/utMath/Stochastic/expectation_maximization.h", "src/utMath/Stochastic/Gaussian.h", "src/utMath/Stochastic/identity_iterator.h"],
  [("k_means", "src/utMath/Stochastic/k_means.h"), ("expectation_maximization", "src/utMath/Stochastic/expectation_maximization.h")],
  "Points on a coarse grid make converged clusterings exact fixed points, which are recomputed; mixtures are judged by long-double likelihoods, moment invariants of the maximization step, and one reference step.",
  "fixed-point, cost and likelihood invariants recomputed independently", technique="property-based testing with algorithmic invariants")
D("P17", "Kalman updates and backward propagation give the Gaussian estimate",
  "A measurement update of any part of the state gives the linear-Gaussian posterior mean and covariance (of the linearized measurement), never increases the uncertainty, keeps the covariance symmetric and positive, and a history of linear measurements gives the same estimate in every order. Backward propagation of a scaled identity, diagonal or full measurement covariance gives the inverse of the information matrix of all measurements (the pseudo-inverse, for rank-deficient identity problems).",
  ["inputs", "histories"], "any state and measurement size, any sub-range, linear and non-linear measurement functions, correlated noise, float and double",
  "Tests never touch these templates directly; a wrong index range or factor only scales a covariance that nobody compares with anything.",
  ["src/utMath/Stochastic/Kalman.h", "src/utMath/Stochastic/BackwardPropagation.h"],
  [("kalmanMeasurementUpdate", "src/utMath/Stochastic/Kalman.h"), ("backwardPropagation*", "src/utMath/Stochastic/BackwardPropagation.h")],
  "The textbook update is evaluated in long double for the same inputs; histories are compared with the information-form estimate; backward propagation with the inverted normal equations, also for parameters and measurements whose units differ by up to 1e5.  Tolerances grow with the condition number of the generated problem.",
  "textbook formulas in long double, order independence, float and double", technique="property-based differential testing against closed-form estimates")
D("P18", "3D-3D pose estimation returns the least-squares optimal rigid motion",
  "From three or more corresponding points the closed-form estimators return a proper rotation and translation with the smallest possible sum of squared distances (exactly the true pose for exact data, whether the points are planar, far from the origin, half a turn apart or mirrored), map the centroids on each other, agree between all entry points, and report failure without touching the result if the points are all equal. The scale estimate is the ratio of the spreads, the iterative refinement never makes the error larger and reaches the optimum from a near start, and the RANSAC variant returns the pose of the inliers. Residual and covariance are those of the given pose and points.",
  ["inputs"], "any number, scale, offset and shape of the point sets, any rotation and noise, float and double, every random generator state",
  "Tests check random general point sets at loose tolerance; planar, mirrored, half-turn and far-offset data and the quality of a noisy fit are never compared with the optimum.",
  ["src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp", "src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h", "src/utAlgorithm/PoseEstimation3D3D/Pose6D.h", "src/utAlgorithm/PoseEstimation3D3D/Scale.h", "src/utAlgorithm/PoseEstimation3D3D/Optimization.h", "src/utAlgorithm/PoseEstimation3D3D/Ransac.h", "src/utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h", "src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h"],
  [("estimateRotation_3D3D (Horn)", "src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h"), ("estimatePose6D_3D3D", "src/utAlgorithm/PoseEstimation3D3D/Pose6D.h"), ("refinement", "src/utAlgorithm/PoseEstimation3D3D/Optimization.h")],
  "The optimum is computed in long double from the quadratic form itself (evaluated on a quaternion basis) and its eigen gap decides which tolerance is justified; ambiguous problems are judged by their cost only.",
  "closed-form optimum in long double; exact, noisy, planar, mirrored, far data; all overloads", technique="property-based differential testing against the global optimum")
D("P19", "Homographies, projections and epipolar geometry map points exactly",
  "From exact correspondences in general position the estimated homography, projection matrix and fundamental matrix map every point (also ones not used) or satisfy its epipolar constraint, and a noisy estimate does not depend on the order of the points or on units and origin of the coordinates. Projection matrices are normalized with the points in front of the camera and decompose into upper-triangular intrinsics, a rotation and a translation for every scale and sign of the matrix; the relative pose of two cameras is recovered from their fundamental matrix. The OpenGL and off-axis matrices send the image or screen borders and the clipping planes to the unit cube, and origin correction mirrors image rows.",
  ["inputs"], "any camera, pose, scale, offset, number of points (from the minimum up), planar corners, projection-matrix scale and sign, float and double",
  "Tests use a few random cameras in a narrow range at unit scale; scaled matrices, sign flips, minimal sets and far offsets are not sampled.",
  ["src/utAlgorithm/Homography.cpp", "src/utAlgorithm/Projection.cpp", "src/utAlgorithm/FundamentalMatrix.cpp", "src/utAlgorithm/FundamentalMatrix.h", "src/utMath/Geometry/PointNormalization.h"],
  [("homographyDLT, squareHomography", "src/utAlgorithm/Homography.cpp"), ("projectionDLT, decomposeProjection, OpenGL matrices", "src/utAlgorithm/Projection.cpp"), ("getFundamentalMatrix, poseFromFundamentalMatrix", "src/utAlgorithm/FundamentalMatrix.cpp")],
  "Points are generated from a known camera or homography in long double; tolerances follow from the singular values of the (independently built) equation system, so badly conditioned cases are judged fairly or discarded.",
  "ground-truth cameras, invariances for noisy data, conditioning-aware tolerances", technique="property-based testing against generated ground truth and metamorphic relations")
D("P20", "Triangulated points reproject onto the images they came from",
  "A point seen by two or more cameras is reconstructed exactly from exact projections, by every method and for every scale and sign of the projection matrices; with noise the accurate method returns the point of smallest reprojection error, never worse than the fast one, independent of the world frame, and a requested residual is the sum of squared reprojection errors of the returned point. Unordered point sets of two images are matched by their epipolar lines, unmatched points are left out, the epipolar distance is that of the (also homogeneous) points, and inconsistent input is refused.",
  ["inputs"], "any number of cameras, positions, intrinsics, scales and signs of the matrices, noise, extra points in either image, float and double",
  "Tests reconstruct exact points from a few cameras; noisy optimality, residuals, homogeneous coordinates and unequal point sets are not judged.",
  ["src/utAlgorithm/3DPointReconstruction.cpp", "src/utAlgorithm/3DPointReconstruction.h", "src/utAlgorithm/Function/SinglePointMultiProjection.h"],
  [("get3DPosition", "src/utAlgorithm/3DPointReconstruction.cpp"), ("reconstruct3DPoints", "src/utAlgorithm/3DPointReconstruction.cpp")],
  "Cameras and points are generated; the noisy optimum is found by Gauss-Newton in long double on the reprojection error.",
  "ground truth, long-double optimum, matching of shuffled and incomplete sets", technique="property-based testing against ground truth and a reference optimizer")
D("P21", "Lens distortion follows its documented model and undistortion inverts it",
  "Distorting an image or sensor point gives the documented rational radial plus tangential model for every number of parameters, camera matrix (also with skew, and either sign of K(2,2)), single points, aliased arguments and vectors of any length. Undistortion returns the original point as long as the distortion is invertible and moderate, and for any distortion its result fits the distorted point no worse than the starting point. The intrinsics container keeps exactly the parameters, type and image size it was given, and its opening angles are those of a pinhole camera.",
  ["inputs"], "any camera matrix, 0/2/3/6 radial and 2 tangential parameters, point positions, container lengths and aliasing, float and double",
  "Tests distort a few random points with one fixed camera; the six-parameter model, skew, aliasing and output vectors of another length are not exercised.",
  ["src/utAlgorithm/CameraLens/Correction.cpp", "src/utAlgorithm/CameraLens/Distortion.h", "src/utAlgorithm/CameraLens/Undistortion.h", "src/utAlgorithm/LensDistortion.cpp", "src/utAlgorithm/Function/RadialDistortion.h", "src/utMath/Geometry/PointUndistortion.h", "src/utMath/CameraIntrinsics.h"],
  [("distort", "src/utAlgorithm/CameraLens/Distortion.h"), ("undistort", "src/utAlgorithm/CameraLens/Undistortion.h"), ("lensDistort, lensUnDistort, projectWithDistortion", "src/utAlgorithm/LensDistortion.cpp"), ("CameraIntrinsics", "src/utMath/CameraIntrinsics.h")],
  "The model is evaluated in long double; a bound on the Jacobian decides whether a case is in the domain where the inverse must be found; beyond it only the residual is judged.",
  "long-double model, round trip, vector/aliasing agreement, derivative, container contents", technique="property-based differential and round-trip testing")
D("P22", "The pose of a camera is recovered from known points and their images",
  "From exact images of at least four coplanar points (in any plane) or six points in space the estimated pose is the true one, with or without refinement, for every camera matrix, object scale and placement; a homography of any scale and sign gives the pose in front of the camera. With noise the refinement never increases the reprojection error and reaches its minimum from a near start, the reported residual is that of the returned pose, and the covariances are those of the linearized projections of all observations. A pose that the object-space iteration reports as converged has the reported error and an optimal translation; too few points and three collinear points are refused.",
  ["inputs"], "any camera matrix, pose, object frame and scale, planar and spatial points, noise, start pose and number of iterations, float and double",
  "Tests use one camera at unit scale and points at z=0 or one cube; planes off the origin, scaled objects, noise and covariances are not judged.",
  ["src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp", "src/utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp", "src/utAlgorithm/Function/MultiplePointProjection.h", "src/utAlgorithm/Function/ProjectivePoseNormalize.h"],
  [("computePose, optimizePose, poseFromHomography", "src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp"), ("singleCameraPoseError, multipleCameraPoseError", "src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp"), ("estimatePose6D_2D3D", "src/utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp")],
  "Scenes are generated from a known camera; tolerances follow the singular values of the linear system; the noisy optimum is found by Gauss-Newton in long double; covariances come from numeric long-double Jacobians.  The non-planar method is not used on coplanar points (its documented precondition), and optimality after the default six damped steps is only required where the damping is small compared with the normal equations.",
  "ground truth scenes, long-double optimum and covariances, object-space error recomputed", technique="property-based testing against ground truth and a reference optimizer")
D("P23", "Hand-eye calibration recovers the fixed transform from any set of motions",
  "For all poses e_i, h_i with e_i*X*h_i constant, whose motions determine X, Tsai-Lenz and the dual-quaternion method return X, whatever the signs of the quaternions, the scale, the number of poses and the order of calls, and errors in the data change it no more than the conditioning allows; mismatched numbers of poses are refused. Relative motions are the documented products for every pair, and the selected motions are distinct motions of the input, both parts from the same pair, each the nearest one to the centre of its cluster. The online rotation estimators are, after any sequence of motions, the regularized least-squares solution resp. a unit quaternion near the solution with a symmetric positive covariance.",
  ["inputs", "histories"], "any fixed transform, 3 to 12 poses (generic, clustered, repeated, pure translations, exact special values), noise, quaternion signs, scale, float and double, sequences of growing calls and of online measurements",
  "Tests use random poses without sign changes and accept a success rate; repeated rotations, special transforms and histories of the online estimators are not covered.",
  ["src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp", "src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.h", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp", "src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h", "src/utAlgorithm/OnlineRotHec.cpp", "src/utAlgorithm/RotationHecKalmanFilter.cpp"],
  [("performHandEyeCalibration", "src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp"), ("estimatePose6D_6D6D", "src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp"), ("select_6DPoses", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp"), ("OnlineRotHec::addMeasurement", "src/utAlgorithm/OnlineRotHec.cpp")],
  "Rigs are generated from a known transform; tolerances follow the singular values of the equations, computed in long double, and half-turn motions (where the method itself is undetermined) are discarded.  Selected motions are looked up in a reference list of all motions; the online estimator is compared with the closed-form normal equations of its whole history.",
  "ground truth rigs, singular values of the equations, reference list of all motions, closed-form least squares of the history", technique="property-based and stateful testing against ground truth and a reference solution")
D("P24", "Tool-tip calibration is the least-squares pivot of the given poses",
  "For every set of poses whose rotations determine the pivot, the returned tip in world and in body coordinates minimizes the summed squared distances (and is the true tip for exact data), in float and double and through the old interface. The reported error is the mean distance and its unbiased standard deviation; the distance function and its Jacobian are right everywhere, and refinement never leaves the optimum. With up to a fifth of displaced poses a successful RANSAC result explains the required number of poses and is as near to the tip as the threshold and conditioning of those poses imply.",
  ["inputs"], "any tip, offset, scale from 0.01 to 1000, 2 to 25 poses with uniform, clustered or special rotations and any quaternion sign, noise and outliers",
  "There is one test with one generator and a loose success criterion; errors, float, scaled data and outliers are not judged.",
  ["src/utAlgorithm/ToolTip/LeastSquare.h", "src/utAlgorithm/ToolTip/ErrorEstimation.h", "src/utAlgorithm/ToolTip/Optimization.h", "src/utAlgorithm/ToolTip/Ransac.h", "src/utAlgorithm/ToolTip/TipCalibration.cpp"],
  [("estimatePosition3D_6D", "src/utAlgorithm/ToolTip/LeastSquare.h"), ("estimatePosition3DError_6D", "src/utAlgorithm/ToolTip/ErrorEstimation.h"), ("MultiplePoseSinglePointTransformation", "src/utAlgorithm/ToolTip/Optimization.h"), ("tipCalibration", "src/utAlgorithm/ToolTip/TipCalibration.cpp")],
  "The normal equations of the poses as stored are solved in long double; tolerances follow the condition number; Jacobians are compared with central differences in long double; RANSAC results are judged on the poses they explain.",
  "long-double normal equations, numeric Jacobians, bound by the conditioning of the explained poses", technique="property-based testing against a reference least-squares solution")
D("P25", "Pose estimation with several cameras and bundle adjustment reach the minimum",
  "From the exact images of a planar object in any number of calibrated cameras (points with weight 0 are ignored whatever their value), the estimated pose is the pose of the object; a given initial pose is refined and never made worse, the weight is the summed squared reprojection error of the result and scales the covariance. Too few observations give weight -1 and the neutral pose, inconsistent input an exception, and every local bundle the result it has alone. Bundle adjustment never increases the reprojection error of the poses and points it returns and reaches that of the true scene from a close start, with normalized rotations.",
  ["inputs"], "1-4 cameras in general position, 4-10 points of any scale, partial visibility, weights, noise up to 2e-3 of the focal length; up to 4 local bundles including empty ones; 2-6 cameras with 6-20 points for bundle adjustment in double and float",
  "The multiple camera estimation has no test; the test of the bundle adjustment uses one kind of scene and a loose bound.",
  ["src/utAlgorithm/MultipleCameraPoseOptimization.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.h", "src/utAlgorithm/BundleAdjustment.cpp", "src/utAlgorithm/BundleAdjustment.h", "src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp"],
  [("multipleCameraPoseEstimation", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp"), ("multipleCameraPoseEstimationWithLocalBundles", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp"), ("checkConsistency", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp"), ("simpleBundleAdjustment", "src/utAlgorithm/BundleAdjustment.cpp")],
  "Scenes are generated with a known truth; images, reprojection errors and the least-squares minimum are computed in long double (Gauss-Newton), with tolerances from the conditioning of the generated scene. Local bundles are compared bit by bit with a call on the part alone.",
  "known truth, long double minimum, part-alone relation", technique="property-based testing against ground truth and a long double least-squares minimum")
D("P26", "The tracking filters are the extended Kalman filter of their motion model",
  "Over every history of pose, rotation, rotation-velocity and inverse-velocity measurements and predictions, at any forward, equal or backward times, state and covariance of the pose filter (any derivative orders, outside-in and inside-out) and of the rotation-only filter are those of the extended Kalman filter of the documented motion model: one predict by the elapsed time, one correction against the quaternion sign nearest to the state, normalization. Predictions carry the requested time and never change the filter, constant motion is extrapolated, and process noise is exactly what was set, scaled by the elapsed time. Filters refuse to predict before any measurement and refuse orders they do not support.",
  ["history", "inputs"], "histories of up to 12 (60 for extrapolation) mixed measurements, time steps from -0.3 s to 0.3 s from any start time, orders 0 to 2, any pose, noise and covariance, any sign of the measured quaternion",
  "No test feeds a tracking filter; time order, sign handling, covariances and process noise are not observed at all.",
  ["src/utTracking/PoseKalmanFilter.cpp", "src/utTracking/RotationOnlyKf.cpp", "src/utTracking/LinearPoseMotionModel.h", "src/utMath/Stochastic/Kalman.h", "src/utTracking/Function/PoseTimeUpdate.h", "src/utTracking/Function/InsideOutPoseTimeUpdate.h"],
  [("addPoseMeasurement / timeUpdate / predictPose", "src/utTracking/PoseKalmanFilter.cpp"), ("RotationOnlyKF", "src/utTracking/RotationOnlyKf.cpp"), ("addNoise / setPosPN / setOriPN", "src/utTracking/LinearPoseMotionModel.h"), ("kalmanMeasurementUpdate", "src/utMath/Stochastic/Kalman.h")],
  "A long-double filter runs the same history in four variants: exact derivatives, small-angle derivatives, and two copies with emulated double rounding. The tolerance of each comparison is the spread of these variants, so another valid linearization or evaluation order stays quiet; histories where rounding alone carries further than 1e-9 end the comparison. Besides, for any history and however far the state has turned, a measurement (of either quaternion sign) that says exactly what a time update alone would predict must leave the state there. Memory is filled with garbage before use.",
  "model-based histories against a reference filter; spread of four reference variants as tolerance", technique="stateful property-based testing against a reference extended Kalman filter")
D("P27", "Timestamps are written correctly and clock synchronization follows the clock",
  "Every 64-bit timestamp is written as its UTC calendar date and as its local time of day with microseconds, and now() is the system clock. For any pair of linearly related clocks with jitter and isolated outliers, whatever their epochs and units and however wrong the assumed frequency, the conversion returns the first time unchanged, equals the documented Kalman filter (or exponentially weighted regression) over the whole history, settles to within the jitter and increases monotonically; moving either epoch moves the result by the same amount. Events are counted.",
  ["history", "inputs"], "all 64-bit timestamps and half-hour time zones; histories of 1 to 400 events, native frequencies 1 Hz to 1 GHz off by up to a factor of 5, jitter to 30 ms, outliers to 20 s, local times that jump back",
  "Existing tests only call now(); calendar arithmetic, long histories, epochs and outliers are never exercised.",
  ["src/utMeasurement/Timestamp.cpp", "src/utMeasurement/Timestamp.h", "src/utMeasurement/TimestampSync.cpp", "src/utMeasurement/TimestampSync.h", "src/utMeasurement/TimestampSyncLS.h"],
  [("now / timestampToString / timestampToShortString", "src/utMeasurement/Timestamp.cpp"), ("TimestampSync::convertNativeToLocal", "src/utMeasurement/TimestampSync.cpp"), ("TimestampSyncLS::convertNativeToLocal", "src/utMeasurement/TimestampSyncLS.h")],
  "Strings are compared with an independent Gregorian calendar; both synchronizers run against long-double references in coordinates relative to the first event, with tolerances for whole-tick truncation; histories whose outlier decision is a tie end the comparison; convergence, monotony and equivariance are judged without any reference.",
  "independent calendar, reference filters over histories, epoch equivariance, convergence bounds", technique="stateful property-based testing against reference filters and metamorphic relations")
D("P28", "Measurements share their payload when copied and only clones are independent",
  "Over every history of constructing, copying, assigning, cloning, writing, re-timing, invalidating, resetting and constant-casting measurements of any payload type: copies and casts refer to the same payload, clones and measurements made from a value hold their own, each handle keeps its own time, and a measurement is invalid exactly when its time is zero. Clones of empty measurements are empty, payloads live exactly as long as some measurement refers to them, and the text is the payload with its time of day or INVALID.",
  ["history"], "histories of up to 30 operations on up to 6 or more handles, ten payload types, any 64-bit time",
  "Tests only construct and serialize single measurements; aliasing, clones and validity over a history are never observed.",
  ["src/utMeasurement/Measurement.h"],
  [("Measurement", "src/utMeasurement/Measurement.h"), ("clone / constCast / invalidate", "src/utMeasurement/Measurement.h")],
  "A model keeps for each handle its time and the index of a shared cell; after every operation all handles are compared pairwise for value, time, validity and sharing; instances of a counting payload must all be gone at the end.",
  "stateful model of handles and shared cells", technique="stateful property-based testing against a model of shared cells")
D("P29", "A serial port transports bytes unchanged and owns its descriptor only while open",
  "Over every history of open, close, send, read, flush, break and reopen, all byte values are transported unchanged and in order in both directions, counts are exact, and operations on a closed port raise an exception instead of touching any descriptor. Requested rate, data bits, parity, stop bits and timeouts are what is configured on a raw line, and the previous settings come back on close. Ports that cannot be opened or configured and lines that fail raise an exception, and no descriptor leaks, is closed twice or is used after close.",
  ["history", "faults", "inputs"], "histories of up to 45 operations on a pseudo terminal, blocks of up to 300 bytes of any value, all supported and unsupported rates and formats, failing tcgetattr, tcsetattr and write",
  "No test opens a port at all.",
  ["src/utUtil/SerialPort.cpp", "src/utUtil/SerialPort.h"],
  [("SerialPort::open / close", "src/utUtil/SerialPort.cpp"), ("SerialPort::send / read / bytesOnRead / flush", "src/utUtil/SerialPort.cpp")],
  "A model of the input queue and of the open descriptors runs beside the port, the other end of the pseudo terminal is the harness; stand-ins of the terminal calls record the requested settings (a pseudo terminal ignores format) and inject faults; another file takes over the descriptor of a closed port.",
  "stateful model on a pseudo terminal with fault injection", technique="stateful property-based testing with fault injection against a queue model")
D("P30", "Composed functions have the values and derivatives of the composition",
  "For every expression built from the composable functions (addition, subtraction, dehomogenization, linear transformation, rotation by a logarithm, norm, camera intrinsics, stored intermediate results, functions derived by the user with up to three arguments), bound to optimized parameters at any place of the parameter vector or to constants, evaluate, jacobian and evaluateWithJacobian give the value of the composition and its derivative in the columns of the parameters. Columns of other parameters and the parameters themselves stay untouched, repeated evaluation does not depend on earlier ones, constants by reference follow the reference and copies do not.",
  ["inputs", "history"], "all single functions and seven nested compositions, every mix of optimized and constant arguments, any gaps between parameters, rotations from 0 to 6.2 rad, up to three evaluations of one expression",
  "No test uses the framework; its derivatives are written by hand.",
  ["src/utMath/Optimization/NewFunction/Function.h", "src/utMath/Optimization/NewFunction/Detail/Binder.h", "src/utMath/Optimization/NewFunction/LieRotation.h", "src/utMath/Optimization/NewFunction/Dehomogenization.h", "src/utMath/Optimization/NewFunction/VectorNorm.h", "src/utAlgorithm/NewFunction/CameraIntrinsicsMultiplication.h"],
  [("Binder", "src/utMath/Optimization/NewFunction/Detail/Binder.h"), ("Parameter", "src/utMath/Optimization/NewFunction/Detail/Parameter.h"), ("LieRotation", "src/utMath/Optimization/NewFunction/LieRotation.h"), ("VectorNorm", "src/utMath/Optimization/NewFunction/VectorNorm.h"), ("Subtraction", "src/utMath/Optimization/NewFunction/Subtraction.h"), ("CameraIntrinsicsMultiplication", "src/utAlgorithm/NewFunction/CameraIntrinsicsMultiplication.h")],
  "The same composition is written in long double and differentiated numerically (five points); a marker value in the destination shows columns written or forgotten. The same parameter in two places is documented as unsupported and not generated; ImageLookup needs an image class that is not part of the repository.",
  "long double composition and numerical derivative", technique="property-based testing against a long double evaluation and numerical derivatives")
D("P31", "File search, exceptions, timers, sleeping and logging do what they document",
  "A file search returns exactly the existing files whose whole name matches the pattern (and the directories if asked), each once and sorted; none or a missing path is an error and a single file stands for itself. Exceptions carry message, line and file through throwing, printing and logging; block timers count and sum every run, nested or not, and log once at the end. Sleeping lasts at least the whole requested time, whatever the nanoseconds and however often signals interrupt it; logging takes its levels from the configuration or falls back to the defaults.",
  ["inputs", "faults", "history"], "directories of up to 14 files, directories, links and dangling links with arbitrary names; any message, line and file; any 32-bit milliseconds and nanoseconds with up to three interruptions; histories of up to 10 timer runs",
  "No test covers any of these.",
  ["src/utUtil/GlobFiles.cpp", "src/utUtil/Exception.cpp", "src/utUtil/BlockTimer.cpp", "src/utUtil/BlockTimer.h", "src/utUtil/OS.cpp", "src/utUtil/Logging.cpp"],
  [("globFiles", "src/utUtil/GlobFiles.cpp"), ("Exception", "src/utUtil/Exception.cpp"), ("BlockTimer", "src/utUtil/BlockTimer.h"), ("sleep / getHighPerformanceCounter", "src/utUtil/OS.cpp"), ("initLogging", "src/utUtil/Logging.cpp")],
  "Generated directories under a scratch folder are compared with a set computed without regular expressions; the sleeping system calls are replaced by stand-ins that add up the requested time, refuse invalid requests as the kernel does and interrupt on demand; log output is captured by an appender.",
  "scratch directories, virtual sleep with interruptions, captured log", technique="property-based testing against direct models, with injected interruptions")
