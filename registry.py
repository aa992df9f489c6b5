"""Single source of truth: the properties and the checks that decide them.
`python3 registry.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os
VERIF = os.path.dirname(os.path.abspath(__file__))
PROPS, CHECKS = [], {}

def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

def C(id, technique, level, note, rule, bounds, units, assumptions=()):
    CHECKS[id] = dict(technique=technique, level=level, level_note=note, rule=rule, bounds=bounds, units=units,
                      assumptions=list(assumptions))

M = "src/utMath/"; A = "src/utAlgorithm/"; L4 = "3rd/log4cpp/"

# ---------------------------------------------------------------- rotations and poses
P("G01", "Unit quaternions act, compose and invert exactly like rotation matrices",
  "Rotating a point with a unit quaternion equals multiplying it by that quaternion's rotation matrix; composing two rotations equals applying the right one first and then the left one; a rotation followed by its inverse is the identity, and normalising or negating a quaternion never changes the rotation it stands for. The rotation matrix is orthonormal with determinant +1, and lengths, angles and handedness are preserved for every rotation in every octant, including half turns and the identity.",
  ["inputs", "programs"], "all pairs/triples of rotations of a lattice covering all signs, half turns, near-identity and near-half-turn rotations, applied to all points of a small grid",
  "the tests convert a few random rotations; sign, order and special-angle mistakes show only for particular octants or products of several rotations",
  [M+"Quaternion.h", M+"Quaternion.cpp"],
  [("quaternion product, vector rotation, inverse, normalisation", M+"Quaternion.h"), ("quaternion to matrix", M+"Quaternion.cpp toMatrix")])
P("G02", "Every rotation representation converts to every other without changing it",
  "Converting a rotation between quaternion, 3x3 or 4x4 matrix, axis-angle, rotation vector (log/exp) and any supported Euler-angle sequence and back yields the same rotation. In particular, for every proper rotation matrix (all trace signs, half turns around any axis, identity) the quaternion built from it is finite, unit length and reproduces that matrix.",
  ["inputs"], "all rotations of a lattice that visits every branch of the matrix conversion, all Euler sequences, away from each sequence's documented singularity only where the angles themselves are compared",
  "four-way branching on the trace and twelve Euler sequences: random samples rarely reach half-turn and axis-aligned branches, and a wrong sign can cancel in a self-consistent test",
  [M+"Quaternion.cpp", M+"Quaternion.h", M+"Util/RotationCast.h"],
  [("matrix to quaternion branches", M+"Quaternion.cpp Quaternion(Matrix)"), ("Euler conversions", M+"Quaternion.cpp getEulerAngles"), ("rotation cast functors", M+"Util/RotationCast.h")])
P("G03", "Interpolating rotations and integrating angular velocity follow the geodesic",
  "Spherical interpolation between two rotations returns the end points at 0 and 1, stays a unit rotation, takes the shorter arc and covers exactly the fraction t of the angle between them, whichever sign either quaternion carries. The angle of a rotation and the angle between two rotations agree with the rotation matrix, and an angular velocity computed from two rotations and a time difference integrates back to the second rotation over that time.",
  ["inputs"], "all ordered pairs of lattice rotations with both signs, all t of a grid, all time steps of a small set",
  "short-arc selection and the small-angle fallback depend on sign combinations and on the exact angle",
  [M+"Quaternion.h", M+"Quaternion.cpp", M+"RotationVelocity.h", M+"Pose.cpp"],
  [("slerp", M+"Quaternion.cpp slerp"), ("angle between rotations", M+"Quaternion.h"), ("velocity integration", M+"RotationVelocity.h"), ("pose interpolation", M+"Pose.cpp linearInterpolate")])
P("G04", "Poses form a group acting on points",
  "Applying a product of poses to a point equals applying the factors right to left; every pose composed with its inverse on either side is the identity; composition is associative and mixed compositions with rotations, vectors and 4x4 matrices agree with homogeneous matrix algebra. Converting a pose to and from a homogeneous matrix or a parameter vector preserves it, and its printed form shows it.",
  ["inputs", "programs"], "all words up to length 3 over a set of generator poses and their inverses applied to all points of a grid",
  "the tests compose a few random poses; order and frame mistakes cancel for pure translations, pure rotations or commuting pairs",
  [M+"Pose.h", M+"Pose.cpp"],
  [("composition, inversion, action", M+"Pose.h"), ("matrix and vector constructors", M+"Pose.cpp")])
P("G05", "Uncertain poses propagate covariance to first order, consistently",
  "The mean of a composed, inverted or transformed uncertain pose is the composition of the means, and its covariance is the first-order propagation of the inputs' covariances under the documented error parametrisation, symmetric and positive semidefinite. Conversions between the additive seven-parameter form and the six-parameter error form round-trip, and inverting twice returns the original mean and covariance.",
  ["inputs", "programs"], "all pairs of lattice poses combined with a set of anisotropic covariances, against a numerically differentiated propagation",
  "covariance formulas are only exercised by tests for the mean; wrong Jacobians are invisible unless rotation, translation and anisotropic covariance interact",
  [M+"ErrorPose.h", M+"ErrorPose.cpp", M+"ErrorVector.h"],
  [("covariance propagation in composition and inversion", M+"ErrorPose.cpp"), ("additive error conversions", M+"ErrorPose.cpp"), ("transform of an uncertain vector", M+"ErrorPose.cpp operator*")])

# ---------------------------------------------------------------- numerics
P("N01", "Linear-algebra building blocks compute the textbook result for every shape",
  "Vector norms, distances, normalisation, interpolation, comparison, inner, outer and cross products, matrix-vector and matrix-matrix products, identities, determinants, inverses and pseudo-inverses of the library equal their textbook definition for fixed- and dynamic-size operands and for every non-degenerate shape, rectangular ones included. Functions applied over ranges process each element exactly once and in order.",
  ["inputs"], "all small-integer vectors and matrices of sizes 1 to 4 (bounded entries), square and rectangular",
  "tests use random square inputs of one size; index-order or shape mistakes only show on rectangular or asymmetric operands",
  [M+"Blas1.h", M+"Blas2.h", M+"Blas3.h", M+"VectorFunctions.h", M+"MatrixOperations.h", M+"Functors/MatrixFunctors.h", M+"Matrix.h", M+"Vector.h"],
  [("BLAS-like functors", M+"Blas1.h Blas2.h Blas3.h"), ("matrix operations", M+"MatrixOperations.h"), ("vector functors", M+"VectorFunctions.h")])
P("N02", "Covariance propagation and Kalman updates equal the textbook formulas",
  "Transforming a Gaussian through a linear function maps mean and covariance exactly, through a nonlinear function by its Jacobian; backward propagation of equal, independent errors inverts forward propagation. A Kalman measurement update yields the textbook posterior mean and covariance, which is symmetric, positive semidefinite and never larger than the prior, and incorporating independent linear measurements in any order gives the same posterior.",
  ["inputs", "histories"], "all combinations of small integer state, covariance and measurement models, and all orders of up to three linear measurements",
  "no test covers these headers; sign, transpose and noise-placement mistakes stay plausible on isotropic inputs",
  [M+"Stochastic/CovarianceTransform.h", M+"Stochastic/Kalman.h", M+"Stochastic/BackwardPropagation.h"],
  [("covariance transform", M+"Stochastic/CovarianceTransform.h"), ("Kalman measurement and time update", M+"Stochastic/Kalman.h"), ("backward propagation", M+"Stochastic/BackwardPropagation.h")])
P("N03", "Averages, Gaussians and distances summarise exactly the samples they were given",
  "The average of a sequence of scalars, vectors, rotations or poses equals the mathematical mean of exactly those samples, independent of their order, of quaternion signs and of whether they arrive one at a time; reported covariances equal the sample covariance. The Mahalanobis distance, the correlation coefficient and a Gaussian estimated from samples equal their definitions.",
  ["inputs", "histories"], "all multisets (all orders) of up to five samples from small domains",
  "off-by-one normalisation and order dependence show only for particular sample counts or orders",
  [M+"Stochastic/Average.h", M+"Stochastic/Gaussian.h", M+"Stochastic/MahalanobisDistance.h", M+"Stochastic/Correlation.h", A+"Correlation.cpp"],
  [("running averages", M+"Stochastic/Average.h"), ("Gaussian estimation", M+"Stochastic/Gaussian.h"), ("Mahalanobis distance", M+"Stochastic/MahalanobisDistance.h"), ("correlation", M+"Stochastic/Correlation.h")])
P("N04", "Clustering assigns every sample to its best cluster and never loses one",
  "k-means terminates for every input and every random initialisation, assigns each sample to a nearest final centre, and every non-empty cluster's centre is, within the stopping tolerance, the mean of its samples while empty clusters keep a finite centre, so the summed distance is never worse than at the start. Expectation maximisation returns mixture weights that sum to one, never decreases the likelihood of the samples, stops only when it has converged, and reports the likelihood of the mixture it returns.",
  ["inputs", "schedules"], "all sample sets of up to seven points on a small grid with all outcomes of the random initial choice",
  "the tests use well-separated clusters; ties, duplicate points, k equal to n and unlucky initial centres are not sampled",
  [M+"Stochastic/k_means.h", M+"Stochastic/expectation_maximization.h"],
  [("k-means", M+"Stochastic/k_means.h"), ("expectation maximisation", M+"Stochastic/expectation_maximization.h")])
P("N05", "Nonlinear least squares never worsens the solution and reports what it returns",
  "Levenberg-Marquardt and Gauss-Newton terminate within their iteration limit, solve linear problems exactly and converge to the minimiser of well-conditioned problems; Levenberg-Marquardt never returns parameters with a larger (weighted) residual than the starting point, and the returned residual is the residual of the returned parameters. Weights and parameter normalisation are honoured, and the robust weights never grow with the error.",
  ["inputs"], "all linear problems with small integer coefficients and a family of nonlinear problems from all starting points of a grid, with and without weights",
  "accept/reject and damping decisions depend on the sequence of residuals; a stale residual or an accepted bad step needs a particular start",
  [M+"Optimization/LevenbergMarquardt.h", M+"Optimization/GaussNewton.h", M+"Optimization/Optimization.h", M+"Optimization/TukeyWeightFunction.h"],
  [("damped step acceptance", M+"Optimization/LevenbergMarquardt.h"), ("undamped step", M+"Optimization/GaussNewton.h")])
P("N06", "RANSAC returns a best-supported model whatever samples the random choice draws",
  "For every sequence of random draws, a reported success carries the model estimated from the inliers of a tried hypothesis: exactly the data within the threshold of it, at least the required minimum and no fewer than those of any hypothesis it tried, and the reported count and inlier flags are those; data outside have no influence. It fails only if no tried sample set reached the minimum, draws distinct samples and stays within the run limit.",
  ["schedules", "inputs"], "every outcome of the random source over all data sets of up to six points with all outlier patterns",
  "results depend on the random draws; tests see one seed",
  [M+"Optimization/Ransac.h", A+"PoseEstimation3D3D/Ransac.h", A+"ToolTip/Ransac.h"],
  [("sampling and best-set selection", M+"Optimization/Ransac.h")])
P("N07", "Assignment solves the minimum-cost matching exactly",
  "For every cost matrix, square or rectangular, the assignment returned is a one-to-one matching of as many rows and columns as possible whose total cost is minimal. The solver always terminates, finds the same total whatever the order of rows and columns, and reports a row or column left over with a partner index beyond the real ones.",
  ["inputs"], "all square and rectangular cost matrices up to 3x3 / 2x4 with entries from a small set, plus all 4x4 matrices over a two-valued alphabet",
  "there is no test; the cover/star/prime steps are only all reached by particular tie patterns",
  [M+"Graph/Munkres.h"], [("Munkres steps", M+"Graph/Munkres.h")])
P("N08", "Conics and quadrics keep their geometry under conversion and projection",
  "Centre, semi-axes, angle, area, eccentricity, extent and horizontal sections of an ellipse read back from its coefficients are those it was built from, for every position, axis ratio (circles included) and orientation; translating, scaling, flipping and inverting a conic carries its points along. A parabola has no centre and the request fails. A quadric's image conic contains exactly the images of its contour, so that spheres and ellipsoids project to conics tangent to the projected outline.",
  ["inputs"], "all ellipses of a grid of centres, axes and angles; all spheres/ellipsoids of a grid in front of a set of cameras",
  "orientation quadrants and axis swaps depend on sign combinations that a single example does not meet",
  [M+"Geometry/Conic.h", M+"Geometry/QuadricFunctors.h"],
  [("conic attributes", M+"Geometry/Conic.h"), ("quadric projection", M+"Geometry/QuadricFunctors.h")])
P("N09", "Transforming, projecting and normalising points agrees with projective geometry",
  "Transforming points of any homogeneous or inhomogeneous dimension with a matrix equals the homogeneous product, and projecting them that product followed by the division, for single points and for whole ranges, which keep order and length. Normalising a point set yields the documented centroid and scale, and the normalising transform reproduces the normalised points and inverts exactly.",
  ["inputs"], "all small-integer points and all matrices of a bounded set for all supported dimensions",
  "many dimension-specialised code paths; a wrong row or missing division shows only for matrices with a non-trivial last row",
  [M+"Geometry/PointTransformation.h", M+"Geometry/PointProjection.h", M+"Geometry/PointNormalization.h"],
  [("point transformation specialisations", M+"Geometry/PointTransformation.h"), ("projection specialisations", M+"Geometry/PointProjection.h"), ("normalisation", M+"Geometry/PointNormalization.h")])
P("N10", "Every analytic Jacobian is the derivative of its function",
  "For every measurement or motion function offered to the estimators, the Jacobian it reports equals the derivative of its value with respect to its parameters at every point of its domain, and evaluating value and Jacobian together gives the same value as evaluating alone.",
  ["inputs"], "all functions, all parameter points of a lattice per function, all partial derivatives",
  "a wrong partial derivative only slows down or biases convergence, so end-to-end tests still pass",
  [A+"Function", A+"NewFunction", "src/utTracking/Function", A+"ToolTip/Optimization.h", A+"PoseEstimation3D3D/Optimization.h"],
  [("evaluateWithJacobian / jacobian members", A+"Function/*.h")])

P("N11", "Random numbers, vectors, rotations and poses follow the requested distribution",
  "Whatever the underlying generator draws, uniform scalars, vectors, matrices and translations lie within their limits, cover them evenly and in every component independently, and a range of one value yields that value; normal numbers are the mean plus the deviation times a standard draw, per component or with the given covariance, also a singular one; random rotations are unit quaternions that cover all rotations evenly.",
  ["inputs"], "all sequences of draws over a level grid, extreme draws included",
  "a draw at the end of the range, or a bias, shows once in many runs",
  ["src/utMath/Random"], [("distribute_uniform / distribute_normal / generators", "src/utMath/Random/*.h")])

# ---------------------------------------------------------------- estimation
P("E01", "Homographies are recovered exactly from exact correspondences",
  "From four or more correspondences in general position generated by any invertible plane-to-plane map, the estimated homography reproduces that map up to scale, however the points are ordered, scaled or shifted; the four-square-corner variant agrees with it. Degenerate input (coincident or collinear points) returns without crashing.",
  ["inputs"], "all homographies of a lattice of rotations, shears, perspectives, scales and offsets, with all 4-subsets of a point set",
  "normalisation and scale mistakes cancel for centred, isotropic point sets",
  [A+"Homography.h", A+"Homography.cpp"], [("DLT", A+"Homography.cpp homographyDLT"), ("square homography", A+"Homography.cpp squareHomography")])
P("E02", "Projections are recovered and decomposed into calibration and pose exactly",
  "From six or more exact 3D-2D correspondences in general position the estimated projection equals the generating one up to scale, and decomposing any projection of a valid camera yields an upper triangular calibration matrix with the library's documented sign convention, a proper rotation and a translation whose product is that projection. Projecting 3D points with the reassembled parts gives the original image points, and the rendering matrices derived from a camera (OpenGL, off-axis, flipped origin) map the viewing volume and image points accordingly.",
  ["inputs"], "all cameras of a lattice of intrinsics, rotations and translations, including negative overall scale",
  "RQ sign fixing and overall scale are only right or wrong for particular sign patterns",
  [A+"Projection.h", A+"Projection.cpp"], [("DLT", A+"Projection.cpp projectionDLT"), ("decomposition", A+"Projection.cpp decomposeProjection"), ("OpenGL projection", A+"Projection.cpp projectionMatrixToOpenGL")])
P("E03", "Two-view and multi-view reconstruction recovers the scene it was given",
  "The fundamental matrix estimated from exact correspondences satisfies the epipolar constraint for every point of the scene and is of rank two; the fundamental matrix computed from two poses does too, and the pose recovered from it puts points in front of both cameras. A 3D point triangulated from two or more exact views is the point itself, whatever the number and order of views. The distance of a point from the epipolar line of another is the same for plane and for homogeneous coordinates of any factor, in single and double precision.",
  ["inputs"], "all relative poses of a lattice, all point sets of a grid in front of the cameras, 2 to 4 views in every order",
  "which of the four pose candidates is right depends on the scene; tests check one random scene",
  [A+"FundamentalMatrix.h", A+"FundamentalMatrix.cpp", A+"3DPointReconstruction.h", A+"3DPointReconstruction.cpp"],
  [("eight-point algorithm, pose candidates", A+"FundamentalMatrix.cpp"), ("triangulation", A+"3DPointReconstruction.cpp")])
P("E04", "Absolute orientation recovers the exact rigid (or similarity) transform",
  "From three or more non-collinear point pairs related by a rotation, translation and optional scale, the estimated rotation, scale and pose are exactly those, for every rotation including half turns, for planar, minimal and coplanar sets, and independent of the order of the pairs. The reported error is zero for exact data and the refined estimate is never worse than the initial one.",
  ["inputs"], "all rotations of a lattice, translations, scales and point configurations (including planar and minimal ones) in all orders",
  "reflection handling and half-turn eigenvector choice depend on the point configuration",
  [A+"PoseEstimation3D3D/AbsoluteOrientation.h", A+"PoseEstimation3D3D/AbsoluteOrientation.cpp", A+"PoseEstimation3D3D/Rotation3D.h", A+"PoseEstimation3D3D/Scale.h", A+"PoseEstimation3D3D/Pose6D.h", A+"PoseEstimation3D3D/Optimization.h"],
  [("Horn rotation", A+"PoseEstimation3D3D/Rotation3D.h"), ("scale", A+"PoseEstimation3D3D/Scale.h"), ("pose", A+"PoseEstimation3D3D/Pose6D.h"), ("refinement", A+"PoseEstimation3D3D/Optimization.h")])
P("E05", "Hand-eye calibration recovers the sensor offset from exact motion",
  "From two or more motions with non-parallel axes, given as relative or absolute poses, every offered hand-eye method returns the exact fixed transform between the two sensors, for every transform including large rotations and zero translation (Tsai-Lenz: other than half turns), and independent of quaternion signs and of the order of the poses. The vector and dual-quaternion representations of a pose hold that pose. Selecting informative motion pairs never changes which transform is consistent with the data and honours the requested limits.",
  ["inputs", "configurations"], "all hand-eye transforms of a lattice with all motion sets of a family, all methods, both input conventions",
  "conventions (left or right, absolute or relative) and sign disambiguation depend on the rotations involved",
  [A+"PoseEstimation6D6D/TsaiLenz.cpp", A+"PoseEstimation6D6D/DualQuaternion.cpp", A+"PoseEstimation6D6D/HandEyeCalibration.h", A+"PoseEstimation6D6D/DataSelection.h", A+"PoseEstimation6D6D/DataSelection.cpp"],
  [("Tsai-Lenz", A+"PoseEstimation6D6D/TsaiLenz.cpp"), ("dual quaternions", A+"PoseEstimation6D6D/DualQuaternion.cpp"), ("pair selection", A+"PoseEstimation6D6D/DataSelection.h")])
P("E06", "Tool-tip calibration finds the fixed point of the motion",
  "From three or more poses of a tool pivoting about a fixed point with varied orientation, the estimated tip offset and world point are exact: every pose maps the offset onto that point. Linear, refined and outlier-robust variants agree on exact data, and the robust variant ignores poses that do not belong to the motion.",
  ["inputs"], "all tip offsets and pivot points of a grid, all rotation sets of a family, all placements of outliers",
  "tests use random well-conditioned motions; swapped outputs or a sign error in one block cancel for special offsets",
  [A+"ToolTip/LeastSquare.h", A+"ToolTip/Optimization.h", A+"ToolTip/Ransac.h", A+"ToolTip/TipCalibration.cpp", A+"ToolTip/ErrorEstimation.h"],
  [("linear solution", A+"ToolTip/LeastSquare.h"), ("refinement", A+"ToolTip/Optimization.h"), ("robust estimation", A+"ToolTip/Ransac.h")])
P("E07", "2D-3D pose estimation recovers the camera pose",
  "From exact projections of a known planar or non-planar target by a known camera (Ubitrack's convention: the camera looks along -z), the estimated pose equals the generating pose (the target in front of the camera), for every orientation within view, distance, point order, position of the target's plane and position of its coordinate origin, and the reported residual is zero. Refining an initial pose never increases the reprojection error, and refining the exact pose leaves it unchanged. Targets of any proportions are accepted; fewer than four points, or a tilted plane whose first three points lie on a line, are refused.",
  ["inputs"], "all camera poses of a lattice in front of planar and non-planar targets, with several intrinsics",
  "pose ambiguity resolution and sign choices depend on the viewing direction",
  [A+"PoseEstimation2D3D/PlanarPoseEstimation.cpp", A+"PoseEstimation2D3D/NonPlanarPoseEstimation.cpp"],
  [("planar pose from homography", A+"PoseEstimation2D3D/PlanarPoseEstimation.cpp"), ("non-planar pose from projection", A+"PoseEstimation2D3D/NonPlanarPoseEstimation.cpp"), ("refinement", A+"PoseEstimation2D3D/PlanarPoseEstimation.cpp optimizePose")])
P("E08", "Multi-camera pose and bundle adjustment use every observation correctly",
  "Given exact observations of known points by several calibrated cameras, in any subset of visible point-camera pairs that determines the pose, the pose is exact; observations of zero weight have no influence, whatever their value. Bundle adjustment started near the solution reproduces every observation, returns proper poses, and never increases the total reprojection error, for exact and for disturbed observations. Local bundles are estimated each from its own points, a bundle without points gets no pose, and lists whose lengths contradict each other are refused.",
  ["inputs", "configurations"], "all visibility patterns of a small rig with all start perturbations of a grid",
  "which camera observes which point is index bookkeeping that one dense test does not stress",
  [A+"MultipleCameraPoseOptimization.cpp", A+"BundleAdjustment.cpp", A+"Function/BundleAdjustment.h"],
  [("multi-camera pose", A+"MultipleCameraPoseOptimization.cpp"), ("bundle adjustment", A+"BundleAdjustment.cpp")])
P("E09", "Lens undistortion inverts lens distortion",
  "Undistorting a distorted image point returns the original point, and vice versa, for all supported lens models and coefficients over the whole image; zero coefficients leave points unchanged, and the principal point is a fixed point. Batch and single-point variants agree, calibration data keep their size and coefficients when constructed, copied or converted, and the opening angles they report are those of the projection.",
  ["inputs", "configurations"], "all coefficient combinations of a grid for all models on all points of an image grid",
  "errors in the higher-order or tangential terms are below typical tolerances except in image corners with particular coefficients",
  [A+"LensDistortion.cpp", A+"CameraLens/Correction.cpp", A+"CameraLens/Correction.h", A+"CameraLens/Distortion.h", A+"CameraLens/Undistortion.h", M+"CameraIntrinsics.h", A+"Function/RadialDistortion.h"],
  [("distortion models", A+"CameraLens/Distortion.h"), ("iterative undistortion", A+"CameraLens/Undistortion.h"), ("camera intrinsics", M+"CameraIntrinsics.h")])

# ---------------------------------------------------------------- tracking
P("T01", "Pose filter follows its measurement history and predicts consistently",
  "For every history of pose, rotation and velocity measurements with non-decreasing time stamps, the filter's state and covariance are those of an extended Kalman filter with the chosen motion model and process noise (zero where none was set): finite, of unit rotation, with a symmetric positive semidefinite covariance, pulled to accurate measurements and indifferent to the sign of a measured quaternion. Predicting a pose, forwards or backwards in time, extrapolates the motion with its uncertainty and does not change the filter; predicting before any measurement is refused.",
  ["histories"], "all measurement histories up to depth 4 over an alphabet of poses, measurement kinds and time steps",
  "no test exists; errors accumulate only over several prediction/update steps and particular time gaps",
  ["src/utTracking/PoseKalmanFilter.h", "src/utTracking/PoseKalmanFilter.cpp", "src/utTracking/LinearPoseMotionModel.h"],
  [("time and measurement update", "src/utTracking/PoseKalmanFilter.cpp")])
P("T02", "Rotation-only filters track every history and predict forwards and backwards",
  "For every history of rotation and angular-velocity measurements the rotation filter yields unit rotations close to accurate measurements, keeps a valid covariance and predicts by constant angular velocity to any time, earlier or later than the last update. A measurement that arrives late is used at its own time. The online rotation hand-eye filters converge to the true rotation from any sequence of exact, sufficiently varied motions, small or large, whatever the signs of their quaternions.",
  ["histories"], "all measurement histories up to depth 4 over a small alphabet of rotations, velocities and time steps; all orders of a motion set",
  "no test exists; time differences of either sign and repeated updates matter only in particular histories",
  ["src/utTracking/RotationOnlyKF.h", "src/utTracking/RotationOnlyKf.cpp", A+"OnlineRotHec.cpp", A+"RotationHecKalmanFilter.cpp"],
  [("rotation filter", "src/utTracking/RotationOnlyKf.cpp"), ("online hand-eye rotation", A+"OnlineRotHec.cpp")])

# ---------------------------------------------------------------- data
P("S01", "Everything written with a serializer reads back equal",
  "For every data type and every supported protocol (binary and text archives, MessagePack, and the simple string form), writing any value or sequence of values of finite numbers and reading it back with the same type yields an equal value, measurement time stamps included; the simple string form keeps six significant digits. Empty lists, rectangular matrices, extreme numbers and readers that held something else before are no exception. A measurement without payload is written as such and reads back as an invalid one.",
  ["inputs", "programs"], "all types x protocols x values from a boundary alphabet, and all sequences of up to three writes into one stream",
  "tests cover square matrices and single random values; layout mistakes need rectangular shapes, several values or empty lists",
  ["src/utSerialization", "src/utUtil/SimpleStringIArchive.h", "src/utUtil/SimpleStringOArchive.h", M+"Vector.h", M+"Matrix.h", M+"Pose.h", M+"ErrorPose.h", M+"CameraIntrinsics.h", "src/utMeasurement/Measurement.h"],
  [("MessagePack adaptors", "src/utSerialization/MsgpackSerializer.h"), ("archive serializers", "src/utSerialization/BoostArchiveSerializer.h"), ("intrusive serialize members", M+"*.h")])
P("S02", "Truncated serialized data is rejected, never misread silently or fatally",
  "Reading from every proper prefix of a valid serialized stream raises an exception rather than returning a value, crashing, hanging or touching memory outside the buffer (only a text stream cut inside its very last number cannot be told from a complete one). MessagePack data of another shape than the target's, and a camera record that claims more coefficients than exist, are refused in the same way.",
  ["crash_points", "fault_sequences"], "every truncation point of every type's stream in every protocol; every pair of stream and target type",
  "each truncation point is a different code path in the reader",
  ["src/utSerialization/MsgpackSerializer.h", "src/utSerialization/BoostArchiveSerializer.h", M+"CameraIntrinsics.h"],
  [("MessagePack adaptors", "src/utSerialization/MsgpackSerializer.h"), ("archive errors", "src/utSerialization/BoostArchiveSerializer.h")])
P("S03", "Calibration files read back what was written and fail cleanly otherwise",
  "A value, measurement or list of values written to a calibration file, in text, binary or drop format, is read back unchanged in the matching format. A missing, empty, truncated or foreign file is reported with the library's own exception and never yields a partial value presented as valid (only a text file cut inside its very last number cannot be told from a complete one); the readers never modify the file, and reading a measurement from text never modifies copies of what the target held before. A file that could not be written completely is reported with the library's own exception too.",
  ["inputs", "crash_points", "fault_sequences"], "all value types and formats; every truncation point of every file; writing stopped after every number of bytes; missing, empty, full and directory places",
  "there is no test; every truncation point is a different failure",
  ["src/utUtil/CalibFile.h"], [("read/write helpers", "src/utUtil/CalibFile.h")])
P("D01", "Measurements keep their time stamp and share or clone their payload correctly",
  "A measurement keeps the time stamp and payload it was built with through copying, assignment, conversion and container storage; copies share the payload, an explicit clone does not, and payload lifetime ends with the last sharer. It is invalid exactly when its time stamp is zero (never set, or invalidated), and prints as such; otherwise it prints its payload and time of day.",
  ["programs", "histories"], "all operation sequences up to depth 4 on three measurement variables, against an ownership model",
  "aliasing and lifetime mistakes need particular operation sequences",
  ["src/utMeasurement/Measurement.h"], [("shared payload, clone, validity", "src/utMeasurement/Measurement.h")])
P("D02", "Time stamps convert and print without losing or misplacing a digit",
  "The long form of a time stamp shows its weekday, month, day, time of day and year in UTC, the short form the local time of day with six zero-padded fractional digits, exactly, for every date and zone; formatting distinguishes distinct times down to the printed precision and preserves order for times of one day. Reading the clock returns the system time in nanoseconds since the epoch, to the microsecond, for every second and fraction.",
  ["inputs"], "all combinations of boundary dates (leap days, year ends), times of day and sub-second parts",
  "padding and rollover mistakes show only for particular fractions such as x.000000001 or 59.999999999",
  ["src/utMeasurement/Timestamp.h", "src/utMeasurement/Timestamp.cpp"], [("formatting and conversion", "src/utMeasurement/Timestamp.cpp")])
P("D03", "Clock synchronisation maps remote times onto local times consistently",
  "After any history of synchronisation events with a constant offset and rate, converting a sensor time yields the local time: exactly for exact clocks, within about twice the jitter otherwise, and a wrong initial rate is learned; converted times increase with sensor time, and neither the origin of either clock nor repeated or late events matter. Each estimate is that of the documented two-state (time and rate) Kalman filter, or of the regression line for the least-squares variant; once a hundred events have been seen a single outlier is ignored while a lasting change of the clock is followed.",
  ["histories"], "all histories up to depth 6 over event spacings and jitter patterns, for several clock offsets and rates",
  "filter gain and initial-phase handling depend on the whole event history",
  ["src/utMeasurement/TimestampSync.h", "src/utMeasurement/TimestampSync.cpp", "src/utMeasurement/TimestampSyncLS.h"],
  [("event filter", "src/utMeasurement/TimestampSync.cpp"), ("least-squares variant", "src/utMeasurement/TimestampSyncLS.h")])
P("D04", "File globbing returns exactly the matching files, in order",
  "For every directory content and pattern, the result is exactly the set of existing files whose whole names match the pattern (plus all directories, when asked for), each once and in sorted order; a path that names a single file yields that file. A non-existing place and an empty result are reported as an error, and the file system is left untouched.",
  ["inputs", "configurations"], "all directory contents over a small name alphabet x all patterns of a bounded set",
  "pattern corner cases interact with directory content; there is no test",
  ["src/utUtil/GlobFiles.cpp", "src/utUtil/GlobFiles.h"], [("pattern matching and listing", "src/utUtil/GlobFiles.cpp")])

P("L09", "Syslog appenders deliver every event once, whole, with facility and severity",
  "An event sent to a syslog appender arrives once, with the appender's name and facility, the severity of its level and its complete formatted text: locally as one call, remotely as datagrams to exactly the configured host and port, none longer than the limit, whose texts add up to the message. The facility is the configured one, in a program or a configuration file, and the user facility if none is given; optional fields that are left out change nothing else in the file. A closed appender sends nothing, can be reopened, and holds no descriptor.",
  ["inputs", "configurations", "histories"], "all priorities, facilities, message lengths around the datagram limit, configuration variants and call sequences to a fixed depth",
  "needs a receiver; no test covers these appenders",
  [L4+"src/SyslogAppender.cpp", L4+"src/RemoteSyslogAppender.cpp", L4+"src/PropertyConfiguratorImpl.cpp", L4+"src/SimpleConfigurator.cpp"], [("_append", L4+"src/*SyslogAppender.cpp"), ("instantiation from files", L4+"src/*Configurator*.cpp")])

# ---------------------------------------------------------------- devices
P("U01", "A serial port has the requested settings and moves bytes unchanged",
  "An opened serial port has the requested speed, bits, parity, stop bits and timeouts and is transparent for every byte in both directions; sending and reading report exactly the bytes that were moved, in order, and a failure is an exception, not a count. Unsupported speeds and unusable devices are refused. A port holds one descriptor while open and none otherwise, whatever fails; it can be closed and reopened any number of times, closing restores the device's settings, and calls on a port that is not open fail without touching another device.",
  ["inputs", "histories", "fault_sequences"], "all settings of a grid, all call and fault sequences to a fixed depth",
  "needs a device and system faults; there is no test",
  ["src/utUtil/SerialPort.cpp", "src/utUtil/SerialPort.h"], [("open / close / send / read / bytesOnRead / flush", "src/utUtil/SerialPort.cpp")])

P("U02", "Timers, sleeping and exceptions report what really happened",
  "A block timer's runs, total and average are exactly those of the blocks measured with it, however they are nested or overlap, and it is reported once, with its name and figures, to its log category when it ends, if it was used. Sleeping lasts at least the requested milliseconds and nanoseconds, for every combination and despite signals, and not noticeably longer. An exception carries its message, file and line through copies and base classes, prints them, and logs them completely.",
  ["programs", "inputs", "fault_sequences"], "all timer programs to a fixed depth, all sleep times x interruption patterns, all exception contents of a grid",
  "needs a controlled clock and interruptions; there is no test",
  ["src/utUtil/BlockTimer.cpp", "src/utUtil/BlockTimer.h", "src/utUtil/OS.cpp", "src/utUtil/Exception.cpp"], [("BlockTimer / sleep / Exception", "src/utUtil")])

# ---------------------------------------------------------------- logging
P("L01", "A log event reaches exactly the appenders its category chain entitles it to",
  "An event logged to a category is delivered iff its level is at least as severe as the category's effective level, which is its own level or that of its nearest ancestor with one set; it is then delivered once to each appender of the category and of each ancestor up to the first non-additive one, with its own message, level and category name. Changing levels, additivity or appenders takes effect for exactly the following events, and asking whether a level is enabled agrees with delivery.",
  ["programs", "histories"], "all configuration-operation sequences up to a depth on a three-level category tree with two appenders, followed by all events",
  "inheritance and additivity depend on combinations of settings along the chain; there is no test",
  [L4+"src/Category.cpp", L4+"src/HierarchyMaintainer.cpp", L4+"include/log4cpp/Category.hh"],
  [("effective level", L4+"src/Category.cpp getChainedPriority"), ("delivery", L4+"src/Category.cpp callAppenders"), ("category tree", L4+"src/HierarchyMaintainer.cpp")])
P("L02", "Appenders live exactly as long as ownership says and are found by name",
  "An appender handed over to a category by pointer is destroyed exactly once, when it is removed from that category or the category goes away; one handed over by reference is never destroyed by the logging system. Adding, removing and looking up appenders by name or pointer behave like a set, for every order of operations; no destroyed appender is found by name or receives an event; and reopening or closing all appenders reaches every living one.",
  ["programs", "histories"], "all operation sequences up to depth 4 over two categories and three appenders, with memory checking",
  "double deletion and dangling references need particular orders of add, remove and shutdown",
  [L4+"src/Category.cpp", L4+"src/Appender.cpp", L4+"src/HierarchyMaintainer.cpp"],
  [("ownership map", L4+"src/Category.cpp"), ("appender registry", L4+"src/Appender.cpp")])
P("L03", "Thresholds and filters decide acceptance in chain order",
  "An appender emits an event iff the event is at least as severe as the appender's threshold and its filter chain does not deny it; the first filter in the chain that accepts or denies decides, neutral filters pass on, and an undecided chain accepts. The queue appender keeps exactly the accepted events in order and hands them out once each.",
  ["programs", "inputs"], "all filter chains up to length 3 over accept/deny/neutral behaviours x all thresholds x all event levels",
  "chain order only matters for particular combinations",
  [L4+"src/AppenderSkeleton.cpp", L4+"src/Filter.cpp", L4+"src/StringQueueAppender.cpp"],
  [("threshold and filter", L4+"src/AppenderSkeleton.cpp doAppend"), ("filter chain", L4+"src/Filter.cpp decide"), ("queue appender", L4+"src/StringQueueAppender.cpp")])
P("L04", "The nested diagnostic context is a per-thread stack",
  "Pushing, popping, peeking, clearing, cloning and inheriting contexts behave like a stack of strings private to the thread: reading the context gives all pushed elements joined in order, popping returns the innermost, popping an empty context returns an empty string, and depth counts the elements. A logged event carries the context at the moment of logging.",
  ["programs", "schedules"], "all operation sequences up to depth 6 against a list model, and interleavings of two threads",
  "needs sequences of pushes and pops, empty contexts and thread switches",
  [L4+"src/NDC.cpp", L4+"include/log4cpp/NDC.hh"], [("context stack", L4+"src/NDC.cpp")])
P("L05", "Layouts render every event field exactly as their pattern says",
  "For every conversion pattern and event, the pattern layout's output is the literal text with each conversion replaced by the event's field, honouring minimum width, left adjustment, maximum width, category precision and date format, and a malformed pattern is refused and leaves the layout usable. The basic and simple layouts render the documented line, and formatting printf-style messages of any length is exact.",
  ["inputs", "programs"], "all patterns up to a bounded number of elements over the conversion alphabet x an event set; all message lengths around the internal buffer size",
  "combinations of modifiers and conversions are too many for examples",
  [L4+"src/PatternLayout.cpp", L4+"src/BasicLayout.cpp", L4+"src/SimpleLayout.cpp", L4+"src/StringUtil.cpp", L4+"src/Priority.cpp"],
  [("pattern parser and components", L4+"src/PatternLayout.cpp"), ("printf formatting", L4+"src/StringUtil.cpp"), ("level names", L4+"src/Priority.cpp")])
P("L06", "Configuration files build the hierarchy they describe or are refused",
  "After loading a property or simple configuration file, every category's level, additivity and appenders and every appender's layout, threshold and target are exactly those the file describes, whatever the order of its lines (a variable is defined before its use), their length, blank lines, comments, white space and variable references. A file that cannot be read or names unknown items raises the configuration exception.",
  ["inputs", "configurations"], "all files over a bounded grammar of entries, in all orders, with all single-entry mutations",
  "ordering and formatting variants multiply; there is no test",
  [L4+"src/PropertyConfigurator.cpp", L4+"src/PropertyConfiguratorImpl.cpp", L4+"src/Properties.cpp", L4+"src/SimpleConfigurator.cpp", L4+"src/StringUtil.cpp", "src/utUtil/Logging.cpp"],
  [("property parsing", L4+"src/Properties.cpp"), ("category and appender configuration", L4+"src/PropertyConfiguratorImpl.cpp"), ("simple format", L4+"src/SimpleConfigurator.cpp")])
P("L07", "File appenders keep every line; rolling keeps the newest backups in order",
  "A file appender's file contains exactly the formatted events in order, appended to or replacing earlier content as configured and continuing across reopening. When the size limit is exceeded the rolling appender moves to a fresh file so that the current file and its numbered backups, read oldest to newest, are exactly the latest suffix of all events with no line lost, duplicated or split within the kept window, and never more backups than configured. Short or interrupted writes lose nothing.",
  ["histories", "fault_sequences"], "all sequences of message sizes, reopen and restart events up to a depth, all limits and backup counts of a small set, including short writes",
  "rolling depends on the exact byte count at each event and on files left by earlier runs",
  [L4+"src/FileAppender.cpp", L4+"src/RollingFileAppender.cpp", L4+"src/OstreamAppender.cpp"],
  [("append and reopen", L4+"src/FileAppender.cpp"), ("rollover", L4+"src/RollingFileAppender.cpp rollOver")])
P("L08", "Logging from several threads is atomic and free of deadlock and races",
  "When several threads log, configure categories and appenders, look things up or shut down concurrently, every event is delivered whole, at most once, with its own text, context and thread name, to appenders that each category of its chain had at some moment during the call; events of one thread stay in order; no appender attached to one category is used by two threads at once or after its destruction; no shared data is accessed unsynchronised; no thread blocks forever. The final configuration, effective levels included, and all query results are those of some order of the calls.",
  ["schedules"], "all interleavings up to a preemption bound of all small programs of two and three threads over 23 operations",
  "schedules are not controlled by tests",
  [L4+"src/Category.cpp", L4+"src/HierarchyMaintainer.cpp", L4+"src/Appender.cpp", L4+"include/log4cpp/threading/PThreads.hh"],
  [("category appender mutex", L4+"src/Category.cpp"), ("hierarchy mutex", L4+"src/HierarchyMaintainer.cpp"), ("appender registry mutex", L4+"src/Appender.cpp")])

# ---------------------------------------------------------------- XML
P("X01", "XML documents survive printing and parsing unchanged",
  "Printing any document tree of elements, attributes, text, CDATA, comments and declarations and parsing the result yields an equal tree, and printing that again yields identical text; every character that needs escaping, in text or attribute values, is escaped and restored, including numeric character references (text that itself spells a hexadecimal reference is documented to pass through, and white space in text is condensed unless switched off). Parsing from memory, from a stream and from a file agree; saving to a file succeeds only if the whole text reached the file.",
  ["inputs", "programs"], "all documents up to a bounded size over an alphabet of node kinds, names and special characters, and a disk that fills up after every number of bytes",
  "escaping interacts with quotes, white space and neighbours; there is no test in this repository",
  ["3rd/tinyxml/tinyxml.cpp", "3rd/tinyxml/tinyxmlparser.cpp"],
  [("printing", "3rd/tinyxml/tinyxml.cpp"), ("parsing and entities", "3rd/tinyxml/tinyxmlparser.cpp")])
P("X02", "Malformed or truncated XML never crashes the parser and is reported",
  "For every prefix and every single-character deletion, insertion or replacement of a valid document, parsing ends without touching memory outside the input, and either succeeds or reports an error with a description and, where known, a position; a truncated document whose root element is not closed is always reported as an error. Every parsed node knows the row and column where it starts, with line ends of either kind, tab stops and multi-byte characters counted. A failed parse leaves the document usable for the next one.",
  ["inputs", "fault_sequences"], "all short strings over the markup alphabet up to a length, all prefixes and single-character edits of a document set, and all positions behind up to 4 line ends, tabs and characters",
  "each malformed spot is its own parser path",
  ["3rd/tinyxml/tinyxmlparser.cpp"], [("parser state functions", "3rd/tinyxml/tinyxmlparser.cpp"), ("error reporting", "3rd/tinyxml/tinyxmlparser.cpp TiXmlDocument::SetError")])
P("X03", "Editing an XML tree behaves like editing an ordered tree",
  "Inserting, replacing, removing and copying nodes and setting, reading and removing attributes keep parent, child, sibling and document links consistent and equal to the same edits on an ordered-tree model, for every edit sequence. Typed attribute and text queries return the value written (doubles to six decimals), or report absence or wrong type without changing the output; removed nodes are freed exactly once.",
  ["programs", "histories"], "all edit sequences up to depth 4 on a small tree, with memory checking",
  "link corruption needs particular edit orders such as removing first or last children",
  ["3rd/tinyxml/tinyxml.cpp", "3rd/tinyxml/tinyxml.h"], [("node links", "3rd/tinyxml/tinyxml.cpp TiXmlNode"), ("attribute set", "3rd/tinyxml/tinyxml.cpp TiXmlAttributeSet"), ("handles and queries", "3rd/tinyxml/tinyxml.h")])

from checks import register
register(C)

def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 setup.py_check", checks=[], not_applicable=[])
    m["setup_cmd"] = "bash setup.sh"
    for p in PROPS:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                thorough_cmd="python3 run.py %s --tier thorough" % i, technique=c["technique"], level=c["level"], level_note=c["level_note"]))
        else:
            m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check under construction")))
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    design()
    print(len(PROPS), "properties,", len(m["checks"]), "checks")

def design():
    """the per-property part of DESIGN.md, between the two markers"""
    f = os.path.join(VERIF, "DESIGN.md")
    t = open(f).read()
    a, b = "<!-- properties -->\n", "<!-- /properties -->\n"
    if a not in t:
        return
    o = []
    for p in PROPS:
        c = CHECKS.get(p["id"])
        o.append("### %s - %s\n" % (p["id"], p["title"]))
        o.append("*Specified:* %s\n" % p["statement"])
        if not c:
            o.append("*Not claimed:* %s\n" % NA.get(p["id"], "check under construction"))
            continue
        o.append("*Decided by:* %s (%s, %s).\n" % (c["technique"], c["level"], ", ".join("harness/" + u["src"] for u in c["units"])))
        o.append("*Enumerated:* %s.\n" % c["rule"])
        o.append("*Bounds:* quick - %s; thorough - %s.\n" % (c["bounds"]["quick"], c["bounds"]["thorough"]))
        o.append("*Limits:* %s.\n" % c["level_note"])
        o.append("*Beyond the tests:* %s.\n" % p["why_tests_cant"])
    i, j = t.index(a) + len(a), t.index(b)
    open(f, "w").write(t[:i] + "\n" + "\n".join(o) + "\n" + t[j:])

NA = {}
if __name__ == "__main__":
    main()
