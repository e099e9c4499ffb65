DEFAULT_NOTE = ("Bounded random search: no counterexample among the generated cases (count, rule and samples in the evidence). "
                "Trusts the compiler, Eigen, boost and the reference formulas in the harness.")
ORACLE, NOTE = {}, {}

P("K01", "Rotation parameterizations describe one rotation and convert without loss",
  "Every rotation parameterization (three Euler conventions, rotation vector, Euler-Rodriguez, unit quaternion, axis-angle) maps any parameter value to a proper orthonormal rotation that agrees with the documented sign and order convention, and converting a rotation to parameters and back gives the same rotation, including at the identity, at half turns and for negative angles. Quaternion products, inverses, logarithms, exponentials, interpolation and their Jacobians agree with composition of those rotations. Aligning two vectors and wrapping angles return the rotation or angle they promise.",
  ["inputs"], "all parameter vectors and rotations, including zero and near-zero angles, half turns, negative angles and angles beyond one turn",
  "Tests sample a few random rotations of moderate size; series switch-overs, half turns, negative angles and sign conventions live on measure-zero or tiny sets that they do not visit.",
  [KIN + "src/rotations.cpp", KIN + "src/quaternion_algebra.cpp", KIN + "src/RotationVector.cpp", KIN + "src/EulerRodriguez.cpp", KIN + "src/EulerAnglesYawPitchRoll.cpp", KIN + "src/EulerAnglesZXY.cpp", KIN + "src/EulerAnglesZYX.cpp"],
  [("quaternion algebra", KIN + "src/quaternion_algebra.cpp"), ("axis-angle and matrix conversions", KIN + "src/rotations.cpp")],
  ["RotationalKinematics::parametersToRotationMatrix / rotationMatrixToParameters", "quat2r, r2quat, qplus, qlog, qexp"])
ORACLE["K01"] = "matrix exponentials, composition and round trips"

P("K02", "Angular velocity and acceleration follow the rotation's parameter rates",
  "For every rotation parameterization, the matrix that maps parameter rates to angular velocity equals what differentiating the rotation matrix in time gives, its inverse inverts it where it exists, and the Jacobians of angular velocity and acceleration equal the numerical derivatives. All parameterizations of one rotational motion report the same angular velocity.",
  ["inputs"], "all parameter values away from a parameterization's singularity, all rates and second derivatives, including the identity and very small rotations",
  "Tests use a handful of random parameter vectors; wrong signs or missing terms that vanish for those, and the small-angle branches, are not reached.",
  [KIN + "src/RotationVector.cpp", KIN + "src/EulerRodriguez.cpp", KIN + "src/EulerAnglesYawPitchRoll.cpp", KIN + "src/EulerAnglesZXY.cpp", KIN + "src/EulerAnglesZYX.cpp"],
  [("parametersToSMatrix and derivatives", KIN + "src/RotationVector.cpp")], ["RotationalKinematics::parametersToSMatrix, angularVelocityAndJacobian"])
ORACLE["K02"] = "numerical differentiation of the rotation matrix"

P("K03", "Rigid transformations form a group and carry their uncertainty correctly",
  "Composing, inverting, interpolating and perturbing rigid transformations agrees with the same operations on 4x4 matrices, and transforming points, homogeneous points and directions agrees with matrix multiplication. Covariances attached to transformations and points propagate to first order exactly as the Jacobians of those operations say. Conversions between Euclidean and homogeneous points keep the point.",
  ["inputs", "histories"], "all transformations, points (also at infinity and with negative scale) and positive semidefinite covariances, and chains of compositions, inversions and updates",
  "Tests check a few random instances of single operations, and compare covariances only in places.",
  [KIN + "src/Transformation.cpp", KIN + "src/UncertainTransformation.cpp", KIN + "src/HomogeneousPoint.cpp", KIN + "src/UncertainHomogeneousPoint.cpp", KIN + "src/transformations.cpp", KIN + "src/homogeneous_coordinates.cpp"],
  [("group operations", KIN + "src/Transformation.cpp"), ("covariance propagation", KIN + "src/UncertainTransformation.cpp")], ["Transformation operators", "UncertainTransformation::U"])
ORACLE["K03"] = "4x4 matrix algebra and numerical Jacobians"

P("C01", "Camera projection and back-projection are inverse and match the camera model",
  "For every camera model (pinhole, omnidirectional, extended unified, double sphere) with every lens distortion and shutter, projecting a point gives the pixel the published model equations give, and every variant of the projection (Euclidean, homogeneous, with or without Jacobian) agrees on pixel and validity. Back-projecting a pixel gives a ray that projects to that pixel again, and projecting a ray back gives the ray's direction. A projection is reported valid exactly when the point lies in the model's domain, the pixel lies inside the image and the mask allows it.",
  ["inputs", "configurations"], "all intrinsics and distortion coefficients in their usable range, all points and pixels in and outside the field of view, at the image border, on the optical axis and behind the camera",
  "Tests use one default set of parameters per camera and random points inside the image; unequal focal lengths, borders, wide angles, the optical axis, negative scale and masks are not covered.",
  [CAM + "include/aslam_cameras/cameras/implementation/PinholeProjection.hpp", CAM + "include/aslam_cameras/cameras/implementation/OmniProjection.hpp", CAM + "include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp", CAM + "include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp", CAM + "include/aslam_cameras/cameras/CameraGeometry.hpp"],
  [("projection models", CAM + "include/aslam_cameras/cameras/implementation"), ("validity", CAM + "include/aslam_cameras/cameras/implementation/CameraGeometry.hpp")], ["CameraGeometryBase::vsEuclideanToKeypoint and relatives", "projection templates"])
ORACLE["C01"] = "independent reference camera models and round trips"

P("C02", "Camera Jacobians are the derivatives of the projections",
  "Every Jacobian a camera returns equals the numerical derivative of the function it belongs to: of the pixel with respect to the Euclidean and the homogeneous point, of the back-projected ray with respect to the pixel, and of the pixel with respect to the projection, distortion and shutter parameters, for every combination of parameter groups requested. The Jacobian-returning call gives the same value and validity as the plain one.",
  ["inputs", "configurations"], "all camera, distortion and shutter combinations, parameters in their usable range, points in the field of view including negative homogeneous scale",
  "Tests use one default parameter set per model and mostly equal focal lengths, so transposed or mis-ordered factors and missing blocks stay invisible.",
  [CAM + "include/aslam_cameras/cameras/implementation", CAM + "src/RadialTangentialDistortion.cpp", CAM + "src/EquidistantDistortion.cpp", CAM + "src/FovDistortion.cpp"],
  [("analytic Jacobians", CAM + "include/aslam_cameras/cameras/implementation")], ["vsEuclideanToKeypoint with Jacobian", "euclideanToKeypointIntrinsicsJacobian, ...DistortionJacobian"])
ORACLE["C02"] = "Ridders-extrapolated numerical derivatives"

P("C03", "Camera parameters survive update, get/set, resize, configuration and storage",
  "Reading a camera's parameters returns what was set, an additive update adds exactly the step to the parameters it names and to no others, and the projection uses the new values at once. Storing a camera to any archive or building it from a configuration tree gives a camera that behaves identically, and resizing the image scales projected pixels accordingly. The reported number of parameters is the number that is read, updated and differentiated.",
  ["histories", "configurations"], "all sequences of set, update, resize and store/load over every camera, distortion and shutter combination",
  "Tests call single setters with one value; orders of parameters, cached derived values and combinations of groups need sequences of operations and distinct values.",
  [CAM + "include/aslam_cameras/cameras/CameraGeometry.hpp", CAM + "include/aslam_cameras/cameras/implementation/CameraGeometry.hpp", CAM + "src/CameraGeometryBase.cpp", CAM + "src/FovDistortion.cpp"],
  [("update and parameter access", CAM + "include/aslam_cameras/cameras/implementation/CameraGeometry.hpp"), ("property tree construction", CAM + "include/aslam_cameras/cameras/implementation/PinholeProjection.hpp")],
  ["getParameters / setParameters / update / minimalDimensions", "serialization", "PropertyTree constructors"],
  [("cached derived intrinsics", "values recomputed when parameters change", CAM + "include/aslam_cameras/cameras/OmniProjection.hpp")])
ORACLE["C03"] = "a model of the parameter vector kept over operation histories"

P("C04", "Lens distortion and undistortion invert each other and match the model",
  "Distorting a normalized image point follows the published radial-tangential, equidistant or field-of-view formula, and undistorting a distorted point gives the original point back within the region where the lens model is invertible. The Jacobians of both directions and with respect to the coefficients equal the numerical derivatives and are finite, also on the optical axis. Coefficients read back as set.",
  ["inputs"], "all coefficient vectors in their usable range and all normalized points inside the invertible region, including the optical axis",
  "Tests use one coefficient vector and a few points, so convergence of the inverse, the centre and extreme coefficients are not exercised.",
  [CAM + "src/RadialTangentialDistortion.cpp", CAM + "src/EquidistantDistortion.cpp", CAM + "src/FovDistortion.cpp", CAM + "include/aslam_cameras/cameras/implementation/RadialTangentialDistortion.hpp", CAM + "include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp", CAM + "include/aslam_cameras/cameras/implementation/FovDistortion.hpp"],
  [("distortion models", CAM + "include/aslam_cameras/cameras/implementation")], ["distort, undistort, distortParameterJacobian"])
ORACLE["C04"] = "reference formulas, round trips and numerical derivatives"

P("C05", "Calibration targets, observations, masks and shutters report consistent geometry",
  "A calibration target places every corner at the position its row, column and spacings give, maps between point index and grid coordinates one to one, and lists its corners in that order. A target observation returns exactly the corners that were added and not removed, with matching indices, image points and target points. A mask allows exactly the pixels its image marks, at the right scale, and a shutter maps each pixel row to its documented capture-time offset.",
  ["inputs", "histories"], "all grid sizes and spacings, all sequences of adding, updating and removing observed corners, all masks and rolling-shutter line delays",
  "Tests build one small square grid and one observation; non-square grids and histories of updates and removals are not covered.",
  [CAM + "src/GridCalibrationTargetBase.cpp", CAM + "src/GridCalibrationTargetCheckerboard.cpp", CAM + "src/GridCalibrationTargetCirclegrid.cpp", CAM + "src/GridCalibrationTargetObservation.cpp", CV + "aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp", CAM + "src/ImageMask.cpp", CAM + "src/RollingShutter.cpp"],
  [("grid geometry", CAM + "src/GridCalibrationTargetBase.cpp"), ("observations", CAM + "src/GridCalibrationTargetObservation.cpp")], ["GridCalibrationTargetBase", "GridCalibrationTargetObservation", "ImageMask", "RollingShutter"])
ORACLE["C05"] = "a reference model of the grid and of the observation history"

P("C06", "Pose estimation and intrinsics initialization recover the simulated camera",
  "From corners of a known target projected without noise through any camera, in any subset that determines it, the estimated target pose equals the true one, and the reprojection error computed for a pose is the sum over the corners that project. Initialized intrinsics place the centre in the middle of the image, drop the distortion and take the focal length that the target's rows determine, exactly so for views that follow the model the initialization assumes. When there are too few corners, or all lie on one line, the call reports failure instead of a wrong result.",
  ["inputs", "configurations"], "all camera models, target grids (also non-square), poses in front of the camera and subsets of visible corners",
  "Tests use one square target and one pose per model.",
  [CAM + "include/aslam_cameras/cameras/implementation/PinholeProjection.hpp", CAM + "include/aslam_cameras/cameras/implementation/OmniProjection.hpp", CAM + "include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp", CAM + "include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp"],
  [("estimateTransformation, initializeIntrinsics", CAM + "include/aslam_cameras/cameras/implementation")], ["CameraGeometryBase::estimateTransformation, initializeIntrinsics, computeReprojectionError"])
ORACLE["C06"] = "noise-free simulation with a known answer"

P("C07", "Undistorted images and points agree with the ideal camera",
  "The undistorter's maps send each pixel of the ideal output camera to the pixel of the distorted camera that sees the same ray. The camera it reports for the output image has no distortion and the size it was asked for, with zoom 0 it shows valid pixels only, with zoom 1 all of the source, and the frames built from an image carry the undistorted image and that camera. The overlap of two cameras' fields of view marks exactly the pixels whose ray at one of the given distances the other camera sees.",
  ["inputs", "configurations"], "all pinhole and omnidirectional intrinsics, distortions, output scales and zooms",
  "Tests use a single camera and check little more than construction.",
  [CV + "aslam_imgproc/include/aslam_imgproc/implementation", CV + "aslam_imgproc/src/UndistorterBase.cpp"],
  [("map construction", CV + "aslam_imgproc/include/aslam_imgproc/implementation")], ["PinholeUndistorter, OmniUndistorter, NullUndistorter, createUndistorter, calculateOverlappingFOV"])
ORACLE["C07"] = "re-projection of rays through both cameras"

P("C08", "Frames, keypoints and landmarks keep what was put in, and rays triangulate",
  "Keypoints added to a frame come back in order with the measurement, scale, covariance, landmark and back-projection they were given, and copying, storing or clearing a frame affects all of them alike. The uncertain ray reported for a keypoint is the camera's back-projection with the first-order propagated covariance, and triangulating noise-free rays gives the landmark. The reprojection error of a point is the squared distance to the measurement weighted by its inverse covariance, plus the point's own projected covariance where it has one.",
  ["histories", "inputs"], "all sequences of adding, editing, copying and storing keypoints over several cameras, and all ray configurations with parallax",
  "Tests check single setters of one keypoint.",
  [CAM + "src/FrameBase.cpp", CAM + "src/KeypointBase.cpp", CAM + "src/Landmark.cpp", CAM + "src/BackProjection.cpp", CAM + "src/MaskedCameraGeometry.cpp", CAM + "src/Triangulation.cpp"],
  [("frame storage", CAM + "include/aslam_cameras/implementation/Frame.hpp"), ("triangulation", CAM + "src/Triangulation.cpp")], ["Frame, Keypoint, Landmark, triangulation functions"])
ORACLE["C08"] = "a reference model of the stored data"

P("T01", "Time and duration arithmetic is exact, normalized and ordered",
  "Times and durations built from seconds, nanoseconds or floating point keep their value to the representable resolution, with the nanosecond part always normalized, also for negative durations. Adding and subtracting durations is exact and invertible, comparison agrees with the numerical order, and sleep and conversion functions keep the value. A value that cannot be represented is reported rather than wrapped.",
  ["inputs"], "all 32- and 64-bit second and nanosecond values, including negative durations, carries and the limits of the range",
  "Tests use a few hand-picked values; carries, negative fractions and range limits need systematic inputs.",
  [CV + "aslam_time/src/time.cpp", CV + "aslam_time/src/duration.cpp", CV + "aslam_time/include/aslam_time/implementation/Time.hpp", CV + "aslam_time/include/aslam_time/implementation/Duration.hpp"],
  [("normalization", CV + "aslam_time/src/time.cpp")], ["aslam::Time, aslam::Duration"])
ORACLE["T01"] = "arbitrary-precision integer arithmetic"

P("T02", "Clock correction never lies outside the observed delay envelope",
  "For measurements arriving in order of device time, the timestamp corrector's estimate is the tightest linear lower bound of the observed delays: a corrected time is never later than the time the message was received, matches the exact clock relation when there is no jitter, and does not depend on how much history is kept beyond the envelope. Clock slope and offset follow from the envelope.",
  ["histories"], "all monotone sequences of device times with arbitrary positive jitter, clock drift and offset",
  "Tests feed a few sequences with one jitter model; the convex-hull bookkeeping depends on the whole history.",
  [SM + "sm_timing/include/sm_timing/TimestampCorrector.hpp", SM + "sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp"],
  [("convex hull of delays", SM + "sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp")], ["TimestampCorrector::correctTimestamp, getLocalTime, slope, offset"])
ORACLE["T02"] = "an independently computed convex hull"

P("S01", "B-spline values, derivatives, Jacobians and integrals match the definition",
  "Evaluating a B-spline or any of its derivatives anywhere in its valid interval equals the Cox-de Boor definition for its knots and coefficients, with the right continuity at the knots and the end of the interval included. Jacobians with respect to coefficients equal the numerical derivatives and name the coefficients that matter, and integrals and quadratic smoothness costs equal the integrals of the evaluated curve. Evaluating outside the valid interval is refused.",
  ["inputs"], "all spline orders, dimensions, non-uniform knot sequences, coefficients, derivative orders and times including knots and both ends",
  "Tests use mostly uniform knots and small orders at sampled times.",
  [NP + "aslam_bsplines/src/BSpline.cpp", NP + "aslam_bsplines/include/aslam_bsplines/BSpline.hpp"],
  [("basis matrices and evaluation", NP + "aslam_bsplines/src/BSpline.cpp")], ["BSpline::eval, evalD, evalDAndJacobian, evalI, curveQuadraticIntegral"])
ORACLE["S01"] = "Cox-de Boor recursion and numerical quadrature"

P("S02", "Building, extending and trimming B-splines keeps the curve that was asked for",
  "A spline initialized from samples interpolates or approximates them as documented, and adding a segment leaves the existing part of the curve unchanged while reaching the requested point or velocity. Removing a segment or changing coefficients changes only the affected part. Invalid knot sequences and coefficient sizes are refused and leave the spline as it was.",
  ["histories"], "all sequences of initializing, adding, removing and editing segments over spline orders and dimensions",
  "Tests perform one operation each on small uniform splines; interactions need histories.",
  [NP + "aslam_bsplines/src/BSpline.cpp", NP + "aslam_bsplines/src/BSplinePose.cpp"],
  [("initialization and segment editing", NP + "aslam_bsplines/src/BSpline.cpp")], ["BSpline::initSpline*, addCurveSegment*, removeCurveSegment, setCoefficient*"])
ORACLE["S02"] = "a reference curve kept over operation histories"

P("S03", "Pose splines give a consistent position, orientation and rates",
  "A pose spline's transformation, position and orientation agree with each other and with the curve it was initialized from. Velocity, acceleration and angular rates equal the time derivatives of position and orientation, in the frame they are documented in. All Jacobians with respect to the curve's coefficients equal the numerical derivatives.",
  ["inputs"], "all spline orders, rotation parameterizations, trajectories and times in the valid interval",
  "Tests check values at sampled times for one parameterization.",
  [NP + "aslam_bsplines/src/BSplinePose.cpp"],
  [("pose and rates", NP + "aslam_bsplines/src/BSplinePose.cpp")], ["BSplinePose::transformation, linearVelocity, angularVelocity, ...AndJacobian"])
ORACLE["S03"] = "numerical differentiation in time and in the coefficients"

P("S04", "Spline-based expressions evaluate and differentiate like the spline",
  "Position, orientation, velocity, acceleration and angular rate expressions taken from a spline design variable evaluate to the spline's own values, at fixed times and at times that are themselves being estimated. Their Jacobians with respect to every active control point and the time offset equal the numerical derivatives. Motion-model error terms equal the integral of the squared weighted derivative of the curve.",
  ["inputs", "configurations"], "all spline orders, control points, times, time offsets inside the allowed window and activation patterns of the control points",
  "Tests check Jacobians for a single curve and time; frame and ordering mistakes that vanish there remain.",
  [NP + "aslam_splines/src/BSplineExpressions.cpp", NP + "aslam_splines/src/BSplinePoseDesignVariable.cpp", NP + "aslam_splines/include/aslam_splines/implementation"],
  [("expression nodes", NP + "aslam_splines/src/BSplineExpressions.cpp")], ["BSplinePoseDesignVariable, EuclideanBSplineDesignVariable, BSplineMotionError"])
ORACLE["S04"] = "the spline's own evaluation and numerical derivatives"

P("B01", "Estimation expressions evaluate correctly with exact Jacobians",
  "Any expression built by composing scalars, vectors, rotations, transformations, matrices and homogeneous points evaluates to the same value as direct matrix arithmetic on the current design variable values. Its Jacobian with respect to every active design variable equals the numerical derivative under that variable's update rule, also when a variable occurs several times, and inactive variables get none. The set of design variables an expression reports is exactly the set it depends on.",
  ["programs", "inputs"], "all finite compositions of the expression operators over shared design variables, at arbitrary values",
  "Tests check one fixed expression per operator; compositions, sharing of variables and activity patterns are unbounded.",
  [OPT + "aslam_backend_expressions/src", OPT + "aslam_backend/src/JacobianContainer.cpp", OPT + "aslam_backend/include/aslam_backend/backend/implementation"],
  [("chain rule through JacobianContainer", OPT + "aslam_backend_expressions/src"), ], ["evaluate / toEuclidean / toRotationMatrix, evaluateJacobians, getDesignVariables"])
ORACLE["B01"] = "random expression trees evaluated directly and differentiated numerically"

P("B02", "Design variables apply, revert and report their values exactly",
  "Applying a step to a design variable changes its value by its documented update rule scaled as configured, keeps the value valid (unit norm, orthonormal), and reverting restores the previous value exactly, however many updates came before. Parameters set are the parameters read back, and the minimal difference between a value and a reference is the step that leads from one to the other. Activation, marginalization flags, scaling and block indices are independent per variable.",
  ["histories"], "all design variable types and sequences of set, update, revert and scaling changes",
  "Tests perform a single update and revert.",
  [OPT + "aslam_backend/src/DesignVariable.cpp", OPT + "aslam_backend_expressions/src/RotationQuaternion.cpp", OPT + "aslam_backend_expressions/src/EuclideanPoint.cpp", OPT + "aslam_backend_expressions/src/HomogeneousPoint.cpp", OPT + "aslam_backend_expressions/src/Scalar.cpp"],
  [("update and revert", OPT + "aslam_backend/src/DesignVariable.cpp")], ["DesignVariable::update, revertUpdate, getParameters, minimalDifference"])
ORACLE["B02"] = "a model of each variable over operation histories"

P("B03", "Error terms give the right cost, robust weight, gradient and Hessian",
  "An error term's squared error is its weighted residual norm with the robust weight of its M-estimator, and the M-estimators follow their published weight functions. The Hessian block and gradient an error term contributes equal the ones formed from its numerically differentiated, weighted residual. Containers of error terms and design variables keep exactly what was added and not removed.",
  ["inputs", "histories"], "all residual dimensions, information matrices, M-estimators and parameters, activity patterns and design variable values",
  "Tests use one error term type with identity weights.",
  [OPT + "aslam_backend/src/ErrorTerm.cpp", OPT + "aslam_backend/src/MEstimatorPolicies.cpp", OPT + "aslam_backend/include/aslam_backend/backend/implementation/ErrorTerm.hpp", OPT + "aslam_backend/src/OptimizationProblem.cpp"],
  [("weighting and Hessian assembly", OPT + "aslam_backend/include/aslam_backend/backend/implementation/ErrorTerm.hpp")], ["ErrorTerm::evaluateError, buildHessian, getWeightedJacobians; MEstimator::getWeight"])
ORACLE["B03"] = "published formulas and numerical derivatives"

P("B04", "Every linear system solver solves the same normal equations",
  "For any set of error terms and active design variables, the sparse and dense QR and Cholesky solvers assemble the same Jacobian, right-hand side and Hessian as a dense reference, and all return the step that solves the (regularized) least squares problem. Marginal covariances equal the corresponding blocks of the dense inverse. The result does not depend on the number of threads, and a singular system is reported as such.",
  ["inputs", "configurations", "schedules"], "all problem structures, sizes, activity patterns, conditioning values, thread counts and sequences of rebuilds",
  "Tests solve a few fixed random systems with one thread.",
  [OPT + "aslam_backend/src/LinearSystemSolver.cpp", OPT + "aslam_backend/src/SparseQrLinearSystemSolver.cpp", OPT + "aslam_backend/src/SparseCholeskyLinearSystemSolver.cpp", OPT + "aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp", OPT + "aslam_backend/src/DenseQrLinearSystemSolver.cpp", OPT + "aslam_backend/include/aslam_backend/backend/CompressedColumnJacobianTransposeBuilder.hpp"],
  [("system assembly", OPT + "aslam_backend/src/LinearSystemSolver.cpp")], ["LinearSystemSolver::evaluateError, buildSystem, solveSystem"])
ORACLE["B04"] = "a dense normal-equation reference"

P("B05", "Optimizers decrease the cost and stop at a minimum they report truthfully",
  "The trust-region policies that reject steps (Levenberg-Marquardt, dog leg) never end with a higher cost than they started with, and a rejected or failed step leaves every design variable where it was before that step. On well-posed problems without robust kernels that converge before the iteration limit, every policy and solver ends where the gradient vanishes, and linear problems are solved to the exact least squares solution. The returned summary (initial and final cost, iterations, failed iterations) describes the state the optimizer ends in, and inactive variables never move.",
  ["inputs", "configurations"], "all least squares problems of moderate size, starting points, policies (Gauss-Newton, Levenberg-Marquardt, dogleg), solvers and option settings",
  "Tests solve single convex problems with default options.",
  [OPT + "aslam_backend/src/Optimizer.cpp", OPT + "aslam_backend/src/Optimizer2.cpp", OPT + "aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp", OPT + "aslam_backend/src/DogLegTrustRegionPolicy.cpp", OPT + "aslam_backend/src/GaussNewtonTrustRegionPolicy.cpp"],
  [("trust region loop", OPT + "aslam_backend/src/Optimizer2.cpp")], ["Optimizer, Optimizer2::optimize return values and design variables"])
ORACLE["B05"] = "closed-form and dense reference solutions, and cost/gradient invariants"

P("B06", "Marginalizing variables preserves the information about the rest",
  "Marginalizing design variables out of a set of linear(ized) error terms yields a prior whose quadratic cost over the remaining variables equals, up to a constant, the minimum over the removed variables of the original cost. Solving with the prior gives the same solution and covariance as solving the full problem. The prior's error and Jacobian follow later changes of the remaining variables.",
  ["inputs", "configurations"], "all linear problem structures, numbers of removed variables and update steps after marginalization",
  "Tests marginalize one fixed problem.",
  [OPT + "aslam_backend/src/Marginalizer.cpp", OPT + "aslam_backend/src/MarginalizationPriorErrorTerm.cpp"],
  [("QR elimination", OPT + "aslam_backend/src/Marginalizer.cpp")], ["marginalize(), MarginalizationPriorErrorTerm"])
ORACLE["B06"] = "a dense Schur complement"

P("B07", "Sparse and block matrices compute what dense matrices would",
  "Building, editing, copying, scaling, slicing, transposing, multiplying and storing compressed-column and block-sparse matrices gives the same matrix as the same operations on a dense matrix, and reading entries returns what was written. Solving a block-sparse system and extracting marginal covariance blocks equals the dense computation. Structure queries report the true block layout.",
  ["histories", "inputs"], "all block layouts, sparsity patterns, values and sequences of matrix operations",
  "Tests use a couple of fixed block layouts.",
  [OPT + "aslam_sparse_block_matrix", OPT + "aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp", OPT + "aslam_backend/src/SparseBlockMatrixWrapper.cpp"],
  [("block storage and products", OPT + "aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp")], ["SparseBlockMatrix, CompressedColumnMatrix, LinearSolverCholmod, marginal_covariance_cholesky"])
ORACLE["B07"] = "dense matrices"

P("F01", "Calibration residuals measure prediction minus measurement with exact Jacobians",
  "Reprojection, accelerometer, gyroscope, Euclidean, pose and prior error terms evaluate to the documented difference between measurement and prediction for the current state, with the given covariance as weight. Their Jacobians with respect to every active state, including camera intrinsics, distortion, shutter, poses and biases, equal the numerical derivatives. A residual is zero exactly when the prediction matches the measurement.",
  ["inputs", "configurations"], "all camera models, states, measurements, covariances and activation patterns",
  "Tests cover one camera and default states per error term.",
  [CV + "aslam_cv_error_terms", CV + "aslam_cv_backend", OFF + "kalibr/src/AccelerometerError.cpp", OFF + "kalibr/src/GyroscopeError.cpp", OFF + "kalibr/src/EuclideanError.cpp"],
  [("residuals and Jacobians", OFF + "kalibr/src")], ["error terms' evaluateError, error(), evaluateJacobians; CameraDesignVariable"])
ORACLE["F01"] = "direct evaluation of the measurement model and numerical derivatives"

P("I01", "Incremental calibration keeps its problem and its statistics consistent",
  "Adding and removing batches of measurements keeps the set of design variables, groups and error terms equal to the union of the batches that are in, each counted once, with groups and ordering as requested. The incremental estimator brings the batches that are in to their common least squares optimum, reports rank, information, bases and covariance of the marginalized group as what is left of their information once the rest is free, takes a batch exactly when it is forced or raises the information beyond the threshold or the rank, and otherwise leaves everything as it was. Probability distributions, special functions and estimators return the values of their mathematical definitions, and sampled or estimated moments agree with them. Invalid arguments are refused.",
  ["histories", "inputs"], "all sequences of adding, removing, activating and regrouping batches that share variables, and all distribution parameters",
  "Tests add and remove a few fixed batches and check densities at single points.",
  [INC + "src/core", INC + "src/statistics", INC + "src/functions", INC + "include/aslam_incremental_calibration"],
  [("batch bookkeeping", INC + "src/core/IncrementalOptimizationProblem.cpp"), ("distributions", INC + "src/statistics"), ("estimator", INC + "src/core/IncrementalEstimator.cpp"), ("marginal system", INC + "src/core/LinearSolver.cpp")], ["IncrementalOptimizationProblem, OptimizationProblem, IncrementalEstimator, LinearSolver, distributions and functions"])
ORACLE["I01"] = "a model of the batches, dense least squares and reference special functions"

P("A01", "AprilTag detection finds the printed tags, their identity, corners and pose",
  "A tag rendered with enough pixels per module, a white margin and moderate perspective is detected once with the right identity, its corners in the documented order at their true pixel positions, wherever it lies and however the image is stored; no tag is reported where none is drawn. Decoding tolerates as many flipped bits as configured and no more, for every rotation of the tag, and the tags of a family differ in the advertised number of bits. The homography and relative pose of a detection reproduce the corners. An april grid reports exactly the corners of the tags that are visible away from the image border, at their places, and refuses images with too few. The lines, gray model, filters, sets and lookup grid the detector is built on compute what they are named for.",
  ["inputs"], "all tag families and identities, rotations, perspectives, scales and bit errors",
  "There are no tests of decoding or detection on rendered images.",
  [OFF + "aslam_apriltag2/src", OFF + "aslam_apriltag2/include/aslam_apriltag2", CV + "aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp"],
  [("decoding", OFF + "aslam_apriltag2/src/TagFamily.cc"), ("detection", OFF + "aslam_apriltag2/src/TagDetector.cc")], ["TagDetector::extractTags, TagFamily::decode, TagDetection, GridCalibrationTargetAprilgrid::computeObservation"])
ORACLE["A01"] = "rendered tags with known identity and pose"

P("U01", "Stored data loads back equal, and damaged or missing data is refused",
  "Matrices, strings, images, cameras, poses and other objects written to a portable binary, binary, text or XML archive or to a matrix archive read back equal, in any order and number, each reader consuming exactly what was written; the portable archive stores integers in the requested byte order and refuses a type too small for them. A matrix archive holds one entry per name through any sequence of sets, clears, saves, appends and filtered loads. Property trees return exactly the typed values that were put in, under nested keys, relative and absolute, also after a round trip through a file; a missing key yields the default, stored only by the non-constant getter, or an error. Truncated or corrupted matrix archives, truncated portable archives, missing files, missing keys, wrong types or fixed sizes and writes that do not fit on the disk raise an error instead of giving wrong data.",
  ["inputs", "histories", "fault_sequences"], "all sizes and values including empty, infinite and NaN entries, all sequences of writes, reads and amendments, truncations at any byte, changed bytes and a disk that fills up at any byte",
  "Tests store a few fixed objects and do not damage files.",
  [SM + "sm_boost", SM + "sm_matrix_archive/src/MatrixArchive.cpp", SM + "sm_property_tree/src", SM + "sm_eigen/include/sm_eigen/serialization.hpp", SM + "sm_opencv", CV + "aslam_cv_serialization"],
  [("portable archive", SM + "sm_boost/src/portable_binary_oarchive.cpp"), ("matrix archive format", SM + "sm_matrix_archive/src/MatrixArchive.cpp")], ["MatrixArchive save/load", "PropertyTree getters", "boost archives"])
ORACLE["U01"] = "round trips, a model of the stored content and injected damage"

P("U02", "Identifiers, strings, logging, timers and random numbers behave as documented",
  "Identifiers compare, hash and print consistently with their number, string routines split and convert without loss, and numerical comparisons are symmetric and respect the tolerance. Log messages are emitted exactly when their level and stream are enabled and contain what was logged, job queues run every job once and deliver results and errors, and timers report statistics of exactly the intervals measured. Random number generators are reproducible from their seed and respect their range and distribution.",
  ["inputs", "histories", "schedules"], "all identifier values, strings, log levels and streams, job sequences and thread counts, timer interval sequences, and seeds",
  "Tests check single values.",
  [SM + "sm_common", SM + "sm_logging", SM + "sm_timing", SM + "sm_random", SM + "sm_boost/include/sm_boost/JobQueue.hpp"],
  [("logging levels", SM + "sm_logging/src/LoggingGlobals.cpp"), ("job queue", SM + "sm_boost/src/JobQueue.cpp"), ("timers", SM + "sm_timing/src/Timer.cpp")], ["Id, string routines, Logger output, JobQueue, Timing, sm::random"])
ORACLE["U02"] = "reference models"

P("E01", "Calibration recovers the cameras, baselines and IMUs behind the observations",
  "Given noise-free observations of a calibration target, intrinsic calibration of every camera model explains them to a small fraction of a pixel, from a disturbed start as well as, for wide-angle lenses, from no start at all. Stereo calibration and the calibration of a chain of cameras, whichever of them see the target together and with views missing or stamps jittering within the tolerance, recover the baselines between neighbouring cameras. The views a multi-camera calibration is made of hold one error term per seen corner, vanish at the truth, converge to it, report the statistics of exactly their errors and lose exactly the corners that are removed. The measurements each IMU model predicts, with its scales, misalignments, couplings, lever arms, biases and clock, are those of a body that moves like the spline, and IMU-camera calibration recovers the pose of every camera on the IMU, its delay, gravity, the biases, the IMU's intrinsics and the pose of a second IMU.",
  ["inputs", "configurations"], "all camera models and parameters, targets, poses, rigs, motions and IMU parameters in the working range",
  "There are no tests that run a calibration.",
  [OFF + "kalibr/python/kalibr_camera_calibration", OFF + "kalibr/python/kalibr_imu_camera_calibration", OFF + "kalibr/src", OPT + "aslam_backend_python", CV + "aslam_cv_backend_python"],
  [("intrinsic, stereo and chain calibration", OFF + "kalibr/python/kalibr_camera_calibration/CameraIntializers.py"), ("multi-camera views", OFF + "kalibr/python/kalibr_camera_calibration/CameraCalibrator.py"), ("IMU models", OFF + "kalibr/python/kalibr_imu_camera_calibration/IccSensors.py")], ["calibrateIntrinsics, stereoCalibrate, solveFullBatch, MulticamCalibrationGraph.getInitialGuesses, CameraCalibration.addTargetView, IccCalibrator.buildProblem/optimize"])
ORACLE["E01"] = "the simulated truth"

P("P01", "The calibration tools' configuration, chain and exported files stay consistent",
  "Camera, IMU and target configuration files written by the tools load back with the same values, invalid values are refused with an error, and chain transformations between any two cameras agree with the product of the neighbouring ones. Observation tables and graphs the tools build pick baselines between cameras that see common targets. Exported calibration files contain the calibrated values in the target's convention.",
  ["inputs", "configurations"], "all valid and invalid parameter values for every camera model and distortion, chains of any length, and observation sets",
  "There are no tests of the Python configuration and graph code.",
  [OFF + "kalibr/python/kalibr_common/ConfigReader.py", OFF + "kalibr/python/kalibr_camera_calibration", OFF + "kalibr/python/kalibr_imu_camera_calibration"],
  [("configuration classes", OFF + "kalibr/python/kalibr_common/ConfigReader.py")], ["CameraParameters, ImuParameters, CalibrationTargetParameters, CameraChainParameters"])
ORACLE["P01"] = "round trips and a model of the configuration"

P("P02", "Arrays passed between Python and C++ keep shape, type and values",
  "Passing a matrix or vector from Python to the C++ libraries and back returns equal values with the same shape, for every supported element type, size, memory layout and stride. Arrays of the wrong shape or unsupported type are refused and never reinterpreted. Where a function is overloaded the overload that suits the array is called. Kinematics functions and the objects for transformations, points, uncertain quantities, cameras, targets, splines, times and archives give the same result from Python as their mathematical definition, and keep their covariance when they are combined, copied, pickled or saved.",
  ["inputs"], "all element types, shapes from empty upwards, row- and column-major, strided and non-native arrays",
  "Tests cover contiguous arrays of a few fixed sizes.",
  [SM + "sm_numpy_eigen/include/sm_numpy_eigen", SM + "sm_python/src", CV + "aslam_cv_python/src", NP + "aslam_bsplines_python/src"],
  [("type conversion", SM + "sm_numpy_eigen/include/sm_numpy_eigen/NumpyEigenConverter.hpp")], ["sm_numpy_eigen converters", "sm_python exports"])
ORACLE["P02"] = "numpy itself"
