"""Per-property build configuration: library sources needed, build mode, time budgets (seconds of search)."""
PROPS = {}
# factor on the numbers of cases that the harnesses state, unless a property has its own
SCALE = {"quick": 60, "thorough": 20}
# the sanitizer build repeats the checks with this share of the cases; a property can leave it out with asan=()
ASAN_SHARE = 0.2

def P(pid, lib=(), **kw):
    PROPS[pid] = dict(lib=list(lib), **kw)

Q = ["utMath/Quaternion.cpp", "utMath/Pose.cpp", "utUtil/Exception.cpp"]
EP = Q + ["utMath/ErrorPose.cpp"]
P("P01", Q, scale={"quick": 20, "thorough": 20})
P("P02", Q, scale={"quick": 20, "thorough": 20})
P("P03", Q, scale={"quick": 20, "thorough": 20})
P("P04", EP, scale={"quick": 30, "thorough": 20})
P("P05", EP, asan=("thorough",), scale={"quick": 5, "thorough": 20})
P("P06", EP, mode="asan", flags=["-fno-var-tracking"], scale={"quick": 8, "thorough": 20})
P("P07", EP, asan=("thorough",), scale={"quick": 5, "thorough": 20})
P("P08", Q)
P("P09", Q)
P("P10", Q)
P("P11", Q)
P("P12", Q, scale={"quick": 8, "thorough": 20})
P("P13", Q)
P("P14", Q)
P("P15", EP + ["utAlgorithm/Correlation.cpp"])
P("P16", Q)
P("P17", Q, scale={"quick": 40, "thorough": 20})
P("P18", EP + ["utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp"])
CV = EP + ["utAlgorithm/Homography.cpp", "utAlgorithm/Projection.cpp", "utAlgorithm/FundamentalMatrix.cpp", "utAlgorithm/3DPointReconstruction.cpp"]
P("P19", CV)
P("P20", CV)
P("P21", CV + ["utAlgorithm/CameraLens/Correction.cpp", "utAlgorithm/LensDistortion.cpp"])
P("P22", CV + ["utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp", "utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp", "utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp"], scale={"quick": 40, "thorough": 20})
P("P23", CV + ["utAlgorithm/PoseEstimation6D6D/DataSelection.cpp", "utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp", "utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp", "utAlgorithm/OnlineRotHec.cpp", "utAlgorithm/RotationHecKalmanFilter.cpp"])
P("P24", EP + ["utAlgorithm/ToolTip/TipCalibration.cpp"])
P("P25", CV + ["utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp", "utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp", "utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp", "utAlgorithm/MultipleCameraPoseOptimization.cpp", "utAlgorithm/BundleAdjustment.cpp"], scale={"quick": 30, "thorough": 20})
P("P26", EP + ["utTracking/PoseKalmanFilter.cpp", "utTracking/RotationOnlyKf.cpp"], scale={"quick": 30, "thorough": 20})
P("P27", ["utMeasurement/Timestamp.cpp", "utMeasurement/TimestampSync.cpp"])
P("P28", Q + ["utMeasurement/Timestamp.cpp"])
P("P29", ["utUtil/SerialPort.cpp", "utUtil/Exception.cpp"], link=["-ldl"])
P("P30", Q, asan=("thorough",))
P("P31", ["utUtil/OS.cpp", "utUtil/BlockTimer.cpp", "utUtil/GlobFiles.cpp", "utUtil/Logging.cpp", "utUtil/Exception.cpp"])
