#include "P06_rows.h"
X(RotVel, Math::RotationVelocity)
X(Intrinsics, Math::CameraIntrinsics<double>)
