#include "P06_rows.h"
X(PoseT, Math::Pose)
X(ErrPose, Math::ErrorPose)
