#include "P06_rows.h"
X(ScalarD, Math::Scalar<double>)
X(ScalarI, Math::Scalar<int>)
X(ScalarUL, Math::Scalar<unsigned long>)
X(Quat, Math::Quaternion)
