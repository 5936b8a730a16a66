#include "P06_rows.h"
X(ErrVec2, Math::ErrorVector<double COMMA 2>)
X(ErrVec3, Math::ErrorVector<double COMMA 3>)
