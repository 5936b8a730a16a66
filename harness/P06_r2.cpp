#include "P06_rows.h"
X(Matrix33, Math::Matrix<double COMMA 3 COMMA 3>)
X(Matrix34, Math::Matrix<double COMMA 3 COMMA 4>)
X(Matrix44, Math::Matrix<double COMMA 4 COMMA 4>)
