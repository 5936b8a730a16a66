#include "P06_rows.h"
X(Vector2, Math::Vector<double COMMA 2>)
X(Vector3, Math::Vector<double COMMA 3>)
X(Vector4, Math::Vector<double COMMA 4>)
X(Vector8, Math::Vector<double COMMA 8>)
