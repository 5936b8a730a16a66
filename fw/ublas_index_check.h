// Forced into the sanitizer builds: an element access outside a ublas vector, matrix or range ends the case.
// The element types are plain arrays inside their objects, where AddressSanitizer does not see the neighbour.
// Everything else (sizes of expressions, numeric checks) stays as in the release build.
#ifndef PBT_UBLAS_INDEX_CHECK
#define PBT_UBLAS_INDEX_CHECK
#ifdef __cplusplus
#include <boost/numeric/ublas/exception.hpp>
#include <cstdio>
#include <cstdlib>
inline void pbt_bad_index(const char* what, const char* file, int line) { std::fprintf(stderr, "element access out of range: %s, %s:%d\n", what, file, line); std::abort(); }
#undef BOOST_UBLAS_CHECK
#define BOOST_UBLAS_CHECK(expression, e) if (#e[4] == 'i' && !(expression)) { pbt_bad_index(#expression, __FILE__, __LINE__); }
#endif
#endif
