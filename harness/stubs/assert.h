// Found before the C library's <assert.h>: a failed assertion of the code under
// test (or of Eigen inside it) is thrown, so that a property can report and shrink it.
// No include guard on purpose: <cassert> may be included several times.
#ifdef __cplusplus
#ifndef MPCV_ASSERT_DECLARED
#define MPCV_ASSERT_DECLARED
namespace mpcv { void assertionFailed(const char* expr, const char* file, int line); }
#endif
#undef assert
#ifdef NDEBUG
#define assert(expr) (static_cast<void>(0))
#else
#define assert(expr) \
  ((expr) ? static_cast<void>(0) : ::mpcv::assertionFailed(#expr, __FILE__, __LINE__))
#endif
#else
#include_next <assert.h>
#endif
