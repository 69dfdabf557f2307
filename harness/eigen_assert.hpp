// Eigen's index/size assertions stay on even though the library is built with NDEBUG, as in its stock build:
// an out-of-range coefficient access is memory-unsafe there, and ASan alone cannot see it inside one allocation.
#pragma once
#include <cstdio>
#include <cstdlib>
inline void verif_eigen_fail(const char* e, const char* f, int l) { fprintf(stderr, "Eigen assertion failed: %s at %s:%d\n", e, f, l); abort(); }
#define eigen_assert(x) do { if (!(x)) verif_eigen_fail(#x, __FILE__, __LINE__); } while (0)
