// To be included before everything else.
// Eigen takes memory with std::malloc(). It is redirected to operator new, so
// that its allocations fail, are accounted for and placed like all others.
#ifndef SIM_EIGEN_HPP
#define SIM_EIGEN_HPP

#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <immintrin.h>
#include <iostream>
#include <limits>
#include <new>
#include <sstream>
#include <string>
#include <type_traits>
namespace std {
inline void* sim_malloc(size_t n) { return ::operator new(n); }
inline void sim_free(void* p) { ::operator delete(p); }
inline void* sim_realloc(void*, size_t) { abort(); }
} // namespace std
#define malloc sim_malloc
#define free sim_free
#define realloc sim_realloc
#include <libcommute/loperator/state_vector_eigen3.hpp>
#undef malloc
#undef free
#undef realloc

#endif
