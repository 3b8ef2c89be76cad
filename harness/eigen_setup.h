// Must be the first include of a harness: makes hidden misuse observable.
//  - a failed Eigen assertion (index out of range, size mismatch) throws instead of being compiled out
//  - default-constructed matrices are filled with NaN, so results that depend on uninitialised memory are visible
#pragma once
#include <stdexcept>
#include <string>
namespace verif
{
[[noreturn]] inline void eigenAssertFailed(const char * expr, const char * file, int line)
{
  std::string f(file);
  auto p = f.rfind("/Eigen/");
  throw std::logic_error("Eigen assertion failed: " + std::string(expr) + " ("
                         + (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(line) + ")");
}
} // namespace verif
#define eigen_assert(x)                                         \
  do                                                            \
  {                                                             \
    if(!(x)) ::verif::eigenAssertFailed(#x, __FILE__, __LINE__); \
  } while(false)
#if defined(VERIF_ZERO_INIT)
// for comparisons between objects: NaN in never-initialised members would hide what is carried over in them
#  define EIGEN_INITIALIZE_MATRICES_BY_ZERO
#elif !defined(VERIF_NO_NAN_INIT)
#  define EIGEN_INITIALIZE_MATRICES_BY_NAN
#endif
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <Eigen/Dense>
