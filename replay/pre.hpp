// Forced include of the replay builds: Eigen assertions throw, private members are reachable.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <mutex>
#include <valarray>
#include <vector>
#include <array>
#include <numeric>
#include <tuple>
#include <set>
#include <unordered_map>
struct EigenAssert : public std::exception {
  const char* m;
  explicit EigenAssert(const char* m_) : m(m_) {}
  const char* what() const noexcept override { return m; }
};
[[noreturn]] inline void eigen_assert_fail_(const char* m) { throw EigenAssert(m); }
#undef eigen_assert
#define eigen_assert(x) do { if (!(x)) eigen_assert_fail_(#x); } while (false)
#ifdef NAN_INIT
#define EIGEN_INITIALIZE_MATRICES_BY_NAN
#endif
// failed assert() throws as well, so that a replay survives it
#undef assert
#define assert(x) do { if (!(x)) throw EigenAssert("assert: " #x); } while (false)
#include "Eigen/Dense"
#define private public
#define protected public
