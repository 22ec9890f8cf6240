// Included before every source file of /repo/src (g++ -include).
// VERIF_SYM: "double" becomes a symbolic real whose operations are done by the Python engine (engine/cpp.py).
// otherwise: the real code with double (replays).  In both: failed assertions are exceptions, heap allocations in
// real-time sections are counted.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <valarray>
#include <vector>
#include <cassert>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <dirent.h>

struct VerifAssert : std::runtime_error { using std::runtime_error::runtime_error; };
struct VerifAbort {};   // the Python side abandons the path
void verif_assert(const char* what, const char* file, int line);
#define EIGEN_RUNTIME_NO_MALLOC
#define EIGEN_DONT_VECTORIZE
#define eigen_assert(x) ((x) ? (void)0 : verif_assert(#x, __FILE__, __LINE__))
#define EIGEN_NO_DEBUG_OFF
#undef assert
#define assert(x) ((x) ? (void)0 : verif_assert(#x, __FILE__, __LINE__))

#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/LU>
#include <eigen3/Eigen/SVD>
#include <eigen3/Eigen/QR>
#include <eigen3/Eigen/Cholesky>
#include <eigen3/Eigen/Eigenvalues>
#include <nlohmann/json.hpp>
#include <boost/filesystem.hpp>

#ifdef VERIF_SYM
namespace verif {
typedef double real_double;
// implemented by the engine
int op_const(real_double c);
int op_fresh();
int op_bin(int op, int a, int b);
int op_un(int op, int a);
bool op_cmp(int op, int a, int b);
long op_floor(int a);
std::string op_show(int a);
int op_token(const std::string& s);

struct Sym {
  int id;     // -1: not initialised; -2: the constant c
  real_double c;
  constexpr Sym() : id(-1), c(0) {}
  constexpr Sym(real_double v) : id(-2), c(v) {}
  constexpr Sym(int v) : id(-2), c(v) {}
  constexpr Sym(unsigned v) : id(-2), c(v) {}
  constexpr Sym(long v) : id(-2), c((real_double)v) {}
  constexpr Sym(unsigned long v) : id(-2), c((real_double)v) {}
  constexpr Sym(long long v) : id(-2), c((real_double)v) {}
  constexpr Sym(unsigned long long v) : id(-2), c((real_double)v) {}
  constexpr Sym(float v) : id(-2), c(v) {}
  constexpr Sym(bool v) : id(-2), c(v) {}
  static Sym of(int id) { Sym s; s.id = id; return s; }
  int get() const {
    if (id == -2) return op_const(c);
    if (id == -1) const_cast<Sym*>(this)->id = op_fresh();
    return id;
  }
  Sym& operator+=(const Sym& o) { id = op_bin('+', get(), o.get()); return *this; }
  Sym& operator-=(const Sym& o) { id = op_bin('-', get(), o.get()); return *this; }
  Sym& operator*=(const Sym& o) { id = op_bin('*', get(), o.get()); return *this; }
  Sym& operator/=(const Sym& o) { id = op_bin('/', get(), o.get()); return *this; }
  Sym operator-() const { return of(op_un('-', get())); }
  Sym operator+() const { return *this; }
  Sym& operator++() { return *this += Sym(1); }
  Sym& operator--() { return *this -= Sym(1); }
  explicit operator int() const { return (int)op_floor(op_un('t', get())); }
  explicit operator long() const { return op_floor(op_un('t', get())); }
  explicit operator unsigned() const { return (unsigned)op_floor(op_un('t', get())); }
  explicit operator unsigned long() const { return (unsigned long)op_floor(op_un('t', get())); }
  explicit operator bool() const { return op_cmp('n', get(), Sym(0).get()); }
};
#define VERIF_BIN(o) \
  inline Sym operator o(const Sym& a, const Sym& b) { return Sym::of(op_bin(#o[0], a.get(), b.get())); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline Sym operator o(const Sym& a, T b) { return a o Sym(b); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline Sym operator o(T a, const Sym& b) { return Sym(a) o b; }
VERIF_BIN(+) VERIF_BIN(-) VERIF_BIN(*) VERIF_BIN(/)
#define VERIF_CMP(o, c) \
  inline bool operator o(const Sym& a, const Sym& b) { return op_cmp(c, a.get(), b.get()); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline bool operator o(const Sym& a, T b) { return a o Sym(b); } \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
  inline bool operator o(T a, const Sym& b) { return Sym(a) o b; }
VERIF_CMP(<, '<') VERIF_CMP(<=, 'l') VERIF_CMP(>, '>') VERIF_CMP(>=, 'g') VERIF_CMP(==, '=') VERIF_CMP(!=, 'n')
#define VERIF_UN(f, c) inline Sym f(const Sym& a) { return Sym::of(op_un(c, a.get())); }
VERIF_UN(exp, 'e') VERIF_UN(log, 'L') VERIF_UN(sqrt, 's') VERIF_UN(abs, 'a') VERIF_UN(fabs, 'a') VERIF_UN(cos, 'c') VERIF_UN(sin, 'S')
VERIF_UN(floor, 'f') VERIF_UN(ceil, 'C') VERIF_UN(round, 'r') VERIF_UN(tanh, 'h') VERIF_UN(trunc, 't')
inline Sym pow(const Sym& a, const Sym& b) { return Sym::of(op_bin('p', a.get(), b.get())); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline Sym pow(const Sym& a, T b) { return pow(a, Sym(b)); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline Sym pow(T a, const Sym& b) { return pow(Sym(a), b); }
inline Sym fmin(const Sym& a, const Sym& b) { return b < a ? b : a; }
inline Sym fmax(const Sym& a, const Sym& b) { return a < b ? b : a; }
inline Sym hypot(const Sym& a, const Sym& b) { return sqrt(a * a + b * b); }
inline Sym abs2(const Sym& a) { return a * a; }
inline bool isfinite(const Sym& a) { return true; }
inline bool isnan(const Sym& a) { return false; }
inline bool isinf(const Sym& a) { return false; }
// numbers written to files are rounded to the decimals (or digits) of the stream
inline std::ostream& operator<<(std::ostream& o, const Sym& a) {
  int id = a.get();
  if (dynamic_cast<std::ofstream*>(&o)) {
    if (o.flags() & std::ios::fixed) id = op_bin('D', id, op_const(o.precision()));
    else if (!(o.flags() & std::ios::scientific)) id = op_bin('G', id, op_const(o.precision()));
    else id = op_bin('G', id, op_const(o.precision() + 1));
  }
  return o << op_show(id);
}
inline std::istream& operator>>(std::istream& i, Sym& a) {
  std::string s;
  if (i >> s) {
    if (s.rfind("@S:", 0) == 0) a.id = op_token(s);
    else { try { a = Sym(std::stod(s)); } catch (std::exception&) { i.setstate(std::ios::failbit); } }
  }
  return i;
}
inline void to_json(nlohmann::json& j, const Sym& a) { j = op_show(a.get()); }
inline void from_json(const nlohmann::json& j, Sym& a) {
  if (j.is_string()) a.id = op_token(j.get<std::string>());
  else a = Sym(j.get<real_double>());
}
}  // namespace verif

namespace std {
inline verif::Sym max(const verif::Sym& a, verif::real_double b) { return a < b ? verif::Sym(b) : a; }
inline verif::Sym max(verif::real_double a, const verif::Sym& b) { return a < b ? b : verif::Sym(a); }
inline verif::Sym min(const verif::Sym& a, verif::real_double b) { return b < a ? verif::Sym(b) : a; }
inline verif::Sym min(verif::real_double a, const verif::Sym& b) { return b < a ? b : verif::Sym(a); }
inline std::string to_string(const verif::Sym& a) { return verif::op_show(a.get()); }
using verif::exp; using verif::log; using verif::sqrt; using verif::abs; using verif::fabs; using verif::cos; using verif::sin;
using verif::floor; using verif::ceil; using verif::pow; using verif::isfinite; using verif::isnan; using verif::isinf; using verif::fmin; using verif::fmax;
using verif::tanh; using verif::round; using verif::trunc; using verif::hypot;
template <> class numeric_limits<verif::Sym> : public numeric_limits<double> {
 public:
  static verif::Sym epsilon() { return verif::Sym(numeric_limits<double>::epsilon()); }
  static verif::Sym min() { return verif::Sym(numeric_limits<double>::min()); }
  static verif::Sym max() { return verif::Sym(numeric_limits<double>::max()); }
  static verif::Sym lowest() { return verif::Sym(numeric_limits<double>::lowest()); }
};
}
namespace Eigen {
template <> struct NumTraits<verif::Sym> : GenericNumTraits<verif::Sym> {
  typedef verif::Sym Real; typedef verif::Sym NonInteger; typedef verif::Sym Nested; typedef verif::Sym Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 1, MulCost = 1 };
  static inline Real epsilon() { return Real(2.220446049250313e-16); }
  static inline Real dummy_precision() { return Real(1e-12); }
  static inline Real highest() { return Real(1.7e308); }
  static inline Real lowest() { return Real(-1.7e308); }
  static inline int digits10() { return 15; }
};
typedef Matrix<verif::Sym, Dynamic, Dynamic> SymMatrixXd;
typedef Matrix<verif::Sym, Dynamic, 1> SymVectorXd;
typedef Matrix<verif::Sym, 1, Dynamic> SymRowVectorXd;
typedef Array<verif::Sym, Dynamic, 1> SymArrayXd;
typedef Array<verif::Sym, Dynamic, Dynamic> SymArrayXXd;
}
#define MatrixXd SymMatrixXd
#define VectorXd SymVectorXd
#define RowVectorXd SymRowVectorXd
#define ArrayXd SymArrayXd
#define ArrayXXd SymArrayXXd
using verif::exp; using verif::sqrt; using verif::abs; using verif::fabs; using verif::pow; using verif::cos; using verif::sin; using verif::log;
#define double verif::Sym
#endif
