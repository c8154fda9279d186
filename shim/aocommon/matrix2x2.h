// Stand-in for aocommon's 2x2 complex matrices.
#ifndef VERIF_AOCOMMON_MATRIX2X2
#define VERIF_AOCOMMON_MATRIX2X2
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <initializer_list>
#include <limits>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
namespace aocommon {

template <class R>
class MC2x2DiagBase;

template <class R>
class MC2x2Base {
 public:
  using ValType = std::complex<R>;
  using value_type = std::complex<R>;
  MC2x2Base() : v_{} {}
  explicit MC2x2Base(const std::complex<float>* p) : v_{ValType(p[0]), ValType(p[1]), ValType(p[2]), ValType(p[3])} {}
  explicit MC2x2Base(const std::complex<double>* p) : v_{ValType(p[0]), ValType(p[1]), ValType(p[2]), ValType(p[3])} {}
  MC2x2Base(ValType a, ValType b, ValType c, ValType d) : v_{a, b, c, d} {}
  template <class A, class B, class C, class D>
  MC2x2Base(const A& a, const B& b, const C& c, const D& d) : v_{ValType(a), ValType(b), ValType(c), ValType(d)} {}
  template <class S>
    requires(!std::is_same_v<S, R>)
  MC2x2Base(const MC2x2Base<S>& o) : v_{ValType(o.Get(0)), ValType(o.Get(1)), ValType(o.Get(2)), ValType(o.Get(3))} {}
  MC2x2Base(const MC2x2Base&) = default;
  MC2x2Base& operator=(const MC2x2Base&) = default;
  template <class S>
  explicit MC2x2Base(const MC2x2DiagBase<S>& d);

  static MC2x2Base Zero() { return MC2x2Base(); }
  static MC2x2Base Unity() { return MC2x2Base(R(1), R(0), R(0), R(1)); }
  static MC2x2Base NaN() {
    const R n = std::numeric_limits<R>::quiet_NaN();
    return MC2x2Base(ValType(n, n), ValType(n, n), ValType(n, n), ValType(n, n));
  }
  ValType Get(std::size_t i) const { return v_[i]; }
  ValType operator[](std::size_t i) const { return v_[i]; }
  ValType& operator[](std::size_t i) { return v_[i]; }
  void Set(std::size_t i, const ValType& x) { v_[i] = x; }
  ValType* Data() { return v_; }
  const ValType* Data() const { return v_; }
  template <class S>
  void AssignTo(std::complex<S>* p) const {
    for (int i = 0; i < 4; ++i) p[i] = std::complex<S>(v_[i]);
  }
  MC2x2Base Multiply(const MC2x2Base& o) const {
    return MC2x2Base(v_[0] * o.v_[0] + v_[1] * o.v_[2], v_[0] * o.v_[1] + v_[1] * o.v_[3],
                     v_[2] * o.v_[0] + v_[3] * o.v_[2], v_[2] * o.v_[1] + v_[3] * o.v_[3]);
  }
  MC2x2Base HermTranspose() const {
    return MC2x2Base(std::conj(v_[0]), std::conj(v_[2]), std::conj(v_[1]), std::conj(v_[3]));
  }
  MC2x2Base Transpose() const { return MC2x2Base(v_[0], v_[2], v_[1], v_[3]); }
  MC2x2Base Conjugate() const {
    return MC2x2Base(std::conj(v_[0]), std::conj(v_[1]), std::conj(v_[2]), std::conj(v_[3]));
  }
  MC2x2Base MultiplyHerm(const MC2x2Base& o) const { return Multiply(o.HermTranspose()); }
  MC2x2Base HermThenMultiply(const MC2x2Base& o) const { return HermTranspose().Multiply(o); }
  ValType Trace() const { return v_[0] + v_[3]; }
  ValType Determinant() const { return v_[0] * v_[3] - v_[1] * v_[2]; }
  bool Invert() {
    const ValType d = Determinant();
    if (d == ValType(0)) return false;
    const ValType inv = R(1) / d;
    const ValType a = v_[0];
    v_[0] = inv * v_[3];
    v_[1] = -inv * v_[1];
    v_[2] = -inv * v_[2];
    v_[3] = inv * a;
    return true;
  }
  void AddWithFactorAndAssign(const MC2x2Base& o, R f) {
    for (int i = 0; i < 4; ++i) v_[i] += o.v_[i] * f;
  }
  std::string ToString() const {
    std::ostringstream s;
    s << v_[0] << ", " << v_[1] << "; " << v_[2] << ", " << v_[3];
    return s.str();
  }
  bool IsFinite() const {
    for (int i = 0; i < 4; ++i)
      if (!std::isfinite(v_[i].real()) || !std::isfinite(v_[i].imag())) return false;
    return true;
  }
  MC2x2Base& operator+=(const MC2x2Base& o) {
    for (int i = 0; i < 4; ++i) v_[i] += o.v_[i];
    return *this;
  }
  MC2x2Base& operator-=(const MC2x2Base& o) {
    for (int i = 0; i < 4; ++i) v_[i] -= o.v_[i];
    return *this;
  }
  MC2x2Base& operator*=(const MC2x2Base& o) { return *this = Multiply(o); }
  MC2x2Base& operator*=(const ValType& f) {
    for (int i = 0; i < 4; ++i) v_[i] *= f;
    return *this;
  }
  MC2x2Base& operator*=(R f) {
    for (int i = 0; i < 4; ++i) v_[i] *= f;
    return *this;
  }
  MC2x2Base& operator/=(R f) { return *this *= R(1) / f; }
  MC2x2Base& operator/=(const ValType& f) { return *this *= ValType(1) / f; }
  MC2x2Base operator-() const { return MC2x2Base(-v_[0], -v_[1], -v_[2], -v_[3]); }
  friend MC2x2Base operator+(MC2x2Base a, const MC2x2Base& b) { return a += b; }
  friend MC2x2Base operator-(MC2x2Base a, const MC2x2Base& b) { return a -= b; }
  friend MC2x2Base operator*(const MC2x2Base& a, const MC2x2Base& b) { return a.Multiply(b); }
  friend MC2x2Base operator*(MC2x2Base a, R f) { return a *= f; }
  friend MC2x2Base operator*(R f, MC2x2Base a) { return a *= f; }
  friend MC2x2Base operator*(MC2x2Base a, const ValType& f) { return a *= f; }
  friend MC2x2Base operator*(const ValType& f, MC2x2Base a) { return a *= f; }
  friend bool operator==(const MC2x2Base& a, const MC2x2Base& b) {
    for (int i = 0; i < 4; ++i)
      if (a.v_[i] != b.v_[i]) return false;
    return true;
  }

 private:
  ValType v_[4];
};

template <class R>
class MC2x2DiagBase {
 public:
  using ValType = std::complex<R>;
  using value_type = std::complex<R>;
  MC2x2DiagBase() : v_{} {}
  explicit MC2x2DiagBase(const std::complex<float>* p) : v_{ValType(p[0]), ValType(p[1])} {}
  explicit MC2x2DiagBase(const std::complex<double>* p) : v_{ValType(p[0]), ValType(p[1])} {}
  MC2x2DiagBase(ValType a, ValType b) : v_{a, b} {}
  template <class A, class B>
  MC2x2DiagBase(const A& a, const B& b) : v_{ValType(a), ValType(b)} {}
  template <class S>
    requires(!std::is_same_v<S, R>)
  MC2x2DiagBase(const MC2x2DiagBase<S>& o) : v_{ValType(o.Get(0)), ValType(o.Get(1))} {}
  MC2x2DiagBase(const MC2x2DiagBase&) = default;
  MC2x2DiagBase& operator=(const MC2x2DiagBase&) = default;
  static MC2x2DiagBase Zero() { return MC2x2DiagBase(); }
  static MC2x2DiagBase Unity() { return MC2x2DiagBase(R(1), R(1)); }
  static MC2x2DiagBase NaN() {
    const R n = std::numeric_limits<R>::quiet_NaN();
    return MC2x2DiagBase(ValType(n, n), ValType(n, n));
  }
  ValType Get(std::size_t i) const { return v_[i]; }
  ValType operator[](std::size_t i) const { return v_[i]; }
  ValType& operator[](std::size_t i) { return v_[i]; }
  void Set(std::size_t i, const ValType& x) { v_[i] = x; }
  ValType* Data() { return v_; }
  const ValType* Data() const { return v_; }
  template <class S>
  void AssignTo(std::complex<S>* p) const {
    p[0] = std::complex<S>(v_[0]);
    p[1] = std::complex<S>(v_[1]);
  }
  MC2x2DiagBase HermTranspose() const { return Conjugate(); }
  MC2x2DiagBase Conjugate() const { return MC2x2DiagBase(std::conj(v_[0]), std::conj(v_[1])); }
  ValType Trace() const { return v_[0] + v_[1]; }
  bool Invert() {
    if (v_[0] == ValType(0) || v_[1] == ValType(0)) return false;
    v_[0] = R(1) / v_[0];
    v_[1] = R(1) / v_[1];
    return true;
  }
  bool IsFinite() const {
    return std::isfinite(v_[0].real()) && std::isfinite(v_[0].imag()) &&
           std::isfinite(v_[1].real()) && std::isfinite(v_[1].imag());
  }
  MC2x2DiagBase& operator+=(const MC2x2DiagBase& o) { v_[0] += o.v_[0]; v_[1] += o.v_[1]; return *this; }
  MC2x2DiagBase& operator-=(const MC2x2DiagBase& o) { v_[0] -= o.v_[0]; v_[1] -= o.v_[1]; return *this; }
  MC2x2DiagBase& operator*=(const MC2x2DiagBase& o) { v_[0] *= o.v_[0]; v_[1] *= o.v_[1]; return *this; }
  MC2x2DiagBase& operator*=(R f) { v_[0] *= f; v_[1] *= f; return *this; }
  MC2x2DiagBase& operator*=(const ValType& f) { v_[0] *= f; v_[1] *= f; return *this; }
  friend MC2x2DiagBase operator+(MC2x2DiagBase a, const MC2x2DiagBase& b) { return a += b; }
  friend MC2x2DiagBase operator-(MC2x2DiagBase a, const MC2x2DiagBase& b) { return a -= b; }
  friend MC2x2DiagBase operator*(MC2x2DiagBase a, const MC2x2DiagBase& b) { return a *= b; }
  friend MC2x2DiagBase operator*(MC2x2DiagBase a, R f) { return a *= f; }
  friend MC2x2DiagBase operator*(R f, MC2x2DiagBase a) { return a *= f; }
  friend MC2x2DiagBase operator*(MC2x2DiagBase a, const ValType& f) { return a *= f; }
  friend MC2x2DiagBase operator*(const ValType& f, MC2x2DiagBase a) { return a *= f; }
  friend MC2x2Base<R> operator*(const MC2x2DiagBase& a, const MC2x2Base<R>& b) {
    return MC2x2Base<R>(a.v_[0] * b.Get(0), a.v_[0] * b.Get(1), a.v_[1] * b.Get(2), a.v_[1] * b.Get(3));
  }
  friend MC2x2Base<R> operator*(const MC2x2Base<R>& a, const MC2x2DiagBase& b) {
    return MC2x2Base<R>(a.Get(0) * b.v_[0], a.Get(1) * b.v_[1], a.Get(2) * b.v_[0], a.Get(3) * b.v_[1]);
  }
  friend bool operator==(const MC2x2DiagBase& a, const MC2x2DiagBase& b) {
    return a.v_[0] == b.v_[0] && a.v_[1] == b.v_[1];
  }

 private:
  ValType v_[2];
};
template <class R>
template <class S>
MC2x2Base<R>::MC2x2Base(const MC2x2DiagBase<S>& d) : v_{ValType(d.Get(0)), ValType(0), ValType(0), ValType(d.Get(1))} {}

using MC2x2 = MC2x2Base<double>;
using MC2x2F = MC2x2Base<float>;
using MC2x2Diag = MC2x2DiagBase<double>;
using MC2x2FDiag = MC2x2DiagBase<float>;

template <class R>
MC2x2DiagBase<R> Diagonal(const MC2x2Base<R>& m) { return MC2x2DiagBase<R>(m.Get(0), m.Get(3)); }
template <class R>
MC2x2DiagBase<R> Diagonal(const MC2x2DiagBase<R>& m) { return m; }
template <class R>
R Norm(const MC2x2Base<R>& m) {
  return std::norm(m.Get(0)) + std::norm(m.Get(1)) + std::norm(m.Get(2)) + std::norm(m.Get(3));
}
template <class R>
R Norm(const MC2x2DiagBase<R>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)); }
template <class R>
MC2x2Base<R> HermTranspose(const MC2x2Base<R>& m) { return m.HermTranspose(); }
template <class R>
MC2x2DiagBase<R> HermTranspose(const MC2x2DiagBase<R>& m) { return m.HermTranspose(); }
template <class R>
std::complex<R> Trace(const MC2x2Base<R>& m) { return m.Trace(); }
template <class R>
std::complex<R> Trace(const MC2x2DiagBase<R>& m) { return m.Trace(); }
template <class R>
std::complex<R> DoubleDot(const MC2x2Base<R>& a, const MC2x2Base<R>& b) {
  return a.Get(0) * b.Get(0) + a.Get(1) * b.Get(1) + a.Get(2) * b.Get(2) + a.Get(3) * b.Get(3);
}
template <class R>
MC2x2Base<R> ElementProduct(const MC2x2Base<R>& a, const MC2x2Base<R>& b) {
  return MC2x2Base<R>(a.Get(0) * b.Get(0), a.Get(1) * b.Get(1), a.Get(2) * b.Get(2), a.Get(3) * b.Get(3));
}
template <class R>
std::ostream& operator<<(std::ostream& os, const MC2x2Base<R>& m) { return os << m.ToString(); }

/// Functions on plain arrays of four complex numbers.
class Matrix2x2 {
 public:
  template <class A, class B, class C>
  static void ATimesB(std::complex<A>* d, const B* l, const C* r) {
    const std::complex<A> o[4] = {l[0] * r[0] + l[1] * r[2], l[0] * r[1] + l[1] * r[3],
                                  l[2] * r[0] + l[3] * r[2], l[2] * r[1] + l[3] * r[3]};
    for (int i = 0; i < 4; ++i) d[i] = o[i];
  }
  template <class A, class B, class C>
  static void ATimesHermB(std::complex<A>* d, const B* l, const C* r) {
    const std::complex<A> o[4] = {l[0] * std::conj(r[0]) + l[1] * std::conj(r[1]),
                                  l[0] * std::conj(r[2]) + l[1] * std::conj(r[3]),
                                  l[2] * std::conj(r[0]) + l[3] * std::conj(r[1]),
                                  l[2] * std::conj(r[2]) + l[3] * std::conj(r[3])};
    for (int i = 0; i < 4; ++i) d[i] = o[i];
  }
  template <class T>
  static bool IsFinite(const std::complex<T>* m) {
    for (int i = 0; i < 4; ++i)
      if (!std::isfinite(m[i].real()) || !std::isfinite(m[i].imag())) return false;
    return true;
  }
  template <class T>
  static bool Invert(T* m) {
    const T d = m[0] * m[3] - m[1] * m[2];
    if (d == T(0)) return false;
    const T a = m[0], inv = T(1) / d;
    m[0] = m[3] * inv;
    m[1] = -m[1] * inv;
    m[2] = -m[2] * inv;
    m[3] = a * inv;
    return true;
  }
};
}  // namespace aocommon
#endif
