// Stand-in for xsimd: a batch is a small array.
#ifndef VERIF_XSIMD
#define VERIF_XSIMD
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
namespace xsimd {
namespace verif_detail {
template <class T> struct Lanes { static constexpr std::size_t n = sizeof(T) <= 4 ? 8 : 4; };
}
template <class T>
struct batch_bool {
  static constexpr std::size_t size = verif_detail::Lanes<T>::n;
  std::array<bool, size> v;
  bool get(std::size_t i) const { return v[i]; }
};
template <class T>
struct batch {
  using value_type = T;
  static constexpr std::size_t size = verif_detail::Lanes<T>::n;
  std::array<T, size> v;
  batch() : v{} {}
  batch(const T& x) { v.fill(x); }
  static batch broadcast(const T& x) { return batch(x); }
  template <class P> static batch load_unaligned(const P* p) { batch b; for (std::size_t i = 0; i < size; ++i) b.v[i] = p[i]; return b; }
  template <class P> static batch load_aligned(const P* p) { return load_unaligned(p); }
  template <class P> void store_unaligned(P* p) const { for (std::size_t i = 0; i < size; ++i) p[i] = v[i]; }
  template <class P> void store_aligned(P* p) const { store_unaligned(p); }
  T get(std::size_t i) const { return v[i]; }
#define VERIF_OP(op) \
  batch& operator op##=(const batch& o) { for (std::size_t i = 0; i < size; ++i) v[i] op##= o.v[i]; return *this; } \
  friend batch operator op(batch a, const batch& b) { return a op##= b; }
  VERIF_OP(+) VERIF_OP(-) VERIF_OP(*) VERIF_OP(/)
#undef VERIF_OP
  batch operator-() const { batch b; for (std::size_t i = 0; i < size; ++i) b.v[i] = -v[i]; return b; }
#define VERIF_CMP(name, op) \
  friend batch_bool<T> operator op(const batch& a, const batch& b) { batch_bool<T> r; for (std::size_t i = 0; i < size; ++i) r.v[i] = a.v[i] op b.v[i]; return r; }
  VERIF_CMP(gt, >) VERIF_CMP(lt, <) VERIF_CMP(ge, >=) VERIF_CMP(le, <=)
#undef VERIF_CMP
};
template <class T>
struct batch<std::complex<T>> {
  using value_type = std::complex<T>;
  static constexpr std::size_t size = verif_detail::Lanes<T>::n;
  std::array<value_type, size> v;
  batch() : v{} {}
  batch(const value_type& x) { v.fill(x); }
  batch(const batch<T>& re, const batch<T>& im) { for (std::size_t i = 0; i < size; ++i) v[i] = value_type(re.v[i], im.v[i]); }
  static batch load_unaligned(const value_type* p) { batch b; for (std::size_t i = 0; i < size; ++i) b.v[i] = p[i]; return b; }
  static batch load_aligned(const value_type* p) { return load_unaligned(p); }
  void store_unaligned(value_type* p) const { for (std::size_t i = 0; i < size; ++i) p[i] = v[i]; }
  void store_aligned(value_type* p) const { store_unaligned(p); }
  batch<T> real() const { batch<T> r; for (std::size_t i = 0; i < size; ++i) r.v[i] = v[i].real(); return r; }
  batch<T> imag() const { batch<T> r; for (std::size_t i = 0; i < size; ++i) r.v[i] = v[i].imag(); return r; }
#define VERIF_OP(op) \
  batch& operator op##=(const batch& o) { for (std::size_t i = 0; i < size; ++i) v[i] op##= o.v[i]; return *this; } \
  friend batch operator op(batch a, const batch& b) { return a op##= b; }
  VERIF_OP(+) VERIF_OP(-) VERIF_OP(*) VERIF_OP(/)
#undef VERIF_OP
};
template <class T> batch_bool<T> gt(const batch<T>& a, const batch<T>& b) { return a > b; }
template <class T> batch_bool<T> lt(const batch<T>& a, const batch<T>& b) { return a < b; }
template <class T> batch_bool<T> ge(const batch<T>& a, const batch<T>& b) { return a >= b; }
template <class T> batch_bool<T> le(const batch<T>& a, const batch<T>& b) { return a <= b; }
template <class T> batch<T> broadcast(const T& x) { return batch<T>(x); }
template <class T> batch<T> select(const batch_bool<T>& c, const batch<T>& a, const batch<T>& b) {
  batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = c.v[i] ? a.v[i] : b.v[i]; return r;
}
template <class T> batch<T> arg(const batch<std::complex<T>>& a) {
  batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::arg(a.v[i]); return r;
}
template <class T> batch<T> abs(const batch<std::complex<T>>& a) {
  batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::abs(a.v[i]); return r;
}
template <class T> batch<std::complex<T>> polar(const batch<T>& m, const batch<T>& p) {
  batch<std::complex<T>> r;
  // As xsimd does it: NaN values are allowed.
  for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = {m.v[i] * std::cos(p.v[i]), m.v[i] * std::sin(p.v[i])};
  return r;
}
template <class T, class G> struct batch_constant {
  static constexpr std::size_t get(std::size_t i, std::size_t n) { return G::get(static_cast<unsigned>(i), static_cast<unsigned>(n)); }
};
template <class T, class G> constexpr batch_constant<T, G> make_batch_constant() { return {}; }
template <class T, class U, class G> batch<T> swizzle(const batch<T>& a, batch_constant<U, G>) {
  batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = a.v[batch_constant<U, G>::get(i, batch<T>::size)]; return r;
}
}  // namespace xsimd
#endif
