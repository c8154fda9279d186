// A small eager stand-in for the parts of xtensor that DP3 uses. Containers
// own row-major (or column-major) memory, views are strided and write
// through, and all arithmetic is evaluated at once with broadcasting.
// Memory that xtensor leaves uninitialised is filled with a fixed pattern,
// so that its use is repeatable and shows.
#ifndef VERIF_MINI_XT_H
#define VERIF_MINI_XT_H

#include <cassert>
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace xt {

enum class layout_type { dynamic = 0, any = 0xFF, row_major = 1, column_major = 2 };

struct xt_tag {};
template <class A>
concept Arr = std::is_base_of_v<xt_tag, std::remove_cvref_t<A>>;

template <class T>
struct is_cplx : std::false_type {};
template <class T>
struct is_cplx<std::complex<T>> : std::true_type {};
template <class T>
concept Scalar = std::is_arithmetic_v<std::remove_cvref_t<T>> || is_cplx<std::remove_cvref_t<T>>::value;

template <class T>
struct real_of {
  using type = T;
};
template <class T>
struct real_of<std::complex<T>> {
  using type = T;
};
template <class A, class B>
struct promote {
  using R = std::common_type_t<typename real_of<A>::type, typename real_of<B>::type>;
  using type = std::conditional_t<is_cplx<A>::value || is_cplx<B>::value, std::complex<R>, R>;
};

template <class T, std::size_t N>
class view_t;
template <class T, std::size_t N, layout_type L>
class xtensor_container;
template <class T, std::size_t N, layout_type L = layout_type::row_major>
using xtensor = xtensor_container<T, N, L>;
template <class T>
using xarray = xtensor_container<T, 1, layout_type::row_major>;

namespace detail {
template <std::size_t N>
using shape_t = std::array<std::size_t, N>;

template <std::size_t N>
std::size_t count(const shape_t<N>& s) {
  std::size_t n = 1;
  for (std::size_t v : s) n *= v;
  return n;
}

template <std::size_t N>
std::array<std::ptrdiff_t, N> strides(const shape_t<N>& s, bool row = true) {
  std::array<std::ptrdiff_t, N> r{};
  std::ptrdiff_t k = 1;
  for (std::size_t i = 0; i < N; ++i) {
    const std::size_t d = row ? N - 1 - i : i;
    r[d] = k;
    k *= static_cast<std::ptrdiff_t>(s[d]);
  }
  return r;
}

/// Calls f(offset) in row-major logical order.
template <std::size_t N, class F>
void each(const shape_t<N>& s, const std::array<std::ptrdiff_t, N>& st, F&& f) {
  if (count(s) == 0) return;
  std::array<std::size_t, N> i{};
  std::ptrdiff_t off = 0;
  for (;;) {
    f(off);
    std::size_t d = N;
    for (;;) {
      if (d == 0) return;
      --d;
      off += st[d];
      if (++i[d] < s[d]) break;
      off -= st[d] * static_cast<std::ptrdiff_t>(s[d]);
      i[d] = 0;
    }
  }
}

template <std::size_t N, class F>
void each2(const shape_t<N>& s, const std::array<std::ptrdiff_t, N>& a, const std::array<std::ptrdiff_t, N>& b, F&& f) {
  if (count(s) == 0) return;
  std::array<std::size_t, N> i{};
  std::ptrdiff_t oa = 0, ob = 0;
  for (;;) {
    f(oa, ob);
    std::size_t d = N;
    for (;;) {
      if (d == 0) return;
      --d;
      oa += a[d];
      ob += b[d];
      if (++i[d] < s[d]) break;
      oa -= a[d] * static_cast<std::ptrdiff_t>(s[d]);
      ob -= b[d] * static_cast<std::ptrdiff_t>(s[d]);
      i[d] = 0;
    }
  }
}

/// Strides of an M-dimensional array when broadcast to shape s.
template <std::size_t N, std::size_t M>
std::array<std::ptrdiff_t, N> broadcast_strides(const shape_t<N>& s, const shape_t<M>& sm,
                                                const std::array<std::ptrdiff_t, M>& st) {
  static_assert(M <= N);
  std::array<std::ptrdiff_t, N> r{};
  for (std::size_t i = 0; i < M; ++i) {
    const std::size_t d = N - M + i;
    if (sm[i] == s[d])
      r[d] = st[i];
    else if (sm[i] == 1)
      r[d] = 0;
    else
      throw std::runtime_error("xtensor: incompatible dimension of arrays");
  }
  return r;
}

template <std::size_t A, std::size_t B>
auto broadcast_shape(const shape_t<A>& a, const shape_t<B>& b) {
  constexpr std::size_t N = A > B ? A : B;
  shape_t<N> r;
  for (std::size_t i = 0; i < N; ++i) {
    const std::size_t x = i + A >= N ? a[i + A - N] : 1, y = i + B >= N ? b[i + B - N] : 1;
    if (x != y && x != 1 && y != 1) throw std::runtime_error("xtensor: incompatible dimension of arrays");
    r[i] = x == 1 ? y : x;
  }
  return r;
}

template <class T>
void poison(T* p, std::size_t n) {
  if constexpr (std::is_same_v<T, bool>)
    std::fill(p, p + n, true);
  else if constexpr (is_cplx<T>::value)
    std::fill(p, p + n, T(-6.2598534e18f, -6.2598534e18f));
  else if constexpr (std::is_arithmetic_v<T>)
    std::fill(p, p + n, static_cast<T>(std::is_floating_point_v<T> ? -6.2598534e18 : 77));
  else
    (void)p;
}

template <class P>
class iter {
 public:
  using V = typename P::element;
  using iterator_category = std::random_access_iterator_tag;
  using value_type = std::remove_const_t<V>;
  using difference_type = std::ptrdiff_t;
  using pointer = V*;
  using reference = V&;
  static constexpr std::size_t N = P::rank;
  iter() = default;
  iter(V* p, const shape_t<N>& s, const std::array<std::ptrdiff_t, N>& st, std::ptrdiff_t i) : p_(p), s_(s), st_(st), i_(i) {}
  reference operator*() const { return *Addr(i_); }
  pointer operator->() const { return Addr(i_); }
  reference operator[](difference_type k) const { return *Addr(i_ + k); }
  iter& operator++() { ++i_; return *this; }
  iter operator++(int) { iter t = *this; ++i_; return t; }
  iter& operator--() { --i_; return *this; }
  iter operator--(int) { iter t = *this; --i_; return t; }
  iter& operator+=(difference_type k) { i_ += k; return *this; }
  iter& operator-=(difference_type k) { i_ -= k; return *this; }
  friend iter operator+(iter a, difference_type k) { a.i_ += k; return a; }
  friend iter operator+(difference_type k, iter a) { a.i_ += k; return a; }
  friend iter operator-(iter a, difference_type k) { a.i_ -= k; return a; }
  friend difference_type operator-(const iter& a, const iter& b) { return a.i_ - b.i_; }
  friend bool operator==(const iter& a, const iter& b) { return a.i_ == b.i_; }
  friend auto operator<=>(const iter& a, const iter& b) { return a.i_ <=> b.i_; }

 private:
  V* Addr(std::ptrdiff_t i) const {
    std::ptrdiff_t off = 0;
    for (std::size_t d = N; d-- > 0;) {
      const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(s_[d]);
      off += (i % n) * st_[d];
      i /= n;
    }
    return p_ + off;
  }
  V* p_ = nullptr;
  shape_t<N> s_{};
  std::array<std::ptrdiff_t, N> st_{};
  std::ptrdiff_t i_ = 0;
};
}  // namespace detail

/// Operations shared by containers and views; D provides ptr(), shape() and
/// strides().
template <class D, class T, std::size_t N>
class base_t : public xt_tag {
 public:
  using value_type = std::remove_const_t<T>;
  using element = T;
  using reference = T&;
  using const_reference = const T&;
  using size_type = std::size_t;
  using shape_type = detail::shape_t<N>;
  using inner_shape_type = shape_type;
  static constexpr std::size_t rank = N;

  std::size_t dimension() const { return N; }
  std::size_t size() const { return detail::count(self().shape()); }

  template <class... I>
  decltype(auto) operator()(I... i) const {
    return self().ptr()[Offset(static_cast<std::ptrdiff_t>(i)...)];
  }
  template <class... I>
  decltype(auto) operator()(I... i) {
    return self().ptr()[Offset(static_cast<std::ptrdiff_t>(i)...)];
  }
  template <class... I>
  decltype(auto) unchecked(I... i) const {
    return (*this)(i...);
  }
  template <class... I>
  decltype(auto) at(I... i) {
    Check(i...);
    return (*this)(i...);
  }
  template <class... I>
  decltype(auto) at(I... i) const {
    Check(i...);
    return (*this)(i...);
  }
  template <class I>
    requires std::is_integral_v<I>
  decltype(auto) operator[](I i) const {
    return (*this)(i);
  }
  template <class I>
    requires std::is_integral_v<I>
  decltype(auto) operator[](I i) {
    return (*this)(i);
  }
  decltype(auto) operator[](const shape_type& i) const { return self().ptr()[OffsetArr(i)]; }
  decltype(auto) operator[](const shape_type& i) { return self().ptr()[OffsetArr(i)]; }
  template <class It>
  decltype(auto) element_at(It b, It) const {
    shape_type i;
    for (std::size_t k = 0; k < N; ++k) i[k] = *b++;
    return self().ptr()[OffsetArr(i)];
  }
  decltype(auto) flat(std::size_t i) { return self().begin()[static_cast<std::ptrdiff_t>(i)]; }
  decltype(auto) flat(std::size_t i) const { return self().begin()[static_cast<std::ptrdiff_t>(i)]; }
  decltype(auto) front() const { return *self().begin(); }
  decltype(auto) back() const { return *(self().end() - 1); }

  void fill(const value_type& v) { self() = v; }

  // Compound assignment with broadcasting of the right-hand side.
#define XT_COMPOUND(OP)                                                                 \
  template <Scalar S>                                                                   \
  D& operator OP##=(const S & s) {                                                      \
    detail::each(self().shape(), self().strides(), [&](std::ptrdiff_t o) {              \
      auto& e = self().ptr()[o];                                                        \
      e = Conv(Wide<S>(e) OP Wide2<S>(s));                                              \
    });                                                                                 \
    return self();                                                                      \
  }                                                                                     \
  template <Arr A>                                                                      \
  D& operator OP##=(const A & a) {                                                      \
    using B = typename A::value_type;                                                   \
    auto st = detail::broadcast_strides<N, A::rank>(self().shape(), a.shape(), a.strides()); \
    auto* pa = a.ptr();                                                                 \
    detail::each2(self().shape(), self().strides(), st, [&](std::ptrdiff_t o, std::ptrdiff_t q) { \
      auto& e = self().ptr()[o];                                                        \
      e = Conv(Wide<B>(e) OP Wide2<B>(pa[q]));                                          \
    });                                                                                 \
    return self();                                                                      \
  }
  XT_COMPOUND(+)
  XT_COMPOUND(-)
  XT_COMPOUND(*)
  XT_COMPOUND(/)
  XT_COMPOUND(|)
  XT_COMPOUND(&)
#undef XT_COMPOUND

 protected:
  template <class S>
  static typename promote<value_type, S>::type Wide(const value_type& v) {
    return Cast<typename promote<value_type, S>::type>(v);
  }
  template <class S>
  static typename promote<value_type, S>::type Wide2(const S& v) {
    return Cast<typename promote<value_type, S>::type>(v);
  }
  template <class R, class V>
  static R Cast(const V& v) {
    if constexpr (is_cplx<R>::value && !is_cplx<V>::value)
      return R(static_cast<typename R::value_type>(v));
    else
      return static_cast<R>(v);
  }
  template <class V>
  static value_type Conv(const V& v) {
    if constexpr (is_cplx<V>::value && !is_cplx<value_type>::value)
      return static_cast<value_type>(v.real());
    else
      return Cast<value_type>(v);
  }
  template <class... I>
  std::ptrdiff_t Offset(I... i) const {
    constexpr std::size_t K = sizeof...(I);
    const std::array<std::ptrdiff_t, K> idx{i...};
    const auto& st = self().strides();
    const auto& sh = self().shape();
    std::ptrdiff_t o = 0;
    if constexpr (N > 0) {
      for (std::size_t k = 0; k < K; ++k) {
        if (K > N && k < K - N) continue;
        const std::size_t d = N - K + k;
        if (sh[d] != 1 || idx[k] != 0) {
          if (static_cast<std::size_t>(idx[k]) >= sh[d] && sh[d] != 1) OutOfRange();
          if (sh[d] != 1) o += idx[k] * st[d];
        }
      }
    }
    return o;
  }
  std::ptrdiff_t OffsetArr(const shape_type& i) const {
    std::ptrdiff_t o = 0;
    for (std::size_t d = 0; d < N; ++d) o += static_cast<std::ptrdiff_t>(i[d]) * self().strides()[d];
    return o;
  }
  [[noreturn]] static void OutOfRange();
  template <class... I>
  void Check(I... i) const {
    const std::array<std::size_t, sizeof...(I)> idx{static_cast<std::size_t>(i)...};
    if (idx.size() > N) throw std::out_of_range("xtensor: too many indices");
    for (std::size_t k = 0; k < idx.size(); ++k)
      if (idx[k] >= self().shape()[N - idx.size() + k]) throw std::out_of_range("xtensor: index out of range");
  }
  D& self() { return static_cast<D&>(*this); }
  const D& self() const { return static_cast<const D&>(*this); }
};

/// An index outside the array is undefined behaviour in xtensor; here it ends
/// the run.
[[noreturn]] void index_out_of_range();
template <class D, class T, std::size_t N>
void base_t<D, T, N>::OutOfRange() {
  index_out_of_range();
}

template <class T, std::size_t N>
class view_t : public base_t<view_t<T, N>, T, N> {
 public:
  using B = base_t<view_t<T, N>, T, N>;
  using typename B::value_type;
  using typename B::shape_type;
  using strides_type = std::array<std::ptrdiff_t, N>;
  using iterator = detail::iter<view_t>;
  using const_iterator = iterator;

  view_t() = default;
  view_t(T* p, const shape_type& s, const strides_type& st, std::shared_ptr<void> keep = nullptr)
      : p_(p), shape_(s), strides_(st), keep_(std::move(keep)) {}
  view_t(const view_t& o) = default;
  template <class U>
    requires(std::is_same_v<T, const U>)
  view_t(const view_t<U, N>& o) : p_(o.ptr()), shape_(o.shape()), strides_(o.strides()), keep_(o.keep()) {}
  template <class U, layout_type L>
    requires(std::is_same_v<T, const U>)
  view_t(const xtensor_container<U, N, L>& o) : p_(o.ptr()), shape_(o.shape()), strides_(o.strides()) {}

  view_t& operator=(const view_t& o) {
    Assign(o);
    return *this;
  }
  template <Arr A>
  view_t& operator=(const A& a) {
    Assign(a);
    return *this;
  }
  template <Scalar S>
  view_t& operator=(const S& s) {
    const value_type v = B::Conv(s);
    detail::each(shape_, strides_, [&](std::ptrdiff_t o) { p_[o] = v; });
    return *this;
  }
  /// Rebinds the view (there is no such operation in xtensor; used by spans).
  void rebind(const view_t& o) {
    p_ = o.p_;
    shape_ = o.shape_;
    strides_ = o.strides_;
    keep_ = o.keep_;
  }

  T* ptr() const { return p_; }
  T* data() const { return p_; }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t i) const { return shape_[i]; }
  const strides_type& strides() const { return strides_; }
  std::size_t data_offset() const { return 0; }
  const std::shared_ptr<void>& keep() const { return keep_; }
  iterator begin() const { return iterator(p_, shape_, strides_, 0); }
  iterator end() const { return iterator(p_, shape_, strides_, static_cast<std::ptrdiff_t>(this->size())); }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  /// Spans may be resized to the same number of elements only.
  template <class S>
  void resize(const S& s) {
    for (std::size_t i = 0; i < N; ++i)
      if (s[i] != shape_[i]) throw std::runtime_error("xtensor: cannot resize a view");
  }

 private:
  template <Arr A>
  void Assign(const A& a) {
    static_assert(A::rank <= N);
    const auto st = detail::broadcast_strides<N, A::rank>(shape_, a.shape(), a.strides());
    auto* pa = a.ptr();
    // Copy first: xtensor also handles overlapping memory.
    std::vector<typename A::value_type> tmp;
    struct Box {
      typename A::value_type v;
    };
    std::vector<Box> box;
    box.reserve(this->size());
    const strides_type own = detail::strides(shape_);
    detail::each2(shape_, own, st, [&](std::ptrdiff_t, std::ptrdiff_t q) { box.push_back(Box{pa[q]}); });
    std::size_t k = 0;
    detail::each(shape_, strides_, [&](std::ptrdiff_t o) { p_[o] = B::Conv(box[k++].v); });
  }
  T* p_ = nullptr;
  shape_type shape_{};
  strides_type strides_{};
  std::shared_ptr<void> keep_;
};

template <class T, std::size_t N, layout_type L>
class xtensor_container : public base_t<xtensor_container<T, N, L>, T, N> {
 public:
  using B = base_t<xtensor_container<T, N, L>, T, N>;
  using typename B::value_type;
  using typename B::shape_type;
  using strides_type = std::array<std::ptrdiff_t, N>;
  using iterator = std::conditional_t<L == layout_type::column_major && (N > 1), detail::iter<view_t<T, N>>, T*>;
  using const_iterator =
      std::conditional_t<L == layout_type::column_major && (N > 1), detail::iter<view_t<const T, N>>, const T*>;
  static constexpr layout_type static_layout = L;

  xtensor_container() {
    shape_.fill(0);
    Alloc();
  }
  explicit xtensor_container(const shape_type& s, layout_type = L) : shape_(s) { Alloc(); }
  xtensor_container(const shape_type& s, const T& v) : shape_(s) {
    Alloc();
    std::fill_n(p_, n_, v);
  }
  xtensor_container(std::initializer_list<T> v)
    requires(N == 1)
      : shape_{v.size()} {
    Alloc();
    std::copy(v.begin(), v.end(), p_);
  }
  xtensor_container(std::initializer_list<std::initializer_list<T>> v)
    requires(N == 2)
  {
    shape_ = {v.size(), v.size() ? v.begin()->size() : 0};
    Alloc();
    std::size_t k = 0;
    for (const auto& r : v)
      for (const auto& e : r) {
        (*this)(k / shape_[1], k % shape_[1]) = e;
        ++k;
      }
  }
  xtensor_container(const xtensor_container& o) : shape_(o.shape_) {
    Alloc();
    std::copy(o.p_, o.p_ + n_, p_);
  }
  xtensor_container(xtensor_container&& o) noexcept : shape_(o.shape_), strides_(o.strides_), p_(o.p_), n_(o.n_) {
    o.p_ = nullptr;
    o.n_ = 0;
    o.shape_.fill(0);
  }
  template <Arr A>
    requires(!std::is_same_v<std::remove_cvref_t<A>, xtensor_container>)
  xtensor_container(const A& a) : shape_(Shape(a)) {
    Alloc();
    Fill(a);
  }
  ~xtensor_container() { delete[] p_; }

  static xtensor_container from_shape(const shape_type& s) { return xtensor_container(s); }

  xtensor_container& operator=(const xtensor_container& o) {
    if (this != &o) {
      xtensor_container t(o);
      swap(t);
    }
    return *this;
  }
  xtensor_container& operator=(xtensor_container&& o) noexcept {
    if (this != &o) {
      delete[] p_;
      shape_ = o.shape_;
      strides_ = o.strides_;
      p_ = o.p_;
      n_ = o.n_;
      o.p_ = nullptr;
      o.n_ = 0;
      o.shape_.fill(0);
    }
    return *this;
  }
  template <Arr A>
    requires(!std::is_same_v<std::remove_cvref_t<A>, xtensor_container>)
  xtensor_container& operator=(const A& a) {
    xtensor_container t(a);
    if (t.shape_ == shape_)
      std::copy(t.p_, t.p_ + n_, p_);  // keeps its memory, as xtensor does
    else
      swap(t);
    return *this;
  }
  template <Scalar S>
  xtensor_container& operator=(const S& s) {
    std::fill_n(p_, n_, B::Conv(s));
    return *this;
  }
  void swap(xtensor_container& o) noexcept {
    std::swap(shape_, o.shape_);
    std::swap(strides_, o.strides_);
    std::swap(p_, o.p_);
    std::swap(n_, o.n_);
  }

  template <class S>
  void resize(const S& s, bool force = false) {
    shape_type n;
    std::size_t k = 0;
    for (auto v : s) n.at(k++) = static_cast<std::size_t>(v);
    Resize(n);
  }
  template <class E>
  xtensor_container& assign(const E& e) {
    return *this = e;
  }
  void resize(std::initializer_list<unsigned long> s) {
    shape_type n;
    std::size_t k = 0;
    for (auto v : s) n.at(k++) = static_cast<std::size_t>(v);
    Resize(n);
  }
  template <class S>
  xtensor_container& reshape(const S& s) {
    shape_type n;
    std::size_t k = 0;
    for (auto v : s) n.at(k++) = static_cast<std::size_t>(v);
    if (detail::count(n) != n_) throw std::runtime_error("xtensor: cannot reshape");
    shape_ = n;
    strides_ = detail::strides(shape_, L != layout_type::column_major);
    return *this;
  }

  T* ptr() { return p_; }
  const T* ptr() const { return p_; }
  T* data() { return p_; }
  const T* data() const { return p_; }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t i) const { return shape_[i]; }
  const strides_type& strides() const { return strides_; }
  std::size_t size() const { return n_; }
  layout_type layout() const { return L; }
  iterator begin() { return Begin<iterator>(p_, 0); }
  iterator end() { return Begin<iterator>(p_, n_); }
  const_iterator begin() const { return Begin<const_iterator>(static_cast<const T*>(p_), 0); }
  const_iterator end() const { return Begin<const_iterator>(static_cast<const T*>(p_), n_); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  xtensor_container& storage() { return *this; }
  const xtensor_container& storage() const { return *this; }

 private:
  template <class I, class P>
  I Begin(P p, std::size_t k) const {
    if constexpr (std::is_pointer_v<I>)
      return p + k;
    else
      return I(p, shape_, strides_, static_cast<std::ptrdiff_t>(k));
  }
  template <Arr A>
  static shape_type Shape(const A& a) {
    static_assert(A::rank <= N);
    shape_type s;
    for (std::size_t i = 0; i < N; ++i) s[i] = i + A::rank >= N ? a.shape()[i + A::rank - N] : 1;
    return s;
  }
  template <Arr A>
  void Fill(const A& a) {
    const auto st = detail::broadcast_strides<N, A::rank>(shape_, a.shape(), a.strides());
    auto* pa = a.ptr();
    detail::each2(shape_, strides_, st, [&](std::ptrdiff_t o, std::ptrdiff_t q) { p_[o] = B::Conv(pa[q]); });
  }
  void Alloc() {
    n_ = detail::count(shape_);
    strides_ = detail::strides(shape_, L != layout_type::column_major);
    p_ = new T[n_ ? n_ : 1];
    detail::poison(p_, n_);
  }
  void Resize(const shape_type& n) {
    if (detail::count(n) != n_ || p_ == nullptr) {
      xtensor_container t(n);
      swap(t);
    } else {
      shape_ = n;
      strides_ = detail::strides(shape_, L != layout_type::column_major);
    }
  }
  shape_type shape_{};
  strides_type strides_{};
  T* p_ = nullptr;
  std::size_t n_ = 0;
};

// ---------------------------------------------------------------- to views
template <class T, std::size_t N, layout_type L>
view_t<T, N> as_view(xtensor_container<T, N, L>& a) {
  return view_t<T, N>(a.ptr(), a.shape(), a.strides());
}
template <class T, std::size_t N, layout_type L>
view_t<const T, N> as_view(const xtensor_container<T, N, L>& a) {
  return view_t<const T, N>(a.ptr(), a.shape(), a.strides());
}
template <class T, std::size_t N, layout_type L>
view_t<T, N> as_view(xtensor_container<T, N, L>&& a) {
  auto k = std::make_shared<xtensor_container<T, N, L>>(std::move(a));
  return view_t<T, N>(k->ptr(), k->shape(), k->strides(), k);
}
template <class T, std::size_t N>
view_t<T, N> as_view(const view_t<T, N>& a) {
  return a;
}

// ---------------------------------------------------------------- slices
struct all_tag {};
struct newaxis_tag {};
template <class I>
struct range_tag {
  std::ptrdiff_t a, b, step;
};
struct placeholder_tag {};
namespace placeholders {
inline placeholder_tag _;
}
struct keep_tag {
  std::vector<std::size_t> idx;
};
inline all_tag all() { return {}; }
inline newaxis_tag newaxis() { return {}; }
template <class A, class B>
range_tag<int> range(const A& a, const B& b) {
  std::ptrdiff_t x, y;
  if constexpr (std::is_same_v<A, placeholder_tag>)
    x = 0;
  else
    x = static_cast<std::ptrdiff_t>(a);
  if constexpr (std::is_same_v<B, placeholder_tag>)
    y = std::numeric_limits<std::ptrdiff_t>::max();
  else
    y = static_cast<std::ptrdiff_t>(b);
  return {x, y, 1};
}
template <class A, class B, class S>
range_tag<int> range(const A& a, const B& b, const S& s) {
  auto r = range(a, b);
  r.step = static_cast<std::ptrdiff_t>(s);
  return r;
}
template <class C>
keep_tag keep(const C& c) {
  keep_tag k;
  if constexpr (std::is_integral_v<C>)
    k.idx.push_back(static_cast<std::size_t>(c));
  else
    for (auto v : c) k.idx.push_back(static_cast<std::size_t>(v));
  return k;
}

namespace detail {
template <class S>
constexpr bool is_index = std::is_integral_v<std::remove_cvref_t<S>> || std::is_enum_v<std::remove_cvref_t<S>>;
template <class S>
constexpr bool is_new = std::is_same_v<std::remove_cvref_t<S>, newaxis_tag>;
template <class S>
constexpr bool is_keep = std::is_same_v<std::remove_cvref_t<S>, keep_tag>;

template <class T, std::size_t N, std::size_t M>
struct slicer {
  view_t<T, N> in;
  std::ptrdiff_t off = 0;
  shape_t<M> shape{};
  std::array<std::ptrdiff_t, M> st{};
  std::size_t i = 0, o = 0;
  template <class S>
  void Apply(const S& s) {
    if constexpr (is_new<S>) {
      shape[o] = 1;
      st[o++] = 0;
    } else if constexpr (is_index<S>) {
      const std::ptrdiff_t k = static_cast<std::ptrdiff_t>(s);
      if (static_cast<std::size_t>(k) >= in.shape()[i]) index_out_of_range();
      off += k * in.strides()[i++];
    } else if constexpr (std::is_same_v<S, all_tag>) {
      shape[o] = in.shape()[i];
      st[o++] = in.strides()[i++];
    } else {
      const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(in.shape()[i]);
      const std::ptrdiff_t a = std::min(s.a < 0 ? s.a + n : s.a, n), b = std::min(s.b < 0 ? s.b + n : s.b, n);
      shape[o] = b > a ? static_cast<std::size_t>((b - a + s.step - 1) / s.step) : 0;
      off += a * in.strides()[i];
      st[o++] = in.strides()[i++] * s.step;
    }
  }
};
}  // namespace detail

/// A view with a list of indices on one axis: a gathered copy that writes
/// through on assignment.
template <class T, std::size_t N>
class kview : public base_t<kview<T, N>, std::remove_const_t<T>, N> {
 public:
  using V = std::remove_const_t<T>;
  using B = base_t<kview<T, N>, V, N>;
  kview(view_t<T, N> base, std::size_t axis, std::vector<std::size_t> idx) : base_(base), axis_(axis), idx_(std::move(idx)) {
    auto s = base.shape();
    s[axis] = idx_.size();
    copy_.resize(s);
    Move([](V& c, T& b) { c = b; });
  }
  kview(const kview&) = default;
  template <Arr A>
  kview& operator=(const A& a) {
    as_view(copy_) = a;
    Store();
    return *this;
  }
  template <Scalar S>
  kview& operator=(const S& s) {
    copy_ = s;
    Store();
    return *this;
  }
  kview& operator=(const kview& a) {
    as_view(copy_) = a.copy_;
    Store();
    return *this;
  }
  template <class X>
  kview& operator|=(const X& x) {
    copy_ |= x;
    Store();
    return *this;
  }
  template <class X>
  kview& operator+=(const X& x) {
    copy_ += x;
    Store();
    return *this;
  }
  void fill(const V& v) {
    copy_ = v;
    Store();
  }
  V* ptr() { return copy_.ptr(); }
  const V* ptr() const { return copy_.ptr(); }
  const auto& shape() const { return copy_.shape(); }
  std::size_t shape(std::size_t i) const { return copy_.shape(i); }
  const auto& strides() const { return copy_.strides(); }
  auto begin() const { return copy_.begin(); }
  auto end() const { return copy_.end(); }

 private:
  template <class F>
  void Move(F&& f) {
    const auto s = copy_.shape();
    std::size_t k = 0;
    detail::each(s, copy_.strides(), [&](std::ptrdiff_t o) {
      std::size_t r = k++;
      std::ptrdiff_t off = 0;
      for (std::size_t d = N; d-- > 0;) {
        std::size_t i = r % s[d];
        r /= s[d];
        if (d == axis_) {
          i = idx_[i];
          if (i >= base_.shape()[d]) index_out_of_range();
        }
        off += static_cast<std::ptrdiff_t>(i) * base_.strides()[d];
      }
      f(copy_.ptr()[o], base_.ptr()[off]);
    });
  }
  void Store() {
    if constexpr (!std::is_const_v<T>) Move([](V& c, T& b) { b = c; });
  }
  view_t<T, N> base_;
  std::size_t axis_;
  std::vector<std::size_t> idx_;
  xtensor<V, N> copy_;
};
template <class T, std::size_t N>
view_t<const std::remove_const_t<T>, N> as_view(const kview<T, N>& a) {
  xtensor<std::remove_const_t<T>, N> c(a);
  return as_view(std::move(c));
}

template <Arr A, class... S>
auto view(A&& a, const S&... s) {
  auto in = as_view(std::forward<A>(a));
  using V = decltype(in);
  using T = typename V::element;
  constexpr std::size_t N = V::rank;
  constexpr std::size_t kIndex = (std::size_t{0} + ... + (detail::is_index<S> ? 1 : 0));
  constexpr std::size_t kNew = (std::size_t{0} + ... + (detail::is_new<S> ? 1 : 0));
  constexpr std::size_t kKeep = (std::size_t{0} + ... + (detail::is_keep<S> ? 1 : 0));
  constexpr std::size_t M = N - kIndex + kNew;
  static_assert(kKeep <= 1);
  detail::slicer<T, N, M> sl{in};
  if constexpr (kKeep == 0) {
    (sl.Apply(s), ...);
    while (sl.i < N) sl.Apply(all());
    return view_t<T, M>(in.ptr() + sl.off, sl.shape, sl.st, in.keep());
  } else {
    std::size_t axis = 0;
    std::vector<std::size_t> idx;
    auto one = [&](const auto& x) {
      if constexpr (detail::is_keep<decltype(x)>) {
        axis = sl.o;
        idx = x.idx;
        sl.Apply(all());
      } else {
        sl.Apply(x);
      }
    };
    (one(s), ...);
    while (sl.i < N) sl.Apply(all());
    return kview<T, M>(view_t<T, M>(in.ptr() + sl.off, sl.shape, sl.st, in.keep()), axis, idx);
  }
}
template <Arr A, class I>
auto row(A&& a, I i) {
  return view(std::forward<A>(a), i, all());
}

// ---------------------------------------------------------------- adapt
struct no_ownership {};
struct acquire_ownership {};
namespace detail {
template <class C>
auto container_ptr(C& c) {
  return c.data();
}
template <class T, std::size_t K>
T* container_ptr(T (&c)[K]) {
  return c;
}
template <class P, std::size_t M>
auto adapt_ptr(P* p, const shape_t<M>& s, std::shared_ptr<void> keep = nullptr) {
  return view_t<P, M>(p, s, strides(s), std::move(keep));
}
}  // namespace detail
template <class C, class I, std::size_t M>
  requires(!std::is_pointer_v<std::remove_cvref_t<C>>)
auto adapt(C&& c, const std::array<I, M>& s) {
  detail::shape_t<M> sh;
  std::copy(s.begin(), s.end(), sh.begin());
  if constexpr (std::is_lvalue_reference_v<C>) {
    return detail::adapt_ptr(detail::container_ptr(c), sh);
  } else {
    auto k = std::make_shared<std::remove_cvref_t<C>>(std::move(c));
    return detail::adapt_ptr(k->data(), sh, k);
  }
}
template <class C, class I, std::size_t M>
  requires(!std::is_pointer_v<std::remove_cvref_t<C>>)
auto adapt(C&& c, const I (&s)[M]) {
  std::array<I, M> a;
  std::copy(s, s + M, a.begin());
  return adapt(std::forward<C>(c), a);
}
template <class C>
  requires(!std::is_pointer_v<std::remove_cvref_t<C>> && !std::is_array_v<std::remove_reference_t<C>>)
auto adapt(C&& c) {
  const std::array<std::size_t, 1> s{c.size()};
  return adapt(std::forward<C>(c), s);
}
template <class T, std::size_t K>
auto adapt(T (&c)[K]) {
  return detail::adapt_ptr(static_cast<T*>(c), detail::shape_t<1>{K});
}
template <class P, class I, std::size_t M>
auto adapt(P* p, const std::array<I, M>& s) {
  detail::shape_t<M> sh;
  std::copy(s.begin(), s.end(), sh.begin());
  return detail::adapt_ptr(p, sh);
}
template <class P, class I, std::size_t M>
auto adapt(P* p, const I (&s)[M]) {
  detail::shape_t<M> sh;
  std::copy(s, s + M, sh.begin());
  return detail::adapt_ptr(p, sh);
}
template <class P, class I, std::size_t M>
auto adapt(P* p, std::size_t, no_ownership, const std::array<I, M>& s) {
  return adapt(p, s);
}

// ---------------------------------------------------------------- operators
namespace detail {
template <class X>
struct elem {
  using type = std::remove_cvref_t<X>;
};
template <Arr X>
struct elem<X> {
  using type = typename std::remove_cvref_t<X>::value_type;
};
template <class R, class V>
R conv(const V& v) {
  if constexpr (is_cplx<R>::value && !is_cplx<V>::value)
    return R(static_cast<typename R::value_type>(v));
  else
    return static_cast<R>(v);
}
template <class F, class A, class Bt>
auto binary(F&& f, const A& a, const Bt& b) {
  using X = typename elem<A>::type;
  using Y = typename elem<Bt>::type;
  using R = std::remove_cvref_t<decltype(f(std::declval<X>(), std::declval<Y>()))>;
  if constexpr (Arr<A> && Arr<Bt>) {
    const auto s = broadcast_shape(a.shape(), b.shape());
    constexpr std::size_t N = std::tuple_size_v<std::remove_cvref_t<decltype(s)>>;
    xtensor<R, N> r(s);
    const auto sa = broadcast_strides<N, A::rank>(s, a.shape(), a.strides());
    const auto sb = broadcast_strides<N, Bt::rank>(s, b.shape(), b.strides());
    auto* pa = a.ptr();
    auto* pb = b.ptr();
    R* pr = r.ptr();
    each2(s, sa, sb, [&](std::ptrdiff_t x, std::ptrdiff_t y) { *pr++ = f(pa[x], pb[y]); });
    return r;
  } else if constexpr (Arr<A>) {
    xtensor<R, A::rank> r(a.shape());
    auto* pa = a.ptr();
    R* pr = r.ptr();
    each(a.shape(), a.strides(), [&](std::ptrdiff_t x) { *pr++ = f(pa[x], b); });
    return r;
  } else {
    xtensor<R, Bt::rank> r(b.shape());
    auto* pb = b.ptr();
    R* pr = r.ptr();
    each(b.shape(), b.strides(), [&](std::ptrdiff_t x) { *pr++ = f(a, pb[x]); });
    return r;
  }
}
template <class F, Arr A>
auto unary(F&& f, const A& a) {
  using R = std::remove_cvref_t<decltype(f(std::declval<typename A::value_type>()))>;
  xtensor<R, A::rank> r(a.shape());
  auto* pa = a.ptr();
  R* pr = r.ptr();
  each(a.shape(), a.strides(), [&](std::ptrdiff_t x) { *pr++ = f(pa[x]); });
  return r;
}
}  // namespace detail

template <class A, class B>
concept Operands = (Arr<A> && (Arr<B> || Scalar<B>)) || (Scalar<A> && Arr<B>);

#define XT_ARITH(OP)                                             \
  template <class A, class B>                                    \
    requires Operands<A, B>                                      \
  auto operator OP(const A& a, const B& b) {                     \
    return detail::binary(                                       \
        [](const auto& x, const auto& y) {                       \
          using R = typename promote<std::remove_cvref_t<decltype(x)>, std::remove_cvref_t<decltype(y)>>::type; \
          return detail::conv<R>(x) OP detail::conv<R>(y);       \
        },                                                       \
        a, b);                                                   \
  }
XT_ARITH(+)
XT_ARITH(-)
XT_ARITH(*)
XT_ARITH(/)
#undef XT_ARITH
#define XT_LOGIC(OP)                                                                           \
  template <class A, class B>                                                                  \
    requires Operands<A, B>                                                                    \
  auto operator OP(const A& a, const B& b) {                                                   \
    return detail::binary([](const auto& x, const auto& y) -> bool { return x OP y; }, a, b);  \
  }
XT_LOGIC(<)
XT_LOGIC(>)
XT_LOGIC(<=)
XT_LOGIC(>=)
XT_LOGIC(&&)
XT_LOGIC(||)
#undef XT_LOGIC
#define XT_BITS(OP)                                                                    \
  template <class A, class B>                                                          \
    requires Operands<A, B>                                                            \
  auto operator OP(const A& a, const B& b) {                                           \
    return detail::binary([](const auto& x, const auto& y) { return x OP y; }, a, b);  \
  }
XT_BITS(|)
XT_BITS(&)
XT_BITS(^)
#undef XT_BITS
template <Arr A>
auto operator!(const A& a) {
  return detail::unary([](const auto& x) -> bool { return !x; }, a);
}
template <Arr A>
auto operator-(const A& a) {
  return detail::unary([](const auto& x) { return -x; }, a);
}
/// Comparison of whole arrays.
template <Arr A, Arr B>
bool operator==(const A& a, const B& b) {
  if constexpr (std::remove_cvref_t<A>::rank != std::remove_cvref_t<B>::rank) {
    return false;
  } else {
    if (a.shape() != b.shape()) return false;
    bool eq = true;
    auto *pa = a.ptr(), *pb = b.ptr();
    detail::each2(a.shape(), a.strides(), b.strides(), [&](std::ptrdiff_t x, std::ptrdiff_t y) { eq = eq && pa[x] == pb[y]; });
    return eq;
  }
}

#define XT_CMP(NAME, OP)                                                                       \
  template <class A, class B>                                                                  \
    requires Operands<A, B>                                                                    \
  auto NAME(const A& a, const B& b) {                                                          \
    return detail::binary([](const auto& x, const auto& y) -> bool { return x OP y; }, a, b);  \
  }
XT_CMP(equal, ==)
XT_CMP(not_equal, !=)
XT_CMP(less, <)
XT_CMP(greater, >)
XT_CMP(less_equal, <=)
XT_CMP(greater_equal, >=)
#undef XT_CMP

#define XT_FN(NAME, EXPR)                                                     \
  template <Arr A>                                                            \
  auto NAME(const A& a) {                                                     \
    return detail::unary([](const auto& x) { using std::NAME; return EXPR; }, a); \
  }
XT_FN(abs, abs(x))
XT_FN(sqrt, sqrt(x))
XT_FN(exp, exp(x))
XT_FN(log, log(x))
XT_FN(sin, sin(x))
XT_FN(cos, cos(x))
XT_FN(tan, tan(x))
XT_FN(conj, conj(x))
XT_FN(norm, norm(x))
XT_FN(arg, arg(x))
XT_FN(floor, floor(x))
XT_FN(ceil, ceil(x))
XT_FN(round, round(x))
#undef XT_FN
template <Arr A>
auto square(const A& a) {
  return detail::unary([](const auto& x) { return x * x; }, a);
}
template <class A, class B>
  requires Operands<A, B>
auto pow(const A& a, const B& b) {
  return detail::binary([](const auto& x, const auto& y) { return std::pow(x, y); }, a, b);
}
template <class A, class B>
  requires Operands<A, B>
auto maximum(const A& a, const B& b) {
  return detail::binary([](const auto& x, const auto& y) { return std::max<std::common_type_t<decltype(x), decltype(y)>>(x, y); }, a, b);
}
template <class A, class B>
  requires Operands<A, B>
auto minimum(const A& a, const B& b) {
  return detail::binary([](const auto& x, const auto& y) { return std::min<std::common_type_t<decltype(x), decltype(y)>>(x, y); }, a, b);
}
template <class T>
bool finite_one(const T& x) {
  if constexpr (is_cplx<T>::value)
    return std::isfinite(x.real()) && std::isfinite(x.imag());
  else
    return std::isfinite(static_cast<double>(x));
}
template <class T>
bool nan_one(const T& x) {
  if constexpr (is_cplx<T>::value)
    return std::isnan(x.real()) || std::isnan(x.imag());
  else
    return std::isnan(static_cast<double>(x));
}
template <Arr A>
auto isfinite(const A& a) {
  return detail::unary([](const auto& x) { return finite_one(x); }, a);
}
template <Arr A>
auto isnan(const A& a) {
  return detail::unary([](const auto& x) { return nan_one(x); }, a);
}
template <Arr A>
auto isinf(const A& a) {
  return detail::unary([](const auto& x) { return !finite_one(x) && !nan_one(x); }, a);
}
template <class R, Arr A>
auto cast(const A& a) {
  return detail::unary([](const auto& x) { return detail::conv<R>(x); }, a);
}
template <class A, class B>
  requires Operands<A, B>
auto isclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8) {
  return detail::binary([=](const auto& x, const auto& y) { return std::abs(x - y) <= atol + rtol * std::abs(y); }, a, b);
}
template <class A, class B>
  requires Operands<A, B>
bool allclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8) {
  const auto r = isclose(a, b, rtol, atol);
  return std::all_of(r.begin(), r.end(), [](bool x) { return x; });
}
template <Arr A>
bool any(const A& a) {
  bool r = false;
  auto* p = a.ptr();
  detail::each(a.shape(), a.strides(), [&](std::ptrdiff_t o) { r = r || p[o] != typename A::value_type(0); });
  return r;
}
template <Arr A>
bool all(const A& a) {
  bool r = true;
  auto* p = a.ptr();
  detail::each(a.shape(), a.strides(), [&](std::ptrdiff_t o) { r = r && p[o] != typename A::value_type(0); });
  return r;
}

// real and imaginary parts; of an lvalue, they can be assigned to.
namespace detail {
template <class A>
auto part(A&& a, int k) {
  auto v = as_view(std::forward<A>(a));
  using T = typename decltype(v)::element;
  using C = std::remove_const_t<T>;
  constexpr std::size_t N = decltype(v)::rank;
  if constexpr (is_cplx<C>::value) {
    using R = std::conditional_t<std::is_const_v<T>, const typename C::value_type, typename C::value_type>;
    auto st = v.strides();
    for (auto& x : st) x *= 2;
    return view_t<R, N>(reinterpret_cast<R*>(v.ptr()) + k, v.shape(), st, v.keep());
  } else {
    if (k == 0) return v;
    xtensor<C, N> z(v.shape(), C(0));
    auto w = as_view(std::move(z));
    return decltype(v)(w.ptr(), w.shape(), w.strides(), w.keep());
  }
}
}  // namespace detail
template <Arr A>
auto real(A&& a) {
  return detail::part(std::forward<A>(a), 0);
}
template <Arr A>
auto imag(A&& a) {
  return detail::part(std::forward<A>(a), 1);
}

// ---------------------------------------------------------------- reductions
namespace detail {
template <class V>
struct sum_of {
  using type = std::conditional_t<std::is_same_v<V, bool>, long, V>;
};
template <class R, class F, Arr A>
xtensor<R, 0> reduce(const A& a, R init, F&& f) {
  xtensor<R, 0> r(shape_t<0>{});
  auto* p = a.ptr();
  each(a.shape(), a.strides(), [&](std::ptrdiff_t o) { init = f(init, p[o]); });
  r() = init;
  return r;
}
template <std::size_t K, class R, class F, Arr A>
auto reduce_axes(const A& a, const std::array<std::size_t, K>& axes, R init, F&& f) {
  constexpr std::size_t N = A::rank, M = N - K;
  shape_t<M> s;
  std::array<std::ptrdiff_t, N> st{};
  std::array<bool, N> gone{};
  for (auto x : axes) gone[x] = true;
  std::size_t k = 0;
  for (std::size_t d = 0; d < N; ++d)
    if (!gone[d]) s[k++] = a.shape()[d];
  xtensor<R, M> r(s, init);
  k = 0;
  for (std::size_t d = 0; d < N; ++d)
    if (!gone[d]) st[d] = r.strides()[k++];
  auto* p = a.ptr();
  R* q = r.ptr();
  each2(a.shape(), a.strides(), st, [&](std::ptrdiff_t x, std::ptrdiff_t y) { q[y] = f(q[y], p[x]); });
  return r;
}
template <class I, std::size_t K>
std::array<std::size_t, K> axes(const I (&x)[K]) {
  std::array<std::size_t, K> r;
  std::copy(x, x + K, r.begin());
  return r;
}
}  // namespace detail
#define XT_REDUCE(NAME, RTYPE, INIT, F)                                            \
  template <Arr A>                                                                 \
  auto NAME(const A& a) {                                                          \
    using V = typename A::value_type;                                              \
    using R = RTYPE;                                                               \
    return detail::reduce<R>(a, INIT, F);                                          \
  }                                                                                \
  template <Arr A, class I>                                                        \
    requires std::is_integral_v<I>                                                 \
  auto NAME(const A& a, I axis) {                                                  \
    using V = typename A::value_type;                                              \
    using R = RTYPE;                                                               \
    return detail::reduce_axes<1, R>(a, {static_cast<std::size_t>(axis)}, INIT, F); \
  }                                                                                \
  template <Arr A, class I, std::size_t K>                                         \
  auto NAME(const A& a, const I (&axes)[K]) {                                      \
    using V = typename A::value_type;                                              \
    using R = RTYPE;                                                               \
    return detail::reduce_axes<K, R>(a, detail::axes(axes), INIT, F);              \
  }
XT_REDUCE(sum, typename detail::sum_of<V>::type, R(0), ([](const R& x, const V& y) -> R { return x + R(y); }))
XT_REDUCE(nansum, V, R(0), ([](const R& x, const V& y) -> R { return nan_one(y) ? x : x + y; }))
XT_REDUCE(prod, typename detail::sum_of<V>::type, R(1), ([](const R& x, const V& y) -> R { return x * R(y); }))
XT_REDUCE(amax, V, std::numeric_limits<R>::lowest(), ([](const R& x, const V& y) -> R { return y > x ? y : x; }))
XT_REDUCE(amin, V, std::numeric_limits<R>::max(), ([](const R& x, const V& y) -> R { return y < x ? y : x; }))
#undef XT_REDUCE
namespace detail {
template <class A>
std::size_t reduced(const A& a, const std::vector<std::size_t>& ax) {
  std::size_t n = 1;
  for (auto x : ax) n *= a.shape()[x];
  return n;
}
}  // namespace detail
template <Arr A>
auto mean(const A& a) {
  auto r = sum(a);
  r() = r() / static_cast<typename real_of<typename A::value_type>::type>(a.size());
  return r;
}
template <Arr A, class I, std::size_t K>
auto mean(const A& a, const I (&axes)[K]) {
  auto r = sum(a, axes);
  std::vector<std::size_t> ax(axes, axes + K);
  r /= static_cast<typename real_of<typename A::value_type>::type>(detail::reduced(a, ax));
  return r;
}
template <Arr A>
auto stddev(const A& a) {
  const auto m = mean(a)();
  auto r = mean(square(a - m));
  r() = std::sqrt(r());
  return r;
}
template <Arr A, class I, std::size_t K>
auto stddev(const A& a, const I (&axes)[K]) {
  static_assert(K == 1);
  auto m = mean(a, axes);
  // Subtract along the reduced axis.
  xtensor<typename A::value_type, A::rank> d(a);
  std::array<std::ptrdiff_t, A::rank> st{};
  std::size_t k = 0;
  for (std::size_t i = 0; i < A::rank; ++i)
    if (i != static_cast<std::size_t>(axes[0])) st[i] = m.strides()[k++];
  detail::each2(d.shape(), d.strides(), st, [&](std::ptrdiff_t x, std::ptrdiff_t y) { d.ptr()[x] -= m.ptr()[y]; });
  auto v = mean(square(d), axes);
  return sqrt(v);
}
template <class V>
V median_of(std::vector<V> v) {
  if (v.empty()) return std::numeric_limits<V>::quiet_NaN();
  std::sort(v.begin(), v.end());
  const std::size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / V(2);
}
template <Arr A>
auto median(const A& a) {
  std::vector<typename A::value_type> v;
  auto* p = a.ptr();
  detail::each(a.shape(), a.strides(), [&](std::ptrdiff_t o) { v.push_back(p[o]); });
  return median_of(std::move(v));
}
template <Arr A>
auto median(const A& a, std::ptrdiff_t axis) {
  using V = typename A::value_type;
  constexpr std::size_t M = A::rank - 1;
  detail::shape_t<M> s;
  std::array<std::ptrdiff_t, M> st;
  std::size_t k = 0;
  for (std::size_t d = 0; d < A::rank; ++d)
    if (static_cast<std::ptrdiff_t>(d) != axis) {
      s[k] = a.shape()[d];
      st[k++] = a.strides()[d];
    }
  xtensor<V, M> r(s);
  auto* p = a.ptr();
  V* q = r.ptr();
  detail::each(s, st, [&](std::ptrdiff_t o) {
    std::vector<V> v;
    for (std::size_t i = 0; i < a.shape()[axis]; ++i) v.push_back(p[o + static_cast<std::ptrdiff_t>(i) * a.strides()[axis]]);
    *q++ = median_of(std::move(v));
  });
  return r;
}

// ---------------------------------------------------------------- masks
template <class T, std::size_t N>
struct masked {
  view_t<T, N> v;
  xtensor<bool, N> m;
  template <Scalar S>
  masked& operator=(const S& s) {
    detail::each2(v.shape(), v.strides(), m.strides(), [&](std::ptrdiff_t a, std::ptrdiff_t b) {
      if (m.ptr()[b]) v.ptr()[a] = detail::conv<T>(s);
    });
    return *this;
  }
  void fill(const T& s) { *this = s; }
};
template <Arr A, Arr M>
auto masked_view(A&& a, const M& m) {
  auto v = as_view(std::forward<A>(a));
  using V = decltype(v);
  const auto st = detail::broadcast_strides<V::rank, M::rank>(v.shape(), m.shape(), m.strides());
  xtensor<bool, V::rank> b(v.shape());
  auto* pm = m.ptr();
  detail::each2(b.shape(), b.strides(), st, [&](std::ptrdiff_t x, std::ptrdiff_t y) { b.ptr()[x] = static_cast<bool>(pm[y]); });
  return masked<typename V::element, V::rank>{v, std::move(b)};
}
template <Arr A, Arr M>
auto filtration(A&& a, const M& m) {
  return masked_view(std::forward<A>(a), m);
}
template <Arr A, Arr M>
auto filter(const A& a, const M& m) {
  static_assert(A::rank == M::rank);
  std::vector<typename A::value_type> v;
  auto* p = a.ptr();
  auto* q = m.ptr();
  detail::each2(a.shape(), a.strides(), m.strides(), [&](std::ptrdiff_t x, std::ptrdiff_t y) {
    if (q[y]) v.push_back(p[x]);
  });
  xtensor<typename A::value_type, 1> r({v.size()});
  std::copy(v.begin(), v.end(), r.begin());
  return r;
}
/// Indices per dimension of the non-zero elements.
template <Arr A>
std::vector<std::vector<std::size_t>> where(const A& a) {
  std::vector<std::vector<std::size_t>> r(A::rank);
  auto* p = a.ptr();
  std::size_t k = 0;
  detail::each(a.shape(), a.strides(), [&](std::ptrdiff_t o) {
    std::size_t i = k++;
    if (p[o] == typename A::value_type(0)) return;
    std::array<std::size_t, A::rank> ix;
    for (std::size_t d = A::rank; d-- > 0;) {
      ix[d] = i % a.shape()[d];
      i /= a.shape()[d];
    }
    for (std::size_t d = 0; d < A::rank; ++d) r[d].push_back(ix[d]);
  });
  return r;
}
template <Arr A>
std::vector<std::array<std::size_t, A::rank>> argwhere(const A& a) {
  const auto w = where(a);
  std::vector<std::array<std::size_t, A::rank>> r(w[0].size());
  for (std::size_t i = 0; i < r.size(); ++i)
    for (std::size_t d = 0; d < A::rank; ++d) r[i][d] = w[d][i];
  return r;
}
template <std::size_t N>
xtensor<std::size_t, 1> flatten_indices(const std::vector<std::array<std::size_t, N>>& v) {
  xtensor<std::size_t, 1> r({v.size() * N});
  std::size_t k = 0;
  for (const auto& x : v)
    for (auto y : x) r(k++) = y;
  return r;
}
inline xtensor<std::size_t, 1> flatten_indices(const std::vector<std::vector<std::size_t>>& v) {
  std::size_t n = 0;
  for (const auto& x : v) n += x.size();
  xtensor<std::size_t, 1> r({n});
  std::size_t k = 0;
  for (const auto& x : v)
    for (auto y : x) r(k++) = y;
  return r;
}
template <Arr C, class A, class B>
auto where(const C& c, const A& a, const B& b) {
  using X = typename promote<typename detail::elem<A>::type, typename detail::elem<B>::type>::type;
  xtensor<X, C::rank> r(c.shape());
  auto get = [&](const auto& s) {
    xtensor<X, C::rank> t(c.shape());
    as_view(t) = s;
    return t;
  };
  const auto x = get(a), y = get(b);
  std::size_t k = 0;
  detail::each(c.shape(), c.strides(), [&](std::ptrdiff_t o) {
    r.ptr()[k] = c.ptr()[o] ? x.ptr()[k] : y.ptr()[k];
    ++k;
  });
  return r;
}

// ---------------------------------------------------------------- shapes
namespace detail {
template <class V, std::size_t M>
auto reshape(V v, const shape_t<M>& s) {
  if (count(s) != v.size()) throw std::runtime_error("xtensor: cannot reshape");
  if (v.strides() != strides(v.shape())) {
    // A view with holes: only strides that can be merged are supported, else
    // a copy is made (reading only).
    if constexpr (M == 1) {
      std::ptrdiff_t step = 0;
      bool ok = true;
      const auto st = strides(v.shape());
      for (std::size_t d = 0; d < V::rank; ++d)
        if (v.shape()[d] > 1) {
          if (step == 0) step = v.strides()[d] / st[d];
          if (v.strides()[d] != step * st[d]) ok = false;
        }
      if (ok) return view_t<typename V::element, M>(v.ptr(), s, {step == 0 ? 1 : step}, v.keep());
    }
    throw std::logic_error("mini_xt: unsupported reshape of a strided view");
  }
  return view_t<typename V::element, M>(v.ptr(), s, strides(s), v.keep());
}
}  // namespace detail
template <Arr A, class I, std::size_t M>
auto reshape_view(A&& a, const I (&s)[M]) {
  detail::shape_t<M> sh;
  std::copy(s, s + M, sh.begin());
  return detail::reshape(as_view(std::forward<A>(a)), sh);
}
template <Arr A, class I, std::size_t M>
auto reshape_view(A&& a, const std::array<I, M>& s) {
  detail::shape_t<M> sh;
  std::copy(s.begin(), s.end(), sh.begin());
  return detail::reshape(as_view(std::forward<A>(a)), sh);
}
template <Arr A>
auto flatten(A&& a) {
  const detail::shape_t<1> s{a.size()};
  return detail::reshape(as_view(std::forward<A>(a)), s);
}
template <Arr A>
auto ravel(A&& a) {
  return flatten(std::forward<A>(a));
}
template <Arr A>
auto transpose(A&& a) {
  auto v = as_view(std::forward<A>(a));
  auto s = v.shape();
  auto st = v.strides();
  std::reverse(s.begin(), s.end());
  std::reverse(st.begin(), st.end());
  return decltype(v)(v.ptr(), s, st, v.keep());
}
template <Arr A, class I, std::size_t M>
auto broadcast(A&& a, const std::array<I, M>& s) {
  auto v = as_view(std::forward<A>(a));
  detail::shape_t<M> sh;
  std::copy(s.begin(), s.end(), sh.begin());
  return view_t<typename decltype(v)::element, M>(v.ptr(), sh, detail::broadcast_strides<M, decltype(v)::rank>(sh, v.shape(), v.strides()), v.keep());
}
template <class T, class I, std::size_t M>
auto empty(const I (&s)[M]) {
  detail::shape_t<M> sh;
  std::copy(s, s + M, sh.begin());
  return xtensor<T, M>(sh);
}
template <class T, class I, std::size_t M>
auto empty(const std::array<I, M>& s) {
  detail::shape_t<M> sh;
  std::copy(s.begin(), s.end(), sh.begin());
  return xtensor<T, M>(sh);
}
template <class T, class I, std::size_t M>
auto zeros(const I (&s)[M]) {
  detail::shape_t<M> sh;
  std::copy(s, s + M, sh.begin());
  return xtensor<T, M>(sh, T(0));
}
template <class T, class I, std::size_t M>
auto zeros(const std::array<I, M>& s) {
  detail::shape_t<M> sh;
  std::copy(s.begin(), s.end(), sh.begin());
  return xtensor<T, M>(sh, T(0));
}
template <class T, class I, std::size_t M>
auto ones(const I (&s)[M]) {
  detail::shape_t<M> sh;
  std::copy(s, s + M, sh.begin());
  return xtensor<T, M>(sh, T(1));
}
template <class T, class I, std::size_t M>
auto ones(const std::array<I, M>& s) {
  detail::shape_t<M> sh;
  std::copy(s.begin(), s.end(), sh.begin());
  return xtensor<T, M>(sh, T(1));
}
template <Arr A>
auto zeros_like(const A& a) {
  return xtensor<typename A::value_type, A::rank>(a.shape(), typename A::value_type(0));
}
template <Arr A>
auto ones_like(const A& a) {
  return xtensor<typename A::value_type, A::rank>(a.shape(), typename A::value_type(1));
}
template <class T = double>
auto arange(T a, T b, T step = T(1)) {
  std::vector<T> v;
  for (T x = a; x < b; x += step) v.push_back(x);
  xtensor<T, 1> r({v.size()});
  std::copy(v.begin(), v.end(), r.begin());
  return r;
}
template <class T = double>
auto linspace(T a, T b, std::size_t n = 50) {
  xtensor<T, 1> r({n});
  for (std::size_t i = 0; i < n; ++i) r(i) = n > 1 ? a + (b - a) * T(i) / T(n - 1) : a;
  return r;
}
template <class I, std::size_t N>
std::array<std::size_t, N> shape(const I (&s)[N]) {
  std::array<std::size_t, N> r;
  std::copy(s, s + N, r.begin());
  return r;
}
template <class S, class I, std::size_t N>
S shape(const I (&s)[N]) {
  S r;
  std::copy(s, s + N, r.begin());
  return r;
}
template <Arr A>
auto& noalias(A& a) {
  return a;
}
template <Arr A>
auto noalias(const view_t<typename A::element, A::rank>& a) {
  return a;
}
template <Arr A>
auto eval(const A& a) {
  return xtensor<typename A::value_type, A::rank>(a);
}
template <class F>
auto vectorize(F f) {
  return [f](const auto&... a) {
    if constexpr (sizeof...(a) == 1) return detail::unary(f, a...);
    else return detail::binary(f, a...);
  };
}
template <Arr A>
std::ostream& operator<<(std::ostream& os, const A& a) {
  auto* p = a.ptr();
  os << "{";
  detail::each(a.shape(), a.strides(), [&](std::ptrdiff_t o) { os << p[o] << " "; });
  return os << "}";
}

// Older names of containers used in declarations.
template <class T, std::size_t N, layout_type L = layout_type::row_major>
using xtensor_pointer = view_t<T, N>;

}  // namespace xt

template <class T, std::size_t N, xt::layout_type L>
void swap(xt::xtensor_container<T, N, L>& a, xt::xtensor_container<T, N, L>& b) noexcept {
  a.swap(b);
}
#endif
