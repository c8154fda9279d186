// Stand-in for aocommon/uvector.h: a vector that does not initialise new
// elements.  Fresh storage is filled with a fixed pattern (NaN for floating
// point, true for bool), so that a value that is read before it was written
// is visible and every run is repeatable.
#ifndef AOCOMMON_UVECTOR_H
#define AOCOMMON_UVECTOR_H

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace aocommon {

template <typename Tp, typename Alloc = std::allocator<Tp>>
class UVector {
 public:
  using value_type = Tp;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = Tp&;
  using const_reference = const Tp&;
  using pointer = Tp*;
  using const_pointer = const Tp*;
  using iterator = Tp*;
  using const_iterator = const Tp*;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using allocator_type = Alloc;

  UVector() = default;
  explicit UVector(const Alloc&) {}
  explicit UVector(size_t n) { resize(n); }
  UVector(size_t n, const Tp& v) { assign(n, v); }
  template <class It, class = std::enable_if_t<!std::is_integral_v<It>>>
  UVector(It a, It b) {
    assign(a, b);
  }
  UVector(std::initializer_list<Tp> l) { assign(l.begin(), l.end()); }
  UVector(const UVector& o) { assign(o.begin(), o.end()); }
  UVector(UVector&& o) noexcept { swap(o); }
  UVector& operator=(const UVector& o) {
    if (this != &o) {
      UVector t(o);
      swap(t);
    }
    return *this;
  }
  UVector& operator=(UVector&& o) noexcept {
    swap(o);
    return *this;
  }
  UVector& operator=(std::initializer_list<Tp> l) {
    assign(l.begin(), l.end());
    return *this;
  }
  ~UVector() { ::operator delete(p_); }

  void assign(size_t n, const Tp& v) {
    const Tp value = v;
    clear();
    resize(n);
    std::fill(begin(), end(), value);
  }
  template <class It, class = std::enable_if_t<!std::is_integral_v<It>>>
  void assign(It a, It b) {
    clear();
    insert(end(), a, b);
  }
  void assign(std::initializer_list<Tp> l) { assign(l.begin(), l.end()); }

  iterator begin() { return p_; }
  iterator end() { return p_ + n_; }
  const_iterator begin() const { return p_; }
  const_iterator end() const { return p_ + n_; }
  const_iterator cbegin() const { return p_; }
  const_iterator cend() const { return p_ + n_; }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }

  size_t size() const { return n_; }
  size_t capacity() const { return cap_; }
  bool empty() const { return n_ == 0; }
  size_t max_size() const { return size_t(-1) / sizeof(Tp); }
  void reserve(size_t n) {
    if (n > cap_) Grow(n);
  }
  void shrink_to_fit() {}
  void resize(size_t n) {
    if (n > cap_) Grow(n);
    n_ = n;
  }
  void resize(size_t n, const Tp& v) {
    const Tp value = v;
    const size_t old = n_;
    resize(n);
    for (size_t i = old; i < n; ++i) p_[i] = value;
  }
  void clear() { n_ = 0; }
  Tp& operator[](size_t i) { return p_[i]; }
  const Tp& operator[](size_t i) const { return p_[i]; }
  Tp& at(size_t i) {
    if (i >= n_) throw std::out_of_range("UVector::at");
    return p_[i];
  }
  const Tp& at(size_t i) const {
    if (i >= n_) throw std::out_of_range("UVector::at");
    return p_[i];
  }
  Tp& front() { return p_[0]; }
  const Tp& front() const { return p_[0]; }
  Tp& back() { return p_[n_ - 1]; }
  const Tp& back() const { return p_[n_ - 1]; }
  Tp* data() { return p_; }
  const Tp* data() const { return p_; }

  void push_back(const Tp& v) {
    const Tp value = v;
    if (n_ == cap_) Grow(n_ ? 2 * n_ : 4);
    p_[n_++] = value;
  }
  template <class... A>
  Tp& emplace_back(A&&... a) {
    push_back(Tp(std::forward<A>(a)...));
    return back();
  }
  void push_back(size_t n, const Tp& v) {
    while (n--) push_back(v);
  }
  template <class It>
  void push_back(It a, It b) {
    insert(end(), a, b);
  }
  void pop_back() { --n_; }
  iterator insert(const_iterator at, const Tp& v) { return insert(at, &v, &v + 1); }
  iterator insert(const_iterator at, size_t n, const Tp& v) {
    std::vector<std::conditional_t<std::is_same_v<Tp, bool>, char, Tp>> t(n, v);
    return insert(at, t.begin(), t.end());
  }
  template <class It, class = std::enable_if_t<!std::is_integral_v<It>>>
  iterator insert(const_iterator at, It a, It b) {
    const size_t k = at - p_;
    const size_t n = std::distance(a, b);
    if (n_ + n > cap_) {
      UVector t;
      t.reserve(std::max(n_ + n, 2 * n_));
      t.n_ = n_ + n;
      std::copy(p_, p_ + k, t.p_);
      std::copy(a, b, t.p_ + k);
      std::copy(p_ + k, p_ + n_, t.p_ + k + n);
      swap(t);
    } else {
      std::move_backward(p_ + k, p_ + n_, p_ + n_ + n);
      std::copy(a, b, p_ + k);
      n_ += n;
    }
    return p_ + k;
  }
  iterator insert(const_iterator at, std::initializer_list<Tp> l) {
    return insert(at, l.begin(), l.end());
  }
  iterator erase(const_iterator a, const_iterator b) {
    iterator f = p_ + (a - p_);
    std::move(p_ + (b - p_), end(), f);
    n_ -= b - a;
    return f;
  }
  iterator erase(const_iterator a) { return erase(a, a + 1); }
  void swap(UVector& o) noexcept {
    std::swap(p_, o.p_);
    std::swap(n_, o.n_);
    std::swap(cap_, o.cap_);
  }

 private:
  void Grow(size_t n) {
    Tp* q = static_cast<Tp*>(::operator new(n * sizeof(Tp)));
    if (n_) std::memcpy(static_cast<void*>(q), p_, n_ * sizeof(Tp));
    std::memset(static_cast<void*>(q + n_), std::is_same_v<Tp, bool> ? 1 : 0xff,
                (n - n_) * sizeof(Tp));
    ::operator delete(p_);
    p_ = q;
    cap_ = n;
  }
  Tp* p_ = nullptr;
  size_t n_ = 0;
  size_t cap_ = 0;
};

template <typename T, typename A>
bool operator==(const UVector<T, A>& a, const UVector<T, A>& b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}
template <typename T, typename A>
bool operator!=(const UVector<T, A>& a, const UVector<T, A>& b) {
  return !(a == b);
}
template <typename T, typename A>
void swap(UVector<T, A>& a, UVector<T, A>& b) {
  a.swap(b);
}

}  // namespace aocommon
#endif
