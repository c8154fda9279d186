// A small stand-in for the parts of casacore's "casa" and "measures" modules
// that DP3 uses: strings, arrays with reference semantics, quanta, records and
// measures with trivial (identity) frame conversions. It is written for the
// simulator, not for speed: every element access is bounds checked.
#ifndef VERIF_MINI_CASA_H_
#define VERIF_MINI_CASA_H_

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>

// As casacore's headers do.
using std::string;

namespace casacore {

using std::ostream;
using std::vector;
using std::string;
using std::cout;
using std::cerr;
using std::endl;

typedef bool Bool;
typedef char Char;
typedef unsigned char uChar;
typedef short Short;
typedef unsigned short uShort;
typedef int Int;
typedef unsigned int uInt;
typedef long Long;
typedef unsigned long uLong;
typedef long long Int64;
typedef unsigned long long uInt64;
typedef float Float;
typedef double Double;
typedef std::complex<float> Complex;
typedef std::complex<double> DComplex;
typedef uint64_t rownr_t;
typedef int64_t rownr_signed_t;
constexpr bool True = true;
constexpr bool False = false;

/// Called on an access outside an array; the simulator reports it.
[[noreturn]] void MiniIndexError(const char* what);

template <class T>
inline std::complex<T> conj(const std::complex<T>& x) {
  return std::conj(x);
}
using std::abs;
using std::max;
using std::min;
using std::sqrt;

namespace C {
constexpr double pi = M_PI;
constexpr double _2pi = 2 * M_PI;
constexpr double pi_2 = M_PI_2;
constexpr double pi_4 = M_PI_4;
constexpr double c = 2.99792458e8;
constexpr double e = M_E;
constexpr double sqrt2 = M_SQRT2;
constexpr double ln2 = M_LN2;
constexpr double ln10 = M_LN10;
constexpr double degree = M_PI / 180;
constexpr double arcmin = M_PI / 180 / 60;
constexpr double arcsec = M_PI / 180 / 3600;
constexpr double minute = 60;
constexpr double hour = 3600;
constexpr double day = 86400;
constexpr double circle = 2 * M_PI;
}  // namespace C

class AipsError : public std::exception {
 public:
  enum Category { BOUNDARY, INITIALIZATION, INVALID_ARGUMENT, CONFORMANCE,
                  ENVIRONMENT, SYSTEM, PERMISSION, GENERAL };
  AipsError(Category = GENERAL) {}
  AipsError(const std::string& s, Category = GENERAL) : message(s) {}
  AipsError(const char* s, Category = GENERAL) : message(s) {}
  ~AipsError() noexcept override {}
  const char* what() const noexcept override { return message.c_str(); }
  const std::string& getMesg() const { return message; }

 protected:
  std::string message;
};
class ArrayError : public AipsError { public: using AipsError::AipsError; };
class ArrayConformanceError : public ArrayError {
 public:
  using ArrayError::ArrayError;
};
class TableError : public AipsError { public: using AipsError::AipsError; };
class TableNoFile : public TableError { public: using TableError::TableError; };

// ---------------------------------------------------------------- strings

class Regex;
class String : public std::string {
 public:
  String() {}
  String(const std::string& s) : std::string(s) {}
  String(std::string&& s) : std::string(std::move(s)) {}
  String(const char* s) : std::string(s) {}
  String(const char* s, size_t n) : std::string(s, n) {}
  String(char c) : std::string(1, c) {}
  String(size_t n, char c) : std::string(n, c) {}
  template <class It>
    requires(!std::is_integral_v<It>)
  String(It b, It e) : std::string(b, e) {}
  String& operator=(const char* s) {
    assign(s);
    return *this;
  }
  String& operator=(const std::string& s) {
    assign(s);
    return *this;
  }
  const char* chars() const { return c_str(); }
  bool contains(const std::string& s) const { return find(s) != npos; }
  bool contains(char c) const { return find(c) != npos; }
  bool startsWith(const std::string& s) const { return rfind(s, 0) == 0; }
  String& upcase() {
    for (char& c : *this) c = std::toupper(static_cast<unsigned char>(c));
    return *this;
  }
  String& downcase() {
    for (char& c : *this) c = std::tolower(static_cast<unsigned char>(c));
    return *this;
  }
  size_t index(const Regex& r, long from = 0) const;
  size_t index(const std::string& t, size_t from = 0) const { return find(t, from); }
  String before(size_t p) const { return substr(0, p); }
  String after(size_t p) const {
    return p + 1 >= size() ? std::string() : substr(p + 1);
  }
  String from(size_t p) const { return p >= size() ? std::string() : substr(p); }
  String at(size_t p, size_t n) const { return substr(p, n); }
  using std::string::at;
  void trim() {
    size_t b = find_first_not_of(" \t\n\r"), e = find_last_not_of(" \t\n\r");
    if (b == npos)
      clear();
    else
      assign(substr(b, e - b + 1));
  }
  inline bool matches(const Regex& r) const;
  bool matches(const std::string& s) const { return *this == s; }
  template <class T>
  static String toString(const T& v) {
    std::ostringstream os;
    os << v;
    return os.str();
  }
  static double toDouble(const std::string& s) { return std::atof(s.c_str()); }
  static int toInt(const std::string& s) { return std::atoi(s.c_str()); }
};
inline String downcase(const std::string& s) { return String(s).downcase(); }
inline String upcase(const std::string& s) { return String(s).upcase(); }

/// Glob patterns (fromPattern) and a plain subset of regular expressions; the
/// matcher works on the translated form below.
class Regex {
 public:
  Regex() {}
  Regex(const std::string& s, bool = false) : re_(s) {}
  Regex(const char* s, bool = false) : re_(s) {}
  static String fromPattern(const std::string& p) {
    std::string out;
    int brace = 0;
    for (size_t i = 0; i < p.size(); ++i) {
      const char c = p[i];
      if (c == '*')
        out += ".*";
      else if (c == '?')
        out += '.';
      else if (c == '{') {
        out += '(';
        ++brace;
      } else if (c == '}' && brace) {
        out += ')';
        --brace;
      } else if (c == ',' && brace)
        out += '|';
      else if (c == '[') {
        size_t e = p.find(']', i + 1);
        if (e == std::string::npos) {
          out += "\\[";
        } else {
          std::string set = p.substr(i + 1, e - i - 1);
          if (!set.empty() && (set[0] == '!' || set[0] == '^')) set[0] = '^';
          out += '[' + set + ']';
          i = e;
        }
      } else if (std::strchr(".+()|^$\\]}", c)) {
        out += '\\';
        out += c;
      } else
        out += c;
    }
    return out;
  }
  static String fromString(const std::string& p) {
    std::string out;
    for (char c : p) {
      if (std::strchr(".+*?()|^$\\[]{}", c)) out += '\\';
      out += c;
    }
    return out;
  }
  const std::string& regexp() const { return re_; }
  bool fullMatch(const std::string& s) const;
  size_t match(const char* s, size_t n, size_t = 0) const {
    return fullMatch(std::string(s, n)) ? n : std::string::npos;
  }

 private:
  std::string re_;
};
inline const Regex RXidentifier("[A-Za-z_][A-Za-z0-9_]*");

namespace mini_detail {
/// Backtracking matcher for: literals, escapes, '.', [sets], *, +, ?, groups
/// with alternatives. Continuation passing, so that groups backtrack.
struct Matcher {
  const std::string& re;
  const std::string& s;
  using K = std::function<bool(size_t)>;
  // Matches re[a, b) at position p, then calls k.
  static size_t GroupEnd(const std::string& re, size_t a, size_t b) {
    int depth = 0;
    for (size_t i = a; i < b; ++i) {
      if (re[i] == '\\')
        ++i;
      else if (re[i] == '[') {
        size_t e = re.find(']', i + 2);
        if (e != std::string::npos) i = e;
      } else if (re[i] == '(')
        ++depth;
      else if (re[i] == ')' && --depth == 0)
        return i;
    }
    return std::string::npos;
  }
  bool Alternatives(size_t a, size_t b, size_t p, const K& k) {
    int depth = 0;
    size_t from = a;
    for (size_t i = a; i <= b; ++i) {
      if (i == b || (re[i] == '|' && depth == 0)) {
        if (Sequence(from, i, p, k)) return true;
        from = i + 1;
        continue;
      }
      if (re[i] == '\\')
        ++i;
      else if (re[i] == '[') {
        size_t e = re.find(']', i + 2);
        if (e != std::string::npos && e < b) i = e;
      } else if (re[i] == '(')
        ++depth;
      else if (re[i] == ')')
        --depth;
    }
    return false;
  }
  bool One(size_t a, size_t e, size_t p, const K& k) {
    if (re[a] == '(') return Alternatives(a + 1, e - 1, p, k);
    if (p >= s.size()) return false;
    const unsigned char c = s[p];
    bool ok;
    if (re[a] == '\\')
      ok = re[a + 1] == s[p];
    else if (re[a] == '.')
      ok = true;
    else if (re[a] == '[') {
      size_t i = a + 1;
      const bool negate = re[i] == '^';
      if (negate) ++i;
      ok = false;
      for (; i < e - 1; ++i) {
        if (i + 2 < e - 1 && re[i + 1] == '-') {
          if (c >= static_cast<unsigned char>(re[i]) &&
              c <= static_cast<unsigned char>(re[i + 2]))
            ok = true;
          i += 2;
        } else if (re[i] == s[p])
          ok = true;
      }
      ok = ok != negate;
    } else
      ok = re[a] == s[p];
    return ok && k(p + 1);
  }
  bool Star(size_t a, size_t e, size_t p, size_t min, const K& k) {
    if (min == 0 && k(p)) return true;
    return One(a, e, p, [&](size_t q) {
      if (q == p) return false;
      return Star(a, e, q, min ? min - 1 : 0, k);
    });
  }
  bool Sequence(size_t a, size_t b, size_t p, const K& k) {
    if (a >= b) return k(p);
    size_t e;
    if (re[a] == '(') {
      e = GroupEnd(re, a, b);
      if (e == std::string::npos) return false;
      ++e;
    } else if (re[a] == '\\')
      e = a + 2;
    else if (re[a] == '[') {
      e = re.find(']', a + 2);
      if (e == std::string::npos) return false;
      ++e;
    } else
      e = a + 1;
    if (e < b && (re[e] == '*' || re[e] == '+'))
      return Star(a, e, p, re[e] == '+' ? 1 : 0,
                  [&](size_t q) { return Sequence(e + 1, b, q, k); });
    if (e < b && re[e] == '?') {
      if (One(a, e, p, [&](size_t q) { return Sequence(e + 1, b, q, k); }))
        return true;
      return Sequence(e + 1, b, p, k);
    }
    return One(a, e, p, [&](size_t q) { return Sequence(e, b, q, k); });
  }
};
}  // namespace mini_detail
inline bool Regex::fullMatch(const std::string& s) const {
  mini_detail::Matcher m{re_, s};
  return m.Alternatives(0, re_.size(), 0,
                        [&](size_t p) { return p == s.size(); });
}
inline bool String::matches(const Regex& r) const { return r.fullMatch(*this); }
inline size_t String::index(const Regex& r, long from) const {
  std::string re = r.regexp();
  bool end = false;
  if (!re.empty() && re.back() == '$') {
    end = true;
    re.pop_back();
  }
  for (size_t p = from; p <= size(); ++p) {
    mini_detail::Matcher m{re, *this};
    if (m.Alternatives(0, re.size(), p, [&](size_t q) { return !end || q == size(); })) return p;
  }
  return npos;
}

// ---------------------------------------------------------------- math

template <class T>
inline bool near(const T& a, const T& b, double tol = 1e-13) {
  if (tol <= 0) return a == b;
  if (a == b) return true;
  const double m = std::max(std::abs(a), std::abs(b));
  return std::abs(a - b) <= tol * m;
}
template <class T>
inline bool nearAbs(const T& a, const T& b, double tol = 1e-13) {
  return std::abs(a - b) <= tol;
}
inline double square(double x) { return x * x; }
template <class T>
inline bool isNaN(const T& x) { return std::isnan(x); }
inline bool isFinite(double x) { return std::isfinite(x); }
inline bool isFinite(const std::complex<double>& x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
inline bool isFinite(const std::complex<float>& x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
template <class T>
inline void setNaN(T& x) { x = std::numeric_limits<T>::quiet_NaN(); }
inline double fmod(double a, double b) { return std::fmod(a, b); }

// ---------------------------------------------------------------- arrays

class IPosition {
 public:
  IPosition() {}
  explicit IPosition(size_t n) : v_(n) {}
  template <class... A>
  IPosition(size_t n, ssize_t first, A... rest) : v_(n) {
    if constexpr (sizeof...(rest) == 0) {
      std::fill(v_.begin(), v_.end(), first);
    } else {
      const ssize_t values[] = {first, static_cast<ssize_t>(rest)...};
      for (size_t i = 0; i < n && i < sizeof...(rest) + 1; ++i) v_[i] = values[i];
    }
  }
  IPosition(std::initializer_list<ssize_t> l) : v_(l) {}
  IPosition(const std::vector<ssize_t>& v) : v_(v) {}
  size_t nelements() const { return v_.size(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  ssize_t& operator[](size_t i) { return Check(i), v_[i]; }
  const ssize_t& operator[](size_t i) const { return Check(i), v_[i]; }
  ssize_t& operator()(size_t i) { return Check(i), v_[i]; }
  const ssize_t& operator()(size_t i) const { return Check(i), v_[i]; }
  ssize_t product() const {
    if (v_.empty()) return 0;
    ssize_t p = 1;
    for (ssize_t x : v_) p *= x;
    return p;
  }
  ssize_t last() const { return v_.back(); }
  void resize(size_t n, bool copy = true) {
    if (!copy) v_.clear();
    v_.resize(n);
  }
  void append(const IPosition& o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); }
  IPosition getFirst(size_t n) const {
    return std::vector<ssize_t>(v_.begin(), v_.begin() + n);
  }
  IPosition getLast(size_t n) const {
    return std::vector<ssize_t>(v_.end() - n, v_.end());
  }
  bool isEqual(const IPosition& o) const { return v_ == o.v_; }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  friend bool operator==(const IPosition& a, const IPosition& b) { return a.v_ == b.v_; }
  friend bool operator!=(const IPosition& a, const IPosition& b) { return a.v_ != b.v_; }
  template <class I>
    requires std::is_integral_v<I>
  friend bool operator==(const IPosition& a, I b) {
    for (ssize_t v : a.v_)
      if (v != static_cast<ssize_t>(b)) return false;
    return true;
  }
  template <class I>
    requires std::is_integral_v<I>
  friend bool operator!=(const IPosition& a, I b) {
    for (ssize_t v : a.v_)
      if (v == static_cast<ssize_t>(b)) return false;
    return true;
  }
  friend IPosition operator-(IPosition a, ssize_t b) {
    for (auto& x : a.v_) x -= b;
    return a;
  }
  friend IPosition operator+(IPosition a, ssize_t b) {
    for (auto& x : a.v_) x += b;
    return a;
  }
  friend IPosition operator+(IPosition a, const IPosition& b) {
    for (size_t i = 0; i < a.v_.size(); ++i) a.v_[i] += b[i];
    return a;
  }
  friend IPosition operator-(IPosition a, const IPosition& b) {
    for (size_t i = 0; i < a.v_.size(); ++i) a.v_[i] -= b[i];
    return a;
  }
  friend std::ostream& operator<<(std::ostream& os, const IPosition& p) {
    os << '[';
    for (size_t i = 0; i < p.size(); ++i) os << (i ? ", " : "") << p[i];
    return os << ']';
  }

 private:
  void Check(size_t i) const {
    if (i >= v_.size()) MiniIndexError("IPosition index");
  }
  std::vector<ssize_t> v_;
};

class Slice {
 public:
  Slice() : all_(true) {}
  explicit Slice(size_t start) : start_(start), length_(1) {}
  Slice(size_t start, size_t length, size_t inc = 1)
      : start_(start), length_(length), inc_(inc) {}
  bool all() const { return all_; }
  size_t start() const { return start_; }
  size_t length() const { return length_; }
  size_t inc() const { return inc_; }

 private:
  bool all_ = false;
  size_t start_ = 0, length_ = 0, inc_ = 1;
};

class Slicer {
 public:
  enum LengthOrLast { endIsLength, endIsLast };
  enum { MimicSource = -2147483646 };
  Slicer() {}
  Slicer(const IPosition& start, const IPosition& end,
         LengthOrLast l = endIsLength)
      : start_(start), length_(l == endIsLast ? end - start + 1 : end) {}
  Slicer(const IPosition& start, const IPosition& end, const IPosition& stride,
         LengthOrLast l = endIsLength)
      : start_(start), stride_(stride), length_(end) {
    if (l == endIsLast)
      for (size_t i = 0; i < end.size(); ++i)
        length_[i] = (end[i] - start[i] + stride[i]) / stride[i];
  }
  explicit Slicer(const IPosition& start)
      : start_(start), length_(start.size(), 1) {}
  Slicer(const Slice& a) { Set({a}); }
  Slicer(const Slice& a, const Slice& b) { Set({a, b}); }
  Slicer(const Slice& a, const Slice& b, const Slice& c) { Set({a, b, c}); }
  const IPosition& start() const { return start_; }
  const IPosition& length() const { return length_; }
  IPosition stride() const {
    return stride_.empty() ? IPosition(start_.size(), 1) : stride_;
  }
  IPosition end() const { return start_ + length_ - 1; }
  size_t ndim() const { return start_.size(); }

 private:
  void Set(const std::vector<Slice>& s) {
    start_ = IPosition(s.size());
    stride_ = IPosition(s.size(), 1);
    length_ = IPosition(s.size());
    for (size_t i = 0; i < s.size(); ++i) {
      start_[i] = s[i].all() ? 0 : s[i].start();
      length_[i] = s[i].all() ? ssize_t(MimicSource) : ssize_t(s[i].length());
      stride_[i] = s[i].all() ? 1 : s[i].inc();
    }
  }
  IPosition start_, stride_, length_;
};

template <class T>
class Block {
 public:
  Block() {}
  explicit Block(size_t n) : v_(new T[n]()), n_(n) {}
  Block(size_t n, const T& x) : v_(new T[n]), n_(n) { set(x); }
  Block(const Block& o) : v_(new T[o.n_]), n_(o.n_) {
    std::copy(o.begin(), o.end(), begin());
  }
  Block& operator=(const Block& o) {
    if (this != &o) {
      v_.reset(new T[o.n_]);
      n_ = o.n_;
      std::copy(o.begin(), o.end(), begin());
    }
    return *this;
  }
  Block& operator=(const T& x) {
    set(x);
    return *this;
  }
  void set(const T& x) { std::fill(begin(), end(), x); }
  void resize(size_t n, bool = false, bool copy = true) {
    std::unique_ptr<T[]> v(new T[n]());
    if (copy) std::copy(begin(), begin() + std::min(n, n_), v.get());
    v_ = std::move(v);
    n_ = n;
  }
  T& operator[](size_t i) {
    if (i >= n_) MiniIndexError("Block index");
    return v_[i];
  }
  const T& operator[](size_t i) const {
    if (i >= n_) MiniIndexError("Block index");
    return v_[i];
  }
  size_t nelements() const { return n_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* begin() { return v_.get(); }
  T* end() { return v_.get() + n_; }
  const T* begin() const { return v_.get(); }
  const T* end() const { return v_.get() + n_; }
  T* storage() { return v_.get(); }
  const T* storage() const { return v_.get(); }

 private:
  std::unique_ptr<T[]> v_;
  size_t n_ = 0;
};

enum StorageInitPolicy { COPY, TAKE_OVER, SHARE };

template <class T>
class Vector;
template <class T>
class Matrix;
template <class T>
class Cube;

class ArrayBase {
 public:
  virtual ~ArrayBase() = default;
  const IPosition& shape() const { return shape_; }
  size_t ndim() const { return shape_.size(); }
  size_t nelements() const { return shape_.product(); }
  size_t size() const { return nelements(); }
  bool empty() const { return nelements() == 0; }
  const IPosition& steps() const { return steps_; }

 protected:
  IPosition shape_, steps_;
};

template <class T>
class Array : public ArrayBase {
 public:
  typedef T value_type;
  Array() {}
  explicit Array(const IPosition& s) { Allocate(s, T()); }
  Array(const IPosition& s, const T& x) { Allocate(s, x); }
  Array(const IPosition& s, T* p, StorageInitPolicy policy = COPY) {
    Wrap(s, p, policy);
  }
  Array(const IPosition& s, const T* p) { Wrap(s, const_cast<T*>(p), COPY); }
  Array(const Array&) = default;  // shares the data, as casacore does
  ~Array() override = default;

  Array& operator=(const Array& o) { return assign_conforming(o); }
  Array& operator=(const T& x) {
    ForEach([&](T& e) { e = x; });
    return *this;
  }
  void set(const T& x) { *this = x; }
  Array& assign_conforming(const Array& o) {
    if (this == &o) return *this;
    if (shape_ == o.shape_) {
      CopyFrom(o.copy());
    } else if (nelements() == 0) {
      Array c = o.copy();
      CheckShape(c.shape_);
      Steal(c);
    } else {
      throw ArrayConformanceError("arrays do not conform in assignment");
    }
    return *this;
  }
  Array& assign(const Array& o) {
    if (shape_ != o.shape_) resize(o.shape_);
    CopyFrom(o.copy());
    return *this;
  }
  void assignBase(const Array& o) { assign(o); }
  void reference(const Array& o) {
    CheckShape(o.shape_);
    data_ = o.data_;
    offset_ = o.offset_;
    shape_ = o.shape_;
    steps_ = o.steps_;
  }
  void resize() { Allocate(IPosition(FixedDim() ? IPosition(FixedDim(), 0) : IPosition()), T()); }
  void resize(const IPosition& s, bool copyValues = false) {
    if (s == shape_) return;
    Array old(*this);
    CheckShape(s);
    Allocate(s, T());
    if (copyValues && old.ndim() == ndim() && old.nelements() && nelements()) {
      IPosition n(s);
      for (size_t i = 0; i < n.size(); ++i) n[i] = std::min(s[i], old.shape_[i]);
      Loop(n, [&](const IPosition& p) { (*this)(p) = old(p); });
    }
  }
  Array copy() const {
    Array r;
    r.Allocate(shape_, T());
    r.CopyFrom(*this);
    return r;
  }
  void unique() { Array c = copy(); Steal(c); }
  size_t nrefs() const { return data_.use_count(); }
  bool conform(const Array& o) const { return shape_ == o.shape_; }
  template <class U>
  bool conform(const Array<U>& o) const { return shape_ == o.shape(); }
  bool contiguousStorage() const {
    ssize_t n = 1;
    for (size_t i = 0; i < shape_.size(); ++i) {
      if (shape_[i] != 1 && steps_[i] != n) return false;
      n *= shape_[i];
    }
    return true;
  }
  T& operator()(const IPosition& p) { return data_.get()[Offset(p)]; }
  const T& operator()(const IPosition& p) const { return data_.get()[Offset(p)]; }
  Array operator()(const IPosition& b, const IPosition& e) {
    return Section(b, e - b + 1, IPosition(b.size(), 1));
  }
  const Array operator()(const IPosition& b, const IPosition& e) const {
    return Section(b, e - b + 1, IPosition(b.size(), 1));
  }
  Array operator()(const IPosition& b, const IPosition& e, const IPosition& inc) {
    IPosition n(b.size());
    for (size_t i = 0; i < n.size(); ++i) n[i] = (e[i] - b[i] + inc[i]) / inc[i];
    return Section(b, n, inc);
  }
  Array operator()(const Slicer& s) { return SliceOf(s); }
  const Array operator()(const Slicer& s) const { return SliceOf(s); }
  Array operator[](size_t i) const {
    IPosition b(ndim(), 0), n(shape_);
    b[ndim() - 1] = i;
    n[ndim() - 1] = 1;
    Array r = Section(b, n, IPosition(ndim(), 1));
    if (ndim() > 1) r.DropAxis(ndim() - 1);
    return r;
  }
  Array reform(const IPosition& s) const {
    if (static_cast<size_t>(s.product()) != nelements())
      throw ArrayConformanceError("reform: different number of elements");
    Array r;
    if (contiguousStorage()) {
      r.data_ = data_;
      r.offset_ = offset_;
    } else {
      Array c = copy();
      r.data_ = c.data_;
    }
    r.shape_ = s;
    r.steps_ = StepsFor(s);
    return r;
  }
  Array nonDegenerate(size_t startAxis = 0) const {
    Array r(*this);
    for (size_t i = r.ndim(); i-- > startAxis;)
      if (r.shape_[i] == 1 && r.ndim() > 1) r.DropAxis(i);
    return r;
  }
  Array addDegenerate(size_t n) const {
    Array r(*this);
    r.shape_.append(IPosition(n, 1));
    r.steps_.append(IPosition(n, 1));
    return r;
  }
  T* data() { return data_ ? data_.get() + offset_ : nullptr; }
  const T* data() const { return data_ ? data_.get() + offset_ : nullptr; }
  const T* cdata() const { return data(); }
  T* getStorage(bool& deleteIt) {
    deleteIt = false;
    if (contiguousStorage()) return data();
    deleteIt = true;
    Array c = copy();
    T* p = new T[nelements()];
    std::copy(c.data(), c.data() + nelements(), p);
    return p;
  }
  const T* getStorage(bool& deleteIt) const {
    return const_cast<Array*>(this)->getStorage(deleteIt);
  }
  void putStorage(T*& p, bool deleteIt) {
    if (deleteIt) {
      size_t i = 0;
      ForEach([&](T& e) { e = p[i++]; });
      delete[] p;
    }
    p = nullptr;
  }
  void freeStorage(const T*& p, bool deleteIt) const {
    if (deleteIt) delete[] p;
    p = nullptr;
  }
  std::vector<T> tovector() const {
    std::vector<T> v;
    ForEach([&](const T& e) { v.push_back(e); });
    return v;
  }
  template <class U>
  void tovector(std::vector<U>& v) const {
    v.clear();
    ForEach([&](const T& e) { v.push_back(e); });
  }

  // Iterators walk a list of element addresses in storage order, so that they
  // also work for sections.
  template <class P>
  class Iter {
   public:
    typedef std::random_access_iterator_tag iterator_category;
    typedef std::remove_const_t<P> value_type;
    typedef ssize_t difference_type;
    typedef P* pointer;
    typedef P& reference;
    Iter() {}
    Iter(const Array* a, size_t i)
        : base_(const_cast<T*>(a->data())), i_(i), n_(a->nelements()),
          contiguous_(a->contiguousStorage()), shape_(a->shape_),
          steps_(a->steps_) {}
    P& operator*() const { return *At(i_); }
    P* operator->() const { return At(i_); }
    P& operator[](ssize_t d) const { return *At(i_ + d); }
    Iter& operator++() { ++i_; return *this; }
    Iter operator++(int) { Iter c(*this); ++i_; return c; }
    Iter& operator--() { --i_; return *this; }
    Iter operator--(int) { Iter c(*this); --i_; return c; }
    Iter& operator+=(ssize_t d) { i_ += d; return *this; }
    Iter& operator-=(ssize_t d) { i_ -= d; return *this; }
    friend Iter operator+(Iter a, ssize_t d) { a.i_ += d; return a; }
    friend Iter operator+(ssize_t d, Iter a) { a.i_ += d; return a; }
    friend Iter operator-(Iter a, ssize_t d) { a.i_ -= d; return a; }
    friend ssize_t operator-(const Iter& a, const Iter& b) { return ssize_t(a.i_) - ssize_t(b.i_); }
    friend bool operator==(const Iter& a, const Iter& b) { return a.i_ == b.i_; }
    friend bool operator!=(const Iter& a, const Iter& b) { return a.i_ != b.i_; }
    friend bool operator<(const Iter& a, const Iter& b) { return a.i_ < b.i_; }

   private:
    P* At(size_t i) const {
      if (i >= n_) MiniIndexError("array iterator");
      if (contiguous_) return base_ + i;
      size_t off = 0;
      for (size_t d = 0; d < shape_.size(); ++d) {
        off += (i % shape_[d]) * steps_[d];
        i /= shape_[d];
      }
      return base_ + off;
    }
    T* base_ = nullptr;
    size_t i_ = 0, n_ = 0;
    bool contiguous_ = true;
    IPosition shape_, steps_;
  };
  typedef Iter<T> iterator;
  typedef Iter<const T> const_iterator;
  typedef T* contiter;
  typedef const T* const_contiter;
  iterator begin() { return iterator(this, 0); }
  iterator end() { return iterator(this, nelements()); }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, nelements()); }
  T* cbegin() { return data(); }
  T* cend() { return data() + nelements(); }
  const T* cbegin() const { return data(); }
  const T* cend() const { return data() + nelements(); }

  template <class F>
  void ForEach(F f) {
    Loop(shape_, [&](const IPosition& p) { f(data_.get()[Offset(p)]); });
  }
  template <class F>
  void ForEach(F f) const {
    Loop(shape_, [&](const IPosition& p) {
      f(static_cast<const T&>(data_.get()[Offset(p)]));
    });
  }

  template <class U>
  Array& Combine(const Array<U>& o, const std::function<void(T&, const U&)>& f) {
    if (shape_ != o.shape()) throw ArrayConformanceError("arrays do not conform");
    Loop(shape_, [&](const IPosition& p) { f((*this)(p), o(p)); });
    return *this;
  }

 protected:
  virtual size_t FixedDim() const { return 0; }
  void CheckShape(const IPosition& s) const {
    if (FixedDim() && s.size() != FixedDim() && !s.empty())
      throw ArrayError("array dimensionality does not match");
  }
  static IPosition StepsFor(const IPosition& s) {
    IPosition r(s.size());
    ssize_t n = 1;
    for (size_t i = 0; i < s.size(); ++i) {
      r[i] = n;
      n *= s[i];
    }
    return r;
  }
  void Allocate(const IPosition& s, const T& x) {
    shape_ = s;
    steps_ = StepsFor(s);
    offset_ = 0;
    const size_t n = nelements();
    std::shared_ptr<T[]> a = std::make_shared<T[]>(n ? n : 1);
    data_ = std::shared_ptr<T>(a, a.get());
    std::fill(data_.get(), data_.get() + n, x);
  }
  void Wrap(const IPosition& s, T* p, StorageInitPolicy policy) {
    CheckShape(s);
    if (policy == COPY) {
      Allocate(s, T());
      std::copy(p, p + nelements(), data_.get());
    } else {
      shape_ = s;
      steps_ = StepsFor(s);
      offset_ = 0;
      if (policy == TAKE_OVER)
        data_ = std::shared_ptr<T>(p, std::default_delete<T[]>());
      else
        data_ = std::shared_ptr<T>(p, [](T*) {});
    }
  }
  void Steal(Array& o) {
    data_ = o.data_;
    offset_ = o.offset_;
    shape_ = o.shape_;
    steps_ = o.steps_;
  }
  void CopyFrom(const Array& o) {
    Loop(shape_, [&](const IPosition& p) { (*this)(p) = o(p); });
  }
  void DropAxis(size_t axis) {
    std::vector<ssize_t> s(shape_.begin(), shape_.end()), t(steps_.begin(), steps_.end());
    s.erase(s.begin() + axis);
    t.erase(t.begin() + axis);
    shape_ = s;
    steps_ = t;
  }
  Array SliceOf(const Slicer& s) const {
    IPosition n = s.length();
    for (size_t i = 0; i < n.size(); ++i)
      if (n[i] == ssize_t(Slicer::MimicSource)) n[i] = shape_[i] - s.start()[i];
    return Section(s.start(), n, s.stride());
  }
  Array Section(const IPosition& b, const IPosition& n, const IPosition& inc) const {
    if (b.size() != ndim() || n.size() != ndim())
      MiniIndexError("array section of the wrong dimensionality");
    for (size_t i = 0; i < ndim(); ++i)
      if (b[i] < 0 || n[i] < 0 || (n[i] > 0 && b[i] + (n[i] - 1) * inc[i] >= shape_[i]))
        MiniIndexError("array section outside the array");
    Array r;
    r.data_ = data_;
    r.offset_ = offset_;
    r.shape_ = n;
    r.steps_ = steps_;
    for (size_t i = 0; i < ndim(); ++i) {
      r.offset_ += b[i] * steps_[i];
      r.steps_[i] = steps_[i] * inc[i];
    }
    return r;
  }
  size_t Offset(const IPosition& p) const {
    if (p.size() != ndim()) MiniIndexError("array index of the wrong dimensionality");
    size_t o = offset_;
    for (size_t i = 0; i < p.size(); ++i) {
      if (p[i] < 0 || p[i] >= shape_[i]) MiniIndexError("array index outside the array");
      o += p[i] * steps_[i];
    }
    return o;
  }
  template <class F>
  static void Loop(const IPosition& n, F f) {
    if (n.product() == 0) return;
    IPosition p(n.size(), 0);
    for (;;) {
      f(p);
      size_t i = 0;
      for (; i < n.size(); ++i) {
        if (++p[i] < n[i]) break;
        p[i] = 0;
      }
      if (i == n.size()) return;
    }
  }
  template <class U>
  friend class Array;
  std::shared_ptr<T> data_;
  size_t offset_ = 0;
};

template <class T>
class Vector : public Array<T> {
 public:
  using Array<T>::resize;
  Vector() { this->Allocate(IPosition(1, 0), T()); }
  explicit Vector(size_t n) { this->Allocate(IPosition(1, n), T()); }
  explicit Vector(const IPosition& s) { this->Allocate(s, T()); }
  Vector(size_t n, const T& x) { this->Allocate(IPosition(1, n), x); }
  Vector(const IPosition& s, const T& x) { this->Allocate(s, x); }
  Vector(const IPosition& s, T* p, StorageInitPolicy policy = COPY) { this->Wrap(s, p, policy); }
  Vector(const Array<T>& a) : Array<T>(a) {
    if (this->ndim() != 1) {
      Array<T> n(a.nonDegenerate());
      if (n.ndim() != 1 && n.nelements() != 0) throw ArrayError("not a vector");
      if (n.ndim() != 1)
        this->Allocate(IPosition(1, 0), T());
      else
        this->Steal(n);
    }
  }
  Vector(const Vector&) = default;
  template <class U>
    requires(std::is_convertible_v<U, T>)
  explicit Vector(const std::vector<U>& v) {
    this->Allocate(IPosition(1, v.size()), T());
    for (size_t i = 0; i < v.size(); ++i) this->data_.get()[i] = T(v[i]);
  }
  Vector(const Block<T>& v) {
    this->Allocate(IPosition(1, v.size()), T());
    std::copy(v.begin(), v.end(), this->data_.get());
  }
  Vector(std::initializer_list<T> v) {
    this->Allocate(IPosition(1, v.size()), T());
    std::copy(v.begin(), v.end(), this->data_.get());
  }
  template <class It>
    requires(!std::is_arithmetic_v<It> && !std::is_convertible_v<It, IPosition>)
  Vector(It b, It e) {
    std::vector<T> v(b, e);
    this->Allocate(IPosition(1, v.size()), T());
    std::copy(v.begin(), v.end(), this->data_.get());
  }
  Vector& operator=(const Vector& o) {
    this->Assign1(o);
    return *this;
  }
  Vector& operator=(const Array<T>& o) {
    this->Assign1(Vector(o));
    return *this;
  }
  Vector& operator=(const std::vector<T>& o) {
    this->Assign1(Vector(o));
    return *this;
  }
  Vector& operator=(const T& x) {
    Array<T>::operator=(x);
    return *this;
  }
  void resize(size_t n, bool copy = false) { Array<T>::resize(IPosition(1, n), copy); }
  T& operator[](size_t i) { return At(i); }
  const T& operator[](size_t i) const { return const_cast<Vector*>(this)->At(i); }
  T& operator()(size_t i) { return At(i); }
  const T& operator()(size_t i) const { return const_cast<Vector*>(this)->At(i); }
  T& operator()(const IPosition& p) { return Array<T>::operator()(p); }
  const T& operator()(const IPosition& p) const { return Array<T>::operator()(p); }
  Vector operator()(const Slice& s) const {
    if (s.all()) return *this;
    return Vector(this->Section(IPosition(1, s.start()), IPosition(1, s.length()),
                                IPosition(1, s.inc())));
  }
  Vector operator()(const Slicer& s) const { return Vector(this->SliceOf(s)); }
  Vector operator()(const IPosition& b, const IPosition& e) const {
    return Vector(this->Section(b, e - b + 1, IPosition(1, 1)));
  }
  Vector copy() const { return Vector(Array<T>::copy()); }

 protected:
  size_t FixedDim() const override { return 1; }

 private:
  void Assign1(const Vector& o) {
    if (this == &o) return;
    // casacore's Vector assignment resizes an empty vector only; a different
    // size is an error.
    if (this->shape_ == o.shape_)
      this->CopyFrom(o.Array<T>::copy());
    else if (this->nelements() == 0) {
      Array<T> c = o.Array<T>::copy();
      this->Steal(c);
    } else
      throw ArrayConformanceError("vectors do not conform in assignment");
  }
  T& At(size_t i) {
    if (i >= static_cast<size_t>(this->shape_[0])) MiniIndexError("vector index");
    return this->data_.get()[this->offset_ + i * this->steps_[0]];
  }
};

template <class T>
class Matrix : public Array<T> {
 public:
  using Array<T>::resize;
  using Array<T>::operator();
  Matrix() { this->Allocate(IPosition(2, 0, 0), T()); }
  Matrix(size_t a, size_t b) { this->Allocate(IPosition(2, a, b), T()); }
  Matrix(size_t a, size_t b, const T& x) { this->Allocate(IPosition(2, a, b), x); }
  explicit Matrix(const IPosition& s) { this->Allocate(s, T()); this->CheckShape(s); }
  Matrix(const IPosition& s, const T& x) { this->Allocate(s, x); this->CheckShape(s); }
  Matrix(const IPosition& s, T* p, StorageInitPolicy policy = COPY) { this->Wrap(s, p, policy); }
  Matrix(const IPosition& s, const T* p) { this->Wrap(s, const_cast<T*>(p), COPY); }
  Matrix(const Array<T>& a) : Array<T>(a) {
    if (this->ndim() == 1) {
      Array<T> n = a.addDegenerate(1);
      this->Steal(n);
    } else if (this->ndim() == 0)
      this->Allocate(IPosition(2, 0, 0), T());
    else if (this->ndim() != 2) {
      Array<T> n = a.nonDegenerate();
      if (n.ndim() != 2) throw ArrayError("not a matrix");
      this->Steal(n);
    }
  }
  Matrix(const Matrix&) = default;
  Matrix& operator=(const Matrix& o) {
    Array<T>::assign_conforming(o);
    return *this;
  }
  Matrix& operator=(const Array<T>& o) {
    Array<T>::assign_conforming(o);
    return *this;
  }
  Matrix& operator=(const T& x) {
    Array<T>::operator=(x);
    return *this;
  }
  void resize(size_t a, size_t b, bool copy = false) { Array<T>::resize(IPosition(2, a, b), copy); }
  T& operator()(size_t a, size_t b) { return At(a, b); }
  const T& operator()(size_t a, size_t b) const { return const_cast<Matrix*>(this)->At(a, b); }
  Vector<T> row(size_t i) const {
    Array<T> s = this->Section(IPosition(2, i, 0),
                               IPosition(2, 1, this->shape_[1]),
                               IPosition(2, 1));
    Helper h(s);
    h.Drop(0);
    return Vector<T>(h);
  }
  Vector<T> column(size_t i) const {
    Array<T> s = this->Section(IPosition(2, 0, i), IPosition(2, this->shape_[0], 1), IPosition(2, 1));
    Helper h(s);
    h.Drop(1);
    return Vector<T>(h);
  }
  Vector<T> diagonal() const {
    Helper h(*this);
    h.Diagonal();
    return Vector<T>(h);
  }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  Matrix copy() const { return Matrix(Array<T>::copy()); }

 protected:
  size_t FixedDim() const override { return 2; }

 private:
  struct Helper : Array<T> {
    Helper(const Array<T>& a) : Array<T>(a) {}
    void Drop(size_t axis) { this->DropAxis(axis); }
    void Diagonal() {
      const ssize_t n = std::min(this->shape_[0], this->shape_[1]);
      const ssize_t step = this->steps_[0] + this->steps_[1];
      this->shape_ = IPosition(1, n);
      this->steps_ = IPosition(1, step);
    }
  };
  T& At(size_t a, size_t b) {
    if (a >= static_cast<size_t>(this->shape_[0]) || b >= static_cast<size_t>(this->shape_[1]))
      MiniIndexError("matrix index");
    return this->data_.get()[this->offset_ + a * this->steps_[0] + b * this->steps_[1]];
  }
};

template <class T>
Matrix<T> transpose(const Matrix<T>& m) {
  Matrix<T> r(m.ncolumn(), m.nrow());
  for (size_t i = 0; i < m.nrow(); ++i)
    for (size_t j = 0; j < m.ncolumn(); ++j) r(j, i) = m(i, j);
  return r;
}
template <class T>
Matrix<T> product(const Matrix<T>& a, const Matrix<T>& b) {
  if (a.ncolumn() != b.nrow()) throw ArrayConformanceError("product: the matrices do not conform");
  Matrix<T> r(a.nrow(), b.ncolumn());
  for (size_t i = 0; i < a.nrow(); ++i)
    for (size_t j = 0; j < b.ncolumn(); ++j) {
      T sum{};
      for (size_t k = 0; k < a.ncolumn(); ++k) sum += a(i, k) * b(k, j);
      r(i, j) = sum;
    }
  return r;
}

template <class T, class A = T>
struct SumSqr {
  A operator()(A sum, T x) const { return sum + x * x; }
};

/// Iterates over the sub-arrays formed by the first axes.
template <class T>
class ArrayIterator {
 public:
  explicit ArrayIterator(const Array<T>& a, size_t by = 1) : a_(a), by_(by), pos_(a.ndim(), 0) { Set(); }
  void next() {
    for (size_t i = by_; i < pos_.size(); ++i) {
      if (++pos_[i] < a_.shape()[i]) return Set();
      pos_[i] = 0;
    }
    end_ = true;
  }
  void origin() {
    pos_ = IPosition(a_.ndim(), 0);
    end_ = false;
    Set();
  }
  bool pastEnd() const { return end_; }
  Array<T>& array() { return cur_; }
  const Array<T>& array() const { return cur_; }

 private:
  void Set() {
    if (a_.nelements() == 0) {
      end_ = true;
      return;
    }
    Array<T> r(a_);
    for (size_t i = a_.ndim(); i-- > by_;) r.reference(Array<T>(r[pos_[i]]));
    cur_.reference(r);
  }
  Array<T> a_;
  size_t by_;
  IPosition pos_;
  Array<T> cur_;
  bool end_ = false;
};
template <class T>
class ReadOnlyArrayIterator : public ArrayIterator<T> {
 public:
  using ArrayIterator<T>::ArrayIterator;
};

template <class T>
class Cube : public Array<T> {
 public:
  using Array<T>::resize;
  using Array<T>::operator();
  Cube() { this->Allocate(IPosition(3, 0, 0, 0), T()); }
  Cube(size_t a, size_t b, size_t c) { this->Allocate(IPosition(3, a, b, c), T()); }
  Cube(size_t a, size_t b, size_t c, const T& x) { this->Allocate(IPosition(3, a, b, c), x); }
  explicit Cube(const IPosition& s) { this->Allocate(s, T()); this->CheckShape(s); }
  Cube(const IPosition& s, const T& x) { this->Allocate(s, x); this->CheckShape(s); }
  Cube(const IPosition& s, T* p, StorageInitPolicy policy = COPY) { this->Wrap(s, p, policy); }
  Cube(const IPosition& s, const T* p) { this->Wrap(s, const_cast<T*>(p), COPY); }
  Cube(const Array<T>& a) : Array<T>(a) {
    if (this->ndim() == 0)
      this->Allocate(IPosition(3, 0, 0, 0), T());
    else if (this->ndim() < 3) {
      Array<T> n = a.addDegenerate(3 - this->ndim());
      this->Steal(n);
    } else if (this->ndim() != 3)
      throw ArrayError("not a cube");
  }
  Cube(const Cube&) = default;
  Cube& operator=(const Cube& o) {
    Array<T>::assign_conforming(o);
    return *this;
  }
  Cube& operator=(const Array<T>& o) {
    Array<T>::assign_conforming(o);
    return *this;
  }
  Cube& operator=(const T& x) {
    Array<T>::operator=(x);
    return *this;
  }
  void resize(size_t a, size_t b, size_t c, bool copy = false) { Array<T>::resize(IPosition(3, a, b, c), copy); }
  T& operator()(size_t a, size_t b, size_t c) { return At(a, b, c); }
  const T& operator()(size_t a, size_t b, size_t c) const { return const_cast<Cube*>(this)->At(a, b, c); }
  Matrix<T> xyPlane(size_t i) const {
    Helper h(this->Section(IPosition(3, 0, 0, i), IPosition(3, this->shape_[0], this->shape_[1], 1),
                           IPosition(3, 1)));
    h.Drop(2);
    return Matrix<T>(h);
  }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  size_t nplane() const { return this->shape_[2]; }
  Cube copy() const { return Cube(Array<T>::copy()); }

 protected:
  size_t FixedDim() const override { return 3; }

 private:
  struct Helper : Array<T> {
    Helper(const Array<T>& a) : Array<T>(a) {}
    void Drop(size_t axis) { this->DropAxis(axis); }
  };
  T& At(size_t a, size_t b, size_t c) {
    if (a >= static_cast<size_t>(this->shape_[0]) || b >= static_cast<size_t>(this->shape_[1]) ||
        c >= static_cast<size_t>(this->shape_[2]))
      MiniIndexError("cube index");
    return this->data_.get()[this->offset_ + a * this->steps_[0] + b * this->steps_[1] +
                             c * this->steps_[2]];
  }
};

// Array arithmetic and logic.
namespace mini_detail {
template <class R, class A, class B, class F>
Array<R> Zip(const Array<A>& a, const Array<B>& b, F f) {
  if (a.shape() != b.shape()) throw ArrayConformanceError("arrays do not conform");
  Array<R> r(a.shape());
  auto ri = r.data();
  auto av = a.tovector();
  auto bv = b.tovector();
  for (size_t i = 0; i < av.size(); ++i) ri[i] = f(av[i], bv[i]);
  return r;
}
template <class R, class A, class F>
Array<R> Map(const Array<A>& a, F f) {
  Array<R> r(a.shape());
  auto ri = r.data();
  size_t i = 0;
  a.ForEach([&](const A& x) { ri[i++] = f(x); });
  return r;
}
}  // namespace mini_detail
#define MINI_OP(op)                                                          \
  template <class T>                                                        \
  Array<T> operator op(const Array<T>& a, const Array<T>& b) {              \
    return mini_detail::Zip<T>(a, b, [](const T& x, const T& y) { return T(x op y); }); \
  }                                                                         \
  template <class T>                                                        \
  Array<T> operator op(const Array<T>& a, const std::type_identity_t<T>& b) {\
    return mini_detail::Map<T>(a, [&](const T& x) { return T(x op b); });   \
  }                                                                         \
  template <class T>                                                        \
  Array<T> operator op(const std::type_identity_t<T>& a, const Array<T>& b) {\
    return mini_detail::Map<T>(b, [&](const T& x) { return T(a op x); });   \
  }                                                                         \
  template <class T>                                                        \
  Array<T>& operator op##=(Array<T>& a, const Array<T>& b) {                \
    return a.template Combine<T>(b, [](T& x, const T& y) { x = T(x op y); }); \
  }                                                                         \
  template <class T>                                                        \
  Array<T>& operator op##=(Array<T>& a, const std::type_identity_t<T>& b) { \
    a.ForEach([&](T& x) { x = T(x op b); });                                \
    return a;                                                               \
  }
MINI_OP(+)
MINI_OP(-)
MINI_OP(*)
MINI_OP(/)
#undef MINI_OP
inline Array<bool> operator&&(const Array<bool>& a, const Array<bool>& b) {
  return mini_detail::Zip<bool>(a, b, [](bool x, bool y) { return x && y; });
}
inline Array<bool> operator||(const Array<bool>& a, const Array<bool>& b) {
  return mini_detail::Zip<bool>(a, b, [](bool x, bool y) { return x || y; });
}
inline Array<bool> operator!(const Array<bool>& a) {
  return mini_detail::Map<bool>(a, [](bool x) { return !x; });
}
#define MINI_CMP(op)                                                         \
  template <class T>                                                        \
  Array<bool> operator op(const Array<T>& a, const Array<T>& b) {           \
    return mini_detail::Zip<bool>(a, b, [](const T& x, const T& y) { return x op y; }); \
  }                                                                         \
  template <class T>                                                        \
  Array<bool> operator op(const Array<T>& a, const std::type_identity_t<T>& b) { \
    return mini_detail::Map<bool>(a, [&](const T& x) { return x op b; });   \
  }
MINI_CMP(==)
MINI_CMP(!=)
MINI_CMP(<)
MINI_CMP(<=)
MINI_CMP(>)
MINI_CMP(>=)
#undef MINI_CMP
#define MINI_ALL(name, op)                                                   \
  template <class T>                                                        \
  bool all##name(const Array<T>& a, const Array<T>& b) {                    \
    if (a.shape() != b.shape()) return false;                               \
    auto x = a.tovector();                                                  \
    auto y = b.tovector();                                                  \
    for (size_t i = 0; i < x.size(); ++i)                                   \
      if (!(x[i] op y[i])) return false;                                    \
    return true;                                                            \
  }                                                                         \
  template <class T>                                                        \
  bool all##name(const Array<T>& a, const std::type_identity_t<T>& b) {     \
    bool r = true;                                                          \
    a.ForEach([&](const T& x) { r = r && (x op b); });                      \
    return r;                                                               \
  }                                                                         \
  template <class T>                                                        \
  bool any##name(const Array<T>& a, const std::type_identity_t<T>& b) {     \
    bool r = false;                                                         \
    a.ForEach([&](const T& x) { r = r || (x op b); });                      \
    return r;                                                               \
  }                                                                         \
  template <class T>                                                        \
  bool any##name(const Array<T>& a, const Array<T>& b) {                    \
    auto x = a.tovector();                                                  \
    auto y = b.tovector();                                                  \
    for (size_t i = 0; i < x.size() && i < y.size(); ++i)                   \
      if (x[i] op y[i]) return true;                                        \
    return false;                                                           \
  }
MINI_ALL(EQ, ==)
MINI_ALL(NE, !=)
MINI_ALL(LT, <)
MINI_ALL(LE, <=)
MINI_ALL(GT, >)
MINI_ALL(GE, >=)
#undef MINI_ALL
template <class T, class U>
bool allNear(const Array<T>& a, const Array<U>& b, double tol) {
  if (a.shape() != b.shape()) return false;
  auto x = a.tovector();
  auto y = b.tovector();
  for (size_t i = 0; i < x.size(); ++i)
    if (!near(x[i], y[i], tol)) return false;
  return true;
}
template <class T>
bool allNear(const Array<T>& a, const std::type_identity_t<T>& b, double tol) {
  bool r = true;
  a.ForEach([&](const T& x) { r = r && near(x, b, tol); });
  return r;
}
template <class T>
bool allNearAbs(const Array<T>& a, const Array<T>& b, double tol) {
  if (a.shape() != b.shape()) return false;
  auto x = a.tovector();
  auto y = b.tovector();
  for (size_t i = 0; i < x.size(); ++i)
    if (!nearAbs(x[i], y[i], tol)) return false;
  return true;
}
inline bool allTrue(const Array<bool>& a) { return allEQ(a, true); }
inline bool anyTrue(const Array<bool>& a) { return anyEQ(a, true); }
inline size_t ntrue(const Array<bool>& a) {
  size_t n = 0;
  a.ForEach([&](bool x) { n += x; });
  return n;
}
inline size_t nfalse(const Array<bool>& a) { return a.nelements() - ntrue(a); }
template <class T>
T sum(const Array<T>& a) {
  T r = T();
  a.ForEach([&](const T& x) { r += x; });
  return r;
}
template <class T>
T product(const Array<T>& a) {
  T r = T(1);
  a.ForEach([&](const T& x) { r *= x; });
  return r;
}
template <class T>
T mean(const Array<T>& a) {
  return sum(a) / T(a.nelements());
}
template <class T>
T max(const Array<T>& a) {
  auto v = a.tovector();
  return *std::max_element(v.begin(), v.end());
}
template <class T>
T min(const Array<T>& a) {
  auto v = a.tovector();
  return *std::min_element(v.begin(), v.end());
}
template <class T>
void minMax(T& lo, T& hi, const Array<T>& a) {
  lo = min(a);
  hi = max(a);
}
template <class T>
T median(const Array<T>& a) {
  auto v = a.tovector();
  std::sort(v.begin(), v.end());
  return v.size() % 2 ? v[v.size() / 2] : T(0.5) * (v[v.size() / 2 - 1] + v[v.size() / 2]);
}
template <class T>
Array<T> abs(const Array<T>& a) {
  return mini_detail::Map<T>(a, [](const T& x) { return std::abs(x); });
}
template <class T>
Array<T> amplitude(const Array<std::complex<T>>& a) {
  return mini_detail::Map<T>(a, [](const std::complex<T>& x) { return std::abs(x); });
}
template <class T>
Array<T> sqrt(const Array<T>& a) {
  return mini_detail::Map<T>(a, [](const T& x) { return std::sqrt(x); });
}
template <class T>
Array<T> square(const Array<T>& a) {
  return mini_detail::Map<T>(a, [](const T& x) { return x * x; });
}
template <class T>
void indgen(Array<T>& a, T start = T(0), T inc = T(1)) {
  a.ForEach([&](T& x) {
    x = start;
    start += inc;
  });
}
template <class T>
void indgen(Vector<T>& a, T start = T(0), T inc = T(1)) {
  indgen(static_cast<Array<T>&>(a), start, inc);
}
template <class T, class U>
void convertArray(Array<T>& to, const Array<U>& from) {
  auto v = from.tovector();
  if (to.shape() != from.shape()) to.resize(from.shape());
  size_t i = 0;
  to.ForEach([&](T& x) { x = static_cast<T>(v[i++]); });
}
template <class T>
std::ostream& operator<<(std::ostream& os, const Array<T>& a) {
  os << '[';
  size_t i = 0;
  a.ForEach([&](const T& x) { os << (i++ ? ", " : "") << x; });
  return os << ']';
}
template <class T>
Array<T> concatenateArray(const Array<T>& a, const Array<T>& b) {
  IPosition s(a.shape());
  s[s.size() - 1] += b.shape()[s.size() - 1];
  std::vector<T> v = a.tovector(), w = b.tovector();
  v.insert(v.end(), w.begin(), w.end());
  Array<T> r(s);
  std::copy(v.begin(), v.end(), r.data());
  return r;
}
template <class T>
Vector<String> stringToVector(const T& s, char sep = ',') {
  std::vector<String> v;
  std::stringstream ss(s);
  std::string part;
  while (std::getline(ss, part, sep)) v.push_back(part);
  return Vector<String>(v);
}
template <class T>
T innerProduct(const Vector<T>& a, const Vector<T>& b) {
  return sum(a * b);
}
inline ssize_t linearSearch1(const Vector<String>& v, const char* x) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] == x) return i;
  return -1;
}
template <class T, class INX = uInt>
struct GenSortIndirect {
  static size_t sort(Vector<INX>& index, const Array<T>& a) {
    std::vector<T> v(a.begin(), a.end());
    std::vector<INX> x(v.size());
    std::iota(x.begin(), x.end(), INX(0));
    std::stable_sort(x.begin(), x.end(), [&](INX p, INX q) { return v[p] < v[q]; });
    index = Vector<INX>(x);
    return x.size();
  }
};
template <class T>
ssize_t linearSearch1(const Vector<T>& v, const T& x, size_t = 0) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] == x) return i;
  return -1;
}
template <class T>
ssize_t linearSearch(bool& found, const Vector<T>& v, const T& x, size_t n, size_t = 0) {
  for (size_t i = 0; i < n; ++i)
    if (v[i] == x) {
      found = true;
      return i;
    }
  found = false;
  return -1;
}
template <class T>
void objcopy(T* to, const T* from, size_t n) {
  std::copy(from, from + n, to);
}
template <class T>
void objset(T* to, const T& x, size_t n) {
  std::fill(to, to + n, x);
}

// ---------------------------------------------------------------- quanta

class Unit {
 public:
  Unit() {}
  Unit(const std::string& s) : name_(s) {}
  Unit(const char* s) : name_(s) {}
  const std::string& getName() const { return name_; }
  bool empty() const { return name_.empty(); }
  /// Factor to SI; dimension letter: t(ime), a(ngle), l(ength), f(requency),
  /// w (flux), - (none).
  static bool Lookup(const std::string& n, double& factor, char& dim) {
    static const std::map<std::string, std::pair<double, char>> units{
        {"", {1, '-'}},       {"s", {1, 't'}},        {"ms", {1e-3, 't'}},
        {"us", {1e-6, 't'}},  {"min", {60, 't'}},     {"h", {3600, 't'}},
        {"d", {86400, 't'}},  {"a", {31557600, 't'}}, {"rad", {1, 'a'}},
        {"mrad", {1e-3, 'a'}},
        {"deg", {C::degree, 'a'}},   {"arcmin", {C::arcmin, 'a'}},
        {"arcsec", {C::arcsec, 'a'}}, {"m", {1, 'l'}}, {"km", {1e3, 'l'}},
        {"cm", {1e-2, 'l'}},  {"mm", {1e-3, 'l'}},    {"Hz", {1, 'f'}},
        {"kHz", {1e3, 'f'}},  {"MHz", {1e6, 'f'}},    {"GHz", {1e9, 'f'}},
        {"Jy", {1e-26, 'w'}}, {"mJy", {1e-29, 'w'}},  {"m/s", {1, 'v'}},
        {"km/s", {1e3, 'v'}}};
    auto it = units.find(n);
    if (it == units.end()) return false;
    factor = it->second.first;
    dim = it->second.second;
    return true;
  }
  char Dim() const {
    double f;
    char d = '?';
    if (!Lookup(name_, f, d)) throw AipsError("unknown unit " + name_);
    return d;
  }
  double Factor() const {
    double f = 1;
    char d;
    if (!Lookup(name_, f, d)) throw AipsError("unknown unit " + name_);
    return f;
  }
  friend bool operator==(const Unit& a, const Unit& b) { return a.Dim() == b.Dim(); }
  friend bool operator!=(const Unit& a, const Unit& b) { return !(a == b); }

 private:
  std::string name_;
};
namespace UnitVal_detail {}
struct UnitVal {
  char dim;
  friend bool operator==(const UnitVal& a, const UnitVal& b) { return a.dim == b.dim; }
  friend bool operator!=(const UnitVal& a, const UnitVal& b) { return a.dim != b.dim; }
  static const UnitVal NODIM, ANGLE, TIME, LENGTH;
};
inline const UnitVal UnitVal::NODIM{'-'}, UnitVal::ANGLE{'a'}, UnitVal::TIME{'t'},
    UnitVal::LENGTH{'l'};

template <class T>
class Quantum {
 public:
  Quantum() : value_() {}
  Quantum(const T& v) : value_(v) {}
  Quantum(const T& v, const std::string& u) : value_(v), unit_(u) {}
  Quantum(const T& v, const char* u) : value_(v), unit_(u) {}
  Quantum(const T& v, const Unit& u) : value_(v), unit_(u) {}
  const T& getValue() const { return value_; }
  T& getValue() { return value_; }
  T getValue(const Unit& u, bool = false) const { return Scaled(unit_.Factor() / u.Factor(), u); }
  T getBaseValue() const { return Scaled(unit_.Factor(), unit_); }
  const std::string& getUnit() const { return unit_.getName(); }
  const Unit& getFullUnit() const { return unit_; }
  void setValue(const T& v) { value_ = v; }
  void setUnit(const std::string& u) { unit_ = Unit(u); }
  Quantum get(const Unit& u) const { return Quantum(getValue(u), u); }
  Quantum get() const { return Quantum(getBaseValue()); }
  void convert(const Unit& u) {
    value_ = getValue(u);
    unit_ = u;
  }
  bool isConform(const std::string& u) const { return unit_ == Unit(u); }
  bool isConform(const Unit& u) const { return unit_ == u; }
  bool check(const UnitVal& u) const { return unit_.Dim() == u.dim; }
  friend std::ostream& operator<<(std::ostream& os, const Quantum& q) {
    return os << q.value_ << ' ' << q.unit_.getName();
  }

 private:
  T Scaled(double f, const Unit& u) const {
    if (u.Dim() != unit_.Dim() && !(u.Dim() == 't' && unit_.Dim() == 'a') &&
        !(u.Dim() == 'a' && unit_.Dim() == 't'))
      throw AipsError("Quantum::get unit conformance error");
    return T(value_ * f);
  }
  T value_;
  Unit unit_;
};
typedef Quantum<double> Quantity;

namespace mini_detail {
inline bool ParseNumber(const char*& p, double& v) {
  char* end;
  // No hex, inf or nan.
  const char* q = p;
  if (*q == '+' || *q == '-') ++q;
  if (!(std::isdigit(static_cast<unsigned char>(*q)) || *q == '.')) return false;
  v = std::strtod(p, &end);
  if (end == p) return false;
  p = end;
  return true;
}
/// "h:m:s", "hHmMs", "d.m.s", "12.5deg", "0.3 rad", "1.2".
inline bool ParseAngle(const std::string& in, double& rad, bool& hasUnit) {
  std::string s = in;
  size_t b = s.find_first_not_of(' '), e = s.find_last_not_of(' ');
  if (b == std::string::npos) return false;
  s = s.substr(b, e - b + 1);
  const char* p = s.c_str();
  double sign = 1;
  if (*p == '-' || *p == '+') {
    if (*p == '-') sign = -1;
    ++p;
  }
  auto digits = [&](double& v) {
    if (!std::isdigit(static_cast<unsigned char>(*p))) return false;
    v = 0;
    while (std::isdigit(static_cast<unsigned char>(*p))) v = v * 10 + (*p++ - '0');
    return true;
  };
  // Sexagesimal forms.
  {
    const char* save = p;
    double a, m = 0, sec = 0;
    if (digits(a)) {
      char sep = *p;
      double f = 0;
      char sep2 = 0;
      if (sep == ':' ) { f = 15; sep2 = ':'; }
      else if (sep == 'h' || sep == 'H') { f = 15; sep2 = 'm'; }
      else if (sep == 'd' || sep == 'D') { f = 1; sep2 = 'm'; }
      else if (sep == '.') {
        // d.m.s needs two dots
        const char* q = p + 1;
        while (std::isdigit(static_cast<unsigned char>(*q))) ++q;
        if (*q == '.') { f = 1; sep2 = '.'; }
      }
      if (f != 0 && std::isdigit(static_cast<unsigned char>(p[1]))) {
        ++p;
        if (digits(m)) {
          if (*p == sep2 || (sep2 == 'm' && *p == 'M')) {
            ++p;
            if (std::isdigit(static_cast<unsigned char>(*p))) {
              char* end;
              sec = std::strtod(p, &end);
              p = end;
              if (*p == 's' || *p == 'S') ++p;
            }
          }
          if (*p == 0) {
            rad = sign * (a + m / 60 + sec / 3600) * f * C::degree;
            hasUnit = true;
            return true;
          }
        }
      }
    }
    p = save;
  }
  double v;
  if (!ParseNumber(p, v)) return false;
  while (*p == ' ') ++p;
  double factor;
  char dim;
  const std::string unit(p);
  if (!Unit::Lookup(unit, factor, dim)) return false;
  hasUnit = !unit.empty();
  if (dim == 't')
    factor *= 15 * C::degree / 3600;
  else if (dim != 'a' && dim != '-')
    return false;
  rad = sign * v * factor;
  return true;
}
inline int64_t DaysFromCivil(int64_t y, unsigned m, unsigned d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = static_cast<unsigned>(y - era * 400);
  const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + static_cast<int64_t>(doe) - 719468;
}
inline void CivilFromDays(int64_t z, int64_t& y, unsigned& m, unsigned& d) {
  z += 719468;
  const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = static_cast<unsigned>(z - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  y = static_cast<int64_t>(yoe) + era * 400;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2;
}
constexpr int64_t kMjdUnix = 40587;
}  // namespace mini_detail

class MVAngle {
 public:
  enum formatTypes { ANGLE, TIME, CLEAN, NO_D, NO_H = NO_D, NO_DM, TIME_CLEAN, DIG2, LOCAL };
  MVAngle(double rad = 0) : v_(rad) {}
  MVAngle(const Quantity& q) : v_(q.getBaseValue()) {}
  static bool read(Quantity& q, const std::string& s, bool = true) {
    double rad;
    bool unit;
    if (!mini_detail::ParseAngle(s, rad, unit)) return false;
    q = unit ? Quantity(rad, "rad") : Quantity(rad, "");
    return true;
  }
  class Format {
   public:
    Format(int t = ANGLE, unsigned prec = 0) : type(t), prec(prec) {}
    int type;
    unsigned prec;
  };
  double radian() const { return v_; }
  double degree() const { return v_ / C::degree; }
  double get() const { return v_; }
  operator double() const { return v_; }
  std::string string(int, unsigned = 0) const {
    std::ostringstream os;
    os << std::setprecision(12) << v_;
    return os.str();
  }
  MVAngle& operator()() { return *this; }

 private:
  double v_;
};

inline std::ostream& operator<<(std::ostream& os, const MVAngle::Format&) { return os; }
inline std::ostream& operator<<(std::ostream& os, const MVAngle& a) { return os << a.string(0); }

class MVTime {
 public:
  enum formatTypes { ANGLE = 0, TIME = 1, CLEAN = 16, NO_D = 32, YMD = 1024 | 2, DMY = 4096 | 2,
                     FITS = 8192, BOOST = 16384, LOCAL = 32768, YMD_ONLY = 65536, ALPHA = 131072,
                     USE_SPACE = 262144, DAY = 2048 };
  class Format {
   public:
    Format(int t = TIME, unsigned prec = 0) : type(t), prec(prec) {}
    int type;
    unsigned prec;
  };
  MVTime(double days = 0) : v_(days) {}
  MVTime(const Quantity& q) : v_(q.getBaseValue() / 86400) {}
  double day() const { return v_; }
  double second() const { return v_ * 86400; }
  operator double() const { return v_; }
  Quantity get() const { return Quantity(v_, "d"); }
  std::string string(int = TIME, unsigned prec = 6) const { return Ymd(prec); }
  /// yyyy/mm/dd/hh:mm:ss[.fff], the number of decimals follows from the
  /// precision as in casacore (6 digits for hhmmss, the rest are decimals).
  std::string Ymd(unsigned prec) const {
    const unsigned decimals = prec > 6 ? prec - 6 : 0;
    double days = std::floor(v_);
    double sec = (v_ - days) * 86400;
    const double scale = std::pow(10.0, decimals);
    double ticks = std::floor(sec * scale + 0.5);
    if (ticks >= 86400 * scale) {
      ticks -= 86400 * scale;
      days += 1;
    }
    int64_t y;
    unsigned m, d;
    mini_detail::CivilFromDays(static_cast<int64_t>(days) - mini_detail::kMjdUnix, y, m, d);
    const double whole = std::floor(ticks / scale);
    const int isec = static_cast<int>(whole);
    char buf[80];
    std::snprintf(buf, sizeof buf, "%04lld/%02u/%02u/%02d:%02d:%02d", static_cast<long long>(y), m,
                  d, isec / 3600, isec / 60 % 60, isec % 60);
    std::string r(buf);
    if (decimals) {
      std::snprintf(buf, sizeof buf, ".%0*lld", static_cast<int>(decimals),
                    static_cast<long long>(ticks - whole * scale + 0.5));
      r += buf;
    }
    return r;
  }
  static bool read(Quantity& q, const std::string& s, bool = true) {
    long y;
    unsigned mo, d;
    int n = 0;
    std::string t = s;
    size_t b = t.find_first_not_of(" '\"");
    size_t e = t.find_last_not_of(" '\"");
    if (b == std::string::npos) return false;
    t = t.substr(b, e - b + 1);
    char mon[4] = {0};
    if (std::sscanf(t.c_str(), "%ld/%u/%u%n", &y, &mo, &d, &n) == 3 ||
        std::sscanf(t.c_str(), "%4ld-%2u-%2u%n", &y, &mo, &d, &n) == 3) {
    } else if (std::sscanf(t.c_str(), "%u-%3[A-Za-z]-%ld%n", &d, mon, &y, &n) == 3 ||
               std::sscanf(t.c_str(), "%u%3[A-Za-z]%ld%n", &d, mon, &y, &n) == 3) {
      static const char* names[] = {"jan", "feb", "mar", "apr", "may", "jun",
                                    "jul", "aug", "sep", "oct", "nov", "dec"};
      mo = 0;
      for (unsigned i = 0; i < 12; ++i)
        if (downcase(mon) == names[i]) mo = i + 1;
      if (!mo) return false;
    } else {
      const char* p = t.c_str();
      double v;
      if (std::count(t.begin(), t.end(), ':')) return ReadHms(p, v) && (q = Quantity(v / 86400, "d"), true);
      if (!mini_detail::ParseNumber(p, v)) return false;
      while (*p == ' ') ++p;
      double f;
      char dim;
      if (!Unit::Lookup(p, f, dim)) return false;
      q = Quantity(v, p);
      return true;
    }
    if (mo < 1 || mo > 12 || d < 1 || d > 31) return false;
    double sec = 0;
    if (t.size() > static_cast<size_t>(n)) {
      const char* p = t.c_str() + n;
      if (*p != '/' && *p != '-' && *p != ' ' && *p != 'T') return false;
      ++p;
      if (!ReadHms(p, sec)) return false;
    }
    const double day = static_cast<double>(mini_detail::DaysFromCivil(y, mo, d) + mini_detail::kMjdUnix);
    q = Quantity(day + sec / 86400, "d");
    return true;
  }

 private:
  static bool ReadHms(const char* p, double& sec) {
    double h = 0, m = 0, s = 0;
    if (!mini_detail::ParseNumber(p, h)) return false;
    if (*p == ':') {
      ++p;
      if (*p && !mini_detail::ParseNumber(p, m)) return false;
      if (*p == ':') {
        ++p;
        if (*p && !mini_detail::ParseNumber(p, s)) return false;
      }
    }
    if (*p) return false;
    sec = h * 3600 + m * 60 + s;
    return true;
  }
  double v_;
};
namespace mini_detail {
inline int TimePrecIndex() {
  static const int i = std::ios_base::xalloc();
  return i;
}
}  // namespace mini_detail
inline std::ostream& operator<<(std::ostream& os, const MVTime::Format& f) {
  os.iword(mini_detail::TimePrecIndex()) = f.prec + 1;
  return os;
}
inline std::ostream& operator<<(std::ostream& os, const MVTime& t) {
  const long p = os.iword(mini_detail::TimePrecIndex());
  return os << t.Ymd(p ? p - 1 : 6);
}

// ---------------------------------------------------------------- measures

class MVEpoch {
 public:
  MVEpoch(double days = 0) : v_(days) {}
  MVEpoch(const Quantity& q) : v_(q.getBaseValue() / 86400) {}
  double get() const { return v_; }
  Quantity getTime() const { return Quantity(v_, "d"); }
  Quantity getTime(const Unit& u) const { return Quantity(Quantity(v_, "d").getValue(u), u); }

 private:
  double v_;
};
class MVPosition {
 public:
  MVPosition() : v_{0, 0, 0} {}
  MVPosition(double x, double y, double z) : v_{x, y, z} {}
  MVPosition(const Quantity& x, const Quantity& y, const Quantity& z)
      : v_{x.getBaseValue(), y.getBaseValue(), z.getBaseValue()} {
    // (length, longitude, latitude) form
    if (y.getFullUnit().Dim() == 'a') {
      const double r = x.getBaseValue(), lon = y.getBaseValue(), lat = z.getBaseValue();
      v_ = {r * std::cos(lat) * std::cos(lon), r * std::cos(lat) * std::sin(lon), r * std::sin(lat)};
    }
  }
  MVPosition(const Vector<double>& v) : v_{v[0], v[1], v[2]} {}
  explicit MVPosition(const Quantum<Vector<double>>& q)
      : v_{q.getValue()[0], q.getValue()[1], q.getValue()[2]} {}
  Vector<double> getValue() const { return Vector<double>(std::vector<double>{v_[0], v_[1], v_[2]}); }
  Vector<double> get() const {
    const double r = std::sqrt(v_[0] * v_[0] + v_[1] * v_[1] + v_[2] * v_[2]);
    return Vector<double>(std::vector<double>{r, std::atan2(v_[1], v_[0]), r ? std::asin(v_[2] / r) : 0});
  }
  double operator()(size_t i) const { return v_.at(i); }
  Vector<double> getVector() const { return getValue(); }
  double radius() const { return get()[0]; }
  friend bool operator==(const MVPosition& a, const MVPosition& b) { return a.v_ == b.v_; }
  friend bool operator!=(const MVPosition& a, const MVPosition& b) { return a.v_ != b.v_; }
  MVPosition& operator+=(const MVPosition& o) {
    for (int i = 0; i < 3; ++i) v_[i] += o.v_[i];
    return *this;
  }
  MVPosition& operator-=(const MVPosition& o) {
    for (int i = 0; i < 3; ++i) v_[i] -= o.v_[i];
    return *this;
  }
  MVPosition& operator*=(double f) {
    for (double& x : v_) x *= f;
    return *this;
  }
  friend MVPosition operator-(MVPosition a, const MVPosition& b) { return a -= b; }
  friend MVPosition operator+(MVPosition a, const MVPosition& b) { return a += b; }
  bool near(const MVPosition& o, double tol = 1e-13) const {
    for (int i = 0; i < 3; ++i)
      if (!casacore::near(v_[i], o.v_[i], tol)) return false;
    return true;
  }
  bool nearAbs(const MVPosition& o, double tol = 1e-13) const {
    for (int i = 0; i < 3; ++i)
      if (std::abs(v_[i] - o.v_[i]) > tol) return false;
    return true;
  }

 private:
  std::array<double, 3> v_;
};
class MVBaseline : public MVPosition {
 public:
  using MVPosition::MVPosition;
  MVBaseline() {}
  MVBaseline(const MVPosition& p) : MVPosition(p) {}
  MVBaseline(const MVPosition& p, const MVPosition& base)
      : MVPosition(p(0) - base(0), p(1) - base(1), p(2) - base(2)) {}
};
class MVDirection {
 public:
  MVDirection() : lon_(0), lat_(M_PI_2) {}
  MVDirection(double lon, double lat) : lon_(lon), lat_(lat) {}
  MVDirection(const Quantity& lon, const Quantity& lat)
      : lon_(lon.getBaseValue()), lat_(lat.getBaseValue()) {}
  MVDirection(const Quantum<Vector<double>>& q)
      : lon_(q.getValue()[0]), lat_(q.getValue()[1]) {}
  explicit MVDirection(const Vector<double>& v) : lon_(v[0]), lat_(v[1]) {
    if (v.size() == 3) {
      lon_ = std::atan2(v[1], v[0]);
      lat_ = std::asin(v[2] / std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]));
    }
  }
  MVDirection(double x, double y, double z)
      : lon_(std::atan2(y, x)), lat_(std::asin(z / std::sqrt(x * x + y * y + z * z))) {}
  Vector<double> get() const { return Vector<double>(std::vector<double>{lon_, lat_}); }
  double getLong() const { return lon_; }
  double getLat() const { return lat_; }
  Quantity getLong(const Unit& u) const { return Quantity(Quantity(lon_, "rad").getValue(u), u); }
  Quantity getLat(const Unit& u) const { return Quantity(Quantity(lat_, "rad").getValue(u), u); }
  Vector<double> getValue() const {
    return Vector<double>(std::vector<double>{std::cos(lat_) * std::cos(lon_),
                                              std::cos(lat_) * std::sin(lon_), std::sin(lat_)});
  }
  double operator()(size_t i) const { return getValue()[i]; }
  Quantum<Vector<double>> getAngle(const Unit& u) const {
    return Quantum<Vector<double>>(Vector<double>(std::vector<double>{Quantity(lon_, "rad").getValue(u), Quantity(lat_, "rad").getValue(u)}), u);
  }
  Quantum<Vector<double>> getAngle() const { return Quantum<Vector<double>>(get(), "rad"); }
  double separation(const MVDirection& o) const {
    const auto a = getValue(), b = o.getValue();
    double d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    return std::acos(std::max(-1.0, std::min(1.0, d)));
  }
  friend bool operator==(const MVDirection& a, const MVDirection& b) {
    return a.lon_ == b.lon_ && a.lat_ == b.lat_;
  }

 private:
  double lon_, lat_;
};

class Measure {
 public:
  virtual ~Measure() = default;
  virtual std::string tellMe() const = 0;
};
template <class M>
class MeasRefT {
 public:
  MeasRefT() {}
  MeasRefT(unsigned t) : type(t) {}
  template <class F>
  MeasRefT(unsigned t, const F&) : type(t) {}
  unsigned getType() const { return type; }
  template <class F>
  void set(const F&) {}
  unsigned type = 0;
};
class MeasFrame;
namespace mini_detail {
/// Frame conversions are the identity: no property here depends on them.
template <class M>
class Conv {
 public:
  Conv() {}
  template <class X>
  Conv(const M& m, const X& ref) : m_(m), type_(RefType(ref)), have_(true) {}
  template <class X, class Y>
  Conv(const MeasRefT<X>& , const Y& ref) : type_(RefType(ref)) {}
  Conv(const typename M::Types, const MeasRefT<M>& ref) : type_(ref.type) {}
  M operator()() const { return Make(m_); }
  template <class X>
  void set(const M& m, const X& ref) {
    m_ = m;
    type_ = RefType(ref);
    have_ = true;
  }
  M operator()(const M& m) const { return Make(m); }
  M operator()(double v) const { return Make(M(v)); }
  template <class V>
    requires(!std::is_same_v<V, M>)
  M operator()(const V& v) const { return Make(M(v)); }

 private:
  static unsigned RefType(unsigned t) { return t; }
  template <class X>
  static unsigned RefType(const MeasRefT<X>& r) { return r.type; }
  M Make(M m) const {
    m.setType(type_);
    return m;
  }
  M m_;
  unsigned type_ = 0;
  bool have_ = false;
};
}  // namespace mini_detail

class MEpoch : public Measure {
 public:
  enum Types { LAST, LMST, GMST1, GAST, UT1, UT2, UTC, TAI, TDT, TCG, TDB, TCB, N_Types, IAT = TAI, DEFAULT = UTC };
  typedef MeasRefT<MEpoch> Ref;
  typedef mini_detail::Conv<MEpoch> Convert;
  typedef MVEpoch MVType;
  MEpoch(double d = 0) : v_(d) {}
  MEpoch(const MVEpoch& v, const Ref& r = Ref(UTC)) : v_(v), ref_(r) {}
  MEpoch(const Quantity& v, const Ref& r = Ref(UTC)) : v_(v), ref_(r) {}
  const MVEpoch& getValue() const { return v_; }
  Quantity get(const Unit& u) const { return v_.getTime(u); }
  const Ref& getRef() const { return ref_; }
  void setType(unsigned t) { ref_.type = t; }
  void set(const MVEpoch& v) { v_ = v; }
  std::string tellMe() const override { return "Epoch"; }

 private:
  MVEpoch v_;
  Ref ref_{UTC};
};
class MPosition : public Measure {
 public:
  enum Types { ITRF, WGS84, N_Types, DEFAULT = ITRF };
  typedef MeasRefT<MPosition> Ref;
  typedef mini_detail::Conv<MPosition> Convert;
  typedef MVPosition MVType;
  MPosition() {}
  MPosition(const MVPosition& v, const Ref& r = Ref(ITRF)) : v_(v), ref_(r) {}
  MPosition(const MVPosition& v, Types t) : v_(v), ref_(t) {}
  MPosition(const Quantum<Vector<double>>& q, Types t) : v_(q), ref_(t) {}
  const MVPosition& getValue() const { return v_; }
  Quantum<Vector<double>> get(const Unit& u) const { return Quantum<Vector<double>>(v_.getValue(), u); }
  const Ref& getRef() const { return ref_; }
  void setType(unsigned t) { ref_.type = t; }
  static Types castType(unsigned t) { return static_cast<Types>(t); }
  std::string getRefString() const { return ref_.type == ITRF ? "ITRF" : "WGS84"; }
  std::string tellMe() const override { return "Position"; }

 private:
  MVPosition v_;
  Ref ref_{ITRF};
};
class MBaseline : public Measure {
 public:
  enum Types { J2000, B1950, ITRF = 17, N_Types, DEFAULT = ITRF };
  typedef MeasRefT<MBaseline> Ref;
  typedef mini_detail::Conv<MBaseline> Convert;
  typedef MVBaseline MVType;
  MBaseline() {}
  MBaseline(const MVBaseline& v, const Ref& r = Ref(ITRF)) : v_(v), ref_(r) {}
  MBaseline(const MVBaseline& v, Types t) : v_(v), ref_(t) {}
  const MVBaseline& getValue() const { return v_; }
  const Ref& getRef() const { return ref_; }
  const Ref* getRefPtr() const { return &ref_; }
  Ref* getRefPtr() { return &ref_; }
  void setType(unsigned t) { ref_.type = t; }
  template <class F>
  void set(const MVBaseline& v, const F&) { v_ = v; }
  std::string tellMe() const override { return "Baseline"; }

 private:
  MVBaseline v_;
  Ref ref_{ITRF};
};
class MVuvw : public MVPosition {
 public:
  using MVPosition::MVPosition;
  MVuvw() {}
  MVuvw(const MVPosition& p) : MVPosition(p) {}
  /// The projection is a fixed rotation in this stand-in: only its linearity
  /// in the baseline matters.
  template <class D>
  MVuvw(const MVPosition& p, const D&) : MVPosition(p) {}
};
class Muvw : public Measure {
 public:
  enum Types { J2000, ITRF = 17, DEFAULT = J2000 };
  Muvw() {}
  Muvw(const MVuvw& v, Types = J2000) : v_(v) {}
  const MVuvw& getValue() const { return v_; }
  std::string tellMe() const override { return "uvw"; }

 private:
  MVuvw v_;
};
class MDirection : public Measure {
 public:
  enum Types { J2000, JMEAN, JTRUE, APP, B1950, BMEAN, BTRUE, GALACTIC, HADEC, AZEL, AZELSW,
               AZELGEO, AZELSWGEO, JNAT, ECLIPTIC, MECLIPTIC, TECLIPTIC, SUPERGAL, ITRF, TOPO,
               ICRS, N_Types, MERCURY = 32, VENUS, MARS, JUPITER, SATURN, URANUS, NEPTUNE, PLUTO,
               SUN, MOON, COMET, N_Planets, DEFAULT = J2000, AZELNE = AZEL };
  typedef MeasRefT<MDirection> Ref;
  typedef mini_detail::Conv<MDirection> Convert;
  typedef MVDirection MVType;
  static MDirection makeMDirection(const std::string& name) { throw AipsError("unknown source " + name); }
  MDirection() {}
  MDirection(Types t) : ref_(t) {}
  MDirection(const MVDirection& v, const Ref& r = Ref(J2000)) : v_(v), ref_(r) {}
  MDirection(const MVDirection& v, Types t) : v_(v), ref_(t) {}
  MDirection(const Quantity& lon, const Quantity& lat, const Ref& r = Ref(J2000))
      : v_(lon, lat), ref_(r) {}
  MDirection(const Quantity& lon, const Quantity& lat, Types t) : v_(lon, lat), ref_(t) {}
  const MVDirection& getValue() const { return v_; }
  Quantum<Vector<double>> getAngle() const { return v_.getAngle(); }
  Quantum<Vector<double>> getAngle(const Unit&) const { return v_.getAngle(); }
  const Ref& getRef() const { return ref_; }
  const Ref* getRefPtr() const { return &ref_; }
  Ref* getRefPtr() { return &ref_; }
  unsigned type() const { return ref_.type; }
  void setType(unsigned t) { ref_.type = t; }
  void set(const MVDirection& v) { v_ = v; }
  static Types castType(unsigned t) { return static_cast<Types>(t); }
  static const std::map<std::string, Types>& Names() {
    static const std::map<std::string, Types> n{
        {"J2000", J2000}, {"JMEAN", JMEAN}, {"JTRUE", JTRUE}, {"APP", APP}, {"B1950", B1950},
        {"GALACTIC", GALACTIC}, {"HADEC", HADEC}, {"AZEL", AZEL}, {"AZELGEO", AZELGEO},
        {"ITRF", ITRF}, {"TOPO", TOPO}, {"ICRS", ICRS}, {"MERCURY", MERCURY}, {"VENUS", VENUS},
        {"MARS", MARS}, {"JUPITER", JUPITER}, {"SATURN", SATURN}, {"URANUS", URANUS},
        {"NEPTUNE", NEPTUNE}, {"PLUTO", PLUTO}, {"SUN", SUN}, {"MOON", MOON}};
    return n;
  }
  static bool getType(Types& t, const std::string& name) {
    auto it = Names().find(upcase(name));
    if (it == Names().end()) return false;
    t = it->second;
    return true;
  }
  static String showType(unsigned t) {
    for (const auto& p : Names())
      if (unsigned(p.second) == t) return p.first;
    return "?";
  }
  String getRefString() const { return showType(ref_.type); }
  String toString() const {
    std::ostringstream os;
    os << '[' << v_.getLong() << ", " << v_.getLat() << ']';
    return os.str();
  }
  std::string tellMe() const override { return "Direction"; }

 private:
  MVDirection v_;
  Ref ref_{J2000};
};
inline std::ostream& operator<<(std::ostream& os, const MDirection& d) { return os << d.toString(); }
class MFrequency : public Measure {
 public:
  enum Types { REST, LSRK, LSRD, BARY, GEO, TOPO, GALACTO, LGROUP, CMB, N_Types, DEFAULT = LSRK };
  typedef MeasRefT<MFrequency> Ref;
  MFrequency(double v = 0) : v_(v) {}
  double getValue() const { return v_; }
  std::string tellMe() const override { return "Frequency"; }

 private:
  double v_;
};
class MeasFrame {
 public:
  MeasFrame() {}
  template <class... M>
  MeasFrame(const M&... m) { (set(m), ...); }
  template <class A, class B, class... M>
  void set(const A& a, const B& b, const M&... m) {
    set(a);
    set(b);
    (set(m), ...);
  }
  void set(const MEpoch&) {}
  void set(const MPosition&) {}
  void set(const MDirection&) {}
  void resetEpoch(double) {}
  void resetEpoch(const MEpoch&) {}
  void resetEpoch(const MVEpoch&) {}
  void resetEpoch(const Quantity&) {}
  void resetPosition(const MPosition&) {}
  void resetDirection(const MDirection&) {}
};
template <class M>
using MeasRef = MeasRefT<M>;
template <class M>
using MeasConvert = mini_detail::Conv<M>;
class MeasTable {
 public:
  static bool Observatory(MPosition& p, const std::string&) {
    p = MPosition(MVPosition(3826577.0, 461022.0, 5064892.0));
    return true;
  }
};

// ---------------------------------------------------------------- records

class Table;
class Record;
class RecordInterface {
 public:
  virtual ~RecordInterface() = default;
};
namespace mini_detail {
struct TableHolder {
  virtual ~TableHolder() = default;
};
}  // namespace mini_detail
class Record : public RecordInterface {
 public:
  typedef std::variant<std::monostate, bool, int64_t, double, DComplex, std::string,
                       std::shared_ptr<Record>, std::vector<std::string>,
                       std::vector<int>, std::shared_ptr<mini_detail::TableHolder>,
                       std::shared_ptr<Measure>, Array<double>, Array<bool>>
      Value;
  void define(const std::string& n, bool v) { f_[n] = v; Order(n); }
  void define(const std::string& n, int v) { f_[n] = int64_t(v); Order(n); }
  void define(const std::string& n, unsigned v) { f_[n] = int64_t(v); Order(n); }
  void define(const std::string& n, long v) { f_[n] = int64_t(v); Order(n); }
  void define(const std::string& n, long long v) { f_[n] = int64_t(v); Order(n); }
  void define(const std::string& n, float v) { f_[n] = double(v); Order(n); }
  void define(const std::string& n, double v) { f_[n] = v; Order(n); }
  void define(const std::string& n, const std::string& v) { f_[n] = v; Order(n); }
  void define(const std::string& n, const char* v) { f_[n] = std::string(v); Order(n); }
  void define(const std::string& n, const Array<double>& v) { f_[n] = v.copy(); Order(n); }
  void define(const std::string& n, const Array<bool>& v) { f_[n] = v.copy(); Order(n); }
  void define(const std::string& n, const Array<int>& v) { f_[n] = v.tovector(); Order(n); }
  void define(const std::string& n, const Array<String>& v) {
    std::vector<std::string> s;
    v.ForEach([&](const String& x) { s.push_back(x); });
    f_[n] = s;
    Order(n);
  }
  void defineRecord(const std::string& n, const Record& r) { f_[n] = std::make_shared<Record>(r); Order(n); }
  void defineMeasure(const std::string& n, std::shared_ptr<Measure> m) { f_[n] = std::move(m); Order(n); }
  std::shared_ptr<Measure> measure(const std::string& n) const { return std::get<std::shared_ptr<Measure>>(Get(n)); }
  bool isDefined(const std::string& n) const { return f_.count(n) != 0; }
  int fieldNumber(const std::string& n) const {
    for (size_t i = 0; i < order_.size(); ++i)
      if (order_[i] == n) return i;
    return -1;
  }
  size_t nfields() const { return order_.size(); }
  size_t size() const { return order_.size(); }
  bool empty() const { return order_.empty(); }
  String name(size_t i) const { return order_.at(i); }
  void removeField(const std::string& n) {
    if (!f_.erase(n)) throw AipsError("Record::removeField: unknown field " + n);
    order_.erase(std::find(order_.begin(), order_.end(), n));
  }
  bool asBool(const std::string& n) const { return std::get<bool>(Get(n)); }
  int asInt(const std::string& n) const { return Number(n); }
  int64_t asInt64(const std::string& n) const { return Number(n); }
  unsigned asuInt(const std::string& n) const { return Number(n); }
  float asFloat(const std::string& n) const { return Number(n); }
  double asDouble(const std::string& n) const { return Number(n); }
  double asdouble(const std::string& n) const { return Number(n); }
  String asString(const std::string& n) const { return std::get<std::string>(Get(n)); }
  const Record& asRecord(const std::string& n) const { return *std::get<std::shared_ptr<Record>>(Get(n)); }
  const Record& subRecord(int i) const { return asRecord(name(i)); }
  const Record& subRecord(const std::string& n) const { return asRecord(n); }
  Array<double> asArrayDouble(const std::string& n) const { return std::get<Array<double>>(Get(n)); }
  Array<bool> asArrayBool(const std::string& n) const { return std::get<Array<bool>>(Get(n)); }
  Array<double> toArrayDouble(const std::string& n) const {
    const Value& v = Get(n);
    if (std::holds_alternative<Array<double>>(v)) return std::get<Array<double>>(v).copy();
    Vector<double> one(1);
    one[0] = Number(n);
    return Array<double>(one);
  }
  void get(const std::string& n, Array<double>& v) const {
    v.resize(asArrayDouble(n).shape());
    v = asArrayDouble(n);
  }
  void get(int i, Array<double>& v) const { get(std::string(name(i)), v); }
  Array<bool> toArrayBool(const std::string& n) const {
    const Value& v = Get(n);
    if (std::holds_alternative<Array<bool>>(v)) return std::get<Array<bool>>(v).copy();
    Vector<bool> one(1);
    one[0] = asBool(n);
    return Array<bool>(one);
  }
  Vector<int> asArrayInt(const std::string& n) const { return Vector<int>(std::get<std::vector<int>>(Get(n))); }
  Vector<String> asArrayString(const std::string& n) const { return Vector<String>(std::get<std::vector<std::string>>(Get(n))); }
  const Value& Get(const std::string& n) const {
    auto it = f_.find(n);
    if (it == f_.end()) throw AipsError("Record: unknown field " + n);
    return it->second;
  }
  void Put(const std::string& n, Value v) { f_[n] = std::move(v); Order(n); }
  void merge(const Record& o) {
    for (const auto& n : o.order_) Put(n, o.Get(n));
  }

 private:
  void Order(const std::string& n) {
    if (std::find(order_.begin(), order_.end(), n) == order_.end()) order_.push_back(n);
  }
  double Number(const std::string& n) const {
    const Value& v = Get(n);
    if (auto p = std::get_if<int64_t>(&v)) return *p;
    if (auto p = std::get_if<double>(&v)) return *p;
    throw AipsError("Record: field " + n + " is not a number");
  }
  std::map<std::string, Value> f_;
  std::vector<std::string> order_;
};
template <class T>
class RecordFieldPtr {
 public:
  RecordFieldPtr() {}
  RecordFieldPtr(Record& r, const std::string& n) : r_(&r), n_(n) {}
  RecordFieldPtr(Record& r, int i) : r_(&r), n_(r.name(i)) {}
  void attachToRecord(Record& r, const std::string& n) { r_ = &r; n_ = n; }
  void define(const T& v) { r_->define(n_, v); }
  struct Proxy {
    Record* r;
    std::string n;
    Proxy& operator=(const T& v) {
      r->define(n, v);
      return *this;
    }
    operator T() const {
      if constexpr (std::is_same_v<T, bool>)
        return r->asBool(n);
      else if constexpr (std::is_arithmetic_v<T>)
        return T(r->asDouble(n));
      else
        return T(r->asString(n));
    }
  };
  Proxy operator*() const { return Proxy{r_, n_}; }

 private:
  Record* r_ = nullptr;
  std::string n_;
};

class MeasureHolder {
 public:
  MeasureHolder() {}
  MeasureHolder(const MDirection& m) : m_(std::make_shared<MDirection>(m)) {}
  MeasureHolder(const MPosition& m) : m_(std::make_shared<MPosition>(m)) {}
  MeasureHolder(const MEpoch& m) : m_(std::make_shared<MEpoch>(m)) {}
  bool toRecord(Record& r) const {
    String s;
    return toRecord(s, r);
  }
  bool toRecord(String&, Record& r) const {
    if (!m_) return false;
    r.defineMeasure("measure", m_);
    return true;
  }
  bool fromRecord(String&, const Record& r) {
    if (!r.isDefined("measure")) return false;
    m_ = r.measure("measure");
    return true;
  }
  bool isMDirection() const { return dynamic_cast<MDirection*>(m_.get()); }
  bool isMPosition() const { return dynamic_cast<MPosition*>(m_.get()); }
  const MDirection& asMDirection() const { return dynamic_cast<const MDirection&>(*m_); }
  const MPosition& asMPosition() const { return dynamic_cast<const MPosition&>(*m_); }
  const MEpoch& asMEpoch() const { return dynamic_cast<const MEpoch&>(*m_); }

 private:
  std::shared_ptr<Measure> m_;
};

// ---------------------------------------------------------------- paths

/// Names only; the file system itself is the simulator's.
class Path {
 public:
  Path() {}
  Path(const std::string& s) : s_(s) {}
  Path(const char* s) : s_(s) {}
  const String& originalName() const { return s_; }
  String expandedName() const {
    String r = s_;
    if (!r.empty() && r[0] == '~') {
      const char* h = std::getenv("HOME");
      r = (h ? h : "") + r.substr(1);
    }
    if (!r.empty() && r[0] == '$') {
      size_t e = r.find('/');
      const char* v = std::getenv(r.substr(1, e == std::string::npos ? e : e - 1).c_str());
      r = (v ? v : "") + (e == std::string::npos ? std::string() : r.substr(e));
    }
    return r;
  }
  String absoluteName() const {
    String r = expandedName();
    if (r.empty() || r[0] != '/') {
      const std::string cwd = Cwd();
      r = (cwd == "/" ? "/" : cwd + "/") + r;
    }
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
  }
  String dirName() const {
    String e = Strip(expandedName());
    size_t p = e.rfind('/');
    if (p == std::string::npos) return ".";
    return p == 0 ? "/" : e.substr(0, p);
  }
  String baseName() const {
    String e = Strip(expandedName());
    size_t p = e.rfind('/');
    return p == std::string::npos ? e : String(e.substr(p + 1));
  }
  void append(const std::string& s) { s_ += (s_.empty() || s_.back() == '/' ? "" : "/") + s; }
  static std::string& Cwd() {
    static std::string c = "/work";
    return c;
  }

 private:
  static String Strip(String s) {
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    return s;
  }
  String s_;
};

class Timer {
 public:
  void mark() {}
  double user() const { return 0; }
  double system() const { return 0; }
  double real() const { return 0; }
  double all() const { return 0; }
  void show() const {}
  void show(const std::string&) const {}
  void show(std::ostream&) const {}
  void show(std::ostream& os, const std::string& prefix) const { os << prefix << "        0 real\n"; }
};

/// Directory listings come from the simulated disk (mini_tables.h).
class Directory {
 public:
  Directory() {}
  Directory(const Path& p) : p_(p) {}
  Directory(const std::string& p) : p_(p) {}
  const Path& path() const { return p_; }
  static std::vector<std::string> (*lister)(const std::string& dir);

 private:
  Path p_;
};
inline std::vector<std::string> (*Directory::lister)(const std::string&) = nullptr;
class DirectoryIterator {
 public:
  explicit DirectoryIterator(const Directory& d, const Regex& r = Regex(".*")) {
    if (Directory::lister)
      for (const auto& n : Directory::lister(d.path().absoluteName()))
        if (r.fullMatch(n)) names_.push_back(n);
  }
  bool pastEnd() const { return i_ >= names_.size(); }
  String name() const { return names_.at(i_); }
  void operator++() { ++i_; }
  void operator++(int) { ++i_; }

 private:
  std::vector<std::string> names_;
  size_t i_ = 0;
};
class HostInfo {
 public:
  static ssize_t memoryTotal(bool = false) { return 8 * 1024 * 1024; }
  static ssize_t memoryFree() { return 8 * 1024 * 1024; }
  static int numCPUs(bool = false) { return 4; }
  static String hostName() { return "sim"; }
};

}  // namespace casacore
#endif
