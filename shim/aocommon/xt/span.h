#ifndef AOCOMMON_XT_SPAN_H
#define AOCOMMON_XT_SPAN_H
#include <cassert>
#include "mini_xt.h"
#include "aocommon/xt/utensor.h"
namespace aocommon::xt {
template <class T, std::size_t N>
using Span = ::xt::view_t<T, N>;
template <class T, std::size_t N>
Span<T, N> CreateSpan(T* p, const std::array<std::size_t, N>& shape) {
  return ::xt::detail::adapt_ptr(p, shape);
}
template <class T, std::size_t N, ::xt::layout_type L>
Span<T, N> CreateSpan(::xt::xtensor<T, N, L>& a) {
  return ::xt::as_view(a);
}
template <class T, std::size_t N, ::xt::layout_type L>
Span<const T, N> CreateSpan(const ::xt::xtensor<T, N, L>& a) {
  return ::xt::as_view(a);
}
template <class T>
Span<T, 1> CreateSpan(std::vector<T>& v) {
  return ::xt::detail::adapt_ptr(v.data(), std::array<std::size_t, 1>{v.size()});
}
}
#endif
