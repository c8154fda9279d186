#ifndef AOCOMMON_XT_UTENSOR_H
#define AOCOMMON_XT_UTENSOR_H
#include "mini_xt.h"
namespace aocommon::xt {
template <class T, std::size_t N, ::xt::layout_type L = ::xt::layout_type::row_major>
using UTensor = ::xt::xtensor<T, N, L>;
}
#endif
