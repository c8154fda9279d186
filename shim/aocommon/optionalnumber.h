// Stand-in for aocommon's optional number.
#ifndef VERIF_AOCOMMON_OPTIONALNUMBER
#define VERIF_AOCOMMON_OPTIONALNUMBER
#include <optional>
namespace aocommon {
template <class T>
class OptionalNumber {
 public:
  constexpr OptionalNumber() = default;
  constexpr OptionalNumber(std::nullopt_t) {}
  constexpr OptionalNumber(T x) : v_(x), has_(true) {}
  bool HasValue() const { return has_; }
  explicit operator bool() const { return HasValue(); }
  T operator*() const { return v_; }
  T Value() const { return v_; }
  T ValueOr(T x) const { return HasValue() ? v_ : x; }
  void Reset() { has_ = false; }
 private:
  T v_{};
  bool has_ = false;
};
}  // namespace aocommon
#endif
