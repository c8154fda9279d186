// Stand-in for aocommon's queue, whose elements can be accessed by index.
#ifndef VERIF_AOCOMMON_QUEUE
#define VERIF_AOCOMMON_QUEUE
#include <cstddef>
#include <deque>
#include <stdexcept>
#include <utility>
namespace aocommon {
template <class T>
class Queue {
 public:
  bool Empty() const { return d_.empty(); }
  std::size_t Size() const { return d_.size(); }
  T& operator[](std::size_t i) { return d_.at(i); }
  const T& operator[](std::size_t i) const { return d_.at(i); }
  const T& Front() const { return d_.at(0); }
  T& Front() { return d_.at(0); }
  const T& Back() const { return d_.at(d_.size() - 1); }
  T& Back() { return d_.at(d_.size() - 1); }
  void PushBack(const T& x) { d_.push_back(x); }
  void PushBack(T&& x) { d_.push_back(std::move(x)); }
  template <class... A> void EmplaceBack(A&&... a) { d_.emplace_back(std::forward<A>(a)...); }
  void PopFront() {
    if (d_.empty()) throw std::runtime_error("empty queue");
    d_.pop_front();
  }
  void Clear() { d_.clear(); }
 private:
  std::deque<T> d_;
};
}  // namespace aocommon
#endif
