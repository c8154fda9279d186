// Stand-in for aocommon/lane.h (the submodule is absent): a bounded blocking
// multi-producer multi-consumer queue with the documented behaviour.
#ifndef AOCOMMON_LANE_H
#define AOCOMMON_LANE_H

#include <algorithm>
#include <condition_variable>
#include <cstddef>
#include <mutex>
#include <utility>
#include <vector>

namespace aocommon {

template <typename Tp>
class Lane {
 public:
  typedef std::size_t size_type;
  typedef Tp value_type;

  Lane() noexcept : buffer_(nullptr), capacity_(0) {}
  explicit Lane(size_t capacity)
      : buffer_(new Tp[capacity]), capacity_(capacity), free_(capacity) {}
  Lane(const Lane&) = delete;
  Lane& operator=(const Lane&) = delete;
  Lane(Lane&& o) noexcept { swap(o); }
  Lane& operator=(Lane&& o) noexcept {
    swap(o);
    return *this;
  }
  ~Lane() { delete[] buffer_; }

  void swap(Lane& o) noexcept {
    std::swap(buffer_, o.buffer_);
    std::swap(capacity_, o.capacity_);
    std::swap(wpos_, o.wpos_);
    std::swap(free_, o.free_);
    std::swap(end_, o.end_);
  }

  void clear() {
    std::lock_guard<std::mutex> lock(mutex_);
    wpos_ = 0;
    free_ = capacity_;
    end_ = false;
    can_write_.notify_all();
  }

  void write(const value_type& element) {
    std::unique_lock<std::mutex> lock(mutex_);
    if (end_) return;
    while (free_ == 0) can_write_.wait(lock);
    Put(element);
    can_read_.notify_all();
  }
  void write(value_type&& element) {
    std::unique_lock<std::mutex> lock(mutex_);
    if (end_) return;
    while (free_ == 0) can_write_.wait(lock);
    Put(std::move(element));
    can_read_.notify_all();
  }
  template <typename... Args>
  void emplace(Args&&... args) {
    write(value_type(std::forward<Args>(args)...));
  }
  void write(const value_type* elements, size_t n) {
    std::unique_lock<std::mutex> lock(mutex_);
    if (end_) return;
    while (n) {
      while (free_ == 0 && !end_) can_write_.wait(lock);
      if (end_) return;
      size_t k = std::min(n, free_);
      for (size_t i = 0; i < k; ++i) Put(elements[i]);
      elements += k;
      n -= k;
      can_read_.notify_all();
    }
  }
  void move_write(value_type* elements, size_t n) {
    std::unique_lock<std::mutex> lock(mutex_);
    if (end_) return;
    while (n) {
      while (free_ == 0 && !end_) can_write_.wait(lock);
      if (end_) return;
      size_t k = std::min(n, free_);
      for (size_t i = 0; i < k; ++i) Put(std::move(elements[i]));
      elements += k;
      n -= k;
      can_read_.notify_all();
    }
  }
  bool read(value_type& dest) {
    std::unique_lock<std::mutex> lock(mutex_);
    while (Used() == 0 && !end_) can_read_.wait(lock);
    if (Used() == 0) return false;
    dest = Get();
    can_write_.notify_all();
    return true;
  }
  size_t read(value_type* dest, size_t n) {
    std::unique_lock<std::mutex> lock(mutex_);
    size_t got = 0;
    for (;;) {
      const size_t k = std::min(n - got, Used());
      for (size_t i = 0; i < k; ++i) *dest++ = Get();
      got += k;
      if (k) can_write_.notify_all();
      if (got == n || (end_ && Used() == 0)) return got;
      while (Used() == 0 && !end_) can_read_.wait(lock);
    }
  }
  size_t discard(size_t n) {
    std::vector<value_type> v(n);
    return read(v.data(), n);
  }
  void write_end() {
    std::lock_guard<std::mutex> lock(mutex_);
    end_ = true;
    can_read_.notify_all();
    can_write_.notify_all();
  }
  void wait_for_empty() {
    std::unique_lock<std::mutex> lock(mutex_);
    while (Used() != 0) can_write_.wait(lock);
  }
  size_t capacity() const noexcept { return capacity_; }
  size_t size() const {
    std::lock_guard<std::mutex> lock(mutex_);
    return Used();
  }
  bool empty() const { return size() == 0; }
  bool is_end() const {
    std::lock_guard<std::mutex> lock(mutex_);
    return end_;
  }
  bool is_end_and_empty() const {
    std::lock_guard<std::mutex> lock(mutex_);
    return end_ && Used() == 0;
  }
  void resize(size_t n) {
    delete[] buffer_;
    buffer_ = new Tp[n];
    capacity_ = n;
    wpos_ = 0;
    free_ = n;
    end_ = false;
  }

 private:
  size_t Used() const { return capacity_ - free_; }
  template <class U>
  void Put(U&& u) {
    buffer_[wpos_] = std::forward<U>(u);
    wpos_ = (wpos_ + 1) % capacity_;
    --free_;
  }
  Tp Get() {
    const size_t rpos = (wpos_ + free_) % capacity_;
    ++free_;
    return std::move(buffer_[rpos]);
  }

  Tp* buffer_ = nullptr;
  size_t capacity_ = 0;
  size_t wpos_ = 0;
  size_t free_ = 0;
  bool end_ = false;
  mutable std::mutex mutex_;
  std::condition_variable can_write_, can_read_;
};

}  // namespace aocommon
#endif
