// Stand-in for schaapcommon's thread pool and parallel loops. The worker
// threads are real std::threads, so that the simulator schedules them.
#ifndef SCHAAPCOMMON_THREADPOOL_H
#define SCHAAPCOMMON_THREADPOOL_H
#include <algorithm>
#include <condition_variable>
#include <cstddef>
#include <exception>
#include <functional>
#include <filesystem>
#include "aocommon/system.h"
#include <mutex>
#include <thread>
#include <vector>

namespace schaapcommon {

class ThreadPool {
 public:
  static ThreadPool& GetInstance() {
    static ThreadPool instance;
    return instance;
  }
  /// The threads of RecursiveFor.
  static ThreadPool& Helpers() {
    static ThreadPool instance;
    return instance;
  }
  ~ThreadPool() { Stop(); }
  std::size_t NThreads() const { return n_threads_; }
  void SetNThreads(std::size_t n) {
    if (n == 0) n = 1;
    if (n == n_threads_) return;
    Stop();
    n_threads_ = n;
  }
  void Stop() {
    if (workers_.empty()) return;
    {
      std::lock_guard<std::mutex> lock(mutex_);
      stop_ = true;
    }
    start_.notify_all();
    for (std::thread& t : workers_) t.join();
    workers_.clear();
    stop_ = false;
  }
  /// Runs f(i) for i in [0, NThreads()), one of them in the calling thread.
  void ExecuteInParallel(std::function<void(std::size_t)> f) {
    if (n_threads_ == 1) {
      f(0);
      return;
    }
    Launch(f, n_threads_ - 1);
    std::exception_ptr own;
    try {
      f(n_threads_ - 1);
    } catch (...) {
      own = std::current_exception();
    }
    Wait();
    Rethrow(own);
  }
  /// Starts f(i) for i in [0, NThreads()) in the background.
  void StartParallelExecution(std::function<void(std::size_t)> f) { Launch(std::move(f), n_threads_); }
  void FinishParallelExecution() {
    Wait();
    Rethrow(nullptr);
  }

 private:
  void Launch(std::function<void(std::size_t)> f, std::size_t n) {
    while (workers_.size() < n) {
      const std::size_t index = workers_.size();
      workers_.emplace_back([this, index, seen = generation_] { Work(index, seen); });
    }
    {
      std::lock_guard<std::mutex> lock(mutex_);
      function_ = std::move(f);
      error_ = nullptr;
      active_ = n;
      busy_ = n;
      ++generation_;
    }
    start_.notify_all();
  }
  void Wait() {
    std::unique_lock<std::mutex> lock(mutex_);
    while (busy_ != 0) done_.wait(lock);
    function_ = nullptr;
  }
  void Rethrow(std::exception_ptr own) {
    if (own) std::rethrow_exception(own);
    std::exception_ptr e;
    {
      std::lock_guard<std::mutex> lock(mutex_);
      std::swap(e, error_);
    }
    if (e) std::rethrow_exception(e);
  }
  void Work(std::size_t index, std::size_t seen) {
    std::unique_lock<std::mutex> lock(mutex_);
    for (;;) {
      while (!stop_ && (generation_ == seen || index >= active_)) {
        if (generation_ != seen && index >= active_) seen = generation_;
        start_.wait(lock);
      }
      if (stop_) return;
      seen = generation_;
      // Unchanged until all threads are done. A copy could run out of memory.
      std::function<void(std::size_t)>& f = function_;
      lock.unlock();
      std::exception_ptr e;
      try {
        f(index);
      } catch (...) {
        e = std::current_exception();
      }
      lock.lock();
      if (e && !error_) error_ = e;
      if (--busy_ == 0) done_.notify_all();
    }
  }

  std::mutex mutex_;
  std::condition_variable start_, done_;
  std::vector<std::thread> workers_;
  std::function<void(std::size_t)> function_;
  std::exception_ptr error_;
  std::size_t n_threads_ = 1, active_ = 0, busy_ = 0, generation_ = 0;
  bool stop_ = false;
};

namespace detail {
template <class I, class F>
void CallRange(F& f, I a, I b, std::size_t thread) {
  if constexpr (std::is_invocable_v<F&, I, I, std::size_t>)
    f(a, b, thread);
  else
    f(a, b);
}
template <class I, class F>
void CallOne(F& f, I i, std::size_t thread) {
  if constexpr (std::is_invocable_v<F&, I, std::size_t>)
    f(i, thread);
  else
    f(i);
}
/// Runs f(i) for i in [0, n) in the current RecursiveFor, if there is one.
inline bool RunNested(std::size_t n, const std::function<void(std::size_t)>& f);
}  // namespace detail

/// Divides [start, end) in at most max_chunks contiguous chunks.
template <class I, class F>
void RunConstrainedStaticFor(I start, I end, std::size_t max_chunks, F f) {
  ThreadPool& pool = ThreadPool::GetInstance();
  if (end <= start) return;
  const std::size_t n = static_cast<std::size_t>(end - start);
  const std::size_t chunks = std::min({n, max_chunks, pool.NThreads()});
  if (chunks <= 1) {
    detail::CallRange<I>(f, start, end, 0);
    return;
  }
  auto chunk = [&](std::size_t i) {
    detail::CallRange<I>(f, static_cast<I>(start + n * i / chunks), static_cast<I>(start + n * (i + 1) / chunks), i);
  };
  // Inside a RecursiveFor, its threads do the work.
  if (detail::RunNested(chunks, chunk)) return;
  pool.ExecuteInParallel([&](std::size_t thread) {
    if (thread < chunks) chunk(thread);
  });
}
template <class I, class F>
void RunStaticFor(I start, I end, F f) {
  RunConstrainedStaticFor<I>(start, end, ThreadPool::GetInstance().NThreads(), std::move(f));
}

template <class I>
class StaticFor {
 public:
  template <class F>
  void Run(I start, I end, F f) {
    RunStaticFor<I>(start, end, std::move(f));
  }
  template <class F>
  void ConstrainedRun(I start, I end, std::size_t max_chunks, F f) {
    RunConstrainedStaticFor<I>(start, end, max_chunks, std::move(f));
  }
};

template <class I>
class DynamicFor {
 public:
  template <class F>
  void Run(I start, I end, F f) {
    ThreadPool& pool = ThreadPool::GetInstance();
    if (end <= start) return;
    if (pool.NThreads() == 1 || end - start == 1) {
      for (I i = start; i < end; ++i) detail::CallOne<I>(f, i, 0);
      return;
    }
    std::mutex mutex;
    I next = start;
    pool.ExecuteInParallel([&](std::size_t thread) {
      for (;;) {
        I i;
        {
          std::lock_guard<std::mutex> lock(mutex);
          if (!(next < end)) return;
          i = next++;
        }
        detail::CallOne<I>(f, i, thread);
      }
    });
  }
};

/// Loops that can be nested. The outermost object owns the threads; an inner
/// loop is executed by its caller together with threads that are idle.
class RecursiveFor {
 public:
  RecursiveFor() {
    parent_ = Current();
    if (!parent_) {
      const std::size_t n = ThreadPool::GetInstance().NThreads();
      if (n > 1) {
        ThreadPool::Helpers().SetNThreads(n - 1);
        ThreadPool::Helpers().StartParallelExecution([this](std::size_t i) { Help(i + 1); });
        has_helpers_ = true;
      }
    }
    Current() = this;
  }
  RecursiveFor(const RecursiveFor&) = delete;
  RecursiveFor& operator=(const RecursiveFor&) = delete;
  ~RecursiveFor() {
    if (has_helpers_) {
      {
        std::lock_guard<std::mutex> lock(mutex_);
        stop_ = true;
      }
      changed_.notify_all();
      ThreadPool::Helpers().FinishParallelExecution();
    }
    Current() = parent_;
  }
  template <class F>
  void Run(std::size_t start, std::size_t end, F f) {
    Root()->RunLoop(start, end, std::move(f));
  }
  /// Divides [start, end) in at most max_chunks chunks; f gets the chunk number.
  template <class F>
  void ConstrainedRun(std::size_t start, std::size_t end, std::size_t max_chunks, F f) {
    if (end <= start) return;
    const std::size_t n = end - start, chunks = std::max<std::size_t>(1, std::min(n, max_chunks));
    Root()->RunLoop(0, chunks, [&](std::size_t i) {
      detail::CallRange<std::size_t>(f, start + n * i / chunks, start + n * (i + 1) / chunks, i);
    });
  }
  static RecursiveFor* GetInstance() { return Current(); }
  /// Runs in the current RecursiveFor if there is one.
  template <class F>
  static void NestedRun(std::size_t start, std::size_t end, F f) {
    if (RecursiveFor* c = Current()) {
      c->Root()->RunLoop(start, end, std::move(f));
    } else {
      RecursiveFor r;
      r.Run(start, end, std::move(f));
    }
  }

 private:
  struct Loop {
    std::function<void(std::size_t, std::size_t)> f;
    std::size_t next, end, running = 0;
    std::exception_ptr error;
  };
  static RecursiveFor*& Current() {
    static RecursiveFor* current = nullptr;
    return current;
  }
  static std::size_t& ThreadIndex() {
    thread_local std::size_t index = 0;
    return index;
  }
  RecursiveFor* Root() { return parent_ ? parent_->Root() : this; }
  template <class F>
  void RunLoop(std::size_t start, std::size_t end, F f) {
    if (end <= start) return;
    if (!has_helpers_) {
      for (std::size_t i = start; i < end; ++i) detail::CallOne<std::size_t>(f, i, 0);
      return;
    }
    Loop loop;
    loop.f = [&f](std::size_t i, std::size_t t) { detail::CallOne<std::size_t>(f, i, t); };
    loop.next = start;
    loop.end = end;
    std::unique_lock<std::mutex> lock(mutex_);
    loops_.push_back(&loop);
    changed_.notify_all();
    while (loop.next < loop.end) Step(lock, loop, ThreadIndex());
    for (std::size_t i = 0; i < loops_.size(); ++i)
      if (loops_[i] == &loop) loops_.erase(loops_.begin() + static_cast<std::ptrdiff_t>(i--));
    while (loop.running != 0) changed_.wait(lock);
    lock.unlock();
    if (loop.error) std::rethrow_exception(loop.error);
  }
  void Step(std::unique_lock<std::mutex>& lock, Loop& loop, std::size_t thread) {
    const std::size_t i = loop.next++;
    ++loop.running;
    lock.unlock();
    std::exception_ptr e;
    try {
      loop.f(i, thread);
    } catch (...) {
      e = std::current_exception();
    }
    lock.lock();
    if (e) {
      if (!loop.error) loop.error = e;
      loop.next = loop.end;
    }
    if (--loop.running == 0) changed_.notify_all();
  }
  void Help(std::size_t index) {
    ThreadIndex() = index;
    std::unique_lock<std::mutex> lock(mutex_);
    for (;;) {
      Loop* work = nullptr;
      for (std::size_t i = loops_.size(); i-- > 0 && !work;)
        if (loops_[i]->next < loops_[i]->end) work = loops_[i];
      if (work) {
        Step(lock, *work, index);
      } else {
        if (stop_) return;
        changed_.wait(lock);
      }
    }
  }
  RecursiveFor* parent_ = nullptr;
  bool has_helpers_ = false;
  std::mutex mutex_;
  std::condition_variable changed_;
  std::vector<Loop*> loops_;
  bool stop_ = false;
};

namespace detail {
inline bool RunNested(std::size_t n, const std::function<void(std::size_t)>& f) {
  RecursiveFor* r = RecursiveFor::GetInstance();
  if (!r) return false;
  r->Run(0, n, [&](std::size_t i) { f(i); });
  return true;
}
}  // namespace detail

}  // namespace schaapcommon
#endif
