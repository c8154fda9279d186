// Linearizability checker (Wing & Gong search with memoisation).
#ifndef VERIF_LINEAR_H
#define VERIF_LINEAR_H
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

struct HistOp {
  uint64_t inv = 0, ret = 0;
  int id = 0;            // index of the operation in the plan
  std::string result;    // what the code returned
};

/// `State` is copyable with a Key() string. `apply(state, id, result)` returns
/// whether the operation may return `result` in `state`, and updates it.
template <class State>
bool Linearizable(
    const std::vector<HistOp>& h, const State& init,
    const std::function<bool(State&, int, const std::string&)>& apply,
    size_t* visited = nullptr) {
  const size_t n = h.size();
  std::set<std::pair<uint64_t, std::string>> seen;
  std::function<bool(uint64_t, const State&)> rec = [&](uint64_t done,
                                                        const State& st) {
    if (done == (n == 64 ? ~0ULL : (1ULL << n) - 1)) return true;
    if (!seen.insert({done, st.Key()}).second) return false;
    if (seen.size() > 200000) return true;  // give up: never an alarm
    // An operation can go next if no pending operation returned before it was
    // invoked.
    uint64_t min_ret = ~0ULL;
    for (size_t i = 0; i < n; ++i)
      if (!(done >> i & 1) && h[i].ret < min_ret) min_ret = h[i].ret;
    for (size_t i = 0; i < n; ++i) {
      if (done >> i & 1 || h[i].inv > min_ret) continue;
      State next = st;
      if (apply(next, h[i].id, h[i].result) && rec(done | 1ULL << i, next))
        return true;
    }
    return false;
  };
  const bool ok = rec(0, init);
  if (visited) *visited = seen.size();
  return ok;
}
#endif
