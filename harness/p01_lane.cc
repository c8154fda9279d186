// P01: buffered producer/consumer hand-off between threads.
#include "common/buffered_lane.h"

#include "sim.h"

#include <thread>

const char* const kProperty = "P01";

namespace {
struct Item {
  int writer;
  int seq;
  double payload;
};

enum { kWriter = 1, kReader, kUnused };
// kWriter args: buffer size, number of items, pattern seed, end style
// kReader args: buffer size, extra yields
}  // namespace

std::string Describe(const sim::Op& op) {
  switch (op.kind) {
    case kWriter:
      return "writer(buffer=" + std::to_string(op.Arg(0)) +
             ", items=" + std::to_string(op.Arg(1)) +
             ", pattern=" + std::to_string(op.Arg(2)) + ")";
    case kReader:
      return "reader(buffer=" + std::to_string(op.Arg(0)) + ")";
    default:
      return "unused write buffer";
  }
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  plan.knobs["capacity"] = rng.In(1, 12);
  plan.knobs["rate_spurious_wakeup"] = rng.Chance(0.5) ? rng.In(100, 2000) : 0;
  // Handshake: the writer waits until flushed items were consumed.
  plan.knobs["handshake"] = rng.Chance(0.25);
  plan.knobs["end_by_writer"] = rng.Chance(0.5);
  plan.knobs["max_steps"] = 3000000;
  const bool hs = plan.knobs["handshake"];
  const int nw = hs ? 1 : static_cast<int>(rng.In(1, 4));
  const int nr = hs ? 1 : static_cast<int>(rng.In(1, 4));
  for (int i = 0; i < nw; ++i)
    plan.Add(kWriter, {rng.In(1, 9), rng.In(0, 40),
                       static_cast<int64_t>(rng.Below(1 << 20))});
  for (int i = 0; i < nr; ++i) plan.Add(kReader, {hs ? 1 : rng.In(1, 9)});
  if (rng.Chance(0.3)) plan.Add(kUnused, {rng.In(0, 1)});
}

void Execute(const sim::Plan& plan) {
  using dp3::common::lane_read_buffer;
  using dp3::common::lane_write_buffer;
  const bool handshake = plan.Knob("handshake");
  aocommon::Lane<Item> lane(
      static_cast<size_t>(std::max<int64_t>(1, plan.Knob("capacity", 1))));
  std::vector<const sim::Op*> writers, readers;
  int unused = 0;
  for (const auto& op : plan.ops) {
    if (op.kind == kWriter) writers.push_back(&op);
    if (op.kind == kReader) readers.push_back(&op);
    if (op.kind == kUnused) unused = 1 + static_cast<int>(op.Arg(0));
  }
  if (readers.empty()) return;
  std::vector<std::vector<Item>> seen(readers.size());
  std::vector<int> written(writers.size(), 0);
  bool all_written = false;  // set (quietly) before the end is announced
  std::mutex ack_mutex;
  std::condition_variable ack_cv;
  int acked = 0;

  auto write = [&](int w, bool last) {
    const sim::Op& op = *writers[w];
    const size_t size = static_cast<size_t>(std::max<int64_t>(1, op.Arg(0)));
    sim::Rng rng(op.Arg(2) + 77);
    lane_write_buffer<Item> late;
    const bool use_reset = rng.Chance(0.4);
    lane_write_buffer<Item> direct(&lane, size);
    if (use_reset) late.reset(&lane, size);
    lane_write_buffer<Item>& buf = use_reset ? late : direct;
    for (int i = 0; i < op.Arg(1); ++i) {
      const Item item{w, i, w * 1000.0 + i};
      switch (rng.Below(3)) {
        case 0:
          buf.write(item);
          break;
        case 1: {
          Item tmp = item;
          buf.write(std::move(tmp));
          break;
        }
        default:
          buf.emplace(item);
          break;
      }
      {
        sim::Quiet q;
        written[w] = i + 1;
      }
      if (handshake && rng.Chance(0.4)) {
        // A write end holds back less than one buffer of items.
        const int held = static_cast<int>(size) - 1;
        std::unique_lock<std::mutex> lock(ack_mutex);
        while (acked < i + 1 - held) ack_cv.wait(lock);
        sim::Probe("full buffer handed on");
      }
      if (rng.Chance(0.1) || (handshake && rng.Chance(0.3))) {
        buf.flush();
        sim::Probe("explicit flush");
        if (handshake) {
          // Liveness: flushed items reach the reader without further writes.
          std::unique_lock<std::mutex> lock(ack_mutex);
          while (acked < i + 1) ack_cv.wait(lock);
          sim::Probe("handshake completed");
        }
      }
    }
    if (last) {
      {
        sim::Quiet q;
        all_written = true;
      }
      buf.write_end();
    }
  };

  auto read = [&](int r) {
    const size_t size =
        static_cast<size_t>(std::max<int64_t>(1, readers[r]->Arg(0)));
    lane_read_buffer<Item> buf(&lane, size);
    Item item{-1, -1, -1};
    while (buf.read(item)) {
      {
        sim::Quiet q;
        seen[r].push_back(item);
        sim::Event((item.writer << 16) ^ item.seq ^ (uint64_t(r) << 40));
      }
      if (handshake) {
        std::lock_guard<std::mutex> lock(ack_mutex);
        ++acked;
        ack_cv.notify_all();
      }
    }
    {
      sim::Quiet q;
      if (!all_written)
        sim::Fail("early-end", "a consumer saw the end of the stream before "
                               "the producers had finished");
    }
    // The end is stable.
    if (buf.read(item))
      sim::Fail("item-after-end", "an item was delivered after the end");
  };

  if (unused) {
    lane_write_buffer<Item> never_used;
    if (unused == 2) {
      lane_write_buffer<Item> empty(&lane, 4);
      empty.flush();
    }
    sim::Probe("unused write buffer destroyed");
  }

  std::vector<std::thread> rt, wtv;
  for (size_t r = 0; r < readers.size(); ++r)
    rt.emplace_back(read, static_cast<int>(r));
  const bool end_by_writer = plan.Knob("end_by_writer") && !writers.empty();
  for (size_t w = 0; w + (end_by_writer ? 1 : 0) < writers.size(); ++w)
    wtv.emplace_back(write, static_cast<int>(w), false);
  if (end_by_writer) {
    // The last writer ends the stream once the others are done.
    for (auto& t : wtv) t.join();
    write(static_cast<int>(writers.size()) - 1, true);
  } else {
    for (auto& t : wtv) t.join();
    {
      sim::Quiet q;
      all_written = true;
    }
    lane.write_end();
  }
  for (auto& t : rt) t.join();

  sim::Quiet q;
  std::vector<std::vector<int>> count(writers.size());
  for (size_t w = 0; w < writers.size(); ++w)
    count[w].assign(written[w], 0);
  for (size_t r = 0; r < readers.size(); ++r) {
    std::vector<int> last(writers.size(), -1);
    for (const Item& i : seen[r]) {
      if (i.writer < 0 || i.writer >= static_cast<int>(writers.size()) ||
          i.seq < 0 || i.seq >= written[i.writer] ||
          i.payload != i.writer * 1000.0 + i.seq)
        sim::Fail("corrupt-item", "an item was delivered that nobody wrote");
      ++count[i.writer][i.seq];
      if (i.seq <= last[i.writer])
        sim::Fail("order", "items of one producer delivered out of order");
      last[i.writer] = i.seq;
    }
  }
  for (size_t w = 0; w < writers.size(); ++w)
    for (int i = 0; i < written[w]; ++i) {
      if (count[w][i] == 0)
        sim::Fail("lost-item", "item " + std::to_string(i) + " of producer " +
                                   std::to_string(w) + " was never delivered");
      if (count[w][i] > 1)
        sim::Fail("duplicate-item", "an item was delivered twice");
    }
  if (lane.size() != 0) sim::Fail("left-over", "items left behind in the lane");
}
