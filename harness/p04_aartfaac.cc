// P04: reading AARTFAAC correlation files under storage faults.
#include "aartfaac/PacketHeader.h"
#include "aartfaac/File.h"

#include "sim.h"
#include "simio.h"

#include <fstream>
#include <memory>

using dp3::aartfaac::File;
using dp3::aartfaac::PacketHeader;
using dp3::aartfaac::Timestep;
const char* const kProperty = "P04";

namespace {
enum Kind { kOpen = 1, kOpenNoMode, kRead, kMeta, kSeek, kSkip, kReadAll, kKinds };
const char* const kNames[] = {"", "open", "openWithoutMode", "read", "readMetadata", "seek", "skip",
                              "readAllFromHere"};
constexpr double kMjd = (2440587.5 - 2400000.5) * 86400.0;

struct Block {
  double start, end;
  std::vector<std::complex<float>> vis;
};

uint64_t Hard() {
  return sim::FaultsFired(sim::kOpenFail) + sim::FaultsFired(sim::kReadError) +
         sim::FaultsFired(sim::kSeekError);
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return std::string(o.kind > 0 && o.kind < kKinds ? kNames[o.kind] : "?") + "(" +
         std::to_string(o.Arg(0)) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  plan.knobs["receivers"] = rng.In(1, 6);
  plan.knobs["channels"] = rng.In(1, 5);
  plan.knobs["pols"] = rng.Chance(0.7) ? 4 : rng.In(1, 4);
  if (rng.Chance(0.1)) {  // sizes that do not fit in eight bits
    const bool many = rng.Chance(0.5);
    plan.knobs["receivers"] = many ? rng.In(20, 40) : rng.In(1, 2);
    plan.knobs["channels"] = many ? 1 : rng.In(250, 600);
  }
  plan.knobs["blocks"] = rng.Chance(0.2) ? rng.In(0, 1) : rng.In(1, 12);
  // Trailing partial block: bytes, as a fraction of a block in 1/1000.
  plan.knobs["tail"] = rng.Chance(0.5) ? rng.In(1, 999) : 0;
  plan.knobs["tail_bytes"] = rng.Chance(0.3) ? rng.In(1, 8) : 0;
  plan.knobs["magic"] = rng.Chance(0.9) ? 0 : static_cast<int64_t>(rng.In(1, 3));
  plan.knobs["mode"] = rng.Chance(0.92) ? 15 : static_cast<int64_t>(rng.Below(256));
  plan.knobs["missing"] = rng.Chance(0.03);
  plan.knobs["data"] = static_cast<int64_t>(rng.Below(1 << 30));
  if (rng.Chance(0.7)) {
    auto rate = [&](const char* n, double p, int lo, int hi) {
      if (rng.Chance(p)) plan.knobs[std::string("rate_") + n] = rng.In(lo, hi);
    };
    rate("open_fail", 0.15, 500, 5000);
    rate("read_short", 0.6, 1000, 9500);
    rate("read_eintr", 0.6, 500, 5000);
    rate("read_error", 0.4, 50, 2000);
    rate("seek_error", 0.3, 50, 2000);
    plan.knobs["max_faults"] = rng.Chance(0.3) ? 1 : 300;
  }
  plan.Add(rng.Chance(0.7) ? kOpen : kOpenNoMode, {rng.In(1, 7)});
  const int n = static_cast<int>(rng.In(1, 25));
  for (int i = 0; i < n; ++i) {
    const int64_t k = rng.Below(12);
    if (k < 5) plan.Add(kRead);
    else if (k < 7) plan.Add(kMeta);
    else if (k < 9) plan.Add(kSeek, {static_cast<int64_t>(rng.Below(14))});
    else if (k < 10) plan.Add(kSkip, {rng.In(0, 4)});
    else if (k < 11) plan.Add(kReadAll);
    else plan.Add(rng.Chance(0.5) ? kOpen : kOpenNoMode, {rng.In(1, 7)});
  }
}

void Execute(const sim::Plan& plan) {
  const char* name = "obs.vis";
  const int receivers = static_cast<int>(plan.Knob("receivers", 2));
  const int channels = static_cast<int>(plan.Knob("channels", 1));
  const int pols = static_cast<int>(plan.Knob("pols", 4));
  const int n_blocks = static_cast<int>(plan.Knob("blocks", 1));
  const size_t n_vis = static_cast<size_t>(receivers) * (receivers + 1) / 2 * channels * pols;
  const bool bad_magic = plan.Knob("magic") != 0;
  const bool bad_mode = plan.Knob("mode", 15) != 15;
  std::vector<Block> blocks;
  size_t header_bytes = 0;
  {
    sim::Quiet q;
    sim::Rng r(plan.Knob("data"));
    std::ofstream f(name, std::ios::binary);
    auto put = [&](int i, double fraction, size_t extra) {
      PacketHeader h;
      h.nr_receivers = static_cast<uint16_t>(receivers);
      h.nr_channels = static_cast<uint16_t>(channels);
      h.nr_polarizations = static_cast<uint8_t>(pols);
      h.correlation_mode = static_cast<uint8_t>(plan.Knob("mode", 15));
      h.start_time = 1.5e9 + i * 1.25;
      h.end_time = 1.5e9 + (i + 1) * 1.25;
      h.first_channel_frequency = 6.0e7;
      h.channel_bandwidth = 3051.7578125;
      if (plan.Knob("magic") == 1) h.magic ^= 1;
      if (plan.Knob("magic") == 2) h.magic = 0;
      if (plan.Knob("magic") == 3) h.magic = 0x3098F03B;
      Block b;
      b.start = h.start_time;
      b.end = h.end_time;
      for (size_t k = 0; k < n_vis; ++k)
        b.vis.emplace_back(static_cast<float>(i * 1000 + k), static_cast<float>(r.Below(100000)));
      std::string bytes(reinterpret_cast<char*>(&h), sizeof h);
      bytes.append(reinterpret_cast<char*>(b.vis.data()), n_vis * sizeof(b.vis[0]));
      header_bytes = bytes.size();
      if (fraction >= 1) {
        f.write(bytes.data(), bytes.size());
        blocks.push_back(b);
      } else {
        size_t n = extra ? bytes.size() - std::min(bytes.size(), extra)
                         : static_cast<size_t>(bytes.size() * fraction);
        f.write(bytes.data(), n);
      }
    };
    if (!plan.Knob("missing")) {
      for (int i = 0; i < n_blocks; ++i) put(i, 1.0, 0);
      if (plan.Knob("tail")) put(n_blocks, plan.Knob("tail") / 1000.0, plan.Knob("tail_bytes"));
      if (plan.Knob("tail")) sim::Probe("truncated last time step");
    }
    f.close();
    if (plan.Knob("missing")) ::remove(name);
  }
  const size_t tail_size = [&] {
    std::ifstream f(name, std::ios::binary | std::ios::ate);
    return f ? static_cast<size_t>(f.tellg()) : 0;
  }();
  const bool has_header = !plan.Knob("missing") && tail_size >= sizeof(PacketHeader);
  // What is valid depends on the first header.
  const bool valid = has_header && !bad_magic && !bad_mode;

  std::unique_ptr<File> file;
  size_t pos = 0;      // expected position
  bool broken = false;  // an error was reported: only further errors or right data are allowed
  std::vector<std::complex<float>> buffer(n_vis + 2);
  auto compare = [&](size_t at, const Timestep& t, bool data, const char* what) {
    sim::Quiet q;
    if (at >= blocks.size())
      sim::Fail("phantom-block", std::string(what) + " delivered a time step that is not in the file");
    const Block& b = blocks[at];
    if (t.startTime != b.start + kMjd || t.endTime != b.end + kMjd)
      sim::Fail("wrong-time", std::string(what) + " gave the times of another time step (wanted " +
                                  std::to_string(at) + ")");
    sim::EventDouble(t.startTime);
    if (!data) return;
    for (size_t k = 0; k < n_vis; ++k)
      if (buffer[1 + k] != b.vis[k])
        sim::Fail("wrong-data", std::string(what) + " gave visibilities that are not those of time step " +
                                    std::to_string(at));
    if (buffer[0] != std::complex<float>(-9, -9) || buffer[n_vis + 1] != std::complex<float>(-9, -9))
      sim::Fail("overrun", "visibilities written outside the buffer");
  };
  for (const sim::Op& o : plan.ops) {
    const uint64_t hard = Hard();
    bool threw = false;
    std::fill(buffer.begin(), buffer.end(), std::complex<float>(-9, -9));
    if (o.kind == kOpen || o.kind == kOpenNoMode) {
      file.reset();
      sim::EnableFaults(true);
      try {
        if (o.kind == kOpen)
          file = std::make_unique<File>(name, dp3::base::RcuMode::FromNumber(static_cast<int>(o.Arg(0, 1))));
        else
          file = std::make_unique<File>(name);
      } catch (const std::exception&) {
        threw = true;
      }
      sim::EnableFaults(false);
      const bool faulted = Hard() != hard;
      if (!threw && !valid)
        sim::Fail("invalid-accepted",
                  bad_magic && has_header  ? "a file without the AARTFAAC magic number was accepted"
                  : bad_mode && has_header ? "a file with an unsupported correlation mode was accepted"
                                           : "a missing or header-less file was accepted");
      if (threw && valid && !faulted)
        sim::Fail("spurious-error", "opening a valid file failed without an unrecoverable fault");
      if (threw) {
        sim::Probe(valid ? "open failure reported" : "invalid file refused");
        file.reset();
        continue;
      }
      broken = faulted;
      pos = 0;
      sim::Quiet q;
      // The length is taken when the file is opened; a fault there must not
      // make up time steps.
      if (file->NTimesteps() != blocks.size())
        sim::Fail("count", "the file holds " + std::to_string(blocks.size()) + " complete time steps, " +
                               std::to_string(file->NTimesteps()) + " reported");
      if (file->VisPerTimestep() != n_vis || file->NChannels() != static_cast<size_t>(channels) ||
          file->NAntennas() != static_cast<size_t>(receivers) ||
          file->NPolarizations() != static_cast<size_t>(pols) || file->Frequency() != 6.0e7 ||
          file->IntegrationTime() != 1.25 || file->StartTime() != 1.5e9 + kMjd ||
          file->CorrelationMode() != 15)
        sim::Fail("metadata", "the reported properties of the file differ from its header");
      continue;
    }
    if (!file) continue;
    auto read_one = [&](const char* what) {
      const uint64_t before = Hard();
      threw = false;
      Timestep t{};
      std::fill(buffer.begin(), buffer.end(), std::complex<float>(-9, -9));
      if (file->HasMore() != (pos < blocks.size()))
        sim::Fail("has-more", "HasMore does not tell whether a complete time step follows");
      sim::EnableFaults(true);
      try {
        t = file->ReadTimestep(buffer.data() + 1);
      } catch (const std::exception&) {
        threw = true;
      }
      sim::EnableFaults(false);
      broken |= Hard() != before;
      if (threw) {
        if (pos < blocks.size() && !broken)
          sim::Fail("spurious-error", "reading an existing time step failed without an unrecoverable fault");
        sim::Probe("read failure reported");
        file.reset();
        return false;
      }
      compare(pos, t, true, what);
      ++pos;
      if (file->BlockPos() != pos) sim::Fail("position", "the reported position is wrong after a read");
      sim::Probe("time step delivered");
      return true;
    };
    switch (o.kind) {
      case kRead:
        read_one("a read");
        break;
      case kReadAll: {
        size_t n = 0;
        while (file && file->HasMore()) {
          if (!read_one("reading to the end")) break;
          if (++n > blocks.size() + 2) sim::Fail("endless", "the end of the file is never reached");
        }
        if (file && pos < blocks.size())
          sim::Fail("early-end", "the end was reported before the last complete time step");
        break;
      }
      case kMeta: {
        Timestep t{};
        sim::EnableFaults(true);
        try {
          t = file->ReadMetadata();
        } catch (const std::exception&) {
          threw = true;
        }
        sim::EnableFaults(false);
        broken |= Hard() != hard;
        if (threw) {
          if (pos < blocks.size() && !broken)
            sim::Fail("spurious-error", "reading existing metadata failed without an unrecoverable fault");
          file.reset();
          break;
        }
        // The header of the truncated last time step may be readable.
        if (pos < blocks.size()) compare(pos, t, false, "reading metadata");
        if (file->BlockPos() != pos) sim::Fail("position", "reading metadata moved the position");
        break;
      }
      case kSeek:
      case kSkip: {
        sim::EnableFaults(true);
        if (o.kind == kSeek)
          file->SeekToTimestep(static_cast<size_t>(o.Arg(0)));
        else
          file->SkipTimesteps(static_cast<int>(o.Arg(0)));
        sim::EnableFaults(false);
        broken |= Hard() != hard;
        pos = o.kind == kSeek ? static_cast<size_t>(o.Arg(0)) : pos + static_cast<size_t>(o.Arg(0));
        if (pos > blocks.size()) sim::Probe("positioned beyond the end");
        break;
      }
    }
  }
}
