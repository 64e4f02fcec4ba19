// Choice tape: every random decision of a case is a bounded draw from here.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

// Harness state that every thread of a C19 case has to itself.
#ifdef TSAN
#define TLS thread_local
#else
#define TLS
#endif

struct Fail { // a property violation
  std::string msg;
};

struct Tape {
  enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
  uint64_t s[2] = {1, 2};
  const uint64_t *in = nullptr; // REPLAY
  size_t in_n = 0;
  const uint8_t *by = nullptr; // BYTES
  size_t by_n = 0;
  size_t pos = 0;
  // recording buffer (may live in shared memory so that it survives a crash)
  uint64_t *rec = nullptr;
  volatile uint64_t *rec_n = nullptr;
  size_t rec_cap = 0;
  std::vector<uint64_t> *also = nullptr; // second recording (C15 replays)
  uint64_t hash = 1469598103934665603ull;
  size_t ndraw = 0;

  static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t a, uint64_t b, uint64_t c) {
    mode = RANDOM;
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b << 32) ^ c * 0xD1B54A32D192ED03ull;
    s[0] = splitmix(x);
    s[1] = splitmix(x);
    pos = 0;
  }
  uint64_t next() { // xoroshiro128+
    uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
    s1 ^= s0;
    s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    s[1] = (s1 << 37) | (s1 >> 27);
    return r;
  }
  uint64_t forced = 0; // which special scenario a random case runs (0: none)
  uint64_t special(uint64_t bound) {
    if (mode == REPLAY)
      return draw(bound);
    uint64_t v = mode == RANDOM ? forced : 0;
    hash = (hash ^ v) * 1099511628211ull;
    if (rec && *rec_n < rec_cap) {
      rec[*rec_n] = v;
      *rec_n = *rec_n + 1;
    }
    return v;
  }
  // uniform in [0, bound); bound 0 means the full 64-bit range
  uint64_t draw(uint64_t bound) {
    uint64_t v = 0;
    if (bound == 1)
      return 0;
    switch (mode) {
    case RANDOM:
      v = next() >> 1;
      v = bound ? (unsigned __int128)next() * bound >> 64 : next();
      break;
    case REPLAY:
      v = pos < in_n ? in[pos] : 0;
      ++pos;
      if (bound && v >= bound)
        v = bound - 1;
      break;
    case BYTES: {
      int n = bound == 0 ? 8 : bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ull << 32) ? 4 : 8;
      for (int i = 0; i < n; ++i) {
        v = v << 8 | (pos < by_n ? by[pos] : 0);
        ++pos;
      }
      if (bound)
        v %= bound;
      break;
    }
    }
    hash = (hash ^ v) * 1099511628211ull;
    hash ^= hash >> 29;
    ++ndraw;
    if (also)
      also->push_back(v);
    if (rec && *rec_n < rec_cap) {
      rec[*rec_n] = v;
      *rec_n = *rec_n + 1;
    }
    return v;
  }
  long long range(long long lo, long long hi) { // inclusive
    return lo + (long long)draw((uint64_t)(hi - lo) + 1);
  }
  bool chance(int pct) { return (int)draw(100) >= 100 - pct; }
  template <class C> const auto &pick(const C &c) { return c[draw(c.size())]; }
  // weighted choice: returns index
  size_t weighted(const std::vector<int> &w) {
    uint64_t tot = 0;
    for (int x : w)
      tot += x;
    uint64_t r = draw(tot ? tot : 1);
    for (size_t i = 0; i < w.size(); ++i) {
      if (r < (uint64_t)w[i])
        return i;
      r -= w[i];
    }
    return w.size() - 1;
  }
};
