// Generators, readout and the stateful engine that drives the real library
// and the model side by side.
#pragma once
#include "model.hpp"
#include "tape.hpp"
#include <cstdio>
#include <set>

using INNC::SignedVec;
using INNC::SizeVec;
using INNC::Tensor;

extern TLS bool g_trace;            // print a readable trace of the case
extern TLS std::string *g_sample;   // or collect it here
extern TLS std::map<std::string, uint64_t> g_labels;
inline void label(const char *l) { ++g_labels[l]; }
void trace_line(const std::string &s);
#define TR(expr)                                                               \
  do {                                                                         \
    if (g_trace || g_sample)                                                   \
      trace_line(expr);                                                        \
  } while (0)

// finite-difference support: perturbs one element of one leaf during a replay
struct Pert {
  int leaf = -1;
  size_t elem = 0;
  double h = 0;
  bool f64_only = false;
  std::vector<std::pair<int, MP>> leaves;
  MP root;
  bool detached = false; // a constant that follows the perturbed data
  size_t trace = 0; // shape of the history: operations and their result sizes
};
extern TLS Pert g_pert;

enum Prof { P_SMALL, P_GRAD, P_WIDE, P_SPECIAL };

inline SizeVec to_sv(const Shape &s) {
  SizeVec v;
  for (auto x : s)
    v.push_back(x);
  return v;
}
inline Shape from_sv(const SizeVec &v) { return Shape(v.begin(), v.end()); }

// ---------------------------------------------------------------- readout --
struct Parsed {
  std::vector<std::string> tok;
};
// Parses nested brackets and demands exactly the given shape.
inline void parse_tensor(const std::string &s, const Shape &shape, Parsed &out,
                         const std::string &what) {
  size_t p = 0;
  auto bad = [&](const char *why) {
    throw Fail{what + ": text does not match shape " + shape_str(shape) + " (" +
               why + "): " + s.substr(0, 300)};
  };
  std::function<void(size_t)> rec = [&](size_t d) {
    if (d == shape.size()) {
      size_t q = p;
      while (q < s.size() && s[q] != ',' && s[q] != ']')
        ++q;
      if (q == p)
        bad("empty element");
      out.tok.push_back(s.substr(p, q - p));
      p = q;
      return;
    }
    if (p >= s.size() || s[p] != '[')
      bad("[ expected");
    ++p;
    for (size_t i = 0; i < shape[d]; ++i) {
      if (i) {
        if (s.compare(p, 2, ", ") != 0)
          bad("separator expected");
        p += 2;
      }
      rec(d + 1);
    }
    if (p >= s.size() || s[p] != ']')
      bad("] expected");
    ++p;
  };
  rec(0);
  if (p != s.size())
    bad("trailing text");
}
inline double tok_val(const std::string &t, const std::string &what) {
  char *e = nullptr;
  double v = strtod(t.c_str(), &e);
  if (e == t.c_str() || *e)
    throw Fail{what + ": unreadable element '" + t + "'"};
  return v;
}
inline bool close_to(double got, double want, double tol) {
  if (std::isnan(want) || std::isnan(got))
    return std::isnan(want) && std::isnan(got);
  if (std::isinf(want) || std::isinf(got))
    return got == want;
  return std::fabs(got - want) <= tol;
}
inline void check_meta(const Tensor &t, const Shape &shape, types dt,
                       const std::string &what) {
  if (from_sv(t.size()) != shape)
    throw Fail{what + ": size is " + t.size().to_string() + ", expected " +
               shape_str(shape)};
  if (t.dim() != shape.size())
    throw Fail{what + ": dim() is wrong"};
  if (t.numel() != numel(shape))
    throw Fail{what + ": numel() is wrong"};
  if (t.type() != dt)
    throw Fail{what + ": type is " + std::string(tname(t.type())) +
               ", expected " + tname(dt)};
}
inline void check_values(const Tensor &t, const MT &m, const std::string &what,
                         bool exact = false) {
  check_meta(t, m.shape, m.dt, what);
  Parsed p;
  std::string s = t.to_string();
  parse_tensor(s, m.shape, p, what);
  for (size_t k = 0; k < m.n(); ++k) {
    const std::string &tok = p.tok[k];
    bool ok;
    if (!isf(m.dt) || exact || m.err == 0) {
      std::string want = num_str(m.dt, m.at(k));
      ok = tok == want;
      if (!ok && isf(m.dt)) { // signs of nan and (unless exact) of zero are free
        double g = tok_val(tok, what);
        ok = std::isnan(m.at(k).d) ? std::isnan(g) : !exact && g == 0 && tok_val(want, what) == 0;
      }
    } else {
      double want = m.at(k).d;
      double rel = m.dt == INNC::f32 ? 3e-7 : 1e-15;
      ok = close_to(tok_val(tok, what), want,
                    2 * m.err + 0.6e-6 + rel * std::fabs(want));
    }
    if (!ok)
      throw Fail{what + ": element " + std::to_string(k) + " of shape " +
                 shape_str(m.shape) + " " + tname(m.dt) + " is " + tok +
                 ", expected " + num_str(m.dt, m.at(k))};
  }
  // six printed decimals do not settle every float: compare the rest with ==
  if (!isf(m.dt) || m.err != 0 || m.n() > 400)
    return;
  bool undecided = false;
  for (size_t k = 0; k < m.n() && !undecided; ++k) {
    double v = m.at(k).d;
    undecided = std::isfinite(v) && std::fabs(v) < 1e10 && v * 64 != std::rint(v * 64);
  }
  if (!undecided)
    return;
  Tensor want;
  if (m.dt == INNC::f32) {
    std::vector<float> v(m.n());
    for (size_t k = 0; k < v.size(); ++k)
      v[k] = (float)m.at(k).d;
    want = Tensor::from_blob(v.data(), to_sv(m.shape), m.dt);
  } else {
    std::vector<double> v(m.n());
    for (size_t k = 0; k < v.size(); ++k)
      v[k] = m.at(k).d;
    want = Tensor::from_blob(v.data(), to_sv(m.shape), m.dt);
  }
  Tensor same = t == want;
  Parsed q;
  parse_tensor(same.to_string(), m.shape, q, what);
  for (size_t k = 0; k < m.n(); ++k)
    if (q.tok[k] != "1" && !std::isnan(m.at(k).d)) {
      char buf[64];
      std::snprintf(buf, sizeof buf, "%.17g", m.at(k).d);
      throw Fail{what + ": element " + std::to_string(k) + " of shape " + shape_str(m.shape) + " " + tname(m.dt) +
                 " prints as " + p.tok[k] + " but is not exactly the expected " + buf};
    }
}
inline void check_grad(const Tensor &t, const MT &m, const std::string &what) {
  Tensor g = t.grad();
  std::string s = g.to_string();
  if (!m.has_grad) {
    if (s != "[]")
      throw Fail{what + ": has a gradient " + s.substr(0, 200) +
                 " but none is expected"};
    return;
  }
  if (m.n() == 0)
    return; // "[]" either way
  if (s == "[]")
    throw Fail{what + ": has no gradient but one is expected"};
  check_meta(g, m.shape, m.dt, what + ".grad");
  if (g.requires_grad())
    throw Fail{what + ": gradient requires grad"};
  Parsed p;
  parse_tensor(s, m.shape, p, what + ".grad");
  for (size_t k = 0; k < m.n(); ++k) {
    if (!std::isfinite(m.grad[k]) || m.gmag[k] > 1e12)
      continue;
    double tol = m.grad_tol(k);
    double got = tok_val(p.tok[k], what);
    if (!close_to(got, m.grad[k], tol))
      throw Fail{what + ".grad: element " + std::to_string(k) + " of shape " +
                 shape_str(m.shape) + " is " + p.tok[k] + ", expected " +
                 std::to_string(m.grad[k])};
  }
  if (!m.all64 || m.dt != INNC::f64 || m.n() > 400)
    return;
  // doubles all the way: read the digits that printing cuts off
  Tensor fine = g * Tensor(4096.0);
  Parsed q;
  parse_tensor(fine.to_string(), m.shape, q, what + ".grad*4096");
  for (size_t k = 0; k < m.n(); ++k) {
    if (!std::isfinite(m.grad[k]) || m.gmag[k] > 1e12)
      continue;
    double got = tok_val(q.tok[k], what) / 4096;
    if (!close_to(got, m.grad[k], 1e-8 + 1e-11 * m.gmag[k])) {
      char buf[96];
      std::snprintf(buf, sizeof buf, "%.17g, expected %.17g", got, m.grad[k]);
      throw Fail{what + ".grad: element " + std::to_string(k) + " of shape " + shape_str(m.shape) + " is " + buf};
    }
  }
}

// ------------------------------------------------------------- generators --
struct Gen {
  Tape &T;
  Gen(Tape &t) : T(t) {}

  int64_t zig(uint64_t bound) { // 0,1,-1,2,-2,...
    int64_t k = (int64_t)T.draw(bound);
    return (k & 1) ? (k + 1) / 2 : -(k / 2);
  }
  types any_type() { return (types)T.draw(6); }
  types float_type() {
    bool f = T.draw(2);
    return f && !g_pert.f64_only ? INNC::f32 : INNC::f64;
  }

  bool extreme = false; // also very large and subnormal floating values
  // per-tensor value style
  struct Style {
    Prof p = P_SMALL;
    int bits = 3, cat = 0;
  };
  Style style(types t, Prof p) {
    Style s;
    s.p = p;
    if (p == P_WIDE || p == P_SPECIAL) {
      if (isf(t))
        s.cat = extreme && T.chance(20) ? 5 + (int)T.draw(2) : (int)T.draw(5);
      else {
        int w = t == INNC::i8 ? 7 : t == INNC::i16 ? 15 : t == INNC::i32 ? 31 : 63;
        const int opts[] = {3, w / 2 - 1, w - 2, w - 1, w};
        s.bits = opts[T.weighted({3, 3, 3, 1, 1})];
        if (s.bits < 2)
          s.bits = 2;
      }
    }
    return s;
  }
  Num num(types t, const Style &s) {
    Num n;
    if (!isf(t)) {
      switch (s.p) {
      case P_SMALL: n.i = zig(19); break;
      case P_GRAD: n.i = (1 + (int64_t)T.draw(3)) * (T.draw(2) ? -1 : 1); break;
      default: {
        uint64_t k = T.draw(8);
        uint64_t lim = 1ull << s.bits; // values in [-lim, lim)
        if (k < 3)
          n.i = zig(7);
        else if (k == 3)
          n.i = (int64_t)(lim - 1 - T.draw(2));
        else if (k == 4)
          n.i = -(int64_t)(lim - 1) - (int64_t)T.draw(2);
        else if (k == 5 && s.bits >= 26) { // next to a rounding tie of f32 or f64
          int mant = s.bits >= 56 && T.draw(2) ? 53 : 24;
          int sh = 1 + (int)T.draw(s.bits - mant - 1);
          uint64_t m = (1ull << (mant - 1)) + T.draw(1ull << (mant - 1));
          n.i = (int64_t)((m << sh) + (1ull << (sh - 1)) + T.draw(3) - 1);
          if (T.draw(2))
            n.i = -n.i;
        } else
          n.i = s.bits == 63 ? (int64_t)T.draw(0)
                             : (int64_t)T.draw(2 * lim) - (int64_t)lim;
      }
      }
      n = with_type(t, [&](auto z) { return mkn((decltype(z))n.i); });
      return n;
    }
    double v = 0;
    switch (s.p) {
    case P_SMALL: v = (double)zig(73) / 4; break;
    case P_GRAD: v = (double)(1 + (int64_t)T.draw(12)) / 4 * (T.draw(2) ? -1 : 1); break;
    default:
      if (s.p == P_SPECIAL && T.chance(15)) {
        const double sp[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 1, -1};
        v = sp[T.draw(7)];
        break;
      }
      switch (s.cat) {
      case 0: v = (double)zig(73) / 4; break;
      case 1: v = (double)zig(2000001) / 1000; break;
      case 2: v = (double)zig(4000000001ull) / 1000; break;
      case 3: v = (double)zig(1ull << 40) * 1.0009765625; break;
      case 5: v = std::ldexp((double)zig(1 << 20), (int)T.draw(t == INNC::f32 ? 200 : 1800) - (t == INNC::f32 ? 100 : 900)); break;
      case 6: v = std::ldexp((double)zig(1 << 20), (t == INNC::f32 ? -149 : -1074) + (int)T.draw(24)); break;
      default: v = std::ldexp((double)zig(1 << 20), (int)T.draw(70) - 30);
      }
    }
    if (t == INNC::f32)
      v = (double)(float)v;
    n.d = v;
    return n;
  }

  size_t cap = 48; // element cap of generated tensors
  size_t bulk = 1;   // factor on the last dimension of every fresh shape
  bool huge = false; // now and then more than 2^15 or 2^16 elements
  Shape shape(size_t maxdim = 6, bool zeros = true) {
    static const std::vector<int> wd = {20, 30, 22, 13, 6, 4, 5};
    size_t d = 1 + T.weighted(wd);
    if (d == 7)
      d = 0;
    d = std::min(d, maxdim);
    if (maxdim == 6 && T.chance(2))
      d = 7 + T.draw(4);
    Shape s;
    size_t n = 1;
    for (size_t i = 0; i < d; ++i) {
      uint64_t k = T.draw(40);
      size_t z = k < 6 ? 1 : k < 18 ? 2 : k < 29 ? 3 : k < 34 ? 4 : k < 37 ? 5 : k < 39 ? 7 : 0;
      if (z == 0 && !zeros)
        z = 2;
      if (z && n * z > cap)
        z = 1;
      if (z)
        n *= z;
      s.push_back(z);
    }
    if (d && T.chance(2)) { // now and then something large
      size_t big = 50 + T.draw(T.chance(25) ? 4000 : 300);
      if (huge && T.chance(1))
        big = (T.draw(2) ? 32700 : 65500) + T.draw(2000);
      size_t at = T.draw(d);
      s.assign(d, 1);
      s[at] = big;
      if (d > 1 && T.draw(2))
        s[(at + 1) % d] = 2 + T.draw(2);
    }
    if (bulk > 1 && !s.empty())
      s.back() *= bulk;
    return s;
  }
  // a shape that broadcasts with s (0 never against 1)
  Shape partner(const Shape &s) {
    Shape r = s;
    if (T.chance(30) && !r.empty())
      r.erase(r.begin(), r.begin() + 1 + T.draw(r.size()));
    size_t n = numel(s);
    for (auto &x : r) {
      if (x == 0)
        continue;
      if (T.chance(25))
        x = 1;
      else if (x == 1 && n <= cap && T.chance(50)) {
        x = 2 + T.draw(3);
        n *= x;
      }
    }
    if (r.size() == s.size() && T.chance(15))
      for (size_t k = 1 + T.draw(2); k--;) {
        size_t x = 1 + T.draw(3);
        if (n * x > 4 * cap)
          x = 1;
        n *= x;
        r.insert(r.begin(), x);
      }
    return r;
  }
  // a shape with exactly n elements
  Shape shape_of(size_t n) {
    Shape s;
    if (n == 0) {
      s = shape(4);
      if (s.empty() || numel(s))
        s.insert(s.begin() + T.draw(s.size() + 1), 0);
      return s;
    }
    size_t rest = n;
    while (rest > 1) {
      std::vector<size_t> dv;
      for (size_t k = 2; k <= rest && k <= 4096; ++k)
        if (rest % k == 0)
          dv.push_back(k);
      if (s.size() >= 5 || dv.empty()) {
        s.push_back(rest);
        break;
      }
      size_t f = dv[dv.size() - 1 - T.draw(dv.size())];
      s.insert(s.begin() + T.draw(s.size() + 1), f);
      rest /= f;
    }
    while (s.size() < 6 && T.chance(20))
      s.insert(s.begin() + T.draw(s.size() + 1), 1);
    return s;
  }

  // ---- index text ----
  std::string pad() {
    if (!T.chance(12))
      return "";
    static const char *sp[] = {" ", "  ", "\t", " \t", "\n"};
    return sp[T.draw(5)];
  }
  static std::string i128s(i128 v) {
    if (v == 0)
      return "0";
    bool neg = v < 0;
    std::string r;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    while (u) {
      r.insert(r.begin(), char('0' + (int)(u % 10)));
      u /= 10;
    }
    return neg ? "-" + r : r;
  }
  std::string int_text(i128 v) {
    std::string s = i128s(v);
    if (T.chance(6)) {
      if (v >= 0)
        s = (T.draw(2) ? "+" : "0") + s;
      else
        s = "-0" + s.substr(1);
    }
    return pad() + s + pad();
  }
  std::string entry_text(const Idx &x) {
    if (x.is_int)
      return int_text(x.at);
    std::string r;
    r += x.b ? int_text(*x.b) : pad();
    r += ":";
    r += x.e ? int_text(*x.e) : pad();
    if (x.s || T.chance(20)) {
      r += ":";
      r += x.s ? int_text(*x.s) : pad();
    } else if (!x.b && !x.e && T.chance(15))
      return ""; // an empty entry selects everything
    return r;
  }
  std::string index_text(const std::vector<Idx> &ix) {
    std::string r;
    for (size_t i = 0; i < ix.size(); ++i)
      r += (i ? "," : "") + entry_text(ix[i]);
    return r;
  }
  // out of range for a size n, but in range after narrowing to fewer bits
  i128 wrapping(long long n) {
    static const int w[] = {8, 16, 31, 32, 32, 33, 40, 62};
    i128 m = (i128)1 << w[T.draw(8)];
    i128 v = T.range(-n, n ? n - 1 : 0) + m * (i128)(1 + T.draw(m < (1ll << 40) ? 3 : 1)) * (T.draw(2) ? -1 : 1);
    return v >= n || v < -n ? v : (i128)n + m;
  }
  // random well-formed entries for a shape; integer entries in range
  std::vector<Idx> index_for(const Shape &s, bool allow_int = true) {
    std::vector<Idx> ix;
    size_t k = s.size();
    if (k && T.chance(25))
      k = T.draw(k + 1);
    for (size_t d = 0; d < k; ++d) {
      long long n = (long long)s[d];
      Idx x;
      int kind = (int)T.weighted({3, 5, allow_int ? 2 : 0});
      if (kind == 2 && n > 0) {
        x.is_int = true;
        x.at = T.range(-n, n - 1);
      } else if (kind == 1 || kind == 2) {
        auto bound = [&]() -> std::optional<i128> {
          if (T.chance(30))
            return std::nullopt;
          if (T.chance(3)) {
            const i128 h[] = {1000, -1000, (i128)INT64_MAX, (i128)INT64_MIN, 1ll << 40};
            size_t k = T.draw(7);
            return k < 5 ? h[k] : wrapping(n);
          }
          return T.range(-n - 2, n + 2);
        };
        x.b = bound();
        x.e = bound();
        if (T.chance(65)) {
          if (T.chance(4)) {
            const i128 h[] = {1000, -1000, (i128)INT64_MAX, -(i128)INT64_MAX};
            x.s = h[T.draw(4)];
          } else {
            int64_t st = zig(9);
            x.s = st ? st : n + 1;
          }
        }
        if (x.b && x.e && py_slice((size_t)n, x).empty() && T.chance(75))
          std::swap(x.b, x.e);
        if (n > 0 && py_slice((size_t)n, x).empty() && T.chance(60)) {
          i128 stp = x.s.value_or(1); // aim inside instead
          x.b = T.range(0, n - 1);
          if (stp > 0)
            x.e = *x.b + 1 + (i128)T.draw(n + 1);
          else
            x.e.reset();
        }
      }
      ix.push_back(x);
    }
    return ix;
  }

  // ---- layouts ----
  struct Step {
    bool tr;
    size_t i, j;
    std::vector<Idx> ix;
    std::string text;
  };
  struct Plan {
    Shape base;
    std::vector<Step> steps;
  };
  Plan plan(const Shape &target, int max_steps = 3) {
    Plan p;
    Shape cur = target;
    int k = (int)T.draw(max_steps + 1);
    std::vector<Step> rev;
    while (k-- > 0) {
      Step st;
      if (cur.size() >= 2 && T.draw(2)) {
        st.tr = true;
        st.i = T.draw(cur.size());
        st.j = (st.i + 1 + T.draw(cur.size() - 1)) % cur.size();
        std::swap(cur[st.i], cur[st.j]);
      } else {
        st.tr = false;
        Shape prev;
        size_t n = numel(cur);
        size_t budget = std::max<size_t>(6 * cap, 4 * n);
        size_t tot = 1;
        for (auto x : cur)
          tot *= std::max<size_t>(x, 1);
        for (size_t d = 0; d <= cur.size(); ++d) {
          if (cur.size() + prev.size() < 7 && prev.size() < 7 && T.chance(8)) { // a dimension indexed away
            size_t e = 1 + T.draw(3);
            if (tot * e <= budget) {
              tot *= e;
              prev.push_back(e);
              Idx x;
              x.is_int = true;
              x.at = T.range(-(long long)e, (long long)e - 1);
              st.ix.push_back(x);
            }
          }
          if (d == cur.size())
            break;
          size_t s = cur[d];
          Idx x;
          if (s == 0) {
            size_t b = T.draw(3);
            prev.push_back(b);
            if (b) {
              x.b = (i128)T.draw(b + 1);
              x.e = *x.b;
            }
          } else {
            static const int steps[] = {1, 1, -1, 2, -2, 3};
            long long lead = T.draw(3), trail = T.draw(3), stp = steps[T.draw(6)];
            long long span = (long long)(s - 1) * std::llabs(stp) + 1;
            size_t b = lead + span + trail;
            if (tot / s * b > budget) {
              lead = trail = 0;
              stp = T.draw(2) ? -1 : 1;
              span = s;
              b = s;
            }
            tot = tot / s * b;
            prev.push_back(b);
            if (stp > 0) {
              x.b = lead;
              x.e = lead + span;
              if (lead == 0 && T.draw(2))
                x.b.reset();
              if (trail == 0 && T.draw(2))
                x.e.reset();
            } else {
              x.b = lead + span - 1;
              if (lead > 0)
                x.e = lead - 1;
              if (trail == 0 && T.draw(2))
                x.b.reset();
            }
            if (stp != 1)
              x.s = stp;
          }
          st.ix.push_back(x);
        }
        st.text = index_text(st.ix);
        cur = prev;
      }
      rev.push_back(st);
    }
    p.base = cur;
    p.steps.assign(rev.rbegin(), rev.rend());
    return p;
  }
};

inline Tensor blob_tensor(const std::vector<Num> &v, const Shape &s, types t) {
  return with_type(t, [&](auto z) {
    using T = decltype(z);
    std::unique_ptr<T[]> buf(new T[v.size() + 1]);
    for (size_t i = 0; i < v.size(); ++i)
      buf[i] = getn<T>(v[i]);
    Tensor r = Tensor::from_blob(buf.get(), to_sv(s), t);
    // the caller's buffer is overwritten: the tensor must hold a copy
    for (size_t i = 0; i <= v.size(); ++i)
      buf[i] = (T)77;
    return r;
  });
}

// ----------------------------------------------------------------- engine --
struct H {
  Tensor t, t2;
  MP m;
  int id = 0;
};
using HP = std::shared_ptr<H>;

enum Op {
  O_CONST, O_LEAF, O_ADD, O_SUB, O_MUL, O_DIV, O_NEG, O_ABS, O_SUM, O_MEAN,
  O_MAX, O_MIN, O_CLONE, O_TYPE, O_DETACH, O_INDEX, O_TRANSPOSE, O_RESHAPE,
  O_RESHAPE_AS, O_CONTIG, O_CAT, O_CMP, O_INPLACE, O_BACKWARD, O_ZEROGRAD,
  O_RETAIN, O_TOGGLE, O_UPDATE, O_DROP, O_ASSIGN, O_MOVE, O_ERROR, O_LIKE,
  O_ALL, O_POS, O_GRAD, O_COUNT
};

// Allocation failures: operator new of the library and the harness is wrapped
// (main.cpp); while armed, the k-th allocation fails once.
extern TLS long g_alloc_count; // allocations since reset
extern TLS long g_alloc_fail;  // 0: none, k: the k-th from now fails
extern TLS bool g_alloc_hit;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

struct Cfg {
  std::vector<int> w = std::vector<int>(O_COUNT, 0);
  bool grad = false;      // values kept tame and differentiable
  bool dual = false;      // second instance with other layouts (metamorphic)
  bool model = true;      // compare with the model
  bool check_all = false; // compare every live tensor after every step
  bool views_leaf = true; // leaves may be views
  int fault = 0;          // per cent of operations first tried with failing allocations
  Prof prof = P_SMALL;
  size_t pool_cap = 10;
};

struct Engine {
  Tape &T;
  Gen G;
  Cfg cfg;
  std::vector<HP> pool;
  int next_h = 0;
  int n_inplace_alias = 0, n_passes = 0, n_rejected = 0, n_drop = 0, n_view = 0,
      n_bcast = 0, n_mixed = 0, n_shared = 0, n_noncontig = 0, n_backward = 0,
      n_ops = 0, n_viewroot = 0, n_relayout = 0, n_retained = 0, n_survived = 0, n_graduse = 0, n_fault = 0, n_frozen = 0;

  Engine(Tape &t, const Cfg &c) : T(t), G(t), cfg(c) {}

  std::string nm(const HP &h) { return "t" + std::to_string(h->id); }
  // does the graph behind m hold a node that already took part in a pass?
  static bool spent(const MP &m) {
    std::vector<MT *> todo{m.get()};
    std::set<MT *> seen;
    while (!todo.empty()) {
      MT *x = todo.back();
      todo.pop_back();
      if (!x->has_fn() || !seen.insert(x).second)
        continue;
      if (x->consumed)
        return true;
      for (auto &i : x->in)
        todo.push_back(i.get());
    }
    return false;
  }
  bool usable(const HP &h) { return !spent(h->m); }

  // --- verification ---
  void verify_values(const HP &h) {
    std::string w = nm(h);
    if (cfg.model)
      check_values(h->t, *h->m, w);
    if (cfg.dual)
      compare_dual(h->t, h->t2, h->m, w, false);
  }
  void compare_dual(const Tensor &a, const Tensor &b, const MP &m,
                    const std::string &w, bool grad) {
    if (from_sv(a.size()) != from_sv(b.size()))
      throw Fail{w + ": shape depends on layout: " + a.size().to_string() +
                 " vs " + b.size().to_string()};
    if (a.type() != b.type())
      throw Fail{w + ": type depends on layout"};
    std::string sa = a.to_string(), sb = b.to_string();
    if (sa == sb)
      return;
    Parsed pa, pb;
    Shape s = from_sv(a.size());
    parse_tensor(sa, s, pa, w);
    parse_tensor(sb, s, pb, w);
    for (size_t k = 0; k < pa.tok.size(); ++k) {
      double x = tok_val(pa.tok[k], w), y = tok_val(pb.tok[k], w);
      double tol;
      if (grad)
        tol = 1e-6 + m->grad_tol(k);
      else if (!isf(m->dt))
        tol = 0;
      else
        tol = 2 * m->err + 1.1e-6 + (m->dt == INNC::f32 ? 3e-7 : 1e-15) * std::fabs(x);
      if (pa.tok[k] != pb.tok[k] && !close_to(x, y, tol))
        throw Fail{w + ": element " + std::to_string(k) + " depends on layout: " +
                   pa.tok[k] + " vs " + pb.tok[k]};
    }
  }
  void verify_flags(const HP &h) {
    std::string w = nm(h);
    if (h->t.requires_grad() != h->m->rg)
      throw Fail{w + ": requires_grad() is " +
                 std::to_string(h->t.requires_grad()) + ", expected " +
                 std::to_string(h->m->rg)};
    if (h->t.retain_grad() != h->m->retain)
      throw Fail{w + ": retain_grad() is wrong"};
  }
  void verify_grad(const HP &h) {
    if (cfg.model)
      check_grad(h->t, *h->m, nm(h));
    if (cfg.dual && h->m->has_grad && h->m->n()) {
      Tensor a = h->t.grad(), b = h->t2.grad();
      bool na = a.to_string() == "[]", nb = b.to_string() == "[]";
      if (na != nb)
        throw Fail{nm(h) + ": presence of gradient depends on layout"};
      if (!na)
        compare_dual(a, b, h->m, nm(h) + ".grad", true);
    }
  }
  void verify_all() {
    for (auto &h : pool) {
      verify_values(h);
      verify_flags(h);
      verify_grad(h);
    }
  }

  // --- creation ---
  HP add(HP h) {
    h->id = ++next_h;
    pool.push_back(h);
    if (pool.size() > cfg.pool_cap) {
      size_t k = T.draw(pool.size() - 1);
      TR("drop " + nm(pool[k]));
      pool.erase(pool.begin() + k);
    }
    return h;
  }
  static std::string vals_str(const std::vector<Num> &v, types t) {
    std::string r = "[";
    for (size_t i = 0; i < v.size() && i < 40; ++i)
      r += (i ? " " : "") + num_str(t, v[i]);
    if (v.size() > 40)
      r += " ...";
    return r + "]";
  }
  // build a tensor of the shape holding vals, with a generated layout
  Tensor lay(const Shape &s, types t, const std::vector<Num> &vals,
             const Gen::Style &padst, MP *out_m, const std::string &name,
             bool contiguous) {
    Gen::Plan p;
    if (contiguous)
      p.base = s;
    else
      p = G.plan(s);
    auto base = m_new(p.base, t);
    auto cur = base;
    for (auto &st : p.steps)
      cur = st.tr ? m_transpose(cur, st.i, st.j) : m_index(cur, st.ix);
    if (cur->shape != s)
      throw std::logic_error("harness: layout plan is wrong");
    std::vector<char> used(base->n(), 0);
    for (size_t k = 0; k < cur->n(); ++k) {
      base->st->v[cur->idx[k]] = vals[k];
      used[cur->idx[k]] = 1;
    }
    if (cur->n() != base->n())
      for (size_t k = 0; k < base->n(); ++k)
        if (!used[k])
          base->st->v[k] = G.num(t, padst);
    std::string d;
    if (g_trace || g_sample)
      d = name + " = from_blob(" + vals_str(base->st->v, t) + ", " +
          shape_str(p.base) + ", " + tname(t) + ")";
    Tensor r = blob_tensor(base->st->v, p.base, t);
    for (auto &st : p.steps) {
      if (st.tr) {
        r = r.transpose(st.i, st.j);
        if (!d.empty())
          d += ".transpose(" + std::to_string(st.i) + "," + std::to_string(st.j) + ")";
      } else {
        r = r[st.text];
        if (!d.empty())
          d += "[\"" + st.text + "\"]";
      }
    }
    TR(d);
    if (!m_rowmajor(cur))
      ++n_noncontig;
    if (out_m)
      *out_m = cur;
    return r;
  }
  HP make(const Shape &s, types t, Prof prof, bool leaf = false,
          int contiguous = -1) {
    auto st = G.style(t, prof);
    std::vector<Num> vals(numel(s));
    for (auto &v : vals)
      v = G.num(t, st);
    return make_vals(s, t, vals, st, leaf, contiguous);
  }
  HP make_vals(const Shape &s, types t, std::vector<Num> vals,
               const Gen::Style &st, bool leaf, int contiguous = -1) {
    if (leaf && g_pert.f64_only && g_pert.leaf == next_h + 1 && g_pert.elem < vals.size())
      vals[g_pert.elem].d += g_pert.h;
    auto h = std::make_shared<H>();
    std::string name = "t" + std::to_string(next_h + 1);
    bool c = contiguous >= 0 ? contiguous : T.chance(35);
    try {
      h->t = lay(s, t, vals, st, &h->m, name, c);
      if (cfg.dual) {
        h->t2 = lay(s, t, vals, st, nullptr, name + "'", T.chance(35));
        ++n_relayout;
      }
      // the tensor stands alone now: own storage as far as the model goes
      if (leaf) {
        TR(name + ".requires_grad(true)");
        h->t.requires_grad(true);
        if (cfg.dual)
          h->t2.requires_grad(true);
        h->m->rg = true;
        h->m->all64 = t == INNC::f64;
        if (g_pert.f64_only)
          g_pert.leaves.push_back({next_h + 1, h->m});
      }
    } catch (const std::exception &e) {
      throw Fail{"creating " + name + ": unexpected exception: " + e.what()};
    }
    add(h);
    if (cfg.check_all)
      verify_values(h);
    return h;
  }

  // --- operand choice ---
  template <class P> HP choose(P pred) {
    std::vector<HP> c;
    for (auto &h : pool)
      if (usable(h) && pred(h))
        c.push_back(h);
    if (c.empty())
      return nullptr;
    // newest first so that 0 on the tape means "the last result"
    return c[c.size() - 1 - T.draw(c.size())];
  }
  HP any() {
    HP h = choose([](const HP &) { return true; });
    if (!h)
      h = fresh();
    return h;
  }
  types rnd_type() {
    if (!cfg.grad)
      return G.any_type();
    uint64_t k = T.draw(10);
    if (g_pert.f64_only && k < 8)
      return INNC::f64;
    return k < 5 ? INNC::f64 : k < 8 ? INNC::f32 : (types)T.draw(4);
  }
  HP fresh() {
    bool leaf = cfg.w[O_LEAF] && T.chance(cfg.grad ? 65 : 25);
    types t = leaf ? G.float_type() : rnd_type();
    return make(G.shape(), t, cfg.prof, leaf, cfg.views_leaf ? -1 : 1);
  }
  HP partner_for(const HP &a) {
    HP b;
    if (T.chance(70))
      b = choose([&](const HP &h) { return compat(a->m->shape, h->m->shape) == C_OK; });
    if (!b) {
      bool leaf = cfg.w[O_LEAF] && T.chance(50);
      types t = leaf ? G.float_type() : rnd_type();
      b = make(G.partner(a->m->shape), t, cfg.prof, leaf, cfg.views_leaf ? -1 : 1);
    }
    return b;
  }

  // --- results ---
  // Runs f (returning a tensor modelled by m) with an allocation failing, at
  // several points; it must throw, leave everything alone and lose no memory.
  template <class F> void inject(const MP &m, F f, const std::string &desc) {
    g_alloc_count = 0;
    g_alloc_fail = 0;
    try {
      Tensor r = f();
    } catch (const std::exception &e) {
      throw Fail{desc + ": unexpected exception: " + e.what()};
    }
    long n = g_alloc_count;
    std::vector<long> at;
    for (int i = 0; i < 5 && n > 0; ++i)
      at.push_back(1 + (long)T.draw((uint64_t)n));
    for (long k : at) {
      TR("allocation " + std::to_string(k) + " of " + std::to_string(n) + " fails in " + desc);
      int grew = 0;
      for (int rep = 0; rep < 3 && grew == rep; ++rep) {
        size_t h0 = __sanitizer_get_current_allocated_bytes();
        bool threw = false, other = false;
        {
          Tensor r;
          g_alloc_hit = false;
          g_alloc_fail = k;
          try {
            r = f();
          } catch (const std::exception &) {
            threw = true;
          } catch (...) {
            other = true;
          }
          g_alloc_fail = 0;
          if (other)
            throw Fail{desc + ": a failed allocation is reported by something that is no std::exception"};
          if (!threw)
            check_values(r, *m, desc + " (after a failed allocation that was not reported)");
          else if (!g_alloc_hit)
            throw Fail{desc + ": throws, but no allocation failed"};
        }
        grew += __sanitizer_get_current_allocated_bytes() > h0;
        if (g_alloc_hit)
          ++n_fault;
      }
      if (grew == 3)
        throw Fail{desc + ": memory is lost when an allocation fails"};
      verify_all();
    }
  }
  template <class F> HP emit(const MP &m, F f, const std::string &desc) {
    auto h = std::make_shared<H>();
    h->m = m;
    if (cfg.fault && T.chance(cfg.fault))
      inject(m, [&] { return f(false); }, desc);
    TR("t" + std::to_string(next_h + 1) + " = " + desc);
    try {
      h->t = f(false);
      if (cfg.dual)
        h->t2 = f(true);
    } catch (const std::exception &e) {
      throw Fail{desc + ": unexpected exception: " + e.what()};
    }
    ++n_ops;
    g_pert.trace = g_pert.trace * 1000003 + m->n() * 31 + m->branch * 977 + (m->in.size() ? m->in[0]->id - m->id : 0);
    add(h);
    verify_values(h);
    verify_flags(h);
    return h;
  }
  bool tame(const MP &m) {
    if (!m)
      return false;
    if (!cfg.grad)
      return numel(m->shape) <= 80000;
    double x = m->maxabs();
    return x <= 4000 && x == x && m->depth < 60 && m->n() <= 6000;
  }
  // operand access; in dual mode the second instance may be re-laid-out
  Tensor op(const HP &h, bool second) {
    Tensor r;
    if (!second)
      r = h->t;
    else if ((h->id * 7 + n_ops * 13) % 5 == 0)
      r = h->t2.clone();
    else
      r = h->t2;
    return r;
  }

  HP arith_op(char op_, HP a, HP b) {
    Shape rs;
    if (compat(a->m->shape, b->m->shape, &rs) != C_OK)
      return nullptr;
    if (cfg.grad && op_ == '/') {
      if (b->m->n() && b->m->minabs() < 0.2)
        return nullptr;
      if (!isf(wider(a->m->dt, b->m->dt)) && (a->m->rg || b->m->rg))
        return nullptr;
    }
    if (numel(rs) > 80000)
      return nullptr;
    auto m = m_arith(op_, a->m, b->m);
    if (!tame(m))
      return nullptr;
    if (rs != a->m->shape || rs != b->m->shape)
      ++n_bcast;
    if (a->m->dt != b->m->dt)
      ++n_mixed;
    if (a == b || (a->m->rg && a->m->has_fn() && b->m->has_fn()))
      ++n_shared;
    return emit(
        m,
        [&](bool s) -> Tensor {
          Tensor x = op(a, s), y = op(b, s);
          switch (op_) {
          case '+': return x + y;
          case '-': return x - y;
          case '*': return x * y;
          default: return x / y;
          }
        },
        nm(a) + " " + op_ + " " + nm(b));
  }
  HP cmp_op(int k, HP a, HP b) {
    Shape rs;
    if (compat(a->m->shape, b->m->shape, &rs) != C_OK || numel(rs) > 80000)
      return nullptr;
    if (a->m->err > 0 || b->m->err > 0)
      return nullptr; // rounding could flip it
    static const char *n[] = {"<", ">", "<=", ">=", "==", "!="};
    if (rs != a->m->shape || rs != b->m->shape)
      ++n_bcast;
    if (a->m->dt != b->m->dt)
      ++n_mixed;
    return emit(
        m_cmp(k, a->m, b->m),
        [&](bool s) -> Tensor {
          Tensor x = op(a, s), y = op(b, s);
          switch (k) {
          case 0: return x < y;
          case 1: return x > y;
          case 2: return x <= y;
          case 3: return x >= y;
          case 4: return x == y;
          default: return x != y;
          }
        },
        nm(a) + " " + n[k] + " " + nm(b));
  }
  HP neg_op(HP a) {
    auto m = m_neg(a->m);
    if (!m)
      return nullptr;
    return emit(m, [&](bool s) { Tensor x = op(a, s); return -x; }, "-" + nm(a));
  }
  HP abs_op(HP a) {
    if ((cfg.grad || a->m->rg) && a->m->n() && a->m->minabs() < 1e-3)
      return nullptr;
    auto m = m_abs(a->m);
    if (!m)
      return nullptr;
    return emit(m, [&](bool s) { return op(a, s).abs(); }, nm(a) + ".abs()");
  }
  HP sum_op(HP a, bool mean) {
    if (mean && a->m->n() == 0)
      return nullptr;
    auto m = m_sum(a->m, mean);
    if (!m)
      return nullptr;
    return emit(m, [&](bool s) { Tensor x = op(a, s); return mean ? x.mean() : x.sum(); },
                nm(a) + (mean ? ".mean()" : ".sum()"));
  }
  HP ext_op(HP a, bool mx) {
    if (a->m->n() == 0)
      return nullptr;
    for (size_t k = 0; k < a->m->n(); ++k)
      if (std::isnan(a->m->d(k)))
        return nullptr;
    if (a->m->rg) {
      double gap;
      m_arg(a->m, mx, &gap);
      if (gap < 1e-3)
        return nullptr; // ties: any subgradient would do
    }
    return emit(m_extreme(a->m, mx),
                [&](bool s) { Tensor x = op(a, s); return mx ? x.max() : x.min(); },
                nm(a) + (mx ? ".max()" : ".min()"));
  }
  HP clone_op(HP a) {
    return emit(m_copy(a->m), [&](bool s) { return op(a, s).clone(); }, nm(a) + ".clone()");
  }
  HP contig_op(HP a) {
    auto m = m_copy(a->m);
    if (m_rowmajor(a->m)) // may or may not share
      a->m->st->frozen = m->st->frozen = true;
    HP h = emit(m, [&](bool s) { return op(a, s).contiguous(); }, nm(a) + ".contiguous()");
    if (!h->t.is_contiguous())
      throw Fail{nm(h) + ": contiguous() result is not contiguous"};
    return h;
  }
  HP detach_op(HP a) {
    ++n_view;
    g_pert.detached = true;
    return emit(m_detach(a->m), [&](bool s) {
      Tensor x = op(a, s);
      return x.detach(); }, nm(a) + ".detach()");
  }
  HP type_op(HP a, types t) {
    if (t == a->m->dt) // returns the tensor itself today; identity left open
      return nullptr;
    if (a->m->rg && !isf(t))
      return nullptr;
    if (a->m->err > 0 && !isf(t))
      return nullptr;
    auto m = m_type(a->m, t);
    if (!m)
      return nullptr;
    return emit(m, [&](bool s) { Tensor x = op(a, s); return x.type(t); },
                nm(a) + ".type(" + tname(t) + ")");
  }
  HP index_op(HP a, const std::vector<Idx> &ix, const std::string &text) {
    ++n_view;
    auto m = m_index(a->m, ix);
    return emit(m, [&](bool s) { Tensor x = op(a, s); return x[text]; },
                nm(a) + "[\"" + text + "\"]");
  }
  HP transpose_op(HP a, size_t i, size_t j) {
    ++n_view;
    bool st = T.draw(2);
    return emit(m_transpose(a->m, i, j), [&](bool s) {
      Tensor x = op(a, s);
      return st ? Tensor::transpose(x, i, j) : x.transpose(i, j); },
      nm(a) + ".transpose(" + std::to_string(i) + "," + std::to_string(j) + ")");
  }
  // strides exactly those of a fresh tensor, unit dimensions included
  static bool strict_strides(const HP &a) {
    if (a->m->shape.empty())
      return true;
    if (!a->m->n())
      return false;
    auto st = a->t.stride();
    long long want = 1;
    for (size_t d = a->m->shape.size(); d-- > 0; want *= (long long)a->m->shape[d])
      if ((long long)st[d] != want)
        return false;
    return true;
  }
  HP reshape_op(HP a, const Shape &s, int minus_at, const HP *as) {
    ++n_view;
    auto m = m_reshape(a->m, s);
    // a contiguous tensor is reshaped in place (a view); otherwise sharing and
    // copying are both allowed, so nothing may be updated in place any more
    if (cfg.dual || !m_rowmajor(a->m) || !a->t.is_contiguous() || !strict_strides(a)) {
      auto c = std::make_shared<Store>(*a->m->st);
      m->st = c;
      c->frozen = a->m->st->frozen = true;
      std::vector<Num> v;
      for (size_t k = 0; k < m->n(); ++k)
        v.push_back(m->at(k));
      for (size_t k = 0; k < m->n(); ++k)
        m->idx[k] = k;
      c->v = v;
    }
    SignedVec sv;
    std::string d;
    for (size_t i = 0; i < s.size(); ++i) {
      sv.push_back((int)i == minus_at ? -1 : (long long)s[i]);
      d += (i ? "," : "") + std::to_string(sv.back());
    }
    int form = (int)T.draw(2);
    return emit(m, [&](bool q) -> Tensor {
      Tensor x = op(a, q);
      if (as) {
        Tensor y = op(*as, q);
        return x.reshape_as(y);
      }
      if (form)
        return INNC::reshape(x, sv);
      return x.reshape(sv); },
      nm(a) + (as ? ".reshape_as(" + nm(*as) + ")" : ".reshape({" + d + "})"));
  }
  HP rnd_reshape(HP a) {
    if (a->m->n() > 80000)
      return nullptr;
    Shape s = G.shape_of(a->m->n());
    int at = -1;
    if (!s.empty() && T.chance(35)) {
      at = (int)T.draw(s.size());
      size_t rest = 1;
      for (size_t i = 0; i < s.size(); ++i)
        if ((int)i != at)
          rest *= s[i];
      if (rest == 0)
        at = -1;
    }
    return reshape_op(a, s, at, nullptr);
  }
  HP cat_op(const std::vector<HP> &in, size_t dim) {
    std::vector<MP> ms;
    std::string d;
    size_t tot = 0;
    for (auto &h : in) {
      ms.push_back(h->m);
      tot += h->m->n();
      d += (d.empty() ? "" : ",") + nm(h);
      if (h->m->dt != in[0]->m->dt)
        ++n_mixed;
      if (h->m->rg && isf(h->m->dt) == false)
        return nullptr;
    }
    if (tot > 80000)
      return nullptr;
    int form = (int)T.draw(2);
    return emit(m_cat(ms, dim), [&](bool s) {
      std::vector<Tensor> v(in.size());
      for (size_t i = 0; i < in.size(); ++i)
        v[i] = op(in[i], s);
      if (form && dim == 0)
        return INNC::cat(v);
      return Tensor::cat(v, dim); },
      "cat({" + d + "}, " + std::to_string(dim) + ")");
  }
  HP rnd_cat() {
    HP a = choose([](const HP &h) { return h->m->shape.size() >= 1; });
    if (!a)
      return nullptr;
    size_t dim = T.draw(a->m->shape.size());
    size_t k = 1 + T.draw(4);
    std::vector<HP> in{a};
    for (size_t i = 1; i < k; ++i) {
      HP b = T.chance(75) ? choose([&](const HP &h) {
        if (h->m->shape.size() != a->m->shape.size())
          return false;
        for (size_t d = 0; d < a->m->shape.size(); ++d)
          if (d != dim && h->m->shape[d] != a->m->shape[d])
            return false;
        return true;
      })
                          : nullptr;
      if (!b) {
        Shape s = a->m->shape;
        s[dim] = T.draw(4);
        bool leaf = cfg.w[O_LEAF] && T.chance(50);
        b = make(s, leaf ? G.float_type() : rnd_type(), cfg.prof, leaf);
      }
      if (T.draw(2))
        in.insert(in.begin(), b);
      else
        in.push_back(b);
    }
    return cat_op(in, dim);
  }

  // live graphs that involve a tensor are not used for backward any more
  template <class P> void kill_graphs(P touched) {
    for (auto &h : pool) {
      if (!h->m->has_fn())
        continue;
      std::vector<MT *> todo{h->m.get()};
      std::set<MT *> seen{h->m.get()};
      bool hit = false;
      while (!todo.empty() && !hit) {
        MT *x = todo.back();
        todo.pop_back();
        hit = touched(x);
        for (auto &i : x->in)
          if (seen.insert(i.get()).second)
            todo.push_back(i.get());
      }
      if (hit)
        h->m->consumed = true;
      else
        ++n_survived;
    }
  }
  // a += b
  bool inplace(HP a, HP b) {
    Shape rs;
    if (a->m->rg || a->m->st->frozen || b->m->rg)
      return false;
    if (compat(a->m->shape, b->m->shape, &rs) != C_OK || rs != a->m->shape)
      return false;
    bool overlap = false;
    if (b->m->st == a->m->st && !(b->m->idx == a->m->idx && b->m->shape == a->m->shape)) {
      std::set<size_t> sa(a->m->idx.begin(), a->m->idx.end());
      for (size_t x : b->m->idx)
        overlap |= sa.count(x) > 0;
    }
    auto mb = bmap(rs, b->m->shape);
    std::vector<Num> nv(a->m->n());
    for (size_t k = 0; k < nv.size(); ++k)
      if (!arith('+', a->m->dt, a->m->at(k), b->m->dt, b->m->at(mb[k]), a->m->dt, nv[k]))
        return false;
    if (a->m->err > 0 || b->m->err > 0)
      return false;
    TR(nm(a) + " += " + nm(b));
    try {
      Tensor &r = (a->t += b->t);
      if (&r != &a->t)
        throw Fail{"+= does not return its left operand"};
      if (cfg.dual)
        a->t2 += b->t2;
    } catch (const std::exception &e) {
      throw Fail{nm(a) + " += " + nm(b) + ": unexpected exception: " + e.what()};
    }
    ++n_ops;
    if (overlap)
      label("+= of an overlapping view");
    for (size_t k = 0; k < nv.size(); ++k)
      a->m->st->v[a->m->idx[k]] = nv[k];
    a->m->st->zs |= b->m->st->zs;
    for (auto &h : pool)
      if (h->m != a->m && h->m->st == a->m->st)
        ++n_inplace_alias;
    kill_graphs([&](MT *x) { return x->st == a->m->st; });
    return true;
  }

  bool do_backward(HP root) {
    if (cfg.fault && T.chance(cfg.fault)) {
      long k = T.draw(3) ? 1 + (long)T.draw(16) : 1 + (long)T.draw(400);
      TR("allocation " + std::to_string(k) + " fails in " + nm(root) + ".backward()");
      bool threw = false;
      g_alloc_hit = false;
      g_alloc_fail = k;
      try {
        root->t.backward();
      } catch (const std::exception &) {
        threw = true;
      }
      g_alloc_fail = 0;
      if (threw && !g_alloc_hit)
        throw Fail{nm(root) + ".backward(): throws, but no allocation failed"};
      if (!threw)
        goto passed;
      ++n_fault;
      // the graph is spent; gradients of leaves are defined again after zero_grad()
      std::vector<MP> todo{root->m};
      std::set<MT *> seen{root->m.get()};
      while (!todo.empty()) {
        MP x = todo.back();
        todo.pop_back();
        for (auto &i : x->in)
          if (seen.insert(i.get()).second)
            todo.push_back(i);
        x->consumed = x->has_fn();
        for (size_t i = pool.size(); i-- > 0;)
          if (pool[i]->m == x) {
            if (x->has_fn()) {
              TR("drop " + nm(pool[i]));
              pool.erase(pool.begin() + i);
            } else if (x->rg) {
              TR(nm(pool[i]) + ".zero_grad()");
              pool[i]->t.zero_grad();
              Tensor g = pool[i]->t.grad();
              x->has_grad = g.to_string() != "[]" || !x->n();
              x->grad.assign(x->n(), 0);
              x->gmag.assign(x->n(), 0);
            }
          }
      }
      verify_all();
      return true;
    }
    TR(nm(root) + ".backward()");
    try {
      root->t.backward();
      if (cfg.dual)
        root->t2.backward();
    } catch (const std::exception &e) {
      throw Fail{nm(root) + ".backward(): unexpected exception: " + e.what()};
    }
  passed:
    for (MT *x : m_backward(root->m)) {
      x->consumed = true;
      if (x->retain)
        ++n_retained;
    }
    ++n_backward;
    g_pert.root = g_pert.f64_only ? root->m : nullptr;
    verify_all();
    return true;
  }
  // choose a graph result, reduce it to one element, and differentiate
  bool rnd_backward() {
    HP x = choose([](const HP &h) { return h->m->has_fn() && h->m->rg; });
    if (!x)
      return false;
    for (int tries = 0; tries < 4; ++tries) {
      if (x->m->n() == 1 && T.chance(60)) {
        if (x->m->shape.size() || tries)
          ++n_viewroot;
        return do_backward(x);
      }
      HP r;
      switch (T.weighted({4, 3, 1, 1, 2})) {
      case 0: { // weighted sum: every element gets its own upstream gradient
        HP w = make(x->m->shape, T.draw(3) || g_pert.f64_only ? INNC::f64 : INNC::f32, P_GRAD, false);
        r = arith_op('*', x, w);
        break;
      }
      case 1: r = sum_op(x, false); break;
      case 2: r = sum_op(x, true); break;
      case 3: r = ext_op(x, T.draw(2)); break;
      default:
        if (cfg.w[O_INDEX] && x->m->n() > 0) { // a single element by index
          std::vector<Idx> ix;
          for (size_t s : x->m->shape) {
            Idx i;
            if (T.chance(80)) {
              i.is_int = true;
              i.at = T.range(-(long long)s, (long long)s - 1);
            } else {
              i.b = (i128)T.draw(s);
              i.e = *i.b + 1;
            }
            ix.push_back(i);
          }
          r = index_op(x, ix, G.index_text(ix));
        } else
          r = sum_op(x, false);
      }
      if (r)
        x = r;
      if (!x->m->has_fn() || !x->m->rg)
        return false;
    }
    if (x->m->n() != 1)
      x = sum_op(x, false);
    return x && x->m->has_fn() && x->m->rg && do_backward(x);
  }

  // --- invalid requests (C13); returns true if something was attempted ---
  template <class F> void must_throw(F f, const std::string &d) {
    TR(d + "   // must throw");
    bool threw = false;
    try {
      f();
    } catch (const std::exception &) {
      threw = true;
    }
    if (!threw)
      throw Fail{d + ": invalid request was accepted"};
    ++n_rejected;
    verify_all();
  }
  bool rnd_error();
  bool reinit(HP b); // b = fresh data, by initialiser list, scalar or temporary

  bool step() {
    Op o = (Op)T.weighted(cfg.w);
    bool done = do_op(o);
    if (done && cfg.check_all)
      verify_all();
    return done;
  }
  bool do_op(Op o) {
    switch (o) {
    case O_CONST: return (bool)make(G.shape(), rnd_type(), cfg.prof, false);
    case O_LEAF: return (bool)make(G.shape(), G.float_type(), cfg.prof, true);
    case O_ADD: case O_SUB: case O_MUL: case O_DIV: {
      HP a = any(), b = partner_for(a);
      if (T.draw(2))
        std::swap(a, b);
      return (bool)arith_op("+-*/"[o - O_ADD], a, b);
    }
    case O_NEG: return (bool)neg_op(any());
    case O_POS: {
      HP a = any();
      auto h = std::make_shared<H>();
      h->m = a->m; // shares identity or is an equal copy: only values checked
      TR("+" + nm(a));
      Tensor x;
      x = a->t;
      Tensor y = +x;
      check_values(y, *a->m, "+" + nm(a));
      return true;
    }
    case O_ABS: return (bool)abs_op(any());
    case O_SUM: return (bool)sum_op(any(), false);
    case O_MEAN: return (bool)sum_op(any(), true);
    case O_MAX: return (bool)ext_op(any(), true);
    case O_MIN: return (bool)ext_op(any(), false);
    case O_CLONE: return (bool)clone_op(any());
    case O_TYPE: {
      HP a = any();
      return (bool)type_op(a, a->m->rg || cfg.grad ? G.float_type() : G.any_type());
    }
    case O_DETACH: return (bool)detach_op(any());
    case O_INDEX: {
      HP a = any();
      auto ix = G.index_for(a->m->shape);
      return (bool)index_op(a, ix, G.index_text(ix));
    }
    case O_TRANSPOSE: {
      HP a = choose([](const HP &h) { return h->m->shape.size() >= 2; });
      if (!a)
        return false;
      size_t n = a->m->shape.size(), i = T.draw(n), j = (i + 1 + T.draw(n - 1)) % n;
      return (bool)transpose_op(a, i, j);
    }
    case O_RESHAPE: return (bool)rnd_reshape(any());
    case O_RESHAPE_AS: {
      HP a = any();
      HP b = choose([&](const HP &h) { return h->m->n() == a->m->n(); });
      return b && reshape_op(a, b->m->shape, -1, &b);
    }
    case O_CONTIG: return (bool)contig_op(any());
    case O_CAT: return (bool)rnd_cat();
    case O_CMP: {
      HP a = any(), b = partner_for(a);
      return (bool)cmp_op((int)T.draw(6), a, b);
    }
    case O_INPLACE: {
      HP a = cfg.dual ? make(G.shape(), rnd_type(), P_SMALL, false) : choose([](const HP &h) { return !h->m->rg && !h->m->st->frozen; });
      if (!a)
        return false;
      HP b;
      if (!cfg.dual && T.chance(12) && a->m->n() > 1) { // another view of the same elements
        const Shape &s = a->m->shape;
        size_t d = T.draw(s.size()), e = T.draw(s.size());
        if (d != e && s[d] == s[e] && T.draw(2))
          b = transpose_op(a, d, e);
        else if (s[d]) {
          std::vector<Idx> ix(d + 1);
          std::string text;
          for (size_t i = 0; i < d; ++i)
            text += ":,";
          long long k = (long long)T.draw(s[d]);
          if (d == 0 && T.draw(3) == 0) {
            ix[d].is_int = true;
            ix[d].at = k;
            text += std::to_string(k);
          } else if (T.draw(2)) {
            ix[d].s = -1;
            text += "::-1";
          } else {
            ix[d].b = k;
            ix[d].e = k + 1;
            text += std::to_string(k) + ":" + std::to_string(k + 1);
          }
          b = index_op(a, ix, text);
        }
      }
      if (!b && T.chance(60))
        b = choose([&](const HP &h) {
          Shape r;
          return !h->m->rg && compat(a->m->shape, h->m->shape, &r) == C_OK && r == a->m->shape;
        });
      if (!b) {
        Shape s = a->m->shape;
        if (!s.empty() && T.chance(30))
          s.erase(s.begin(), s.begin() + 1 + T.draw(s.size()));
        for (auto &x : s)
          if (x && T.chance(25))
            x = 1;
        types t = T.draw(3) == 0 ? G.any_type() : a->m->dt;
        b = make(s, t, P_SMALL, false);
      }
      return inplace(a, b);
    }
    case O_GRAD: { // a gradient is an ordinary tensor without history
      HP a = choose([](const HP &h) {
        if (!h->m->has_grad || !h->m->n())
          return false;
        for (size_t k = 0; k < h->m->n(); ++k)
          if (!std::isfinite(h->m->grad[k]) || h->m->gmag[k] > 1e6)
            return false;
        return true;
      });
      if (!a || cfg.dual)
        return false;
      Tensor g = a->t.grad();
      auto m = m_new(a->m->shape, a->m->dt);
      m->st->zs = true;
      for (size_t k = 0; k < m->n(); ++k) {
        m->st->v[k].d = m->dt == INNC::f32 ? (double)(float)a->m->grad[k] : a->m->grad[k];
        m->err = std::max(m->err, a->m->grad_tol(k));
      }
      std::string d = nm(a) + ".grad()";
      if (cfg.w[O_DROP] && T.chance(40)) { // the gradient outlives the tensor
        TR("drop every handle of " + nm(a) + " but keep its gradient");
        MP am = a->m;
        for (size_t k = pool.size(); k-- > 0;)
          if (pool[k]->m == am)
            pool.erase(pool.begin() + k);
        a.reset();
        ++n_drop;
        check_values(g, *m, d);
      }
      if (pool.empty() && !a)
        make(G.shape(), G.float_type(), cfg.prof, true);
      ++n_graduse;
      if (T.draw(3) == 0)
        return (bool)emit(m, [&](bool) { return g + Tensor((int8_t)0); }, d + " + 0");
      return (bool)emit(m, [&](bool) { return g.clone(); }, d + ".clone()");
    }
    case O_BACKWARD: return rnd_backward();
    case O_ZEROGRAD: {
      HP a = any();
      TR(nm(a) + ".zero_grad()");
      a->t.zero_grad();
      if (cfg.dual)
        a->t2.zero_grad();
      if (a->m->has_grad) {
        std::fill(a->m->grad.begin(), a->m->grad.end(), 0.0);
        std::fill(a->m->gmag.begin(), a->m->gmag.end(), 0.0);
      }
      return true;
    }
    case O_RETAIN: {
      HP a = choose([](const HP &h) { return h->m->rg; });
      if (!a)
        return false;
      bool b = !T.chance(15);
      TR(nm(a) + ".retain_grad(" + (b ? "true" : "false") + ")");
      a->t.retain_grad(b);
      if (cfg.dual)
        a->t2.retain_grad(b);
      a->m->retain = b;
      return true;
    }
    case O_TOGGLE: {
      // a leaf goes on or off; a result can be switched off, which cuts the graph there
      HP a = choose([](const HP &h) { return h->m->has_fn() ? h->m->rg : isf(h->m->dt); });
      if (!a)
        return false;
      bool was = a->m->rg, b = was == T.chance(25);
      TR(nm(a) + ".requires_grad(" + (b ? "true" : "false") + ")");
      a->t.requires_grad(b);
      if (cfg.dual)
        a->t2.requires_grad(b);
      if (b == was)
        return true; // set to what it was: nothing changes
      a->m->rg = b;
      a->m->all64 = a->m->dt == INNC::f64;
      if (b)
        kill_graphs([&](MT *x) { return x == a->m.get(); });
      else
        ++n_frozen;
      return true;
    }
    case O_UPDATE: { // parameter update through detach()
      HP a = choose([](const HP &h) { return h->m->rg && !h->m->has_fn() && !h->m->st->frozen; });
      if (!a)
        return false;
      HP d = detach_op(a);
      Shape s = a->m->shape;
      HP b = make(s, T.draw(3) ? a->m->dt : G.float_type(), P_SMALL, false);
      return inplace(d, b);
    }
    case O_DROP: {
      if (pool.size() < 2)
        return false;
      size_t k = T.draw(pool.size());
      TR("drop " + nm(pool[k]));
      pool.erase(pool.begin() + k);
      ++n_drop;
      return true;
    }
    case O_ASSIGN: {
      HP a = any();
      if (T.chance(30))
        return reinit(a);
      auto h = std::make_shared<H>();
      if (T.chance(30)) { // overwrite a handle that holds something else
        HP b = any();
        TR(nm(b) + " := " + nm(a) + "  // handle overwritten");
        b->m = a->m;
        b->t = a->t;
        if (cfg.dual)
          b->t2 = a->t2;
        ++n_drop;
        return true;
      }
      h->m = a->m;
      h->t = a->t;
      if (cfg.dual)
        h->t2 = a->t2;
      add(h);
      TR(nm(h) + " = " + nm(a) + "  // same tensor");
      if (T.chance(20)) {
        Tensor &self = h->t;
        h->t = self;
      }
      return true;
    }
    case O_MOVE: {
      HP a = any();
      auto h = std::make_shared<H>();
      h->m = a->m;
      int how = (int)T.draw(3);
      if (how == 0)
        h->t = std::move(a->t);
      else if (how == 1) {
        Tensor tmp(std::move(a->t));
        h->t = std::move(tmp);
      } else { // through a vector that reallocates
        std::vector<Tensor> v;
        v.push_back(std::move(a->t));
        for (int i = 0; i < 5; ++i)
          v.emplace_back(3.0);
        h->t = v[0];
      }
      if (cfg.dual)
        h->t2 = std::move(a->t2);
      pool.erase(std::find(pool.begin(), pool.end(), a));
      std::string old = nm(a);
      add(h);
      TR(nm(h) + " = move(" + old + ")");
      ++n_drop;
      return true;
    }
    case O_ERROR: return rnd_error();
    case O_LIKE: {
      HP a = any();
      bool one = T.draw(2);
      auto m = m_new(a->m->shape, a->m->dt);
      for (auto &v : m->st->v)
        v = isf(m->dt) ? mkn((double)one) : mkn((int64_t)one);
      return (bool)emit(m, [&](bool s) { Tensor x = op(a, s); return one ? Tensor::ones_like(x) : Tensor::zeros_like(x); },
                        (one ? "ones_like(" : "zeros_like(") + nm(a) + ")");
    }
    case O_ALL: {
      HP a = any();
      bool want = true;
      for (size_t k = 0; k < a->m->n(); ++k)
        want &= isf(a->m->dt) ? a->m->at(k).d != 0 : a->m->at(k).i != 0;
      if (a->m->err > 0)
        return false;
      TR(nm(a) + ".all()");
      bool got = a->t.all();
      if (cfg.model && got != want)
        throw Fail{nm(a) + ".all() is " + std::to_string(got) + ", expected " + std::to_string(want)};
      if (cfg.dual && got != a->t2.all())
        throw Fail{nm(a) + ".all() depends on layout"};
      return true;
    }
    default: return false;
    }
  }
};
