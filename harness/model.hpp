// Reference model. A model tensor is a shared storage plus an explicit list
// "logical element -> storage slot"; no strides, no kernels.
#pragma once
#include "INNC/INNC.hpp"
#include "tape.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

using INNC::types;
using Shape = std::vector<size_t>;
using i128 = __int128;

struct Num {
  int64_t i = 0;
  double d = 0;
};

inline bool isf(types t) { return t == INNC::f32 || t == INNC::f64; }
inline const char *tname(types t) {
  static const char *n[] = {"i8", "i16", "i32", "i64", "f32", "f64"};
  return n[t];
}
template <class F> auto with_type(types t, F f) {
  switch (t) {
  case INNC::i8: return f(int8_t{});
  case INNC::i16: return f(int16_t{});
  case INNC::i32: return f(int32_t{});
  case INNC::i64: return f(int64_t{});
  case INNC::f32: return f(float{});
  default: return f(double{});
  }
}
template <class T> T getn(const Num &n) {
  if constexpr (std::is_floating_point_v<T>)
    return (T)n.d;
  else
    return (T)n.i;
}
template <class T> Num mkn(T v) {
  Num n;
  if constexpr (std::is_floating_point_v<T>)
    n.d = v;
  else
    n.i = v;
  return n;
}
inline double asd(types t, const Num &n) { return isf(t) ? n.d : (double)n.i; }
inline size_t numel(const Shape &s) {
  size_t n = 1;
  for (auto x : s)
    n *= x;
  return n;
}
inline std::string shape_str(const Shape &s) {
  std::string r = "{";
  for (size_t i = 0; i < s.size(); ++i)
    r += (i ? "," : "") + std::to_string(s[i]);
  return r + "}";
}
inline std::string num_str(types t, const Num &n) {
  return with_type(t, [&](auto z) { return std::to_string(getn<decltype(z)>(n)); });
}

// ---- scalar semantics -------------------------------------------------
// conversion; returns false when C++ leaves the result undefined
inline bool convert(types from, const Num &a, types to, Num &out) {
  if (isf(from) && !isf(to)) {
    double v = a.d;
    if (!(v == v))
      return false;
    double tr = std::trunc(v);
    bool ok = with_type(to, [&](auto z) -> bool {
      using T = decltype(z);
      if constexpr (std::is_floating_point_v<T>)
        return true;
      else {
        double lo = (double)std::numeric_limits<T>::min();
        double hi = std::ldexp(1.0, sizeof(T) * 8 - 1); // exclusive
        return tr >= lo && tr < hi;
      }
    });
    if (!ok)
      return false;
  }
  out = with_type(from, [&](auto f) {
    return with_type(to, [&](auto t) {
      return mkn(static_cast<decltype(t)>(getn<decltype(f)>(a)));
    });
  });
  return true;
}
// a op b in the usual C++ arithmetic, converted to res; false: undefined in C++
inline bool arith(char op, types lt, const Num &a, types rt, const Num &b,
                  types res, Num &out) {
  return with_type(lt, [&](auto lz) -> bool {
    return with_type(rt, [&](auto rz) -> bool {
      using L = decltype(lz);
      using R = decltype(rz);
      using C = decltype(L{} + R{});
      L l = getn<L>(a);
      R r = getn<R>(b);
      C c;
      if constexpr (std::is_integral_v<C>) {
        i128 x = l, y = r, z = 0;
        switch (op) {
        case '+': z = x + y; break;
        case '-': z = x - y; break;
        case '*': z = x * y; break;
        default:
          if (y == 0)
            return false;
          z = x / y;
        }
        if (z < std::numeric_limits<C>::min() || z > std::numeric_limits<C>::max())
          return false;
        c = (C)z;
      } else {
        switch (op) {
        case '+': c = l + r; break;
        case '-': c = l - r; break;
        case '*': c = l * r; break;
        default: c = l / r;
        }
      }
      types ct = std::is_same_v<C, double>  ? INNC::f64
                 : std::is_same_v<C, float> ? INNC::f32
                 : sizeof(C) == 8           ? INNC::i64
                                            : INNC::i32;
      return convert(ct, mkn(c), res, out);
    });
  });
}
inline bool compare(int op, types lt, const Num &a, types rt, const Num &b) {
  return with_type(lt, [&](auto lz) -> bool {
    return with_type(rt, [&](auto rz) -> bool {
      auto l = getn<decltype(lz)>(a);
      auto r = getn<decltype(rz)>(b);
      switch (op) {
      case 0: return l < r;
      case 1: return l > r;
      case 2: return l <= r;
      case 3: return l >= r;
      case 4: return l == r;
      default: return l != r;
      }
    });
  });
}
inline types wider(types a, types b) { return a > b ? a : b; }

// ---- broadcasting ------------------------------------------------------
enum Compat { C_OK, C_BAD, C_OPEN };
inline Compat compat(const Shape &a, const Shape &b, Shape *out = nullptr) {
  size_t n = std::max(a.size(), b.size());
  Shape r(n);
  bool bad = false, open = false;
  for (size_t i = 1; i <= n; ++i) {
    size_t x = i <= a.size() ? a[a.size() - i] : 1;
    size_t y = i <= b.size() ? b[b.size() - i] : 1;
    bool both = i <= a.size() && i <= b.size();
    if (x == y)
      r[n - i] = x;
    else if (x == 1 || y == 1) {
      size_t m = x == 1 ? y : x;
      if (m == 0 && both)
        open = true; // 0 against 1: today rejected, pinned by a test
      r[n - i] = m;
    } else
      bad = true;
  }
  if (out)
    *out = r;
  return bad ? C_BAD : open ? C_OPEN : C_OK;
}

// ---- storage and tensors ------------------------------------------------
struct Store {
  types dt;
  std::vector<Num> v;
  bool zs = false; // the sign of its zeros is not specified (negation, abs, reductions)
  bool frozen = false; // aliasing of some tensor unknown: no in-place updates
};
struct MT;
using MP = std::shared_ptr<MT>;
using Grad = std::vector<double>;
using PushFn = std::function<void(const Grad &g, const Grad &mag,
                                  const std::function<void(size_t input, size_t elem,
                                                           double v, double m)> &push)>;

struct MT : std::enable_shared_from_this<MT> {
  std::shared_ptr<Store> st;
  Shape shape;
  std::vector<size_t> idx;
  types dt;
  int id = 0;
  bool rg = false, retain = false, consumed = false;
  bool fresh_layout = true; // created contiguous
  double err = 0;           // absolute error allowed (order of float summation is free)
  std::vector<MP> in;       // graph inputs (only if part of a graph)
  PushFn push;
  bool has_fn() const { return (bool)push; }
  bool has_grad = false;
  Grad grad, gmag;
  size_t gterms = 1; // bound on the terms added up in one gradient element
  double grad_tol(size_t k) const {
    double rel = all64 && dt == INNC::f64 ? 1e-11 : 1.5e-5 + 1.2e-7 * (double)gterms;
    return 1.2e-6 + rel * gmag[k];
  }
  bool all64 = true; // every tensor with a gradient in the graph behind is f64
  int depth = 0;
  size_t branch = 0; // which side of a kink was taken (abs, max, min)

  size_t n() const { return idx.size(); }
  const Num &at(size_t k) const { return st->v[idx[k]]; }
  double d(size_t k) const { return asd(dt, at(k)); }
  double minabs() const {
    double m = INFINITY;
    for (size_t i = 0; i < n(); ++i)
      m = std::min(m, std::fabs(d(i)));
    return m;
  }
  double maxabs() const {
    double m = 0;
    for (size_t i = 0; i < n(); ++i) {
      double x = std::fabs(d(i));
      if (x > m)
        m = x;
    }
    return m;
  }
};
extern TLS int g_next_id;

inline MP m_new(const Shape &s, types dt) {
  auto m = std::make_shared<MT>();
  m->st = std::make_shared<Store>();
  m->st->dt = dt;
  m->st->v.resize(numel(s));
  m->shape = s;
  m->dt = dt;
  m->idx.resize(numel(s));
  for (size_t i = 0; i < m->idx.size(); ++i)
    m->idx[i] = i;
  m->id = ++g_next_id;
  return m;
}
inline MP m_view(const MP &a, const Shape &s, std::vector<size_t> idx) {
  auto m = std::make_shared<MT>();
  m->st = a->st;
  m->shape = s;
  m->dt = a->dt;
  m->idx = std::move(idx);
  m->id = ++g_next_id;
  m->err = a->err;
  m->fresh_layout = false;
  return m;
}
inline void graph(const MP &r, std::vector<MP> in, PushFn push) {
  bool any = false;
  for (auto &x : in)
    any |= x->rg;
  if (!any)
    return;
  r->rg = true;
  r->all64 = r->dt == INNC::f64;
  for (auto &x : in) {
    if (x->rg) {
      r->all64 &= x->all64 && x->dt == INNC::f64;
      r->depth = std::max(r->depth, x->depth + 1);
    }
  }
  r->in = std::move(in);
  r->push = std::move(push);
}

// broadcast map: for each result element, the logical element of operand
inline std::vector<size_t> bmap(const Shape &res, const Shape &s) {
  size_t n = numel(res);
  std::vector<size_t> out(n);
  if (!n)
    return out;
  Shape c(res.size(), 0);
  for (size_t k = 0; k < n; ++k) {
    size_t p = 0;
    for (size_t i = 0; i < s.size(); ++i) {
      size_t ci = c[res.size() - s.size() + i];
      p = p * s[i] + (s[i] == 1 ? 0 : ci);
    }
    out[k] = p;
    for (size_t j = res.size(); j-- > 0;) {
      if (++c[j] < res[j])
        break;
      c[j] = 0;
    }
  }
  return out;
}

// nullptr: some element undefined in C++
inline MP m_arith(char op, const MP &a, const MP &b) {
  Shape rs;
  compat(a->shape, b->shape, &rs);
  auto r = m_new(rs, wider(a->dt, b->dt));
  auto ma = bmap(rs, a->shape), mb = bmap(rs, b->shape);
  for (size_t k = 0; k < r->n(); ++k)
    if (!arith(op, a->dt, a->at(ma[k]), b->dt, b->at(mb[k]), r->dt, r->st->v[k]))
      return nullptr;
  r->st->zs = a->st->zs || b->st->zs;
  if (op == '/' && b->st->zs && isf(r->dt) && b->n() && b->minabs() == 0)
    return nullptr; // +inf or -inf: either is right
  if (op == '/' && (b->err > 1e-9 * b->minabs() || (a->err > 0 && b->n() && b->minabs() == 0)))
    return nullptr; // ill-conditioned: the order of a summation would show
  if (a->err > 0 || b->err > 0) {
    double A = a->maxabs(), B = b->maxabs();
    if (op == '*')
      r->err = a->err * B + b->err * A;
    else if (op == '/')
      r->err = (a->err + b->err * r->maxabs()) / std::max(b->minabs(), 1e-300);
    else
      r->err = a->err + b->err;
    if (r->dt == INNC::f32)
      r->err += 1.2e-7 * r->maxabs();
    if (std::isnan(r->err)) // infinities among the operands
      return nullptr;
  }
  if (a->rg || b->rg) {
    auto *pa = a.get(), *pb = b.get();
    graph(r, {a, b}, [=](const Grad &g, const Grad &mg, const auto &push) {
      for (size_t k = 0; k < g.size(); ++k) {
        double x = pa->d(ma[k]), y = pb->d(mb[k]);
        double da = 1, db = 1;
        switch (op) {
        case '-': db = -1; break;
        case '*': da = y; db = x; break;
        case '/': da = 1 / y; db = -x / (y * y); break;
        }
        push(0, ma[k], g[k] * da, mg[k] * std::fabs(da));
        push(1, mb[k], g[k] * db, mg[k] * std::fabs(db));
      }
    });
  }
  return r;
}
inline MP m_cmp(int op, const MP &a, const MP &b) {
  Shape rs;
  compat(a->shape, b->shape, &rs);
  auto r = m_new(rs, INNC::i8);
  auto ma = bmap(rs, a->shape), mb = bmap(rs, b->shape);
  for (size_t k = 0; k < r->n(); ++k) {
    r->st->v[k].i = compare(op, a->dt, a->at(ma[k]), b->dt, b->at(mb[k]));
    r->branch = r->branch * 31 + (size_t)r->st->v[k].i;
  }
  return r;
}
inline MP m_neg(const MP &a) {
  auto r = m_new(a->shape, a->dt);
  Num zero;
  for (size_t k = 0; k < r->n(); ++k)
    if (!arith('-', a->dt, zero, a->dt, a->at(k), a->dt, r->st->v[k]))
      return nullptr;
  r->st->zs = true;
  r->err = a->err;
  graph(r, {a}, [](const Grad &g, const Grad &mg, const auto &push) {
    for (size_t k = 0; k < g.size(); ++k)
      push(0, k, -g[k], mg[k]);
  });
  return r;
}
inline MP m_abs(const MP &a) {
  auto r = m_new(a->shape, a->dt);
  std::vector<double> sg(r->n());
  Num zero;
  for (size_t k = 0; k < r->n(); ++k) {
    bool neg = isf(a->dt) ? a->at(k).d < 0 : a->at(k).i < 0;
    sg[k] = neg ? -1 : 1;
    r->branch = r->branch * 2 + neg + (r->branch >> 60);
    if (neg) {
      if (!arith('-', a->dt, zero, a->dt, a->at(k), a->dt, r->st->v[k]))
        return nullptr;
    } else
      r->st->v[k] = a->at(k);
  }
  r->st->zs = true;
  r->err = a->err;
  graph(r, {a}, [sg](const Grad &g, const Grad &mg, const auto &push) {
    for (size_t k = 0; k < g.size(); ++k)
      push(0, k, g[k] * sg[k], mg[k]);
  });
  return r;
}
inline MP m_copy(const MP &a) { // clone / contiguous
  auto r = m_new(a->shape, a->dt);
  for (size_t k = 0; k < r->n(); ++k)
    r->st->v[k] = a->at(k);
  r->st->zs = a->st->zs;
  r->err = a->err;
  graph(r, {a}, [](const Grad &g, const Grad &mg, const auto &push) {
    for (size_t k = 0; k < g.size(); ++k)
      push(0, k, g[k], mg[k]);
  });
  return r;
}
inline MP m_type(const MP &a, types t) {
  auto r = m_new(a->shape, t);
  for (size_t k = 0; k < r->n(); ++k)
    if (!convert(a->dt, a->at(k), t, r->st->v[k]))
      return nullptr;
  r->st->zs = a->st->zs;
  r->err = a->err > 0 && t == INNC::f32 ? a->err + 1.2e-7 * a->maxabs() : a->err;
  graph(r, {a}, [](const Grad &g, const Grad &mg, const auto &push) {
    for (size_t k = 0; k < g.size(); ++k)
      push(0, k, g[k], mg[k]);
  });
  return r;
}
inline void ident_graph(const MP &r, const MP &a, std::vector<size_t> src) {
  if (a->rg)
    graph(r, {a}, [src](const Grad &g, const Grad &mg, const auto &push) {
      for (size_t k = 0; k < g.size(); ++k)
        push(0, src[k], g[k], mg[k]);
    });
}
// view made of logical elements src of a
inline MP m_select(const MP &a, const Shape &s, const std::vector<size_t> &src) {
  std::vector<size_t> idx(src.size());
  for (size_t k = 0; k < src.size(); ++k)
    idx[k] = a->idx[src[k]];
  auto r = m_view(a, s, std::move(idx));
  ident_graph(r, a, src);
  return r;
}
inline MP m_detach(const MP &a) {
  return m_view(a, a->shape, a->idx);
}
inline MP m_transpose(const MP &a, size_t i, size_t j) {
  Shape s = a->shape;
  std::swap(s[i], s[j]);
  size_t n = a->n();
  std::vector<size_t> src(n);
  Shape c(s.size(), 0);
  for (size_t k = 0; k < n; ++k) {
    std::swap(c[i], c[j]);
    size_t p = 0;
    for (size_t d = 0; d < s.size(); ++d)
      p = p * a->shape[d] + c[d];
    std::swap(c[i], c[j]);
    src[k] = p;
    for (size_t d = s.size(); d-- > 0;) {
      if (++c[d] < s[d])
        break;
      c[d] = 0;
    }
  }
  return m_select(a, s, src);
}
inline MP m_reshape(const MP &a, const Shape &s) {
  std::vector<size_t> src(a->n());
  for (size_t k = 0; k < src.size(); ++k)
    src[k] = k;
  return m_select(a, s, src);
}

struct Idx {
  bool is_int = false;
  i128 at = 0;
  std::optional<i128> b, e, s;
};
// The elements a Python slice b:e:s selects from range(n)
inline std::vector<size_t> py_slice(size_t n, const Idx &x) {
  i128 N = n, step = x.s.value_or(1), lo, hi;
  if (step > 0)
    lo = 0, hi = N;
  else
    lo = -1, hi = N - 1;
  auto fix = [&](std::optional<i128> v, i128 dflt) {
    if (!v)
      return dflt;
    i128 r = *v;
    if (r < 0)
      r += N;
    return std::min(std::max(r, lo), hi);
  };
  i128 b = fix(x.b, step > 0 ? lo : hi), e = fix(x.e, step > 0 ? hi : lo);
  std::vector<size_t> out;
  for (i128 i = b; step > 0 ? i < e : i > e; i += step)
    out.push_back((size_t)i);
  return out;
}
// integer indices must be in range
inline MP m_index(const MP &a, const std::vector<Idx> &ix) {
  Shape s;
  std::vector<std::vector<size_t>> sel;
  for (size_t d = 0; d < a->shape.size(); ++d) {
    if (d < ix.size() && ix[d].is_int) {
      i128 v = ix[d].at;
      if (v < 0)
        v += a->shape[d];
      sel.push_back({(size_t)v});
    } else {
      sel.push_back(py_slice(a->shape[d], d < ix.size() ? ix[d] : Idx{}));
      s.push_back(sel.back().size());
    }
  }
  std::vector<size_t> src;
  std::function<void(size_t, size_t)> rec = [&](size_t d, size_t p) {
    if (d == sel.size()) {
      src.push_back(p);
      return;
    }
    for (size_t i : sel[d])
      rec(d + 1, p * a->shape[d] + i);
  };
  rec(0, 0);
  return m_select(a, s, src);
}
inline MP m_cat(const std::vector<MP> &in, size_t dim) {
  Shape s = in[0]->shape;
  types t = in[0]->dt;
  s[dim] = 0;
  for (auto &x : in) {
    s[dim] += x->shape[dim];
    t = wider(t, x->dt);
  }
  auto r = m_new(s, t);
  size_t outer = 1, inner = 1;
  for (size_t d = 0; d < dim; ++d)
    outer *= s[d];
  for (size_t d = dim + 1; d < s.size(); ++d)
    inner *= s[d];
  std::vector<std::vector<size_t>> pos(in.size());
  size_t off = 0;
  for (size_t q = 0; q < in.size(); ++q) {
    auto &x = in[q];
    size_t w = x->shape[dim] * inner;
    pos[q].resize(x->n());
    for (size_t o = 0; o < outer; ++o)
      for (size_t k = 0; k < w; ++k) {
        size_t dst = o * s[dim] * inner + off + k;
        convert(x->dt, x->at(o * w + k), t, r->st->v[dst]);
        pos[q][o * w + k] = dst;
      }
    off += w;
    r->err = std::max(r->err, x->err);
    r->st->zs |= x->st->zs;
  }
  graph(r, in, [pos](const Grad &g, const Grad &mg, const auto &push) {
    for (size_t q = 0; q < pos.size(); ++q)
      for (size_t k = 0; k < pos[q].size(); ++k)
        push(q, k, g[pos[q][k]], mg[pos[q][k]]);
  });
  return r;
}
// sum/mean; nullptr: i64 overflow
inline MP m_sum(const MP &a, bool mean) {
  auto r = m_new({}, isf(a->dt) ? INNC::f64 : INNC::i64);
  r->st->zs = true;
  size_t n = a->n();
  if (isf(a->dt)) {
    double s = 0, m = 0;
    for (size_t k = 0; k < n; ++k)
      s += a->at(k).d, m += std::fabs(a->at(k).d);
    if (mean)
      s /= (double)n;
    r->st->v[0].d = s;
    r->err = n < 2 && a->err == 0 ? 0 : 4.5e-16 * (double)(n + 4) * m + a->err * (double)n;
    if (mean)
      r->err /= (double)n;
  } else {
    i128 s = 0;
    for (size_t k = 0; k < n; ++k) {
      s += a->at(k).i;
      if (s > INT64_MAX || s < INT64_MIN)
        return nullptr;
    }
    r->st->v[0].i = (int64_t)(mean ? s / (i128)n : s);
  }
  double w = mean ? 1.0 / (double)n : 1.0;
  graph(r, {a}, [n, w](const Grad &g, const Grad &mg, const auto &push) {
    for (size_t k = 0; k < n; ++k)
      push(0, k, g[0] * w, mg[0] * w);
  });
  return r;
}
inline size_t m_arg(const MP &a, bool mx, double *gap = nullptr) {
  size_t best = 0;
  for (size_t k = 1; k < a->n(); ++k) {
    bool better = compare(mx ? 1 : 0, a->dt, a->at(k), a->dt, a->at(best));
    if (better)
      best = k;
  }
  if (gap) {
    *gap = INFINITY;
    for (size_t k = 0; k < a->n(); ++k)
      if (k != best)
        *gap = std::min(*gap, std::fabs(a->d(k) - a->d(best)));
  }
  return best;
}
inline MP m_extreme(const MP &a, bool mx) {
  auto r = m_new({}, a->dt);
  size_t k = m_arg(a, mx);
  r->branch = k;
  r->st->v[0] = a->at(k);
  r->st->zs = true;
  r->err = a->err;
  graph(r, {a}, [k](const Grad &g, const Grad &mg, const auto &push) {
    push(0, k, g[0], mg[0]);
  });
  return r;
}
// is the element sequence consecutive ascending in storage?
inline bool m_rowmajor(const MP &a) {
  for (size_t k = 1; k < a->n(); ++k)
    if (a->idx[k] != a->idx[0] + k)
      return false;
  return true;
}

// ---- reverse pass ---------------------------------------------------------
// Returns the visited non-leaf nodes.
inline std::vector<MT *> m_backward(const MP &root) {
  struct Acc {
    Grad g, m;
  };
  std::map<int, std::pair<MP, Acc>, std::greater<int>> work;
  auto touch = [&](const MP &x) -> Acc & {
    auto it = work.find(x->id);
    if (it == work.end()) {
      it = work.emplace(x->id, std::make_pair(x, Acc{Grad(x->n(), 0.0), Grad(x->n(), 0.0)})).first;
    }
    return it->second.second;
  };
  auto &a0 = touch(root);
  for (auto &x : a0.g)
    x = 1;
  for (auto &x : a0.m)
    x = 1;
  std::vector<MT *> seen;
  std::vector<MP> reached;
  size_t terms = 1;
  while (!work.empty()) {
    auto it = work.begin();
    MP x = it->second.first;
    Acc acc = std::move(it->second.second);
    work.erase(it);
    terms = std::max(terms, x->n());
    for (auto &i : x->in)
      terms = std::max(terms, i->n());
    reached.push_back(x);
    if (!x->has_fn()) { // leaf
      if (!x->rg)
        continue;
      if (!x->has_grad) {
        x->has_grad = true;
        x->grad.assign(x->n(), 0);
        x->gmag.assign(x->n(), 0);
      }
      for (size_t k = 0; k < x->n(); ++k)
        x->grad[k] += acc.g[k], x->gmag[k] += acc.m[k];
      continue;
    }
    seen.push_back(x.get());
    if (x->retain) {
      x->has_grad = true;
      x->grad = acc.g;
      x->gmag = acc.m;
    }
    std::vector<Acc *> tgt(x->in.size(), nullptr);
    for (size_t q = 0; q < x->in.size(); ++q)
      if (x->in[q]->rg)
        tgt[q] = &touch(x->in[q]);
    x->push(acc.g, acc.m, [&](size_t q, size_t e, double v, double m) {
      if (tgt[q]) {
        tgt[q]->g[e] += v;
        tgt[q]->m[e] += m;
      }
    });
  }
  bool f64_only = true; // one f32 tensor on the way rounds every gradient below it
  for (auto &x : reached) {
    f64_only &= x->dt == INNC::f64;
    for (auto &i : x->in)
      f64_only &= !i->rg || i->dt != INNC::f32;
  }
  for (auto &x : reached) {
    x->gterms += terms;
    x->all64 &= f64_only;
  }
  return seen;
}
