// One case function per property: generate, run the real library, compare.
#include "props.hpp"
#include "engine.hpp"
#include <array>
#include <atomic>
#include <thread>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void)
    __attribute__((weak));

TLS int g_next_id = 0;
TLS Pert g_pert;
TLS bool g_trace = false;
TLS std::string *g_sample = nullptr;
TLS std::map<std::string, uint64_t> g_labels;
void trace_line(const std::string &s) {
  if (g_trace) {
    printf("  %s\n", s.c_str());
    fflush(stdout);
  }
  if (g_sample && g_sample->size() < 6000)
    *g_sample += s + "\n";
}

// ------------------------------------------------------------ sub-process --
static int g_sub_status = 0;
static std::string sub_process(const std::vector<std::string> &args, const std::string &rd, std::string *err = nullptr) {
  int fd[2], ef[2];
  if (pipe(fd) || pipe(ef))
    return "";
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    dup2(fd[1], 1);
    dup2(ef[1], 2);
    for (int i : {fd[0], fd[1], ef[0], ef[1]})
      close(i);
    setenv("HARNESS_RD", rd.c_str(), 1);
    std::vector<char *> av;
    std::string self = "/proc/self/exe";
    av.push_back(self.data());
    for (auto &a : args)
      av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    execv(self.c_str(), av.data());
    _exit(127);
  }
  close(fd[1]);
  close(ef[1]);
  std::string out;
  char b[4096];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0)
    out.append(b, n);
  std::string e;
  while ((n = read(ef[0], b, sizeof b)) > 0)
    e.append(b, n);
  close(fd[0]);
  close(ef[0]);
  waitpid(p, &g_sub_status, 0);
  if (err)
    *err = e;
  return out;
}

// ------------------------------------------------------------ bad indices --
// An index text that must be rejected for a tensor of shape s.
static std::string bad_index(Gen &G, const Shape &s) {
  Tape &T = G.T;
  for (;;) {
    std::vector<std::string> e;
    auto ix = G.index_for(s);
    for (auto &x : ix)
      e.push_back(G.entry_text(x));
    auto join = [&] {
      std::string r;
      for (size_t i = 0; i < e.size(); ++i)
        r += (i ? "," : "") + e[i];
      return r;
    };
    int kind = (int)T.draw(6);
    if (kind == 0) { // too many entries
      size_t k = s.size() + 1 + T.draw(2);
      while (e.size() < k)
        e.insert(e.begin() + T.draw(e.size() + 1), T.draw(2) ? "0" : ":");
      return join();
    }
    if (s.empty()) {
      // a scalar has no axis to index
      static const char *bad[] = {"0", ":", "-1", "0:1", "x", "::1", "1,2"};
      return bad[T.draw(7)];
    }
    while (e.size() < s.size() && T.draw(2))
      e.push_back(":");
    if (e.empty())
      e.push_back(":");
    size_t d = T.draw(e.size());
    long long n = (long long)s[d];
    switch (kind) {
    case 1: { // integer out of range
      long long off = T.draw(4) ? (long long)T.draw(3) : (1ll << T.draw(62));
      e[d] = G.int_text(T.chance(25) ? G.wrapping(n) : T.draw(2) ? (i128)n + off : -(i128)n - 1 - off);
      return join();
    }
    case 2: // zero step
      if (n == 0)
        continue;
      {
        Idx x;
        if (T.draw(2))
          x.b = T.range(-n - 1, n + 1);
        if (T.draw(2))
          x.e = T.range(-n - 1, n + 1);
        x.s = 0;
        e[d] = G.entry_text(x);
      }
      return join();
    case 3: { // too many colons
      std::string p[4];
      for (auto &q : p)
        if (T.draw(2))
          q = std::to_string(T.range(-2, 3));
      if (p[2] == "0")
        p[2] = "1";
      e[d] = p[0] + ":" + p[1] + ":" + p[2] + ":" + p[3];
      if (T.chance(20))
        e[d] += ":";
      return join();
    }
    case 4: { // a number with junk in or around it
      static const char *junk[] = {"1x",  "x1",  "0x1", "1.0", "1e0", "1 0", "--1",
                                   "+-1", "- 1", "a",   "-",   "+",   "1;",  "(0)",
                                   "[0]", "1-",  "0-1", "None", "1'",  "1_0", "0b1",
                                   "1/1", "$",   "0 :", "..."};
      std::string j = junk[T.draw(25)];
      if (j == "0 :")
        j = "0 0";
      int part = (int)T.draw(4);
      std::string b = T.draw(2) ? "0" : "", en = T.draw(2) ? "1" : "";
      switch (part) {
      case 0: e[d] = j; break;
      case 1: e[d] = j + ":" + en; break;
      case 2: e[d] = b + ":" + j; break;
      default: e[d] = b + ":" + en + ":" + j; break;
      }
      return join();
    }
    default: { // one random character spoils a number
      std::string num = G.i128s(T.range(-n, n ? n - 1 : 0));
      static const char bad[] = "abcxyzEe._;/*()[]{}'\"!?#%&=<>^~|\\";
      size_t at = T.draw(num.size() + 1);
      num.insert(at, 1, bad[T.draw(sizeof(bad) - 1)]);
      e[d] = T.draw(3) == 0 ? num : T.draw(2) ? num + ":" : ":" + num;
      return join();
    }
    }
  }
}

// ------------------------------------------------------- invalid requests --
static HP incompatible_for(Engine &E, const HP &a) {
  Tape &T = E.T;
  if (T.chance(40)) {
    HP b = E.choose([&](const HP &h) { return compat(a->m->shape, h->m->shape) == C_BAD; });
    if (b)
      return b;
  }
  std::vector<size_t> dims;
  const Shape &s = a->m->shape;
  for (size_t d = 0; d < s.size(); ++d)
    if (s[d] != 1)
      dims.push_back(d);
  if (dims.empty())
    return nullptr;
  size_t d = T.pick(dims);
  Shape r = E.G.partner(s);
  // align: keep only dimensions from the right; make sure d is covered
  size_t need = s.size() - d;
  while (r.size() < need)
    r.insert(r.begin(), s[s.size() - r.size() - 1]);
  size_t &x = r[r.size() - need];
  static const int delta[] = {1, -1, 2, 3, -2};
  long long v = (long long)s[d] + delta[T.draw(5)];
  if (v < 2)
    v = (long long)s[d] == 2 ? 3 : 2;
  x = (size_t)v;
  if (T.chance(8) && s[d] != 0)
    x = 0;
  if (compat(s, r) != C_BAD || numel(r) > 4000)
    return nullptr;
  bool leaf = E.cfg.w[O_LEAF] && T.chance(30);
  return E.make(r, leaf ? E.G.float_type() : E.rnd_type(), P_SMALL, leaf);
}

// The x with odd * x == 1 modulo 2^64.
static uint64_t inverse(uint64_t odd) {
  uint64_t x = odd;
  for (int i = 0; i < 6; ++i)
    x *= 2 - odd * x;
  return x;
}

bool Engine::rnd_error() {

  switch (T.weighted({6, 5, 2, 4, 5, 2, 1, 2, 3, 1, 2, 1})) {
  case 0: { // shapes that do not broadcast
    HP a = any();
    HP b = incompatible_for(*this, a);
    if (!b)
      return false;
    if (T.draw(2))
      std::swap(a, b);
    int k = (int)T.draw(12);
    static const char *n[] = {"<", ">", "<=", ">=", "==", "!=", "+", "-", "*", "/", "+=", "+="};
    must_throw([&] {
      Tensor r;
      switch (k) {
      case 0: r = a->t < b->t; break;
      case 1: r = a->t > b->t; break;
      case 2: r = a->t <= b->t; break;
      case 3: r = a->t >= b->t; break;
      case 4: r = a->t == b->t; break;
      case 5: r = a->t != b->t; break;
      case 6: r = a->t + b->t; break;
      case 7: r = a->t - b->t; break;
      case 8: r = a->t * b->t; break;
      case 9: r = a->t / b->t; break;
      default: a->t += b->t;
      } },
      nm(a) + shape_str(a->m->shape) + " " + n[k] + " " + nm(b) + shape_str(b->m->shape));
    label("reject broadcast");
    return true;
  }
  case 1: { // impossible reshapes
    HP a = any();
    size_t n = a->m->n();
    if (n > 4096)
      return false;
    Shape s = G.shape_of(n);
    std::vector<long long> v(s.begin(), s.end());
    auto prod = [&] {
      long long p = 1;
      for (auto x : v)
        p *= x;
      return p;
    };
    switch (T.draw(6)) {
    case 5: { // a count that is right modulo 2^64 only
      if (n % 4 == 0 && T.draw(2)) {
        int j = 2;
        while (j < 60 && n % ((size_t)2 << j) == 0 && T.draw(16))
          ++j;
        v = {1ll << j, (long long)((n >> j) + ((uint64_t)(1 + T.draw(j > 2 ? 3 : 1)) << (64 - j)))};
      } else {
        uint64_t odd = 3 + 2 * T.draw(100);
        v = {(long long)odd, (long long)(inverse(odd) * n)};
      }
      if (T.draw(3) == 0) { // the part that -1 infers from wraps
        uint64_t odd = 3 + 2 * T.draw(100);
        v = {(long long)odd, (long long)inverse(odd), -1};
      }
      std::swap(v[0], v[T.draw(v.size())]);
      for (size_t e = T.draw(3); e--;)
        v.insert(v.begin() + T.draw(v.size() + 1), 1);
      unsigned __int128 p = 1;
      bool wraps = false, bad = false, minus = false;
      for (auto x : v) {
        if (x == -1) {
          minus = true;
          continue;
        }
        bad |= x <= 0;
        p *= (uint64_t)x;
        wraps |= p >> 64 != 0;
      }
      if (bad)
        return false;
      if (!wraps && (minus || (size_t)p == n))
        return false;
      break;
    }
    case 0: // wrong count
      if (v.empty())
        v.push_back(n == 2 ? 3 : 2);
      else if (T.chance(15) && n != 1)
        v.clear();
      else {
        size_t d = T.draw(v.size());
        v[d] += 1 + T.draw(3);
        if (prod() == (long long)n)
          v.push_back(2);
        if (prod() == (long long)n)
          v.assign(1, (long long)n + 1);
      }
      break;
    case 1: // several -1
      while (v.size() < 2)
        v.push_back(1);
      {
        size_t i = T.draw(v.size()), j = (i + 1 + T.draw(v.size() - 1)) % v.size();
        v[i] = v[j] = -1;
      }
      break;
    case 2: { // other negative sizes
      if (v.empty())
        v.push_back(1);
      size_t d = T.draw(v.size());
      v[d] = v[d] > 1 ? -v[d] : -2 - (long long)T.draw(3);
      if (v.size() >= 2 && T.draw(2)) { // the product may even come out right
        size_t e = (d + 1 + T.draw(v.size() - 1)) % v.size();
        v[e] = v[e] > 1 ? -v[e] : -2;
      } else if (v.size() >= 2 && T.draw(2)) {
        size_t e = (d + 1 + T.draw(v.size() - 1)) % v.size();
        v[e] = -1;
      }
      break;
    }
    case 3: // -1 with a remainder
      if (n == 0)
        return false;
      v.assign(1 + T.draw(2), -1);
      if (v.size() == 2)
        v[1] = 1;
      v.insert(v.begin() + T.draw(v.size() + 1), (long long)(n + 1 + T.draw(3)));
      break;
    default: // -1 next to a zero size
      v.assign(2 + T.draw(2), -1);
      {
        size_t d = T.draw(v.size());
        for (size_t i = 0; i < v.size(); ++i)
          if (i != d)
            v[i] = i == (d + 1) % v.size() ? 0 : (long long)T.draw(4);
      }
    }
    SignedVec sv;
    std::string t;
    for (auto x : v) {
      sv.push_back(x);
      t += (t.empty() ? "" : ",") + std::to_string(x);
    }
    int form = (int)T.draw(2);
    must_throw([&] {
      Tensor r;
      if (form)
        r = Tensor::reshape(a->t, sv);
      else
        r = a->t.reshape(sv); },
      nm(a) + shape_str(a->m->shape) + ".reshape({" + t + "})");
    label("reject reshape");
    return true;
  }
  case 2: { // transpose axes
    HP a = any();
    size_t n = a->m->shape.size(), i, j;
    if (n && T.draw(2))
      i = j = T.draw(n);
    else {
      i = n ? T.draw(n) : 0;
      j = T.draw(4) ? n + T.draw(2) : (T.draw(2) ? (size_t)-1 : (size_t)1 << 32);
      if (T.draw(2))
        std::swap(i, j);
    }
    int form = (int)T.draw(2);
    must_throw([&] {
      Tensor r;
      if (form)
        r = INNC::transpose(a->t, i, j);
      else
        r = a->t.transpose(i, j); },
      nm(a) + shape_str(a->m->shape) + ".transpose(" + std::to_string(i) + "," + std::to_string(j) + ")");
    label("reject transpose");
    return true;
  }
  case 3: { // cat
    std::vector<HP> in;
    size_t dim = 0;
    switch (T.draw(4)) {
    case 0: dim = T.draw(3); break; // nothing to join
    case 1: {                       // axis out of range
      HP a = any();
      size_t k = 1 + T.draw(3);
      in.assign(k, a);
      dim = a->m->shape.size() + (T.draw(4) ? T.draw(2) : (size_t)1 << 32);
      break;
    }
    case 2: { // another rank
      HP a = choose([](const HP &h) { return !h->m->shape.empty(); });
      if (!a)
        return false;
      Shape s = a->m->shape;
      if (T.draw(2))
        s.erase(s.begin() + T.draw(s.size()));
      else
        s.insert(s.begin() + T.draw(s.size() + 1), 1 + T.draw(2));
      HP b = make(s, rnd_type(), P_SMALL, false);
      dim = T.draw(a->m->shape.size());
      in = {a, b};
      if (T.chance(40))
        in.insert(in.begin() + 1, a); // the first neighbours still agree
      if (T.draw(2) && dim < s.size())
        std::swap(in.front(), in.back());
      break;
    }
    default: { // a size off the axis differs
      HP a = choose([](const HP &h) { return h->m->shape.size() >= 2; });
      if (!a)
        return false;
      Shape s = a->m->shape;
      dim = T.draw(s.size());
      size_t d = (dim + 1 + T.draw(s.size() - 1)) % s.size();
      s[d] = T.draw(3) == 0 && s[d] != 1 ? 1 : T.draw(3) == 0 && s[d] ? 0 : s[d] + 1 + T.draw(2);
      if (numel(s) > 4000)
        return false;
      if (T.draw(2))
        s[dim] = T.draw(4);
      HP b = make(s, rnd_type(), P_SMALL, false);
      in = {a, b};
      for (size_t k = T.draw(3); k--;)
        in.insert(in.begin() + T.draw(in.size()), a);
      if (T.draw(2))
        std::swap(in[T.draw(in.size())], in.back());
    }
    }
    std::string d;
    for (auto &h : in)
      d += (d.empty() ? "" : ",") + nm(h) + shape_str(h->m->shape);
    must_throw([&] {
      std::vector<Tensor> v(in.size());
      for (size_t i = 0; i < in.size(); ++i)
        v[i] = in[i]->t;
      Tensor r = Tensor::cat(v, dim); },
      "cat({" + d + "}, " + std::to_string(dim) + ")");
    label("reject cat");
    return true;
  }
  case 4: {
    HP a = any();
    std::string t = bad_index(G, a->m->shape);
    must_throw([&] { Tensor r = a->t[t]; },
               nm(a) + shape_str(a->m->shape) + "[\"" + t + "\"]");
    label("reject index");
    return true;
  }
  case 5: {
    HP a = choose([](const HP &h) { return h->m->rg; });
    if (!a)
      return false;
    HP b = T.draw(2) ? partner_for(a) : make({}, rnd_type(), P_SMALL, false);
    must_throw([&] { a->t += b->t; }, nm(a) + " += " + nm(b));
    label("reject += on grad");
    return true;
  }
  case 6: {
    HP a = choose([](const HP &h) { return !isf(h->m->dt); });
    if (!a)
      a = make(G.shape(), (types)T.draw(4), P_SMALL, false);
    must_throw([&] { a->t.requires_grad(true); }, nm(a) + ".requires_grad(true)");
    label("reject integer grad");
    return true;
  }
  case 7: {
    HP a = choose([](const HP &h) { return h->m->rg; });
    if (!a)
      return false;
    types t = (types)T.draw(4);
    must_throw([&] { Tensor r = a->t.type(t); }, nm(a) + ".type(" + tname(t) + ")");
    label("reject integer cast of grad");
    return true;
  }
  case 8: {
    HP a = choose([](const HP &h) { return !h->m->has_fn() || !h->m->rg || h->m->n() != 1; });
    if (!a)
      return false;
    must_throw([&] { a->t.backward(); }, nm(a) + shape_str(a->m->shape) + ".backward()");
    label("reject backward");
    return true;
  }
  case 9: {
    types t = (types)T.draw(4);
    if (T.draw(2)) {
      Shape s = G.shape();
      must_throw([&] { Tensor r = Tensor::randn(to_sv(s), t); },
                 "randn(" + shape_str(s) + ", " + tname(t) + ")");
    } else {
      HP a = choose([](const HP &h) { return !isf(h->m->dt); });
      if (!a)
        return false;
      must_throw([&] { Tensor r = Tensor::randn_like(a->t); }, "randn_like(" + nm(a) + ")");
    }
    label("reject integer randn");
    return true;
  }
  case 11: { // shapes that no memory can hold
    types t = rnd_type();
    size_t b = INNC::size_of(t);
    Shape s;
    switch (T.draw(4)) {
    case 0: { // the element count wraps
      uint64_t odd = 3 + 2 * T.draw(1000);
      s = {(size_t)odd, (size_t)(inverse(odd) * T.draw(65))};
      break;
    }
    case 1: {
      int a = 1 + (int)T.draw(63);
      s = {(size_t)1 << a, (size_t)1 << (64 - a)};
      if (T.draw(2))
        s.push_back(1 + T.draw(5));
      break;
    }
    case 2: { // the byte count wraps
      if (b == 1)
        return false;
      size_t n = ((size_t)1 << 63) / b * 2 * (1 + T.draw(b - 1));
      if (T.draw(2))
        s = {n + T.draw(9)};
      else {
        int a = (int)T.draw(40);
        s = {n >> a, (size_t)1 << a};
      }
      break;
    }
    default: // more than there is
#ifdef TSAN
      return false;
#endif
      s = {(size_t)1 << (44 + T.draw(15)), 1 + T.draw(3)};
    }
    std::swap(s[0], s[T.draw(s.size())]);
    unsigned __int128 p = 1;
    bool big = false;
    for (auto x : s) {
      if (x == 0)
        return false;
      p *= x;
      big |= p > (unsigned __int128)1 << 43;
      if (big)
        break;
    }
    if (!big)
      return false;
    int k = (int)T.draw(6);
    static char blob[4096];
    static const char *n[] = {"zeros", "ones", "full(5)", "full(2.5)", "Tensor", "from_blob"};
    if (s.size() == 2 && T.draw(4) == 0)
      must_throw([&] { Tensor r = Tensor::eye(s[0], s[1], t); }, "eye(" + shape_str(s) + ", " + tname(t) + ")");
    else if (isf(t) && T.draw(4) == 0)
      must_throw([&] { Tensor r = Tensor::randn(to_sv(s), t); }, "randn(" + shape_str(s) + ", " + tname(t) + ")");
    else
      must_throw([&] {
        Tensor r;
        switch (k) {
        case 0: r = Tensor::zeros(to_sv(s), t); break;
        case 1: r = Tensor::ones(to_sv(s), t); break;
        case 2: r = Tensor::full(to_sv(s), (int64_t)5, t); break;
        case 3: r = Tensor::full(to_sv(s), 2.5, t); break;
        case 4: r = Tensor(to_sv(s), t); break;
        default: r = Tensor::from_blob(blob, to_sv(s), t);
        } },
        std::string(n[k]) + "(" + shape_str(s) + ", " + tname(t) + ")");
    label("reject size");
    return true;
  }
  default: {
    extern bool bad_init(Engine &);
    return bad_init(*this);
  }
  }
}

// -------------------------------------------------- nested initialiser lists --
namespace {
struct Node {
  std::vector<Node> kids;
  std::vector<Num> v;
  bool leaf = false;
  types t = INNC::i32;
};
template <class T> INNC::TensorInit leaf_init(const Node &n) {
  auto g = [&](size_t i) { return getn<T>(n.v[i]); };
  using L = std::initializer_list<T>;
  switch (n.v.size()) {
  case 0: return INNC::TensorInit(L{});
  case 1: return INNC::TensorInit(L{g(0)});
  case 2: return INNC::TensorInit(L{g(0), g(1)});
  case 3: return INNC::TensorInit(L{g(0), g(1), g(2)});
  case 4: return INNC::TensorInit(L{g(0), g(1), g(2), g(3)});
  default: return INNC::TensorInit(L{g(0), g(1), g(2), g(3), g(4)});
  }
}
INNC::TensorInit build(const Node &n) {
  if (n.leaf)
    return with_type(n.t, [&](auto z) { return leaf_init<decltype(z)>(n); });
  using L = std::initializer_list<INNC::TensorInit>;
  auto &k = n.kids;
  switch (k.size()) {
  case 1: return INNC::TensorInit(L{build(k[0])});
  case 2: return INNC::TensorInit(L{build(k[0]), build(k[1])});
  case 3: return INNC::TensorInit(L{build(k[0]), build(k[1]), build(k[2])});
  default: return INNC::TensorInit(L{build(k[0]), build(k[1]), build(k[2]), build(k[3])});
  }
}
std::string show(const Node &n) {
  std::string r = "{";
  if (n.leaf) {
    for (size_t i = 0; i < n.v.size(); ++i)
      r += (i ? "," : "") + num_str(n.t, n.v[i]);
    return r + "}:" + tname(n.t);
  }
  for (size_t i = 0; i < n.kids.size(); ++i)
    r += (i ? "," : "") + show(n.kids[i]);
  return r + "}";
}
// shape: inner dims; fills from flat values
Node nest(const Shape &s, size_t d, types t, const std::vector<Num> &v, size_t &p) {
  Node n;
  n.t = t;
  if (d + 1 == s.size()) {
    n.leaf = true;
    for (size_t i = 0; i < s[d]; ++i)
      n.v.push_back(v[p++]);
    return n;
  }
  for (size_t i = 0; i < s[d]; ++i)
    n.kids.push_back(nest(s, d + 1, t, v, p));
  return n;
}
Shape init_shape(Tape &T) {
  Shape s;
  size_t d = 1 + T.draw(4);
  for (size_t i = 0; i + 1 < d; ++i)
    s.push_back(1 + T.draw(i < 2 ? 4 : 2));
  s.push_back(T.chance(6) ? 0 : 1 + T.draw(5));
  return s;
}
} // namespace

bool bad_init(Engine &E) {
  Tape &T = E.T;
  Shape s = init_shape(T);
  if (s.size() == 1)
    s.insert(s.begin(), 2 + T.draw(2));
  if (s[s.size() - 2] < 2)
    s[s.size() - 2] = 2;
  types t = E.G.any_type();
  auto st = E.G.style(t, P_SMALL);
  std::vector<Num> v(numel(s));
  for (auto &x : v)
    x = E.G.num(t, st);
  size_t p = 0;
  Node root = nest(s, 0, t, v, p);
  // spoil one of at least two siblings
  Node *at = &root;
  std::vector<Node *> cand;
  while (!at->leaf) {
    if (at->kids.size() >= 2)
      cand.push_back(&at->kids[T.draw(at->kids.size())]);
    at = &at->kids[T.draw(at->kids.size())];
  }
  Node *x = cand[T.draw(cand.size())];
  if (T.draw(2)) { // another type below it
    types t2 = (types)((t + 1 + T.draw(5)) % 6);
    std::function<void(Node &)> set = [&](Node &n) {
      n.t = t2;
      for (auto &q : n.v)
        q = isf(t2) ? mkn(1.0) : mkn((int64_t)1);
      for (auto &k : n.kids)
        set(k);
    };
    set(*x);
  } else { // another shape below it
    if (T.draw(2) && !x->leaf) {
      if (x->kids.size() >= 2 && T.draw(2))
        x->kids.pop_back();
      else if (x->kids.size() < 4) {
        Node c = x->kids[0];
        x->kids.push_back(c);
      } else
        x->kids.pop_back();
    } else if (!x->leaf && T.draw(2)) { // another depth
      Node c = x->kids[0];
      while (!c.leaf) {
        Node inner = c.kids[0];
        c = inner;
      }
      *x = c;
    } else {
      std::function<void(Node &)> cut = [&](Node &n) {
        if (n.leaf) {
          if (n.v.size() >= 2)
            n.v.pop_back();
          else
            n.v.resize(n.v.size() + 2);
        }
        for (auto &k : n.kids)
          cut(k);
      };
      cut(*x);
    }
  }
  E.must_throw([&] { Tensor r(build(root)); }, "Tensor" + show(root));
  label("reject initialiser");
  return true;
}

// A handle is bound to fresh data; whatever it held before must not change.
bool Engine::reinit(HP b) {
  Shape s = b->m->shape;
  types t = b->m->dt;
  bool fits = !s.empty() && s.back() <= 5;
  for (size_t d = 0; d + 1 < s.size(); ++d)
    fits &= s[d] >= 1 && s[d] <= 4;
  if (s.empty() && T.chance(70)) { // a scalar
    auto m = m_new({}, t);
    m->st->v[0] = G.num(t, G.style(t, P_SMALL));
    TR(nm(b) + " := " + num_str(t, m->at(0)) + "  // handle overwritten");
    with_type(t, [&](auto z) {
      b->t = getn<decltype(z)>(m->at(0));
      if (cfg.dual)
        b->t2 = getn<decltype(z)>(m->at(0));
      return 0;
    });
    b->m = m;
    ++n_drop;
    return true;
  }
  if (!fits || T.chance(20)) {
    s = init_shape(T);
    if (T.draw(2))
      t = rnd_type();
  }
  auto m = m_new(s, t);
  auto st = G.style(t, P_SMALL);
  for (auto &x : m->st->v)
    x = G.num(t, st);
  size_t p = 0;
  Node root = nest(s, 0, t, m->st->v, p);
  int how = (int)T.draw(3);
  TR(nm(b) + " := " + show(root) + "  // handle overwritten");
  auto set = [&](Tensor &x) {
    if (how == 0)
      x = build(root);
    else if (how == 1) {
      Tensor y(build(root));
      x = y;
    } else
      x = Tensor(build(root));
  };
  set(b->t);
  if (cfg.dual)
    set(b->t2);
  b->m = m;
  ++n_drop;
  return true;
}

// ================================================================ C01 =======
static Prof some_prof(Tape &T, bool special) {
  return (Prof)(int[]){P_SMALL, P_WIDE, P_SPECIAL}[T.weighted({3, 5, special ? 2 : 0})];
}
// an operand pair for op whose elements are all defined in C++
static void pair_for(Engine &E, char op, HP &a, HP &b) {
  Tape &T = E.T;
  Shape s = E.G.shape();
  types ta = E.G.any_type(), tb = T.draw(3) == 0 ? ta : E.G.any_type();
  Prof p = some_prof(T, true);
  a = E.make(s, ta, p);
  int how = (int)T.weighted({10, 1, 2});
  if (how == 1)
    b = a;
  else if (how == 2 && s.size() >= 1 && a->m->n()) { // a view of the very same data
    auto ix = E.G.index_for(s, false);
    b = E.index_op(a, ix, E.G.index_text(ix));
    if (compat(a->m->shape, b->m->shape) != C_OK)
      b = nullptr;
  }
  if (b && m_arith(op, a->m, b->m))
    return;
  Shape sb = E.G.partner(s);
  auto st = E.G.style(tb, p);
  std::vector<Num> v(numel(sb));
  for (auto &x : v)
    x = E.G.num(tb, st);
  if (op == '/' && !isf(tb) && !isf(ta))
    for (auto &x : v)
      if (x.i == 0)
        x.i = 1;
  b = E.make_vals(sb, tb, v, st, false);
  if (m_arith(op, a->m, b->m))
    return;
  b = E.make(sb, tb, P_GRAD);
  if (m_arith(op, a->m, b->m))
    return;
  a = E.make(s, ta, P_GRAD);
}
static bool run_C01(Tape &T) {
  Cfg c;
  c.check_all = false;
  Engine E(T, c);
  E.G.extreme = true;
  E.G.huge = true;
  E.G.cap = 40;
  int k = 1 + (int)T.draw(3);
  for (int i = 0; i < k; ++i) {
    int o = (int)T.weighted({4, 4, 4, 4, 2, 1, 3});
    if (o < 4) {
      HP a, b;
      pair_for(E, "+-*/"[o], a, b);
      if (T.draw(2) && "+-*/"[o] != '/')
        std::swap(a, b);
      if (E.arith_op("+-*/"[o], a, b))
        label("binary");
    } else {
      HP a = E.make(E.G.shape(), E.G.any_type(), some_prof(T, true));
      HP r;
      if (o == 4)
        r = E.neg_op(a);
      else if (o == 5)
        E.do_op(O_POS);
      else
        r = E.abs_op(a);
      if (r && !m_rowmajor(a->m))
        label("unary on a view");
      E.n_mixed += !isf(a->m->dt);
    }
  }
  E.verify_all();
  if (E.n_bcast)
    label("broadcast");
  if (E.n_mixed)
    label("mixed types");
  if (E.n_noncontig)
    label("strided operand");
  return E.n_ops > 0 && (E.n_bcast || E.n_mixed || E.n_noncontig);
}

// ================================================================ C02 =======
static bool run_C02(Tape &T) {
  Cfg c;
  Engine E(T, c);
  E.G.extreme = true;
  E.G.huge = true;
  E.G.cap = 40;
  bool nt = false;
  if (T.chance(60)) {
    Shape s = E.G.shape();
    types ta = E.G.any_type(), tb = T.draw(3) == 0 ? ta : E.G.any_type();
    Prof p = some_prof(T, true);
    HP a = E.make(s, ta, p);
    Shape sb = E.G.partner(s), rs;
    compat(s, sb, &rs);
    auto st = E.G.style(tb, p);
    std::vector<Num> v(numel(sb));
    // often equal, or off by very little
    for (size_t i = 0; i < v.size(); ++i) {
      v[i] = E.G.num(tb, st);
      if (a->m->n() && T.chance(50)) {
        Num x;
        size_t src = a->m->n() == v.size() ? i : T.draw(a->m->n());
        if (convert(ta, a->m->at(src), tb, x)) {
          v[i] = x;
          if (T.chance(40)) {
            if (!isf(tb)) {
              int64_t q = x.i + (T.draw(2) ? 1 : -1);
              if (std::llabs(x.i) < INT64_MAX - 2)
                v[i] = with_type(tb, [&](auto z) { return mkn((decltype(z))q); });
            } else if (std::isfinite(x.d)) {
              double dir = T.draw(2) ? INFINITY : -INFINITY;
              v[i].d = tb == INNC::f32 ? (double)std::nextafterf((float)x.d, (float)dir)
                                       : std::nextafter(x.d, dir);
            }
          }
        }
      }
    }
    HP b = T.chance(6) ? a : E.make_vals(sb, tb, v, st, false);
    int first = (int)T.draw(6);
    std::string seen;
    for (int q = 0; q < 2 + (int)T.draw(2); ++q) {
      int k = (first + q * 5) % 6;
      HP x = a, y = b;
      if (T.draw(2))
        std::swap(x, y);
      HP r = E.cmp_op(k, x, y);
      if (!r)
        continue;
      bool one = false, zero = false;
      for (size_t i = 0; i < r->m->n(); ++i)
        (r->m->at(i).i ? one : zero) = true;
      nt |= one && zero;
      if (T.chance(30)) {
        E.do_op(O_ALL);
      }
      // and the truth value of the whole comparison
      bool want = !zero, got = r->t.all();
      TR(E.nm(r) + ".all()");
      if (got != want)
        throw Fail{E.nm(r) + ".all() is " + std::to_string(got) + ", expected " + std::to_string(want)};
    }
    label("comparison");
  } else {
    // all() on tensors that are nearly all non-zero
    Shape s = E.G.shape();
    types t = E.G.any_type();
    auto st = E.G.style(t, P_WIDE);
    auto pst = E.G.style(t, P_SMALL);
    std::vector<Num> v(numel(s));
    for (auto &x : v) {
      uint64_t k = T.draw(6);
      if (!isf(t)) {
        int w = t == INNC::i8 ? 7 : t == INNC::i16 ? 15 : t == INNC::i32 ? 31 : 63;
        x = E.G.num(t, st);
        if (k < 3)
          x.i = 1ll << T.draw(w); // only one byte of it is non-zero
        if (x.i == 0)
          x.i = 1;
      } else {
        static const double sp[] = {1, -1, 0.5, 1e-30, INFINITY, NAN, 2, 256, -0.25, 1e30};
        x.d = sp[T.draw(10)];
        if (t == INNC::f32)
          x.d = (float)x.d;
      }
    }
    if (!v.empty() && T.chance(55)) {
      Num &z = v[T.chance(35) ? v.size() - 1 : T.draw(v.size())];
      z = Num{};
      if (isf(t) && T.draw(2))
        z.d = -0.0;
    }
    HP a = E.make_vals(s, t, v, pst, false);
    E.do_op(O_ALL);
    if (T.draw(2)) {
      auto ix = E.G.index_for(s);
      E.index_op(a, ix, E.G.index_text(ix));
      E.do_op(O_ALL);
    }
    label("all()");
    if (!m_rowmajor(a->m))
      label("all() of a strided view");
    nt = a->m->n() > 1;
  }
  E.verify_all();
  return nt;
}

// ================================================================ C03 =======
static bool run_C03(Tape &T) {
  Cfg c;
  Engine E(T, c);
  E.G.huge = true;
  E.G.cap = 60;
  types t = E.G.any_type();
  Prof p = T.draw(3) == 0 ? P_SMALL : P_WIDE;
  Shape s = E.G.shape();
  auto st = E.G.style(t, p);
  std::vector<Num> v(numel(s));
  for (auto &x : v)
    x = E.G.num(t, st);
  int sign = (int)T.draw(5); // one-sided data makes the starting value matter
  if (sign >= 3)
    for (auto &x : v) {
      bool neg = sign == 4;
      if (isf(t)) {
        x.d = neg ? -std::fabs(x.d) - 1 : std::fabs(x.d) + 1;
        if (t == INNC::f32)
          x.d = (float)x.d;
      } else
        x = with_type(t, [&](auto z) {
          using Q = decltype(z);
          if constexpr (std::is_integral_v<Q>) {
            Q q = (Q)x.i;
            Q m = (Q)(q & (Q)(std::numeric_limits<Q>::max() >> 1));
            return mkn((Q)(neg ? -m - 1 : m + 1));
          } else
            return mkn(z);
        });
    }
  auto pst = E.G.style(t, P_WIDE); // what lies outside the view is extreme
  HP a = E.make_vals(s, t, v, pst, false);
  bool nt = false;
  int first = (int)T.draw(4);
  for (int q = 0; q < 4; ++q) {
    int k = (first + q) % 4;
    HP r = k < 2 ? E.sum_op(a, k == 1) : E.ext_op(a, k == 2);
    if (r && a->m->n() > 1)
      nt = true;
  }
  if (T.draw(2)) {
    auto ix = E.G.index_for(s);
    HP b = E.index_op(a, ix, E.G.index_text(ix));
    E.sum_op(b, false);
    E.sum_op(b, true);
    E.ext_op(b, true);
    E.ext_op(b, false);
  }
  E.verify_all();
  label(tname(t));
  if (!m_rowmajor(a->m))
    label("strided view");
  if (sign == 4)
    label("all negative");
  return nt;
}

// ================================================================ C04 =======
static bool run_C04(Tape &T) {
  Cfg c;
  Engine E(T, c);
  E.G.huge = true;
  E.G.cap = 150;
  Shape s = E.G.shape();
  auto st = Gen::Style{};
  types t = E.G.any_type();
  std::vector<Num> v(numel(s));
  for (size_t i = 0; i < v.size(); ++i) // every element recognisable
    v[i] = with_type(t, [&](auto z) { return mkn((decltype(z))(i + 1)); });
  bool leaf = isf(t) && T.chance(15);
  HP a = E.make_vals(s, t, v, st, leaf);
  int k = 1 + (int)T.draw(3);
  bool nt = false;
  for (int i = 0; i < k; ++i) {
    if (T.chance(30)) {
      std::string x = bad_index(E.G, a->m->shape);
      E.must_throw([&] { Tensor r = a->t[x]; },
                   E.nm(a) + shape_str(a->m->shape) + "[\"" + x + "\"]");
      label("rejected");
      nt = true;
      continue;
    }
    auto ix = E.G.index_for(a->m->shape);
    HP b = E.index_op(a, ix, E.G.index_text(ix));
    if (b->m->n() && (b->m->n() != a->m->n() || b->m->idx != a->m->idx)) {
      nt = true;
      label("proper selection");
    }
    if (b->m->n() == 0)
      label("empty selection");
    for (auto &x : ix)
      if (x.s && *x.s < 0) {
        label("negative step");
        break;
      }
    if (T.chance(20) && b->m->shape.size() >= 2) {
      size_t n = b->m->shape.size(), p = T.draw(n), q = (p + 1 + T.draw(n - 1)) % n;
      b = E.transpose_op(b, p, q);
    }
    a = b;
  }
  E.verify_all();
  return nt;
}

// ================================================================ C05 =======
static void check_layout(const HP &h, bool known, bool must_contig, const std::string &w) {
  const MT &m = *h->m;
  bool c = h->t.is_contiguous();
  if (must_contig && !c)
    throw Fail{w + ": is_contiguous() is false for a fresh tensor of shape " + shape_str(m.shape)};
  if (known && !m_rowmajor(h->m) && c)
    throw Fail{w + ": is_contiguous() is true but the elements are not in consecutive row-major order"};
  if (m.shape.empty())
    return;
  SignedVec st = h->t.stride();
  if (st.size() != m.shape.size())
    throw Fail{w + ": stride() has the wrong length: " + st.to_string()};
  if (m.n() == 0)
    return;
  size_t step = 1;
  std::vector<size_t> unit(m.shape.size());
  for (size_t d = m.shape.size(); d-- > 0;) {
    unit[d] = step;
    step *= m.shape[d];
  }
  for (size_t d = 0; d < m.shape.size(); ++d) {
    if (m.shape[d] < 2)
      continue;
    if (c && st[d] != (long long)unit[d])
      throw Fail{w + ": contiguous tensor of shape " + shape_str(m.shape) + " has stride() " + st.to_string()};
    if (known) {
      long long want = (long long)m.idx[unit[d]] - (long long)m.idx[0];
      if (st[d] != want)
        throw Fail{w + ": stride() is " + st.to_string() + " for shape " + shape_str(m.shape) +
                   ", but neighbours along axis " + std::to_string(d) + " are " +
                   std::to_string(want) + " apart"};
    }
  }
}
static bool run_C05(Tape &T) {
  Cfg c;
  Engine E(T, c);
  E.G.extreme = true;
  E.G.huge = true;
  E.G.cap = 100;
  Shape s = E.G.shape();
  types t = E.G.any_type();
  std::vector<Num> v(numel(s));
  for (size_t i = 0; i < v.size(); ++i)
    v[i] = with_type(t, [&](auto z) { return mkn((decltype(z))(i + 1)); });
  bool leaf = isf(t) && T.chance(15);
  HP a = E.make_vals(s, t, v, Gen::Style{}, leaf);
  std::map<MT *, bool> known;
  known[a->m.get()] = true;
  check_layout(a, true, false, E.nm(a));
  bool nt = false;
  int k = 1 + (int)T.draw(5);
  std::vector<HP> keep{a};
  for (int i = 0; i < k; ++i) {
    HP b;
    bool kn = known[a->m.get()], fresh = false;
    switch (T.weighted({5, 6, 2, 2, 2, 3})) {
    case 0: {
      size_t n = a->m->shape.size();
      if (n < 2)
        continue;
      size_t p = T.draw(n), q = (p + 1 + T.draw(n - 1)) % n;
      b = E.transpose_op(a, p, q);
      label("transpose");
      break;
    }
    case 1: {
      bool wasrow = m_rowmajor(a->m) && a->t.is_contiguous();
      b = E.rnd_reshape(a);
      kn = kn && wasrow;
      label(wasrow ? "reshape contiguous" : "reshape strided");
      break;
    }
    case 2: {
      Shape s2 = E.G.shape_of(a->m->n() <= 4096 ? a->m->n() : 0);
      if (numel(s2) != a->m->n())
        continue;
      HP y = E.make(s2, E.G.any_type(), P_SMALL);
      bool wasrow = m_rowmajor(a->m) && a->t.is_contiguous();
      b = E.reshape_op(a, s2, -1, &y);
      kn = kn && wasrow;
      label("reshape_as");
      break;
    }
    case 3: b = E.contig_op(a); fresh = true; break;
    case 4: b = E.clone_op(a); fresh = true; break;
    default: {
      auto ix = E.G.index_for(a->m->shape);
      b = E.index_op(a, ix, E.G.index_text(ix));
    }
    }
    if (!b)
      continue;
    known[b->m.get()] = kn || fresh;
    if (fresh && !m_rowmajor(a->m))
      label("strided made contiguous");
    check_layout(b, kn || fresh, fresh, E.nm(b));
    keep.push_back(b);
    nt |= b->m->n() > 1;
    a = b;
    if (T.chance(20)) { // a tensor created like this one has a layout of its own
      static const char *n[] = {"zeros_like", "ones_like", "randn_like", "zeros", "full", "Tensor"};
      int f = (int)T.draw(isf(a->m->dt) ? 6 : 5);
      f += f >= 2 && !isf(a->m->dt);
      SizeVec sv = to_sv(a->m->shape);
      Tensor x;
      switch (f) {
      case 0: x = Tensor::zeros_like(a->t); break;
      case 1: x = Tensor::ones_like(a->t); break;
      case 2: x = Tensor::randn_like(a->t); break;
      case 3: x = Tensor::zeros(sv, a->m->dt); break;
      case 4: x = Tensor::full(sv, 2.0, a->m->dt); break;
      default: x = Tensor(sv, a->m->dt);
      }
      std::string w = std::string(n[f]) + " for " + E.nm(a);
      check_meta(x, a->m->shape, a->m->dt, w);
      if (!x.is_contiguous())
        throw Fail{w + ": is_contiguous() is false for a fresh tensor of shape " + shape_str(a->m->shape)};
      if (!a->m->shape.empty() && a->m->n()) {
        SignedVec st = x.stride();
        long long step = 1;
        for (size_t d = a->m->shape.size(); d-- > 0; step *= (long long)a->m->shape[d])
          if (st.size() != a->m->shape.size() || (a->m->shape[d] > 1 && st[d] != step))
            throw Fail{w + ": stride() of a fresh tensor of shape " + shape_str(a->m->shape) + " is " + st.to_string()};
      }
      label("created like a view");
    }
  }
  E.verify_all();
  for (auto &h : keep) { // nothing an earlier result reports has changed
    E.verify_values(h);
    check_layout(h, known[h->m.get()], false, E.nm(h));
  }
  return nt;
}

// ================================================================ C06 =======
static bool run_C06(Tape &T) {
  Cfg c;
  c.pool_cap = 40;
  Engine E(T, c);
  E.G.extreme = true;
  E.G.huge = true;
  E.G.cap = 30;
  Shape s = E.G.shape(6);
  if (s.empty())
    s = {1 + T.draw(3)};
  size_t dim = T.draw(s.size());
  size_t k = T.chance(4) ? 20 + T.draw(15) : 1 + T.draw(6);
  if (T.draw(1000) == 1) { // very many inputs: a few tensors over and over
    k = 250 + T.draw(20);
    if (T.draw(10) == 1)
      k = (T.draw(2) ? 32760 : 65530) + T.draw(20);
    E.G.cap = 4;
    s = E.G.shape(3, false);
    if (s.empty() || s.size() > 3 || numel(s) > 4)
      s = {1 + T.draw(2)};
    if (k > 300)
      s = {1};
    dim = T.draw(s.size());
    std::vector<HP> few, in;
    for (int i = 0; i < 4; ++i) {
      Shape q = s;
      q[dim] = i == 3 ? 0 : 1 + T.draw(2);
      few.push_back(E.make(q, E.G.any_type(), P_SMALL));
    }
    for (size_t i = 0; i < k; ++i)
      in.push_back(few[k < 300 ? T.draw(4) : (i * 2654435761u >> 7) % 4]);
    label("hundreds of inputs");
    return (bool)E.cat_op(in, dim);
  }
  types base = E.G.any_type();
  bool mixed = T.chance(60);
  std::vector<HP> in;
  bool nt = k > 1;
  for (size_t i = 0; i < k; ++i) {
    if (!in.empty() && T.chance(15)) {
      in.push_back(in[T.draw(in.size())]);
      label("repeated input");
      continue;
    }
    Shape q = s;
    q[dim] = T.chance(12) ? 0 : 1 + T.draw(4);
    types t = mixed ? E.G.any_type() : base;
    HP h = E.make(q, t, some_prof(T, false));
    if (q[dim] == 0)
      label("zero-length input");
    if (!m_rowmajor(h->m))
      label("strided input");
    in.push_back(h);
  }
  if (k == 1)
    label("single input");
  if (dim + 1 < s.size())
    label("leading axis");
  if (dim > 0)
    label("inner axis");
  HP r = E.cat_op(in, dim);
  if (r && T.chance(40)) { // join results again, along any axis
    size_t d2 = T.draw(s.size());
    E.cat_op({r, r}, d2);
  }
  if (r && T.chance(30) && !in.empty()) {
    // the inputs may be updated afterwards without the result noticing
    HP x = in[T.draw(in.size())];
    HP one = E.make({}, INNC::i8, P_GRAD);
    E.inplace(x, one);
  }
  E.verify_all();
  return nt && r;
}

// ================================================================ C07 =======
static bool run_C07(Tape &T) {
  Cfg c;
  Engine E(T, c);
  E.G.extreme = true;
  E.G.huge = true;
  E.G.cap = 60;
  types t = E.G.any_type();
  auto check = [&](const Tensor &x, const MP &m, const std::string &w) {
    check_values(x, *m, w, true);
    auto brackets = [](const auto &v) {
      std::string r = "[";
      for (size_t i = 0; i < v.size(); ++i)
        r += (i ? ", " : "") + std::to_string(v[i]);
      return r + "]";
    };
    std::ostringstream os;
    os << x.size();
    if (x.size().to_string() != brackets(m->shape) || os.str() != brackets(m->shape))
      throw Fail{w + ": its size prints as " + os.str() + " and " + x.size().to_string()};
    if (!m->shape.empty()) {
      auto st = x.stride();
      std::ostringstream ot;
      ot << st;
      if (st.to_string() != brackets(st) || ot.str() != brackets(st))
        throw Fail{w + ": its stride prints as " + ot.str() + " and " + st.to_string()};
    }
    if (x.requires_grad() || x.retain_grad())
      throw Fail{w + ": fresh tensor requires or retains a gradient"};
    if (x.grad().to_string() != "[]")
      throw Fail{w + ": fresh tensor has a gradient"};
    if (!x.is_contiguous())
      throw Fail{w + ": fresh tensor is not contiguous"};
  };
  auto fill = [&](const MP &m, Num n) {
    for (auto &v : m->st->v)
      v = n;
  };
  // an empty tensor may have any size behind its first 0
  auto vast = [&](Shape s) {
    for (size_t d = 0; d + 1 < s.size(); ++d)
      if (s[d] == 0) {
        if (T.draw(2))
          s[d + 1 + T.draw(s.size() - d - 1)] = (size_t)1 << (10 + T.draw(31)) | T.draw(1000);
        break;
      }
    return s;
  };
  auto one = [&](types q, int k) { return isf(q) ? mkn((double)k) : mkn((int64_t)k); };
  bool nt = true;
  switch (T.weighted({4, 4, 2, 2, 3, 3, 3, 3, 1})) {
  case 0: { // from_blob, read through any layout
    Prof p = some_prof(T, true);
    HP a = E.make(E.G.shape(), t, p);
    check_values(a->t, *a->m, E.nm(a), true);
    if (T.draw(2) && a->m->shape.size() >= 2) {
      HP b = E.transpose_op(a, 0, a->m->shape.size() - 1);
      check_values(b->t, *b->m, E.nm(b), true);
    }
    nt = a->m->n() > 1;
    label("from_blob / printing");
    break;
  }
  case 1: { // nested initialiser list
    Shape s = init_shape(T);
    auto st = E.G.style(t, some_prof(T, true));
    auto m = m_new(s, t);
    for (auto &v : m->st->v)
      v = E.G.num(t, st);
    size_t p = 0;
    Node n = nest(s, 0, t, m->st->v, p);
    TR("Tensor" + show(n));
    Tensor x;
    if (T.draw(2)) {
      Tensor y(build(n));
      x = std::move(y);
    } else
      x = build(n);
    check(x, m, "Tensor" + show(n));
    Tensor y = x.clone();
    check(y, m, "clone of Tensor" + show(n));
    nt = s.size() > 1;
    label("initialiser list");
    break;
  }
  case 2: { // scalars
    auto m = m_new({}, t);
    m->st->v[0] = E.G.num(t, E.G.style(t, some_prof(T, true)));
    TR("Tensor(" + num_str(t, m->st->v[0]) + ") " + tname(t));
    with_type(t, [&](auto z) {
      using Q = decltype(z);
      Tensor x(getn<Q>(m->st->v[0]));
      check(x, m, "scalar");
      return 0;
    });
    label("scalar");
    break;
  }
  case 3: { // zeros, ones, uninitialised
    Shape s = vast(E.G.shape());
    auto m = m_new(s, t);
    int k = (int)T.draw(3);
    TR(std::string(k == 0 ? "zeros" : k == 1 ? "ones" : "Tensor") + "(" + shape_str(s) + ", " + tname(t) + ")");
    fill(m, one(t, k));
    if (k == 2) {
      Tensor x(to_sv(s), t);
      check_meta(x, s, t, "Tensor(sizes, type)");
      if (!x.is_contiguous())
        throw Fail{"Tensor(sizes, type) is not contiguous"};
    } else if (k == 1) {
      check(T.draw(2) ? INNC::ones(to_sv(s), t) : Tensor::ones(to_sv(s), t), m, "ones");
    } else
      check(T.draw(2) ? INNC::zeros(to_sv(s), t) : Tensor::zeros(to_sv(s), t), m, "zeros");
    nt = numel(s) > 1;
    label("zeros/ones");
    break;
  }
  case 4: { // full
    Shape s = vast(E.G.shape());
    auto m = m_new(s, t);
    bool dbl = T.draw(2);
    types src = dbl ? INNC::f64 : INNC::i64;
    Num n, r;
    n = E.G.num(src, E.G.style(src, T.draw(3) ? P_WIDE : P_SMALL));
    if (!convert(src, n, t, r)) {
      n = one(src, 1);
      convert(src, n, t, r);
    }
    fill(m, r);
    TR("full(" + shape_str(s) + ", " + num_str(src, n) + (dbl ? " (double)" : " (int64)") + ", " + tname(t) + ")");
    bool ns = T.draw(2);
    if (dbl)
      check(ns ? INNC::full(to_sv(s), n.d, t) : Tensor::full(to_sv(s), n.d, t), m, "full");
    else
      check(ns ? INNC::full(to_sv(s), n.i, t) : Tensor::full(to_sv(s), n.i, t), m, "full");
    nt = numel(s) > 1;
    label("full");
    break;
  }
  case 5: { // eye
    size_t n = T.draw(8), q = T.draw(8);
    int form = (int)T.draw(4);
    if (form == 0 || form == 1)
      q = n;
    if (form & 1)
      t = INNC::i8;
    auto m = m_new({n, q}, t);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < q; ++j)
        m->st->v[i * q + j] = one(t, i == j);
    TR("eye(" + std::to_string(n) + "," + std::to_string(q) + "," + tname(t) + ")");
    switch (form) {
    case 0: check(Tensor::eye(n, t), m, "eye(n, type)"); break;
    case 1: check(Tensor::eye(n), m, "eye(n)"); break;
    case 2: check(Tensor::eye(n, q, t), m, "eye(n, m, type)"); break;
    default: check(Tensor::eye(n, q, INNC::i8), m, "eye(n, m)");
    }
    nt = n > 1 && q > 1;
    label("eye");
    break;
  }
  case 6: { // *_like, also of views and of tensors that require gradients
    bool leaf = isf(t) && T.draw(2);
    HP a = E.make(E.G.shape(), t, P_SMALL, leaf);
    for (int k = 0; k < 2; ++k) {
      auto m = m_new(a->m->shape, t);
      fill(m, one(t, k));
      TR(std::string(k ? "ones_like" : "zeros_like") + "(" + E.nm(a) + ")");
      if (T.draw(2))
        check(k ? INNC::ones_like(a->t) : INNC::zeros_like(a->t), m, "like");
      else
        check(k ? Tensor::ones_like(a->t) : Tensor::zeros_like(a->t), m, "like");
    }
    E.verify_all();
    nt = a->m->n() > 1;
    label("like");
    break;
  }
  case 7: { // creations do not disturb each other
    std::vector<HP> hs;
    for (int i = 0; i < 4; ++i)
      E.make(E.G.shape(), E.G.any_type(), some_prof(T, true));
    for (int i = 0; i < 3; ++i)
      E.do_op(O_LIKE);
    for (auto &h : E.pool)
      check_values(h->t, *h->m, E.nm(h), true);
    label("several");
    break;
  }
  default: { // sizes and strides print as bracketed lists, types by name
    Shape s = E.G.shape();
    if (T.draw(2) && !s.empty()) {
      s[T.draw(s.size())] = 0;
      s = vast(s);
    }
    Tensor x = Tensor::zeros(to_sv(s), t);
    std::string want = "[";
    for (size_t i = 0; i < s.size(); ++i)
      want += (i ? ", " : "") + std::to_string(s[i]);
    want += "]";
    std::ostringstream os;
    os << x.size();
    if (x.size().to_string() != want || os.str() != want)
      throw Fail{"size().to_string() is " + x.size().to_string() + ", expected " + want};
    nt = s.size() > 1;
    label("size text");
  }
  }
  return nt;
}

// ================================================================ C08 =======
static bool run_C08(Tape &T) {
  Cfg c;
  Engine E(T, c);
  E.G.extreme = true;
  E.G.huge = true;
  E.G.cap = 40;
  types from = E.G.any_type(), to = E.G.any_type();
  bool leaf = isf(from) && isf(to) && T.chance(20);
  Shape s = E.G.shape();
  auto st = E.G.style(from, some_prof(T, true));
  std::vector<Num> v(numel(s));
  for (auto &x : v) {
    x = E.G.num(from, st);
    Num o;
    for (int k = 0; !convert(from, x, to, o); ++k) {
      if (k > 3) {
        x = isf(from) ? mkn(1.5) : mkn((int64_t)1);
        break;
      }
      if (!std::isfinite(x.d)) {
        x.d = (double)E.G.zig(73) / 4;
        continue;
      }
      x.d = std::fmod(x.d, to == INNC::i8 ? 128 : to == INNC::i16 ? 32768 : 2147483648.0);
      if (from == INNC::f32)
        x.d = (float)x.d;
    }
  }
  HP a = E.make_vals(s, from, v, st, leaf);
  bool nt = false;
  if (from == to) {
    TR(E.nm(a) + ".type(" + tname(to) + ")");
    Tensor r = a->t.type(to);
    check_values(r, *a->m, E.nm(a) + ".type(own)");
    label("same type");
  } else {
    HP r = E.type_op(a, to);
    nt = r && a->m->n() > 1;
    if (r) {
      check_values(r->t, *r->m, E.nm(r), true);
      label((std::string(tname(from)) + "->" + tname(to)).c_str());
      if (!isf(from) && !isf(to) && to > from) {
        HP back = E.type_op(r, from);
        for (size_t k = 0; back && k < a->m->n(); ++k)
          if (back->m->at(k).i != a->m->at(k).i)
            throw std::logic_error("model: widening round trip");
      } else if (T.chance(40))
        E.type_op(r, E.G.any_type());
      if (T.chance(25) && !leaf) { // independent of the original
        HP one = E.make({}, INNC::i8, P_GRAD);
        E.inplace(a, one);
      }
    }
  }
  E.verify_all();
  return nt;
}

// ================================================================ C09 =======
static void w(Cfg &c, std::initializer_list<std::pair<Op, int>> l) {
  for (auto &p : l)
    c.w[p.first] = p.second;
}
static bool run_C09(Tape &T) {
  Cfg c;
  c.check_all = true;
  c.pool_cap = 8;
  w(c, {{O_CONST, 3}, {O_LEAF, 1}, {O_ADD, 2}, {O_SUB, 1}, {O_MUL, 1}, {O_DIV, 1},
        {O_NEG, 1}, {O_ABS, 1}, {O_SUM, 1}, {O_MEAN, 1}, {O_MAX, 1}, {O_MIN, 1},
        {O_CLONE, 2}, {O_TYPE, 2}, {O_DETACH, 2}, {O_INDEX, 7}, {O_TRANSPOSE, 4},
        {O_RESHAPE, 2}, {O_RESHAPE_AS, 1}, {O_CONTIG, 1}, {O_CAT, 2}, {O_CMP, 1},
        {O_INPLACE, 14}, {O_UPDATE, 1}, {O_DROP, 1}, {O_ASSIGN, 2}, {O_LIKE, 1},
        {O_ALL, 1}, {O_POS, 1}, {O_BACKWARD, 1}, {O_ERROR, 1}});
  Engine E(T, c);
  E.G.cap = 24;
  E.fresh();
  int k = 4 + (int)T.draw(14);
  for (int i = 0; i < k; ++i)
    E.step();
  E.verify_all();
  if (E.n_inplace_alias)
    label("update seen through an alias");
  if (E.n_inplace_alias > 2)
    label("several aliased updates");
  return E.n_inplace_alias > 0;
}

// ============================================================ C10 C11 C12 ===
static bool run_grad(Tape &T, bool views) {
  Cfg c;
  c.grad = true;
  c.prof = P_GRAD;
  c.pool_cap = 12;
  c.views_leaf = views;
  w(c, {{O_CONST, 2}, {O_LEAF, 3}, {O_ADD, 6}, {O_SUB, 6}, {O_MUL, 7}, {O_DIV, 6},
        {O_NEG, 2}, {O_ABS, 3}, {O_SUM, 2}, {O_MEAN, 2}, {O_MAX, 2}, {O_MIN, 2},
        {O_CLONE, 1}, {O_TYPE, 2}});
  if (views)
    w(c, {{O_DETACH, 2}, {O_INDEX, 12}, {O_TRANSPOSE, 7}, {O_RESHAPE, 6}, {O_RESHAPE_AS, 2},
          {O_CONTIG, 3}, {O_CAT, 8}, {O_RETAIN, 3}});
  Engine E(T, c);
  E.G.cap = 24;
  int leaves = 1 + (int)T.draw(3);
  for (int i = 0; i < leaves; ++i)
    E.make(E.G.shape(4), E.G.float_type(), P_GRAD, true, views ? -1 : 1);
  int k = 1 + (int)T.draw(9);
  for (int i = 0; i < k; ++i)
    E.step();
  E.rnd_backward();
  E.verify_all();
  if (E.n_backward) {
    if (E.n_bcast)
      label("broadcast");
    if (E.n_mixed)
      label("mixed types");
    if (E.n_shared)
      label("shared subterm");
    if (E.n_view)
      label("views");
    if (E.n_viewroot)
      label("one-element view as root");
    if (E.n_retained)
      label("retained intermediate");
    for (auto &h : E.pool)
      if (h->m->rg && !h->m->has_fn() && h->m->has_grad && !m_rowmajor(h->m)) {
        label("leaf is a strided view");
        break;
      }
  }
  return E.n_backward > 0 && E.n_ops >= 2 && (!views || E.n_view > 0);
}
// The reverse-mode model against central differences of its own forward pass:
// the same tape is replayed with one element of one leaf moved by +-h.
static void finite_difference(Tape &T, bool views) {
  std::vector<uint64_t> rec;
  struct Reset {
    ~Reset() { g_pert = Pert{}; }
  } reset;
  g_pert = Pert{};
  g_pert.f64_only = true;
  T.also = &rec;
  run_grad(T, views);
  T.also = nullptr;
  if (!g_pert.root || g_pert.leaves.empty() || g_pert.detached)
    return;
  uint64_t pick = T.draw(1 << 16);
  auto leaf = g_pert.leaves[pick % g_pert.leaves.size()];
  if (!leaf.second->n() || !leaf.second->has_grad)
    return;
  size_t el = (pick / 7) % leaf.second->n();
  double g = leaf.second->grad[el], mag = leaf.second->gmag[el], f[2];
  size_t trace = g_pert.trace;
  const double h = 1e-5;
  auto *smp = g_sample;
  bool tr = g_trace;
  g_sample = nullptr;
  g_trace = false;
  bool same = true;
  for (int k = 0; k < 2; ++k) {
    g_pert = Pert{};
    g_pert.f64_only = true;
    g_pert.leaf = leaf.first;
    g_pert.elem = el;
    g_pert.h = k ? -h : h;
    Tape R;
    R.mode = Tape::REPLAY;
    R.in = rec.data();
    R.in_n = rec.size();
    run_grad(R, views);
    if (!g_pert.root || g_pert.trace != trace) {
      same = false; // another path was taken (a kink or a limit was crossed)
      break;
    }
    f[k] = g_pert.root->d(0);
  }
  g_sample = smp;
  g_trace = tr;
  if (!same || mag > 1e4)
    return;
  double fd = (f[0] - f[1]) / (2 * h);
  if (std::fabs(fd - g) > 2e-3 * (1 + mag))
    throw Fail{"gradient " + std::to_string(g) + " of the computed function disagrees with its finite difference " + std::to_string(fd)};
  label("finite difference agreed");
}
// One intermediate used very often; the gradient is known in closed form.
static void wide_fan(Tape &T, bool views) {
  size_t n = 1 + T.draw(3);
  size_t k = T.draw(2) ? 2 + T.draw(40) : 120 + T.draw(180);
  int how = (int)T.draw(views ? 3 : 2);
  if (how != 2 && T.chance(1))
    k = 65400 + T.draw(300);
  double c = (double)(1 + (int)T.draw(8)) / 4;
  TR("one intermediate used " + std::to_string(k) + " times, form " + std::to_string(how));
  std::vector<double> blob(n);
  for (auto &v : blob)
    v = (double)(1 + (int)T.draw(9)) / 4;
  Tensor x = Tensor::from_blob(blob.data(), {n}, INNC::f64);
  x.requires_grad(true);
  Tensor cc(c);
  Tensor y = x * cc, acc;
  double want = 0;
  if (how == 2) { // all at once
    std::vector<Tensor> in(k);
    for (auto &t : in)
      t = y;
    Tensor w = Tensor::cat(in, 0);
    acc = w;
    want = (double)k * c;
  } else {
    acc = Tensor::zeros({n}, INNC::f64);
    for (size_t i = 0; i < k; ++i)
      if (how == 0 || i % 2 == 0) {
        acc = acc + y;
        want += c;
      } else {
        acc = acc - y;
        want -= c;
      }
  }
  Tensor s = acc.sum();
  s.backward();
  auto m = m_new({n}, INNC::f64);
  for (auto &v : m->st->v)
    v.d = want;
  m->err = 1e-9;
  check_values(x.grad(), *m, "gradient of a tensor used " + std::to_string(k) + " times");
}
// A leaf of tens of thousands of elements, one or two operations.
static void large_grad(Tape &T, bool views) {
  size_t n = 2 * ((T.draw(2) ? 16350 : 32750) + T.draw(300));
  types t = Gen(T).float_type();
  TR("gradient of " + std::to_string(n) + " elements " + tname(t));
  std::vector<double> v(n);
  std::vector<float> vf(n);
  uint64_t mul = 1 + T.draw(1000);
  for (size_t i = 0; i < n; ++i)
    vf[i] = (float)(v[i] = (double)(1 + (i * mul) % 37) / 4 * (i % 3 ? 1 : -1));
  Tensor x = t == INNC::f32 ? Tensor::from_blob(vf.data(), {2, n / 2}, t) : Tensor::from_blob(v.data(), {2, n / 2}, t);
  x.requires_grad(true);
  Tensor y;
  auto m = m_new({2, n / 2}, t);
  int k = (int)T.draw(views ? 8 : 5);
  for (size_t i = 0; i < n; ++i) {
    double &g = m->st->v[i].d;
    switch (k) {
    case 0: g = 2 * v[i]; break;
    case 1: g = v[i] < 0 ? -1 : 1; break;
    case 2: g = 0.25; break;
    case 3: g = -1; break;
    case 4: g = 4; break;
    case 5: g = i / (n / 2) ? 2 : 1; break;
    case 6: g = 2; break;
    default: g = i % 2 ? 0 : 1;
    }
  }
  switch (k) {
  case 0: y = x * x; break;
  case 1: y = x.abs(); break;
  case 2: y = x / Tensor(4.0f); break;
  case 3: y = Tensor(1.0f) - x; break;
  case 4: y = x + x * Tensor(3.0f); break;
  case 5: y = (x.transpose(0, 1) * Tensor::from_blob((double[]){1, 2}, {2}, INNC::f64)).reshape({-1}); break;
  case 6: {
    std::vector<Tensor> in(2);
    in[0] = x;
    in[1] = x;
    y = Tensor::cat(in, 1);
    break;
  }
  default: y = x.reshape({-1})["::2"];
  }
  Tensor s = y.sum();
  s.backward();
  check_values(x.grad(), *m, "gradient of a large tensor, form " + std::to_string(k));
}
// Every node is used twice by the next ones: exponentially many paths.
static void ladder(Tape &T, bool views) {
  size_t depth = 20 + T.draw(T.chance(10) ? 1500 : 180);
  TR("ladder of depth " + std::to_string(depth));
  double d[] = {1.5, -0.75};
  Tensor x = Tensor::from_blob(d, {2}, INNC::f64);
  x.requires_grad(true);
  Tensor y, z;
  y = x;
  z = x;
  double gy = 1, gz = 1; // dy/dx and dz/dx
  for (size_t i = 0; i < depth; ++i) {
    double a = (double)(int)T.draw(5) / 4, b = 1 - a;
    Tensor n;
    switch (T.draw(views ? 4 : 3)) {
    case 0: n = y * Tensor(a) + z * Tensor(b); break;
    case 1: n = -(y * Tensor(-a)) - z * Tensor(-b); break;
    case 2: n = (y + z) * Tensor(0.5); a = b = 0.5; break;
    default: {
      std::vector<Tensor> in(2);
      in[0] = y * Tensor(a);
      in[1] = z * Tensor(b);
      Tensor c = Tensor::cat(in, 0);
      n = c["0:2"] + c["2:4"];
    }
    }
    double gn = a * gy + b * gz;
    z = y;
    gz = gy;
    y = n;
    gy = gn;
  }
  y = y + z;
  y.sum().backward();
  auto m = m_new({2}, INNC::f64);
  m->has_grad = true;
  m->grad.assign(2, gy + gz);
  m->gmag.assign(2, 4);
  m->gterms = 100;
  check_grad(x, *m, "ladder of depth " + std::to_string(depth));
}
static bool run_C10(Tape &T) {
  if (T.chance(1)) {
    ladder(T, false);
    label("ladder");
    return true;
  }
  if (T.chance(1) && T.chance(15)) {
    large_grad(T, false);
    label("large tensor");
    return true;
  }
  if (T.chance(1)) {
    wide_fan(T, false);
    label("very often shared intermediate");
    return true;
  }
  if (T.chance(6)) {
    finite_difference(T, false);
    return true;
  }
  return run_grad(T, false);
}
static bool run_C11(Tape &T) {
  if (T.chance(1)) {
    ladder(T, true);
    label("ladder");
    return true;
  }
  if (T.chance(1) && T.chance(15)) {
    large_grad(T, true);
    label("large tensor");
    return true;
  }
  if (T.chance(1)) {
    wide_fan(T, true);
    label("very often shared intermediate");
    return true;
  }
  if (T.chance(6)) {
    finite_difference(T, true);
    return true;
  }
  return run_grad(T, true);
}
// Many passes over fresh graphs on the same leaf.
static void many_passes(Tape &T) {
  size_t n = 1 + T.draw(2);
  size_t passes = T.chance(5) ? 65500 + T.draw(300) : 20 + T.draw(400);
  size_t reset = T.draw(3) ? 0 : 1 + T.draw(passes);
  TR(std::to_string(passes) + " passes, zero_grad before number " + std::to_string(reset));
  Tensor x = Tensor::ones({n}, T.draw(4) ? INNC::f64 : INNC::f32);
  x.requires_grad(true);
  std::vector<double> g(n, 0.0);
  int kind = (int)T.draw(3);
  for (size_t i = 1; i <= passes; ++i) {
    if (i == reset) {
      x.zero_grad();
      std::fill(g.begin(), g.end(), 0.0);
    }
    double c = (double)(1 + i % 3);
    Tensor y = kind == 0 ? x * Tensor(c) : kind == 1 ? x + x : -(x * Tensor(c));
    Tensor s = y.sum();
    s.backward();
    for (auto &v : g)
      v += kind == 0 ? c : kind == 1 ? 2.0 : -c;
    if (i % 97 == 0 || i == passes) {
      auto m = m_new({n}, x.type());
      for (size_t k = 0; k < n; ++k)
        m->st->v[k].d = g[k];
      check_values(x.grad(), *m, "gradient after " + std::to_string(i) + " passes");
    }
  }
}
// One result that depends on leaves directly, differentiated again and again.
static void same_root(Tape &T) {
  size_t n = 1 + T.draw(3);
  int kind = (int)T.draw(7);
  types at = T.draw(3) ? INNC::f64 : INNC::f32, bt = T.draw(3) ? INNC::f64 : INNC::f32;
  if (kind >= 3)
    n = 1;
  else if (n == 3)
    n = 4;
  bool both = kind >= 4 && T.draw(2), retain = T.draw(2);
  TR("one result of kind " + std::to_string(kind) + (retain ? ", retained," : "") + " differentiated repeatedly");
  Tensor a = Tensor::full({n}, (std::int64_t)3, at), b = Tensor::full({n}, (std::int64_t)2, bt), y;
  a.requires_grad(true);
  if (both)
    b.requires_grad(true);
  double ga = 1, gb = 0;
  switch (kind) {
  case 0: y = a.sum(); break;
  case 1: y = a.mean(), ga = 1.0 / (double)n; break;
  case 2: y = a[std::to_string(n - 1)]; break;
  case 3: y = a.clone(); break;
  case 4: y = a + b, gb = 1; break;
  case 5: y = a * b, ga = 2, gb = 3; break;
  default: y = a - b, gb = -1; break;
  }
  if (retain)
    y.retain_grad(true);
  double na = 0, nb = 0;
  int passes = 2 + (int)T.draw(5);
  auto expect = [&](const Tensor &t, double v, const char *w) {
    Tensor g = t.grad();
    auto m = m_new(t.size().size() ? Shape{t.numel()} : Shape{}, t.type());
    for (auto &e : m->st->v)
      e.d = v;
    if (kind == 2 && t.size().size() && v != 0)
      for (size_t k = 0; k + 1 < n; ++k)
        m->st->v[k].d = 0;
    check_values(g, *m, w);
  };
  for (int i = 0; i < passes; ++i) {
    if (T.draw(4) == 0)
      a.zero_grad(), na = 0;
    if (T.draw(6) == 0)
      b.zero_grad(), nb = 0;
    if (T.draw(6) == 0)
      y.zero_grad();
    y.backward();
    na += ga, nb += gb;
    std::string w = "gradient after " + std::to_string(i + 1) + " passes from one result: ";
    expect(a, na, (w + "first leaf").c_str());
    if (both)
      expect(b, nb, (w + "second leaf").c_str());
    if (retain)
      expect(y, 1, (w + "the result itself").c_str());
    else if (y.grad().to_string() != "[]")
      throw Fail{w + "a result that retains nothing has a gradient"};
  }
}
// A small gradient descent: every way of updating a parameter between passes
// must give the same trajectory as the textbook recurrence.
static void descent(Tape &T) {
  Gen G(T);
  size_t n = 1 + T.draw(4), rows = T.draw(2) ? 1 + T.draw(3) : 0; // 0: no extra axis
  types dt = T.draw(3) ? INNC::f64 : INNC::f32, xt = T.draw(4) ? INNC::f64 : T.draw(2) ? INNC::f32 : INNC::i8;
  bool view = T.chance(30), sumfirst = T.draw(2);
  size_t steps = 1 + T.draw(25), R = rows ? rows : 1;
  auto vec = [&](size_t k, bool whole) {
    std::vector<double> v(k);
    for (auto &e : v)
      e = whole ? (double)G.zig(5) : (double)G.zig(13) / 4;
    return v;
  };
  std::vector<double> w0 = vec(n, false), x = vec(R * n, xt == INNC::i8), y = vec(R * n, false);
  auto tensor = [&](const std::vector<double> &v, SizeVec s, types t) {
    Tensor b = Tensor::from_blob((void *)v.data(), s, INNC::f64);
    return t == INNC::f64 ? b.clone() : b.type(t);
  };
  SizeVec xs;
  if (rows)
    xs.push_back(rows);
  xs.push_back(n);
  Tensor W, base, X = tensor(x, xs, xt), Y = tensor(y, xs, INNC::f64);
  if (view) {
    std::vector<double> big(2 * n + 1, 77.0);
    for (size_t i = 0; i < n; ++i)
      big[2 * n - 1 - 2 * i] = w0[i];
    base = tensor(big, {2 * n + 1}, dt);
    W = base["-2::-2"];
  } else
    W = tensor(w0, {n}, dt);
  W.requires_grad(true);
  const double lr = 1.0 / 64;
  std::vector<double> w = w0, g(n, 0.0);
  double tol = dt == INNC::f64 && xt != INNC::f32 ? 1e-5 : 3e-3;
  auto compare = [&](const Tensor &t, const std::vector<double> &want, const std::string &what) {
    check_meta(t, {n}, dt, what);
    Parsed p;
    parse_tensor(t.to_string(), {n}, p, what);
    for (size_t i = 0; i < n; ++i)
      if (!close_to(tok_val(p.tok[i], what), want[i], tol * (1 + std::fabs(want[i]))))
        throw Fail{what + ": element " + std::to_string(i) + " is " + p.tok[i] + ", expected " + std::to_string(want[i])};
  };
  bool fresh = true;
  for (size_t k = 1; k <= steps; ++k) {
    std::string at = " in step " + std::to_string(k);
    Tensor D = W * X - Y;
    Tensor L = sumfirst ? (D * D).sum() : (D * D).mean() * Tensor((double)(R * n));
    L.backward();
    double loss = 0;
    if (fresh)
      std::fill(g.begin(), g.end(), 0.0);
    for (size_t r = 0; r < R; ++r)
      for (size_t i = 0; i < n; ++i) {
        double e = w[i] * x[r * n + i] - y[r * n + i];
        loss += e * e;
        g[i] += 2 * e * x[r * n + i];
      }
    if (!close_to(tok_val(L.to_string(), "loss"), loss, tol * (1 + loss)))
      throw Fail{"loss" + at + " is " + L.to_string() + ", expected " + std::to_string(loss)};
    compare(W.grad(), g, "gradient" + at);
    std::vector<double> nw = w;
    for (size_t i = 0; i < n; ++i)
      nw[i] -= lr * g[i];
    fresh = true;
    int how = (int)T.draw(4);
    TR("step " + std::to_string(k) + ": update style " + std::to_string(how));
    if (how == 0) {
      W.detach() += W.grad() * Tensor(-lr);
      W.zero_grad();
    } else if (how == 1) {
      W.requires_grad(false);
      W += W.grad() * Tensor(-lr);
      W.requires_grad(true);
      W.zero_grad();
    } else if (how == 2) { // a new leaf; the old one must keep its value and gradient
      Tensor old;
      old = W;
      W = (W - W.grad() * Tensor(lr)).detach().type(dt);
      W.requires_grad(true);
      compare(old, w, "parameter replaced" + at);
      compare(old.grad(), g, "its gradient" + at);
    } else { // gradients keep accumulating
      W.detach() += W.grad() * Tensor(-lr);
      fresh = false;
    }
    w = nw;
    compare(W, w, "parameter after update" + at);
  }
}

static bool run_C12(Tape &T) {
  if (T.chance(3)) {
    descent(T);
    label("gradient descent");
    return true;
  }
  if (T.chance(1)) {
    many_passes(T);
    label("many passes");
    return true;
  }
  if (T.chance(4)) {
    same_root(T);
    label("one result, several passes");
    return true;
  }
  Cfg c;
  c.grad = true;
  c.prof = P_GRAD;
  c.pool_cap = 12;
  c.check_all = true;
  w(c, {{O_CONST, 2}, {O_LEAF, 2}, {O_ADD, 4}, {O_SUB, 3}, {O_MUL, 4}, {O_DIV, 2}, {O_NEG, 1},
        {O_ABS, 1}, {O_SUM, 2}, {O_MEAN, 1}, {O_MAX, 1}, {O_MIN, 1}, {O_CLONE, 1}, {O_TYPE, 1},
        {O_DETACH, 2}, {O_INDEX, 3}, {O_TRANSPOSE, 2}, {O_RESHAPE, 2}, {O_CONTIG, 1}, {O_CAT, 2},
        {O_CMP, 1}, {O_BACKWARD, 12}, {O_ZEROGRAD, 4}, {O_RETAIN, 5}, {O_TOGGLE, 3}, {O_UPDATE, 3},
        {O_LIKE, 1}, {O_ASSIGN, 1}, {O_GRAD, 2}, {O_INPLACE, 2}});
  Engine E(T, c);
  E.G.cap = 16;
  int leaves = 1 + (int)T.draw(2);
  for (int i = 0; i < leaves; ++i)
    E.make(E.G.shape(3), E.G.float_type(), P_GRAD, true);
  int k = 5 + (int)T.draw(16);
  for (int i = 0; i < k; ++i)
    E.step();
  E.rnd_backward();
  E.verify_all();
  if (E.n_backward >= 2)
    label("several passes");
  if (E.n_retained)
    label("retained intermediate");
  if (E.n_graduse)
    label("gradient used as a tensor");
  if (E.n_survived)
    label("graph outlives an unrelated update");
  if (E.n_frozen)
    label("requires_grad switched off");
  return E.n_backward >= 2;
}

// ================================================================ C13 =======
static bool run_C13(Tape &T) {
  Cfg c;
  c.grad = true;
  c.prof = P_GRAD;
  c.pool_cap = 8;
  w(c, {{O_CONST, 3}, {O_LEAF, 3}, {O_ADD, 2}, {O_SUB, 1}, {O_MUL, 2}, {O_DIV, 1}, {O_NEG, 1},
        {O_ABS, 1}, {O_SUM, 1}, {O_MEAN, 1}, {O_CLONE, 1}, {O_TYPE, 1}, {O_DETACH, 1},
        {O_INDEX, 3}, {O_TRANSPOSE, 2}, {O_RESHAPE, 3}, {O_CONTIG, 1}, {O_CAT, 2}, {O_CMP, 1},
        {O_INPLACE, 2}, {O_BACKWARD, 3}, {O_RETAIN, 1}, {O_TOGGLE, 1}, {O_ERROR, 30}});
  Engine E(T, c);
  E.G.cap = 16;
  E.fresh();
  E.fresh();
  int k = 3 + (int)T.draw(10);
  for (int i = 0; i < k; ++i)
    E.step();
  // and the survivors still work
  E.rnd_backward();
  E.verify_all();
  return E.n_rejected > 0;
}

// ================================================================ C14 =======
// A long chain, differentiated and released; values known in closed form.
static void deep_chain(Tape &T, size_t depth, bool mix) {
  TR("chain of depth " + std::to_string(depth));
  size_t rows = mix ? 1 + T.draw(2) : 1, n = rows * 2;
  Tensor x = Tensor::ones({rows, 2}, INNC::f64);
  x.requires_grad(true);
  Tensor y;
  y = x;
  Tensor half(0.5), one(1.0);
  double slope = 1, off = 0;
  uint64_t kinds = T.draw(8) + 1;
  uint64_t keep_every = T.draw(3) ? 0 : 1 + T.draw(depth);
  std::vector<Tensor> kept;
  for (size_t i = 0; i < depth; ++i) {
    switch (mix ? T.draw(7) : (i * kinds) % 7) {
    case 0: y = y + one; off += 1; break;
    case 1: y = -y; slope = -slope; off = -off; break;
    case 2: y = y * one; break;
    case 3: y = y.transpose(0, 1); break;
    case 4: y = y - one; off -= 1; break;
    case 5: y = (y + y) * half; break; // two paths at every step
    default:
      if (i % 2)
        y = y.clone();
      else
        y = y["::"];
    }
    if (keep_every && i % keep_every == 0) {
      Tensor k;
      k = y;
      kept.push_back(std::move(k));
    }
  }
  Tensor s = y.sum();
  double want = (double)n * (slope + off);
  if (std::fabs(tok_val(s.to_string(), "sum") - want) > 1e-3)
    throw Fail{"deep chain: sum is " + s.to_string() + ", expected " + std::to_string(want)};
  int order = (int)T.draw(4);
  if (order == 0)
    y = Tensor();
  if (order == 3) { // never differentiated
    y = Tensor();
    s = Tensor();
  } else {
    s.backward();
    auto m = m_new({rows, 2}, INNC::f64);
    for (auto &v : m->st->v)
      v.d = slope;
    check_values(x.grad(), *m, "deep chain: gradient");
  }
  if (order == 1) {
    s = Tensor();
    y = Tensor();
  }
  if (order == 2)
    x = Tensor();
  while (!kept.empty()) {
    std::swap(kept[T.draw(std::min<size_t>(kept.size(), 8))], kept.back());
    kept.pop_back();
  }
}
static bool run_C14(Tape &T) {
  if (T.chance(3)) {
    size_t depth = 100 + T.draw(1900);
    if (T.chance(12))
      depth = 20000 + T.draw(30000);
    deep_chain(T, depth, depth < 3000);
    label(depth >= 20000 ? "very deep graph" : "deep graph");
    return true;
  }
  Cfg c;
  c.grad = true;
  c.prof = P_GRAD;
  c.pool_cap = 7;
  w(c, {{O_CONST, 2}, {O_LEAF, 3}, {O_ADD, 4}, {O_SUB, 3}, {O_MUL, 4}, {O_DIV, 2}, {O_NEG, 1},
        {O_ABS, 2}, {O_SUM, 1}, {O_MEAN, 1}, {O_MAX, 1}, {O_MIN, 1}, {O_CLONE, 1}, {O_TYPE, 1},
        {O_DETACH, 2}, {O_INDEX, 5}, {O_TRANSPOSE, 3}, {O_RESHAPE, 3}, {O_CONTIG, 1}, {O_CAT, 3},
        {O_CMP, 1}, {O_INPLACE, 2}, {O_BACKWARD, 5}, {O_ZEROGRAD, 1}, {O_RETAIN, 2}, {O_UPDATE, 1},
        {O_DROP, 14}, {O_ASSIGN, 4}, {O_MOVE, 5}, {O_LIKE, 1}, {O_GRAD, 3}});
  Engine E(T, c);
  E.G.cap = 20;
  E.make(E.G.shape(4), E.G.float_type(), P_GRAD, true);
  int k = 5 + (int)T.draw(20);
  for (int i = 0; i < k; ++i) {
    int d = E.n_drop;
    E.step();
    if (E.n_drop != d)
      E.verify_all();
  }
  // keep only one-element results and leaves, then differentiate
  if (T.draw(2)) {
    std::vector<HP> keep;
    for (auto &h : E.pool)
      if (!h->m->has_fn() || h->m->n() == 1 || h == E.pool.back())
        keep.push_back(h);
    E.n_drop += (int)(E.pool.size() - keep.size());
    TR("keep only leaves and results");
    E.pool = keep;
    E.verify_all();
  }
  E.rnd_backward();
  E.verify_all();
  // the remaining handles go in random order
  while (!E.pool.empty()) {
    E.pool.erase(E.pool.begin() + T.draw(E.pool.size()));
    E.verify_all();
  }
  if (E.n_backward)
    label("differentiated after drops");
  return E.n_drop >= 2 && E.n_ops >= 2;
}

// ================================================================ C15 =======
static void leak_history(Tape &T, int *nops, int *nback, int *nrej, size_t bulk = 0) {
  Cfg c;
  c.grad = true;
  c.prof = P_GRAD;
  c.pool_cap = 8;
  for (int o = 0; o < O_COUNT; ++o)
    c.w[o] = 2;
  w(c, {{O_BACKWARD, 5}, {O_ERROR, 6}, {O_RETAIN, 5}, {O_INDEX, 4}, {O_TRANSPOSE, 3}, {O_CAT, 3}, {O_MUL, 4}, {O_DIV, 3}});
  Engine E(T, c);
  E.G.cap = bulk ? 6 : 20;
  E.G.bulk = bulk;
  E.make(E.G.shape(3), E.G.float_type(), P_GRAD, true);
  int k = 3 + (int)T.draw(bulk ? 7 : 14);
  for (int i = 0; i < k; ++i)
    E.step();
  E.rnd_backward();
  *nops = E.n_ops;
  *nback = E.n_backward;
  *nrej = E.n_rejected;
}
static bool run_C15(Tape &T) {
  int a = 0, b = 0, c = 0;
  std::vector<uint64_t> rec;
  if (T.chance(4)) { // release() gives the elements back at once
    types t = (types)T.draw(6);
    size_t n = 1 + T.draw(4000);
    int how = (int)T.draw(8);
    size_t from = T.draw((uint32_t)n), step = 1 + T.draw(3), cols = 1 + T.draw(4);
    if (how == 5 || how == 6)
      n -= n % cols, n = n ? n : cols;
    TR("release of " + std::to_string(n) + " elements, form " + std::to_string(how));
    int bad = 0;
    for (int r = 0; r < 3; ++r) {
      size_t m0 = __sanitizer_get_current_allocated_bytes();
      {
        Tensor x = Tensor::ones({n}, t), y;
        if (how == 1)
          y = x;
        else if (how == 2)
          y = x["::2"];
        else if (how == 3) {
          if (isf(t))
            x.requires_grad(true);
          y = x + x;
        } else if (how == 4) // through a view, wherever it starts
          y = x[std::to_string(from) + "::" + std::to_string(step)];
        else if (how == 5)
          y = x.reshape({(long)(n / cols), (long)cols}).transpose(0, 1);
        else if (how == 6)
          y = x.reshape({(long)(n / cols), (long)cols})[std::to_string(n / cols - 1)];
        else if (how == 7)
          y = x.detach();
        size_t m1 = __sanitizer_get_current_allocated_bytes();
        (how == 1 || how >= 4 ? y : x).release();
        size_t m2 = __sanitizer_get_current_allocated_bytes();
        if (m1 < m2 + n * INNC::size_of(t))
          throw Fail{"release() of " + std::to_string(n) + " elements " + tname(t) + " gives back " + std::to_string((long)m1 - (long)m2) + " bytes"};
        if (x.numel() != n || x.type() != t || x.dim() != 1)
          throw Fail{"release() changes the description of a tensor"};
        if (how == 3)
          check_meta(y, {n}, t, "result of a released tensor");
      }
      bad += __sanitizer_get_current_allocated_bytes() > m0;
    }
    if (bad == 3)
      throw Fail{"released tensors leave memory behind"};
    label("release");
    return true;
  }
  if (T.chance(8)) { // repeated graphs that share leaves
    label("randn, init lists");
    T.also = &rec;
    Shape s = Gen(T).shape(3);
    T.also = nullptr;
    auto once = [&] {
      Tensor x = Tensor::randn(to_sv(s), INNC::f32);
      x.requires_grad(true);
      x.retain_grad(true);
      Tensor y = (x * x + Tensor::randn_like(x)).sum();
      y.retain_grad(true);
      y.backward();
      Tensor z({{1.0, 2.0}, {3.0, 4.0}});
      try {
        Tensor q({{1.0, 2.0}, {3.0}});
      } catch (const std::exception &) {
      }
      z = INNC::TensorInit(std::initializer_list<int>{1, 2});
      x.zero_grad();
    };
    once();
    int grew = 0;
    size_t m0 = 0, m1 = 0;
    for (int r = 0; r < 3; ++r) {
      m0 = __sanitizer_get_current_allocated_bytes();
      once();
      m1 = __sanitizer_get_current_allocated_bytes();
      grew += m1 > m0;
    }
    if (grew == 3)
      throw Fail{"every repetition leaves " + std::to_string(m1 - m0) + " bytes behind"};
    return true;
  }
  // the same history on small and on ever larger tensors: what stays behind
  // must not depend on the size of the tensors that were used
  size_t bulk = T.chance(4) ? 1 : 0;
  T.also = &rec;
  leak_history(T, &a, &b, &c, bulk);
  T.also = nullptr;
  rec.reserve(rec.size() + 16);
  int grew = 0;
  size_t m0 = 0, m1 = 0;
  auto *smp = g_sample;
  bool tr = g_trace;
  g_sample = nullptr;
  g_trace = false;
  auto replay = [&](size_t f) {
    Tape R;
    R.mode = Tape::REPLAY;
    R.in = rec.data();
    R.in_n = rec.size();
    int x, y, z;
    leak_history(R, &x, &y, &z, f);
  };
  if (bulk) {
    for (size_t f = 200; f <= 800; f *= 2) {
      replay(1);
      m0 = __sanitizer_get_current_allocated_bytes();
      replay(f);
      m1 = __sanitizer_get_current_allocated_bytes();
      if (m1 <= m0 + 2048)
        break;
      ++grew;
    }
    g_sample = smp;
    g_trace = tr;
    if (grew == 3)
      throw Fail{"the history on large tensors leaves " + std::to_string(m1 - m0) +
                 " bytes behind after the last handle is gone"};
    label("large tensors");
    return a >= 3 && (b > 0 || c > 0);
  }
  for (int r = 0; r < 4; ++r) {
    m0 = __sanitizer_get_current_allocated_bytes();
    replay(0);
    m1 = __sanitizer_get_current_allocated_bytes();
    if (m1 > m0)
      ++grew;
    else
      break;
  }
  g_sample = smp;
  g_trace = tr;
  if (grew == 4)
    throw Fail{"every repetition of the history leaves " + std::to_string(m1 - m0) +
               " bytes behind after the last handle is gone"};
  if (b)
    label("with backward");
  if (c)
    label("with rejected calls");
  return a >= 3 && (b > 0 || c > 0);
}

// ================================================================ C16 =======
static double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void stats(const std::vector<double> &v, const std::string &w, const std::vector<size_t> &lags) {
  double n = (double)v.size(), m1 = 0, m2 = 0, m3 = 0, m4 = 0;
  for (double x : v) {
    m1 += x;
    m2 += x * x;
    m3 += x * x * x;
    m4 += x * x * x * x;
  }
  m1 /= n, m2 /= n, m3 /= n, m4 /= n;
  auto chk = [&](const char *what, double got, double want, double var) {
    if (!(std::fabs(got - want) <= 8.5 * std::sqrt(var / n)))
      throw Fail{w + ": " + what + " of " + std::to_string(v.size()) + " samples is " +
                 std::to_string(got) + ", expected about " + std::to_string(want)};
  };
  chk("mean", m1, 0, 1);
  chk("second moment", m2, 1, 2);
  chk("third moment", m3, 0, 15);
  chk("fourth moment", m4, 3, 96);
  for (size_t l : lags)
    if (l && l + 1000 <= v.size()) {
      double c = 0, c2 = 0;
      size_t k = v.size() - l, mirrored = 0;
      for (size_t i = 0; i < k; ++i)
        mirrored += std::fabs(v[i] + v[i + l]) < 2.1e-6 || std::fabs(v[i] - v[i + l]) < 2.1e-6;
      if ((double)mirrored > 6 + 1e-4 * (double)k) // about 2.4e-6 per pair by chance
        throw Fail{w + ": " + std::to_string(mirrored) + " samples repeat or mirror the one " + std::to_string(l) +
                   " before"};
      for (size_t i = 0; i < k; ++i)
        c += v[i] * v[i + l], c2 += (v[i] * v[i] - 1) * (v[i + l] * v[i + l] - 1);
      if (std::fabs(c) > 8.5 * std::sqrt((double)k))
        throw Fail{w + ": samples " + std::to_string(l) + " apart are correlated (" +
                   std::to_string(c / (double)k) + ")"};
      if (std::fabs(c2) > 12 * 2 * std::sqrt((double)k))
        throw Fail{w + ": magnitudes " + std::to_string(l) + " apart are correlated (" +
                   std::to_string(c2 / (double)k) + ")"};
    }
  for (double unit : {1e6, 1e5}) { // no coarse grid: the last printed digits are uniform
    double cnt[10] = {}, chi = 0;
    for (double x : v)
      ++cnt[(long long)std::floor(std::fabs(x) * unit + 0.001) % 10];
    for (double c : cnt)
      chi += (c - n / 10) * (c - n / 10) / (n / 10);
    if (chi > 110)
      throw Fail{w + ": the samples lie on a grid (digits at 1/" + std::to_string((long long)unit) + ", chi2 " +
                 std::to_string(chi) + ")"};
  }
  std::vector<double> s = v;
  std::sort(s.begin(), s.end());
  double D = 0;
  size_t dup = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    double F = phi(s[i]);
    D = std::max({D, F - (double)i / n, (double)(i + 1) / n - F});
    if (i && s[i] == s[i - 1])
      ++dup;
  }
  if (D * std::sqrt(n) > 3.8)
    throw Fail{w + ": distribution is not standard normal (KS " + std::to_string(D * std::sqrt(n)) + ")"};
  // printed with six decimals, so a few coincidences are normal
  if ((double)dup > 40 + n * n * 1e-6)
    throw Fail{w + ": " + std::to_string(dup) + " repeated values among " + std::to_string(v.size())};
}
static std::vector<double> draw_randn(Tape &T, Gen &G, const Shape &s, types t, bool like) {
  Tensor r;
  if (like) {
    Tensor base = T.draw(2) ? Tensor::zeros(to_sv(s), t) : Tensor::ones(to_sv(s), t);
    if (s.size() >= 2 && T.draw(2)) {
      base = base.transpose(0, 1);
      Shape q = s;
      std::swap(q[0], q[1]);
      r = Tensor::randn_like(base);
      check_meta(r, q, t, "randn_like");
    } else {
      r = Tensor::randn_like(base);
      check_meta(r, s, t, "randn_like");
    }
  } else {
    r = Tensor::randn(to_sv(s), t);
    check_meta(r, s, t, "randn");
  }
  if (r.requires_grad() || r.grad().to_string() != "[]")
    throw Fail{"randn: result requires or has a gradient"};
  Parsed p;
  Shape q = from_sv(r.size());
  parse_tensor(r.to_string(), q, p, "randn");
  std::vector<double> v;
  for (auto &x : p.tok) {
    double d = tok_val(x, "randn");
    if (!(std::fabs(d) <= 9.5))
      throw Fail{"randn(" + shape_str(s) + ", " + tname(t) + "): element " + x + " is no plausible normal sample"};
    v.push_back(d);
  }
  (void)G;
  if (t == INNC::f64 && v.size() >= 100 && T.chance(15)) { // a double sample has more than 24 significant bits
    Tensor narrow = r.type(INNC::f32).type(INNC::f64);
    Parsed e;
    parse_tensor((r == narrow).to_string(), q, e, "randn");
    size_t k = 0;
    for (auto &x : e.tok)
      k += x == "1";
    if (k > 5 + v.size() / 20)
      throw Fail{"randn(" + shape_str(s) + ", f64): " + std::to_string(k) + " of " + std::to_string(v.size()) +
                 " samples fit in single precision"};
  }
  return v;
}
static bool run_C16(Tape &T) {
  Gen G(T);
  switch (T.chance(1) && T.chance(30) ? 4 : T.weighted({5, 3, 2, 2})) {
  case 4: { // tails: far more samples
    types t = G.float_type();
    size_t n = 20000 + T.draw(20000), total = 0, c3 = 0, c4 = 0, pos4 = 0;
    TR("randn tails " + std::to_string(n) + " " + tname(t));
    while (total < 700000) {
      auto v = draw_randn(T, G, {n}, t, false);
      stats(v, "randn", {1, 2, 4, 624, 312, 1024, 4096});
      for (double x : v) {
        c3 += std::fabs(x) > 3;
        c4 += std::fabs(x) > 4;
        pos4 += x > 3.5;
      }
      total += n;
    }
    // expected counts per 700000: 1890, 44 and 163
    double f = (double)total, e3 = f * 2.6998e-3, e4 = f * 6.334e-5, e5 = f * 2.3263e-4;
    if (std::fabs((double)c3 - e3) > 8.5 * std::sqrt(e3) || c4 == 0 || (double)c4 > e4 + 12 * std::sqrt(e4) ||
        std::fabs((double)pos4 - e5) > 9 * std::sqrt(e5))
      throw Fail{"randn: the tails are not normal: " + std::to_string(c3) + " beyond 3, " + std::to_string(c4) +
                 " beyond 4 and " + std::to_string(pos4) + " above 3.5 among " + std::to_string(total)};
    label("tails");
    return true;
  }
  case 0: { // one large tensor
    types t = G.float_type();
    Shape s;
    size_t n = 2500 + T.draw(3500);
    size_t d = 1 + T.draw(4);
    size_t rest = n;
    for (size_t i = 0; i + 1 < d; ++i) {
      size_t f = 2 + T.draw(9);
      s.push_back(f);
      rest = rest / f + 1;
    }
    s.insert(s.begin() + T.draw(s.size() + 1), rest);
    bool like = T.chance(35);
    TR(std::string(like ? "randn_like " : "randn ") + shape_str(s) + " " + tname(t));
    auto v = draw_randn(T, G, s, t, like);
    std::vector<size_t> lags = {1, 2, 3, 4, 5, 7, 8, 16};
    size_t st = 1;
    for (size_t i = s.size(); i-- > 0;) {
      st *= s[i];
      lags.push_back(st);
    }
    stats(v, std::string("randn ") + shape_str(s) + " " + tname(t), lags);
    label("large");
    return true;
  }
  case 1: { // many small calls, pooled: successive calls are independent too
    types t = G.float_type();
    bool mixed = T.chance(30);
    size_t k = 1 + T.draw(9);
    std::vector<double> pool, first;
    std::map<std::string, int> seen;
    TR("pooled calls of " + std::to_string(k) + " elements " + tname(t));
    while (pool.size() < 3000) {
      types tt = mixed ? G.float_type() : t;
      auto v = draw_randn(T, G, {k}, tt, T.chance(10));
      if (k >= 3) {
        std::string key;
        for (double x : v)
          key += std::to_string(x) + " ";
        if (seen[key]++)
          throw Fail{"randn: two calls returned the same " + std::to_string(k) + " values"};
      }
      first.push_back(v[0]);
      pool.insert(pool.end(), v.begin(), v.end());
    }
    stats(pool, "pooled randn calls of " + std::to_string(k), {1, 2, k, 2 * k, 3 * k, k + 1});
    if (first.size() >= 1000)
      stats(first, "first elements of randn calls of " + std::to_string(k), {1, 2, 3});
    label("pooled small calls");
    return true;
  }
  case 2: { // any shape, any float type: shape, type, finiteness
    for (int i = 0; i < 8; ++i) {
      Shape s = G.shape();
      types t = G.float_type();
      TR("randn " + shape_str(s) + " " + tname(t));
      draw_randn(T, G, s, t, T.draw(2));
    }
    label("shapes");
    return true;
  }
  default: { // two tensors are independent of each other
    types ta = G.float_type(), tb = G.float_type();
    size_t n = 1500 + T.draw(1500);
    auto a = draw_randn(T, G, {n}, ta, false);
    for (size_t k = T.draw(3); k--;)
      draw_randn(T, G, {1 + T.draw(5)}, G.float_type(), false);
    auto b = draw_randn(T, G, {n}, tb, T.draw(2));
    if (a == b)
      throw Fail{"randn: two calls returned the same values"};
    for (size_t sh = 0; sh < 8; ++sh) {
      double c = 0;
      for (size_t i = 0; i + sh < n; ++i)
        c += a[i] * b[i + sh];
      if (std::fabs(c) > 8.5 * std::sqrt((double)n))
        throw Fail{"randn: two calls are correlated"};
    }
    // no run of one occurs in the other
    std::set<std::array<double, 3>> runs;
    for (size_t i = 0; i + 2 < n; ++i)
      runs.insert({a[i], a[i + 1], a[i + 2]});
    for (size_t i = 0; i + 2 < n; ++i)
      if (runs.count({b[i], b[i + 1], b[i + 2]}))
        throw Fail{"randn: the second call repeats samples of the first"};
    if (T.draw(2)) {
      types t = (types)T.draw(4);
      bool threw = false;
      Gen G(T);
      Shape s = G.shape();
      bool like = T.draw(2);
      try {
        if (like) {
          Tensor x = Tensor::ones(to_sv(s), t);
          Tensor r = Tensor::randn_like(x);
        } else
          Tensor r = Tensor::randn(to_sv(s), t);
      } catch (const std::exception &) {
        threw = true;
      }
      if (!threw)
        throw Fail{std::string(like ? "randn_like" : "randn") + " of integer type " + tname(t) + ", shape " + shape_str(s) +
                   " was accepted"};
      label("integer type rejected");
    }
    label("pair");
    return true;
  }
  }
}

// ================================================================ C17 =======
static bool run_C17(Tape &T) {
  Cfg c;
  c.dual = true;
  c.model = false;
  c.pool_cap = 9;
  bool grad = T.chance(65);
  w(c, {{O_CONST, 4}, {O_ADD, 4}, {O_SUB, 4}, {O_MUL, 4}, {O_DIV, 3}, {O_NEG, 2}, {O_ABS, 3},
        {O_SUM, 2}, {O_MEAN, 2}, {O_MAX, 2}, {O_MIN, 2}, {O_CLONE, 1}, {O_TYPE, 2}, {O_DETACH, 1},
        {O_INDEX, 5}, {O_TRANSPOSE, 4}, {O_RESHAPE, 4}, {O_CONTIG, 2}, {O_CAT, 4}, {O_CMP, 3},
        {O_ALL, 2}, {O_LIKE, 1}, {O_INPLACE, 4}});
  if (grad) {
    c.grad = true;
    c.prof = P_GRAD;
    w(c, {{O_LEAF, 4}, {O_BACKWARD, 4}, {O_RETAIN, 2}});
  } else
    c.prof = some_prof(T, false);
  Engine E(T, c);
  E.G.cap = 20;
  E.fresh();
  int k = 3 + (int)T.draw(10);
  for (int i = 0; i < k; ++i)
    E.step();
  if (grad)
    E.rnd_backward();
  E.verify_all();
  if (E.n_backward)
    label("with gradients");
  return E.n_ops >= 2 && E.n_noncontig > 0;
}

// ------------------------------------------------------------------- table --
// ============================================================== specials ====
// A tensor of more than 2^32 elements or bytes, of which only small windows are
// touched; a sparse map holds the expected elements.
static bool giant(Tape &T, int k) {
  {
    std::ifstream mi("/proc/meminfo");
    std::string key;
    long long v = 0;
    while (mi >> key >> v) {
      if (key == "MemAvailable:")
        break;
      mi.ignore(100, '\n');
    }
    if (key != "MemAvailable:" || v < 15ll << 20)
      return false;
  }
  types t = k == 0 ? INNC::i8 : INNC::i16;
  size_t want = (t == INNC::i8 ? (1ull << 32) + (1ull << 28) : (1ull << 31) + (1ull << 26)) + 1000;
  auto dims = [&]() -> Shape {
    switch (T.draw(5)) {
    case 0: return {want};
    case 1: return {3, want / 3};
    case 2: return {want / 5, 5};
    case 3: return {65550, want / 65550 + 1};
    default: return {2, want / 14, 7};
    }
  };
  Shape bs = dims();
  size_t N = numel(bs);
  TR("zeros(" + shape_str(bs) + ", " + tname(t) + ")");
  Tensor base = Tensor::zeros(to_sv(bs), t);
  check_meta(base, bs, t, "a tensor of more than 2^32 bytes");
  if (!base.is_contiguous())
    throw Fail{"zeros is not contiguous"};
  std::map<size_t, int64_t> cells;
  Gen G(T);
  // a window of at most 60 elements of x, whose element c lies at sum c[d]*st[d]
  auto window = [&](Tensor &x, const Shape &s, const std::vector<size_t> &st, Tensor &out, MP &m) {
    std::vector<Idx> ix;
    std::vector<std::vector<size_t>> sel;
    Shape rs;
    size_t left = 60;
    for (size_t d = 0; d < s.size(); ++d) {
      Idx i;
      i128 n = (i128)s[d];
      i128 b = T.draw(3) == 0 ? (i128)T.draw(s[d]) : T.draw(2) ? n - 1 - (i128)T.draw(std::min<uint64_t>(s[d], 9)) : (i128)T.draw(std::min<uint64_t>(s[d], 9));
      if (T.draw(4) == 0 && n > (1ll << 31) + 50)
        b = (1ll << 31) - 20 + (i128)T.draw(40);
      else if (T.draw(2) && s[d] > 40) // the part behind 2^32 bytes
        b = n - 1 - (i128)T.draw(s[d] / 40);
      if (left < 2 || T.chance(35)) {
        i.is_int = true;
        i.at = T.draw(2) ? b : b - n;
        sel.push_back({(size_t)b});
      } else {
        size_t k = 1 + T.draw(std::min<size_t>(left, 7));
        i128 step = (i128)1 << T.draw(33);
        if (T.draw(3) == 0)
          step = 1;
        if (T.draw(2))
          step = -step;
        i128 e = b + step * (i128)k;
        i.s = step;
        i.b = T.draw(2) ? b : b - n;
        if (e > n || e < 0) {
          if (T.draw(2) && e > n)
            i.e = e;
        } else
          i.e = e;
        sel.push_back(py_slice(s[d], i));
        if (sel.back().size() > left) { // runs on to the end in small steps
          i.s = step < 0 ? -1 : 1;
          i.b = b;
          i.e = step < 0 ? std::max<i128>(b - 3, 0) : std::min<i128>(b + 3, n);
          sel.back() = py_slice(s[d], i);
        }
        rs.push_back(sel.back().size());
        left /= std::max<size_t>(sel.back().size(), 1);
      }
      ix.push_back(i);
    }
    std::string text = G.index_text(ix);
    m = m_new(rs, t);
    size_t p = 0;
    std::vector<size_t> pos;
    std::function<void(size_t, size_t)> rec = [&](size_t d, size_t q) {
      if (d == sel.size()) {
        pos.push_back(q);
        return;
      }
      for (size_t i : sel[d])
        rec(d + 1, q + i * st[d]);
    };
    rec(0, 0);
    for (size_t q : pos) {
      auto it = cells.find(q);
      m->st->v[p++].i = it == cells.end() ? 0 : it->second;
    }
    TR("window [\"" + text + "\"] of shape " + shape_str(s));
    out = x[text];
    check_values(out, *m, "[\"" + text + "\"] of a tensor of shape " + shape_str(s));
    return pos;
  };
  auto rowmajor = [](const Shape &s) {
    std::vector<size_t> st(s.size());
    size_t q = 1;
    for (size_t d = s.size(); d-- > 0; q *= s[d])
      st[d] = q;
    return st;
  };
  for (int step = 0; step < 60; ++step) {
    Tensor x;
    Shape s = bs;
    auto st = rowmajor(s);
    x = base;
    if (T.chance(50)) { // reshape: a view of the whole
      Shape r;
      size_t f = 1;
      for (size_t c : {2, 3, 5, 7, 11, 13})
        if (N % c == 0 && T.draw(2))
          f *= c;
      r = T.draw(2) ? Shape{f, N / f} : Shape{N / f, f};
      if (T.draw(3) == 0)
        r = {N};
      SignedVec sv;
      for (size_t v : r)
        sv.push_back((long long)v);
      if (T.draw(2))
        sv[T.draw(sv.size())] = -1;
      TR("reshape to " + shape_str(r));
      x = base.reshape(sv);
      check_meta(x, r, t, "reshape of a huge tensor");
      s = r;
      st = rowmajor(s);
    }
    if (s.size() > 1 && T.chance(40)) {
      size_t i = T.draw(s.size()), j = (i + 1 + T.draw(s.size() - 1)) % s.size();
      TR("transpose");
      x = x.transpose(i, j);
      std::swap(s[i], s[j]);
      std::swap(st[i], st[j]);
      check_meta(x, s, t, "transpose of a huge tensor");
    }
    auto str = x.stride();
    for (size_t d = 0; d < s.size(); ++d)
      if (s[d] > 1 && (unsigned long long)str[d] != st[d])
        throw Fail{"stride " + std::to_string(d) + " of a tensor of shape " + shape_str(s) + " is " + std::to_string(str[d])};
    Tensor v;
    MP m;
    auto pos = window(x, s, st, v, m);
    if (m->n() && T.chance(60)) {
      int8_t c = (int8_t)(1 + T.draw(3));
      TR("window += " + std::to_string((int)c));
      v += Tensor(c);
      for (size_t q : pos)
        if ((cells[q] += c) > 90)
          return true;
      for (size_t k = 0; k < m->n(); ++k)
        m->st->v[k].i += c;
      check_values(v, *m, "window of a huge tensor after +=");
    }
    if (T.chance(30)) {
      Tensor y = v.clone();
      check_values(y, *m, "clone of a window of a huge tensor");
      Tensor z = v + v.detach();
      auto mz = m_arith('+', m, m);
      check_values(z, *mz, "sum of windows of a huge tensor");
    }
    // views of the window, which may lie far behind the start of the storage
    for (int q = 0; q < 3; ++q) {
      Tensor y;
      MP my;
      if (m->shape.size() > 1 && T.draw(2)) {
        size_t i = T.draw(m->shape.size()), j = (i + 1 + T.draw(m->shape.size() - 1)) % m->shape.size();
        TR("transpose of the window");
        y = v.transpose(i, j);
        my = m_transpose(m, i, j);
      } else if (T.draw(2)) {
        Shape r;
        if (m->n() && m->n() % 2 == 0 && T.draw(2))
          r = {2, m->n() / 2};
        else
          r = {m->n()};
        TR("reshape of the window to " + shape_str(r));
        SignedVec sv;
        for (size_t e : r)
          sv.push_back((long long)e);
        y = v.reshape(sv);
        my = m_reshape(m, r);
      } else if (!m->shape.empty() && m->shape[0] > 0) {
        std::string e = std::to_string(T.draw(m->shape[0])) + (T.draw(2) ? ":" : "::-1");
        TR("[\"" + e + "\"] of the window");
        Idx i;
        i.b = std::stoll(e);
        if (e.back() == '1' && e.find("::-") != std::string::npos)
          i.s = -1;
        std::vector<Idx> ix{i};
        y = v[e];
        my = m_index(m, ix);
      } else {
        y = v.detach();
        my = m;
      }
      check_values(y, *my, "view of a window of a huge tensor");
      v = y;
      m = my;
    }
  }
  label("more than 2^32 bytes");
  return true;
}
static bool special_C14(Tape &T, int) {
  std::string err;
  unsigned seed = 1 + (unsigned)T.draw(1000);
  TR("handles that live until the program exits, seed " + std::to_string(seed));
  sub_process({"exit", std::to_string(seed)}, std::to_string(seed), &err);
  if (!WIFEXITED(g_sub_status) || WEXITSTATUS(g_sub_status) != 0)
    throw Fail{"a program whose tensors live until it exits ends with status " + std::to_string(g_sub_status) + ": " + err.substr(0, 300)};
  label("handles destroyed at exit");
  return true;
}
static std::vector<Tensor> g_global; // destroyed after the statics of later first uses
static std::optional<Tape> g_tape;
static std::optional<Engine> g_engine;
int sub_exit(unsigned seed) {
  for (int r = 0; r < 20; ++r) {
    g_engine.reset();
    g_tape.emplace();
    g_tape->seed(seed, 77, r);
    Cfg c;
    c.grad = true;
    c.prof = P_GRAD;
    for (int o = 0; o < O_COUNT; ++o)
      c.w[o] = 2;
    c.w[O_BACKWARD] = 6;
    g_engine.emplace(*g_tape, c);
    g_engine->G.cap = 20;
    for (int i = 0; i < 25; ++i)
      g_engine->step();
    for (auto &h : g_engine->pool) {
      Tensor x, y;
      x = h->t;
      y = h->t.grad();
      g_global.push_back(std::move(x));
      g_global.push_back(std::move(y));
    }
  }
  static std::vector<Tensor> late;
  for (auto &x : g_global) {
    late.emplace_back();
    late.back() = x;
  }
  return 0;
}
// Mean, variance, skewness and kurtosis of very many samples.
static void moments(const std::vector<double> &v, const std::string &w) {
  double n = (double)v.size(), m[5] = {};
  for (double x : v) {
    double p = x;
    for (int k = 1; k <= 4; ++k, p *= x)
      m[k] += p;
  }
  static const double mean[] = {1, 0, 1, 0, 3}, var[] = {0, 1, 2, 15, 96};
  for (int k = 1; k <= 4; ++k)
    if (std::fabs(m[k] / n - mean[k]) > (k < 3 ? 6.5 : 9) * std::sqrt(var[k] / n))
      throw Fail{w + ": the mean of x^" + std::to_string(k) + " over " + std::to_string(v.size()) + " samples is " +
                 std::to_string(m[k] / n) + ", not " + std::to_string(mean[k])};
}
static bool special_C16(Tape &T, int which) {
  if (which == 1) { // calls of every kind draw from streams that do not overlap
    unsigned a = 1 + (unsigned)T.draw(100000);
    TR("randn calls of many kinds in one program");
    std::istringstream in(sub_process({"kinds"}, std::to_string(a)));
    std::map<std::string, std::map<double, int>> got;
    std::string line;
    size_t total = 0;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      std::string kind;
      l >> kind;
      for (double x; l >> x; ++total)
        ++got[kind][x];
    }
    if (g_sub_status || total < 10000)
      throw Fail{"a program that calls randn fails"};
    // samples print with six decimals: fewer than one coincidence per pair is expected
    for (auto &x : got) {
      size_t rep = 0;
      for (auto &e : x.second)
        rep += (size_t)e.second - 1;
      if (rep > 20)
        throw Fail{"randn " + x.first + ": " + std::to_string(rep) + " samples of a run repeat earlier ones"};
      for (auto &y : got) {
        if (!(x.first < y.first))
          continue;
        size_t both = 0;
        for (auto &e : x.second)
          both += y.second.count(e.first) || y.second.count(-e.first);
        if (both > 25)
          throw Fail{"randn: " + std::to_string(both) + " samples of calls of kind " + x.first +
                     " occur among those of kind " + y.first};
      }
    }
    label("kinds of calls");
    return true;
  }
  if (which >= 2) {
    types t = which % 2 ? INNC::f32 : INNC::f64;
    Gen G(T);
    std::vector<double> v;
    bool small = which >= 6;
    size_t want = small ? 250000 : 1500000, n = 30000 + T.draw(20000);
    TR(std::string("moments of ") + (small ? "small" : "large") + " randn calls " + tname(t));
    while (v.size() < want) {
      Shape s = small ? Shape(T.draw(3), 1 + T.draw(2)) : Shape{n};
      auto x = draw_randn(T, G, s, t, T.draw(4) == 0);
      v.insert(v.end(), x.begin(), x.end());
    }
    moments(v, std::string(small ? "small" : "large") + " randn calls " + tname(t));
    label("moments of very many samples");
    return true;
  }
  unsigned a = 1 + (unsigned)T.draw(100000), b = a + 1 + (unsigned)T.draw(100000);
  TR("randn in two runs of a program");
  std::set<size_t> same; // positions at which both runs agree, every time
  for (int i = 0; i < 3; ++i) { // a seed taken from the clock may repeat within its tick
    std::istringstream x(sub_process({"rnd"}, std::to_string(a + i)));
    bool bad = g_sub_status;
    std::istringstream y(sub_process({"rnd"}, std::to_string(b + i)));
    if (bad || g_sub_status)
      throw Fail{"a program that calls randn fails"};
    std::set<size_t> eq;
    std::string p, q;
    size_t n = 0;
    for (; x >> p && y >> q; ++n)
      if (p == q && (i == 0 || same.count(n)))
        eq.insert(n);
    if (n < 100)
      throw Fail{"a program that calls randn fails"};
    same = eq;
    if (same.empty())
      break;
    sleep(1);
  }
  if (!same.empty())
    throw Fail{"randn returns the same samples in every run of a program, at " + std::to_string(same.size()) +
               " places, the first being sample " + std::to_string(*same.begin())};
  label("two runs");
  return true;
}
int sub_kinds() {
  uint64_t r = 12345;
  auto next = [&](size_t n) {
    r = r * 6364136223846793005ull + 1442695040888963407ull;
    return (size_t)(r >> 33) % n;
  };
  const std::vector<SizeVec> shapes = {{}, {1}, {1, 1}, {2}, {5}, {2, 3}, {40}};
  std::vector<size_t> count(shapes.size() * 4);
  for (size_t left = count.size(); left;) {
    size_t k = next(count.size()), sh = k / 4;
    types t = k % 2 ? INNC::f32 : INNC::f64;
    if (count[k] >= 1200)
      continue;
    Tensor x;
    if (k / 2 % 2)
      x = Tensor::randn_like(Tensor::ones(shapes[sh], t));
    else
      x = Tensor::randn(shapes[sh], t);
    if ((count[k] += x.numel()) >= 1200)
      --left;
    std::string s = x.to_string(), name;
    for (char &c : s)
      if (c == '[' || c == ']' || c == ',')
        c = ' ';
    for (char c : shapes[sh].to_string())
      if (c != ' ')
        name += c;
    printf("%s%s:%s %s\n", k / 2 % 2 ? "like" : "", name.c_str(), tname(t), s.c_str());
  }
  return 0;
}
int sub_rnd() {
  auto show = [](const Tensor &t) {
    std::string s = t.to_string();
    for (char &c : s)
      if (c == '[' || c == ']' || c == ',')
        c = ' ';
    printf("%s\n", s.c_str());
  };
  for (int i = 0; i < 6; ++i) {
    show(Tensor::randn({8}, INNC::f64));
    show(Tensor::randn({2, 3}, INNC::f32));
    show(Tensor::randn_like(Tensor::ones({3}, i % 2 ? INNC::f32 : INNC::f64)));
    show(Tensor::randn({}, i % 2 ? INNC::f64 : INNC::f32));
  }
  return 0;
}

// ================================================================ C18 =======
static bool run_C18(Tape &T) {
  Cfg c;
  bool grad = T.chance(60);
  c.pool_cap = 7;
  c.fault = 45;
  w(c, {{O_CONST, 3}, {O_ADD, 3}, {O_SUB, 3}, {O_MUL, 3}, {O_DIV, 2}, {O_NEG, 2}, {O_ABS, 2},
        {O_SUM, 2}, {O_MEAN, 2}, {O_MAX, 1}, {O_MIN, 1}, {O_CLONE, 2}, {O_TYPE, 3}, {O_DETACH, 2},
        {O_INDEX, 4}, {O_TRANSPOSE, 3}, {O_RESHAPE, 4}, {O_RESHAPE_AS, 1}, {O_CONTIG, 2}, {O_CAT, 4},
        {O_CMP, 3}, {O_LIKE, 2}, {O_INPLACE, 4}});
  if (grad) {
    c.grad = true;
    c.prof = P_GRAD;
    w(c, {{O_LEAF, 4}, {O_BACKWARD, 5}, {O_RETAIN, 1}, {O_ZEROGRAD, 1}});
  } else
    c.prof = some_prof(T, false);
  Engine E(T, c);
  E.G.cap = 16;
  E.fresh();
  E.fresh();
  int k = 2 + (int)T.draw(8);
  for (int i = 0; i < k; ++i)
    E.step();
  if (T.chance(50)) { // creation, reading and overwriting
    types t = grad ? E.G.float_type() : E.G.any_type();
    Num one = isf(t) ? mkn(1.0) : mkn((int64_t)1);
    Shape s = E.G.shape(4);
    auto m = m_new(s, t);
    for (auto &v : m->st->v)
      v = one;
    switch (T.draw(8)) {
    case 0: E.inject(m, [&] { return Tensor::ones(to_sv(s), t); }, "ones(" + shape_str(s) + ")"); break;
    case 1: E.inject(m, [&] { return Tensor::full(to_sv(s), (std::int64_t)1, t); }, "full(" + shape_str(s) + ", 1)"); break;
    case 2: E.inject(m, [&] { return Tensor::full(to_sv(s), 1.0, t); }, "full(" + shape_str(s) + ", 1.0)"); break;
    case 3: {
      size_t n = 1 + T.draw(5);
      m = m_new({n, n}, t);
      for (size_t i = 0; i < n; ++i)
        m->st->v[i * n + i] = one;
      E.inject(m, [&] { return Tensor::eye(n, t); }, "eye(" + std::to_string(n) + ")");
      break;
    }
    case 4: {
      HP a = E.any();
      std::string want = a->t.to_string(); // compared with the model when a was made
      E.inject(a->m, [&] {
        Tensor r;
        r = a->t;
        if (r.to_string() != want)
          throw Fail{"to_string() is wrong"};
        return r; }, E.nm(a) + ".to_string()");
      break;
    }
    case 5: {
      HP a = E.any();
      bool want = true;
      for (size_t i = 0; i < a->m->n(); ++i)
        want &= a->m->d(i) != 0;
      E.inject(a->m, [&] {
        Tensor r;
        r = a->t;
        if (r.all() != want)
          throw Fail{"all() is wrong"};
        return r; }, E.nm(a) + ".all()");
      break;
    }
    case 6: { // a handle that is overwritten keeps its old tensor
      Shape is = init_shape(T);
      auto mi = m_new(is, t);
      auto sty = E.G.style(t, P_SMALL);
      for (auto &v : mi->st->v)
        v = E.G.num(t, sty);
      size_t p = 0;
      Node root = nest(is, 0, t, mi->st->v, p);
      HP a = E.any();
      E.inject(mi, [&] {
        Tensor r;
        r = a->t;
        try {
          r = build(root);
        } catch (const std::exception &) {
          if (from_sv(r.size()) != a->m->shape)
            throw Fail{"a handle changed although assigning to it failed"};
          throw;
        }
        return r; }, E.nm(a) + " = " + show(root));
      break;
    }
    default: {
      HP a = E.make(s, t, grad ? P_GRAD : P_SMALL, false);
      std::vector<char> blob(a->m->n() * 8 + 8);
      with_type(t, [&](auto z) {
        using Q = decltype(z);
        for (size_t i = 0; i < a->m->n(); ++i) {
          Q q = getn<Q>(a->m->at(i));
          memcpy(blob.data() + i * sizeof(Q), &q, sizeof(Q));
        }
        return 0;
      });
      E.inject(a->m, [&] { return Tensor::from_blob(blob.data(), to_sv(s), t); }, "from_blob");
    }
    }
  }
  if (grad) {
    E.cfg.fault = 0; // what is left still differentiates correctly
    E.rnd_backward();
  }
  E.verify_all();
  if (E.n_backward)
    label("backward after failures");
  return E.n_fault >= 2;
}

// ================================================================ C19 =======
// Runs f(k) for k < n in n threads that start together; the first complaint of
// any of them becomes the case's.
template <class F> static void concurrently(size_t n, F f) {
  std::vector<std::string> msg(n);
  std::vector<int> last(n);
  std::vector<std::thread> th;
  std::atomic<size_t> ready{0};
  int id = g_next_id;
  for (size_t k = 0; k < n; ++k)
    th.emplace_back([&, k] {
      g_next_id = id;
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) {
      }
      try {
        f(k);
      } catch (const Fail &e) {
        msg[k] = e.msg;
      } catch (const std::exception &e) {
        msg[k] = std::string("unexpected exception: ") + e.what();
      }
      last[k] = g_next_id;
    });
  for (auto &t : th)
    t.join();
  for (size_t k = 0; k < n; ++k)
    g_next_id = std::max(g_next_id, last[k]);
  for (size_t k = 0; k < n; ++k)
    if (!msg[k].empty())
      throw Fail{"thread " + std::to_string(k + 1) + " of " + std::to_string(n) + ": " + msg[k]};
}
static Cfg thread_cfg() {
  Cfg c;
  c.grad = true;
  c.prof = P_GRAD;
  c.pool_cap = 10;
  for (int o = 0; o < O_COUNT; ++o)
    c.w[o] = 2;
  w(c, {{O_BACKWARD, 9}, {O_ERROR, 1}, {O_LEAF, 3}, {O_ZEROGRAD, 3}});
  return c;
}
static bool grad_sub(Tape &T) { return run_grad(T, true); }
static bool history_sub(Tape &T) {
  Engine E(T, thread_cfg());
  E.G.cap = 16;
  E.fresh();
  int k = 3 + (int)T.draw(12);
  for (int i = 0; i < k; ++i)
    E.step();
  E.rnd_backward();
  E.verify_all();
  return E.n_ops >= 2;
}
// every thread runs a case of its own on its own tensors
static bool threads_apart(Tape &T) {
  struct Sub {
    const char *what;
    bool (*run)(Tape &);
  };
  static const Sub subs[] = {{"history", history_sub}, {"backward", grad_sub}, {"gradients", run_C12},
                             {"arithmetic", run_C01},  {"comparison", run_C02}, {"reduction", run_C03},
                             {"indexing", run_C04},    {"layout", run_C05},    {"cat", run_C06},
                             {"creation", run_C07},    {"conversion", run_C08}, {"aliases", run_C09},
                             {"rejection", run_C13},   {"relayout", run_C17}};
  size_t n = 2 + T.draw(3);
  std::vector<std::vector<uint64_t>> seg(n);
  std::vector<int> kind(n);
  bool same = T.chance(40), nt = true;
  for (size_t k = 0; k < n; ++k) {
    kind[k] = same && k ? kind[0] : (int)T.weighted({8, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1});
    TR("thread " + std::to_string(k + 1) + ": " + subs[kind[k]].what);
    T.also = &seg[k];
    nt &= subs[kind[k]].run(T); // alone first: fixes the thread's choices
    T.also = nullptr;
  }
  for (int r = 0; r < 2; ++r)
    concurrently(n, [&](size_t k) {
      Tape U;
      U.mode = Tape::REPLAY;
      U.in = seg[k].data();
      U.in_n = seg[k].size();
      try {
        subs[kind[k]].run(U);
      } catch (const Fail &f) {
        throw Fail{std::string(subs[kind[k]].what) + ": right when run alone, but among threads: " + f.msg};
      }
    });
  label(same ? "threads doing the same" : "threads doing different things");
  return nt;
}
// tensors made in one thread, used in another, looked at in a third
static bool threads_handover(Tape &T) {
  size_t n = 2 + T.draw(3);
  std::vector<std::unique_ptr<Tape>> tape;
  std::vector<std::unique_ptr<Engine>> E;
  std::vector<int> more;
  int rounds = 1 + (int)T.draw(2);
  for (size_t k = 0; k < n; ++k) {
    tape.push_back(std::make_unique<Tape>());
    uint64_t seed = T.draw(0);
    tape[k]->seed(seed, 19, k);
    E.push_back(std::make_unique<Engine>(*tape[k], thread_cfg()));
    E[k]->G.cap = 16;
    int first = (int)T.draw(10);
    more.push_back((int)T.draw(10));
    TR("made by the first thread: seed " + std::to_string(seed) + ", " + std::to_string(first) + " steps, then " +
       std::to_string(more[k]) + " in another");
    E[k]->fresh();
    for (int i = 0; i < first; ++i)
      E[k]->step();
  }
  for (int r = 0; r < rounds; ++r)
    concurrently(n, [&](size_t k) {
      for (int i = 0; i < more[k]; ++i)
        E[k]->step();
      E[k]->rnd_backward();
      E[k]->verify_all();
    });
  for (auto &e : E) {
    e->rnd_backward();
    e->verify_all();
  }
  if (T.chance(50))
    concurrently(n, [&](size_t k) { E[k].reset(); });
  label("tensors handed to another thread");
  return true;
}
// tensors that several threads read at the same time
static bool threads_shared(Tape &T) {
  Cfg c;
  c.grad = true;
  c.prof = P_GRAD;
  Engine E(T, c);
  E.G.cap = 16;
  std::vector<HP> sh;
  size_t m = 1 + T.draw(3);
  for (size_t i = 0; i < m; ++i)
    sh.push_back(i && T.chance(60) ? E.make(sh[0]->m->shape, E.rnd_type(), P_GRAD)
                                   : E.make(E.G.shape(3), E.rnd_type(), P_GRAD));
  // one that requires gradients and has one: read, but not differentiated again
  HP lf = E.make(E.G.shape(3), E.G.float_type(), P_GRAD, true);
  {
    Tensor s = (lf->t * lf->t).sum();
    s.backward();
  }
  struct Job {
    int op;
    HP a, b;
    uint64_t x, y;
  };
  auto same = [](const Tensor &t) {
    Tensor h;
    h = t;
    return h;
  };
  auto text = [](const Tensor &t) { return t.size().to_string() + " " + t.to_string(); };
  auto exec = [&](const Job &j) -> std::string {
    Tensor &a = j.a->t, &b = j.b->t;
    try {
      switch (j.op) {
      case 0: return text(a + b);
      case 1: return text(a * b);
      case 2: return text(a - b);
      case 3: return text(a < b);
      case 4: return text(a != b);
      case 5: return text(a.sum()) + text(a.mean());
      case 6: return a.numel() ? text(a.max()) + text(a.min()) : "";
      case 7: return text(a.abs()) + text(-a);
      case 8: return text(a.clone()) + text(a.contiguous());
      case 9: return text(a.detach()) + std::to_string(a.requires_grad());
      case 10: return text(a.type((types)(INNC::f32 + j.x % 2)));
      case 11: return a.dim() >= 2 ? text(a.transpose(j.x % a.dim(), j.y % a.dim())) : "";
      case 12: return a.dim() >= 1 ? text(a[j.x % 2 ? "::-1" : "1:"]) : "";
      case 13: return text(a.reshape({-1}));
      case 14: return text(a.reshape_as(b));
      case 15: {
        std::vector<Tensor> v;
        v.push_back(same(a));
        v.push_back(same(b));
        return a.dim() ? text(Tensor::cat(v, j.x % a.dim())) : "";
      }
      case 16: return text(Tensor::ones_like(a)) + text(Tensor::zeros_like(b));
      case 17: return std::to_string(a.all()) + std::to_string(a.is_contiguous()) + a.stride().to_string() +
                      std::to_string(a.dim());
      case 18: return text(same(a)) + text(a);
      case 19: return a.grad().to_string();
      case 20: { // a graph of its own over what is shared
        Tensor p = Tensor::full(a.size(), 0.5, INNC::f64);
        p.requires_grad(true);
        Tensor ad = a.detach(), bd = b.detach();
        Tensor s = (p * ad + p * p).sum();
        s.backward();
        return text(p.grad()) + text(bd * p.detach());
      }
      case 21: return text((a * b).sum()); // no backward: nothing is written
      case 22: {
        Tensor s = a.detach();
        Tensor v = s.dim() ? s["-1"] : same(s);
        return text(v);
      }
      }
    } catch (const std::exception &e) {
      return "rejected";
    }
    return "";
  };
  size_t n = 2 + T.draw(3);
  std::vector<std::vector<Job>> jobs(n);
  std::vector<std::vector<std::string>> want(n);
  for (size_t k = 0; k < n; ++k) {
    size_t len = 1 + T.draw(8);
    for (size_t i = 0; i < len; ++i) {
      auto pick = [&]() -> HP { return T.chance(20) ? lf : sh[T.draw(sh.size())]; };
      int op = (int)T.draw(23);
      HP a = pick(), b = pick();
      uint64_t x = T.draw(4), y = T.draw(4);
      jobs[k].push_back({op, a, b, x, y});
      TR("thread " + std::to_string(k + 1) + ": operation " + std::to_string(op) + " on " + E.nm(a) + ", " + E.nm(b));
    }
  }
  // after the threads, so that nothing has been computed before they start
  std::vector<std::vector<std::string>> got(n);
  concurrently(n, [&](size_t k) {
    for (auto &j : jobs[k])
      got[k].push_back(exec(j));
  });
  for (size_t k = 0; k < n; ++k)
    for (size_t i = 0; i < jobs[k].size(); ++i) {
      std::string alone = exec(jobs[k][i]);
      if (alone != got[k][i])
        throw Fail{"thread " + std::to_string(k + 1) + ": operation " + std::to_string(jobs[k][i].op) + " on shared " +
                   E.nm(jobs[k][i].a) + ", " + E.nm(jobs[k][i].b) + " gives " + got[k][i].substr(0, 200) +
                   " among threads and " + alone.substr(0, 200) + " alone"};
    }
  for (auto &h : sh)
    E.verify_values(h);
  label("tensors read by several threads");
  return true;
}
static bool threads_randn(Tape &T) {
  size_t n = 2 + T.draw(3), len = 1 + T.draw(64);
  types t = T.draw(2) ? INNC::f64 : INNC::f32;
  TR(std::to_string(n) + " threads draw randn({" + std::to_string(len) + "}, " + tname(t) + ") twice");
  std::vector<std::string> out(2 * n);
  concurrently(n, [&](size_t k) {
    for (int r = 0; r < 2; ++r)
      out[2 * k + r] = Tensor::randn({len}, t).to_string();
  });
  std::map<std::string, int> seen;
  for (auto &s : out) {
    Parsed p;
    parse_tensor(s, {len}, p, "randn among threads");
    for (auto &x : p.tok) {
      double v = tok_val(x, "randn among threads");
      if (!(std::fabs(v) < 40))
        throw Fail{"randn among threads yields " + x};
    }
    if (len >= 8 && seen[s]++)
      throw Fail{"two randn calls of different threads return the same samples: " + s.substr(0, 200)};
  }
  label("randn in several threads");
  return true;
}
static bool run_C19(Tape &T) {
  switch (T.weighted({50, 20, 25, 5})) {
  case 0: return threads_apart(T);
  case 1: return threads_handover(T);
  case 2: return threads_shared(T);
  default: return threads_randn(T);
  }
}
// First use of everything in a fresh process, by several threads at once.
static bool special_C19(Tape &T, int k) {
  if (k % 2 == 0)
    threads_randn(T);
  uint64_t seed = T.draw(0);
  TR("first use of the library by four threads, seed " + std::to_string(seed));
  concurrently(4, [&](size_t i) {
    Tape U;
    U.seed(seed, 1900, i / 2); // two pairs that do the same
    history_sub(U);
    switch ((k / 2 + i / 2) % 4) {
    case 0: run_C07(U); break;
    case 1: run_C04(U); break;
    case 2: run_C06(U); break;
    default: run_C13(U);
    }
  });
  label("first use by several threads");
  return true;
}

const std::vector<Prop> g_props = {
    {"C01", run_C01, "1-3 arithmetic or unary operations on generated operands (shape 0-6 axes, 6 types, values up to the type's limits, generated view layouts), compared element by element with a scalar C++ model; non-trivial: broadcasting, mixed types or a non-contiguous operand was involved"},
    {"C02", run_C02, "comparisons of operands biased to equal and neighbouring values, and all() on almost-all-non-zero tensors; non-trivial: the comparison has both outcomes, or all() saw more than one element"},
    {"C03", run_C03, "sum, mean, max, min of a generated tensor/view with extreme values outside the view, one-sided and wide data; non-trivial: more than one element"},
    {"C04", run_C04, "1-3 chained index strings printed from Python-style index values (or malformed ones) on generated layouts, compared with Python slice rules; non-trivial: a proper non-empty selection or a rejected malformed string", 2, giant},
    {"C05", run_C05, "1-5 transpose/reshape/reshape_as/contiguous/clone/index steps on a tensor with distinct elements, values, strides and contiguity compared with an explicit index list; non-trivial: result with more than one element", 2, giant},
    {"C06", run_C06, "cat of 1-35 generated inputs (repeated, zero-length, strided, mixed types) along any axis; non-trivial: at least two inputs"},
    {"C07", run_C07, "every creation function with generated arguments and printing through generated layouts, compared text-exactly; non-trivial: more than one element (or nested list, several tensors)"},
    {"C08", run_C08, "type() between all 36 type pairs on generated layouts with values at type limits; non-trivial: conversion to another type of more than one element"},
    {"C09", run_C09, "4-18 step histories of views, in-place updates and copies; every live tensor is compared with a storage-slot model after every step; non-trivial: an in-place update was visible through another live tensor", 2, giant},
    {"C10", run_C10, "random expression DAGs over leaves/constants, differentiated; every leaf gradient compared with a reverse-mode model (itself checked against finite differences); non-trivial: a backward pass over at least two operations"},
    {"C11", run_C11, "random expression DAGs with views, reshapes, cat, detach and retained intermediates; gradients compared with the model; non-trivial: a backward pass over at least two operations including a view"},
    {"C12", run_C12, "5-20 step histories of building, differentiating, zero_grad, retain_grad, switching requires_grad and updating leaves; all gradients, flags and values compared after every step; non-trivial: at least two backward passes"},
    {"C13", run_C13, "histories mixing valid operations with generated invalid requests; each must throw and leave every live tensor as modelled; non-trivial: at least one request was rejected"},
    {"C14", run_C14, "histories that drop, move, overwrite and reassign handles under AddressSanitizer, plus deep chains; non-trivial: at least two handles dropped or moved among at least two operations, or a deep chain", 1, special_C14},
    {"C15", run_C15, "a generated history is run once and then replayed; live heap bytes before and after each replay must agree; non-trivial: at least three operations with a backward pass or a rejected call"},
    {"C16", run_C16, "large, pooled-small and paired randn calls; moments, KS, lag correlations at 8.5 sigma, repeats and shapes; every case is non-trivial (thousands of samples or eight shapes)", 8, special_C16},
    {"C17", run_C17, "the same history executed twice on operands with independently generated layouts (some re-cloned); results and gradients must agree; non-trivial: at least two operations with a non-contiguous operand"},
    {"C18", run_C18, "2-9 step histories in which generated operations are first run with their k-th memory allocation failing (k drawn over all allocations of the call, three times each), then normally; every live tensor is compared with the model and live heap bytes with those before; non-trivial: at least two allocations failed"},
    {"C19", run_C19, "2-4 threads, each running generated cases on its own tensors (checked against the model), on tensors made by another thread, reading shared tensors, or drawing randn, with the whole library under ThreadSanitizer; non-trivial: every thread's case is non-trivial by its own rule", 8, special_C19},
};

// ------------------------------------------------------------------ probes --
std::string probe_reuse_after_backward() {
  Tensor a = Tensor::ones({2}, INNC::f64);
  a.requires_grad(true);
  Tensor y = a * Tensor(2.0);
  Tensor s = y.sum();
  s.backward();
  Tensor z = (y * Tensor(3.0)).sum();
  z.backward();
  std::string g = a.grad().to_string();
  return g == "[8.000000, 8.000000]" ? "" : g;
}
