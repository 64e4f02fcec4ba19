// Driver: forked workers over generated cases, crash/hang detection, shrinking,
// replay.   harness run|replay|probe ...
#include "props.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern TLS bool g_trace;
extern TLS std::string *g_sample;
extern TLS std::map<std::string, uint64_t> g_labels;

// Linked with --wrap: every allocation of the library and the harness.
TLS long g_alloc_count = 0, g_alloc_fail = 0;
TLS bool g_alloc_hit = false;
#ifndef TSAN // no allocation failures among threads
extern "C" {
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
#ifndef FUZZ // the fuzzer keeps malloc as it is
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
#endif
static bool alloc_fails(size_t n) {
  if (n >> 42) // no machine has that much
    return true;
  ++g_alloc_count;
  if (g_alloc_fail > 0 && --g_alloc_fail == 0)
    return g_alloc_hit = true;
  return false;
}
void *__wrap__Znwm(size_t n) {
  if (alloc_fails(n))
    throw std::bad_alloc();
  return __real__Znwm(n);
}
void *__wrap__Znam(size_t n) {
  if (alloc_fails(n))
    throw std::bad_alloc();
  return __real__Znam(n);
}
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) {
  return alloc_fails(n) ? nullptr : __real__ZnwmRKSt9nothrow_t(n, t);
}
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) {
  return alloc_fails(n) ? nullptr : __real__ZnamRKSt9nothrow_t(n, t);
}
#ifndef FUZZ
void *__wrap_malloc(size_t n) { return alloc_fails(n) ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return alloc_fails(n) ? nullptr : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return alloc_fails(n) ? nullptr : __real_realloc(p, n); }
#endif
}
#endif

// The library seeds its generator from std::random_device; a fixed answer
// makes every run a function of the code and VERIF_SEED.
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) {
  static std::atomic<uint32_t> x = [] {
    const char *s = getenv("HARNESS_RD");
    return s ? (uint32_t)strtoul(s, nullptr, 10) * 2654435761u + 12345u : 12345u;
  }();
  uint32_t v = x.load(std::memory_order_relaxed), n;
  do
    n = v * 1664525u + 1013904223u;
  while (!x.compare_exchange_weak(v, n, std::memory_order_relaxed));
  return n;
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static const size_t CAP = 1 << 18;
struct Slot { // one per worker, in shared memory
  volatile uint64_t cur, done, nontrivial, state; // state 1: failed cleanly
  volatile uint64_t n;
  char msg[2048];
  uint64_t tape[CAP];
};
static void *shm(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return p;
}
static void cpu_limit(int sec) {
  struct itimerval it = {};
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
#ifdef TSAN
  alarm(sec * 5); // threads that wait for each other use no processor time
#endif
}
static int g_limit = 30;
static const Prop *find_prop(const char *id) {
  for (auto &p : g_props)
    if (!strcmp(p.id, id))
      return &p;
  fprintf(stderr, "unknown property %s\n", id);
  exit(2);
}
// Runs one case; true: property held. msg set otherwise.
static bool run_case(const Prop &p, Tape &T, std::string &msg, bool &nontriv) {
  try {
    uint64_t sp = p.n_special ? T.special(p.n_special + 1) : 0;
    nontriv = sp ? p.special(T, (int)sp - 1) : p.run(T);
    return true;
  } catch (const Fail &f) {
    msg = f.msg;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
  }
  return false;
}
static void seed_case(Tape &T, uint64_t seed, const Prop &p, uint64_t i) {
  uint64_t h = 0;
  for (const char *c = p.id; *c; ++c)
    h = h * 131 + *c;
  T.seed(seed, h, i);
  T.forced = i < (uint64_t)p.n_special ? i + 1 : 0;
}
static std::string read_file(const std::string &f, size_t max = 1 << 20) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  return s.size() > max ? s.substr(0, max) : s;
}
static std::string sanitizer_summary(const std::string &err) {
  for (const char *key : {"WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "ERROR: AddressSanitizer", "runtime error:", "AddressSanitizer:", "terminate called"}) {
    size_t p = err.find(key);
    if (p != std::string::npos) {
      size_t b = err.rfind('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      return err.substr(b, err.find('\n', p) - b);
    }
  }
  return "";
}
static std::string death(int st, const std::string &err) {
  std::string s = sanitizer_summary(err);
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF)
      return "the case did not finish within " + std::to_string(g_limit) + " s of processor time";
    if (WTERMSIG(st) == SIGALRM)
      return "the case did not finish: its threads wait for each other";
    return std::string("killed by signal ") + strsignal(WTERMSIG(st)) + (s.empty() ? "" : ": " + s);
  }
  return "process ended with status " + std::to_string(WEXITSTATUS(st)) + (s.empty() ? "" : ": " + s);
}
static std::string tmpdir;

// Runs a tape in a child. 0 pass, 1 fails cleanly, 2 dies.
static int try_tape(const Prop &p, const std::vector<uint64_t> &tape, Slot *slot, std::string &msg,
                    std::vector<uint64_t> *used = nullptr) {
  slot->n = 0;
  slot->state = 0;
  slot->msg[0] = 0;
  std::string ef = tmpdir + "/shrink.err";
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    cpu_limit(g_limit);
    Tape T;
    T.mode = Tape::REPLAY;
    T.in = tape.data();
    T.in_n = tape.size();
    T.rec = slot->tape;
    T.rec_n = &slot->n;
    T.rec_cap = CAP;
    std::string m;
    bool nt;
    bool ok = run_case(p, T, m, nt);
    snprintf(slot->msg, sizeof slot->msg, "%s", m.c_str());
    _exit(ok ? 0 : 10);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (used)
    used->assign(slot->tape, slot->tape + slot->n);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
    msg = slot->msg;
    return 1;
  }
  msg = death(st, read_file(ef));
  return 2;
}
static void shrink(const Prop &p, std::vector<uint64_t> &tape, std::string &msg, int kind, Slot *slot,
                   double budget, uint64_t &tries) {
  double end = now() + budget;
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (now() > end)
      return false;
    ++tries;
    std::string m;
    std::vector<uint64_t> used;
    int k = try_tape(p, cand, slot, m, &used);
    if (k != kind)
      return false;
    if (used.size() < cand.size())
      tape = used;
    else
      tape = cand;
    while (!tape.empty() && tape.back() == 0)
      tape.pop_back();
    msg = m;
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t sz = std::max<size_t>(tape.size() / 2, 1); sz >= 1; sz /= 2) {
      for (size_t i = 0; i < tape.size() && now() < end;) {
        std::vector<uint64_t> c = tape;
        size_t e = std::min(i + sz, c.size());
        c.erase(c.begin() + i, c.begin() + e);
        if (attempt(c)) {
          progress = true;
          continue;
        }
        c = tape;
        bool nz = false;
        for (size_t k = i; k < std::min(i + sz, c.size()); ++k)
          nz |= c[k] != 0, c[k] = 0;
        if (nz && attempt(c))
          progress = true;
        i += sz;
      }
    }
    for (size_t i = 0; i < tape.size() && now() < end; ++i) {
      for (int r = 0; r < 8 && i < tape.size() && tape[i] > 0; ++r) {
        std::vector<uint64_t> c = tape;
        c[i] = c[i] / 2;
        if (attempt(c)) {
          progress = true;
          continue;
        }
        c = tape;
        c[i] = c[i] - 1;
        if (!attempt(c))
          break;
        progress = true;
      }
    }
  }
}
static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      r += '\\', r += (char)c;
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}
static std::string arg(int argc, char **argv, const char *k, const char *d) {
  for (int i = 2; i + 1 < argc; ++i)
    if (!strcmp(argv[i], k))
      return argv[i + 1];
  return d;
}
// trace of a tape, for the replay file
static std::string trace_of(const Prop &p, const std::vector<uint64_t> &tape) {
  std::string f = tmpdir + "/trace.txt";
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1);
    dup2(open("/dev/null", O_WRONLY), 2);
    cpu_limit(g_limit);
    g_trace = true;
    Tape T;
    T.mode = Tape::REPLAY;
    T.in = tape.data();
    T.in_n = tape.size();
    std::string m;
    bool nt;
    run_case(p, T, m, nt);
    fflush(stdout);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  return read_file(f, 20000);
}

static int cmd_run(int argc, char **argv) {
  const Prop &p = *find_prop(arg(argc, argv, "--prop", "").c_str());
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  uint64_t N = strtoull(arg(argc, argv, "--cases", "1000").c_str(), nullptr, 10);
  int W = atoi(arg(argc, argv, "--workers", "8").c_str());
  double budget = atof(arg(argc, argv, "--budget", "600").c_str());
  double shrink_budget = atof(arg(argc, argv, "--shrink", "45").c_str());
  g_limit = atoi(arg(argc, argv, "--cpu", "40").c_str());
  std::string out = arg(argc, argv, "--out", "result.json");
  std::string replay = arg(argc, argv, "--replay", "replay.txt");
  std::string reuse = arg(argc, argv, "--tape", ""); // a failing tape from elsewhere
  tmpdir = arg(argc, argv, "--tmp", "/tmp");

  Slot *slots = (Slot *)shm(sizeof(Slot) * (W + 1));
  double t0 = now(), end = t0 + budget;
  std::vector<pid_t> pid(W);
  std::vector<uint64_t> failed_tape;
  std::string msg;
  int fail_worker = -1, fail_kind = 0;
  uint64_t fail_case = 0, total = 0, nontrivial = 0, distinct = 0;
  if (reuse.empty()) {
    for (int wk = 0; wk < W; ++wk) {
      slots[wk].cur = ~0ull;
      pid[wk] = fork();
      if (pid[wk] == 0) {
        std::string base = tmpdir + "/w" + std::to_string(wk);
        int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        Slot &S = slots[wk];
        std::vector<uint64_t> hashes;
        std::vector<std::string> samples;
        for (uint64_t i = wk; i < N; i += W) {
          if (now() > end)
            break;
          S.cur = i;
          S.n = 0;
          cpu_limit(g_limit);
          Tape T;
          seed_case(T, seed, p, i);
          T.rec = S.tape;
          T.rec_n = &S.n;
          T.rec_cap = CAP;
          std::string m, smp;
          bool nt = false;
          bool want = wk == 0 && samples.size() < 4;
          g_sample = want ? &smp : nullptr;
          bool ok = run_case(p, T, m, nt);
          g_sample = nullptr;
          S.done = S.done + 1;
          if (!ok) {
            snprintf(S.msg, sizeof S.msg, "%s", m.c_str());
            S.state = 1;
            _exit(10);
          }
          if (nt) {
            S.nontrivial = S.nontrivial + 1;
            hashes.push_back(T.hash);
            if (want && smp.size() < 2500)
              samples.push_back(smp);
          }
        }
        cpu_limit(0);
        std::ofstream o(base + ".out", std::ios::binary);
        o << hashes.size() << "\n";
        for (auto h : hashes)
          o << h << "\n";
        o << g_labels.size() << "\n";
        for (auto &l : g_labels)
          o << l.second << " " << l.first << "\n";
        o << samples.size() << "\n";
        for (auto &s : samples)
          o << s.size() << "\n" << s << "\n";
        o.close();
        _exit(0);
      }
    }
    int left = W;
    while (left > 0) {
      int st;
      pid_t q = waitpid(-1, &st, 0);
      if (q < 0)
        break;
      int wk = -1;
      for (int i = 0; i < W; ++i)
        if (pid[i] == q)
          wk = i;
      if (wk < 0)
        continue;
      --left;
      pid[wk] = 0;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        continue;
      if (fail_worker >= 0)
        continue;
      fail_worker = wk;
      fail_case = slots[wk].cur;
      failed_tape.assign(slots[wk].tape, slots[wk].tape + slots[wk].n);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
        fail_kind = 1;
        msg = slots[wk].msg;
      } else {
        fail_kind = 2;
        msg = death(st, read_file(tmpdir + "/w" + std::to_string(wk) + ".err"));
      }
      for (int i = 0; i < W; ++i)
        if (pid[i])
          kill(pid[i], SIGKILL);
    }
    for (int i = 0; i < W; ++i) {
      total += slots[i].done;
      nontrivial += slots[i].nontrivial;
    }
  } else {
    std::ifstream in(reuse);
    uint64_t v;
    while (in >> v)
      failed_tape.push_back(v);
    fail_worker = 0;
    fail_kind = try_tape(p, failed_tape, &slots[W], msg);
    total = 1;
  }
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::set<uint64_t> hs;
  if (reuse.empty())
    for (int i = 0; i < W; ++i) {
      std::ifstream in(tmpdir + "/w" + std::to_string(i) + ".out", std::ios::binary);
      size_t k = 0, v;
      in >> k;
      while (k-- > 0 && in >> v)
        hs.insert(v);
      k = 0;
      in >> k;
      while (k-- > 0 && in) {
        std::string l;
        in >> v;
        in.get();
        std::getline(in, l);
        labels[l] += v;
      }
      k = 0;
      in >> k;
      while (k-- > 0 && in) {
        in >> v;
        in.get();
        std::string s(v, 0);
        in.read(&s[0], v);
        samples.push_back(s);
      }
    }
  distinct = hs.size();
  double search = now() - t0;
  uint64_t tries = 0;
  std::string verdict = "pass", how, trace;
  if (fail_worker >= 0) {
    // does the case fail on its own, every time?
    int rep = 0;
    std::string m;
    for (int r = 0; r < 3; ++r) {
      int k = try_tape(p, failed_tape, &slots[W], m);
      if (k) {
        ++rep;
        fail_kind = k;
        msg = m;
      }
    }
    if (rep == 3) {
      verdict = "violation";
      how = "single";
      std::vector<uint64_t> orig = failed_tape;
      shrink(p, failed_tape, msg, fail_kind, &slots[W], shrink_budget, tries);
      for (int r = 0; r < 3; ++r)
        if (!try_tape(p, failed_tape, &slots[W], m)) {
          failed_tape = orig;
          break;
        }
      trace = trace_of(p, failed_tape);
      std::ofstream o(replay);
      o << "property " << p.id << "\nmode single\nmessage " << esc(msg) << "\ntape " << failed_tape.size() << "\n";
      for (auto v : failed_tape)
        o << v << " ";
      o << "\ntrace\n" << trace << "\n=> " << msg << "\n";
    } else if (reuse.empty()) {
      // state carried over from earlier cases: replay the worker's sequence
      int again = 0;
      std::string m2;
      for (int r = 0; r < 3; ++r) {
        pid_t q = fork();
        if (q == 0) {
          int fd = open((tmpdir + "/range.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          dup2(fd, 2);
          dup2(fd, 1);
          for (uint64_t i = fail_worker; i <= fail_case; i += W) {
            cpu_limit(g_limit);
            Tape T;
            seed_case(T, seed, p, i);
            std::string mm;
            bool nt;
            if (!run_case(p, T, mm, nt)) {
              snprintf(slots[W].msg, sizeof slots[W].msg, "%s", mm.c_str());
              _exit(10);
            }
          }
          _exit(0);
        }
        int st;
        waitpid(q, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          ++again;
          m2 = WIFEXITED(st) && WEXITSTATUS(st) == 10 ? std::string(slots[W].msg)
                                                     : death(st, read_file(tmpdir + "/range.err"));
        }
      }
      if (again || rep) {
        verdict = "violation";
        how = again ? "range" : "single";
        if (again)
          msg = m2;
        std::ofstream o(replay);
        o << "property " << p.id << "\nmode " << how << "\nmessage " << esc(msg) << "\n";
        if (again)
          o << "range " << seed << " " << fail_worker << " " << fail_case << " " << W << "\n";
        else {
          o << "tape " << failed_tape.size() << "\n";
          for (auto v : failed_tape)
            o << v << " ";
          o << "\n";
        }
        o << "=> " << msg << "\n";
      } else if (msg.find("ThreadSanitizer") != std::string::npos) {
        // a data race is real even if this schedule does not come up again
        verdict = "violation";
        how = "single";
        std::ofstream o(replay);
        o << "property " << p.id << "\nmode single\nmessage " << esc(msg) << "\ntape " << failed_tape.size() << "\n";
        for (auto v : failed_tape)
          o << v << " ";
        o << "\n=> " << msg << " (not in every run)\n";
      } else {
        verdict = "unreproduced";
      }
    } else
      verdict = "unreproduced";
  }
  std::ofstream o(out);
  o << "{\"verdict\":\"" << verdict << "\",\"how\":\"" << how << "\",\"message\":\"" << esc(msg)
    << "\",\"evaluations\":" << total << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << distinct
    << ",\"search_s\":" << search << ",\"shrink_tries\":" << tries << ",\"tape_len\":" << failed_tape.size()
    << ",\"case\":" << fail_case << ",\"rule\":\"" << esc(p.rule) << "\",\"labels\":{";
  bool first = true;
  for (auto &l : labels) {
    o << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second;
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (auto &s : samples) {
    o << (first ? "" : ",") << "\"" << esc(s) << "\"";
    first = false;
  }
  o << "]}\n";
  o.close();
  return verdict == "violation" ? 1 : 0;
}

static int cmd_replay(int argc, char **argv) {
  (void)argc;
  std::ifstream in(argv[2]);
  std::string key, id, mode, line;
  std::vector<uint64_t> tape;
  uint64_t seed = 0, wk = 0, last = 0, W = 1;
  while (in >> key) {
    if (key == "property")
      in >> id;
    else if (key == "mode")
      in >> mode;
    else if (key == "range")
      in >> seed >> wk >> last >> W;
    else if (key == "tape") {
      size_t n;
      in >> n;
      tape.resize(n);
      for (auto &v : tape)
        in >> v;
      break;
    } else
      std::getline(in, line);
  }
  const Prop &p = *find_prop(id.c_str());
  std::string m;
  bool nt;
  if (mode == "range") {
    for (uint64_t i = wk; i <= last; i += W) {
      Tape T;
      seed_case(T, seed, p, i);
      g_trace = i == last;
      if (!run_case(p, T, m, nt)) {
        printf("FAIL %s: %s\n", p.id, m.c_str());
        return 1;
      }
    }
  } else {
    Tape T;
    T.mode = Tape::REPLAY;
    T.in = tape.data();
    T.in_n = tape.size();
    g_trace = true;
    if (!run_case(p, T, m, nt)) {
      printf("FAIL %s: %s\n", p.id, m.c_str());
      return 1;
    }
  }
  printf("PASS %s\n", p.id);
  return 0;
}

#ifdef FUZZ
static const Prop *fz;
static uint64_t *fz_rec;
static volatile uint64_t fz_n;
static uint64_t fz_runs, fz_nt;
static std::set<uint64_t> fz_hash;
static void fz_dump() {
  if (const char *f = getenv("FUZZ_STATS")) {
    FILE *o = fopen(f, "w");
    if (o) {
      fprintf(o, "%lu %lu %zu\n", (unsigned long)fz_runs, (unsigned long)fz_nt, fz_hash.size());
      fclose(o);
    }
  }
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  fz = find_prop(getenv("FUZZ_PROP"));
  fz_rec = (uint64_t *)shm(sizeof(uint64_t) * CAP);
  atexit(fz_dump);
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  Tape T;
  T.mode = Tape::BYTES;
  T.by = d;
  T.by_n = n;
  fz_n = 0;
  T.rec = fz_rec;
  T.rec_n = &fz_n;
  T.rec_cap = CAP;
  std::string m;
  bool nt = false;
  ++fz_runs;
  if (!run_case(*fz, T, m, nt)) {
    fprintf(stderr, "FUZZ-FAIL %s\n", m.c_str());
    abort();
  }
  if (nt) {
    ++fz_nt;
    if (fz_hash.size() < 2000000)
      fz_hash.insert(T.hash);
  }
  if (fz_runs % 2000 == 0)
    fz_dump();
  return 0;
}
#else
// turns a fuzzer input into a tape
static int cmd_tape(int argc, char **argv) {
  const Prop &p = *find_prop(arg(argc, argv, "--prop", "").c_str());
  std::string data = read_file(arg(argc, argv, "--in", ""), 1 << 24);
  Slot *s = (Slot *)shm(sizeof(Slot));
  pid_t q = fork();
  if (q == 0) {
    Tape T;
    T.mode = Tape::BYTES;
    T.by = (const uint8_t *)data.data();
    T.by_n = data.size();
    T.rec = s->tape;
    T.rec_n = &s->n;
    T.rec_cap = CAP;
    std::string m;
    bool nt;
    cpu_limit(g_limit);
    run_case(p, T, m, nt);
    _exit(0);
  }
  int st;
  waitpid(q, &st, 0);
  std::ofstream o(arg(argc, argv, "--out", "tape.txt"));
  for (uint64_t i = 0; i < s->n; ++i)
    o << s->tape[i] << " ";
  return 0;
}
int main(int argc, char **argv) {
  std::string c = argc > 1 ? argv[1] : "";
  if (c == "run")
    return cmd_run(argc, argv);
  if (c == "replay" && argc > 2)
    return cmd_replay(argc, argv);
  if (c == "tape")
    return cmd_tape(argc, argv);
  if (c == "kinds")
    return sub_kinds();
  if (c == "rnd")
    return sub_rnd();
  if (c == "exit" && argc > 2)
    return sub_exit((unsigned)atoi(argv[2]));
  if (c == "probe") {
    std::string r = probe_reuse_after_backward();
    printf("%s\n", r.c_str());
    return r.empty() ? 0 : 3;
  }
  fprintf(stderr, "usage: harness run|replay|tape|probe ...\n");
  return 2;
}
#endif
