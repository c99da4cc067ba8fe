// Shared monitor runtime: replayable random source, report channel, coverage
// recorder, per-case CPU watchdog.  No library code is involved here.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN_CLEAR(p, n) __msan_unpoison((void *)(p), (n))
#endif
#endif
#ifndef MSAN_CLEAR
#define MSAN_CLEAR(p, n) ((void)0)
#endif

typedef long double LD;

static inline uint64_t hash64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
static inline uint64_t hashstr(const char *s) {
  uint64_t h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
  return h;
}

struct Rng {
  uint64_t s[2];
  void seed(uint64_t a, uint64_t b, uint64_t c) {
    s[0] = hash64(hash64(a) ^ hash64(b * 7 + 1) ^ hash64(c * 13 + 5));
    s[1] = hash64(s[0] + 17);
    if (!s[0] && !s[1]) s[0] = 1;
    for (int i = 0; i < 4; ++i) next();
  }
  uint64_t next() {
    uint64_t s1 = s[0];
    const uint64_t s0 = s[1];
    const uint64_t r = s0 + s1;
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  // inclusive range
  int range(int a, int b) { return b <= a ? a : a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool chance(double p) { return u() < p; }
  double gauss() {
    double a = u(), b = u();
    return sqrt(-2.0 * log(a + 1e-300)) * cos(6.283185307179586 * b);
  }
  template <class T> void shuffle(std::vector<T> &v) {
    for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[range(0, i)]);
  }
};

struct CaseFail {};   // thrown after a violation was recorded
struct CaseSkip {};   // thrown when the generated case is not usable

struct Monitor {
  std::string mode, variant;
  uint64_t seed = 1;
  long caseid = -1;
  int rfd = 1;                 // report channel (stdout of the process as started)
  bool verbose = false;
  Rng rng;
  std::map<std::string, uint64_t> ev;         // observed events
  std::set<uint64_t> sigs;                    // distinct behaviours seen
  std::vector<std::string> samples;
  std::string desc;                           // description of the current case
  long nviol = 0, nskip = 0, ncases = 0;
  volatile long *progress = nullptr;
  LD worst = 0;                               // worst observed err/tol
  std::string worstwhat;

  void out(const char *fmt, ...) {
    char buf[16384];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    MSAN_CLEAR(buf, sizeof buf);
    ssize_t w = write(rfd, buf, n);
    (void)w;
  }
  void count(const char *k, uint64_t n = 1) { ev[k] += n; }
  void sig(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
    if (sigs.size() < 30000)
      sigs.insert(hash64(hash64(hash64(hash64(a) + b) + c) + d));
  }
  void say(const char *fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (desc.size() < 6000) { desc += buf; desc += "; "; }
  }
  [[noreturn]] void fail(const char *key, const char *fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char *p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
    for (auto &c : desc) if (c == '\n' || c == '\t') c = ' ';
    ++nviol;
    out("VIOL\t%ld\t%s\t%s\t%s\n", caseid, key, buf, desc.c_str());
    throw CaseFail();
  }
  [[noreturn]] void skip(const char *why) { ev[std::string("skipped:") + why]++; throw CaseSkip(); }
  // record a numeric comparison and fail if it is out of tolerance
  void close(const char *key, LD got, LD want, LD tol, const char *what, int idx = 0) {
    LD err = got - want;
    if (err < 0) err = -err;
    count("comparisons");
    if (!(err <= tol))  // also catches NaN
      fail(key, "%s[%d]: got %.17Lg want %.17Lg err %.3Lg tol %.3Lg", what, idx, got, want, err, tol);
    LD r = tol > 0 ? err / tol : 0;
    if (r > worst) {
      worst = r;
      char b[200];
      snprintf(b, sizeof b, "%s[%d] case %ld", what, idx, caseid);
      worstwhat = b;
    }
  }
};

static Monitor M;

typedef void (*CaseFn)();
struct Mode { const char *name; CaseFn fn; };

static void on_hang(int) {
  char b[64];
  int n = snprintf(b, sizeof b, "HANG\t%ld\n", M.caseid);
  ssize_t w = write(M.rfd, b, n);
  (void)w;
  _exit(77);
}

static void arm(long ms) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = ms / 1000;
  it.it_value.tv_usec = (ms % 1000) * 1000;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if ((unsigned char)c < 32) c = ' ';
    r += c;
  }
  return r;
}

static int run_monitor(int argc, char **argv, const Mode *modes, int nmodes, void (*init)() = nullptr) {
  long cases = 100, shard = 0, nshards = 1, only = -1, first = 0;
  long hang_ms = 20000;
  const char *progfile = nullptr;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--mode") M.mode = nxt();
    else if (a == "--variant") M.variant = nxt();
    else if (a == "--seed") M.seed = strtoull(nxt(), nullptr, 10);
    else if (a == "--cases") cases = atol(nxt());
    else if (a == "--first") first = atol(nxt());
    else if (a == "--shard") shard = atol(nxt());
    else if (a == "--nshards") nshards = atol(nxt());
    else if (a == "--case") only = atol(nxt());
    else if (a == "--hang-ms") hang_ms = atol(nxt());
    else if (a == "--progress") progfile = nxt();
    else if (a == "-v") M.verbose = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  const Mode *mode = nullptr;
  for (int i = 0; i < nmodes; ++i) if (M.mode == modes[i].name) mode = &modes[i];
  if (!mode) { fprintf(stderr, "unknown mode %s\n", M.mode.c_str()); return 3; }
  // the library prints diagnostics on stdout; keep them away from the report channel
  M.rfd = dup(1);
  int dn = open("/dev/null", O_WRONLY);
  if (dn >= 0) { fflush(stdout); dup2(dn, 1); }
  // generous stack: the library keeps whole polyhedra in automatic storage
  if (progfile) {
    int fd = open(progfile, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 64) == 0) {
      void *p = mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) M.progress = (volatile long *)p;
      close(fd);
    }
  }
  signal(SIGVTALRM, on_hang);
  if (init) init();
  long a = only >= 0 ? only : first, b = only >= 0 ? only + 1 : first + cases;
  for (long c = a; c < b; ++c) {
    if (only < 0 && (c % nshards) != shard) continue;
    M.caseid = c;
    if (M.progress) M.progress[0] = c;
    M.rng.seed(M.seed, hashstr(M.mode.c_str()), (uint64_t)c);
    M.desc.clear();
    arm(hang_ms);
    try {
      mode->fn();
      ++M.ncases;
      if (M.samples.size() < 3) M.samples.push_back(M.desc);
    } catch (CaseFail &) {
      ++M.ncases;
    } catch (CaseSkip &) {
      ++M.nskip;
    }
    arm(0);
    if (M.verbose) M.out("case %ld: %s\n", c, M.desc.c_str());
    if (M.nviol >= 3) break;
  }
  std::string s = "STAT\t{";
  char t[256];
  snprintf(t, sizeof t, "\"cases\":%ld,\"skipped\":%ld,\"violations\":%ld,\"worst\":%.4Lg,\"worstwhat\":\"%s\",",
           M.ncases, M.nskip, M.nviol, M.worst, jesc(M.worstwhat).c_str());
  s += t;
  s += "\"events\":{";
  bool f = true;
  for (auto &kv : M.ev) {
    snprintf(t, sizeof t, "%s\"%s\":%llu", f ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second);
    s += t; f = false;
  }
  s += "},\"samples\":[";
  f = true;
  for (auto &x : M.samples) { s += f ? "\"" : ",\""; s += jesc(x.substr(0, 700)); s += "\""; f = false; }
  s += "],\"sigs\":\"";
  for (uint64_t x : M.sigs) { snprintf(t, sizeof t, "%llx ", (unsigned long long)x); s += t; }
  s += "\"}\n";
  const char *p = s.c_str();
  size_t left = s.size();
  MSAN_CLEAR(p, left);
  while (left) { ssize_t w = write(M.rfd, p, left); if (w <= 0) break; p += w; left -= w; }
  return M.nviol ? 1 : 0;
}

// parameters of transformations: ordinary values and the special ones
static inline double xf_angle(Rng &r) {
  switch (r.range(0, 9)) {
    case 0: return 0;
    case 1: case 2: return r.range(-8, 8) * 0.78539816339744830962;
    case 3: return r.uni(-1, 1) * pow(10, r.uni(-12, -2));
    case 4: return r.uni(-1, 1) * 1000;
    default: return r.uni(-10, 10);
  }
}
static inline double xf_factor(Rng &r) {
  switch (r.range(0, 11)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return (r.chance(0.5) ? -1 : 1) * pow(10, r.uni(-8, -1));
    case 4: return (r.chance(0.5) ? -1 : 1) * pow(10, r.uni(1, 5));
    case 5: case 6: return -r.uni(0.1, 3);
    default: return r.uni(0.1, 3);
  }
}
// fills an (n+1)x(n+1) homogeneous matrix with many special entries; returns false when w vanishes near some point
template <class Real> static bool xf_matrix(Rng &r, int n, Real *m, double L, double R, const std::vector<std::vector<long double>> &pts) {
  int N = n + 1, style = r.range(0, 5);
  for (int i = 0; i < n; ++i) for (int j = 0; j < N; ++j) {
    double x = j < n ? r.uni(-2, 2) : L * r.uni(-2, 2);
    if (style == 1) x = j < n ? (i == j) : 0;                                   // identity block: only the last row acts
    if (style == 2) x = j < n ? (i == j ? r.uni(0.5, 2) : 0) : L * r.uni(-1, 1); // diagonal
    if (style == 3 && r.chance(0.5)) x = 0;                                      // sparse
    if (style == 4 && j == n) x = 0;                                             // no translation
    if (style == 5 && j < n) x = r.range(-1, 1);
    m[i * N + j] = (Real)x;
  }
  int mask = r.chance(0.4) ? 0 : r.range(0, (1 << n) - 1), wk = r.range(0, 5);
  double w = wk <= 2 ? 1 : wk == 3 ? r.uni(0.5, 4) : wk == 4 ? -r.uni(0.5, 4) : 0;
  if (!mask && wk == 5) w = 2;
  double amp = wk == 5 ? 1 : 0.2 / n;
  for (int j = 0; j < n; ++j) m[n * N + j] = (Real)((mask >> j & 1) ? r.uni(-1, 1) * amp / (R + L) : 0);
  m[n * N + n] = (Real)w;
  for (auto &p : pts) {
    long double s = m[n * N + n], a = fabsl(s);
    for (int j = 0; j < n; ++j) { s += (long double)m[n * N + j] * p[j]; a += fabsl((long double)m[n * N + j] * p[j]); }
    if (!(fabsl(s) > 0.02L * a) || a == 0) return false;
  }
  return true;
}

// A zero-filled grid far larger than memory, of which only what is written becomes resident.
#include <sys/mman.h>
#include <unistd.h>
struct HugeGrid {
  unsigned char *p = nullptr;
  size_t n;
  explicit HugeGrid(size_t bytes) : n(bytes) {
    void *q = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED) return;
    p = (unsigned char *)q;
    madvise(p, n, MADV_NOHUGEPAGE);
  }
  ~HugeGrid() { if (p) munmap(p, n); }
  // calls f(offset) for every page that was touched
  template <class F> void touched(F f) {
    size_t pg = sysconf(_SC_PAGESIZE), np = (n + pg - 1) / pg, step = 1 << 18;
    std::vector<unsigned char> v(step);
    for (size_t i = 0; i < np; i += step) {
      size_t k = std::min(step, np - i);
      if (mincore(p + i * pg, std::min(k * pg, n - i * pg), v.data())) return;
      for (size_t j = 0; j < k; ++j) if (v[j] & 1) f((i + j) * pg, std::min(pg, n - (i + j) * pg));
    }
  }
};

// What a call writes on standard output.
#include <unistd.h>
template <class F> static std::string capture_stdout(F call) {
  fflush(stdout);
  FILE *t = tmpfile();
  if (!t) M.skip("no temporary file");
  int save = dup(1);
  dup2(fileno(t), 1);
  call();
  fflush(stdout);
  dup2(save, 1);
  close(save);
  std::string out;
  fseek(t, 0, SEEK_END);
  long n = ftell(t);
  rewind(t);
  out.resize((size_t)n);
  if (n && fread(&out[0], 1, (size_t)n, t) != (size_t)n) out.clear();
  fclose(t);
  return out;
}
struct PrintedLine { std::string word; std::vector<std::string> num; };
// the first word and all the numbers of every line that has any
static std::vector<PrintedLine> printed_lines(const std::string &s) {
  std::vector<PrintedLine> out;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    PrintedLine l;
    for (size_t k = i; k < e;) {
      char c = s[k];
      if (isalpha((unsigned char)c)) {
        size_t b = k;
        while (k < e && (isalnum((unsigned char)s[k]) || s[k] == '_')) ++k;
        std::string w = s.substr(b, k - b);
        if (w == "nan" || w == "inf") l.num.push_back(w);
        else if (l.word.empty()) l.word = w;
      } else if (isdigit((unsigned char)c) || ((c == '-' || c == '+' || c == '.') && k + 1 < e && (isdigit((unsigned char)s[k + 1]) || s[k + 1] == '.'))) {
        const char *b = s.c_str() + k;
        char *q;
        strtod(b, &q);
        if (q == b) { ++k; continue; }
        l.num.push_back(s.substr(k, (size_t)(q - b)));
        k += (size_t)(q - b);
      } else ++k;
    }
    if (!l.num.empty()) out.push_back(l);
    i = e + 1;
  }
  return out;
}
// digits: significant decimal digits the print promises
static bool printed_close(const std::string &t, long double want, int digits) {
  long double got = strtold(t.c_str(), nullptr);
  return fabsl(got - want) <= fabsl(want) * powl(10, 1 - digits) * 0.51L + 1e-320L;
}
