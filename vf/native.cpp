// Native runtime of the contract language: executes the harness on the compiled
// real code with concrete inputs (a verifier counterexample, or pseudo random
// ones) and reports the contract clauses that fail.
#include <csetjmp>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <fenv.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>

namespace {
struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  long range(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
};
Rng rng;
std::map<std::string, double> given;     // model values
std::map<std::string, int> count;        // repeated names
std::vector<std::pair<std::string, double>> drawn;
std::vector<std::pair<std::string, long>> idrawn;
std::set<std::string> covers;
struct Buf { std::string name; char* raw; size_t n; size_t es; };
std::vector<Buf> bufs;
sigjmp_buf env;
std::string failed, detail;
bool throws_ok = false;
uint64_t seed_uf = 1;
int mode = 0;
const size_t PAD = 64;

std::string uniq(const char* n) {
  int k = count[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
[[noreturn]] void stop(int c) { siglongjmp(env, c); }
void fail(const char* what, const std::string& d) {
  failed = what;
  detail = d;
  stop(2);
}
double gen(bool pos) {
  double r = rng.u();
  double x;
  if (!drawn.empty() && r < 0.12) {
    x = drawn[rng.range(0, (long)drawn.size() - 1)].second;
    if (rng.u() < 0.3) x = -x;
  } else if (r < 0.30) {
    static const double S[] = {0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 0.25, -3.0};
    x = S[rng.range(0, 9)];
  } else if (r < 0.85) {
    x = -3.0 + 6.0 * rng.u();
  } else if (mode == 2 || r < 0.93) {
    x = std::exp(-2.5 + 5.0 * rng.u()) * (rng.u() < 0.5 ? -1 : 1);
  } else {
    x = std::exp(-5.0 + 10.0 * rng.u()) * (rng.u() < 0.5 ? -1 : 1);
  }
  if (pos) {
    x = std::fabs(x);
    if (x < 1e-3) x = 0.3 + rng.u();
  }
  return x;
}
double hashu(uint64_t h) {
  Rng r{h};
  return -1.5 + 3.0 * r.u();
}
// smooth deterministic function of its arguments
double uf(const char* n, const double* a, int k) {
  uint64_t h = seed_uf;
  for (const char* p = n; *p; ++p) h = h * 1099511628211ull + (unsigned char)*p;
  double r = hashu(h);
  for (int i = 0; i < k; ++i) {
    double w = hashu(h + 17 * i + 3), v = hashu(h + 31 * i + 5);
    r += w * std::sin(1.7 * a[i] + v) + 0.3 * v * a[i];
    for (int j = 0; j < i; ++j) r += 0.2 * hashu(h + 7 * i + 13 * j) * a[i] * a[j];
  }
  return r;
}
double tol(double a, double b) {
  double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  return 2e-6 * (1.0 + m);
}
std::string two(double a, double b) {
  char t[200];
  snprintf(t, sizeof t, "%.17g vs %.17g", a, b);
  return t;
}
double draw(const std::string& nm, bool pos) {
  double x;
  auto it = given.find(nm);
  if (it != given.end()) x = it->second;
  else x = gen(pos);
  drawn.emplace_back(nm, x);
  return x;
}
template <class T> T* alloc(const char* name, long rank, long e0, long e1, long e2, long e3, long s1, long s2, long s3) {
  long n = rank == 1 ? e0 : rank == 2 ? s1 * e1 : rank == 3 ? s2 * e2 : s3 * e3;
  if (n < 0) n = 0;
  if (n > 2000000) stop(1);
  size_t tot = n + 2 * PAD;
  T* raw = (T*)malloc(tot * sizeof(T));
  for (size_t i = 0; i < tot; ++i) {
    if (i < PAD || i >= PAD + n) memset(&raw[i], 0xFF, sizeof(T));
    else if constexpr (std::is_floating_point<T>::value) raw[i] = gen(mode == 1);
    else raw[i] = (T)rng.range(0, 3);
  }
  // values of the verifier's model: name[i,j,k]
  std::string pre = std::string(name) + "[";
  for (auto it = given.lower_bound(pre); it != given.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
    long ix[4] = {0, 0, 0, 0};
    sscanf(it->first.c_str() + pre.size(), "%ld,%ld,%ld,%ld", &ix[0], &ix[1], &ix[2], &ix[3]);
    long o = ix[0] + (rank > 1 ? ix[1] * s1 : 0) + (rank > 2 ? ix[2] * s2 : 0) + (rank > 3 ? ix[3] * s3 : 0);
    if (o >= 0 && o < n) raw[PAD + o] = (T)it->second;
  }
  bufs.push_back({name, (char*)raw, (size_t)n, sizeof(T)});
  return raw + PAD;
}
void check_bufs() {
  for (auto& b : bufs) {
    for (size_t i = 0; i < PAD; ++i)
      for (size_t k = 0; k < b.es; ++k)
        if ((unsigned char)b.raw[i * b.es + k] != 0xFF ||
            (unsigned char)b.raw[(PAD + b.n + i) * b.es + k] != 0xFF) {
          failed = "write outside of array " + b.name;
          detail = "canary overwritten";
          return;
        }
  }
}
} // namespace

extern "C" {
double vf_real(const char* n) { return draw(uniq(n), false); }
double vf_pos(const char* n) {
  double x = draw(uniq(n), true);
  if (!(x > 0)) stop(1);
  return x;
}
double vf_real_in(const char* n, double lo, double hi) {
  std::string nm = uniq(n);
  auto it = given.find(nm);
  double x;
  if (it != given.end()) x = it->second;
  else if (rng.u() < 0.1) x = rng.u() < 0.5 ? lo : hi;
  else if (hi - lo > 1e3) { x = gen(false); if (x < lo) x = lo + std::fabs(x); if (x > hi) x = hi; }
  else x = lo + (hi - lo) * rng.u();
  if (!(x >= lo && x <= hi)) stop(1);
  drawn.emplace_back(nm, x);
  return x;
}
long vf_int(const char* n, long lo, long hi) {
  std::string nm = uniq(n);
  auto it = given.find(nm);
  long x;
  if (lo > hi) stop(1);
  if (it != given.end()) x = (long)it->second;
  else if (hi - lo <= 12) x = rng.range(lo, hi);
  else if (lo < -1000000) x = rng.range(-7, hi < 7 ? hi : 7);
  else x = lo + rng.range(0, rng.u() < 0.8 ? 5 : 11);
  if (x < lo || x > hi) stop(1);
  idrawn.emplace_back(nm, x);
  return x;
}
bool vf_bool(const char* n) {
  std::string nm = uniq(n);
  auto it = given.find(nm);
  long x = it != given.end() ? it->second != 0 : rng.u() < 0.5;
  idrawn.emplace_back(nm, x);
  return x;
}
void vf_assume(bool c) { if (!c) stop(1); }
void vf_check(const char* w, bool c) { if (!c) fail(w, "condition is false"); }
void vf_require(const char* w, bool c) { if (!c) fail(w, "precondition is false"); }
void vf_check_eq(const char* w, double a, double b) {
  if (a == b) return;
  if (!(std::fabs(a - b) <= tol(a, b))) fail(w, two(a, b));
}
void vf_check_le(const char* w, double a, double b) {
  if (a <= b) return;
  if (!(a <= b + tol(a, b)) || (std::isinf(a) && !std::isinf(b))) fail(w, two(a, b));
}
void vf_check_lt(const char* w, double a, double b) {
  if (a < b) return;
  if (!(a < b + tol(a, b)) || std::isinf(a)) fail(w, two(a, b));
}
void vf_check_ieq(const char* w, long a, long b) { if (a != b) fail(w, two(a, b)); }
void vf_defined(const char* w, double x) { if (!std::isfinite(x)) fail(w, "value is not finite"); }
void vf_cover(const char* w) { covers.insert(w); }
void vf_throws() { throws_ok = true; }
double vf_uf1(const char* n, double a) { return uf(n, &a, 1); }
double vf_uf2(const char* n, double a, double b) { double x[] = {a, b}; return uf(n, x, 2); }
double vf_uf3(const char* n, double a, double b, double c) { double x[] = {a, b, c}; return uf(n, x, 3); }
double vf_uf4(const char* n, double a, double b, double c, double d) { double x[] = {a, b, c, d}; return uf(n, x, 4); }
double vf_uf5(const char* n, double a, double b, double c, double d, double e) { double x[] = {a, b, c, d, e}; return uf(n, x, 5); }
double vf_uf6(const char* n, double a, double b, double c, double d, double e, double f) { double x[] = {a, b, c, d, e, f}; return uf(n, x, 6); }
double* vf_array(const char* n, long r, long e0, long e1, long e2, long e3, long s1, long s2, long s3) { return alloc<double>(n, r, e0, e1, e2, e3, s1, s2, s3); }
long* vf_iarray(const char* n, long r, long e0, long e1, long e2, long e3, long s1, long s2, long s3) { return alloc<long>(n, r, e0, e1, e2, e3, s1, s2, s3); }
int* vf_i32array(const char* n, long r, long e0, long e1, long e2, long e3, long s1, long s2, long s3) { return alloc<int>(n, r, e0, e1, e2, e3, s1, s2, s3); }

// assertions of the real code are contract clauses, too
void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
  failed = std::string("assert ") + e;
  const char* b = strrchr(f, '/');
  detail = std::string(b ? b + 1 : f) + ":" + std::to_string(l);
  stop(2);
}
}

// library initialisers of header libraries that are not linked here
extern "C" __attribute__((weak)) void _ZN4Vc_16Common15checkLibraryAbiEjjPKc(unsigned, unsigned, const char*) {}

static void onsig(int s) {
  failed = std::string("signal ") + strsignal(s);
  detail = "the real code crashed";
  siglongjmp(env, 2);
}

// usage: prog harness trials seed [model file]
int main(int argc, char** argv) {
  if (argc < 4) return 3;
  std::string name = std::string("vf_harness_") + argv[1];
  auto f = (void (*)())dlsym(RTLD_DEFAULT, name.c_str());
  if (!f) { fprintf(stderr, "no harness %s\n", name.c_str()); return 3; }
  long trials = atol(argv[2]);
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  double budget = 1e9;
  if (argc > 4 && strcmp(argv[4], "-")) {
    FILE* g = fopen(argv[4], "r");
    char k[400]; double v;
    while (g && fscanf(g, " %399[^=]=%lf", k, &v) == 2) given[k] = v;
    if (g) fclose(g);
  }
  if (argc > 5) budget = atof(argv[5]);
  long first = argc > 6 ? atol(argv[6]) : 0;
  signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGBUS, onsig);
  std::set_terminate([] { failed = "no exception escapes"; detail = "std::terminate"; stop(2); });
  long ran = 0, discarded = 0;
  std::set<std::string> allcov;
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (long t = first; t < first + trials; ++t) {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > budget) break;
    rng.s = seed * 1000003ull + t;
    for (int i = 0; i < 3; ++i) rng.next();
    rng.s = rng.next();
    seed_uf = rng.next();
    mode = (int)(t % 3);
    count.clear(); drawn.clear(); idrawn.clear(); covers.clear(); failed.clear(); detail.clear();
    throws_ok = false;
    int code = sigsetjmp(env, 1);
    if (code == 0) {
      try { f(); }
      catch (std::exception& e) { if (!throws_ok) { failed = "no exception escapes"; detail = e.what(); } }
      catch (...) { if (!throws_ok) { failed = "no exception escapes"; detail = "unknown exception"; } }
      if (failed.empty()) check_bufs();
    }
    if (code == 1) ++discarded; else { ++ran; allcov.insert(covers.begin(), covers.end()); }
    if (!failed.empty()) {
      printf("FAILED %s\nDETAIL %s\nTRIAL %ld SEED %llu\n", failed.c_str(), detail.c_str(), t, (unsigned long long)seed);
      for (auto& d : drawn) printf("IN %s=%.17g\n", d.first.c_str(), d.second);
      for (auto& d : idrawn) printf("IN %s=%ld\n", d.first.c_str(), d.second);
      for (auto& b : bufs) {
        printf("ARR %s:", b.name.c_str());
        for (size_t i = 0; i < b.n && i < 40; ++i) {
          if (b.es == 8) printf(" %.17g", ((double*)b.raw)[PAD + i]);
          else printf(" %d", ((int*)b.raw)[PAD + i]);
        }
        printf("\n");
      }
      fflush(stdout);
      _exit(1);
    }
    for (auto& b : bufs) free(b.raw);
    bufs.clear();
  }
  printf("OK ran=%ld discarded=%ld\n", ran, discarded);
  for (auto& c : allcov) printf("COVER %s\n", c.c_str());
  fflush(stdout);
  _exit(0);
}
