// Contract vocabulary shared by the deductive run (VP_VERIFY: the functions below are interpreted
// by the verifier) and by the native run of the very same contract text (replay of counterexamples
// and guided search for failing inputs).
#ifndef VP_H
#define VP_H
typedef long long i64;
typedef unsigned long long u64;
typedef _BitInt(256) Z;                      // mathematical integers for the specifications
#ifdef VP_VERIFY
extern "C" {
  int vp_any_i32(const char*);
  unsigned vp_any_u32(const char*);
  long long vp_any_i64(const char*);
  unsigned long long vp_any_u64(const char*);
  double vp_any_f64(const char*);
  bool vp_any_bool(const char*);
  long long vp_range(const char*, long long lo, long long hi);   // lo, hi constants
  void vp_assume(bool);
  void vp_assert(bool, const char*);
  void vp_cover(const char*);
  bool vp_pathsplit(bool);                   // proof hint only: case split
  bool vp_native();                          // false under verification
  bool vp_ld_is(long double, Z);             // the float holds exactly this integer
  bool vp_d_is(double, Z);
  bool vp_sqrt_near(long double r, Z num, Z den, int bits);      // r >= 0 and |r*r*den - num| <= num/2^bits, over the reals
  // ghost reals
  int vp_r_any(); int vp_r_uf2(const char*, Z, Z); int vp_r_uf4(const char*, Z, Z, Z, Z); int vp_r_uf6(const char*, Z, Z, Z, Z, Z, Z); int vp_r_d(double); int vp_r_z(Z); int vp_r_p2(int); int vp_r_add(int, int); int vp_r_sub(int, int); int vp_r_mul(int, int); int vp_r_sqrt(int);
  bool vp_r_le(int, int); bool vp_r_lt(int, int); bool vp_r_eq(int, int); double vp_r_todbl(int); double vp_r_todbl_in(int, double lo, double hi);
  bool vp_mul_near(double r, double a, double b, int bits);      // |r - a*b| <= |a*b|/2^bits, over the reals
  bool vp_div_near(double r, double a, double b, int bits);      // |r*b - a| <= |a|/2^bits
  bool vp_sq_near(double r, double a, int k, int bits);          // |r*r - a*2^k| <= |a*2^k|/2^bits
  bool vp_lin_near(double r, double a, int k, double b, int bits); // |r - (a*2^k + b)| <= |a*2^k + b|/2^bits
  bool vp_d_near(double r, int k, Z num, int bits);              // |r*2^k - num| <= |num|/2^bits
}
#ifndef VP_NO_REALS
struct R { int i; };
static inline R mkR(int i) { R r; r.i = i; return r; }
static inline R Rd(double d) { return mkR(vp_r_d(d)); }
static inline R Rz(Z z) { return mkR(vp_r_z(z)); }
static inline R Rp2(int k) { return mkR(vp_r_p2(k)); }
static inline R Rsqrt(R a) { return mkR(vp_r_sqrt(a.i)); }
static inline R operator+(R a, R b) { return mkR(vp_r_add(a.i, b.i)); }
static inline R operator-(R a, R b) { return mkR(vp_r_sub(a.i, b.i)); }
static inline R operator*(R a, R b) { return mkR(vp_r_mul(a.i, b.i)); }
static inline bool operator<=(R a, R b) { return vp_r_le(a.i, b.i); }
static inline bool operator<(R a, R b) { return vp_r_lt(a.i, b.i); }
#endif
#define HARNESS(n) extern "C" void n()
#else
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <cmath>
#include <ctime>
#include <csignal>
#include <unistd.h>
struct vp_skip {};
struct vp_fail { std::string what; };
struct vp_rt {
  std::vector<std::pair<std::string, std::string> > replay; size_t pos; bool replaying;
  std::vector<std::pair<std::string, std::string> > log;
  unsigned long long s; std::vector<long long> recent; int scale;
  std::map<std::string, long> covers; std::map<std::string, void (*)()> h;
  vp_rt() : pos(0), replaying(false), s(88172645463325252ull), scale(0) {}
  unsigned long long rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
  long long pick(long long lo, long long hi) {
    unsigned long long r = rnd() >> 11;
    long long v;
    int k = r % 16; r = rnd();
    long long sm = scale == 0 ? 3 : scale == 1 ? 10 : scale == 2 ? 1000 : scale == 3 ? 70000 : 0;
    if (k < 3 && !recent.empty()) v = (long long)((u64)recent[r % recent.size()] + rnd() % 3 - 1);
    else if (k < 5 && !recent.empty()) v = recent[r % recent.size()];
    else if (scale >= 4 && k < 8) { long long e[] = {lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, 0, 1, -1, lo / 2, hi / 2, hi / 2 + 1}; v = e[r % 12]; }
    else if (scale >= 4 && k < 10) { int b = rnd() % 63; v = (long long)((1ull << b) + rnd() % 3 - 1); if (rnd() & 1) v = (long long)(0 - (u64)v); }
    else if (scale >= 4) { unsigned long long span = (unsigned long long)hi - (unsigned long long)lo + 1; v = span ? (long long)((unsigned long long)lo + r % span) : (long long)r; }
    else v = (long long)(r % (2 * sm + 1)) - sm;
    if (v < lo || v > hi) { unsigned long long span = (unsigned long long)hi - (unsigned long long)lo + 1; v = span ? (long long)((unsigned long long)lo + rnd() % span) : (long long)rnd(); }
    recent.push_back(v);
    return v;
  }
  std::string next(const char* n) {
    if (pos >= replay.size()) throw vp_skip();
    return replay[pos++].second;
  }
};
inline vp_rt& vp() { static vp_rt r; return r; }
inline long long vp_lg(const char* n, long long v) { vp().log.push_back(std::make_pair(std::string(n), std::to_string(v))); return v; }
inline long long vp_parse(const std::string& s) { if (s == "True") return 1; if (s == "False") return 0; return s[0] == '-' ? strtoll(s.c_str(), 0, 10) : (long long)strtoull(s.c_str(), 0, 10); }
inline int vp_any_i32(const char* n) { return (int)vp_lg(n, vp().replaying ? vp_parse(vp().next(n)) : vp().pick(-2147483647LL - 1, 2147483647LL)); }
inline unsigned vp_any_u32(const char* n) { return (unsigned)vp_lg(n, vp().replaying ? vp_parse(vp().next(n)) : vp().pick(0, 4294967295LL)); }
inline long long vp_any_i64(const char* n) { return vp_lg(n, vp().replaying ? vp_parse(vp().next(n)) : vp().pick(-9223372036854775807LL - 1, 9223372036854775807LL)); }
inline unsigned long long vp_any_u64(const char* n) { return (unsigned long long)vp_lg(n, vp().replaying ? vp_parse(vp().next(n)) : vp().pick(-9223372036854775807LL - 1, 9223372036854775807LL)); }
inline long long vp_range(const char* n, long long lo, long long hi) { return vp_lg(n, vp().replaying ? vp_parse(vp().next(n)) : vp().pick(lo, hi)); }
inline bool vp_any_bool(const char* n) { return vp_lg(n, vp().replaying ? vp_parse(vp().next(n)) : (long long)((vp().rnd() >> 20) & 1)) != 0; }
inline double vp_any_f64(const char* n) {
  double d;
  if (vp().replaying) {
    std::string t = vp().next(n); long long slash = t.find('/');
    if (t.size() > 1 && t[0] == '#') { unsigned long long b = strtoull(t.c_str() + 1, 0, 10); memcpy(&d, &b, 8); }
    else if ((size_t)slash != std::string::npos) d = strtod(t.substr(0, slash).c_str(), 0) / strtod(t.substr(slash + 1).c_str(), 0);
    else d = strtod(t.c_str(), 0);
  } else {
    static std::vector<double> rec;
    switch (vp().rnd() % 6) {
      case 0: d = (double)vp().pick(-1000, 1000); break;
      case 1: d = (double)vp().pick(-1000, 1000) / 8; break;
      case 2: { unsigned long long b = vp().rnd(); memcpy(&d, &b, 8); if (!(d == d) || d - d != 0) d = 1.5; break; }
      case 3: d = ldexp((double)(vp().rnd() >> 11), (int)(vp().rnd() % 200) - 150); if (vp().rnd() & 64) d = -d; break;
      case 4: if (!rec.empty()) { d = rec[vp().rnd() % rec.size()]; unsigned long long b; memcpy(&b, &d, 8); b += vp().rnd() % 7 - 3; memcpy(&d, &b, 8); if (!(d == d) || d - d != 0) d = 0; } else d = 0; break;
      default: d = (vp().rnd() & 32) ? 0.0 : -0.0; if (vp().rnd() & 64) { unsigned long long b = vp().rnd() % 5; if (vp().rnd() & 4096) b |= 1ull << 63; memcpy(&d, &b, 8);} break;
    }
    rec.push_back(d); if (rec.size() > 40) rec.clear();
  }
  unsigned long long b; memcpy(&b, &d, 8);
  vp().log.push_back(std::make_pair(std::string(n), "#" + std::to_string(b)));
  return d;
}
inline void vp_assume(bool c) { if (!c) throw vp_skip(); }
inline void vp_assert(bool c, const char* n) { if (!c) { vp_fail f; f.what = n; throw f; } }
inline void vp_cover(const char* n) { ++vp().covers[n]; }
inline bool vp_pathsplit(bool c) { return c; }
inline bool vp_native() { return true; }
inline bool vp_ld_is(long double v, Z z) { return (Z)(__int128)v == z && (long double)(__int128)v == v; }
inline bool vp_d_is(double v, Z z) { return (Z)(__int128)v == z && (double)(__int128)v == v; }
inline __float128 vp_q(Z z) {
  bool n = z < 0; if (n) z = -z;
  __float128 r = 0; for (int i = 3; i >= 0; --i) r = r * (__float128)18446744073709551616.0 + (__float128)(u64)(z >> (64 * i));
  return n ? -r : r;
}
inline bool vp_sqrt_near(long double r, Z num, Z den, int bits) {
  if (!(r >= 0) || num < 0) return false;
  __float128 e = (__float128)r * r * vp_q(den) - vp_q(num); if (e < 0) e = -e;
  return e <= vp_q(num) * (__float128)ldexp(1.0, -bits) * (__float128)1.0000001;
}
inline bool vp_near_(__float128 r, __float128 x, int bits) { __float128 e = r - x; if (e < 0) e = -e; if (x < 0) x = -x; return e <= x * (__float128)ldexp(1.0, -bits) * (__float128)1.0000001; }
inline bool vp_mul_near(double r, double a, double b, int bits) { return vp_near_(r, (__float128)a * b, bits); }
inline bool vp_div_near(double r, double a, double b, int bits) { return vp_near_((__float128)r * b, a, bits); }
inline bool vp_sq_near(double r, double a, int k, int bits) { return vp_near_((__float128)r * r, (__float128)a * ldexp(1.0, k), bits); }
inline bool vp_lin_near(double r, double a, int k, double b, int bits) { return vp_near_(r, (__float128)a * ldexp(1.0, k) + b, bits); }
inline bool vp_d_near(double r, int k, Z num, int bits) { return vp_near_((__float128)r * ldexp(1.0, k), vp_q(num), bits); }
struct vp_reg { vp_reg(const char* n, void (*f)()) { vp().h[n] = f; } };
#define HARNESS(n) extern "C" void n(); static vp_reg vp_reg_##n(#n, n); extern "C" void n()
inline void vp_sig(int sig) {
  printf("FAILED undefined behaviour trapped (signal %d)\n", sig);
  for (size_t k = 0; k < vp().log.size(); ++k) printf("INPUT %s=%s\n", vp().log[k].first.c_str(), vp().log[k].second.c_str());
  fflush(stdout); _exit(1);
}
inline int vp_main(int argc, char** argv) {
  // prog replay HARNESS name=value... | prog random HARNESS N SEED
  if (argc < 3) { for (std::map<std::string, void (*)()>::iterator i = vp().h.begin(); i != vp().h.end(); ++i) printf("%s\n", i->first.c_str()); return 0; }
  void (*f)() = vp().h[argv[2]];
  signal(SIGILL, vp_sig); signal(SIGTRAP, vp_sig); signal(SIGSEGV, vp_sig); signal(SIGFPE, vp_sig); signal(SIGABRT, vp_sig); signal(SIGBUS, vp_sig);
  if (!f) { printf("no such harness\n"); return 3; }
  if (!strcmp(argv[1], "replay")) {
    vp().replaying = true;
    for (int i = 3; i < argc; ++i) { std::string a = argv[i]; size_t e = a.find('='); vp().replay.push_back(std::make_pair(a.substr(0, e), a.substr(e + 1))); }
    try { f(); } catch (vp_skip&) { printf("SKIPPED precondition\n"); return 2; } catch (vp_fail& x) { printf("FAILED %s\n", x.what.c_str()); return 1; }
    printf("OK\n"); return 0;
  }
  long n = atol(argv[3]); unsigned long long seed = strtoull(argv[4], 0, 10); long done = 0;
  double tmax = argc > 5 ? atof(argv[5]) : 1e9; clock_t t0 = clock();
  for (long i = 0; i < n; ++i) {
    vp().s = (seed + 1) * 0x9E3779B97F4A7C15ull ^ (unsigned long long)(i + 1) * 0xD1B54A32D192ED03ull; vp().rnd(); vp().rnd();
    vp().log.clear(); vp().recent.clear(); vp().scale = i % 6;
    try { f(); ++done; } catch (vp_skip&) {} catch (vp_fail& x) {
      printf("FAILED %s\n", x.what.c_str());
      for (size_t k = 0; k < vp().log.size(); ++k) printf("INPUT %s=%s\n", vp().log[k].first.c_str(), vp().log[k].second.c_str());
      return 1;
    }
    if ((i & 255) == 0 && (double)(clock() - t0) / CLOCKS_PER_SEC > tmax) { n = i + 1; break; }
  }
  printf("DONE runs=%ld completed=%ld\n", n, done);
  for (std::map<std::string, long>::iterator c = vp().covers.begin(); c != vp().covers.end(); ++c) printf("COVER %ld %s\n", c->second, c->first.c_str());
  return 0;
}
int main(int argc, char** argv) { return vp_main(argc, argv); }
#endif
#define ASSERT(c) vp_assert((c), #c)
static inline Z zmin(Z a, Z b) { return a < b ? a : b; }
static inline Z zmax(Z a, Z b) { return a > b ? a : b; }
static inline Z zabs(Z a) { return a < 0 ? -a : a; }
static inline bool fits32(Z a) { return a >= -(Z)2147483647 - 1 && a <= (Z)2147483647; }
static inline bool fits64(Z a) { return a >= -(Z)9223372036854775807LL - 1 && a <= (Z)9223372036854775807LL; }
#endif
