// Support for the bounded stand-ins: seeded generator, time budget, result lines.
//   prog SEED SECONDS JOB NJOBS [args]
#ifndef BND_H
#define BND_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <sstream>
#include <ctime>
#include <csignal>
#include <unistd.h>
typedef long long i64; typedef unsigned long long u64; typedef __int128 i128;
struct Bnd {
  u64 s; double secs; int job, njobs; struct timespec t0; u64 evals, nontriv; int fails, samples; std::set<std::string> keys; std::string cur; std::vector<std::string> args;
  Bnd() : s(1), secs(10), job(0), njobs(1), evals(0), nontriv(0), fails(0), samples(0) {}
  u64 rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
  i64 in(i64 lo, i64 hi) { return lo + (i64)((rnd() >> 11) % (u64)(hi - lo + 1)); }
  double elapsed() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9; }
  bool more() { return fails < 6 && elapsed() < secs; }
  void fail(const std::string& key, const std::string& text) {
    if (keys.count(key)) return;
    keys.insert(key); ++fails;
    std::string t = text; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\n') t[i] = ' ';
    if (t.size() > 1500) t.resize(1500);
    printf("FAIL %s %s\n", key.c_str(), t.c_str()); fflush(stdout);
  }
  void sample(const std::string& text) { if (samples < 3) { ++samples; printf("SAMPLE %s\n", text.substr(0, 400).c_str()); } }
  void count(bool nontrivial) { ++evals; if (nontrivial) ++nontriv; }
  int done() { printf("COUNT evaluations=%llu\nCOUNT nontrivial=%llu\n", evals, nontriv); return fails ? 1 : 0; }
};
static Bnd bnd;
static void bnd_sig(int sig) {
  char b[64]; int n = snprintf(b, 64, "FAIL crash signal %d on ", sig);
  (void)!write(1, b, n); (void)!write(1, bnd.cur.data(), bnd.cur.size() < 1500 ? bnd.cur.size() : 1500); (void)!write(1, "\n", 1); _exit(1);
}
static void bnd_alrm(int) {
  (void)!write(1, "FAIL hang no result within the limit on ", 40); (void)!write(1, bnd.cur.data(), bnd.cur.size() < 1500 ? bnd.cur.size() : 1500); (void)!write(1, "\n", 1); _exit(1);
}
static void bnd_init(int argc, char** argv) {
  if (argc > 1) bnd.s = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  if (argc > 2) bnd.secs = atof(argv[2]);
  if (argc > 3) bnd.job = atoi(argv[3]);
  if (argc > 4) bnd.njobs = atoi(argv[4]);
  for (int i = 5; i < argc; ++i) bnd.args.push_back(argv[i]);
  if (!bnd.s) bnd.s = 1;
  for (int i = 0; i < 10; ++i) bnd.rnd();
  clock_gettime(CLOCK_MONOTONIC, &bnd.t0);
  signal(SIGSEGV, bnd_sig); signal(SIGABRT, bnd_sig); signal(SIGFPE, bnd_sig); signal(SIGILL, bnd_sig); signal(SIGBUS, bnd_sig);
  signal(SIGALRM, bnd_alrm);
}
// guard one case: describe it for crash reports and give it a (generous) time limit
static void bnd_case(const std::string& d, int limit = 100) { bnd.cur = d; alarm(limit); }
static void bnd_endcase() { alarm(0); }
template <class T> std::string S(const T& v) { std::ostringstream o; o << v; return o.str(); }
inline std::string S(i128 v) { if (v < 0) return "-" + S((i128)-v); std::string r; do { r = char('0' + (int)(v % 10)) + r; v /= 10; } while (v); return r; }
#endif
