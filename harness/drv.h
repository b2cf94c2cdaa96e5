// Common driver frame: run numbered cases on the simulated machine and print
// one JSON trace per case.
//   d_xxx --from A --to B [--seed S] [--tier quick|thorough] [--stop K]
// Every case is a pure function of (seed, case number).
#ifndef VERIF_DRV_H
#define VERIF_DRV_H
#include <vt/transport.h>
#include "fakempi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <sys/personality.h>

namespace drv {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x + 0x1234567) {   // mixed, so that neighbouring seeds give unrelated streams
    s ^= s >> 33; s *= 0xff51afd7ed558ccdull; s ^= s >> 33; s *= 0xc4ceb9fe1a85ec53ull; s ^= s >> 33;
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int in(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }   // [0,n)
  int in(int a, int b) { return a + in(b - a + 1); }                  // [a,b]
  bool pct(int p) { return in(100) < p; }
  template <typename T> T const& of(std::vector<T> const& v) { return v[in(int(v.size()))]; }
};

struct Ev {   // builder for one event (a flat JSON object)
  std::string o;
  explicit Ev(char const* name) { o = std::string("{\"e\":\"") + name + "\""; }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>> Ev& k(char const* key, T v) {
    o += ",\""; o += key; o += "\":";
    if constexpr (std::is_same_v<T, bool>) o += v ? "true" : "false"; else o += std::to_string((long long)v);
    return *this;
  }
  Ev& k(char const* key, std::string const& v) { o += ",\""; o += key; o += "\":\"" + v + "\""; return *this; }
  Ev& k(char const* key, char const* v) { return k(key, std::string(v)); }
  Ev& raw(char const* key, std::string const& v) { o += ",\""; o += key; o += "\":" + v; return *this; }
  template <typename C> Ev& arr(char const* key, C const& c) {
    std::string a = "["; bool f = true;
    for (auto const& x : c) { if (!f) a += ","; f = false; a += std::to_string((long long)x); }
    return raw(key, a + "]");
  }
  std::string str() const { return o + "}"; }
  ~Ev() = default;
  void put() { fakempi::log(o + "}"); }
};
inline Ev ev(char const* n) { return Ev(n); }

struct Case {
  int id = 0; uint64_t seed = 0; bool thorough = false;
  Rng rng{1};
  int nranks = 3;
  std::vector<std::string> args;            // vt arguments
  fakempi::Config cfg;
  std::string params = "{}";                // JSON, available to the spec as Traces[t].p
};

using Setup = std::function<void(Case&)>;      // choose nranks, arguments, scenario
using Body = std::function<void(Case&, int)>;  // runs on every rank, inside vt

inline void schedule(Case& c) {
  auto& r = c.rng; auto& f = c.cfg;
  f.nranks = c.nranks; f.seed = r.next();
  static int const md[] = {0, 3, 12, 24, 60, 200};
  f.max_delay = md[r.in(6)];
  static int const ld[] = {0, 4, 4, 20};
  f.long_delay_pct = ld[r.in(4)];
  static int const st[] = {0, 2, 2, 15};
  f.stall_pct = st[r.in(4)];
  static int const yp[] = {20, 60, 60, 95};
  f.yield_pct = yp[r.in(4)];
  static int const rv[] = {0, 50, 100};
  f.rendezvous_pct = rv[r.in(3)];
  f.max_steps = 3000000; f.wall_s = c.thorough ? 100 : 45;
}

// run f on a vt instance with the case's arguments
inline void withVt(Case& c, std::function<void()> f, bool do_finalize = true) {
  std::vector<std::string> a = {"prog", "--vt_quiet", "--vt_no_color"};
  for (auto& x : c.args) a.push_back(x);
  std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr);
  int ac = int(a.size()); char** p = av.data();
  vt::initialize(ac, p);
  f();
  if (do_finalize) vt::finalize();
}

inline int main(int argc, char** argv, Setup setup, Body body) {
  // a fixed address-space layout makes a case repeatable
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DRV_NOASLR")) {
    setenv("DRV_NOASLR", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  long from = 1, to = 1, stop = 3; uint64_t seed = 1; bool thorough = false; bool keep = false;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto val = [&]{ return i + 1 < argc ? argv[++i] : (char*)"0"; };
    if (s == "--from") from = atol(val());
    else if (s == "--to") to = atol(val());
    else if (s == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (s == "--stop") stop = atol(val());
    else if (s == "--tier") thorough = std::string(val()) == "thorough";
    else if (s == "--stderr") keep = true;
  }
  if (!keep) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
  FILE* out = fdopen(dup(1), "w");
  { int fd = open("/dev/null", O_WRONLY); if (!keep) dup2(fd, 1); else dup2(2, 1); }
  long bad = 0;
  for (long id = from; id <= to; id++) {
    Case c; c.id = int(id); c.seed = seed; c.thorough = thorough;
    c.rng = Rng(seed * 1000003ull + uint64_t(id));
    setup(c); schedule(c);
    auto r = fakempi::run(c.cfg, [&](int rank) { body(c, rank); return 0; });
    std::string evs; evs.reserve(r.log.size() + 64);
    size_t p = 0; bool first = true;
    while (p < r.log.size()) {
      size_t q = r.log.find('\n', p); if (q == std::string::npos) break;
      if (!first) evs += ","; first = false;
      evs.append(r.log, p, q - p); p = q + 1;
    }
    using End = fakempi::Result::End;
    char const* how = r.end == End::Ok ? "end" : r.end == End::Hang ? "hang" : r.end == End::Crash ? "crash" : "wall";
    if (!first) evs += ",";
    evs += std::string("{\"e\":\"") + how + "\"" + (r.end == End::Ok ? "" : ",\"r\":" + std::to_string(r.rank) + ",\"code\":" + std::to_string(r.code)) + "}";
    fprintf(out, "{\"c\":%ld,\"n\":%d,\"steps\":%llu,\"p\":%s,\"ev\":[%s]}\n", id, c.nranks, (unsigned long long)r.steps, c.params.c_str(), evs.c_str());
    fflush(out);
    if (r.end != End::Ok && ++bad >= stop) break;
  }
  fclose(out);
  return 0;
}

// payload contents as a function of a message id, and a check of them
inline void fillBytes(std::vector<unsigned char>& v, int id) { Rng r(id * 7919 + 13); for (auto& b : v) b = (unsigned char)r.next(); }
inline long long sumBytes(std::vector<unsigned char> const& v) { unsigned long long h = 1469598103934665603ull; for (auto b : v) { h ^= b; h *= 1099511628211ull; } return (long long)((h ^ (h >> 32)) & 0x3fffffff); }
} // namespace drv
#endif
