// A self-checking program on the simulated machine: run cases 1..n; a case
// fails when a rank crashes, hangs, aborts (fail()) or check() says so.
#include "drv.h"
namespace demo {
using namespace drv;
inline void fail(char const* what) { fprintf(stderr, "FAILED: %s\n", what); fflush(stderr); abort(); }
inline std::vector<std::string> lines(std::string const& s) {
  std::vector<std::string> v; size_t p = 0, q;
  while ((q = s.find('\n', p)) != std::string::npos) { v.push_back(s.substr(p, q - p)); p = q + 1; }
  return v;
}
inline int run(int n, Setup setup, Body body, std::function<bool(Case&, std::vector<std::string> const&)> check = nullptr) {
  int bad = 0;
  for (int id = 1; id <= n; id++) {
    Case c; c.id = id; c.seed = 1; c.rng = Rng(1000003ull + uint64_t(id)); setup(c); schedule(c);
    auto r = fakempi::run(c.cfg, [&](int rank) { body(c, rank); return 0; });
    bool ok = r.end == fakempi::Result::End::Ok && (!check || check(c, lines(r.log)));
    if (!ok) { bad++; printf("case %d: %s\n", id, r.end == fakempi::Result::End::Ok ? "wrong outcome" : r.end == fakempi::Result::End::Hang ? "hang" : "crash or abort"); if (bad >= 3) break; }
  }
  printf("%s\n", bad ? "BROKEN" : "fine"); return bad ? 1 : 0;
}
}
