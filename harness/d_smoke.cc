#include <vt/transport.h>
#include "fakempi.h"
#include <cstdio>
struct Hi : vt::Message { int x; Hi(int a): x(a){} };
static void han(Hi* m) { fakempi::log("hi " + std::to_string(vt::theContext()->getNode()) + " " + std::to_string(m->x)); }
int main(int argc, char** argv) {
  for (int s = 1; s <= 20; s++) {
  fakempi::Config c; c.nranks = 4; c.seed = s;
  auto r = fakempi::run(c, [&](int) {
    int ac = 2; char a0[] = "x"; char a1[]="--vt_quiet"; char* av[] = {a0, a1, nullptr}; char** avp = av;
    vt::initialize(ac, avp);
    vt::runInEpochCollective([]{
      auto me = vt::theContext()->getNode();
      vt::theMsg()->sendMsg<han>((me + 1) % vt::theContext()->getNumNodes(), vt::makeMessage<Hi>(me));
      if (me == 0) vt::theMsg()->broadcastMsg<han>(vt::makeMessage<Hi>(100));
    });
    fakempi::log("done " + std::to_string(vt::theContext()->getNode()));
    vt::finalize();
    return 0;
  });
  printf("end=%d rank=%d code=%d steps=%lu\n", int(r.end), r.rank, r.code, (unsigned long)r.steps);
  if (s == 1) printf("%s", r.log.c_str());
  }
}
