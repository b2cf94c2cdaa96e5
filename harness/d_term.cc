// Termination detection: collective, rooted (wave and Dijkstra-Scholten)
// epochs, nesting, extra dependencies, actions, polling, waiting.
#include "drv.h"
using namespace vt; using namespace drv;

struct Round { int kind, owner; bool wait, late, nest, share, defer; int init[8]; uint64_t s; };
struct Scn { std::vector<Round> rounds; int branch, acts, nestp, bc, selfact; bool dep; int extra; };
static Scn* S = nullptr;
static int pending = 0; static long nextid = 0; static int budget = 0;
static int me() { return theContext()->getNode(); }
static int nn() { return theContext()->getNumNodes(); }
static long newId() { return (me() + 1) * 1000000L + ++nextid; }
static std::string hex(EpochType e) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)e.get()); return b; }
static EpochType cur() { return theTerm()->getEpoch(); }
static std::vector<EpochType> open_;   // created here, not yet declared finished here
// hold one more epoch with a new one, as a dependent send chain does
static void link(EpochType e, EpochType q) {
  if (e == q) return;
  ev("dep").k("ep", hex(e)).k("par", hex(q)).k("r", me()).put(); theTerm()->addDependency(e, q);
}
static EpochType mk(int kind, Rng* r = nullptr) {
  // sometimes nested in an epoch that was left open before
  bool under = S->dep && r && open_.size() && r->pct(30); auto q = under ? r->of(open_) : no_epoch;
  if (under) theTerm()->pushEpoch(q);
  auto p = cur();
  EpochType e = kind == 0 ? theTerm()->makeEpochCollective("c") : theTerm()->makeEpochRooted("r", term::UseDS{kind == 2});
  ev("new").k("ep", hex(e)).k("kind", kind == 0 ? "c" : kind == 1 ? "w" : "d").k("r", me())
    .raw("par", p == term::any_epoch_sentinel ? "[]" : "[\"" + hex(p) + "\"]").put();
  if (under) { theTerm()->popEpoch(q); if (cur() != term::any_epoch_sentinel && cur() != q) link(e, cur()); }
  if (S->dep && r) while (open_.size() && r->pct(40)) link(e, r->of(open_));
  return e;
}
static void fin(EpochType e) { ev("fin").k("ep", hex(e)).k("r", me()).put(); theTerm()->finishedEpoch(e); }
static void addAct(EpochType e, int depth, bool nested = false) {
  long a = newId(); pending++;
  // an action registered inside an epoch is work of that epoch, so one on an
  // epoch that is not nested in the current one is registered outside
  bool out = cur() == e || !nested; if (out) theTerm()->pushEpoch(term::any_epoch_sentinel);
  ev("act").k("a", a).k("ep", hex(e)).k("r", me()).k("enc", cur() == term::any_epoch_sentinel ? "" : hex(cur())).put();
  theTerm()->addAction(e, [a, e, depth]{
    ev("run").k("a", a).k("r", me()).put(); pending--;
    if (depth > 0) addAct(e, depth - 1, true);    // on an epoch that has terminated
  });
  if (out) theTerm()->popEpoch(term::any_epoch_sentinel);
}
struct WMsg : Message { long id; int ttl; uint64_t s; };
struct EMsg : Message { long id; EpochType ep; int what; };
static void work(WMsg* m);
static void about(EMsg* m);
static void sendW(int dst, int ttl, uint64_t s) {
  auto m = makeMessage<WMsg>(); m->id = newId(); m->ttl = ttl; m->s = s;
  bool b = dst < 0;
  ev("send").k("m", m->id).k("n", b ? nn() : 1).k("ep", hex(cur())).put();
  if (b) theMsg()->broadcastMsg<work>(m); else theMsg()->sendMsg<work>(NodeType(dst), m);
}
// tell another node about an epoch; it polls it or adds an action there
static void tell(int dst, EpochType e, int what) {
  auto m = makeMessage<EMsg>(); m->id = newId(); m->ep = e; m->what = what;
  ev("send").k("m", m->id).k("n", 1).k("ep", hex(cur())).put();
  theMsg()->sendMsg<about>(NodeType(dst), m);
}
static void poll(EpochType e) { bool y = theTerm()->isEpochTerminated(e); ev("poll").k("ep", hex(e)).k("r", me()).k("yes", y).put(); }
static void about(EMsg* m) {
  ev("recv").k("m", m->id).k("r", me()).k("cur", hex(cur())).put();
  long id = m->id;
  if (m->what == 0) poll(m->ep); else addAct(m->ep, 0);
  ev("done").k("m", id).put();
}
static void work(WMsg* m) {
  ev("recv").k("m", m->id).k("r", me()).k("cur", hex(cur())).put();
  Rng r(m->s + uint64_t(me()) * 77); long id = m->id; int ttl = m->ttl;
  auto here = cur();
  if (ttl > 0 && budget > 0) {
    int k = r.in(S->branch + 1);
    for (int i = 0; i < k && budget > 0; i++) { budget--; sendW(r.pct(S->bc) ? -1 : r.in(nn()), ttl - 1, r.next()); }
    if (r.pct(S->nestp) && budget > 0) {
      budget -= 2;
      auto e = mk(r.in(1, 2), &r);
      int act = r.in(3); if (act == 0) addAct(e, 0, true);
      theTerm()->pushEpoch(e);
      int q = r.in(3); for (int i = 0; i < q; i++) sendW(r.in(nn()), ttl - 1, r.next());
      if (r.pct(30)) tell(r.in(nn()), e, r.in(2));
      theTerm()->popEpoch(e);
      if (r.pct(70)) fin(e); else { theSched()->enqueue([e, here]{ fin(e); }); }
      if (act == 1) addAct(e, 0, true);
      if (r.pct(30)) poll(e);
    }
  }
  if (r.pct(S->acts) && here != term::any_epoch_sentinel) addAct(here, 0);
  ev("done").k("m", id).put();
}
// several rooted epochs held by each other along a random acyclic graph
static void dag(Rng& r) {
  std::vector<EpochType> v; int n = r.in(3, 6);
  for (int i = 0; i < n; i++) {
    int under = i > 0 && r.pct(40) ? r.in(i) : -1;
    if (under >= 0) theTerm()->pushEpoch(v[size_t(under)]);
    auto e = mk(r.in(1, 2)); v.push_back(e);
    if (under >= 0) theTerm()->popEpoch(v[size_t(under)]);
    if (r.pct(60)) addAct(e, 0);
    for (int j = 0; j < i; j++) if (j != under && r.pct(45)) link(e, v[size_t(j)]);
  }
  for (auto e : v) if (r.pct(60)) { theTerm()->pushEpoch(e); sendW(r.in(nn()), r.in(1, 4), r.next()); theTerm()->popEpoch(e); }
  while (v.size()) {
    size_t j = size_t(r.in(int(v.size()))); auto e = v[j]; v.erase(v.begin() + long(j));
    fin(e); if (r.pct(60)) { int k = r.in(1, 80); theSched()->runSchedulerWhile([k]() mutable { return --k > 0; }); }
    if (r.pct(40)) poll(e);
  }
}
int main(int argc, char** argv) {
  bool act2 = false, lone = false;
  for (int i = 1; i < argc; i++) { if (std::string(argv[i]) == "--actact") act2 = true; if (std::string(argv[i]) == "--nest") lone = true; }
  return drv::main(argc, argv, [&](Case& c) {
    auto& r = c.rng; c.nranks = r.in(1, c.thorough ? 8 : 5); if (c.nranks == 1 && r.pct(60)) c.nranks = 2;
    static Scn s; s = Scn{}; S = &s;
    int n = r.in(lone ? 2 : 1, c.thorough ? 7 : lone ? 5 : 4);
    s.branch = r.in(1, 3); s.acts = r.of(std::vector<int>{0, 20, 50}); s.nestp = lone ? 60 : r.of(std::vector<int>{0, 15, 35});
    s.bc = r.of(std::vector<int>{0, 0, 15}); s.extra = r.in(3); s.selfact = act2 ? r.in(1, 2) : 0; s.dep = r.pct(lone ? 70 : 30);
    for (int i = 0; i < n; i++) {
      Round d{}; d.kind = r.in(3); d.owner = r.in(c.nranks); d.wait = r.pct(s.dep ? 25 : 50); d.late = r.pct(40); d.nest = r.pct(lone ? 80 : 35); d.share = r.pct(30); d.defer = s.dep && r.pct(65);
      for (auto& x : d.init) x = r.in(4) * (r.pct(70) ? 1 : 0); d.s = r.next(); s.rounds.push_back(d);
    }
    if (r.pct(15)) c.args.push_back("--vt_term_rooted_use_wave"); else if (r.pct(15)) c.args.push_back("--vt_term_rooted_use_ds");
    if (r.pct(20)) c.args.push_back("--vt_ult_disable");
    if (r.pct(25)) c.args.push_back("--vt_sched_num_progress=" + std::to_string(r.in(1, 3)));
  }, [&](Case& c, int) {
    pending = 0; nextid = 0; open_.clear(); budget = c.thorough ? 40 : 20;
    withVt(c, [&]{
      theTerm()->produce(term::any_epoch_sentinel);     // until the last round has begun
      theTerm()->addAction([]{ ev("glob").k("r", me()).put(); });
      auto turn = [](int n) { theSched()->runSchedulerWhile([n]() mutable { return --n > 0; }); };
      Rng rr(S->rounds[0].s + me());
      auto shut = [&](Rng& r) { size_t j = size_t(r.in(int(open_.size()))); auto e = open_[j]; open_.erase(open_.begin() + long(j)); if (r.pct(40)) addAct(e, 0); fin(e); if (r.pct(50)) turn(r.in(1, 60)); if (r.pct(50)) poll(e); };
      for (auto const& d : S->rounds) {
        while (open_.size() && rr.pct(35)) shut(rr);
        Rng r(d.s + me() * 1315423911ull);
        bool in = d.kind == 0 || d.owner == me();
        if (!in) { if (r.pct(30)) theSched()->runSchedulerWhile([n = r.in(1, 20)]() mutable { return --n > 0; }); continue; }
        if (d.kind != 0 && S->dep && r.pct(35)) { dag(r); continue; }
        auto e = mk(d.kind, &r);
        if (r.pct(50)) addAct(e, S->selfact);
        theTerm()->pushEpoch(e);
        for (int i = 0; i < d.init[me() % 8]; i++) sendW(r.pct(S->bc) ? -1 : r.in(nn()), r.in(1, 3), r.next());
        if (d.nest) {
          auto e2 = mk(d.kind == 0 ? int(d.s % 3) : r.in(1, 2), &r);
          theTerm()->pushEpoch(e2);
          for (int i = 0; i < r.in(3); i++) sendW(r.in(nn()), 2, r.next());
          theTerm()->popEpoch(e2);
          if (d.late) { theTerm()->popEpoch(e); fin(e); theTerm()->pushEpoch(e); }
          bool a2 = r.pct(50);
          if (a2 && d.late) addAct(e2, S->selfact, true);   // only e2 keeps e from terminating
          fin(e2);
          if (a2 && !d.late) addAct(e2, S->selfact, true);
          if (d.wait && d.s % 5 < 2) { runSchedulerThrough(e2); ev("waited").k("ep", hex(e2)).k("r", me()).put(); }
        }
        if (d.share && !(d.nest && d.late)) tell(r.in(nn()), e, r.in(2));
        theTerm()->popEpoch(e);
        bool late = d.defer && !(d.nest && d.late);
        if (late) open_.push_back(e); else if (!(d.nest && d.late)) fin(e);
        if (r.pct(40)) addAct(e, S->selfact);
        if (r.pct(30)) poll(e);
        if (d.wait && !late) { runSchedulerThrough(e); ev("waited").k("ep", hex(e)).k("r", me()).put(); if (r.pct(30)) addAct(e, S->selfact); }
      }
      while (open_.size()) shut(rr);
      theTerm()->consume(term::any_epoch_sentinel);
      theSched()->runSchedulerWhile([]{ return pending > 0; });
    });
  });
}
