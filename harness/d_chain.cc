// Chains of dependent sends: steps of collection chain sets (local and home
// layout), collective and merged steps, and plain chains of each node.
#include "drv.h"
#include <vt/messaging/collection_chain_set.h>
using namespace vt; using namespace drv;
using messaging::CollectionChainSet; using messaging::DependentSendChain; using messaging::PendingSend;
enum { STEP, COLL, MERGE, RESET, MIG, DYN, OWN };
struct Round { int k; uint64_t s; int a, n; bool waits; };
struct Scn { std::vector<Round> rounds; int size, lay[2]; bool two; };
static Scn* S = nullptr;
static int me() { return theContext()->getNode(); }
static int nn() { return theContext()->getNumNodes(); }
static long nextid = 0; static int budget = 0, rd = 0;
static long newId() { return (me() + 1) * 100000L + ++nextid; }
static void pump(int k) { theSched()->runSchedulerWhile([k]() mutable { return --k > 0; }); }
// a piece of work of step s: recorded when it is created, when it starts and when it is over
static void born(long m, long s) { ev("send").k("m", m).k("s", s).k("r", me()).put(); }
static void spread(long s, int ttl, Rng& r);
struct WMsg : Message { long m, s; int ttl; uint64_t seed; };
static void work(WMsg* w) { ev("recv").k("m", w->m).k("r", me()).put(); Rng r(w->seed + uint64_t(me())); spread(w->s, w->ttl - 1, r); ev("done").k("m", w->m).put(); }
struct Elm : Collection<Elm, Index1D> {
  int steps = 0;
  template <typename Z> void serialize(Z& z) { Collection<Elm, Index1D>::serialize(z); z | steps; }
  void step(long s, int ttl, uint64_t seed) {
    ev("step").k("s", s).k("i", int(getIndex().x())).k("r", me()).put(); steps++;
    Rng r(seed); spread(s, ttl, r); ev("over").k("s", s).put();
  }
  void child(long m, long s, int ttl, uint64_t seed) { ev("recv").k("m", m).k("r", me()).put(); Rng r(seed); spread(s, ttl - 1, r); ev("done").k("m", m).put(); }
  void go(int to) { if (to != me()) this->migrate(NodeType(to)); }
};
using CP = CollectionProxy<Elm, Index1D>;
static CP col; static std::set<int> elems;
static void spread(long s, int ttl, Rng& r) {
  if (ttl <= 0) return;
  int k = r.in(3); for (int i = 0; i < k && budget > 0; i++) {
    budget--; long m = newId(); born(m, s);
    if (r.pct(50) && elems.size()) { auto it = elems.begin(); std::advance(it, r.in(int(elems.size()))); col(*it).send<&Elm::child>(m, s, ttl, r.next()); }
    else { auto w = makeMessage<WMsg>(); w->m = m; w->s = s; w->ttl = ttl; w->seed = r.next(); theMsg()->sendMsg<work>(NodeType(r.in(nn())), w); }
  }
}
static std::unique_ptr<CollectionChainSet<Index1D>> cs[2];
// the steps of round rd on the chain sets in `which`
static void addStep(std::vector<int> const& which, int i, bool coll) {
  ev("add").k("s", rd * 1000L + i).k("g", coll ? long(rd) * 1000 + 999 : rd * 1000L + i).k("i", i).arr("in", which).k("r", me()).put();
}
static long ownStep = 0;
// a step on plain chains of this node: a message, or a function
struct OMsg : Message { long s; int ttl; uint64_t seed; };
static void ownWork(OMsg* m) { ev("step").k("s", m->s).k("i", -1).k("r", me()).put(); Rng r(m->seed); spread(m->s, m->ttl, r); ev("over").k("s", m->s).put(); }
static std::unique_ptr<DependentSendChain> own[3];
static void ownRound(Rng& r, int n) { ownStep = 0;
  for (int i = 0; i < n; i++) {
    int a = r.in(3), b = r.in(3); long s = 1000000L * (me() + 1) + rd * 1000L + ++ownStep; bool merge = r.pct(30) && a != b;
    int base = 10 * (me() + 1); std::vector<int> in{base + a}; if (merge) in.push_back(base + b);
    auto ep = theTerm()->makeEpochRooted("own", term::UseDS{r.pct(50)});
    ev("add").k("s", s).k("g", s).k("i", -1).arr("in", in).k("r", me()).put();
    theMsg()->pushEpoch(ep);
    auto p = [&]() -> PendingSend {
      if (r.pct(40)) { uint64_t sd = r.next(); return PendingSend(ep, [s, sd, ep] { theMsg()->pushEpoch(ep); ev("step").k("s", s).k("i", -1).k("r", me()).put(); Rng q(sd); spread(s, 2, q); ev("over").k("s", s).put(); theMsg()->popEpoch(ep); }); }
      auto m = makeMessage<OMsg>(); m->s = s; m->ttl = 2; m->seed = r.next(); return theMsg()->sendMsg<ownWork>(NodeType(r.in(nn())), m);
    }();
    if (merge) DependentSendChain::mergeChainStep(*own[a], *own[b], ep, std::move(p)); else own[a]->add(ep, std::move(p));
    theMsg()->popEpoch(ep); theTerm()->finishedEpoch(ep);
    if (r.pct(30)) pump(r.in(1, 30));
  }
}
static void round_(Round const& q, std::vector<int>& held) {
  Rng all(q.s), mine(q.s + uint64_t(me()) * 7919);
  auto act = [&](int i) { uint64_t sd = q.s + uint64_t(i) * 31; int ttl = int((q.s >> 8) % 3); return col(i).send<&Elm::step>(rd * 1000L + i, ttl, sd); };
  int w = q.a % (S->two ? 2 : 1); int jit = mine.pct(50) ? mine.in(1, 60) : 0;
  switch (q.k) {
  case STEP: { if (jit) pump(jit); cs[w]->nextStep([&](Index1D i) { addStep({w}, int(i.x()), false); return act(int(i.x())); }); break; }
  case COLL: { if (jit) pump(jit); cs[w]->nextStepCollective([&](Index1D i) { addStep({w}, int(i.x()), true); return act(int(i.x())); }); ev("shut").k("g", rd * 1000L + 999).k("r", me()).put(); break; }
  case MERGE: { if (jit) pump(jit); CollectionChainSet<Index1D>::mergeStepCollective(*cs[w], *cs[1 - w], [&](Index1D i) { addStep({w, 1 - w}, int(i.x()), true); return act(int(i.x())); }); ev("shut").k("g", rd * 1000L + 999).k("r", me()).put(); break; }
  case OWN: ownRound(mine, q.n); break;
  default: break;
  }
  (void)held;
}
// between the phases of steps nothing is under way
static void quiet(Round const& q) {
  theCollective()->barrier();
  Rng all(q.s);
  auto sets = [&](char const* what) { for (int w = 0; w < (S->two ? 2 : 1); w++) { std::vector<int> v; for (auto& i : cs[w]->getSet()) v.push_back(int(i.x())); std::sort(v.begin(), v.end()); ev("set").k("w", rd * 10 + w).k("r", me()).arr("v", v).k("at", what).put(); } };
  if (q.k == RESET) { ev("reset").k("r", me()).put(); runInEpochCollective([&] { for (int w = 0; w < (S->two ? 2 : 1); w++) cs[w]->phaseDone(); for (auto& o : own) o->done(); }); }
  else if (q.k == MIG) {
    std::vector<int> to; for (int i = 0; i < S->size; i++) to.push_back(all.pct(40) ? all.in(nn()) : -1);
    runInEpochCollective([&] { if (me() == q.a % nn()) for (int i : elems) if (to[size_t(i)] >= 0) col(i).send<&Elm::go>(to[size_t(i)]); });
    theCollective()->barrier();
  } else if (q.k == DYN) {
    std::vector<std::pair<int, bool>> ch; for (int k = 0; k < q.n; k++) { int i = all.in(S->size); bool dup = false; for (auto& c : ch) dup |= c.first == i; if (!dup && (elems.size() > 1 || !elems.count(i))) { ch.push_back({i, !elems.count(i)}); if (elems.count(i)) elems.erase(i); else elems.insert(i); } }
    ev("elems").k("r", me()).arr("v", std::vector<int>(elems.begin(), elems.end())).put();
    runInEpochCollective([&] { auto tok = col.beginModification("d"); if (me() == q.a % nn()) for (auto& c : ch) { if (c.second) col[c.first].insert(tok); else col[c.first].destroy(tok); } col.finishModification(std::move(tok)); });
    theCollective()->barrier();
  }
  sets("q"); theCollective()->barrier();
}
int main(int argc, char** argv) {
  return drv::main(argc, argv, [&](Case& c) {
    auto& r = c.rng; c.nranks = r.in(1, c.thorough ? 7 : 5); if (c.nranks == 1 && r.pct(70)) c.nranks = 3;
    static Scn s; s = Scn{}; S = &s; s.size = r.in(1, 7); s.two = r.pct(50); s.lay[0] = r.in(2); s.lay[1] = s.lay[0];
    int n = r.in(2, c.thorough ? 12 : 8); bool lastq = true;
    for (int i = 0; i < n; i++) {
      Round q{}; int k = r.in(100); q.s = r.next(); q.a = r.in(10); q.n = r.in(1, 5);
      q.k = k < 30 ? STEP : k < 45 ? COLL : k < 58 ? (s.two ? MERGE : COLL) : k < 70 ? OWN : k < 78 ? RESET : k < 90 ? MIG : DYN;
      q.waits = q.k < RESET || q.k == OWN ? r.pct(30) : true; (void)lastq;
      s.rounds.push_back(q);
    }
    if (r.pct(15)) c.args.push_back("--vt_term_rooted_use_wave"); else if (r.pct(15)) c.args.push_back("--vt_term_rooted_use_ds");
    if (r.pct(20)) c.args.push_back("--vt_ult_disable");
    if (r.pct(25)) c.args.push_back("--vt_sched_num_progress=" + std::to_string(r.in(1, 3)));
  }, [&](Case& c, int) {
    nextid = 0; budget = c.thorough ? 40 : 20; rd = 0; ownStep = 0; elems.clear(); for (int i = 0; i < S->size; i++) elems.insert(i);
    withVt(c, [&] {
      ev("elems").k("r", me()).arr("v", std::vector<int>(elems.begin(), elems.end())).put();
      col = makeCollection<Elm>("c").bounds(Index1D(S->size)).bulkInsert().dynamicMembership(true).wait();
      for (auto& o : own) o = std::make_unique<DependentSendChain>();
      runInEpochCollective([&] { for (int w = 0; w < (S->two ? 2 : 1); w++) cs[w] = std::make_unique<CollectionChainSet<Index1D>>(col, S->lay[w] ? messaging::Home : messaging::Local); });
      theCollective()->barrier(); quiet(Round{-1, 1, 0, 0, true});
      std::vector<int> held; size_t i = 0; auto& R = S->rounds;
      auto step = [](Round const& q) { return q.k < RESET || q.k == OWN; };
      while (i < R.size()) {
        if (step(R[i])) {   // several rounds of steps under one epoch, not waiting in between
          std::vector<int> all; runInEpochCollective([&] { do { rd++; if (R[i].k < RESET) all.push_back(rd); round_(R[i], held); i++; } while (i < R.size() && step(R[i]) && !R[i - 1].waits); });
          ev("rend").k("r", me()).k("rd", rd).arr("all", all).put();
        } else { rd++; quiet(R[i]); i++; }
      }
      runInEpochCollective([] {});
      for (auto& x : cs) x = nullptr; for (auto& o : own) o = nullptr;
      ev("fini").k("r", me()).put();
    });
  });
}
