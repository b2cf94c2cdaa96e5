// The runtime around handlers: the scheduler's queue, loops and triggers;
// phases and their hooks; asynchronous operations and events.
#include "drv.h"
#include <vt/phase/phase_manager.h>
#include <vt/messaging/async_op_mpi.h>
#include <vt/messaging/message/message_priority.h>
#include <vt/event/event_record.h>
#include <deque>
using namespace vt; using namespace drv;
using sched::SchedulerEvent;
static int me() { return theContext()->getNode(); }
static int nn() { return theContext()->getNumNodes(); }
static std::string mode = "sched";
static Case* C_ = nullptr;
static long nextid = 0; static long newId() { return (me() + 1) * 100000L + ++nextid; }
static int budget = 0;
// (a loop that waits for nothing must not pass for the end of the program)
static void pump_(int k) { theTerm()->produce(); theSched()->runSchedulerWhile([k]() mutable { return --k > 0; }); theTerm()->consume(); }

static void pump(int k) { pump_(k); }
//------------------------------------------------------------------ scheduler
namespace sc {
struct Scn { int han, units, rounds, loops; uint64_t s; bool nest, trigs; };
static Scn S; static Rng R(1); static int pending = 0; static int since = 0;
static void act(int ttl);
static long lastrun = 0; static std::set<long> ran;
static void loop(std::function<bool()> cond) {
  ev("loop").k("r", me()).k("d", int(theSched()->getSchedulerDepth())).put();
  bool stopped = false;
  theSched()->runSchedulerWhile([&] { bool v = cond(); if (!v) { ev("stop").k("r", me()).put(); stopped = true; } return v; });
  ev("left").k("r", me()).k("d", int(theSched()->getSchedulerDepth())).put();
}
static void unit(long id, int ttl) {
  pending--; since++; lastrun = id; ran.insert(id);
  ev("run").k("r", me()).k("id", id).put(); act(ttl); ev("ran").k("r", me()).k("id", id).put();
}
static long enq(int ttl) {
  long id = newId(); budget--; pending++;
  auto f = [id, ttl] { unit(id, ttl); };
  static std::vector<PriorityType> const ps = {min_priority, sys_min_priority, default_priority, max_priority, sys_max_priority, breadth_priority[2], medium_priority[1], medium_priority[3], PriorityType(1), PriorityType(default_priority + 1), PriorityType(0xffff)};
  if (R.pct(25)) { theSched()->enqueue(f); ev("enq").k("r", me()).k("id", id).k("p", int(default_priority)).put(); }
  else { PriorityType p = R.pct(70) ? R.of(ps) : PriorityType(R.in(65536)); theSched()->enqueue(p, f); ev("enq").k("r", me()).k("id", id).k("p", int(p)).put(); }
  return id;
}
struct PMsg : Message { long id; int ttl; };
static void handle(PMsg* m) {
  since++;
  ev("mrun").k("r", me()).k("id", m->id).k("p", int(envelopeGetPriority(m->env))).put();
  // the priority of a message made from this one
  if (R.pct(30)) {
    auto n = makeMessage<PMsg>(); int p = R.in(8); bool inc = R.pct(50);
    ev("from").k("op", int(envelopeGetPriority(m->env))).k("ol", int(envelopeGetPriorityLevel(m->env))).k("p", p).k("inc", inc)
      .k("np", (messaging::msgSetPriorityFrom(m, n.get(), PriorityType(p), inc), int(envelopeGetPriority(n->env)))).k("nl", int(envelopeGetPriorityLevel(n->env))).put();
    if (budget > 0 && m->ttl > 0) { budget--; n->id = newId(); n->ttl = m->ttl - 1; int to = R.in(nn()); ev("send").k("r", to).k("id", n->id).k("p", int(envelopeGetPriority(n->env))).put(); theMsg()->sendMsg<handle>(NodeType(to), n); }
  }
  act(m->ttl); ev("mran").k("r", me()).k("id", m->id).put();
}
static void post(int ttl) {
  auto n = makeMessage<PMsg>(); budget--; n->id = newId(); n->ttl = ttl; int to = R.in(nn());
  if (R.pct(80)) { int p = R.in(8); bool inc = R.pct(40); messaging::msgSetPriority(n.get(), PriorityType(p), inc);
    ev("from").k("op", int(vt::min_priority)).k("ol", inc ? 1 : 0).k("p", p).k("inc", false).k("np", int(envelopeGetPriority(n->env))).k("nl", int(envelopeGetPriorityLevel(n->env))).put(); }
  ev("send").k("r", to).k("id", n->id).k("p", int(envelopeGetPriority(n->env))).put();
  theMsg()->sendMsg<handle>(NodeType(to), n);
}
static int ntrig = 0;
static void reg(int e, bool once);
static void fired(int e, int k, bool once) {
  ev("trig").k("r", me()).k("ev", e).k("k", k).k("d", int(theSched()->getSchedulerDepth())).put();
  if (k != e && budget > 0) {
    if (R.pct(25)) enq(1);
    if (once && R.pct(40)) reg(R.pct(50) ? e : R.in(7), true);
    if (once && S.nest && (e == 4 || e == 6) && R.pct(30) && theSched()->getSchedulerDepth() < 6) { int n = R.in(1, 4); loop([n]() mutable { return --n > 0; }); }
  }
  ev("tran").k("r", me()).k("k", k).put();
}
static void reg(int e, bool once) {
  int k = 10 + ntrig++; if (ntrig > 25) return;
  ev("reg").k("r", me()).k("ev", e).k("k", k).k("once", once).put();
  auto f = [=] { fired(e, k, once); };
  if (once) theSched()->registerTriggerOnce(SchedulerEvent(e), f); else theSched()->registerTrigger(SchedulerEvent(e), f);
}
static void act(int ttl) {
  if (R.pct(4)) pump(2);
  for (int k = R.in(3); k > 0 && budget > 0 && ttl > 0; k--) { if (R.pct(70)) enq(ttl - 1); else post(ttl - 1); }
  if (S.trigs && R.pct(6)) reg(R.in(7), true);
  if (theSched()->getSchedulerDepth() > 5) return;
  if (S.nest && R.pct(15)) {
    int how = R.in(3);
    if (how == 0) { int n = R.in(0, 6); loop([n]() mutable { return --n > 0; }); }
    else if (how == 1) { long id = enq(0); loop([id] { return ran.count(id) == 0; }); }
    else { ev("ie").k("r", me()).put(); bool ds = R.pct(50); (void)ds; runInEpochRooted([&] { ev("body").k("r", me()).put(); if (R.pct(60)) post(1); }); ev("ieover").k("r", me()).put(); }
  }
}
struct Beat : messaging::AsyncOp {
  bool& stop; explicit Beat(bool& s) : stop(s) { }
  bool poll() override { if (since) { since = 0; ev("poll").k("r", me()).put(); } return stop; }
  void done() override { ev("deaf").k("r", me()).put(); }
};
static void setup(Case& c) {
  auto& r = c.rng; c.nranks = r.in(1, 4);
  S = Scn{r.pct(50) ? 0 : r.in(1, 5), r.in(4, 40), r.in(1, 4), 0, r.next(), r.pct(70), r.pct(70)};
  if (S.han) c.args.push_back("--vt_sched_progress_han=" + std::to_string(S.han));
  if (r.pct(30)) c.args.push_back("--vt_sched_num_progress=" + std::to_string(r.in(1, 4)));
  if (r.pct(30)) c.args.push_back("--vt_ult_disable");
  c.params = "{\"k\":" + std::to_string(S.han) + "}";
}
static void body(Case& c, int rank) {
  withVt(c, [&] {
    R = Rng(S.s + uint64_t(rank) * 77); budget = S.units;
    static bool stop = false; 
    for (int e = 0; e < 7; e++) theSched()->registerTrigger(SchedulerEvent(e), [e] { fired(e, e, false); });
    ev("start").k("r", me()).put();
    theMsg()->registerAsyncOp(std::make_unique<Beat>(stop));
    runInEpochCollective([] { });   // everybody is recording
    if (S.trigs) for (int i = R.in(5); i > 0; i--) reg(R.in(7), R.pct(50));
    for (int rd = 0; rd < S.rounds; rd++) {
      int n = R.in(1, S.units / S.rounds + 1);
      for (int i = 0; i < n; i++) { if (R.pct(80)) enq(3); else post(3); }
      if (R.pct(50)) { int k = R.in(1, 30); loop([k]() mutable { return --k > 0; }); }
      else loop([] { return pending > 0; });
    }
    loop([] { return pending > 0; });
    stop = true; runInEpochCollective([] { }); loop([] { return pending > 0; }); budget = 0;   // nothing runs work that is enqueued from here on
    ev("fini").k("r", me()).put();
  });
}
}

//--------------------------------------------------------------------- phases
namespace ph {
enum { ROOT, COLL, UNS };
struct Round { uint64_t s; int what; };
struct Scn { std::vector<Round> rounds; uint64_t s; int lb; };
static Scn S; static Rng R(1);
struct Hk { phase::PhaseHookID id; int kind, type; };
static std::map<long, Hk> hooks; static long ncoll = 0, nown = 0;
static long cur = 0;   // hook now running (or the one a message comes from)
static int rd = 0;
struct WMsg : Message { long m; int ttl; uint64_t s; };
static void work(WMsg* w);
static void spread(Rng& r, int ttl) {
  for (int k = r.in(3); k > 0 && ttl > 0 && budget > 0; k--) {
    budget--; auto w = makeMessage<WMsg>(); w->m = newId(); w->ttl = ttl - 1; w->s = r.next();
    ev("send").k("r", me()).k("m", w->m).k("of", cur).put();
    if (r.pct(80)) theMsg()->sendMsg<work>(NodeType(r.in(nn())), w); else { ev("bc").k("m", w->m).put(); theMsg()->broadcastMsg<work>(w); }
  }
}
static void work(WMsg* w) {
  ev("recv").k("r", me()).k("m", w->m).put();
  long keep = cur; cur = -w->m; Rng r(w->s + uint64_t(me())); spread(r, w->ttl); cur = keep;
  ev("wend").k("r", me()).k("m", w->m).put();
}
static void add(int kind, int type) {
  long h = kind == COLL ? ++ncoll : 1000L * (me() + 1) + ++nown; auto t = phase::PhaseHook(type);
  auto f = [h] {
    ev("hook").k("r", me()).k("h", h).k("ph", int(thePhase()->getCurrentPhase())).put();
    cur = h; Rng r(R.next()); spread(r, 3); cur = 0; ev("hend").k("r", me()).k("h", h).put();
  };
  auto id = kind == COLL ? thePhase()->registerHookCollective(t, f) : kind == ROOT ? thePhase()->registerHookRooted(t, f) : thePhase()->registerHookUnsynchronized(t, f);
  hooks.emplace(h, Hk{id, kind, type});
  ev("reg").k("r", me()).k("h", h).k("kind", kind).k("type", type).put();
}
static void drop(long h) { thePhase()->unregisterHook(hooks.at(h).id); hooks.erase(h); ev("unreg").k("r", me()).k("h", h).put(); }
static void setup(Case& c) {
  auto& r = c.rng; c.nranks = r.in(1, 4); S = Scn(); S.s = r.next();
  for (int i = r.in(2, 5); i > 0; i--) S.rounds.push_back({r.next(), r.in(10)});
  if (r.pct(30)) c.args.push_back("--vt_ult_disable");
  if (r.pct(30)) { c.args.push_back("--vt_lb"); c.args.push_back("--vt_lb_name=RotateLB"); }
}
static void body(Case& c, int rank) {
  withVt(c, [&] {
    R = Rng(S.s + uint64_t(rank) * 77);
    static int const types[] = {int(phase::PhaseHook::Start), int(phase::PhaseHook::End), int(phase::PhaseHook::DataCollection), int(phase::PhaseHook::EndPostMigration)};
    for (auto& q : S.rounds) {
      rd++; Rng all(q.s), mine(q.s + uint64_t(rank) * 991 + 1); budget = 12;
      for (int k = all.in(3); k > 0; k--) add(COLL, types[all.in(4)]);
      for (int k = mine.in(3); k > 0; k--) add(mine.pct(50) ? ROOT : UNS, types[mine.in(4)]);
      if (all.pct(30)) { std::vector<long> v; for (auto& [h, x] : hooks) if (x.kind == COLL) v.push_back(h); if (v.size()) drop(v[size_t(all.in(int(v.size())))]); }
      if (mine.pct(30)) { std::vector<long> v; for (auto& [h, x] : hooks) if (x.kind != COLL) v.push_back(h); if (v.size()) drop(v[size_t(mine.in(int(v.size())))]); }
      if (mine.pct(30)) pump(mine.in(1, 10));
      if (all.pct(15)) {
        int t = types[all.pct(50) ? 0 : 3]; theCollective()->barrier();
        ev("manual").k("r", me()).k("type", t).put(); thePhase()->runHooksManual(phase::PhaseHook(t)); ev("mleft").k("r", me()).k("ph", int(thePhase()->getCurrentPhase())).put();
        theCollective()->barrier();
      } else {
        ev("enter").k("r", me()).put(); thePhase()->nextPhaseCollective(); ev("leave").k("r", me()).k("ph", int(thePhase()->getCurrentPhase())).put();
      }
    }
    ev("fini").k("r", me()).put();
  });
}
}

//------------------------------------------------ asynchronous operations, events
namespace as {
struct Scn { int rounds; uint64_t s; bool ult; int events; bool again; };
static Scn S; static Rng R(1); static int rd = 0;
static long curm = 0; static std::map<long, bool> flag;    // operations that wait for a message
static void pump(int k) { int keep = rd; long km = curm; pump_(k); rd = keep; curm = km; }   // a handler that blocks leaves its own behind
static void act(int ttl, int depth);
static bool inUlt() { return sched::ThreadAction::getActiveThreadID() != no_thread_id; }
struct WMsg : Message { long m; int ttl; int rd; };
static void work(WMsg* w) {
  ev("recv").k("r", me()).k("m", w->m).k("rd", w->rd).put(); int keep = rd; long km = curm; rd = w->rd; curm = w->m; act(w->ttl, 0); ev("wend").k("m", w->m).put(); rd = keep; curm = km;
}
static void post(int ttl) {
  auto w = makeMessage<WMsg>(); budget--; w->m = newId(); w->ttl = ttl; w->rd = rd;
  ev("send").k("m", w->m).k("rd", rd).put(); theMsg()->sendMsg<work>(NodeType(R.in(nn())), w);
}
struct FMsg : Message { long id; int hops, home; };
static void setFlag(FMsg* m) {
  if (m->hops > 0) { auto x = makeMessage<FMsg>(); x->id = m->id; x->hops = m->hops - 1; x->home = m->home; theMsg()->sendMsg<setFlag>(NodeType(x->hops ? R.in(nn()) : m->home), x); return; }
  ev("flag").k("id", m->id).put(); flag[m->id] = true;
}
static void start(int kind, int depth, bool block, int ttl);
struct Op : messaging::AsyncOp {
  long id; int left, ttl, depth; bool wait; int in; EpochType ep;
  Op(long i, int l, bool w, int t, int d) : id(i), left(l), ttl(t), depth(d), wait(w), in(rd), ep(theMsg()->getEpoch()) { }
  bool poll() override {
    bool v = wait ? flag[id] : --left <= 0;
    if (v || left > -3) { if (wait) left--; ev("poll").k("id", id).k("v", v).put(); } return v;
  }
  void done() override {
    ev("done").k("id", id).put(); int keep = rd; long km = curm; rd = in; curm = 0; theMsg()->pushEpoch(ep);
    if (ttl > 0 && budget > 0) {
      int how = R.in(4);
      if (how == 0) post(ttl - 1);
      else if (how == 1) for (int k = R.in(1, 5); k > 0 && budget > 0; k--) start(R.in(2), depth + 1, false, ttl - 1);
      else if (how == 2 && depth < 2) { runInEpochRooted([&] { if (R.pct(50)) post(0); }); rd = in; curm = 0; }
    }
    theMsg()->popEpoch(ep); rd = keep; curm = km; ev("dend").k("id", id).put();
  }
};
static void start(int kind, int depth, bool block, int ttl) {
  long id = newId(); budget--; bool wait = kind == 1;
  int n = R.in(1, 8); auto op = std::make_unique<Op>(id, n, wait, ttl, depth);
  ev("op").k("r", me()).k("id", id).k("rd", rd).k("blk", block).k("m", curm).k("n", wait ? 0 : n).put();
  if (wait) { flag[id] = false; auto x = makeMessage<FMsg>(); x->id = id; x->home = me(); x->hops = R.in(1, 3); theMsg()->sendMsg<setFlag>(NodeType(R.in(nn())), x); }
  if (!block) { theMsg()->registerAsyncOp(std::move(op)); return; }
  EpochType e = theMsg()->getEpoch(); auto from = theContext()->getFromNodeCurrentTask(); auto tid = sched::ThreadAction::getActiveThreadID(); volatile long local = id * 3; int keep = rd; long km = curm;
  theMsg()->blockOnAsyncOp(std::move(op)); rd = keep; curm = km;
  ev("resume").k("r", me()).k("id", id).k("ok", theMsg()->getEpoch() == e && theContext()->getFromNodeCurrentTask() == from && sched::ThreadAction::getActiveThreadID() == tid && local == id * 3).put();
}
static void act(int ttl, int depth) {
  if (ttl <= 0) return;
  for (int k = R.in(4); k > 0 && budget > 0; k--) {
    int how = R.in(10);
    if (how < 4) post(ttl - 1);
    else start(how % 2, depth, S.ult && inUlt() && R.pct(60), ttl - 1);
  }
}
//--- events
static std::map<long, EventType> evs; static std::map<long, bool> shot;
struct EMsg : Message { long e; EventType id; };
static int chained = 0;
static long attach(long e, EventType id) {
  long a = newId(); ev("att").k("r", me()).k("x", e).k("a", a).put();
  theEvent()->attachAction(id, [a, e, id] { ev("act").k("r", me()).k("a", a).put(); if (S.again && R.pct(15) && ++chained < 6) attach(e, id); });
  return a;
}
static void remote(EMsg* m) { attach(m->e, m->id); ev("asked").k("x", m->e).put(); }
static void shoot(long e) { ev("shot").k("x", e).put(); shot[e] = true; theEvent()->getEventHolder(evs[e]).makeReadyTrigger(); }
static void events() {
  std::vector<long> mine; int n = R.in(1, 4);
  for (int i = 0; i < n; i++) { long e = newId(); evs[e] = theEvent()->createNormalEvent(NodeType(me())); mine.push_back(e); ev("new").k("r", me()).k("x", e).put(); }
  for (int i = R.in(2); i > 0; i--) {
    long e = newId(); auto id = theEvent()->createParentEvent(NodeType(me())); auto& h = theEvent()->getEventHolder(id); std::vector<long> kids;
    for (long k : mine) if (k != e && R.pct(60) && !shot[k]) { kids.push_back(k); h.get_event()->addEventToList(evs[k]); }
    evs[e] = id; ev("par").k("r", me()).k("x", e).arr("of", kids).put(); if (R.pct(80)) attach(e, id);
  }
  int steps = R.in(2, 10);
  for (int i = 0; i < steps; i++) {
    long e = R.of(mine); int how = R.in(5);
    if (how == 0 && !shot[e]) shoot(e);
    else if (how == 1) attach(e, evs[e]);
    else if (how == 2) { int to = R.in(nn()); auto m = makeMessage<EMsg>(); m->e = e; m->id = evs[e]; ev("tell").k("x", e).put(); theMsg()->sendMsg<remote>(NodeType(to), m); }
    else if (how == 3) { ev("look").k("x", e).k("v", theEvent()->testEventComplete(evs[e]) == event::AsyncEvent::EventStateType::EventReady).put(); }
    else pump(R.in(1, 12));
  }
  for (long e : mine) if (!shot[e]) { pump(R.in(1, 8)); shoot(e); }
}
static void setup(Case& c) {
  auto& r = c.rng; c.nranks = r.in(1, 4); S = Scn{r.in(1, 4), r.next(), r.pct(75), r.in(3), r.pct(50)};
  if (!S.ult) c.args.push_back("--vt_ult_disable");
  if (r.pct(30)) c.args.push_back("--vt_sched_progress_han=" + std::to_string(r.in(1, 5)));
}
static void body(Case& c, int rank) {
  withVt(c, [&] {
    R = Rng(S.s + uint64_t(rank) * 77);
    for (int i = 0; i < S.rounds; i++) {
      rd = i + 1; budget = 14; bool rooted = Rng(S.s + uint64_t(i)).pct(30);
      ev("open").k("r", me()).k("rd", rooted ? rd * 10 + rank : rd * 10).k("root", rooted).put(); rd = rooted ? rd * 10 + rank : rd * 10;
      auto f = [&] { for (int k = R.in(3); k > 0; k--) post(3); for (int k = R.in(3); k > 0; k--) start(R.in(2), 0, false, 2); if (i < S.events && !rooted) events(); ev("shut").k("r", me()).k("rd", rd).put(); };
      if (rooted) runInEpochRooted(f); else runInEpochCollective(f);
      ev("over").k("r", me()).k("root", rooted).k("rd", rooted ? (i + 1) * 10 + rank : (i + 1) * 10).put();
      theCollective()->barrier();
    }
    ev("fini").k("r", me()).put();
  });
}
}
static void setup(Case& c) { C_ = &c; if (mode == "sched") sc::setup(c); else if (mode == "phase") ph::setup(c); else as::setup(c); }
static void body(Case& c, int rank) { if (mode == "sched") sc::body(c, rank); else if (mode == "phase") ph::body(c, rank); else as::body(c, rank); }
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return drv::main(argc, argv, setup, body);
}
