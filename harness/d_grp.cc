// Groups, object groups, callbacks, scatter, reductions, barriers and
// collective scopes: the ways work reaches many nodes at once.
#include "drv.h"
#include <vt/group/group_headers.h>
using namespace vt; using namespace drv;
using Bytes = std::vector<unsigned char>;

struct Round { int k, n, a, b; uint64_t s; };
struct Scn { std::vector<Round> rounds; int mode; bool early; uint64_t salt; };
static Scn* S = nullptr;
static long nextid = 0; static int rd = 0;
// work done on behalf of round q
struct For { int was = rd; For(int q) { rd = q; } ~For() { rd = was; } };
static int me() { return theContext()->getNode(); }
static int nn() { return theContext()->getNumNodes(); }
static long newId() { return (me() + 1) * 1000000L + ++nextid; }
static void pump(int k) { theSched()->runSchedulerWhile([k]() mutable { return --k > 0; }); }
static Bytes pay(long id) { Rng r(uint64_t(id) * 31 + 7); Bytes b(size_t(r.pct(15) ? 6000 + r.in(3000) : r.in(60))); fillBytes(b, int(id)); return b; }
static long long sum(long id, Bytes const& b) { return (sumBytes(b) ^ (id * 2654435761LL)) & 0x3fffffff; }
static void owe(long m, int o, std::vector<int> const& to, long k = 0) { ev("owe").k("m", m).k("k", k).k("o", o).arr("to", to).k("sum", sum(m, pay(m))).k("rd", rd).k("r", me()).put(); }
static std::vector<int> everyone() { std::vector<int> v; for (int i = 0; i < nn(); i++) v.push_back(i); return v; }

//------------------------------------------------------------------ messages
struct BMsg : Message {
  using MessageParentType = Message; vt_msg_serialize_required();
  long id = 0; Bytes b;
  template <typename Z> void serialize(Z& z) { MessageParentType::serialize(z); z | id | b; }
};
struct PMsg : Message { long id; unsigned char x[48]; };
static void got(long m, int o, long long s, long k = 0) { ev("got").k("m", m).k("k", k).k("o", o).k("r", me()).k("sum", s).put(); }
static void onB(BMsg* m) { got(m->id, 0, sum(m->id, m->b)); }
static void onP(PMsg* m) { Bytes b(m->x, m->x + 48); Bytes w(48); fillBytes(w, int(m->id)); got(m->id, 0, b == w ? sum(m->id, pay(m->id)) : -1); }

//-------------------------------------------------------------------- groups
static std::map<int, GroupType> grp;          // scenario number -> handle, where known
static std::map<int, bool> coll;
static void gsend(int g, bool small) {
  long id = newId(); ev("gowe").k("m", id).k("g", g).k("o", 0).k("sum", sum(id, pay(id))).k("rd", rd).k("r", me()).put();
  if (small) { auto m = makeMessage<PMsg>(); m->id = id; Bytes w(48); fillBytes(w, int(id)); memcpy(m->x, w.data(), 48); envelopeSetGroup(m->env, grp[g]); theMsg()->broadcastMsg<onP>(m); }
  else { auto m = makeMessage<BMsg>(); m->id = id; m->b = pay(id); envelopeSetGroup(m->env, grp[g]); theMsg()->broadcastMsg<onB>(m); }
}
struct TMsg : Message { int g; GroupType id; };
static std::map<int, GroupType> told;         // becomes known when the round is over
static void onTell(TMsg* m) { told[m->g] = m->id; }
static std::unique_ptr<group::region::Region> region_(Rng& r, std::vector<int>& mem) {
  mem.clear();
  if (r.pct(50)) {
    int lo = r.in(nn()), hi = r.in(lo + 1, nn()), st = r.in(1, 3);
    for (int i = lo; i < hi; i += st) mem.push_back(i);
    return std::make_unique<group::region::Range>(NodeType(lo), NodeType(hi), NodeType(st));
  }
  group::region::List::ListType l; for (int i = 0; i < nn(); i++) if (r.pct(55)) l.push_back(NodeType(i));
  if (l.empty()) l.push_back(NodeType(r.in(nn())));
  for (auto x : l) mem.push_back(x);
  for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[size_t(r.in(int(i)))]);
  return std::make_unique<group::region::List>(l);
}

//------------------------------------------------------------- object groups
struct Obj {
  int o = 0; long tag = 0; int cnt = 0;
  Obj() = default; Obj(int o_, long t) : o(o_), tag(t) {}
  void note(long m, long long s) { ev("got").k("m", m).k("k", 0).k("o", o).k("r", me()).k("sum", s).k("tag", tag).k("cnt", cnt++).put(); }
  void hPar(long id, int ttl, uint64_t s, Bytes const& b);
  void hMsg(BMsg* m) { note(m->id, sum(m->id, m->b)); }
  long hRet(long id, Bytes b) { note(id, sum(id, b)); return id * 3 + tag; }
  void hCb(long id, long k, Bytes b) { got(id, o, sum(id, b), k); }
};
// a handle in the form the runtime expects of user-provided ones: * yields the pointer
template <typename T> struct Hold { T* p = nullptr; Hold() = default; Hold(T* q) : p(q) {} T* operator*() const { return p; } bool operator!=(std::nullptr_t) const { return p; } };
using OP = objgroup::proxy::Proxy<Obj>;
static std::map<int, OP> objs; static std::map<int, bool> owned;   // owned by the runtime
static void osend(int o, int dst, int how, Rng& r, int ttl) {
  long id = newId(); auto& p = objs[o]; auto b = pay(id); uint64_t s = r.next();
  if (how < 3) { owe(id, o, {dst}); if (how == 0) { auto m = makeMessage<BMsg>(); m->id = id; m->b = b; p[NodeType(dst)].sendMsg<&Obj::hMsg>(m); } else p[NodeType(dst)].send<&Obj::hPar>(id, ttl + 16 * rd, s, b); }
  else if (how < 6) { owe(id, o, everyone()); if (how == 3) { auto m = makeMessage<BMsg>(); m->id = id; m->b = b; p.broadcastMsg<&Obj::hMsg>(m); } else p.broadcast<&Obj::hPar>(id, std::max(ttl - 1, 0) + 16 * rd, s, b); }
  else { owe(id, o, {me()}); long v = p[NodeType(me())].invoke<&Obj::hRet>(id, b); ev("inv").k("m", id).k("o", o).k("r", me()).k("val", v - id * 3).put(); }
}
static int budget = 0;
void Obj::hPar(long id, int ttl, uint64_t s, Bytes const& b) {
  note(id, sum(id, b)); Rng r(s + uint64_t(me()) * 131); For f(ttl / 16); ttl %= 16;
  if (ttl > 0 && budget > 0 && r.pct(60)) { budget--; auto it = objs.begin(); std::advance(it, r.in(int(objs.size()))); osend(it->first, r.in(nn()), r.in(4) == 3 ? 4 : 1, r, ttl - 1); }
}

//----------------------------------------------------------------- callbacks
struct Col : Collection<Col, Index1D> { void hCb(long id, long k, Bytes b) { ev("got").k("m", id).k("k", k).k("o", 1000 + int(getIndex().x())).k("r", -1).k("sum", sum(id, b)).put(); } };
struct CMsg : Message {
  using MessageParentType = Message; vt_msg_serialize_required();
  long id = 0, k = 0; Bytes b;
  CMsg() = default; CMsg(long i, long q, Bytes c) : id(i), k(q), b(c) {}
  template <typename Z> void serialize(Z& z) { MessageParentType::serialize(z); z | id | k | b; }
};
using CB = Callback<long, long, Bytes>; using CBM = Callback<CMsg>; using CBV = Callback<>;
static void cbPar(long id, long k, Bytes b) { got(id, 0, sum(id, b), k); }
static void cbMsg(CMsg* m) { got(m->id, 0, sum(m->id, m->b), m->k); }
static long ctx_; static void cbCtx(CMsg* m, long* c) { got(m->id, 0, c == &ctx_ ? sum(m->id, m->b) : -2, m->k); }
struct CbFun { void operator()(long id, long k, Bytes b) { got(id, 0, sum(id, b), k); } };
struct CbMFun { void operator()(CMsg* m) { got(m->id, 0, sum(m->id, m->b), m->k); } };
static OP cbo; static CollectionProxy<Col, Index1D> cbc; static int ncol = 5;
struct FMsg : Message { long k; int rd, kind, times, hops, at, o; std::vector<int> to; uint64_t s; CB a; CBM b; CBV c; using MessageParentType = Message; vt_msg_serialize_required();
  template <typename Z> void serialize(Z& z) { MessageParentType::serialize(z); z | k | rd | kind | times | hops | at | o | to | s | a | b | c; } };
static void trigger(FMsg* m) {
  For f(m->rd);
  if (m->hops > 0) { Rng r(m->s); auto q = makeMessage<FMsg>(); q->k = m->k; q->rd = m->rd; q->kind = m->kind; q->times = m->times; q->hops = m->hops - 1; q->at = m->at; q->o = m->o; q->to = m->to; q->s = r.next(); q->a = m->a; q->b = m->b; q->c = m->c; theMsg()->sendMsg<trigger>(NodeType(r.in(nn())), q); return; }
  for (int i = 0; i < m->times; i++) {
    long id = newId(); 
    if (m->o == 1999) for (int e = 0; e < ncol; e++) ev("owe").k("m", id).k("k", m->k).k("o", 1000 + e).arr("to", std::vector<int>{-1}).k("sum", sum(id, pay(id))).k("rd", rd).k("r", me()).put();
    else ev("owe").k("m", id).k("k", m->k).k("o", m->o).arr("to", m->to).k("sum", sum(id, pay(id))).k("rd", rd).k("r", me()).put();
    int t = m->kind % 3; if (t == 0) m->a.send(id, m->k, pay(id)); else if (t == 1) m->b.send(id, m->k, pay(id)); else m->c.send();
  }
}
static void mkCallback(Rng& r) {
  static long nk = 0; long k = (me() + 1) * 1000L + ++nk; auto m = makeMessage<FMsg>(); m->k = k; m->rd = rd; m->times = r.in(1, 3); m->hops = r.in(0, 3); m->s = r.next(); m->o = 0;
  int t = r.in(3), x = r.in(nn()); m->kind = t; auto* c = theCB();
  using L = pipe::LifetimeEnum;
  if (t == 0) {
    switch (r.in(7)) {
    case 0: m->a = c->makeSend<cbPar>(NodeType(x)); m->to = {x}; break;
    case 1: m->a = c->makeBcast<cbPar>(); m->to = everyone(); break;
    case 2: m->a = c->makeSend<&Obj::hCb>(cbo[NodeType(x)]); m->to = {x}; m->o = 900; break;
    case 3: m->a = c->makeBcast<&Obj::hCb>(cbo); m->to = everyone(); m->o = 900; break;
    case 4: { int e = r.in(ncol); m->a = c->makeSend<&Col::hCb>(cbc(e)); m->to = {-1}; m->o = 1000 + e; break; }
    case 5: m->a = c->makeBcast<&Col::hCb>(cbc); m->o = 1999; break;
    default: m->a = c->makeSend<CbFun>(NodeType(x)); m->to = {x}; break;
    }
  } else if (t == 1) {
    switch (r.in(5)) {
    case 0: m->b = c->makeSend<cbMsg>(NodeType(x)); m->to = {x}; break;
    case 1: m->b = c->makeBcast<cbMsg>(); m->to = everyone(); break;
    case 2: { bool once = r.pct(50); if (once) m->times = 1; m->b = c->makeFunc<CMsg>(once ? L::Once : L::Indefinite, [k](CMsg* q) { got(q->id, 0, sum(q->id, q->b), q->k == k ? k : -3); }); m->to = {me()}; break; }
    case 3: { bool once = r.pct(50); if (once) m->times = 1; m->b = c->makeFunc<CMsg, long>(once ? L::Once : L::Indefinite, &ctx_, cbCtx); m->to = {me()}; break; }
    default: m->b = c->makeBcast<CbMFun>(); m->to = everyone(); break;
    }
  } else { bool once = r.pct(50); if (once) m->times = 1; m->c = c->makeFunc(once ? L::Once : L::Indefinite, [k] { got(-1, 0, -1, k); }); m->to = {me()}; }
  ev("mkcb").k("k", k).k("r", me()).put();
  if (r.pct(20)) trigger(m.get()); else theMsg()->sendMsg<trigger>(NodeType(r.in(nn())), m);
}

//------------------------------------------------------------------- scatter
struct ScHead { long id, sz; };
static void onScatter(char* p) { ScHead h; memcpy(&h, p, sizeof h); long id = h.id; Bytes b(p + sizeof h, p + h.sz), w(size_t(h.sz) - sizeof h); fillBytes(w, int(id)); got(id, 0, b == w ? sum(id, pay(id)) : -1); }

//---------------------------------------------------------------- reductions
static long slot[4];
struct V { std::vector<int> v; template <typename Z> void serialize(Z& z) { z | v; } friend V operator+(V a, V const& b) { for (int x : b.v) a.v.push_back(x); return a; } };
static void res(int s, std::vector<int> const& v) { ev("res").k("k", slot[s]).k("r", me()).arr("v", v).put(); }
static std::vector<int> cat(int a, std::vector<int> b) { b.insert(b.begin(), a); return b; }
static std::vector<int> sorted(V v) { std::sort(v.v.begin(), v.v.end()); return v.v; }
template <int s> void f1(int a) { res(s, {a}); }
template <int s> void fV(std::vector<int> a) { res(s, a); }
template <int s> void f2(int a, std::vector<int> b) { res(s, cat(a, b)); }
template <int s> void fC(V v) { res(s, sorted(v)); }
template <int s> void f0() { res(s, {}); }
struct RObj {
  template <int s> void f1(int a) { res(s, {a}); }
  template <int s> void fV(std::vector<int> a) { res(s, a); }
  template <int s> void f2(int a, std::vector<int> b) { res(s, cat(a, b)); }
  template <int s> void fC(V v) { res(s, sorted(v)); }
  template <int s> void f0() { res(s, {}); }
};
using RP = objgroup::proxy::Proxy<RObj>;
static RP ro[3]; static collective::reduce::Reduce* ur[2];
template <int s> struct RFun { void operator()(collective::ReduceTMsg<int>* m) { res(s, {m->getVal()}); } };
struct RD { int op, lane, kind, tgt, stamp, two; };
static std::string const opn[] = {"plus", "max", "min", "and", "or", "band", "bor", "bxor", "vplus", "vmax", "tplus", "cat", "none", "vmin"};
using Stamp = collective::reduce::ReduceStamp;
static Stamp stampOf(int how, int id) {
  using namespace collective::reduce; using namespace collective::reduce::detail;
  switch (how) { case 1: return makeStamp<StrongTag>(TagType(id)); case 2: return makeStamp<TagPair>(TagType(id), TagType(id + 7)); case 3: return makeStamp<StrongUserID>(uint64_t(id)); default: return Stamp{}; }
}
// contribute to reduction d in slot s
template <int s, auto F, auto M, template <typename> class Op, typename... A> static void doRed(RD const& d, int id, A... a) {
  auto go = [&](auto... st) {
    if (d.lane < 3) {
      auto p = ro[d.lane];
      if (d.kind == 0) p.template allreduce<M, Op>(a..., st...);
      else if (d.kind == 1) p.template reduce<M, Op>(ro[(d.lane + 1) % 3][NodeType(d.tgt)], a..., st...);
      else if (d.kind == 2) p.template reduce<F, Op>(NodeType(d.tgt), a..., st...);
      else p.template reduce<Op>(theCB()->template makeBcast<F>(), a..., st...);
    } else {
      auto* q = d.lane == 3 ? theCollective()->global() : ur[d.lane - 4];
      q->template reduce<F, Op>(Node{NodeType(d.tgt)}, a..., st...);
    }
  };
  if (d.stamp) go(stampOf(d.stamp, id)); else go();
}
template <int s> static void contribute(RD const& d, int id, long key, Rng& r, bool grpr = false) {
  using namespace collective;
  int x = r.in(200), y = r.in(2); std::vector<int> v{r.in(200), r.in(200), r.in(200)}; std::vector<int> val;
  if (d.two) {   // message form: several contributions from each node under one stamp
    int y2 = r.in(200); ev("con").k("k", key).k("r", me()).k("op", "plus").k("all", d.lane < 3 && (d.kind == 0 || d.kind == 3)).k("tgt", d.tgt).arr("v", std::vector<int>{x + y2}).k("rd", rd).put();
    auto* q = d.lane == 3 ? theCollective()->global() : ur[d.lane - 4];
    for (int z : {x, y2}) { auto m = makeMessage<ReduceTMsg<int>>(z); q->template reduce<PlusOp<int>, RFun<s>>(NodeType(d.tgt), m.get(), stampOf(d.stamp, id), 2); }
    return;
  }
  if (d.op == 3 || d.op == 4) x = y;
  if (d.op <= 7) val = {x}; else if (d.op == 8 || d.op == 9 || d.op == 13) val = v; else if (d.op == 10) val = cat(x, v); else if (d.op == 11) { val = {x, me()}; std::sort(val.begin(), val.end()); }
  ev("con").k("k", key).k("r", me()).k("op", opn[d.op]).k("all", !grpr && d.lane < 3 && (d.kind == 0 || d.kind == 3)).k("tgt", d.tgt).arr("v", val).k("rd", rd).put();
  switch (d.op) {
  case 0: doRed<s, &f1<s>, &RObj::f1<s>, PlusOp>(d, id, x); break;
  case 1: doRed<s, &f1<s>, &RObj::f1<s>, MaxOp>(d, id, x); break;
  case 2: doRed<s, &f1<s>, &RObj::f1<s>, MinOp>(d, id, x); break;
  case 3: doRed<s, &f1<s>, &RObj::f1<s>, AndOp>(d, id, x); break;
  case 4: doRed<s, &f1<s>, &RObj::f1<s>, OrOp>(d, id, x); break;
  case 5: doRed<s, &f1<s>, &RObj::f1<s>, BitAndOp>(d, id, x); break;
  case 6: doRed<s, &f1<s>, &RObj::f1<s>, BitOrOp>(d, id, x); break;
  case 7: doRed<s, &f1<s>, &RObj::f1<s>, BitXorOp>(d, id, x); break;
  case 8: doRed<s, &fV<s>, &RObj::fV<s>, PlusOp>(d, id, v); break;
  case 9: doRed<s, &fV<s>, &RObj::fV<s>, MaxOp>(d, id, v); break;
  case 10: doRed<s, &f2<s>, &RObj::f2<s>, PlusOp>(d, id, x, v); break;
  case 11: doRed<s, &fC<s>, &RObj::fC<s>, PlusOp>(d, id, V{{x, me()}}); break;
  case 12: doRed<s, &f0<s>, &RObj::f0<s>, NoneOp>(d, id); break;
  default: doRed<s, &fV<s>, &RObj::fV<s>, MinOp>(d, id, v); break;
  }
}
static void contribute(int s, RD const& d, int id, long key, Rng& r) { if (s == 0) contribute<0>(d, id, key, r); else if (s == 1) contribute<1>(d, id, key, r); else if (s == 2) contribute<2>(d, id, key, r); else contribute<3>(d, id, key, r); }

//------------------------------------------------------------------ scenario
enum { ROOTED, COLLG, GMSG, MCAST, DELG, OMAKE, OMSG, OUPD, ODEL, CBS, SCAT, REDS, GRED, BARS, SCOPE };
static void barrierRound(Round const& q) {
  Rng all(q.s), mine(q.s + uint64_t(me()) * 17);
  int n = 1 + q.n; std::vector<int> kind(size_t(n), 0); std::vector<BarrierType> nm(size_t(n), no_barrier);
  for (int i = 0; i < n; i++) { kind[size_t(i)] = all.in(5); if (kind[size_t(i)] == 1 || kind[size_t(i)] == 3) nm[size_t(i)] = theCollective()->newNamedCollectiveBarrier(); }
  auto in = [&](int i) { ev("bin").k("b", rd * 100 + i).k("r", me()).put(); };
  for (int i = 0; i < n; i++) {
    int b = rd * 100 + i; if (mine.pct(50)) pump(mine.in(1, 60));
    auto out = [b] { ev("bout").k("b", b).k("r", me()).put(); };
    in(i);
    switch (kind[size_t(i)]) {
    case 0: { int c = 0; theCollective()->barrier([&c] { c++; }); out(); break; }
    case 1: theCollective()->barrier(nullptr, nm[size_t(i)]); out(); break;
    case 2: theCollective()->barrierThen(out); break;
    case 3: theCollective()->barrierThen(nm[size_t(i)], out); break;
    default: theCollective()->systemMetaBarrier(); out(); break;
    }
  }
}
static void scopeRound(Round const& q) {
  Rng all(q.s), mine(q.s + uint64_t(me()) * 17);
  int ns = all.in(1, 3), n = all.in(1, 5); bool waits = all.pct(40), inner = all.pct(50);
  std::vector<std::unique_ptr<collective::CollectiveScope>> sc; std::vector<std::pair<bool, TagType>> bits;
  for (int i = 0; i < ns; i++) { bool user = all.pct(50); sc.push_back(std::make_unique<collective::CollectiveScope>(user ? theCollective()->makeCollectiveScope(TagType(i + 1 + 10 * (all.in(2)))) : theCollective()->makeCollectiveScope())); bits.push_back({sc.back()->isUserTag(), sc.back()->getScopeBits()}); }
  std::vector<std::pair<int, TagType>> tags(size_t(n), {0, 0}); std::vector<int> which; for (int i = 0; i < n; i++) which.push_back(all.in(ns));
  auto plan = [&] {
    // within a scope the order is the same everywhere; across scopes it is not
    std::vector<int> order; std::vector<size_t> pos(size_t(ns), 0); std::vector<std::vector<int>> by(size_t(ns), std::vector<int>{}); for (int i = 0; i < n; i++) by[size_t(which[size_t(i)])].push_back(i);
    for (int left = n; left > 0;) { int s = mine.in(ns); if (pos[size_t(s)] < by[size_t(s)].size()) { order.push_back(by[size_t(s)][pos[size_t(s)]++]); left--; } }
    for (int i : order) {
      long a = rd * 100 + i; int v = mine.in(50), what = int((q.s >> i) % 3);
      ev("plan").k("a", a).k("r", me()).k("v", v).k("what", what).put();
      auto& s = *sc[size_t(which[size_t(i)])];
      auto act = [a, v, what] {
        int x = v, y = -1; auto c = theContext()->getComm();
        if (what == 0) MPI_Barrier(c); else if (what == 1) MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_SUM, c); else { y = x; MPI_Bcast(&y, 1, MPI_INT, 0, c); }
        ev("act").k("a", a).k("r", me()).k("y", y).put();
      };
      if (waits && ns == 1) { s.mpiCollectiveWait(act); ev("done").k("a", a).k("r", me()).put(); }
      else { auto t = s.mpiCollectiveAsync(act); tags[size_t(i)] = {which[size_t(i)], t}; }
      if (mine.pct(40)) pump(mine.in(1, 40));
      if (tags[size_t(i)].second && mine.pct(30)) { bool d = s.isCollectiveDone(tags[size_t(i)].second); ev("ask").k("a", a).k("r", me()).k("yes", d).put(); }
    }
    if (inner && !waits) for (int i : order) { sc[size_t(which[size_t(i)])]->waitCollective(tags[size_t(i)].second); ev("done").k("a", rd * 100 + i).k("r", me()).put(); }
  };
  runInEpochCollective([&] { plan(); if (mine.pct(40)) pump(mine.in(30)); sc.clear(); });
  for (auto& b : bits) ev("freed").k("r", me()).k("yes", theCollective()->isDeallocated(b.first, b.second)).put();
}
static void round_(Round const& q) {
  Rng all(q.s), mine(q.s + uint64_t(me()) * 7919);
  auto anyG = [&](Rng& r) { auto it = grp.begin(); std::advance(it, r.in(int(grp.size()))); return it->first; };
  switch (q.k) {
  case ROOTED: runInEpochCollective([&] {
      int g = rd; coll[g] = false; if (me() != q.a % nn()) return;
      std::vector<int> mem; auto reg = region_(all, mem); bool now = all.pct(50), sm = all.pct(50);
      ev("mkg").k("g", g).arr("mem", mem).put();
      auto id = theGroup()->newGroup(std::move(reg), [=](GroupType x) { For f(g); ev("ready").k("g", g).k("r", me()).put(); told[g] = x; if (now) { grp[g] = x; gsend(g, sm); } for (int i = 0; i < nn(); i++) if (i != me()) { auto m = makeMessage<TMsg>(); m->g = g; m->id = x; theMsg()->sendMsg<onTell>(NodeType(i), m); } });
      (void)id;
    }); grp[rd] = told[rd]; break;
  case COLLG: runInEpochCollective([&] {
      int g = rd; coll[g] = true; int p = all.of<int>({0, 10, 30, 50, 50, 70, 90, 100}); bool in = Rng(q.s + 5 + uint64_t(me())).pct(p), now = S->early && all.pct(40); auto s = mine.next();
      ev("gin").k("g", g).k("r", me()).k("in", in).put();
      auto id = theGroup()->newGroupCollective(in, [=](GroupType x) { For f(g); ev("ready").k("g", g).k("r", me()).put(); grp[g] = x; if (now) { Rng r(s); if (r.pct(60)) gsend(g, true); } }, all.pct(25));
      grp[g] = id;
    });
    ev("isin").k("g", rd).k("r", me()).k("in", theGroup()->inGroup(grp[rd])).put(); break;
  case GMSG: if (grp.empty()) break; runInEpochCollective([&] { int k = mine.in(q.n + 1); for (int i = 0; i < k; i++) { gsend(anyG(mine), mine.pct(50)); if (mine.pct(20)) pump(5); } }); break;
  case MCAST: {
      int o = 500; runInEpochCollective([&] {
      int k = mine.in(q.n + 1); for (int i = 0; i < k; i++) {
        long id = newId(); auto b = pay(id);
        if (grp.size() && mine.pct(40)) { int g = anyG(mine); ev("gowe").k("m", id).k("g", g).k("o", o).k("sum", sum(id, b)).k("rd", rd).k("r", me()).put(); objs[o].multicast<&Obj::hPar>(grp[g], id, 16 * rd, uint64_t(1), b); }
        else { std::vector<int> mem; Rng few(S->salt + q.s % 3 + uint64_t(mine.in(3))); auto reg = region_(few, mem); owe(id, o, mem); objs[o].multicast<&Obj::hPar>(std::move(reg), id, 16 * rd, uint64_t(1), b); }
        if (mine.pct(20)) pump(9);
      } }); break; }
  case DELG: { std::vector<int> c; for (auto& x : coll) if (x.second) c.push_back(x.first); if (c.empty()) break; int g = all.of(c); theCollective()->barrier(); theGroup()->deleteGroupCollective(grp[g]); grp.erase(g); coll.erase(g); theCollective()->barrier(); break; }
  case OMAKE: runInEpochCollective([&] {
      int k = 1 + q.n % 2; for (int i = 0; i < k; i++) {
        int o = rd * 10 + i, how = all.in(5); long tag = newId(); ev("mko").k("o", o).k("r", me()).k("tag", tag).put();
        if (mine.pct(50)) pump(mine.in(1, 60));
        if (how == 0) objs[o] = theObjGroup()->makeCollective<Obj>("o", o, tag);
        else if (how == 1) objs[o] = theObjGroup()->makeCollective<Obj>(std::make_unique<Obj>(o, tag), "o");
        else if (how == 2) objs[o] = theObjGroup()->makeCollective<Obj>(new Obj(o, tag), "o");
        else if (how == 3) objs[o] = theObjGroup()->makeCollective<Obj>([=] { return std::make_unique<Obj>(o, tag); }, "o");
        else objs[o] = theObjGroup()->makeCollective<Hold, Obj>(Hold<Obj>(new Obj(o, tag)), "o");
        auto g = objs[o].get(); ev("get").k("o", o).k("r", me()).k("tag", g->tag).k("same", theObjGroup()->getProxy(g).getProxy() == objs[o].getProxy()).put();
        owned[o] = how == 0 || how == 1 || how == 3;
        if (mine.pct(70)) osend(o, mine.in(nn()), mine.in(7), mine, 2);
      } }); break;
  case OMSG: if (objs.empty()) break; runInEpochCollective([&] { int k = mine.in(q.n + 1); for (int i = 0; i < k; i++) { auto it = objs.begin(); std::advance(it, mine.in(int(objs.size()))); osend(it->first, mine.in(nn()), mine.in(7), mine, 3); if (mine.pct(20)) pump(5); } }); break;
  case OUPD: if (objs.empty()) break; {
      // nothing may be on its way to an instance that is replaced
      auto it = objs.begin(); std::advance(it, all.in(int(objs.size()))); int o = it->first; auto& p = it->second; theCollective()->barrier();
      if (owned[o] && mine.pct(50)) { long tag = newId(); ev("upd").k("o", o).k("r", me()).k("tag", tag).put(); if (mine.pct(50)) p[NodeType(me())].update(objgroup::proxy::ObjGroupReconstructTag, o, tag); else theObjGroup()->update<Obj>(p, o, tag); auto g = p.get(); ev("get").k("o", o).k("r", me()).k("tag", g->tag).k("same", theObjGroup()->getProxy(g).getProxy() == p.getProxy()).put(); }
      theCollective()->barrier();
      runInEpochCollective([&] { if (mine.pct(50)) osend(o, mine.in(nn()), mine.in(7), mine, 1); }); break; }
  case ODEL: { if (objs.size() < 2) break; auto it = objs.begin(); std::advance(it, all.in(int(objs.size()))); if (it->first == 500) break; theCollective()->barrier(); ev("delo").k("o", it->first).k("r", me()).put(); it->second.destroyCollective(); objs.erase(it); theCollective()->barrier(); break; }
  case CBS: runInEpochCollective([&] { int k = mine.in(q.n + 1); for (int i = 0; i < k; i++) mkCallback(mine); }); break;
  case SCAT: runInEpochCollective([&] { if (me() == q.a % nn()) { std::size_t scSize = size_t(all.in(16, 400)); long base = newId(); nextid += nn();
      theCollective()->scatter<onScatter>(scSize * size_t(nn()), scSize, nullptr, [=](NodeType n, void* p) { long id = base + n; owe(id, 0, {int(n)}); ScHead h{id, long(scSize)}; memcpy(p, &h, sizeof h); Bytes w(scSize - sizeof h); fillBytes(w, int(id)); memcpy(static_cast<char*>(p) + sizeof h, w.data(), w.size()); }); } }); break;
  case REDS: {
      int n = all.in(1, 4); std::vector<RD> ds; for (int i = 0; i < n; i++) { RD d{all.in(14), all.in(6), all.in(4), all.in(nn()), all.pct(40) ? all.in(1, 3) : 0, 0}; if (d.lane >= 3 && d.stamp && all.pct(40)) d.two = 1; ds.push_back(d); }
      std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
      // explicitly identified reductions may be started in any order; the others keep theirs within a lane
      for (int i = 0; i + 1 < n; i++) for (int j = 0; j + 1 < n; j++) { auto &x = ds[size_t(ord[size_t(j)])], &y = ds[size_t(ord[size_t(j) + 1])]; if (mine.pct(50) && (x.lane != y.lane || x.stamp || y.stamp)) std::swap(ord[size_t(j)], ord[size_t(j) + 1]); }
      for (int i = 0; i < 4; i++) slot[i] = rd * 10 + i;
      theCollective()->barrier();
      runInEpochCollective([&] { for (int i : ord) { if (mine.pct(40)) pump(mine.in(1, 50)); contribute(i, ds[size_t(i)], rd * 10 + i, rd * 10 + i, mine); } }); break; }
  case GRED: { std::vector<int> c; for (auto& x : coll) if (x.second) c.push_back(x.first); if (c.empty()) break; int g = all.of(c); int tgt = all.in(nn()); slot[0] = rd * 10; theCollective()->barrier();
      runInEpochCollective([&] { if (!theGroup()->inGroup(grp[g])) return; int x = mine.in(100);
        ev("con").k("k", rd * 10).k("r", me()).k("op", "plus").k("all", false).k("tgt", tgt).arr("v", std::vector<int>{x}).k("rd", rd).k("g", g).put();
        theGroup()->groupReducer(grp[g])->reduce<&f1<0>, collective::PlusOp>(Node{NodeType(tgt)}, x); }); break; }
  case BARS: runInEpochCollective([&] { barrierRound(q); }); break;
  case SCOPE: scopeRound(q); break;
  default: break;
  }
}
int main(int argc, char** argv) {
  std::string mode = "grp"; for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return drv::main(argc, argv, [&](Case& c) {
    auto& r = c.rng; c.nranks = r.in(1, c.thorough ? 9 : 6); if (c.nranks == 1 && r.pct(70)) c.nranks = 4;
    // trees deep enough to have inner nodes of every kind
    bool wide = r.pct(mode == "grp" ? 20 : 12); if (wide) c.nranks = r.in(7, 18);
    static Scn s; s = Scn{}; S = &s; s.salt = r.next() % 100000; s.early = r.pct(30);
    int n = wide ? r.in(2, 4) : r.in(2, c.thorough ? 12 : 7);
    for (int i = 0; i < n; i++) {
      Round q{}; int k = r.in(100); q.s = r.next(); q.n = r.in(1, 5); q.a = r.in(10); q.b = r.in(10);
      if (mode == "grp") q.k = i == 0 || k < 20 ? (r.pct(50) ? ROOTED : COLLG) : k < 65 ? GMSG : k < 90 ? MCAST : DELG;
      else if (mode == "obj") q.k = i == 0 || k < 25 ? OMAKE : k < 70 ? OMSG : k < 88 ? OUPD : ODEL;
      else if (mode == "cb") q.k = CBS;
      else if (mode == "scat") q.k = SCAT;
      else if (mode == "red") q.k = k < 75 ? REDS : k < 85 ? COLLG : GRED;
      else if (mode == "bar") q.k = BARS;
      else q.k = SCOPE;
      s.rounds.push_back(q);
    }
    s.mode = mode == "grp" ? 0 : mode == "obj" ? 1 : mode == "cb" ? 2 : mode == "red" ? 3 : 4;
    if (s.mode == 3) s.early = false;
    if (r.pct(20)) c.args.push_back("--vt_ult_disable");
    if (r.pct(25)) c.args.push_back("--vt_sched_num_progress=" + std::to_string(r.in(1, 3)));
  }, [&](Case& c, int) {
    nextid = 0; budget = c.thorough ? 40 : 15; rd = 0; grp.clear(); told.clear(); coll.clear(); objs.clear();
    withVt(c, [&] {
      if (S->mode == 0) { ev("mko").k("o", 500).k("r", me()).k("tag", 1).put(); objs[500] = theObjGroup()->makeCollective<Obj>("m", 500, 1L); }
      if (S->mode == 2) { cbo = theObjGroup()->makeCollective<Obj>("c", 900, 0L); cbc = makeCollection<Col>("c").bounds(Index1D(ncol)).bulkInsert().wait(); }
      if (S->mode == 3) { for (auto& x : ro) x = theObjGroup()->makeCollective<RObj>("r"); for (auto& x : ur) x = theCollective()->makeReducerCollective(); }
      for (auto& q : S->rounds) { rd++; round_(q); ev("rend").k("r", me()).k("rd", rd).put(); }
      runInEpochCollective([] {}); ev("fini").k("r", me()).put();
    });
  });
}
