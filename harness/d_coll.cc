// Collections: construction, mapping, sends, broadcasts, migration, insertion
// and destruction of elements, reductions, location queries, load balancing.
//   --mode make|send|bcast|dyn|red|lb|ckpt  weights the kinds of rounds
#include "drv.h"
#include "vt/vrt/collection/balance/lb_type.h"
using namespace vt; using namespace drv;
static int me() { return theContext()->getNode(); }
static int nn() { return theContext()->getNumNodes(); }
static std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }

enum RK { MSGS, BCAST, MIG, LB, DYN, RED, WHERE, KILL, LIST, SAVE, REST };
struct Round { RK k; uint64_t s; int n, ttl, sub; };
struct CD { int dim, d[3]; int how, map; bool rooted; };   // how: 0 bulk 1 list 2 here 3 dynamic(empty) 4 bulk+dynamic 5 element constructor
struct Scn { std::vector<CD> cols; std::vector<Round> rounds; int spread; };
static Scn* S = nullptr;
struct Saved { int f = 0; uint64_t px = 0; std::set<int> els; };   // the last checkpoint of each collection
static std::map<int, Saved> saved;
static long nextid = 0; static int budget = 0, rd = 0;
static long newId() { return (me() + 1) * 100000L + ++nextid; }

template <int D> struct IxT; template <> struct IxT<1> { using T = Index1D; }; template <> struct IxT<2> { using T = Index2D; }; template <> struct IxT<3> { using T = Index3D; };
template <typename I> static int lin(I const& i, int const* d) { int v = 0; for (int k = int(I::ndims()) - 1; k >= 0; k--) v = v * d[k] + int(i.get(k)); return v; }
template <int D> static typename IxT<D>::T unlin(int v, int const* d) {
  if constexpr (D == 1) return Index1D(v); else if constexpr (D == 2) return Index2D(v % d[0], v / d[0]); else return Index3D(v % d[0], v / d[0] % d[1], v / d[0] / d[1]);
}
static int total(CD const& c) { int n = 1; for (int k = 0; k < c.dim; k++) n *= c.d[k]; return n; }
template <typename I> static NodeType hashMap(I* i, I*, NodeType n) { uint64_t h = 7; for (int k = 0; k < int(I::ndims()); k++) h = h * 31 + uint64_t(i->get(k)); return NodeType(h % uint64_t(n)); }
template <typename I> static NodeType oneMap(I*, I*, NodeType n) { return NodeType(n - 1); }
template <typename I> static NodeType halfMap(I* i, I*, NodeType n) { return NodeType(uint64_t(i->get(0)) % uint64_t((n + 1) / 2)); }
template <typename I> struct ObjMap : mapping::BaseMapper<I> {
  static ObjGroupProxyType construct() { return theObjGroup()->makeCollective<ObjMap<I>>("ObjMap").getProxy(); }
  NodeType map(I* i, int nd, NodeType n) override { uint64_t h = 3; for (int k = 0; k < nd; k++) h = h * 5 + uint64_t(i->get(k)); return NodeType(h % uint64_t(n)); }
};
// where an element belongs: independent of the code under test
static int homeOf(CD const& c, int e, int n) {
  int x[3] = {e % c.d[0], c.dim > 1 ? e / c.d[0] % c.d[1] : 0, c.dim > 2 ? e / c.d[0] / c.d[1] : 0}; uint64_t h;
  switch (c.map) {
  case 1: h = 7; for (int k = 0; k < c.dim; k++) h = h * 31 + uint64_t(x[k]); return int(h % uint64_t(n));
  case 2: return n - 1;
  case 3: return x[0] % ((n + 1) / 2);
  case 4: h = 3; for (int k = 0; k < c.dim; k++) h = h * 5 + uint64_t(x[k]); return int(h % uint64_t(n));
  default: {   // contiguous blocks, the larger ones first, last dimension fastest
    int f = 0; for (int k = 0; k < c.dim; k++) f = f * c.d[k] + x[k];
    int t = total(c), q = t / n, r = t % n; return f < r * (q + 1) ? f / (q + 1) : r + (f - r * (q + 1)) / q; }
  }
}
// what a reduction adds up: the elements that contributed
struct RV {
  std::vector<int> els; long lo = 0, hi = 0; int sum = 0;
  template <typename T> void serialize(T& s) { s | els | lo | hi | sum; }
  friend RV operator+(RV const& a, RV const& b) {
    RV c = a; c.els.insert(c.els.end(), b.els.begin(), b.els.end()); c.lo = std::min(a.lo, b.lo); c.hi = std::max(a.hi, b.hi); c.sum += b.sum; return c;
  }
};
static void red(RV v, std::string const& c, int at, int r) {
  std::sort(v.els.begin(), v.els.end()); int s = 0; for (int x : v.els) s += 3 * x + 1;
  ev("red").k("k", v.lo).k("same", v.lo == v.hi && s == v.sum).k("c", c).k("i", at).k("r", r).arr("els", v.els).put();
}
static std::string redc;   // collection of the reduction under way (results carry no proxy)
static void redNode(RV v) { red(v, redc, -1, me()); }

template <int D> struct Elm;
template <int D> struct EMsg : CollectionMessage<Elm<D>> { long id = 0; int ttl = 0; uint64_t s = 1; EMsg() = default; explicit EMsg(long i) : id(i) {} };
template <int D> struct SMsg : CollectionMessage<Elm<D>> {
  using MessageParentType = CollectionMessage<Elm<D>>; vt_msg_serialize_required();
  long id = 0; int ttl = 0; uint64_t s = 0; std::vector<unsigned char> pad;
  template <typename T> void serialize(T& z) { MessageParentType::serialize(z); z | id | ttl | s | pad; }
};
template <int D> static void randomSend(CollectionProxy<Elm<D>> p, int const* d, int target, int ttl, Rng& r, int rnd);
static std::map<uint64_t, std::pair<int, std::set<int>>> live;   // proxy -> (column, elements known to exist)

template <int D> struct Elm : Collection<Elm<D>, typename IxT<D>::T> {
  using Base = Collection<Elm<D>, typename IxT<D>::T>; using Idx = typename IxT<D>::T;
  int cnt = 0, h = 0, tag = 0; bool moved = false, fresh = true; std::vector<int> blob;
  Elm() { init(); }
  explicit Elm(int t) : tag(t) { fresh = false; }
  void init() { tag = 5; fresh = false; }
  template <typename T> void serialize(T& s) { Base::serialize(s); s | cnt | h | tag | blob; }
  static int const* dims(uint64_t) { return S->cols[0].d; }
  int e() const { return lin(this->getIndex(), dim()); }
  int const* dim() const { for (auto& c : S->cols) if (c.dim == D) return c.d; return nullptr; }
  std::string c() { return hex(this->getProxy()); }
  void preMigrateOut() override { ev("out").k("c", c()).k("i", e()).k("r", me()).k("cnt", cnt).k("h", h).put(); Base::preMigrateOut(); moved = true; }
  void epiMigrateIn() override { Base::epiMigrateIn(); moved = false; bool ok = int(blob.size()) == cnt; ev("in").k("c", c()).k("i", e()).k("r", me()).k("cnt", ok ? cnt : -1).k("h", h).put(); }
  virtual ~Elm() { if (!moved) ev("gone").k("c", c()).k("i", e()).k("r", me()).put(); }
  void note(long id, int pad = 0) {
    ev("recv").k("m", id).k("c", c()).k("i", e()).k("r", me()).k("cnt", cnt).k("h", h).k("tag", tag).k("pad", pad).put();
    cnt++; h = int((h * 31 + id) % 65521); blob.push_back(cnt);
  }
  void on(long id, int ttl, uint64_t s) {   // ttl carries the round as well
    note(id); Rng r(s); int q16 = ttl / 16; ttl %= 16;
    if (ttl > 0) { int k = r.in(S->spread + 1); auto p = this->getCollectionProxy(); auto& l = live[this->getProxy()].second; for (int q = 0; q < k && budget > 0 && l.size(); q++) { budget--; auto it = l.begin(); std::advance(it, r.in(int(l.size()))); randomSend<D>(p, dim(), *it, ttl - 1, r, q16); } }
  }
  void hMsg(EMsg<D>* m) { on(m->id, m->ttl, m->s); }
  void hSer(SMsg<D>* m) { std::vector<unsigned char> v(m->pad.size()); fillBytes(v, int(m->id)); if (v != m->pad) ev("corrupt").put(); on(m->id, m->ttl, m->s); }
  void hPar(long id, int ttl, uint64_t s) { on(id, ttl, s); }
  void hGo(long id, int to) { note(id); int q = to / 16; to %= 16; if (to != me()) { ev("mig").k("c", c()).k("i", e()).k("r", me()).k("to", to).k("rd", q).put(); this->migrate(NodeType(to)); } }
  void redElm(RV v) { red(v, c(), e(), me()); }
  void hRed(long id, std::vector<int> kt, long k);
  static int get(Elm* x, int a) { return x->cnt + a; }
  int mget(int a) { return cnt + a; }
};
template <int D> static void hFree(EMsg<D>* m, Elm<D>* e) { e->on(m->id, m->ttl, m->s); }
template <int D> void Elm<D>::hRed(long id, std::vector<int> kt, long k) {   // one contribution to each of several reductions, all in flight together
  note(id); auto p = this->getCollectionProxy();
  for (size_t q = 0; q + 1 < kt.size(); q += 2, k++) {
    int kind = kt[q], tgt = kt[q + 1]; RV v; v.els = {e()}; v.lo = v.hi = k; v.sum = 3 * e() + 1;
    if (kind == 0) p.template reduce<redNode, collective::PlusOp>(NodeType(tgt), v);
    else if (kind == 1) p.template reduce<&Elm<D>::redElm, collective::PlusOp>(p[unlin<D>(tgt, dim())], v);
    else if (kind == 2) p.template allreduce<&Elm<D>::redElm, collective::PlusOp>(v);
    else p.template reduce<collective::PlusOp>(theCB()->makeBcast<redNode>(), v);
  }
}
template <int D> static messaging::PendingSend doSend(CollectionProxy<Elm<D>> p, int const* d, int t, long id, int ttl, uint64_t s, int how) {
  auto el = p[unlin<D>(t, d)];
  if (how == 0) { auto m = makeMessage<EMsg<D>>(); m->id = id; m->ttl = ttl; m->s = s; return el.template sendMsg<EMsg<D>, &Elm<D>::hMsg>(m); }
  if (how == 1) { auto m = makeMessage<SMsg<D>>(); m->id = id; m->ttl = ttl; m->s = s; m->pad.resize(s % 3000); fillBytes(m->pad, int(id)); return el.template sendMsg<SMsg<D>, &Elm<D>::hSer>(m); }
  return el.template send<&Elm<D>::hPar>(id, ttl, s);
}
template <int D> static void randomSend(CollectionProxy<Elm<D>> p, int const* d, int t, int ttl, Rng& r, int rnd) {
  long id = newId(); ttl += 16 * rnd; ev("send").k("m", id).k("c", hex(p.getProxy())).k("i", t).k("rd", rnd).k("r", me()).put();
  doSend<D>(p, d, t, id, ttl, r.next(), r.in(3));
}
template <int D> struct PMsg : Message { CollectionProxy<Elm<D>> p; int c; };
template <int D> struct Slot { CollectionProxy<Elm<D>> p; };
static Slot<1> s1; static Slot<2> s2; static Slot<3> s3;
template <int D> static Slot<D>& slot() { if constexpr (D == 1) return s1; else if constexpr (D == 2) return s2; else return s3; }
template <int D> static void takeProxy(PMsg<D>* m) { slot<D>().p = m->p; }

template <int D> static void make(CD const& c, int ci) {
  using Idx = typename IxT<D>::T; Idx b = D == 1 ? unlin<D>(c.d[0], c.d) : unlin<D>(0, c.d);
  if constexpr (D == 1) b = Index1D(c.d[0]); else if constexpr (D == 2) b = Index2D(c.d[0], c.d[1]); else b = Index3D(c.d[0], c.d[1], c.d[2]);
  int n = total(c), N = nn(); std::vector<int> exp; std::string es = "[";
  auto want = [&](int e, int at) { if (es.size() > 1) es += ","; es += "[" + std::to_string(e) + "," + std::to_string(at) + "]"; };
  Rng r(S->rounds[0].s + uint64_t(ci));
  std::set<int> some; for (int e = 0; e < n; e++) if (c.how != 1 && c.how != 2 ? true : r.pct(60)) some.insert(e);
  if (c.how == 3) some.clear();
  if (some.empty() && (c.how == 1 || c.how == 2)) some.insert(0);
  std::map<int, int> at; if (c.how == 2) for (int e : some) if (r.pct(35)) at[e] = r.in(N);   // made here, off its home
  auto mapped = [&](auto& q) {
    switch (c.map) {
    case 1: q.template mapperFunc<hashMap<Idx>>(); break; case 2: q.template mapperFunc<oneMap<Idx>>(); break; case 3: q.template mapperFunc<halfMap<Idx>>(); break;
    case 4: q.template mapperObjGroupConstruct<ObjMap<Idx>>(); break; default: break; }
  };
  auto start = [&](bool coll) {
    auto q = makeCollection<Elm<D>>("col"); q.collective(coll).bounds(b); mapped(q);
    std::vector<Idx> l; std::vector<std::tuple<Idx, std::unique_ptr<Elm<D>>>> h;
    switch (c.how) {
    case 0: q.bulkInsert(); break;
    case 1: for (int e : some) if (homeOf(c, e, N) == me() || r.pct(40)) l.push_back(unlin<D>(e, c.d)); q.listInsert(l); break;   // a node makes the listed elements mapped to it
    case 2: for (int e : some) if (at.count(e) ? at[e] == me() : homeOf(c, e, N) == me()) { h.emplace_back(unlin<D>(e, c.d), std::make_unique<Elm<D>>()); } q.listInsertHere(std::move(h)); break;
    case 3: q.dynamicMembership(true); break;
    case 4: q.dynamicMembership(true).bulkInsert(); break;
    default: q.bulkInsert().elementConstructor([](Idx i) { return std::make_unique<Elm<D>>(9); });
    }
    return q.wait();
  };
  if (!c.rooted) slot<D>().p = start(true);
  else {
    runInEpochCollective([&]{ if (me() == ci % N) { auto p = start(false); auto m = makeMessage<PMsg<D>>(); m->p = p; slot<D>().p = p; theMsg()->broadcastMsg<takeProxy<D>>(m, false); } });
  }
  for (int e : some) want(e, at.count(e) ? at[e] : homeOf(c, e, N));
  auto& lv = live[slot<D>().p.getProxy()]; lv.first = ci; lv.second = some;
  ev("coll").k("c", hex(slot<D>().p.getProxy())).k("r", me()).raw("exp", es + "]").k("tag", c.how == 5 ? 9 : 5).put();
}
template <int D> static std::vector<int> locals(CollectionProxy<Elm<D>> p, int const* d) { std::vector<int> v; for (auto& i : theCollection()->getLocalIndices<Elm<D>>(p)) v.push_back(lin(i, d)); std::sort(v.begin(), v.end()); return v; }
template <int D> static int someOf(Rng& r) { auto& l = live[slot<D>().p.getProxy()].second; auto it = l.begin(); std::advance(it, r.in(int(l.size()))); return *it; }

template <int D> static void round_(Round const& rn, CD const& c, int ci) {
  auto& p = slot<D>().p; auto px = p.getProxy(); auto& lv = live[px]; std::string hx = hex(px); int const* d = c.d; int n = total(c); bool dead = !live.count(px);
  Rng mine(rn.s + uint64_t(me()) * 7919), all(rn.s);
  if (dead || lv.second.empty()) { if (rn.k != DYN || dead || (c.how != 3 && c.how != 4)) return; }
  switch (rn.k) {
  case MSGS: runInEpochCollective([&]{
      int k = mine.in(rn.n + 1); for (int q = 0; q < k; q++) randomSend<D>(p, d, someOf<D>(mine), rn.ttl, mine, rd);
      if (mine.pct(40)) for (int e : locals<D>(p, d)) if (mine.pct(30)) {   // direct invocation on a local element
        long id = newId(); ev("send").k("m", id).k("c", hx).k("i", e).k("rd", rd).k("r", me()).put();
        p[unlin<D>(e, d)].template invoke<&Elm<D>::hPar>(id, 0, uint64_t(1));
      } }); break;
  case BCAST: {
      if (rn.sub % 3 == 2) {   // every node broadcasts to its own elements
        runInEpochCollective([&]{ long id = 9000000 + rd * 10; ev("bcl").k("m", id).k("c", hx).k("r", me()).k("rd", rd).put();
          if (rn.sub % 2) p.template broadcastCollective<&Elm<D>::hPar>(id, 0, uint64_t(1)); else p.template invokeCollective<EMsg<D>, &Elm<D>::hMsg>(id); });
      } else runInEpochCollective([&]{
        int k = mine.in(3); for (int q = 0; q < k; q++) {
          long id = newId(); uint64_t s = mine.next(); int how = mine.in(3);
          ev("bcast").k("m", id).k("c", hx).k("rd", rd).k("r", me()).put();
          if (how == 0) { auto m = makeMessage<EMsg<D>>(); m->id = id; m->ttl = rn.sub % 2 + 16 * rd; m->s = s; p.template broadcastMsg<EMsg<D>, &Elm<D>::hMsg>(m); }
          else if (how == 1) { auto m = makeMessage<SMsg<D>>(); m->id = id; m->ttl = 0; m->s = s; m->pad.resize(s % 3000); fillBytes(m->pad, int(id)); p.template broadcastMsg<SMsg<D>, &Elm<D>::hSer>(m); }
          else p.template broadcast<&Elm<D>::hPar>(id, 0, s);
        } }); } break;
  case MIG: {
      std::set<int> go; for (int e : lv.second) if (all.pct(rn.sub * 10)) go.insert(e);
      std::map<int, int> dst; for (int e : go) dst[e] = all.in(nn());
      runInEpochCollective([&]{
        for (auto& x : dst) if (x.first % nn() == me()) { long id = newId(); ev("send").k("m", id).k("c", hx).k("i", x.first).k("rd", rd).k("r", me()).put(); p[unlin<D>(x.first, d)].template send<&Elm<D>::hGo>(id, x.second + 16 * rd); }
      });
      theCollection()->getTypelessHolder().invokeAllGroupConstructors();
    } break;
  case LB: ev("lbbeg").k("r", me()).put(); thePhase()->nextPhaseCollective(); ev("lbend").k("r", me()).put(); break;
  case DYN: {
      if (c.how != 3 && c.how != 4) return;
      std::map<int, int> op; for (int q = 0; q < rn.n + 1; q++) { int e = all.in(n); op[e] = all.in(nn()); }
      auto tok = p.beginModification();
      std::set<int> now = lv.second;
      for (auto& x : op) {
        bool ins = !lv.second.count(x.first); int at = all.pct(50) ? -1 : all.in(nn()), also = all.pct(25) ? all.in(nn()) : -1, at2 = all.pct(40) ? -1 : all.in(nn());
        if (ins && also == me()) {   // a second request for the same index: exactly one of them succeeds
          ev("ins").k("c", hx).k("i", x.first).k("at", at2 < 0 ? homeOf(c, x.first, nn()) : at2).k("rd", rd).put(); if (at2 < 0) p[unlin<D>(x.first, d)].insert(tok); else p[unlin<D>(x.first, d)].insertAt(tok, NodeType(at2));
        }
        if (x.second == me()) {
          if (ins) { ev("ins").k("c", hx).k("i", x.first).k("at", at < 0 ? homeOf(c, x.first, nn()) : at).k("rd", rd).put(); if (at < 0) p[unlin<D>(x.first, d)].insert(tok); else p[unlin<D>(x.first, d)].insertAt(tok, NodeType(at)); }
          else { ev("del").k("c", hx).k("i", x.first).k("rd", rd).put(); p[unlin<D>(x.first, d)].destroy(tok); }
        }
        if (ins) now.insert(x.first); else now.erase(x.first);
      }
      lv.second = now; p.finishModification(std::move(tok)); ev("modend").k("c", hx).k("r", me()).k("rd", rd).put();
    } break;
  case RED: {
      redc = hx; int k = 1 + rn.n % 3;
      if (c.how == 3 || c.how == 4) { auto tok = p.beginModification(); p.finishModification(std::move(tok)); }   // with dynamic membership, reductions need one finished modification
      bool lump = all.pct(50); int per = lump ? all.in(1, 6) : 1; if (lump) k = 1;
      for (int q = 0; q < k; q++) {
        std::vector<int> kt; for (int j = 0; j < per; j++) { int kind = all.in(4); kt.push_back(kind); kt.push_back(kind == 0 ? all.in(nn()) : someOf<D>(all)); }
        long id = 8000000 + rd * 10 + q, key = rd * 10 + q + 1;
        runInEpochCollective([&]{ if (me() == q % nn()) {
          for (int j = 0; j < per; j++) ev("rbeg").k("k", key + j).k("c", hx).k("kind", kt[size_t(2 * j)]).k("t", kt[size_t(2 * j + 1)]).put();
          ev("bcast").k("m", id).k("c", hx).k("rd", rd).k("r", me()).put(); p.template broadcast<&Elm<D>::hRed>(id, kt, key); } });
      } } break;
  case WHERE: runInEpochCollective([&]{
      int k = mine.in(3); for (int q = 0; q < k; q++) { int e = someOf<D>(mine); auto ix = unlin<D>(e, d); int a = int(newId()), hm = homeOf(c, e, nn()); ev("ask").k("m", a).k("rd", rd).k("r", me()).put();
        theLocMan()->getCollectionLM<typename IxT<D>::T>(px)->getLocation(ix, NodeType(homeOf(c, e, nn())), [=](NodeType at) { ev("where").k("m", a).k("c", hx).k("i", e).k("at", int(at)).k("home", me() == hm).put(); }); } }); break;
  case KILL: theCollective()->barrier(); runInEpochCollective([&]{ if (me() == rn.sub % nn()) { ev("kill").k("c", hx).k("rd", rd).put(); p.destroy(); } }); live.erase(px); break;
  case SAVE: { theCollective()->barrier(); int f = int(rn.s % 1000000000); ev("save").k("c", hx).k("f", f).k("r", me()).put();
      std::string base = "ck" + std::to_string(f); int how = all.in(3);
      if (how == 0) theCollection()->checkpointToFile(p, base); else theCollection()->checkpointToFile(p, base, how == 1, all.in(1, 5));
      saved[ci] = Saved{f, px, lv.second}; theCollective()->barrier(); } break;
  case REST: { if (!saved.count(ci)) return;
      auto& sv = saved[ci]; std::string base = "ck" + std::to_string(sv.f); theCollective()->barrier(); using Idx = typename IxT<D>::T;
      Idx b; if constexpr (D == 1) b = Index1D(d[0]); else if constexpr (D == 2) b = Index2D(d[0], d[1]); else b = Index3D(d[0], d[1], d[2]);
      if (sv.px == px && sv.els == lv.second && all.pct(60)) {
        ev("rsbeg").k("c", hx).k("r", me()).put();
        if (all.pct(50)) theCollection()->restoreFromFileInPlace<Elm<D>>(p, b, base); else runInEpochCollective([&]{ theCollection()->restoreFromFileInPlace<Elm<D>>(p, b, base); });
        ev("rsend").k("c", hx).k("f", sv.f).k("r", me()).put(); theCollective()->barrier();
      } else {
        if (all.pct(60)) { runInEpochCollective([&]{ if (me() == rn.sub % nn()) { ev("kill").k("c", hx).k("rd", rd).put(); p.destroy(); } }); theCollective()->barrier(); }
        auto els = sv.els; live.erase(px); p = theCollection()->restoreFromFile<Elm<D>>(b, base); hx = hex(p.getProxy());
        ev("rest").k("c", hx).k("f", sv.f).k("r", me()).k("lab", theCollection()->getLabel(p.getProxy()) == "col").put(); theCollective()->barrier();
        auto& l2 = live[p.getProxy()]; l2.first = ci; l2.second = els; sv.px = p.getProxy(); S->cols[size_t(ci)].how = 0; S->cols[size_t(ci)].map = 0;
      } } break;
  default: break;
  }
  if (rn.k != LB && rn.k != KILL) { auto v = locals<D>(p, d); ev("list").k("c", hx).k("r", me()).arr("is", v).put(); }
}
template <typename F> static void forCol(CD const& c, F f) { if (c.dim == 1) f(std::integral_constant<int, 1>{}); else if (c.dim == 2) f(std::integral_constant<int, 2>{}); else f(std::integral_constant<int, 3>{}); }
int main(int argc, char** argv) {
  std::string mode = "send"; for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return drv::main(argc, argv, [&](Case& c) {
    auto& r = c.rng; c.nranks = r.in(1, c.thorough ? 7 : 4); if (r.pct(mode == "red" ? 12 : 3)) c.nranks = r.in(5, 12); if (c.nranks == 1 && r.pct(70)) c.nranks = 3;
    static Scn s; s = Scn{}; S = &s; s.spread = r.in(1, 3);
    int nc = r.pct(25) ? 2 : 1, first = r.in(3);
    for (int i = 0; i < nc; i++) {
      CD d{}; d.dim = 1 + (first + i) % 3;
      for (int k = 0; k < 3; k++) d.d[k] = k < d.dim ? (d.dim == 1 ? r.in(1, 14) : d.dim == 2 ? r.in(1, 5) : r.in(1, 3)) : 1;
      d.how = mode == "dyn" ? r.in(3, 4) : r.in(6); d.map = d.how == 3 || d.how == 4 ? r.of<int>({0, 1, 2, 4}) : r.in(5); d.rooted = (d.how == 0 || d.how == 3 || d.how == 4) && d.map != 4 && r.pct(25);
      s.cols.push_back(d);
    }
    int n = r.in(2, c.thorough ? 10 : 6); if (mode == "ckpt") n += 3;
    for (int i = 0; i < n; i++) {
      Round q{}; int k = r.in(100); q.s = r.next(); q.n = r.in(1, 5); q.ttl = r.in(0, 4); q.sub = r.in(1, 10);
      if (mode == "make") q.k = k < 50 ? BCAST : k < 70 ? MSGS : k < 85 ? WHERE : KILL;
      else if (mode == "send") q.k = k < 45 ? MSGS : k < 80 ? MIG : k < 88 ? WHERE : k < 95 ? BCAST : RED;
      else if (mode == "bcast") q.k = k < 50 ? BCAST : k < 70 ? MIG : k < 85 ? DYN : MSGS;
      else if (mode == "dyn") q.k = k < 45 ? DYN : k < 60 ? MSGS : k < 75 ? BCAST : k < 85 ? WHERE : k < 92 ? RED : MIG;
      else if (mode == "red") q.k = k < 55 ? RED : k < 75 ? MIG : k < 90 ? DYN : MSGS;
      else if (mode == "ckpt") q.k = k < 28 ? SAVE : k < 56 ? REST : k < 70 ? MIG : k < 82 ? MSGS : k < 88 ? BCAST : k < 92 ? DYN : k < 96 ? RED : WHERE;
      else q.k = k < 50 ? LB : k < 75 ? MSGS : k < 85 ? BCAST : k < 92 ? WHERE : RED;
      s.rounds.push_back(q);
    }
    c.params = "{\"cols\":["; for (size_t i = 0; i < s.cols.size(); i++) { auto& d = s.cols[i]; c.params += (i ? "," : "") + std::string("{\"dim\":") + std::to_string(d.dim) + ",\"d\":[" + std::to_string(d.d[0]) + "," + std::to_string(d.d[1]) + "," + std::to_string(d.d[2]) + "],\"how\":" + std::to_string(d.how) + ",\"map\":" + std::to_string(d.map) + ",\"rooted\":" + (d.rooted ? "true}" : "false}"); }
    std::string lb = r.of<std::string>({"RotateLB", "RandomLB", "GreedyLB", "HierarchicalLB", "TemperedLB", "NoLB", "TemperedWMin"});
    c.params += "],\"lb\":\"" + lb + "\"}";
    if (mode == "lb") { c.args.push_back("--vt_lb"); c.args.push_back("--vt_lb_interval=1"); c.args.push_back("--vt_lb_name=" + lb); if (r.pct(20)) c.args.push_back("--vt_lb_keep_last_elm"); }
    if (r.pct(20)) c.args.push_back("--vt_ult_disable");
    if (r.pct(25)) c.args.push_back("--vt_sched_num_progress=" + std::to_string(r.in(1, 3)));
  }, [&](Case& c, int) {
    nextid = 0; budget = c.thorough ? 40 : 15; rd = 0; live.clear(); saved.clear();
    withVt(c, [&]{
      int ci = 0; for (auto& x : S->cols) { forCol(x, [&](auto D) { make<decltype(D)::value>(x, ci); }); ci++; }
      for (auto& q : S->rounds) {
        rd++; int k = int(q.s % S->cols.size()); auto& x = S->cols[size_t(k)];
        forCol(x, [&](auto D) { round_<decltype(D)::value>(q, x, k); });
        ev("rend").k("r", me()).k("rd", rd).put();
      }
      runInEpochCollective([]{}); ev("fini").k("r", me()).put();
    });
  });
}
