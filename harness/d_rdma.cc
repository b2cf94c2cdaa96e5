// Memory reachable through one-sided handles: node handles, sets of handles
// per node, and handles of collection elements (--mode node|set|col).
#include "drv.h"
#include <vt/rdmahandle/manager.h>
using namespace vt; using namespace drv;

struct Round { int k; uint64_t s; };
struct Scn { std::vector<Round> rounds; int mode, ty, nel; };
static Scn* S = nullptr; static int rd = 0, nh = 0;
static int me() { return theContext()->getNode(); }
static int nn() { return theContext()->getNumNodes(); }
static void pump(int k) { theSched()->runSchedulerWhile([k]() mutable { return --k > 0; }); }
struct Obj { };
template <typename T> static std::vector<int> ints(T const* p, size_t n) { std::vector<int> v; for (size_t i = 0; i < n; i++) { T x = p[i]; v.push_back(x >= T(-2000000000) && x <= T(2000000000) ? int(x) : -7777); } return v; }
static std::set<int> uniform_;   // handles with one size for all owners
static int sizeOf(int h, int o) { if (uniform_.count(h)) o = 0; Rng r(uint64_t(h) * 977 + uint64_t(o) * 31); return r.in(1, 9); }
enum { PUT, GET, ACC, FOP, CRIT, LOC };
static MPI_Op opOf(int i) { return i == 0 ? MPI_SUM : i == 1 ? MPI_MAX : MPI_MIN; }
static std::string opName(int i) { return i == 0 ? "plus" : i == 1 ? "max" : "min"; }

// What actor a does in a round to the block of owner o of handle h. Which kind
// of access a block sees in a round is the same for everybody, so that no two
// conflicting accesses meet: han is the local handle, idx names the owner.
template <typename T, typename H, typename I>
static void access_(H& han, I idx, int h, int o, int a, int actors, int kind, Rng& r, uint64_t q) {
  int n = sizeOf(h, o); Lock l = r.pct(50) ? Lock::Shared : Lock::Exclusive;
  auto E = [&](char const* e) { return ev(e).k("h", h).k("o", o).k("a", a); };
  if (r.pct(15)) E("cnt").k("n", int(han.getCount(idx))).put();
  switch (kind) {
  case PUT: {
    // every cell has one writer in the round
    for (int lo = 0; lo < n;) {
      int len = 1 + int((q + uint64_t(lo)) % 3); len = std::min(len, n - lo);
      if (int((uint64_t(lo) * 5 + q + uint64_t(o)) % uint64_t(actors)) == a) {
        std::vector<T> v; for (int i = 0; i < len; i++) v.push_back(T(r.in(1000)));
        auto vi = ints(v.data(), v.size());
        if (r.pct(50)) han.put(idx, v.data(), size_t(len), lo, l); else { auto w = han.rput(idx, v.data(), size_t(len), lo, l); if (r.pct(50)) pump(3); w.wait(); }
        E("put").k("off", lo).arr("v", vi).put();
        if (r.pct(40)) { std::vector<T> g(size_t(len), T(-1)); han.get(idx, g.data(), size_t(len), lo, l); E("get").k("off", lo).arr("v", ints(g.data(), g.size())).put(); }
      }
      lo += len;
    }
    break; }
  case GET: for (int k = r.in(1, 3); k > 0; k--) {
    int lo = r.in(n), len = r.in(1, n - lo); std::vector<T> g(size_t(len), T(-1)); int how = r.in(4);
    if (how == 0) han.get(idx, g.data(), size_t(len), lo, l);
    else if (how == 1) { auto w = han.rget(idx, g.data(), size_t(len), lo, l); if (r.pct(50)) pump(3); w.wait(); }
    else { auto b = han; bool own = how == 2; if (own) b.setBuffer(g.data()); int ran = 0; std::vector<T> seen; b.addAction([&](T* p) { ran++; seen.assign(p, p + len); });
      { auto w = b.rget(idx, size_t(len), lo, l); w.wait(); } if (ran != 1) E("once").k("n", ran).put(); if (!own) g = seen; else if (seen != g) E("once").k("n", -1).put(); }
    E("get").k("off", lo).arr("v", ints(g.data(), g.size())).put();
    } break;
  case ACC: for (int k = r.in(1, 2); k > 0; k--) {
    int lo = r.in(n), len = r.in(1, n - lo), op = int(q % 3); std::vector<T> v; for (int i = 0; i < len; i++) v.push_back(T(r.in(1000))); auto vi = ints(v.data(), v.size());
    if (r.pct(50)) han.accum(idx, v.data(), size_t(len), lo, opOf(op), l); else { auto w = han.raccum(idx, v.data(), size_t(len), lo, opOf(op), l); w.wait(); }
    E("acc").k("off", lo).k("op", opName(op)).arr("v", vi).put();
    } break;
  case FOP: for (int k = r.in(1, 2); k > 0; k--) {
    int op = int(q % 2), lo = int(q % uint64_t(n)), v = r.in(1, 50); T out = han.fetchOp(idx, T(v), lo, opOf(op), l);
    E("fop").k("off", lo).k("op", opName(op)).k("v", v).k("out", ints(&out, 1)[0]).put();
    } break;
  default: break;
  }
}
// the owner's own view of its block
template <typename T, typename H>
static void local_(H& han, int h, int o, int a, Rng& r, bool write) {
  auto E = [&](char const* e) { return ev(e).k("h", h).k("o", o).k("a", a); };
  if (write) {
    std::vector<int> v; auto f = [&](T* p, std::size_t n) { for (size_t i = 0; i < n && i < 64; i++) { p[i] = T(r.in(1000)); } v = ints(p, std::min<size_t>(n, 64)); };
    if (r.pct(50)) han.modifyExclusive(f); else han.modifyShared(f);
    E("loc").arr("v", v).put();
  }
  if (!write || r.pct(50)) {
    std::vector<int> v; auto f = [&](T const* p, std::size_t n) { v = ints(p, std::min<size_t>(n, 64)); };
    if (r.pct(50)) han.readExclusive(f); else han.readShared(f);
    E("see").arr("v", v).put();
  }
}
static int kindOf(Round const& q, int h, int o, bool crit) { Rng r(q.s + uint64_t(h) * 71 + uint64_t(o) * 5); int k = r.in(crit ? 6 : 5); return k == 4 ? int(LOC) : k == 5 ? int(CRIT) : k; }
static void over() { theCollective()->barrier(); if (me() == 0) ev("over").k("rd", rd).put(); theCollective()->barrier(); }
static void mk(int h, int o, int n) { ev("mk").k("h", h).k("o", o).k("n", n).put(); }

//-------------------------------------------------------------- node handles
template <typename T> static void nodeRun() {
  objgroup::proxy::Proxy<Obj> og[2] = {theObjGroup()->makeCollective<Obj>("a"), theObjGroup()->makeCollective<Obj>("b")};
  std::map<int, HandleRDMA<T>> hs; std::map<int, int> own;
  auto make = [&](Rng& all) {
    int h = ++nh, g = all.in(2); bool uni = all.pct(40); if (uni) uniform_.insert(h); int n = sizeOf(h, me()); own[h] = g;
    auto x = og[g].template makeHandleRDMA<T>(size_t(n), uni); theSched()->runSchedulerWhile([&] { return !x.ready(); }); hs[h] = x; mk(h, me(), n);
    over();
    Rng mine(all.next() + uint64_t(me())); local_<T>(hs[h], h, me(), me(), mine, true); over();
  };
  for (auto& q : S->rounds) {
    rd++; Rng all(q.s), mine(q.s + uint64_t(me()) * 991);
    if (hs.empty() || q.k < 15) { make(all); continue; }
    if (q.k < 22 && hs.size() > 1) { auto it = hs.begin(); std::advance(it, all.in(int(hs.size()))); ev("cut").k("h", it->first).k("o", me()).put(); over(); og[own[it->first]].destroyHandleRDMA(it->second); hs.erase(it); over(); continue; }
    int steps = mine.in(1, 5);
    for (int i = 0; i < steps; i++) {
      auto it = hs.begin(); std::advance(it, mine.in(int(hs.size()))); int h = it->first, o = mine.in(nn()); auto& x = it->second;
      int kind = kindOf(q, h, o, true);
      int n = sizeOf(h, o);
      if (kind == LOC) { if (o == me()) {
        local_<T>(x, h, o, me(), mine, mine.pct(70));
        if (mine.pct(50)) { int lo = mine.in(n); std::vector<int> v; x.access(mine.pct(50) ? Lock::Shared : Lock::Exclusive, [&](T* p, std::size_t k) { v = ints(p, std::min<size_t>(k, 64)); }, lo); ev("get").k("h", h).k("o", o).k("a", me()).k("off", lo).arr("v", v).put(); }
      } }
      else if (kind == CRIT) {
        // a critical section over the owner's block
        x.lock(Lock::Exclusive, NodeType(o)); int lo = mine.in(n), len = mine.in(1, n - lo); std::vector<T> g(size_t(len), T(-1));
        { auto w = x.rget(NodeType(o), g.data(), size_t(len), lo, Lock::None); x.flush(NodeType(o)); w.wait(); } ev("crd").k("h", h).k("o", o).k("a", me()).k("off", lo).arr("v", ints(g.data(), g.size())).put();
        for (auto& y : g) y = T(int(y) % 1000 + 1 + me()); 
        auto vi = ints(g.data(), g.size()); { auto w = x.rput(NodeType(o), g.data(), size_t(len), lo, Lock::None); w.wait(); if (mine.pct(30)) x.flushAll(); }
        ev("cwr").k("h", h).k("o", o).k("a", me()).k("off", lo).arr("v", vi).put(); x.unlock();
      }
      else { Rng r2(mine.next()); access_<T>(x, NodeType(o), h, o, me(), nn(), kind, r2, Rng(q.s + uint64_t(o)).next() % 1000); }
      if (mine.pct(20)) pump(5);
    }
    over();
  }
}
//-------------------------------------------------------- sets of handles
template <typename T> static void setRun() {
  auto og = theObjGroup()->makeCollective<Obj>("a");
  struct Hs { rdma::HandleSet<T> set; bool dense; std::vector<std::vector<int>> has; };
  std::map<int, Hs> hs;
  auto make = [&](Rng& all) {
    int h = ++nh; int mx = all.in(1, 5); Hs x; x.dense = all.pct(50);
    for (int n = 0; n < nn(); n++) { std::vector<int> k; if (x.dense) { int c = all.in(1, mx); for (int i = 0; i < c; i++) k.push_back(i); } else { for (int i = 0; i < mx; i++) if (all.pct(60)) k.push_back(i); if (k.empty()) k.push_back(all.in(mx)); } x.has.push_back(k); }
    if (x.dense) { std::vector<std::size_t> v; for (int k : x.has[size_t(me())]) v.push_back(size_t(sizeOf(h, me() * 100 + k))); x.set = og.template makeHandleSetRDMA<T>(mx, v, false); }
    else { std::unordered_map<int32_t, std::size_t> m; for (int k : x.has[size_t(me())]) m[k] = size_t(sizeOf(h, me() * 100 + k)); x.set = og.template makeHandleSetRDMA<T>(mx, m, false); }
    for (int k : x.has[size_t(me())]) mk(h, me() * 100 + k, sizeOf(h, me() * 100 + k));
    over();
    Rng mine(all.next() + uint64_t(me())); for (int k : x.has[size_t(me())]) local_<T>(x.set[k], h, me() * 100 + k, me(), mine, true);
    hs[h] = x; over();
  };
  for (auto& q : S->rounds) {
    rd++; Rng all(q.s), mine(q.s + uint64_t(me()) * 991);
    if (hs.empty() || q.k < 15) { make(all); continue; }
    if (q.k < 22 && hs.size() > 1) { auto it = hs.begin(); std::advance(it, all.in(int(hs.size()))); for (int k : it->second.has[size_t(me())]) ev("cut").k("h", it->first).k("o", me() * 100 + k).put(); over(); og.destroyHandleSetRDMA(it->second.set); hs.erase(it); over(); continue; }
    int steps = mine.in(1, 6);
    for (int i = 0; i < steps; i++) {
      auto it = hs.begin(); std::advance(it, mine.in(int(hs.size()))); int h = it->first, n = mine.in(nn()), k = mine.of(it->second.has[size_t(n)]), o = n * 100 + k; auto& x = it->second;
      int kind = kindOf(q, h, o, false); auto& han = mine.pct(50) ? x.set.getAny() : x.set[mine.of(x.has[size_t(me())])];
      if (kind == LOC) { if (n == me()) local_<T>(x.set[k], h, o, me(), mine, mine.pct(70)); }
      else { Rng r2(mine.next()); access_<T>(han, Index2D(n, k), h, o, me(), nn(), kind, r2, Rng(q.s + uint64_t(o)).next() % 1000); }
      if (mine.pct(20)) pump(5);
    }
    over();
  }
}
//------------------------------------------------------- collection elements
static int elements() { return S->nel; }
template <typename T> struct Col : Collection<Col<T>, Index1D> {
  std::vector<HandleRDMA<T, Index1D>> hs;
  int i() { return int(this->getIndex().x()); }
  void make() { int h = int(hs.size()) + 1, e = i(); hs.push_back(this->getCollectionProxy().template makeHandleRDMA<T>(this->getIndex(), size_t(sizeOf(h, e)), false)); mk(h, e, sizeOf(h, e)); }
  void init(uint64_t s) { Rng r(s + uint64_t(i()) * 17); local_<T>(hs.back(), int(hs.size()), i(), i(), r, true); }
  void step(Round q) {
    Rng mine(q.s + uint64_t(i()) * 991); int steps = mine.in(1, 3);
    for (int s = 0; s < steps; s++) {
      int h = 1 + mine.in(int(hs.size())), o = mine.in(elements()), kind = kindOf(q, h, o, false); auto& x = hs[size_t(h) - 1];
      if (mine.pct(30)) o = i();
      kind = kindOf(q, h, o, false);
      if (kind == LOC) { if (o == i()) local_<T>(x, h, o, i(), mine, mine.pct(70)); }
      else { Rng r2(mine.next()); access_<T>(x, Index1D(o), h, o, i(), elements(), kind, r2, Rng(q.s + uint64_t(o)).next() % 1000); }
    }
  }
  void move(uint64_t s, int pct) { Rng r(s + uint64_t(i()) * 13); if (r.pct(pct)) this->migrate(NodeType(r.in(nn()))); }
  template <typename Z> void serialize(Z& z) { Collection<Col<T>, Index1D>::serialize(z); z | hs; }
};
template <typename T> static void colRun() {
  CollectionProxy<Col<T>, Index1D> p = makeCollection<Col<T>>("c").bounds(Index1D(elements())).bulkInsert().wait();
  int h = 0; bool moved = false;
  auto all_ = [&](auto f) { runInEpochCollective([&] { if (me() == 0) f(); }); };
  for (auto& q : S->rounds) {
    rd++; Rng all(q.s);
    // the runtime expects every element where its map puts it when a handle is made
    if (h == 0 || (q.k < 30 && h < 3 && !moved)) { h++; all_([&] { p.template broadcast<&Col<T>::make>(); }); all_([&] { p.template broadcast<&Col<T>::init>(q.s); }); over(); continue; }
    if (q.k < 40) {
      moved = true; if (q.k < 20) { int pct = all.of<int>({10, 40, 100}); all_([&] { p.template broadcast<&Col<T>::move>(q.s, pct); }); thePhase()->runHooksManual(phase::PhaseHook::EndPostMigration); }
      else thePhase()->nextPhaseCollective();
      over(); continue;
    }
    all_([&] { p.template broadcast<&Col<T>::step>(q); }); over();
  }
}
template <typename T> static void run_() { if (S->mode == 0) nodeRun<T>(); else if (S->mode == 1) setRun<T>(); else colRun<T>(); }

int main(int argc, char** argv) {
  std::string mode = "node"; for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return drv::main(argc, argv, [&](Case& c) {
    auto& r = c.rng; c.nranks = r.in(1, c.thorough ? 6 : 5); if (c.nranks == 1 && r.pct(70)) c.nranks = 3;
    static Scn s; s = Scn{}; S = &s; s.mode = mode == "node" ? 0 : mode == "set" ? 1 : 2; s.ty = r.in(3); s.nel = r.in(1, c.thorough ? 9 : 7);
    int n = r.in(3, c.thorough ? 14 : 9); for (int i = 0; i < n; i++) s.rounds.push_back(Round{r.in(100), r.next()});
    if (s.mode == 2) { c.args.push_back("--vt_lb"); c.args.push_back("--vt_lb_interval=1"); c.args.push_back("--vt_lb_name=" + r.of<std::string>({"RotateLB", "RandomLB", "RotateLB", "GreedyLB"})); }
    if (r.pct(20)) c.args.push_back("--vt_ult_disable");
  }, [&](Case& c, int) {
    rd = 0; nh = 0; uniform_.clear();
    withVt(c, [&] {
      if (S->ty == 0) run_<int>(); else if (S->ty == 1) run_<int64_t>(); else run_<double>();
      runInEpochCollective([] {}); ev("fini").k("r", me()).put();
    });
  });
}
