// Data structures the runtime is built from, driven by random operation
// histories on one rank; the trace specifications hold the abstract state.
//   --mode iset|ewin|region|pool|bits|pipe|timer|ult|index|lbdata|util
#include "drv.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/termination/interval/integral_set.h"
#include "vt/utils/adt/ranged_counter.h"
#include "vt/utils/adt/histogram_approx.h"
#include "vt/utils/container/circular_buffer.h"
#include "vt/group/region/group_list.h"
#include "vt/group/region/group_range.h"
#include "vt/group/region/group_shallow_list.h"
#include "vt/group/id/group_id.h"
#include "vt/pipe/id/pipe_id.h"
#include "vt/pipe/signal/signal_holder.h"
#include "vt/pipe/state/pipe_state.h"
#include "vt/objgroup/proxy/proxy_bits.h"
#include "vt/vrt/proxy/proxy_bits.h"
#include "vt/vrt/collection/proxy_builder/elm_proxy_builder.h"
#include "vt/elm/elm_id_bits.h"
#include "vt/elm/elm_lb_data.h"
#include "vt/scheduler/priority_manip.h"
#include "vt/scheduler/thread_manager.h"
#include "vt/timetrigger/time_trigger_manager.h"
#include "vt/topos/mapping/dense/dense.h"
#include "vt/handler/handler.h"
#include "vt/messaging/envelope.h"
#include <map>
#include <list>
#include <malloc.h>
using namespace vt; using namespace drv;
using S64 = long long;
static std::string str(uint64_t v) { return std::to_string((unsigned long long)v); }
static std::string sstr(int64_t v) { return std::to_string((long long)v); }

// ---------------------------------------------------------------- iset
static void iset(Case& c) {
  using Set = IntegralSet<uint64_t>;
  Rng& r = c.rng; uint64_t base = r.of<uint64_t>({0, 0, 1000, 1ull << 40, (1ull << 61)});
  int U = r.of<int>({6, 14, 40, 90}); std::map<int, Set> ss; std::map<int, std::set<int>> have;
  ss.emplace(0, Set{}); have[0]; int n = r.in(20, 90); int cur = 0, nsets = 1; int bias = r.in(20, 80);
  auto rel = [&](uint64_t v) { return S64(v - base); };
  auto look = [&]{
    auto& s = ss.at(cur); std::vector<S64> it; int g = 0;
    for (auto i = s.begin(); i != s.end() && g++ < 500; ++i) it.push_back(rel(*i));
    auto o = ev("all").k("s", cur).arr("it", it).k("size", S64(s.size())).k("empty", s.empty());
    if (have[cur].empty()) o.k("lo", -1).k("hi", -1); else o.k("lo", rel(s.lower())).k("hi", rel(s.upper()));
    o.k("comp", S64(s.compressedSize())).put();
  };
  for (int i = 0; i < n; i++) {
    auto& s = ss.at(cur); auto& h = have[cur]; int v = r.in(1, U), k = r.in(100);
    if (k < 55) {
      if (r.pct(bias)) { if (!h.count(v)) { ev("ins").k("s", cur).k("v", v).put(); s.insert(uint64_t(base + v)); h.insert(v); } }
      else if (h.size()) { auto it = h.begin(); std::advance(it, r.in(int(h.size()))); v = *it; ev("del").k("s", cur).k("v", v).put(); s.erase(base + v); h.erase(v); }
    } else if (k < 63) {
      int w = r.in(0, 6); bool ok = v + w <= U; for (int x = v; x <= v + w; x++) if (h.count(x)) ok = false;
      if (ok) { ev("insi").k("s", cur).k("lo", v).k("hi", v + w).put(); Set::IntervalType iv(base + v, base + v + w); s.insertInterval(iv); for (int x = v; x <= v + w; x++) h.insert(x); }
    } else if (k < 75) { int q = r.in(0, U + 2); ev("has").k("s", cur).k("v", q).k("yes", s.contains(base + q)).put(); }
    else if (k < 88) look();
    else if (k < 91) { ev("clr").k("s", cur).put(); s.clear(); h.clear(); }
    else if (k < 96 && nsets < 4) {
      int d = nsets++; ev("copy").k("s", cur).k("d", d).put();
      if (r.pct(50)) ss.emplace(d, s); else { ss.emplace(d, Set{}); if (r.pct(50)) ss.at(d).insert(uint64_t(5)); ss.at(d) = s; }
      have[d] = h; if (r.pct(50)) cur = d;
    } else cur = r.in(nsets);
  }
  for (auto& x : ss) { cur = x.first; look(); }
}
// ---------------------------------------------------------------- ewin
static void epochEv(Ev& o, EpochType e) {
  bool rt = epoch::EpochManip::isRooted(e);
  o.k("ep", str(*e)).k("rooted", rt).k("cat", int(epoch::EpochManip::category(e))).k("node", rt ? int(epoch::EpochManip::node(e)) : -1).k("seq", S64(epoch::EpochManip::seq(e) & 0x3fffffff));
}
static void ewin(Case& c) {
  Rng& r = c.rng; auto m = theEpoch(); std::vector<EpochType> act, done; int n = r.in(15, 80);
  std::vector<std::pair<EpochType, int>> ext; // epochs another node allocated
  std::unique_ptr<epoch::EpochManip> own; if (r.pct(70)) { own = std::make_unique<epoch::EpochManip>(); m = own.get(); }
  using C = epoch::eEpochCategory; C const cats[] = {C::NoCategoryEpoch, C::InsertEpoch, C::DijkstraScholtenEpoch};
  auto term = [&](EpochType e) { auto o = ev("isterm"); epochEv(o, e); o.k("yes", m->getTerminatedWindow(e)->isTerminated(e)).put(); };
  for (int i = 0; i < n; i++) {
    int k = r.in(100);
    if (k < 35) {
      C cat = cats[r.in(3)]; int w = r.in(3); EpochType e;
      int node = w == 2 ? r.of<int>({0, 1, 3, 77, 32767}) : w == 1 ? int(theContext()->getNode()) : -1;
      if (w == 0) cat = C::NoCategoryEpoch;
      e = w == 0 ? m->getNextCollectiveEpoch(cat) : w == 1 ? m->getNextRootedEpoch(cat) : m->getNextRootedEpoch(cat, NodeType(node));
      auto o = ev("new"); epochEv(o, e); o.k("wcat", int(cat)).k("wnode", node).k("tt", S64(m->getTerminatedWindow(e)->getTotalTerminated())).put(); act.push_back(e);
    } else if (k < 60 && act.size()) {
      size_t j = r.in(int(act.size())); auto e = act[j]; act.erase(act.begin() + long(j)); done.push_back(e);
      m->getTerminatedWindow(e)->setEpochTerminated(e); auto o = ev("term"); epochEv(o, e); o.k("tt", S64(m->getTerminatedWindow(e)->getTotalTerminated())).put();
    } else if (k < 66) {   // told about an epoch another node owns
      EpochType e = epoch::EpochManip::generateEpoch(true, NodeType(r.in(5, 9)), cats[r.in(3)]);
      epoch::EpochManip::setSeq(e, uint64_t(r.in(1, 30)));
      bool known = false; for (auto& x : ext) if (x.first == e) known = true;
      if (!known) { ext.push_back({e, 1}); auto o = ev("activate"); epochEv(o, e); o.put(); m->getTerminatedWindow(e)->activateEpoch(e); act.push_back(e); }
    } else if (k < 80 && act.size()) term(r.of(act));
    else if (done.size()) term(r.of(done));
  }
  for (auto e : act) term(e);
  for (auto e : done) term(e);
}
// ---------------------------------------------------------------- region
static void region_(Case& c) {
  using namespace group::region; Rng& r = c.rng;
  std::map<int, std::unique_ptr<Region>> rg; std::vector<std::vector<NodeType>> keep; keep.reserve(64); int next = 0; int n = r.in(10, 40);
  auto add = [&](std::unique_ptr<Region> p) { rg[next] = std::move(p); return next++; };
  auto mem = [&](int id) { std::string v = "["; for (int q = 0; q < 60; q++) if (rg[id]->contains(NodeType(q))) { if (v.size() > 1) v += ","; v += std::to_string(q); } return v + "]"; };
  auto make = [&]{
    int k = r.in(3);
    if (k == 0) {
      int lo = r.in(0, 20), hi = lo + r.in(1, 30), st = r.of<int>({1, 1, 2, 3, 4, 7}); int id = add(std::make_unique<Range>(NodeType(lo), NodeType(hi), NodeType(st)));
      ev("range").k("id", id).k("lo", lo).k("hi", hi).k("st", st).put();
    } else {
      std::vector<NodeType> v; int m = r.in(1, 14); bool dup = false;
      for (int i = 0; i < m; i++) { NodeType x = NodeType(r.in(0, 40)); dup = false; for (auto y : v) if (x == y) dup = true; if (!dup) v.push_back(x); }
      if (k == 1) { int id = add(std::make_unique<List>(v)); ev("list").k("id", id).arr("v", v).put(); }
      else { keep.push_back(v); int id = add(std::make_unique<ShallowList>(keep.back().data(), keep.back().size())); ev("list").k("id", id).arr("v", v).put(); }
    }
  };
  make();
  for (int i = 0; i < n; i++) {
    if (rg.empty() || (r.pct(15) && keep.size() < 60)) { make(); continue; }
    auto it = rg.begin(); std::advance(it, r.in(int(rg.size()))); int id = it->first; Region& g = *it->second; int k = r.in(100);
    bool shallow = dynamic_cast<ShallowList*>(&g) != nullptr;
    if (k < 15) ev("size").k("id", id).k("n", S64(g.getSize())).put();
    else if (k < 35) { int x = r.in(0, 50); ev("has").k("id", id).k("v", x).k("yes", g.contains(NodeType(x))).put(); }
    else if (k < 50) { if (!shallow) ev("elems").k("id", id).arr("v", g.makeList()).put(); }
    else if (k < 58) { if (g.getSize()) ev("head").k("id", id).k("v", g.head()).put(); }
    else if (k < 66) { if (g.getSize()) { NodeType h = g.head(); int d = add(g.tail()); ev("tail").k("id", id).k("d", d).k("v", h).put(); } }
    else if (k < 74) { int d = add(g.copy()); ev("copy").k("id", id).k("d", d).put(); }
    else if (k < 80) { if (!shallow) { g.sort(); ev("sort").k("id", id).put(); } }
    else if (k < 90) { if (g.getSize() >= 2) { auto t = g.split(); int a = add(std::move(std::get<0>(t))), b = add(std::move(std::get<1>(t))); ev("split").k("id", id).k("a", a).k("b", b).raw("va", mem(a)).raw("vb", mem(b)).put(); } }
    else if (g.getSize() >= 1) { std::vector<int> ds; int ns = r.in(1, 6); g.splitN(ns, [&](Region::RegionUPtrType p) { ds.push_back(add(std::move(p))); }); std::string vs = "["; for (int d : ds) { if (vs.size() > 1) vs += ","; vs += mem(d); } ev("splitn").k("id", id).k("n", ns).arr("ds", ds).raw("vs", vs + "]").put(); }
    // content of everything is checked at the end
  }
  for (auto& x : rg) {
    std::vector<int> v; for (int q = 0; q < 60; q++) if (x.second->contains(NodeType(q))) v.push_back(q);
    ev("members").k("id", x.first).arr("v", v).k("n", S64(x.second->getSize())).put();
  }
}
// ---------------------------------------------------------------- pool
static void pool_(Case& c) {
  Rng& r = c.rng; pool::Pool own; mallopt(M_MMAP_THRESHOLD, 1 << 28); std::byte* basep = (std::byte*)malloc(16);
  struct B { int id; std::byte* p; size_t sz, used; }; std::vector<B> live; int next = 0; int n = r.in(20, 120);
  int heavy = r.pct(10) ? 1500 : 0;                       // enough to make a pool grow
  auto fill = [](B& b) { Rng g(b.id * 31 + 7); for (size_t i = 0; i < b.used; i++) b.p[i] = std::byte(g.next()); };
  auto sum = [](B& b) { Rng g(b.id * 31 + 7); for (size_t i = 0; i < b.used; i++) if (b.p[i] != std::byte(g.next())) return 0; return 1; };
  auto alloc = [&](size_t sz, size_t ov) {
    B b{next++, own.alloc(sz, ov), sz + ov, sz + ov}; fill(b);
    ev("alloc").k("id", b.id).k("at", S64(b.p - basep)).k("sz", sz).k("ov", ov).k("al", (uintptr_t(b.p) & 7) == 0).k("as", S64(own.allocatedSize(b.p))).put();
    live.push_back(b);
  };
  auto size = [&]{ int k = r.in(10); return size_t(k < 4 ? r.in(1, 64) : k < 7 ? r.in(60, 300) : k < 9 ? r.in(900, 1300) : k == 9 ? r.in(1, 40000) : 64); };
  std::vector<size_t> const edge = {1, 24, 32, 63, 64, 65, 1023, 1024, 1025};
  for (int i = 0; i < heavy; i++) { B b{next++, own.alloc(24, 0), 24, 24}; fill(b); live.push_back(b); }
  if (heavy) { // distinct, intact: report a sample of them
    std::vector<B> keepl; for (auto& b : live) if (!sum(b)) ev("bad").k("id", b.id).put();
    std::set<std::byte*> d; for (auto& b : live) d.insert(b.p); if (d.size() != live.size()) ev("bad").k("id", -1).put();
    while (live.size() > 8) { size_t j = r.in(int(live.size())); if (!sum(live[j])) ev("bad").k("id", live[j].id).put(); own.dealloc(live[j].p); live[j] = live.back(); live.pop_back(); }
    for (auto& b : live) ev("alloc").k("id", b.id).k("at", S64(b.p - basep)).k("sz", 24).k("ov", 0).k("al", true).k("as", S64(own.allocatedSize(b.p))).put();
  }
  for (int i = 0; i < n; i++) {
    int k = r.in(100);
    if (k < 50 && live.size() < 40) { size_t sz = r.pct(40) ? r.of(edge) : size(); size_t ov = r.pct(65) ? 0 : r.pct(30) ? r.of(edge) : size(); alloc(sz, ov); }
    else if (live.size()) {
      size_t j = r.in(int(live.size())); B& b = live[j];
      if (k < 72) {
        auto before = own.remainingSize(b.p); size_t g = r.pct(30) ? size_t(before) : size_t(r.in(1, 80)); bool y = own.tryGrowAllocation(b.p, g);
        if (y) { b.sz += g; b.used = b.sz; }
        ev("grow").k("id", b.id).k("rem", S64(before)).k("g", g).k("yes", y).k("left", S64(own.remainingSize(b.p))).k("as", S64(own.allocatedSize(b.p))).put();
        if (y) fill(b);
      } else {
        ev("free").k("id", b.id).k("ok", sum(b)).k("as", S64(own.allocatedSize(b.p))).put();
        own.dealloc(b.p); live[j] = live.back(); live.pop_back();
      }
    }
  }
  for (auto& b : live) { ev("free").k("id", b.id).k("ok", sum(b)).k("as", S64(own.allocatedSize(b.p))).put(); own.dealloc(b.p); }
}
// ---------------------------------------------------------------- bits
struct Field { std::string name; std::function<void(uint64_t)> set; std::function<std::string()> get; int bits; bool sgn; };
static void useFields(Rng& r, int obj, char const* kind, std::vector<Field>& f, bool fresh) {
  auto val = [&](Field const& x) -> uint64_t {
    uint64_t full = x.bits >= 64 ? ~0ull : (1ull << x.bits) - 1; int k = r.in(6);
    uint64_t v = k == 0 ? 0 : k == 1 ? full : k == 2 ? (full >> 1) : k == 3 ? 1 : r.next() & full;
    if (x.sgn) v &= full >> 1;
    return v;
  };
  auto show = [&](char const* e) {
    std::string o = "["; bool first = true; for (auto& x : f) { if (!first) o += ","; first = false; o += "[\"" + x.name + "\",\"" + x.get() + "\"]"; }
    ev(e).k("o", obj).k("kind", kind).raw("f", o + "]").put();
  };
  if (fresh) for (auto& x : f) { auto v = val(x); x.set(v); ev("set").k("o", obj).k("k", x.name).k("v", str(v)).put(); }
  show("all");
  int n = r.in(1, 8);
  for (int i = 0; i < n; i++) { auto& x = f[r.in(int(f.size()))]; auto v = val(x); x.set(v); ev("set").k("o", obj).k("k", x.name).k("v", str(v)).put(); show("all"); }
}
static void made(int obj, std::vector<std::pair<std::string, std::string>> kv) {
  for (auto& p : kv) ev("set").k("o", obj).k("k", p.first).k("v", p.second).put();
}
static void bits_(Case& c) {
  Rng& r = c.rng; int objs = r.in(2, 6);
  for (int o = 0; o < objs; o++) {
    int kind = r.in(12);
    if (kind == 11) {
      using B = vrt::VirtualProxyBuilder; using RID = vt::vrt::VirtualRemoteIDType; bool a = r.pct(50), b = r.pct(50); NodeType me = NodeType(r.next() & 0x7fff), tg = NodeType(r.next() & 0x7fff); RID id = RID(r.next() & ((1ull << (sizeof(RID) * 8 - 1)) - 1));
      auto p = std::make_shared<VirtualProxyType>(B::createRemoteProxy(id, me, tg, a, b));
      made(o, {{"id", str(uint64_t(id))}, {"node", str(tg)}, {"rnode", str(me)}, {"coll", a ? "1" : "0"}, {"mig", b ? "1" : "0"}, {"rem", "1"}});
      auto rid = std::make_shared<uint64_t>(id), rnode = std::make_shared<uint64_t>(me);   // no accessors: only that they leave the others alone
      std::vector<Field> f{{"id", [=](uint64_t v) { B::setVirtualRemoteID(*p, RID(v)); *rid = v; }, [=]{ return str(*rid); }, int(sizeof(RID) * 8), true}, {"node", [=](uint64_t v) { B::setVirtualNode(*p, NodeType(v)); }, [=]{ return str(B::getVirtualNode(*p)); }, 16, true},
        {"rnode", [=](uint64_t v) { B::setVirtualRemoteNode(*p, NodeType(v)); *rnode = v; }, [=]{ return str(*rnode); }, 16, true}, {"rem", [=](uint64_t v) { B::setIsRemote(*p, v); }, [=]{ return B::isRemote(*p) ? "1" : "0"; }, 1, false},
        {"coll", [=](uint64_t v) { B::setIsCollection(*p, v); }, [=]{ return B::isCollection(*p) ? "1" : "0"; }, 1, false}, {"mig", [=](uint64_t v) { B::setIsMigratable(*p, v); }, [=]{ return B::isMigratable(*p) ? "1" : "0"; }, 1, false}};
      useFields(r, o, "rproxy", f, false);
    } else if (kind == 0) {
      auto e = std::make_shared<EpochType>(epoch::makeEpochZero()); using E = epoch::EpochManip; bool rt = r.pct(60);
      E::setIsRooted(*e, rt); made(o, {{"rooted", rt ? "1" : "0"}});
      std::vector<Field> f{{"cat", [=](uint64_t v) { E::setCategory(*e, static_cast<epoch::eEpochCategory>(v)); }, [=]{ return str(uint64_t(E::category(*e))); }, 2, false},
        {"seq", [=](uint64_t v) { E::setSeq(*e, v); }, [=]{ return str(E::seq(*e)); }, rt ? 45 : 61, false}};
      if (rt) f.push_back({"node", [=](uint64_t v) { E::setNode(*e, NodeType(v)); }, [=]{ return str(uint64_t(E::node(*e))); }, 16, true});
      std::vector<Field> g = f; g.push_back({"rooted", [](uint64_t) {}, [=]{ return E::isRooted(*e) ? "1" : "0"; }, 0, false});
      for (auto& x : f) { auto v = r.next() & ((1ull << std::min(x.bits - (x.sgn ? 1 : 0), 62)) - 1); x.set(v); ev("set").k("o", o).k("k", x.name).k("v", str(v)).put(); }
      std::string q; int n = r.in(1, 5);
      for (int i = 0; i <= n; i++) {
        std::string s = "["; for (auto& x : g) { if (s.size() > 1) s += ","; s += "[\"" + x.name + "\",\"" + x.get() + "\"]"; } ev("all").k("o", o).k("kind", "epoch").raw("f", s + "]").put();
        auto& x = f[r.in(int(f.size()))]; auto v = r.next() & ((1ull << std::min(x.bits - (x.sgn ? 1 : 0), 62)) - 1); if (i < n) { x.set(v); ev("set").k("o", o).k("k", x.name).k("v", str(v)).put(); }
      }
    } else if (kind == 1) {
      auto p = std::make_shared<PipeType>(0); using B = pipe::PipeIDBuilder; bool fresh = r.pct(50);
      if (!fresh) { uint32_t id = uint32_t(r.next()); NodeType nd = NodeType(r.next() & 0x7fff); bool a = r.pct(50), b = r.pct(50); *p = B::createPipeID(id, nd, a, b); made(o, {{"id", str(id)}, {"node", str(nd)}, {"back", a ? "1" : "0"}, {"pers", b ? "1" : "0"}}); }
      std::vector<Field> f{{"id", [=](uint64_t v) { B::setID(*p, uint32_t(v)); }, [=]{ return str(B::getPipeID(*p)); }, 32, false}, {"node", [=](uint64_t v) { B::setNode(*p, NodeType(v)); }, [=]{ return str(B::getNode(*p)); }, 16, true},
        {"back", [=](uint64_t v) { B::setIsSendback(*p, v); }, [=]{ return B::isSendback(*p) ? "1" : "0"; }, 1, false}, {"pers", [=](uint64_t v) { B::setIsPersist(*p, v); }, [=]{ return B::isPersist(*p) ? "1" : "0"; }, 1, false}};
      useFields(r, o, "pipe", f, fresh);
    } else if (kind == 2) {
      auto p = std::make_shared<GroupType>(0); using B = group::GroupIDBuilder; bool fresh = r.pct(50);
      if (!fresh) { uint32_t id = uint32_t(r.next()); NodeType nd = NodeType(r.next() & 0x7fff); bool a = r.pct(50), b = r.pct(50); *p = B::createGroupID(id, nd, a, b); made(o, {{"id", str(id)}, {"node", a ? sstr(-1) : sstr(nd)}, {"coll", a ? "1" : "0"}, {"stat", b ? "1" : "0"}}); }
      std::vector<Field> f{{"id", [=](uint64_t v) { B::setID(*p, uint32_t(v)); }, [=]{ return str(B::getGroupID(*p)); }, 32, false}, {"node", [=](uint64_t v) { B::setNode(*p, NodeType(v)); }, [=]{ return sstr(B::getNode(*p)); }, 16, true},
        {"coll", [=](uint64_t v) { B::setIsCollective(*p, v); }, [=]{ return B::isCollective(*p) ? "1" : "0"; }, 1, false}, {"stat", [=](uint64_t v) { B::setIsStatic(*p, v); }, [=]{ return B::isStatic(*p) ? "1" : "0"; }, 1, false}};
      useFields(r, o, "group", f, fresh);
    } else if (kind == 3) {
      auto p = std::make_shared<ObjGroupProxyType>(0); using B = objgroup::proxy::ObjGroupProxy; bool fresh = r.pct(50);
      if (!fresh) { uint32_t id = uint32_t(r.next()); NodeType nd = NodeType(r.next() & 0x7fff); bool a = r.pct(50); *p = B::create(id, nd, a); made(o, {{"id", str(id)}, {"node", a ? "0" : str(nd)}, {"coll", a ? "1" : "0"}, {"ctl", "1"}}); }
      std::vector<Field> f{{"id", [=](uint64_t v) { B::setID(*p, uint32_t(v)); }, [=]{ return str(B::getID(*p)); }, 32, false}, {"node", [=](uint64_t v) { B::setNode(*p, NodeType(v)); }, [=]{ return str(B::getNode(*p)); }, 16, true},
        {"coll", [=](uint64_t v) { B::setIsCollective(*p, v); }, [=]{ return B::isCollective(*p) ? "1" : "0"; }, 1, false}, {"ctl", [=](uint64_t v) { B::setControl(*p, v); }, [=]{ return B::isControl(*p) ? "1" : "0"; }, 1, false}};
      useFields(r, o, "objgroup", f, fresh);
    } else if (kind == 4) {
      auto p = std::make_shared<VirtualProxyType>(0); using B = vrt::VirtualProxyBuilder; bool fresh = r.pct(50);
      if (!fresh) { uint32_t id = uint32_t(r.next() & 0x7fffffff); NodeType nd = NodeType(r.next() & 0x7fff); bool a = r.pct(50), b = r.pct(50), d = r.pct(50); *p = B::createProxy(id, nd, a, b, d); made(o, {{"id", str(id)}, {"node", d ? "0" : str(nd)}, {"coll", a ? "1" : "0"}, {"mig", b ? "1" : "0"}, {"rem", d ? "1" : "0"}}); }
      std::vector<Field> f{{"id", [=](uint64_t v) { B::setVirtualID(*p, vt::vrt::VirtualIDType(v)); }, [=]{ return str(uint64_t(B::getVirtualID(*p))); }, int(sizeof(vt::vrt::VirtualIDType) * 8), true}, {"node", [=](uint64_t v) { B::setVirtualNode(*p, NodeType(v)); }, [=]{ return str(B::getVirtualNode(*p)); }, 16, true},
        {"coll", [=](uint64_t v) { B::setIsCollection(*p, v); }, [=]{ return B::isCollection(*p) ? "1" : "0"; }, 1, false}, {"mig", [=](uint64_t v) { B::setIsMigratable(*p, v); }, [=]{ return B::isMigratable(*p) ? "1" : "0"; }, 1, false}};
      f.push_back({"rem", [=](uint64_t v) { B::setIsRemote(*p, v); }, [=]{ return B::isRemote(*p) ? "1" : "0"; }, 1, false});
      useFields(r, o, "vproxy", f, fresh);
    } else if (kind == 5) {
      using B = elm::ElmIDBits; int w = r.in(3); NodeType nd = NodeType(r.next() & 0x7fff), cn = NodeType(r.next() & 0x7fff);
      if (w == 0) { bool mg = r.pct(50); uint64_t id = r.next() & ((1ull << 46) - 1); auto e = B::createCollectionImpl(mg, id, nd, cn);
        made(o, {{"ctl", mg ? "3" : "2"}, {"mig", mg ? "1" : "0"}, {"home", str(nd)}, {"cur", str(cn)}, {"seq", str(id)}});
        ev("all").k("o", o).k("kind", "elm").raw("f", "[[\"ctl\",\"" + str(B::getControlBits(e.id)) + "\"],[\"mig\",\"" + (e.isMigratable() ? "1" : "0") + "\"],[\"home\",\"" + str(e.getHomeNode()) + "\"],[\"cur\",\"" + str(e.getCurrNode()) + "\"],[\"seq\",\"" + str(e.id >> 18) + "\"]]").put();
      } else if (w == 1) { ObjGroupProxyType px = objgroup::proxy::ObjGroupProxy::create(uint32_t(r.next()), nd, false); NodeType on = NodeType(r.next() & 0x7fff); auto e = B::createObjGroup(px, on);
        ObjGroupProxyType want = px; objgroup::proxy::ObjGroupProxy::setNode(want, 0); ObjGroupProxyType wantn = px; objgroup::proxy::ObjGroupProxy::setNode(wantn, on);
        made(o, {{"ctl", "0"}, {"mig", "0"}, {"home", str(on)}, {"cur", str(theContext()->getNode())}, {"px", str(want)}, {"pxn", str(wantn)}});
        ev("all").k("o", o).k("kind", "elm").raw("f", "[[\"ctl\",\"" + str(B::getControlBits(e.id)) + "\"],[\"mig\",\"" + (e.isMigratable() ? "1" : "0") + "\"],[\"home\",\"" + str(e.getHomeNode()) + "\"],[\"cur\",\"" + str(e.getCurrNode()) + "\"],[\"px\",\"" + str(B::getObjGroupProxy(e.id, false)) + "\"],[\"pxn\",\"" + str(B::getObjGroupProxy(e.id, true)) + "\"]]").put();
      } else { auto e = B::createBareHandler(nd);
        made(o, {{"ctl", "1"}, {"mig", "0"}, {"home", str(nd)}, {"cur", str(nd)}});
        ev("all").k("o", o).k("kind", "elm").raw("f", "[[\"ctl\",\"" + str(B::getControlBits(e.id)) + "\"],[\"mig\",\"" + (e.isMigratable() ? "1" : "0") + "\"],[\"home\",\"" + str(e.getHomeNode()) + "\"],[\"cur\",\"" + str(e.getCurrNode()) + "\"]]").put(); }
    } else if (kind == 6) {
      auto p = std::make_shared<HandlerType>(0); using B = HandlerManager; using RT = auto_registry::RegistryTypeEnum;
      std::vector<Field> f{{"id", [=](uint64_t v) { B::setHandlerIdentifier(*p, v); }, [=]{ return str(B::getHandlerIdentifier(*p)); }, int(handler_id_num_bits), false}, {"ctl", [=](uint64_t v) { B::setHandlerControl(*p, uint32_t(v)); }, [=]{ return str(B::getHandlerControl(*p)); }, 20, false},
        {"auto", [=](uint64_t v) { B::setHandlerAuto(*p, v); }, [=]{ return B::isHandlerAuto(*p) ? "1" : "0"; }, 1, false}, {"fun", [=](uint64_t v) { B::setHandlerFunctor(*p, v); }, [=]{ return B::isHandlerFunctor(*p) ? "1" : "0"; }, 1, false},
        {"base", [=](uint64_t v) { B::setHandlerBaseMsgDerived(*p, v); }, [=]{ return B::isHandlerBaseMsgDerived(*p) ? "1" : "0"; }, 1, false}, {"reg", [=](uint64_t v) { B::setHandlerRegistryType(*p, static_cast<RT>(v)); }, [=]{ return str(uint64_t(B::getHandlerRegistryType(*p))); }, 3, false}};
      bool fresh = r.pct(50);
      if (!fresh) { bool a = r.pct(50), b = r.pct(50), d = r.pct(50); uint64_t id = r.next() & ((1ull << int(handler_id_num_bits)) - 1); uint32_t ct = r.pct(40) ? 0 : uint32_t(r.next() & 0xfffff); int rt = r.in(0, 7);
        *p = B::makeHandler(a, b, id, static_cast<RT>(rt), ct, true, d); made(o, {{"id", str(id)}, {"ctl", str(ct)}, {"auto", a ? "1" : "0"}, {"fun", b ? "1" : "0"}, {"base", d ? "1" : "0"}, {"reg", str(uint64_t(rt))}}); }
      useFields(r, o, "handler", f, fresh);
    } else if (kind == 7) {
      auto p = std::make_shared<PriorityType>(0); std::vector<Field> f;
      for (int l = 0; l < int(sched::priority_num_levels); l++) f.push_back({"l" + std::to_string(l), [=](uint64_t v) { sched::PriorityManip::setPriority(*p, PriorityLevelType(l), PriorityType(v)); }, [=]{ return str(sched::PriorityManip::getPriority(*p, PriorityLevelType(l))); }, int(sched::priority_level_bits), false});
      useFields(r, o, "prio", f, true);
    } else if (kind == 8) {
      auto p = std::make_shared<uint64_t>(0); using B = BitPackerType; bool fresh = r.pct(50); if (!fresh) *p = ~0ull;   // arbitrary previous contents
      std::vector<Field> f; int at = 0; int nf = r.in(1, 6);
      for (int i = 0; i < nf && at < 64; i++) { int len = i == nf - 1 && r.pct(50) ? 64 - at : r.in(1, std::min(64 - at, 30)); int a = at; at += len + r.in(0, 2);
        f.push_back({"b" + std::to_string(i), [=](uint64_t v) { B::setFieldDynamic<uint64_t>(a, len, *p, v); }, [=]{ return str(B::getFieldDynamic<uint64_t>(a, len, *p)); }, len, false}); }
      useFields(r, o, "packer", f, true);
    } else if (kind == 9) {
      auto m = std::make_shared<EpochTagEnvelope>(); envelopeInitEmpty(*m); auto* E = m.get();
      struct Hold { std::shared_ptr<EpochTagEnvelope> m; }; (void)sizeof(Hold);
      made(o, {{"bcast", "0"}, {"term", "0"}, {"pipe", "0"}, {"put", "0"}, {"ref", sstr(not_shared_message)}, {"dest", sstr(uninitialized_destination)}, {"grp", str(default_group)}});
      std::vector<Field> f{{"dest", [=](uint64_t v) { envelopeSetDest(*E, NodeType(v)); }, [=]{ return sstr(envelopeGetDest(*E)); }, 16, true}, {"han", [=](uint64_t v) { envelopeSetHandler(*E, HandlerType(v)); }, [=]{ return str(uint64_t(envelopeGetHandler(*E))); }, 64, false},
        {"grp", [=](uint64_t v) { envelopeSetGroup(*E, v); }, [=]{ return str(envelopeGetGroup(*E)); }, 64, false}, {"ref", [=](uint64_t v) { envelopeSetRef(*E, RefType(v)); }, [=]{ return sstr(envelopeGetRef(*E)); }, 16, false},
        {"ep", [=](uint64_t v) { envelopeSetEpoch(*E, EpochType{v}); }, [=]{ return str(*envelopeGetEpoch(*E)); }, 64, false}, {"tag", [=](uint64_t v) { envelopeSetTag(*E, TagType(v)); }, [=]{ return str(uint64_t(envelopeGetTag(*E))); }, 31, false},
        {"prio", [=](uint64_t v) { envelopeSetPriority(*E, PriorityType(v)); }, [=]{ return str(envelopeGetPriority(*E)); }, 16, false},
        {"plev", [=](uint64_t v) { envelopeSetPriorityLevel(*E, PriorityLevelType(v)); }, [=]{ return str(envelopeGetPriorityLevel(*E)); }, 8, false},
        {"bcast", [=](uint64_t v) { if (v) setBroadcastType(*E); }, [=]{ return envelopeIsBcast(*E) ? "1" : "0"; }, 0, false}, {"term", [=](uint64_t v) { if (v) setTermType(*E); }, [=]{ return envelopeIsTerm(*E) ? "1" : "0"; }, 0, false},
        {"pipe", [=](uint64_t v) { if (v) setPipeType(*E); }, [=]{ return envelopeIsPipe(*E) ? "1" : "0"; }, 0, false}, {"put", [=](uint64_t v) { if (v) setPutType(*E); }, [=]{ return envelopeIsPut(*E) ? "1" : "0"; }, 0, false}};
      auto keepAlive = m;
      auto show = [&]{ std::string s = "["; for (auto& x : f) { if (s.size() > 1) s += ","; s += "[\"" + x.name + "\",\"" + x.get() + "\"]"; } ev("all").k("o", o).k("kind", "env").raw("f", s + "]").put(); };
      std::set<std::string> set{"bcast", "term", "pipe", "put", "ref", "dest", "grp"};
      for (auto& x : f) if (!set.count(x.name)) { uint64_t v = x.bits >= 64 ? r.next() : r.next() & ((1ull << x.bits) - 1); x.set(v); ev("set").k("o", o).k("k", x.name).k("v", str(v)).put(); }
      show(); int n = r.in(2, 10);
      for (int i = 0; i < n; i++) { auto& x = f[r.in(int(f.size()))]; uint64_t v = x.bits == 0 ? 1 : x.bits >= 64 ? r.next() : r.next() & ((1ull << (x.bits - (x.sgn ? 1 : 0))) - 1); x.set(v); ev("set").k("o", o).k("k", x.name).k("v", str(v)).put(); show(); }
    } else {
      auto p = std::make_shared<VirtualElmOnlyProxyType>(0); using B = vrt::collection::VirtualElemProxyBuilder;
      std::vector<Field> f{{"idx", [=](uint64_t v) { B::createElmProxy(*p, v); }, [=]{ return str(B::elmProxyGetIndex(*p)); }, int(vrt::collection::virtual_elm_index_num_bits) > 63 ? 63 : int(vrt::collection::virtual_elm_index_num_bits), false}};
      useFields(r, o, "elmproxy", f, true);
    }
  }
}
// ---------------------------------------------------------------- pipe
struct Sig { using DataType = int; };
using PSig = pipe::signal::Signal<int>;
struct Lis : pipe::callback::CallbackBase<PSig> {
  int id; Lis(int i, bool persist, int16_t n) : pipe::callback::CallbackBase<PSig>(pipe::callback::CallbackExplicitTag, persist, n), id(i) {}
  ~Lis() override { ev("gone").k("l", id).put(); }
  void trigger_(int* d) override { ev("trig").k("l", id).k("d", *d).k("p", -1).put(); }
  void trigger_(int* d, PipeType const& p) override { ev("trig").k("l", id).k("d", *d).k("p", S64(p)).put(); }
};
static void pipe_(Case& c) {
  Rng& r = c.rng; { pipe::signal::SignalHolder<PSig> h; int n = r.in(10, 60), nl = 0, nd = 0; std::map<int, std::vector<Lis*>> ls;
  std::map<int, std::unique_ptr<pipe::PipeState>> st; std::map<int, int> ex;
  for (int i = 0; i < n; i++) {
    int p = r.in(4), k = r.in(100);
    if (k < 35) { bool pers = r.pct(25); int16_t refs = int16_t(r.in(1, 4)); int id = nl++; ev("listen").k("l", id).k("p", p).k("pers", pers).k("n", refs).put(); h.addListener(PipeType(p), std::make_unique<Lis>(id, pers, refs)); }
    else if (k < 75) { bool e = h.exists(PipeType(p)); ev("exists").k("p", p).k("yes", e).put(); if (e) { int d = ++nd; ev("sig").k("p", p).k("d", d).put(); h.deliverAll(PipeType(p), &d); ev("sigend").k("p", p).put(); } }
    else if (k < 80) { ev("clear").k("p", p).put(); h.clearPipe(PipeType(p)); ev("clrend").k("p", p).put(); }
    else if (k < 86) { int v = r.in(0, 50); ev("setc").k("p", p).k("v", v).put(); h.setCount(PipeType(p), v); }
    else if (k < 91) ev("getc").k("p", p).k("v", h.getCount(PipeType(p))).put();
    else {
      // automatic pipe state: finished exactly when every listener of every signal was seen
      if (!st.count(p)) { int a = r.in(1, 3); ev("pstate").k("p", p).k("s", a).k("l", 1).put(); st[p] = std::make_unique<pipe::PipeState>(PipeType(p), int16_t(a), int16_t(1)); st[p]->listenerReg(); }
      else { ev("pfin").k("p", p).k("yes", st[p]->finished()).k("ref", st[p]->refsPerListener()).k("auto", st[p]->isAutomatic()).put(); if (!st[p]->finished()) { ev("psig").k("p", p).put(); st[p]->signalRecv(); } }
    }
  }
  ev("over").put(); }
}
// ---------------------------------------------------------------- timer
static void timer_(Case& c) {
  Rng& r = c.rng; timetrigger::TimeTriggerManager m; int now = r.in(1, 1000); int n = r.in(10, 70); std::vector<int> ids; static int cnt; cnt = 0;
  auto t = [&](int ms) { return TimeType{double(ms) / 1000.0}; };
  for (int i = 0; i < n; i++) {
    int k = r.in(100);
    if (k < 20 && ids.size() < 8) {
      int per = r.of<int>({1, 5, 10, 10, 37, 100, 500}); bool im = r.pct(30); int tag = cnt++; int selfdel = r.pct(20) ? r.in(1, 3) : -1; auto left = std::make_shared<int>(selfdel); auto idp = std::make_shared<int>(-1);
      ev("add").k("t", tag).k("per", per).k("now", now).k("im", im).put();
      int id = m.addTrigger(t(now), std::chrono::milliseconds(per), [tag, left, idp, &m]{ ev("fire").k("t", tag).put(); if (*left > 0 && --*left == 0 && *idp >= 0) { ev("rem").k("t", tag).put(); m.removeTrigger(*idp); } }, im);
      *idp = id; for (int x : ids) if (x == id) ev("dupid").put();
      ids.push_back(id); ev("added").k("t", tag).k("id", id).k("need", m.needsCurrentTime()).put();
    } else if (k < 27 && ids.size()) { int j = r.in(int(ids.size())); ev("remid").k("id", ids[j]).put(); m.removeTrigger(ids[j]); }
    else { now += r.of<int>({0, 1, 3, 8, 20, 60, 200}); ev("prog").k("now", now).put(); m.progress(t(now)); ev("idle").put(); }
  }
}
// ---------------------------------------------------------------- ult
static void ult_(Case& c) {
  Rng& r = c.rng; sched::ThreadManager m; int n = r.in(8, 50); struct T { ThreadIDType id; int steps; bool dead; sched::ThreadAction* p; }; static std::vector<T> ts; ts.clear(); ts.reserve(64);
  std::function<ThreadIDType(int, bool)> spawn;
  auto body = [&](int tag, int steps, uint64_t s) {
    return [&, tag, steps, s]{
      Rng q(s); volatile long loc = long(s & 0xffff);
      for (int i = 0; i < steps; i++) {
        ev("step").k("t", tag).k("i", i).k("tid", S64(sched::ThreadAction::getActiveThreadID())).k("act", sched::ThreadAction::isThreadActive()).k("loc", loc == long(s & 0xffff)).put();
        if (q.pct(15) && ts.size() < 12) spawn(q.in(0, 3), q.pct(50));
        ev("susp").k("t", tag).put(); sched::ThreadAction::suspend(); ev("back").k("t", tag).k("tid", S64(sched::ThreadAction::getActiveThreadID())).put();
      }
      ev("fin").k("t", tag).k("loc", loc == long(s & 0xffff)).put();
    };
  };
  spawn = [&](int steps, bool run) {
    int tag = int(ts.size()); ts.push_back({0, steps, false, nullptr}); uint64_t s = r.next(); ThreadIDType id;
    ev("spawn").k("t", tag).k("steps", steps).k("run", run).put();
    id = run ? m.allocateThreadRun(body(tag, steps, s), size_t(1 << 16)) : m.allocateThread(body(tag, steps, s), size_t(1 << 16));
    ts[size_t(tag)].id = id; ts[size_t(tag)].p = m.getThread(id); if (!run) { ev("ctl").k("t", tag).put(); ts[size_t(tag)].p->run(); }
    ev("ret").k("t", tag).k("id", S64(id)).k("done", m.getThread(id)->isDone()).k("act", sched::ThreadAction::isThreadActive()).put(); return id;
  };
  for (int i = 0; i < n; i++) {
    int k = r.in(100);
    if (k < 30 && ts.size() < 8) spawn(r.in(0, 4), r.pct(60));
    else if (ts.size()) {
      int j = r.in(int(ts.size())); auto& t = ts[size_t(j)]; if (t.dead) { ev("look").k("t", j).k("found", m.getThread(t.id) != nullptr).put(); continue; }
      auto p = m.getThread(t.id); ev("look").k("t", j).k("found", p == t.p).put();
      if (p->isDone() && r.pct(50)) { ev("free").k("t", j).put(); m.deallocateThread(t.id); t.dead = true; }
      else { ev("resume").k("t", j).put(); if (r.pct(90)) p->resume(); else { while (!p->isDone()) p->resume(); } ev("ret").k("t", j).k("id", S64(t.id)).k("done", m.getThread(t.id)->isDone()).k("act", sched::ThreadAction::isThreadActive()).put(); }
    }
  }
}
// ---------------------------------------------------------------- index
template <typename Idx> static std::vector<S64> dimsOf(Idx const& i, int nd) { std::vector<S64> v; for (int d = 0; d < nd; d++) v.push_back(S64(i[d])); return v; }
template <int nd, typename MapB, typename MapR> static void idxRun(Rng& r, MapB mb, MapR mr) {
  using Idx = index::DenseIndexArray<int32_t, nd>; int nodes = r.of<int>({1, 2, 3, 4, 5, 7, 8, 16}); Idx mx; int lim = nd == 1 ? 60 : nd == 2 ? 9 : 4;
  for (int d = 0; d < nd; d++) mx[d] = r.in(1, lim);
  ev("dims").k("nd", nd).arr("d", dimsOf(mx, nd)).k("nodes", nodes).k("size", S64(mx.getSize())).put();
  std::map<uint64_t, int> bits; Idx prev; bool first = true; std::vector<Idx> all;
  mx.foreach([&](Idx i) {
    Idx a = i, b = mx; using Lin = int32_t;
    S64 cm = mapping::linearizeDenseIndexColMajor<Lin, nd>(&a, &b), rm = mapping::linearizeDenseIndexRowMajor<Lin, nd>(&a, &b);
    auto ub = i.uniqueBits(); Idx back = Idx::uniqueBitsToIndex(ub); bool dup = bits.count(ub) > 0; bits[ub] = 1;
    ev("elt").arr("i", dimsOf(i, nd)).k("cm", cm).k("rm", rm).k("blk", S64(mb(&a, &b, NodeType(nodes)))).k("rr", S64(mr(&a, &b, NodeType(nodes)))).k("dup", dup).arr("back", dimsOf(back, nd))
      .k("lt", first ? false : prev < i).k("gt", first ? false : i < prev).k("eq", first ? false : prev == i).k("heq", std::hash<Idx>()(i) == std::hash<Idx>()(back)).put();
    prev = i; first = false; all.push_back(i);
  });
  ev("done").k("n", S64(all.size())).put();
  for (int q = 0; q < 6 && all.size() > 1; q++) { Idx a = r.of(all), b = r.of(all); ev("cmp").arr("a", dimsOf(a, nd)).arr("b", dimsOf(b, nd)).k("lt", a < b).k("gt", b < a).k("eq", a == b).arr("sum", dimsOf(a + b, nd)).arr("diff", dimsOf(a - b, nd)).put(); }
}
static void index_(Case& c) {
  Rng& r = c.rng; int k = r.in(4); using namespace vt::mapping;
  if (k == 0) idxRun<1>(r, [](auto* a, auto* b, NodeType n) { return dense1DBlockMap<int32_t>(a, b, n); }, [](auto* a, auto* b, NodeType n) { return dense1DRoundRobinMap<int32_t>(a, b, n); });
  else if (k == 1) idxRun<2>(r, [](auto* a, auto* b, NodeType n) { return dense2DBlockMap<int32_t>(a, b, n); }, [](auto* a, auto* b, NodeType n) { return dense2DRoundRobinMap<int32_t>(a, b, n); });
  else if (k == 2) idxRun<3>(r, [](auto* a, auto* b, NodeType n) { return dense3DBlockMap<int32_t>(a, b, n); }, [](auto* a, auto* b, NodeType n) { return dense3DRoundRobinMap<int32_t>(a, b, n); });
  else idxRun<4>(r, [](auto* a, auto* b, NodeType n) { return denseNDBlockMap<int32_t, 4>(a, b, n); }, [](auto* a, auto* b, NodeType n) { return denseNDRoundRobinMap<int32_t, 4>(a, b, n); });
}
// ---------------------------------------------------------------- lbdata
struct LBD : elm::ElementLBData { void release(PhaseType p, unsigned b) { releaseLBDataFromUnneededPhases(p, b); } };
static void lbdata_(Case& c) {
  Rng& r = c.rng; LBD d; int n = r.in(15, 80); double t = 0; int ph = 0;
  auto elm = [&](int i) { return elm::ElementIDStruct{elm::ElementIDType(i * 4 + 3), NodeType(i % 3)}; };
  auto look = [&](int p) {
    std::vector<S64> st; for (auto v : d.getSubphaseTimes(PhaseType(p))) st.push_back(S64(llround(v * 1000)));
    S64 by = 0, ms = 0; for (auto& x : d.getComm(PhaseType(p))) { by += S64(llround(x.second.bytes)); ms += S64(x.second.messages); }
    std::string sb = "["; for (auto& m : d.getSubphaseComm(PhaseType(p))) { S64 b = 0; for (auto& x : m) b += S64(llround(x.second.bytes)); if (sb.size() > 1) sb += ","; sb += std::to_string(b); }
    std::vector<S64> one; for (size_t q = 0; q < st.size(); q++) one.push_back(S64(llround(d.getLoad(PhaseType(p), SubphaseType(q)) * 1000)));
    ev("phase").arr("one", one).k("all", S64(llround(d.getLoad(PhaseType(p), elm::ElementLBData::no_subphase) * 1000))).k("p", p).k("load", S64(llround(d.getLoad(PhaseType(p)) * 1000))).arr("sub", st).k("bytes", by).k("msgs", ms).raw("sb", sb + "]").k("keys", S64(d.getComm(PhaseType(p)).size())).put();
  };
  bool run = false;
  for (int i = 0; i < n; i++) {
    int k = r.in(100);
    if (k < 15 && !run) { ev("start").put(); d.start(TimeType{t}); run = true; }
    else if (k < 35 && run) { int ms = r.pct(15) ? 0 : r.in(1, 50); t += ms / 1000.0; ev("stop").k("ms", ms).put(); d.stop(TimeType{t}); run = false; t += r.in(0, 9) / 1000.0; }
    else if (k < 37) { std::vector<LoadType> sl; std::vector<int> ms; int tot = 0, ns = r.in(0, 4); for (int q = 0; q < ns; q++) { int v = r.in(0, 30); ms.push_back(v); tot += v; sl.push_back(v / 1000.0); } ev("settime").k("ms", tot).arr("sub", ms).put(); d.setTime(tot / 1000.0, sl); }
    else if (k < 40) { if (!run) { ev("stray").put(); d.stop(TimeType{t}); } }
    else if (k < 55) { int b = r.in(1, 100), from = r.in(3), to = r.in(3), w = r.in(7); bool bc = r.pct(30);
      ev("comm").k("b", b).raw("key", "[" + std::to_string(w) + "," + std::to_string(from) + "," + std::to_string(to) + "," + (bc && w >= 1 && w <= 3 ? "1" : "0") + "]").put();
      if (w == 0) d.sendToEntity(elm(to), elm(from), b); else if (w == 1) d.recvObjData(elm(to), elm(from), b, bc); else if (w == 2) d.recvFromNode(elm(to), NodeType(from), b, bc); else if (w == 3) d.recvToNode(NodeType(to), elm(from), b, bc);
      else if (w == 4) d.addWritableSharedID(NodeType(from), to, b); else if (w == 5) d.addReadOnlySharedID(NodeType(from), to, b); else d.sendComm(elm::CommKey(elm::CommKey::NodeToCollectionTag{}, NodeType(from), elm(to), false), b); }
    else if (k < 68) { int s = r.in(0, 4); ev("sub").k("s", s).put(); d.setSubPhase(SubphaseType(s)); ev("cur").k("p", S64(d.getPhase())).k("s", S64(d.getSubPhase())).put(); }
    else if (k < 76) { int inc = r.pct(80) ? 1 : 2; ev("next").k("by", inc).put(); d.updatePhase(PhaseType(inc)); ph += inc; ev("cur").k("p", S64(d.getPhase())).k("s", S64(d.getSubPhase())).put(); }
    else if (k < 80) { int lb = r.in(1, 3); ev("rel").k("p", ph).k("lb", lb).put(); d.release(PhaseType(ph), unsigned(lb)); }
    else look(r.in(std::max(0, ph - 3), ph));
  }
  for (int p = 0; p <= ph; p++) look(p);
}
// ---------------------------------------------------------------- util
static void util_(Case& c) {
  Rng& r = c.rng; int k = r.in(3);
  if (k == 0) {
    util::container::CircularBuffer<int, 5> b; int n = r.in(10, 80), next = 0; ev("circ").k("cap", 4).put();
    for (int i = 0; i < n; i++) {
      int q = r.in(100);
      if (q < 45 && !b.full()) { int v = next++; if (q < 15) b.push(v); else if (q < 30) { int const w = v; b.push(w); } else b.emplace(v); ev("push").k("v", v).put(); }
      else if (q < 80 && !b.empty()) ev("pop").k("v", b.pop()).put();
      else ev("cst").k("size", b.size()).k("free", b.numFree()).k("full", b.full()).k("empty", b.empty()).put();
    }
  } else if (k == 1) {
    int lo = r.in(0, 5), hi = lo + r.in(0, 6); adt::RangedCounter<int> ctr(lo, hi); ev("ctr").k("lo", lo).k("hi", hi).k("v", ctr.get()).put(); int n = r.in(5, 50);
    for (int i = 0; i < n; i++) { int q = r.in(4); if (q == 0) { auto x = ++ctr; ev("inc").k("ret", int(x)).k("v", ctr.get()).k("post", false).put(); } else if (q == 1) { auto x = ctr++; ev("inc").k("ret", int(x)).k("v", ctr.get()).k("post", true).put(); }
      else if (q == 2) { auto x = --ctr; ev("dec").k("ret", int(x)).k("v", ctr.get()).k("post", false).put(); } else { auto x = ctr--; ev("dec").k("ret", int(x)).k("v", ctr.get()).k("post", true).put(); } }
  } else {
    int mx = r.of<int>({1, 2, 3, 5, 8, 30}); using H = adt::HistogramApprox<double, int64_t>; std::map<int, H> hs; hs.emplace(0, H(mx)); hs.emplace(1, H(r.of<int>({1, 3, 8}))); int n = r.in(5, 60), span = r.of<int>({3, 20, 1000});
    ev("hist").k("m0", mx).k("m1", S64(hs.at(1).getMaxCentroids())).put();
    for (int i = 0; i < n; i++) {
      int w = r.in(2); auto& h = hs.at(w); int q = r.in(100);
      if (q < 55) { int v = r.in(-span, span), t = r.pct(70) ? 1 : r.in(2, 5); h.add(v, t); ev("hadd").k("h", w).k("v", v).k("n", t).put(); }
      else if (q < 62) { ev("merge").k("h", w).k("o", 1 - w).put(); H copy = hs.at(1 - w); h.mergeIn(copy); }
      else if (q < 80) { if (h.getCount() > 0) { int v = r.in(-span - 1, span + 1); ev("est").k("h", w).k("v", v).k("n", S64(llround(h.estimateNumValues(v)))).put(); } }
      else { S64 tot = 0; std::vector<S64> vals; for (auto& x : h.getCentroids()) { tot += x.getCount(); vals.push_back(S64(std::floor(x.getValue() * 100))); }
        ev("hst").k("h", w).k("count", S64(h.getCount())).k("cs", S64(h.getNumCentroids())).k("tot", tot).arr("vals", vals).k("min", h.getCount() ? S64(h.getMin()) : 0).k("max", h.getCount() ? S64(h.getMax()) : 0).k("cap", S64(h.getMaxCentroids())).put(); }
    }
  }
}
static std::string mode;
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return drv::main(argc, argv, [](Case& c) { c.nranks = 1; c.params = "{\"mode\":\"" + mode + "\"}"; },
    [](Case& c, int) {
      withVt(c, [&]{
        if (mode == "iset") iset(c); else if (mode == "ewin") ewin(c); else if (mode == "region") region_(c); else if (mode == "pool") pool_(c);
        else if (mode == "bits") bits_(c); else if (mode == "pipe") pipe_(c); else if (mode == "timer") timer_(c); else if (mode == "ult") ult_(c);
        else if (mode == "index") index_(c); else if (mode == "lbdata") lbdata_(c); else if (mode == "util") util_(c);
      });
    });
}
