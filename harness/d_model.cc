// Load models: what they predict from recorded loads.
#include "drv.h"
#include <vt/vrt/collection/balance/model/raw_data.h>
#include <vt/vrt/collection/balance/model/naive_persistence.h>
#include <vt/vrt/collection/balance/model/persistence_median_last_n.h>
#include <vt/vrt/collection/balance/model/linear_model.h>
#include <vt/vrt/collection/balance/model/norm.h>
#include <vt/vrt/collection/balance/model/multiple_phases.h>
#include <vt/vrt/collection/balance/model/select_subphases.h>
#include <vt/vrt/collection/balance/model/comm_overhead.h>
#include <vt/vrt/collection/balance/model/weighted_messages.h>
#include <vt/vrt/collection/balance/model/weighted_communication_volume.h>
#include <vt/vrt/collection/balance/model/per_collection.h>
#include <vt/vrt/collection/balance/model/proposed_reassignment.h>
#include <vt/vrt/collection/balance/node_lb_data.h>
#include <vt/elm/elm_id_bits.h>
#include <cmath>
#include <limits>
#include <map>
#include <set>
using namespace vt; using namespace drv;
using namespace vt::vrt::collection::balance;
using Model = std::shared_ptr<LoadModel>;

static void body(Case& c, int) {
  withVt(c, [&] {
    Rng& r = c.rng; int const K = r.in(2, 6), P = r.in(1, 6), S = r.in(0, 3), NC = 2;
    std::vector<elm::ElementIDStruct> id; std::vector<int> coll; std::map<elm::ElementIDStruct, int> no;
    for (int o = 0; o < K + 2; o++) {   // the last two are elsewhere
      id.push_back(elm::ElmIDBits::createCollectionImpl(true, elm::ElementIDType(o + 1), NodeType(0), NodeType(r.in(2)))); no[id.back()] = o;
      coll.push_back(r.in(NC + 1)); auto col = coll.back();
      if (col > 0) theNodeLBData()->registerCollectionInfo(id.back(), VirtualProxyType(col), {uint64_t(o)}, [](NodeType) { });
      ev("obj").k("o", o).k("c", col).put();
    }
    auto amount = [&] { return 64 * r.in(0, 20); };
    std::unordered_map<PhaseType, LoadMapType> load; std::unordered_map<PhaseType, CommMapType> comm; std::unordered_map<PhaseType, DataMapType> user;
    for (int p = 0; p < P; p++) {
      load[PhaseType(p)]; comm[PhaseType(p)];
      for (int o = 0; o < K; o++) if (o == 0 || r.pct(80)) {
        LoadSummary s; int w = amount(); s.whole_phase_load = w; std::vector<int> subs; for (int i = 0; i < S; i++) { subs.push_back(amount()); s.subphase_loads.push_back(subs.back()); }
        load[PhaseType(p)][id[size_t(o)]] = s; ev("load").k("p", p).k("o", o).k("w", w).arr("s", subs).put();
      }
      std::set<std::tuple<int, int, int>> have;
      for (int k = r.in(0, 12); k > 0; k--) {
        int cat = r.in(4), f = r.in(K + 2), t = r.in(K + 2), m = r.in(1, 5), b = r.in(0, 40);
        if (!have.insert({cat, f, t}).second) continue;
        elm::CommKey key = cat == 0 || cat == 1 ? elm::CommKey(elm::CommKey::SendRecvTag{}, id[size_t(f)], id[size_t(t)], cat == 1) : cat == 2 ? elm::CommKey(elm::CommKey::CollectionToNodeTag{}, id[size_t(f)], NodeType(t % 2), false) : elm::CommKey(elm::CommKey::NodeToCollectionTag{}, NodeType(f % 2), id[size_t(t)], false);
        if (comm[PhaseType(p)].count(key)) continue;
        int from = int(id[size_t(f)].curr_node), to = int(id[size_t(t)].curr_node);
        bool off = cat == 1 || (cat == 2 ? from != t % 2 : cat == 3 ? to != f % 2 : from != to);
        auto& v = comm[PhaseType(p)][key]; v.messages = uint64_t(m); v.bytes = b;
        ev("comm").k("p", p).k("one", cat == 0).k("f", cat == 3 ? -1 : f).k("t", cat == 2 ? -1 : t).k("off", off).k("m", m).k("b", b).put();
      }
    }
    for (int rounds = r.in(1, 4); rounds > 0; rounds--) {
      int subs = S; bool fut = false, whole = false, top = false, moved = false; std::set<int> gone, come; int last = r.in(P);
      auto one = [&](char const* k, int n) { ev("model").k("k", k).k("n", n).put(); };
      auto raw = [&] { one("raw", 0); subs = S; return Model(std::make_shared<RawData>()); };
      auto persist = [&](Model m) -> Model {
        fut = true;
        if (r.pct(50)) { one("naive", 0); return std::make_shared<NaivePersistence>(m); }
        int n = r.in(1, 5); one("median", n); return std::make_shared<PersistenceMedianLastN>(m, unsigned(n));
      };
      auto many = [&](Model m) -> Model { int n = r.in(1, 3); one("many", n); return std::make_shared<MultiplePhases>(m, n); };
      std::map<int, Model> kept; bool per = r.pct(25);
      if (per) for (int col = 1; col <= NC; col++) if (r.pct(60)) { auto m = persist(raw()); if (r.pct(30)) m = many(m); kept[col] = m; ev("keep").k("x", col).put(); }
      fut = false; Model m = raw(); int how = r.in(4);
      if (how == 0) { int a = 64 * r.in(4), b = 64 * r.in(4); whole = true; ev("model").k("k", "over").k("m", a).k("b", b).put(); m = std::make_shared<CommOverhead>(m, a, b); }
      else if (how == 1) {
        whole = true; int a = 64 * r.in(4), b = 64 * r.in(4); ev("model").k("k", "wmsg").k("m", a).k("b", b).put(); m = std::make_shared<WeightedMessages>(m, a, b);
        if (r.pct(70)) { int x = r.in(3), y = r.in(3), z = 64 * r.in(10); ev("model").k("k", "vol").k("a", x).k("b", y).k("g", z).put(); m = std::make_shared<WeightedCommunicationVolume>(m, x, y, z); }
      }
      if (per) fut = true;
      if (per || r.pct(80)) m = persist(m);
      if (per) { one("coll", 0); auto pc = std::make_shared<PerCollection>(m); for (auto& [col, x] : kept) pc->addModel(VirtualProxyType(col), x); m = pc; }
      for (int k = r.in(4); k > 0 && !top; k--) {
        int x = r.in(6);
        if (x == 0 && fut) m = many(m);
        else if (x == 1 && !whole && subs > 0) {
          std::vector<unsigned> s; std::vector<int> si; for (int i = r.in(1, 3); i > 0; i--) { si.push_back(r.in(subs)); s.push_back(unsigned(si.back())); }
          ev("model").k("k", "sub").arr("s", si).put(); subs = int(s.size()); m = std::make_shared<SelectSubphases>(m, s);
        }
        else if (x == 2 && !whole) { int p = r.in(3); top = p == 2; one("norm", p); m = std::make_shared<Norm>(m, p == 0 ? std::numeric_limits<double>::infinity() : double(p)); }
        else if (x == 3) m = persist(m);
        else if (x == 4 && last >= 1) { int n = r.in(2, 5); one("line", n); m = std::make_shared<LinearModel>(m, unsigned(n)); fut = top = true; }
        else if (x == 5 && !moved) {
          auto re = std::make_shared<Reassignment>(); re->node_ = theContext()->getNode(); moved = true;
          auto summary = [&](std::vector<int>& v) { LoadSummary s; v.push_back(amount()); s.whole_phase_load = v[0]; for (int i = 0; i < subs; i++) { v.push_back(amount()); s.subphase_loads.push_back(v.back()); } return s; };
          for (int o = 0; o < K + 2; o++) {
            bool here = load[PhaseType(last)].count(id[size_t(o)]), dep = here && o > 0 && r.pct(25);
            if (dep) { re->depart_[id[size_t(o)]] = 1; gone.insert(o); }
            if ((dep || !here) && r.pct(40)) {
              std::vector<int> a, b; auto x1 = summary(a); auto x2 = summary(b); come.insert(o);
              re->arrive_[id[size_t(o)]] = std::make_tuple(x1, x2, ElmUserDataType{}); ev("come").k("o", o).arr("a", a).arr("b", b).put();
            }
          }
          ev("model").k("k", "reas").arr("s", gone).put(); m = std::make_shared<ProposedReassignment>(m, re);
        }
      }
      m->setLoads(&load, &comm, &user);
      for (int up = moved ? 1 : r.in(1, 3); up > 0; up--) {
        if (!moved) { last = r.in(last, P - 1); }
        m->updateLoads(PhaseType(last)); ev("upd").k("p", last).put();
        std::set<int> objs; for (auto it = m->begin(); it.isValid(); ++it) objs.insert(no[*it]);
        int count = 0; for (auto it = m->begin(); it.isValid(); ++it) count++;
        ev("objs").arr("v", objs).k("n", m->getNumObjects()).k("cnt", count).k("phs", int(m->getNumCompletedPhases())).k("sub", m->getNumSubphases()).put();
        int lb = r.in(5); ev("need").k("x", lb).k("v", int(m->getNumPastPhasesNeeded(unsigned(lb)))).put();
        for (int q = r.in(2, 12); q > 0; q--) {
          int o = r.in(K + 2), ph = fut && r.pct(60) ? r.in(3) : -r.in(1, last + 1), s = whole || subs == 0 || r.pct(50) ? -1 : r.in(subs);
          if (gone.count(o) && !come.count(o)) continue;
          if (o >= K && !come.count(o) && r.pct(80)) continue;
          PhaseOffset w{ph, s == -1 ? PhaseOffset::WHOLE_PHASE : unsigned(s)}; double v = m->getModeledLoad(id[size_t(o)], w);
          ev("q").k("o", o).k("ph", ph).k("s", s).k("v", int(std::llround(v))).k("x", std::fabs(v - double(std::llround(v))) < 1e-9).put();
          if (r.pct(30) && (ph < 0 || !whole)) { double u = m->getModeledComm(id[size_t(o)], w); ev("qc").k("o", o).k("ph", ph).k("s", s).k("v", int(std::llround(u))).k("x", std::fabs(u - double(std::llround(u))) < 1e-9).put(); }
          if (r.pct(30) && ph < 0) { double u = m->getRawLoad(id[size_t(o)], PhaseOffset{ph, PhaseOffset::WHOLE_PHASE}); ev("qr").k("o", o).k("ph", ph).k("v", int(std::llround(u))).put(); }
        }
      }
      ev("drop").put();
    }
    ev("fini").put();
  });
}
static void setup(Case& c) { c.nranks = 1; }
int main(int argc, char** argv) { return drv::main(argc, argv, setup, body); }
