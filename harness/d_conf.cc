// What surrounds a program: how the runtime starts and ends, and how it is
// configured.   --mode comp|args|life
#include "drv.h"
#include <vt/runtime/component/component_pack.h>
#include <vt/configs/arguments/args.h>
#include <vt/messaging/async_op_mpi.h>
#include <map>
#include <set>
#include <fstream>
using namespace vt; using namespace drv;
static std::string mode = "comp";
static int me() { return theContext()->getNode(); }
static int nn() { return theContext()->getNumNodes(); }

//---------------------------------------------------------------- components
namespace co {
using namespace vt::runtime::component;
constexpr int K = 10;
static bool poll_[K]; static int work_[K];
template <int I> struct Comp : Component<Comp<I>> {
  static Comp* ref; long cookie = 77 + I; int arg; std::unique_ptr<int> owned;
  Comp(int a, std::unique_ptr<int> o) : arg(a), owned(std::move(o)) { ev("ctor").k("x", I).k("ok", a == I * 3 && owned && *owned == I).put(); }
  ~Comp() { cookie = 0; ev("dtor").k("x", I).put(); }
  std::string name() override { return "C" + std::to_string(I); }
  bool pollable() override { return poll_[I]; }
  void initialize() override { ev("init").k("x", I).k("ref", ref == this).put(); }
  void startup() override { ev("start").k("x", I).put(); }
  void finalize() override { ev("fin").k("x", I).put(); }
  int progress(TimeType) override { ev("prog").k("x", I).k("v", work_[I]).put(); return work_[I]; }
};
template <int I> Comp<I>* Comp<I>::ref = nullptr;
template <int... I> static void forAll(std::integer_sequence<int, I...>, int which, std::function<void(int)> const&, ComponentPack& p, int what, std::vector<std::unique_ptr<BaseComponent>>* out) {
  auto one = [&](auto ic) {
    constexpr int X = decltype(ic)::value; if (X != which) return;
    if (what == 0) p.registerComponent<Comp<X>>(&Comp<X>::ref, BaseComponent::StartupDepsPack<>{}, BaseComponent::RuntimeDepsPack<>{}, int(X * 3), std::make_unique<int>(X));
    else if (what == 1) p.add<Comp<X>>();
    else if (what == 2) { auto c = p.extractComponent<Comp<X>>("C" + std::to_string(X)); ev("ext").k("x", X).k("v", c != nullptr).put(); if (c) out->push_back(std::move(c)); }
  };
  (one(std::integral_constant<int, I>{}), ...);
}
static void on(ComponentPack& p, int which, int what, std::vector<std::unique_ptr<BaseComponent>>* out = nullptr) { forAll(std::make_integer_sequence<int, K>{}, which, {}, p, what, out); }
template <int J, int... I> static void edge2(std::integer_sequence<int, I...>, int i, bool s) { ((i == I ? ComponentRegistry::dependsOn<Comp<I>, Comp<J>>(s) : void()), ...); }
template <int... J> static void edge1(std::integer_sequence<int, J...>, int i, int j, bool s) { ((j == J ? edge2<J>(std::make_integer_sequence<int, K>{}, i, s) : void()), ...); }
static void edge(int i, int j, bool s) { edge1(std::make_integer_sequence<int, K>{}, i, j, s); }
static void body(Case& c) {
  Rng& r = c.rng; int n = r.in(2, K);
  std::vector<int> perm; for (int i = 0; i < K; i++) perm.push_back(i);
  for (int i = K - 1; i > 0; i--) std::swap(perm[size_t(i)], perm[size_t(r.in(i + 1))]);
  perm.resize(size_t(n));   // a component may need those before it in perm to start
  { ComponentPack p; std::vector<std::unique_ptr<BaseComponent>> out;
    int dens = r.of<int>({5, 20, 50}); std::vector<int> order = perm;
    for (int i = n - 1; i > 0; i--) std::swap(order[size_t(i)], order[size_t(r.in(i + 1))]);
    for (int x : order) {
      size_t at = size_t(std::find(perm.begin(), perm.end(), x) - perm.begin());
      std::set<int> s, q; for (size_t k = 0; k < at; k++) if (r.pct(dens)) s.insert(perm[k]);
      for (int y : perm) if (y != x && r.pct(8)) q.insert(y);
      poll_[x] = r.pct(50); work_[x] = r.in(4);
      on(p, x, 0); for (int y : s) edge(x, y, true); for (int y : q) edge(x, y, false);
      ev("reg").k("x", x).arr("s", s).arr("q", q).k("poll", poll_[x]).put();
    }
    for (int x : order) if (r.pct(50)) { ev("add").k("x", x).put(); on(p, x, 1); }
    ev("go").k("live", p.isLive()).put(); p.construct(); ev("made").k("live", p.isLive()).put();
    std::set<int> got; p.foreach([&](BaseComponent* b) { got.insert(std::stoi(b->name().substr(1))); }); ev("each").arr("v", got).put();
    for (int k = r.in(4); k > 0; k--) { ev("pr").put(); int t = p.progress(TimeType{0}); ev("tot").k("v", t).put(); }
    if (r.pct(30)) for (int k = r.in(1, 2); k > 0; k--) on(p, r.of(order), 2, &out);
    if (r.pct(60)) { ev("stop").put(); p.destruct(); ev("gone").k("live", p.isLive()).put(); } else { ev("stop").put(); }
    if (r.pct(50)) out.clear(); else { ev("leave").put(); }
  }
  ev("fini").put();
}
}

//--------------------------------------------------------------------- options
namespace ar {
using Config = arguments::AppConfig;
struct Opt { char const* field; char const* cli; std::string group, label; int kind; bool bare; std::function<int(Config const&)> get; std::function<void(Config&, int)> set; };
enum { BOOL, NUM, REAL, STR };
static int const MAXV = 6;
static std::string word(int v) { static char const* w[] = {"", "alpha", "beta/gamma", "d-1", "x.y", "q"}; return v < MAXV ? w[v] : "?"; }
template <class F> static Opt make(char const* f, char const* c, char const* g, char const* l, F Config::*m) {
  Opt o{f, c, g, l, std::is_same_v<F, bool> ? BOOL : std::is_same_v<F, std::string> ? STR : std::is_floating_point_v<F> ? REAL : NUM, false, {}, {}};
  o.bare = o.kind == BOOL && std::string(f) != "vt_print_no_progress" && std::string(f) != "vt_epoch_graph_on_hang";
  o.get = [m](Config const& x) -> int {
    if constexpr (std::is_same_v<F, std::string>) { for (int v = 0; v < MAXV; v++) if (word(v) == x.*m) return v; return 1000 + int(std::hash<std::string>{}(x.*m) % 100000); }
    else if constexpr (std::is_floating_point_v<F>) return int(x.*m * 4);
    else return int(static_cast<long long>(x.*m) % 1000000007);
  };
  o.set = [m](Config& x, int v) { if constexpr (std::is_same_v<F, std::string>) x.*m = word(v); else if constexpr (std::is_floating_point_v<F>) x.*m = v / 4.0; else x.*m = F(v); };
  return o;
}
static std::vector<Opt> table() {
  std::vector<Opt> v;
#define X(f, c, g, l) v.push_back(make(#f, c, g, l, &Config::f));
#include "options.inc"
#undef X
  return v;
}
static std::string text(Opt const& o, int v, bool quote) {
  if (o.kind == BOOL) return v ? "true" : "false";
  if (o.kind == STR) return quote ? "\"" + word(v) + "\"" : word(v);
  if (o.kind == REAL) { char b[32]; snprintf(b, 32, "%.2f", v / 4.0); return b; }
  return std::to_string(v);
}
static int value(Rng& r, Opt const& o) { return o.kind == BOOL ? r.in(2) : o.kind == STR ? r.in(1, MAXV - 1) : r.in(0, 50); }
static std::tuple<int, std::string> parse(std::vector<std::string> const& a, Config const* app, Config& got, std::vector<std::string>* rest = nullptr) {
  std::vector<char*> av; for (auto& x : a) av.push_back(const_cast<char*>(x.c_str())); av.push_back(nullptr);
  int ac = int(a.size()); char** p = av.data(); arguments::ArgConfig cfg;
  auto res = cfg.parse(ac, p, app); got = cfg.config_;
  if (rest) for (int i = 0; i < ac; i++) if (p[i]) rest->push_back(p[i]);
  return res;
}
static void yaml(std::string const& f, std::vector<std::pair<Opt const*, int>> const& s) {
  std::map<std::string, std::map<std::string, std::vector<std::string>>> g; std::vector<std::string> enable;
  for (auto& [o, v] : s) {
    if (o->group == "*") { if (v) enable.push_back(o->label); continue; }
    size_t k = o->group.find('/'); g[o->group.substr(0, k)][k == std::string::npos ? "" : o->group.substr(k + 1)].push_back(o->label + ": " + text(*o, v, true));
  }
  if (enable.size()) g["Debug Print Configuration"];
  std::ofstream out(f); out << "---\n";
  for (auto& [top, subs] : g) {
    out << top << ":\n";
    for (auto& [sub, ls] : subs) { if (sub != "") out << "  " << sub << ":\n"; for (auto& l : ls) out << (sub == "" ? "  " : "    ") << l << "\n"; }
    if (top == "Debug Print Configuration" && enable.size()) { out << "  Enable:\n"; for (auto& l : enable) out << "    - " << l << "\n"; }
  }
}
static void body(Case& c) {
  Rng& r = c.rng; auto t = table(); int const none = -1;
  std::string base = "/tmp/vtconf." + std::to_string(getpid());
  for (int round = r.in(2, 5); round > 0; round--) {
    if (r.pct(65)) {
      // settings from the program, files and the command line
      bool hasApp = r.pct(70), hasYaml = r.pct(50), hasToml = r.pct(50), inApp = r.pct(50); int dens = r.of<int>({5, 15, 40});
      Config def, app, got; std::vector<int> d, a, y, tm, cl, g; std::vector<std::pair<Opt const*, int>> ys, ts; std::vector<std::string> cmd; std::vector<Opt const*> used;
      for (auto& o : t) {
        if (!r.pct(dens) && !r.pct(5)) continue;
        bool list = o.group == "*";   // debug categories listed in a YAML file are all there are
        int va = hasApp && !list && r.pct(40) ? value(r, o) : none, vy = hasYaml && o.label != "" && r.pct(40) ? list ? 1 : value(r, o) : none, vt_ = hasToml && r.pct(40) ? value(r, o) : none, vc = r.pct(40) ? value(r, o) : none;
        used.push_back(&o); d.push_back(o.get(def)); a.push_back(va); y.push_back(vy); tm.push_back(vt_); cl.push_back(vc);
        if (va != none) o.set(app, va);
        if (vy != none) ys.push_back({&o, vy});
        if (vt_ != none) ts.push_back({&o, vt_});
        if (vc != none) { if (o.bare && vc == 1 && r.pct(60)) cmd.push_back(o.cli); else cmd.push_back(std::string(o.cli) + "=" + text(o, vc, false)); }
      }
      if (hasYaml) { yaml(base + ".yaml", ys); if (inApp && hasApp) app.vt_input_config_yaml = base + ".yaml"; else cmd.push_back("--vt_input_config_yaml=" + base + ".yaml"); }
      if (hasToml) { std::ofstream out(base + ".toml"); for (auto& [o, v] : ts) out << (o->cli + 2) << "=" << text(*o, v, true) << "\n"; out.close(); cmd.push_back("--vt_input_config=" + base + ".toml"); }
      for (size_t i = cmd.size(); i > 1; i--) std::swap(cmd[i - 1], cmd[size_t(r.in(int(i)))]);
      // mixed with arguments of the program: kind 0 its own, 1 --vt_args, 2 --, 3 an option of vt, 4 the same but not meant for it
      std::vector<std::string> av{"/some/where/prog"}; std::vector<int> kinds, ids, rest; int st = 0, id = 0; size_t at = 0; std::map<std::string, int> idOf;
      while (at < cmd.size() || r.pct(30)) {
        auto own = [&](std::string s, int k) { av.push_back(s); kinds.push_back(k); ids.push_back(++id); idOf[s] = id; };
        if (st != 1 && r.pct(40)) { if (st == 2 && r.pct(30)) own("--vt_nothing_" + std::to_string(id), 4); else own((r.pct(30) ? "-a" : "word") + std::to_string(id), 0); continue; }
        if (st == 1 && r.pct(20)) { av.push_back("--"); kinds.push_back(2); ids.push_back(0); st = 2; continue; }
        if (st == 2 || (st == 0 && r.pct(20))) { av.push_back("--vt_args"); kinds.push_back(1); ids.push_back(0); st = 1; continue; }
        if (at == cmd.size()) break;
        av.push_back(cmd[at++]); kinds.push_back(3); ids.push_back(0); st = 1;
      }
      std::vector<std::string> left; auto res = parse(av, hasApp ? &app : nullptr, got, &left);
      for (auto* o : used) g.push_back(o->get(got));
      for (size_t i = 1; i < left.size(); i++) rest.push_back(idOf.count(left[i]) ? idOf[left[i]] : -1);
      ev("cfg").k("rc", std::get<0>(res)).arr("d", d).arr("a", a).arr("y", y).arr("t", tm).arr("c", cl).arr("g", g).k("prog", got.prog_name == "prog" && left.size() && left[0] == "/some/where/prog").put();
      ev("argv").arr("k", kinds).arr("x", ids).arr("rest", rest).put();
      if (std::get<0>(res) != -1) fprintf(stderr, "%s\n", std::get<1>(res).c_str());
      for (size_t i = 0; i < used.size(); i++) { int w = cl[i] != none ? cl[i] : tm[i] != none ? tm[i] : y[i] != none ? y[i] : a[i] != none ? a[i] : d[i]; if (w != g[i]) fprintf(stderr, "%s want %d got %d\n", used[i]->field, w, g[i]); }
    } else {
      // a configuration written out and read again
      bool isYaml = true; std::string f = base + (isYaml ? ".out.yaml" : ".out.toml"); Config app, one, two; std::vector<std::string> cmd{"prog"}; std::vector<int> b, g;
      int dens = r.of<int>({10, 50});
      auto written = [&](Opt const& o) { return !isYaml || (o.group != "" && o.group != "User Options"); };
      for (auto& o : t) if (written(o) && r.pct(dens)) cmd.push_back(std::string(o.cli) + "=" + text(o, value(r, o), false));
      cmd.push_back("--vt_output_config"); cmd.push_back("--vt_output_config_file=" + f);
      auto r1 = parse(cmd, r.pct(50) ? &app : nullptr, one); { std::ofstream out(f); out << one.vt_output_config_str; }
      auto r2 = parse({"prog", (isYaml ? "--vt_input_config_yaml=" : "--vt_input_config=") + f}, nullptr, two);
      for (auto& o : t) if (written(o)) { b.push_back(o.get(one)); g.push_back(o.get(two)); if (b.back() != g.back()) fprintf(stderr, "%s %s was %d is %d\n", isYaml ? "yaml" : "toml", o.field, b.back(), g.back()); }
      if (std::get<0>(r2) != -1) fprintf(stderr, "again: %s\n", std::get<1>(r2).c_str());
      ev("again").k("y", isYaml).k("rc", std::get<0>(r1)).k("rc2", std::get<0>(r2)).arr("b", b).arr("g", g).put();
      unlink(f.c_str());
    }
  }
  unlink((base + ".yaml").c_str()); unlink((base + ".toml").c_str());
  ev("fini").put();
}
}

//------------------------------------------------------------------- lifetimes
namespace li {
struct Life { std::vector<int> color, key; uint64_t s; bool ult; };
struct Scn { std::vector<Life> lives; };
static Scn S; static Rng R(1); static int inst = 0; static int world = 0; static long nextid = 0; static int budget = 0;
static long newId() { return (world + 1) * 100000L + ++nextid; }
static void act(int ttl);
struct WMsg : Message { long m; int ttl, i; };
static void work(WMsg* w) { ev("recv").k("r", world).k("m", w->m).k("i", inst).put(); act(w->ttl); ev("wend").k("r", world).k("m", w->m).put(); }
static void post(int ttl) {
  auto w = makeMessage<WMsg>(); w->m = newId(); w->ttl = ttl; w->i = inst; budget--; bool all = R.pct(15);
  ev("send").k("r", world).k("i", inst).k("m", w->m).k("n", all ? nn() : 1).put();
  if (all) theMsg()->broadcastMsg<work>(w); else theMsg()->sendMsg<work>(NodeType(R.in(nn())), w);
}
struct Op : messaging::AsyncOp {
  int left, ttl; long id; Op(int l, int t, long i) : left(l), ttl(t), id(i) { }
  bool poll() override { return --left <= 0; }
  void done() override { ev("recv").k("r", world).k("m", id).k("i", inst).put(); if (ttl > 0 && budget > 0) { theMsg()->pushEpoch(epoch_); post(ttl - 1); theMsg()->popEpoch(epoch_); } ev("wend").k("r", world).k("m", id).put(); }
  EpochType epoch_ = theMsg()->getEpoch();
};
static void op(int ttl) { long id = newId(); budget--; ev("send").k("r", world).k("i", inst).k("m", id).k("n", 1).put(); theMsg()->registerAsyncOp(std::make_unique<Op>(R.in(1, 20), ttl, id)); }
static void act(int ttl) { if (ttl <= 0) return; for (int k = R.in(3); k > 0 && budget > 0; k--) { if (R.pct(80)) post(ttl - 1); else op(ttl - 1); } }
static void epoch() {
  auto ep = theTerm()->makeEpochRooted(term::UseDS{R.pct(50)}); long id = newId();
  ev("send").k("r", world).k("i", inst).k("m", id).k("n", 1).put();   // the action at its end is work, too
  theTerm()->addAction(ep, [id] { ev("recv").k("r", world).k("m", id).k("i", inst).put(); act(1); ev("wend").k("r", world).k("m", id).put(); });
  theMsg()->pushEpoch(ep); for (int k = R.in(3); k > 0; k--) post(2); theMsg()->popEpoch(ep); theTerm()->finishedEpoch(ep);
}
static void setup(Case& c) {
  auto& r = c.rng; c.nranks = r.in(1, 6); S = Scn();
  for (int k = r.in(1, 3); k > 0; k--) {
    Life l; l.s = r.next(); l.ult = r.pct(50); bool split = r.pct(40), mix = r.pct(30);
    for (int i = 0; i < c.nranks; i++) { l.color.push_back(split ? r.in(2) : 0); l.key.push_back(mix ? r.in(5) : 0); }
    S.lives.push_back(l);
  }
}
static void body(Case& c, int rank) {
  world = rank; MPI_Init(nullptr, nullptr); int life = 0;
  for (auto& l : S.lives) {
    life++; MPI_Comm comm; MPI_Comm_split(MPI_COMM_WORLD, l.color[size_t(rank)], l.key[size_t(rank)], &comm);
    std::vector<int> g; for (int i = 0; i < c.nranks; i++) if (l.color[size_t(i)] == l.color[size_t(rank)]) g.push_back(i);
    std::stable_sort(g.begin(), g.end(), [&](int a, int b) { return l.key[size_t(a)] < l.key[size_t(b)]; });
    inst = life * 10 + l.color[size_t(rank)]; R = Rng(l.s + uint64_t(rank) * 77);
    std::vector<std::string> a = {"prog", "--vt_quiet", "--vt_no_color"}; if (!l.ult) a.push_back("--vt_ult_disable");
    std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); int ac = int(a.size()); char** p = av.data();
    auto rt = vt::initialize(ac, p, &comm);
    ev("up").k("r", rank).k("i", inst).k("node", me()).k("n", nn()).arr("of", g).k("ph", int(thePhase()->getCurrentPhase())).put();
    budget = R.in(0, 12);
    for (int k = R.in(4); k > 0; k--) { int how = R.in(4); if (how == 0) epoch(); else if (how == 1) op(2); else post(3); }
    if (R.pct(30)) { ev("in").put(); runInEpochRooted([&] { if (R.pct(60)) post(2); }); }
    if (R.pct(30)) { int n = R.in(1, 8); theTerm()->produce(); theSched()->runSchedulerWhile([&n] { return --n > 0; }); theTerm()->consume(); }
    if (Rng(l.s + 5 + uint64_t(l.color[size_t(rank)])).pct(40)) runInEpochCollective([&] { if (R.pct(60)) post(2); });
    ev("fin").k("r", rank).k("i", inst).put();
    if (R.pct(50)) vt::finalize(std::move(rt)); else vt::finalize();
    ev("down").k("r", rank).k("i", inst).put();
  }
  ev("fini").k("r", rank).put(); MPI_Finalize();
}
}
static void setup(Case& c) { if (mode == "life") li::setup(c); else c.nranks = 1; }
static void body(Case& c, int rank) { if (mode == "life") li::body(c, rank); else if (mode == "args") ar::body(c); else co::body(c); }
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return drv::main(argc, argv, setup, body);
}
