// Active messages and broadcasts over every transport the messenger has.
#include "drv.h"
using namespace vt; using namespace drv;

struct Op { int id, kind, src, dst, size, hops, fill; bool pend, dts; };
struct Scn { std::vector<Op> ops; bool bcast = false; int rounds = 1; };
static Scn* S = nullptr;

static int h32(std::vector<unsigned char> const& v) { return int(sumBytes(v)); }
static std::vector<unsigned char> bytes(int id, int n) { std::vector<unsigned char> v(n); fillBytes(v, id); return v; }
static int me() { return theContext()->getNode(); }
static void got(int id, int h, int sz) {
  ev("recv").k("m", id).k("r", me()).k("h", h).k("z", sz).k("f", (int)theContext()->getFromNodeCurrentTask()).put();
}
static void next(int id, int hops);

struct PlainMsg : Message { int id, hops, a[6]; };
struct ShortMsg : ShortMessage { int id; };
template <int N> struct BigMsg : Message { int id, hops; unsigned char d[N]; };
struct SerMsg : Message {
  using MessageParentType = Message; vt_msg_serialize_required();
  int id = 0, hops = 0; std::vector<unsigned char> d; std::string tag;
  template <typename T> void serialize(T& s) { MessageParentType::serialize(s); s | id | hops | d | tag; }
};
struct PutMsg : PayloadMessage { int id, hops; };
struct Fn { void operator()(PlainMsg* m) {
  std::vector<unsigned char> v((unsigned char*)m->a, (unsigned char*)m->a + sizeof m->a); int h = h32(v), id = m->id, hp = m->hops; got(id, h, (int)v.size()); next(id, hp); } };
static void hPlain(PlainMsg* m) { Fn{}(m); }
static void hShort(ShortMsg* m) { got(m->id, h32(bytes(m->id, 8)), 8); }
template <int N> static void hBig(BigMsg<N>* m) {
  std::vector<unsigned char> v(m->d, m->d + N); got(m->id, h32(v), N); next(m->id, m->hops); }
static void hSer(SerMsg* m) {
  int h = h32(m->d); if (m->tag != "t" + std::to_string(m->id)) h = -2;
  got(m->id, h, (int)m->d.size()); next(m->id, m->hops); }
static void hPut(PutMsg* m) {
  auto p = (unsigned char*)m->getPut(); std::vector<unsigned char> v(p, p + m->getPutSize());
  got(m->id, h32(v), (int)v.size()); next(m->id, m->hops); }
static void hPar(int id, int hops, std::vector<unsigned char> const& v, std::string const& t) {
  int h = h32(v); if (t != std::to_string(id)) h = -3;
  got(id, h, (int)v.size()); next(id, hops); }

static std::vector<messaging::PendingSend> held;
// buffers handed to setPut must live until the send completes
static std::vector<std::unique_ptr<std::vector<unsigned char>>> putbufs;

template <int N> static messaging::PendingSend big(Op const& o) {
  auto m = makeMessage<BigMsg<N>>(); m->id = o.id; m->hops = o.hops; auto v = bytes(o.fill, N); memcpy(m->d, v.data(), N);
  return o.dst < 0 ? theMsg()->broadcastMsg<hBig<N>>(m, o.dts) : theMsg()->sendMsg<hBig<N>>(NodeType(o.dst), m);
}
static int sizeOf(Op const& o) {
  switch (o.kind) { case 0: case 5: return 24; case 6: return 8; case 3: return o.size % 2 ? 600 : 9000; default: return o.size; }
}
static messaging::PendingSend issue(Op const& o) {
  bool b = o.dst < 0; int n = sizeOf(o); auto v = bytes(o.fill, n);
  switch (o.kind) {
  case 0: { auto m = makeMessage<PlainMsg>(); m->id = o.id; m->hops = o.hops; memcpy(m->a, v.data(), sizeof m->a);
    return b ? theMsg()->broadcastMsg<hPlain>(m, o.dts) : theMsg()->sendMsg<hPlain>(NodeType(o.dst), m); }
  case 1: { auto m = makeMessage<SerMsg>(); m->id = o.id; m->hops = o.hops; m->d = v; m->tag = "t" + std::to_string(o.id);
    return b ? theMsg()->broadcastMsg<hSer>(m, o.dts) : theMsg()->sendMsg<hSer>(NodeType(o.dst), m); }
  case 2: { auto m = makeMessage<PutMsg>(); m->id = o.id; m->hops = o.hops;
    putbufs.push_back(std::make_unique<std::vector<unsigned char>>(v)); auto& p = *putbufs.back();
    m->setPut(reinterpret_cast<std::byte*>(p.data()), p.size());
    return b ? theMsg()->broadcastMsg<hPut>(m, o.dts) : theMsg()->sendMsg<hPut>(NodeType(o.dst), m); }
  case 3: return o.size % 2 ? big<600>(o) : big<9000>(o);
  case 4: { return b ? theMsg()->broadcast<&hPar>(o.id, o.hops, v, std::to_string(o.id))
                     : theMsg()->send<&hPar>(Node(NodeType(o.dst)), o.id, o.hops, v, std::to_string(o.id)); }
  case 5: { auto m = makeMessage<PlainMsg>(); m->id = o.id; m->hops = o.hops; memcpy(m->a, v.data(), sizeof m->a);
    return b ? theMsg()->broadcastMsg<Fn, PlainMsg>(m.get(), o.dts) : theMsg()->sendMsg<Fn, PlainMsg>(NodeType(o.dst), m.get()); }
  default: { auto m = makeMessage<ShortMsg>(); m->id = o.id;
    return b ? theMsg()->broadcastMsg<hShort>(m, o.dts) : theMsg()->sendMsg<hShort>(NodeType(o.dst), m); }
  }
}
static void go(Op o) {
  int n = sizeOf(o); int h = o.kind == 6 ? h32(bytes(o.id, 8)) : h32(bytes(o.fill, n));
  bool all = o.dts || o.kind == 4;
  ev(o.dst < 0 ? "bcast" : "send").k("m", o.id).k("s", me()).k("d", o.dst).k("h", h).k("z", n).k("self", all).put();
  if (o.pend) held.emplace_back(issue(o)); else issue(o);
}
// a delivered message is forwarded under a new id until its hops are used up
static void next(int id, int hops) {
  if (hops <= 0 || S->bcast) return;
  Op o = S->ops[id % 1000]; o.hops = hops - 1; o.id = id + 1000; o.src = me(); o.fill = o.id;
  Rng r(o.id * 31 + 7); o.kind = r.in(7); o.dst = r.in(int(theContext()->getNumNodes())); o.pend = false; o.size = r.in(1, 3000);
  go(o);
}
int main(int argc, char** argv) {
  bool bcast = std::string(argv[0]).find("bcast") != std::string::npos;
  for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "--bcast") bcast = true;
  return drv::main(argc, argv, [&](Case& c) {
    auto& r = c.rng; c.nranks = r.in(1, c.thorough ? 9 : (bcast ? 8 : 5)); if (c.nranks == 1 && r.pct(70)) c.nranks = r.in(2, 7);
    static Scn s; s = Scn{}; S = &s; s.bcast = bcast;
    int n = r.in(1, c.thorough ? 40 : (bcast ? 12 : 24)); s.rounds = r.in(1, 3);
    if (r.pct(50)) c.args.push_back("--vt_max_mpi_send_size=" + std::to_string(r.of(std::vector<int>{1024, 2048, 4096, 65536})));
    if (r.pct(20)) c.args.push_back("--vt_ult_disable");
    if (r.pct(30)) c.args.push_back("--vt_sched_num_progress=" + std::to_string(r.in(1, 4)));
    if (r.pct(30)) c.args.push_back("--vt_sched_progress_han=" + std::to_string(r.in(1, 3)));
    for (int i = 0; i < n; i++) {
      Op o; o.id = i; o.fill = i; o.kind = r.in(bcast ? 6 : 7); o.src = r.in(c.nranks); o.dst = bcast ? -1 : r.in(c.nranks);
      static int const sz[] = {0, 1, 7, 40, 90, 200, 900, 1100, 4000, 20000, 70000};
      o.size = sz[r.in(r.pct(20) ? 11 : 9)]; if (o.kind == 2 && o.size == 0) o.size = 5; if (o.size > 4) o.size += r.in(4);
      o.hops = r.pct(40) ? r.in(1, 4) : 0; o.pend = r.pct(20); o.dts = bcast ? !r.pct(25) : true;
      s.ops.push_back(o);
    }
  }, [&](Case& c, int) {
    withVt(c, [&]{
      collective::tree::Tree t(collective::tree::tree_cons_tag_t);
      ev("tree").k("r", me()).k("p", (int)t.getParent()).k("root", t.isRoot()).arr("ch", t.getChildren()).k("nc", (int)t.getNumChildren())
        .k("nd", (int)t.getNumDescendants()).put();
      for (int rd = 0; rd < S->rounds; rd++) {
        runInEpochCollective([&]{
          for (auto& o : S->ops) if (o.src == me() && o.id % S->rounds == rd) go(o);
          // held sends go out late and in reverse order
          while (!held.empty()) { held.back().release(); held.pop_back(); }
        });
      }
    });
  });
}
