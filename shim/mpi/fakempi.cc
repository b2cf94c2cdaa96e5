#include "mpi.h"
#include "fakempi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <map>
#include <set>
#include <ctime>
#include <cerrno>
#include <climits>
#include <csignal>
#include <algorithm>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fakempi {
namespace {
constexpr int MAXR = 32;
constexpr int MAXC = 4096;     // communicators
constexpr int MAXW = 1024;     // windows
constexpr size_t ARENA = size_t(1) << 30;
constexpr size_t LOGSZ = size_t(64) << 20;

struct Msg { Msg* next; int src, tag, comm; uint64_t seq, ready; size_t n; int* ack; char data[1]; };
struct Coll { int arrived, left; uint64_t gen; char buf[256]; size_t n; int have_root;
  int color[MAXR], key[MAXR], newc[MAXR]; };
struct Comm { int n; int world[MAXR]; int live;
  // ring of in-flight collective slots, indexed by per-rank sequence number
  Coll slot[16]; };
struct WinS { int comm; void* base[MAXR]; size_t size[MAXR]; int disp[MAXR];
  int excl[MAXR]; int shared[MAXR]; };
struct Shm {
  int turn; // futex: whose turn it is
  int alive[MAXR]; uint64_t stall[MAXR];
  int nranks; uint64_t rng; uint64_t steps, max_steps, seq; int hang;
  uint64_t clock; // ns
  Config cfg;
  Msg* head[MAXR]; Msg* tail[MAXR];
  int ncomm; Comm comm[MAXC];
  int nwin; WinS win[MAXW];
  size_t bump; void* freel[64];
  size_t logn;
};
Shm* S = nullptr; char* arena = nullptr; char* logbuf = nullptr;
int me = -1;

uint64_t next64() {
  uint64_t z = (S->rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
int futex(int* a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

int cls(size_t n) { int c = 5; while ((size_t(1) << c) < n) c++; return c; }
void* salloc(size_t n) {
  int c = cls(n + 16);
  char* p;
  if (S->freel[c]) { p = (char*)S->freel[c]; S->freel[c] = *(void**)(p + 16); }
  else {
    size_t sz = size_t(1) << c;
    if (S->bump + sz > ARENA) { fprintf(stderr, "fakempi: arena exhausted\n"); _exit(98); }
    p = arena + S->bump; S->bump += sz;
  }
  *(size_t*)p = c; return p + 16;
}
void sfree(void* q) {
  char* p = (char*)q - 16; int c = *(size_t*)p;
  *(void**)(p + 16) = S->freel[c]; S->freel[c] = p;
}
bool inArena(void const* p) { return (char*)p >= arena && (char*)p < arena + ARENA; }

void waitTurn() {
  for (;;) {
    int t = __atomic_load_n(&S->turn, __ATOMIC_ACQUIRE);
    if (t == me) return;
    if (S->hang) _exit(77);
    futex(&S->turn, FUTEX_WAIT, t);
  }
}
int pickNext(bool allow_me) {
  int c[MAXR], n = 0;
  for (int i = 0; i < S->nranks; i++)
    if (S->alive[i] && (allow_me || i != me) && S->stall[i] <= S->steps) c[n++] = i;
  if (!n) for (int i = 0; i < S->nranks; i++) if (S->alive[i] && (allow_me || i != me)) c[n++] = i;
  if (!n) return -1;
  return c[next64() % n];
}
void give(int r) {
  __atomic_store_n(&S->turn, r, __ATOMIC_RELEASE);
  futex(&S->turn, FUTEX_WAKE, INT_MAX);
}
void yield() {
  S->steps++; S->clock += 200;
  if (S->steps > S->max_steps) { S->hang = 1; give(-2); _exit(77); }
  if (int(next64() % 1000) < S->cfg.stall_pct) S->stall[me] = S->steps + next64() % 400;
  int r = pickNext(true);
  if (r == me || r < 0) return;
  give(r); waitTurn();
}
void maybeYield() { if (int(next64() % 100) < S->cfg.yield_pct) yield(); }

struct Posted { int id; void* buf; size_t cap; int src, tag, comm; };
struct Req { int kind; // 1 send 2 recv 3 ibarrier 4 ibcast 5 rma
  bool done; MPI_Status st; Posted p; uint64_t ready; int comm; uint64_t gen; void* buf; size_t n; int root; int win;
  int* ack = nullptr; bool rdv = false; void const* sbuf = nullptr; size_t sn = 0; uint64_t sum = 0; };
std::vector<Req> reqs; std::vector<int> freereq; std::vector<int> posted; // ids in order
std::map<int, uint64_t> collgen; // per comm
bool inited = false, finalized = false;

int newReq() {
  int id;
  if (!freereq.empty()) { id = freereq.back(); freereq.pop_back(); reqs[id] = Req{}; }
  else { id = reqs.size(); reqs.push_back(Req{}); }
  return id;
}
int crank(int c) { auto& k = S->comm[c]; for (int i = 0; i < k.n; i++) if (k.world[i] == me) return i; return -1; }
size_t tsz(MPI_Datatype t) { return t & 0xff; }

Msg* unlinkAfter(int dst, Msg* prev) {
  Msg* m = prev ? prev->next : S->head[dst];
  (prev ? prev->next : S->head[dst]) = m->next;
  if (S->tail[dst] == m) S->tail[dst] = prev;
  return m;
}
// the first message on this channel, in send order
Msg* findFirst(int src_world, int tag, int comm, Msg** prevOut) {
  Msg* prev = nullptr;
  for (Msg* m = S->head[me]; m; prev = m, m = m->next)
    if (m->comm == comm && m->src == src_world && (tag == MPI_ANY_TAG || m->tag == tag)) {
      if (prevOut) *prevOut = prev; return m;
    }
  return nullptr;
}
void progress() {
  for (size_t i = 0; i < posted.size();) {
    Req& r = reqs[posted[i]];
    auto& k = S->comm[r.p.comm];
    Msg* best = nullptr; Msg* bprev = nullptr;
    if (r.p.src == MPI_ANY_SOURCE) {
      for (int s = 0; s < k.n; s++) { Msg* pv = nullptr; Msg* m = findFirst(k.world[s], r.p.tag, r.p.comm, &pv);
        if (m && m->ready <= S->steps && (!best || m->seq < best->seq)) { best = m; bprev = pv; } }
    } else { best = findFirst(k.world[r.p.src], r.p.tag, r.p.comm, &bprev); if (best && best->ready > S->steps) best = nullptr; }
    if (best) {
      if (best->n > r.p.cap) { fprintf(stderr, "fakempi: MPI_ERR_TRUNCATE (%zu > %zu)\n", best->n, r.p.cap); abort(); }
      memcpy(r.p.buf, best->data, best->n);
      int s = 0; for (int q = 0; q < k.n; q++) if (k.world[q] == best->src) s = q;
      r.st.MPI_SOURCE = s; r.st.MPI_TAG = best->tag; r.st.n_ = best->n; r.done = true;
      if (best->ack) { if (*best->ack == 2) sfree(best->ack); else *best->ack = 1; }
      unlinkAfter(me, bprev); sfree(best);
      posted.erase(posted.begin() + i);
    } else i++;
  }
}
uint64_t delay() {
  uint64_t d = next64() % (S->cfg.max_delay + 1);
  if (int(next64() % 100) < S->cfg.long_delay_pct) d += next64() % 1500;
  return d;
}
// A send buffer must not change while the send is in flight.  The head is left
// out: vt keeps a reference count there that legitimately changes.
uint64_t bufSum(void const* b, size_t n) {
  if (n <= 64) return 0;
  uint64_t h = 1469598103934665603ull; auto p = (unsigned char const*)b;
  for (size_t i = 64; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
  return h;
}
int sendImpl(const void* b, size_t n, int dst, int tag, int comm, int* ack = nullptr) {
  auto& k = S->comm[comm];
  if (dst < 0 || dst >= k.n) { fprintf(stderr, "fakempi: bad destination %d\n", dst); abort(); }
  if (tag < 0) { fprintf(stderr, "fakempi: bad tag %d\n", tag); abort(); }
  int w = k.world[dst];
  Msg* m = (Msg*)salloc(sizeof(Msg) + n);
  m->next = nullptr; m->src = me; m->tag = tag; m->comm = comm; m->seq = ++S->seq; m->ready = S->steps + delay(); m->n = n; m->ack = ack;
  if (n) memcpy(m->data, b, n);
  if (S->tail[w]) S->tail[w]->next = m; else S->head[w] = m;
  S->tail[w] = m;
  return 0;
}
Coll& collSlot(int comm, uint64_t g) { return S->comm[comm].slot[g % 16]; }
uint64_t collEnter(int comm) {
  uint64_t g = collgen[comm]++;
  // wait until the slot has been vacated by generation g-16
  for (;;) { Coll& c = collSlot(comm, g); if (c.gen == g) break; yield(); }
  return g;
}
void collArrive(int comm, uint64_t g) { collSlot(comm, g).arrived++; }
bool collAll(int comm, uint64_t g) { Coll& c = collSlot(comm, g); return c.arrived == S->comm[comm].n; }
void collLeave(int comm, uint64_t g) {
  Coll& c = collSlot(comm, g);
  if (++c.left == S->comm[comm].n) { memset(&c, 0, sizeof c); c.gen = g + 16; }
}
int newComm(std::vector<int> const& w) {
  if (S->ncomm >= MAXC) { fprintf(stderr, "fakempi: too many communicators\n"); _exit(98); }
  int id = S->ncomm++;
  Comm& k = S->comm[id]; k.n = w.size(); k.live = 1;
  for (size_t i = 0; i < w.size(); i++) k.world[i] = w[i];
  for (int i = 0; i < 16; i++) { memset(&k.slot[i], 0, sizeof(Coll)); k.slot[i].gen = i; }
  return id;
}
template <typename T> void applyOp(T* d, T const* s, size_t n, int op) {
  for (size_t i = 0; i < n; i++) switch (op) {
    case MPI_SUM: d[i] = d[i] + s[i]; break;
    case MPI_MAX: d[i] = std::max(d[i], s[i]); break;
    case MPI_MIN: d[i] = std::min(d[i], s[i]); break;
    case MPI_PROD: d[i] = d[i] * s[i]; break;
    case MPI_REPLACE: d[i] = s[i]; break;
    case MPI_LOR: d[i] = d[i] || s[i]; break;
    case MPI_LAND: d[i] = d[i] && s[i]; break;
    case MPI_NO_OP: break;
    default: fprintf(stderr, "fakempi: op\n"); abort();
  }
}
void reduceTyped(void* d, const void* s, size_t n, int t, int op) {
  if (op == MPI_REPLACE) { memcpy(d, s, n * tsz(t)); return; }
  switch (t) {
    case MPI_INT8_T: applyOp((int8_t*)d, (const int8_t*)s, n, op); break;
    case MPI_INT16_T: applyOp((int16_t*)d, (const int16_t*)s, n, op); break;
    case MPI_INT32_T: applyOp((int32_t*)d, (const int32_t*)s, n, op); break;
    case MPI_INT64_T: applyOp((int64_t*)d, (const int64_t*)s, n, op); break;
    case MPI_UINT8_T: applyOp((uint8_t*)d, (const uint8_t*)s, n, op); break;
    case MPI_UINT16_T: applyOp((uint16_t*)d, (const uint16_t*)s, n, op); break;
    case MPI_UINT32_T: applyOp((uint32_t*)d, (const uint32_t*)s, n, op); break;
    case MPI_UINT64_T: applyOp((uint64_t*)d, (const uint64_t*)s, n, op); break;
    case MPI_FLOAT: applyOp((float*)d, (const float*)s, n, op); break;
    case MPI_DOUBLE: applyOp((double*)d, (const double*)s, n, op); break;
    default: fprintf(stderr, "fakempi: type\n"); abort();
  }
}
// RMA: operations issued by this process and not yet applied at the target
struct Rma { int kind; int win, target; MPI_Aint off; size_t n; int type, op; void* buf; const char* src; int req; };
std::vector<Rma> rma;
std::map<std::pair<int,int>, int> heldLock; std::set<int> fenced;
void applyRma(Rma& r) {
  WinS& w = S->win[r.win]; size_t b = r.n * tsz(r.type);
  char* p = (char*)w.base[r.target] + r.off * w.disp[r.target];
  if (r.off < 0 || r.off * w.disp[r.target] + b > w.size[r.target]) { fprintf(stderr, "fakempi: RMA out of window\n"); abort(); }
  if (!inArena(p)) { fprintf(stderr, "fakempi: RMA window not in shared memory\n"); abort(); }
  if (r.kind == 0) memcpy(p, r.src, b);
  else if (r.kind == 1) memcpy(r.buf, p, b);
  else if (r.kind == 2) reduceTyped(p, r.src, r.n, r.type, r.op);
  else { memcpy(r.buf, p, b); reduceTyped(p, r.src, r.n, r.type, r.op); }
  if (r.req >= 0) reqs[r.req].done = true;
}
void flushRma(int win, int target) {
  for (size_t i = 0; i < rma.size();) {
    if (rma[i].win == win && (target < 0 || rma[i].target == target)) {
      Rma r = std::move(rma[i]); rma.erase(rma.begin() + i); applyRma(r);
    } else i++;
  }
}
void addRma(Rma&& r) {
  WinS& w = S->win[r.win];
  if (r.target < 0 || r.target >= S->comm[w.comm].n) { fprintf(stderr, "fakempi: RMA target\n"); abort(); }
  if (!heldLock.count({r.win, r.target}) && !fenced.count(r.win)) { fprintf(stderr, "fakempi: MPI_ERR_RMA_SYNC: access outside an epoch\n"); abort(); }
  if (r.kind == 1 || r.kind == 3) memset(r.buf, 0xAB, r.n * tsz(r.type));
  maybeYield();
  // atomics of one origin to the same target stay ordered; others may be lazy
  rma.push_back(std::move(r));
  maybeYield();
}
} // namespace

int rank() { return me; }
int size() { return S ? S->nranks : 1; }
uint64_t rnd() { return next64(); }
void yieldNow() { yield(); }
void log(std::string const& l) {
  if (!S) { printf("%s\n", l.c_str()); return; }
  if (S->logn + l.size() + 1 >= LOGSZ) { fprintf(stderr, "fakempi: log full\n"); _exit(98); }
  memcpy(logbuf + S->logn, l.data(), l.size()); logbuf[S->logn + l.size()] = '\n'; S->logn += l.size() + 1;
}

static void rankExit() {
  if (me < 0 || !S) return;
  if (S->turn != me) return;
  S->alive[me] = 0; int r = pickNext(false);
  give(r < 0 ? -1 : r);
}

Result run(Config const& c, std::function<int(int)> fn) {
  Result R;
  void* a = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* b = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* l = mmap(nullptr, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (a == MAP_FAILED || b == MAP_FAILED || l == MAP_FAILED) { perror("mmap"); exit(2); }
  S = new (a) Shm(); arena = (char*)b; logbuf = (char*)l;
  S->cfg = c; S->nranks = c.nranks; S->rng = c.seed * 0x2545F4914F6CDD1Dull + 12345; S->max_steps = c.max_steps;
  std::vector<int> w; for (int i = 0; i < c.nranks; i++) { w.push_back(i); S->alive[i] = 1; }
  newComm(w); newComm({0});
  fflush(stdout); fflush(stderr);
  S->turn = -3;
  std::vector<pid_t> pids;
  for (int i = 0; i < c.nranks; i++) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      me = i; waitTurn();
      int rc = 97;
      rc = fn(i);
      fflush(stdout); fflush(stderr);
      rankExit(); _exit(rc);
    }
    pids.push_back(p);
  }
  { int first = next64() % c.nranks; give(first); }
  time_t t0 = time(nullptr);
  int left = c.nranks;
  auto killAll = [&]{ for (auto p : pids) if (p > 0) kill(p, SIGKILL); };
  bool bad = false;
  while (left > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      if (time(nullptr) - t0 > c.wall_s && !bad) { bad = true; R.end = Result::End::Wall; killAll(); }
      // wait cheaply for a child
      struct timespec ts{0, 300000}; nanosleep(&ts, nullptr); continue;
    }
    if (p < 0) { if (errno == EINTR) continue; break; }
    int idx = -1; for (size_t i = 0; i < pids.size(); i++) if (pids[i] == p) { idx = i; pids[i] = 0; }
    if (idx < 0) continue;
    left--;
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    if (code != 0 && !bad) {
      bad = true; R.rank = idx; R.code = code;
      R.end = (S->hang && code == 77) ? Result::End::Hang : Result::End::Crash;
      killAll();
    }
  }
  R.steps = S->steps;
  R.log.assign(logbuf, S->logn);
  munmap(a, sizeof(Shm)); munmap(b, ARENA); munmap(l, LOGSZ);
  S = nullptr; me = -1;
  return R;
}
} // namespace fakempi
using namespace fakempi;

extern "C" {
int MPI_Init(int*, char***) { inited = true; return 0; }
int MPI_Initialized(int* f) { *f = inited; return 0; }
int MPI_Finalized(int* f) { *f = finalized; return 0; }
int MPI_Finalize() { finalized = true; return 0; }
int MPI_Abort(MPI_Comm, int c) { fflush(stdout); fflush(stderr); _exit(c ? c & 0x7f ? c & 0x7f : 96 : 96); }
double MPI_Wtime() {
  if (!S) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  S->clock += 100; return S->clock * 1e-9;
}
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = c == MPI_COMM_SELF ? 1 : S->comm[c].n; return 0; }
static int splitImpl(MPI_Comm c, int color, int key, MPI_Comm* out) {
  uint64_t g = collEnter(c); Coll& k = collSlot(c, g); int r = crank(c);
  k.color[r] = color; k.key[r] = key; k.newc[r] = -2; collArrive(c, g);
  while (!collAll(c, g)) yield();
  if (k.newc[r] == -2) {
    Comm& cc = S->comm[c];
    std::vector<std::pair<int,int>> v;
    for (int i = 0; i < cc.n; i++) if (k.color[i] == color) v.push_back({k.key[i], i});
    std::sort(v.begin(), v.end());
    if (color == MPI_UNDEFINED) k.newc[r] = -1;
    else {
      std::vector<int> w; for (auto& e : v) w.push_back(cc.world[e.second]);
      int id = newComm(w);
      for (auto& e : v) k.newc[e.second] = id;
    }
  }
  *out = k.newc[r]; collLeave(c, g); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) { return splitImpl(c, color, key, out); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { MPI_Comm in = c; return splitImpl(in, 0, crank(in), out); }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* out) { return splitImpl(c, 0, key, out); }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_get_attr(MPI_Comm, int, void* v, int* flag) { static int ub = 0x7fffffff; *(void**)v = &ub; *flag = 1; return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler* e) { *e = 1; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler* e) { *e = 0; return 0; }
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
static std::vector<std::vector<int>> groups;
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { Comm& k = S->comm[c]; groups.push_back(std::vector<int>(k.world, k.world + k.n)); *g = groups.size() - 1; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(groups[g][r[i]]); groups.push_back(v); *o = groups.size() - 1; return 0; }
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*) { fprintf(stderr, "fakempi: MPI_Comm_create_group unsupported\n"); abort(); }

int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) {
  int id = newReq(); Req& q = reqs[id]; q.kind = 1; q.done = false; q.ready = S->steps + next64() % (S->cfg.max_delay + 1);
  size_t by = n * tsz(t);
  // large sends may use a rendezvous protocol: complete only once received
  q.rdv = by > 1024 && int(next64() % 100) < S->cfg.rendezvous_pct;
  if (by > 64) { q.ack = (int*)salloc(sizeof(int)); *q.ack = 0; }
  q.sbuf = b; q.sn = by; q.sum = bufSum(b, by); q.p.tag = tag; q.p.src = dst;
  sendImpl(b, by, dst, tag, c, q.ack); *r = id; return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) {
  int id = newReq(); Req& q = reqs[id]; q.kind = 1; q.done = false; q.ready = S->steps; size_t by = n * tsz(t);
  q.rdv = true; q.ack = (int*)salloc(sizeof(int)); *q.ack = 0; q.sbuf = b; q.sn = by; q.sum = bufSum(b, by);
  sendImpl(b, by, dst, tag, c, q.ack); *r = id; return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return sendImpl(b, n * tsz(t), dst, tag, c); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) {
  int id = newReq(); Req& q = reqs[id]; q.kind = 2; q.done = false;
  q.p = Posted{id, b, n * tsz(t), src, tag, c}; posted.push_back(id); *r = id; return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s) { MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r); return MPI_Wait(&r, s); }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  maybeYield(); progress(); *flag = 0;
  Comm& k = S->comm[c]; Msg* cand[MAXR]; int cr[MAXR]; int n = 0;
  for (int s = 0; s < k.n; s++) {
    if (src != MPI_ANY_SOURCE && s != src) continue;
    Msg* m = findFirst(k.world[s], tag, c, nullptr);
    if (m && m->ready <= S->steps) { cand[n] = m; cr[n] = s; n++; }
  }
  if (!n) return 0;
  int i = next64() % n; *flag = 1;
  if (st) { st->MPI_SOURCE = cr[i]; st->MPI_TAG = cand[i]->tag; st->n_ = cand[i]->n; }
  return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->n_ / tsz(t); return 0; }
static bool tryReq(int id) {
  Req& q = reqs[id];
  if (q.done) return true;
  switch (q.kind) {
    case 1:
      // until the message is received or the send completes the buffer is MPI's
      if (q.ack && !*q.ack && bufSum(q.sbuf, q.sn) != q.sum) { fprintf(stderr, "fakempi: send buffer modified while the send was in flight (%zu bytes, tag %d, to %d)\n", q.sn, q.p.tag, q.p.src); abort(); }
      if (q.ready <= S->steps && (!q.rdv || *q.ack)) {
        q.done = true; if (q.ack) { if (*q.ack == 1) sfree(q.ack); else *q.ack = 2; q.ack = nullptr; }
      }
      break;
    case 2: progress(); break;
    case 3: if (collAll(q.comm, q.gen)) { collLeave(q.comm, q.gen); q.done = true; } break;
    case 4: { Coll& k = collSlot(q.comm, q.gen);
      if (k.have_root) { if (crank(q.comm) != q.root) memcpy(q.buf, k.buf, q.n); collLeave(q.comm, q.gen); q.done = true; } } break;
    case 5: {
      // complete at a random later test
      if (next64() % 2) { flushRma(q.win, -1); q.done = true; }
    } break;
  }
  return q.done;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
  if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  if (!tryReq(*r)) { maybeYield(); *flag = 0; if (!tryReq(*r)) return 0; }
  *flag = 1; if (st) *st = reqs[*r].st; freereq.push_back(*r); reqs[*r].kind = 0; *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) { int f = 0; for (;;) { MPI_Test(r, &f, st); if (f) return 0; yield(); } }
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st) {
  bool all = true; maybeYield();
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !tryReq(r[i])) all = false;
  *flag = all;
  if (all) for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { if (st) st[i] = reqs[r[i]].st; freereq.push_back(r[i]); reqs[r[i]].kind = 0; r[i] = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { int f = 0; for (;;) { MPI_Testall(n, r, &f, st); if (f) return 0; yield(); } }
int MPI_Barrier(MPI_Comm c) { uint64_t g = collEnter(c); collArrive(c, g); while (!collAll(c, g)) yield(); collLeave(c, g); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) { uint64_t g = collEnter(c); collArrive(c, g); int id = newReq(); Req& q = reqs[id]; q.kind = 3; q.comm = c; q.gen = g; *r = id; return 0; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) {
  uint64_t g = collEnter(c); Coll& k = collSlot(c, g); size_t by = n * tsz(t);
  if (by > sizeof k.buf) { fprintf(stderr, "fakempi: bcast too large\n"); abort(); }
  if (crank(c) == root) { memcpy(k.buf, b, by); k.have_root = 1; }
  int id = newReq(); Req& q = reqs[id]; q.kind = 4; q.comm = c; q.gen = g; q.buf = b; q.n = by; q.root = root; *r = id; return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { MPI_Request r; MPI_Ibcast(b, n, t, root, c, &r); return MPI_Wait(&r, MPI_STATUS_IGNORE); }
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  uint64_t g = collEnter(c); Coll& k = collSlot(c, g); size_t by = n * tsz(t);
  if (by > sizeof k.buf) { fprintf(stderr, "fakempi: allreduce too large\n"); abort(); }
  const void* src = s == MPI_IN_PLACE ? d : s;
  if (k.arrived == 0) memcpy(k.buf, src, by); else reduceTyped(k.buf, src, n, t, op);
  collArrive(c, g); while (!collAll(c, g)) yield();
  memcpy(d, k.buf, by); collLeave(c, g); return 0;
}
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { *(void**)p = salloc(n ? n : 1); return 0; }
int MPI_Free_mem(void* p) { sfree(p); return 0; }
int MPI_Win_create(void* base, MPI_Aint n, int disp, MPI_Info, MPI_Comm c, MPI_Win* w) {
  MPI_Comm d; MPI_Comm_dup(c, &d);
  uint64_t g = collEnter(d); Coll& k = collSlot(d, g);
  if (k.arrived == 0) { if (S->nwin >= MAXW) _exit(98); k.color[0] = S->nwin++; memset((void*)&S->win[k.color[0]], 0, sizeof(WinS)); S->win[k.color[0]].comm = d; }
  int id = k.color[0]; int r = crank(d);
  S->win[id].base[r] = base; S->win[id].size[r] = n; S->win[id].disp[r] = disp;
  collArrive(d, g); while (!collAll(d, g)) yield(); collLeave(d, g);
  *w = id; return 0;
}
int MPI_Win_free(MPI_Win* w) { flushRma(*w, -1); MPI_Barrier(S->win[*w].comm); *w = MPI_WIN_NULL; return 0; }
int MPI_Win_lock(int type, int r, int, MPI_Win w) {
  WinS& k = S->win[w]; maybeYield();
  if (heldLock.count({w, r})) { fprintf(stderr, "fakempi: MPI_ERR_RMA_SYNC: lock already held\n"); abort(); }
  for (;;) {
    if (type == MPI_LOCK_EXCLUSIVE ? (!k.excl[r] && !k.shared[r]) : !k.excl[r]) break;
    yield();
  }
  if (type == MPI_LOCK_EXCLUSIVE) k.excl[r] = 1; else k.shared[r]++;
  heldLock[{w, r}] = type; maybeYield(); return 0;
}
int MPI_Win_unlock(int r, MPI_Win w) {
  auto it = heldLock.find({w, r}); if (it == heldLock.end()) { fprintf(stderr, "fakempi: unlock without lock\n"); abort(); }
  maybeYield(); flushRma(w, r); WinS& k = S->win[w];
  if (it->second == MPI_LOCK_EXCLUSIVE) k.excl[r] = 0; else k.shared[r]--;
  heldLock.erase(it); maybeYield(); return 0;
}
int MPI_Win_fence(int, MPI_Win w) { flushRma(w, -1); fenced.insert(w); return MPI_Barrier(S->win[w].comm); }
int MPI_Win_sync(MPI_Win) { return 0; }
int MPI_Win_flush(int r, MPI_Win w) { flushRma(w, r); return 0; }
int MPI_Win_flush_local(int r, MPI_Win w) { flushRma(w, r); return 0; }
int MPI_Win_flush_all(MPI_Win w) { flushRma(w, -1); return 0; }
static Rma mk(int kind, const void* b, int n, MPI_Datatype t, int tgt, MPI_Aint off, int op, MPI_Win w, int req) {
  Rma r; r.kind = kind; r.win = w; r.target = tgt; r.off = off; r.n = n; r.type = t; r.op = op; r.req = req; r.buf = const_cast<void*>(b);
  r.src = (const char*)b;   // read when the operation happens, as MPI allows
  return r;
}
static int rmaReq(MPI_Win w) { int id = newReq(); Req& q = reqs[id]; q.kind = 5; q.win = w; return id; }
int MPI_Put(const void* b, int n, MPI_Datatype t, int r, MPI_Aint o, int, MPI_Datatype, MPI_Win w) { addRma(mk(0, b, n, t, r, o, 0, w, -1)); return 0; }
int MPI_Get(void* b, int n, MPI_Datatype t, int r, MPI_Aint o, int, MPI_Datatype, MPI_Win w) { addRma(mk(1, b, n, t, r, o, 0, w, -1)); return 0; }
int MPI_Rput(const void* b, int n, MPI_Datatype t, int r, MPI_Aint o, int, MPI_Datatype, MPI_Win w, MPI_Request* q) { int id = rmaReq(w); addRma(mk(0, b, n, t, r, o, 0, w, id)); *q = id; return 0; }
int MPI_Rget(void* b, int n, MPI_Datatype t, int r, MPI_Aint o, int, MPI_Datatype, MPI_Win w, MPI_Request* q) { int id = rmaReq(w); addRma(mk(1, b, n, t, r, o, 0, w, id)); *q = id; return 0; }
int MPI_Accumulate(const void* b, int n, MPI_Datatype t, int r, MPI_Aint o, int, MPI_Datatype, MPI_Op op, MPI_Win w) { addRma(mk(2, b, n, t, r, o, op, w, -1)); return 0; }
int MPI_Raccumulate(const void* b, int n, MPI_Datatype t, int r, MPI_Aint o, int, MPI_Datatype, MPI_Op op, MPI_Win w, MPI_Request* q) { int id = rmaReq(w); addRma(mk(2, b, n, t, r, o, op, w, id)); *q = id; return 0; }
int MPI_Fetch_and_op(const void* b, void* res, MPI_Datatype t, int r, MPI_Aint o, MPI_Op op, MPI_Win w) {
  Rma m = mk(3, res, 1, t, r, o, op, w, -1); m.src = (const char*)b; addRma(std::move(m)); return 0;
}
}
