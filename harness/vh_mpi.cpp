// MPI monitor: interposes the profiling interface of MPI.
//
//  * sends and receives: the buffer of a nonblocking send must not change and
//    the buffer of a nonblocking receive must not be used before the operation
//    completes (receive buffers hold garbage until then); buffers of active
//    operations must not overlap; every request is completed
//  * optionally sends are synchronous: programs that rely on MPI buffering
//    messages deadlock (reported as a stalled run)
//  * one-sided operations take effect when their epoch ends, not before
//  * collectives: all members of a communicator call the same operations, with
//    matching arguments, in the same order
//  * no message is left unreceived, no communicator or window stays allocated
//  * random delays before and between operations
#include "vh.hpp"
#include "syclmon.hpp"
#include <dlfcn.h>
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <unistd.h>
#include <unordered_map>

namespace vh {
namespace {

struct Req {
  bool send = false, coll = false;
  unsigned char *buf = nullptr;
  std::size_t bytes = 0;
  std::uint64_t hash = 0;
  std::vector<unsigned char> original; // what a receive buffer held
  std::string what;
};
struct CommInfo {
  std::string id;
  std::uint64_t hash = 0, calls = 0, children = 0;
  int size = 1, rank = 0;
  std::deque<std::string> last;
  bool by_library = false;
};
struct RmaOp {
  const void *origin;
  int origin_n;
  MPI_Datatype origin_t;
  void *result;
  int result_n;
  MPI_Datatype result_t;
  int target;
  MPI_Aint disp;
  int target_n;
  MPI_Datatype target_t;
  MPI_Op op;
};
struct WinInfo {
  std::vector<RmaOp> pending;
  std::set<int> locked;
  std::uint64_t fences = 0;
};
struct M {
  MpiStats st;
  bool delays = false, ssend = false, defer = true;
  Rng drng{1};
  std::unordered_map<MPI_Request, Req> reqs;
  std::unordered_map<MPI_Comm, CommInfo> comms;
  std::unordered_map<MPI_Win, WinInfo> wins;
  std::map<std::string, std::vector<std::uint64_t>> closed; // freed comms: hash, calls
  std::size_t base_comms = 0, base_wins = 0;
  bool judging = false; // inside a case
  std::vector<int> nodes;
  bool inside = false;  // inside an MPI call
};
M &m() {
  static M *x = new M();
  return *x;
}
// MPI and HDF5 are handed device memory only where the library was told so
void host_only(const void *p, const char *what, bool may_be_device_aware = true) {
  if (p == nullptr || !m().judging)
    return;
  m().st.buffers++;
  if (syclmon::usm_kind(p) != static_cast<int>(syclmon::UsmKind::device))
    return;
  const char *e = std::getenv("NESO_PARTICLES_DEVICE_AWARE_MPI");
  if (may_be_device_aware && e && std::atoi(e))
    return;
  violate(std::string("hd/device-pointer:") + what, std::string(what) + " was given device memory");
}
void delay() {
  auto &s = m();
  if (s.delays && s.drng.chance(0.2)) {
    s.st.delays++;
    usleep(static_cast<useconds_t>(s.drng.below(1500)));
  }
}
// contiguous size of n elements, 0 if unknown
std::size_t extent(int n, MPI_Datatype t) {
  int sz = 0;
  MPI_Aint lb = 0, ex = 0;
  if (n <= 0 || PMPI_Type_size(t, &sz) != MPI_SUCCESS ||
      PMPI_Type_get_extent(t, &lb, &ex) != MPI_SUCCESS || lb != 0 || ex != sz)
    return 0;
  return static_cast<std::size_t>(n) * static_cast<std::size_t>(sz);
}
std::uint64_t hash_bytes(const unsigned char *p, std::size_t n) {
  std::uint64_t h = 1469598103934665603ull ^ n;
  std::size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    std::uint64_t w;
    std::memcpy(&w, p + i, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  for (; i < n; i++)
    h = (h ^ p[i]) * 1099511628211ull;
  return h;
}
bool world_ready() {
  auto &s = m();
  if (s.comms.empty()) {
    CommInfo w, f;
    w.id = "world";
    PMPI_Comm_size(MPI_COMM_WORLD, &w.size);
    PMPI_Comm_rank(MPI_COMM_WORLD, &w.rank);
    f.id = "self";
    if (world_comm() != MPI_COMM_WORLD) {
      CommInfo u;
      u.id = "user";
      u.size = size();
      u.rank = rank();
      s.comms[world_comm()] = u;
    }
    s.comms[MPI_COMM_WORLD] = w;
    s.comms[MPI_COMM_SELF] = f;
  }
  return true;
}
void born(MPI_Comm parent, MPI_Comm c, const char *how, const std::string &extra = "") {
  world_ready();
  auto &s = m();
  auto it = s.comms.find(parent);
  std::string id = "?";
  if (it != s.comms.end()) {
    id = it->second.id + "." + how + std::to_string(it->second.children++) + extra;
  }
  if (c == MPI_COMM_NULL)
    return;
  s.st.live_comms++;
  s.st.created_comms++;
  CommInfo n;
  n.id = id;
  PMPI_Comm_size(c, &n.size);
  PMPI_Comm_rank(c, &n.rank);
  s.comms[c] = n;
}
void collective(MPI_Comm c, const char *op, std::int64_t a = 0, std::int64_t b = 0) {
  world_ready();
  auto &s = m();
  s.st.coll++;
  auto it = s.comms.find(c);
  if (it != s.comms.end()) {
    auto &x = it->second;
    std::string t = std::string(op) + "(" + std::to_string(a) + "," + std::to_string(b) + ")";
    for (char ch : t)
      x.hash = (x.hash ^ static_cast<unsigned char>(ch)) * 1099511628211ull + 7;
    x.calls++;
    x.last.push_back(t);
    if (x.last.size() > 12)
      x.last.pop_front();
  }
  delay();
}
void start(MPI_Request r, bool send, void *buf, std::size_t bytes, std::vector<unsigned char> &&orig,
           const std::string &what, bool coll = false) {
  auto &s = m();
  if (r == MPI_REQUEST_NULL)
    return;
  s.st.open_requests++;
  Req q;
  q.send = send;
  q.coll = coll;
  q.buf = static_cast<unsigned char *>(buf);
  q.bytes = bytes;
  q.original = std::move(orig);
  q.what = what;
  if (send && bytes)
    q.hash = hash_bytes(q.buf, bytes);
  s.reqs[r] = std::move(q);
}
void overlap(bool send, const void *b, std::size_t bytes, const std::string &what) {
  auto &s = m();
  auto *p = static_cast<const unsigned char *>(b);
  for (auto &x : s.reqs) {
    auto &q = x.second;
    if (q.coll || !q.bytes || !bytes || (send && q.send))
      continue;
    if (p < q.buf + q.bytes && q.buf < p + bytes) {
      violate("mpi/overlapping-buffers", what + " uses a buffer that overlaps the one of the active " + q.what);
      return;
    }
  }
}
// takes the entry of a request that is about to be completed
std::unique_ptr<Req> take(MPI_Request r) {
  auto &s = m();
  auto it = s.reqs.find(r);
  if (it == s.reqs.end())
    return nullptr;
  auto q = std::make_unique<Req>(std::move(it->second));
  s.reqs.erase(it);
  s.st.open_requests--;
  if (q->send && q->bytes && hash_bytes(q->buf, q->bytes) != q->hash)
    violate("mpi/send-buffer-modified", "the buffer of an active send changed before the send completed: " + q->what);
  return q;
}
// the part of a receive buffer that the message did not cover keeps its value
void finish(Req *q, const MPI_Status &st) {
  if (!q || q->send || q->coll || !q->bytes)
    return;
  int n = 0;
  if (PMPI_Get_count(&st, MPI_BYTE, &n) != MPI_SUCCESS || n < 0)
    n = 0;
  if (static_cast<std::size_t>(n) < q->bytes)
    std::memcpy(q->buf + n, q->original.data() + n, q->bytes - n);
  m().st.bytes += n;
}
std::string desc(const char *op, int n, int peer, int tag) {
  return std::string(op) + "(count=" + std::to_string(n) + " peer=" + std::to_string(peer) + " tag=" +
         std::to_string(tag) + ")";
}
void flush(MPI_Win w, int target) {
  auto &s = m();
  auto it = s.wins.find(w);
  if (it == s.wins.end())
    return;
  std::vector<RmaOp> keep;
  std::vector<std::pair<RmaOp, std::vector<unsigned char>>> go;
  for (auto &o : it->second.pending) {
    if (target >= 0 && o.target != target)
      keep.push_back(o);
    else
      go.push_back({o, {}});
  }
  it->second.pending = keep;
  for (auto &g : go) {
    auto &o = g.first;
    PMPI_Get_accumulate(o.origin, o.origin_n, o.origin_t, o.result, o.result_n, o.result_t, o.target, o.disp,
                        o.target_n, o.target_t, o.op, w);
  }
}
} // namespace

MpiStats &mpi() { return m().st; }
void mpi_delays(bool on, std::uint64_t seed) {
  auto &s = m();
  s.delays = on;
  s.drng = Rng(seed);
}
void mpi_modes(bool ssend, bool defer) {
  auto &s = m();
  s.ssend = ssend;
  s.defer = defer;
}
void mpi_nodes(const std::vector<int> &nodes) { m().nodes = nodes; }
void mpi_case_begin() {
  world_ready();
  auto &s = m();
  s.base_comms = s.comms.size();
  s.base_wins = s.wins.size();
  s.reqs.clear();
  s.closed.clear();
  for (auto &c : s.comms) {
    c.second.hash = 0;
    c.second.calls = 0;
    c.second.last.clear();
  }
  s.judging = true;
}
// collective over all ranks, after every case without another violation
void mpi_case_end(bool check_release) {
  auto &s = m();
  s.judging = false;
  if (s.reqs.size()) {
    violate("mpi/request-not-completed", std::to_string(s.reqs.size()) + " operations were never completed, e.g. " +
                                             s.reqs.begin()->second.what);
    s.reqs.clear();
  }
  for (auto &w : s.wins)
    if (w.second.pending.size() || w.second.locked.size())
      violate("mpi/epoch-not-closed", "an access epoch of a window is still open");
  if (check_release) {
    if (s.comms.size() > s.base_comms) {
      std::string ids;
      int n = 0;
      for (auto &c : s.comms)
        if (n++ < 60)
          ids += c.second.id + " ";
      violate("mpi/communicator-not-released",
              std::to_string(s.comms.size() - s.base_comms) + " communicators stay allocated, live: " + ids);
    }
    if (s.wins.size() > s.base_wins)
      violate("mpi/window-not-released", std::to_string(s.wins.size() - s.base_wins) + " windows stay allocated");
  }
  // messages that nobody received
  PMPI_Barrier(comm());
  for (auto &c : s.comms) {
    int flag = 0;
    MPI_Status st;
    for (int k = 0; k < 3 && !flag; k++)
      PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, c.first, &flag, &st);
    if (flag)
      violate("mpi/message-not-received", "a message from rank " + std::to_string(st.MPI_SOURCE) + " tag " +
                                              std::to_string(st.MPI_TAG) + " on " + c.second.id +
                                              " was never received");
  }
  // the histories of collectives agree between the members
  std::vector<std::int64_t> mine;
  auto put = [&](const std::string &id, std::uint64_t hash, std::uint64_t calls) {
    mine.push_back(static_cast<std::int64_t>(hash_bytes(reinterpret_cast<const unsigned char *>(id.data()), id.size())));
    mine.push_back(static_cast<std::int64_t>(hash));
    mine.push_back(static_cast<std::int64_t>(calls));
  };
  std::map<std::int64_t, std::string> names;
  for (auto &c : s.comms)
    if (c.second.calls && c.second.id[0] != '?' && c.second.id.find("self") == std::string::npos) {
      put(c.second.id, c.second.hash, c.second.calls);
      std::string t = c.second.id + ": ..";
      for (auto &l : c.second.last)
        t += " " + l;
      names[mine[mine.size() - 3]] = t;
    }
  for (auto &c : s.closed) {
    put(c.first, c.second[0], c.second[1]);
    names[mine[mine.size() - 3]] = c.first;
  }
  auto all = allgather(mine);
  std::map<std::int64_t, std::pair<std::int64_t, std::int64_t>> ref;
  for (auto &r : all)
    for (std::size_t i = 0; i + 2 < r.size(); i += 3) {
      auto it = ref.find(r[i]);
      if (it == ref.end())
        ref[r[i]] = {r[i + 1], r[i + 2]};
      else {
        s.st.matched_histories++;
        if (it->second != std::make_pair(r[i + 1], r[i + 2])) {
          violate("mpi/collective-mismatch",
                  "ranks called different collectives on the communicator " + names[r[i]] + " (" +
                      std::to_string(it->second.second) + " and " + std::to_string(r[i + 2]) + " calls)");
          return;
        }
      }
    }
}
} // namespace vh

using namespace vh;

#define P2P                                                                                                            \
  m().st.p2p++;                                                                                                        \
  delay();
#define EXTENT(n, t) static_cast<std::int64_t>(extent(n, t))

extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) {
  if (n > 0) host_only(b, "MPI_Isend");
  P2P const std::size_t bytes = extent(n, t);
  const std::string w = desc("MPI_Isend", n, d, g);
  overlap(true, b, bytes, w);
  const int e = m().ssend ? PMPI_Issend(b, n, t, d, g, c, r) : PMPI_Isend(b, n, t, d, g, c, r);
  start(*r, true, const_cast<void *>(b), bytes, {}, w);
  return e;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request *r) {
  if (n > 0) host_only(b, "MPI_Irecv");
  P2P const std::size_t bytes = extent(n, t);
  const std::string w = desc("MPI_Irecv", n, d, g);
  overlap(false, b, bytes, w);
  std::vector<unsigned char> o;
  if (bytes) {
    o.assign(static_cast<unsigned char *>(b), static_cast<unsigned char *>(b) + bytes);
    std::memset(b, 0xA7, bytes);
  }
  const int e = PMPI_Irecv(b, n, t, d, g, c, r);
  start(*r, false, b, bytes, std::move(o), w);
  return e;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c) {
  if (n > 0) host_only(b, "MPI_Send");
  P2P return m().ssend ? PMPI_Ssend(b, n, t, d, g, c) : PMPI_Send(b, n, t, d, g, c);
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Status *s) {
  if (n > 0) host_only(b, "MPI_Recv");
  P2P return PMPI_Recv(b, n, t, d, g, c, s);
}
int MPI_Wait(MPI_Request *r, MPI_Status *s) {
  delay();
  m().st.waits++;
  auto q = take(*r);
  MPI_Status st;
  const int e = PMPI_Wait(r, &st);
  finish(q.get(), st);
  if (s != MPI_STATUS_IGNORE)
    *s = st;
  return e;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) {
  delay();
  m().st.waits++;
  std::vector<std::unique_ptr<Req>> q(n);
  for (int i = 0; i < n; i++)
    if (r[i] != MPI_REQUEST_NULL)
      q[i] = take(r[i]);
  std::vector<MPI_Status> st(n > 0 ? n : 1);
  const int e = PMPI_Waitall(n, r, st.data());
  for (int i = 0; i < n; i++) {
    finish(q[i].get(), st[i]);
    if (s != MPI_STATUSES_IGNORE)
      s[i] = st[i];
  }
  return e;
}
int MPI_Waitany(int n, MPI_Request *r, int *k, MPI_Status *s) {
  std::vector<MPI_Request> o(r, r + n);
  MPI_Status st;
  const int e = PMPI_Waitany(n, r, k, &st);
  if (*k != MPI_UNDEFINED && *k >= 0 && *k < n)
    finish(take(o[*k]).get(), st);
  if (s != MPI_STATUS_IGNORE)
    *s = st;
  return e;
}
int MPI_Waitsome(int n, MPI_Request *r, int *nk, int *k, MPI_Status *s) {
  std::vector<MPI_Request> o(r, r + n);
  std::vector<MPI_Status> st(n > 0 ? n : 1);
  const int e = PMPI_Waitsome(n, r, nk, k, st.data());
  for (int i = 0; *nk != MPI_UNDEFINED && i < *nk; i++) {
    finish(take(o[k[i]]).get(), st[i]);
    if (s != MPI_STATUSES_IGNORE)
      s[i] = st[i];
  }
  return e;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) {
  MPI_Request o = *r;
  MPI_Status st;
  const int e = PMPI_Test(r, f, &st);
  if (*f)
    finish(take(o).get(), st);
  if (s != MPI_STATUS_IGNORE)
    *s = st;
  return e;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) {
  std::vector<MPI_Request> o(r, r + n);
  std::vector<MPI_Status> st(n > 0 ? n : 1);
  const int e = PMPI_Testall(n, r, f, st.data());
  for (int i = 0; *f && i < n; i++) {
    finish(take(o[i]).get(), st[i]);
    if (s != MPI_STATUSES_IGNORE)
      s[i] = st[i];
  }
  return e;
}
int MPI_Request_free(MPI_Request *r) {
  take(*r);
  return PMPI_Request_free(r);
}
int MPI_Cancel(MPI_Request *r) { return PMPI_Cancel(r); }

int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) {
  collective(c, "Ibarrier");
  const int e = PMPI_Ibarrier(c, r);
  start(*r, false, nullptr, 0, {}, "MPI_Ibarrier", true);
  return e;
}
int MPI_Iallreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request *r) {
  if (n > 0) host_only(a, "MPI_Iallreduce");
  if (n > 0) host_only(b, "MPI_Iallreduce");
  collective(c, "Iallreduce", EXTENT(n, t), 0);
  const int e = PMPI_Iallreduce(a, b, n, t, o, c, r);
  start(*r, false, nullptr, 0, {}, "MPI_Iallreduce", true);
  return e;
}
int MPI_Barrier(MPI_Comm c) {
  collective(c, "Barrier");
  return PMPI_Barrier(c);
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) {
  if (n > 0) host_only(b, "MPI_Bcast");
  collective(c, "Bcast", EXTENT(n, t), r);
  return PMPI_Bcast(b, n, t, r, c);
}
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Allreduce");
  if (n > 0) host_only(b, "MPI_Allreduce");
  collective(c, "Allreduce", EXTENT(n, t), 0);
  return PMPI_Allreduce(a, b, n, t, o, c);
}
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Reduce");
  if (n > 0) host_only(b, "MPI_Reduce");
  collective(c, "Reduce", EXTENT(n, t), r);
  return PMPI_Reduce(a, b, n, t, o, r, c);
}
int MPI_Scan(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Scan");
  if (n > 0) host_only(b, "MPI_Scan");
  collective(c, "Scan", EXTENT(n, t), 0);
  return PMPI_Scan(a, b, n, t, o, c);
}
int MPI_Exscan(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Exscan");
  if (n > 0) host_only(b, "MPI_Exscan");
  collective(c, "Exscan", EXTENT(n, t), 0);
  return PMPI_Exscan(a, b, n, t, o, c);
}
int MPI_Gather(const void *a, int n, MPI_Datatype t, void *b, int k, MPI_Datatype u, int r, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Gather");
  if (n > 0) host_only(b, "MPI_Gather");
  collective(c, "Gather", 0, r);
  return PMPI_Gather(a, n, t, b, k, u, r, c);
}
int MPI_Gatherv(const void *a, int n, MPI_Datatype t, void *b, const int *k, const int *d, MPI_Datatype u, int r,
                MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Gatherv");
  if (n > 0) host_only(b, "MPI_Gatherv");
  collective(c, "Gatherv", 0, r);
  return PMPI_Gatherv(a, n, t, b, k, d, u, r, c);
}
int MPI_Allgather(const void *a, int n, MPI_Datatype t, void *b, int k, MPI_Datatype u, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Allgather");
  if (n > 0) host_only(b, "MPI_Allgather");
  collective(c, "Allgather", EXTENT(k, u), 0);
  return PMPI_Allgather(a, n, t, b, k, u, c);
}
int MPI_Allgatherv(const void *a, int n, MPI_Datatype t, void *b, const int *k, const int *d, MPI_Datatype u,
                   MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Allgatherv");
  if (n > 0) host_only(b, "MPI_Allgatherv");
  std::int64_t total = 0;
  world_ready();
  auto it = m().comms.find(c);
  if (it != m().comms.end())
    for (int i = 0; i < it->second.size; i++)
      total = total * 31 + EXTENT(k[i], u);
  collective(c, "Allgatherv", total, 0);
  return PMPI_Allgatherv(a, n, t, b, k, d, u, c);
}
int MPI_Alltoall(const void *a, int n, MPI_Datatype t, void *b, int k, MPI_Datatype u, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Alltoall");
  if (n > 0) host_only(b, "MPI_Alltoall");
  collective(c, "Alltoall", EXTENT(n, t), 0);
  return PMPI_Alltoall(a, n, t, b, k, u, c);
}
int MPI_Neighbor_alltoall(const void *a, int n, MPI_Datatype t, void *b, int k, MPI_Datatype u, MPI_Comm c) {
  if (n > 0) host_only(a, "MPI_Neighbor_alltoall");
  if (n > 0) host_only(b, "MPI_Neighbor_alltoall");
  collective(c, "Neighbor_alltoall");
  return PMPI_Neighbor_alltoall(a, n, t, b, k, u, c);
}
int MPI_Neighbor_alltoallw(const void *a, const int *n, const MPI_Aint *d, const MPI_Datatype *t, void *b,
                           const int *k, const MPI_Aint *f, const MPI_Datatype *u, MPI_Comm c) {
  collective(c, "Neighbor_alltoallw");
  return PMPI_Neighbor_alltoallw(a, n, d, t, b, k, f, u, c);
}

int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  collective(c, "Comm_dup");
  const int e = PMPI_Comm_dup(c, o);
  born(c, *o, "dup");
  return e;
}
int MPI_Comm_split(MPI_Comm c, int col, int k, MPI_Comm *o) {
  collective(c, "Comm_split");
  const int e = PMPI_Comm_split(c, col, k, o);
  born(c, *o, "split", "c" + std::to_string(col));
  return e;
}
int MPI_Comm_split_type(MPI_Comm c, int t, int k, MPI_Info i, MPI_Comm *o) {
  collective(c, "Comm_split_type");
  auto &s = m();
  if (t == MPI_COMM_TYPE_SHARED && s.judging && s.nodes.size()) {
    // pretend that the ranks live on several nodes
    int wr = 0;
    PMPI_Comm_rank(MPI_COMM_WORLD, &wr);
    const int e = PMPI_Comm_split(c, s.nodes[wr], k, o);
    born(c, *o, "type", "n" + std::to_string(s.nodes[wr]));
    return e;
  }
  const int e = PMPI_Comm_split_type(c, t, k, i, o);
  born(c, *o, "type");
  return e;
}
int MPI_Cart_create(MPI_Comm c, int n, const int *d, const int *p, int r, MPI_Comm *o) {
  collective(c, "Cart_create", n);
  const int e = PMPI_Cart_create(c, n, d, p, r, o);
  born(c, *o, "cart");
  return e;
}
int MPI_Dist_graph_create(MPI_Comm c, int n, const int *s, const int *g, const int *d, const int *w, MPI_Info i, int r,
                          MPI_Comm *o) {
  collective(c, "Dist_graph_create");
  const int e = PMPI_Dist_graph_create(c, n, s, g, d, w, i, r, o);
  born(c, *o, "graph");
  return e;
}
int MPI_Dist_graph_create_adjacent(MPI_Comm c, int n, const int *s, const int *w, int k, const int *d, const int *x,
                                   MPI_Info i, int r, MPI_Comm *o) {
  collective(c, "Dist_graph_create_adjacent");
  const int e = PMPI_Dist_graph_create_adjacent(c, n, s, w, k, d, x, i, r, o);
  born(c, *o, "adjacent");
  return e;
}
int MPI_Comm_free(MPI_Comm *c) {
  auto &s = m();
  auto it = s.comms.find(*c);
  if (it != s.comms.end()) {
    s.st.live_comms--;
    if (s.judging && it->second.size > 1) {
      // no message may be left on a communicator that goes away
      int flag = 0;
      MPI_Status st;
      PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, *c, &flag, &st);
      if (flag)
        violate("mpi/message-not-received", "a communicator (" + it->second.id + ") is freed with a message from rank " +
                                                std::to_string(st.MPI_SOURCE) + " tag " + std::to_string(st.MPI_TAG) +
                                                " not received");
    }
    if (it->second.id[0] != '?' && it->second.calls && it->second.id.find("self") == std::string::npos)
      s.closed[it->second.id] = {it->second.hash, it->second.calls};
    s.comms.erase(it);
  }
  return PMPI_Comm_free(c);
}

int MPI_Win_allocate(MPI_Aint n, int d, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w) {
  collective(c, "Win_allocate");
  const int e = PMPI_Win_allocate(n, d, i, c, b, w);
  m().st.live_wins++;
  m().wins[*w] = WinInfo();
  return e;
}
int MPI_Win_allocate_shared(MPI_Aint n, int d, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w) {
  collective(c, "Win_allocate_shared");
  const int e = PMPI_Win_allocate_shared(n, d, i, c, b, w);
  m().st.live_wins++;
  m().wins[*w] = WinInfo();
  return e;
}
int MPI_Win_free(MPI_Win *w) {
  auto &s = m();
  auto it = s.wins.find(*w);
  if (it != s.wins.end()) {
    s.st.live_wins--;
    if (it->second.pending.size() || it->second.locked.size())
      violate("mpi/epoch-not-closed", "a window is freed inside an access epoch");
    s.wins.erase(it);
  }
  delay();
  return PMPI_Win_free(w);
}
int MPI_Win_lock(int type, int rank, int a, MPI_Win w) {
  delay();
  auto it = m().wins.find(w);
  if (it != m().wins.end() && !it->second.locked.insert(rank).second)
    violate("mpi/locked-twice", "a window is locked again at a rank where it is locked");
  return PMPI_Win_lock(type, rank, a, w);
}
int MPI_Win_unlock(int rank, MPI_Win w) {
  delay();
  auto it = m().wins.find(w);
  if (it != m().wins.end()) {
    if (!it->second.locked.erase(rank))
      violate("mpi/unlock-without-lock", "a window is unlocked at a rank where it is not locked");
    flush(w, rank);
  }
  return PMPI_Win_unlock(rank, w);
}
int MPI_Win_fence(int a, MPI_Win w) {
  delay();
  auto it = m().wins.find(w);
  if (it != m().wins.end()) {
    if (it->second.locked.size())
      violate("mpi/fence-in-lock", "a fence inside a lock epoch");
    it->second.fences++;
    flush(w, -1);
  }
  return PMPI_Win_fence(a, w);
}
int MPI_Get_accumulate(const void *o, int on, MPI_Datatype ot, void *r, int rn, MPI_Datatype rt, int k, MPI_Aint d,
                       int kn, MPI_Datatype kt, MPI_Op op, MPI_Win w) {
  m().st.rma++;
  delay();
  auto it = m().wins.find(w);
  if (it != m().wins.end() && m().defer) {
    if (!it->second.locked.count(k) && !it->second.fences)
      violate("mpi/access-outside-epoch", "a one-sided operation outside of an access epoch");
    const std::size_t bytes = extent(rn, rt);
    if (bytes)
      std::memset(r, 0xA7, bytes); // undefined until the epoch ends
    it->second.pending.push_back({o, on, ot, r, rn, rt, k, d, kn, kt, op});
    return MPI_SUCCESS;
  }
  return PMPI_Get_accumulate(o, on, ot, r, rn, rt, k, d, kn, kt, op, w);
}
int H5Dwrite(std::int64_t d, std::int64_t t, std::int64_t ms, std::int64_t fs, std::int64_t p, const void *b) {
  using F = int (*)(std::int64_t, std::int64_t, std::int64_t, std::int64_t, std::int64_t, const void *);
  static const F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "H5Dwrite"));
  host_only(b, "H5Dwrite", false);
  return f(d, t, ms, fs, p, b);
}
int H5Dread(std::int64_t d, std::int64_t t, std::int64_t ms, std::int64_t fs, std::int64_t p, void *b) {
  using F = int (*)(std::int64_t, std::int64_t, std::int64_t, std::int64_t, std::int64_t, void *);
  static const F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "H5Dread"));
  host_only(b, "H5Dread", false);
  return f(d, t, ms, fs, p, b);
}
}
