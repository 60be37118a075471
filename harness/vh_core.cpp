#include "vh.hpp"
#include "vh_assert.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <mutex>
#include <unistd.h>
#include <unordered_map>
extern "C" void __sanitizer_print_stack_trace();

namespace vh {
namespace {
struct State {
  int rank = 0, size = 1;
  MPI_Comm comm = MPI_COMM_NULL;
  MPI_Comm user = MPI_COMM_WORLD;
  std::string outdir = ".";
  bool thorough = false;
  std::map<std::string, std::uint64_t> counters;
  std::map<std::string, std::set<std::string>> sets;
  std::vector<std::string> samples;
  std::set<std::string> keys;
  std::uint64_t nviol = 0;     // in this case
  std::uint64_t nviol_all = 0; // in this run
  std::string note;
  Case *cur = nullptr;
  int expect = 0;
  std::uint64_t nrejects = 0; // in this case
  int device_kind = 0;
  std::set<std::string> env;
  std::string viol_file, prog_file;
  bool in_monitor = false;
};
State &S() {
  static State *s = new State();
  return *s;
}
std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c == '\t')
      o += ' ';
    else if ((unsigned char)c < 0x20 || (unsigned char)c > 0x7e)
      o += '?';
    else
      o += c;
  }
  return o;
}
void dump() {
  auto &s = S();
  std::ofstream f(s.outdir + "/stats." + std::to_string(s.rank) + ".json.tmp");
  f << "{\"rank\":" << s.rank << ",\"counters\":{";
  bool first = true;
  auto put = [&](const std::string &k, std::uint64_t v) {
    f << (first ? "" : ",") << "\"" << esc(k) << "\":" << v;
    first = false;
  };
  for (auto &c : s.counters)
    put(c.first, c.second);
  auto &st = syclmon::stats();
  put("sycl_commands", st.commands);
  put("sycl_kernels", st.kernels);
  put("sycl_work_items", st.work_items);
  put("sycl_barriers", st.barriers);
  put("sycl_out_of_order", st.out_of_order);
  put("sycl_deferred", st.deferred);
  put("sycl_waits", st.waits);
  put("usm_allocs", st.usm_allocs);
  put("io_buffers", mpi().buffers);
  if (st.hd_kernel) {
    put("hd_kernel_accesses", st.hd_kernel);
    put("hd_host_accesses", st.hd_host);
  }
  put("mpi_p2p", mpi().p2p);
  put("mpi_collectives", mpi().coll);
  put("mpi_waits", mpi().waits);
  put("mpi_bytes_received", mpi().bytes);
  put("mpi_communicators", mpi().created_comms);
  put("mpi_matched_histories", mpi().matched_histories);
  put("mpi_rma", mpi().rma);
  put("mpi_delays", mpi().delays);
  f << "},\"sets\":{";
  first = true;
  for (auto &c : s.sets) {
    f << (first ? "" : ",") << "\"" << esc(c.first) << "\":[";
    first = false;
    bool ff = true;
    int n = 0;
    for (auto &v : c.second) {
      if (n++ > 20000)
        break;
      f << (ff ? "" : ",") << "\"" << esc(v) << "\"";
      ff = false;
    }
    f << "]";
  }
  f << "},\"samples\":[";
  first = true;
  for (auto &c : s.samples) {
    f << (first ? "" : ",") << "\"" << esc(c) << "\"";
    first = false;
  }
  f << "],\"violations\":" << s.nviol_all << "}\n";
  f.close();
  std::rename((s.outdir + "/stats." + std::to_string(s.rank) + ".json.tmp").c_str(),
              (s.outdir + "/stats." + std::to_string(s.rank) + ".json").c_str());
}
[[noreturn]] void die(int code) {
  dump();
  fflush(nullptr);
  if (S().size > 1) {
    MPI_Abort(MPI_COMM_WORLD, code);
  }
  _exit(code);
}
} // namespace

std::uint64_t hash64(std::uint64_t a, std::uint64_t b, std::uint64_t c,
                     std::uint64_t d) {
  std::uint64_t h = 0x243F6A8885A308D3ull;
  for (std::uint64_t x : {a, b, c, d}) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9ull;
    h = (h ^ (h >> 27)) * 0x94D049BB133111EBull;
    h ^= h >> 31;
  }
  return h;
}
MPI_Comm world_comm() { return S().user; }
int rank() { return S().rank; }
int size() { return S().size; }
MPI_Comm comm() { return S().comm; }
const std::string &outdir() { return S().outdir; }
bool thorough() { return S().thorough; }
void count(const std::string &name, std::uint64_t n) { S().counters[name] += n; }
void distinct(const std::string &set, const std::string &v) {
  auto &x = S().sets[set];
  if (x.size() < 20000)
    x.insert(v);
}
void sample(const std::string &t) {
  if (S().samples.size() < 6)
    S().samples.push_back(t);
}
std::uint64_t violations() { return S().nviol; }
void note(const std::string &t) { S().note = t; }

void violate(const std::string &key, const std::string &msg) {
  auto &s = S();
  s.nviol++;
  s.nviol_all++;
  if (s.keys.insert(key).second && s.keys.size() <= 30) {
    std::ofstream f(s.viol_file, std::ios::app);
    f << "{\"key\":\"" << esc(key) << "\",\"msg\":\"" << esc(msg)
      << "\",\"rank\":" << s.rank << ",\"case\":" << (s.cur ? s.cur->index : -1)
      << ",\"scenario\":\"" << (s.cur ? esc(s.cur->scenario) : "") << "\",\"desc\":\""
      << (s.cur ? esc(s.cur->desc.str()) : "") << "\",\"note\":\"" << esc(s.note)
      << "\"}" << std::endl;
    fprintf(stderr, "VH-VIOLATION [%s] %s (case %d %s)\n", key.c_str(),
            msg.c_str(), s.cur ? s.cur->index : -1,
            s.cur ? s.cur->scenario.c_str() : "");
  }
}

bool rejects(const std::function<void()> &f, std::string *what) {
  // a rejected operation ends the process in production, so commands left
  // pending by it are not judged: run them as they are submitted
  auto &s = S();
  const auto cfg = syclmon::config();
  auto eager = cfg;
  eager.async = syclmon::Async::eager;
  syclmon::configure(eager);
  s.expect++;
  bool r = false;
  try {
    f();
  } catch (vh_assert_error &e) {
    if (what)
      *what = e.what;
    r = true;
  }
  s.expect--;
  s.nrejects += r;
  syclmon::configure(cfg);
  return r;
}

void reset_env() {
  auto &s = S();
  for (auto &k : s.env)
    unsetenv(k.c_str());
  s.env.clear();
}
void set_env(const std::string &k, const std::string &v) {
  setenv(k.c_str(), v.c_str(), 1);
  S().env.insert(k);
}
void set_schedule(std::uint64_t seed, int async, int order, int poison,
                  bool in_order) {
  syclmon::Config c;
  c.seed = seed;
  c.async = static_cast<syclmon::Async>(async);
  c.order = static_cast<syclmon::Order>(order);
  c.poison = poison;
  c.in_order_force = in_order;
  syclmon::configure(c);
}
void random_schedule(Rng &r) {
  const int async = r.pick(std::vector<int>{0, 1, 2, 2, 2, 3});
  const int order = r.range(0, 3);
  const int poison = r.pick(std::vector<int>{0xCB, 0x00, 0xFF, 0x7F});
  const bool fixed = getenv("VH_FIX_SCHEDULE") != nullptr;
  set_schedule(r.u64(), fixed ? 0 : async, fixed ? 0 : order, poison);
  std::ostringstream ss;
  ss << "async" << async << "/order" << order << "/poison" << poison;
  distinct("schedules", ss.str());
  note(ss.str());
}

int device_kind() { return S().device_kind; }
void random_config(Rng &r, const Options &o) {
  reset_env();
  S().device_kind = 0;
  std::ostringstream ss;
  auto &cp = syclmon::caps();
  cp = syclmon::DeviceCaps();
  if (o.vary_layout) {
    const auto ls = r.pick(std::vector<int>{1, 2, 4, 8, 32, 64});
    set_env("NESO_PARTICLES_LOOP_LOCAL_SIZE", std::to_string(ls));
    const auto nb = r.pick(std::vector<int>{1, 2, 3, 4, 16});
    set_env("NESO_PARTICLES_LOOP_NBIN", std::to_string(nb));
    ss << "local_size=" << ls << " nbin=" << nb;
  }
  if (o.vary_config) {
    const bool in_order = r.chance(0.15);
    const bool da = r.chance(0.5);
    set_env("NESO_PARTICLES_IN_ORDER_QUEUE", in_order ? "1" : "0");
    set_env("NESO_PARTICLES_DEVICE_AWARE_MPI", da ? "1" : "0");
    if (r.chance(0.25))
      set_env("NESO_PARTICLES_NPART_CELL_HINT", std::to_string(r.range(1, 40)));
    cp.max_compute_units = r.pick(std::vector<std::size_t>{1, 2, 8});
    cp.local_mem_size =
        r.pick(std::vector<std::size_t>{48 * 1024, 64 * 1024, 256 * 1024});
    cp.max_work_group_size = r.pick(std::vector<std::size_t>{256, 1024, 8192});
    cp.gpu = r.chance(0.3);
    ss << (cp.gpu ? " gpu" : " cpu");
    S().device_kind = r.chance(0.8) ? 0 : (r.chance(0.5) ? 1 : -1);
    cp.num_devices = r.chance(0.7) ? 1 : r.range(2, 3);
    const bool prof = r.chance(0.15);
    if (prof)
      set_env("NESO_PARTICLES_AUTO_PROFILE", S().outdir + "/profile");
    ss << " device=" << S().device_kind << "/" << cp.num_devices << " profile=" << prof;
    ss << " in_order=" << in_order << " device_aware=" << da
       << " wg=" << cp.max_work_group_size << " lmem=" << cp.local_mem_size;
  }
  distinct("configurations", ss.str());
  if (getenv("VH_FIX_CONFIG")) {
    reset_env();
    cp = syclmon::DeviceCaps();
    S().device_kind = 0;
  }
}


// which ranks of MPI_COMM_WORLD share a node
void random_nodes(Rng &r, int n) {
  std::vector<int> v;
  const int mode = r.range(0, 7), cut = r.range(0, n);
  if (n > 1 && mode > 2) {
    v.resize(n);
    for (int i = 0; i < n; i++)
      v[i] = mode == 3 ? i : mode == 4 ? i % 2 : mode == 5 ? i / 2 : mode == 6 ? (i >= cut) : (i * 7 + cut) % 3;
  }
  if (getenv("VH_FIX_CONFIG"))
    v.clear();
  mpi_nodes(v);
  if (n > 1)
    distinct("node_layouts", str(std::vector<std::int64_t>(v.begin(), v.end())));
}

std::vector<std::vector<std::int64_t>>
gather(const std::vector<std::int64_t> &v) {
  auto &s = S();
  int n = static_cast<int>(v.size());
  std::vector<int> ns(s.size), ds(s.size);
  PMPI_Gather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, 0, s.comm);
  int tot = 0;
  for (int i = 0; i < s.size; i++) {
    ds[i] = tot;
    tot += ns[i];
  }
  std::vector<std::int64_t> all(s.rank == 0 ? tot : 0);
  PMPI_Gatherv(v.data(), n, MPI_INT64_T, all.data(), ns.data(), ds.data(),
               MPI_INT64_T, 0, s.comm);
  std::vector<std::vector<std::int64_t>> r(s.size);
  if (s.rank == 0)
    for (int i = 0; i < s.size; i++)
      r[i].assign(all.begin() + ds[i], all.begin() + ds[i] + ns[i]);
  return r;
}
std::vector<std::vector<std::int64_t>>
allgather(const std::vector<std::int64_t> &v) {
  auto &s = S();
  int n = static_cast<int>(v.size());
  std::vector<int> ns(s.size), ds(s.size);
  PMPI_Allgather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, s.comm);
  int tot = 0;
  for (int i = 0; i < s.size; i++) {
    ds[i] = tot;
    tot += ns[i];
  }
  std::vector<std::int64_t> all(tot);
  PMPI_Allgatherv(v.data(), n, MPI_INT64_T, all.data(), ns.data(), ds.data(),
                  MPI_INT64_T, s.comm);
  std::vector<std::vector<std::int64_t>> r(s.size);
  for (int i = 0; i < s.size; i++)
    r[i].assign(all.begin() + ds[i], all.begin() + ds[i] + ns[i]);
  return r;
}
std::vector<std::vector<double>> gather(const std::vector<double> &v) {
  std::vector<std::int64_t> b(v.size());
  if (v.size())
    std::memcpy(b.data(), v.data(), v.size() * 8);
  auto g = gather(b);
  std::vector<std::vector<double>> r(g.size());
  for (std::size_t i = 0; i < g.size(); i++) {
    r[i].resize(g[i].size());
    if (g[i].size())
      std::memcpy(r[i].data(), g[i].data(), g[i].size() * 8);
  }
  return r;
}
static bool any(bool x) {
  int v = x, o = 0;
  PMPI_Allreduce(&v, &o, 1, MPI_INT, MPI_MAX, S().comm);
  return o;
}
bool any_violation() {
  int v = S().nviol > 0, o = 0;
  PMPI_Allreduce(&v, &o, 1, MPI_INT, MPI_MAX, S().comm);
  return o;
}

int main(int argc, char **argv, const std::vector<Scenario> &scenarios,
         const Options &opt) {
  auto &s = S();
  std::uint64_t seed = 1;
  int first = 0, cases = 10;
  std::string only;
  bool idle = false, permute = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      seed = std::stoull(val());
    else if (a == "--first")
      first = std::stoi(val());
    else if (a == "--cases")
      cases = std::stoi(val());
    else if (a == "--out")
      s.outdir = val();
    else if (a == "--thorough")
      s.thorough = true;
    else if (a == "--idle")
      idle = true;
    else if (a == "--permute")
      permute = true;
    else if (a == "--only")
      only = val();
  }
  int provided = 0;
  if (MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &provided) != MPI_SUCCESS)
    return 3;
  // the ranks of the run: those of MPI_COMM_WORLD, a permutation of them, or
  // all but the first, which then only waits for the others
  int wrank = 0, wsize = 1;
  PMPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  PMPI_Comm_size(MPI_COMM_WORLD, &wsize);
  if (idle || permute) {
    PMPI_Comm_split(MPI_COMM_WORLD, idle && wrank == 0 ? MPI_UNDEFINED : 0,
                    permute ? static_cast<int>(hash64(seed, wrank) % 1000) : wrank, &s.user);
    if (s.user == MPI_COMM_NULL) {
      MPI_Request r;
      int done = 0;
      PMPI_Ibarrier(MPI_COMM_WORLD, &r);
      while (!done) {
        usleep(5000);
        PMPI_Test(&r, &done, MPI_STATUS_IGNORE);
      }
      MPI_Finalize();
      _exit(0);
    }
    distinct("world_layouts", std::string(idle ? "without the first" : "all") + (permute ? " permuted" : ""));
  }
  PMPI_Comm_rank(s.user, &s.rank);
  PMPI_Comm_size(s.user, &s.size);
  PMPI_Comm_dup(s.user, &s.comm);
  s.viol_file = s.outdir + "/viol." + std::to_string(s.rank) + ".jsonl";
  s.prog_file = s.outdir + "/progress." + std::to_string(s.rank);
  syclmon::set_violation_handler([](const std::string &m) {
    violate("sycl:" + m.substr(0, 60), m);
    die(77);
  });
  std::vector<const Scenario *> sel;
  for (auto &sc : scenarios)
    if (only.empty() || ("," + only + ",").find("," + sc.name + ",") != std::string::npos)
      for (int k = 0; k < sc.weight; k++)
        sel.push_back(&sc);
  if (sel.empty()) {
    fprintf(stderr, "no scenario selected\n");
    return 3;
  }
  for (int ci = first; ci < first + cases; ci++) {
    Case c;
    c.index = ci;
    c.seed = hash64(seed, static_cast<std::uint64_t>(ci));
    c.rng = Rng(c.seed);
    c.lrng = Rng(hash64(c.seed, 1 + s.rank));
    const Scenario &sc = *sel[ci % sel.size()];
    c.scenario = sc.name;
    s.cur = &c;
    s.note.clear();
    s.nviol = 0;
    {
      std::ofstream f(s.prog_file, std::ios::app);
      f << ci << " " << sc.name << std::endl;
    }
    random_config(c.rng, opt);
    if (opt.vary_schedule)
      random_schedule(c.lrng);
    else
      set_schedule(c.seed, 0, 0, 0xCB);
    mpi_delays(s.size > 1 && c.rng.chance(0.5), c.lrng.u64());
    random_nodes(c.rng, wsize);
    mpi_modes(s.size > 1 && c.rng.chance(0.5), c.rng.chance(0.8));
    s.nrejects = 0;
    mpi_case_begin();
    sc.fn(c);
    if (!any_violation())
      mpi_case_end(opt.check_release && !any(s.nrejects));
    syclmon::flush_all();
    count("cases");
    count("cases_" + sc.name);
    if (c.nontrivial) {
      count("nontrivial");
      distinct("nontrivial_cases", std::to_string(c.seed));
    }
    sample("case " + std::to_string(ci) + " " + sc.name + ": " + c.desc.str());
    s.cur = nullptr;
    s.nviol = s.keys.size() > 10;
    // keep exploring so that a listed finding does not mask others
    if (any_violation())
      break;
  }
  s.cur = nullptr;
  reset_env();
  dump();
  s.nviol = s.nviol_all;
  const bool bad = any_violation();
  PMPI_Comm_free(&s.comm);
  if (idle) {
    MPI_Request r;
    PMPI_Ibarrier(MPI_COMM_WORLD, &r);
    PMPI_Wait(&r, MPI_STATUS_IGNORE);
  }
  fflush(nullptr);
  MPI_Finalize();
  fflush(nullptr);
  _exit(bad ? 77 : 0);
}

} // namespace vh

void vh_assert_failed(const char *expr, const char *file, int line,
                      const std::string &msg) {
  if (vh::S().expect > 0) {
    throw vh_assert_error{msg};
  }
  const char *b = std::strrchr(file, '/');
  std::ostringstream ss;
  ss << "assertion of the library failed: " << msg << " (" << expr << ") at "
     << file << ":" << line;
  vh::violate(std::string("assert:") + (b ? b + 1 : file) + ":" +
                  std::string(expr).substr(0, 60),
              ss.str());
  vh::die(77);
}

