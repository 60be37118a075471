// Common machinery of the harnesses: replayable randomness, violation records,
// observation counters, per-case schedules and configurations.
#ifndef VH_HPP_
#define VH_HPP_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <mpi.h>
#include <set>
#include <sstream>
#include <string>
#include <syclmon.hpp>
#include <vector>

namespace vh {

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 77) {
    u64();
    u64();
  }
  std::uint64_t u64() {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n ? u64() % n : 0; }
  int range(int lo, int hi) { // inclusive
    return static_cast<int>(
        lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(
                 static_cast<std::int64_t>(hi) - lo + 1))));
  }
  double real(double lo = 0.0, double hi = 1.0) {
    return lo + (hi - lo) * ((u64() >> 11) * (1.0 / 9007199254740992.0));
  }
  bool chance(double p) { return real() < p; }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  template <typename T> void shuffle(std::vector<T> &v) {
    for (std::size_t i = v.size(); i > 1; i--)
      std::swap(v[i - 1], v[below(i)]);
  }
};

std::uint64_t hash64(std::uint64_t a, std::uint64_t b = 0,
                     std::uint64_t c = 0, std::uint64_t d = 0);

// ---- global state of the run
int rank();
int size();
MPI_Comm comm();             // private communicator of the monitors
const std::string &outdir(); // scratch directory of this run
bool thorough();

// ---- observations
void count(const std::string &name, std::uint64_t n = 1);
void distinct(const std::string &set, const std::string &value);
void sample(const std::string &text);
std::uint64_t violations();
void violate(const std::string &key, const std::string &msg);
void note(const std::string &text); // context included in violation records

#define VH_CHECK(cond, key, msg)                                               \
  ([&]() -> bool {                                                             \
    ::vh::count("oracle_checks");                                              \
    if (!(cond)) {                                                             \
      std::ostringstream vh_ss_;                                               \
      vh_ss_ << msg;                                                           \
      ::vh::violate(key, vh_ss_.str());                                        \
      return false;                                                            \
    }                                                                          \
    return true;                                                               \
  }())

// Runs f and reports whether the library rejected it with an assertion.
bool rejects(const std::function<void()> &f, std::string *what = nullptr);

struct Case {
  int index;
  std::uint64_t seed;
  Rng rng;  // identical on every rank
  Rng lrng; // differs between ranks
  std::string scenario;
  std::ostringstream desc; // what this case did, for samples and replays
  bool nontrivial = false; // set by the scenario when something was observed
};

struct Scenario {
  std::string name;
  std::function<void(Case &)> fn;
  int weight = 1;
};

struct Options {
  bool vary_schedule = true; // adversarial command scheduling per case
  bool vary_config = true;   // environment parameters and device caps per case
  bool vary_layout = true;   // local size, number of bins
  bool check_release = true; // communicators and windows are released per case
};

int main(int argc, char **argv, const std::vector<Scenario> &scenarios,
         const Options &opt = Options{});

// Applies an explicit schedule (used to compare the same work under
// different admissible schedules).
void set_schedule(std::uint64_t seed, int async, int order, int poison,
                  bool in_order = false);
void random_schedule(Rng &r);
void random_config(Rng &r, const Options &o = Options{});
int device_kind(); // first argument of SYCLTarget in this configuration
void reset_env();
void set_env(const std::string &k, const std::string &v);

// ---- MPI monitor
struct MpiStats {
  std::uint64_t p2p = 0, coll = 0, waits = 0, rma = 0, bytes = 0, delays = 0,
                created_comms = 0, matched_histories = 0, buffers = 0;
  std::int64_t open_requests = 0, live_comms = 0, live_wins = 0;
};
MpiStats &mpi();
void mpi_delays(bool on, std::uint64_t seed);
void mpi_modes(bool synchronous_sends, bool deferred_rma);
// node of every rank of MPI_COMM_WORLD, for MPI_Comm_split_type(SHARED); empty: one node
void mpi_nodes(const std::vector<int> &nodes);
// the communicator of this run: a permutation of the ranks of MPI_COMM_WORLD, maybe without the first
MPI_Comm world_comm();
void mpi_case_begin();
void mpi_case_end(bool check_release);

// gathers variable length data on rank 0 (in rank order)
std::vector<std::vector<std::int64_t>>
gather(const std::vector<std::int64_t> &v);
std::vector<std::vector<double>> gather(const std::vector<double> &v);
std::vector<std::vector<std::int64_t>>
allgather(const std::vector<std::int64_t> &v);
bool any_violation(); // collective

template <typename T> std::string str(const std::vector<T> &v, std::size_t max = 12) {
  std::ostringstream s;
  s << "[";
  for (std::size_t i = 0; i < v.size() && i < max; i++)
    s << (i ? "," : "") << v[i];
  if (v.size() > max)
    s << ",..(" << v.size() << ")";
  s << "]";
  return s.str();
}

} // namespace vh
#endif
