// syclmon: a monitoring implementation of the subset of SYCL 2020 that
// NESO-Particles uses.  Kernels run as ordinary host code so that compiler
// sanitizers see every access; commands are queued and executed by an
// adversarial (seeded, replayable) scheduler.
#ifndef SYCLMON_HPP_
#define SYCLMON_HPP_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace syclmon {

enum class Kind { kernel, copy, fill, host };
enum class UsmKind : int { device = 0, host = 1, shared = 2 };

struct QueueImpl;
struct Command {
  std::uint64_t id = 0;
  Kind kind = Kind::kernel;
  // The closure object and how to run one work-item of it.  Everything a
  // command needs is captured at submission.
  std::shared_ptr<void> obj;
  void (*item_fn)(void *, std::size_t) = nullptr;
  void (*group_fn)(void *, std::size_t, std::size_t) = nullptr;
  std::size_t n = 1;          // range kernels: number of items
  std::size_t groups = 0;     // nd_range kernels: number of groups
  std::size_t group_size = 0; // nd_range kernels: items per group
  std::vector<std::size_t> local_bytes;
  std::vector<std::shared_ptr<Command>> deps;
  QueueImpl *queue = nullptr;
  bool done = false;
  bool running = false;
  char sync_start = 0; // addresses used for happens-before annotations
  char sync_end = 0;
};
using CommandPtr = std::shared_ptr<Command>;

struct QueueImpl {
  bool in_order = false;
  std::vector<CommandPtr> pending; // submitted, not executed
  std::vector<CommandPtr> retired; // executed, not yet waited for
  CommandPtr last;
  ~QueueImpl();
  QueueImpl();
};

// How the scheduler places the execution of a command.
enum class Async : int {
  eager = 0,  // at submission
  lazy = 1,   // only when waited for (and then dependencies only)
  random = 2, // random subset of the ready commands at every interaction
  lifo = 3,   // lazy, latest submitted first
};
enum class Order : int { forward = 0, reverse = 1, shuffled = 2, mixed = 3 };

struct Config {
  std::uint64_t seed = 1;
  Async async = Async::eager;
  Order order = Order::forward;
  int poison = 0xCB; // byte used to fill fresh device and local memory
  bool in_order_force = false;
};

struct DeviceCaps {
  std::size_t max_work_group_size = 8192;
  std::size_t local_mem_size = 256 * 1024;
  std::size_t max_compute_units = 8;
  std::size_t cacheline = 64;
  std::size_t native_width_double = 4;
  std::size_t num_devices = 1;
  bool gpu = false; // what device::is_cpu/is_gpu report
};

struct Stats {
  std::uint64_t commands = 0, kernels = 0, copies = 0, fills = 0;
  std::uint64_t work_items = 0, work_groups = 0, barriers = 0;
  std::uint64_t out_of_order = 0; // executed before an earlier submitted one
  std::uint64_t deferred = 0;     // executed after their submit returned
  std::uint64_t max_pending = 0, waits = 0;
  std::uint64_t usm_allocs = 0, usm_frees = 0, usm_bytes = 0;
  std::uint64_t guarded_sections = 0;
  std::uint64_t hd_kernel = 0, hd_host = 0; // accesses judged by hdmon.inc
};

Stats &stats();
DeviceCaps &caps();
const Config &config();
// Completes everything pending then switches scheduler configuration.
void configure(const Config &c);
// Run every pending command of every queue.
void flush_all();
std::size_t num_pending();
std::size_t usm_live();
std::size_t usm_live_bytes();
std::string usm_live_report(std::size_t max_lines = 10);
// Report a violation of the SYCL contract (prints and aborts unless a handler
// is installed).
void violation(const std::string &msg);
void set_violation_handler(std::function<void(const std::string &)> h);
std::uint64_t rnd();
std::uint64_t rnd(std::uint64_t n);

// ---- used by the header-only API
void submit(QueueImpl *q, CommandPtr c);
void wait(const CommandPtr &c);
void wait_all(QueueImpl *q);
void *usm_alloc(std::size_t bytes, std::size_t align, UsmKind kind);
void usm_free(void *ptr);
int usm_kind(const void *ptr); // -1 unknown
void *local_ptr(std::size_t index);
std::size_t local_size_bytes(std::size_t index);
void barrier();
// scratch space for group collectives
void collective_put(std::size_t item, const void *src, std::size_t bytes);
void collective_get(std::size_t item, void *dst, std::size_t bytes);
void sync_acquire(void *);
void sync_release(void *);

} // namespace syclmon
#endif
