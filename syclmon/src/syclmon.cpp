#include "syclmon.hpp"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <pthread.h>
#include <ucontext.h>
#include <unistd.h>
#include <execinfo.h>

#if defined(__SANITIZE_ADDRESS__)
#define SM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SM_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define SM_TSAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define SM_TSAN 1
#endif

#ifdef SM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#ifdef SM_TSAN
#include <sanitizer/tsan_interface.h>
extern "C" {
void __tsan_acquire(void *);
void __tsan_release(void *);
}
#endif

namespace syclmon {

namespace {
Stats g_stats;
DeviceCaps g_caps;
Config g_config;
std::uint64_t g_rng = 0x9E3779B97F4A7C15ull;
std::uint64_t g_next_id = 0;
std::function<void(const std::string &)> g_violation;
std::vector<QueueImpl *> &queues() {
  static auto *q = new std::vector<QueueImpl *>();
  return *q;
}
bool g_executing = false;

struct Alloc {
  std::size_t bytes;
  UsmKind kind;
  void *base;
  bool arena;
  void *bt[12];
  int nbt;
};
std::map<std::uintptr_t, Alloc> &allocs() {
  static auto *m = new std::map<std::uintptr_t, Alloc>();
  return *m;
}
std::size_t g_live_bytes = 0;

// ---- guarded arena for device memory ----
bool guard_enabled() {
  static int v = -1;
  if (v < 0) {
    const char *e = std::getenv("SYCLMON_GUARD");
    v = (e && std::atoi(e)) ? 1 : 0;
  }
  return v == 1;
}
struct Arena {
  unsigned char *base = nullptr;
  std::size_t size = std::size_t(6) << 30;
  std::size_t top = 0;
  std::size_t committed = 0;
  int depth = 0;
  void init() {
    if (base)
      return;
    base = (unsigned char *)mmap(nullptr, size, PROT_NONE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                 -1, 0);
    if (base == MAP_FAILED) {
      std::perror("syclmon arena");
      std::abort();
    }
  }
  void open() {
    if (!base)
      return;
    if (depth++ == 0 && top)
      mprotect(base, (top + 4095) & ~std::size_t(4095),
               PROT_READ | PROT_WRITE);
  }
  void close() {
    if (!base)
      return;
    if (--depth == 0 && top)
      mprotect(base, (top + 4095) & ~std::size_t(4095), PROT_NONE);
  }
  void *alloc(std::size_t bytes, std::size_t align) {
    init();
    const std::size_t rz = 64;
    std::size_t s = (top + rz + align - 1) / align * align;
    std::size_t e = (s + std::max<std::size_t>(bytes, 1) + rz + 63) & ~std::size_t(63);
    if (e > size) {
      std::fprintf(stderr, "syclmon: arena exhausted\n");
      std::abort();
    }
    const bool was_open = depth > 0;
    if (was_open) { // extend the open region
      mprotect(base, (e + 4095) & ~std::size_t(4095), PROT_READ | PROT_WRITE);
    }
    std::size_t old_top = top;
    top = e;
#ifdef SM_ASAN
    ASAN_POISON_MEMORY_REGION(base + old_top, e - old_top);
    ASAN_UNPOISON_MEMORY_REGION(base + s, bytes);
#else
    (void)old_top;
#endif
    return base + s;
  }
};
Arena g_arena;
} // namespace

Stats &stats() { return g_stats; }
DeviceCaps &caps() { return g_caps; }
const Config &config() { return g_config; }

std::uint64_t rnd() {
  std::uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
std::uint64_t rnd(std::uint64_t n) { return n ? rnd() % n : 0; }

void set_violation_handler(std::function<void(const std::string &)> h) {
  g_violation = h;
}
void violation(const std::string &msg) {
  if (g_violation) {
    g_violation(msg);
    return;
  }
  std::fprintf(stderr, "SYCLMON-VIOLATION: %s\n", msg.c_str());
  std::fflush(stderr);
  std::abort();
}

#ifdef SM_TSAN
void sync_acquire(void *p) { __tsan_acquire(p); }
void sync_release(void *p) { __tsan_release(p); }
#else
void sync_acquire(void *) {}
void sync_release(void *) {}
#endif

// ------------------------------------------------------------------ fibers
namespace {
constexpr std::size_t FIBER_STACK = 256 * 1024;
struct Fiber {
  ucontext_t ctx;
  void *stack = nullptr;
  void *fake_stack = nullptr;
  void *tsan = nullptr;
  void (*task)(void *) = nullptr;
  void *arg = nullptr;
  bool finished = true;
  bool started = false;
};
struct MainCtx {
  ucontext_t ctx;
  void *fake_stack = nullptr;
  void *tsan = nullptr;
  const void *stack_bottom = nullptr;
  std::size_t stack_size = 0;
};
MainCtx g_main;
Fiber *g_cur = nullptr;
std::vector<Fiber *> &fiber_pool() {
  static auto *p = new std::vector<Fiber *>();
  return *p;
}

void main_ctx_init() {
  if (g_main.stack_bottom)
    return;
  pthread_attr_t attr;
  pthread_getattr_np(pthread_self(), &attr);
  void *addr;
  std::size_t size;
  pthread_attr_getstack(&attr, &addr, &size);
  pthread_attr_destroy(&attr);
  g_main.stack_bottom = addr;
  g_main.stack_size = size;
#ifdef SM_TSAN
  g_main.tsan = __tsan_get_current_fiber();
#endif
}

void switch_to_main(bool final) {
  Fiber *f = g_cur;
  (void)final;
#ifdef SM_ASAN
  __sanitizer_start_switch_fiber(&f->fake_stack, g_main.stack_bottom,
                                 g_main.stack_size);
#endif
#ifdef SM_TSAN
  __tsan_switch_to_fiber(g_main.tsan, __tsan_switch_to_fiber_no_sync);
#endif
  swapcontext(&f->ctx, &g_main.ctx);
#ifdef SM_ASAN
  __sanitizer_finish_switch_fiber(f->fake_stack, nullptr, nullptr);
#endif
}

void fiber_entry() {
#ifdef SM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  for (;;) {
    Fiber *f = g_cur;
    f->task(f->arg);
    f->finished = true;
    switch_to_main(false);
  }
}

void switch_to_fiber(Fiber *f) {
  main_ctx_init();
  g_cur = f;
  if (!f->started) {
    f->started = true;
    f->stack = mmap(nullptr, FIBER_STACK + 4096, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = (char *)f->stack + 4096;
    f->ctx.uc_stack.ss_size = FIBER_STACK;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, fiber_entry, 0);
#ifdef SM_TSAN
    f->tsan = __tsan_create_fiber(0);
#endif
  }
#ifdef SM_ASAN
  __sanitizer_start_switch_fiber(&g_main.fake_stack,
                                 f->ctx.uc_stack.ss_sp,
                                 f->ctx.uc_stack.ss_size);
#endif
#ifdef SM_TSAN
  __tsan_switch_to_fiber(f->tsan, __tsan_switch_to_fiber_no_sync);
#endif
  swapcontext(&g_main.ctx, &f->ctx);
#ifdef SM_ASAN
  __sanitizer_finish_switch_fiber(g_main.fake_stack, nullptr, nullptr);
#endif
  g_cur = nullptr;
}

// Fiber i of the pool (created on demand).
Fiber *get_fiber(std::size_t i) {
  auto &p = fiber_pool();
  while (p.size() <= i)
    p.push_back(new Fiber());
  return p[i];
}

template <typename T> void shuffle_vec(std::vector<T> &v) {
  for (std::size_t i = v.size(); i > 1; i--)
    std::swap(v[i - 1], v[rnd(i)]);
}

void make_order(std::vector<std::size_t> &o, std::size_t n) {
  o.resize(n);
  std::iota(o.begin(), o.end(), 0);
  Order m = g_config.order;
  if (m == Order::mixed)
    m = static_cast<Order>(rnd(3));
  if (m == Order::reverse)
    std::reverse(o.begin(), o.end());
  else if (m == Order::shuffled)
    shuffle_vec(o);
}

// current group state
std::vector<void *> g_local;
std::vector<std::size_t> g_local_bytes;
struct Scratch {
  unsigned char *ptr = nullptr;
  std::size_t size = 0;
};
Scratch *g_scratch = nullptr;
std::size_t g_group_L = 0;
char g_barrier_sync = 0;
bool g_in_group = false;
bool g_blocked = false;

Command *g_running = nullptr;
#ifdef SM_HD
bool g_in_kernel = false;
// the runtime itself is not the kernel
struct HdOff {
  bool s = g_in_kernel;
  HdOff() { g_in_kernel = false; }
  ~HdOff() { g_in_kernel = s; }
};
struct HdOn {
  HdOn(bool on) { g_in_kernel = on; }
  ~HdOn() { g_in_kernel = false; }
};
#define SM_RUNTIME HdOff hd_off_
#define SM_KERNEL(c) HdOn hd_on_((c)->kind == Kind::kernel)
#else
#define SM_RUNTIME
#define SM_KERNEL(c)
#endif

// Run task in the given logical thread of execution, ordered after the start of
// the command and before its end.
#ifdef SM_TSAN
constexpr std::size_t NUM_CTX = 6;
#endif
} // namespace

void *local_ptr(std::size_t i) {
  SM_RUNTIME;
  if (!g_in_group)
    violation("local memory accessed outside of an nd_range kernel");
  return g_local.at(i);
}
std::size_t local_size_bytes(std::size_t i) { SM_RUNTIME; return g_local_bytes.at(i); }

void collective_put(std::size_t item, const void *src, std::size_t bytes) {
  SM_RUNTIME;
  const std::size_t need = bytes * g_group_L;
  if (g_scratch->size < need) {
    // Only grows before the first barrier of a collective.
    unsigned char *n = static_cast<unsigned char *>(
        mmap(nullptr, need, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    for (std::size_t i = 0; i < g_scratch->size; i++)
      static_cast<volatile unsigned char *>(n)[i] = g_scratch->ptr[i];
    g_scratch->size = need;
    g_scratch->ptr = n;
  }
  volatile unsigned char *d = g_scratch->ptr + item * bytes;
  const volatile unsigned char *q = static_cast<const unsigned char *>(src);
  for (std::size_t i = 0; i < bytes; i++)
    d[i] = q[i];
}
void collective_get(std::size_t item, void *dst, std::size_t bytes) {
  SM_RUNTIME;
  volatile unsigned char *d = static_cast<unsigned char *>(dst);
  const volatile unsigned char *q = g_scratch->ptr + item * bytes;
  for (std::size_t i = 0; i < bytes; i++)
    d[i] = q[i];
}

void barrier() {
  SM_RUNTIME;
  if (!g_in_group) {
    violation("group barrier outside of an nd_range kernel");
  }
  g_stats.barriers++;
  if (g_group_L == 1)
    return;
  sync_release(&g_barrier_sync);
  g_blocked = true;
  switch_to_main(false);
  sync_acquire(&g_barrier_sync);
}


#ifdef SM_TSAN
// Run fn in a logical thread without any history.
template <typename F> void neutral(F fn) {
  void *t = __tsan_create_fiber(0);
  void *cur = __tsan_get_current_fiber();
  __tsan_switch_to_fiber(t, __tsan_switch_to_fiber_no_sync);
  fn();
  __tsan_switch_to_fiber(cur, __tsan_switch_to_fiber_no_sync);
  __tsan_destroy_fiber(t);
}
// A logical thread keeps its stack and its identity: everything that ran in it
// earlier happens before what runs in it next. The threads of a large pool are
// used in turn such that this only orders kernels that are far apart.
constexpr std::size_t TSAN_POOL = 384;
std::size_t g_fiber_base = 0;
Fiber *next_fiber(std::size_t) {
  const std::size_t pool = std::max<std::size_t>(TSAN_POOL, 2 * g_group_L);
  g_fiber_base = (g_fiber_base + 1) % pool;
  return get_fiber(g_fiber_base);
}
#else
template <typename F> void neutral(F fn) { fn(); }
Fiber *next_fiber(std::size_t i) { return get_fiber(i); }
#endif

namespace {
void command_acquire(Command *c) {
  sync_acquire(&c->sync_start);
#ifdef SM_TSAN
  for (std::size_t i = 0; i < c->deps.size(); i++)
    sync_acquire(&c->deps.data()[i].get()->sync_end);
#endif
}

} // namespace
} // namespace syclmon
#ifdef SM_HD
#include "hdmon.inc"
#endif
namespace syclmon {
namespace {
struct ItemRun {
  Command *c;
  const std::size_t *order;
  std::size_t k, stride, n;
};
[[maybe_unused]] void item_task(void *p) {
  ItemRun *r = static_cast<ItemRun *>(p);
  Command *c = r->c;
  command_acquire(c);
  void *obj = c->obj.get();
  for (std::size_t i = r->k; i < r->n; i += r->stride)
    c->item_fn(obj, r->order[i]);
  sync_release(&c->sync_end);
}

void run_items(Command *c) {
  const std::size_t n = c->item_fn ? c->n : 0;
  std::vector<std::size_t> order;
  make_order(order, n);
  if (c->kind == Kind::kernel)
    g_stats.work_items += n;
#ifdef SM_TSAN
  const std::size_t nctx =
      std::max<std::size_t>(1, std::min<std::size_t>(NUM_CTX, n));
  for (std::size_t k = 0; k < nctx; k++) {
    Fiber *f = next_fiber(k);
    ItemRun r{c, order.data(), k, nctx, n};
    f->task = item_task;
    f->arg = &r;
    switch_to_fiber(f);
  }
#else
  void *obj = c->obj.get();
  for (std::size_t i = 0; i < n; i++) {
    const std::size_t k = order[i];
    SM_KERNEL(c);
    c->item_fn(obj, k);
  }
#endif
}

struct GroupRun {
  Command *c;
  std::size_t group;
  const std::size_t *order;
  std::size_t next, finished, L;
  char mem_ready, mem_done; // allocation of local memory, its release
};
void group_task(void *p) {
  GroupRun *r = static_cast<GroupRun *>(p);
  Command *c = r->c;
  void *obj = c->obj.get();
#ifdef SM_TSAN
  command_acquire(c);
  sync_acquire(&r->mem_ready);
  const std::size_t l = r->order[r->next++];
  c->group_fn(obj, r->group, l);
  r->finished++;
  sync_release(&r->mem_done);
  sync_release(&c->sync_end);
#else
  while (r->next < r->L) {
    const std::size_t l = r->order[r->next++];
    {
      SM_KERNEL(c);
      c->group_fn(obj, r->group, l);
    }
    r->finished++;
  }
#endif
}

void poison_fill(void *p, std::size_t n) {
  volatile unsigned char *q = static_cast<volatile unsigned char *>(p);
  for (std::size_t i = 0; i < n; i++)
    q[i] = (unsigned char)g_config.poison;
}

void run_groups(Command *c) {
  const std::size_t num_groups = c->groups, L = c->group_size;
  std::vector<std::size_t> gorder, order;
  make_order(gorder, num_groups);
  g_stats.work_groups += num_groups;
  g_stats.work_items += num_groups * L;
  const std::size_t nl = c->local_bytes.size();
  g_local_bytes = c->local_bytes;
  g_local.assign(nl, nullptr);
  g_group_L = L;
  g_in_group = true;
  static Scratch *scratch = new Scratch();
  g_scratch = scratch;
  std::vector<Fiber *> blocked, again;
  GroupRun r{};
  auto alloc_local = [&]() {
    for (std::size_t i = 0; i < nl; i++) {
      g_local[i] = std::malloc(std::max<std::size_t>(g_local_bytes[i], 1));
      poison_fill(g_local[i], g_local_bytes[i]);
    }
    sync_release(&r.mem_ready);
  };
  auto free_local = [&]() {
    sync_acquire(&r.mem_done);
    for (std::size_t i = 0; i < nl; i++)
      std::free(g_local[i]);
  };
  bool have_local = false;
  for (std::size_t gi = 0; gi < num_groups; gi++) {
#ifdef SM_TSAN
    if (have_local)
      neutral(free_local);
    neutral(alloc_local);
#else
    if (!have_local)
      alloc_local();
    else
      for (std::size_t i = 0; i < nl; i++)
        poison_fill(g_local[i], g_local_bytes[i]);
#endif
    have_local = true;
    make_order(order, L);
    r.c = c;
    r.group = gorder[gi];
    r.order = order.data();
    r.next = 0;
    r.finished = 0;
    r.L = L;
    blocked.clear();
    std::size_t used = 0;
    while (r.next < L) {
      Fiber *f = next_fiber(used++);
      f->task = group_task;
      f->arg = &r;
      g_blocked = false;
      switch_to_fiber(f);
      if (g_blocked)
        blocked.push_back(f);
    }
    while (!blocked.empty()) {
      if (blocked.size() != L || r.finished != 0) {
        violation("group barrier not reached by every work-item of the group "
                  "(divergent barrier): " +
                  std::to_string(blocked.size()) + " waiting, " +
                  std::to_string(r.finished) + " finished of " +
                  std::to_string(L));
        break;
      }
      if (g_config.order != Order::forward)
        shuffle_vec(blocked);
      again.clear();
      for (Fiber *f : blocked) {
        g_blocked = false;
        switch_to_fiber(f);
        if (g_blocked)
          again.push_back(f);
      }
      blocked.swap(again);
    }
  }
  if (have_local)
    neutral(free_local);
  g_in_group = false;
  g_local.clear();
}
} // namespace

// --------------------------------------------------------------- scheduler
QueueImpl::QueueImpl() { queues().push_back(this); }
QueueImpl::~QueueImpl() {
  wait_all(this);
  auto &q = queues();
  q.erase(std::remove(q.begin(), q.end(), this), q.end());
}

namespace {

void execute(const CommandPtr &c) {
  if (c->done)
    return;
  if (c->running)
    return;
  c->running = true;
  for (auto &d : c->deps)
    execute(d);
  QueueImpl *q = c->queue;
  auto it = std::find(q->pending.begin(), q->pending.end(), c);
  if (it != q->pending.end()) {
    if (it != q->pending.begin())
      g_stats.out_of_order++;
    q->pending.erase(it);
  }
  Command *prev = g_running;
  g_running = c.get();
  g_executing = true;
  g_arena.open();
  g_stats.guarded_sections += guard_enabled();
#ifdef SM_HD
  hd_begin(c.get());
#endif
  if (c->group_fn && c->groups && c->group_size)
    run_groups(c.get());
  else
    run_items(c.get());
#ifdef SM_HD
  hd_end();
#endif
  g_arena.close();
  g_executing = false;
  g_running = prev;
  c->done = true;
  c->running = false;
#ifdef SM_TSAN
  q->retired.push_back(c);
#else
  c->obj.reset();
  c->deps.clear();
#endif
}

void acquire_done(const CommandPtr &c) {
  sync_acquire(&c->sync_end);
#ifdef SM_TSAN
  c->obj.reset();
  c->deps.clear();
#endif
}

void maybe_progress() {
  if (g_executing)
    return;
  if (g_config.async != Async::random)
    return;
  for (auto *q : queues()) {
    if (q->pending.empty())
      continue;
    std::uint64_t k = rnd(4);
    if (k == 0) {
      auto c = q->pending[rnd(q->pending.size())];
      execute(c);
    } else if (k == 1) {
      auto c = q->pending.front();
      execute(c);
    }
  }
}
} // namespace

void submit(QueueImpl *q, CommandPtr c) {
  c->id = g_next_id++;
  c->queue = q;
  g_stats.commands++;
  switch (c->kind) {
  case Kind::kernel:
    g_stats.kernels++;
    break;
  case Kind::copy:
    g_stats.copies++;
    break;
  case Kind::fill:
    g_stats.fills++;
    break;
  default:
    break;
  }
  if ((q->in_order || g_config.in_order_force) && q->last)
    c->deps.push_back(q->last);
  q->last = c;
  // completed dependencies need not be kept (but keep for annotations)
#ifdef SM_TSAN
  sync_release(&c->sync_start);
#else
  c->deps.erase(std::remove_if(c->deps.begin(), c->deps.end(),
                               [](auto &d) { return d->done; }),
                c->deps.end());
#endif
  q->pending.push_back(c);
  g_stats.max_pending =
      std::max<std::uint64_t>(g_stats.max_pending, q->pending.size());
  if (g_config.async == Async::eager) {
    execute(c);
  } else {
    maybe_progress();
    if (!c->done)
      g_stats.deferred++;
  }
}

void wait(const CommandPtr &c) {
  if (!c)
    return;
  g_stats.waits++;
  if (g_executing)
    violation("wait called from inside a kernel");
  maybe_progress();
  execute(c);
  acquire_done(c);
}

void wait_all(QueueImpl *q) {
  g_stats.waits++;
  if (g_executing)
    violation("wait called from inside a kernel");
  while (!q->pending.empty()) {
    CommandPtr c;
    switch (g_config.async) {
    case Async::lifo:
      c = q->pending.back();
      break;
    case Async::random:
    case Async::lazy:
      c = q->pending[rnd(q->pending.size())];
      break;
    default:
      c = q->pending.front();
    }
    execute(c);
  }
#ifdef SM_TSAN
  for (auto &c : q->retired)
    acquire_done(c);
#endif
  q->retired.clear();
}

void flush_all() {
  auto qs = queues();
  for (auto *q : qs)
    wait_all(q);
}
std::size_t num_pending() {
  std::size_t n = 0;
  for (auto *q : queues())
    n += q->pending.size();
  return n;
}
void configure(const Config &c) {
  flush_all();
  g_config = c;
  g_rng = c.seed * 0x2545F4914F6CDD1Dull + 0x1234567;
}

// --------------------------------------------------------------------- USM
void *usm_alloc(std::size_t bytes, std::size_t align, UsmKind kind) {
  if (g_executing)
    violation("USM allocation from inside a kernel");
  maybe_progress();
  if (align < 64)
    align = 64;
  void *p = nullptr;
  bool arena = false;
#ifdef SM_HD
  p = hd_alloc(bytes, align, kind);
  std::memset(p, g_config.poison, bytes);
#else
  if (kind == UsmKind::device && guard_enabled()) {
    g_arena.open();
    p = g_arena.alloc(bytes, align);
    std::memset(p, g_config.poison, bytes);
    g_arena.close();
    arena = true;
  } else {
    if (posix_memalign(&p, align, std::max<std::size_t>(bytes, 1)))
      return nullptr;
    std::memset(p, g_config.poison, bytes);
#ifdef SM_ASAN
    if (bytes == 0)
      ASAN_POISON_MEMORY_REGION(p, 1);
#endif
  }
#endif
  Alloc a{bytes, kind, p, arena, {}, 0};
  static const bool bt = std::getenv("SYCLMON_BT") != nullptr;
  if (bt)
    a.nbt = backtrace(a.bt, 12);
  allocs()[(std::uintptr_t)p] = a;
  g_stats.usm_allocs++;
  g_stats.usm_bytes += bytes;
  g_live_bytes += bytes;
  return p;
}

void usm_free(void *ptr) {
  if (ptr == nullptr)
    return;
  if (g_executing)
    violation("USM free from inside a kernel");
  auto it = allocs().find((std::uintptr_t)ptr);
  if (it == allocs().end()) {
    violation("sycl::free of a pointer that is not a live USM allocation "
              "(double free or foreign pointer)");
    return;
  }
  const Alloc a = it->second;
  allocs().erase(it);
  g_stats.usm_frees++;
  g_live_bytes -= a.bytes;
#ifdef SM_HD
  hd_free(a.base, a.bytes);
  return;
#endif
  if (a.arena) {
    g_arena.open();
    std::memset(a.base, 0xDD, a.bytes);
#ifdef SM_ASAN
    ASAN_POISON_MEMORY_REGION(a.base, std::max<std::size_t>(a.bytes, 1));
#endif
    // hand whole pages back
    std::uintptr_t s = ((std::uintptr_t)a.base + 4095) & ~std::uintptr_t(4095);
    std::uintptr_t e = ((std::uintptr_t)a.base + a.bytes) & ~std::uintptr_t(4095);
    if (e > s)
      madvise((void *)s, e - s, MADV_DONTNEED);
    g_arena.close();
  } else {
#ifdef SM_ASAN
    if (a.bytes == 0)
      ASAN_UNPOISON_MEMORY_REGION(a.base, 1);
#endif
#if !defined(SM_ASAN) && !defined(SM_TSAN)
    std::memset(a.base, 0xDD, a.bytes);
#endif
    std::free(a.base);
  }
}

int usm_kind(const void *ptr) {
  auto &m = allocs();
  auto it = m.upper_bound((std::uintptr_t)ptr);
  if (it == m.begin())
    return -1;
  --it;
  if ((std::uintptr_t)ptr < it->first + std::max<std::size_t>(it->second.bytes, 1))
    return (int)it->second.kind;
  return -1;
}
std::size_t usm_live() { return allocs().size(); }
std::size_t usm_live_bytes() { return g_live_bytes; }
std::string usm_live_report(std::size_t max_lines) {
  std::ostringstream ss;
  for (auto &x : allocs()) {
    if (max_lines-- == 0) {
      ss << "...";
      break;
    }
    ss << "[" << x.second.bytes << " bytes, kind " << (int)x.second.kind
       << "] ";
    if (x.second.nbt) {
      char **s = backtrace_symbols(x.second.bt, x.second.nbt);
      for (int i = 1; i < x.second.nbt; i++)
        ss << "\n    " << s[i];
      std::free(s);
      ss << "\n";
    }
  }
  return ss.str();
}

} // namespace syclmon
