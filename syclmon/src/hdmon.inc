// Host/device separation monitor (flavour "hd").  The sources are compiled with
// the instrumentation of ThreadSanitizer but linked with these entry points:
// every load and store of host code must not touch device memory, every load
// and store of a kernel must stay in unified shared memory, the local memory of
// its group, the kernel object, its own stack or constant data.
#include <link.h>
#include <malloc.h>
namespace syclmon {
namespace {
struct Region {
  std::uintptr_t lo = 0, size = 0, top = 0;
  bool has(std::uintptr_t a) const { return a - lo < size; }
};
Region g_dev, g_shared; // device allocations; host and shared allocations
bool g_in_copy = false, g_reporting = false;
std::uintptr_t g_obj_lo = 0, g_obj_size = 0, g_stack_hi = 0;
struct Image {
  std::uintptr_t lo, hi;
};
std::vector<Image> &images() {
  static auto *v = new std::vector<Image>();
  return *v;
}
void load_images() {
  images().clear();
  dl_iterate_phdr(
      [](struct dl_phdr_info *i, std::size_t, void *) {
        for (int k = 0; k < i->dlpi_phnum; k++)
          if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            const auto lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            images().push_back({lo, lo + i->dlpi_phdr[k].p_memsz});
          }
        return 0;
      },
      nullptr);
}
bool in_image(std::uintptr_t a) {
  for (int pass = 0; pass < 2; pass++) {
    for (auto &x : images())
      if (a >= x.lo && a < x.hi)
        return true;
    if (pass == 0)
      load_images();
  }
  return false;
}
void *hd_alloc(std::size_t bytes, std::size_t align, UsmKind kind) {
  Region &r = kind == UsmKind::device ? g_dev : g_shared;
  if (!r.lo) {
    const std::size_t size = std::size_t(64) << 30;
    void *p = mmap(nullptr, size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      std::perror("syclmon arena");
      std::abort();
    }
    r.lo = (std::uintptr_t)p;
    r.size = size;
    r.top = 64;
  }
  r.top = (r.top + align - 1) / align * align;
  void *p = (void *)(r.lo + r.top);
  r.top += std::max<std::size_t>(bytes, 1) + 64;
  if (r.top > r.size) {
    std::fprintf(stderr, "syclmon: arena exhausted\n");
    std::abort();
  }
  return p;
}
void hd_free(void *p, std::size_t bytes) {
  std::memset(p, 0xDD, bytes);
  const std::uintptr_t s = ((std::uintptr_t)p + 4095) & ~std::uintptr_t(4095);
  const std::uintptr_t e = ((std::uintptr_t)p + bytes) & ~std::uintptr_t(4095);
  if (e > s && e - s > 65536)
    madvise((void *)s, e - s, MADV_DONTNEED);
}
void hd_begin(Command *c) {
  g_in_copy = c->kind != Kind::kernel;
  g_obj_lo = (std::uintptr_t)c->obj.get();
  g_obj_size = g_obj_lo ? malloc_usable_size(c->obj.get()) : 0;
  g_stack_hi = (std::uintptr_t)__builtin_frame_address(0);
  g_stats.guarded_sections += c->kind == Kind::kernel;
}
void hd_end() { g_in_copy = false; }

__attribute__((noinline)) void hd_report(std::uintptr_t a, bool write,
                                         bool kernel) {
  if (g_reporting)
    return;
  g_reporting = true;
  std::ostringstream ss;
  ss << (kernel ? (write ? "a kernel writes host memory that is not accessible on the device"
                         : "a kernel reads host memory that is not accessible on the device")
                : (write ? "host code writes device memory directly"
                         : "host code reads device memory directly"));
  void *bt[16];
  const int n = backtrace(bt, 16);
  char **s = backtrace_symbols(bt, n);
  for (int i = 2; i < n; i++)
    ss << "\n    " << s[i];
  std::free(s);
  violation(ss.str());
  g_reporting = false;
}
void hd_kernel(std::uintptr_t a, bool write) {
  if (g_dev.has(a) || g_shared.has(a))
    return;
  if (a - g_obj_lo < g_obj_size)
    return;
  if (g_cur) {
    const auto lo = (std::uintptr_t)g_cur->stack;
    if (a - lo < FIBER_STACK + 4096)
      return;
  } else if (a < g_stack_hi && a > (std::uintptr_t)__builtin_frame_address(0))
    return;
  for (std::size_t i = 0; i < g_local.size(); i++)
    if (a - (std::uintptr_t)g_local[i] < std::max<std::size_t>(1, g_local_bytes[i]))
      return;
  if (in_image(a))
    return;
  hd_report(a, write, true);
}
inline void hd_access(const void *p, bool write) {
  const auto a = (std::uintptr_t)p;
  if (g_in_kernel) {
    g_stats.hd_kernel++;
    hd_kernel(a, write);
    return;
  }
  g_stats.hd_host++;
  if (g_dev.has(a) && !g_in_copy)
    hd_report(a, write, false);
}
inline void hd_range(const void *p, std::size_t n, bool write) {
  if (n) {
    hd_access(p, write);
    hd_access((const char *)p + n - 1, write);
  }
}
} // namespace
} // namespace syclmon

extern "C" {
using syclmon::hd_access;
using syclmon::hd_range;
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define HD_RW(N)                                                               \
  void __tsan_read##N(void *p) { hd_access(p, false); }                        \
  void __tsan_write##N(void *p) { hd_access(p, true); }                        \
  void __tsan_read_write##N(void *p) { hd_access(p, true); }                   \
  void __tsan_unaligned_read##N(void *p) { hd_access(p, false); }              \
  void __tsan_unaligned_write##N(void *p) { hd_access(p, true); }              \
  void __tsan_unaligned_read_write##N(void *p) { hd_access(p, true); }         \
  void __tsan_volatile_read##N(void *p) { hd_access(p, false); }               \
  void __tsan_volatile_write##N(void *p) { hd_access(p, true); }
HD_RW(1)
HD_RW(2)
HD_RW(4)
HD_RW(8)
HD_RW(16)
void __tsan_vptr_update(void **p, void *) { hd_access(p, true); }
void __tsan_vptr_read(void **p) { hd_access(p, false); }
void __tsan_read_range(void *p, unsigned long n) { hd_range(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { hd_range(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  hd_range(d, n, true);
  hd_range(s, n, false);
  return std::memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  hd_range(d, n, true);
  hd_range(s, n, false);
  return std::memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, unsigned long n) {
  hd_range(d, n, true);
  return std::memset(d, v, n);
}
#define HD_RMW(N, T, OP, FN)                                                   \
  T __tsan_atomic##N##_##OP(volatile T *p, T v, int) {                         \
    hd_access((const void *)p, true);                                          \
    return FN(p, v, __ATOMIC_SEQ_CST);                                         \
  }
#define HD_ATOMIC(N, T)                                                        \
  T __tsan_atomic##N##_load(const volatile T *p, int) {                        \
    hd_access((const void *)p, false);                                         \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##N##_store(volatile T *p, T v, int) {                     \
    hd_access((const void *)p, true);                                          \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  HD_RMW(N, T, exchange, __atomic_exchange_n)                                  \
  HD_RMW(N, T, fetch_add, __atomic_fetch_add)                                  \
  HD_RMW(N, T, fetch_sub, __atomic_fetch_sub)                                  \
  HD_RMW(N, T, fetch_and, __atomic_fetch_and)                                  \
  HD_RMW(N, T, fetch_or, __atomic_fetch_or)                                    \
  HD_RMW(N, T, fetch_xor, __atomic_fetch_xor)                                  \
  HD_RMW(N, T, fetch_nand, __atomic_fetch_nand)                                \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v,     \
                                                 int, int) {                   \
    hd_access((const void *)p, true);                                          \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int,  \
                                               int) {                          \
    hd_access((const void *)p, true);                                          \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int,      \
                                            int) {                             \
    hd_access((const void *)p, true);                                          \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST,             \
                                __ATOMIC_SEQ_CST);                             \
    return e;                                                                  \
  }
HD_ATOMIC(8, unsigned char)
HD_ATOMIC(16, unsigned short)
HD_ATOMIC(32, unsigned int)
HD_ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
