// The SYCL 2020 API subset provided by syclmon (see ../syclmon.hpp).
#ifndef SYCLMON_SYCL_HPP_
#define SYCLMON_SYCL_HPP_
#include "../syclmon.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef SYCL_LANGUAGE_VERSION
#define SYCL_LANGUAGE_VERSION 202012
#endif
#ifndef SYCL_EXTERNAL
#define SYCL_EXTERNAL
#endif

inline namespace syclmon_api {
namespace sycl {

enum class errc { success = 0, runtime, invalid, feature_not_supported };
class exception : public std::exception {
  std::string msg;

public:
  exception(const std::string &m = "sycl exception") : msg(m) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
using exception_list = std::vector<std::exception_ptr>;
using async_handler = std::function<void(exception_list)>;

// ------------------------------------------------------------ range and id
template <int D> class id;
namespace detail_ {
template <int D, typename DERIVED> struct array_common {
  std::array<std::size_t, D> v{};
  std::size_t get(int i) const { return v.at(i); }
  std::size_t &operator[](int i) { return v.at(i); }
  std::size_t operator[](int i) const { return v.at(i); }
};
template <int D, typename DERIVED> struct array_base {
  std::array<std::size_t, D> v{};
  std::size_t get(int i) const { return v.at(i); }
  std::size_t &operator[](int i) { return v.at(i); }
  std::size_t operator[](int i) const { return v.at(i); }
  friend bool operator==(const DERIVED &a, const DERIVED &b) {
    return a.v == b.v;
  }
  friend bool operator!=(const DERIVED &a, const DERIVED &b) {
    return a.v != b.v;
  }
#define SM_OP(op)                                                              \
  friend DERIVED operator op(const DERIVED &a, const DERIVED &b) {             \
    DERIVED r = a;                                                             \
    for (int i = 0; i < D; i++)                                                \
      r.v[i] = a.v[i] op b.v[i];                                               \
    return r;                                                                  \
  }                                                                            \
  template <typename T,                                                        \
            std::enable_if_t<std::is_integral_v<T> && (D > 1), int> = 0>       \
  friend DERIVED operator op(const DERIVED &a, const T &b) {                   \
    DERIVED r = a;                                                             \
    for (int i = 0; i < D; i++)                                                \
      r.v[i] = a.v[i] op static_cast<std::size_t>(b);                          \
    return r;                                                                  \
  }
  SM_OP(+)
  SM_OP(-)
  SM_OP(*)
  SM_OP(/)
  SM_OP(%)
#undef SM_OP
};
} // namespace detail_

template <int D = 1> class range : public detail_::array_base<D, range<D>> {
public:
  static constexpr int dimensions = D;
  range() = default;
  template <int DD = D, std::enable_if_t<DD == 1, int> = 0>
  range(std::size_t a) {
    this->v[0] = a;
  }
  template <int DD = D, std::enable_if_t<DD == 2, int> = 0>
  range(std::size_t a, std::size_t b) {
    this->v[0] = a;
    this->v[1] = b;
  }
  template <int DD = D, std::enable_if_t<DD == 3, int> = 0>
  range(std::size_t a, std::size_t b, std::size_t c) {
    this->v[0] = a;
    this->v[1] = b;
    this->v[2] = c;
  }
  std::size_t size() const {
    std::size_t s = 1;
    for (auto x : this->v)
      s *= x;
    return s;
  }
};
range(std::size_t) -> range<1>;
range(std::size_t, std::size_t) -> range<2>;
range(std::size_t, std::size_t, std::size_t) -> range<3>;

template <int D = 1> class item;
namespace detail_ {
// id<1> behaves like an integer through its conversion, the others have
// element-wise operators.
template <int D> struct id_base : public array_base<D, id<D>> {};
template <> struct id_base<1> : public array_common<1, id<1>> {
  operator std::size_t() const { return this->v[0]; }
};
} // namespace detail_
template <int D = 1> class id : public detail_::id_base<D> {
public:
  static constexpr int dimensions = D;
  id() = default;
  template <int DD = D, std::enable_if_t<DD == 1, int> = 0> id(std::size_t a) {
    this->v[0] = a;
  }
  template <int DD = D, std::enable_if_t<DD == 2, int> = 0>
  id(std::size_t a, std::size_t b) {
    this->v[0] = a;
    this->v[1] = b;
  }
  template <int DD = D, std::enable_if_t<DD == 3, int> = 0>
  id(std::size_t a, std::size_t b, std::size_t c) {
    this->v[0] = a;
    this->v[1] = b;
    this->v[2] = c;
  }
  id(const range<D> &r) {
    for (int i = 0; i < D; i++)
      this->v[i] = r[i];
  }
};
id(std::size_t) -> id<1>;

namespace detail_ {
template <int D> inline id<D> delinearise(std::size_t l, const range<D> &r) {
  id<D> o;
  for (int i = D - 1; i >= 0; i--) {
    o[i] = l % r[i];
    l /= r[i];
  }
  return o;
}
template <int D, typename A, typename B>
inline std::size_t linearise(const A &i, const B &r) {
  std::size_t l = 0;
  for (int d = 0; d < D; d++)
    l = l * r[d] + i[d];
  return l;
}
} // namespace detail_

namespace detail_ {
template <int D> struct item_base {
  id<D> i_;
};
template <> struct item_base<1> {
  id<1> i_;
  operator std::size_t() const { return i_.v[0]; }
};
} // namespace detail_
template <int D> class item : public detail_::item_base<D> {
  using detail_::item_base<D>::i_;
  range<D> r_;

public:
  static constexpr int dimensions = D;
  item(const id<D> &i, const range<D> &r) : detail_::item_base<D>{i}, r_(r) {}
  id<D> get_id() const { return i_; }
  std::size_t get_id(int d) const { return i_.get(d); }
  std::size_t operator[](int d) const { return i_.get(d); }
  range<D> get_range() const { return r_; }
  std::size_t get_range(int d) const { return r_.get(d); }
  std::size_t get_linear_id() const {
    return detail_::linearise<D>(i_, r_);
  }
  operator id<D>() const { return i_; }
};

template <int D = 1> class nd_range {
  range<D> g_, l_;

public:
  static constexpr int dimensions = D;
  nd_range(const range<D> &g, const range<D> &l) : g_(g), l_(l) {}
  range<D> get_global_range() const { return g_; }
  range<D> get_local_range() const { return l_; }
  range<D> get_group_range() const {
    range<D> r = g_;
    for (int i = 0; i < D; i++)
      r[i] = l_[i] ? g_[i] / l_[i] : 0;
    return r;
  }
};

enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };
inline constexpr memory_order memory_order_relaxed = memory_order::relaxed;
inline constexpr memory_order memory_order_acq_rel = memory_order::acq_rel;
inline constexpr memory_order memory_order_seq_cst = memory_order::seq_cst;
inline constexpr memory_scope memory_scope_device = memory_scope::device;
inline constexpr memory_scope memory_scope_work_group =
    memory_scope::work_group;
inline void atomic_fence(memory_order, memory_scope) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
namespace access {
enum class fence_space { local_space, global_space, global_and_local };
enum class address_space {
  global_space,
  local_space,
  private_space,
  generic_space,
  constant_space
};
enum class decorated { no, yes, legacy };
enum class mode { read, write, read_write };
} // namespace access

template <int D = 1> class group {
  id<D> gid_, lid_;
  range<D> lr_, gr_;

public:
  static constexpr int dimensions = D;
  static constexpr memory_scope fence_scope = memory_scope::work_group;
  using id_type = id<D>;
  using range_type = range<D>;
  using linear_id_type = std::size_t;
  group(const id<D> &g, const id<D> &l, const range<D> &lr, const range<D> &gr)
      : gid_(g), lid_(l), lr_(lr), gr_(gr) {}
  id<D> get_group_id() const { return gid_; }
  std::size_t get_group_id(int d) const { return gid_.get(d); }
  id<D> get_id() const { return gid_; }
  std::size_t get_id(int d) const { return gid_.get(d); }
  std::size_t operator[](int d) const { return gid_[d]; }
  id<D> get_local_id() const { return lid_; }
  std::size_t get_local_id(int d) const { return lid_.get(d); }
  range<D> get_local_range() const { return lr_; }
  std::size_t get_local_range(int d) const { return lr_.get(d); }
  range<D> get_max_local_range() const { return lr_; }
  range<D> get_group_range() const { return gr_; }
  std::size_t get_group_range(int d) const { return gr_.get(d); }
  std::size_t get_group_linear_id() const {
    return detail_::linearise<D>(gid_, gr_);
  }
  std::size_t get_linear_id() const { return get_group_linear_id(); }
  std::size_t get_group_linear_range() const { return gr_.size(); }
  std::size_t get_local_linear_id() const {
    return detail_::linearise<D>(lid_, lr_);
  }
  std::size_t get_local_linear_range() const { return lr_.size(); }
  bool leader() const { return get_local_linear_id() == 0; }
};

template <int D>
inline void group_barrier(const group<D> &,
                          memory_scope = memory_scope::work_group) {
  ::syclmon::barrier();
}

template <int D = 1> class nd_item {
  id<D> gid_, lid_;
  range<D> lr_, gr_;

public:
  static constexpr int dimensions = D;
  nd_item(const id<D> &g, const id<D> &l, const range<D> &lr,
          const range<D> &gr)
      : gid_(g), lid_(l), lr_(lr), gr_(gr) {}
  std::size_t get_global_id(int d) const {
    return gid_.get(d) * lr_.get(d) + lid_.get(d);
  }
  id<D> get_global_id() const {
    id<D> r;
    for (int d = 0; d < D; d++)
      r[d] = get_global_id(d);
    return r;
  }
  id<D> get_local_id() const { return lid_; }
  std::size_t get_local_id(int d) const { return lid_.get(d); }
  group<D> get_group() const { return group<D>(gid_, lid_, lr_, gr_); }
  std::size_t get_group(int d) const { return gid_.get(d); }
  std::size_t get_group_linear_id() const {
    return detail_::linearise<D>(gid_, gr_);
  }
  range<D> get_group_range() const { return gr_; }
  std::size_t get_group_range(int d) const { return gr_.get(d); }
  range<D> get_local_range() const { return lr_; }
  std::size_t get_local_range(int d) const { return lr_.get(d); }
  range<D> get_global_range() const { return lr_ * gr_; }
  std::size_t get_global_range(int d) const { return lr_[d] * gr_[d]; }
  std::size_t get_global_linear_id() const {
    return detail_::linearise<D>(get_global_id(), get_global_range());
  }
  std::size_t get_local_linear_id() const {
    return detail_::linearise<D>(lid_, lr_);
  }
  nd_range<D> get_nd_range() const {
    return nd_range<D>(get_global_range(), lr_);
  }
  void barrier(access::fence_space = access::fence_space::global_and_local) const {
    ::syclmon::barrier();
  }
};

// ---------------------------------------------------------- function objects
template <typename T = void> struct plus {
  T operator()(const T &a, const T &b) const { return a + b; }
};
template <> struct plus<void> {
  template <typename A, typename B> auto operator()(const A &a, const B &b) const {
    return a + b;
  }
};
template <typename T = void> struct multiplies {
  T operator()(const T &a, const T &b) const { return a * b; }
};
template <typename T = void> struct minimum {
  T operator()(const T &a, const T &b) const { return b < a ? b : a; }
};
template <typename T = void> struct maximum {
  T operator()(const T &a, const T &b) const { return a < b ? b : a; }
};
template <typename T = void> struct bit_or {
  T operator()(const T &a, const T &b) const { return a | b; }
};
template <typename T = void> struct bit_and {
  T operator()(const T &a, const T &b) const { return a & b; }
};
template <typename T = void> struct logical_or {
  T operator()(const T &a, const T &b) const { return a || b; }
};
template <typename T = void> struct logical_and {
  T operator()(const T &a, const T &b) const { return a && b; }
};
namespace detail_ {
template <typename OP, typename T> struct identity_of;
template <typename U, typename T> struct identity_of<plus<U>, T> {
  static constexpr T value() { return T(0); }
};
template <typename U, typename T> struct identity_of<multiplies<U>, T> {
  static constexpr T value() { return T(1); }
};
template <typename U, typename T> struct identity_of<minimum<U>, T> {
  static constexpr T value() {
    return std::numeric_limits<T>::has_infinity
               ? std::numeric_limits<T>::infinity()
               : std::numeric_limits<T>::max();
  }
};
template <typename U, typename T> struct identity_of<maximum<U>, T> {
  static constexpr T value() {
    return std::numeric_limits<T>::has_infinity
               ? -std::numeric_limits<T>::infinity()
               : std::numeric_limits<T>::lowest();
  }
};
template <typename U, typename T> struct identity_of<bit_or<U>, T> {
  static constexpr T value() { return T(0); }
};
template <typename U, typename T> struct identity_of<bit_and<U>, T> {
  static constexpr T value() { return ~T(0); }
};
template <typename U, typename T> struct identity_of<logical_or<U>, T> {
  static constexpr T value() { return T(false); }
};
template <typename U, typename T> struct identity_of<logical_and<U>, T> {
  static constexpr T value() { return T(true); }
};
} // namespace detail_

// ---------------------------------------------------------- group algorithms
template <typename G, typename T, typename OP>
inline T reduce_over_group(G g, T x, OP op) {
  const std::size_t L = g.get_local_linear_range();
  ::syclmon::collective_put(g.get_local_linear_id(), &x, sizeof(T));
  ::syclmon::barrier();
  T r;
  ::syclmon::collective_get(0, &r, sizeof(T));
  for (std::size_t i = 1; i < L; i++) {
    T y;
    ::syclmon::collective_get(i, &y, sizeof(T));
    r = op(r, y);
  }
  ::syclmon::barrier();
  return r;
}
template <typename G, typename T, typename OP>
inline T exclusive_scan_over_group(G g, T x, OP op) {
  ::syclmon::collective_put(g.get_local_linear_id(), &x, sizeof(T));
  ::syclmon::barrier();
  T r = detail_::identity_of<OP, T>::value();
  for (std::size_t i = 0; i < g.get_local_linear_id(); i++) {
    T y;
    ::syclmon::collective_get(i, &y, sizeof(T));
    r = op(r, y);
  }
  ::syclmon::barrier();
  return r;
}
template <typename G, typename T, typename OP>
inline T inclusive_scan_over_group(G g, T x, OP op) {
  const T e = exclusive_scan_over_group(g, x, op);
  return op(e, x);
}
template <typename G, typename T>
inline T group_broadcast(G g, T x, std::size_t src = 0) {
  ::syclmon::collective_put(g.get_local_linear_id(), &x, sizeof(T));
  ::syclmon::barrier();
  T r;
  ::syclmon::collective_get(src, &r, sizeof(T));
  ::syclmon::barrier();
  return r;
}
template <typename G> inline bool any_of_group(G g, bool p) {
  return reduce_over_group(g, int(p), maximum<int>()) != 0;
}
template <typename G> inline bool all_of_group(G g, bool p) {
  return reduce_over_group(g, int(p), minimum<int>()) != 0;
}
template <typename G> inline bool none_of_group(G g, bool p) {
  return !any_of_group(g, p);
}
template <typename G, typename T, typename OP>
inline auto joint_reduce(G g, T *first, T *last, OP op) {
  using V = std::remove_cv_t<T>;
  V r = detail_::identity_of<OP, V>::value();
  const std::size_t L = g.get_local_linear_range();
  for (T *p = first + g.get_local_linear_id(); p < last; p += L)
    r = op(r, *p);
  return reduce_over_group(g, r, op);
}
template <typename G, typename IT, typename OT, typename OP>
inline OT joint_exclusive_scan(G g, IT first, IT last, OT result, OP op) {
  using V = std::remove_cv_t<std::remove_reference_t<decltype(*result)>>;
  const std::ptrdiff_t n = last - first;
  ::syclmon::barrier();
  if (g.get_local_linear_id() == 0) {
    V acc = detail_::identity_of<OP, V>::value();
    for (std::ptrdiff_t i = 0; i < n; i++) {
      const V x = first[i];
      result[i] = acc;
      acc = op(acc, x);
    }
  }
  ::syclmon::barrier();
  return result + n;
}
template <typename G, typename IT, typename OT, typename T, typename OP>
inline OT joint_exclusive_scan(G g, IT first, IT last, OT result, T init,
                               OP op) {
  using V = std::remove_cv_t<std::remove_reference_t<decltype(*result)>>;
  const std::ptrdiff_t n = last - first;
  ::syclmon::barrier();
  if (g.get_local_linear_id() == 0) {
    V acc = init;
    for (std::ptrdiff_t i = 0; i < n; i++) {
      const V x = first[i];
      result[i] = acc;
      acc = op(acc, x);
    }
  }
  ::syclmon::barrier();
  return result + n;
}
template <typename G, typename IT, typename OT, typename OP>
inline OT joint_inclusive_scan(G g, IT first, IT last, OT result, OP op) {
  using V = std::remove_cv_t<std::remove_reference_t<decltype(*result)>>;
  const std::ptrdiff_t n = last - first;
  ::syclmon::barrier();
  if (g.get_local_linear_id() == 0) {
    V acc = detail_::identity_of<OP, V>::value();
    for (std::ptrdiff_t i = 0; i < n; i++) {
      const V x = first[i];
      acc = op(acc, x);
      result[i] = acc;
    }
  }
  ::syclmon::barrier();
  return result + n;
}

// ------------------------------------------------------------------ atomics
template <typename T, memory_order O = memory_order::relaxed,
          memory_scope S = memory_scope::device,
          access::address_space A = access::address_space::generic_space>
class atomic_ref {
  T *p;
  template <typename F> T rmw(F f) const {
    T old;
    __atomic_load(p, &old, __ATOMIC_RELAXED);
    for (;;) {
      T nw = f(old);
      if (__atomic_compare_exchange(p, &old, &nw, false, __ATOMIC_RELAXED,
                                    __ATOMIC_RELAXED))
        return old;
    }
  }

public:
  using value_type = T;
  explicit atomic_ref(T &r) : p(&r) {}
  atomic_ref(const atomic_ref &) = default;
  bool is_lock_free() const { return true; }
  void store(T v, memory_order = O, memory_scope = S) const {
    __atomic_store(p, &v, __ATOMIC_RELAXED);
  }
  T load(memory_order = O, memory_scope = S) const {
    T v;
    __atomic_load(p, &v, __ATOMIC_RELAXED);
    return v;
  }
  operator T() const { return load(); }
  T operator=(T v) const {
    store(v);
    return v;
  }
  T exchange(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T) { return v; });
  }
  bool compare_exchange_strong(T &expected, T desired, memory_order = O,
                               memory_scope = S) const {
    return __atomic_compare_exchange(p, &expected, &desired, false,
                                     __ATOMIC_RELAXED, __ATOMIC_RELAXED);
  }
  bool compare_exchange_strong(T &expected, T desired, memory_order,
                               memory_order, memory_scope = S) const {
    return compare_exchange_strong(expected, desired);
  }
  bool compare_exchange_weak(T &expected, T desired, memory_order = O,
                             memory_scope = S) const {
    return compare_exchange_strong(expected, desired);
  }
  bool compare_exchange_weak(T &expected, T desired, memory_order,
                             memory_order, memory_scope = S) const {
    return compare_exchange_strong(expected, desired);
  }
  template <typename U> T fetch_add(U v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) { return static_cast<T>(o + static_cast<T>(v)); });
  }
  template <typename U> T fetch_sub(U v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) { return static_cast<T>(o - static_cast<T>(v)); });
  }
  T fetch_min(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) { return v < o ? v : o; });
  }
  T fetch_max(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) { return o < v ? v : o; });
  }
  T fetch_and(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) { return static_cast<T>(o & v); });
  }
  T fetch_or(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) { return static_cast<T>(o | v); });
  }
  T fetch_xor(T v, memory_order = O, memory_scope = S) const {
    return rmw([&](T o) { return static_cast<T>(o ^ v); });
  }
  T operator+=(T v) const { return fetch_add(v) + v; }
  T operator-=(T v) const { return fetch_sub(v) - v; }
  T operator++(int) const { return fetch_add(T(1)); }
  T operator--(int) const { return fetch_sub(T(1)); }
  T operator++() const { return fetch_add(T(1)) + T(1); }
  T operator--() const { return fetch_sub(T(1)) - T(1); }
};

// --------------------------------------------------------------------- math
#define SM_MATH1(name)                                                         \
  template <typename T> inline auto name(const T x) {                          \
    if constexpr (std::is_floating_point_v<T>)                                 \
      return static_cast<T>(std::name(x));                                     \
    else                                                                       \
      return std::name(static_cast<double>(x));                                \
  }
SM_MATH1(sin)
SM_MATH1(cos)
SM_MATH1(tan)
SM_MATH1(asin)
SM_MATH1(acos)
SM_MATH1(atan)
SM_MATH1(sinh)
SM_MATH1(cosh)
SM_MATH1(tanh)
SM_MATH1(exp)
SM_MATH1(exp2)
SM_MATH1(expm1)
SM_MATH1(log)
SM_MATH1(log2)
SM_MATH1(log10)
SM_MATH1(log1p)
SM_MATH1(sqrt)
SM_MATH1(cbrt)
SM_MATH1(round)
SM_MATH1(trunc)
SM_MATH1(floor)
SM_MATH1(ceil)
SM_MATH1(rint)
SM_MATH1(fabs)
SM_MATH1(tgamma)
SM_MATH1(lgamma)
SM_MATH1(erf)
SM_MATH1(erfc)
#undef SM_MATH1
template <typename T> inline auto rsqrt(const T x) { return T(1) / std::sqrt(x); }
template <typename T> inline T sincos(const T x, T *c) {
  *c = std::cos(x);
  return std::sin(x);
}
#define SM_MATH2(name)                                                         \
  template <typename T, typename U> inline auto name(const T x, const U y) {   \
    return std::name(x, y);                                                    \
  }
SM_MATH2(pow)
SM_MATH2(atan2)
SM_MATH2(fmod)
SM_MATH2(fmin)
SM_MATH2(fmax)
SM_MATH2(hypot)
SM_MATH2(copysign)
SM_MATH2(remainder)
#undef SM_MATH2
template <typename T> inline T pown(const T x, int n) { return std::pow(x, n); }
template <typename T, typename U, typename V>
inline auto fma(const T x, const U y, const V z) {
  return std::fma(x, y, z);
}
template <typename T> inline T mad(T x, T y, T z) { return x * y + z; }
template <typename T, typename U>
inline std::common_type_t<T, U> min(const T a, const U b) {
  using C = std::common_type_t<T, U>;
  return static_cast<C>(b) < static_cast<C>(a) ? static_cast<C>(b)
                                                : static_cast<C>(a);
}
template <typename T, typename U>
inline std::common_type_t<T, U> max(const T a, const U b) {
  using C = std::common_type_t<T, U>;
  return static_cast<C>(a) < static_cast<C>(b) ? static_cast<C>(b)
                                                : static_cast<C>(a);
}
template <typename T> inline T clamp(T x, T lo, T hi) {
  return x < lo ? lo : (hi < x ? hi : x);
}
template <typename T> inline auto abs(const T x) {
  return x < T(0) ? static_cast<T>(-x) : x;
}
template <typename T> inline auto isnan(T x) { return std::isnan(x); }
template <typename T> inline auto isinf(T x) { return std::isinf(x); }
template <typename T> inline auto isfinite(T x) { return std::isfinite(x); }
template <typename T> inline T sign(T x) {
  return x > 0 ? T(1) : (x < 0 ? T(-1) : x);
}

// ------------------------------------------------------------------- device
namespace info {
enum class local_mem_type { none, local, global };
enum class device_type { cpu, gpu, all };
enum class event_command_status { submitted, running, complete };
namespace device {
#define SM_INFO(name, type)                                                    \
  struct name {                                                                \
    using return_type = type;                                                  \
  };
SM_INFO(name, std::string)
SM_INFO(vendor, std::string)
SM_INFO(version, std::string)
SM_INFO(driver_version, std::string)
SM_INFO(max_work_group_size, std::size_t)
SM_INFO(local_mem_size, std::uint64_t)
SM_INFO(global_mem_size, std::uint64_t)
SM_INFO(max_mem_alloc_size, std::uint64_t)
SM_INFO(local_mem_type, ::sycl::info::local_mem_type)
SM_INFO(native_vector_width_double, std::uint32_t)
SM_INFO(native_vector_width_float, std::uint32_t)
SM_INFO(native_vector_width_int, std::uint32_t)
SM_INFO(native_vector_width_long, std::uint32_t)
SM_INFO(max_compute_units, std::uint32_t)
SM_INFO(global_mem_cache_line_size, std::uint32_t)
SM_INFO(sub_group_sizes, std::vector<std::size_t>)
#undef SM_INFO
template <int D> struct max_work_item_sizes {
  using return_type = ::sycl::range<D>;
};
} // namespace device
namespace platform {
struct name {
  using return_type = std::string;
};
} // namespace platform
namespace event {
struct command_execution_status {
  using return_type = event_command_status;
};
} // namespace event
namespace event_profiling {
struct command_start {
  using return_type = std::uint64_t;
};
struct command_end {
  using return_type = std::uint64_t;
};
} // namespace event_profiling
} // namespace info

enum class aspect { cpu, gpu, fp64, atomic64, usm_device_allocations };
struct default_selector_t {};
struct cpu_selector_t {};
struct gpu_selector_t {};
inline constexpr default_selector_t default_selector_v{};
inline constexpr cpu_selector_t cpu_selector_v{};
inline constexpr gpu_selector_t gpu_selector_v{};
using default_selector = default_selector_t;
using cpu_selector = cpu_selector_t;
using gpu_selector = gpu_selector_t;

class platform;
class device {
  int index_ = 0;

public:
  device(int i = 0) : index_(i) {}
  explicit device(default_selector_t) {}
  explicit device(cpu_selector_t) {}
  explicit device(gpu_selector_t) {
    throw exception("syclmon: no GPU device");
  }
  bool is_cpu() const { return !syclmon::caps().gpu; }
  bool is_gpu() const { return syclmon::caps().gpu; }
  bool is_accelerator() const { return false; }
  bool has(aspect a) const { return a != aspect::gpu; }
  inline platform get_platform() const;
  static std::vector<device>
  get_devices(info::device_type = info::device_type::all) {
    std::vector<device> v;
    for (std::size_t i = 0; i < ::syclmon::caps().num_devices; i++)
      v.push_back(device(static_cast<int>(i)));
    return v;
  }
  template <typename I> typename I::return_type get_info() const {
    const auto &c = ::syclmon::caps();
    using namespace info::device;
    if constexpr (std::is_same_v<I, info::device::name>)
      return "syclmon";
    else if constexpr (std::is_same_v<I, vendor>)
      return "syclmon";
    else if constexpr (std::is_same_v<I, version> ||
                       std::is_same_v<I, driver_version>)
      return "0";
    else if constexpr (std::is_same_v<I, max_work_group_size>)
      return c.max_work_group_size;
    else if constexpr (std::is_same_v<I, local_mem_size>)
      return c.local_mem_size;
    else if constexpr (std::is_same_v<I, global_mem_size> ||
                       std::is_same_v<I, max_mem_alloc_size>)
      return std::uint64_t(1) << 33;
    else if constexpr (std::is_same_v<I, info::device::local_mem_type>)
      return ::sycl::info::local_mem_type::local;
    else if constexpr (std::is_same_v<I, native_vector_width_double> ||
                       std::is_same_v<I, native_vector_width_long>)
      return c.native_width_double;
    else if constexpr (std::is_same_v<I, native_vector_width_float> ||
                       std::is_same_v<I, native_vector_width_int>)
      return 2 * c.native_width_double;
    else if constexpr (std::is_same_v<I, max_compute_units>)
      return c.max_compute_units;
    else if constexpr (std::is_same_v<I, global_mem_cache_line_size>)
      return c.cacheline;
    else if constexpr (std::is_same_v<I, sub_group_sizes>)
      return std::vector<std::size_t>{1, 8};
    else {
      typename I::return_type r{};
      for (int d = 0; d < I::return_type::dimensions; d++)
        r[d] = c.max_work_group_size;
      return r;
    }
  }
  friend bool operator==(const device &a, const device &b) {
    return a.index_ == b.index_;
  }
};
class platform {
public:
  std::vector<device>
  get_devices(info::device_type = info::device_type::all) const {
    return device::get_devices();
  }
  template <typename I> typename I::return_type get_info() const {
    return "syclmon";
  }
  static std::vector<platform> get_platforms() { return {platform{}}; }
};
inline platform device::get_platform() const { return platform{}; }

class context {
public:
  context() = default;
  context(const device &) {}
};

namespace property {
namespace queue {
struct in_order {};
struct enable_profiling {};
} // namespace queue
} // namespace property
class property_list {
public:
  bool in_order = false;
  property_list() = default;
  template <typename... P> property_list(P... p) { (add(p), ...); }

private:
  void add(property::queue::in_order) { in_order = true; }
  template <typename T> void add(T) {}
};

// -------------------------------------------------------------------- event
class event {
public:
  ::syclmon::CommandPtr c;
  event() = default;
  explicit event(::syclmon::CommandPtr p) : c(std::move(p)) {}
  void wait() const { ::syclmon::wait(c); }
  void wait_and_throw() const { ::syclmon::wait(c); }
  static void wait(const std::vector<event> &v) {
    for (auto &e : v)
      e.wait();
  }
  static void wait_and_throw(const std::vector<event> &v) { wait(v); }
  template <typename I> typename I::return_type get_info() const {
    return (!c || c->done) ? info::event_command_status::complete
                           : info::event_command_status::submitted;
  }
  template <typename I> typename I::return_type get_profiling_info() const {
    return 0;
  }
  friend bool operator==(const event &a, const event &b) { return a.c == b.c; }
  friend bool operator!=(const event &a, const event &b) { return a.c != b.c; }
};

// ------------------------------------------------------------------ handler
class handler;
template <typename T, int D = 1> class local_accessor {
  std::size_t index_ = 0;
  range<D> r_;

public:
  using value_type = T;
  local_accessor() = default;
  inline local_accessor(const range<D> &r, handler &cgh);
  template <int DD = D, std::enable_if_t<DD == 1, int> = 0>
  T &operator[](std::size_t i) const {
    return get_raw()[i];
  }
  template <int DD = D, std::enable_if_t<(DD > 1), int> = 0>
  T &operator[](const id<DD> &i) const {
    return get_raw()[detail_::linearise<D>(i, r_)];
  }
  struct row {
    T *p;
    T &operator[](std::size_t j) const { return p[j]; }
  };
  template <int DD = D, std::enable_if_t<DD == 2, int> = 0>
  row operator[](std::size_t i) const {
    return row{get_raw() + i * r_[1]};
  }
  std::size_t size() const { return r_.size(); }
  range<D> get_range() const { return r_; }
  T *get_raw() const { return static_cast<T *>(::syclmon::local_ptr(index_)); }
  T *get_pointer() const { return get_raw(); }
  struct mptr {
    T *p;
    T *get() const { return p; }
    T *get_raw() const { return p; }
    operator T *() const { return p; }
    T &operator[](std::ptrdiff_t i) const { return p[i]; }
  };
  template <access::decorated = access::decorated::no>
  mptr get_multi_ptr() const {
    return mptr{get_raw()};
  }
};

namespace detail_ {
template <int D, typename F> struct RangeKernel {
  range<D> r;
  F f;
  static void run(void *p, std::size_t i) {
    auto *k = static_cast<RangeKernel *>(p);
    if constexpr (std::is_invocable_v<const F &, item<D>>)
      k->f(item<D>(delinearise<D>(i, k->r), k->r));
    else
      k->f(delinearise<D>(i, k->r));
  }
};
template <int D, typename F> struct NdKernel {
  range<D> lr, gr;
  F f;
  static void run(void *p, std::size_t g, std::size_t l) {
    auto *k = static_cast<NdKernel *>(p);
    k->f(nd_item<D>(delinearise<D>(g, k->gr), delinearise<D>(l, k->lr), k->lr,
                    k->gr));
  }
};
template <typename F> struct TaskKernel {
  F f;
  static void run(void *p, std::size_t) { static_cast<TaskKernel *>(p)->f(); }
};
struct CopyOp {
  void *d;
  const void *s;
  std::size_t n;
  static void run(void *p, std::size_t) {
    auto *k = static_cast<CopyOp *>(p);
    if (k->n)
      std::memcpy(k->d, k->s, k->n);
  }
};
struct SetOp {
  void *d;
  int v;
  std::size_t n;
  static void run(void *p, std::size_t) {
    auto *k = static_cast<SetOp *>(p);
    if (k->n)
      std::memset(k->d, k->v, k->n);
  }
};
template <typename T> struct FillOp {
  T *d;
  T v;
  std::size_t n;
  static void run(void *p, std::size_t) {
    auto *k = static_cast<FillOp *>(p);
    for (std::size_t i = 0; i < k->n; i++)
      k->d[i] = k->v;
  }
};
} // namespace detail_

class handler {
public:
  ::syclmon::CommandPtr c = std::make_shared<::syclmon::Command>();
  bool used = false;
  std::vector<std::size_t> local_bytes;

  void depends_on(const event &e) {
    if (e.c)
      c->deps.push_back(e.c);
  }
  void depends_on(const std::vector<event> &v) {
    for (auto &e : v)
      depends_on(e);
  }
  void use() {
    if (used)
      ::syclmon::violation("more than one command in a command group");
    used = true;
  }
  template <typename NAME = void, int D, typename F>
  void parallel_for(range<D> r, F f) {
    use();
    using K = detail_::RangeKernel<D, F>;
    c->kind = ::syclmon::Kind::kernel;
    c->obj = std::shared_ptr<K>(new K{r, f});
    c->item_fn = &K::run;
    c->n = r.size();
  }
  template <typename NAME = void, int D, typename F>
  void parallel_for(nd_range<D> r, F f) {
    use();
    const auto &caps = ::syclmon::caps();
    const auto lr = r.get_local_range();
    const auto g = r.get_global_range();
    for (int d = 0; d < D; d++) {
      if (lr[d] == 0)
        ::syclmon::violation("nd_range with a local size of zero");
      else if (g[d] % lr[d])
        ::syclmon::violation("nd_range: local size " + std::to_string(lr[d]) +
                             " does not divide global size " +
                             std::to_string(g[d]));
    }
    if (lr.size() > caps.max_work_group_size)
      ::syclmon::violation("work group size " + std::to_string(lr.size()) +
                           " exceeds the device limit " +
                           std::to_string(caps.max_work_group_size));
    std::size_t total = 0;
    for (auto b : local_bytes)
      total += b;
    if (total > caps.local_mem_size)
      ::syclmon::violation("local memory request of " + std::to_string(total) +
                           " bytes exceeds the device limit " +
                           std::to_string(caps.local_mem_size));
    using K = detail_::NdKernel<D, F>;
    c->kind = ::syclmon::Kind::kernel;
    c->obj = std::shared_ptr<K>(new K{lr, r.get_group_range(), f});
    c->group_fn = &K::run;
    c->groups = r.get_group_range().size();
    c->group_size = lr.size();
    c->local_bytes = local_bytes;
  }
  template <typename NAME = void, typename F>
  void parallel_for(std::size_t n, F f) {
    parallel_for<NAME>(range<1>(n), f);
  }
  template <typename NAME = void, typename F> void single_task(F f) {
    use();
    using K = detail_::TaskKernel<F>;
    c->obj = std::shared_ptr<K>(new K{f});
    c->item_fn = &K::run;
  }
  template <typename F> void host_task(F f) {
    single_task(f);
    c->kind = ::syclmon::Kind::host;
  }
  void memcpy(void *d, const void *s, std::size_t n) {
    use();
    c->kind = ::syclmon::Kind::copy;
    c->obj = std::shared_ptr<detail_::CopyOp>(new detail_::CopyOp{d, s, n});
    c->item_fn = &detail_::CopyOp::run;
  }
  template <typename T> void copy(const T *s, T *d, std::size_t n) {
    this->memcpy(d, s, n * sizeof(T));
  }
  void memset(void *d, int v, std::size_t n) {
    use();
    c->kind = ::syclmon::Kind::fill;
    c->obj = std::shared_ptr<detail_::SetOp>(new detail_::SetOp{d, v, n});
    c->item_fn = &detail_::SetOp::run;
  }
  template <typename T> void fill(void *d, const T &v, std::size_t n) {
    use();
    using K = detail_::FillOp<T>;
    c->kind = ::syclmon::Kind::fill;
    c->obj = std::shared_ptr<K>(new K{static_cast<T *>(d), v, n});
    c->item_fn = &K::run;
  }
  void ext_oneapi_barrier() { use(); }
  void ext_oneapi_barrier(const std::vector<event> &v) {
    use();
    depends_on(v);
  }
};
template <typename T, int D>
inline local_accessor<T, D>::local_accessor(const range<D> &r, handler &cgh)
    : index_(cgh.local_bytes.size()), r_(r) {
  cgh.local_bytes.push_back(r.size() * sizeof(T));
}

// -------------------------------------------------------------------- queue
class queue {
  std::shared_ptr<::syclmon::QueueImpl> q;
  device dev;

public:
  queue(const property_list &p = {}) : queue(device{}, p) {}
  explicit queue(const device &d, const property_list &p = {})
      : q(std::make_shared<::syclmon::QueueImpl>()), dev(d) {
    q->in_order = p.in_order;
  }
  queue(const device &d, const async_handler &, const property_list &p = {})
      : queue(d, p) {}
  queue(const context &, const device &d, const property_list &p = {})
      : queue(d, p) {}
  explicit queue(default_selector_t, const property_list &p = {})
      : queue(device{}, p) {}
  explicit queue(cpu_selector_t, const property_list &p = {})
      : queue(device{}, p) {}
  bool is_in_order() const { return q->in_order; }
  device get_device() const { return dev; }
  context get_context() const { return context{}; }
  void wait() { ::syclmon::wait_all(q.get()); }
  void wait_and_throw() { ::syclmon::wait_all(q.get()); }
  void throw_asynchronous() {}
  friend bool operator==(const queue &a, const queue &b) { return a.q == b.q; }

  static bool &submit_inside() {
    static thread_local bool inside = false;
    return inside;
  }
  template <typename F> event submit(F cgf) {
    // a submission from inside a command group function is an error
    bool &inside = submit_inside();
    if (inside)
      throw exception("Calls to sycl::queue::submit cannot be nested. Command "
                      "group function objects should use the sycl::handler API "
                      "instead.");
    handler h;
    struct Guard {
      bool &b;
      Guard(bool &x) : b(x) { b = true; }
      ~Guard() { b = false; }
    };
    {
      Guard guard(inside);
      cgf(h);
    }
    ::syclmon::submit(q.get(), h.c);
    return event(h.c);
  }
  template <typename F> event submit(F cgf, queue &) { return submit(cgf); }

  template <typename NAME = void, typename R, typename F>
  event parallel_for(R r, const F &f) {
    return submit([&](handler &h) { h.parallel_for<NAME>(r, f); });
  }
  template <typename NAME = void, typename R, typename F>
  event parallel_for(R r, event e, const F &f) {
    return submit([&](handler &h) {
      h.depends_on(e);
      h.parallel_for<NAME>(r, f);
    });
  }
  template <typename NAME = void, typename R, typename F>
  event parallel_for(R r, const std::vector<event> &e, const F &f) {
    return submit([&](handler &h) {
      h.depends_on(e);
      h.parallel_for<NAME>(r, f);
    });
  }
  template <typename NAME = void, typename F> event single_task(const F &f) {
    return submit([&](handler &h) { h.single_task<NAME>(f); });
  }
  template <typename NAME = void, typename F>
  event single_task(event e, const F &f) {
    return submit([&](handler &h) {
      h.depends_on(e);
      h.single_task<NAME>(f);
    });
  }
  event memcpy(void *d, const void *s, std::size_t n) {
    return submit([&](handler &h) { h.memcpy(d, s, n); });
  }
  template <typename E>
  event memcpy(void *d, const void *s, std::size_t n, const E &e) {
    return submit([&](handler &h) {
      h.depends_on(e);
      h.memcpy(d, s, n);
    });
  }
  template <typename T> event copy(const T *s, T *d, std::size_t n) {
    return submit([&](handler &h) { h.copy(s, d, n); });
  }
  template <typename T, typename E>
  event copy(const T *s, T *d, std::size_t n, const E &e) {
    return submit([&](handler &h) {
      h.depends_on(e);
      h.copy(s, d, n);
    });
  }
  event memset(void *d, int v, std::size_t n) {
    return submit([&](handler &h) { h.memset(d, v, n); });
  }
  template <typename E> event memset(void *d, int v, std::size_t n, const E &e) {
    return submit([&](handler &h) {
      h.depends_on(e);
      h.memset(d, v, n);
    });
  }
  template <typename T> event fill(void *d, const T &v, std::size_t n) {
    return submit([&](handler &h) { h.fill(d, v, n); });
  }
  template <typename T, typename E>
  event fill(void *d, const T &v, std::size_t n, const E &e) {
    return submit([&](handler &h) {
      h.depends_on(e);
      h.fill(d, v, n);
    });
  }
  event ext_oneapi_submit_barrier() {
    std::vector<event> v;
    for (auto &c : q->pending)
      v.push_back(event(c));
    return submit([&](handler &h) { h.ext_oneapi_barrier(v); });
  }
  event ext_oneapi_submit_barrier(const std::vector<event> &v) {
    return submit([&](handler &h) { h.ext_oneapi_barrier(v); });
  }
};

// ---------------------------------------------------------------------- USM
namespace usm {
enum class alloc { host, device, shared, unknown };
}
#define SM_ALLOC(kind)                                                         \
  inline void *malloc_##kind(std::size_t n, const queue &) {                   \
    return ::syclmon::usm_alloc(n, 0, ::syclmon::UsmKind::kind);               \
  }                                                                            \
  inline void *aligned_alloc_##kind(std::size_t a, std::size_t n,              \
                                    const queue &) {                           \
    return ::syclmon::usm_alloc(n, a, ::syclmon::UsmKind::kind);               \
  }                                                                            \
  template <typename T> inline T *malloc_##kind(std::size_t n, const queue &) {\
    return static_cast<T *>(                                                   \
        ::syclmon::usm_alloc(n * sizeof(T), 0, ::syclmon::UsmKind::kind));     \
  }
SM_ALLOC(device)
SM_ALLOC(host)
SM_ALLOC(shared)
#undef SM_ALLOC
inline void free(void *p, const queue &) { ::syclmon::usm_free(p); }
inline usm::alloc get_pointer_type(const void *p, const context &) {
  switch (::syclmon::usm_kind(p)) {
  case 0:
    return usm::alloc::device;
  case 1:
    return usm::alloc::host;
  case 2:
    return usm::alloc::shared;
  }
  return usm::alloc::unknown;
}

} // namespace sycl
} // namespace syclmon_api
#endif
