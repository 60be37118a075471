// P14 kernel random numbers, P15 cellwise algorithms, P24 device primitives
// (scans, transposes, sorts, reductions, atomics), P25 containers.
#include "world.hpp"
#include <cmath>
#include <numeric>
using namespace vh;
using namespace NESO::Particles;

namespace {

template <typename T> T rnd_val(Rng &r) {
  if constexpr (std::is_floating_point<T>::value)
    return static_cast<T>(r.range(-1000, 1000)) * 0.25;
  else
    return static_cast<T>(r.range(-1000, 1000));
}
template <typename T> std::vector<T> rnd_vec(Rng &r, std::size_t n) {
  std::vector<T> v(n);
  for (auto &x : v)
    x = rnd_val<T>(r);
  return v;
}
int rnd_size(Rng &r, int max) {
  switch (r.range(0, 4)) {
  case 0:
    return r.range(0, 2);
  case 1: { // around powers of two
    int p = 1 << r.range(0, 9);
    p = std::max(0, p + r.range(-1, 1));
    return std::min(p, max);
  }
  case 2:
    return r.range(0, 20);
  default:
    return r.range(0, max);
  }
}

// a device array with guard elements on both sides
template <typename T> struct Guarded {
  BufferDevice<T> b;
  std::size_t n;
  std::vector<T> init;
  static constexpr std::size_t G = 5;
  Guarded(SYCLTargetSharedPtr t, const std::vector<T> &v, T guard)
      : b(t, v.size() + 2 * G), n(v.size()) {
    init.assign(n + 2 * G, guard);
    std::copy(v.begin(), v.end(), init.begin() + G);
    b.set(init);
  }
  T *ptr() { return b.ptr + G; }
  std::vector<T> get() {
    auto a = b.get();
    return std::vector<T>(a.begin() + G, a.begin() + G + n);
  }
  bool guards_ok() {
    auto a = b.get();
    for (std::size_t i = 0; i < G; i++)
      if (a[i] != init[i] || a[G + n + i] != init[G + n + i])
        return false;
    return true;
  }
};

template <typename T>
void check_vec(const std::vector<T> &got, const std::vector<T> &want,
               const std::string &key, const std::string &where) {
  vh::count("values_compared", want.size());
  if (!VH_CHECK(got.size() == want.size(), key + "/size",
                where << " sizes " << got.size() << " " << want.size()))
    return;
  for (std::size_t i = 0; i < got.size(); i++)
    if (!VH_CHECK(got[i] == want[i], key + "/value",
                  where << " element " << i << " of " << got.size() << ": "
                        << got[i] << " expected " << want[i]))
      return;
}

// --------------------------------------------------------------- scan (P24)
template <typename T> void scans(Case &c, SYCLTargetSharedPtr t) {
  const int n = rnd_size(c.lrng, thorough() ? 6000 : 1200);
  auto v = rnd_vec<T>(c.lrng, n);
  std::vector<T> want(n), untouched(n, T(77));
  std::exclusive_scan(v.begin(), v.end(), want.begin(), T(0));
  const std::string sz = " n=" + std::to_string(n);
  {
    Guarded<T> s(t, v, T(123)), d(t, untouched, T(-5));
    joint_exclusive_scan(t, n, s.ptr(), d.ptr()).wait_and_throw();
    check_vec(d.get(), want, "scan/exclusive", sz);
    VH_CHECK(d.guards_ok() && s.guards_ok() && s.get() == v,
             "scan/exclusive/outside", sz << " other memory changed");
  }
  {
    Guarded<T> s(t, v, T(123)), d(t, untouched, T(-5));
    std::vector<T> aux(get_joint_exclusive_scan_aux_array_size(t, n), T(9));
    Guarded<T> a(t, aux, T(8));
    joint_exclusive_scan(t, n, a.ptr(), s.ptr(), d.ptr()).wait_and_throw();
    check_vec(d.get(), want, "scan/exclusive-aux", sz);
    VH_CHECK(d.guards_ok() && s.guards_ok() && a.guards_ok() && s.get() == v,
             "scan/exclusive-aux/outside", sz << " other memory changed");
  }
  {
    Guarded<T> s(t, v, T(123)), d(t, untouched, T(-5));
    joint_exclusive_scan_blocking(t, n, s.ptr(), d.ptr());
    check_vec(d.get(), want, "scan/exclusive-blocking", sz);
    VH_CHECK(d.guards_ok() && s.guards_ok() && s.get() == v,
             "scan/exclusive-blocking/outside", sz << " other memory changed");
  }
  // segments with gaps, in random storage order
  {
    const int ns = rnd_size(c.lrng, 40);
    std::vector<T> sizes(ns), offsets(ns);
    std::vector<int> order(ns);
    std::iota(order.begin(), order.end(), 0);
    c.lrng.shuffle(order);
    int total = c.lrng.range(0, 3);
    for (int i : order) {
      const int sn = c.lrng.chance(0.2) ? 0 : rnd_size(c.lrng, 200);
      sizes[i] = static_cast<T>(sn);
      offsets[i] = static_cast<T>(total);
      total += sn + (c.lrng.chance(0.3) ? c.lrng.range(0, 3) : 0);
    }
    total += 2;
    auto src = rnd_vec<T>(c.lrng, total);
    std::vector<T> ex(total, T(77)), inc(total, T(77)), sums(ns, T(0));
    for (int i = 0; i < ns; i++) {
      const int b = static_cast<int>(offsets[i]);
      const int sn = static_cast<int>(sizes[i]);
      T acc = 0;
      for (int k = 0; k < sn; k++) {
        ex[b + k] = acc;
        acc += src[b + k];
        inc[b + k] = acc;
      }
      sums[i] = acc;
    }
    const std::string where = " segments=" + std::to_string(ns) + " total " + std::to_string(total);
    std::vector<T> un(total, T(77)), sun(ns, T(66));
    Guarded<T> gs(t, sizes, T(1)), go(t, offsets, T(0));
    {
      Guarded<T> s(t, src, T(3)), d(t, un, T(4));
      joint_exclusive_scan_n(t, ns, gs.ptr(), go.ptr(), s.ptr(), d.ptr())
          .wait_and_throw();
      check_vec(d.get(), ex, "scan/segmented", where);
      VH_CHECK(d.guards_ok() && s.get() == src, "scan/segmented/outside", where);
    }
    {
      Guarded<T> s(t, src, T(3)), d(t, un, T(4));
      joint_inclusive_scan_n(t, ns, gs.ptr(), go.ptr(), s.ptr(), d.ptr())
          .wait_and_throw();
      check_vec(d.get(), inc, "scan/segmented-inclusive", where);
      VH_CHECK(d.guards_ok() && s.get() == src, "scan/segmented-inclusive/outside", where);
    }
    {
      Guarded<T> s(t, src, T(3)), d(t, un, T(4)), q(t, sun, T(5));
      joint_exclusive_scan_n_sum(t, ns, gs.ptr(), go.ptr(), s.ptr(), d.ptr(),
                                 q.ptr())
          .wait_and_throw();
      check_vec(d.get(), ex, "scan/segmented-sum", where);
      check_vec(q.get(), ns ? sums : sun, "scan/segmented-totals", where);
      VH_CHECK(d.guards_ok() && q.guards_ok() && s.get() == src, "scan/segmented-sum/outside", where);
    }
  }
  {
    const int ns = rnd_size(c.lrng, 30), m = rnd_size(c.lrng, 100);
    auto src = rnd_vec<T>(c.lrng, ns * m);
    std::vector<T> ex(ns * m);
    for (int i = 0; i < ns; i++)
      std::exclusive_scan(src.begin() + i * m, src.begin() + (i + 1) * m,
                          ex.begin() + i * m, T(0));
    Guarded<T> s(t, src, T(3)), d(t, std::vector<T>(ns * m, T(77)), T(4));
    joint_exclusive_scan_n(t, static_cast<std::size_t>(ns),
                           static_cast<std::size_t>(m), s.ptr(), d.ptr())
        .wait_and_throw();
    check_vec(d.get(), ex, "scan/fixed-segments",
              " " + std::to_string(ns) + "x" + std::to_string(m));
    VH_CHECK(d.guards_ok() && s.get() == src, "scan/fixed-segments/outside", ns << "x" << m);
  }
  vh::count("scans", 7);
}

template <typename T> void reductions(Case &c, SYCLTargetSharedPtr t) {
  const int n = rnd_size(c.lrng, 800);
  auto v = rnd_vec<T>(c.lrng, n);
  Guarded<T> s(t, v, T(55)), r(t, std::vector<T>(1, T(0)), T(1));
  auto one = [&](auto op, T id, auto f, const char *name) {
    T want = id;
    for (auto x : v)
      want = f(want, x);
    reduce_values(t, n, s.ptr(), op, r.ptr()).wait_and_throw();
    auto g = r.get();
    VH_CHECK(g[0] == want && r.guards_ok() && s.get() == v,
             std::string("reduce-values/") + name,
             "n=" << n << " got " << g[0] << " expected " << want);
    vh::count("reductions");
  };
  one(Kernel::plus<T>{}, T(0), [](T a, T b) { return a + b; }, "plus");
  if (n) { // the identity of an empty minimum is left to the library
    one(Kernel::minimum<T>{}, v[0], [](T a, T b) { return std::min(a, b); }, "min");
    one(Kernel::maximum<T>{}, v[0], [](T a, T b) { return std::max(a, b); }, "max");
  }
}

template <typename T> void atomics(Case &c, SYCLTargetSharedPtr t) {
  // n work items race on a few locations
  const int n = c.lrng.range(1, 600), m = c.lrng.range(1, 4);
  auto v = rnd_vec<T>(c.lrng, n);
  auto init = rnd_vec<T>(c.lrng, m);
  BufferDevice<T> dv(t, v), da(t, init), db(t, init), dc(t, init), dold(t, n),
      de(t, init), df(t, init);
  auto kv = dv.ptr, ka = da.ptr, kb = db.ptr, kc = dc.ptr, ko = dold.ptr,
       ke = de.ptr, kf = df.ptr;
  t->queue
      .parallel_for(sycl::range<1>(n),
                    [=](sycl::id<1> idx) {
                      const int i = static_cast<int>(idx[0]);
                      ko[i] = atomic_fetch_add(&ka[i % m], kv[i]);
                      atomic_fetch_min(&kb[i % m], kv[i]);
                      atomic_fetch_max(&kc[i % m], kv[i]);
                      Kernel::atomic_reduce(Kernel::plus<T>{}, &ke[i % m], kv[i]);
                      atomic_fetch_max_cas_strong(&kf[i % m], kv[i]);
                    })
      .wait_and_throw();
  auto ga = da.get(), gb = db.get(), gc = dc.get(), go = dold.get(),
       ge = de.get(), gf = df.get();
  for (int k = 0; k < m; k++) {
    T s = init[k], lo = init[k], hi = init[k];
    std::vector<std::pair<T, T>> steps; // (old, value)
    for (int i = k; i < n; i += m) {
      s += v[i];
      lo = std::min(lo, v[i]);
      hi = std::max(hi, v[i]);
      steps.push_back({go[i], v[i]});
    }
    VH_CHECK(ga[k] == s, "atomic/add", "location " << k << " got " << ga[k] << " expected " << s);
    VH_CHECK(gb[k] == lo, "atomic/min", "location " << k << " got " << gb[k] << " expected " << lo);
    VH_CHECK(gc[k] == hi, "atomic/max", "location " << k << " got " << gc[k] << " expected " << hi);
    VH_CHECK(ge[k] == s, "atomic/accumulate", "location " << k << " got " << ge[k] << " expected " << s);
    VH_CHECK(gf[k] == hi, "atomic/max-cas", "location " << k << " got " << gf[k] << " expected " << hi);
    // the returned old values chain from the initial to the final value: as
    // multisets {old} + {final} == {old + value} + {initial}
    std::vector<T> l{ga[k]}, r{init[k]};
    for (auto &p : steps) {
      l.push_back(p.first);
      r.push_back(p.first + p.second);
    }
    std::sort(l.begin(), l.end());
    std::sort(r.begin(), r.end());
    VH_CHECK(l == r, "atomic/fetch", "the returned values of location " << k << " do not chain");
  }
  vh::count("atomic_updates", 5 * n);
}

void sc_prim(Case &c) {
  auto t = std::make_shared<SYCLTarget>(0, vh::world_comm());
  c.desc << "device primitives";
  const int what = c.rng.range(0, 5);
  switch (what) {
  case 0:
    scans<int>(c, t);
    break;
  case 1:
    scans<INT>(c, t);
    break;
  case 2: {
    reductions<REAL>(c, t);
    reductions<INT>(c, t);
    reductions<int>(c, t);
    break;
  }
  case 3: {
    atomics<REAL>(c, t);
    atomics<INT>(c, t);
    atomics<int>(c, t);
    break;
  }
  case 4: { // transpose
    for (int rep = 0; rep < 3; rep++) {
      const int nr = rnd_size(c.lrng, 70), nc = rnd_size(c.lrng, 70);
      auto v = rnd_vec<REAL>(c.lrng, nr * nc);
      std::vector<REAL> want(nr * nc);
      for (int i = 0; i < nr; i++)
        for (int j = 0; j < nc; j++)
          want[j * nr + i] = v[i * nc + j];
      Guarded<REAL> s(t, v, 5.0), d(t, std::vector<REAL>(nr * nc, 3.0), 6.0);
      matrix_transpose(t, nr, nc, s.ptr(), d.ptr()).wait_and_throw();
      check_vec(d.get(), want, "transpose", std::to_string(nr) + "x" + std::to_string(nc));
      VH_CHECK(d.guards_ok() && s.get() == v, "transpose/outside", nr << "x" << nc);
      vh::count("transposes");
    }
    break;
  }
  case 5: { // sorting network and small inverses
    const int ng = c.lrng.range(1, 6), ls = c.lrng.pick(std::vector<int>{8, 16, 32});
    const int n = ng * ls / 8;
    std::vector<REAL> v(8 * n);
    for (auto &x : v)
      x = c.lrng.chance(0.3) ? c.lrng.range(0, 2) : rnd_val<REAL>(c.lrng);
    BufferDevice<REAL> d(t, v);
    auto k = d.ptr;
    t->queue
        .parallel_for(sycl::nd_range<1>(sycl::range<1>(ng * ls), sycl::range<1>(ls)),
                      [=](sycl::nd_item<1> it) {
                        Kernel::bitonic8(it.get_group(), k + 8 * (it.get_global_linear_id() / 8));
                      })
        .wait_and_throw();
    auto w = v;
    for (int i = 0; i < n; i++)
      std::sort(w.begin() + 8 * i, w.begin() + 8 * i + 8);
    check_vec(d.get(), w, "bitonic8", "groups of " + std::to_string(ls));
    vh::count("sorts", n);
    for (int rep = 0; rep < 20; rep++) {
      auto inv = [&](auto N) {
        constexpr int M = decltype(N)::value;
        REAL A[M * M], B[M * M];
        for (int i = 0; i < M * M; i++)
          A[i] = c.lrng.real(-1, 1);
        for (int i = 0; i < M; i++) // well conditioned
          A[i * M + i] += (A[i * M + i] > 0 ? 1 : -1) * 3.0;
        naive_matrix_inverse<M>(A, B);
        for (int i = 0; i < M; i++)
          for (int j = 0; j < M; j++) {
            REAL s = 0;
            for (int q = 0; q < M; q++)
              s += A[i * M + q] * B[q * M + j];
            VH_CHECK(std::abs(s - (i == j)) < 1e-10, "inverse",
                     M << "x" << M << " product element " << i << "," << j << " is " << s);
          }
        vh::count("inverses");
      };
      inv(std::integral_constant<int, 3>{});
      inv(std::integral_constant<int, 4>{});
    }
    break;
  }
  }
  c.nontrivial = true;
  t->free();
}

// ------------------------------------------------------------ reduce (P15)
struct Grp {
  World w;
  int nc;
  Case &c;
  int ncr, nci;
  Grp(Case &c, int max_dim = 4)
      : w(random_world(c.rng, max_dim, size())), c(c), ncr(c.rng.range(1, 6)), nci(c.rng.range(1, 6)) {
    w.domain = std::make_shared<Domain>(w.mesh);
    w.setup({{"R", ncr, true}, {"I", nci, false}, {"F", 1, false}, {"X", 8, true}, {"Y", 8, false}});
    nc = w.ncell();
  }
  // particles with small dyadic values, in a random occupancy profile
  void add() {
    std::vector<int> occ(nc, 0);
    const int prof = c.lrng.range(0, 3);
    for (auto &o : occ)
      o = prof == 0 ? (c.lrng.chance(0.2) ? c.lrng.range(1, 40) : 0)
          : prof == 1 ? c.lrng.range(0, 6)
          : prof == 2 ? c.lrng.range(0, thorough() ? 200 : 70)
                      : 0;
    const int n = std::accumulate(occ.begin(), occ.end(), 0);
    ParticleSet ps(n, w.spec);
    int px = 0;
    for (int cx = 0; cx < nc; cx++)
      for (int l = 0; l < occ[cx]; l++, px++) {
        auto p = w.random_point(c.lrng);
        for (int d = 0; d < w.wp.ndim; d++)
          ps[Sym<REAL>("P")][px][d] = p[d];
        ps[Sym<INT>("CELL_ID")][px][0] = cx;
        ps[Sym<INT>("ID")][px][0] = px;
        ps[Sym<INT>("F")][px][0] = c.lrng.range(0, 2);
        for (int k = 0; k < ncr; k++)
          ps[Sym<REAL>("R")][px][k] = rnd_val<REAL>(c.lrng);
        for (int k = 0; k < nci; k++)
          ps[Sym<INT>("I")][px][k] = rnd_val<INT>(c.lrng);
      }
    w.A->add_particles_local(ps);
    vh::count("particles_added", n);
  }
  ParticleSubGroupSharedPtr sub() {
    switch (c.rng.range(0, 2)) {
    case 0:
      return particle_sub_group(w.A);
    case 1:
      return particle_sub_group(
          w.A, [=](auto F) { return F.at(0) == 1; }, Access::read(Sym<INT>("F")));
    default:
      return particle_sub_group(
          particle_sub_group(
              w.A, [=](auto F) { return F.at(0) != 0; }, Access::read(Sym<INT>("F"))),
          [=](auto I) { return I.at(0) > -300; }, Access::read(Sym<INT>("I")));
    }
  }
  bool selected(int kind, INT f, INT i0) {
    return (kind == 0 || kind == 3) ? true : kind == 1 ? f == 1 : (f != 0 && i0 > -300);
  }
};
// as sub() but tells which selection it is
int pick_kind(Case &c) { return c.rng.range(0, 3); }
ParticleSubGroupSharedPtr sub_of(Grp &g, int kind) {
  if (kind == 0)
    return particle_sub_group(g.w.A);
  if (kind == 1)
    return particle_sub_group(
        g.w.A, [=](auto F) { return F.at(0) == 1; }, Access::read(Sym<INT>("F")));
  return particle_sub_group(
      particle_sub_group(
          g.w.A, [=](auto F) { return F.at(0) != 0; }, Access::read(Sym<INT>("F"))),
      [=](auto I) { return I.at(0) > -300; }, Access::read(Sym<INT>("I")));
}
std::vector<std::vector<int>> members(Grp &g, int kind) {
  std::vector<std::vector<int>> m(g.nc);
  for (int cx = 0; cx < g.nc; cx++) {
    auto f = g.w.A->get_cell(Sym<INT>("F"), cx);
    auto i = g.w.A->get_cell(Sym<INT>("I"), cx);
    for (int l = 0; l < f->nrow; l++)
      if (g.selected(kind, f->at(l, 0), i->at(l, 0)))
        m[cx].push_back(l);
  }
  return m;
}

template <typename T, typename OP, typename F>
void reduce_one(Grp &g, int kind, Sym<T> sym, int ncomp, OP op, F f,
                const char *name) {
  Case &c = g.c;
  auto mem = members(g, kind);
  std::vector<std::vector<std::vector<T>>> data(g.nc); // cell, layer, comp
  for (int cx = 0; cx < g.nc; cx++) {
    auto d = g.w.A->get_cell(sym, cx);
    for (int l = 0; l < d->nrow; l++) {
      std::vector<T> row;
      for (int k = 0; k < ncomp; k++)
        row.push_back(d->at(l, k));
      data[cx].push_back(row);
    }
  }
  auto run = [&](auto call) {
    if (kind == 3)
      call(g.w.A);
    else
      call(sub_of(g, kind));
  };
  auto fill = [&](CellDatConstSharedPtr<T> d, std::vector<std::vector<std::vector<T>>> &m) {
    m.resize(g.nc);
    for (int cx = 0; cx < g.nc; cx++) {
      auto cell = d->get_cell(cx);
      m[cx].assign(d->nrow, std::vector<T>(d->ncol));
      for (int r = 0; r < d->nrow; r++)
        for (int q = 0; q < d->ncol; q++)
          cell->at(r, q) = m[cx][r][q] = rnd_val<T>(c.lrng);
      d->set_cell(cx, cell);
    }
  };
  auto compare = [&](CellDatConstSharedPtr<T> d, std::vector<std::vector<std::vector<T>>> &m, const std::string &key) {
    for (int cx = 0; cx < g.nc; cx++) {
      auto cell = d->get_cell(cx);
      for (int r = 0; r < d->nrow; r++)
        for (int q = 0; q < d->ncol; q++) {
          vh::count("reduced_values");
          VH_CHECK(cell->at(r, q) == m[cx][r][q], key,
                   name << " selection " << kind << " cell " << cx << " (" << r << "," << q << ") got "
                        << cell->at(r, q) << " expected " << m[cx][r][q]
                        << " from " << mem[cx].size() << " particles");
        }
    }
  };
  if (c.rng.chance(0.5)) { // one component into one entry
    const int nr = c.rng.range(1, 3), ncl = c.rng.range(1, 3);
    const int r = c.rng.range(0, nr - 1), q = c.rng.range(0, ncl - 1), k = c.rng.range(0, ncomp - 1);
    auto d = std::make_shared<CellDatConst<T>>(g.w.target, g.nc, nr, ncl);
    std::vector<std::vector<std::vector<T>>> m;
    fill(d, m);
    for (int cx = 0; cx < g.nc; cx++)
      for (int l : mem[cx])
        m[cx][r][q] = f(m[cx][r][q], data[cx][l][k]);
    run([&](auto grp) { reduce_dat_component_cellwise(grp, sym, k, d, r, q, op); });
    compare(d, m, "reduce-component");
  } else { // all components, row by row
    std::vector<std::pair<int, int>> shapes;
    for (int a = 1; a <= ncomp; a++)
      if (ncomp % a == 0)
        shapes.push_back({a, ncomp / a});
    const auto sh = c.rng.pick(shapes);
    auto d = std::make_shared<CellDatConst<T>>(g.w.target, g.nc, sh.first, sh.second);
    std::vector<std::vector<std::vector<T>>> m;
    fill(d, m);
    for (int cx = 0; cx < g.nc; cx++)
      for (int l : mem[cx])
        for (int k = 0; k < ncomp; k++) {
          auto &e = m[cx][k / sh.second][k % sh.second];
          e = f(e, data[cx][l][k]);
        }
    run([&](auto grp) { reduce_dat_components_cellwise(grp, sym, d, op); });
    compare(d, m, "reduce-components");
  }
}

template <typename T> void reduce_type(Grp &g, int kind, Sym<T> sym, int ncomp) {
  switch (g.c.rng.range(0, 2)) {
  case 0:
    reduce_one<T>(g, kind, sym, ncomp, Kernel::plus<T>{}, [](T a, T b) { return a + b; }, "plus");
    break;
  case 1:
    reduce_one<T>(g, kind, sym, ncomp, Kernel::minimum<T>{}, [](T a, T b) { return std::min(a, b); }, "min");
    break;
  default:
    reduce_one<T>(g, kind, sym, ncomp, Kernel::maximum<T>{}, [](T a, T b) { return std::max(a, b); }, "max");
  }
}

template <typename T> void npart_cell(Grp &g, int kind) {
  Case &c = g.c;
  auto mem = members(g, kind);
  const int nr = c.rng.range(1, 3), nq = c.rng.range(1, 3);
  const int r = c.rng.range(0, nr - 1), q = c.rng.range(0, nq - 1);
  auto d = std::make_shared<CellDatConst<T>>(g.w.target, g.nc, nr, nq);
  d->fill(T(-7));
  if (kind == 3)
    get_npart_cell(g.w.A, d, r, q);
  else
    get_npart_cell(sub_of(g, kind), d, r, q);
  for (int cx = 0; cx < g.nc; cx++) {
    auto cell = d->get_cell(cx);
    for (int a = 0; a < nr; a++)
      for (int b = 0; b < nq; b++) {
        const T want = (a == r && b == q) ? T(mem[cx].size()) : T(-7);
        VH_CHECK(cell->at(a, b) == want, "npart-cell",
                 "selection " << kind << " cell " << cx << " (" << a << "," << b << ") got " << cell->at(a, b)
                              << " expected " << want);
        vh::count("npart_values");
      }
  }
}

void element_wise(Grp &g) {
  Case &c = g.c;
  const int nr = c.rng.range(1, 3), nq = c.rng.range(1, 3);
  auto mk = [&](auto tag, bool bc) {
    using T = decltype(tag);
    auto d = std::make_shared<CellDatConst<T>>(g.w.target, g.nc, bc ? 1 : nr, bc ? 1 : nq);
    for (int cx = 0; cx < g.nc; cx++) {
      auto cell = d->get_cell(cx);
      for (int a = 0; a < d->nrow; a++)
        for (int b = 0; b < d->ncol; b++)
          cell->at(a, b) = rnd_val<T>(c.lrng);
      d->set_cell(cx, cell);
    }
    return d;
  };
  const bool b1 = c.rng.chance(0.3), b2 = c.rng.chance(0.3);
  auto x = mk(REAL(0), b1);
  auto y = mk(INT(0), b2);
  auto z = mk(REAL(0), false);
  auto out = mk(REAL(0), false);
  const bool inplace = c.rng.chance(0.3);
  std::vector<std::vector<std::vector<REAL>>> want(g.nc);
  for (int cx = 0; cx < g.nc; cx++) {
    want[cx].assign(nr, std::vector<REAL>(nq));
    auto cx_ = x->get_cell(cx);
    auto cy_ = y->get_cell(cx);
    auto cz_ = z->get_cell(cx);
    for (int a = 0; a < nr; a++)
      for (int b = 0; b < nq; b++)
        want[cx][a][b] = cx_->at(b1 ? 0 : a, b1 ? 0 : b) * 4.0 -
                         static_cast<REAL>(cy_->at(b2 ? 0 : a, b2 ? 0 : b)) * 2.0 + cz_->at(a, b);
  }
  auto res = inplace ? z : out;
  cell_dat_const_loop_element_wise(
      res, [](REAL a, INT b, REAL e) { return a * 4.0 - static_cast<REAL>(b) * 2.0 + e; }, x, y, z);
  for (int cx = 0; cx < g.nc; cx++) {
    auto cell = res->get_cell(cx);
    for (int a = 0; a < nr; a++)
      for (int b = 0; b < nq; b++) {
        VH_CHECK(cell->at(a, b) == want[cx][a][b], "element-wise",
                 nr << "x" << nq << " broadcast " << b1 << b2 << " cell " << cx << " (" << a << "," << b << ") got "
                    << cell->at(a, b) << " expected " << want[cx][a][b]);
        vh::count("element_wise_values");
      }
  }
}

template <typename T> void copies(Grp &g, Sym<T> wide, int kind) {
  Case &c = g.c;
  auto s = sub_of(g, kind);
  auto mem = members(g, kind);
  const auto sym = Sym<T>("EPH");
  s->add_ephemeral_dat(sym, 8);
  // write recognisable values
  const bool to_particle = c.rng.chance(0.5);
  particle_loop(
      g.w.A, [=](auto X, auto ID) {
        for (int k = 0; k < 8; k++)
          X.at(k) = -1 - k - ID.at(0) * 8;
      },
      Access::write(wide), Access::read(Sym<INT>("ID")))
      ->execute();
  if (to_particle) {
    particle_loop(
        s, [=](auto E, auto ID) {
          for (int k = 0; k < 8; k++)
            E.at_ephemeral(k) = ID.at(0) * 8 + k + 1;
        },
        Access::write(sym), Access::read(Sym<INT>("ID")))
        ->execute();
    copy_ephemeral_dat_to_particle_dat(s, sym, wide);
  } else {
    copy_particle_dat_to_ephemeral_dat(s, wide, sym);
    particle_loop(
        s, [=](auto E, auto X) {
          for (int k = 0; k < 8; k++)
            X.at(k) = -E.at_ephemeral(k);
        },
        Access::read(sym), Access::write(wide))
        ->execute();
  }
  for (int cx = 0; cx < g.nc; cx++) {
    auto x = g.w.A->get_cell(wide, cx);
    auto id = g.w.A->get_cell(Sym<INT>("ID"), cx);
    std::set<int> in(mem[cx].begin(), mem[cx].end());
    for (int l = 0; l < x->nrow; l++)
      for (int k = 0; k < 8; k++) {
        const T base = static_cast<T>(id->at(l, 0) * 8 + k + 1);
        const T want = in.count(l) ? base : -base;
        VH_CHECK(x->at(l, k) == want, to_particle ? "copy-to-particle" : "copy-to-ephemeral",
                 "selection " << kind << " cell " << cx << " layer " << l << " comp " << k << " got " << x->at(l, k)
                              << " expected " << want);
        vh::count("copied_values");
      }
  }
}

template <typename T, typename V> void broadcast(Grp &g, int kind, Sym<T> wide) {
  Case &c = g.c;
  auto mem = members(g, kind);
  const int comp = c.rng.range(0, 7);
  std::vector<V> vals(g.nc);
  for (auto &v : vals)
    v = static_cast<V>(c.lrng.range(1, 1000));
  particle_loop(
      g.w.A, [=](auto X) {
        for (int k = 0; k < 8; k++)
          X.at(k) = -3;
      },
      Access::write(wide))
      ->execute();
  if (kind == 3)
    cellwise_broadcast(g.w.A, wide, comp, vals);
  else
    cellwise_broadcast(sub_of(g, kind), wide, comp, vals);
  for (int cx = 0; cx < g.nc; cx++) {
    auto x = g.w.A->get_cell(wide, cx);
    std::set<int> in(mem[cx].begin(), mem[cx].end());
    for (int l = 0; l < x->nrow; l++)
      for (int k = 0; k < 8; k++) {
        const T want = (k == comp && in.count(l)) ? static_cast<T>(vals[cx]) : T(-3);
        VH_CHECK(x->at(l, k) == want, "broadcast",
                 "selection " << kind << " cell " << cx << " layer " << l << " comp " << k << " got " << x->at(l, k)
                              << " expected " << want);
        vh::count("broadcast_values");
      }
  }
}

void sc_reduce(Case &c) {
  Grp g(c);
  c.desc << g.w.wp.str() << " R" << g.ncr << " I" << g.nci;
  if (!c.lrng.chance(0.1))
    g.add();
  if (c.rng.chance(0.2))
    g.add();
  const int nops = c.rng.range(1, 3);
  std::unique_ptr<UnseenValueExtractor> ext, ext2;
  for (int o = 0; o < nops; o++) {
    const int kind = pick_kind(c); // 3: the particle group itself
    switch (c.rng.range(0, 6)) {
    case 0:
    case 1:
      reduce_type<REAL>(g, kind, Sym<REAL>("R"), g.ncr);
      break;
    case 2:
      reduce_type<INT>(g, kind, Sym<INT>("I"), g.nci);
      break;
    case 3:
      if (c.rng.chance(0.5))
        npart_cell<int>(g, kind);
      else
        npart_cell<INT>(g, kind);
      break;
    case 4:
      element_wise(g);
      break;
    case 5:
      if (c.rng.chance(0.5))
        copies<REAL>(g, Sym<REAL>("X"), std::min(kind, 2));
      else
        copies<INT>(g, Sym<INT>("Y"), std::min(kind, 2));
      break;
    case 6:
      switch (c.rng.range(0, 2)) {
      case 0:
        broadcast<REAL, REAL>(g, kind, Sym<REAL>("X"));
        break;
      case 1:
        broadcast<INT, INT>(g, kind, Sym<INT>("Y"));
        break;
      default:
        broadcast<INT, int>(g, kind, Sym<INT>("Y"));
      }
    }
  }
  { // unseen values
    UnseenValueExtractor u(g.w.target);
    std::set<INT> seen;
    const int rounds = c.rng.range(1, 4);
    for (int r = 0; r < rounds; r++) {
      const int kind = pick_kind(c), comp = c.rng.range(0, g.nci - 1);
      const INT spread = c.rng.pick(std::vector<int>{3, 200, 3000});
      const INT salt = c.rng.range(0, 1 << 20);
      // component 0 takes part in the selection: it is left alone
      if (comp > 0)
        particle_loop(
            g.w.A, [=](auto I, auto ID) {
              I.at(comp) = ((ID.at(0) * 2654435761LL + salt) >> 3) % spread - spread / 2;
            },
            Access::write(Sym<INT>("I")), Access::read(Sym<INT>("ID")))
            ->execute();
      auto mem = members(g, kind);
      std::set<INT> want;
      for (int cx = 0; cx < g.nc; cx++) {
        auto d = g.w.A->get_cell(Sym<INT>("I"), cx);
        for (int l : mem[cx])
          if (!seen.count(d->at(l, comp)))
            want.insert(d->at(l, comp));
      }
      std::set<INT> got;
      const bool eph = kind != 3 && c.rng.chance(0.3);
      if (eph) {
        auto s = sub_of(g, kind);
        s->add_ephemeral_dat(Sym<INT>("U"), 2);
        particle_loop(
            s, [=](auto U, auto I) {
              U.at_ephemeral(0) = 1 << 30;
              U.at_ephemeral(1) = I.at(comp);
            },
            Access::write(Sym<INT>("U")), Access::read(Sym<INT>("I")))
            ->execute();
        got = u.extract(s, Sym<INT>("U"), 1, true);
      } else if (kind == 3)
        got = u.extract(g.w.A, Sym<INT>("I"), comp, false);
      else
        got = u.extract(sub_of(g, kind), Sym<INT>("I"), comp, false);
      VH_CHECK(got == want, "unseen",
               "round " << r << " selection " << kind << " ephemeral " << eph << " got " << got.size() << " values expected "
                        << want.size());
      seen.insert(want.begin(), want.end());
      vh::count("unseen_values", want.size());
    }
  }
  c.nontrivial = g.w.A->get_npart_local() > 0;
  g.w.free();
}

// -------------------------------------------------------------- cont (P25)
template <int W> void tree_test(Case &c, SYCLTargetSharedPtr t) {
  BlockedBinaryTree<INT, double, W> tree(t);
  std::map<INT, double> ref;
  const int n = c.lrng.range(0, 60);
  const int spread = c.lrng.pick(std::vector<int>{5, 60, 2000, 1 << 30});
  auto key = [&] { return static_cast<INT>(c.lrng.range(-spread, spread)); };
  double v = -1;
  VH_CHECK(!tree.host_get(3, &v), "tree/empty", "an empty tree returned a value");
  std::vector<INT> keys;
  for (int i = 0; i < n; i++) {
    const INT k = (!keys.empty() && c.lrng.chance(0.2)) ? c.lrng.pick(keys) : key();
    keys.push_back(k);
    ref[k] = i + 0.5;
    tree.add(k, i + 0.5);
  }
  // every key, its neighbours and random keys, on the device in one launch
  std::set<INT> q;
  for (auto k : keys)
    for (int d : {-W, -1, 0, 1, W})
      q.insert(k + d);
  for (int i = 0; i < 20; i++)
    q.insert(key());
  std::vector<INT> qs(q.begin(), q.end());
  const int m = static_cast<int>(qs.size());
  BufferDevice<INT> dq(t, qs);
  BufferDevice<double> dv(t, m), dw(t, m);
  BufferDevice<int> de(t, m), df(t, m);
  auto kq = dq.ptr;
  auto kv = dv.ptr, kw = dw.ptr;
  auto ke = de.ptr, kf = df.ptr;
  auto root = tree.root;
  if (root != nullptr) {
    t->queue
        .parallel_for(sycl::range<1>(m),
                      [=](sycl::id<1> ix) {
                        double val = -9;
                        double const *p = nullptr;
                        const bool e1 = root->get(kq[ix], &val);
                        const bool e2 = root->get(kq[ix], &p);
                        ke[ix] = e1;
                        kf[ix] = e2;
                        kv[ix] = e1 ? val : -9;
                        kw[ix] = e2 ? *p : -9;
                      })
        .wait_and_throw();
    auto ge = de.get(), gf = df.get();
    auto gv = dv.get(), gw = dw.get();
    for (int i = 0; i < m; i++) {
      const bool has = ref.count(qs[i]);
      const double want = has ? ref[qs[i]] : -9;
      VH_CHECK(ge[i] == has && gf[i] == has && gv[i] == want && gw[i] == want, "tree/get",
               "width " << W << " key " << qs[i] << " exists " << ge[i] << gf[i] << " value " << gv[i] << " " << gw[i]
                        << " expected " << has << " " << want);
      vh::count("tree_lookups");
    }
  }
  for (int i = 0; i < 4 && i < m; i++) {
    const INT k = c.lrng.pick(qs);
    double val = -9;
    const bool e = tree.host_get(k, &val);
    VH_CHECK(e == (ref.count(k) > 0) && (!e || val == ref[k]), "tree/host-get", "width " << W << " key " << k << " exists " << e << " value " << val);
  }
}

void lut_test(Case &c, SYCLTargetSharedPtr t) {
  const int n = c.lrng.range(1, 50);
  LookupTable<int, INT> lut(t, n);
  std::map<int, INT> ref;
  const int m = c.lrng.range(0, 30);
  for (int i = 0; i < m; i++) {
    const int k = c.lrng.range(0, n - 1);
    ref[k] = 1000 + i;
    lut.add(k, 1000 + i);
  }
  const int lo = -3, hi = n + 3;
  BufferDevice<INT> dv(t, hi - lo);
  BufferDevice<int> de(t, hi - lo);
  auto kv = dv.ptr;
  auto ke = de.ptr;
  auto root = lut.root;
  t->queue
      .parallel_for(sycl::range<1>(hi - lo),
                    [=](sycl::id<1> ix) {
                      INT val = -9;
                      INT const *p = nullptr;
                      const int k = lo + static_cast<int>(ix[0]);
                      const bool e1 = root->get(k, &val);
                      const bool e2 = root->get(k, &p);
                      ke[ix] = e1 + 2 * e2;
                      kv[ix] = (e2 && *p != val) ? -11 : val;
                    })
      .wait_and_throw();
  auto ge = de.get();
  auto gv = dv.get();
  for (int k = lo; k < hi; k++) {
    const bool has = ref.count(k);
    INT h = -9;
    const bool hg = lut.host_get(k, &h);
    VH_CHECK(ge[k - lo] == 3 * has && gv[k - lo] == (has ? ref[k] : -9), "lookup/get",
             "size " << n << " key " << k << " exists " << ge[k - lo] << " value " << gv[k - lo]);
    VH_CHECK(hg == has && h == (has ? ref[k] : -9), "lookup/host-get", "size " << n << " key " << k << " exists " << hg << " value " << h);
    vh::count("table_lookups");
  }
}

template <typename T> void cell_dat_test(Case &c, SYCLTargetSharedPtr t) {
  const int nc = c.lrng.range(1, 6), ncol = c.lrng.range(1, 4);
  CellDat<T> d(t, nc, ncol);
  std::vector<std::vector<std::vector<T>>> ref(nc); // cell, row, col
  T next = 1;
  const int steps = c.lrng.range(1, 15);
  for (int s = 0; s < steps; s++) {
    switch (c.lrng.range(0, 5)) {
    case 0:
    case 1: { // resize some cells; new rows hold anything until written
      std::vector<std::pair<int, int>> grown;
      for (int cx = 0; cx < nc; cx++)
        if (c.lrng.chance(0.6)) {
          const int n = rnd_size(c.lrng, 60);
          const int old = static_cast<int>(ref[cx].size());
          d.set_nrow(cx, n);
          ref[cx].resize(n, std::vector<T>(ncol));
          if (n > old)
            grown.push_back({cx, old});
        }
      d.wait_set_nrow();
      for (auto &g : grown)
        for (int r = g.second; r < static_cast<int>(ref[g.first].size()); r++)
          for (int q = 0; q < ncol; q++) {
            ref[g.first][r][q] = next++;
            d.set_value(g.first, r, q, ref[g.first][r][q]);
          }
      break;
    }
    case 2: {
      const int cx = static_cast<int>(c.lrng.below(nc));
      auto cell = d.get_cell(cx);
      for (int r = 0; r < cell->nrow; r++)
        for (int q = 0; q < ncol; q++)
          cell->at(r, q) = ref[cx][r][q] = next++;
      d.set_cell(cx, cell);
      break;
    }
    case 3: { // written by a kernel through the device pointer
      auto p = d.device_ptr();
      for (int cx = 0; cx < nc; cx++) {
        const int n = static_cast<int>(ref[cx].size());
        if (!n)
          continue;
        const T base = next;
        t->queue
            .parallel_for(sycl::range<2>(n, ncol),
                          [=](sycl::item<2> ix) {
                            p[cx][ix.get_id(1)][ix.get_id(0)] =
                                base + static_cast<T>(ix.get_id(0) * ncol + ix.get_id(1));
                          })
            .wait_and_throw();
        for (int r = 0; r < n; r++)
          for (int q = 0; q < ncol; q++)
            ref[cx][r][q] = base + static_cast<T>(r * ncol + q);
        next += static_cast<T>(n * ncol);
      }
      break;
    }
    case 4: { // asynchronous set of all cells
      EventStack es;
      std::vector<CellData<T>> keep;
      for (int cx = 0; cx < nc; cx++) {
        auto cell = std::make_shared<CellDataT<T>>(t, static_cast<int>(ref[cx].size()) + c.lrng.range(0, 2), ncol);
        for (int r = 0; r < static_cast<int>(ref[cx].size()); r++)
          for (int q = 0; q < ncol; q++)
            cell->at(r, q) = ref[cx][r][q] = next++;
        keep.push_back(cell);
        d.set_cell_async(cx, *cell, es);
      }
      es.wait();
      break;
    }
    case 5: {
      EventStack es;
      std::vector<CellData<T>> keep;
      for (int cx = 0; cx < nc; cx++) {
        keep.push_back(std::make_shared<CellDataT<T>>(t, static_cast<int>(ref[cx].size()) + c.lrng.range(0, 2), ncol));
        d.get_cell_async(cx, *keep.back(), es);
      }
      es.wait();
      for (int cx = 0; cx < nc; cx++)
        for (int r = 0; r < static_cast<int>(ref[cx].size()); r++)
          for (int q = 0; q < ncol; q++)
            VH_CHECK(keep[cx]->at(r, q) == ref[cx][r][q], "cell-dat/async", "cell " << cx << " (" << r << "," << q << ")");
    }
    }
    std::size_t mx = 0, mn = std::size_t(-1);
    for (int cx = 0; cx < nc; cx++) {
      auto cell = d.get_cell(cx);
      mx = std::max(mx, ref[cx].size());
      mn = std::min(mn, ref[cx].size());
      if (!VH_CHECK(cell->nrow == static_cast<int>(ref[cx].size()) && cell->ncol == ncol, "cell-dat/shape",
                    "cell " << cx << " rows " << cell->nrow << " expected " << ref[cx].size()))
        continue;
      for (int r = 0; r < cell->nrow; r++)
        for (int q = 0; q < ncol; q++) {
          VH_CHECK(cell->at(r, q) == ref[cx][r][q], "cell-dat/value",
                   "step " << s << " cell " << cx << " (" << r << "," << q << ") got " << cell->at(r, q) << " expected "
                           << ref[cx][r][q]);
          vh::count("cell_dat_values");
        }
      if (cell->nrow) {
        const int r = c.lrng.range(0, cell->nrow - 1), q = c.lrng.range(0, ncol - 1);
        VH_CHECK(d.get_value(cx, r, q) == ref[cx][r][q], "cell-dat/get-value", "cell " << cx);
      }
    }
    VH_CHECK(d.get_nrow_max() == static_cast<int>(mx), "cell-dat/nrow-max", d.get_nrow_max() << " expected " << mx);
    VH_CHECK(d.get_nrow_min() == static_cast<int>(mn), "cell-dat/nrow-min", d.get_nrow_min() << " expected " << mn);
  }
}

template <typename T> void cell_dat_const_test(Case &c, SYCLTargetSharedPtr t) {
  const int nc = c.lrng.range(1, 6), nr = c.lrng.range(1, 4), nq = c.lrng.range(1, 4);
  CellDatConst<T> d(t, nc, nr, nq);
  std::vector<std::vector<std::vector<T>>> ref(nc, std::vector<std::vector<T>>(nr, std::vector<T>(nq, T(0))));
  T next = 1;
  if (c.lrng.chance(0.3)) {
    d.fill(T(4));
    for (auto &a : ref)
      for (auto &b : a)
        for (auto &e : b)
          e = T(4);
  }
  const int steps = c.lrng.range(0, 10);
  for (int s = 0; s <= steps; s++) {
    if (s > 0)
      switch (c.lrng.range(0, 4)) {
      case 0: {
        const int cx = static_cast<int>(c.lrng.below(nc));
        auto cell = d.get_cell(cx);
        for (int r = 0; r < nr; r++)
          for (int q = 0; q < nq; q++)
            cell->at(r, q) = ref[cx][r][q] = next++;
        d.set_cell(cx, cell);
        break;
      }
      case 1: {
        auto cells = d.get_all_cells();
        VH_CHECK(static_cast<int>(cells.size()) == nc, "cell-dat-const/all", cells.size());
        for (int cx = 0; cx < nc; cx++)
          for (int r = 0; r < nr; r++)
            for (int q = 0; q < nq; q++) {
              VH_CHECK(cells[cx]->at(r, q) == ref[cx][r][q], "cell-dat-const/all", "cell " << cx);
              cells[cx]->at(r, q) = ref[cx][r][q] = next++;
            }
        d.set_all_cells(cells);
        break;
      }
      case 2: {
        const int cx = static_cast<int>(c.lrng.below(nc)), r = c.lrng.range(0, nr - 1), q = c.lrng.range(0, nq - 1);
        d.set_value(cx, r, q, ref[cx][r][q] = next++);
        break;
      }
      case 3: {
        const T v = next++;
        d.fill(v);
        for (auto &a : ref)
          for (auto &b : a)
            for (auto &e : b)
              e = v;
        break;
      }
      default: {
        auto p = d.device_ptr();
        const T base = next;
        const int n = nc * nr * nq;
        t->queue.parallel_for(sycl::range<1>(n), [=](sycl::id<1> ix) { p[ix] += base + static_cast<T>(ix[0]); }).wait_and_throw();
        for (int i = 0; i < n; i++) // cells of column major matrices
          ref[i / (nr * nq)][(i % (nr * nq)) % nr][(i % (nr * nq)) / nr] += base + static_cast<T>(i);
      }
      }
    for (int cx = 0; cx < nc; cx++) {
      auto cell = d.get_cell(cx);
      for (int r = 0; r < nr; r++)
        for (int q = 0; q < nq; q++) {
          VH_CHECK(cell->at(r, q) == ref[cx][r][q], "cell-dat-const/value",
                   "cell " << cx << " (" << r << "," << q << ") got " << cell->at(r, q) << " expected " << ref[cx][r][q]);
          vh::count("cell_dat_const_values");
        }
      const int r = c.lrng.range(0, nr - 1), q = c.lrng.range(0, nq - 1);
      VH_CHECK(d.get_value(cx, r, q) == ref[cx][r][q], "cell-dat-const/get-value", "cell " << cx);
    }
  }
}

template <typename B> void buffer_test(Case &c, SYCLTargetSharedPtr t, const char *name) {
  const int n0 = c.lrng.range(1, 40);
  auto init = rnd_vec<INT>(c.lrng, n0);
  B b(t, init);
  std::vector<INT> ref = init; // leading elements whose content is defined
  const int steps = c.lrng.range(1, 8);
  for (int s = 0; s < steps; s++) {
    const std::size_t before = b.size;
    switch (c.lrng.range(0, 3)) {
    case 0: {
      const std::size_t n = c.lrng.range(0, 120);
      std::optional<REAL> f;
      if (c.lrng.chance(0.4))
        f = c.lrng.real(1.0, 3.0);
      b.realloc(n, f);
      VH_CHECK(b.size >= n, "buffer/realloc-size", name << " size " << b.size << " requested " << n);
      if (n && f != std::nullopt)
        VH_CHECK(b.size <= std::max<std::size_t>(n, static_cast<std::size_t>(f.value() * n)), "buffer/realloc-limit",
                 name << " size " << b.size << " requested " << n << " factor " << f.value());
      if (f == std::nullopt)
        VH_CHECK(b.size >= before, "buffer/realloc-shrunk", name << " size " << b.size << " before " << before);
      if (ref.size() > b.size)
        ref.resize(b.size);
      break;
    }
    case 1: {
      const std::size_t n = c.lrng.range(0, 120);
      std::optional<REAL> f;
      if (c.lrng.chance(0.4))
        f = c.lrng.real(1.0, 3.0);
      b.realloc_no_copy(n, f);
      VH_CHECK(b.size >= n, "buffer/realloc-size", name << " size " << b.size << " requested " << n);
      if (b.size != before)
        ref.clear();
      break;
    }
    case 2: {
      auto v = rnd_vec<INT>(c.lrng, c.lrng.below(b.size + 1));
      b.set(v);
      if (v.size() > ref.size())
        ref = v;
      else
        std::copy(v.begin(), v.end(), ref.begin());
      break;
    }
    case 3: {
      B other(t, static_cast<int>(b.size) + c.lrng.range(0, 3));
      if (ref.size()) {
        // copies through another buffer of at least this size
        t->queue.memcpy(other.ptr, b.ptr, ref.size() * sizeof(INT)).wait_and_throw();
        t->queue.memcpy(b.ptr, other.ptr, ref.size() * sizeof(INT)).wait_and_throw();
      }
    }
    }
    auto g = b.get();
    VH_CHECK(g.size() == b.size, "buffer/get-size", name);
    for (std::size_t i = 0; i < ref.size(); i++)
      if (!VH_CHECK(g[i] == ref[i], "buffer/value", name << " step " << s << " element " << i << " got " << g[i] << " expected " << ref[i]))
        break;
    vh::count("buffer_values", ref.size());
  }
}

void device_host_test(Case &c, SYCLTargetSharedPtr t) {
  const int n = c.lrng.range(1, 60);
  auto v = rnd_vec<REAL>(c.lrng, n);
  BufferDeviceHost<REAL> b(t, v);
  const int steps = c.lrng.range(1, 6);
  std::vector<REAL> h = v, d = v;
  for (int s = 0; s < steps; s++) {
    switch (c.lrng.range(0, 5)) {
    case 0:
      b.host_to_device();
      d = h;
      break;
    case 1:
      b.device_to_host();
      h = d;
      break;
    case 2:
      b.async_host_to_device().wait_and_throw();
      d = h;
      break;
    case 3:
      b.async_device_to_host().wait_and_throw();
      h = d;
      break;
    case 4:
      for (int i = 0; i < n; i++)
        b.h_buffer.ptr[i] = h[i] = rnd_val<REAL>(c.lrng);
      break;
    case 5: {
      auto k = b.d_buffer.ptr;
      t->queue.parallel_for(sycl::range<1>(n), [=](sycl::id<1> i) { k[i] = -k[i] + 1.0; }).wait_and_throw();
      for (auto &x : d)
        x = -x + 1.0;
    }
    }
    std::vector<REAL> gd(n);
    t->queue.memcpy(gd.data(), b.d_buffer.ptr, n * sizeof(REAL)).wait_and_throw();
    check_vec(gd, d, "device-host/device", "step " + std::to_string(s));
    check_vec(std::vector<REAL>(b.h_buffer.ptr, b.h_buffer.ptr + n), h, "device-host/host", "step " + std::to_string(s));
  }
}

void resource_test(Case &c, SYCLTargetSharedPtr t) {
  // what is handed out is never handed out twice
  std::vector<std::shared_ptr<BufferDevice<INT>>> held;
  std::vector<INT> tag;
  INT next = 1;
  const int steps = c.lrng.range(1, 30);
  for (int s = 0; s < steps; s++) {
    if (held.empty() || c.lrng.chance(0.55)) {
      auto b = get_resource<BufferDevice<INT>, ResourceStackInterfaceBufferDevice<INT>>(
          t->resource_stack_map, ResourceStackKeyBufferDevice<INT>{}, t);
      b->realloc_no_copy(c.lrng.range(1, 50));
      for (auto &h : held)
        VH_CHECK(h.get() != b.get() && h->ptr != b->ptr, "resource/shared", "a resource in use was handed out again");
      b->set({next});
      tag.push_back(next++);
      held.push_back(b);
    } else {
      const auto i = c.lrng.below(held.size());
      auto b = held[i];
      VH_CHECK(b->get()[0] == tag[i], "resource/content", "the content of a held resource changed");
      held.erase(held.begin() + i);
      tag.erase(tag.begin() + i);
      restore_resource(t->resource_stack_map, ResourceStackKeyBufferDevice<INT>{}, b);
      VH_CHECK(b == nullptr, "resource/restore", "restore left the reference");
    }
    vh::count("resource_steps");
  }
  for (std::size_t i = 0; i < held.size(); i++) {
    VH_CHECK(held[i]->get()[0] == tag[i], "resource/content", "the content of a held resource changed");
    restore_resource(t->resource_stack_map, ResourceStackKeyBufferDevice<INT>{}, held[i]);
  }
}

void arrays_test(Case &c, SYCLTargetSharedPtr t) {
  const int n = c.lrng.range(0, 40);
  auto v = rnd_vec<INT>(c.lrng, n);
  LocalArray<INT> a(t, v);
  check_vec(a.get(), v, "local-array", "constructed from values");
  LocalArray<INT> b = a; // shares the data
  auto v2 = rnd_vec<INT>(c.lrng, n);
  b.set(v2);
  check_vec(a.get(), v2, "local-array/shared", "set through a copy");
  a.fill(6);
  check_vec(b.get(), std::vector<INT>(n, 6), "local-array/fill", "filled");
  LocalArray<REAL> z(t, n);
  check_vec(z.get(), std::vector<REAL>(n, 0.0), "local-array/default", "default");
  LocalArray<REAL> y(t, n, 2.5);
  check_vec(y.get(), std::vector<REAL>(n, 2.5), "local-array/init", "init");
  std::vector<INT> wrong(n + 1);
  VH_CHECK(rejects([&] { a.set(wrong); }), "local-array/size", "a vector of the wrong size was accepted");
  const int s0 = c.lrng.range(1, 4), s1 = c.lrng.range(1, 5), s2 = c.lrng.range(1, 3);
  NDLocalArray<REAL, 3> nd(t, s0, s1, s2);
  check_vec(nd.get(), std::vector<REAL>(s0 * s1 * s2, 0.0), "nd-array/default", "default");
  auto w = rnd_vec<REAL>(c.lrng, s0 * s1 * s2);
  nd.set(w);
  check_vec(nd.get(), w, "nd-array", "set and get");
  std::set<INT> lin;
  for (int i = 0; i < s0; i++)
    for (int j = 0; j < s1; j++)
      for (int k = 0; k < s2; k++) {
        const INT l = nd.index.get_linear_index(i, j, k);
        VH_CHECK(l == k + s2 * (j + s1 * i), "nd-index/order", "(" << i << "," << j << "," << k << ") of " << s0 << "x" << s1 << "x" << s2 << " is " << l);
        lin.insert(l);
      }
  VH_CHECK(static_cast<int>(lin.size()) == s0 * s1 * s2 && nd.index.size() == s0 * s1 * s2, "nd-index", "not a bijection");
  nd.fill(1.25);
  check_vec(nd.get(), std::vector<REAL>(s0 * s1 * s2, 1.25), "nd-array/fill", "filled");
}

void particle_set_test(Case &c, SYCLTargetSharedPtr t) {
  std::vector<DatSpec> dats, dats2;
  ParticleSpec spec, spec2;
  const int nd = c.lrng.range(1, 5);
  for (int i = 0; i < nd; i++) {
    DatSpec d{std::string("D") + std::to_string(i), c.lrng.range(1, 4), c.lrng.chance(0.5)};
    dats.push_back(d);
    auto push = [&](ParticleSpec &s) {
      if (d.is_real)
        s.push(ParticleProp(Sym<REAL>(d.name), d.ncomp));
      else
        s.push(ParticleProp(Sym<INT>(d.name), d.ncomp));
    };
    push(spec);
    if (c.lrng.chance(0.6)) {
      push(spec2);
      dats2.push_back(d);
    }
  }
  const int n = rnd_size(c.lrng, 50);
  ParticleSet ps(n, spec), other(n, spec2);
  // name -> component -> particle, both value types as double
  using Ref = std::map<std::string, std::vector<std::vector<double>>>;
  auto mkref = [&](const std::vector<DatSpec> &ds) {
    Ref r;
    for (auto &d : ds)
      r[d.name].assign(d.ncomp, std::vector<double>(n, 0.0));
    return r;
  };
  Ref ref = mkref(dats), ref2 = mkref(dats2);
  auto verify = [&](ParticleSet &p, Ref &r, const std::vector<DatSpec> &ds, const char *key) {
    for (auto &d : ds) {
      for (int k = 0; k < d.ncomp; k++)
        for (int px = 0; px < n; px++) {
          double a, b, e;
          if (d.is_real) {
            a = p.at(Sym<REAL>(d.name), px, k);
            b = p[Sym<REAL>(d.name)][px][k];
            e = p.get(Sym<REAL>(d.name)).at(k * n + px);
          } else {
            a = p.at(Sym<INT>(d.name), px, k);
            b = p[Sym<INT>(d.name)][px][k];
            e = p.get(Sym<INT>(d.name)).at(k * n + px);
          }
          const double w = r[d.name][k][px];
          VH_CHECK(a == w && b == w && e == w, key,
                   d.name << " particle " << px << " comp " << k << " reads " << a << " " << b << " " << e << " expected " << w);
          vh::count("particle_set_values");
        }
      VH_CHECK(p.contains(Sym<REAL>(d.name)) == d.is_real && p.contains(Sym<INT>(d.name)) == !d.is_real, "particle-set/contains", d.name);
    }
  };
  auto fill = [&](ParticleSet &p, Ref &r, const std::vector<DatSpec> &ds) {
    for (auto &d : ds)
      for (int k = 0; k < d.ncomp; k++) {
        if (c.lrng.chance(0.2))
          continue;
        auto vals = rnd_vec<INT>(c.lrng, n);
        const int how = c.lrng.range(0, 2);
        for (int px = 0; px < n; px++) {
          r[d.name][k][px] = static_cast<double>(vals[px]);
          if (how == 0) {
            if (d.is_real)
              p[Sym<REAL>(d.name)][px][k] = vals[px];
            else
              p[Sym<INT>(d.name)][px][k] = vals[px];
          } else if (how == 1) {
            if (d.is_real)
              p.at(Sym<REAL>(d.name), px, k) = vals[px];
            else
              p.at(Sym<INT>(d.name), px, k) = vals[px];
          }
        }
        if (how == 2) {
          if (d.is_real) {
            std::vector<REAL> rv(vals.begin(), vals.end());
            p.set(Sym<REAL>(d.name), k, rv);
          } else
            p.set(Sym<INT>(d.name), k, vals);
        }
      }
  };
  verify(ps, ref, dats, "particle-set/initial");
  fill(ps, ref, dats);
  verify(ps, ref, dats, "particle-set/value");
  if (!dats2.empty()) {
    fill(other, ref2, dats2);
    ps.set(other);
    for (auto &d : dats2)
      ref[d.name] = ref2[d.name];
    verify(ps, ref, dats, "particle-set/merge");
    verify(other, ref2, dats2, "particle-set/source");
  }
  // the device counterpart
  auto dspec = std::make_shared<ParticleSetDeviceSpec>(spec);
  Ref def = mkref(dats);
  for (auto &d : dats)
    for (int k = 0; k < d.ncomp; k++)
      if (c.lrng.chance(0.4)) {
        const INT v = c.lrng.range(-50, 50);
        if (d.is_real)
          dspec->set_default_value(Sym<REAL>(d.name), k, v);
        else
          dspec->set_default_value(Sym<INT>(d.name), k, v);
        def[d.name][k].assign(n, static_cast<double>(v));
      }
  ParticleSetDevice psd(t, dspec);
  if (c.lrng.chance(0.5)) // a reset drops what an earlier use left
    psd.reset(rnd_size(c.lrng, 60));
  psd.reset(n);
  auto got = psd.get();
  VH_CHECK(got->npart == n, "particle-set-device/size", got->npart << " expected " << n);
  verify(*got, def, dats, "particle-set-device/defaults");
  auto copy = std::make_shared<ParticleSet>(n, spec);
  copy->set(ps);
  psd.set(copy);
  got = psd.get();
  verify(*got, ref, dats, "particle-set-device/roundtrip");
  psd.reset(n);
  got = psd.get();
  verify(*got, def, dats, "particle-set-device/reset");
  for (auto &d : dats) {
    VH_CHECK((d.is_real ? dspec->get_num_components(Sym<REAL>(d.name)) : dspec->get_num_components(Sym<INT>(d.name))) == d.ncomp,
             "particle-set-device/components", d.name);
    const int ix = d.is_real ? dspec->get_sym_index(Sym<REAL>(d.name)) : dspec->get_sym_index(Sym<INT>(d.name));
    VH_CHECK(ix >= 0 && (d.is_real ? dspec->syms_real.at(ix).name : dspec->syms_int.at(ix).name) == d.name, "particle-set-device/index", d.name);
  }
}

void sc_cont(Case &c) {
  auto t = std::make_shared<SYCLTarget>(0, vh::world_comm());
  const int what = c.rng.range(0, 8);
  c.desc << "containers " << what;
  switch (what) {
  case 0:
    tree_test<1>(c, t);
    tree_test<8>(c, t);
    break;
  case 1:
    tree_test<64>(c, t);
    tree_test<7>(c, t);
    lut_test(c, t);
    break;
  case 2:
    cell_dat_test<REAL>(c, t);
    break;
  case 3:
    cell_dat_test<INT>(c, t);
    break;
  case 4:
    cell_dat_const_test<REAL>(c, t);
    cell_dat_const_test<INT>(c, t);
    break;
  case 5:
    buffer_test<BufferDevice<INT>>(c, t, "device");
    buffer_test<BufferHost<INT>>(c, t, "host");
    buffer_test<BufferShared<INT>>(c, t, "shared");
    device_host_test(c, t);
    break;
  case 6:
    resource_test(c, t);
    arrays_test(c, t);
    break;
  default:
    particle_set_test(c, t);
  }
  c.nontrivial = true;
  t->free();
}

// --------------------------------------------------------------- rng (P14)
// The generator hands out 1, 2, 3, ... so that every sample has an identity.
struct Gen {
  std::shared_ptr<std::int64_t> n = std::make_shared<std::int64_t>(0);
  std::function<REAL()> fn() {
    auto p = n;
    return [p]() -> REAL { return static_cast<REAL>(++(*p)); };
  }
};

template <typename GROUP>
void rng_block(Grp &g, std::shared_ptr<GROUP> group, int nloops, bool tuple) {
  Case &c = g.c;
  const int ncomp = c.rng.range(0, 4);
  const int block = c.rng.pick(std::vector<int>{1, 2, 7, 64, 8192});
  Gen gen, gen2;
  std::shared_ptr<HostPerParticleBlockRNG<REAL>> rng, rng2;
  if (c.rng.chance(0.3)) { // drawn straight into device memory
    auto n = gen.n;
    auto t = g.w.target;
    auto f = std::function<int(REAL *, const std::size_t)>([n, t](REAL *p, const std::size_t num) {
      std::vector<REAL> v(num);
      for (auto &x : v)
        x = static_cast<REAL>(++(*n));
      if (num)
        t->queue.memcpy(p, v.data(), num * sizeof(REAL)).wait_and_throw();
      return 0;
    });
    auto gf = std::make_shared<GenericDeviceRNGGenerationFunction<REAL>>(f);
    rng = std::make_shared<HostPerParticleBlockRNG<REAL>>(
        std::dynamic_pointer_cast<RNGGenerationFunction<REAL>>(gf), ncomp, block);
  } else
    rng = host_per_particle_block_rng<REAL>(gen.fn(), ncomp, block);
  rng2 = host_per_particle_block_rng<REAL>(gen2.fn(), 1, block);
  auto clear = particle_loop(
      g.w.A, [=](auto X, auto Y) {
        for (int k = 0; k < 8; k++) {
          X.at(k) = -1;
          Y.at(k) = -1;
        }
      },
      Access::write(Sym<REAL>("X")), Access::write(Sym<INT>("Y")));
  auto plain = [=](auto I, auto X, auto Y, auto R) {
    Y.at(0) = I.get_loop_linear_index();
    for (int k = 0; k < ncomp; k++) {
      bool ok = false;
      X.at(k) = R.at(I, k, &ok);
      Y.at(1 + k) = ok;
    }
  };
  ParticleLoopSharedPtr loop, loopt;
  loop = particle_loop("rng", group, plain, Access::read(ParticleLoopIndex{}), Access::write(Sym<REAL>("X")),
                       Access::write(Sym<INT>("Y")), Access::read(rng));
  auto tup = tuple_rng(rng, rng2, null_kernel_rng<REAL>());
  loopt = particle_loop(
      "rngt", group,
      [=](auto I, auto X, auto Y, auto T) {
        Y.at(0) = I.get_loop_linear_index();
        for (int k = 0; k < ncomp; k++) {
          bool ok = false;
          X.at(k) = T.template get<0>().at(I, k, &ok);
          Y.at(1 + k) = ok;
        }
        bool ok = false;
        X.at(5) = T.template get<1>().at(I, 0, &ok);
        bool nok = true;
        X.at(6) = T.template get<2>().at(I, 0, &nok);
        Y.at(6) = ok && !nok;
      },
      Access::read(ParticleLoopIndex{}), Access::write(Sym<REAL>("X")), Access::write(Sym<INT>("Y")),
      Access::read(tup));
  for (int l = 0; l < nloops; l++) {
    clear->execute();
    const std::int64_t n0 = *gen.n, m0 = *gen2.n;
    auto &lp = tuple ? loopt : loop;
    int lo = -1, hi = -1;
    if (c.rng.chance(0.4)) {
      lo = static_cast<int>(c.lrng.below(g.nc));
      hi = c.lrng.range(lo, g.nc);
      if (c.rng.chance(0.5)) {
        lp->submit(lo, hi);
        lp->wait();
      } else
        lp->execute(lo, hi);
    } else if (c.rng.chance(0.3)) {
      lo = static_cast<int>(c.lrng.below(g.nc));
      hi = lo + 1;
      lp->execute(lo);
    } else {
      lp->execute();
    }
    std::vector<std::pair<std::int64_t, std::vector<REAL>>> rows; // index, samples
    std::vector<std::vector<INT>> flags;
    for (int cx = 0; cx < g.nc; cx++) {
      auto x = g.w.A->get_cell(Sym<REAL>("X"), cx);
      auto y = g.w.A->get_cell(Sym<INT>("Y"), cx);
      for (int r = 0; r < x->nrow; r++)
        if (y->at(r, 0) >= 0) {
          std::vector<REAL> v;
          std::vector<INT> f;
          for (int k = 0; k < 8; k++) {
            v.push_back(x->at(r, k));
            f.push_back(y->at(r, k));
          }
          rows.push_back({y->at(r, 0), v});
          flags.push_back(f);
        }
    }
    const std::int64_t n = static_cast<std::int64_t>(rows.size());
    VH_CHECK(*gen.n - n0 == n * ncomp, "rng/draws",
             "loop over " << n << " particles of " << ncomp << " components drew " << *gen.n - n0 << " samples");
    for (std::size_t i = 0; i < rows.size(); i++) {
      for (int k = 0; k < ncomp; k++) {
        const REAL want = static_cast<REAL>(n0 + 1 + k * n + rows[i].first);
        VH_CHECK(rows[i].second[k] == want && flags[i][1 + k] == 1, "rng/value",
                 "index " << rows[i].first << " of " << n << " component " << k << " got sample " << rows[i].second[k] - n0
                          << " expected " << want - n0 << " valid " << flags[i][1 + k]);
      }
      if (tuple)
        VH_CHECK(rows[i].second[5] == static_cast<REAL>(m0 + 1 + rows[i].first) && rows[i].second[6] == 0 && flags[i][6] == 1,
                 "rng/tuple", "index " << rows[i].first << " got " << rows[i].second[5] << " null " << rows[i].second[6]);
    }
    VH_CHECK(rng->valid_internal_state(), "rng/state", "block generator reports an invalid state");
    vh::count("samples_checked", n * ncomp);
    if (n)
      vh::count("rng_loops");
  }
}

template <typename GROUP> void rng_atomic(Grp &g, std::shared_ptr<GROUP> group, int nloops) {
  Case &c = g.c;
  const int ncomp = c.rng.range(0, 3);
  const int block = c.rng.pick(std::vector<int>{1, 5, 64, 8192});
  Gen gen;
  auto rng = host_atomic_block_kernel_rng<REAL>(gen.fn(), ncomp, block);
  rng->suppress_warnings = true;
  std::set<std::int64_t> used; // samples ever handed to a kernel
  bool exhausted_ever = false;
  std::int64_t most_supplied = 0;
  for (int l = 0; l < nloops; l++) {
    // every particle takes Y[7] samples
    const int most = c.rng.pick(std::vector<int>{0, 1, 3, 6});
    const INT salt = c.rng.range(0, 1 << 20);
    particle_loop(
        g.w.A, [=](auto X, auto Y, auto ID) {
          for (int k = 0; k < 8; k++) {
            X.at(k) = -1;
            Y.at(k) = -1;
          }
          Y.at(7) = most ? ((ID.at(0) + salt) * 40503 >> 4) % (most + 1) : 0;
        },
        Access::write(Sym<REAL>("X")), Access::write(Sym<INT>("Y")), Access::read(Sym<INT>("ID")))
        ->execute();
    int over = -1;
    if (c.rng.chance(0.5))
      over = c.lrng.chance(0.2) ? 0 : c.lrng.range(0, 400);
    if (over >= 0 || c.rng.chance(0.3))
      rng->set_num_random_numbers(over);
    over = rng->num_random_numbers_override;
    auto loop = particle_loop(
        "arng", group,
        [=](auto I, auto X, auto Y, auto R) {
          const int n = static_cast<int>(Y.at(7));
          for (int k = 0; k < n; k++) {
            bool ok = false;
            X.at(k) = R.at(I, k, &ok);
            Y.at(k) = ok;
          }
          Y.at(6) = 1;
        },
        Access::read(ParticleLoopIndex{}), Access::write(Sym<REAL>("X")), Access::write(Sym<INT>("Y")),
        Access::read(rng));
    const std::int64_t n0 = *gen.n;
    loop->execute();
    const std::int64_t drawn = *gen.n - n0;
    std::int64_t wanted = 0, valid = 0, members = 0;
    for (int cx = 0; cx < g.nc; cx++) {
      auto x = g.w.A->get_cell(Sym<REAL>("X"), cx);
      auto y = g.w.A->get_cell(Sym<INT>("Y"), cx);
      for (int r = 0; r < x->nrow; r++) {
        if (y->at(r, 6) != 1)
          continue;
        members++;
        for (int k = 0; k < y->at(r, 7); k++) {
          wanted++;
          if (y->at(r, k) == 1) {
            valid++;
            const auto s = static_cast<std::int64_t>(x->at(r, k));
            VH_CHECK(s >= 1 && s <= *gen.n, "rng-atomic/invented", "sample " << s << " was never drawn");
            VH_CHECK(used.insert(s).second, "rng-atomic/reused", "loop " << l << ": sample " << s << " was handed out twice");
          } else
            VH_CHECK(x->at(r, k) == 0, "rng-atomic/invalid-value", "an invalid sample holds " << x->at(r, k));
        }
      }
    }
    // num_components is an estimate of the samples taken per particle
    const std::int64_t supply = ncomp == 0 ? 0 : (over >= 0 ? over : members * ncomp);
    most_supplied = std::max(most_supplied, supply);
    if (wanted <= supply)
      VH_CHECK(valid == wanted, "rng-atomic/refused",
               "loop " << l << ": " << valid << " valid samples of " << wanted << " requested, " << supply << " supplied");
    VH_CHECK(valid <= most_supplied, "rng-atomic/too-many",
             "loop " << l << ": " << valid << " samples handed out, never more than " << most_supplied << " supplied");
    VH_CHECK(exhausted_ever || drawn <= supply, "rng-atomic/draws", "loop " << l << ": drew " << drawn << " to supply " << supply);
    if (l == 0 && members > 0)
      VH_CHECK(drawn == supply, "rng-atomic/first-draw", "the first loop drew " << drawn << " to supply " << supply);
    if (valid < wanted)
      exhausted_ever = true;
    VH_CHECK(rng->valid_internal_state() == !exhausted_ever, "rng-atomic/state",
             "loop " << l << ": reports valid state " << rng->valid_internal_state() << " wanted " << wanted << " valid " << valid);
    vh::count("atomic_samples_checked", valid);
    if (valid < wanted)
      vh::count("exhausted_loops");
    if (valid)
      vh::count("rng_loops");
  }
}

void sc_rng(Case &c) {
  Grp g(c);
  c.desc << g.w.wp.str();
  if (!c.lrng.chance(0.12))
    g.add();
  const int kind = pick_kind(c);
  const int nloops = c.rng.range(1, 5);
  const int what = c.rng.range(0, 2);
  c.desc << " selection " << kind << " test " << what << " loops " << nloops;
  auto run = [&](auto grp) {
    if (what == 0)
      rng_block(g, grp, nloops, false);
    else if (what == 1)
      rng_block(g, grp, nloops, true);
    else
      rng_atomic(g, grp, nloops);
  };
  if (kind == 3)
    run(g.w.A);
  else
    run(sub_of(g, kind));
  c.nontrivial = g.w.A->get_npart_local() > 0;
  g.w.free();
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv,
                  {{"prim", sc_prim, 1}, {"reduce", sc_reduce, 1}, {"cont", sc_cont, 1}, {"rng", sc_rng, 1}});
}
