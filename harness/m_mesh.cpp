// P16 mesh hierarchy indexing and ownership, P17 mesh hierarchy data,
// P26 communication utilities.
#include "world.hpp"
#include <neso_particles/mesh_interface_local_decomp.hpp>
#include <cmath>
using namespace vh;
using namespace NESO::Particles;

namespace {

// ---------------------------------------------------------------- P16
struct MH {
  std::shared_ptr<MeshHierarchy> mh;
  int ndim, sub;
  std::vector<int> dims;
  std::vector<double> origin;
  double extent;
  INT nfine;
  std::string str;
};

MH make_mh(Rng &r, MPI_Comm comm, int maxcells, bool odd_origin = true) {
  MH m;
  m.ndim = r.range(1, 3);
  m.sub = r.range(0, 3);
  for (;;) {
    m.dims.clear();
    double n = 1;
    for (int d = 0; d < m.ndim; d++) {
      m.dims.push_back(r.range(1, 6));
      n *= m.dims.back() * std::pow(2, m.sub);
    }
    if (n <= maxcells)
      break;
    m.sub = r.range(0, m.sub);
  }
  m.nfine = 1 << m.sub;
  m.extent = r.pick(std::vector<double>{1.0, 0.5, 0.1, 1.0 / 3.0, 2.0, 7.3, 1e-3, 250.0});
  for (int d = 0; d < m.ndim; d++)
    m.origin.push_back(odd_origin ? r.pick(std::vector<double>{0.0, 0.0, -0.5, 1.0, 0.1, -3.7, 12.25}) * m.extent : 0.0);
  m.mh = std::make_shared<MeshHierarchy>(comm, m.ndim, m.dims, m.origin, m.extent, m.sub);
  m.str = "hierarchy " + vh::str(m.dims) + " subdivision " + std::to_string(m.sub) + " extent " + std::to_string(m.extent) + " origin " + vh::str(m.origin);
  return m;
}

// cell of one coordinate: the interval of cells a correct result may name
void cell_interval(double pos, double origin, double w, INT n, INT &lo, INT &hi) {
  const double x = (pos - origin) / w;
  const double eps = 1e-9 * n + 1e-12 * std::abs(origin / w);
  lo = static_cast<INT>(std::floor(x - eps));
  hi = static_cast<INT>(std::floor(x + eps));
  lo = std::max<INT>(0, std::min<INT>(n - 1, lo));
  hi = std::max<INT>(0, std::min<INT>(n - 1, hi));
}

void index_test(Case &c, MH &m) {
  const INT n = m.mh->ncells_global;
  INT want = 1;
  for (int d : m.dims)
    want *= d * m.nfine;
  VH_CHECK(n == want, "mh/count", m.str << " reports " << n << " cells, expected " << want);
  auto target = std::make_shared<SYCLTarget>(0, vh::world_comm());
  struct Free {
    SYCLTargetSharedPtr t;
    ~Free() { t->free(); }
  } free_target{target};
  auto mapper = std::make_shared<MeshHierarchyMapper>(target, m.mh);
  auto hm = mapper->get_host_mapper();
  std::set<std::vector<INT>> seen;
  for (INT i = 0; i < n; i++) {
    INT t[6] = {0, 0, 0, 0, 0, 0};
    m.mh->linear_to_tuple_global(i, t);
    for (int d = 0; d < m.ndim; d++)
      VH_CHECK(t[d] >= 0 && t[d] < m.dims[d] && t[d + m.ndim] >= 0 && t[d + m.ndim] < m.nfine, "mh/tuple-range",
               m.str << " cell " << i << " dimension " << d << " coarse " << t[d] << " fine " << t[d + m.ndim]);
    VH_CHECK(seen.insert(std::vector<INT>(t, t + 2 * m.ndim)).second, "mh/tuple-shared", m.str << " cell " << i << " shares its tuple with another cell");
    VH_CHECK(m.mh->tuple_to_linear_global(t) == i, "mh/roundtrip", m.str << " cell " << i << " maps back to " << m.mh->tuple_to_linear_global(t));
    VH_CHECK(hm.tuple_to_linear_global(t) == i, "mh/roundtrip-mapper", m.str << " cell " << i << " maps back to " << hm.tuple_to_linear_global(t));
    INT ct[3], t2[6];
    hm.map_tuple_to_cart_tuple(t, ct);
    bool ok = true;
    for (int d = 0; d < m.ndim; d++)
      ok = ok && ct[d] == t[d] * m.nfine + t[d + m.ndim];
    VH_CHECK(ok, "mh/cart-tuple", m.str << " cell " << i);
    hm.cart_tuple_to_tuple(ct, t2);
    VH_CHECK(std::equal(t, t + 2 * m.ndim, t2), "mh/cart-roundtrip", m.str << " cell " << i);
    // the linear index is made of the linear indices of its two parts
    const INT q = i / m.mh->ncells_fine, rr = i % m.mh->ncells_fine;
    VH_CHECK(m.mh->tuple_to_linear_coarse(t) == q && m.mh->tuple_to_linear_fine(t + m.ndim) == rr, "mh/parts", m.str << " cell " << i);
    INT tc[3], tf[3];
    m.mh->linear_to_tuple_coarse(q, tc);
    m.mh->linear_to_tuple_fine(rr, tf);
    VH_CHECK(std::equal(tc, tc + m.ndim, t) && std::equal(tf, tf + m.ndim, t + m.ndim), "mh/parts-tuple", m.str << " cell " << i);
  }
  vh::count("mh_cells_indexed", n);
  // positions
  const int np = 200;
  std::vector<REAL> pos(np * 3, 0.0);
  std::vector<int> kind(np * 3, 0); // 0 inside, 1 beyond the upper end, 2 below the lower end
  const double w = m.extent / m.nfine;
  for (int p = 0; p < np; p++)
    for (int d = 0; d < m.ndim; d++) {
      const double len = m.dims[d] * m.extent;
      double x;
      switch (c.lrng.range(0, 8)) {
      case 0:
        x = m.origin[d] + len;
        break;
      case 1:
        x = m.origin[d];
        break;
      case 2: { // around a face
        const INT f = c.lrng.range(0, m.dims[d] * static_cast<int>(m.nfine));
        x = m.origin[d] + f * w;
        const int k = c.lrng.range(0, 2);
        if (k == 1)
          x = std::nextafter(x, 1e300);
        if (k == 2)
          x = std::nextafter(x, -1e300);
        break;
      }
      case 3: { // around a coarse face
        const int f = c.lrng.range(0, m.dims[d]);
        x = m.origin[d] + f * m.extent;
        if (c.lrng.chance(0.5))
          x += (c.lrng.real() - 0.5) * 1e-12 * m.extent;
        break;
      }
      case 4:
        x = m.origin[d] + len * (1.0 + c.lrng.pick(std::vector<double>{1e-7, 1e-3, 1.0, 37.5}));
        kind[3 * p + d] = 1;
        break;
      case 5:
        x = m.origin[d] - len * c.lrng.pick(std::vector<double>{1e-7, 0.4, 1.0, 37.5});
        kind[3 * p + d] = 2;
        break;
      default:
        x = c.lrng.real(m.origin[d], m.origin[d] + len);
      }
      if (kind[3 * p + d] == 0)
        x = std::min(std::max(x, m.origin[d]), m.origin[d] + len);
      pos[3 * p + d] = x;
    }
  BufferDevice<REAL> dp(target, pos);
  BufferDevice<INT> dc(target, std::vector<INT>(np * 6, -7)), dn(target, std::vector<INT>(np * 3, -7));
  {
    auto dm = mapper->get_device_mapper();
    auto kp = dp.ptr;
    auto kc = dc.ptr;
    auto kn = dn.ptr;
    target->queue
        .submit([&](sycl::handler &h) {
          h.parallel_for<>(sycl::range<1>(np), [=](sycl::id<1> i) {
            dm.map_to_tuple(&kp[i * 3], &kc[i * 6]);
            dm.map_to_cart_tuple_no_trunc(&kp[i * 3], &kn[i * 3]);
          });
        })
        .wait_and_throw();
  }
  auto hc = dc.get();
  auto hn = dn.get();
  for (int p = 0; p < np; p++) {
    INT t[6] = {0}, nt[3] = {0};
    hm.map_to_tuple(&pos[3 * p], t);
    hm.map_to_cart_tuple_no_trunc(&pos[3 * p], nt);
    VH_CHECK(std::equal(t, t + 2 * m.ndim, &hc[6 * p]) && std::equal(nt, nt + m.ndim, &hn[3 * p]), "mh/host-device",
             m.str << " position " << p << " maps differently on host and device");
    for (int d = 0; d < m.ndim; d++) {
      const double x = pos[3 * p + d];
      const INT nd = m.dims[d] * m.nfine;
      INT lo, hi;
      if (kind[3 * p + d] == 0) {
        cell_interval(x, m.origin[d], w, nd, lo, hi);
        const INT got = t[d] * m.nfine + t[d + m.ndim];
        VH_CHECK(t[d] >= 0 && t[d] < m.dims[d] && t[d + m.ndim] >= 0 && t[d + m.ndim] < m.nfine && got >= lo && got <= hi, "mh/position",
                 m.str << " position " << x << " dimension " << d << " mapped to coarse " << t[d] << " fine " << t[d + m.ndim] << ", expected cell " << lo << ".." << hi);
      } else if (kind[3 * p + d] == 1)
        VH_CHECK(t[d] < 0, "mh/outside", m.str << " position " << x << " beyond the domain mapped to coarse cell " << t[d]);
      // without truncation: the cell of the unbounded grid
      const double xx = (x - m.origin[d]) / w;
      const double eps = 1e-9 * (nd + std::abs(xx)) + 1e-12 * std::abs(m.origin[d] / w);
      const INT l = static_cast<INT>(std::floor(xx - eps)), h = static_cast<INT>(std::floor(xx + eps));
      VH_CHECK(nt[d] >= l && nt[d] <= h, "mh/position-unbounded", m.str << " position " << x << " dimension " << d << " cell " << nt[d] << " expected " << l << ".." << h);
    }
    vh::count("mh_positions");
  }
}

void claim_test(Case &c, MH &m, MPI_Comm comm) {
  int rk, sz;
  MPI_Comm_rank(comm, &rk);
  MPI_Comm_size(comm, &sz);
  const INT n = m.mh->ncells_global;
  const int rounds = c.rng.range(1, 2);
  for (int round = 0; round < rounds; round++) {
    m.mh->claim_initialise();
    std::vector<INT> mine;
    const int wmax = c.rng.pick(std::vector<int>{1, 2, 5, 1000000, std::numeric_limits<int>::max() - 1});
    const int style = c.rng.range(0, 2);
    const int k = c.lrng.chance(0.15) ? 0 : (style == 0 ? static_cast<int>(n) : c.lrng.range(0, static_cast<int>(std::min<INT>(2 * n, 200))));
    for (int i = 0; i < k; i++) {
      const INT cell = style == 0 ? i : static_cast<INT>(c.lrng.below(n));
      const int wgt = c.lrng.range(1, wmax);
      m.mh->claim_cell(cell, wgt);
      mine.push_back(cell);
      mine.push_back(wgt);
    }
    m.mh->claim_finalise();
    // every rank's claims
    int len = static_cast<int>(mine.size());
    std::vector<int> lens(sz), offs(sz);
    MPI_Allgather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, comm);
    int tot = 0;
    for (int r = 0; r < sz; r++) {
      offs[r] = tot;
      tot += lens[r];
    }
    std::vector<INT> all(tot + 1);
    MPI_Allgatherv(mine.data(), len, MPI_INT64_T, all.data(), lens.data(), offs.data(), MPI_INT64_T, comm);
    std::map<INT, std::pair<INT, int>> best;
    for (int r = 0; r < sz; r++)
      for (int i = offs[r]; i < offs[r] + lens[r]; i += 2) {
        auto b = std::make_pair(all[i + 1], r);
        auto it = best.find(all[i]);
        if (it == best.end() || it->second < b)
          best[all[i]] = b;
      }
    std::vector<INT> tuples;
    std::vector<int> owners;
    for (INT cell = 0; cell < n; cell++) {
      const int o = m.mh->get_owner(cell);
      if (best.count(cell)) {
        VH_CHECK(o == best[cell].second, "mh/owner", m.str << " round " << round << " cell " << cell << " is owned by " << o << ", largest claim "
                                                           << best[cell].first << " is by rank " << best[cell].second);
        vh::count("mh_cells_claimed");
      } else
        VH_CHECK(o < 0, "mh/unclaimed", m.str << " cell " << cell << " nobody claimed is owned by " << o);
      INT t[6];
      m.mh->linear_to_tuple_global(cell, t);
      tuples.insert(tuples.end(), t, t + 2 * m.ndim);
      owners.push_back(o);
    }
    std::vector<int> got(n + 1, -99);
    m.mh->get_owners(static_cast<int>(n), tuples.data(), got.data());
    VH_CHECK(std::equal(owners.begin(), owners.end(), got.begin()) && got[n] == -99, "mh/owners", m.str << " get_owners differs from get_owner");
  }
}

void neighbour_test(Case &c, MH &m) {
  const INT n = m.mh->ncells_global;
  std::vector<INT> nd(3, 1);
  for (int d = 0; d < m.ndim; d++)
    nd[d] = m.dims[d] * m.nfine;
  auto coords = [&](INT cell) {
    INT t[6];
    m.mh->linear_to_tuple_global(cell, t);
    std::vector<INT> x(m.ndim);
    for (int d = 0; d < m.ndim; d++)
      x[d] = t[d] * m.nfine + t[d + m.ndim];
    return x;
  };
  auto ref = [&](INT cell, int off, bool pbc) {
    std::set<INT> s;
    auto a = coords(cell);
    for (INT o = 0; o < n; o++) {
      auto b = coords(o);
      bool near = true;
      for (int d = 0; d < m.ndim; d++) {
        INT dist = std::abs(a[d] - b[d]);
        if (pbc)
          dist = std::min(dist, nd[d] - dist);
        near = near && dist <= off;
      }
      if (near && o != cell)
        s.insert(o);
    }
    return s;
  };
  for (int rep = 0; rep < 4; rep++) {
    const bool pbc = c.lrng.chance(0.5);
    const int off = c.lrng.pick(std::vector<int>{0, 1, 1, 2, 3, 5});
    const INT cell = static_cast<INT>(c.lrng.below(n));
    std::set<INT> got;
    get_neighbour_mh_cells(m.mh, cell, off, pbc, got);
    const auto want = ref(cell, off, pbc);
    VH_CHECK(got == want, "mh/neighbours", m.str << " cell " << cell << " offset " << off << " periodic " << pbc << ": " << got.size() << " neighbours, expected " << want.size());
    vh::count("mh_neighbours", want.size());
    std::vector<INT> cells, extra, out{1, 2, 3};
    std::set<INT> w;
    for (int i = 0; i < c.lrng.range(0, 4); i++)
      cells.push_back(c.lrng.below(n));
    for (int i = 0; i < c.lrng.range(0, 4); i++)
      extra.push_back(c.lrng.below(n));
    for (INT x : cells) {
      auto s = ref(x, off, pbc);
      w.insert(s.begin(), s.end());
      w.insert(x);
    }
    w.insert(extra.begin(), extra.end());
    get_neighbour_mh_cells(m.mh, cells, extra, off, pbc, out);
    VH_CHECK(out == std::vector<INT>(w.begin(), w.end()), "mh/neighbours-many", m.str << " offset " << off << " periodic " << pbc << ": " << out.size() << " cells, expected " << w.size());
  }
}

MPI_Comm random_comm(Case &c) {
  MPI_Comm comm;
  if (c.rng.chance(0.5) || size() == 1)
    MPI_Comm_dup(vh::world_comm(), &comm);
  else {
    const int k = c.rng.range(0, 2);
    if (k == 0) // reversed ranks
      MPI_Comm_split(vh::world_comm(), 0, size() - rank(), &comm);
    else if (k == 1) // two parts
      MPI_Comm_split(vh::world_comm(), rank() % 2, rank(), &comm);
    else
      MPI_Comm_split(vh::world_comm(), rank() < size() / 2, size() - rank(), &comm);
  }
  return comm;
}

void sc_hier(Case &c) {
  MPI_Comm comm = random_comm(c);
  auto m = make_mh(c.rng, comm, thorough() ? 2000 : 600);
  c.desc << m.str;
  index_test(c, m);
  neighbour_test(c, m);
  claim_test(c, m, comm);
  {
    // a mesh without global maps: one unit cell per dimension
    const int nd = c.rng.range(1, 3), cells = c.lrng.range(0, 20);
    std::vector<double> org(nd), ext(nd);
    for (int d = 0; d < nd; d++)
      org[d] = c.rng.range(-3, 3), ext[d] = c.rng.range(1, 4);
    LocalDecompositionHMesh l(nd, org, ext, cells, comm);
    auto mh = l.get_mesh_hierarchy();
    double p[3] = {-99, -99, -99};
    l.get_point_in_subdomain(p);
    int cmp = MPI_UNEQUAL;
    MPI_Comm_compare(l.get_comm(), comm, &cmp);
    bool good = cmp == MPI_IDENT && l.get_ndim() == nd && l.get_cell_count() == cells && (int)l.get_dims().size() == nd && l.get_subdivision_order() == 0 &&
                l.get_cell_width_coarse() == 1.0 && l.get_cell_width_fine() == 1.0 && l.get_inverse_cell_width_coarse() == 1.0 && l.get_inverse_cell_width_fine() == 1.0 &&
                l.get_ncells_coarse() == 1 && l.get_ncells_fine() == 1 && mh->ndim == nd && l.get_local_communication_neighbours().empty();
    for (int d = 0; d < nd; d++)
      good = good && l.global_origin[d] == org[d] && l.global_extents[d] == ext[d] && p[d] == org[d] && l.get_dims()[d] == 1 && mh->origin[d] == org[d];
    VH_CHECK(good, "mh/local-mesh", "a local decomposition mesh of " << nd << " dimensions does not report what it was made from");
    l.free();
  }
  m.mh->free();
  MPI_Comm_free(&comm);
  c.nontrivial = true;
}

// ---------------------------------------------------------------- P17
struct Obj : public MeshHierarchyData::SerialInterface {
  std::int64_t id = -1;
  std::vector<double> v;
  std::size_t get_num_bytes() const override { return sizeof(id) + v.size() * sizeof(double); }
  void serialise(std::byte *b, const std::size_t n) const override {
    VH_CHECK(n == get_num_bytes(), "mhd/bytes", "serialise called with " << n << " bytes");
    std::memcpy(b, &id, sizeof(id));
    if (v.size())
      std::memcpy(b + sizeof(id), v.data(), v.size() * sizeof(double));
  }
  void deserialise(const std::byte *b, const std::size_t n) override {
    if (n < sizeof(id)) {
      VH_CHECK(false, "mhd/bytes", "deserialise called with " << n << " bytes");
      return;
    }
    std::memcpy(&id, b, sizeof(id));
    v.resize((n - sizeof(id)) / sizeof(double));
    if (v.size())
      std::memcpy(v.data(), b + sizeof(id), v.size() * sizeof(double));
  }
  static Obj make(std::int64_t id) {
    Obj o;
    o.id = id;
    const int n = static_cast<int>(hash64(id, 5) % 7);
    for (int i = 0; i < n; i++)
      o.v.push_back(static_cast<double>(hash64(id, 6, i) % 1000003));
    return o;
  }
  bool good() const {
    auto o = make(id);
    return o.v == v;
  }
};

void sc_mhdata(Case &c) {
  MPI_Comm comm = random_comm(c);
  int rk, sz;
  MPI_Comm_rank(comm, &rk);
  MPI_Comm_size(comm, &sz);
  auto m = make_mh(c.rng, comm, 300);
  c.desc << m.str;
  const INT n = m.mh->ncells_global;
  m.mh->claim_initialise();
  const double dens = c.rng.pick(std::vector<double>{0.3, 1.0, 0.7});
  for (INT cell = 0; cell < n; cell++)
    if (c.lrng.chance(dens))
      m.mh->claim_cell(cell, c.lrng.range(1, 9));
  m.mh->claim_finalise();
  std::map<INT, std::vector<Obj>> data;
  std::vector<INT> mine; // cell, id
  std::int64_t next = 1 + rank();
  const int k = c.lrng.chance(0.2) ? 0 : c.lrng.range(0, 30);
  for (int i = 0; i < k; i++) {
    const INT cell = c.lrng.below(n);
    auto &v = data[cell];
    if (c.lrng.chance(0.1))
      continue;
    const int q = c.lrng.range(1, 5);
    for (int j = 0; j < q; j++) {
      v.push_back(Obj::make(next));
      mine.push_back(cell);
      mine.push_back(next);
      next += size();
    }
  }
  int len = static_cast<int>(mine.size());
  std::vector<int> lens(sz), offs(sz);
  MPI_Allgather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, comm);
  int tot = 0;
  for (int r = 0; r < sz; r++) {
    offs[r] = tot;
    tot += lens[r];
  }
  std::vector<INT> all(tot + 1);
  MPI_Allgatherv(mine.data(), len, MPI_INT64_T, all.data(), lens.data(), offs.data(), MPI_INT64_T, comm);
  std::map<INT, std::multiset<std::int64_t>> want;
  for (int i = 0; i < tot; i += 2)
    if (m.mh->get_owner(all[i]) >= 0)
      want[all[i]].insert(all[i + 1]);
  {
    MeshHierarchyData::MeshHierarchyContainer<Obj> box(m.mh, data);
    std::set<INT> asked;
    const int rounds = c.rng.range(1, 4);
    for (int r = 0; r < rounds; r++) {
      std::vector<INT> cells;
      const int q = c.lrng.chance(0.2) ? 0 : c.lrng.range(0, static_cast<int>(std::min<INT>(n, 40)));
      for (int i = 0; i < q; i++)
        cells.push_back(c.lrng.below(n));
      box.gather(cells);
      asked.insert(cells.begin(), cells.end());
      for (INT cell : asked) {
        std::vector<Obj> out(3);
        box.get(cell, out);
        std::multiset<std::int64_t> ids;
        for (auto &o : out) {
          VH_CHECK(o.good(), "mhd/content", m.str << " cell " << cell << " object " << o.id << " arrived with other content");
          ids.insert(o.id);
        }
        VH_CHECK(ids == want[cell], "mhd/gather", m.str << " cell " << cell << " owner " << m.mh->get_owner(cell) << " round " << r << ": " << ids.size() << " objects, expected " << want[cell].size());
        vh::count("mhd_objects", ids.size());
        if (ids.size())
          c.nontrivial = true;
      }
    }
    box.free();
  }
  m.mh->free();
  MPI_Comm_free(&comm);
}

// ---------------------------------------------------------------- P26
template <typename T> T big(Rng &r) {
  if constexpr (std::is_floating_point<T>::value)
    return r.real(-1e6, 1e6);
  else if constexpr (sizeof(T) == 8)
    return static_cast<T>(r.u64() >> 2) * (r.chance(0.5) ? 1 : -1);
  else
    return static_cast<T>(r.range(-2000000000, 2000000000));
}

template <typename T> std::vector<std::vector<T>> everyone(const std::vector<T> &v, MPI_Comm comm) {
  int sz;
  MPI_Comm_size(comm, &sz);
  std::vector<int> lens(sz), offs(sz);
  int len = static_cast<int>(v.size() * sizeof(T));
  MPI_Allgather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, comm);
  int tot = 0;
  for (int r = 0; r < sz; r++) {
    offs[r] = tot;
    tot += lens[r];
  }
  std::vector<char> all(tot + 1);
  MPI_Allgatherv(v.data(), len, MPI_BYTE, all.data(), lens.data(), offs.data(), MPI_BYTE, comm);
  std::vector<std::vector<T>> out(sz);
  for (int r = 0; r < sz; r++) {
    out[r].resize(lens[r] / sizeof(T));
    std::memcpy(out[r].data(), all.data() + offs[r], lens[r]);
  }
  return out;
}

template <typename T> void vectors(Case &c, MPI_Comm comm, int rk, int sz) {
  std::vector<T> v(c.lrng.chance(0.3) ? 0 : c.lrng.range(0, 50)), out(c.lrng.range(0, 5));
  for (auto &x : v)
    x = big<T>(c.lrng);
  auto e = everyone(v, comm);
  std::vector<T> want;
  for (auto &x : e)
    want.insert(want.end(), x.begin(), x.end());
  all_gather_v(v, comm, out);
  VH_CHECK(out == want, "comm/all-gather", "gathered " << out.size() << " values, expected " << want.size());
  const int root = c.rng.range(0, 1000000) % sz;
  gather_v(v, comm, root, out);
  VH_CHECK(out == (rk == root ? want : std::vector<T>{}), "comm/gather", "root " << root << ": rank " << rk << " holds " << out.size() << " values");
  vh::count("comm_values", want.size());
}

template <typename T> void sets(Case &c, MPI_Comm comm, int rk, int sz) {
  std::set<T> s;
  std::vector<T> v;
  const int n = c.lrng.chance(0.3) ? 0 : c.lrng.range(0, 20);
  const bool small = c.lrng.chance(0.5);
  for (int i = 0; i < n; i++)
    s.insert(small ? static_cast<T>(c.lrng.range(0, 15)) : big<T>(c.lrng));
  v.assign(s.begin(), s.end());
  auto e = everyone(v, comm);
  std::set<T> want;
  for (auto &x : e)
    want.insert(x.begin(), x.end());
  const int root = c.rng.range(0, 1000000) % sz;
  auto u = set_reduce_union(s, root, comm);
  VH_CHECK((u == (rk == root ? want : std::set<T>{})), "comm/set-reduce", "root " << root << " of " << sz << ": rank " << rk << " holds " << u.size() << " values, union has " << want.size());
  auto a = set_all_reduce_union(s, comm);
  VH_CHECK(a == want, "comm/set-all-reduce", "rank " << rk << " of " << sz << " holds " << a.size() << " values, union has " << want.size());
  auto b = set_bcast(s, root, comm);
  VH_CHECK((b == std::set<T>(e[root].begin(), e[root].end())), "comm/set-bcast", "root " << root << ": rank " << rk << " holds " << b.size() << " values, expected " << e[root].size());
  if (sz > 1) { // a ring of point to point transfers; even ranks send first
    const int to = (rk + 1) % sz, from = (rk + sz - 1) % sz, tag = c.rng.range(0, 100);
    std::set<T> got;
    if (rk % 2 == 0) {
      set_send(s, to, tag, comm);
      got = set_recv<T>(from, tag, comm);
    } else {
      got = set_recv<T>(from, tag, comm);
      set_send(s, to, tag, comm);
    }
    VH_CHECK((got == std::set<T>(e[from].begin(), e[from].end())), "comm/set-transfer", "received " << got.size() << " of " << e[from].size() << " values");
  }
  VH_CHECK((s == std::set<T>(v.begin(), v.end())), "comm/set-input", "input set changed");
  vh::count("comm_values", want.size());
}

void graphs(Case &c, MPI_Comm comm, int rk, int sz) {
  // edges[i][j]: number of edges from i to j, the same on all ranks
  std::vector<std::vector<int>> edges(sz, std::vector<int>(sz, 0));
  for (auto &x : edges)
    for (auto &y : x)
      y = c.rng.chance(0.5) ? c.rng.pick(std::vector<int>{1, 1, 1, 2}) : 0;
  std::vector<int> src, dst;
  for (int r = 0; r < sz; r++) {
    for (int k = 0; k < edges[r][rk]; k++)
      src.push_back(r);
    for (int k = 0; k < edges[rk][r]; k++)
      dst.push_back(r);
  }
  c.lrng.shuffle(src);
  c.lrng.shuffle(dst);
  const int nin = static_cast<int>(src.size()), nout = static_cast<int>(dst.size());
  std::vector<int> ones(std::max(nin, nout) + 1, 1);
  MPI_Comm g;
  MPI_Dist_graph_create_adjacent(comm, nin, src.data(), ones.data(), nout, dst.data(), ones.data(), MPI_INFO_NULL, 0, &g);
  // the message on the k-th edge from i to j
  auto msg = [&](int i, int j, int k, int q) { return static_cast<std::int64_t>(hash64(i * 64 + j, k, q, c.index)); };
  const int cnt = c.rng.range(0, 4);
  std::vector<std::int64_t> sb(nout * cnt + 1), rb(nin * cnt + 1, -1), want(nin * cnt + 1, -1);
  {
    std::map<int, int> kth;
    for (int e = 0; e < nout; e++) {
      const int k = kth[dst[e]]++;
      for (int q = 0; q < cnt; q++)
        sb[e * cnt + q] = msg(rk, dst[e], k, q);
    }
    kth.clear();
    for (int e = 0; e < nin; e++) {
      const int k = kth[src[e]]++;
      for (int q = 0; q < cnt; q++)
        want[e * cnt + q] = msg(src[e], rk, k, q);
    }
  }
  NP_MPI_Neighbor_alltoall(sb.data(), cnt, MPI_INT64_T, rb.data(), cnt, MPI_INT64_T, g);
  VH_CHECK(rb == want, "comm/neighbour-alltoall", "rank " << rk << " in " << nin << " out " << nout << " count " << cnt);
  // different counts and places
  auto counts = [&](int i, int j, int k) { return static_cast<int>(hash64(i * 64 + j, k, 3, c.index) % 4); };
  std::vector<int> sc(nout + 1), rc(nin + 1);
  std::vector<MPI_Aint> sd(nout + 1), rd(nin + 1);
  std::vector<MPI_Datatype> st(nout + 1, MPI_INT64_T), rt(nin + 1, MPI_INT64_T);
  std::vector<std::int64_t> s2(nout * 4 + 1, -5), r2(nin * 4 + 1, -1), w2(nin * 4 + 1, -1);
  {
    std::map<int, int> kth;
    std::vector<int> slot(nout);
    for (int e = 0; e < nout; e++)
      slot[e] = e;
    c.lrng.shuffle(slot);
    for (int e = 0; e < nout; e++) {
      const int k = kth[dst[e]]++;
      sc[e] = counts(rk, dst[e], k);
      sd[e] = slot[e] * 4 * sizeof(std::int64_t);
      for (int q = 0; q < sc[e]; q++)
        s2[slot[e] * 4 + q] = msg(rk, dst[e], k, q + 10);
    }
    kth.clear();
    slot.resize(nin);
    for (int e = 0; e < nin; e++)
      slot[e] = e;
    c.lrng.shuffle(slot);
    for (int e = 0; e < nin; e++) {
      const int k = kth[src[e]]++;
      rc[e] = counts(src[e], rk, k);
      rd[e] = slot[e] * 4 * sizeof(std::int64_t);
      for (int q = 0; q < rc[e]; q++)
        w2[slot[e] * 4 + q] = msg(src[e], rk, k, q + 10);
    }
  }
  NP_MPI_Neighbor_alltoallw(s2.data(), sc.data(), sd.data(), st.data(), r2.data(), rc.data(), rd.data(), rt.data(), g);
  VH_CHECK(r2 == w2, "comm/neighbour-alltoallw", "rank " << rk << " in " << nin << " out " << nout);
  MPI_Comm rev;
  VH_CHECK(reverse_graph_edge_directions(comm, g, &rev) == MPI_SUCCESS, "comm/reverse", "failed");
  int ri, ro, wt;
  MPI_Dist_graph_neighbors_count(rev, &ri, &ro, &wt);
  std::vector<int> a(ri + 1), aw(ri + 1), b(ro + 1), bw(ro + 1);
  MPI_Dist_graph_neighbors(rev, ri, a.data(), aw.data(), ro, b.data(), bw.data());
  a.resize(ri);
  b.resize(ro);
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  auto s_ = src, d_ = dst;
  std::sort(s_.begin(), s_.end());
  std::sort(d_.begin(), d_.end());
  VH_CHECK(a == d_ && b == s_, "comm/reverse", "rank " << rk << ": the reversed graph has " << ri << " sources and " << ro << " destinations of " << nout << " and " << nin);
  MPI_Comm_free(&rev);
  MPI_Comm_free(&g);
  vh::count("comm_edges", nin);
}

void edges_counter(Case &c, MPI_Comm comm, int rk, int sz) {
  CommunicationEdgesCounter ece(comm);
  const int rounds = c.rng.range(1, 4);
  for (int round = 0; round < rounds; round++) {
    std::vector<char> on(sz * sz);
    for (auto &x : on)
      x = c.rng.chance(0.5);
    auto cnt = [&](int i, int j) { return static_cast<std::int64_t>(hash64(i * 64 + j, round, c.index) % 5 == 0 ? 0 : hash64(i * 64 + j, round, c.index) % 300); };
    auto byte = [&](int i, int j, std::int64_t k) { return static_cast<char>(hash64(i * 64 + j, k, round)); };
    std::vector<int> rr, sr;
    std::vector<std::int64_t> rc, sc;
    for (int r = 0; r < sz; r++)
      if (on[rk * sz + r])
        rr.push_back(r);
    c.lrng.shuffle(rr);
    std::vector<std::vector<char>> out;
    for (int r : rr) {
      rc.push_back(cnt(rk, r));
      std::vector<char> b(rc.back() + 1);
      for (std::int64_t k = 0; k < rc.back(); k++)
        b[k] = byte(rk, r, k);
      out.push_back(b);
    }
    ece.get_remote_ranks(rr, rc, sr, sc);
    std::map<int, std::int64_t> got, want;
    for (std::size_t i = 0; i < sr.size(); i++)
      got[sr[i]] = sc[i];
    for (int r = 0; r < sz; r++)
      if (on[r * sz + rk])
        want[r] = cnt(r, rk);
    if (!VH_CHECK(got == want && sr.size() == want.size(), "comm/remote-ranks", "rank " << rk << " round " << round << " learned of " << sr.size() << " ranks, expected " << want.size() << " (or other sizes)")) {
      sr.clear(); // keep the communication matched
      sc.clear();
      for (auto &x : want) {
        sr.push_back(x.first);
        sc.push_back(x.second);
      }
    }
    std::vector<std::vector<char>> in;
    std::vector<void *> op, ip;
    for (auto n : sc)
      in.push_back(std::vector<char>(n + 1, 77));
    for (auto &x : out)
      op.push_back(x.data());
    for (auto &x : in)
      ip.push_back(x.data());
    ece.exchange_send_recv_data(rr, rc, op, sr, sc, ip);
    for (std::size_t i = 0; i < sr.size(); i++) {
      bool ok = in[i][sc[i]] == 77;
      for (std::int64_t k = 0; k < sc[i]; k++)
        ok = ok && in[i][k] == byte(sr[i], rk, k);
      VH_CHECK(ok, "comm/edge-data", "data of rank " << sr[i] << " to rank " << rk << " round " << round);
      vh::count("comm_edges");
    }
    // ordered exchange of further counts along the same edges
    std::vector<std::int64_t> a, b(sr.size(), -1);
    for (int r : rr)
      a.push_back(cnt(rk, r) + 1000);
    ece.exchange_send_recv_counts(rr, a, sr, b, true);
    for (std::size_t i = 0; i < sr.size(); i++)
      VH_CHECK(b[i] == cnt(sr[i], rk) + 1000, "comm/edge-counts", "count of rank " << sr[i]);
  }
  ece.free();
}

void decomps(Case &c) {
  for (int rep = 0; rep < 20; rep++) {
    const int nd = c.lrng.range(1, 3), n = c.lrng.range(1, 64);
    std::vector<int> cells;
    std::int64_t tot = 1;
    for (int d = 0; d < nd; d++) {
      cells.push_back(c.lrng.range(1, 40));
      tot *= cells.back();
    }
    auto prod = [](const std::vector<int> &v) {
      std::int64_t p = 1;
      for (int x : v)
        p *= x;
      return p;
    };
    auto a = get_single_dimension_cart_decomp(n, nd, cells);
    VH_CHECK(prod(a) == n && static_cast<int>(a.size()) == nd, "comm/decomp-single", n << " ranks cells " << vh::str(cells) << " got " << vh::str(a));
    auto b = get_reordered_cart_decomp(nd, get_cart_dims(n, nd), cells);
    VH_CHECK(prod(b) == n && static_cast<int>(b.size()) == nd, "comm/decomp", n << " ranks cells " << vh::str(cells) << " got " << vh::str(b));
    // more cells get at least as many ranks
    for (int i = 0; i < nd; i++)
      for (int j = 0; j < nd; j++)
        if (cells[i] > cells[j])
          VH_CHECK(b[i] >= b[j], "comm/decomp-order", n << " ranks cells " << vh::str(cells) << " got " << vh::str(b));
    if (n <= tot) {
      auto l = get_lower_dimension_cart_decomp(n, nd, cells);
      bool fits = true; // a fully split mesh
      VH_CHECK(static_cast<int>(l.size()) == nd, "comm/decomp-lower", "size");
      for (int x : l)
        fits = fits && x >= 1;
      VH_CHECK(fits && prod(l) == n, "comm/decomp-lower", n << " ranks cells " << vh::str(cells) << " got " << vh::str(l));
    }
    // 1D decomposition
    const INT nn = c.lrng.range(0, 200);
    const INT np = c.lrng.range(1, 40);
    INT at = 0, mn = nn + 1, mx = -1;
    for (INT r = 0; r < np; r++) {
      INT s, e;
      get_decomp_1d(np, nn, r, &s, &e);
      VH_CHECK(s == at && e >= s, "comm/decomp-1d", np << " parts of " << nn << ": part " << r << " is [" << s << "," << e << "), expected to start at " << at);
      at = e;
      mn = std::min(mn, e - s);
      mx = std::max(mx, e - s);
    }
    VH_CHECK(at == nn && mx - mn <= 1, "comm/decomp-1d", np << " parts of " << nn << " end at " << at << " sizes " << mn << ".." << mx);
    vh::count("decompositions");
  }
}

void sc_comm(Case &c) {
  MPI_Comm comm = random_comm(c);
  int rk, sz;
  MPI_Comm_rank(comm, &rk);
  MPI_Comm_size(comm, &sz);
  const int what = c.rng.range(0, 4);
  switch (what) {
  case 0:
    vectors<REAL>(c, comm, rk, sz);
    vectors<INT>(c, comm, rk, sz);
    vectors<int>(c, comm, rk, sz);
    break;
  case 1:
    sets<int>(c, comm, rk, sz);
    sets<INT>(c, comm, rk, sz);
    break;
  case 2:
    graphs(c, comm, rk, sz);
    break;
  case 3:
    edges_counter(c, comm, rk, sz);
    break;
  default:
    decomps(c);
  }
  c.desc << "communication test " << what << " ranks " << sz;
  c.nontrivial = true;
  MPI_Comm_free(&comm);
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv, {{"hier", sc_hier, 2}, {"mhdata", sc_mhdata, 2}, {"comm", sc_comm, 2}});
}
