// Randomised particle systems with self-describing particles: the payload of
// every particle is a function of its ID, so that any record identifies the
// particle it must be and any copied, lost or torn value is visible.
#ifndef VH_WORLD_HPP_
#define VH_WORLD_HPP_
#include "vh.hpp"
#include <functional>
#include <neso_particles.hpp>

namespace vh {
using namespace NESO::Particles;

struct DatSpec {
  std::string name;
  int ncomp;
  bool is_real;
};

inline double pay_real(std::int64_t id, std::uint64_t dat, int comp) {
  // exactly representable
  return static_cast<double>(static_cast<std::int64_t>(
             hash64(id, dat, comp, 1) >> 12)) *
         0x1p-40;
}
inline std::int64_t pay_int(std::int64_t id, std::uint64_t dat, int comp) {
  return static_cast<std::int64_t>(hash64(id, dat, comp, 2) >> 3);
}
inline std::uint64_t name_hash(const std::string &s) {
  std::uint64_t h = 7;
  for (char c : s)
    h = hash64(h, static_cast<std::uint64_t>(c));
  return h;
}

struct WorldParams {
  int ndim = 2;
  std::vector<int> dims;
  double extent = 1.0;
  int subdivision = 0;
  int stencil = 0;
  std::string str() const {
    std::ostringstream s;
    s << "mesh " << ndim << "d " << vh::str(dims) << " extent " << extent
      << " sub " << subdivision << " stencil " << stencil;
    return s.str();
  }
};

inline WorldParams random_world(Rng &r, int max_cells_dim = 6, int min_ranks = 1) {
  WorldParams w;
  w.ndim = r.range(2, 3);
  for (int d = 0; d < w.ndim; d++)
    w.dims.push_back(r.range(1, w.ndim == 3 ? std::min(3, max_cells_dim) : max_cells_dim));
  // wide enough in one dimension for any number of ranks
  auto &wide = w.dims[r.below(w.ndim)];
  wide = std::max(wide, min_ranks + (min_ranks > 1 ? r.range(0, 2) : 0));
  w.extent = r.pick(std::vector<double>{1.0, 0.5, 2.0, 0.37});
  w.subdivision = r.range(0, w.ndim == 3 ? 1 : 2);
  w.stencil = r.range(0, 2);
  return w;
}

struct World {
  WorldParams wp;
  std::shared_ptr<CartesianHMesh> mesh;
  SYCLTargetSharedPtr target;
  DomainSharedPtr domain;
  std::shared_ptr<LocalMapper> mapper;
  ParticleGroupSharedPtr A;
  std::vector<DatSpec> dats; // payload dats
  ParticleSpec spec;
  MPI_Comm cart = MPI_COMM_NULL; // given to the mesh
  std::vector<int> asked;        // its dimensions
  int asked_periods[3] = {0, 0, 0};

  World(const WorldParams &wp) : wp(wp) {
    auto dims = wp.dims;
    // sometimes the decomposition is that of a given Cartesian communicator
    MPI_Comm parent = vh::world_comm();
    auto h = hash64(wp.stencil, wp.subdivision, wp.ndim, 77);
    for (int d : dims)
      h = hash64(h, d);
    int nranks = 0;
    MPI_Comm_size(parent, &nranks);
    if (h % 4 == 0) {
      std::vector<std::vector<int>> all;
      std::vector<int> cur(wp.ndim, 1);
      std::function<void(int, int)> rec = [&](int d, int left) {
        if (d == wp.ndim) {
          if (left == 1)
            all.push_back(cur);
          return;
        }
        for (int k = 1; k <= left; k++)
          if (left % k == 0 && k <= (dims[d] << wp.subdivision)) {
            cur[d] = k;
            rec(d + 1, left / k);
          }
      };
      rec(0, nranks);
      if (!all.empty()) {
        asked = all[(h >> 8) % all.size()];
        for (int k = 0; k < 3; k++)
          asked_periods[k] = static_cast<int>((h >> (40 + k)) & 1);
        MPI_Cart_create(parent, wp.ndim, asked.data(), asked_periods, 0, &cart);
        parent = cart;
        vh::count("cartesian_parents");
      }
    }
    mesh = std::make_shared<CartesianHMesh>(parent, wp.ndim, dims,
                                            wp.extent, wp.subdivision,
                                            wp.stencil);
    target = std::make_shared<SYCLTarget>(device_kind(), mesh->get_comm());
    mapper = CartesianHMeshLocalMapper(target, mesh);
    domain = std::make_shared<Domain>(mesh, mapper);
    if (!asked.empty()) {
      int d[3], p[3], x[3];
      MPI_Cart_get(mesh->get_comm(), wp.ndim, d, p, x);
      for (int k = 0; k < wp.ndim; k++)
        VH_CHECK(d[k] == asked[k] && p[k] == asked_periods[k], "cart/decomposition", wp.str() << " has " << d[k] << " processes, periodic " << p[k] << " in dimension " << k << ", the communicator " << asked[k] << ", " << asked_periods[k]);
    }
  }
  int ncell() { return mesh->get_cell_count(); }

  static std::vector<DatSpec> random_dats(Rng &r, int maxn = 5) {
    std::vector<DatSpec> d;
    const int n = r.range(1, maxn);
    for (int i = 0; i < n; i++)
      d.push_back({(r.chance(0.5) ? "Q" : "A") + std::to_string(i), r.range(1, 4),
                   r.chance(0.6)});
    return d;
  }

  ParticleSpec make_spec(const std::vector<DatSpec> &d) {
    ParticleSpec s{ParticleProp(Sym<REAL>("P"), wp.ndim, true),
                   ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                   ParticleProp(Sym<INT>("ID"), 1)};
    for (auto &x : d) {
      if (x.is_real)
        s.push(ParticleProp(Sym<REAL>(x.name), x.ncomp));
      else
        s.push(ParticleProp(Sym<INT>(x.name), x.ncomp));
    }
    return s;
  }

  ParticleGroupSharedPtr make_group(const std::vector<DatSpec> &d) {
    auto s = make_spec(d);
    return std::make_shared<ParticleGroup>(domain, s, target);
  }

  void setup(const std::vector<DatSpec> &d) {
    dats = d;
    spec = make_spec(d);
    A = std::make_shared<ParticleGroup>(domain, spec, target);
  }

  // Fills the payload of row px.
  void payload(ParticleSet &ps, int px, std::int64_t id) {
    payload_dats(ps, px, id, dats);
  }
  static void payload_dats(ParticleSet &ps, int px, std::int64_t id,
                           const std::vector<DatSpec> &dats) {
    ps[Sym<INT>("ID")][px][0] = id;
    for (auto &x : dats)
      for (int c = 0; c < x.ncomp; c++) {
        if (x.is_real)
          ps[Sym<REAL>(x.name)][px][c] = pay_real(id, name_hash(x.name), c);
        else
          ps[Sym<INT>(x.name)][px][c] = pay_int(id, name_hash(x.name), c);
      }
  }

  // a random point in the global domain
  std::vector<double> random_point(Rng &r) {
    std::vector<double> p(wp.ndim);
    for (int d = 0; d < wp.ndim; d++)
      p[d] = r.real(0.0, mesh->global_extents[d]);
    return p;
  }

  // Adds npart particles with ids starting at id0 in random local cells;
  // returns the cells.
  std::vector<int> add_local(Rng &r, int npart, std::int64_t id0,
                             bool skew = false) {
    ParticleSet ps(npart, spec);
    std::vector<int> cells(npart);
    const int nc = ncell();
    const int hot = static_cast<int>(r.below(nc));
    for (int px = 0; px < npart; px++) {
      int c = static_cast<int>(r.below(nc));
      if (skew && r.chance(0.7))
        c = hot;
      cells[px] = c;
      auto p = random_point(r);
      for (int d = 0; d < wp.ndim; d++)
        ps[Sym<REAL>("P")][px][d] = p[d];
      ps[Sym<INT>("CELL_ID")][px][0] = c;
      payload(ps, px, id0 + px);
    }
    A->add_particles_local(ps);
    return cells;
  }
  void free() {
    A.reset();
    target->free();
    mesh->free();
    if (cart != MPI_COMM_NULL)
      MPI_Comm_free(&cart);
  }
};

struct Rec {
  int cell, layer;
  std::int64_t id;
};

// Every particle of the group as stored, with a check that every dat holds
// the same rows and that the values of each row belong to one particle.
inline std::vector<Rec> read_group(ParticleGroupSharedPtr A,
                                   const std::vector<DatSpec> &dats,
                                   const std::string &key, bool check_cell_id,
                                   const std::string &where) {
  std::vector<Rec> out;
  const int nc = A->domain->mesh->get_cell_count();
  std::int64_t total = 0;
  for (int c = 0; c < nc; c++) {
    const int n = A->get_npart_cell(c);
    VH_CHECK(n >= 0, key + "/npart-negative", where << " cell " << c << " n " << n);
    total += n;
    auto ids = A->get_cell(Sym<INT>("ID"), c);
    VH_CHECK(ids->nrow == n, key + "/rows",
             where << ": cell " << c << " has count " << n << " but ID holds "
                   << ids->nrow << " rows");
    auto cid = A->get_cell(Sym<INT>("CELL_ID"), c);
    VH_CHECK(cid->nrow == n, key + "/rows",
             where << ": cell " << c << " count " << n << " CELL_ID rows "
                   << cid->nrow);
    const int nn = std::min(n, ids->nrow);
    for (int l = 0; l < nn; l++) {
      out.push_back({c, l, ids->at(l, 0)});
      if (check_cell_id && cid->nrow > l)
        VH_CHECK(cid->at(l, 0) == c, key + "/cell-id",
                 where << ": particle " << ids->at(l, 0) << " stored in cell "
                       << c << " has cell property " << cid->at(l, 0));
    }
    for (auto &x : dats) {
      auto cmp = [&](auto data, auto pay) {
        VH_CHECK(data->nrow == n, key + "/rows",
                 where << ": cell " << c << " count " << n << " " << x.name
                       << " rows " << data->nrow);
        VH_CHECK(data->ncol == x.ncomp, key + "/ncomp", where << x.name);
        for (int l = 0; l < std::min(nn, data->nrow); l++)
          for (int k = 0; k < x.ncomp; k++) {
            const auto v = data->at(l, k);
            const auto e = pay(ids->at(l, 0), name_hash(x.name), k);
            VH_CHECK(v == e, key + "/payload",
                     where << ": particle " << ids->at(l, 0) << " cell " << c
                           << " layer " << l << " " << x.name << "[" << k
                           << "] holds " << v << " expected " << e);
          }
      };
      if (x.is_real)
        cmp(A->get_cell(Sym<REAL>(x.name), c), pay_real);
      else
        cmp(A->get_cell(Sym<INT>(x.name), c), pay_int);
    }
    vh::count("particles_observed", nn);
  }
  VH_CHECK(total == A->get_npart_local(), key + "/npart-local",
           where << ": sum of cell counts " << total << " get_npart_local "
                 << A->get_npart_local());
  return out;
}

// multiset comparison of IDs
inline void compare_ids(std::vector<std::int64_t> got,
                        std::vector<std::int64_t> want, const std::string &key,
                        const std::string &where) {
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  std::vector<std::int64_t> lost, extra;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(),
                      std::back_inserter(lost));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(),
                      std::back_inserter(extra));
  VH_CHECK(lost.empty(), key + "/lost", where << ": lost " << vh::str(lost));
  VH_CHECK(extra.empty(), key + "/extra",
           where << ": unexpected or duplicated " << vh::str(extra));
}

} // namespace vh
#endif
