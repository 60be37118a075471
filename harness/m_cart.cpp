// P18 Cartesian mesh: cells, faces, ownership, mapping of particles to ranks
// and cells, periodic wrapping. P19 trajectory intersection with the boundary
// of the Cartesian domain, reflection and truncation. P20 boundary mesh
// interface and functions on the boundary.
#include "world.hpp"
#include <cmath>
using namespace vh;
using namespace NESO::Particles;

namespace {

WorldParams cart_params(Rng &r, int maxdim2, int maxdim3) {
  WorldParams w;
  const int nr = vh::size();
  w.ndim = r.range(2, 3);
  w.subdivision = r.range(0, w.ndim == 3 ? 1 : 3);
  for (int d = 0; d < w.ndim; d++)
    w.dims.push_back(r.range(1, w.ndim == 3 ? maxdim3 : maxdim2));
  auto &wide = w.dims[r.below(w.ndim)];
  wide = std::max(wide, (nr + (1 << w.subdivision) - 1) / (1 << w.subdivision));
  if (nr > 1 && r.chance(0.5))
    wide = std::max(wide, nr + r.range(0, 2));
  w.extent = r.pick(std::vector<double>{1.0, 0.5, 2.0, 0.37, 0.1, 1.0 / 3.0, 7.3, 1e-3, 250.0});
  w.stencil = r.range(0, 3);
  return w;
}

struct Box {
  int ndim;
  int n[3] = {1, 1, 1};      // global fine cells
  double E[3] = {0, 0, 0};   // extents
  double w;                  // fine width
  std::vector<int> owner;    // by lexicographic global cell
  INT lin(int x, int y, int z) const { return x + static_cast<INT>(n[0]) * (y + static_cast<INT>(n[1]) * z); }
};

// Ownership as the ranks claim it.
Box make_box(World &W, const std::string &key) {
  Box b;
  b.ndim = W.wp.ndim;
  b.w = W.wp.extent / (1 << W.wp.subdivision);
  for (int d = 0; d < b.ndim; d++) {
    b.n[d] = W.wp.dims[d] * (1 << W.wp.subdivision);
    b.E[d] = W.wp.dims[d] * W.wp.extent;
    VH_CHECK(W.mesh->cell_counts[d] == b.n[d], key + "/counts", W.wp.str() << " dim " << d << " has " << W.mesh->cell_counts[d] << " cells");
    VH_CHECK(std::abs(W.mesh->global_extents[d] - b.E[d]) <= 1e-12 * b.E[d], key + "/extents", W.wp.str() << " dim " << d << " extent " << W.mesh->global_extents[d]);
  }
  std::vector<std::int64_t> mine;
  for (auto &t : W.mesh->get_owned_cells()) {
    bool ok = true;
    for (int d = 0; d < 3; d++)
      ok = ok && t[d] >= 0 && t[d] < b.n[d];
    VH_CHECK(ok, key + "/owned-range", W.wp.str() << " owned cell " << t[0] << "," << t[1] << "," << t[2]);
    mine.push_back(ok ? b.lin(t[0], t[1], t[2]) : 0);
  }
  // rank in the communicator of the mesh
  int rk;
  MPI_Comm_rank(W.mesh->get_comm(), &rk);
  mine.push_back(rk);
  auto all = vh::allgather(mine);
  b.owner.assign(b.lin(0, 0, b.n[2]), -1);
  std::int64_t total = 0;
  for (auto &v : all) {
    const int r = static_cast<int>(v.back());
    for (std::size_t i = 0; i + 1 < v.size(); i++) {
      VH_CHECK(b.owner[v[i]] == -1, key + "/owned-twice", W.wp.str() << " cell " << v[i] << " owned by ranks " << b.owner[v[i]] << " and " << r);
      b.owner[v[i]] = r;
      total++;
    }
  }
  VH_CHECK(total == static_cast<std::int64_t>(b.owner.size()), key + "/unowned", W.wp.str() << " ranks own " << total << " of " << b.owner.size() << " cells");
  return b;
}

int nfaces(const Box &b) { return b.ndim == 2 ? 4 : 6; }
// axes spanned by a face, its normal axis and which side
void face_axes(int f, int &a0, int &a1, int &an, bool &top) {
  static const int A0[6] = {0, 1, 0, 1, 0, 0}, A1[6] = {2, 2, 2, 2, 1, 1}, AN[6] = {1, 0, 1, 0, 2, 2};
  static const bool T[6] = {false, true, true, false, false, true};
  a0 = A0[f];
  a1 = A1[f];
  an = AN[f];
  top = T[f];
}
INT face_offset(const Box &b, int f) {
  INT o = 0;
  for (int g = 0; g < f; g++) {
    int a0, a1, an;
    bool t;
    face_axes(g, a0, a1, an, t);
    o += static_cast<INT>(b.n[a0]) * b.n[a1];
  }
  return o;
}

// ---------------------------------------------------------------- P18
void mesh_index(Case &c, World &W, Box &b) {
  const std::string s = W.wp.str();
  auto &m = *W.mesh;
  int rk;
  MPI_Comm_rank(m.get_comm(), &rk);
  auto owned = m.get_owned_cells();
  VH_CHECK(m.get_cell_count() == static_cast<int>(owned.size()), "cart/cell-count", s << " owns " << owned.size() << " cells, count " << m.get_cell_count());
  VH_CHECK(!owned.empty(), "cart/cell-count", s << " rank owns no cell");
  int lo[3] = {1 << 30, 1 << 30, 1 << 30}, hi[3] = {-1, -1, -1};
  for (auto &t : owned)
    for (int d = 0; d < 3; d++) {
      lo[d] = std::min(lo[d], t[d]);
      hi[d] = std::max(hi[d], t[d]);
    }
  INT vol = 1;
  for (int d = 0; d < 3; d++)
    vol *= hi[d] - lo[d] + 1;
  VH_CHECK(vol == static_cast<INT>(owned.size()), "cart/owned-box", s << " owned cells are not a box");
  for (std::size_t i = 0; i < owned.size(); i++) {
    auto t = m.get_global_cell_tuple_index(static_cast<INT>(i));
    VH_CHECK(t == owned[i], "cart/local-index", s << " local cell " << i << " is tuple " << t[0] << "," << t[1] << "," << t[2] << " but owned cell list has " << owned[i][0] << "," << owned[i][1] << "," << owned[i][2]);
    vh::count("cells_observed");
    auto pts = m.get_vtk_cell_points(static_cast<INT>(i));
    static const int off[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    const int np = b.ndim == 2 ? 4 : 8;
    if (VH_CHECK(static_cast<int>(pts.size()) == 3 * np, "cart/vtk", s << " cell has " << pts.size() << " coordinates"))
      for (int p = 0; p < np; p++)
        for (int d = 0; d < 3; d++) {
          const double want = d < b.ndim ? (t[d] + off[p][d]) * b.w : 0.0;
          VH_CHECK(std::abs(pts[3 * p + d] - want) <= 1e-12 * (std::abs(want) + b.w), "cart/vtk", s << " cell " << i << " corner " << p << " coordinate " << d << " is " << pts[3 * p + d] << " expected " << want);
        }
  }
  // ownership queries
  std::vector<INT> cells;
  for (INT l = 0; l < static_cast<INT>(b.owner.size()); l++)
    cells.push_back(l);
  c.lrng.shuffle(cells);
  if (cells.size() > 400)
    cells.resize(400);
  auto mh = m.get_mesh_hierarchy();
  for (INT l : cells) {
    INT t[3] = {l % b.n[0], (l / b.n[0]) % b.n[1], l / (static_cast<INT>(b.n[0]) * b.n[1])};
    const int r = m.get_mesh_tuple_owning_rank(t);
    VH_CHECK(r == b.owner[l], "cart/owner", s << " cell " << t[0] << "," << t[1] << "," << t[2] << " reported on rank " << r << " owned by " << b.owner[l]);
    INT mt[6] = {0, 0, 0, 0, 0, 0};
    m.mesh_tuple_to_mh_tuple(t, mt);
    const INT nf = 1 << W.wp.subdivision;
    for (int d = 0; d < b.ndim; d++)
      VH_CHECK(mt[d] == t[d] / nf && mt[d + b.ndim] == t[d] % nf, "cart/mh-tuple", s << " cell index " << t[d] << " maps to " << mt[d] << "/" << mt[d + b.ndim]);
    const int ho = mh->get_owner(mh->tuple_to_linear_global(mt));
    VH_CHECK(ho == b.owner[l], "cart/mh-owner", s << " mesh hierarchy names rank " << ho << " for a cell of rank " << b.owner[l]);
    vh::count("owners_observed");
  }
  // neighbours: owners of the cells at most stencil_width away
  std::set<int> want;
  const int sw = W.wp.stencil;
  for (int z = lo[2] - (b.ndim > 2 ? sw : 0); z <= hi[2] + (b.ndim > 2 ? sw : 0); z++)
    for (int y = lo[1] - sw; y <= hi[1] + sw; y++)
      for (int x = lo[0] - sw; x <= hi[0] + sw; x++) {
        auto md = [](int v, int n) { return ((v % n) + n) % n; };
        want.insert(b.owner[b.lin(md(x, b.n[0]), md(y, b.n[1]), md(z, b.n[2]))]);
      }
  auto &nb = m.get_local_communication_neighbours();
  std::set<int> got(nb.begin(), nb.end());
  want.erase(rk);
  got.erase(rk);
  VH_CHECK(got == want, "cart/neighbours", s << " neighbours " << vh::str(std::vector<int>(got.begin(), got.end())) << " expected " << vh::str(std::vector<int>(want.begin(), want.end())));
  double p[3] = {0, 0, 0};
  m.get_point_in_subdomain(p);
  for (int d = 0; d < b.ndim; d++)
    VH_CHECK(p[d] > lo[d] * b.w && p[d] < (hi[d] + 1) * b.w, "cart/point", s << " point " << p[d] << " outside of the rank's box in dimension " << d);
}

void face_index(Case &c, World &W, Box &b) {
  const std::string s = W.wp.str();
  auto &m = *W.mesh;
  int rk;
  MPI_Comm_rank(m.get_comm(), &rk);
  INT id = 0;
  std::set<INT> mine;
  std::set<int> owning_ranks;
  for (int f = 0; f < nfaces(b); f++) {
    int a0, a1, an;
    bool top;
    face_axes(f, a0, a1, an, top);
    std::set<INT> mine_f;
    for (int l1 = 0; l1 < b.n[a1]; l1++)
      for (int l0 = 0; l0 < b.n[a0]; l0++, id++) {
        INT t[3] = {f, l0, l1};
        const INT lin = m.get_face_linear_index_from_tuple(t);
        VH_CHECK(lin == id, "cart/face-linear", s << " face " << f << " " << l0 << "," << l1 << " has index " << lin << " expected " << id);
        INT u[3] = {-1, -1, -1};
        m.get_face_id_as_tuple(id, u);
        VH_CHECK(u[0] == f && u[1] == l0 && u[2] == l1, "cart/face-tuple", s << " face id " << id << " is tuple " << u[0] << "," << u[1] << "," << u[2] << " expected " << f << "," << l0 << "," << l1);
        INT ct[3] = {0, 0, 0};
        m.get_mesh_tuple_owning_face_tuple(t, ct);
        INT wt[3] = {0, 0, 0};
        wt[a0] = l0;
        if (b.ndim == 3)
          wt[a1] = l1;
        wt[an] = top ? b.n[an] - 1 : 0;
        VH_CHECK(ct[0] == wt[0] && ct[1] == wt[1] && ct[2] == wt[2], "cart/face-cell", s << " face id " << id << " is in cell " << ct[0] << "," << ct[1] << "," << ct[2] << " expected " << wt[0] << "," << wt[1] << "," << wt[2]);
        const int ow = b.owner[b.lin(wt[0], wt[1], wt[2])];
        const int r = m.get_face_id_owning_rank(id);
        VH_CHECK(r == ow, "cart/face-owner", s << " face id " << id << " on rank " << r << " expected " << ow);
        owning_ranks.insert(ow);
        if (ow == rk) {
          mine.insert(id);
          mine_f.insert(id);
        }
        vh::count("faces_observed");
        if (c.lrng.chance(0.2)) {
          auto pts = m.get_vtk_face_cell_points(id);
          const int np = b.ndim == 2 ? 2 : 4;
          if (VH_CHECK(static_cast<int>(pts.size()) == 3 * np, "cart/face-vtk", s << " face has " << pts.size() << " coordinates")) {
            std::set<std::vector<int>> gotc, wantc;
            for (int i = 0; i < np; i++) {
              std::vector<int> q(3);
              for (int d = 0; d < 3; d++) {
                q[d] = static_cast<int>(std::lround(pts[3 * i + d] / b.w));
                VH_CHECK(std::abs(pts[3 * i + d] - q[d] * b.w) <= 1e-9 * b.w, "cart/face-vtk", s << " face corner off the grid");
              }
              gotc.insert(q);
              // consecutive corners share an edge
              if (np == 4) {
                int diff = 0;
                for (int d = 0; d < 3; d++)
                  diff += std::abs(pts[3 * i + d] - pts[3 * ((i + 1) % np) + d]) > 0.5 * b.w;
                VH_CHECK(diff == 1, "cart/face-vtk", s << " corners of face " << id << " are not in polygon order");
              }
            }
            for (int i = 0; i < 2; i++)
              for (int j = 0; j < (b.ndim == 3 ? 2 : 1); j++) {
                std::vector<int> q(3, 0);
                q[a0] = l0 + i;
                if (b.ndim == 3)
                  q[a1] = l1 + j;
                q[an] = top ? b.n[an] : 0;
                wantc.insert(q);
              }
            VH_CHECK(gotc == wantc, "cart/face-vtk", s << " face " << id << " has the wrong corners");
          }
        }
      }
    auto &on = m.get_all_face_cells_on_face(f);
    std::set<INT> on_s(on.begin(), on.end());
    VH_CHECK(on_s == mine_f && on.size() == on_s.size(), "cart/face-list", s << " face " << f << " lists " << on.size() << " owned face cells, expected " << mine_f.size());
    std::vector<INT> one{f};
    auto fc = m.get_face_cells(one);
    VH_CHECK((std::vector<INT>(on.begin(), on.end()) == fc), "cart/face-list", s << " get_face_cells differs");
  }
  auto &of = m.get_owned_face_cells();
  std::set<INT> of_s(of.begin(), of.end());
  VH_CHECK(of_s == mine && of.size() == of_s.size(), "cart/face-owned", s << " lists " << of.size() << " owned face cells, expected " << mine.size());
  MPI_Comm fcm = m.get_face_owning_ranks_comm();
  VH_CHECK((fcm == MPI_COMM_NULL) == mine.empty(), "cart/face-comm", s << " owns " << mine.size() << " face cells, communicator null " << (fcm == MPI_COMM_NULL));
  if (fcm != MPI_COMM_NULL) {
    int n;
    MPI_Comm_size(fcm, &n);
    VH_CHECK(n == static_cast<int>(owning_ranks.size()), "cart/face-comm", s << " face communicator has " << n << " ranks, expected " << owning_ranks.size());
  }
}

// cells one coordinate may be in
void cell_range(double x, double w, int n, int &lo, int &hi) {
  const double q = x / w, e = 1e-9 + 1e-13 * std::abs(q);
  const double l = std::floor(q - e), h = std::floor(q + e);
  lo = static_cast<int>(std::max(0.0, std::min<double>(n - 1, l)));
  hi = static_cast<int>(std::max(0.0, std::min<double>(n - 1, h)));
}

double coord(Rng &r, double E, double w, int n) {
  const int k = r.range(0, 9);
  if (k < 6)
    return r.real(0.0, E);
  if (k == 6)
    return r.range(0, n) * w; // a cell boundary
  if (k == 7)
    return std::nextafter(E, 0.0);
  if (k == 8)
    return 0.0;
  return std::min(E, std::max(0.0, r.range(0, n) * w + (r.chance(0.5) ? 1e-7 : -1e-7) * w));
}

void mapping(Case &c, World &W, Box &b) {
  const std::string s = W.wp.str();
  int rk;
  MPI_Comm_rank(W.mesh->get_comm(), &rk);
  auto dats = World::random_dats(c.rng, 2);
  W.setup(dats);
  W.A->add_particle_dat(ParticleDat(W.target, ParticleProp(Sym<INT>("RK"), 2), W.ncell()));
  const int n = c.lrng.range(0, 60);
  const std::int64_t id0 = 100000ll * (rk + 1);
  ParticleSet ps(n, W.spec);
  std::vector<std::vector<double>> pos(n);
  std::vector<int> cell(n);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < b.ndim; d++) {
      pos[i].push_back(coord(c.lrng, b.E[d], b.w, b.n[d]));
      ps[Sym<REAL>("P")][i][d] = pos[i][d];
    }
    cell[i] = static_cast<int>(c.lrng.below(W.ncell()));
    ps[Sym<INT>("CELL_ID")][i][0] = cell[i];
    W.payload(ps, i, id0 + i);
  }
  W.A->add_particles_local(ps);
  // owning rank already known (>= 0) or to be found (< 0)
  auto preset = [](std::int64_t id) -> INT { return hash64(id, 5) % 3 == 0 ? static_cast<INT>(hash64(id, 6) % 4) : -1; };
  const bool presets = c.rng.chance(0.5);
  {
    std::vector<INT> v(n + 1);
    for (int i = 0; i < n; i++)
      v[i] = presets ? preset(id0 + i) : -1;
    auto la = std::make_shared<LocalArray<INT>>(W.target, v);
    const INT k0 = id0;
    particle_loop(
        "set", W.A,
        [=](auto ID, auto R, auto LA) {
          R.at(0) = 7 + ID.at(0);
          R.at(1) = LA.at(ID.at(0) - k0);
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(la))
        ->execute();
  }
  const int mc = c.rng.chance(0.3) ? static_cast<int>(c.lrng.below(W.ncell())) : -1;
  W.mapper->map(*W.A, mc);
  int lo3[3] = {1 << 30, 1 << 30, 1 << 30}, hi3[3] = {-1, -1, -1};
  for (auto &t : W.mesh->get_owned_cells())
    for (int d = 0; d < 3; d++) {
      lo3[d] = std::min(lo3[d], t[d]);
      hi3[d] = std::max(hi3[d], t[d]);
    }
  auto near1 = [&](int d, int x) {
    for (int k = lo3[d] - W.wp.stencil; k <= hi3[d] + W.wp.stencil; k++)
      if (((k % b.n[d]) + b.n[d]) % b.n[d] == x)
        return true;
    return false;
  };
  for (int cx = 0; cx < W.ncell(); cx++) {
    auto R = W.A->get_cell(Sym<INT>("NESO_MPI_RANK"), cx);
    auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
    for (int l = 0; l < R->nrow; l++) {
      const INT id = ID->at(l, 0);
      auto &p = pos.at(id - id0);
      VH_CHECK(R->at(l, 0) == 7 + id, "cart/map-global-rank", s << " mapping changed the global rank component");
      const INT pre = presets ? preset(id) : -1;
      if (pre >= 0 || (mc >= 0 && cx != mc)) {
        VH_CHECK(R->at(l, 1) == pre, "cart/map-known", s << " particle with rank " << pre << " in cell " << cx << " remapped to " << R->at(l, 1) << " (cell to map " << mc << ")");
        continue;
      }
      std::set<INT> want;
      int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
      for (int d = 0; d < b.ndim; d++)
        cell_range(p[d], b.w, b.n[d], lo[d], hi[d]);
      for (int z = lo[2]; z <= hi[2]; z++)
        for (int y = lo[1]; y <= hi[1]; y++)
          for (int x = lo[0]; x <= hi[0]; x++) {
            const bool nr = near1(0, x) && near1(1, y) && (b.ndim < 3 || near1(2, z));
            want.insert(nr ? b.owner[b.lin(x, y, z)] : -1);
          }
      VH_CHECK(want.count(R->at(l, 1)), "cart/map-rank", s << " particle at " << vh::str(p) << " mapped to rank " << R->at(l, 1) << " expected " << *want.begin());
      vh::count("mapped_particles");
      vh::distinct("map_result", R->at(l, 1) < 0 ? "not-near" : (R->at(l, 1) == rk ? "own" : "neighbour"));
    }
  }
  // cells
  W.mapper->map_cells(*W.A);
  for (int cx = 0; cx < W.ncell(); cx++) {
    auto C = W.A->get_cell(Sym<INT>("CELL_ID"), cx);
    auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
    for (int l = 0; l < C->nrow; l++) {
      auto &p = pos.at(ID->at(l, 0) - id0);
      const INT g = C->at(l, 0);
      if (!VH_CHECK(g >= 0 && g < W.ncell(), "cart/bin-range", s << " cell " << g << " of " << W.ncell()))
        continue;
      auto t = W.mesh->get_global_cell_tuple_index(g);
      for (int d = 0; d < b.ndim; d++) {
        int lo, hi;
        cell_range(p[d], b.w, b.n[d], lo, hi);
        lo = std::max(lo3[d], std::min(hi3[d], lo));
        hi = std::max(lo3[d], std::min(hi3[d], hi));
        VH_CHECK(t[d] >= lo && t[d] <= hi, "cart/bin", s << " particle at " << vh::str(p) << " binned in cell index " << t[d] << " of dimension " << d << " expected " << lo);
      }
      vh::count("binned_particles");
    }
  }
  read_group(W.A, dats, "cart/map", false, s);
}

void periodic(Case &c, World &W, Box &b) {
  const std::string s = W.wp.str();
  auto dats = World::random_dats(c.rng, 2);
  int rk;
  MPI_Comm_rank(W.mesh->get_comm(), &rk);
  W.setup(dats);
  const int n = c.lrng.range(0, 80);
  const std::int64_t id0 = 100000ll * (rk + 1);
  ParticleSet ps(n, W.spec);
  std::vector<std::vector<double>> pos(n);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < b.ndim; d++) {
      double x;
      switch (c.lrng.range(0, 7)) {
      case 0: x = c.lrng.real(0.0, b.E[d]); break;
      case 1: x = c.lrng.real(-1.0, 2.0) * b.E[d]; break;
      case 2: x = c.lrng.real(-1000.0, 1000.0) * b.E[d]; break;
      case 3: x = c.lrng.range(-5, 5) * b.E[d]; break;
      case 4: x = c.lrng.real(-1.0, 1.0) * 1e-15 * b.E[d]; break;
      case 5: x = c.lrng.range(-3, 3) * b.E[d] + (c.lrng.chance(0.5) ? 1e-14 : -1e-14) * b.E[d]; break;
      case 6: x = std::nextafter(b.E[d], c.lrng.chance(0.5) ? 0.0 : 1e300); break;
      default: x = c.lrng.real(-1.0, 1.0) * 1e6 * b.E[d];
      }
      pos[i].push_back(x);
      ps[Sym<REAL>("P")][i][d] = x;
    }
    ps[Sym<INT>("CELL_ID")][i][0] = c.lrng.below(W.ncell());
    W.payload(ps, i, id0 + i);
  }
  W.A->add_particles_local(ps);
  std::vector<int> masks;
  std::shared_ptr<CartesianPeriodic> pbc;
  const bool masked = c.rng.chance(0.5);
  for (int d = 0; d < b.ndim; d++)
    masks.push_back(masked ? c.rng.pick(std::vector<int>{0, 1, 1, -2}) : 1);
  switch (c.rng.range(0, 1) + (masked ? 2 : 0)) {
  case 0: pbc = std::make_shared<CartesianPeriodic>(W.mesh, W.A); break;
  case 1: pbc = std::make_shared<CartesianPeriodic>(W.target, W.mesh, W.A->position_dat); break;
  case 2: pbc = std::make_shared<CartesianPeriodic>(W.mesh, W.A, masks); break;
  default: pbc = std::make_shared<CartesianPeriodic>(W.target, W.mesh, W.A->position_dat, masks);
  }
  const int rep = c.rng.range(1, 2);
  for (int k = 0; k < rep; k++)
    pbc->execute();
  for (int cx = 0; cx < W.ncell(); cx++) {
    auto P = W.A->get_cell(Sym<REAL>("P"), cx);
    auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
    for (int l = 0; l < P->nrow; l++)
      for (int d = 0; d < b.ndim; d++) {
        const double x = pos.at(ID->at(l, 0) - id0)[d], g = P->at(l, d), E = W.mesh->global_extents[d];
        if (!masks[d]) {
          VH_CHECK(g == x, "cart/periodic-mask", s << " position " << x << " in the non periodic dimension " << d << " became " << g);
          continue;
        }
        VH_CHECK(g >= 0.0 && g <= E, "cart/periodic-range", s << " position " << x << " wrapped to " << g << " outside of [0," << E << ")");
        const double r = std::abs(std::remainder(g - x, E));
        VH_CHECK(r <= 4e-15 * (std::abs(x) + 3 * E), "cart/periodic-shift", s << " position " << x << " wrapped to " << g << " which differs by " << r << " from a multiple of the extent " << E);
        vh::count("wrapped_coordinates");
      }
  }
  read_group(W.A, dats, "cart/periodic", false, s);
}

void sc_cart(Case &c) {
  auto wp = cart_params(c.rng, 6, 3);
  World W(wp);
  Box b = make_box(W, "cart");
  const int what = c.rng.range(0, 3);
  c.desc << wp.str() << " test " << what;
  if (what == 0)
    mesh_index(c, W, b);
  else if (what == 1)
    face_index(c, W, b);
  else if (what == 2)
    mapping(c, W, b);
  else
    periodic(c, W, b);
  c.nontrivial = true;
  W.free();
}

// ---------------------------------------------------------------- P19
struct Hit {
  bool departs = false;
  std::vector<int> faces;    // faces a correct answer may name
  double t = 2.0;
  double pt[3] = {0, 0, 0};
};

Hit expect_hit(const Box &b, const double *s, const double *e) {
  Hit h;
  double ts[3] = {9, 9, 9};
  for (int d = 0; d < b.ndim; d++) {
    if (e[d] <= 0.0)
      ts[d] = s[d] / (s[d] - e[d]);
    else if (e[d] >= b.E[d])
      ts[d] = (b.E[d] - s[d]) / (e[d] - s[d]);
    h.t = std::min(h.t, ts[d]);
  }
  h.departs = h.t < 2.0;
  if (!h.departs)
    return h;
  for (int f = 0; f < nfaces(b); f++) {
    int a0, a1, an;
    bool top;
    face_axes(f, a0, a1, an, top);
    if (ts[an] < 2.0 && ts[an] <= h.t + 1e-9 && (top ? e[an] >= b.E[an] : e[an] <= 0.0))
      h.faces.push_back(f);
  }
  for (int d = 0; d < b.ndim; d++)
    h.pt[d] = s[d] + h.t * (e[d] - s[d]);
  return h;
}

struct Groups {
  std::map<int, std::vector<int>> g;
  int of_face[6] = {-1, -1, -1, -1, -1, -1};
  bool in[6] = {};
};
Groups random_groups(Rng &r, int nf, bool all) {
  Groups G;
  const int ng = r.range(1, 3);
  std::vector<int> labels;
  while (static_cast<int>(labels.size()) < ng) {
    int l = r.chance(0.7) ? r.range(0, 9) : r.range(-2000000000, 2000000000);
    if (std::find(labels.begin(), labels.end(), l) == labels.end())
      labels.push_back(l);
  }
  for (int f = 0; f < nf; f++) {
    if (!all && r.chance(0.25))
      continue;
    const int l = r.pick(labels);
    G.g[l].push_back(f);
    G.of_face[f] = l;
    G.in[f] = true;
  }
  for (auto &x : G.g)
    r.shuffle(x.second);
  return G;
}

void set_dat_from(ParticleGroupSharedPtr A, Sym<REAL> dst, Sym<REAL> src, int nc) {
  particle_loop(
      "copy", A,
      [=](auto D, auto S) {
        for (int k = 0; k < nc; k++)
          D.at(k) = S.at(k);
      },
      Access::write(dst), Access::read(src))
      ->execute();
}

// geometric margin so that only unambiguous starts are generated
void start_end(Rng &r, const Box &b, double *s, double *e) {
  for (int d = 0; d < b.ndim; d++)
    s[d] = r.chance(0.1) ? (r.chance(0.5) ? 1e-6 : 1.0 - 1e-6) * b.E[d] : r.real(0.001, 0.999) * b.E[d];
  const double len = r.pick(std::vector<double>{0.01, 0.3, 1.0, 3.0, 20.0});
  for (int d = 0; d < b.ndim; d++)
    e[d] = s[d] + r.real(-1.0, 1.0) * len * b.E[d];
  const int k = r.range(0, 15);
  const int d = static_cast<int>(r.below(b.ndim));
  if (k == 0)
    e[d] = 0.0;
  else if (k == 1)
    e[d] = b.E[d];
  else if (k == 2) // parallel to an axis
    for (int q = 0; q < b.ndim; q++)
      e[q] = q == d ? e[q] : s[q];
  else if (k == 3) // through a corner or an edge
    for (int q = 0; q < b.ndim; q++)
      e[q] = s[q] + 2.0 * ((r.chance(0.5) ? b.E[q] : 0.0) - s[q]);
}

void hits(Case &c, World &W, Box &b) {
  const std::string str = W.wp.str();
  const int nd = b.ndim;
  int rk;
  MPI_Comm_rank(W.mesh->get_comm(), &rk);
  auto G = random_groups(c.rng, nfaces(b), c.rng.chance(0.5));
  auto dats = World::random_dats(c.rng, 2);
  W.dats = dats;
  W.spec = W.make_spec(dats);
  W.spec.push(ParticleProp(Sym<REAL>("S0"), nd));
  W.spec.push(ParticleProp(Sym<REAL>("E0"), nd));
  W.spec.push(ParticleProp(Sym<REAL>("V"), nd));
  W.spec.push(ParticleProp(Sym<REAL>("TSP"), 2));
  W.spec.push(ParticleProp(Sym<REAL>("IP"), nd));
  W.spec.push(ParticleProp(Sym<REAL>("IN"), nd));
  W.spec.push(ParticleProp(Sym<INT>("IM"), 4)); // times seen, label, metadata
  W.A = std::make_shared<ParticleGroup>(W.domain, W.spec, W.target);
  const int n = c.lrng.range(0, 100);
  const std::int64_t id0 = 100000ll * (rk + 1);
  struct Part {
    double s[3], e[3], v[3];
  };
  std::vector<Part> part(n);
  const double dt0 = 0.25, dt1 = 0.75;
  {
    ParticleSet ps(n, W.spec);
    for (int i = 0; i < n; i++) {
      start_end(c.lrng, b, part[i].s, part[i].e);
      for (int d = 0; d < nd; d++) {
        part[i].v[d] = c.lrng.real(-2.0, 2.0);
        ps[Sym<REAL>("P")][i][d] = part[i].s[d];
        ps[Sym<REAL>("S0")][i][d] = part[i].s[d];
        ps[Sym<REAL>("E0")][i][d] = part[i].e[d];
        ps[Sym<REAL>("V")][i][d] = part[i].v[d];
        ps[Sym<REAL>("IP")][i][d] = -77.0;
        ps[Sym<REAL>("IN")][i][d] = -77.0;
      }
      ps[Sym<REAL>("TSP")][i][0] = dt0 + dt1;
      ps[Sym<REAL>("TSP")][i][1] = dt1;
      for (int k = 0; k < 4; k++)
        ps[Sym<INT>("IM")][i][k] = 0;
      ps[Sym<INT>("CELL_ID")][i][0] = c.lrng.below(W.ncell());
      W.payload(ps, i, id0 + i);
    }
    W.A->add_particles_local(ps);
  }
  auto cti = std::make_shared<CartesianTrajectoryIntersection>(W.target, W.mesh, G.g);
  cti->prepare_particle_group(W.A);
  // a sub group selects the particles that are looked at
  const int mode = c.rng.range(0, 2);
  const INT mod = mode == 0 ? 1 : c.rng.range(2, 3);
  auto inset = [&](std::int64_t id) { return id % mod == 0; };
  ParticleSubGroupSharedPtr sub;
  if (mode == 1)
    sub = particle_sub_group(W.A, [=](auto ID) { return ID.at(0) % mod == 0; }, Access::read(Sym<INT>("ID")));
  else if (mode == 2)
    sub = static_particle_sub_group(W.A, [=](auto ID) { return ID.at(0) % mod == 0; }, Access::read(Sym<INT>("ID")));
  const int rounds = c.rng.range(1, 3);
  std::map<int, ParticleSubGroupSharedPtr> res;
  for (int round = 0; round < rounds; round++) {
    const std::string s = str + " round " + std::to_string(round) + " groups " + std::to_string(G.g.size()) + " mode " + std::to_string(mode);
    if (round) {
      res.clear();
      set_dat_from(W.A, Sym<REAL>("P"), Sym<REAL>("S0"), nd);
    }
    if (mode == 0)
      cti->pre_integration(W.A);
    else
      cti->pre_integration(sub);
    set_dat_from(W.A, Sym<REAL>("P"), Sym<REAL>("E0"), nd);
    res = mode == 0 ? cti->post_integration(W.A) : cti->post_integration(sub);
    std::vector<int> k1, k2;
    for (auto &x : res)
      k1.push_back(x.first);
    for (auto &x : G.g)
      k2.push_back(x.first);
    VH_CHECK(k1 == k2, "traj/groups", s << " returned groups " << vh::str(k1) << " expected " << vh::str(k2));
  }
  std::map<int, int> cnt;
  for (auto &x : res) {
    const INT label = x.first;
    cnt[label] = x.second->get_npart_local();
    particle_loop(
        "read", x.second,
        [=](auto IP, auto IN, auto IM, auto BP, auto BN, auto BM) {
          IM.at(0) += 1;
          IM.at(1) = label;
          IM.at(2) = BM.at_ephemeral(0);
          IM.at(3) = BM.at_ephemeral(1);
          for (int d = 0; d < nd; d++) {
            IP.at(d) = BP.at_ephemeral(d);
            IN.at(d) = BN.at_ephemeral(d);
          }
        },
        Access::write(Sym<REAL>("IP")), Access::write(Sym<REAL>("IN")), Access::write(Sym<INT>("IM")),
        Access::read(BoundaryInteractionSpecification::intersection_point),
        Access::read(BoundaryInteractionSpecification::intersection_normal),
        Access::read(BoundaryInteractionSpecification::intersection_metadata))
        ->execute();
  }
  // treat some of the groups
  const double rd = c.rng.pick(std::vector<double>{1e-10, 1e-6, 1e-3}) * (c.rng.chance(0.5) ? 1.0 : b.E[0]);
  BoundaryReflection refl(nd, rd);
  BoundaryTruncation trunc(nd, rd);
  std::map<int, int> treated; // label -> 1 reflect 2 truncate
  for (auto &x : res) {
    const int t = c.rng.range(0, 2);
    treated[x.first] = t;
    if (t == 1)
      refl.execute(x.second, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"), cti->previous_position_sym);
    else if (t == 2)
      trunc.execute(x.second, Sym<REAL>("P"), Sym<REAL>("TSP"), cti->previous_position_sym);
  }
  std::map<int, int> seen;
  for (int cx = 0; cx < W.ncell(); cx++) {
    auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
    auto P = W.A->get_cell(Sym<REAL>("P"), cx);
    auto V = W.A->get_cell(Sym<REAL>("V"), cx);
    auto T = W.A->get_cell(Sym<REAL>("TSP"), cx);
    auto IP = W.A->get_cell(Sym<REAL>("IP"), cx);
    auto IN = W.A->get_cell(Sym<REAL>("IN"), cx);
    auto IM = W.A->get_cell(Sym<INT>("IM"), cx);
    for (int l = 0; l < ID->nrow; l++) {
      const std::int64_t id = ID->at(l, 0);
      auto &p = part.at(id - id0);
      Hit h;
      if (inset(id))
        h = expect_hit(b, p.s, p.e);
      std::ostringstream who;
      who << str << " particle from " << p.s[0] << "," << p.s[1] << "," << (nd > 2 ? p.s[2] : 0) << " to " << p.e[0] << "," << p.e[1] << "," << (nd > 2 ? p.e[2] : 0);
      const bool got = IM->at(l, 0) > 0;
      VH_CHECK(IM->at(l, 0) <= 1, "traj/twice", who.str() << " is in " << IM->at(l, 0) << " groups");
      bool may_in = false, may_out = !h.departs;
      for (int f : h.faces)
        (G.in[f] ? may_in : may_out) = true;
      VH_CHECK(got ? may_in : may_out, got ? "traj/extra" : "traj/missed", who.str() << (got ? " reported in a boundary group but does not cross it" : " crosses a boundary group but is not reported"));
      vh::count("trajectories");
      bool changed = false;
      double wantP[3], wantV[3];
      for (int d = 0; d < nd; d++) {
        wantP[d] = p.e[d];
        wantV[d] = p.v[d];
      }
      double wt0 = dt0 + dt1, wt1 = dt1, tolP = 0, tolT = 0, tolV = 0;
      if (got) {
        const int label = static_cast<int>(IM->at(l, 1));
        seen[label]++;
        int face = -1;
        for (int f : h.faces) {
          int a0, a1, an;
          bool top;
          face_axes(f, a0, a1, an, top);
          if (G.in[f] && G.of_face[f] == label && IN->at(l, an) == (top ? -1.0 : 1.0))
            face = f;
        }
        if (VH_CHECK(face >= 0, "traj/face", who.str() << " reported in group " << label << " with normal " << IN->at(l, 0) << "," << IN->at(l, 1) << " which is not the face it leaves through")) {
          vh::distinct("faces_hit", std::to_string(nd) + "d" + std::to_string(face));
          vh::count("intersections");
          if (h.faces.size() > 1)
            vh::count("edge_hits");
          int a0, a1, an;
          bool top;
          face_axes(face, a0, a1, an, top);
          for (int d = 0; d < nd; d++) {
            VH_CHECK(d == an || IN->at(l, d) == 0.0, "traj/normal", who.str() << " normal component " << d << " is " << IN->at(l, d));
            VH_CHECK(std::abs(IP->at(l, d) - h.pt[d]) <= 1e-9 * (std::abs(p.s[d]) + std::abs(p.e[d]) + b.E[d]), "traj/point", who.str() << " intersection coordinate " << d << " is " << IP->at(l, d) << " expected " << h.pt[d]);
          }
          VH_CHECK(IM->at(l, 2) == label, "traj/metadata", who.str() << " group label in the metadata is " << IM->at(l, 2) << " expected " << label);
          std::set<INT> ids;
          int lo0, hi0, lo1 = 0, hi1 = 0;
          auto rng = [&](int a, int &lo, int &hi) {
            const double e = 1e-8 * (1.0 + (std::abs(p.s[a]) + std::abs(p.e[a])) / b.w);
            lo = std::max(0, std::min(b.n[a] - 1, static_cast<int>(std::floor(h.pt[a] / b.w - e))));
            hi = std::max(0, std::min(b.n[a] - 1, static_cast<int>(std::floor(h.pt[a] / b.w + e))));
          };
          rng(a0, lo0, hi0);
          if (nd == 3)
            rng(a1, lo1, hi1);
          for (int i = lo0; i <= hi0; i++)
            for (int j = lo1; j <= hi1; j++)
              ids.insert(face_offset(b, face) + i + static_cast<INT>(b.n[a0]) * j);
          VH_CHECK(ids.count(IM->at(l, 3)), "traj/geom", who.str() << " hits boundary element " << IM->at(l, 3) << " expected " << *ids.begin());
          if (treated[label]) {
            changed = true;
            double L = 0, F = 0;
            for (int d = 0; d < nd; d++) {
              L += (p.s[d] - h.pt[d]) * (p.s[d] - h.pt[d]);
              F += (p.e[d] - p.s[d]) * (p.e[d] - p.s[d]);
            }
            L = std::sqrt(L);
            F = std::sqrt(F);
            for (int d = 0; d < nd; d++)
              wantP[d] = L <= rd ? p.s[d] : h.pt[d] + (p.s[d] - h.pt[d]) * (rd / L);
            double scale = 0;
            for (int d = 0; d < nd; d++)
              scale = std::max(scale, std::abs(p.e[d]) + b.E[d]);
            tolP = 1e-9 * scale + 1e-7 * rd + (rd > 0 && L < 2 * rd ? 1e-3 * rd : 0);
            wt1 = dt1 * std::min(1.0, L / F);
            wt0 = dt0 + wt1;
            tolT = 1e-9 * (1 + scale / F);
            if (treated[label] == 1) {
              wantV[an] = -wantV[an];
              tolV = 1e-14;
              vh::count("reflections");
            } else
              vh::count("truncations");
            for (int d = 0; d < nd; d++)
              VH_CHECK(P->at(l, d) >= 0.0 && P->at(l, d) <= W.mesh->global_extents[d], "traj/outside", who.str() << " left outside of the domain at coordinate " << P->at(l, d));
          }
        }
      }
      const char *k = changed ? "traj/treated" : "traj/untouched";
      for (int d = 0; d < nd; d++) {
        VH_CHECK(std::abs(P->at(l, d) - wantP[d]) <= tolP, std::string(k) + "-position", who.str() << " position " << d << " is " << P->at(l, d) << " expected " << wantP[d] << " reset distance " << rd);
        VH_CHECK(std::abs(V->at(l, d) - wantV[d]) <= tolV * std::abs(wantV[d]), std::string(k) + "-velocity", who.str() << " velocity " << d << " is " << V->at(l, d) << " expected " << wantV[d]);
      }
      VH_CHECK(std::abs(T->at(l, 0) - wt0) <= tolT && std::abs(T->at(l, 1) - wt1) <= tolT, std::string(k) + "-time", who.str() << " time step proportions " << T->at(l, 0) << "," << T->at(l, 1) << " expected " << wt0 << "," << wt1);
    }
  }
  for (auto &x : res)
    VH_CHECK(cnt[x.first] == seen[x.first], "traj/count", str << " group " << x.first << " has " << cnt[x.first] << " particles, loops see " << seen[x.first]);
  read_group(W.A, dats, "traj", false, str);
  res.clear();
  sub.reset();
  cti->free();
}

// Specular reflection in the box: after any number of reflections the state is
// the mirror image of free flight.
void flight(Case &c, World &W, Box &b) {
  const std::string str = W.wp.str();
  const int nd = b.ndim;
  int rk;
  MPI_Comm_rank(W.mesh->get_comm(), &rk);
  auto G = random_groups(c.rng, nfaces(b), true);
  W.dats = {};
  W.spec = W.make_spec({});
  W.spec.push(ParticleProp(Sym<REAL>("V"), nd));
  W.spec.push(ParticleProp(Sym<REAL>("TSP"), 2));
  W.A = std::make_shared<ParticleGroup>(W.domain, W.spec, W.target);
  const int n = c.lrng.range(0, 40);
  std::vector<std::array<double, 6>> part(n);
  ParticleSet ps(n, W.spec);
  const std::int64_t id0 = 100000ll * (rk + 1);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < nd; d++) {
      part[i][d] = c.lrng.real(0.01, 0.99) * b.E[d];
      part[i][3 + d] = c.lrng.chance(0.1) ? 0.0 : c.lrng.real(-1.5, 1.5) * b.E[d];
      ps[Sym<REAL>("P")][i][d] = part[i][d];
      ps[Sym<REAL>("V")][i][d] = part[i][3 + d];
    }
    ps[Sym<INT>("CELL_ID")][i][0] = c.lrng.below(W.ncell());
    ps[Sym<INT>("ID")][i][0] = id0 + i;
  }
  W.A->add_particles_local(ps);
  CartesianTrajectoryIntersection cti(W.target, W.mesh, G.g);
  cti.prepare_particle_group(W.A);
  const double rd = 1e-10 * b.E[0];
  BoundaryReflection refl(nd, rd);
  const int steps = c.rng.range(1, 3);
  int iters = 0;
  for (int st = 0; st < steps; st++) {
    particle_loop("reset", W.A, [=](auto T) { T.at(0) = 0.0; T.at(1) = 0.0; }, Access::write(Sym<REAL>("TSP")))->execute();
    // partial time steps until every particle completed the step
    for (int it = 0; it < 400; it++) {
      auto todo = static_particle_sub_group(W.A, [=](auto T) { return T.at(0) < 1.0 - 1e-14; }, Access::read(Sym<REAL>("TSP")));
      int left = todo->get_npart_local(), any = 0;
      MPI_Allreduce(&left, &any, 1, MPI_INT, MPI_MAX, vh::comm());
      if (!any)
        break;
      iters++;
      VH_CHECK(it < 399, "traj/flight-stuck", str << " particles do not complete the time step");
      cti.pre_integration(todo);
      particle_loop(
          "advect", todo,
          [=](auto P, auto V, auto T) {
            const double h = 1.0 - T.at(0);
            for (int d = 0; d < nd; d++)
              P.at(d) += V.at(d) * h;
            T.at(0) = 1.0;
            T.at(1) = h;
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("V")), Access::write(Sym<REAL>("TSP")))
          ->execute();
      auto res = cti.post_integration(todo);
      for (auto &x : res)
        refl.execute(x.second, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"), cti.previous_position_sym);
      res.clear();
    }
  }
  for (int cx = 0; cx < W.ncell(); cx++) {
    auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
    auto P = W.A->get_cell(Sym<REAL>("P"), cx);
    auto V = W.A->get_cell(Sym<REAL>("V"), cx);
    for (int l = 0; l < ID->nrow; l++) {
      auto &p = part.at(ID->at(l, 0) - id0);
      for (int d = 0; d < nd; d++) {
        const double E = b.E[d], x = p[d] + steps * p[3 + d];
        const double q = std::floor(x / E);
        double y = x - q * E;
        const bool odd = std::fmod(std::abs(q), 2.0) > 0.5;
        if (odd)
          y = E - y;
        // the path is cut by at most the reset distance per reflection of any component
        const double maxE = *std::max_element(b.E, b.E + nd);
        const double vrel = [&] {
          double v = 0;
          for (int k = 0; k < nd; k++)
            v = std::max(v, std::abs(p[3 + k]));
          return v;
        }();
        const double tol = 1e-8 * maxE + 100 * rd * (1 + vrel / maxE);
        VH_CHECK(std::abs(P->at(l, d) - y) <= tol, "traj/flight-position", str << " particle from " << p[d] << " with velocity " << p[3 + d] << " after " << steps << " steps at " << P->at(l, d) << " expected " << y);
        if (y > tol && y < E - tol)
          VH_CHECK(V->at(l, d) == (odd ? -p[3 + d] : p[3 + d]), "traj/flight-velocity", str << " velocity " << p[3 + d] << " became " << V->at(l, d) << " after " << q << " crossings");
        vh::count("flights");
      }
    }
  }
  vh::count("flight_substeps", iters);
  cti.free();
}

void sc_traj(Case &c) {
  auto wp = cart_params(c.rng, 4, 3);
  World W(wp);
  Box b = make_box(W, "cart");
  const bool f = c.rng.chance(0.25);
  c.desc << wp.str() << (f ? " flight" : " hits");
  if (f)
    flight(c, W, b);
  else
    hits(c, W, b);
  c.nontrivial = true;
  W.free();
}

// ---------------------------------------------------------------- P20
// Random owned geometry objects on random ranks, random interest.
template <typename T> void bmi_typed(Case &c, World &W) {
  int rk, sz;
  MPI_Comm comm = W.mesh->get_comm();
  MPI_Comm_rank(comm, &rk);
  MPI_Comm_size(comm, &sz);
  const int ng = c.rng.range(1, 40);
  std::vector<std::pair<INT, int>> geoms; // id, owner
  std::set<INT> used;
  while (static_cast<int>(geoms.size()) < ng) {
    const INT g = c.rng.chance(0.5) ? c.rng.range(0, 60) : c.rng.range(0, 2000000000);
    if (used.insert(g).second)
      geoms.push_back({g, static_cast<int>(c.rng.below(sz))});
  }
  std::vector<INT> owned;
  for (auto &g : geoms)
    if (g.second == rk)
      owned.push_back(g.first);
  BoundaryMeshInterface bmi(comm, W.target, owned);
  auto version = bmi.get_version_function_handle();
  std::vector<std::set<INT>> interest(sz); // of every rank
  const int ext = c.rng.range(1, 4);
  for (int e = 0; e < ext; e++) {
    bool modified = false;
    std::vector<std::pair<int, INT>> req;
    std::vector<INT> before;
    for (int q = 0; q < sz; q++) {
      const int k = c.rng.chance(0.3) ? 0 : c.rng.range(0, ng);
      for (int i = 0; i < k; i++) {
        auto &g = c.rng.pick(geoms);
        if (interest[q].insert(g.first).second)
          modified = true;
        if (q == rk)
          req.push_back({g.second, g.first});
      }
    }
    const auto v0 = version();
    bmi.extend_exchange_pattern(req);
    VH_CHECK((version() > v0) == modified, "bmi/version", "extension " << e << " modified " << modified << " version " << v0 << " -> " << version());
    auto gid = [&](INT i) { return bmi.get_geom_id_from_seq_index(i); };
    auto [root, num] = bmi.get_device_geom_id_to_seq();
    VH_CHECK(num == static_cast<INT>(interest[rk].size()) && bmi.get_num_intersection_geoms() == num, "bmi/count", "interface knows " << num << " geometry objects, " << interest[rk].size() << " were requested");
    if (num != static_cast<INT>(interest[rk].size()))
      break;
    std::set<INT> s;
    for (INT i = 0; i < num; i++) {
      s.insert(gid(i));
      VH_CHECK(bmi.get_seq_index_from_geom_id(gid(i)) == i, "bmi/index", "geometry object " << gid(i) << " has index " << bmi.get_seq_index_from_geom_id(gid(i)) << " and " << i);
      const INT *lin = nullptr;
      // lookup on the device
      auto la = std::make_shared<LocalArray<INT>>(W.target, std::vector<INT>{gid(i), -5});
      BufferDevice<INT> out(W.target, std::vector<INT>{-5});
      auto *o = out.ptr;
      auto rt = root;
      const INT key = gid(i);
      W.target->queue.single_task([=]() {
                       const INT *v = nullptr;
                       if (rt != nullptr && rt->get(key, &v))
                         *o = *v;
                     })
          .wait_and_throw();
      VH_CHECK(out.get().at(0) == i, "bmi/device-index", "device lookup of geometry object " << key << " gives " << out.get().at(0) << " expected " << i);
      (void)lin;
    }
    VH_CHECK(s == interest[rk], "bmi/geoms", "the sequential indices do not cover the requested geometry objects");
    VH_CHECK(bmi.get_extended_pattern_geom_ids() == interest[rk], "bmi/geoms", "the extended pattern differs from the requested geometry objects");
    bool any = false;
    for (auto &x : interest)
      any = any || !x.empty();
    if (any) {
      INT exported = 0;
      for (auto &x : interest)
        for (INT g : owned)
          exported += x.count(g);
      VH_CHECK(bmi.get_total_num_exported_geoms() == exported, "bmi/exported", "exports " << bmi.get_total_num_exported_geoms() << " geometry objects, expected " << exported);
    }
    // contributions are summed on the owner
    const int nc = c.rng.range(1, 3);
    auto contrib = [&](int q, INT g, int k) { return static_cast<T>(static_cast<INT>(hash64(q, g, k, e) % 1000)); };
    auto base = [&](INT g, int k) { return static_cast<T>(static_cast<INT>(hash64(g, k, 3) % 1000)); };
    std::vector<T> src(num * nc + 1, T(-1)), dst(owned.size() * nc + 1, T(-1));
    for (INT i = 0; i < num; i++)
      for (int k = 0; k < nc; k++)
        src[i * nc + k] = contrib(rk, gid(i), k);
    for (std::size_t i = 0; i < owned.size(); i++)
      for (int k = 0; k < nc; k++)
        dst[i * nc + k] = base(owned[i], k);
    BufferDevice<T> dsrc(W.target, src), ddst(W.target, dst);
    bmi.exchange_from_device(dsrc.ptr, nc, ddst.ptr);
    auto got = ddst.get();
    for (std::size_t i = 0; i < owned.size(); i++)
      for (int k = 0; k < nc; k++) {
        T want = base(owned[i], k);
        for (int q = 0; q < sz; q++)
          if (interest[q].count(owned[i]))
            want += contrib(q, owned[i], k);
        VH_CHECK(got[i * nc + k] == want, "bmi/exchange", "geometry object " << owned[i] << " component " << k << " of " << nc << " received " << got[i * nc + k] << " expected " << want);
        vh::count("bmi_values");
      }
    VH_CHECK(got.back() == T(-1), "bmi/exchange", "value behind the buffer overwritten");
    // owners' values are delivered
    std::vector<T> osrc(owned.size() * nc + 1, T(-1)), odst(num * nc + 1, T(-1));
    for (std::size_t i = 0; i < owned.size(); i++)
      for (int k = 0; k < nc; k++)
        osrc[i * nc + k] = static_cast<T>(static_cast<INT>(hash64(owned[i], k, 9, e) % 100000));
    BufferDevice<T> a(W.target, osrc), z(W.target, odst);
    bmi.reverse_exchange_from_device(a.ptr, nc, z.ptr);
    auto back = z.get();
    for (INT i = 0; i < num; i++)
      for (int k = 0; k < nc; k++) {
        const T want = static_cast<T>(static_cast<INT>(hash64(gid(i), k, 9, e) % 100000));
        VH_CHECK(back[i * nc + k] == want, "bmi/reverse", "geometry object " << gid(i) << " component " << k << " delivered " << back[i * nc + k] << " expected " << want);
        vh::count("bmi_values");
      }
    VH_CHECK(back.back() == T(-1), "bmi/reverse", "value behind the buffer overwritten");
    vh::distinct("bmi_pattern", std::to_string(ng) + "/" + std::to_string(num) + "/" + std::to_string(e));
  }
  bmi.free();
}

void functions(Case &c, World &W, Box &b) {
  const std::string str = W.wp.str();
  const int nd = b.ndim;
  int rk, sz;
  MPI_Comm_rank(W.mesh->get_comm(), &rk);
  MPI_Comm_size(W.mesh->get_comm(), &sz);
  auto G = random_groups(c.rng, nfaces(b), c.rng.chance(0.6));
  if (G.g.empty()) {
    G.g[3] = {0};
    G.of_face[0] = 3;
    G.in[0] = true;
  }
  W.dats = {};
  W.spec = W.make_spec({});
  W.spec.push(ParticleProp(Sym<REAL>("E0"), nd));
  W.spec.push(ParticleProp(Sym<REAL>("S0"), nd));
  W.spec.push(ParticleProp(Sym<REAL>("Q"), 2));
  W.spec.push(ParticleProp(Sym<REAL>("R"), 2));
  W.spec.push(ParticleProp(Sym<INT>("IM"), 2));
  W.A = std::make_shared<ParticleGroup>(W.domain, W.spec, W.target);
  CartesianTrajectoryIntersection cti(W.target, W.mesh, G.g);
  cti.prepare_particle_group(W.A);
  std::map<int, CartesianHMeshFunctionSharedPtr> func;
  for (auto &x : G.g)
    func[x.first] = cti.create_function(x.first, "DG", 0);
  const int rounds = c.rng.range(1, 4);
  std::int64_t id = 100000ll * (rk + 1);
  std::set<INT> touched;
  for (int round = 0; round < rounds; round++) {
    const std::string s = str + " round " + std::to_string(round);
    const int parts = c.rng.range(1, 3); // contributions to one projection
    const bool split = c.rng.chance(0.7);
    const bool eph = c.rng.chance(0.4);
    const int comp = c.rng.range(0, 1);
    const bool via_all = !split && c.rng.chance(0.5);
    if (!via_all)
      for (auto &x : func)
        cti.function_project_initialise(x.second);
    std::map<std::pair<int, INT>, double> mine; // (group, geom) -> weight
    auto hits_of = [&](ParticleSubGroupSharedPtr g, int label) {
      particle_loop(
          "m", g, [=](auto IM, auto BM) { IM.at(0) = 1 + BM.at_ephemeral(1); IM.at(1) = label; },
          Access::write(Sym<INT>("IM")), Access::read(BoundaryInteractionSpecification::intersection_metadata))
          ->execute();
    };
    std::map<int, ParticleSubGroupSharedPtr> res;
    const int np = split ? parts : 1;
    for (int part = 0; part < np; part++) {
      res.clear();
      W.A->clear();
      const int n = c.lrng.chance(0.2) ? 0 : c.lrng.range(0, 30);
      ParticleSet ps(n, W.spec);
      for (int i = 0; i < n; i++, id++) {
        double s0[3], e0[3];
        start_end(c.lrng, b, s0, e0);
        for (int d = 0; d < nd; d++) {
          ps[Sym<REAL>("P")][i][d] = s0[d];
          ps[Sym<REAL>("S0")][i][d] = s0[d];
          ps[Sym<REAL>("E0")][i][d] = e0[d];
        }
        ps[Sym<REAL>("Q")][i][0] = static_cast<double>(hash64(id, 1) % 1024);
        ps[Sym<REAL>("Q")][i][1] = static_cast<double>(hash64(id, 2) % 1024);
        ps[Sym<REAL>("R")][i][0] = -5.0;
        ps[Sym<REAL>("R")][i][1] = -6.0;
        ps[Sym<INT>("IM")][i][0] = 0;
        ps[Sym<INT>("ID")][i][0] = id;
        ps[Sym<INT>("CELL_ID")][i][0] = c.lrng.below(W.ncell());
      }
      W.A->add_particles_local(ps);
      cti.pre_integration(W.A);
      set_dat_from(W.A, Sym<REAL>("P"), Sym<REAL>("E0"), nd);
      res = cti.post_integration(W.A);
      for (auto &x : res) {
        hits_of(x.second, x.first);
        if (eph) {
          x.second->add_ephemeral_dat(Sym<REAL>("QE"), 2);
          particle_loop(
              "e", x.second,
              [=](auto Q, auto QE) {
                QE.at_ephemeral(0) = Q.at(0);
                QE.at_ephemeral(1) = Q.at(1);
              },
              Access::read(Sym<REAL>("Q")), Access::write(Sym<REAL>("QE")))
              ->execute();
        }
      }
      for (int cx = 0; cx < W.ncell(); cx++) {
        auto IM = W.A->get_cell(Sym<INT>("IM"), cx);
        auto Q = W.A->get_cell(Sym<REAL>("Q"), cx);
        for (int l = 0; l < IM->nrow; l++)
          if (IM->at(l, 0) > 0)
            mine[{static_cast<int>(IM->at(l, 1)), IM->at(l, 0) - 1}] += Q->at(l, comp);
      }
      for (auto &x : func) {
        const Sym<REAL> src = eph ? Sym<REAL>("QE") : Sym<REAL>("Q");
        if (via_all)
          cti.function_project(res.at(x.first), src, comp, eph, x.second);
        else
          cti.function_project_contribute(res.at(x.first), src, comp, eph, x.second);
      }
    }
    if (!via_all)
      for (auto &x : func)
        cti.function_project_finalise(x.second);
    // totals over the ranks
    std::vector<std::int64_t> flat;
    for (auto &x : mine) {
      flat.push_back(x.first.first);
      flat.push_back(x.first.second);
      flat.push_back(static_cast<std::int64_t>(x.second));
    }
    auto all = vh::allgather(flat);
    std::map<std::pair<int, INT>, double> total;
    for (auto &v : all)
      for (std::size_t i = 0; i + 2 < v.size(); i += 3)
        total[{static_cast<int>(v[i]), v[i + 1]}] += static_cast<double>(v[i + 2]);
    std::map<int, std::vector<REAL>> dofs;
    for (auto &x : func) {
      auto d = x.second->get_dofs();
      auto &cells = x.second->cells;
      if (!VH_CHECK(d.size() == cells.size(), "bfunc/size", s << " function has " << d.size() << " values for " << cells.size() << " face cells"))
        continue;
      std::vector<INT> wc;
      for (int f = 0; f < nfaces(b); f++)
        if (G.in[f] && G.of_face[f] == x.first)
          for (INT g : W.mesh->get_all_face_cells_on_face(f))
            wc.push_back(g);
      std::set<INT> s1(cells.begin(), cells.end()), s2(wc.begin(), wc.end());
      VH_CHECK(s1 == s2 && cells.size() == wc.size(), "bfunc/cells", s << " function lives on " << cells.size() << " face cells, expected " << wc.size());
      for (std::size_t i = 0; i < cells.size(); i++) {
        auto it = total.find({x.first, cells[i]});
        const double want = it == total.end() ? 0.0 : it->second;
        // the scaling of surface elements is the inverse width; in 3D an
        // inverse area is accepted as well
        const double g = d[i] * b.w, g2 = nd == 3 ? d[i] * b.w * b.w : g;
        const double tol = 1e-9 * (1.0 + std::abs(want));
        VH_CHECK(std::abs(g - want) <= tol || std::abs(g2 - want) <= tol, "bfunc/project", s << " group " << x.first << " face cell " << cells[i] << " integral " << g << " expected " << want << " contributions " << np << (eph ? " ephemeral" : ""));
        vh::count("function_values");
        if (want != 0.0)
          vh::count("function_nonzero");
      }
      dofs[x.first] = d;
    }
    // evaluation: every hit reads the value of its face cell
    const int evals = c.rng.range(0, 2);
    for (int ev = 0; ev < evals; ev++) {
      const int ec = c.rng.range(0, 1);
      const bool into = c.rng.chance(0.4);
      for (auto &x : func) {
        if (c.rng.chance(0.7)) {
          auto v = x.second->get_dofs();
          for (std::size_t i = 0; i < v.size(); i++)
            v[i] = static_cast<double>(hash64(x.second->cells[i], round, ev, 4) % 100000);
          x.second->set_dofs(v);
          dofs[x.first] = x.second->get_dofs();
          VH_CHECK(dofs[x.first] == v, "bfunc/set", s << " values read differ from the values set");
        } else if (c.rng.chance(0.3)) {
          x.second->fill(static_cast<double>(round + 7));
          dofs[x.first] = x.second->get_dofs();
          for (double q : dofs[x.first])
            VH_CHECK(q == round + 7, "bfunc/fill", s << " value " << q << " after fill");
        }
        if (!into) {
          cti.function_evaluate(res.at(x.first), Sym<REAL>("R"), ec, false, x.second);
          continue;
        }
        auto g = res.at(x.first);
        if (!g->contains_ephemeral_dat(Sym<REAL>("RE")))
          g->add_ephemeral_dat(Sym<REAL>("RE"), 2);
        particle_loop(
            "f", g, [=](auto RE) { RE.at_ephemeral(0) = RE.at_ephemeral(1) = -9.0; }, Access::write(Sym<REAL>("RE")))
            ->execute();
        cti.function_evaluate(g, Sym<REAL>("RE"), ec, true, x.second);
        auto other = std::make_shared<LocalArray<INT>>(W.target, 1, 0);
        particle_loop(
            "g", g,
            [=](auto RE, auto R, auto L) {
              R.at(ec) = RE.at_ephemeral(ec);
              if (RE.at_ephemeral(1 - ec) != -9.0)
                L.fetch_add(0, 1);
            },
            Access::read(Sym<REAL>("RE")), Access::write(Sym<REAL>("R")), Access::add(other))
            ->execute();
        VH_CHECK(other->get()[0] == 0, "bfunc/component", s << " evaluation wrote another component");
        vh::count("ephemeral_evaluations");
      }
      // values of all face cells
      std::vector<std::int64_t> fl;
      std::vector<std::int64_t> bits;
      for (auto &x : func)
        for (std::size_t i = 0; i < x.second->cells.size(); i++) {
          std::int64_t q;
          const double v = dofs[x.first][i];
          std::memcpy(&q, &v, 8);
          fl.push_back(x.first);
          fl.push_back(x.second->cells[i]);
          fl.push_back(q);
        }
      auto av = vh::allgather(fl);
      std::map<std::pair<int, INT>, double> val;
      for (auto &v : av)
        for (std::size_t i = 0; i + 2 < v.size(); i += 3) {
          double q;
          std::memcpy(&q, &v[i + 2], 8);
          val[{static_cast<int>(v[i]), v[i + 1]}] = q;
        }
      for (int cx = 0; cx < W.ncell(); cx++) {
        auto IM = W.A->get_cell(Sym<INT>("IM"), cx);
        auto R = W.A->get_cell(Sym<REAL>("R"), cx);
        for (int l = 0; l < IM->nrow; l++) {
          if (IM->at(l, 0) > 0) {
            const double want = val[{static_cast<int>(IM->at(l, 1)), IM->at(l, 0) - 1}];
           VH_CHECK(R->at(l, ec) == want || (std::isnan(want) && std::isnan(R->at(l, ec))), "bfunc/evaluate", s << " evaluation " << ev << " group " << IM->at(l, 1) << " face cell " << IM->at(l, 0) - 1 << " gives " << R->at(l, ec) << " expected " << want);
            vh::count("evaluations");
          } else
            VH_CHECK(R->at(l, 0) == -5.0 && R->at(l, 1) == -6.0, "bfunc/evaluate-extra", s << " a particle that hit nothing was written");
        }
      }
    }
    res.clear();
  }
  cti.free();
}

void sc_bmi(Case &c) {
  auto wp = cart_params(c.rng, 4, 3);
  World W(wp);
  Box b = make_box(W, "cart");
  const int k = c.rng.range(0, 4);
  c.desc << wp.str() << (k < 3 ? " functions" : " interface");
  if (k < 3)
    functions(c, W, b);
  else if (k == 3)
    bmi_typed<REAL>(c, W);
  else
    bmi_typed<INT>(c, W);
  c.nontrivial = true;
  W.free();
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv, {{"cart", sc_cart, 2}, {"traj", sc_traj, 2}, {"bmi", sc_bmi, 2}});
}
