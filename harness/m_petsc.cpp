// P28 DMPlex meshes and mapping, P32 DMPlex boundary interaction, P27 quadrature
// points, projections, evaluations and mesh coupling.
#include "world.hpp"
#include <array>
#include <cmath>
#include <neso_particles/external_interfaces/petsc/petsc_interface.hpp>
#include <neso_particles/external_interfaces/petsc/dmplex_mesh_coupler_dg0.hpp>
#include <random>
using namespace vh;
using namespace NESO::Particles;

namespace {

typedef std::array<double, 2> V2;
double cross(const V2 &a, const V2 &b) { return a[0] * b[1] - a[1] * b[0]; }
V2 sub(const V2 &a, const V2 &b) { return {a[0] - b[0], a[1] - b[1]}; }
double len(const V2 &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1]); }

void petsc_once() {
  static bool done = false;
  if (!done) {
    done = true;
    PETSC_COMM_WORLD = vh::world_comm();
    PetscInitializeNoArguments();
    PetscPopSignalHandler();
  }
}

// The mesh every rank knows.
struct Ref {
  std::vector<V2> verts;
  std::vector<std::vector<int>> cells; // counter clockwise
  std::vector<int> owner;              // rank the partition asks for
  struct Edge {
    int a, b, label;
    PetscInt gid = -1;
  };
  std::vector<Edge> edges; // boundary edges
  double h = 1, scale = 1;
  std::string str;
  bool affine = true; // quads are parallelograms

  double area(int c) const {
    double s = 0;
    auto &x = cells[c];
    for (std::size_t i = 0; i < x.size(); i++)
      s += cross(verts[x[i]], verts[x[(i + 1) % x.size()]]);
    return 0.5 * s;
  }
  // smallest signed distance to an edge line, positive inside
  double inside(int c, const V2 &p) const {
    double d = 1e300;
    auto &x = cells[c];
    for (std::size_t i = 0; i < x.size(); i++) {
      const V2 a = verts[x[i]], e = sub(verts[x[(i + 1) % x.size()]], a);
      d = std::min(d, cross(e, sub(p, a)) / len(e));
    }
    return d;
  }
  double inside_any(const V2 &p) const {
    double d = -1e300;
    for (std::size_t c = 0; c < cells.size(); c++)
      d = std::max(d, inside(static_cast<int>(c), p));
    return d;
  }
  // a point of a cell; kinds of special positions
  V2 point(Rng &r, int c, bool special = true) const {
    auto &x = cells[c];
    const int k = special ? r.range(0, 11) : 11;
    const int n = static_cast<int>(x.size());
    const int i = r.range(0, n - 1);
    const V2 a = verts[x[i]], b = verts[x[(i + 1) % n]];
    if (k == 0)
      return a;
    if (k == 1) { // on an edge, as far as rounding allows
      const double t = r.pick(std::vector<double>{0.5, 0.25, r.real(), 1e-12});
      // a point of a sloped boundary edge is outside the mesh when its
      // coordinates are rounded outwards
      const int va = x[i], vb = x[(i + 1) % n];
      bool boundary = false;
      for (auto &e : edges)
        boundary = boundary || (std::min(va, vb) == std::min(e.a, e.b) && std::max(va, vb) == std::max(e.a, e.b));
      if (!boundary || a[0] == b[0] || a[1] == b[1])
        return {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])};
    }
    double w[4], s = 0;
    for (int j = 0; j < n; j++)
      s += w[j] = r.real(special ? 1e-3 : 0.05, 1.0);
    if (k == 2)
      w[i] += 1e4, s += 1e4;
    V2 p = {0, 0};
    for (int j = 0; j < n; j++)
      for (int d = 0; d < 2; d++)
        p[d] += w[j] / s * verts[x[j]][d];
    return p;
  }
};

Ref make_ref(Rng &r, int nranks) {
  Ref m;
  m.h = r.pick(std::vector<double>{1.0, 0.25, 0.1, 3.0});
  const double hy = m.h * r.pick(std::vector<double>{1.0, 1.0, 0.6, 2.0});
  int nx = r.range(1, 7), ny = r.range(1, 7);
  while (nx * ny < nranks + 1)
    nx++;
  const double ox = r.pick(std::vector<double>{0.0, 0.0, -1.5, 3.7}) * m.h, oy = r.pick(std::vector<double>{0.0, 0.0, -0.5, 10.1}) * m.h;
  const int shape = r.range(0, 2); // exact, perturbed inside, perturbed everywhere
  const double pert = shape == 0 ? 0.0 : r.pick(std::vector<double>{0.02, 0.2});
  m.affine = shape == 0;
  const double ptri = r.pick(std::vector<double>{0.0, 1.0, 0.5}), phole = r.pick(std::vector<double>{0.0, 0.0, 0.15});
  std::vector<V2> gv;
  for (int j = 0; j <= ny; j++)
    for (int i = 0; i <= nx; i++) {
      V2 p = {ox + i * m.h, oy + j * hy};
      const double dx = r.real(-pert, pert) * m.h, dy = r.real(-pert, pert) * hy;
      const bool bx = i == 0 || i == nx, by = j == 0 || j == ny;
      if (shape == 2 || !bx)
        p[0] += dx;
      if (shape == 2 || !by)
        p[1] += dy;
      gv.push_back(p);
    }
  std::vector<std::vector<int>> cells;
  int holes = 0;
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) {
      const int a = j * (nx + 1) + i, b = a + 1, d = a + nx + 1, e = d + 1;
      if (r.chance(phole) && nx * ny - holes - 1 >= nranks) {
        holes++;
        continue;
      }
      if (r.chance(ptri)) {
        if (r.chance(0.5)) {
          cells.push_back({a, b, e});
          cells.push_back({a, e, d});
        } else {
          cells.push_back({a, b, d});
          cells.push_back({b, e, d});
        }
      } else
        cells.push_back({a, b, e, d});
    }
  if (r.chance(0.5))
    r.shuffle(cells);
  for (auto &c : cells) // any starting vertex
    std::rotate(c.begin(), c.begin() + r.below(c.size()), c.end());
  std::map<int, int> vm;
  for (auto &c : cells)
    for (int &v : c) {
      if (!vm.count(v)) {
        const int k = static_cast<int>(vm.size());
        vm[v] = k;
        m.verts.push_back(gv[v]);
      }
      v = vm[v];
    }
  m.cells = cells;
  const int nc = static_cast<int>(cells.size());
  // partition
  m.owner.resize(nc);
  const int how = r.range(0, 2);
  for (int c = 0; c < nc; c++) {
    if (how == 0)
      m.owner[c] = static_cast<int>(r.below(nranks));
    else if (how == 1)
      m.owner[c] = c * nranks / nc;
    else {
      double x = 0;
      for (int v : cells[c])
        x += m.verts[v][0] / cells[c].size();
      m.owner[c] = std::max(0, std::min(nranks - 1, static_cast<int>((x - ox) / (nx * m.h) * nranks)));
    }
  }
  std::vector<int> perm(nc);
  for (int i = 0; i < nc; i++)
    perm[i] = i;
  r.shuffle(perm);
  for (int k = 0; k < nranks; k++) { // everybody has a cell
    if (std::count(m.owner.begin(), m.owner.end(), k))
      continue;
    for (int i : perm)
      if (std::count(m.owner.begin(), m.owner.end(), m.owner[i]) > 1) {
        m.owner[i] = k;
        break;
      }
  }
  std::map<std::pair<int, int>, int> cnt;
  for (auto &c : cells)
    for (std::size_t i = 0; i < c.size(); i++)
      cnt[std::minmax(c[i], c[(i + 1) % c.size()])]++;
  const int nl = r.range(1, 4);
  std::vector<int> labels;
  while (static_cast<int>(labels.size()) < nl) {
    const int l = r.chance(0.7) ? r.range(1, 9) : r.range(100, 2000000000);
    if (!std::count(labels.begin(), labels.end(), l))
      labels.push_back(l);
  }
  const double punl = r.pick(std::vector<double>{0.0, 0.0, 0.2});
  for (auto &e : cnt)
    if (e.second == 1)
      m.edges.push_back({e.first.first, e.first.second, r.chance(punl) ? -1 : r.pick(labels)});
  for (auto &v : m.verts)
    for (double x : v)
      m.scale = std::max(m.scale, std::abs(x));
  std::ostringstream s;
  s << "plex " << nx << "x" << ny << " cells " << nc << " vertices " << m.verts.size() << " h " << m.h << " shape " << shape << " partition " << how << " holes " << holes;
  m.str = s.str();
  return m;
}

// Labels the boundary edges of the distributed mesh. The edges are named by any
// process, not by the one which has them.
void label_edges(DM dm, const Ref &m, std::uint64_t salt) {
  IS is;
  const PetscInt *gv;
  PetscInt s, e;
  PETSCCHK(DMPlexGetDepthStratum(dm, 0, &s, &e));
  PETSCCHK(DMPlexGetVertexNumbering(dm, &is));
  PETSCCHK(ISGetIndices(is, &gv));
  PetscSection sec;
  Vec vec;
  const PetscScalar *x;
  PETSCCHK(DMGetCoordinateSection(dm, &sec));
  PETSCCHK(DMGetCoordinatesLocal(dm, &vec));
  PETSCCHK(VecGetArrayRead(vec, &x));
  std::map<V2, int> at;
  for (std::size_t i = 0; i < m.verts.size(); i++)
    at[m.verts[i]] = static_cast<int>(i);
  std::vector<std::int64_t> mine;
  for (PetscInt p = s; p < e; p++) {
    PetscInt off;
    PETSCCHK(PetscSectionGetOffset(sec, p, &off));
    auto it = at.find(V2{x[off], x[off + 1]});
    if (it != at.end() && gv[p - s] >= 0) {
      mine.push_back(it->second);
      mine.push_back(gv[p - s]);
    }
  }
  PETSCCHK(VecRestoreArrayRead(vec, &x));
  PETSCCHK(ISRestoreIndices(is, &gv));
  std::vector<PetscInt> global(m.verts.size(), -1), a, b, l;
  for (auto &v : vh::allgather(mine))
    for (std::size_t i = 0; i + 1 < v.size(); i += 2)
      global[v[i]] = static_cast<PetscInt>(v[i + 1]);
  for (std::size_t i = 0; i < m.edges.size(); i++) {
    auto &ed = m.edges[i];
    const auto h = vh::hash64(salt, i);
    // sometimes by two processes
    if (ed.label < 0 || (static_cast<int>(h % vh::size()) != vh::rank() && (h >> 32) % 5 != 0))
      continue;
    a.push_back(global[(h >> 20) & 1 ? ed.a : ed.b]);
    b.push_back(global[(h >> 20) & 1 ? ed.b : ed.a]);
    l.push_back(ed.label);
  }
  PetscInterface::label_dmplex_edges(dm, "Face Sets", a, b, l);
  vh::count("edges_labelled", l.size());
}

DM make_dm(const Ref &m, int overlap, bool label = true, std::vector<PetscInt> *points = nullptr) {
  int rk, sz;
  MPI_Comm_rank(vh::world_comm(), &rk);
  MPI_Comm_size(vh::world_comm(), &sz);
  DM dm, idm;
  PETSCCHK(DMCreate(vh::world_comm(), &dm));
  PETSCCHK(DMSetType(dm, DMPLEX));
  PETSCCHK(DMSetDimension(dm, 2));
  const int nc = static_cast<int>(m.cells.size());
  PetscInt num[2] = {0, 0};
  std::vector<PetscInt> csize, cones, orient;
  std::vector<PetscScalar> coords;
  if (rk == 0) {
    num[0] = static_cast<PetscInt>(m.verts.size());
    num[1] = nc;
    for (auto &c : m.cells) {
      csize.push_back(static_cast<PetscInt>(c.size()));
      for (int v : c) {
        cones.push_back(nc + v);
        orient.push_back(0);
      }
    }
    for (std::size_t i = 0; i < m.verts.size(); i++) {
      csize.push_back(0);
      coords.push_back(m.verts[i][0]);
      coords.push_back(m.verts[i][1]);
    }
  }
  csize.reserve(1), cones.reserve(1), orient.reserve(1), coords.reserve(1);
  PETSCCHK(DMPlexCreateFromDAG(dm, 1, num, csize.data(), cones.data(), orient.data(), coords.data()));
  PETSCCHK(DMPlexInterpolate(dm, &idm));
  PETSCCHK(DMDestroy(&dm));
  dm = idm;
  if (label) {
    PETSCCHK(DMCreateLabel(dm, "Face Sets"));
    if (rk == 0)
      for (auto &e : m.edges) {
        if (e.label < 0)
          continue;
        const PetscInt pts[2] = {nc + e.a, nc + e.b};
        PetscInt njoin;
        const PetscInt *join;
        PETSCCHK(DMPlexGetJoin(dm, 2, pts, &njoin, &join));
        PETSCCHK(DMSetLabelValue(dm, "Face Sets", join[0], e.label));
        PETSCCHK(DMPlexRestoreJoin(dm, 2, pts, &njoin, &join));
      }
  }
  if (sz > 1) {
    PetscPartitioner part;
    PETSCCHK(DMPlexGetPartitioner(dm, &part));
    PETSCCHK(PetscPartitionerSetType(part, PETSCPARTITIONERSHELL));
    std::vector<PetscInt> sizes(sz, 0), points;
    if (rk == 0)
      for (int k = 0; k < sz; k++)
        for (int c = 0; c < nc; c++)
          if (m.owner[c] == k) {
            sizes[k]++;
            points.push_back(c);
          }
    points.reserve(1);
    PETSCCHK(PetscPartitionerShellSetPartition(part, sz, sizes.data(), points.data()));
  }
  PetscSF sf = nullptr;
  PetscInterface::generic_distribute(&dm, vh::world_comm(), overlap, points ? &sf : nullptr);
  if (points)
    *points = PetscInterface::get_global_distributed_points_map(dm, sf);
  if (sf)
    PETSCCHK(PetscSFDestroy(&sf));
  return dm;
}

struct Plex {
  Ref ref;
  DM dm;
  PetscInterface::DMPlexInterfaceSharedPtr mesh;
  SYCLTargetSharedPtr target;
  std::shared_ptr<PetscInterface::DMPlexLocalMapper> mapper;
  DomainSharedPtr domain;
  ParticleGroupSharedPtr A;
  int rk, sz, overlap;
  std::vector<int> local;                       // local cell -> reference cell
  std::vector<std::pair<int, int>> where;       // reference cell -> rank, local cell
  std::vector<std::int64_t> gid;                // reference cell -> global point
  std::string str;

  // does the mesh hierarchy know an owner of the position
  bool claimed(const V2 &p) const {
    auto mh = mesh->get_mesh_hierarchy();
    INT t[6];
    MeshHierarchyMapper mapper(target, mh);
    mapper.get_host_mapper().map_to_tuple(p.data(), t);
    for (int d = 0; d < 4; d++)
      if (t[d] < 0)
        return false;
    return mh->get_owner(mh->tuple_to_linear_global(t)) >= 0;
  }

  Plex(Rng &r, const char *key) {
    petsc_once();
    MPI_Comm_rank(vh::world_comm(), &rk);
    MPI_Comm_size(vh::world_comm(), &sz);
    ref = make_ref(r, sz);
    overlap = r.chance(0.3) ? 1 : 0;
    const bool late = r.chance(0.4), track = r.chance(0.5);
    const auto salt = r.u64();
    std::vector<PetscInt> points;
    dm = make_dm(ref, overlap, !late, track ? &points : nullptr);
    if (late)
      label_edges(dm, ref, salt);
    mesh = std::make_shared<PetscInterface::DMPlexInterface>(dm, r.chance(0.7) ? 0 : r.range(-1, 1), vh::world_comm());
    target = std::make_shared<SYCLTarget>(device_kind(), mesh->get_comm());
    mapper = std::make_shared<PetscInterface::DMPlexLocalMapper>(target, mesh);
    domain = std::make_shared<Domain>(mesh, mapper);
    str = ref.str + " overlap " + std::to_string(overlap) + " ranks " + std::to_string(sz);
    // who owns what
    std::map<std::vector<V2>, int> by_verts;
    for (std::size_t c = 0; c < ref.cells.size(); c++) {
      std::vector<V2> k;
      for (int v : ref.cells[c])
        k.push_back(ref.verts[v]);
      std::sort(k.begin(), k.end());
      by_verts[k] = static_cast<int>(c);
    }
    const int nloc = mesh->get_cell_count();
    std::vector<std::int64_t> mine;
    for (int c = 0; c < nloc; c++) {
      std::vector<std::vector<REAL>> vs;
      mesh->dmh->get_cell_vertices(c, vs);
      std::vector<V2> k;
      for (auto &v : vs)
        k.push_back({v.at(0), v.at(1)});
      std::sort(k.begin(), k.end());
      auto it = by_verts.find(k);
      if (!VH_CHECK(it != by_verts.end(), std::string(key) + "/cell-vertices", str << " local cell " << c << " is not a cell of the mesh")) {
        local.push_back(-1);
        continue;
      }
      local.push_back(it->second);
      mine.push_back(it->second);
      mine.push_back(c);
      mine.push_back(mesh->dmh->get_point_global_index(mesh->dmh->get_dmplex_cell_index(c)));
    }
    auto all = vh::allgather(mine);
    where.assign(ref.cells.size(), {-1, -1});
    gid.assign(ref.cells.size(), -1);
    for (int k = 0; k < sz; k++)
      for (std::size_t i = 0; i + 2 < all[k].size(); i += 3) {
        auto &w = where.at(all[k][i]);
        VH_CHECK(w.first < 0, std::string(key) + "/cell-twice", str << " mesh cell " << all[k][i] << " is owned by ranks " << w.first << " and " << k);
        w = {k, static_cast<int>(all[k][i + 1])};
        gid.at(all[k][i]) = all[k][i + 2];
      }
    for (std::size_t c = 0; c < where.size(); c++)
      VH_CHECK(where[c].first == ref.owner[c] || sz == 1, std::string(key) + "/cell-owner", str << " mesh cell " << c << " is owned by rank " << where[c].first << " the partition says " << ref.owner[c]);
    if (track) {
      // where the points of the undistributed mesh went
      std::map<V2, PetscInt> at;
      for (std::size_t i = 0; i < ref.verts.size(); i++)
        at[ref.verts[i]] = static_cast<PetscInt>(ref.cells.size() + i);
      for (std::size_t c = 0; c < ref.cells.size(); c++)
        VH_CHECK(c < points.size() && points[c] == gid[c], std::string(key) + "/points-map", str << " cell " << c << " of the undistributed mesh is point " << gid[c] << " the map says " << (c < points.size() ? points[c] : -2));
      PetscInt s, e;
      PETSCCHK(DMPlexGetDepthStratum(dm, 0, &s, &e));
      for (PetscInt p = s; p < e; p++) {
        std::vector<std::vector<REAL>> vs;
        mesh->dmh->get_generic_vertices(p, vs);
        if (!VH_CHECK(vs.size() == 1 && at.count(V2{vs[0].at(0), vs[0].at(1)}), std::string(key) + "/vertex", str << " a vertex that is not in the mesh"))
          continue;
        const PetscInt g = mesh->dmh->get_point_global_index(p), o = at[V2{vs[0].at(0), vs[0].at(1)}];
        VH_CHECK(o < static_cast<PetscInt>(points.size()) && points[o] == g, std::string(key) + "/points-map", str << " vertex " << o << " of the undistributed mesh is point " << g << " the map says " << (o < static_cast<PetscInt>(points.size()) ? points[o] : -2));
        vh::count("points_mapped");
      }
    }
    vh::count("plex_cells", nloc);
    if (mesh->dmh_halo)
      vh::count("halo_cells", mesh->dmh_halo->get_cell_count());
  }
  void free() {
    if (A)
      A->free();
    A.reset();
    target->free();
    mesh->free();
    mapper.reset();
    domain.reset();
    mesh.reset();
    PETSCCHK(DMDestroy(&dm));
  }
  bool ok() { return !vh::any_violation(); }
};

// The cells of the payload are what the ids say.
void check_payload(ParticleGroupSharedPtr A, const std::vector<DatSpec> &dats, const char *key, const std::string &str) {
  for (int cx = 0; cx < A->domain->mesh->get_cell_count(); cx++) {
    auto ID = A->get_cell(Sym<INT>("ID"), cx);
    for (auto &d : dats) {
      CellData<REAL> R;
      CellData<INT> I;
      if (d.is_real)
        R = A->get_cell(Sym<REAL>(d.name), cx);
      else
        I = A->get_cell(Sym<INT>(d.name), cx);
      for (int l = 0; l < ID->nrow; l++)
        for (int k = 0; k < d.ncomp; k++) {
          const bool good = d.is_real ? R->at(l, k) == pay_real(ID->at(l, 0), name_hash(d.name), k) : I->at(l, k) == pay_int(ID->at(l, 0), name_hash(d.name), k);
          VH_CHECK(good, std::string(key) + "/payload", str << " property " << d.name << " component " << k << " of particle " << ID->at(l, 0) << " changed");
        }
    }
  }
}

// ---------------------------------------------------------------- P28
void geometry(Case &c, Plex &P) {
  auto &m = P.ref;
  auto dmh = P.mesh->dmh;
  const double tol = 1e-10 * m.h * m.h + 1e-13 * m.scale * m.scale;
  VH_CHECK(P.mesh->get_ndim() == 2, "plex/ndim", P.str << " has " << P.mesh->get_ndim() << " dimensions");
  VH_CHECK(dmh->get_global_cell_count() == static_cast<int>(m.cells.size()), "plex/global-count", P.str << " reports " << dmh->get_global_cell_count() << " cells");
  double total = 0;
  for (std::size_t i = 0; i < m.cells.size(); i++)
    total += m.area(static_cast<int>(i));
  VH_CHECK(std::abs(dmh->get_volume() - total) <= tol * m.cells.size(), "plex/volume", P.str << " volume " << dmh->get_volume() << " expected " << total);
  std::set<std::int64_t> gids(P.gid.begin(), P.gid.end());
  VH_CHECK(gids.size() == P.gid.size(), "plex/global-index", P.str << " cells share global point indices");
  auto owners = PetscInterface::get_map_from_global_cell_points_to_ranks(P.dm);
  for (std::size_t i = 0; i < m.cells.size(); i++) {
    const std::int64_t k = P.gid[i] - owners.first;
    VH_CHECK(k >= 0 && k < static_cast<std::int64_t>(owners.second.size()) && owners.second[k] == P.where[i].first, "plex/owner-map", P.str << " owner of cell " << i << " is wrong in the map from global points");
  }
  for (int l = 0; l < static_cast<int>(P.local.size()); l++) {
    const int r = P.local[l];
    VH_CHECK(std::abs(dmh->get_cell_volume(l) - m.area(r)) <= tol, "plex/cell-volume", P.str << " volume of cell " << r << " is " << dmh->get_cell_volume(l) << " expected " << m.area(r));
    std::vector<REAL> avg(2);
    dmh->get_cell_vertex_average(l, avg);
    auto bb = dmh->get_cell_bounding_box(l);
    V2 lo = {1e300, 1e300}, hi = {-1e300, -1e300}, av = {0, 0};
    for (int v : m.cells[r])
      for (int d = 0; d < 2; d++) {
        lo[d] = std::min(lo[d], m.verts[v][d]);
        hi[d] = std::max(hi[d], m.verts[v][d]);
        av[d] += m.verts[v][d] / m.cells[r].size();
      }
    for (int d = 0; d < 2; d++) {
      VH_CHECK(std::abs(avg[d] - av[d]) <= 1e-12 * m.scale, "plex/average", P.str << " vertex average of cell " << r);
      VH_CHECK(bb->lower(d) == lo[d] && bb->upper(d) == hi[d], "plex/bounding-box", P.str << " bounding box of cell " << r);
    }
    const PetscInt pt = dmh->get_dmplex_cell_index(l);
    VH_CHECK(dmh->get_local_cell_index(pt) == l, "plex/cell-index", P.str << " local cell " << l << " is point " << pt << " which is cell " << dmh->get_local_cell_index(pt));
    VH_CHECK(dmh->get_local_point_from_global_point(dmh->get_point_global_index(pt)) == pt, "plex/point-index", P.str << " point " << pt << " is not found by its global index");
    vh::count("cell_geometries");
  }
  {
    V2 lo = {1e300, 1e300}, hi = {-1e300, -1e300};
    for (int r : P.local)
      for (int v : m.cells[r])
        for (int d = 0; d < 2; d++) {
          lo[d] = std::min(lo[d], m.verts[v][d]);
          hi[d] = std::max(hi[d], m.verts[v][d]);
        }
    auto bb = dmh->get_bounding_box();
    for (int d = 0; d < 2; d++)
      VH_CHECK(bb->lower(d) == lo[d] && bb->upper(d) == hi[d], "plex/local-bounding-box", P.str << " bounding box of the local cells in dimension " << d << " is " << bb->lower(d) << " to " << bb->upper(d) << " expected " << lo[d] << " to " << hi[d]);
    VH_CHECK(P.mesh->get_cell_count() == static_cast<int>(P.local.size()), "plex/count", P.str << " reports " << P.mesh->get_cell_count() << " cells of " << P.local.size());
    vh::count("local_bounding_boxes");
  }
  VH_CHECK(P.mesh->validate_halos(false), "plex/halos", P.str << " halo cells differ from the cells they copy");
  // points against cells
  for (int i = 0; i < 30; i++) {
    const int r = c.lrng.range(0, static_cast<int>(m.cells.size()) - 1);
    const V2 p = m.point(c.lrng, r);
    std::vector<PetscScalar> q = {p[0], p[1]};
    for (int l = 0; l < static_cast<int>(P.local.size()); l++) {
      const double in = m.inside(P.local[l], p);
      bool vertex = false;
      for (int v : m.cells[P.local[l]])
        vertex = vertex || m.verts[v] == p;
      if (!vertex && std::abs(in) < 1e-10 * m.scale)
        continue;
      VH_CHECK(dmh->cell_contains_point(l, q) == (vertex || in > 0), "plex/contains", P.str << " point " << p[0] << "," << p[1] << (vertex || in > 0 ? " not" : "") << " contained in cell " << P.local[l]);
      vh::count("point_in_cell");
    }
  }
  double sub[3];
  P.mesh->get_point_in_subdomain(sub);
  double best = -1e300;
  for (int r : P.local)
    best = std::max(best, m.inside(r, {sub[0], sub[1]}));
  VH_CHECK(best > 0, "plex/subdomain", P.str << " point in the sub domain is outside of it");
  // positions in cells
  std::mt19937 gen(static_cast<unsigned>(c.lrng.u64()));
  std::vector<std::vector<double>> pos;
  std::vector<int> cells;
  const int npc = c.rng.range(0, 4);
  const bool dens = c.rng.chance(0.4);
  const double nd = npc / (m.h * m.h);
  if (dens)
    PetscInterface::uniform_density_within_dmplex_cells(P.mesh, nd, pos, cells, &gen);
  else
    PetscInterface::uniform_within_dmplex_cells(P.mesh, npc, pos, cells, &gen);
  std::vector<int> n(P.local.size(), 0);
  for (std::size_t i = 0; i < cells.size(); i++) {
    n.at(cells[i])++;
    VH_CHECK(m.inside(P.local.at(cells[i]), {pos[0][i], pos[1][i]}) > -1e-10 * m.scale, "plex/uniform", P.str << " created position is outside of its cell");
  }
  for (std::size_t l = 0; l < n.size(); l++) {
    const double want = dens ? nd * m.area(P.local[l]) : npc;
    VH_CHECK(std::abs(n[l] - want) <= (dens ? 0.5 + 1e-9 : 0.0), "plex/uniform-count", P.str << " cell " << P.local[l] << " received " << n[l] << " positions, expected " << want);
  }
  vh::count("positions_created", cells.size());
}

void mapping(Case &c, Plex &P) {
  auto &m = P.ref;
  const int steps = c.rng.range(1, 4);
  auto dats = World::random_dats(c.rng, 3);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<REAL>("T"), 2 * steps)};
  for (auto &x : dats) {
    if (x.is_real)
      spec.push(ParticleProp(Sym<REAL>(x.name), x.ncomp));
    else
      spec.push(ParticleProp(Sym<INT>(x.name), x.ncomp));
  }
  P.A = std::make_shared<ParticleGroup>(P.domain, spec, P.target);
  const int n = c.lrng.range(0, 80);
  const std::int64_t id0 = 100000ll * (P.rk + 1);
  const int nc = static_cast<int>(m.cells.size());
  {
    ParticleSet ps(n, spec);
    for (int i = 0; i < n; i++) {
      for (int s = 0; s < steps; s++) {
        V2 p = m.point(c.lrng, c.lrng.range(0, nc - 1));
        if (!P.claimed(p))
          p = m.point(c.lrng, c.lrng.range(0, nc - 1), false);
        for (int d = 0; d < 2; d++)
          ps[Sym<REAL>("T")][i][2 * s + d] = p[d];
      }
      for (int d = 0; d < 2; d++)
        ps[Sym<REAL>("P")][i][d] = ps[Sym<REAL>("T")][i][d];
      ps[Sym<INT>("CELL_ID")][i][0] = c.lrng.below(P.local.size());
      World::payload_dats(ps, i, id0 + i, dats);
    }
    P.A->add_particles_local(ps);
  }
  std::vector<std::int64_t> ns = {n};
  auto counts = vh::allgather(ns);
  for (int s = 0; s < steps; s++) {
    const int off = 2 * s;
    particle_loop(
        "set", P.A,
        [=](auto X, auto T) {
          X.at(0) = T.at(off);
          X.at(1) = T.at(off + 1);
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("T")))
        ->execute();
    P.A->hybrid_move();
    P.A->cell_move();
    std::vector<std::int64_t> mine;
    for (int cx = 0; cx < static_cast<int>(P.local.size()); cx++) {
      auto ID = P.A->get_cell(Sym<INT>("ID"), cx);
      auto X = P.A->get_cell(Sym<REAL>("P"), cx);
      auto T = P.A->get_cell(Sym<REAL>("T"), cx);
      auto C = P.A->get_cell(Sym<INT>("CELL_ID"), cx);
      for (int l = 0; l < ID->nrow; l++) {
        mine.push_back(ID->at(l, 0));
        const V2 p = {X->at(l, 0), X->at(l, 1)};
        VH_CHECK(p[0] == T->at(l, off) && p[1] == T->at(l, off + 1), "map/position", P.str << " particle " << ID->at(l, 0) << " changed its position");
        VH_CHECK(C->at(l, 0) == cx, "map/cell-id", P.str << " particle " << ID->at(l, 0) << " in cell " << cx << " names cell " << C->at(l, 0));
        const double in = m.inside(P.local[cx], p);
        VH_CHECK(in > -1e-11 * m.scale, "map/cell", P.str << " particle at " << p[0] << "," << p[1] << " is in cell " << P.local[cx] << " which is " << -in << " away");
        vh::count("mapped_particles");
        if (ID->at(l, 0) / 100000 - 1 != P.rk)
          vh::count("mapped_between_ranks");
      }
    }
    auto all = vh::allgather(mine);
    std::map<std::int64_t, int> seen;
    for (auto &x : all)
      for (auto i : x)
        seen[i]++;
    std::int64_t want = 0;
    for (int k = 0; k < P.sz; k++) {
      want += counts[k][0];
      for (int i = 0; i < counts[k][0]; i++)
        VH_CHECK(seen[100000ll * (k + 1) + i] == 1, "map/conserve", P.str << " particle " << 100000ll * (k + 1) + i << " is stored " << seen[100000ll * (k + 1) + i] << " times after the move");
    }
    if (!P.ok())
      break;
    check_payload(P.A, dats, "map", P.str);
  }
}

void sc_plex(Case &c) {
  Plex P(c.rng, "plex");
  c.desc << P.str;
  if (P.ok()) {
    geometry(c, P);
    mapping(c, P);
  }
  c.nontrivial = true;
  P.free();
}

// three dimensional boxes, hexahedra and tetrahedra
void sc_plex3(Case &c) {
  petsc_once();
  int rk, sz;
  MPI_Comm_rank(vh::world_comm(), &rk);
  MPI_Comm_size(vh::world_comm(), &sz);
  PetscInt faces[3];
  PetscReal lo[3], hi[3];
  double volume = 1;
  for (int d = 0; d < 3; d++) {
    faces[d] = c.rng.range(d == 0 ? sz : 1, d == 0 ? sz + 2 : 3);
    lo[d] = c.rng.pick(std::vector<double>{0.0, -1.0, 0.3});
    hi[d] = lo[d] + faces[d] * c.rng.pick(std::vector<double>{1.0, 0.5, 0.3});
    volume *= hi[d] - lo[d];
  }
  const bool simplex = c.rng.chance(0.5);
  DM dm;
  if (simplex) { // six tetrahedra around the diagonal of each box
    std::vector<PetscInt> tets;
    std::vector<PetscReal> coords;
    if (rk == 0) {
      auto V = [&](int i, int j, int k) { return static_cast<PetscInt>((k * (faces[1] + 1) + j) * (faces[0] + 1) + i); };
      for (int k = 0; k <= faces[2]; k++)
        for (int j = 0; j <= faces[1]; j++)
          for (int i = 0; i <= faces[0]; i++) {
            const int ijk[3] = {i, j, k};
            for (int d = 0; d < 3; d++)
              coords.push_back(lo[d] + (hi[d] - lo[d]) * ijk[d] / faces[d]);
          }
      const int perms[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
      for (int k = 0; k < faces[2]; k++)
        for (int j = 0; j < faces[1]; j++)
          for (int i = 0; i < faces[0]; i++)
            for (int q = 0; q < 6; q++) {
              int at[3] = {i, j, k};
              PetscInt t[4];
              t[0] = V(at[0], at[1], at[2]);
              for (int e = 0; e < 3; e++) {
                at[perms[q][e]]++;
                t[e + 1] = V(at[0], at[1], at[2]);
              }
              if (q >= 3)
                std::swap(t[1], t[2]);
              tets.insert(tets.end(), t, t + 4);
            }
    }
    const PetscInt ntet = static_cast<PetscInt>(tets.size() / 4), nvert = static_cast<PetscInt>(coords.size() / 3);
    tets.reserve(1), coords.reserve(1);
    PETSCCHK(DMPlexCreateFromCellListPetsc(vh::world_comm(), 3, ntet, nvert, 4, PETSC_TRUE, tets.data(), 3, coords.data(), &dm));
  } else
    PETSCCHK(DMPlexCreateBoxMesh(vh::world_comm(), 3, PETSC_FALSE, faces, lo, hi, nullptr, PETSC_TRUE, &dm));
  PetscPartitioner part;
  PETSCCHK(DMPlexGetPartitioner(dm, &part));
  PETSCCHK(PetscPartitionerSetType(part, PETSCPARTITIONERSIMPLE));
  PetscInterface::generic_distribute(&dm, vh::world_comm(), 0);
  auto mesh = std::make_shared<PetscInterface::DMPlexInterface>(dm, 0, vh::world_comm());
  auto target = std::make_shared<SYCLTarget>(device_kind(), mesh->get_comm());
  auto mapper = std::make_shared<PetscInterface::DMPlexLocalMapper>(target, mesh);
  auto domain = std::make_shared<Domain>(mesh, mapper);
  std::ostringstream s;
  s << "box " << faces[0] << "x" << faces[1] << "x" << faces[2] << (simplex ? " tetrahedra" : " hexahedra") << " ranks " << sz;
  const std::string str = s.str();
  c.desc << str;
  VH_CHECK(std::abs(mesh->dmh->get_volume() - volume) < 1e-10 * volume, "plex3/volume", str << " volume " << mesh->dmh->get_volume() << " expected " << volume);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 3, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<REAL>("T"), 6)};
  auto A = std::make_shared<ParticleGroup>(domain, spec, target);
  const int n = c.lrng.range(0, 40);
  {
    ParticleSet ps(n, spec);
    for (int i = 0; i < n; i++) {
      for (int k = 0; k < 6; k++)
        ps[Sym<REAL>("T")][i][k] = lo[k % 3] + (hi[k % 3] - lo[k % 3]) * c.lrng.real(0.001, 0.999);
      for (int d = 0; d < 3; d++)
        ps[Sym<REAL>("P")][i][d] = ps[Sym<REAL>("T")][i][d];
      ps[Sym<INT>("CELL_ID")][i][0] = c.lrng.below(mesh->get_cell_count());
      ps[Sym<INT>("ID")][i][0] = 100000ll * (rk + 1) + i;
    }
    A->add_particles_local(ps);
  }
  std::vector<std::int64_t> ns = {n};
  auto counts = vh::allgather(ns);
  for (int step = 0; step < 2; step++) {
    const int off = 3 * step;
    particle_loop(
        "set", A,
        [=](auto X, auto T) {
          for (int d = 0; d < 3; d++)
            X.at(d) = T.at(off + d);
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("T")))
        ->execute();
    A->hybrid_move();
    A->cell_move();
    std::vector<std::int64_t> mine;
    for (int cx = 0; cx < mesh->get_cell_count(); cx++) {
      auto ID = A->get_cell(Sym<INT>("ID"), cx);
      auto X = A->get_cell(Sym<REAL>("P"), cx);
      std::vector<std::vector<REAL>> vs;
      mesh->dmh->get_cell_vertices(cx, vs);
      for (int l = 0; l < ID->nrow; l++) {
        mine.push_back(ID->at(l, 0));
        double worst = 1e300;
        if (simplex) { // barycentric coordinates
          auto det = [&](const double *a, const double *b, const double *q) {
            return a[0] * (b[1] * q[2] - b[2] * q[1]) - a[1] * (b[0] * q[2] - b[2] * q[0]) + a[2] * (b[0] * q[1] - b[1] * q[0]);
          };
          double e[3][3], p[3];
          for (int d = 0; d < 3; d++) {
            for (int k = 0; k < 3; k++)
              e[k][d] = vs[k + 1][d] - vs[0][d];
            p[d] = X->at(l, d) - vs[0][d];
          }
          const double D = det(e[0], e[1], e[2]);
          const double a = det(p, e[1], e[2]) / D, b = det(e[0], p, e[2]) / D, g = det(e[0], e[1], p) / D;
          worst = std::min(std::min(a, b), std::min(g, 1.0 - a - b - g));
        } else
          for (int d = 0; d < 3; d++) {
            double l0 = 1e300, h0 = -1e300;
            for (auto &v : vs) {
              l0 = std::min(l0, v[d]);
              h0 = std::max(h0, v[d]);
            }
            worst = std::min(worst, std::min(X->at(l, d) - l0, h0 - X->at(l, d)));
          }
        VH_CHECK(worst > -1e-9, "plex3/cell", str << " particle at " << X->at(l, 0) << "," << X->at(l, 1) << "," << X->at(l, 2) << " is outside of its cell by " << -worst);
        vh::count("mapped_particles_3d");
      }
    }
    auto all = vh::allgather(mine);
    std::map<std::int64_t, int> seen;
    for (auto &x : all)
      for (auto i : x)
        seen[i]++;
    for (int k = 0; k < sz; k++)
      for (int i = 0; i < counts[k][0]; i++)
        VH_CHECK(seen[100000ll * (k + 1) + i] == 1, "plex3/conserve", str << " particle stored " << seen[100000ll * (k + 1) + i] << " times after the move");
    if (vh::any_violation())
      break;
  }
  c.nontrivial = true;
  A->free();
  target->free();
  mesh->free();
  PETSCCHK(DMDestroy(&dm));
}

// ---------------------------------------------------------------- P32
struct Cand {
  int edge;
  double t, sn;
  bool definite;
};

// crossings of a trajectory with the edges of the groups
std::vector<Cand> crossings(const Ref &m, const std::set<int> &labels, const V2 &s, const V2 &e, double tol) {
  std::vector<Cand> out;
  const V2 d = sub(e, s);
  const double L = len(d);
  if (L == 0)
    return out;
  for (std::size_t i = 0; i < m.edges.size(); i++) {
    auto &ed = m.edges[i];
    if (!labels.count(ed.label))
      continue;
    const V2 a = m.verts[ed.a], w = sub(m.verts[ed.b], a);
    const double W = len(w), cr = cross(d, w), sn = std::abs(cr) / (L * W);
    const V2 as = sub(a, s);
    if (sn < 1e-7) { // parallel: nothing is demanded
      if (std::abs(cross(as, d)) / L < 1e-6 * (m.scale + L))
        out.push_back({static_cast<int>(i), 0.0, sn, false});
      continue;
    }
    const double t = cross(as, w) / cr, u = cross(as, d) / cr;
    const double eps = 1e-13 * (m.scale + L) / sn;
    const double du = eps / W * 10 + 1e-12, dt = eps / L * 10 + 1e-12;
    const double tt = tol / (L * std::max(0.0, sn)) * 4 + tol / L * 4 + dt; // pads of the trajectory are lengths
    if (u < -(tol + du) || u > 1 + tol + du || t < -tt || t > 1 + tt)
      continue;
    const double ul = tol > 20 * du ? -0.5 * tol : du;
    const bool def = u >= ul && u <= 1 - ul && t >= dt && t <= 1 - dt;
    out.push_back({static_cast<int>(i), t, sn, def});
  }
  return out;
}

void sc_bound(Case &c) {
  Plex P(c.rng, "plexb");
  c.desc << P.str;
  c.nontrivial = true;
  if (!P.ok()) {
    P.free();
    return;
  }
  auto &m = P.ref;
  // global indices of the edges
  {
    std::map<std::pair<V2, V2>, int> by;
    for (std::size_t i = 0; i < m.edges.size(); i++) {
      V2 a = m.verts[m.edges[i].a], b = m.verts[m.edges[i].b];
      by[std::minmax(a, b)] = static_cast<int>(i);
    }
    auto fs = P.mesh->dmh->get_face_sets();
    std::vector<std::int64_t> mine;
    for (auto &x : fs)
      for (PetscInt f : x.second) {
        std::vector<std::vector<REAL>> vs;
        P.mesh->dmh->get_generic_vertices(f, vs);
        V2 a = {vs.at(0).at(0), vs.at(0).at(1)}, b = {vs.at(1).at(0), vs.at(1).at(1)};
        auto it = by.find(std::minmax(a, b));
        if (it == by.end()) {
          VH_CHECK(x.first == -1, "bound/label-interior", P.str << " an interior edge has label " << x.first);
          continue;
        }
        VH_CHECK(x.first == m.edges[it->second].label, "bound/label", P.str << " edge has label " << x.first << " expected " << m.edges[it->second].label);
        mine.push_back(it->second);
        mine.push_back(P.mesh->dmh->get_point_global_index(f));
      }
    for (auto &x : vh::allgather(mine))
      for (std::size_t i = 0; i + 1 < x.size(); i += 2) {
        auto &g = m.edges.at(x[i]).gid;
        VH_CHECK(g < 0 || g == x[i + 1], "bound/global-index", P.str << " an edge has global indices " << g << " and " << x[i + 1]);
        g = static_cast<PetscInt>(x[i + 1]);
      }
    for (auto &e : m.edges)
      VH_CHECK(e.gid >= 0, "bound/edge-missing", P.str << " a boundary edge is on no rank");
  }
  std::set<int> labels;
  for (auto &e : m.edges)
    if (e.label >= 0)
      labels.insert(e.label);
  std::map<PetscInt, std::vector<PetscInt>> groups;
  std::map<int, PetscInt> of_label;
  std::set<int> used;
  {
    std::vector<PetscInt> gl;
    const int ng = c.rng.range(1, 3);
    while (static_cast<int>(gl.size()) < ng) {
      const PetscInt g = c.rng.chance(0.7) ? c.rng.range(0, 9) : c.rng.range(0, 2000000000);
      if (!std::count(gl.begin(), gl.end(), g))
        gl.push_back(g);
    }
    for (int l : labels)
      if (!c.rng.chance(0.15)) {
        const PetscInt g = c.rng.pick(gl);
        groups[g].push_back(l);
        of_label[l] = g;
        used.insert(l);
      }
    if (groups.empty() || c.rng.chance(0.1))
      groups[gl[0]].push_back(99 + 2000000001); // a label no edge has
  }
  const double tol = c.rng.pick(std::vector<double>{0.0, 0.0, 1e-10, 1e-6});
  const bool named = c.rng.chance(0.4);
  auto b2d = named ? std::make_shared<PetscInterface::BoundaryInteraction2D>(P.target, P.mesh, groups, tol, Sym<REAL>("BEFORE"))
                   : std::make_shared<PetscInterface::BoundaryInteraction2D>(P.target, P.mesh, groups, tol);
  const int nd = 2;
  auto dats = World::random_dats(c.rng, 2);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1)};
  for (auto &x : dats) {
    if (x.is_real)
      spec.push(ParticleProp(Sym<REAL>(x.name), x.ncomp));
    else
      spec.push(ParticleProp(Sym<INT>(x.name), x.ncomp));
  }
  for (const char *s : {"S0", "E0", "V", "IP", "IN"})
    spec.push(ParticleProp(Sym<REAL>(s), nd));
  spec.push(ParticleProp(Sym<REAL>("TSP"), 2));
  spec.push(ParticleProp(Sym<INT>("IM"), 4));
  P.A = std::make_shared<ParticleGroup>(P.domain, spec, P.target);
  auto A = P.A;
  struct Part {
    V2 s, e, v;
  };
  const int n = c.lrng.range(0, 100);
  std::vector<Part> part(n);
  const std::int64_t id0 = 100000ll * (P.rk + 1);
  const double dt0 = 0.25, dt1 = 0.75;
  {
    ParticleSet ps(n, spec);
    for (int i = 0; i < n; i++) {
      auto &p = part[i];
      const int cell = static_cast<int>(c.lrng.below(P.local.size()));
      p.s = m.point(c.lrng, P.local[cell], false);
      const double L = m.h * c.lrng.pick(std::vector<double>{0.01, 0.5, 2.0, 10.0, 200.0});
      for (int d = 0; d < 2; d++)
        p.e[d] = p.s[d] + c.lrng.real(-1, 1) * L;
      const int k = c.lrng.range(0, 9);
      if (k == 0) // along an axis
        p.e[0] = p.s[0];
      else if (k == 1)
        p.e[1] = p.s[1];
      else if (k == 2 || k == 3) { // through a vertex
        const V2 v = m.verts[c.lrng.below(m.verts.size())];
        const double f = c.lrng.real(1.1, 3.0);
        for (int d = 0; d < 2; d++)
          p.e[d] = p.s[d] + f * (v[d] - p.s[d]);
      } else if (k == 4 && !m.edges.empty()) { // through the middle of an edge
        auto &ed = m.edges[c.lrng.below(m.edges.size())];
        const double f = c.lrng.real(1.1, 3.0), u = c.lrng.real();
        for (int d = 0; d < 2; d++)
          p.e[d] = p.s[d] + f * (m.verts[ed.a][d] + u * (m.verts[ed.b][d] - m.verts[ed.a][d]) - p.s[d]);
      } else if (k == 5)
        p.e = p.s;
      for (int d = 0; d < 2; d++) {
        p.v[d] = c.lrng.real(-2, 2);
        ps[Sym<REAL>("P")][i][d] = p.s[d];
        ps[Sym<REAL>("S0")][i][d] = p.s[d];
        ps[Sym<REAL>("E0")][i][d] = p.e[d];
        ps[Sym<REAL>("V")][i][d] = p.v[d];
        ps[Sym<REAL>("IP")][i][d] = -77;
        ps[Sym<REAL>("IN")][i][d] = -77;
      }
      ps[Sym<REAL>("TSP")][i][0] = dt0 + dt1;
      ps[Sym<REAL>("TSP")][i][1] = dt1;
      for (int q = 0; q < 4; q++)
        ps[Sym<INT>("IM")][i][q] = 0;
      ps[Sym<INT>("CELL_ID")][i][0] = cell;
      World::payload_dats(ps, i, id0 + i, dats);
    }
    A->add_particles_local(ps);
  }
  const int mode = c.rng.range(0, 2);
  const INT mod = mode == 0 ? 1 : c.rng.range(2, 3);
  auto inset = [&](std::int64_t id) { return id % mod == 0; };
  ParticleSubGroupSharedPtr sg;
  if (mode == 1)
    sg = particle_sub_group(A, [=](auto ID) { return ID.at(0) % mod == 0; }, Access::read(Sym<INT>("ID")));
  else if (mode == 2)
    sg = static_particle_sub_group(A, [=](auto ID) { return ID.at(0) % mod == 0; }, Access::read(Sym<INT>("ID")));
  auto copy = [&](const char *dst, const char *src) {
    particle_loop(
        "copy", A,
        [=](auto D, auto S) {
          D.at(0) = S.at(0);
          D.at(1) = S.at(1);
        },
        Access::write(Sym<REAL>(dst)), Access::read(Sym<REAL>(src)))
        ->execute();
  };
  std::map<PetscInt, ParticleSubGroupSharedPtr> res;
  const int rounds = c.rng.range(1, 3);
  const std::string str = P.str + " groups " + std::to_string(groups.size()) + " tol " + (tol == 0 ? "0" : tol < 1e-8 ? "1e-10" : "1e-6") + " mode " + std::to_string(mode);
  for (int round = 0; round < rounds; round++) {
    res.clear();
    copy("P", round + 1 == rounds ? "S0" : "E0");
    if (mode == 0)
      b2d->pre_integration(A);
    else
      b2d->pre_integration(sg);
    copy("P", round + 1 == rounds ? "E0" : "S0"); // other rounds fly backwards
    res = mode == 0 ? b2d->post_integration(A) : b2d->post_integration(sg);
    std::vector<PetscInt> k1, k2;
    for (auto &x : res)
      k1.push_back(x.first);
    for (auto &x : groups)
      k2.push_back(x.first);
    VH_CHECK(k1 == k2, "bound/groups", str << " returned groups " << vh::str(k1) << " expected " << vh::str(k2));
  }
  if (named && rounds)
    VH_CHECK(A->contains_dat(Sym<REAL>("BEFORE")) && A->get_dat(Sym<REAL>("BEFORE"))->ncomp >= nd && b2d->previous_position_sym.name == "BEFORE", "bound/previous-position", str << " the named property does not hold the previous positions");
  std::map<int, int> cnt;
  for (auto &x : res) {
    const INT label = x.first;
    cnt[x.first] = x.second->get_npart_local();
    // what the lookup of normals finds for the elements that were hit
    auto nm = b2d->get_device_normal_mapper();
    auto bad = std::make_shared<LocalArray<INT>>(P.target, 2, 0);
    particle_loop(
        "normals", x.second,
        [=](auto BN, auto BM, auto L) {
          REAL *q = nullptr;
          if (!nm.get(BM.at_ephemeral(1), &q))
            L.fetch_add(0, 1);
          else if (!(sycl::fabs(q[0] - BN.at_ephemeral(0)) + sycl::fabs(q[1] - BN.at_ephemeral(1)) < 1e-10))
            L.fetch_add(1, 1);
        },
        Access::read(BoundaryInteractionSpecification::intersection_normal),
        Access::read(BoundaryInteractionSpecification::intersection_metadata), Access::add(bad))
        ->execute();
    VH_CHECK(bad->get()[0] == 0, "bound/normal-lookup", str << " no normal for " << bad->get()[0] << " of the hit elements");
    VH_CHECK(bad->get()[1] == 0, "bound/normal-lookup", str << " another normal for " << bad->get()[1] << " of the hit elements");
    vh::count("normals_looked_up", cnt[x.first]);
    particle_loop(
        "read", x.second,
        [=](auto IP, auto IN, auto IM, auto BP, auto BN, auto BM) {
          IM.at(0) += 1;
          IM.at(1) = label;
          IM.at(2) = BM.at_ephemeral(0);
          IM.at(3) = BM.at_ephemeral(1);
          for (int d = 0; d < 2; d++) {
            IP.at(d) = BP.at_ephemeral(d);
            IN.at(d) = BN.at_ephemeral(d);
          }
        },
        Access::write(Sym<REAL>("IP")), Access::write(Sym<REAL>("IN")), Access::write(Sym<INT>("IM")),
        Access::read(BoundaryInteractionSpecification::intersection_point),
        Access::read(BoundaryInteractionSpecification::intersection_normal),
        Access::read(BoundaryInteractionSpecification::intersection_metadata))
        ->execute();
  }
  const double rd = c.rng.pick(std::vector<double>{1e-10, 1e-6, 1e-3}) * m.h;
  BoundaryReflection refl(nd, rd);
  BoundaryTruncation trunc(nd, rd);
  std::map<int, int> treated;
  for (auto &x : res) {
    const int t = c.rng.range(0, 2);
    treated[x.first] = t;
    if (t == 1)
      refl.execute(x.second, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"), b2d->previous_position_sym);
    else if (t == 2)
      trunc.execute(x.second, Sym<REAL>("P"), Sym<REAL>("TSP"), b2d->previous_position_sym);
  }
  std::map<int, int> seen;
  for (int cx = 0; cx < static_cast<int>(P.local.size()); cx++) {
    auto ID = A->get_cell(Sym<INT>("ID"), cx);
    auto X = A->get_cell(Sym<REAL>("P"), cx);
    auto V = A->get_cell(Sym<REAL>("V"), cx);
    auto T = A->get_cell(Sym<REAL>("TSP"), cx);
    auto IP = A->get_cell(Sym<REAL>("IP"), cx);
    auto IN = A->get_cell(Sym<REAL>("IN"), cx);
    auto IM = A->get_cell(Sym<INT>("IM"), cx);
    for (int l = 0; l < ID->nrow; l++) {
      const std::int64_t id = ID->at(l, 0);
      auto &p = part.at(id - id0);
      std::vector<Cand> cand;
      if (inset(id))
        cand = crossings(m, used, p.s, p.e, tol);
      double tdef = 2;
      for (auto &x : cand)
        if (x.definite)
          tdef = std::min(tdef, x.t);
      std::ostringstream who;
      who.precision(17);
      who << str << " particle from " << p.s[0] << "," << p.s[1] << " to " << p.e[0] << "," << p.e[1];
      const bool got = IM->at(l, 0) > 0;
      const bool axis = p.s[0] == p.e[0] || p.s[1] == p.e[1];
      VH_CHECK(IM->at(l, 0) <= 1, "bound/twice", who.str() << " is in " << IM->at(l, 0) << " groups");
      if (got)
        VH_CHECK(!cand.empty(), "bound/extra", who.str() << " reported in group " << IM->at(l, 1) << " but crosses no edge of the groups");
      else
        VH_CHECK(tdef > 1.5, axis ? "bound/missed-axis" : "bound/missed", who.str() << " crosses an edge of the groups at " << tdef << " of its path but is not reported");
      vh::count("plex_trajectories");
      V2 wantP = p.e, wantV = p.v;
      double wt1 = dt1, wt0 = dt0 + dt1, tolP = 0, tolT = 0, tolV = 0;
      bool changed = false;
      if (got && !cand.empty()) {
        const int g = static_cast<int>(IM->at(l, 1));
        seen[g]++;
        const Cand *hit = nullptr;
        const double L = len(sub(p.e, p.s));
        for (auto &x : cand)
          if (m.edges[x.edge].gid == IM->at(l, 3))
            hit = &x;
        if (VH_CHECK(hit && of_label[m.edges[hit->edge].label] == g, "bound/edge", who.str() << " reported on edge " << IM->at(l, 3) << " of group " << g << (hit ? " which belongs to another group" : " which it does not cross"))) {
          auto &ed = m.edges[hit->edge];
          const double slack = 1e-11 * (m.scale + L) / L / std::max(hit->sn, 1e-7) + 10 * tol / L / std::max(hit->sn, 1e-7);
          VH_CHECK(hit->t <= tdef + slack, "bound/first", who.str() << " reported at " << hit->t << " of its path, the first crossing is at " << tdef);
          VH_CHECK(IM->at(l, 2) == g, "bound/metadata", who.str() << " group in the metadata is " << IM->at(l, 2) << " expected " << g);
          const V2 w = sub(m.verts[ed.b], m.verts[ed.a]), nn = {IN->at(l, 0), IN->at(l, 1)};
          VH_CHECK(std::abs(len(nn) - 1) < 1e-12 && std::abs(nn[0] * w[0] + nn[1] * w[1]) < 1e-11 * len(w) * m.scale / std::min(1.0, len(w)), "bound/normal", who.str() << " normal " << nn[0] << "," << nn[1] << " of edge " << IM->at(l, 3));
          vh::count("plex_intersections");
          if (axis)
            vh::count("plex_axis_intersections");
          if (hit->sn > 1e-6) {
            const V2 pt = {p.s[0] + hit->t * (p.e[0] - p.s[0]), p.s[1] + hit->t * (p.e[1] - p.s[1])};
            const double tp = 1e-11 * (m.scale + L) / hit->sn;
            for (int d = 0; d < 2; d++)
              VH_CHECK(std::abs(IP->at(l, d) - pt[d]) <= tp, "bound/point", who.str() << " intersection coordinate " << d << " is " << IP->at(l, d) << " expected " << pt[d]);
          }
          if (treated[g]) {
            changed = true;
            const V2 ip = {IP->at(l, 0), IP->at(l, 1)}; // checked above
            const double l1 = len(sub(p.s, ip));
            for (int d = 0; d < 2; d++)
              wantP[d] = l1 <= rd ? p.s[d] : ip[d] + (p.s[d] - ip[d]) * (rd / l1);
            tolP = 1e-10 * (m.scale + L) + 1e-7 * rd + (l1 < 2 * rd ? rd : 0);
            wt1 = dt1 * std::min(1.0, l1 / L);
            wt0 = dt0 + wt1;
            tolT = 1e-9 * (1 + m.scale / L);
            if (treated[g] == 1) {
              const double vn = p.v[0] * nn[0] + p.v[1] * nn[1];
              for (int d = 0; d < 2; d++)
                wantV[d] -= 2 * vn * nn[d];
              tolV = 1e-12;
              vh::count("plex_reflections");
            } else
              vh::count("plex_truncations");
          }
        }
      }
      const std::string k = changed ? "bound/treated" : "bound/untouched";
      for (int d = 0; d < 2; d++) {
        VH_CHECK(std::abs(X->at(l, d) - wantP[d]) <= tolP, k + "-position", who.str() << " position " << d << " is " << X->at(l, d) << " expected " << wantP[d] << " reset distance " << rd);
        VH_CHECK(std::abs(V->at(l, d) - wantV[d]) <= tolV, k + "-velocity", who.str() << " velocity " << d << " is " << V->at(l, d) << " expected " << wantV[d]);
      }
      VH_CHECK(std::abs(T->at(l, 0) - wt0) <= tolT && std::abs(T->at(l, 1) - wt1) <= tolT, k + "-time", who.str() << " time step proportions " << T->at(l, 0) << "," << T->at(l, 1) << " expected " << wt0 << "," << wt1);
    }
  }
  for (auto &x : res)
    VH_CHECK(cnt[x.first] == seen[x.first], "bound/count", str << " group " << x.first << " has " << cnt[x.first] << " particles, loops see " << seen[x.first]);
  check_payload(A, dats, "bound", str);
  res.clear();
  sg.reset();
  b2d->free();
  P.free();
}

// ---------------------------------------------------------------- P27
// values at quadrature points travel to the owners and back
template <typename MAKE> void qpm_roundtrip(Case &c, DomainSharedPtr domain, SYCLTargetSharedPtr target, int nd, MAKE make_point, const std::string &str) {
  auto qpm = std::make_shared<ExternalCommon::QuadraturePointMapper>(target, domain);
  const int n = c.lrng.range(0, 60);
  std::vector<std::array<double, 3>> pts(n);
  qpm->add_points_initialise();
  for (int i = 0; i < n; i++) {
    pts[i] = make_point(c.lrng);
    qpm->add_point(pts[i].data());
  }
  qpm->add_points_finalise();
  VH_CHECK(qpm->points_added(), "qpm/added", str << " points are not reported as added");
  std::vector<double> flat;
  for (auto &p : pts)
    flat.insert(flat.end(), p.begin(), p.end());
  // every point exists exactly once
  std::vector<double> mine;
  for (int cx = 0; cx < domain->mesh->get_cell_count(); cx++) {
    auto X = qpm->particle_group->get_cell(qpm->particle_group->position_dat->sym, cx);
    for (int l = 0; l < X->nrow; l++)
      for (int d = 0; d < nd; d++)
        mine.push_back(X->at(l, d));
  }
  {
    auto want = vh::gather(flat), got = vh::gather(mine);
    if (vh::rank() == 0) {
      std::multiset<std::vector<double>> a, b;
      for (auto &x : want)
        for (std::size_t i = 0; i < x.size(); i += 3)
          a.insert(std::vector<double>(x.begin() + i, x.begin() + i + nd));
      for (auto &x : got)
        for (std::size_t i = 0; i < x.size(); i += nd)
          b.insert(std::vector<double>(x.begin() + i, x.begin() + i + nd));
      VH_CHECK(a == b, "qpm/points", str << " holds " << b.size() << " points, " << a.size() << " were added");
    }
  }
  const int rounds = c.rng.range(1, 4);
  for (int k = 0; k < rounds; k++) {
    const int ncomp = c.rng.range(1, 4);
    std::vector<REAL> in(static_cast<std::size_t>(n) * ncomp), out;
    // a function of the position and a serial number, so that the owner can check the first
    for (int i = 0; i < n; i++)
      for (int j = 0; j < ncomp; j++)
        in[i * ncomp + j] = j % 2 == 0 ? pts[i][0] * (k + 1) + pts[i][1] * 3 + j : pay_real(vh::rank() * 1000 + i, k, j);
    qpm->set(ncomp, in);
    for (int cx = 0; cx < domain->mesh->get_cell_count(); cx++) {
      auto X = qpm->particle_group->get_cell(qpm->particle_group->position_dat->sym, cx);
      auto Q = qpm->particle_group->get_cell(qpm->get_sym(ncomp), cx);
      for (int l = 0; l < X->nrow; l++)
        for (int j = 0; j < ncomp; j += 2)
          VH_CHECK(Q->at(l, j) == X->at(l, 0) * (k + 1) + X->at(l, 1) * 3 + j, "qpm/set", str << " point received the value of another point, component " << j);
    }
    const bool scale = c.rng.chance(0.5);
    if (scale)
      particle_loop(
          qpm->particle_group,
          [=](auto Q) {
            for (int j = 0; j < ncomp; j++)
              Q.at(j) *= 2.0;
          },
          Access::write(qpm->get_sym(ncomp)))
          ->execute();
    out.resize(c.lrng.chance(0.5) ? in.size() : 0);
    qpm->get(ncomp, out);
    if (VH_CHECK(out.size() >= in.size(), "qpm/get-size", str << " returned " << out.size() << " values for " << in.size()))
      for (std::size_t i = 0; i < in.size(); i++)
        VH_CHECK(out[i] == in[i] * (scale ? 2.0 : 1.0), "qpm/get", str << " value " << i % ncomp << " of point " << i / ncomp << " is " << out[i] << " expected " << in[i] * (scale ? 2.0 : 1.0));
    vh::count("quadrature_values", in.size());
  }
  qpm->free();
}

// The cells as they are written to files.
template <typename CHECK> void vtk_data(Plex &P, const std::vector<VTK::UnstructuredCell> &data, CHECK check) {
  auto &m = P.ref;
  if (!VH_CHECK(data.size() == P.local.size(), "vtk/plex-count", P.str << " " << data.size() << " of " << P.local.size() << " cells are written"))
    return;
  for (std::size_t cx = 0; cx < data.size(); cx++) {
    auto &x = data[cx];
    auto &v = m.cells[P.local[cx]];
    const int nv = static_cast<int>(v.size());
    if (!VH_CHECK(x.num_points == nv && static_cast<int>(x.points.size()) == 3 * nv, "vtk/plex-points", P.str << " cell " << P.local[cx] << " has " << x.num_points << " points and " << x.points.size() << " coordinates"))
      continue;
    VH_CHECK(x.cell_type == (nv == 3 ? VTK::triangle : VTK::quadrilateral), "vtk/plex-type", P.str << " cell of " << nv << " vertices has type " << x.cell_type);
    // the vertices in polygon order, from any start and in any direction
    bool match = false;
    for (int st = 0; st < nv; st++)
      for (int dir = -1; dir <= 1; dir += 2) {
        bool all = true;
        for (int p = 0; p < nv; p++) {
          const V2 q = m.verts[v[((st + dir * p) % nv + nv) % nv]];
          all = all && std::abs(q[0] - x.points[3 * p]) <= 1e-12 * (1 + std::abs(q[0])) && std::abs(q[1] - x.points[3 * p + 1]) <= 1e-12 * (1 + std::abs(q[1])) && x.points[3 * p + 2] == 0.0;
        }
        match = match || all;
      }
    VH_CHECK(match, "vtk/plex-polygon", P.str << " cell " << P.local[cx] << " is not written with its vertices in polygon order");
    check(x, static_cast<int>(cx));
    vh::count("vtk_plex_cells");
  }
}

void projections(Case &c, Plex &P) {
  auto &m = P.ref;
  const int nloc = static_cast<int>(P.local.size());
  auto target = P.target;
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1)};
  const int ncomp = c.rng.range(1, 3);
  spec.push(ParticleProp(Sym<REAL>("Q"), ncomp));
  spec.push(ParticleProp(Sym<REAL>("R"), ncomp));
  P.A = std::make_shared<ParticleGroup>(P.domain, spec, target);
  auto A = P.A;
  const int n = c.lrng.range(0, 80);
  const std::int64_t id0 = 100000ll * (P.rk + 1);
  struct Part {
    V2 p;
    double q[3];
    int cell;
  };
  std::vector<Part> part(n);
  {
    ParticleSet ps(n, spec);
    for (int i = 0; i < n; i++) {
      auto &x = part[i];
      x.cell = static_cast<int>(c.lrng.below(nloc));
      x.p = m.point(c.lrng, P.local[x.cell]);
      for (int k = 0; k < ncomp; k++)
        ps[Sym<REAL>("Q")][i][k] = x.q[k] = c.lrng.range(-64, 64) * 0.125;
      for (int d = 0; d < 2; d++)
        ps[Sym<REAL>("P")][i][d] = x.p[d];
      ps[Sym<INT>("CELL_ID")][i][0] = x.cell;
      ps[Sym<INT>("ID")][i][0] = id0 + i;
    }
    A->add_particles_local(ps);
  }
  const int mode = c.rng.range(0, 1);
  const INT mod = mode == 0 ? 1 : 2;
  ParticleSubGroupSharedPtr sg;
  if (mode)
    sg = particle_sub_group(A, [=](auto ID) { return ID.at(0) % mod == 0; }, Access::read(Sym<INT>("ID")));
  auto inset = [&](int i) { return (id0 + i) % mod == 0; };
  std::vector<std::vector<double>> sum(nloc, std::vector<double>(3 * ncomp, 0.0)), mag(nloc, std::vector<double>(ncomp, 0.0));
  for (int i = 0; i < n; i++)
    if (inset(i))
      for (int k = 0; k < ncomp; k++) {
        auto &x = part[i];
        sum[x.cell][k] += x.q[k];
        sum[x.cell][ncomp + k] += x.q[k] * x.p[0];
        sum[x.cell][2 * ncomp + k] += x.q[k] * x.p[1];
        mag[x.cell][k] += std::abs(x.q[k]);
      }
  auto read_R = [&](auto want, const char *key, double rel) {
    for (int cx = 0; cx < nloc; cx++) {
      auto R = A->get_cell(Sym<REAL>("R"), cx);
      auto ID = A->get_cell(Sym<INT>("ID"), cx);
      for (int l = 0; l < R->nrow; l++) {
        const int i = static_cast<int>(ID->at(l, 0) - id0);
        if (!inset(i))
          continue;
        for (int k = 0; k < ncomp; k++) {
          const double w = want(cx, i, k);
          VH_CHECK(std::abs(R->at(l, k) - w) <= rel * (1.0 + std::abs(w) + m.scale), key, P.str << " evaluation at " << part[i].p[0] << "," << part[i].p[1] << " in cell " << P.local[cx] << " (" << m.cells[P.local[cx]].size() << " vertices) is " << R->at(l, k) << " expected " << w);
          vh::count("plex_evaluations");
        }
      }
    }
  };
  // constants per cell
  {
    auto qpm = c.rng.chance(0.5) ? PetscInterface::make_quadrature_point_mapper_average(target, P.domain) : PetscInterface::make_quadrature_point_mapper_vertex(target, P.domain);
    auto dpe = std::make_shared<PetscInterface::DMPlexProjectEvaluate>(qpm, "DG", 0);
    const int rounds = c.rng.range(1, 2);
    for (int round = 0; round < rounds; round++) {
      if (mode)
        dpe->project(sg, Sym<REAL>("Q"));
      else
        dpe->project(A, Sym<REAL>("Q"));
      for (int cx = 0; cx < nloc; cx++) {
        auto Q = qpm->particle_group->get_cell(qpm->get_sym(ncomp), cx);
        VH_CHECK(Q->nrow > 0, "proj/points", P.str << " cell " << P.local[cx] << " has no quadrature points");
        for (int l = 0; l < Q->nrow; l++)
          for (int k = 0; k < ncomp; k++) {
            const double w = sum[cx][k] / m.area(P.local[cx]);
            VH_CHECK(std::abs(Q->at(l, k) - w) <= 1e-10 * (std::abs(w) + mag[cx][k] / m.area(P.local[cx])), "proj/dg", P.str << " density of cell " << P.local[cx] << " component " << k << " is " << Q->at(l, k) << " expected " << w);
            vh::count("plex_projections");
          }
      }
    }
    vtk_data(P, dpe->get_vtk_data(), [&](const VTK::UnstructuredCell &x, int cx) {
      const double w = sum[cx][0] / m.area(P.local[cx]);
      const bool has = x.cell_data.size() == 1 && x.cell_data.count("value") && x.point_data.empty();
      if (VH_CHECK(has, "vtk/plex-keys", P.str << " projected cell has other data than its value"))
        VH_CHECK(std::abs(x.cell_data.at("value") - w) <= 1e-10 * (std::abs(w) + mag[cx][0] / m.area(P.local[cx])), "vtk/plex-dg", P.str << " cell " << P.local[cx] << " is written with value " << x.cell_data.at("value") << " expected " << w);
    });
    // other values at the points come back
    auto sym = qpm->get_sym(ncomp);
    particle_loop(
        qpm->particle_group,
        [=](auto Q, auto C) {
          for (int k = 0; k < ncomp; k++)
            Q.at(k) = 1.5 * C.at(0) + k - 2.0;
        },
        Access::write(sym), Access::read(qpm->particle_group->cell_id_dat->sym))
        ->execute();
    if (mode)
      dpe->evaluate(sg, Sym<REAL>("R"));
    else
      dpe->evaluate(A, Sym<REAL>("R"));
    read_R([&](int cx, int, int k) { return 1.5 * cx + k - 2.0; }, "proj/dg-evaluate", 1e-12);
    qpm->free();
  }
  // linear functions
  {
    auto qpm = PetscInterface::make_quadrature_point_mapper_vertex(target, P.domain);
    auto dpe = std::make_shared<PetscInterface::DMPlexProjectEvaluate>(qpm, "Barycentric", 1);
    const double a = c.rng.real(-2, 2), b = c.rng.real(-2, 2), e = c.rng.real(-2, 2);
    auto possym = qpm->particle_group->position_dat->sym;
    for (int round = 0; round < c.rng.range(1, 2); round++) {
      if (mode)
        dpe->project(sg, Sym<REAL>("Q"));
      else
        dpe->project(A, Sym<REAL>("Q"));
      for (int cx = 0; cx < nloc; cx++) {
        auto Q = qpm->particle_group->get_cell(qpm->get_sym(ncomp), cx);
        auto X = qpm->particle_group->get_cell(possym, cx);
        const int r = P.local[cx], nv = static_cast<int>(m.cells[r].size());
        VH_CHECK(Q->nrow == nv, "proj/points", P.str << " cell " << r << " has " << Q->nrow << " vertex points");
        for (int k = 0; k < ncomp; k++) {
          double s0 = 0, s1 = 0, s2 = 0;
          const double w = m.area(r) / nv;
          for (int l = 0; l < Q->nrow; l++) {
            s0 += Q->at(l, k) * w;
            s1 += Q->at(l, k) * w * X->at(l, 0);
            s2 += Q->at(l, k) * w * X->at(l, 1);
          }
          const double t = 1e-8 * (mag[cx][k] + 1e-6) * (1 + m.scale);
          VH_CHECK(std::abs(s0 - sum[cx][k]) <= t, "proj/bary-conserve", P.str << " cell " << r << " projected total " << s0 << " expected " << sum[cx][k]);
          VH_CHECK(std::abs(s1 - sum[cx][ncomp + k]) <= t && std::abs(s2 - sum[cx][2 * ncomp + k]) <= t, "proj/bary-moment", P.str << " cell " << r << " (" << nv << " vertices) projected moments " << s1 << "," << s2 << " expected " << sum[cx][ncomp + k] << "," << sum[cx][2 * ncomp + k]);
          vh::count("plex_projections");
        }
      }
    }
    vtk_data(P, dpe->get_vtk_data(), [&](const VTK::UnstructuredCell &x, int cx) {
      const bool has = x.point_data.size() == 1 && x.point_data.count("value") && x.cell_data.empty();
      if (!VH_CHECK(has, "vtk/plex-keys", P.str << " projected cell has other data than its value"))
        return;
      auto &v = x.point_data.at("value");
      if (!VH_CHECK(static_cast<int>(v.size()) == x.num_points, "vtk/plex-values", P.str << " cell of " << x.num_points << " points has " << v.size() << " values"))
        return;
      auto Q = qpm->particle_group->get_cell(qpm->get_sym(ncomp), cx);
      auto X = qpm->particle_group->get_cell(possym, cx);
      for (int p = 0; p < x.num_points; p++)
        for (int l = 0; l < Q->nrow; l++) {
          const double dx = X->at(l, 0) - x.points[3 * p], dy = X->at(l, 1) - x.points[3 * p + 1];
          if (std::sqrt(dx * dx + dy * dy) < 1e-6 * m.h) {
            VH_CHECK(std::abs(v[p] - Q->at(l, 0)) <= 1e-9 * (std::abs(Q->at(l, 0)) + mag[cx][0] / m.area(P.local[cx])), "vtk/plex-bary", P.str << " vertex of cell " << P.local[cx] << " is written with value " << v[p] << ", the projection holds " << Q->at(l, 0));
            vh::count("vtk_plex_values");
          }
        }
    });
    particle_loop(
        qpm->particle_group,
        [=](auto Q, auto X) {
          for (int k = 0; k < ncomp; k++)
            Q.at(k) = (a + k) + b * X.at(0) + e * X.at(1);
        },
        Access::write(qpm->get_sym(ncomp)), Access::read(possym))
        ->execute();
    if (mode)
      dpe->evaluate(sg, Sym<REAL>("R"));
    else
      dpe->evaluate(A, Sym<REAL>("R"));
    read_R([&](int, int i, int k) { return (a + k) + b * part[i].p[0] + e * part[i].p[1]; }, "proj/bary-evaluate", 1e-8);
    qpm->free();
  }
  // degrees of freedom
  {
    PetscInterface::DMPlexProjectEvaluateDG dg(P.mesh, target, "DG", 0);
    const int nc2 = c.rng.range(1, 3);
    std::vector<REAL> in(static_cast<std::size_t>(nloc) * nc2), out;
    for (std::size_t i = 0; i < in.size(); i++)
      in[i] = pay_real(i, 5, 1);
    dg.set_dofs(nc2, in);
    dg.get_dofs(nc2, out);
    VH_CHECK(in == out, "proj/dofs", P.str << " degrees of freedom differ after they were set");
    if (mode)
      dg.project(sg, Sym<REAL>("Q"));
    else
      dg.project(A, Sym<REAL>("Q"));
    dg.get_dofs(ncomp, out);
    for (int cx = 0; cx < nloc; cx++)
      for (int k = 0; k < ncomp; k++) {
        const double w = sum[cx][k] / m.area(P.local[cx]);
        VH_CHECK(std::abs(out.at(cx * ncomp + k) - w) <= 1e-10 * (std::abs(w) + mag[cx][k] / m.area(P.local[cx])), "proj/dofs-project", P.str << " degree of freedom of cell " << P.local[cx] << " is " << out.at(cx * ncomp + k) << " expected " << w);
      }
  }
  sg.reset();
}

void coupling(Case &c, Plex &P) {
  const int nref = static_cast<int>(P.ref.cells.size());
  // what every rank couples, known to all
  struct Entry {
    int a, ref;
    double wf, wb;
  };
  std::vector<std::vector<Entry>> all(P.sz);
  std::vector<int> na(P.sz);
  for (int k = 0; k < P.sz; k++) {
    na[k] = c.rng.range(0, 8);
    for (int a = 0; a < na[k]; a++) {
      const int ne = c.rng.pick(std::vector<int>{0, 1, 1, 2, 4});
      for (int e = 0; e < ne; e++)
        all[k].push_back({a, c.rng.range(0, nref - 1), c.rng.range(-8, 8) * 0.125, c.rng.range(-8, 8) * 0.125});
    }
  }
  std::vector<std::vector<PetscInterface::DMPlexMeshCouplerDG0MapEntry>> cm(na[P.rk]);
  for (auto &e : all[P.rk])
    cm[e.a].push_back({static_cast<int>(P.gid[e.ref]), e.wf, e.wb});
  PetscInterface::DMPlexMeshCouplerDG0 cp(P.dm, cm);
  const int nloc = static_cast<int>(P.local.size());
  VH_CHECK(cp.cell_count_A == na[P.rk] && cp.cell_count_B == nloc, "couple/counts", P.str << " coupler counts " << cp.cell_count_A << "," << cp.cell_count_B);
  auto fa = [](int k, int a, int j, int t) { return static_cast<double>(static_cast<int>(hash64(k, a, j, t) % 257) - 128); };
  for (int t = 0; t < c.rng.range(1, 3); t++) {
    const int nc = c.rng.range(1, 3);
    std::vector<REAL> A(na[P.rk] * nc), B(nloc * nc, 7.0);
    for (int a = 0; a < na[P.rk]; a++)
      for (int j = 0; j < nc; j++)
        A[a * nc + j] = fa(P.rk, a, j, t);
    auto A0 = A;
    cp.forward_transfer(A, nc, B);
    std::vector<REAL> want(nloc * nc, 0.0);
    for (int k = 0; k < P.sz; k++)
      for (auto &e : all[k])
        if (P.where[e.ref].first == P.rk)
          for (int j = 0; j < nc; j++)
            want[P.where[e.ref].second * nc + j] += e.wf * fa(k, e.a, j, t);
    for (std::size_t i = 0; i < want.size(); i++)
      VH_CHECK(B[i] == want[i], "couple/forward", P.str << " cell " << i / nc << " component " << i % nc << " received " << B[i] << " expected " << want[i]);
    VH_CHECK(A == A0, "couple/source", P.str << " forward transfer changed its source");
    for (int b = 0; b < nloc; b++)
      for (int j = 0; j < nc; j++)
        B[b * nc + j] = fa(100 + P.local[b], 3, j, t);
    auto B0 = B;
    std::fill(A.begin(), A.end(), 9.0);
    cp.backward_transfer(B, nc, A);
    std::vector<REAL> wa(A.size(), 0.0);
    for (auto &e : all[P.rk])
      for (int j = 0; j < nc; j++)
        wa[e.a * nc + j] += e.wb * fa(100 + e.ref, 3, j, t);
    for (std::size_t i = 0; i < wa.size(); i++)
      VH_CHECK(A[i] == wa[i], "couple/backward", P.str << " cell " << i / nc << " component " << i % nc << " received " << A[i] << " expected " << wa[i]);
    VH_CHECK(B == B0, "couple/source", P.str << " backward transfer changed its source");
    vh::count("coupled_values", want.size() + wa.size());
  }
  cp.free();
}

void sc_proj(Case &c) {
  Plex P(c.rng, "proj");
  c.desc << P.str;
  c.nontrivial = true;
  if (P.ok()) {
    const int what = c.rng.range(0, 2);
    if (what == 0) {
      auto &m = P.ref;
      qpm_roundtrip(c, P.domain, P.target, 2, [&](Rng &r) {
        V2 p = m.point(r, r.range(0, static_cast<int>(m.cells.size()) - 1));
        if (!P.claimed(p))
          p = m.point(r, r.range(0, static_cast<int>(m.cells.size()) - 1), false);
        return std::array<double, 3>{p[0], p[1], 0.0};
      }, P.str);
    } else if (what == 1)
      projections(c, P);
    else
      coupling(c, P);
  }
  P.free();
}

void sc_qpm(Case &c) {
  World W(random_world(c.rng, 5, size()));
  c.desc << W.wp.str();
  c.nontrivial = true;
  qpm_roundtrip(c, W.domain, W.target, W.wp.ndim, [&](Rng &r) {
    auto p = W.random_point(r);
    p.resize(3);
    return std::array<double, 3>{p[0], p[1], p[2]};
  }, W.wp.str());
  W.free();
}

} // namespace

int main(int argc, char **argv) {
  Options o;
  o.check_release = false; // PETSc caches communicators
  return vh::main(argc, argv, {{"plex", sc_plex, 3}, {"plex3", sc_plex3, 1}, {"bound", sc_bound, 3}, {"proj", sc_proj, 3}, {"qpm", sc_qpm, 1}}, o);
}
