// P21 overlay meshes, claims, dof and coordinate maps; P23 VTK files.
#include "world.hpp"
#include <array>
#include <cmath>
#include <cstring>
#include <fstream>
#include <hdf5.h>
#include <neso_particles/external_interfaces/common/common.hpp>
#include <neso_particles/external_interfaces/common/coordinate_mapping.hpp>
#include <neso_particles/external_interfaces/common/dof_mapper_dg.hpp>
#include <neso_particles/external_interfaces/common/local_claim.hpp>
#include <neso_particles/external_interfaces/common/overlay_cartesian_mesh.hpp>
#include <neso_particles/external_interfaces/vtk/vtk.hpp>
#include <neso_particles/utility_mesh_hierarchy_plotting.hpp>
using namespace vh;
using namespace NESO::Particles;
namespace EC = NESO::Particles::ExternalCommon;

namespace {

SYCLTargetSharedPtr self_target() {
  return std::make_shared<SYCLTarget>(device_kind(), MPI_COMM_SELF);
}

std::shared_ptr<EC::BoundingBox> make_box(const std::vector<double> &lo, const std::vector<double> &hi) {
  std::vector<REAL> b(6, 0.0);
  for (std::size_t d = 0; d < lo.size(); d++) {
    b[d] = lo[d];
    b[3 + d] = hi[d];
  }
  return std::make_shared<EC::BoundingBox>(b);
}

// ------------------------------------------------------------------ overlay

void sc_overlay(Case &c) {
  Rng &r = c.lrng;
  const int nd = r.range(1, 3);
  const double scale = r.pick(std::vector<double>{1.0, 0.25, 0.1, 1.0 / 3.0, 7.3, 250.0, 1e-3});
  std::vector<double> org(nd), ext(nd);
  for (int d = 0; d < nd; d++) {
    org[d] = r.pick(std::vector<double>{0.0, 0.0, -0.5, 1.0, 3.7, -12.25}) * scale;
    ext[d] = r.pick(std::vector<double>{1.0, 1.0, 0.5, 0.9, 3.0}) * scale;
  }
  auto target = self_target();
  std::shared_ptr<EC::OverlayCartesianMesh> m;
  std::ostringstream ss;
  if (r.chance(0.5)) {
    const int want = r.range(1, r.chance(0.2) ? 400 : 40);
    std::vector<double> hi(nd);
    for (int d = 0; d < nd; d++)
      hi[d] = org[d] + ext[d];
    m = EC::create_overlay_mesh(target, nd, make_box(org, hi), want);
    ss << "overlay for " << want << " cells";
    VH_CHECK(m->get_cell_count() >= want, "overlay/count", "an overlay mesh for at least " << want << " cells has " << m->get_cell_count());
    for (int d = 0; d < nd; d++)
      ext[d] = hi[d] - org[d];
  } else {
    std::vector<int> n(nd);
    for (int d = 0; d < nd; d++)
      n[d] = r.range(1, nd == 3 ? 5 : 9);
    m = std::make_shared<EC::OverlayCartesianMesh>(target, nd, org, ext, n);
    ss << "overlay";
  }
  const std::vector<int> n = m->cell_counts;
  ss << " " << nd << "d " << vh::str(n) << " origin " << vh::str(org) << " extents " << vh::str(ext);
  const std::string s = ss.str();
  c.desc << s;
  if (!VH_CHECK(static_cast<int>(n.size()) == nd && m->ndim == nd, "overlay/ndim", s << " dimension"))
    return;
  int total = 1;
  for (int d = 0; d < nd; d++)
    total *= n[d];
  VH_CHECK(m->get_cell_count() == total, "overlay/count", s << " has " << m->get_cell_count() << " cells");
  auto host = m->get_host_mapper();
  const double eps = 1e-11 * scale * 20;
  // the cells tile the box, the linear index is a bijection
  std::vector<int> seen(total, 0);
  std::vector<std::array<int, 3>> tuples(total);
  for (int k = 0; k < total; k++) {
    int q = k;
    std::vector<int> t(3, 0);
    for (int d = 0; d < nd; d++) {
      t[d] = q % n[d];
      q /= n[d];
    }
    const int i = m->get_linear_cell_index(t), j = host.get_linear_cell_index(t);
    VH_CHECK(i == j, "overlay/linear", s << " tuple " << vh::str(t) << " has index " << i << " on the mesh and " << j << " in the mapper");
    if (VH_CHECK(i >= 0 && i < total, "overlay/linear", s << " tuple " << vh::str(t) << " has index " << i)) {
      seen[i]++;
      tuples[i] = {t[0], t[1], t[2]};
    }
    VH_CHECK(host.valid_linear_cell_index(t), "overlay/valid", s << " tuple " << vh::str(t) << " reported as invalid");
    auto b = m->get_bounding_box(t);
    for (int d = 0; d < nd; d++) {
      const double w = ext[d] / n[d];
      VH_CHECK(std::abs(b->lower(d) - (org[d] + t[d] * w)) <= eps && std::abs(b->upper(d) - (org[d] + (t[d] + 1) * w)) <= eps, "overlay/box", s << " cell " << vh::str(t) << " spans " << b->lower(d) << ".." << b->upper(d) << " in dimension " << d);
    }
    for (int d = 0; d < nd; d++) {
      auto u = t;
      u[d] = r.chance(0.5) ? -1 - r.range(0, 3) : n[d] + r.range(0, 3);
      VH_CHECK(!host.valid_linear_cell_index(u), "overlay/valid", s << " tuple " << vh::str(u) << " reported as valid");
    }
  }
  for (int k = 0; k < total; k++)
    VH_CHECK(seen[k] == 1, "overlay/linear", s << " index " << k << " belongs to " << seen[k] << " cells");
  // points
  const int np = r.range(1, 60);
  std::vector<REAL> pts(np * nd);
  std::vector<int> inside(np, 1);
  for (int p = 0; p < np; p++)
    for (int d = 0; d < nd; d++) {
      const double w = ext[d] / n[d];
      double x;
      switch (r.range(0, 6)) {
      case 0: x = org[d]; break;
      case 1: x = org[d] + ext[d]; break;
      case 2: x = org[d] + r.range(0, n[d]) * w; break;
      case 3: x = std::nextafter(org[d] + r.range(0, n[d]) * w, r.chance(0.5) ? 1e300 : -1e300); break;
      case 4:
        x = org[d] + r.real(-2, 3) * ext[d];
        break;
      default: x = org[d] + r.real() * ext[d];
      }
      if (x < org[d] || x > org[d] + ext[d])
        inside[p] = 0;
      pts[p * nd + d] = x;
    }
  std::vector<int> hcell(np * nd), dcell(np * nd), hlin(np), dlin(np);
  BufferDevice<REAL> dp(target, pts);
  BufferDevice<int> dc(target, dcell), dl(target, dlin);
  {
    auto k = m->get_device_mapper();
    auto kp = dp.ptr;
    auto kc = dc.ptr;
    auto kl = dl.ptr;
    target->queue
        .parallel_for(sycl::range<1>(np), [=](sycl::id<1> idx) {
          const std::size_t i = idx;
          int t[3] = {0, 0, 0};
          for (int d = 0; d < nd; d++)
            kc[i * nd + d] = t[d] = k.get_cell_in_dimension(d, kp[i * nd + d]);
          kl[i] = k.valid_linear_cell_index(t) ? k.get_linear_cell_index(t) : -1;
        })
        .wait_and_throw();
  }
  dcell = dc.get();
  dlin = dl.get();
  for (int p = 0; p < np; p++) {
    std::vector<int> t(3, 0);
    for (int d = 0; d < nd; d++) {
      const double x = pts[p * nd + d], w = ext[d] / n[d];
      t[d] = hcell[p * nd + d] = host.get_cell_in_dimension(d, x);
      VH_CHECK(t[d] == dcell[p * nd + d], "overlay/device", s << " point " << x << " in dimension " << d << " is in cell " << t[d] << " on the host and " << dcell[p * nd + d] << " on the device");
      const double q = (x - org[d]) / w;
      if (!VH_CHECK(t[d] >= 0 && t[d] < n[d], "overlay/range", s << " point " << x << " is in cell " << t[d]))
        t[d] = 0;
      else
        VH_CHECK((q >= t[d] - 1e-9 || t[d] == 0) && (q <= t[d] + 1 + 1e-9 || t[d] == n[d] - 1), "overlay/contains", s << " point " << x << " in dimension " << d << " is mapped to cell " << t[d]);
      if (x >= org[d] && x <= org[d] + ext[d]) {
        const int mc = m->get_cell_in_dimension(d, x);
        VH_CHECK(mc == t[d], "overlay/host", s << " point " << x << " is in cell " << mc << " of the mesh and " << t[d] << " of the mapper");
      }
    }
    VH_CHECK(m->get_linear_cell_index(t) == dlin[p], "overlay/device", s << " linear cell " << dlin[p] << " on the device, " << m->get_linear_cell_index(t) << " on the host");
    vh::count("overlay_points");
  }
  // boxes
  const int nb = r.range(1, 12);
  for (int b = 0; b < nb; b++) {
    std::vector<double> lo(nd), hi(nd);
    for (int d = 0; d < nd; d++) {
      auto pos = [&]() {
        switch (r.range(0, 3)) {
        case 0: return org[d] + r.range(0, n[d]) * (ext[d] / n[d]);
        case 1: return org[d] + r.real(-0.3, 1.3) * ext[d];
        default: return org[d] + r.real() * ext[d];
        }
      };
      lo[d] = pos();
      hi[d] = r.chance(0.1) ? lo[d] : pos();
      if (lo[d] > hi[d])
        std::swap(lo[d], hi[d]);
    }
    std::vector<int> cells(r.range(0, 3), 12345);
    m->get_intersecting_cells(make_box(lo, hi), cells);
    std::set<int> set(cells.begin(), cells.end());
    VH_CHECK(set.size() == cells.size(), "overlay/intersect-dup", s << " box " << vh::str(lo) << ".." << vh::str(hi) << " lists a cell twice");
    for (int k : set)
      VH_CHECK(k >= 0 && k < total, "overlay/intersect-range", s << " box intersects cell " << k);
    for (int k = 0; k < total; k++) {
      // a box that ends on the face of a cell reaches the cells on both sides
      // (where the faces are representable, otherwise it may miss by rounding)
      bool interior = true, apart = false, closed = true;
      for (int d = 0; d < nd; d++) {
        int ex;
        const double wd = ext[d] / n[d];
        const bool exact = std::frexp(wd, &ex) == 0.5 && (org[d] == 0.0 || std::abs(std::remainder(org[d], wd * 0x1p-8)) == 0.0) && org[d] / wd < 0x1p20;
        const double fa = org[d] + tuples[k][d] * wd, fe = fa + wd;
        const bool over = std::min(fe, hi[d]) - std::max(fa, lo[d]) > 1e-9 * wd;
        const bool face = exact && (hi[d] == fa || lo[d] == fe);
        closed = closed && (over || face);
        const double w = ext[d] / n[d], a = org[d] + tuples[k][d] * w, e = a + w;
        interior = interior && std::min(e, hi[d]) - std::max(a, lo[d]) > 1e-9 * w;
        // what lies outside of the mesh belongs to its first or last cells
        const double cl = std::min(std::max(lo[d], org[d]), org[d] + ext[d]), ch = std::min(std::max(hi[d], org[d]), org[d] + ext[d]);
        apart = apart || cl > e + 1e-9 * w || ch < a - 1e-9 * w;
      }
      if (closed && !interior) {
        VH_CHECK(set.count(k), "overlay/intersect-face", s << " box " << vh::str(lo) << ".." << vh::str(hi) << " touches cell " << k << " which is not listed");
        vh::count("touched_cells");
      }
      if (interior)
        VH_CHECK(set.count(k), "overlay/intersect-missing", s << " box " << vh::str(lo) << ".." << vh::str(hi) << " overlaps cell " << k << " which is not listed");
      if (apart)
        VH_CHECK(!set.count(k), "overlay/intersect-extra", s << " box " << vh::str(lo) << ".." << vh::str(hi) << " does not touch cell " << k << " which is listed");
    }
    // the cell of every point of the box is listed
    for (int q = 0; q < 12; q++) {
      int t[3] = {0, 0, 0};
      for (int d = 0; d < nd; d++) {
        const int how = r.range(0, 2);
        const double x = how == 0 ? lo[d] : how == 1 ? hi[d] : std::min(hi[d], lo[d] + r.real() * (hi[d] - lo[d]));
        t[d] = host.get_cell_in_dimension(d, x);
      }
      VH_CHECK(set.count(host.get_linear_cell_index(t)), "overlay/intersect-point", s << " box " << vh::str(lo) << ".." << vh::str(hi) << " has a point in cell " << host.get_linear_cell_index(t) << " which is not listed");
    }
    vh::count("overlay_boxes");
  }
  // boxes themselves
  auto acc = std::make_shared<EC::BoundingBox>();
  std::vector<double> lo(3, 1e300), hi(3, -1e300);
  for (int b = 0; b < r.range(1, 5); b++) {
    std::vector<double> l(3), h(3);
    for (int d = 0; d < 3; d++) {
      l[d] = r.real(-2, 2);
      h[d] = l[d] + r.real();
      lo[d] = std::min(lo[d], l[d]);
      hi[d] = std::max(hi[d], h[d]);
    }
    acc->expand(make_box(l, h));
    std::vector<REAL> x(3);
    bool in = true;
    const int ndb = r.range(1, 3);
    for (int d = 0; d < 3; d++) {
      x[d] = r.chance(0.2) ? hi[d] : r.chance(0.2) ? lo[d] : r.real(-3, 4);
      if (d < ndb)
        in = in && x[d] >= lo[d] && x[d] <= hi[d];
      VH_CHECK(acc->lower(d) == lo[d] && acc->upper(d) == hi[d], "overlay/expand", "expanded box spans " << acc->lower(d) << ".." << acc->upper(d) << " expected " << lo[d] << ".." << hi[d]);
    }
    VH_CHECK(acc->contains_point(ndb, x) == in, "overlay/contains-point", "point in box is " << !in);
  }
  c.nontrivial = true;
  target->free();
}

// ------------------------------------------------------------------ claims

void sc_claim(Case &c) {
  Rng &r = c.rng; // the hierarchy is collective
  const int nd = r.range(1, 3);
  int sub = r.range(0, 2);
  std::vector<int> dims(nd);
  std::vector<double> org(nd);
  const double extent = r.pick(std::vector<double>{1.0, 0.5, 0.1, 1.0 / 3.0, 2.0, 7.3, 1e-3});
  for (int d = 0; d < nd; d++) {
    dims[d] = r.range(1, nd == 3 ? 3 : 5);
    org[d] = r.pick(std::vector<double>{0.0, 0.0, -0.5, 1.0, 0.1, -3.7}) * extent;
  }
  if (nd == 3)
    sub = std::min(sub, 1);
  auto mh = std::make_shared<MeshHierarchy>(vh::world_comm(), nd, dims, org, extent, sub);
  const int nf = 1 << sub;
  const double w = extent / nf;
  std::vector<int> n(3, 1);
  for (int d = 0; d < nd; d++)
    n[d] = dims[d] * nf;
  std::ostringstream ss;
  ss << "hierarchy " << vh::str(dims) << " subdivision " << sub << " extent " << extent << " origin " << vh::str(org);
  const std::string s = ss.str();
  c.desc << s;
  Rng &q = c.lrng;
  EC::LocalClaim lc;
  EC::MHGeomMap gm;
  std::map<INT, std::vector<int>> want_geom, opt_geom;
  std::map<INT, std::pair<double, std::set<long>>> want_ratio; // largest, its 1e-6 units
  const int ne = q.range(1, 14);
  std::uint64_t listed = 0;
  for (int e = 0; e < ne; e++) {
    std::vector<double> lo(nd), hi(nd);
    for (int d = 0; d < nd; d++) {
      auto pos = [&]() {
        switch (q.range(0, 4)) {
        case 0: return org[d] + q.range(0, n[d]) * w;
        case 1: return org[d] + q.real(-0.3, 1.3) * n[d] * w;
        case 2: return org[d] + (q.range(0, n[d]) + q.pick(std::vector<double>{0.5, 0.25, 1e-3})) * w;
        default: return org[d] + q.real() * n[d] * w;
        }
      };
      lo[d] = pos();
      hi[d] = q.chance(0.2) ? lo[d] + q.real() * w : pos();
      if (lo[d] > hi[d])
        std::swap(lo[d], hi[d]);
    }
    const int id = q.range(0, 1000);
    auto box = make_box(lo, hi);
    std::deque<std::pair<INT, double>> cells;
    if (q.chance(0.5))
      cells.push_back({-7, 1.0});
    EC::bounding_box_map(box, mh, cells);
    EC::bounding_box_claim(id, box, mh, lc, gm);
    std::map<INT, double> got;
    for (auto &x : cells) {
      VH_CHECK(!got.count(x.first), "claim/dup", s << " cell " << x.first << " is listed twice");
      got[x.first] = x.second;
    }
    listed += got.size();
    double clipped = 1, sum = 0;
    const double cv = std::pow(w, nd);
    for (int d = 0; d < nd; d++)
      clipped *= std::max(0.0, std::min(hi[d], org[d] + n[d] * w) - std::max(lo[d], org[d]));
    for (int z = 0; z < n[2]; z++)
      for (int y = 0; y < n[1]; y++)
        for (int x = 0; x < n[0]; x++) {
          const int t[3] = {x, y, z};
          double v = 1;
          std::int64_t im[3];
          INT tup[6], tup2[6];
          for (int d = 0; d < nd; d++) {
            const double a = t[d] * w, lod = lo[d] - org[d], hid = hi[d] - org[d];
            v *= std::max(0.0, std::min(hid, a + w) - std::max(lod, a));
            im[d] = t[d];
            tup[d] = t[d] / nf;
            tup[nd + d] = t[d] % nf;
          }
          EC::mesh_tuple_to_mh_tuple(nd, im, mh, tup2);
          for (int d = 0; d < 2 * nd; d++)
            VH_CHECK(tup[d] == tup2[d], "claim/tuple", s << " cell " << x << "," << y << "," << z << " entry " << d << " is " << tup2[d]);
          const INT g = mh->tuple_to_linear_global(tup);
          const double tol = 1e-9 * cv;
          const double have = got.count(g) ? got[g] : 0.0;
          VH_CHECK(std::abs(have - v) <= tol, "claim/volume", s << " box " << vh::str(lo) << ".." << vh::str(hi) << " overlaps cell " << x << "," << y << "," << z << " with volume " << have << " expected " << v);
          if (got.count(g)) {
            VH_CHECK(have > 0, "claim/empty", s << " lists a cell without overlap");
            sum += have;
            got.erase(g);
          }
          const double ratio = v / cv;
          if (v > tol)
            want_geom[g].push_back(id);
          else
            opt_geom[g].push_back(id);
          auto &wr = want_ratio[g];
          wr.first = std::max(wr.first, ratio);
        }
    VH_CHECK(got.empty(), "claim/unknown", s << " box lists cells that do not exist, e.g. " << got.begin()->first);
    VH_CHECK(std::abs(sum - clipped) <= 1e-8 * cv * (1 + clipped / cv), "claim/sum", s << " box " << vh::str(lo) << ".." << vh::str(hi) << " volumes add to " << sum << " expected " << clipped);
    vh::count("claim_boxes");
  }
  vh::count("claim_cells", listed);
  // claims
  for (auto &x : want_ratio) {
    const double ratio = x.second.first;
    if (ratio > 1.1e-6) {
      if (!VH_CHECK(lc.claim_cells.count(x.first), "claim/missing", s << " cell " << x.first << " with overlap " << ratio << " is not claimed"))
        continue;
      auto it = lc.claim_weights.find(x.first);
      if (!VH_CHECK(it != lc.claim_weights.end(), "claim/missing", s << " cell " << x.first << " has no weight"))
        continue;
      VH_CHECK(std::abs(it->second.weight - 1e6 * ratio) <= 1.0001, "claim/weight", s << " cell " << x.first << " is claimed with weight " << it->second.weight << ", its largest overlap is " << ratio);
      VH_CHECK(std::abs(it->second.weightf - ratio) <= 2e-6, "claim/weightf", s << " cell " << x.first << " is claimed with weight " << it->second.weightf << ", its largest overlap is " << ratio);
      vh::count("claims_observed");
    } else if (ratio < 0.9e-6)
      VH_CHECK(!lc.claim_cells.count(x.first), "claim/extra", s << " cell " << x.first << " with overlap " << ratio << " is claimed");
  }
  for (auto g : lc.claim_cells)
    VH_CHECK(want_ratio.count(g), "claim/unknown", s << " unknown cell " << g << " is claimed");
  for (auto &x : want_geom) {
    auto it = gm.find(x.first);
    std::vector<int> got(it == gm.end() ? std::vector<int>{} : std::vector<int>(it->second.begin(), it->second.end()));
    auto exp = x.second;
    // boxes that barely touch may be listed as well
    for (int id : opt_geom[x.first])
      if (got.size() > exp.size() && std::count(got.begin(), got.end(), id) > std::count(exp.begin(), exp.end(), id))
        exp.push_back(id);
    std::sort(got.begin(), got.end());
    std::sort(exp.begin(), exp.end());
    VH_CHECK(got == exp, "claim/geoms", s << " cell " << x.first << " lists elements " << vh::str(got) << " expected " << vh::str(exp));
  }
  c.nontrivial = listed > 0;
  mh->free();
}

// ------------------------------------------------------------------ dofs

void sc_dof(Case &c) {
  Rng &r = c.lrng;
  auto target = self_target();
  const int nc = r.range(0, 12), nrow = r.range(1, 6), ncol = r.chance(0.5) ? 1 : r.range(1, 3), nd = nrow * ncol;
  c.desc << nc << " cells of " << nrow << "x" << ncol << " dofs";
  const std::string s = c.desc.str();
  EC::DOFMapperDG mapper(target, nc, nd);
  std::vector<int> perm(nc * nd);
  auto draw = [&]() {
    for (std::size_t i = 0; i < perm.size(); i++)
      perm[i] = static_cast<int>(i);
    r.shuffle(perm);
    std::vector<int> order(perm.size());
    for (std::size_t i = 0; i < order.size(); i++)
      order[i] = static_cast<int>(i);
    r.shuffle(order);
    for (int i : order)
      mapper.set(i / nd, i % nd, perm[i]);
  };
  draw();
  auto cdc = std::make_shared<CellDatConst<REAL>>(target, std::max(nc, 1), nrow, ncol);
  if (nc == 0) {
    std::vector<REAL> ext(3, 4.5);
    EventStack es;
    mapper.copy_to_external(cdc, ext.data(), es);
    mapper.copy_from_external(cdc, ext.data(), es);
    es.wait();
    VH_CHECK(ext == std::vector<REAL>(3, 4.5), "dof/bounds", "a mapper without cells writes dofs");
    c.nontrivial = true;
    target->free();
    return;
  }
  std::vector<REAL> in(nc * nd), ext(nc * nd + 2, -1.0);
  auto store = [&]() {
    for (auto &x : in)
      x = r.real(-5, 5);
    for (int i = 0; i < nc * nd; i++)
      cdc->set_value(i / nd, (i % nd) % nrow, (i % nd) / nrow, in[i]);
  };
  store();
  const int ops = r.range(2, 8);
  for (int o = 0; o < ops; o++) {
    switch (r.range(0, 3)) {
    case 0: {
      std::fill(ext.begin(), ext.end(), -1.0);
      EventStack es;
      mapper.copy_to_external(cdc, ext.data() + 1, es);
      es.wait();
      for (int i = 0; i < nc * nd; i++) {
        VH_CHECK(ext[1 + perm[i]] == in[i], "dof/to-external", s << " dof " << i % nd << " of cell " << i / nd << " belongs at " << perm[i] << " which holds " << ext[1 + perm[i]] << " expected " << in[i]);
        vh::count("dofs_copied");
      }
      VH_CHECK(ext.front() == -1.0 && ext.back() == -1.0, "dof/bounds", s << " memory around the external dofs changed");
      break;
    }
    case 1: {
      for (auto &x : ext)
        x = r.real(-5, 5);
      const auto before = ext;
      EventStack es;
      mapper.copy_from_external(cdc, ext.data() + 1, es);
      es.wait();
      VH_CHECK(ext == before, "dof/external-changed", s << " the external dofs changed when they were read");
      for (int i = 0; i < nc * nd; i++) {
        in[i] = before[1 + perm[i]];
        const REAL g = cdc->get_value(i / nd, (i % nd) % nrow, (i % nd) / nrow);
        VH_CHECK(g == in[i], "dof/from-external", s << " dof " << i % nd << " of cell " << i / nd << " is " << g << " expected " << in[i]);
        vh::count("dofs_copied");
      }
      break;
    }
    case 2: store(); break;
    default: draw();
    }
    for (int i = 0; i < nc * nd; i++)
      VH_CHECK(mapper.get(i / nd, i % nd) == perm[i], "dof/get", s << " index of dof " << i << " is " << mapper.get(i / nd, i % nd) << " expected " << perm[i]);
  }
  c.nontrivial = true;
  target->free();
}

// ------------------------------------------------------------------ maps

void sc_cmap(Case &c) {
  Rng &r = c.lrng;
  auto target = self_target();
  const int n = r.range(10, 80);
  c.desc << n << " coordinate maps";
  struct In {
    double v[12];
  };
  struct Out {
    double v[16];
  };
  const int kind = r.range(0, 2);
  std::vector<In> in(n);
  for (auto &x : in) {
    const double scale = r.pick(std::vector<double>{1.0, 0.1, 10.0, 1e-3}), th = r.chance(0.4) ? 0.0 : r.real(0, 6.3);
    const double ox = r.pick(std::vector<double>{0.0, 1.0, -3.5, 20.0}) * scale, oy = r.pick(std::vector<double>{0.0, 1.0, -3.5, 20.0}) * scale;
    const double cx[4] = {0, 1, 1, 0}, cy[4] = {0, 0, 1, 1};
    const double ax = r.pick(std::vector<double>{1.0, 1.0, 3.0}), sh = r.pick(std::vector<double>{0.0, 0.0, 0.5, -0.7});
    const double pert = r.pick(std::vector<double>{0.0, 0.0, 0.05, 0.2});
    const bool flip = kind == 0 && r.chance(0.5);
    for (int i = 0; i < 4; i++) {
      const double px = ax * (cx[i] + r.real(-pert, pert)), py = cy[i] + r.real(-pert, pert);
      const double qx = px + sh * py, qy = flip ? -py : py;
      x.v[2 * i] = ox + scale * (std::cos(th) * qx - std::sin(th) * qy);
      x.v[2 * i + 1] = oy + scale * (std::sin(th) * qx + std::cos(th) * qy);
    }
    const int where = r.range(0, 4);
    auto ref = [&]() { return where == 0 ? (r.chance(0.5) ? -1.0 : 1.0) : where == 1 && r.chance(0.5) ? 1.0 : r.real(-1, 1); };
    if (kind == 0) { // triangle of the first three vertices, barycentric point
      double l[3] = {r.real(where == 4 ? -1 : 0, 1), r.real(where == 4 ? -1 : 0, 1), 0};
      if (where == 0)
        l[0] = 0, l[1] = r.range(0, 1);
      if (where != 4 && l[0] + l[1] > 1)
        l[0] = 1 - l[0], l[1] = 1 - l[1];
      l[2] = 1 - l[0] - l[1];
      for (int i = 0; i < 3; i++)
        x.v[8 + i] = l[i];
    } else if (kind == 1) {
      x.v[8] = ref();
      x.v[9] = ref();
    } else {
      x.v[0] = scale * r.real(0.5, 3.0);                        // R
      x.v[1] = x.v[0] * (where == 0 ? 1e-3 : r.real(0.05, 0.9)); // r
      x.v[2] = where == 1 ? r.range(-1, 2) * 1.5707963267948966 : r.real(-3.14, 3.14);
      x.v[3] = where == 2 ? r.range(-1, 2) * 1.5707963267948966 : r.real(-3.14, 3.14);
    }
    x.v[11] = scale;
  }
  auto eval = [=](const double *v, double *o) {
    if (kind == 0) {
      EC::triangle_barycentric_to_cartesian(v[0], v[1], v[2], v[3], v[4], v[5], v[8], v[9], v[10], o, o + 1);
      EC::triangle_cartesian_to_barycentric(v[0], v[1], v[2], v[3], v[4], v[5], o[0], o[1], o + 2, o + 3, o + 4);
    } else if (kind == 1) {
      EC::quad_collapsed_to_cartesian(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], o, o + 1);
      EC::quad_cartesian_to_collapsed(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], o[0], o[1], o + 2, o + 3);
      EC::quad_collapsed_to_barycentric(v[8], v[9], o + 4, o + 5, o + 6, o + 7);
      EC::quad_cartesian_to_barycentric(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], o[0], o[1], o + 8, o + 9, o + 10, o + 11);
    } else {
      EC::torus_cylindrical_to_cartesian(v[0], v[1], v[2], v[3], o, o + 1, o + 2);
      EC::cartesian_to_torus_cylindrical(v[0], o[0], o[1], o[2], o + 3, o + 4, o + 5);
      EC::torus_cylindrical_to_cartesian(v[0], o[3], o[4], o[5], o + 6, o + 7, o + 8);
    }
  };
  std::vector<Out> dev(n);
  {
    std::vector<double> flat(n * 12), zero(n * 16, 0.0);
    for (int i = 0; i < n; i++)
      std::memcpy(&flat[i * 12], in[i].v, sizeof(in[i].v));
    BufferDevice<double> di(target, flat), dz(target, zero);
    auto ki = di.ptr, kz = dz.ptr;
    target->queue.parallel_for(sycl::range<1>(n), [=](sycl::id<1> idx) { eval(ki + 12 * idx[0], kz + 16 * idx[0]); }).wait_and_throw();
    auto out = dz.get();
    for (int i = 0; i < n; i++)
      std::memcpy(dev[i].v, &out[i * 16], sizeof(dev[i].v));
  }
  for (int i = 0; i < n; i++) {
    Out h{};
    eval(in[i].v, h.v);
    auto &v = in[i].v;
    for (int side = 0; side < 2; side++) {
      auto &o = side ? dev[i].v : h.v;
      const char *w = side ? " on the device" : " on the host";
      std::ostringstream at;
      at << std::setprecision(17) << w << " for";
      for (double q : v)
        at << " " << q;
      const double scale = v[11];
      if (kind == 0) {
        double px = 0, py = 0;
        for (int k = 0; k < 3; k++)
          px += v[8 + k] * v[2 * k], py += v[8 + k] * v[2 * k + 1];
        VH_CHECK(std::abs(o[0] - px) <= 1e-12 * 60 * scale && std::abs(o[1] - py) <= 1e-12 * 60 * scale, "cmap/tri-position", "barycentric point is at " << o[0] << "," << o[1] << " expected " << px << "," << py << at.str());
        for (int k = 0; k < 3; k++)
          VH_CHECK(std::abs(o[2 + k] - v[8 + k]) <= 1e-9, "cmap/tri-round", "barycentric coordinate " << k << " comes back as " << o[2 + k] << " from " << v[8 + k] << at.str());
      } else if (kind == 1) {
        const double e0 = v[8], e1 = v[9], wgt[4] = {(1 - e0) * (1 - e1) / 4, (1 + e0) * (1 - e1) / 4, (1 + e0) * (1 + e1) / 4, (1 - e0) * (1 + e1) / 4};
        double px = 0, py = 0;
        for (int k = 0; k < 4; k++)
          px += wgt[k] * v[2 * k], py += wgt[k] * v[2 * k + 1];
        VH_CHECK(std::abs(o[0] - px) <= 1e-12 * 60 * scale && std::abs(o[1] - py) <= 1e-12 * 60 * scale, "cmap/quad-position", "reference point is at " << o[0] << "," << o[1] << " expected " << px << "," << py << at.str());
        VH_CHECK(std::abs(o[2] - e0) <= 1e-6 && std::abs(o[3] - e1) <= 1e-6, "cmap/quad-round", "reference point " << e0 << "," << e1 << " comes back as " << o[2] << "," << o[3] << at.str());
        for (int k = 0; k < 4; k++) {
          VH_CHECK(std::abs(o[4 + k] - wgt[k]) <= 1e-12, "cmap/quad-bary", "weight " << k << " is " << o[4 + k] << " expected " << wgt[k] << at.str());
          VH_CHECK(std::abs(o[8 + k] - wgt[k]) <= 1e-6, "cmap/quad-bary", "weight " << k << " of the position is " << o[8 + k] << " expected " << wgt[k] << at.str());
        }
      } else {
        const double R = v[0], rr = v[1], phi = v[2], th = v[3];
        const double x = (R + rr * std::cos(th)) * std::cos(phi), y = (R + rr * std::cos(th)) * std::sin(phi), z = rr * std::sin(th);
        VH_CHECK(std::abs(o[0] - x) + std::abs(o[1] - y) + std::abs(o[2] - z) <= 1e-11 * scale, "cmap/torus-position", "torus point is at " << o[0] << "," << o[1] << "," << o[2] << " expected " << x << "," << y << "," << z << at.str());
        const double da = 1e-10 * R / rr;
        VH_CHECK(std::abs(o[3] - rr) <= 1e-11 * scale && std::abs(std::sin((o[4] - phi) / 2)) <= da && std::abs(std::sin((o[5] - th) / 2)) <= da, "cmap/torus-round", "torus coordinates " << rr << "," << phi << "," << th << " come back as " << o[3] << "," << o[4] << "," << o[5] << at.str());
        VH_CHECK(std::abs(o[6] - o[0]) + std::abs(o[7] - o[1]) + std::abs(o[8] - o[2]) <= 1e-10 * scale, "cmap/torus-position", "torus point comes back at " << o[6] << "," << o[7] << "," << o[8] << at.str());
      }
      vh::count("coordinate_maps");
    }
  }
  distinct("coordinate_map_kinds", std::to_string(kind));
  c.nontrivial = true;
  target->free();
}

// ------------------------------------------------------------------ vtk

struct VCell {
  int type = 0;
  std::vector<double> pts;
  std::map<std::string, double> cd;
  std::map<std::string, std::vector<double>> pd;
};

template <typename T> std::vector<T> read1(hid_t g, const char *name, hid_t mt, const std::string &s, int cols = 1) {
  std::vector<T> out;
  if (!VH_CHECK(H5Lexists(g, name, H5P_DEFAULT) > 0, "vtk/missing", s << " has no dataset " << name))
    return out;
  hid_t d = H5Dopen2(g, name, H5P_DEFAULT), sp = H5Dget_space(d);
  hsize_t dims[8] = {0};
  const int nd = H5Sget_simple_extent_ndims(sp);
  if (VH_CHECK(nd == (cols > 1 ? 2 : 1), "vtk/shape", s << " dataset " << name << " has " << nd << " dimensions")) {
    H5Sget_simple_extent_dims(sp, dims, nullptr);
    if (cols > 1)
      VH_CHECK(dims[1] == static_cast<hsize_t>(cols), "vtk/shape", s << " dataset " << name << " has " << dims[1] << " columns");
    out.resize(dims[0] * (cols > 1 ? dims[1] : 1));
    if (!out.empty())
      H5Dread(d, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, out.data());
  }
  H5Sclose(sp);
  H5Dclose(d);
  return out;
}
std::vector<std::string> names(hid_t g) {
  std::vector<std::string> o;
  H5G_info_t gi;
  H5Gget_info(g, &gi);
  for (hsize_t k = 0; k < gi.nlinks; k++) {
    char nm[256];
    H5Lget_name_by_idx(g, ".", H5_INDEX_NAME, H5_ITER_INC, k, nm, 256, H5P_DEFAULT);
    o.push_back(nm);
  }
  return o;
}

// What a reader of the format sees: the cells of every piece.
std::vector<std::vector<VCell>> read_vtk(const std::string &file, int pieces, const std::set<std::string> &pk, const std::set<std::string> &ck, const std::string &s) {
  std::vector<std::vector<VCell>> out(pieces);
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (!VH_CHECK(f >= 0, "vtk/missing", s << " file cannot be opened"))
    return out;
  hid_t g = H5Gopen2(f, "VTKHDF", H5P_DEFAULT);
  if (VH_CHECK(g >= 0, "vtk/missing", s << " file has no group VTKHDF")) {
    {
      hid_t a = H5Aopen(g, "Version", H5P_DEFAULT);
      std::int64_t v[2] = {-1, -1};
      if (VH_CHECK(a >= 0, "vtk/version", s << " no version")) {
        H5Aread(a, H5T_NATIVE_INT64, v);
        H5Aclose(a);
      }
      VH_CHECK(v[0] >= 1 && v[1] >= 0, "vtk/version", s << " version " << v[0] << "." << v[1]);
      a = H5Aopen(g, "Type", H5P_DEFAULT);
      std::string ty;
      if (VH_CHECK(a >= 0, "vtk/type", s << " no type")) {
        hid_t t = H5Aget_type(a);
        std::vector<char> buf(H5Tget_size(t) + 1, 0);
        H5Aread(a, t, buf.data());
        ty = buf.data();
        H5Tclose(t);
        H5Aclose(a);
      }
      VH_CHECK(ty == "UnstructuredGrid", "vtk/type", s << " has type " << ty);
    }
    auto np = read1<std::int64_t>(g, "NumberOfPoints", H5T_NATIVE_INT64, s), nc = read1<std::int64_t>(g, "NumberOfCells", H5T_NATIVE_INT64, s), ni = read1<std::int64_t>(g, "NumberOfConnectivityIds", H5T_NATIVE_INT64, s);
    auto pts = read1<double>(g, "Points", H5T_NATIVE_DOUBLE, s, 3);
    auto types = read1<std::int64_t>(g, "Types", H5T_NATIVE_INT64, s), conn = read1<std::int64_t>(g, "Connectivity", H5T_NATIVE_INT64, s), off = read1<std::int64_t>(g, "Offsets", H5T_NATIVE_INT64, s);
    std::map<std::string, std::vector<double>> pd, cd;
    for (int which = 0; which < 2; which++) {
      const char *gn = which ? "CellData" : "PointData";
      auto &keys = which ? ck : pk;
      auto &store = which ? cd : pd;
      if (H5Lexists(g, gn, H5P_DEFAULT) <= 0) {
        VH_CHECK(keys.empty(), "vtk/missing", s << " has no group " << gn);
        continue;
      }
      hid_t dg = H5Gopen2(g, gn, H5P_DEFAULT);
      auto have = names(dg);
      VH_CHECK(std::set<std::string>(have.begin(), have.end()) == keys, "vtk/keys", s << " " << gn << " holds " << vh::str(have));
      for (auto &k : have)
        store[k] = read1<double>(dg, k.c_str(), H5T_NATIVE_DOUBLE, s);
      H5Gclose(dg);
    }
    std::size_t p0 = 0, c0 = 0, i0 = 0, o0 = 0;
    if (VH_CHECK(static_cast<int>(np.size()) == pieces && np.size() == nc.size() && np.size() == ni.size(), "vtk/pieces", s << " has " << np.size() << " pieces, expected " << pieces)) {
      std::int64_t tp = 0, tc = 0, ti = 0;
      bool neg = false;
      for (int k = 0; k < pieces; k++) {
        tp += np[k];
        tc += nc[k];
        ti += ni[k];
        neg = neg || np[k] < 0 || nc[k] < 0 || ni[k] < 0;
      }
      bool ok = VH_CHECK(!neg && static_cast<std::int64_t>(pts.size()) == 3 * tp && static_cast<std::int64_t>(types.size()) == tc && static_cast<std::int64_t>(conn.size()) == ti && static_cast<std::int64_t>(off.size()) == tc + pieces, "vtk/sizes", s << " datasets hold " << pts.size() << " coordinates, " << types.size() << " types, " << conn.size() << " point ids and " << off.size() << " offsets for " << tp << " points and " << tc << " cells in " << pieces << " pieces");
      for (auto &x : pd)
        ok = VH_CHECK(static_cast<std::int64_t>(x.second.size()) == tp, "vtk/sizes", s << " point data " << x.first << " has " << x.second.size() << " values") && ok;
      for (auto &x : cd)
        ok = VH_CHECK(static_cast<std::int64_t>(x.second.size()) == tc, "vtk/sizes", s << " cell data " << x.first << " has " << x.second.size() << " values") && ok;
      for (int k = 0; ok && k < pieces; k++) {
        for (int q = 0; q < nc[k]; q++) {
          const auto a = off[o0 + q], b = off[o0 + q + 1];
          if (!(ok = VH_CHECK(a >= 0 && a <= b && b <= ni[k], "vtk/offsets", s << " piece " << k << " cell " << q << " has offsets " << a << ".." << b)))
            break;
          VCell v;
          v.type = static_cast<int>(types[c0 + q]);
          for (auto e = a; e < b && ok; e++) {
            const auto id = conn[i0 + e];
            if (!(ok = VH_CHECK(id >= 0 && id < np[k], "vtk/connectivity", s << " piece " << k << " refers to point " << id << " of " << np[k])))
              break;
            for (int d = 0; d < 3; d++)
              v.pts.push_back(pts[3 * (p0 + id) + d]);
            for (auto &x : pd)
              v.pd[x.first].push_back(x.second[p0 + id]);
          }
          for (auto &x : cd)
            v.cd[x.first] = x.second[c0 + q];
          out[k].push_back(std::move(v));
          if (!ok)
            break;
        }
        p0 += np[k];
        c0 += nc[k];
        i0 += ni[k];
        o0 += nc[k] + 1;
      }
    }
    H5Gclose(g);
  }
  H5Fclose(f);
  return out;
}

// collective over vh::world_comm(): rank 0 gets the cells of every rank
std::vector<std::vector<VCell>> gather_cells(const std::vector<VTK::UnstructuredCell> &data, const std::set<std::string> &pk, const std::set<std::string> &ck, bool member) {
  std::vector<double> flat;
  flat.push_back(member ? 1 : 0);
  for (auto &x : data) {
    flat.push_back(x.num_points);
    flat.push_back(x.cell_type);
    flat.insert(flat.end(), x.points.begin(), x.points.end());
    for (auto &k : pk)
      flat.insert(flat.end(), x.point_data.at(k).begin(), x.point_data.at(k).end());
    for (auto &k : ck)
      flat.push_back(x.cell_data.at(k));
  }
  auto all = gather(flat);
  std::vector<std::vector<VCell>> out;
  for (auto &v : all) {
    if (v.empty() || v[0] == 0)
      continue;
    out.emplace_back();
    std::size_t p = 1;
    while (p < v.size()) {
      VCell x;
      const int n = static_cast<int>(v[p++]);
      x.type = static_cast<int>(v[p++]);
      x.pts.assign(v.begin() + p, v.begin() + p + 3 * n);
      p += 3 * n;
      for (auto &k : pk) {
        x.pd[k].assign(v.begin() + p, v.begin() + p + n);
        p += n;
      }
      for (auto &k : ck)
        x.cd[k] = v[p++];
      out.back().push_back(x);
    }
  }
  return out;
}

void compare_vtk(const std::vector<std::vector<VCell>> &got, const std::vector<std::vector<VCell>> &want, const std::string &s, Case &c) {
  for (std::size_t k = 0; k < want.size(); k++) {
    if (!VH_CHECK(got[k].size() == want[k].size(), "vtk/cells", s << " piece " << k << " has " << got[k].size() << " cells, expected " << want[k].size()))
      continue;
    for (std::size_t q = 0; q < want[k].size(); q++) {
      auto &a = got[k][q], &b = want[k][q];
      VH_CHECK(a.type == b.type, "vtk/cell-type", s << " piece " << k << " cell " << q << " has type " << a.type << " expected " << b.type);
      VH_CHECK(a.pts == b.pts, "vtk/points", s << " piece " << k << " cell " << q << " has points " << vh::str(a.pts) << " expected " << vh::str(b.pts));
      VH_CHECK(a.cd == b.cd, "vtk/cell-data", s << " piece " << k << " cell " << q << " has other cell data");
      VH_CHECK(a.pd == b.pd, "vtk/point-data", s << " piece " << k << " cell " << q << " has other point data");
      vh::count("vtk_cells_read");
      c.nontrivial = true;
    }
  }
}

void sc_vtk(Case &c) {
  static const std::vector<std::pair<VTK::CellType, int>> kinds = {{VTK::point, 1}, {VTK::line, 2}, {VTK::triangle, 3}, {VTK::quadrilateral, 4}, {VTK::tetrahedron, 4}, {VTK::pyramid, 5}, {VTK::wedge, 6}, {VTK::hex, 8}};
  std::set<std::string> pk, ck;
  for (const char *k : {"value", "u", "A very long name of data"}) {
    if (c.rng.chance(0.4))
      pk.insert(k);
    if (c.rng.chance(0.4))
      ck.insert(k);
  }
  const bool some_empty = c.rng.chance(0.5), subset = size() > 1 && c.rng.chance(0.2);
  const bool pass_keys = some_empty || c.rng.chance(0.5);
  const int fixed = c.rng.chance(0.3) ? c.rng.range(0, static_cast<int>(kinds.size()) - 1) : -1;
  const std::uint64_t seed = c.rng.u64();
  // members of the communicator, in an order of their own
  auto member = [&](int rk) { return !subset || rk == 0 || (hash64(seed, rk) & 1); };
  auto empty = [&](int rk) { return some_empty && (hash64(seed, rk, 5) % 3) == 0; };
  std::vector<VTK::UnstructuredCell> data;
  Rng &r = c.lrng;
  if (member(rank())) {
    const int n = empty(rank()) ? 0 : r.range(1, 12);
    for (int i = 0; i < n; i++) {
      auto kd = kinds[fixed >= 0 ? fixed : r.range(0, static_cast<int>(kinds.size()) - 1)];
      VTK::UnstructuredCell x;
      x.num_points = kd.second;
      x.cell_type = kd.first;
      for (int k = 0; k < 3 * kd.second; k++)
        x.points.push_back(r.real(-10, 10));
      for (auto &k : pk)
        for (int p = 0; p < kd.second; p++)
          x.point_data[k].push_back(r.real(-10, 10));
      for (auto &k : ck)
        x.cell_data[k] = r.real(-10, 10);
      data.push_back(std::move(x));
    }
  }
  c.desc << pk.size() << " point and " << ck.size() << " cell quantities, empty ranks " << some_empty << " subset " << subset << " kind " << fixed;
  const std::string s = "vtk file (" + c.desc.str() + ")";
  const std::string fname = outdir() + "/v" + std::to_string(c.index) + ".vtkhdf";
  auto want = gather_cells(data, pk, ck, member(rank()));
  MPI_Comm comm = vh::world_comm();
  if (subset)
    MPI_Comm_split(vh::world_comm(), member(rank()) ? 0 : MPI_UNDEFINED, rank(), &comm);
  {
    VTK::VTKHDF f(fname, comm);
    f.write(data, pass_keys ? pk : std::set<std::string>{}, pass_keys ? ck : std::set<std::string>{});
    f.close();
  }
  if (subset && comm != MPI_COMM_NULL)
    MPI_Comm_free(&comm);
  MPI_Barrier(vh::comm());
  if (rank() == 0) {
    bool any = false;
    for (auto &x : want)
      any = any || !x.empty();
    auto got = read_vtk(fname, static_cast<int>(want.size()), any || pass_keys ? pk : std::set<std::string>{}, any || pass_keys ? ck : std::set<std::string>{}, s);
    compare_vtk(got, want, s, c);
    vh::count("vtk_files");
    std::remove(fname.c_str());
  }
  MPI_Barrier(vh::comm());
  c.nontrivial = true;
}

// functions on the boundary of a Cartesian mesh
void sc_vtkfn(Case &c) {
  World W(random_world(c.rng, 5, size()));
  c.desc << W.wp.str();
  const int nd = W.wp.ndim;
  std::vector<INT> all(W.mesh->get_owned_face_cells()), mine;
  const bool every = c.rng.chance(0.5);
  for (auto x : all)
    if (every || c.lrng.chance(0.5))
      mine.push_back(x);
  c.lrng.shuffle(mine);
  CartesianHMeshFunction fn(W.mesh, W.target, nd - 1, mine, "DG", 0, 1);
  std::vector<REAL> v(mine.size());
  std::vector<VTK::UnstructuredCell> data;
  for (std::size_t i = 0; i < mine.size(); i++) {
    v[i] = c.lrng.real(-4, 4);
    // the face as the documentation numbers it
    VTK::UnstructuredCell x;
    x.num_points = nd == 2 ? 2 : 4;
    x.cell_type = nd == 2 ? VTK::line : VTK::quadrilateral;
    INT ft[3] = {0, 0, 0}, mt[3] = {0, 0, 0};
    W.mesh->get_face_id_as_tuple(mine[i], ft);
    W.mesh->get_mesh_tuple_owning_face_tuple(ft, mt);
    static const int v2[4][2] = {{0, 1}, {1, 2}, {3, 2}, {0, 3}};
    static const int v3[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {3, 2, 6, 7}, {0, 3, 7, 4}, {0, 1, 2, 3}, {4, 5, 6, 7}};
    static const int off[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (int p = 0; p < x.num_points; p++) {
      const int k = nd == 2 ? v2[ft[0]][p] : v3[ft[0]][p];
      for (int d = 0; d < 3; d++)
        x.points.push_back((mt[d] + off[k][d]) * W.mesh->cell_width_fine);
    }
    x.cell_data["u"] = v[i];
    data.push_back(x);
  }
  const std::string s = "boundary function on " + W.wp.str();
  fn.fill(c.rng.real());
  fn.set_dofs(v);
  VH_CHECK(fn.get_dofs() == v, "vtk/dofs", s << " dofs changed");
  const std::string fname = outdir() + "/b" + std::to_string(c.index) + ".vtkhdf";
  fn.write_vtkhdf(fname);
  // pieces are in the order of the communicator of the mesh
  int mr = 0;
  MPI_Comm_rank(W.mesh->get_comm(), &mr);
  const auto order = gather(std::vector<std::int64_t>{mr});
  auto gathered = gather_cells(data, {}, {"u"}, true);
  MPI_Barrier(vh::comm());
  if (rank() == 0) {
    std::vector<std::vector<VCell>> want(size());
    for (int k = 0; k < size(); k++)
      want[order[k][0]] = gathered[k];
    auto got = read_vtk(fname, size(), {}, {"u"}, s);
    for (auto &p : got)
      for (auto &x : p)
        for (auto &y : x.pts)
          y = std::round(y / W.mesh->cell_width_fine * 1e6) / 1e6;
    for (auto &p : want)
      for (auto &x : p)
        for (auto &y : x.pts)
          y = std::round(y / W.mesh->cell_width_fine * 1e6) / 1e6;
    compare_vtk(got, want, s, c);
    vh::count("vtk_files");
    std::remove(fname.c_str());
  }
  MPI_Barrier(vh::comm());
  c.nontrivial = true;
  W.free();
}

// cells of a mesh hierarchy
void sc_mhvtk(Case &c) {
  Rng &r = c.rng;
  const int nd = r.range(1, 3);
  const int sub = r.range(0, nd == 3 ? 1 : 2), nf = 1 << sub;
  std::vector<int> dims(nd);
  std::vector<double> org(nd);
  const double extent = r.pick(std::vector<double>{1.0, 0.5, 2.0, 4.0});
  for (int d = 0; d < nd; d++) {
    dims[d] = r.range(1, nd == 3 ? 2 : 4);
    org[d] = r.pick(std::vector<double>{0.0, 0.0, -0.5, 1.0, 0.25, -3.5});
  }
  auto mh = std::make_shared<MeshHierarchy>(vh::world_comm(), nd, dims, org, extent, sub);
  std::ostringstream ss;
  ss << "hierarchy " << vh::str(dims) << " subdivision " << sub << " extent " << extent << " origin " << vh::str(org);
  c.desc << ss.str();
  const std::string s = ss.str();
  std::vector<int> n(3, 1);
  int total = 1;
  for (int d = 0; d < nd; d++)
    total *= n[d] = dims[d] * nf;
  typedef std::array<long, 3> K; // coordinates in units of 1/1024
  typedef std::pair<K, K> Edge;
  auto edges_of = [&](const int *t, double w, std::set<Edge> &out) {
    for (int d = 0; d < nd; d++)
      for (int m = 0; m < (1 << nd); m++) {
        if ((m >> d) & 1)
          continue;
        K a{0, 0, 0}, b{0, 0, 0};
        for (int e = 0; e < nd; e++) {
          a[e] = std::lround((org[e] + (t[e] + ((m >> e) & 1)) * w) * 1024);
          b[e] = std::lround((org[e] + (t[e] + ((m >> e) & 1) + (e == d)) * w) * 1024);
        }
        out.insert(a < b ? Edge{a, b} : Edge{b, a});
      }
  };
  auto check = [&](const std::string &fname, const std::set<Edge> &want, const std::string &what) {
    std::ifstream f(fname);
    if (!VH_CHECK(f.good(), "vtk/mh-missing", s << " " << what << " wrote no file"))
      return;
    std::string tok, line;
    std::getline(f, line);
    VH_CHECK(line.rfind("# vtk DataFile", 0) == 0, "vtk/mh-header", s << " header " << line);
    std::vector<K> pts;
    std::vector<std::vector<long>> cells;
    long types = -1;
    bool grid = false;
    while (f >> tok) {
      if (tok == "UNSTRUCTURED_GRID")
        grid = true;
      else if (tok == "POINTS") {
        long k;
        f >> k >> tok;
        for (long i = 0; i < k; i++) {
          double x[3];
          if (!(f >> x[0] >> x[1] >> x[2]))
            break;
          pts.push_back({std::lround(x[0] * 1024), std::lround(x[1] * 1024), std::lround(x[2] * 1024)});
        }
        VH_CHECK(static_cast<long>(pts.size()) == k, "vtk/mh-points", s << " " << what << " has " << pts.size() << " of " << k << " points");
      } else if (tok == "CELLS") {
        long k, ints, used = 0;
        f >> k >> ints;
        for (long i = 0; i < k; i++) {
          long m;
          if (!(f >> m) || m < 0 || m > 8)
            break;
          std::vector<long> v(m);
          for (auto &x : v)
            f >> x;
          used += m + 1;
          cells.push_back(v);
        }
        VH_CHECK(static_cast<long>(cells.size()) == k && used == ints, "vtk/mh-cells", s << " " << what << " announces " << k << " cells of " << ints << " numbers, holds " << cells.size() << " of " << used);
      } else if (tok == "CELL_TYPES") {
        long k;
        f >> k;
        types = 0;
        long t;
        while (f >> t) {
          VH_CHECK(t == 3, "vtk/mh-types", s << " " << what << " has a cell of type " << t);
          types++;
        }
        VH_CHECK(types == k, "vtk/mh-types", s << " " << what << " announces " << k << " types, holds " << types);
      }
    }
    VH_CHECK(grid, "vtk/mh-header", s << " is not an unstructured grid");
    VH_CHECK(types == static_cast<long>(cells.size()), "vtk/mh-types", s << " " << what << " has " << cells.size() << " cells and " << types << " types");
    std::set<K> uniq(pts.begin(), pts.end());
    VH_CHECK(uniq.size() == pts.size(), "vtk/mh-points", s << " " << what << " repeats points");
    std::set<Edge> got;
    for (auto &v : cells) {
      if (!VH_CHECK(v.size() == 2 && v[0] >= 0 && v[1] >= 0 && v[0] < static_cast<long>(pts.size()) && v[1] < static_cast<long>(pts.size()), "vtk/mh-cells", s << " " << what << " has a bad line"))
        continue;
      K a = pts[v[0]], b = pts[v[1]];
      got.insert(a < b ? Edge{a, b} : Edge{b, a});
    }
    std::size_t missing = 0, extra = 0;
    for (auto &e : want)
      missing += !got.count(e);
    for (auto &e : got)
      extra += !want.count(e);
    VH_CHECK(missing == 0 && extra == 0, "vtk/mh-lines", s << " " << what << " misses " << missing << " lines and has " << extra << " that belong to no cell, of " << want.size());
    vh::count("vtk_lines_read", got.size());
    vh::count("vtk_files");
  };
  const std::string base = outdir() + "/m" + std::to_string(c.index);
  // every rank writes cells of its own
  {
    VTKMeshHierarchyCellsWriter w(mh);
    const std::string fn = base + "_" + std::to_string(rank()) + ".vtk";
    std::set<Edge> want;
    for (int round = 0; round < 2; round++) {
      const int k = c.lrng.range(0, 8);
      for (int i = 0; i < k; i++) {
        int t[3] = {0, 0, 0};
        INT tup[6];
        for (int d = 0; d < nd; d++) {
          t[d] = c.lrng.range(0, n[d] - 1);
          tup[d] = t[d] / nf;
          tup[nd + d] = t[d] % nf;
        }
        w.push_back(mh->tuple_to_linear_global(tup));
        edges_of(t, extent / nf, want);
      }
      w.write(fn);
      check(fn, want, "write");
      std::remove(fn.c_str());
    }
  }
  for (int fine = 0; fine < 2; fine++) {
    VTKMeshHierarchyCellsWriter w(mh);
    const std::string fn = base + (fine ? "_fine.vtk" : "_coarse.vtk");
    if (fine)
      w.write_all_fine(fn);
    else
      w.write_all_coarse(fn);
    if (rank() == 0) {
      std::set<Edge> want;
      const int f = fine ? nf : 1;
      for (int z = 0; z < (nd > 2 ? dims[2] * f : 1); z++)
        for (int y = 0; y < (nd > 1 ? dims[1] * f : 1); y++)
          for (int x = 0; x < dims[0] * f; x++) {
            const int t[3] = {x, y, z};
            edges_of(t, extent / f, want);
          }
      check(fn, want, fine ? "write_all_fine" : "write_all_coarse");
      std::remove(fn.c_str());
    }
    MPI_Barrier(vh::comm());
  }
  c.nontrivial = true;
  mh->free();
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv, {{"overlay", sc_overlay, 2}, {"claim", sc_claim, 2}, {"dof", sc_dof, 1}, {"cmap", sc_cmap, 1}, {"vtk", sc_vtk, 3}, {"vtkfn", sc_vtkfn, 1}, {"mhvtk", sc_mhvtk, 1}});
}
