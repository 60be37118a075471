// P22 H5Part files, P36 parallel initialisation, P37 kernel error reporting
// and pooled resources, P35 configuration independence.
#include "world.hpp"
#include <cmath>
#include <hdf5.h>
#include <cstring>
#include <fstream>
using namespace vh;
using namespace NESO::Particles;

namespace {

std::int64_t bits(double v) {
  std::int64_t q;
  std::memcpy(&q, &v, 8);
  return q;
}
double unbits(std::int64_t q) {
  double v;
  std::memcpy(&v, &q, 8);
  return v;
}

// ------------------------------------------------------------------ h5

double tr_value(std::int64_t id, std::int64_t stamp, int c) {
  return static_cast<double>(hash64(id, stamp, c, 9) >> 14) * 0x1p-20;
}
std::int64_t ti_value(std::int64_t id, std::int64_t stamp) {
  return static_cast<std::int64_t>(hash64(id, stamp, 3, 10) >> 2);
}

// Columns of one step of a file read with the serial interface on rank 0.
struct Column {
  bool real;
  std::vector<double> r;
  std::vector<std::int64_t> i;
};
std::map<std::string, Column> read_step(hid_t f, const std::string &name,
                                        const std::string &s) {
  std::map<std::string, Column> out;
  hid_t g = H5Gopen2(f, name.c_str(), H5P_DEFAULT);
  if (!VH_CHECK(g >= 0, "h5/missing-step", s << " step group " << name << " does not exist"))
    return out;
  H5G_info_t gi;
  H5Gget_info(g, &gi);
  for (hsize_t k = 0; k < gi.nlinks; k++) {
    char nm[256];
    H5Lget_name_by_idx(g, ".", H5_INDEX_NAME, H5_ITER_INC, k, nm, 256, H5P_DEFAULT);
    hid_t d = H5Dopen2(g, nm, H5P_DEFAULT);
    hid_t t = H5Dget_type(d), sp = H5Dget_space(d);
    hsize_t dims[8] = {0};
    const int nd = H5Sget_simple_extent_ndims(sp);
    VH_CHECK(nd == 1, "h5/shape", s << " dataset " << nm << " has " << nd << " dimensions");
    H5Sget_simple_extent_dims(sp, dims, nullptr);
    Column c;
    c.real = H5Tget_class(t) == H5T_FLOAT;
    VH_CHECK(H5Tget_size(t) == 8, "h5/type", s << " dataset " << nm << " has elements of " << H5Tget_size(t) << " bytes");
    if (c.real) {
      c.r.resize(dims[0]);
      if (dims[0])
        H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, c.r.data());
    } else {
      c.i.resize(dims[0]);
      if (dims[0])
        H5Dread(d, H5T_NATIVE_INT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, c.i.data());
    }
    out[nm] = std::move(c);
    H5Sclose(sp);
    H5Tclose(t);
    H5Dclose(d);
  }
  H5Gclose(g);
  return out;
}

struct Snapshot {
  std::map<std::int64_t, std::vector<double>> pos; // by ID, all ranks
  std::int64_t stamp;
};

void sc_h5(Case &c) {
  auto wp = random_world(c.rng, 4, vh::size());
  World W(wp);
  auto dats = World::random_dats(c.rng, 3);
  auto all = dats;
  all.push_back({"TR", 2, true});
  all.push_back({"TI", 1, false});
  W.setup(all); // payload of TR, TI is overwritten below
  W.dats = dats;
  const int nd = wp.ndim;
  const int style = c.rng.range(0, 5);
  auto how_many = [&]() -> int {
    if (style == 0)
      return 0;
    if (style == 1)
      return vh::rank() == 0 ? c.lrng.range(0, 4) : 0;
    return c.lrng.chance(0.3) ? 0 : c.lrng.range(0, 60);
  };
  std::int64_t next = static_cast<std::int64_t>(vh::rank()) << 32;
  {
    const int n = how_many();
    W.dats = all;
    W.add_local(c.lrng, n, next, c.rng.chance(0.4));
    W.dats = dats;
    next += n;
  }
  if (c.rng.chance(0.5))
    W.A->hybrid_move();

  // what is written
  const bool sub = c.rng.chance(0.45);
  ParticleSubGroupSharedPtr sg;
  const INT mod = c.rng.range(1, 4);
  const INT pick = c.rng.range(0, 4); // may select nothing
  if (sub)
    sg = c.rng.chance(0.2)
             ? particle_sub_group(W.A)
             : particle_sub_group(
                   W.A, [=](auto ID) { return ID.at(0) % mod == pick; },
                   Access::read(Sym<INT>("ID")));
  const bool whole_sub = sub && sg->is_entire_particle_group();
  auto selected = [&](std::int64_t id) {
    return !sub || whole_sub || id % mod == pick;
  };
  std::vector<Sym<REAL>> sr{Sym<REAL>("TR")};
  std::vector<Sym<INT>> si{Sym<INT>("ID"), Sym<INT>("TI")};
  std::vector<DatSpec> written;
  bool with_p = c.rng.chance(0.6), with_cell = c.rng.chance(0.3);
  for (auto &x : dats)
    if (c.rng.chance(0.75)) {
      written.push_back(x);
      if (x.is_real)
        sr.push_back(Sym<REAL>(x.name));
      else
        si.push_back(Sym<INT>(x.name));
    }
  if (with_p)
    sr.push_back(Sym<REAL>("P"));
  if (with_cell)
    si.push_back(Sym<INT>("CELL_ID"));
  c.rng.shuffle(sr);
  c.rng.shuffle(si);
  std::map<std::string, bool> names; // expected datasets -> is real
  for (int d = 0; d < nd; d++)
    names[std::string(1, "xyz"[d])] = true;
  auto expect = [&](const std::string &n, int nc, bool real) {
    for (int k = 0; k < nc; k++)
      names[n + "_" + std::to_string(k)] = real;
  };
  for (auto &x : written)
    expect(x.name, x.ncomp, x.is_real);
  expect("TR", 2, true);
  expect("TI", 1, false);
  expect("ID", 1, false);
  if (with_p)
    expect("P", nd, true);
  if (with_cell)
    expect("CELL_ID", 1, false);

  const std::string fname =
      outdir() + "/f" + std::to_string(c.index) + ".h5part";
  c.desc << wp.str() << (sub ? " sub group" : " group") << " style " << style
         << " columns " << names.size();
  const std::string s = c.desc.str();
  std::map<std::int64_t, Snapshot> snaps; // by step
  {
    std::shared_ptr<H5Part> h;
    if (sub)
      h = std::make_shared<H5Part>(fname, sg, sr, si);
    else
      h = std::make_shared<H5Part>(fname, W.A, sr, si);
    const int nsteps = c.rng.range(0, 4);
    std::int64_t at = 0;
    for (int k = 0; k < nsteps; k++) {
      // change what is stored
      if (k > 0 || c.rng.chance(0.5)) {
        const int what = c.rng.range(0, 3);
        if (what == 0) {
          const int n = how_many();
          W.dats = all;
          W.add_local(c.lrng, n, next);
          W.dats = dats;
          next += n;
        } else if (what == 1) {
          const INT m = c.rng.range(1, 3);
          auto rm = particle_sub_group(
              W.A, [=](auto ID) { return (ID.at(0) / 3) % m == 0; },
              Access::read(Sym<INT>("ID")));
          W.A->remove_particles(rm);
        } else if (what == 2) {
          const double sc = c.rng.real(0.3, 0.99);
          particle_loop(
              W.A,
              [=](auto P) {
                for (int d = 0; d < nd; d++)
                  P.at(d) = P.at(d) * sc;
              },
              Access::write(Sym<REAL>("P")))
              ->execute();
        }
        if (c.rng.chance(0.4))
          W.A->hybrid_move();
      }
      const std::int64_t stamp = hash64(c.seed, k) % 100000;
      Snapshot sn;
      sn.stamp = stamp;
      std::vector<std::int64_t> flat;
      for (int cx = 0; cx < W.ncell(); cx++) {
        auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
        auto P = W.A->get_cell(Sym<REAL>("P"), cx);
        auto TR = W.A->get_cell(Sym<REAL>("TR"), cx);
        auto TI = W.A->get_cell(Sym<INT>("TI"), cx);
        for (int l = 0; l < ID->nrow; l++) {
          const auto id = ID->at(l, 0);
          TR->at(l, 0) = tr_value(id, stamp, 0);
          TR->at(l, 1) = tr_value(id, stamp, 1);
          TI->at(l, 0) = ti_value(id, stamp);
          if (!selected(id))
            continue;
          flat.push_back(id);
          for (int d = 0; d < nd; d++)
            flat.push_back(bits(P->at(l, d)));
        }
        if (ID->nrow) {
          W.A->get_dat(Sym<REAL>("TR"))->cell_dat.set_cell(cx, TR);
          W.A->get_dat(Sym<INT>("TI"))->cell_dat.set_cell(cx, TI);
        }
      }
      for (auto &v : allgather(flat))
        for (std::size_t i = 0; i + nd < v.size(); i += nd + 1) {
          auto &p = sn.pos[v[i]];
          for (int d = 0; d < nd; d++)
            p.push_back(unbits(v[i + 1 + d]));
        }
      if (c.rng.chance(0.4)) {
        at = at + c.rng.range(0, 5);
        h->write(at);
      } else
        h->write();
      snaps[at] = sn;
      at++;
      if (c.rng.chance(0.3))
        h->close();
      if (c.rng.chance(0.15))
        h->close();
    }
    h->close();
  }
  MPI_Barrier(vh::comm());
  // the file as any other reader sees it
  if (vh::rank() == 0) {
    hid_t f = H5Fopen(fname.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (VH_CHECK(f >= 0, "h5/open", s << " the file cannot be opened")) {
      H5G_info_t gi;
      H5Gget_info_by_name(f, "/", &gi, H5P_DEFAULT);
      VH_CHECK(gi.nlinks == snaps.size(), "h5/steps", s << " file has " << gi.nlinks << " steps, written " << snaps.size());
      for (auto &sx : snaps) {
        auto &sn = sx.second;
        const std::string q = s + " step " + std::to_string(sx.first);
        auto cols = read_step(f, "Step#" + std::to_string(sx.first), q);
        vh::count("h5_steps");
        vh::count("h5_columns", cols.size());
        if (sn.pos.empty()) {
          for (auto &x : cols)
            VH_CHECK(x.second.r.empty() && x.second.i.empty(), "h5/rows", q << " nothing was written but " << x.first << " has rows");
          vh::count("h5_empty_steps");
          continue;
        }
        bool ok = true;
        for (auto &x : names) {
          const bool there = cols.count(x.first) > 0;
          ok = VH_CHECK(there, "h5/missing-column", q << " no dataset " << x.first) && ok;
          if (there) {
            auto &cc = cols.at(x.first);
            ok = VH_CHECK(cc.real == x.second, "h5/type", q << " dataset " << x.first << " has the wrong type") && ok;
            const std::size_t n = cc.real ? cc.r.size() : cc.i.size();
            ok = VH_CHECK(n == sn.pos.size(), "h5/rows", q << " dataset " << x.first << " has " << n << " rows for " << sn.pos.size() << " particles") && ok;
          }
        }
        for (auto &x : cols)
          VH_CHECK(names.count(x.first), "h5/extra-column", q << " dataset " << x.first << " was not requested");
        if (!ok)
          continue;
        auto &ids = cols.at("ID_0").i;
        std::vector<std::int64_t> want;
        for (auto &x : sn.pos)
          want.push_back(x.first);
        compare_ids(ids, want, "h5/particles", q);
        for (std::size_t r = 0; r < ids.size(); r++) {
          const auto id = ids[r];
          auto it = sn.pos.find(id);
          if (it == sn.pos.end())
            continue;
          vh::count("h5_rows");
          for (int d = 0; d < nd; d++) {
            const std::string x(1, "xyz"[d]);
            VH_CHECK(bits(cols.at(x).r[r]) == bits(it->second[d]), "h5/position", q << " particle " << id << " " << x << " is " << cols.at(x).r[r] << " expected " << it->second[d]);
            if (with_p) {
              const double v = cols.at("P_" + std::to_string(d)).r[r];
              VH_CHECK(bits(v) == bits(it->second[d]), "h5/position", q << " particle " << id << " P_" << d << " is " << v << " expected " << it->second[d]);
            }
          }
          for (int k = 0; k < 2; k++) {
            const double v = cols.at("TR_" + std::to_string(k)).r[r];
            VH_CHECK(v == tr_value(id, sn.stamp, k), "h5/value", q << " particle " << id << " TR_" << k << " is " << v << " expected " << tr_value(id, sn.stamp, k));
          }
          VH_CHECK(cols.at("TI_0").i[r] == ti_value(id, sn.stamp), "h5/value", q << " particle " << id << " TI_0");
          for (auto &x : written)
            for (int k = 0; k < x.ncomp; k++) {
              auto &cc = cols.at(x.name + "_" + std::to_string(k));
              if (x.is_real)
                VH_CHECK(cc.r[r] == pay_real(id, name_hash(x.name), k), "h5/value", q << " particle " << id << " " << x.name << "_" << k << " is " << cc.r[r]);
              else
                VH_CHECK(cc.i[r] == pay_int(id, name_hash(x.name), k), "h5/value", q << " particle " << id << " " << x.name << "_" << k << " is " << cc.i[r]);
            }
        }
      }
      H5Fclose(f);
    }
  }
  MPI_Barrier(vh::comm());
  // reading through the library
  if (!snaps.empty()) {
    H5Part h(fname, W.target);
    const int reads = c.rng.range(1, 3);
    for (int rd = 0; rd < reads; rd++) {
      auto it = snaps.begin();
      std::advance(it, c.rng.below(snaps.size()));
      auto &sn = it->second;
      const bool xyz = !with_p || c.rng.chance(0.5);
      ParticleSpec ps{ParticleProp(Sym<INT>("ID"), 1)};
      const std::string pn = xyz && c.rng.chance(0.3) ? "WHERE" : "P";
      ps.push(ParticleProp(Sym<REAL>(pn), nd, true));
      std::vector<DatSpec> rdats;
      for (auto &x : written)
        if (c.rng.chance(0.7)) {
          auto y = x;
          y.ncomp = c.rng.range(1, x.ncomp);
          rdats.push_back(y);
          if (y.is_real)
            ps.push(ParticleProp(Sym<REAL>(y.name), y.ncomp));
          else
            ps.push(ParticleProp(Sym<INT>(y.name), y.ncomp));
        }
      const bool tr = c.rng.chance(0.7);
      if (tr)
        ps.push(ParticleProp(Sym<REAL>("TR"), 2));
      const std::string q = s + " read step " + std::to_string(it->first) +
                            (xyz ? " xyz" : "");
      ParticleSetSharedPtr set;
      std::string why;
      const bool rej = rejects([&] { set = h.read(ps, it->first, xyz); }, &why);
      if (!VH_CHECK(!rej, sn.pos.empty() ? "h5/read-empty" : "h5/read", q << " of " << sn.pos.size() << " particles failed: " << why))
        break;
      std::vector<std::int64_t> mine;
      for (int r = 0; r < set->npart; r++) {
        const INT id = set->at(Sym<INT>("ID"), r, 0);
        mine.push_back(id);
        auto f = sn.pos.find(id);
        if (f == sn.pos.end())
          continue;
        vh::count("h5_rows_read");
        for (int d = 0; d < nd; d++)
          VH_CHECK(bits(set->at(Sym<REAL>(pn), r, d)) == bits(f->second[d]), "h5/read-value", q << " particle " << id << " position " << d << " is " << set->at(Sym<REAL>(pn), r, d) << " expected " << f->second[d]);
        if (tr)
          for (int k = 0; k < 2; k++)
            VH_CHECK(set->at(Sym<REAL>("TR"), r, k) == tr_value(id, sn.stamp, k), "h5/read-value", q << " particle " << id << " TR " << k);
        for (auto &x : rdats)
          for (int k = 0; k < x.ncomp; k++) {
            if (x.is_real)
              VH_CHECK(set->at(Sym<REAL>(x.name), r, k) == pay_real(id, name_hash(x.name), k), "h5/read-value", q << " particle " << id << " " << x.name << " " << k);
            else
              VH_CHECK(set->at(Sym<INT>(x.name), r, k) == pay_int(id, name_hash(x.name), k), "h5/read-value", q << " particle " << id << " " << x.name << " " << k);
          }
      }
      std::vector<std::int64_t> got, want;
      for (auto &v : allgather(mine))
        got.insert(got.end(), v.begin(), v.end());
      for (auto &x : sn.pos)
        want.push_back(x.first);
      compare_ids(got, want, "h5/read-particles", q);
      if (c.rng.chance(0.3))
        h.close();
    }
    h.close();
  }
  sg.reset();
  MPI_Barrier(vh::comm());
  if (vh::rank() == 0)
    std::remove(fname.c_str());
  c.nontrivial = !snaps.empty();
  W.free();
}

// ------------------------------------------------------------------ init

void sc_init(Case &c) {
  auto wp = random_world(c.rng, 4, vh::size());
  World W(wp);
  W.setup(World::random_dats(c.rng, 3));
  const int nd = wp.ndim;
  const int mode = c.rng.range(0, 3);
  c.desc << wp.str() << (mode ? " advection" : " cartesian cells");
  const std::string s0 = c.desc.str();
  const double w = W.mesh->cell_width_fine;
  // boxes of cells owned by the ranks
  std::vector<std::int64_t> b;
  for (int d = 0; d < nd; d++) {
    b.push_back(W.mesh->cell_starts[d]);
    b.push_back(W.mesh->cell_ends[d]);
  }
  auto local_index = [&](const double *p, bool &edge) -> int {
    int lin = 0, mul = 1;
    edge = false;
    for (int d = 0; d < nd; d++) {
      const double q = p[d] / w;
      if (std::abs(q - std::round(q)) < 1e-9)
        edge = true;
      const std::int64_t k = static_cast<std::int64_t>(std::floor(q));
      if (k < b[2 * d] || k >= b[2 * d + 1])
        return -1;
      lin += static_cast<int>(k - b[2 * d]) * mul;
      mul *= static_cast<int>(b[2 * d + 1] - b[2 * d]);
    }
    return lin;
  };
  if (mode == 0) {
    const int per = c.rng.range(0, 9);
    std::vector<std::vector<double>> pos;
    std::vector<int> cells;
    if (c.rng.chance(0.5)) {
      std::optional<std::mt19937> rng = std::mt19937(c.lrng.range(0, 1000000));
      uniform_within_cartesian_cells(W.mesh, per, pos, cells, rng);
    } else
      uniform_within_cartesian_cells(W.mesh, per, pos, cells);
    const int N = per * W.ncell();
    VH_CHECK((int)pos.size() == nd && (int)cells.size() == N, "init/cells-size", s0 << " sizes " << pos.size() << " " << cells.size());
    std::vector<int> cnt(W.ncell(), 0);
    for (int i = 0; i < (int)cells.size(); i++) {
      double p[3] = {0, 0, 0};
      for (int d = 0; d < nd; d++)
        p[d] = pos[d].at(i);
      if (!VH_CHECK(cells[i] >= 0 && cells[i] < W.ncell(), "init/cells-range", s0 << " cell " << cells[i]))
        continue;
      cnt[cells[i]]++;
      bool edge;
      const int want = local_index(p, edge);
      VH_CHECK(edge || want == cells[i], "init/cells-place", s0 << " point " << i << " lies in local cell " << want << " but was given cell " << cells[i]);
      vh::count("points_in_cells");
    }
    for (int cx = 0; cx < W.ncell(); cx++)
      VH_CHECK(cnt[cx] == per, "init/cells-count", s0 << " cell " << cx << " holds " << cnt[cx] << " expected " << per);
    c.nontrivial = per > 0;
    W.free();
    return;
  }
  // existing particles that were placed before
  const int style = c.rng.range(0, 4);
  int n = c.lrng.chance(0.2) ? 0 : c.lrng.range(0, 80);
  if (style == 0)
    n = vh::rank() == 0 ? n : 0;
  if (style == 1)
    n = vh::rank() == vh::size() - 1 ? 3 * n : 0;
  const std::int64_t id0 = static_cast<std::int64_t>(vh::rank()) << 32;
  ParticleSet ps(n, W.spec);
  std::vector<std::int64_t> flat;
  // positions where everything comes from one rank's sub domain, or anywhere
  const bool corner = c.rng.chance(0.3);
  for (int px = 0; px < n; px++) {
    auto p = W.random_point(c.lrng);
    if (corner)
      for (auto &x : p)
        x *= 0.05;
    flat.push_back(id0 + px);
    for (int d = 0; d < nd; d++) {
      ps[Sym<REAL>("P")][px][d] = p[d];
      flat.push_back(bits(p[d]));
    }
    ps[Sym<INT>("CELL_ID")][px][0] =
        c.lrng.chance(0.7) ? 0 : (int)c.lrng.below(W.ncell());
    W.payload(ps, px, id0 + px);
  }
  const int steps = c.rng.pick(std::vector<int>{1, 2, 3, 5, 8, 20, 20, 25});
  c.desc << " steps " << steps << (corner ? " corner" : "");
  const std::string s = c.desc.str();
  W.A->add_particles_local(ps);
  std::map<std::int64_t, std::vector<std::int64_t>> want;
  std::vector<std::int64_t> ids;
  for (auto &v : allgather(flat))
    for (std::size_t i = 0; i + nd < v.size(); i += nd + 1) {
      want[v[i]] = std::vector<std::int64_t>(v.begin() + i + 1, v.begin() + i + 1 + nd);
      ids.push_back(v[i]);
    }
  if (steps == 20)
    parallel_advection_initialisation(W.A);
  else
    parallel_advection_initialisation(W.A, steps);
  VH_CHECK(!W.A->contains_dat(Sym<REAL>("NESO_ORIG_POS")), "init/leftover-dat", s << " the helper property was left in the group");
  auto recs = read_group(W.A, W.dats, "init", false, s);
  std::vector<std::int64_t> have;
  for (auto &r : recs)
    have.push_back(r.id);
  std::vector<std::int64_t> got;
  for (auto &v : allgather(have))
    got.insert(got.end(), v.begin(), v.end());
  compare_ids(got, ids, "init/particles", s);
  for (int cx = 0; cx < W.ncell(); cx++) {
    auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
    auto P = W.A->get_cell(Sym<REAL>("P"), cx);
    for (int l = 0; l < ID->nrow; l++) {
      const auto id = ID->at(l, 0);
      auto it = want.find(id);
      if (it == want.end())
        continue;
      double p[3] = {0, 0, 0};
      for (int d = 0; d < nd; d++) {
        p[d] = P->at(l, d);
        VH_CHECK(bits(p[d]) == it->second[d], "init/position", s << " particle " << id << " component " << d << " is " << p[d] << " but was added at " << unbits(it->second[d]));
      }
      bool edge;
      const int lc = local_index(p, edge);
      VH_CHECK(edge || lc >= 0, "init/owner", s << " particle " << id << " is on rank " << vh::rank() << " which does not own its position");
      vh::count("advected");
      if ((id >> 32) != vh::rank())
        vh::count("advected_between_ranks");
    }
  }
  VH_CHECK(get_npart_global(W.A) == (INT)ids.size(), "init/count", s << " get_npart_global " << get_npart_global(W.A) << " expected " << ids.size());
  c.nontrivial = !ids.empty();
  W.free();
}

// ------------------------------------------------------------------ err

struct Pooled {
  int serial;
  int state = 0;
  bool freed = false;
};
struct PoolInterface : ResourceStackInterface<Pooled> {
  int *made, *cleaned, *freed;
  PoolInterface(int *a, int *b, int *c) : made(a), cleaned(b), freed(c) {}
  virtual std::shared_ptr<Pooled> construct() override {
    auto p = std::make_shared<Pooled>();
    p->serial = (*made)++;
    return p;
  }
  virtual void free(std::shared_ptr<Pooled> &p) override {
    (*freed)++;
    p->freed = true;
  }
  virtual void clean(std::shared_ptr<Pooled> &p) override {
    (*cleaned)++;
    p->state = 0;
  }
};

void sc_err(Case &c) {
  auto wp = random_world(c.rng, 3, vh::size());
  World W(wp);
  W.setup(World::random_dats(c.rng, 2));
  const int n = c.lrng.range(0, 60);
  const std::int64_t id0 = vh::rank() * 1000;
  W.add_local(c.lrng, n, id0);
  c.desc << wp.str();
  const std::string s = c.desc.str();
  {
    // several flags alive at once, private ones and pooled ones
    const int nf = c.rng.range(1, 4);
    std::vector<ErrorPropagateSharedPtr> ep;
    std::vector<bool> pooled;
    std::vector<int> want(nf, 0);
    auto acquire = [&](bool pool) {
      if (pool)
        return get_resource<ErrorPropagate, ResourceStackInterfaceErrorPropagate>(
            W.target->resource_stack_map, ResourceStackKeyErrorPropagate{},
            W.target);
      return std::make_shared<ErrorPropagate>(W.target);
    };
    for (int i = 0; i < nf; i++) {
      pooled.push_back(c.rng.chance(0.6));
      ep.push_back(acquire(pooled[i]));
    }
    const int ops = c.rng.range(3, 14);
    for (int o = 0; o < ops; o++) {
      const int i = static_cast<int>(c.rng.below(nf));
      const int op = c.rng.range(0, 5);
      if (op <= 1) {
        // a kernel that fails for the particles of some residue class
        const INT m = c.rng.range(1, 70), k = c.rng.range(0, 69);
        auto kp = ep[i]->device_ptr();
        particle_loop(
            W.A,
            [=](auto ID) {
              NESO_KERNEL_ASSERT(ID.at(0) % m != k, kp);
            },
            Access::read(Sym<INT>("ID")))
            ->execute();
        int fails = 0;
        for (int px = 0; px < n; px++)
          fails += (id0 + px) % m == k;
        want[i] += fails;
        vh::count("kernel_assertions", n);
        vh::count("kernel_assertions_failed", fails);
      } else if (op == 2) {
        ep[i]->reset();
        want[i] = 0;
      } else if (op == 3) {
        // return it and take one again: it must be clean
        if (pooled[i])
          restore_resource(W.target->resource_stack_map,
                           ResourceStackKeyErrorPropagate{}, ep[i]);
        else
          ep[i].reset();
        pooled[i] = c.rng.chance(0.7);
        ep[i] = acquire(pooled[i]);
        want[i] = 0;
      }
      for (int j = 0; j < nf; j++) {
        if (op != 4 && j != i)
          continue;
        const int f = ep[j]->get_flag();
        VH_CHECK((f != 0) == (want[j] != 0), "err/flag", s << " flag " << j << " is " << f << " after " << want[j] << " failed assertions");
        std::string what;
        // not a rejection of a bad call: reported as documented
        const bool thrown = rejects(
            [&] { ep[j]->check_and_throw("vh expected error"); }, &what);
        VH_CHECK(thrown == (want[j] != 0), "err/throw", s << " flag " << j << (thrown ? " threw" : " did not throw") << " after " << want[j] << " failed assertions");
        if (thrown)
          VH_CHECK(what.find("vh expected error") != std::string::npos, "err/message", s << " message lost: " << what);
        for (int k = 0; k < nf; k++)
          for (int l = 0; l < k; l++)
            VH_CHECK(ep[k]->device_ptr() != ep[l]->device_ptr(), "err/shared", s << " two flags share memory");
        vh::count("flags_read");
      }
    }
    for (int i = 0; i < nf; i++)
      if (pooled[i])
        restore_resource(W.target->resource_stack_map,
                         ResourceStackKeyErrorPropagate{}, ep[i]);
  }
  {
    // the pools themselves
    int made = 0, cleaned = 0, freed = 0;
    auto iface = std::make_shared<PoolInterface>(&made, &cleaned, &freed);
    ResourceStack<Pooled> st(iface);
    std::vector<std::shared_ptr<Pooled>> out;
    int most = 0, restored = 0;
    const int ops = c.rng.range(0, 40);
    for (int o = 0; o < ops; o++) {
      if (out.empty() || c.rng.chance(0.55)) {
        auto p = st.get();
        VH_CHECK(p->state == 0, "pool/dirty", s << " object " << p->serial << " was handed out in the state its last user left");
        VH_CHECK(!p->freed, "pool/freed", s << " a freed object was handed out");
        for (auto &x : out)
          VH_CHECK(x != p && x->serial != p->serial, "pool/shared", s << " object " << p->serial << " was handed out twice");
        p->state = 1 + o;
        out.push_back(p);
        most = std::max(most, (int)out.size());
      } else {
        const std::size_t i = c.rng.below(out.size());
        std::swap(out[i], out.back());
        auto p = out.back();
        out.pop_back();
        st.restore(p);
        restored++;
        VH_CHECK(p == nullptr, "pool/reference", s << " the caller keeps a reference to the returned object");
      }
      vh::count("pool_operations");
    }
    VH_CHECK(made == most, "pool/growth", s << " " << made << " objects were made for at most " << most << " in use");
    VH_CHECK(cleaned == restored, "pool/clean", s << " " << cleaned << " cleaned for " << restored << " returned");
    if (!out.empty()) {
      const bool t = rejects([&] { st.free(); });
      VH_CHECK(t && freed == 0, "pool/free-in-use", s << " the pool was freed with " << out.size() << " objects in use");
    }
    while (!out.empty()) {
      auto p = out.back();
      out.pop_back();
      st.restore(p);
    }
    st.free();
    VH_CHECK(freed == made, "pool/free", s << " " << freed << " of " << made << " objects were released");
  }
  c.nontrivial = true;
  W.free();
}

// ----------------------------------------------------------------- temp

// Temporary particle groups of a group whose properties change in between.
struct TempUse {
  ParticleGroupSharedPtr g;
  std::vector<DatSpec> dats;
  std::vector<std::int64_t> ids;
};

void sc_temp(Case &c) {
  auto wp = random_world(c.rng, 3, vh::size());
  World W(wp);
  W.setup(World::random_dats(c.rng, 3));
  const int n = c.lrng.range(0, 40);
  std::int64_t next = vh::rank() * 1000000;
  W.add_local(c.lrng, n, next);
  std::vector<std::int64_t> ids0;
  for (int px = 0; px < n; px++)
    ids0.push_back(next + px);
  next += n;
  c.desc << wp.str() << " temporary groups";
  const std::string s = c.desc.str();
  auto look = [&](ParticleGroupSharedPtr g, const std::vector<DatSpec> &dats, const std::vector<std::int64_t> &want, const std::string &what) {
    std::vector<std::int64_t> got;
    for (auto &x : read_group(g, dats, "temp", true, s + " " + what))
      got.push_back(x.id);
    compare_ids(got, want, "temp", s + " " + what);
    std::size_t nd = 3;
    for (auto &x : dats) {
      nd++;
      VH_CHECK(x.is_real ? g->contains_dat(Sym<REAL>(x.name)) : g->contains_dat(Sym<INT>(x.name)), "temp/missing-dat", s << " " << what << " has no " << x.name);
    }
    // positions, cells, ids, ranks and the payload
    nd += g->contains_dat(Sym<INT>("NESO_MPI_RANK"));
    VH_CHECK(g->particle_dats_real.size() + g->particle_dats_int.size() == nd, "temp/extra-dat", s << " " << what << " has " << g->particle_dats_real.size() + g->particle_dats_int.size() << " properties, expected " << nd);
    VH_CHECK(g->position_dat && g->position_dat->sym.name == "P" && g->position_dat->ncomp == wp.ndim && g->cell_id_dat && g->cell_id_dat->sym.name == "CELL_ID", "temp/positions", s << " " << what << " has another position or cell property");
  };
  ParticleGroupTemporary pool;
  std::vector<TempUse> out;
  std::set<ParticleGroup *> seen;
  std::vector<DatSpec> dats = W.dats;
  int serial = 0;
  const int ops = c.rng.range(3, 16);
  for (int o = 0; o < ops; o++) {
    const int op = c.rng.range(0, 5);
    if (op <= 1 || out.empty()) {
      if (out.size() >= 4)
        continue;
      TempUse u;
      u.g = pool.get(W.A);
      u.dats = dats;
      VH_CHECK(u.g && u.g != W.A, "temp/shared", s << " the group itself is handed out");
      for (auto &x : out)
        VH_CHECK(x.g != u.g, "temp/shared", s << " a temporary group was handed out twice");
      VH_CHECK(u.g->domain == W.domain && u.g->sycl_target == W.target, "temp/domain", s << " domain or compute target differ");
      VH_CHECK(u.g->get_npart_local() == 0, "temp/dirty", s << " a temporary group is handed out with " << u.g->get_npart_local() << " particles");
      if (seen.count(u.g.get()))
        vh::count("temporary_groups_reused");
      seen.insert(u.g.get());
      out.push_back(u);
      look(u.g, u.dats, {}, "fresh temporary group");
      vh::count("temporary_groups");
    } else if (op == 2) {
      // fill one
      auto &u = out[c.rng.below(out.size())];
      const int m = c.lrng.range(0, 30);
      ParticleSet ps(m, u.g->particle_spec);
      for (int px = 0; px < m; px++) {
        ps[Sym<INT>("CELL_ID")][px][0] = static_cast<INT>(c.lrng.below(W.ncell()));
        auto p = W.random_point(c.lrng);
        for (int d = 0; d < wp.ndim; d++)
          ps[Sym<REAL>("P")][px][d] = p[d];
        World::payload_dats(ps, px, next, u.dats);
        u.ids.push_back(next++);
      }
      u.g->add_particles_local(ps);
    } else if (op == 3) {
      // return one
      const std::size_t i = c.rng.below(out.size());
      std::swap(out[i], out.back());
      auto g = out.back().g;
      out.pop_back();
      pool.restore(W.A, g);
      VH_CHECK(g == nullptr, "temp/reference", s << " the caller keeps the returned group");
      c.nontrivial = true;
    } else if (op == 4 && dats.size()) {
      // a property of the group goes away, or comes back with another shape
      const std::size_t i = c.rng.below(dats.size());
      auto d = dats[i];
      if (d.is_real)
        W.A->remove_particle_dat(Sym<REAL>(d.name));
      else
        W.A->remove_particle_dat(Sym<INT>(d.name));
      dats.erase(dats.begin() + i);
      if (c.rng.chance(0.6)) {
        d.ncomp = 1 + d.ncomp % 4;
        if (c.rng.chance(0.2))
          d.is_real = !d.is_real;
        if (d.is_real)
          W.A->add_particle_dat(Sym<REAL>(d.name), d.ncomp);
        else
          W.A->add_particle_dat(Sym<INT>(d.name), d.ncomp);
        dats.push_back(d);
      }
      vh::count("property_changes");
    } else if (op == 5 && dats.size() < 6) {
      DatSpec d{"N" + std::to_string(serial++), c.rng.range(1, 3), c.rng.chance(0.5)};
      if (d.is_real)
        W.A->add_particle_dat(Sym<REAL>(d.name), d.ncomp);
      else
        W.A->add_particle_dat(Sym<INT>(d.name), d.ncomp);
      dats.push_back(d);
      vh::count("property_changes");
    }
    // every group in use is what its user made of it
    for (auto &x : out)
      look(x.g, x.dats, x.ids, "temporary group in use");
    // and the source keeps its particles
    std::vector<std::int64_t> got;
    for (auto &x : read_group(W.A, {}, "temp-source", true, s + " source"))
      got.push_back(x.id);
    compare_ids(got, ids0, "temp-source", s);
    vh::count("pool_operations");
  }
  while (!out.empty()) {
    auto g = out.back().g;
    out.pop_back();
    pool.restore(W.A, g);
  }
  W.free();
}

// ------------------------------------------------------------------ cfg

// The same work under several configurations of the library and schedules of
// the device: everything that was computed is compared.
struct Outcome {
  std::map<std::int64_t, std::vector<std::int64_t>> rows; // on this rank
  std::vector<std::int64_t> values;
  std::string setup;
};

Outcome work(Case &c, const WorldParams &wp, Rng r, Rng l) {
  Outcome out;
  World W(wp);
  auto dats = World::random_dats(r, 2);
  auto all = dats;
  all.push_back({"V", 3, true});
  all.push_back({"K", 2, false});
  W.setup(all);
  const int nd = wp.ndim;
  std::int64_t next = static_cast<std::int64_t>(vh::rank()) << 32;
  auto add = [&](int n) {
    W.add_local(l, n, next, true);
    next += n;
  };
  add(l.range(0, 70));
  auto pbc = std::make_shared<CartesianPeriodic>(W.target, W.mesh, W.A->position_dat);
  auto bin = std::make_shared<CartesianCellBin>(W.target, W.mesh, W.A->position_dat, W.A->cell_id_dat);
  const int nc = W.ncell();
  {
    auto ga = std::make_shared<GlobalArray<INT>>(W.target, 3, 0);
    auto la = std::make_shared<LocalArray<INT>>(W.target, 5, 1);
    auto cdc = std::make_shared<CellDatConst<INT>>(W.target, nc, 2, 1);
    cdc->fill(0);
    auto counts = cdc;
    const int ops = r.range(3, 10);
    for (int o = 0; o < ops; o++) {
      const std::uint64_t salt = r.u64();
      switch (r.range(0, 8)) {
      case 0: {
        particle_loop(
            W.A,
            [=](auto ID, auto V, auto K) {
              for (int d = 0; d < 3; d++)
                V.at(d) = (static_cast<double>(hash64(salt, ID.at(0), d) >> 44) * 0x1p-20 - 0.5);
              K.at(0) += static_cast<INT>(hash64(salt, ID.at(0)) % 1000);
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("V")),
            Access::write(Sym<INT>("K")))
            ->execute();
        break;
      }
      case 1:
      case 2: {
        const double m = r.real(0.0, 1.5) * W.mesh->global_extents[0];
        particle_loop(
            W.A,
            [=](auto P, auto V) {
              for (int d = 0; d < nd; d++)
                P.at(d) += m * V.at(d);
            },
            Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("V")))
            ->execute();
        pbc->execute();
        W.A->hybrid_move();
        bin->execute();
        W.A->cell_move();
        break;
      }
      case 3: {
        particle_loop(
            W.A,
            [=](auto ID, auto G, auto L) {
              const INT v = static_cast<INT>(hash64(salt, ID.at(0)) % 100);
              G.add(v % 3, v);
              L.fetch_add(v % 5, v);
            },
            Access::read(Sym<INT>("ID")), Access::add(ga), Access::add(la))
            ->execute();
        break;
      }
      case 4: {
        particle_loop(
            W.A,
            [=](auto ID, auto CD) {
              const INT v = static_cast<INT>(hash64(salt, ID.at(0)) % 100);
              CD.fetch_add(0, 0, v);
              CD.fetch_add(1, 0, 1);
            },
            Access::read(Sym<INT>("ID")), Access::add(cdc))
            ->execute();
        particle_loop(
            W.A, [=](auto CD, auto K) { K.at(1) = CD.at(0, 0) * 7 + CD.at(1, 0); },
            Access::read(cdc), Access::write(Sym<INT>("K")))
            ->execute();
        break;
      }
      case 5: {
        const INT m = r.range(2, 4);
        auto sg = particle_sub_group(
            W.A, [=](auto ID) { return static_cast<INT>(hash64(salt, ID.at(0)) % m) == 0; },
            Access::read(Sym<INT>("ID")));
        out.values.push_back(sg->get_npart_local());
        particle_loop(
            sg,
            [=](auto V, auto K) {
              V.at(0) = 0.25 * V.at(1);
              K.at(0) -= 3;
            },
            Access::write(Sym<REAL>("V")), Access::write(Sym<INT>("K")))
            ->execute();
        if (r.chance(0.4))
          W.A->remove_particles(sg);
        break;
      }
      case 6:
        add(l.range(0, 20));
        break;
      case 7: {
        particle_loop(
            W.A,
            [=](auto K) {
              K.at(0) %= 100003;
              K.at(1) %= 100003;
            },
            Access::write(Sym<INT>("K")))
            ->execute();
        auto cd = std::make_shared<CellDatConst<INT>>(W.target, nc, 2, 1);
        cd->fill(0);
        reduce_dat_components_cellwise(W.A, Sym<INT>("K"), cd, Kernel::plus<INT>());
        for (int cx = 0; cx < nc; cx++) {
          auto d = cd->get_cell(cx);
          out.values.push_back(d->at(0, 0));
          out.values.push_back(d->at(1, 0));
        }
        break;
      }
      default: {
        // every pair in a cell
        auto pl = std::make_shared<LocalArray<INT>>(W.target, 1, 0);
        particle_loop(
            W.A,
            [=](auto ID, auto L) {
              L.fetch_add(0, ID.at(0) % 17);
            },
            Access::read(Sym<INT>("ID")), Access::add(pl))
            ->execute();
        out.values.push_back(pl->get().at(0));
      }
      }
    }
    for (auto v : ga->get())
      out.values.push_back(v);
    for (auto v : la->get())
      out.values.push_back(v);
    for (int cx = 0; cx < nc; cx++) {
      out.values.push_back(W.A->get_npart_cell(cx));
      out.values.push_back(counts->get_cell(cx)->at(0, 0));
    }
    out.values.push_back(W.A->get_npart_local());
  }
  for (int cx = 0; cx < nc; cx++) {
    auto ID = W.A->get_cell(Sym<INT>("ID"), cx);
    auto P = W.A->get_cell(Sym<REAL>("P"), cx);
    auto V = W.A->get_cell(Sym<REAL>("V"), cx);
    auto K = W.A->get_cell(Sym<INT>("K"), cx);
    for (int q = 0; q < ID->nrow; q++) {
      auto &row = out.rows[ID->at(q, 0)];
      row.push_back(cx);
      for (int d = 0; d < nd; d++)
        row.push_back(bits(P->at(q, d)));
      for (int d = 0; d < 3; d++)
        row.push_back(bits(V->at(q, d)));
      row.push_back(K->at(q, 0));
      row.push_back(K->at(q, 1));
    }
  }
  pbc.reset();
  bin.reset();
  W.free();
  return out;
}

void sc_cfg(Case &c) {
  auto wp = random_world(c.rng, 4, vh::size());
  c.desc << wp.str();
  const Rng r0(c.rng.u64()), l0(c.lrng.u64());
  const int runs = c.rng.range(2, 5);
  Outcome first;
  const int what = c.rng.range(1, 3);
  for (int k = 0; k < runs; k++) {
    if (what & 1)
      vh::random_config(c.rng);
    if (what & 2)
      vh::random_schedule(c.lrng);
    auto o = work(c, wp, r0, l0);
    vh::count("configuration_runs");
    vh::count("compared_rows", o.rows.size());
    if (k == 0) {
      first = o;
      continue;
    }
    const char *key = what == 1 ? "cfg/configuration" : what == 2 ? "cfg/schedule" : "cfg/both";
    VH_CHECK(o.values == first.values, std::string(key), c.desc.str() << " run " << k << " reduced values " << vh::str(o.values, 40) << " but run 0 " << vh::str(first.values, 40));
    VH_CHECK(o.rows.size() == first.rows.size(), std::string(key), c.desc.str() << " run " << k << " has " << o.rows.size() << " particles on this rank, run 0 had " << first.rows.size());
    for (auto &x : first.rows) {
      auto it = o.rows.find(x.first);
      if (!VH_CHECK(it != o.rows.end(), std::string(key), c.desc.str() << " run " << k << " particle " << x.first << " is not on this rank"))
        continue;
      VH_CHECK(it->second == x.second, std::string(key), c.desc.str() << " run " << k << " particle " << x.first << " holds " << vh::str(it->second) << " but in run 0 " << vh::str(x.second));
    }
  }
  c.nontrivial = first.rows.size() > 0;
}

} // namespace

int main(int argc, char **argv) {
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  return vh::main(argc, argv, {{"h5", sc_h5, 2}, {"init", sc_init, 2}, {"err", sc_err, 1}, {"temp", sc_temp, 1}, {"cfg", sc_cfg, 2}});
}
