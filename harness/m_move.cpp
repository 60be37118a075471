// P01 global/hybrid movement, P02 local movement, P03 cell movement.
#include "world.hpp"
using namespace vh;
using namespace NESO::Particles;

namespace {

// Global view collected on every rank: id -> (rank, cell)
struct Where {
  int rank, cell;
  std::vector<std::int64_t> extra;
};

std::map<std::int64_t, Where> global_view(World &w, const std::string &key, bool check_cell,
                                          const std::string &where) {
  auto recs = read_group(w.A, w.dats, key, check_cell, where);
  std::vector<std::int64_t> flat;
  for (auto &r : recs) {
    flat.push_back(r.id);
    flat.push_back(r.cell);
  }
  auto all = allgather(flat);
  std::map<std::int64_t, Where> m;
  for (int r = 0; r < (int)all.size(); r++)
    for (std::size_t i = 0; i < all[r].size(); i += 2) {
      auto it = m.find(all[r][i]);
      VH_CHECK(it == m.end(), key + "/duplicated",
               where << ": particle " << all[r][i] << " found on rank " << r << " cell "
                     << all[r][i + 1] << " and on rank " << it->second.rank << " cell "
                     << it->second.cell);
      m[all[r][i]] = {r, (int)all[r][i + 1], {}};
    }
  return m;
}

void check_all_present(const std::map<std::int64_t, Where> &m, std::int64_t n, const std::string &key,
                       const std::string &where) {
  std::vector<std::int64_t> got, want;
  for (auto &x : m)
    got.push_back(x.first);
  for (std::int64_t i = 0; i < n; i++)
    want.push_back(i);
  compare_ids(got, want, key, where);
}

// distributes n particles over the ranks; ids 0..n-1 globally
std::int64_t populate(World &w, Case &c, int maxn) {
  const int style = c.rng.range(0, 4);
  std::vector<int> ns(size());
  for (auto &x : ns)
    x = style == 0 ? 0 : c.rng.range(0, maxn);
  if (style == 1)
    for (int i = 1; i < size(); i++)
      ns[i] = 0;
  if (style == 0)
    ns[c.rng.below(size())] = c.rng.range(1, 3);
  std::int64_t off = 0, tot = 0;
  for (int i = 0; i < size(); i++) {
    if (i == rank())
      off = tot;
    tot += ns[i];
  }
  w.add_local(c.lrng, ns[rank()], off, c.rng.chance(0.3));
  return tot;
}

// The target rank (as a property of the particle ID and the round)
int target_rank(std::uint64_t salt, std::int64_t id, int mode) {
  const std::uint64_t h = hash64(salt, id, 99);
  switch (mode) {
  case 0: // anywhere
    return (int)(h % size());
  case 1: // many stay
    return (h >> 20) % 4 ? -1 : (int)(h % size());
  case 2: // everything to one rank
    return (int)(salt % size());
  case 3: // nothing moves
    return -1;
  default: // ring
    return -2;
  }
}

void set_ranks(World &w, int component, const std::map<std::int64_t, int> &t) {
  // write per particle destinations through a loop reading a lookup by id
  std::vector<INT> table;
  std::int64_t maxid = -1;
  for (auto &x : t)
    maxid = std::max(maxid, x.first);
  table.assign(maxid + 2, -1);
  for (auto &x : t)
    table[x.first] = x.second;
  auto la = std::make_shared<LocalArray<INT>>(w.target, table);
  particle_loop(
      w.A,
      [=](auto R, auto ID, auto T) {
        R.at(0) = -1;
        R.at(1) = -1;
        R.at(component) = T.at(ID.at(0));
      },
      Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(Sym<INT>("ID")), Access::read(la))
      ->execute();
}

// Properties come and go between moves; the same on every rank.
void change_dats(World &w, Case &c) {
  if (!c.rng.chance(0.35))
    return;
  if (w.dats.size() > 1 && c.rng.chance(0.4)) {
    const auto i = c.rng.below(w.dats.size());
    auto x = w.dats[i];
    if (x.is_real)
      w.A->remove_particle_dat(Sym<REAL>(x.name));
    else
      w.A->remove_particle_dat(Sym<INT>(x.name));
    w.dats.erase(w.dats.begin() + i);
  } else {
    const int n = c.rng.range(1, 3);
    for (int k = 0; k < n; k++) {
      DatSpec x{(c.rng.chance(0.5) ? "Z" : "B") + std::to_string(c.rng.below(1000000)), c.rng.range(1, 4), c.rng.chance(0.5)};
      const auto h = name_hash(x.name);
      const int nco = x.ncomp;
      if (x.is_real) {
        w.A->add_particle_dat(Sym<REAL>(x.name), nco);
        particle_loop(
            w.A,
            [=](auto D, auto ID) {
              for (int q = 0; q < nco; q++)
                D.at(q) = pay_real(ID.at(0), h, q);
            },
            Access::write(Sym<REAL>(x.name)), Access::read(Sym<INT>("ID")))
            ->execute();
      } else {
        w.A->add_particle_dat(Sym<INT>(x.name), nco);
        particle_loop(
            w.A,
            [=](auto D, auto ID) {
              for (int q = 0; q < nco; q++)
                D.at(q) = pay_int(ID.at(0), h, q);
            },
            Access::write(Sym<INT>(x.name)), Access::read(Sym<INT>("ID")))
            ->execute();
      }
      w.dats.push_back(x);
    }
  }
  w.spec = w.make_spec(w.dats);
  count("property_changes");
  c.desc << " dats" << w.dats.size();
}

void global_move(Case &c) {
  World w(random_world(c.rng, 5, size()));
  w.setup(World::random_dats(c.rng));
  const auto n = populate(w, c, thorough() ? 200 : 60);
  c.desc << w.wp.str() << " npart " << n;
  auto before = global_view(w, "global", true, "before");
  const int rounds = c.rng.range(1, 4);
  std::uint64_t moved = 0;
  for (int r = 0; r < rounds && !any_violation(); r++) {
    change_dats(w, c);
    const int mode = c.rng.range(0, 4);
    const auto salt = c.rng.u64();
    std::map<std::int64_t, int> t;
    for (auto &x : before) {
      int d = target_rank(salt, x.first, mode);
      if (d == -2)
        d = (x.second.rank + 1) % size();
      t[x.first] = d;
    }
    set_ranks(w, 0, t);
    w.A->global_move();
    std::ostringstream wh;
    wh << "after global move " << r << " mode " << mode;
    auto after = global_view(w, "global", false, wh.str());
    check_all_present(after, n, "global", wh.str());
    for (auto &x : after) {
      auto &b = before[x.first];
      const int want = t[x.first] < 0 ? b.rank : t[x.first];
      VH_CHECK(x.second.rank == want, "global/rank",
               wh.str() << ": particle " << x.first << " requested rank " << want << " is on "
                        << x.second.rank);
      if (want == b.rank)
        VH_CHECK(x.second.cell == b.cell, "global/stayed-cell",
                 wh.str() << ": particle " << x.first << " did not leave but moved from cell " << b.cell
                          << " to " << x.second.cell);
      if (x.second.rank != b.rank)
        moved++;
    }
    // arrived particles have to be given a valid cell before the next step
    particle_loop(
        w.A, [=](auto I, auto C) { C.at(0) = I.cell; }, Access::read(ParticleLoopIndex{}),
        Access::write(Sym<INT>("CELL_ID")))
        ->execute();
    if (c.rng.chance(0.3)) {
      // shuffle over cells so that the next round starts from other cells
      const int nc = w.ncell();
      particle_loop(
          w.A, [=](auto ID, auto C) { C.at(0) = (ID.at(0) * 7919 + salt % 1000) % nc; },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
          ->execute();
    }
    before = after;
  }
  count("particles_moved_rank", moved);
  c.nontrivial = moved > 0 || (size() == 1 && n > 0);
  c.desc << " rounds " << rounds << " rank changes " << moved;
  w.free();
}

void local_move(Case &c) {
  World w(random_world(c.rng, 6, size()));
  if (size() > 1 && w.wp.stencil == 0) {
  }
  w.setup(World::random_dats(c.rng));
  const auto n = populate(w, c, thorough() ? 200 : 60);
  c.desc << w.wp.str() << " npart " << n;
  // neighbours of every rank
  auto nb = w.mesh->get_local_communication_neighbours();
  auto nball = allgather(std::vector<std::int64_t>(nb.begin(), nb.end()));
  auto before = global_view(w, "local", true, "before");
  const int rounds = c.rng.range(1, 4);
  std::uint64_t moved = 0;
  for (int r = 0; r < rounds && !any_violation(); r++) {
    change_dats(w, c);
    const auto salt = c.rng.u64();
    const int mode = c.rng.range(0, 3);
    std::map<std::int64_t, int> t;
    for (auto &x : before) {
      auto &ns = nball[x.second.rank];
      const auto h = hash64(salt, x.first);
      int d = -1;
      if (ns.size() && mode != 3) {
        if (mode == 0)
          d = ns[h % ns.size()];
        else if (mode == 1)
          d = (h >> 20) % 3 ? -1 : ns[h % ns.size()];
        else
          d = ns[salt % ns.size()];
      } else if (mode == 3)
        d = x.second.rank; // naming the own rank must be a no-op
      t[x.first] = d;
    }
    set_ranks(w, 1, t);
    w.A->local_move();
    std::ostringstream wh;
    wh << "after local move " << r << " mode " << mode;
    auto after = global_view(w, "local", false, wh.str());
    check_all_present(after, n, "local", wh.str());
    for (auto &x : after) {
      auto &b = before[x.first];
      const int want = t[x.first] < 0 ? b.rank : t[x.first];
      VH_CHECK(x.second.rank == want, "local/rank",
               wh.str() << ": particle " << x.first << " requested rank " << want << " is on "
                        << x.second.rank);
      if (want == b.rank)
        VH_CHECK(x.second.cell == b.cell, "local/stayed-cell",
                 wh.str() << ": particle " << x.first << " moved from cell " << b.cell << " to "
                          << x.second.cell);
      if (x.second.rank != b.rank)
        moved++;
    }
    const int nc = w.ncell();
    const bool sh = c.rng.chance(0.5);
    particle_loop(
        w.A,
        [=](auto I, auto C, auto ID) {
          if (sh)
            C.at(0) = (ID.at(0) * 31 + salt % 100) % nc;
          else
            C.at(0) = I.cell;
        },
        Access::read(ParticleLoopIndex{}), Access::write(Sym<INT>("CELL_ID")),
        Access::read(Sym<INT>("ID")))
        ->execute();
    before = after;
  }
  count("particles_moved_rank", moved);
  c.nontrivial = moved > 0 || (size() == 1 && n > 0);
  c.desc << " rounds " << rounds << " rank changes " << moved;
  w.free();
}

// Boxes of fine cells of every rank: who owns a point.
struct Owners {
  std::vector<std::vector<std::int64_t>> box; // start0,end0,...
  int ndim;
  double invw;
  std::vector<int> counts;
  Owners(World &w) {
    ndim = w.wp.ndim;
    invw = 1.0 / w.mesh->cell_width_fine;
    std::vector<std::int64_t> b;
    for (int d = 0; d < ndim; d++) {
      b.push_back(w.mesh->cell_starts[d]);
      b.push_back(w.mesh->cell_ends[d]);
      counts.push_back(w.mesh->cell_counts[d]);
    }
    box = allgather(b);
  }
  // candidate (rank, cell) pairs for a position; more than one on a cell edge
  std::set<std::pair<int, int>> find(const double *p) const {
    std::vector<std::vector<int>> cand(ndim);
    for (int d = 0; d < ndim; d++) {
      const double s = p[d] * invw;
      for (double e : {-1e-9, 1e-9}) {
        // half-open periodic convention up to rounding
        int k = (int)std::floor(s + e);
        k = std::max(0, std::min(counts[d] - 1, k));
        if (cand[d].empty() || cand[d][0] != k)
          cand[d].push_back(k);
      }
    }
    std::set<std::pair<int, int>> o;
    std::vector<int> ix(ndim, 0);
    while (true) {
      int idx[3] = {0, 0, 0};
      for (int d = 0; d < ndim; d++)
        idx[d] = cand[d][ix[d]];
      for (int r = 0; r < (int)box.size(); r++) {
        bool in = true;
        long lin = 0, mul = 1;
        for (int d = 0; d < ndim; d++) {
          const auto s = box[r][2 * d], e = box[r][2 * d + 1];
          in = in && idx[d] >= s && idx[d] < e;
          lin += (idx[d] - s) * mul;
          mul *= e - s;
        }
        if (in)
          o.insert({r, (int)lin});
      }
      int d = 0;
      while (d < ndim && ++ix[d] == (int)cand[d].size()) {
        ix[d] = 0;
        d++;
      }
      if (d == ndim)
        break;
    }
    return o;
  }
};

void hybrid_move(Case &c) {
  World w(random_world(c.rng, 6, size()));
  w.setup(World::random_dats(c.rng));
  auto n = populate(w, c, thorough() ? 150 : 50);
  c.desc << w.wp.str() << " npart " << n;
  Owners own(w);
  auto pbc = std::make_shared<CartesianPeriodic>(w.target, w.mesh, w.A->position_dat);
  const int ndim = w.wp.ndim;
  const int rounds = c.rng.range(1, 5);
  std::uint64_t moved = 0;
  std::map<std::int64_t, int> prev;
  for (int r = 0; r < rounds && !any_violation(); r++) {
    change_dats(w, c);
    // displacement: none, sub-cell, several cells, beyond the domain,
    // snapped onto cell corners
    const int mode = c.rng.range(0, 4);
    const double fine = w.mesh->cell_width_fine;
    const double mag = std::vector<double>{0.0, 0.7 * fine, 3.0 * fine,
                                           4.0 * w.mesh->global_extents[0], 0.0}[mode];
    const auto salt = c.rng.u64();
    const double inv = 1.0 / fine;
    particle_loop(
        w.A,
        [=](auto P, auto ID) {
          for (int d = 0; d < ndim; d++) {
            const std::uint64_t h = hash64(salt, ID.at(0), d);
            if (mode == 4)
              P.at(d) = std::floor(P.at(d) * inv) * fine;
            else
              P.at(d) += mag * (2.0 * ((h >> 11) * 0x1p-53) - 1.0);
          }
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
        ->execute();
    pbc->execute();
    // positions as seen before the move
    std::map<std::int64_t, std::vector<double>> pos;
    for (int cx = 0; cx < w.ncell(); cx++) {
      auto P = w.A->get_cell(Sym<REAL>("P"), cx);
      auto I = w.A->get_cell(Sym<INT>("ID"), cx);
      for (int l = 0; l < P->nrow; l++) {
        std::vector<double> p;
        for (int d = 0; d < ndim; d++) {
          p.push_back(P->at(l, d));
          VH_CHECK(P->at(l, d) >= 0.0 && P->at(l, d) <= w.mesh->global_extents[d], "hybrid/pbc-range",
                   "position " << P->at(l, d) << " after the periodic boundary");
        }
        pos[I->at(l, 0)] = p;
      }
    }
    std::vector<double> fl;
    for (auto &x : pos) {
      fl.push_back((double)x.first);
      for (auto v : x.second)
        fl.push_back(v);
    }
    std::vector<std::int64_t> fi(fl.size());
    if (fl.size())
      std::memcpy(fi.data(), fl.data(), 8 * fl.size());
    pos.clear();
    for (auto &v : allgather(fi))
      for (std::size_t i = 0; i < v.size(); i += 1 + ndim) {
        double t[4];
        std::memcpy(t, v.data() + i, 8 * (1 + ndim));
        pos[(std::int64_t)t[0]] = std::vector<double>(t + 1, t + 1 + ndim);
      }
    w.A->hybrid_move();
    std::ostringstream wh;
    wh << "after hybrid move " << r << " mode " << mode;
    auto m0 = global_view(w, "hybrid", false, wh.str());
    check_all_present(m0, n, "hybrid", wh.str());
    w.A->cell_move();
    wh << " and cell move";
    auto m = global_view(w, "hybrid", true, wh.str());
    check_all_present(m, n, "hybrid", wh.str());
    for (auto &x : m) {
      auto cand = own.find(pos[x.first].data());
      VH_CHECK(cand.count({x.second.rank, x.second.cell}), "hybrid/owner",
               wh.str() << ": particle " << x.first << " at " << vh::str(pos[x.first]) << " is on rank "
                        << x.second.rank << " cell " << x.second.cell << ", owner should be rank "
                        << (cand.size() ? cand.begin()->first : -1) << " cell "
                        << (cand.size() ? cand.begin()->second : -1));
      if (prev.count(x.first) && prev[x.first] != x.second.rank)
        moved++;
      prev[x.first] = x.second.rank;
    }
    // the position must have been carried along unchanged
    for (int cx = 0; cx < w.ncell(); cx++) {
      auto P = w.A->get_cell(Sym<REAL>("P"), cx);
      auto I = w.A->get_cell(Sym<INT>("ID"), cx);
      for (int l = 0; l < P->nrow; l++)
        for (int d = 0; d < ndim; d++)
          VH_CHECK(P->at(l, d) == pos[I->at(l, 0)][d], "hybrid/position",
                   wh.str() << ": position of " << I->at(l, 0) << " changed");
    }
    // history: sometimes particles are added or removed between moves
    if (c.rng.chance(0.2)) {
      const int k = c.rng.range(1, 8);
      w.add_local(c.lrng, k, n + (std::int64_t)k * rank());
      n += (std::int64_t)k * size();
    }
  }
  count("particles_moved_rank", moved);
  c.nontrivial = n > 0 && (moved > 0 || size() == 1 || rounds == 1);
  c.desc << " rounds " << rounds << " rank changes " << moved;
  w.free();
}

// cell moves with cells chosen by the harness (no mapper involved)
void cell_move(Case &c) {
  World w(random_world(c.rng, 6, size()));
  w.domain = std::make_shared<Domain>(w.mesh);
  w.setup(World::random_dats(c.rng));
  const int n = c.lrng.range(0, thorough() ? 400 : 120);
  const int nc = w.ncell();
  std::vector<int> cell = w.add_local(c.lrng, n, 0, c.rng.chance(0.3));
  c.desc << w.wp.str() << " npart " << n;
  const int rounds = c.rng.range(1, 6);
  std::uint64_t moved = 0;
  for (int r = 0; r < rounds && vh::violations() == 0; r++) {
    change_dats(w, c);
    const int mode = c.lrng.range(0, 6);
    const auto salt = c.lrng.u64();
    std::vector<INT> t(n + 1, 0);
    for (int i = 0; i < n; i++) {
      int d = cell[i];
      const auto h = hash64(salt, i);
      switch (mode) {
      case 0: // all over
        d = h % nc;
        break;
      case 1: // few
        d = (h >> 30) % 8 ? d : (int)(h % nc);
        break;
      case 2: // everything into one cell
        d = salt % nc;
        break;
      case 3: // shift
        d = (d + 1) % nc;
        break;
      case 4: // nothing
        break;
      case 5: // empty one cell into another
        d = d == (int)(salt % nc) ? (int)((salt >> 20) % nc) : d;
        break;
      case 6: // exactly one or two
        d = i == (int)(salt % n) || (i == (int)((salt >> 24) % n) && (salt >> 50) % 2) ? (int)(h % nc) : d;
        break;
      }
      t[i] = d;
      if (d != cell[i])
        moved++;
    }
    auto la = std::make_shared<LocalArray<INT>>(w.target, t);
    particle_loop(
        w.A, [=](auto C, auto ID, auto T) { C.at(0) = T.at(ID.at(0)); },
        Access::write(Sym<INT>("CELL_ID")), Access::read(Sym<INT>("ID")), Access::read(la))
        ->execute();
    w.A->cell_move();
    std::ostringstream wh;
    wh << "after cell move " << r << " mode " << mode;
    auto recs = read_group(w.A, w.dats, "cellmove", true, wh.str());
    std::vector<std::int64_t> got, want;
    for (auto &x : recs) {
      got.push_back(x.id);
      if (x.id >= 0 && x.id < n)
        VH_CHECK(x.cell == t[x.id], "cellmove/cell",
                 wh.str() << ": particle " << x.id << " in cell " << x.cell << " wants " << t[x.id]);
    }
    for (int i = 0; i < n; i++)
      want.push_back(i);
    compare_ids(got, want, "cellmove", wh.str());
    for (int i = 0; i < n; i++)
      cell[i] = t[i];
  }
  count("particles_moved_cell", moved);
  c.nontrivial = moved > 0;
  c.desc << " rounds " << rounds << " cell changes " << moved;
  any_violation();
  w.free();
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv,
                  {{"global", global_move},
                   {"hybrid", hybrid_move},
                   {"local", local_move},
                   {"cellmove", cell_move}});
}
