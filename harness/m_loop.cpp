// P07 particle loops visit every selected particle exactly once with the right
// indices; P08 loop arguments combine the contributions of all particles.
#include "world.hpp"
using namespace vh;
using namespace NESO::Particles;

namespace {

struct Sys {
  World w;
  int nc;
  std::vector<std::vector<std::int64_t>> ids; // as stored, by cell and layer
  std::int64_t next = 1;
  Case &c;
  Sys(Case &c) : w(random_world(c.rng, 4, size())), c(c) {
    w.domain = std::make_shared<Domain>(w.mesh);
    w.setup({{"V", c.rng.range(1, 3), true},
             {"W", 2, true},
             {"K", 2, false},
             {"N", 6, false}});
    nc = w.ncell();
  }
  void read() {
    ids.assign(nc, {});
    for (int cx = 0; cx < nc; cx++) {
      auto d = w.A->get_cell(Sym<INT>("ID"), cx);
      for (int l = 0; l < d->nrow; l++)
        ids[cx].push_back(d->at(l, 0));
    }
  }
  // occupancy profiles: empty, flat, flat plus spikes, one cell, random
  void add() {
    const int prof = c.lrng.range(0, 5);
    const int base = c.lrng.range(0, thorough() ? 120 : 40);
    std::vector<int> occ(nc, 0);
    for (int cx = 0; cx < nc; cx++) {
      switch (prof) {
      case 0:
        occ[cx] = c.lrng.chance(0.1) ? c.lrng.range(0, 3) : 0;
        break;
      case 1:
        occ[cx] = base;
        break;
      case 2:
        occ[cx] = base + (c.lrng.chance(0.2) ? c.lrng.range(1, 80) : 0);
        break;
      case 3:
        occ[cx] = 0;
        break;
      case 4:
        occ[cx] = c.lrng.chance(0.3) ? 0 : c.lrng.range(0, base + 1);
        break;
      case 5:
        occ[cx] = 1 << c.lrng.range(0, 6);
        break;
      }
    }
    if (prof == 3)
      occ[c.lrng.below(nc)] = base + 1;
    int n = 0;
    for (int x : occ)
      n += x;
    ParticleSet ps(n, w.spec);
    std::vector<int> cells;
    for (int cx = 0; cx < nc; cx++)
      for (int k = 0; k < occ[cx]; k++)
        cells.push_back(cx);
    c.lrng.shuffle(cells);
    for (int px = 0; px < n; px++) {
      ps[Sym<INT>("CELL_ID")][px][0] = cells[px];
      w.payload(ps, px, next++);
    }
    w.A->add_particles_local(ps);
    read();
  }
  void remove() {
    std::vector<INT> cs, ls;
    for (int cx = 0; cx < nc; cx++)
      for (int l = 0; l < (int)ids[cx].size(); l++)
        if (c.lrng.chance(0.3)) {
          cs.push_back(cx);
          ls.push_back(l);
        }
    w.A->remove_particles((int)cs.size(), cs, ls);
    read();
  }
  std::int64_t npart() {
    std::int64_t n = 0;
    for (auto &x : ids)
      n += x.size();
    return n;
  }
};

struct Target {
  ParticleSubGroupSharedPtr sub; // null: the group
  std::vector<std::vector<int>> sel;  // selected layers by cell
};

// predicate of the selection by particle identity
bool pred(std::uint64_t salt, int mod, std::int64_t id) { return mod && hash64(salt, id) % mod == 0; }

Target make_target(Sys &s, bool allow_sub = true) {
  Target t;
  t.sel.assign(s.nc, {});
  const int kind = allow_sub ? s.c.lrng.range(0, 5) : 0;
  if (kind <= 1) {
    for (int cx = 0; cx < s.nc; cx++)
      for (int l = 0; l < (int)s.ids[cx].size(); l++)
        t.sel[cx].push_back(l);
    if (kind == 1)
      t.sub = particle_sub_group(s.w.A);
  } else if (kind == 2) {
    const int a = s.c.lrng.below(s.nc), b = s.c.lrng.range(a + 1, s.nc);
    for (int cx = a; cx < b; cx++)
      for (int l = 0; l < (int)s.ids[cx].size(); l++)
        t.sel[cx].push_back(l);
    t.sub = particle_sub_group(s.w.A, a, b);
  } else {
    const auto salt = s.c.lrng.u64();
    const int mod = s.c.lrng.range(0, 4);
    for (int cx = 0; cx < s.nc; cx++)
      for (int l = 0; l < (int)s.ids[cx].size(); l++)
        if (pred(salt, mod, s.ids[cx][l]))
          t.sel[cx].push_back(l);
    auto lam = [=](auto ID) -> bool { return mod && hash64(salt, ID.at(0)) % mod == 0; };
    if (s.c.lrng.chance(0.5))
      t.sub = particle_sub_group(s.w.A, lam, Access::read(Sym<INT>("ID")));
    else
      t.sub = static_particle_sub_group(s.w.A, lam, Access::read(Sym<INT>("ID")));
  }
  distinct("target_kind", std::to_string(kind));
  return t;
}

template <typename K, typename... A>
ParticleLoopSharedPtr make_loop(Sys &s, Target &t, K kernel, A... a) {
  if (t.sub)
    return particle_loop("monitored", t.sub, kernel, a...);
  return particle_loop("monitored", s.w.A, kernel, a...);
}

// how a loop is launched; returns the covered cell range
struct Launch {
  int mode, a, b;
};
Launch pick_launch(Sys &s) {
  Launch l;
  l.mode = s.c.lrng.range(0, 4);
  l.a = 0;
  l.b = s.nc;
  if (l.mode == 1 || l.mode == 3) {
    l.a = s.c.lrng.below(s.nc);
    l.b = l.a + 1;
  } else if (l.mode == 2 || l.mode == 4) {
    l.a = s.c.lrng.below(s.nc);
    l.b = s.c.lrng.range(l.a + 1, s.nc);
  }
  return l;
}
void launch(ParticleLoopSharedPtr p, const Launch &l) {
  switch (l.mode) {
  case 0:
    p->execute();
    break;
  case 1:
    p->execute(l.a);
    break;
  case 2:
    p->execute(l.a, l.b);
    break;
  case 3:
    p->submit(l.a);
    p->wait();
    break;
  case 4: // cell by cell, waiting once
    for (int cx = l.a; cx < l.b; cx++)
      p->submit(cx);
    p->wait();
    break;
  }
  distinct("launch", std::to_string(l.mode));
}

void zero_n(Sys &s) {
  particle_loop(
      s.w.A,
      [=](auto N) {
        for (int k = 0; k < 6; k++)
          N.at(k) = -1;
        N.at(0) = 0;
      },
      Access::write(Sym<INT>("N")))
      ->execute();
}

// P07
void iteration(Case &c) {
  Sys s(c);
  s.add();
  const int rounds = c.rng.range(1, 4);
  std::uint64_t visited = 0;
  std::shared_ptr<Target> t;
  ParticleLoopSharedPtr loop;
  for (int r = 0; r < rounds && violations() == 0; r++) {
    // a loop object is sometimes reused after the particles changed (group
    // loops only: the selection of the model is tied to the ids)
    if (!(loop && t && !t->sub && c.lrng.chance(0.5))) {
      t = std::make_shared<Target>(make_target(s));
      loop = make_loop(
          s, *t,
          [=](auto I, auto NP, auto N, auto ID) {
            N.at(0) += 1;
            N.at(1) = I.cell;
            N.at(2) = I.layer;
            N.at(3) = I.loop_layer;
            N.at(4) = I.get_loop_linear_index();
            N.at(5) = I.get_local_linear_index() * 1000003 + I.get_sub_linear_index();
            ID.at(0) = ID.at(0) + 1000000 * NP.get();
          },
          Access::read(ParticleLoopIndex{}), Access::read(CellInfoNPart{}), Access::write(Sym<INT>("N")),
          Access::write(Sym<INT>("ID")));
    } else {
      for (int cx = 0; cx < s.nc; cx++) {
        t->sel[cx].clear();
        for (int l = 0; l < (int)s.ids[cx].size(); l++)
          t->sel[cx].push_back(l);
      }
    }
    zero_n(s);
    const auto l = pick_launch(s);
    // the sub group selection reads ID: static selection before the launch
    if (t->sub)
      t->sub->get_npart_local();
    launch(loop, l);
    std::ostringstream wh;
    wh << "round " << r << " launch " << l.mode << " cells [" << l.a << "," << l.b << ") "
       << (t->sub ? "sub group" : "group");
    // exclusive scans
    std::vector<std::int64_t> es(s.nc + 1, 0), ess(s.nc + 1, 0);
    for (int cx = 0; cx < s.nc; cx++) {
      es[cx + 1] = es[cx] + s.ids[cx].size();
      ess[cx + 1] = ess[cx] + t->sel[cx].size();
    }
    for (int cx = 0; cx < s.nc; cx++) {
      auto N = s.w.A->get_cell(Sym<INT>("N"), cx);
      auto ID = s.w.A->get_cell(Sym<INT>("ID"), cx);
      std::set<int> in(t->sel[cx].begin(), t->sel[cx].end());
      const bool covered = cx >= l.a && cx < l.b;
      std::set<INT> ll;
      for (int k = 0; k < N->nrow; k++) {
        const int want = covered && in.count(k);
        VH_CHECK(N->at(k, 0) == want, "iter/visits",
                 wh.str() << ": cell " << cx << " layer " << k << " visited " << N->at(k, 0) << " times, expected "
                          << want);
        VH_CHECK(ID->at(k, 0) == s.ids[cx][k] + (want ? 1000000 * (std::int64_t)in.size() : 0), "iter/npart-cell",
                 wh.str() << ": cell " << cx << " layer " << k << " was told "
                          << (ID->at(k, 0) - s.ids[cx][k]) / 1000000 << " particles in the cell, loop has "
                          << in.size());
        if (!want || !N->at(k, 0))
          continue;
        visited++;
        VH_CHECK(N->at(k, 1) == cx && N->at(k, 2) == k, "iter/index",
                 wh.str() << ": particle in cell " << cx << " layer " << k << " was given index " << N->at(k, 1)
                          << "," << N->at(k, 2));
        const INT lo = N->at(k, 3);
        VH_CHECK(lo >= 0 && lo < (INT)in.size() && ll.insert(lo).second, "iter/loop-layer",
                 wh.str() << ": cell " << cx << " layer " << k << " loop layer " << lo << " of " << in.size());
        if (!t->sub)
          VH_CHECK(lo == k, "iter/loop-layer", wh.str() << ": group loop layer " << lo << " is not " << k);
        // modes 3 and 4 submit single cells
        const int start = l.mode == 4 ? cx : l.a;
        VH_CHECK(N->at(k, 4) == ess[cx] + lo - ess[start], "iter/loop-linear",
                 wh.str() << ": cell " << cx << " layer " << k << " loop linear index " << N->at(k, 4)
                          << " expected " << ess[cx] + lo - ess[start]);
        VH_CHECK(N->at(k, 5) == (es[cx] + k) * 1000003 + ess[cx] + lo, "iter/linear",
                 wh.str() << ": cell " << cx << " layer " << k << " local linear " << N->at(k, 5) / 1000003
                          << " sub linear " << N->at(k, 5) % 1000003 << " expected " << es[cx] + k << " "
                          << ess[cx] + lo);
      }
    }
    // restore ID
    particle_loop(
        s.w.A, [=](auto ID) { ID.at(0) = ID.at(0) % 1000000; }, Access::write(Sym<INT>("ID")))
        ->execute();
    const int h = c.lrng.range(0, 3);
    if (h == 1)
      s.add();
    else if (h == 2)
      s.remove();
    if (h == 1 || h == 2) {
      if (t->sub) {
        t.reset();
        loop.reset();
      }
    }
  }
  // nothing but N and ID was written
  auto recs = read_group(s.w.A, {{"V", s.w.dats[0].ncomp, true}, {"W", 2, true}, {"K", 2, false}}, "iter", true,
                         "at the end");
  count("visits", visited);
  c.nontrivial = visited > 0;
  c.desc << s.w.wp.str() << " npart " << s.npart() << " visits " << visited;
  loop.reset();
  t.reset();
  any_violation();
  s.w.free();
}

// loop over one ParticleDat
void dat_loop(Case &c) {
  Sys s(c);
  s.add();
  zero_n(s);
  const auto l = pick_launch(s);
  auto nd = s.w.A->get_dat(Sym<INT>("N"));
  auto kd = s.w.A->get_dat(Sym<INT>("K"));
  auto p = particle_loop(
      "dat", nd,
      [=](auto I, auto N, auto K) {
        N.at(0) += 1;
        N.at(1) = I.cell;
        N.at(2) = I.layer;
        N.at(3) = K.at(1);
      },
      Access::read(ParticleLoopIndex{}), Access::write(nd), Access::read(kd));
  launch(p, l);
  std::uint64_t v = 0;
  for (int cx = 0; cx < s.nc; cx++) {
    auto N = s.w.A->get_cell(Sym<INT>("N"), cx);
    for (int k = 0; k < N->nrow; k++) {
      const int want = cx >= l.a && cx < l.b;
      VH_CHECK(N->at(k, 0) == want, "iter/visits",
               "dat loop: cell " << cx << " layer " << k << " visited " << N->at(k, 0));
      if (want) {
        v++;
        VH_CHECK(N->at(k, 1) == cx && N->at(k, 2) == k &&
                     N->at(k, 3) == pay_int(s.ids[cx][k], name_hash("K"), 1),
                 "iter/index", "dat loop: cell " << cx << " layer " << k);
      }
    }
  }
  count("visits", v);
  c.nontrivial = v > 0;
  c.desc << s.w.wp.str() << " dat loop npart " << s.npart();
  p.reset();
  nd.reset();
  kd.reset();
  any_violation();
  s.w.free();
}

// P08
struct Exp { // the particles a launch covers
  std::vector<std::pair<int, int>> rows;
};
Exp expected(Sys &s, Target &t, const Launch &l) {
  Exp e;
  for (int cx = l.a; cx < l.b; cx++)
    for (int x : t.sel[cx])
      e.rows.push_back({cx, x});
  return e;
}
// small integers, so that sums of reals are exact in any order
INT small(std::uint64_t salt, std::int64_t id, int k) { return (INT)(hash64(salt, id, k) % 201) - 100; }

template <typename T> void arrays(Sys &s, const std::string &tn) {
  auto &c = s.c;
  auto t = make_target(s);
  const auto salt = c.lrng.u64();
  const int n = c.lrng.range(1, 8);
  std::vector<T> init(n), tab(n);
  for (int i = 0; i < n; i++) {
    init[i] = (T)c.lrng.range(-50, 50);
    tab[i] = (T)c.lrng.range(-50, 50);
  }
  auto la = std::make_shared<LocalArray<T>>(s.w.target, init);
  auto lr = std::make_shared<LocalArray<T>>(s.w.target, tab);
  auto lw = std::make_shared<LocalArray<INT>>(s.w.target, (std::size_t)std::max<std::int64_t>(1, s.npart()), -1);
  auto p = make_loop(
      s, t,
      [=](auto ID, auto A, auto B, auto C, auto I) {
        const int b = hash64(salt, ID.at(0)) % n;
        A.fetch_add(b, (T)small(salt, ID.at(0), 3) + B.at((b + 1) % n));
        C.at(I.get_local_linear_index()) = ID.at(0);
      },
      Access::read(Sym<INT>("ID")), Access::add(la), Access::read(lr), Access::write(lw),
      Access::read(ParticleLoopIndex{}));
  auto want = init;
  std::vector<INT> wantw(lw->size, -1);
  const int reps = c.lrng.range(1, 2);
  for (int r = 0; r < reps; r++) {
    auto l = pick_launch(s);
    launch(p, l);
    std::vector<std::int64_t> es(s.nc + 1, 0);
    for (int cx = 0; cx < s.nc; cx++)
      es[cx + 1] = es[cx] + s.ids[cx].size();
    for (auto &x : expected(s, t, l).rows) {
      const auto id = s.ids[x.first][x.second];
      const int b = hash64(salt, id) % n;
      want[b] += (T)small(salt, id, 3) + tab[(b + 1) % n];
      wantw[es[x.first] + x.second] = id;
      count("contributions");
    }
  }
  auto got = la->get();
  for (int i = 0; i < n; i++)
    VH_CHECK(got[i] == want[i], "args/local-array-add",
             tn << " element " << i << " is " << got[i] << " expected " << want[i]);
  VH_CHECK(lr->get() == tab, "args/local-array-read", "read-only array changed");
  VH_CHECK(lw->get() == wantw, "args/local-array-write", "written array differs");
}

template <typename T> void global_array(Sys &s, const std::string &tn) {
  auto &c = s.c;
  auto t = make_target(s);
  const auto salt = c.rng.u64();
  const int n = c.rng.range(1, 6);
  const T v0 = (T)c.rng.range(-20, 20);
  auto ga = std::make_shared<GlobalArray<T>>(s.w.target, n, v0);
  auto p = make_loop(
      s, t, [=](auto ID, auto G) { G.add(hash64(salt, ID.at(0)) % n, (T)small(salt, ID.at(0), 5)); },
      Access::read(Sym<INT>("ID")), Access::add(ga));
  std::vector<std::int64_t> mine(n, 0);
  const int reps = c.rng.range(1, 2);
  for (int r = 0; r < reps; r++) {
    Launch l{0, 0, s.nc};
    launch(p, l);
    for (auto &x : expected(s, t, l).rows) {
      const auto id = s.ids[x.first][x.second];
      mine[hash64(salt, id) % n] += small(salt, id, 5);
      count("contributions");
    }
  }
  auto all = allgather(mine);
  auto got = ga->get();
  for (int i = 0; i < n; i++) {
    T want = v0;
    for (auto &x : all)
      want += (T)x[i];
    VH_CHECK(got[i] == want, "args/global-array", tn << " element " << i << " is " << got[i] << " expected " << want);
  }
  // values are visible to a reading loop
  zero_n(s);
  make_loop(
      s, t, [=](auto G, auto N) { N.at(1) = (INT)G.at(n - 1); }, Access::read(ga), Access::write(Sym<INT>("N")))
      ->execute();
  for (auto &x : expected(s, t, {0, 0, s.nc}).rows) {
    auto N = s.w.A->get_cell(Sym<INT>("N"), x.first);
    VH_CHECK(N->at(x.second, 1) == (INT)got[n - 1], "args/global-array-read", tn);
    break;
  }
}

template <typename T> void cell_const(Sys &s, const std::string &tn) {
  auto &c = s.c;
  auto t = make_target(s);
  const auto salt = c.lrng.u64();
  const int nr = c.lrng.range(1, 3), ncl = c.lrng.range(1, 3), nm = nr * ncl;
  auto mk = [&] { return std::make_shared<CellDatConst<T>>(s.w.target, s.nc, nr, ncl); };
  auto A = mk(), Mi = mk(), Ma = mk(), Rd = mk(), Wr = mk(), Rp = mk(), Rmi = mk(), Rma = mk();
  std::vector<std::vector<T>> a(s.nc, std::vector<T>(nm)), mi = a, ma = a, rd = a, wr = a, rp = a, rmi = a, rma = a;
  auto init = [&](auto cdc, auto &v, int style) {
    std::vector<CellData<T>> all;
    for (int cx = 0; cx < s.nc; cx++) {
      auto cd = std::make_shared<CellDataT<T>>(s.w.target, nr, ncl);
      for (int i = 0; i < nr; i++)
        for (int j = 0; j < ncl; j++)
          cd->at(i, j) = v[cx][j * nr + i] = (T)c.lrng.range(-50, 50);
      if (style == 1)
        cdc->set_cell(cx, cd);
      all.push_back(cd);
      if (style == 2)
        for (int i = 0; i < nr; i++)
          for (int j = 0; j < ncl; j++)
            cdc->set_value(cx, i, j, v[cx][j * nr + i]);
    }
    if (style == 0)
      cdc->set_all_cells(all);
  };
  init(A, a, c.lrng.range(0, 2));
  init(Mi, mi, c.lrng.range(0, 2));
  init(Ma, ma, 0);
  init(Rd, rd, c.lrng.range(0, 2));
  init(Wr, wr, 0);
  init(Rp, rp, 1);
  init(Rmi, rmi, 0);
  init(Rma, rma, 0);
  auto l = pick_launch(s);
  zero_n(s);
  auto p = make_loop(
      s, t,
      [=](auto ID, auto a, auto mi, auto ma, auto rd, auto N, auto wr) {
        INT h = 0;
        for (int i = 0; i < nr; i++)
          for (int j = 0; j < ncl; j++) {
            const T v = (T)small(salt, ID.at(0), i * 10 + j);
            a.fetch_add(i, j, v);
            mi.fetch_min(i, j, v);
            ma.fetch_max(i, j, v);
            h = h * 31 + (INT)rd.at(i, j);
            // the same value from every particle of the cell
            sycl::atomic_ref<T, sycl::memory_order::relaxed, sycl::memory_scope::device>(wr.at(i, j))
                .store((T)(i * 7 + j));
          }
        N.at(1) = h;
      },
      Access::read(Sym<INT>("ID")), Access::add(A), Access::min(Mi), Access::max(Ma), Access::read(Rd),
      Access::write(Sym<INT>("N")), Access::write(Wr));
  launch(p, l);
  // reductions
  auto red = [&](auto R, auto op) {
    auto q = make_loop(
        s, t,
        [=](auto ID, auto r) {
          for (int i = 0; i < nr; i++)
            for (int j = 0; j < ncl; j++)
              r.combine(i, j, (T)small(salt, ID.at(0), i * 10 + j));
        },
        Access::read(Sym<INT>("ID")), Access::reduce(R, op));
    launch(q, l);
  };
  red(Rp, Kernel::plus<T>());
  red(Rmi, Kernel::minimum<T>());
  red(Rma, Kernel::maximum<T>());
  for (auto &x : expected(s, t, l).rows) {
    const auto id = s.ids[x.first][x.second];
    auto N = s.w.A->get_cell(Sym<INT>("N"), x.first);
    INT h = 0;
    for (int i = 0; i < nr; i++)
      for (int j = 0; j < ncl; j++) {
        const T v = (T)small(salt, id, i * 10 + j);
        const int k = j * nr + i;
        a[x.first][k] += v;
        rp[x.first][k] += v;
        mi[x.first][k] = std::min(mi[x.first][k], v);
        rmi[x.first][k] = std::min(rmi[x.first][k], v);
        ma[x.first][k] = std::max(ma[x.first][k], v);
        rma[x.first][k] = std::max(rma[x.first][k], v);
        wr[x.first][k] = (T)(i * 7 + j);
        h = h * 31 + (INT)rd[x.first][k];
      }
    VH_CHECK(N->at(x.second, 1) == h, "args/cell-const-read",
             tn << " cell " << x.first << " layer " << x.second << " read other values");
    count("contributions");
  }
  auto cmp = [&](auto cdc, auto &v, const char *what) {
    auto all = cdc->get_all_cells();
    for (int cx = 0; cx < s.nc; cx++) {
      auto one = cdc->get_cell(cx);
      for (int i = 0; i < nr; i++)
        for (int j = 0; j < ncl; j++) {
          VH_CHECK(one->at(i, j) == v[cx][j * nr + i], std::string("args/cell-const-") + what,
                   tn << " cell " << cx << " (" << i << "," << j << ") is " << one->at(i, j) << " expected "
                      << v[cx][j * nr + i] << " launch " << l.mode);
          VH_CHECK(all[cx]->at(i, j) == one->at(i, j) && cdc->get_value(cx, i, j) == one->at(i, j),
                   "args/cell-const-get", tn << " accessors disagree");
        }
    }
  };
  cmp(A, a, "add");
  cmp(Mi, mi, "min");
  cmp(Ma, ma, "max");
  cmp(Rd, rd, "read");
  cmp(Wr, wr, "write");
  cmp(Rp, rp, "reduce-plus");
  cmp(Rmi, rmi, "reduce-min");
  cmp(Rma, rma, "reduce-max");
}

void nd_array(Sys &s) {
  auto &c = s.c;
  auto t = make_target(s);
  const auto salt = c.lrng.u64();
  const int n0 = c.lrng.range(1, 4), n1 = c.lrng.range(1, 4), n2 = c.lrng.range(1, 4);
  auto nd = std::make_shared<NDLocalArray<REAL, 3>>(s.w.target, n0, n1, n2);
  auto nr = std::make_shared<NDLocalArray<INT, 2>>(s.w.target, n1, n2);
  std::vector<INT> tab(n1 * n2);
  for (auto &x : tab)
    x = c.lrng.range(-9, 9);
  nr->set(tab);
  std::vector<REAL> want(n0 * n1 * n2, 2.0);
  nd->fill(2.0);
  auto l = pick_launch(s);
  launch(make_loop(
             s, t,
             [=](auto ID, auto A, auto B) {
               const auto h = hash64(salt, ID.at(0));
               const int i = h % n0, j = (h >> 8) % n1, k = (h >> 16) % n2;
               A.fetch_add(i, j, k, (REAL)(small(salt, ID.at(0), 1) + B.at(j, k)));
             },
             Access::read(Sym<INT>("ID")), Access::add(nd), Access::read(nr)),
         l);
  for (auto &x : expected(s, t, l).rows) {
    const auto id = s.ids[x.first][x.second];
    const auto h = hash64(salt, id);
    const int i = h % n0, j = (h >> 8) % n1, k = (h >> 16) % n2;
    want[(i * n1 + j) * n2 + k] += (REAL)(small(salt, id, 1) + tab[j * n2 + k]);
    count("contributions");
  }
  VH_CHECK(nd->get() == want, "args/nd-local-array", "shape " << n0 << "," << n1 << "," << n2);
}

void dats_and_symvec(Sys &s) {
  auto &c = s.c;
  auto t = make_target(s);
  const auto salt = c.lrng.u64();
  const int nv = s.w.dats[0].ncomp;
  auto sv = std::make_shared<SymVector<REAL>>(s.w.A, std::vector<Sym<REAL>>{Sym<REAL>("W"), Sym<REAL>("V")});
  auto si = std::make_shared<SymVector<INT>>(s.w.A, std::vector<Sym<INT>>{Sym<INT>("K"), Sym<INT>("N")});
  zero_n(s);
  auto l = pick_launch(s);
  auto p = make_loop(
      s, t,
      [=](auto SV, auto SI, auto I, auto ID) {
        REAL sum = 0;
        for (int k = 0; k < nv; k++)
          sum += SV.at(1, k);
        SI.at(1, 1) = SI.at(0, 1) + 1;
        SI.at(1, I, 2) = SI.at(0, I.cell, I.layer, 0);
        SI.at(1, 3) = sum > 0 ? (INT)sum : -(INT)(-sum);
        SI.at(1, 4) = (INT)(SV.at(0, I, 1) * 16);
        SI.at(1, 5) = ID.at(0);
      },
      Access::read(sv), Access::write(si), Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")));
  launch(p, l);
  // memory private to a particle
  const int nm = c.lrng.range(1, 5);
  auto lb = std::make_shared<LocalMemoryBlock<REAL>>(nm);
  auto li = std::make_shared<LocalMemoryInterlaced<INT>>(nm + 1);
  auto q = make_loop(
      s, t,
      [=](auto LB, auto LI, auto ID, auto N) {
        for (int k = 0; k < nm; k++)
          LB.at(k) = (REAL)small(salt, ID.at(0), k);
        for (int k = 0; k < nm + 1; k++)
          LI.at(k) = small(salt, ID.at(0), 50 + k);
        INT h = 0;
        for (int k = 0; k < nm; k++)
          h = h * 7 + (INT)LB.data()[k];
        for (int k = 0; k < nm + 1; k++)
          h = h * 7 + LI.data()[k * LI.get_stride()];
        N.at(0) = h;
      },
      Access::write(lb), Access::write(li), Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("N")));
  launch(q, l);
  std::set<std::pair<int, int>> cov;
  for (auto &x : expected(s, t, l).rows)
    cov.insert(x);
  for (int cx = 0; cx < s.nc; cx++) {
    auto N = s.w.A->get_cell(Sym<INT>("N"), cx);
    for (int k = 0; k < N->nrow; k++) {
      const auto id = s.ids[cx][k];
      if (!cov.count({cx, k})) {
        VH_CHECK(N->at(k, 0) == 0 && N->at(k, 1) == -1 && N->at(k, 5) == -1, "args/untouched",
                 "cell " << cx << " layer " << k << " outside the loop was written");
        continue;
      }
      REAL sum = 0;
      for (int q = 0; q < nv; q++)
        sum += pay_real(id, name_hash("V"), q);
      INT h = 0;
      for (int q = 0; q < nm; q++)
        h = h * 7 + small(salt, id, q);
      for (int q = 0; q < nm + 1; q++)
        h = h * 7 + small(salt, id, 50 + q);
      VH_CHECK(N->at(k, 1) == pay_int(id, name_hash("K"), 1) + 1 && N->at(k, 2) == pay_int(id, name_hash("K"), 0) &&
                   N->at(k, 3) == (INT)sum && N->at(k, 4) == (INT)(pay_real(id, name_hash("W"), 1) * 16) &&
                   N->at(k, 5) == id,
               "args/sym-vector", "cell " << cx << " layer " << k << " id " << id);
      VH_CHECK(N->at(k, 0) == h, "args/local-memory",
               "cell " << cx << " layer " << k << " private memory gave " << N->at(k, 0) << " expected " << h);
      count("contributions");
    }
  }
}

void arguments(Case &c) {
  Sys s(c);
  s.add();
  if (c.lrng.chance(0.3))
    s.add();
  if (c.lrng.chance(0.2))
    s.remove();
  const int k = c.rng.range(0, 6);
  distinct("argument", std::to_string(k));
  switch (k) {
  case 0:
    if (c.lrng.chance(0.5))
      arrays<REAL>(s, "REAL");
    else
      arrays<INT>(s, "INT");
    break;
  case 1:
    if (c.rng.chance(0.5))
      global_array<REAL>(s, "REAL");
    else
      global_array<INT>(s, "INT");
    break;
  case 2:
  case 3: {
    const int q = c.lrng.range(0, 2);
    if (q == 0)
      cell_const<REAL>(s, "REAL");
    else if (q == 1)
      cell_const<INT>(s, "INT");
    else
      cell_const<int>(s, "int");
    break;
  }
  case 4:
    nd_array(s);
    break;
  default:
    dats_and_symvec(s);
  }
  auto recs = read_group(s.w.A, {{"V", s.w.dats[0].ncomp, true}, {"W", 2, true}, {"K", 2, false}}, "args", true,
                         "after loops");
  c.nontrivial = s.npart() > 0;
  c.desc << s.w.wp.str() << " argument " << k << " npart " << s.npart();
  any_violation();
  s.w.free();
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv, {{"iter", iteration, 3}, {"datloop", dat_loop}, {"args", arguments, 4}});
}
