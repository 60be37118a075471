// P12 pair loops run the kernel once per listed pair, wave after wave;
// P13 DSMC pair sampling and collision cell partitions.
#include "world.hpp"
using namespace vh;
using namespace NESO::Particles;

namespace {

constexpr std::int64_t MOD = 1000003;

struct Sys {
  World w;
  int nc;
  ParticleGroupSharedPtr A, B; // B may equal A
  std::int64_t next = 1;
  Case &c;
  Sys(Case &c, int maxc = 4) : w(random_world(c.rng, maxc, size())), c(c) {
    w.domain = std::make_shared<Domain>(w.mesh);
    w.setup({{"U", 1, false}});
    nc = w.ncell();
    A = w.A;
    A->add_particle_dat(ParticleDat(w.target, ParticleProp(Sym<INT>("W"), 2), nc));
    A->add_particle_dat(ParticleDat(w.target, ParticleProp(Sym<INT>("S"), 3), nc));
    B = A;
  }
  void second() {
    B = w.make_group({{"U", 1, false}});
    B->add_particle_dat(ParticleDat(w.target, ParticleProp(Sym<INT>("W"), 2), nc));
    B->add_particle_dat(ParticleDat(w.target, ParticleProp(Sym<INT>("S"), 3), nc));
  }
  void fill(ParticleGroupSharedPtr G, int maxocc, int minocc = 0) {
    std::vector<int> cells;
    const int prof = c.lrng.range(0, 3);
    for (int cx = 0; cx < nc; cx++) {
      int n = 0;
      if (prof == 0)
        n = c.lrng.range(minocc, maxocc);
      else if (prof == 1)
        n = maxocc;
      else if (prof == 2)
        n = c.lrng.chance(0.5) ? minocc : c.lrng.range(minocc, maxocc);
      else
        n = std::max(minocc, std::min(maxocc, 1 << c.lrng.range(0, 6)));
      for (int k = 0; k < n; k++)
        cells.push_back(cx);
    }
    c.lrng.shuffle(cells);
    const int n = (int)cells.size();
    ParticleSet ps(n, w.spec);
    for (int px = 0; px < n; px++) {
      ps[Sym<INT>("CELL_ID")][px][0] = cells[px];
      w.payload(ps, px, next++);
    }
    G->add_particles_local(ps);
    particle_loop(
        G, [=](auto W, auto ID) {
          W.at(0) = (ID.at(0) * 7919) % MOD;
          W.at(1) = (ID.at(0) * 104729) % MOD;
        },
        Access::write(Sym<INT>("W")), Access::read(Sym<INT>("ID")))
        ->execute();
  }
  std::vector<std::vector<std::int64_t>> read(ParticleGroupSharedPtr G, std::string name, int comp = 0) {
    std::vector<std::vector<std::int64_t>> v(nc);
    for (int cx = 0; cx < nc; cx++) {
      auto d = G->get_cell(Sym<INT>(name), cx);
      for (int l = 0; l < d->nrow; l++)
        v[cx].push_back(d->at(l, comp));
    }
    return v;
  }
  void free() {
    A.reset();
    B.reset();
    w.free();
  }
};

struct PairRec {
  int cell, wave, i, j;
};

// cell -> ordered pairs
using Model = std::vector<std::vector<PairRec>>;

std::vector<std::pair<int, int>> disjoint_pairs(Rng &r, int na, int nb, bool same, double frac, int stride = 1, int phase = 0) {
  std::vector<int> a, b;
  for (int i = phase; i < na; i += stride)
    a.push_back(i);
  for (int i = phase; i < nb; i += stride)
    b.push_back(i);
  r.shuffle(a);
  r.shuffle(b);
  std::vector<std::pair<int, int>> out;
  if (same) {
    for (std::size_t k = 0; k + 1 < a.size(); k += 2)
      if (r.chance(frac))
        out.push_back({a[k], a[k + 1]});
  } else {
    for (std::size_t k = 0; k < std::min(a.size(), b.size()); k++)
      if (r.chance(frac))
        out.push_back({a[k], b[k]});
  }
  return out;
}

// waves of sequentially issued pairs: a pair runs after every earlier pair
// that shares a particle with it
Model waves_of(const Model &in) {
  Model out(in.size());
  for (std::size_t c = 0; c < in.size(); c++) {
    std::map<int, int> nextw;
    for (auto p : in[c]) {
      const int wv = std::max(nextw[p.i], nextw[p.j]);
      nextw[p.i] = nextw[p.j] = wv + 1;
      out[c].push_back({(int)c, wv, std::min(p.i, p.j), std::max(p.i, p.j)});
    }
  }
  return out;
}

using Key = std::tuple<int, int, int, int>;
std::multiset<Key> keys(const Model &m) {
  std::multiset<Key> s;
  for (auto &v : m)
    for (auto &p : v)
      s.insert({p.cell, p.wave, p.i, p.j});
  return s;
}

struct Listed {
  CellwisePairListSharedPtr list;
  Model model;
  std::int64_t n() const {
    std::int64_t k = 0;
    for (auto &v : model)
      k += v.size();
    return k;
  }
};

void check_host(Sys &s, CellwisePairListSharedPtr l, const Model &m, const std::string &key) {
  auto h = l->get_host_pair_list();
  std::multiset<Key> got;
  for (auto &cx : h)
    for (auto &wx : cx.second) {
      VH_CHECK(wx.second.first.size() == wx.second.second.size(), key + "/host-size", "cell " << cx.first);
      for (std::size_t k = 0; k < std::min(wx.second.first.size(), wx.second.second.size()); k++)
        got.insert({cx.first, wx.first, wx.second.first[k], wx.second.second[k]});
    }
  const auto want = keys(m);
  vh::count("listed_pairs", want.size());
  VH_CHECK(got == want, key + "/host-list",
           "host copy of the pair list holds " << got.size() << " pairs, expected " << want.size()
                                               << " (or the same number of different pairs)");
}

// a history of operations on a simple list
Listed build_simple(Sys &s, bool waves_allowed, bool same, int stride, int phase) {
  auto na = s.read(s.A, "ID"), nb = s.read(s.B, "ID");
  auto l = std::make_shared<CellwisePairListSimple>(s.w.target, s.nc);
  Model m(s.nc);
  bool waves = same && waves_allowed && s.c.lrng.chance(0.6);
  const int nops = s.c.lrng.range(0, 3);
  for (int op = 0; op < nops; op++) {
    if (op > 0 && same && waves_allowed && s.c.lrng.chance(0.3)) {
      l->clear();
      m.assign(s.nc, {});
      waves = !waves;
    }
    if (waves) {
      if (s.c.lrng.chance(0.2)) {
        l->clear();
        m.assign(s.nc, {});
        continue;
      }
      auto h = std::make_shared<CellwisePairListHost>(s.nc);
      Model seq(s.nc);
      for (int rep = 0; rep < 2; rep++) {
        const double dens = s.c.lrng.pick(std::vector<double>{0.0, 0.3, 1.0, 3.0});
        for (int cx = 0; cx < s.nc; cx++) {
          std::vector<int> mem;
          for (int i = phase; i < (int)na[cx].size(); i += stride)
            mem.push_back(i);
          if (mem.size() < 2 || s.c.lrng.chance(0.2))
            continue;
          const int np = (int)(dens * mem.size()) + s.c.lrng.range(0, 1);
          for (int k = 0; k < np; k++) {
            const int i = s.c.lrng.pick(mem);
            int j = s.c.lrng.pick(mem);
            if (i == j)
              continue;
            h->push_back(cx, i, j);
            seq[cx].push_back({cx, 0, i, j});
          }
        }
        if (rep == 0 && s.c.lrng.chance(0.2)) {
          h->clear();
          seq.assign(s.nc, {});
        } else
          break;
      }
      l->set(h);
      m = waves_of(seq);
    } else {
      if (op > 0 && s.c.lrng.chance(0.6)) {
        l->clear();
        m.assign(s.nc, {});
        if (s.c.lrng.chance(0.3))
          continue;
      }
      std::vector<int> c, i, j;
      // pairs of one wave never share a particle: append only to cells that
      // hold none, or split the particles between two calls
      const int half = s.c.lrng.range(0, 1);
      for (int cx = 0; cx < s.nc; cx++) {
        if (!m[cx].empty())
          continue;
        if (half && s.c.lrng.chance(0.5))
          continue;
        for (auto &p : disjoint_pairs(s.c.lrng, (int)na[cx].size(), (int)nb[cx].size(), same, s.c.lrng.real(), stride, phase)) {
          c.push_back(cx);
          i.push_back(p.first);
          j.push_back(p.second);
        }
      }
      std::vector<int> perm(c.size());
      for (std::size_t k = 0; k < perm.size(); k++)
        perm[k] = (int)k;
      s.c.lrng.shuffle(perm);
      std::vector<int> c2, i2, j2;
      for (int k : perm) {
        c2.push_back(c[k]);
        i2.push_back(i[k]);
        j2.push_back(j[k]);
        m[c[k]].push_back({c[k], 0, i[k], j[k]});
      }
      // in one or several calls
      std::size_t at = 0;
      do {
        const std::size_t n = s.c.lrng.chance(0.5) ? c2.size() - at : s.c.lrng.below(c2.size() - at + 1);
        l->push_back(std::vector<int>(c2.begin() + at, c2.begin() + at + n),
                     std::vector<int>(i2.begin() + at, i2.begin() + at + n),
                     std::vector<int>(j2.begin() + at, j2.begin() + at + n));
        at += n;
      } while (at < c2.size());
    }
  }
  distinct("list_kind", std::string(waves ? "waves" : "single") + std::to_string(nops));
  check_host(s, l, m, "P12/list");
  return {l, m};
}

std::int64_t fA(std::int64_t a, std::int64_t b, std::int64_t k) { return (a * 31 + b * 17 + k) % MOD; }
std::int64_t fB(std::int64_t a, std::int64_t b, std::int64_t k) { return (a * 13 + b * 29 + 3 * k) % MOD; }

template <typename L>
void run_loop(Sys &s, L lists, const std::vector<Model> &models, const std::string &key, bool ordered_by_pos) {
  std::int64_t total = 0;
  for (auto &m : models)
    for (auto &v : m)
      total += v.size();
  // several executions of the same loop object
  const int slots = (int)total + 16;
  auto rec = std::make_shared<LocalArray<INT>>(s.w.target, 3 * slots, 0);
  auto bad = std::make_shared<LocalArray<INT>>(s.w.target, 1, 0);
  auto loop = particle_pair_loop(
      "monitored", lists,
      [=](auto INDEX, auto IDA, auto IDB, auto WA, auto WB, auto REC, auto BAD) {
        const INT ix = INDEX.get_loop_linear_index();
        if (ix < 0 || ix >= slots) {
          BAD.fetch_add(0, (INT)1);
        } else {
          REC.fetch_add(3 * ix, (INT)1);
          REC.fetch_add(3 * ix + 1, (INT)IDA.at(0));
          REC.fetch_add(3 * ix + 2, (INT)IDB.at(0));
        }
        const std::int64_t a = WA.at(0), b = WB.at(0), k = IDA.at(0) + 2 * IDB.at(0);
        WA.at(0) = (a * 31 + b * 17 + k) % MOD;
        WB.at(0) = (a * 13 + b * 29 + 3 * k) % MOD;
        WA.at(1) = WA.at(1) + 1;
        WB.at(1) = WB.at(1) + 1;
      },
      Access::read(ParticlePairLoopIndex{}), Access::A(Access::read(Sym<INT>("ID"))),
      Access::B(Access::read(Sym<INT>("ID"))), Access::A(Access::write(Sym<INT>("W"))),
      Access::B(Access::write(Sym<INT>("W"))), Access::add(rec), Access::add(bad));
  const auto ida = s.read(s.A, "ID"), idb = s.read(s.B, "ID");
  const int reps = s.c.lrng.range(1, 2);
  for (int rep = 0; rep < reps; rep++) {
    auto wa0 = s.read(s.A, "W", 0), wa1 = s.read(s.A, "W", 1);
    auto wb0 = s.read(s.B, "W", 0), wb1 = s.read(s.B, "W", 1);
    const bool same = s.A == s.B;
    auto &rb0 = same ? wa0 : wb0;
    auto &rb1 = same ? wa1 : wb1;
    int c0 = 0, c1 = s.nc;
    const int mode = s.c.lrng.range(0, 3);
    if (mode == 1) {
      c0 = (int)s.c.lrng.below(s.nc);
      c1 = s.c.lrng.range(c0, s.nc);
    } else if (mode == 2) {
      c0 = (int)s.c.lrng.below(s.nc);
      c1 = c0 + 1;
    }
    rec->fill(0);
    bad->fill(0);
    const bool sub = s.c.lrng.chance(0.5);
    if (mode == 0 || mode == 3) {
      if (sub) {
        loop->submit();
        loop->wait();
      } else
        loop->execute();
    } else if (mode == 1) {
      if (sub) {
        loop->submit(c0, c1);
        loop->wait();
      } else
        loop->execute(c0, c1);
    } else {
      if (sub) {
        loop->submit(c0);
        loop->wait();
      } else
        loop->execute(c0);
    }
    distinct("launch", std::to_string(mode) + (sub ? "s" : "e"));
    // expectation
    std::multiset<std::pair<std::int64_t, std::int64_t>> want;
    for (auto &m : models)
      for (int cx = c0; cx < c1; cx++) {
        auto v = m[cx];
        if (!ordered_by_pos)
          std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.wave < y.wave; });
        for (auto &p : v) {
          const auto ia = ida[cx][p.i], ib = idb[cx][p.j];
          want.insert({ia, ib});
          const auto a = wa0[cx][p.i], b = rb0[cx][p.j], k = ia + 2 * ib;
          wa0[cx][p.i] = fA(a, b, k);
          rb0[cx][p.j] = fB(a, b, k);
          wa1[cx][p.i]++;
          rb1[cx][p.j]++;
        }
      }
    auto r = rec->get();
    VH_CHECK(bad->get()[0] == 0, key + "/linear-index", bad->get()[0] << " pairs saw a linear index outside [0," << slots << ")");
    std::multiset<std::pair<std::int64_t, std::int64_t>> got;
    for (int k = 0; k < slots; k++) {
      if (r[3 * k] == 0)
        continue;
      VH_CHECK(k < total, key + "/linear-index", "pair linear index " << k << " of " << total << " pairs");
      if (VH_CHECK(r[3 * k] == 1, key + "/index-shared", r[3 * k] << " kernel invocations saw the pair linear index " << k))
        got.insert({r[3 * k + 1], r[3 * k + 2]});
    }
    VH_CHECK(got == want, key + "/visited",
             "launch mode " << mode << " cells [" << c0 << "," << c1 << ") of " << s.nc << ": kernel saw "
                            << got.size() << " pairs, expected " << want.size() << " (or other pairs)");
    auto cmp = [&](ParticleGroupSharedPtr G, auto &e0, auto &e1, const char *n) {
      auto g0 = s.read(G, "W", 0), g1 = s.read(G, "W", 1);
      for (int cx = 0; cx < s.nc; cx++) {
        VH_CHECK(g1[cx] == e1[cx], key + "/times", "number of pairs a particle of group " << n << " took part in, cell " << cx);
        VH_CHECK(g0[cx] == e0[cx], key + "/order",
                 "values of group " << n << " cell " << cx << " differ from the execution wave after wave");
      }
    };
    cmp(s.A, wa0, wa1, "A");
    if (!same)
      cmp(s.B, wb0, wb1, "B");
    vh::count("pairs_visited", want.size());
    if (want.size())
      s.c.nontrivial = true;
  }
}

void sc_simple(Case &c) {
  Sys s(c);
  const bool same = c.rng.chance(0.6);
  if (!same)
    s.second();
  const int maxocc = c.rng.pick(std::vector<int>{2, 6, 20, thorough() ? 150 : 60});
  s.fill(s.A, maxocc);
  if (!same)
    s.fill(s.B, maxocc);
  const int nl = c.rng.pick(std::vector<int>{1, 1, 2, 3});
  std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> lists;
  std::vector<Model> models;
  for (int k = 0; k < nl; k++) {
    auto l = build_simple(s, true, same, nl, k);
    lists.emplace_back(s.A, s.B, l.list);
    models.push_back(l.model);
  }
  c.desc << s.w.wp.str() << " lists " << nl << " same " << same;
  run_loop(s, lists, models, "P12", false);
  lists.clear();
  s.free();
}

// ------------------------------------------------------------------ NTC
struct Stream {
  Rng r;
  int mode;
  std::uint64_t n = 0;
  double next() {
    n++;
    if (mode == 1)
      return r.pick(std::vector<double>{0.0, 1.0, 0.5, 0.9999999999999999});
    return r.real();
  }
};

void sc_ntc(Case &c) {
  Sys s(c, 3);
  const bool same = c.rng.chance(0.5);
  const int maxocc = c.rng.pick(std::vector<int>{3, 8, 30, 90});
  s.fill(s.A, maxocc);
  // species by identity; the two sub groups are disjoint or the same
  particle_loop(
      s.A, [=](auto S, auto ID) { S.at(0) = (ID.at(0) * 2654435761) % 7 % 3; },
      Access::write(Sym<INT>("S")), Access::read(Sym<INT>("ID")))
      ->execute();
  auto mk = [&](INT sp) {
    if (c.rng.chance(0.3) && same)
      return particle_sub_group(s.A);
    return particle_sub_group(s.A, [=](auto S) { return S.at(0) == sp; }, Access::read(Sym<INT>("S")));
  };
  auto ga = mk(0);
  auto gb = same ? ga : mk(1);
  auto st = std::make_shared<Stream>(Stream{Rng(c.lrng.u64()), c.rng.chance(0.2) ? 1 : 0});
  auto rng = make_rng_generation_function<HostRNGGenerationFunction, REAL>([st]() -> REAL { return st->next(); });
  auto sampler = std::make_shared<DSMC::PairSamplerNTC>(s.w.target, s.nc, rng);
  std::vector<int> locc;
  const int rounds = c.rng.range(1, 3);
  const int dens = c.rng.pick(std::vector<int>{1, 3, 40, thorough() ? 400 : 120});
  for (int round = 0; round < rounds; round++) {
    if (round && c.rng.chance(0.5))
      s.fill(s.A, 3), particle_loop(
                          s.A, [=](auto S, auto ID) { S.at(0) = (ID.at(0) * 2654435761) % 7 % 3; },
                          Access::write(Sym<INT>("S")), Access::read(Sym<INT>("ID")))
                          ->execute();
    std::vector<std::set<int>> ma(s.nc), mb(s.nc);
    auto collect = [&](ParticleSubGroupSharedPtr g, std::vector<std::set<int>> &out) {
      const int n = (int)s.A->get_npart_local();
      auto la = std::make_shared<LocalArray<INT>>(s.w.target, 2 * n + 2, -1);
      particle_loop(
          g, [=](auto IX, auto L) {
            const INT k = IX.get_loop_linear_index();
            L.at(2 * k) = IX.cell;
            L.at(2 * k + 1) = IX.layer;
          },
          Access::read(ParticleLoopIndex{}), Access::write(la))
          ->execute();
      auto v = la->get();
      for (int k = 0; k < n; k++)
        if (v[2 * k] >= 0)
          out[v[2 * k]].insert((int)v[2 * k + 1]);
    };
    collect(ga, ma);
    collect(gb, mb);
    std::vector<int> counts(s.nc, 0);
    std::int64_t tot = 0;
    for (int cx = 0; cx < s.nc; cx++) {
      const bool ok = same ? ma[cx].size() >= 2 : (ma[cx].size() && mb[cx].size());
      if (ok && !c.lrng.chance(0.15))
        counts[cx] = c.lrng.range(0, dens);
      tot += counts[cx];
    }
    sampler->sample(ga, gb, counts);
    auto h = sampler->get_host_pair_list(s.w.target);
    const int bs = (int)s.w.target->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
    Model m(s.nc);
    for (int cx = 0; cx < s.nc; cx++) {
      auto &[vi, vj, vw] = h[cx];
      VH_CHECK((int)vi.size() == counts[cx] && vi.size() == vj.size() && vi.size() == vw.size(), "P13/ntc-count",
               "cell " << cx << " holds " << vi.size() << " pairs, requested " << counts[cx]);
      std::map<int, std::map<int, std::set<int>>> used; // block, wave -> particles
      for (std::size_t k = 0; k < vi.size(); k++) {
        VH_CHECK(ma[cx].count(vi[k]), "P13/ntc-member", "cell " << cx << " pair " << k << ": first particle " << vi[k] << " is not in sub group a");
        VH_CHECK(mb[cx].count(vj[k]), "P13/ntc-member", "cell " << cx << " pair " << k << ": second particle " << vj[k] << " is not in sub group b");
        VH_CHECK(vi[k] != vj[k], "P13/ntc-self", "cell " << cx << " particle " << vi[k] << " paired with itself");
        const int block = (int)k / bs;
        auto &u = used[block][vw[k]];
        VH_CHECK(u.insert(vi[k]).second && u.insert(vj[k]).second, "P13/ntc-wave",
                 "cell " << cx << " block " << block << " wave " << vw[k] << " uses a particle twice");
        m[cx].push_back({cx, block * 100000 + vw[k], vi[k], vj[k]});
      }
      vh::count("pairs_sampled", vi.size());
    }
    VH_CHECK(sampler->validate_pair_list(s.w.target), "P13/ntc-validate", "validate_pair_list rejects the sampled list");
    // occupied slots of every wave of every block
    {
      std::vector<int> occ(c.rng.chance(0.3) ? 1000 : 0, 17), want(bs + 1, 0);
      sampler->get_wave_occupancy_counts(s.w.target, occ);
      for (int cx = 0; cx < s.nc; cx++) {
        auto &vw = std::get<2>(h[cx]);
        for (std::size_t b = 0; b < vw.size(); b += bs) {
          std::map<int, int> n;
          int waves = 0;
          for (std::size_t k = b; k < std::min(vw.size(), b + bs); k++) {
            n[vw[k]]++;
            waves = std::max(waves, vw[k] + 1);
          }
          for (int w = 0; w < waves; w++)
            want[n.count(w) ? n[w] : 0]++;
        }
      }
      if (VH_CHECK(occ.size() == want.size(), "P13/occupancy", "occupancy counts of length " << occ.size() << " for blocks of " << bs)) {
        double sum = 0, nw = 0;
        for (int k = 0; k <= bs; k++) {
          if (k)
            VH_CHECK(occ[k] == want[k], "P13/occupancy", occ[k] << " waves with " << k << " pairs reported, there are " << want[k]);
          else
            VH_CHECK(occ[k] >= want[k], "P13/occupancy", occ[k] << " empty waves reported, there are " << want[k]);
          sum += static_cast<double>(k) * occ[k];
          nw += occ[k];
        }
        const double mean = get_mean_wave_occupancy(occ);
        const double wm = nw > 0 ? sum / (nw * bs) : 0.0;
        VH_CHECK(std::abs(mean - wm) <= 1e-12, "P13/occupancy-mean", "mean occupancy " << mean << " expected " << wm);
      }
      locc = occ;
      vh::count("wave_occupancies");
    }
    if (tot)
      c.nontrivial = true;
    if (vh::violations())
      break;
    // run a loop over it. Invalid for execution if versions changed by the
    // writes of the monitored kernel: W is not read by the selections.
    std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>> lists;
    lists.emplace_back(s.A, s.A, sampler);
    run_loop(s, lists, {m}, "P13/ntc-loop", false);
    // a list of particles that have since changed must be refused
    if (c.rng.chance(0.3) && s.A->get_npart_local() > 0) {
      std::vector<INT> cs, ls;
      for (int cx = 0; cx < s.nc && cs.empty(); cx++)
        if (s.A->get_npart_cell(cx)) {
          cs.push_back(cx);
          ls.push_back(0);
        }
      s.A->remove_particles(1, cs, ls);
      VH_CHECK(rejects([&]() { (void)sampler->get_pair_list(); }), "P13/ntc-stale",
               "a pair list sampled before particles were removed is still delivered");
      vh::count("stale_lists");
      sampler = std::make_shared<DSMC::PairSamplerNTC>(s.w.target, s.nc, rng);
    }
  }
  // the sum over the processes
  {
    const int bs = (int)s.w.target->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
    locc.resize(bs + 1);
    std::vector<int> gocc(c.rng.chance(0.5) ? 3 : 0, 5);
    get_global_wave_occupancy_counts(s.w.target, locc, gocc);
    auto all = vh::gather(std::vector<std::int64_t>(locc.begin(), locc.end()));
    if (vh::rank() == 0) {
      if (VH_CHECK((int)gocc.size() == bs + 1, "P13/occupancy-sum", "global occupancy counts of length " << gocc.size()))
        for (int k = 0; k <= bs; k++) {
          std::int64_t w = 0;
          for (auto &r : all)
            w += k < (int)r.size() ? r[k] : 0;
          VH_CHECK(gocc[k] == w, "P13/occupancy-sum", gocc[k] << " waves with " << k << " pairs in total, the sum over the processes is " << w);
        }
    } else
      VH_CHECK(gocc.empty(), "P13/occupancy-sum", "global counts on another process than the root");
  }
  // uniformity over ordered index pairs in one small cell
  if (c.rng.chance(0.15) && !vh::violations()) {
    auto aa = particle_sub_group(s.A);
    std::vector<int> counts(s.nc, 0);
    auto ids = s.read(s.A, "ID");
    int cell = -1;
    for (int cx = 0; cx < s.nc; cx++)
      if (ids[cx].size() >= 2 && ids[cx].size() <= 8)
        cell = cx;
    if (cell >= 0) {
      const int n = (int)ids[cell].size(), N = 4000;
      counts[cell] = N;
      st->mode = 0;
      auto sp = std::make_shared<DSMC::PairSamplerNTC>(s.w.target, s.nc, rng);
      sp->sample(aa, aa, counts);
      auto h = sp->get_host_pair_list(s.w.target);
      std::map<std::pair<int, int>, int> cnt;
      auto &[vi, vj, vw] = h[cell];
      for (std::size_t k = 0; k < vi.size(); k++)
        cnt[{vi[k], vj[k]}]++;
      const double p = 1.0 / (n * (n - 1)), sd = std::sqrt(N * p * (1 - p));
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          if (i != j)
            VH_CHECK((std::abs(cnt[{i, j}] - N * p) < 9 * sd + 1), "P13/ntc-uniform",
                     "pair (" << i << "," << j << ") of " << n << " particles drawn " << (cnt[{i, j}]) << " times of " << N);
      vh::count("uniformity_tests");
    }
  }
  c.desc << s.w.wp.str() << " ntc same " << same << " rounds " << rounds << " dens " << dens;
  s.free();
}

// -------------------------------------------------------- no replacement
void sc_nr(Case &c) {
  Sys s(c, 3);
  const int maxocc = c.rng.pick(std::vector<int>{2, 6, 20, 70});
  s.fill(s.A, maxocc);
  std::vector<INT> species;
  const int nsp = c.rng.range(1, 4);
  for (int k = 0; k < nsp; k++)
    species.push_back(c.rng.range(-3, 3) * 10 + k);
  const int comp_s = c.rng.range(0, 2), comp_c = (comp_s + 1) % 3;
  const int hole = c.rng.range(0, 1); // some particles have an unknown species
  auto given = species;
  if (c.rng.chance(0.3))
    given.push_back(species[0]); // duplicates are allowed
  auto part = std::make_shared<DSMC::CollisionCellPartition>(s.w.target, s.nc, given);
  auto st = std::make_shared<Stream>(Stream{Rng(c.lrng.u64()), c.rng.chance(0.2) ? 1 : 0});
  auto rng = make_rng_generation_function<HostRNGGenerationFunction, REAL>([st]() -> REAL { return st->next(); });
  auto sampler = std::make_shared<DSMC::PairSamplerNoReplacement>(s.w.target, s.nc, rng);
  ParticleSubGroupSharedPtr sg;
  const bool whole = c.rng.chance(0.5);
  if (whole)
    sg = particle_sub_group(s.A);
  else
    sg = particle_sub_group(s.A, [=](auto ID) { return ID.at(0) % 3 != 0; }, Access::read(Sym<INT>("ID")));
  const int rounds = c.rng.range(1, 3);
  for (int round = 0; round < rounds; round++) {
    if (round)
      s.fill(s.A, c.rng.range(0, 10));
    std::vector<int> ncc(s.nc);
    const int mx = c.rng.range(1, c.rng.chance(0.2) ? 40 : 6);
    for (auto &x : ncc)
      x = c.lrng.range(1, mx);
    const auto salt = c.lrng.u64();
    auto d_ncc = std::make_shared<LocalArray<INT>>(s.w.target, std::vector<INT>(ncc.begin(), ncc.end()));
    auto d_sp = std::make_shared<LocalArray<INT>>(s.w.target, species);
    particle_loop(
        s.A, [=](auto IX, auto ID, auto S, auto N, auto SP) {
          const auto h = hash64(salt, ID.at(0));
          S.at(comp_c) = (INT)((h >> 8) % (std::uint64_t)N.at(IX.cell));
          S.at(comp_s) = SP.at((h >> 20) % nsp);
          if (hole && (h % 5 == 0))
            S.at(comp_s) = 99999;
        },
        Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("S")), Access::read(d_ncc),
        Access::read(d_sp))
        ->execute();
    // model
    auto ids = s.read(s.A, "ID"), sp = s.read(s.A, "S", comp_s), cc = s.read(s.A, "S", comp_c);
    std::map<std::tuple<int, int, INT>, std::set<int>> mem;
    for (int cx = 0; cx < s.nc; cx++)
      for (int l = 0; l < (int)ids[cx].size(); l++)
        if (whole || ids[cx][l] % 3 != 0)
          mem[{cx, (int)cc[cx][l], sp[cx][l]}].insert(l);
    part->construct(sg, ncc, Sym<INT>("S"), comp_s, Sym<INT>("S"), comp_c);
    // the partition as seen by kernels
    {
      auto dev = part->get_device();
      std::int64_t tot = 0;
      for (auto &kv : mem)
        tot += kv.second.size();
      auto outn = std::make_shared<BufferDevice<INT>>(s.w.target, 1 + s.nc * mx * nsp);
      auto outl = std::make_shared<BufferDevice<INT>>(s.w.target, 1 + s.nc * mx * nsp * (tot + 1));
      auto ks = std::make_shared<BufferDevice<INT>>(s.w.target, species);
      auto kn = std::make_shared<BufferDevice<INT>>(s.w.target, std::vector<INT>(ncc.begin(), ncc.end()));
      auto *pn = outn->ptr;
      auto *pl = outl->ptr;
      auto *psp = ks->ptr;
      auto *pcc = kn->ptr;
      const int lnc = s.nc;
      s.w.target->queue
          .submit([&](sycl::handler &cgh) {
            cgh.single_task<>([=]() {
              for (int cx = 0; cx < lnc; cx++)
                for (int k = 0; k < pcc[cx]; k++)
                  for (int q = 0; q < nsp; q++) {
                    INT lin = -1;
                    const bool found = dev.get_linear_species_index(psp[q], &lin);
                    const INT at = (cx * mx + k) * nsp + q;
                    pn[at] = found ? dev.get_num_particles_cell_species(cx, k, lin) : -7;
                    if (found && pn[at] >= 0 && pn[at] <= tot)
                      for (INT z = 0; z < pn[at]; z++)
                        pl[at * (tot + 1) + z] = dev.get_particle_layer(cx, k, lin, z);
                  }
            });
          })
          .wait_and_throw();
      auto hn = outn->get(), hl = outl->get();
      for (int cx = 0; cx < s.nc; cx++)
        for (int k = 0; k < ncc[cx]; k++)
          for (int q = 0; q < nsp; q++) {
            const INT at = (cx * mx + k) * nsp + q;
            auto &want = mem[{cx, k, species[q]}];
            if (!VH_CHECK(hn[at] == (INT)want.size(), "P13/partition-count",
                          "cell " << cx << " collision cell " << k << " species " << species[q] << ": " << hn[at] << " particles, expected " << want.size()))
              continue;
            std::set<int> got;
            for (INT z = 0; z < hn[at]; z++)
              got.insert((int)hl[at * (tot + 1) + z]);
            VH_CHECK(got == want, "P13/partition-members", "cell " << cx << " collision cell " << k << " species " << species[q] << " lists other particles");
            vh::count("partition_entries", got.size());
          }
    }
    const INT a = c.rng.pick(species);
    const INT b = c.rng.chance(0.4) ? a : c.rng.pick(species);
    // limits
    for (int repl = 0; repl < 2; repl++) {
      std::vector<std::vector<int>> mp;
      if (c.rng.chance(0.3))
        mp.assign(s.nc + 2, std::vector<int>(3, 5));
      part->get_max_num_pairs(a, b, repl, mp);
      VH_CHECK((int)mp.size() == s.nc, "P13/max-pairs-shape", "cells " << mp.size());
      for (int cx = 0; cx < std::min((int)mp.size(), s.nc); cx++) {
        if (!VH_CHECK((int)mp[cx].size() == ncc[cx], "P13/max-pairs-shape", "collision cells " << mp[cx].size() << " of " << ncc[cx]))
          continue;
        for (int k = 0; k < ncc[cx]; k++) {
          const int na = (int)mem[{cx, k, a}].size(), nb = (int)mem[{cx, k, b}].size();
          int want;
          if (repl)
            want = (a == b ? na >= 2 : (na >= 1 && nb >= 1)) ? std::numeric_limits<int>::max() : 0;
          else
            want = a == b ? na / 2 : std::min(na, nb);
          VH_CHECK(mp[cx][k] == want, "P13/max-pairs", "cell " << cx << " collision cell " << k << " replacement " << repl << ": " << mp[cx][k] << " expected " << want);
        }
      }
    }
    // sample
    std::vector<std::vector<int>> counts(s.nc);
    const double frac = c.rng.pick(std::vector<double>{0.0, 0.5, 1.0});
    std::int64_t tot = 0;
    for (int cx = 0; cx < s.nc; cx++) {
      const int lim = c.lrng.chance(0.8) ? ncc[cx] : c.lrng.range(0, ncc[cx]);
      for (int k = 0; k < lim; k++) {
        const int na = (int)mem[{cx, k, a}].size(), nb = (int)mem[{cx, k, b}].size();
        const int mxp = a == b ? na / 2 : std::min(na, nb);
        const int n = frac == 1.0 ? mxp : c.lrng.range(0, (int)(mxp * frac));
        counts[cx].push_back(n);
        tot += n;
      }
    }
    sampler->sample(part, a, b, counts);
    auto h = sampler->get_host_pair_list();
    Model m(s.nc);
    for (int cx = 0; cx < s.nc; cx++) {
      std::vector<int> got(counts[cx].size(), 0);
      std::set<int> used;
      int n = 0;
      for (auto &wv : h[cx]) {
        VH_CHECK(wv.first == 0, "P13/nr-wave", "pairs without replacement form one wave, found wave " << wv.first);
        for (std::size_t k = 0; k < wv.second.first.size(); k++) {
          const int i = wv.second.first[k], j = wv.second.second[k];
          n++;
          if (!VH_CHECK(i >= 0 && j >= 0 && i < (int)ids[cx].size() && j < (int)ids[cx].size(), "P13/nr-range", "cell " << cx << " pair " << i << "," << j))
            continue;
          VH_CHECK(used.insert(i).second && used.insert(j).second, "P13/nr-twice", "cell " << cx << ": a particle of pair " << i << "," << j << " is used twice");
          const int ci = (int)cc[cx][i], cj = (int)cc[cx][j];
          VH_CHECK(ci == cj, "P13/nr-cell", "cell " << cx << ": pair of collision cells " << ci << " and " << cj);
          VH_CHECK((mem[{cx, ci, a}].count(i) && mem[{cx, cj, b}].count(j)), "P13/nr-species", "cell " << cx << ": pair " << i << "," << j << " is not of species " << a << "," << b);
          if (ci >= 0 && ci < (int)got.size())
            got[ci]++;
          m[cx].push_back({cx, 0, i, j});
        }
      }
      VH_CHECK(got == counts[cx], "P13/nr-count", "cell " << cx << " pairs per collision cell " << vh::str(got) << " requested " << vh::str(counts[cx]));
      vh::count("pairs_sampled", n);
    }
    if (tot)
      c.nontrivial = true;
    if (vh::violations())
      break;
    std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> lists;
    lists.emplace_back(s.A, s.A, sampler);
    run_loop(s, lists, {m}, "P13/nr-loop", false);
  }
  c.desc << s.w.wp.str() << " no replacement species " << nsp << " rounds " << rounds;
  s.free();
}

// ------------------------------------------------------------ all to all
void sc_all(Case &c) {
  const int W = 1 << c.rng.range(0, 6);
  const int n = c.rng.range(0, c.rng.chance(0.3) ? 200 : 40);
  std::map<std::pair<int, int>, int> seen;
  std::vector<std::vector<std::vector<int>>> steps(W);
  for (int q = 0; q < W; q++) {
    std::vector<std::vector<int>> st(1);
    DSMC::CellwiseAllToAll x(W, q);
    x.apply(
        n,
        [&](int r, int col) {
          seen[{std::min(r, col), std::max(r, col)}]++;
          VH_CHECK(r != col && r >= 0 && col >= 0 && r < n && col < n, "P13/all-range", "n " << n << " W " << W << " pair " << r << "," << col);
          st.back().push_back(r);
          st.back().push_back(col);
        },
        [&]() { st.push_back({}); });
    steps[q] = st;
  }
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
      VH_CHECK((seen[{i, j}] == 1), "P13/all-once", "n " << n << " W " << W << ": pair " << i << "," << j << " visited " << (seen[{i, j}]) << " times");
  for (int q = 1; q < W; q++)
    VH_CHECK(steps[q].size() == steps[0].size(), "P13/all-sync", "work items synchronise a different number of times");
  vh::count("pairs_all", seen.size());
  c.nontrivial = n > 1;
  c.desc << "all to all n " << n << " work group " << W;
}

// ------------------------------------------- samples in pair loops (P14)
void sc_rngpair(Case &c) {
  Sys s(c, 3);
  const bool same = c.rng.chance(0.6);
  if (!same)
    s.second();
  const int maxocc = c.rng.pick(std::vector<int>{2, 6, 20, 60});
  const bool none = c.lrng.chance(0.1);
  if (!none) {
    s.fill(s.A, maxocc);
    if (!same)
      s.fill(s.B, maxocc);
  }
  const int nl = c.rng.pick(std::vector<int>{1, 1, 2});
  std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> lists;
  std::int64_t total = 0;
  for (int k = 0; k < nl; k++) {
    auto l = build_simple(s, true, same, nl, k);
    lists.emplace_back(s.A, s.B, l.list);
    total += l.n();
  }
  const int ncomp = c.rng.range(0, 3);
  const bool atomic = c.rng.chance(0.4);
  auto drawn = std::make_shared<std::int64_t>(0);
  auto gen = [drawn]() -> REAL { return static_cast<REAL>(++(*drawn)); };
  const int block = c.rng.pick(std::vector<int>{1, 7, 8192});
  auto block_rng = host_per_particle_block_rng<REAL>(gen, ncomp, block);
  auto atomic_rng = host_atomic_block_kernel_rng<REAL>(gen, ncomp, block);
  atomic_rng->suppress_warnings = true;
  const int slots = (int)total + 4, w = 2 + 2 * 3;
  auto rec = std::make_shared<LocalArray<REAL>>(s.w.target, slots * w, 0);
  auto kern = [=](auto INDEX, auto REC, auto R) {
    const INT ix = INDEX.get_loop_linear_index();
    if (ix >= 0 && ix < slots) {
      REC.fetch_add(ix * w, 1.0);
      for (int k = 0; k < ncomp; k++) {
        bool ok = false;
        const REAL v = R.at(INDEX, k, &ok);
        REC.fetch_add(ix * w + 2 + 2 * k, v);
        REC.fetch_add(ix * w + 3 + 2 * k, ok ? 1.0 : 0.0);
      }
    }
  };
  ParticlePairLoopBaseSharedPtr loop;
  if (atomic)
    loop = particle_pair_loop("rng", lists, kern, Access::read(ParticlePairLoopIndex{}), Access::add(rec), Access::read(atomic_rng));
  else
    loop = particle_pair_loop("rng", lists, kern, Access::read(ParticlePairLoopIndex{}), Access::add(rec), Access::read(block_rng));
  std::set<std::int64_t> used;
  for (int rep = 0; rep < c.rng.range(1, 3); rep++) {
    rec->fill(0);
    const auto n0 = *drawn;
    if (c.rng.chance(0.3)) {
      const int c0 = (int)c.lrng.below(s.nc), c1 = c.lrng.range(c0, s.nc);
      loop->execute(c0, c1);
    } else if (c.rng.chance(0.5)) {
      loop->submit();
      loop->wait();
    } else
      loop->execute();
    const auto got = *drawn - n0;
    if (!atomic)
      VH_CHECK(got == total * ncomp, "rng/pair-draws", "pair loop over " << total << " pairs of " << ncomp << " components drew " << got << " samples");
    else
      VH_CHECK(got <= total * ncomp, "rng-atomic/pair-draws", "pair loop over " << total << " pairs of " << ncomp << " components drew " << got << " samples");
    auto r = rec->get();
    for (int ix = 0; ix < slots; ix++) {
      if (r[ix * w] == 0)
        continue;
      VH_CHECK(r[ix * w] == 1, "rng/pair-index", r[ix * w] << " kernel invocations saw pair index " << ix);
      for (int k = 0; k < ncomp; k++) {
        const auto v = (std::int64_t)r[ix * w + 2 + 2 * k];
        VH_CHECK(r[ix * w + 3 + 2 * k] == 1, "rng/pair-valid", "pair " << ix << " component " << k << " got an invalid sample");
        VH_CHECK(v >= 1 && v <= *drawn, "rng/pair-invented", "pair " << ix << " component " << k << " got sample " << v << " of " << *drawn << " drawn");
        VH_CHECK(used.insert(v).second, "rng/pair-reused", "pair " << ix << " component " << k << " got sample " << v << " which was used before");
        if (!atomic)
          VH_CHECK(v == n0 + 1 + k * total + ix, "rng/pair-value", "pair " << ix << " component " << k << " got sample " << v - n0 << " of this launch");
        vh::count("pair_samples");
        c.nontrivial = true;
      }
    }
    VH_CHECK(atomic ? atomic_rng->valid_internal_state() : block_rng->valid_internal_state(), "rng/pair-state", "generator reports an invalid state");
  }
  c.desc << s.w.wp.str() << " rng pair loop lists " << nl << " components " << ncomp << " atomic " << atomic;
  loop.reset();
  lists.clear();
  s.free();
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv, {{"simple", sc_simple, 4}, {"ntc", sc_ntc, 3}, {"nr", sc_nr, 3}, {"all", sc_all, 1}, {"rngpair", sc_rngpair, 1}});
}
