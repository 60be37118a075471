// P04 adding particles, P05 removing particles, P06 storage bookkeeping and
// extraction: random histories on groups compared with a model of records.
#include "world.hpp"
using namespace vh;
using namespace NESO::Particles;

namespace {

using Rec_t = std::vector<std::uint64_t>;
using Cells = std::vector<std::vector<Rec_t>>;

std::uint64_t bits(double v) {
  std::uint64_t u;
  std::memcpy(&u, &v, 8);
  return u;
}
std::uint64_t bits(INT v) { return (std::uint64_t)v; }
template <typename T> T unbits(std::uint64_t u) {
  T v;
  std::memcpy(&v, &u, 8);
  return v;
}

struct Dat {
  std::string name;
  int ncomp;
  bool real;
  int off;
  bool positions = false;
};

// all properties which may ever exist in a case
struct Universe {
  std::vector<Dat> dats;
  int n = 0;
  int iP, iC, iID, iR;
  int add(const std::string &name, int ncomp, bool real, bool pos = false) {
    dats.push_back({name, ncomp, real, n, pos});
    n += ncomp;
    return (int)dats.size() - 1;
  }
};

struct Grp {
  ParticleGroupSharedPtr g;
  std::set<int> has; // indices into universe
  Cells cells;       // as last observed, in layer order
  ParticleSubGroupSharedPtr all;
};

struct Hist {
  Case &c;
  World &w;
  Universe u;
  std::vector<Grp> grps;
  int nc;
  std::string log;
  std::uint64_t nadd = 0, nrem = 0, nget = 0;
  INT next_id = 1;
  std::string key = "group";

  Hist(Case &c, World &w) : c(c), w(w) { nc = w.ncell(); }

  template <typename F> void with(const Dat &d, F f) {
    if (d.real)
      f(Sym<REAL>(d.name), REAL{});
    else
      f(Sym<INT>(d.name), INT{});
  }

  ParticleSpec spec_of(const std::set<int> &s) {
    std::vector<int> v(s.begin(), s.end());
    c.lrng.shuffle(v);
    ParticleSpec out;
    for (int i : v) {
      auto &d = u.dats[i];
      if (d.real)
        out.push(ParticleProp(Sym<REAL>(d.name), d.ncomp, d.positions));
      else
        out.push(ParticleProp(Sym<INT>(d.name), d.ncomp, d.positions));
    }
    return out;
  }

  Cells snapshot(Grp &G, const std::string &where) {
    Cells out(nc);
    std::int64_t tot = 0;
    for (int cx = 0; cx < nc; cx++) {
      const int n = G.g->get_npart_cell(cx);
      tot += n;
      if (!VH_CHECK(n >= 0, key + "/npart-negative", where << " cell " << cx << ": " << n))
        continue;
      out[cx].assign(n, Rec_t(u.n, 0));
      for (int i : G.has) {
        auto &d = u.dats[i];
        with(d, [&](auto sym, auto) {
          auto data = G.g->get_cell(sym, cx);
          VH_CHECK(data->nrow == n, key + "/rows",
                   where << ": cell " << cx << " holds " << n << " particles but " << d.name << " has "
                         << data->nrow << " rows");
          VH_CHECK(data->ncol == d.ncomp, key + "/ncomp", where << ": " << d.name << " " << data->ncol);
          for (int l = 0; l < std::min(n, data->nrow); l++)
            for (int k = 0; k < std::min(d.ncomp, data->ncol); k++)
              out[cx][l][d.off + k] = bits(data->at(l, k));
        });
      }
      count("particles_observed", n);
    }
    VH_CHECK(tot == G.g->get_npart_local(), key + "/npart-local",
             where << ": cells hold " << tot << ", get_npart_local " << G.g->get_npart_local());
    return out;
  }

  // what the kernel of a loop visits agrees with the stored rows
  void check_loop(Grp &G, const std::string &where) {
    auto la = std::make_shared<LocalArray<INT>>(w.target, nc, 0);
    particle_loop(
        G.g, [=](auto I, auto C) { C.fetch_add(I.cell, 1); }, Access::read(ParticleLoopIndex{}),
        Access::add(la))
        ->execute();
    auto v = la->get();
    for (int cx = 0; cx < nc; cx++)
      VH_CHECK(v[cx] == (INT)G.cells[cx].size(), key + "/loop-count",
               where << ": a loop visits " << v[cx] << " particles in cell " << cx << " of "
                     << G.cells[cx].size());
  }

  std::string show(const Rec_t &r, const Grp &G) {
    std::ostringstream s;
    for (int i : G.has) {
      auto &d = u.dats[i];
      s << d.name << "=";
      for (int k = 0; k < d.ncomp; k++) {
        if (d.real)
          s << unbits<double>(r[d.off + k]);
        else
          s << unbits<INT>(r[d.off + k]);
        s << (k + 1 < d.ncomp ? "," : " ");
      }
    }
    return s.str();
  }

  // compares the group with the expected records and stores the observation
  void settle(Grp &G, Cells want, const std::string &where, bool order = false) {
    auto got = snapshot(G, where);
    for (int cx = 0; cx < nc; cx++) {
      auto a = got[cx], b = want[cx];
      if (!order) {
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
      }
      if (a != b) {
        std::vector<Rec_t> lost, extra;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(lost));
        std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(extra));
        std::ostringstream s;
        s << where << ": cell " << cx << " has " << a.size() << " particles, expected " << b.size();
        if (lost.size())
          s << "; missing " << lost.size() << " e.g. " << show(lost[0], G);
        if (extra.size())
          s << "; unexpected " << extra.size() << " e.g. " << show(extra[0], G);
        VH_CHECK(false, key + "/content", s.str());
      } else
        count("oracle_checks");
    }
    G.cells = got;
  }

  std::uint64_t rnd_bits(const Dat &d) {
    if (d.real)
      return bits(c.lrng.chance(0.1) ? 0.0 : c.lrng.real(-10.0, 10.0));
    return bits((INT)(c.lrng.chance(0.1) ? 0 : (INT)c.lrng.range(-1000, 1000)));
  }
  Rec_t rnd_rec(const std::set<int> &s, int cell) {
    Rec_t r(u.n, 0);
    for (int i : s) {
      auto &d = u.dats[i];
      for (int k = 0; k < d.ncomp; k++)
        r[d.off + k] = rnd_bits(d);
    }
    if (s.count(u.iID))
      r[u.dats[u.iID].off] = bits(next_id++);
    if (s.count(u.iC))
      r[u.dats[u.iC].off] = bits((INT)cell);
    return r;
  }
  // restricted to what the group has
  Rec_t project(const Rec_t &r, const std::set<int> &keep) {
    Rec_t o(u.n, 0);
    for (int i : keep)
      for (int k = 0; k < u.dats[i].ncomp; k++)
        o[u.dats[i].off + k] = r[u.dats[i].off + k];
    return o;
  }
  std::set<int> subset(const std::set<int> &s, double p, const std::set<int> &must = {}) {
    std::set<int> o = must;
    for (int i : s)
      if (c.lrng.chance(p))
        o.insert(i);
    return o;
  }
  int rnd_n() {
    const int k = c.lrng.range(0, 9);
    if (k == 0)
      return 0;
    if (k == 1)
      return c.lrng.range(60, thorough() ? 500 : 200);
    return c.lrng.range(1, 40);
  }
  int rnd_cell(int style, int hot) {
    if (style == 0)
      return hot;
    if (style == 1 && c.lrng.chance(0.6))
      return hot;
    return (int)c.lrng.below(nc);
  }

  void set_values(ParticleSet &ps, const std::set<int> &s, int px, const Rec_t &r) {
    for (int i : s) {
      auto &d = u.dats[i];
      with(d, [&](auto sym, auto t) {
        for (int k = 0; k < d.ncomp; k++)
          ps[sym][px][k] = unbits<decltype(t)>(r[d.off + k]);
      });
    }
  }

  void op_add_set(Grp &G) {
    // the set may lack properties and may carry properties the group lacks
    std::set<int> all;
    for (int i = 0; i < (int)u.dats.size(); i++)
      all.insert(i);
    auto have = subset(c.lrng.chance(0.2) ? all : G.has, 0.7, {u.iC});
    const int n = rnd_n(), style = c.lrng.range(0, 3), hot = c.lrng.below(nc);
    ParticleSet ps(n, spec_of(have));
    auto want = G.cells;
    for (int px = 0; px < n; px++) {
      const int cell = rnd_cell(style, hot);
      auto r = rnd_rec(have, cell);
      set_values(ps, have, px, r);
      want[cell].push_back(project(r, G.has));
    }
    log += " set" + std::to_string(n);
    G.g->add_particles_local(ps);
    nadd += n;
    settle(G, want, "after adding a set" + hist());
  }

  std::string hist() { return " [" + log.substr(log.size() > 160 ? log.size() - 160 : 0) + "]"; }

  void op_add_group(Grp &G, Grp &S) {
    auto want = G.cells;
    for (int cx = 0; cx < nc; cx++)
      for (auto &r : S.cells[cx]) {
        want[cx].push_back(project(project(r, S.has), G.has));
        nadd++;
      }
    log += " group";
    G.g->add_particles_local(S.g);
    settle(G, want, "after adding a group" + hist());
    settle(S, S.cells, "source after adding a group" + hist(), true);
  }

  // a sub group selected by the harness, and the selected (cell, layer)s
  std::shared_ptr<ParticleSubGroup> rnd_sub(Grp &S, std::vector<std::pair<int, int>> &sel) {
    const int kind = c.lrng.range(0, 4);
    const auto salt = c.lrng.u64();
    const int mod = c.lrng.range(1, 5);
    auto by_cells = [&](int a, int b) {
      for (int cx = a; cx < b; cx++)
        for (int l = 0; l < (int)S.cells[cx].size(); l++)
          sel.push_back({cx, l});
    };
    if (kind == 0) {
      by_cells(0, nc);
      return particle_sub_group(S.g);
    }
    if (kind == 1) {
      const int a = c.lrng.below(nc);
      by_cells(a, a + 1);
      return particle_sub_group(S.g, a);
    }
    if (kind == 2) {
      const int a = c.lrng.below(nc), b = c.lrng.range(a + 1, nc);
      by_cells(a, b);
      return particle_sub_group(S.g, a, b);
    }
    // by a predicate on cell and layer (mod 1: all, kind 4: none or few)
    const int off = S.cells.size() ? 0 : 0;
    (void)off;
    const bool none = kind == 4 && c.lrng.chance(0.4);
    for (int cx = 0; cx < nc; cx++)
      for (int l = 0; l < (int)S.cells[cx].size(); l++)
        if (!none && hash64(salt, cx, l) % mod == 0)
          sel.push_back({cx, l});
    auto lam = [=](auto I) -> bool { return !none && hash64(salt, I.cell, I.layer) % mod == 0; };
    if (c.lrng.chance(0.3))
      return static_particle_sub_group(S.g, lam, Access::read(ParticleLoopIndex{}));
    return particle_sub_group(S.g, lam, Access::read(ParticleLoopIndex{}));
  }

  void op_add_sub(Grp &G, Grp &S) {
    std::vector<std::pair<int, int>> sel;
    auto sg = rnd_sub(S, sel);
    if (&G == &S && sg->is_entire_particle_group())
      return;
    auto want = G.cells;
    for (auto &x : sel)
      want[x.first].push_back(project(project(S.cells[x.first][x.second], S.has), G.has));
    log += " sub" + std::to_string(sel.size());
    G.g->add_particles_local(sg);
    nadd += sel.size();
    settle(G, want, "after adding a sub group" + hist());
    if (&G != &S)
      settle(S, S.cells, "source after adding a sub group" + hist(), true);
  }

  void op_product_matrix(Grp &G) {
    auto have = subset(G.has, 0.6);
    auto spec = product_matrix_spec(spec_of(have));
    // defaults
    Rec_t def(u.n, 0);
    for (int i : have) {
      auto &d = u.dats[i];
      with(d, [&](auto sym, auto t) {
        for (int k = 0; k < d.ncomp; k++)
          if (i != u.iC && c.lrng.chance(0.4)) {
            def[d.off + k] = rnd_bits(d);
            spec->set_default_value(sym, k, unbits<decltype(t)>(def[d.off + k]));
          }
      });
    }
    const int n = rnd_n(), style = c.lrng.range(0, 3), hot = c.lrng.below(nc);
    auto pm = product_matrix(w.target, spec);
    if (c.lrng.chance(0.3))
      pm->reset(c.lrng.range(0, 20)); // an earlier use
    pm->reset(n);
    // host route (set) or kernel route, for a subset of the properties
    std::vector<Rec_t> rows(n);
    auto writ = subset(have, 0.7);
    if (have.count(u.iC))
      writ.insert(u.iC);
    std::vector<INT> cells(n);
    for (int px = 0; px < n; px++) {
      int cell = rnd_cell(style, hot);
      if (c.lrng.chance(0.05))
        cell = -1; // masked
      cells[px] = cell;
      rows[px] = def;
      auto r = rnd_rec(writ, cell);
      for (int i : writ)
        for (int k = 0; k < u.dats[i].ncomp; k++)
          rows[px][u.dats[i].off + k] = r[u.dats[i].off + k];
    }
    if (n > 0 && !writ.empty()) {
      auto ps = std::make_shared<ParticleSet>(n, spec_of(writ));
      for (int px = 0; px < n; px++)
        set_values(*ps, writ, px, rows[px]);
      pm->set(ps);
    }
    // contents read back
    auto back = pm->get();
    VH_CHECK(back->npart == n, key + "/pm-npart", "product matrix of " << n << " returned " << back->npart);
    for (int i : have) {
      auto &d = u.dats[i];
      with(d, [&](auto sym, auto) {
        for (int px = 0; px < n; px++)
          for (int k = 0; k < d.ncomp; k++)
            VH_CHECK(bits(back->at(sym, px, k)) == rows[px][d.off + k], key + "/pm-get",
                     "product " << px << " " << d.name << "[" << k << "] holds " << back->at(sym, px, k));
      });
    }
    auto want = G.cells;
    for (int px = 0; px < n; px++) {
      const int cell = have.count(u.iC) ? (int)cells[px] : 0;
      if (cell >= 0) {
        want[cell].push_back(project(rows[px], G.has));
        nadd++;
      }
    }
    log += " pm" + std::to_string(n);
    G.g->add_particles_local(pm);
    settle(G, want, "after adding a product matrix" + hist());
  }

  // S: group of the parents; G: where the products go
  void op_descendants(Grp &G, Grp &S) {
    auto have = subset(G.has, 0.5);
    have.erase(u.iC); // products without parents have no meaning otherwise
    const bool with_cell = c.lrng.chance(0.4);
    if (with_cell)
      have.insert(u.iC);
    auto spec = product_matrix_spec(spec_of(have));
    const int np = c.lrng.range(1, 3);
    auto dp = std::make_shared<DescendantProducts>(w.target, spec, np);
    std::vector<std::pair<int, int>> sel;
    auto sg = rnd_sub(S, sel);
    const int npar = sg->get_npart_local();
    VH_CHECK(npar == (int)sel.size(), key + "/sub-npart", "sub group of " << sel.size() << " has " << npar);
    if (c.lrng.chance(0.3))
      dp->reset(c.lrng.range(0, 10));
    dp->reset(npar);
    const auto salt = c.lrng.u64();
    const int drop = with_cell ? 1000000 : c.lrng.range(1, 6);
    const int ncl = nc;
    // what the kernel writes: a function of cell, layer, product, column
    auto val = [=](std::uint64_t cell, std::uint64_t layer, int p, int col) {
      return (INT)(hash64(salt, cell * 1000003 + layer, p, col) % 2001) - 1000;
    };
    struct Col {
      bool real;
      int prop, ncomp, off, cell;
    };
    Col cols[24];
    int ncols = 0;
    for (int i : have) {
      auto &d = u.dats[i];
      int ix = d.real ? spec->get_sym_index(Sym<REAL>(d.name)) : spec->get_sym_index(Sym<INT>(d.name));
      cols[ncols++] = {d.real, ix, d.ncomp, d.off, i == u.iC};
    }
    struct Pack {
      Col c[24];
    } pk;
    std::memcpy(pk.c, cols, sizeof(cols));
    auto kern = [=](auto DP, auto I) {
      for (int p = 0; p < np; p++) {
        if (hash64(salt, I.cell, I.layer, p) % drop == 0)
          continue;
        DP.set_parent(I, p);
        for (int q = 0; q < ncols; q++)
          for (int k = 0; k < pk.c[q].ncomp; k++) {
            const INT v = val(I.cell, I.layer, p, pk.c[q].off + k);
            if (pk.c[q].cell)
              DP.at_int(I, p, pk.c[q].prop, k) = (v + 1000) % ncl;
            else if (pk.c[q].real)
              DP.at_real(I, p, pk.c[q].prop, k) = v * 0.5;
            else
              DP.at_int(I, p, pk.c[q].prop, k) = v;
          }
      }
    };
    particle_loop(sg, kern, Access::write(dp), Access::read(ParticleLoopIndex{}))->execute();
    auto want = G.cells;
    std::uint64_t made = 0;
    bool skip = false;
    for (auto &x : sel)
      for (int p = 0; p < np; p++) {
        if (hash64(salt, x.first, x.second, p) % drop == 0) {
          skip = skip || with_cell;
          continue;
        }
        Rec_t r = project(project(S.cells[x.first][x.second], S.has), G.has);
        int cell = x.first;
        for (int q = 0; q < ncols; q++)
          for (int k = 0; k < pk.c[q].ncomp; k++) {
            const INT v = val(x.first, x.second, p, pk.c[q].off + k);
            auto &dst = r[pk.c[q].off + k];
            if (pk.c[q].cell) {
              cell = (v + 1000) % ncl;
              dst = bits((INT)cell);
            } else if (pk.c[q].real)
              dst = bits((double)(v * 0.5));
            else
              dst = bits(v);
          }
        want[cell].push_back(r);
        made++;
      }
    if (skip)
      return; // a product without parent and with a cell: not specified
    log += " desc" + std::to_string(made);
    if (&G == &S && c.lrng.chance(0.5))
      G.g->add_particles_local(dp);
    else
      G.g->add_particles_local(dp, S.g);
    nadd += made;
    settle(G, want, "after adding descendants" + hist());
    if (&G != &S)
      settle(S, S.cells, "source after adding descendants" + hist(), true);
  }

  void op_remove(Grp &G) {
    std::vector<std::pair<int, int>> sel;
    const int kind = c.lrng.range(0, 5);
    if (kind <= 1) {
      const int mod = c.lrng.range(1, 4);
      const bool onecell = c.lrng.chance(0.3);
      const int cc = c.lrng.below(nc);
      for (int cx = 0; cx < nc; cx++)
        for (int l = 0; l < (int)G.cells[cx].size(); l++)
          if ((!onecell || cx == cc) && c.lrng.below(mod) == 0)
            sel.push_back({cx, l});
      c.lrng.shuffle(sel);
      std::vector<INT> cs, ls;
      for (auto &x : sel) {
        cs.push_back(x.first);
        ls.push_back(x.second);
      }
      log += " rem" + std::to_string(sel.size());
      if (kind == 0)
        G.g->remove_particles((int)sel.size(), cs, ls);
      else if (c.lrng.chance(0.5)) {
        BufferDevice<INT> dc(w.target, cs), dl(w.target, ls);
        G.g->remove_particles((int)sel.size(), dc.ptr, dl.ptr);
      } else {
        std::vector<int> ci(cs.begin(), cs.end()), li(ls.begin(), ls.end());
        BufferDevice<int> dc(w.target, ci), dl(w.target, li);
        G.g->remove_particles((int)sel.size(), dc.ptr, dl.ptr);
      }
    } else if (kind == 2 || kind == 3) {
      auto sg = rnd_sub(G, sel);
      log += " remsub" + std::to_string(sel.size());
      G.g->remove_particles(sg);
    } else if (kind == 4) {
      // by value
      const int i = c.lrng.chance(0.5) ? u.iID : u.iC;
      const INT v = i == u.iC ? (INT)c.lrng.below(nc) : (INT)c.lrng.below(next_id + 1);
      for (int cx = 0; cx < nc; cx++)
        for (int l = 0; l < (int)G.cells[cx].size(); l++)
          if (unbits<INT>(G.cells[cx][l][u.dats[i].off]) == v)
            sel.push_back({cx, l});
      if (!G.has.count(i))
        return;
      log += " remover" + std::to_string(sel.size());
      ParticleRemover pr(w.target);
      pr.remove(G.g, G.g->get_dat(Sym<INT>(u.dats[i].name)), v);
    } else {
      if (!c.lrng.chance(0.3))
        return;
      for (int cx = 0; cx < nc; cx++)
        for (int l = 0; l < (int)G.cells[cx].size(); l++)
          sel.push_back({cx, l});
      log += " clear";
      G.g->clear();
    }
    Cells want(nc);
    std::set<std::pair<int, int>> gone(sel.begin(), sel.end());
    for (int cx = 0; cx < nc; cx++)
      for (int l = 0; l < (int)G.cells[cx].size(); l++)
        if (!gone.count({cx, l}))
          want[cx].push_back(G.cells[cx][l]);
    nrem += sel.size();
    settle(G, want, "after removing particles" + hist());
  }

  void check_set(ParticleSetSharedPtr ps, Grp &G, const std::vector<std::pair<int, int>> &rows,
                 const std::string &where) {
    VH_CHECK(ps->npart == (int)rows.size(), key + "/get-npart",
             where << ": asked for " << rows.size() << " got " << ps->npart);
    if (ps->npart != (int)rows.size())
      return;
    for (int i : G.has) {
      auto &d = u.dats[i];
      with(d, [&](auto sym, auto) {
        VH_CHECK(ps->contains(sym), key + "/get-sym", where << ": no " << d.name);
        for (int px = 0; px < (int)rows.size(); px++)
          for (int k = 0; k < d.ncomp; k++)
            VH_CHECK(bits(ps->at(sym, px, k)) == G.cells[rows[px].first][rows[px].second][d.off + k],
                     key + "/get-value",
                     where << ": row " << px << " (cell " << rows[px].first << " layer " << rows[px].second
                           << ") " << d.name << "[" << k << "] is " << ps->at(sym, px, k));
      });
    }
    nget += rows.size();
  }

  void op_get(Grp &G) {
    std::vector<std::pair<int, int>> all;
    for (int cx = 0; cx < nc; cx++)
      for (int l = 0; l < (int)G.cells[cx].size(); l++)
        all.push_back({cx, l});
    std::vector<std::pair<int, int>> rows;
    const int n = all.empty() ? 0 : rnd_n();
    for (int i = 0; i < n; i++)
      rows.push_back(all[c.lrng.below(all.size())]);
    std::vector<INT> cs, ls;
    for (auto &x : rows) {
      cs.push_back(x.first);
      ls.push_back(x.second);
    }
    log += " get" + std::to_string(n);
    check_set(G.g->get_particles(cs, ls), G, rows, "get_particles" + hist());
    // through a sub group: the layers are those of the sub group
    std::vector<std::pair<int, int>> sel;
    auto sg = rnd_sub(G, sel);
    std::vector<int> per(nc, 0);
    std::vector<INT> sc, sl;
    for (auto &x : sel) {
      sc.push_back(x.first);
      sl.push_back(per[x.first]++);
    }
    auto ps = sg->get_particles(sc, sl);
    VH_CHECK(ps->npart == (int)sel.size(), key + "/get-npart", "sub group get_particles" + hist());
    // order inside a cell of the sub group is not specified
    std::vector<std::vector<Rec_t>> gotv(nc), wantv(nc);
    for (int px = 0; px < std::min((int)sel.size(), ps->npart); px++) {
      Rec_t r(u.n, 0);
      for (int i : G.has)
        with(u.dats[i], [&](auto sym, auto) {
          for (int k = 0; k < u.dats[i].ncomp; k++)
            r[u.dats[i].off + k] = bits(ps->at(sym, px, k));
        });
      gotv[sc[px]].push_back(r);
      wantv[sc[px]].push_back(G.cells[sel[px].first][sel[px].second]);
    }
    for (int cx = 0; cx < nc; cx++) {
      std::sort(gotv[cx].begin(), gotv[cx].end());
      std::sort(wantv[cx].begin(), wantv[cx].end());
      VH_CHECK(gotv[cx] == wantv[cx], key + "/sub-get", "sub group get_particles cell " << cx << hist());
    }
    nget += sel.size();
    settle(G, G.cells, "after get_particles" + hist(), true);
  }

  void op_cell_move(Grp &G) {
    const auto salt = c.lrng.u64();
    const int ncl = nc, mode = c.lrng.range(0, 2);
    particle_loop(
        G.g,
        [=](auto I, auto C) {
          const auto h = hash64(salt, I.cell, I.layer);
          C.at(0) = mode == 0 ? h % ncl : (mode == 1 ? (h % 4 ? I.cell : (h >> 9) % ncl) : salt % ncl);
        },
        Access::read(ParticleLoopIndex{}), Access::write(Sym<INT>(u.dats[u.iC].name)))
        ->execute();
    Cells want(nc);
    for (int cx = 0; cx < nc; cx++)
      for (int l = 0; l < (int)G.cells[cx].size(); l++) {
        const auto h = hash64(salt, cx, l);
        const int d = mode == 0 ? h % ncl : (mode == 1 ? (h % 4 ? cx : (h >> 9) % ncl) : salt % ncl);
        auto r = G.cells[cx][l];
        r[u.dats[u.iC].off] = bits((INT)d);
        want[d].push_back(r);
      }
    log += " cmove";
    G.g->cell_move();
    settle(G, want, "after a cell move" + hist());
  }

  void op_dat(Grp &G) {
    std::vector<int> may, can;
    for (int i = 0; i < (int)u.dats.size(); i++) {
      if (i == u.iP || i == u.iC || i == u.iR || i == u.iID)
        continue;
      (G.has.count(i) ? can : may).push_back(i);
    }
    if (!may.empty() && c.lrng.chance(0.6)) {
      const int i = c.lrng.pick(may);
      auto &d = u.dats[i];
      log += " +" + d.name;
      with(d, [&](auto sym, auto t) {
        using T = decltype(t);
        if (c.lrng.chance(0.5))
          G.g->add_particle_dat(sym, d.ncomp);
        else
          G.g->add_particle_dat(ParticleDat(w.target, ParticleProp(sym, d.ncomp), nc));
        VH_CHECK(G.g->contains_dat(sym), key + "/dat", "added " << d.name << " not found");
        // a new property has no defined values until written
        const auto salt = c.lrng.u64();
        const int ncomp = d.ncomp;
        const int how = c.lrng.range(0, 2);
        if (how == 0) {
          particle_loop(
              G.g,
              [=](auto I, auto A) {
                for (int k = 0; k < ncomp; k++)
                  A.at(k) = (T)(INT)(hash64(salt, I.cell, I.layer, k) % 1000);
              },
              Access::read(ParticleLoopIndex{}), Access::write(sym))
              ->execute();
        } else {
          // the symbol vector of an earlier property of the same name must not
          // be what the loop sees, from the group or from a sub group
          auto init = [&](auto target, auto sv) {
            particle_loop(
                target,
                [=](auto I, auto A) {
                  for (int k = 0; k < ncomp; k++)
                    A.at(0, k) = (T)(INT)(hash64(salt, I.cell, I.layer, k) % 1000);
                },
                Access::read(ParticleLoopIndex{}), Access::write(sv))
                ->execute();
          };
          auto sv = sym_vector<T>(G.g, std::vector<Sym<T>>{sym});
          if (how == 1)
            init(G.g, sv);
          else {
            if (!G.all)
              G.all = particle_sub_group(
                  G.g, [=](auto ID) { return ID.at(0) == ID.at(0); }, Access::read(Sym<INT>("ID")));
            init(G.all, sv);
          }
        }
        for (int cx = 0; cx < nc; cx++)
          for (int l = 0; l < (int)G.cells[cx].size(); l++)
            for (int k = 0; k < ncomp; k++)
              G.cells[cx][l][d.off + k] = bits((T)(INT)(hash64(salt, cx, l, k) % 1000));
      });
      G.has.insert(i);
      settle(G, G.cells, "after adding property " + d.name + hist(), true);
    } else if (!can.empty()) {
      const int i = c.lrng.pick(can);
      auto &d = u.dats[i];
      log += " -" + d.name;
      with(d, [&](auto sym, auto) {
        G.g->remove_particle_dat(sym);
        VH_CHECK(!G.g->contains_dat(sym), key + "/dat", "removed " << d.name << " still found");
      });
      G.has.erase(i);
      for (auto &cl : G.cells)
        for (auto &r : cl)
          for (int k = 0; k < d.ncomp; k++)
            r[d.off + k] = 0;
      settle(G, G.cells, "after removing property " + d.name + hist(), true);
    }
    // the reported size and specification follow the properties
    std::size_t bytes = 0;
    for (int i : G.has)
      bytes += 8 * (std::size_t)u.dats[i].ncomp;
    VH_CHECK(G.g->particle_size() == bytes, key + "/particle-size",
             "particle_size " << G.g->particle_size() << " expected " << bytes << hist());
    auto &sp = G.g->get_particle_spec();
    std::set<std::pair<std::string, int>> a, b;
    for (auto &p : sp.properties_real)
      a.insert({"R" + p.name, p.ncomp});
    for (auto &p : sp.properties_int)
      a.insert({"I" + p.name, p.ncomp});
    for (int i : G.has)
      b.insert({(u.dats[i].real ? "R" : "I") + u.dats[i].name, u.dats[i].ncomp});
    VH_CHECK(a == b && sp.properties_real.size() + sp.properties_int.size() == b.size(), key + "/spec",
             "particle_spec does not list the properties" + hist());
  }

  // values written through a loop end up in exactly the visited rows
  void op_write(Grp &G) {
    auto &d = u.dats[*std::next(G.has.begin(), c.lrng.below(G.has.size()))];
    if (&d == &u.dats[u.iC] || &d == &u.dats[u.iR])
      return;
    const auto salt = c.lrng.u64();
    log += " write";
    with(d, [&](auto sym, auto t) {
      using T = decltype(t);
      const int ncomp = d.ncomp;
      particle_loop(
          G.g,
          [=](auto I, auto A) {
            for (int k = 0; k < ncomp; k++)
              A.at(k) = (T)(INT)(hash64(salt, I.cell, I.layer, k) % 1000);
          },
          Access::read(ParticleLoopIndex{}), Access::write(sym))
          ->execute();
      for (int cx = 0; cx < nc; cx++)
        for (int l = 0; l < (int)G.cells[cx].size(); l++)
          for (int k = 0; k < ncomp; k++)
            G.cells[cx][l][d.off + k] = bits((T)(INT)(hash64(salt, cx, l, k) % 1000));
    });
    settle(G, G.cells, "after writing " + d.name + hist(), true);
  }

  // moves particles between ranks (collective)
  void op_rank_move(Grp &G) {
    const bool local = c.rng.chance(0.5);
    const auto salt = c.rng.u64();
    const int mode = c.rng.range(0, 2);
    std::vector<std::int64_t> nb;
    if (local)
      for (int x : w.mesh->get_local_communication_neighbours())
        nb.push_back(x);
    else
      for (int x = 0; x < size(); x++)
        nb.push_back(x);
    const int nn = (int)nb.size();
    nb.push_back(-1);
    std::vector<INT> table(nb.begin(), nb.end());
    auto la = std::make_shared<LocalArray<INT>>(w.target, table);
    auto pick = [=](std::uint64_t h) -> int {
      if (!nn || (mode == 0 && (h >> 40) % 3))
        return nn;
      return mode == 1 ? (int)(salt % nn) : (int)((h >> 8) % nn);
    };
    const int comp = local ? 1 : 0;
    particle_loop(
        G.g,
        [=](auto I, auto R, auto T) {
          R.at(0) = -1;
          R.at(1) = -1;
          R.at(comp) = T.at(pick(hash64(salt, I.cell, I.layer)));
        },
        Access::read(ParticleLoopIndex{}), Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(la))
        ->execute();
    const int oR = u.dats[u.iR].off;
    Cells want(nc);
    std::vector<std::int64_t> out;
    for (int cx = 0; cx < nc; cx++)
      for (int l = 0; l < (int)G.cells[cx].size(); l++) {
        auto r = G.cells[cx][l];
        const int d = (int)nb[pick(hash64(salt, cx, l))];
        r[oR] = r[oR + 1] = bits((INT)-1);
        r[oR + comp] = bits((INT)d);
        if (d < 0 || d == rank())
          want[cx].push_back(r);
        else {
          out.push_back(d);
          out.insert(out.end(), r.begin(), r.end());
        }
      }
    auto all = allgather(out);
    for (auto &v : all)
      for (std::size_t i = 0; i < v.size(); i += 1 + u.n) {
        if (v[i] == rank())
          want[0].push_back(Rec_t(v.begin() + i + 1, v.begin() + i + 1 + u.n));
      }
    count("particles_sent", out.size() / (1 + u.n));
    log += local ? " lmove" : " gmove";
    if (local)
      G.g->local_move();
    else
      G.g->global_move();
    settle(G, want, "after a move between ranks" + hist());
    particle_loop(
        G.g,
        [=](auto I, auto C, auto R) {
          C.at(0) = I.cell;
          R.at(0) = 0;
          R.at(1) = 0;
        },
        Access::read(ParticleLoopIndex{}), Access::write(Sym<INT>("CELL_ID")), Access::write(Sym<INT>("NESO_MPI_RANK")))
        ->execute();
    for (int cx = 0; cx < nc; cx++)
      for (auto &r : G.cells[cx]) {
        r[u.dats[u.iC].off] = bits((INT)cx);
        r[oR] = r[oR + 1] = 0;
      }
    settle(G, G.cells, "after renumbering cells" + hist(), true);
  }

  void run(int mode) {
    // histories with moves between ranks: every rank has the same properties
    const bool coop = size() > 1 && c.rng.chance(0.6);
    const auto own = c.lrng;
    if (coop)
      c.lrng = Rng(c.rng.u64());
    u.iP = u.add("P", w.wp.ndim, true, true);
    u.iC = u.add("CELL_ID", 1, false, true);
    u.iID = u.add("ID", 1, false);
    u.iR = u.add("NESO_MPI_RANK", 2, false);
    const int ex = c.lrng.range(1, 6);
    for (int i = 0; i < ex; i++)
      u.add(std::string(c.lrng.chance(0.5) ? "A" : "Q") + std::to_string(i), c.lrng.range(1, 4),
            c.lrng.chance(0.5));
    w.domain = std::make_shared<Domain>(w.mesh);
    const int ng = 2;
    for (int g = 0; g < ng; g++) {
      Grp G;
      G.has = {u.iP, u.iC, u.iID, u.iR};
      std::set<int> sp = {u.iP, u.iC, u.iID};
      for (int i = u.iR + 1; i < (int)u.dats.size(); i++)
        if (c.lrng.chance(0.6)) {
          G.has.insert(i);
          sp.insert(i);
        }
      auto spec = spec_of(sp);
      G.g = std::make_shared<ParticleGroup>(w.domain, spec, w.target);
      G.cells.assign(nc, {});
      grps.push_back(std::move(G));
    }
    if (coop)
      c.lrng = own;
    const int ops = c.rng.range(3, thorough() ? 30 : 14);
    for (int o = 0; o < ops && !(coop ? any_violation() : vh::violations() > 0); o++) {
      if (coop && o > 0 && c.rng.chance(0.35)) {
        auto &G = grps[c.rng.below(2)];
        if (c.rng.chance(0.3)) {
          const auto l = c.lrng;
          c.lrng = Rng(c.rng.u64());
          op_dat(G);
          c.lrng = l;
        } else
          op_rank_move(G);
        continue;
      }
      const int gi = c.lrng.chance(0.7) ? 0 : 1;
      Grp &G = grps[gi], &O = grps[1 - gi];
      int k = c.lrng.range(0, 99);
      count("ops");
      // mode 0 adding, 1 removing, 2 bookkeeping
      if (o == 0)
        k = 0;
      auto pickv = [&](std::vector<int> v) {
        int s = 0;
        for (int x : v)
          s += x;
        int q = c.lrng.range(0, s - 1);
        for (int i = 0; i < (int)v.size(); i++) {
          if (q < v[i])
            return i;
          q -= v[i];
        }
        return 0;
      };
      std::vector<std::vector<int>> W = {
          {20, 12, 15, 18, 18, 8, 2, 3, 2, 2}, {20, 4, 6, 5, 5, 45, 3, 6, 2, 4}, {20, 3, 5, 5, 5, 12, 18, 8, 18, 6}};
      if (coop)
        W[mode][8] = 0; // done by all ranks together
      const int op = o == 0 ? 0 : pickv(W[mode]);
      distinct("op", std::to_string(op));
      switch (op) {
      case 0:
        op_add_set(G);
        break;
      case 1:
        op_add_group(G, O);
        break;
      case 2:
        op_add_sub(G, c.lrng.chance(0.3) ? G : O);
        break;
      case 3:
        op_product_matrix(G);
        break;
      case 4:
        op_descendants(G, c.lrng.chance(0.5) ? G : O);
        break;
      case 5:
        op_remove(G);
        break;
      case 6:
        op_get(G);
        break;
      case 7:
        op_cell_move(G);
        break;
      case 8:
        op_dat(G);
        break;
      case 9:
        op_write(G);
        break;
      }
      if (c.lrng.chance(0.3))
        check_loop(G, "after op" + hist());
    }
    count("particles_added", nadd);
    count("particles_removed", nrem);
    count("particles_extracted", nget);
    c.desc << w.wp.str() << " history" << log;
    c.nontrivial = mode == 0 ? nadd > 0 : (mode == 1 ? nrem > 0 : nget + nadd > 0);
    grps.clear();
    any_violation();
  }
};

template <int MODE> void run(Case &c) {
  World w(random_world(c.rng, 4, size()));
  {
    Hist h(c, w);
    h.key = MODE == 0 ? "add" : (MODE == 1 ? "remove" : "book");
    h.run(MODE);
  }
  w.free();
}

} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv, {{"add", run<0>}, {"remove", run<1>}, {"book", run<2>}});
}
