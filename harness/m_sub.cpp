// P09 sub groups hold exactly the particles their definition selects;
// P10 sub groups follow every later change, static ones stay as made until
// the group changes; P11 ephemeral dats.
#include "world.hpp"
using namespace vh;
using namespace NESO::Particles;
using ParticleSubGroupImplementation::SubGroupSelectorExclusiveScan;

namespace {
constexpr int MAXID = 1500;

struct Part {
  int cell, layer;
  std::int64_t id, k0, k1, part;
  double v0, v1;
};

struct Pred {
  int kind = 0, m = 1, r = 0;
  double t = 0;
  std::uint64_t salt = 0;
  bool operator()(const Part &p) const {
    switch (kind) {
    case 0:
      return ((p.k0 % m) + m) % m == r;
    case 1:
      return p.v1 < t;
    case 2:
      return p.layer % m == r;
    case 3:
      return hash64(salt, p.id) % m == (std::uint64_t)r;
    case 4:
      return (p.k1 & 1) && p.v0 > t;
    default:
      return kind == 5;
    }
  }
};

struct Node {
  std::string kind;
  ParticleSubGroupSharedPtr sg;
  std::vector<int> parents; // -1: the group
  Pred pred;
  int a = 0, b = 0;
  bool is_static = false, locked = false, dead = false;
  bool group_changed = false; // since it was made static
  std::vector<std::pair<int, int>> snapshot;
  std::shared_ptr<LocalArray<int>> la;
  ParticleLoopSharedPtr loop;
  int children = 0;
  int pgroup = -1;      // partition it belongs to
  bool touched = false; // properties were written since it was made static
  int static_at = 0, dead_at = 0; // steps at which the state was entered
  // as observed in this round
  bool seen = false;
  std::vector<std::pair<int, int>> obs; // (cell, layer) in order
};

struct Sys {
  Case &c;
  World w;
  int nc;
  std::int64_t next = 1;
  std::vector<Node> nodes;
  std::vector<std::vector<Part>> st;
  std::string key = "sub";
  int npg = 0, clock = 0;
  Sys(Case &c) : c(c), w(random_world(c.rng, 3, size())) {
    w.domain = std::make_shared<Domain>(w.mesh);
    w.setup({{"V", 2, true}, {"K", 2, false}, {"PART", 1, false}, {"U", 2, false}});
    nc = w.ncell();
  }
  void read() {
    st.assign(nc, {});
    for (int cx = 0; cx < nc; cx++) {
      auto id = w.A->get_cell(Sym<INT>("ID"), cx);
      auto k = w.A->get_cell(Sym<INT>("K"), cx);
      auto pp = w.A->get_cell(Sym<INT>("PART"), cx);
      auto v = w.A->get_cell(Sym<REAL>("V"), cx);
      for (int l = 0; l < id->nrow; l++)
        st[cx].push_back({cx, l, id->at(l, 0), k->at(l, 0), k->at(l, 1), pp->at(l, 0), v->at(l, 0), v->at(l, 1)});
    }
  }
  std::int64_t npart() {
    std::int64_t n = 0;
    for (auto &x : st)
      n += x.size();
    return n;
  }
  void changed() {
    for (auto &n : nodes)
      if (n.is_static)
        n.group_changed = true;
  }
  // operations that touched no particle may or may not count as a change
  void maybe_changed() {
    for (auto &n : nodes)
      if (n.is_static && !n.dead && !n.sg->is_valid())
        n.group_changed = true;
  }
  int add() {
    int n = c.lrng.chance(0.1) ? 0 : c.lrng.range(1, c.lrng.chance(0.3) ? 150 : 25);
    n = (int)std::min<std::int64_t>(n, MAXID - 1 - next);
    if (n <= 0)
      n = 0;
    ParticleSet ps(n, w.spec);
    const int hot = c.lrng.chance(0.3) ? nc - 1 : c.lrng.below(nc);
    const bool skew = c.lrng.chance(0.4);
    for (int px = 0; px < n; px++) {
      ps[Sym<INT>("CELL_ID")][px][0] = skew && c.lrng.chance(0.7) ? hot : c.lrng.below(nc);
      ps[Sym<INT>("ID")][px][0] = next++;
      ps[Sym<INT>("K")][px][0] = c.lrng.range(-6, 20);
      ps[Sym<INT>("K")][px][1] = c.lrng.range(-6, 20);
      ps[Sym<INT>("PART")][px][0] = c.lrng.range(-1, 4);
      ps[Sym<REAL>("V")][px][0] = c.lrng.real(-1, 1);
      ps[Sym<REAL>("V")][px][1] = c.lrng.real(-1, 1);
    }
    w.A->add_particles_local(ps);
    if (n)
      changed();
    else
      maybe_changed();
    read();
    return n;
  }
  bool depends_k(int i) {
    if (i < 0)
      return false;
    auto &n = nodes[i];
    if ((n.kind == "filter" || n.kind == "scan") && (n.pred.kind == 0 || n.pred.kind == 4))
      return true;
    for (int p : n.parents)
      if (depends_k(p))
        return true;
    return false;
  }
  bool usable(const Node &n) {
    if (n.dead)
      return false;
    if (n.is_static)
      return !n.group_changed;
    for (int p : n.parents)
      if (p >= 0 && !usable(nodes[p]))
        return false;
    return true;
  }
  void attach(Node &n) {
    n.la = std::make_shared<LocalArray<int>>(w.target, MAXID, 0);
    n.loop = particle_loop(
        "monitor", n.sg, [=](auto ID, auto LA) { LA.fetch_add(ID.at(0), 1); },
        Access::read(Sym<INT>("ID")), Access::add(n.la));
  }
  template <typename PARENT> ParticleSubGroupSharedPtr filter(PARENT parent, const Pred &p, bool escan, bool make_static) {
    const int m = p.m, r = p.r;
    const double t = p.t;
    const auto salt = p.salt;
    auto go = [&](auto kernel, auto... args) -> ParticleSubGroupSharedPtr {
      if (escan) {
        auto sel = std::make_shared<SubGroupSelectorExclusiveScan>(parent, kernel, args...);
        auto g = std::make_shared<ParticleSubGroup>(
            std::dynamic_pointer_cast<ParticleSubGroupImplementation::SubGroupSelectorBase>(sel));
        if (make_static)
          g->static_status(true);
        return g;
      }
      if (make_static)
        return static_particle_sub_group(parent, kernel, args...);
      return particle_sub_group(parent, kernel, args...);
    };
    switch (p.kind) {
    case 0:
      return go([=](auto K) -> bool { return ((K.at(0) % m) + m) % m == r; }, Access::read(Sym<INT>("K")));
    case 1:
      return go([=](auto V) -> bool { return V.at(1) < t; }, Access::read(Sym<REAL>("V")));
    case 2:
      return go([=](auto INDEX) -> bool { return INDEX.layer % m == r; }, Access::read(ParticleLoopIndex{}));
    case 3:
      return go([=](auto ID) -> bool { return hash64(salt, ID.at(0)) % m == (std::uint64_t)r; },
                Access::read(Sym<INT>("ID")));
    case 4:
      return go([=](auto K, auto V) -> bool { return (K.at(1) & 1) && V.at(0) > t; }, Access::read(Sym<INT>("K")),
                Access::read(Sym<REAL>("V")));
    default: {
      const bool yes = p.kind == 5;
      return go([=](auto) -> bool { return yes; }, Access::read(Sym<INT>("ID")));
    }
    }
  }
  Pred random_pred() {
    Pred p;
    p.kind = c.lrng.chance(0.1) ? c.lrng.range(5, 6) : c.lrng.range(0, 4);
    p.m = c.lrng.range(1, 4);
    p.r = c.lrng.below(p.m);
    p.t = c.lrng.real(-0.8, 0.8);
    p.salt = c.lrng.u64();
    return p;
  }
  int pick_parent() {
    std::vector<int> ok{-1, -1};
    for (int i = 0; i < (int)nodes.size(); i++)
      if (usable(nodes[i]))
        ok.push_back(i);
    return c.lrng.pick(ok);
  }
  template <typename F> auto with_parent(int p, F f) {
    if (p < 0)
      return f(w.A);
    return f(nodes[p].sg);
  }
  void push(Node n) {
    for (int p : n.parents)
      if (p >= 0)
        nodes[p].children++;
    attach(n);
    n.static_at = clock;
    if (n.is_static)
      n.snapshot = expect_now(n);
    nodes.push_back(std::move(n));
  }
  // what the definition selects from the parent as observed by the host
  std::vector<std::pair<int, int>> members(int p) {
    if (p < 0) {
      std::vector<std::pair<int, int>> o;
      for (auto &cx : st)
        for (auto &x : cx)
          o.push_back({x.cell, x.layer});
      return o;
    }
    return layers_of(nodes[p]);
  }
  std::vector<std::pair<int, int>> layers_of(Node &n) {
    std::vector<std::pair<int, int>> o;
    auto la = std::make_shared<LocalArray<INT>>(w.target, 2 * MAXID, -1);
    particle_loop(
        "monitor_layers", n.sg,
        [=](auto INDEX, auto LA) {
          const INT i = INDEX.get_loop_linear_index();
          LA.at(2 * i) = INDEX.cell;
          LA.at(2 * i + 1) = INDEX.layer;
        },
        Access::read(ParticleLoopIndex{}), Access::write(la))
        ->execute();
    auto v = la->get();
    int last = -1;
    for (int i = 0; i < MAXID && v[2 * i] >= 0; i++) {
      o.push_back({(int)v[2 * i], (int)v[2 * i + 1]});
      VH_CHECK(v[2 * i] >= last, key + "/order", n.kind << ": linear index " << i << " of cell " << v[2 * i] << " after cell " << last);
      last = (int)v[2 * i];
    }
    return o;
  }
  bool in_range(const std::pair<int, int> &x) {
    return x.first >= 0 && x.first < nc && x.second >= 0 && x.second < (int)st[x.first].size();
  }
  std::vector<std::pair<int, int>> apply(const Node &n, const std::vector<std::vector<std::pair<int, int>>> &par) {
    std::vector<std::pair<int, int>> o;
    auto count = std::map<int, int>();
    if (n.kind == "union") {
      for (auto &p : par)
        for (auto &x : p)
          o.push_back(x);
      return o;
    }
    for (auto &x : par[0]) {
      if (!in_range(x))
        continue;
      const auto &q = st[x.first][x.second];
      bool in = false;
      if (n.kind == "filter" || n.kind == "scan")
        in = n.pred(q);
      else if (n.kind == "cells")
        in = x.first >= n.a && x.first < n.b;
      else if (n.kind == "truncate")
        in = count[x.first]++ < n.a;
      else if (n.kind == "discard")
        in = count[x.first]++ >= n.a;
      else if (n.kind == "copy" || n.kind == "whole")
        in = true;
      else if (n.kind == "part")
        in = q.part == n.a;
      if (in)
        o.push_back(x);
    }
    return o;
  }
  std::vector<std::pair<int, int>> expect_now(Node &n) {
    std::vector<std::vector<std::pair<int, int>>> par;
    for (int p : n.parents)
      par.push_back(members(p));
    return apply(n, par);
  }
  void create() {
    clock++;
    if (nodes.size() > 14)
      return;
    const int k = c.lrng.range(0, 10);
    Node n;
    const int p = pick_parent();
    n.parents = {p};
    n.is_static = c.lrng.chance(0.25);
    if (k <= 3) {
      n.pred = random_pred();
      const bool escan = c.lrng.chance(0.35);
      n.kind = escan ? "scan" : "filter";
      n.sg = with_parent(p, [&](auto x) { return filter(x, n.pred, escan, n.is_static); });
    } else if (k == 4) {
      n.kind = "cells";
      n.a = c.lrng.range(0, nc);
      n.b = c.lrng.range(n.a, nc);
      const bool one = n.a < nc && c.lrng.chance(0.4);
      if (one)
        n.b = n.a + 1;
      n.sg = with_parent(p, [&](auto x) -> ParticleSubGroupSharedPtr {
        return one ? particle_sub_group(x, n.a) : particle_sub_group(x, n.a, n.b);
      });
      if (n.is_static)
        n.sg->static_status(true);
    } else if (k == 5 || k == 6) {
      n.kind = k == 5 ? "truncate" : "discard";
      n.a = c.lrng.range(0, c.lrng.chance(0.5) ? 8 : 120);
      n.sg = with_parent(p, [&](auto x) {
        return k == 5 ? particle_sub_group_truncate(x, n.a, n.is_static) : particle_sub_group_discard(x, n.a, n.is_static);
      });
    } else if (k == 7) {
      n.kind = p < 0 ? "whole" : "copy";
      n.is_static = false;
      n.sg = with_parent(p, [&](auto x) { return particle_sub_group(x); });
    } else if (k == 8) {
      // union of disjoint selections of one parent
      Pred a;
      a.kind = c.lrng.chance(0.5) ? 0 : 3;
      a.m = c.lrng.range(2, 4);
      a.salt = c.lrng.u64();
      const int np = c.lrng.range(1, a.m);
      std::vector<ParticleSubGroupSharedPtr> ps;
      n.parents.clear();
      for (int i = 0; i < np; i++) {
        Node q;
        q.kind = "filter";
        q.parents = {p};
        q.pred = a;
        q.pred.r = i;
        q.locked = true;
        q.sg = with_parent(p, [&](auto x) { return filter(x, q.pred, c.lrng.chance(0.3), false); });
        ps.push_back(q.sg);
        push(q);
        n.parents.push_back((int)nodes.size() - 1);
      }
      n.kind = "union";
      n.sg = particle_sub_group_disjoint_union(ps, n.is_static);
    } else {
      const int np = c.lrng.range(1, 4);
      npg++;
      auto v = with_parent(p, [&](auto x) { return particle_group_partition(x, Sym<INT>("PART"), np); });
      for (int i = 0; i < np; i++) {
        if (c.lrng.chance(0.15)) {
          v[i].reset();
          continue;
        }
        Node q;
        q.kind = "part";
        q.parents = {p};
        q.a = i;
        q.pgroup = npg;
        q.sg = v[i];
        push(q);
      }
      c.desc << " part" << np;
      count("sub_groups", np);
      distinct("kind", "part");
      return;
    }
    c.desc << " " << n.kind << (n.is_static ? "(s)" : "");
    count("sub_groups");
    distinct("kind", n.kind + (n.is_static ? "s" : "d") + (p < 0 ? "g" : "s"));
    push(n);
  }
  // a static partition member whose siblings may have been rebuilt, or a sub
  // group selected from one
  bool rebuilt_sibling(Node &n) {
    if (n.kind == "part" && n.is_static && n.touched)
      for (auto &m : nodes)
        if (&m != &n && m.pgroup == n.pgroup && (!m.dead || m.dead_at > n.static_at) && (!m.is_static || m.static_at > n.static_at))
          return true;
    for (int p : n.parents)
      if (p >= 0 && rebuilt_sibling(nodes[p]))
        return true;
    return false;
  }
  std::string node_key(Node &n) { return rebuilt_sibling(n) ? key + "/static-partition-sibling" : key; }
  void observe_one(Node &n) {
    n.seen = true;
    const std::string key = node_key(n);
    VH_CHECK(n.sg->is_valid(), key + "/valid", n.kind << " sub group reported as invalid without a change of the group");
    std::vector<int> order{0, 1, 2, 3};
    c.lrng.shuffle(order);
    std::int64_t nl = -1;
    std::vector<int> ncell;
    std::vector<std::int64_t> ids_loop;
    std::vector<INT> gcs, gls;
    std::vector<std::int64_t> ids_get;
    bool have_get = false;
    for (int o : order) {
      if (o == 0) {
        if (c.lrng.chance(0.5))
          nl = n.sg->get_npart_local();
        for (int cx = 0; cx < nc; cx++)
          ncell.push_back(n.sg->get_npart_cell(cx));
        nl = n.sg->get_npart_local();
      } else if (o == 1) {
        n.obs = layers_of(n);
      } else if (o == 2) {
        if (c.lrng.chance(0.4))
          attach(n);
        n.la->fill(0);
        n.loop->execute();
        auto r = n.la->get();
        for (int i = 0; i < MAXID; i++)
          for (int k = 0; k < r[i]; k++)
            ids_loop.push_back(i);
      } else if (c.lrng.chance(0.3)) {
        for (int cx = 0; cx < nc; cx++) {
          const int m = n.sg->get_npart_cell(cx);
          for (int l = 0; l < m; l++) {
            gcs.push_back(cx);
            gls.push_back(l);
          }
        }
        auto ps = n.sg->get_particles(gcs, gls);
        VH_CHECK(ps->npart == (int)gcs.size(), key + "/get-count", n.kind << ": " << ps->npart << " vs " << gcs.size());
        for (int i = 0; i < (int)ps->npart; i++)
          ids_get.push_back(ps->at(Sym<INT>("ID"), i, 0));
        have_get = true;
      }
    }
    std::vector<std::int64_t> ids;
    std::vector<int> occ(nc, 0);
    bool ok = true;
    for (auto &x : n.obs) {
      ok &= VH_CHECK(in_range(x), key + "/range",
                     n.kind << ": member at cell " << x.first << " layer " << x.second << " does not exist");
      if (in_range(x)) {
        ids.push_back(st[x.first][x.second].id);
        occ[x.first]++;
      }
    }
    VH_CHECK(nl == (std::int64_t)n.obs.size(), key + "/npart-local", n.kind << ": get_npart_local " << nl << ", members " << n.obs.size());
    for (int cx = 0; cx < nc; cx++)
      VH_CHECK(ncell[cx] == occ[cx], key + "/npart-cell", n.kind << ": cell " << cx << " get_npart_cell " << ncell[cx] << ", members " << occ[cx]);
    compare_ids(ids_loop, ids, key + "/loop", n.kind + ": particles visited by a loop over the sub group");
    if (have_get) {
      // same order as the members
      VH_CHECK(ids_get == ids, key + "/get", n.kind << ": get_particles returned other particles than the members");
    }
    count("members_observed", ids.size());
  }
  void observe(bool all) {
    for (auto &n : nodes)
      n.seen = false;
    std::vector<int> order;
    for (int i = 0; i < (int)nodes.size(); i++)
      if (usable(nodes[i]) && (all || c.lrng.chance(0.5)))
        order.push_back(i);
    c.lrng.shuffle(order);
    for (int i : order)
      observe_one(nodes[i]);
    // parents of observed nodes come last, nothing changed in between
    for (int i = (int)nodes.size() - 1; i >= 0; i--)
      if (nodes[i].seen && !nodes[i].is_static)
        for (int p : nodes[i].parents)
          if (p >= 0 && !nodes[p].seen)
            observe_one(nodes[p]);
    for (auto &n : nodes)
      if (n.seen) {
        std::vector<std::pair<int, int>> want;
        if (n.is_static)
          want = n.snapshot;
        else {
          std::vector<std::vector<std::pair<int, int>>> par;
          for (int p : n.parents)
            par.push_back(p < 0 ? members(-1) : nodes[p].obs);
          want = apply(n, par);
        }
        auto got = n.obs;
        const bool ordered = (n.kind == "truncate" || n.kind == "discard" || n.kind == "cells" || n.kind == "copy" || n.kind == "scan" || n.kind == "whole") && !n.is_static;
        if (!ordered) {
          std::sort(want.begin(), want.end());
          std::sort(got.begin(), got.end());
        }
        std::vector<std::int64_t> wi, gi;
        for (auto &x : want)
          if (in_range(x))
            wi.push_back(st[x.first][x.second].id);
        for (auto &x : got)
          if (in_range(x))
            gi.push_back(st[x.first][x.second].id);
        VH_CHECK(want == got, node_key(n) + (n.is_static ? "/static-content" : "/content"),
                 n.kind << (n.is_static ? " (static)" : "") << " pred " << n.pred.kind << " a " << n.a << " b " << n.b
                        << ": holds " << str(gi, 24) << " expected " << str(wi, 24));
        count("sub_group_observations");
        if (want.size())
          c.nontrivial = true;
      }
  }
  void check_invalid() {
    for (auto &n : nodes)
      if (!n.dead && n.is_static && n.group_changed)
        VH_CHECK(!n.sg->is_valid(), key + "/static-valid",
                 n.kind << ": static sub group still claims to be valid after particles were added, removed or moved between cells");
  }
  void mutate() {
    clock++;
    // queries that only look at ephemeral state must not use up the change
    auto peek = [&]() {
      if (!c.lrng.chance(0.35))
        return;
      for (auto &n : nodes)
        if (usable(n) && !n.sg->is_entire_particle_group() && c.lrng.chance(0.6))
          VH_CHECK(!n.sg->contains_ephemeral_dat(Sym<REAL>("NONE")), key + "/ephemeral", "unknown ephemeral property found");
    };
    switch (c.lrng.range(0, 9)) {
    case 0:
    case 1: { // write a selecting property, through the group or a sub group
      const int which = c.lrng.range(0, 2);
      const auto salt = c.lrng.u64();
      const int p = pick_parent();
      with_parent(p, [&](auto g) {
        if (which == 0)
          particle_loop(
              g, [=](auto ID, auto K) { K.at(c_comp(salt)) = (INT)(hash64(salt, ID.at(0)) % 23) - 5; },
              Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("K")))
              ->execute();
        else if (which == 1)
          particle_loop(
              g, [=](auto ID, auto V) { V.at(c_comp(salt)) = (REAL)(hash64(salt, ID.at(0)) % 2001) * 1e-3 - 1.0; },
              Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("V")))
              ->execute();
        else
          particle_loop(
              g, [=](auto ID, auto P) { P.at(0) = (INT)(hash64(salt, ID.at(0)) % 6) - 1; },
              Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("PART")))
              ->execute();
        return 0;
      });
      for (auto &n : nodes)
        n.touched = true;
      c.desc << " w" << which << (p < 0 ? "g" : "s");
      read();
      break;
    }
    case 2:
    case 3:
      c.desc << " +" << add();
      break;
    case 4: { // remove some
      std::vector<INT> cs, ls;
      for (auto &cx : st)
        for (auto &x : cx)
          if (c.lrng.chance(0.2)) {
            cs.push_back(x.cell);
            ls.push_back(x.layer);
          }
      w.A->remove_particles((int)cs.size(), cs, ls);
      c.desc << " -" << cs.size();
      if (cs.size())
        changed();
      else
        maybe_changed();
      read();
      break;
    }
    case 5: { // remove the members of a sub group
      const int p = pick_parent();
      if (p < 0 || nodes[p].locked)
        break;
      if (nodes[p].kind == "whole" || nodes[p].kind == "discard")
        break; // would empty the system too often
      const auto n0 = npart();
      auto m = layers_of(nodes[p]);
      w.A->remove_particles(nodes[p].sg);
      read();
      if (npart() != n0)
        changed();
      else
        maybe_changed();
      VH_CHECK(n0 - npart() == (std::int64_t)m.size(), node_key(nodes[p]) + "/remove-count", nodes[p].kind << ": removing a sub group of " << m.size() << " particles removed " << n0 - npart());
      c.desc << " -sub" << m.size();
      break;
    }
    case 6: { // move between cells
      const auto salt = c.lrng.u64();
      const int nc_ = nc;
      bool any = false;
      for (auto &cx : st)
        for (auto &x : cx)
          if (hash64(salt, x.id) % 3 == 0 && (int)(hash64(salt, x.id, 3) % nc_) != x.cell)
            any = true;
      particle_loop(
          w.A,
          [=](auto ID, auto C) {
            if (hash64(salt, ID.at(0)) % 3 == 0)
              C.at(0) = hash64(salt, ID.at(0), 3) % nc_;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
          ->execute();
      w.A->cell_move();
      if (any)
        changed();
      read();
      if (!any)
        maybe_changed();
      c.desc << " cmove";
      break;
    }
    case 7: { // static status
      const int p = pick_parent();
      if (p < 0 || nodes[p].locked || nodes[p].children || nodes[p].kind == "whole" || nodes[p].kind == "copy")
        break;
      auto &n = nodes[p];
      if (!n.is_static) {
        n.snapshot = expect_now(n);
        n.sg->static_status(true);
        n.is_static = true;
        n.static_at = clock;
        n.group_changed = false;
        n.touched = false;
        VH_CHECK(n.sg->static_status(), key + "/status", "static_status(true) had no effect");
      } else {
        n.sg->static_status(false);
        n.is_static = false;
        VH_CHECK(!n.sg->static_status(), key + "/status", "static_status(false) had no effect");
      }
      c.desc << " static" << n.is_static;
      break;
    }
    case 8: { // drop a sub group
      std::vector<int> ok;
      for (int i = 0; i < (int)nodes.size(); i++)
        if (!nodes[i].dead && !nodes[i].children)
          ok.push_back(i);
      if (ok.empty() || c.lrng.chance(0.5))
        break;
      const int i = c.lrng.pick(ok);
      nodes[i].loop.reset();
      nodes[i].sg.reset();
      nodes[i].dead = true;
      nodes[i].dead_at = clock;
      for (int p : nodes[i].parents)
        if (p >= 0)
          nodes[p].children--;
      c.desc << " drop";
      break;
    }
    default:
      create();
    }
    peek();
    count("mutations");
  }
  static constexpr int c_comp(std::uint64_t salt) { return (int)((salt >> 7) & 1); }
  void free() {
    for (auto &n : nodes) {
      n.loop.reset();
      n.la.reset();
    }
    for (int i = (int)nodes.size() - 1; i >= 0; i--)
      nodes[i].sg.reset();
    nodes.clear();
    w.free();
  }
};

void select_(Case &c) {
  Sys s(c);
  s.key = "select";
  s.add();
  s.add();
  const int n = c.lrng.range(2, 7);
  for (int i = 0; i < n; i++)
    s.create();
  s.observe(true);
  c.desc << " npart " << s.npart();
  any_violation();
  s.free();
}

void fresh(Case &c) {
  Sys s(c);
  s.key = "fresh";
  s.add();
  for (int i = 0; i < 3; i++)
    s.create();
  if (c.lrng.chance(0.5))
    s.observe(true);
  const int n = c.lrng.range(3, thorough() ? 30 : 12);
  for (int i = 0; i < n && !violations(); i++) {
    s.mutate();
    if (c.lrng.chance(0.2))
      s.mutate();
    s.check_invalid();
    s.observe(c.lrng.chance(0.3));
  }
  s.observe(true);
  any_violation();
  s.free();
}

// ---------------------------------------------------------------- ephemeral
void ephem(Case &c) {
  Sys s(c);
  s.key = "ephem";
  s.add();
  s.add();
  for (int i = 0; i < 4; i++)
    s.create();
  std::vector<int> cand;
  for (int i = 0; i < (int)s.nodes.size(); i++)
    if (!s.nodes[i].sg->is_entire_particle_group())
      cand.push_back(i);
  c.lrng.shuffle(cand);
  if (cand.size() > 2)
    cand.resize(2);
  struct E {
    bool exists = false;
    int ncomp = 0;
    std::map<std::int64_t, std::vector<double>> val; // by particle
  };
  // name -> state, per sub group
  std::map<int, std::map<std::string, E>> model;
  const int which = c.lrng.range(0, 3);
  std::vector<std::string> names{"E0", "E1", "F0", "F1"}; // E real, F int
  if (which == 1)
    names = {"E0", "E1"};
  else if (which == 2)
    names = {"F0"};
  const double p_change = c.lrng.pick(std::vector<double>{0.2, 0.5});
  auto present = [&](int i, const std::string &nm) {
    auto &sg = s.nodes[i].sg;
    return nm[0] == 'E' ? sg->contains_ephemeral_dat(Sym<REAL>(nm)) : sg->contains_ephemeral_dat(Sym<INT>(nm));
  };
  const int steps = c.lrng.range(8, 24);
  for (int st = 0; st < steps && !violations() && cand.size(); st++) {
    const int i = c.lrng.pick(cand);
    if (!s.usable(s.nodes[i]))
      continue;
    auto &sg = s.nodes[i].sg;
    auto &md = model[i];
    const std::string nm = c.lrng.pick(names);
    auto &e = md[nm];
    switch (c.lrng.chance(p_change) ? c.lrng.range(2, 5) : (e.exists ? 3 : 0)) {
    case 0:
    case 1: { // add
      // make sure the model agrees about the present state
      if (!e.exists) {
        e.ncomp = c.lrng.range(1, 4);
        e.val.clear();
      }
      if (nm[0] == 'E')
        sg->add_ephemeral_dat(Sym<REAL>(nm), e.ncomp);
      else
        sg->add_ephemeral_dat(Sym<INT>(nm), e.ncomp);
      e.exists = true;
      VH_CHECK(present(i, nm), "ephem/add", nm << " is not present after it was added to " << s.nodes[i].kind);
      c.desc << " add" << nm;
      break;
    }
    case 2: // remove
      if (e.exists) {
        if (nm[0] == 'E')
          sg->remove_ephemeral_dat(Sym<REAL>(nm));
        else
          sg->remove_ephemeral_dat(Sym<INT>(nm));
        e.exists = false;
        VH_CHECK(!present(i, nm), "ephem/remove", nm << " is present after it was removed");
        c.desc << " rm" << nm;
      }
      break;
    case 3: { // write, singly or through a symbol vector
      if (!e.exists)
        break;
      const auto salt = c.lrng.u64();
      const int nco = e.ncomp;
      if (nm[0] == 'E') {
        if (c.lrng.chance(0.5)) {
          particle_loop(
              sg,
              [=](auto ID, auto D) {
                for (int k = 0; k < nco; k++)
                  D.at_ephemeral(k) = (REAL)(hash64(salt, ID.at(0), k) % 100000);
              },
              Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>(nm)))
              ->execute();
        } else {
          auto sv = sym_vector<REAL>(sg, std::vector<Sym<REAL>>{Sym<REAL>("P"), Sym<REAL>(nm)});
          particle_loop(
              sg,
              [=](auto ID, auto D) {
                for (int k = 0; k < nco; k++)
                  D.at_ephemeral(1, k) = (REAL)(hash64(salt, ID.at(0), k) % 100000);
              },
              Access::read(Sym<INT>("ID")), Access::write(sv))
              ->execute();
        }
      } else {
        if (c.lrng.chance(0.5)) {
          particle_loop(
              sg,
              [=](auto ID, auto D) {
                for (int k = 0; k < nco; k++)
                  D.at_ephemeral(k) = (INT)(hash64(salt, ID.at(0), k) % 100000);
              },
              Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(nm)))
              ->execute();
        } else {
          auto sv = sym_vector<INT>(sg, std::vector<Sym<INT>>{Sym<INT>(nm), Sym<INT>("U")});
          particle_loop(
              sg,
              [=](auto ID, auto D) {
                for (int k = 0; k < nco; k++)
                  D.at_ephemeral(0, k) = (INT)(hash64(salt, ID.at(0), k) % 100000);
              },
              Access::read(Sym<INT>("ID")), Access::write(sv))
              ->execute();
        }
      }
      e.val.clear();
      for (auto &x : s.layers_of(s.nodes[i])) {
        const auto id = s.st[x.first][x.second].id;
        std::vector<double> v;
        for (int k = 0; k < nco; k++)
          v.push_back((double)(hash64(salt, id, k) % 100000));
        e.val[id] = v;
      }
      count("ephemeral_writes", e.val.size());
      c.desc << " wr" << nm;
      break;
    }
    case 4: { // a change that must invalidate
      if (c.lrng.chance(0.5)) {
        const bool some = s.add() > 0;
        for (auto &m : model)
          for (auto &x : m.second)
            x.second.exists = some ? false : s.usable(s.nodes[m.first]) && present(m.first, x.first);
        c.desc << " grow";
      } else {
        particle_loop(
            s.w.A, [=](auto K) { K.at(0) += 1; }, Access::write(Sym<INT>("K")))
            ->execute();
        s.read();
        for (auto &m : model) {
          auto &n = s.nodes[m.first];
          const bool dep = s.depends_k(m.first);
          // without particles nothing is written
          const bool none = s.w.A->get_npart_local() == 0;
          if (!n.is_static && dep)
            for (auto &x : m.second)
              x.second.exists = none && s.usable(n) && present(m.first, x.first);
        }
        c.desc << " touchK";
      }
      break;
    }
    case 5: { // a write to an unrelated property must not
      particle_loop(
          s.w.A, [=](auto P) { P.at(0) += 1.0; }, Access::write(Sym<REAL>("P")))
          ->execute();
      c.desc << " touchP";
      break;
    }
    default:
      break;
    }
    // observe every ephemeral dat of every usable sub group
    for (auto &m : model) {
      auto &n = s.nodes[m.first];
      if (!s.usable(n))
        continue;
      for (auto &x : m.second) {
        const bool pr = present(m.first, x.first);
        if (!VH_CHECK(pr == x.second.exists, pr ? "ephem/stale" : "ephem/lost",
                      x.first << " on " << n.kind << (pr ? " survived a change of the sub group" : " vanished without a change of the sub group")))
          continue;
        if (!x.second.exists || x.second.val.empty())
          continue;
        // read back through a loop
        auto la = std::make_shared<LocalArray<REAL>>(s.w.target, MAXID * 4, -1.0);
        const int nco = x.second.ncomp;
        auto k = [=](auto ID, auto D, auto LA) {
          for (int q = 0; q < nco; q++)
            LA.at(ID.at(0) * 4 + q) = (REAL)D.at_ephemeral(q);
        };
        auto kv = [=](auto ID, auto D, auto LA) {
          for (int q = 0; q < nco; q++)
            LA.at(ID.at(0) * 4 + q) = (REAL)D.at_ephemeral(0, q);
        };
        if (c.lrng.chance(0.4)) {
          if (x.first[0] == 'E')
            particle_loop(n.sg, kv, Access::read(Sym<INT>("ID")), Access::read(sym_vector<REAL>(n.sg, std::vector<Sym<REAL>>{Sym<REAL>(x.first)})), Access::write(la))->execute();
          else
            particle_loop(n.sg, kv, Access::read(Sym<INT>("ID")), Access::read(sym_vector<INT>(n.sg, std::vector<Sym<INT>>{Sym<INT>(x.first)})), Access::write(la))->execute();
        } else if (x.first[0] == 'E')
          particle_loop(n.sg, k, Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>(x.first)), Access::write(la))->execute();
        else
          particle_loop(n.sg, k, Access::read(Sym<INT>("ID")), Access::read(Sym<INT>(x.first)), Access::write(la))->execute();
        auto got = la->get();
        for (auto &y : x.second.val)
          for (int q = 0; q < nco; q++)
            VH_CHECK(got[y.first * 4 + q] == y.second[q], "ephem/value",
                     x.first << "[" << q << "] of particle " << y.first << " on " << n.kind << " holds " << got[y.first * 4 + q] << " expected " << y.second[q]);
        // and on the host
        auto host = [&](auto dat) {
          std::map<int, int> row;
          for (auto &z : s.layers_of(n)) {
            auto cell = dat->cell_dat.get_cell(z.first);
            const int rw = row[z.first]++;
            const auto id = s.st[z.first][z.second].id;
            if (!VH_CHECK(rw < cell->nrow, "ephem/rows", x.first << " has " << cell->nrow << " rows in cell " << z.first))
              continue;
            for (int q = 0; q < nco; q++)
              VH_CHECK((double)cell->at(rw, q) == x.second.val[id][q], "ephem/host", x.first << " of particle " << id << " host copy differs");
          }
        };
        if (c.lrng.chance(0.3)) {
          if (x.first[0] == 'E')
            host(n.sg->get_ephemeral_dat(Sym<REAL>(x.first)));
          else
            host(n.sg->get_ephemeral_dat(Sym<INT>(x.first)));
        }
        count("ephemeral_reads", x.second.val.size());
        c.nontrivial = true;
      }
    }
  }
  any_violation();
  s.free();
}
} // namespace

int main(int argc, char **argv) {
  return vh::main(argc, argv, {{"select", select_, 2}, {"fresh", fresh, 2}, {"ephem", ephem, 1}});
}
