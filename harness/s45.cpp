// Conformance driver for the 45-degree polygon-set machine (spec/Set45.tla).
// usage: s45 <mode> <seed> <ntraces> <outfile>
//   bool   booleans and accumulation on representable corners     (C10)
//   snap   single booleans whose corners fall between grid points  (C10)
//   form   polygon and trapezoid extraction                        (C11)
//   query  equality, emptiness, extents, area                      (C12)
//   rel    connectivity, interaction, property merge               (C13)
//   metric resizing, transforming, scaling, filtering              (C12)
#include "tri.hpp"
using namespace boost::polygon::operators;
typedef int T;
typedef bp::polygon_45_set_data<T> Set;
typedef bp::polygon_45_data<T> Poly;
typedef bp::polygon_45_with_holes_data<T> Pwh;
typedef bp::rectangle_data<T> Rect;
typedef bp::polygon_90_data<T> Poly90;
typedef bp::polygon_90_with_holes_data<T> Pwh90;
typedef bp::polygon_90_set_data<T> Set90;

static std::string regj(int r) { return "{\"t\":\"S\",\"r\":" + S(r + 1) + "}"; }
struct Operand {
  int kind; Set set; Poly poly; Pwh pwh; std::vector<Poly> vp; std::list<Pwh> lh; Rect rect; std::vector<Rect> vr; Poly90 p90;
  std::string json;
};
struct Session {
  static const int K = 3;
  Rng& g; int n; bool half; Emb45 e; TriGen tg; Set reg[K];
  Session(Rng& g_, int n_, bool half_) : g(g_), n(n_), half(half_), e(Emb45::make(g_, n_, half_)), tg(g_, n_, !half_) {}
  std::string header() { return kv("n", n) + "," + kv("K", K) + "," + kv("grid", half ? 0 : 1); }

  std::string observe(const Set& s0, int route = -1) {
    Set s(s0); if (route < 0) route = g.chance(50) ? 1 : g.below(8);
    switch (route) {
      case 0: { std::vector<Poly> v; s.get(v); return obs_polys(v, e); }
      case 1: { std::list<Pwh> v; s.get(v); return obs_pwhs(v, e); }
      case 2: { std::vector<Poly> v; s.get_polygons(v); return obs_polys(v, e); }
      case 3: { std::vector<Pwh> v; s.get_polygons_with_holes(v); return obs_pwhs(v, e); }
      case 4: { std::vector<Pwh> v; bp::assign(v, s); return obs_pwhs(v, e); }
      case 5: { std::list<Poly> v; bp::assign(v, s); return obs_polys(v, e); }
      case 6: { std::vector<bp::polygon_data<T> > v; s.get(v); return obs_polys(v, e); }
      default: { std::vector<bp::polygon_with_holes_data<T> > v; s.get(v); return obs_pwhs(v, e); }
    }
  }
  void ins(Set& s, const TShape& sh, bool hole = false) {
    if (sh.rect && g.chance(70)) s.insert(to_rect<T>(sh, e), hole);
    else if (sh.manh && sh.t == 'P' && g.chance(50)) s.insert(to_poly<Poly90, T>(sh.out, e), hole);
    else if (sh.manh && sh.t == 'H' && g.chance(50)) s.insert(to_pwh<Pwh90, Poly90, T>(sh, e), hole);
    else if (sh.manh && g.chance(40)) { Set90 t(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); if (sh.t == 'P') t.insert(to_poly<Poly90, T>(sh.out, e)); else t.insert(to_pwh<Pwh90, Poly90, T>(sh, e)); s.insert(t, hole); }
    else if (sh.t == 'P') { Poly p = to_poly<Poly, T>(sh.out, e);
      if (g.chance(15)) { auto v = to_pts<T>(sh.out, e); s.insert_vertex_sequence(v.begin(), v.end(), bp::winding(p), hole); } else s.insert(p, hole); }
    else s.insert(to_pwh<Pwh, Poly, T>(sh, e), hole);
  }
  TShape poly() { return tg.shape(false); }
  template <class F> void visit45(const Operand& o, F f) { switch (o.kind) { case 0: f(o.set); break; case 1: f(o.pwh); break; default: f(o.vp); } }
  template <class F> void visit(const Operand& o, F f) { switch (o.kind) { case 0: f(o.set); break; case 1: f(o.pwh); break; case 2: f(o.vp); break; case 3: f(o.lh); break; case 4: f(o.rect); break; case 5: f(o.vr); break; case 6: f(o.p90); break; default: f(o.poly); } }
  Operand operand(int nk, bool allow_reg = true) {
    Operand o; o.kind = allow_reg && g.chance(45) ? 0 : g.below(nk); if (o.kind == 0 && !allow_reg) o.kind = 1;
    switch (o.kind) {
      case 0: { int j = g.below(K); o.set = reg[j]; o.json = regj(j); break; }
      case 1: { TShape s = tg.shape(true); o.pwh = to_pwh<Pwh, Poly, T>(s, e); o.json = shape_json(s); break; }
      case 2: { TShapes v; for (int k = g.range(0, 3); k > 0; --k) { v.push_back(poly()); o.vp.push_back(to_poly<Poly, T>(v.back().out, e)); } o.json = shapes_json(v); break; }
      case 3: { TShapes v; for (int k = g.range(0, 2); k > 0; --k) { v.push_back(tg.shape(true)); o.lh.push_back(to_pwh<Pwh, Poly, T>(v.back(), e)); } o.json = shapes_json(v); break; }
      case 4: { TShape s = tg.rect(); o.rect = to_rect<T>(s, e); o.json = shape_json(s); break; }
      case 5: { TShapes v; for (int k = g.range(0, 3); k > 0; --k) { v.push_back(tg.rect()); o.vr.push_back(to_rect<T>(v.back(), e)); } o.json = shapes_json(v); break; }
      case 6: { TShape s = tg.rect(); o.p90 = to_poly<Poly90, T>(s.out, e); o.json = shape_json(s); break; }
      default: { TShape s = poly(); o.poly = to_poly<Poly, T>(s.out, e); o.json = shape_json(s); break; }
    }
    return o;
  }
  template <class A, class B, class F> static void apply(int op, const A& a, const B& b, F f) {
    switch (op) { case 0: f(a | b); break; case 1: f(a & b); break; case 2: f(a ^ b); break; case 3: f(a - b); break; case 4: f(a + b); break; default: f(a * b); }
  }
  static int abs_op(int op) { return op == 4 ? 0 : op == 5 ? 1 : op; }
  void fill(int r, int lo, int hi) {
    TShapes v; for (int k = g.range(lo, hi); k > 0; --k) v.push_back(tg.any());
    guarded("insert", [&] { reg[r].clear(); for (auto& s : v) ins(reg[r], s); });
    tr::ev(ks("a", "Set") + "," + kv("r", r + 1) + "," + kv("x", shapes_json(v)) + "," + kv("o", observe(reg[r])));
  }
  void insert(int r, bool hole) {
    TShape s = tg.any(); guarded("insert", [&] { ins(reg[r], s, hole); });
    tr::ev(ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("h", hole ? 1 : 0) + "," + kv("s", shape_json(s)) + "," + kv("o", observe(reg[r])));
  }
  void insert_set(int r) {
    int j = (r + 1 + g.below(K - 1)) % K; bool hole = g.chance(30); guarded("insert set", [&] { if (!hole && g.chance(30)) reg[r] += reg[j]; else if (!hole && g.chance(30)) reg[r] |= reg[j]; else reg[r].insert(reg[j], hole); });
    tr::ev(ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("h", hole ? 1 : 0) + "," + kv("s", regj(j)) + "," + kv("o", observe(reg[r])));
  }
  void bin(int r, bool keep = true) {
    bool swp = g.chance(50); Operand A = operand(3), B = operand(8); int op = g.below(6), how = g.below(3); Set res;
    guarded("boolean", [&] {
      visit45(A, [&](auto& a) { visit(B, [&](auto& b) {
        auto fin = [&](const auto& v) { if (how == 0) res = v; else if (how == 1) { Set t(v); res = t; } else bp::assign(res, v); };
        if (swp) apply(op, b, a, fin); else apply(op, a, b, fin); }); });
      // a union accumulates counts (as operator|= does); make the value a plain region before it is used again
      if (keep && abs_op(op) == 0) res.clean();
      reg[r] = res;
    });
    tr::ev(ks("a", "Bin") + "," + kv("r", r + 1) + "," + kv("op", abs_op(op)) + "," + kv("x", swp ? B.json : A.json) + "," + kv("y", swp ? A.json : B.json) + "," + kv("o", observe(reg[r])));
  }
  void nested(int r) {
    int i = g.below(K), j = g.below(K), k = g.below(K), op1 = g.below(4), op2 = g.below(4), op3 = g.below(4), shape = g.below(3);
    auto ej = [](int op, const std::string& x, const std::string& y) { return "{\"t\":\"E\",\"op\":" + S(op) + ",\"x\":" + x + ",\"y\":" + y + "}"; };
    std::string ex; Set res;
    guarded("nested boolean", [&] {
      if (shape == 0) { ex = ej(op2, ej(op1, regj(i), regj(j)), regj(k)); apply(op1, reg[i], reg[j], [&](const auto& v) { apply(op2, v, reg[k], [&](const auto& w) { res = w; }); }); }
      else if (shape == 1) { ex = ej(op2, regj(k), ej(op1, regj(i), regj(j))); apply(op1, reg[i], reg[j], [&](const auto& v) { apply(op2, reg[k], v, [&](const auto& w) { res = w; }); }); }
      else { ex = ej(op2, ej(op1, regj(i), regj(j)), ej(op3, regj(j), regj(k))); apply(op1, reg[i], reg[j], [&](const auto& v) { apply(op3, reg[j], reg[k], [&](const auto& u) { apply(op2, v, u, [&](const auto& w) { res = w; }); }); }); }
      res.clean(); reg[r] = res;
    });
    tr::ev(ks("a", "Asg") + "," + kv("r", r + 1) + "," + kv("x", ex) + "," + kv("o", observe(reg[r])));
  }
  void selfassign(int r) {
    Operand B = operand(4); int op = 1 + g.below(3), q = op; if (op == 1 && g.chance(30)) q = 5;
    guarded("self assignment", [&] { visit(B, [&](auto& b) { switch (q) { case 1: reg[r] &= b; break; case 2: reg[r] ^= b; break; case 3: reg[r] -= b; break; default: reg[r] *= b; } }); });
    tr::ev(ks("a", "BinA") + "," + kv("r", r + 1) + "," + kv("op", op) + "," + kv("y", B.json) + "," + kv("o", observe(reg[r])));
  }
  void container(int r) {
    Operand B = operand(8); int op = g.below(6); std::string o1;
    auto go = [&](auto& c, auto ob) {
      bp::assign(c, reg[r]);
      visit(B, [&](auto& b) { switch (op) { case 0: c |= b; break; case 1: c &= b; break; case 2: c ^= b; break; case 3: c -= b; break; case 4: c += b; break; default: c *= b; } });
      o1 = ob(c); reg[r].clear(); for (auto& x : c) reg[r].insert(x); };
    guarded("container self assignment", [&] {
      if (g.chance(50)) { std::vector<Pwh> c; go(c, [&](auto& c) { return obs_pwhs(c, e); }); }
      else { std::list<Poly> c; go(c, [&](auto& c) { return obs_polys(c, e); }); }
    });
    tr::ev(ks("a", "BinA") + "," + kv("r", r + 1) + "," + kv("op", abs_op(op)) + "," + kv("y", B.json) + "," + kv("o", o1));
  }
  void copy(int r) {
    int j = g.below(K);
    guarded("copy", [&] { switch (g.below(5)) { case 0: reg[r] = reg[j]; break; case 1: { Set t(reg[j]); reg[r] = t; break; } case 2: { Set t(reg[j]); reg[r].set(t.begin(), t.end()); break; } case 3: { Set t(reg[j]); reg[r].set(t.value()); break; } default: { Set t(reg[j]); bp::assign(reg[r], t); } } });
    tr::ev(ks("a", "Copy") + "," + kv("r", r + 1) + "," + kv("s", j + 1) + "," + kv("o", observe(reg[r])));
  }
  void clean(int r) {
    guarded("clean", [&] { switch (g.below(3)) { case 0: reg[r].clean(); break; case 1: reg[r].size(); break; default: { std::vector<Poly> v; reg[r].get(v); } } });
    tr::ev(ks("a", "Clean") + "," + kv("r", r + 1) + "," + kv("o", observe(reg[r])));
  }
  void selfop(int r) { // on an unscanned set without holes
    TShapes v; for (int k = g.range(1, 5); k > 0; --k) v.push_back(tg.any());
    guarded("insert", [&] { reg[r].clear(); for (auto& s : v) ins(reg[r], s); });
    tr::ev(ks("a", "Set") + "," + kv("r", r + 1) + "," + kv("x", shapes_json(v)) + "," + kv("o", observe(reg[r])));
    bool x = g.chance(50), fr = g.chance(30);
    guarded("self_op", [&] { if (fr) { if (x) bp::self_xor(reg[r]); else bp::self_intersect(reg[r]); } else { if (x) reg[r].self_xor(); else reg[r].self_intersect(); } });
    tr::ev(ks("a", x ? "SelfXor" : "SelfInt") + "," + kv("r", r + 1) + "," + kv("o", observe(reg[r])));
    if (half) fill(r, 0, 1);
  }
  // ---- queries
  void form(int r) {
    Set a(reg[r]); std::string o; int how = g.below(6);
    guarded("get", [&] {
      if (how == 0) { std::vector<Poly> v; a.get(v); o = obs_polys(v, e); }
      else if (how <= 2) { std::vector<Pwh> v; a.get(v); o = obs_pwhs(v, e); }
      else if (how == 3) { std::list<bp::polygon_with_holes_data<T> > v; a.get(v); o = obs_pwhs(v, e); }
      else if (how == 4) { std::list<bp::polygon_data<T> > v; a.get(v); o = obs_polys(v, e); }
      else { std::vector<Pwh> v; bp::assign(v, a); o = obs_pwhs(v, e); }
    });
    tr::ev(ks("a", "Form") + "," + kv("x", regj(r)) + "," + kv("o", o));
  }
  void traps(int r) {
    Set a(reg[r]); std::string o; int how = g.below(6), ori = 1;
    guarded("get_trapezoids", [&] {
      if (how == 0) { std::vector<Poly> v; a.get_trapezoids(v); o = obs_polys(v, e); }
      else if (how <= 2) { std::vector<Poly> v; ori = g.below(2); a.get_trapezoids(v, ori ? bp::VERTICAL : bp::HORIZONTAL); o = obs_polys(v, e); }
      else if (how == 3) { std::list<bp::polygon_data<T> > v; bp::get_trapezoids(v, a); o = obs_polys(v, e); }
      else if (how == 4) { std::vector<Poly> v; ori = g.below(2); bp::get_trapezoids(v, a, ori ? bp::VERTICAL : bp::HORIZONTAL); o = obs_polys(v, e); }
      else { std::vector<Pwh> c; a.get(c); std::vector<Poly> v; bp::get_trapezoids(v, c); o = obs_polys(v, e); }
    });
    tr::ev(ks("a", "Traps") + "," + kv("x", regj(r)) + "," + kv("ori", ori) + "," + kv("o", o));
  }
  void query(int r) {
    int how = g.below(8);
    if (how <= 1) {
      int j = g.below(K); Set a(reg[r]), b(reg[j]); bool eq = false, ne = false; bool fr = g.chance(30);
      guarded("operator==", [&] { if (fr) { eq = bp::equivalence(a, b); ne = !eq; } else { eq = a == b; ne = a != b; } });
      tr::ev(ks("a", "Eq") + "," + kv("x", regj(r)) + "," + kv("y", regj(j)) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", ne ? 1 : 0));
    } else if (how == 2) {
      Operand A = operand(3), B = operand(8); bool eq = false;
      guarded("equivalence", [&] { visit45(A, [&](auto& a) { visit(B, [&](auto& b) { eq = bp::equivalence(a, b); }); }); });
      tr::ev(ks("a", "Eq") + "," + kv("x", A.json) + "," + kv("y", B.json) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", eq ? 0 : 1));
    } else if (how == 3) {
      Set a(reg[r]), o(reg[(r + 1) % K]), b; bool eq = false; int way = g.below(5);
      guarded("rebuild", [&] {
        if (way == 0) { std::vector<Poly> v; a.get(v); std::reverse(v.begin(), v.end()); b.insert(v.begin(), v.end()); }
        else if (way == 1) { std::vector<Poly> v; a.get_trapezoids(v, g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); b.insert(v.begin(), v.end()); b.insert(v.begin(), v.end()); }
        else if (way == 2) { std::vector<Pwh> v; a.get(v); b.insert(v.begin(), v.end()); }
        else if (way == 3) { Set t; a.clean(); o.clean(); t = a | o; t.clean(); b = t - (o - a); }
        else { b = (a & o) | (a - o); }
        eq = a == b; });
      tr::ev(ks("a", "Eq") + "," + kv("way", way) + "," + kv("x", regj(r)) + "," + kv("y", regj(r)) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", eq ? 0 : 1));
    } else if (how == 4) {
      bool em = false; Set a(reg[r]); guarded("empty", [&] { em = g.chance(50) ? bp::empty(a) : a.empty(); });
      tr::ev(ks("a", "Empty") + "," + kv("x", regj(r)) + "," + kv("res", em ? 1 : 0));
    } else if (how == 5) {
      Set a(reg[r]); Rect q(0, 0, 0, 0); bool res = false;
      guarded("extents", [&] { res = g.chance(50) ? a.extents(q) : bp::extents(q, a); });
      std::vector<int> v = {e.rx(bp::xl(q)), e.ry(bp::yl(q)), e.rx(bp::xh(q)), e.ry(bp::yh(q))};
      tr::ev(ks("a", "Ext") + "," + kv("x", regj(r)) + "," + kv("res", res ? 1 : 0) + "," + kv("v", arr(v)));
    } else {
      Set a(reg[r]); long long ar = -1; long double w = 0;
      guarded("area", [&] { if (g.chance(70)) w = bp::area(a); else { std::vector<Pwh> v; a.get(v); for (auto& p : v) w += bp::area(p); } });
      // area in quarters of a grid square (doubled coordinates: one per unit)
      w = half ? w * 4 : w / ((long double)e.m * e.m); ar = w >= 0 && w < 1e6L && w == (long long)w ? (long long)w : -1;
      tr::ev(ks("a", "Area") + "," + kv("x", regj(r)) + "," + kv("res", ar));
    }
  }
  void interact(int r) {
    int how = g.below(3), j = (r + 1) % K; std::string y; Set b = reg[j];
    // interaction is per connected region; regions touching at a point only may be treated either way
    { std::vector<Pwh> v; if (!simple(reg[r], v)) return; Set x(reg[r]); x.clean(); if (x.has_error_data()) return; }
    guarded("interact", [&] {
      if (how == 0) { TShapes v; std::vector<Poly> q; for (int k = g.range(0, 2); k > 0; --k) { v.push_back(poly()); q.push_back(to_poly<Poly, T>(v.back().out, e)); } y = shapes_json(v); Set t; t.insert(q.begin(), q.end()); bp::interact(reg[r], t); }
      else { y = regj(j); bp::interact(reg[r], b); }
    });
    tr::ev(ks("a", "Interact") + "," + kv("r", r + 1) + "," + kv("y", y) + "," + kv("o", observe(reg[r])));
  }
  // ---- metric
  // polygons of a register; false if two boundary vertices coincide
  bool simple(const Set& s0, std::vector<Pwh>& v) {
    Set c(s0); guarded("get", [&] { c.get(v); }); std::set<std::pair<int,int> > seen;
    auto pt = [&](auto q) { std::vector<bp::point_data<T> > p(bp::begin_points(q), bp::end_points(q)); if (p.size() > 1 && p.front() == p.back()) p.pop_back();
      for (auto& x : p) if (!seen.insert(std::make_pair(x.x(), x.y())).second) return false; return true; };
    for (auto& p : v) { if (!pt(p)) return false; for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) if (!pt(*h)) return false; }
    return true;
  }
  bool rectilinear(const std::vector<Pwh>& v) {
    auto ok = [](auto q) { std::vector<bp::point_data<T> > p(bp::begin_points(q), bp::end_points(q)); for (size_t i = 0; i < p.size(); ++i) { auto a = p[i], b = p[(i + 1) % p.size()]; if (a.x() != b.x() && a.y() != b.y()) return false; } return true; };
    for (auto& p : v) { if (!ok(p)) return false; for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) if (!ok(*h)) return false; }
    return true;
  }
  int slack(const std::vector<Pwh>& v) { // grid space left around
    int s = 2 * n; for (auto& p : v) for (auto i = bp::begin_points(p); i != bp::end_points(p); ++i) { int x = e.rx(bp::x(*i)), y = e.ry(bp::y(*i)); s = std::min(std::min(s, std::min(x, y)), 2 * n - std::max(x, y)); } return s;
  }
  static int slant(int d, int rnd) { int u = 0; while (2 * (u + 1) * (u + 1) <= d * d) ++u; if (rnd == 0) return 2 * (2 * u + 1) * (2 * u + 1) <= 4 * d * d ? u + 1 : u; return rnd == 1 ? u + 1 : rnd == 2 ? u : d; }
  bool choose(const std::vector<Pwh>& v, int& d, int& rnd, int& cor) {
    bool man = rectilinear(v); int room = slack(v);
    for (int k = 0; k < 12; ++k) {
      d = 2 * g.range(1, g.chance(70) ? 1 : 3); rnd = e.m == 1 || man ? g.below(4) : 3; cor = g.below(3); if (g.chance(30)) cor = 0;
      int u = slant(d, rnd), reach = cor == 0 ? 2 * u + d : cor == 1 ? std::max(2 * u, d) : std::max(u, d);
      if (man) reach = d;
      if (cor == 1 && !man && u % 2) continue;   // edges between grid lines
      if (reach <= room) return true;
    }
    return false;
  }
  void resize(int r) {
    std::vector<Pwh> v; int d, rnd, cor; Set a(reg[r]); if (!simple(a, v) || !choose(v, d, rnd, cor)) return;
    std::string src = obs_pwhs(v, e); int sg = g.chance(50) ? 1 : -1, how = g.below(7);
    if (how == 6) sg = 1;
    T D = (T)(sg * d * e.m);
    if ((rnd != 0 || cor != 0) && how > 2) how = g.below(3);
    guarded("resize", [&] { switch (how) {
      case 0: reg[r].resize(D, (bp::RoundingOption)rnd, (bp::CornerOption)cor); break;
      case 1: bp::resize(reg[r], D, (bp::RoundingOption)rnd, (bp::CornerOption)cor); break;
      case 2: { std::vector<Pwh> c(v); bp::resize(c, D, (bp::RoundingOption)rnd, (bp::CornerOption)cor); reg[r].clear(); for (auto& x : c) reg[r].insert(x); break; }
      case 3: if (sg > 0) bp::bloat(reg[r], d * e.m); else bp::shrink(reg[r], d * e.m); break;
      case 4: reg[r] += D; break;
      case 5: reg[r] -= -D; break;
      default: { Set t; t.insert_with_resize(v.begin() == v.end() ? Pwh() : v[0], D); if (v.size() == 1) reg[r] = t; else bp::bloat(reg[r], d * e.m); } } });
    tr::ev(ks("a", "Resize") + "," + kv("r", r + 1) + "," + kv("d", sg * d) + "," + kv("rnd", rnd) + "," + kv("cor", cor) + "," + kv("src", src) + "," + kv("o", observe(reg[r])));
  }
  void insert_sized(int r) {
    TShape sh = tg.any(); std::vector<Pwh> v; int d, rnd, cor; Set a; ins(a, sh); if (!simple(a, v) || !choose(v, d, rnd, cor)) return;
    bool hole = g.chance(30); int sg = g.chance(50) ? 1 : -1; T D = (T)(sg * d * e.m);
    guarded("insert_with_resize", [&] {
      if (sh.t == 'P') reg[r].insert_with_resize(to_poly<Poly, T>(sh.out, e), D, (bp::RoundingOption)rnd, (bp::CornerOption)cor, hole);
      else reg[r].insert_with_resize(to_pwh<Pwh, Poly, T>(sh, e), D, (bp::RoundingOption)rnd, (bp::CornerOption)cor, hole); });
    tr::ev(ks("a", "InsSz") + "," + kv("r", r + 1) + "," + kv("s", shape_json(sh)) + "," + kv("d", sg * d) + "," + kv("rnd", rnd) + "," + kv("cor", cor) + "," + kv("h", hole ? 1 : 0) + "," + kv("src", obs_pwhs(v, e)) + "," + kv("o", observe(reg[r])));
    clean(r);
  }
  void grow_and(int r) {
    std::vector<Pwh> v; Set a(reg[r]); if (!simple(a, v)) return; for (auto& p : v) if (bp::size_holes(p)) return;
    int room = slack(v); bool man = rectilinear(v); int d = 2 * g.range(1, 2); if (e.m != 1 && !man) return; if ((man ? d : 2 * slant(d, 0) + d) > room) return;
    std::string src = obs_pwhs(v, e);
    guarded("grow_and", [&] { if (g.chance(50)) bp::grow_and(reg[r], d * e.m); else { std::vector<Poly> c; reg[r].get(c); bp::grow_and(c, d * e.m); reg[r].clear(); for (auto& x : c) reg[r].insert(x); } });
    tr::ev(ks("a", "GrowAnd") + "," + kv("r", r + 1) + "," + kv("d", d) + "," + kv("src", src) + "," + kv("o", observe(reg[r])));
  }
  void map(int r) {
    static const bp::axis_transformation::ATR at[8] = {bp::axis_transformation::NULL_TRANSFORM, bp::axis_transformation::FLIP_X, bp::axis_transformation::FLIP_Y, bp::axis_transformation::FLIP_XY, bp::axis_transformation::SWAP_XY, bp::axis_transformation::ROTATE_LEFT, bp::axis_transformation::ROTATE_RIGHT, bp::axis_transformation::FLIP_SWAP_XY};
    // FLIP_X mirrors about the x axis in the library's naming or the y axis: found out by asking
    int k = g.below(8), v = 0; { bp::point_data<T> a(1, 0), b(0, 1); bp::transform(a, bp::axis_transformation(at[k])); bp::transform(b, bp::axis_transformation(at[k])); bool sw = a.x() == 0; v = sw ? 4 : 0; if ((sw ? a.y() : a.x()) < 0) v |= 1; if ((sw ? b.x() : b.y()) < 0) v |= 2; }
    bp::point_data<T> p((T)e.x(0), (T)e.y(0)); int qx = v & 1 ? 2 * n : 0, qy = v & 2 ? 2 * n : 0; if (v & 4) std::swap(qx, qy);
    bp::point_data<T> q((T)e.x(qx), (T)e.y(qy)); bp::transformation<T> tr(bp::axis_transformation(at[k]), p, q);
    guarded("transform", [&] { switch (g.below(4)) {
      case 0: reg[r].transform(tr); break; case 1: bp::transform(reg[r], tr); break;
      case 2: { std::vector<Pwh> c; reg[r].get(c); bp::transform(c, tr); reg[r].clear(); for (auto& x : c) reg[r].insert(x); break; }
      default: { reg[r].transform(bp::transformation<T>(bp::point_data<T>(bp::x(p), bp::y(p)))); reg[r].transform(bp::axis_transformation(at[k])); reg[r].transform(bp::transformation<T>(bp::point_data<T>(-bp::x(q), -bp::y(q)))); } } });
    tr::ev(ks("a", "Map") + "," + kv("r", r + 1) + "," + kv("v", v) + "," + kv("o", observe(reg[r])));
  }
  void scales(int r) { // on a copy, seen in the scaled grid; then back again
    Set a(reg[r]); int f = g.chance(50) ? 1 << g.range(1, 4) : g.range(2, 9); Emb45 b = e; b.m *= f; b.offx *= f; b.offy *= f; long long lim = 1000000000;
    for (long long c : {b.offx, b.offy, b.offx + 2 * n * b.m, b.offy + 2 * n * b.m}) if (c > lim || c < -lim) return;
    bool two = (f & (f - 1)) == 0; int how = g.below(two ? 4 : 3); if (how == 3) how = 3; std::string o1, o2; Emb45 e0 = e;
    guarded("scale", [&] { switch (how) { case 0: a.scale_up(f); break; case 1: bp::scale_up(a, f); break; case 2: { std::vector<Pwh> c; a.get(c); bp::scale_up(c, f); a.clear(); for (auto& x : c) a.insert(x); break; } default: if (g.chance(50)) a.scale((double)f); else bp::scale(a, (double)f); } });
    e = b; o1 = observe(a); e = e0;
    tr::ev(ks("a", "See") + "," + kv("r", r + 1) + "," + kv("o", o1));
    guarded("scale down", [&] { switch (how) { case 0: a.scale_down(f); break; case 1: bp::scale_down(a, f); break; case 2: { std::vector<Pwh> c; a.get(c); bp::scale_down(c, f); a.clear(); for (auto& x : c) a.insert(x); break; } default: a.scale(1.0 / f); } });
    tr::ev(ks("a", "See") + "," + kv("r", r + 1) + "," + kv("o", observe(a)));
  }
  void keepf(int r) {
    std::vector<Pwh> v; Set a(reg[r]); if (!simple(a, v)) return; long long A = 4ll * n * n, W = 2 * n, q[6] = {0, A, 0, W, 0, W};
    if (g.chance(40)) { q[0] = g.range(0, (int)A); if (g.chance(50)) q[0] = g.range(0, 12); } if (g.chance(40)) { q[1] = g.range(1, (int)A); if (g.chance(50)) q[1] = g.range(1, 12); }
    for (int i = 2; i < 6; ++i) if (g.chance(30)) q[i] = g.range(0, (int)W);
    if (!v.empty() && g.chance(60)) { const Pwh& p = v[g.below((int)v.size())]; Rect bx; bp::extents(bx, p); int i = g.below(3); if (i == 0) q[g.below(2)] = (long long)(bp::area(p) / ((long double)e.m * e.m)); else q[2 * i + g.below(2)] = (bp::get(bx, i == 1 ? bp::HORIZONTAL : bp::VERTICAL, bp::HIGH) - (long long)bp::get(bx, i == 1 ? bp::HORIZONTAL : bp::VERTICAL, bp::LOW)) / e.m; }
    long long m2 = e.m * e.m;
    guarded("keep", [&] { if (g.chance(60)) bp::keep(reg[r], q[0] * m2, q[1] * m2, q[2] * e.m, q[3] * e.m, q[4] * e.m, q[5] * e.m);
      else { std::vector<Pwh> c(v); bp::keep(c, q[0] * m2, q[1] * m2, q[2] * e.m, q[3] * e.m, q[4] * e.m, q[5] * e.m); reg[r].clear(); for (auto& x : c) reg[r].insert(x); } });
    tr::ev(ks("a", "Keep") + "," + kv("r", r + 1) + "," + kv("q", arr(std::vector<long long>(q, q + 6))) + "," + kv("o", observe(reg[r])));
  }
  void manh(int r) {
    Set t(reg[r]); if (g.chance(50)) t.clean();
    bool m = t.is_manhattan(); tr::ev(ks("a", "Manh") + "," + kv("r", r + 1) + "," + kv("res", m ? 1 : 0));
  }
  void metric() {
    tg.lo = 2; tg.hi = n - 2; if (tg.hi - tg.lo < 2) { tg.lo = 1; tg.hi = n - 1; }
    for (int r = 0; r < K; ++r) fill(r, r == 2 ? 0 : 1, 3);
    for (int k = g.range(3, 7); k > 0; --k) {
      int r = g.below(K), c = g.below(100);
      if (c < 45) resize(r); else if (c < 53) insert_sized(r); else if (c < 57) grow_and(r); else if (c < 68) map(r); else if (c < 76) scales(r); else if (c < 84) keepf(r);
      else if (c < 87) manh(r); else if (c < 90) bin(r); else if (c < 93) query(r); else if (c < 95) selfassign(r); else fill(r, 1, 4);
    }
  }
  void conn() {
    int m = g.range(0, 6); std::vector<std::string> js, edges; bp::connectivity_extraction_45<T> ce; bool idok = true;
    for (int i = 0; i < m; ++i) {
      unsigned id = 0;
      guarded("connectivity insert", [&] {
        if (g.chance(60)) { TShape s = tg.any(); js.push_back(shape_json(s)); if (s.rect && g.chance(60)) id = ce.insert(to_rect<T>(s, e)); else if (s.t == 'P') id = ce.insert(to_poly<Poly, T>(s.out, e)); else id = ce.insert(to_pwh<Pwh, Poly, T>(s, e)); }
        else { Set s; TShapes v; for (int k = half ? g.range(0, 1) : g.range(0, 2); k > 0; --k) { v.push_back(tg.any()); ins(s, v.back()); } js.push_back(shapes_json(v)); id = ce.insert(s); }
      });
      if (id != (unsigned)i) idok = false;
    }
    guarded("connectivity extract", [&] {
      if (g.chance(20)) { bp::connectivity_extraction_45<T> c2(ce); ce = c2; }
      std::vector<std::set<int> > gr(m); ce.extract(gr); for (int a = 0; a < m; ++a) for (int b : gr[a]) edges.push_back("[" + S(a + 1) + "," + S(b + 1) + "]");
    });
    if (!idok) edges.push_back("[0,0]");
    tr::ev(ks("a", "Conn") + "," + kv("s", arrs(js)) + "," + kv("g", arrs(edges)));
  }
  template <class Key, class PM> std::string merge_with(PM& pm) {
    std::map<Key, Set> res; pm.merge(res); std::vector<std::string> out;
    for (auto& kvp : res) { std::vector<int> ps; for (auto& q : kvp.first) ps.push_back(Lab<typename Key::value_type>::un(q)); out.push_back("{\"ps\":" + arr(ps) + "," + kv("o", observe(kvp.second)) + "}"); }
    return arrs(out);
  }
  void merge() { if (g.chance(75)) merge_as<int>(); else merge_as<std::string>(); }
  template <class P> void merge_as() {
    int m = g.range(1, 5), np = g.range(1, 4); std::vector<std::string> is; std::string out; bp::property_merge_45<T, P> pm;
    for (int i = 0; i < m; ++i) {
      int p = g.range(1, np);
      guarded("property insert", [&] {
        if (g.chance(60)) { TShape s = tg.any(); is.push_back("{\"p\":" + S(p) + ",\"s\":" + shape_json(s) + "}"); if (s.rect && g.chance(50)) pm.insert(to_rect<T>(s, e), Lab<P>::mk(p)); else if (s.t == 'P') pm.insert(to_poly<Poly, T>(s.out, e), Lab<P>::mk(p)); else pm.insert(to_pwh<Pwh, Poly, T>(s, e), Lab<P>::mk(p)); }
        else { Set s; TShapes v; for (int k = half ? g.range(0, 1) : g.range(0, 3); k > 0; --k) { v.push_back(tg.any()); ins(s, v.back()); } is.push_back("{\"p\":" + S(p) + ",\"s\":" + shapes_json(v) + "}"); pm.insert(s, Lab<P>::mk(p)); }
      });
    }
    guarded("property merge", [&] { if (g.chance(20)) { bp::property_merge_45<T, P> c(pm); pm = c; } out = g.chance(60) ? merge_with<std::set<P> >(pm) : merge_with<std::vector<P> >(pm); });
    tr::ev(ks("a", "Merge") + "," + kv("ins", arrs(is)) + "," + kv("out", out));
  }
  void snap_bin() {
    fill(0, 1, 3); fill(1, 1, 3);
    bool err = false; Set res; int op = g.below(4);
    guarded("boolean", [&] { switch (op) { case 0: res = reg[0] | reg[1]; res.clean(); break; case 1: res = reg[0] & reg[1]; break; case 2: res = reg[0] ^ reg[1]; break; default: res = reg[0] - reg[1]; } err = res.has_error_data(); reg[2] = res; });
    tr::ev(ks("a", "Bin") + ",\"r\":3," + kv("op", op) + "," + kv("x", regj(0)) + "," + kv("y", regj(1)) + "," + kv("o", observe(reg[2])));
    tr::ev(ks("a", "Err") + "," + kv("x", regj(2)) + "," + kv("res", err ? 1 : 0));
  }
  void run(const std::string& mode) {
    if (mode == "snap") { for (int k = g.range(1, 3); k > 0; --k) { if (g.chance(80)) snap_bin(); else selfop(0); } return; }
    if (mode == "metric") { metric(); return; }
    int len = g.range(3, 8);
    if (mode != "rel") for (int r = 0; r < K; ++r) { fill(r, 0, 3); if (g.chance(30)) insert(r, g.chance(50)); }
    for (int k = 0; k < len; ++k) {
      int r = g.below(K), c = g.below(100);
      if (mode == "bool") {
        if (c < 35) bin(r); else if (c < 50) nested(r); else if (c < 60) selfassign(r); else if (c < 68) container(r); else if (c < 78) insert(r, g.chance(40)); else if (c < 84) insert_set(r); else if (c < 89) copy(r); else if (c < 93) clean(r); else selfop(r);
      } else if (mode == "rel") {
        if (c < 40) conn(); else if (c < 70) merge(); else { fill(0, 1, 4); fill(1, 0, 2); interact(0); }
      } else {
        if (c < 60) { if (mode == "query") query(r); else if (g.chance(60)) form(r); else traps(r); }
        else if (c < 75) bin(r); else if (c < 82) nested(r); else if (c < 90) fill(r, 1, 6); else if (c < 95) insert(r, true); else copy(r);
      }
    }
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]);
  tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i);
    if (mode == "metric") { Session s(g, g.range(6, 9), false); tr::begin(s.header()); s.run(mode); tr::end(); continue; }
    Session s(g, g.chance(60) ? g.range(2, 4) : g.range(4, 6), mode == "snap" || (mode == "rel" && g.chance(30)) ? true : false);
    tr::begin(s.header()); s.run(mode); tr::end();
  }
  tr::close(); return 0;
}
