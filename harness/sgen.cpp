// Conformance driver for the arbitrary-angle polygon-set machine (spec/SetGen.tla).
// usage: sgen <mode> <seed> <ntraces> <outfile>
//   bool   booleans and accumulation, all crossings integral   (C14)
//   snap   booleans whose crossings are rounded                 (C14)
//   form   polygon and trapezoid extraction                     (C15)
//   query  equality, emptiness, extents, area                   (C14)
//   wide, wideform, widerel  the same on many shapes one above the other (C14, C15, C16)
//   rel    connectivity, interaction, property merge            (C16)
#include "arr.hpp"
using namespace boost::polygon::operators;
typedef int T;
typedef bp::polygon_set_data<T> Set;
typedef bp::polygon_data<T> Poly;
typedef bp::polygon_with_holes_data<T> Pwh;
typedef bp::rectangle_data<T> Rect;
typedef bp::polygon_90_data<T> Poly90;
typedef bp::polygon_90_with_holes_data<T> Pwh90;
typedef bp::polygon_45_data<T> Poly45;
typedef bp::polygon_45_with_holes_data<T> Pwh45;
typedef bp::polygon_90_set_data<T> Set90;
typedef bp::polygon_45_set_data<T> Set45;

static std::string regj(int r) { return "{\"t\":\"S\",\"r\":" + S(r + 1) + "}"; }
struct Operand {
  int kind; Set set; Poly poly; Pwh pwh; std::vector<Poly> vp; std::list<Pwh> lh; Rect rect; std::vector<Rect> vr; Poly90 p90; Poly45 p45; Set90 s90; Set45 s45;
  std::string json;
};
struct Session {
  static const int K = 3;
  Rng& g; AShapes pool; Arr a; bool exact; int far; Set reg[K];
  bool wide;
  Session(Rng& g_, const std::string& mode) : g(g_) {
    exact = mode != "snap"; far = exact ? 3 : 12; wide = mode.substr(0, 4) == "wide";
    if (wide) { // many shapes one above the other, so that scans are cut into bands
      for (;;) {
        int H = g.range(2, 4), bands = g.range(4, 8), gap = g.range(0, 2); pool.clear(); AGen ag(g, H, g.below(2));
        for (int b = 0; b < bands; ++b) { ag.y0 = b * (H + gap); for (int i = g.range(1, 2); i > 0; --i) pool.push_back(ag.shape()); }
        if (g.chance(40)) { AShape s; s.t = 'P'; int x = g.range(0, H - 1), y1 = bands * (H + gap) - gap; s.out = {IP(x, 0), IP(x + 1, 0), IP(x + 1, y1), IP(x, y1)}; classify(s); pool.push_back(s); }
        if (a.build(g, bands * (H + gap), pool, true, 90, 0, true)) return;
      }
    }
    for (int tries = 0;; ++tries) {
      int N = g.range(3, 10), st = g.chance(50) ? 1 : g.below(3); if (tries > 60) { N = 4; st = 1; }
      int m = g.range(2, mode == "rel" ? 7 : 5); if (tries > 60) m = 2;
      pool.clear(); AGen ag(g, N, st); for (int i = 0; i < m; ++i) pool.push_back(ag.shape());
      if (a.build(g, N, pool, exact, 110, exact ? 0 : far)) break;
    }
  }
  std::string header() { return a.header() + "," + kv("K", K) + "," + kv("grid", exact ? 1 : 0) + "," + kv("far", far); }
  std::string obs_of(const Set& s0, int route) {
    Set s(s0);
    switch (route) {
      case 0: { std::vector<Poly> v; s.get(v); return obs_polys(v, a); }
      case 1: { std::list<Poly> v; bp::assign(v, s); return obs_polys(v, a); }
      case 2: { std::list<Pwh> v; s.get(v); return obs_pwhs(v, a); }
      case 3: { std::vector<Pwh> v; bp::assign(v, s); return obs_pwhs(v, a); }
      default: { std::vector<Pwh> v; s.get(v); return obs_pwhs(v, a); }
    }
  }
  std::string observe(const Set& s, int route = -1) { return obs_of(s, route < 0 ? g.below(8) : route); }
  std::string exactobs(const Set& s) { return obs_of(s, g.range(2, 5)); }
  Ring dirty(Ring r) { // repeated points and a repeated first point change nothing
    if (g.chance(8)) { int i = g.below((int)r.size()); r.insert(r.begin() + i, r[i]); }
    if (g.chance(8)) r.push_back(r.front());
    return r;
  }
  Poly mk(const AShape& s) { return to_poly<Poly, T>(dirty(s.out), a); }
  Pwh mkh(const AShape& s) { AShape d = s; d.out = dirty(d.out); return to_pwh<Pwh, Poly, T>(d, a); }
  void ins(Set& s, const AShape& sh, bool hole = false) {
    if (sh.rect && g.chance(60)) { s.insert(to_rect<T>(sh, a), hole); return; }
    if (sh.manh && g.chance(40)) {
      if (g.chance(40)) { Set90 t(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); t.insert(to_pwh<Pwh90, Poly90, T>(sh, a)); s.insert(t, hole); }
      else if (sh.t == 'P') s.insert(to_poly<Poly90, T>(sh.out, a), hole); else s.insert(to_pwh<Pwh90, Poly90, T>(sh, a), hole);
      return;
    }
    if (sh.oct && g.chance(40)) {
      if (g.chance(40)) { Set45 t; t.insert(to_pwh<Pwh45, Poly45, T>(sh, a)); s.insert(t, hole); }
      else if (sh.t == 'P') s.insert(to_poly<Poly45, T>(sh.out, a), hole); else s.insert(to_pwh<Pwh45, Poly45, T>(sh, a), hole);
      return;
    }
    if (sh.t == 'P') { if (g.chance(15)) { auto v = to_pts<T>(sh.out, a); s.insert_vertex_sequence(v.begin(), v.end(), bp::winding(to_poly<Poly, T>(sh.out, a)), hole); } else s.insert(mk(sh), hole); }
    else s.insert(mkh(sh), hole);
  }
  const AShape& pick() { return pool[g.below((int)pool.size())]; }
  AShape pickP() { for (int t = 0; t < 20; ++t) { const AShape& s = pick(); if (s.t == 'P') return s; } AShape s = pool[0]; s.t = 'P'; s.holes.clear(); return s; }
  const AShape* pickR() { for (int t = 0; t < 10; ++t) { const AShape& s = pick(); if (s.rect) return &s; } return 0; }
  template <class Fn> void visitg(const Operand& o, Fn f) { switch (o.kind) { case 0: f(o.set); break; case 1: f(o.pwh); break; default: f(o.vp); } }
  template <class Fn> void visit(const Operand& o, Fn f) { switch (o.kind) { case 0: f(o.set); break; case 1: f(o.pwh); break; case 2: f(o.vp); break; case 3: f(o.lh); break; case 4: f(o.rect); break; case 5: f(o.vr); break; case 6: f(o.p90); break; case 7: f(o.p45); break; case 8: f(o.s90); break; case 9: f(o.s45); break; default: f(o.poly); } }
  Operand operand(int nk) {
    Operand o; o.kind = g.chance(50) ? 0 : g.below(nk);
    if (o.kind >= 4 && o.kind <= 6 && !pickR()) o.kind = 3;
    switch (o.kind) {
      case 0: { int j = g.below(K); o.set = reg[j]; o.json = regj(j); break; }
      case 1: { const AShape& s = pick(); o.pwh = mkh(s); o.json = shape_json(s, a); break; }
      case 2: { AShapes v; for (int k = g.range(0, 3); k > 0; --k) { v.push_back(pickP()); o.vp.push_back(mk(v.back())); } o.json = shapes_json(v, a); break; }
      case 3: { AShapes v; for (int k = g.range(0, 3); k > 0; --k) { v.push_back(pick()); o.lh.push_back(mkh(v.back())); } o.json = shapes_json(v, a); break; }
      case 4: { const AShape* s = 0; while (!s) s = pickR(); o.rect = to_rect<T>(*s, a); o.json = shape_json(*s, a); break; }
      case 5: { AShapes v; for (int k = g.range(0, 2); k > 0; --k) { const AShape* s = 0; while (!s) s = pickR(); v.push_back(*s); o.vr.push_back(to_rect<T>(*s, a)); } o.json = shapes_json(v, a); break; }
      case 6: { const AShape* s = 0; while (!s) s = pickR(); o.p90 = to_poly<Poly90, T>(s->out, a); o.json = shape_json(*s, a); break; }
      case 7: { AShape s = pickP(); for (int t = 0; t < 10 && !s.oct; ++t) s = pickP(); if (!s.oct) { o.kind = 10; o.poly = mk(s); } else o.p45 = to_poly<Poly45, T>(s.out, a); o.json = shape_json(s, a); break; }
      case 8: { AShapes v; o.s90 = Set90(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); for (auto& s : pool) if (s.manh && g.chance(70)) { v.push_back(s); o.s90.insert(to_pwh<Pwh90, Poly90, T>(s, a)); } o.json = shapes_json(v, a); break; }
      case 9: { AShapes v; for (auto& s : pool) if (s.oct && g.chance(70)) { v.push_back(s); o.s45.insert(to_pwh<Pwh45, Poly45, T>(s, a)); } o.json = shapes_json(v, a); break; }
      default: { AShape s = pickP(); o.poly = mk(s); o.json = shape_json(s, a); break; }
    }
    return o;
  }
  template <class A, class B, class Fn> static void apply(int op, const A& x, const B& y, Fn f) {
    switch (op) { case 0: f(x | y); break; case 1: f(x & y); break; case 2: f(x ^ y); break; case 3: f(x - y); break; case 4: f(x + y); break; default: f(x * y); }
  }
  static int abs_op(int op) { return op == 4 ? 0 : op == 5 ? 1 : op; }
  void fill(int r, int lo, int hi) {
    AShapes v; for (int k = g.range(lo, hi); k > 0; --k) v.push_back(pick());
    guarded("insert", [&] { reg[r].clear(); for (auto& s : v) ins(reg[r], s); });
    tr::ev(ks("a", "Set") + "," + kv("r", r + 1) + "," + kv("x", shapes_json(v, a)) + "," + kv("o", observe(reg[r])));
  }
  void insert(int r, bool hole) {
    AShape s = pick(); guarded("insert", [&] { ins(reg[r], s, hole); });
    tr::ev(ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("h", hole ? 1 : 0) + "," + kv("s", shape_json(s, a)) + "," + kv("o", observe(reg[r])));
  }
  void insert_set(int r) {
    int j = (r + 1 + g.below(K - 1)) % K; bool hole = g.chance(30); guarded("insert set", [&] { reg[r].insert(reg[j], hole); });
    tr::ev(ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("h", hole ? 1 : 0) + "," + kv("s", regj(j)) + "," + kv("o", observe(reg[r])));
  }
  void bin(int r) {
    bool swp = g.chance(50); Operand A = operand(3), B = operand(11); int op = g.below(6), how = g.below(3); Set res;
    guarded("boolean", [&] {
      visitg(A, [&](auto& x) { visit(B, [&](auto& y) {
        auto fin = [&](const auto& v) { if (how == 0) res = v; else if (how == 1) { Set t(v); res = t; } else bp::assign(res, v); };
        if (swp) apply(op, y, x, fin); else apply(op, x, y, fin); }); });
      reg[r] = res;
    });
    tr::ev(ks("a", "Bin") + "," + kv("r", r + 1) + "," + kv("op", abs_op(op)) + "," + kv("x", swp ? B.json : A.json) + "," + kv("y", swp ? A.json : B.json) + "," + kv("o", observe(reg[r])));
  }
  void nested(int r) {
    int i = g.below(K), j = g.below(K), k = g.below(K), op1 = g.below(4), op2 = g.below(4), op3 = g.below(4), shape = g.below(3);
    auto ej = [](int op, const std::string& x, const std::string& y) { return "{\"t\":\"E\",\"op\":" + S(op) + ",\"x\":" + x + ",\"y\":" + y + "}"; };
    std::string ex; Set res;
    guarded("nested boolean", [&] {
      if (shape == 0) { ex = ej(op2, ej(op1, regj(i), regj(j)), regj(k)); apply(op1, reg[i], reg[j], [&](const auto& v) { apply(op2, v, reg[k], [&](const auto& w) { res = w; }); }); }
      else if (shape == 1) { ex = ej(op2, regj(k), ej(op1, regj(i), regj(j))); apply(op1, reg[i], reg[j], [&](const auto& v) { apply(op2, reg[k], v, [&](const auto& w) { res = w; }); }); }
      else { ex = ej(op2, ej(op1, regj(i), regj(j)), ej(op3, regj(j), regj(k))); apply(op1, reg[i], reg[j], [&](const auto& v) { apply(op3, reg[j], reg[k], [&](const auto& u) { apply(op2, v, u, [&](const auto& w) { res = w; }); }); }); }
      reg[r] = res;
    });
    tr::ev(ks("a", "Asg") + "," + kv("r", r + 1) + "," + kv("x", ex) + "," + kv("o", observe(reg[r])));
  }
  void selfassign(int r) {
    Operand B = operand(11); int op = g.below(6);
    guarded("self assignment", [&] { visit(B, [&](auto& b) { switch (op) { case 0: reg[r] |= b; break; case 1: reg[r] &= b; break; case 2: reg[r] ^= b; break; case 3: reg[r] -= b; break; case 4: reg[r] += b; break; default: reg[r] *= b; } }); });
    tr::ev(ks("a", "BinA") + "," + kv("r", r + 1) + "," + kv("op", abs_op(op)) + "," + kv("y", B.json) + "," + kv("o", observe(reg[r])));
  }
  void container(int r) {
    Operand B = operand(11); int op = g.below(6); std::string o1;
    auto go = [&](auto& c, auto ob) {
      bp::assign(c, reg[r]);
      visit(B, [&](auto& b) { switch (op) { case 0: c |= b; break; case 1: c &= b; break; case 2: c ^= b; break; case 3: c -= b; break; case 4: c += b; break; default: c *= b; } });
      o1 = ob(c); reg[r].clear(); for (auto& x : c) reg[r].insert(x); };
    guarded("container self assignment", [&] {
      if (g.chance(50)) { std::vector<Pwh> c; go(c, [&](auto& c) { return obs_pwhs(c, a); }); }
      else { std::list<Pwh> c; go(c, [&](auto& c) { return obs_pwhs(c, a); }); }
    });
    tr::ev(ks("a", "BinA") + "," + kv("r", r + 1) + "," + kv("op", abs_op(op)) + "," + kv("y", B.json) + "," + kv("o", o1));
  }
  void copy(int r) {
    int j = g.below(K);
    guarded("copy", [&] { switch (g.below(5)) { case 0: reg[r] = reg[j]; break; case 1: { Set t(reg[j]); reg[r] = t; break; } case 2: { Set t(reg[j]); reg[r].set(t.begin(), t.end()); break; } case 3: { Set t(reg[j]); reg[r].set(t.value()); break; } default: { Set t(reg[j].begin(), reg[j].end()); reg[r] = t; } } });
    tr::ev(ks("a", "Copy") + "," + kv("r", r + 1) + "," + kv("s", j + 1) + "," + kv("o", observe(reg[r])));
  }
  void clean(int r) {
    guarded("clean", [&] { switch (g.below(3)) { case 0: reg[r].clean(); break; case 1: reg[r].size(); break; default: { std::vector<Pwh> v; reg[r].get(v); } } });
    tr::ev(ks("a", "Clean") + "," + kv("r", r + 1) + "," + kv("o", observe(reg[r])));
  }
  // ---- queries
  void form(int r) {
    Set s(reg[r]); std::string o = observe(s, g.chance(30) ? g.below(2) : g.range(2, 5));
    tr::ev(ks("a", "Form") + "," + kv("x", regj(r)) + "," + kv("o", o));
  }
  void traps(int r) {
    Set s(reg[r]); std::string o; int how = g.below(5), ori = 1;
    guarded("get_trapezoids", [&] {
      if (how == 0) { std::vector<Poly> v; s.get_trapezoids(v); o = obs_polys(v, a); }
      else if (how <= 2) { std::vector<Poly> v; ori = g.below(2); s.get_trapezoids(v, ori ? bp::VERTICAL : bp::HORIZONTAL); o = obs_polys(v, a); }
      else if (how == 3) { std::list<Poly> v; bp::get_trapezoids(v, s); o = obs_polys(v, a); }
      else { std::vector<Poly> v; ori = g.below(2); bp::get_trapezoids(v, s, ori ? bp::VERTICAL : bp::HORIZONTAL); o = obs_polys(v, a); }
    });
    tr::ev(ks("a", "Traps") + "," + kv("x", regj(r)) + "," + kv("ori", ori) + "," + kv("o", o));
  }
  void query(int r) {
    int how = g.below(7);
    if (how <= 1) {
      int j = g.below(K); Set x(reg[r]), y(reg[j]); bool eq = false, ne = false; bool fr = g.chance(30);
      guarded("operator==", [&] { if (fr) { eq = bp::equivalence(x, y); ne = !eq; } else { eq = x == y; ne = x != y; } });
      tr::ev(ks("a", "Eq") + "," + kv("x", regj(r)) + "," + kv("y", regj(j)) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", ne ? 1 : 0));
    } else if (how == 2) {
      Operand A = operand(3), B = operand(11); bool eq = false;
      guarded("equivalence", [&] { visitg(A, [&](auto& x) { visit(B, [&](auto& y) { eq = bp::equivalence(x, y); }); }); });
      tr::ev(ks("a", "Eq") + "," + kv("x", A.json) + "," + kv("y", B.json) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", eq ? 0 : 1));
    } else if (how == 3) {
      Set x(reg[r]), o(reg[(r + 1) % K]), b; bool eq = false; int way = g.below(3);
      guarded("rebuild", [&] {
        if (way == 0) { std::vector<Pwh> v; x.get(v); std::reverse(v.begin(), v.end()); b.insert(v.begin(), v.end()); if (g.chance(50)) b.insert(v.begin(), v.end()); }
        else if (way == 1) b = (x | o) - (o - x);
        else b = (x & o) | (x - o);
        eq = x == b; });
      tr::ev(ks("a", "Eq") + "," + kv("way", way) + "," + kv("x", regj(r)) + "," + kv("y", regj(r)) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", eq ? 0 : 1));
    } else if (how == 4) {
      bool em = false; Set x(reg[r]); guarded("empty", [&] { em = g.chance(50) ? bp::empty(x) : x.empty(); });
      tr::ev(ks("a", "Empty") + "," + kv("x", regj(r)) + "," + kv("res", em ? 1 : 0));
    } else if (how == 5) {
      Set x(reg[r]); Rect q(0, 0, 0, 0); bool res = false;
      guarded("extents", [&] { res = g.chance(50) ? x.extents(q) : bp::extents(q, x); });
      std::vector<int> v = {a.rx(bp::xl(q)), a.ry(bp::yl(q)), a.rx(bp::xh(q)), a.ry(bp::yh(q))};
      tr::ev(ks("a", "Ext") + "," + kv("x", regj(r)) + "," + kv("o", exactobs(reg[r])) + "," + kv("res", res ? 1 : 0) + "," + kv("v", arr(v)));
    } else {
      Set x(reg[r]); long double w = 0;
      guarded("area", [&] { if (g.chance(70)) w = bp::area(x); else { std::vector<Pwh> v; x.get(v); for (auto& p : v) w += bp::area(p); } });
      w *= 2; ll ar = w >= 0 && w < 2e9L && w == (long double)(ll)w ? (ll)w : -1;
      tr::ev(ks("a", "Area") + "," + kv("x", regj(r)) + "," + kv("o", exactobs(reg[r])) + "," + kv("res", ar));
    }
  }
  void image(int r) {
    int v = g.below(8), m = g.range(1, 3), how = g.below(5); if (a.N * a.L * m > 15000 || std::max(std::llabs(a.offx), std::llabs(a.offy)) > 300000000) m = 1;
    Set s(reg[r]); Arr b = a; std::string o;
    guarded("transform", [&] {
      bp::axis_transformation at((bp::axis_transformation::ATR)v);
      if (how == 0) { v = 0; if (g.chance(50)) s.scale_up(m); else bp::scale_up(s, m); }
      else if (how == 1) { v = 0; if (g.chance(50)) s.scale_up(m); else bp::scale_up(s, m); if (g.chance(50)) s.scale_down(m); else bp::scale_down(s, m); m = 1; }
      else if (how == 2) { s.transform(at); m = 1; }
      else if (how == 3) { if (g.chance(50)) { bp::transformation<T> tr(at); bp::transform(s, tr); } else bp::transform(s, at); m = 1; }
      else { s.scale_up(m); bp::transform(s, at); }
    });
    ll ox = (v & 1) ? -a.offx : a.offx, oy = (v & 2) ? -a.offy : a.offy; if (v & 4) std::swap(ox, oy);
    b.offx = ox * m; b.offy = oy * m; b.lo = -30000;
    std::vector<Pwh> c; guarded("get", [&] { s.get(c); }); o = obs_pwhs(c, b);
    tr::ev(ks("a", "Image") + "," + kv("x", regj(r)) + "," + kv("v", v) + "," + kv("m", m) + "," + kv("o", o));
  }
  void keepf(int r) {
    std::string oa = exactobs(reg[r]); ll W = a.N * a.L; 
    ll q[6] = {0, 2000000000, 0, 30000, 0, 30000};
    auto lim = [&](int i, ll top) { ll x = g.range(0, a.N) * top / a.N, y = g.range(0, a.N) * top / a.N; if (x > y) std::swap(x, y); if (g.chance(70)) { if (g.chance(50)) q[i] = x; else q[i + 1] = y; } };
    if (g.chance(40)) lim(0, W * W); if (g.chance(40)) lim(2, W); if (g.chance(40)) lim(4, W);
    q[0] -= q[0] % 2; if (q[1] % 2) ++q[1];
    if (g.chance(50)) { std::vector<Pwh> c; Set t(reg[r]); t.get(c); if (!c.empty()) { const Pwh& p = c[g.below((int)c.size())]; Rect bx; bp::extents(bx, p); int i = g.below(3); long double A = bp::area(p) * 2;
      if (i == 0) { ll e = (ll)A; if (e % 2) ++e; q[g.below(2)] = e; } else { ll d = i == 1 ? bp::delta(bx, bp::HORIZONTAL) : bp::delta(bx, bp::VERTICAL); q[2 * i + g.below(2)] = d; } } }
    guarded("keep", [&] { bp::keep(reg[r], q[0] / 2, q[1] / 2, q[2], q[3], q[4], q[5]); });
    tr::ev(ks("a", "Keep") + "," + kv("r", r + 1) + "," + kv("v", arr(std::vector<ll>(q, q + 6))) + "," + kv("oa", oa) + "," + kv("o", observe(reg[r])));
  }
  void interact(int r) {
    int how = g.below(3), j = (r + 1) % K; std::string y, ob, oa = exactobs(reg[r]); Set b = reg[j], t;
    // regions touching at a point may be extracted as one polygon or as several
    guarded("interact", [&] {
      if (how == 0) { AShapes v; for (int k = g.range(0, 2); k > 0; --k) { v.push_back(pick()); t.insert(mkh(v.back())); } y = shapes_json(v, a); }
      else { y = regj(j); t = b; }
      ob = exactobs(t);
      if (g.chance(50)) bp::interact(reg[r], t); else { Set q(t); reg[r].interact(q); }
    });
    tr::ev(ks("a", "Interact") + "," + kv("r", r + 1) + "," + kv("y", y) + "," + kv("oa", oa) + "," + kv("ob", ob) + "," + kv("o", observe(reg[r])));
  }
  void conn() {
    int m = wide ? g.range(6, 14) : g.range(0, 6); std::vector<std::string> js, os, edges; bp::connectivity_extraction<T> ce; bool idok = true;
    for (int i = 0; i < m; ++i) {
      unsigned id = 0;
      guarded("connectivity insert", [&] {
        if (g.chance(60)) { AShape s = pick(); js.push_back(shape_json(s, a)); Set t; t.insert(mkh(s)); os.push_back(exactobs(t));
          if (s.rect && g.chance(60)) id = ce.insert(to_rect<T>(s, a)); else if (s.t == 'P') id = ce.insert(mk(s)); else id = ce.insert(mkh(s)); }
        else { Set s; AShapes v; for (int k = g.range(0, 2); k > 0; --k) { v.push_back(pick()); ins(s, v.back()); } js.push_back(shapes_json(v, a)); os.push_back(exactobs(s)); id = ce.insert(s); }
      });
      if (id != (unsigned)i) idok = false;
    }
    guarded("connectivity extract", [&] {
      if (g.chance(20)) { bp::connectivity_extraction<T> c2(ce); ce = c2; }
      std::vector<std::set<int> > gr(m); ce.extract(gr); for (int x = 0; x < m; ++x) for (int b : gr[x]) edges.push_back("[" + S(x + 1) + "," + S(b + 1) + "]");
    });
    if (!idok) edges.push_back("[0,0]");
    tr::ev(ks("a", "Conn") + "," + kv("s", arrs(js)) + "," + kv("o", arrs(os)) + "," + kv("g", arrs(edges)));
  }
  template <class Key> std::string merge_with(bp::property_merge<T, typename Key::value_type, Key>& pm) {
    std::map<Key, Set> res; pm.merge(res); std::vector<std::string> out;
    for (auto& kvp : res) { std::vector<int> ps; for (auto& q : kvp.first) ps.push_back(Lab<typename Key::value_type>::un(q)); out.push_back("{\"ps\":" + arr(ps) + "," + kv("o", observe(kvp.second)) + "}"); }
    return arrs(out);
  }
  template <class Key> void merge() {
    typedef typename Key::value_type P;
    int m = wide ? g.range(6, 14) : g.range(1, 6), np = g.range(1, 4); std::vector<std::string> is; std::string out; bp::property_merge<T, P, Key> pm;
    for (int i = 0; i < m; ++i) {
      int p = g.range(1, np); bool hole = g.chance(15); AShape s = pick();
      guarded("property insert", [&] { if (s.rect && g.chance(50)) pm.insert(to_rect<T>(s, a), Lab<P>::mk(p), hole); else if (s.t == 'P') pm.insert(mk(s), Lab<P>::mk(p), hole); else pm.insert(mkh(s), Lab<P>::mk(p), hole); });
      is.push_back("{\"p\":" + S(p) + "," + kv("h", hole ? 1 : 0) + ",\"s\":" + shape_json(s, a) + "}");
    }
    guarded("property merge", [&] { if (g.chance(20)) { bp::property_merge<T, P, Key> c(pm); pm = c; } out = merge_with<Key>(pm); });
    tr::ev(ks("a", "Merge") + "," + kv("ins", arrs(is)) + "," + kv("out", out));
  }
  void run(const std::string& mode) {
    int len = mode == "snap" ? g.range(1, 2) : wide ? g.range(2, 3) : g.range(3, 7);
    if (wide) for (int r = 0; r < K; ++r) fill(r, 3, 14);
    else if (mode != "rel") for (int r = 0; r < K; ++r) { fill(r, 0, 2); if (g.chance(30)) insert(r, g.chance(50)); }
    for (int k = 0; k < len; ++k) {
      int r = g.below(K), c = g.below(100);
      if (mode == "snap") { if (g.chance(60)) bin(r); else if (g.chance(50)) nested(r); else traps(r); }
      else if (mode == "wideform") { if (g.chance(60)) form(r); else traps(r); }
      else if (mode == "widerel") { if (c < 50) conn(); else if (c < 80) merge<std::set<int> >(); else interact(0); }
      else if (wide) { if (c < 50) bin(r); else if (c < 70) nested(r); else if (c < 85) selfassign(r); else query(r); }
      else if (mode == "bool") {
        if (c < 35) bin(r); else if (c < 50) nested(r); else if (c < 62) selfassign(r); else if (c < 70) container(r); else if (c < 80) insert(r, g.chance(40)); else if (c < 87) insert_set(r); else if (c < 94) copy(r); else clean(r);
      } else if (mode == "rel") {
        if (c < 40) conn(); else if (c < 55) merge<std::set<int> >(); else if (c < 60) merge<std::set<std::string> >(); else if (c < 70) merge<std::vector<int> >(); else { fill(0, 1, 4); fill(1, 0, 2); interact(0); }
      } else {
        if (c < 60) { if (mode == "query") { if (g.chance(25)) image(r); else if (g.chance(15)) keepf(r); else query(r); } else if (g.chance(60)) form(r); else traps(r); }
        else if (c < 75) bin(r); else if (c < 82) nested(r); else if (c < 90) fill(r, 1, 5); else if (c < 95) insert(r, true); else copy(r);
      }
    }
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]);
  tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i);
    Session s(g, mode); tr::begin(s.header()); s.run(mode); tr::end();
  }
  tr::close(); return 0;
}
