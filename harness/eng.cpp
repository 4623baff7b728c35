// Conformance driver for mixed use of the Manhattan, 45-degree and arbitrary-angle engines (spec/TraceEngines.tla, over Set45).
// usage: eng <mode> <seed> <ntraces> <outfile>
//   mix   registers held by different engines: conversions, mixed expressions and queries   (C18)
//   mink  Minkowski sums of regions of any engine                                           (C18)
#include "tri.hpp"
using namespace boost::polygon::operators;
typedef int T;
typedef bp::polygon_90_set_data<T> Set90; typedef bp::polygon_45_set_data<T> Set45; typedef bp::polygon_set_data<T> SetG;
typedef bp::polygon_90_data<T> Poly90; typedef bp::polygon_90_with_holes_data<T> Pwh90;
typedef bp::polygon_45_data<T> Poly45; typedef bp::polygon_45_with_holes_data<T> Pwh45;
typedef bp::polygon_data<T> PolyG; typedef bp::polygon_with_holes_data<T> PwhG;
typedef bp::rectangle_data<T> Rect;
struct Reg { int eng; bool neg = false; Set90 a; Set45 b; SetG c; Reg() : eng(1), a(bp::HORIZONTAL) {}
  template <class F> void visit(F f) { if (eng == 0) f(a); else if (eng == 1) f(b); else f(c); } };
static std::string regj(int r) { return "{\"t\":\"S\",\"r\":" + S(r + 1) + "}"; }
struct Operand { int kind, eng; Reg set; Poly90 p90; Poly45 p45; PolyG pg; Pwh90 h90; Pwh45 h45; PwhG hg; Rect rect; std::vector<Poly90> v90; std::list<Pwh45> l45; std::vector<PolyG> vg; std::string json; };
struct Session {
  static const int K = 3; Rng& g; int n; bool manh; Emb45 e; TriGen tg; Reg reg[K];
  // in a coarse session all shapes are twice as large, so that sums of triangles are unions of triangles
  bool coarse;
  Session(Rng& g_, int n_, bool m_, bool co) : g(g_), n(n_), manh(m_), e(place(g_, n_)), tg(g_, co ? n_ / 2 : n_, !m_, 0, co ? n_ / 4 : -1), coarse(co) {}
  // no rounding in any engine: lattice points keep clear of the edges (m >= 2) and the products of an intersection are exact
  static Emb45 place(Rng& g, int n) { Emb45 e; e.half = false; int k = g.below(4); e.m = k == 0 ? 2 : k == 1 ? g.range(2, 9) : k == 2 ? g.range(1000, 9999) : g.range(100, 500);
    long long big = k == 3 ? 500000000ll : k == 2 ? 30000 : 20; e.offx = g.range(0, (int)(2 * big)) - big; e.offy = g.range(0, (int)(2 * big)) - big; if (k == 0) { e.offx = -n * e.m; e.offy = -n / 3 * e.m; } return e; }
  std::string header() { return kv("n", n) + "," + kv("K", K) + "," + kv("grid", 1); }
  TShape manh_shape(bool holes) {
    for (int k = 0; k < 30; ++k) { TriGrid t(tg.n); int o[8]; tg.rnd_oct(o, true); t.octagon(o, 1); for (int i = g.below(3); i > 0; --i) { tg.rnd_oct(o, true); t.octagon(o, 1); } for (int i = g.below(3); i > 0; --i) { tg.rnd_oct(o, true); t.octagon(o, 0); }
      std::vector<Loop> ls; if (!t.loops(ls) || ls.empty()) continue; int pos = 0; for (auto& l : ls) pos += loop_area2(l) > 0; if (pos != 1 || (!holes && ls.size() > 1)) continue;
      TShape s; s.t = holes ? 'H' : 'P'; for (auto& l : ls) if (loop_area2(l) > 0) s.out = l; else s.holes.push_back(l); rotate_loop(g, s.out); for (auto& h : s.holes) rotate_loop(g, h); classify(s); return s; }
    TShape s = tg.rect(); if (holes) s.t = 'H'; return s; }
  TShape any(bool m) { TShape s = any1(m); if (coarse) { auto tw = [](Loop& l) { for (auto& q : l) { q.first *= 2; q.second *= 2; } }; tw(s.out); for (auto& h : s.holes) tw(h); } return s; }
  TShape any1(bool m) { if (!m) return tg.any(); int k = g.below(10); return k < 3 ? tg.rect() : manh_shape(k < 6); }
  static PolyG gp(const Loop& l, const Emb45& e) { return to_poly<PolyG, T>(l, e); }
  void ins(Reg& r, const TShape& s, bool hole) {
    if (r.eng == 0) { if (s.rect && g.chance(50)) r.a.insert(to_rect<T>(s, e), hole); else if (s.t == 'P') r.a.insert(to_poly<Poly90, T>(s.out, e), hole); else r.a.insert(to_pwh<Pwh90, Poly90, T>(s, e), hole); return; }
    auto put = [&](auto& q) {
      if (s.rect && g.chance(40)) q.insert(to_rect<T>(s, e), hole);
      else if (s.manh && g.chance(40)) { if (s.t == 'P') q.insert(to_poly<Poly90, T>(s.out, e), hole); else q.insert(to_pwh<Pwh90, Poly90, T>(s, e), hole); }
      else if (s.t == 'P') q.insert(to_poly<Poly45, T>(s.out, e), hole); else q.insert(to_pwh<Pwh45, Poly45, T>(s, e), hole); };
    if (r.eng == 1) put(r.b);
    else if (g.chance(50)) put(r.c); else if (s.t == 'P') r.c.insert(to_poly<PolyG, T>(s.out, e), hole); else r.c.insert(to_pwh<PwhG, PolyG, T>(s, e), hole);
  }
  std::string observe(const Reg& r0) { Reg r(r0); int how = g.below(3); std::string o;
    if (r.eng == 0) { if (how == 0) { std::vector<Poly90> v; r.a.get(v); o = obs_polys(v, e); } else if (how == 1) { std::vector<Pwh45> v; bp::assign(v, r.a); o = obs_pwhs(v, e); } else { std::vector<PwhG> v; bp::assign(v, r.a); o = obs_pwhs(v, e); } }
    else if (r.eng == 1) { if (how == 0) { std::vector<Poly45> v; r.b.get(v); o = obs_polys(v, e); } else { std::vector<PwhG> v; bp::assign(v, r.b); o = obs_pwhs(v, e); } }
    else { if (how == 0) { std::vector<PolyG> v; bp::assign(v, r.c); o = obs_polys(v, e); } else { std::list<PwhG> v; r.c.get(v); o = obs_pwhs(v, e); } }
    return o; }
  std::string robs(int r) { return "," + kv("o", observe(reg[r])); }
  void set_ori(Reg& r) { if (r.eng == 0) r.a = Set90(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); }
  void fill(int r, int lo, int hi) {
    TShapes v; int eng = g.below(3); for (int k = g.range(lo, hi); k > 0; --k) v.push_back(any(manh || eng == 0));
    guarded("insert", [&] { reg[r] = Reg(); reg[r].eng = eng; set_ori(reg[r]); for (auto& s : v) ins(reg[r], s, false); });
    tr::ev(ks("a", "Set") + "," + kv("r", r + 1) + "," + kv("x", shapes_json(v)) + robs(r)); }
  void insert(int r) { TShape s = any(manh || reg[r].eng == 0); bool hole = g.chance(40); guarded("insert", [&] { ins(reg[r], s, hole); }); reg[r].neg |= hole;
    tr::ev(ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("h", hole ? 1 : 0) + "," + kv("s", shape_json(s)) + robs(r)); }
  void clean(int r) { guarded("clean", [&] { reg[r].visit([&](auto& s) { s.clean(); }); }); reg[r].neg = false; tr::ev(ks("a", "Clean") + "," + kv("r", r + 1) + robs(r)); }
  // one region into a set of a wider engine
  void raise(int r) { int j = (r + 1 + g.below(K - 1)) % K; clean(j); int eng = g.range(reg[j].eng, 2), how = g.below(5);
    guarded("conversion", [&] { Reg q; q.eng = eng; set_ori(q); Reg& s = reg[j];
      if (eng == 0) q.a = s.a;
      else if (eng == 1) s.visit([&](auto& x) { conv(q.b, x, how); });
      else s.visit([&](auto& x) { conv(q.c, x, how); });
      reg[r] = q; });
    tr::ev(ks("a", "Copy") + "," + kv("r", r + 1) + "," + kv("s", j + 1) + robs(r)); }
  template <class D> void conv(D& d, SetG& x, int how) { if (how == 0) d = x; else if (how == 1) bp::assign(d, x); else if (how == 2) d.insert(x); else if (how == 3) d += x; else { std::vector<PwhG> v; x.get(v); d.insert(v.begin(), v.end()); } }
  void conv(Set45& d, SetG& x, int) { std::vector<PwhG> v; x.get(v); Reg q; q.eng = 1; for (auto& p : v) down(q, p); d = q.b; }
  template <class D, class X> void conv(D& d, X& x, int how) { if (how == 0) d = x; else if (how == 1) bp::assign(d, x); else if (how == 2) d.insert(x); else if (how == 3) d += x; else { std::vector<Poly45> v; bp::assign(v, x); d.insert(v.begin(), v.end()); } }
  // and back into a narrower one, polygon by polygon
  template <class H> void down(Reg& q, const H& p) {
    std::vector<bp::point_data<T> > o(bp::begin_points(p), bp::end_points(p)); if (o.size() > 1 && o.front() == o.back()) o.pop_back();
    auto fix = [&](std::vector<bp::point_data<T> > v) { // a Manhattan polygon has corners only
      if (q.eng == 0) for (size_t i = 0; v.size() > 4 && i < v.size();) { auto &a = v[(i + v.size() - 1) % v.size()], &b = v[i], &c = v[(i + 1) % v.size()]; if ((bp::x(a) == bp::x(b) && bp::x(b) == bp::x(c)) || (bp::y(a) == bp::y(b) && bp::y(b) == bp::y(c))) v.erase(v.begin() + i); else ++i; }
      if (q.eng == 0 && v.size() > 1 && bp::x(v[0]) == bp::x(v[1])) std::rotate(v.begin(), v.begin() + 1, v.end()); return v; }; o = fix(o);
    auto mk = [&](auto& h, auto pr) { typedef decltype(pr) P; bp::set_points(h, o.begin(), o.end()); std::vector<P> hs; for (auto i = bp::begin_holes(p); i != bp::end_holes(p); ++i) { std::vector<bp::point_data<T> > w(bp::begin_points(*i), bp::end_points(*i)); if (w.size() > 1 && w.front() == w.back()) w.pop_back(); w = fix(w); P x; bp::set_points(x, w.begin(), w.end()); hs.push_back(x); } bp::set_holes(h, hs.begin(), hs.end()); };
    if (q.eng == 0) { Pwh90 h; mk(h, Poly90()); q.a.insert(h); } else { Pwh45 h; mk(h, Poly45()); q.b.insert(h); } }
  void lower(int r) { int j = (r + 1 + g.below(K - 1)) % K; clean(j); int eng = manh ? g.below(2) : 1;
    guarded("conversion down", [&] { Reg q; q.eng = eng; set_ori(q); Reg& s = reg[j]; std::vector<PwhG> v; s.visit([&](auto& x) { bp::assign(v, x); }); for (auto& p : v) down(q, p); reg[r] = q; });
    tr::ev(ks("a", "Copy") + "," + kv("r", r + 1) + "," + kv("s", j + 1) + robs(r)); }
  void insert_set(int r) { int j = (r + 1 + g.below(K - 1)) % K; if (reg[j].eng > reg[r].eng) return; clean(j); bool hole = g.chance(35);
    guarded("insert set", [&] { Reg& d = reg[r]; Reg& s = reg[j];
      if (d.eng == 0) { if (!hole) d.a.insert(s.a); else for (auto i = s.a.begin(); i != s.a.end(); ++i) d.a.insert(*i, true, s.a.orient()); } else if (d.eng == 1) { if (s.eng == 0) d.b.insert(s.a, hole); else d.b.insert(s.b, hole); } else s.visit([&](auto& x) { d.c.insert(x, hole); }); }); reg[r].neg |= hole;
    tr::ev(ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("h", hole ? 1 : 0) + "," + kv("s", regj(j)) + robs(r)); }
  // the union of a set with pending holes may or may not cancel them first
  void settle(int j) { if (reg[j].neg) clean(j); }
  Operand operand() { Operand o; o.kind = g.chance(60) ? 0 : g.range(1, 10);
    auto set1 = [&](TShape s) { o.json = shape_json(s); return s; };
    switch (o.kind) {
      case 0: { int j = g.below(K); settle(j); o.set = reg[j]; o.eng = reg[j].eng; o.json = regj(j); break; }
      case 1: { TShape s = set1(tg.rect()); o.rect = to_rect<T>(s, e); o.eng = 0; break; }
      case 2: { TShape s = set1(manh_shape(false)); o.p90 = to_poly<Poly90, T>(s.out, e); o.eng = 0; break; }
      case 3: { TShape s = set1(manh_shape(true)); o.h90 = to_pwh<Pwh90, Poly90, T>(s, e); o.eng = 0; break; }
      case 4: { TShape s = set1(manh ? manh_shape(false) : tg.shape(false)); o.p45 = to_poly<Poly45, T>(s.out, e); o.eng = 1; break; }
      case 5: { TShape s = set1(manh ? manh_shape(true) : tg.shape(true)); o.h45 = to_pwh<Pwh45, Poly45, T>(s, e); o.eng = 1; break; }
      case 6: { TShape s = set1(manh ? manh_shape(false) : tg.shape(false)); o.pg = to_poly<PolyG, T>(s.out, e); o.eng = 2; break; }
      case 7: { TShape s = set1(manh ? manh_shape(true) : tg.shape(true)); o.hg = to_pwh<PwhG, PolyG, T>(s, e); o.eng = 2; break; }
      case 8: { TShapes v; for (int k = g.below(3); k > 0; --k) { v.push_back(manh_shape(false)); o.v90.push_back(to_poly<Poly90, T>(v.back().out, e)); } o.json = shapes_json(v); o.eng = 0; break; }
      case 9: { TShapes v; for (int k = g.below(3); k > 0; --k) { v.push_back(manh ? manh_shape(true) : tg.shape(true)); o.l45.push_back(to_pwh<Pwh45, Poly45, T>(v.back(), e)); } o.json = shapes_json(v); o.eng = 1; break; }
      default: { TShapes v; for (int k = g.below(3); k > 0; --k) { v.push_back(manh ? manh_shape(false) : tg.shape(false)); o.vg.push_back(to_poly<PolyG, T>(v.back().out, e)); } o.json = shapes_json(v); o.eng = 2; break; }
    } return o; }
  template <class F> static void visit(Operand& o, F f) { switch (o.kind) { case 0: o.set.visit(f); break; case 1: f(o.rect); break; case 2: f(o.p90); break; case 3: f(o.h90); break; case 4: f(o.p45); break; case 5: f(o.h45); break; case 6: f(o.pg); break; case 7: f(o.hg); break; case 8: f(o.v90); break; case 9: f(o.l45); break; default: f(o.vg); } }
  template <class A, class B, class F> static void apply(int op, const A& a, const B& b, F f) { switch (op) { case 0: f(a | b); break; case 1: f(a & b); break; case 2: f(a ^ b); break; default: f(a - b); } }
  // left operand a set, right operand anything; the result in any engine wide enough
  void bin(int r) { int j = g.below(K), op = g.below(4); settle(j); Operand B = operand(); Reg A = reg[j], q; q.eng = g.range(std::max(A.eng, B.eng), 2); set_ori(q); int how = g.below(2); bool swp = g.chance(50);
    guarded("mixed boolean", [&] { A.visit([&](auto& a) { visit(B, [&](auto& b) {
        auto fin = [&](const auto& v) { store(q, v, how); };
        if (swp) apply(op, b, a, fin); else apply(op, a, b, fin); }); });
      if (op == 0) q.visit([&](auto& s) { s.clean(); }); reg[r] = q; });
    tr::ev(ks("a", "Bin") + "," + kv("eng", q.eng) + "," + kv("r", r + 1) + "," + kv("op", op) + "," + kv("x", swp ? B.json : regj(j)) + "," + kv("y", swp ? regj(j) : B.json) + robs(r)); }
  template <class C> static auto rank(const C&) { typedef typename bp::geometry_concept<C>::type G; return std::integral_constant<int, std::is_same<G, bp::polygon_90_set_concept>::value ? 0 : std::is_same<G, bp::polygon_45_set_concept>::value ? 1 : 2>(); }
  template <class V> static void store(Reg& q, const V& v, int how) { typedef decltype(rank(v)) R; store2(q, v, how, R()); }
  template <class V> static void store2(Reg& q, const V& v, int how, std::integral_constant<int, 0>) { if (q.eng == 0) bp::assign(q.a, v); else store2(q, v, how, std::integral_constant<int, 1>()); }
  template <class V> static void store2(Reg& q, const V& v, int how, std::integral_constant<int, 1>) { if (q.eng == 1) { if (how) q.b = v; else bp::assign(q.b, v); } else store2(q, v, how, std::integral_constant<int, 2>()); }
  template <class V> static void store2(Reg& q, const V& v, int how, std::integral_constant<int, 2>) { if (how) q.c = v; else bp::assign(q.c, v); }
  void nested(int r) { int i = g.below(K), j = g.below(K), k = g.below(K), op1 = g.below(4), op2 = g.below(4), side = g.below(2); settle(i); settle(j); settle(k); Reg A = reg[i], B = reg[j], C = reg[k], q; q.eng = 2;
    auto ej = [](int op, const std::string& x, const std::string& y) { return "{\"t\":\"E\",\"op\":" + S(op) + ",\"x\":" + x + ",\"y\":" + y + "}"; };
    std::string in = ej(op1, regj(i), regj(j)), ex = side ? ej(op2, regj(k), in) : ej(op2, in, regj(k));
    guarded("nested mixed boolean", [&] { A.visit([&](auto& a) { B.visit([&](auto& b) { C.visit([&](auto& c) { apply(op1, a, b, [&](const auto& v) { auto fin = [&](const auto& w) { bp::assign(q.c, w); }; if (side) apply(op2, c, v, fin); else apply(op2, v, c, fin); }); }); }); }); q.c.clean(); reg[r] = q; });
    tr::ev(ks("a", "Asg") + "," + kv("r", r + 1) + "," + kv("x", ex) + robs(r)); }
  void selfassign(int r) { Operand B = operand(); if (B.eng > reg[r].eng) return; int op = 1 + g.below(3); settle(r);
    guarded("mixed self assignment", [&] { visit(B, [&](auto& b) { upd(reg[r], b, op); }); });
    tr::ev(ks("a", "BinA") + "," + kv("r", r + 1) + "," + kv("op", op) + "," + kv("y", B.json) + robs(r)); }
  template <class D, class X> static void upd1(D& d, const X& x, int op) { if (op == 1) d &= x; else if (op == 2) d ^= x; else d -= x; }
  template <class X> static int wide(const X&) { return 2; }
  template <class X> struct Eng { static const int v = std::is_same<X, Set90>::value || std::is_same<X, Rect>::value || std::is_same<X, Poly90>::value || std::is_same<X, Pwh90>::value || std::is_same<X, std::vector<Poly90> >::value ? 0 : std::is_same<X, Set45>::value || std::is_same<X, Poly45>::value || std::is_same<X, Pwh45>::value || std::is_same<X, std::list<Pwh45> >::value ? 1 : 2; };
  template <class X> static void upd(Reg& q, const X& x, int op) { upd2(q, x, op, std::integral_constant<int, Eng<X>::v>()); }
  template <class X> static void upd2(Reg& q, const X& x, int op, std::integral_constant<int, 0>) { if (q.eng == 0) upd1(q.a, x, op); else upd2(q, x, op, std::integral_constant<int, 1>()); }
  template <class X> static void upd2(Reg& q, const X& x, int op, std::integral_constant<int, 1>) { if (q.eng == 1) upd1(q.b, x, op); else upd1(q.c, x, op); }
  template <class X> static void upd2(Reg& q, const X& x, int op, std::integral_constant<int, 2>) { upd1(q.c, x, op); }
  void query(int r) { int how = g.below(5);
    if (how < 2) { Operand B = operand(); Reg A = reg[r]; bool eq = false, sw = g.chance(50); guarded("equivalence", [&] { A.visit([&](auto& a) { visit(B, [&](auto& b) { eq = sw ? bp::equivalence(b, a) : bp::equivalence(a, b); }); }); });
      tr::ev(ks("a", "Eq") + "," + kv("x", regj(r)) + "," + kv("y", B.json) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", eq ? 0 : 1)); }
    else if (how == 2) { // rebuilt in the widest engine it is still the same region
      Reg A = reg[r], q; q.eng = 2; bool eq = false; guarded("rebuild", [&] { A.visit([&](auto& a) { a.clean(); std::vector<PwhG> v; bp::assign(v, a); q.c.insert(v.begin(), v.end()); eq = bp::equivalence(a, q.c) && bp::equivalence(q.c, a); }); });
      tr::ev(ks("a", "Eq") + "," + kv("x", regj(r)) + "," + kv("y", regj(r)) + "," + kv("res", eq ? 1 : 0) + "," + kv("neg", eq ? 0 : 1)); }
    else if (how == 3) { Reg A = reg[r]; long double w = 0; guarded("area", [&] { A.visit([&](auto& a) { w = (long double)bp::area(a); }); }); w /= (long double)e.m * e.m; tr::ev(ks("a", "Area") + "," + kv("x", regj(r)) + "," + kv("res", w >= 0 && w < 1e6L && w == (long long)w ? (long long)w : -1)); }
    else { Reg A = reg[r]; bool em = false; guarded("empty", [&] { A.visit([&](auto& a) { em = bp::empty(a); }); }); tr::ev(ks("a", "Empty") + "," + kv("x", regj(r)) + "," + kv("res", em ? 1 : 0)); } }
  void mink(int r) { int i = g.below(2), j = g.chance(20) ? i : g.below(2); Reg A = reg[i], B = reg[j], q; q.eng = 2;
    guarded("minkowski", [&] { SetG a, b; A.visit([&](auto& s) { bp::assign(a, s); }); B.visit([&](auto& s) { bp::assign(b, s); });
      if (g.chance(30)) q.c.insert(to_rect<T>(tg.rect(), e)); // the result is replaced
      bp::detail::minkowski_offset<T>::convolve_two_polygon_sets(q.c, a, b);
      std::vector<PwhG> v; q.c.get(v); SetG m; for (auto& p : v) m.insert(bp::move(bp::move(p, bp::HORIZONTAL, (T)-e.offx), bp::VERTICAL, (T)-e.offy)); q.c = m; reg[r] = q; });
    tr::ev(ks("a", "Mink") + "," + kv("r", r + 1) + "," + kv("x", regj(i)) + "," + kv("y", regj(j)) + robs(r)); }
  void run(const std::string& mode) {
    if (mode == "mink") { fill(0, 0, 2); fill(1, 0, 2); if (g.chance(30)) insert(0); mink(2); if (g.chance(40)) query(2); return; }
    for (int r = 0; r < K; ++r) fill(r, 0, 3);
    for (int k = g.range(4, 9); k > 0; --k) { int r = g.below(K), c = g.below(100);
      if (c < 30) bin(r); else if (c < 38) nested(r); else if (c < 48) selfassign(r); else if (c < 58) insert_set(r); else if (c < 66) insert(r); else if (c < 74) raise(r); else if (c < 80) lower(r); else query(r); } }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]); tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) { Rng g(seed * 1000003ull + (uint64_t)i); bool mk = mode == "mink"; int n = mk ? (g.chance(85) ? 8 : g.chance(50) ? 4 : 12) : g.chance(60) ? g.range(2, 4) : g.range(4, 5);
    Session s(g, n, g.chance(50), mk); tr::begin(s.header()); s.run(mode); tr::end(); }
  tr::close(); return 0;
}
