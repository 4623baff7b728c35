// Conformance driver for directions, orientations, axis transformations, scale factors and transformations (spec/TraceIso.tla).
// usage: iso <mode> <seed> <ntraces> <outfile>
//   dirs   every question about directions and orientations     (C26)
//   maps   registers of maps: composition, inverses, images     (C26)
#include "common.hpp"
#include <boost/polygon/polygon.hpp>
namespace bp = boost::polygon;
typedef bp::axis_transformation Ax; typedef bp::direction_1d D1; typedef bp::direction_2d D2; typedef bp::orientation_2d O2; typedef bp::direction_3d D3; typedef bp::orientation_3d O3;
static D1 d1(int v) { return D1((bp::direction_1d_enum)v); }
static D2 d2(int v) { return D2((bp::direction_2d_enum)v); }
static O2 o2(int v) { return O2((bp::orientation_2d_enum)v); }
static D3 d3(int v) { return v < 4 ? D3((bp::direction_2d_enum)v) : D3(v == 4 ? bp::DOWN : bp::UP); }
static O3 o3(int v) { return v < 2 ? O3(o2(v)) : O3(bp::PROXIMAL); }
template <class X> std::string cmps(X a, X b) { return "[" + S(a < b) + "," + S(a <= b) + "," + S(a > b) + "," + S(a >= b) + "," + S(a == b) + "," + S(a != b) + "]"; }
static void dirs(Rng& g) {
  { int v = g.below(2), w = g.below(2); D1 a = d1(v), b(a), c; int r[5]; guarded("direction_1d", [&] { c = D1(); r[0] = (int)a.to_int(); r[1] = a.get_sign(); D1& q = b.backward(); r[2] = (int)b.to_int(); r[3] = &q == &b; r[4] = (int)c.to_int(); c = a; });
    tr::ev(ks("a", "D1") + "," + kv("d", v) + "," + kv("b", w) + "," + kv("r", arr(std::vector<int>(r, r + 5))) + "," + kv("eq", "[" + S(a == d1(w)) + "," + S(a != d1(w)) + "," + S(c == a) + "]")); }
  { int v = g.below(2), w = g.below(2); O2 a = o2(v), b(a), c; std::vector<int> r; guarded("orientation_2d", [&] { c = O2(); r.push_back((int)a.to_int()); r.push_back((int)a.get_perpendicular().to_int()); b.turn_90(); r.push_back((int)b.to_int()); r.push_back((int)a.get_direction(bp::LOW).to_int()); r.push_back((int)a.get_direction(bp::HIGH).to_int()); r.push_back((int)c.to_int()); c = a; });
    tr::ev(ks("a", "O2") + "," + kv("d", v) + "," + kv("b", w) + "," + kv("r", arr(r)) + "," + kv("eq", "[" + S(a == o2(w)) + "," + S(a != o2(w)) + "," + S(c == a) + "]")); }
  { int v = g.below(4), w = g.below(4); D2 a = d2(v), c; std::vector<int> r; guarded("direction_2d", [&] { c = D2(); r = {(int)a.to_int(), (int)a.backward().to_int(), (int)a.turn(bp::LOW).to_int(), (int)a.turn(bp::HIGH).to_int(), (int)a.left().to_int(), (int)a.right().to_int(), a.is_positive(), a.is_negative(), a.get_sign(), (int)O2(a).to_int(), (int)D1(a).to_int(), (int)c.to_int(), (int)O3(a).to_int(), (int)D3(a).to_int()}; c = a; r.push_back((int)c.to_int()); });
    tr::ev(ks("a", "D2") + "," + kv("d", v) + "," + kv("b", w) + "," + kv("r", arr(r)) + "," + kv("c", cmps(a, d2(w)))); }
  { int v = g.below(3), w = g.below(3); O3 a = o3(v), c; std::vector<int> r; guarded("orientation_3d", [&] { c = O3(); r = {(int)a.to_int(), (int)a.get_direction(bp::LOW).to_int(), (int)a.get_direction(bp::HIGH).to_int(), (int)c.to_int()}; c = a; });
    tr::ev(ks("a", "O3") + "," + kv("d", v) + "," + kv("b", w) + "," + kv("r", arr(r)) + "," + kv("eq", "[" + S(a == o3(w)) + "," + S(a != o3(w)) + "," + S(c == a) + "]")); }
  { int v = g.below(6), w = g.below(6); D3 a = d3(v), c; std::vector<int> r; guarded("direction_3d", [&] { c = D3(); r = {(int)a.to_int(), (int)a.backward().to_int(), a.is_positive(), a.is_negative(), a.get_sign(), (int)O3(a).to_int(), (int)D1(a).to_int(), (int)c.to_int()}; c = a; r.push_back((int)c.to_int()); });
    tr::ev(ks("a", "D3") + "," + kv("d", v) + "," + kv("b", w) + "," + kv("r", arr(r)) + "," + kv("c", cmps(a, d3(w)))); }
}
template <class C> struct Maps {
  typedef bp::transformation<C> Tr; typedef bp::point_data<C> Pt; typedef bp::anisotropic_scale_factor<double> Sc;
  static const int K = 3; Rng& g; Ax ax[K]; Tr tr_[K]; Sc sc[K]; 
  Maps(Rng& g_) : g(g_) {}
  Pt pt() { return Pt((C)g.range(-50, 50), (C)g.range(-50, 50)); }
  static std::string pj(const Pt& p) { return "[" + S((long long)p.x()) + "," + S((long long)p.y()) + "]"; }
  static Ax::ATR atr(int v) { return (Ax::ATR)v; }
  // what an axis transformation does to the unit vectors, and its directions
  std::string axj(const Ax& a) { int x0 = 1, y0 = 0, x1 = 0, y1 = 1; D2 h, v; Ax::INDIVIDUAL_AXIS ia[2]; guarded("axis images", [&] { a.transform(x0, y0); a.transform(x1, y1); a.get_directions(h, v); a.populate_axis_array(ia); });
    Ax w; w.write_back_axis_array(ia); Ax u; u.set_directions(h, v);
    return kv("m", "[" + S(x0) + "," + S(y0) + "," + S(x1) + "," + S(y1) + "]") + "," + kv("hd", (long long)h.to_int()) + "," + kv("vd", (long long)v.to_int()) + "," + kv("ia", "[" + S((int)ia[0]) + "," + S((int)ia[1]) + "]") + "," + kv("rt", w == a && !(w != a) && u == a ? 1 : 0); }
  void axes() { int r = g.below(K), i = g.below(K), j = g.below(K); std::string op; std::string ex;
    guarded("axis transformation", [&] { switch (g.below(9)) {
      case 0: { int v = g.below(8); op = "make"; ex = "," + kv("v", v); if (g.chance(50)) ax[r] = Ax(atr(v)); else ax[r] = atr(v); break; }
      case 1: op = "id"; ax[r] = Ax(); break;
      case 2: op = "copy"; ax[r] = ax[i]; break;
      case 3: op = "comp"; ax[r] = ax[i] + ax[j]; break;
      case 4: op = "comp"; i = r; ax[r] += ax[j]; break;
      case 5: op = "inv"; ax[r] = ax[i].inverse(); break;
      case 6: op = "inv"; i = r; ax[r].invert(); break;
      case 7: { op = "comp"; Ax::INDIVIDUAL_AXIS a[2], b[2]; ax[i].populate_axis_array(a); ax[j].populate_axis_array(b); Ax::combine_axis_arrays(a, b); ax[r].write_back_axis_array(a); break; }
      default: { int h = g.below(4), v = (h < 2 ? 2 : 0) + g.below(2); op = "dirs"; ex = "," + kv("dh", h) + "," + kv("dv", v); ax[r].set_directions(d2(h), d2(v)); } } });
    tr::ev(ks("a", "Ax") + "," + ks("op", op) + "," + kv("r", r + 1) + "," + kv("i", i + 1) + "," + kv("j", j + 1) + ex + "," + axj(ax[r])); }
  void axcmp() { int i = g.below(K), j = g.below(K); tr::ev(ks("a", "AxCmp") + "," + kv("i", i + 1) + "," + kv("j", j + 1) + "," + kv("res", "[" + S(ax[i] == ax[j]) + "," + S(ax[i] != ax[j]) + "," + S((ax[i] < ax[j]) + (ax[j] < ax[i])) + "]")); }
  std::string trj(const Tr& t) { C x0 = 0, y0 = 0, x1 = 1, y1 = 0, x2 = 0, y2 = 1; Pt p; D2 h, v; guarded("images", [&] { t.transform(x0, y0); t.transform(x1, y1); t.transform(x2, y2); t.get_translation(p); t.get_directions(h, v); });
    return kv("z", "[" + S((long long)x0) + "," + S((long long)y0) + "]") + "," + kv("m", "[" + S((long long)(x1 - x0)) + "," + S((long long)(y1 - y0)) + "," + S((long long)(x2 - x0)) + "," + S((long long)(y2 - y0)) + "]") + "," + kv("t", pj(p)) + "," + kv("hd", (long long)h.to_int()) + "," + kv("vd", (long long)v.to_int()); }
  bool small(const Tr& t) { Pt p; t.get_translation(p); return std::abs((long long)p.x()) < 100000 && std::abs((long long)p.y()) < 100000; }
  void trans() { int r = g.below(K), i = g.below(K), j = g.below(K); std::string op, ex; Pt p = pt(), q = pt(); if (!small(tr_[i]) || !small(tr_[j])) return;
    guarded("transformation", [&] { switch (g.below(11)) {
      case 0: op = "id"; tr_[r] = Tr(); break;
      case 1: op = "axis"; ex = "," + kv("x", i + 1); if (g.chance(50)) tr_[r] = Tr(ax[i]); else { int e = 0; for (; e < 7 && !(Ax(atr(e)) == ax[i]); ++e); tr_[r] = Tr(atr(e)); } break;
      case 2: op = "move"; ex = "," + kv("p", pj(p)); tr_[r] = Tr(p); break;
      case 3: op = "both"; ex = "," + kv("x", i + 1) + "," + kv("p", pj(p)); tr_[r] = Tr(ax[i], p); break;
      case 4: op = "about"; ex = "," + kv("x", i + 1) + "," + kv("p", pj(p)) + "," + kv("q", pj(q)); tr_[r] = Tr(ax[i], p, q); break;
      case 5: op = "copy"; tr_[r] = Tr(tr_[i]); break;
      case 6: op = "comp"; if (g.chance(50)) tr_[r] = tr_[i] + tr_[j]; else { i = r; tr_[r] += tr_[j]; } break;
      case 7: op = "inv"; if (g.chance(50)) tr_[r] = tr_[i].inverse(); else { i = r; tr_[r].invert(); } break;
      case 8: op = "setax"; ex = "," + kv("x", i + 1); tr_[r].set_axis_transformation(ax[i]); break;
      case 9: op = "setp"; ex = "," + kv("p", pj(p)); tr_[r].set_translation(p); break;
      default: op = "getax"; ax[r] = tr_[i].get_axis_transformation(); tr::ev(ks("a", "Ax") + "," + ks("op", "get") + "," + kv("r", r + 1) + "," + kv("i", i + 1) + "," + kv("j", j + 1) + "," + axj(ax[r])); return; } });
    if (op == "getax") return;
    tr::ev(ks("a", "Tr") + "," + ks("op", op) + "," + kv("r", r + 1) + "," + kv("i", i + 1) + "," + kv("j", j + 1) + ex + "," + trj(tr_[r])); }
  void image() { int i = g.below(K); Pt p = pt(), q = p; C x = p.x(), y = p.y(); bool ob = g.chance(50); guarded("image", [&] { if (ob) bp::transform(q, tr_[i]); else { tr_[i].transform(x, y); q = Pt(x, y); } }); tr::ev(ks("a", "Img") + "," + kv("i", i + 1) + "," + kv("p", pj(p)) + "," + kv("q", pj(q))); }
  void trcmp() { int i = g.below(K), j = g.below(K); tr::ev(ks("a", "TrCmp") + "," + kv("i", i + 1) + "," + kv("j", j + 1) + "," + kv("res", "[" + S(tr_[i] == tr_[j]) + "," + S(tr_[i] != tr_[j]) + "," + S((tr_[i] < tr_[j]) + (tr_[j] < tr_[i])) + "]")); }
  static std::string sf(double v) { return S((long long)(v * 64)); } // factors are signed powers of two, kept between 2^-6 and 2^6
  double fac() { int e = g.range(-3, 3); return (g.chance(30) ? -1 : 1) * std::ldexp(1.0, e); }
  bool fits(double a) { return std::fabs(a) <= 64 && std::fabs(a) >= 1.0 / 64; }
  void scales() { int r = g.below(K), i = g.below(K), j = g.below(K); std::string op, ex; Sc n = sc[r]; double u = fac(), v = fac(); 
    guarded("scale factor", [&] { switch (g.below(7)) {
      case 0: op = "make"; n = Sc(u, v); break;
      case 1: op = "one"; n = Sc(); break;
      case 2: op = "comp"; if (g.chance(50)) n = sc[i] + sc[j]; else { i = r; n += sc[j]; } break;
      case 3: op = "inv"; i = r; n.invert(); break;
      case 4: op = "axis"; ex = "," + kv("x", j + 1); i = r; n.transform(ax[j]); break;
      case 5: { op = "set"; i = r; int o = g.below(2); ex = "," + kv("o", o); if (g.chance(50)) n.set(o2(o), u); else if (o) n.y(u); else n.x(u); break; }
      default: op = "copy"; n = sc[i]; } });
    if (!fits(n.x()) || !fits(n.y())) return; sc[r] = n;
    tr::ev(ks("a", "Sc") + "," + ks("op", op) + "," + kv("r", r + 1) + "," + kv("i", i + 1) + "," + kv("j", j + 1) + ex + "," + kv("u", sf(u)) + "," + kv("w", sf(v)) + "," + kv("s", "[" + sf(n.x()) + "," + sf(n.y()) + "," + sf(n.get(bp::HORIZONTAL)) + "," + sf(n.get(bp::VERTICAL)) + "]")); }
  void scaled() { int i = g.below(K); Pt p = pt(), q = p; C x = p.x(), y = p.y(); bool ob = g.chance(50); guarded("scaled", [&] { if (ob) bp::scale(q, sc[i]); else { sc[i].scale(x, y); q = Pt(x, y); } }); tr::ev(ks("a", "Scaled") + "," + kv("i", i + 1) + "," + kv("p", pj(p)) + "," + kv("q", pj(q))); }
  void run() { for (int k = g.range(10, 24); k > 0; --k) { int c = g.below(100); if (c < 25) axes(); else if (c < 32) axcmp(); else if (c < 60) trans(); else if (c < 70) image(); else if (c < 78) trcmp(); else if (c < 92) scales(); else scaled(); } }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]); tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) { Rng g(seed * 1000003ull + (uint64_t)i); tr::begin(kv("K", 3));
    if (mode == "dirs") for (int k = 0; k < 4; ++k) dirs(g); else if (g.chance(50)) { Maps<int> m(g); m.run(); } else { Maps<long long> m(g); m.run(); }
    tr::end(); }
  tr::close(); return 0;
}
