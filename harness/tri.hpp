// Random 45-degree geometry on the triangle grid of spec/Tri.tla (doubled
// coordinates 0..2n) and its embeddings into real coordinates.
#ifndef VERIF_TRI_HPP
#define VERIF_TRI_HPP
#include "common.hpp"
#include <boost/polygon/polygon.hpp>
namespace bp = boost::polygon;
typedef std::pair<int,int> IPt;
typedef std::vector<IPt> Loop;
struct TShape { char t; Loop out; std::vector<Loop> holes; bool rect, manh; };   // 'P' polygon, 'H' polygon with holes
typedef std::vector<TShape> TShapes;

inline std::string loop_json(const Loop& l) {
  std::string s = "[";
  for (size_t i = 0; i < l.size(); ++i) { if (i) s += ","; s += std::to_string(l[i].first) + "," + std::to_string(l[i].second); }
  return s + "]";
}
inline std::string shape_json(const TShape& s) {
  if (s.t == 'P') return "{\"t\":\"P\",\"v\":" + loop_json(s.out) + "}";
  std::vector<std::string> h; for (auto& x : s.holes) h.push_back(loop_json(x));
  return "{\"t\":\"H\",\"v\":" + loop_json(s.out) + ",\"h\":" + arrs(h) + "}";
}
inline std::string shapes_json(const TShapes& v) {
  std::vector<std::string> p; for (auto& s : v) p.push_back(shape_json(s));
  return "{\"t\":\"L\",\"s\":" + arrs(p) + "}";
}
inline long loop_area2(const Loop& l) {
  long s = 0;
  for (size_t i = 0; i < l.size(); ++i) { const IPt& a = l[i]; const IPt& b = l[(i + 1) % l.size()]; s += (long)a.first * b.second - (long)b.first * a.second; }
  return s;
}
struct TriGrid {
  int n; std::vector<char> c;
  explicit TriGrid(int n_) : n(n_), c(4 * n_ * n_, 0) {}
  static void tri(int x, int y, int k, IPt p[3]) {
    x *= 2; y *= 2; IPt m(x + 1, y + 1), a(x, y), b(x + 2, y), d(x + 2, y + 2), e(x, y + 2);
    p[2] = m;
    if (k == 0) { p[0] = a; p[1] = b; } else if (k == 1) { p[0] = b; p[1] = d; } else if (k == 2) { p[0] = d; p[1] = e; } else { p[0] = e; p[1] = a; }
  }
  // all cells of the octagon xl<=x<=xh, yl<=y<=yh, sl<=x+y<=sh, dl<=x-y<=dh (doubled coordinates)
  void octagon(const int o[8], char v) {
    for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) for (int k = 0; k < 4; ++k) {
      IPt p[3]; tri(x, y, k, p); bool in = true;
      for (int i = 0; i < 3; ++i) { int X = p[i].first, Y = p[i].second; if (X < o[0] || X > o[1] || Y < o[2] || Y > o[3] || X + Y < o[4] || X + Y > o[5] || X - Y < o[6] || X - Y > o[7]) in = false; }
      if (in) c[4 * (y * n + x) + k] = v;
    }
  }
  // boundary loops, region on the left; false if some point has two outgoing edges (corner touch)
  bool loops(std::vector<Loop>& res) const {
    std::set<std::pair<IPt, IPt> > es;
    for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) for (int k = 0; k < 4; ++k) if (c[4 * (y * n + x) + k]) {
      IPt p[3]; tri(x, y, k, p);
      for (int i = 0; i < 3; ++i) { std::pair<IPt, IPt> e(p[i], p[(i + 1) % 3]), r(e.second, e.first); if (!es.erase(r)) es.insert(e); }
    }
    std::map<IPt, IPt> nxt;
    for (auto& e : es) if (!nxt.insert(e).second) return false;
    while (!nxt.empty()) {
      IPt s = nxt.begin()->first, p = s; Loop l, m;
      do { l.push_back(p); auto it = nxt.find(p); IPt q = it->second; nxt.erase(it); p = q; } while (p != s);
      for (size_t i = 0; i < l.size(); ++i) {
        IPt a = l[(i + l.size() - 1) % l.size()], b = l[i], d = l[(i + 1) % l.size()];
        if ((long)(b.first - a.first) * (d.second - b.second) == (long)(d.first - b.first) * (b.second - a.second)) continue;
        m.push_back(b);
      }
      res.push_back(m);
    }
    return true;
  }
};
inline void rotate_loop(Rng& g, Loop& l) {
  std::rotate(l.begin(), l.begin() + g.below((int)l.size()), l.end());
  if (g.chance(50)) std::reverse(l.begin(), l.end());
}
inline void classify(TShape& s) {
  auto manh = [](const Loop& l) { for (size_t i = 0; i < l.size(); ++i) { const IPt &a = l[i], &b = l[(i + 1) % l.size()]; if (a.first != b.first && a.second != b.second) return false; } return true; };
  s.manh = manh(s.out); for (auto& h : s.holes) s.manh = s.manh && manh(h);
  s.rect = s.manh && s.out.size() == 4 && s.holes.empty();
}
struct TriGen {
  Rng& g; int n; bool centre; int lo, hi;   // vertices at centres allowed; square range [lo, hi)
  TriGen(Rng& g_, int n_, bool c_, int lo_ = 0, int hi_ = -1) : g(g_), n(n_), centre(c_), lo(lo_), hi(hi_ < 0 ? n_ : hi_) {}
  void rnd_oct(int o[8], bool manh = false) {
    int m = hi - lo;
    for (int k = 0; k < 2; ++k) { int lim = g.chance(50) ? std::min(m, 1 + m / 2) : m; int w = g.range(1, lim), a = lo + g.range(0, m - w); o[2 * k] = 2 * a; o[2 * k + 1] = 2 * (a + w); }
    o[4] = -999; o[5] = 999; o[6] = -999; o[7] = 999;
    if (manh) return;
    auto ev = [](int v) { return v & ~1; };
    for (int k = 0; k < 2; ++k) { // cuts
      int a = k ? o[0] - o[3] : o[0] + o[2], b = k ? o[1] - o[2] : o[1] + o[3];
      if (g.chance(55)) o[4 + 2 * k] = ev(a + g.range(0, b - a - 1));
      if (g.chance(45)) o[5 + 2 * k] = ev(std::max(a + 2, b - g.range(0, b - a - 1)));
    }
  }
  // a region as a shape list is never empty; falls back to a rectangle
  TShape rect() { TShape s; s.t = 'P'; int o[8]; rnd_oct(o, true); s.out = {IPt(o[0], o[2]), IPt(o[1], o[2]), IPt(o[1], o[3]), IPt(o[0], o[3])}; rotate_loop(g, s.out); classify(s); return s; }
  TShape shape(bool holes) {
    for (int attempt = 0; attempt < 40; ++attempt) {
      TriGrid t(n); int o[8];
      rnd_oct(o); t.octagon(o, 1);
      int k = g.below(10);
      if (k < 4) { rnd_oct(o); t.octagon(o, 1); }
      if (k < 2) { rnd_oct(o); t.octagon(o, 1); }
      if (k >= 8 && centre) { // ragged growth
        int x = lo + g.below(hi - lo), y = lo + g.below(hi - lo), q = g.below(4);
        for (int i = g.range(2, 20); i > 0; --i) { t.c[4 * (y * n + x) + q] = 1; int d = g.below(3);
          if (d == 0) q = (q + 1) % 4; else if (d == 1) q = (q + 3) % 4; else { int X = x + (q == 1) - (q == 3), Y = y + (q == 2) - (q == 0); if (X >= lo && Y >= lo && X < hi && Y < hi) { x = X; y = Y; q = (q + 2) % 4; } } }
      }
      if (holes || g.chance(25)) for (int i = g.range(1, 2); i > 0; --i) { rnd_oct(o); if (holes) { for (int j = 0; j < 2; ++j) { if (o[2 * j + 1] - o[2 * j] > 4) o[2 * j + 1] = o[2 * j] + 4; } } t.octagon(o, 0); }
      std::vector<Loop> ls; if (!t.loops(ls) || ls.empty()) continue;
      int pos = 0; bool odd = false;
      for (auto& l : ls) { if (loop_area2(l) > 0) ++pos; for (auto& p : l) if (p.first & 1) odd = true; }
      if (pos != 1 || (odd && !centre)) continue;
      TShape s; s.t = holes ? 'H' : 'P';
      for (auto& l : ls) if (loop_area2(l) > 0) s.out = l; else if (holes) s.holes.push_back(l);
      if (holes && s.holes.empty() && attempt < 30) continue;
      rotate_loop(g, s.out); for (auto& h : s.holes) rotate_loop(g, h);
      classify(s); return s;
    }
    TShape s = rect(); if (holes) s.t = 'H'; return s;
  }
  TShape any() { int k = g.below(10); return k < 3 ? rect() : k < 7 ? shape(false) : shape(true); }
};
// lib = off + m * d, or off + d / 2 when half
struct Emb45 {
  long long offx, offy, m; bool half;
  static Emb45 make(Rng& g, int n, bool half) {
    Emb45 e; e.half = half; e.m = 1;
    int k = g.below(6);
    if (!half && k >= 3) e.m = k == 3 ? g.range(2, 9) : k == 4 ? g.range(1000, 9999) : g.range(1000000, 40000000);
    long long big = k == 2 ? 500000000ll : k == 1 ? 30000 : 20;
    e.offx = (long long)(g.next() % (uint64_t)(2 * big + 1)) - big; e.offy = (long long)(g.next() % (uint64_t)(2 * big + 1)) - big;
    if (k == 0) { e.offx = -(half ? n / 2 : n) * e.m; e.offy = -n / 3 * e.m; }
    return e;
  }
  long long x(int d) const { return offx + (half ? d / 2 : m * d); }
  long long y(int d) const { return offy + (half ? d / 2 : m * d); }
  int back(long long v) const { if (half) return (int)std::max(-9ll, std::min(9999ll, v * 2)); if (v % m) return -9; return (int)std::max(-9ll, std::min(9999ll, v / m)); }
  int rx(long long v) const { return back(v - offx); }
  int ry(long long v) const { return back(v - offy); }
};
template <class T> std::vector<bp::point_data<T> > to_pts(const Loop& l, const Emb45& e) {
  std::vector<bp::point_data<T> > v; for (auto& p : l) v.push_back(bp::point_data<T>((T)e.x(p.first), (T)e.y(p.second))); return v;
}
template <class P, class T> P to_poly(const Loop& l, const Emb45& e) { P p; auto v = to_pts<T>(l, e); bp::set_points(p, v.begin(), v.end()); return p; }
template <class H, class P, class T> H to_pwh(const TShape& s, const Emb45& e) {
  H p; auto v = to_pts<T>(s.out, e); bp::set_points(p, v.begin(), v.end());
  std::vector<P> hs; for (auto& h : s.holes) hs.push_back(to_poly<P, T>(h, e)); bp::set_holes(p, hs.begin(), hs.end()); return p;
}
template <class T> bp::rectangle_data<T> to_rect(const TShape& s, const Emb45& e) {
  int xl = 9999, yl = 9999, xh = -1, yh = -1; for (auto& p : s.out) { xl = std::min(xl, p.first); xh = std::max(xh, p.first); yl = std::min(yl, p.second); yh = std::max(yh, p.second); }
  return bp::rectangle_data<T>((T)e.x(xl), (T)e.y(yl), (T)e.x(xh), (T)e.y(yh));
}
template <class It> std::string pts_d(It b, It en, const Emb45& e) {
  std::string s = "["; for (bool f = true; b != en; ++b, f = false) { if (!f) s += ","; s += S(e.rx((long long)bp::x(*b))) + "," + S(e.ry((long long)bp::y(*b))); } return s + "]";
}
// a closing point equal to the first is dropped
template <class P> std::string poly_d(const P& p, const Emb45& e) {
  std::vector<std::pair<long long, long long> > v; for (auto i = bp::begin_points(p); i != bp::end_points(p); ++i) v.push_back(std::make_pair((long long)bp::x(*i), (long long)bp::y(*i)));
  if (v.size() > 1 && v.front() == v.back()) v.pop_back();
  std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += S(e.rx(v[i].first)) + "," + S(e.ry(v[i].second)); } return s + "]";
}
template <class C> std::string obs_polys(const C& c, const Emb45& e) { std::vector<std::string> v; for (auto& p : c) v.push_back(poly_d(p, e)); return "{\"k\":\"P\",\"v\":" + arrs(v) + "}"; }
template <class C> std::string obs_pwhs(const C& c, const Emb45& e) {
  std::vector<std::string> v;
  for (auto& p : c) { std::vector<std::string> h; for (auto j = bp::begin_holes(p); j != bp::end_holes(p); ++j) h.push_back(poly_d(*j, e)); v.push_back("{\"v\":" + poly_d(p, e) + ",\"h\":" + arrs(h) + "}"); }
  return "{\"k\":\"H\",\"v\":" + arrs(v) + "}";
}
#endif
