// Random Manhattan geometry in rank space (cells 0..n-1 on each axis) and the
// monotone embeddings that carry it to real coordinates and back.
#ifndef VERIF_MANH_HPP
#define VERIF_MANH_HPP
#include "common.hpp"
#include <boost/polygon/polygon.hpp>
namespace bp = boost::polygon;

typedef std::pair<int,int> IPt;
typedef std::vector<IPt> Loop;

struct Shape {              // 'R' rect, 'P' polygon, 'H' polygon with holes
  char t;
  int r[4];                 // xl yl xh yh
  Loop out;
  std::vector<Loop> holes;
};
typedef std::vector<Shape> Shapes;

inline std::string loop_json(const Loop& l) {
  std::string s = "[";
  for (size_t i = 0; i < l.size(); ++i) { if (i) s += ","; s += std::to_string(l[i].first) + "," + std::to_string(l[i].second); }
  return s + "]";
}
inline std::string shape_json(const Shape& s) {
  if (s.t == 'R') return "{\"t\":\"R\",\"v\":[" + S(s.r[0]) + "," + S(s.r[1]) + "," + S(s.r[2]) + "," + S(s.r[3]) + "]}";
  if (s.t == 'P') return "{\"t\":\"P\",\"v\":" + loop_json(s.out) + "}";
  std::vector<std::string> h;
  for (size_t i = 0; i < s.holes.size(); ++i) h.push_back(loop_json(s.holes[i]));
  return "{\"t\":\"H\",\"v\":" + loop_json(s.out) + ",\"h\":" + arrs(h) + "}";
}
inline std::string shapes_json(const Shapes& v) {
  std::vector<std::string> p;
  for (size_t i = 0; i < v.size(); ++i) p.push_back(shape_json(v[i]));
  return "{\"t\":\"L\",\"s\":" + arrs(p) + "}";
}

// ---- boundary loops of a cell set without corner-touching cells
struct CellGrid {
  int n; std::vector<char> c;
  explicit CellGrid(int n_) : n(n_), c(n_ * n_, 0) {}
  char get(int x, int y) const { return (x < 0 || y < 0 || x >= n || y >= n) ? 0 : c[y * n + x]; }
  void set(int x, int y, char v) { c[y * n + x] = v; }
  bool corner_touch() const {
    for (int y = 0; y <= n; ++y) for (int x = 0; x <= n; ++x) {
      bool a = get(x - 1, y - 1), b = get(x, y - 1), d = get(x - 1, y), e = get(x, y);
      if ((a && e && !b && !d) || (b && d && !a && !e)) return true;
    }
    return false;
  }
  // directed boundary edges with the region on the left; loops with colinear points dropped
  void loops(std::vector<Loop>& res) const {
    std::map<IPt, std::vector<IPt> > nxt;
    for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) if (get(x, y)) {
      if (!get(x, y - 1)) nxt[IPt(x, y)].push_back(IPt(x + 1, y));
      if (!get(x + 1, y)) nxt[IPt(x + 1, y)].push_back(IPt(x + 1, y + 1));
      if (!get(x, y + 1)) nxt[IPt(x + 1, y + 1)].push_back(IPt(x, y + 1));
      if (!get(x - 1, y)) nxt[IPt(x, y + 1)].push_back(IPt(x, y));
    }
    while (!nxt.empty()) {
      IPt s = nxt.begin()->first, p = s; Loop l;
      do { l.push_back(p); std::vector<IPt>& v = nxt[p]; IPt q = v.back(); v.pop_back(); if (v.empty()) nxt.erase(p); p = q; } while (p != s);
      Loop m;
      for (size_t i = 0; i < l.size(); ++i) {
        IPt a = l[(i + l.size() - 1) % l.size()], b = l[i], d = l[(i + 1) % l.size()];
        if ((a.first == b.first && b.first == d.first) || (a.second == b.second && b.second == d.second)) continue;
        m.push_back(b);
      }
      res.push_back(m);
    }
  }
};
inline long loop_area2(const Loop& l) {
  long s = 0;
  for (size_t i = 0; i < l.size(); ++i) { const IPt& a = l[i]; const IPt& b = l[(i + 1) % l.size()]; s += (long)a.first * b.second - (long)b.first * a.second; }
  return s;
}
inline void rotate_loop(Rng& g, Loop& l) {
  std::rotate(l.begin(), l.begin() + g.below((int)l.size()), l.end());
  if (g.chance(50)) std::reverse(l.begin(), l.end());
}
inline Shape rnd_rect(Rng& g, int n) {
  Shape s; s.t = 'R';
  for (int k = 0; k < 2; ++k) {
    int lim = g.chance(60) ? std::min(n, 1 + n / 2) : n;
    int w = g.range(1, lim), lo = g.range(0, n - w);
    s.r[k] = lo; s.r[2 + k] = lo + w;
  }
  return s;
}
// connected random polyomino, no corner-touching; holes only if allowed
static bool g_rect_only = false;   // polygons degenerate to rectangles (full-range coordinates)
inline Shape rnd_poly(Rng& g, int n, bool holes) {
  for (int attempt = 0; attempt < 60 && !g_rect_only; ++attempt) {
    CellGrid cg(n);
    int target = g.range(2, std::max(3, n * n / (g.chance(50) ? 2 : 4)));
    std::vector<IPt> cells; IPt c0(g.below(n), g.below(n)); cg.set(c0.first, c0.second, 1); cells.push_back(c0);
    if (holes && n >= 3) { // start from a ring-like seed
      int w = g.range(3, n), h = g.range(3, n), x0 = g.range(0, n - w), y0 = g.range(0, n - h);
      for (int y = y0; y < y0 + h; ++y) for (int x = x0; x < x0 + w; ++x)
        if (x == x0 || y == y0 || x == x0 + w - 1 || y == y0 + h - 1 || g.chance(55)) { cg.set(x, y, 1); cells.push_back(IPt(x, y)); }
      cg.set(c0.first, c0.second, cg.get(c0.first, c0.second));
    }
    int guard = 0;
    while ((int)cells.size() < target && guard++ < 400) {
      IPt p = cells[g.below((int)cells.size())]; int d = g.below(4);
      int len = g.chance(40) ? 2 : 1;
      for (int k = 0; k < len; ++k) {
        p = IPt(p.first + (d == 0) - (d == 1), p.second + (d == 2) - (d == 3));
        if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n) break;
        if (!cg.get(p.first, p.second)) { cg.set(p.first, p.second, 1); cells.push_back(p); }
      }
    }
    if (cg.corner_touch()) continue;
    std::vector<Loop> ls; cg.loops(ls);
    int pos = 0; for (size_t i = 0; i < ls.size(); ++i) if (loop_area2(ls[i]) > 0) ++pos;
    if (pos != 1) continue;
    Shape s; s.t = holes ? 'H' : 'P';
    for (size_t i = 0; i < ls.size(); ++i) if (loop_area2(ls[i]) > 0) s.out = ls[i]; else s.holes.push_back(ls[i]);
    if (!holes) s.holes.clear();     // dropping the hole loops fills the holes
    if (holes && s.holes.empty() && attempt < 40) continue;
    rotate_loop(g, s.out);
    for (size_t i = 0; i < s.holes.size(); ++i) rotate_loop(g, s.holes[i]);
    return s;
  }
  Shape s = rnd_rect(g, n);
  s.t = holes ? 'H' : 'P';
  s.out.push_back(IPt(s.r[0], s.r[1])); s.out.push_back(IPt(s.r[2], s.r[1])); s.out.push_back(IPt(s.r[2], s.r[3])); s.out.push_back(IPt(s.r[0], s.r[3]));
  rotate_loop(g, s.out);
  return s;
}
inline Shape rnd_shape(Rng& g, int n) {
  int k = g_rect_only ? 0 : g.below(10);
  if (k < 6) return rnd_rect(g, n);
  if (k < 8) return rnd_poly(g, n, false);
  return rnd_poly(g, n, true);
}

// ---- embeddings
template <class T> struct Emb {
  std::vector<T> xs, ys;
  std::map<T,int> bx, by;
  T x(int r) const { return xs[r]; }
  T y(int r) const { return ys[r]; }
  int rx(T v) const { typename std::map<T,int>::const_iterator i = bx.find(v); return i == bx.end() ? -9 : i->second; }
  int ry(T v) const { typename std::map<T,int>::const_iterator i = by.find(v); return i == by.end() ? -9 : i->second; }
  void index() { bx.clear(); by.clear(); for (size_t i = 0; i < xs.size(); ++i) bx[xs[i]] = (int)i; for (size_t i = 0; i < ys.size(); ++i) by[ys[i]] = (int)i; }
  // kind 0: x = r + off, kind 1: linear with a stride, kind 2: irregular, kind 3: spread, kind 4: spread over the full type
  static std::vector<T> axis(Rng& g, int n, int kind, long long off, long long mul) {
    std::vector<T> v;
    if (kind <= 1) for (int i = 0; i <= n; ++i) v.push_back((T)(off + mul * i));
    else if (kind == 2) { long long c = off; for (int i = 0; i <= n; ++i) { v.push_back((T)c); c += g.range(1, g.chance(20) ? 100000 : 9); } }
    else { // spread over the full range (well inside the reserved extremes)
      // polygons need their (64-bit) signed area to be representable; rectangles do not
      long long lo = kind == 3 ? -1000000000ll : -2147483000ll, hi = kind == 3 ? 1000000000ll : 2147483000ll;
      std::set<long long> s;
      while ((int)s.size() < n + 1) {
        int w = g.below(4);
        s.insert(w == 0 ? lo + g.below(500) : w == 1 ? hi - g.below(500) : w == 2 ? (long long)g.range(-300, 300) : lo + (long long)(g.next() % (uint64_t)(hi - lo)));
      }
      for (std::set<long long>::iterator i = s.begin(); i != s.end(); ++i) v.push_back((T)*i);
    }
    return v;
  }
  static Emb make(Rng& g, int n, int kind) {
    Emb e;
    long long offx = g.range(-20, 20), offy = g.range(-20, 20), mul = kind == 1 ? (g.chance(50) ? g.range(2, 9) : g.range(1000, 9000000)) : 1;
    if (kind == 0 && g.chance(30)) { offx = -n; offy = -n / 2; }
    e.xs = axis(g, n, kind, offx * mul, mul);
    e.ys = axis(g, n, kind, offy * mul, mul);
    e.index(); return e;
  }
};

// ---- conversions to library types
template <class T> bp::rectangle_data<T> to_rect(const Shape& s, const Emb<T>& e) {
  return bp::rectangle_data<T>(e.x(s.r[0]), e.y(s.r[1]), e.x(s.r[2]), e.y(s.r[3]));
}
template <class T> std::vector<bp::point_data<T> > to_pts(const Loop& l, const Emb<T>& e) {
  std::vector<bp::point_data<T> > v;
  for (size_t i = 0; i < l.size(); ++i) v.push_back(bp::point_data<T>(e.x(l[i].first), e.y(l[i].second)));
  return v;
}
template <class P, class T> P to_poly(const Loop& l, const Emb<T>& e) {
  P p; std::vector<bp::point_data<T> > v = to_pts(l, e); bp::set_points(p, v.begin(), v.end()); return p;
}
inline Loop rect_loop(const Shape& s) {
  Loop l; l.push_back(IPt(s.r[0], s.r[1])); l.push_back(IPt(s.r[2], s.r[1])); l.push_back(IPt(s.r[2], s.r[3])); l.push_back(IPt(s.r[0], s.r[3])); return l;
}
// H: polygon-with-holes type, P: its hole type
template <class H, class P, class T> H to_pwh(const Shape& s, const Emb<T>& e) {
  H p; std::vector<bp::point_data<T> > v = to_pts(s.t == 'R' ? rect_loop(s) : s.out, e); bp::set_points(p, v.begin(), v.end());
  std::vector<P> hs;
  for (size_t i = 0; i < s.holes.size(); ++i) hs.push_back(to_poly<P>(s.holes[i], e));
  bp::set_holes(p, hs.begin(), hs.end());
  return p;
}

// ---- projections of observed geometry back to ranks
template <class T, class R> std::string rect_ranks(const R& r, const Emb<T>& e) {
  return "[" + S(e.rx(bp::xl(r))) + "," + S(e.ry(bp::yl(r))) + "," + S(e.rx(bp::xh(r))) + "," + S(e.ry(bp::yh(r))) + "]";
}
template <class T, class It> std::string pts_ranks(It b, It en, const Emb<T>& e) {
  std::string s = "[";
  for (bool f = true; b != en; ++b, f = false) { if (!f) s += ","; s += S(e.rx(bp::x(*b))) + "," + S(e.ry(bp::y(*b))); }
  return s + "]";
}
template <class T, class P> std::string poly_ranks(const P& p, const Emb<T>& e) { return pts_ranks<T>(bp::begin_points(p), bp::end_points(p), e); }
template <class T, class C> std::string obs_rects(const C& c, const Emb<T>& e) {
  std::vector<std::string> v;
  for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) v.push_back(rect_ranks<T>(*i, e));
  return "{\"k\":\"R\",\"v\":" + arrs(v) + "}";
}
template <class T, class C> std::string obs_polys(const C& c, const Emb<T>& e) {
  std::vector<std::string> v;
  for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) v.push_back(poly_ranks<T>(*i, e));
  return "{\"k\":\"P\",\"v\":" + arrs(v) + "}";
}
template <class T, class C> std::string obs_pwhs(const C& c, const Emb<T>& e) {
  std::vector<std::string> v;
  for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) {
    std::vector<std::string> h;
    for (auto j = bp::begin_holes(*i); j != bp::end_holes(*i); ++j) h.push_back(poly_ranks<T>(*j, e));
    v.push_back("{\"v\":" + poly_ranks<T>(*i, e) + ",\"h\":" + arrs(h) + "}");
  }
  return "{\"k\":\"H\",\"v\":" + arrs(v) + "}";
}
#endif
