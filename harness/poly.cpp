// Conformance driver for polygon measures, containment and images (spec/Measure.tla).
// usage: poly <mode> <seed> <ntraces> <outfile>
//   measure  (C19)
#include "tri.hpp"
#include "arr.hpp"
#include "big.hpp"
#include <deque>
#include <cmath>
namespace mh { 
#define rotate_loop mh_rotate_loop
#include "manh.hpp"
#undef rotate_loop
}
// ---------------- user-defined polygon types
template <class T> struct ULst { typedef T coordinate_type; typedef bp::point_data<T> point_type; typedef typename std::list<point_type>::const_iterator iterator_type; std::list<point_type> p; bp::winding_direction w; iterator_type begin() const { return p.begin(); } iterator_type end() const { return p.end(); } };
template <class T> struct UHol { typedef T coordinate_type; typedef bp::point_data<T> point_type; typedef typename std::vector<point_type>::const_iterator iterator_type; std::vector<point_type> p; std::list<ULst<T> > h; };
// a Manhattan polygon kept as alternating x and y coordinates
template <class T> struct UCmp { std::deque<T> c; };
#define USER_POLYGONS(T) \
template <> struct geometry_concept<ULst<T> > { typedef polygon_concept type; }; \
template <> struct polygon_traits<ULst<T> > { \
  typedef T coordinate_type; typedef bp::point_data<T> point_type; typedef typename ULst<T>::iterator_type iterator_type; \
  static iterator_type begin_points(const ULst<T>& t) { return t.p.begin(); } \
  static iterator_type end_points(const ULst<T>& t) { return t.p.end(); } \
  static std::size_t size(const ULst<T>& t) { return t.p.size(); } \
  static winding_direction winding(const ULst<T>& t) { return t.w; } \
}; \
template <> struct polygon_mutable_traits<ULst<T> > { \
  template <class It> static ULst<T>& set_points(ULst<T>& t, It b, It e) { \
    std::list<bp::point_data<T> > n; for (; b != e; ++b) n.push_back(bp::point_data<T>((T)bp::x(*b), (T)bp::y(*b))); t.p.swap(n); \
    __int128 s = 0; for (auto i = t.p.begin(); i != t.p.end(); ++i) { auto j = std::next(i); if (j == t.p.end()) j = t.p.begin(); s += ((__int128)i->x() - (__int128)t.p.front().x()) * (__int128)(j->y() - t.p.front().y()) - ((__int128)j->x() - (__int128)t.p.front().x()) * (__int128)(i->y() - t.p.front().y()); } \
    t.w = s > 0 ? counterclockwise_winding : clockwise_winding; return t; \
  } \
}; \
template <> struct geometry_concept<UHol<T> > { typedef polygon_with_holes_concept type; }; \
template <> struct polygon_traits<UHol<T> > { \
  typedef T coordinate_type; typedef bp::point_data<T> point_type; typedef typename UHol<T>::iterator_type iterator_type; \
  static iterator_type begin_points(const UHol<T>& t) { return t.p.begin(); } \
  static iterator_type end_points(const UHol<T>& t) { return t.p.end(); } \
  static std::size_t size(const UHol<T>& t) { return t.p.size(); } \
  static winding_direction winding(const UHol<T>&) { return unknown_winding; } \
}; \
template <> struct polygon_with_holes_traits<UHol<T> > { \
  typedef typename std::list<ULst<T> >::const_iterator iterator_holes_type; typedef ULst<T> hole_type; \
  static iterator_holes_type begin_holes(const UHol<T>& t) { return t.h.begin(); } \
  static iterator_holes_type end_holes(const UHol<T>& t) { return t.h.end(); } \
  static std::size_t size_holes(const UHol<T>& t) { return t.h.size(); } \
}; \
template <> struct polygon_mutable_traits<UHol<T> > { template <class It> static UHol<T>& set_points(UHol<T>& t, It b, It e) { std::vector<bp::point_data<T> > n; for (; b != e; ++b) n.push_back(bp::point_data<T>((T)bp::x(*b), (T)bp::y(*b))); t.p.swap(n); return t; } }; \
template <> struct polygon_with_holes_mutable_traits<UHol<T> > { template <class It> static UHol<T>& set_holes(UHol<T>& t, It b, It e) { std::list<ULst<T> > n; for (; b != e; ++b) { n.push_back(ULst<T>()); bp::set_points(n.back(), bp::begin_points(*b), bp::end_points(*b)); } t.h.swap(n); return t; } }; \
template <> struct geometry_concept<UCmp<T> > { typedef polygon_90_concept type; }; \
template <> struct polygon_90_traits<UCmp<T> > { \
  typedef T coordinate_type; typedef typename std::deque<T>::const_iterator compact_iterator_type; \
  static compact_iterator_type begin_compact(const UCmp<T>& t) { return t.c.begin(); } \
  static compact_iterator_type end_compact(const UCmp<T>& t) { return t.c.end(); } \
  static std::size_t size(const UCmp<T>& t) { return t.c.size(); } \
  static winding_direction winding(const UCmp<T>&) { return unknown_winding; } \
}; \
template <> struct polygon_90_mutable_traits<UCmp<T> > { template <class It> static UCmp<T>& set_compact(UCmp<T>& t, It b, It e) { std::deque<T> n; for (; b != e; ++b) n.push_back(*b); t.c.swap(n); return t; } }; \
template <> struct polygon_mutable_traits<UCmp<T> > { template <class It> static UCmp<T>& set_points(UCmp<T>& t, It b, It e) { iterator_points_to_compact<It, bp::point_data<T> > i(b, e), j(e, e); return polygon_90_mutable_traits<UCmp<T> >::set_compact(t, i, j); } };
namespace boost { namespace polygon {
USER_POLYGONS(int)
USER_POLYGONS(long long)
USER_POLYGONS(double)
}}
typedef std::vector<Ring> Rings;  // library coordinates
static std::string bp2(ll x, ll y) { return "[" + big(x) + "," + big(y) + "]"; }
static std::string ring_js(const Ring& r) { std::vector<std::string> v; for (auto& p : r) v.push_back(bp2(p.first, p.second)); return arrs(v); }
static std::string rings_js(const Rings& s) { std::vector<std::string> v; for (auto& r : s) v.push_back(ring_js(r)); return arrs(v); }
template <class P> Ring read_ring(const P& p) { Ring r; for (auto i = bp::begin_points(p), e = bp::end_points(p); i != e; ++i) r.push_back(IP((ll)bp::x(*i), (ll)bp::y(*i))); return r; }
template <class P> Rings read(const P& p) { Rings s; s.push_back(read_ring(p)); for (auto i = bp::begin_holes(p); i != bp::end_holes(p); ++i) s.push_back(read_ring(*i)); return s; }
// as the specification keeps rings: a repeated first vertex at the end is dropped
static Rings norm(Rings s) { for (auto& r : s) while (r.size() > 1 && r.front() == r.back()) r.pop_back(); return s; }
enum Kind { MANH, OCT, GEN };
struct Session {
  Rng& g; Kind kind; Rings s; bool extra = false, over = false; int close = 0; ll lim;
  Session(Rng& g_) : g(g_) {}
  // ---- shapes
  void affine(Rings& r, ll a, ll b, ll c, ll d, ll e, ll f) { for (auto& q : r) for (auto& p : q) p = IP(a * p.first + b * p.second + e, c * p.first + d * p.second + f); }
  ll spread() { ll xl = s[0][0].first, xh = xl, yl = s[0][0].second, yh = yl; for (auto& p : s[0]) { xl = std::min(xl, p.first); xh = std::max(xh, p.first); yl = std::min(yl, p.second); yh = std::max(yh, p.second); } return std::max(xh - xl, yh - yl); }
  void gen() {
    int k = g.below(10); s.clear(); extra = false; close = 0;
    auto from_loop = [](const Loop& l) { Ring r; for (auto& p : l) r.push_back(IP(p.first, p.second)); return r; };
    if (k < 3) {
      kind = MANH; int n = g.range(2, 7); mh::Shape q = g.chance(15) ? mh::rnd_rect(g, n) : mh::rnd_poly(g, n, g.chance(60));
      if (q.t == 'R') { q.out.clear(); q.out.push_back(std::make_pair(q.r[0], q.r[1])); q.out.push_back(std::make_pair(q.r[2], q.r[1])); q.out.push_back(std::make_pair(q.r[2], q.r[3])); q.out.push_back(std::make_pair(q.r[0], q.r[3])); mh::mh_rotate_loop(g, q.out); }
      std::vector<ll> xs, ys; ll x = 0, y = 0; bool uneven = g.chance(60); ll big = uneven ? (g.chance(50) ? 4 : 1000000) : 1;
      for (int i = 0; i <= n; ++i) { xs.push_back(x); ys.push_back(y); x += 1 + (ll)(g.next() % (uint64_t)big); y += 1 + (ll)(g.next() % (uint64_t)big); }
      auto cv = [&](const mh::Loop& l) { Ring r; for (auto& p : l) r.push_back(IP(xs[p.first], ys[p.second])); return r; };
      s.push_back(cv(q.out)); for (auto& h : q.holes) s.push_back(cv(h));
    } else if (k < 7) {
      kind = OCT; TriGen t(g, g.range(1, 5), g.chance(50)); TShape q = t.shape(g.chance(60)); s.push_back(from_loop(q.out)); for (auto& h : q.holes) s.push_back(from_loop(h));
    } else {
      kind = GEN; AGen t(g, g.range(2, 12), g.below(3)); AShape q = t.shape(); s.push_back(q.out); for (auto& h : q.holes) s.push_back(h);
    }
    if (kind != GEN && g.chance(25)) { // oblique image
      ll a, b, c, d; do { a = g.range(-4, 4); b = g.range(-4, 4); c = g.range(-4, 4); d = g.range(-4, 4); } while (a * d == b * c); affine(s, a, b, c, d, 0, 0); kind = GEN;
    }
    if (kind != MANH && g.chance(30)) { // vertices in the middle of edges
      extra = true; affine(s, 2, 0, 0, 2, 0, 0);
      for (auto& r : s) { Ring n; for (size_t i = 0; i < r.size(); ++i) { IP a = r[i], b = r[(i + 1) % r.size()]; n.push_back(a); if (g.chance(35)) n.push_back(IP((a.first + b.first) / 2, (a.second + b.second) / 2)); } r = n; std::rotate(r.begin(), r.begin() + g.below((int)r.size()), r.end()); }
    }
    close = kind != MANH && g.chance(25);
    // size and place
    ll sp = spread(); if (sp > lim) return gen(); if (g.chance(55)) { ll m = lim / sp; ll f = g.chance(40) ? g.range(1, 5) : g.chance(50) ? g.range(1, 3000) : 1 + (ll)(g.next() % (uint64_t)m); f = std::max(1ll, std::min(f, m)); affine(s, f, 0, 0, f, 0, 0); }
    ll xl = s[0][0].first, xh = xl, yl = s[0][0].second, yh = yl; for (auto& p : s[0]) { xl = std::min(xl, p.first); xh = std::max(xh, p.first); yl = std::min(yl, p.second); yh = std::max(yh, p.second); }
    ll room = 2147483640ll - (spread() + 1) / 2; if (g.chance(50)) room = std::min(room, 100ll);
    affine(s, 1, 0, 0, 1, -(xl + xh) / 2 + (ll)(g.next() % (uint64_t)(2 * room + 1)) - room, -(yl + yh) / 2 + (ll)(g.next() % (uint64_t)(2 * room + 1)) - room);
  }
  IP query() {
    const Ring& r = s[g.below((int)s.size())]; const Ring& r2 = s[g.below((int)s.size())]; size_t i = g.below((int)r.size()); IP a = r[i], b = r[(i + 1) % r.size()], c = r2[g.below((int)r2.size())];
    switch (g.below(8)) {
      case 0: return a;
      case 1: return IP(a.first, c.second);
      case 2: return IP((a.first + c.first) / 2, (a.second + c.second) / 2);
      case 3: return IP(a.first + g.range(-1, 1), a.second + g.range(-1, 1));
      case 4: { ll q = Arr::gcd(b.first - a.first, b.second - a.second), k = (ll)(g.next() % (uint64_t)(q + 1)); return IP(a.first + (b.first - a.first) / q * k, a.second + (b.second - a.second) / q * k); }
      case 5: case 6: { int k = g.range(0, 64); return IP(a.first + (b.first - a.first) * k / 64 + g.range(-1, 1), a.second + (b.second - a.second) * k / 64 + g.range(-1, 1)); }
      default: { const Ring& o = s[0]; ll xl = o[0].first, xh = xl, yl = o[0].second, yh = yl; for (auto& p : o) { xl = std::min(xl, p.first); xh = std::max(xh, p.first); yl = std::min(yl, p.second); yh = std::max(yh, p.second); }
        return IP(xl - 2 + (ll)(g.next() % (uint64_t)(xh - xl + 5)), yl - 2 + (ll)(g.next() % (uint64_t)(yh - yl + 5))); }
    }
  }
  // ---- building and asking
  static std::string ev_ask(const char* op, const std::string& r, const std::string& w = "[]") { return ks("a", "Ask") + "," + ks("op", op) + "," + kv("p", "[]") + "," + kv("t", 0) + "," + kv("w", w) + "," + kv("r", r); }
  static std::string ev_do(const char* op, ll vx, ll vy, int o, const std::vector<int>& x, const Rings& n) { return ks("a", "Do") + "," + ks("op", op) + "," + kv("v", bp2(vx, vy)) + "," + kv("o", o) + "," + kv("x", arr(x)) + "," + kv("n", rings_js(n)); }
  static ll isq(i128 n) { ll r = (ll)sqrtl((long double)n); while ((i128)r * r > n) --r; while ((i128)(r + 1) * (r + 1) <= n) ++r; return r; }
  std::string lengths() { std::vector<std::string> o; for (auto& r : s) { std::vector<std::string> v; for (size_t i = 0; i < r.size(); ++i) { IP a = r[i], b = r[(i + 1) % r.size()]; i128 dx = b.first - a.first, dy = b.second - a.second, q = dx * dx + dy * dy; 
      v.push_back(big(q < ((i128)1 << 106) ? (i128)isq(q << 20) : (i128)isq(q) << 10)); } o.push_back(arrs(v)); } return arrs(o); }
  template <class P, class It> static void setp(P& p, It b, It e) { bp::set_points(p, b, e); }
  template <class T> std::vector<bp::point_data<T> > pts(Ring r, bool cl) { std::vector<bp::point_data<T> > v; for (auto& p : r) v.push_back(bp::point_data<T>((T)p.first, (T)p.second)); if (cl) v.push_back(v[0]); return v; }
  template <class P> struct NoH { template <class S> static void set(S&, P&, bool) {} };
  template <class T, class P> void set_outer(P& p) { auto v = pts<T>(s[0], close == 1); setp(p, v.begin(), v.end()); }
  template <class T, class P> void hs(P& p, std::true_type) { typedef typename bp::polygon_with_holes_traits<P>::hole_type H; std::list<H> v; for (size_t k = 1; k < s.size(); ++k) { v.push_back(H()); auto q = pts<T>(s[k], close == 1); setp(v.back(), q.begin(), q.end()); } bp::set_holes(p, v.begin(), v.end()); }
  template <class T, class P> void hs(P&, std::false_type) { s.resize(1); }
  template <class P> void measures(const P& p, bool big_) {
    typedef typename bp::polygon_traits<P>::coordinate_type T;
    for (int k = g.range(2, 4); k > 0; --k) switch (g.below(7)) {
      case 0: case 1: if (!big_) { long double a = 0; guarded("area", [&] { a = (long double)bp::area(p) * 2; }); tr::ev(ev_ask("area", big((i128)llrintl(a)))); break; } // fallthrough
      case 2: if (!big_) { long double a = 0; guarded("perimeter", [&] { a = (long double)bp::perimeter(p); }); tr::ev(ev_ask("perim", big((i128)floorl(a * 1024)), lengths())); break; } // fallthrough
      case 3: if (!big_) { int w = 0; guarded("winding", [&] { w = bp::winding(p) == bp::COUNTERCLOCKWISE ? 1 : -1; }); tr::ev(ev_ask("wind", S(w))); break; } // fallthrough
      case 4: { bp::rectangle_data<T> b; guarded("extents", [&] { if (!bp::extents(b, p)) throw 1; }); tr::ev(ev_ask("box", "[[" + big((ll)bp::xl(b)) + "," + big((ll)bp::xh(b)) + "],[" + big((ll)bp::yl(b)) + "," + big((ll)bp::yh(b)) + "]]")); break; }
      case 5: { bp::point_data<T> c; guarded("center", [&] { bp::center(c, p); }); tr::ev(ev_ask("center", bp2((ll)truncl((long double)c.x()), (ll)truncl((long double)c.y())))); break; }
      case 6: if (!big_) { bool b = false; guarded("is_45", [&] { b = bp::is_45(p); }); tr::ev(ev_ask("is45", b ? "1" : "0")); } break;
    }
  }
  template <class P> void contains(const P& p) { contains(p, typename bp::polygon_traits<P>::coordinate_type()); }
  template <class P, class T> void contains(const P& p, T) {
    std::vector<std::string> q; std::vector<int> c, o;
    for (int k = g.range(3, 8); k > 0; --k) { IP a = query(); bp::point_data<T> pt((T)a.first, (T)a.second); int x = 0, y = 0; if (a.first < -2147483647ll || a.first > 2147483647ll || a.second < -2147483647ll || a.second > 2147483647ll) continue;
      guarded("contains", [&] { x = g.chance(50) ? bp::contains(p, pt) : bp::contains(p, pt, true); y = bp::contains(p, pt, false); }); q.push_back(bp2(a.first, a.second)); c.push_back(x); o.push_back(y); }
    tr::ev(ks("a", "Has") + "," + kv("p", arrs(q)) + "," + kv("c", arr(c)) + "," + kv("o", arr(o)));
  }
  template <class P> void size_of(const P& p) { Rings r = read(p); size_t cl = r[0].size() > 1 && r[0].front() == r[0].back(); tr::ev(ev_ask("size", "[" + S((ll)(bp::size(p) - cl)) + "," + S((ll)(r.size() - 1)) + "]")); tr::ev(ev_ask("pts", rings_js(norm(r)))); }
  template <class P> void done(const char* op, ll vx, ll vy, int o, const std::vector<int>& x, const P& p) { Rings n = norm(read(p)); s = n; tr::ev(ev_do(op, vx, vy, o, x, n)); }
  // 45-degree types snap when scaled, which is for integers only
  template <class P> static constexpr bool scalable() { return !(std::is_same<typename bp::geometry_domain<typename bp::geometry_concept<P>::type>::type, bp::forty_five_domain>::value && std::is_floating_point<typename bp::polygon_traits<P>::coordinate_type>::value); }
  template <class P> void rescale(P& p, double f) { if constexpr (scalable<P>()) bp::scale(p, f); }
  template <class P> void shrink_down(P& p, ll f) { if constexpr (scalable<P>()) bp::scale_down(p, (typename bp::coordinate_traits<typename bp::polygon_traits<P>::coordinate_type>::unsigned_area_type)f); }
  // scaling a 45-degree polygon to rounded coordinates moves vertices until the edges are 45-degree again; the history ends there
  template <class P> static constexpr bool snapping() { return std::is_same<typename bp::geometry_domain<typename bp::geometry_concept<P>::type>::type, bp::forty_five_domain>::value && !std::is_floating_point<typename bp::polygon_traits<P>::coordinate_type>::value; }
  template <class P> bool snap(P& p, ll mx) {
    if constexpr (snapping<P>()) {
      ll a = g.range(1, 9), b = g.range(1, 9); if (g.chance(50)) a = 1; if (a > b && mx > 2147000000ll / a) a = 1; bool dbl = a > 1 || g.chance(40);
      if (a == 1 && b > 1 && g.chance(30) && !dbl) { b = g.range(2, 1000); }
      guarded("snap", [&] { if (dbl) bp::scale(p, (double)a / (double)b); else bp::scale_down(p, (typename bp::coordinate_traits<typename bp::polygon_traits<P>::coordinate_type>::unsigned_area_type)b); });
      Rings n = read(p); tr::ev(ks("a", "Snap") + "," + kv("f", "[" + S(a) + "," + S(b) + "]") + "," + kv("n", rings_js(n))); over = true; return true;
    }
    return false;
  }
  template <class P> void change(P& p) {
    typedef typename bp::polygon_traits<P>::coordinate_type T; typedef bp::axis_transformation AT; ll sp = spread(), mx = 0; for (auto& r : s) for (auto& q : r) mx = std::max(mx, std::max(std::llabs(q.first), std::llabs(q.second)));
    ll room = std::max(0ll, 2147000000ll - mx);
    if (g.chance(40) && snap(p, mx)) return;
    switch (g.below(6)) {
      case 0: { ll d = g.chance(50) ? g.range(-50, 50) : (ll)(g.next() % (uint64_t)(2 * room + 1)) - room; d = std::max(-room, std::min(room, d)); int o = g.range(1, 2); guarded("move", [&] { bp::move(p, o == 1 ? bp::HORIZONTAL : bp::VERTICAL, (T)d); }); done("move", d, d, o, {0, 0, 0}, p); break; }
      case 1: { ll d = (ll)(g.next() % (uint64_t)(2 * room + 1)) - room, e = g.range(-9, 9); if (e > room || -e > room) e = 0; guarded("convolve", [&] { bp::convolve(p, bp::point_data<T>((T)d, (T)e)); }); done("conv", d, e, 1, {0, 0, 0}, p); break; }
      case 2: { ll f = std::min((ll)g.range(1, 9), std::min(2147000000ll / std::max(1ll, mx), lim / sp)); if (f < 1) return; bool dbl = g.chance(30) && scalable<P>(); guarded("scale_up", [&] { if (dbl) rescale(p, (double)f); else bp::scale_up(p, (typename bp::coordinate_traits<T>::unsigned_area_type)f); }); done("up", f, f, 1, {0, 0, 0}, p); break; }
      case 3: { if (!scalable<P>()) return; ll q = 0; for (auto& r : s) for (auto& c : r) { q = Arr::gcd(q, c.first); q = Arr::gcd(q, c.second); } ll f = 1; for (ll k : {7, 5, 4, 3, 2}) if (q % k == 0) { f = k; break; } bool dbl = (f & (f - 1)) == 0 && g.chance(50); guarded("scale_down", [&] { if (dbl) rescale(p, 1.0 / (double)f); else shrink_down(p, f); }); done("down", f, f, 1, {0, 0, 0}, p); break; }
      case 4: { static const AT::ATR tab[8] = {AT::NULL_TRANSFORM, AT::FLIP_Y, AT::FLIP_X, AT::ROTATE_LEFT, AT::FLIP_SWAP_XY, AT::ROTATE_RIGHT, AT::SWAP_XY, AT::FLIP_XY};
        AT x(tab[g.below(8)]); int a = 1, b = 0, c = 0, d = 1; x.transform(a, b); x.transform(c, d); guarded("transform", [&] { bp::transform(p, x); }); // a,b image of (1,0); c,d image of (0,1)
        done("axis", 0, 0, 1, {a == 0 ? 1 : 0, (a ? a : c) < 0 ? 1 : 0, (b ? b : d) < 0 ? 1 : 0}, p); break; }
      default: { P q = p; P e; guarded("assign", [&] { bp::assign(e, q); p = e; }); done("copy", 0, 0, 1, {0, 0, 0}, p); break; }
    }
  }
  template <class P> void loop(P& p, bool big_) {
    for (int k = g.range(2, 5); k > 0 && !over; --k) switch (g.below(5)) {
      case 0: case 1: measures(p, big_); break;
      case 2: case 3: contains(p); break;
      default: if (g.chance(70) && !big_) change(p); else size_of(p); break;
    }
  }
  template <class T, class P, bool HOLES> void go(bool big_) {
    P p; guarded("set", [&] { set_outer<T>(p); hs<T>(p, std::integral_constant<bool, HOLES>()); });
    tr::ev(ks("a", "Load") + "," + kv("s", rings_js(s))); size_of(p); loop(p, big_);
  }
  // a shape held by a general type and viewed as a restricted one, and copies between types
  template <class C, class P> void view(const P& p) { auto v = bp::view_as<C>(p); measures(v, false); contains(v); size_of(v); }
  template <class C, class P> void view_h(const P& p) { auto v = bp::view_as<C>(p); measures(v, false); size_of(v); }
  template <class P> void view_rect(const P& p) { typedef typename bp::polygon_traits<P>::coordinate_type T; auto v = bp::view_as<bp::rectangle_concept>(p);
    long double a = 0; guarded("area", [&] { a = (long double)bp::area(v) * 2; }); tr::ev(ev_ask("area", big((i128)llrintl(a))));
    tr::ev(ev_ask("box", "[[" + big((ll)bp::xl(v)) + "," + big((ll)bp::xh(v)) + "],[" + big((ll)bp::yl(v)) + "," + big((ll)bp::yh(v)) + "]]"));
    contains(v, T()); }
  template <class A, class B> void copy_to(const B& b) { A a; guarded("assign", [&] { if (g.chance(50)) bp::assign(a, b); else a = b; }); size_of(a); measures(a, false); contains(a); }
  template <class A, class B> void copy_to_user(const B& b) { A a; guarded("assign", [&] { bp::assign(a, b); }); size_of(a); measures(a, false); contains(a); }
  template <class T> void mixed() {
    using namespace bp; bool holes = s.size() > 1; typedef polygon_90_data<T> P9; typedef polygon_45_data<T> P4; typedef polygon_data<T> PG; typedef polygon_90_with_holes_data<T> H9; typedef polygon_45_with_holes_data<T> H4; typedef polygon_with_holes_data<T> HG;
    tr::ev(ks("a", "Load") + "," + kv("s", rings_js(s)));
    int k = g.below(6); 
    if (kind == MANH) {
      if (!holes) {
        P9 p; set_outer<T>(p); P4 p4; set_outer<T>(p4); PG pg; set_outer<T>(pg); ULst<T> pu; set_outer<T>(pu);
        if (s[0].size() == 4 && g.chance(60)) { switch (k) { case 0: view_rect(p); break; case 1: view_rect(p4); break; case 2: view_rect(pg); break; default: view_rect(pu); }
          rectangle_data<T> r; extents(r, p); s[0] = {IP((long long)xl(r), (long long)yl(r)), IP((long long)xh(r), (long long)yl(r)), IP((long long)xh(r), (long long)yh(r)), IP((long long)xl(r), (long long)yh(r))}; tr::ev(ks("a", "Load") + "," + kv("s", rings_js(s))); switch (k) { case 0: copy_to<P9>(r); break; case 1: copy_to<P4>(r); break; case 2: copy_to<PG>(r); break; case 3: copy_to<HG>(r); break; case 4: copy_to<H9>(r); break; default: copy_to_user<ULst<T> >(r); } return; }
        switch (g.below(5)) { case 0: view<polygon_90_concept>(p4); break; case 1: view<polygon_90_concept>(pg); break; case 2: view<polygon_90_concept>(pu); break; case 3: view<polygon_45_concept>(pg); break; default: view<polygon_45_concept>(pu); }
        switch (g.below(8)) { case 0: copy_to<P4>(p); break; case 1: copy_to<PG>(p); break; case 2: copy_to<HG>(p); break; case 3: copy_to<H9>(p); break; case 4: copy_to<PG>(p4); break; case 5: copy_to_user<UCmp<T> >(p); break; case 6: copy_to_user<ULst<T> >(p); break; default: copy_to<H4>(p4); }
      } else {
        H9 p; set_outer<T>(p); hs<T>(p, std::true_type()); HG pg; set_outer<T>(pg); hs<T>(pg, std::true_type()); H4 p4; set_outer<T>(p4); hs<T>(p4, std::true_type());
        switch (k) { case 0: view_h<polygon_90_with_holes_concept>(pg); break; case 1: view_h<polygon_45_with_holes_concept>(pg); break; case 2: view_h<polygon_90_with_holes_concept>(p4); break; default: copy_to_user<UHol<T> >(p); }
        switch (g.below(4)) { case 0: copy_to<HG>(p); break; case 1: copy_to<H4>(p); break; case 2: copy_to<HG>(p4); break; default: { UHol<T> u; assign(u, p); copy_to<HG>(u); } }
      }
    } else if (kind == OCT) {
      if (!holes) { P4 p; set_outer<T>(p); PG pg; set_outer<T>(pg); ULst<T> pu; set_outer<T>(pu); if (k < 3) view<polygon_45_concept>(pg); else view<polygon_45_concept>(pu); switch (k) { case 0: copy_to<PG>(p); break; case 1: copy_to<H4>(p); break; case 2: copy_to<HG>(p); break; default: copy_to_user<ULst<T> >(p); } }
      else { H4 p; set_outer<T>(p); hs<T>(p, std::true_type()); HG pg; set_outer<T>(pg); hs<T>(pg, std::true_type()); UHol<T> pu; set_outer<T>(pu); hs<T>(pu, std::true_type()); if (k < 3) view_h<polygon_45_with_holes_concept>(pg); else view_h<polygon_45_with_holes_concept>(pu); if (g.chance(50)) copy_to<HG>(p); else copy_to_user<UHol<T> >(p); }
    } else {
      if (!holes) { PG p; set_outer<T>(p); if (g.chance(50)) copy_to_user<ULst<T> >(p); else copy_to<HG>(p); ULst<T> u; set_outer<T>(u); copy_to<PG>(u); }
      else { HG p; set_outer<T>(p); hs<T>(p, std::true_type()); if (g.chance(50)) copy_to_user<UHol<T> >(p); else { UHol<T> u; assign(u, p); copy_to<HG>(u); } }
    }
  }
  template <class T> void typed() {
    using namespace bp; bool big_ = g.chance(10) && sizeof(T) == 4; lim = big_ ? 4000000000ll : std::is_floating_point<T>::value ? 1ll << 25 : 1ll << 30; gen();
    if (!big_ && g.chance(25)) return mixed<T>();
    int k = g.below(100); bool holes = s.size() > 1 || k < 20;
    if (kind == MANH && k % 10 < 6) { if (holes) go<T, polygon_90_with_holes_data<T>, true>(big_); else if (g.chance(70)) go<T, polygon_90_data<T>, false>(big_); else go<T, UCmp<T>, false>(big_); }
    else if (kind != GEN && k % 10 < 8) { if (holes) go<T, polygon_45_with_holes_data<T>, true>(big_); else go<T, polygon_45_data<T>, false>(big_); }
    else if (g.chance(70)) { if (holes) go<T, polygon_with_holes_data<T>, true>(big_); else go<T, polygon_data<T>, false>(big_); }
    else { if (holes) go<T, UHol<T>, true>(big_); else go<T, ULst<T>, false>(big_); }
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]); tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i); Session s(g); tr::begin(kv("i", i));
    switch (g.below(4)) { case 0: s.typed<long long>(); break; case 1: s.typed<double>(); break; default: s.typed<int>(); }
    tr::end();
  }
  tr::close(); return 0;
}
