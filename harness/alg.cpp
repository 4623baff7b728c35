// Conformance driver for intervals, points, rectangles, segments (spec/Algebra.tla).
// usage: alg <mode> <seed> <ntraces> <outfile>
//   rect  intervals, points, rectangles, directions   (C24)
//   seg   segments                                    (C25)
#include "big.hpp"
#include <boost/polygon/polygon.hpp>
#include <limits>
#include <functional>
namespace bp = boost::polygon; typedef long long ll;
// user-defined geometry types, adapted through traits
template <class T> struct CI { T a, b; };
template <class T> struct CP { T q[2]; bool operator==(const CP& p) const { return q[0] == p.q[0] && q[1] == p.q[1]; } };
template <class T> struct CR { T xl, yl, xh, yh; };
template <class T> struct CS { CP<T> from, to; };
namespace boost { namespace polygon {
template <class T> struct geometry_concept<CI<T> > { typedef interval_concept type; };
template <class T> struct interval_traits<CI<T> > { typedef T coordinate_type; static T get(const CI<T>& i, direction_1d d) { return d == LOW ? i.a : i.b; } };
template <class T> struct interval_mutable_traits<CI<T> > { typedef T coordinate_type; static void set(CI<T>& i, direction_1d d, T v) { (d == LOW ? i.a : i.b) = v; } static CI<T> construct(T a, T b) { CI<T> i; i.a = a; i.b = b; return i; } };
template <class T> struct geometry_concept<CP<T> > { typedef point_concept type; };
template <class T> struct point_traits<CP<T> > { typedef T coordinate_type; static T get(const CP<T>& p, orientation_2d o) { return p.q[o.to_int()]; } };
template <class T> struct point_mutable_traits<CP<T> > { typedef T coordinate_type; static void set(CP<T>& p, orientation_2d o, T v) { p.q[o.to_int()] = v; } static CP<T> construct(T x, T y) { CP<T> p; p.q[0] = x; p.q[1] = y; return p; } };
template <class T> struct geometry_concept<CR<T> > { typedef rectangle_concept type; };
template <class T> struct rectangle_traits<CR<T> > { typedef T coordinate_type; typedef CI<T> interval_type; static CI<T> get(const CR<T>& r, orientation_2d o) { CI<T> i; i.a = o == HORIZONTAL ? r.xl : r.yl; i.b = o == HORIZONTAL ? r.xh : r.yh; return i; } };
template <class T> struct rectangle_mutable_traits<CR<T> > {
  template <class I> static void set(CR<T>& r, orientation_2d o, const I& i) { if (o == HORIZONTAL) { r.xl = polygon::get(i, LOW); r.xh = polygon::get(i, HIGH); } else { r.yl = polygon::get(i, LOW); r.yh = polygon::get(i, HIGH); } }
  template <class I, class J> static CR<T> construct(const I& h, const J& v) { CR<T> r; set(r, HORIZONTAL, h); set(r, VERTICAL, v); return r; } };
template <class T> struct geometry_concept<CS<T> > { typedef segment_concept type; };
template <class T> struct segment_traits<CS<T> > { typedef T coordinate_type; typedef CP<T> point_type; static CP<T> get(const CS<T>& s, direction_1d d) { return d == LOW ? s.from : s.to; } };
template <class T> struct segment_mutable_traits<CS<T> > { typedef T coordinate_type; typedef CP<T> point_type; static void set(CS<T>& s, direction_1d d, const CP<T>& p) { (d == LOW ? s.from : s.to) = p; } static CS<T> construct(const CP<T>& a, const CP<T>& b) { CS<T> s; s.from = a; s.to = b; return s; } };
} }
template <class T> struct DataFam { typedef T U; typedef bp::interval_data<T> I; typedef bp::point_data<T> P; typedef bp::rectangle_data<T> R; typedef bp::segment_data<T> S; static const bool data = true; };
template <class T> struct UserFam { typedef T U; typedef CI<T> I; typedef CP<T> P; typedef CR<T> R; typedef CS<T> S; static const bool data = false; };
template <class X> bool lessBy(const X& a, const X& b, int how) { return how == 0 ? a < b : how == 1 ? b > a : how == 2 ? !(a >= b) : !(b <= a); }
template <class X> bool lessBy(const CI<X>&, const CI<X>&, int) { return false; }
template <class X> bool lessBy(const CP<X>&, const CP<X>&, int) { return false; }
template <class X> bool lessBy(const CS<X>&, const CS<X>&, int) { return false; }
template <class X> bool eqBy(const X& a, const X& b, int how) { return how == 0 ? bp::equivalence(a, b) : how == 1 ? a == b : !(a != b); }
template <class X> bool eqBy(const CI<X>& a, const CI<X>& b, int) { return bp::equivalence(a, b); }
template <class X> bool eqBy(const CP<X>& a, const CP<X>& b, int) { return bp::equivalence(a, b); }
template <class X> bool eqBy(const CR<X>& a, const CR<X>& b, int) { return bp::equivalence(a, b); }
template <class X> bool eqBy(const CS<X>& a, const CS<X>& b, int) { return bp::equivalence(a, b); }

template <class T> T sideOf(const bp::rectangle_data<T>& r, bp::direction_2d d) { return r.get(d); }
template <class T> T sideOf(const CR<T>& r, bp::direction_2d d) { return bp::get(bp::get(r, bp::orientation_2d(d)), bp::direction_1d(d)); }
template <class T> void setSide(bp::rectangle_data<T>& r, bp::direction_2d d, T v) { r.set(d, v); }
template <class T> void setSide(CR<T>& r, bp::direction_2d d, T v) { CI<T> i = bp::get(r, bp::orientation_2d(d)); bp::set(i, bp::direction_1d(d), v); bp::set(r, bp::orientation_2d(d), i); }
template <class T> bp::rectangle_data<T> corners(bp::rectangle_data<T>*, T a, T b, T c, T d) { return bp::rectangle_data<T>(a, b, c, d); }
template <class T> CR<T> corners(CR<T>*, T a, T b, T c, T d) { CR<T> r; CP<T> p, q; p.q[0] = a; p.q[1] = b; q.q[0] = c; q.q[1] = d; bp::set_points(r, p, q); return r; }
template <class F> struct Session {
  typedef typename F::U T; typedef typename F::I I; typedef typename F::P P; typedef typename F::R R; typedef typename F::S S_;
  Rng& g; bool segs; I iv[3]; P pt[3]; R rc[3]; S_ sg[3];
  bool ext; i128 unit, off, LIM;   // LIM: largest magnitude the type's values may take
  static const bool flt = !std::numeric_limits<T>::is_integer;
  Session(Rng& g_, bool s) : g(g_), segs(s) {}
  // ---- values
  i128 tmin() { return flt ? -(((i128)1) << 40) : sizeof(T) == 4 ? (i128)std::numeric_limits<T>::min() : -(((i128)1) << 61); }
  i128 tmax() { return flt ? (((i128)1) << 40) : sizeof(T) == 4 ? (i128)std::numeric_limits<T>::max() : (((i128)1) << 61); }
  bool fit(i128 v) { return v >= tmin() && v <= tmax(); }
  i128 val() {
    if (ext) { static const int d[] = {0, 1, 2, 3}; int w = g.below(4); i128 k = (g.chance(60) ? d[g.below(4)] : (i128)(g.next() % 2000000000)); if (flt) k *= 2; return w == 0 ? tmin() + k : w == 1 ? tmax() - k : w == 2 ? k : -k; }
    return off + unit * (flt ? 2 : 1) * g.range(-4, 4) + (g.chance(10) ? (flt ? 2 : 1) * g.range(-1, 1) : 0);
  }
  void style() {
    ext = g.chance(20); static const ll us[] = {1, 1, 1, 2, 3, 7, 1000, 65536, 1000000, 100000000, 200000000};
    unit = us[g.below(11)]; off = 0; if (g.chance(30)) off = (ll)(g.next() % 2001) - 1000; if (unit <= 100000 && g.chance(20)) off = (g.chance(50) ? 1 : -1) * (i128)900000000; if (flt) off *= 2;
  }
  T t(i128 v) { return (T)v; }
  I mkI(i128 a, i128 b) { return bp::construct<I>(t(a), t(b)); }
  P mkP(i128 a, i128 b) { return bp::construct<P>(t(a), t(b)); }
  // ---- reading back
  static i128 w(T v) { return (i128)v; }
  static i128 lo(const I& i) { return w(bp::low(i)); }
  static i128 hi(const I& i) { return w(bp::high(i)); }
  static i128 X(const P& p) { return w(bp::x(p)); }
  static i128 Y(const P& p) { return w(bp::y(p)); }
  static std::string j(const I& i) { return "[" + big(lo(i)) + "," + big(hi(i)) + "]"; }
  static std::string j(const P& p) { return "[" + big(X(p)) + "," + big(Y(p)) + "]"; }
  static std::string j(const R& r) { return "[" + j2(bp::horizontal(r)) + "," + j2(bp::vertical(r)) + "]"; }
  template <class Q> static std::string j2(const Q& i) { return "[" + big((i128)bp::low(i)) + "," + big((i128)bp::high(i)) + "]"; }
  static std::string j(const S_& s) { return "[" + j(bp::low(s)) + "," + j(bp::high(s)) + "]"; }
  template <class Q> std::string js(const Q* a) { return "[" + j(a[0]) + "," + j(a[1]) + "," + j(a[2]) + "]"; }
  static bp::orientation_2d O(int o) { return o == 1 ? bp::HORIZONTAL : bp::VERTICAL; }
  static bp::direction_1d D1(int d) { return d ? bp::HIGH : bp::LOW; }
  static bp::direction_2d D2(int o, int d) { return O(o).get_direction(D1(d)); }
  static std::string rt(double d) { return big((i128)std::floor(d * 1024 + 0.5)); }
  // ---- loading
  void load() {
    style();
    for (int k = 0; k < 3; ++k) {
      iv[k] = mkI(val(), val()); pt[k] = mkP(val(), val());
      rc[k] = bp::construct<R>(mkI(val(), val()), mkI(val(), val()));
      sg[k] = bp::construct<S_>(mkP(val(), val()), mkP(val(), val()));
    }
    if (g.chance(30)) { // neighbours: a rectangle sharing a span with another, an interval starting where another ends
      int o = g.range(1, 2), d = g.below(2); I x = rng(rc[0], o), y = rng(rc[0], 3 - o); i128 e = d ? hi(x) : lo(x), u = val(); I z = mkI(d ? e : std::min(e, u), d ? std::max(e, u) : e); if (g.chance(30)) z = x; if (g.chance(30)) y = mkI(val(), val());
      rc[1] = o == 1 ? bp::construct<R>(z, y) : bp::construct<R>(y, z); e = g.chance(50) ? lo(iv[0]) : hi(iv[0]); iv[1] = mkI(e, val());
    }
    if (segs && !ext) relate();
    tr::ev(ks("a", "Load") + "," + kv("iv", js(iv)) + "," + kv("pt", js(pt)) + "," + kv("rc", js(rc)) + "," + kv("sg", js(sg)));
  }
  I rng(const R& r, int o) { return mkI(rl(r, o), rh(r, o)); }
  void relate() { // make collinear and incident configurations common
    for (int k = 1; k < 3; ++k) {
      i128 ax = X(bp::low(sg[0])), ay = Y(bp::low(sg[0])), dx = X(bp::high(sg[0])) - ax, dy = Y(bp::high(sg[0])) - ay;
      int how = g.below(5); int m = g.range(1, 3);
      if (how == 0) { i128 a = g.range(-1, 2), b = g.range(-1, 2); if (fit(ax + b * dx) && fit(ay + b * dy)) sg[k] = bp::construct<S_>(mkP(ax + a * dx, ay + a * dy), mkP(ax + b * dx, ay + b * dy)); }
      if (how == 1) { sg[0] = bp::construct<S_>(mkP(ax, ay), mkP(ax + dx * m, ay + dy * m)); int b = g.range(0, m); sg[k] = bp::construct<S_>(mkP(ax + b * dx, ay + b * dy), mkP(val(), val())); }
      if (how == 2) sg[k] = bp::construct<S_>(bp::high(sg[0]), mkP(val(), val()));
      if (how == 3 && g.chance(50)) { P q = mkP(val(), val()); sg[k] = bp::construct<S_>(q, q); }
      if (g.chance(40)) pt[k] = mkP(ax + g.range(-1, m + 1) * dx, ay + g.range(-1, m + 1) * dy);
      if (g.chance(15)) pt[k] = g.chance(50) ? bp::low(sg[k]) : bp::high(sg[k]);
    }
  }
  std::string hd(const char* a, const char* op, int i) { return ks("a", a) + "," + ks("op", op) + "," + kv("i", i + 1); }
  bool mag(i128 m) { // every register within +-m
    auto ok = [&](i128 v) { return v <= m && v >= -m; };
    for (int k = 0; k < 3; ++k) if (!ok(lo(iv[k])) || !ok(hi(iv[k])) || !ok(X(pt[k])) || !ok(Y(pt[k])) || !ok(w(bp::xl(rc[k]))) || !ok(w(bp::xh(rc[k]))) || !ok(w(bp::yl(rc[k]))) || !ok(w(bp::yh(rc[k]))) || !ok(X(bp::low(sg[k]))) || !ok(Y(bp::low(sg[k]))) || !ok(X(bp::high(sg[k]))) || !ok(Y(bp::high(sg[k])))) return false;
    return true;
  }
  bool arith() { return mag(1000000000); }
  // a step that would leave the type's range or turn an interval over is not taken
  bool okI(i128 a, i128 b) { return fit(a) && fit(b) && a <= b; }
  void intervals() {
    int i = g.below(3), k = g.below(3), d = g.below(2), tc = g.below(2); i128 v = val(), w2 = val();
    I& a = iv[i]; const I b = iv[k]; i128 al = lo(a), ah = hi(a), bl = lo(b), bh = hi(b);
    if (g.chance(50)) { // questions
      std::string c, q = "," + kv("j", k + 1) + "," + kv("v", big(v)) + "," + kv("t", tc) + "," + kv("d", d) + ","; const char* op = "?"; bool bb = false; std::string res;
      guarded("interval query", [&] { switch (g.below(13)) {
        case 0: op = "eq"; bb = eqBy(a, b, g.below(3)); break;
        case 1: op = "less"; if (!F::data) { op = "eq"; bb = bp::equivalence(a, b); } else bb = lessBy(a, b, g.below(4)); break;
        case 2: op = "hasv"; bb = tc && g.chance(30) ? bp::contains(a, t(v)) : bp::contains(a, t(v), tc != 0); break;
        case 3: op = "has"; bb = tc && g.chance(30) ? bp::contains(a, b) : bp::contains(a, b, tc != 0); break;
        case 4: op = "inter"; bb = tc && g.chance(30) ? bp::intersects(a, b) : bp::intersects(a, b, tc != 0); break;
        case 5: op = "bound"; bb = bp::boundaries_intersect(a, b, tc != 0); break;
        case 6: op = "abutd"; bb = bp::abuts(a, b, D1(d)); break;
        case 7: op = "abut"; bb = bp::abuts(a, b); break;
        case 8: op = "delta"; res = big((i128)bp::delta(a)); break;
        case 9: op = "center"; res = big(w(bp::center(a))); break;
        case 10: op = "distv"; res = big((i128)bp::euclidean_distance(a, t(v))); break;
        case 11: op = "dist"; res = big((i128)bp::euclidean_distance(a, b)); break;
        default: op = "get"; res = big(w(g.chance(50) ? bp::get(a, D1(d)) : d ? bp::high(a) : bp::low(a)));
      } });
      if (flt && std::string(op) == "center" && ((al + ah) & 1)) return;
      tr::ev(hd("IA", op, i) + q + kv("r", res.empty() ? S(bb) : res)); return;
    }
    const char* op = "?"; bool ret = false; I n = a; int f = g.range(-3, 4), sh = g.range(0, 3); bool done = true, big_v = false;
    guarded("interval change", [&] { switch (g.below(23)) {
      case 0: op = "make"; n = g.chance(50) ? bp::construct<I>(t(v), t(w2)) : mkI(v, w2); break;
      case 1: op = "copy"; if (g.chance(50)) bp::assign(n, b); else n = bp::copy_construct<I>(b); break;
      case 2: op = "set"; if (d ? v < al : v > ah) { done = false; break; } if (g.chance(50)) bp::set(n, D1(d), t(v)); else if (d) bp::high(n, t(v)); else bp::low(n, t(v)); break;
      case 3: op = "flip"; if (!fit(2 * v) || !okI(2 * v - ah, 2 * v - al)) { done = false; break; } if (v == 0 && g.chance(50)) bp::flip(n); else bp::flip(n, t(v)); break;
      case 4: op = "up"; v = g.range(0, 5); if (!okI(al * v, ah * v)) { done = false; break; } bp::scale_up(n, t(v)); break;
      case 5: op = "down"; v = g.range(1, 5); if (flt && ((al % v) || (ah % v))) { done = false; break; } bp::scale_down(n, t(v)); break;
      case 6: op = "scale"; v = g.range(1, 9); w2 = 1 << g.range(0, 3); if (flt || sizeof(T) != 4 || !okI(al * v / w2 - 1, ah * v / w2 + 1)) { done = false; break; } bp::scale(n, (double)v / (double)w2); break;
      case 7: op = "move"; if (!okI(al + v, ah + v)) { done = false; break; } bp::move(n, (typename bp::interval_difference_type<I>::type)v); break;
      case 8: op = "conv"; if (!okI(al + bl, ah + bh)) { done = false; break; } bp::convolve(n, b); break;
      case 9: op = "deconv"; if (!okI(al - bl, ah - bh)) { done = false; break; } bp::deconvolve(n, b); break;
      case 10: op = "rconv"; if (!okI(al - bh, ah - bl)) { done = false; break; } bp::reflected_convolve(n, b); break;
      case 11: op = "rdeconv"; if (!okI(al + bh, ah + bl)) { done = false; break; } bp::reflected_deconvolve(n, b); break;
      case 12: case 13: op = "clip"; ret = tc && g.chance(30) ? bp::intersect(n, b) : bp::intersect(n, b, tc != 0); break;
      case 14: op = "gclip"; bp::generalized_intersect(n, b); break;
      case 15: op = "bloat"; if (!fit(al - v) || !okI(al - v, ah + v)) { done = false; break; } bp::bloat(n, t(v)); break;
      case 16: op = "bloatd"; if (!fit(-v) || !okI(d ? al : al - v, d ? ah + v : ah)) { done = false; break; } bp::bloat(n, D1(d), t(v)); break;
      case 17: op = "shrink"; if (!fit(-v) || !okI(al + v, ah - v)) { done = false; break; } bp::shrink(n, t(v)); break;
      case 18: op = "shrinkd"; if (!fit(-v) || !okI(d ? al : al + v, d ? ah - v : ah)) { done = false; break; } bp::shrink(n, D1(d), t(v)); break;
      case 19: op = "hull"; ret = bp::encompass(n, b); break;
      case 20: op = "hullv"; ret = bp::encompass(n, t(v)); break;
      case 21: op = "half"; if (flt && ((al + ah) & 1)) { done = false; break; } n = bp::get_half(a, D1(d)); break;
      default: op = "join"; ret = bp::join_with(n, b);
    } });
    (void)f; (void)sh; (void)big_v;
    if (!done) return;
    a = n;
    tr::ev(hd("ID", op, i) + "," + kv("j", k + 1) + "," + kv("v", big(v)) + "," + kv("w", big(w2)) + "," + kv("t", tc) + "," + kv("d", d) + "," + kv("n", j(n)) + "," + kv("r", ret));
    // the same step, spelled with value-convolution
    if (g.chance(10) && okI(lo(a) + v, hi(a) + v) && okI(lo(a) - v, hi(a) - v)) {
      bool neg = g.chance(50); guarded("interval convolve", [&] { if (neg) bp::deconvolve(a, t(v)); else bp::convolve(a, t(v)); });
      tr::ev(hd("ID", neg ? "moveback" : "move", i) + "," + kv("v", big(v)) + "," + kv("n", j(a)) + "," + kv("r", 0));
    }
  }
  void points() {
    int i = g.below(3), k = g.below(3), o = g.range(1, 2); i128 v = val(), w2 = val(); P& a = pt[i]; const P b = pt[k];
    if (g.chance(55)) {
      const char* op = "?"; std::string res; bool done = true;
      guarded("point query", [&] { switch (g.below(7)) {
        case 0: op = "eq"; res = S(eqBy(a, b, g.below(3))); break;
        case 1: op = "less"; if (!F::data) { done = false; break; } res = S(lessBy(a, b, g.below(4))); break;
        case 2: op = "get"; res = big(w(g.chance(50) ? bp::get(a, O(o)) : o == 1 ? bp::x(a) : bp::y(a))); break;
        case 3: op = "man"; res = big((i128)bp::manhattan_distance(a, b)); break;
        case 4: op = "gap"; res = big((i128)bp::euclidean_distance(a, b, O(o))); break;
        case 5: op = "d2"; if (!arith()) { done = false; break; } if (flt && !mag(1 << 24)) { done = false; break; } res = big((i128)bp::distance_squared(a, b)); break;
        default: op = "dist"; if (!arith()) { done = false; break; } res = rt((double)bp::euclidean_distance(a, b));
      } });
      if (done) tr::ev(hd("PA", op, i) + "," + kv("j", k + 1) + "," + kv("o", o) + "," + kv("k", 10) + "," + kv("r", res));
      return;
    }
    const char* op = "?"; P n = a; bool done = true;
    guarded("point change", [&] { switch (g.below(9)) {
      case 0: case 8: op = "make"; n = bp::construct<P>(t(v), t(w2)); break;
      case 1: op = "copy"; if (g.chance(50)) bp::assign(n, b); else n = b; break;
      case 2: op = "set"; if (g.chance(50)) bp::set(n, O(o), t(v)); else if (o == 1) bp::x(n, t(v)); else bp::y(n, t(v)); break;
      case 3: op = "conv"; if (!fit(X(a) + X(b)) || !fit(Y(a) + Y(b))) { done = false; break; } bp::convolve(n, b); break;
      case 4: op = "deconv"; if (!fit(X(a) - X(b)) || !fit(Y(a) - Y(b))) { done = false; break; } bp::deconvolve(n, b); break;
      case 5: op = "up"; v = g.range(0, 5); if (!fit(X(a) * v) || !fit(Y(a) * v)) { done = false; break; } bp::scale_up(n, (unsigned)v); break;
      case 6: op = "down"; v = g.range(1, 6); if (flt || !mag(((i128)1) << 45)) { done = false; break; } bp::scale_down(n, (unsigned)v); break;
      default: op = "move"; if (!fit((o == 1 ? X(a) : Y(a)) + v)) { done = false; break; } bp::move(n, O(o), t(v));
    } });
    if (!done) return;
    a = n;
    tr::ev(hd("PD", op, i) + "," + kv("j", k + 1) + "," + kv("v", big(v)) + "," + kv("w", big(w2)) + "," + kv("o", o) + "," + kv("n", j(n)));
  }
  i128 rl(const R& r, int o) { return o == 1 ? w(bp::xl(r)) : w(bp::yl(r)); }
  i128 rh(const R& r, int o) { return o == 1 ? w(bp::xh(r)) : w(bp::yh(r)); }
  template <class L> bool bothOk(L f) { for (int o = 1; o <= 2; ++o) { auto q = f(o); if (!okI(q.first, q.second)) return false; } return true; }
  typedef std::pair<i128, i128> pr;
  void rects() {
    int i = g.below(3), k = g.below(3), p = g.below(3), q = g.below(3), o = g.range(1, 2), d = g.below(2), tc = g.below(2); i128 v = val();
    R& a = rc[i]; const R b = rc[k]; const P& pp = pt[p]; const P& pq = pt[q]; const I& ii = iv[q];
    bool sq = arith() && (!flt || mag(1 << 24));
    std::string com = "," + kv("j", k + 1) + "," + kv("p", p + 1) + "," + kv("q", q + 1) + "," + kv("o", o) + "," + kv("d", d) + "," + kv("t", tc);
    if (g.chance(55)) {
      const char* op = "?"; std::string res; bool done = true; bool b01 = tc != 0;
      guarded("rectangle query", [&] { switch (g.below(26)) {
        case 0: op = "eq"; res = S(eqBy(a, b, g.below(3))); break;
        case 1: op = "get"; res = o == 1 && g.chance(50) ? j2(bp::horizontal(a)) : o == 2 && g.chance(50) ? j2(bp::vertical(a)) : j2(bp::get(a, O(o))); break;
        case 2: op = "side"; res = big(w(g.chance(50) ? sideOf(a, D2(o, d)) : o == 1 ? (d ? bp::xh(a) : bp::xl(a)) : d ? bp::yh(a) : bp::yl(a))); break;
        case 3: op = "has"; res = S(b01 && g.chance(30) ? bp::contains(a, b) : bp::contains(a, b, b01)); break;
        case 4: op = "hasp"; res = S(b01 && g.chance(30) ? bp::contains(a, pp) : bp::contains(a, pp, b01)); break;
        case 5: op = "inter"; res = S(b01 && g.chance(30) ? bp::intersects(a, b) : bp::intersects(a, b, b01)); break;
        case 6: op = "bound"; res = S(bp::boundaries_intersect(a, b, b01)); break;
        case 7: op = "abutd"; res = S(bp::abuts(a, b, D2(o, d))); break;
        case 8: op = "abuto"; res = S(bp::abuts(a, b, O(o))); break;
        case 9: op = "abut"; res = S(bp::abuts(a, b)); break;
        case 10: op = "delta"; res = big((i128)bp::delta(a, O(o))); break;
        case 11: op = "area"; if (!sq) { done = false; break; } res = big((i128)bp::area(a)); break;
        case 12: op = "guess"; res = S(bp::guess_orientation(a) == bp::HORIZONTAL ? 1 : 2); break;
        case 13: op = "half"; if (sizeof(T) != 4 && ext) { done = false; break; } res = big((i128)bp::half_perimeter(a)); break;
        case 14: op = "perim"; if (sizeof(T) != 4 && ext) { done = false; break; } res = big((i128)bp::perimeter(a)); break;
        case 15: op = "less"; res = S(bp::less_rectangle_concept<R, R>(O(o))(a, b)); break;
        case 16: op = "center"; { if (flt) { done = false; break; } P c = pt[0]; bp::center(c, a); res = j(c); break; }
        case 17: op = "corner"; { P c = pt[0]; bp::get_corner(c, a, D2(o, d), D1(tc)); res = j(c); break; }
        case 18: op = "gapp"; res = big((i128)bp::euclidean_distance(a, pp, O(o))); break;
        case 19: op = "gap"; res = big((i128)bp::euclidean_distance(a, b, O(o))); break;
        case 20: op = "manp"; if (sizeof(T) != 4 && ext) { done = false; break; } res = big((i128)bp::manhattan_distance(a, pp)); break;
        case 21: op = "man"; if (sizeof(T) != 4 && ext) { done = false; break; } res = big((i128)bp::manhattan_distance(a, b)); break;
        case 22: op = "d2p"; if (!sq) { done = false; break; } res = big((i128)bp::square_euclidean_distance(a, pp)); break;
        case 23: op = "d2"; if (!sq) { done = false; break; } res = big((i128)bp::square_euclidean_distance(a, b)); break;
        case 24: op = "distp"; if (!sq) { done = false; break; } res = rt((double)bp::euclidean_distance(a, pp)); break;
        default: op = "dist"; if (!sq) { done = false; break; } res = rt((double)bp::euclidean_distance(a, b));
      } });
      if (done) tr::ev(hd("RA", op, i) + com + "," + kv("k", 10) + "," + kv("r", res));
      return;
    }
    const char* op = "?"; R n = a; bool done = true, ret = false; i128 il = lo(ii), ih = hi(ii), px = X(pp), py = Y(pp);
    auto P2 = [&](int oo) { return oo == 1 ? px : py; };
    auto bad = [&](bool c) { if (c) done = false; return c; };
    int which = g.below(28);
    guarded("rectangle change", [&] { switch (which) {
      case 0: case 26: op = "make"; if (g.chance(50)) bp::set_points(n, pp, pq); else n = g.chance(50) ? bp::construct<R>(t(std::min(X(pp), X(pq))), t(std::min(Y(pp), Y(pq))), t(std::max(X(pp), X(pq))), t(std::max(Y(pp), Y(pq)))) : corners((R*)0, t(X(pp)), t(Y(pp)), t(X(pq)), t(Y(pq))); break;
      case 1: op = "copy"; if (g.chance(50)) bp::assign(n, b); else n = bp::copy_construct<R>(b); break;
      case 2: op = "seti"; if (g.chance(50)) bp::set(n, O(o), ii); else if (o == 1) bp::horizontal(n, ii); else bp::vertical(n, ii); break;
      case 3: op = "setd"; if (bad(d ? v < rl(a, o) : v > rh(a, o))) break; if (g.chance(50)) setSide(n, D2(o, d), t(v)); else if (o == 1) { if (d) bp::xh(n, t(v)); else bp::xl(n, t(v)); } else { if (d) bp::yh(n, t(v)); else bp::yl(n, t(v)); } break;
      case 4: op = "move"; if (bad(!okI(rl(a, o) + v, rh(a, o) + v))) break; bp::move(n, O(o), (typename bp::rectangle_difference_type<R>::type)v); break;
      case 5: op = "conv"; if (bad(!bothOk([&](int x) { return pr(rl(a, x) + rl(b, x), rh(a, x) + rh(b, x)); }))) break; bp::convolve(n, b); break;
      case 6: op = "deconv"; if (bad(!bothOk([&](int x) { return pr(rl(a, x) - rl(b, x), rh(a, x) - rh(b, x)); }))) break; bp::deconvolve(n, b); break;
      case 7: op = "rconv"; if (bad(!bothOk([&](int x) { return pr(rl(a, x) - rh(b, x), rh(a, x) - rl(b, x)); }))) break; bp::reflected_convolve(n, b); break;
      case 8: op = "rdeconv"; if (bad(!bothOk([&](int x) { return pr(rl(a, x) + rh(b, x), rh(a, x) + rl(b, x)); }))) break; bp::reflected_deconvolve(n, b); break;
      case 9: op = "convp"; if (bad(!bothOk([&](int x) { return pr(rl(a, x) + P2(x), rh(a, x) + P2(x)); }))) break; bp::convolve(n, pp); break;
      case 10: op = "deconvp"; if (bad(!bothOk([&](int x) { return pr(rl(a, x) - P2(x), rh(a, x) - P2(x)); }))) break; bp::deconvolve(n, pp); break;
      case 11: op = "clipi"; ret = tc && g.chance(30) ? bp::intersect(n, ii, O(o)) : bp::intersect(n, ii, O(o), tc != 0); break;
      case 12: case 13: op = "clip"; ret = tc && g.chance(30) ? bp::intersect(n, b) : bp::intersect(n, b, tc != 0); break;
      case 14: op = "gclip"; bp::generalized_intersect(n, b); break;
      case 15: case 16: { op = "bloato"; bool s = which == 16; i128 u = s ? -v : v; if (bad(!fit(-v) || !okI(rl(a, o) - u, rh(a, o) + u))) break; if (s) bp::shrink(n, O(o), t(v)); else bp::bloat(n, O(o), t(v)); v = u; break; }
      case 17: case 18: { op = "bloat"; bool s = which == 18; i128 u = s ? -v : v; if (bad(!fit(-v) || !bothOk([&](int x) { return pr(rl(a, x) - u, rh(a, x) + u); }))) break; if (s) bp::shrink(n, t(v)); else bp::bloat(n, t(v)); v = u; break; }
      case 19: case 20: { op = "bloatd"; bool s = which == 20; i128 u = s ? -v : v; if (bad(!fit(-v) || !okI(d ? rl(a, o) : rl(a, o) - u, d ? rh(a, o) + u : rh(a, o)))) break; if (s) bp::shrink(n, D2(o, d), t(v)); else bp::bloat(n, D2(o, d), t(v)); v = u; break; }
      case 21: op = "hulli"; ret = bp::encompass(n, ii, O(o)); break;
      case 22: op = "hull"; ret = bp::encompass(n, b); break;
      case 23: op = "hullp"; ret = bp::encompass(n, pp); break;
      case 24: op = "halfd"; if (bad(flt)) break; n = bp::get_half(a, D2(o, d)); break;
      case 25: { bool s = g.chance(50); op = s ? "down" : "up"; v = g.range(s ? 1 : 0, 5); if (s) { if (bad(flt)) break; bp::scale_down(n, (unsigned)v); } else { if (bad(!bothOk([&](int x) { return pr(rl(a, x) * v, rh(a, x) * v); }))) break; bp::scale_up(n, (unsigned)v); } break; }
      default: op = "join"; ret = bp::join_with(n, b);
    } });
    (void)il; (void)ih;
    if (!done) return;
    a = n;
    tr::ev(hd("RD", op, i) + com + "," + kv("v", big(v)) + "," + kv("n", j(n)) + "," + kv("r", ret));
  }
  static std::string dp(bp::direction_2d d) { return "[" + S(bp::orientation_2d(d).to_int() + 1) + "," + S(bp::direction_1d(d).to_int()) + "]"; }
  void directions() {
    int o = g.range(1, 2), d = g.below(2); std::string f;
    guarded("isotropy", [&] {
      bp::direction_2d u = o == 1 ? (d ? bp::direction_2d(bp::EAST) : bp::direction_2d(bp::WEST)) : d ? bp::direction_2d(bp::NORTH) : bp::direction_2d(bp::SOUTH);
      bp::direction_1d e(u), e2 = e; bp::orientation_2d oo(u), op = oo.get_perpendicular(), ot = oo; ot.turn_90(); e2.backward();
      bp::direction_3d u3(u); bp::direction_3d b3 = u3.backward(); bp::orientation_3d o3(u3), ob3(b3);
      f = "{" + kv("o", o) + "," + kv("d", d) + "," + kv("left", dp(u.left())) + "," + kv("right", dp(u.right())) + "," + kv("back", dp(u.backward())) + "," + kv("turn1", dp(u.turn(bp::HIGH))) + "," + kv("turn0", dp(u.turn(bp::LOW)))
        + "," + kv("pos", u.is_positive()) + "," + kv("neg", u.is_negative()) + "," + kv("sign", u.get_sign()) + "," + kv("axis", oo.to_int() + 1) + "," + kv("end", e.to_int()) + "," + kv("again", dp(oo.get_direction(e)))
        + "," + kv("perp", (op == ot ? op.to_int() : 7) + 1) + "," + kv("back1", e2.to_int()) + "," + kv("sign1", e.get_sign())
        + "," + kv("back3", "[" + S(ob3.to_int() + 1) + "," + S(bp::direction_1d(b3).to_int()) + "]") + "," + kv("axis3", o3.to_int() + 1) + "," + kv("end3", bp::direction_1d(u3).to_int()) + "}";
    });
    tr::ev(ks("a", "Dir") + "," + kv("f", f));
  }
  void segments() {
    int i = g.below(3), k = g.below(3), p = g.below(3), q = g.below(3), o = g.range(1, 2), d = g.below(2), tc = g.below(2); i128 v = val();
    S_& a = sg[i]; const S_ b = sg[k]; const P& pp = pt[p]; const P& pq = pt[q];
    std::string com = "," + kv("j", k + 1) + "," + kv("p", p + 1) + "," + kv("q", q + 1) + "," + kv("o", o) + "," + kv("d", d) + "," + kv("t", tc) + "," + kv("k", 10);
    bool cross = mag(flt ? (i128)1 << 24 : sizeof(T) == 4 ? (i128)1 << 40 : (i128)1 << 30), near = mag(1 << 20);
    if (g.chance(75)) {
      const char* op = "?"; std::string res; bool done = true, b01 = tc != 0; auto bad = [&](bool c) { if (c) done = false; return c; };
      guarded("segment query", [&] { switch (g.below(18)) {
        case 0: op = "eq"; res = S(eqBy(a, b, g.below(3))); break;
        case 1: op = "less"; if (bad(!F::data)) break; res = S(lessBy(a, b, g.below(4))); break;
        case 2: op = "get"; res = j(g.chance(50) ? bp::get(a, D1(d)) : d ? bp::high(a) : bp::low(a)); break;
        case 3: case 15: op = "orient"; if (bad(!cross)) break; res = S(bp::orientation(a, b)); break;
        case 4: case 16: op = "side"; if (bad(!cross)) break; res = S(bp::orientation(a, pp)); break;
        case 5: case 17: op = "hasp"; if (bad(!cross)) break; res = S(b01 && g.chance(30) ? bp::contains(a, pp) : bp::contains(a, pp, b01)); break;
        case 6: op = "has"; if (bad(!cross)) break; res = S(b01 && g.chance(30) ? bp::contains(a, b) : bp::contains(a, b, b01)); break;
        case 7: case 8: case 9: op = "inter"; if (bad(!cross)) break; res = S(b01 && g.chance(30) ? bp::intersects(a, b) : bp::intersects(a, b, b01)); break;
        case 10: op = "abutd"; res = S(bp::abuts(a, b, D1(d))); break;
        case 11: op = "abut"; res = S(bp::abuts(a, b)); break;
        case 12: op = "center"; if (bad(flt)) break; res = j(bp::center(a)); break;
        case 13: if (g.chance(50)) { op = "len"; if (bad(!arith())) break; res = rt((double)bp::length(a)); } else { op = "distp"; if (bad(!near)) break; res = rt((double)bp::euclidean_distance(a, pp)); } break;
        default: op = g.chance(50) ? "dist" : "distp"; if (bad(!near)) break; res = rt(op[4] ? (double)bp::euclidean_distance(a, pp) : (double)bp::euclidean_distance(a, b));
      } });
      if (done) tr::ev(hd("SA", op, i) + com + "," + kv("r", res));
      return;
    }
    const char* op = "?"; S_ n = a; bool done = true; auto bad = [&](bool c) { if (c) done = false; return c; }; int ax[3] = {g.below(2), g.below(2), g.below(2)};
    i128 c[4] = {X(bp::low(a)), Y(bp::low(a)), X(bp::high(a)), Y(bp::high(a))};
    auto all = [&](std::function<i128(int)> h) { for (int m = 0; m < 4; ++m) if (!fit(h(m))) return false; return true; };
    guarded("segment change", [&] { switch (g.below(9)) {
      case 0: op = "make"; n = bp::construct<S_>(pp, pq); break;
      case 1: op = "copy"; if (g.chance(50)) bp::assign(n, b); else n = bp::copy_construct<S_>(b); break;
      case 2: op = "set"; if (g.chance(50)) bp::set(n, D1(d), pp); else if (d) bp::high(n, pp); else bp::low(n, pp); break;
      case 3: op = "move"; if (bad(!all([&](int m) { return c[m] + v; }))) break; bp::move(n, O(o), t(v)); break;
      case 4: op = "conv"; if (bad(!all([&](int m) { return c[m] + (m % 2 ? Y(pp) : X(pp)); }))) break; bp::convolve(n, pp); break;
      case 5: op = "deconv"; if (bad(!all([&](int m) { return c[m] - (m % 2 ? Y(pp) : X(pp)); }))) break; bp::deconvolve(n, pp); break;
      case 6: op = "up"; v = g.range(0, 4); if (bad(!all([&](int m) { return c[m] * v; }))) break; bp::scale_up(n, (unsigned)v); break;
      case 7: op = "down"; v = g.range(1, 5); if (bad(flt || !mag(((i128)1) << 45))) break; bp::scale_down(n, (unsigned)v); break;
      default: op = "axis"; { if (bad(!all([&](int m) { return -c[m]; }))) break;
        static const bp::axis_transformation::ATR tab[8] = {bp::axis_transformation::NULL_TRANSFORM, bp::axis_transformation::FLIP_Y, bp::axis_transformation::FLIP_X, bp::axis_transformation::ROTATE_LEFT, bp::axis_transformation::FLIP_SWAP_XY, bp::axis_transformation::SWAP_XY, bp::axis_transformation::ROTATE_LEFT, bp::axis_transformation::ROTATE_RIGHT};
        (void)tab; // pick by effect: the transformation whose images of (1,0) and (0,1) match ax
        for (int e = 0; e < 8; ++e) { bp::axis_transformation x((bp::axis_transformation::ATR)e); int u0 = 1, u1 = 0, w0 = 0, w1 = 1; x.transform(u0, u1); x.transform(w0, w1);
          int e0 = 1, e1 = 0, f0 = 0, f1 = 1; if (ax[0]) { std::swap(e0, e1); std::swap(f0, f1); } if (ax[1]) { e0 = -e0; f0 = -f0; } if (ax[2]) { e1 = -e1; f1 = -f1; }
          if (u0 == e0 && u1 == e1 && w0 == f0 && w1 == f1) bp::transform(n, x); } }
    } });
    if (!done) return;
    a = n;
    tr::ev(hd("SD", op, i) + com + "," + kv("v", big(v)) + "," + kv("x", "[" + S(ax[0]) + "," + S(ax[1]) + "," + S(ax[2]) + "]") + "," + kv("n", j(n)));
  }
  void run() {
    load(); int n = g.range(8, 40);
    for (int s = 0; s < n; ++s) {
      if (g.chance(8) || (segs && !ext && g.chance(10))) load();
      if (segs) { if (g.chance(90)) segments(); else points(); continue; }
      int w = g.below(100);
      if (w < 40) intervals(); else if (w < 52) points(); else if (w < 98) rects(); else directions();
    }
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; Rng g(strtoull(argv[2], 0, 10)); int n = atoi(argv[3]); tr::install(argv[4]);
  bool segs = mode == "seg";
  for (int k = 0; k < n; ++k) {
    tr::begin(kv("id", k));
    switch (g.below(5)) {
      case 0: case 1: { Session<DataFam<int> > s(g, segs); s.run(); break; }
      case 2: { Session<UserFam<int> > s(g, segs); s.run(); break; }
      case 3: { Session<DataFam<long long> > s(g, segs); s.run(); break; }
      default: { Session<DataFam<double> > s(g, segs); s.run(); }
    }
    tr::end();
  }
  tr::close();
}
