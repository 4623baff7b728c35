// Conformance driver for the predicates of the Voronoi builder (spec/VoroPred.tla).
// usage: pred <mode> <seed> <ntraces> <outfile>
//   direct  predicates called with arguments over the whole coordinate range, also nearly degenerate ones
//   run     every decision taken while a builder constructs the diagram of a small set of sites
//   wide    the same for sites over the whole coordinate range
#include "vorogen.hpp"
static std::string dy(double d) { if (d == 0) return "[0],0"; if (!std::isfinite(d)) return "[1,1],99999"; int e; double f = std::frexp(d, &e); ll m = (ll)std::ldexp(f, 53); e -= 53; while (!(m & 1)) { m /= 2; ++e; } return big(m) + "," + std::to_string(e); }
static std::string pt(ll x, ll y) { return "[" + big(x) + "," + big(y) + "]"; }
template <class S> std::string site(const S& s) {
  return "{" + kv("k", s.is_segment() ? 2 : 1) + "," + kv("p", pt(s.x0(), s.y0())) + "," + kv("q", pt(s.x1(), s.y1())) + "," + kv("i", s.is_inverse() ? 1 : 0) + "," + kv("n", (ll)s.sorted_index()) + "}"; }
static std::string root(ll a, ll b) { // h, k: h = floor(2^k * length)
  unsigned __int128 l2 = (unsigned __int128)((i128)a * a) + (unsigned __int128)((i128)b * b); int k = 0; while (k < 62 && !(l2 >> 122)) { l2 <<= 2; ++k; }
  unsigned __int128 h = (unsigned __int128)sqrtl((long double)l2); while (h * h > l2) --h; while ((h + 1) * (h + 1) <= l2) ++h; return "[" + big((i128)h) + "," + std::to_string(k) + "]"; }
template <class S> std::string siteh(const S& s) { std::string r = site(s); r.pop_back(); return r + "," + kv("h", s.is_segment() ? root((ll)s.x1() - s.x0(), (ll)s.y1() - s.y0()) : std::string("[]")) + "}"; }
static int left_events = 0;
static Rng dice(1); static bool room(int pct = 100) { return left_events > 0 && (pct == 100 || dice.chance(pct)) && left_events--; }
template <class CTT> class RP : public bd::voronoi_predicates<CTT> { public:
  typedef bd::voronoi_predicates<CTT> B;
  template <class S, class C> class event_comparison_predicate { typename B::template event_comparison_predicate<S, C> f; public:
    bool operator()(const S& a, const S& b) const { bool r = f(a, b); if (room(20)) tr::ev(ks("a", "SiteLess") + "," + kv("s", site(a)) + "," + kv("t", site(b)) + "," + kv("r", r)); return r; }
    bool operator()(const S& a, const C& c) const { bool r = f(a, c); if (room()) tr::ev(ks("a", "SiteFirst") + "," + kv("s", site(a)) + "," + kv("l", "[" + dy(c.lower_x()) + "]") + "," + kv("r", r)); return r; }
    bool operator()(const C& c, const S& b) const { bool r = f(c, b); return r; }
    bool operator()(const C& c, const C& d) const { bool r = f(c, d); if (room(20)) tr::ev(ks("a", "CircleLess") + "," + kv("c", "[" + dy(c.lower_x()) + "," + dy(c.y()) + "]") + "," + kv("d", "[" + dy(d.lower_x()) + "," + dy(d.y()) + "]") + "," + kv("r", r)); return r; } };
  template <class N> class node_comparison_predicate { typename B::template node_comparison_predicate<N> f; typedef typename N::site_type S; typedef typename S::point_type T;
    static const S& newer(const N& n) { return n.left_site().sorted_index() > n.right_site().sorted_index() ? n.left_site() : n.right_site(); }
    static T at(const S& s) { return s.x0() < s.x1() || (s.x0() == s.x1() && s.y0() < s.y1()) ? s.point0() : s.point1(); } public:
    bool operator()(const N& m, const N& n) const { bool r = f(m, n); T p = at(newer(m)), q = at(newer(n));
      if (p.x() != q.x() && room()) { const N& o = p.x() < q.x() ? m : n; T z = p.x() < q.x() ? q : p;
        tr::ev(ks("a", "Above") + "," + kv("s", siteh(o.left_site())) + "," + kv("t", siteh(o.right_site())) + "," + kv("z", pt(z.x(), z.y())) + "," + kv("r", p.x() < q.x() ? r : !r)); }
      return r; } };
  template <class S, class C> class circle_formation_predicate { typename B::template circle_formation_predicate<S, C> f; public:
    bool operator()(const S& a, const S& b, const S& c, C& o) { bool r = f(a, b, c, o); C q; bool cand = !r && candidate(a, b, c, q);
      if (room()) tr::ev(ks("a", "Circle") + "," + kv("b", 1) + "," + kv("s", site(a)) + "," + kv("t", site(b)) + "," + kv("u", site(c)) + "," + kv("r", r) + "," + kv("c", r ? three(o) : cand ? three(q) : std::string("[]")));
      return r; }
    // the circle the formation functor gives although the event was refused
    static std::string three(const C& o) { return "[" + dy(o.x()) + "," + dy(o.y()) + "," + dy(o.lower_x()) + "]"; }
    static bool candidate(const S& a, const S& b, const S& c, C& o) { typename B::template lazy_circle_formation_functor<S, C> ff; o = C(NAN, NAN, NAN);
      int n = a.is_segment() + b.is_segment() + c.is_segment();
      if (a.sorted_index() == b.sorted_index() || b.sorted_index() == c.sorted_index() || (n > 1 && a.sorted_index() == c.sorted_index())) return false;
      if (n == 1) { if (a.is_segment()) ff.pps(b, c, a, 1, o); else if (b.is_segment()) ff.pps(a, c, b, 2, o); else ff.pps(a, b, c, 3, o); }
      else if (n == 2) { if (!a.is_segment()) ff.pss(a, b, c, 1, o); else if (!b.is_segment()) ff.pss(b, a, c, 2, o); else ff.pss(c, a, b, 3, o); }
      else if (n == 3) ff.sss(a, b, c, o); else return false;
      return std::isfinite(o.x()) && std::isfinite(o.y()) && std::isfinite(o.lower_x()); } };
};
typedef bd::voronoi_ctype_traits<int> CT; typedef bd::voronoi_predicates<CT> VP; typedef bd::point_2d<int> T2; typedef bd::site_event<int> SE; typedef bd::circle_event<double> CE;
typedef bp::voronoi_builder<int, CT, RP<CT>> VB;
static void run(Rng& g, const Input& in) {
  VB b; for (auto& p : in.pts) b.insert_point((int)p.x, (int)p.y); for (auto& s : in.segs) b.insert_segment((int)s.a.x, (int)s.a.y, (int)s.b.x, (int)s.b.y);
  dice = Rng(g.next()); left_events = 120; bp::voronoi_diagram<double> vd; b.construct(&vd); left_events = 0; (void)g;
}
// triples of points, many of them nearly on a line
static void triple(Rng& g, P* p) {
  int bits = g.range(1, 31); ll M = (1ll << bits) - 1; auto rnd = [&](ll lo, ll hi) { return lo + (ll)(g.next() % (uint64_t)(hi - lo + 1)); };
  auto any = [&] { if (g.chance(25)) { const ll E[] = {-M - 1, -M, -1, 0, 1, M - 1, M}; return P{E[g.below(7)], E[g.below(7)]}; } return P{rnd(-M - 1, M), rnd(-M - 1, M)}; };
  for (int i = 0; i < 3; ++i) p[i] = any();
  if (g.chance(60)) { // p[2] close to the line of the others
    ll d = 1 + g.below(7); ll dx = (p[1].x - p[0].x) / d, dy = (p[1].y - p[0].y) / d, k = g.range(-1, 8); int j = g.chance(30) ? 0 : 1;
    p[2] = P{std::max(-M - 1, std::min(M, p[0].x + dx * k + (j ? g.range(-1, 1) : 0))), std::max(-M - 1, std::min(M, p[0].y + dy * k + (j ? g.range(-1, 1) : 0)))}; }
  if (g.chance(30)) std::swap(p[g.below(3)], p[g.below(3)]);
}
static T2 t2(const P& p) { return T2((int)p.x, (int)p.y); }
static SE point_site(const P& p, int n) { SE s((int)p.x, (int)p.y); s.sorted_index(n); return s; }
static SE seg_site(const P& p, const P& q, int n, bool inv) { SE s = p < q ? SE((int)p.x, (int)p.y, (int)q.x, (int)q.y) : SE((int)q.x, (int)q.y, (int)p.x, (int)p.y); if (inv) s.inverse(); s.sorted_index(n); return s; }
static void direct(Rng& g) {
  static VP::event_comparison_predicate<SE, CE> less; static VP::distance_predicate<SE> above; static VP::circle_formation_predicate<SE, CE> form;
  for (int n = g.range(4, 12); n > 0; --n) { P p[3]; triple(g, p); int w = g.below(10);
    if (w < 3) tr::ev(ks("a", "Turn") + "," + kv("s", "[" + pt(p[0].x, p[0].y) + "," + pt(p[1].x, p[1].y) + "," + pt(p[2].x, p[2].y) + "]") + "," + kv("r", (int)VP::ot::eval(t2(p[0]), t2(p[1]), t2(p[2]))));
    else if (w < 5) { P q[3]; triple(g, q); ll v[4] = {p[1].x - p[0].x, p[1].y - p[0].y, g.chance(50) ? q[1].x - q[0].x : p[2].x - p[0].x, g.chance(50) ? q[1].y - q[0].y : p[2].y - p[0].y};
      double d = VP::robust_cross_product(v[0], v[1], v[2], v[3]);
      tr::ev(ks("a", "Cross") + "," + kv("s", "[" + pt(v[0], v[1]) + "," + pt(v[2], v[3]) + "]") + "," + kv("v", "[" + dy(d) + "]") + "," + kv("r", (int)VP::ot::eval(v[0], v[1], v[2], v[3]))); }
    else if (w < 6) { SE s[2]; int k = g.below(4); P q[2] = {p[2], p[1]}; if (g.chance(60)) q[0].x = p[0].x; if (g.chance(40)) q[0].y = p[0].y; if (g.chance(30)) q[1].x = q[0].x; if (g.chance(30)) p[1].x = p[0].x;
      s[0] = (k & 1) && !(p[0] == p[1]) ? seg_site(p[0], p[1], 0, false) : point_site(p[0], 0); s[1] = (k & 2) && !(q[0] == q[1]) ? seg_site(q[0], q[1], 1, false) : point_site(q[0], 1);
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) tr::ev(ks("a", "SiteLess") + "," + kv("s", site(s[i])) + "," + kv("t", site(s[j])) + "," + kv("r", less(s[i], s[j]))); }
    else if (w < 8) { // two arcs of points and a point to the right
      P* z = std::max_element(p, p + 3); std::swap(*z, p[2]); if (p[0].x >= p[2].x || p[1].x >= p[2].x || p[0] == p[1]) continue;
      if (g.chance(30)) { // close to a tie: the same distance along the horizontal line
        ll d = p[2].x - p[0].x; p[1] = P{p[2].x - d, 2 * p[2].y - p[0].y + g.range(-1, 1)}; if (p[1].y < -2147483648ll || p[1].y > 2147483647ll || p[0] == p[1]) continue; }
      SE a = point_site(p[0], p[0] < p[1] ? 0 : 1), b = point_site(p[1], p[0] < p[1] ? 1 : 0);
      tr::ev(ks("a", "Above") + "," + kv("s", site(a)) + "," + kv("t", site(b)) + "," + kv("z", pt(p[2].x, p[2].y)) + "," + kv("r", above(a, b, t2(p[2])))); }
    else { if (p[0] == p[1] || p[1] == p[2] || p[0] == p[2]) continue; CE c; SE s[3] = {point_site(p[0], 0), point_site(p[1], 1), point_site(p[2], 2)}; bool r = form(s[0], s[1], s[2], c);
      tr::ev(ks("a", "Circle") + "," + kv("b", 0) + "," + kv("s", site(s[0])) + "," + kv("t", site(s[1])) + "," + kv("u", site(s[2])) + "," + kv("r", r) + "," + kv("c", r ? "[" + dy(c.x()) + "," + dy(c.y()) + "," + dy(c.lower_x()) + "]" : std::string("[]"))); } }
}
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]); tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i); tr::begin(kv("i", i));
    if (mode == "direct") guarded("direct", [&] { direct(g); });
    else { int k = g.below(6); if (k > 3) k = 9; Input in = mode == "run" ? small_input(g) : wide_input(g, k); guarded(mode.c_str(), [&] { run(g, in); }); }
    tr::end();
  }
  tr::close(); return 0;
}
