// Growing and shrinking arbitrary-angle polygon sets (see spec/Grow.tla):
// a shape is loaded, resized once, and points near the expected outline are
// recorded with what the result says about them.
#include "arr.hpp"
#include "big.hpp"
using namespace bp::operators;
static std::string bp2(ll x, ll y) { return "[" + big(x) + "," + big(y) + "]"; }
static std::string ring_js(const Ring& r) { std::vector<std::string> v; for (auto& p : r) v.push_back(bp2(p.first, p.second)); return arrs(v); }
struct Session {
  Rng& g; std::vector<Ring> s; bool convex = false;
  Session(Rng& g_) : g(g_) {}
  // the convex hull of random points
  Ring hull(int n, int N) {
    std::vector<IP> p; for (int i = 0; i < n; ++i) p.push_back(IP(g.range(0, N), g.range(0, N)));
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); Ring h;
    for (int k = 0; k < 2; ++k) { size_t b = h.size(); for (auto& q : p) { while (h.size() >= b + 2 && icross(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); }
    if (g.chance(50)) std::reverse(h.begin(), h.end());
    if (!h.empty()) std::rotate(h.begin(), h.begin() + g.below((int)h.size()), h.end());
    return h;
  }
  template <class T> static bp::polygon_data<T> poly(const Ring& r) { std::vector<bp::point_data<T> > v; for (auto& p : r) v.push_back(bp::point_data<T>((T)p.first, (T)p.second)); return bp::polygon_data<T>(v.begin(), v.end()); }
  template <class T> static bp::polygon_with_holes_data<T> shape(const std::vector<Ring>& s) { bp::polygon_with_holes_data<T> p; auto o = poly<T>(s[0]); bp::set_points(p, o.begin(), o.end()); std::vector<bp::polygon_data<T> > h; for (size_t k = 1; k < s.size(); ++k) h.push_back(poly<T>(s[k])); bp::set_holes(p, h.begin(), h.end()); return p; }
  template <class P> static Ring ring(const P& p) { Ring r; for (auto i = bp::begin_points(p); i != bp::end_points(p); ++i) r.push_back(IP((ll)i->x(), (ll)i->y())); while (r.size() > 1 && r.front() == r.back()) r.pop_back(); return r; }
  static bool on_ring(const Ring& r, const IP& p) { for (size_t i = 0; i < r.size(); ++i) if (on_seg(r[i], r[(i + 1) % r.size()], p)) return true; return false; }
  // 1 inside, 0 outside, 2 on the outline
  template <class C> static int side(const C& c, const IP& p) {
    int in = 0; for (auto& q : c) { Ring o = ring(q); if (on_ring(o, p)) return 2; bool i = in_ring(o, p); for (auto h = q.begin_holes(); h != q.end_holes(); ++h) { Ring w = ring(*h); if (on_ring(w, p)) return 2; if (in_ring(w, p)) i = false; } if (i) in = 1; } return in; }
  // every edge of the convex shape is still there (with some length) after moving all of them by r
  static bool edges_survive(Ring o, ll r) {
    if (ring_area2(o) < 0) std::reverse(o.begin(), o.end());
    size_t n = o.size(); std::vector<double> x(n), y(n);
    for (size_t i = 0; i < n; ++i) { IP c = o[(i + n - 1) % n], a = o[i], b = o[(i + 1) % n]; double ux = a.first - c.first, uy = a.second - c.second, vx = b.first - a.first, vy = b.second - a.second, m = sqrt(ux * ux + uy * uy), l = sqrt(vx * vx + vy * vy);
      double n1x = uy / m, n1y = -ux / m, n2x = vy / l, n2y = -vx / l, k = r / (1 + n1x * n2x + n1y * n2y); x[i] = a.first + (n1x + n2x) * k; y[i] = a.second + (n1y + n2y) * k; }
    for (size_t i = 0; i < n; ++i) { size_t j = (i + 1) % n; double vx = o[j].first - o[i].first, vy = o[j].second - o[i].second; if ((x[j] - x[i]) * vx + (y[j] - y[i]) * vy < 12 * sqrt(vx * vx + vy * vy)) return false; }
    return true;
  }
  template <class T> void go() {
    bool arc = g.chance(55); convex = !arc; s.clear(); int N = g.chance(60) ? g.range(60, 400) : g.range(400, 6000);
    if (convex) { Ring h; do h = hull(g.range(3, 9), N); while (h.size() < 3 || std::llabs(ring_area2(h)) < N * 4); s.push_back(h); }
    else { AGen t(g, g.range(3, 9), g.below(3)); AShape q = t.shape(); s.push_back(q.out); for (auto& h : q.holes) s.push_back(h); ll f = std::max(1, N / t.N); for (auto& r : s) for (auto& p : r) { p.first *= f; p.second *= f; } }
    ll ox = g.chance(50) ? 0 : g.range(-2000000, 2000000), oy = g.chance(50) ? 0 : g.range(-2000000, 2000000); for (auto& r : s) for (auto& p : r) { p.first += ox; p.second += oy; }
    ll r = g.chance(50) ? g.range(1, N / 8) : g.range(1, N / 2); if (g.chance(45)) r = -r; if (arc) r = r < 0 ? std::min(r, -9ll) : std::max(r, 9ll); int n = g.chance(20) ? g.below(4) : g.range(4, 24); int ne = n < 3 ? 4 : n;
    if (convex && r < 0) while (!edges_survive(s[0], r)) { if (r == -1) { r = 1; break; } r /= 2; }
    std::vector<std::string> v; for (auto& q : s) v.push_back(ring_js(q)); tr::ev(ks("a", "Load") + "," + kv("s", arrs(v)));
    std::vector<bp::polygon_with_holes_data<T> > out;
    guarded("resize", [&] {
      int how = g.below(6);
      if (how < 3) {
        bp::polygon_set_data<T> ps; if (g.chance(50)) ps.insert(shape<T>(s)); else bp::assign(ps, shape<T>(s));
        if (arc) { if (how == 0) ps.resize((T)r, true, n); else bp::resize(ps, (T)r, true, n); }
        else switch (how) { case 0: ps.resize((T)r); break; case 1: if (r > 0) ps.bloat((unsigned)r); else ps.shrink((unsigned)-r); break; default: if (g.chance(50)) ps += (T)r; else ps -= (T)-r; }
        ps.get(out);
      } else {
        std::vector<bp::polygon_with_holes_data<T> > ps; ps.push_back(shape<T>(s)); typedef typename bp::coordinate_traits<T>::unsigned_area_type UA;
        if (arc) bp::resize(ps, (T)r, true, n); else switch (how) { case 3: bp::resize(ps, (T)r); break; case 4: if (r > 0) bp::bloat(ps, (UA)r); else bp::shrink(ps, (UA)-r); break; default: if (g.chance(50)) ps = ps + (T)r; else ps = ps - (T)-r; }
        bp::polygon_set_data<T> q; q.insert(ps.begin(), ps.end()); q.get(out);
      } });
    std::vector<std::string> p; std::vector<int> in;
    for (int k = g.range(8, 16); k > 0; --k) {
      const Ring& o = s[g.below((int)s.size())]; size_t i = g.below((int)o.size()); IP a = o[i], b = o[(i + 1) % o.size()], c = o[(i + o.size() - 1) % o.size()]; double dx = b.first - a.first, dy = b.second - a.second, l = sqrt(dx * dx + dy * dy), t = g.below(1001) / 1000.0; IP q;
      double w = (double)std::llabs(r) * (g.chance(20) ? 2 : 1) + g.range(-12, 12) * (g.chance(50) ? 1 : 0); if (g.chance(50)) w = -w; if (g.chance(20)) w *= g.below(1000) / 1000.0;
      switch (g.below(4)) {
        case 0: case 1: q = IP(a.first + (ll)(dx * t + dy / l * w), a.second + (ll)(dy * t - dx / l * w)); break;
        case 2: { double e = g.below(6284) / 1000.0; if (convex && g.chance(70)) { double ux = a.first - b.first, uy = a.second - b.second, vx = a.first - c.first, vy = a.second - c.second, m = sqrt(vx * vx + vy * vy); double bx = ux / l + vx / m, by = uy / l + vy / m, z = sqrt(bx * bx + by * by); if (z > 1e-3) { double cr = std::fabs(ux * vy - uy * vx) / (l * m), f = std::min(6.0, cr > 1e-3 ? z / cr : 6.0); q = IP(a.first + (ll)(bx / z * std::fabs(w) * f), a.second + (ll)(by / z * std::fabs(w) * f)); break; } } q = IP(a.first + (ll)(cos(e) * w), a.second + (ll)(sin(e) * w)); break; }
        default: q = IP(ox + g.range(-N, 2 * N), oy + g.range(-N, 2 * N));
      }
      p.push_back(bp2(q.first, q.second)); in.push_back(side(out, q));
    }
    tr::ev(ks("a", convex ? "Miter" : "Round") + "," + kv("r", S(r)) + "," + kv("n", S(ne)) + "," + kv("p", arrs(p)) + "," + kv("in", arr(in)));
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]); tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i); Session s(g); tr::begin(kv("i", i));
    if (g.chance(25)) s.go<long long>(); else s.go<int>();
    tr::end();
  }
  tr::close(); return 0;
}
