// Random integer polygons with edges at any angle, the arrangement of their
// edge lines, and one sample point per face (see spec/Arr.tla).
// Logged coordinates are (lib - off); samples are in units of 1/F.
#ifndef VERIF_ARR_HPP
#define VERIF_ARR_HPP
#include "common.hpp"
#include <cmath>
#include <boost/polygon/polygon.hpp>
namespace bp = boost::polygon;
typedef long long ll;
typedef std::pair<ll,ll> IP;
typedef std::vector<IP> Ring;
struct AShape { char t; Ring out; std::vector<Ring> holes; bool rect, manh, oct; };  // 'P' or 'H'
typedef std::vector<AShape> AShapes;

inline ll icross(const IP& a, const IP& b, const IP& c) { return (b.first - a.first) * (c.second - a.second) - (c.first - a.first) * (b.second - a.second); }
inline int isgn(ll v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline bool on_seg(const IP& a, const IP& b, const IP& p) { return icross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
inline bool seg_meet(const IP& a, const IP& b, const IP& c, const IP& d) {
  int s1 = isgn(icross(a, b, c)), s2 = isgn(icross(a, b, d)), s3 = isgn(icross(c, d, a)), s4 = isgn(icross(c, d, b));
  if (s1 * s2 < 0 && s3 * s4 < 0) return true;
  return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
inline ll ring_area2(const Ring& r) { ll s = 0; for (size_t i = 0; i < r.size(); ++i) s += icross(r[0], r[i], r[(i + 1) % r.size()]); return s; }
inline bool ring_simple(const Ring& r) {
  size_t n = r.size(); if (n < 3 || ring_area2(r) == 0) return false;
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) {
    const IP &a = r[i], &b = r[(i + 1) % n], &c = r[j], &d = r[(j + 1) % n];
    if (a == c) return false;
    if (j == i + 1) { if (icross(a, b, d) == 0 && ((b.first - a.first) * (d.first - b.first) + (b.second - a.second) * (d.second - b.second) <= 0 || true)) return false; continue; }
    if (i == 0 && j == n - 1) { if (icross(c, d, b) == 0) return false; continue; }
    if (seg_meet(a, b, c, d)) return false;
  }
  return true;
}
inline bool in_ring(const Ring& r, const IP& p) { // strictly inside
  bool in = false; size_t n = r.size();
  for (size_t i = 0; i < n; ++i) {
    const IP &a = r[i], &b = r[(i + 1) % n]; if (on_seg(a, b, p)) return false;
    if ((a.second > p.second) != (b.second > p.second)) { ll c = icross(a, b, p); if ((b.second > a.second) == (c > 0)) in = !in; }
  }
  return in;
}
inline bool rings_apart(const Ring& a, const Ring& b) {
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (seg_meet(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return false;
  return true;
}
inline void classify(AShape& s) {
  s.manh = s.oct = true;
  auto chk = [&](const Ring& r) { for (size_t i = 0; i < r.size(); ++i) { IP a = r[i], b = r[(i + 1) % r.size()]; ll dx = std::llabs(a.first - b.first), dy = std::llabs(a.second - b.second); if (dx && dy) s.manh = false; if (dx && dy && dx != dy) s.oct = false; } };
  chk(s.out); for (auto& h : s.holes) chk(h);
  s.rect = s.manh && s.out.size() == 4 && s.holes.empty();
}
struct AGen {
  Rng& g; int N, style, y0 = 0;   // style 0: any directions, 1: few directions; shapes in [0, N] x [y0, y0 + N]
  AGen(Rng& g_, int N_, int st) : g(g_), N(N_), style(st) {}
  IP pt() { return IP(g.range(0, N), y0 + g.range(0, N)); }
  bool dir_ok(const IP& a, const IP& b) { ll dx = std::llabs(a.first - b.first), dy = std::llabs(a.second - b.second); if (!dx || !dy || dx == dy) return true; return style == 1 ? (dx == 2 * dy || dy == 2 * dx) : style == 2 ? (dx == 3 * dy || dy == 3 * dx) : true; }
  Ring rect() { int a = g.range(0, N - 1), b = g.range(a + 1, N), c = g.range(0, N - 1), d = g.range(c + 1, N); c += y0; d += y0; Ring r = {IP(a, c), IP(b, c), IP(b, d), IP(a, d)}; turn(r); return r; }
  void turn(Ring& r) { std::rotate(r.begin(), r.begin() + g.below((int)r.size()), r.end()); if (g.chance(50)) std::reverse(r.begin(), r.end()); }
  Ring ring(int kmax) {
    for (int tries = 0; tries < 400; ++tries) {
      int k = g.range(3, kmax); Ring r; bool ok = true;
      r.push_back(pt());
      for (int i = 1; i < k && ok; ++i) { ok = false; for (int t = 0; t < 12 && !ok; ++t) { IP p = pt(); if (p != r.back() && dir_ok(r.back(), p)) { r.push_back(p); ok = true; } } }
      if (!ok || !dir_ok(r.back(), r.front()) || !ring_simple(r)) continue;
      turn(r); return r;
    }
    return rect();
  }
  AShape shape() {
    AShape s; s.t = 'P'; int k = g.below(10);
    if (k < 2) s.out = rect(); else if (k < 6) s.out = ring(4); else s.out = ring(7);
    if (g.chance(30)) { // hole
      for (int t = 0; t < 30; ++t) { Ring h = g.chance(70) ? ring(4) : rect(); if (!rings_apart(s.out, h) || !in_ring(s.out, h[0])) continue; bool ok = true; for (auto& q : s.holes) if (!rings_apart(q, h) || in_ring(q, h[0]) || in_ring(h, q[0])) ok = false; if (!ok) continue; s.holes.push_back(h); s.t = 'H'; if (g.chance(60)) break; }
    }
    classify(s); return s;
  }
};
// lib = off + L * d
struct Arr {
  int N; ll L, F, offx, offy, lo = -9; std::vector<IP> samp; std::vector<std::pair<IP, IP> > segs;  // segs in L units
  ll x(ll d) const { return offx + L * d; }
  ll y(ll d) const { return offy + L * d; }
  int clip(ll v) const { return (int)std::max(lo, std::min(30000ll, v)); }
  int rx(ll v) const { return clip(v - offx); }
  int ry(ll v) const { return clip(v - offy); }
  static ll gcd(ll a, ll b) { a = std::llabs(a); b = std::llabs(b); while (b) { ll t = a % b; a = b; b = t; } return a; }
  static void add_ring(std::vector<std::pair<IP, IP> >& v, const Ring& r) { for (size_t i = 0; i < r.size(); ++i) { IP a = r[i], b = r[(i + 1) % r.size()]; if (b < a) std::swap(a, b); v.push_back(std::make_pair(a, b)); } }
  // lcm of the denominators of all crossings (0: too large)
  static ll crossing_lcm(const std::vector<std::pair<IP, IP> >& s, ll lim) {
    ll L = 1;
    for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j) {
      const IP &a = s[i].first, &b = s[i].second, &c = s[j].first, &d = s[j].second;
      ll det = (b.first - a.first) * (d.second - c.second) - (b.second - a.second) * (d.first - c.first);
      if (!det || !seg_meet(a, b, c, d)) continue;
      ll t = (c.first - a.first) * (d.second - c.second) - (c.second - a.second) * (d.first - c.first);  // a + t/det (b-a)
      for (ll q : {t * (b.first - a.first), t * (b.second - a.second)}) { ll den = std::llabs(det) / gcd(det, q); L = L / gcd(L, den) * den; if (L > lim) return 0; }
    }
    return L;
  }
  // least distance between an end point or crossing and a segment not through it
  static double clearance(const std::vector<std::pair<IP, IP> >& s) {
    std::vector<std::pair<double, double> > v; double best = 1e9;
    for (auto& e : s) { v.push_back(std::make_pair((double)e.first.first, (double)e.first.second)); v.push_back(std::make_pair((double)e.second.first, (double)e.second.second)); }
    for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j) {
      const IP &a = s[i].first, &b = s[i].second, &c = s[j].first, &d = s[j].second;
      ll det = (b.first - a.first) * (d.second - c.second) - (b.second - a.second) * (d.first - c.first);
      if (!det || !seg_meet(a, b, c, d)) continue;
      double t = (double)((c.first - a.first) * (d.second - c.second) - (c.second - a.second) * (d.first - c.first)) / det;
      v.push_back(std::make_pair(a.first + t * (b.first - a.first), a.second + t * (b.second - a.second)));
    }
    for (auto& e : s) for (auto& p : v) {
      double ax = (double)e.first.first, ay = (double)e.first.second, dx = e.second.first - ax, dy = e.second.second - ay, l = dx * dx + dy * dy;
      double t = ((p.first - ax) * dx + (p.second - ay) * dy) / l; t = std::max(0.0, std::min(1.0, t));
      double d = std::hypot(p.first - ax - t * dx, p.second - ay - t * dy); if (d > 1e-9) best = std::min(best, d);
    }
    for (auto& p : v) for (auto& q : v) { double d = std::hypot(p.first - q.first, p.second - q.second); if (d > 1e-9) best = std::min(best, d); }
    return best;
  }
  struct Line { ll a, b, c; };  // a x + b y = c, in lattice units
  // one sample per face of the arrangement of all lines; false if too many or a face is too small (with minfar > 0 small faces get none)
  bool sample(const std::vector<std::pair<IP, IP> >& in, size_t maxs, double minfar) {
    std::set<std::vector<ll> > ls;
    for (auto& s : in) { ll dx = s.second.first - s.first.first, dy = s.second.second - s.first.second, q = gcd(dx, dy); dx /= q; dy /= q; ls.insert({dy, -dx, dy * s.first.first - dx * s.first.second}); }
    std::vector<Line> v; for (auto& l : ls) v.push_back(Line{l[0], l[1], l[2]});
    if (v.size() > 22) return false;
    // bounding box: faces outside [-1, N+1] are represented by their part inside
    std::vector<double> xs = {-0.9, N + 0.9};
    for (size_t i = 0; i < v.size(); ++i) { if (!v[i].b) xs.push_back((double)v[i].c / v[i].a);
      for (size_t j = i + 1; j < v.size(); ++j) { ll det = v[i].a * v[j].b - v[j].a * v[i].b; if (det) { double x = (double)(v[i].c * v[j].b - v[j].c * v[i].b) / det; if (x > -0.9 && x < N + 0.9) xs.push_back(x); } } }
    std::sort(xs.begin(), xs.end());
    std::map<std::string, std::pair<double, std::pair<double, double> > > best;
    for (size_t i = 0; i + 1 < xs.size(); ++i) {
      if (xs[i + 1] - xs[i] < 1e-7) continue;
      for (int part = 1; part <= 3; ++part) {
      double x = xs[i] + (xs[i + 1] - xs[i]) * part / 4; std::vector<double> ys = {-0.9, N + 0.9};
      for (auto& l : v) if (l.b) { double y = (l.c - l.a * x) / l.b; if (y > -0.9 && y < N + 0.9) ys.push_back(y); }
      std::sort(ys.begin(), ys.end());
      for (size_t j = 0; j + 1 < ys.size(); ++j) {
        if (ys[j + 1] - ys[j] < 1e-9) continue;
        double y = (ys[j] + ys[j + 1]) / 2, far = 1e9; std::string sig;
        for (auto& l : v) { double e = (l.a * x + l.b * y - l.c) / std::hypot((double)l.a, (double)l.b); far = std::min(far, std::fabs(e)); sig += e > 0 ? '+' : '-'; }
        auto it = best.find(sig); if (it == best.end() || it->second.first < far) best[sig] = std::make_pair(far, std::make_pair(x, y));
      } }
    }
    samp.clear();
    for (auto& kv : best) {
      double far = kv.second.first; if (far * L < minfar) continue;
      double px = kv.second.second.first * L * F, py = kv.second.second.second * L * F; bool ok = false;
      for (int t = 0; t < 9 && !ok; ++t) { // nearby integer point with the same signs
        ll X = (ll)std::floor(px) + t % 3 - (t >= 6 ? 1 : 0), Y = (ll)std::floor(py) + t / 3 - (t % 2); ok = true;
        for (size_t i = 0; i < v.size() && ok; ++i) { ll e = v[i].a * X + v[i].b * Y - v[i].c * L * F; if (e == 0 || (e > 0) != (kv.first[i] == '+')) ok = false; }
        if (ok) samp.push_back(IP(X, Y));
      }
      if (!ok && minfar == 0) return false;
    }
    return !samp.empty() && samp.size() <= maxs;
  }
  // sample points in the cells cut by the segments themselves and the vertical lines through their ends and crossings:
  // one in every face of the arrangement of the segments (false if a face gets none), and further cells up to maxs
  bool sample_cells(Rng& g, const std::vector<std::pair<IP, IP> >& in, size_t maxs) {
    typedef std::pair<double, double> DP;
    std::vector<double> xs = {-0.9, N + 0.9};
    for (size_t i = 0; i < in.size(); ++i) { xs.push_back((double)in[i].first.first); xs.push_back((double)in[i].second.first);
      for (size_t j = i + 1; j < in.size(); ++j) { const IP &a = in[i].first, &b = in[i].second, &c = in[j].first, &d = in[j].second; ll det = (b.first - a.first) * (d.second - c.second) - (b.second - a.second) * (d.first - c.first);
        if (det && seg_meet(a, b, c, d)) xs.push_back(a.first + (double)((c.first - a.first) * (d.second - c.second) - (c.second - a.second) * (d.first - c.first)) / det * (b.first - a.first)); } }
    std::sort(xs.begin(), xs.end());
    struct Cell { double x0, x1; int lo, hi, face; }; std::vector<Cell> cs; std::vector<std::pair<size_t, size_t> > slabs;
    auto at = [&](int s, double x) { if (s == -1) return -0.9; if (s == -2) return N + 0.9; double ax = (double)in[s].first.first, bx = (double)in[s].second.first; return in[s].first.second + (x - ax) / (bx - ax) * (in[s].second.second - in[s].first.second); };
    for (size_t i = 0; i + 1 < xs.size(); ++i) {
      if (xs[i + 1] - xs[i] < 1e-7) continue;
      double x = (xs[i] + xs[i + 1]) / 2; std::vector<std::pair<double, int> > ys = {{-0.9, -1}, {N + 0.9, -2}};
      for (size_t k = 0; k < in.size(); ++k) { double u = (double)std::min(in[k].first.first, in[k].second.first), v = (double)std::max(in[k].first.first, in[k].second.first); if (u < x && x < v) ys.push_back(std::make_pair(at((int)k, x), (int)k)); }
      std::sort(ys.begin(), ys.end()); size_t b = cs.size();
      for (size_t j = 0; j + 1 < ys.size(); ++j) if (ys[j + 1].first - ys[j].first > 1e-9) cs.push_back(Cell{xs[i], xs[i + 1], ys[j].second, ys[j + 1].second, (int)cs.size()});
      slabs.push_back(std::make_pair(b, cs.size()));
    }
    auto root = [&](int i) { while (cs[i].face != i) i = cs[i].face; return i; };
    for (size_t s = 0; s + 1 < slabs.size(); ++s) for (size_t i = slabs[s].first; i < slabs[s].second; ++i) for (size_t j = slabs[s + 1].first; j < slabs[s + 1].second; ++j) {
      double x = cs[i].x1, lo = std::max(at(cs[i].lo, x), at(cs[j].lo, x)), hi = std::min(at(cs[i].hi, x), at(cs[j].hi, x)); if (hi - lo < 1e-7) continue;
      std::vector<DP> vs; for (auto& v : in) if (v.first.first == v.second.first && std::fabs((double)v.first.first - x) < 1e-7) vs.push_back(DP((double)std::min(v.first.second, v.second.second), (double)std::max(v.first.second, v.second.second)));
      std::sort(vs.begin(), vs.end()); double y = lo; bool open = false; for (auto& v : vs) { if (v.first > y + 1e-7 && y < hi - 1e-7) open = true; y = std::max(y, v.second); } if (hi > y + 1e-7) open = true;
      if (open) cs[root((int)i)].face = root((int)j);
    }
    samp.clear(); std::set<int> seen, faces; std::vector<int> ord; for (size_t i = 0; i < cs.size(); ++i) { ord.push_back((int)i); faces.insert(root((int)i)); }
    for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[g.below((int)i)]);
    std::vector<int> used(cs.size(), 0);
    auto put = [&](int c) { for (int t = 0; t < 12; ++t) {
        double fx = t ? (1 + g.below(99)) / 101.0 : 0.5, fy = t ? (1 + g.below(99)) / 101.0 : 0.5, x = cs[c].x0 + fx * (cs[c].x1 - cs[c].x0), y = at(cs[c].lo, x) + fy * (at(cs[c].hi, x) - at(cs[c].lo, x));
        ll X = (ll)std::floor(x * L * F + 0.5), Y = (ll)std::floor(y * L * F + 0.5); bool ok = true;
        for (auto& s : in) { ll dx = s.second.first - s.first.first, dy = s.second.second - s.first.second, e = dx * (Y - s.first.second * L * F) - dy * (X - s.first.first * L * F); double d = dx * (y - s.first.second) - dy * (x - s.first.first); if (e == 0 || (e > 0) != (d > 0)) { ok = false; break; } }
        if (ok && (double)X > cs[c].x0 * L * F && (double)X < cs[c].x1 * L * F) { samp.push_back(IP(X, Y)); return true; } }
      return false; };
    for (int c : ord) if (!seen.count(root(c)) && put(c)) { seen.insert(root(c)); used[c] = 1; }
    if (seen.size() != faces.size() || samp.size() > maxs) return false;
    for (int c : ord) if (!used[c] && samp.size() < maxs) put(c);
    return !samp.empty();
  }
  // exact: all crossings integral.  Otherwise crossings fall anywhere and only far samples are used.
  bool build(Rng& g, int N_, const AShapes& pool, bool exact, size_t maxs, double far, bool cells = false) {
    N = N_; std::vector<std::pair<IP, IP> > in;
    for (auto& s : pool) { add_ring(in, s.out); for (auto& h : s.holes) add_ring(in, h); }
    return build_segs(g, N, in, exact, maxs, far, cells);
  }
  bool build_segs(Rng& g, int N_, const std::vector<std::pair<IP, IP> >& in, bool exact, size_t maxs, double far, bool cells) {
    N = N_; ll lim = 5000 / N;
    if (exact) { L = crossing_lcm(in, lim); if (!L) return false; double cl = clearance(in); L *= (ll)std::ceil(2.0 / (cl * L)); if (L > lim) return false; if (L * 3 <= lim && g.chance(30)) L *= g.range(1, (int)(lim / L)); }
    else { L = lim; if (L > 40 && g.chance(40)) L = g.range(20, (int)lim); if (far == 0) L = 1; }
    F = 30000 / ((N + 2) * L); if (F < 2) return false; if (F > 64) F = 64;
    if (cells ? !sample_cells(g, in, maxs) : !sample(in, maxs, far)) return false;
    segs.clear(); std::set<std::pair<IP, IP> > seen; for (auto& s : in) if (seen.insert(s).second) segs.push_back(std::make_pair(IP(s.first.first * L, s.first.second * L), IP(s.second.first * L, s.second.second * L)));
    ll big = g.chance(50) ? 100 : g.chance(60) ? 1000000 : 400000000;
    offx = (ll)(g.next() % (uint64_t)(2 * big + 1)) - big; offy = (ll)(g.next() % (uint64_t)(2 * big + 1)) - big;
    if (g.chance(20)) { offx = -(N / 2) * L; offy = -(N / 2) * L; }
    return true;
  }
  std::string header() const {
    std::string s = "["; for (size_t i = 0; i < samp.size(); ++i) { if (i) s += ","; s += "[" + S(samp[i].first) + "," + S(samp[i].second) + "]"; } s += "]";
    std::string q = "["; for (size_t i = 0; i < segs.size(); ++i) { if (i) q += ","; q += "[" + S(segs[i].first.first) + "," + S(segs[i].first.second) + "," + S(segs[i].second.first) + "," + S(segs[i].second.second) + "]"; } q += "]";
    return kv("F", F) + "," + kv("M", N * L) + "," + kv("S", s) + "," + kv("L", q);
  }
};
inline std::string ring_json(const Ring& r, const Arr& a) { std::string s = "["; for (size_t i = 0; i < r.size(); ++i) { if (i) s += ","; s += S(r[i].first * a.L) + "," + S(r[i].second * a.L); } return s + "]"; }
inline std::string shape_json(const AShape& s, const Arr& a) {
  if (s.t == 'P') return "{\"t\":\"P\",\"v\":" + ring_json(s.out, a) + "}";
  std::vector<std::string> h; for (auto& x : s.holes) h.push_back(ring_json(x, a));
  return "{\"t\":\"H\",\"v\":" + ring_json(s.out, a) + ",\"h\":" + arrs(h) + "}";
}
inline std::string shapes_json(const AShapes& v, const Arr& a) { std::vector<std::string> p; for (auto& s : v) p.push_back(shape_json(s, a)); return "{\"t\":\"L\",\"s\":" + arrs(p) + "}"; }
template <class T> std::vector<bp::point_data<T> > to_pts(const Ring& r, const Arr& a) { std::vector<bp::point_data<T> > v; for (auto& p : r) v.push_back(bp::point_data<T>((T)a.x(p.first), (T)a.y(p.second))); return v; }
template <class P, class T> P to_poly(const Ring& r, const Arr& a) { P p; auto v = to_pts<T>(r, a); bp::set_points(p, v.begin(), v.end()); return p; }
template <class H, class P, class T> H to_pwh(const AShape& s, const Arr& a) {
  H p; auto v = to_pts<T>(s.out, a); bp::set_points(p, v.begin(), v.end());
  std::vector<P> hs; for (auto& h : s.holes) hs.push_back(to_poly<P, T>(h, a)); bp::set_holes(p, hs.begin(), hs.end()); return p;
}
template <class T> bp::rectangle_data<T> to_rect(const AShape& s, const Arr& a) {
  ll xl = s.out[0].first, xh = xl, yl = s.out[0].second, yh = yl; for (auto& p : s.out) { xl = std::min(xl, p.first); xh = std::max(xh, p.first); yl = std::min(yl, p.second); yh = std::max(yh, p.second); }
  return bp::rectangle_data<T>((T)a.x(xl), (T)a.y(yl), (T)a.x(xh), (T)a.y(yh));
}
template <class P> std::string poly_d(const P& p, const Arr& a) {
  std::vector<IP> v; for (auto i = bp::begin_points(p); i != bp::end_points(p); ++i) v.push_back(IP((ll)bp::x(*i), (ll)bp::y(*i)));
  if (v.size() > 1 && v.front() == v.back()) v.pop_back();
  std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += S(a.rx(v[i].first)) + "," + S(a.ry(v[i].second)); } return s + "]";
}
template <class C> std::string obs_polys(const C& c, const Arr& a) { std::vector<std::string> v; for (auto& p : c) v.push_back(poly_d(p, a)); return "{\"k\":\"P\",\"v\":" + arrs(v) + "}"; }
template <class C> std::string obs_pwhs(const C& c, const Arr& a) {
  std::vector<std::string> v;
  for (auto& p : c) { std::vector<std::string> h; for (auto j = bp::begin_holes(p); j != bp::end_holes(p); ++j) h.push_back(poly_d(*j, a)); v.push_back("{\"v\":" + poly_d(p, a) + ",\"h\":" + arrs(h) + "}"); }
  return "{\"k\":\"H\",\"v\":" + arrs(v) + "}";
}
#endif
