#ifndef VERIF_VOROGEN_HPP
#define VERIF_VOROGEN_HPP
// Valid inputs of the Voronoi engine: points and segments that meet only at end points.
#include "big.hpp"
#include <cmath>
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/voronoi.hpp>
namespace bp = boost::polygon; namespace bd = boost::polygon::detail; typedef long long ll;
struct P { ll x, y; bool operator==(const P& o) const { return x == o.x && y == o.y; } bool operator<(const P& o) const { return x != o.x ? x < o.x : y < o.y; } };
struct Sg { P a, b; };
struct Input { std::vector<P> pts; std::vector<Sg> segs; };
inline int ori(const P& a, const P& b, const P& c) { i128 v = (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); return v < 0 ? -1 : v > 0; }
inline bool onseg(const P& p, const Sg& s) { return ori(s.a, s.b, p) == 0 && std::min(s.a.x, s.b.x) <= p.x && p.x <= std::max(s.a.x, s.b.x) && std::min(s.a.y, s.b.y) <= p.y && p.y <= std::max(s.a.y, s.b.y); }
inline bool isend(const P& p, const Sg& s) { return p == s.a || p == s.b; }
// only common points are common end points
inline bool compat(const Sg& s, const Sg& t) {
  if ((s.a == t.a && s.b == t.b) || (s.a == t.b && s.b == t.a)) return false;
  if ((onseg(s.a, t) && !isend(s.a, t)) || (onseg(s.b, t) && !isend(s.b, t)) || (onseg(t.a, s) && !isend(t.a, s)) || (onseg(t.b, s) && !isend(t.b, s))) return false;
  if (isend(s.a, t) || isend(s.b, t)) return true;
  return !(ori(s.a, s.b, t.a) * ori(s.a, s.b, t.b) < 0 && ori(t.a, t.b, s.a) * ori(t.a, t.b, s.b) < 0);
}
inline bool add(Input& in, const Sg& s) { if (s.a == s.b) return false; for (auto& t : in.segs) if (!compat(s, t)) return false; for (auto& p : in.pts) if (onseg(p, s) && !isend(p, s)) return false; in.segs.push_back(s); return true; }
inline bool add(Input& in, const P& p) { for (auto& t : in.segs) if (onseg(p, t) && !isend(p, t)) return false; in.pts.push_back(p); return true; }
template <class F> Input base_input(Rng& g, F pt, int maxn) {
  Input in; int kind = g.below(10), n = g.range(1, maxn);
  if (kind < 4) { for (int i = 0; i < n; ++i) add(in, pt()); }
  else if (kind < 6) { // loose segments
    for (int i = 0; i < n && (int)in.segs.size() < (maxn + 1) / 2; ++i) add(in, Sg{pt(), pt()}); for (int i = g.below(4); i > 0; --i) add(in, pt()); }
  else if (kind < 8) { // chain or polygon
    P p = pt(), q = p; std::vector<P> ch(1, p); for (int i = 0; i < n && (int)in.segs.size() < (maxn + 1) / 2; ++i) { P r = pt(); if (add(in, Sg{q, r})) q = r; } if (g.chance(60)) add(in, Sg{q, p}); for (int i = g.below(3); i > 0; --i) add(in, pt()); }
  else if (kind < 9) { // star
    P c = pt(); for (int i = 0; i < n && (int)in.segs.size() < (maxn + 1) / 2; ++i) { P r = pt(); if (g.chance(50)) add(in, Sg{c, r}); else add(in, Sg{r, c}); } for (int i = g.below(3); i > 0; --i) add(in, pt()); }
  else { P a = pt(), b = pt(); add(in, Sg{a, b}); P d{b.x - a.x, b.y - a.y}; (void)d; for (int i = 0; i < 3; ++i) { P r = pt(); add(in, Sg{b, r}); add(in, Sg{r, pt()}); } add(in, a); add(in, pt()); }
  if (in.pts.empty() && in.segs.empty()) add(in, pt());
  if (g.chance(20)) { if (!in.pts.empty()) in.pts.push_back(in.pts[g.below((int)in.pts.size())]); else in.pts.push_back(in.segs[0].a); }
  return in;
}
inline Input small_input(Rng& g) {
  int n = g.range(1, 5), w = g.chance(50) ? n : g.range(1, 12), h = g.chance(70) ? n : g.range(0, 12); if (g.chance(8)) w = 0; if (g.chance(8)) h = 0; if (w == 0 && h == 0) h = 4;
  ll ox = 0, oy = 0, m = g.chance(30) ? g.range(1, 7) : 1; if (g.chance(40)) { ox = g.range(-9, 9); oy = g.range(-9, 9); }
  ll sh = g.chance(15) ? g.range(-2, 2) : 0;
  return base_input(g, [&] { ll x = g.range(0, w), y = g.range(0, h); return P{(x + sh * y) * m + ox, y * m + oy}; }, g.chance(80) ? 7 : 11);
}
inline ll clampi(ll v) { return std::max<ll>(-2147483648ll, std::min<ll>(2147483647ll, v)); }
inline Input wide_input(Rng& g, int how = -1, int bits = 31) { // |coordinates| <= 2^bits
  if (how < 0) how = g.below(9); ll M = (1ll << bits) - 1;
  auto rnd = [&](ll lo, ll hi) { return lo + (ll)(g.next() % (uint64_t)(hi - lo + 1)); };
  if (how < 2) { return base_input(g, [&] { return P{rnd(-M - 1, M), rnd(-M - 1, M)}; }, 7); }
  if (how == 2) { ll k = 1ll << g.range(6, bits - 1); return base_input(g, [&] { return P{rnd(-k, k), rnd(-k, k)}; }, 7); }
  if (how == 3) { // a small figure far away from the origin
    ll ox = rnd(-M + 100, M - 100), oy = rnd(-M + 100, M - 100); int n = g.range(2, 60); if (g.chance(20)) oy = 0; return base_input(g, [&] { return P{ox + g.range(0, n), oy + g.range(0, n)}; }, 7); }
  if (how == 4) { // a small grid stretched to the whole range, with small perturbations
    int n = g.range(1, 5); ll st = (2 * M) / std::max(1, n), j = g.chance(50) ? 0 : 1ll << g.below(bits / 3); ll sy = g.chance(70) ? st : 1ll << g.below(bits - 2);
    return base_input(g, [&] { ll x = -M + st * g.range(0, n), y = -(sy * n / 2) + sy * g.range(0, n); return P{clampi(x + (j ? rnd(-j, j) : 0)), clampi(y + (j ? rnd(-j, j) : 0))}; }, 7); }
  if (how == 5) { // nearly on one circle
    static const int T[][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}}; ll s = 1ll << g.below(bits - 3), ox = 0, oy = 0; if (s < (1ll << (bits - 11)) && g.chance(50)) { ox = rnd(-1000000000, 1000000000); oy = rnd(-1000000000, 1000000000); } ll j = g.chance(40) ? 0 : 1;
    return base_input(g, [&] { int t = g.below(12); return P{ox + T[t][0] * s + (j ? g.range(-1, 1) : 0), oy + T[t][1] * s + (j ? g.range(-1, 1) : 0)}; }, 7); }
  if (how == 6) { // nearly on one line
    ll D = M / 11, O = M / 16; ll dx = rnd(-D, D), dy = rnd(-D, D), j = g.chance(40) ? 0 : 1; ll ox = rnd(-O, O), oy = rnd(-O, O);
    return base_input(g, [&] { ll t = g.range(-10, 10); return P{ox + t * dx + (j ? g.range(-1, 1) : 0), oy + t * dy + (j ? g.range(-1, 1) : 0)}; }, 7); }
  if (how == 7) { // corners and edges of the coordinate range
    const ll E[] = {-M - 1, -M, -1, 0, 1, M - 1, M}; return base_input(g, [&] { return P{E[g.below(7)], E[g.below(7)]}; }, 7); }
  if (how == 9) { // far taller than wide: nearly vertical edges (or nearly horizontal ones)
    ll w = 1ll << g.range(1, bits - 8), ox = g.chance(50) ? 0 : rnd(-M / 2, M / 2); bool flip = g.chance(25); ll h = g.chance(60) ? M : 1ll << g.range(10, bits - 1);
    return base_input(g, [&] { ll x = ox + rnd(0, w), y = rnd(-h, h); return flip ? P{y, x} : P{x, y}; }, 7); }
  // sheared lattice: long thin figures
  ll T = std::min<ll>(30000, 1ll << (bits / 2)); ll a = rnd(1, T), b = rnd(1, T), c = rnd(1, T), d = (b * c) / a + g.range(0, 2); int n = g.range(2, 6);
  return base_input(g, [&] { ll x = g.range(-n, n), y = g.range(-n, n); return P{clampi(a * x + b * y), clampi(c * x + d * y)}; }, 7);
}
#endif
