// Conformance driver for segment intersection (spec/SegSet.tla).
// usage: seg <mode> <seed> <ntraces> <outfile>
//   split  all crossings integral      (C17)
//   snap   crossings are rounded       (C17)
#include "arr.hpp"
#include <deque>
#include <boost/polygon/segment_utils.hpp>
typedef int T;
typedef bp::segment_data<T> Seg;
typedef std::vector<std::pair<IP, IP> > Segs;
struct Session {
  Rng& g; bool exact; ll L, offx, offy; int NX, NY;
  Session(Rng& g_, bool ex) : g(g_), exact(ex) {}
  IP pt(int x0, int x1, int y0, int y1) { return IP(g.range(x0, x1), g.range(y0, y1)); }
  static bool nice(const IP& a, const IP& b, int style) { ll dx = std::llabs(a.first - b.first), dy = std::llabs(a.second - b.second); if (!dx || !dy || dx == dy) return true; return style == 1 ? (dx == 2 * dy || dy == 2 * dx) : style == 2 ? (dx == 3 * dy || dy == 3 * dx) : true; }
  Segs rnd() {
    Segs v; int style = g.below(3), bands = g.chance(40) ? 1 : g.range(2, 8), H = g.range(2, bands == 1 ? 9 : 5), gap = g.range(0, 2);
    NX = g.range(2, 9); NY = bands * (H + gap);
    int per = bands == 1 ? g.range(0, 9) : g.range(1, 8);
    for (int b = 0; b < bands; ++b) for (int k = 0; k < per; ++k) {
      if (v.size() > 2 && g.chance(15)) { // related to an earlier one: equal, reversed, sub- or super-segment, sharing an end
        auto s = v[g.below((int)v.size())]; int how = g.below(4);
        if (how == 0) std::swap(s.first, s.second); else if (how == 1) ; else if (how == 2) { s.second = pt(0, NX, b * (H + gap), b * (H + gap) + H); if (!nice(s.first, s.second, style)) continue; }
        else { ll dx = s.second.first - s.first.first, dy = s.second.second - s.first.second, q = Arr::gcd(dx, dy); if (!q) continue; dx /= q; dy /= q; int i = g.range(-1, (int)q + 1), j = g.range(-1, (int)q + 1); s = std::make_pair(IP(s.first.first + i * dx, s.first.second + i * dy), IP(s.first.first + j * dx, s.first.second + j * dy)); }
        if (s.first.first < 0 || s.first.first > NX || s.second.first < 0 || s.second.first > NX || s.first.second < 0 || s.first.second > NY || s.second.second < 0 || s.second.second > NY) continue;
        v.push_back(s); continue;
      }
      for (int t = 0; t < 12; ++t) { IP a = pt(0, NX, b * (H + gap), b * (H + gap) + H), c = pt(0, NX, b * (H + gap), b * (H + gap) + H); if (g.chance(4)) c = a; if ((a == c && !g.chance(20)) || !nice(a, c, style)) continue; v.push_back(std::make_pair(a, c)); break; }
    }
    if (bands > 1 && g.chance(30)) { IP a = pt(0, NX, 0, NY), c = g.chance(50) ? IP(a.first, g.range(0, NY)) : pt(0, NX, 0, NY); if (a != c && nice(a, c, style)) v.push_back(std::make_pair(a, c)); }
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below((int)i)]);
    return v;
  }
  bool scale(const Segs& v) {
    ll lim = 12000 / std::max(NX, NY);
    if (exact) {
      Segs nd; for (auto& s : v) { auto q = s; if (q.second < q.first) std::swap(q.first, q.second); nd.push_back(q); }
      L = Arr::crossing_lcm(nd, lim); if (!L) return false;
      double cl = Arr::clearance(nd); if (cl < 1e8) L *= std::max(1ll, (ll)std::ceil(2.0 / (cl * L))); if (L > lim) return false;
      if (L * 3 <= lim && g.chance(30)) L *= g.range(1, (int)(lim / L));
    } else L = g.chance(60) ? 1 : g.range(1, (int)lim);
    ll big = g.chance(50) ? 100 : g.chance(50) ? 1000000 : 1000000000;
    offx = (ll)(g.next() % (uint64_t)(2 * big + 1)) - big; offy = (ll)(g.next() % (uint64_t)(2 * big + 1)) - big;
    if (g.chance(20)) { offx = -(NX / 2) * L; offy = -(NY / 2) * L; }
    return true;
  }
  Seg mk(const std::pair<IP, IP>& s) { return Seg(bp::point_data<T>((T)(offx + L * s.first.first), (T)(offy + L * s.first.second)), bp::point_data<T>((T)(offx + L * s.second.first), (T)(offy + L * s.second.second))); }
  int cl(ll v) { return (int)std::max(-30000ll, std::min(30000ll, v)); }
  std::string js(const Seg& s) { std::vector<int> v = {cl(bp::x(s.low()) - offx), cl(bp::y(s.low()) - offy), cl(bp::x(s.high()) - offx), cl(bp::y(s.high()) - offy)}; return arr(v); }
  template <class C> std::string jss(const C& c) { std::vector<std::string> v; for (auto& s : c) v.push_back(js(s)); return arrs(v); }
  template <class C> void untagged(C& c, const std::vector<Seg>& in) { bp::intersect_segments(c, in.begin(), in.end()); }
  void run() {
    Segs v; int tries = 0; do { v = rnd(); if (++tries > 200) v.clear(); } while (!scale(v));
    std::vector<Seg> in; for (auto& s : v) in.push_back(mk(s));
    tr::ev(ks("a", "Load") + "," + kv("s", jss(in)));
    for (int rounds = g.range(1, 3); rounds > 0; --rounds) {
      if (g.chance(40)) {
        bp::rectangle_data<T> r(0, 0, 0, 0); bool ok = false; guarded("envelope", [&] { if (g.chance(50)) ok = bp::envelope_segments(r, in.begin(), in.end()); else { std::list<Seg> l(in.begin(), in.end()); ok = bp::envelope_segments(r, l.begin(), l.end()); } });
        std::vector<int> b = {cl(bp::xl(r) - offx), cl(bp::yl(r) - offy), cl(bp::xh(r) - offx), cl(bp::yh(r) - offy)};
        tr::ev(ks("a", "Env") + "," + kv("res", ok ? 1 : 0) + "," + kv("v", arr(b)));
      }
      std::vector<std::pair<std::size_t, Seg> > out; std::vector<Seg> flat; std::string o2; std::vector<int> id;
      guarded("intersect_segments", [&] {
        if (g.chance(50)) bp::intersect_segments(out, in.begin(), in.end()); else { std::deque<Seg> d(in.begin(), in.end()); bp::intersect_segments(out, d.begin(), d.end()); }
        std::vector<Seg> c; untagged(c, in); o2 = jss(c);
      });
      for (auto& p : out) { id.push_back((int)p.first + 1); flat.push_back(p.second); }
      tr::ev(ks("a", "Split") + "," + kv("id", arr(id)) + "," + kv("o", jss(flat)) + "," + kv("o2", o2));
      in = flat;
    }
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]);
  tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i);
    Session s(g, mode == "split"); tr::begin(kv("grid", mode == "split" ? 1 : 0)); s.run(); tr::end();
  }
  tr::close(); return 0;
}
