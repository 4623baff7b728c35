// Conformance driver for Manhattan morphology, transforms and filtering (spec/ManhMetric.tla).
// usage: m90b <mode> <seed> <ntraces> <outfile>
//   morph   bloat / shrink / resize / grow_and            (C06)
//   affine  move / transform / scale / keep               (C07)
#include "manh.hpp"
using namespace boost::polygon::operators;

typedef int T;
typedef bp::polygon_90_set_data<T> Set;
typedef bp::rectangle_data<T> Rect;
typedef bp::polygon_90_data<T> Poly;
typedef bp::polygon_90_with_holes_data<T> Pwh;
typedef bp::point_data<T> Pt;
typedef bp::axis_transformation Axis;
typedef bp::transformation<T> Trans;

static Shape shift(Shape s, int dx, int dy) {
  s.r[0] += dx; s.r[2] += dx; s.r[1] += dy; s.r[3] += dy;
  for (auto& p : s.out) { p.first += dx; p.second += dy; }
  for (auto& h : s.holes) for (auto& p : h) { p.first += dx; p.second += dy; }
  return s;
}
static std::string regj(int r) { return "{\"t\":\"S\",\"r\":" + S(r + 1) + "}"; }

struct Metric {
  static const int K = 2;
  Rng& g; int M, n; T stride; Emb<T> e; Set reg[K];
  Metric(Rng& g_, int M_, T st) : g(g_), M(M_), n(2 * M_), stride(st) {
    for (int i = 0; i <= n; ++i) { e.xs.push_back((i - M) * st); e.ys.push_back((i - M) * st); }
    e.index();
    for (int i = 0; i < K; ++i) reg[i] = Set(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL);
  }
  std::string header() { return kv("n", n) + "," + kv("K", K) + "," + kv("stride", stride); }
  std::string observe(const Set& s0) {
    Set s(s0); std::string o;
    switch (g.below(5)) {
      case 0: { std::vector<Rect> v; s.get(v); o = obs_rects(v, e); break; }
      case 1: { std::vector<Poly> v; s.get(v); o = obs_polys(v, e); break; }
      case 2: { std::list<Pwh> v; s.get(v); o = obs_pwhs(v, e); break; }
      case 3: { std::list<Rect> v; s.get_rectangles(v, g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); o = obs_rects(v, e); break; }
      default: { std::vector<Rect> v; bp::assign(v, s); o = obs_rects(v, e); break; }
    }
    return o;
  }
  void canon_event(int r) {
    // the real set, not a copy: size() must be that of the canonical form
    size_t z = 0; guarded("size", [&] { z = reg[r].size(); });
    tr::ev(ks("a", "Size") + "," + kv("x", regj(r)) + "," + kv("res", (long long)z));
  }
  void eq_event(int r) {
    bool eq = false; int j = g.below(K);
    guarded("equivalence", [&] { eq = bp::equivalence(reg[r], reg[j]); });
    tr::ev(ks("a", "Eq") + "," + kv("x", regj(r)) + "," + kv("y", regj(j)) + "," + kv("res", eq ? 1 : 0));
  }
  bool ext(int r, int* b) { // ranks relative to the origin
    Set a(reg[r]); Rect q; if (!a.extents(q)) return false;
    b[0] = bp::xl(q) / stride; b[1] = bp::yl(q) / stride; b[2] = bp::xh(q) / stride; b[3] = bp::yh(q) / stride; return true;
  }
  CellGrid cells(int r) {
    Set a(reg[r]); std::vector<Rect> v; a.get(v); CellGrid c(n);
    for (auto& q : v) for (int y = e.ry(bp::yl(q)); y < e.ry(bp::yh(q)); ++y) for (int x = e.rx(bp::xl(q)); x < e.rx(bp::xh(q)); ++x) if (x >= 0 && y >= 0 && x < n && y < n) c.set(x, y, 1);
    return c;
  }
  void insert_shape(Set& s, const Shape& sh) {
    if (sh.t == 'R') s.insert(to_rect(sh, e));
    else if (sh.t == 'P') s.insert(to_poly<Poly>(sh.out, e));
    else s.insert(to_pwh<Pwh, Poly>(sh, e));
  }
  void fill(int r, int win, bool fresh) {
    int w = g.range(2, win), ox = g.range(M - win / 2 - 1, M + win / 2 - w + 1), oy = g.range(M - win / 2 - 1, M + win / 2 - w + 1);
    ox = std::max(0, std::min(n - w, ox)); oy = std::max(0, std::min(n - w, oy));
    Shapes v; for (int k = g.range(1, 5); k > 0; --k) v.push_back(shift(rnd_shape(g, w), ox, oy));
    guarded("insert", [&] { if (fresh) reg[r].clear(); for (auto& s : v) insert_shape(reg[r], s); });
    tr::ev(fresh ? ks("a", "Set") + "," + kv("r", r + 1) + "," + kv("x", shapes_json(v)) + "," + kv("o", observe(reg[r]))
                 : ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("s", shapes_json(v)) + "," + kv("o", observe(reg[r])));
  }
  void bin(int r) {
    int j = g.below(K), k = g.below(K), op = g.below(4); Set res(reg[r].orient());
    guarded("boolean", [&] { switch (op) { case 0: res = reg[j] | reg[k]; break; case 1: res = reg[j] & reg[k]; break; case 2: res = reg[j] ^ reg[k]; break; default: res = reg[j] - reg[k]; } });
    reg[r] = res;
    tr::ev(ks("a", "Bin") + "," + kv("r", r + 1) + "," + kv("op", op) + "," + kv("x", regj(j)) + "," + kv("y", regj(k)) + "," + kv("o", observe(reg[r])));
  }
  // ---- morphology
  // a distance vector <w,e,s,n> of one of the shapes the interface offers; api says which call
  void morph(int r) {
    int b[4]; bool any = ext(r, b);
    int room[4] = {4, 4, 4, 4};
    if (any) { room[0] = b[0] + M; room[1] = M - b[2]; room[2] = b[1] + M; room[3] = M - b[3]; }
    int what = g.below(10);                    // 0-3 bloat, 4-6 shrink, 7-8 resize, 9 grow_and
    bool up = what <= 3 || what == 9;
    int form = g.below(7); int d[4] = {0, 0, 0, 0};
    auto pick = [&](int i) { int lim = up ? std::min(4, std::max(0, room[i])) : 4; return g.range(0, lim); };
    int all = g.range(0, up ? std::max(0, std::min(std::min(room[0], room[1]), std::min(std::min(room[2], room[3]), 4))) : 3);
    bp::direction_2d dirs[4] = {bp::direction_2d(bp::WEST), bp::direction_2d(bp::EAST), bp::direction_2d(bp::SOUTH), bp::direction_2d(bp::NORTH)};
    int side = g.below(4); bool hz = g.chance(50); bp::orientation_2d o(hz ? bp::HORIZONTAL : bp::VERTICAL);
    if (what == 7 || what == 8) {              // resize: any signs
      for (int i = 0; i < 4; ++i) { int lim = std::min(4, std::max(0, room[i])); d[i] = g.range(-3, lim); }
      if (form == 0) { int q = g.chance(50) ? all : -g.range(0, 3); int lim = std::min(std::min(room[0], room[1]), std::min(room[2], room[3])); q = std::min(q, std::max(0, lim)); for (int i = 0; i < 4; ++i) d[i] = q; }
      if (any) { // the set is moved first: keep the intermediate in the grid (it is not observed) and the result too
        for (int i = 0; i < 4; ++i) d[i] = std::min(d[i], std::max(0, room[i])); }
      T u = stride;
      guarded("resize", [&] {
        if (form == 0) {
          int how = g.below(5), q = d[0];
          if (how == 0) bp::resize(reg[r], q * u);
          else if (how == 1) { Set t(reg[r]); reg[r] = t + q * u; }
          else if (how == 2) { Set t(reg[r]); reg[r] = t - (-q * u); }
          else if (how == 3) reg[r] += q * u;
          else reg[r] -= -q * u;
        } else if (form <= 3) reg[r].resize(d[0] * u, d[1] * u, d[2] * u, d[3] * u);
        else bp::resize(reg[r], d[0] * u, d[1] * u, d[2] * u, d[3] * u);
      });
      // a uniform resize bloats or shrinks about the centre: the same region as the four-sided form
      std::vector<int> dv(d, d + 4);
      if (form == 0) { bool neg = d[0] < 0; std::vector<int> a(4, neg ? -d[0] : d[0]);
        tr::ev(ks("a", neg ? "Shrink" : "Bloat") + "," + kv("r", r + 1) + "," + kv("d", arr(a)) + "," + kv("o", observe(reg[r]))); return; }
      tr::ev(ks("a", "Resize") + "," + kv("r", r + 1) + "," + kv("d", arr(dv)) + "," + kv("o", observe(reg[r])));
      return;
    }
    switch (form) {
      case 0: for (int i = 0; i < 4; ++i) d[i] = all; break;
      case 1: { int q = up ? std::min(pick(hz ? 0 : 2), std::max(0, room[hz ? 1 : 3])) : g.range(0, 3); d[hz ? 0 : 2] = d[hz ? 1 : 3] = q; break; }
      case 2: d[hz ? 0 : 2] = pick(hz ? 0 : 2); d[hz ? 1 : 3] = pick(hz ? 1 : 3); break;
      case 3: d[side] = pick(side); break;
      default: for (int i = 0; i < 4; ++i) d[i] = pick(i);
    }
    std::vector<int> dv(d, d + 4);
    unsigned long long u = (unsigned long long)stride;
    if (what == 9) {
      if (cells(r).corner_touch()) return;
      guarded("grow_and", [&] {
        switch (form) {
          case 0: bp::grow_and(reg[r], all * u); break;
          case 1: bp::grow_and(reg[r], o, d[hz ? 0 : 2] * u); break;
          case 2: bp::grow_and(reg[r], o, d[hz ? 0 : 2] * u, d[hz ? 1 : 3] * u); break;
          case 3: bp::grow_and(reg[r], dirs[side], d[side] * u); break;
          default: bp::grow_and(reg[r], d[0] * u, d[1] * u, d[2] * u, d[3] * u);
        } });
      tr::ev(ks("a", "GrowAnd") + "," + kv("r", r + 1) + "," + kv("d", arr(dv)) + "," + kv("o", observe(reg[r])));
    } else if (up) {
      guarded("bloat", [&] {
        bool cont = g.chance(25);
        std::vector<Pwh> c; if (cont) bp::assign(c, reg[r]);
        switch (form) {
          case 0: if (cont) bp::bloat(c, all * u); else bp::bloat(reg[r], all * u); break;
          case 1: if (cont) bp::bloat(c, o, d[hz ? 0 : 2] * u); else bp::bloat(reg[r], o, d[hz ? 0 : 2] * u); break;
          case 2: if (cont) bp::bloat(c, o, d[hz ? 0 : 2] * u, d[hz ? 1 : 3] * u); else bp::bloat(reg[r], o, d[hz ? 0 : 2] * u, d[hz ? 1 : 3] * u); break;
          case 3: if (cont) bp::bloat(c, dirs[side], d[side] * u); else if (g.chance(50)) bp::bloat(reg[r], dirs[side], d[side] * u); else reg[r].bloat(dirs[side], d[side] * u); break;
          case 4: if (cont) bp::bloat(c, d[0] * u, d[1] * u, d[2] * u, d[3] * u); else bp::bloat(reg[r], d[0] * u, d[1] * u, d[2] * u, d[3] * u); break;
          case 5: cont = false; reg[r].bloat2(d[0] * u, d[1] * u, d[2] * u, d[3] * u); break;
          default: cont = false; reg[r].bloat(d[0] * u, d[1] * u, d[2] * u, d[3] * u);
        }
        if (cont) bp::assign(reg[r], c);
      });
      tr::ev(ks("a", "Bloat") + "," + kv("r", r + 1) + "," + kv("d", arr(dv)) + "," + kv("o", observe(reg[r])));
    } else {
      guarded("shrink", [&] {
        bool cont = g.chance(25);
        std::list<Poly> c; if (cont) bp::assign(c, reg[r]);
        switch (form) {
          case 0: if (cont) bp::shrink(c, all * u); else bp::shrink(reg[r], all * u); break;
          case 1: if (cont) bp::shrink(c, o, d[hz ? 0 : 2] * u); else bp::shrink(reg[r], o, d[hz ? 0 : 2] * u); break;
          case 2: if (cont) bp::shrink(c, o, d[hz ? 0 : 2] * u, d[hz ? 1 : 3] * u); else bp::shrink(reg[r], o, d[hz ? 0 : 2] * u, d[hz ? 1 : 3] * u); break;
          case 3: if (cont) bp::shrink(c, dirs[side], d[side] * u); else if (g.chance(50)) bp::shrink(reg[r], dirs[side], d[side] * u); else reg[r].shrink(dirs[side], d[side] * u); break;
          case 4: if (cont) bp::shrink(c, d[0] * u, d[1] * u, d[2] * u, d[3] * u); else bp::shrink(reg[r], d[0] * u, d[1] * u, d[2] * u, d[3] * u); break;
          default: cont = false; reg[r].shrink(d[0] * u, d[1] * u, d[2] * u, d[3] * u);
        }
        if (cont) bp::assign(reg[r], c);
      });
      tr::ev(ks("a", "Shrink") + "," + kv("r", r + 1) + "," + kv("d", arr(dv)) + "," + kv("o", observe(reg[r])));
    }
  }
  void run_morph(int len) {
    for (int r = 0; r < K; ++r) fill(r, std::min(n - 2, 9), true);
    for (int k = 0; k < len; ++k) {
      int r = g.below(K), c = g.below(100);
      if (c < 62) morph(r);
      else if (c < 76) fill(r, std::min(n - 2, 9), true);
      else if (c < 82) fill(r, 6, false);
      else if (c < 90) bin(r);
      else if (c < 95) canon_event(r);
      else eq_event(r);
    }
  }
  // ---- transforms
  static Axis axis(int v) { return Axis((Axis::ATR)v); }
  // a random chain of elementary steps together with one library object equal to the chain
  struct Chain { std::string js; Axis at; Trans tr; bool axis_only; };
  static std::string st(int k, int a) { return "[" + S(k) + "," + S(a) + "]"; }
  static std::string st(int k, int a, int b) { return "[" + S(k) + "," + S(a) + "," + S(b) + "]"; }
  Chain chain(int reach) {  // reach: largest translation in ranks
    Chain c; std::vector<std::string> q; c.axis_only = g.chance(35);
    int how = g.below(c.axis_only ? 4 : 7); int u = stride;
    int v = g.below(8), w = g.below(8);
    int a = g.range(-reach, reach), b = g.range(-reach, reach), a2 = g.range(-reach, reach), b2 = g.range(-reach, reach);
    if (c.axis_only) {
      if (how == 0) { c.at = axis(v); q.push_back(st(0, v)); }
      else if (how == 1) { c.at = axis(v) + axis(w); q.push_back(st(0, v)); q.push_back(st(0, w)); }
      else if (how == 2) { c.at = axis(v).inverse(); q.push_back(st(3, v)); }
      else { bp::direction_2d h, vd; axis(v).get_directions(h, vd); c.at.set_directions(h, vd); Axis::INDIVIDUAL_AXIS ar[2]; c.at.populate_axis_array(ar); c.at = Axis(); c.at.write_back_axis_array(ar); q.push_back(st(0, v)); }
    } else {
      if (how == 0) { c.tr = Trans(axis(v)); q.push_back(st(0, v)); }
      else if (how == 1) { c.tr = Trans(Pt(a * u, b * u)); q.push_back(st(1, a, b)); }
      else if (how == 2) { c.tr = Trans(axis(v), Pt(a * u, b * u)); q.push_back(st(1, a, b)); q.push_back(st(0, v)); }
      else if (how == 3) { c.tr = Trans(axis(v), Pt(a * u, b * u)).inverse(); q.push_back(st(3, v)); q.push_back(st(4, a, b)); }
      else if (how == 4) { c.tr = Trans(axis(v), Pt(a * u, b * u)); c.tr += Trans(axis(w), Pt(a2 * u, b2 * u)); q.push_back(st(1, a, b)); q.push_back(st(0, v)); q.push_back(st(1, a2, b2)); q.push_back(st(0, w)); }
      else if (how == 5) { c.tr = Trans(axis(v), Pt(a * u, b * u), Pt(a2 * u, b2 * u)); q.push_back(st(1, a, b)); q.push_back(st(0, v)); q.push_back(st(4, a2, b2)); }
      else { Trans x(axis(v), Pt(a * u, b * u)), y(axis(w), Pt(a2 * u, b2 * u)); c.tr = (x + y).inverse(); // inverse in the opposite order
        q.push_back(st(3, w)); q.push_back(st(4, a2, b2)); q.push_back(st(3, v)); q.push_back(st(4, a, b)); }
    }
    c.js = arrs(q); return c;
  }
  template <class G> void apply(G& o, const Chain& c) { if (c.axis_only) bp::transform(o, c.at); else bp::transform(o, c.tr); }
  int slack(int r) { int b[4]; if (!ext(r, b)) return 2; int m = 0; for (int i = 0; i < 4; ++i) m = std::max(m, std::abs(b[i])); return M - m; }
  void affine(int r) {
    int how = g.below(10), sl = slack(r);
    if (sl < 0) { fill(r, 6, true); return; }
    if (how <= 3) {
      Chain c = chain(std::min(sl / 2, 3));
      guarded("transform", [&] {
        if (g.chance(40)) { if (c.axis_only) reg[r].transform(c.at); else reg[r].transform(c.tr); }
        else if (g.chance(60)) apply(reg[r], c);
        else { std::vector<Pwh> v; bp::assign(v, reg[r]); if (g.chance(50)) apply(v, c); else for (auto& p : v) apply(p, c); bp::assign(reg[r], v); }
      });
      tr::ev(ks("a", "Map") + "," + kv("r", r + 1) + "," + kv("q", c.js) + "," + kv("o", observe(reg[r])));
    } else if (how <= 5) {
      int a = g.range(-sl, sl), b = g.range(-sl, sl); bool one = g.chance(40), hz = g.chance(50); if (one) { if (hz) b = 0; else a = 0; }
      guarded("move", [&] {
        if (one) bp::move(reg[r], hz ? bp::HORIZONTAL : bp::VERTICAL, (hz ? a : b) * stride);
        else if (g.chance(50)) reg[r].move(a * stride, b * stride);
        else if (g.chance(50)) bp::move(reg[r], a * stride, b * stride);
        else { std::vector<Poly> v; bp::assign(v, reg[r]); for (auto& p : v) { bp::move(p, bp::HORIZONTAL, a * stride); bp::move(p, bp::VERTICAL, b * stride); } bp::assign(reg[r], v); }
      });
      tr::ev(ks("a", "Map") + "," + kv("r", r + 1) + ",\"q\":[" + st(4, a, b) + "]," + kv("o", observe(reg[r])));
    } else if (how == 6) {
      int b[4]; int m = 1; if (ext(r, b)) for (int i = 0; i < 4; ++i) m = std::max(m, std::abs(b[i]));
      int k = g.range(1, std::max(1, M / m));
      guarded("scale_up", [&] { if (g.chance(50)) reg[r].scale_up(k); else if (g.chance(50)) bp::scale_up(reg[r], k); else { std::list<Pwh> v; bp::assign(v, reg[r]); for (auto& p : v) bp::scale_up(p, k); bp::assign(reg[r], v); } });
      tr::ev(ks("a", "Map") + "," + kv("r", r + 1) + ",\"q\":[" + st(2, k) + "]," + kv("o", observe(reg[r])));
    } else if (how == 7) {
      if (stride != 1) return;
      int k = g.range(1, 4);
      guarded("scale_down", [&] { if (g.chance(50)) reg[r].scale_down(k); else bp::scale_down(reg[r], k); });
      tr::ev(ks("a", "Squeeze") + "," + kv("r", r + 1) + ",\"v\":" + arr(std::vector<int>{1, k, 1, k}) + "," + kv("o", observe(reg[r])));
    } else if (how == 8) {
      if (stride != 1) return;
      int b[4]; int m = 1; if (ext(r, b)) for (int i = 0; i < 4; ++i) m = std::max(m, std::abs(b[i]));
      static const int num[] = {1, 1, 1, 3, 2, 3, 5, 3}, den[] = {1, 2, 4, 4, 1, 1, 4, 2};
      int i = g.below(8), j = g.chance(50) ? i : g.below(8);
      if (m * num[i] > M * den[i] - den[i] || m * num[j] > M * den[j] - den[j]) { i = g.below(4); j = g.below(4); }
      int way = g.below(4);
      double fx = num[i] / (double)den[i], fy = num[j] / (double)den[j];
      if (way == 0) { j = i; fy = fx; }
      guarded("scale", [&] {
        bp::anisotropic_scale_factor<double> f(fx, fy);
        if (g.chance(30)) { bp::anisotropic_scale_factor<double> h; h.set(bp::VERTICAL, fy); h.x(fx); f = h; }
        if (way == 0) reg[r].scale(fx);
        else if (way == 1) reg[r].scale(f);
        else if (way == 2) bp::scale(reg[r], f);
        else reg[r].scale_with(f);
      });
      tr::ev(ks("a", "Squeeze") + "," + kv("r", r + 1) + ",\"v\":" + arr(std::vector<int>{num[i], den[i], num[j], den[j]}) + "," + kv("o", observe(reg[r])));
    } else {
      if (stride > 1000) return;
      if (cells(r).corner_touch()) return;
      int v[6] = {g.range(0, 6), g.range(0, 25), g.range(0, 3), g.range(0, 8), g.range(0, 3), g.range(0, 8)};
      if (g.chance(30)) { v[0] = 0; v[1] = 400; } if (g.chance(30)) { v[2] = 0; v[3] = 30; } if (g.chance(30)) { v[4] = 0; v[5] = 30; }
      unsigned long long u = stride;
      guarded("keep", [&] { bp::keep(reg[r], v[0] * u * u, v[1] * u * u, v[2] * u, v[3] * u, v[4] * u, v[5] * u); });
      tr::ev(ks("a", "Keep") + "," + kv("r", r + 1) + ",\"v\":" + arr(std::vector<int>(v, v + 6)) + "," + kv("o", observe(reg[r])));
    }
  }
  // single objects
  void object() {
    int w = g.range(2, std::min(6, M)), ox = g.range(M - w, M), oy = g.range(M - w, M);
    Shape s = shift(rnd_shape(g, w), ox, oy); std::string js = shape_json(s);
    std::string q, out; int u = stride;
    // what is applied
    int how = g.below(5); Chain c; int a = g.range(-(M - w), M - w), b = g.range(-(M - w), M - w), k = g.range(1, std::max(1, M / w));
    int side = 0; bool one = g.chance(40); side = g.below(2);
    if (how <= 2) { c = chain(std::max(0, (M - w) / 3)); q = c.js; }
    else if (how == 3) { if (one) { if (side) a = 0; else b = 0; } q = "[" + st(4, a, b) + "]"; }
    else q = "[" + st(2, k) + "]";
    auto act = [&](auto& o) {
      if (how <= 2) apply(o, c);
      else if (how == 3) { if (one) bp::move(o, side ? bp::VERTICAL : bp::HORIZONTAL, (side ? b : a) * u); else { bp::move(o, bp::HORIZONTAL, a * u); bp::move(o, bp::VERTICAL, b * u); } }
      else bp::scale_up(o, k);
    };
    guarded("object transform", [&] {
      if (s.t == 'R') { Rect o = to_rect(s, e); act(o); Shape z; z.t = 'R'; out = "{\"t\":\"R\",\"v\":" + rect_ranks<T>(o, e) + "}"; }
      else if (s.t == 'P') {
        switch (g.below(3)) {
          case 0: { Poly o = to_poly<Poly>(s.out, e); act(o); out = "{\"t\":\"P\",\"v\":" + poly_ranks<T>(o, e) + "}"; break; }
          case 1: { bp::polygon_45_data<T> o = to_poly<bp::polygon_45_data<T> >(s.out, e); act(o); out = "{\"t\":\"P\",\"v\":" + poly_ranks<T>(o, e) + "}"; break; }
          default: { bp::polygon_data<T> o = to_poly<bp::polygon_data<T> >(s.out, e); act(o); out = "{\"t\":\"P\",\"v\":" + poly_ranks<T>(o, e) + "}"; }
        }
      } else {
        auto fin = [&](auto& o) { act(o); std::vector<std::string> h; for (auto j = bp::begin_holes(o); j != bp::end_holes(o); ++j) h.push_back(poly_ranks<T>(*j, e)); out = "{\"t\":\"H\",\"v\":" + poly_ranks<T>(o, e) + ",\"h\":" + arrs(h) + "}"; };
        switch (g.below(3)) {
          case 0: { Pwh o = to_pwh<Pwh, Poly>(s, e); fin(o); break; }
          case 1: { bp::polygon_45_with_holes_data<T> o = to_pwh<bp::polygon_45_with_holes_data<T>, bp::polygon_45_data<T> >(s, e); fin(o); break; }
          default: { bp::polygon_with_holes_data<T> o = to_pwh<bp::polygon_with_holes_data<T>, bp::polygon_data<T> >(s, e); fin(o); }
        }
      }
    });
    tr::ev(ks("a", "MapObj") + "," + kv("q", q) + "," + kv("x", js) + "," + kv("y", out));
  }
  // points and segments, and a transformation object queried directly (units of the stride)
  void points() {
    Chain c = chain(std::min(50, (2000000000 / stride - 10) / 6)); std::vector<int> in, out; // images stay within 32 bits
    int kind = g.below(3);
    guarded("point transform", [&] {
      int m = kind == 1 ? 2 : g.range(1, 3);
      for (int i = 0; i < m; ++i) { in.push_back(g.range(-10, 10)); in.push_back(g.range(-10, 10)); }
      if (kind == 0) for (int i = 0; i < m; ++i) { Pt p(in[2 * i] * stride, in[2 * i + 1] * stride); apply(p, c); out.push_back(bp::x(p) / stride); out.push_back(bp::y(p) / stride); if (bp::x(p) % stride || bp::y(p) % stride) out.back() = 99999; }
      else if (kind == 1) { bp::segment_data<T> s(Pt(in[0] * stride, in[1] * stride), Pt(in[2] * stride, in[3] * stride)); apply(s, c);
        out = {bp::x(s.low()) / stride, bp::y(s.low()) / stride, bp::x(s.high()) / stride, bp::y(s.high()) / stride}; }
      else for (int i = 0; i < m; ++i) { T x = in[2 * i] * stride, y = in[2 * i + 1] * stride; if (c.axis_only) c.at.transform(x, y); else c.tr.transform(x, y); out.push_back(x / stride); out.push_back(y / stride); }
    });
    tr::ev(ks("a", "MapPts") + "," + kv("q", c.js) + "," + kv("p", arr(in)) + "," + kv("o", arr(out)));
  }
  // points and rectangles scaled with rounding to the nearest integer
  void rounding() {
    static const int num[] = {1, 1, 1, 3, 2, 3, 5, 3}, den[] = {1, 2, 4, 4, 1, 1, 4, 2};
    int i = g.below(8), j = g.chance(30) ? i : g.below(8), kind = g.below(4), k = g.range(1, 5);
    double fx = num[i] / (double)den[i], fy = num[j] / (double)den[j];
    std::vector<int> in, out, v = {num[i], den[i], num[j], den[j]};
    for (int q = 0; q < 4; ++q) in.push_back(g.range(-60, 60));
    bp::anisotropic_scale_factor<double> f(fx, fy);
    if (g.chance(20)) { // concatenated factors
      bp::anisotropic_scale_factor<double> a(fx, 1.0), b(1.0, fy); f = a + b; }
    guarded("scale", [&] {
      if (kind == 0) { Rect r(in[0], in[1], in[2], in[3]); in = {bp::xl(r), bp::yl(r), bp::xh(r), bp::yh(r)}; bp::scale(r, f); out = {bp::xl(r), bp::yl(r), bp::xh(r), bp::yh(r)}; }
      else if (kind == 1) { in.resize(2); Pt p(in[0], in[1]); bp::scale(p, f); out = {bp::x(p), bp::y(p)}; }
      else if (kind == 2) { in.resize(2); v = {1, k, 1, k}; Pt p(in[0], in[1]); bp::scale_down(p, k); out = {bp::x(p), bp::y(p)}; }
      else { in.resize(2); int x = in[0], y = in[1]; f.scale(x, y); out = {x, y}; }
    });
    tr::ev(ks("a", "RndPts") + "," + kv("v", arr(v)) + "," + kv("p", arr(in)) + "," + kv("o", arr(out)));
  }
  void run_affine(int len) {
    for (int r = 0; r < K; ++r) fill(r, 6, true);
    for (int k = 0; k < len; ++k) {
      int r = g.below(K), c = g.below(100);
      if (c < 45) affine(r);
      else if (c < 60) object();
      else if (c < 67) points();
      else if (c < 71) rounding();
      else if (c < 78) fill(r, 7, true);
      else if (c < 84) fill(r, 6, false);
      else if (c < 90) bin(r);
      else if (c < 96) canon_event(r);
      else eq_event(r);
    }
  }
};

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]);
  tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i);
    static const T strides[] = {1, 1, 2, 7, 1000, 20000000};
    Metric s(g, g.range(4, 9), strides[g.below(6)]);
    tr::begin(s.header());
    if (mode == "morph") s.run_morph(g.range(3, 8)); else s.run_affine(g.range(4, 10));
    tr::end();
  }
  tr::close();
  return 0;
}
