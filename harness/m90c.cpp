// Conformance driver for relations among Manhattan regions (spec/ManhRel.tla).
// usage: m90c <mode> <seed> <ntraces> <outfile>
//   conn   connectivity extraction and interact          (C08)
//   merge  property merge                                (C09)
#include "manh.hpp"
using namespace boost::polygon::operators;
typedef int T;
typedef bp::polygon_90_set_data<T> Set;
typedef bp::rectangle_data<T> Rect;
typedef bp::polygon_90_data<T> Poly;
typedef bp::polygon_90_with_holes_data<T> Pwh;

static std::string regj(int r) { return "{\"t\":\"S\",\"r\":" + S(r + 1) + "}"; }
struct Rel {
  static const int K = 2;
  Rng& g; int n; Emb<T> e; Set reg[K];
  Rel(Rng& g_, int n_, int ek) : g(g_), n(n_), e(Emb<T>::make(g_, n_, ek)) { for (int i = 0; i < K; ++i) reg[i] = Set(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); }
  std::string header() { if (getenv("DBG")) { for (auto v : e.xs) fprintf(stderr, "%d ", v); fprintf(stderr, "| "); for (auto v : e.ys) fprintf(stderr, "%d ", v); fprintf(stderr, "\n"); } return kv("n", n) + "," + kv("K", K); }
  std::string observe(const Set& s0) {
    Set s(s0);
    switch (g.below(3)) {
      case 0: { std::vector<Rect> v; s.get(v); return obs_rects(v, e); }
      case 1: { std::vector<Poly> v; s.get(v); return obs_polys(v, e); }
      default: { std::list<Pwh> v; s.get(v); return obs_pwhs(v, e); }
    }
  }
  void ins(Set& s, const Shape& sh, bool hole = false) {
    if (sh.t == 'R') s.insert(to_rect(sh, e), hole);
    else if (sh.t == 'P') s.insert(to_poly<Poly>(sh.out, e), hole);
    else s.insert(to_pwh<Pwh, Poly>(sh, e), hole);
  }
  Shape small_shape() { // small shapes make contact of every kind likely
    if (g.chance(60)) { Shape s; s.t = 'R'; for (int k = 0; k < 2; ++k) { int w = g.range(1, std::min(n, 3)), lo = g.range(0, n - w); s.r[k] = lo; s.r[2 + k] = lo + w; } return s; }
    return rnd_shape(g, n);
  }
  bool corner(const Set& s) {
    Set a(s); std::vector<Rect> v; a.get(v); CellGrid c(n);
    for (auto& q : v) for (int y = e.ry(bp::yl(q)); y < e.ry(bp::yh(q)); ++y) for (int x = e.rx(bp::xl(q)); x < e.rx(bp::xh(q)); ++x) c.set(x, y, 1);
    return c.corner_touch();
  }
  void fill(int r) {
    Shapes v; for (int k = g.range(0, 6); k > 0; --k) v.push_back(small_shape());
    guarded("insert", [&] { reg[r].clear(); for (auto& s : v) ins(reg[r], s); });
    tr::ev(ks("a", "Set") + "," + kv("r", r + 1) + "," + kv("x", shapes_json(v)) + "," + kv("o", observe(reg[r])));
  }
  void add(int r) {
    Shapes v; v.push_back(small_shape());
    guarded("insert", [&] { ins(reg[r], v[0]); });
    tr::ev(ks("a", "Ins") + "," + kv("r", r + 1) + "," + kv("s", shapes_json(v)) + "," + kv("o", observe(reg[r])));
  }
  void interact(int r) {
    if (g_rect_only || corner(reg[r])) return; // (interact turns the region into polygons; see DESIGN on full-range coordinates)
    int how = g.below(3), j = 1 - r; std::string y;
    guarded("interact", [&] {
      if (how == 0) { if (g.chance(15)) { y = regj(r); reg[r].interact(reg[r]); } else { Set t(reg[j]); y = regj(j); reg[r].interact(t); } }
      else if (how == 1) { Set t(reg[j]); y = regj(j); bp::interact(reg[r], t); }
      else { Shapes v; Set q(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); for (int k = g.range(0, 3); k > 0; --k) { v.push_back(small_shape()); ins(q, v.back()); } y = shapes_json(v); bp::interact(reg[r], q); }
    });
    tr::ev(ks("a", "Interact") + "," + kv("r", r + 1) + "," + kv("y", y) + "," + kv("o", observe(reg[r])));
    size_t z = 0; Set c(reg[r]); guarded("size", [&] { z = c.size(); });
    tr::ev(ks("a", "Size") + "," + kv("x", regj(r)) + "," + kv("res", (long long)z));
  }
  void conn() {
    int m = g.range(0, 7); std::vector<std::string> js; std::vector<std::string> edges;
    bp::connectivity_extraction_90<T> ce; bool idok = true;
    for (int i = 0; i < m; ++i) {
      unsigned id = 0; int how = g.below(6);
      guarded("connectivity insert", [&] {
        if (how <= 2) { Shape s = small_shape(); js.push_back(shape_json(s)); if (s.t == 'R') id = ce.insert(to_rect(s, e)); else if (s.t == 'P') id = ce.insert(to_poly<Poly>(s.out, e)); else id = ce.insert(to_pwh<Pwh, Poly>(s, e)); }
        else if (how == 3) { Shapes v; std::vector<Rect> q; for (int k = g.range(0, 3); k > 0; --k) { v.push_back(small_shape()); if (v.back().t != 'R') { v.pop_back(); continue; } q.push_back(to_rect(v.back(), e)); } js.push_back(shapes_json(v)); Set st; st.insert(q.begin(), q.end()); id = ce.insert(st); }
        else { Set s(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); Shapes v; for (int k = g.range(0, 3); k > 0; --k) { v.push_back(small_shape()); ins(s, v.back()); } js.push_back(shapes_json(v)); id = ce.insert(s); }
      });
      if (id != (unsigned)i) idok = false;
    }
    bool map_graph = g.chance(30);
    guarded("connectivity extract", [&] {
      if (g.chance(20)) { bp::connectivity_extraction_90<T> c2(ce); ce = c2; }
      if (map_graph) { std::map<int, std::set<int> > gr; ce.extract(gr); for (auto& a : gr) for (int b : a.second) edges.push_back("[" + S(a.first + 1) + "," + S(b + 1) + "]"); }
      else { std::vector<std::set<int> > gr(m); ce.extract(gr); for (int a = 0; a < m; ++a) for (int b : gr[a]) edges.push_back("[" + S(a + 1) + "," + S(b + 1) + "]"); }
    });
    if (!idok) edges.push_back("[0,0]");
    tr::ev(ks("a", "Conn") + "," + kv("s", arrs(js)) + "," + kv("g", arrs(edges)));
  }
  template <class Key, class PM> std::string merge_with(PM& pm) {
    std::map<Key, Set> res; pm.merge(res); std::vector<std::string> out;
    for (auto& kvp : res) { std::vector<int> ps; for (auto& q : kvp.first) ps.push_back(Lab<typename Key::value_type>::un(q)); out.push_back("{\"ps\":" + arr(ps) + "," + kv("o", observe(kvp.second)) + "}"); }
    return arrs(out);
  }
  void merge() { if (g.chance(75)) merge_as<int>(); else merge_as<std::string>(); }
  template <class P> void merge_as() {
    int m = g.range(1, 8), np = g.range(1, 5); std::vector<std::string> ins_js; std::string out;
    bp::property_merge_90<T, P> pm;
    for (int i = 0; i < m; ++i) {
      int p = g.range(1, np), how = g.below(6);
      auto rec = [&](int hole, const std::string& s) { ins_js.push_back("{\"p\":" + S(p) + ",\"h\":" + S(hole) + ",\"s\":" + s + "}"); };
      guarded("property insert", [&] {
        if (how <= 2) { Shape s = g.chance(50) ? small_shape() : rnd_shape(g, n); rec(0, shape_json(s)); if (s.t == 'R') pm.insert(to_rect(s, e), Lab<P>::mk(p)); else if (s.t == 'P') pm.insert(to_poly<Poly>(s.out, e), Lab<P>::mk(p)); else pm.insert(to_pwh<Pwh, Poly>(s, e), Lab<P>::mk(p)); }
        else { // a set, scanned or not, with pending holes or not
          Set s(g.chance(50) ? bp::HORIZONTAL : bp::VERTICAL); Shapes v; bool any = false;
          for (int k = g.range(0, 3); k > 0; --k) { v.push_back(g.chance(50) ? small_shape() : rnd_shape(g, n)); ins(s, v.back()); any = true; }
          if (g.chance(40)) { // scanned: each point counts once
            s.clean(); std::string o; Set c(s); std::vector<Rect> q; c.get(q); Shapes w; for (auto& r : q) { Shape z; z.t = 'R'; z.r[0] = e.rx(bp::xl(r)); z.r[1] = e.ry(bp::yl(r)); z.r[2] = e.rx(bp::xh(r)); z.r[3] = e.ry(bp::yh(r)); w.push_back(z); } rec(0, shapes_json(w)); }
          else { if (any) rec(0, shapes_json(v)); if (g.chance(40)) { Shape h = rnd_shape(g, n); ins(s, h, true); rec(1, shape_json(h)); } }
          pm.insert(s, Lab<P>::mk(p));
        }
      });
    }
    guarded("property merge", [&] {
      if (g.chance(20)) { bp::property_merge_90<T, P> c(pm); pm = c; }
      if (g.chance(60)) out = merge_with<std::set<P> >(pm); else out = merge_with<std::vector<P> >(pm);
    });
    tr::ev(ks("a", "Merge") + "," + kv("ins", arrs(ins_js)) + "," + kv("out", out));
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]);
  tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i);
    int ek = g.chance(10) ? 4 : g.below(4); g_rect_only = ek == 4;
    Rel s(g, g.chance(60) ? g.range(2, 6) : g.range(5, 9), ek);
    tr::begin(s.header());
    for (int k = g.range(2, 5); k > 0; --k) {
      if (mode == "merge") s.merge();
      else if (g.chance(60)) s.conn();
      else { s.fill(0); s.fill(1); int r = g.below(2); s.interact(r); if (g.chance(30)) s.add(r); if (g.chance(30)) s.interact(1 - r); }
    }
    tr::end();
  }
  tr::close();
  return 0;
}
