// Conformance driver for Voronoi diagrams (spec/Voro.tla).
// usage: voro <mode> <seed> <ntraces> <outfile>
//   small  points and segments on small grids, histories of one builder   (C20, C21)
//   wide   points and segments over the whole coordinate range            (C20, C21)
//   cases  inputs that once failed; kf-* single inputs that still fail    (C20)
#include "vorogen.hpp"
static std::string dy(double d) { if (d == 0) return "[0],0"; if (!std::isfinite(d)) return "[1,1],99999"; int e; double f = std::frexp(d, &e); ll m = (ll)std::ldexp(f, 53); e -= 53; while (!(m & 1)) { m /= 2; ++e; } return big(m) + "," + std::to_string(e); }
typedef bp::voronoi_diagram<double> VD;
static void dump(VD& vd, Rng& g) {
  auto& C = vd.cells(); auto& E = vd.edges(); auto& V = vd.vertices();
  auto ci = [&](const VD::cell_type* c) { return c ? (ll)(c - C.data()) + 1 : 0; };
  auto ei = [&](const VD::edge_type* e) { return e ? (ll)(e - E.data()) + 1 : 0; };
  auto vi = [&](const VD::vertex_type* v) { return v ? (ll)(v - V.data()) + 1 : 0; };
  bool col = vd.num_cells() == C.size() && vd.num_edges() == E.size() && vd.num_vertices() == V.size(); size_t salt = g.next() >> 6;
  if (g.chance(50)) {
    for (auto& c : C) c.color((salt ^ (size_t)ci(&c)) & (~(size_t)0 >> 5)); for (auto& e : E) e.color((salt ^ (size_t)ei(&e)) & (~(size_t)0 >> 5)); for (auto& v : V) v.color((salt ^ (size_t)vi(&v)) & (~(size_t)0 >> 5));
    for (auto& c : C) col = col && c.color() == ((salt ^ (size_t)ci(&c)) & (~(size_t)0 >> 5)); for (auto& e : E) col = col && e.color() == ((salt ^ (size_t)ei(&e)) & (~(size_t)0 >> 5)); for (auto& v : V) col = col && v.color() == ((salt ^ (size_t)vi(&v)) & (~(size_t)0 >> 5));
  }
  std::string s = ks("a", "Build") + "," + kv("col", col ? 1 : 0) + ",\"cells\":[";
  bool f = true; for (auto& c : C) { if (!f) s += ","; f = false; s += arr(std::vector<ll>{(ll)c.source_index(), (ll)c.source_category(), ei(c.incident_edge()), (c.contains_point() ? 1 : 0) | (c.contains_segment() ? 2 : 0) | (c.is_degenerate() ? 4 : 0)}); }
  s += "],\"verts\":["; f = true; for (auto& v : V) { if (!f) s += ","; f = false; s += "[" + dy(v.x()) + "," + dy(v.y()) + "," + std::to_string(ei(v.incident_edge())) + "," + (v.is_degenerate() ? "1" : "0") + "]"; }
  s += "],\"edges\":["; f = true;
  for (auto& e : E) { if (!f) s += ","; f = false;
    bool nul = !e.twin() || !e.prev() || !e.next();
    s += arr(std::vector<ll>{ci(e.cell()), vi(e.vertex0()), ei(e.twin()), ei(e.next()), ei(e.prev()),
      (e.is_primary() ? 1 : 0) | (e.is_secondary() ? 2 : 0) | (e.is_linear() ? 4 : 0) | (e.is_curved() ? 8 : 0) | (!nul && e.is_finite() ? 16 : 0) | (!nul && e.is_infinite() ? 32 : 0),
      nul ? -1 : vi(e.vertex1()), nul ? -1 : ei(e.rot_next()), nul ? -1 : ei(e.rot_prev())}); }
  tr::ev(s + "]");
}
static void hist(Rng& g, const Input& in) {
  // one builder, several constructions; the diagram object is fresh, or reused after clear
  bp::voronoi_builder<int> vb; VD vd; size_t ip = 0, is = 0; ll idx = 0; bool once = g.chance(60);
  auto ins = [&](bool point, size_t j) {
    ll r; if (point) { const P& p = in.pts[j]; r = (ll)(g.chance(50) ? vb.insert_point((int)p.x, (int)p.y) : bp::insert(bp::point_data<int>((int)p.x, (int)p.y), &vb)); tr::ev(ks("a", "P") + "," + kv("s", arrs({big(p.x), big(p.y)})) + "," + kv("r", r)); }
    else { const Sg& q = in.segs[j]; r = (ll)(g.chance(50) ? vb.insert_segment((int)q.a.x, (int)q.a.y, (int)q.b.x, (int)q.b.y) : bp::insert(bp::segment_data<int>(bp::point_data<int>((int)q.a.x, (int)q.a.y), bp::point_data<int>((int)q.b.x, (int)q.b.y)), &vb)); tr::ev(ks("a", "S") + "," + kv("s", arrs({big(q.a.x), big(q.a.y), big(q.b.x), big(q.b.y)})) + "," + kv("r", r)); }
    ++idx;
  };
  if (g.chance(25)) { // the convenience functions
    std::vector<bp::point_data<int>> ps; std::vector<bp::segment_data<int>> ss;
    for (auto& p : in.pts) { ps.push_back(bp::point_data<int>((int)p.x, (int)p.y)); tr::ev(ks("a", "P") + "," + kv("s", arrs({big(p.x), big(p.y)})) + "," + kv("r", idx++)); }
    for (auto& q : in.segs) { ss.push_back(bp::segment_data<int>(bp::point_data<int>((int)q.a.x, (int)q.a.y), bp::point_data<int>((int)q.b.x, (int)q.b.y))); tr::ev(ks("a", "S") + "," + kv("s", arrs({big(q.a.x), big(q.a.y), big(q.b.x), big(q.b.y)})) + "," + kv("r", idx++)); }
    if (ss.empty() && g.chance(50)) bp::construct_voronoi(ps.begin(), ps.end(), &vd);
    else if (ps.empty() && g.chance(50)) bp::construct_voronoi(ss.begin(), ss.end(), &vd);
    else if (g.chance(50)) bp::construct_voronoi(ps.begin(), ps.end(), ss.begin(), ss.end(), &vd);
    else { bp::insert(ps.begin(), ps.end(), &vb); bp::insert(ss.begin(), ss.end(), &vb); vb.construct(&vd); }
    dump(vd, g); return;
  }
  bool dirty = false;
  while (ip < in.pts.size() || is < in.segs.size()) {
    bool point = is >= in.segs.size() || (ip < in.pts.size() && g.chance(50));
    if (point) ins(true, ip++); else ins(false, is++);
    bool last = ip >= in.pts.size() && is >= in.segs.size();
    if (last || (!once && g.chance(12))) { if (dirty) { vd.clear(); if (vd.num_cells() || vd.num_edges() || vd.num_vertices()) tr::ev(ks("a", "NotCleared")); } vb.construct(&vd); dirty = true; dump(vd, g); }
    if (!last && !once && g.chance(5)) { vb.clear(); tr::ev(ks("a", "Clear")); idx = 0; }
  }
  if (!once && g.chance(20)) { VD v2; vb.construct(&v2); dump(v2, g); }
  if (!once && g.chance(20)) { vb.clear(); tr::ev(ks("a", "Clear")); VD v2; vb.construct(&v2); dump(v2, g); }
}
// Inputs of the full range whose feature sizes span more than the double coordinates resolve are excluded (known findings):
// grids stretched over the range and coordinates at its borders are kept to 12 bits when there are segments.
static bool loose = false;
static Input wide_any(Rng& g) {
  int c = g.below(12);
  if (c < 5) return wide_input(g, c == 4 ? 2 : c);
  if (c < 8) { int k = 4 + g.below(5); return wide_input(g, k, k == 7 ? g.range(4, 6) : g.range(6, 12)); }
  loose = true;
  if (c == 8) return wide_input(g, 5, 20);
  if (c < 10) return wide_input(g, c == 9 ? 6 : 8);
  Input in; for (;;) { in = wide_input(g, c == 10 ? 4 + g.below(2) : 7); in.segs.clear(); if (!in.pts.empty()) return in; }
}
struct Case { const char* name; Input in; };
static std::vector<Case> cases() {
  return {
    {"", {{{1, 2147483646}, {-2147483647 - 1, 2147483646}}, {{{-2147483647 - 1, -1}, {0, -1}}, {{0, -1}, {0, -2147483647 - 1}}}}},
    {"", {{}, {{{-65536, -1}, {0, 0}}, {{0, 0}, {0, -65536}}}}},
    {"", {{}, {{{-2147483647 - 1, -1}, {0, -1}}, {{0, -2147483647 - 1}, {0, -1}}}}},
    {"", {{}, {{{0, 65535}, {-65535, 65534}}, {{0, 65535}, {0, 0}}}}},
    {"", {{}, {{{0, -65536}, {0, 0}}, {{-65536, 1}, {-1, 0}}}}},
    {"", {{{2012, -3206}, {1804, -3363}}, {{{-3409, 988}, {3352, -3965}}}}},
    {"", {{{8, 3}, {10, 2}}, {{{11, 2}, {0, 0}}, {{0, 0}, {7, 0}}, {{7, 0}, {11, 2}}}}},
    {"kf-vertical-tangent", {{{-4096, -4095}, {1, -1}}, {{{4094, 1}, {4094, -4096}}}}},
    {"kf-nearly-tangent", {{}, {{{16383, -16383}, {16382, 0}}, {{-16384, -1}, {-16384, -16384}}}}},
    {"kf-unit-apart", {{}, {{{-1, -16777215}, {-1, -1}}, {{16777215, 16777214}, {16777215, -16777216}}}}},
    {"kf-points-unit-apart", {{{2147483647, -2147483647 - 1}, {2147483647, -2147483647}}, {{{-2147483647, 0}, {-2147483647, -2147483647}}}}},
    {"kf-lost-segment", {{}, {{{1420834, 0}, {1362091, 0}}, {{-99613954, 0}, {-99613954, -67108863}}, {{1048576, -67108864}, {1048576, 0}}}}},
  };
}
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]); tr::install(argv[4]);
  std::vector<Case> cs; for (auto& c : cases()) if (mode == (*c.name ? c.name : "cases")) cs.push_back(c); if (!cs.empty()) nt = (long)cs.size();
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i); loose = !cs.empty();
    Input in = !cs.empty() ? cs[i].in : mode == "small" ? small_input(g) : mode == "wide" ? wide_any(g) : wide_input(g, mode[4] - '0', mode.size() > 5 ? atoi(mode.c_str() + 5) : 31);
    tr::begin(kv("i", i) + "," + kv("b", mode == "small" ? 40 : 48) + "," + kv("lo", loose ? 1 : 0)); guarded(mode.c_str(), [&] { hist(g, in); }); tr::end();
  }
  tr::close(); return 0;
}
