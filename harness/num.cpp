// Conformance driver for the Voronoi number types (spec/Num.tla).
// usage: num <mode> <seed> <ntraces> <outfile>
//   int    fixed-width big integers            (C23)
//   fpt    wide-exponent floating point, ulp comparison, robust_dif, robust_fpt, square root sums (C23)
#include "big.hpp"
#include <cmath>
#include <limits>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/detail/voronoi_ctypes.hpp>
#include <boost/polygon/detail/voronoi_robust_fpt.hpp>
namespace bd = boost::polygon::detail; typedef long long ll; typedef boost::multiprecision::cpp_int Z;
typedef boost::uint32_t u32; typedef boost::int64_t i64; typedef boost::int32_t i32;
static std::string zb(const Z& v) { std::vector<long long> o; o.push_back(v < 0 ? -1 : v > 0 ? 1 : 0); Z m = v < 0 ? Z(-v) : v; while (m != 0) { o.push_back((long long)(m & 4095)); m >>= 12; } return arr(o); }
template <size_t N> Z toZ(const bd::extended_int<N>& x) { Z v = 0; for (size_t i = x.size(); i-- > 0;) { v <<= 32; v += x.chunks()[i]; } return x.count() < 0 ? Z(-v) : v; }
static unsigned bits(const Z& v) { return v == 0 ? 0 : (unsigned)msb(v < 0 ? Z(-v) : v) + 1; }
static std::string me(double d, ll sh = 0) { // odd mantissa and exponent
  if (d == 0 || !std::isfinite(d)) return kv("m", d == 0 ? "[0]" : "[1,1]") + "," + kv("x", d == 0 ? 0 : 999999);
  int e; double f = std::frexp(d, &e); ll m = (ll)std::ldexp(f, 53); e -= 53; while (!(m & 1)) { m /= 2; ++e; }
  return kv("m", big(m)) + "," + kv("x", e + sh);
}
static std::string me2(const char* a, const char* b, double d) { if (d == 0) return kv(a, "[0]") + "," + kv(b, 0); int e; double f = std::frexp(d, &e); ll m = (ll)std::ldexp(f, 53); e -= 53; while (!(m & 1)) { m /= 2; ++e; } return kv(a, big(m)) + "," + kv(b, e); }
static u32 word(Rng& g) { switch (g.below(7)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 1; case 3: return 0x80000000u; case 4: return 0xfffffffeu; default: return (u32)g.next(); } }
template <size_t N> struct Ints {
  typedef bd::extended_int<N> X; Rng& g; X r[4];
  Ints(Rng& g_) : g(g_) { for (int i = 0; i < 4; ++i) r[i] = X((i32)0); }
  void put(int k, const Z& v) { tr::ev(ks("a", "ISet") + "," + kv("k", k + 1) + "," + kv("v", zb(v)) + "," + kv("r", zb(toZ(r[k]))) + "," + kv("c", r[k].count())); }
  void set(int k) {
    switch (g.below(6)) {
      case 0: { i32 v = (i32)word(g); if (g.chance(50)) r[k] = X(v); else r[k] = v; put(k, Z(v)); break; }
      case 1: { i64 v = (i64)(((uint64_t)word(g) << 32) | word(g)); if (v == std::numeric_limits<i64>::min()) ++v; if (g.chance(50)) r[k] = X(v); else r[k] = v; put(k, Z(v)); break; }
      default: { int n = g.range(1, (int)std::min<size_t>(N, g.chance(80) ? 5 : N)); std::vector<u32> c; Z v = 0; for (int i = 0; i < n; ++i) c.push_back(word(g)); if (!c[0]) c[0] = 1 + (u32)g.below(3); bool plus = g.chance(50); for (u32 w : c) { v <<= 32; v += w; } r[k] = X(c, plus); put(k, plus ? v : Z(-v)); break; }
    }
  }
  void op() {
    int i = g.below(4), j = g.below(4), k = g.below(4); Z a = toZ(r[i]), b = toZ(r[j]); unsigned lim = 32 * N; const char* o; X t; int how = g.below(10);
    if (how < 3) { if (std::max(bits(a), bits(b)) + 1 > lim) return; o = "add"; t = r[i] + r[j]; if (g.chance(30)) t.add(r[i], r[j]); }
    else if (how < 7) { if (std::max(bits(a), bits(b)) + 1 > lim) return; o = "sub"; t = r[i] - r[j]; if (g.chance(30)) t.dif(r[i], r[j]); }
    else if (how < 8) { if (bits(a) + bits(b) > lim || bits(a) + bits(b) > 700) return; o = "mul"; t = r[i] * r[j]; if (g.chance(30)) t.mul(r[i], r[j]); else if (bits(b) < 32) t = r[i] * (i32)b; else if (bits(b) < 64) t = r[i] * (i64)b; }
    else if (how < 9) { o = "neg"; t = -r[i]; if (g.chance(30)) { t = r[i]; t.neg(); } }
    else { o = "copy"; bd::extended_int<80> w(r[i]); t = w; if (g.chance(50)) { w = r[i]; X q(w); t = q; } if (bits(a) <= 64 && g.chance(50)) { bd::extended_int<2> s(r[i]); t = s; } }
    r[k] = t; tr::ev(ks("a", "IOp") + "," + ks("op", o) + "," + kv("i", i + 1) + "," + kv("j", j + 1) + "," + kv("k", k + 1) + "," + kv("r", zb(toZ(t))) + "," + kv("c", t.count()));
  }
  void ask() {
    int i = g.below(4), j = g.below(4); const X &a = r[i], &b = r[j];
    std::vector<int> c = {a == b, a != b, a < b, a > b, a <= b, a >= b}, s = {bd::is_pos(a) && a.is_pos(), bd::is_neg(a) && a.is_neg(), bd::is_zero(a) && a.is_zero()};
    tr::ev(ks("a", "ICmp") + "," + kv("i", i + 1) + "," + kv("j", j + 1) + "," + kv("r", arr(c)) + "," + kv("s", arr(s)));
  }
  void fp() { int i = g.below(4); if (r[i].size() <= 30 && g.chance(60)) { double d = g.chance(50) ? r[i].d() : bd::type_converter_fpt()(r[i]); tr::ev(ks("a", "IFp") + "," + kv("i", i + 1) + "," + me(d)); } else { std::pair<double, int> p = r[i].p(); tr::ev(ks("a", "IFp") + "," + kv("i", i + 1) + "," + me(p.first, p.second)); } }
  void run() { for (int n = g.range(8, 24); n > 0; --n) { int k = g.below(10); if (k < 2 || n > 20) set(g.below(4)); else if (k < 7) op(); else if (k < 9) ask(); else fp(); } }
};
typedef bd::efpt64 E;
struct Floats {
  Rng& g; E f[4]; ll x[4]; // approximate exponents, for reading back
  Floats(Rng& g_) : g(g_), f{E(0.0), E(0.0), E(0.0), E(0.0)} { for (int i = 0; i < 4; ++i) x[i] = 0; }
  // mantissa and exponent of a register: exact scaling by a power of two
  bool read(const E& v, ll guess, double& d, ll& sh) {
    for (ll t : {guess, guess + 900, guess - 900}) { E w = v * E(1.0, (int)-t); double y = w.d(); if (v.is_zero()) { d = 0; sh = 0; return true; } if (y != 0 && std::isfinite(y) && std::fabs(y) > 1e-290) { d = y; sh = t; return true; } }
    return false;
  }
  double mant() { switch (g.below(5)) { case 0: return 1; case 1: return 1 - std::ldexp(1, -53); case 2: return 0.5 + std::ldexp((double)(g.next() % 16), -53); case 3: return (double)g.range(1, 40); default: return std::ldexp((double)(g.next() >> 11), -53) + std::ldexp(1, -60); } }
  void emit(const char* a, const std::string& more, int k, ll guess) { double d = 0; ll sh = 0; bool ok = read(f[k], guess, d, sh); int e = 0; std::frexp(d, &e); x[k] = d == 0 ? 0 : sh + e; tr::ev(ks("a", a) + "," + more + (more.empty() ? "" : ",") + kv("k", k + 1) + "," + (ok ? me(d, sh) : kv("m", "[1,1]") + "," + kv("x", 99999999))); }
  void set(int k) {
    double d = mant() * (g.chance(50) ? 1 : -1); if (g.chance(12)) d = 0; int e = g.chance(40) ? g.range(-60, 60) : g.chance(50) ? g.range(-1000, 1000) : g.range(-200000000, 200000000);
    ll sh = 0; if (g.chance(40) || d == 0) { if (std::abs(e) > 900) e = 0; d = std::ldexp(d, e); f[k] = E(d); } else { f[k] = E(d, e); sh = e; }
    std::string v = d == 0 ? kv("vm", "[0]") + "," + kv("vx", 0) : me(d, sh); if (d != 0) { size_t p = v.find("\"m\""); v.replace(p, 3, "\"vm\""); p = v.find("\"x\""); v.replace(p, 3, "\"vx\""); }
    int ee; std::frexp(d, &ee); emit("FSet", v, k, d == 0 ? 0 : sh + ee);
  }
  void op() {
    int i = g.below(4), j = g.below(4), k = g.below(4), how = g.below(12); E t(0.0); const char* o; ll guess = 0; E a = f[i], b = f[j];
    if (how < 4) { o = "add"; t = a + b; if (g.chance(30)) { t = a; t += b; } guess = std::max(x[i], x[j]); if (a.is_zero()) guess = x[j]; if (b.is_zero()) guess = x[i]; }
    else if (how < 7) { o = "sub"; t = a - b; if (g.chance(30)) { t = a; t -= b; } guess = std::max(x[i], x[j]); if (a.is_zero()) guess = x[j]; if (b.is_zero()) guess = x[i]; }
    else if (how < 9) { if (std::llabs(x[i] + x[j]) > 900000000) return; o = "mul"; t = a * b; if (g.chance(30)) { t = a; t *= b; } guess = x[i] + x[j]; }
    else if (how < 10) { if (b.is_zero() || std::llabs(x[i] - x[j]) > 900000000) return; o = "div"; t = a / b; if (g.chance(30)) { t = a; t /= b; } guess = x[i] - x[j]; }
    else if (how < 11) { if (a.is_neg()) return; o = "sqrt"; t = g.chance(50) ? a.sqrt() : bd::get_sqrt(a); guess = x[i] / 2; }
    else { o = "neg"; t = -a; guess = x[i]; }
    f[k] = t; emit("FOp", ks("op", o) + "," + kv("i", i + 1) + "," + kv("j", j + 1), k, guess);
  }
  void ask() { int i = g.below(4); const E& a = f[i]; if (std::llabs(x[i]) > 1000) return; std::vector<int> s = {bd::is_pos(a) && a.is_pos(), bd::is_neg(a) && a.is_neg(), bd::is_zero(a) && a.is_zero()}; double d = g.chance(50) ? a.d() : bd::type_converter_fpt()(a); tr::ev(ks("a", "FAsk") + "," + kv("i", i + 1) + "," + kv("s", arr(s)) + "," + me(d)); }
  void run() { for (int n = g.range(8, 20); n > 0; --n) { int k = g.below(10); if (k < 3 || n > 17) set(g.below(4)); else if (k < 9) op(); else ask(); } }
};
struct Rest {
  Rng& g; Rest(Rng& g_) : g(g_) {}
  static std::string ord(double d) { uint64_t u; memcpy(&u, &d, 8); bool neg = u >> 63; u &= ~(1ull << 63); return big(neg ? -(i128)u : (i128)u); }
  void ulp() {
    double a; int k = g.below(5); if (k == 0) a = 0; else if (k == 1) a = std::ldexp(1.0, g.range(-1070, 1000)); else { uint64_t u = g.next(); if (((u >> 52) & 2047) == 2047) u ^= 1ull << 60; memcpy(&a, &u, 8); }
    double b = a; unsigned u = g.chance(60) ? g.range(0, 70) : (unsigned)g.next(); int step = g.range(-70, 70); if (g.chance(30)) step = (g.chance(50) ? 1 : -1) * (int)(std::min(u, 100000u) + g.range(0, 1));
    for (int i = 0; i < std::abs(step); ++i) { double n = std::nextafter(b, step < 0 ? -INFINITY : INFINITY); if (!std::isfinite(n)) break; b = n; }
    if (g.chance(10)) b = -a; if (g.chance(5)) { b = -0.0; } if (g.chance(10)) std::swap(a, b); if (a == 0 && g.chance(50)) a = -0.0;
    int r = bd::ulp_comparison<double>()(a, b, u); tr::ev(ks("a", "Ulp") + "," + kv("x", ord(a)) + "," + kv("y", ord(b)) + "," + kv("u", big((i128)u)) + "," + kv("r", r));
  }
  void difs() {
    typedef bd::robust_dif<i64> D; D d[4]; i128 p[4], n[4]; for (int i = 0; i < 4; ++i) { d[i] = D(); p[i] = n[i] = 0; }
    auto lim = [&](i128 v) { return v < ((i128)1 << 61); };
    for (int c = g.range(5, 14); c > 0; --c) {
      int i = g.below(4), j = g.below(4), k = g.below(4), how = g.below(11); i64 v = g.range(-40, 40); if (g.chance(20)) v = (i64)g.next() >> g.range(4, 60); if (g.chance(10)) v = 0; D t; const char* o; bool reg = g.chance(50); int jj = reg ? j + 1 : 0; i128 av = v < 0 ? -(i128)v : v;
      auto done = [&](const char* op, int I) { d[k] = t; p[k] = t.pos(); n[k] = t.neg(); tr::ev(ks("a", "DOp") + "," + ks("op", op) + "," + kv("i", I) + "," + kv("j", jj) + "," + kv("k", k + 1) + "," + kv("v", big(v)) + "," + kv("p", big(t.pos())) + "," + kv("n", big(t.neg())) + "," + kv("d", big(t.dif()))); };
      if (how < 2) { t = D(v); jj = 0; done("set", i + 1); }
      else if (how < 4) { if (!lim(reg ? std::max(p[i] + p[j], n[i] + n[j]) : std::max(p[i], n[i]) + av)) continue; if (reg) { if (g.chance(50)) t = d[i] + d[j]; else { t = d[i]; t += d[j]; } } else { int w = g.below(3); if (w == 0) t = d[i] + v; else if (w == 1) t = v + d[i]; else { t = d[i]; t += v; } } done("add", i + 1); }
      else if (how < 6) { if (!lim(reg ? std::max(p[i] + n[j], n[i] + p[j]) : std::max(p[i], n[i]) + av)) continue; if (reg) { if (g.chance(50)) t = d[i] - d[j]; else { t = d[i]; t -= d[j]; } } else { if (g.chance(50)) t = d[i] - v; else { t = d[i]; t -= v; } } done("sub", i + 1); }
      else if (how < 7) { if (!lim(std::max(p[i], n[i]) + av)) continue; D s(v); t = v - d[i]; D m = -d[i]; // v - d[i], recorded as -(d[i]) and then + v
        d[k] = m; p[k] = m.pos(); n[k] = m.neg(); tr::ev(ks("a", "DOp") + "," + ks("op", "neg") + "," + kv("i", i + 1) + "," + kv("j", 0) + "," + kv("k", k + 1) + "," + kv("v", big(v)) + "," + kv("p", big(m.pos())) + "," + kv("n", big(m.neg())) + "," + kv("d", big(m.dif()))); jj = 0; done("add", k + 1); }
      else if (how < 9) { if (reg) { if (!lim(p[i] + n[i]) || p[i] + n[i] > ((i128)1 << 29) || p[j] + n[j] > ((i128)1 << 29)) continue; if (g.chance(50)) t = d[i] * d[j]; else { t = d[i]; t *= d[j]; } } else { if (std::max(p[i], n[i]) > ((i128)1 << 30) || av > ((i128)1 << 30)) continue; int w = g.below(3); if (w == 0) t = d[i] * v; else if (w == 1) t = v * d[i]; else { t = d[i]; t *= v; } } done("mul", i + 1); }
      else if (how < 10) { jj = 0; t = -d[i]; done("neg", i + 1); }
      else { if (!v) continue; i64 q = 0; for (i64 c2 : {12, 10, 7, 6, 5, 4, 3, 2, 1}) if (p[i] % c2 == 0 && n[i] % c2 == 0) { q = c2; break; } if (g.chance(50)) q = -q; if (g.chance(50)) t = d[i] / q; else { t = d[i]; t /= q; } d[k] = t; p[k] = t.pos(); n[k] = t.neg(); tr::ev(ks("a", "DDiv") + "," + kv("i", i + 1) + "," + kv("k", k + 1) + "," + kv("v", big(q)) + "," + kv("p", big(t.pos())) + "," + kv("n", big(t.neg()))); }
    }
  }
  static Z isqrt(const Z& v) { return boost::multiprecision::sqrt(v); }
  template <class I, class F, class C> void sqrts(int amax, int bmax) {
    typedef bd::robust_sqrt_expr<I, F, C> S; S s; int n = g.range(1, 4); std::vector<Z> A, B; bool special = g.chance(45);
    auto num = [&](int b) { int k = g.range(1, b); i64 v = (i64)(g.next() >> (64 - k)); if (g.chance(20)) v = (1ll << (k - 1)) + g.range(-1, 1); return Z(v); };
    for (int i = 0; i < n; ++i) { A.push_back(num(amax) * (g.chance(50) ? 1 : -1)); B.push_back(g.chance(8) ? Z(0) : num(bmax)); if (g.chance(5)) A[i] = 0; }
    if (special && n >= 2) { // near or exact cancellation
      int how = g.below(4); Z c = num(std::max(2, bmax / 3)), q = 1 + num(std::max(1, std::min(amax, bmax / 3) / 2 - 1));
      if (how == 0) { B[0] = c; A[0] = q; B[1] = c * q * q; A[1] = -1; if (n >= 3) { B[2] = B[0]; A[2] = num(4); if (n == 4) { B[3] = B[0]; A[3] = -A[2]; } } }
      else if (how == 1) { B[0] = c * q * q + g.range(-1, 1); A[0] = 1; B[1] = c; A[1] = -q; if (n == 4) { B[2] = B[0]; A[2] = -1; B[3] = B[1]; A[3] = q; if (g.chance(50)) { A[3] = q + 1; } } }
      else if (how == 2) { B[0] = 1; A[0] = isqrt(num(bmax)) + 1; B[1] = A[0] * A[0] + g.range(-2, 2); A[1] = -1; if (B[1] < 0) B[1] = 0; }
      else { // sqrt(a)+sqrt(b) against sqrt(a+b+2sqrt(ab))
        Z a = num(std::max(2, bmax / 4)), b = num(std::max(2, bmax / 4)); B[0] = a; A[0] = 1; B[1] = a * b * b; A[1] = 1; if (n >= 3) { B[2] = a * (b + 1) * (b + 1) + (g.chance(50) ? 0 : 1); A[2] = -1; } if (n == 4) { A[3] = 0; B[3] = num(bmax); if (g.chance(50)) { A[3] = 1; B[3] = 1; } } }
      if (g.chance(30)) { int i = g.below(n), j = g.below(n); std::swap(A[i], A[j]); std::swap(B[i], B[j]); }
      if (g.chance(30)) for (auto& a : A) a = -a;
    }
    for (int i = 0; i < n; ++i) if (B[i] < 0 || bits(A[i]) > (unsigned)amax + 2 || bits(B[i]) > (unsigned)bmax + 2) return;
    if (sizeof(I) == 8 && n > 2) { unsigned ma = 0, mb = 0; for (int i = 0; i < n; ++i) { ma = std::max(ma, bits(A[i])); mb = std::max(mb, bits(B[i])); } // no overflow on the way
      if ((n == 4 ? 8 * ma + 4 * mb + 20 : 4 * ma + 2 * mb + 8) > 62) return; }
    I a[4], b[4]; for (int i = 0; i < n; ++i) { a[i] = I((i64)A[i]); b[i] = I((i64)B[i]); }
    F v = n == 1 ? s.eval1(a, b) : n == 2 ? s.eval2(a, b) : n == 3 ? s.eval3(a, b) : s.eval4(a, b);
    double d = tod(v); if (d != d) d = 1e300;
    // precision: enough to tell the sum from zero
    int w = 0, full = 16 * (amax + bmax / 2 + 4); bool zero = true; std::vector<Z> R;
    for (int k : {80, 160, 320, full}) { w = std::min(k, full); R.clear(); Z t = 0, u = 0; for (int i = 0; i < n; ++i) { R.push_back(isqrt(Z(B[i] << (2 * w)))); t += A[i] * R[i]; u += abs(A[i]); } if (abs(t) >= (u << 64) && t != 0) { zero = false; break; } if (w == full) break; }
    if (zero) { // either exactly zero or too close to tell apart within this precision
      Z t = 0, u = 0; for (int i = 0; i < n; ++i) { t += A[i] * R[i]; u += abs(A[i]); } if (abs(t) > u) return; }
    std::vector<std::string> sa, sb, sr; for (int i = 0; i < n; ++i) { sa.push_back(zb(A[i])); sb.push_back(zb(B[i])); sr.push_back(zb(R[i])); }
    tr::ev(ks("a", "Sqrt") + "," + kv("A", arrs(sa)) + "," + kv("B", arrs(sb)) + "," + kv("R", arrs(sr)) + "," + kv("w", w) + "," + kv("z", zero ? 1 : 0) + "," + me(d));
  }
  static double tod(double d) { return d; }
  static double tod(const E& e) { return e.d(); }
  void rfs() {
    typedef bd::robust_fpt<double> R; R r[4]; bool ok[4] = {false, false, false, false};
    auto val = [&](const R& v) { return me(v.fpv()) + "," + me2("rm", "rx", v.re()); };
    for (int i = 0; i < 4; ++i) { ll v = (g.chance(50) ? g.range(1, 99) : (ll)(g.next() >> 12)) * (g.chance(50) ? 1 : -1); double d = (double)v; Z num = v, den = 1; int err = 0; if (g.chance(40)) { ll q = g.range(2, 99); d = d / (double)q; den = q; err = 1; } r[i] = err ? R(d, 1.0) : R(d); ok[i] = true; tr::ev(ks("a", "RSet") + "," + kv("k", i + 1) + "," + kv("q", "[" + zb(num) + "," + zb(den) + "]") + "," + val(r[i])); }
    int budget = 8;
    for (int c = g.range(2, 7); c > 0; --c) {
      int i = g.below(4), j = g.below(4), k = g.below(4), how = g.below(5); if (!ok[i] || !ok[j]) continue; R t; const char* o; bool asg = g.chance(40);
      if (g.chance(20) && r[i].has_pos_value()) { R q = g.chance(50) ? r[i].sqrt() : bd::get_sqrt(r[i]); if (q.re() < 1e10) tr::ev(ks("a", "RSqrt") + "," + kv("i", i + 1) + "," + val(q)); }
      if (how < 3 && how != 2) { o = "add"; if (r[i].fpv() + r[j].fpv() == 0) continue; if (asg) { t = r[i]; t += r[j]; } else t = r[i] + r[j]; }
      else if (how == 2) { o = "sub"; if (r[i].fpv() - r[j].fpv() == 0) continue; if (asg) { t = r[i]; t -= r[j]; } else t = r[i] - r[j]; }
      else if (how == 3) { o = "mul"; if (--budget < 0) continue; if (asg) { t = r[i]; t *= r[j]; } else t = r[i] * r[j]; }
      else { o = g.chance(70) ? "div" : "neg"; if (o[0] == 'd') { if (--budget < 0) continue; if (asg) { t = r[i]; t /= r[j]; } else t = r[i] / r[j]; } else t = -r[i]; }
      if (!std::isfinite(t.fpv()) || std::fabs(t.fpv()) > 1e200 || std::fabs(t.fpv()) < 1e-200 || t.re() > 1e11 || !(t.re() == t.re())) continue;
      r[k] = t; tr::ev(ks("a", "ROp") + "," + ks("op", o) + "," + kv("i", i + 1) + "," + kv("j", j + 1) + "," + kv("k", k + 1) + "," + val(t));
    }
  }
};
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long nt = atol(argv[3]); tr::install(argv[4]);
  for (long i = 0; i < nt; ++i) {
    Rng g(seed * 1000003ull + (uint64_t)i); tr::begin(kv("i", i));
    guarded(mode.c_str(), [&] {
      if (mode == "int") { switch (g.below(4)) { case 0: Ints<4>(g).run(); break; case 1: Ints<8>(g).run(); break; default: Ints<64>(g).run(); } }
      else { Rest r(g); int k = g.below(10); if (k < 4) Floats(g).run(); else if (k < 5) for (int n = 6; n > 0; --n) r.ulp(); else if (k < 6) r.difs(); else if (k < 7) r.rfs();
        else for (int n = 4; n > 0; --n) switch (g.below(3)) { case 0: if (g.chance(50)) r.sqrts<i64, double, bd::type_converter_fpt>(6, 8); else r.sqrts<i64, double, bd::type_converter_fpt>(2, 3); break; case 1: r.sqrts<bd::extended_int<16>, double, bd::type_converter_fpt>(16, 20); break; default: r.sqrts<bd::extended_int<64>, E, bd::type_converter_efpt>(24, 40); } }
    });
    tr::end();
  }
  tr::close(); return 0;
}
