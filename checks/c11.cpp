// C11: floating-point math, common and geometric builtins against reference definitions for every overload and width.
#include "vf.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
#include <functional>
#include <algorithm>
#include <set>
using std::isnan; using std::isinf; using std::signbit;
using namespace vf;
typedef long double L;
static CL* cl; static Capture* cap;
static const int WID[] = {1, 2, 3, 4, 8, 16};
static const L PI = 3.141592653589793238462643383279502884L;
static const L NANL = __builtin_nanl(""), INFL = __builtin_infl();
struct Out
{
  L v = 0; bool judged = true; bool zsign = true; L tol = 0; // tol: absolute tolerance added to the ulp bound
  bool ejudged = false; L e = 0; bool eint = false; int64_t ei = 0; bool ei7 = false; // value stored through the pointer argument
  Out(L x) : v(x) {} Out() {}
  static Out skip() { Out o; o.judged = false; return o; }
  Out& any() { zsign = false; return *this; }
  Out& E(L x) { ejudged = true; e = x; return *this; }
  Out& EI(int64_t x) { ejudged = true; eint = true; ei = x; return *this; }
};
struct Fn { string name, sig; char ptr; L ulp; std::function<Out(const L*, bool)> ref; bool fonly; char ret; };
static L maxT(bool f) { return f ? (L)FLT_MAX : (L)DBL_MAX; }
static L minSub(bool f) { return f ? 0x1p-149L : 0x1p-1074L; }
static L rndT(L x, bool f) { return f ? (L)(float)x : (L)(double)x; }
static L ulpT(L x, bool f) { x = fabsl(x); if (!(x > 0)) return minSub(f); if (x > maxT(f)) x = maxT(f); int e = ilogbl(x); L u = ldexpl(1, e - (f ? 23 : 52)); return u < minSub(f) ? minSub(f) : u; }
static string sl(L x) { return fmt("%La(%.9Lg)", x, x); }
static bool same(L got, const Out& o, L ulp, bool f)
{
  if (!o.judged) return true;
  if (isnan(o.v)) return isnan(got);
  if (isnan(got)) return false;
  if (isinf(o.v)) return got == o.v;
  if (o.v == 0 && o.tol == 0) return got == 0 && (!o.zsign || signbit(got) == signbit(o.v));
  L bound = (ulp == 0 ? 0 : ulp * ulpT(o.v, f)) + o.tol;
  if (ulp == 0 && o.tol == 0) { L r = rndT(o.v, f); return got == r && (got != 0 || !o.zsign || signbit(got) == signbit(r)); }
  if (isinf(got)) return signbit(got) == signbit(o.v) && fabsl(o.v) + bound >= maxT(f);
  return fabsl(got - o.v) <= bound;
}
static bool negint(L x) { return x < 0 && !isinf(x) && truncl(x) == x; }
static L sinpil_(L x)
{
  if (isinf(x) || isnan(x)) return NANL;
  if (truncl(x) == x) return copysignl(0, x);
  L r = fmodl(x, 2); // exact
  if (r > 0.5L && r < 1.5L) r = 1 - r; else if (r >= 1.5L) r = r - 2; else if (r < -0.5L && r > -1.5L) r = -1 - r; else if (r <= -1.5L) r = r + 2;
  return sinl(PI * r);
}
static L cospil_(L x)
{
  if (isinf(x) || isnan(x)) return NANL;
  L r = fabsl(fmodl(x, 2));
  if (r == 0.5L || r == 1.5L) return 0;
  if (r > 1) r = 2 - r; // cos(pi r) = cos(pi (2 - r))
  return r < 0.25L ? cosl(PI * r) : r > 0.75L ? -cosl(PI * (1 - r)) : sinl(PI * (0.5L - r));
}
static L tanpil_(L x)
{
  if (isinf(x) || isnan(x)) return NANL;
  if (truncl(x) == x) return fmodl(fabsl(x), 2) == 1 ? copysignl(0, -x) : copysignl(0, x);
  L r = fmodl(x, 2), h = fabsl(r);
  if (h == 0.5L || h == 1.5L) { L m = fmodl(x - 0.5L, 2); return m == 0 ? INFL : -INFL; } // n + 0.5: +inf for even n, -inf for odd n
  return sinpil_(x) / cospil_(x);
}
static L powrl_(L x, L y)
{
  if (isnan(x) || isnan(y) || x < 0) return NANL;
  if (x == 1) return isinf(y) ? NANL : 1;
  if (y == 0) return (x == 0 || isinf(x)) ? NANL : 1;
  if (x == 0) return y < 0 ? INFL : 0;
  if (isinf(x)) return y < 0 ? 0 : INFL;
  return powl(x, y);
}
static L rootnl_(L x, int n)
{
  if (n == 0 || isnan(x)) return NANL;
  bool odd = n & 1;
  if (x == 0) return n < 0 ? (odd ? copysignl(INFL, x) : INFL) : (odd ? x : 0);
  if (x < 0 && !odd) return NANL;
  if (isinf(x)) { L r = n < 0 ? 0 : INFL; return x < 0 ? -r : r; }
  L r = powl(fabsl(x), 1.0L / n); // refine by one Newton step in the log domain
  if (r > 0 && !isinf(r)) { L res = logl(fabsl(x)) - n * logl(r); r *= 1 + res / n; }
  return x < 0 ? -r : r;
}
static vector<Fn> FN;
static void F1(const char* n, L ulp, L (*g)(L), const char* = 0) { FN.push_back({n, "v", 0, ulp, [g](const L* a, bool) { return Out(g(a[0])); }, false, 'v'}); }
static void F2(const char* n, L ulp, L (*g)(L, L)) { FN.push_back({n, "vv", 0, ulp, [g](const L* a, bool) { return Out(g(a[0], a[1])); }, false, 'v'}); }
static void FX(const char* n, const char* sig, char ptr, L ulp, std::function<Out(const L*, bool)> g, bool fonly = false, char ret = 'v') { FN.push_back({n, sig, ptr, ulp, g, fonly, ret}); }
static void FH(const char* n, const char* sig, L lo, L hi, std::function<L(const L*)> g)
{ // half_ and native_ variants: single precision, low accuracy, judged where the result is an ordinary number
  for (const char* p : {"half_", "native_"})
    FN.push_back({string(p) + n, sig, 0, 8192, [=](const L* a, bool f) { for (const char* c = sig; *c; c++) { L x = fabsl(a[c - sig]); if (!(x >= lo && x <= hi)) return Out::skip(); } L r = g(a); if (isnan(r) || isinf(r) || fabsl(r) > 0x1p120L || fabsl(r) < 0x1p-120L) return Out::skip(); return Out(r); }, true, 'v'});
}
static void table()
{
  F1("acos", 4, acosl); F1("acosh", 4, acoshl); F1("acospi", 5, [](L x) { return acosl(x) / PI; }); F1("asin", 4, asinl); F1("asinh", 4, asinhl); F1("asinpi", 5, [](L x) { return asinl(x) / PI; });
  F1("atan", 5, atanl); F1("atanh", 5, atanhl); F1("atanpi", 5, [](L x) { return atanl(x) / PI; }); F2("atan2", 6, atan2l); F2("atan2pi", 6, [](L y, L x) { return atan2l(y, x) / PI; });
  F1("cbrt", 2, cbrtl); F1("ceil", 0, ceill); F2("copysign", 0, copysignl); F1("cos", 4, cosl); F1("cosh", 4, coshl); F1("cospi", 4, cospil_);
  F1("erfc", 16, erfcl); F1("erf", 16, erfl); F1("exp", 3, expl); F1("exp2", 3, exp2l); F1("exp10", 3, exp10l); F1("expm1", 3, expm1l); F1("fabs", 0, fabsl);
  FX("fdim", "vv", 0, 0, [](const L* a, bool f) { if (isnan(a[0]) || isnan(a[1])) return Out(NANL); if (!(a[0] > a[1])) return Out(0); return Out(f ? (L)(float)((double)a[0] - (double)a[1]) : (L)((double)a[0] - (double)a[1])); });
  F1("floor", 0, floorl);
  FX("fma", "vvv", 0, 0, [](const L* a, bool f) { return Out(f ? (L)fmaf(a[0], a[1], a[2]) : (L)fma((double)a[0], (double)a[1], (double)a[2])); });
  FX("mad", "vvv", 0, 4, [](const L* a, bool f) { L p = a[0] * a[1], r = f ? (L)fmaf(a[0], a[1], a[2]) : (L)fma((double)a[0], (double)a[1], (double)a[2]); if (isnan(r) || isinf(r) || fabsl(p) > maxT(f) / 2 || fabsl(p) < minSub(f) * 0x1p60L) return Out::skip(); Out o(r); o.tol = 4 * ulpT(fmaxl(fabsl(p), fabsl(a[2])), f); return o; });
  for (const char* s : {"vv", "vs"}) { FX("fmax", s, 0, 0, [](const L* a, bool) { return Out(fmaxl(a[0], a[1])).any(); }); FX("fmin", s, 0, 0, [](const L* a, bool) { return Out(fminl(a[0], a[1])).any(); }); }
  F2("fmod", 0, fmodl);
  FX("fract", "v", 'P', 0, [](const L* a, bool f) { L x = a[0]; if (isnan(x)) return Out(NANL).E(NANL); if (isinf(x)) return Out(0.0L).E(x); L fl = floorl(x), r = rndT(x - fl, f), lim = f ? (L)nextafterf(1, 0) : (L)nextafter(1.0, 0.0); if (r > lim) r = lim; if (x == 0) r = x; return Out(r).E(fl); });
  FX("frexp", "v", 'I', 0, [](const L* a, bool) { if (isnan(a[0])) return Out(NANL).EI(0); if (isinf(a[0])) return Out(a[0]).EI(0); int e; L r = frexpl(a[0], &e); return Out(r).EI(e); });
  F2("hypot", 4, hypotl);
  FX("ilogb", "v", 0, 0, [](const L* a, bool) { L x = a[0]; if (isnan(x) || isinf(x)) return Out((L)INT_MAX); if (x == 0) return Out((L)INT_MIN); return Out((L)ilogbl(x)); }, false, 'i');
  for (const char* s : {"vi", "vk"}) FX("ldexp", s, 0, 0, [](const L* a, bool f) { return Out(f ? (L)(float)ldexp((double)a[0], (int)a[1]) : (L)ldexp((double)a[0], (int)a[1])); });
  FX("lgamma", "v", 0, 64, [](const L* a, bool f) { L x = a[0]; if (x == 0 || negint(x)) return Out(INFL); L r = lgammal(x); Out o(r); if (fabsl(r) < 1) o.tol = 1e-4L; o.zsign = false; return o; });
  FX("lgamma_r", "v", 'I', 64, [](const L* a, bool f) { L x = a[0]; if (x == 0 || negint(x)) return Out(INFL).EI(0); if (isnan(x)) return Out(NANL); if (isinf(x)) return Out(INFL); int s; L r = lgammal_r(x, &s); Out o(r); if (fabsl(r) < 1) o.tol = 1e-4L; o.zsign = false; return o.EI(s); });
  F1("log", 3, logl); F1("log2", 3, log2l); F1("log10", 3, log10l); F1("log1p", 2, log1pl); F1("logb", 0, logbl);
  FX("maxmag", "vv", 0, 0, [](const L* a, bool) { L x = fabsl(a[0]), y = fabsl(a[1]); return Out(x > y ? a[0] : y > x ? a[1] : fmaxl(a[0], a[1])).any(); });
  FX("minmag", "vv", 0, 0, [](const L* a, bool) { L x = fabsl(a[0]), y = fabsl(a[1]); return Out(x < y ? a[0] : y < x ? a[1] : fminl(a[0], a[1])).any(); });
  FX("modf", "v", 'P', 0, [](const L* a, bool) { L x = a[0]; if (isnan(x)) return Out(NANL).E(NANL); if (isinf(x)) return Out(copysignl(0, x)).E(x); L t = truncl(x); return Out(copysignl(x - t, x)).E(t); });
  FX("nan", "u", 0, 0, [](const L*, bool) { return Out(NANL); });
  FX("nextafter", "vv", 0, 0, [](const L* a, bool f) { return Out(f ? (L)nextafterf(a[0], a[1]) : (L)nextafter((double)a[0], (double)a[1])); });
  F2("pow", 16, powl); FX("pown", "vi", 0, 16, [](const L* a, bool) { return Out(powl(a[0], a[1])); }); F2("powr", 16, powrl_);
  F2("remainder", 0, remainderl);
  FX("remquo", "vv", 'I', 0, [](const L* a, bool) { L x = a[0], y = a[1]; if (isnan(x) || isnan(y) || isinf(x) || y == 0) return Out(NANL).EI(0); L r = remainderl(x, y); if (r == 0) r = copysignl(0, x);
    // low seven bits of the quotient, computed from the exactly reduced dividend
    int64_t q = 0; if (!isinf(y)) { L m = fabsl(y), x2 = fabsl(x); L big = m * 128; if (isinf(big)) big = x2 * 4; L t = fmodl(x2, big); L rr = remainderl(x2, y); L qq = (t - rr) / m; q = (int64_t)nearbyintl(qq) & 127; }
    Out o(r); o.EI(signbit(x) != signbit(y) ? -q : q); o.ei7 = true; return o; });
  F1("rint", 0, rintl); FX("rootn", "vi", 0, 16, [](const L* a, bool) { return Out(rootnl_(a[0], (int)a[1])); }); F1("round", 0, roundl); F1("rsqrt", 2, [](L x) { return x == 0 ? copysignl(INFL, x) : 1 / sqrtl(x); });
  F1("sin", 4, sinl); F1("sinh", 4, sinhl); F1("sinpi", 4, sinpil_); FX("sincos", "v", 'P', 4, [](const L* a, bool) { return Out(sinl(a[0])).E(cosl(a[0])); });
  F1("sqrt", 3, sqrtl); F1("tan", 5, tanl); F1("tanh", 5, tanhl); F1("tanpi", 6, tanpil_);
  FX("tgamma", "v", 0, 16, [](const L* a, bool) { L x = a[0]; if (negint(x)) return Out(NANL); if (x == 0) return Out(copysignl(INFL, x)); Out o(tgammal(x)); if (o.v == 0) o.zsign = false; return o; });
  F1("trunc", 0, truncl);
  // common functions
  auto bad = [](L x) { return isnan(x) || isinf(x); };
  for (const char* s : {"vvv", "vss"}) FX("clamp", s, 0, 0, [=](const L* a, bool) { if (isnan(a[0]) || isnan(a[1]) || isnan(a[2]) || a[1] > a[2]) return Out::skip(); return Out(a[0] < a[1] ? a[1] : a[0] > a[2] ? a[2] : a[0]).any(); });
  F1("degrees", 2, [](L x) { return x * (180 / PI); }); F1("radians", 2, [](L x) { return x * (PI / 180); });
  for (const char* s : {"vv", "vs"})
  {
    FX("max", s, 0, 0, [=](const L* a, bool) { if (bad(a[0]) || bad(a[1])) return Out::skip(); return Out(a[0] < a[1] ? a[1] : a[0]).any(); });
    FX("min", s, 0, 0, [=](const L* a, bool) { if (bad(a[0]) || bad(a[1])) return Out::skip(); return Out(a[1] < a[0] ? a[1] : a[0]).any(); });
  }
  for (const char* s : {"vvv", "vvs"}) FX("mix", s, 0, 4, [=](const L* a, bool f) { L x = a[0], y = a[1], t = a[2]; if (bad(x) || bad(y) || !(t >= 0 && t <= 1) || fabsl(x) > maxT(f) / 4 || fabsl(y) > maxT(f) / 4) return Out::skip(); Out o(x + (y - x) * t); o.any(); o.tol = 4 * ulpT(fmaxl(fabsl(x), fabsl(y)), f); return o; });
  for (const char* s : {"vv", "sv"}) FX("step", s, 0, 0, [](const L* a, bool) { return Out(a[1] < a[0] ? 0 : 1); });
  for (const char* s : {"vvv", "ssv"}) FX("smoothstep", s, 0, 16, [=](const L* a, bool f) { if (bad(a[0]) || bad(a[1]) || bad(a[2]) || a[0] >= a[1]) return Out::skip(); for (int k = 0; k < 3; k++) if (fabsl(a[k]) > maxT(f) / 8) return Out::skip(); L t = (a[2] - a[0]) / (a[1] - a[0]); t = t < 0 ? 0 : t > 1 ? 1 : t; Out o(t * t * (3 - 2 * t)); o.any(); o.tol = 32 * ulpT(1, f); return o; });
  F1("sign", 0, [](L x) { return isnan(x) ? 0.0L : x > 0 ? 1.0L : x < 0 ? -1.0L : x; });
  // reduced precision variants
  FH("cos", "v", 0, 0x1p16L, [](const L* a) { return cosl(a[0]); }); FH("sin", "v", 0x1p-60L, 0x1p16L, [](const L* a) { return sinl(a[0]); }); FH("tan", "v", 0x1p-60L, 0x1p16L, [](const L* a) { return tanl(a[0]); });
  FH("divide", "vv", 0x1p-60L, 0x1p60L, [](const L* a) { return a[0] / a[1]; }); FH("exp", "v", 0, 80, [](const L* a) { return expl(a[0]); }); FH("exp2", "v", 0, 120, [](const L* a) { return exp2l(a[0]); }); FH("exp10", "v", 0, 36, [](const L* a) { return exp10l(a[0]); });
  FH("log", "v", 0x1p-120L, 0x1p120L, [](const L* a) { return a[0] > 0 ? logl(a[0]) : NANL; }); FH("log2", "v", 0x1p-120L, 0x1p120L, [](const L* a) { return a[0] > 0 ? log2l(a[0]) : NANL; }); FH("log10", "v", 0x1p-120L, 0x1p120L, [](const L* a) { return a[0] > 0 ? log10l(a[0]) : NANL; });
  FH("powr", "vv", 0x1p-120L, 0x1p120L, [](const L* a) { return a[0] > 0 ? powl(a[0], a[1]) : NANL; }); FH("recip", "v", 0x1p-60L, 0x1p60L, [](const L* a) { return 1 / a[0]; }); FH("rsqrt", "v", 0x1p-60L, 0x1p60L, [](const L* a) { return a[0] > 0 ? 1 / sqrtl(a[0]) : NANL; }); FH("sqrt", "v", 0x1p-60L, 0x1p60L, [](const L* a) { return a[0] > 0 ? sqrtl(a[0]) : NANL; });
}
// ---- operand lattices
static vector<L> lattice(bool f, int level) // 0 tiny, 1 small, 2 medium, 3 large
{
  std::set<L> pos; L mx = maxT(f), mn = f ? (L)FLT_MIN : (L)DBL_MIN, ms = minSub(f), ep = f ? 0x1p-23L : 0x1p-52L;
  for (L x : {1.0L, 0.5L, 2.0L, 3.0L, 0.75L}) pos.insert(x);
  pos.insert(mx); pos.insert(ms); pos.insert(mn);
  if (level >= 1) { for (L x : {1.5L, 2.5L, 4.0L, 7.0L, 1 + ep, 1 - ep / 2, 100.0L, (f ? 0x1p23L : 0x1p52L) + 1, mn - ms}) pos.insert(x); pos.insert(rndT(0.1L, f)); pos.insert(rndT(PI, f)); }
  if (level >= 2)
  {
    for (L x : {0.25L, 3.5L, 4.5L, 5.0L, 6.0L, 8.0L, 10.0L, 16.0L, 17.0L, 20.5L, 33.0L, 34.0L, 35.0L, 35.5L, 90.0L, 127.0L, 128.0L, 129.0L, 150.0L, 171.0L, 172.0L, 180.0L, 255.5L, 1000.0L, 1023.0L, 1024.0L, 1e6L, (f ? 0x1p22L : 0x1p51L) + 0.5L, f ? 0x1p24L : 0x1p53L, 0x1p31L, mx / 2, mn * 2, ms * 3}) pos.insert(rndT(x, f));
    for (L x : {PI / 2, PI / 4, PI * 3 / 4, 2 * PI, 1e-3L, 1e-7L, 1e-10L, 1e-30L, 1e30L, 88.7L, 88.8L, 103.9L, 104.0L, 709.7L, 709.8L, 745.2L, 38.5L, 308.3L, 323.4L, 0.9999L, 1.0001L, 12345.678L, 26.5L, 9.2L, 1.4616321L}) pos.insert(rndT(x, f));
  }
  if (level >= 3) { int lo = f ? -149 : -1074, hi = f ? 127 : 1023, st = f || R->thorough ? 1 : 4; for (int e = lo; e <= hi; e += st) for (L m : R->thorough ? vector<L>{1, 1.0625L, 1.25L, 1.3333333L, 1.5L, 1.7L, 1.9999999L} : vector<L>{1, 1.3333333L, 1.9999999L}) pos.insert(rndT(ldexpl(m, e), f)); for (int k = 1; k < 64; k++) { pos.insert(k); pos.insert(k + 0.5L); pos.insert(rndT(k * 0.0173L, f)); } }
  vector<L> r; for (L x : pos) if (!isinf(rndT(x, f)) && x != 0) { r.push_back(x); r.push_back(-x); }
  r.push_back(0.0L); r.push_back(-0.0L); r.push_back(INFL); r.push_back(-INFL); r.push_back(NANL); return r;
}
static vector<L> ints(int level) { vector<L> r = {0, 1, -1, 2, -2, 3, -3, 31, -150, (L)INT_MAX, (L)INT_MIN}; if (level > 1) for (L x : {4.0L, 5.0L, -4.0L, 7.0L, 16.0L, 127.0L, 128.0L, -126.0L, -149.0L, 276.0L, -300.0L, 1023.0L, 1024.0L, -1022.0L, -1074.0L, -1075.0L, 2100.0L, -2100.0L}) r.push_back(x); return r; }
typedef vector<vector<L>> Tuples;
static Tuples tuples(const Fn& fn, int w, bool f)
{
  int n = fn.sig.size(), lv; bool T = R->thorough;
  lv = n == 1 ? (w == 1 || T ? 3 : 2) : n == 2 ? (w == 1 || T ? 2 : 1) : (T ? 1 : 0);
  if (n == 2 && w == 1 && !T) lv = 2;
  Tuples r(1);
  for (int a = 0; a < n; a++)
  {
    char c = fn.sig[a]; vector<L> vals = c == 'i' || c == 'k' ? ints(lv + 1) : c == 'u' ? vector<L>{0, 1, 12345} : lattice(f, lv); Tuples nx;
    for (auto& t : r) for (L v : vals) { auto u = t; u.push_back(v); nx.push_back(u); }
    r.swap(nx);
  }
  if (n == 1 && w == 1 && f && fn.sig == "v") // every combination of sign, exponent and leading mantissa bits
    for (uint32_t hi = 0; hi < 65536; hi += T ? 1 : 8) { uint32_t u = hi << 16 | (hi & 0x48 ? 0x5a5a : 0); float x; memcpy(&x, &u, 4); r.push_back({(L)x}); }
  return r;
}
static int slots(int w) { return w == 3 ? 4 : w; }
static string vt(const string& t, int w) { return w == 1 ? t : t + std::to_string(w); }
static const char* PS[] = {"global", "local", "private"};
struct Inst { const Fn* f; int w; int ps; string kn; };
static string tyOf(char c, bool f) { return c == 'i' || c == 'k' || c == 'I' ? "int" : c == 'u' ? (f ? "uint" : "ulong") : f ? "float" : "double"; }
static string kernelSrc(const Inst& I, bool f)
{
  const Fn& fn = *I.f; string s = "kernel void " + I.kn + "(", body, args; int n = fn.sig.size();
  for (int a = 0; a < n; a++)
  {
    char c = fn.sig[a]; bool sc = c == 's' || c == 'k'; string t = vt(tyOf(c, f), sc ? 1 : I.w);
    s += "global const " + t + " *a" + std::to_string(a) + ", "; args += (a ? ", a" : "a") + std::to_string(a) + "[i]";
  }
  string rt = vt(tyOf(fn.ret, f), I.w); s += "global " + rt + " *o";
  if (fn.ptr)
  {
    string pt = vt(tyOf(fn.ptr, f), I.w); s += ", global " + pt + " *p) { size_t i = get_global_id(0); ";
    if (I.ps == 0) s += "o[i] = " + fn.name + "(" + args + ", p + i); }\n";
    else s += string(I.ps == 1 ? "local " : "") + pt + " q[3]; q[0] = (" + pt + ")(7); q[2] = (" + pt + ")(7); o[i] = " + fn.name + "(" + args + ", &q[1]); p[i] = q[1]; }\n";
  }
  else s += ") { size_t i = get_global_id(0); o[i] = " + fn.name + "(" + args + "); }\n";
  return s;
}
static size_t esz(char c, bool f) { return c == 'i' || c == 'k' || c == 'I' ? 4 : f ? 4 : 8; }
static void put(uint8_t* p, char c, bool f, L v) { if (c == 'i' || c == 'k') { int32_t x = (int32_t)v; memcpy(p, &x, 4); } else if (c == 'u') { uint64_t x = (uint64_t)v; memcpy(p, &x, f ? 4 : 8); } else if (f) { float x = v; memcpy(p, &x, 4); } else { double x = v; memcpy(p, &x, 8); } }
static L getL(const uint8_t* p, char c, bool f) { if (c == 'i' || c == 'I') { int32_t x; memcpy(&x, p, 4); return x; } if (f) { float x; memcpy(&x, p, 4); return x; } double x; memcpy(&x, p, 8); return x; }
static void runInst(cl_program p, const Inst& I, bool f)
{
  const Fn& fn = *I.f; int w = I.w, n = fn.sig.size(); Tuples T = tuples(fn, w, f); size_t N = T.size(), S = slots(w);
  // lane l of work-item i evaluates tuple (i + 7 l) mod N: each tuple reaches each lane
  auto tup = [&](size_t i, int l) -> const vector<L>& { return T[(i + 7 * (size_t)l) % N]; };
  cl_kernel k = cl->kernel(p, I.kn); vector<cl_mem> bm;
  for (int a = 0; a < n; a++)
  {
    char c = fn.sig[a]; bool sc = c == 's' || c == 'k'; size_t es = esz(c, f); vector<uint8_t> d(N * (sc ? 1 : S) * es, 0x3c);
    for (size_t i = 0; i < N; i++) for (int l = 0; l < (sc ? 1 : w); l++) put(&d[(i * (sc ? 1 : S) + l) * es], c, f, tup(i, l)[a]);
    bm.push_back(cl->buf(d.size(), d.data())); cl->arg(k, a, bm.back());
  }
  size_t re = esz(fn.ret, f), pe = fn.ptr ? esz(fn.ptr, f) : 0; vector<uint8_t> o(N * S * re, 0x5b), q(N * S * pe, 0x5b);
  cl_mem ob = cl->buf(o.size(), o.data()), pb = 0; cl->arg(k, n, ob); if (fn.ptr) { pb = cl->buf(q.size(), q.data()); cl->arg(k, n + 1, pb); }
  cap->clear(); CK(cl->launch1(k, N, 1)); string log = cap->get(); if (!log.empty()) R->fail("report:" + fn.name, R->curCase + " " + I.kn + " reported: " + log.substr(0, 300));
  cl->read(ob, o.data(), o.size()); if (pb) cl->read(pb, q.data(), q.size()); R->count("traces_validated_against_impl");
  long bad = 0;
  for (size_t i = 0; i < N; i++) for (int l = 0; l < w; l++)
  {
    vector<L> a = tup(i, l); for (int x = 0; x < n; x++) if (fn.sig[x] == 's' || fn.sig[x] == 'k') a[x] = tup(i, 0)[x];
    Out e = fn.ref(a.data(), f); R->count("transitions"); if (!e.judged) continue;
    L got = getL(&o[(i * S + l) * re], fn.ret, f); string as; for (int x = 0; x < n; x++) as += (x ? ", " : "") + sl(a[x]);
    if (!(fn.ret == 'i' ? got == e.v : same(got, e, fn.ulp, f)) && bad++ < 3) R->fail("value:" + fn.name + ":" + fn.sig, R->curCase + " " + vt(f ? "float" : "double", w) + " " + fn.name + "(" + as + ") lane " + std::to_string(l) + " gives " + sl(got) + ", expected " + sl(e.v));
    if (!e.ejudged) continue;
    L ge = getL(&q[(i * S + l) * pe], fn.ptr, f); bool ok;
    if (!e.eint) { Out eo(e.e); ok = same(ge, eo, fn.ulp, f); }
    else if (e.ei7) { int64_t g = (int64_t)ge; ok = (g < 0 ? -1 : 1) * (int64_t)((g < 0 ? -g : g) & 127) == e.ei; }
    else ok = (int64_t)ge == e.ei;
    if (!ok && bad++ < 3) R->fail("out:" + fn.name, R->curCase + " " + vt(f ? "float" : "double", w) + " " + fn.name + "(" + as + ") stores " + sl(ge) + " through the " + PS[I.ps] + " pointer (lane " + std::to_string(l) + "), expected " + (e.eint ? std::to_string(e.ei) : sl(e.e)));
  }
  for (cl_mem m : bm) clReleaseMemObject(m); clReleaseMemObject(ob); if (pb) clReleaseMemObject(pb); clReleaseKernel(k);
}
// ---- geometric functions
static const char* PRE[] = {"", "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n"};
static void geometric(bool f)
{
  string t = f ? "float" : "double", src = PRE[!f]; struct G { string n; int args, w; bool vec; }; vector<G> gs;
  for (int w : {1, 2, 3, 4}) { gs.push_back({"dot", 2, w, false}); for (string p : {"", "fast_"}) { if (!f && p.size()) continue; gs.push_back({p + "distance", 2, w, false}); gs.push_back({p + "length", 1, w, false}); gs.push_back({p + "normalize", 1, w, true}); } if (w > 2) gs.push_back({"cross", 2, w, true}); }
  for (auto& g : gs) { string v = vt(t, g.w), rt = g.vec ? v : t; src += "kernel void " + g.n + "_" + std::to_string(g.w) + "(global const " + v + " *a, global const " + v + " *b, global " + rt + " *o) { size_t i = get_global_id(0); o[i] = " + g.n + "(a[i]" + (g.args == 2 ? ", b[i]" : "") + "); }\n"; }
  cl_program p = cl->build(src);
  L big = f ? 0x1p120L : 0x1p1000L, small = f ? 0x1p-130L : 0x1p-1040L; vector<L> el = {0, 1, -2, 3, 0.5L, -0.75L, rndT(0.1L, f), 100, big, -big * 2, small, -small * 3, INFL, -INFL, NANL, -0.0L, rndT(0.1L, f) * (f ? 0x1p-70L : 0x1p-527L)};
  for (auto& g : gs)
  {
    // all tuples of elements: exhaustive up to a size limit, then the lattice shrinks
    vector<vector<L>> tu; int dims = g.w * g.args; size_t lim = R->thorough ? 300000 : 40000; vector<L> e = el; if (g.args == 2) { e.erase(std::remove_if(e.begin(), e.end(), [](L x) { return isnan(x) || isinf(x); }), e.end()); }
    auto total = [&]() { double x = 1; for (int i = 0; i < dims; i++) x *= e.size(); return x; }; while (total() > lim && e.size() > 2) e.erase(e.begin() + (e.size() > 9 ? 6 : e.size() / 2));
    vector<size_t> ix(dims, 0); for (;;) { vector<L> v; for (int i = 0; i < dims; i++) v.push_back(e[ix[i]]); tu.push_back(v); int d = 0; while (d < dims && ++ix[d] == e.size()) ix[d++] = 0; if (d == dims) break; }
    size_t N = tu.size(), S = slots(g.w), es = f ? 4 : 8, OS = g.vec ? S : 1; vector<uint8_t> A(N * S * es), B(N * S * es), O(N * OS * es, 0x5b);
    for (size_t i = 0; i < N; i++) for (int l = 0; l < g.w; l++) { put(&A[(i * S + l) * es], 'v', f, tu[i][l]); put(&B[(i * S + l) * es], 'v', f, g.args == 2 ? tu[i][g.w + l] : 0); }
    cl_kernel k = cl->kernel(p, g.n + "_" + std::to_string(g.w)); cl_mem a = cl->buf(A.size(), A.data()), b = cl->buf(B.size(), B.data()), o = cl->buf(O.size(), O.data()); cl->arg(k, 0, a); cl->arg(k, 1, b); cl->arg(k, 2, o);
    cap->clear(); CK(cl->launch1(k, N, 1)); string log = cap->get(); if (!log.empty()) R->fail("report:" + g.n, R->curCase + " " + g.n + " reported: " + log.substr(0, 300)); cl->read(o, O.data(), O.size()); R->count("traces_validated_against_impl");
    bool fast = g.n[0] == 'f'; string n = fast ? g.n.substr(5) : g.n; L ul = fast ? 8192 : 16;
    for (size_t i = 0; i < N; i++)
    {
      vector<L>& v = tu[i]; R->count("transitions"); vector<Out> e; bool inf = false, nan = false; L mx = 0; for (L x : v) { inf |= isinf(x); nan |= isnan(x); if (fabsl(x) > mx && !isinf(x)) mx = fabsl(x); }
      if (n == "dot") { L s = 0, m = 0; for (int l = 0; l < g.w; l++) { s += v[l] * v[g.w + l]; m += fabsl(v[l] * v[g.w + l]); } Out x(s); x.any(); x.tol = 8 * ulpT(m, f); if (m > maxT(f) / 4) x.judged = false; e.push_back(x); }
      else if (n == "distance" || n == "length") { L s = 0; bool ov = false; for (int l = 0; l < g.w; l++) { L d = n == "length" ? v[l] : v[l] - v[g.w + l]; if (fabsl(d) > maxT(f) && !isinf(d)) ov = true; s = isinf(d) ? INFL : hypotl(s, d); } Out x(s); if ((nan && inf) || ov || (fast && (s > sqrtl(maxT(f)) || s < sqrtl(f ? FLT_MIN : DBL_MIN)))) x.judged = false; if (nan && !inf) x.v = NANL; e.push_back(x); }
      else if (n == "normalize") { vector<L> u = v; if (nan) for (auto& x : u) x = NANL; else if (inf) for (auto& x : u) x = isinf(x) ? copysignl(1, x) : copysignl(0, x); L s = 0; for (L x : u) s = hypotl(s, x); for (L x : u) { Out y(s == 0 ? x : x / s); y.any(); if (fast && (s > sqrtl(maxT(f)) || s < sqrtl(f ? FLT_MIN : DBL_MIN) || inf || nan) && s != 0) y.judged = false; e.push_back(y); } }
      else { for (int l = 0; l < g.w; l++) { if (l == 3) { e.push_back(Out(0).any()); continue; } int x = (l + 1) % 3, y = (l + 2) % 3; L p1 = v[x] * v[g.w + y], p2 = v[y] * v[g.w + x]; Out c(p1 - p2); c.any(); c.tol = 4 * ulpT(fmaxl(fabsl(p1), fabsl(p2)), f); if (fmaxl(fabsl(p1), fabsl(p2)) > maxT(f) / 4) c.judged = false; e.push_back(c); } }
      for (size_t l = 0; l < e.size(); l++) { L got = getL(&O[(i * OS + l) * es], 'v', f); if (!same(got, e[l], ul, f)) { string as; for (L x : v) as += " " + sl(x); R->fail("geometric:" + g.n, R->curCase + " " + g.n + std::to_string(g.w) + "(" + as + ") component " + std::to_string(l) + " gives " + sl(got) + ", expected " + sl(e[l].v)); } }
    }
    clReleaseMemObject(a); clReleaseMemObject(b); clReleaseMemObject(o); clReleaseKernel(k);
  }
  clReleaseProgram(p);
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1], "1"); table(); Capture c(2); cap = &c; CL C; cl = &C;
  for (int f = 1; f >= 0; f--)
  {
    vector<const Fn*> fs; for (auto& x : FN) if (f || !x.fonly) fs.push_back(&x);
    const size_t G = 8;
    for (size_t b = 0; b < fs.size(); b += G)
    {
      string id = fmt("%s/%s..", f ? "float" : "double", fs[b]->name.c_str()) + fs[b]->sig; if (!R->begin(id)) continue;
      vector<Inst> is; string src = PRE[!f];
      for (size_t j = b; j < std::min(b + G, fs.size()); j++) for (int w : WID)
      {
        const Fn& fn = *fs[j]; bool mixed = fn.sig.find('s') != string::npos || fn.sig.find('k') != string::npos; if (mixed && w == 1) continue;
        for (int ps = 0; ps < (fn.ptr ? 3 : 1); ps++) { Inst I{&fn, w, ps, "k" + std::to_string(is.size())}; src += kernelSrc(I, f); is.push_back(I); }
      }
      cl_program p = C.build(src); for (auto& I : is) { R->tick(); runInst(p, I, f); } clReleaseProgram(p);
      R->sample(id + ": " + std::to_string(is.size()) + " overloads");
    }
    if (R->begin(f ? "float/geometric" : "double/geometric")) geometric(f);
  }
}
VF_MAIN(body)
