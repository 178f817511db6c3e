// C10: integer, relational, conversion and data-movement builtins against reference semantics for every overload and width.
#include "vf.hpp"
#include <cfenv>
#include <cmath>
using namespace vf;
typedef __int128 I; typedef unsigned __int128 U;
static CL* cl; static Capture* cap;
struct Ty { const char* n; int bits; bool sg; bool fp; };
static const Ty TY[] = {{"char", 8, true, false}, {"uchar", 8, false, false}, {"short", 16, true, false}, {"ushort", 16, false, false}, {"int", 32, true, false}, {"uint", 32, false, false}, {"long", 64, true, false}, {"ulong", 64, false, false}, {"float", 32, true, true}, {"double", 64, true, true}};
static const int WID[] = {1, 2, 3, 4, 8, 16};
static string vt(const Ty& t, int w) { return w == 1 ? string(t.n) : fmt("%s%d", t.n, w); }
static int slots(int w) { return w == 3 ? 4 : w; }
static uint64_t mask(int bits) { return bits == 64 ? ~0ull : (1ull << bits) - 1; }
static I val(const Ty& t, uint64_t raw) { raw &= mask(t.bits); if (t.sg && (raw >> (t.bits - 1))) return (I)(int64_t)(raw | ~mask(t.bits)); return (I)raw; }
static I tmin(const Ty& t) { return t.sg ? -((I)1 << (t.bits - 1)) : 0; }
static I tmax(const Ty& t) { return ((I)1 << (t.bits - (t.sg ? 1 : 0))) - 1; }
static I sat(const Ty& t, I v) { return v < tmin(t) ? tmin(t) : v > tmax(t) ? tmax(t) : v; }
static vector<uint64_t> bound(const Ty& t, bool big)
{
  std::set<uint64_t> s; int n = t.bits; uint64_t m = mask(n);
  for (int64_t d : {-3, -2, -1, 0, 1, 2, 3}) { s.insert(d & m); if (big || (d >= -1 && d <= 1)) { s.insert(((1ull << (n - 1)) + d) & m); s.insert(((1ull << (n / 2)) + d) & m); } }
  for (uint64_t d : {5ull, 7ull, (unsigned long long)n, (unsigned long long)n + 1, (unsigned long long)n - 1}) s.insert(d & m);
  s.insert(0x5555555555555555ull & m); s.insert(0xAAAAAAAAAAAAAAAAull & m); s.insert((m >> (n / 2)) / 2 + 1); s.insert(0xB504F334FADEDEADull >> (64 - n)); 
  if (big) for (int k = 1; k < n; k += 3) { s.insert(1ull << k); s.insert((0 - (1ull << k)) & m); }
  return vector<uint64_t>(s.begin(), s.end());
}
// packs lanes of `bits` wide values into vector slots
struct Pack { int bits, w; vector<uint8_t> d; size_t n; Pack(int b, int w_, size_t n_) : bits(b), w(w_), d(n_ * slots(w_) * (b / 8), 0), n(n_) {} uint8_t* at(size_t lane) { return &d[((lane / w) * slots(w) + lane % w) * (bits / 8)]; } void set(size_t lane, uint64_t v) { memcpy(at(lane), &v, bits / 8); } uint64_t get(size_t lane) { uint64_t v = 0; memcpy(&v, at(lane), bits / 8); return v; } };
struct Op
{
  string name, expr; int nargs; Ty rt; Ty at[3]; // argument element types
  std::function<bool(const uint64_t*, uint64_t&)> ref; // false: not judged
  bool scal[3]; // argument passed as a scalar (element 0 of the vector)
};
static string hx(uint64_t v) { return fmt("0x%llx", (unsigned long long)v); }
// runs `ops` at width w over the given operand tuples
static void runOps(const vector<Op>& ops, int w, const string& opts, const std::function<vector<vector<uint64_t>>(const Op&)>& domain, bool reduce = false)
{
  string src; for (auto& o : ops)
  {
    src += "kernel void k_" + o.name + "("; for (int a = 0; a < o.nargs; a++) src += "global const " + vt(o.at[a], w) + " *a" + std::to_string(a) + ", ";
    src += "global " + vt(o.rt, reduce ? 1 : w) + " *o) { size_t i = get_global_id(0); " ; for (int a = 0; a < o.nargs; a++) src += (o.scal[a] && w > 1 ? string(o.at[a].n) : vt(o.at[a], w)) + fmt(" x%d = a%d[i]", a, a) + (o.scal[a] && w > 1 ? ".s0" : "") + "; "; src += "o[i] = " + o.expr + "; }\n";
  }
  cl_program p = cl->build(src, opts);
  for (auto& o : ops)
  {
    cl_kernel k = cl->kernel(p, "k_" + o.name); vector<vector<uint64_t>> dom = domain(o); // tuples
    size_t lanes = dom.size(), nv = (lanes + w - 1) / w, tot = nv * w; vector<Pack> in; for (int a = 0; a < o.nargs; a++) in.emplace_back(o.at[a].bits, w, nv); Pack out(o.rt.bits, reduce ? 1 : w, nv); memset(out.d.data(), 0xC7, out.d.size());
    vector<cl_mem> bm; for (int a = 0; a < o.nargs; a++) { for (size_t l = 0; l < tot; l++) in[a].set(l, dom[l % lanes][a]); bm.push_back(cl->buf(in[a].d.size(), in[a].d.data())); cl->arg(k, a, bm.back()); }
    cl_mem ob = cl->buf(out.d.size(), out.d.data()); cl->arg(k, o.nargs, ob); cap->clear(); CK(cl->launch1(k, nv, 1)); string log = cap->get(); cl->read(ob, out.d.data(), out.d.size());
    if (!log.empty()) R->fail("report:" + o.name, R->curCase + " " + o.name + ": " + log.substr(0, 200)); R->count("traces_validated_against_impl");
    for (size_t l = 0; l < (reduce ? nv : tot); l++)
    {
      uint64_t args[3], want = 0; bool judged = true;
      if (!reduce) { for (int a = 0; a < o.nargs; a++) args[a] = in[a].get(o.scal[a] ? l / w * w : l); judged = o.ref(args, want); }
      else { vector<uint64_t> lv; for (int j = 0; j < w; j++) lv.push_back(in[0].get(l * w + j)); args[0] = lv[0]; uint64_t packed[17]; packed[0] = w; for (int j = 0; j < w; j++) packed[j + 1] = lv[j]; judged = o.ref(packed, want); }
      if (!judged) continue; R->count("transitions"); uint64_t got = out.get(l);
      bool same = got == (want & mask(o.rt.bits)); if (!same && o.rt.fp) { if (o.rt.bits == 32) { float x, y; uint32_t a = want, b = got; memcpy(&x, &a, 4); memcpy(&y, &b, 4); same = std::isnan(x) && std::isnan(y); } else { double x, y; memcpy(&x, &want, 8); memcpy(&y, &got, 8); same = std::isnan(x) && std::isnan(y); } }
      if (!same) { string as; for (int a = 0; a < (reduce ? 1 : o.nargs); a++) as += (a ? ", " : "") + hx(args[a]); R->fail("value:" + o.name + ":" + o.at[0].n, R->curCase + ": " + o.expr + " with (" + as + ") as " + o.at[0].n + " gives " + hx(got) + ", expected " + hx(want & mask(o.rt.bits))); break; }
    }
    for (cl_mem m : bm) { clReleaseMemObject(m); } clReleaseMemObject(ob); clReleaseKernel(k);
  }
  clReleaseProgram(p);
}
static Op mk(const string& n, const string& e, Ty rt, vector<Ty> at, std::function<bool(const uint64_t*, uint64_t&)> ref, vector<int> scal = {})
{
  Op o; o.name = n; o.expr = e; o.nargs = at.size(); o.rt = rt; for (size_t i = 0; i < at.size(); i++) { o.at[i] = at[i]; o.scal[i] = false; } for (int s : scal) o.scal[s] = true; o.ref = ref; return o;
}
static double fv(const Ty& t, uint64_t r) { if (t.bits == 32) { float f; uint32_t u = r; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &r, 8); return d; }
static uint64_t fr(const Ty& t, double d) { if (t.bits == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
static vector<uint64_t> fbound(const Ty& t, bool conv)
{
  std::set<uint64_t> s; int mant = t.bits == 32 ? 23 : 52; uint64_t sign = 1ull << (t.bits - 1), expm = mask(t.bits) & ~sign & ~mask(mant);
  for (uint64_t m : vector<uint64_t>{(uint64_t)0, (uint64_t)1, mask(mant), expm, expm | 1, expm | (1ull << (mant - 1)) | 5, expm - 1, mask(mant) + 1, mask(mant) + 2}) { s.insert(m); s.insert(m | sign); }
  for (double d : {0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.5, 3.5, 3.0, 100.0, 1e10, 1e30, 0.49999997}) { s.insert(fr(t, d)); s.insert(fr(t, -d)); }
  if (conv) for (int b : {7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63, 64}) for (double o : {-1.5, -1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 1.5}) for (int sgn : {1, -1}) s.insert(fr(t, sgn * (std::ldexp(1.0, b) + o)));
  if (conv) for (int b : {31, 32, 63, 64}) for (int sgn : {1, -1}) { uint64_t v = fr(t, sgn * std::ldexp(1.0, b)); s.insert(v - 1); s.insert(v + 1); }
  if (conv && t.bits == 64) for (double b : {1.0, 1024.0, 1.7e38, 1e-38, 1e-45, 3.4028234663852886e38}) for (double f : {1 + std::ldexp(1.0, -24), 1 + std::ldexp(3.0, -25), 1 + std::ldexp(1.0, -25), 1 + std::ldexp(1.0, -24) + std::ldexp(1.0, -52), 1 + std::ldexp(3.0, -24)}) { s.insert(fr(t, b * f)); s.insert(fr(t, -b * f)); }
  return vector<uint64_t>(s.begin(), s.end());
}
typedef const uint64_t* A;
static void integers()
{
  bool T = R->thorough;
  for (int ti = 0; ti < 8; ti++) for (int w : WID)
  {
    const Ty t = TY[ti], ut = TY[ti | 1], st = TY[ti & ~1]; if (!R->begin(fmt("int/%s/%d", t.n, w))) continue;
    vector<Op> ops; int n = t.bits;
    auto un = [&](string nm, Ty rt, std::function<I(I)> f) { ops.push_back(mk(nm, nm + "(x0)", rt, {t}, [=](A a, uint64_t& r) { r = (uint64_t)f(val(t, a[0])); return true; })); };
    auto bi = [&](string nm, Ty rt, std::function<I(I, I)> f) { ops.push_back(mk(nm, nm + "(x0, x1)", rt, {t, t}, [=](A a, uint64_t& r) { r = (uint64_t)f(val(t, a[0]), val(t, a[1])); return true; })); };
    auto tri = [&](string nm, std::function<I(I, I, I)> f) { ops.push_back(mk(nm, nm + "(x0, x1, x2)", t, {t, t, t}, [=](A a, uint64_t& r) { r = (uint64_t)f(val(t, a[0]), val(t, a[1]), val(t, a[2])); return true; })); };
    un("abs", ut, [](I a) { return a < 0 ? -a : a; });
    un("clz", t, [=](I a) { uint64_t u = (uint64_t)a & mask(n); int c = 0; for (int b = n - 1; b >= 0 && !(u >> b & 1); b--) c++; return (I)c; });
    un("popcount", t, [=](I a) { return (I)__builtin_popcountll((uint64_t)a & mask(n)); });
    bi("abs_diff", ut, [](I a, I b) { return a > b ? a - b : b - a; });
    bi("add_sat", t, [=](I a, I b) { return sat(t, a + b); }); bi("sub_sat", t, [=](I a, I b) { return sat(t, a - b); });
    bi("hadd", t, [](I a, I b) { return (a + b) >> 1; }); bi("rhadd", t, [](I a, I b) { return (a + b + 1) >> 1; });
    bi("max", t, [](I a, I b) { return a > b ? a : b; }); bi("min", t, [](I a, I b) { return a < b ? a : b; });
    bi("mul_hi", t, [=](I a, I b) { return t.sg || n < 64 ? (a * b) >> n : (I)(((U)a * (U)b) >> n); });
    bi("rotate", t, [=](I a, I b) { uint64_t v = (uint64_t)a & mask(n); int s = (int)((uint64_t)b & (n - 1)); return (I)(s ? ((v << s) | (v >> (n - s))) : v); });
    tri("mad_hi", [=](I a, I b, I c) { return (t.sg || n < 64 ? (a * b) >> n : (I)(((U)a * (U)b) >> n)) + c; });
    ops.push_back(mk("mad_sat", "mad_sat(x0, x1, x2)", t, {t, t, t}, [=](A a, uint64_t& r) { I x = val(t, a[0]), y = val(t, a[1]), z = val(t, a[2]); if (!t.sg && n == 64) { U p = (U)x * (U)y; if (p > (U)tmax(t) || p + (U)z > (U)tmax(t)) r = ~0ull; else r = (uint64_t)(p + z); } else r = (uint64_t)sat(t, x * y + z); return true; }));
    ops.push_back(mk("clamp", "clamp(x0, x1, x2)", t, {t, t, t}, [=](A a, uint64_t& r) { I x = val(t, a[0]), lo = val(t, a[1]), hi = val(t, a[2]); if (lo > hi) return false; r = (uint64_t)(x < lo ? lo : x > hi ? hi : x); return true; }));
    tri("bitselect", [](I a, I b, I c) { return (a & ~c) | (b & c); });
    for (const Ty& ct : {st, ut}) ops.push_back(mk(string("select") + ct.n, "select(x0, x1, x2)", t, {t, t, ct}, [=](A a, uint64_t& r) { bool c = w == 1 ? (a[2] & mask(n)) != 0 : (a[2] >> (n - 1)) & 1; r = c ? a[1] : a[0]; return true; }));
    if (n == 32)
    {
      auto in24 = [=](I a) { return t.sg ? a >= -(1 << 23) && a < (1 << 23) : a < (1 << 24); };
      ops.push_back(mk("mul24", "mul24(x0, x1)", t, {t, t}, [=](A a, uint64_t& r) { I x = val(t, a[0]), y = val(t, a[1]); if (!in24(x) || !in24(y)) return false; r = (uint64_t)(x * y); return true; }));
      ops.push_back(mk("mad24", "mad24(x0, x1, x2)", t, {t, t, t}, [=](A a, uint64_t& r) { I x = val(t, a[0]), y = val(t, a[1]); if (!in24(x) || !in24(y)) return false; r = (uint64_t)(x * y + val(t, a[2])); return true; }));
    }
    if (n < 64) { Ty rt = TY[ti + 2]; ops.push_back(mk("upsample", "upsample(x0, x1)", rt, {t, ut}, [=](A a, uint64_t& r) { r = ((a[0] & mask(n)) << n) | (a[1] & mask(n)); return true; })); }
    if (w > 1)
    {
      ops.push_back(mk("max_s", "max(x0, x1)", t, {t, t}, [=](A a, uint64_t& r) { r = (uint64_t)std::max(val(t, a[0]), val(t, a[1])); return true; }, {1}));
      ops.push_back(mk("min_s", "min(x0, x1)", t, {t, t}, [=](A a, uint64_t& r) { r = (uint64_t)std::min(val(t, a[0]), val(t, a[1])); return true; }, {1}));
      ops.push_back(mk("clamp_s", "clamp(x0, x1, x2)", t, {t, t, t}, [=](A a, uint64_t& r) { I x = val(t, a[0]), lo = val(t, a[1]), hi = val(t, a[2]); if (lo > hi) return false; r = (uint64_t)(x < lo ? lo : x > hi ? hi : x); return true; }, {1, 2}));
    }
    runOps(ops, w, "-cl-std=CL1.2", [&](const Op& o) {
      vector<vector<uint64_t>> d;
      if (o.nargs <= 2 && n == 8 && (w == 16 || T)) { for (int x = 0; x < 256; x++) for (int y = 0; y < (o.nargs == 2 ? 256 : 1); y++) d.push_back({(uint64_t)x, (uint64_t)y}); if (w > 1 && o.nargs == 2) { vector<vector<uint64_t>> e; for (int r = 0; r < w; r++) for (size_t i = r; i < d.size(); i += w) e.push_back(d[i]); d = e; } }
      else if (o.nargs == 1 && n == 16) for (int x = 0; x < 65536; x += (w == 1 && !T) ? 7 : 1) d.push_back({(uint64_t)x});
      else
      {
        vector<uint64_t> b = bound(t, o.nargs == 2 || T);
        if (o.name == "mul24" || o.name == "mad24") { vector<uint64_t> e; for (uint64_t v : {0ull, 1ull, 2ull, 3ull, 0x7fffffull, 0x7ffffeull, 0x1000ull, 0x1001ull, 0xfffull, 0x555555ull}) { e.push_back(v); if (t.sg) e.push_back((0 - v) & mask(32)); } if (t.sg) e.push_back((uint32_t)-0x800000); else { e.push_back(0xffffff); e.push_back(0xaaaaaa); e.push_back(0x800000); } b = e; }
        vector<uint64_t> third = b; if (o.name.substr(0, 6) == "select") third = {0, 1, mask(n), 1ull << (n - 1), (1ull << (n - 1)) - 1, 2};
        for (uint64_t x : b) { if (o.nargs == 1) d.push_back({x}); else for (uint64_t y : b) { if (o.nargs == 2) d.push_back({x, y}); else for (uint64_t z : third) d.push_back({x, y, z}); } }
      }
      // one tuple per lane; scalar arguments are taken from the first lane of each vector
      return d;
    });
    // any / all
    if (t.sg)
    {
      vector<Op> ro; const Ty it = TY[4];
      ro.push_back(mk("any", "any(x0)", it, {t}, [=](A a, uint64_t& r) { r = 0; for (uint64_t j = 1; j <= a[0]; j++) if (a[j] >> (n - 1) & 1) r = 1; return true; }));
      ro.push_back(mk("all", "all(x0)", it, {t}, [=](A a, uint64_t& r) { r = 1; for (uint64_t j = 1; j <= a[0]; j++) if (!(a[j] >> (n - 1) & 1)) r = 0; return true; }));
      runOps(ro, w, "-cl-std=CL1.2", [&](const Op&) { vector<vector<uint64_t>> d; uint64_t hi = 1ull << (n - 1), no = hi - 1; for (int m = 0; m < (1 << std::min(w, 8)); m++) for (int inv = 0; inv < (w == 16 ? 4 : 1); inv++) for (int j = 0; j < w; j++) { bool on = j < 8 ? m >> j & 1 : (inv & 1) ? (m >> (j - 8) & 1) : (inv >> 1); d.push_back({on ? (j & 1 ? hi : mask(n)) : (j & 1 ? no : 0)}); } return d; }, true);
    }
  }
}
static void relational()
{
  for (int ti : {8, 9}) for (int w : WID)
  {
    const Ty t = TY[ti]; if (!R->begin(fmt("rel/%s/%d", t.n, w))) continue; const Ty it = TY[ti == 8 ? 4 : 6], ut = TY[ti == 8 ? 5 : 7], rt = w == 1 ? TY[4] : it;
    vector<Op> ops; uint64_t tv = w == 1 ? 1 : ~0ull;
    auto b2 = [&](string nm, std::function<bool(double, double)> f) { ops.push_back(mk(nm, nm + "(x0, x1)", rt, {t, t}, [=](A a, uint64_t& r) { r = f(fv(t, a[0]), fv(t, a[1])) ? tv : 0; return true; })); };
    auto b1 = [&](string nm, std::function<bool(uint64_t)> f) { ops.push_back(mk(nm, nm + "(x0)", rt, {t}, [=](A a, uint64_t& r) { r = f(a[0] & mask(t.bits)) ? tv : 0; return true; })); };
    int mant = t.bits == 32 ? 23 : 52; uint64_t em = mask(t.bits - 1) & ~mask(mant), mm = mask(mant);
    b2("isequal", [](double a, double b) { return a == b; }); b2("isnotequal", [](double a, double b) { return a != b; }); b2("isgreater", [](double a, double b) { return a > b; }); b2("isgreaterequal", [](double a, double b) { return a >= b; }); b2("isless", [](double a, double b) { return a < b; }); b2("islessequal", [](double a, double b) { return a <= b; }); b2("islessgreater", [](double a, double b) { return a < b || a > b; });
    b2("isordered", [](double a, double b) { return a == a && b == b; }); b2("isunordered", [](double a, double b) { return a != a || b != b; });
    b1("isfinite", [=](uint64_t x) { return (x & em) != em; }); b1("isinf", [=](uint64_t x) { return (x & em) == em && !(x & mm); }); b1("isnan", [=](uint64_t x) { return (x & em) == em && (x & mm); }); b1("isnormal", [=](uint64_t x) { return (x & em) != em && (x & em); }); b1("signbit", [=](uint64_t x) { return x >> (t.bits - 1) & 1; });
    for (const Ty& ct : {it, ut}) ops.push_back(mk(string("select") + ct.n, "select(x0, x1, x2)", t, {t, t, ct}, [=](A a, uint64_t& r) { bool c = w == 1 ? (a[2] & mask(t.bits)) != 0 : (a[2] >> (t.bits - 1)) & 1; r = c ? a[1] : a[0]; return true; }));
    ops.push_back(mk("bitselect", "bitselect(x0, x1, x2)", t, {t, t, t}, [=](A a, uint64_t& r) { r = (a[0] & ~a[2]) | (a[1] & a[2]); return true; }));
    runOps(ops, w, "-cl-std=CL1.2", [&](const Op& o) { vector<vector<uint64_t>> d; vector<uint64_t> b = fbound(t, false), c3 = b; if (o.name.substr(0, 6) == "select") c3 = {0, 1, mask(t.bits), 1ull << (t.bits - 1), (1ull << (t.bits - 1)) - 1, 2, 1ull << (t.bits / 2)}; else if (o.nargs == 3) { vector<uint64_t> e; for (size_t i = 0; i < b.size(); i += 2) e.push_back(b[i]); b = e; } for (uint64_t x : b) { if (o.nargs == 1) d.push_back({x}); else for (uint64_t y : b) { if (o.nargs == 2) d.push_back({x, y}); else for (uint64_t z : c3) d.push_back({x, y, z}); } } return d; });
  }
}
// exact integer to binary floating point with an explicit rounding mode: 0 rte 1 rtz 2 rtp 3 rtn
static uint64_t intToFp(const Ty& d, I v, int mode)
{
  if (v == 0) return 0; bool neg = v < 0; U m = neg ? (U)-v : (U)v; int mant = d.bits == 32 ? 23 : 52, bias = d.bits == 32 ? 127 : 1023; int top = 127; while (!(m >> top & 1)) top--;
  uint64_t frac; if (top <= mant) frac = (uint64_t)(m << (mant - top)); else { int sh = top - mant; U rem = m & (((U)1 << sh) - 1), half = (U)1 << (sh - 1); frac = (uint64_t)(m >> sh); bool up = mode == 0 ? rem > half || (rem == half && (frac & 1)) : mode == 1 ? false : mode == 2 ? (!neg && rem) : (neg && rem); if (up) { frac++; if (frac >> (mant + 1)) { frac >>= 1; top++; } } }
  return ((uint64_t)neg << (d.bits - 1)) | ((uint64_t)(top + bias) << mant) | (frac & mask(mant));
}
static const int FE[] = {FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD};
__attribute__((noinline)) static float narrow(double d, int mode) { volatile double x = d; int o = fegetround(); fesetround(FE[mode]); volatile float f = (float)x; fesetround(o); return f; }
__attribute__((noinline)) static double integral(double d, int mode) { volatile double x = d; int o = fegetround(); fesetround(FE[mode]); volatile double f = nearbyint(x); fesetround(o); return f; }
static const char* RM[] = {"_rte", "_rtz", "_rtp", "_rtn", ""};
static void conversions()
{
  bool T = R->thorough;
  for (int si = 0; si < 10; si++) for (int w : WID) for (int di = 0; di < 10; di++)
  {
    const Ty s = TY[si], d = TY[di]; if (!R->begin(fmt("convert/%s/%s/%d", s.n, d.n, w))) continue; vector<Op> ops;
    for (int sa = 0; sa < (d.fp ? 1 : 2); sa++) for (int rm = 0; rm < 5; rm++)
    {
      string f = "convert_" + vt(d, w) + (sa ? "_sat" : "") + RM[rm];
      ops.push_back(mk(fmt("c%d%s", sa, RM[rm]), f + "(x0)", d, {s}, [=](A a, uint64_t& r) -> bool {
        if (d.fp)
        {
          int m = rm == 4 ? 0 : rm; if (!s.fp) { r = intToFp(d, val(s, a[0]), m); return true; }
          double x = fv(s, a[0]); if (d.bits == 64) r = fr(d, x); else { float f = narrow(x, m); uint32_t u; memcpy(&u, &f, 4); r = u; } return true;
        }
        I v; int m = rm == 4 ? 1 : rm;
        if (s.fp) { double x = fv(s, a[0]); if (std::isnan(x)) { if (!sa) return false; r = 0; return true; } if (std::isinf(x) || std::fabs(x) > 1e25) { if (!sa) return false; r = (uint64_t)(x < 0 ? tmin(d) : tmax(d)); return true; } v = (I)integral(x, m); if (!sa && (v < tmin(d) || v > tmax(d))) return false; }
        else v = val(s, a[0]);
        r = (uint64_t)(sa ? sat(d, v) : v); return true; }));
    }
    runOps(ops, w, "-cl-std=CL1.2", [&](const Op&) { vector<vector<uint64_t>> t; vector<uint64_t> b; if (s.fp) b = fbound(s, true); else if (s.bits == 8 || (s.bits == 16 && (w == 16 && (T || di % 2 == 0)))) for (int x = 0; x < (1 << s.bits); x++) b.push_back(x); else { b = bound(s, true); for (int k = 20; k < s.bits; k++) for (uint64_t add : {0ull, 1ull, 1ull << (k > 23 ? k - 24 : 0), 3ull << (k > 23 ? k - 24 : 0), (1ull << (k > 23 ? k - 24 : 0)) + 1, (1ull << (k > 23 ? k - 24 : 0)) - 1, 1ull << (k > 52 ? k - 53 : 0), 3ull << (k > 52 ? k - 53 : 0)}) { b.push_back(((1ull << k) + add) & mask(s.bits)); b.push_back((0 - ((1ull << k) + add)) & mask(s.bits)); } } for (uint64_t x : b) t.push_back({x}); return t; });
  }
}
// a conversion with a rounding mode changes nothing but its own result: later floating-point operations of the work-item and of its thread round to nearest
static void roundingStays()
{
  vector<string> ex; vector<string> nm; auto add = [&](const string& n, const string& e) { nm.push_back(n); ex.push_back(e); };
  for (int si = 0; si < 10; si++) for (int di = 0; di < 10; di++) for (int sa = 0; sa < (TY[di].fp ? 1 : 2); sa++) for (int rm = 0; rm < 4; rm++) for (int w : {1, 2, 3}) { string f = "convert_" + vt(TY[di], w) + (sa ? "_sat" : "") + RM[rm]; add(f + "(" + vt(TY[si], w) + ")", fmt("{ volatile %s x = (%s)(in[0] / 16); volatile %s y = %s(x); }", vt(TY[si], w).c_str(), vt(TY[si], w).c_str(), vt(TY[di], w).c_str(), f.c_str())); }
  for (int a = 0; a < 2; a++) for (int rm = 0; rm < 5; rm++) for (int w : {1, 2, 3, 4}) for (const char* t : {"float", "double"}) { if (a && w == 1) continue; string n = w > 1 ? std::to_string(w) : ""; add(fmt("vstore%s_half%s%s(%s)", a ? "a" : "", n.c_str(), RM[rm], t), fmt("vstore%s_half%s%s((%s%s)(%s)in[0] / (%s)3, get_global_id(0), (global half*)h);", a ? "a" : "", n.c_str(), RM[rm], t, n.c_str(), t, t)); }
  const float fi[6] = {7, 3, -7, 3, 1, 10}; const double di_[6] = {7, 3, -7, 3, 1, 10}; volatile float fa = 7, fb = 3, fc = 1, fd = 10; volatile double da = 7, db = 3, dc = 1, dd = 10; const float ef[3] = {fa / fb, -fa / fb, fc / fd}; const double ed[3] = {da / db, -da / db, dc / dd};
  cl_mem in = cl->buf(24, fi), ind = cl->buf(48, di_), h = cl->buf(256), o = cl->buf(48), od = cl->buf(96);
  const size_t per = 60; for (size_t b = 0; b < ex.size(); b += per)
  {
    if (!R->begin(fmt("rounding/%zu", b / per))) continue; string src = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n"; size_t n = std::min(per, ex.size() - b);
    for (size_t i = 0; i < n; i++) src += fmt("kernel void k%zu(global const float *in, global const double *id, global half *h, global float *o, global double *p) { size_t g = get_global_id(0); %s for (int j = 0; j < 3; j++) { o[3*g+j] = in[2*j] / in[2*j+1]; p[3*g+j] = id[2*j] / id[2*j+1]; } }\n", i, ex[b + i].c_str());
    cl_program p = cl->build(src, "-cl-std=CL1.2");
    for (size_t i = 0; i < n; i++)
    {
      cl_kernel k = cl->kernel(p, fmt("k%zu", i)); cl->arg(k, 0, in); cl->arg(k, 1, ind); cl->arg(k, 2, h); cl->arg(k, 3, o); cl->arg(k, 4, od); CK(cl->launch1(k, 4, 1)); float f[12]; double d[12]; cl->read(o, f, 48); cl->read(od, d, 96); R->count("transitions", 4); R->count("traces_validated_against_impl");
      for (int j = 0; j < 12; j++) if (f[j] != ef[j % 3] || d[j] != ed[j % 3]) { R->fail("rounding-mode", R->curCase + ": after " + nm[b + i] + fmt(" a division gives %a / %a, expected %a / %a", f[j], d[j], ef[j % 3], ed[j % 3])); break; }
      if (fegetround() != FE_TONEAREST) { R->fail("rounding-mode-host", R->curCase + ": " + nm[b + i]); fesetround(FE_TONEAREST); } clReleaseKernel(k);
    }
    clReleaseProgram(p);
  }
  clReleaseMemObject(in); clReleaseMemObject(ind); clReleaseMemObject(h); clReleaseMemObject(o); clReleaseMemObject(od);
}
// reinterpretation: as_type for every pair of equally sized types
static void reinterpret()
{
  for (int si = 0; si < 10; si++) for (int w : WID)
  {
    if (!R->begin(fmt("astype/%s/%d", TY[si].n, w))) continue; const Ty s = TY[si]; int bytes = s.bits / 8 * slots(w); string src; vector<std::pair<int, int>> tg;
    for (int di = 0; di < 10; di++) for (int dw : WID) { bool ok = TY[di].bits / 8 * slots(dw) == bytes && !(w == 3 && dw == 4 && false); if (!ok) continue; tg.push_back({di, dw}); src += fmt("kernel void k%zu(global const %s *a, global %s *o) { o[get_global_id(0)] = as_%s(a[get_global_id(0)]); }\n", tg.size() - 1, vt(s, w).c_str(), vt(TY[di], dw).c_str(), vt(TY[di], dw).c_str()); }
    cl_program p = cl->build(src, "-cl-std=CL1.2"); const int N = 4; vector<uint8_t> in(bytes * N), out(bytes * N); pattern(in, si); cl_mem a = cl->buf(in.size(), in.data()), o = cl->buf(out.size());
    for (size_t i = 0; i < tg.size(); i++) { cl_kernel k = cl->kernel(p, fmt("k%zu", i)); cl->arg(k, 0, a); cl->arg(k, 1, o); vector<uint8_t> z(out.size(), 0xEE); cl->write(o, z.data(), z.size()); cap->clear(); CK(cl->launch1(k, N, 1)); string log = cap->get(); cl->read(o, out.data(), out.size()); int db = TY[tg[i].first].bits / 8, live = std::min(s.bits / 8 * w, db * tg[i].second); bool bad = false; for (int x = 0; x < N; x++) bad |= memcmp(&in[x * bytes], &out[x * bytes], live) != 0; R->count("transitions", N); R->count("traces_validated_against_impl"); if (bad) R->fail("astype", R->curCase + fmt(": as_%s differs", vt(TY[tg[i].first], tg[i].second).c_str())); if (!log.empty()) R->fail("astype-report", R->curCase + ": " + log.substr(0, 200)); clReleaseKernel(k); }
    clReleaseMemObject(a); clReleaseMemObject(o); clReleaseProgram(p);
  }
}
// vloadN / vstoreN for every type, width, offset and address space; whole memory compared
static void vloadstore()
{
  for (int ti = 0; ti < 10; ti++) for (int w : {2, 3, 4, 8, 16}) for (const char* sp : {"global", "local", "private", "constant"})
  {
    if (!R->begin(fmt("vload/%s/%d/%s", TY[ti].n, w, sp))) continue; const Ty t = TY[ti]; int es = t.bits / 8; string v = vt(t, w); bool priv = string(sp) == "private", loc = string(sp) == "local", con = string(sp) == "constant"; const int E = 64; // memory of 64 elements
    string pt = string(con ? "constant" : sp) + " " + t.n; string body, args = "global " + string(t.n) + " *in, global " + t.n + " *out, int off, int shift, int st, " + (con ? "constant " + string(t.n) + " *m" : loc ? "local " + string(t.n) + " *m" : "int z");
    if (priv) body += string(t.n) + " m[64];\n"; string init = priv || loc ? "for (int i = 0; i < 64; i++) m[i] = in[i];\n" : ""; string mm = string(sp) == "global" ? "in" : "m";
    // load: vload(off, m + shift); store: vstore(value of in[100..], off, m + shift)
    body += init + "if (!st) { " + v + " x = vload" + std::to_string(w) + "(off, " + mm + " + shift); " + t.n + " q[16]; vstore" + std::to_string(w) + "(x, 0, q); for (int i = 0; i < " + std::to_string(w) + "; i++) out[i] = q[i]; }\n";
    if (!con) body += "else { " + v + " x; for (int i = 0; i < 1; i++) x = (" + v + ")("; if (!con) { for (int i = 0; i < w; i++) body += fmt("%sin[%d]", i ? ", " : "", 64 + i); body += "); vstore" + std::to_string(w) + "(x, off, " + mm + " + shift); } for (int i = 0; i < 64; i++) out[16 + i] = " + mm + "[i];\n"; }
    cl_program p = cl->build("kernel void k(" + args + ") {\n" + body + "}", "-cl-std=CL1.2"); cl_kernel k = cl->kernel(p, "k");
    vector<uint8_t> in(es * 80), out(es * 80); pattern(in, ti * 7 + w); cl_mem a = cl->buf(in.size()), o = cl->buf(out.size()), cm = cl->buf(es * 64, in.data());
    for (int st = 0; st < (con ? 1 : 2); st++) for (int off = -1; off <= 3; off++) for (int shift = 0; shift < 4; shift++)
    {
      if (off < 0 && shift < w) { if (shift != 3) continue; } int sh = off < 0 ? w + shift : shift; if (off * w + sh < 0 || off * w + sh + w > E) continue;
      cl->write(a, in.data(), in.size()); vector<uint8_t> z(out.size(), 0xEE); cl->write(o, z.data(), z.size()); cl->arg(k, 0, a); cl->arg(k, 1, o); cl_int q = off; cl->arg(k, 2, q); q = sh; cl->arg(k, 3, q); q = st; cl->arg(k, 4, q); if (con) cl->arg(k, 5, cm); else if (loc) cl->localArg(k, 5, es * 64); else { q = 0; cl->arg(k, 5, q); }
      cap->clear(); CK(cl->launch1(k, 1, 1)); string log = cap->get(); cl->read(o, out.data(), out.size()); R->count("transitions"); R->count("traces_validated_against_impl"); string id = R->curCase + fmt(" %s off %d shift %d", st ? "store" : "load", off, sh);
      if (!log.empty()) R->fail("vload-report", id + ": " + log.substr(0, 200));
      vector<uint8_t> mem(in.begin(), in.begin() + es * 64); int at = (off * w + sh) * es; if (!st) { if (memcmp(out.data(), &in[at], es * w)) R->fail("vload-value", id); } else memcpy(&mem[at], &in[es * 64], es * w);
      if (!con && memcmp(&out[es * 16], mem.data(), mem.size())) R->fail("vstore-memory", id + ": memory differs from the model");
    }
    clReleaseMemObject(a); clReleaseMemObject(o); clReleaseMemObject(cm); clReleaseKernel(k); clReleaseProgram(p);
  }
}
// halves
static double halfVal(uint16_t h) { int e = h >> 10 & 31, m = h & 1023; double v = e == 31 ? (m ? NAN : INFINITY) : e ? std::ldexp(1024 + m, e - 25) : std::ldexp(m, -24); return h >> 15 ? -v : v; }
static int toHalf(double d, int mode) // exact reference rounding; -1 for NaN
{
  if (std::isnan(d)) return -1; bool neg = std::signbit(d); double a = std::fabs(d); int s = neg ? 0x8000 : 0; if (std::isinf(a)) return s | 0x7c00;
  // largest half not above a
  int lo = 0, hi = 0x7bff; if (a >= halfVal(0x7bff)) lo = 0x7bff; else { while (lo < hi) { int mid = (lo + hi + 1) / 2; if (halfVal(mid) <= a) lo = mid; else hi = mid - 1; } }
  double v = halfVal(lo); if (v == a) return s | lo; double next = lo == 0x7bff ? 65536.0 : halfVal(lo + 1); bool up; if (mode == 0) { double mid = (v + next) / 2; up = a > mid || (a == mid && (lo & 1)); } else if (mode == 1) up = false; else up = (mode == 2) != neg;
  return s | (up ? lo + 1 : lo);
}
static void halves()
{
  static const int W[] = {1, 2, 3, 4, 8, 16};
  for (int w : W) for (int al = 0; al < 2; al++)
  {
    if (al && w == 1) continue; if (!R->begin(fmt("vload_half/%d/%d", w, al))) continue; string ws = w == 1 ? "" : std::to_string(w); int stride = al && w == 3 ? 4 : w; string v = w == 1 ? "float" : "float" + ws;
    // every half value through vload_half / vloada_half
    cl_program p = cl->build("kernel void k(global const half *a, global float *o, int base) { int i = get_global_id(0); " + v + " x = " + (al && w == 1 ? "vloada_half" : al ? "vloada_half" + ws : "vload_half" + ws) + "(i, a); " + (w == 1 ? "o[i] = x;" : "vstore" + ws + "(x, i, o);") + " }", "-cl-std=CL1.2"); cl_kernel k = cl->kernel(p, "k");
    int n = 65536 / stride; vector<uint16_t> h(65536); for (int i = 0; i < 65536; i++) h[i] = i; vector<float> o(n * w); cl_mem a = cl->buf(h.size() * 2, h.data()), ob = cl->buf(o.size() * 4); cl->arg(k, 0, a); cl->arg(k, 1, ob); cl_int z = 0; cl->arg(k, 2, z); cap->clear(); CK(cl->launch1(k, n, 1)); if (!cap->get().empty()) R->fail("vload_half-report", R->curCase + cap->get().substr(0, 200)); cl->read(ob, o.data(), o.size() * 4); R->count("transitions", n * w); R->count("traces_validated_against_impl");
    for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) { double e = halfVal(i * stride + j); float g = o[i * w + j]; if (!(std::isnan(e) ? std::isnan(g) : g == (float)e && std::signbit(g) == std::signbit(e))) { R->fail("vload_half", R->curCase + fmt(": half 0x%x loads as %g, expected %g", i * stride + j, g, e)); i = n; break; } }
    clReleaseMemObject(a); clReleaseMemObject(ob); clReleaseKernel(k); clReleaseProgram(p);
  }
  for (int dbl = 0; dbl < 2; dbl++) for (int w : W) for (int al = 0; al < 2; al++) for (int rm = 0; rm < 5; rm++)
  {
    if (al && w == 1) continue; if (!R->begin(fmt("vstore_half/%d/%d/%d/%s", dbl, w, al, RM[rm]))) continue; string ws = w == 1 ? "" : std::to_string(w), t = dbl ? "double" : "float"; int stride = al && w == 3 ? 4 : w; const Ty ty = TY[8 + dbl];
    cl_program p = cl->build("kernel void k(global const " + t + " *a, global half *o, int base) { int i = get_global_id(0); " + (w == 1 ? t + " x = a[i];" : t + ws + " x = vload" + ws + "(i, a);") + (al ? "vstorea_half" : "vstore_half") + ws + RM[rm] + "(x, i, o + base); }", "-cl-std=CL1.2"); cl_kernel k = cl->kernel(p, "k");
    vector<uint64_t> in = fbound(ty, true); for (int h = 0; h < 0x7c00; h += w == 16 || R->thorough ? 1 : 61) { double v = halfVal(h), nx = h + 1 == 0x7c00 ? 65536.0 : halfVal(h + 1); for (double x : {v, (v + nx) / 2, v + (nx - v) / 4, v + (nx - v) * 0.75}) { in.push_back(fr(ty, x)); if (x != v) { in.push_back(fr(ty, x) + 1); in.push_back(fr(ty, x) - 1); } in.push_back(fr(ty, -x)); } } while (in.size() % 16) in.push_back(0); while (in.size() % (16 * w)) in.push_back(fr(ty, 1.0));
    int n = in.size() / w; vector<uint8_t> ib(in.size() * ty.bits / 8); for (size_t i = 0; i < in.size(); i++) memcpy(&ib[i * ty.bits / 8], &in[i], ty.bits / 8); const int B = 4; vector<uint16_t> o(n * stride + 2 * B, 0xABCD), e = o; cl_mem a = cl->buf(ib.size(), ib.data()), ob = cl->buf(o.size() * 2, o.data());
    cl->arg(k, 0, a); cl->arg(k, 1, ob); cl_int z = B; cl->arg(k, 2, z); cap->clear(); CK(cl->launch1(k, n, 1)); if (!cap->get().empty()) R->fail("vstore_half-report", R->curCase + cap->get().substr(0, 200)); cl->read(ob, o.data(), o.size() * 2); R->count("transitions", n * w); R->count("traces_validated_against_impl");
    for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) { double x = fv(ty, in[i * w + j]); int r = toHalf(x, rm == 4 ? 0 : rm); uint16_t g = o[B + i * stride + j]; e[B + i * stride + j] = g; bool ok = r < 0 ? (g & 0x7c00) == 0x7c00 && (g & 0x3ff) : g == r; if (!ok) { R->fail(fmt("vstore_half:%s:%s", t.c_str(), RM[rm]), R->curCase + fmt(": %.17g stored as 0x%x, expected 0x%x", x, g, r)); goto done; } }
    if (o != e) R->fail("vstore_half-memory", R->curCase + ": other bytes changed");
  done: clReleaseMemObject(a); clReleaseMemObject(ob); clReleaseKernel(k); clReleaseProgram(p);
  }
}
static void shuffles()
{
  bool T = R->thorough;
  for (int ti = 0; ti < 10; ti++) for (int n : {2, 4, 8, 16}) for (int m : {2, 4, 8, 16})
  {
    const Ty t = TY[ti]; if (!R->begin(fmt("shuffle/%s/%d/%d", t.n, m, n))) continue; const Ty mt = TY[t.bits == 8 ? 1 : t.bits == 16 ? 3 : t.bits == 32 ? 5 : 7]; int es = t.bits / 8;
    cl_program p = cl->build("kernel void k1(global const " + vt(t, m) + " *a, global const " + vt(mt, n) + " *s, global " + vt(t, n) + " *o) { int i = get_global_id(0); o[i] = shuffle(a[0], s[i]); }\nkernel void k2(global const " + vt(t, m) + " *a, global const " + vt(mt, n) + " *s, global " + vt(t, n) + " *o) { int i = get_global_id(0); o[i] = shuffle2(a[0], a[1], s[i]); }", "-cl-std=CL1.2");
    for (int two = 0; two < 2; two++)
    {
      // every selector vector when small, otherwise every lane x selector value (other lanes hold a rotating selector)
      int range = two ? 2 * m : m; vector<vector<uint64_t>> sel; double tot = std::pow(range, n); uint64_t junk = ti % 2 ? mask(t.bits) & ~(uint64_t)(range - 1) : 0; // bits above the index are ignored
      if (tot <= (T ? 70000 : 300)) for (long x = 0; x < (long)tot; x++) { vector<uint64_t> v; long y = x; for (int i = 0; i < n; i++) { v.push_back((y % range) | junk); y /= range; } sel.push_back(v); }
      else for (int l = 0; l < n; l++) for (int s = 0; s < range; s++) for (int r = 0; r < (T ? range : 2); r++) { vector<uint64_t> v; for (int i = 0; i < n; i++) v.push_back((i == l ? s : (i * 3 + r + s) % range) | junk); sel.push_back(v); }
      vector<uint8_t> in(es * m * 2), sb(sel.size() * n * es), out(sb.size()); for (int i = 0; i < 2 * m; i++) { uint64_t v = t.fp ? fr(t, i * 1.5 + 1) : (uint64_t)(i * 0x0101010101010101ull + 0x1122334455667788ull); memcpy(&in[i * es], &v, es); } for (size_t i = 0; i < sel.size(); i++) for (int j = 0; j < n; j++) memcpy(&sb[(i * n + j) * es], &sel[i][j], es);
      cl_kernel k = cl->kernel(p, two ? "k2" : "k1"); cl_mem a = cl->buf(in.size(), in.data()), s = cl->buf(sb.size(), sb.data()), o = cl->buf(out.size()); cl->arg(k, 0, a); cl->arg(k, 1, s); cl->arg(k, 2, o); cap->clear(); CK(cl->launch1(k, sel.size(), 1)); if (!cap->get().empty()) R->fail("shuffle-report", R->curCase + cap->get().substr(0, 200)); cl->read(o, out.data(), out.size()); R->count("transitions", sel.size() * n); R->count("traces_validated_against_impl");
      for (size_t i = 0; i < sel.size(); i++) for (int j = 0; j < n; j++) if (memcmp(&out[(i * n + j) * es], &in[(sel[i][j] & (range - 1)) * es], es)) { R->fail(two ? "shuffle2" : "shuffle", R->curCase + fmt(": lane %d with selector %llu", j, (unsigned long long)sel[i][j])); i = sel.size(); break; }
      clReleaseMemObject(a); clReleaseMemObject(s); clReleaseMemObject(o); clReleaseKernel(k);
    }
    clReleaseProgram(p);
  }
}
static void body(int, char** argv)
{
  stdEnv(argv[1]); cap = new Capture(2); cl = new CL();
  integers(); relational(); conversions(); roundingStays(); reinterpret(); vloadstore(); halves(); shuffles();
}
VF_MAIN(body)
