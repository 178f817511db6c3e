// C09: every IR construct, interpreted by Oclgrind and executed as host code compiled by LLVM from the same text.
#include "vf.hpp"
#include <cmath>
#include <dlfcn.h>
#include <fstream>
using namespace vf;
static size_t gid;
__attribute__((visibility("default"))) size_t get_global_id(unsigned) { return gid; }

struct In { string t; int n; string tab; };
struct Case { string name; vector<In> in; In out; };
static int bytes(const string& t) { return t == "i8" ? 1 : t == "i16" ? 2 : t == "i32" || t == "float" ? 4 : 8; }
static bool isF(const string& t) { return t == "float" || t == "double"; }
// values of one input lane, as raw bytes in a 64-bit word
static vector<uint64_t> table(const string& t, const string& k, size_t ninputs, int lanes)
{
  vector<uint64_t> v;
  if (isF(t))
  {
    vector<double> d = {0.0, -0.0, 1.0, -1.0, 1.5, 0.1, -2.5, 3.0, 1e10, -1e-10, 16777217.0, INFINITY, -INFINITY, NAN};
    vector<double> lim = t == "float" ? vector<double>{3.40282346638528859812e38, -3.40282346638528859812e38, 1.17549435082228750797e-38, 1.40129846432481707092e-45, 1.00000011920928955078} : vector<double>{1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, 1.0000000000000002};
    d.insert(d.end(), lim.begin(), lim.end());
    if (t == "double") for (double x : {1.00000005960464477539, 3.4028235677973366e38, 3.40282356e38, 1e39, 1e-46, 7.0064923216240854e-46, 1.1754943e-38, 16777219.0, 0.30000000000000004}) d.push_back(x);
    for (double x : {127.0, 128.0, -128.0, -128.9, 255.9, 32767.5, 65535.0, 2147483520.0, 2147483647.0, -2147483648.0, 4294967040.0, 9.2233714e18, 1.8446742e19, 0.99999994, -0.5, 7.75}) d.push_back(x);
    if (R->thorough) for (int e = -40; e <= 40; e += 5) { d.push_back(std::ldexp(1.2345678, e)); d.push_back(-std::ldexp(1.7, e)); }
    for (double x : d)
    {
      if (t == "float") x = (float)x;
      if (k == "few" && !(x == 0 || x == 1 || x == 1.5 || x == -2.5 || x == (t == "float" ? (double)0.1f : 0.1) || std::isinf(x))) continue;
      if (k == "exact" && !(std::fabs(x) <= 3 && x * 4 == std::floor(x * 4) && x == x)) continue;
      if (k == "nozero" && (x == 0)) continue;
      if (k.size() > 1 && (k[1] == 'i'))
      { // in the range of the destination type
        int b = atoi(k.c_str() + 2); long double lo = k[0] == 's' ? -std::ldexp(1.0L, b - 1) : 0, hi = std::ldexp(1.0L, k[0] == 's' ? b - 1 : b);
        if (!(std::truncl(x) >= lo && std::truncl(x) < hi)) continue;
        if (k[0] == 'u' && std::trunc(x) == 0 && std::signbit(x) && x != 0) {} // truncates to zero: in range
      }
      uint64_t w = 0; if (t == "float") { float f = x; memcpy(&w, &f, 4); } else memcpy(&w, &x, 8); v.push_back(w);
    }
    return v;
  }
  int b = bytes(t) * 8; uint64_t mask = b == 64 ? ~0ull : (1ull << b) - 1, mn = 1ull << (b - 1);
  if (k == "far") { for (int64_t x : {0l, 1l, 2l, 7l, 127l, 128l, 129l, 255l, 256l, 257l, 300l, 511l, 999l, 32767l, 32768l, 65535l, 65536l, 65537l, (1l << 31) - 1, 1l << 31, (1l << 32) - 1, 1l << 32, (1l << 32) + 3, 1l << 40, -1l, -128l, -129l, -300l, -65537l, -(1l << 31), -(1l << 33)}) { bool f = false; for (auto o : v) f |= o == (uint64_t)(x & mask); if (!f) v.push_back(x & mask); } return v; }
  if (k == "pm2") { for (int64_t x : {0, 1, 2, -1, -2}) v.push_back(x & mask); return v; }
  if (k == "idx") { for (uint64_t x = 0; x < 11; x++) v.push_back(x); v.push_back(mask); return v; }
  if (k == "byte") { for (uint64_t x = 0; x < 256; x += R->thorough ? 1 : 3) v.push_back(x); return v; }
  if (k == "sh") { for (int i = 0; i < b; i += (b > 16 && !R->thorough && i > 2 && i < b - 3) ? 5 : 1) v.push_back(i); return v; }
  vector<uint64_t> c = {0, 1, 2, 3, 5, 7, 100, mask, mask - 1, mask - 4, mn, mn + 1, mn - 1, mn - 2, 0x55, 0xAAAAAAAAAAAAAAAAull, 0x0123456789abcdefull, 0x80, 0x7f, 0xff, 0xf0};
  if (b > 8) for (uint64_t x : {0x100ull, 0x8000ull, 0x7fffull, 0xfffeull, 0xff00ull, 0xffffffffffff8001ull}) c.push_back(x);
  if (b > 16) for (uint64_t x : {0x10000ull, 0x80000000ull, 0x7fffffffull, 0xfffffffeull, 16777217ull, 0xffffffff00000001ull}) c.push_back(x);
  if (b > 32) for (uint64_t x : {0x100000000ull, 0x20000000000001ull, 0x7fffffbfffffffffull, 0x8000008000000001ull, 0x1000000800000001ull, 0x123456789ull}) c.push_back(x);
  if (k == "few") c = {0, 1, 2, mask, mn, 0x35, 0x0123456789abcdefull};
  if (k == "shx") { c = {0, 1, (uint64_t)b - 1, (uint64_t)b, (uint64_t)b + 1, mask, 3, 2ull * b + 5}; }
  if (k != "few" && k != "shx")
  {
    if (b == 8 && (ninputs == 1 || (R->thorough && lanes == 1))) { c.clear(); for (int i = 0; i < 256; i++) c.push_back(i); }
    else if (R->thorough || ninputs == 1) for (int i = 3; i < b; i += R->thorough ? 2 : 5) { c.push_back(1ull << i); c.push_back(mask ^ (1ull << i)); c.push_back((1ull << i) + 1); }
  }
  std::set<uint64_t> seen;
  for (uint64_t x : c) { x &= mask; if (k == "nz" && !x) continue; if (k == "nomin" && x == mn) continue; if (seen.insert(x).second) v.push_back(x); }
  return v;
}
static string slurp(const string& p) { std::ifstream f(p, std::ios::binary); if (!f) R->internal("cannot read " + p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static In parse(const string& s) { In r; size_t a = s.find(','), b = s.find(',', a + 1); r.t = s.substr(0, a); r.n = atoi(s.c_str() + a + 1); if (b != string::npos) r.tab = s.substr(b + 1); return r; }

// Address arithmetic: every element type, index type and index of a lattice, with and without a constant member offset
static void pointers(CL& cl, Capture& cap)
{
  struct T { const char* n; long size; const char* mem; long off; } T[] = {{"char", 1, "", 0}, {"short", 2, "", 0}, {"int", 4, "", 0}, {"long", 8, "", 0}, {"char3", 4, "", 0}, {"int4", 16, "", 0}, {"double16", 128, "", 0}, {"S12", 12, "", 0}, {"S12", 12, ".b", 4}, {"S12", 12, ".c[1]", 10}, {"S80", 80, "", 0}, {"S80", 80, ".m[1].b", 24}, {"R3", 3, "", 0}, {"R3", 3, "[2]", 2}};
  struct I { const char* n; int bits; bool sg; } I[] = {{"char", 8, true}, {"uchar", 8, false}, {"short", 16, true}, {"ushort", 16, false}, {"int", 32, true}, {"uint", 32, false}, {"long", 64, true}, {"ulong", 64, false}};
  vector<int64_t> ix; for (int b : {0, 1, 2, 3, 6, 7, 8, 14, 15, 16, 29, 30, 31, 32, 33, 40, 44}) for (int64_t x : {(1ll << b) - 1, 1ll << b, (1ll << b) + 1}) { ix.push_back(x); ix.push_back(-x); }
  for (const char* opt : {"-cl-std=CL1.2", "-cl-std=CL1.2 -cl-opt-disable"}) for (auto& t : T)
  {
    string src = "typedef struct { int a; int b; short c[2]; } S12;\ntypedef struct { long z; S12 m[6]; } S80;\ntypedef char R3[3];\n";
    for (auto& i : I) for (const char* as : {"global", "local", "private", "constant"}) src += fmt("kernel void k_%s_%s(global const %s *x, global ulong *o, %s) { %s o[0] = (ulong)p; size_t i = get_global_id(0); o[1+i] = (ulong)&p[x[i]]%s; }\n", i.n, as, i.n, *as == 'p' ? "int unused" : fmt("%s %s *p", as, t.n).c_str(), *as == 'p' ? fmt("%s v[3]; private %s * volatile h = v; private %s *p = h;", t.n, t.n, t.n).c_str() : "", t.mem);
    // &p[x] followed by a member has to name the member's address
    string fix; size_t q = 0; while ((q = src.find("(ulong)&p[x[i]]", 0)) != string::npos) src.replace(q, 15, "(ulong)&(p[x[i]])"); if (*t.mem) { q = 0; string a = string("&(p[x[i]])") + t.mem, b = string("&(p[x[i]]") + t.mem + ")"; while ((q = src.find(a, q)) != string::npos) src.replace(q, a.size(), b); }
    cl_program p = cl.build(src, opt); size_t n = ix.size(); cl_mem o = cl.buf(8 * (n + 1)), pb = cl.buf(256);
    for (auto& i : I) for (const char* as : {"global", "local", "private", "constant"})
    {
      if (!R->begin(fmt("pointer%s/%s%s/%s/%s", strlen(opt) > 14 ? "-O0" : "", t.n, t.mem, i.n, as))) continue; vector<uint8_t> xb(n * i.bits / 8); vector<int64_t> v(n);
      for (size_t j = 0; j < n; j++) { uint64_t u = ix[j]; if (i.bits < 64) { u &= (1ull << i.bits) - 1; if (i.sg && u >> (i.bits - 1)) u |= ~0ull << i.bits; } v[j] = u; memcpy(&xb[j * i.bits / 8], &u, i.bits / 8); }
      cl_mem x = cl.buf(xb.size(), xb.data()); cl_kernel k = cl.kernel(p, fmt("k_%s_%s", i.n, as)); cl.arg(k, 0, x); cl.arg(k, 1, o); cl_int z = 0; if (*as == 'l') cl.localArg(k, 2, 256); else if (*as == 'p') cl.arg(k, 2, z); else cl.arg(k, 2, pb);
      cap.clear(); CK(cl.launch1(k, n, 1)); string log = cap.get(); if (!log.empty()) R->fail("pointer:diagnostic", R->curCase + ": " + log.substr(0, 200)); vector<uint64_t> r(n + 1); cl.read(o, r.data(), 8 * (n + 1)); R->count("transitions", n); R->count("traces_validated_against_impl", n);
      for (size_t j = 0; j < n; j++) if (r[1 + j] != r[0] + v[j] * t.size + t.off && !(*as == 'p')) { R->fail("pointer:value", R->curCase + fmt(": index %ld from %lx gives %lx, expected %lx", (long)v[j], (long)r[0], (long)r[1 + j], (long)(r[0] + v[j] * t.size + t.off))); break; }
      if (*as == 'p') for (size_t j = 1; j < n; j++) if (r[1 + j] - r[1] != (uint64_t)(v[j] - v[0]) * t.size) { R->fail("pointer:value", R->curCase + fmt(": index %ld", (long)v[j])); break; }
      clReleaseMemObject(x); clReleaseKernel(k);
    }
    clReleaseMemObject(o); clReleaseMemObject(pb); clReleaseProgram(p);
  }
}
// Structures passed by value to and returned from functions: every size, several alignments; the callee changes its own copy only
static void aggregates(CL& cl, Capture& cap)
{
  for (const char* opt : {"-cl-std=CL1.2", "-cl-std=CL1.2 -cl-opt-disable"}) for (const char* el : {"uchar", "ushort", "uint", "ulong"})
  {
    int eb = !strcmp(el, "uchar") ? 1 : !strcmp(el, "ushort") ? 2 : !strcmp(el, "uint") ? 4 : 8; string src; vector<int> ns; for (int n = 1; n * eb <= 80; n++) if (eb > 1 || n <= 24 || n % 8 < 2 || n % 8 == 7) ns.push_back(n);
    for (int n : ns) src += fmt("typedef struct { %s x[%d]; } S%d;\n__attribute__((noinline)) ulong f%d(S%d s, int j) { ulong t = s.x[j]; s.x[j] += 3; for (int i = 0; i < %d; i++) t = t * 31 + s.x[i]; return t; }\n__attribute__((noinline)) S%d g%d(S%d s, int j) { s.x[j] ^= 5; return s; }\n"
      "kernel void k%d(global const S%d *a, global S%d *o, global ulong *h) { int j = get_global_id(0); S%d s = *a; h[2*j] = f%d(s, j); S%d t = g%d(*a, j); h[2*j+1] = f%d(*a, j); s.x[0] += t.x[j]; o[2*j] = s; o[2*j+1] = t; }\n", el, n, n, n, n, n, n, n, n, n, n, n, n, n, n, n, n);
    cl_program p = cl.build(src, opt);
    for (int n : ns)
    {
      if (!R->begin(fmt("aggregate%s/%s/%d", strlen(opt) > 14 ? "-O0" : "", el, n))) continue; size_t S = (size_t)n * eb; uint64_t m = eb == 8 ? ~0ull : (1ull << (8 * eb)) - 1; vector<uint64_t> x(n); vector<uint8_t> in(S), out(2 * n * S);
      for (int i = 0; i < n; i++) { x[i] = (0x9E3779B97F4A7C15ull * (i + 1)) & m; memcpy(&in[i * eb], &x[i], eb); }
      cl_mem a = cl.buf(S, in.data()), o = cl.buf(2 * n * S), h = cl.buf(16 * n); cl_kernel k = cl.kernel(p, fmt("k%d", n)); cl.arg(k, 0, a); cl.arg(k, 1, o); cl.arg(k, 2, h); cap.clear(); CK(cl.launch1(k, n, 1)); string log = cap.get(); if (!log.empty()) R->fail("aggregate:diagnostic", R->curCase + ": " + log.substr(0, 200));
      cl.read(o, out.data(), out.size()); vector<uint64_t> hv(2 * n); cl.read(h, hv.data(), 16 * n); vector<uint8_t> back(S); cl.read(a, back.data(), S); if (back != in) R->fail("aggregate:source", R->curCase); R->count("transitions", n); R->count("traces_validated_against_impl");
      for (int j = 0; j < n; j++)
      {
        uint64_t t = x[j]; for (int i = 0; i < n; i++) t = t * 31 + (i == j ? (x[i] + 3) & m : x[i]); if (hv[2 * j] != t || hv[2 * j + 1] != t) { R->fail("aggregate:argument", R->curCase + fmt("/%d", j)); break; }
        bool bad = false; for (int i = 0; i < n; i++) { uint64_t w1 = x[i], w2 = i == j ? x[i] ^ 5 : x[i], g1 = 0, g2 = 0; if (i == 0) w1 = (w1 + (x[j] ^ 5)) & m; memcpy(&g1, &out[2 * j * S + i * eb], eb); memcpy(&g2, &out[(2 * j + 1) * S + i * eb], eb); if (g1 != w1 || g2 != (w2 & m)) bad = true; }
        if (bad) { R->fail("aggregate:value", R->curCase + fmt("/%d", j)); break; }
      }
      clReleaseMemObject(a); clReleaseMemObject(o); clReleaseMemObject(h); clReleaseKernel(k);
    }
    clReleaseProgram(p);
  }
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1], "1"); string dir = argv[2]; int nmod = atoi(argv[3]);
  vector<Case> cases; std::stringstream man(slurp(dir + "/cases")); string line;
  while (std::getline(man, line)) { std::stringstream l(line); Case c; string a, b, d, o; l >> c.name >> a >> b >> d >> o; for (auto& x : {a, b, d}) if (x != "-") c.in.push_back(parse(x)); c.out = parse(o); cases.push_back(c); }
  CL cl; Capture cap; std::map<int, cl_program> progs; std::map<int, void*> libs;
  for (size_t i = 0; i < cases.size(); i++)
  {
    const Case& c = cases[i]; if (!R->begin(c.name)) continue;
    int m = i % nmod; cl_int e;
    if (!libs.count(m))
    {
      libs[m] = dlopen((dir + fmt("/m%d.so", m)).c_str(), RTLD_NOW); if (!libs[m]) R->internal(dlerror());
      string bc = slurp(dir + fmt("/m%d.bc", m)); const unsigned char* p = (const unsigned char*)bc.data(); size_t n = bc.size();
      progs[m] = clCreateProgramWithBinary(cl.ctx, 1, &cl.dev, &n, &p, 0, &e); CK(e); CK(clBuildProgram(progs[m], 0, 0, "", 0, 0));
    }
    auto fn = (void (*)(void*, void*, void*, void*))dlsym(libs[m], fmt("k%zu", i).c_str()); if (!fn) R->internal("no host kernel");
    string kind = c.name.substr(0, c.name.find('.'));
    cap.clear(); cl_kernel k = clCreateKernel(progs[m], fmt("k%zu", i).c_str(), &e);
    if (e) { R->fail(kind + ":no-kernel", fmt("clCreateKernel: %d %s", e, cap.get().c_str())); continue; }
    vector<vector<uint64_t>> tab; size_t N = 1;
    for (auto& x : c.in) { tab.push_back(table(x.t, x.tab, c.in.size(), x.n)); if (tab.back().empty()) R->internal("empty table"); N *= tab.back().size(); }
    if (!R->thorough && N > 900) N = N; size_t cap_ = R->thorough ? 1u << 17 : 4096; if (N > cap_) R->internal("too many items in " + c.name);
    auto stride = [](const In& x) { return (size_t)bytes(x.t) * (x.n == 3 ? 4 : x.n); };
    vector<vector<uint8_t>> buf(4); vector<cl_mem> mem(4);
    for (size_t q = 0; q < 3; q++)
    {
      if (q >= c.in.size()) { buf[q].assign(16, 0); continue; }
      const In& x = c.in[q]; buf[q].assign(N * stride(x) + 64, 0xC3); size_t div = 1; for (size_t z = 0; z < q; z++) div *= tab[z].size();
      for (size_t it = 0; it < N; it++) for (int l = 0; l < x.n; l++) { size_t j = (it + (size_t)l * 37) % N; uint64_t w = tab[q][(j / div) % tab[q].size()]; memcpy(&buf[q][it * stride(x) + (size_t)l * bytes(x.t)], &w, bytes(x.t)); }
    }
    size_t os = stride(c.out); buf[3].assign(N * os + 64, 0xE7); vector<uint8_t> ref = buf[3], got = buf[3];
    vector<vector<uint8_t>> hb = buf;
    for (gid = 0; gid < N; gid++) fn(hb[0].data(), hb[1].data(), hb[2].data(), ref.data());
    cap.clear();
    for (int q = 0; q < 4; q++) { mem[q] = cl.buf(buf[q].size(), buf[q].data()); cl.arg(k, q, mem[q]); }
    size_t gs = N; cl_int r = clEnqueueNDRangeKernel(cl.q, k, 1, 0, &gs, 0, 0, 0, 0); if (r) R->fail(kind + ":enqueue", fmt("enqueue failed: %d", r));
    r = clFinish(cl.q); cl.read(mem[3], got.data(), got.size());
    R->count("transitions", N); R->count("traces_validated_against_impl", N);
    string log = cap.get(); if (!log.empty()) R->fail(kind + ":diagnostic", c.name + " caused output: " + log.substr(0, 600));
    int eb = bytes(c.out.t);
    for (size_t it = 0; it < N; it++)
    {
      bool bad = memcmp(&ref[it * os], &got[it * os], os) != 0; if (!bad) continue;
      if (isF(c.out.t))
      {
        bad = false;
        for (size_t o = 0; o < os; o += eb)
        {
          if (!memcmp(&ref[it * os + o], &got[it * os + o], eb)) continue;
          double x, y; if (eb == 4) { float f, g; memcpy(&f, &ref[it * os + o], 4); memcpy(&g, &got[it * os + o], 4); x = f; y = g; } else { memcpy(&x, &ref[it * os + o], 8); memcpy(&y, &got[it * os + o], 8); }
          if (!(std::isnan(x) && std::isnan(y) && o / eb < (size_t)c.out.n)) bad = true;
        }
      }
      if (bad)
      {
        auto hex = [](const uint8_t* p, size_t n) { string s; for (size_t i = 0; i < n; i++) s += fmt("%02x", p[i]); return s; };
        string ins; for (size_t q = 0; q < c.in.size(); q++) ins += fmt(" %c=", 'a' + (int)q) + hex(&buf[q][it * stride(c.in[q])], stride(c.in[q]));
        R->fail(kind + ":value", c.name + fmt(" item %zu:", it) + ins + " gives " + hex(&got[it * os], os) + ", LLVM host code gives " + hex(&ref[it * os], os)); break;
      }
    }
    if (memcmp(&ref[N * os], &got[N * os], 64)) R->fail(kind + ":beyond", c.name + " wrote outside its results");
    for (auto& x : mem) clReleaseMemObject(x); clReleaseKernel(k);
    if (i % 500 == 0) R->sample(c.name + fmt(": %zu operand combinations", N));
  }
  pointers(cl, cap); aggregates(cl, cap);
}
VF_MAIN(body)
