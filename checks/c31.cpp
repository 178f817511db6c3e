// C31: what kernels compute does not depend on the floating-point environment of the host program, and API calls leave that environment alone.
#include "vf.hpp"
#include <algorithm>
#include <cfenv>
#include <xmmintrin.h>
using namespace vf;
static const char* SRC = R"(
kernel void fl(global const float* a, global uint* o, int n) {
  int i = get_global_id(0), x = i / n, y = i % n; float p = a[x], q = a[y]; global uint* r = o + i * 32; int k = 0;
  r[k++] = as_uint(p + q); r[k++] = as_uint(p - q); r[k++] = as_uint(p * q); r[k++] = as_uint(p / q); r[k++] = as_uint(fma(p, q, p)); r[k++] = as_uint(mad(p, q, q)); r[k++] = as_uint(sqrt(p)); r[k++] = as_uint(fmod(p, q));
  r[k++] = as_uint(rint(p)); r[k++] = as_uint(round(p)); r[k++] = as_uint(trunc(p)); r[k++] = as_uint(floor(p)); r[k++] = convert_int_rte(p); r[k++] = convert_int_rtp(p); r[k++] = convert_int_rtz(p); r[k++] = convert_uchar_sat_rte(p);
  r[k++] = as_uint(convert_float_rtz((int)(16777217 + x * 3))); r[k++] = as_uint((float)(16777217 + x * 5)); r[k++] = as_uint(convert_float((ulong)x * 0x123456789ABUL + y)); r[k++] = as_uint(exp2(p)); r[k++] = as_uint(log(q)); r[k++] = as_uint(pow(p, q)); r[k++] = as_uint(sin(p)); r[k++] = as_uint(hypot(p, q));
  r[k++] = as_uint(dot((float2)(p, q), (float2)(q, p))); r[k++] = as_uint(length((float3)(p, q, p))); r[k++] = as_uint(mix(p, q, 0.3f)); r[k++] = isless(p, q) | isnormal(p) << 1 | (p == q) << 2 | isnan(p / q) << 3; r[k++] = as_uint(ldexp(p, y)); r[k++] = as_uint(fmin(p, q)); r[k++] = as_uint(nextafter(p, q)); r[k++] = as_uint(native_divide(p, q));
}
kernel void db(global const double* a, global ulong* o, int n) {
  int i = get_global_id(0), x = i / n, y = i % n; double p = a[x], q = a[y]; global ulong* r = o + i * 16; int k = 0;
  r[k++] = as_ulong(p + q); r[k++] = as_ulong(p - q); r[k++] = as_ulong(p * q); r[k++] = as_ulong(p / q); r[k++] = as_ulong(fma(p, q, p)); r[k++] = as_ulong(sqrt(p)); r[k++] = as_ulong(rint(p)); r[k++] = as_uint((float)p);
  r[k++] = as_uint(convert_float_rtp(p)); r[k++] = convert_long_rte(p); r[k++] = as_ulong((double)((long)p * 3 + 9007199254740993L + y)); r[k++] = as_ulong(exp(p)); r[k++] = as_ulong(remainder(p, q)); r[k++] = as_ulong(cbrt(q)); r[k++] = isless(p, q) | (p == q) << 1; r[k++] = as_ulong(pow(p, q));
}
kernel void hf(global const float* a, global ushort* o, int n) {
  int i = get_global_id(0); float p = a[i % n] * (1 + i); vstore_half(p, i * 5, (global half*)o); vstore_half_rte(p, i * 5 + 1, (global half*)o); vstore_half_rtz(p, i * 5 + 2, (global half*)o); vstore_half_rtp(p, i * 5 + 3, (global half*)o); vstore_half_rtn(p, i * 5 + 4, (global half*)o);
}
constant sampler_t L = CLK_NORMALIZED_COORDS_TRUE | CLK_ADDRESS_REPEAT | CLK_FILTER_LINEAR; constant sampler_t N = CLK_NORMALIZED_COORDS_FALSE | CLK_ADDRESS_CLAMP_TO_EDGE | CLK_FILTER_NEAREST;
kernel void im(read_only image2d_t s, write_only image2d_t d, global uint4* o, global const float* a, int n) {
  int i = get_global_id(0); o[i] = as_uint4(read_imagef(s, L, (float2)(i * 0.071f, i * 0.113f))); o[i + 64] = as_uint4(read_imagef(s, N, (float2)(i * 0.37f, i * 0.21f))); write_imagef(d, (int2)(i & 7, i >> 3), (float4)(i * 0.0131f, i * 0.00717f, 1.0f - i * 0.011f, a[i % n]));
}
kernel void pr(global const float* a, int n) { for (int i = 0; i < n; i++) printf("%.3f %g %e %a %.0f|%v2.2f\n", a[i], a[i], a[i], a[i], a[i], (float2)(a[i], 0.125f)); }
)";
struct Env { int round; bool ftz, daz, trap; };
static void enter(const Env& e)
{
  fesetenv(FE_DFL_ENV); fesetround(e.round); unsigned m = _mm_getcsr(); m = (m & ~0x8040u) | (e.ftz ? 0x8000 : 0) | (e.daz ? 0x40 : 0); _mm_setcsr(m); feclearexcept(FE_ALL_EXCEPT); if (e.trap) feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW);
}
static void leave() { fesetenv(FE_DFL_ENV); _mm_setcsr(0x1f80); }
static unsigned csr() { return _mm_getcsr() & ~0x3fu; }
static unsigned x87() { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); return w; }
static CL* cl; static cl_program prog; static vector<float> FV; static vector<double> DV; static string badEnv;
typedef std::map<string, string> Out;
// Runs every kernel and transfer in the given environment; the environment is compared after every call.
static Out run(const Env& v)
{
  Out o; unsigned c0, w0; int nf = FV.size(), nd = DV.size(); badEnv.clear(); leave();
  cl_mem fa = cl->buf(nf * 4, FV.data()), da = cl->buf(nd * 8, DV.data()), out = cl->buf(1 << 16), hb = cl->buf(64 * 5 * 2), ib = cl->buf(128 * 16); cl_image_format F = {CL_RGBA, CL_UNORM_INT8}, G = {CL_RGBA, CL_HALF_FLOAT}; cl_image_desc d = {}; d.image_type = CL_MEM_OBJECT_IMAGE2D; d.image_width = d.image_height = 8; vector<uint8_t> px; px.resize(256); pattern(px, 3); cl_int e;
  cl_mem si = clCreateImage(cl->ctx, CL_MEM_COPY_HOST_PTR, &F, &d, px.data(), &e); CK(e); cl_mem di = clCreateImage(cl->ctx, 0, &F, &d, 0, &e); CK(e); cl_mem hi = clCreateImage(cl->ctx, 0, &G, &d, 0, &e); CK(e); vector<cl_mem> fi; for (cl_channel_type t : {CL_UNORM_INT8, CL_SNORM_INT8, CL_UNORM_INT16, CL_SNORM_INT16, CL_FLOAT}) { cl_image_format f = {CL_RGBA, t}; fi.push_back(clCreateImage(cl->ctx, 0, &f, &d, 0, &e)); CK(e); } size_t z[3] = {0, 0, 0}, r[3] = {8, 8, 1}; Capture cap(1);
  cl_kernel kf = cl->kernel(prog, "fl"), kd = cl->kernel(prog, "db"), kh = cl->kernel(prog, "hf"), ki = cl->kernel(prog, "im"), kp = cl->kernel(prog, "pr");
  auto chk = [&](const char* w) { if (csr() != c0 || x87() != w0) { unsigned c = csr(), x = x87(); leave(); if (badEnv.empty()) badEnv = fmt("%s changes the environment (MXCSR %x to %x, x87 %x to %x)", w, c0, c, w0, x); enter(v); c0 = csr(); w0 = x87(); } };
  cl->arg(kf, 0, fa); cl->arg(kf, 1, out); cl->arg(kf, 2, nf); cl->arg(kd, 0, da); cl->arg(kd, 1, out); cl->arg(kd, 2, nd); cl->arg(kh, 0, fa); cl->arg(kh, 1, hb); cl->arg(kh, 2, nf); cl->arg(ki, 0, si); cl->arg(ki, 1, di); cl->arg(ki, 2, ib); cl->arg(ki, 3, fa); cl->arg(ki, 4, nf); cl->arg(kp, 0, fa); cl->arg(kp, 1, nf);
  size_t gf = nf * nf, gd = nd * nd, g64 = 64, g1 = 1, l1 = 1; vector<uint8_t> bf(gf * 128), bd(gd * 128), bh(640), bi(2048), b3(256), b4(512); cl_float4 col = {{0.3337f, 0.50197f, 0.1f, 0.998f}}; fflush(stdout); cap.clear();
  cl_mem of = cl->buf(bf.size()), od = cl->buf(bd.size()); cl->arg(kf, 1, of); cl->arg(kd, 1, od);
  enter(v); c0 = csr(); w0 = x87(); cl_int er[12];
#define DO(i, call) er[i] = call; chk(#call)
  DO(0, clEnqueueNDRangeKernel(cl->q, kf, 1, 0, &gf, &l1, 0, 0, 0)); DO(1, clFinish(cl->q)); DO(2, clEnqueueNDRangeKernel(cl->q, kd, 1, 0, &gd, 0, 0, 0, 0)); DO(3, clEnqueueReadBuffer(cl->q, od, CL_TRUE, 0, bd.size(), bd.data(), 0, 0, 0)); DO(4, clEnqueueNDRangeKernel(cl->q, kh, 1, 0, &g64, 0, 0, 0, 0)); DO(5, clEnqueueNDRangeKernel(cl->q, ki, 1, 0, &g64, 0, 0, 0, 0)); DO(6, clFlush(cl->q)); DO(7, clFinish(cl->q)); DO(8, clEnqueueNDRangeKernel(cl->q, kp, 1, 0, &g1, 0, 0, 0, 0)); DO(9, clFinish(cl->q)); DO(10, clEnqueueFillImage(cl->q, hi, &col, z, r, 0, 0, 0)); DO(11, clFinish(cl->q)); for (auto m : fi) { DO(11, er[11] ? er[11] : clEnqueueFillImage(cl->q, m, &col, z, r, 0, 0, 0)); }
  leave(); for (int i = 0; i < 12; i++) if (er[i]) o["error"] += fmt("call %d: %d ", i, er[i]);
  cl->read(of, bf.data(), bf.size()); cl->read(hb, bh.data(), 640); cl->read(ib, bi.data(), 2048); CK(clEnqueueReadImage(cl->q, di, CL_TRUE, z, r, 0, 0, b3.data(), 0, 0, 0)); CK(clEnqueueReadImage(cl->q, hi, CL_TRUE, z, r, 0, 0, b4.data(), 0, 0, 0)); fflush(stdout); o["printf"] = cap.get();
  auto S = [](const vector<uint8_t>& x) { return string(x.begin(), x.end()); }; o["float"] = S(bf); o["double"] = S(bd); o["half"] = S(bh); o["image read"] = S(bi); o["image write"] = S(b3); o["image fill"] = S(b4);
  for (auto m : fi) { vector<uint8_t> b(1024); CK(clEnqueueReadImage(cl->q, m, CL_TRUE, z, r, 0, 0, b.data(), 0, 0, 0)); o["image fill"] += S(b); clReleaseMemObject(m); }
  for (auto m : {fa, da, out, hb, ib, si, di, hi, of, od}) clReleaseMemObject(m); for (auto k : {kf, kd, kh, ki, kp}) clReleaseKernel(k); return o;
}
static void body(int, char** argv)
{
  stdEnv(argv[1]); env("OCLGRIND_LOG", "/dev/null"); bool T = R->thorough; auto f = [](unsigned u) { float x; memcpy(&x, &u, 4); return x; };
  for (unsigned u : {0u, 0x80000000u, 1u, 0x80000003u, 0x007fffffu, 0x00800000u, 0x00c00001u, 0x3f800000u, 0xbf800001u, 0x3dcccccdu, 0x40490fdbu, 0x3effffffu, 0x3f000000u, 0x40200000u, 0xc0600000u, 0x4b000001u, 0x7f7fffffu, 0x7f800000u, 0x7fc00000u, 0x33800001u}) FV.push_back(f(u));
  DV = {0.0, -0.0, 4.9e-324, 2.2e-308, 1.1125369292536007e-308, 1, -1.0000000000000002, 0.1, 3.141592653589793, 0.5, 2.5, -3.5, 1e10 + 0.3, 1.7e308, 1e-40, 16777217.0, 1.0 / 3};
  for (int cfg = 0; cfg < 3; cfg++)
  {
    bool open = false; Out base;
    for (int rnd : {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) for (int ftz = 0; ftz < 2; ftz++) for (int daz = 0; daz < 2; daz++) for (int trap = 0; trap < 2; trap++)
    {
      if (!T && cfg && (ftz != daz)) continue;
      if (!R->begin(fmt("configuration %d, rounding %x, flush %d, denormals-are-zero %d, traps %d", cfg, rnd, ftz, daz, trap))) continue;
      if (!open) { env("OCLGRIND_NUM_THREADS", cfg == 1 ? "3" : "1"); for (auto v : {"OCLGRIND_DATA_RACES", "OCLGRIND_UNINITIALIZED", "OCLGRIND_CHECK_API"}) if (cfg == 2) env(v, "1"); else unsetenv(v); cl = new CL; prog = cl->build(SRC); base = run({FE_TONEAREST, false, false, false}); open = true; if (base.count("error")) R->internal("calls fail: " + base["error"]);
        // the default results of the basic operations are IEEE's (no operation leaves another rounding mode behind for the next work-item)
        auto same = [](double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }; const uint32_t* fr = (const uint32_t*)base["float"].data(); const uint64_t* dr = (const uint64_t*)base["double"].data(); size_t nf = FV.size(), nd = DV.size();
        for (size_t i = 0; i < nf * nf; i++) { volatile float a = FV[i / nf], b = FV[i % nf]; float w[4] = {a + b, a - b, a * b, a / b}; for (int j = 0; j < 4; j++) { float g; memcpy(&g, fr + i * 32 + j, 4); if (!same(g, w[j])) R->fail("default:float", R->curCase + fmt(": operation %d of %a and %a gives %a instead of %a", j, a, b, g, w[j])); } }
        for (size_t i = 0; i < nd * nd; i++) { volatile double a = DV[i / nd], b = DV[i % nd]; double w[4] = {a + b, a - b, a * b, a / b}; for (int j = 0; j < 4; j++) { double g; memcpy(&g, dr + i * 16 + j, 8); if (!same(g, w[j])) R->fail("default:double", R->curCase + fmt(": operation %d of %a and %a gives %a instead of %a", j, a, b, g, w[j])); } } }
      R->count("states"); R->count("transitions", 12); Out o = run({rnd, (bool)ftz, (bool)daz, (bool)trap}); if (!badEnv.empty()) R->fail("environment", R->curCase + ": " + badEnv);
      for (auto& x : o) if (x.second != base[x.first]) { size_t i = 0, n = 0; while (i < x.second.size() && i < base[x.first].size() && x.second[i] == base[x.first][i]) i++; for (size_t k = 0; k < std::min(x.second.size(), base[x.first].size()); k++) n += x.second[k] != base[x.first][k]; R->fail("result:" + x.first, R->curCase + ": results of '" + x.first + fmt("' differ from those in the default environment (first at byte %zu, %zu bytes)", i, n)); }
      R->count("traces_validated_against_impl"); 
    }
    if (open) { clReleaseProgram(prog); cl->destroy(); delete cl; }
  }
}
VF_MAIN(body)
