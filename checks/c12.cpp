// C12: images. Every image type, format, small size, sampler and coordinate of a grid is read, every texel written,
// every fill colour applied, and compared with the formulas of the OpenCL specification (section 8).
#include "vf.hpp"
#include <cmath>
#include <algorithm>
using namespace vf;
static CL* cl;

struct Type { const char* name; cl_mem_object_type t; int dims; bool array; const char* cl; };
static const Type TYPES[] = {
  {"1d", CL_MEM_OBJECT_IMAGE1D, 1, false, "image1d_t"}, {"1db", CL_MEM_OBJECT_IMAGE1D_BUFFER, 1, false, "image1d_buffer_t"},
  {"1da", CL_MEM_OBJECT_IMAGE1D_ARRAY, 1, true, "image1d_array_t"}, {"2d", CL_MEM_OBJECT_IMAGE2D, 2, false, "image2d_t"},
  {"2da", CL_MEM_OBJECT_IMAGE2D_ARRAY, 2, true, "image2d_array_t"}, {"3d", CL_MEM_OBJECT_IMAGE3D, 3, false, "image3d_t"}};
struct Fmt { cl_channel_order o; cl_channel_type t; };
static int nch(cl_channel_order o) { switch (o) { case CL_R: case CL_Rx: case CL_A: case CL_INTENSITY: case CL_LUMINANCE: return 1; case CL_RG: case CL_RGx: case CL_RA: return 2; default: return 4; } }
static int csz(cl_channel_type t) { switch (t) { case CL_SNORM_INT8: case CL_UNORM_INT8: case CL_SIGNED_INT8: case CL_UNSIGNED_INT8: return 1; case CL_SNORM_INT16: case CL_UNORM_INT16: case CL_SIGNED_INT16: case CL_UNSIGNED_INT16: case CL_HALF_FLOAT: return 2; default: return 4; } }
static char cls(cl_channel_type t) { switch (t) { case CL_SIGNED_INT8: case CL_SIGNED_INT16: case CL_SIGNED_INT32: return 'i'; case CL_UNSIGNED_INT8: case CL_UNSIGNED_INT16: case CL_UNSIGNED_INT32: return 'u'; default: return 'f'; } }
// position in memory of each of R,G,B,A; -1 absent (reads 0), -2 absent (reads 1)
static void layout(cl_channel_order o, int m[4])
{
  auto s = [&](int r, int g, int b, int a) { m[0] = r; m[1] = g; m[2] = b; m[3] = a; };
  switch (o)
  {
  case CL_R: case CL_Rx: s(0, -1, -1, -2); break;
  case CL_A: s(-1, -1, -1, 0); break;
  case CL_RG: case CL_RGx: s(0, 1, -1, -2); break;
  case CL_RA: s(0, -1, -1, 1); break;
  case CL_RGBA: s(0, 1, 2, 3); break;
  case CL_BGRA: s(2, 1, 0, 3); break;
  case CL_ARGB: s(1, 2, 3, 0); break;
  case CL_INTENSITY: s(0, 0, 0, 0); break;
  case CL_LUMINANCE: s(0, 0, 0, -2); break;
  }
}
static double halfToD(uint16_t h)
{
  int e = (h >> 10) & 31, m = h & 1023; double v = e == 31 ? (m ? NAN : INFINITY) : e ? ldexp(1024 + m, e - 25) : ldexp(m, -24);
  return h & 0x8000 ? -v : v;
}
static double decode(const uint8_t* p, cl_channel_type t)
{
  switch (t)
  {
  case CL_SNORM_INT8: return std::max(-1.0, *(int8_t*)p / 127.0);
  case CL_UNORM_INT8: return *p / 255.0;
  case CL_SNORM_INT16: return std::max(-1.0, *(int16_t*)p / 32767.0);
  case CL_UNORM_INT16: return *(uint16_t*)p / 65535.0;
  case CL_SIGNED_INT8: return *(int8_t*)p;
  case CL_SIGNED_INT16: return *(int16_t*)p;
  case CL_SIGNED_INT32: return *(int32_t*)p;
  case CL_UNSIGNED_INT8: return *p;
  case CL_UNSIGNED_INT16: return *(uint16_t*)p;
  case CL_UNSIGNED_INT32: return *(uint32_t*)p;
  case CL_FLOAT: return *(float*)p;
  case CL_HALF_FLOAT: return halfToD(*(uint16_t*)p);
  }
  return 0;
}
static string fname(const Fmt& f)
{
  static const std::map<int, string> O{{CL_R, "R"}, {CL_Rx, "Rx"}, {CL_A, "A"}, {CL_RG, "RG"}, {CL_RGx, "RGx"}, {CL_RA, "RA"}, {CL_RGBA, "RGBA"}, {CL_INTENSITY, "I"}, {CL_LUMINANCE, "L"}, {CL_ARGB, "ARGB"}, {CL_BGRA, "BGRA"}};
  static const std::map<int, string> T{{CL_SNORM_INT8, "snorm8"}, {CL_SNORM_INT16, "snorm16"}, {CL_UNORM_INT8, "unorm8"}, {CL_UNORM_INT16, "unorm16"}, {CL_SIGNED_INT8, "s8"}, {CL_SIGNED_INT16, "s16"}, {CL_SIGNED_INT32, "s32"}, {CL_UNSIGNED_INT8, "u8"}, {CL_UNSIGNED_INT16, "u16"}, {CL_UNSIGNED_INT32, "u32"}, {CL_FLOAT, "float"}, {CL_HALF_FLOAT, "half"}};
  return (O.count(f.o) ? O.at(f.o) : fmt("order%x", f.o)) + "-" + (T.count(f.t) ? T.at(f.t) : fmt("type%x", f.t));
}
struct Img
{
  const Type* ty; Fmt f; int w, h, d, n; cl_mem m = 0, buf = 0; vector<uint8_t> data;
  int ps() const { return nch(f.o) * csz(f.t); }
  size_t texels() const { return (size_t)w * h * d * n; }
  size_t off(int x, int y, int z, int l) const { return (((size_t)(l * d + z) * h + y) * w + x) * ps(); }
  void region(size_t r[3]) const { r[0] = w; r[1] = ty->dims == 1 && ty->array ? n : h; r[2] = ty->dims == 2 && ty->array ? n : d; }
  bool make()
  {
    cl_image_format cf{f.o, f.t}; cl_image_desc de{}; de.image_type = ty->t; de.image_width = w; de.image_height = ty->dims > 1 ? h : 0; de.image_depth = ty->dims > 2 ? d : 0; de.image_array_size = ty->array ? n : 0; cl_int e;
    if (ty->t == CL_MEM_OBJECT_IMAGE1D_BUFFER) { buf = cl->buf(data.size(), data.data()); de.buffer = buf; m = clCreateImage(cl->ctx, CL_MEM_READ_WRITE, &cf, &de, 0, &e); }
    else m = clCreateImage(cl->ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, &cf, &de, data.data(), &e);
    return e == CL_SUCCESS;
  }
  void read(vector<uint8_t>& out) { out.assign(data.size(), 0xEE); size_t o[3] = {0, 0, 0}, r[3]; region(r); CK(clEnqueueReadImage(cl->q, m, CL_TRUE, o, r, 0, 0, out.data(), 0, 0, 0)); }
  void write(const vector<uint8_t>& v) { size_t o[3] = {0, 0, 0}, r[3]; region(r); CK(clEnqueueWriteImage(cl->q, m, CL_TRUE, o, r, 0, 0, v.data(), 0, 0, 0)); }
  void free() { clReleaseMemObject(m); if (buf) clReleaseMemObject(buf); m = buf = 0; }
  // texel colour, with the border colour outside
  void texel(int x, int y, int z, int l, double c[4]) const
  {
    int mp[4]; layout(f.o, mp);
    if (x < 0 || x >= w || y < 0 || y >= h || z < 0 || z >= d)
    {
      bool one = f.o == CL_R || f.o == CL_RG || f.o == CL_LUMINANCE;
      c[0] = c[1] = c[2] = 0; c[3] = one; return;
    }
    const uint8_t* p = &data[off(x, y, z, l)];
    for (int i = 0; i < 4; i++) c[i] = mp[i] == -1 ? 0 : mp[i] == -2 ? 1 : decode(p + mp[i] * csz(f.t), f.t);
  }
};
static void fillData(Img& im, unsigned salt)
{
  im.data.resize(im.texels() * im.ps()); pattern(im.data, salt);
  size_t n = im.data.size() / csz(im.f.t);
  for (size_t i = 0; i < n; i++)
    switch (im.f.t)
    {
    case CL_FLOAT: ((float*)im.data.data())[i] = ldexpf((int)((i * 37 + salt * 11) % 41) - 20, (int)(i % 5) - 3); break;
    case CL_HALF_FLOAT: ((uint16_t*)im.data.data())[i] = (uint16_t)(((i * 2731 + salt * 977) & 0xffff) & ~0x4000) | (uint16_t)((i & 1) << 12); if ((((uint16_t*)im.data.data())[i] & 0x7c00) == 0x7c00) ((uint16_t*)im.data.data())[i] ^= 0x0400; break;
    default: break;
    }
  // extremes of the channel type appear too
  if (csz(im.f.t) == 1) { im.data[0] = 0x80; if (n > 3) { im.data[n / 2] = 0x7f; im.data[n - 1] = 0xff; im.data[1] = 0; } }
  else if (csz(im.f.t) == 2 && im.f.t != CL_HALF_FLOAT) { auto p = (uint16_t*)im.data.data(); p[0] = 0x8000; if (n > 3) { p[n / 2] = 0x7fff; p[n - 1] = 0xffff; p[1] = 0; } }
  else if (im.f.t == CL_SIGNED_INT32 || im.f.t == CL_UNSIGNED_INT32) { auto p = (uint32_t*)im.data.data(); p[0] = 0x80000000; if (n > 3) { p[n / 2] = 0x7fffffff; p[n - 1] = 0xffffffff; p[1] = 0; } }
}
struct Smp { bool norm; cl_addressing_mode a; cl_filter_mode f; };
static string sname(const Smp& s)
{
  return string(s.norm ? "n" : "u") + (s.a == CL_ADDRESS_NONE ? "none" : s.a == CL_ADDRESS_CLAMP ? "clamp" : s.a == CL_ADDRESS_CLAMP_TO_EDGE ? "edge" : s.a == CL_ADDRESS_REPEAT ? "repeat" : "mirror") + (s.f == CL_FILTER_LINEAR ? "L" : "N");
}
static string slit(const Smp& s)
{
  return string(s.norm ? "CLK_NORMALIZED_COORDS_TRUE" : "CLK_NORMALIZED_COORDS_FALSE") + "|" + (s.a == CL_ADDRESS_NONE ? "CLK_ADDRESS_NONE" : s.a == CL_ADDRESS_CLAMP ? "CLK_ADDRESS_CLAMP" : s.a == CL_ADDRESS_CLAMP_TO_EDGE ? "CLK_ADDRESS_CLAMP_TO_EDGE" : s.a == CL_ADDRESS_REPEAT ? "CLK_ADDRESS_REPEAT" : "CLK_ADDRESS_MIRRORED_REPEAT") + "|" + (s.f == CL_FILTER_LINEAR ? "CLK_FILTER_LINEAR" : "CLK_FILTER_NEAREST");
}
// Address computation of one dimension; false when the specification leaves the result open.
static bool addr1(const Smp& s, double c, int size, int idx[2], double& frac, bool& exact)
{
  double u = s.norm ? c * size : c;
  if (s.f == CL_FILTER_NEAREST)
  {
    frac = 0;
    switch (s.a)
    {
    case CL_ADDRESS_NONE: idx[0] = (int)floor(u); if (idx[0] < 0 || idx[0] >= size) return false; break;
    case CL_ADDRESS_CLAMP: idx[0] = std::clamp((int)floor(u), -1, size); break;
    case CL_ADDRESS_CLAMP_TO_EDGE: idx[0] = std::clamp((int)floor(u), 0, size - 1); break;
    case CL_ADDRESS_REPEAT: idx[0] = (int)floor((c - floor(c)) * size); if (idx[0] > size - 1) idx[0] -= size; break;
    default: { double r = fabs(2.0 * rint(0.5 * c) - c); idx[0] = std::min((int)floor(r * size), size - 1); }
    }
    idx[1] = idx[0]; return true;
  }
  switch (s.a)
  {
  case CL_ADDRESS_REPEAT: u = (c - floor(c)) * size; break;
  case CL_ADDRESS_MIRRORED_REPEAT: u = fabs(2.0 * rint(0.5 * c) - c) * size; break;
  }
  int i0 = (int)floor(u - 0.5), i1 = i0 + 1; frac = u - 0.5 - floor(u - 0.5);
  switch (s.a)
  {
  case CL_ADDRESS_NONE: if (i0 < 0 || i1 >= size) return false; break;
  case CL_ADDRESS_CLAMP: i0 = std::clamp(i0, -1, size); i1 = std::clamp(i1, -1, size); break;
  case CL_ADDRESS_CLAMP_TO_EDGE: i0 = std::clamp(i0, 0, size - 1); i1 = std::clamp(i1, 0, size - 1); break;
  case CL_ADDRESS_REPEAT: if (i0 < 0) i0 += size; if (i1 > size - 1) i1 -= size; break;
  default: i0 = std::max(i0, 0); i1 = std::min(i1, size - 1);
  }
  idx[0] = i0; idx[1] = i1; return true;
}
static bool reference(const Img& im, const Smp& s, const float* c, double out[4], double& scale)
{
  int D = im.ty->dims, sz[3] = {im.w, im.h, im.d}, ix[3][2] = {{0, 0}, {0, 0}, {0, 0}}; double fr[3] = {0, 0, 0}; bool ex = true; int l = 0;
  for (int i = 0; i < D; i++) if (!addr1(s, c[i], sz[i], ix[i], fr[i], ex)) return false;
  if (im.ty->array) l = std::clamp((int)rint((double)c[D]), 0, im.n - 1);
  for (int i = 0; i < 4; i++) out[i] = 0;
  scale = 0;
  for (int b = 0; b < (s.f == CL_FILTER_LINEAR ? 1 << D : 1); b++)
  {
    double w = 1, t[4]; int p[3] = {0, 0, 0};
    for (int i = 0; i < D; i++) { int hi = (b >> i) & 1; p[i] = ix[i][hi]; if (s.f == CL_FILTER_LINEAR) w *= hi ? fr[i] : 1 - fr[i]; }
    im.texel(p[0], p[1], p[2], l, t);
    for (int i = 0; i < 4; i++) { out[i] += w * t[i]; scale = std::max(scale, fabs(t[i])); }
  }
  return true;
}
static string g_src;
static cl_program g_prog;
static string coordExpr(const Type& t, char ct)
{
  int n = t.dims + t.array; string v = ct == 'f' ? "float" : "int";
  if (n == 1) return "c[0]";
  return "(" + v + (n == 2 ? "2)(c[0], c[1])" : "4)(c[0], c[1], c[2], 0)");
}
static const char FN[3] = {'f', 'i', 'u'};
static string fnName(char f) { return f == 'f' ? "f" : f == 'i' ? "i" : "ui"; }
static string vecT(char f) { return f == 'f' ? "float4" : f == 'i' ? "int4" : "uint4"; }
static vector<Smp> allSamplers()
{
  vector<Smp> v;
  for (int n = 0; n < 2; n++)
    for (auto a : {CL_ADDRESS_NONE, CL_ADDRESS_CLAMP, CL_ADDRESS_CLAMP_TO_EDGE, CL_ADDRESS_REPEAT, CL_ADDRESS_MIRRORED_REPEAT})
      for (auto f : {CL_FILTER_NEAREST, CL_FILTER_LINEAR})
        if (n || (a != CL_ADDRESS_REPEAT && a != CL_ADDRESS_MIRRORED_REPEAT)) v.push_back({(bool)n, (cl_addressing_mode)a, (cl_filter_mode)f});
  return v;
}
static void makeProgram()
{
  string s;
  for (auto& t : TYPES)
    for (char f : FN)
    {
      string acc = string("(") + t.cl;
      for (char c : {'f', 'i'}) // with sampler, float and integer coordinates
        if (t.t != CL_MEM_OBJECT_IMAGE1D_BUFFER)
          s += fmt("kernel void rs_%s_%c_%c(read_only %s im, sampler_t s, global const %s *cs, global %s *out) { size_t g = get_global_id(0); global const %s *c = cs + 4*g; out[g] = read_image%s(im, s, %s); }\n", t.name, f, c, t.cl, c == 'f' ? "float" : "int", vecT(f).c_str(), c == 'f' ? "float" : "int", fnName(f).c_str(), coordExpr(t, c).c_str());
      s += fmt("kernel void rn_%s_%c(read_only %s im, global const int *cs, global %s *out) { size_t g = get_global_id(0); global const int *c = cs + 4*g; out[g] = read_image%s(im, %s); }\n", t.name, f, t.cl, vecT(f).c_str(), fnName(f).c_str(), coordExpr(t, 'i').c_str());
      if (t.dims < 3 || true)
        s += fmt("%skernel void w_%s_%c(write_only %s im, global const int *cs, global const %s *v) { size_t g = get_global_id(0); global const int *c = cs + 4*g; write_image%s(im, %s, v[g]); }\n", t.dims == 3 ? "\n#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable\n" : "", t.name, f, t.cl, vecT(f).c_str(), fnName(f).c_str(), coordExpr(t, 'i').c_str());
    }
  for (auto& t : TYPES)
  {
    string q = "o[0] = get_image_width(im); o[1] = get_image_channel_data_type(im); o[2] = get_image_channel_order(im);";
    if (t.dims >= 2) q += "o[3] = get_image_height(im); int2 d; ";
    if (t.dims >= 3) q += "o[4] = get_image_depth(im); int4 e = get_image_dim(im); o[6] = e.x; o[7] = e.y; o[8] = e.z; o[9] = e.w;";
    else if (t.dims == 2) q += "d = get_image_dim(im); o[6] = d.x; o[7] = d.y;";
    if (t.array) q += "o[5] = (int)get_image_array_size(im);";
    s += fmt("kernel void qr_%s(read_only %s im, global int *o) { %s }\n", t.name, t.cl, q.c_str());
    s += fmt("kernel void qw_%s(write_only %s im, global int *o) { %s }\n", t.name, t.cl, q.c_str());
  }
  int i = 0;
  for (auto& sm : allSamplers())
  {
    s += fmt("constant sampler_t PS%d = %s;\nkernel void ps_%d(read_only image2d_t im, global const float *cs, global float4 *out) { size_t g = get_global_id(0); global const float *c = cs + 4*g; out[g] = read_imagef(im, PS%d, (float2)(c[0], c[1])); }\n", i, slit(sm).c_str(), i, i);
    s += fmt("kernel void ls_%d(read_only image2d_t im, global const float *cs, global float4 *out) { const sampler_t L = %s; size_t g = get_global_id(0); global const float *c = cs + 4*g; out[g] = read_imagef(im, L, (float2)(c[0], c[1])); }\n", i, slit(sm).c_str());
    i++;
  }
  g_src = s; g_prog = cl->build(s);
}
static std::map<string, cl_kernel> g_k;
static cl_kernel K(const string& n) { auto& k = g_k[n]; if (!k) k = cl->kernel(g_prog, n); return k; }
static vector<float> grid1(const Smp& s, int size, bool thorough)
{
  vector<float> v;
  if (s.norm) { int n = thorough ? 16 : 8; for (int i = -2 * n - 3; i <= 3 * n + 1; i += (i < -n || i > 2 * n) ? 5 : 1) v.push_back(i / (float)n); }
  else { for (int i = -6; i <= 4 * size + 6; i++) v.push_back(i / 4.f); v.push_back(-1000.25f); v.push_back(1e9f); }
  return v;
}
static void coords(const Img& im, const Smp& s, bool thorough, vector<float>& cs)
{
  int D = im.ty->dims; vector<float> ax[3]; int sz[3] = {im.w, im.h, im.d}, n = D + im.ty->array;
  for (int i = 0; i < 3; i++)
  {
    if (i < D) ax[i] = grid1(s, sz[i], thorough && D < 3);
    else if (i == D && im.ty->array) { for (int l = -2; l <= 2 * im.n + 2; l++) ax[i].push_back(l / 2.f + (l % 3 ? 0.25f : 0)); for (int l = -1; l <= im.n; l++) ax[i].push_back(l); }
    else ax[i] = {0};
  }
  // every dimension is swept completely against a thinned grid of the others (the full product for D == 1)
  auto thin = [&](int i, int keep) { vector<float> o; for (size_t k = 0; k < ax[i].size(); k += std::max<size_t>(1, ax[i].size() / keep)) o.push_back(ax[i][k]); return o; };
  for (int f = 0; f < n; f++)
  {
    vector<float> a[3]; for (int i = 0; i < 3; i++) a[i] = i == f || n == 1 ? ax[i] : n == 2 ? (thorough ? ax[i] : thin(i, 12)) : thin(i, thorough ? 9 : 4);
    for (float z : a[2]) for (float y : a[1]) for (float x : a[0]) { cs.push_back(x); cs.push_back(y); cs.push_back(z); cs.push_back(0); }
  }
}
template <class T> static vector<T> run(cl_kernel k, int nargsBefore, const vector<T>& dummy, const void* cs, size_t csz, size_t n, size_t outsz)
{
  cl_mem c = cl->buf(csz, cs), o = cl->buf(n * outsz); vector<T> out(n * outsz / sizeof(T));
  cl->arg(k, nargsBefore, c); cl->arg(k, nargsBefore + 1, o); CK(cl->launch1(k, n, 1)); cl->read(o, out.data(), n * outsz);
  clReleaseMemObject(c); clReleaseMemObject(o); R->count("transitions", n); return out;
}
static bool near(double got, double want, double tol) { return got == want || (std::isnan(got) && std::isnan(want)) || fabs(got - want) <= tol; }
static double valAt(const vector<uint32_t>& o, size_t i, char f) { return f == 'f' ? (double)*(float*)&o[i] : f == 'i' ? (double)(int32_t)o[i] : (double)o[i]; }
static void judge(const Img& im, const Smp& s, const string& key, const vector<uint32_t>& out, const vector<float>& cs)
{
  char f = cls(im.f.t);
  for (size_t g = 0; g < cs.size() / 4; g++)
  {
    double want[4], scale; if (!reference(im, s, &cs[4 * g], want, scale)) continue;
    for (int c = 0; c < 4; c++)
    {
      double got = valAt(out, 4 * g + c, f), tol = 0;
      if (f == 'f') tol = s.f == CL_FILTER_LINEAR ? 1e-5 * scale : (im.f.t == CL_FLOAT || im.f.t == CL_HALF_FLOAT) ? 0 : 3e-7 * fabs(want[c]);
      if (!near(got, want[c], tol))
      {
        R->fail(key, fmt("%s image %dx%dx%d layers %d, sampler %s, coordinate (%g,%g,%g): channel %c is %.9g, expected %.9g", im.ty->name, im.w, im.h, im.d, im.n, sname(s).c_str(), cs[4 * g], cs[4 * g + 1], cs[4 * g + 2], "rgba"[c], got, want[c]));
        return;
      }
    }
  }
}
static cl_sampler mkSampler(const Smp& s) { cl_int e; cl_sampler r = clCreateSampler(cl->ctx, s.norm, s.a, s.f, &e); CK(e); return r; }
static vector<Img> shapes(const Type& t, const Fmt& f)
{
  vector<Img> v; auto add = [&](int w, int h, int d, int n) { Img i; i.ty = &t; i.f = f; i.w = w; i.h = h; i.d = d; i.n = n; v.push_back(i); };
  vector<int> W = R->thorough ? vector<int>{1, 2, 3, 4, 5} : vector<int>{1, 3, 4};
  for (int w : W)
    for (int h : t.dims > 1 ? (R->thorough ? vector<int>{1, 2, 3} : vector<int>{1, 3}) : vector<int>{1})
      for (int d : t.dims > 2 ? vector<int>{1, 2} : vector<int>{1})
        for (int n : t.array ? vector<int>{1, 3} : vector<int>{1}) { if (!R->thorough && w == 4 && (h == 1) && t.dims > 1) continue; add(w, h, d, n); }
  return v;
}
static void readCase(Img im, unsigned salt)
{
  fillData(im, salt);
  if (!im.make()) { R->fail("rejected:" + fname(im.f), "image not created"); return; }
  R->count("traces_validated_against_impl");
  char f = cls(im.f.t); string ty = im.ty->name;
  { vector<uint8_t> back; im.read(back); if (back != im.data) R->fail("host-read", fname(im.f) + " " + ty + ": the host reads back other texels than it supplied"); }
  // sampler-less reads of every texel
  vector<int> ci; vector<float> cf; int D = im.ty->dims;
  for (int l = 0; l < im.n; l++) for (int z = 0; z < im.d; z++) for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++)
  {
    int p[4] = {x, D > 1 ? y : im.ty->array ? l : 0, D > 2 ? z : D == 2 && im.ty->array ? l : 0, 0};
    for (int v : p) { ci.push_back(v); cf.push_back(v); }
  }
  Smp none{false, CL_ADDRESS_NONE, CL_FILTER_NEAREST};
  {
    cl_kernel k = K(fmt("rn_%s_%c", ty.c_str(), f)); cl->arg(k, 0, im.m);
    auto o = run<uint32_t>(k, 1, {}, ci.data(), ci.size() * 4, ci.size() / 4, 16); judge(im, none, "read-samplerless:" + fname(im.f), o, cf);
  }
  if (im.ty->t != CL_MEM_OBJECT_IMAGE1D_BUFFER)
    for (auto& s : allSamplers())
    {
      if (s.f == CL_FILTER_LINEAR && f != 'f') continue;
      cl_sampler so = mkSampler(s);
      {
        vector<float> cs; coords(im, s, R->thorough, cs);
        cl_kernel k = K(fmt("rs_%s_%c_f", ty.c_str(), f)); cl->arg(k, 0, im.m); cl->arg(k, 1, so);
        auto o = run<uint32_t>(k, 2, {}, cs.data(), cs.size() * 4, cs.size() / 4, 16); judge(im, s, "read:" + sname(s) + ":" + ty, o, cs);
      }
      if (!s.norm && s.f == CL_FILTER_NEAREST)
      {
        vector<int> c2; vector<float> f2; int hi[3] = {im.w, D > 1 ? im.h : im.ty->array ? im.n : 1, D > 2 ? im.d : D == 2 && im.ty->array ? im.n : 1}; int n = D + im.ty->array;
        for (int z = n > 2 ? -2 : 0; z <= (n > 2 ? hi[2] + 1 : 0); z++) for (int y = n > 1 ? -2 : 0; y <= (n > 1 ? hi[1] + 1 : 0); y++) for (int x = -2; x <= hi[0] + 1; x++) { for (int v : {x, y, z, 0}) { c2.push_back(v); f2.push_back(v); } }
        cl_kernel k = K(fmt("rs_%s_%c_i", ty.c_str(), f)); cl->arg(k, 0, im.m); cl->arg(k, 1, so);
        auto o = run<uint32_t>(k, 2, {}, c2.data(), c2.size() * 4, c2.size() / 4, 16); judge(im, s, "read-int:" + sname(s) + ":" + ty, o, f2);
      }
      clReleaseSampler(so);
    }
  im.free();
}
// ---- writes and fills: the colour is converted like convert_<type>_sat_rte
static double sat(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static vector<vector<uint8_t>> encode(double v, cl_channel_type t)
{
  vector<vector<uint8_t>> r; auto put = [&](const void* p, int n) { r.push_back(vector<uint8_t>((uint8_t*)p, (uint8_t*)p + n)); };
  auto I = [&](double lo, double hi, double x) { int64_t q = (int64_t)rint(sat(x, lo, hi)); put(&q, csz(t)); };
  switch (t)
  {
  // the product is formed in float or exactly
  case CL_SNORM_INT8: I(-128, 127, v * 127); I(-128, 127, (float)v * 127.f); if (v * 127 < -127) { I(-127, 127, v * 127); } break;
  case CL_UNORM_INT8: I(0, 255, v * 255); I(0, 255, (float)v * 255.f); break;
  case CL_SNORM_INT16: I(-32768, 32767, v * 32767); I(-32768, 32767, (float)v * 32767.f); if (v * 32767 < -32767) { I(-32767, 32767, v * 32767); } break;
  case CL_UNORM_INT16: I(0, 65535, v * 65535); I(0, 65535, (float)v * 65535.f); break;
  case CL_SIGNED_INT8: I(-128, 127, v); break;
  case CL_SIGNED_INT16: I(-32768, 32767, v); break;
  case CL_SIGNED_INT32: I(-2147483648.0, 2147483647.0, v); break;
  case CL_UNSIGNED_INT8: I(0, 255, v); break;
  case CL_UNSIGNED_INT16: I(0, 65535, v); break;
  case CL_UNSIGNED_INT32: I(0, 4294967295.0, v); break;
  case CL_FLOAT: { float f = v; put(&f, 4); break; }
  case CL_HALF_FLOAT:
  {
    // nearest half; every half that is not further away than the nearest one, plus truncation, is accepted
    double best = INFINITY; uint16_t b = 0;
    for (int h = 0; h < 0x7c00; h++) { double d = fabs(halfToD(h) - fabs(v)); if (d < best || (d == best && !(h & 1))) { best = d; b = h; } }
    if (fabs(v) >= 65520) b = 0x7c00;
    uint16_t tr = 0; for (int h = 0; h < 0x7c00; h++) if (halfToD(h) <= fabs(v)) tr = h;
    uint16_t sg = std::signbit(v) ? 0x8000 : 0; b |= sg; tr |= sg; put(&b, 2); put(&tr, 2); break;
  }
  }
  return r;
}
// Checks memory after texel `at` (or all, at<0) received colour v.
static string checkWritten(const Img& im, const vector<uint8_t>& got, const vector<uint8_t>& before, std::function<bool(size_t)> hit, const double v[4])
{
  int mp[4]; layout(im.f.o, mp); int n = nch(im.f.o), cs = csz(im.f.t); int src[4] = {0, 1, 2, 3};
  vector<vector<uint8_t>> enc[4];
  for (int p = 0; p < n; p++) { int c = -1; for (int i = 3; i >= 0; i--) if (mp[i] == p) c = i; src[p] = c; enc[p] = encode(v[c], im.f.t); }
  for (size_t t = 0; t < im.texels(); t++)
    for (int p = 0; p < n; p++)
    {
      size_t o = t * im.ps() + p * cs; vector<uint8_t> g(got.begin() + o, got.begin() + o + cs);
      if (!hit(t)) { if (memcmp(&got[o], &before[o], cs)) return fmt("texel %zu, which was not addressed, changed", t); continue; }
      if (std::find(enc[p].begin(), enc[p].end(), g) == enc[p].end())
      { string a, b; for (auto x : g) a += fmt("%02x", x); for (auto x : enc[p][0]) b += fmt("%02x", x); return fmt("texel %zu component %d (%c) holds %s for value %.9g, expected %s", t, p, "rgba"[src[p]], a.c_str(), v[src[p]], b.c_str()); }
    }
  return "";
}
static vector<double> values(char f, cl_channel_type t)
{
  if (f == 'f')
  {
    if (t == CL_FLOAT) return {0, -0.0, 1, -1, 0.1f, 1e30f, -1e-30f, 16777217.f, 3.4028234e38f, 1.401298464324817e-45};
    if (t == CL_HALF_FLOAT) return {0, -0.0, 1, -2.5, 0.1f, 65504, 6e-8f, 5.96046448e-8f, 0.333333343f, 1000.5, -2049, 65520};
    vector<double> v{0, 1, -1, 2, -2, 0.5, -0.5, 0.25f, 1.0f / 255, 127.f / 255, 254.5f / 255, 0.5f / 255, -0.5f / 127, 126.5f / 127, 1e10f, -1e10f, 0.999999f, 1.0078125f, -1.0078125f, -1.00390625f, 1.00390625f};
    return v;
  }
  if (f == 'i') return {0, 1, -1, 127, 128, 129, -128, -129, 32767, 32768, -32768, -32769, 2147483647.0, -2147483648.0, 255, 256, 65535};
  return {0, 1, 127, 128, 255, 256, 257, 65535, 65536, 2147483647.0, 2147483648.0, 4294967295.0};
}
static void writeCase(Img im, unsigned salt)
{
  fillData(im, salt); if (!im.make()) { R->fail("rejected:" + fname(im.f), "image not created"); return; }
  R->count("traces_validated_against_impl");
  char f = cls(im.f.t); int D = im.ty->dims; auto vals = values(f, im.f.t); vector<uint8_t> got; string ty = im.ty->name;
  cl_kernel k = K(fmt("w_%s_%c", ty.c_str(), f)); cl->arg(k, 0, im.m); size_t vi = 0;
  cl_mem cb = cl->buf(16), vb = cl->buf(16); cl->arg(k, 1, cb); cl->arg(k, 2, vb);
  auto colour = [&](double v[4], uint32_t raw[4]) {
    for (int c = 0; c < 4; c++) { v[c] = vals[(vi + c * 5 + (vi / vals.size())) % vals.size()]; if (f == 'f') { float x = v[c]; memcpy(&raw[c], &x, 4); } else if (f == 'i') raw[c] = (int32_t)v[c]; else raw[c] = (uint32_t)v[c]; }
    vi++;
  };
  size_t T = im.texels(), rounds = std::max(T, vals.size());
  for (size_t r = 0; r < rounds; r++)
  {
    size_t t = r % T; int x = t % im.w, y = t / im.w % im.h, z = t / im.w / im.h % im.d, l = t / im.w / im.h / im.d;
    int p[4] = {x, D > 1 ? y : im.ty->array ? l : 0, D > 2 ? z : D == 2 && im.ty->array ? l : 0, 0};
    double v[4]; uint32_t raw[4]; colour(v, raw);
    im.write(im.data); cl->write(cb, p, 16); cl->write(vb, raw, 16); CK(cl->launch1(k, 1, 1)); R->count("transitions"); im.read(got);
    string e = checkWritten(im, got, im.data, [&](size_t q) { return q == t; }, v); if (e.size()) { R->fail("write:" + fname(im.f), ty + fmt(" %dx%dx%dx%d: ", im.w, im.h, im.d, im.n) + e); break; }
  }
  // fills of every origin/region with every colour in turn
  size_t full[3]; im.region(full); bool stop = im.ty->t == CL_MEM_OBJECT_IMAGE1D_BUFFER;
  size_t did = 0;
  for (size_t oz = 0; oz < full[2] && !stop; oz++) for (size_t oy = 0; oy < full[1] && !stop; oy++) for (size_t ox = 0; ox < full[0] && !stop; ox++)
    for (size_t rz = 1; rz + oz <= full[2] && !stop; rz++) for (size_t ry = 1; ry + oy <= full[1] && !stop; ry++) for (size_t rx = 1; rx + ox <= full[0] && !stop; rx++)
    {
      if (!R->thorough && did++ > vals.size() + 8) continue;
      double v[4]; uint32_t raw[4]; colour(v, raw); size_t o[3] = {ox, oy, oz}, r[3] = {rx, ry, rz};
      im.write(im.data); CK(clEnqueueFillImage(cl->q, im.m, raw, o, r, 0, 0, 0)); CK(clFinish(cl->q)); R->count("transitions"); im.read(got);
      string e = checkWritten(im, got, im.data, [&](size_t q) { size_t x = q % full[0], y = q / full[0] % full[1], z = q / full[0] / full[1]; return x >= ox && x < ox + rx && y >= oy && y < oy + ry && z >= oz && z < oz + rz; }, v);
      if (e.size()) { R->fail("fill:" + fname(im.f), ty + ": " + e); stop = true; }
    }
  clReleaseMemObject(cb); clReleaseMemObject(vb); im.free();
}
static void queryCase(Img im)
{
  fillData(im, 1); if (!im.make()) { R->fail("rejected:" + fname(im.f), "image not created"); return; }
  R->count("traces_validated_against_impl");
  int exp[10]; for (int& e : exp) e = -77;
  exp[0] = im.w; exp[1] = im.f.t; exp[2] = im.f.o; if (im.ty->dims >= 2) { exp[3] = im.h; exp[6] = im.w; exp[7] = im.h; } if (im.ty->dims == 3) { exp[4] = im.d; exp[8] = im.d; exp[9] = 0; } if (im.ty->array) exp[5] = im.n;
  for (char a : {'r', 'w'})
  {
    int init[10], got[10]; for (int& e : init) e = -77; cl_mem o = cl->buf(sizeof init, init); cl_kernel k = K(fmt("q%c_%s", a, im.ty->name)); cl->arg(k, 0, im.m); cl->arg(k, 1, o); CK(cl->launch1(k, 1, 1)); cl->read(o, got, sizeof got); clReleaseMemObject(o); R->count("transitions");
    static const char* Q[] = {"width", "channel data type", "channel order", "height", "depth", "array size", "dim.x", "dim.y", "dim.z", "dim.w"};
    for (int i = 0; i < 10; i++) if (got[i] != exp[i]) { R->fail(string("query:") + Q[i], fmt("%s image: %s is %d, expected %d", im.ty->name, Q[i], got[i], exp[i])); break; }
  }
  im.free();
}
static void literalCase(Img im, int si, const Smp& s)
{
  fillData(im, 5); if (!im.make()) R->internal("literal"); R->count("traces_validated_against_impl");
  vector<float> cs; coords(im, s, true, cs);
  for (const char* kind : {"ps", "ls"})
  {
    cl_kernel k = K(fmt("%s_%d", kind, si)); cl->arg(k, 0, im.m);
    auto o = run<uint32_t>(k, 1, {}, cs.data(), cs.size() * 4, cs.size() / 4, 16); judge(im, s, string("literal-sampler:") + kind + ":" + sname(s), o, cs);
  }
  im.free();
}
static void mainC12(int argc, char** argv)
{
  stdEnv(argv[1], "1"); cl = new CL; makeProgram();
  cl_uint n; CK(clGetSupportedImageFormats(cl->ctx, CL_MEM_READ_WRITE, CL_MEM_OBJECT_IMAGE2D, 0, 0, &n)); vector<cl_image_format> fs(n); CK(clGetSupportedImageFormats(cl->ctx, CL_MEM_READ_WRITE, CL_MEM_OBJECT_IMAGE2D, n, fs.data(), 0));
  std::set<std::pair<int, int>> have; for (auto& f : fs) have.insert({(int)f.image_channel_order, (int)f.image_channel_data_type});
  auto req = [&](std::initializer_list<int> os, std::initializer_list<int> ts) { for (int o : os) for (int t : ts) if (!have.count({o, t}) && R->begin(fmt("format %x %x", o, t))) R->fail("format-missing", "required format not reported"); };
  req({CL_RGBA}, {CL_UNORM_INT8, CL_UNORM_INT16, CL_SIGNED_INT8, CL_SIGNED_INT16, CL_SIGNED_INT32, CL_UNSIGNED_INT8, CL_UNSIGNED_INT16, CL_UNSIGNED_INT32, CL_HALF_FLOAT, CL_FLOAT}); req({CL_BGRA}, {CL_UNORM_INT8});
  auto sm = allSamplers();
  Capture cap; unsigned salt = 0;
  for (auto& ft : have)
  {
    Fmt f{(cl_channel_order)ft.first, (cl_channel_type)ft.second};
    bool deep = R->thorough || f.t == CL_FLOAT || f.o == CL_RGBA;
    for (auto& t : TYPES)
      for (auto& im : shapes(t, f))
      {
        salt++;
        string g = fmt("%s/%s/%dx%dx%dx%d", fname(f).c_str(), t.name, im.w, im.h, im.d, im.n);
        if (!deep && !(im.w == 3 && (t.dims == 1 || im.h == 3) && (!t.array || im.n == 3) && (t.dims < 3 || im.d == 2))) continue;
        auto go = [&](const string& id, std::function<void()> fn) { if (!R->begin(id)) return; cap.clear(); fn(); string e = cap.get(); if (e.size()) R->fail("diagnostic", "unexpected output: " + e.substr(0, 300)); };
        go("r/" + g, [&] { readCase(im, salt); });
        go("w/" + g, [&] { writeCase(im, salt); });
        if (f.t == CL_FLOAT || f.o == CL_RGBA) go("q/" + g, [&] { queryCase(im); });
        if (f.o == CL_RGBA && f.t == CL_FLOAT && t.dims == 2 && !t.array) for (size_t i = 0; i < sm.size(); i++) go("l/" + g + "/" + sname(sm[i]), [&] { literalCase(im, i, sm[i]); });
      }
  }
}
VF_MAIN(mainC12)
