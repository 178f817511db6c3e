// C27: info queries report exactly what an object is. Every kind of object is created with every combination of its parameters and
// every query is made in every form (size only, exact, larger, too small, nothing wanted); values and untouched bytes are compared.
#include "vf.hpp"
#include <algorithm>
#include <functional>
#include <set>
#include <map>
#include <sys/wait.h>
using namespace vf;
typedef vector<uint8_t> Bytes;
typedef std::function<cl_int(size_t, void*, size_t*)> Get;
static CL* cl;
template <class T> static Bytes val(const T& v) { Bytes b(sizeof v); memcpy(b.data(), &v, sizeof v); return b; }
static Bytes str(const string& s) { Bytes b(s.begin(), s.end()); b.push_back(0); return b; }
static string hex(const Bytes& b) { string s; for (size_t i = 0; i < b.size() && i < 48; i++) s += fmt("%02x", b[i]); return s; }
// Retrieves a value in all forms; false when the forms disagree with each other.
static bool forms(const string& what, const Get& get, Bytes& out)
{
  auto bad = [&](const string& m) { R->fail("form:" + what.substr(0, what.find('=')), R->curCase + ": " + what + ": " + m); return false; };
  size_t n = ~(size_t)0; cl_int e = get(0, 0, &n); R->count("transitions", 5);
  if (e) return bad(fmt("size query fails with %d", e)); if (n == ~(size_t)0 || n > 1 << 20) return bad(fmt("size query gives %zu", n));
  for (int form = 0; form < 4; form++)
  {
    Bytes b(n + 64, 0xC5); size_t n2 = ~(size_t)0, ask = form == 0 ? n : form == 1 ? n : form == 2 ? n + 5 : n - 1;
    if (form == 3 && !n) continue;
    e = get(ask, b.data(), form == 0 || form == 2 ? &n2 : 0);
    if (form == 3) { if (e != CL_INVALID_VALUE) return bad(fmt("a destination of %zu bytes for %zu gives %d", ask, n, e)); for (auto x : b) if (x != 0xC5) return bad("a refused query wrote to the destination"); continue; }
    if (e) return bad(fmt("query with %zu bytes for %zu fails with %d", ask, n, e));
    if ((form == 0 || form == 2) && n2 != n) return bad(fmt("returned size is %zu, size query gave %zu", n2, n));
    for (size_t i = n; i < b.size(); i++) if (b[i] != 0xC5) return bad(fmt("byte %zu of a %zu byte value was written", i, n));
    b.resize(n); if (form == 0) out = b; else if (out != b) return bad("forms of the query give different values: " + hex(out) + " / " + hex(b));
  }
  if (get(0, 0, 0)) return bad("a query for nothing fails");
  return true;
}
static void q(const string& what, const Get& get, const Bytes& want)
{
  Bytes b; if (!forms(what, get, b)) return;
  if (b != want) R->fail("value:" + what.substr(0, what.find('=')), R->curCase + ": " + what + " is " + hex(b) + ", expected " + hex(want)); else R->count("traces_validated_against_impl");
}
static void qtext(const string& what, const Get& get, const std::function<bool(const string&)>& ok, const string& expl)
{
  Bytes b; if (!forms(what, get, b)) return;
  if (b.empty() || b.back() || strlen((char*)b.data()) + 1 != b.size()) { R->fail("text:" + what, R->curCase + ": " + what + " is not a terminated string: " + hex(b)); return; }
  if (!ok((char*)b.data())) R->fail("value:" + what, R->curCase + ": " + what + " is \"" + (char*)b.data() + "\", expected " + expl); else R->count("traces_validated_against_impl");
}
#define G_(call) [&](size_t n_, void* p_, size_t* r_) { return call; }
#define MEM(m, x) G_(clGetMemObjectInfo(m, x, n_, p_, r_))
#define IMG(m, x) G_(clGetImageInfo(m, x, n_, p_, r_))
static void mem(cl_mem m, cl_mem_object_type t, cl_mem_flags f, size_t size, void* hp, cl_mem parent, size_t off, const vector<cl_mem_properties>& props)
{
  q("CL_MEM_TYPE", MEM(m, CL_MEM_TYPE), val(t)); q("CL_MEM_FLAGS", MEM(m, CL_MEM_FLAGS), val(f)); if (t != CL_MEM_OBJECT_IMAGE1D_BUFFER) q("CL_MEM_SIZE", MEM(m, CL_MEM_SIZE), val(size)); q("CL_MEM_HOST_PTR", MEM(m, CL_MEM_HOST_PTR), val(hp));
  q("CL_MEM_CONTEXT", MEM(m, CL_MEM_CONTEXT), val(cl->ctx)); q("CL_MEM_ASSOCIATED_MEMOBJECT", MEM(m, CL_MEM_ASSOCIATED_MEMOBJECT), val(parent)); q("CL_MEM_OFFSET", MEM(m, CL_MEM_OFFSET), val(off));
  q("CL_MEM_USES_SVM_POINTER", MEM(m, CL_MEM_USES_SVM_POINTER), val((cl_bool)CL_FALSE)); q("CL_MEM_MAP_COUNT", MEM(m, CL_MEM_MAP_COUNT), val((cl_uint)0));
  Bytes p((uint8_t*)props.data(), (uint8_t*)(props.data() + props.size())); q("CL_MEM_PROPERTIES", MEM(m, CL_MEM_PROPERTIES), p);
}
static const cl_mem_flags RW[] = {0, CL_MEM_READ_WRITE, CL_MEM_READ_ONLY, CL_MEM_WRITE_ONLY}, HP[] = {0, CL_MEM_USE_HOST_PTR, CL_MEM_COPY_HOST_PTR, CL_MEM_ALLOC_HOST_PTR, CL_MEM_ALLOC_HOST_PTR | CL_MEM_COPY_HOST_PTR}, HA[] = {0, CL_MEM_HOST_WRITE_ONLY, CL_MEM_HOST_READ_ONLY, CL_MEM_HOST_NO_ACCESS};
static void buffers()
{
  static long double store[64];
  for (auto rw : RW) for (auto hp : HP) for (auto ha : HA) for (size_t n : {1, 7, 16, 512}) for (int how = 0; how < 3; how++)
  {
    cl_mem_flags f = rw | hp | ha; if (!R->begin(fmt("buffer/%lx/%zu/%d", (long)f, n, how))) continue;
    void* p = hp & (CL_MEM_USE_HOST_PTR | CL_MEM_COPY_HOST_PTR) ? store : 0; cl_int e; cl_mem_properties none[] = {0};
    cl_mem m = how == 0 ? clCreateBuffer(cl->ctx, f, n, p, &e) : clCreateBufferWithProperties(cl->ctx, how == 1 ? 0 : none, f, n, p, &e); if (e) { R->fail("create", R->curCase + fmt(": %d", e)); continue; }
    cl_mem_flags fe = f; Bytes fb; forms("CL_MEM_FLAGS", MEM(m, CL_MEM_FLAGS), fb); if (!rw && fb == val(f | CL_MEM_READ_WRITE)) fe |= CL_MEM_READ_WRITE; // the default may be made explicit
    mem(m, CL_MEM_OBJECT_BUFFER, fe, n, hp & CL_MEM_USE_HOST_PTR ? store : 0, 0, 0, how == 2 ? vector<cl_mem_properties>{0} : vector<cl_mem_properties>{});
    if (n == 512 && how == 0)
      for (auto srw : RW) for (auto sha : HA) for (size_t o : {0, 128, 256}) for (size_t sn : {1, 100, 256})
      {
        if ((rw == CL_MEM_READ_ONLY && srw && srw != CL_MEM_READ_ONLY) || (rw == CL_MEM_WRITE_ONLY && srw && srw != CL_MEM_WRITE_ONLY)) continue;
        if ((ha == CL_MEM_HOST_NO_ACCESS && sha && sha != ha) || ((ha == CL_MEM_HOST_READ_ONLY || ha == CL_MEM_HOST_WRITE_ONLY) && sha && sha != ha && sha != CL_MEM_HOST_NO_ACCESS)) continue;
        cl_buffer_region r = {o, sn}; cl_mem s = clCreateSubBuffer(m, srw | sha, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); if (e) { R->fail("create-sub", R->curCase + fmt("/%lx: %d", (long)(srw | sha), e)); continue; }
        // Flags not given are inherited; host pointer flags always are
        cl_mem_flags sf = (srw ? srw : rw) | (sha ? sha : ha) | hp; Bytes sb; forms("CL_MEM_FLAGS", MEM(s, CL_MEM_FLAGS), sb); if (!srw && !rw && sb == val(sf | CL_MEM_READ_WRITE)) sf |= CL_MEM_READ_WRITE;
        mem(s, CL_MEM_OBJECT_BUFFER, sf, sn, hp & CL_MEM_USE_HOST_PTR ? (char*)store + o : 0, m, o, {}); clReleaseMemObject(s);
      }
    clReleaseMemObject(m);
  }
  // Map counts along every sequence of up to five map/unmap commands with at most three mappings
  int D = R->thorough ? 7 : 5;
  for (int len = 1; len <= D; len++) for (int bits = 0; bits < 1 << len; bits++)
  {
    if (!R->begin(fmt("mapcount/%d/%x", len, bits))) continue;
    cl_mem m = cl->buf(64); vector<void*> v; cl_int e;
    for (int i = 0; i < len; i++)
    {
      if (bits >> i & 1) { if (v.size() == 3) break; v.push_back(clEnqueueMapBuffer(cl->q, m, CL_TRUE, CL_MAP_READ, 8 * v.size(), 8, 0, 0, 0, &e)); CK(e); }
      else { if (v.empty()) break; CK(clEnqueueUnmapMemObject(cl->q, m, v.back(), 0, 0, 0)); CK(clFinish(cl->q)); v.pop_back(); }
      q(fmt("CL_MEM_MAP_COUNT=%zu", v.size()), MEM(m, CL_MEM_MAP_COUNT), val((cl_uint)v.size()));
    }
    for (void* p : v) CK(clEnqueueUnmapMemObject(cl->q, m, p, 0, 0, 0)); CK(clFinish(cl->q)); clReleaseMemObject(m);
  }
}
static size_t texel(cl_image_format f)
{
  static const std::map<cl_uint, int> ch = {{CL_R, 1}, {CL_Rx, 1}, {CL_A, 1}, {CL_INTENSITY, 1}, {CL_LUMINANCE, 1}, {CL_RG, 2}, {CL_RGx, 2}, {CL_RA, 2}, {CL_RGBA, 4}, {CL_ARGB, 4}, {CL_BGRA, 4}};
  auto i = ch.find(f.image_channel_order); if (i == ch.end()) return 0; int s = 0;
  switch (f.image_channel_data_type) { case CL_SNORM_INT8: case CL_UNORM_INT8: case CL_SIGNED_INT8: case CL_UNSIGNED_INT8: s = 1; break; case CL_SNORM_INT16: case CL_UNORM_INT16: case CL_SIGNED_INT16: case CL_UNSIGNED_INT16: case CL_HALF_FLOAT: s = 2; break; case CL_SIGNED_INT32: case CL_UNSIGNED_INT32: case CL_FLOAT: s = 4; break; }
  return i->second * s;
}
static vector<cl_image_format> formats(cl_mem_object_type t, cl_mem_flags f = CL_MEM_READ_WRITE)
{
  cl_uint n = 0; CK(clGetSupportedImageFormats(cl->ctx, f, t, 0, 0, &n)); vector<cl_image_format> v(n); if (n) CK(clGetSupportedImageFormats(cl->ctx, f, t, n, v.data(), 0)); return v;
}
static const cl_mem_object_type IT[] = {CL_MEM_OBJECT_IMAGE1D, CL_MEM_OBJECT_IMAGE1D_BUFFER, CL_MEM_OBJECT_IMAGE1D_ARRAY, CL_MEM_OBJECT_IMAGE2D, CL_MEM_OBJECT_IMAGE2D_ARRAY, CL_MEM_OBJECT_IMAGE3D};
static void images()
{
  static uint8_t store[1 << 16];
  for (auto t : IT) for (auto& f : formats(t)) for (size_t w : {1, 3}) for (size_t h : {1, 2}) for (size_t d : {2, 3}) for (int how = 0; how < 5; how++)
  {
    bool a1 = t == CL_MEM_OBJECT_IMAGE1D_ARRAY, a2 = t == CL_MEM_OBJECT_IMAGE2D_ARRAY, b1 = t == CL_MEM_OBJECT_IMAGE1D_BUFFER, two = t == CL_MEM_OBJECT_IMAGE2D, three = t == CL_MEM_OBJECT_IMAGE3D;
    bool hasH = two || a2 || three; if ((!hasH && h > 1) || (!(a1 || a2 || three) && d > 2)) continue;
    // how: 0 no data, 1 copied data, 2 used host pointer, 3 copied data with pitches, 4 the 1.1 functions
    if (how == 4 && !two && !three) continue; if (b1 && how) continue;
    if (!R->begin(fmt("image/%x/%x,%x/%zu,%zu,%zu/%d", t, f.image_channel_order, f.image_channel_data_type, w, h, d, how))) continue;
    size_t ps = texel(f), rp = w * ps, sp = a1 ? rp : hasH ? rp * h : 0, rows = hasH ? h : 1, layers = a1 || a2 || three ? d : 1; cl_int e; cl_mem m, bb = 0;
    cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = t; ds.image_width = w; if (hasH) ds.image_height = h; if (three) ds.image_depth = d; if (a1 || a2) ds.image_array_size = d;
    size_t size = rp * rows * layers; cl_mem_flags fl = CL_MEM_READ_WRITE; void* p = 0; bool ok = true;
    if (how == 1) { fl |= CL_MEM_COPY_HOST_PTR; p = store; } if (how == 2) { fl |= CL_MEM_USE_HOST_PTR; p = store; }
    if (how == 3) { fl |= CL_MEM_COPY_HOST_PTR; p = store; ds.image_row_pitch = rp + ps; if (layers > 1) ds.image_slice_pitch = (rp + ps) * (rows + (a1 ? 0 : 1)); }
    if (b1) { bb = cl->buf(size + 32); ds.buffer = bb; }
    if (how == 4) { if (two) m = clCreateImage2D(cl->ctx, fl, &f, w, h, 0, 0, &e); else m = clCreateImage3D(cl->ctx, fl, &f, w, h, d, 0, 0, 0, &e); }
    else m = clCreateImage(cl->ctx, fl, &f, &ds, p, &e);
    if (e) { R->fail("create-image", R->curCase + fmt(": %d", e)); if (bb) clReleaseMemObject(bb); continue; }
    q("CL_IMAGE_FORMAT", IMG(m, CL_IMAGE_FORMAT), val(f)); q("CL_IMAGE_ELEMENT_SIZE", IMG(m, CL_IMAGE_ELEMENT_SIZE), val(ps)); q("CL_IMAGE_WIDTH", IMG(m, CL_IMAGE_WIDTH), val(w));
    q("CL_IMAGE_HEIGHT", IMG(m, CL_IMAGE_HEIGHT), val((size_t)(hasH ? h : 0))); q("CL_IMAGE_DEPTH", IMG(m, CL_IMAGE_DEPTH), val((size_t)(three ? d : 0))); q("CL_IMAGE_ARRAY_SIZE", IMG(m, CL_IMAGE_ARRAY_SIZE), val((size_t)(a1 || a2 ? d : 0)));
    q("CL_IMAGE_BUFFER", IMG(m, CL_IMAGE_BUFFER), val(bb)); q("CL_IMAGE_NUM_MIP_LEVELS", IMG(m, CL_IMAGE_NUM_MIP_LEVELS), val((cl_uint)0)); q("CL_IMAGE_NUM_SAMPLES", IMG(m, CL_IMAGE_NUM_SAMPLES), val((cl_uint)0));
    // The pitch is that of the image's own storage; for data given with pitches, the given one is accepted as well
    Bytes x; if (forms("CL_IMAGE_ROW_PITCH", IMG(m, CL_IMAGE_ROW_PITCH), x) && x != val(rp) && !(how == 3 && x == val(ds.image_row_pitch))) R->fail("value:CL_IMAGE_ROW_PITCH", R->curCase + ": " + hex(x));
    if (!layers || layers == 1 ) { if (forms("CL_IMAGE_SLICE_PITCH", IMG(m, CL_IMAGE_SLICE_PITCH), x) && x != val((size_t)0) && !(three && x == val(sp))) R->fail("value:CL_IMAGE_SLICE_PITCH", R->curCase + ": " + hex(x)); }
    else if (forms("CL_IMAGE_SLICE_PITCH", IMG(m, CL_IMAGE_SLICE_PITCH), x) && x != val(sp) && !(how == 3 && x == val(ds.image_slice_pitch))) R->fail("value:CL_IMAGE_SLICE_PITCH", R->curCase + ": " + hex(x) + " expected " + hex(val(sp)));
    (void)ok; mem(m, t, fl, size, how == 2 ? p : 0, bb, 0, {}); clReleaseMemObject(m); if (bb) clReleaseMemObject(bb);
  }
  // Supported formats: every listed format can be created, others are refused; partial lists are prefixes
  const cl_uint orders[] = {CL_R, CL_A, CL_RG, CL_RA, CL_RGB, CL_RGBA, CL_BGRA, CL_ARGB, CL_INTENSITY, CL_LUMINANCE, CL_Rx, CL_RGx, CL_RGBx, CL_DEPTH, CL_sRGBA, CL_ABGR, 0x1234};
  for (auto t : IT) for (auto fl : {CL_MEM_READ_WRITE, CL_MEM_READ_ONLY, CL_MEM_WRITE_ONLY, CL_MEM_KERNEL_READ_AND_WRITE})
  {
    auto v = formats(t, fl); if (R->begin(fmt("formats/%x/%lx", t, (long)fl)))
    {
      std::set<std::pair<cl_uint, cl_uint>> s; for (auto& f : v) { if (!s.insert({f.image_channel_order, f.image_channel_data_type}).second) R->fail("format-twice", R->curCase); if (!texel(f)) R->fail("format-unknown", R->curCase); }
      for (auto o : {CL_RGBA, CL_R}) for (auto y : {CL_UNORM_INT8, CL_UNORM_INT16, CL_SIGNED_INT8, CL_SIGNED_INT16, CL_SIGNED_INT32, CL_UNSIGNED_INT8, CL_UNSIGNED_INT16, CL_UNSIGNED_INT32, CL_HALF_FLOAT, CL_FLOAT}) if ((o == CL_RGBA || fl != CL_MEM_KERNEL_READ_AND_WRITE) && !s.count({(cl_uint)o, (cl_uint)y})) R->fail("format-missing", R->curCase + fmt(": required format %x %x", o, y));
      for (cl_uint n = 1; n <= v.size() + 2; n++)
      {
        vector<cl_image_format> p(n + 1); memset((void*)p.data(), 0xC5, sizeof p[0] * (n + 1)); cl_uint c = 0; cl_int e = clGetSupportedImageFormats(cl->ctx, fl, t, n, p.data(), &c); R->count("transitions");
        if (e || c != v.size()) R->fail("format-count", R->curCase + fmt(": %d %u", e, c));
        for (cl_uint i = 0; i <= n; i++) if (i < n && i < v.size() ? memcmp((void*)&p[i], (void*)&v[i], sizeof p[i]) : p[i].image_channel_order != 0xC5C5C5C5) { R->fail("format-prefix", R->curCase + fmt("/%u: entry %u", n, i)); break; }
      }
      for (auto o : orders) for (cl_uint y = CL_SNORM_INT8; y <= CL_FLOAT + 3; y++)
      {
        cl_image_format f = {o, y}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = t; ds.image_width = 2; ds.image_height = 2; ds.image_depth = 2; ds.image_array_size = 2; cl_mem b = 0; if (t == CL_MEM_OBJECT_IMAGE1D_BUFFER) ds.buffer = b = cl->buf(256);
        cl_int e = 0; cl_mem m = clCreateImage(cl->ctx, fl, &f, &ds, 0, &e); bool in = s.count({o, y}); R->count("transitions");
        if (in && e != CL_SUCCESS) R->fail("format-refused", R->curCase + fmt(": format %x %x is listed but creation gives %d", o, y, e));
        if (!in && m) { Bytes x; if (forms("CL_IMAGE_FORMAT", IMG(m, CL_IMAGE_FORMAT), x) && x != val(f)) R->fail("format-other", R->curCase + fmt(": format %x %x", o, y)); } // other formats may be accepted (the repository's own tests use CL_RGB with CL_FLOAT)
        if (m) clReleaseMemObject(m); if (b) clReleaseMemObject(b);
      }
    }
  }
}
static void samplers()
{
  const cl_addressing_mode am[] = {CL_ADDRESS_NONE, CL_ADDRESS_CLAMP_TO_EDGE, CL_ADDRESS_CLAMP, CL_ADDRESS_REPEAT, CL_ADDRESS_MIRRORED_REPEAT};
  for (int norm = 0; norm < 2; norm++) for (int a = -1; a < 5; a++) for (cl_filter_mode fm : {0, CL_FILTER_NEAREST, CL_FILTER_LINEAR}) for (int how = 0; how < 8; how++)
  {
    // how 0: clCreateSampler; 1..6: properties in every order; 7: normalisation left out
    if (how == 0 && (a < 0 || !fm)) continue; if (how == 7 && !norm) continue;
    cl_addressing_mode A = a < 0 ? CL_ADDRESS_CLAMP : am[a]; cl_filter_mode F = fm ? fm : CL_FILTER_NEAREST;
    if (!norm && (A == CL_ADDRESS_REPEAT || A == CL_ADDRESS_MIRRORED_REPEAT)) continue;
    if (!R->begin(fmt("sampler/%d/%d/%x/%d", norm, a, fm, how))) continue;
    cl_int e; cl_sampler s; vector<cl_sampler_properties> ps;
    if (how == 0) s = clCreateSampler(cl->ctx, norm, A, F, &e);
    else
    {
      vector<std::pair<int, cl_sampler_properties>> v; if (how != 7) v.push_back({CL_SAMPLER_NORMALIZED_COORDS, (cl_sampler_properties)norm}); if (a >= 0) v.push_back({CL_SAMPLER_ADDRESSING_MODE, A}); if (fm) v.push_back({CL_SAMPLER_FILTER_MODE, F});
      std::sort(v.begin(), v.end()); for (int i = 1; i < how; i++) std::next_permutation(v.begin(), v.end());
      for (auto& x : v) { ps.push_back(x.first); ps.push_back(x.second); } ps.push_back(0); s = clCreateSamplerWithProperties(cl->ctx, ps.data(), &e);
    }
    if (e) { R->fail("create-sampler", R->curCase + fmt(": %d", e)); continue; }
    #define SM(x) G_(clGetSamplerInfo(s, x, n_, p_, r_))
    q("CL_SAMPLER_NORMALIZED_COORDS", SM(CL_SAMPLER_NORMALIZED_COORDS), val((cl_bool)norm)); q("CL_SAMPLER_ADDRESSING_MODE", SM(CL_SAMPLER_ADDRESSING_MODE), val(A)); q("CL_SAMPLER_FILTER_MODE", SM(CL_SAMPLER_FILTER_MODE), val(F)); q("CL_SAMPLER_CONTEXT", SM(CL_SAMPLER_CONTEXT), val(cl->ctx));
    q("CL_SAMPLER_PROPERTIES", SM(CL_SAMPLER_PROPERTIES), Bytes((uint8_t*)ps.data(), (uint8_t*)(ps.data() + ps.size()))); clReleaseSampler(s);
  }
}
static void queuesAndContexts()
{
  for (cl_command_queue_properties p : {(cl_command_queue_properties)0, (cl_command_queue_properties)CL_QUEUE_PROFILING_ENABLE, (cl_command_queue_properties)CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE, (cl_command_queue_properties)(CL_QUEUE_PROFILING_ENABLE | CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE)}) for (int how = 0; how < 4; how++)
  {
    if (!R->begin(fmt("queue/%lx/%d", (long)p, how))) continue; if (how >= 2 && p) { if (how == 2) continue; }
    vector<cl_queue_properties> v; if (how == 1) v = {CL_QUEUE_PROPERTIES, p, 0}; if (how == 3 && !p) v = {0}; else if (how == 3) v = {CL_QUEUE_PROPERTIES, p, 0};
    cl_int e; cl_command_queue k = how == 0 ? clCreateCommandQueue(cl->ctx, cl->dev, p, &e) : clCreateCommandQueueWithProperties(cl->ctx, cl->dev, how == 2 ? 0 : v.data(), &e); if (e) { R->fail("create-queue", R->curCase + fmt(": %d", e)); continue; }
    #define QU(x) G_(clGetCommandQueueInfo(k, x, n_, p_, r_))
    q("CL_QUEUE_CONTEXT", QU(CL_QUEUE_CONTEXT), val(cl->ctx)); q("CL_QUEUE_DEVICE", QU(CL_QUEUE_DEVICE), val(cl->dev)); q("CL_QUEUE_PROPERTIES", QU(CL_QUEUE_PROPERTIES), val(p)); q("CL_QUEUE_DEVICE_DEFAULT", QU(CL_QUEUE_DEVICE_DEFAULT), val((cl_command_queue)0));
    q("CL_QUEUE_PROPERTIES_ARRAY", QU(CL_QUEUE_PROPERTIES_ARRAY), Bytes((uint8_t*)v.data(), (uint8_t*)(v.data() + v.size()))); cl_uint u; if (clGetCommandQueueInfo(k, CL_QUEUE_SIZE, 4, &u, 0) != CL_INVALID_COMMAND_QUEUE) R->fail("queue-size", R->curCase); clReleaseCommandQueue(k);
  }
  for (int how = 0; how < 6; how++)
  {
    if (!R->begin(fmt("context/%d", how))) continue; cl_context_properties pl[] = {CL_CONTEXT_PLATFORM, (cl_context_properties)cl->plat, 0}, z[] = {0}; cl_int e; cl_context_properties* pp = how % 3 == 1 ? pl : how % 3 == 2 ? z : 0;
    cl_context c = how < 3 ? clCreateContext(pp, 1, &cl->dev, 0, 0, &e) : clCreateContextFromType(pp, CL_DEVICE_TYPE_ALL, 0, 0, &e); if (e) { R->fail("create-context", R->curCase + fmt(": %d", e)); continue; }
    #define CX(x) G_(clGetContextInfo(c, x, n_, p_, r_))
    q("CL_CONTEXT_NUM_DEVICES", CX(CL_CONTEXT_NUM_DEVICES), val((cl_uint)1)); q("CL_CONTEXT_DEVICES", CX(CL_CONTEXT_DEVICES), val(cl->dev));
    Bytes want = pp == pl ? Bytes((uint8_t*)pl, (uint8_t*)(pl + 3)) : pp ? val(z[0]) : Bytes(); q("CL_CONTEXT_PROPERTIES", CX(CL_CONTEXT_PROPERTIES), want); clReleaseContext(c);
  }
}
static void nativeFn(void*) {}
static void events()
{
  cl_int e; cl_image_format f = {CL_RGBA, CL_UNORM_INT8}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = CL_MEM_OBJECT_IMAGE2D; ds.image_width = ds.image_height = 2;
  cl_mem a = cl->buf(64), b = cl->buf(64), i = clCreateImage(cl->ctx, CL_MEM_READ_WRITE, &f, &ds, 0, &e), j = clCreateImage(cl->ctx, CL_MEM_READ_WRITE, &f, &ds, 0, &e); CK(e);
  cl_program p = cl->build("kernel void k(global int* o){ *o = 1; }"); cl_kernel k = cl->kernel(p, "k"); cl->arg(k, 0, a); uint8_t h[64] = {0}; size_t o[3] = {0, 0, 0}, r[3] = {2, 2, 1}, one = 1;
  static const cl_command_type T[] = {CL_COMMAND_NDRANGE_KERNEL, CL_COMMAND_TASK, CL_COMMAND_NATIVE_KERNEL, CL_COMMAND_READ_BUFFER, CL_COMMAND_WRITE_BUFFER, CL_COMMAND_COPY_BUFFER, CL_COMMAND_READ_IMAGE, CL_COMMAND_WRITE_IMAGE, CL_COMMAND_COPY_IMAGE, CL_COMMAND_COPY_IMAGE_TO_BUFFER, CL_COMMAND_COPY_BUFFER_TO_IMAGE, CL_COMMAND_MAP_BUFFER, CL_COMMAND_MAP_IMAGE, CL_COMMAND_UNMAP_MEM_OBJECT, CL_COMMAND_MARKER, CL_COMMAND_READ_BUFFER_RECT, CL_COMMAND_WRITE_BUFFER_RECT, CL_COMMAND_COPY_BUFFER_RECT, CL_COMMAND_USER, CL_COMMAND_BARRIER, CL_COMMAND_MIGRATE_MEM_OBJECTS, CL_COMMAND_FILL_BUFFER, CL_COMMAND_FILL_IMAGE};
  for (int props = 0; props < 4; props++) for (auto t : T) for (int pend = 0; pend < 3; pend++) // pend 1: after a user event; 2: the user event fails
  {
    if (t == CL_COMMAND_USER && props) continue; if (!R->begin(fmt("event/%d/%x/%d", props, t, pend))) continue;
    cl_command_queue_properties qp = (props & 1 ? CL_QUEUE_PROFILING_ENABLE : 0) | (props & 2 ? CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE : 0); cl_command_queue Q = clCreateCommandQueue(cl->ctx, cl->dev, qp, &e); CK(e);
    cl_event ue = pend ? clCreateUserEvent(cl->ctx, &e) : 0, ev = 0; cl_uint nw = pend ? 1 : 0; cl_event* w = pend ? &ue : 0; size_t pat[3]; void* mp = 0;
    switch (t)
    {
    case CL_COMMAND_NDRANGE_KERNEL: e = clEnqueueNDRangeKernel(Q, k, 1, 0, &one, 0, nw, w, &ev); break;
    case CL_COMMAND_TASK: e = clEnqueueTask(Q, k, nw, w, &ev); break;
    case CL_COMMAND_NATIVE_KERNEL: e = clEnqueueNativeKernel(Q, nativeFn, 0, 0, 0, 0, 0, nw, w, &ev); break;
    case CL_COMMAND_READ_BUFFER: e = clEnqueueReadBuffer(Q, a, 0, 0, 8, h, nw, w, &ev); break;
    case CL_COMMAND_WRITE_BUFFER: e = clEnqueueWriteBuffer(Q, a, 0, 0, 8, h, nw, w, &ev); break;
    case CL_COMMAND_COPY_BUFFER: e = clEnqueueCopyBuffer(Q, a, b, 0, 0, 8, nw, w, &ev); break;
    case CL_COMMAND_READ_IMAGE: e = clEnqueueReadImage(Q, i, 0, o, r, 0, 0, h, nw, w, &ev); break;
    case CL_COMMAND_WRITE_IMAGE: e = clEnqueueWriteImage(Q, i, 0, o, r, 0, 0, h, nw, w, &ev); break;
    case CL_COMMAND_COPY_IMAGE: e = clEnqueueCopyImage(Q, i, j, o, o, r, nw, w, &ev); break;
    case CL_COMMAND_COPY_IMAGE_TO_BUFFER: e = clEnqueueCopyImageToBuffer(Q, i, a, o, r, 0, nw, w, &ev); break;
    case CL_COMMAND_COPY_BUFFER_TO_IMAGE: e = clEnqueueCopyBufferToImage(Q, a, i, 0, o, r, nw, w, &ev); break;
    case CL_COMMAND_MAP_BUFFER: mp = clEnqueueMapBuffer(Q, a, 0, CL_MAP_READ, 0, 8, nw, w, &ev, &e); break;
    case CL_COMMAND_MAP_IMAGE: mp = clEnqueueMapImage(Q, i, 0, CL_MAP_READ, o, r, pat, pat + 1, nw, w, &ev, &e); break;
    case CL_COMMAND_UNMAP_MEM_OBJECT: mp = clEnqueueMapBuffer(cl->q, a, 1, CL_MAP_READ, 0, 8, 0, 0, 0, &e); CK(e); e = clEnqueueUnmapMemObject(Q, a, mp, nw, w, &ev); break;
    case CL_COMMAND_MARKER: e = clEnqueueMarkerWithWaitList(Q, nw, w, &ev); break;
    case CL_COMMAND_READ_BUFFER_RECT: e = clEnqueueReadBufferRect(Q, a, 0, o, o, r, 0, 0, 0, 0, h, nw, w, &ev); break;
    case CL_COMMAND_WRITE_BUFFER_RECT: e = clEnqueueWriteBufferRect(Q, a, 0, o, o, r, 0, 0, 0, 0, h, nw, w, &ev); break;
    case CL_COMMAND_COPY_BUFFER_RECT: e = clEnqueueCopyBufferRect(Q, a, b, o, o, r, 0, 0, 0, 0, nw, w, &ev); break;
    case CL_COMMAND_USER: ev = clCreateUserEvent(cl->ctx, &e); break;
    case CL_COMMAND_BARRIER: e = clEnqueueBarrierWithWaitList(Q, nw, w, &ev); break;
    case CL_COMMAND_MIGRATE_MEM_OBJECTS: e = clEnqueueMigrateMemObjects(Q, 1, &a, 0, nw, w, &ev); break;
    case CL_COMMAND_FILL_BUFFER: e = clEnqueueFillBuffer(Q, a, h, 4, 0, 8, nw, w, &ev); break;
    case CL_COMMAND_FILL_IMAGE: { float c[4] = {0, 0, 0, 0}; e = clEnqueueFillImage(Q, i, c, o, r, nw, w, &ev); break; }
    }
    if (e || !ev) { R->fail("enqueue", R->curCase + fmt(": %d", e)); continue; }
    #define EV(x) G_(clGetEventInfo(ev, x, n_, p_, r_))
    auto fixed = [&] { q("CL_EVENT_COMMAND_TYPE", EV(CL_EVENT_COMMAND_TYPE), val(t)); q("CL_EVENT_CONTEXT", EV(CL_EVENT_CONTEXT), val(cl->ctx)); q("CL_EVENT_COMMAND_QUEUE", EV(CL_EVENT_COMMAND_QUEUE), val(t == CL_COMMAND_USER ? (cl_command_queue)0 : Q)); };
    fixed(); Bytes st; forms("CL_EVENT_COMMAND_EXECUTION_STATUS", EV(CL_EVENT_COMMAND_EXECUTION_STATUS), st); cl_int s = 99; if (st.size() == 4) memcpy(&s, st.data(), 4);
    if (t == CL_COMMAND_USER ? s != CL_SUBMITTED : pend ? s != CL_QUEUED && s != CL_SUBMITTED : s < 0 || s > 3) R->fail("status", R->curCase + fmt(": %d", s));
    cl_ulong v; if (s != CL_COMPLETE && t != CL_COMMAND_USER) for (auto x : {CL_PROFILING_COMMAND_QUEUED, CL_PROFILING_COMMAND_SUBMIT, CL_PROFILING_COMMAND_START, CL_PROFILING_COMMAND_END}) if (clGetEventProfilingInfo(ev, x, 8, &v, 0) != CL_PROFILING_INFO_NOT_AVAILABLE) R->fail("profiling-early", R->curCase);
    if (t == CL_COMMAND_USER) { CK(clSetUserEventStatus(ev, pend == 2 ? -7 : 0)); } else { if (pend) CK(clSetUserEventStatus(ue, pend == 2 ? -7 : CL_COMPLETE)); clFinish(Q); }
    fixed(); Bytes fin; forms("CL_EVENT_COMMAND_EXECUTION_STATUS", EV(CL_EVENT_COMMAND_EXECUTION_STATUS), fin); memcpy(&s, fin.data(), 4); if (pend == 2 ? s >= 0 : s != 0) R->fail("final-status", R->curCase + fmt(": %d", s));
    if (pend != 2 && t != CL_COMMAND_USER)
    {
      cl_ulong last = 0; for (auto x : {CL_PROFILING_COMMAND_QUEUED, CL_PROFILING_COMMAND_SUBMIT, CL_PROFILING_COMMAND_START, CL_PROFILING_COMMAND_END})
      {
        if (!(props & 1)) { if (clGetEventProfilingInfo(ev, x, 8, &v, 0) != CL_PROFILING_INFO_NOT_AVAILABLE) R->fail("profiling-disabled", R->curCase); continue; }
        Bytes b; if (!forms("CL_PROFILING", G_(clGetEventProfilingInfo(ev, x, n_, p_, r_)), b)) break; if (b.size() != 8) { R->fail("profiling-size", R->curCase); break; }
        memcpy(&v, b.data(), 8); if (v < last || !v) R->fail("profiling-order", R->curCase + fmt(": %lu after %lu", (long)v, (long)last)); last = v;
      }
    }
    if (t == CL_COMMAND_USER) if (clGetEventProfilingInfo(ev, CL_PROFILING_COMMAND_QUEUED, 8, &v, 0) != CL_PROFILING_INFO_NOT_AVAILABLE) R->fail("profiling-user", R->curCase);
    if (mp && (t != CL_COMMAND_UNMAP_MEM_OBJECT || pend == 2) && !(pend == 2 && t != CL_COMMAND_UNMAP_MEM_OBJECT)) clEnqueueUnmapMemObject(cl->q, t == CL_COMMAND_MAP_IMAGE ? i : a, mp, 0, 0, 0), clFinish(cl->q);
    clReleaseEvent(ev); if (ue) clReleaseEvent(ue); clReleaseCommandQueue(Q);
  }
  clReleaseMemObject(a); clReleaseMemObject(b); clReleaseMemObject(i); clReleaseMemObject(j); clReleaseKernel(k); clReleaseProgram(p);
}
#define PR(p, x) G_(clGetProgramInfo(p, x, n_, p_, r_))
#define BI(p, x) G_(clGetProgramBuildInfo(p, cl->dev, x, n_, p_, r_))
static std::multiset<string> split(const string& s, char c) { std::multiset<string> v; string t; for (char x : s + c) if (x == c) { if (!t.empty()) v.insert(t); t = ""; } else t += x; return v; }
static void programs()
{
  // Sources in one to three pieces with explicit, zero (terminated) or no lengths
  const string pieces[] = {"kernel void a(global int*o){*o=1;}\n", "kernel void bb(global int*o){*o=2;}", "int f(int x){return x+1;}\n", " kernel void a2(global int*o){*o=3;}\n"};
  for (int n = 1; n <= 3; n++) for (int c = 0; c < 64; c++) for (int lens = 0; lens < 3; lens++)
  {
    if (n < 3 && c >> 2 * n) continue; std::set<int> used; string whole; vector<string> hold; vector<const char*> s; vector<size_t> L; std::multiset<string> names; bool dup = false;
    for (int i = 0; i < n; i++) { int x = c >> 2 * i & 3; if (!used.insert(x).second) dup = true; if (x != 2) names.insert(x == 0 ? "a" : x == 1 ? "bb" : "a2"); whole += pieces[x]; hold.push_back(pieces[x] + (lens == 1 ? "garbage" : "")); L.push_back(lens == 1 ? pieces[x].size() : lens == 2 && i % 2 ? pieces[x].size() : 0); }
    if (dup || !R->begin(fmt("program/%d/%x/%d", n, c, lens))) continue; for (auto& x : hold) s.push_back(x.c_str());
    cl_int e; cl_program p = clCreateProgramWithSource(cl->ctx, n, s.data(), lens ? L.data() : 0, &e); CK(e);
    auto common = [&] { q("CL_PROGRAM_SOURCE", PR(p, CL_PROGRAM_SOURCE), str(whole)); q("CL_PROGRAM_CONTEXT", PR(p, CL_PROGRAM_CONTEXT), val(cl->ctx)); q("CL_PROGRAM_NUM_DEVICES", PR(p, CL_PROGRAM_NUM_DEVICES), val((cl_uint)1)); q("CL_PROGRAM_DEVICES", PR(p, CL_PROGRAM_DEVICES), val(cl->dev)); q("CL_PROGRAM_IL", PR(p, CL_PROGRAM_IL), Bytes()); };
    common(); q("CL_PROGRAM_BUILD_STATUS=none", BI(p, CL_PROGRAM_BUILD_STATUS), val((cl_build_status)CL_BUILD_NONE)); q("CL_PROGRAM_BUILD_OPTIONS=none", BI(p, CL_PROGRAM_BUILD_OPTIONS), str("")); q("CL_PROGRAM_BUILD_LOG=none", BI(p, CL_PROGRAM_BUILD_LOG), str("")); q("CL_PROGRAM_BINARY_TYPE=none", BI(p, CL_PROGRAM_BINARY_TYPE), val((cl_program_binary_type)CL_PROGRAM_BINARY_TYPE_NONE));
    q("CL_PROGRAM_BINARY_SIZES=none", PR(p, CL_PROGRAM_BINARY_SIZES), val((size_t)0)); size_t z; char nb[99]; if (clGetProgramInfo(p, CL_PROGRAM_NUM_KERNELS, 8, &z, 0) != CL_INVALID_PROGRAM_EXECUTABLE || clGetProgramInfo(p, CL_PROGRAM_KERNEL_NAMES, 99, nb, 0) != CL_INVALID_PROGRAM_EXECUTABLE) R->fail("kernels-unbuilt", R->curCase);
    const char* opts[] = {"", "-DA=1 -cl-std=CL1.2", "-cl-std=CL1.2 -cl-opt-disable"}; const char* o = opts[(c + n) % 3];
    if (clBuildProgram(p, 1, &cl->dev, o, 0, 0)) R->fail("build", R->curCase); common();
    q("CL_PROGRAM_BUILD_STATUS", BI(p, CL_PROGRAM_BUILD_STATUS), val((cl_build_status)CL_BUILD_SUCCESS)); q("CL_PROGRAM_BUILD_OPTIONS", BI(p, CL_PROGRAM_BUILD_OPTIONS), str(o)); q("CL_PROGRAM_BINARY_TYPE", BI(p, CL_PROGRAM_BINARY_TYPE), val((cl_program_binary_type)CL_PROGRAM_BINARY_TYPE_EXECUTABLE));
    q("CL_PROGRAM_NUM_KERNELS", PR(p, CL_PROGRAM_NUM_KERNELS), val(names.size())); qtext("CL_PROGRAM_KERNEL_NAMES", PR(p, CL_PROGRAM_KERNEL_NAMES), [&](const string& k) { return split(k, ';') == names && (k.empty() || (k[0] != ';' && k.back() != ';')); }, "the kernels of the source");
    q("CL_PROGRAM_SCOPE_GLOBAL_CTORS_PRESENT", PR(p, CL_PROGRAM_SCOPE_GLOBAL_CTORS_PRESENT), val((cl_bool)0)); q("CL_PROGRAM_BUILD_GLOBAL_VARIABLE_TOTAL_SIZE", BI(p, CL_PROGRAM_BUILD_GLOBAL_VARIABLE_TOTAL_SIZE), val((size_t)0));
    // Binaries: size as announced, nothing written beyond, an entry that is not wanted is skipped, and the binary is a program with the same kernels
    Bytes zs; if (forms("CL_PROGRAM_BINARY_SIZES", PR(p, CL_PROGRAM_BINARY_SIZES), zs) && zs.size() == 8)
    {
      memcpy(&z, zs.data(), 8); Bytes b(z + 32, 0xC5); unsigned char* bp = b.data(); if (clGetProgramInfo(p, CL_PROGRAM_BINARIES, sizeof bp, &bp, 0) || bp != b.data()) R->fail("binaries", R->curCase);
      for (size_t i = z; i < b.size(); i++) if (b[i] != 0xC5) { R->fail("binaries-overrun", R->curCase); break; }
      unsigned char* np = 0; if (clGetProgramInfo(p, CL_PROGRAM_BINARIES, sizeof np, &np, 0) || np) R->fail("binaries-null", R->curCase);
      const unsigned char* cb = b.data(); cl_int bs; cl_program r = clCreateProgramWithBinary(cl->ctx, 1, &cl->dev, &z, &cb, &bs, &e); if (e) { R->fail("binary-load", R->curCase + fmt(": %d", e)); }
      else { clBuildProgram(r, 1, &cl->dev, "", 0, 0); q("CL_PROGRAM_NUM_KERNELS=binary", PR(r, CL_PROGRAM_NUM_KERNELS), val(names.size())); qtext("CL_PROGRAM_KERNEL_NAMES=binary", PR(r, CL_PROGRAM_KERNEL_NAMES), [&](const string& k) { return split(k, ';') == names; }, "the kernels of the source"); q("CL_PROGRAM_SOURCE=binary", PR(r, CL_PROGRAM_SOURCE), str("")); clReleaseProgram(r); }
    }
    clReleaseProgram(p);
  }
  // Program-scope variables and failing builds
  for (int n = 0; n < 4; n++) if (R->begin(fmt("program-vars/%d", n)))
  {
    string s; size_t tot = 0; if (n & 1) { s += "global int gv[5] = {1,2,3,4,5};\n"; tot += 20; } if (n & 2) { s += "global double gd = 3;\n"; tot += 8; } s += "kernel void k(global int* o, global double* d){"; if (n & 1) s += "*o=gv[*o]++;"; if (n & 2) s += "*d=gd++;"; s += "}";
    cl_program p = cl->build(s, "-cl-std=CL2.0"); q("CL_PROGRAM_BUILD_GLOBAL_VARIABLE_TOTAL_SIZE", BI(p, CL_PROGRAM_BUILD_GLOBAL_VARIABLE_TOTAL_SIZE), val(tot)); clReleaseProgram(p);
  }
  if (R->begin("program-fails"))
  {
    cl_int e; string l; cl_program p = cl->tryBuild("kernel void k(global int*o){ *o = undeclared_thing; }", "-DX", &l, &e); if (e != CL_BUILD_PROGRAM_FAILURE) R->fail("build-fails", fmt("%d", e));
    q("CL_PROGRAM_BUILD_STATUS=error", BI(p, CL_PROGRAM_BUILD_STATUS), val((cl_build_status)CL_BUILD_ERROR)); q("CL_PROGRAM_BUILD_OPTIONS=error", BI(p, CL_PROGRAM_BUILD_OPTIONS), str("-DX")); qtext("CL_PROGRAM_BUILD_LOG", BI(p, CL_PROGRAM_BUILD_LOG), [](const string& s) { return s.find("undeclared_thing") != string::npos; }, "the error"); clReleaseProgram(p);
  }
}
struct Arg { const char *decl, *type; cl_uint as, acc; cl_ulong tq; };
static const Arg AR[] = {
  {"int %s", "int", 0x119E, 0x11A3, 0}, {"const uint %s", "uint", 0x119E, 0x11A3, 0}, {"unsigned long %s", "ulong", 0x119E, 0x11A3, 0}, {"float4 %s", "float4", 0x119E, 0x11A3, 0}, {"uchar3 %s", "uchar3", 0x119E, 0x11A3, 0}, {"T %s", "T", 0x119E, 0x11A3, 0}, {"S %s", "S", 0x119E, 0x11A3, 0},
  {"global int* %s", "int*", 0x119B, 0x11A3, 0}, {"global const float* %s", "float*", 0x119B, 0x11A3, 1}, {"global double* restrict %s", "double*", 0x119B, 0x11A3, 2}, {"global volatile uint2* %s", "uint2*", 0x119B, 0x11A3, 4}, {"const global volatile char* restrict %s", "char*", 0x119B, 0x11A3, 7}, {"global unsigned short* %s", "ushort*", 0x119B, 0x11A3, 0}, {"global S* %s", "S*", 0x119B, 0x11A3, 0}, {"global void* %s", "void*", 0x119B, 0x11A3, 0},
  {"constant int* %s", "int*", 0x119D, 0x11A3, 1}, {"local float8* %s", "float8*", 0x119C, 0x11A3, 0}, {"local volatile int* %s", "int*", 0x119C, 0x11A3, 4},
  {"read_only image2d_t %s", "image2d_t", 0x119B, 0x11A0, 0}, {"write_only image2d_t %s", "image2d_t", 0x119B, 0x11A1, 0}, {"image3d_t %s", "image3d_t", 0x119B, 0x11A0, 0}, {"read_only image1d_t %s", "image1d_t", 0x119B, 0x11A0, 0}, {"read_only image1d_buffer_t %s", "image1d_buffer_t", 0x119B, 0x11A0, 0}, {"write_only image1d_array_t %s", "image1d_array_t", 0x119B, 0x11A1, 0}, {"read_only image2d_array_t %s", "image2d_array_t", 0x119B, 0x11A0, 0}, {"sampler_t %s", "sampler_t", 0x119E, 0x11A3, 0}};
static void kernels()
{
  const int N = sizeof AR / sizeof *AR; const char* pre = "typedef int T; typedef struct { int a; float b; } S;\n";
  #define KI(k, x) G_(clGetKernelInfo(k, x, n_, p_, r_))
  #define AI(k, i, x) G_(clGetKernelArgInfo(k, i, x, n_, p_, r_))
  #define WI(k, x) G_(clGetKernelWorkGroupInfo(k, cl->dev, x, n_, p_, r_))
  // every ordered pair of parameters (so that every kind stands in every position), names of every length class
  for (int a = 0; a < N; a++)
  {
    if (!R->begin(fmt("args/%d", a))) continue;
    string src = pre; const char* names[] = {"x", "a_rather_long_parameter_name", "p0"}; 
    for (int b = 0; b < N; b++) src += fmt("kernel void k%d(", b) + fmt(AR[a].decl, names[b % 3]) + ", " + fmt(AR[b].decl, "y") + ", " + fmt(AR[(a + b) % N].decl, "") + ") {}\n";
    cl_program p = cl->build(src, "-cl-kernel-arg-info");
    for (int b = 0; b < N; b++)
    {
      cl_kernel k = cl->kernel(p, fmt("k%d", b)); q("CL_KERNEL_FUNCTION_NAME", KI(k, CL_KERNEL_FUNCTION_NAME), str(fmt("k%d", b))); q("CL_KERNEL_NUM_ARGS", KI(k, CL_KERNEL_NUM_ARGS), val((cl_uint)3)); q("CL_KERNEL_CONTEXT", KI(k, CL_KERNEL_CONTEXT), val(cl->ctx)); q("CL_KERNEL_PROGRAM", KI(k, CL_KERNEL_PROGRAM), val(p)); q("CL_KERNEL_ATTRIBUTES", KI(k, CL_KERNEL_ATTRIBUTES), str(""));
      for (int i = 0; i < 3; i++)
      {
        const Arg& A = AR[i == 0 ? a : i == 1 ? b : (a + b) % N]; string w = fmt("=%s arg %d", A.decl, i);
        q("CL_KERNEL_ARG_ADDRESS_QUALIFIER" + w, AI(k, i, CL_KERNEL_ARG_ADDRESS_QUALIFIER), val(A.as)); q("CL_KERNEL_ARG_ACCESS_QUALIFIER" + w, AI(k, i, CL_KERNEL_ARG_ACCESS_QUALIFIER), val(A.acc)); q("CL_KERNEL_ARG_TYPE_NAME" + w, AI(k, i, CL_KERNEL_ARG_TYPE_NAME), str(A.type)); q("CL_KERNEL_ARG_TYPE_QUALIFIER" + w, AI(k, i, CL_KERNEL_ARG_TYPE_QUALIFIER), val(A.tq)); q("CL_KERNEL_ARG_NAME" + w, AI(k, i, CL_KERNEL_ARG_NAME), str(i == 0 ? names[b % 3] : i == 1 ? "y" : ""));
      }
      clReleaseKernel(k);
    }
    clReleaseProgram(p);
  }
  // access qualifiers of OpenCL C 2.0 (read_write), every pair of parameters of every image type
  const char* im[] = {"image1d_t", "image1d_buffer_t", "image1d_array_t", "image2d_t", "image2d_array_t", "image3d_t"}; const char* aq[] = {"", "read_only ", "write_only ", "read_write ", "__read_only ", "__write_only ", "__read_write "}; const cl_uint av[] = {0x11A0, 0x11A0, 0x11A1, 0x11A2, 0x11A0, 0x11A1, 0x11A2};
  for (int t = 0; t < 6; t++) for (int a = 0; a < 7; a++)
  {
    if (!R->begin(fmt("rw/%d/%d", t, a))) continue; string src; for (int b = 0; b < 7; b++) src += fmt("kernel void k%d(%s%s i, global int* o, %s%s j, const int n) {}\n", b, aq[a], im[t], aq[b], im[(t + b) % 6]);
    cl_program p = cl->build(src, "-cl-kernel-arg-info -cl-std=CL2.0");
    for (int b = 0; b < 7; b++)
    {
      cl_kernel k = cl->kernel(p, fmt("k%d", b)); q("CL_KERNEL_NUM_ARGS", KI(k, CL_KERNEL_NUM_ARGS), val((cl_uint)4));
      cl_uint w[4] = {av[a], 0x11A3, av[b], 0x11A3}; const char* ty[] = {im[t], "int*", im[(t + b) % 6], "int"}; cl_uint as[] = {0x119B, 0x119B, 0x119B, 0x119E};
      for (int i = 0; i < 4; i++) { q(fmt("CL_KERNEL_ARG_ACCESS_QUALIFIER=2.0 arg %d", i), AI(k, i, CL_KERNEL_ARG_ACCESS_QUALIFIER), val(w[i])); q(fmt("CL_KERNEL_ARG_TYPE_NAME=2.0 arg %d", i), AI(k, i, CL_KERNEL_ARG_TYPE_NAME), str(ty[i])); q(fmt("CL_KERNEL_ARG_ADDRESS_QUALIFIER=2.0 arg %d", i), AI(k, i, CL_KERNEL_ARG_ADDRESS_QUALIFIER), val(as[i])); }
      clReleaseKernel(k);
    }
    clReleaseProgram(p);
  }
  // every set of kernels of six (with no parameters, one, nine; names that begin with one another) beside functions that are not kernels
  struct { const char *name, *par; cl_uint n; } KD[] = {{"k", "", 0}, {"k_", "void", 0}, {"k1", "global int* o", 1}, {"k11", "int a, int b, int c, int d, int e, int f, int g, int h, int i", 9}, {"kk", "local int* l, global int* o", 2}, {"a_kernel_with_quite_a_long_name_indeed", "constant int* c", 1}};
  for (int m = 1; m < 64; m++)
  {
    if (!R->begin(fmt("set/%d", m))) continue; string src = "int f(int x);\nint f(int x) { return x + 1; }\nvoid g(global int* o) { *o = f(*o); }\n"; std::multiset<string> want;
    for (int i = 0; i < 6; i++) if (m >> i & 1) { src += fmt("kernel void %s(%s) { %s }\n", KD[i].name, KD[i].par, i == 2 || i == 4 ? "g(o);" : ""); want.insert(KD[i].name); }
    cl_int e; cl_program p = cl->build(src); q("CL_PROGRAM_NUM_KERNELS=set", PR(p, CL_PROGRAM_NUM_KERNELS), val(want.size())); qtext("CL_PROGRAM_KERNEL_NAMES=set", PR(p, CL_PROGRAM_KERNEL_NAMES), [&](const string& s) { return split(s, ';') == want; }, "the kernels of the source");
    for (cl_uint n = 0; n < 8; n++) // clCreateKernelsInProgram with room for every number of kernels
    {
      cl_kernel K[8] = {0}; cl_uint r = 99; e = clCreateKernelsInProgram(p, n, n ? K : 0, &r); R->count("transitions"); if (n && n < want.size()) { if (e != CL_INVALID_VALUE) R->fail("create-kernels", R->curCase + fmt(": room for %u of %zu: %d", n, want.size(), e)); continue; }
      if (e || r != want.size()) { R->fail("create-kernels", R->curCase + fmt(": %d, %u kernels", e, r)); continue; }
      std::multiset<string> got; for (int i = 0; i < 8; i++) { if (!K[i]) continue; char nm[99] = ""; clGetKernelInfo(K[i], CL_KERNEL_FUNCTION_NAME, 99, nm, 0); got.insert(nm); for (auto& d : KD) if (!strcmp(d.name, nm)) q("CL_KERNEL_NUM_ARGS=set", KI(K[i], CL_KERNEL_NUM_ARGS), val(d.n)); clReleaseKernel(K[i]); }
      if (n && got != want) R->fail("create-kernels", R->curCase + ": other kernels than the program's");
    }
    for (int i = 0; i < 6; i++) { cl_kernel k = clCreateKernel(p, KD[i].name, &e); R->count("transitions"); if ((m >> i & 1) != (e == CL_SUCCESS) || (e && e != CL_INVALID_KERNEL_NAME)) R->fail("create-kernel", R->curCase + fmt(": %s: %d", KD[i].name, e)); if (!k) continue; q("CL_KERNEL_NUM_ARGS=set", KI(k, CL_KERNEL_NUM_ARGS), val(KD[i].n)); q("CL_KERNEL_FUNCTION_NAME=set", KI(k, CL_KERNEL_FUNCTION_NAME), str(KD[i].name)); size_t one = 1; if (!KD[i].n && (clEnqueueNDRangeKernel(cl->q, k, 1, 0, &one, 0, 0, 0, 0) || clFinish(cl->q))) R->fail("no-argument-launch", R->curCase); clReleaseKernel(k); }
    for (auto x : {"f", "g", "", "k111"}) { cl_kernel k = clCreateKernel(p, x, &e); R->count("transitions"); if (k || e != CL_INVALID_KERNEL_NAME) R->fail("create-kernel", R->curCase + fmt(": \"%s\": %d", x, e)); }
    clReleaseProgram(p);
  }
  // attributes and work-group information
  for (int rq = 0; rq < 4; rq++) for (int hint = 0; hint < 2; hint++) for (int vt = 0; vt < 4; vt++) for (int loc = 0; loc < 8; loc++)
  {
    if (!R->begin(fmt("kernel/%d/%d/%d/%d", rq, hint, vt, loc))) continue; size_t w[3] = {0, 0, 0}; std::multiset<string> attr; string d;
    if (rq) { w[0] = 4 * rq; w[1] = rq == 2 ? 3 : 1; w[2] = rq == 3 ? 2 : 1; string t = fmt("reqd_work_group_size(%zu,%zu,%zu)", w[0], w[1], w[2]); attr.insert(t); d += "__attribute__((" + t + ")) "; }
    if (hint) { attr.insert("work_group_size_hint(8,2,1)"); d += "__attribute__((work_group_size_hint(8,2,1))) "; }
    if (vt) { const char* v[] = {"", "float4", "int", "uchar16"}; attr.insert(fmt("vec_type_hint(%s)", v[vt])); d += fmt("__attribute__((vec_type_hint(%s))) ", v[vt]); }
    string body; size_t ls = 0; if (loc & 1) { body += "local int a[7]; a[*o]=*o; o[1]=a[o[2]];"; ls += 28; } if (loc & 2) { body += "local double b[3]; b[*o]=*o; o[3]=b[o[4]];"; ls += 24; }
    cl_program p = cl->build("kernel " + d + "void k(global volatile int* o" + (loc & 4 ? ", local int* l" : "") + "){" + body + (loc & 4 ? "l[*o]=3;o[5]=l[o[6]];" : "") + "}\nkernel void kk(global int*o){local long c[9];c[*o]=1;*o=c[1];}", "-cl-opt-disable"); cl_kernel k = cl->kernel(p, "k");
    qtext("CL_KERNEL_ATTRIBUTES", KI(k, CL_KERNEL_ATTRIBUTES), [&](const string& s) { string t; for (size_t i = 0; i < s.size(); i++) if (s[i] != ' ' || (i && s[i - 1] == ')')) t += s[i]; return split(t, ' ') == attr; }, "the attributes of the source");
    q("CL_KERNEL_COMPILE_WORK_GROUP_SIZE", WI(k, CL_KERNEL_COMPILE_WORK_GROUP_SIZE), [&] { Bytes b; for (auto x : w) { auto v = val(x); b.insert(b.end(), v.begin(), v.end()); } return b; }());
    size_t mx = 0; clGetDeviceInfo(cl->dev, CL_DEVICE_MAX_WORK_GROUP_SIZE, 8, &mx, 0); Bytes b; if (forms("CL_KERNEL_WORK_GROUP_SIZE", WI(k, CL_KERNEL_WORK_GROUP_SIZE), b)) { size_t x = 0; memcpy(&x, b.data(), std::min<size_t>(8, b.size())); if (b.size() != 8 || !x || x > mx || (w[0] && x < w[0] * w[1] * w[2])) R->fail("value:CL_KERNEL_WORK_GROUP_SIZE", R->curCase + fmt(": %zu", x)); }
    if (forms("CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE", WI(k, CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE), b) && (b.size() != 8 || b == val((size_t)0))) R->fail("value:MULTIPLE", R->curCase); if (forms("CL_KERNEL_PRIVATE_MEM_SIZE", WI(k, CL_KERNEL_PRIVATE_MEM_SIZE), b) && b.size() != 8) R->fail("value:PRIVATE", R->curCase);
    size_t t3[3]; if (clGetKernelWorkGroupInfo(k, cl->dev, CL_KERNEL_GLOBAL_WORK_SIZE, 24, t3, 0) != CL_INVALID_VALUE) R->fail("global-work-size", R->curCase);
    for (size_t la : {0, 4, 100, 64}) // local memory of the kernel and of its argument once set
    {
      if (la && !(loc & 4)) continue; if (la) CK(clSetKernelArg(k, 1, la, 0));
      if (forms("CL_KERNEL_LOCAL_MEM_SIZE", WI(k, CL_KERNEL_LOCAL_MEM_SIZE), b)) { cl_ulong x = 0; memcpy(&x, b.data(), std::min<size_t>(8, b.size())); if (b.size() != 8 || x < ls + la || x > ls + la + 16) R->fail("value:CL_KERNEL_LOCAL_MEM_SIZE", R->curCase + fmt(": %lu for %zu bytes", (long)x, ls + la)); }
    }
    clReleaseKernel(k); clReleaseProgram(p);
  }
}
// Device limits: reported as configured and enforced exactly at the limit. In a child process per configuration.
static void device()
{
  #define DV(x) G_(clGetDeviceInfo(c.dev, x, n_, p_, r_))
  #define PL(x) G_(clGetPlatformInfo(c.plat, x, n_, p_, r_))
  auto run = [&](const std::function<void(CL&)>& f) { CL c; cl = &c; f(c); };
  const char* V[][2] = {{"OCLGRIND_MAX_WGSIZE", "1"}, {"OCLGRIND_MAX_WGSIZE", "64"}, {"OCLGRIND_MAX_WGSIZE", "1000"}, {"OCLGRIND_MAX_WGSIZE", "5000"}, {"OCLGRIND_LOCAL_MEM_SIZE", "64"}, {"OCLGRIND_LOCAL_MEM_SIZE", "1000"}, {"OCLGRIND_LOCAL_MEM_SIZE", "100000"}, {"OCLGRIND_CONSTANT_MEM_SIZE", "77"}, {"OCLGRIND_GLOBAL_MEM_SIZE", "4096"}, {"OCLGRIND_COMPUTE_UNITS", "7"}, {"", ""}};
  for (auto& a : V) for (auto& b : V)
  {
    if (!strcmp(a[0], b[0]) && *a[0]) continue; if (!R->begin(fmt("limits/%s=%s,%s=%s", a[0], a[1], b[0], b[1]))) continue;
    pid_t pid = fork(); if (pid) { int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) R->fail(WIFEXITED(st) && WEXITSTATUS(st) == 1 ? "limit" : "limit-crash", R->curCase + fmt(": see the failures of the child, status %d", st)); R->count("traces_validated_against_impl"); continue; }
    long before = R->nfail; if (*a[0]) setenv(a[0], a[1], 1); if (*b[0]) setenv(b[0], b[1], 1); CL c; cl = &c; 
    auto has = [&](const char* k, cl_ulong d) { return getenv(k) ? (cl_ulong)atoll(getenv(k)) : d; }; size_t mx = 0; cl_ulong lm = 0, gm = 0; CK(clGetDeviceInfo(c.dev, CL_DEVICE_MAX_WORK_GROUP_SIZE, 8, &mx, 0)); CK(clGetDeviceInfo(c.dev, CL_DEVICE_LOCAL_MEM_SIZE, 8, &lm, 0)); CK(clGetDeviceInfo(c.dev, CL_DEVICE_GLOBAL_MEM_SIZE, 8, &gm, 0));
    q("CL_DEVICE_MAX_WORK_GROUP_SIZE", DV(CL_DEVICE_MAX_WORK_GROUP_SIZE), val((size_t)has("OCLGRIND_MAX_WGSIZE", mx))); q("CL_DEVICE_LOCAL_MEM_SIZE", DV(CL_DEVICE_LOCAL_MEM_SIZE), val(has("OCLGRIND_LOCAL_MEM_SIZE", lm))); q("CL_DEVICE_GLOBAL_MEM_SIZE", DV(CL_DEVICE_GLOBAL_MEM_SIZE), val(has("OCLGRIND_GLOBAL_MEM_SIZE", gm))); q("CL_DEVICE_MAX_COMPUTE_UNITS", DV(CL_DEVICE_MAX_COMPUTE_UNITS), val((cl_uint)has("OCLGRIND_COMPUTE_UNITS", 1))); if (getenv("OCLGRIND_CONSTANT_MEM_SIZE")) q("CL_DEVICE_MAX_CONSTANT_BUFFER_SIZE", DV(CL_DEVICE_MAX_CONSTANT_BUFFER_SIZE), val((cl_ulong)77));
    size_t m3[3] = {mx, mx, mx}; { Bytes b; if (forms("CL_DEVICE_MAX_WORK_ITEM_SIZES", DV(CL_DEVICE_MAX_WORK_ITEM_SIZES), b)) { size_t s[3] = {0, 0, 0}; memcpy(s, b.data(), std::min<size_t>(24, b.size())); if (b.size() != 24 || !s[0] || !s[1] || !s[2] || s[0] > m3[0]) R->fail("value:CL_DEVICE_MAX_WORK_ITEM_SIZES", R->curCase); } }
    // enforcement at the limit
    cl_program p = c.build("kernel void k(global int* o, local int* l){ if (get_global_id(0)==0 && get_global_id(1)==0) *o = get_local_size(0)*get_local_size(1)*get_local_size(2); }"); cl_kernel k = c.kernel(p, "k"); cl_mem o = c.buf(4); c.arg(k, 0, o);
    for (cl_ulong l : {(cl_ulong)1, lm - 1, lm, lm + 1, lm * 2}) if (l) { CK(clSetKernelArg(k, 1, l, 0)); size_t g = 1; cl_int e = clEnqueueNDRangeKernel(c.q, k, 1, 0, &g, &g, 0, 0, 0); R->count("transitions"); if ((l <= lm) != (e == CL_SUCCESS)) R->fail("limit:local", R->curCase + fmt(": %lu bytes of local memory with limit %lu: %d", (long)l, (long)lm, e)); clFinish(c.q); }
    CK(clSetKernelArg(k, 1, 4, 0));
    for (size_t x : {(size_t)1, mx - 1, mx, mx + 1, mx * 2}) for (int d = 1; d <= 3; d++) for (size_t f : {1, 2})
    {
      if (!x || x % f || (d == 1 && f > 1)) continue; size_t g[3] = {x / f, 1, 1}; g[d - 1] *= f; int v = 0; cl_int e = clEnqueueNDRangeKernel(c.q, k, d, 0, g, g, 0, 0, 0); R->count("transitions");
      if (x <= mx ? e != CL_SUCCESS : e != CL_INVALID_WORK_GROUP_SIZE && e != CL_INVALID_WORK_ITEM_SIZE) R->fail("limit:wgsize", R->curCase + fmt(": work-group of %zu with limit %zu: %d", x, mx, e)); if (!e) { c.read(o, &v, 4); if (v != (int)x) R->fail("limit:run", R->curCase + fmt(": %d", v)); }
    }
    size_t ws; CK(clGetKernelWorkGroupInfo(k, c.dev, CL_KERNEL_WORK_GROUP_SIZE, 8, &ws, 0)); if (ws != mx) R->fail("limit:kernel", R->curCase);
    if (gm <= 4096) for (size_t n : {(size_t)1, gm - 1, gm, gm + 1, gm * 2}) { cl_int e; cl_mem m = clCreateBuffer(c.ctx, 0, n, 0, &e); if (n <= gm && e != CL_SUCCESS) R->fail("limit:buffer", R->curCase + fmt(": buffer of %zu: %d", n, e)); if (m) clReleaseMemObject(m); }
    fflush(R->out); _exit(R->nfail > before ? 1 : 0);
  }
  if (R->begin("platform")) run([&](CL& c) {
    auto any = [](const string& s) { return !s.empty(); }; qtext("CL_PLATFORM_PROFILE", PL(CL_PLATFORM_PROFILE), [](const string& s) { return s == "FULL_PROFILE" || s == "EMBEDDED_PROFILE"; }, "a profile"); qtext("CL_PLATFORM_NAME", PL(CL_PLATFORM_NAME), [](const string& s) { return s == "Oclgrind"; }, "Oclgrind"); qtext("CL_PLATFORM_VENDOR", PL(CL_PLATFORM_VENDOR), any, "text");
    string ver; qtext("CL_PLATFORM_VERSION", PL(CL_PLATFORM_VERSION), [&](const string& s) { ver = s; return s.compare(0, 7, "OpenCL ") == 0; }, "OpenCL x.y ..."); int ma = 0, mi = 0; sscanf(ver.c_str(), "OpenCL %d.%d", &ma, &mi); q("CL_PLATFORM_NUMERIC_VERSION", PL(CL_PLATFORM_NUMERIC_VERSION), val((cl_version)CL_MAKE_VERSION(ma, mi, 0)));
    qtext("0x0920", PL(0x0920), any, "text"); Bytes b; forms("CL_PLATFORM_HOST_TIMER_RESOLUTION", PL(CL_PLATFORM_HOST_TIMER_RESOLUTION), b);
    auto exts = [&](const char* w, const Get& t, const Get& v) { std::multiset<string> s, n; qtext(w, t, [&](const string& x) { s = split(x, ' '); return true; }, ""); Bytes b; if (forms(w, v, b)) for (size_t i = 0; i + sizeof(cl_name_version) <= b.size(); i += sizeof(cl_name_version)) n.insert(((cl_name_version*)&b[i])->name); if (s != n || s.empty()) R->fail("extensions", string(w) + ": the two lists of extensions differ"); };
    exts("CL_PLATFORM_EXTENSIONS", PL(CL_PLATFORM_EXTENSIONS), PL(CL_PLATFORM_EXTENSIONS_WITH_VERSION)); exts("CL_DEVICE_EXTENSIONS", DV(CL_DEVICE_EXTENSIONS), DV(CL_DEVICE_EXTENSIONS_WITH_VERSION));
    for (auto x : {CL_DEVICE_NAME, CL_DEVICE_VENDOR, CL_DRIVER_VERSION, CL_DEVICE_PROFILE, 0x40E0}) qtext(fmt("device text %x", x), DV(x), any, "text"); qtext("CL_DEVICE_BUILT_IN_KERNELS", DV(CL_DEVICE_BUILT_IN_KERNELS), [](const string& s) { return s.empty(); }, "empty");
    qtext("CL_DEVICE_VERSION", DV(CL_DEVICE_VERSION), [&](const string& s) { int a = -1, b = -1; sscanf(s.c_str(), "OpenCL %d.%d", &a, &b); return a == ma && b == mi; }, "the platform's version"); q("CL_DEVICE_NUMERIC_VERSION", DV(CL_DEVICE_NUMERIC_VERSION), val((cl_version)CL_MAKE_VERSION(ma, mi, 0))); qtext("CL_DEVICE_OPENCL_C_VERSION", DV(CL_DEVICE_OPENCL_C_VERSION), [](const string& s) { return s.compare(0, 11, "OpenCL C 1.") == 0 || s.compare(0, 11, "OpenCL C 2.") == 0 || s.compare(0, 11, "OpenCL C 3.") == 0; }, "OpenCL C x.y");
    q("CL_DEVICE_PLATFORM", DV(CL_DEVICE_PLATFORM), val(c.plat)); q("CL_DEVICE_ADDRESS_BITS", DV(CL_DEVICE_ADDRESS_BITS), val((cl_uint)64)); q("CL_DEVICE_PARENT_DEVICE", DV(CL_DEVICE_PARENT_DEVICE), val((cl_device_id)0)); q("CL_DEVICE_ENDIAN_LITTLE", DV(CL_DEVICE_ENDIAN_LITTLE), val((cl_bool)1)); q("CL_DEVICE_SVM_CAPABILITIES", DV(CL_DEVICE_SVM_CAPABILITIES), val((cl_device_svm_capabilities)0)); q("CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS", DV(CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS), val((cl_uint)3));
    q("CL_DEVICE_QUEUE_PROPERTIES", DV(CL_DEVICE_QUEUE_PROPERTIES), val((cl_command_queue_properties)3)); q("CL_DEVICE_EXECUTION_CAPABILITIES", DV(CL_DEVICE_EXECUTION_CAPABILITIES), val((cl_device_exec_capabilities)3)); q("CL_DEVICE_LOCAL_MEM_TYPE", DV(CL_DEVICE_LOCAL_MEM_TYPE), val((cl_device_local_mem_type)CL_LOCAL)); q("CL_DEVICE_REFERENCE_COUNT", DV(CL_DEVICE_REFERENCE_COUNT), val((cl_uint)1)); for (auto x : {CL_DEVICE_IMAGE_SUPPORT, CL_DEVICE_AVAILABLE, CL_DEVICE_COMPILER_AVAILABLE, CL_DEVICE_LINKER_AVAILABLE, CL_DEVICE_NON_UNIFORM_WORK_GROUP_SUPPORT}) q(fmt("device bool %x", x), DV(x), val((cl_bool)1));
    // minimum values of the full profile
    struct { cl_uint p; int sz; cl_ulong min; } m[] = {{CL_DEVICE_MAX_COMPUTE_UNITS, 4, 1}, {CL_DEVICE_MAX_WORK_GROUP_SIZE, 8, 1}, {CL_DEVICE_MAX_READ_IMAGE_ARGS, 4, 128}, {CL_DEVICE_MAX_WRITE_IMAGE_ARGS, 4, 64}, {CL_DEVICE_IMAGE2D_MAX_WIDTH, 8, 8192}, {CL_DEVICE_IMAGE2D_MAX_HEIGHT, 8, 8192}, {CL_DEVICE_IMAGE3D_MAX_WIDTH, 8, 2048}, {CL_DEVICE_IMAGE3D_MAX_HEIGHT, 8, 2048}, {CL_DEVICE_IMAGE3D_MAX_DEPTH, 8, 2048}, {CL_DEVICE_IMAGE_MAX_BUFFER_SIZE, 8, 65536}, {CL_DEVICE_IMAGE_MAX_ARRAY_SIZE, 8, 2048}, {CL_DEVICE_MAX_SAMPLERS, 4, 16}, {CL_DEVICE_MAX_PARAMETER_SIZE, 8, 1024}, {CL_DEVICE_MEM_BASE_ADDR_ALIGN, 4, 1024}, {CL_DEVICE_MAX_CONSTANT_BUFFER_SIZE, 8, 65536}, {CL_DEVICE_MAX_CONSTANT_ARGS, 4, 8}, {CL_DEVICE_LOCAL_MEM_SIZE, 8, 32768}, {CL_DEVICE_PROFILING_TIMER_RESOLUTION, 8, 1}, {CL_DEVICE_MAX_MEM_ALLOC_SIZE, 8, 1 << 25}, {CL_DEVICE_GLOBAL_MEM_SIZE, 8, 1 << 25}};
    for (auto& x : m) { Bytes b; if (!forms(fmt("device limit %x", x.p), DV(x.p), b)) continue; cl_ulong v = 0; memcpy(&v, b.data(), std::min<size_t>(8, b.size())); if ((int)b.size() != x.sz || v < x.min) R->fail("device-limit", fmt("device info %x is %lu in %zu bytes, at least %lu in %d expected", x.p, (long)v, b.size(), (long)x.min, x.sz)); }
    for (cl_uint x = 0x1000; x < 0x1080; x++) { size_t n; if (!clGetDeviceInfo(c.dev, x, 0, 0, &n)) { Bytes b; forms(fmt("device info %x", x), DV(x), b); } }
  });
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); Capture cap; device(); CL c; cl = &c; buffers(); images(); samplers(); queuesAndContexts(); events(); programs(); kernels();
  R->sample(fmt("last case: %s", R->curCase.c_str()));
}
VF_MAIN(body)
