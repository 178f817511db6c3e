// C07: accesses that violate object flags, host mappings or static array bounds are reported, no other access is.
#include "vf.hpp"
using namespace vf;
static CL* cl; static Capture* cap;
struct Acc { string name, code; int size, align; bool load, store; }; // code uses global uchar *q and out
static vector<Acc> accs()
{
  vector<Acc> v;
  for (int n : {1, 2, 3, 4, 8})
  {
    v.push_back({fmt("ld%d", n), n == 1 ? "out[0] += *q;" : fmt("out[0] += vload%d(0, q).s0;", n), n, 1, true, false});
    v.push_back({fmt("st%d", n), n == 1 ? "*q = 7;" : fmt("vstore%d((uchar%d)(7), 0, q);", n, n), n, 1, false, true});
  }
  v.push_back({"ldint", "out[0] += *(global int*)q;", 4, 4, true, false});
  v.push_back({"stlong", "*(global long*)q = 9;", 8, 8, false, true});
  v.push_back({"ldfloat4", "float4 v = *(global float4*)q; out[0] += (int)(v.x + v.y + v.z + v.w);", 16, 16, true, false});
  v.push_back({"stshort", "*(global short*)q = 9;", 2, 2, false, true});
  v.push_back({"ldst", "*(global int*)q += 3;", 4, 4, true, true});
  v.push_back({"atomic_add", "atomic_add((volatile global int*)q, 3);", 4, 4, true, true});
  v.push_back({"atomic_inc", "atomic_inc((volatile global int*)q);", 4, 4, true, true});
  v.push_back({"atomic_xchg", "atomic_xchg((volatile global int*)q, 5);", 4, 4, true, true});
  v.push_back({"atomic_cmpxchg", "atomic_cmpxchg((volatile global int*)q, *(volatile global int*)q, 5);", 4, 4, true, true});
  return v;
}
static vector<Acc> A; static cl_kernel K; static cl_mem tabF, tabO, outb;
static const int MAXT = 1024;
struct Rep { int badRead = 0, badWrite = 0, mapRead = 0, mapWrite = 0, other = 0; };
static std::map<long, Rep> parse(const string& log)
{
  std::map<long, Rep> m; size_t p = 0;
  while (p < log.size())
  {
    size_t e = log.find("\n\n", p); if (e == string::npos) e = log.size(); string s = log.substr(p, e - p); p = e + 1; while (p < log.size() && log[p] == '\n') p++;
    size_t g = s.find("Entity: Global("); long id = g == string::npos ? -1 : atol(s.c_str() + g + 15); Rep& r = m[id];
    if (s.find("Invalid read from write-only buffer") != string::npos) r.badRead++;
    else if (s.find("Invalid write to read-only buffer") != string::npos) r.badWrite++;
    else if (s.find("Invalid read from buffer mapped for writing") != string::npos) r.mapRead++;
    else if (s.find("Invalid write to mapped buffer") != string::npos) r.mapWrite++;
    else if (s.find_first_not_of("\n ") != string::npos) r.other++;
  }
  return m;
}
struct Reg { int off, len; cl_map_flags fl; };
static const char* fname(cl_map_flags f) { return f == CL_MAP_READ ? "R" : f == CL_MAP_WRITE ? "W" : f == (CL_MAP_READ | CL_MAP_WRITE) ? "RW" : "I"; }
// Runs one work-item per (form, offset) over object m (whose first byte is `base` in the coordinates of regs) and judges each report
static void sweep(cl_mem m, int N, int base, const vector<Reg>& regs, bool ro, bool wo, const string& ctx, cl_kernel k = 0)
{
  if (!k) k = K;
  vector<cl_int> f, o; for (size_t i = 0; i < A.size(); i++) for (int off = 0; off + A[i].size <= N; off++) if ((off % A[i].align) == 0) { f.push_back(i); o.push_back(off); }
  if (f.size() > MAXT) R->internal("table");
  cl->write(tabF, f.data(), f.size() * 4); cl->write(tabO, o.data(), o.size() * 4); cl->arg(k, 0, m); CK(clFinish(cl->q));
  cap->clear(); CK(cl->launch1(k, f.size(), 1)); string log = cap->get(); auto rep = parse(log); R->count("transitions", f.size());
  for (size_t i = 0; i < f.size(); i++)
  {
    const Acc& a = A[f[i]]; int lo = base + o[i], hi = lo + a.size; bool mr = false, mw = false; int nmr = 0, nmw = 0;
    for (auto& r : regs) if (lo < r.off + r.len && hi > r.off) { mw = true; nmw++; if (r.fl != CL_MAP_READ) mr = true, nmr++; }
    Rep r = rep.count(i) ? rep[i] : Rep(); string d = ctx + " " + a.name + fmt("@%d", lo);
    auto chk = [&](const char* what, bool want, int got) { if (want && !got) R->fail(string("missed:") + what + ":" + a.name, d + ": not reported: " + what); if (!want && got) R->fail(string("false:") + what + ":" + a.name, d + ": wrongly reported: " + what); };
    chk("write to read-only", ro && a.store, r.badWrite); chk("read from write-only", wo && a.load, r.badRead);
    chk("write to mapped", mw && a.store, r.mapWrite); chk("read from mapped for writing", mr && a.load, r.mapRead); chk("other report", false, r.other);
  }
  if (rep.count(-1)) R->fail("no-entity", ctx + ": report without entity: " + log.substr(0, 300));
}
static void* mapR(cl_mem m, const Reg& r) { cl_int e; void* p = clEnqueueMapBuffer(cl->q, m, CL_TRUE, r.fl, r.off, r.len, 0, 0, 0, &e); CK(e); if (!p) R->internal("map"); return p; }
static void unmap(cl_mem m, void* p) { CK(clEnqueueUnmapMemObject(cl->q, m, p, 0, 0, 0)); CK(clFinish(cl->q)); }
static void mapping()
{
  const int N = 24; bool T = R->thorough; vector<cl_map_flags> FL = {CL_MAP_READ, CL_MAP_WRITE, CL_MAP_READ | CL_MAP_WRITE, CL_MAP_WRITE_INVALIDATE_REGION};
  // one region, every interval
  for (auto fl : FL) for (int o = 0; o < N; o++) for (int l = 1; o + l <= N; l++)
  {
    if (!R->begin(fmt("map1/%s/%d/%d", fname(fl), o, l))) continue;
    cl_mem b1 = cl->buf(N), m = cl->buf(N), b2 = cl->buf(N); Reg r = {o, l, fl}; string d = R->curCase;
    void* p = mapR(m, r); sweep(m, N, 0, {r}, false, false, d + " mapped"); sweep(b1, N, 0, {}, false, false, d + " other buffer"); if (T) sweep(b2, N, 0, {}, false, false, d + " other buffer");
    unmap(m, p); sweep(m, N, 0, {}, false, false, d + " unmapped");
    clReleaseMemObject(b1); clReleaseMemObject(m); clReleaseMemObject(b2); R->count("traces_validated_against_impl", 4);
  }
  // two regions, mapped and unmapped in every order, on the same or on two buffers
  vector<std::pair<int, int>> iv; for (auto p : T ? vector<std::pair<int, int>>{{0, 24}, {0, 1}, {0, 8}, {3, 2}, {4, 4}, {4, 8}, {8, 8}, {7, 9}, {12, 12}, {16, 8}, {23, 1}} : vector<std::pair<int, int>>{{0, 24}, {0, 8}, {4, 8}, {8, 8}, {23, 1}}) iv.push_back(p);
  for (auto f1 : FL) for (auto f2 : FL) for (auto i1 : iv) for (auto i2 : iv) for (int same = 0; same < 2; same++) for (int order = 0; order < 3; order++)
  {
    Reg r1 = {i1.first, i1.second, f1}, r2 = {i2.first, i2.second, f2}; bool amb = same && r1.off == r2.off && (r1.len != r2.len || f1 != f2);
    if (!T && !same && order != (int)f1 % 3) continue;
    if (amb) continue; // which of two mappings at one pointer an unmap ends is not defined
    if (!R->begin(fmt("map2/%s[%d,%d]/%s[%d,%d]/%d/%d", fname(f1), r1.off, r1.len, fname(f2), r2.off, r2.len, same, order))) continue;
    string d = R->curCase; cl_mem m = cl->buf(N), n = same ? m : cl->buf(N); void *p1, *p2;
    auto both = [&](vector<Reg> a, vector<Reg> b, const char* st) { if (same) { a.insert(a.end(), b.begin(), b.end()); sweep(m, N, 0, a, false, false, d + st); } else { sweep(m, N, 0, a, false, false, d + st); sweep(n, N, 0, b, false, false, d + st); } };
    p1 = mapR(m, r1);
    if (order == 2) { unmap(m, p1); p2 = mapR(n, r2); both({}, {r2}, " (-1 +2)"); unmap(n, p2); both({}, {}, " (none)"); }
    else
    {
      p2 = mapR(n, r2); both({r1}, {r2}, " (+1 +2)");
      if (order == 0) { unmap(m, p1); both({}, {r2}, " (-1)"); unmap(n, p2); } else { unmap(n, p2); both({r1}, {}, " (-2)"); unmap(m, p1); }
      both({}, {}, " (none)");
    }
    clReleaseMemObject(m); if (!same) clReleaseMemObject(n); R->count("traces_validated_against_impl", 3);
  }
  // mappings of sub-buffers and accesses through them
  for (auto fl : FL) for (int so : {0, 128}) for (auto i1 : iv) for (int via = 0; via < 2; via++)
  {
    if (!R->begin(fmt("mapsub/%s/%d/%d,%d/%d", fname(fl), so, i1.first, i1.second, via))) continue; string d = R->curCase;
    cl_mem par = cl->buf(256); cl_buffer_region br = {(size_t)so, (size_t)N}; cl_int e; cl_mem sub = clCreateSubBuffer(par, 0, CL_BUFFER_CREATE_TYPE_REGION, &br, &e); CK(e);
    Reg r = {i1.first, i1.second, fl}, abs = {so + r.off, r.len, fl};
    void* p = via ? mapR(par, abs) : mapR(sub, r); sweep(sub, N, so, {abs}, false, false, d + " via sub-buffer"); sweep(par, 32, 0, {abs}, false, false, d + " via parent");
    unmap(via ? par : sub, p); sweep(sub, N, so, {}, false, false, d + " unmapped"); clReleaseMemObject(sub); clReleaseMemObject(par); R->count("traces_validated_against_impl", 3);
  }
  // the command takes effect when it executes, not when it is enqueued; host commands are not kernel accesses
  for (auto fl : FL)
  {
    if (!R->begin(fmt("maphost/%s", fname(fl)))) continue; string d = R->curCase; cl_mem m = cl->buf(N); uint8_t h[24] = {0}; Reg r = {4, 8, fl}; void* p = mapR(m, r); cap->clear();
    cl->write(m, h, N); cl->read(m, h, N); CK(clEnqueueFillBuffer(cl->q, m, h, 1, 0, N, 0, 0, 0)); CK(clFinish(cl->q)); string l = cap->get(); if (!l.empty()) R->fail("false:host", d + ": " + l.substr(0, 300)); R->count("transitions", 3); unmap(m, p); clReleaseMemObject(m);
  }
}
static void mappedImages()
{
  cl_program p = cl->build("constant sampler_t s = CLK_NORMALIZED_COORDS_FALSE|CLK_ADDRESS_CLAMP_TO_EDGE|CLK_FILTER_NEAREST;\n"
    "kernel void rd(read_only image2d_t i, global uint *o) { int g = get_global_id(0); int w = get_image_width(i); o[g] = read_imageui(i, s, (int2)(g % w, g / w)).x; }\n"
    "kernel void wr(write_only image2d_t i, global uint *o) { int g = get_global_id(0); int w = get_image_width(i); write_imageui(i, (int2)(g % w, g / w), (uint4)(g)); }\n", "-cl-std=CL1.2");
  cl_kernel k[2] = {cl->kernel(p, "rd"), cl->kernel(p, "wr")}; cl_mem o = cl->buf(256);
  for (cl_channel_type ct : {CL_UNSIGNED_INT8, CL_UNSIGNED_INT32}) for (cl_map_flags fl : {(cl_map_flags)CL_MAP_READ, (cl_map_flags)CL_MAP_WRITE})
    for (size_t x = 0; x < 4; x++) for (size_t w = 1; x + w <= 4; w++) for (size_t y = 0; y < 3; y++) for (size_t h = 1; y + h <= 3; h++)
    {
      if (!R->begin(fmt("mapimg/%x/%s/%zu+%zu/%zu+%zu", ct, fname(fl), x, w, y, h))) continue; string d = R->curCase;
      cl_image_format f = {CL_RGBA, ct}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = CL_MEM_OBJECT_IMAGE2D; ds.image_width = 4; ds.image_height = 3; cl_int e;
      cl_mem im = clCreateImage(cl->ctx, CL_MEM_READ_WRITE, &f, &ds, 0, &e); CK(e); size_t org[3] = {x, y, 0}, reg[3] = {w, h, 1}, rp; 
      void* ptr = clEnqueueMapImage(cl->q, im, CL_TRUE, fl, org, reg, &rp, 0, 0, 0, 0, &e); CK(e);
      for (int ph = 0; ph < 2; ph++)
      {
        for (int wr = 0; wr < 2; wr++)
        {
          cl->arg(k[wr], 0, im); cl->arg(k[wr], 1, o); cap->clear(); CK(cl->launch1(k[wr], 12, 1)); auto rep = parse(cap->get()); R->count("transitions", 12);
          for (size_t g = 0; g < 12; g++)
          {
            size_t tx = g % 4, ty = g / 4; bool in = !ph && tx >= x && tx < x + w && ty >= y && ty < y + h; bool span = !ph && g >= y * 4 + x && g < (y + h - 1) * 4 + x + w; if (in != span) continue; // between rows of the region: not judged
            bool want = in && (wr || fl != CL_MAP_READ); Rep r = rep.count(g) ? rep[g] : Rep(); int got = wr ? r.mapWrite : r.mapRead;
            if (want != (got > 0)) R->fail(string(want ? "missed" : "false") + ":image", d + fmt(" %s texel %zu,%zu", wr ? "write" : "read", tx, ty)); if (r.other || r.badRead || r.badWrite) R->fail("false:image-other", d);
          }
        }
        if (!ph) unmap(im, ptr);
      }
      clReleaseMemObject(im); R->count("traces_validated_against_impl", 2);
    }
  // every box of three-dimensional, array and one-dimensional images
  struct Sh { const char* n; cl_mem_object_type t; size_t w, h, d; const char* ty; const char* co; };
  cl_kernel kk[2];
  for (auto& sh : vector<Sh>{{"3d", CL_MEM_OBJECT_IMAGE3D, 3, 2, 3, "image3d_t", "(int4)(g % 3, g / 3 % 2, g / 6, 0)"}, {"2da", CL_MEM_OBJECT_IMAGE2D_ARRAY, 3, 2, 3, "image2d_array_t", "(int4)(g % 3, g / 3 % 2, g / 6, 0)"}, {"1da", CL_MEM_OBJECT_IMAGE1D_ARRAY, 3, 3, 1, "image1d_array_t", "(int2)(g % 3, g / 3)"}, {"1d", CL_MEM_OBJECT_IMAGE1D, 6, 1, 1, "image1d_t", "g"}})
  {
    bool has3w = sh.t == CL_MEM_OBJECT_IMAGE3D; size_t N3 = sh.w * sh.h * sh.d;
    string src = string("#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable\nconstant sampler_t s = CLK_NORMALIZED_COORDS_FALSE|CLK_ADDRESS_CLAMP_TO_EDGE|CLK_FILTER_NEAREST;\nkernel void rd(read_only ") + sh.ty + " i, global uint *o) { int g = get_global_id(0); o[g] = read_imageui(i, s, " + sh.co + ").x; }\n";
    src += string("kernel void wr(write_only ") + sh.ty + " i, global uint *o) { int g = get_global_id(0); write_imageui(i, " + sh.co + ", (uint4)(g)); }\n"; (void)has3w;
    cl_program p3 = cl->build(src.c_str(), "-cl-std=CL1.2"); kk[0] = cl->kernel(p3, "rd"); kk[1] = cl->kernel(p3, "wr");
    for (cl_channel_type ct : {CL_UNSIGNED_INT8, CL_UNSIGNED_INT16}) for (int pitch = 0; pitch < 1; pitch++) for (cl_map_flags fl : {(cl_map_flags)CL_MAP_READ, (cl_map_flags)CL_MAP_WRITE, (cl_map_flags)(CL_MAP_READ | CL_MAP_WRITE)})
      for (size_t x = 0; x < sh.w; x++) for (size_t w = 1; x + w <= sh.w; w++) for (size_t y = 0; y < sh.h; y++) for (size_t h = 1; y + h <= sh.h; h++) for (size_t z = 0; z < sh.d; z++) for (size_t dd = 1; z + dd <= sh.d; dd++)
      {
        if (!R->begin(fmt("mapimg/%s/%x/%s/%zu+%zu/%zu+%zu/%zu+%zu", sh.n, ct, fname(fl), x, w, y, h, z, dd))) continue; string d = R->curCase;
        cl_image_format f = {CL_RGBA, ct}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = sh.t; ds.image_width = sh.w; ds.image_height = sh.h; ds.image_depth = sh.d; ds.image_array_size = sh.t == CL_MEM_OBJECT_IMAGE1D_ARRAY ? sh.h : sh.d; cl_int e;
        cl_mem im = clCreateImage(cl->ctx, CL_MEM_READ_WRITE, &f, &ds, 0, &e); CK(e); size_t org[3] = {x, y, z}, reg[3] = {w, h, dd}, rp, sp;
        void* ptr = clEnqueueMapImage(cl->q, im, CL_TRUE, fl, org, reg, &rp, &sp, 0, 0, 0, &e); CK(e); size_t first = (z * sh.h + y) * sh.w + x, last = ((z + dd - 1) * sh.h + y + h - 1) * sh.w + x + w - 1;
        for (int ph = 0; ph < 2; ph++)
        {
          for (int wr = 0; wr < 2; wr++)
          {
            cl->arg(kk[wr], 0, im); cl->arg(kk[wr], 1, o); cap->clear(); CK(cl->launch1(kk[wr], N3, 1)); auto rep = parse(cap->get()); R->count("transitions", N3);
            for (size_t g = 0; g < N3; g++)
            {
              size_t tx = g % sh.w, ty = g / sh.w % sh.h, tz = g / sh.w / sh.h; bool in = !ph && tx >= x && tx < x + w && ty >= y && ty < y + h && tz >= z && tz < z + dd, span = !ph && g >= first && g <= last; if (in != span) continue;
              bool want = in && (wr || fl != CL_MAP_READ); Rep r = rep.count(g) ? rep[g] : Rep(); int got = wr ? r.mapWrite : r.mapRead;
              if (want != (got > 0)) R->fail(string(want ? "missed" : "false") + ":image", d + fmt(" %s texel %zu,%zu,%zu", wr ? "write" : "read", tx, ty, tz)); if (r.other || r.badRead || r.badWrite) R->fail("false:image-other", d);
            }
          }
          if (!ph) unmap(im, ptr);
        }
        clReleaseMemObject(im); R->count("traces_validated_against_impl", 2);
      }
    clReleaseKernel(kk[0]); clReleaseKernel(kk[1]); clReleaseProgram(p3);
  }
  // image access flags
  for (cl_mem_flags fl : {CL_MEM_READ_WRITE, CL_MEM_READ_ONLY, CL_MEM_WRITE_ONLY}) for (int wr = 0; wr < 2; wr++)
  {
    if (!R->begin(fmt("imgflags/%d/%d", (int)fl, wr))) continue; if ((fl == CL_MEM_READ_ONLY && wr) || (fl == CL_MEM_WRITE_ONLY && !wr)) { /* a launch may already be rejected */ }
    cl_image_format f = {CL_RGBA, CL_UNSIGNED_INT8}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = CL_MEM_OBJECT_IMAGE2D; ds.image_width = 4; ds.image_height = 3; cl_int e;
    cl_mem im = clCreateImage(cl->ctx, fl, &f, &ds, 0, &e); CK(e); cap->clear(); cl_int s = clSetKernelArg(k[wr], 0, sizeof im, &im); cl->arg(k[wr], 1, o);
    if (!s) s = cl->launch1(k[wr], 12, 1); auto rep = parse(cap->get()); R->count("transitions", 12);
    bool bad = (fl == CL_MEM_READ_ONLY && wr) || (fl == CL_MEM_WRITE_ONLY && !wr); int n = 0; for (auto& r : rep) n += wr ? r.second.badWrite : r.second.badRead;
    if (bad && !s && !n) R->fail("missed:imgflags", R->curCase); if (!bad && (s || !rep.empty())) R->fail("false:imgflags", R->curCase); clReleaseMemObject(im);
  }
}
static void flags()
{
  alignas(128) static uint8_t host[256];
  cl_program cp = cl->build("kernel void c(constant int *p, global int *o) { o[get_global_id(0)] = p[get_global_id(0)]; }\n"
    "kernel void acp(global int *p, local int *l, global int *q) { event_t e = async_work_group_copy(l, p, 4, 0); wait_group_events(1, &e); e = async_work_group_copy(q, l, 4, 0); wait_group_events(1, &e); }\n", "-cl-std=CL1.2");
  cl_kernel kc = cl->kernel(cp, "c"), ka = cl->kernel(cp, "acp");
  for (cl_mem_flags acc : {(cl_mem_flags)0, (cl_mem_flags)CL_MEM_READ_WRITE, (cl_mem_flags)CL_MEM_READ_ONLY, (cl_mem_flags)CL_MEM_WRITE_ONLY})
    for (cl_mem_flags how : {(cl_mem_flags)0, (cl_mem_flags)CL_MEM_ALLOC_HOST_PTR, (cl_mem_flags)CL_MEM_COPY_HOST_PTR, (cl_mem_flags)CL_MEM_USE_HOST_PTR, (cl_mem_flags)(CL_MEM_ALLOC_HOST_PTR | CL_MEM_COPY_HOST_PTR)})
      for (cl_mem_flags ha : {(cl_mem_flags)0, (cl_mem_flags)CL_MEM_HOST_READ_ONLY, (cl_mem_flags)CL_MEM_HOST_WRITE_ONLY, (cl_mem_flags)CL_MEM_HOST_NO_ACCESS}) for (int sub = 0; sub < 2; sub++)
      {
        if (!R->begin(fmt("flags/%d/%d/%d/%d", (int)acc, (int)how, (int)ha, sub))) continue; string d = R->curCase; cl_int e;
        cl_mem m = clCreateBuffer(cl->ctx, acc | how | ha, 64, how & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR) ? host : 0, &e); CK(e); cl_mem u = m;
        if (sub) { cl_buffer_region br = {0, 32}; u = clCreateSubBuffer(m, 0, CL_BUFFER_CREATE_TYPE_REGION, &br, &e); CK(e); }
        bool ro = acc == CL_MEM_READ_ONLY, wo = acc == CL_MEM_WRITE_ONLY;
        sweep(u, 24, 0, {}, ro, wo, d);
        cl->arg(kc, 0, u); cl->arg(kc, 1, outb); cap->clear(); CK(cl->launch1(kc, 4, 1)); auto rep = parse(cap->get()); int n = 0, x = 0; for (auto& r : rep) n += r.second.badRead, x += r.second.badWrite + r.second.mapRead + r.second.mapWrite + r.second.other;
        if (wo != (n > 0) || x) R->fail("constant-arg", d + fmt(": %d/%d reports", n, x)); R->count("transitions", 4);
        for (int dir = 0; dir < 2; dir++)
        {
          cl_mem other = cl->buf(64); cl->arg(ka, 0, dir ? other : u); cl->localArg(ka, 1, 16); cl->arg(ka, 2, dir ? u : other); cap->clear(); CK(cl->launch1(ka, 2, 2)); string l = cap->get(); R->count("transitions", 2);
          int br = countOf(l, "Invalid read from write-only buffer"), bw = countOf(l, "Invalid write to read-only buffer"), all = countOf(l, "Invalid ");
          if ((br > 0) != (!dir && wo) || (bw > 0) != (dir && ro) || all != br + bw) R->fail("async-copy", d + fmt(" dir %d: ", dir) + l.substr(0, 300)); clReleaseMemObject(other);
        }
        if (sub) clReleaseMemObject(u); clReleaseMemObject(m); R->count("traces_validated_against_impl", 4);
      }
}
// ---- static arrays
// (the optimiser folds subscripts of one-element arrays and lowers those of arrays of structures before the simulator sees them)
struct Shape { string name, decl, expr; vector<int> dims; string type; }; // expr uses i, j, k
static void arrays()
{
  bool T = R->thorough;
  struct SC { string name, pre, q; bool st; int how; };
  for (const char* opt : {"", "-cl-opt-disable"})
    for (string type : {"int", "char", "ulong", "float4", "short"})
      for (int how = 0; how < 5; how++) // private, volatile private, local, program constant, struct in global buffer
      {
        if (!T && type != "int" && type != "char" && how != 0) continue;
        vector<Shape> S = {{"a1", "T a[4]", "a[i]", {4}}, {"a1one", "T a[1]", "a[i]", {1}}, {"a2", "T a[3][2]", "a[i][j]", {3, 2}}, {"s1", "struct S1 a", "a.v[i]", {3}}, {"s2", "struct S2 a[2]", "a[i].t.v[j]", {2, 3}}, {"a3", "T a[2][3][2]", "a[i][j][k]", {2, 3, 2}}, {"a5", "T a[5]", "a[i]", {5}}};
        string src = fmt("typedef %s T;\nstruct S1 { char c; T v[3]; T w; };\nstruct S2 { T z; struct S1 t; };\n", type.c_str());
        for (auto& s : S)
        {
          string d = s.decl; size_t p = d.find(" a"); string decl = d; 
          if (how == 3) src += "constant " + d.substr(0, p) + " C" + s.name + d.substr(p + 2) + " = {" + (s.name == "s1" ? string("1,{(T)(1),(T)(2),(T)(3)},(T)(4)") : s.name == "s2" ? string("{(T)(1),{1,{(T)(1),(T)(2),(T)(3)},(T)(4)}}") : s.dims.size() == 3 ? string("{{(T)(1)}}") : s.dims.size() == 2 ? string("{(T)(1)}") : string("(T)(1)")) + "};\n";
          if (how == 4) src += "struct G" + s.name + " { int pad; " + d + "; };\n";
          for (int st = 0; st < (how == 3 ? 1 : 2); st++) for (string it : {"int", "long", "uint"})
          {
            string e = s.expr; if (how == 3) e = "C" + s.name + e.substr(1); if (how == 4) e = "g->" + e;
            src += fmt("kernel void %s_%s_%s(global T *out, %s i, %s j, %s k, global %s *g) {\n", s.name.c_str(), st ? "st" : "ld", it.c_str(), it.c_str(), it.c_str(), it.c_str(), how == 4 ? ("struct G" + s.name).c_str() : "int");
            if (how == 0) src += "  " + d + "; for (int z = 0; z < sizeof(a); z++) ((char*)&a)[z] = 1;\n"; if (how == 1) src += "  volatile " + d + "; for (int z = 0; z < sizeof(a); z++) ((volatile char*)&a)[z] = 1;\n"; if (how == 2) src += "  local " + d + "; for (int z = 0; z < sizeof(a); z++) ((local char*)&a)[z] = 1;\n";
            if (st) { src += "  " + e + " = out[0];\n"; if (how < 3) src += "  char r = 0; for (int z = 0; z < sizeof(a); z++) r += ((" + string(how == 1 ? "volatile " : how == 2 ? "local " : "") + "char*)&a)[z]; out[1] = (T)(r);\n"; }
            else src += "  out[0] = " + e + ";\n";
            src += "}\n";
          }
        }
        cl_program p = 0; cl_mem out = 0, g = 0;
        for (auto& s : S) for (int st = 0; st < (how == 3 ? 1 : 2); st++) for (string it : {"int", "long", "uint"})
        {
          cl_kernel k = 0; vector<long> iv[3]; for (size_t d = 0; d < 3; d++) { if (d >= s.dims.size()) iv[d] = {0}; else { for (long x = -2; x <= s.dims[d] + 2; x++) iv[d].push_back(x); if (s.dims.size() == 1) { iv[d].push_back(1000); iv[d].push_back(-1000); if (it == "long") { iv[d].push_back(1l << 32); iv[d].push_back(-(1l << 32) + 1); } iv[d].push_back(0x7fffffff); } } }
          for (long i : iv[0]) for (long j : iv[1]) for (long l : iv[2])
          {
            if (it == "uint" && (i < 0 || j < 0 || l < 0)) continue;
            if (!T && s.dims.size() == 3 && (it != "int" || type != "int")) continue;
            if (!R->begin(fmt("array%s/%s/%d/%s/%s/%s/%ld,%ld,%ld", opt, type.c_str(), how, s.name.c_str(), st ? "st" : "ld", it.c_str(), i, j, l))) continue;
            string id = R->curCase;
            if (!p) { p = cl->build(src, string("-cl-std=CL1.2 ") + opt); out = cl->buf(256); g = cl->buf(4096); }
            if (!k) k = cl->kernel(p, s.name + (st ? "_st_" : "_ld_") + it);
            cl->arg(k, 0, out); cl->arg(k, 4, g); long v[3] = {i, j, l}; for (int d = 0; d < 3; d++) { if (it == "long") { cl_long x = v[d]; cl->arg(k, 1 + d, x); } else { cl_int x = v[d]; cl->arg(k, 1 + d, x); } }
            cap->clear(); CK(cl->launch1(k, 1, 1)); string log = cap->get(); R->count("transitions"); int bad = 0; bool named = false;
            for (size_t d = 0; d < s.dims.size(); d++) if (v[d] < 0 || v[d] >= s.dims[d]) { bad++; if (log.find(fmt("Index (%ld) exceeds static array size (%d)", v[d], s.dims[d])) != string::npos) named = true; }
            int got = countOf(log, "exceeds static array size");
            if (bad && !got && (*opt || (s.name != "a1one" && s.name != "s2"))) R->fail("missed:array:" + s.name + fmt(":%d%s", how, opt), id + ": index outside the array not reported"); if (bad && got && !named) R->fail("wrong:array:" + s.name, id + ": " + log.substr(0, 300));
            if (!bad && !log.empty()) R->fail("false:array:" + s.name, id + ": " + log.substr(0, 300)); R->count("traces_validated_against_impl");
          }
          if (k) clReleaseKernel(k);
        }
        if (p) { clReleaseProgram(p); clReleaseMemObject(out); clReleaseMemObject(g); }
      }
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); Capture cp; cap = &cp; CL c; cl = &c; A = accs();
  string src = "kernel void k(global uchar *p, global int *out, global int *f, global int *o) { int g = get_global_id(0); global uchar *q = p + o[g];\n switch (f[g]) {\n";
  for (size_t i = 0; i < A.size(); i++) src += fmt("case %zu: { %s break; }\n", i, A[i].code.c_str());
  src += "} }\n"; cl_program p = c.build(src, "-cl-std=CL1.2"); K = c.kernel(p, "k"); outb = c.buf(64); tabF = c.buf(4 * MAXT); tabO = c.buf(4 * MAXT); c.arg(K, 1, outb); c.arg(K, 2, tabF); c.arg(K, 3, tabO);
  mapping(); mappedImages(); flags(); arrays();
  R->sample("last case of this shard: " + R->curCase);
}
VF_MAIN(body)
