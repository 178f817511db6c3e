// C15: host transfer commands move exactly the bytes they name. Every command form is executed for every small
// geometry on two objects; the model keeps the complete contents of both objects and of host memory.
#include "vf.hpp"
#include <algorithm>
#include <array>
using namespace vf;
typedef vector<uint8_t> Bytes;
static CL* cl;
static string mode; // how the command is issued: b = blocking, n = non-blocking + finish, e = non-blocking + wait for its event

struct Obj { cl_mem m; Bytes ref; Bytes host; };
static void readBack(cl_mem m, Bytes& out) { if (out.size()) cl->read(m, out.data(), out.size()); }
static string diff(const Bytes& a, const Bytes& b)
{
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return fmt("byte %zu is %02x, expected %02x", i, a[i], b[i]);
  return "";
}
static bool same(const char* key, const string& what, const Bytes& got, const Bytes& want)
{
  if (got == want) return true;
  R->fail(key, R->curCase + ": " + what + ": " + diff(got, want)); return false;
}
static cl_bool blocking() { return mode == "b"; }
static cl_event* evp(cl_event& e) { e = 0; return mode == "e" ? &e : 0; }
static void settle(cl_int err, cl_event e)
{
  R->count("transitions");
  if (err) { R->fail("rejected", R->curCase + fmt(": valid command rejected with %d", err)); return; }
  if (mode == "e")
  {
    cl_int st = -99;
    if (clWaitForEvents(1, &e)) R->fail("wait", R->curCase);
    clGetEventInfo(e, CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &st, 0); if (st) R->fail("status", R->curCase + fmt(": status %d", st));
    clReleaseEvent(e);
  }
  else if (mode == "n") CK(clFinish(cl->q));
}
static const size_t G = 24; // bytes of guard around host memory
// object kinds: 0 plain buffer, 1 sub-buffer, 2 USE_HOST_PTR, 3 sub-buffer of USE_HOST_PTR
struct Buf
{
  cl_mem parent = 0, m = 0; size_t origin = 0, size; Bytes ref; Bytes store; int kind;
  Buf(int kind, size_t n, unsigned salt) : size(n), kind(kind)
  {
    bool sub = kind & 1, uhp = kind & 2; size_t tot = sub ? n + 128 + 16 : n; origin = sub ? 128 : 0;
    ref.resize(tot); pattern(ref, salt); cl_int e;
    if (uhp) { store = ref; parent = clCreateBuffer(cl->ctx, CL_MEM_USE_HOST_PTR, tot, store.data(), &e); CK(e); }
    else parent = cl->buf(tot, ref.data());
    if (sub) { cl_buffer_region r = {origin, n}; m = clCreateSubBuffer(parent, 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); CK(e); }
    else { m = parent; clRetainMemObject(m); }
  }
  ~Buf() { clReleaseMemObject(m); clReleaseMemObject(parent); }
  uint8_t& at(size_t i) { return ref[origin + i]; }
  void check(const char* name) { Bytes b(ref.size()); readBack(parent, b); if (same("object", name, b, ref)) R->count("traces_validated_against_impl"); }
};
static void linear(size_t N)
{
  for (int kind = 0; kind < 4; kind++)
    for (size_t off = 0; off < N; off++) for (size_t n = 1; off + n <= N; n++)
      for (const char* md : {"b", "n", "e"})
      {
        mode = md; cl_event ev;
        if (R->begin(fmt("write/k%d/%zu+%zu/%s", kind, off, n, md)))
        {
          Buf b(kind, N, 1); Bytes h(n + 2 * G); pattern(h, 7); Bytes h0 = h; cl_int e = clEnqueueWriteBuffer(cl->q, b.m, blocking(), off, n, &h[G], 0, 0, evp(ev)); settle(e, ev);
          for (size_t i = 0; i < n; i++) b.at(off + i) = h[G + i];
          b.check("buffer after write"); same("host", "source memory", h, h0);
        }
        if (R->begin(fmt("read/k%d/%zu+%zu/%s", kind, off, n, md)))
        {
          Buf b(kind, N, 2); Bytes h(n + 2 * G); pattern(h, 7); Bytes w = h; cl_int e = clEnqueueReadBuffer(cl->q, b.m, blocking(), off, n, &h[G], 0, 0, evp(ev)); settle(e, ev);
          for (size_t i = 0; i < n; i++) w[G + i] = b.at(off + i);
          same("host", "destination memory", h, w); b.check("buffer after read");
        }
        // map (read, write, read+write, write-invalidate) and unmap
        for (cl_map_flags f : {(cl_map_flags)CL_MAP_READ, (cl_map_flags)CL_MAP_WRITE, (cl_map_flags)(CL_MAP_READ | CL_MAP_WRITE), (cl_map_flags)CL_MAP_WRITE_INVALIDATE_REGION})
          if (R->begin(fmt("map%d/k%d/%zu+%zu/%s", (int)f, kind, off, n, md)))
          {
            Buf b(kind, N, 3); cl_int e; uint8_t* p = (uint8_t*)clEnqueueMapBuffer(cl->q, b.m, blocking(), f, off, n, 0, 0, evp(ev), &e); settle(e, ev);
            if (!p) { R->fail("map-null", R->curCase); continue; }
            if (kind & 2) if (p != &b.store[b.origin + off]) R->fail("map-host-ptr", R->curCase + ": mapped pointer is not inside the host pointer");
            if (f != CL_MAP_WRITE_INVALIDATE_REGION && f != CL_MAP_WRITE) for (size_t i = 0; i < n; i++) if (p[i] != b.at(off + i)) { R->fail("map-contents", R->curCase + fmt(": mapped byte %zu", i)); break; }
            cl_uint mc = 0; clGetMemObjectInfo(b.m, CL_MEM_MAP_COUNT, 4, &mc, 0);
            if (f != CL_MAP_READ) for (size_t i = 0; i < n; i++) { p[i] = 0xA0 + i; b.at(off + i) = 0xA0 + i; }
            e = clEnqueueUnmapMemObject(cl->q, b.m, p, 0, 0, mode == "e" ? &ev : 0); if (mode == "b") { CK(e); CK(clFinish(cl->q)); } else settle(e, ev);
            b.check("buffer after map and unmap");
          }
        // fill
        for (size_t ps : {1, 2, 4, 8, 16})
          if (off % ps == 0 && n % ps == 0 && *md != 'b' && R->begin(fmt("fill%zu/k%d/%zu+%zu/%s", ps, kind, off, n, md)))
          {
            Buf b(kind, N, 4); Bytes p(ps); pattern(p, 9); cl_int e = clEnqueueFillBuffer(cl->q, b.m, p.data(), ps, off, n, 0, 0, evp(ev));
            Bytes p0 = p; if (mode == "n") for (auto& x : p) x = 0; // the pattern is captured when the call returns
            settle(e, ev); for (size_t i = 0; i < n; i++) b.at(off + i) = p0[i % ps]; b.check("buffer after fill");
          }
      }
  for (size_t ps : {32, 64, 128}) for (size_t n = 1; n <= 2; n++)
  {
    mode = "n"; if (!R->begin(fmt("fillbig%zu/%zu", ps, n))) continue;
    Buf b(0, 512, 4); Bytes p(ps); pattern(p, 9); cl_int e = clEnqueueFillBuffer(cl->q, b.m, p.data(), ps, ps, n * ps, 0, 0, 0); settle(e, 0);
    for (size_t i = 0; i < n * ps; i++) b.at(ps + i) = p[i % ps]; b.check("buffer after fill");
  }
  size_t C = std::min<size_t>(N, R->thorough ? 14 : 12);
  for (int ka = 0; ka < 4; ka++) for (int kb = 0; kb < 5; kb++) // kb == 4: same object
    for (size_t so = 0; so < C; so++) for (size_t d = 0; d < C; d++) for (size_t n = 1; so + n <= C && d + n <= C; n++)
    {
      if (kb == 4 && so < d + n && d < so + n) continue;
      mode = (so + d + n) & 1 ? "n" : "e"; cl_event ev;
      if (!R->begin(fmt("copy/k%d-k%d/%zu>%zu+%zu", ka, kb, so, d, n))) continue;
      Buf a(ka, C, 5); Buf b2(kb == 4 ? 0 : kb, C, 6); Buf& b = kb == 4 ? a : b2;
      cl_int e = clEnqueueCopyBuffer(cl->q, a.m, b.m, so, d, n, 0, 0, evp(ev)); settle(e, ev);
      Bytes t(n); for (size_t i = 0; i < n; i++) t[i] = a.at(so + i); for (size_t i = 0; i < n; i++) b.at(d + i) = t[i];
      a.check("source after copy"); if (kb != 4) b.check("destination after copy");
    }
}
// Rectangles: byte index of element (x,y,z) of a region
struct Rect { size_t o[3], rp, sp; size_t idx(size_t x, size_t y, size_t z, const size_t* r) const { size_t R_ = rp ? rp : r[0], S_ = sp ? sp : R_ * r[1]; return (o[2] + z) * S_ + (o[1] + y) * R_ + o[0] + x; } };
static void rects(size_t N)
{
  vector<std::array<size_t, 3>> regs, orgs; size_t m = 3;
  for (size_t x = 1; x <= 3; x++) for (size_t y = 1; y <= m; y++) for (size_t z = 1; z <= m; z++) regs.push_back({x, y, z});
  for (size_t x = 0; x <= 2; x++) for (size_t y = 0; y <= 1; y++) for (size_t z = 0; z <= 1; z++) orgs.push_back({x, y, z});
  auto pitches = [&](const std::array<size_t, 3>& r, const std::array<size_t, 3>& o) {
    vector<std::pair<size_t, size_t>> v; v.push_back({0, 0}); size_t rp = r[0] + o[0];
    v.push_back({rp, 0}); v.push_back({rp + 2, (rp + 2) * (r[1] + o[1])}); v.push_back({rp + 1, (rp + 1) * (r[1] + o[1] + 1)}); v.push_back({0, r[0] * r[1]}); v.push_back({0, r[0] * (r[1] + 2)});
    return v; };
  int c = 0;
  for (auto& r : regs) for (auto& bo : orgs) for (auto& bp : pitches(r, bo)) for (auto& ho : orgs) for (auto& hp : pitches(r, ho))
  {
    c++;
    
    Rect B = {{bo[0], bo[1], bo[2]}, bp.first, bp.second}, H = {{ho[0], ho[1], ho[2]}, hp.first, hp.second};
    size_t bmax = B.idx(r[0] - 1, r[1] - 1, r[2] - 1, r.data()), hmax = H.idx(r[0] - 1, r[1] - 1, r[2] - 1, r.data());
    string g = fmt("r%zu,%zu,%zu/b%zu,%zu,%zu:%zu,%zu/h%zu,%zu,%zu:%zu,%zu", r[0], r[1], r[2], bo[0], bo[1], bo[2], bp.first, bp.second, ho[0], ho[1], ho[2], hp.first, hp.second);
    // A row pitch below the region width or a slice pitch that is not a multiple is invalid: not generated. The object ends right after
    // the last byte of the rectangle half of the time.
    size_t bn = bmax + 1 + (c & 1 ? 0 : 5), hn = hmax + 1; int kind = (c / 2) % 4;
    for (int op = 0; op < 4; op++)
    {
      mode = c % 3 == 0 ? "b" : c % 3 == 1 ? "n" : "e"; cl_event ev = 0;
      const char* nm[] = {"readrect", "writerect", "copyrect", "copyrectsame"};
      if (op == 3 && !(r[0] <= 2 && r[1] <= 2)) continue;
      if (op == 3) { size_t rp = B.rp ? B.rp : r[0], sp = B.sp ? B.sp : rp * r[1]; Rect D = B; D.o[2] = bo[2] + r[2]; D.o[0] = D.o[1] = 0;
        if (bo[0] + r[0] > rp || (bo[1] + r[1]) * rp > sp || D.idx(r[0] - 1, r[1] - 1, r[2] - 1, r.data()) >= std::max(bn, hn) * 2 + 40) continue; }
      if (!R->begin(fmt("%s/k%d/", nm[op], kind) + g)) continue;
      if (op < 2)
      {
        Buf b(kind, bn, 1); Bytes h(hn + 2 * G); pattern(h, 7); Bytes w = h;
        cl_int e = op == 0 ? clEnqueueReadBufferRect(cl->q, b.m, blocking(), B.o, H.o, r.data(), B.rp, B.sp, H.rp, H.sp, &h[G], 0, 0, evp(ev))
                           : clEnqueueWriteBufferRect(cl->q, b.m, blocking(), B.o, H.o, r.data(), B.rp, B.sp, H.rp, H.sp, &h[G], 0, 0, evp(ev));
        settle(e, ev);
        for (size_t z = 0; z < r[2]; z++) for (size_t y = 0; y < r[1]; y++) for (size_t x = 0; x < r[0]; x++)
          if (op == 0) w[G + H.idx(x, y, z, r.data())] = b.at(B.idx(x, y, z, r.data())); else b.at(B.idx(x, y, z, r.data())) = w[G + H.idx(x, y, z, r.data())];
        same("host", "host memory", h, w); b.check("buffer");
      }
      else
      {
        if (mode == "b") mode = "n";
        size_t sn = std::max(bn, hn); Buf a(kind, op == 3 ? sn * 2 + 40 : bn, 1), b2(op == 3 ? 0 : (kind + 1) % 4, hn, 2); Buf& b = op == 3 ? a : b2; Rect D = H;
        if (op == 3) { // one object, disjoint halves: same pitches, destination shifted by whole slices
          D = B; D.o[2] = bo[2] + r[2]; D.o[0] = 0; D.o[1] = 0; }
        cl_int e = clEnqueueCopyBufferRect(cl->q, a.m, b.m, B.o, D.o, r.data(), B.rp, B.sp, D.rp, D.sp, 0, 0, evp(ev)); settle(e, ev);
        for (size_t z = 0; z < r[2]; z++) for (size_t y = 0; y < r[1]; y++) for (size_t x = 0; x < r[0]; x++) b.at(D.idx(x, y, z, r.data())) = a.at(B.idx(x, y, z, r.data()));
        a.check("source"); if (op == 2) b.check("destination");
      }
    }
  }
}
// Images
struct ImgT { const char* name; cl_mem_object_type t; size_t w, h, d, arr; };
struct FmtT { cl_channel_order o; cl_channel_type t; size_t ps; };
struct Img
{
  cl_mem m = 0, bb = 0; size_t ext[3]; size_t ps; Bytes ref; ImgT t; bool own = true;
  Img(const ImgT& it, const FmtT& f, unsigned salt, int how) : ps(f.ps), t(it)
  {
    ext[0] = it.w; ext[1] = it.h; ext[2] = it.d; if (it.t == CL_MEM_OBJECT_IMAGE1D_ARRAY) ext[1] = it.arr; if (it.t == CL_MEM_OBJECT_IMAGE2D_ARRAY) ext[2] = it.arr;
    ref.resize(ext[0] * ext[1] * ext[2] * ps); pattern(ref, salt);
    cl_image_format cf = {f.o, f.t}; cl_image_desc d; memset(&d, 0, sizeof d); d.image_type = it.t; d.image_width = it.w;
    if (it.t != CL_MEM_OBJECT_IMAGE1D && it.t != CL_MEM_OBJECT_IMAGE1D_BUFFER && it.t != CL_MEM_OBJECT_IMAGE1D_ARRAY) d.image_height = it.h;
    if (it.t == CL_MEM_OBJECT_IMAGE3D) d.image_depth = it.d; d.image_array_size = it.arr; cl_int e;
    if (it.t == CL_MEM_OBJECT_IMAGE1D_BUFFER) { bb = cl->buf(ref.size(), ref.data()); d.buffer = bb; m = clCreateImage(cl->ctx, CL_MEM_READ_WRITE, &cf, &d, 0, &e); }
    else if (how == 0) m = clCreateImage(cl->ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, &cf, &d, ref.data(), &e);
    else { // initial data with row (and slice) padding
      size_t rp = ext[0] * ps + 2 * ps, rows = it.t == CL_MEM_OBJECT_IMAGE1D_ARRAY ? 1 : ext[1], slices = it.t == CL_MEM_OBJECT_IMAGE1D_ARRAY ? ext[1] : ext[2]; size_t sp = rp * (rows + (it.t == CL_MEM_OBJECT_IMAGE1D_ARRAY ? 0 : 1)); Bytes pad(sp * slices + 64, 0xEE);
      for (size_t s = 0; s < slices; s++) for (size_t y = 0; y < rows; y++) memcpy(&pad[s * sp + y * rp], &ref[(s * rows + y) * ext[0] * ps], ext[0] * ps);
      d.image_row_pitch = rp; if (slices > 1 || it.arr > 1) d.image_slice_pitch = sp;
      m = clCreateImage(cl->ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, &cf, &d, pad.data(), &e); }
    CK(e);
  }
  ~Img() { clReleaseMemObject(m); if (bb) clReleaseMemObject(bb); }
  size_t idx(size_t x, size_t y, size_t z) { return ((z * ext[1] + y) * ext[0] + x) * ps; }
  void check(const char* n)
  {
    Bytes b(ref.size()); size_t o[3] = {0, 0, 0};
    cl_int e = clEnqueueReadImage(cl->q, m, CL_TRUE, o, ext, 0, 0, b.data(), 0, 0, 0);
    if (e) { R->fail("readback-rejected", R->curCase + fmt(": %d", e)); return; }
    if (same("image", n, b, ref)) R->count("traces_validated_against_impl");
  }
};
static void images()
{
  ImgT types[] = {{"1d", CL_MEM_OBJECT_IMAGE1D, 4, 1, 1, 1}, {"2d", CL_MEM_OBJECT_IMAGE2D, 3, 3, 1, 1}, {"3d", CL_MEM_OBJECT_IMAGE3D, 3, 2, 2, 1}, {"1da", CL_MEM_OBJECT_IMAGE1D_ARRAY, 3, 1, 1, 3},
    {"2da", CL_MEM_OBJECT_IMAGE2D_ARRAY, 3, 2, 1, 2}, {"1db", CL_MEM_OBJECT_IMAGE1D_BUFFER, 4, 1, 1, 1}};
  vector<FmtT> fm = {{CL_RGBA, CL_UNSIGNED_INT8, 4}, {CL_R, CL_FLOAT, 4}, {CL_RGBA, CL_FLOAT, 16}, {CL_R, CL_UNORM_INT8, 1}, {CL_RG, CL_SIGNED_INT16, 4}, {CL_RGBA, CL_HALF_FLOAT, 8}};
  if (!R->thorough) fm.resize(4);
  for (auto& t : types) for (auto& f : fm)
  {
    string base = fmt("%s/%x-%x", t.name, f.o, f.t);
    size_t ext[3]; { ext[0] = t.w; ext[1] = t.t == CL_MEM_OBJECT_IMAGE1D_ARRAY ? t.arr : t.h; ext[2] = t.t == CL_MEM_OBJECT_IMAGE2D_ARRAY ? t.arr : t.d; }
    if (t.t != CL_MEM_OBJECT_IMAGE1D_BUFFER) for (int how = 0; how < 2; how++) if (R->begin("imginit/" + base + fmt("/%d", how))) { Img i(t, f, 3, how); i.check("initial contents"); R->count("transitions"); }
    for (size_t x = 0; x < ext[0]; x++) for (size_t y = 0; y < ext[1]; y++) for (size_t z = 0; z < ext[2]; z++)
      for (size_t w = 1; x + w <= ext[0]; w++) for (size_t h = 1; y + h <= ext[1]; h++) for (size_t d = 1; z + d <= ext[2]; d++)
      {
        size_t o[3] = {x, y, z}, r[3] = {w, h, d}; string g = base + fmt("/%zu,%zu,%zu+%zu,%zu,%zu", x, y, z, w, h, d); int hs = x + y + z + w + h + d;
        bool arr1 = t.t == CL_MEM_OBJECT_IMAGE1D_ARRAY, has3 = t.t == CL_MEM_OBJECT_IMAGE3D || t.t == CL_MEM_OBJECT_IMAGE2D_ARRAY, flat = t.t == CL_MEM_OBJECT_IMAGE1D || t.t == CL_MEM_OBJECT_IMAGE1D_BUFFER;
        for (int pv = 0; pv < 3; pv++)
        {
          // host layout: rp between rows, sp between slices; for 1D arrays the slice pitch separates the array elements
          size_t rp = pv == 0 ? 0 : pv == 1 ? w * f.ps : w * f.ps + 2 * f.ps, R_ = rp ? rp : w * f.ps, sp = 0, S_ = R_ * h;
          if (pv == 2 && has3) { sp = R_ * h + R_; S_ = sp; }
          if (pv == 2 && flat) { }
          if (pv == 2 && arr1) { sp = R_; }
          auto hidx = [&](size_t a, size_t b, size_t c) { return c * S_ + b * R_ + a * f.ps; };
          size_t hn = hidx(w - 1, h - 1, d - 1) + f.ps;
          for (int op = 0; op < 2; op++)
          {
            mode = hs % 3 == 0 ? "b" : hs % 3 == 1 ? "n" : "e"; cl_event ev = 0;
            if (!R->begin(fmt("%simg/p%d/", op ? "write" : "read", pv) + g)) continue;
            Img im(t, f, 3, 0); Bytes hb(hn + 2 * G); pattern(hb, 5); Bytes wt = hb;
            cl_int e = op ? clEnqueueWriteImage(cl->q, im.m, blocking(), o, r, rp, sp, &hb[G], 0, 0, evp(ev)) : clEnqueueReadImage(cl->q, im.m, blocking(), o, r, rp, sp, &hb[G], 0, 0, evp(ev));
            settle(e, ev);
            for (size_t c = 0; c < d; c++) for (size_t b = 0; b < h; b++) for (size_t a = 0; a < w; a++) for (size_t k = 0; k < f.ps; k++)
              if (op) im.ref[im.idx(x + a, y + b, z + c) + k] = wt[G + hidx(a, b, c) + k]; else wt[G + hidx(a, b, c) + k] = im.ref[im.idx(x + a, y + b, z + c) + k];
            same("host", "host memory", hb, wt); im.check("image");
          }
        }
        // image <-> buffer
        for (size_t off : {(size_t)0, (size_t)5}) for (int op = 0; op < 2; op++)
        {
          mode = hs % 2 ? "n" : "e"; cl_event ev = 0; if (!R->begin(fmt("%s/%zu/", op ? "buf2img" : "img2buf", off) + g)) continue;
          Img im(t, f, 3, 0); size_t n = w * h * d * f.ps; Buf b(hs % 4, off + n + (hs % 2) * 3, 4);
          cl_int e = op ? clEnqueueCopyBufferToImage(cl->q, b.m, im.m, off, o, r, 0, 0, evp(ev)) : clEnqueueCopyImageToBuffer(cl->q, im.m, b.m, o, r, off, 0, 0, evp(ev)); settle(e, ev);
          for (size_t c = 0; c < d; c++) for (size_t bb = 0; bb < h; bb++) for (size_t a = 0; a < w; a++) for (size_t k = 0; k < f.ps; k++)
          { uint8_t& p = im.ref[im.idx(x + a, y + bb, z + c) + k]; uint8_t& q = b.at(off + ((c * h + bb) * w + a) * f.ps + k); if (op) p = q; else q = p; }
          im.check("image"); b.check("buffer");
        }
        // map
        for (cl_map_flags mf : {(cl_map_flags)CL_MAP_READ, (cl_map_flags)CL_MAP_WRITE})
        {
          mode = hs % 3 == 0 ? "b" : hs % 3 == 1 ? "n" : "e"; cl_event ev = 0; if (!R->begin(fmt("mapimg%d/", (int)mf) + g)) continue;
          Img im(t, f, 3, 0); cl_int e; size_t rp = 0, sp = 0; uint8_t* p = (uint8_t*)clEnqueueMapImage(cl->q, im.m, blocking(), mf, o, r, &rp, &sp, 0, 0, evp(ev), &e); settle(e, ev); if (!p) { R->fail("map-null", R->curCase); continue; }
          bool bad = false; size_t ystep = arr1 ? sp : rp;
          for (size_t c = 0; c < d; c++) for (size_t b = 0; b < h; b++) for (size_t a = 0; a < w; a++) for (size_t k = 0; k < f.ps; k++)
          { uint8_t& q = p[c * sp + b * ystep + a * f.ps + k]; uint8_t& rr = im.ref[im.idx(x + a, y + b, z + c) + k]; if (q != rr && mf == CL_MAP_READ) bad = true; if (mf != CL_MAP_READ) { q = a * 16 + b * 4 + c + k * 64; rr = q; } }
          if (bad) R->fail("map-contents", R->curCase);
          CK(clEnqueueUnmapMemObject(cl->q, im.m, p, 0, 0, 0)); CK(clFinish(cl->q)); im.check("image after map and unmap");
        }
        // fill
        if (f.t != CL_HALF_FLOAT && f.t != CL_UNORM_INT8)
        {
          mode = "n"; if (R->begin("fillimg/" + g))
          {
            Img im(t, f, 3, 0); uint32_t ci[4] = {7, 129, 33, 255}; float cf[4] = {1.5f, -2.25f, 3.0f, 1e10f}; Bytes px(f.ps);
            if (f.t == CL_FLOAT) memcpy(px.data(), cf, f.ps); else if (f.t == CL_UNSIGNED_INT8) for (int k = 0; k < 4; k++) px[k] = ci[k]; else { int16_t s[2] = {7, 129}; memcpy(px.data(), s, 4); }
            cl_int e = clEnqueueFillImage(cl->q, im.m, f.t == CL_FLOAT ? (void*)cf : (void*)ci, o, r, 0, 0, 0); settle(e, 0);
            for (size_t c = 0; c < d; c++) for (size_t b = 0; b < h; b++) for (size_t a = 0; a < w; a++) memcpy(&im.ref[im.idx(x + a, y + b, z + c)], px.data(), f.ps);
            im.check("image after fill");
          }
        }
        // image to image, of the same and of other types with the same format
        for (auto& t2 : types)
        {
          size_t e2[3] = {t2.w, t2.t == CL_MEM_OBJECT_IMAGE1D_ARRAY ? t2.arr : t2.h, t2.t == CL_MEM_OBJECT_IMAGE2D_ARRAY ? t2.arr : t2.d};
          size_t o2[3]; for (int dd = 0; dd < 2; dd++)
          {
            bool fit = true; for (int k = 0; k < 3; k++) { if (r[k] > e2[k]) { fit = false; break; } o2[k] = dd ? e2[k] - r[k] : 0; } if (!fit) continue;
            if (&f != &fm[0] && &t2 != &t) continue;
            mode = hs % 2 ? "n" : "e"; cl_event ev = 0; if (!R->begin(fmt("copyimg/%s:%d/", t2.name, dd) + g)) continue;
            Img a(t, f, 3, 0), b(t2, f, 8, 0); cl_int e = clEnqueueCopyImage(cl->q, a.m, b.m, o, o2, r, 0, 0, evp(ev)); settle(e, ev);
            for (size_t c = 0; c < d; c++) for (size_t bb = 0; bb < h; bb++) for (size_t aa = 0; aa < w; aa++) memcpy(&b.ref[b.idx(o2[0] + aa, o2[1] + bb, o2[2] + c)], &a.ref[a.idx(x + aa, y + bb, z + c)], f.ps);
            a.check("source image"); b.check("destination image");
          }
        }
      }
  }
}
#include <array>
// Several live mappings of one object and of sub-buffers of one parent
static void multimap()
{
  for (int a = 0; a < 12; a++) for (int b = 0; b < 12; b++) for (int order = 0; order < 2; order++) for (int sub = 0; sub < 2; sub++)
  {
    size_t ao = (a % 4) * 4, an = 4 + 4 * (a / 4), bo = (b % 4) * 4, bn = 4 + 4 * (b / 4); if (ao + an > 20 || bo + bn > 20) continue;
    bool disjoint = ao + an <= bo || bo + bn <= ao; mode = "b";
    if (!R->begin(fmt("multimap/%zu+%zu/%zu+%zu/%d/%d", ao, an, bo, bn, order, sub))) continue;
    Buf x(sub, 20, 1); cl_int e; cl_map_flags fa = CL_MAP_WRITE | CL_MAP_READ, fb = disjoint ? fa : CL_MAP_READ; if (!disjoint) fa = CL_MAP_READ;
    uint8_t* p = (uint8_t*)clEnqueueMapBuffer(cl->q, x.m, CL_TRUE, fa, ao, an, 0, 0, 0, &e); CK(e); uint8_t* q = (uint8_t*)clEnqueueMapBuffer(cl->q, x.m, CL_TRUE, fb, bo, bn, 0, 0, 0, &e); CK(e);
    for (size_t i = 0; i < an; i++) { if (p[i] != x.at(ao + i)) R->fail("map-contents", R->curCase); if (disjoint) { p[i] = 0x11 * i; x.at(ao + i) = p[i]; } }
    for (size_t i = 0; i < bn; i++) { if (q[i] != x.at(bo + i)) R->fail("map-contents", R->curCase); if (disjoint) { q[i] = 0x13 * i + 3; x.at(bo + i) = q[i]; } }
    CK(clEnqueueUnmapMemObject(cl->q, x.m, order ? q : p, 0, 0, 0)); CK(clEnqueueUnmapMemObject(cl->q, x.m, order ? p : q, 0, 0, 0)); CK(clFinish(cl->q)); R->count("transitions", 4);
    x.check("buffer after two mappings");
  }
}
// Sizes around every power of two up to 1 MiB: one command of every form, with an unaligned offset, so that whatever block size
// the implementation works in is crossed. Contents are a hash of the position.
static void hashFill(Bytes& b, unsigned salt) { uint32_t x = salt * 2654435761u + 1; for (auto& v : b) { x = x * 1664525u + 1013904223u; v = x >> 24; } }
struct Big { Buf b; Big(int kind, size_t n, unsigned salt) : b(kind, n, 0) { Bytes h(n); hashFill(h, salt); cl->write(b.m, h.data(), n); for (size_t i = 0; i < n; i++) b.at(i) = h[i]; } };
static void large()
{
  vector<size_t> sizes; for (size_t p = 64; p <= (1u << 20); p *= (p >= 65536 ? 4 : p >= 8192 ? 2 : 2)) for (int d = -1; d <= 1; d++) sizes.push_back(p + d);
  for (size_t n : {100, 1000, 3000, 10000, 99999, 300007}) sizes.push_back(n);
  int c = 0;
  for (size_t n : sizes) for (size_t off : {0, 5}) for (int kind = 0; kind < 4; kind++)
  {
    if (n > 70000 && !R->thorough && (kind || off)) continue;
    mode = c % 3 == 0 ? "b" : c % 3 == 1 ? "n" : "e"; c++; cl_event ev = 0; cl_int e; size_t N = n + 11;
    if (R->begin(fmt("large/write/k%d/%zu+%zu", kind, off, n)))
    {
      Big x(kind, N, 1); Bytes h(n); hashFill(h, 2); e = clEnqueueWriteBuffer(cl->q, x.b.m, blocking(), off, n, h.data(), 0, 0, evp(ev)); settle(e, ev);
      for (size_t i = 0; i < n; i++) x.b.at(off + i) = h[i]; x.b.check("buffer after write");
    }
    if (R->begin(fmt("large/read/k%d/%zu+%zu", kind, off, n)))
    {
      Big x(kind, N, 3); Bytes h(n + 2 * G); hashFill(h, 4); Bytes w = h; e = clEnqueueReadBuffer(cl->q, x.b.m, blocking(), off, n, &h[G], 0, 0, evp(ev)); settle(e, ev);
      for (size_t i = 0; i < n; i++) w[G + i] = x.b.at(off + i); same("host", "destination memory", h, w); x.b.check("buffer after read");
    }
    if (R->begin(fmt("large/map/k%d/%zu+%zu", kind, off, n)))
    {
      Big x(kind, N, 5); uint8_t* p = (uint8_t*)clEnqueueMapBuffer(cl->q, x.b.m, blocking(), CL_MAP_READ | CL_MAP_WRITE, off, n, 0, 0, evp(ev), &e); settle(e, ev);
      if (!p) { R->fail("map-null", R->curCase); continue; }
      for (size_t i = 0; i < n; i++) if (p[i] != x.b.at(off + i)) { R->fail("map-contents", R->curCase + fmt(": mapped byte %zu", i)); break; }
      for (size_t i = 0; i < n; i++) x.b.at(off + i) = p[i] = (uint8_t)(p[i] * 3 + i); ev = 0;
      e = clEnqueueUnmapMemObject(cl->q, x.b.m, p, 0, 0, mode == "e" ? &ev : 0); if (mode == "b") { CK(e); CK(clFinish(cl->q)); } else settle(e, ev);
      x.b.check("buffer after map and unmap");
    }
    if (mode == "b") mode = "n";
    for (int kb : {0, 3}) if (R->begin(fmt("large/copy/k%d-k%d/%zu+%zu", kind, kb, off, n)))
    {
      Big x(kind, N, 6), y(kb, N, 7); e = clEnqueueCopyBuffer(cl->q, x.b.m, y.b.m, off, 3, n, 0, 0, evp(ev)); settle(e, ev);
      for (size_t i = 0; i < n; i++) y.b.at(3 + i) = x.b.at(off + i); x.b.check("source after copy"); y.b.check("destination after copy");
    }
    for (int dir = 0; dir < 2; dir++) if (R->begin(fmt("large/copysame%d/k%d/%zu+%zu", dir, kind, off, n)))
    {
      size_t lo = off, hi = off + n + (off ? 3 : 0); Big x(kind, hi + n + 1, 8); size_t so = dir ? hi : lo, d = dir ? lo : hi;
      e = clEnqueueCopyBuffer(cl->q, x.b.m, x.b.m, so, d, n, 0, 0, evp(ev)); settle(e, ev);
      for (size_t i = 0; i < n; i++) x.b.at(d + i) = x.b.at(so + i); x.b.check("object after copy");
    }
    for (size_t ps : {1, 4, 16, 128}) if (n >= 2 * ps && R->begin(fmt("large/fill%zu/k%d/%zu+%zu", ps, kind, off, n)))
    {
      size_t o = off ? ps : 0, m = (n / ps) * ps; Big x(kind, m + o + 7, 9); Bytes p(ps); hashFill(p, 10); e = clEnqueueFillBuffer(cl->q, x.b.m, p.data(), ps, o, m, 0, 0, evp(ev)); settle(e, ev);
      for (size_t i = 0; i < m; i++) x.b.at(o + i) = p[i % ps]; x.b.check("buffer after fill");
    }
  }
  // rectangles with many bytes per row, many rows or many slices
  const size_t shapes[][3] = {{300, 3, 2}, {3, 300, 2}, {2, 3, 300}, {65, 33, 17}, {4097, 5, 1}, {5, 4097, 1}, {1, 1, 1025}, {257, 129, 3}, {65537, 2, 1}};
  for (auto& r : shapes) for (int pad = 0; pad < 2; pad++) for (int op = 0; op < 3; op++)
  {
    const char* nm[] = {"readrect", "writerect", "copyrect"}; mode = c % 3 == 0 && op < 2 ? "b" : c % 3 == 1 ? "n" : "e"; c++; cl_event ev = 0; cl_int e;
    if (!R->begin(fmt("large/%s/%zu,%zu,%zu/%d", nm[op], r[0], r[1], r[2], pad))) continue;
    Rect B = {{(size_t)(pad ? 3 : 0), (size_t)pad, (size_t)pad}, pad ? r[0] + 5 : 0, pad ? (r[0] + 5) * (r[1] + 2) : 0}, H = {{(size_t)(pad ? 1 : 0), (size_t)(pad ? 2 : 0), 0}, pad ? r[0] + 1 : 0, 0};
    if (pad) H.sp = H.rp * (r[1] + 2);
    size_t bn = B.idx(r[0] - 1, r[1] - 1, r[2] - 1, r) + 1, hn = H.idx(r[0] - 1, r[1] - 1, r[2] - 1, r) + 1; Big x(0, bn, 1);
    auto each = [&](auto f) { for (size_t z = 0; z < r[2]; z++) for (size_t y = 0; y < r[1]; y++) for (size_t i = 0; i < r[0]; i++) f(B.idx(i, y, z, r), H.idx(i, y, z, r)); };
    if (op < 2)
    {
      Bytes h(hn + 2 * G); hashFill(h, 2); Bytes w = h;
      e = op == 0 ? clEnqueueReadBufferRect(cl->q, x.b.m, blocking(), B.o, H.o, r, B.rp, B.sp, H.rp, H.sp, &h[G], 0, 0, evp(ev)) : clEnqueueWriteBufferRect(cl->q, x.b.m, blocking(), B.o, H.o, r, B.rp, B.sp, H.rp, H.sp, &h[G], 0, 0, evp(ev));
      settle(e, ev); each([&](size_t b, size_t k) { if (op == 0) w[G + k] = x.b.at(b); else x.b.at(b) = w[G + k]; }); same("host", "host memory", h, w); x.b.check("buffer");
    }
    else
    {
      Big y(1, hn, 3); e = clEnqueueCopyBufferRect(cl->q, x.b.m, y.b.m, B.o, H.o, r, B.rp, B.sp, H.rp, H.sp, 0, 0, evp(ev)); settle(e, ev);
      each([&](size_t b, size_t k) { y.b.at(k) = x.b.at(b); }); x.b.check("source"); y.b.check("destination");
    }
  }
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); Capture cap; CL c; cl = &c;
  linear(R->thorough ? 24 : 16); large(); multimap(); rects(0); images();
  R->sample(fmt("last case: %s", R->curCase.c_str()));
}
VF_MAIN(body)
