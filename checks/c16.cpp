// C16: every API call over an exhaustive product of small argument domains, against a model of the documented preconditions.
#include "vf.hpp"
#include <algorithm>
using namespace vf;
typedef unsigned __int128 u128;
static CL* cl; static Capture* cap; static int notified; static cl_context other; static cl_event otherEv, goodEv;
static const size_t HUGE1 = SIZE_MAX, HUGE2 = (size_t)1 << 63, HUGE3 = SIZE_MAX - 3, BIG = (size_t)1 << 32;

static const char* ename(cl_int e)
{
#define N(x) case x: return #x;
  switch (e) {
    N(CL_INVALID_VALUE) N(CL_INVALID_CONTEXT) N(CL_INVALID_DEVICE) N(CL_INVALID_COMMAND_QUEUE) N(CL_INVALID_MEM_OBJECT) N(CL_INVALID_EVENT_WAIT_LIST)
    N(CL_INVALID_OPERATION) N(CL_MEM_COPY_OVERLAP) N(CL_IMAGE_FORMAT_MISMATCH) N(CL_INVALID_KERNEL) N(CL_INVALID_WORK_DIMENSION) N(CL_INVALID_WORK_GROUP_SIZE)
    N(CL_INVALID_WORK_ITEM_SIZE) N(CL_INVALID_KERNEL_ARGS) N(CL_OUT_OF_RESOURCES) N(CL_INVALID_ARG_INDEX) N(CL_INVALID_ARG_SIZE) N(CL_INVALID_ARG_VALUE)
    N(CL_INVALID_SAMPLER) N(CL_INVALID_PROGRAM) N(CL_INVALID_PROGRAM_EXECUTABLE) N(CL_INVALID_KERNEL_NAME) N(CL_INVALID_EVENT) N(CL_INVALID_BUFFER_SIZE)
    N(CL_INVALID_HOST_PTR) N(CL_INVALID_IMAGE_SIZE) N(CL_INVALID_IMAGE_DESCRIPTOR) N(CL_INVALID_IMAGE_FORMAT_DESCRIPTOR) N(CL_IMAGE_FORMAT_NOT_SUPPORTED)
    N(CL_MEM_OBJECT_ALLOCATION_FAILURE) N(CL_INVALID_BINARY) N(CL_BUILD_PROGRAM_FAILURE) N(CL_COMPILE_PROGRAM_FAILURE) N(CL_LINK_PROGRAM_FAILURE) N(CL_INVALID_PROPERTY)
    N(CL_INVALID_QUEUE_PROPERTIES) N(CL_PROFILING_INFO_NOT_AVAILABLE) N(CL_KERNEL_ARG_INFO_NOT_AVAILABLE) N(CL_DEVICE_NOT_FOUND) N(CL_INVALID_GLOBAL_WORK_SIZE)
    N(CL_MAP_FAILURE) N(CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST) N(CL_OUT_OF_HOST_MEMORY) N(CL_MISALIGNED_SUB_BUFFER_OFFSET) N(CL_INVALID_DEVICE_PARTITION_COUNT) N(CL_INVALID_PLATFORM)
  }
  static char b[20]; snprintf(b, 20, "%d", e); return b;
}

// Expected outcome: `errs` must be returned (empty: success), `may` lists errors that are allowed besides.
struct Exp
{
  std::set<cl_int> errs, may; bool hasCtx = true;
  void bad(cl_int e) { errs.insert(e); }
  void bad2(cl_int e, cl_int f) { errs.insert(e); alt.insert(f); }
  std::set<cl_int> alt; // further codes acceptable when an error is due
  void either(cl_int e) { may.insert(e); }
};
static const cl_event SENT = (cl_event)0x1234;
static string estr(const std::set<cl_int>& s) { string o; for (auto e : s) o += (o.empty() ? "" : "|") + string(ename(e)); return o.empty() ? "CL_SUCCESS" : o; }

// Judges the outcome r of one call of function fn. Returns true when the call was (rightly) rejected.
static bool judge(const char* fn, const Exp& x, cl_int r, const string& what, bool needReport = true)
{
  string s = cap->get(); int reps = countOf(s, "OpenCL runtime error detected");
  R->count("transitions");
  string key = string(fn) + ":";
  if (r == CL_SUCCESS)
  {
    if (!x.errs.empty()) { R->fail(key + "accepted:" + ename(*x.errs.begin()), what + " returned CL_SUCCESS, expected " + estr(x.errs)); return false; }
    if (reps) R->fail(key + "reported-valid", what + " succeeded but an error was reported: " + s);
    if (notified) R->fail(key + "notified-valid", what + " succeeded but the context callback was called");
    return false;
  }
  if (x.errs.empty() && !x.may.count(r)) R->fail(key + "rejected-valid", what + " returned " + ename(r) + ", expected CL_SUCCESS: " + s);
  else if (!x.errs.empty() && !x.errs.count(r) && !x.may.count(r) && !x.alt.count(r)) R->fail(key + "wrong-code:" + ename(*x.errs.begin()), what + " returned " + ename(r) + ", expected " + estr(x.errs));
  if (needReport)
  {
    if (reps != 1) R->fail(key + "report-count", what + fmt(" returned %s and produced %d API error reports", ename(r), reps));
    else
    {
      if (s.find(string("Function: ") + fn + "\n") == string::npos) R->fail(key + "report-function", what + " reported for another function: " + s);
      if (s.find(string("Error:    ") + ename(r) + "\n") == string::npos) R->fail(key + "report-error", what + " reported another error than it returned (" + ename(r) + "): " + s);
      if (x.hasCtx && notified != 1) R->fail(key + "callback-count", what + fmt(" failed with %s; the context callback was called %d times", ename(r), notified));
    }
  }
  return true;
}
static void arm() { cap->clear(); notified = 0; }

// ---- memory under test ----------------------------------------------------------------------------
static const size_t N = 64;
struct Mem { cl_mem m; size_t size; const char* name; };
static cl_mem parentA, subA, bufB, hostNo, hostRO, hostWO, roomy; static vector<uint8_t> patA, patB;
static vector<uint8_t> hostBuf(65536), hostPat(65536);
static uint8_t* backA; static uint8_t* backB;
static void setupBuffers()
{
  patA.resize(N * 2); pattern(patA, 1); patB.resize(N); pattern(patB, 2); pattern(hostPat, 3); hostBuf = hostPat;
  backA = (uint8_t*)aligned_alloc(64, N * 2); backB = (uint8_t*)aligned_alloc(64, N); memcpy(backA, patA.data(), N * 2); memcpy(backB, patB.data(), N);
  cl_int e; parentA = clCreateBuffer(cl->ctx, CL_MEM_USE_HOST_PTR, N * 2, backA, &e); CK(e); bufB = clCreateBuffer(cl->ctx, CL_MEM_USE_HOST_PTR, N, backB, &e); CK(e);
  cl_buffer_region r = {16, N}; subA = clCreateSubBuffer(parentA, 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); CK(e);
  hostNo = cl->buf(N, 0, CL_MEM_HOST_NO_ACCESS); hostRO = cl->buf(N, 0, CL_MEM_HOST_READ_ONLY); hostWO = cl->buf(N, 0, CL_MEM_HOST_WRITE_ONLY);
}
static void restore() { memcpy(backA, patA.data(), N * 2); memcpy(backB, patB.data(), N); }
static bool touched() { return memcmp(backA, patA.data(), N * 2) || memcmp(backB, patB.data(), N); }

struct Wait { const char* name; cl_uint n; const cl_event* l; cl_int err; };
static cl_event nullEv = 0; static cl_event evs2[2];
static vector<Wait> waits()
{
  evs2[0] = goodEv; evs2[1] = 0;
  return {{"none", 0, 0, 0}, {"good", 1, &goodEv, 0}, {"n0list", 0, &goodEv, CL_INVALID_EVENT_WAIT_LIST}, {"n1null", 1, 0, CL_INVALID_EVENT_WAIT_LIST},
          {"nullevent", 1, &nullEv, CL_INVALID_EVENT_WAIT_LIST}, {"second-null", 2, evs2, CL_INVALID_EVENT_WAIT_LIST}, {"othercontext", 1, &otherEv, CL_INVALID_CONTEXT}};
}
// Runs one enqueue call and judges it together with its side effects.
template <class F> static void enq(const string& id, const char* fn, const Exp& x, F call)
{
  if (!R->begin(id)) return;
  arm(); cl_event ev = SENT; cl_int r = call(&ev);
  bool rej = judge(fn, x, r, id);
  if (r != CL_SUCCESS)
  {
    if (ev != SENT) R->fail(string(fn) + ":event-of-rejected", id + " failed but returned an event");
    clFinish(cl->q);
    if (touched()) R->fail(string(fn) + ":memory-of-rejected", id + " failed but changed a buffer");
    if (hostBuf != hostPat) R->fail(string(fn) + ":host-of-rejected", id + " failed but changed host memory");
  }
  else
  {
    if (ev == SENT || !ev) R->fail(string(fn) + ":no-event", id + " succeeded but returned no event");
    else
    {
      clFinish(cl->q); cl_int st = 99; clGetEventInfo(ev, CL_EVENT_COMMAND_EXECUTION_STATUS, sizeof st, &st, 0);
      if (st != CL_COMPLETE) R->fail(string(fn) + ":not-executed", id + fmt(" succeeded but its status after finish is %d", st));
      clReleaseEvent(ev);
    }
  }
  restore(); if (r == CL_SUCCESS && hostBuf != hostPat) hostBuf = hostPat;
  (void)rej;
}
static string sz(size_t v) { return v == HUGE1 ? "max" : v == HUGE2 ? "2^63" : v == HUGE3 ? "max-3" : v == BIG ? "2^32" : fmt("%zu", v); }
static bool inRange(size_t o, size_t n, size_t total) { return (u128)o + n <= total; }

static void buffers()
{
  vector<size_t> D = {0, 1, 4, N - 4, N - 1, N, N + 1, BIG, HUGE2, HUGE3, HUGE1};
  vector<Mem> mems = {{bufB, N, "buffer"}, {subA, N, "sub"}, {hostNo, N, "noaccess"}, {hostRO, N, "hostread"}, {hostWO, N, "hostwrite"}, {0, N, "null"}};
  for (int op = 0; op < 2; op++)
    for (auto& m : mems) for (auto& w : waits()) for (int blk = 0; blk < 2; blk++) for (int ptr = 0; ptr < 2; ptr++) for (int q = 0; q < 2; q++) for (size_t o : D) for (size_t n : D)
    {
      if (q && (blk || w.n || ptr)) continue;
      Exp x; if (q) { x.bad(CL_INVALID_COMMAND_QUEUE); x.hasCtx = false; }
      if (!m.m) x.bad(CL_INVALID_MEM_OBJECT);
      if (!inRange(o, n, m.size)) x.bad(CL_INVALID_VALUE);
      if (ptr) x.bad(CL_INVALID_VALUE);
      if (w.err) x.bad(w.err);
      if (m.m == hostNo || m.m == (op ? hostRO : hostWO)) x.bad(CL_INVALID_OPERATION);
      if (n == 0) x.either(CL_INVALID_VALUE);
      const char* fn = op ? "clEnqueueWriteBuffer" : "clEnqueueReadBuffer";
      enq(fmt("%s mem=%s wait=%s blocking=%d ptr=%s queue=%s offset=%s size=%s", fn, m.name, w.name, blk, ptr ? "null" : "ok", q ? "null" : "ok", sz(o).c_str(), sz(n).c_str()), fn, x, [&](cl_event* ev) {
        void* p = ptr ? 0 : hostBuf.data(); cl_command_queue qq = q ? 0 : cl->q;
        return op ? clEnqueueWriteBuffer(qq, m.m, blk, o, n, p, w.n, w.l, ev) : clEnqueueReadBuffer(qq, m.m, blk, o, n, p, w.n, w.l, ev); });
    }
  // copies
  vector<size_t> C = {0, 1, 16, N / 2, N - 1, N, N + 1, HUGE2, HUGE3, HUGE1};
  vector<Mem> src = {{bufB, N, "B"}, {subA, N, "sub"}, {parentA, 2 * N, "parent"}, {0, N, "null"}};
  for (auto& a : src) for (auto& b : src) for (auto& w : waits()) for (size_t so : C) for (size_t d : C) for (size_t n : C)
  {
    if (w.n != 0 && w.l != &goodEv && (so > 1 && so < N)) continue;
    Exp x; if (!a.m || !b.m) x.bad(CL_INVALID_MEM_OBJECT);
    if (!inRange(so, n, a.size) || !inRange(d, n, b.size)) x.bad(CL_INVALID_VALUE);
    if (w.err) x.bad(w.err);
    if (n == 0) x.either(CL_INVALID_VALUE);
    if (a.m && a.m == b.m && inRange(so, n, a.size) && inRange(d, n, b.size))
    { if (so < d + n && d < so + n) x.bad(CL_MEM_COPY_OVERLAP); else if (n == 0) x.either(CL_MEM_COPY_OVERLAP); }
    else if (a.m && b.m && (a.m != bufB) && (b.m != bufB)) x.either(CL_MEM_COPY_OVERLAP); // overlapping sub-buffers
    else x.either(CL_MEM_COPY_OVERLAP == 0 ? 0 : CL_INVALID_VALUE);
    if (a.m == b.m && !x.errs.empty()) x.alt.insert(CL_MEM_COPY_OVERLAP);
    if (x.errs.empty() && n) x.may.erase(CL_INVALID_VALUE);
    if (x.errs.empty() && a.m != b.m && a.m != bufB && b.m != bufB) continue; // overlap between a buffer and its sub-buffer: undefined
    enq(fmt("clEnqueueCopyBuffer src=%s dst=%s wait=%s so=%s do=%s size=%s", a.name, b.name, w.name, sz(so).c_str(), sz(d).c_str(), sz(n).c_str()), "clEnqueueCopyBuffer", x,
        [&](cl_event* ev) { return clEnqueueCopyBuffer(cl->q, a.m, b.m, so, d, n, w.n, w.l, ev); });
  }
  // fill
  for (auto& m : mems) for (auto& w : waits()) for (int pat = 0; pat < 2; pat++) for (size_t ps : {0, 1, 2, 3, 4, 16, 128}) for (size_t o : D) for (size_t n : D)
  {
    Exp x; if (!m.m) x.bad(CL_INVALID_MEM_OBJECT);
    if (!inRange(o, n, m.size) || pat || ps == 0) x.bad(CL_INVALID_VALUE);
    if (ps && (o % ps || n % ps)) x.bad(CL_INVALID_VALUE);
    if (ps == 3) x.either(CL_INVALID_VALUE);
    if (w.err) x.bad(w.err);
    if (n == 0) x.either(CL_INVALID_VALUE);
    enq(fmt("clEnqueueFillBuffer mem=%s wait=%s pattern=%s psize=%zu offset=%s size=%s", m.name, w.name, pat ? "null" : "ok", ps, sz(o).c_str(), sz(n).c_str()), "clEnqueueFillBuffer", x,
        [&](cl_event* ev) { return clEnqueueFillBuffer(cl->q, m.m, pat ? 0 : hostBuf.data(), ps, o, n, w.n, w.l, ev); });
  }
  // map
  for (auto& m : mems) for (auto& w : waits()) for (int fl = 0; fl < 4; fl++) for (int q = 0; q < 2; q++) for (int er = 0; er < 2; er++) for (size_t o : D) for (size_t n : D)
  {
    cl_map_flags f = fl == 0 ? CL_MAP_READ : fl == 1 ? CL_MAP_WRITE : fl == 2 ? CL_MAP_READ | CL_MAP_WRITE : CL_MAP_WRITE_INVALIDATE_REGION;
    if (n == 0 && fl) continue;
    if (er && (w.n || q)) continue;
    Exp x; if (!m.m) x.bad(CL_INVALID_MEM_OBJECT); if (q) { x.bad(CL_INVALID_COMMAND_QUEUE); x.hasCtx = false; }
    if (!inRange(o, n, m.size)) x.bad(CL_INVALID_VALUE);
    if (n == 0) { x.either(CL_INVALID_VALUE); }
    if (w.err) x.bad(w.err);
    bool wantR = f & CL_MAP_READ, wantW = f & CL_MAP_WRITE;
    if ((wantR && (m.m == hostNo || m.m == hostWO)) || (wantW && (m.m == hostNo || m.m == hostRO))) x.bad(CL_INVALID_OPERATION);
    else if (fl == 3) x.either(CL_INVALID_OPERATION);
    void* got = 0;
    enq(fmt("clEnqueueMapBuffer mem=%s wait=%s flags=%d queue=%s errptr=%d offset=%s size=%s", m.name, w.name, (int)f, q ? "null" : "ok", er, sz(o).c_str(), sz(n).c_str()), "clEnqueueMapBuffer", x,
        [&](cl_event* ev) { cl_int e = -9999; got = clEnqueueMapBuffer(q ? 0 : cl->q, m.m, CL_FALSE, f, o, n, w.n, w.l, ev, er ? 0 : &e);
          if (er) e = got ? CL_SUCCESS : x.errs.empty() ? (x.may.empty() ? -1 : *x.may.begin()) : [&] { for (cl_int k : x.errs) if (cap->get().find(string("Error:    ") + ename(k) + "\n") != string::npos) return k; return *x.errs.begin(); }();
          if ((e == CL_SUCCESS) != (got != 0)) R->fail("clEnqueueMapBuffer:pointer", fmt("error code %d but pointer %p", e, got));
          return e; });
    if (got && R->curCase.find("clEnqueueMapBuffer") == 0) { clEnqueueUnmapMemObject(cl->q, m.m, got, 0, 0, 0); clFinish(cl->q); }
  }
}

static u128 smul(u128 a, u128 b) { if (!a || !b) return 0; u128 lim = (u128)1 << 100; return a > lim / b ? lim : a * b; }
static bool rectOk(const size_t* o, const size_t* r, size_t rp, size_t sp, size_t total, bool& odd)
{
  u128 RP = rp ? rp : r[0], SP = sp ? (u128)sp : smul(r[1], RP);
  if ((rp && rp < r[0]) || (sp && (SP < smul(r[1], RP) || (RP && sp % (rp ? rp : r[0]))))) odd = true;
  if (!r[0] || !r[1] || !r[2]) return false;
  u128 end = smul(o[0], 1) + smul(o[1], RP) + smul(o[2], SP) + r[0] + smul(r[1] - 1, RP) + smul(r[2] - 1, SP);
  return end <= total;
}
static void rects()
{
  vector<size_t> O = {0, 1, 5, HUGE1}, RG = {0, 1, 3, HUGE2}, RP = {0, 4, 8, HUGE2}, SP = {0, 16, HUGE1};
  struct F { const char* name; int what; }; // single faults
  vector<F> faults = {{"none", 0}, {"ptr", 1}, {"mem", 2}, {"border", 3}, {"horigin", 4}, {"region", 5}, {"wait", 6}, {"access", 7}, {"otherctx", 8}, {"queue", 9}};
  size_t hz[3] = {0, 0, 0};
  for (int op = 0; op < 2; op++) for (auto& f : faults) for (size_t a : O) for (size_t b : O) for (size_t c : O) for (size_t r0 : RG) for (size_t r1 : RG) for (size_t r2 : RG) for (size_t rp : RP) for (size_t sp : SP)
  {
    if (f.what && (a > 1 || b > 1 || c > 1)) continue;
    size_t o[3] = {a, b, c}, r[3] = {r0, r1, r2}; bool odd = false; bool ok = rectOk(o, r, rp, sp, N, odd);
    if (ok && odd && !f.what) { } // pitch rules are not checked by the runtime: either outcome
    Exp x; if (!ok) x.bad(CL_INVALID_VALUE); else if (odd) x.either(CL_INVALID_VALUE);
    int w = f.what;
    if (w == 1 || w == 3 || w == 4 || w == 5) x.bad(CL_INVALID_VALUE); if (w == 2) x.bad(CL_INVALID_MEM_OBJECT);
    if (w == 6) x.bad(CL_INVALID_EVENT_WAIT_LIST); if (w == 7) x.bad(CL_INVALID_OPERATION); if (w == 8) x.bad(CL_INVALID_CONTEXT); if (w == 9) { x.bad(CL_INVALID_COMMAND_QUEUE); x.hasCtx = false; }
    const char* fn = op ? "clEnqueueWriteBufferRect" : "clEnqueueReadBufferRect";
    enq(fmt("%s fault=%s origin=%s,%s,%s region=%s,%s,%s pitch=%s,%s", fn, f.name, sz(a).c_str(), sz(b).c_str(), sz(c).c_str(), sz(r0).c_str(), sz(r1).c_str(), sz(r2).c_str(), sz(rp).c_str(), sz(sp).c_str()), fn, x, [&](cl_event* ev) {
      cl_mem m = w == 2 ? 0 : w == 7 ? hostNo : bufB; void* p = w == 1 ? 0 : hostBuf.data(); const size_t* bo = w == 3 ? 0 : o; const size_t* ho = w == 4 ? 0 : hz; const size_t* rr = w == 5 ? 0 : r;
      cl_uint n = w == 6 || w == 8; const cl_event* l = w == 8 ? &otherEv : 0; cl_command_queue q = w == 9 ? 0 : cl->q;
      return op ? clEnqueueWriteBufferRect(q, m, 0, bo, ho, rr, rp, sp, 0, 0, p, n, l, ev) : clEnqueueReadBufferRect(q, m, 0, bo, ho, rr, rp, sp, 0, 0, p, n, l, ev); });
  }
  // buffer-to-buffer: faults on either side
  for (auto& f : faults) for (int side = 0; side < 2; side++) for (size_t a : O) for (size_t b : O) for (size_t c : O) for (size_t r0 : RG) for (size_t r1 : RG) for (size_t r2 : RG) for (size_t rp : RP) for (size_t sp : SP)
  {
    int w = f.what; if (w == 1 || w == 7) continue;
    if (w && (a > 1 || b > 1 || c > 1)) continue;
    size_t o[3] = {a, b, c}, r[3] = {r0, r1, r2}; bool odd = false, odd2 = false; bool ok = rectOk(o, r, rp, sp, N, odd) && rectOk(hz, r, 0, 0, 2 * N, odd2);
    Exp x; if (!ok) x.bad(CL_INVALID_VALUE); else if (odd) x.either(CL_INVALID_VALUE);
    if (w == 3 || w == 4 || w == 5) x.bad(CL_INVALID_VALUE); if (w == 2) x.bad(CL_INVALID_MEM_OBJECT);
    if (w == 6) x.bad(CL_INVALID_EVENT_WAIT_LIST); if (w == 8) x.bad(CL_INVALID_CONTEXT); if (w == 9) { x.bad(CL_INVALID_COMMAND_QUEUE); x.hasCtx = false; }
    enq(fmt("clEnqueueCopyBufferRect side=%d fault=%s origin=%s,%s,%s region=%s,%s,%s pitch=%s,%s", side, f.name, sz(a).c_str(), sz(b).c_str(), sz(c).c_str(), sz(r0).c_str(), sz(r1).c_str(), sz(r2).c_str(), sz(rp).c_str(), sz(sp).c_str()), "clEnqueueCopyBufferRect", x, [&](cl_event* ev) {
      cl_uint n = w == 6 || w == 8; const cl_event* l = w == 8 ? &otherEv : 0; cl_command_queue q = w == 9 ? 0 : cl->q; const size_t* so = w == 3 ? 0 : o; const size_t* dd = w == 4 ? 0 : hz; const size_t* rr = w == 5 ? 0 : r;
      cl_mem m = w == 2 ? 0 : bufB;
      return side ? clEnqueueCopyBufferRect(q, parentA, m, dd, so, rr, 0, 0, rp, sp, n, l, ev) : clEnqueueCopyBufferRect(q, m, parentA, so, dd, rr, rp, sp, 0, 0, n, l, ev); });
  }
}

struct Img { const char* name; cl_mem_object_type t; size_t w, h, d, a; size_t lim[3]; cl_mem m; };
static void images()
{
  vector<Img> I = {{"1d", CL_MEM_OBJECT_IMAGE1D, 4, 1, 1, 1, {4, 1, 1}}, {"1darray", CL_MEM_OBJECT_IMAGE1D_ARRAY, 4, 1, 1, 3, {4, 3, 1}}, {"2d", CL_MEM_OBJECT_IMAGE2D, 4, 3, 1, 1, {4, 3, 1}},
                   {"2darray", CL_MEM_OBJECT_IMAGE2D_ARRAY, 4, 3, 1, 2, {4, 3, 2}}, {"3d", CL_MEM_OBJECT_IMAGE3D, 4, 3, 2, 1, {4, 3, 2}}, {"1dbuffer", CL_MEM_OBJECT_IMAGE1D_BUFFER, 4, 1, 1, 1, {4, 1, 1}}};
  cl_image_format F = {CL_R, CL_UNSIGNED_INT32}; vector<vector<uint8_t>> store;
  for (auto& i : I) { cl_image_desc d = {i.t, i.w, i.h, i.d, i.a, 0, 0, 0, 0, {0}}; if (i.t == CL_MEM_OBJECT_IMAGE1D_BUFFER) d.buffer = cl->buf(16, hostPat.data()); cl_int e; i.m = clCreateImage(cl->ctx, 0, &F, &d, 0, &e); CK(e); }
  cl_image_format F2 = {CL_R, CL_FLOAT}; cl_image_desc d2 = {CL_MEM_OBJECT_IMAGE2D, 4, 3, 1, 1, 0, 0, 0, 0, {0}}; cl_int e; cl_mem flt = clCreateImage(cl->ctx, 0, &F2, &d2, 0, &e); CK(e);
  cl_mem big = cl->buf(1024, hostPat.data());
  auto setAll = [&](Img& i) { size_t o[3] = {0, 0, 0}; CK(clEnqueueWriteImage(cl->q, i.m, 1, o, i.lim, 0, 0, hostPat.data(), 0, 0, 0)); };
  auto same = [&](Img& i) { size_t o[3] = {0, 0, 0}; vector<uint8_t> b(4 * i.lim[0] * i.lim[1] * i.lim[2]); CK(clEnqueueReadImage(cl->q, i.m, 1, o, i.lim, 0, 0, b.data(), 0, 0, 0)); return !memcmp(b.data(), hostPat.data(), b.size()); };
  for (auto& i : I) setAll(i);
  const char* fns[] = {"clEnqueueReadImage", "clEnqueueWriteImage", "clEnqueueFillImage", "clEnqueueMapImage", "clEnqueueCopyImageToBuffer", "clEnqueueCopyBufferToImage", "clEnqueueCopyImage", "clEnqueueCopyImage"};
  vector<size_t> O = {0, 1, 3, HUGE1}, RG = {0, 1, 2, HUGE2};
  const char* faults[] = {"none", "queue", "mem", "origin", "region", "ptr", "wait", "otherctx", "notimage", "buffertoosmall", "format"};
  for (int op = 0; op < 8; op++) for (auto& i : I) for (int w = 0; w < 11; w++) for (size_t a : O) for (size_t b : O) for (size_t c : O) for (size_t r0 : {(size_t)0, (size_t)1, (size_t)4, HUGE2}) for (size_t r1 : RG) for (size_t r2 : RG)
  {
    if (w && (a > 1 || b > 1 || c > 1 || r0 == 0 || r1 == 0 || r2 == 0)) continue;
    if (w == 5 && op > 3) continue; if (w == 9 && op != 4 && op != 5) continue; if (w == 10 && op < 6) continue;
    size_t o[3] = {a, b, c}, r[3] = {r0, r1, r2}; Exp x;
    for (int k = 0; k < 3; k++) if (!r[k] || !inRange(o[k], r[k], i.lim[k])) x.bad(CL_INVALID_VALUE);
    if (w == 1) { x.bad(CL_INVALID_COMMAND_QUEUE); x.hasCtx = false; } if (w == 2) x.bad(CL_INVALID_MEM_OBJECT); if (w == 3 || w == 4 || w == 5 || w == 9) x.bad(CL_INVALID_VALUE);
    if (w == 6) x.bad(CL_INVALID_EVENT_WAIT_LIST); if (w == 7) x.bad(CL_INVALID_CONTEXT); if (w == 8) x.bad(CL_INVALID_MEM_OBJECT); if (w == 10) x.bad(CL_IMAGE_FORMAT_MISMATCH);
    if (w == 10) x.alt.insert(CL_INVALID_VALUE); // the image of another format is two-dimensional
    if (w == 8 && op >= 6) x.alt.insert(CL_IMAGE_FORMAT_MISMATCH);
    string id = fmt("%s/%d image=%s fault=%s origin=%s,%s,%s region=%s,%s,%s", fns[op], op, i.name, faults[w], sz(a).c_str(), sz(b).c_str(), sz(c).c_str(), sz(r0).c_str(), sz(r1).c_str(), sz(r2).c_str());
    void* got = 0;
    bool mine = false;
    enq(id, fns[op], x, [&](cl_event* ev) -> cl_int {
      mine = true;
      cl_command_queue q = w == 1 ? 0 : cl->q; cl_mem m = w == 2 ? 0 : w == 8 ? big : i.m; const size_t* oo = w == 3 ? 0 : o; const size_t* rr = w == 4 ? 0 : r; void* p = w == 5 ? 0 : hostBuf.data();
      cl_uint n = w == 6 || w == 7; const cl_event* l = w == 7 ? &otherEv : 0; size_t rp = 777, sp = 777; cl_int er = -9999; size_t z[3] = {0, 0, 0};
      size_t off = w == 9 ? 1024 - 3 : 0;
      switch (op)
      {
      case 0: return clEnqueueReadImage(q, m, 0, oo, rr, 0, 0, p, n, l, ev);
      case 1: return clEnqueueWriteImage(q, m, 0, oo, rr, 0, 0, p, n, l, ev);
      case 2: return clEnqueueFillImage(q, m, p, oo, rr, n, l, ev);
      case 3: got = clEnqueueMapImage(q, m, 0, CL_MAP_READ, oo, rr, w == 5 ? 0 : &rp, &sp, n, l, ev, &er); if ((er == 0) != (got != 0)) R->fail("clEnqueueMapImage:pointer", id + fmt(": error code %d but pointer %p", er, got)); return er;
      case 4: return clEnqueueCopyImageToBuffer(q, m, big, oo, rr, off, n, l, ev);
      case 5: return clEnqueueCopyBufferToImage(q, big, m, off, oo, rr, n, l, ev);
      // the other image is an identical one (the same type, so that valid regions are valid in both)
      case 6: return clEnqueueCopyImage(q, m, w == 10 ? flt : I[4].m, oo, z, rr, n, l, ev);
      default: return clEnqueueCopyImage(q, w == 10 ? flt : I[4].m, m, z, oo, rr, n, l, ev);
      } });
    if (!mine) continue;
    if (got) { clEnqueueUnmapMemObject(cl->q, i.m, got, 0, 0, 0); clFinish(cl->q); }
    if (!x.errs.empty()) for (auto& j : I) if (!same(j)) { R->fail(string(fns[op]) + ":image-of-rejected", id + " was rejected but changed image " + j.name); setAll(j); }
    if (x.errs.empty()) { for (auto& j : I) setAll(j); CK(clEnqueueWriteBuffer(cl->q, big, 1, 0, 1024, hostPat.data(), 0, 0, 0)); }
  }
}

// ---- kernels --------------------------------------------------------------------------------------
static const char* KSRC = "typedef struct {int a[3];} S3;\n"
  "kernel void none(global int* p){ p[0]=get_global_size(0); }\n"
  "__attribute__((reqd_work_group_size(2,1,1))) kernel void r2(global int* p){ p[0]=get_local_size(0); }\n"
  "__attribute__((reqd_work_group_size(2,2,1))) kernel void r22(global int* p){ p[0]=get_local_size(1); }\n"
  "kernel void two(global int* p, int v){ p[0]=v; }\n"
  "kernel void loc(global int* p, local int* l){ l[0]=1; p[0]=l[0]; }\n"
  "kernel void con(global int* p, constant int* c){ p[0]=c[0]; }\n"
  "kernel void all(global int* p, int a, char b, int4 c, S3 d, constant int* e, local int* f, read_only image2d_t g, sampler_t h, global int* i, long j, float3 k)\n"
  "{ p[0]=a; p[1]=b; p[2]=c.w; p[3]=d.a[2]; p[4]=e[0]; f[0]=5; p[5]=f[0]; p[6]=get_image_width(g); p[7]=read_imageui(g,h,(int2)(1,0)).x; p[8]= i ? i[0] : -1; p[9]=j; p[10]=k.z; }\n";
static void ndrange()
{
  for (int cv = 0; cv < 2; cv++)
  {
    cl_program p = cl->build(KSRC, cv ? "-cl-std=CL2.0" : "-cl-std=CL1.2");
    cl_mem out = cl->buf(256);
    struct K { const char* name; size_t req[3]; cl_kernel k; }; vector<K> ks = {{"none", {0, 0, 0}}, {"r2", {2, 1, 1}}, {"r22", {2, 2, 1}}};
    for (auto& k : ks) { k.k = cl->kernel(p, k.name); cl->arg(k.k, 0, out); }
    vector<size_t> G = {0, 1, 4, 5}, L = {0, 1, 2, 3, 1024, 1025, HUGE2};
    vector<Wait> W = waits();
    for (auto& k : ks) for (cl_uint dim : {0u, 1u, 2u, 3u, 4u, 0xFFFFFFFFu}) for (int gn = 0; gn < 2; gn++) for (int ln = 0; ln < 2; ln++) for (size_t wi = 0; wi < W.size(); wi++)
      for (size_t g0 : G) for (size_t g1 : G) for (size_t l0 : L) for (size_t l1 : L)
      {
        auto& w = W[wi];
        if (dim < 2 && (g1 || l1)) continue; if (gn && (g0 || g1)) continue; if (ln && (l0 || l1)) continue;
        if (wi > 1 && (g0 > 4 || l0 > 2)) continue;
        size_t g[3] = {g0, dim >= 2 ? g1 : 1, 1}, l[3] = {l0, dim >= 2 ? l1 : 1, 1};
        Exp x;
        if (dim < 1 || dim > 3) { x.bad(CL_INVALID_WORK_DIMENSION); }
        else
        {
          size_t le[3] = {l[0], l[1], l[2]}; bool have = !ln; if (ln && k.req[0]) { memcpy(le, k.req, sizeof le); have = true; for (cl_uint d = dim; d < 3; d++) le[d] = 1; }
          if (have)
          {
            u128 tot = 1; bool zero = false;
            for (cl_uint d = 0; d < dim; d++)
            {
              size_t gg = gn ? 0 : g[d];
              if (!le[d]) { x.bad2(CL_INVALID_WORK_GROUP_SIZE, CL_INVALID_WORK_ITEM_SIZE); zero = true; continue; }
              if (le[d] > 1024) x.bad(CL_INVALID_WORK_ITEM_SIZE);
              if (!cv && gg % le[d]) x.bad(CL_INVALID_WORK_GROUP_SIZE);
              tot = smul(tot, le[d]);
            }
            if (tot > 1024) x.bad(CL_INVALID_WORK_GROUP_SIZE);
            if (k.req[0]) for (int d = 0; d < 3; d++) if (k.req[d] != ((cl_uint)d < dim ? le[d] : 1)) x.bad(CL_INVALID_WORK_GROUP_SIZE);
            // non-uniform groups are not allowed together with a required size
            if (k.req[0] && cv) for (cl_uint d = 0; d < dim; d++) if (le[d] && (gn ? 0 : g[d]) % le[d]) x.either(CL_INVALID_WORK_GROUP_SIZE);
          }
          if (gn || !g[0] || (dim > 1 && !g[1])) x.either(CL_INVALID_GLOBAL_WORK_SIZE);
        }
        if (w.err) x.bad(w.err);
        if (!x.errs.empty()) { x.alt.insert(CL_INVALID_WORK_GROUP_SIZE); if (dim >= 1 && dim <= 3 && !w.err) {} else x.alt.erase(CL_INVALID_WORK_GROUP_SIZE); }
        string id = fmt("clEnqueueNDRangeKernel std=%d kernel=%s dim=%u global=%s local=%s wait=%s", cv, k.name, dim, gn ? "null" : fmt("%zu,%zu", g0, g1).c_str(), ln ? "null" : fmt("%s,%s", sz(l0).c_str(), sz(l1).c_str()).c_str(), w.name);
        int before = -1, after; bool mine = false; 
        enq(id, "clEnqueueNDRangeKernel", x, [&](cl_event* ev) { mine = true; cl->write(out, &before, 4); return clEnqueueNDRangeKernel(cl->q, k.k, dim, 0, gn ? 0 : g, ln ? 0 : l, w.n, w.l, ev); });
        if (!mine) continue;
        cl->read(out, &after, 4);
        if (!x.errs.empty() && after != -1) R->fail("clEnqueueNDRangeKernel:ran-rejected", id + " was rejected but the kernel ran");
      }
    auto simple = [&](const char* id, Exp x, cl_kernel k, size_t g) { enq(fmt("clEnqueueNDRangeKernel std=%d %s", cv, id), "clEnqueueNDRangeKernel", x, [&](cl_event* ev) { return clEnqueueNDRangeKernel(cl->q, k, 1, 0, &g, 0, 0, 0, ev); });
      enq(fmt("clEnqueueTask std=%d %s", cv, id), "clEnqueueTask", x, [&](cl_event* ev) { return clEnqueueTask(cl->q, k, 0, 0, ev); }); };
    Exp bad; bad.bad(CL_INVALID_KERNEL); simple("null kernel", bad, 0, 1);
    // every subset of set arguments
    for (int mask = 0; mask < 4; mask++) { cl_kernel k = cl->kernel(p, "two"); int v = 3; if (mask & 1) cl->arg(k, 0, out); if (mask & 2) cl->arg(k, 1, v); Exp x; if (mask != 3) x.bad(CL_INVALID_KERNEL_ARGS); simple(fmt("two mask=%d", mask).c_str(), x, k, 1); clReleaseKernel(k); }
    // local memory limit (32768 by default) and constant memory limit (65536)
    for (size_t n : {(size_t)1, (size_t)4, (size_t)32764, (size_t)32768, (size_t)32769, (size_t)1 << 31}) { cl_kernel k = cl->kernel(p, "loc"); cl->arg(k, 0, out); cl->localArg(k, 1, n); Exp x; if (n > 32768) x.bad(CL_OUT_OF_RESOURCES); if (n == 1) continue; simple(fmt("local %zu", n).c_str(), x, k, 1); clReleaseKernel(k); }
    for (size_t n : {(size_t)4, (size_t)65535, (size_t)65536, (size_t)65537}) { cl_kernel k = cl->kernel(p, "con"); cl_mem c = cl->buf(n); cl->arg(k, 0, out); cl->arg(k, 1, c); Exp x; if (n > 65536) x.bad(CL_OUT_OF_RESOURCES); simple(fmt("constant %zu", n).c_str(), x, k, 1); clReleaseKernel(k); clReleaseMemObject(c); }
    Exp q; q.bad(CL_INVALID_COMMAND_QUEUE); q.hasCtx = false; size_t one = 1; enq(fmt("clEnqueueNDRangeKernel std=%d null queue", cv), "clEnqueueNDRangeKernel", q, [&](cl_event* ev) { return clEnqueueNDRangeKernel(0, ks[0].k, 1, 0, &one, 0, 0, 0, ev); });
  }
}
static void kernelArgs()
{
  cl_program p = cl->build(KSRC); cl_kernel k = cl->kernel(p, "all");
  cl_image_format F = {CL_R, CL_UNSIGNED_INT32}; cl_image_desc d = {CL_MEM_OBJECT_IMAGE2D, 2, 2, 1, 1, 0, 0, 0, 0, {0}}; unsigned px[4] = {11, 22, 33, 44}; cl_int e;
  cl_mem img = clCreateImage(cl->ctx, CL_MEM_COPY_HOST_PTR, &F, &d, px, &e); CK(e); cl_sampler smp = clCreateSampler(cl->ctx, 0, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e); CK(e);
  cl_mem out = cl->buf(64), con = cl->buf(16, "\x07\0\0\0           "), ib = cl->buf(16, "\x09\0\0\0           "); cl_mem nullm = 0; cl_sampler nulls = 0;
  int a = 1; char b = 2; int c[4] = {0, 0, 0, 3}; int s[3] = {0, 0, 4}; long j = 6; float f3[4] = {0, 0, 8, 0}; int want[11] = {1, 2, 3, 4, 7, 5, 2, 22, 9, 6, 8};
  auto setGood = [&] { cl->arg(k, 0, out); cl->arg(k, 1, a); cl->arg(k, 2, b); CK(clSetKernelArg(k, 3, 16, c)); CK(clSetKernelArg(k, 4, 12, s)); cl->arg(k, 5, con); cl->localArg(k, 6, 4); cl->arg(k, 7, img); cl->arg(k, 8, smp); cl->arg(k, 9, ib); cl->arg(k, 10, j); CK(clSetKernelArg(k, 11, 16, f3)); };
  size_t sizes[12] = {8, 4, 1, 16, 12, 8, 0, 8, 8, 8, 8, 16};
  vector<size_t> S = {0, 1, 2, 4, 8, 12, 16, 17, BIG * 1024, HUGE1}; char blob[64] = {0};
  struct V { const char* name; const void* p; };
  vector<V> vals = {{"NULL", 0}, {"blob", blob}, {"buffer", &ib}, {"image", &img}, {"nullmem", &nullm}, {"sampler", &smp}};
  setGood();
  for (cl_uint idx : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 9u, 10u, 11u, 12u, 0xFFFFFFFFu}) for (size_t n : S) for (auto& v : vals)
  {
    Exp x; bool ptr = idx == 0 || idx == 5 || idx == 9, im = idx == 7, sm = idx == 8, lo = idx == 6;
    if (idx > 11) x.bad(CL_INVALID_ARG_INDEX);
    else
    {
      if (lo) { if (v.p) { x.either(CL_INVALID_ARG_VALUE); } if (n == 0) x.either(CL_INVALID_ARG_SIZE); if (n > 32768) x.either(CL_INVALID_ARG_SIZE), x.either(CL_OUT_OF_RESOURCES); }
      else if (n != sizes[idx]) x.bad(CL_INVALID_ARG_SIZE);
      if (ptr) { if (v.p == &img) x.bad2(CL_INVALID_MEM_OBJECT, CL_INVALID_ARG_VALUE); if (v.p == blob || v.p == &nullm || !v.p) {} if (v.p == &smp) continue; }
      else if (im) { if (v.p == &smp) continue; if (v.p != &img) x.bad2(CL_INVALID_MEM_OBJECT, CL_INVALID_ARG_VALUE); }
      else if (sm) { if (v.p == &ib || v.p == &img) continue; if (v.p != &smp) x.bad2(CL_INVALID_SAMPLER, CL_INVALID_ARG_VALUE); }
      else if (!lo && !v.p) x.bad(CL_INVALID_ARG_VALUE);
      if (v.p == &smp && !sm && (ptr || im)) continue;
    }
    string id = fmt("clSetKernelArg index=%u size=%s value=%s", idx, sz(n).c_str(), v.name);
    if (!R->begin(id)) continue;
    arm(); cl_int r = clSetKernelArg(k, idx, n, v.p); judge("clSetKernelArg", x, r, id);
    if (r == CL_SUCCESS) setGood();
    else
    { // previously set arguments are still in force
      int z[11]; memset(z, 0xee, sizeof z); cl->write(out, z, sizeof z); CK(cl->launch1(k, 1, 1)); cl->read(out, z, sizeof z);
      for (int i = 0; i < 11; i++) if (z[i] != want[i]) { R->fail("clSetKernelArg:effect-of-rejected", id + fmt(" was rejected but the kernel then saw %d instead of %d for value %d", z[i], want[i], i)); break; }
    }
  }
  if (R->begin("clSetKernelArg null kernel")) { Exp x; x.bad(CL_INVALID_KERNEL); x.hasCtx = false; arm(); judge("clSetKernelArg", x, clSetKernelArg(0, 0, 4, &a), R->curCase); }
}

// ---- object creation ------------------------------------------------------------------------------
template <class F> static void create(const string& id, const char* fn, const Exp& x, F call)
{
  if (!R->begin(id)) return;
  for (int withErr = 1; withErr >= 0; withErr--)
  {
    arm(); cl_int e = -9999; void* o = call(withErr ? &e : 0);
    if (withErr)
    {
      if (e == -9999) { R->fail(string(fn) + ":no-code", id + " did not store an error code"); e = o ? 0 : CL_INVALID_VALUE; }
      judge(fn, x, e, id);
      if ((e == 0) != (o != 0)) R->fail(string(fn) + ":object", id + fmt(" stored error code %d but returned %p", e, o));
    }
    else if (!x.errs.empty() && o) R->fail(string(fn) + ":accepted-noerrptr", id + " without errcode_ret returned an object");
    else if (x.errs.empty() && x.may.empty() && !o) R->fail(string(fn) + ":rejected-noerrptr", id + " without errcode_ret returned no object");
  }
}
static void creation()
{
  auto relMem = [](cl_mem m) { if (m) clReleaseMemObject(m); return (void*)m; };
  for (int ctx = 0; ctx < 2; ctx++) for (size_t n : {(size_t)0, (size_t)1, (size_t)64, (size_t)1 << 46, HUGE2, HUGE1}) for (int fl = 0; fl < 8; fl++) for (int rw = 0; rw < 4; rw++) for (int hp = 0; hp < 2; hp++) for (int api = 0; api < 4; api++)
  {
    if (n > 64 && hp) continue;
    cl_mem_flags f = (fl & 1 ? CL_MEM_USE_HOST_PTR : 0) | (fl & 2 ? CL_MEM_ALLOC_HOST_PTR : 0) | (fl & 4 ? CL_MEM_COPY_HOST_PTR : 0) | (rw == 0 ? 0 : rw == 1 ? CL_MEM_READ_ONLY : rw == 2 ? CL_MEM_WRITE_ONLY : CL_MEM_READ_WRITE);
    Exp x; if (ctx) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; }
    if (n == 0) x.bad(CL_INVALID_BUFFER_SIZE);
    if ((hp == 0) == ((fl & 5) != 0)) x.bad(CL_INVALID_HOST_PTR);
    if ((fl & 1) && (fl & 6)) x.bad(CL_INVALID_VALUE);
    if (n > 64) x.bad2(CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_INVALID_BUFFER_SIZE);
    if (api == 3) { x.bad(CL_INVALID_PROPERTY); }
    const char* fn = api ? "clCreateBufferWithProperties" : "clCreateBuffer"; cl_mem_properties none[1] = {0}, some[3] = {0x1234, 5, 0};
    create(fmt("%s context=%d size=%s flags=%d hostptr=%d props=%d", fn, !ctx, sz(n).c_str(), (int)f, hp, api), fn, x, [&](cl_int* e) { cl_context c = ctx ? 0 : cl->ctx; void* h = hp ? hostBuf.data() : 0;
      return relMem(api == 0 ? clCreateBuffer(c, f, n, h, e) : clCreateBufferWithProperties(c, api == 1 ? 0 : api == 2 ? none : some, f, n, h, e)); });
  }
  vector<size_t> D = {0, 1, 64, 127, 128, 129, BIG, HUGE2, HUGE3, HUGE1};
  for (int par = 0; par < 3; par++) for (cl_buffer_create_type t : {(cl_buffer_create_type)CL_BUFFER_CREATE_TYPE_REGION, (cl_buffer_create_type)0}) for (int info = 0; info < 2; info++) for (cl_mem_flags f : {(cl_mem_flags)0, (cl_mem_flags)CL_MEM_READ_ONLY, (cl_mem_flags)CL_MEM_HOST_NO_ACCESS}) for (size_t o : D) for (size_t n : D)
  {
    Exp x; if (par == 2) { x.bad(CL_INVALID_MEM_OBJECT); x.hasCtx = false; } if (par == 1) x.bad(CL_INVALID_MEM_OBJECT);
    if (t != CL_BUFFER_CREATE_TYPE_REGION || info) x.bad(CL_INVALID_VALUE);
    if (!inRange(o, n, 2 * N)) x.bad(CL_INVALID_VALUE); if (n == 0) x.bad2(CL_INVALID_BUFFER_SIZE, CL_INVALID_VALUE);
    cl_buffer_region r = {o, n};
    create(fmt("clCreateSubBuffer parent=%d type=%d info=%d flags=%d origin=%s size=%s", par, (int)t, !info, (int)f, sz(o).c_str(), sz(n).c_str()), "clCreateSubBuffer", x, [&](cl_int* e) { return relMem(clCreateSubBuffer(par == 0 ? parentA : par == 1 ? subA : 0, f, t, info ? 0 : &r, e)); });
  }
  struct T { const char* n; cl_mem_object_type t; int dims; bool arr; };
  vector<T> types = {{"1d", CL_MEM_OBJECT_IMAGE1D, 1, 0}, {"1dbuffer", CL_MEM_OBJECT_IMAGE1D_BUFFER, 1, 0}, {"1darray", CL_MEM_OBJECT_IMAGE1D_ARRAY, 1, 1}, {"2d", CL_MEM_OBJECT_IMAGE2D, 2, 0}, {"2darray", CL_MEM_OBJECT_IMAGE2D_ARRAY, 2, 1}, {"3d", CL_MEM_OBJECT_IMAGE3D, 3, 0}};
  cl_mem ibuf = cl->buf(64);
  for (auto& t : types) for (int fault = 0; fault < 6; fault++) for (size_t w : {(size_t)0, (size_t)1, (size_t)16, (size_t)17, HUGE2, HUGE1}) for (size_t h : {(size_t)0, (size_t)2, HUGE2}) for (size_t d : {(size_t)0, (size_t)2, HUGE1}) for (int hp = 0; hp < 3; hp++)
  {
    if (t.dims < 2 && !(t.arr) && (h || d)) continue; if (t.dims == 2 && !t.arr && d) continue; if (t.dims == 1 && t.arr && h) continue;
    if (t.t == CL_MEM_OBJECT_IMAGE1D_BUFFER && hp) continue;
    // fault: 1 context, 2 format, 3 desc, 4 unsupported type, 5 buffer missing (1dbuffer only)
    if (fault == 5 && t.t != CL_MEM_OBJECT_IMAGE1D_BUFFER) continue;
    cl_image_format F = {CL_R, (cl_channel_type)(fault == 4 ? 0x1111 : CL_UNSIGNED_INT32)}; cl_image_desc ds = {t.t, w, t.dims > 1 ? h : 0, t.dims > 2 ? d : 0, t.arr ? d : 0, 0, 0, 0, 0, {0}};
    if (t.t == CL_MEM_OBJECT_IMAGE1D_BUFFER && fault != 5) ds.buffer = ibuf;
    Exp x; if (fault == 1) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; } if (fault == 2) x.bad(CL_INVALID_IMAGE_FORMAT_DESCRIPTOR); if (fault == 3) x.bad(CL_INVALID_IMAGE_DESCRIPTOR);
    if (fault == 4) { x.bad2(CL_INVALID_IMAGE_FORMAT_DESCRIPTOR, CL_INVALID_VALUE); x.alt.insert(CL_IMAGE_FORMAT_NOT_SUPPORTED); } if (fault == 5) x.bad2(CL_INVALID_IMAGE_DESCRIPTOR, CL_INVALID_VALUE);
    bool sizeBad = w == 0 || w >= HUGE2 || (t.dims > 1 && (h == 0 || h >= HUGE2)) || (t.dims > 2 && (d == 0 || d >= HUGE2)) || (t.arr && (d == 0 || d >= HUGE2)) || (t.t == CL_MEM_OBJECT_IMAGE1D_BUFFER && w > 16);
    if (sizeBad) { x.bad2(CL_INVALID_IMAGE_SIZE, CL_INVALID_IMAGE_DESCRIPTOR); x.alt.insert(CL_INVALID_BUFFER_SIZE); x.alt.insert(CL_MEM_OBJECT_ALLOCATION_FAILURE); }
    cl_mem_flags f = hp == 1 ? CL_MEM_COPY_HOST_PTR : 0; if (hp == 2) x.bad(CL_INVALID_HOST_PTR); // host pointer without a flag that uses it
    create(fmt("clCreateImage type=%s fault=%d w=%s h=%s d=%s hostptr=%d", t.n, fault, sz(w).c_str(), sz(h).c_str(), sz(d).c_str(), hp), "clCreateImage", x, [&](cl_int* e) {
      return relMem(clCreateImage(fault == 1 ? 0 : cl->ctx, f, fault == 2 ? 0 : &F, fault == 3 ? 0 : &ds, hp ? hostBuf.data() : 0, e)); });
  }
  for (int ctx = 0; ctx < 2; ctx++) for (cl_bool nrm : {0u, 1u}) for (int am = 0x112F; am <= 0x1136; am++) for (int fm = 0x113F; fm <= 0x1143; fm++)
  {
    Exp x; if (ctx) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; } if (am < CL_ADDRESS_NONE || am > CL_ADDRESS_MIRRORED_REPEAT || fm < CL_FILTER_NEAREST || fm > CL_FILTER_LINEAR) x.bad(CL_INVALID_VALUE);
    if (!nrm && (am == CL_ADDRESS_REPEAT || am == CL_ADDRESS_MIRRORED_REPEAT)) x.either(CL_INVALID_VALUE);
    create(fmt("clCreateSampler ctx=%d norm=%d am=%x fm=%x", !ctx, nrm, am, fm), "clCreateSampler", x, [&](cl_int* e) { cl_sampler s = clCreateSampler(ctx ? 0 : cl->ctx, nrm, am, fm, e); if (s) clReleaseSampler(s); return (void*)s; });
  }
  for (int ctx = 0; ctx < 2; ctx++) for (int dv = 0; dv < 3; dv++) for (cl_command_queue_properties pr = 0; pr < 16; pr++)
  {
    Exp x; if (ctx) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; } if (dv) x.bad(CL_INVALID_DEVICE);
    if (pr & ~3ul) { if (pr >= 8) x.bad2(CL_INVALID_VALUE, CL_INVALID_QUEUE_PROPERTIES); else x.bad2(CL_INVALID_VALUE, CL_INVALID_QUEUE_PROPERTIES); }
    create(fmt("clCreateCommandQueue ctx=%d dev=%d props=%d", !ctx, dv, (int)pr), "clCreateCommandQueue", x, [&](cl_int* e) { cl_command_queue q = clCreateCommandQueue(ctx ? 0 : cl->ctx, dv == 0 ? cl->dev : dv == 1 ? 0 : (cl_device_id)cl->plat, pr, e); if (q) clReleaseCommandQueue(q); return (void*)q; });
  }
  for (cl_uint nd : {0u, 1u, 2u}) for (int dv = 0; dv < 3; dv++) for (int cb = 0; cb < 2; cb++) for (int ud = 0; ud < 2; ud++) for (int pr = 0; pr < 3; pr++)
  {
    cl_device_id devs[2] = {dv == 1 ? (cl_device_id)cl->plat : cl->dev, cl->dev}; cl_context_properties p0[1] = {0}, p1[3] = {CL_CONTEXT_PLATFORM, (cl_context_properties)cl->plat, 0};
    Exp x; x.hasCtx = false; if (nd != 1) x.bad(CL_INVALID_VALUE); if (dv == 2) x.bad(CL_INVALID_VALUE); if (dv == 1 && nd) x.bad(CL_INVALID_DEVICE); if (!cb && ud) x.bad(CL_INVALID_VALUE);
    create(fmt("clCreateContext nd=%u dev=%d cb=%d ud=%d props=%d", nd, dv, cb, ud, pr), "clCreateContext", x, [&](cl_int* e) { cl_context c = clCreateContext(pr == 0 ? 0 : pr == 1 ? p0 : p1, nd, dv == 2 ? 0 : devs, cb ? [](const char*, const void*, size_t, void*) {} : (void (*)(const char*, const void*, size_t, void*))0, ud ? &x : 0, e);
      if (c) { cl_context_properties got[8]; size_t n = 99; cl_int r = clGetContextInfo(c, CL_CONTEXT_PROPERTIES, sizeof got, got, &n); size_t w = pr == 0 ? 0 : pr == 1 ? 8 : 24; if (r || n != w) R->fail("clCreateContext:properties", fmt("%zu bytes of properties reported, %zu given", n, w)); clReleaseContext(c); }
      return (void*)c; });
  }
  for (cl_device_type dt : {(cl_device_type)0, (cl_device_type)CL_DEVICE_TYPE_DEFAULT, (cl_device_type)CL_DEVICE_TYPE_CPU, (cl_device_type)CL_DEVICE_TYPE_GPU, (cl_device_type)CL_DEVICE_TYPE_ACCELERATOR, (cl_device_type)CL_DEVICE_TYPE_CUSTOM, (cl_device_type)CL_DEVICE_TYPE_ALL}) for (int ud = 0; ud < 2; ud++)
  {
    Exp x; x.hasCtx = false; if (dt == 0 || dt == CL_DEVICE_TYPE_CUSTOM) x.bad2(CL_DEVICE_NOT_FOUND, CL_INVALID_VALUE); if (ud) x.bad(CL_INVALID_VALUE);
    create(fmt("clCreateContextFromType type=%lx ud=%d", (long)dt, ud), "clCreateContextFromType", x, [&](cl_int* e) { cl_context c = clCreateContextFromType(0, dt, 0, ud ? &x : 0, e); if (c) clReleaseContext(c); return (void*)c; });
    if (!ud && R->begin(fmt("clGetDeviceIDs type=%lx", (long)dt))) { arm(); cl_uint n = 77; cl_int r = clGetDeviceIDs(cl->plat, dt, 0, 0, &n); Exp y; y.hasCtx = false; if (dt == 0 || dt == CL_DEVICE_TYPE_CUSTOM) y.bad2(CL_DEVICE_NOT_FOUND, CL_INVALID_DEVICE_TYPE); judge("clGetDeviceIDs", y, r, R->curCase); if (!r && n != 1) R->fail("clGetDeviceIDs:count", "wrong count"); }
  }
  // programs and kernels
  const char* src = "kernel void f(global int*p){*p=1;} kernel void g(global int*p){*p=2;}"; const char* nulls[2] = {src, 0};
  for (int ctx = 0; ctx < 2; ctx++) for (cl_uint n : {0u, 1u, 2u}) for (int s = 0; s < 3; s++)
  {
    Exp x; if (ctx) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; } if (n == 0 || s == 1) x.bad(CL_INVALID_VALUE); const char* two[2] = {src, "\n"}; if (s == 2 && n == 2) x.bad(CL_INVALID_VALUE);
    create(fmt("clCreateProgramWithSource ctx=%d count=%u strings=%d", !ctx, n, s), "clCreateProgramWithSource", x, [&](cl_int* e) { cl_program p = clCreateProgramWithSource(ctx ? 0 : cl->ctx, n, s == 1 ? 0 : s == 2 ? nulls : two, 0, e); if (p) clReleaseProgram(p); return (void*)p; });
  }
  cl_program built = cl->build(src); size_t bs; CK(clGetProgramInfo(built, CL_PROGRAM_BINARY_SIZES, sizeof bs, &bs, 0)); vector<uint8_t> bin(bs); unsigned char* bp = bin.data(); CK(clGetProgramInfo(built, CL_PROGRAM_BINARIES, sizeof bp, &bp, 0));
  const unsigned char* garbage = (const unsigned char*)"this is not a program binary...."; 
  for (int ctx = 0; ctx < 2; ctx++) for (cl_uint nd : {0u, 1u, 2u}) for (int dl = 0; dl < 3; dl++) for (int ln = 0; ln < 3; ln++) for (int b = 0; b < 5; b++) for (int st = 0; st < 2; st++)
  {
    // binaries: 0 good, 1 garbage, 2 NULL array, 3 NULL element, 4 truncated ; lengths: 0 good, 1 NULL, 2 zero
    cl_device_id devs[2] = {dl == 1 ? (cl_device_id)cl->plat : cl->dev, cl->dev}; size_t L[2] = {ln == 2 ? 0 : b == 1 ? 32 : b == 4 ? bs / 2 : bs, bs}; const unsigned char* B[2] = {b == 1 ? garbage : b == 3 ? 0 : bin.data(), bin.data()};
    Exp x; if (ctx) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; } if (nd != 1 || dl == 2) x.bad(CL_INVALID_VALUE); if (ln == 1 || ln == 2 || b == 2 || b == 3) x.bad(CL_INVALID_VALUE); if (dl == 1) x.bad(CL_INVALID_DEVICE); if (b == 1 || b == 4) x.bad(CL_INVALID_BINARY); if (ln == 2) x.alt.insert(CL_INVALID_BINARY); if (b == 3) x.alt.insert(CL_INVALID_BINARY);
    create(fmt("clCreateProgramWithBinary ctx=%d nd=%u dl=%d len=%d bin=%d status=%d", !ctx, nd, dl, ln, b, st), "clCreateProgramWithBinary", x, [&](cl_int* e) { cl_int s = 5; cl_program p = clCreateProgramWithBinary(ctx ? 0 : cl->ctx, nd, dl == 2 ? 0 : devs, ln == 1 ? 0 : L, b == 2 ? 0 : B, st ? &s : 0, e);
      if (st && p && s != CL_SUCCESS) R->fail("clCreateProgramWithBinary:status", fmt("status %d for a good binary", s)); if (p) clReleaseProgram(p); return (void*)p; });
  }
  cl_int er; cl_program unbuilt = clCreateProgramWithSource(cl->ctx, 1, &src, 0, &er); CK(er);
  for (int pr = 0; pr < 3; pr++) for (int nm = 0; nm < 4; nm++)
  {
    Exp x; if (pr == 2) { x.bad(CL_INVALID_PROGRAM); x.hasCtx = false; } if (pr == 1) x.bad2(CL_INVALID_PROGRAM_EXECUTABLE, CL_INVALID_KERNEL_NAME); const char* names[] = {"f", "nosuch", "", 0}; if (nm == 1 || nm == 2) x.bad(CL_INVALID_KERNEL_NAME); if (nm == 3) x.bad(CL_INVALID_VALUE);
    create(fmt("clCreateKernel program=%d name=%d", pr, nm), "clCreateKernel", x, [&](cl_int* e) { cl_kernel k = clCreateKernel(pr == 0 ? built : pr == 1 ? unbuilt : 0, names[nm], e); if (k) clReleaseKernel(k); return (void*)k; });
  }
  for (int pr = 0; pr < 3; pr++) for (cl_uint n = 0; n < 4; n++) for (int arr = 0; arr < 2; arr++)
    if (R->begin(fmt("clCreateKernelsInProgram program=%d n=%u array=%d", pr, n, arr)))
    {
      Exp x; if (pr == 2) { x.bad(CL_INVALID_PROGRAM); x.hasCtx = false; } if (pr == 1) x.bad(CL_INVALID_PROGRAM_EXECUTABLE); if (arr && n < 2) x.bad(CL_INVALID_VALUE);
      cl_kernel ks[4] = {0, 0, 0, 0}; cl_uint nr = 99; arm(); cl_int r = clCreateKernelsInProgram(pr == 0 ? built : pr == 1 ? unbuilt : 0, n, arr ? ks : 0, &nr); judge("clCreateKernelsInProgram", x, r, R->curCase);
      for (int i = 0; i < 4; i++) { if ((ks[i] != 0) != (r == 0 && arr && i < 2)) R->fail("clCreateKernelsInProgram:array", R->curCase + ": wrong kernels stored"); if (ks[i]) clReleaseKernel(ks[i]); }
      if (!r && nr != 2) R->fail("clCreateKernelsInProgram:count", "wrong kernel count");
    }
  // building
  const char* badsrc = "kernel void f(global int*p){*p=}";
  for (int api = 0; api < 2; api++) for (int pr = 0; pr < 3; pr++) for (cl_uint nd : {0u, 1u}) for (int dl = 0; dl < 3; dl++) for (int cb = 0; cb < 2; cb++) for (int ud = 0; ud < 2; ud++)
  {
    const char* fn = api ? "clCompileProgram" : "clBuildProgram";
    if (!R->begin(fmt("%s program=%d nd=%u dl=%d cb=%d ud=%d", fn, pr, nd, dl, cb, ud))) continue;
    Exp x; if (pr == 2) { x.bad(CL_INVALID_PROGRAM); x.hasCtx = false; } cl_device_id dv = dl == 2 ? 0 : cl->dev;
    if ((nd > 0) != (dl > 0)) x.bad(CL_INVALID_VALUE); if (nd && dl == 2) x.bad(CL_INVALID_DEVICE); if (!nd && dl == 2) x.alt.insert(CL_INVALID_DEVICE); if (!cb && ud) x.bad(CL_INVALID_VALUE);
    bool valid = x.errs.empty(); if (valid && pr == 1) x.bad(api ? CL_COMPILE_PROGRAM_FAILURE : CL_BUILD_PROGRAM_FAILURE);
    cl_program p = pr == 2 ? 0 : clCreateProgramWithSource(cl->ctx, 1, pr ? &badsrc : &src, 0, &er); static int called; called = 0; auto fcb = [](cl_program, void* u) { called++; };
    arm(); cl_int r = api ? clCompileProgram(p, nd, dl ? &dv : 0, "", 0, 0, 0, cb ? (void (*)(cl_program, void*))fcb : 0, ud ? &x : 0) : clBuildProgram(p, nd, dl ? &dv : 0, "", cb ? (void (*)(cl_program, void*))fcb : 0, ud ? &x : 0);
    judge(fn, x, r, R->curCase); if (called != (valid && cb)) R->fail(string(fn) + ":callback", R->curCase + fmt(": callback called %d times", called));
    if (p) { cl_build_status bst; clGetProgramBuildInfo(p, cl->dev, CL_PROGRAM_BUILD_STATUS, sizeof bst, &bst, 0); if (bst != (!valid ? CL_BUILD_NONE : pr ? CL_BUILD_ERROR : CL_BUILD_SUCCESS)) R->fail(string(fn) + ":status", R->curCase + fmt(": build status %d", bst)); clReleaseProgram(p); }
  }
  cl_program lib = clCreateProgramWithSource(cl->ctx, 1, &src, 0, &er); CK(clCompileProgram(lib, 0, 0, "", 0, 0, 0, 0, 0)); cl_program raw = clCreateProgramWithSource(cl->ctx, 1, &src, 0, &er);
  const char* hsrc = "#define V 3\n"; const char* isrc = "#include \"h.h\"\nkernel void f(global int* p){ *p = V; }"; cl_program hp = clCreateProgramWithSource(cl->ctx, 1, &hsrc, 0, &er);
  for (cl_uint n : {0u, 1u, 2u}) for (int l = 0; l < 3; l++) for (int nm = 0; nm < 3; nm++)
  {
    string id = fmt("clCompileProgram headers=%u list=%d names=%d", n, l, nm); if (!R->begin(id)) continue;
    cl_program hl[2] = {hp, l == 2 ? 0 : hp}; const char* ns[2] = {"h.h", nm == 2 ? 0 : "g.h"}; Exp x; bool any = l || nm, all = l && nm;
    if (n ? !all : any) x.bad(CL_INVALID_VALUE); if (n == 2 && l == 2) x.bad(CL_INVALID_PROGRAM); if (n == 2 && nm == 2) x.bad(CL_INVALID_VALUE); if (!n && !any) x.bad(CL_COMPILE_PROGRAM_FAILURE);
    cl_program p = clCreateProgramWithSource(cl->ctx, 1, &isrc, 0, &er); arm(); cl_int r = clCompileProgram(p, 0, 0, "", n, l ? hl : 0, nm ? ns : 0, 0, 0); judge("clCompileProgram", x, r, id); clReleaseProgram(p);
  }
  for (int ctx = 0; ctx < 2; ctx++) for (cl_uint nd : {0u, 1u}) for (int dl = 0; dl < 3; dl++) for (int ud = 0; ud < 2; ud++) for (int ip = 0; ip < 5; ip++)
  {
    cl_device_id dv = dl == 2 ? 0 : cl->dev; cl_program in[1] = {ip == 3 ? 0 : ip == 4 ? raw : lib};
    Exp x; if (ctx) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; } if ((nd > 0) != (dl > 0)) x.bad(CL_INVALID_VALUE); if (nd && dl == 2) x.bad(CL_INVALID_DEVICE); if (!nd && dl == 2) x.alt.insert(CL_INVALID_DEVICE); if (ud) x.bad(CL_INVALID_VALUE); if (ip == 1 || ip == 2) x.bad(CL_INVALID_VALUE); if (ip == 3) x.bad(CL_INVALID_PROGRAM); if (ip == 4) x.bad(CL_INVALID_OPERATION);
    create(fmt("clLinkProgram ctx=%d nd=%u dl=%d ud=%d in=%d", !ctx, nd, dl, ud, ip), "clLinkProgram", x, [&](cl_int* e) { cl_program p = clLinkProgram(ctx ? 0 : cl->ctx, nd, dl ? &dv : 0, "", ip == 1 ? 0 : 1, ip == 2 ? 0 : in, 0, ud ? &x : 0, e); if (p) clReleaseProgram(p); return (void*)p; });
  }
  create("clCreateUserEvent ok", "clCreateUserEvent", Exp(), [&](cl_int* e) { cl_event v = clCreateUserEvent(cl->ctx, e); if (v) clReleaseEvent(v); return (void*)v; });
  Exp bc; bc.bad(CL_INVALID_CONTEXT); bc.hasCtx = false; create("clCreateUserEvent null", "clCreateUserEvent", bc, [&](cl_int* e) { return (void*)clCreateUserEvent(0, e); });
}

// ---- events, misc ----------------------------------------------------------------------------------
static void misc()
{
  static int called; static void (CL_CALLBACK *cb)(cl_event, cl_int, void*) = [](cl_event, cl_int, void*) { called++; };
  auto one = [&](const string& id, const char* fn, Exp x, std::function<cl_int()> f) { if (R->begin(id)) { arm(); cl_int r = f(); judge(fn, x, r, id); } };
  auto X = [](cl_int e, bool ctx = true) { Exp x; if (e) x.bad(e); x.hasCtx = ctx; return x; };
  // user event status: every pair of consecutive settings
  vector<cl_int> st = {CL_COMPLETE, CL_RUNNING, CL_SUBMITTED, CL_QUEUED, 4, 1000, -1, -5, INT32_MIN, INT32_MAX};
  for (cl_int a : st) for (cl_int b : st) for (int early = 0; early < 2; early++)
    if (R->begin(fmt("clSetUserEventStatus %d then %d callback=%d", a, b, early)))
    {
      cl_int e; cl_event v = clCreateUserEvent(cl->ctx, &e); called = 0; if (early) CK(clSetEventCallback(v, CL_COMPLETE, cb, 0));
      bool okA = a <= 0; arm(); judge("clSetUserEventStatus", X(okA ? 0 : CL_INVALID_VALUE), clSetUserEventStatus(v, a), R->curCase);
      Exp x; if (b > 0) x.bad(CL_INVALID_VALUE); if (okA) x.bad(CL_INVALID_OPERATION);
      arm(); judge("clSetUserEventStatus", x, clSetUserEventStatus(v, b), R->curCase + " (second)");
      cl_int s; CK(clGetEventInfo(v, CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0)); cl_int want = okA ? a : b <= 0 ? b : CL_SUBMITTED; if (s != want) R->fail("clSetUserEventStatus:state", R->curCase + fmt(": status is %d, expected %d", s, want));
      int wc = early && (okA || b <= 0); if (called != wc) R->fail("clSetUserEventStatus:callbacks", R->curCase + fmt(": callback called %d times, expected %d", called, wc));
      clReleaseEvent(v);
    }
  cl_event cmd; char c; CK(clEnqueueReadBuffer(cl->q, bufB, 1, 0, 1, &c, 0, 0, &cmd));
  one("clSetUserEventStatus command", "clSetUserEventStatus", X(CL_INVALID_EVENT), [&] { return clSetUserEventStatus(cmd, CL_COMPLETE); });
  one("clSetUserEventStatus null", "clSetUserEventStatus", X(CL_INVALID_EVENT, false), [&] { return clSetUserEventStatus(0, CL_COMPLETE); });
  for (int ev = 0; ev < 2; ev++) for (cl_int t = -1; t <= 5; t++) for (int f = 0; f < 2; f++)
  { Exp x; if (ev) { x.bad(CL_INVALID_EVENT); x.hasCtx = false; } if (!f) x.bad(CL_INVALID_VALUE); if (t < 0 || t > 2) x.bad(CL_INVALID_VALUE);
    one(fmt("clSetEventCallback ev=%d type=%d fn=%d", !ev, t, f), "clSetEventCallback", x, [&] { cl_event u = ev ? 0 : clCreateUserEvent(cl->ctx, 0); cl_int r = clSetEventCallback(u, t, f ? cb : 0, 0); return r; }); }
  // waiting
  cl_event nul = 0, mix[2] = {goodEv, 0}; cl_event failed = clCreateUserEvent(cl->ctx, 0); CK(clSetUserEventStatus(failed, -7)); cl_event mix2[2] = {goodEv, failed};
  struct WE { const char* n; cl_uint k; const cl_event* l; cl_int e; bool ctx; };
  for (auto& w : vector<WE>{{"zero", 0, &goodEv, CL_INVALID_VALUE, 0}, {"null", 1, 0, CL_INVALID_VALUE, 0}, {"nullevent", 1, &nul, CL_INVALID_EVENT, 0}, {"second", 2, mix, CL_INVALID_EVENT, 0}, {"good", 1, &goodEv, 0, 0}, {"cmd", 1, &cmd, 0, 0}, {"failed", 1, &failed, CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST, 1}, {"goodfailed", 2, mix2, CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST, 1}})
  { one(string("clWaitForEvents ") + w.n, "clWaitForEvents", X(w.e, w.ctx), [&] { return clWaitForEvents(w.k, w.l); }); }
  // blocking commands after failed events
  size_t z3[3] = {0, 0, 0}, r1[3] = {1, 1, 1};
  for (int q = 0; q < 2; q++) for (int api = 0; api < 6; api++) if (R->begin(fmt("blocking api=%d failed=%d", api, q)))
  {
    const char* fns[] = {"clEnqueueReadBuffer", "clEnqueueWriteBuffer", "clEnqueueReadBufferRect", "clEnqueueWriteBufferRect", "clEnqueueMapBuffer", "clEnqueueMapBuffer"};
    const cl_event* l = q ? &failed : &goodEv; arm(); cl_int e = 0; void* mp = 0; cl_event ev = 0;
    switch (api) { case 0: e = clEnqueueReadBuffer(cl->q, bufB, 1, 0, 4, hostBuf.data(), 1, l, 0); break; case 1: e = clEnqueueWriteBuffer(cl->q, bufB, 1, 0, 4, hostBuf.data(), 1, l, 0); break;
      case 2: e = clEnqueueReadBufferRect(cl->q, bufB, 1, z3, z3, r1, 0, 0, 0, 0, hostBuf.data(), 1, l, 0); break; case 3: e = clEnqueueWriteBufferRect(cl->q, bufB, 1, z3, z3, r1, 0, 0, 0, 0, hostBuf.data(), 1, l, 0); break;
      default: mp = clEnqueueMapBuffer(cl->q, bufB, 1, CL_MAP_READ, 0, 4, 1, l, &ev, &e); if ((mp != 0) != (e == 0)) R->fail("clEnqueueMapBuffer:pointer", R->curCase); }
    judge(fns[api], X(q ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : 0), e, R->curCase);
    if (q && (touched() || hostBuf != hostPat)) R->fail("blocking:effect", R->curCase + ": data was transferred although the awaited event failed"); if (mp) { clEnqueueUnmapMemObject(cl->q, bufB, mp, 0, 0, 0); clFinish(cl->q); } restore(); hostBuf = hostPat;
  }
  // markers, barriers, migration, unmap, native kernels
  cl_mem bp = bufB;
  for (auto& w : waits()) for (int q = 0; q < 2; q++)
  {
    Exp x; if (w.err) x.bad(w.err); if (q) { x.bad(CL_INVALID_COMMAND_QUEUE); x.hasCtx = false; } cl_command_queue qq = q ? 0 : cl->q; string s = fmt(" wait=%s queue=%d", w.name, !q);
    enq("clEnqueueMarkerWithWaitList" + s, "clEnqueueMarkerWithWaitList", x, [&](cl_event* e) { return clEnqueueMarkerWithWaitList(qq, w.n, w.l, e); });
    enq("clEnqueueBarrierWithWaitList" + s, "clEnqueueBarrierWithWaitList", x, [&](cl_event* e) { return clEnqueueBarrierWithWaitList(qq, w.n, w.l, e); });
    enq("clEnqueueMigrateMemObjects" + s, "clEnqueueMigrateMemObjects", x, [&](cl_event* e) { return clEnqueueMigrateMemObjects(qq, 1, &bp, 0, w.n, w.l, e); });
    for (cl_uint n = 0; n < 3; n++) for (int nl = 0; nl < 3; nl++)
    { cl_mem l[2] = {nl == 1 ? 0 : bufB, n == 2 && nl == 0 ? 0 : bufB}; Exp y = x; if (!n || nl == 2) y.bad(CL_INVALID_VALUE); else if (!l[0] || (n == 2 && !l[1])) y.bad(CL_INVALID_MEM_OBJECT);
      enq("clEnqueueMigrateMemObjects" + s + fmt(" n=%u list=%d", n, nl), "clEnqueueMigrateMemObjects", y, [&](cl_event* e) { return clEnqueueMigrateMemObjects(qq, n, nl == 2 ? 0 : l, 0, w.n, w.l, e); }); }
    for (int m = 0; m < 2; m++) for (int pt = 0; pt < 2; pt++)
    { Exp y = x; if (m) y.bad(CL_INVALID_MEM_OBJECT); if (pt) y.bad(CL_INVALID_VALUE);
      enq("clEnqueueUnmapMemObject" + s + fmt(" mem=%d ptr=%d", !m, !pt), "clEnqueueUnmapMemObject", y, [&](cl_event* e) { void* p = clEnqueueMapBuffer(cl->q, bufB, 1, CL_MAP_READ, 0, 8, 0, 0, 0, 0); cl_int r = clEnqueueUnmapMemObject(qq, m ? 0 : bufB, pt ? 0 : p, w.n, w.l, e); return r; }); }
  }
  cl_event other = 0; { static CL oc; cl_int oe; other = clCreateUserEvent(oc.ctx, &oe); CK(oe); } cl_event mixO[2] = {goodEv, other};
  for (auto& w : vector<WE>{{"zero", 0, &goodEv, CL_INVALID_VALUE, 1}, {"zeronull", 0, 0, CL_INVALID_VALUE, 1}, {"null", 1, 0, CL_INVALID_VALUE, 1}, {"nullevent", 1, &nul, CL_INVALID_EVENT, 1}, {"second", 2, mix, CL_INVALID_EVENT, 1}, {"other", 1, &other, CL_INVALID_CONTEXT, 1}, {"secondother", 2, mixO, CL_INVALID_CONTEXT, 1}, {"good", 1, &goodEv, 0, 1}, {"cmd", 1, &cmd, 0, 1}})
    for (int q = 0; q < 2; q++) { Exp x = X(w.e, w.ctx); if (q) { x = X(CL_INVALID_COMMAND_QUEUE, false); if (w.e) x.bad(w.e); }
      one(string("clEnqueueWaitForEvents ") + w.n + fmt(" queue=%d", !q), "clEnqueueWaitForEvents", x, [&] { cl_int r = clEnqueueWaitForEvents(q ? 0 : cl->q, w.k, w.l); clFinish(cl->q); return r; }); }
  one("clEnqueueMarker nullqueue", "clEnqueueMarker", X(CL_INVALID_COMMAND_QUEUE, false), [&] { cl_event e; return clEnqueueMarker(0, &e); });
  one("clEnqueueBarrier nullqueue", "clEnqueueBarrier", X(CL_INVALID_COMMAND_QUEUE, false), [&] { return clEnqueueBarrier(0); });
  one("clFlush nullqueue", "clFlush", X(CL_INVALID_COMMAND_QUEUE, false), [&] { return clFlush(0); });
  one("clFinish nullqueue", "clFinish", X(CL_INVALID_COMMAND_QUEUE, false), [&] { return clFinish(0); });
  static int nat; struct A { void* p; int v; };
  for (auto& w : waits()) for (int fn = 0; fn < 2; fn++) for (int ar = 0; ar < 2; ar++) for (size_t cb : {(size_t)0, sizeof(A)}) for (cl_uint nm : {0u, 1u}) for (int ml = 0; ml < 3; ml++) for (int al = 0; al < 2; al++)
  {
    A a = {0, 5}; const void* locs[1] = {&a.p}; cl_mem mems[1] = {ml == 2 ? 0 : bufB};
    Exp x; if (fn) x.bad(CL_INVALID_VALUE); if (!ar && (cb || nm)) x.bad(CL_INVALID_VALUE); if (ar && !cb) x.bad(CL_INVALID_VALUE);
    if (nm && (!ml || !al)) x.bad(CL_INVALID_VALUE); if (!nm && (ml || al)) x.bad(CL_INVALID_VALUE); if (nm && ml == 2) x.bad(CL_INVALID_MEM_OBJECT); if (w.err) x.bad(w.err); nat = 0;
    string id = fmt("clEnqueueNativeKernel wait=%s fn=%d args=%d cb=%zu n=%u list=%d locs=%d", w.name, !fn, ar, cb, nm, ml, al); bool mine = false;
    enq(id, "clEnqueueNativeKernel", x, [&](cl_event* e) { mine = true; return clEnqueueNativeKernel(cl->q, fn ? 0 : (void (CL_CALLBACK*)(void*))[](void* p) { nat += 1; if (p && ((A*)p)->p == (void*)backB) nat += 10; if (p && ((A*)p)->v == 5) nat += 100; }, ar ? &a : 0, cb, nm, ml ? mems : 0, al ? locs : 0, w.n, w.l, e); });
    if (mine) { int want = x.errs.empty() ? 1 + (nm ? 10 : 0) + (ar ? 100 : 0) : 0; if (nat != want) R->fail("clEnqueueNativeKernel:run", id + fmt(": native function effect %d, expected %d", nat, want)); }
  }
  // NULL objects
  struct NF { const char* fn; cl_int e; std::function<cl_int()> f; };
  vector<NF> nf = {{"clRetainContext", CL_INVALID_CONTEXT, [] { return clRetainContext(0); }}, {"clReleaseContext", CL_INVALID_CONTEXT, [] { return clReleaseContext(0); }},
    {"clRetainCommandQueue", CL_INVALID_COMMAND_QUEUE, [] { return clRetainCommandQueue(0); }}, {"clReleaseCommandQueue", CL_INVALID_COMMAND_QUEUE, [] { return clReleaseCommandQueue(0); }},
    {"clRetainMemObject", CL_INVALID_MEM_OBJECT, [] { return clRetainMemObject(0); }}, {"clReleaseMemObject", CL_INVALID_MEM_OBJECT, [] { return clReleaseMemObject(0); }},
    {"clRetainSampler", CL_INVALID_SAMPLER, [] { return clRetainSampler(0); }}, {"clReleaseSampler", CL_INVALID_SAMPLER, [] { return clReleaseSampler(0); }},
    {"clRetainProgram", CL_INVALID_PROGRAM, [] { return clRetainProgram(0); }}, {"clReleaseProgram", CL_INVALID_PROGRAM, [] { return clReleaseProgram(0); }},
    {"clRetainKernel", CL_INVALID_KERNEL, [] { return clRetainKernel(0); }}, {"clReleaseKernel", CL_INVALID_KERNEL, [] { return clReleaseKernel(0); }},
    {"clRetainEvent", CL_INVALID_EVENT, [] { return clRetainEvent(0); }}, {"clReleaseEvent", CL_INVALID_EVENT, [] { return clReleaseEvent(0); }}};
  for (auto& f : nf) one(string(f.fn) + " null", f.fn, X(f.e, false), f.f);
  for (int m = 0; m < 2; m++) for (int f = 0; f < 2; f++) { Exp x; if (m) { x.bad(CL_INVALID_MEM_OBJECT); x.hasCtx = false; } if (!f) x.bad(CL_INVALID_VALUE);
    one(fmt("clSetMemObjectDestructorCallback mem=%d fn=%d", !m, f), "clSetMemObjectDestructorCallback", x, [&] { cl_mem b = m ? 0 : cl->buf(4); cl_int r = clSetMemObjectDestructorCallback(b, f ? (void (CL_CALLBACK*)(cl_mem, void*))[](cl_mem, void*) {} : (void (CL_CALLBACK*)(cl_mem, void*))0, 0); return r; }); }
  for (int ctx = 0; ctx < 2; ctx++) for (cl_uint n = 0; n < 3; n++) for (int l = 0; l < 2; l++) { cl_image_format F[2]; cl_uint k; Exp x; if (ctx) { x.bad(CL_INVALID_CONTEXT); x.hasCtx = false; } if (n == 0 && l) x.bad(CL_INVALID_VALUE);
    one(fmt("clGetSupportedImageFormats ctx=%d n=%u list=%d", !ctx, n, l), "clGetSupportedImageFormats", x, [&] { return clGetSupportedImageFormats(ctx ? 0 : cl->ctx, CL_MEM_READ_WRITE, CL_MEM_OBJECT_IMAGE2D, n, l ? F : 0, &k); }); }
  for (cl_uint n = 0; n < 3; n++) for (int l = 0; l < 2; l++) { cl_platform_id P[2]; cl_device_id D[2]; Exp x; x.hasCtx = false; if (n == 0 && l) x.bad(CL_INVALID_VALUE); cl_uint k;
    one(fmt("clGetPlatformIDs n=%u list=%d", n, l), "clGetPlatformIDs", x, [&] { return clGetPlatformIDs(n, l ? P : 0, &k); }); one(fmt("clGetDeviceIDs n=%u list=%d", n, l), "clGetDeviceIDs", x, [&] { return clGetDeviceIDs(cl->plat, CL_DEVICE_TYPE_ALL, n, l ? D : 0, &k); }); }
}

// ---- queries: every parameter name of every query, with exact, larger, smaller and no destination ---
static void queries()
{
  cl_program p = cl->build(KSRC); cl_kernel k = cl->kernel(p, "all"); cl_event cmd, ue = clCreateUserEvent(cl->ctx, 0); char c; CK(clEnqueueReadBuffer(cl->q, bufB, 1, 0, 1, &c, 0, 0, &cmd)); cl_int e;
  cl_sampler smp = clCreateSampler(cl->ctx, 0, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e); cl_image_format F = {CL_R, CL_UNSIGNED_INT32}; cl_image_desc d = {CL_MEM_OBJECT_IMAGE2D, 2, 2, 1, 1, 0, 0, 0, 0, {0}}; cl_mem img = clCreateImage(cl->ctx, 0, &F, &d, 0, &e);
  struct Q { const char* fn; const char* obj; cl_uint lo, hi; std::set<cl_uint> must; std::function<cl_int(cl_uint, size_t, void*, size_t*)> f; cl_int nullErr; std::function<cl_int(cl_uint, size_t, void*, size_t*)> nul; std::set<cl_uint> skip; };
#define FN(call) [&](cl_uint n, size_t s, void* v, size_t* r) -> cl_int { return call; }
  vector<Q> qs = {
    {"clGetPlatformInfo", "platform", 0x0900, 0x0920, {0x900, 0x901, 0x902, 0x903, 0x904}, FN(clGetPlatformInfo(cl->plat, n, s, v, r)), 0, nullptr, {}},
    {"clGetDeviceInfo", "device", 0x1000, 0x1080, {0x1000, 0x1001, 0x1002, 0x1004, 0x1005, 0x102B, 0x102C, 0x102D, 0x102E, 0x102F, 0x1030, 0x1023, 0x101F, 0x1020, 0x103D}, FN(clGetDeviceInfo(cl->dev, n, s, v, r)), CL_INVALID_DEVICE, FN(clGetDeviceInfo(0, n, s, v, r)), {}},
    {"clGetContextInfo", "context", 0x1080, 0x1090, {0x1080, 0x1081, 0x1082, 0x1083}, FN(clGetContextInfo(cl->ctx, n, s, v, r)), CL_INVALID_CONTEXT, FN(clGetContextInfo(0, n, s, v, r)), {}},
    {"clGetCommandQueueInfo", "queue", 0x1090, 0x10A0, {0x1090, 0x1091, 0x1092, 0x1093}, FN(clGetCommandQueueInfo(cl->q, n, s, v, r)), CL_INVALID_COMMAND_QUEUE, FN(clGetCommandQueueInfo(0, n, s, v, r)), {0x1094}},
    {"clGetMemObjectInfo", "buffer", 0x1100, 0x1120, {0x1100, 0x1101, 0x1102, 0x1103, 0x1104, 0x1105, 0x1106, 0x1107, 0x1108}, FN(clGetMemObjectInfo(bufB, n, s, v, r)), CL_INVALID_MEM_OBJECT, FN(clGetMemObjectInfo(0, n, s, v, r)), {}},
    {"clGetMemObjectInfo", "sub-buffer", 0x1100, 0x1120, {0x1107, 0x1108}, FN(clGetMemObjectInfo(subA, n, s, v, r)), 0, nullptr, {}},
    {"clGetMemObjectInfo", "image", 0x1100, 0x1120, {0x1107, 0x1108}, FN(clGetMemObjectInfo(img, n, s, v, r)), 0, nullptr, {}},
    {"clGetImageInfo", "image", 0x1110, 0x1120, {0x1110, 0x1111, 0x1112, 0x1113, 0x1114, 0x1115, 0x1116}, FN(clGetImageInfo(img, n, s, v, r)), CL_INVALID_MEM_OBJECT, FN(clGetImageInfo(0, n, s, v, r)), {}},
    {"clGetSamplerInfo", "sampler", 0x1150, 0x1160, {0x1150, 0x1151, 0x1152, 0x1153, 0x1154}, FN(clGetSamplerInfo(smp, n, s, v, r)), CL_INVALID_SAMPLER, FN(clGetSamplerInfo(0, n, s, v, r)), {}},
    {"clGetProgramInfo", "program", 0x1160, 0x1170, {0x1160, 0x1161, 0x1162, 0x1163, 0x1164, 0x1165, 0x1166, 0x1167, 0x1168}, FN(clGetProgramInfo(p, n, s, v, r)), CL_INVALID_PROGRAM, FN(clGetProgramInfo(0, n, s, v, r)), {CL_PROGRAM_BINARIES}},
    {"clGetProgramBuildInfo", "program", 0x1180, 0x1190, {0x1181, 0x1182, 0x1183, 0x1184}, FN(clGetProgramBuildInfo(p, cl->dev, n, s, v, r)), CL_INVALID_PROGRAM, FN(clGetProgramBuildInfo(0, cl->dev, n, s, v, r)), {}},
    {"clGetKernelInfo", "kernel", 0x1190, 0x1196, {0x1190, 0x1191, 0x1192, 0x1193, 0x1194, 0x1195}, FN(clGetKernelInfo(k, n, s, v, r)), CL_INVALID_KERNEL, FN(clGetKernelInfo(0, n, s, v, r)), {}},
    {"clGetKernelArgInfo", "kernel", 0x1196, 0x11A0, {0x1196, 0x1197, 0x1198, 0x1199, 0x119A}, FN(clGetKernelArgInfo(k, 1, n, s, v, r)), CL_INVALID_KERNEL, FN(clGetKernelArgInfo(0, 1, n, s, v, r)), {}},
    {"clGetKernelWorkGroupInfo", "kernel", 0x11B0, 0x11C0, {0x11B0, 0x11B1, 0x11B2, 0x11B3, 0x11B4}, FN(clGetKernelWorkGroupInfo(k, cl->dev, n, s, v, r)), CL_INVALID_KERNEL, FN(clGetKernelWorkGroupInfo(0, cl->dev, n, s, v, r)), {0x11B5}},
    {"clGetEventInfo", "command", 0x11D0, 0x11E0, {0x11D0, 0x11D1, 0x11D2, 0x11D3, 0x11D4}, FN(clGetEventInfo(cmd, n, s, v, r)), CL_INVALID_EVENT, FN(clGetEventInfo(0, n, s, v, r)), {}},
    {"clGetEventInfo", "user", 0x11D0, 0x11E0, {0x11D0, 0x11D1, 0x11D2, 0x11D3, 0x11D4}, FN(clGetEventInfo(ue, n, s, v, r)), 0, nullptr, {}},
    {"clGetEventProfilingInfo", "command", 0x1280, 0x1290, {0x1280, 0x1281, 0x1282, 0x1283}, FN(clGetEventProfilingInfo(cmd, n, s, v, r)), CL_INVALID_EVENT, FN(clGetEventProfilingInfo(0, n, s, v, r)), {}}};
  for (auto& q : qs)
  {
    for (cl_uint n = q.lo; n <= q.hi; n++)
    {
      if (q.skip.count(n) || !R->begin(fmt("%s %s param=0x%x", q.fn, q.obj, n))) continue;
      size_t need = 7777777; arm(); cl_int r = q.f(n, 0, 0, &need); Exp x; if (r) x.bad2(CL_INVALID_VALUE, r == CL_PROFILING_INFO_NOT_AVAILABLE ? r : CL_INVALID_VALUE); if (r && string(q.fn) == "clGetMemObjectInfo") x.bad(CL_INVALID_VALUE);
      x.may.insert(CL_KERNEL_ARG_INFO_NOT_AVAILABLE); if (string(q.fn) == "clGetPlatformInfo" || string(q.fn) == "clGetDeviceInfo" || string(q.fn) == "clGetContextInfo") x.hasCtx = string(q.fn) == "clGetContextInfo";
      judge(q.fn, x, r, R->curCase);
      if (r) { if (q.must.count(n)) R->fail(string(q.fn) + ":query-rejected", R->curCase + fmt(" is a valid query but returned %s", ename(r))); continue; }
      if (need > 100000) { R->fail(string(q.fn) + ":size", R->curCase + " did not report the size of the result"); continue; }
      vector<uint8_t> ref(need + 64, 0xA5), v2 = ref;
      arm(); r = q.f(n, need, need ? ref.data() : 0, 0); Exp ok; judge(q.fn, ok, r, R->curCase + " exact");
      for (size_t i = need; i < ref.size(); i++) if (ref[i] != 0xA5) { R->fail(string(q.fn) + ":overrun", R->curCase + " wrote beyond the size it reported"); break; }
      arm(); size_t n2 = 0; r = q.f(n, need + 9, v2.data(), &n2); judge(q.fn, ok, r, R->curCase + " larger"); if (n2 != need || v2 != ref) R->fail(string(q.fn) + ":larger", R->curCase + " gave another result for a larger destination");
      for (size_t s : std::set<size_t>{0, need / 2, need ? need - 1 : 0})
      {
        if (s >= need) continue; vector<uint8_t> v3(need + 64, 0x5A); Exp bad; bad.bad(CL_INVALID_VALUE); bad.hasCtx = x.hasCtx && string(q.fn) != "clGetProgramInfo"; arm(); r = q.f(n, s, v3.data(), 0); judge(q.fn, bad, r, R->curCase + fmt(" size=%zu of %zu", s, need));
        for (auto b : v3) if (b != 0x5A) { R->fail(string(q.fn) + ":small", R->curCase + " wrote to a destination that is too small"); break; }
      }
      if (q.nul) { Exp nx; nx.bad(q.nullErr); nx.hasCtx = false; arm(); vector<uint8_t> v4(need + 1, 1); r = q.nul(n, need, v4.data(), 0); judge(q.fn, nx, r, R->curCase + " null object"); }
    }
  }
  for (cl_uint idx : {0u, 11u, 12u, 13u, 0xFFFFFFFFu}) if (R->begin(fmt("clGetKernelArgInfo index=%u", idx))) { Exp x; if (idx > 11) x.bad(CL_INVALID_ARG_INDEX); x.may.insert(CL_KERNEL_ARG_INFO_NOT_AVAILABLE); size_t n; arm(); judge("clGetKernelArgInfo", x, clGetKernelArgInfo(k, idx, CL_KERNEL_ARG_NAME, 0, 0, &n), R->curCase); }
  if (R->begin("clGetEventProfilingInfo user")) { Exp x; x.bad(CL_PROFILING_INFO_NOT_AVAILABLE); cl_ulong t; arm(); judge("clGetEventProfilingInfo", x, clGetEventProfilingInfo(ue, CL_PROFILING_COMMAND_QUEUED, 8, &t, 0), R->curCase); }
  if (R->begin("clGetMemObjectInfo host pointers"))
  {
    void* h; CK(clGetMemObjectInfo(bufB, CL_MEM_HOST_PTR, 8, &h, 0)); if (h != backB) R->fail("host-ptr", "host pointer of a USE_HOST_PTR buffer is wrong"); CK(clGetMemObjectInfo(subA, CL_MEM_HOST_PTR, 8, &h, 0)); if (h != backA + 16) R->fail("host-ptr-sub", "host pointer of a sub-buffer is wrong");
    cl_mem pl = cl->buf(64); cl_buffer_region rg = {16, 16}; cl_mem sb = clCreateSubBuffer(pl, 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e); CK(clGetMemObjectInfo(sb, CL_MEM_HOST_PTR, 8, &h, 0)); if (h) R->fail("host-ptr-plain-sub", fmt("sub-buffer of a buffer without host pointer reports host pointer %p", h));
    size_t o; CK(clGetMemObjectInfo(sb, CL_MEM_OFFSET, 8, &o, 0)); if (o != 16) R->fail("sub-offset", "wrong sub-buffer offset"); CK(clGetMemObjectInfo(sb, CL_MEM_SIZE, 8, &o, 0)); if (o != 16) R->fail("sub-size", "wrong sub-buffer size");
  }
}

static void body(int argc, char** argv)
{
  stdEnv(argv[1]); env("OCLGRIND_CHECK_API", "1");
  cl = new CL; cap = new Capture;
  cl_int e; clReleaseCommandQueue(cl->q); clReleaseContext(cl->ctx);
  cl->ctx = clCreateContext(0, 1, &cl->dev, [](const char*, const void*, size_t, void* u) { notified++; if (u != &notified) R->fail("callback-user-data", "the context's error callback got another user data pointer than the one registered"); }, &notified, &e); CK(e); cl->q = clCreateCommandQueue(cl->ctx, cl->dev, CL_QUEUE_PROFILING_ENABLE, &e); CK(e);
  other = clCreateContext(0, 1, &cl->dev, 0, 0, &e); CK(e); otherEv = clCreateUserEvent(other, &e); CK(e); CK(clSetUserEventStatus(otherEv, CL_COMPLETE)); goodEv = clCreateUserEvent(cl->ctx, &e); CK(e); CK(clSetUserEventStatus(goodEv, CL_COMPLETE));
  setupBuffers();
  buffers(); rects(); images(); ndrange(); kernelArgs(); creation(); misc(); queries();
}
VF_MAIN(body)
