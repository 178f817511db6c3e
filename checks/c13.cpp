// C13: all small histories of enqueue / user-event / synchronisation operations on two queues, judged against an
// explicit partial-order model of the OpenCL execution model.
#include "vf.hpp"
#include <algorithm>
#include <chrono>
#include <thread>
using namespace vf;
static CL* cl;
enum { MAXC = 5 };
struct Log { volatile uint32_t n; volatile uint32_t id[63]; };
static Log* L;
static cl_mem logBuf, slots; static cl_kernel kern[MAXC]; static uint32_t readSlot[MAXC];
static void CL_CALLBACK native(void* a) { uint32_t id = *(uint32_t*)a; uint32_t n = L->n; if (n < 63) L->id[n] = id; L->n = n + 1; }
struct CB { int count; cl_int status; int event; };
static void CL_CALLBACK onEvent(cl_event, cl_int st, void* p) { CB* c = (CB*)p; c->count++; c->status = st; }
enum Kind { NATIVE, KERNEL, COPY, READ, BARRIER, MARKER };
struct Cmd { int q; Kind k; unsigned waits; }; // waits: bit0 U1, bit1 U2, bit 2+i = command i
struct Hist { bool ooo[2]; int n; Cmd c[MAXC]; int ufail[2]; int uset[2]; int mid; int fin; };
// mid: -1 none, else 4*k+op: after command k: op 0 finish(queue of k), 1 wait(event k), 2 flush(queue of k), 3 finish(other queue)
static const int NFIN = 7;
static uint64_t states = 0, transitions = 0;
static int userMask(const Hist& h, int i)
{ // user events on which command i (transitively, including queue order) may wait
  int m = h.c[i].waits & 3;
  for (int j = 0; j < i; j++) if ((h.c[i].waits >> (2 + j) & 1) || h.c[j].q == h.c[i].q) m |= userMask(h, j);
  return m;
}
static string describe(const Hist& h)
{
  string s = fmt("%c%c", h.ooo[0] ? 'o' : 'i', h.ooo[1] ? 'o' : 'i');
  for (int i = 0; i < h.n; i++) s += fmt("/%d%c%x", h.c[i].q, "NKCRBM"[h.c[i].k], h.c[i].waits);
  return s + fmt("/u%d@%d,%d@%d/m%d/f%d", h.ufail[0], h.uset[0], h.ufail[1], h.uset[1], h.mid, h.fin);
}
static cl_command_queue Q[2][2];
static void run(const Hist& h)
{
  L->n = 0; for (int i = 0; i < 63; i++) L->id[i] = 99;
  cl_command_queue q[2] = {Q[h.ooo[0]][0], Q[h.ooo[1]][1]};
  cl_event ev[MAXC] = {0}, u[2]; CB cb[MAXC], ucb[2]; cl_int e; uint32_t zero[MAXC]; for (int i = 0; i < MAXC; i++) { cb[i] = {0, 77, 0}; zero[i] = 0xFFFF; readSlot[i] = 0xFFFF; }
  bool usesSlot = false; for (int i = 0; i < h.n; i++) usesSlot |= h.c[i].k == COPY;
  if (usesSlot) CK(clEnqueueWriteBuffer(cl->q, slots, CL_TRUE, 0, sizeof zero, zero, 0, 0, 0));
  bool used[2] = {false, false}; for (int i = 0; i < h.n; i++) for (int k = 0; k < 2; k++) used[k] |= h.c[i].waits >> k & 1;
  for (int k = 0; k < 2; k++) { ucb[k] = {0, 77, 0}; u[k] = 0; if (used[k]) { u[k] = clCreateUserEvent(cl->ctx, &e); CK(e); CK(clSetEventCallback(u[k], CL_COMPLETE, onEvent, &ucb[k])); } }
  auto setUser = [&](int at) { for (int k = 0; k < 2; k++) if (used[k] && h.uset[k] == at) { transitions++; CK(clSetUserEventStatus(u[k], h.ufail[k] ? h.ufail[k] : CL_COMPLETE)); } };
  bool bad[MAXC];
  for (int i = 0; i < h.n; i++)
  { // model: a command fails exactly when something in its wait list fails
    bad[i] = false; for (int k = 0; k < 2; k++) if (h.c[i].waits >> k & 1 && h.ufail[k]) bad[i] = true;
    for (int j = 0; j < i; j++) if (h.c[i].waits >> (2 + j) & 1 && bad[j]) bad[i] = true;
  }
  // implicit dependence of i on an earlier j that the model knows to be failed leaves the outcome of i to the implementation
  bool maybe[MAXC];
  auto implicit = [&](int j, int i) {
    if (h.c[j].q != h.c[i].q) return false; if (!h.ooo[h.c[i].q]) return true;
    if (h.c[j].k == BARRIER) return true; if ((h.c[i].k == BARRIER || h.c[i].k == MARKER) && !h.c[i].waits) return true; return false; };
  for (int i = 0; i < h.n; i++)
  {
    maybe[i] = false; if (bad[i]) continue;
    for (int j = 0; j < i; j++) if ((implicit(j, i) && (bad[j] || maybe[j])) || (h.c[i].waits >> (2 + j) & 1 && maybe[j])) maybe[i] = true;
  }
  auto status = [&](int i) { cl_int s = 55; clGetEventInfo(ev[i], CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0); return s; };
  vector<std::pair<int, uint32_t>> doneAt; // (command, log length when it had to be complete)
  auto mustBeDone = [&](int i, const char* what) {
    cl_int s = status(i);
    if (s > 0) { R->fail(fmt("incomplete:%s", what), describe(h) + fmt(": command %d has status %d after %s", i, s, what)); return; }
    if (bad[i] && s == 0) R->fail("failed-event-not-reported", describe(h) + fmt(": command %d waits for a failed event but is reported complete", i));
    if (!bad[i] && !maybe[i] && s < 0) R->fail("spurious-failure", describe(h) + fmt(": command %d reports %d although nothing it waits for failed", i, s)); };
  auto closure = [&](int i, const char* w) { // completing i implies completing everything it waits for
    mustBeDone(i, w);
    if (!bad[i] && !maybe[i]) for (int j = 0; j < i; j++) if ((h.c[i].waits >> (2 + j) & 1) || implicit(j, i)) mustBeDone(j, w); };
  auto doWait = [&](int i) { transitions++; cl_int r = clWaitForEvents(1, &ev[i]); closure(i, "clWaitForEvents");
    cl_int s = status(i); if ((r == CL_SUCCESS) != (s == 0) && s <= 0) R->fail("wait-result", describe(h) + fmt(": clWaitForEvents returned %d for an event of status %d", r, s)); };
  auto doFinish = [&](int k, int upto) { transitions++; cl_int r = clFinish(q[k]); if (r) R->fail("finish-result", describe(h) + fmt(": clFinish returned %d", r)); for (int i = 0; i <= upto; i++) if (h.c[i].q == k) closure(i, "clFinish"); };
  setUser(0);
  for (int i = 0; i < h.n; i++)
  {
    const Cmd& c = h.c[i]; cl_event w[8]; int nw = 0; for (int j = i - 1; j >= 0; j--) if (c.waits >> (2 + j) & 1) w[nw++] = ev[j]; for (int k = 0; k < 2; k++) if (c.waits >> k & 1) w[nw++] = u[k];
    if ((i + c.waits) & 1) std::reverse(w, w + nw);
    cl_event* wl = nw ? w : 0; uint32_t id = i; size_t one = 1; transitions++;
    switch (c.k)
    {
    case NATIVE: e = clEnqueueNativeKernel(q[c.q], native, &id, sizeof id, 0, 0, 0, nw, wl, &ev[i]); break;
    case KERNEL: e = clEnqueueNDRangeKernel(q[c.q], kern[i], 1, 0, &one, &one, nw, wl, &ev[i]); break;
    case COPY: e = clEnqueueCopyBuffer(q[c.q], logBuf, slots, 0, 4 * i, 4, nw, wl, &ev[i]); break;
    case READ: e = clEnqueueReadBuffer(q[c.q], logBuf, CL_FALSE, 0, 4, &readSlot[i], nw, wl, &ev[i]); break;
    case BARRIER: e = clEnqueueBarrierWithWaitList(q[c.q], nw, wl, &ev[i]); break;
    case MARKER: e = clEnqueueMarkerWithWaitList(q[c.q], nw, wl, &ev[i]); break;
    }
    CK(e);
    if (i & 1) CK(clSetEventCallback(ev[i], CL_COMPLETE, onEvent, &cb[i]));
    setUser(i + 1);
    if (h.mid >= 0 && h.mid / 4 == i)
      switch (h.mid % 4)
      {
      case 0: doFinish(c.q, i); break;
      case 1: doWait(i); break;
      case 2: transitions++; CK(clFlush(q[c.q])); break;
      case 3: doFinish(1 - c.q, i); break;
      }
    if (!(i & 1)) { cl_int s = status(i); CK(clSetEventCallback(ev[i], CL_COMPLETE, onEvent, &cb[i])); }
  }
  switch (h.fin)
  {
  case 0: doFinish(0, h.n - 1); doFinish(1, h.n - 1); break;
  case 1: doFinish(1, h.n - 1); doFinish(0, h.n - 1); break;
  case 2: for (int i = 0; i < h.n; i++) doWait(i); break;
  case 3: for (int i = h.n - 1; i >= 0; i--) doWait(i); break;
  case 4: { transitions++; clWaitForEvents(h.n, ev); for (int i = 0; i < h.n; i++) mustBeDone(i, "clWaitForEvents"); break; }
  case 5: { cl_event r[MAXC]; for (int i = 0; i < h.n; i++) r[i] = ev[h.n - 1 - i]; transitions++; clWaitForEvents(h.n, r); for (int i = 0; i < h.n; i++) mustBeDone(i, "clWaitForEvents"); break; }
  case 6: doWait(h.n - 1); doFinish(0, h.n - 1); doFinish(1, h.n - 1); break;
  }
  doFinish(0, h.n - 1); doFinish(1, h.n - 1);
  // judge the execution record
  uint32_t slot[MAXC]; if (usesSlot) CK(clEnqueueReadBuffer(cl->q, slots, CL_TRUE, 0, sizeof slot, slot, 0, 0, 0));
  uint32_t n = L->n; int pos[MAXC], cnt[MAXC] = {0}; for (int i = 0; i < h.n; i++) pos[i] = -1;
  for (uint32_t i = 0; i < n && i < 63; i++) { if (L->id[i] >= (uint32_t)h.n) { R->fail("log", describe(h) + ": unknown entry"); continue; } pos[L->id[i]] = i; cnt[L->id[i]]++; }
  int lo[MAXC], hi[MAXC]; // executed strictly after `lo` log entries and before entry hi
  for (int i = 0; i < h.n; i++)
  {
    const Cmd& c = h.c[i]; bool logs = c.k == NATIVE || c.k == KERNEL, obs = c.k == COPY || c.k == READ; bool ran; lo[i] = -1;
    if (logs) { ran = cnt[i]; if (cnt[i] > 1) R->fail("executed-twice", describe(h) + fmt(": command %d executed %d times", i, cnt[i])); lo[i] = pos[i]; hi[i] = pos[i] + 1; }
    else if (obs) { uint32_t v = c.k == COPY ? slot[i] : readSlot[i]; ran = v != 0xFFFF; lo[i] = hi[i] = ran ? (int)v : -1; }
    else { lo[i] = -1; ran = status(i) == 0; }
    cl_int s = status(i);
    if (!logs && !obs) continue;
    if (bad[i] && ran) R->fail("ran-after-failure", describe(h) + fmt(": command %d executed although an event it waits for failed", i));
    if (!bad[i] && !maybe[i] && !ran) R->fail("not-executed", describe(h) + fmt(": command %d never executed", i));
    if (ran != (s == 0)) R->fail("status-vs-execution", describe(h) + fmt(": command %d: executed=%d, status %d", i, ran, s));
  }
  // order: j must precede i
  bool before[MAXC][MAXC] = {{0}};
  for (int i = 0; i < h.n; i++) for (int j = 0; j < i; j++) before[j][i] = (h.c[i].waits >> (2 + j) & 1) || implicit(j, i);
  for (int k = 0; k < h.n; k++) for (int i = 0; i < h.n; i++) for (int j = 0; j < h.n; j++) if (before[i][k] && before[k][j] && !bad[k] && !maybe[k]) before[i][j] = true;
  for (int i = 0; i < h.n; i++) for (int j = 0; j < i; j++) if (before[j][i] && lo[i] >= 0 && lo[j] >= 0 && hi[j] > lo[i])
    R->fail("order", describe(h) + fmt(": command %d executed before command %d, which it has to wait for", i, j));
  cl_ulong ts[MAXC][4]; 
  for (int i = 0; i < h.n; i++)
  {
    if (status(i)) continue; cl_profiling_info pi[] = {CL_PROFILING_COMMAND_QUEUED, CL_PROFILING_COMMAND_SUBMIT, CL_PROFILING_COMMAND_START, CL_PROFILING_COMMAND_END};
    for (int k = 0; k < 4; k++) CK(clGetEventProfilingInfo(ev[i], pi[k], 8, &ts[i][k], 0));
    for (int k = 0; k < 3; k++) if (ts[i][k] > ts[i][k + 1] || !ts[i][k]) { R->fail("timestamps", describe(h) + fmt(": command %d: %lu %lu %lu %lu", i, ts[i][0], ts[i][1], ts[i][2], ts[i][3])); break; }
    for (int j = 0; j < i; j++) if (before[j][i] && !status(j) && ts[j][3] > ts[i][2]) R->fail("timestamp-order", describe(h) + fmt(": command %d starts before command %d ends", i, j));
  }
  for (int i = 0; i < h.n; i++)
  {
    if (cb[i].count != 1) R->fail("callback-count", describe(h) + fmt(": the callback of command %d was called %d times", i, cb[i].count));
    else if (cb[i].status != status(i)) R->fail("callback-status", describe(h) + fmt(": callback of command %d got status %d, event has %d", i, cb[i].status, status(i)));
    CK(clReleaseEvent(ev[i]));
  }
  for (int k = 0; k < 2; k++) if (u[k]) { if (ucb[k].count != 1 || ucb[k].status != h.ufail[k]) R->fail("user-callback", describe(h)); CK(clReleaseEvent(u[k])); }
  R->count("traces_validated_against_impl"); states += 1 + h.n;
}
static bool exec(const Hist& h) { if (!R->begin(describe(h))) return false; run(h); return true; }
static void enumerate(int n, bool sync, unsigned uset, int maxBM)
{
  // sync: include barrier and marker commands; uset: mask of user events used
  int kinds = sync ? 3 : 1, total = 1; for (int i = 0; i < n; i++) total *= kinds * 2;
  int wt = 1; for (int i = 0; i < n; i++) wt *= 1 << (i + (uset == 3 ? 2 : uset ? 1 : 0));
  long id = 0;
  for (int mode = 0; mode < 3; mode++) for (int kq = 0; kq < total; kq++) for (int w = 0; w < wt; w++)
  {
    Hist h; memset(&h, 0, sizeof h); h.n = n; h.ooo[0] = mode > 0; h.ooo[1] = mode > 1; int a = kq, b = w, bm = 0; bool uses[2] = {0, 0}; id++;
    for (int i = 0; i < n; i++)
    {
      h.c[i].q = a & 1; a >>= 1; int k = a % kinds; a /= kinds; h.c[i].k = k == 0 ? (Kind)((i + w + kq / 3) % 4) : k == 1 ? BARRIER : MARKER; bm += k > 0;
      int ub = uset == 3 ? 2 : uset ? 1 : 0, bits = i + ub; int m = b & ((1 << bits) - 1); b >>= bits;
      h.c[i].waits = (m & ((1 << ub) - 1)) | (m >> ub) << 2; for (int x = 0; x < 2; x++) uses[x] |= h.c[i].waits >> x & 1;
    }
    if (bm > maxBM || (sync && !bm)) continue;
    if (h.c[0].q && mode != 1) continue; // symmetric
    if ((uset == 3) != (uses[0] && uses[1])) continue; if (uset == 1 && !uses[0]) continue; 
    for (int f0 = 0; f0 < (uses[0] ? 2 : 1); f0++) for (int f1 = 0; f1 < (uses[1] ? 2 : 1); f1++)
      for (int s0 = 0; s0 <= (uses[0] ? n : 0); s0++) for (int s1 = 0; s1 <= (uses[1] ? n : 0); s1++)
      {
        h.ufail[0] = f0 ? -7 : 0; h.ufail[1] = f1 ? -1001 : 0; h.uset[0] = s0; h.uset[1] = s1;
        h.mid = -1;
        for (h.fin = 0; h.fin < NFIN; h.fin++) { if (n == 4 && h.fin != id % NFIN) continue; if (!R->thorough && uset == 3 && h.fin % 3) continue; exec(h); }
        if (n == 4) continue;
        for (int m = 0; m < 4 * (n - (uset == 3 ? 1 : 0)); m++)
        {
          int at = m / 4; bool ok = true; // a blocking operation must not depend on a user event that is set later
          for (int i = 0; i <= at; i++) for (int x = 0; x < 2; x++) if ((userMask(h, i) >> x & 1) && h.uset[x] > at + 1) ok = false;
          if (!ok) continue; h.mid = m; h.fin = (id + m) % NFIN; exec(h);
        }
      }
  }
}
// A user event completed by another host thread while this one blocks
static void threaded()
{
  for (int kind = 0; kind < 4; kind++) for (int fail = 0; fail < 2; fail++) for (int ooo = 0; ooo < 2; ooo++) for (int cross = 0; cross < 2; cross++)
  {
    if (!R->begin(fmt("threaded/%d/%d/%d/%d", kind, fail, ooo, cross))) continue;
    L->n = 0; cl_int e; cl_event u = clCreateUserEvent(cl->ctx, &e), a, b; cl_command_queue q0 = Q[ooo][0], q1 = cross ? Q[ooo][1] : q0; uint32_t i0 = 0, i1 = 1;
    CK(clEnqueueNativeKernel(q0, native, &i0, 4, 0, 0, 0, 1, &u, &a)); CK(clEnqueueNativeKernel(q1, native, &i1, 4, 0, 0, 0, 1, &a, &b));
    uint32_t before = ~0u; std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(15)); before = L->n; clSetUserEventStatus(u, fail ? -5 : 0); });
    uint32_t tmp;
    switch (kind) { case 0: clFinish(q1); break; case 1: clWaitForEvents(1, &b); break; case 2: { cl_event l[2] = {b, a}; clWaitForEvents(2, l); break; } case 3: clEnqueueReadBuffer(q1, logBuf, CL_TRUE, 0, 4, &tmp, 1, &b, 0); break; }
    cl_int s; clGetEventInfo(b, CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0);
    if (s > 0) R->fail("incomplete:blocking call", R->curCase + fmt(": status %d after the blocking call", s));
    if ((s < 0) != fail) R->fail("threaded-outcome", R->curCase + fmt(": status %d", s));
    t.join(); CK(clFinish(q0)); CK(clFinish(q1));
    if (before != 0) R->fail("ran-early", R->curCase); if (L->n != (fail ? 0 : 2)) R->fail("threaded-count", R->curCase + fmt(": %u", L->n));
    R->count("transitions", 4); R->count("traces_validated_against_impl"); clReleaseEvent(u); clReleaseEvent(a); clReleaseEvent(b);
  }
}
// A flush must not wait for a user event that only the calling thread will complete
static void flushing()
{
  for (int ooo = 0; ooo < 2; ooo++) for (int depth = 1; depth <= 3; depth++) for (int cross = 0; cross < 2; cross++)
  {
    if (!R->begin(fmt("flush-pending/%d/%d/%d", ooo, depth, cross))) continue;
    L->n = 0; cl_int e; cl_event u = clCreateUserEvent(cl->ctx, &e), prev = u; cl_command_queue q[2] = {Q[ooo][0], Q[ooo][1]}; clRetainEvent(u); 
    for (uint32_t i = 0; i < (uint32_t)depth; i++) { cl_event n; CK(clEnqueueNativeKernel(q[cross & i], native, &i, 4, 0, 0, 0, 1, &prev, &n)); clReleaseEvent(prev); prev = n; }
    CK(clFlush(q[0])); CK(clFlush(q[1]));
    if (L->n) R->fail("ran-early", R->curCase); CK(clSetUserEventStatus(u, CL_COMPLETE)); CK(clWaitForEvents(1, &prev));
    if (L->n != (uint32_t)depth) R->fail("flush-count", R->curCase); clReleaseEvent(prev); clReleaseEvent(u); CK(clFinish(q[0])); CK(clFinish(q[1])); R->count("transitions", depth + 3); R->count("traces_validated_against_impl");
  }
}
// The OpenCL 1.1 synchronisation calls, which return no event (or take no list): clEnqueueWaitForEvents, clEnqueueBarrier, clEnqueueMarker
static void legacy()
{
  // commands: `pre` before the call, `post` after it, none of which has a wait list except that those in `pw` wait for the user event
  for (int op = 0; op < 3; op++) for (int ooo = 0; ooo < 2; ooo++) for (int pre = 0; pre <= 2; pre++) for (int pw = 0; pw < 1 << pre; pw++) for (int post = 1; post <= 2; post++) for (int ls = 0; ls < (op ? 1 : 16); ls++) for (int at = 0; at < 2; at++) for (int sync = 0; sync < 4; sync++) for (int kk = 0; kk < 2; kk++)
  { // ls: bit0 user event, bit1/2 the pre commands, bit 3 a command of the other queue (which waits for the user event)
    if (!op && (!ls || ls >> 1 >> pre & ~(4 >> pre) & 3)) continue; if (!op && ((ls & 2 && pre < 1) || (ls & 4 && pre < 2))) continue;
    if (!R->begin(fmt("legacy/%d/%d/%d.%d/%d/%x/%d/%d/%d", op, ooo, pre, pw, post, ls, at, sync, kk))) continue;
    memset((void*)L->id, 0xFF, sizeof L->id); L->n = 0; cl_int e; cl_event u = clCreateUserEvent(cl->ctx, &e), pe[2] = {}, qe[2] = {}, x = 0, mk = 0; CK(e); cl_command_queue q = Q[ooo][0], q2 = Q[ooo][1];
    auto cmd = [&](cl_command_queue qq, uint32_t id, bool w, cl_event* ev) { size_t one = 1; if ((id + kk) & 1) CK(clEnqueueNDRangeKernel(qq, kern[id], 1, 0, &one, &one, w, w ? &u : 0, ev)); else CK(clEnqueueNativeKernel(qq, native, &id, 4, 0, 0, 0, w, w ? &u : 0, ev)); };
    if (ls & 8) cmd(q2, 4, true, &x); for (int i = 0; i < pre; i++) cmd(q, i, pw >> i & 1, &pe[i]); if (at == 0 && sync > 1) CK(clSetUserEventStatus(u, CL_COMPLETE));
    cl_event l[4]; int nl = 0; if (ls & 8) l[nl++] = x; for (int i = 0; i < pre; i++) if (ls >> (1 + i) & 1) l[nl++] = pe[i]; if (ls & 1) l[nl++] = u;
    switch (op) { case 0: CK(clEnqueueWaitForEvents(q, nl, l)); break; case 1: CK(clEnqueueBarrier(q)); break; case 2: CK(clEnqueueMarker(q, &mk)); break; }
    for (int i = 0; i < post; i++) cmd(q, 2 + i, false, &qe[i]);
    bool pending = !(at == 0 && sync > 1); // the user event is not complete yet
    bool deps = (op == 0 && ls & 9) || (op < 2 && false); for (int i = 0; i < pre; i++) if (pw >> i & 1 && (op == 1 || (op == 0 && ls >> (1 + i) & 1) || !ooo)) deps = true;
    CK(clFlush(q)); CK(clFlush(q2));
    auto has = [&](uint32_t id) { int p = -1; for (uint32_t i = 0; i < L->n; i++) if (L->id[i] == id) p = i; return p; };
    if (pending) for (int i = 0; i < post; i++) { cl_int s; clGetEventInfo(qe[i], CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0); if (deps && (has(2 + i) >= 0 || s <= 0)) R->fail("legacy:early", R->curCase + fmt(": command %d after the call ran before what it has to wait for", i)); }
    if (pending) CK(clSetUserEventStatus(u, CL_COMPLETE));
    switch (sync & 1) { case 0: CK(clWaitForEvents(1, &qe[post - 1])); break; case 1: CK(clFinish(q)); break; } 
    cl_int s; clGetEventInfo(qe[post - 1], CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0); if (s) R->fail("legacy:incomplete", R->curCase + fmt(": status %d", s));
    if (mk) { CK(clWaitForEvents(1, &mk)); for (int i = 0; i < pre; i++) { clGetEventInfo(pe[i], CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0); if (s) R->fail("legacy:marker", R->curCase + fmt(": status %d of command %d", s, i)); } }
    CK(clFinish(q)); CK(clFinish(q2)); if ((int)L->n != pre + post + (ls & 8 ? 1 : 0)) R->fail("legacy:count", R->curCase + fmt(": %u commands executed", L->n));
    for (int j = 0; j < post; j++)
    {
      int pj = has(2 + j); if (pj < 0) { R->fail("legacy:missing", R->curCase); continue; }
      for (int i = 0; i < pre; i++) if ((!ooo || op == 1 || (op == 0 && ls >> (1 + i) & 1)) && has(i) > pj) R->fail("legacy:order", R->curCase + fmt(": command %d after the call ran before command %d", j, i));
      if (ls & 8 && has(4) > pj) R->fail("legacy:order", R->curCase + fmt(": command %d after the call ran before the command of the other queue", j)); if (!ooo && j && has(2) > pj) R->fail("legacy:order", R->curCase);
    }
    for (auto v : {u, pe[0], pe[1], qe[0], qe[1], x, mk}) if (v) { cl_uint rc = 0; CK(clGetEventInfo(v, CL_EVENT_REFERENCE_COUNT, 4, &rc, 0)); if (rc != 1) R->fail("legacy:references", R->curCase + fmt(": %u", rc)); clReleaseEvent(v); }
    R->count("transitions", pre + post + 3); R->count("traces_validated_against_impl");
  }
}
// Long queues
static void deep()
{
  for (int ooo = 0; ooo < 2; ooo++) for (int how = 0; how < 3; how++)
  {
    if (!R->begin(fmt("deep/%d/%d", ooo, how))) continue; const uint32_t N = 20000; L->n = 0; cl_event last = 0, prev = 0; uint32_t id = 1;
    for (uint32_t i = 0; i < N; i++)
    {
      cl_event ev; CK(clEnqueueNativeKernel(Q[ooo][0], native, &id, 4, 0, 0, 0, how == 2 && prev ? 1 : 0, how == 2 && prev ? &prev : 0, &ev)); if (prev) clReleaseEvent(prev); prev = ev;
    }
    if (how == 1 && !ooo) clWaitForEvents(1, &prev); else clFinish(Q[ooo][0]);
    if (L->n != N) R->fail("deep-count", R->curCase + fmt(": %u", L->n)); clReleaseEvent(prev); R->count("transitions", N); R->count("traces_validated_against_impl");
  }
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); Capture cap; CL c; cl = &c; cl_int e;
  L = (Log*)aligned_alloc(64, sizeof(Log)); memset(L, 0, sizeof *L); logBuf = clCreateBuffer(c.ctx, CL_MEM_USE_HOST_PTR, sizeof(Log), L, &e); CK(e); slots = c.buf(4 * MAXC);
  cl_program p = c.build("kernel void k(global volatile uint *log, uint id) { uint n = log[0]; if (n < 63) log[1+n] = id; log[0] = n + 1; }", "-cl-std=CL1.2");
  for (uint32_t i = 0; i < MAXC; i++) { kern[i] = c.kernel(p, "k"); c.arg(kern[i], 0, logBuf); c.arg(kern[i], 1, i); }
  for (int o = 0; o < 2; o++) for (int k = 0; k < 2; k++) { Q[o][k] = clCreateCommandQueue(c.ctx, c.dev, CL_QUEUE_PROFILING_ENABLE | (o ? CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE : 0), &e); CK(e); }
  threaded(); flushing(); legacy(); deep();
  for (int n = 1; n <= 3; n++) { enumerate(n, false, 0, 0); enumerate(n, false, 1, 0); enumerate(n, true, 0, 3); enumerate(n, true, 1, R->thorough ? 3 : 1); }
  enumerate(2, false, 3, 0); if (R->thorough) { enumerate(3, false, 3, 0); enumerate(4, false, 0, 0); enumerate(4, false, 1, 0); enumerate(4, true, 0, 2); }
  R->sample("last history of this shard: " + R->curCase);
  R->count("model_states", states); R->count("transitions", transitions);
}
VF_MAIN(body)
