// C14: every history of create / retain / release / use / callback operations up to a depth, over a model that
// tracks references and holders, executed under AddressSanitizer and compared after every step.
#include "vf.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vf;

enum Kind { CTX, QUE, BUF, SUB, IMB, IMG, SMP, SMP2, USR, EVT, PRG, KER, KER2, NK };
static const char* NAMES[] = {"ctx", "q", "buf", "sub", "imb", "img", "smp", "smq", "usr", "evt", "prg", "ker", "clone"};
static const size_t BSZ = 4096;

// ---- model -------------------------------------------------------------------------------------------------
struct Cmd { int kind; std::vector<int> holds; int ev = -1; bool onUser = false; int target = -1; };
struct Obj { int u = 0; bool made = false, dead = false; std::vector<int> holds; int ncb = 0; };
struct Model
{
  Obj o[NK]; std::vector<Cmd> pend; int ustate = 2, estate = 2; bool ecb = false, ucb = false, ucbRel = false; int karg = -1, karg2 = -1;
  bool evMade = false; int fills = 0;
  bool blocked(bool toEvent = false) const
  {
    for (auto& c : pend) { if (c.onUser && ustate > 0) return true; if (toEvent && c.ev >= 0) return false; }
    return false;
  }
  void closure(bool live[NK], int holders[NK]) const
  {
    for (int i = 0; i < NK; i++) { live[i] = o[i].u > 0; holders[i] = 0; }
    bool ch = true;
    for (auto& c : pend) for (int h : c.holds) { live[h] = true; holders[h]++; }
    while (ch)
    {
      ch = false;
      for (int i = 0; i < NK; i++) if (live[i]) for (int h : o[i].holds) if (!live[h]) live[h] = ch = true;
    }
    for (int i = 0; i < NK; i++) if (live[i]) for (int h : o[i].holds) holders[h]++;
  }
};

// ---- the real thing ----------------------------------------------------------------------------------------
struct CbRec { int obj, idx; bool ok; };
static std::vector<CbRec> g_log;
struct EvRec { int obj; cl_int st; };
static std::vector<EvRec> g_evlog;
struct World;
static World* W;
struct CbArg { int obj, idx; };
static CbArg g_args[NK][8];

struct World
{
  cl_context ctx = 0; cl_command_queue q = 0; cl_mem mem[NK] = {}; cl_sampler smp[NK] = {}; cl_event usr = 0, evt = 0; cl_program prg = 0; cl_kernel ker[NK] = {};
};
static cl_device_id g_dev; static std::vector<unsigned char> g_bin;
static bool memQuery(cl_mem m, int k)
{
  size_t sz = 0; cl_context c = 0; cl_mem par = 0; cl_mem_object_type t = 0;
  if (clGetMemObjectInfo(m, CL_MEM_SIZE, sizeof sz, &sz, 0) || clGetMemObjectInfo(m, CL_MEM_CONTEXT, sizeof c, &c, 0) || clGetMemObjectInfo(m, CL_MEM_TYPE, sizeof t, &t, 0) ||
      clGetMemObjectInfo(m, CL_MEM_ASSOCIATED_MEMOBJECT, sizeof par, &par, 0)) return false;
  if (c != W->ctx) return false;
  cl_uint n = 0; if (clGetContextInfo(c, CL_CONTEXT_NUM_DEVICES, sizeof n, &n, 0) || n != 1) return false;
  size_t want = k == SUB ? BSZ / 2 : BSZ;
  if (sz != want) return false;
  if (k == SUB || k == IMB)
  {
    if (par != W->mem[BUF]) return false;
    size_t ps = 0; if (clGetMemObjectInfo(par, CL_MEM_SIZE, sizeof ps, &ps, 0) || ps != BSZ) return false;
  }
  else if (par) return false;
  static const std::map<int, cl_mem_object_type> T{{BUF, CL_MEM_OBJECT_BUFFER}, {SUB, CL_MEM_OBJECT_BUFFER}, {IMB, CL_MEM_OBJECT_IMAGE1D_BUFFER}, {IMG, CL_MEM_OBJECT_IMAGE2D}};
  return T.at(k) == t;
}
static void CL_CALLBACK memCb(cl_mem m, void* p) { auto a = (CbArg*)p; g_log.push_back({a->obj, a->idx, m == W->mem[a->obj] && memQuery(m, a->obj)}); }
static void CL_CALLBACK ctxCb(cl_context c, void* p)
{
  auto a = (CbArg*)p; cl_device_id d = 0; size_t n = 99; cl_context_properties pr[8];
  bool ok = c == W->ctx && !clGetContextInfo(c, CL_CONTEXT_DEVICES, sizeof d, &d, 0) && d == g_dev && !clGetContextInfo(c, CL_CONTEXT_PROPERTIES, sizeof pr, pr, &n) && n == 3 * sizeof(pr[0]) && pr[0] == CL_CONTEXT_PLATFORM;
  g_log.push_back({a->obj, a->idx, ok});
}
static void CL_CALLBACK evCb(cl_event e, cl_int st, void* p) { g_evlog.push_back({(int)(intptr_t)p, st}); }
static void CL_CALLBACK evCbRel(cl_event e, cl_int st, void* p) { g_evlog.push_back({(int)(intptr_t)p, st}); clReleaseEvent(e); }

// ---- operations --------------------------------------------------------------------------------------------
// An operation is a name; enabled() is decided on the model, apply() changes both.
static bool has(const Model& m, int k) { return m.o[k].u > 0; }
static bool enabled(const Model& m, const string& op)
{
  auto sp = op.find(':'); string a = op.substr(0, sp), b = sp == string::npos ? "" : op.substr(sp + 1);
  int k = -1; for (int i = 0; i < NK; i++) if (b == NAMES[i]) k = i;
  if (a == "new")
  {
    if (m.o[k].made) return false;
    switch (k)
    {
    case SUB: case IMB: return has(m, BUF);
    case KER: return has(m, PRG);
    case KER2: return has(m, KER);
    case QUE: case BUF: case IMG: case SMP: case SMP2: case USR: case PRG: return has(m, CTX);
    }
    return false;
  }
  if (a == "ret") return has(m, k) && m.o[k].u < 2;
  if (a == "rel") return has(m, k) && !(k == USR && m.ustate > 0 && (m.o[k].u == 1 || true) && m.ucbRel && m.o[k].u == 1) && !(k == USR && m.ustate > 0 && m.o[k].u == 1);
  if (a == "cb") return has(m, k) && m.o[k].ncb < 2;
  if (a == "arg") return has(m, KER) && has(m, k);
  if (a == "fill" || a == "fillE" || a == "fillW" || a == "fillWE")
  {
    if (!has(m, QUE) || !has(m, k)) return false;
    if (a.find('W') != string::npos && (!has(m, USR))) return false;
    if (a.back() == 'E' && m.o[EVT].made) return false;
    return m.pend.size() < 3;
  }
  if (a == "run" || a == "runE") return has(m, QUE) && has(m, k) && (k == KER ? m.karg : m.karg2) >= 0 && has(m, k == KER ? m.karg : m.karg2) && (a == "run" || !m.o[EVT].made) && m.pend.size() < 3;
  if (a == "finish" || a == "flush" || a == "read") return has(m, QUE) && (a != "read" || has(m, k)) && (a == "flush" ? !m.pend.empty() : !m.blocked() && (a == "read" || !m.pend.empty()));
  if (a == "wait") return has(m, EVT) && m.estate > 0 && !m.blocked(true);
  if (a == "set0" || a == "setE") return has(m, USR) && m.ustate > 0;
  if (a == "ecb") return k == USR ? has(m, USR) && !m.ucb : has(m, EVT) && !m.ecb;
  if (a == "ecbrel") return has(m, USR) && !m.ucb && m.ustate > 0;
  return false;
}
// All pending commands of the (single, in-order) queue run now, or those up to the one with the event.
static void complete(Model& m, bool toEvent = false)
{
  while (!m.pend.empty())
  {
    Cmd c = m.pend.front(); m.pend.erase(m.pend.begin());
    if (c.ev >= 0) m.estate = c.onUser && m.ustate < 0 ? -1 : 0;
    if (toEvent && c.ev >= 0) break;
  }
}
// returns expected event callbacks appended to `evexp`
static void applyModel(Model& m, const string& op, std::vector<EvRec>& evexp)
{
  auto sp = op.find(':'); string a = op.substr(0, sp), b = sp == string::npos ? "" : op.substr(sp + 1);
  int k = -1; for (int i = 0; i < NK; i++) if (b == NAMES[i]) k = i;
  int oldE = m.estate;
  auto doneEv = [&] { if (m.estate <= 0 && oldE > 0 && m.ecb) evexp.push_back({EVT, m.estate}); };
  if (a == "new")
  {
    m.o[k].made = true; m.o[k].u = 1;
    switch (k)
    {
    case SUB: case IMB: m.o[k].holds = {BUF, CTX}; break;
    case KER: m.o[k].holds = {PRG}; break;
    case KER2: m.o[k].holds = {PRG}; m.karg2 = m.karg; break;
    default: m.o[k].holds = {CTX}; break;
    }
    return;
  }
  if (a == "ret") { m.o[k].u++; return; }
  if (a == "rel") { m.o[k].u--; if (k == QUE && !m.blocked()) { complete(m); doneEv(); } return; }
  if (a == "cb") { m.o[k].ncb++; return; }
  if (a == "arg") { m.karg = k; return; }
  if (a.substr(0, 4) == "fill" || a.substr(0, 3) == "run")
  {
    Cmd c; c.kind = k; c.holds = {QUE, k, CTX};
    if (a[0] == 'r') c.holds.push_back(k == KER ? m.karg : m.karg2);
    if (a.find('W') != string::npos) { c.onUser = true; c.holds.push_back(USR); }
    c.target = k;
    if (a.back() == 'E') { c.ev = 1; c.holds.push_back(EVT); m.o[EVT].made = true; m.o[EVT].u = 1; m.o[EVT].holds = {CTX}; m.estate = 3; }
    m.pend.push_back(c); return;
  }
  if (a == "finish" || a == "read" || a == "wait") { complete(m, a == "wait"); doneEv(); return; }
  if (a == "flush") { if (!m.blocked()) { complete(m); doneEv(); } return; }
  if (a == "set0" || a == "setE")
  {
    m.ustate = a == "set0" ? 0 : -1;
    if (m.ucb) evexp.push_back({USR, m.ustate});
    if (m.ucb && m.ucbRel) m.o[USR].u--;
    if (!has(m, QUE) && m.o[QUE].made && !m.pend.empty() && !m.blocked()) { complete(m); doneEv(); }
    return;
  }
  if (a == "ecb" || a == "ecbrel")
  {
    if (k == EVT) { m.ecb = true; if (m.estate <= 0) evexp.push_back({EVT, m.estate}); }
    else { m.ucb = true; m.ucbRel = a == "ecbrel"; if (m.ustate <= 0) evexp.push_back({USR, m.ustate}); }
  }
}
static cl_int applyReal(World& w, const Model& before, const string& op)
{
  auto sp = op.find(':'); string a = op.substr(0, sp), b = sp == string::npos ? "" : op.substr(sp + 1);
  int k = -1; for (int i = 0; i < NK; i++) if (b == NAMES[i]) k = i;
  cl_int e = 0;
  cl_image_format f{CL_R, CL_UNSIGNED_INT32};
  if (a == "new")
  {
    switch (k)
    {
    case QUE: w.q = clCreateCommandQueue(w.ctx, g_dev, 0, &e); break;
    case BUF: w.mem[k] = clCreateBuffer(w.ctx, CL_MEM_READ_WRITE, BSZ, 0, &e); break;
    case SUB: { cl_buffer_region r{0, BSZ / 2}; w.mem[k] = clCreateSubBuffer(w.mem[BUF], 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); break; }
    case IMB: { cl_image_desc d{}; d.image_type = CL_MEM_OBJECT_IMAGE1D_BUFFER; d.image_width = BSZ / 4; d.buffer = w.mem[BUF]; w.mem[k] = clCreateImage(w.ctx, CL_MEM_READ_WRITE, &f, &d, 0, &e); break; }
    case IMG: { cl_image_desc d{}; d.image_type = CL_MEM_OBJECT_IMAGE2D; d.image_width = 4; d.image_height = BSZ / 16; w.mem[k] = clCreateImage(w.ctx, CL_MEM_READ_WRITE, &f, &d, 0, &e); break; }
    case SMP: w.smp[k] = clCreateSampler(w.ctx, CL_TRUE, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e); break;
    case SMP2: { cl_sampler_properties p[] = {CL_SAMPLER_NORMALIZED_COORDS, CL_FALSE, 0}; w.smp[k] = clCreateSamplerWithProperties(w.ctx, p, &e); break; }
    case USR: w.usr = clCreateUserEvent(w.ctx, &e); break;
    case PRG:
    {
      const unsigned char* p = g_bin.data(); size_t n = g_bin.size(); cl_int st; w.prg = clCreateProgramWithBinary(w.ctx, 1, &g_dev, &n, &p, &st, &e);
      if (!e) e = clBuildProgram(w.prg, 1, &g_dev, "", 0, 0);
      break;
    }
    case KER: w.ker[k] = clCreateKernel(w.prg, "k", &e); break;
    case KER2: w.ker[k] = clCloneKernel(w.ker[KER], &e); break;
    }
    return e;
  }
  if (a == "ret" || a == "rel")
  {
    bool r = a == "ret";
    switch (k)
    {
    case CTX: return r ? clRetainContext(w.ctx) : clReleaseContext(w.ctx);
    case QUE: return r ? clRetainCommandQueue(w.q) : clReleaseCommandQueue(w.q);
    case BUF: case SUB: case IMB: case IMG: return r ? clRetainMemObject(w.mem[k]) : clReleaseMemObject(w.mem[k]);
    case SMP: case SMP2: return r ? clRetainSampler(w.smp[k]) : clReleaseSampler(w.smp[k]);
    case USR: return r ? clRetainEvent(w.usr) : clReleaseEvent(w.usr);
    case EVT: return r ? clRetainEvent(w.evt) : clReleaseEvent(w.evt);
    case PRG: return r ? clRetainProgram(w.prg) : clReleaseProgram(w.prg);
    case KER: case KER2: return r ? clRetainKernel(w.ker[k]) : clReleaseKernel(w.ker[k]);
    }
  }
  if (a == "cb")
  {
    CbArg* ca = &g_args[k][before.o[k].ncb];
    return k == CTX ? clSetContextDestructorCallback(w.ctx, ctxCb, ca) : clSetMemObjectDestructorCallback(w.mem[k], memCb, ca);
  }
  if (a == "arg") return clSetKernelArg(w.ker[KER], 0, sizeof(cl_mem), &w.mem[k]);
  if (a.substr(0, 4) == "fill")
  {
    cl_uint v = 7; bool wt = a.find('W') != string::npos, ev = a.back() == 'E';
    if (k == BUF || k == SUB) return clEnqueueFillBuffer(w.q, w.mem[k], &v, 4, 0, 16, wt, wt ? &w.usr : 0, ev ? &w.evt : 0);
    cl_uint col[4] = {7, 7, 7, 7}; size_t o[3] = {0, 0, 0}, r[3] = {2, 1, 1};
    return clEnqueueFillImage(w.q, w.mem[k], col, o, r, wt, wt ? &w.usr : 0, ev ? &w.evt : 0);
  }
  if (a.substr(0, 3) == "run") { size_t g = 2; return clEnqueueNDRangeKernel(w.q, w.ker[k], 1, 0, &g, 0, 0, 0, a == "runE" ? &w.evt : 0); }
  if (a == "finish") return clFinish(w.q);
  if (a == "flush") return clFlush(w.q);
  if (a == "read") { cl_uint v[2]; return clEnqueueReadBuffer(w.q, w.mem[k], CL_TRUE, 0, 8, v, 0, 0, 0); }
  if (a == "wait") { e = clWaitForEvents(1, &w.evt); return before.ustate < 0 && e == CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST ? 0 : e; }
  if (a == "set0") return clSetUserEventStatus(w.usr, CL_COMPLETE);
  if (a == "setE") return clSetUserEventStatus(w.usr, -1);
  if (a == "ecb") return clSetEventCallback(k == USR ? w.usr : w.evt, CL_COMPLETE, evCb, (void*)(intptr_t)k);
  if (a == "ecbrel") return clSetEventCallback(w.usr, CL_COMPLETE, evCbRel, (void*)(intptr_t)k);
  R->internal("op " + op); 
}
template <class T, class F, class H> static T info(F f, H h, cl_uint p, bool* ok) { T v{}; size_t n = 0; if (f(h, p, sizeof v, &v, &n) || n != sizeof v) *ok = false; return v; }

// Compares every object the user still holds with the model.
static string inspect(World& w, const Model& m)
{
  bool live[NK]; int holders[NK]; m.closure(live, holders);
  for (int k = 0; k < NK; k++)
  {
    if (!has(m, k)) continue;
    bool ok = true; cl_uint rc = 0;
    switch (k)
    {
    case CTX: rc = info<cl_uint>(clGetContextInfo, w.ctx, CL_CONTEXT_REFERENCE_COUNT, &ok); break;
    case QUE: rc = info<cl_uint>(clGetCommandQueueInfo, w.q, CL_QUEUE_REFERENCE_COUNT, &ok); ok &= info<cl_context>(clGetCommandQueueInfo, w.q, CL_QUEUE_CONTEXT, &ok) == w.ctx; break;
    case BUF: case SUB: case IMB: case IMG: rc = info<cl_uint>(clGetMemObjectInfo, w.mem[k], CL_MEM_REFERENCE_COUNT, &ok); ok &= memQuery(w.mem[k], k); break;
    case SMP: case SMP2:
      rc = info<cl_uint>(clGetSamplerInfo, w.smp[k], CL_SAMPLER_REFERENCE_COUNT, &ok); ok &= info<cl_context>(clGetSamplerInfo, w.smp[k], CL_SAMPLER_CONTEXT, &ok) == w.ctx;
      ok &= info<cl_bool>(clGetSamplerInfo, w.smp[k], CL_SAMPLER_NORMALIZED_COORDS, &ok) == (k == SMP);
      break;
    case USR:
      rc = info<cl_uint>(clGetEventInfo, w.usr, CL_EVENT_REFERENCE_COUNT, &ok); ok &= info<cl_context>(clGetEventInfo, w.usr, CL_EVENT_CONTEXT, &ok) == w.ctx;
      ok &= info<cl_int>(clGetEventInfo, w.usr, CL_EVENT_COMMAND_EXECUTION_STATUS, &ok) == m.ustate;
      break;
    case EVT:
    {
      rc = info<cl_uint>(clGetEventInfo, w.evt, CL_EVENT_REFERENCE_COUNT, &ok); ok &= info<cl_context>(clGetEventInfo, w.evt, CL_EVENT_CONTEXT, &ok) == w.ctx;
      if (has(m, QUE)) ok &= info<cl_command_queue>(clGetEventInfo, w.evt, CL_EVENT_COMMAND_QUEUE, &ok) == w.q;
      cl_int st = info<cl_int>(clGetEventInfo, w.evt, CL_EVENT_COMMAND_EXECUTION_STATUS, &ok);
      if (m.estate <= 0 ? (m.estate < 0 ? st >= 0 : st != 0) : st <= 0) return fmt("event status is %d, expected %s", st, m.estate > 0 ? "incomplete" : m.estate ? "an error" : "complete");
      break;
    }
    case PRG: rc = info<cl_uint>(clGetProgramInfo, w.prg, CL_PROGRAM_REFERENCE_COUNT, &ok); ok &= info<cl_context>(clGetProgramInfo, w.prg, CL_PROGRAM_CONTEXT, &ok) == w.ctx; break;
    case KER: case KER2:
      rc = info<cl_uint>(clGetKernelInfo, w.ker[k], CL_KERNEL_REFERENCE_COUNT, &ok); ok &= info<cl_program>(clGetKernelInfo, w.ker[k], CL_KERNEL_PROGRAM, &ok) == w.prg;
      ok &= info<cl_context>(clGetKernelInfo, w.ker[k], CL_KERNEL_CONTEXT, &ok) == w.ctx; ok &= info<cl_uint>(clGetKernelInfo, w.ker[k], CL_KERNEL_NUM_ARGS, &ok) == 1;
      break;
    }
    if (!ok) return fmt("%s: querying a live object gives a wrong answer", NAMES[k]);
    if ((int)rc < m.o[k].u || (int)rc > m.o[k].u + 2 * holders[k]) return fmt("%s: reference count %u reported, %d references and %d holders", NAMES[k], rc, m.o[k].u, holders[k]);
  }
  return "";
}
static string g_err, g_key;
static bool step(World& w, Model& m, const string& op)
{
  std::vector<EvRec> evexp; g_log.clear(); g_evlog.clear();
  bool l0[NK], l1[NK]; int h[NK]; m.closure(l0, h);
  Model before = m;
  size_t bytes0 = __sanitizer_get_current_allocated_bytes();
  cl_int e = applyReal(w, before, op);
  size_t bytes1 = __sanitizer_get_current_allocated_bytes();
  applyModel(m, op, evexp); R->count("transitions");
  if (e) { g_key = "error:" + op; g_err = op + fmt(" returned %d", e); return false; }
  m.closure(l1, h);
  // destructor callbacks: all of the objects that died, none of the others, in reverse order, dependents first
  std::map<int, std::vector<int>> got; std::map<int, int> pos; int p = 0; bool ok = true;
  for (auto& r : g_log) { got[r.obj].push_back(r.idx); pos[r.obj] = p++; if (!r.ok) ok = false; }
  auto dump = [&] { string s; for (auto& r : g_log) s += fmt(" %s#%d%s", NAMES[r.obj], r.idx, r.ok ? "" : "(object not usable)"); return s; };
  for (int k = 0; k < NK; k++)
  {
    bool died = (l0[k] || (op == string("new:") + NAMES[k])) && !l1[k];
    if (died) m.o[k].dead = true;
    std::vector<int> want; if (died) for (int i = m.o[k].ncb; i-- > 0;) want.push_back(i);
    if (got[k] != want) { g_key = string("destructor-callbacks:") + NAMES[k]; g_err = fmt("after %s: %d destructor callbacks of %s expected (%s), got:", op.c_str(), (int)want.size(), NAMES[k], died ? "its last holder is gone" : "it is still held") + dump(); return false; }
  }
  for (int k : {SUB, IMB}) if (!got[k].empty() && !got[BUF].empty() && pos[BUF] - (int)got[BUF].size() + 1 < pos[k]) { g_key = "destructor-order"; g_err = "after " + op + ": callbacks of a parent before those of its dependent:" + dump(); return false; }
  if (op.substr(0, 4) == "rel:" && m.pend.size() == before.pend.size())
  {
    size_t freed = 0; for (int k : {BUF, IMG}) if (l0[k] && !l1[k]) freed += BSZ;
    if (freed && bytes0 + 512 < bytes1 + freed) { g_key = "memory-kept"; g_err = fmt("after %s: %ld bytes given back although storage of %zu bytes has no holder any more", op.c_str(), (long)bytes0 - (long)bytes1, freed); return false; }
  }
  if (!got[CTX].empty() && pos[CTX] != p - 1) { g_key = "destructor-order"; g_err = "after " + op + ": callbacks of the context before those of its objects:" + dump(); return false; }
  if (!ok) { g_key = "destructor-object"; g_err = "after " + op + ": object unusable inside its destructor callback:" + dump(); return false; }
  bool same = evexp.size() == g_evlog.size(); for (size_t i = 0; same && i < evexp.size(); i++) same = evexp[i].obj == g_evlog[i].obj && (evexp[i].st == 0 ? g_evlog[i].st == 0 : g_evlog[i].st < 0);
  if (!same) { g_key = "event-callbacks"; g_err = "after " + op + fmt(": %d event callbacks expected, %d called", (int)evexp.size(), (int)g_evlog.size()); return false; }
  g_err = inspect(w, m); if (g_err.size()) { g_key = "inspect:" + g_err.substr(0, g_err.find(':')); g_err = "after " + op + ": " + g_err; return false; }
  return true;
}
static void startWorld(World& w, Model& m)
{
  cl_int e; cl_platform_id pl; CK(clGetPlatformIDs(1, &pl, 0)); cl_context_properties pr[] = {CL_CONTEXT_PLATFORM, (cl_context_properties)pl, 0};
  w.ctx = clCreateContext(pr, 1, &g_dev, 0, 0, &e); CK(e); m.o[CTX].made = true; m.o[CTX].u = 1;
}
// Runs a whole history; afterwards completes it (user event set, everything released) and requires all memory back.
static bool runHistory(const std::vector<string>& pre, const std::vector<string>& ops, int closing)
{
  World w; Model m; W = &w; startWorld(w, m);
  for (auto& o : pre) if (!step(w, m, o)) return false;
  for (auto& o : ops) if (!step(w, m, o)) return false;
  if (has(m, USR) && m.ustate > 0 && !step(w, m, "set0:usr")) return false;
  for (int i = 0; i < NK; i++)
  {
    int k = closing ? NK - 1 - i : i;
    while (has(m, k)) if (!step(w, m, string("rel:") + NAMES[k])) return false;
  }
  bool l[NK]; int h[NK]; m.closure(l, h); for (int k = 0; k < NK; k++) if (l[k]) R->internal("model: object left");
  return true;
}
static Capture* cap;
static void history(const string& fam, const std::vector<string>& pre, const std::vector<string>& ops, int closing)
{
  string id = fam + (closing ? "/r/" : "/f/"); for (auto& o : ops) id += o + " "; if (ops.size()) id.pop_back();
  if (!R->begin(id)) return;
  R->count("traces_validated_against_impl");
  // everything allocated by the history must be given back (repeated, so that caches of the process do not count)
  for (int n = 0; ; n++)
  {
    { std::vector<CbRec>().swap(g_log); std::vector<EvRec>().swap(g_evlog); g_log.reserve(64); g_evlog.reserve(64); }
    size_t b0 = __sanitizer_get_current_allocated_bytes();
    cap->clear(); if (!runHistory(pre, ops, closing)) { R->fail(g_key, g_err); return; }
    size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (b1 <= b0) break;
    if (n == 3) { R->fail("leak", fmt("%ld bytes are still allocated after everything was released", (long)(b1 - b0))); break; }
  }
}
static void enumerate(const string& fam, const std::vector<string>& pre, const std::vector<string>& alpha, int depth)
{
  Model m0; m0.o[CTX].made = true; m0.o[CTX].u = 1; std::vector<EvRec> d;
  for (auto& o : pre) { if (!enabled(m0, o)) R->internal("pre " + o); applyModel(m0, o, d); }
  std::vector<string> cur;
  std::function<void(const Model&, int)> go = [&](const Model& m, int n)
  {
    bool any = false;
    if (n < depth)
      for (auto& o : alpha)
        if (enabled(m, o)) { any = true; Model m2 = m; applyModel(m2, o, d); cur.push_back(o); go(m2, n + 1); cur.pop_back(); }
    if (!any) for (int c = 0; c < 2; c++) history(fam, pre, cur, c);
  };
  go(m0, 0);
  if (getenv("C14_COUNT")) fprintf(stderr, "%s %ld\n", fam.c_str(), R->index);
}
// Every enqueue function with every wait list (also naming an event more than once): what the command uses lives until it is done, and everything is given back
static int g_gone[8];
static void CL_CALLBACK goneCb(cl_mem, void* p) { ++*(int*)p; }
static void CL_CALLBACK nativeFn(void*) {}
static const char* CMDS[] = {"read", "write", "readrect", "writerect", "copy", "copyrect", "fill", "fillimage", "readimage", "writeimage", "copyimage", "imagetobuf", "buftoimage", "mapbuf", "mapimage", "unmap", "migrate", "ndrange", "task", "native", "marker", "barrier", "native3", "waitevents", "markerold", "barrierold"};
static const int USES[] = {1, 1, 1, 1, 3, 3, 1, 4, 4, 4, 12, 5, 5, 1, 4, 1, 3, 3, 3, 1, 0, 0, 13, 0, 0, 0}; // a b i1 i2
static void oneCommand(int kind, const std::vector<int>& list, int ooo, int early, int fail, int wantEv)
{
  cl_int e; cl_context x = clCreateContext(0, 1, &g_dev, 0, 0, &e); CK(e); cl_command_queue q = clCreateCommandQueue(x, g_dev, ooo ? CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE : 0, &e); CK(e);
  memset(g_gone, 0, sizeof g_gone); cl_mem m[4]; static unsigned char host[4096]; cl_image_format f = {CL_RGBA, CL_UNSIGNED_INT8}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = CL_MEM_OBJECT_IMAGE2D; ds.image_width = 4; ds.image_height = 4;
  for (int i = 0; i < 4; i++) { m[i] = i < 2 ? clCreateBuffer(x, 0, 64, 0, &e) : clCreateImage(x, 0, &f, &ds, 0, &e); CK(e); CK(clSetMemObjectDestructorCallback(m[i], goneCb, &g_gone[i])); }
  const char* src = "kernel void k(global uchar *a, global uchar *b) { size_t i = get_global_id(0); b[i] = a[i]; }"; cl_program p = 0; cl_kernel k = 0;
  if (kind == 17 || kind == 18) { p = clCreateProgramWithSource(x, 1, &src, 0, &e); CK(e); CK(clBuildProgram(p, 0, 0, 0, 0, 0)); k = clCreateKernel(p, "k", &e); CK(e); for (int i = 0; i < 2; i++) CK(clSetKernelArg(k, i, sizeof(cl_mem), &m[i])); }
  cl_event U = clCreateUserEvent(x, &e), E1, E2, ev = 0; CK(e); CK(clEnqueueMarkerWithWaitList(q, 0, 0, &E1)); CK(clEnqueueFillBuffer(q, m[1], "x", 1, 0, 8, 1, &U, &E2)); void* mp = 0; if (kind == 15) { mp = clEnqueueMapBuffer(q, m[0], 0, CL_MAP_READ, 0, 16, 0, 0, 0, &e); CK(e); }
  cl_event pool[3] = {U, E1, E2}; std::vector<cl_event> L; for (int i : list) L.push_back(pool[i]); cl_uint n = L.size(); const cl_event* w = n ? L.data() : 0; cl_event* out = wantEv ? &ev : 0;
  size_t o[3] = {0, 0, 0}, o1[3] = {1, 1, 0}, r[3] = {2, 2, 1}, r4[3] = {4, 4, 1}, g = 8, rp, sp; cl_uint col[4] = {1, 2, 3, 4}; const void* loc; struct { cl_mem a; int b; } na = {m[0], 1}; loc = &na.a; struct { cl_mem a[3]; int b; } na3 = {{m[0], m[2], m[3]}, 1}; const void* loc3[3] = {&na3.a[0], &na3.a[1], &na3.a[2]}; cl_mem l3[3] = {m[0], m[2], m[3]};
  switch (kind)
  {
  case 0: e = clEnqueueReadBuffer(q, m[0], 0, 0, 64, host, n, w, out); break; case 1: e = clEnqueueWriteBuffer(q, m[0], 0, 0, 64, host, n, w, out); break;
  case 2: e = clEnqueueReadBufferRect(q, m[0], 0, o, o1, r4, 8, 0, 8, 0, host, n, w, out); break; case 3: e = clEnqueueWriteBufferRect(q, m[0], 0, o, o1, r4, 8, 0, 8, 0, host, n, w, out); break;
  case 4: e = clEnqueueCopyBuffer(q, m[0], m[1], 0, 8, 16, n, w, out); break; case 5: e = clEnqueueCopyBufferRect(q, m[0], m[1], o, o1, r4, 8, 0, 8, 0, n, w, out); break; case 6: e = clEnqueueFillBuffer(q, m[0], "abcd", 4, 4, 16, n, w, out); break;
  case 7: e = clEnqueueFillImage(q, m[2], col, o1, r, n, w, out); break; case 8: e = clEnqueueReadImage(q, m[2], 0, o1, r, 0, 0, host, n, w, out); break; case 9: e = clEnqueueWriteImage(q, m[2], 0, o1, r, 0, 0, host, n, w, out); break;
  case 10: e = clEnqueueCopyImage(q, m[2], m[3], o, o1, r, n, w, out); break; case 11: e = clEnqueueCopyImageToBuffer(q, m[2], m[0], o1, r, 8, n, w, out); break; case 12: e = clEnqueueCopyBufferToImage(q, m[0], m[2], 8, o1, r, n, w, out); break;
  case 13: clEnqueueMapBuffer(q, m[0], 0, CL_MAP_READ, 4, 16, n, w, out, &e); break; case 14: clEnqueueMapImage(q, m[2], 0, CL_MAP_WRITE, o1, r, &rp, &sp, n, w, out, &e); break; case 15: e = clEnqueueUnmapMemObject(q, m[0], mp, n, w, out); break;
  case 16: e = clEnqueueMigrateMemObjects(q, 2, m, 0, n, w, out); break; case 17: e = clEnqueueNDRangeKernel(q, k, 1, 0, &g, 0, n, w, out); break; case 18: e = clEnqueueTask(q, k, n, w, out); break;
  case 19: e = clEnqueueNativeKernel(q, nativeFn, &na, sizeof na, 1, m, &loc, n, w, out); break; case 20: e = clEnqueueMarkerWithWaitList(q, n, w, out); break; case 22: e = clEnqueueNativeKernel(q, nativeFn, &na3, sizeof na3, 3, l3, loc3, n, w, out); break; case 23: e = clEnqueueWaitForEvents(q, n, w); break; case 24: { cl_event mk; e = clEnqueueMarker(q, wantEv ? &ev : &mk); if (!e && !wantEv) CK(clReleaseEvent(mk)); break; } case 25: e = clEnqueueBarrier(q); break;
  default: e = clEnqueueBarrierWithWaitList(q, n, w, out);
  }
  if (e) { R->fail(string("enqueue:") + CMDS[kind], fmt("%d", e)); return; } R->count("transitions", 8);
  bool waits = false; for (int i : list) waits |= i != 1; if (!ooo) waits = true; // an in-order queue runs E2 first
  auto rel = [&]() { for (auto x : m) CK(clReleaseMemObject(x)); if (k) CK(clReleaseKernel(k)); if (p) CK(clReleaseProgram(p)); CK(clReleaseEvent(E1)); CK(clReleaseEvent(E2)); };
  if (early) { rel(); if (waits) for (int i = 0; i < 4; i++) { int used = (USES[kind] >> i & 1) || i == 1; if (g_gone[i] != !used) R->fail(string(used ? "gone-early:" : "kept:") + CMDS[kind], R->curCase + fmt(": object %d, destructor calls: %d", i, g_gone[i])); } }
  CK(clSetUserEventStatus(U, fail ? -7 : CL_COMPLETE)); CK(clFinish(q)); cl_uint rc = 0; CK(clGetEventInfo(U, CL_EVENT_REFERENCE_COUNT, 4, &rc, 0)); if (rc != 1) R->fail(string("event-references:") + CMDS[kind], R->curCase + fmt(": the user event has %u references after everything is done", rc));
  if (!early) for (auto v : {E1, E2}) { CK(clGetEventInfo(v, CL_EVENT_REFERENCE_COUNT, 4, &rc, 0)); if (rc != 1) R->fail(string("event-references:") + CMDS[kind], R->curCase + fmt(": %s has %u references after everything is done", v == E1 ? "E1" : "E2", rc)); }
  if (ev) { CK(clGetEventInfo(ev, CL_EVENT_REFERENCE_COUNT, 4, &rc, 0)); if (rc != 1) R->fail(string("event-references:") + CMDS[kind], R->curCase + fmt(": its event has %u references", rc)); }
  if (!early) { for (int i = 0; i < 4; i++) if (g_gone[i]) R->fail(string("gone-early:") + CMDS[kind], R->curCase); rel(); }
  for (int i = 0; i < 4; i++) if (g_gone[i] != 1) R->fail(string("never-gone:") + CMDS[kind], R->curCase + fmt(": object %d has %d destructor calls", i, g_gone[i]));
  CK(clReleaseEvent(U)); if (ev) CK(clReleaseEvent(ev)); CK(clReleaseCommandQueue(q)); CK(clReleaseContext(x)); R->count("traces_validated_against_impl");
}
static void commands()
{
  std::vector<std::vector<int>> lists = {{}}; for (int a = 0; a < 3; a++) { lists.push_back({a}); for (int b = 0; b < 3; b++) { lists.push_back({a, b}); for (int c = 0; c < 3; c++) lists.push_back({a, b, c}); } }
  for (int kind = 0; kind < (int)(sizeof CMDS / sizeof *CMDS); kind++) for (auto& l : lists) for (int ooo = 0; ooo < 2; ooo++) for (int early = 0; early < 2; early++) for (int fail = 0; fail < 2; fail++) for (int we = 0; we < 2; we++)
  {
    if (l.size() > 2 && !R->thorough && (kind == 17 || kind == 18)) continue; if (kind == 23 && (l.empty() || we)) continue; if (kind >= 24 && (!l.empty() || (kind == 25 && we))) continue; string id = fmt("command/%s/", CMDS[kind]); for (int x : l) id += "U12"[x]; if (!R->begin(id + fmt("/%d%d%d%d", ooo, early, fail, we))) continue; long nf = R->nfail;
    for (int n = 0; ; n++) { size_t b0 = __sanitizer_get_current_allocated_bytes(); cap->clear(); oneCommand(kind, l, ooo, early, fail, we); size_t b1 = __sanitizer_get_current_allocated_bytes(); if (b1 <= b0 || R->nfail != nf) break; if (n == 3) { R->fail(string("leak:") + CMDS[kind], R->curCase + fmt(": %ld bytes", (long)(b1 - b0))); break; } }
  }
}
// Several kernels of one program (made together or one by one): the program lives exactly as long as a handle or one of its kernels
static void kernelSets()
{
  for (int n = 1; n <= (R->thorough ? 4 : 3); n++) for (int how = 0; how < 3; how++) for (int use = 0; use < 2; use++)
  {
    std::vector<int> perm; for (int i = 0; i <= n; i++) perm.push_back(i); // n: the program
    do
    {
      string id = fmt("kernels/%d/%d/%d/", n, how, use); for (int i : perm) id += i == n ? "p" : fmt("%d", i); if (!R->begin(id)) continue; long nf = R->nfail;
      for (int rep = 0; ; rep++)
      {
        size_t b0 = __sanitizer_get_current_allocated_bytes(); cl_int e; cl_context x = clCreateContext(0, 1, &g_dev, 0, 0, &e); CK(e); cl_command_queue q = clCreateCommandQueue(x, g_dev, 0, &e); CK(e); cl_mem m = clCreateBuffer(x, 0, 64, 0, &e); CK(e);
        { string s; for (int i = 0; i < n; i++) s += fmt("kernel void k%d(global uint *a) { a[get_global_id(0)] = %d; }\n", i, 10 + i); const char* sp = s.c_str(); cl_program p = clCreateProgramWithSource(x, 1, &sp, 0, &e); CK(e); CK(clBuildProgram(p, 0, 0, "", 0, 0));
        cl_kernel k[4] = {}; cl_uint nk = 0; 
        if (how == 0) CK(clCreateKernelsInProgram(p, n, k, &nk)); else for (int i = 0; i < n; i++) { k[i] = clCreateKernel(p, fmt("k%d", how == 1 ? i : n - 1 - i).c_str(), &e); CK(e); }
        bool live[5]; for (int i = 0; i <= n; i++) live[i] = true; int left = n; auto look = [&] {
          for (int i = 0; i < n; i++) if (live[i])
          {
            cl_program kp = 0; CK(clGetKernelInfo(k[i], CL_KERNEL_PROGRAM, sizeof kp, &kp, 0)); if (kp != p) R->fail("kernels:program", R->curCase); cl_uint rc = 0; CK(clGetProgramInfo(kp, CL_PROGRAM_REFERENCE_COUNT, 4, &rc, 0)); int u = live[n];
            if ((int)rc < (u ? 1 : 0) + (u ? 0 : 1) || (int)rc > u + left) R->fail("kernels:references", R->curCase + fmt(": the program has %u references with %d handles and %d kernels", rc, u, left)); char nm[8]; CK(clGetKernelInfo(k[i], CL_KERNEL_FUNCTION_NAME, sizeof nm, nm, 0)); if (use)
            { cl_uint v = 0; size_t g = 4; CK(clSetKernelArg(k[i], 0, sizeof m, &m)); CK(clEnqueueNDRangeKernel(q, k[i], 1, 0, &g, 0, 0, 0, 0)); CK(clEnqueueReadBuffer(q, m, CL_TRUE, 0, 4, &v, 0, 0, 0)); if (v != (cl_uint)(10 + nm[1] - '0')) R->fail("kernels:value", R->curCase); }
          } };
        look(); for (int i : perm) { if (i == n) { CK(clReleaseProgram(p)); } else { CK(clReleaseKernel(k[i])); left--; } live[i] = false; look(); R->count("transitions"); } }
        CK(clReleaseMemObject(m)); CK(clReleaseCommandQueue(q)); CK(clReleaseContext(x)); size_t b1 = __sanitizer_get_current_allocated_bytes(); if (b1 <= b0 || R->nfail != nf) break; if (rep == 3) { R->fail("leak:kernels", R->curCase + fmt(": %ld bytes", (long)(b1 - b0))); break; }
      }
      R->count("traces_validated_against_impl");
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
}
static void mainC14(int argc, char** argv)
{
  stdEnv(argv[1], "1");
  for (int k = 0; k < NK; k++) for (int i = 0; i < 8; i++) g_args[k][i] = {k, i};
  {
    CL cl; g_dev = cl.dev; cl_program p = cl.build("kernel void k(global uint *a) { a[get_global_id(0)] = 9; }");
    size_t n = 0; CK(clGetProgramInfo(p, CL_PROGRAM_BINARY_SIZES, sizeof n, &n, 0)); g_bin.resize(n); unsigned char* b = g_bin.data(); CK(clGetProgramInfo(p, CL_PROGRAM_BINARIES, sizeof b, &b, 0));
    clReleaseProgram(p); cl.destroy();
  }
  if (!getenv("C14_COUNT")) cap = new Capture;
  bool T = R->thorough;
  typedef std::vector<string> V;
  commands(); kernelSets();
  // Buffers, sub-buffers, images over buffers, callbacks
  enumerate("mem", {"new:q", "new:buf"}, {"ret:buf", "rel:buf", "cb:buf", "new:sub", "rel:sub", "cb:sub", "new:imb", "rel:imb", "cb:imb", "rel:ctx", "cb:ctx", "fill:buf", "fill:sub", "fill:imb", "rel:q", "finish"}, T ? 5 : 4);
  enumerate("memcb", {"new:q", "new:buf", "cb:ctx", "cb:buf", "new:sub", "cb:sub", "new:imb", "cb:imb"}, {"rel:buf", "rel:sub", "rel:imb", "rel:ctx", "rel:q", "fill:sub", "fill:imb", "finish", "cb:buf", "cb:imb"}, T ? 6 : 4);
  enumerate("img", {"new:q"}, {"new:img", "ret:img", "rel:img", "cb:img", "rel:ctx", "cb:ctx", "ret:ctx", "fill:img", "rel:q", "ret:q", "finish", "flush"}, T ? 6 : 4);
  enumerate("smp", {}, {"new:smp", "ret:smp", "rel:smp", "new:smq", "ret:smq", "rel:smq", "ret:ctx", "rel:ctx", "cb:ctx"}, T ? 6 : 5);
  enumerate("evt", {"new:q", "new:buf", "new:usr", "cb:buf", "cb:ctx"}, {"fillW:buf", "fillWE:buf", "fillE:buf", "rel:buf", "rel:q", "rel:ctx", "set0:usr", "setE:usr", "ret:usr", "rel:usr", "ecb:evt", "ecbrel:usr", "wait:evt", "rel:evt", "finish", "flush"}, T ? 5 : 4);
  enumerate("evt2", {"new:q", "new:buf", "new:usr", "cb:buf", "cb:ctx", "fillWE:buf"}, {"fill:buf", "rel:buf", "rel:q", "ret:q", "rel:ctx", "set0:usr", "setE:usr", "rel:usr", "ret:usr", "ecb:evt", "ecb:usr", "ecbrel:usr", "wait:evt", "rel:evt", "ret:evt", "finish"}, T ? 5 : 4);
  enumerate("ker", {"new:q", "new:buf", "cb:buf", "cb:ctx", "new:prg", "new:ker", "arg:buf"}, {"run:ker", "runE:ker", "new:clone", "run:clone", "rel:ker", "rel:clone", "rel:prg", "rel:buf", "rel:q", "rel:ctx", "finish", "rel:evt"}, T ? 5 : 4);
  enumerate("ker2", {"new:q", "new:buf", "new:sub", "cb:buf", "cb:sub", "cb:ctx", "new:prg", "new:ker", "arg:sub", "runE:ker"}, {"arg:buf", "rel:ker", "ret:ker", "rel:prg", "ret:prg", "rel:buf", "rel:sub", "rel:q", "rel:ctx", "finish", "wait:evt", "rel:evt", "run:ker"}, T ? 5 : 4);
}
VF_MAIN(mainC14)
