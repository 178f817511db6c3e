// C28: two host threads, each using its own context, under every schedule within the delay bound: same results, diagnostics and reports as one after the other, without data races or deadlocks in the runtime.
#include "vf.hpp"
#include "mcrt.hpp"
#include <algorithm>
#include <sys/wait.h>
#include <thread>
using namespace vf; using std::string; using std::vector;
static Capture *E, *O;
static const char* SRC = "typedef struct { int a; float b; } S; constant int T[3] = {5, 6, 7};\n"
  "kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0), j = get_local_id(0); l[j] = in[i]; barrier(CLK_LOCAL_MEM_FENCE); S s; s.a = l[1 - j]; s.b = s.a * .5f; atomic_add(out + 15, i); out[i] = s.a + (int)s.b + T[i % 3]; }\n"
  "kernel void bad(global int *out, global int *in, local int *l) { int i = get_global_id(0); out[20 + i] = i; out[i] = in[i] + 1; }\n"
  "kernel void pr(global int *out, global int *in, local int *l) { printf(\"item %d of %s\\n\", (int)get_global_id(0), \"x\"); }\n"
  "kernel void as(global int *out, global int *in, local int *l) { event_t e = async_work_group_copy(l, in + get_group_id(0) * 2, 2, 0); wait_group_events(1, &e); out[get_global_id(0)] = l[get_local_id(0)] * 3; }\n"
  "kernel void im(read_only image2d_t a, write_only image2d_t b) { int i = get_global_id(0); const sampler_t S = CLK_NORMALIZED_COORDS_FALSE | CLK_ADDRESS_CLAMP | CLK_FILTER_NEAREST; write_imagef(b, (int2)(i, 0), read_imagef(a, S, (int2)(i, 0)) * 2.f); }\n";
// the objects of one host thread
struct H { CL* C; cl_program p; cl_kernel k[4], im; cl_mem out, in; int id; vector<int> init; string note; };
static void CL_CALLBACK onError(const char* t, const void*, size_t, void* u) { ((H*)u)->note += t; }
static void CL_CALLBACK onEvent(cl_event, cl_int s, void* u) { ((H*)u)->note += fmt("event %d;", s); }
static void CL_CALLBACK onFree(cl_mem, void* u) { ((H*)u)->note += "freed;"; }
static void prepare(H& h, int id)
{
  h.id = id; h.C = new CL; cl_int e; clReleaseCommandQueue(h.C->q); clReleaseContext(h.C->ctx); h.C->ctx = clCreateContext(0, 1, &h.C->dev, onError, &h, &e); CK(e); h.C->q = clCreateCommandQueue(h.C->ctx, h.C->dev, CL_QUEUE_PROFILING_ENABLE, &e); CK(e);
  h.p = h.C->build(SRC); int n = 0; for (const char* s : {"k", "bad", "pr", "as"}) h.k[n++] = h.C->kernel(h.p, s); h.im = h.C->kernel(h.p, "im");
  for (int i = 0; i < 16; i++) h.init.push_back(10 * (id + 1) + i); h.out = h.C->buf(64, h.init.data()); h.in = h.C->buf(64, h.init.data());
  for (auto k : h.k) { h.C->arg(k, 0, h.out); h.C->arg(k, 1, h.in); h.C->localArg(k, 2, 8); }
}
static string ints(const vector<int>& v) { string s; for (int x : v) s += fmt("%d ", x); return s; }
typedef string (*Fn)(H&);
static string launch(H& h, int k) { size_t g = 6, l = 2; vector<int> r(16); cl_int e = clEnqueueNDRangeKernel(h.C->q, h.k[k], 1, 0, &g, &l, 0, 0, 0); e |= clFinish(h.C->q); e |= clEnqueueReadBuffer(h.C->q, h.out, CL_TRUE, 0, 64, r.data(), 0, 0, 0); return fmt("%d: ", e) + ints(r); }
struct Scr { const char* name; Fn f; };
static const Scr SC[] = {
  {"launch", [](H& h) { return launch(h, 0); }}, {"errors", [](H& h) { return launch(h, 1); }}, {"printf", [](H& h) { return launch(h, 2); }}, {"async", [](H& h) { return launch(h, 3); }},
  {"transfer", [](H& h) {
    cl_int e = 0, f; auto q = h.C->q; vector<int> w(4, h.id + 50), r(16); int pat = h.id - 3; e |= clEnqueueWriteBuffer(q, h.in, CL_FALSE, 8, 16, w.data(), 0, 0, 0); e |= clEnqueueCopyBuffer(q, h.in, h.out, 0, 32, 16, 0, 0, 0); e |= clEnqueueFillBuffer(q, h.out, &pat, 4, 0, 8, 0, 0, 0); e |= clFlush(q);
    int* m = (int*)clEnqueueMapBuffer(q, h.out, CL_TRUE, CL_MAP_READ | CL_MAP_WRITE, 4, 8, 0, 0, 0, &f); m[0] += 7; e |= clEnqueueUnmapMemObject(q, h.out, m, 0, 0, 0); e |= clEnqueueReadBuffer(q, h.out, CL_FALSE, 0, 64, r.data(), 0, 0, 0); e |= clFinish(q); return fmt("%d %d: ", e, f) + ints(r); }},
  {"events", [](H& h) {
    cl_int e = 0, f; auto q = h.C->q; vector<int> r(16); cl_event ev[3], u = clCreateUserEvent(h.C->ctx, &f); e |= f; int v = h.id + 90; e |= clEnqueueWriteBuffer(q, h.out, CL_FALSE, 0, 4, &v, 1, &u, &ev[0]); e |= clSetEventCallback(ev[0], CL_COMPLETE, onEvent, &h); e |= clEnqueueMarkerWithWaitList(q, 1, ev, &ev[1]); e |= clEnqueueReadBuffer(q, h.out, CL_FALSE, 0, 64, r.data(), 1, &ev[1], &ev[2]);
    e |= clSetUserEventStatus(u, CL_COMPLETE); e |= clWaitForEvents(1, &ev[2]); cl_ulong a = 0, b = 0; e |= clGetEventProfilingInfo(ev[0], CL_PROFILING_COMMAND_QUEUED, 8, &a, 0); e |= clGetEventProfilingInfo(ev[2], CL_PROFILING_COMMAND_END, 8, &b, 0); cl_int st; e |= clGetEventInfo(ev[1], CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &st, 0);
    for (auto x : ev) clReleaseEvent(x); clReleaseEvent(u); return fmt("%d %d %d: ", e, a <= b, st) + ints(r); }},
  {"objects", [](H& h) {
    cl_int e = 0, f; auto c = h.C->ctx; cl_mem b = clCreateBuffer(c, CL_MEM_COPY_HOST_PTR, 32, h.init.data(), &f); e |= f; cl_buffer_region rg = {0, 16}; cl_mem s = clCreateSubBuffer(b, 0, CL_BUFFER_CREATE_TYPE_REGION, &rg, &f); e |= f; e |= clSetMemObjectDestructorCallback(b, onFree, &h); cl_sampler sm = clCreateSampler(c, CL_FALSE, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &f); e |= f;
    cl_kernel k = clCreateKernel(h.p, "k", &f); e |= f; e |= clSetKernelArg(k, 0, sizeof b, &b); vector<int> r(4); e |= clEnqueueReadBuffer(h.C->q, s, CL_TRUE, 0, 16, r.data(), 0, 0, 0); e |= clReleaseMemObject(s); e |= clReleaseMemObject(b); e |= clReleaseKernel(k); e |= clReleaseSampler(sm); return fmt("%d: ", e) + ints(r); }},
  {"image", [](H& h) {
    cl_int e = 0, f; cl_image_format fm = {CL_RGBA, CL_FLOAT}; cl_image_desc d = {CL_MEM_OBJECT_IMAGE2D, 2, 1}; vector<float> t(8, h.id + .5f), r(8); cl_mem a = clCreateImage(h.C->ctx, CL_MEM_COPY_HOST_PTR, &fm, &d, t.data(), &f), b; e |= f; b = clCreateImage(h.C->ctx, 0, &fm, &d, 0, &f); e |= f; e |= clSetKernelArg(h.im, 0, sizeof a, &a); e |= clSetKernelArg(h.im, 1, sizeof b, &b);
    size_t g = 2, l = 1, o[3] = {0, 0, 0}, rg[3] = {2, 1, 1}; e |= clEnqueueNDRangeKernel(h.C->q, h.im, 1, 0, &g, &l, 0, 0, 0); e |= clEnqueueReadImage(h.C->q, b, CL_TRUE, o, rg, 0, 0, r.data(), 0, 0, 0); clReleaseMemObject(a); clReleaseMemObject(b); return fmt("%d: %g %g", e, r[0], r[7]); }},
  {"invalid", [](H& h) { cl_int e = clEnqueueReadBuffer(h.C->q, h.out, CL_TRUE, 60, 8, h.init.data(), 0, 0, 0), f, g; clCreateBuffer(h.C->ctx, 0, 0, 0, &f); clCreateKernel(h.p, "none", &g); return fmt("%d %d %d", e, f, g); }},
  {"info", [](H& h) { char b[200] = {}; cl_uint n = 0; cl_ulong u = 0; size_t s[3] = {}; cl_int e = clGetDeviceInfo(h.C->dev, CL_DEVICE_NAME, 200, b, 0); e |= clGetKernelInfo(h.k[0], CL_KERNEL_NUM_ARGS, 4, &n, 0); e |= clGetKernelWorkGroupInfo(h.k[0], h.C->dev, CL_KERNEL_LOCAL_MEM_SIZE, 8, &u, 0); e |= clGetKernelWorkGroupInfo(h.k[0], h.C->dev, CL_KERNEL_COMPILE_WORK_GROUP_SIZE, sizeof s, s, 0); return fmt("%d %s %u %lu %zu", e, b, n, (unsigned long)u, s[0]); }},
  {"context", [](H& h) { cl_platform_id p; cl_int e = clGetPlatformIDs(1, &p, 0), f; cl_device_id d; e |= clGetDeviceIDs(p, CL_DEVICE_TYPE_ALL, 1, &d, 0); cl_context c = clCreateContext(0, 1, &d, 0, 0, &f); e |= f; cl_command_queue q = clCreateCommandQueue(c, d, 0, &f); e |= f; cl_mem m = clCreateBuffer(c, CL_MEM_COPY_HOST_PTR, 64, h.init.data(), &f); e |= f; vector<int> r(16); e |= clEnqueueReadBuffer(q, m, CL_TRUE, 0, 64, r.data(), 0, 0, 0); e |= clReleaseMemObject(m); e |= clReleaseCommandQueue(q); e |= clReleaseContext(c); return fmt("%d: ", e) + ints(r); }},
  {"program", [](H& h) { const char* s = "kernel void z(global int* a) { a[0] = 4; }"; cl_int e, f; cl_program p = clCreateProgramWithSource(h.C->ctx, 1, &s, 0, &e); f = clBuildProgram(p, 0, 0, h.id ? "-DQ=1" : "", 0, 0); cl_kernel k = clCreateKernel(p, "z", &e); e |= clSetKernelArg(k, 0, sizeof h.out, &h.out); size_t g = 1; e |= clEnqueueNDRangeKernel(h.C->q, k, 1, 0, &g, &g, 0, 0, 0); vector<int> r(16); e |= clEnqueueReadBuffer(h.C->q, h.out, CL_TRUE, 0, 64, r.data(), 0, 0, 0); clReleaseKernel(k); clReleaseProgram(p); return fmt("%d %d: ", e, f) + ints(r); }},
};
static string normalise(const string& s)
{
  vector<string> b; size_t p = 0; while (p < s.size()) { size_t q = s.find("\n\n", p); string x = s.substr(p, q == string::npos ? q : q - p); while (!x.empty() && x[0] == '\n') x.erase(0, 1); while (!x.empty() && isspace(x.back())) x.pop_back(); if (!x.empty()) b.push_back(x); if (q == string::npos) break; p = q + 2; }
  std::sort(b.begin(), b.end()); string r; for (auto& x : b) r += x + "\n--\n"; return r;
}
// stdout as a multiset of lines; a report may be printed between the characters of the output of another context's kernel
static string text(const string& s, bool chars) { if (chars) { string r = s; std::sort(r.begin(), r.end()); return r; } vector<string> v; std::stringstream f(s); string l, r; while (std::getline(f, l)) v.push_back(l); std::sort(v.begin(), v.end()); for (auto& x : v) r += x + "\n"; return r; }
static string diffOf(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t p = i > 150 ? i - 150 : 0; return a.substr(p, 400) + "\nexpected:\n" + b.substr(p, 400); }
static void one(const Scr& a, const Scr& b, char plug, int workers, long limit, H* hs, bool first)
{
  string id = fmt("%s+%s/%c/w%d", a.name, b.name, plug, workers); if (!R->begin(id)) return; setenv("OCLGRIND_NUM_THREADS", fmt("%d", workers).c_str(), 1);
  bool chars = plug == 'a' && (string(a.name) == "printf" || string(b.name) == "printf");
  auto run = [&]() -> string
  {
    E->clear(); O->clear(); string r[2]; H own[2]; for (int i = 0; i < 2; i++) { own[i].id = i; for (int j = 0; j < 16; j++) own[i].init.push_back(i + j); } H* h = first ? own : hs;
    std::thread t0([&] { r[0] = a.f(h[0]); }), t1([&] { r[1] = b.f(h[1]); }); t0.join(); t1.join();
    return "thread 0: " + r[0] + " [" + h[0].note + "]\nthread 1: " + r[1] + " [" + h[1].note + "]\nstderr:\n" + normalise(E->get()) + "stdout:\n" + text(O->get(), chars);
  };
  mc::Execution ref = mc::replay(run, ""); auto show = [](const mc::Execution& x) { return " [schedule " + x.schedule + "]"; };
  if (ref.error.find("INTERNAL") == 0) R->internal(ref.error);
  string key0 = string(a.name) + "+" + b.name; mc::Options o; o.delays = true; long n = 0, n1 = 1; int bad = 0;
  for (o.preemptions = 1;; o.preemptions++)
  {
    long before = n; o.maxSchedules = 1000000;
    n = mc::explore(o, run, [&](const mc::Execution& x) {
      R->tick(); R->count("states"); R->count("transitions", x.points); R->count("traces_validated_against_impl"); if (x.error.find("INTERNAL") == 0) R->internal(x.error + show(x)); string m, key;
      if (!x.error.empty()) { key = "stuck"; m = x.error; } else if (!WIFEXITED(x.status) || WEXITSTATUS(x.status)) { key = "crash"; m = fmt("the program was killed (status %x)", x.status); } else if (!x.race.empty()) { key = "race"; m = "data race: " + x.race; }
      else if (x.outcome != ref.outcome) { key = "result"; m = "result differs:\n" + diffOf(x.outcome, ref.outcome); }
      if (m.empty()) return true; if (getenv("VF_LOG")) { FILE* f = fopen((getenv("VF_LOG") + string(".bad")).c_str(), "w"); fputs(x.outcome.c_str(), f); fclose(f); } R->fail(key + ":" + key0 + ":" + plug, id + ": " + m + show(x)); return ++bad < 2; });
    if (o.preemptions == 1) n1 = n; if (!mc::complete && !bad) { R->count("spaces cut off"); R->internal(id + fmt(": schedule space cut off after %ld", n)); } if (bad || n == before || (double)n * n1 / 2 > limit) break;
  }
  R->count(fmt("spaces explored with up to %d delays", o.preemptions).c_str()); R->sample(id + fmt(": %ld schedules with up to %d delays, %ld scheduling points; outcome %s", n, o.preemptions, mc::maxPoints, ref.outcome.substr(0, 200).c_str()));
  if (getenv("VF_LOG")) { FILE* f = fopen(getenv("VF_LOG"), "a"); fprintf(f, "%s %ld %ld %ld\n%s\n", id.c_str(), n, mc::maxPoints, n * mc::maxPoints, ref.outcome.c_str()); fclose(f); }
}
static void body(int argc, char** argv)
{
  long L = R->thorough ? 4000 : 60; E = new Capture(2); O = new Capture(1); string sets = argv[2]; stdEnv(argv[1], "1"); setenv("OCLGRIND_CHECK_API", "1", 1); mc::ioPoints = true;
  for (char plug : sets)
  {
    if (plug == 'f') { one(SC[10], SC[10], 'f', 1, L, 0, true); continue; }
    auto set = [&](const char* v, bool x) { if (x) setenv(v, "1", 1); else unsetenv(v); }; set("OCLGRIND_INST_COUNTS", plug == 'a'); set("OCLGRIND_DATA_RACES", plug == 'a'); set("OCLGRIND_UNINITIALIZED", plug == 'a');
    H h[2]; prepare(h[0], 0); prepare(h[1], 1); int N = sizeof SC / sizeof *SC;
    for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { if (plug == 'a' && !R->thorough && !(i == 0 && j == 0) && !(i == 1 && j == 2)) continue; one(SC[i], SC[j], plug, 1 + (plug == 'n' && i < 4 && i == j), L, h, false); }
  }
}
VF_MAIN(body)
