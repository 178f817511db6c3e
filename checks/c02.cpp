// C02: every schedule of the worker threads (within the preemption bound) leaves the same results and diagnostics as a single worker, without data races or deadlocks in the simulator.
#include "vf.hpp"
#include "mcrt.hpp"
#include <algorithm>
#include <sys/wait.h>
using namespace vf;
static Capture *E, *O;
struct K { const char* name; const char* src; const char* plugs; int items; bool anyPair; const char* opts; };
// plugs: which plugin sets are used (n none, c counts, r races, u uninitialised, a all three); anyPair: reports of races name one of several conflicting pairs
static const K KS[] = {
  {"indep", "int f(int x) { return x * 3 + 1; } kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0), j = get_local_id(0); int p[3]; for (int t = 0; t < 3; t++) p[t] = f(in[(i + t) & 7]); l[j] = p[i % 3]; barrier(CLK_LOCAL_MEM_FENCE); out[i] = l[1 - j] + p[0]; }", "ncrua", 2, false, ""},
  {"atomics", "kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); atomic_add(out, i + 1); atomic_max(out + 1, i); out[4 + i] = 7; }", "ncrua", 1, false, ""},
  {"atomics2", "kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); int old; do { old = atomic_or(out, 0); } while (atomic_cmpxchg(out, old, old * 2 + 1) != old); atom_xor((volatile global int *)out + 2, 5 << i); }", "nu", 1, false, ""},
  {"printf", "kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); printf(\"item %d of %s\\n\", i, \"x\"); out[i] = i; }", "nu", 1, false, ""},
  {"errors", "kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); out[100 + i] = i; l[40 + i] = 1; out[i] = in[-5 + i]; }", "ncru", 1, false, ""},
  {"uninit", "kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); if (l[0] > i) out[i] = 2; out[4 + i] = l[1] + i; }", "ua", 1, false, ""},
  {"race", "kernel void k(global int *out, global int *in, local int *l) { int i = get_group_id(0); out[8] = i; out[i] = in[2]; }", "ra", 1, true, "racy"},
  {"racerw", "kernel void k(global int *out, global int *in, local int *l) { int i = get_group_id(0); if (i == 0) out[9] = 5; else out[i] = out[9] + 1; }", "r", 1, true, "racy"},
  {"uniform", "kernel void k(global int *out, global int *in, local int *l) { out[8] = 3; }", "r", 1, true, ""},
  {"raceatomic", "kernel void k(global int *out, global int *in, local int *l) { int i = get_group_id(0); if (i == 0) out[9] = 5; else atomic_inc(out + 9); }", "r", 1, true, "racy"},
  {"localrace", "kernel void k(global int *out, global int *in, local int *l) { int j = get_local_id(0); l[0] = j; out[get_global_id(0)] = j; }", "r", 2, true, ""},
  {"constant", "constant int t[4] = {5, 6, 7, 8}; kernel void k(global int *out, constant int *in, local int *l) { int i = get_global_id(0); local int s[2]; s[i & 1] = t[i & 3] + in[i]; switch (i) { case 0: out[0] = s[0]; break; case 1: out[1] = s[1] * 2; break; default: out[i] = i; } }", "ncru", 1, false, ""},
  {"async", "kernel void k(global int *out, global int *in, local int *l) { event_t e = async_work_group_copy(l, in + get_group_id(0) * 2, 2, 0); wait_group_events(1, &e); e = async_work_group_copy(out + get_group_id(0) * 2, l, 2, 0); wait_group_events(1, &e); }", "nru", 2, false, ""},
  {"math", "kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); float4 v = convert_float4(vload4(0, in)); v = sin(v) + sqrt(fabs(v)) * (float)i; out[i] = convert_int_rte(dot(v, v)) + popcount(in[i]) + (int)rotate((uint)in[1], 3u); }", "ncu", 1, false, ""},
  {"call", "int g(int n, global int *in) { int s = 0; for (int i = 0; i < n; i++) s += in[i]; return s; } __attribute__((noinline)) int h(int n, global int *in) { return n > 1 ? g(n, in) + 1 : 0; } kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); out[i] = h(i + 1, in); }", "ncu", 1, false, ""},
  {"structs", "typedef struct { int a; char b; float c; } S; kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); S s[2]; s[0].a = in[i]; s[0].b = i; s[0].c = 1.5f; s[1] = s[0]; S t = s[i & 1]; out[i] = t.a + t.b + (int)(t.c * 2); }", "nu", 1, false, "-cl-opt-disable"},
  {"image", "const sampler_t S = CLK_NORMALIZED_COORDS_FALSE | CLK_ADDRESS_CLAMP | CLK_FILTER_LINEAR; kernel void k(global int *out, global int *in, local int *l, read_only image2d_t a, write_only image2d_t b) { int i = get_global_id(0); float4 f = read_imagef(a, S, (float2)(i + 0.75f, 1.0f)); out[i] = (int)(f.x * 4096) + get_image_width(a); write_imagef(b, (int2)(i, 1), f.yzwx); }", "nu", 1, false, "images"},
  {"divergent", "kernel void k(global int *out, global int *in, local int *l) { int j = get_local_id(0); if (j == 0) barrier(CLK_LOCAL_MEM_FENCE); out[get_global_id(0)] = j + 1; }", "nc", 2, false, ""},
  {"twice", "constant int t[2] = {3, 4}; kernel void k(global int *out, global int *in, local int *l) { int i = get_global_id(0); l[0] = in[i]; out[i] += l[0] + t[i & 1]; }", "ncu", 1, false, "twice"},
};
static std::string normalise(const std::string& s, bool anyPair)
{
  std::vector<std::string> b; size_t p = 0; while (p < s.size()) { size_t q = s.find("\n\n", p); std::string x = s.substr(p, q == std::string::npos ? q : q - p); while (!x.empty() && x[0] == '\n') x.erase(0, 1); while (!x.empty() && x.back() == '\n') x.pop_back(); if (!x.empty()) { if (anyPair && x.find("data race") != std::string::npos) { x = x.substr(0, x.find('\n')); size_t h = x.find("0x"); if (h != std::string::npos) x = x.substr(0, h) + fmt("%lx", strtoul(x.c_str() + h, 0, 16) & ~3ul); } b.push_back(x); } if (q == std::string::npos) break; p = q + 2; }
  if (anyPair) { std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end()); } std::sort(b.begin(), b.end()); std::string r; for (auto& x : b) r += x + "\n--\n"; return r;
}
static std::string sortLines(const std::string& s) { std::vector<std::string> v; std::istringstream ss(s); std::string l; while (getline(ss, l)) if (!l.empty()) v.push_back(l); std::sort(v.begin(), v.end()); std::string r; for (auto& x : v) r += x + "\n"; return r; }
static long total, points;
static void one(const K& k, char plug, int groups, int workers, long limit, const char* pch)
{
  std::string id = fmt("%s/%c/g%d/w%d", k.name, plug, groups, workers); if (!R->begin(id)) return;
  stdEnv(pch, "1"); auto set = [&](const char* v, bool x) { if (x) setenv(v, "1", 1); else unsetenv(v); }; set("OCLGRIND_INST_COUNTS", plug == 'c' || plug == 'a'); set("OCLGRIND_DATA_RACES", plug == 'r' || plug == 'a'); set("OCLGRIND_UNINITIALIZED", plug == 'u' || plug == 'a'); setenv("OCLGRIND_UNIFORM_WRITES", "1", 1);
  CL C; bool racy = !strcmp(k.opts, "racy"), images = !strcmp(k.opts, "images"), twice = !strcmp(k.opts, "twice"); cl_program p = C.build(k.src, k.opts[0] == '-' ? k.opts : ""); cl_kernel kn = C.kernel(p, "k"); int init[32] = {0}, in[16]; for (int i = 0; i < 16; i++) in[i] = i * 7 - 9; cl_int e; cl_mem out = clCreateBuffer(C.ctx, CL_MEM_COPY_HOST_PTR, sizeof init, init, &e), ib = clCreateBuffer(C.ctx, CL_MEM_COPY_HOST_PTR, sizeof in, in, &e); clSetKernelArg(kn, 0, sizeof out, &out); clSetKernelArg(kn, 1, sizeof ib, &ib); clSetKernelArg(kn, 2, 16, 0); int res[32]; cl_mem img[2] = {0, 0}; float tex[64] = {0};
  if (images) { cl_image_format f = {CL_RGBA, CL_FLOAT}; cl_image_desc d = {CL_MEM_OBJECT_IMAGE2D, 4, 4}; for (int i = 0; i < 64; i++) tex[i] = i * .25f; for (int i = 0; i < 2; i++) { img[i] = clCreateImage(C.ctx, CL_MEM_COPY_HOST_PTR, &f, &d, tex, &e); clSetKernelArg(kn, 3 + i, sizeof(cl_mem), &img[i]); } }
  auto run = [&]() -> std::string { E->clear(); O->clear(); size_t g = groups * k.items, l = k.items; cl_int r = clEnqueueNDRangeKernel(C.q, kn, 1, 0, &g, &l, 0, 0, 0); if (twice) r |= clEnqueueNDRangeKernel(C.q, kn, 1, 0, &g, &l, 0, 0, 0); if (!r) r = clFinish(C.q); fflush(0); std::string s = fmt("status %d memory", r); clEnqueueReadBuffer(C.q, out, 1, 0, sizeof res, res, 0, 0, 0); for (int i = 0; i < 32; i++) if (!racy) s += fmt(" %d", res[i]); if (images) { float o[64]; size_t org[3] = {0}, reg[3] = {4, 4, 1}; clEnqueueReadImage(C.q, img[1], 1, org, reg, 0, 0, o, 0, 0, 0); for (float x : o) s += fmt(" %g", x); } return s + "\ndiagnostics:\n" + normalise(E->get(), k.anyPair) + "output:\n" + sortLines(O->get()); };
  mc::Options o; setenv("OCLGRIND_NUM_THREADS", "1", 1); mc::Execution ref = mc::replay(run, ""); auto show = [](const mc::Execution& x) { return std::string(" [schedule ") + x.schedule + "]"; };
  if (!WIFEXITED(ref.status) || WEXITSTATUS(ref.status)) { if (ref.error.find("INTERNAL") == 0) R->internal(ref.error); R->fail(std::string("single:") + k.name, id + ": with one worker: " + (ref.error.empty() ? fmt("killed, status %x", ref.status) : ref.error)); return; }
  if (!ref.race.empty()) R->fail(std::string("race:") + k.name, id + ": data race with one worker: " + ref.race);
  setenv("OCLGRIND_NUM_THREADS", fmt("%d", workers).c_str(), 1); int bad = 0;
  if (k.anyPair) mc::ignoreRacesIn = {"oclgrind6Memory", "oclgrind12ShadowMemory5store", "oclgrind12ShadowMemory4load", "WorkItemBuiltins9atomic_op", "RaceDetector17memoryAtomicStore"}; else mc::ignoreRacesIn.clear(); long n = 0, n1 = 0;
  auto level = [&] { n = mc::explore(o, run, [&](const mc::Execution& x) {
    R->tick(); R->count("states"); R->count("transitions", x.points); R->count("traces_validated_against_impl"); if (x.error.find("INTERNAL") == 0) R->internal(x.error + show(x));
    std::string m, key; if (!x.error.empty()) { key = "stuck"; m = x.error; } else if (!WIFEXITED(x.status) || WEXITSTATUS(x.status)) { key = "crash"; m = fmt("the simulator was killed (status %x)", x.status); } else if (!x.race.empty()) { key = "race"; m = "unsynchronised conflicting accesses: " + x.race; } else if (x.outcome != ref.outcome) { key = "outcome"; size_t d = 0; while (d < x.outcome.size() && d < ref.outcome.size() && x.outcome[d] == ref.outcome[d]) d++; d = d > 60 ? d - 60 : 0; m = "differs from one worker: \"" + x.outcome.substr(d, 400) + "\" instead of \"" + ref.outcome.substr(d, 400) + "\""; }
    if (m.empty()) return true; R->fail(key + ":" + k.name + ":" + plug, id + ": " + m + show(x)); return ++bad < 3; }); if (!mc::complete && !bad) R->internal("schedule space cut off"); };
  // the largest preemption bound whose number of schedules stays within the limit
  for (o.preemptions = 1;; o.preemptions++) { long before = n; level(); if (o.preemptions == 1) n1 = n; if (bad || n == before || (double)n * n1 / (o.preemptions + 1) > limit) break; }
  R->count(n == 1 ? "spaces with a single schedule" : fmt("spaces explored with up to %d preemptions", o.preemptions).c_str()); R->sample(id + fmt(": %ld schedules with up to %d preemptions, %ld scheduling points", n, o.preemptions, mc::maxPoints));
  if (getenv("VF_LOG")) { FILE* f = fopen(getenv("VF_LOG"), "a"); fprintf(f, "%s %ld %ld %ld\n", id.c_str(), n, mc::maxPoints, n * mc::maxPoints); fclose(f); }
  for (auto x : img) if (x) clReleaseMemObject(x); clReleaseMemObject(out); clReleaseMemObject(ib); clReleaseKernel(kn); clReleaseProgram(p); C.destroy();
}
static void body(int argc, char** argv)
{
  long L = R->thorough ? 3000 : 500; E = new Capture(2); O = new Capture(1);
  for (auto& k : KS) for (const char* p = k.plugs; *p; p++) { one(k, *p, 2, 2, L, argv[1]); bool heavy = *p == 'r' || *p == 'a', many = *p != 'n' || !strcmp(k.name, "twice"); if (!heavy || k.items == 1 || R->thorough) one(k, *p, 3, 2, L, argv[1]); if (!many || R->thorough) one(k, *p, 3, 3, L, argv[1]); }
}
VF_MAIN(body)
