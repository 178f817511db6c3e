// Harness support: sharded case enumeration with crash attribution, stderr capture, OpenCL helpers.
#pragma once
#define CL_TARGET_OPENCL_VERSION 300
#define CL_USE_DEPRECATED_OPENCL_1_0_APIS
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#define CL_USE_DEPRECATED_OPENCL_2_0_APIS
#include "CL/cl.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace vf
{
using std::string;
using std::vector;

inline string jesc(const string& s)
{
  string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
inline string fmt(const char* f, ...)
{
  va_list a; va_start(a, f); char b[8192]; vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

struct Run
{
  int shard, nshards; long start; bool thorough; bool hasOnly; string only; char* cur; FILE* out; string dir; long seed;
  long index = -1; string curCase; std::map<string, long> stats; long nfail = 0; std::set<string> failedKeys; int nsamples = 0;
  int realErr = -1;
  Run()
  {
    realErr = dup(2);
    auto g = [](const char* n, const char* d) { const char* v = getenv(n); return string(v ? v : d); };
    shard = atoi(g("VF_SHARD", "0").c_str()); nshards = atoi(g("VF_NSHARDS", "1").c_str());
    start = atol(g("VF_START", "0").c_str()); thorough = g("VF_TIER", "quick") == "thorough";
    hasOnly = getenv("VF_ONLY"); only = g("VF_ONLY", ""); dir = g("VF_DIR", "/tmp"); seed = atol(g("VF_SEED", "1").c_str());
    int fd = open(g("VF_CUR", "/dev/null").c_str(), O_RDWR | O_CREAT, 0600);
    if (ftruncate(fd, 4096)) {}
    cur = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (cur == MAP_FAILED) cur = (char*)calloc(1, 4096);
    out = fopen(g("VF_OUT", "/dev/stdout").c_str(), "w");
    setvbuf(out, 0, _IOLBF, 1 << 16);
  }
  // Starts case `id`; false when the case belongs to another shard, was already covered, or is not the replayed one.
  bool begin(const string& id)
  {
    index++;
    if (hasOnly) { if (id != only) return false; }
    else
    {
      if (index % nshards != shard) return false;
      if (index < start) return false;
    }
    curCase = id;
    snprintf(cur, 4096, "%ld %s", index, id.c_str());
    stats["cases"]++;
    return true;
  }
  void tick() { static long n = 0; size_t l = strlen(cur); snprintf(cur + l + 1, 4096 - l - 1, "%ld", ++n); }
  void fail(const string& key, const string& msg)
  {
    nfail++; stats["violating_cases"]++;
    if (!failedKeys.insert(key).second || failedKeys.size() > 200) return;
    fprintf(out, "{\"t\":\"fail\",\"key\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}\n", jesc(key).c_str(), jesc(curCase).c_str(), jesc(msg.substr(0, 1500)).c_str());
    fflush(out);
  }
  void sample(const string& s)
  {
    if (shard || nsamples++ >= 4) return;
    fprintf(out, "{\"t\":\"sample\",\"s\":\"%s\"}\n", jesc(s).c_str());
  }
  void count(const char* k, long n = 1) { stats[k] += n; }
  int done()
  {
    fprintf(out, "{\"t\":\"stat\"");
    for (auto& s : stats) fprintf(out, ",\"%s\":%ld", s.first.c_str(), s.second);
    fprintf(out, "}\n"); fflush(out);
    _exit(0); // no static destructors: only what the cases do is judged
  }
  [[noreturn]] void internal(const string& m) { if (realErr >= 0) dup2(realErr, 2); fprintf(stderr, "INTERNAL: %s\n", m.c_str()); fflush(stderr); _exit(3); }
};
extern Run* R;

// Captures everything written to a descriptor (stderr by default) between clear() and get().
struct Capture
{
  int fd, saved, target;
  Capture(int t = 2) : target(t)
  {
    saved = dup(t); fd = memfd_create("cap", 0); dup2(fd, t);
    int fl = fcntl(t, F_GETFL); fcntl(t, F_SETFL, fl | O_APPEND);
  }
  void clear() { fflush(stdout); if (ftruncate(fd, 0)) {} }
  string get()
  {
    fflush(stdout);
    off_t n = lseek(fd, 0, SEEK_END); string s(n, 0); if (n && pread(fd, &s[0], n, 0) < 0) {} return s;
  }
  ~Capture() { dup2(saved, target); close(saved); close(fd); }
};

inline int countOf(const string& s, const string& sub)
{
  int n = 0; for (size_t p = s.find(sub); p != string::npos; p = s.find(sub, p + sub.size())) n++; return n;
}

#define CK(call) do { cl_int _e = (call); if (_e != CL_SUCCESS) vf::R->internal(vf::fmt("%s failed: %d at %s:%d", #call, _e, __FILE__, __LINE__)); } while (0)

struct CL
{
  cl_platform_id plat; cl_device_id dev; cl_context ctx; cl_command_queue q;
  CL(cl_command_queue_properties props = 0)
  {
    cl_int e; CK(clGetPlatformIDs(1, &plat, 0)); CK(clGetDeviceIDs(plat, CL_DEVICE_TYPE_ALL, 1, &dev, 0));
    ctx = clCreateContext(0, 1, &dev, 0, 0, &e); CK(e); q = clCreateCommandQueue(ctx, dev, props, &e); CK(e);
  }
  void destroy() { clReleaseCommandQueue(q); clReleaseContext(ctx); }
  cl_program tryBuild(const string& src, const string& opts, string* log = 0, cl_int* err = 0)
  {
    const char* s = src.c_str(); cl_int e; cl_program p = clCreateProgramWithSource(ctx, 1, &s, 0, &e); CK(e);
    cl_int be = clBuildProgram(p, 1, &dev, opts.c_str(), 0, 0);
    size_t n = 0; clGetProgramBuildInfo(p, dev, CL_PROGRAM_BUILD_LOG, 0, 0, &n);
    string l(n, 0); if (n) clGetProgramBuildInfo(p, dev, CL_PROGRAM_BUILD_LOG, n, &l[0], 0);
    if (log) *log = l; if (err) *err = be;
    return p;
  }
  cl_program build(const string& src, const string& opts = "")
  {
    string l; cl_int e; cl_program p = tryBuild(src, opts, &l, &e);
    if (e) R->internal("kernel source does not build: " + l + "\n" + src.substr(0, 3000));
    return p;
  }
  cl_kernel kernel(cl_program p, const string& n)
  {
    cl_int e; cl_kernel k = clCreateKernel(p, n.c_str(), &e); if (e) R->internal("no kernel " + n + fmt(" (%d)", e)); return k;
  }
  cl_mem buf(size_t n, const void* init = 0, cl_mem_flags f = CL_MEM_READ_WRITE)
  {
    cl_int e; cl_mem m = clCreateBuffer(ctx, f | (init ? CL_MEM_COPY_HOST_PTR : 0), n, (void*)init, &e); CK(e); return m;
  }
  void read(cl_mem m, void* p, size_t n, size_t off = 0) { CK(clEnqueueReadBuffer(q, m, CL_TRUE, off, n, p, 0, 0, 0)); }
  void write(cl_mem m, const void* p, size_t n, size_t off = 0) { CK(clEnqueueWriteBuffer(q, m, CL_TRUE, off, n, p, 0, 0, 0)); }
  template <class T> void arg(cl_kernel k, int i, const T& v) { CK(clSetKernelArg(k, i, sizeof(T), &v)); }
  void localArg(cl_kernel k, int i, size_t n) { CK(clSetKernelArg(k, i, n, 0)); }
  cl_int launch(cl_kernel k, int dim, const size_t* g, const size_t* l, const size_t* off = 0)
  {
    cl_int e = clEnqueueNDRangeKernel(q, k, dim, off, g, l, 0, 0, 0); if (e) return e; return clFinish(q);
  }
  cl_int launch1(cl_kernel k, size_t g, size_t l) { return launch(k, 1, &g, &l); }
};
inline void env(const char* k, const string& v) { setenv(k, v.c_str(), 1); }
inline void stdEnv(const string& pchdir, const string& threads = "1")
{
  env("OCLGRIND_PCH_DIR", pchdir); env("OCLGRIND_MAX_ERRORS", "1000000000"); env("OCLGRIND_NUM_THREADS", threads);
}
// Small reversible pattern so that every byte of a buffer is distinguishable from its neighbours.
inline void pattern(vector<uint8_t>& v, unsigned salt) { for (size_t i = 0; i < v.size(); i++) v[i] = (uint8_t)(i * 37 + salt * 101 + 13); }
} // namespace vf
#define VF_MAIN(body) namespace vf { Run* R; } int main(int argc, char** argv) { vf::R = new vf::Run; body(argc, argv); return vf::R->done(); }
