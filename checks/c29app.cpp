// C29: the program that is run twice, once linked against the implementation and once against an ICD loader that reaches it through the
// dispatch tables. Every line printed is the complete observable outcome of one sequence of operations.
#define CL_TARGET_OPENCL_VERSION 300
#define CL_USE_DEPRECATED_OPENCL_1_0_APIS
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#define CL_USE_DEPRECATED_OPENCL_2_0_APIS
#define CL_USE_DEPRECATED_OPENCL_2_1_APIS
#define CL_USE_DEPRECATED_OPENCL_2_2_APIS
#include "CL/cl.h"
#include "CL/cl_ext.h"
#include "CL/cl_gl.h"
#include <dlfcn.h>
#include <unistd.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
using namespace std;
static string O;
static void o(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); O += b; O += ' '; }
static const char* NAMES[] = {
#define X(i, n) #n,
#include "icdnames.h"
#undef X
};
static const int NN = sizeof NAMES / sizeof *NAMES;
static cl_platform_id plat; static cl_device_id dev; static cl_context ctx; static cl_program prog; static cl_command_queue q; static cl_mem buf, img; static cl_kernel kern;
static cl_int e; static size_t n; static const cl_image_format FMT = {CL_RGBA, CL_UNSIGNED_INT8};
static const char* SRC = "kernel void k(global int* p, int v) { p[get_global_id(0)] += v; }\nkernel void one(global int* p) { p[0] += 100; }";
static void hexd(const void* p, size_t m) { string s; char b[4]; for (size_t i = 0; i < m; i++) { snprintf(b, 4, "%02x", ((uint8_t*)p)[i]); s += b; } O += s + " "; }
static void fin() { o("fin%d", clFinish(q)); }
static void show() { uint8_t d[64]; memset(d, 0xEE, 64); e = clEnqueueReadBuffer(q, buf, CL_TRUE, 0, 64, d, 0, 0, 0); o("rd%d", e); hexd(d, 64); }
static void showi(cl_mem m) { uint8_t d[64]; memset(d, 0xEE, 64); size_t z[3] = {0, 0, 0}, r[3] = {4, 4, 1}; e = clEnqueueReadImage(q, m, CL_TRUE, z, r, 0, 0, d, 0, 0, 0); o("ri%d", e); hexd(d, 64); }
static void rels(const char* w, cl_int x) { o("%s%d", w, x); }
static bool ours(const Dl_info& d) { return d.dli_fname && strstr(d.dli_fname, getenv("VF_IMPL")); }
// The object must begin with the dispatch table, and each entry must be the implementation's own function of that name.
static void table(const char* what, void* obj)
{
  if (!obj) { o("table(%s): no object", what); return; }
  void** t = *(void***)obj; void** pt = *(void***)plat; if (t != pt) { o("BAD:table(%s): not the table of the platform", what); return; }
  for (int i = 0; i < NN; i++)
  {
    Dl_info d; static void* lib; static string libName; if (!strcmp(NAMES[i], "clGetExtensionFunctionAddress")) continue; // exported under its own name, which a loader may shadow
    if (!lib) { for (int j = 0; j < NN && !lib; j++) if (t[j] && dladdr(t[j], &d) && ours(d)) { libName = d.dli_fname; lib = dlopen(d.dli_fname, RTLD_NOW | RTLD_NOLOAD); } if (!lib) { o("BAD:table(%s): no entry in the implementation", what); return; } }
    void* s = dlsym(lib, (string("_") + NAMES[i]).c_str()); if (!s) s = dlsym(lib, NAMES[i]);
    if (!t[i]) { if (s) { o("BAD:table(%s): entry %d (%s) is missing", what, i, NAMES[i]); return; } continue; }
    if (!dladdr(t[i], &d) || !d.dli_fname || libName != d.dli_fname) { o("BAD:table(%s): entry %d (%s) leads outside the implementation", what, i, NAMES[i]); return; }
    if (d.dli_sname && d.dli_saddr == t[i]) { const char* z = d.dli_sname; if (*z == '_') z++; if (strcmp(z, NAMES[i])) { o("BAD:table(%s): entry %d is %s, must be %s", what, i, d.dli_sname, NAMES[i]); return; } }
    else if (s) { o("BAD:table(%s): entry %d (%s) is another function", what, i, NAMES[i]); return; }
  }
}
static void txt(const char* w, cl_int r, const char* s) { o("%s=%d:%s", w, r, s); }
static void CL_CALLBACK evcb(cl_event, cl_int s, void* u) { o("[cb%d:%s]", s, (char*)u); }
static void CL_CALLBACK memcb(cl_mem, void* u) { o("[mem:%s]", (char*)u); }
static void CL_CALLBACK ctxcb(cl_context, void* u) { o("[ctx:%s]", (char*)u); }
static void CL_CALLBACK progcb(cl_program, void* u) { o("[prog:%s]", (char*)u); }
static void CL_CALLBACK nk(void* a) { o("[nk%d]", *(int*)a); }
static void opPlatform()
{
  cl_uint c = 9; cl_platform_id p = 0; o("%d", clGetPlatformIDs(0, 0, &c)); o("n%u", c); o("%d", clGetPlatformIDs(1, &p, 0)); o("same%d", p == plat); o("%d", clGetPlatformIDs(0, &p, 0));
  for (cl_platform_info i : {CL_PLATFORM_NAME, CL_PLATFORM_VERSION, CL_PLATFORM_VENDOR, CL_PLATFORM_EXTENSIONS, CL_PLATFORM_PROFILE, CL_PLATFORM_ICD_SUFFIX_KHR, 0x1234}) { char b[2048] = ""; n = 0; e = clGetPlatformInfo(plat, i, 2048, b, &n); o("%d:%zu:%s", e, n, b); }
  table("platform", plat);
}
static void opDevice()
{
  cl_uint c = 0; cl_device_id d[4] = {}; o("%d", clGetDeviceIDs(plat, CL_DEVICE_TYPE_ALL, 4, d, &c)); o("n%u same%d", c, d[0] == dev);
  for (cl_device_info i : {CL_DEVICE_NAME, CL_DEVICE_VENDOR, CL_DEVICE_VERSION, CL_DEVICE_EXTENSIONS}) { char b[2048] = ""; e = clGetDeviceInfo(dev, i, 2048, b, &n); o("%d:%s", e, b); }
  cl_ulong u = 0; e = clGetDeviceInfo(dev, CL_DEVICE_GLOBAL_MEM_SIZE, 8, &u, 0); o("%d:%llu", e, (unsigned long long)u); o("%d", clGetDeviceInfo(dev, 0x4321, 8, &u, 0));
  rels("ret", clRetainDevice(dev)); rels("rel", clReleaseDevice(dev)); cl_device_partition_property pp[] = {CL_DEVICE_PARTITION_EQUALLY, 1, 0}; o("sub%d", clCreateSubDevices(dev, pp, 0, 0, &c)); table("device", dev);
}
static void opContext()
{
  cl_context_properties cp[] = {CL_CONTEXT_PLATFORM, (cl_context_properties)plat, 0};
  for (int i = 0; i < 3; i++)
  {
    cl_context c = i == 0 ? clCreateContext(0, 1, &dev, 0, 0, &e) : i == 1 ? clCreateContext(cp, 1, &dev, 0, 0, &e) : clCreateContextFromType(cp, CL_DEVICE_TYPE_ALL, 0, 0, &e); o("%d", e); table("context", c); if (!c) continue;
    cl_uint r = 0; e = clGetContextInfo(c, CL_CONTEXT_REFERENCE_COUNT, 4, &r, 0); o("%d:%u", e, r); cl_device_id d = 0; e = clGetContextInfo(c, CL_CONTEXT_DEVICES, sizeof d, &d, &n); o("%d:%zu:%d", e, n, d == dev);
    e = clGetContextInfo(c, CL_CONTEXT_PROPERTIES, 0, 0, &n); o("%d:%zu", e, n); rels("cb", clSetContextDestructorCallback(c, ctxcb, (void*)"x")); rels("ret", clRetainContext(c)); rels("rel", clReleaseContext(c)); rels("rel", clReleaseContext(c));
  }
}
static void opQueue()
{
  cl_queue_properties qp[] = {CL_QUEUE_PROPERTIES, CL_QUEUE_PROFILING_ENABLE, 0};
  for (int i = 0; i < 3; i++)
  {
    cl_command_queue c = i == 0 ? clCreateCommandQueue(ctx, dev, CL_QUEUE_PROFILING_ENABLE, &e) : clCreateCommandQueueWithProperties(ctx, dev, i == 1 ? qp : 0, &e); o("%d", e); table("queue", c); if (!c) continue;
    cl_command_queue_properties p = 99; e = clGetCommandQueueInfo(c, CL_QUEUE_PROPERTIES, sizeof p, &p, 0); o("%d:%d", e, (int)p); cl_context x = 0; e = clGetCommandQueueInfo(c, CL_QUEUE_CONTEXT, sizeof x, &x, 0); o("%d:%d", e, x == ctx);
    p = 99; e = clSetCommandQueueProperty(c, CL_QUEUE_PROFILING_ENABLE, CL_TRUE, &p); o("set%d", e); o("def%d", clSetDefaultDeviceCommandQueue(ctx, dev, c)); rels("ret", clRetainCommandQueue(c)); rels("rel", clReleaseCommandQueue(c)); rels("fl", clFlush(c)); rels("rel", clReleaseCommandQueue(c));
  }
}
static void memq(cl_mem m)
{
  size_t z = 0; cl_uint t = 0; cl_mem_flags f = 0; e = clGetMemObjectInfo(m, CL_MEM_SIZE, sizeof z, &z, 0); o("%d:%zu", e, z); e = clGetMemObjectInfo(m, CL_MEM_TYPE, 4, &t, 0); o("%d:%x", e, t); e = clGetMemObjectInfo(m, CL_MEM_FLAGS, 8, &f, 0); o("%d:%x", e, (int)f);
  rels("cb", clSetMemObjectDestructorCallback(m, memcb, (void*)"a")); rels("ret", clRetainMemObject(m)); rels("rel", clReleaseMemObject(m)); rels("rel", clReleaseMemObject(m));
}
static void opBuffer()
{
  cl_mem m = clCreateBuffer(ctx, CL_MEM_READ_ONLY, 4096, 0, &e); o("%d", e); table("buffer", m); cl_buffer_region r = {0, 64}; cl_mem s = clCreateSubBuffer(m, 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); o("%d", e); table("sub-buffer", s); if (s) memq(s); memq(m);
  cl_mem_properties mp[] = {0}; m = clCreateBufferWithProperties(ctx, mp, CL_MEM_WRITE_ONLY, 32, 0, &e); o("%d", e); table("buffer with properties", m); if (m) memq(m); m = clCreateBuffer(ctx, 0, 0, 0, &e); o("%d", e);
  m = clCreatePipe(ctx, 0, 4, 4, 0, &e); o("pipe%d", e); if (m) { table("pipe", m); cl_uint k = 0; o("%d", clGetPipeInfo(m, CL_PIPE_PACKET_SIZE, 4, &k, 0)); clReleaseMemObject(m); } else { cl_uint k = 0; o("%d", clGetPipeInfo(buf, CL_PIPE_PACKET_SIZE, 4, &k, 0)); }
}
static void imgq(cl_mem m)
{
  table("image", m); if (!m) return; size_t w = 0, h = 0; cl_image_format f = {}; e = clGetImageInfo(m, CL_IMAGE_WIDTH, sizeof w, &w, 0); o("%d:%zu", e, w); e = clGetImageInfo(m, CL_IMAGE_HEIGHT, sizeof h, &h, 0); o("%d:%zu", e, h); e = clGetImageInfo(m, CL_IMAGE_FORMAT, sizeof f, &f, 0); o("%d:%x:%x", e, f.image_channel_order, f.image_channel_data_type); memq(m);
}
static void opImage()
{
  cl_image_desc d = {}; d.image_type = CL_MEM_OBJECT_IMAGE2D; d.image_width = 5; d.image_height = 3; cl_mem_properties mp[] = {0};
  imgq(clCreateImage(ctx, 0, &FMT, &d, 0, &e)); o("%d", e); imgq(clCreateImageWithProperties(ctx, mp, 0, &FMT, &d, 0, &e)); o("%d", e); imgq(clCreateImage2D(ctx, CL_MEM_READ_ONLY, &FMT, 6, 2, 0, 0, &e)); o("%d", e); imgq(clCreateImage3D(ctx, CL_MEM_READ_ONLY, &FMT, 2, 3, 4, 0, 0, 0, &e)); o("%d", e);
  cl_uint c = 0; e = clGetSupportedImageFormats(ctx, 0, CL_MEM_OBJECT_IMAGE2D, 0, 0, &c); o("%d:%u", e, c);
}
static void opSampler()
{
  cl_sampler_properties sp[] = {CL_SAMPLER_NORMALIZED_COORDS, CL_FALSE, CL_SAMPLER_ADDRESSING_MODE, CL_ADDRESS_REPEAT, CL_SAMPLER_FILTER_MODE, CL_FILTER_LINEAR, 0};
  for (int i = 0; i < 2; i++)
  {
    cl_sampler s = i ? clCreateSamplerWithProperties(ctx, sp, &e) : clCreateSampler(ctx, CL_TRUE, CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e); o("%d", e); table("sampler", s); if (!s) continue;
    cl_uint v = 0; e = clGetSamplerInfo(s, CL_SAMPLER_ADDRESSING_MODE, 4, &v, 0); o("%d:%x", e, v); e = clGetSamplerInfo(s, CL_SAMPLER_FILTER_MODE, 4, &v, 0); o("%d:%x", e, v); rels("ret", clRetainSampler(s)); rels("rel", clReleaseSampler(s)); rels("rel", clReleaseSampler(s));
  }
}
static void opProgramQuery()
{
  table("program", prog); char b[1024] = ""; e = clGetProgramInfo(prog, CL_PROGRAM_KERNEL_NAMES, 1024, b, 0); o("%d:%s", e, b); cl_build_status bs = 9; e = clGetProgramBuildInfo(prog, dev, CL_PROGRAM_BUILD_STATUS, sizeof bs, &bs, 0); o("%d:%d", e, bs);
  rels("ret", clRetainProgram(prog)); rels("rel", clReleaseProgram(prog)); o("spec%d", clSetProgramSpecializationConstant(prog, 0, 4, b)); o("rcb%d", clSetProgramReleaseCallback(prog, progcb, (void*)"p")); o("il%d", (clCreateProgramWithIL(ctx, "abcd", 4, &e), e)); o("bik%d", (clCreateProgramWithBuiltInKernels(ctx, 1, &dev, "x", &e), e));
  o("upc%d", clUnloadPlatformCompiler(plat)); o("uc%d", clUnloadCompiler());
  cl_program p = clCreateProgramWithSource(ctx, 1, &SRC, 0, &e); o("%d", e); table("program from source", p); e = clGetProgramInfo(p, CL_PROGRAM_SOURCE, 1024, b, 0); o("%d:%s", e, b); rels("rel", clReleaseProgram(p));
}
static void opProgramBuild()
{
  cl_program p = clCreateProgramWithSource(ctx, 1, &SRC, 0, &e); o("c%d", clCompileProgram(p, 1, &dev, "", 0, 0, 0, 0, 0)); cl_program l = clLinkProgram(ctx, 1, &dev, "", 1, &p, 0, 0, &e); o("l%d", e); table("linked program", l); if (!l) return;
  e = clGetProgramInfo(l, CL_PROGRAM_BINARY_SIZES, sizeof n, &n, 0); o("%d", e); vector<unsigned char> bin(n); unsigned char* bp = bin.data(); e = clGetProgramInfo(l, CL_PROGRAM_BINARIES, sizeof bp, &bp, 0); o("%d", e); cl_int st = 7; const unsigned char* cb = bp; cl_program b = clCreateProgramWithBinary(ctx, 1, &dev, &n, &cb, &st, &e); o("%d:%d", e, st); table("program from binary", b);
  o("b%d", clBuildProgram(b, 1, &dev, "", 0, 0)); cl_kernel k[2] = {}; cl_uint c = 0; e = clCreateKernelsInProgram(b, 2, k, &c); o("%d:%u", e, c); for (auto x : k) { table("kernel of a set", x); if (x) { char nm[64] = ""; e = clGetKernelInfo(x, CL_KERNEL_FUNCTION_NAME, 64, nm, 0); o("%d:%s", e, nm); rels("rel", clReleaseKernel(x)); } }
  rels("rel", clReleaseProgram(b)); rels("rel", clReleaseProgram(l)); rels("rel", clReleaseProgram(p));
}
static void opKernel()
{
  cl_kernel k = clCreateKernel(prog, "k", &e); o("%d", e); table("kernel", k); int v = 5; o("%d", clSetKernelArg(k, 0, sizeof buf, &buf)); o("%d", clSetKernelArg(k, 1, 4, &v)); o("%d", clSetKernelArg(k, 7, 4, &v));
  cl_kernel c = clCloneKernel(k, &e); o("clone%d", e); if (c) table("cloned kernel", c); cl_uint a = 0; e = clGetKernelInfo(k, CL_KERNEL_NUM_ARGS, 4, &a, 0); o("%d:%u", e, a); char b[64] = ""; e = clGetKernelArgInfo(k, 1, CL_KERNEL_ARG_NAME, 64, b, 0); o("%d:%s", e, b); e = clGetKernelWorkGroupInfo(k, dev, CL_KERNEL_WORK_GROUP_SIZE, sizeof n, &n, 0); o("%d:%zu", e, n);
  size_t sg = 0; size_t in = 4; e = clGetKernelSubGroupInfo(k, dev, CL_KERNEL_MAX_SUB_GROUP_SIZE_FOR_NDRANGE, sizeof in, &in, sizeof sg, &sg, 0); o("sg%d", e); o("svmp%d", clSetKernelArgSVMPointer(k, 0, 0)); o("ei%d", clSetKernelExecInfo(k, CL_KERNEL_EXEC_INFO_SVM_PTRS, 0, 0));
  rels("ret", clRetainKernel(k)); rels("rel", clReleaseKernel(k)); o("%d", clSetKernelArg(k, 0, sizeof buf, &buf)); size_t g = 3; o("run%d", clEnqueueNDRangeKernel(q, k, 1, 0, &g, 0, 0, 0, 0)); if (c) { o("runc%d", clEnqueueNDRangeKernel(q, c, 1, 0, &g, 0, 0, 0, 0)); fin(); rels("rel", clReleaseKernel(c)); } fin(); rels("rel", clReleaseKernel(k));
}
static void opTransfer()
{
  uint8_t d[64]; for (int i = 0; i < 64; i++) d[i] = i * 3; o("w%d", clEnqueueWriteBuffer(q, buf, CL_TRUE, 8, 16, d, 0, 0, 0)); cl_mem b2 = clCreateBuffer(ctx, CL_MEM_COPY_HOST_PTR, 64, d, &e); o("c%d", clEnqueueCopyBuffer(q, b2, buf, 4, 30, 7, 0, 0, 0));
  size_t o1[3] = {1, 1, 0}, o2[3] = {2, 3, 0}, r[3] = {3, 2, 1}; o("wr%d", clEnqueueWriteBufferRect(q, buf, CL_TRUE, o1, o2, r, 8, 0, 8, 0, d, 0, 0, 0)); o("cr%d", clEnqueueCopyBufferRect(q, b2, buf, o2, o1, r, 8, 0, 8, 0, 0, 0, 0)); uint8_t t[64] = {}; o("rr%d", clEnqueueReadBufferRect(q, buf, CL_TRUE, o1, o2, r, 8, 0, 8, 0, t, 0, 0, 0)); hexd(t, 64);
  cl_ushort p = 0xABCD; o("f%d", clEnqueueFillBuffer(q, buf, &p, 2, 50, 6, 0, 0, 0)); o("m%d", clEnqueueMigrateMemObjects(q, 1, &buf, 0, 0, 0, 0)); o("bad%d", clEnqueueReadBuffer(q, buf, CL_TRUE, 60, 8, t, 0, 0, 0)); fin(); clReleaseMemObject(b2);
}
static void opImageTransfer()
{
  uint8_t d[64]; for (int i = 0; i < 64; i++) d[i] = i * 5 + 1; size_t z[3] = {0, 0, 0}, a[3] = {1, 2, 0}, r[3] = {2, 2, 1}; o("w%d", clEnqueueWriteImage(q, img, CL_TRUE, a, r, 0, 0, d, 0, 0, 0)); o("ci%d", clEnqueueCopyImage(q, img, img, a, z, r, 0, 0, 0)); o("i2b%d", clEnqueueCopyImageToBuffer(q, img, buf, a, r, 20, 0, 0, 0)); size_t y[3] = {2, 0, 0}; o("b2i%d", clEnqueueCopyBufferToImage(q, buf, img, 4, y, r, 0, 0, 0));
  cl_uint4 c = {{1, 2, 3, 4}}; size_t one[3] = {1, 1, 1}, tl[3] = {3, 3, 0}; o("f%d", clEnqueueFillImage(q, img, &c, tl, one, 0, 0, 0)); fin();
}
static void opMap()
{
  uint8_t* p = (uint8_t*)clEnqueueMapBuffer(q, buf, CL_TRUE, CL_MAP_READ | CL_MAP_WRITE, 4, 8, 0, 0, 0, &e); o("%d", e); if (p) { hexd(p, 8); p[3] ^= 0x77; o("u%d", clEnqueueUnmapMemObject(q, buf, p, 0, 0, 0)); }
  size_t a[3] = {1, 1, 0}, r[3] = {2, 1, 1}, rp = 0; p = (uint8_t*)clEnqueueMapImage(q, img, CL_TRUE, CL_MAP_READ | CL_MAP_WRITE, a, r, &rp, 0, 0, 0, 0, &e); o("%d:%zu", e, rp); if (p) { hexd(p, 8); p[2] ^= 0x55; o("u%d", clEnqueueUnmapMemObject(q, img, p, 0, 0, 0)); } o("bad%d", clEnqueueUnmapMemObject(q, buf, &e, 0, 0, 0)); fin();
}
static void opRun()
{
  size_t g = 8, l = 4; o("%d", clEnqueueNDRangeKernel(q, kern, 1, 0, &g, &l, 0, 0, 0)); l = 3; o("%d", clEnqueueNDRangeKernel(q, kern, 4, 0, &g, &l, 0, 0, 0)); o("t%d", clEnqueueTask(q, kern, 0, 0, 0)); int v = 42; o("nk%d", clEnqueueNativeKernel(q, nk, &v, 4, 0, 0, 0, 0, 0, 0)); fin();
}
static void evq(const char* w, cl_event v, cl_command_type want)
{
  (void)want; table(w, v); if (!v) return; cl_int s = 99; cl_command_type t = 0; e = clGetEventInfo(v, CL_EVENT_COMMAND_TYPE, 4, &t, 0); o("%d:%x", e, t); rels("cb", clSetEventCallback(v, CL_COMPLETE, evcb, (void*)w)); rels("w", clWaitForEvents(1, &v)); e = clGetEventInfo(v, CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0); o("%d:%d", e, s);
  cl_ulong a = 0, b = 0; e = clGetEventProfilingInfo(v, CL_PROFILING_COMMAND_START, 8, &a, 0); o("p%d", e); e = clGetEventProfilingInfo(v, CL_PROFILING_COMMAND_END, 8, &b, 0); o("p%d:%d", e, b >= a); rels("ret", clRetainEvent(v)); rels("rel", clReleaseEvent(v)); rels("rel", clReleaseEvent(v));
}
static void opEvents()
{
  cl_event u = clCreateUserEvent(ctx, &e); o("%d", e); table("user event", u); cl_event m = 0, b = 0, w = 0, x = 0; size_t g = 8; o("%d", clEnqueueNDRangeKernel(q, kern, 1, 0, &g, 0, 1, &u, &x)); o("mk%d", clEnqueueMarker(q, &m)); o("bl%d", clEnqueueBarrier(q)); o("mw%d", clEnqueueMarkerWithWaitList(q, 1, &x, &w)); o("bw%d", clEnqueueBarrierWithWaitList(q, 1, &w, &b)); o("wf%d", clEnqueueWaitForEvents(q, 1, &b));
  cl_int s = 99; e = clGetEventInfo(u, CL_EVENT_COMMAND_EXECUTION_STATUS, 4, &s, 0); o("%d:%d", e, s); rels("cb", clSetEventCallback(u, CL_COMPLETE, evcb, (void*)"user")); o("set%d", clSetUserEventStatus(u, CL_COMPLETE)); o("again%d", clSetUserEventStatus(u, CL_COMPLETE)); fin(); evq("kernel event", x, 0); evq("marker event", m, 0); evq("list marker event", w, 0); evq("list barrier event", b, 0); rels("rel", clReleaseEvent(u));
}
static void opSVM()
{
  void* p = clSVMAlloc(ctx, 0, 64, 0); o("a%d", p != 0); uint8_t t[64] = {1, 2, 3}; uint8_t u[64] = {}; o("mc%d", clEnqueueSVMMemcpy(q, CL_TRUE, p ? p : u, t, 64, 0, 0, 0)); o("mf%d", clEnqueueSVMMemFill(q, p ? p : u, t, 1, 64, 0, 0, 0)); o("mp%d", clEnqueueSVMMap(q, CL_TRUE, 1, p ? p : u, 64, 0, 0, 0)); o("um%d", clEnqueueSVMUnmap(q, p ? p : u, 0, 0, 0));
  const void* pc = p ? p : u; size_t z = 64; o("mg%d", clEnqueueSVMMigrateMem(q, 1, &pc, &z, 0, 0, 0, 0)); o("ef%d", clEnqueueSVMFree(q, 0, 0, 0, 0, 0, 0, 0)); clSVMFree(ctx, p); fin();
}
static void opMisc()
{
  cl_ulong a = 0, b = 0; o("t%d", clGetDeviceAndHostTimer(dev, &a, &b)); o("h%d", clGetHostTimer(dev, &a)); o("x%d", clGetExtensionFunctionAddress("clNoSuchFunction") != 0); o("x%d", clGetExtensionFunctionAddress("clIcdGetPlatformIDsKHR") != 0); o("y%d", clGetExtensionFunctionAddressForPlatform(plat, "clNoSuchFunction") != 0);
  for (const char* s : {"clIcdGetPlatformIDsKHR", "clGetPlatformInfo", "clNoSuchFunction"}) { void* p = clGetExtensionFunctionAddress(s); Dl_info d; if (p) o("%s%s", s, dladdr(p, &d) && ours(d) && (!d.dli_sname || strstr(d.dli_sname, s)) ? "" : ":BAD"); }
}
static void opGL()
{
  o("%d", (clCreateFromGLBuffer(ctx, 0, 1, &e), e)); o("%d", (clCreateFromGLTexture(ctx, 0, 0xDE1, 0, 1, &e), e)); o("%d", (clCreateFromGLTexture2D(ctx, 0, 0xDE1, 0, 1, &e), e)); o("%d", (clCreateFromGLTexture3D(ctx, 0, 0x806F, 0, 1, &e), e)); o("%d", (clCreateFromGLRenderbuffer(ctx, 0, 1, &e), e));
  cl_gl_object_type t; cl_GLuint nm; o("%d", clGetGLObjectInfo(buf, &t, &nm)); o("%d", clGetGLTextureInfo(img, 0x2004, 4, &t, 0)); o("%d", clEnqueueAcquireGLObjects(q, 1, &buf, 0, 0, 0)); o("%d", clEnqueueReleaseGLObjects(q, 1, &buf, 0, 0, 0)); fin(); cl_context_properties cp[] = {CL_CONTEXT_PLATFORM, (cl_context_properties)plat, 0}; o("%d", clGetGLContextInfoKHR(cp, CL_DEVICES_FOR_GL_CONTEXT_KHR, 0, 0, &n));
}
struct Op { const char* name; void (*f)(); };
static const Op OPS[] = {{"platform", opPlatform}, {"device", opDevice}, {"context", opContext}, {"queue", opQueue}, {"buffer", opBuffer}, {"image", opImage}, {"sampler", opSampler}, {"program", opProgramQuery}, {"kernel", opKernel}, {"transfer", opTransfer}, {"imagetransfer", opImageTransfer}, {"map", opMap}, {"run", opRun}, {"events", opEvents}, {"svm", opSVM}, {"misc", opMisc}, {"gl", opGL}, {"build", opProgramBuild}};
static const int NOPS = sizeof OPS / sizeof *OPS;
#define MUST(x) do { x; if (e) { printf("SETUP %s %d\n", #x, e); fflush(stdout); _exit(0); } } while (0)
static void setup()
{
  e = clGetPlatformIDs(1, &plat, 0); if (e) { printf("SETUP platform %d\n", e); _exit(0); } e = clGetDeviceIDs(plat, CL_DEVICE_TYPE_ALL, 1, &dev, 0); if (e) { printf("SETUP device %d\n", e); _exit(0); } MUST(ctx = clCreateContext(0, 1, &dev, 0, 0, &e)); MUST(prog = clCreateProgramWithSource(ctx, 1, &SRC, 0, &e)); MUST(e = clBuildProgram(prog, 1, &dev, "-cl-kernel-arg-info", 0, 0));
}
static void seq(const vector<int>& s)
{
  O.clear(); uint8_t d[64]; for (int i = 0; i < 64; i++) d[i] = i;
  MUST(q = clCreateCommandQueue(ctx, dev, CL_QUEUE_PROFILING_ENABLE, &e)); MUST(buf = clCreateBuffer(ctx, CL_MEM_COPY_HOST_PTR, 64, d, &e)); cl_image_desc id = {}; id.image_type = CL_MEM_OBJECT_IMAGE2D; id.image_width = id.image_height = 4; MUST(img = clCreateImage(ctx, CL_MEM_COPY_HOST_PTR, &FMT, &id, d, &e)); MUST(kern = clCreateKernel(prog, "k", &e)); int v = 7; clSetKernelArg(kern, 0, sizeof buf, &buf); clSetKernelArg(kern, 1, 4, &v);
  for (int i : s) { O += "<"; O += OPS[i].name; O += "> "; OPS[i].f(); show(); showi(img); }
  clReleaseKernel(kern); clReleaseMemObject(img); clReleaseMemObject(buf); clReleaseCommandQueue(q);
  for (auto& c : O) if (c == '\n') c = '|'; printf("%s\n", O.c_str()); fflush(stdout);
}
int main(int argc, char** argv)
{
  // argument: comma separated first operations, then depth
  if (argc > 1 && !strcmp(argv[1], "-n")) { printf("%d\n", NOPS); return 0; }
  setup(); int first = atoi(argv[1]), depth = atoi(argv[2]);
  seq({first}); if (depth > 1) for (int j = 0; j < NOPS; j++) { seq({first, j}); if (depth > 2) for (int k = 0; k < NOPS; k++) { seq({first, j, k}); if (depth > 3) for (int l = 0; l < NOPS; l++) seq({first, j, k, l}); } }
  printf("END\n"); fflush(stdout); _exit(0);
}
