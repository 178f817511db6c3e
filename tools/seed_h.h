// Helpers of the demonstrations.
#define CL_TARGET_OPENCL_VERSION 300
#define CL_USE_DEPRECATED_OPENCL_1_0_APIS
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#define CL_USE_DEPRECATED_OPENCL_2_0_APIS
#include "CL/cl.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#define CK(c) do { cl_int e_ = (c); if (e_) { fprintf(stderr, "%s: %d\n", #c, e_); exit(77); } } while (0)
static cl_platform_id P; static cl_device_id D; static cl_context C; static cl_command_queue Q;
static void init(cl_command_queue_properties props)
{ cl_int e; CK(clGetPlatformIDs(1, &P, 0)); CK(clGetDeviceIDs(P, CL_DEVICE_TYPE_ALL, 1, &D, 0));
  C = clCreateContext(0, 1, &D, 0, 0, &e); CK(e); Q = clCreateCommandQueue(C, D, props, &e); CK(e); }
static cl_program buildp(const char* src, const char* opts)
{ cl_int e; cl_program p = clCreateProgramWithSource(C, 1, &src, 0, &e); CK(e);
  if (clBuildProgram(p, 1, &D, opts, 0, 0)) { char l[9999]; clGetProgramBuildInfo(p, D, CL_PROGRAM_BUILD_LOG, sizeof l, l, 0); fprintf(stderr, "%s\n", l); exit(77); }
  return p; }
static cl_kernel kern(cl_program p, const char* n) { cl_int e; cl_kernel k = clCreateKernel(p, n, &e); CK(e); return k; }
static cl_mem buf(size_t n, const void* d, cl_mem_flags f) { cl_int e; cl_mem m = clCreateBuffer(C, f | (d ? CL_MEM_COPY_HOST_PTR : 0), n, (void*)d, &e); CK(e); return m; }
static void rd(cl_mem m, void* p, size_t n) { CK(clEnqueueReadBuffer(Q, m, CL_TRUE, 0, n, p, 0, 0, 0)); }
static cl_int run(cl_kernel k, int dim, const size_t* o, const size_t* g, const size_t* l)
{ cl_int e = clEnqueueNDRangeKernel(Q, k, dim, o, g, l, 0, 0, 0); return e ? e : clFinish(Q); }
static void run1(cl_kernel k, size_t g, size_t l) { CK(run(k, 1, 0, &g, &l)); }
#define ARG(k, i, v) CK(clSetKernelArg(k, i, sizeof(v), &(v)))
/* stderr of the simulator, captured to a scratch file */
static int cap_fd = -1, cap_old;
static void cap_begin(void) { fflush(stderr); FILE* t = tmpfile(); cap_fd = dup(fileno(t)); fclose(t); cap_old = dup(2); dup2(cap_fd, 2); }
static char* cap_end(void) { fflush(stderr); dup2(cap_old, 2); long n = lseek(cap_fd, 0, SEEK_END); char* b = (char*)calloc(1, n + 1); if (pread(cap_fd, b, n, 0) < 0) {} close(cap_fd); return b; }
static int occurrences(const char* s, const char* w) { int n = 0; while ((s = strstr(s, w))) { n++; s += strlen(w); } return n; }
#define EXPECT(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
