// C26: the application started by the launcher. Without "full" it records its arguments and environment; with it, it exercises every feature an option can change.
#define CL_TARGET_OPENCL_VERSION 120
#include "CL/cl.h"
#pragma weak clGetPlatformIDs
#pragma weak clGetDeviceIDs
#pragma weak clGetDeviceInfo
#pragma weak clCreateContext
#pragma weak clCreateCommandQueue
#pragma weak clCreateProgramWithSource
#pragma weak clBuildProgram
#pragma weak clGetProgramBuildInfo
#pragma weak clCreateKernel
#pragma weak clCreateBuffer
#pragma weak clSetKernelArg
#pragma weak clEnqueueNDRangeKernel
#pragma weak clFinish
#pragma weak clEnqueueReadBuffer
#pragma weak clReleaseMemObject
#pragma weak clReleaseKernel
#pragma weak clReleaseProgram
#pragma weak clReleaseCommandQueue
#pragma weak clReleaseContext
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
#include <unistd.h>
extern char** environ;
static void lp(FILE* f, const char* s) { fprintf(f, "%zu:%s", strlen(s), s); }
int main(int argc, char** argv)
{
  FILE* f = fopen(getenv("VF_REC"), "w"); fprintf(f, "%d\n", argc); for (int i = 0; i < argc; i++) lp(f, argv[i]); int n = 0; for (char** e = environ; *e; e++) n++; fprintf(f, "%d\n", n); for (char** e = environ; *e; e++) lp(f, *e); fclose(f);
  if (argc > 2 && !strcmp(argv[1], "exit")) return atoi(argv[2]);
  if (argc > 2 && !strcmp(argv[1], "kill")) { kill(getpid(), atoi(argv[2])); return 1; }
  if (argc > 1 && !strcmp(argv[1], "cat")) { char b[4096]; ssize_t r; while ((r = read(0, b, sizeof b)) > 0) if (write(1, b, r) != r || write(2, b, r) != r) return 9; return 0; }
  if (argc < 2 || strcmp(argv[1], "full")) return 0;
  cl_platform_id p; cl_device_id d; cl_int e; if (clGetPlatformIDs(1, &p, 0) || clGetDeviceIDs(p, CL_DEVICE_TYPE_ALL, 1, &d, 0)) return 2;
  cl_uint cu = 0; cl_ulong gm = 0, cm = 0, lm = 0, ma = 0; size_t wg = 0, wi[3] = {0};
  clGetDeviceInfo(d, CL_DEVICE_MAX_COMPUTE_UNITS, sizeof cu, &cu, 0); clGetDeviceInfo(d, CL_DEVICE_GLOBAL_MEM_SIZE, 8, &gm, 0); clGetDeviceInfo(d, CL_DEVICE_MAX_CONSTANT_BUFFER_SIZE, 8, &cm, 0); clGetDeviceInfo(d, CL_DEVICE_LOCAL_MEM_SIZE, 8, &lm, 0); clGetDeviceInfo(d, CL_DEVICE_MAX_WORK_GROUP_SIZE, 8, &wg, 0); clGetDeviceInfo(d, CL_DEVICE_MAX_WORK_ITEM_SIZES, sizeof wi, wi, 0); clGetDeviceInfo(d, CL_DEVICE_MAX_MEM_ALLOC_SIZE, 8, &ma, 0);
  cl_context c = clCreateContext(0, 1, &d, 0, 0, &e); cl_command_queue q = clCreateCommandQueue(c, d, 0, &e); const char* src = getenv("VF_SRC"); FILE* s = fopen(src, "r"); char text[4096]; text[fread(text, 1, 4095, s)] = 0; fclose(s); const char* tp = text;
  cl_program pr = clCreateProgramWithSource(c, 1, &tp, 0, &e); if (clBuildProgram(pr, 1, &d, "", 0, 0)) { char log[4096] = ""; clGetProgramBuildInfo(pr, d, CL_PROGRAM_BUILD_LOG, 4096, log, 0); printf("BUILD %s\n", log); return 3; }
  cl_kernel k = clCreateKernel(pr, "all", &e); int z[8] = {0}, one = 1; cl_mem b[4]; size_t sz[4] = {32, 4, 4, 16}; for (int i = 0; i < 4; i++) { b[i] = clCreateBuffer(c, i == 1 ? 0 : CL_MEM_COPY_HOST_PTR, sz[i], i == 1 ? 0 : i == 2 ? &one : z, &e); clSetKernelArg(k, i, sizeof(cl_mem), &b[i]); }
  size_t g = 8, l = 1; setenv("VF_MARK", "1", 1); cl_int r = clEnqueueNDRangeKernel(q, k, 1, 0, &g, &l, 0, 0, 0); if (!r) r = clFinish(q); unsetenv("VF_MARK"); int o[8]; clEnqueueReadBuffer(q, b[0], 1, 0, 32, o, 0, 0, 0);
  // the limits take effect where they are enforced
  size_t big = wg + 1, gbig = big; cl_int ew = clEnqueueNDRangeKernel(q, k, 1, 0, &gbig, &big, 0, 0, 0);
  printf("\nFEATURES cu=%u gm=%lu cm=%lu lm=%lu wg=%zu wi=%zu ma=%lu run=%d ew=%d out=", cu, (long)gm, (long)cm, (long)lm, wg, wi[0], (long)ma, r, ew); for (int i = 0; i < 8; i++) printf("%d,", o[i]); printf("\n"); fflush(stdout);
  for (int i = 0; i < 4; i++) clReleaseMemObject(b[i]); clReleaseKernel(k); clReleaseProgram(pr); clReleaseCommandQueue(q); clReleaseContext(c); return 0;
}
