// C30: an application that ends at a given point of its use of the API, in a given way.
#define CL_TARGET_OPENCL_VERSION 300
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include "CL/cl.h"
#include <pthread.h>
#include <unistd.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
using namespace std;
static const char* SRC = "kernel void say(global int* p, int n) { p[get_global_id(0)] += n; if (!get_global_id(0)) printf(\"K%d\\n\", n); }\n"
  "kernel void oob(global int* p, int n) { p[get_global_id(0)] += n; if (!get_global_id(0)) p[100000 + n] = 1; }\n";
static cl_platform_id plat; static cl_device_id dev; static cl_context ctx; static cl_program prog; static cl_command_queue q; static cl_mem buf; static cl_kernel say, oob; static cl_event user, mark; static void* mapped; static int serial, mode; static cl_int e; static vector<cl_event> evs;
static bool blocked; // a queued command waits for the user event
static void unblock() { if (user && blocked) { clSetUserEventStatus(user, CL_COMPLETE); blocked = false; } }
static void line(const char* s) { if (write(3, s, strlen(s)) < 0) {} } // notes of the application itself, unbuffered
static void run(cl_kernel k, bool pending, const cl_event* wait = 0)
{
  if (!pending) unblock();
  int n = ++serial; size_t g = 4; clSetKernelArg(k, 0, sizeof buf, &buf); clSetKernelArg(k, 1, 4, &n); if ((e = clEnqueueNDRangeKernel(q, k, 1, 0, &g, 0, wait ? 1 : 0, wait, 0))) { line("launch failed\n"); _exit(90); }
  char b[40]; if (!pending && (e = clFinish(q))) { line("finish failed\n"); _exit(91); } snprintf(b, 40, "%c%c%d\n", pending ? 'p' : 'c', k == say ? 'K' : 'O', n); line(b);
}
static void releaseAll()
{
  if (mapped) clEnqueueUnmapMemObject(q, buf, mapped, 0, 0, 0); for (auto x : evs) clReleaseEvent(x); if (mark) clReleaseEvent(mark); if (user) clReleaseEvent(user); if (buf) clReleaseMemObject(buf); if (say) clReleaseKernel(say); if (oob) clReleaseKernel(oob); if (prog) clReleaseProgram(prog); if (q) clReleaseCommandQueue(q); if (ctx) clReleaseContext(ctx);
}
static void finishAll() { unblock(); if (q && (e = clFinish(q))) { line("finish failed\n"); _exit(92); } line("F\n"); if (buf) { int v = 0; if ((e = clEnqueueReadBuffer(q, buf, CL_TRUE, 0, 4, &v, 0, 0, 0))) { line("read failed\n"); _exit(93); } char b[40]; snprintf(b, 40, "V%d\n", v); line(b); } }
struct Guard { ~Guard() { if (mode == 3) releaseAll(); if (mode == 4) { finishAll(); releaseAll(); } } } guard;
static void atex() { if (mode == 5) { finishAll(); releaseAll(); } }
static void CL_CALLBACK cbExit(cl_event, cl_int, void*) { exit(7); }
static void CL_CALLBACK cbNote(cl_event, cl_int, void*) { line("N\n"); }
static void CL_CALLBACK nat(void*) { line("n\n"); }
static void* thr(void*) { exit(7); }
static void op(char c)
{
  switch (c)
  {
  case 'P': clGetPlatformIDs(1, &plat, 0); clGetDeviceIDs(plat, CL_DEVICE_TYPE_ALL, 1, &dev, 0); break;
  case 'C': ctx = clCreateContext(0, 1, &dev, 0, 0, &e); break;
  case 'B': prog = clCreateProgramWithSource(ctx, 1, &SRC, 0, &e); clBuildProgram(prog, 1, &dev, "", 0, 0); say = clCreateKernel(prog, "say", &e); oob = clCreateKernel(prog, "oob", &e); break;
  case 'Q': { q = clCreateCommandQueue(ctx, dev, 0, &e); int z[64] = {}; buf = clCreateBuffer(ctx, CL_MEM_COPY_HOST_PTR, 64, z, &e); break; }
  case 'k': run(say, false); break;
  case 'K': run(say, true); break;
  case 'o': run(oob, false); break;
  case 'O': run(oob, true); break;
  case 'u': if (!user) blocked = true; if (!user) user = clCreateUserEvent(ctx, &e); { cl_event m; clEnqueueMarkerWithWaitList(q, 1, &user, &m); evs.push_back(m); } break;
  case 'U': blocked = false; if (!user) user = clCreateUserEvent(ctx, &e); clSetUserEventStatus(user, CL_COMPLETE); break;
  case 'm': if (!mapped) mapped = clEnqueueMapBuffer(q, buf, CL_FALSE, CL_MAP_READ | CL_MAP_WRITE, 0, 16, 0, 0, 0, &e); break;
  case 'n': clEnqueueNativeKernel(q, nat, 0, 0, 0, 0, 0, 0, 0, 0); break;
  case 'f': clFlush(q); break;
  case 'c': { cl_event m; clEnqueueMarkerWithWaitList(q, 0, 0, &m); evs.push_back(m); clSetEventCallback(m, CL_COMPLETE, cbNote, 0); break; }
  case 'r': clRetainContext(ctx); clRetainMemObject(buf); clRetainCommandQueue(q); clRetainKernel(say); break;
  case 'x': { cl_context c = clCreateContext(0, 1, &dev, 0, 0, &e); cl_command_queue y = clCreateCommandQueue(c, dev, 0, &e); cl_mem m = clCreateBuffer(c, 0, 64, 0, &e); (void)y; (void)m; if (c) clReleaseContext(c); break; }
  }
}
int main(int argc, char** argv)
{
  mode = atoi(argv[2]); setvbuf(stdout, 0, _IOFBF, 1 << 16); if (mode == 5) atexit(atex); printf("start\n");
  for (const char* s = argv[1]; *s; s++) { op(*s); }
  if (mode == 2) { finishAll(); releaseAll(); } if (mode == 1) exit(7);
  if (mode == 6) { if (ctx) { cl_event w = clCreateUserEvent(ctx, &e); clSetEventCallback(w, CL_COMPLETE, cbExit, 0); clSetUserEventStatus(w, CL_COMPLETE); } exit(7); }
  if (mode == 7) { pthread_t t; pthread_create(&t, 0, thr, 0); pthread_join(t, 0); }
  return 7;
}
