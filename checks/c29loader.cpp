// A minimal ICD loader in the manner of the Khronos one: it opens the vendor library, gets the platforms through
// clGetExtensionFunctionAddress and clIcdGetPlatformIDsKHR, and passes every other call on through the dispatch table the object starts with.
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define API extern "C" __attribute__((visibility("default")))
typedef void* (*Fn)(...);
static void*(*gext)(const char*); static int (*ids)(unsigned, void**, unsigned*);
static void load()
{
  if (gext) return;
  void* h = dlopen(getenv("VF_ICD_LIB"), RTLD_NOW); if (!h) { fprintf(stderr, "loader: %s\n", dlerror()); _exit(4); }
  gext = (void*(*)(const char*))dlsym(h, "clGetExtensionFunctionAddress"); if (!gext) { printf("no clGetExtensionFunctionAddress\n"); fflush(stdout); _exit(5); }
  ids = (int (*)(unsigned, void**, unsigned*))gext("clIcdGetPlatformIDsKHR"); if (!ids) { printf("no clIcdGetPlatformIDsKHR\n"); fflush(stdout); _exit(5); }
  if (!gext("clGetPlatformInfo")) { printf("no clGetPlatformInfo\n"); fflush(stdout); _exit(5); }
}
static void* first() { load(); void* p = 0; ids(1, &p, 0); return p; }
template <class... A> static void* fwd(int slot, void* obj, A... a) { void** t = *(void***)obj; return ((void* (*)(A...))t[slot])(a...); }
static void* platOf(intptr_t* props) { for (; props && *props; props += 2) if (*props == 0x1084) return (void*)props[1]; return first(); }
API int clGetPlatformIDs(unsigned n, void** p, unsigned* r) { load(); return ids(n, p, r); }
API int clGetPlatformInfo(void* p, uintptr_t a, uintptr_t b, uintptr_t c, uintptr_t d) { return (int)(intptr_t)fwd(1, p ? p : first(), p, a, b, c, d); }
API void* clCreateContext(intptr_t* props, unsigned n, void** devs, void* cb, void* u, void* e) { return fwd(4, devs && n ? devs[0] : first(), props, n, devs, cb, u, e); }
API void* clCreateContextFromType(intptr_t* props, uint64_t t, void* cb, void* u, void* e) { return fwd(5, platOf(props), props, t, cb, u, e); }
API int clWaitForEvents(unsigned n, void** l) { return (int)(intptr_t)fwd(41, n && l ? l[0] : first(), n, l); }
API int clUnloadCompiler() { return (int)(intptr_t)fwd(31, first()); }
API void* clGetExtensionFunctionAddress(const char* s) { load(); return gext(s); }
API int clGetGLContextInfoKHR(intptr_t* props, unsigned a, size_t b, void* c, void* d) { return (int)(intptr_t)fwd(74, platOf(props), props, a, b, c, d); }
#define STUB(i, n) asm(".globl " #n "\n.type " #n ",@function\n" #n ":\n mov (%rdi),%rax\n jmp *" #i "*8(%rax)\n.size " #n ",.-" #n "\n");
STUB(2, clGetDeviceIDs)
STUB(3, clGetDeviceInfo)
STUB(6, clRetainContext)
STUB(7, clReleaseContext)
STUB(8, clGetContextInfo)
STUB(9, clCreateCommandQueue)
STUB(10, clRetainCommandQueue)
STUB(11, clReleaseCommandQueue)
STUB(12, clGetCommandQueueInfo)
STUB(13, clSetCommandQueueProperty)
STUB(14, clCreateBuffer)
STUB(15, clCreateImage2D)
STUB(16, clCreateImage3D)
STUB(17, clRetainMemObject)
STUB(18, clReleaseMemObject)
STUB(19, clGetSupportedImageFormats)
STUB(20, clGetMemObjectInfo)
STUB(21, clGetImageInfo)
STUB(22, clCreateSampler)
STUB(23, clRetainSampler)
STUB(24, clReleaseSampler)
STUB(25, clGetSamplerInfo)
STUB(26, clCreateProgramWithSource)
STUB(27, clCreateProgramWithBinary)
STUB(28, clRetainProgram)
STUB(29, clReleaseProgram)
STUB(30, clBuildProgram)
STUB(32, clGetProgramInfo)
STUB(33, clGetProgramBuildInfo)
STUB(34, clCreateKernel)
STUB(35, clCreateKernelsInProgram)
STUB(36, clRetainKernel)
STUB(37, clReleaseKernel)
STUB(38, clSetKernelArg)
STUB(39, clGetKernelInfo)
STUB(40, clGetKernelWorkGroupInfo)
STUB(42, clGetEventInfo)
STUB(43, clRetainEvent)
STUB(44, clReleaseEvent)
STUB(45, clGetEventProfilingInfo)
STUB(46, clFlush)
STUB(47, clFinish)
STUB(48, clEnqueueReadBuffer)
STUB(49, clEnqueueWriteBuffer)
STUB(50, clEnqueueCopyBuffer)
STUB(51, clEnqueueReadImage)
STUB(52, clEnqueueWriteImage)
STUB(53, clEnqueueCopyImage)
STUB(54, clEnqueueCopyImageToBuffer)
STUB(55, clEnqueueCopyBufferToImage)
STUB(56, clEnqueueMapBuffer)
STUB(57, clEnqueueMapImage)
STUB(58, clEnqueueUnmapMemObject)
STUB(59, clEnqueueNDRangeKernel)
STUB(60, clEnqueueTask)
STUB(61, clEnqueueNativeKernel)
STUB(62, clEnqueueMarker)
STUB(63, clEnqueueWaitForEvents)
STUB(64, clEnqueueBarrier)
STUB(66, clCreateFromGLBuffer)
STUB(67, clCreateFromGLTexture2D)
STUB(68, clCreateFromGLTexture3D)
STUB(69, clCreateFromGLRenderbuffer)
STUB(70, clGetGLObjectInfo)
STUB(71, clGetGLTextureInfo)
STUB(72, clEnqueueAcquireGLObjects)
STUB(73, clEnqueueReleaseGLObjects)
STUB(75, clGetDeviceIDsFromD3D10KHR)
STUB(76, clCreateFromD3D10BufferKHR)
STUB(77, clCreateFromD3D10Texture2DKHR)
STUB(78, clCreateFromD3D10Texture3DKHR)
STUB(79, clEnqueueAcquireD3D10ObjectsKHR)
STUB(80, clEnqueueReleaseD3D10ObjectsKHR)
STUB(81, clSetEventCallback)
STUB(82, clCreateSubBuffer)
STUB(83, clSetMemObjectDestructorCallback)
STUB(84, clCreateUserEvent)
STUB(85, clSetUserEventStatus)
STUB(86, clEnqueueReadBufferRect)
STUB(87, clEnqueueWriteBufferRect)
STUB(88, clEnqueueCopyBufferRect)
STUB(89, clCreateSubDevicesEXT)
STUB(90, clRetainDeviceEXT)
STUB(91, clReleaseDeviceEXT)
STUB(92, clCreateEventFromGLsyncKHR)
STUB(93, clCreateSubDevices)
STUB(94, clRetainDevice)
STUB(95, clReleaseDevice)
STUB(96, clCreateImage)
STUB(97, clCreateProgramWithBuiltInKernels)
STUB(98, clCompileProgram)
STUB(99, clLinkProgram)
STUB(100, clUnloadPlatformCompiler)
STUB(101, clGetKernelArgInfo)
STUB(102, clEnqueueFillBuffer)
STUB(103, clEnqueueFillImage)
STUB(104, clEnqueueMigrateMemObjects)
STUB(105, clEnqueueMarkerWithWaitList)
STUB(106, clEnqueueBarrierWithWaitList)
STUB(107, clGetExtensionFunctionAddressForPlatform)
STUB(108, clCreateFromGLTexture)
STUB(109, clGetDeviceIDsFromD3D11KHR)
STUB(110, clCreateFromD3D11BufferKHR)
STUB(111, clCreateFromD3D11Texture2DKHR)
STUB(112, clCreateFromD3D11Texture3DKHR)
STUB(113, clCreateFromDX9MediaSurfaceKHR)
STUB(114, clEnqueueAcquireD3D11ObjectsKHR)
STUB(115, clEnqueueReleaseD3D11ObjectsKHR)
STUB(116, clGetDeviceIDsFromDX9MediaAdapterKHR)
STUB(117, clEnqueueAcquireDX9MediaSurfacesKHR)
STUB(118, clEnqueueReleaseDX9MediaSurfacesKHR)
STUB(119, clCreateFromEGLImageKHR)
STUB(120, clEnqueueAcquireEGLObjectsKHR)
STUB(121, clEnqueueReleaseEGLObjectsKHR)
STUB(122, clCreateEventFromEGLSyncKHR)
STUB(123, clCreateCommandQueueWithProperties)
STUB(124, clCreatePipe)
STUB(125, clGetPipeInfo)
STUB(126, clSVMAlloc)
STUB(127, clSVMFree)
STUB(128, clEnqueueSVMFree)
STUB(129, clEnqueueSVMMemcpy)
STUB(130, clEnqueueSVMMemFill)
STUB(131, clEnqueueSVMMap)
STUB(132, clEnqueueSVMUnmap)
STUB(133, clCreateSamplerWithProperties)
STUB(134, clSetKernelArgSVMPointer)
STUB(135, clSetKernelExecInfo)
STUB(136, clGetKernelSubGroupInfoKHR)
STUB(137, clCloneKernel)
STUB(138, clCreateProgramWithIL)
STUB(139, clEnqueueSVMMigrateMem)
STUB(140, clGetDeviceAndHostTimer)
STUB(141, clGetHostTimer)
STUB(142, clGetKernelSubGroupInfo)
STUB(143, clSetDefaultDeviceCommandQueue)
STUB(144, clSetProgramReleaseCallback)
STUB(145, clSetProgramSpecializationConstant)
STUB(146, clCreateBufferWithProperties)
STUB(147, clCreateImageWithProperties)
STUB(148, clSetContextDestructorCallback)
