// Names of the entries of a vendor dispatch table in the order the Khronos ICD specification (cl_icd.h) gives them.
X(0, clGetPlatformIDs)
X(1, clGetPlatformInfo)
X(2, clGetDeviceIDs)
X(3, clGetDeviceInfo)
X(4, clCreateContext)
X(5, clCreateContextFromType)
X(6, clRetainContext)
X(7, clReleaseContext)
X(8, clGetContextInfo)
X(9, clCreateCommandQueue)
X(10, clRetainCommandQueue)
X(11, clReleaseCommandQueue)
X(12, clGetCommandQueueInfo)
X(13, clSetCommandQueueProperty)
X(14, clCreateBuffer)
X(15, clCreateImage2D)
X(16, clCreateImage3D)
X(17, clRetainMemObject)
X(18, clReleaseMemObject)
X(19, clGetSupportedImageFormats)
X(20, clGetMemObjectInfo)
X(21, clGetImageInfo)
X(22, clCreateSampler)
X(23, clRetainSampler)
X(24, clReleaseSampler)
X(25, clGetSamplerInfo)
X(26, clCreateProgramWithSource)
X(27, clCreateProgramWithBinary)
X(28, clRetainProgram)
X(29, clReleaseProgram)
X(30, clBuildProgram)
X(31, clUnloadCompiler)
X(32, clGetProgramInfo)
X(33, clGetProgramBuildInfo)
X(34, clCreateKernel)
X(35, clCreateKernelsInProgram)
X(36, clRetainKernel)
X(37, clReleaseKernel)
X(38, clSetKernelArg)
X(39, clGetKernelInfo)
X(40, clGetKernelWorkGroupInfo)
X(41, clWaitForEvents)
X(42, clGetEventInfo)
X(43, clRetainEvent)
X(44, clReleaseEvent)
X(45, clGetEventProfilingInfo)
X(46, clFlush)
X(47, clFinish)
X(48, clEnqueueReadBuffer)
X(49, clEnqueueWriteBuffer)
X(50, clEnqueueCopyBuffer)
X(51, clEnqueueReadImage)
X(52, clEnqueueWriteImage)
X(53, clEnqueueCopyImage)
X(54, clEnqueueCopyImageToBuffer)
X(55, clEnqueueCopyBufferToImage)
X(56, clEnqueueMapBuffer)
X(57, clEnqueueMapImage)
X(58, clEnqueueUnmapMemObject)
X(59, clEnqueueNDRangeKernel)
X(60, clEnqueueTask)
X(61, clEnqueueNativeKernel)
X(62, clEnqueueMarker)
X(63, clEnqueueWaitForEvents)
X(64, clEnqueueBarrier)
X(65, clGetExtensionFunctionAddress)
X(66, clCreateFromGLBuffer)
X(67, clCreateFromGLTexture2D)
X(68, clCreateFromGLTexture3D)
X(69, clCreateFromGLRenderbuffer)
X(70, clGetGLObjectInfo)
X(71, clGetGLTextureInfo)
X(72, clEnqueueAcquireGLObjects)
X(73, clEnqueueReleaseGLObjects)
X(74, clGetGLContextInfoKHR)
X(75, clGetDeviceIDsFromD3D10KHR)
X(76, clCreateFromD3D10BufferKHR)
X(77, clCreateFromD3D10Texture2DKHR)
X(78, clCreateFromD3D10Texture3DKHR)
X(79, clEnqueueAcquireD3D10ObjectsKHR)
X(80, clEnqueueReleaseD3D10ObjectsKHR)
X(81, clSetEventCallback)
X(82, clCreateSubBuffer)
X(83, clSetMemObjectDestructorCallback)
X(84, clCreateUserEvent)
X(85, clSetUserEventStatus)
X(86, clEnqueueReadBufferRect)
X(87, clEnqueueWriteBufferRect)
X(88, clEnqueueCopyBufferRect)
X(89, clCreateSubDevicesEXT)
X(90, clRetainDeviceEXT)
X(91, clReleaseDeviceEXT)
X(92, clCreateEventFromGLsyncKHR)
X(93, clCreateSubDevices)
X(94, clRetainDevice)
X(95, clReleaseDevice)
X(96, clCreateImage)
X(97, clCreateProgramWithBuiltInKernels)
X(98, clCompileProgram)
X(99, clLinkProgram)
X(100, clUnloadPlatformCompiler)
X(101, clGetKernelArgInfo)
X(102, clEnqueueFillBuffer)
X(103, clEnqueueFillImage)
X(104, clEnqueueMigrateMemObjects)
X(105, clEnqueueMarkerWithWaitList)
X(106, clEnqueueBarrierWithWaitList)
X(107, clGetExtensionFunctionAddressForPlatform)
X(108, clCreateFromGLTexture)
X(109, clGetDeviceIDsFromD3D11KHR)
X(110, clCreateFromD3D11BufferKHR)
X(111, clCreateFromD3D11Texture2DKHR)
X(112, clCreateFromD3D11Texture3DKHR)
X(113, clCreateFromDX9MediaSurfaceKHR)
X(114, clEnqueueAcquireD3D11ObjectsKHR)
X(115, clEnqueueReleaseD3D11ObjectsKHR)
X(116, clGetDeviceIDsFromDX9MediaAdapterKHR)
X(117, clEnqueueAcquireDX9MediaSurfacesKHR)
X(118, clEnqueueReleaseDX9MediaSurfacesKHR)
X(119, clCreateFromEGLImageKHR)
X(120, clEnqueueAcquireEGLObjectsKHR)
X(121, clEnqueueReleaseEGLObjectsKHR)
X(122, clCreateEventFromEGLSyncKHR)
X(123, clCreateCommandQueueWithProperties)
X(124, clCreatePipe)
X(125, clGetPipeInfo)
X(126, clSVMAlloc)
X(127, clSVMFree)
X(128, clEnqueueSVMFree)
X(129, clEnqueueSVMMemcpy)
X(130, clEnqueueSVMMemFill)
X(131, clEnqueueSVMMap)
X(132, clEnqueueSVMUnmap)
X(133, clCreateSamplerWithProperties)
X(134, clSetKernelArgSVMPointer)
X(135, clSetKernelExecInfo)
X(136, clGetKernelSubGroupInfoKHR)
X(137, clCloneKernel)
X(138, clCreateProgramWithIL)
X(139, clEnqueueSVMMigrateMem)
X(140, clGetDeviceAndHostTimer)
X(141, clGetHostTimer)
X(142, clGetKernelSubGroupInfo)
X(143, clSetDefaultDeviceCommandQueue)
X(144, clSetProgramReleaseCallback)
X(145, clSetProgramSpecializationConstant)
X(146, clCreateBufferWithProperties)
X(147, clCreateImageWithProperties)
X(148, clSetContextDestructorCallback)
