INV = "src/core/KernelInvocation.cpp"; WG = "src/core/WorkGroup.cpp"; WI = "src/core/WorkItem.cpp"; WB = "src/core/WorkItemBuiltins.cpp"; KN = "src/core/Kernel.cpp"; PR = "src/core/Program.cpp"; RT = "src/runtime/runtime.cpp"; UN = "src/plugins/Uninitialized.cpp"
KSH = r'''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; cd "$T"
export OCLGRIND_PCH_DIR=$R/_build/include/oclgrind LD_LIBRARY_PATH=$R/_build
'''
S = [
dict(id="c13-barrier-list", prop="C13",
  edits=[(RT, "  oclgrind::Command* cmd = new oclgrind::Command();\n  cmd->isBarrier = true;\n  cmd->waitForAll", "  oclgrind::Command* cmd = new oclgrind::Command();\n  cmd->isBarrier = num_events_in_wait_list == 0;\n  cmd->waitForAll")],
  needs="an out-of-order queue, a barrier with a wait list whose event is still pending, and a command enqueued after the barrier",
  breaks="commands after a barrier with a wait list run before the barrier",
  demo=r'''
int main(){ init(CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE); cl_int e; cl_event u=clCreateUserEvent(C,&e),b,w; int z=0,v=5; cl_mem m=buf(4,&z,0);
 CK(clEnqueueBarrierWithWaitList(Q,1,&u,&b)); CK(clEnqueueWriteBuffer(Q,m,CL_FALSE,0,4,&v,0,0,&w)); CK(clFlush(Q)); usleep(200000);
 cl_int s; CK(clGetEventInfo(w,CL_EVENT_COMMAND_EXECUTION_STATUS,4,&s,0)); EXPECT(s!=CL_COMPLETE,"the command after the barrier has completed"); CK(clSetUserEventStatus(u,CL_COMPLETE)); CK(clFinish(Q));
 int r; rd(m,&r,4); EXPECT(r==5,"%d",r); return 0; }'''),
dict(id="c14-image-buffer", prop="C14",
  edits=[(RT, "clReleaseMemObject(((cl_image*)memobj)->desc.buffer);", ";")],
  needs="an image created from a buffer, released before the buffer",
  breaks="releasing an image of a buffer does not give up its reference to the buffer",
  demo=r'''
int main(){ init(0); cl_mem m=buf(64,0,0); cl_image_format f={CL_R,CL_UNSIGNED_INT32}; cl_image_desc d; memset(&d,0,sizeof d); d.image_type=CL_MEM_OBJECT_IMAGE1D_BUFFER; d.image_width=16; d.buffer=m; cl_int e;
 cl_mem i=clCreateImage(C,CL_MEM_READ_WRITE,&f,&d,0,&e); CK(e); CK(clReleaseMemObject(i)); cl_uint n=0; CK(clGetMemObjectInfo(m,CL_MEM_REFERENCE_COUNT,4,&n,0)); EXPECT(n==1,"%u references",n); return 0; }'''),
dict(id="c18-null-options", prop="C18",
  edits=[(PR, "  m_buildOptions = options ? options : \"\";\n\n  // Create build log", "  if (options)\n    m_buildOptions = options;\n\n  // Create build log")],
  needs="a program built with options and built again with a NULL options string",
  breaks="the second build reports the options of the first",
  demo=r'''
int main(){ init(0); cl_program p=buildp("kernel void k(global int*o){*o=1;}","-DA=1"); CK(clBuildProgram(p,1,&D,0,0,0)); char b[99]="x"; CK(clGetProgramBuildInfo(p,D,CL_PROGRAM_BUILD_OPTIONS,99,b,0)); EXPECT(!*b,"options are '%s'",b); return 0; }'''),
dict(id="c18-library-flag", prop="C18",
  edits=[(PR, 'if (options && strstr(options, "-create-library"))', 'if (options && !strncmp(options, "-create-library", 15))')],
  needs="clLinkProgram with -create-library that is not the first option",
  breaks="the result is an executable instead of a library",
  demo=r'''
int main(){ init(0); const char*s="int f(int x){return x+1;}"; cl_int e; cl_program p=clCreateProgramWithSource(C,1,&s,0,&e); CK(clCompileProgram(p,1,&D,"",0,0,0,0,0));
 cl_program l=clLinkProgram(C,1,&D,"-enable-link-options -create-library",1,&p,0,0,&e); CK(e); cl_program_binary_type t=0; CK(clGetProgramBuildInfo(l,D,CL_PROGRAM_BINARY_TYPE,sizeof t,&t,0)); EXPECT(t==CL_PROGRAM_BINARY_TYPE_LIBRARY,"type %u",t); return 0; }'''),
dict(id="c21-byte-width", prop="C21", env={"OCLGRIND_INST_COUNTS": "1"},
  edits=[("src/plugins/InstructionCounter.cpp", "    m_memopBytes[i] += m_state.memopBytes->at(i);", "    m_memopBytes[i] += (unsigned char)m_state.memopBytes->at(i);")],
  needs="one work-group that moves 256 bytes or more",
  breaks="the bytes of a work-group's memory operations are counted modulo 256",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(global int*o){o[get_global_id(0)]=1;}",""),"k"); cl_mem m=buf(400,0,0); ARG(k,0,m); fflush(stdout); FILE*t=tmpfile(); int old=dup(1); dup2(fileno(t),1); run1(k,100,100); clReleaseKernel(k); fflush(stdout); dup2(old,1);
 char b[5000]={0}; if(pread(fileno(t),b,4999,0)<0){} if(!strstr(b,"store")){ clReleaseContext(C);} EXPECT(strstr(b,"(400 bytes)"),"%s",b); return 0; }'''),
dict(id="c08-insertvalue", prop="C08", env={"OCLGRIND_UNINITIALIZED": "1"},
  edits=[(UN, "    if (name.compare(0, 7, \"vstorea\") == 0 && num == 3)", "    if (name.compare(0, 7, \"vstorea\") == 0 && num == 4)")],
  needs="vstorea_half3 of a value that was never written at an index other than 0",
  breaks="the shadow of three-element aligned half stores is put at the wrong place",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(global half*h,global float*f,global int*o,int i){ float3 v=vload3(0,f); vstorea_half3(v,i,h); if(vload_half(4*i,h)==1.0f) o[0]=1; }",""),"k");
 cl_mem h=buf(64,0,0),f=buf(16,0,0),o=buf(4,0,0); int i=2; ARG(k,0,h); ARG(k,1,f); ARG(k,2,o); ARG(k,3,i); cap_begin(); run1(k,1,1); char*s=cap_end(); EXPECT(strstr(s,"ninitialized"),"not reported: %s",s); return 0; }'''),
dict(id="c23-printf-v16", prop="C23",
  edits=[(WB, "              vectorWidth = 16;\n              formatPtr++;", "              vectorWidth = 16;\n              formatPtr += formatPtr[1] != 'h';")],
  needs="printf of a sixteen-element vector with a length modifier that begins with h",
  breaks="the conversion is misread",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(int a){ int16 v=(int16)(a); v.sf=9; printf(\"<%v16hld>\\n\",v);}",""),"k"); int a=3; ARG(k,0,a); fflush(stdout); FILE*t=tmpfile(); int old=dup(1); dup2(fileno(t),1); run1(k,1,1); fflush(stdout); dup2(old,1);
 char b[999]={0}; if(pread(fileno(t),b,998,0)<0){} EXPECT(!strcmp(b,"<3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,9>\n"),"%s",b); return 0; }'''),
dict(id="c11-remquo", prop="C11",
  edits=[(WB, "double t = fmod(fabs(x), 128.0 * absy);", "double t = fmod(fabs(x), 64.0 * absy);")],
  needs="remquo whose integral quotient has bit 6 set",
  breaks="bit 6 of the quotient is lost",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(global float*x,global int*q){ int t; x[2]=remquo(x[0],x[1],&t); *q=t;}",""),"k"); float v[3]={200,2,0}; cl_mem x=buf(12,v,0),q=buf(4,0,0); ARG(k,0,x); ARG(k,1,q); run1(k,1,1); int r; rd(q,&r,4); EXPECT((r&0x7f)==100,"quotient %d",r); return 0; }'''),
dict(id="c09-switch64", prop="C09",
  edits=[(WI, "if (C.getCaseValue()->getZExtValue() == val)", "if ((uint32_t)C.getCaseValue()->getZExtValue() == (uint32_t)val)")],
  needs="a switch on a 64-bit value that equals a case only in its low half",
  breaks="the wrong case is taken",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(global int*o,long a){ switch(a){ case 3: o[0]=1; break; case 70: o[1]=7; break; case 900000: o[2]=5; break; case -77: o[4]=5; break; default: o[3]=2; } }",""),"k"); int z[5]={0}; cl_mem m=buf(20,z,0); long a=0x500000003l; ARG(k,0,m); ARG(k,1,a); run1(k,1,1); int r[5]; rd(m,r,20); EXPECT(r[0]==0&&r[3]==2,"%d %d",r[0],r[3]); return 0; }'''),
dict(id="c16-reqd-byte", prop="C16",
  edits=[(KN, "        reqdWorkGroupSize[j] = getMDAsConstInt(md)->getZExtValue();", "        reqdWorkGroupSize[j] = (unsigned char)getMDAsConstInt(md)->getZExtValue();")],
  needs="a kernel whose required work-group size is 256 or more in one dimension",
  breaks="the required size is compared modulo 256",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel __attribute__((reqd_work_group_size(260,1,1))) void k(global int*o){o[0]=1;}",""),"k"); cl_mem m=buf(4,0,0); ARG(k,0,m); size_t g=520,l=4; EXPECT(run(k,1,0,&g,&l)==CL_INVALID_WORK_GROUP_SIZE,"4 accepted"); l=260; EXPECT(run(k,1,0,&g,&l)==CL_SUCCESS,"260 refused"); return 0; }'''),
dict(id="c27-read-write", prop="C27",
  edits=[(KN, '  else if (access == "read_write")\n  {\n    return CL_KERNEL_ARG_ACCESS_READ_WRITE;', '  else if (access == "read_write")\n  {\n    return CL_KERNEL_ARG_ACCESS_NONE;')],
  needs="clGetKernelArgInfo on an OpenCL C 2.0 read_write image",
  breaks="the access qualifier of read_write images is reported as none",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(read_write image2d_t i, global int*o){}","-cl-std=CL2.0 -cl-kernel-arg-info"),"k"); cl_kernel_arg_access_qualifier a=0; CK(clGetKernelArgInfo(k,0,CL_KERNEL_ARG_ACCESS_QUALIFIER,sizeof a,&a,0)); EXPECT(a==CL_KERNEL_ARG_ACCESS_READ_WRITE,"%x",a); return 0; }'''),
dict(id="c28-static-size", prop="C28",
  edits=[(INV, "  Size3 wgsize = m_localSize;", "  static Size3 wgsize;\n  wgsize = m_localSize;")],
  needs="two contexts launching kernels at once whose work-group sizes differ and do not divide the global sizes",
  breaks="the size of a remainder work-group of one context is taken from the other's",
  demo=r'''
#include <pthread.h>
static volatile int go, bad; static const char*src="kernel void k(global int*o){ o[get_global_id(0)]=get_local_size(0);}";
static void*th(void*a){ long id=(long)a; cl_int e; cl_context c=clCreateContext(0,1,&D,0,0,&e); cl_command_queue q=clCreateCommandQueue(c,D,0,&e); cl_program p=clCreateProgramWithSource(c,1,&src,0,&e); clBuildProgram(p,1,&D,"-cl-std=CL2.0",0,0); cl_kernel k=clCreateKernel(p,"k",&e); size_t g=4001,l=id?2:3; cl_mem m=clCreateBuffer(c,0,g*4,0,&e); clSetKernelArg(k,0,sizeof m,&m); static int r[2][4001]; __sync_fetch_and_add(&go,1); while(go<2);
 for(int n=0;n<20&&!bad;n++){ if(clEnqueueNDRangeKernel(q,k,1,0,&g,&l,0,0,0)) bad=2; clEnqueueReadBuffer(q,m,1,0,g*4,r[id],0,0,0); for(size_t i=0;i<g;i++){ size_t w=i/l*l+l>g?g-i/l*l:l; if(r[id][i]!=(int)w) bad=1; } } return 0; }
int main(){ CK(clGetPlatformIDs(1,&P,0)); CK(clGetDeviceIDs(P,CL_DEVICE_TYPE_ALL,1,&D,0)); for(int n=0;n<3&&!bad;n++){ go=0; pthread_t t[2]; for(long i=0;i<2;i++) pthread_create(t+i,0,th,(void*)i); for(int i=0;i<2;i++) pthread_join(t[i],0);} EXPECT(!bad,"wrong size seen (%d)",bad); return 0; }'''),
dict(id="c12-mirror", prop="C12",
  edits=[(WB, "*c1 = *c0 + 1;\n      *c0 = _max_(*c0, 0);", "*c1 = *c0 + 1;\n      *c0 = _max_(*c0, 1) - (*c0 < 1 ? 0 : 0);")],
  needs="a linearly filtered read between the first two texels with the mirrored-repeat addressing mode",
  breaks="the first texel is left out",
  demo=r'''
int main(){ init(0); cl_image_format f={CL_R,CL_FLOAT}; cl_image_desc d; memset(&d,0,sizeof d); d.image_type=CL_MEM_OBJECT_IMAGE2D; d.image_width=4; d.image_height=1; float t[4]={1,3,7,20}; cl_int e; cl_mem i=clCreateImage(C,CL_MEM_READ_ONLY|CL_MEM_COPY_HOST_PTR,&f,&d,t,&e); CK(e);
 cl_kernel k=kern(buildp("constant sampler_t s=CLK_NORMALIZED_COORDS_TRUE|CLK_ADDRESS_MIRRORED_REPEAT|CLK_FILTER_LINEAR; kernel void k(read_only image2d_t i,global float*o,float x){ *o=read_imagef(i,s,(float2)(x,0.5f)).x; }",""),"k"); cl_mem o=buf(4,0,0); float x=0.25f,r; ARG(k,0,i); ARG(k,1,o); ARG(k,2,x); run1(k,1,1); rd(o,&r,4); EXPECT(fabs(r-2)<1e-3,"%f",r); return 0; }'''),
dict(id="c24-comment", prop="C24",
  edits=[("src/kernel/Simulation.cpp", "line.find_first_of('#')", "line.find_last_of('#')")],
  needs="a line of a simulator file with two comment characters",
  breaks="the text between them is read as data",
  sh=KSH+r'''
echo 'kernel void k(global int*o){ *o = 5; }' > a.cl
printf 'a.cl # the program # and more\nk\n1 1 1\n1 1 1\n<size=4 fill=0 dump>\n' > a.sim
timeout 60 $R/_build/oclgrind-kernel a.sim > out 2>&1 || { cat out; exit 1; }
grep -q '5' out || { cat out; exit 1; }
'''),
dict(id="c22-backtrace-number", prop="C22",
  edits=[("src/plugins/InteractiveDebugger.cpp", '"#" << callStack.size() << " ";', '"#" << callStack.size() + (callStack.size() > 1) << " ";')],
  needs="a backtrace two or more calls deep",
  breaks="the innermost frame gets the wrong number",
  sh=KSH+r'''
printf '__attribute__((noinline)) void g(global int*o)\n{\n  o[1] = 3;\n}\n__attribute__((noinline)) void f(global int*o)\n{\n  g(o);\n  o[2] = 4;\n}\nkernel void k(global int*o)\n{\n  f(o);\n  o[0] = 2;\n}\n' > a.cl
printf 'a.cl\nk\n1 1 1\n1 1 1\n<size=20 fill=0>\n' > a.sim
printf 'b 3\nc\nbt\nc\n' | OCLGRIND_INTERACTIVE=1 timeout 60 $R/_build/oclgrind-kernel a.sim > out 2>&1
grep -q '^#2 g(' out && grep -q '^#1 f(' out && grep -q '^#0 k(' out || { cat out; exit 1; }
'''),
dict(id="c15-map-offset", prop="C15",
  edits=[("src/core/Memory.cpp", "return m_memory[buffer]->data + offset + extractOffset(address);", "return m_memory[buffer]->data + offset;")],
  needs="mapping a sub-buffer",
  breaks="the mapped pointer is that of the parent buffer",
  demo=r'''
int main(){ init(0); unsigned char d[512]; for(int i=0;i<512;i++) d[i]=i/2; cl_mem m=buf(512,d,0); cl_buffer_region r={256,64}; cl_int e; cl_mem s=clCreateSubBuffer(m,0,CL_BUFFER_CREATE_TYPE_REGION,&r,&e); CK(e); unsigned char*p=clEnqueueMapBuffer(Q,s,1,CL_MAP_READ,4,8,0,0,0,&e); CK(e); EXPECT(p[0]==130,"%d",p[0]); return 0; }'''),
dict(id="c01-remainder-first", prop="C01",
  edits=[(INV, "if (wgsize[i] * (groupID[i] + 1) > m_globalSize[i])", "if (groupID[i] && wgsize[i] * (groupID[i] + 1) > m_globalSize[i])")],
  needs="an OpenCL 2.0 launch whose work-group is larger than the global size in one dimension",
  breaks="the first work-group of a dimension runs work-items beyond the global size",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(global int*o){ atomic_inc(o); }","-cl-std=CL2.0"),"k"); int z=0,r; cl_mem m=buf(4,&z,0); ARG(k,0,m); size_t g=3,l=4; CK(run(k,1,0,&g,&l)); rd(m,&r,4); EXPECT(r==3,"%d work-items",r); return 0; }'''),
dict(id="c19-maxerr", prop="C19", env={"OCLGRIND_MAX_ERRORS": "2"},
  edits=[("src/plugins/Logger.cpp", "    if (m_numErrors++ >= m_maxErrors)", "    if (m_numErrors++ > m_maxErrors)")],
  needs="more errors than the configured limit",
  breaks="one error too many is shown",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void k(global int*o){ for(int i=0;i<5;i++) o[10+i*get_local_size(0)]=1; }",""),"k"); cl_mem m=buf(4,0,0); ARG(k,0,m); cap_begin(); run1(k,1,1); char*s=cap_end(); int n=occurrences(s,"Invalid write"); EXPECT(n==2,"%d errors shown",n); return 0; }'''),
dict(id="c07-write-overlap", prop="C07",
  edits=[("src/plugins/MemCheck.cpp", "        address + size > region->address)\n    {\n      m_context->logError(\"Invalid write to mapped buffer\");", "        address >= region->address)\n    {\n      m_context->logError(\"Invalid write to mapped buffer\");")],
  needs="a kernel store that begins before a mapped region and reaches into it",
  breaks="the store is not reported",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void f(global int4*p){ p[0]=(int4)(1);}",""),"f"); int z[8]={0}; cl_mem m=buf(32,z,0); ARG(k,0,m); cl_int e; clEnqueueMapBuffer(Q,m,1,CL_MAP_READ,8,8,0,0,0,&e); CK(e); cap_begin(); run1(k,1,1); char*s=cap_end(); EXPECT(strstr(s,"Invalid write to mapped"),"not reported"); return 0; }'''),
dict(id="c05-not-cleared", prop="C05", env={"OCLGRIND_DATA_RACES": "1"},
  edits=[("src/plugins/RaceDetector.cpp", "    buffer.second.clear();\n    buffer.second.resize(sz);", "    buffer.second.resize(sz);")],
  needs="two kernels one after the other whose work-items touch the same location in different ways",
  breaks="accesses of the previous kernel are taken for concurrent ones",
  demo=r'''
int main(){ init(0); cl_program p=buildp("kernel void a(global int*o){ if(get_global_id(0)==0) o[0]=1; } kernel void b(global int*o){ if(get_global_id(0)==3) o[1]=o[0]; }",""); cl_kernel a=kern(p,"a"),b=kern(p,"b"); int z[4]={0}; cl_mem m=buf(16,z,0); ARG(a,0,m); ARG(b,0,m); cap_begin(); run1(a,4,1); run1(b,4,1); char*s=cap_end(); EXPECT(!strstr(s,"data race"),"%s",s); return 0; }'''),
]
