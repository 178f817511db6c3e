S = [
dict(id="c10-mulhi-long", prop="C10",
  edits=[("src/core/WorkItemBuiltins.cpp", "int64_t a = xhyl + ((xlyl >> 32) & UINT32_MAX);", "int64_t a = xhyl + (xlyl >> 32);")],
  needs="mul_hi/mad_hi/mad_sat on long whose low 32x32 product has its top bit set",
  breaks="signed 64-bit high product loses 2^32 when the low partial product is negative as int64",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void f(global long*p){p[2]=mul_hi(p[0],p[1]);}",""),"f");
 long v[3]={0x00000003fffffff0l,0x00000002fffffff1l,0}; cl_mem m=buf(24,v,0); ARG(k,0,m); run1(k,1,1); long r[3]; rd(m,r,24);
 long w=(long)(((__int128)v[0]*v[1])>>64); EXPECT(r[2]==w,"mul_hi %lx expected %lx",r[2],w); return 0; }'''),
dict(id="c15-fillimage-slice", prop="C15",
  edits=[("src/core/Queue.cpp", "                         (cmd->origin[2] + z) * cmd->slicePitch;", "                         cmd->origin[2] * cmd->slicePitch +\n                         z * cmd->region[1] * cmd->rowPitch;")],
  needs="clEnqueueFillImage on a 3D image or array with more than one slice and a region that does not cover all rows",
  breaks="slices after the first are filled at the wrong rows",
  demo=r'''
int main(){ init(0); cl_image_format f={CL_R,CL_UNSIGNED_INT32}; cl_image_desc d={CL_MEM_OBJECT_IMAGE3D,3,4,3}; cl_int e;
 cl_mem m=clCreateImage(C,CL_MEM_READ_WRITE,&f,&d,0,&e); CK(e); unsigned z[4]={0},c[4]={7}; size_t o0[3]={0,0,0},r0[3]={3,4,3},o[3]={1,1,1},r[3]={2,2,2};
 CK(clEnqueueFillImage(Q,m,z,o0,r0,0,0,0)); CK(clEnqueueFillImage(Q,m,c,o,r,0,0,0)); unsigned out[36]; CK(clEnqueueReadImage(Q,m,1,o0,r0,0,0,out,0,0,0));
 for(int i=0;i<36;i++){int x=i%3,y=i/3%4,zz=i/12; unsigned w=(x>=1&&y>=1&&y<3&&zz>=1)?7:0; EXPECT(out[i]==w,"texel %d,%d,%d is %u",x,y,zz,out[i]);} return 0; }'''),
dict(id="c05-atomic-then-plain", prop="C05",
  edits=[("src/plugins/RaceDetector.cpp", "    if (!record.load.isSet() || record.load.isAtomic())\n", "    if (!record.load.isSet())\n")],
  needs="one work-item that first reads a location atomically and then plainly, while another updates it atomically",
  breaks="the plain load is forgotten behind the atomic one and the race is not reported",
  env={"OCLGRIND_DATA_RACES": "1"},
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void f(global int*p,volatile global int*q){ if(get_global_id(0)==0){ int a=atomic_cmpxchg(q,99,99); p[0]=a+*q; } else atomic_add(q,1);}",""),"f");
 cl_mem m=buf(8,0,0),n=buf(8,0,0); ARG(k,0,m); ARG(k,1,n); cap_begin(); run1(k,2,1); char*s=cap_end(); EXPECT(strstr(s,"data race"),"race not reported: %s",s); return 0; }'''),
dict(id="c07-map-rw", prop="C07",
  edits=[("src/plugins/MemCheck.cpp", "(flags == CL_MAP_READ ? MapRegion::READ", "((flags & CL_MAP_READ) ? MapRegion::READ")],
  needs="a buffer mapped for reading and writing at once while a kernel reads it",
  breaks="a kernel read from a region the host may be writing is not reported",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void f(global int*p,global int*q){ *q=p[1];}",""),"f");
 cl_mem m=buf(16,"0123456789abcdef",0),n=buf(8,0,0); ARG(k,0,m); ARG(k,1,n); cl_int e; clEnqueueMapBuffer(Q,m,1,CL_MAP_READ|CL_MAP_WRITE,0,16,0,0,0,&e); CK(e);
 cap_begin(); run1(k,1,1); char*s=cap_end(); EXPECT(strstr(s,"mapped for writing"),"not reported"); return 0; }'''),
dict(id="c01-local-linear", prop="C01",
  edits=[("src/core/WorkItemBuiltins.cpp", "    Size3 localSize = workItem->m_workGroup->getGroupSize();\n    size_t r = (localID.z * localSize.y", "    Size3 localSize = workItem->m_kernelInvocation->getLocalSize();\n    size_t r = (localID.z * localSize.y")],
  needs="OpenCL 2.0, a work-group size that does not divide the global size, two or more dimensions",
  breaks="get_local_linear_id uses the enqueued size in remainder work-groups",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void f(global int*p){ p[get_global_id(1)*5+get_global_id(0)]=get_local_linear_id();}","-cl-std=CL2.0"),"f");
 cl_mem m=buf(60,0,0); ARG(k,0,m); size_t g[2]={5,3},l[2]={2,2}; CK(run(k,2,0,g,l)); int r[15]; rd(m,r,60);
 for(int y=0;y<3;y++)for(int x=0;x<5;x++){int sx=x<4?2:1; int w=(y%2)*sx+x%2; EXPECT(r[y*5+x]==w,"%d,%d: %d expected %d",x,y,r[y*5+x],w);} return 0; }'''),
dict(id="c04-async-stride", prop="C04",
  edits=[("src/core/WorkGroup.cpp", "        dest += itr->destStride * itr->size;", "        dest += itr->srcStride * itr->size;")],
  needs="a strided asynchronous copy (different source and destination strides)",
  breaks="elements of strided copies land at the wrong place when the event has been waited for",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void f(global int*p,local int*l){ for(int i=0;i<4;i++) l[i]=i+1; event_t e=async_work_group_strided_copy(p,l,(size_t)4,(size_t)3,0); wait_group_events(1,&e);}",""),"f");
 int z[16]={0}; cl_mem m=buf(64,z,0); ARG(k,0,m); CK(clSetKernelArg(k,1,16,0)); run1(k,2,2); int r[16]; rd(m,r,64);
 for(int i=0;i<16;i++){int w=(i%3==0&&i<12)?i/3+1:0; EXPECT(r[i]==w,"p[%d]=%d",i,r[i]);} return 0; }'''),
dict(id="c06-offbyone-reused", prop="C06",
  edits=[("src/core/Memory.cpp", "  if (buffer == 0 || buffer >= m_memory.size() || !m_memory[buffer] ||\n      offset + size > m_memory[buffer]->size)", "  if (buffer == 0 || buffer >= m_memory.size() || !m_memory[buffer] ||\n      offset >= m_memory[buffer]->size ||\n      (size < 16 && offset + size > m_memory[buffer]->size))")],
  needs="an access of 16 bytes or more that starts inside an object and crosses its end",
  breaks="large vector accesses that start inside the object are accepted although they cross its end",
  demo=r'''
int main(){ init(0); cl_kernel k=kern(buildp("kernel void f(global int*p,global int4*q){ *q=*(global int4*)(p+4);}",""),"f");
 int z[8]={0}; cl_mem m=buf(20,z,0),n=buf(16,0,0); ARG(k,0,m); ARG(k,1,n); cap_begin(); run1(k,1,1); char*s=cap_end(); EXPECT(strstr(s,"Invalid read of size 16"),"not reported"); return 0; }'''),
]
