RT = "src/runtime/runtime.cpp"
S = [
dict(id="c29-sampler-table", prop="C29",
  edits=[(RT, "  sampler->dispatch = m_dispatchTable;\n  sampler->context = context;\n  sampler->normCoords = normalized_coords;\n  sampler->addressMode = addressing_mode;\n  sampler->filterMode = filter_mode;\n  sampler->sampler = bitfield;\n  sampler->refCount = 1;\n  if", "  sampler->context = context;\n  sampler->normCoords = normalized_coords;\n  sampler->addressMode = addressing_mode;\n  sampler->filterMode = filter_mode;\n  sampler->sampler = bitfield;\n  sampler->refCount = 1;\n  if")],
  needs="a host program that reaches the runtime through an ICD loader and uses a sampler",
  breaks="samplers carry no dispatch table, so an ICD loader cannot forward calls on them",
  demo=r'''
int main(){ init(0); cl_int e; cl_sampler s=clCreateSamplerWithProperties(C,0,&e); CK(e); EXPECT(*(void**)s && *(void**)s==*(void**)C,"the sampler has another dispatch table than its context"); return 0; }'''),
dict(id="c29-sampler-entries", prop="C29",
  edits=[(RT, "  DISPATCH_TABLE_ENTRY(clRetainSampler),\n  DISPATCH_TABLE_ENTRY(clReleaseSampler),", "  DISPATCH_TABLE_ENTRY(clReleaseSampler),\n  DISPATCH_TABLE_ENTRY(clRetainSampler),")],
  needs="a host program that reaches the runtime through an ICD loader and retains a sampler",
  breaks="two entries of the dispatch table are swapped",
  demo=r"""
#include <CL/cl_icd.h>
int main(){ init(0); cl_int e; cl_icd_dispatch*t=*(cl_icd_dispatch**)C; cl_sampler s=clCreateSampler(C,CL_FALSE,CL_ADDRESS_NONE,CL_FILTER_NEAREST,&e); CK(e); CK(t->clRetainSampler(s)); cl_uint n=0; CK(clGetSamplerInfo(s,CL_SAMPLER_REFERENCE_COUNT,4,&n,0)); EXPECT(n==2,"%u references",n); return 0; }"""),
]
