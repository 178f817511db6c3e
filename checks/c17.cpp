// C17: kernel arguments. All bounded histories of set-argument / enqueue / clone / release / finish over two kernel objects
// and a clone, all argument types in all positions, and all small layouts of local memory, run on the real runtime.
#include "vf.hpp"
#include <algorithm>
using namespace vf;
static CL* cl; static Capture* err_;
static bool quiet(const char* key) { string s = err_->get(); if (s.empty()) return true; R->fail(key, "unexpected report: " + s.substr(0, 800)); return false; }
template <class T> static cl_int setArg(cl_kernel k, int i, T v) { cl_int e = clSetKernelArg(k, i, sizeof(T), &v); memset(&v, 0x5A, sizeof v); asm volatile("" ::"r"(&v) : "memory"); return e; }

// ---- histories
struct St { char c; int i; cl_long2 v; };
enum { OUT, TAG, IN, LOC, STR, IMG, SMP, VEC, CON, NARG };
static const char* src =
  "typedef struct { char c; int i; long2 v; } S; typedef struct { int tag, in, con, st, st2, img, smp, vec, loc; } Rec;\n"
  "__kernel void k(__global Rec *out, short tag, __global int *in, __local int *l, S s, __read_only image2d_t im, sampler_t sm, float3 v, __constant int *cc) {\n"
  " int slot = get_global_offset(0); int lid = get_local_id(0); __global Rec *r = out + slot; l[lid] = lid + slot; barrier(CLK_LOCAL_MEM_FENCE);\n"
  " if (lid) return; r->tag = tag; r->in = in ? in[1] : -1; r->con = cc ? cc[1] : -1; r->st = s.c + s.i; r->st2 = s.v.x + s.v.y; r->img = read_imagei(im, sm, (int2)(1, 0)).x; r->smp = read_imagei(im, sm, (int2)(-1, 0)).x; r->vec = v.x + v.y * 10 + v.z * 100; r->loc = l[0] + l[1]; }\n";
struct Rec { int tag, in, con, st, st2, img, smp, vec, loc; };
struct Model { bool live; int a[NARG]; };
static cl_mem out[2], bufs[3], cons[2], imgs[2]; static cl_sampler smps[2];
static cl_int set(cl_kernel k, int arg, int v)
{
  switch (arg)
  {
  case OUT: return setArg(k, OUT, out[v]);
  case TAG: return setArg<cl_short>(k, TAG, v ? -7 : 300);
  case IN: if (v == 3) return clSetKernelArg(k, IN, sizeof(cl_mem), 0); return setArg<cl_mem>(k, IN, v == 2 ? 0 : bufs[v]);
  case LOC: return clSetKernelArg(k, LOC, v ? 16 : 8, 0);
  case STR: { St s; memset(&s, 0x77, sizeof s); s.c = v ? -3 : 9; s.i = v ? 1000 : 2000; s.v.s[0] = v ? 50 : 60; s.v.s[1] = v ? 500 : -600; return setArg(k, STR, s); }
  case IMG: return setArg(k, IMG, imgs[v]);
  case SMP: return setArg(k, SMP, smps[v]);
  case VEC: { cl_float3 f; f.s[0] = v ? 1 : 4; f.s[1] = v ? 2 : 5; f.s[2] = v ? 3 : 6; f.s[3] = 99; return setArg(k, VEC, f); }
  case CON: return setArg<cl_mem>(k, CON, v == 2 ? 0 : cons[v]);
  }
  return -1;
}
static Rec expect(const int* a, int slot)
{
  static const int in[] = {12, 22, -1, -1};
  Rec r; r.tag = a[TAG] ? -7 : 300; r.in = in[a[IN]]; r.con = a[CON] == 2 ? -1 : a[CON] ? 42 : 32; r.st = a[STR] ? 997 : 2009; r.st2 = a[STR] ? 550 : -540; r.img = a[IMG] ? 202 : 102;
  r.smp = a[SMP] ? (a[IMG] ? 201 : 101) : 0; r.vec = a[VEC] ? 321 : 654; r.loc = 2 * slot + 1; return r;
}
static string show(const Rec& r) { return fmt("tag=%d in=%d con=%d struct=%d,%d image=%d,%d vec=%d local=%d", r.tag, r.in, r.con, r.st, r.st2, r.img, r.smp, r.vec, r.loc); }
enum { MAXSLOT = 24 };
static void badSet(cl_kernel k, int which)
{ // rejected calls that may not change anything
  cl_int e; int x = 5; cl_mem m = bufs[0];
  switch (which)
  {
  case 0: e = clSetKernelArg(k, TAG, 4, &x); break;
  case 1: e = clSetKernelArg(k, IMG, sizeof(cl_mem), &m); break;
  case 2: e = clSetKernelArg(k, STR, sizeof(St) - 1, &x); break;
  case 3: e = clSetKernelArg(k, NARG, 4, &x); break;
  case 4: m = imgs[0]; e = clSetKernelArg(k, IN, sizeof(cl_mem), &m); break;
  default: e = clSetKernelArg(k, VEC, 12, &x);
  }
  if (e == CL_SUCCESS) R->fail("bad-set-accepted", fmt("malformed clSetKernelArg %d succeeds", which));
}
static cl_program prog;
// one action per character: a..i toggle argument of K1, A..I of K2, 1 2 3 enqueue K1 K2 clone, C clone K1, D clone K2, x y z release, f finish, u w rejected sets, n m NULL buffer of K1 K2, s S sub-buffer
static void runHist(const string& h)
{
  vector<uint8_t> zero(sizeof(Rec) * MAXSLOT, 0xEE); for (auto o : out) cl->write(o, zero.data(), zero.size());
  err_->clear(); cl_kernel K[3] = {cl->kernel(prog, "k"), cl->kernel(prog, "k"), 0}; Model M[3]; memset(M, 0, sizeof M);
  for (int i = 0; i < 2; i++) { M[i].live = true; for (int a = 0; a < NARG; a++) { M[i].a[a] = i; CK(set(K[i], a, i)); } }
  struct Pend { int a[NARG]; int slot; }; vector<Pend> done; int slot = 0; string full = h + "123f"; bool two = false;
  for (char c : full)
  {
    R->count("transitions"); int k = -1, a = -1;
    if (c >= 'a' && c <= 'i') k = 0, a = c - 'a'; else if (c >= 'A' && c <= 'I') k = 1, a = c - 'A'; else if (c >= 'p' && c <= 't') { k = 2; static const int m[] = {TAG, IN, STR, IMG, LOC}; a = m[c - 'p']; }
    if (a >= 0) { if (!M[k].live) continue; int v = M[k].a[a] ? 0 : 1; if (M[k].a[a] >= 2) v = 0; cl_int e = set(K[k], a, v); if (e) { R->fail("set", fmt("clSetKernelArg gives %d", e)); return; } M[k].a[a] = v; continue; }
    switch (c)
    {
    case '1': case '2': case '3':
    {
      k = c - '1'; if (!M[k].live) break; Pend p; memcpy(p.a, M[k].a, sizeof p.a); p.slot = slot; size_t off = slot, g = 2; slot++;
      cl_int e = clEnqueueNDRangeKernel(cl->q, K[k], 1, &off, &g, &g, 0, 0, 0); if (e) { R->fail("enqueue", fmt("clEnqueueNDRangeKernel gives %d", e)); return; } done.push_back(p); break;
    }
    case 'X': case 'Y':
    {
      k = c - 'X'; if (!M[k].live || K[2]) break; cl_int e; K[2] = clCloneKernel(K[k], &e); if (e || !K[2]) { R->fail("clone", fmt("clCloneKernel gives %d", e)); return; } M[2] = M[k]; break;
    }
    case 'x': case 'y': case 'z': k = c - 'x'; if (!M[k].live) break; clReleaseKernel(K[k]); M[k].live = false; break;
    case 'f': CK(clFinish(cl->q)); break;
    case 'u': if (M[0].live) for (int i = 0; i < 6; i++) badSet(K[0], i); break;
    case 'n': if (M[0].live) { int v = two ? 3 : 2; two = !two; CK(set(K[0], IN, v)); M[0].a[IN] = v; } break;
    case 'm': if (M[1].live) { CK(set(K[1], CON, 2)); M[1].a[CON] = 2; } break;
    default: R->internal("bad action");
    }
  }
  for (int k = 0; k < 3; k++) if (M[k].live) clReleaseKernel(K[k]);
  vector<Rec> got[2]; for (int o = 0; o < 2; o++) { got[o].resize(MAXSLOT); cl->read(out[o], got[o].data(), sizeof(Rec) * MAXSLOT); }
  for (auto& p : done)
    for (int o = 0; o < 2; o++)
    {
      Rec w, g = got[o][p.slot]; if (o == p.a[OUT]) w = expect(p.a, p.slot); else memset(&w, 0xEE, sizeof w);
      if (memcmp(&w, &g, sizeof w)) { R->fail("hist-args", fmt("history %s: launch %d wrote to buffer %d: %s; expected %s", full.c_str(), p.slot, o, show(g).c_str(), show(w).c_str())); return; }
    }
  quiet("hist-report"); R->count("traces_validated_against_impl");
}
static void histMode()
{
  prog = cl->build(src); cl_int e; vector<uint8_t> z(sizeof(Rec) * MAXSLOT); for (auto& o : out) o = cl->buf(z.size(), z.data());
  int b0[4] = {11, 12, 13, 14}, b1[8] = {0, 0, 0, 0, 21, 22, 23, 24}, c0[2] = {31, 32}, c1[2] = {41, 42}; bufs[0] = cl->buf(16, b0); cl_mem parent = cl->buf(32, b1);
  cl_buffer_region rg = {16, 16}; bufs[1] = clCreateSubBuffer(parent, CL_MEM_READ_WRITE, CL_BUFFER_CREATE_TYPE_REGION, &rg, &e); CK(e); cons[0] = cl->buf(8, c0); cons[1] = cl->buf(8, c1);
  cl_image_format f = {CL_R, CL_SIGNED_INT32}; for (int i = 0; i < 2; i++) { cl_image_desc d; memset(&d, 0, sizeof d); d.image_type = CL_MEM_OBJECT_IMAGE2D; d.image_width = 2 + i; d.image_height = 1; int px[3] = {101 + 100 * i, 102 + 100 * i, 103}; imgs[i] = clCreateImage(cl->ctx, CL_MEM_READ_ONLY | CL_MEM_COPY_HOST_PTR, &f, &d, px, &e); CK(e); }
  for (int i = 0; i < 2; i++) { smps[i] = clCreateSampler(cl->ctx, CL_FALSE, i ? CL_ADDRESS_CLAMP_TO_EDGE : CL_ADDRESS_CLAMP, CL_FILTER_NEAREST, &e); CK(e); }
  string alpha = "abcdefghi" "123" "XY" "xy" "f" "unm" "p"; string alphaT = alpha + "ABCDEFGHI" "qrst" "z";
  auto gen = [&](const string& al, int depth, auto&& self, string h) -> void {
    if ((int)h.size() == depth) { if (R->begin("hist/" + h)) runHist(h); return; }
    for (char c : al)
    {
      if ((c >= 'p' && c <= 't') && h.find('X') == string::npos && h.find('Y') == string::npos) continue;
      if ((c == '3' || c == 'z') && h.find('X') == string::npos && h.find('Y') == string::npos) continue;
      self(al, depth, self, h + c);
    } };
  for (int d = 0; d <= 3; d++) gen(alphaT, d, gen, ""); gen(alpha, 4, gen, "");
  if (R->thorough) { gen(alphaT, 4, gen, ""); gen("abeg123Xxf", 6, gen, ""); gen("cdfp3XYxyf12", 5, gen, ""); }
}

// ---- argument types in all positions
struct Ty { string name, decl; size_t size, cmp; };
static void typesMode()
{
  vector<Ty> T; struct Sc { const char* n; int s; }; Sc sc[] = {{"char", 1}, {"uchar", 1}, {"short", 2}, {"ushort", 2}, {"int", 4}, {"uint", 4}, {"long", 8}, {"ulong", 8}, {"float", 4}, {"double", 8}};
  for (auto& s : sc) T.push_back({s.n, "", (size_t)s.s, (size_t)s.s});
  for (auto& s : sc) for (int w : {2, 3, 4, 8, 16}) T.push_back({fmt("%s%d", s.n, w), "", (size_t)s.s * (w == 3 ? 4 : w), (size_t)s.s * w});
  size_t nbase = T.size();
  T.push_back({"S1", "typedef struct { char a; } S1;", 1, 1}); T.push_back({"S2", "typedef struct { int a; char b[3]; char c; } S2;", 8, 8}); T.push_back({"S3", "typedef struct __attribute__((packed)) { char a; long b; short c; } S3;", 11, 11});
  T.push_back({"S4", "typedef struct { int a[5]; } S4;", 20, 20}); T.push_back({"S5", "typedef struct { float4 a; float4 b; } S5;", 32, 32}); T.push_back({"S6", "typedef struct { short a[3]; struct { char x; uchar y; } b[2]; ushort z; } S6;", 12, 12}); T.push_back({"U1", "typedef union { int i; float f; char c[6]; } U1;", 8, 6});
  T.push_back({"S7", "typedef struct { long16 a; char b[128]; } S7;", 256, 256}); T.push_back({"E1", "typedef enum { E_A, E_B } E1;", 4, 4}); T.push_back({"TD", "typedef ushort4 TD;", 8, 8});
  enum { N = 3 }; size_t n = T.size();
  vector<vector<int>> combos; for (size_t i = 0; i < n; i++) combos.push_back({(int)i});
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (!R->thorough && i < nbase && j < nbase && (i * 7 + j) % 4) continue; combos.push_back({(int)i, (int)j}); }
  int small[] = {0, 3, 4, 7, 9, 12, 16, 32, 37, (int)nbase, (int)nbase + 2, (int)nbase + 3, (int)nbase + 5, (int)nbase + 6}; for (int a : small) for (int b : small) for (int c : small) if (R->thorough || (a + b * 3 + c) % 3 == 0) combos.push_back({a, b, c});
  cl_mem o = cl->buf(4096);
  for (size_t b = 0; b < combos.size(); b += 40) for (int od = 0; od < 2; od++)
  {
    if (!R->begin(fmt("types/%zu/%d", b, od))) continue;
    size_t hi = std::min(combos.size(), b + 40); string s; std::set<int> used; for (size_t c = b; c < hi; c++) for (int t : combos[c]) used.insert(t); for (int t : used) if (T[t].decl.size()) s += T[t].decl + "\n";
    for (size_t c = b; c < hi; c++)
    { // the output pointer stands first, last or in the middle
      auto& cb = combos[c]; int pos = c % (cb.size() + 1); s += fmt("__kernel void k%zu(", c); string bd; for (size_t i = 0; i <= cb.size(); i++) { if ((int)i == pos) s += string(i ? ", " : "") + "__global char *o"; if (i < cb.size()) s += string(i || pos == 0 ? ", " : "") + (c % 3 ? "" : "const ") + T[cb[i]].name + fmt(" a%zu", i); }
      for (size_t i = 0; i < cb.size(); i++) s += "";
      s += ") { ";
      for (size_t i = 0; i < cb.size(); i++) { s += fmt("%s t%zu = a%zu; for (int i = 0; i < %zu; i++) o[%zu + i] = ((%s char*)&t%zu)[i]; ", T[cb[i]].name.c_str(), i, i, T[cb[i]].cmp, i * 300, "__private", i); }
      s += "}\n";
    }
    err_->clear(); cl_program p = cl->build(s, od ? "-cl-opt-disable" : "");
    for (size_t c = b; c < hi; c++)
    {
      auto& cb = combos[c]; size_t pos = c % (cb.size() + 1); cl_kernel k = cl->kernel(p, fmt("k%zu", c)); vector<vector<uint8_t>> val;
      for (int order = 0; order < 2; order++)
      { // arguments set in either order, the second time with other values
        val.clear(); for (size_t i = 0; i < cb.size(); i++) { vector<uint8_t> v(T[cb[i]].size); pattern(v, c + i * 3 + order * 11); val.push_back(v); }
        for (size_t ii = 0; ii < cb.size(); ii++) { size_t i = order ? cb.size() - 1 - ii : ii; vector<uint8_t> tmp = val[i]; cl_int e = clSetKernelArg(k, i < pos ? i : i + 1, tmp.size(), tmp.data()); if (e) R->fail("types-set", fmt("setting an argument of type %s gives %d", T[cb[i]].name.c_str(), e)); std::fill(tmp.begin(), tmp.end(), 0); }
        cl->arg(k, pos, o); vector<uint8_t> got(1200, 0xEE); cl->write(o, got.data(), got.size()); cl_int e = cl->launch1(k, 1, 1); if (e) { R->fail("types-launch", fmt("%d", e)); continue; } cl->read(o, got.data(), got.size()); R->count("transitions");
        for (size_t i = 0; i < cb.size(); i++) if (memcmp(&got[i * 300], val[i].data(), T[cb[i]].cmp)) { R->fail("types-value", fmt("argument %zu of type %s (of %zu, optimised %d) does not reach the kernel unchanged", i, T[cb[i]].name.c_str(), cb.size(), !od)); break; }
        R->count("traces_validated_against_impl");
      }
      clReleaseKernel(k);
    }
    quiet("types-report"); clReleaseProgram(p);
  }
  // every kind of memory object and sampler in every position among the others, with and without typedefs
  vector<string> kinds = {"__global int *%s", "__constant int *%s", "__read_only image2d_t %s", "__write_only image2d_t %s", "sampler_t %s", "__local int *%s", "int %s", "IT %s", "ST %s", "__global const float4 *restrict %s", "__read_only image1d_t %s", "__read_only image3d_t %s", "__read_only image2d_array_t %s", "__read_only image1d_buffer_t %s"};
  cl_int e; int data[64]; for (int i = 0; i < 64; i++) data[i] = 1000 + i; cl_mem in = cl->buf(256, data); cl_image_format f = {CL_R, CL_SIGNED_INT32}; std::map<int, cl_mem> im; struct { cl_mem_object_type t; } ims[] = {{CL_MEM_OBJECT_IMAGE2D}, {CL_MEM_OBJECT_IMAGE1D}, {CL_MEM_OBJECT_IMAGE3D}, {CL_MEM_OBJECT_IMAGE2D_ARRAY}, {CL_MEM_OBJECT_IMAGE1D_BUFFER}};
  for (int i = 0; i < 5; i++) { cl_image_desc d; memset(&d, 0, sizeof d); d.image_type = ims[i].t; d.image_width = 2; d.image_height = i == 0 || i == 2 || i == 3 ? 2 : 0; d.image_depth = i == 2 ? 2 : 0; d.image_array_size = i == 3 ? 2 : 0; int px[8]; for (int j = 0; j < 8; j++) px[j] = 2000 + i * 10 + j; if (i == 4) { d.buffer = cl->buf(8, px); } cl_mem m = clCreateImage(cl->ctx, CL_MEM_READ_WRITE | (i == 4 ? 0 : CL_MEM_COPY_HOST_PTR), &f, &d, i == 4 ? 0 : px, &e); CK(e); im[i] = m; }
  cl_sampler sm = clCreateSampler(cl->ctx, CL_FALSE, CL_ADDRESS_CLAMP_TO_EDGE, CL_FILTER_NEAREST, &e); CK(e);
  int nk = kinds.size();
  for (int a = 0; a < nk; a++) for (int b = 0; b < nk; b++) for (int mid = 0; mid < 2; mid++)
  {
    if (!R->begin(fmt("kinds/%d/%d/%d", a, b, mid))) continue;
    int kd[2] = {a, b}; string s = "typedef __read_only image2d_t IT; typedef sampler_t ST;\n__constant sampler_t cs = CLK_NORMALIZED_COORDS_FALSE | CLK_ADDRESS_CLAMP_TO_EDGE | CLK_FILTER_NEAREST;\n__kernel void k("; string bd; vector<int> want; int w = 0, wIndex[2] = {-1, -1};
    for (int i = 0; i < 2; i++)
    {
      string nm = fmt("a%d", i); char buf[128]; snprintf(buf, 128, kinds[kd[i]].c_str(), nm.c_str()); s += string(buf) + ", "; if (i == 0 && mid) s += "__global int *o, ";
      auto add = [&](const string& ex, int v) { bd += fmt("o[%d] = ", w) + ex + "; "; want.push_back(v); w++; };
      switch (kd[i])
      {
      case 0: case 1: add(nm + "[3]", 1003); break;
      case 2: case 7: add("read_imagei(" + nm + ", cs, (int2)(1, 1)).x", 2003); break;
      case 3: bd += "write_imagei(" + nm + ", (int2)(1, 0), (int4)(77)); "; wIndex[i] = 1; break;
      case 4: case 8: add("(int)read_imagei(helper, " + nm + ", (int2)(-5, 0)).x", 2000); break;
      case 5: bd += nm + "[0] = 5; " + nm + "[2] = 6; "; add(nm + "[0] + " + nm + "[2]", 11); break;
      case 6: add(nm, -12345); break;
      case 9: { int ff = 0; float fl; memcpy(&fl, &data[5], 4); (void)fl; (void)ff; add("as_int(" + nm + "[1].y)", 1005); break; }
      case 10: add("read_imagei(" + nm + ", cs, 1).x", 2011); break;
      case 11: add("read_imagei(" + nm + ", cs, (int4)(1, 0, 1, 0)).x", 2025); break;
      case 12: add("read_imagei(" + nm + ", cs, (int4)(0, 1, 1, 0)).x", 2036); break;
      case 13: add("read_imagei(" + nm + ", 1).x", 2041); break;
      }
    }
    s += mid ? "__read_only image2d_t helper) { " : "__read_only image2d_t helper, __global int *o) { "; s += bd + "}\n"; err_->clear();
    cl_program p = cl->build(s); cl_kernel k = cl->kernel(p, "k"); cl_mem o = cl->buf(64); cl_image_desc d; memset(&d, 0, sizeof d); d.image_type = CL_MEM_OBJECT_IMAGE2D; d.image_width = 2; d.image_height = 1; cl_mem wi[2];
    for (int i = 0; i < 2; i++)
    {
      int ix = i && mid ? 2 : i; wi[i] = clCreateImage(cl->ctx, CL_MEM_READ_WRITE, &f, &d, 0, &e); CK(e); int zz[2] = {0, 0}; size_t o3[3] = {0}, r3[3] = {2, 1, 1}; CK(clEnqueueWriteImage(cl->q, wi[i], CL_TRUE, o3, r3, 0, 0, zz, 0, 0, 0));
      switch (kd[i]) { case 0: case 1: case 9: e = setArg(k, ix, in); break; case 2: case 7: e = setArg(k, ix, im[0]); break; case 3: e = setArg(k, ix, wi[i]); break; case 4: case 8: e = setArg(k, ix, sm); break; case 5: e = clSetKernelArg(k, ix, 12, 0); break; case 6: e = setArg<int>(k, ix, -12345); break; default: e = setArg(k, ix, im[kd[i] - 9]); }
      if (e) R->fail("kinds-set", fmt("setting argument '%s' gives %d", kinds[kd[i]].c_str(), e));
    }
    e = setArg(k, mid ? 3 : 2, im[0]); if (e) R->fail("kinds-set", fmt("%d", e)); e = setArg(k, mid ? 1 : 3, o); if (e) R->fail("kinds-set", fmt("%d", e));
    e = cl->launch1(k, 1, 1); if (e) R->fail("kinds-launch", fmt("%s, %s: launch gives %d", kinds[a].c_str(), kinds[b].c_str(), e));
    else { int got[16]; cl->read(o, got, 64); for (int i = 0; i < w; i++) if (got[i] != want[i]) R->fail("kinds-value", fmt("arguments %s and %s: the kernel sees %d, expected %d", kinds[a].c_str(), kinds[b].c_str(), got[i], want[i]));
      for (int i = 0; i < 2; i++) if (wIndex[i] >= 0) { int z[2]; size_t o3[3] = {0}, r3[3] = {2, 1, 1}; CK(clEnqueueReadImage(cl->q, wi[i], CL_TRUE, o3, r3, 0, 0, z, 0, 0, 0)); if (z[0] != 0 || z[1] != 77) R->fail("kinds-write", fmt("written image holds %d, %d", z[0], z[1])); } }
    quiet("kinds-report"); R->count("transitions"); R->count("traces_validated_against_impl"); clReleaseKernel(k); clReleaseProgram(p); clReleaseMemObject(o); for (auto m : wi) clReleaseMemObject(m);
  }
}

// ---- local memory layouts
static void localMode(const char* threads)
{
  // up to three local arguments and up to two variables declared in the kernel; each group fills its own and looks for strangers' values
  string s; for (int na = 0; na <= 3; na++) for (int nv = 0; nv <= 2; nv++) for (int tw = 0; tw < 3; tw++)
  {
    static const char* ty[] = {"char", "int", "long2"}; string t = ty[tw]; s += fmt("__kernel void l%d%d%d(__global int *o", na, nv, tw); for (int i = 0; i < na; i++) s += fmt(", __local %s *a%d, int n%d", t.c_str(), i, i); s += ") { int g = get_group_id(0), m = get_local_id(0), bad = 0; ";
    for (int i = 0; i < nv; i++) s += fmt("__local %s v%d[%d]; ", t.c_str(), i, i ? 3 : 5);
    string x = tw == 2 ? ".x" : ""; auto each = [&](const char* what) { for (int i = 0; i < na; i++) { char b[512]; snprintf(b, 512, what, i * 40, fmt("a%d", i).c_str(), fmt("n%d", i).c_str()); s += b; } for (int i = 0; i < nv; i++) { char b[512]; snprintf(b, 512, what, 200 + i * 20, fmt("v%d", i).c_str(), i ? "3" : "5"); s += b; } };
    for (int r = 0; r < 2; r++)
    {
      s += fmt("if (m == %d) { ", r); each(("for (int i = 0, b = %1$d; i < %3$s; i++) %2$s[i]" + x + " = (char)(b + i + g * 17 + " + fmt("%d", r * 50) + "); ").c_str()); s += "} barrier(CLK_LOCAL_MEM_FENCE); ";
      each(("for (int i = 0, b = %1$d; i < %3$s; i++) bad += %2$s[i]" + x + " != (char)(b + i + g * 17 + " + fmt("%d", r * 50) + "); ").c_str()); s += "barrier(CLK_LOCAL_MEM_FENCE); ";
    }
    for (int i = 0; i < na; i++) s += fmt("bad += ((ulong)a%d %% sizeof(%s)) != 0; ", i, t.c_str()); s += "o[get_global_id(0)] = bad; }\n";
  }
  cl_program p = cl->build(s); cl_mem o = cl->buf(64);
  int sizes[] = {1, 2, 3, 5, 8, 16}; int ns = R->thorough ? 6 : 5;
  for (int na = 0; na <= 3; na++) for (int nv = 0; nv <= 2; nv++) for (int tw = 0; tw < 3; tw++) for (int c = 0; c < (na ? ns * (na > 1 ? ns : 1) * (na > 2 ? ns : 1) : 1); c++) for (int twice = 0; twice < 2; twice++)
  {
    if (!R->begin(fmt("local/%s/%d%d%d/%d/%d", threads, na, nv, tw, c, twice))) continue;
    err_->clear(); cl_kernel k = cl->kernel(p, fmt("l%d%d%d", na, nv, tw)); cl->arg(k, 0, o); int n[3] = {sizes[c % ns], sizes[c / ns % ns], sizes[c / ns / ns % ns]}; size_t el[] = {1, 4, 16};
    for (int i = 0; i < na; i++) { if (twice) cl->localArg(k, 1 + 2 * i, el[tw] * (n[i] % 3 + 1)); cl->localArg(k, 1 + 2 * i, el[tw] * n[i]); cl->arg(k, 2 + 2 * i, (cl_int)n[i]); }
    int got[16]; memset(got, 0xEE, 64); cl->write(o, got, 64); cl_int e = cl->launch1(k, 8, 2); if (e) R->fail("local-launch", fmt("%d", e)); cl->read(o, got, 64); for (int i = 0; i < 8; i++) if (got[i]) { R->fail("local-private", fmt("%d local arguments (%d,%d,%d elements of %zu bytes) and %d variables: work-item %d finds %d foreign values", na, n[0], n[1], n[2], el[tw], nv, i, got[i])); break; }
    quiet("local-report"); R->count("transitions"); R->count("traces_validated_against_impl"); clReleaseKernel(k);
  }
}
static void body(int argc, char** argv)
{
  string mode = argv[2]; stdEnv(argv[1], mode == "local" ? argv[3] : "1"); Capture err(2); err_ = &err; CL c; cl = &c;
  if (mode == "hist") histMode(); if (mode == "types") typesMode(); if (mode == "local") localMode(argv[3]);
}
VF_MAIN(body)
