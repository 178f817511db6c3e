// C06: every out-of-bounds access is reported and contained, no in-bounds access is.
// All (address space, access form, object size, offset) combinations within the bounds, one kernel launch each.
#include <climits>
#include "vf.hpp"
using namespace vf;
struct Form { string name, code; bool load, store; int S, align, wlo, whi; bool agg; bool zero; }; // S bytes at off; written bytes get `in` (or zero)
static vector<Form> forms(bool canStore, bool atomics, const string& as)
{
  vector<Form> v; struct T { const char* n; int s, a; };
  T ts[] = {{"char", 1, 1}, {"short", 2, 2}, {"int", 4, 4}, {"long", 8, 8}, {"float", 4, 4}, {"double", 8, 8}, {"char2", 2, 2}, {"uchar4", 4, 4}, {"short4", 8, 8}, {"int2", 8, 8}, {"float4", 16, 16}, {"int8", 32, 32}, {"long2", 16, 16}, {"char16", 16, 16}};
  for (auto& t : ts)
  {
    v.push_back({fmt("load_%s", t.n), fmt("*(global %s*)out = *(%s %s*)q;", t.n, as.c_str(), t.n), true, false, t.s, t.a});
    if (canStore) v.push_back({fmt("store_%s", t.n), fmt("*(%s %s*)q = *(global %s*)in;", as.c_str(), t.n, t.n), false, true, t.s, t.a});
  }
  T vs[] = {{"char", 1, 1}, {"short", 2, 2}, {"int", 4, 4}, {"double", 8, 8}};
  for (auto& t : vs) for (int n : {2, 3, 4, 8})
  {
    if (t.s * n > 32) continue;
    v.push_back({fmt("vload%d_%s", n, t.n), fmt("vstore%d(vload%d(0, (const %s %s*)q), 0, (global %s*)out);", n, n, as.c_str(), t.n, t.n), true, false, t.s * n, t.a});
    if (canStore) v.push_back({fmt("vstore%d_%s", n, t.n), fmt("vstore%d(vload%d(0, (global %s*)in), 0, (%s %s*)q);", n, n, t.n, as.c_str(), t.n), false, true, t.s * n, t.a});
  }
  for (int n : {5, 12, 20})
  {
    v.push_back({fmt("copyfrom%d", n), fmt("*(global struct s%d*)out = *(%s struct s%d*)q;", n, as.c_str(), n), true, false, n, 1, 0, 0, true});
    if (canStore) v.push_back({fmt("copyto%d", n), fmt("*(%s struct s%d*)q = *(global struct s%d*)in;", as.c_str(), n, n), false, true, n, 1, 0, 0, true});
    if (canStore) v.push_back({fmt("zero%d", n), fmt("struct s%d z = {{0}}; *(%s struct s%d*)q = z;", n, as.c_str(), n), false, true, n, 1, 0, 0, true, true});
  }
  if (canStore)
  {
    v.push_back({"memset", fmt("__builtin_memset((%s void*)q, 0, 6);", as.c_str()), false, true, 6, 1, 0, 0, true, true});
    v.push_back({"vstore_half", fmt("vstore_half(0.0f, 0, (%s half*)q);", as.c_str()), false, true, 2, 2, 0, 0, false, true});
    v.push_back({"vstore_half4", fmt("vstore_half4((float4)(0.0f), 0, (%s half*)q);", as.c_str()), false, true, 8, 2, 0, 0, false, true});
  }
  v.push_back({"vload_half", fmt("*(global float*)out = vload_half(0, (const %s half*)q);", as.c_str()), true, false, 2, 2, 1, 1});
  v.push_back({"vload_half4", fmt("vstore4(vload_half4(0, (const %s half*)q), 0, (global float*)out);", as.c_str()), true, false, 8, 2, 1, 1});
  if (atomics)
  {
    for (const char* op : {"add", "sub", "xchg", "min", "max", "and", "or", "xor"})
      v.push_back({fmt("atomic_%s", op), fmt("*(global uint*)out = atomic_%s((volatile %s uint*)q, 7u);", op, as.c_str()), true, true, 4, 4, 2});
    for (const char* op : {"inc", "dec"}) v.push_back({fmt("atomic_%s", op), fmt("*(global uint*)out = atomic_%s((volatile %s uint*)q);", op, as.c_str()), true, true, 4, 4, 2});
    v.push_back({"atomic_cmpxchg", fmt("*(global uint*)out = atomic_cmpxchg((volatile %s uint*)q, 1u, 2u);", as.c_str()), true, false, 4, 4, 2});
    v.push_back({"atom_add64", fmt("*(global ulong*)out = atom_add((volatile %s ulong*)q, 7ul);", as.c_str()), true, true, 8, 8, 2});
    v.push_back({"atom_cmpxchg64", fmt("*(global ulong*)out = atom_cmpxchg((volatile %s ulong*)q, 1ul, 2ul);", as.c_str()), true, false, 8, 8, 2});
  }
  return v;
}
// wlo: 1 = result not compared byte for byte, 2 = atomic
struct Space { string name, as, report; bool canStore, atomics; int how; }; // how: 0 buffer argument, 1 local argument, 2 in-kernel array, 3 constant argument, 4 program-scope constant, 5 program-scope global
static CL* cl;
typedef vector<uint8_t> Bytes;
static string kernelSource(const Space& s, const vector<Form>& F, int N)
{
  string o = "#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable\n#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n";
  for (int n : {5, 12, 20}) o += fmt("struct s%d { uchar x[%d]; };\n", n, n);
  string init; for (int i = 0; i < N; i++) init += fmt("%s%d", i ? "," : "", (i * 37 + 3 * 101 + 13) & 255);
  if (s.how == 4) o += fmt("constant uchar G[%d] __attribute__((aligned(64))) = {%s};\nconstant uchar G2[8] = {1};\n", N, init.c_str());
  if (s.how == 5) o += fmt("global uchar G1[8];\nglobal uchar G[%d] __attribute__((aligned(64)));\nglobal uchar G2[8];\n", N);
  for (auto& f : F)
  {
    string arg = s.how == 0 ? "global uchar *p" : s.how == 1 ? "local uchar *p" : s.how == 3 ? "constant uchar *p" : "int unused";
    o += fmt("kernel void %s(%s, long off, global uchar *in, global uchar *out, global ulong *addr, global uchar *init, global uchar *res, int n) {\n", f.name.c_str(), arg.c_str());
    bool copy = s.how == 1 || s.how == 2 || s.how == 5;
    if (s.how == 2)
    {
      const char* q = s.as == "private" ? "" : "local ";
      o += fmt("  %suchar before[8]; %suchar arr[%d] __attribute__((aligned(64))); %suchar after[8];\n  for (int i = 0; i < 8; i++) { before[i] = 0x5A; after[i] = 0xA5; }\n  %suchar * volatile hidden = arr; %suchar *p = hidden;\n", q, q, N, q, s.as == "private" ? "private " : q, s.as == "private" ? "private " : q);
    }
    if (s.how >= 4) o += fmt("  %s uchar * volatile hidden = G; %s uchar *p = hidden;\n", s.as.c_str(), s.as.c_str());
    if (copy) o += "  for (int i = 0; i < n; i++) p[i] = init[i];\n";
    o += fmt("  %s uchar *q = (%s uchar*)p + off;\n  addr[0] = (ulong)q; addr[1] = (ulong)p;\n  { %s }\n", s.as.c_str(), s.as.c_str(), f.code.c_str());
    if (copy) o += "  for (int i = 0; i < n; i++) res[i] = p[i];\n";
    if (s.how == 2) o += "  for (int i = 0; i < 8; i++) { res[100+i] = before[i]; res[110+i] = after[i]; }\n";
    o += "}\n";
  }
  return o;
}
struct Ctx { cl_mem in, out, addr, init, res, c1, c2; Bytes inb; };
static Ctx X; static Capture* cap;
static void one(const Space& s, const Form& f, cl_kernel k, cl_mem obj, cl_mem parent, size_t porigin, size_t N, int64_t off, const string& id, bool dead = false)
{
  if (!R->begin(id)) return;
  Bytes content(N ? N : 1), outb(64, 0xCC), resb(128, 0); pattern(content, 3); uint64_t ad[2] = {0, 0};
  bool copy = s.how == 1 || s.how == 2 || s.how == 5;
  if (obj && (s.how == 0 || s.how == 3) && !dead) { if (s.how == 3) {} cl->write(obj, content.data(), N); }
  cl->write(X.out, outb.data(), 64); cl->write(X.res, resb.data(), 128); if (copy) cl->write(X.init, content.data(), N);
  Bytes can(32, 0x77); cl->write(X.c1, can.data(), 32); cl->write(X.c2, can.data(), 32);
  if (s.how == 0 || s.how == 3) { if (obj) cl->arg(k, 0, obj); else CK(clSetKernelArg(k, 0, sizeof(cl_mem), 0)); } else if (s.how == 1) cl->localArg(k, 0, N); else { cl_int z = 0; cl->arg(k, 0, z); }
  cl_long o = off; cl->arg(k, 1, o); cl_int n = N; cl->arg(k, 7, n);
  cap->clear(); cl_int e = cl->launch1(k, 1, 1); string log = cap->get(); R->count("transitions");
  if (e) { R->fail("launch", id + fmt(": launch failed with %d", e)); return; }
  cl->read(X.addr, ad, 16); cl->read(X.out, outb.data(), 64); cl->read(X.res, resb.data(), 128);
  Bytes after(N); if (copy) after.assign(resb.begin(), resb.begin() + N); else if (obj && !dead && (s.how == 0 || s.how == 3)) cl->read(obj, after.data(), N); else after.assign(content.begin(), content.begin() + N);
  bool oob = dead || !obj && (s.how == 0 || s.how == 3) || off < 0 || off + f.S > (int64_t)N || off + f.S < off;
  if (s.how == 0 && porigin && obj && off < 0 && off >= -(int64_t)porigin) oob = false; // still inside the parent buffer
  bool inside = !oob && off >= 0;
  int nr = countOf(log, "Invalid read of size"), nw = countOf(log, "Invalid write of size");
  if (!oob)
  {
    if (!log.empty()) R->fail("false-report:" + s.name + ":" + f.name, id + ": in-bounds access reported: " + log.substr(0, 200));
  }
  else
  {
    if (f.load && !nr) R->fail("missed-read:" + s.name + ":" + f.name, id + ": out-of-bounds read not reported");
    if (f.store && !nw) R->fail("missed-write:" + s.name + ":" + f.name, id + ": out-of-bounds write not reported");
    if (f.wlo != 2 && ((!f.load && nr) || (!f.store && nw))) R->fail("wrong-direction:" + s.name + ":" + f.name, id + ": " + log.substr(0, 300));
    // size, address space and address of each report
    size_t p = 0;
    while ((p = log.find("Invalid ", p)) != string::npos)
    {
      int sz; char sp[32]; unsigned long a; char dir[16];
      if (sscanf(log.c_str() + p, "Invalid %15s of size %d at %31s memory address 0x%lx", dir, &sz, sp, &a) == 4)
      {
        if (!f.agg && sz != f.S) R->fail("size:" + s.name + ":" + f.name, id + fmt(": reported size %d, access has %d", sz, f.S));
        if (s.report != sp && s.as != sp) R->fail("space:" + s.name + ":" + f.name, id + ": reported address space " + sp);
        if (!f.agg && a != ad[0]) R->fail("address:" + s.name + ":" + f.name, id + fmt(": reported address %lx, access was at %lx", a, ad[0]));
        if (f.agg && (a < ad[0] || a >= ad[0] + f.S)) R->fail("address:" + s.name + ":" + f.name, id + fmt(": reported address %lx, access was at %lx", a, ad[0]));
      }
      p += 8;
    }
  }
  // contents of the object and of its neighbours
  if (!dead && (obj || s.how))
    for (size_t i = 0; i < N; i++)
    {
      bool touched = (f.store || f.wlo == 2) && (int64_t)i >= off && (int64_t)i < off + f.S; if (touched && (oob || f.wlo == 2)) continue;
      uint8_t want = touched ? (f.zero ? 0 : X.inb[i - off]) : content[i];
      if (after[i] != want) { R->fail("contents:" + s.name + ":" + f.name, id + fmt(": byte %zu of the object is %02x, expected %02x", i, after[i], want)); break; }
    }
  if (inside && f.load && f.wlo == 0) for (int i = 0; i < f.S; i++) if (outb[i] != content[off + i]) { R->fail("loaded:" + s.name + ":" + f.name, id + fmt(": byte %d loaded is %02x, stored was %02x", i, outb[i], content[off + i])); break; }
  if (inside && f.wlo == 2) { uint64_t a = 0, b = 0; memcpy(&a, &content[off], f.S); memcpy(&b, outb.data(), f.S); if (a != b) R->fail("atomic-old:" + s.name + ":" + f.name, id); }
  for (int i = f.wlo == 1 ? 16 : f.S; i < 64; i++) if (outb[i] != 0xCC) { R->fail("other-object", id + ": output buffer changed"); break; }
  if (s.how == 2) for (int i = 0; i < 8; i++) if (resb[100 + i] != 0x5A || resb[110 + i] != 0xA5) { R->fail("neighbour:" + s.name + ":" + f.name, id + ": a neighbouring variable changed"); break; }
  Bytes c(32); cl->read(X.c1, c.data(), 32); if (c != can) R->fail("other-object", id + ": neighbouring buffer changed"); cl->read(X.c2, c.data(), 32); if (c != can) R->fail("other-object", id + ": neighbouring buffer changed");
  R->count("traces_validated_against_impl"); if (oob) R->count("out_of_bounds_cases");
}
// An access inside the object through a pointer of any alignment: a diagnostic exactly if it is not aligned to the type
static void misaligned(const Space& s, const Form& f, cl_kernel k, cl_mem obj, int N, int off, const string& id)
{
  if (!R->begin(id)) return; Bytes content(N); pattern(content, 3); if (s.how == 0 || s.how == 3) { cl->write(obj, content.data(), N); cl->arg(k, 0, obj); } else if (s.how == 1) cl->localArg(k, 0, N); else { cl_int z = 0; cl->arg(k, 0, z); }
  cl_long o = off; cl->arg(k, 1, o); cl_int n = N; cl->arg(k, 7, n); cl->write(X.init, content.data(), N); cap->clear(); CK(cl->launch1(k, 1, 1)); string log = cap->get(); R->count("transitions");
  int got = countOf(log, "not aligned"), want = off % f.align != 0; if (got != want || countOf(log, "Invalid read of") || countOf(log, "Invalid write of")) R->fail(string(want ? "missed" : "false") + "-misaligned:" + s.name + ":" + f.name, id + fmt(": %d reports, expected %d", got, want) + log.substr(0, 200));
  if (want && log.find(f.load ? "memory load" : "memory store") == string::npos) R->fail("misaligned-kind:" + s.name + ":" + f.name, id + ": " + log.substr(0, 200)); R->count("traces_validated_against_impl");
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); Capture cp; cap = &cp; CL c; cl = &c; bool T = R->thorough;
  X.inb.resize(64); pattern(X.inb, 9); X.in = c.buf(64, X.inb.data()); X.out = c.buf(64); X.addr = c.buf(16); X.init = c.buf(128); X.res = c.buf(128);
  vector<Space> sp = {{"global", "global", "global", true, true, 0}, {"localarg", "local", "local", true, true, 1}, {"localarray", "local", "local", true, true, 2}, {"private", "private", "private", true, false, 2},
    {"constarg", "constant", "global", false, false, 3}, {"progconst", "constant", "global", false, false, 4}, {"progglobal", "global", "global", true, true, 5}};
  for (auto& s : sp) for (const char* opt : {"", "-cl-opt-disable"})
  {
    bool fixed = s.how == 2 || s.how >= 4; if (*opt && !T && s.how != 2 && s.how != 0 && s.how != 4) continue;
    vector<Form> F = forms(s.canStore, s.atomics, s.as), F0 = F;
    // OpenCL 2.0 (needed for program-scope variables) declares these builtins for the generic address space only, which Oclgrind does not support
    if (s.how == 5) { F.clear(); for (auto& f : F0) if (f.name[0] != 'v' && f.name.find("atom_") != 0) F.push_back(f); }
    vector<int> Ns; if (fixed) Ns = T ? vector<int>{1, 7, 16, 20, 33} : vector<int>{7, 16}; else Ns = T ? vector<int>{1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 20, 24, 31, 32, 33} : vector<int>{1, 3, 4, 8, 15, 16, 32, 33};
    cl_program prog = 0; vector<cl_kernel> ks;
    for (int N : Ns)
    {
      if (!prog || fixed)
      {
        for (auto k : ks) clReleaseKernel(k); ks.clear(); if (prog) clReleaseProgram(prog);
        prog = c.build(kernelSource(s, F, N), string(s.how == 5 ? "-cl-std=CL2.0 " : "-cl-std=CL1.2 ") + opt);
        for (auto& f : F) { cl_kernel k = c.kernel(prog, f.name); c.arg(k, 2, X.in); c.arg(k, 3, X.out); c.arg(k, 4, X.addr); c.arg(k, 5, X.init); c.arg(k, 6, X.res); ks.push_back(k); }
      }
      X.c1 = c.buf(32); cl_mem obj = c.buf(N); X.c2 = c.buf(32);
      for (size_t fi = 0; fi < F.size(); fi++)
      {
        vector<int64_t> offs; for (int64_t o = -34; o <= N + 2; o++) if (o % F[fi].align == 0 && (T || o > -5 || o == -F[fi].S || o == -F[fi].S - F[fi].align)) offs.push_back(o);
        for (int64_t o : {1ll << 31, -(1ll << 31), 1ll << 20, (1ll << 48) * 900, (1ll << 48) * 900 + 64, -(1ll << 62), (long long)(0x8000000000000000ull)}) offs.push_back(o);
        if (s.how == 0 || s.how == 3) for (int64_t o : {1ll << 32, -(1ll << 32), (1ll << 48) - 64, (1ll << 48) - F[fi].align, 1ll << 47}) offs.push_back(o);
        for (int64_t o : offs) one(s, F[fi], ks[fi], obj, 0, 0, N, o, fmt("%s%s/%s/%d/%ld", s.name.c_str(), opt, F[fi].name.c_str(), N, o));
      }
      clReleaseMemObject(obj); clReleaseMemObject(X.c1); clReleaseMemObject(X.c2);
      // pointers that are not aligned to the type they are dereferenced with
      if (N != 33 && !(fixed && N == 16)) continue; int M = fixed ? N : 40; X.c1 = c.buf(32); obj = c.buf(M); X.c2 = c.buf(32);
      for (size_t fi = 0; fi < F.size(); fi++) { const Form& f = F[fi]; if (f.name.compare(0, 5, "load_") && f.name.compare(0, 6, "store_")) continue; for (int o = 0; o + f.S <= M; o++) misaligned(s, f, ks[fi], obj, M, o, fmt("%s%s/%s/misaligned/%d/%d", s.name.c_str(), opt, f.name.c_str(), M, o)); }
      clReleaseMemObject(obj); clReleaseMemObject(X.c1); clReleaseMemObject(X.c2);
    }
    if (s.how == 0 || s.how == 3)
    {
      X.c1 = c.buf(32); X.c2 = c.buf(32);
      for (size_t fi = 0; fi < F.size(); fi++)
      {
        for (int64_t o : {0ll, 64ll, -64ll, 4096ll}) one(s, F[fi], ks[fi], 0, 0, 0, 0, o, fmt("%s%s/%s/null/%ld", s.name.c_str(), opt, F[fi].name.c_str(), o));
        if (s.how == 0) // a sub-buffer that ends where its parent ends
        {
          string b = fmt("%s%s/%s/sub", s.name.c_str(), opt, F[fi].name.c_str());
          cl_mem par = c.buf(128 + 40); cl_buffer_region r = {128, 40}; cl_int e; cl_mem sub = clCreateSubBuffer(par, 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); CK(e);
          for (int64_t o = -160; o <= 48; o += F[fi].align * (T || F[fi].align > 4 ? 1 : 4)) one(s, F[fi], ks[fi], sub, par, 128, 40, o, b + fmt("/%ld", o));
          clReleaseMemObject(sub); clReleaseMemObject(par);
        }
      }
      clReleaseMemObject(X.c1); clReleaseMemObject(X.c2);
    }
    for (auto k : ks) clReleaseKernel(k); clReleaseProgram(prog);
  }
  // pointers to released buffers kept by the program in memory; objects of every creation order
  cl_program dp = c.build("kernel void save(global uchar *p, global ulong *a) { a[0] = (ulong)p; }\n"
                          "kernel void ld(global ulong *a, global int *out, long off) { out[0] = *(global int*)((global uchar*)a[0] + off); }\n"
                          "kernel void st(global ulong *a, global int *out, long off) { *(global int*)((global uchar*)a[0] + off) = 77; }\n"
                          "kernel void at(global ulong *a, global int *out, long off) { out[0] = atomic_inc((global int*)((global uchar*)a[0] + off)); }\n", "-cl-std=CL1.2");
  cl_kernel ksv = c.kernel(dp, "save"), ka[3] = {c.kernel(dp, "ld"), c.kernel(dp, "st"), c.kernel(dp, "at")};
  for (int nb = 1; nb <= 3; nb++) for (int victim = 0; victim < nb; victim++) for (int op = 0; op < 3; op++) for (int realloc = 0; realloc < 3; realloc++) for (long off : {0l, 4l, -4l, 12l, 16l})
  {
    if (!R->begin(fmt("released/%d/%d/%d/%d/%ld", nb, victim, op, realloc, off))) continue;
    cl_mem a = c.buf(8), out = c.buf(4), b[3], nw = 0; for (int i = 0; i < nb; i++) b[i] = c.buf(16);
    c.arg(ksv, 0, b[victim]); c.arg(ksv, 1, a); CK(c.launch1(ksv, 1, 1)); CK(clSetKernelArg(ksv, 0, sizeof(cl_mem), 0)); clReleaseMemObject(b[victim]);
    uint64_t old, now = 0; c.read(a, &old, 8);
    if (realloc) { nw = c.buf(realloc == 1 ? 16 : 8); c.arg(ksv, 0, nw); CK(c.launch1(ksv, 1, 1)); c.read(a, &now, 8); CK(clSetKernelArg(ksv, 0, sizeof(cl_mem), 0)); c.write(a, &old, 8); }
    c.arg(ka[op], 0, a); c.arg(ka[op], 1, out); cl_long o = off; c.arg(ka[op], 2, o); cp.clear(); CK(c.launch1(ka[op], 1, 1)); string log = cp.get(); R->count("transitions", 2);
    bool live = realloc && now == old && off >= 0 && off + 4 <= (realloc == 1 ? 16 : 8); // the simulator may reuse the address
    int nr = countOf(log, "Invalid read of size 4"), nwr = countOf(log, "Invalid write of size 4");
    if (live ? (nr || nwr) : ((op != 1 && !nr) || (op != 0 && !nwr))) R->fail("released", R->curCase + ": " + (live ? "false report " : "access to a released buffer not reported: ") + log.substr(0, 200));
    R->count("traces_validated_against_impl"); clReleaseMemObject(a); clReleaseMemObject(out); for (int i = 0; i < nb; i++) if (i != victim) clReleaseMemObject(b[i]); if (nw) clReleaseMemObject(nw);
  }
  // variables of functions that have returned: a chain of calls, each publishing the address of a variable, and an access from each level
  for (const char* opt : {"", "-cl-opt-disable"})
  {
    string src; for (int l = 3; l >= 0; l--)
    {
      src += fmt("%s {\n  volatile int x = %d; if (rep != 3) A[%d] = (ulong)&x;\n", l ? fmt("__attribute__((noinline)) void f%d(global volatile ulong *A, int v, int d, int op, int rep, global int *out)", l).c_str() : "kernel void f0(global volatile ulong *A, int v, int d, int op, int rep, global int *out)", 100 + l, l);
      if (l < 3) src += fmt("  if (rep == 1) { f%d(A, v, d, op, 3, out); f%d(A, v, d, op, 0, out); } else f%d(A, v, d, op, rep, out);\n", l + 1, l + 1, l + 1);
      src += fmt("  if (d == %d && rep != 3) { private volatile int *p = (private volatile int*)A[v]; if (op == 0) out[0] = *p; else *p = 7; }\n  out[1 + %d] = x;\n}\n", l, l);
    }
    cl_program p = c.build(src, string("-cl-std=CL1.2 ") + opt); cl_kernel k = c.kernel(p, "f0"); cl_mem A = c.buf(32), out = c.buf(20);
    for (int v = 0; v < 4; v++) for (int d = 0; d < 4; d++) for (int op = 0; op < 2; op++) for (int rep = 0; rep < 2; rep++)
    {
      if (!R->begin(fmt("returned%s/%d/%d/%d/%d", opt, v, d, op, rep))) continue; cl_ulong z[4] = {0, 0, 0, 0}; c.write(A, z, 32); int o[5] = {-1, -1, -1, -1, -1}; c.write(out, o, 20);
      c.arg(k, 0, A); c.arg(k, 1, v); c.arg(k, 2, d); c.arg(k, 3, op); c.arg(k, 4, rep); c.arg(k, 5, out); cp.clear(); CK(c.launch1(k, 1, 1)); string log = cp.get(); R->count("transitions"); c.read(out, o, 20);
      bool live = v <= d; int nr = countOf(log, "Invalid read of size 4 at private"), nw = countOf(log, "Invalid write of size 4 at private");
      if (live ? !log.empty() : (op ? nw != 1 || nr : nr != 1 || nw)) R->fail(live ? "returned-false" : "returned-missed", R->curCase + ": " + log.substr(0, 200));
      if (live && !op && o[0] != 100 + v) R->fail("returned-value", R->curCase + fmt(": %d", o[0])); for (int l = 0; l < 4; l++) if (o[1 + l] != (live && op && l == v ? 7 : 100 + l)) R->fail("returned-other", R->curCase + fmt(": level %d has %d", l, o[1 + l])); R->count("traces_validated_against_impl");
    }
    clReleaseMemObject(A); clReleaseMemObject(out); clReleaseKernel(k); clReleaseProgram(p);
  }
  // structures passed by value: the callee's copy ends where the structure ends
  for (const char* opt : {"", "-cl-opt-disable"})
  {
    string src; vector<int> Ns; for (int n = 1; n <= 72; n++) if (T || n < 20 || n % 8 < 2 || n % 8 == 7) Ns.push_back(n);
    for (int n : Ns) src += fmt("typedef struct { uchar x[%d]; } S%d;\n__attribute__((noinline)) int f%d(S%d s, int j, int op) { private volatile uchar *p = s.x; if (op) p[j] = 9; else return p[j]; return s.x[0]; }\nkernel void k%d(global const S%d *a, global int *o, int j, int op) { S%d s = *a; *o = f%d(s, j, op); }\n", n, n, n, n, n, n, n, n);
    cl_program p = c.build(src, string("-cl-std=CL1.2 ") + opt); cl_mem o = c.buf(4);
    for (int n : Ns)
    {
      cl_kernel k = c.kernel(p, fmt("k%d", n)); Bytes in(n); pattern(in, n); cl_mem a = c.buf(n, in.data()); c.arg(k, 0, a); c.arg(k, 1, o);
      for (int j = -2; j < n + 20; j++) for (int op = 0; op < 2; op++)
      {
        if (j > 1 && j < n - 2 && !T) continue; if (!R->begin(fmt("byvalue%s/%d/%d/%d", opt, n, j, op))) continue; c.arg(k, 2, j); c.arg(k, 3, op); cp.clear(); CK(c.launch1(k, 1, 1)); string log = cp.get(); R->count("transitions"); int r; c.read(o, &r, 4);
        bool in_ = j >= 0 && j < n; int nr = countOf(log, "Invalid read of size 1 at private"), nw = countOf(log, "Invalid write of size 1 at private"); if (in_ ? !log.empty() : nr != !op || nw != op) R->fail(in_ ? "byvalue-false" : "byvalue-missed", R->curCase + ": " + log.substr(0, 200));
        if (in_ && r != (op ? (j == 0 ? 9 : in[0]) : in[j])) R->fail("byvalue-value", R->curCase + fmt(": %d", r)); R->count("traces_validated_against_impl");
      }
      clReleaseMemObject(a); clReleaseKernel(k);
    }
    clReleaseMemObject(o); clReleaseProgram(p);
  }
  // the same with the uninitialised-value and race plugins loaded
  setenv("OCLGRIND_UNINITIALIZED", "1", 1); setenv("OCLGRIND_DATA_RACES", "1", 1); CL c2; unsetenv("OCLGRIND_UNINITIALIZED"); unsetenv("OCLGRIND_DATA_RACES"); CL& c0 = c;
  for (int plug = 0; plug < 2; plug++)
  {
  CL& c = plug ? c2 : c0;
  // transfers of absurd sizes: reported, nothing else happens
  {
    cl_program hp = c.build("kernel void cpy(global uchar *g, global uchar *h, long n) { __builtin_memcpy(h, g, n); }\nkernel void mov(global uchar *g, global uchar *h, long n) { __builtin_memmove(h, g, n); }\nkernel void set(global uchar *g, global uchar *h, long n) { __builtin_memset(h, 7, n); }\n"
      "kernel void cpl(global uchar *g, global uchar *h, long n) { local uchar l[8]; __builtin_memcpy(l, g, n); h[0] = l[0]; }\nkernel void cpp(global uchar *g, global uchar *h, long n) { volatile private uchar l[8]; __builtin_memcpy((private uchar*)l, g, n); h[0] = l[0]; }\n"
      "kernel void acp(global uchar *g, global uchar *h, long n) { local uchar l[8]; event_t e = async_work_group_copy(l, g, n, 0); wait_group_events(1, &e); }\nkernel void acs(global uchar *g, global uchar *h, long n) { local uchar l[8]; event_t e = async_work_group_strided_copy(l, g, 2, n, 0); wait_group_events(1, &e); }\n"
      "kernel void acq(global uchar *g, global uchar *h, long n) { local uchar l[8]; event_t e = async_work_group_copy(h, l, n, 0); wait_group_events(1, &e); }\n", "-cl-std=CL1.2");
    for (const char* kn : {"cpy", "mov", "set", "cpl", "cpp", "acp", "acs", "acq"}) for (cl_long n : {9l, 10l, 4096l, 1l << 31, (1l << 32) - 1, 1l << 32, (1l << 32) + 4, 1l << 40, 1l << 48, 1l << 62, LONG_MAX, LONG_MIN, -8l, -1l})
    {
      if (kn[0] == 'a' && (n > 4096 || n < 0)) continue; if (!R->begin(fmt("huge%s/%s/%ld", plug ? "+" : "", kn, n))) continue; cl_kernel k = c.kernel(hp, kn); Bytes gb(8), hb(8, 0x33); pattern(gb, 2); cl_mem g = c.buf(8, gb.data()), h = c.buf(8, hb.data()); c.arg(k, 0, g); c.arg(k, 1, h); c.arg(k, 2, n); cp.clear(); CK(c.launch1(k, 1, 1)); string log = cp.get(); R->count("transitions");
      int nr = countOf(log, "Invalid read of size"), nw = countOf(log, "Invalid write of size"); if (!nr && !nw) R->fail("huge-missed", R->curCase + ": " + log.substr(0, 300)); Bytes g2(8), h2(8); c.read(g, g2.data(), 8); c.read(h, h2.data(), 8); if (g2 != gb) R->fail("huge-contents", R->curCase);
      clReleaseMemObject(g); clReleaseMemObject(h); clReleaseKernel(k); R->count("traces_validated_against_impl");
    }
    clReleaseProgram(hp);
  }
  // vector components selected by a variable index
  for (const char* opt : {"", "-cl-opt-disable"}) for (const char* ty : {"uchar", "ushort", "uint", "ulong"})
  {
    string src; for (int n : {2, 3, 4, 8, 16}) src += fmt("kernel void k%d(global %s *o, long i, int op, int lim) { %s%d v = vload%d(0, o); if (op == 0) o[20] = v[i]; else if (op == 1) { v[i] = 9; vstore%d(v, 0, o); } else o[20] = i < lim ? v[i] : 5; }\n", n, ty, ty, n, n, n);
    cl_program vp = c.build(src, string("-cl-std=CL1.2 ") + opt); int es = ty[1] == 'c' ? 1 : ty[1] == 's' ? 2 : ty[1] == 'i' ? 4 : 8;
    for (int n : {2, 3, 4, 8, 16})
    {
      cl_kernel k = c.kernel(vp, fmt("k%d", n)); for (int op = 0; op < 3; op++) for (cl_long i : {0l, 1l, (long)n - 1, (long)n, n + 1l, 2l * n, 255l, 4096l, 1l << 20, 1l << 28, 1l << 31, (1l << 32) - 1, -1l})
      {
        if (!R->begin(fmt("vecindex%s%s/%s%d/%d/%ld", plug ? "+" : "", opt, ty, n, op, i))) continue; Bytes in(32 * es); pattern(in, n); Bytes w = in; cl_mem o = c.buf(32 * es, in.data()); c.arg(k, 0, o); c.arg(k, 1, i); c.arg(k, 2, op); c.arg(k, 3, (cl_int)n); cp.clear(); CK(c.launch1(k, 1, 1)); string log = cp.get(); R->count("transitions"); Bytes out(32 * es); c.read(o, out.data(), 32 * es);
        bool ok = i >= 0 && i < n; if ((ok || (op == 2 && i >= n)) && !log.empty()) R->fail("vecindex-report", R->curCase + ": " + log.substr(0, 200)); uint64_t val = op == 1 ? 9 : 5; if (op == 1) { if (ok) memcpy(&w[i * es], &val, es); else { memcpy(&w[0], &out[0], n * es); } } else { if (ok) memcpy(&w[20 * es], &in[i * es], es); else if (op == 2 && i >= 0) memcpy(&w[20 * es], &val, es); else memcpy(&w[20 * es], &out[20 * es], es); }
        if (w != out) R->fail("vecindex-contents", R->curCase); clReleaseMemObject(o); R->count("traces_validated_against_impl");
      }
      clReleaseKernel(k);
    }
    clReleaseProgram(vp);
  }
  }
  // work-group copies: whole transfer inside or outside
  cl_program ap = c.build("kernel void g2l(global uchar *g, local uchar *l, long go, long lo, long n, global uchar *res, int ln) {\n"
                          "  for (int i = 0; i < ln; i++) l[i] = 0x11; event_t e = async_work_group_copy(l + lo, (const global uchar*)g + go, n, 0); wait_group_events(1, &e); for (int i = 0; i < ln; i++) res[i] = l[i]; }\n"
                          "kernel void l2g(global uchar *g, local uchar *l, long go, long lo, long n, global uchar *res, int ln) {\n"
                          "  for (int i = 0; i < ln; i++) l[i] = 0x11; event_t e = async_work_group_copy(g + go, (const local uchar*)l + lo, n, 0); wait_group_events(1, &e); for (int i = 0; i < ln; i++) res[i] = l[i]; }\n", "-cl-std=CL1.2");
  cl_kernel kg[2] = {c.kernel(ap, "g2l"), c.kernel(ap, "l2g")}; cl_mem res = c.buf(32), G = c.buf(8);
  for (int dir = 0; dir < 2; dir++) for (long go = -2; go <= 9; go++) for (long lo = -2; lo <= 7; lo++) for (long n : {1l, 2l, 3l, 6l, 8l, 9l, 1000l})
  {
    bool huge = n > 100; if (huge && (go < 0 || lo < 0 || go > 2 || lo > 2)) continue;
    if (!R->begin(fmt("async/%d/%ld/%ld/%ld", dir, go, lo, n))) continue;
    Bytes gb(8), lb(6, 0x11), r(32); pattern(gb, 2); c.write(G, gb.data(), 8); cl_long x = go; c.arg(kg[dir], 0, G); c.localArg(kg[dir], 1, 6); c.arg(kg[dir], 2, x); x = lo; c.arg(kg[dir], 3, x); x = n; c.arg(kg[dir], 4, x); c.arg(kg[dir], 5, res); cl_int ln = 6; c.arg(kg[dir], 6, ln);
    cp.clear(); CK(c.launch1(kg[dir], 1, 1)); string log = cp.get(); R->count("transitions"); c.read(res, r.data(), 32); Bytes g2(8); c.read(G, g2.data(), 8);
    bool go_ok = !huge && go >= 0 && go + n <= 8, lo_ok = !huge && lo >= 0 && lo + n <= 6; bool src = dir ? lo_ok : go_ok, dst = dir ? go_ok : lo_ok;
    int nr = countOf(log, "Invalid read of size"), nw = countOf(log, "Invalid write of size");
    if (src && dst && !log.empty()) R->fail("async-false", R->curCase + ": " + log.substr(0, 200));
    if (!src && !nr) R->fail("async-missed-read", R->curCase); if (src && !dst && !nw) R->fail("async-missed-write", R->curCase);
    Bytes wg = gb, wl = lb; if (src && dst) for (long i = 0; i < n; i++) if (dir) wg[go + i] = 0x11; else wl[lo + i] = gb[go + i];
    r.resize(6); if (!(src && dst) && dir) for (long i = 0; i < 8; i++) if (i >= go && i < go + n) wg[i] = g2[i];
    if (wg != g2 || (dst && src && r != wl)) R->fail("async-contents", R->curCase); R->count("traces_validated_against_impl");
  }
}
VF_MAIN(body)
