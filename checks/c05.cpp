// C05: the race detector reports a race exactly when the execution has one.
#include <algorithm>
#include <array>
#include "vf.hpp"
using namespace vf;
enum Op { NONE, LDB0, LDB1, STB0_1, STB0_2, STB1_1, LDW, STW_1, STW_2, INC, XCHG, CAS, NOPS };
struct Shape { int dim; size_t g[3], l[3], o[3]; bool cl2; };
struct Acc { int wi, grp, space, byte, interval; bool store, atomic; int data; };
struct Ctx { CL* c; bool uniform; cl_kernel k, k2; cl_mem g, prog, bar; };
static Capture* cap; static Ctx U, N; static const int MAXW = 64, MAXS = 4;
static const char* oname(int o) { static const char* n[] = {"-", "ldb0", "ldb1", "stb0=1", "stb0=2", "stb1=1", "ldw", "stw=1", "stw=2", "inc", "xchg", "cas"}; return n[o]; }
struct Step { int op, space; };
struct Prog { vector<vector<Step>> st; vector<int> bar; }; // st[s][wi], bar[s] after step s
static string show(const Prog& p)
{
  string r; for (size_t s = 0; s < p.st.size(); s++) { r += "["; for (auto& x : p.st[s]) r += string(oname(x.op)) + (x.op ? x.space ? "L" : "G" : "") + " "; r += "]"; if (p.bar[s]) r += fmt("B%d", p.bar[s]); } return r;
}
static void accesses(vector<Acc>& v, int wi, int grp, const Step& s, int iL, int iG)
{
  int iv = s.space ? iL : iG; auto add = [&](int b, int n, bool st, bool at, int d) { for (int i = 0; i < n; i++) v.push_back({wi, grp, s.space, b + i, iv, st, at, d >> (8 * i) & 255}); };
  switch (s.op)
  {
    case LDB0: add(0, 1, false, false, 0); break; case LDB1: add(1, 1, false, false, 0); break;
    case STB0_1: add(0, 1, true, false, 1); break; case STB0_2: add(0, 1, true, false, 2); break; case STB1_1: add(1, 1, true, false, 1); break;
    case LDW: add(0, 4, false, false, 0); break; case STW_1: add(0, 4, true, false, 0x01010101); break; case STW_2: add(0, 4, true, false, 0x01010102); break;
    case INC: case XCHG: case CAS: add(0, 4, false, true, 0); add(0, 4, true, true, -1); break;
  }
}
static bool conflict(const Acc& a, const Acc& b, bool uniformOk)
{
  if (a.wi == b.wi || a.space != b.space || a.byte != b.byte || (a.atomic && b.atomic) || !(a.store || b.store)) return false;
  if (a.grp == b.grp) { if (a.interval != b.interval) return false; } else if (a.space) return false;
  if (a.store && b.store && uniformOk && !a.atomic && !b.atomic && a.data == b.data) return false;
  return true;
}
struct Report { bool rw; int space; uint64_t addr; string e[2]; };
static vector<Report> parse(const string& log, string* rest = 0)
{
  vector<Report> v; size_t p = 0; string other = log;
  while ((p = log.find(" data race at ", p)) != string::npos)
  {
    Report r; r.rw = p >= 10 && log.substr(p - 10, 10) == "Read-write"; char sp[32] = ""; unsigned long a = 0; sscanf(log.c_str() + p, " data race at %31s memory address 0x%lx", sp, &a); r.space = !strcmp(sp, "local") ? 1 : !strcmp(sp, "global") ? 0 : 2; r.addr = a;
    size_t f = log.find("First entity:", p), s = log.find("Second entity:", p), n = log.find(" data race at ", p + 5);
    if (f < n) { size_t b = log.find_first_not_of(' ', f + 13); r.e[0] = log.substr(b, log.find('\n', b) - b); } if (s < n) { size_t b = log.find_first_not_of(' ', s + 14); r.e[1] = log.substr(b, log.find('\n', b) - b); }
    v.push_back(r); p += 5;
  }
  return v;
}
static uint64_t baseG;
static string entity(const Shape& s, int wi, int* grp)
{
  size_t i[3], l[3], g[3], w = wi, ng[3]; for (int d = 0; d < 3; d++) { i[d] = w % s.g[d]; w /= s.g[d]; l[d] = i[d] % s.l[d]; g[d] = i[d] / s.l[d]; ng[d] = (s.g[d] + s.l[d] - 1) / s.l[d]; }
  if (grp) *grp = g[0] + ng[0] * (g[1] + ng[1] * g[2]);
  return fmt("Global(%zu,%zu,%zu) Local(%zu,%zu,%zu) Group(%zu,%zu,%zu)", i[0] + s.o[0], i[1] + s.o[1], i[2] + s.o[2], l[0], l[1], l[2], g[0], g[1], g[2]);
}
static void run(Ctx& x, const Shape& s, const Prog& p, const string& pre)
{
  string id = pre + show(p); if (!R->begin(id)) return;
  int W = s.g[0] * s.g[1] * s.g[2]; vector<Acc> acc; vector<int> grp(W); vector<string> ent(W); vector<cl_int> tab, bar;
  for (int w = 0; w < W; w++) ent[w] = entity(s, w, &grp[w]);
  int iL = 0, iG = 0;
  for (size_t t = 0; t < p.st.size(); t++)
  {
    for (int w = 0; w < W; w++) { Step q = p.st[t][w]; accesses(acc, w, grp[w], q, iL, iG); tab.push_back(q.op + (q.space ? NOPS : 0)); }
    bar.push_back(p.bar[t]); if (p.bar[t] & 1) iL++; if (p.bar[t] & 2) iG++;
  }
  cl_uint z[2] = {0, 0}; CL& c = *x.c; c.write(x.g, z, 8); c.write(x.prog, tab.data(), tab.size() * 4); c.write(x.bar, bar.data(), bar.size() * 4);
  cl_kernel k = s.cl2 ? x.k2 : x.k; c.arg(k, 0, x.g); c.localArg(k, 1, 8); c.arg(k, 2, x.prog); c.arg(k, 3, x.bar); cl_int n = p.st.size(); c.arg(k, 4, n);
  cap->clear(); cl_int e = c.launch(k, s.dim, s.g, s.l, s.o); string log = cap->get(); R->count("transitions", W * n); R->count("traces_validated_against_impl");
  if (e) { R->fail("launch", id + fmt(": %d", e)); return; }
  bool want[2] = {0, 0}; std::set<string> pairs;
  for (size_t a = 0; a < acc.size(); a++) for (size_t b = a + 1; b < acc.size(); b++) if (conflict(acc[a], acc[b], x.uniform))
  {
    want[acc[a].space] = true; bool rw = !acc[a].store || !acc[b].store; string h = fmt("%d/%d/%d/", rw, acc[a].space, acc[a].byte);
    pairs.insert(h + ent[acc[a].wi] + "/" + ent[acc[b].wi]); pairs.insert(h + ent[acc[b].wi] + "/" + ent[acc[a].wi]);
    if (!rw && acc[a].grp != acc[b].grp) // a race between work-groups may name any store of the two groups to that byte
      for (auto& q : acc) for (auto& r : acc) if (q.store && r.store && !q.space && !r.space && q.byte == acc[a].byte && r.byte == q.byte && ((q.grp == acc[a].grp && r.grp == acc[b].grp) || (q.grp == acc[b].grp && r.grp == acc[a].grp))) pairs.insert(h + ent[q.wi] + "/" + ent[r.wi]);
  }
  auto rep = parse(log); bool got[2] = {0, 0};
  if ((int)rep.size() != countOf(log, "data race") || (rep.empty() && !log.empty())) R->fail("other-output", id + ": " + log.substr(0, 400));
  for (auto& r : rep)
  {
    if (r.space > 1) { R->fail("space", id + ": " + log.substr(0, 300)); continue; } got[r.space] = true;
    if (!want[r.space]) continue;
    int byte = r.space ? (int)(r.addr & 0xffffffff) : (int)(r.addr - baseG); 
    // a racing atomic may be named through its read or its write
    string t = fmt("/%d/%d/", r.space, byte) + r.e[0] + "/" + r.e[1];
    if (!pairs.count(string(r.rw ? "1" : "0") + t)) R->fail("report-details", id + fmt(": reported race is not one of the races (%s, byte %d, ", r.rw ? "rw" : "ww", byte) + r.e[0] + " / " + r.e[1] + ")");
  }
  for (int sp = 0; sp < 2; sp++)
  {
    string kind = fmt("%s:%dd:%zugroups:%s", sp ? "local" : "global", s.dim, (size_t)(*std::max_element(grp.begin(), grp.end())) + 1, pre.substr(0, pre.find(':')).c_str());
    if (want[sp] && !got[sp]) R->fail("missed:" + kind, id + ": race not reported"); if (!want[sp] && got[sp]) R->fail("false:" + kind, id + ": reported although there is none: " + log.substr(0, 400));
  }
}
static Shape one(size_t groups, size_t l) { return {1, {groups * l, 1, 1}, {l, 1, 1}, {0, 0, 0}, false}; }
// every program with W work-items and the given steps over alphabet `al` (with spaces) and barrier flags `bf` between steps
static void all(Ctx& x, const Shape& s, int S, const vector<Step>& al, const vector<int>& bf, const string& pre, bool last = false)
{
  int W = s.g[0] * s.g[1] * s.g[2]; vector<int> d(W * S, 0), b(S, 0);
  for (;;)
  {
    bool canon = true; // at least one store somewhere, otherwise trivially race free: explored once per barrier vector only
    Prog p; p.st.resize(S); p.bar.assign(S, 0); int stores = 0; for (int t = 0; t < S; t++) for (int w = 0; w < W; w++) { Step q = al[d[t * W + w]]; p.st[t].push_back(q); stores += q.op != NONE && q.op != LDB0 && q.op != LDB1 && q.op != LDW; }
    if (stores || (canon && S == 1))
    {
      std::fill(b.begin(), b.end(), 0);
      for (;;) { for (int t = 0; t < S; t++) p.bar[t] = bf[b[t]]; run(x, s, p, pre); int i = 0, lim = S - (last ? 0 : 1); while (i < lim && ++b[i] == (int)bf.size()) b[i++] = 0; if (i >= lim) break; }
    }
    int i = 0; while (i < W * S && ++d[i] == (int)al.size()) d[i++] = 0; if (i == W * S) break;
  }
}
#include <algorithm>
static vector<Step> A(std::initializer_list<int> g, std::initializer_list<int> l) { vector<Step> v; v.push_back({NONE, 0}); for (int o : g) v.push_back({o, 0}); for (int o : l) v.push_back({o, 1}); return v; }
static void shapes(Ctx& x)
{
  bool T = R->thorough; vector<Shape> S;
  auto add = [&](int dim, std::array<size_t, 3> g, std::array<size_t, 3> l, bool cl2) { for (int off = 0; off < 3; off++) { Shape s; s.dim = dim; s.cl2 = cl2; for (int d = 0; d < 3; d++) { s.g[d] = g[d]; s.l[d] = l[d]; s.o[d] = d < dim ? off == 0 ? 0 : off == 1 ? 1 + 2 * d : 7 - d : 0; } S.push_back(s); } };
  add(1, {4, 1, 1}, {2, 1, 1}, false); add(1, {6, 1, 1}, {2, 1, 1}, false); add(1, {5, 1, 1}, {2, 1, 1}, true); add(1, {3, 1, 1}, {1, 1, 1}, false);
  add(2, {2, 2, 1}, {1, 1, 1}, false); add(2, {2, 2, 1}, {2, 1, 1}, false); add(2, {2, 2, 1}, {1, 2, 1}, false); add(2, {4, 2, 1}, {2, 1, 1}, false); add(2, {4, 2, 1}, {2, 2, 1}, false); add(2, {3, 4, 1}, {3, 2, 1}, false); add(2, {3, 3, 1}, {2, 2, 1}, true); add(2, {2, 4, 1}, {1, 2, 1}, false);
  add(3, {2, 2, 2}, {1, 1, 1}, false); add(3, {2, 2, 2}, {2, 1, 1}, false); add(3, {2, 2, 2}, {1, 2, 1}, false); add(3, {2, 2, 2}, {1, 1, 2}, false); add(3, {2, 2, 3}, {2, 1, 2}, true); add(3, {3, 2, 2}, {2, 2, 1}, true);
  for (auto& s : S)
  {
    int W = s.g[0] * s.g[1] * s.g[2]; string pre = fmt("shape:%d/%zu,%zu,%zu/%zu,%zu,%zu/%zu%s ", s.dim, s.g[0], s.g[1], s.g[2], s.l[0], s.l[1], s.l[2], s.o[0], s.cl2 ? "/2.0" : "");
    for (int a = 0; a < W; a++) for (int b = 0; b < W; b++) { if (a == b) continue; for (int sp = 0; sp < 2; sp++) for (int bar : T ? vector<int>{0, 1, 2, 3} : vector<int>{0, sp ? 1 : 2}) for (int kind = 0; kind < 2; kind++)
    {
      if (bar == 0 && a > b && kind) continue;
      Prog p; p.st.assign(2, vector<Step>(W, {NONE, 0})); p.bar = {bar, 0}; p.st[0][a] = {STB0_1, sp}; p.st[1][b] = {kind ? STB0_2 : LDB0, sp}; run(x, s, p, pre);
    } }
    // race-free: every work-item loads; every work-item stores the same value; atomics
    for (int o : {LDW, STW_1, INC, STW_2}) for (int sp = 0; sp < 2; sp++) { Prog p; p.st.assign(1, vector<Step>(W, {o, sp})); p.bar = {0}; run(x, s, p, pre); }
  }
}
// sizes, forms and overlaps of two accesses
struct Form { string name, code; int size, align; int kind; bool agg; }; // kind 0 load 1 store 2 atomic
static vector<Form> forms(const string& as)
{
  vector<Form> v; struct T { const char* n; int s; }; const char* q = as.c_str();
  for (auto t : {T{"char", 1}, T{"short", 2}, T{"int", 4}, T{"float", 4}, T{"long", 8}, T{"double", 8}, T{"int2", 8}, T{"uchar4", 4}, T{"float4", 16}}) { v.push_back({fmt("ld_%s", t.n), fmt("*(volatile %s %s*)(o+me*16) = *(volatile %s %s*)q;", "private", t.n, q, t.n), t.s, t.s, 0}); v.push_back({fmt("st_%s", t.n), fmt("*(%s %s*)q = (%s)(v);", q, t.n, t.n), t.s, t.s, 1}); }
  for (int n : {2, 3, 4, 8}) { v.push_back({fmt("vload%d_c", n), fmt("vstore%d(vload%d(0, (%s uchar*)q), 0, o);", n, n, q), n, 1, 0}); v.push_back({fmt("vstore%d_c", n), fmt("vstore%d((uchar%d)(v), 0, (%s uchar*)q);", n, n, q), n, 1, 1}); }
  v.push_back({"vload3_i", fmt("vstore3(vload3(0, (%s int*)q), 0, (int*)o);", q), 12, 4, 0}); v.push_back({"vstore3_i", fmt("vstore3((int3)(v), 0, (%s int*)q);", q), 12, 4, 1});
  v.push_back({"vload_half4", fmt("vstore4(vload_half4(0, (%s half*)q), 0, (float*)o);", q), 8, 2, 0}); v.push_back({"vstore_half4", fmt("vstore_half4((float4)(v), 0, (%s half*)q);", q), 8, 2, 1});
  v.push_back({"copyfrom", fmt("*(struct s5*)o = *(%s struct s5*)q;", q), 5, 1, 0}); v.push_back({"copyto", fmt("*(%s struct s5*)q = *(struct s5*)w;", q), 5, 1, 1});
  v.push_back({"atomic_add", fmt("atomic_add((volatile %s int*)q, v);", q), 4, 4, 2}); v.push_back({"atom_xchg64", fmt("atom_xchg((volatile %s long*)q, v);", q), 8, 8, 2}); v.push_back({"atomic_cmpxchg", fmt("{ int cur = atomic_or((volatile %s int*)q, 0); atomic_cmpxchg((volatile %s int*)q, cur, v); }", q, q), 4, 4, 2});
  return v;
}
static void overlaps(Ctx& x)
{
  CL& c = *x.c; bool T = R->thorough;
  for (int sp = 0; sp < 2; sp++)
  {
    string as = sp ? "local" : "global"; auto F = forms(as);
    string src = "#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable\nstruct s5 { uchar x[5]; };\nkernel void k(global uchar *G, local uchar *L, int f0, int o0, int f1, int o1, int n) {\n int me = get_global_id(0), f = me ? f1 : f0; uchar o[64]; uchar w[8]; int v = me + 1; for (int i = 0; i < 8; i++) w[i] = v; " + as + " uchar *q = " + (sp ? "L" : "G") + " + (me ? o1 : o0);\n switch (f) {\n";
    for (size_t i = 0; i < F.size(); i++) src += fmt("case %zu: { %s break; }\n", i, F[i].code.c_str()); src += "} }\n";
    cl_program p = c.build(src, "-cl-std=CL1.2 -cl-opt-disable"); cl_kernel k = c.kernel(p, "k"); c.arg(k, 0, x.g); c.localArg(k, 1, 64); 
    for (size_t f0 = 0; f0 < F.size(); f0++) for (size_t f1 = 0; f1 < F.size(); f1++) for (int ls = 2; ls >= (sp ? 2 : 1); ls--) for (int o1 = 0; o1 <= 40; o1 += F[f1].align)
    {
      const int o0 = 16; if (o1 + F[f1].size < o0 - 1 && o1) continue; if (o1 > o0 + F[f0].size + F[f1].align) continue; if (!T && ls == 1 && f0 > f1) continue;
      if (!R->begin(fmt("overlap/%s/%s/%s/%d/%d", as.c_str(), F[f0].name.c_str(), F[f1].name.c_str(), ls, o1))) continue; string id = R->curCase;
      cl_int a[5] = {(cl_int)f0, o0, (cl_int)f1, o1, 0}; for (int i = 0; i < 5; i++) c.arg(k, 2 + i, a[i]); cap->clear(); CK(c.launch1(k, 2, ls)); string log = cap->get(); R->count("transitions", 2); R->count("traces_validated_against_impl");
      bool ov = o1 < o0 + F[f0].size && o0 < o1 + F[f1].size, race = ov && (F[f0].kind || F[f1].kind) && !(F[f0].kind == 2 && F[f1].kind == 2);
      bool unsure = race && F[f0].kind == 1 && F[f1].kind == 1 && x.uniform; // overlapping bytes of two stores may be equal
      bool sure = unsure && F[f0].name == F[f1].name && o0 == o1; if (sure) unsure = false;
      auto rep = parse(log); if (rep.empty() && !log.empty()) R->fail("other-output", id + ": " + log.substr(0, 300));
      if (unsure) continue; if (race != !rep.empty()) R->fail(string(race ? "missed" : "false") + ":overlap:" + F[f0].name + ":" + F[f1].name, id + (race ? ": race not reported" : ": " + log.substr(0, 300)));
      for (auto& r : rep) { int b = (sp ? (int)(r.addr & 0xffffffff) : (int)(r.addr - baseG)); if (b < std::max(o0, o1) || b >= std::min(o0 + F[f0].size, o1 + F[f1].size)) R->fail("overlap-address", id + fmt(": byte %d", b)); }
    }
    clReleaseKernel(k); clReleaseProgram(p);
  }
}
// sequences of kernels, re-created buffers, async copies, images, aliases
static void histories(Ctx& x)
{
  CL& c = *x.c; cl_program p = c.build(
    "kernel void st(global int *p, int v) { if (get_global_id(0) == get_global_size(0) - 1) *p = v; }\n"
    "kernel void ld(global int *p, global int *o) { if (get_global_id(0) == 0) o[1] = *p; }\n"
    "kernel void racy(global int *p, int v) { *p = v + get_global_id(0); }\n"
    "kernel void two(global int *p, global int *q) { if (get_global_id(0)) *p = 1; else *q = 2; }\n"
    "kernel void img(write_only image2d_t i, int stride) { int g = get_global_id(0); write_imageui(i, (int2)(g * stride, 0), (uint4)(g + 1)); }\n"
    "kernel void priv(global int *o) { int a[2]; a[0] = get_global_id(0); a[1] = a[0]; o[get_global_id(0)] = a[0] + a[1]; }\n"
    "kernel void acopy(global int *p, local int *l, int when, int what, int bar) { int i = get_local_id(0); \n"
    "  if (when == 0 && i == 1) { if (what == 0) l[2] = 9; else if (what == 1) p[2] = 9; else if (what == 2) p[5] = l[7]; else p[5] = p[2]; }\n"
    "  if (bar) barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); event_t e = async_work_group_copy(l, p, 4, 0); wait_group_events(1, &e);\n"
    "  if (when == 1 && i == 1) { if (what == 0) l[2] = 9; else if (what == 1) p[2] = 9; else if (what == 2) p[5] = l[2]; else p[5] = p[2]; } }\n", "-cl-std=CL1.2");
  cl_kernel st = c.kernel(p, "st"), ld = c.kernel(p, "ld"), racy = c.kernel(p, "racy"), two = c.kernel(p, "two"), img = c.kernel(p, "img"), priv = c.kernel(p, "priv"), ac = c.kernel(p, "acopy");
  cl_mem out = c.buf(4096);
  // all sequences of up to 4 kernels over two buffers, with one of them possibly re-created in between
  int NK = 3;
  for (int n = 1; n <= 4; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= NK * 2; for (int w = 0; w < tot; w++) for (int re = 0; re <= n; re++) for (int ls = 1; ls <= 4; ls += 3)
  {
    if (!R->thorough && n == 4 && w % 3 != re % 3) continue;
    if (!R->begin(fmt("seq/%d/%d/%d/%d", n, w, re, ls))) continue; string id = R->curCase; cl_mem b[2] = {c.buf(8), c.buf(16)}; int a = w;
    for (int i = 0; i < n; i++)
    {
      if (re == i + 1) { clReleaseMemObject(b[0]); if (w & 1) { clReleaseMemObject(b[1]); b[1] = c.buf(24); } b[0] = c.buf(16); }
      int kind = a % NK; a /= NK; cl_mem m = b[a & 1]; a >>= 1; cl_kernel k = kind == 0 ? st : kind == 1 ? ld : racy; cl_int v = i; c.arg(k, 0, m); if (kind == 1) c.arg(k, 1, out); else c.arg(k, 1, v);
      cap->clear(); CK(c.launch1(k, 4, ls)); CK(clSetKernelArg(k, 0, sizeof(cl_mem), 0)); auto rep = parse(cap->get()); R->count("transitions"); if (rep.empty() != (kind != 2)) R->fail(string(kind == 2 ? "missed" : "false") + ":sequence", id + fmt(": kernel %d", i));
    }
    clReleaseMemObject(b[0]); clReleaseMemObject(b[1]); R->count("traces_validated_against_impl");
  } }
  // aliases: sub-buffers
  for (int o = 0; o < 3; o++) for (int ls = 1; ls < 3; ls++)
  {
    if (!R->begin(fmt("alias/%d/%d", o, ls))) continue; cl_mem par = c.buf(512); cl_int e; cl_buffer_region r1 = {128, 8}, r2 = {(size_t)(o * 128), 8}; cl_mem s1 = clCreateSubBuffer(par, 0, CL_BUFFER_CREATE_TYPE_REGION, &r1, &e), s2 = clCreateSubBuffer(par, 0, CL_BUFFER_CREATE_TYPE_REGION, &r2, &e);
    c.arg(two, 0, s1); c.arg(two, 1, s2); cap->clear(); CK(c.launch1(two, 2, ls)); auto rep = parse(cap->get()); if (rep.empty() != (o != 1)) R->fail("alias", R->curCase); R->count("transitions"); CK(clSetKernelArg(two, 0, sizeof(cl_mem), 0)); CK(clSetKernelArg(two, 1, sizeof(cl_mem), 0)); clReleaseMemObject(s1); clReleaseMemObject(s2); clReleaseMemObject(par);
  }
  for (int stride = 0; stride < 2; stride++) for (int ls = 1; ls < 3; ls++)
  {
    if (!R->begin(fmt("image/%d/%d", stride, ls))) continue; cl_image_format f = {CL_RGBA, CL_UNSIGNED_INT8}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = CL_MEM_OBJECT_IMAGE2D; ds.image_width = 4; ds.image_height = 2; cl_int e; cl_mem im = clCreateImage(c.ctx, 0, &f, &ds, 0, &e); CK(e);
    c.arg(img, 0, im); cl_int s = stride; c.arg(img, 1, s); cap->clear(); CK(c.launch1(img, 4, ls)); auto rep = parse(cap->get()); R->count("transitions"); if (rep.empty() != (stride == 1)) R->fail("image", R->curCase); clReleaseMemObject(im);
    c.arg(priv, 0, out); cap->clear(); CK(c.launch1(priv, 4, ls)); if (!cap->get().empty()) R->fail("private", R->curCase);
  }
  // async copies race with accesses of work-items before them (no barrier), never with accesses after the wait
  for (int when = 0; when < 2; when++) for (int what = 0; what < 4; what++) for (int bar = 0; bar < 2; bar++)
  {
    if (!R->begin(fmt("async/%d/%d/%d", when, what, bar))) continue; cl_mem b = c.buf(64); c.arg(ac, 0, b); c.localArg(ac, 1, 64); cl_int v[3] = {when, what, bar}; for (int i = 0; i < 3; i++) c.arg(ac, 2 + i, v[i]);
    cap->clear(); CK(c.launch1(ac, 3, 3)); auto rep = parse(cap->get()); R->count("transitions"); bool want = when == 0 && !bar && (what == 0 || what == 1); if (want != !rep.empty()) R->fail(fmt("async:%s", want ? "missed" : "false"), R->curCase); clReleaseMemObject(b);
  }
}
// copies performed by a work-group against copies of other work-groups and accesses of work-items: every pair of groups, every work-item
static void groupCopies(Ctx& x)
{
  CL& c = *x.c; cl_kernel k = c.kernel(c.build("kernel void gc(volatile global uint *p, local uint *l, int A, int ka, int B, int kb, int who) { int g = get_group_id(0) + get_num_groups(0) * (get_group_id(1) + get_num_groups(1) * get_group_id(2)), me = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));\n"
    " int a = g == A ? ka : 0, b = g == B ? kb : 0; if (me == 0) l[0] = g + 1; if (b == 3 && me == who) p[0] = g + 1; if (b == 4 && me == who) { volatile uint sink = p[0]; } barrier(CLK_LOCAL_MEM_FENCE);\n"
    " int cp = a ? a : b; if (cp == 1) { event_t e = async_work_group_copy(l + 2, (global uint*)p, 1, 0); wait_group_events(1, &e); } if (cp == 2) { event_t e = async_work_group_copy((global uint*)p, l, 1, 0); wait_group_events(1, &e); } }", "-cl-std=CL1.2"), "gc");
  vector<Shape> S; auto add = [&](int dim, std::array<size_t, 3> g, std::array<size_t, 3> l, std::array<size_t, 3> o) { Shape s; s.dim = dim; s.cl2 = false; for (int d = 0; d < 3; d++) { s.g[d] = g[d]; s.l[d] = l[d]; s.o[d] = o[d]; } S.push_back(s); };
  add(1, {4, 1, 1}, {1, 1, 1}, {0, 0, 0}); add(1, {6, 1, 1}, {2, 1, 1}, {5, 0, 0}); add(2, {2, 3, 1}, {1, 1, 1}, {0, 0, 0}); add(2, {6, 4, 1}, {2, 2, 1}, {0, 0, 0}); add(3, {2, 3, 2}, {1, 1, 1}, {0, 0, 0}); add(3, {3, 4, 2}, {1, 2, 1}, {0, 0, 0}); add(3, {2, 1, 4}, {2, 1, 1}, {1, 2, 3}); 
  if (R->thorough) { add(3, {3, 2, 3}, {1, 1, 1}, {0, 0, 0}); add(3, {4, 3, 4}, {2, 1, 2}, {3, 0, 1}); add(2, {2, 7, 1}, {1, 1, 1}, {0, 1, 0}); }
  for (auto& s : S)
  {
    int W = s.g[0] * s.g[1] * s.g[2], L = s.l[0] * s.l[1] * s.l[2], G = W / L; vector<vector<int>> wi(G, vector<int>(L)); // work-item of group g with local index i
    for (int w = 0; w < W; w++) { int g; string e = entity(s, w, &g); size_t t = w, l[3]; for (int d = 0; d < 3; d++) { l[d] = t % s.g[d] % s.l[d]; t /= s.g[d]; } wi[g][l[0] + s.l[0] * (l[1] + s.l[1] * l[2])] = w; }
    auto gname = [&](int g) { string e = entity(s, wi[g][0], 0); return e.substr(e.find("Group")); };
    for (int A = 0; A < G; A++) for (int B = 0; B < G; B++) for (int ka = 1; ka <= 2; ka++) for (int kb = A == B ? 3 : 1; kb <= 4; kb++) for (int who = 0; who < (kb > 2 ? L : 1); who++)
    {
      if (!R->begin(fmt("group/%d/%zu,%zu,%zu/%zu,%zu,%zu/%d%d/%d%d/%d", s.dim, s.g[0], s.g[1], s.g[2], s.l[0], s.l[1], s.l[2], A, B, ka, kb, who))) continue; string id = R->curCase;
      cl_uint z = 0; c.write(x.g, &z, 4); c.arg(k, 0, x.g); c.localArg(k, 1, 16); int v[5] = {A, ka, B, kb, who}; for (int i = 0; i < 5; i++) c.arg(k, 2 + i, v[i]);
      cap->clear(); CK(c.launch(k, s.dim, s.g, s.l, s.o)); string log = cap->get(); auto rep = parse(log); R->count("transitions", 2); R->count("traces_validated_against_impl");
      bool sa = ka == 2, sb = kb == 2 || kb == 3, want = (sa || sb) && !(sa && sb && A == B && x.uniform);
      if (want == rep.empty()) R->fail(string(want ? "missed" : "false") + ":group-copy", id + ": " + log.substr(0, 300));
      string ea = gname(A), eb = kb > 2 ? entity(s, wi[B][who], 0) : gname(B);
      for (auto& r : rep) if (want && (!((r.e[0] == ea && r.e[1] == eb) || (r.e[0] == eb && r.e[1] == ea)) || r.space || r.addr < baseG || r.addr > baseG + 3 || r.rw != (sa != sb))) R->fail("report-details:group-copy", id + ": " + log.substr(0, 400));
    }
  }
}
static void init(Ctx& x, bool uniform)
{
  x.uniform = uniform; if (uniform) unsetenv("OCLGRIND_UNIFORM_WRITES"); else setenv("OCLGRIND_UNIFORM_WRITES", "1", 1);
  x.c = new CL; CL& c = *x.c; string cases;
  for (int sp = 0; sp < 2; sp++) { string as = sp ? "local" : "global", q = sp ? "L" : "G"; const char* a = as.c_str(); const char* Q = q.c_str();
    auto C = [&](int o, string s) { cases += fmt("case %d: %s; break;\n", o + sp * NOPS, s.c_str()); };
    C(LDB0, fmt("sink = %s[0]", Q)); C(LDB1, fmt("sink = %s[1]", Q)); C(STB0_1, fmt("%s[0] = 1", Q)); C(STB0_2, fmt("%s[0] = 2", Q)); C(STB1_1, fmt("%s[1] = 1", Q)); C(LDW, fmt("sink = *(volatile %s uint*)%s", a, Q)); C(STW_1, fmt("*(volatile %s uint*)%s = 0x01010101", a, Q)); C(STW_2, fmt("*(volatile %s uint*)%s = 0x01010102", a, Q));
    C(INC, fmt("atomic_inc((volatile %s uint*)%s)", a, Q)); C(XCHG, fmt("atomic_xchg((volatile %s uint*)%s, 77u)", a, Q)); C(CAS, fmt("{ uint cur; do cur = atomic_or((volatile %s uint*)%s, 0u); while (atomic_cmpxchg((volatile %s uint*)%s, cur, 99u) != cur); }", a, Q, a, Q)); }
  string src = "kernel void k(volatile global uchar *G, volatile local uchar *L, global const int *prog, global const int *bar, int n) {\n"
    " size_t x = get_global_id(0) - get_global_offset(0), y = get_global_id(1) - get_global_offset(1), z = get_global_id(2) - get_global_offset(2); int W = get_global_size(0) * get_global_size(1) * get_global_size(2), me = x + get_global_size(0) * (y + get_global_size(1) * z); volatile uint sink;\n"
    " for (int s = 0; s < n; s++) {\n switch (prog[s * W + me]) {\n" + cases + "}\n switch (bar[s]) { case 1: barrier(CLK_LOCAL_MEM_FENCE); break; case 2: barrier(CLK_GLOBAL_MEM_FENCE); break; case 3: barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE); break; }\n } }\n"
    "kernel void addr(global uchar *G, global ulong *o) { *o = (ulong)G; }\n";
  cl_program p = c.build(src, "-cl-std=CL1.2"); x.k = c.kernel(p, "k"); 
  // 2.0 is used for its non-uniform groups only: without the atomic cases
  string lines; std::istringstream is(src); string ln; while (std::getline(is, ln)) if (ln.find("atomic_") == string::npos) lines += ln + "\n";
  x.k2 = c.kernel(c.build(lines, "-cl-std=CL2.0"), "k");
  x.g = c.buf(64); x.prog = c.buf(4 * MAXW * MAXS); x.bar = c.buf(4 * MAXS); cl_mem o = c.buf(8); cl_kernel ka = c.kernel(p, "addr"); c.arg(ka, 0, x.g); c.arg(ka, 1, o); CK(c.launch1(ka, 1, 1)); c.read(o, &baseG, 8);
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); env("OCLGRIND_DATA_RACES", "1"); Capture cp; cap = &cp; bool T = R->thorough; init(U, true); init(N, false);
  for (Ctx* x : {&U, &N})
  {
    string t = x->uniform ? "" : "uw/"; bool full = x->uniform || T;
    // one group
    all(*x, one(1, 2), 1, A({LDB0, LDB1, STB0_1, STB0_2, STB1_1, LDW, STW_1, STW_2, INC, XCHG, CAS}, {LDB0, LDB1, STB0_1, STB0_2, STB1_1, LDW, STW_1, STW_2, INC, XCHG, CAS}), {0}, t + "1x2:");
    all(*x, one(1, 2), 2, full ? A({LDB0, STB0_1, STB0_2, STW_1, INC}, {LDB0, STB0_1, STB0_2, INC}) : A({LDB0, STB0_1, STB0_2}, {STB0_1}), {0, 1, 2, 3}, t + "1x2:");
    all(*x, one(1, 3), 1, A({LDB0, STB0_1, STB0_2, STB1_1, LDW, STW_1, INC}, {LDB0, STB0_1, INC}), {0}, t + "1x3:");
    all(*x, one(1, 2), 3, T ? A({LDB0, STB0_1, STB0_2}, {STB0_1}) : A({LDB0, STB0_1, STB0_2}, {}), {0, 1, 2}, t + "1x2:");
    all(*x, one(1, 3), 2, T ? A({LDB0, STB0_1, STB0_2}, {STB0_2}) : A({LDB0, STB0_1}, {}), {0, 1, 2}, t + "1x3:");
    // several groups
    all(*x, one(2, 1), 1, A({LDB0, LDB1, STB0_1, STB0_2, STB1_1, LDW, STW_1, STW_2, INC, XCHG, CAS}, {STB0_1, STB0_2}), {0}, t + "2x1:");
    all(*x, one(2, 1), 2, full ? A({LDB0, STB0_1, STB0_2, STW_1, LDW, INC, CAS}, {STB0_1}) : A({LDB0, STB0_1, STB0_2}, {}), {0, 2}, t + "2x1:");
    all(*x, one(3, 1), 1, A({LDB0, STB0_1, STB0_2, LDW, STW_1, INC}, {}), {0}, t + "3x1:");
    all(*x, one(2, 2), 1, A({LDB0, STB0_1, STB0_2, INC}, {STB0_1}), {0}, t + "2x2:");
    all(*x, one(2, 2), 2, T ? A({LDB0, STB0_1, STB0_2}, {}) : A({STB0_1, STB0_2}, {}), {0, 2}, t + "2x2:");
    if (T) { all(*x, one(3, 1), 2, A({LDB0, STB0_1, STB0_2, INC}, {}), {0, 2}, t + "3x1:"); all(*x, one(2, 1), 3, A({LDB0, STB0_1, STB0_2, INC}, {}), {0, 2}, t + "2x1:"); all(*x, one(1, 4), 1, A({LDB0, STB0_1, STB0_2, LDW, STW_1, INC}, {}), {0}, t + "1x4:"); all(*x, one(3, 2), 1, A({LDB0, STB0_1, STB0_2}, {}), {0}, t + "3x2:"); }
    if (x->uniform) { shapes(*x); overlaps(*x); histories(*x); }
    groupCopies(*x);
  }
  R->sample("last case of this shard: " + R->curCase);
}
VF_MAIN(body)
