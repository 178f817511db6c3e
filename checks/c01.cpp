// C01: every NDRange executes each work-item exactly once with the identity OpenCL defines.
// Exhaustive over small NDRange shapes; each launch is compared with a reference enumeration.
#include "vf.hpp"
#include <algorithm>
#include <array>
using namespace vf;
typedef std::array<uint64_t, 40> Rec;
static const int NF = 40;
static string source(bool cl20)
{
  string s = "kernel void k(global volatile uint *slot, global ulong *rec, uint cap, local ulong *la) {\n"
             "  local ulong lb;\n  uint s = atomic_inc(slot);\n"
             "  uint lin = get_local_id(0) + get_local_size(0)*(get_local_id(1) + get_local_size(1)*get_local_id(2));\n"
             "  if (lin == 0) { lb = 0; la[0] = 0; }\n  barrier(CLK_LOCAL_MEM_FENCE);\n"
             "  volatile local uint *p = (volatile local uint*)&lb; volatile local uint *q = (volatile local uint*)la;\n"
             "  atomic_inc(p); atomic_add(q, (uint)(1 + get_global_id(0)*3 + get_global_id(1)*257 + get_global_id(2)*65537));\n"
             "  barrier(CLK_LOCAL_MEM_FENCE);\n"
             "  if (s >= cap) return;\n  global ulong *r = rec + s*40;\n  int n = 0;\n"
             "  for (int d = 0; d < 3; d++) { r[n++] = get_global_id(d); r[n++] = get_local_id(d); r[n++] = get_group_id(d);\n"
             "    r[n++] = get_global_size(d); r[n++] = get_local_size(d); r[n++] = get_num_groups(d); r[n++] = get_global_offset(d); }\n"
             "  r[n++] = get_work_dim();\n  r[n++] = lb; r[n++] = la[0];\n"
             "  uint bad = 3 + (s & 1) * 1000000;\n"
             "  r[n++] = get_global_id(bad); r[n++] = get_local_id(bad); r[n++] = get_group_id(bad); r[n++] = get_global_size(bad);\n"
             "  r[n++] = get_local_size(bad); r[n++] = get_num_groups(bad); r[n++] = get_global_offset(bad);\n";
  if (cl20)
    s += "  r[n++] = get_global_linear_id(); r[n++] = get_local_linear_id();\n"
         "  r[n++] = get_enqueued_local_size(0); r[n++] = get_enqueued_local_size(1); r[n++] = get_enqueued_local_size(2); r[n++] = get_enqueued_local_size(bad);\n";
  return s + "}\n";
}
static vector<Rec> reference(int dim, const size_t* G, const size_t* L, const size_t* O, bool cl20, bool quick)
{
  uint64_t g[3] = {1, 1, 1}, l[3] = {1, 1, 1}, o[3] = {0, 0, 0}, n[3];
  for (int d = 0; d < dim; d++) { g[d] = G[d]; l[d] = L ? L[d] : 1; o[d] = O ? O[d] : 0; }
  for (int d = 0; d < 3; d++) n[d] = (g[d] + l[d] - 1) / l[d];
  vector<Rec> out;
  for (uint64_t gz = 0; gz < n[2]; gz++) for (uint64_t gy = 0; gy < n[1]; gy++) for (uint64_t gx = 0; gx < n[0]; gx++)
  {
    uint64_t gid[3] = {gx, gy, gz}, ls[3];
    uint64_t lin = gx + n[0] * (gy + n[1] * gz);
    if (quick && lin != 0 && lin != n[0] * n[1] * n[2] - 1) continue;
    for (int d = 0; d < 3; d++) ls[d] = std::min(l[d], g[d] - gid[d] * l[d]);
    uint32_t sum = 0; size_t first = out.size();
    for (uint64_t z = 0; z < ls[2]; z++) for (uint64_t y = 0; y < ls[1]; y++) for (uint64_t x = 0; x < ls[0]; x++)
    {
      uint64_t lid[3] = {x, y, z}, wi[3]; Rec r; r.fill(0); int k = 0;
      for (int d = 0; d < 3; d++)
      {
        wi[d] = o[d] + gid[d] * l[d] + lid[d];
        r[k++] = wi[d]; r[k++] = lid[d]; r[k++] = gid[d]; r[k++] = g[d]; r[k++] = ls[d]; r[k++] = n[d]; r[k++] = o[d];
      }
      sum += (uint32_t)(1 + wi[0] * 3 + wi[1] * 257 + wi[2] * 65537);
      r[k++] = dim; r[k++] = ls[0] * ls[1] * ls[2]; r[k++] = 0;
      r[k++] = 0; r[k++] = 0; r[k++] = 0; r[k++] = 1; r[k++] = 1; r[k++] = 1; r[k++] = 0;
      if (cl20)
      {
        r[k++] = (wi[0] - o[0]) + g[0] * ((wi[1] - o[1]) + g[1] * (wi[2] - o[2]));
        r[k++] = x + ls[0] * (y + ls[1] * z);
        for (int d = 0; d < 3; d++) r[k++] = l[d];
        r[k++] = 1;
      }
      out.push_back(r);
    }
    for (size_t i = first; i < out.size(); i++) out[i][23] = sum;
  }
  return out;
}
static const char* names[] = {"get_global_id(0)", "get_local_id(0)", "get_group_id(0)", "get_global_size(0)", "get_local_size(0)", "get_num_groups(0)", "get_global_offset(0)",
  "get_global_id(1)", "get_local_id(1)", "get_group_id(1)", "get_global_size(1)", "get_local_size(1)", "get_num_groups(1)", "get_global_offset(1)",
  "get_global_id(2)", "get_local_id(2)", "get_group_id(2)", "get_global_size(2)", "get_local_size(2)", "get_num_groups(2)", "get_global_offset(2)",
  "get_work_dim()", "work-items sharing the static local variable", "work-items sharing the local argument", "get_global_id(bad dim)", "get_local_id(bad dim)", "get_group_id(bad dim)",
  "get_global_size(bad dim)", "get_local_size(bad dim)", "get_num_groups(bad dim)", "get_global_offset(bad dim)", "get_global_linear_id()", "get_local_linear_id()",
  "get_enqueued_local_size(0)", "get_enqueued_local_size(1)", "get_enqueued_local_size(2)", "get_enqueued_local_size(bad dim)", "", "", ""};
struct Env { CL* cl; cl_kernel k[3]; cl_mem slot, rec; uint32_t cap; string conf; bool quick; };
static void one(Env& E, int mode, int dim, const size_t* G, const size_t* L, const size_t* O)
{
  // mode: 0 = OpenCL 1.2, 1 = OpenCL 2.0 (non-uniform groups allowed), 2 = 2.0 with -cl-uniform-work-group-size
  auto str = [&](const size_t* v) { string s; if (!v) return string("NULL"); for (int d = 0; d < dim; d++) s += fmt("%s%zu", d ? "," : "", v[d]); return s; };
  string id = E.conf + fmt("/cl%s/g%s/l%s/o%s", mode == 0 ? "12" : mode == 1 ? "20" : "20u", str(G).c_str(), str(L).c_str(), str(O).c_str());
  if (!R->begin(id)) return;
  bool divides = true, zero = false; uint64_t tot = 1;
  for (int d = 0; d < dim; d++) { if (L && G[d] % L[d]) divides = false; if (!G[d]) zero = true; tot *= G[d]; }
  uint32_t z = 0; E.cl->write(E.slot, &z, 4);
  cl_kernel k = E.k[mode];
  size_t lcl = 8; E.cl->localArg(k, 3, lcl);
  cl_int err = E.cl->launch(k, dim, G, L, O);
  R->count("transitions", tot);
  if (mode != 1 && !divides)
  {
    if (err != CL_INVALID_WORK_GROUP_SIZE) R->fail("not-rejected", id + fmt(": non-uniform work-group accepted (%d)", err));
    uint32_t n; E.cl->read(E.slot, &n, 4); if (n) R->fail("rejected-but-ran", id);
    return;
  }
  if (zero)
  {
    uint32_t n; E.cl->read(E.slot, &n, 4);
    if (n) R->fail("zero-size-ran", id + fmt(": %u work-items ran for an empty NDRange (status %d)", n, err));
    return;
  }
  if (err) { R->fail("rejected", id + fmt(": valid NDRange rejected with %d", err)); return; }
  vector<Rec> ref = reference(dim, G, L, O, mode != 0, E.quick);
  uint32_t n; E.cl->read(E.slot, &n, 4);
  if (n != ref.size()) R->fail("count" , id + fmt(": %u work-items executed, expected %zu", n, ref.size()));
  n = std::min(n, E.cap);
  vector<Rec> got(n); if (n) E.cl->read(E.rec, got.data(), n * sizeof(Rec));
  // without explicit work-group size the implementation chooses one: it must be uniform and consistent
  if (!L && n)
  {
    size_t l[3] = {got[0][4], got[0][11], got[0][18]};
    for (auto& r : got) for (int d = 0; d < 3; d++) l[d] = std::max<size_t>(l[d], r[4 + 7 * d]);
    bool ok = true; for (int d = 0; d < dim; d++) if (!l[d] || l[d] > 4096) ok = false;
    if (!ok) { R->fail("default-local-size", id); return; }
    ref = reference(dim, G, l, O, mode != 0, E.quick);
    if (n != ref.size()) return;
  }
  std::sort(ref.begin(), ref.end());
  for (auto& r : got) for (int i = mode != 0 ? 37 : 31; i < NF; i++) r[i] = 0;
  std::sort(got.begin(), got.end());
  R->count("workitems_compared", n);
  for (size_t i = 0; i < got.size() && i < ref.size(); i++)
    for (int f = 0; f < NF; f++)
      if (got[i][f] != ref[i][f])
      {
        R->fail(fmt("identity:%s", names[f]), id + fmt(": work-item (%lu,%lu,%lu): %s is %lu, expected %lu", got[i][0], got[i][7], got[i][14], names[f], got[i][f], ref[i][f]));
        return;
      }
  R->count("traces_validated_against_impl");
  if (dim == 2 && mode == 1) R->sample(id + fmt(": %u work-items, each with %d identity values as the reference", n, NF));
}
static void body(int argc, char** argv)
{
  string conf = argv[2], threads = argv[3]; bool quick = atoi(argv[4]);
  stdEnv(argv[1], threads); if (quick) env("OCLGRIND_QUICK", "1");
  Capture cap;
  CL cl; Env E; E.cl = &cl; E.conf = conf; E.quick = quick; E.cap = 8192;
  const char* opts[] = {"-cl-std=CL1.2", "-cl-std=CL2.0", "-cl-std=CL2.0 -cl-uniform-work-group-size"};
  E.slot = cl.buf(4); E.rec = cl.buf(E.cap * sizeof(Rec));
  for (int m = 0; m < 3; m++)
  {
    E.k[m] = cl.kernel(cl.build(source(m != 0), opts[m]), "k");
    cl.arg(E.k[m], 0, E.slot); cl.arg(E.k[m], 1, E.rec); cl_uint c = E.cap; cl.arg(E.k[m], 2, c);
  }
  bool T = R->thorough; bool small = !T && conf != "t1";
  size_t big = 4294967290ull;
  // 1D
  for (size_t g = 0; g <= (T ? 24 : small ? 8 : 13); g++)
    for (size_t l = 0; l <= (T ? 25 : small ? 9 : 14); l++)
      for (size_t o : {(size_t)0, (size_t)1, (size_t)7, big})
        for (int m = 0; m < 3; m++)
        {
          if (!g && l != 1) continue;
          if (o == big && g % 3) continue;
          one(E, m, 1, &g, l ? &l : 0, &o); if (!o) one(E, m, 1, &g, l ? &l : 0, 0);
        }
  // 2D
  size_t m2 = T ? 6 : small ? 3 : 4;
  for (size_t gx = 1; gx <= m2; gx++) for (size_t gy = 1; gy <= m2; gy++)
    for (size_t lx = 0; lx <= m2 + 1; lx++) for (size_t ly = (lx ? 1 : 0); ly <= (lx ? m2 + 1 : 0); ly++)
      for (int o = 0; o < 3; o++) for (int m = 0; m < (T ? 3 : 2); m++)
      {
        size_t G[] = {gx, gy}, L[] = {lx, ly}, O[] = {(size_t)(o == 1 ? 3 : 0), (size_t)(o == 2 ? 5 : 0)};
        if (m == 0 && lx && (gx % lx || gy % ly) && o) continue;
        one(E, m, 2, G, lx ? L : 0, o ? O : 0);
      }
  // 3D
  size_t m3 = small ? 2 : 3;
  for (size_t gx = 1; gx <= m3; gx++) for (size_t gy = 1; gy <= m3; gy++) for (size_t gz = 1; gz <= m3 + (T ? 1 : 0); gz++)
    for (size_t lx = 1; lx <= m3; lx++) for (size_t ly = 1; ly <= m3; ly++) for (size_t lz = 0; lz <= m3; lz++)
      for (int o = 0; o < 2; o++) for (int m = 0; m < 2; m++)
      {
        if (!lz && (lx > 1 || ly > 1)) continue;
        if (lz && lx * ly * lz > 1 && m == 0 && (gx % lx || gy % ly || gz % lz)) continue;
        if (!T && o && m == 0) continue;
        size_t G[] = {gx, gy, gz}, L[] = {lx, ly, lz}, O[] = {2, 5, 11};
        one(E, m, 3, G, lz ? L : 0, o ? O : 0);
      }
  // zero-sized dimensions and larger shapes
  for (int m = 0; m < 2; m++) for (int z = 0; z < 8; z++)
  {
    size_t G[] = {(size_t)(z & 1 ? 0 : 4), (size_t)(z & 2 ? 0 : 4), (size_t)(z & 4 ? 0 : 4)}, L[] = {2, 2, 2};
    one(E, m, 3, G, L, 0);
  }
  struct { int dim; size_t g[3], l[3], o[3]; } lg[] = {
    {1, {257}, {16}, {0}}, {1, {1024}, {64}, {5}}, {1, {1000}, {1}, {0}}, {2, {33, 17}, {8, 4}, {0, 0}}, {2, {32, 16}, {8, 4}, {100, 7}},
    {3, {9, 7, 5}, {4, 2, 3}, {0, 0, 0}}, {3, {8, 6, 4}, {4, 2, 2}, {1, 2, 3}}, {3, {2, 3, 64}, {1, 1, 8}, {0, 9, 0}}, {2, {1, 300}, {1, 7}, {0, 1}}};
  for (auto& c : lg) for (int m = 0; m < 2; m++) one(E, m, c.dim, c.g, c.l, c.o);
}
VF_MAIN(body)
