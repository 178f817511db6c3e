// C25: component stores change only the stored components: every short sequence of vector/aggregate loads and stores.
#include "vf.hpp"
using namespace vf;
static CL *cl, *clr; static Capture* cap;
struct Ty { const char* n; int bytes; bool fp; int w; };
// storage: 0 = P, 1 = Q (P when aliased), T/U = private temporaries
enum { P, Q, T, U, K, KC }; // KC: vector of literals
// // K: constant vector
enum { MOVE, COND, CALL, LOOP, COPYSTRUCT, SUBSCR, VST, VLD, ELEM };
struct St { int kind, d, s; vector<int> dl, sl; string text; };
struct Cfg { Ty t; int path; const char* space; };
static string lname(int l, int w) { return fmt("s%x", l); }
static string sel(const vector<int>& l, int w) { if ((int)l.size() == w) { bool id = true; for (int i = 0; i < w; i++) id &= l[i] == i; if (id) return ""; } string s = ".s"; for (int x : l) s += fmt("%x", x); return s; }
static string ref(const Cfg& c, int o) { static const char* N[] = {"", "", "t", "u"}; if (o >= T) return N[o]; const char* v = o ? "q" : "p"; if (c.path == 0) return string("(*") + v + ")"; if (c.path == 1) return string("s") + v + "->v"; if (c.path == 2) return o ? "m[qo]" : "m[i0]"; return o ? "sm[qo].a[i1]" : "sm[i0].a[i1]"; }
static vector<St> alphabet(const Cfg& c, int size)
{
  int w = c.t.w; vector<St> r; vector<int> full, rev, x = {0}, last = {w - 1}; for (int i = 0; i < w; i++) { full.push_back(i); rev.push_back(w - 1 - i); }
  vector<int> even, odd; for (int i = 0; i < w; i++) (i & 1 ? odd : even).push_back(i); if (even.size() != odd.size()) even.pop_back(); // equal halves
  bool two = even.size() == 2 || even.size() == 4 || even.size() == 8; vector<int> xy = {0, 1}, yx = {1, 0};
  auto mv = [&](int d, vector<int> dl, int s, vector<int> sl) { St a{MOVE, d, s, dl, sl, ""}; string rhs; if (s == KC) { rhs = dl.size() == 1 ? string("(E)41") : fmt("(E%zu)(", dl.size()); if (dl.size() > 1) { for (size_t i = 0; i < dl.size(); i++) rhs += fmt("%s%zu", i ? ", " : "", 41 + i); rhs += ")"; } } else if (s == K) { if (dl.size() == 1) rhs = "(E)(k0)"; else { rhs = fmt("(E%zu)(", dl.size()); for (size_t i = 0; i < dl.size(); i++) rhs += fmt("%sk0 + (E)%zu", i ? ", " : "", i); rhs += ")"; } } else rhs = ref(c, s) + sel(sl, w); a.text = ref(c, d) + sel(dl, w) + " = " + rhs + ";"; r.push_back(a); };
  mv(T, full, P, full); mv(P, full, T, full); mv(P, x, K, {}); mv(Q, x, K, {}); mv(P, last, T, x); mv(T, x, Q, last); mv(T, last, K, {}); mv(Q, full, T, full);
  mv(U, full, P, full); mv(P, full, U, full); if (two) { mv(P, even, T, odd); mv(P, odd, P, even); mv(Q, even, U, even); } mv(P, rev, P, full); mv(P, full, K, {});
  if (size > 1)
  {
    mv(P, full, KC, {}); mv(T, rev, KC, {}); mv(Q, last, KC, {}); if (two) mv(P, even, KC, {}); mv(P, xy, Q, yx); mv(Q, xy, P, xy); mv(P, full, P, rev); mv(P, rev, T, full); mv(P, x, P, last); mv(P, last, Q, x); mv(P, x, T, x); mv(P, xy, K, {}); mv(T, rev, P, full); mv(U, x, T, last); if (two) mv(T, odd, P, even);
    r.push_back({CALL, Q, 0, {w - 1}, {}, "bump(&" + ref(c, Q) + ", k0);"}); r.push_back({COND, P, K, x, {}, "if (c0) " + ref(c, P) + ".x = k0;"}); r.push_back({COND, P, -1, last, {}, "if (!c0) " + ref(c, P) + "." + lname(w - 1, w) + " = k0;"});
    r.push_back({LOOP, P, T, {}, {}, "for (int j = 0; j < n2; j++) { " + ref(c, P) + ".x = " + ref(c, Q) + ".y; " + ref(c, P) + ".y = t.x; t.x = " + ref(c, P) + ".x; }"});
    r.push_back({SUBSCR, P, K, {}, {}, ref(c, P) + "[i1] = k0;"}); r.push_back({SUBSCR, T, P, {}, {}, "t[i1] = " + ref(c, P) + "[i1 - 1];"});
    r.push_back({ELEM, Q, K, {1}, {}, "((" + string(c.space) + " E*)&" + ref(c, Q) + ")[1] = k0;"}); r.push_back({VST, P, T, full, full, fmt("vstore%d(t, 0, (%s E*)&%s);", w, c.space, ref(c, P).c_str())}); r.push_back({VLD, U, Q, full, full, fmt("u = vload%d(0, (%s E*)&%s);", w, c.space, ref(c, Q).c_str())});
    if (c.path == 1 || c.path == 3) r.push_back({COPYSTRUCT, Q, P, {}, {}, c.path == 1 ? "*sq = *sp;" : "sm[qo] = sm[i0];"});
  }
  return r;
}
typedef vector<int> V;
static void apply(const St& s, V* m, int qo, int w, int k0, int c0, int i1)
{
  auto id = [&](int o) { return o == Q ? (qo ? 1 : 0) : o; };
  switch (s.kind)
  {
  case MOVE: { V v; for (size_t i = 0; i < s.dl.size(); i++) v.push_back(s.s == KC ? 41 + (int)i : s.s == K ? k0 + (s.dl.size() > 1 ? i : 0) : m[id(s.s)][s.sl[i]]); for (size_t i = 0; i < s.dl.size(); i++) m[id(s.d)][s.dl[i]] = v[i]; break; }
  case COND: if ((s.s == K) == (c0 != 0)) m[0][s.dl[0]] = k0; break;
  case CALL: m[id(Q)][w - 1] = k0; m[id(Q)][0]++; break;
  case LOOP: for (int j = 0; j < 2; j++) { m[0][0] = m[id(Q)][1]; m[0][1] = m[T][0]; m[T][0] = m[0][0]; } break;
  case SUBSCR: if (s.d == P) m[0][i1] = k0; else m[T][i1] = m[0][i1 - 1]; break;
  case ELEM: m[id(Q)][1] = k0; break; case VST: m[0] = m[T]; break; case VLD: m[U] = m[id(Q)]; break; case COPYSTRUCT: m[id(Q)] = m[0]; break;
  }
}
static void enc(const Ty& t, uint8_t* p, int v) { if (t.fp) { if (t.bytes == 4) { float f = v; memcpy(p, &f, 4); } else { double f = v; memcpy(p, &f, 8); } } else { int64_t x = v; memcpy(p, &x, t.bytes); } }
static void runBatch(const Cfg& c, const vector<St>& al, const vector<vector<int>>& progs, int opt, const string& tag)
{
  const Ty& t = c.t; int w = t.w, slots = w == 3 ? 4 : w, vb = slots * t.bytes; bool st = c.path == 1 || c.path == 3; string sp = c.space; bool glob = sp == "global";
  // batches of kernels per program object
  const size_t B = 60; for (size_t b0 = 0; b0 < progs.size(); b0 += B)
  {
    if (!R->begin(tag + fmt("/%zu", b0 / B))) continue;
    string src = fmt("typedef %s E; typedef %s%d V; typedef %s2 E2; typedef %s3 E3; typedef %s4 E4; typedef %s8 E8; typedef %s16 E16;\n", t.n, t.n, w, t.n, t.n, t.n, t.n, t.n); src += c.path == 3 ? "typedef struct { E h; V a[2]; } S;\n" : "typedef struct { E h; V v; } S;\n";
    src += "__attribute__((noinline)) void bump(" + sp + " V *v, E k) { v->" + lname(w - 1, w) + " = k; v->x = v->x + (E)1; }\n";
    size_t n = std::min(B, progs.size() - b0);
    for (size_t k = 0; k < n; k++)
    {
      src += fmt("kernel void k%zu(global V *g, int qo, E k0, int c0, int i0, int i1, int n2", k) + (sp == "local" ? ", local V *lm" : "") + ") {\n V t = g[2], u = g[3];\n";
      // storage of two vectors / structs in the requested space
      if (!st) { if (glob) src += " global V *m = g;\n"; else if (sp == "local") src += " local V *m = lm; m[0] = g[0]; m[1] = g[1];\n"; else src += " V m[2]; m[0] = g[0]; m[1] = g[1];\n"; src += " " + sp + " V *p = m + i0, *q = m + qo;\n"; }
      else { string f = c.path == 3 ? "a[1]" : "v"; if (glob) src += " global S *sm = (global S*)(g + 8);\n"; else if (sp == "local") src += " local S *sm = (local S*)lm;\n"; else src += " S sm[2];\n"; src += " sm[0].h = 5; sm[1].h = 5; sm[0]." + f + " = g[0]; sm[1]." + f + " = g[1];" + (c.path == 3 ? " sm[0].a[0] = g[3]; sm[1].a[0] = g[3];" : "") + "\n " + sp + " S *sp = sm + i0, *sq = sm + qo;\n"; }
      for (int s : progs[b0 + k]) src += " " + al[s].text + "\n";
      if (st) { string f = c.path == 3 ? "a[1]" : "v"; src += " g[0] = sm[0]." + f + "; g[1] = sm[1]." + f + "; g[4].x = sm[0].h + sm[1].h;" + (c.path == 3 ? " g[5] = sm[0].a[0]; g[6] = sm[1].a[0];" : "") + "\n"; } else if (!glob) src += " g[0] = m[0]; g[1] = m[1];\n";
      src += " g[2] = t; g[3] = u; }\n";
    }
    // i1 selects lane 1 (and a[1]); i0 is 0; both unknown to the compiler
    cl_program p = cl->build(src, string("-cl-std=CL1.2") + (opt ? " -cl-opt-disable" : "")); const int NV = 24; cl_mem g = cl->buf(vb * NV);
    for (size_t k = 0; k < n; k++) { cl_kernel kk = cl->kernel(p, fmt("k%zu", k)); for (int qo = 0; qo < 2; qo++) for (int c0 = 0; c0 < 2; c0++)
    {
      if (c0) { bool uses = false; for (int s : progs[b0 + k]) uses |= al[s].kind == COND; if (!uses) continue; }
      V m[4]; for (int o = 0; o < 4; o++) for (int i = 0; i < w; i++) m[o].push_back(10 + o * 20 + i); V u0 = m[U]; vector<uint8_t> mem(vb * NV, 0); for (int o = 0; o < 4; o++) for (int i = 0; i < slots; i++) enc(t, &mem[o * vb + i * t.bytes], i < w ? m[o][i] : 99); int k0 = 100; cl->write(g, mem.data(), mem.size());
      cl->arg(kk, 0, g); cl_int a = qo; cl->arg(kk, 1, a); uint8_t e[8]; enc(t, e, k0); CK(clSetKernelArg(kk, 2, t.bytes, e)); a = c0; cl->arg(kk, 3, a); a = 0; cl->arg(kk, 4, a); a = 1; cl->arg(kk, 5, a); a = 2; cl->arg(kk, 6, a); if (sp == "local") cl->localArg(kk, 7, vb * 16);
      cap->clear(); CK(cl->launch1(kk, 1, 1)); string log = cap->get(); vector<uint8_t> got(mem.size()); cl->read(g, got.data(), got.size());
      string id = R->curCase + fmt(" qo=%d c0=%d:", qo, c0); for (int s : progs[b0 + k]) { apply(al[s], m, qo, w, k0, c0, 1); id += " " + al[s].text; } R->count("transitions", progs[b0 + k].size()); R->count("programs"); R->count("traces_validated_against_impl");
      for (int o = 0; o < 4; o++) for (int i = 0; i < w; i++) { uint8_t x[8]; enc(t, x, m[o][i]); if (memcmp(x, &got[o * vb + i * t.bytes], t.bytes)) { double gv = t.fp ? (t.bytes == 4 ? *(float*)&got[o * vb + i * t.bytes] : *(double*)&got[o * vb + i * t.bytes]) : 0; int64_t gi = 0; memcpy(&gi, &got[o * vb + i * t.bytes], t.bytes); if (t.fp) gi = (int64_t)gv; R->fail(fmt("value:%s:%d", c.space, opt), id + fmt(": %c[%d] is %lld, expected %d", "PQTU"[o], i, (long long)gi, m[o][i])); o = 4; break; } }
      if (st) { uint8_t x[8]; enc(t, x, 10); if (memcmp(x, &got[4 * vb], t.bytes)) R->fail("struct-field", id + ": neighbouring field changed"); if (c.path == 3) for (int o = 5; o < 7; o++) for (int i = 0; i < w; i++) { enc(t, x, u0[i]); if (memcmp(x, &got[o * vb + i * t.bytes], t.bytes)) { R->fail("array-neighbour", id + ": neighbouring array element changed"); } } }
      else { for (int b = 4 * vb; b < NV * vb; b++) if (got[b] != mem[b]) { R->fail("neighbour", id + ": memory outside the vectors changed"); break; } }
      if (!log.empty()) R->fail("report", id + ": " + log.substr(0, 300));
    } clReleaseKernel(kk); }
    clReleaseMemObject(g); clReleaseProgram(p);
  }
}
// Two work-items storing disjoint components of one vector: both stores are kept, and no race is reported
static void disjoint()
{
  for (auto& t : vector<Ty>{{"int", 4, false, 4}, {"uchar", 1, false, 4}, {"float", 4, true, 3}, {"ulong", 8, false, 2}, {"short", 2, false, 8}}) for (const char* sp : {"global", "local"}) for (int opt = 0; opt < 2; opt++)
  {
    if (!R->begin(fmt("disjoint/%s%d/%s/%d", t.n, t.w, sp, opt))) continue; int w = std::min(t.w, 4); bool loc = string(sp) == "local"; string src; int n = 0; vector<std::pair<int, int>> pr;
    auto names = [&](int m) { string s; for (int i = 0; i < w; i++) if (m >> i & 1) s += fmt("%x", i); return s; };
    for (int a = 1; a < (1 << w); a++) for (int b = 1; b < (1 << w); b++) { int pa = __builtin_popcount(a), pb = __builtin_popcount(b); if ((a & b) || pa == 3 || pb == 3 || pa == 4 || pb == 4) continue; pr.push_back({a, b}); auto rhs = [&](int m, int base) { int c = __builtin_popcount(m); string s = c == 1 ? fmt("(%s)(", t.n) : fmt("(%s%d)(", t.n, c); for (int i = 0; i < c; i++) s += fmt("%sv + (%s)%d", i ? ", " : "", t.n, base + i); return s + ")"; };
      for (int f = 0; f < 2; f++) src += fmt("__attribute__((noinline)) void f%d_%d(%s %s%d *m, %s v) { m->s%s = %s; }\n", n, f, sp, t.n, t.w, t.n, names(f ? b : a).c_str(), rhs(f ? b : a, f ? 11 : 1).c_str()); // separate functions: the optimiser would merge the stores of both branches into one store of the whole vector
      src += fmt("kernel void k%d(global %s%d *g, %s v, local %s%d *l) { %s %s%d *m = %s; %s if (get_local_id(0) == 0) f%d_0(m, v); else f%d_1(m, v); %s }\n", n, t.n, t.w, t.n, t.n, t.w, sp, t.n, t.w, loc ? "l" : "g", loc ? "if (get_local_id(0) == 0) *l = *g; barrier(CLK_LOCAL_MEM_FENCE);" : "", n, n, loc ? "barrier(CLK_LOCAL_MEM_FENCE); if (get_local_id(0) == 0) *g = *l;" : ""); n++; }
    cl_program p = clr->build(src, string("-cl-std=CL1.2") + (opt ? " -cl-opt-disable" : "")); int slots = t.w == 3 ? 4 : t.w; cl_mem g = clr->buf(slots * t.bytes);
    for (int i = 0; i < n; i++)
    {
      cl_kernel k = clr->kernel(p, fmt("k%d", i)); vector<uint8_t> in(slots * t.bytes), out(in.size()); V m; for (int l = 0; l < slots; l++) { m.push_back(60 + l); enc(t, &in[l * t.bytes], 60 + l); } clr->write(g, in.data(), in.size()); clr->arg(k, 0, g); uint8_t e[8]; enc(t, e, 2); CK(clSetKernelArg(k, 1, t.bytes, e)); clr->localArg(k, 2, in.size()); cap->clear(); CK(clr->launch1(k, 2, 2)); string log = cap->get(); clr->read(g, out.data(), out.size());
      int c = 0; for (int l = 0; l < w; l++) if (pr[i].first >> l & 1) m[l] = 3 + c++; c = 0; for (int l = 0; l < w; l++) if (pr[i].second >> l & 1) m[l] = 13 + c++; for (int l = 0; l < t.w; l++) { enc(t, e, m[l]); if (memcmp(e, &out[l * t.bytes], t.bytes)) { R->fail("disjoint-value", R->curCase + fmt(": lanes %x/%x, lane %d wrong", pr[i].first, pr[i].second, l)); break; } }
      if (!log.empty()) R->fail("disjoint-race", R->curCase + fmt(": lanes %x/%x: ", pr[i].first, pr[i].second) + log.substr(0, 200)); R->count("transitions", 2); R->count("traces_validated_against_impl"); clReleaseKernel(k);
    }
    clReleaseMemObject(g); clReleaseProgram(p);
  }
}
static void body(int, char** argv)
{
  stdEnv(argv[1]); cap = new Capture(2); cl = new CL(); env("OCLGRIND_DATA_RACES", "1"); clr = new CL(); unsetenv("OCLGRIND_DATA_RACES"); bool Th = R->thorough;
  disjoint();
  vector<Ty> ts = {{"int", 4, false, 4}, {"float", 4, true, 3}, {"uchar", 1, false, 4}, {"short", 2, false, 8}, {"long", 8, false, 2}, {"double", 8, true, 4}, {"char", 1, false, 3}, {"uint", 4, false, 16}};
  for (size_t ti = 0; ti < ts.size(); ti++) for (const char* sp : {"global", "local", "private"}) for (int path = 0; path < 4; path++) for (int opt = 0; opt < 2; opt++)
  {
    if (!Th && ti > 1 && (ti + path + opt) % 4) continue;
    Cfg c{ts[ti], path, sp}; string base = fmt("%s%d/%s/%d/%d", ts[ti].n, ts[ti].w, sp, path, opt);
    vector<St> big = alphabet(c, 2), small = alphabet(c, 1); vector<vector<int>> progs; int nb = big.size(), ns = small.size();
    for (int a = 0; a < nb; a++) { progs.push_back({a}); for (int b = 0; b < nb; b++) if (Th || ti < 1 || a == b || (a + b + ti) % 2 == 0) progs.push_back({a, b}); }
    runBatch(c, big, progs, opt, "seq2/" + base); progs.clear();
    if (path == 0 && (Th || ti == 0)) for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) for (int d = 0; d < ns; d++) progs.push_back({a, b, d});
    if (Th && ti == 0 && path == 0) { int n4 = 10; for (int a = 0; a < n4; a++) for (int b = 0; b < n4; b++) for (int d = 0; d < n4; d++) for (int e = 0; e < n4; e++) progs.push_back({a, b, d, e}); }
    if (!progs.empty()) runBatch(c, small, progs, opt, "seq3/" + base);
    if (ti < 2 && path == 0 && !opt) { progs.clear(); vector<int> a4 = {0, 1, 2, 3, 4, 5, 6, 7}; for (int a : {0, 5}) for (int b : a4) for (int d : a4) for (int e : {1, 7}) for (int f : {2, 4}) { progs.push_back({a, b, d, e}); progs.push_back({a, b, d, f, e}); } runBatch(c, small, progs, opt, "seq45/" + base); progs.clear(); }
  }
}
VF_MAIN(body)
