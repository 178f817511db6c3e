// C04: barriers, divergence detection and asynchronous copies.
#include <algorithm>
#include "vf.hpp"
using namespace vf;
static CL* cl; static Capture* cap;
enum Act { NOP, BA, BB, BF, BG, FIN, NACT }; // barrier sites: A, B (local fence), F (inside a non-inlined function), G (work in a nested loop), FIN: return
static const char* an(int a) { static const char* n[] = {".", "A", "B", "F", "G", "x"}; return n[a]; }
static const char* SRC =
  "void __attribute__((noinline)) fbar(int x, global uint *sink) { if (x == 12345) *sink = x; barrier(CLK_LOCAL_MEM_FENCE); }\n"
  // every work-item announces its step in arr[] before each barrier and checks, after it, that all others have announced theirs
  "#define SYNC(bar) { mine++; arr[me] = mine; bar; for (int i = 0; i < W; i++) if (arr[i] < mine) err |= 1; for (int i = 0; i < W; i++) if (arr[i] > mine + 1) err |= 2; seen[me] = mine; }\n"
  "kernel void prog(global const int *act, int S, local volatile int *arr, global uint *res, global uint *sink, local volatile int *seen) {\n"
  "  int me = get_local_linear_id_(), W = get_local_size(0) * get_local_size(1) * get_local_size(2), gl = get_group_id(0) + get_num_groups(0) * (get_group_id(1) + get_num_groups(1) * get_group_id(2)); int mine = 0; uint err = 0; arr[me] = 0; seen[me] = 0;\n"
  "  for (int s = 0; s < S; s++) {\n    int a = act[(gl * S + s) * W + me];\n"
  "    if (a == 1) SYNC(barrier(CLK_LOCAL_MEM_FENCE))\n    else if (a == 2) SYNC(barrier(CLK_LOCAL_MEM_FENCE))\n    else if (a == 3) SYNC(fbar(s, sink))\n    else if (a == 4) for (int k = 0; k < 2; k++) SYNC(barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE))\n    else if (a == 5) break;\n"
  "  }\n  res[2 * (gl * W + me)] = mine; res[2 * (gl * W + me) + 1] = err;\n}\n";
struct Shape { int dim; size_t g[3], l[3]; };
static cl_kernel kp[2][2]; static cl_mem act, res, sink;
// prog[g][s][w]
static void runProg(int opt, int v2, const Shape& s, int S, const vector<int>& prog, const string& pre)
{
  int W = s.l[0] * s.l[1] * s.l[2], G = s.g[0] * s.g[1] * s.g[2] / W; string id = pre; for (size_t i = 0; i < prog.size(); i++) { if (i % W == 0) id += " "; id += an(prog[i]); }
  if (!R->begin(id)) return;
  cl_kernel k = kp[opt][v2]; CL& c = *cl; c.write(act, prog.data(), prog.size() * 4); vector<cl_uint> r(2 * W * G, 77); c.write(res, r.data(), r.size() * 4);
  cl_int n = S; c.arg(k, 0, act); c.arg(k, 1, n); c.localArg(k, 2, 4 * W); c.arg(k, 3, res); c.arg(k, 4, sink); c.localArg(k, 5, 4 * W);
  cap->clear(); cl_int e = c.launch(k, s.dim, s.g, s.l); string log = cap->get(); if (e) { R->fail("launch", id + fmt(": %d", e)); return; }
  c.read(res, r.data(), r.size() * 4); R->count("transitions", prog.size()); R->count("traces_validated_against_impl");
  bool div = false;
  for (int g = 0; g < G; g++)
  {
    vector<vector<int>> seq(W); for (int w = 0; w < W; w++) for (int t = 0; t < S; t++) { int a = prog[(g * S + t) * W + w]; if (a == FIN) break; if (a == BG) seq[w].push_back(BG); if (a) seq[w].push_back(a); }
    bool d = false; for (int w = 1; w < W; w++) d |= seq[w] != seq[0]; div |= d;
    for (int w = 0; w < W; w++)
    {
      cl_uint cnt = r[2 * (g * W + w)], err = r[2 * (g * W + w) + 1];
      if (cnt != seq[w].size()) R->fail("executed", id + fmt(": group %d work-item %d completed %u barriers, expected %zu", g, w, cnt, seq[w].size()));
      if (!d && err) R->fail(err & 1 ? "passed-early" : "ran-ahead", id + fmt(": group %d work-item %d saw %u", g, w, err));
    }
  }
  int got = countOf(log, "Work-group divergence detected (barrier)");
  if (div && !got) R->fail(string("missed-divergence:") + fmt("W%d", W), id + ": divergence not reported"); if (!div && !log.empty()) R->fail("false-report", id + ": " + log.substr(0, 300)); if (div && log.find("Work-group divergence") == string::npos) R->fail("message", log.substr(0, 200));
}
static void enumerate(const Shape& s, int S, const vector<int>& al, const string& pre, int opt, int v2)
{
  int n = S * s.g[0] * s.g[1] * s.g[2]; vector<int> d(n, 0), p(n);
  for (;;) { for (int i = 0; i < n; i++) p[i] = al[d[i]]; runProg(opt, v2, s, S, p, pre); int i = 0; while (i < n && ++d[i] == (int)al.size()) d[i++] = 0; if (i == n) break; }
}
static Shape sh(int dim, size_t a, size_t b, size_t c, size_t x, size_t y, size_t z) { Shape s = {dim, {a, b, c}, {x, y, z}}; return s; }
static void barriers()
{
  bool T = R->thorough;
  for (int o = 0; o < 2; o++) for (int v = 0; v < 2; v++)
  {
    string src = SRC; size_t p = src.find("get_local_linear_id_()"); src.replace(p, 22, "(get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2)))");
    if (v) for (size_t q; (q = src.find(" barrier(")) != string::npos || (q = src.find("(barrier(")) != string::npos;) src.replace(q + 1, 8, "work_group_barrier(");
    string std = v ? "-cl-std=CL2.0" : "-cl-std=CL1.2"; kp[o][v] = cl->kernel(cl->build(src, std + (o ? " -cl-opt-disable" : "")), "prog");
  }
  vector<int> ALL = {NOP, BA, BB, BF, BG, FIN}, TWO = {NOP, BA, BB}, TF = {NOP, BA, FIN}, ONE = {NOP, BA};
  for (int o = 0; o < 2; o++) for (int v = 0; v < 2; v++)
  {
    string pre = fmt("bar/%d%d/", o, v);
    enumerate(sh(1, 2, 1, 1, 2, 1, 1), 2, ALL, pre + "2", o, v); enumerate(sh(1, 3, 1, 1, 3, 1, 1), 1, ALL, pre + "3", o, v); enumerate(sh(1, 1, 1, 1, 1, 1, 1), 3, ALL, pre + "1", o, v);
    if (v && !T) continue;
    enumerate(sh(1, 3, 1, 1, 3, 1, 1), 2, o ? TF : TWO, pre + "3", o, v); enumerate(sh(1, 2, 1, 1, 2, 1, 1), 3, o ? TF : vector<int>{NOP, BA, BB, FIN}, pre + "2", o, v);
    enumerate(sh(1, 4, 1, 1, 2, 1, 1), 2, o ? ONE : TWO, pre + "2x2", o, v); enumerate(sh(1, 3, 1, 1, 1, 1, 1), 2, ONE, pre + "3x1", o, v); // work-groups may differ
    enumerate(sh(2, 2, 2, 1, 2, 2, 1), 2, ONE, pre + "2x2d", o, v); enumerate(sh(3, 2, 2, 2, 2, 1, 2), 1, ONE, pre + "3d", o, v); enumerate(sh(1, 5, 1, 1, 5, 1, 1), 1, TWO, pre + "5", o, v);
    if (T) { enumerate(sh(1, 2, 1, 1, 2, 1, 1), 3, ALL, pre + "2", o, v); enumerate(sh(1, 3, 1, 1, 3, 1, 1), 2, ALL, pre + "3", o, v); enumerate(sh(1, 3, 1, 1, 3, 1, 1), 3, {NOP, BA, BB}, pre + "3", o, v); enumerate(sh(1, 2, 1, 1, 2, 1, 1), 4, {NOP, BA, BB, FIN}, pre + "2", o, v); enumerate(sh(1, 4, 1, 1, 2, 1, 1), 2, {NOP, BA, BB, FIN}, pre + "2x2", o, v); enumerate(sh(1, 4, 1, 1, 4, 1, 1), 2, TWO, pre + "4", o, v); enumerate(sh(1, 7, 1, 1, 7, 1, 1), 1, TWO, pre + "7", o, v); }
  }
  // larger groups: one deviating work-item at every position
  for (size_t W : {16, 65}) for (size_t w = 0; w < W; w++) for (int dev : {(int)NOP, (int)BB, (int)FIN, -1}) { vector<int> p(2 * W, BA); if (dev >= 0) p[w] = dev; runProg(0, 0, sh(1, W, 1, 1, W, 1, 1), 2, p, fmt("big/%zu/%zu/%d", W, w, dev)); }
}
// ---- fences: a barrier with any flags is a barrier for all work-items (0 included)
static void fences()
{
  cl_program p = cl->build("kernel void f(global uint *r, int fl, local uint *cnt) { int me = get_local_id(0); cnt[me] = 0; uint bad = 0; for (int s = 1; s <= 3; s++) { cnt[me] = s; switch (fl) { case 0: barrier(0); break; case 1: barrier(1); break; case 2: barrier(2); break; default: barrier(3); } for (int i = 0; i < get_local_size(0); i++) bad += cnt[i] != s; barrier(CLK_LOCAL_MEM_FENCE); } r[get_global_id(0)] = bad; }", "-cl-std=CL1.2");
  cl_kernel k = cl->kernel(p, "f");
  for (int fl = 0; fl < 4; fl++) for (size_t L = 1; L <= 9; L++) for (size_t G = 1; G <= 3; G++)
  {
    if (!R->begin(fmt("fence/%d/%zu/%zu", fl, L, G))) continue; vector<cl_uint> r(64, 99); cl_int f = fl; cl->arg(k, 0, res); cl->arg(k, 1, f); cl->localArg(k, 2, 4 * L); cap->clear(); CK(cl->launch1(k, L * G, L)); cl->read(res, r.data(), 256);
    for (size_t i = 0; i < L * G; i++) if (r[i]) R->fail("fence", R->curCase + fmt(": work-item %zu saw %u stale values", i, r[i])); if (!cap->get().empty()) R->fail("false-report", R->curCase); R->count("transitions", L * G * 6); R->count("traces_validated_against_impl");
  }
}
// ---- asynchronous copies: data movement of every type, count, offset and stride
static void copies()
{
  bool T = R->thorough; vector<string> types; for (string b : {"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"}) for (string n : {"", "2", "3", "4", "8", "16"}) if (T || n == "" || n == "3" || b == "int" || b == "uchar" || n == "16") types.push_back(b + n);
  auto bytes = [](const string& t) { size_t e = t.find_first_of("0123456789"); string b = t.substr(0, e); if (b[0] == 'u') b = b.substr(1); int s = b == "char" ? 1 : b == "short" ? 2 : b == "int" || b == "float" ? 4 : 8, n = e == string::npos ? 1 : atoi(t.c_str() + e); return s * (n == 3 ? 4 : n); };
  for (auto& t : types)
  {
    cl_program p = 0; cl_kernel k = 0; int B = bytes(t); const size_t NE = 12;
    for (int dir = 0; dir < 2; dir++) for (int strided = 0; strided < 2; strided++) for (size_t num = 0; num <= 4; num++) for (size_t so = 0; so < 3; so++) for (size_t d = 0; d < 3; d++) for (size_t st = 1; st <= (strided ? 3 : 1); st++) for (int W = 1; W <= 2; W++)
    {
      if (!T && (so + d + W + num) % 2 && num != 4) continue; size_t sp = dir == 0 ? so + (num ? (num - 1) * st : 0) : so + num, dp = dir == 1 ? d + (num ? (num - 1) * st : 0) : d + num; if (sp >= NE || dp >= NE) continue;
      if (!R->begin(fmt("copy/%s/%d/%d/%zu/%zu/%zu/%zu/%d", t.c_str(), dir, strided, num, so, d, st, W))) continue; string id = R->curCase;
      if (!p)
      {
        const char* q = t.c_str(); string body = fmt("kernel void c(global %s *g, local %s *l, int dir, int strided, ulong num, ulong so, ulong d, ulong st, global uchar *lout, int nb) { int me = get_local_id(0); if (me == 0) for (int i = 0; i < nb; i++) ((local uchar*)l)[i] = i * 29 + 7; barrier(CLK_LOCAL_MEM_FENCE); event_t e;\n", q, q);
        body += "if (dir == 0) { if (strided) e = async_work_group_strided_copy(l + d, g + so, num, st, 0); else e = async_work_group_copy(l + d, g + so, num, 0); } else { if (strided) e = async_work_group_strided_copy(g + d, l + so, num, st, 0); else e = async_work_group_copy(g + d, l + so, num, 0); }\n wait_group_events(1, &e); if (me == get_local_size(0) - 1) for (int i = 0; i < nb; i++) lout[i] = ((local uchar*)l)[i]; }\n";
        p = cl->build("#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n" + body, "-cl-std=CL1.2"); k = cl->kernel(p, "c");
      }
      size_t nb = NE * B; vector<uint8_t> g(nb), l(nb), go(nb), lo(nb); pattern(g, 5); for (size_t i = 0; i < nb; i++) l[i] = i * 29 + 7; cl_mem mg = cl->buf(nb, g.data()), ml = cl->buf(nb);
      cl->arg(k, 0, mg); cl->localArg(k, 1, nb); cl_int a2[2] = {dir, strided}; cl->arg(k, 2, a2[0]); cl->arg(k, 3, a2[1]); cl_ulong a4[4] = {num, so, d, st}; for (int i = 0; i < 4; i++) cl->arg(k, 4 + i, a4[i]); cl->arg(k, 8, ml); cl_int n = nb; cl->arg(k, 9, n);
      cap->clear(); CK(cl->launch1(k, W, W)); string log = cap->get(); cl->read(mg, go.data(), nb); cl->read(ml, lo.data(), nb); R->count("transitions", num + 1); R->count("traces_validated_against_impl");
      for (size_t i = 0; i < num; i++) if (dir == 0) memcpy(&l[(d + i) * B], &g[(so + i * st) * B], B); else memcpy(&g[(d + i * st) * B], &l[(so + i) * B], B);
      if (g != go || l != lo) R->fail("copy-data:" + t, id + ": memory after the copy differs from the model"); if (!log.empty()) R->fail("copy-report", id + ": " + log.substr(0, 300)); CK(clSetKernelArg(k, 0, sizeof(cl_mem), 0)); CK(clSetKernelArg(k, 8, sizeof(cl_mem), 0)); clReleaseMemObject(mg); clReleaseMemObject(ml);
    }
    if (k) clReleaseKernel(k); if (p) clReleaseProgram(p);
  }
}
// ---- programs of copies and waits: every assignment of per-work-item sequences
// actions: C0: e0 = copy(l+0, g+0), C1: e1 = copy(l+2, g+4), C2: e0 = copy(l+4, g+8, e0) joins e0, W0: wait e0, W1: wait e1, W2: wait both, B: barrier
enum { CN, C0, C1, C2, W0, W1, W2, CB, NC };
static void events()
{
  bool T = R->thorough;
  string src = "kernel void ev(global int *g, local int *l, global const int *act, int S, global int *out) { int me = get_local_id(0), W = get_local_size(0); event_t z0 = 0; event_t e[2]; e[0] = z0; e[1] = z0; if (me == 0) for (int i = 0; i < 8; i++) l[i] = -1; barrier(CLK_LOCAL_MEM_FENCE);\n"
    " for (int s = 0; s < S; s++) { int a = act[s * W + me]; if (a == 1) e[0] = async_work_group_copy(l, g, 2, 0); else if (a == 2) e[1] = async_work_group_copy(l + 2, g + 4, 2, 0); else if (a == 3) e[0] = async_work_group_copy(l + 4, g + 8, 2, e[0]); else if (a == 4) wait_group_events(1, e); else if (a == 5) wait_group_events(1, e + 1); else if (a == 6) wait_group_events(2, e); else if (a == 7) barrier(CLK_LOCAL_MEM_FENCE);\n"
    "  if (a >= 4) for (int i = 0; i < 8; i++) out[(s * W + me) * 8 + i] = l[i]; } }\n";
  for (int opt = 0; opt < 2; opt++)
  {
    cl_kernel k = cl->kernel(cl->build(src, string("-cl-std=CL1.2") + (opt ? " -cl-opt-disable" : "")), "ev"); cl_int gd[16]; for (int i = 0; i < 16; i++) gd[i] = 100 + i; cl_mem g = cl->buf(64, gd), a = cl->buf(4 * 64), o = cl->buf(4 * 8 * 64);
    auto run = [&](int W, int S, const vector<int>& p)
    {
      // the model: a well-formed uniform sequence uses an event only after the copy that creates it and before waiting for it
      vector<vector<int>> seq(W); for (int w = 0; w < W; w++) for (int s = 0; s < S; s++) if (p[s * W + w]) seq[w].push_back(p[s * W + w]);
      bool uni = true; for (auto& q : seq) uni &= q == seq[0]; bool live[2] = {0, 0}, ever[2] = {0, 0}, invalid = false; int l[8]; for (int& x : l) x = -1; std::set<int> pend[2];
      vector<vector<int>> exp;
      if (uni) for (int x : seq[0])
      {
        if (x == C0 || x == C1) { int e = x == C1; if (live[e]) return; live[e] = ever[e] = true; pend[e] = {e}; } else if (x == C2) { if (ever[0] && !live[0]) return; if (!live[0]) pend[0].clear(); live[0] = ever[0] = true; pend[0].insert(2); } // handles that would be lost or reused after a wait are not judged
        else if (x >= W0 && x <= W2) { for (int e = 0; e < 2; e++) if (x == W2 || x == W0 + e) { if (!live[e]) { invalid = true; continue; } for (int c : pend[e]) { int b = c * 2, q = c * 4; l[b] = 100 + q; l[b + 1] = 101 + q; } live[e] = false; pend[e].clear(); } }
        exp.push_back(x >= W0 ? vector<int>(l, l + 8) : vector<int>());
      }
      else // diverging: only judged when the divergence is between well-formed events: each work-item's own sequence must be well formed
        for (auto& q : seq) { bool lv[2] = {0, 0}, ev[2] = {0, 0}; for (int x : q) { if (x == C0 || x == C1) { int e = x == C1; if (lv[e]) return; lv[e] = ev[e] = true; } else if (x == C2) { if (ev[0] && !lv[0]) return; lv[0] = ev[0] = true; } else if (x <= W2) for (int e = 0; e < 2; e++) if (x == W2 || x == W0 + e) { if (!lv[e]) return; lv[e] = false; } } }
      if (!uni) // sequences that differ only in where the copies are issued relative to barriers and waits: no copy, barrier or wait by itself diverges, so not judged
      {
        auto proj = [&](const vector<int>& q, bool copies) { vector<int> r; for (int x : q) if ((x <= C2) == copies) r.push_back(x); return r; }; bool same = true;
        for (auto& q : seq) same &= proj(q, true) == proj(seq[0], true) && proj(q, false) == proj(seq[0], false);
        if (same) return;
      }
      string id = fmt("events/%d/%d/", opt, W); for (size_t i = 0; i < p.size(); i++) { if (i && i % W == 0) id += ","; id += "-012wxWB"[p[i]]; }
      if (!R->begin(id)) return;
      cl->write(a, p.data(), p.size() * 4); cl->arg(k, 0, g); cl->localArg(k, 1, 32); cl->arg(k, 2, a); cl_int n = S; cl->arg(k, 3, n); cl->arg(k, 4, o); cap->clear(); CK(cl->launch1(k, W, W)); string log = cap->get(); R->count("transitions", W * S); R->count("traces_validated_against_impl");
      if (invalid) { if (log.find("Invalid wait event") == string::npos) R->fail("missed-invalid-event", id); return; }
      if (!uni) { if (log.empty()) R->fail("missed-copy-divergence", id + ": diverging copies, waits or barriers not reported"); return; }
      bool left = live[0] || live[1]; bool rep = log.find("finished without waiting for events") != string::npos;
      if (left != rep) R->fail(left ? "missed-unwaited" : "false-unwaited", id + ": " + log.substr(0, 300)); if (!left && !log.empty()) R->fail("false-report", id + ": " + log.substr(0, 300)); if (log.find("divergence") != string::npos) R->fail("false-divergence", id + ": " + log.substr(0, 300));
      vector<cl_int> ov(8 * W * S); cl->read(o, ov.data(), ov.size() * 4);
      for (int w = 0; w < W; w++) { int j = 0; for (int s = 0; s < S; s++) { if (!p[s * W + w]) continue; if (p[s * W + w] >= W0) for (int i = 0; i < 8; i++) { int want = exp[j][i], got = ov[(s * W + w) * 8 + i]; bool pending = false; for (int c : {0, 1, 2}) if (i / 2 == c && want == -1 && got == 100 + c * 4 + i % 2) pending = true; /* a copy may already be done before it is waited for */ if (got != want && !pending) R->fail("copy-visibility", id + fmt(": work-item %d after action %d reads l[%d] = %d, expected %d", w, s, i, got, want)); } j++; } }
    };
    auto all = [&](int W, int S, vector<int> al) { vector<int> d(W * S, 0), p(W * S); for (;;) { for (int i = 0; i < W * S; i++) p[i] = al[d[i]]; run(W, S, p); int i = 0; while (i < W * S && ++d[i] == (int)al.size()) d[i++] = 0; if (i == W * S) break; } };
    vector<int> ALL = {CN, C0, C1, C2, W0, W1, W2, CB};
    for (int S = 1; S <= 4; S++) all(1, S, ALL); all(2, 2, ALL); all(2, 3, T ? ALL : vector<int>{CN, C0, C1, W0, W1}); if (T) { all(3, 2, ALL); all(1, 5, ALL); all(2, 4, {CN, C0, C2, W0}); all(3, 3, {CN, C0, W0}); }
    // uniform sequences over two and three work-items
    for (int W = 2; W <= 3; W++) for (int S = 1; S <= (T ? 5 : 4); S++) { int tot = 1; for (int i = 0; i < S; i++) tot *= NC; for (int x = 0; x < tot; x++) { vector<int> p; int y = x; for (int s = 0; s < S; s++) { for (int w = 0; w < W; w++) p.push_back(y % NC); y /= NC; } run(W, S, p); } }
  }
  // copies that differ in one argument
  cl_program p = cl->build("kernel void d(global int *g, local int *l, int which, int who) { int me = get_local_id(0), x = me == who; int n = 4, so = 0, d = 0; long st = 1; event_t z0 = 0; if (x && which == 1) n = 3; if (x && which == 2) so = 1; if (x && which == 3) d = 1; if (x && which == 4) st = 2; event_t e;\n if (which == 7) { if (x) e = async_work_group_copy(g + 8, l, 4, 0); else e = async_work_group_copy(l, g, 4, 0); } else if (which == 5) { if (!x) e = async_work_group_copy(l, g, 4, 0); else e = z0; } else if (which == 6) { e = async_work_group_copy(l + d, g + so, n, 0);\n if (x) e = async_work_group_copy(l + d, g + so, n, e); } else e = async_work_group_strided_copy(l + d, g + so, n, st, 0); wait_group_events(1, &e); }", "-cl-std=CL1.2"); cl_kernel k = cl->kernel(p, "d"); cl_mem g = cl->buf(256);
  for (int which = 0; which <= 7; which++) for (int W = 2; W <= 5; W++) for (int who = 0; who < W; who++)
  {
    if (!R->begin(fmt("copyargs/%d/%d/%d", which, W, who))) continue; cl->arg(k, 0, g); cl->localArg(k, 1, 256); cl_int a[2] = {which, who}; cl->arg(k, 2, a[0]); cl->arg(k, 3, a[1]); cap->clear(); CK(cl->launch1(k, W, W)); string log = cap->get(); R->count("transitions", W); if ((which != 0) != (log.find("divergence detected") != string::npos || (which == 5 && !log.empty()))) R->fail(fmt("copyargs:%d", which), R->curCase + ": " + log.substr(0, 200));
  }
}
// ---- every subset of work-items joins a second copy to an event that all of them wait for; every assignment of fence flags to the work-items at one barrier
static void subsets()
{
  for (int opt = 0; opt < 2; opt++)
  {
    string o = string("-cl-std=CL1.2") + (opt ? " -cl-opt-disable" : "");
    cl_kernel k = cl->kernel(cl->build("kernel void s(global int *g, local int *l, int mask, int second) { int me = get_local_id(0); event_t e = async_work_group_copy(l, g, 2, 0); if (second == 2) e = async_work_group_copy(l + 2, g + 2, 2, e); if (mask >> me & 1) e = async_work_group_copy(l + 4, g + 4, 2, e); if (second == 1) e = async_work_group_copy(l + 6, g + 6, 2, e); wait_group_events(1, &e); g[16 + me] = l[1]; }", o), "s");
    cl_kernel f = cl->kernel(cl->build("kernel void f(global const int *fl, global uint *r, local uint *c) { int me = get_local_id(0); c[me] = me + 1; barrier(fl[me]); uint n = 0; for (int i = 0; i < get_local_size(0); i++) n += c[i]; r[me] = n; }", o), "f");
    cl_mem g = cl->buf(256);
    for (int W = 1; W <= (R->thorough ? 7 : 5); W++) for (int mask = 0; mask < 1 << W; mask++) for (int sec = 0; sec < 3; sec++)
    {
      if (sec && mask && mask != (1 << W) - 1 && sec == 1) continue; // a copy after a copy that only some execute pairs up differently
      if (!R->begin(fmt("subset/%d/%d/%d/%d", opt, W, mask, sec))) continue;
      cl->arg(k, 0, g); cl->localArg(k, 1, 64); cl->arg(k, 2, mask); cl->arg(k, 3, sec); cap->clear(); CK(cl->launch1(k, W, W)); string log = cap->get(); R->count("transitions", W * 2); R->count("traces_validated_against_impl");
      bool div = mask && mask != (1 << W) - 1, rep = log.find("divergence detected (async copy)") != string::npos;
      if (div != rep) R->fail(div ? "missed-copy-divergence:subset" : "false-divergence:subset", R->curCase + ": " + log.substr(0, 200)); if (!div && !log.empty()) R->fail("false-report", R->curCase + ": " + log.substr(0, 200));
      if (div && W > 1 && countOf(log, fmt("Only %d out of %d work-items executed copy", __builtin_popcount(mask), W)) != 1) R->fail("copy-count", R->curCase + ": " + log.substr(0, 300));
    }
    for (int W = 1; W <= (R->thorough ? 5 : 3); W++) for (int x = 0; x < 1 << 2 * W; x++)
    {
      if (!R->begin(fmt("flags/%d/%d/%d", opt, W, x))) continue; cl_int fl[8]; bool div = false; cl_uint r[8], want = 0; for (int w = 0; w < W; w++) { fl[w] = x >> 2 * w & 3; div |= fl[w] != fl[0]; want += w + 1; }
      cl->write(act, fl, sizeof fl); cl->arg(f, 0, act); cl->arg(f, 1, res); cl->localArg(f, 2, 64); cap->clear(); CK(cl->launch1(f, W, W)); string log = cap->get(); cl->read(res, r, sizeof r); R->count("transitions", W); R->count("traces_validated_against_impl");
      bool rep = log.find("divergence detected (barrier)") != string::npos; if (div != rep) R->fail(div ? "missed-divergence:flags" : "false-divergence:flags", R->curCase + ": " + log.substr(0, 200)); if (!div && !log.empty()) R->fail("false-report", R->curCase + ": " + log.substr(0, 200));
      for (int w = 0; w < W; w++) if (r[w] != want) R->fail("passed-early", R->curCase + fmt(": work-item %d saw %u, expected %u", w, r[w], want));
    }
  }
}
// Waiting for many events at once, in one call or split into two at every point
static void many()
{
  const int MAX = 12; cl_mem src = cl->buf(4 * MAX); cl_int sv[MAX]; for (int i = 0; i < MAX; i++) sv[i] = 1000 + i; cl->write(src, sv, sizeof sv); cl_mem out = cl->buf(4 * MAX * 3);
  for (int opt = 0; opt < 2; opt++)
  {
    cl_program p = cl->build("kernel void f(global const int *s, global int *o, local int *l, int n, int split, int first) { int i = get_local_id(0); for (int j = i; j < 12; j += get_local_size(0)) l[j] = -1; barrier(CLK_LOCAL_MEM_FENCE); event_t e[12]; for (int j = 0; j < n; j++) e[j] = async_work_group_copy(l + j, s + j, 1, 0);\n"
      " if (split && first) wait_group_events(split, e); else if (split) wait_group_events(n - split, e + split);\n if (first || !split) wait_group_events(n - split, e + split); else wait_group_events(split, e);\n for (int j = 0; j < 12; j++) o[12 * i + j] = l[j]; }\n", opt ? "-cl-opt-disable" : "");
    cl_kernel k = cl->kernel(p, "f"); cl->arg(k, 0, src); cl->arg(k, 1, out); cl->localArg(k, 2, 4 * MAX);
    for (int W = 1; W <= 3; W++) for (cl_int n = 1; n <= MAX; n++) for (cl_int split = 0; split < n; split++) for (cl_int first = 0; first < 2; first++)
    {
      if (!split && first) continue; if (!R->begin(fmt("many/%d/%d/%d/%d/%d", opt, W, n, split, first))) continue; cl->arg(k, 3, n); cl->arg(k, 4, split); cl->arg(k, 5, first); cl_int o[MAX * 3]; memset(o, 0, sizeof o); cl->write(out, o, sizeof o);
      cap->clear(); CK(cl->launch1(k, W, W)); string log = cap->get(); if (!log.empty()) R->fail("many-report", R->curCase + ": " + log.substr(0, 200)); cl->read(out, o, sizeof o); R->count("transitions", W); R->count("traces_validated_against_impl");
      for (int i = 0; i < W * MAX; i++) if (o[i] != (i % MAX < n ? 1000 + i % MAX : -1)) { R->fail("many-data", R->curCase + fmt(": element %d is %d", i, o[i])); break; }
    }
    clReleaseKernel(k); clReleaseProgram(p);
  }
  clReleaseMemObject(src); clReleaseMemObject(out);
}
// Two barrier calls that come from one macro expansion
static void sameLocation()
{
  cl_program p = 0; cl_kernel k = 0;
  for (int opt = 0; opt < 2; opt++) for (int W = 2; W <= 3; W++)
  {
    if (!R->begin(fmt("same-location/%d/%d", opt, W))) continue;
    p = cl->build("#define EITHER(c) if (c) barrier(CLK_LOCAL_MEM_FENCE); else { o[9] = 4; barrier(CLK_LOCAL_MEM_FENCE); o[8] = 5; }\nkernel void f(global int *o) { int i = get_local_id(0);\n o[i] = 1; EITHER(i)\n o[i]++; }\n", string("-cl-std=CL1.2") + (opt ? " -cl-opt-disable" : ""));
    k = cl->kernel(p, "f"); cl->arg(k, 0, res); cap->clear(); CK(cl->launch1(k, W, W)); R->count("transitions", W); if (cap->get().find("divergence detected") == string::npos) R->fail("missed-divergence:same-source-location", R->curCase + ": work-items waiting at two different barrier calls of one macro expansion are not reported");
  }
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); Capture cp; cap = &cp; CL c; cl = &c; act = c.buf(4096); res = c.buf(4096); sink = c.buf(64);
  barriers(); fences(); copies(); events(); subsets(); many(); sameLocation(); R->sample("last case of this shard: " + R->curCase);
}
VF_MAIN(body)
