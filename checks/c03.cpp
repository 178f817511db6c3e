// C03: atomic builtins: every operation on an operand lattice (alone), and every schedule (within the preemption bound) of short sequences from several work-groups against all sequential orders.
#include "vf.hpp"
#include "mcrt.hpp"
#include <algorithm>
#include <sys/wait.h>
using namespace vf;
typedef uint64_t u64; typedef int64_t i64;
static CL* C; static Capture* E;
enum Op { ADD, SUB, XCHG, INC, DEC, CMPXCHG, MIN, MAX, AND, OR, XOR, NOPS };
static const char* ON[] = {"add", "sub", "xchg", "inc", "dec", "cmpxchg", "min", "max", "and", "or", "xor"};
struct Ty { const char* n; int size; bool sgn, flt; };
static const Ty TY[] = {{"int", 4, true, false}, {"uint", 4, false, false}, {"long", 8, true, false}, {"ulong", 8, false, false}, {"float", 4, false, true}};
static u64 mask(const Ty& t, u64 x) { return t.size == 4 ? (uint32_t)x : x; }
static i64 sx(const Ty& t, u64 x) { return t.size == 4 ? (int32_t)x : (i64)x; }
static u64 apply(const Ty& t, int op, u64 old, u64 a, u64 b)
{
  bool less = t.sgn ? sx(t, a) < sx(t, old) : mask(t, a) < mask(t, old);
  switch (op) { case ADD: return mask(t, old + a); case SUB: return mask(t, old - a); case XCHG: return a; case INC: return mask(t, old + 1); case DEC: return mask(t, old - 1); case CMPXCHG: return old == a ? b : old; case MIN: return less ? a : old; case MAX: return less ? old : a; case AND: return old & a; case OR: return old | a; default: return old ^ a; }
}
static string call(const string& prefix, int op, const string& p, const string& a, const string& b) { string s = prefix + ON[op] + "(" + p; if (op != INC && op != DEC) s += ", " + a; if (op == CMPXCHG) s += ", " + b; return s + ")"; }
static string ext(const string& prefix) { string s; if (prefix == "atom_") for (const char* x : {"global_int32_base_atomics", "global_int32_extended_atomics", "local_int32_base_atomics", "local_int32_extended_atomics", "int64_base_atomics", "int64_extended_atomics"}) s += string("#pragma OPENCL EXTENSION cl_khr_") + x + " : enable\n"; return s; }
static vector<u64> lattice(const Ty& t)
{
  vector<u64> v = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x55555555u, 0xaaaaaaaau}; if (t.size == 8) for (u64 x : {0x100000000ull, 0xffffffff00000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xfffffffffffffffeull, 0xffffffffffffffffull, 0x5555555555555555ull, 0x123456789abcdef0ull}) v.push_back(x);
  if (t.flt) v = {0, 0x80000000u, 0x3f800000, 0xbfc00000, 0x7f7fffff, 0x00000001, 0x7f800000, 0xff800000, 0x7fc00001};
  return v;
}
static void put(vector<uint8_t>& b, const Ty& t, size_t i, u64 v) { memcpy(&b[i * t.size], &v, t.size); }
static u64 get(const vector<uint8_t>& b, const Ty& t, size_t i) { u64 v = 0; memcpy(&v, &b[i * t.size], t.size); return v; }
// one call per work-item, each on a location of its own
static void alone(const Ty& t, const string& prefix, int op, bool local, bool vol)
{
  string id = fmt("alone/%s%s/%s/%s%s", prefix.c_str(), ON[op], t.n, local ? "local" : "global", vol ? "" : "/used"); if (!R->begin(id)) return;
  auto L = lattice(t); struct V { u64 m, a, b; }; vector<V> vs; for (u64 m : L) for (u64 a : L) { if (op == CMPXCHG) { for (u64 b : {L[1], L[3], L.back()}) vs.push_back({m, a, b}); } else if (op == INC || op == DEC) { vs.push_back({m, 0, 0}); break; } else vs.push_back({m, a, 0}); }
  size_t n = vs.size(), ls = 8, N = (n + ls - 1) / ls * ls; while (vs.size() < N) vs.push_back(vs[0]);
  string T = t.n, p = local ? "l + get_local_id(0) * 2 + 1" : "m + i * 2 + 1", c = call(prefix, op, string("(volatile ") + (local ? "local " : "global ") + T + " *)(" + p + ")", "a[i]", "b[i]");
  string src = ext(prefix) + "kernel void k(global " + T + " *m, global " + T + " *a, global " + T + " *b, global " + T + " *old, local " + T + " *l) { int i = get_global_id(0), j = get_local_id(0); " + (local ? "l[j * 2] = m[i * 2]; l[j * 2 + 1] = m[i * 2 + 1]; " : "") + (vol ? "old[i] = " + c + ";" : "old[i] = 7; " + c + ";") + (local ? " m[i * 2] = l[j * 2]; m[i * 2 + 1] = l[j * 2 + 1];" : "") + " }";
  vector<uint8_t> m(N * 2 * t.size), a(N * t.size), b(a), o(a), m2(m); for (size_t i = 0; i < N; i++) { put(m, t, 2 * i, 0x1111111111111111ull * (i % 13 + 1)); put(m, t, 2 * i + 1, vs[i].m); put(a, t, i, vs[i].a); put(b, t, i, vs[i].b); }
  cl_program pr = C->build(src); cl_kernel k = C->kernel(pr, "k"); cl_mem B[4] = {C->buf(m.size(), m.data()), C->buf(a.size(), a.data()), C->buf(b.size(), b.data()), C->buf(o.size(), o.data())}; for (int i = 0; i < 4; i++) C->arg(k, i, B[i]); C->localArg(k, 4, ls * 2 * t.size);
  E->clear(); if (C->launch1(k, N, ls)) R->fail("status:" + id, id + ": the launch failed"); C->read(B[0], m2.data(), m2.size()); C->read(B[3], o.data(), o.size()); string d = E->get(); if (!d.empty()) R->fail("diag:" + id, id + ": unexpected diagnostic: " + d.substr(0, 300));
  for (size_t i = 0; i < N; i++)
  {
    R->count("states"); R->count("transitions"); u64 want = apply(t, op, vs[i].m, vs[i].a, vs[i].b), old = get(o, t, i), now = get(m2, t, 2 * i + 1); string in = fmt("old 0x%llx operands 0x%llx 0x%llx", (long long)vs[i].m, (long long)vs[i].a, (long long)vs[i].b);
    if (old != (vol ? vs[i].m : t.flt ? 0x40e00000 : 7)) R->fail("old:" + id, id + ": " + in + fmt(": returned 0x%llx", (long long)old)); if (now != want) R->fail("new:" + id, id + ": " + in + fmt(": memory became 0x%llx instead of 0x%llx", (long long)now, (long long)want)); if (get(m2, t, 2 * i) != get(m, t, 2 * i)) R->fail("neighbour:" + id, id + ": " + in + ": the neighbouring element changed");
  }
  for (auto x : B) clReleaseMemObject(x); clReleaseKernel(k); clReleaseProgram(pr);
}
// addresses that are not a multiple of the operand size are reported
static void unaligned(const Ty& t, const string& prefix, int op, bool local)
{
  string id = fmt("unaligned/%s%s/%s/%s", prefix.c_str(), ON[op], t.n, local ? "local" : "global"); if (!R->begin(id)) return; string T = t.n, sp = local ? "local " : "global ";
  string src = ext(prefix) + "kernel void k(global char *m, local char *l, int off, " + T + " a) { volatile " + sp + T + " *p = (volatile " + sp + T + " *)((" + sp + "char *)" + (local ? "l" : "m") + " + off); " + call(prefix, op, "p", "a", "a") + "; }";
  cl_program pr = C->build(src); cl_kernel k = C->kernel(pr, "k"); uint8_t z[32] = {0}; cl_mem m = C->buf(32, z); C->arg(k, 0, m); C->localArg(k, 1, 32); u64 a = 1;
  for (int off = 0; off <= 16; off++) { R->count("states"); R->count("transitions"); C->arg(k, 2, off); CK(clSetKernelArg(k, 3, t.size, &a)); E->clear(); C->launch1(k, 1, 1); string d = E->get(); bool rep = d.find("Unaligned address") != string::npos; if (rep != (off % t.size != 0)) R->fail("unaligned:" + id, id + fmt(": offset %d: %s", off, rep ? "reported as unaligned" : "not reported")); }
  clReleaseMemObject(m); clReleaseKernel(k); clReleaseProgram(pr);
}
// ---- sequences from several work-groups or work-items ----
struct Step { int op, loc; u64 a, b; };
typedef vector<vector<Step>> Prog;
static const int ALIAS = 512; // an element whose lock is shared with element 0
struct Machine { cl_program p; cl_kernel k; };
static std::map<string, Machine> machines;
static Machine machine(const Ty& t)
{
  auto it = machines.find(t.n); if (it != machines.end()) return it->second; string T = t.n, pre = t.size == 8 ? "atom_" : "atomic_";
  string s = ext(pre) + "kernel void k(global " + T + " *m, constant int *op, constant int *loc, constant " + T + " *a, constant " + T + " *b, global " + T + " *old, int steps, local " + T + " *l, int useLocal) { int g = get_global_id(0); if (useLocal) { l[0] = m[0]; l[1] = m[1]; barrier(CLK_LOCAL_MEM_FENCE); } for (int s = 0; s < steps; s++) { int i = g * steps + s; " + T + " o = 0; if (useLocal) { volatile local " + T + " *p = l + loc[i]; switch (op[i]) {";
  for (int o = 0; o < NOPS; o++) s += fmt(" case %d: o = ", o) + call(pre, o, "p", "a[i]", "b[i]") + "; break;"; s += " } } else { volatile global " + T + " *p = m + loc[i]; switch (op[i]) {"; for (int o = 0; o < NOPS; o++) s += fmt(" case %d: o = ", o) + call(pre, o, "p", "a[i]", "b[i]") + "; break;"; s += " } } old[i] = o; } if (useLocal) { barrier(CLK_LOCAL_MEM_FENCE); m[0] = l[0]; m[1] = l[1]; } }";
  Machine m; m.p = C->build(s); m.k = C->kernel(m.p, "k"); return machines[t.n] = m;
}
static void orders(const Ty& t, const Prog& p, vector<size_t> pc, std::map<int, u64> mem, vector<vector<u64>> old, std::set<string>& out)
{
  bool end = true; for (size_t g = 0; g < p.size(); g++) if (pc[g] < p[g].size()) { end = false; auto q = pc; auto m = mem; auto o = old; const Step& s = p[g][q[g]++]; o[g].push_back(m[s.loc]); m[s.loc] = apply(t, s.op, m[s.loc], s.a, s.b); orders(t, p, q, m, o, out); }
  if (end) { string r; for (auto& x : old) { for (u64 v : x) r += fmt(" %llx", (long long)v); r += " |"; } for (auto& x : mem) r += fmt(" [%d]=%llx", x.first, (long long)x.second); out.insert(r); }
}
static void together(const Ty& t, const Prog& p, bool sameGroup, bool local, int bound, const char* plug)
{
  string id = fmt("%s/%s/%s", sameGroup ? (local ? "items-local" : "items") : "groups", t.n, plug); for (auto& g : p) { id += "/"; for (auto& s : g) id += fmt("%s%s%llx.%llx", ON[s.op], s.loc == 1 ? "'" : s.loc ? "\"" : "", (long long)s.a, (long long)s.b) + (&s == &g.back() ? "" : ";"); } if (!R->begin(id)) return;
  auto M = machine(t); size_t n = p.size(), steps = p[0].size(), len = (ALIAS + 1) * t.size; vector<uint8_t> m(len), a(n * steps * t.size), b(a); vector<int> op, loc; std::map<int, u64> mem; u64 i0 = 5, i1 = 0x40; put(m, t, 0, i0); put(m, t, 1, i1); put(m, t, ALIAS, i0); for (size_t g = 0; g < n; g++) for (size_t s = 0; s < steps; s++) { auto& x = p[g][s]; put(a, t, op.size(), x.a); put(b, t, op.size(), x.b); op.push_back(x.op); loc.push_back(x.loc); mem[x.loc] = get(m, t, x.loc); }
  std::set<string> ok; orders(t, p, vector<size_t>(n), mem, vector<vector<u64>>(n), ok);
  cl_mem B[6] = {C->buf(len, m.data()), C->buf(op.size() * 4, op.data()), C->buf(loc.size() * 4, loc.data()), C->buf(a.size(), a.data()), C->buf(b.size(), b.data()), C->buf(a.size(), a.data())}; for (int i = 0; i < 6; i++) C->arg(M.k, i, B[i]); cl_int st = steps, ul = local; C->arg(M.k, 6, st); C->localArg(M.k, 7, 64); C->arg(M.k, 8, ul);
  auto run = [&]() -> string { E->clear(); cl_int e = C->launch1(M.k, n, sameGroup ? n : 1); vector<uint8_t> o(a.size()), mm(len); C->read(B[5], o.data(), o.size()); C->read(B[0], mm.data(), len); string r; for (size_t g = 0; g < n; g++) { for (size_t s = 0; s < steps; s++) r += fmt(" %llx", (long long)get(o, t, g * steps + s)); r += " |"; } for (auto& x : mem) r += fmt(" [%d]=%llx", x.first, (long long)get(mm, t, x.first)); if (e) r += fmt(" status %d", e); string d = E->get(); if (!d.empty()) r += " diagnostic " + d.substr(0, 200); return r; };
  if (sameGroup) { R->count("states"); R->count("transitions", n * steps); string r = run(); if (!ok.count(r)) R->fail("sequence:" + id, id + ": outcome" + r + " is not that of any order of the calls"); }
  else
  {
    setenv("OCLGRIND_NUM_THREADS", fmt("%d", (int)n).c_str(), 1); mc::Options o; o.preemptions = bound; int bad = 0; std::set<string> seen;
    long k = mc::explore(o, run, [&](const mc::Execution& x) {
      R->tick(); R->count("states"); R->count("transitions", x.points); R->count("traces_validated_against_impl"); string msg; if (x.error.find("INTERNAL") == 0) R->internal(x.error);
      if (!x.error.empty()) msg = x.error; else if (!WIFEXITED(x.status) || WEXITSTATUS(x.status)) msg = fmt("the simulator was killed (status %x)", x.status); else if (!x.race.empty()) msg = "unsynchronised conflicting accesses: " + x.race; else if (!ok.count(x.outcome)) msg = "outcome" + x.outcome + " is not that of any order of the calls"; else seen.insert(x.outcome);
      if (msg.empty()) return true; R->fail("concurrent:" + id, id + ": " + msg + " [schedule " + x.schedule + "]"); return ++bad < 2; });
    R->count("outcomes allowed", ok.size()); R->count("outcomes seen", seen.size()); R->sample(id + fmt(": %ld schedules, %zu of %zu sequential outcomes seen", k, seen.size(), ok.size())); setenv("OCLGRIND_NUM_THREADS", "1", 1);
  }
  for (auto x : B) clReleaseMemObject(x);
}
static Step std1(int op, int v, int loc = 0) { static const u64 A[] = {3, 2, 9, 0, 0, 5, 4, 6, 0xc, 0x18, 0x7}; u64 a = A[op]; if (v == 1 && op != INC && op != DEC && op != CMPXCHG) a = op == XCHG ? 11 : a * 2 + (op == AND ? 3 : 0); return {op, loc, a, (u64)(op == CMPXCHG ? 8 + v : 0)}; }
static void body(int argc, char** argv)
{
  stdEnv(argv[1], "1"); E = new Capture(2); CL cl; C = &cl; bool T = R->thorough;
  for (int op = 0; op < NOPS; op++) for (auto& t : TY) for (string pre : {"atomic_", "atom_"})
  {
    if (t.flt && (op != XCHG || pre == "atom_")) continue; if (t.size == 8 && pre == "atomic_") continue;
    for (int l = 0; l < 2; l++) { for (int v = 0; v < 2; v++) alone(t, pre, op, l, v); if (!t.flt) unaligned(t, pre, op, l); }
  }
  auto& U = TY[1]; auto& I = TY[0]; auto& L = TY[2]; auto& UL = TY[3];
  // every pair of operations, one call each
  for (int x = 0; x < NOPS; x++) for (int y = x; y < NOPS; y++) { together(U, {{std1(x, 0)}, {std1(y, 1)}}, false, false, T ? 4 : 2, "none"); for (auto t : {&L, &UL, &I}) if (T || x == y || (x == CMPXCHG) != (y == CMPXCHG)) together(*t, {{std1(x, 0)}, {std1(y, 1)}}, false, false, T ? 3 : 1, "none"); }
  // two calls each, on one or two locations and on locations sharing a lock
  static const int S[] = {ADD, XCHG, CMPXCHG, INC, MAX, XOR}; for (int x : S) for (int y : S) for (int l2 : {0, 1, ALIAS}) if (T || x <= y) together(U, {{std1(x, 0), std1(y, 1, l2)}, {std1(y, 0), std1(x, 1, l2)}}, false, false, T ? 2 : 1, "none");
  for (int x : S) for (int l2 : {0, 1, ALIAS}) together(UL, {{std1(x, 0), std1(ADD, 1, l2)}, {std1(CMPXCHG, 0, l2), std1(x, 1)}}, false, false, T ? 2 : 1, "none");
  // three groups
  for (int x : S) for (int y : S) if (T || x == y || x == CMPXCHG) together(U, {{std1(x, 0)}, {std1(y, 1)}, {std1(x, 1)}}, false, false, T ? 2 : 1, "none");
  // several work-items of one group: the order is the simulator's, the outcome must still be that of some order
  for (auto& t : TY) if (!t.flt) for (int x = 0; x < NOPS; x++) for (int y = 0; y < NOPS; y++) for (int l = 0; l < 2; l++) together(t, {{std1(x, 0), std1(y, 1, 1)}, {std1(y, 0, 1), std1(x, 1)}, {std1(x, 1), std1(y, 0)}}, true, l, 0, "none");
}
VF_MAIN(body)
