// C19: diagnostics: every problem reported once, attributed to its kernel, work-item and line, up to the limit; clean runs are silent.
#include "vf.hpp"
#include "core/common.h"
#include "core/Context.h"
#include "core/Plugin.h"
#include <atomic>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/wait.h>
using namespace vf;
static string incdir, tmpdir, shim; static Capture* cap;
static std::atomic<long> plog[2];
struct Rec : oclgrind::Plugin { int n; Rec(const oclgrind::Context* c, int n_) : Plugin(c), n(n_) {} void log(oclgrind::MessageType t, const char*) override { if (t != oclgrind::INFO) plog[n]++; } };
static std::map<void*, std::vector<Rec*>> recs;
extern "C" void vfInit(void* c) { for (int i = 0; i < 2; i++) { Rec* r = new Rec((oclgrind::Context*)c, i); ((oclgrind::Context*)c)->registerPlugin(r); recs[c].push_back(r); } }
extern "C" void vfExit(void* c) { for (Rec* r : recs[c]) { ((oclgrind::Context*)c)->unregisterPlugin(r); delete r; } recs.erase(c); }

struct Block { string head, kernel, entity, src, file; int line = -1; vector<string> all; };
static vector<Block> parse(const string& s, vector<string>* other = 0)
{
  vector<Block> r; std::istringstream is(s); string l;
  while (std::getline(is, l))
  {
    if (l.empty()) continue;
    if (l[0] != '\t') { if (l.compare(0, 9, "Oclgrind:") == 0) { if (other) other->push_back(l); continue; } Block b; b.head = l; b.all.push_back(l); r.push_back(b); continue; }
    if (r.empty()) { if (other) other->push_back(l); continue; }
    Block& b = r.back(); b.all.push_back(l); string t = l.substr(1);
    if (t.compare(0, 7, "Kernel:") == 0) b.kernel = t.substr(t.find_first_not_of(' ', 7)); else if (t.compare(0, 8, "Entity: ") == 0) b.entity = t.substr(8); else if (t.compare(0, 11, "Work-group:") == 0 && b.entity.empty()) b.entity = "Group" + t.substr(t.find_first_not_of(' ', 11));
    else if (t.compare(0, 8, "At line ") == 0) { if (b.line < 0) { b.line = atoi(t.c_str() + 8); size_t p = t.find(") of "); b.file = t.substr(p + 5, t.size() - p - 6); b.src = "?"; } }
    else if (b.src == "?") b.src = t;
  }
  return r;
}
struct Kind { const char* name; string stmt, head; bool uninit; };
static const vector<Kind> KINDS = {
  {"write", "out[1000000 + i] = 1;", "Invalid write of size 4 at global memory address", false},
  {"read", "{ volatile int t = out[2000000 + i]; }", "Invalid read of size 4 at global memory address", false},
  {"readonly", "ro[i] = 1;", "Invalid write to read-only buffer", false},
  {"writeonly", "{ volatile int t = wo[i]; }", "Invalid read from write-only buffer", false},
  {"null", "*(global int*)nul = 1;", "Invalid write of size 4 at global memory address 0x0", false},
  {"unaligned", "atomic_inc((volatile global int*)((volatile global char*)scr + 4 * i + 1));", "Unaligned address on atomic_inc", false},
  {"private", "{ int a[4]; *(volatile int *)((char *)a + 400 + 4 * f) = 1; }", "Invalid write of size 4 at private memory address", false},
  {"local", "lm[100000 + f] = 1;", "Invalid write of size 4 at local memory address", false},
  {"function", "poke(out, i);", "Invalid write of size 4 at global memory address", false},
  {"inlined", "ipoke(out, i);", "Invalid write of size 4 at global memory address", false},
  {"header", "hpoke(out, i);", "Invalid write of size 4 at global memory address", false},
  {"macro", "POKE(out, i);", "Invalid write of size 4 at global memory address", false},
  {"vector", "((global int4*)out)[400000 + i] = (int4)(1);", "Invalid write of size 16 at global memory address", false},
  {"uninit", "scr[i] = lm[f];", "Uninitialized value written to global memory address", true},
  {"uninitflow", "if (lm[f] > 3) scr[i] = 1;", "Controlflow depends on uninitialized value", true}};
static const char* PRO = "#include \"vfh19.h\"\n#define POKE(p, x) \\\n  p[5000000 + x] = 2\n__attribute__((noinline)) void poke(global int *p, size_t i)\n{\n  p[3000000 + i] = 7; /*L:function*/\n}\n\nstatic inline void ipoke(global int *p, size_t i)\n{\n\tp[4000000 + i] = 8; /*L:inlined*/\n}\n";
static const char* SIG = "(global int *out, global const uchar *mask, global int *scr, global int *ro, global int *wo, local int *lm, ulong nul)\n{\n  size_t i = (get_global_id(2) - get_global_offset(2)) * get_global_size(1) * get_global_size(0)\n    + (get_global_id(1) - get_global_offset(1)) * get_global_size(0) + get_global_id(0) - get_global_offset(0);\n  int f = mask[i];\n";
static string program(bool crlf)
{
  string s = PRO; for (auto& k : KINDS) s += "kernel void k_" + string(k.name) + SIG + "  out[i] = i * 3 + 1;\n  if (f)\n    " + k.stmt + " /*S:" + k.name + "*/\n  out[i] += 5;\n}\n";
  s += string("kernel void k_barrier") + SIG + "  out[i] = i * 3 + 6;\n  if (!f)\n    barrier(CLK_GLOBAL_MEM_FENCE); /*S:barrier*/\n}\n";
  s += string("kernel void k_async") + SIG + "  out[i] = i * 3 + 6; event_t e = 0;\n  lm[get_local_id(0) + get_local_id(1) + get_local_id(2)] = 1; barrier(CLK_LOCAL_MEM_FENCE);\n  if (f) {\n    e = async_work_group_copy(out + 1000000, lm, 1, 0);\n    wait_group_events(1, &e); /*S:async*/\n  }\n}\n";
  s += string("kernel void k_multi") + SIG + "  out[i] = i * 3 + 6;\n  if (f & 1)\n    scr[1000000] = f; /*M:0*/\n  if (f & 2)\n    poke(scr, i);\n  for (int j = 0; j < (f >> 2 & 3); j++)\n    scr[-100 - j] = j; /*M:2*/\n  if (f & 16)\n    lm[30000] = 1; /*M:3*/\n}\n";
  s += "kernel void k_clean(global int *out, local int *lm) { int l = get_local_id(0), i = get_global_id(0); lm[l] = i; barrier(CLK_LOCAL_MEM_FENCE); int t[3] = {1, 2, 3}; out[i - get_global_offset(0)] = lm[get_local_size(0) - 1 - l] + t[i % 3]; atomic_inc(out + 64); printf(\"\"); }\n";
  if (crlf) { string t; for (char c : s) { if (c == '\n' && (t.empty() || t.back() != '\\')) t += '\r'; t += c; } s = t; }
  return s;
}
static int lineOf(const string& src, const string& marker, string* text) { size_t p = src.find(marker); int n = 1; for (size_t i = 0; i < p; i++) n += src[i] == '\n'; size_t b = src.rfind('\n', p) + 1, e = src.find('\n', p); *text = src.substr(b, e - b); while (!text->empty() && isspace((*text)[0])) text->erase(0, 1); if (!text->empty() && text->back() == '\r') text->pop_back(); return n; }
struct Shape { int dim; size_t g[3], l[3], o[3]; };
static const Shape SH[] = {{1, {4, 1, 1}, {2, 1, 1}, {0, 0, 0}}, {1, {4, 1, 1}, {4, 1, 1}, {5, 0, 0}}, {2, {2, 3, 1}, {2, 1, 1}, {7, 1, 0}}, {3, {2, 2, 2}, {1, 2, 1}, {0, 3, 9}}, {1, {6, 1, 1}, {1, 1, 1}, {100, 0, 0}}, {2, {3, 2, 1}, {3, 2, 1}, {0, 4, 0}}, {3, {1, 2, 3}, {1, 2, 3}, {1, 2, 3}}};
static string sz(const size_t* v) { return fmt("(%zu,%zu,%zu)", v[0], v[1], v[2]); }
struct Env
{
  CL c; cl_program p; cl_mem out, mask, scr, ro, wo; string src;
  Env(bool noopt, bool crlf) { src = program(crlf); p = c.build(src, "-I " + incdir + (noopt ? " -cl-opt-disable" : "")); vector<int> z(64, 0); out = c.buf(256, z.data()); mask = c.buf(64, z.data()); scr = c.buf(256, z.data()); ro = c.buf(256, z.data(), CL_MEM_READ_ONLY); wo = c.buf(256, z.data(), CL_MEM_WRITE_ONLY); }
  void destroy() { for (cl_mem m : {out, mask, scr, ro, wo}) clReleaseMemObject(m); clReleaseProgram(p); c.destroy(); }
  cl_int run(cl_kernel k, const Shape& s, const vector<uint8_t>& m)
  {
    vector<int> z(64, -1), y(64, 3); c.write(out, z.data(), 256); c.write(scr, y.data(), 256); vector<uint8_t> mm = m; mm.resize(64); c.write(mask, mm.data(), 64);
    c.arg(k, 0, out); c.arg(k, 1, mask); c.arg(k, 2, scr); c.arg(k, 3, ro); c.arg(k, 4, wo); c.localArg(k, 5, 256); cl_ulong n = 0; c.arg(k, 6, n); return c.launch(k, s.dim, s.g, s.l, s.o);
  }
};
struct WI { size_t g[3], l[3], gr[3]; };
// work-items in execution order of one worker, with the index of each in the mask
static vector<std::pair<size_t, WI>> items(const Shape& s)
{
  vector<std::pair<size_t, WI>> r; size_t ng[3]; for (int d = 0; d < 3; d++) ng[d] = s.g[d] / s.l[d];
  for (size_t gz = 0; gz < ng[2]; gz++) for (size_t gy = 0; gy < ng[1]; gy++) for (size_t gx = 0; gx < ng[0]; gx++) for (size_t z = 0; z < s.l[2]; z++) for (size_t y = 0; y < s.l[1]; y++) for (size_t x = 0; x < s.l[0]; x++)
  { WI w{{gx * s.l[0] + x, gy * s.l[1] + y, gz * s.l[2] + z}, {x, y, z}, {gx, gy, gz}}; size_t i = (w.g[2] * s.g[1] + w.g[1]) * s.g[0] + w.g[0]; for (int d = 0; d < 3; d++) w.g[d] += s.o[d]; r.push_back({i, w}); }
  return r;
}
struct Exp { string head, kernel, entity, src, file; int line; };
static bool eq(const Exp& e, const Block& b, string& why)
{
  if (b.head.compare(0, e.head.size(), e.head)) { why = "headline \"" + b.head + "\", expected \"" + e.head + "\""; return false; }
  if (b.kernel != e.kernel) { why = "kernel \"" + b.kernel + "\", expected \"" + e.kernel + "\""; return false; }
  if (b.entity != e.entity) { why = "entity \"" + b.entity + "\", expected \"" + e.entity + "\""; return false; }
  if (b.line != e.line) { why = "line " + std::to_string(b.line) + ", expected " + std::to_string(e.line); return false; }
  if (e.file == "input.cl" ? b.file != e.file : b.file.find(e.file) == string::npos) { why = "file " + b.file + ", expected " + e.file; return false; }
  string t = b.src; while (!t.empty() && isspace(t[0])) t.erase(0, 1); while (!t.empty() && isspace(t.back())) t.pop_back(); string x = e.src; while (!x.empty() && isspace(x.back())) x.pop_back();
  if (t != x && !(e.file != "input.cl" && t == "(source not available)")) { why = "source line \"" + t + "\", expected \"" + x + "\""; return false; }
  return true;
}
static void judge(const string& what, vector<Exp> want, const string& text, bool ordered)
{
  vector<string> other; vector<Block> got = parse(text, &other); R->count("traces_validated_against_impl"); R->count("transitions", want.size() + 1); string key = R->curCase.substr(0, R->curCase.find('/'));
  if (!other.empty()) { R->fail("other:" + key, R->curCase + " " + what + " unexpected output: " + other[0]); return; }
  if (got.size() != want.size()) { R->fail("count:" + key, R->curCase + " " + what + ": " + std::to_string(got.size()) + " diagnostics printed, expected " + std::to_string(want.size()) + (got.empty() ? "" : "; last: " + got.back().head + " " + got.back().entity)); return; }
  if (ordered) { for (size_t i = 0; i < want.size(); i++) { string why; if (!eq(want[i], got[i], why)) { R->fail("attribution:" + key, R->curCase + " " + what + " diagnostic " + std::to_string(i) + ": " + why); return; } } return; }
  vector<bool> used(got.size()); for (auto& e : want) { bool ok = false; string why, w; for (size_t i = 0; i < got.size() && !ok; i++) if (!used[i] && eq(e, got[i], w)) { used[i] = ok = true; } if (!ok) { R->fail("attribution:" + key, R->curCase + " " + what + ": no diagnostic for " + e.kernel + " " + e.entity + " line " + std::to_string(e.line) + (w.size() ? " (" + w + ")" : "")); return; } }
}
static Exp expectFor(const string& src, const Kind& k, const WI& w)
{
  Exp e; e.head = k.head; e.kernel = "k_" + string(k.name); e.entity = "Global" + sz(w.g) + " Local" + sz(w.l) + " Group" + sz(w.gr); e.file = "input.cl"; string n = k.name;
  if (n == "header") { e.file = "vfh19.h"; e.line = 4; e.src = "p[6000000 + i] = 9;"; } else e.line = lineOf(src, n == "function" || n == "inlined" ? "/*L:" + n + "*/" : "/*S:" + n + "*/", &e.src);
  return e;
}
static void checkOut(Env& E, const Shape& s, const string& what)
{
  size_t n = s.g[0] * s.g[1] * s.g[2]; vector<int> o(64); E.c.read(E.out, o.data(), 256);
  for (size_t i = 0; i < 64; i++) if (o[i] != (i < n ? (int)i * 3 + 6 : -1)) { R->fail("results:" + R->curCase.substr(0, R->curCase.find('/')), R->curCase + " " + what + ": element " + std::to_string(i) + " is " + std::to_string(o[i])); return; }
}
static string mstr(const vector<uint8_t>& m, size_t n) { string s = "failing work-items "; for (size_t i = 0; i < n; i++) s += m[i] ? std::to_string((int)m[i]) : "."; return s; }
static void attribution(Env& E, const string& tag, bool uninit, bool ordered, bool few)
{
  for (auto& k : KINDS) for (size_t si = 0; si < sizeof SH / sizeof *SH; si++)
  {
    if (k.uninit && !uninit) continue;
    if (few && (si == 0 || si == 4 || si == 6)) continue;
    if (!R->begin(string(k.name) + "/" + tag + "/" + std::to_string(si))) continue; const Shape& s = SH[si]; auto its = items(s); size_t n = its.size(); cl_kernel kn = E.c.kernel(E.p, string("k_") + k.name);
    for (unsigned m = 0; m < (1u << n); m += few ? 3 : 1)
    {
      vector<uint8_t> mask(64, 0); for (size_t i = 0; i < n; i++) mask[i] = m >> i & 1; cap->clear(); CK(E.run(kn, s, mask)); string text = cap->get(); R->tick(); vector<Exp> want; for (auto& it : its) if (mask[it.first]) want.push_back(expectFor(E.src, k, it.second));
      judge(mstr(mask, n), want, text, ordered); checkOut(E, s, mstr(mask, n));
    }
    clReleaseKernel(kn);
  }
  for (size_t si = 0; si < sizeof SH / sizeof *SH; si++)
  {
    const Shape& s = SH[si]; auto its = items(s); size_t n = its.size(); std::map<string, vector<size_t>> groups; vector<string> order; for (auto& it : its) { string g = sz(it.second.gr); if (!groups.count(g)) order.push_back(g); groups[g].push_back(it.first); }
    if (R->begin("barrier/" + tag + "/" + std::to_string(si)))
    {
      cl_kernel kn = E.c.kernel(E.p, "k_barrier"); for (unsigned m = 0; m < (1u << n); m++)
      {
        vector<uint8_t> mask(64, 0); for (size_t i = 0; i < n; i++) mask[i] = m >> i & 1; cap->clear(); CK(E.run(kn, s, mask)); string text = cap->get(); R->tick(); vector<Exp> want; for (auto& g : order) { size_t a = 0; for (size_t i : groups[g]) a += !mask[i]; if (a && a < groups[g].size()) { Exp e; e.head = "Work-group divergence detected (barrier)"; e.kernel = "k_barrier"; e.entity = "Group" + g; e.file = "input.cl"; e.line = lineOf(E.src, "/*S:barrier*/", &e.src); want.push_back(e); } }
        judge(mstr(mask, n), want, text, ordered); checkOut(E, s, mstr(mask, n));
      }
      clReleaseKernel(kn);
    }
    if (R->begin("async/" + tag + "/" + std::to_string(si)))
    {
      cl_kernel kn = E.c.kernel(E.p, "k_async"); for (unsigned m = 0; m < (1u << order.size()); m++)
      {
        vector<uint8_t> mask(64, 0); vector<Exp> want; for (size_t g = 0; g < order.size(); g++) if (m >> g & 1) { for (size_t i : groups[order[g]]) mask[i] = 1; Exp e; e.head = "Invalid write of size 4 at global memory address"; e.kernel = "k_async"; e.entity = "Group" + order[g]; e.file = "input.cl"; e.line = lineOf(E.src, "/*S:async*/", &e.src); want.push_back(e); }
        cap->clear(); CK(E.run(kn, s, mask)); string text = cap->get(); R->tick(); judge(mstr(mask, n), want, text, ordered); checkOut(E, s, mstr(mask, n));
      }
      clReleaseKernel(kn);
    }
  }
  // several problems per work-item: every combination for two work-items, in program order
  if (R->begin("multi/" + tag))
  {
    const Shape s = {1, {2, 1, 1}, {1, 1, 1}, {3, 0, 0}}; auto its = items(s); cl_kernel kn = E.c.kernel(E.p, "k_multi");
    for (unsigned m = 0; m < 1024; m++)
    {
      vector<uint8_t> mask(64, 0); mask[0] = m & 31; mask[1] = m >> 5; cap->clear(); CK(E.run(kn, s, mask)); string text = cap->get(); R->tick(); vector<Exp> want;
      for (auto& it : its)
      {
        int f = mask[it.first]; auto add = [&](const char* mark, const char* head) { Exp e; e.head = head; e.kernel = "k_multi"; e.entity = "Global" + sz(it.second.g) + " Local" + sz(it.second.l) + " Group" + sz(it.second.gr); e.file = "input.cl"; e.line = lineOf(E.src, mark, &e.src); want.push_back(e); }; const char* G = "Invalid write of size 4 at global memory address";
        if (f & 1) add("/*M:0*/", G); if (f & 2) add("/*L:function*/", G); for (int j = 0; j < (f >> 2 & 3); j++) add("/*M:2*/", G); if (f & 16) add("/*M:3*/", "Invalid write of size 4 at local memory address");
      }
      judge(mstr(mask, 2), want, text, ordered); checkOut(E, s, mstr(mask, 2));
    }
    clReleaseKernel(kn);
  }
}
static void clean(Env& E, const string& tag)
{
  if (!R->begin("clean/" + tag)) return; cl_kernel kn = E.c.kernel(E.p, "k_clean");
  for (size_t g : {1, 2, 6, 8}) for (size_t l = 1; l <= g; l++) for (size_t o : {0, 4})
  {
    if (g % l) continue; vector<int> z(65, 0); cl_mem b = E.c.buf(260, z.data()); E.c.arg(kn, 0, b); E.c.localArg(kn, 1, 4 * l); cap->clear(); cl_event ev; size_t gg = g, ll = l, oo = o; CK(clEnqueueNDRangeKernel(E.c.q, kn, 1, &oo, &gg, &ll, 0, 0, &ev)); CK(clWaitForEvents(1, &ev)); clReleaseEvent(ev); E.c.read(b, z.data(), 260); string t = cap->get(); R->count("transitions"); R->count("traces_validated_against_impl"); clReleaseMemObject(b);
    if (!t.empty()) R->fail("clean", R->curCase + fmt(" global %zu local %zu offset %zu: ", g, l, o) + t.substr(0, 300));
    for (size_t i = 0; i < g; i++) { int w = (int)(i / l * l + (l - 1 - i % l) + o) + (int)((i + o) % 3) + 1; if (z[i] != w) { R->fail("clean-results", R->curCase + fmt(" element %zu is %d, expected %d", i, z[i], w)); break; } } if (z[64] != (int)g) R->fail("clean-results", R->curCase + " counter");
  }
  clReleaseKernel(kn);
}
// runs f in a child process (the error counter is per process); returns false on abnormal exit
static bool child(const std::function<void()>& f)
{
  fflush(0); pid_t p = fork(); if (!p) { alarm(60); f(); fflush(0); _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) && !WEXITSTATUS(st);
}
static string slurp(const string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static const char* LK[] = {"write", "uninit"};
static void limitCase(const string& inc, int L, const vector<std::pair<int, int>>& launches, int sink, const string& threads, bool useDefault = false)
{
  string id = fmt("limit/%d/%d/%s", useDefault ? -1 : L, sink, threads.c_str()); for (auto& x : launches) id += fmt("/%d:%d", x.first, x.second); if (!R->begin(id)) return;
  string lf = tmpdir + "/log." + std::to_string(getpid()), cf = tmpdir + "/cnt." + std::to_string(getpid()); unlink(lf.c_str()); unlink(cf.c_str()); cap->clear(); int n = 0; for (auto& x : launches) n += x.second;
  bool ok = child([&] {
    stdEnv(inc, threads); if (useDefault) unsetenv("OCLGRIND_MAX_ERRORS"); else env("OCLGRIND_MAX_ERRORS", std::to_string(L)); env("OCLGRIND_UNINITIALIZED", "1"); env("OCLGRIND_PLUGINS", shim); if (sink) env("OCLGRIND_LOG", lf); else unsetenv("OCLGRIND_LOG");
    CL c; const char* src = "kernel void k_write(global int *o, uint n, local int *l) { if (get_global_id(0) < n) o[1000 + get_global_id(0)] = 1; } kernel void k_uninit(global int *o, uint n, local int *l) { if (get_global_id(0) < n) o[get_global_id(0) & 7] = l[1]; }"; cl_program p = c.build(src); cl_mem b = c.buf(64);
    for (auto& x : launches) { cl_kernel k = c.kernel(p, string("k_") + LK[x.first]); c.arg(k, 0, b); cl_uint m = x.second; c.arg(k, 1, m); c.localArg(k, 2, 64); CK(c.launch1(k, 8 > x.second ? 8 : (x.second + 7) / 8 * 8, 1)); clReleaseKernel(k); }
    clReleaseMemObject(b); clReleaseProgram(p); FILE* f = fopen(cf.c_str(), "w"); fprintf(f, "%ld %ld", plog[0].load(), plog[1].load()); fclose(f); c.destroy(); });
  string err = cap->get(), lt = sink ? slurp(lf) : err, cnt = slurp(cf); unlink(lf.c_str()); unlink(cf.c_str()); R->count("traces_validated_against_impl"); R->count("transitions", n + 1);
  if (!ok) { R->fail("limit-crash", id + " did not finish normally"); return; }
  vector<string> other; vector<Block> bs = parse(lt, &other); size_t want = std::min(n, L), sup = n > L ? 1 : 0;
  if (sink && !err.empty()) R->fail("limit-sink", id + " text on stderr although a log file is configured: " + err.substr(0, 200));
  if (bs.size() != want) R->fail("limit-count", id + fmt(": %zu diagnostics printed, expected %zu", bs.size(), want));
  if (other.size() != sup) R->fail("limit-notice", id + fmt(": %zu suppression notices, expected %zu", other.size(), sup));
  if (sup && other.size() == 1) { if (other[0].find(std::to_string(L) + " errors") == string::npos) R->fail("limit-notice", id + ": notice \"" + other[0] + "\""); size_t p = lt.find(other[0]); if (parse(lt.substr(p + other[0].size())).size()) R->fail("limit-notice", id + ": diagnostics follow the suppression notice"); }
  if (cnt != fmt("%d %d", n, n)) R->fail("limit-plugins", id + ": plugins received " + cnt + " messages, expected " + std::to_string(n) + " each");
}
// several contexts share one log file
static void logFile(const string& inc, int variant)
{
  if (!R->begin(fmt("logfile/%d", variant))) return; string lf = tmpdir + "/lf." + std::to_string(getpid()); unlink(lf.c_str()); cap->clear(); int want = 0;
  const char* V[] = {"A", "A1", "A1 2", "A1a B1b", "A1a B1 1b", "AB1212ab", "AB12aB2b", "A1B2 1ab", "A1aB1bA1a", "ABa1b", "AB1a2b"};
  string v = V[variant]; for (char c : v) want += c == '1' || c == '2';
  bool ok = child([&] {
    stdEnv(inc, "1"); env("OCLGRIND_LOG", lf); CL* c[2] = {0, 0}; cl_program p[2]; cl_mem b[2];
    auto open = [&](int i) { if (c[i]) return; c[i] = new CL; p[i] = c[i]->build("kernel void k(global int *o, int v) { o[1000 + v] = 1; }"); b[i] = c[i]->buf(64); };
    int step = 0; for (char ch : v) { if (ch == 'A' || ch == 'B') open(ch - 'A'); else if (ch == '1' || ch == '2') { int i = ch - '1'; if (!c[i]) i = 0; if (!c[i]) i = 1; cl_kernel k = c[i]->kernel(p[i], "k"); c[i]->arg(k, 0, b[i]); c[i]->arg(k, 1, step++); CK(c[i]->launch1(k, 1, 1)); clReleaseKernel(k); } else if (ch == 'a' || ch == 'b') { int i = ch - 'a'; if (!c[i]) continue; clReleaseMemObject(b[i]); clReleaseProgram(p[i]); c[i]->destroy(); c[i] = 0; } } });
  string t = slurp(lf), e = cap->get(); unlink(lf.c_str()); R->count("traces_validated_against_impl"); R->count("transitions", want + 1); vector<string> other; auto bs = parse(t, &other);
  if (!ok) R->fail("logfile-crash", R->curCase + " history " + v); else if ((int)bs.size() != want || !other.empty()) R->fail("logfile", R->curCase + " history " + v + fmt(": the log holds %zu diagnostics, %d happened", bs.size(), want)); if (!e.empty()) R->fail("logfile-sink", R->curCase + " stderr: " + e.substr(0, 200));
  size_t bad = 0; for (auto& b : bs) bad += b.head.compare(0, 13, "Invalid write") || b.line != 1 || b.kernel != "k"; if (ok && bad) R->fail("logfile-garbled", R->curCase + " history " + v + ": " + t.substr(0, 400));
}
static void fatal(const string& inc, const string& opts)
{
  // an unsupported operation stops its launch with one attributed report; later launches are unaffected
  if (!R->begin("fatal/" + opts)) return; cap->clear(); bool ok = child([&] { stdEnv(inc, "1"); for (const char* e : {"OCLGRIND_UNINITIALIZED", "OCLGRIND_DATA_RACES", "OCLGRIND_INST_COUNTS"}) if (opts.find(e[9]) != string::npos) env(e, "1");
    CL c; cl_program p = c.build("\nkernel void bad(global int *o) {\n  local int t[4]; t[get_local_id(0)] = 1;\n  barrier(CLK_LOCAL_MEM_FENCE);\n  if (get_local_id(0) == 1)\n    __builtin_trap();\n}\nkernel void good(global int *o) { local int t[4]; int l = get_local_id(0); t[l] = l; barrier(CLK_LOCAL_MEM_FENCE); o[get_global_id(0)] = t[3 - l]; }\n");
    vector<int> z(8, 1); cl_mem b = c.buf(32, z.data()); cl_kernel k = c.kernel(p, "bad"), g = c.kernel(p, "good"); c.arg(k, 0, b); c.arg(g, 0, b); for (int i = 0; i < 2; i++) { c.launch1(k, 4, 4); c.launch1(g, 8, 4); c.read(b, z.data(), 32); for (int j = 0; j < 8; j++) if (z[j] != 3 - j % 4) { fprintf(stderr, "\nwrong result\n"); break; } } });
  string t = cap->get(); size_t ic = t.find("Instructions executed for kernel"); R->count("traces_validated_against_impl"); R->count("transitions", 2); if (ic != string::npos) { string u; std::istringstream is(t); string l; bool skip = false; while (std::getline(is, l)) { if (l.compare(0, 12, "Instructions") == 0) skip = true; else if (l.find("OCLGRIND FATAL") != string::npos) skip = false; if (!skip) u += l + "\n"; } t = u; }
  int n = countOf(t, "OCLGRIND FATAL ERROR"); if (!ok) R->fail("fatal-crash", R->curCase + ": " + t.substr(0, 300)); else if (n != 2 || countOf(t, "Kernel: bad") != 2 || countOf(t, "Entity: Global(1,0,0) Local(1,0,0) Group(0,0,0)") != 2 || countOf(t, "At line 6 ") != 2 || t.find("wrong result") != string::npos || countOf(t, "\tKernel:") != 2) R->fail("fatal", R->curCase + ": " + t.substr(0, 900));
}
static void body(int argc, char** argv)
{
  bool T = R->thorough; string inc = argv[1]; tmpdir = argv[2]; incdir = argv[2]; shim = argv[3]; Capture c(2); cap = &c;
  // error limits: every split of n errors over two launches around every limit
  for (int sink = 0; sink < 2; sink++) for (const char* th : {"1", "4"}) for (int L : {1, 2, 3, 5}) for (int n1 = 0; n1 <= (T ? 5 : 3); n1++) for (int n2 = 0; n2 <= (T ? 5 : 3); n2++) for (int w = 0; w < (T ? 4 : 2); w++) { if (!T && (sink + (th[0] == '4') + w + L) % 2 == 0 && n1 && n2) continue; limitCase(inc, L, {{w & 1, n1}, {w < 2 ? 1 - (w & 1) : w & 1, n2}}, sink, th); }
  limitCase(inc, 1000, {{0, 999}, {1, 1}}, 0, "1", true); limitCase(inc, 1000, {{0, 1000}, {1, 1}}, 0, "1", true); limitCase(inc, 1000, {{0, 1500}}, 1, "4", true);
  for (int v = 0; v < 11; v++) logFile(inc, v);
  for (const char* o : {"none", "U", "D", "I", "UDI"}) fatal(inc, o);
  for (int noopt = 0; noopt < 2; noopt++) for (int crlf = 0; crlf < 2; crlf++)
  {
    if (noopt && crlf) continue; stdEnv(inc, "1"); env("OCLGRIND_UNINITIALIZED", "1"); Env E(noopt, crlf); string tag = fmt("%s%s", noopt ? "O0" : "opt", crlf ? "-crlf" : ""); attribution(E, tag, true, true, crlf || (noopt && !T)); E.destroy();
  }
  // other checkers and worker counts: same diagnostics, same results; clean runs stay silent
  for (int m = 0; m < 8; m++) for (const char* th : {"1", "3"})
  {
    stdEnv(inc, th); unsetenv("OCLGRIND_UNINITIALIZED"); unsetenv("OCLGRIND_DATA_RACES"); if (m & 1) env("OCLGRIND_UNINITIALIZED", "1"); if (m & 2) env("OCLGRIND_DATA_RACES", "1"); if (m & 4) env("OCLGRIND_PLUGINS", shim); else unsetenv("OCLGRIND_PLUGINS");
    if (!T && m != 0 && m != 3 && m != 7) { if (th[0] == '3') continue; } Env E(false, false); string tag = fmt("p%d-t%s", m, th); clean(E, tag); if (m == 0 || m == 3 || m == 7 || T) attribution(E, tag, false, th[0] == '1', !T); E.destroy();
  }
}
VF_MAIN(body)
