// C23: kernel printf against C99 formatting for every conversion, flag set, width, precision, length and vector modifier.
#include "vf.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
#include <functional>
#include <iostream>
#include <algorithm>
#include <set>
using namespace vf;
static CL* cl; static Capture* out; static Capture* err;
static string esc(const string& s) { string r; for (unsigned char c : s) r += c == '\n' ? "\\n" : c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c < 32 || c > 126 ? fmt("\\%03o", c) : string(1, c); return r; }
static string grab() { std::cout.flush(); fflush(stdout); return out->get(); }
static void wipe() { std::cout.flush(); fflush(stdout); out->clear(); err->clear(); }
static void compare(const string& what, const string& want, const string& got, const vector<string>& fmts)
{
  R->count("traces_validated_against_impl"); string e = err->get(); if (!e.empty()) R->fail("report:" + R->curCase.substr(0, R->curCase.find('/')), R->curCase + " " + what + " reported " + e.substr(0, 300));
  if (want == got) return;
  size_t p = 0; while (p < want.size() && p < got.size() && want[p] == got[p]) p++; size_t b = p ? want.rfind('\n', p - 1) : string::npos; b = b == string::npos ? 0 : b + 1;
  string w = want.substr(b, want.find('\n', b) - b), g = b <= got.size() ? got.substr(b, got.find('\n', b) - b) : ""; size_t id = atoi(w.c_str());
  R->fail("text:" + R->curCase.substr(0, R->curCase.find_first_of(".#")), R->curCase + " " + what + (id < fmts.size() ? " format \"" + esc(fmts[id]) + "\"" : "") + ": printed \"" + esc(g) + "\", expected \"" + esc(w) + "\"");
}
struct ITy { const char* n; int bits; bool sg; };
static const ITy IT[] = {{"char", 8, true}, {"uchar", 8, false}, {"short", 16, true}, {"ushort", 16, false}, {"int", 32, true}, {"uint", 32, false}, {"long", 64, true}, {"ulong", 64, false}};
static vector<int64_t> ivals(const ITy& t, int n)
{
  int64_t hi = t.bits == 64 ? INT64_MIN : (int64_t)1 << (t.bits - 1); vector<int64_t> v = {0, 1, -1, hi, hi - 1, 300, 65, -5, 0x12345678, 7};
  for (auto& x : v) { if (t.bits == 64) continue; uint64_t m = ((uint64_t)1 << t.bits) - 1; x = (int64_t)((uint64_t)x & m); if (t.sg && (x >> (t.bits - 1))) x -= (int64_t)1 << t.bits; }
  vector<int64_t> r; for (auto x : v) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x); if ((int)r.size() > n) r.resize(n); return r;
}
// formats one element with the host's C99 implementation
static string fi(const string& f, const string& len, char c, int64_t v)
{
  bool sg = c == 'd' || c == 'i'; char b[400]; string s = f + len + c; int n;
  if (len == "l") { if (sg) n = snprintf(b, 400, s.c_str(), (long)v); else n = snprintf(b, 400, s.c_str(), (unsigned long)v); }
  else { if (sg) n = snprintf(b, 400, s.c_str(), (int)v); else n = snprintf(b, 400, s.c_str(), (unsigned)v); }
  return string(b, n);
}
static string ff(const string& f, char c, double v) { char b[800]; snprintf(b, 800, (f + c).c_str(), v); return b; }
static vector<string> flags(const string& set) { vector<string> r; for (unsigned m = 0; m < (1u << set.size()); m++) { string s; for (size_t i = 0; i < set.size(); i++) if (m >> i & 1) s += set[i]; r.push_back(s); } return r; }
static vector<string> wp(bool small) { vector<string> r; for (string w : small ? vector<string>{"", "9"} : vector<string>{"", "1", "12", "40"}) for (string p : small ? vector<string>{"", ".3"} : vector<string>{"", ".", ".0", ".1", ".3", ".10"}) r.push_back(w + p); return r; }
template <class T> static void packVals(vector<uint8_t>& d, const vector<T>& v, int w) { size_t S = w == 3 ? 4 : w; d.assign(v.size() * S * sizeof(T), 0); for (size_t i = 0; i < v.size(); i++) for (int l = 0; l < w; l++) memcpy(&d[(i * S + l) * sizeof(T)], &v[(i + l) % v.size()], sizeof(T)); }
static string vt(const string& t, int w) { return w == 1 ? t : t + std::to_string(w); }
static void runBatch(const string& type, const vector<uint8_t>& data, size_t n, const vector<string>& fm, const std::function<string(size_t, size_t)>& ref)
{
  string src = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\nkernel void k(global const " + type + " *a) { size_t i = get_global_id(0); " + type + " v = a[i];\n";
  for (size_t j = 0; j < fm.size(); j++) src += "printf(\"" + std::to_string(j) + ":" + esc(fm[j]) + "|\\n\", v);\n"; src += "}\n";
  cl_program p = cl->build(src); cl_kernel k = cl->kernel(p, "k"); vector<uint8_t> d = data; cl_mem m = cl->buf(d.size(), d.data()); cl->arg(k, 0, m); wipe(); CK(cl->launch1(k, n, 1)); string got = grab(), want;
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < fm.size(); j++) { want += std::to_string(j) + ":" + ref(i, j) + "|\n"; R->count("transitions"); }
  compare(type, want, got, fm); clReleaseMemObject(m); clReleaseKernel(k); clReleaseProgram(p);
}
struct F { string pre, len; char c; };
static void ints(const ITy& t, int w, bool thorough)
{
  // scalars: char/short are promoted, so hh and h apply to an int argument; vectors carry their element type's modifier
  vector<string> lens; if (w > 1) lens = {t.bits == 8 ? "hh" : t.bits == 16 ? "h" : t.bits == 32 ? "hl" : "l"}; else if (t.bits == 64) lens = {"l"}; else lens = {"", "hh", "h"};
  vector<F> fs;
  for (string len : lens) for (char c : string(t.sg ? "di" : "ouxX"))
    for (string fl : flags(c == 'd' || c == 'i' ? "-+ 0" : c == 'u' ? "-0" : "-#0")) for (string x : wp(w > 1 && !thorough)) fs.push_back({"%" + fl + x, len, c});
  if (w == 1 && t.bits < 64) for (string fl : flags("-")) for (string x : {"", "1", "5"}) fs.push_back({"%" + fl + x, "", 'c'});
  vector<int64_t> vals = ivals(t, w > 1 ? 6 : 8); vector<uint8_t> d;
  switch (t.bits) { case 8: packVals(d, vector<int8_t>(vals.begin(), vals.end()), w); break; case 16: packVals(d, vector<int16_t>(vals.begin(), vals.end()), w); break; case 32: packVals(d, vector<int32_t>(vals.begin(), vals.end()), w); break; default: packVals(d, vals, w); }
  const size_t B = 240; string base = fmt("int.%s", vt(t.n, w).c_str());
  for (size_t b = 0; b < fs.size(); b += B)
  {
    if (!R->begin(base + "/" + std::to_string(b))) continue; vector<F> part(fs.begin() + b, fs.begin() + std::min(fs.size(), b + B)); vector<string> fm; for (auto& f : part) fm.push_back(f.pre + (w > 1 ? "v" + std::to_string(w) : "") + f.len + f.c);
    runBatch(vt(t.n, w), d, vals.size(), fm, [&](size_t i, size_t j) { string r; auto& f = part[j]; for (int l = 0; l < w; l++) { if (l) r += ","; r += fi(f.pre, f.len == "hl" ? "" : f.len, f.c, vals[(i + l) % vals.size()]); } return r; });
  }
}
static void floats(bool dbl, int w, bool thorough)
{
  vector<double> vals = {0.0, -0.0, 1.0, -1.5, 123456.789, 1e-7, 6.02e23, INFINITY, -INFINITY, NAN, 0.1, 99999.5, dbl ? DBL_MAX : FLT_MAX, dbl ? 4.9e-324 : 1.4e-45, 3.0, 1000000.0};
  if (!dbl) for (auto& v : vals) v = (float)v; if (w > 1) vals.resize(11);
  vector<F> fs; for (char c : string("fFeEgGaA")) for (string fl : flags("-+ #0")) for (string x : wp(w > 1 && !thorough)) fs.push_back({"%" + fl + x, w > 1 ? (dbl ? "l" : "hl") : "", c});
  if (w == 1) for (char c : string("fega")) fs.push_back({"%", "l", c});
  vector<uint8_t> d; if (dbl) packVals(d, vals, w); else packVals(d, vector<float>(vals.begin(), vals.end()), w);
  const size_t B = 240; string type = vt(dbl ? "double" : "float", w), base = "float." + type;
  for (size_t b = 0; b < fs.size(); b += B)
  {
    if (!R->begin(base + "/" + std::to_string(b))) continue; vector<F> part(fs.begin() + b, fs.begin() + std::min(fs.size(), b + B)); vector<string> fm; for (auto& f : part) fm.push_back(f.pre + (w > 1 ? "v" + std::to_string(w) : "") + f.len + f.c);
    runBatch(type, d, vals.size(), fm, [&](size_t i, size_t j) { string r; auto& f = part[j]; for (int l = 0; l < w; l++) { if (l) r += ","; r += ff(f.pre, f.c, vals[(i + l) % vals.size()]); } return r; });
  }
}
// sequences of conversions: each consumes exactly its argument, text between them is copied
struct Piece { string f, arg; std::function<string(int)> ref; };
static void sequences(int len)
{
  vector<Piece> P = {
    {"%d", "i - 3", [](int i) { return fmt("%d", i - 3); }}, {"%5.1f", "(float)i * 1.5f", [](int i) { return fmt("%5.1f", i * 1.5); }}, {"%v2hld", "(int2)(i, -i)", [](int i) { return fmt("%d,%d", i, -i); }}, {"%s", "\"str\"", [](int) { return string("str"); }},
    {"%c", "'a' + i", [](int i) { return string(1, 'a' + i); }}, {"%%", "", [](int) { return string("%"); }}, {"%lx", "(ulong)i << 40", [](int i) { return fmt("%lx", (unsigned long)i << 40); }}, {"%v3hlg", "(float3)(i, 0.5f, -1.0f)", [](int i) { return fmt("%g,0.5,-1", (double)i); }},
    {" h", "", [](int) { return string(" h"); }}, {"%-4s", "\"x\"", [](int) { return string("x   "); }}, {"%v16hhu", "(uchar16)(i)", [](int i) { string s = fmt("%d", i); string r = s; for (int k = 1; k < 16; k++) r += "," + s; return r; }}, {"%p", "(global void*)0", [](int) { char b[40]; snprintf(b, 40, "%p", (void*)0); return string(b); }},
    {"%.2s", "\"abcd\"", [](int) { return string("ab"); }}, {"%hd", "i + 65536", [](int i) { return fmt("%d", i); }}, {"v2l", "", [](int) { return string("v2l"); }}};
  size_t n = P.size(), tot = 1; for (int i = 0; i < len; i++) tot *= n;
  for (size_t b = 0, B = 225; b < tot; b += B)
  {
    if (!R->begin(fmt("seq%d/%zu", len, b))) continue; string src = "kernel void k() { int i = get_global_id(0);\n"; vector<string> fm; vector<vector<int>> seqs;
    for (size_t x = b; x < std::min(tot, b + B); x++)
    {
      vector<int> s; size_t y = x; for (int k = 0; k < len; k++) { s.push_back(y % n); y /= n; } string f, args; for (int k : s) { f += P[k].f; if (P[k].arg.size()) args += ", " + P[k].arg; }
      src += "printf(\"" + std::to_string(seqs.size()) + ":" + f + "\\n\"" + args + ");\n"; fm.push_back(f); seqs.push_back(s);
    }
    cl_program p = cl->build(src + "}\n"); cl_kernel k = cl->kernel(p, "k"); wipe(); CK(cl->launch1(k, 3, 1)); string got = grab(), want;
    for (int i = 0; i < 3; i++) for (size_t j = 0; j < seqs.size(); j++) { want += std::to_string(j) + ":"; for (int q : seqs[j]) want += P[q].ref(i); want += "\n"; R->count("transitions"); }
    compare("sequence", want, got, fm); clReleaseKernel(k); clReleaseProgram(p);
  }
}
static void literals()
{
  // every byte value in the format and in string arguments; empty strings; long strings; return value
  if (R->begin("literal/bytes"))
  {
    string all; for (int c = 1; c < 256; c++) if (c != '%' && c != '?') all += (char)c; string src = "kernel void k(global int *r) { r[0] = printf(\"" + esc(all) + "\"); r[1] = printf(\"%s\", \"" + esc(all) + "%d\"); r[2] = printf(\"\"); r[3] = printf(\"%s%s\", \"\", \"\"); r[4] = printf(\"100%%\\n\"); }\n";
    cl_program p = cl->build(src); cl_kernel k = cl->kernel(p, "k"); int r[5] = {9, 9, 9, 9, 9}; cl_mem m = cl->buf(sizeof r, r); cl->arg(k, 0, m); wipe(); CK(cl->launch1(k, 1, 1)); string got = grab(); compare("all bytes", all + all + "%d" + "100%\n", got, {}); cl->read(m, r, sizeof r);
    for (int i = 0; i < 5; i++) { R->count("transitions"); if (r[i] != 0) R->fail("return", R->curCase + " printf returned " + std::to_string(r[i]) + ", expected 0"); } clReleaseMemObject(m); clReleaseKernel(k); clReleaseProgram(p);
  }
  if (R->begin("literal/long"))
  {
    string L; for (int i = 0; i < 700; i++) L += "0123456789"[i % 10]; string src = "kernel void k() { printf(\"" + L + "%d" + L + "\", 5); printf(\"%s\\n\", \"" + L + "\"); printf(\"%.650s|%705s\\n\", \"" + L + "\", \"" + L + "\"); }\n"; cl_program p = cl->build(src); cl_kernel k = cl->kernel(p, "k"); wipe(); CK(cl->launch1(k, 1, 1));
    compare("long strings", L + "5" + L + L + "\n" + L.substr(0, 650) + "|     " + L + "\n", grab(), {}); clReleaseKernel(k); clReleaseProgram(p);
  }
  if (R->begin("literal/strings"))
  {
    string src = "constant char g[] = \"glob\"; kernel void k() { constant char *t[] = {\"\", \"a\", \"bc\", g}; int i = get_global_id(0); "; vector<string> fm; for (string f : flags("-")) for (string w : {"", "1", "6"}) for (string pr : {"", ".", ".0", ".1", ".3", ".9"}) { src += "printf(\"" + std::to_string(fm.size()) + ":%" + f + w + pr + "s|\\n\", i == 0 ? \"\" : i == 1 ? \"a\" : i == 2 ? \"bc\" : g);\n"; fm.push_back("%" + f + w + pr + "s"); }
    cl_program p = cl->tryBuild(src + "}\n", ""); if (!p) { size_t q = src.find("constant char *t"); src.erase(q, src.find(';', q) + 1 - q); p = cl->build(src + "}\n"); }
    cl_kernel k = cl->kernel(p, "k"); wipe(); CK(cl->launch1(k, 4, 1)); string got = grab(), want; const char* v[] = {"", "a", "bc", "glob"};
    for (int i = 0; i < 4; i++) for (size_t j = 0; j < fm.size(); j++) { want += std::to_string(j) + ":" + fmt((fm[j] + "|\n").c_str(), v[i]); R->count("transitions"); } compare("strings", want, got, fm); clReleaseKernel(k); clReleaseProgram(p);
  }
}
// order: each work-item's text appears in program order, whole lines are never torn, whatever the group shape and number of workers
static void order(int threads)
{
  struct G { size_t g, l; }; static const G gs[] = {{1, 1}, {6, 1}, {6, 2}, {6, 3}, {6, 6}, {64, 8}};
  for (auto& g : gs) for (int body = 0; body < 4; body++)
  {
    if (!R->begin(fmt("order.%d/%zu/%zu/%d", threads, g.g, g.l, body))) continue;
    const char* B[] = {"for (int j = 0; j < 5; j++) printf(\"<%d %d %s>\\n\", i, j, j & 1 ? \"odd\" : \"even\");", "for (int j = 0; j < 5; j++) { printf(\"<%d %d %s>\\n\", i, j, j & 1 ? \"odd\" : \"even\"); barrier(CLK_LOCAL_MEM_FENCE); }", "for (int j = 0; j < 5; j++) say(i, j);", "if (i & 1) { for (int j = 0; j < 5; j++) printf(\"<%d %d %s>\\n\", i, j, j & 1 ? \"odd\" : \"even\"); } barrier(CLK_LOCAL_MEM_FENCE); if (!(i & 1)) for (int j = 0; j < 5; j++) say(i, j);"};
    cl_program p = cl->build(string("__attribute__((noinline)) void say(int i, int j) { printf(\"<%d %d %s>\\n\", i, j, j & 1 ? \"odd\" : \"even\"); }\nkernel void k() { int i = get_global_id(0); ") + B[body] + " }"); cl_kernel k = cl->kernel(p, "k"); wipe(); CK(cl->launch1(k, g.g, g.l)); string got = grab(); R->count("traces_validated_against_impl");
    vector<int> next(g.g, 0); vector<int> bar(g.g, 0); size_t pos = 0, lines = 0; string bad;
    while (pos < got.size() && bad.empty()) { size_t e = got.find('\n', pos); string ln = got.substr(pos, e == string::npos ? string::npos : e - pos); pos = e == string::npos ? got.size() : e + 1; lines++; R->count("transitions"); int i, j; char w[8], z; if (sscanf(ln.c_str(), "<%d %d %7[a-z]%c", &i, &j, w, &z) != 4 || z != '>' || i < 0 || i >= (int)g.g || ln != fmt("<%d %d %s>", i, j, j & 1 ? "odd" : "even")) bad = "torn line \"" + esc(ln) + "\""; else if (next[i]++ != j) bad = "work-item " + std::to_string(i) + " out of order at \"" + ln + "\"";
      if (bad.empty() && body == 1) { size_t gr = i / g.l; for (size_t o = gr * g.l; o < gr * g.l + g.l; o++) if (next[o] < j) bad = "line \"" + ln + "\" printed before another work-item of the group reached the barrier"; }
      if (bad.empty() && body == 3 && !(i & 1)) { size_t gr = i / g.l; for (size_t o = gr * g.l; o < gr * g.l + g.l; o++) if ((o & 1) && next[o] < 5) bad = "line \"" + ln + "\" printed before the barrier completed"; } }
    if (bad.empty() && lines != 5 * g.g) bad = std::to_string(lines) + " lines, expected " + std::to_string(5 * g.g); if (!bad.empty()) R->fail("order", R->curCase + " " + bad); if (!err->get().empty()) R->fail("report:order", R->curCase + " reported " + err->get().substr(0, 200)); clReleaseKernel(k); clReleaseProgram(p);
  }
}
static void body(int argc, char** argv)
{
  bool T = R->thorough; Capture e(2); err = &e; Capture o(1); out = &o;
  stdEnv(argv[1], "1"); { CL C; cl = &C; for (auto& t : IT) for (int w : {1, 2, 3, 4, 8, 16}) ints(t, w, T); for (int d = 0; d < 2; d++) for (int w : {1, 2, 3, 4, 8, 16}) floats(d, w, T); for (int l = 1; l <= (T ? 4 : 3); l++) sequences(l); literals(); order(1); C.destroy(); }
  for (int th : {2, 4}) { stdEnv(argv[1], std::to_string(th)); CL C; cl = &C; order(th); C.destroy(); }
}
VF_MAIN(body)
