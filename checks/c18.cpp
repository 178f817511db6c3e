// C18: building, linking, reloading. Every bounded build history, option string, partition of a program into parts,
// program-scope initialiser shape, header set and source split is executed and compared with what the source says.
#include "vf.hpp"
#include <algorithm>
#include <cmath>
using namespace vf;
static CL* cl; static Capture* err_; static string T;
struct Status { cl_build_status st; cl_program_binary_type bt; string log, opts; };
static string infoStr(cl_program p, cl_program_build_info w)
{
  size_t n = 0; CK(clGetProgramBuildInfo(p, cl->dev, w, 0, 0, &n)); string s(n, 0); if (n) CK(clGetProgramBuildInfo(p, cl->dev, w, n, &s[0], 0)); if (n) s.resize(n - 1); return s;
}
static Status status(cl_program p)
{
  Status s; CK(clGetProgramBuildInfo(p, cl->dev, CL_PROGRAM_BUILD_STATUS, sizeof s.st, &s.st, 0)); CK(clGetProgramBuildInfo(p, cl->dev, CL_PROGRAM_BINARY_TYPE, sizeof s.bt, &s.bt, 0));
  s.log = infoStr(p, CL_PROGRAM_BUILD_LOG); s.opts = infoStr(p, CL_PROGRAM_BUILD_OPTIONS); return s;
}
static cl_program source(const string& src) { const char* s = src.c_str(); cl_int e; cl_program p = clCreateProgramWithSource(cl->ctx, 1, &s, 0, &e); CK(e); return p; }
static vector<unsigned char> binary(cl_program p)
{
  size_t n = 0; CK(clGetProgramInfo(p, CL_PROGRAM_BINARY_SIZES, sizeof n, &n, 0)); vector<unsigned char> b(n + 16, 0xAB); unsigned char* bp = b.data();
  CK(clGetProgramInfo(p, CL_PROGRAM_BINARIES, sizeof bp, &bp, 0));
  for (int i = 0; i < 16; i++) if (b[n + i] != 0xAB) R->fail("binary-size", "clGetProgramInfo(CL_PROGRAM_BINARIES) wrote past the size it reported");
  b.resize(n); return b;
}
static cl_program reload(cl_program p, cl_int* e = 0)
{
  vector<unsigned char> b = binary(p); size_t n = b.size(); const unsigned char* bp = b.data(); cl_int er = 7, bs = 7;
  cl_program r = n ? clCreateProgramWithBinary(cl->ctx, 1, &cl->dev, &n, &bp, &bs, &er) : 0; std::fill(b.begin(), b.end(), 0x5A);
  if (e) *e = er; if (r && bs != CL_SUCCESS) R->fail("binary-status", fmt("binary_status is %d for a valid binary", bs)); return r;
}
static string names(cl_program p)
{
  size_t n = 0; cl_int e = clGetProgramInfo(p, CL_PROGRAM_KERNEL_NAMES, 0, 0, &n); if (e) return fmt("<error %d>", e);
  string s(n, 0); CK(clGetProgramInfo(p, CL_PROGRAM_KERNEL_NAMES, n, &s[0], 0)); s.resize(n - 1);
  size_t num = 0; CK(clGetProgramInfo(p, CL_PROGRAM_NUM_KERNELS, sizeof num, &num, 0));
  vector<string> v; std::stringstream ss(s); string t; while (std::getline(ss, t, ';')) v.push_back(t);
  if (num != v.size()) R->fail("num-kernels", fmt("CL_PROGRAM_NUM_KERNELS is %zu, but the names are '%s'", num, s.c_str()));
  std::sort(v.begin(), v.end()); s = ""; for (auto& x : v) s += (s.empty() ? "" : ";") + x; return s;
}
static string kinfo(cl_kernel k)
{ // everything the program says about the kernel's signature
  string s; cl_uint n = 0; CK(clGetKernelInfo(k, CL_KERNEL_NUM_ARGS, sizeof n, &n, 0)); char b[256] = ""; CK(clGetKernelInfo(k, CL_KERNEL_FUNCTION_NAME, sizeof b, b, 0)); s = b;
  for (cl_uint i = 0; i < n; i++)
  {
    cl_kernel_arg_address_qualifier a = 0; cl_kernel_arg_access_qualifier c = 0; cl_kernel_arg_type_qualifier q = 0; char ty[256] = "", nm[256] = "";
    cl_int e = clGetKernelArgInfo(k, i, CL_KERNEL_ARG_ADDRESS_QUALIFIER, sizeof a, &a, 0); e |= clGetKernelArgInfo(k, i, CL_KERNEL_ARG_ACCESS_QUALIFIER, sizeof c, &c, 0);
    e |= clGetKernelArgInfo(k, i, CL_KERNEL_ARG_TYPE_QUALIFIER, sizeof q, &q, 0); e |= clGetKernelArgInfo(k, i, CL_KERNEL_ARG_TYPE_NAME, sizeof ty, ty, 0); e |= clGetKernelArgInfo(k, i, CL_KERNEL_ARG_NAME, sizeof nm, nm, 0);
    s += fmt("|%d,%x,%x,%x,%s,%s", e, a, c, (unsigned)q, ty, nm);
  }
  size_t w[3] = {9, 9, 9}; CK(clGetKernelWorkGroupInfo(k, cl->dev, CL_KERNEL_COMPILE_WORK_GROUP_SIZE, sizeof w, w, 0)); cl_ulong lm = 99; CK(clGetKernelWorkGroupInfo(k, cl->dev, CL_KERNEL_LOCAL_MEM_SIZE, sizeof lm, &lm, 0));
  return s + fmt("|%zu,%zu,%zu|%lu", w[0], w[1], w[2], (unsigned long)lm);
}
static cl_mem obuf; enum { OB = 1 << 16 };
static vector<uint8_t> runk(cl_kernel k, size_t g, size_t bytes, bool second = false)
{
  vector<uint8_t> z(bytes, 0xEE); cl->write(obuf, z.data(), bytes); cl->arg(k, 0, obuf); cl_int e = cl->launch1(k, g, g); if (e) R->fail("launch", fmt("launching a kernel failed with %d", e)); cl->read(obuf, z.data(), bytes); R->count("transitions"); return z;
}
static bool quiet(const char* key)
{
  string s, l; std::stringstream ss(err_->get()); // the compiler's own summary lines are not reports
  while (std::getline(ss, l)) if (l.find(" generated.") == string::npos) s += l + "\n";
  if (!s.empty()) { R->fail(key, "unexpected report: " + s.substr(0, 700)); return false; } return true; }

// ---- option strings
struct Eff { char k; string n, v; };
struct Piece { string text; vector<Eff> eff; };
static vector<Piece> P;
static const char* optSrc =
  "#define S_(x) #x\n#define S(x) S_(x)\n"
  "#ifdef A\n__constant char sA[] = S(A);\n#else\n__constant char sA[] = \"<undef>\";\n#endif\n"
  "#ifdef B\n__constant char sB[] = S(B);\n#else\n__constant char sB[] = \"<undef>\";\n#endif\n"
  "#ifdef G\n__constant char sG[] = S(G);\n#else\n__constant char sG[] = \"<undef>\";\n#endif\n"
  "#if __has_include(\"h0.h\")\n#include \"h0.h\"\n#else\n#define H0 0\n#endif\n"
  "#if __has_include(\"h1.h\")\n#include \"h1.h\"\n#else\n#define H1 0\n#endif\n"
  "#if __has_include(\"h2.h\")\n#include \"h2.h\"\n#else\n#define H2 0\n#endif\n"
  "__kernel void k(__global char *o) { o[0] = '0' + H0; o[1] = '0' + H1; o[2] = '0' + H2; o[3] = '0' + __OPENCL_C_VERSION__ / 100; o[4] = '|'; int n = 5;\n"
  "for (int i = 0; i < sizeof sA - 1; i++) o[n++] = sA[i]; o[n++] = '|'; for (int i = 0; i < sizeof sB - 1; i++) o[n++] = sB[i]; o[n++] = '|'; for (int i = 0; i < sizeof sG - 1; i++) o[n++] = sG[i]; o[n++] = 0; }\n";
static string expectOpts(const vector<int>& seq)
{
  std::map<string, string> m; char h[4] = "000", std_ = '1';
  for (int i : seq) for (auto& e : P[i].eff) { if (e.k == 'D') m[e.n] = e.v; if (e.k == 'U') m.erase(e.n); if (e.k == 'I') h[e.n[0] - '0'] = '1'; if (e.k == 'S') std_ = e.n[0]; }
  auto g = [&](const char* n) { return m.count(n) ? m[n] : string("<undef>"); };
  return string(h) + std_ + "|" + g("A") + "|" + g("B") + "|" + g("G");
}
static void checkOpts(const string& id, const char* opts, const char* envo, const vector<int>& seq, bool viaCompile)
{
  if (envo) env("OCLGRIND_BUILD_OPTIONS", envo); else unsetenv("OCLGRIND_BUILD_OPTIONS");
  err_->clear(); cl_program p = source(optSrc), lp = 0; cl_int e = viaCompile ? clCompileProgram(p, 1, &cl->dev, opts, 0, 0, 0, 0, 0) : clBuildProgram(p, 0, 0, opts, 0, 0);
  unsetenv("OCLGRIND_BUILD_OPTIONS"); R->count("transitions");
  Status s = status(p);
  if (e) R->fail("options-rejected", fmt("options '%s' (environment '%s'): build failed with %d: %s", opts ? opts : "NULL", envo ? envo : "", e, s.log.substr(0, 400).c_str()));
  else
  {
    if (s.opts != (opts ? opts : "")) R->fail("options-info", fmt("CL_PROGRAM_BUILD_OPTIONS is '%s', not '%s'", s.opts.c_str(), opts ? opts : ""));
    if (viaCompile) { lp = clLinkProgram(cl->ctx, 1, &cl->dev, "", 1, &p, 0, 0, &e); CK(e); }
    cl_kernel k = cl->kernel(lp ? lp : p, "k"); vector<uint8_t> z = runk(k, 1, 256); z.back() = 0; string got = (char*)z.data(), want = expectOpts(seq);
    if (got != want) R->fail("options-meaning", fmt("options '%s' (environment '%s'): the kernel sees %s, expected %s", opts ? opts : "NULL", envo ? envo : "", got.substr(0, 200).c_str(), want.c_str()));
    quiet("options-report"); clReleaseKernel(k); if (lp) clReleaseProgram(lp);
  }
  clReleaseProgram(p);
}
static void optsMode()
{
  auto def = [](string n, string v) { return Eff{'D', n, v}; };
  P = {{"-DA=1", {def("A", "1")}}, {"-D A=2", {def("A", "2")}}, {"-DA=\"x y\"", {def("A", "x y")}}, {"-DA=x\\ z", {def("A", "x z")}}, {"\"-DB=p q\"", {def("B", "p q")}},
       {"-D \"B=1 2 3\"", {def("B", "1 2 3")}}, {"-D B=u\\ v", {def("B", "u v")}}, {"-UA", {{'U', "A", ""}}}, {"-DG", {def("G", "1")}}, {"-I\"" + T + "/a b\"", {{'I', "0", ""}}},
       {"-I " + T + "/a\\ b", {{'I', "0", ""}}}, {"-I \"" + T + "/c  d\"", {{'I', "1", ""}}}, {"-I" + T + "/e\\f", {{'I', "2", ""}}}, {"-w", {}}, {"-cl-opt-disable", {}}, {"-cl-std=CL2.0", {{'S', "2", ""}}}, {"-cl-std=CL1.2", {{'S', "1", ""}}},
       {"-cl-mad-enable", {}}, {"-DB=a\" b\"c\" d\"", {def("B", "a bc d")}}, {"-cl-denorms-are-zero", {}}, {"-cl-fast-relaxed-math", {}}, {"-cl-no-signed-zeros -DG=5", {def("G", "5")}}, {"-DB=", {def("B", "")}}, {"-D \"G=\"", {def("G", "")}}};
  int n = P.size();
  // all sequences of up to three options, and of up to two with every choice of spacing
  const char* sep[3] = {" ", "  ", "   "};
  if (R->begin("opt/empty")) { for (const char* o : {(const char*)0, "", " ", "   "}) for (const char* en : {(const char*)0, "", " ", "  "}) checkOpts("", o, en, {}, false); }
  for (int i = 0; i < n; i++) for (int pre = 0; pre < 3; pre++) for (int post = 0; post < 3; post++)
  {
    if (!R->begin(fmt("opt/1/%d/%d/%d", i, pre, post))) continue;
    string o = string(pre, ' ') + P[i].text + string(post, ' '); checkOpts("", o.c_str(), 0, {i}, false); checkOpts("", o.c_str(), 0, {i}, true); checkOpts("", "", o.c_str(), {i}, false); checkOpts("", 0, o.c_str(), {i}, true); R->count("traces_validated_against_impl");
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
  {
    if (!R->begin(fmt("opt/2/%d/%d", i, j))) continue;
    for (int s = 0; s < 2; s++) checkOpts("", (P[i].text + sep[s] + P[j].text).c_str(), 0, {i, j}, s);
    checkOpts("", P[i].text.c_str(), P[j].text.c_str(), {i, j}, false); R->count("traces_validated_against_impl");
    if (R->thorough) { checkOpts("", 0, (P[i].text + " " + P[j].text).c_str(), {i, j}, true); checkOpts("", (P[i].text + " ").c_str(), (" " + P[j].text + " ").c_str(), {i, j}, true); }
  }
  int step = R->thorough ? 1 : 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++)
  {
    // quick: only triples whose middle option is one of the quoted or escaped ones
    if (!step && !(j >= 2 && j <= 6 && (i < 8 || i == 18) && (k < 9 || k == 15 || k == 18))) continue;
    if (!R->begin(fmt("opt/3/%d/%d/%d", i, j, k))) continue;
    checkOpts("", (P[i].text + " " + P[j].text + " " + P[k].text).c_str(), 0, {i, j, k}, false); R->count("traces_validated_against_impl");
  }
  // every standard option is accepted, alone and in pairs, and leaves an exact integer kernel alone
  vector<string> so = {"-w", "-cl-single-precision-constant", "-cl-denorms-are-zero", "-cl-fp32-correctly-rounded-divide-sqrt", "-cl-opt-disable", "-cl-strict-aliasing", "-cl-mad-enable", "-cl-no-signed-zeros", "-cl-unsafe-math-optimizations", "-cl-finite-math-only", "-cl-fast-relaxed-math", "-cl-uniform-work-group-size", "-cl-no-subgroup-ifp", "-Werror", "-cl-std=CL1.0", "-cl-std=CL1.1", "-cl-std=CL1.2", "-cl-std=CL2.0", "-cl-std=CL3.0", "-cl-kernel-arg-info", "-O0", "-O1", "-O2", "-O3"};
  string src = "__constant int t[3] = {5, 6, 7};\nint f(int a) { return a * 3 + t[a % 3]; }\n__kernel void k(__global int *o) { int i = get_global_id(0); __private int x[4]; for (int j = 0; j < 4; j++) x[j] = f(i + j); o[i] = x[i & 3] + (int)(x[0] * 1.5f); }\n";
  for (int i = 0; i < (int)so.size(); i++) for (int j = -1; j < (int)so.size(); j++)
  {
    string o = so[i] + (j < 0 ? "" : " " + so[j]); if (!R->begin("std/" + o)) continue;
    err_->clear(); string log; cl_int e; cl_program p = cl->tryBuild(src, o, &log, &e); R->count("transitions");
    if (e) R->fail("standard-option-rejected", fmt("'%s' is rejected: %s", o.c_str(), log.substr(0, 300).c_str()));
    else
    {
      cl_kernel k = cl->kernel(p, "k"); vector<uint8_t> z = runk(k, 8, 32); auto f = [](int a) { return a * 3 + 5 + a % 3; };
      for (int x = 0; x < 8; x++) { int w = f(x + (x & 3)) + (int)(f(x) * 1.5f), g = ((int*)z.data())[x]; if (g != w) { R->fail("standard-option-result", fmt("with '%s' the kernel computes %d, not %d", o.c_str(), g, w)); break; } }
      quiet("standard-option-report"); clReleaseKernel(k);
    }
    clReleaseProgram(p);
  }
}

// ---- build histories
static const char* histSrc =
  "#ifndef V\n#define V 8\n#endif\n"
  "#ifdef BAD\n__kernel void k(__global int *o) { o[0] = undeclared_thing; }\n#endif\n#define C_(a, b) a##b\n#define C(a, b) C_(a, b)\n"
  "__constant int tab[4] = {V + 1, V * 2, V * 3 + 1, 7 - V};\n__constant int *__constant ptr = &tab[1];\nint f(int i) { return tab[i & 3] * 10 + ptr[i & 1] + V; }\n"
  "#ifndef BAD\n__kernel void k(__global int *o) { int i = get_global_id(0); o[i] = f(i) + V * 1000; }\n#endif\n__kernel void C(k, V)(__global int *o, __global const int *p) { o[get_global_id(0)] = V; }\n";
static int histWant(int v, int i) { int t[4] = {v + 1, v * 2, v * 3 + 1, 7 - v}; return t[i & 3] * 10 + t[1 + (i & 1)] + v + v * 1000; }
struct Prog { cl_program p; int st; int v; int bt; bool src; string opts; }; // model: st 0 none, 1 success, 2 error
struct LiveK { cl_kernel k; int v; bool named; string info; };
static bool checkKernel(const LiveK& l, const string& ctx)
{
  cl_int e = 0; if (l.named) e = clSetKernelArg(l.k, 1, sizeof(cl_mem), &obuf); if (e) { R->fail("hist-arg", ctx + fmt(": clSetKernelArg gives %d", e)); return false; }
  vector<uint8_t> z = runk(l.k, 4, 16);
  for (int i = 0; i < 4; i++) { int w = l.named ? l.v : histWant(l.v, i), g = ((int*)z.data())[i]; if (g != w) { R->fail("hist-result", ctx + fmt(": kernel of V=%d computes %d for item %d, expected %d", l.v, g, i, w)); return false; } }
  string inf = kinfo(l.k); if (inf != l.info) { R->fail("hist-kernel-info", ctx + ": kernel information changed from " + l.info + " to " + inf); return false; }
  return true;
}
static string expInfo(int v, bool named)
{
  static std::map<std::pair<int, bool>, string> m; auto& s = m[{v, named}];
  if (s.empty()) { cl_program p = cl->build(histSrc, fmt("-DV=%d", v)); cl_kernel k = cl->kernel(p, named ? fmt("k%d", v) : "k"); s = kinfo(k); clReleaseKernel(k); clReleaseProgram(p); } return s;
}
static bool checkProg(const Prog& p, const string& ctx)
{
  Status s = status(p.p); int st = s.st == CL_BUILD_SUCCESS ? 1 : s.st == CL_BUILD_NONE ? 0 : s.st == CL_BUILD_ERROR ? 2 : 9;
  if (st != p.st) { R->fail("hist-status", ctx + fmt(": build status is %d, expected state %d", s.st, p.st)); return false; }
  if (p.bt >= 0 && (int)s.bt != p.bt) { R->fail("hist-binary-type", ctx + fmt(": binary type is %u, expected %d", s.bt, p.bt)); return false; }
  if (p.src && s.opts != p.opts) { R->fail("hist-options", ctx + ": build options are '" + s.opts + "', expected '" + p.opts + "'"); return false; }
  if (p.st == 2 && s.log.find("undeclared_thing") == string::npos) { R->fail("hist-log", ctx + ": build log of a failed build does not show the error: " + s.log); return false; }
  if (p.st != 2 && !s.log.empty()) { R->fail("hist-log-clean", ctx + ": build log is not empty: " + s.log); return false; }
  string nm = names(p.p), want = p.st == 1 ? fmt("k;k%d", p.v) : "";
  if (p.st == 1 ? nm != want : nm[0] != '<') { R->fail("hist-names", ctx + ": kernel names are '" + nm + "', expected '" + want + "'"); return false; }
  if (p.st == 1)
    for (int n = 0; n < 2; n++)
    {
      LiveK l{cl->kernel(p.p, n ? fmt("k%d", p.v) : "k"), p.v, n == 1, expInfo(p.v, n)}; bool ok = checkKernel(l, ctx); clReleaseKernel(l.k); if (!ok) return false;
    }
  else
  {
    cl_int e; cl_kernel k = clCreateKernel(p.p, "k", &e); if (k) { R->fail("hist-kernel-of-unbuilt", ctx + ": kernel created although the program is not built"); clReleaseKernel(k); return false; }
    size_t n = 77; CK(clGetProgramInfo(p.p, CL_PROGRAM_BINARY_SIZES, sizeof n, &n, 0)); if (n) { R->fail("hist-binary-of-unbuilt", ctx + fmt(": a binary of %zu bytes exists although the program is not built", n)); return false; }
  }
  return true;
}
static const char ACT[] = "12X3KNRSTLMZ0";
static void CL_CALLBACK notify(cl_program, void* u) { ++*(int*)u; }
static void runHist(const string& h)
{
  err_->clear(); Prog p{source(histSrc), 0, 0, CL_PROGRAM_BINARY_TYPE_NONE, true, ""}; vector<LiveK> ks; string ctx; int mark = 0;
  for (char a : h)
  {
    ctx += a; R->count("transitions"); cl_int e = 0; string C = "history " + ctx;
    switch (a)
    {
    case '1': case '2': case 'X': case '3': case 'Z': case '0':
    {
      string o = a == 'X' ? "-DV=9 -DBAD" : a == 'Z' ? "-D V=6 -cl-opt-disable" : a == '0' ? "" : fmt("-DV=%c", a); int calls = 0;
      if (a == '3') e = clCompileProgram(p.p, 1, &cl->dev, o.c_str(), 0, 0, 0, 0, 0); else e = clBuildProgram(p.p, 1, &cl->dev, a == '0' ? 0 : o.c_str(), notify, &calls);
      if (e == CL_INVALID_OPERATION && (!ks.empty() || !p.src)) break; // allowed; nothing may have changed
      if (a != '3' && calls != 1) R->fail("hist-notify", C + fmt(": build callback called %d times", calls));
      if (!p.src) { if (e) { R->fail("hist-build-binary", C + fmt(": building a program from its binary gives %d", e)); return; } p.bt = -1; break; }
      bool bad = a == 'X'; cl_int want = bad ? (a == '3' ? CL_COMPILE_PROGRAM_FAILURE : CL_BUILD_PROGRAM_FAILURE) : CL_SUCCESS;
      if (e != want) { R->fail("hist-build-result", C + fmt(": build returns %d, expected %d", e, want)); return; }
      p.st = bad ? 2 : 1; p.v = a == 'Z' ? 6 : a == '0' ? 8 : a - '0'; p.bt = bad ? (int)CL_PROGRAM_BINARY_TYPE_NONE : a == '3' ? CL_PROGRAM_BINARY_TYPE_COMPILED_OBJECT : CL_PROGRAM_BINARY_TYPE_EXECUTABLE; p.opts = o; break;
    }
    case 'K': ks.push_back({cl->kernel(p.p, "k"), p.v, false, expInfo(p.v, false)}); break;
    case 'N': ks.push_back({cl->kernel(p.p, fmt("k%d", p.v)), p.v, true, expInfo(p.v, true)}); break;
    case 'R': clReleaseKernel(ks[0].k); ks.erase(ks.begin()); break;
    case 'S': case 'T':
    {
      cl_program r = reload(p.p, &e); if (!r) { R->fail("hist-reload", C + fmt(": reloading the binary gives %d", e)); return; }
      Prog n{r, 1, p.v, p.bt, false, ""}; if (!checkProg(n, C + " (reloaded)")) return;
      e = clBuildProgram(r, 1, &cl->dev, "-DV=5", 0, 0); if (e) { R->fail("hist-build-binary", C + fmt(": building a program from its binary gives %d", e)); return; }
      if (p.bt != CL_PROGRAM_BINARY_TYPE_EXECUTABLE) n.bt = -1; if (!checkProg(n, C + " (reloaded and built)")) return;
      if (a == 'T') { clReleaseProgram(p.p); p = n; } else clReleaseProgram(r); break;
    }
    case 'L': case 'M':
    {
      cl_program r = clLinkProgram(cl->ctx, 1, &cl->dev, "", 1, &p.p, 0, 0, &e); if (!r || e) { R->fail("hist-link", C + fmt(": linking gives %d", e)); return; }
      Prog n{r, 1, p.v, CL_PROGRAM_BINARY_TYPE_EXECUTABLE, false, ""}; if (!checkProg(n, C + " (linked)")) return;
      if (a == 'M') { clReleaseProgram(p.p); p = n; } else clReleaseProgram(r); break;
    }
    }
    if (!checkProg(p, C)) return;
    for (auto& l : ks) if (!checkKernel(l, C + " (live kernel)")) return;
    if (!quiet("hist-report")) return;
  }
  for (auto& l : ks) clReleaseKernel(l.k);
  clReleaseProgram(p.p); R->count("traces_validated_against_impl");
}
static void genHist(const string& h, int depth, bool built, bool err, int live, bool src)
{
  if ((int)h.size() == depth) { if (R->begin("hist/" + h)) runHist(h); return; }
  for (const char* a = ACT; *a; a++)
  {
    bool b = built, s = src; int l = live;
    switch (*a)
    {
    case '1': case '2': case '3': case 'X': case 'Z': case '0':
      if ((*a == 'Z' || (*a == '0' && h.size() > 2)) && !R->thorough && h.size() > 1) continue;
      if (l && src) { /* may be refused: the kernels that are live keep their meaning either way, but what follows differs */ if (h.size() + 1 < (size_t)depth && *a != '2' && *a != 'X') continue; }
      if (src) { if (l) ; else b = *a != 'X'; } break;
    case 'K': case 'N': if (!b || l >= 2) continue; l++; break;
    case 'R': if (!l) continue; l--; break;
    default: if (!b) continue; if (*a == 'T' || *a == 'M') s = false;
    }
    genHist(h + *a, depth, b, err, l, s);
  }
}

// ---- linking parts
static const char* partSrc[3] = {
  "int fb(int); int fc(int, int); extern __constant int shared[4]; static int h(int x) { return x * 3 + W; } static __constant int t[2] = {11 + W, 12};\n"
  "__kernel void k(__global int *out, __local int *scratch, __constant int *cc) { int i = get_global_id(0); scratch[get_local_id(0)] = h(i); out[i] = h(i) + fb(i) * 7 + fc(i, 1) * 1009 + shared[i & 3] * 100003 + t[i & 1] + scratch[get_local_id(0)]; }\n",
  "int fc(int, int); static int h(int x) { return x * 5 + W; } static __constant int t[2] = {21 + W, 22}; int fb(int x) { return h(x) + fc(x, 2) + t[x & 1]; }\n"
  "__kernel __attribute__((reqd_work_group_size(4, 1, 1))) void kb(__global int *out) { __local int l[8]; l[get_local_id(0)] = fb(get_local_id(0)); barrier(CLK_LOCAL_MEM_FENCE); out[get_global_id(0)] = l[3 - get_local_id(0)]; }\n",
  "static int h(int x) { return x * 7 + W; } static __constant int t[2] = {31 + W, 32}; __constant int shared[4] = {1 + W, 2, 3, 4}; static __constant int *__constant pp[2] = {&t[1], shared + 2}; int fc(int x, int y) { return h(x) * y + t[x & 1] + *pp[x & 1]; }\n"
  "__kernel void kc(__global int *out, float4 v, image2d_t im, sampler_t s) { out[get_global_id(0)] = fc(get_global_id(0), 3); }\n"};
static int W_[3] = {2, 30, 400};
static int fc_(int x, int y) { int t[2] = {31 + W_[2], 32}, sh[4] = {1 + W_[2], 2, 3, 4}; return (x * 7 + W_[2]) * y + t[x & 1] + ((x & 1) ? sh[2] : t[1]); }
static int fb_(int x) { int t[2] = {21 + W_[1], 22}; return x * 5 + W_[1] + fc_(x, 2) + t[x & 1]; }
static int k_(int i) { int t[2] = {11 + W_[0], 12}, sh[4] = {1 + W_[2], 2, 3, 4}; int h = i * 3 + W_[0]; return h + fb_(i) * 7 + fc_(i, 1) * 1009 + sh[i & 3] * 100003 + t[i & 1] + h; }
static string linkInfo[3];
static void checkLinked(cl_program p, const string& ctx)
{
  string n = names(p); if (n != "k;kb;kc") { R->fail("link-names", ctx + ": kernels are " + n); return; }
  const char* nm[3] = {"k", "kb", "kc"};
  for (int w = 0; w < 3; w++)
  {
    cl_kernel k = cl->kernel(p, nm[w]); string inf = kinfo(k);
    if (inf != linkInfo[w]) R->fail("link-kernel-info", ctx + ": kernel information is " + inf + ", expected " + linkInfo[w]);
    if (w == 2) { clReleaseKernel(k); continue; }
    if (w == 0) { cl->localArg(k, 1, 16); cl->arg(k, 2, obuf); }
    vector<uint8_t> z = runk(k, 4, 16); for (int i = 0; i < 4; i++) { int g = ((int*)z.data())[i], e = w ? fb_(3 - i) : k_(i); if (g != e) { R->fail("link-result", ctx + fmt(": kernel %s computes %d for item %d, expected %d", nm[w], g, i, e)); break; } }
    clReleaseKernel(k);
  }
  quiet("link-report");
}
static void linkMode()
{
  // signatures as programs of a single kernel have them
  static const char* sig[3] = {"__kernel void k(__global int *out, __local int *scratch, __constant int *cc) { }", "__kernel __attribute__((reqd_work_group_size(4, 1, 1))) void kb(__global int *out) { __local int l[8]; l[get_local_id(0)] = 1; out[get_global_id(0)] = l[get_local_id(0) ^ 1]; }",
    "__kernel void kc(__global int *out, float4 v, image2d_t im, sampler_t s) { }"};
  for (int w = 0; w < 3; w++) { cl_program p = cl->build(sig[w]); const char* nm[3] = {"k", "kb", "kc"}; cl_kernel k = cl->kernel(p, nm[w]); linkInfo[w] = kinfo(k); clReleaseKernel(k); clReleaseProgram(p); }
  static const char* LO[] = {"-create-library", " -create-library", "-create-library -enable-link-options", "-enable-link-options -create-library", "-cl-denorms-are-zero -create-library -enable-link-options", "-create-library  "}; static const char* EO[] = {"", "-cl-denorms-are-zero", " ", "-cl-fast-relaxed-math -cl-no-signed-zeros"}; static int lo = 0, eo = 0;
  auto part = [](int w, int how) { // 0 compiled, 1 compiled and reloaded, 2 compiled without optimisation, 3 a library of one, 4 a reloaded library of one
    cl_program p = source(partSrc[w]); cl_int e = clCompileProgram(p, 1, &cl->dev, fmt("-DW=%d%s", W_[w], how == 2 ? " -cl-opt-disable" : "").c_str(), 0, 0, 0, 0, 0); if (e) R->internal("part does not compile: " + status(p).log);
    if (how >= 3) { cl_program l = clLinkProgram(cl->ctx, 1, &cl->dev, LO[lo++ % 6], 1, &p, 0, 0, &e); if (e || !l) { R->fail("link-library", fmt("creating a library fails: %d", e)); return p; } if (status(l).bt != CL_PROGRAM_BINARY_TYPE_LIBRARY) R->fail("link-library-type", fmt("binary type of a library is %u", status(l).bt)); clReleaseProgram(p); p = l; }
    if (how == 1 || how == 4) { cl_program r = reload(p); if (!r) { R->fail("link-reload", "reloading a part fails"); return p; } if (status(r).bt != (how == 1 ? CL_PROGRAM_BINARY_TYPE_COMPILED_OBJECT : CL_PROGRAM_BINARY_TYPE_LIBRARY)) R->fail("link-reload-type", fmt("binary type of a reloaded part is %u", status(r).bt)); clReleaseProgram(p); p = r; }
    return p; };
  int nh = R->thorough ? 5 : 5;
  for (int hows = 0; hows < nh * nh * nh; hows++) for (int perm = 0; perm < 6; perm++) for (int grp = 0; grp < 4; grp++)
  {
    if (!R->thorough && (hows % 5 > 2) + (hows / 5 % 5 > 2) + (hows / 25 > 2) > 1) continue;
    if (!R->begin(fmt("link/%d/%d/%d", hows, perm, grp))) continue;
    lo = hows + perm; eo = hows + perm + grp; err_->clear(); int hw[3] = {hows % nh, hows / nh % nh, hows / nh / nh}; static const int pm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    cl_program q[3]; for (int i = 0; i < 3; i++) q[i] = part(pm[perm][i], hw[pm[perm][i]]);
    cl_int e; cl_program r = 0, lib = 0;
    if (grp == 0) r = clLinkProgram(cl->ctx, 1, &cl->dev, 0, 3, q, 0, 0, &e);
    else
    { // two of the parts become a library first
      int x = grp - 1; cl_program two[2] = {q[(x + 1) % 3], q[(x + 2) % 3]}; lib = clLinkProgram(cl->ctx, 1, &cl->dev, LO[lo++ % 6], 2, two, 0, 0, &e); if (lib && status(lib).bt != CL_PROGRAM_BINARY_TYPE_LIBRARY) R->fail("link-library-type", fmt("binary type of a library is %u", status(lib).bt));
      if (lib) { cl_program fin[2] = {q[x], lib}; if (perm & 1) std::swap(fin[0], fin[1]); r = clLinkProgram(cl->ctx, 1, &cl->dev, EO[eo++ % 4], 2, fin, 0, 0, &e); }
    }
    R->count("transitions", 5);
    if (!r || e) R->fail("link-fails", fmt("linking gives %d", e));
    else
    {
      for (auto p : q) clReleaseProgram(p); if (lib) clReleaseProgram(lib); // the result must not depend on its parts
      if (status(r).bt != CL_PROGRAM_BINARY_TYPE_EXECUTABLE || status(r).st != CL_BUILD_SUCCESS) R->fail("link-status", fmt("linked program has status %d and binary type %u", status(r).st, status(r).bt));
      checkLinked(r, "linked"); cl_program b = reload(r); clReleaseProgram(r);
      if (!b) R->fail("link-reload", "reloading a linked program fails"); else { if (status(b).bt != CL_PROGRAM_BINARY_TYPE_EXECUTABLE) R->fail("link-reload-type", fmt("reloaded program has binary type %u", status(b).bt)); CK(clBuildProgram(b, 1, &cl->dev, "", 0, 0)); checkLinked(b, "linked and reloaded"); clReleaseProgram(b); }
      R->count("traces_validated_against_impl");
    }
  }
  // failures
  for (int w = 0; w < 3; w++) for (int bin = 0; bin < 2; bin++)
  {
    if (!R->begin(fmt("linkfail/%d/%d", w, bin))) continue;
    err_->clear(); cl_program q[2] = {part(w, bin), part(w, 0)}; cl_int e = 77; cl_program r = clLinkProgram(cl->ctx, 1, &cl->dev, "", 2, q, 0, 0, &e); R->count("transitions");
    if (e != CL_LINK_PROGRAM_FAILURE) R->fail("link-duplicate", fmt("linking two definitions of the same functions gives %d", e));
    if (r) { Status s = status(r); if (s.st != CL_BUILD_ERROR || s.log.empty()) R->fail("link-duplicate-log", fmt("a failed link has build status %d and log '%s'", s.st, s.log.c_str())); cl_kernel k = clCreateKernel(r, "k", &e); if (k) R->fail("link-duplicate-kernel", "a failed link has kernels"); clReleaseProgram(r); }
    else R->fail("link-duplicate-log", "a failed link has no program, so there is no build log");
    for (auto p : q) clReleaseProgram(p);
    // the parts are still usable
    cl_program a[3] = {part(0, 0), part(1, 0), part(2, 0)}; r = clLinkProgram(cl->ctx, 1, &cl->dev, "", 3, a, 0, 0, &e); if (!r || e) R->fail("link-after-failure", fmt("%d", e)); else { checkLinked(r, "after a failed link"); clReleaseProgram(r); } for (auto p : a) clReleaseProgram(p);
  }
  if (R->begin("linkfail/uncompiled"))
  {
    cl_program a[2] = {part(0, 0), source(partSrc[1])}; cl_int e = 0; cl_program r = clLinkProgram(cl->ctx, 1, &cl->dev, "", 2, a, 0, 0, &e); if (r || e != CL_INVALID_OPERATION) R->fail("link-uncompiled", fmt("linking a program that is not compiled gives %d", e));
    e = clCompileProgram(a[1], 1, &cl->dev, "-DW=syntax(", 0, 0, 0, 0, 0); if (e != CL_COMPILE_PROGRAM_FAILURE || status(a[1]).log.empty()) R->fail("compile-failure", fmt("compiling a wrong source gives %d", e));
    r = clLinkProgram(cl->ctx, 1, &cl->dev, "", 2, a, 0, 0, &e); if (r || e != CL_INVALID_OPERATION) R->fail("link-uncompiled", fmt("linking a program whose compilation failed gives %d", e));
  }
  // corrupted binaries are refused, never accepted as something else
  cl_program p = cl->build(histSrc, "-DV=1"); vector<unsigned char> good = binary(p);
  for (size_t len = 1; len < good.size(); len = R->thorough ? len + 1 : len + 7)
  {
    if (!R->begin(fmt("truncated/%zu", len))) continue;
    const unsigned char* bp = good.data(); cl_int bs = 7, e = 7; cl_program r = clCreateProgramWithBinary(cl->ctx, 1, &cl->dev, &len, &bp, &bs, &e);
    if (r) { if (names(r) != "k;k1") R->fail("truncated-binary", fmt("a binary truncated to %zu of %zu bytes is accepted", len, good.size())); clReleaseProgram(r); } else if (e != CL_INVALID_BINARY || bs != CL_INVALID_BINARY) R->fail("truncated-binary-error", fmt("error %d, binary status %d", e, bs));
    R->count("transitions");
  }
}

// ---- program-scope initialisers
struct Ty { string name, suffix; size_t size, align; std::function<void(string&, vector<int>&)> init; string decl; };
static unsigned seq;
struct Scalar { const char* n; int size; char k; };
static const Scalar SC[] = {{"char", 1, 'i'}, {"uchar", 1, 'i'}, {"short", 2, 'i'}, {"ushort", 2, 'i'}, {"int", 4, 'i'}, {"uint", 4, 'i'}, {"long", 8, 'i'}, {"ulong", 8, 'i'}, {"float", 4, 'f'}, {"double", 8, 'd'}, {"bool", 1, 'b'}, {"size_t_", 8, 'i'}};
enum { NSC = 11 };
static string litOf(const Scalar& s, vector<int>& bytes)
{ // a fresh value, and its bytes
  seq++; uint8_t b[8] = {0}; string lit;
  if (s.k == 'i') { uint64_t v = 0x9E3779B97F4A7C15ull * seq; if (seq % 5 == 0) v = 1ull << (s.size * 8 - 1); if (seq % 7 == 0) v = ~0ull; if (s.size < 8) v &= (1ull << (s.size * 8)) - 1; memcpy(b, &v, 8); lit = fmt("(%s)0x%lxul", s.n, (unsigned long)v); }
  else if (s.k == 'b') { b[0] = seq & 1; lit = b[0] ? "true" : "false"; }
  else if (s.k == 'f') { static const float sp[] = {1.5f, -0.0f, 3.4028235e38f, 1.17549435e-38f, 1e-45f, -123.456f, 0.1f}; float f = seq % 9 == 0 ? INFINITY : sp[seq % 7]; memcpy(b, &f, 4); lit = f == INFINITY ? "INFINITY" : fmt("%.9ef", f); }
  else { static const double sp[] = {1.5, -0.0, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -123.456, 0.1}; double f = sp[seq % 7]; memcpy(b, &f, 8); lit = fmt("%.17e", f); }
  for (int i = 0; i < s.size; i++) bytes.push_back(b[i]); return lit;
}
static vector<Ty> types; static string structDecls; static int nst;
static Ty scal(const Scalar& s) { return {s.n, "", (size_t)s.size, (size_t)s.size, [s](string& o, vector<int>& b) { o += litOf(s, b); }, ""}; }
static Ty vec(const Scalar& s, int w)
{
  int st = w == 3 ? 4 : w;
  return {fmt("%s%d", s.n, w), "", (size_t)s.size * st, (size_t)s.size * st, [s, w, st](string& o, vector<int>& b) { o += fmt("(%s%d)(", s.n, w); for (int i = 0; i < w; i++) { if (i) o += ", "; o += litOf(s, b); } o += ")"; for (int i = 0; i < (st - w) * s.size; i++) b.push_back(-1); }, ""};
}
static void zeros(const Ty& t, size_t n, vector<int>& b)
{ // what an element without initialiser holds: zero, except in padding
  unsigned s = seq; string o; vector<int> e; t.init(o, e); seq = s; for (size_t i = 0; i < n; i++) for (int x : e) b.push_back(x < 0 ? -1 : 0);
}
static Ty arr(const Ty& t, int n, int given)
{ // given initialised elements, the rest zero
  return {t.name, fmt("[%d]", n) + t.suffix, t.size * n, t.align, [t, n, given](string& o, vector<int>& b) { o += "{"; for (int i = 0; i < given; i++) { if (i) o += ", "; t.init(o, b); } if (!given) o += "0"; o += "}"; zeros(t, n - given, b); }, t.decl};
}
static Ty strct(const vector<Ty>& m, bool packed, int given)
{
  string n = fmt("S%d", nst++), d; vector<size_t> off; size_t o = 0, al = 1;
  for (auto& t : m) { size_t a = packed ? 1 : t.align; o = (o + a - 1) / a * a; off.push_back(o); o += t.size; al = std::max(al, a); if (d.find(t.decl) == string::npos) d = t.decl + d; }
  size_t sz = (o + al - 1) / al * al; d += fmt("typedef struct %s{ ", packed ? "__attribute__((packed)) " : ""); for (size_t i = 0; i < m.size(); i++) d += m[i].name + fmt(" m%zu", i) + m[i].suffix + "; "; d += "} " + n + ";\n";
  return {n, "", sz, al, [m, off, sz, given](string& out, vector<int>& b) {
            size_t base = b.size(); out += "{";
            for (size_t i = 0; i < m.size(); i++) { while (b.size() < base + off[i]) b.push_back(-1); if ((int)i < given) { if (i) out += ", "; m[i].init(out, b); } else zeros(m[i], 1, b); }
            while (b.size() < base + sz) b.push_back(-1); out += "}"; }, d};
}
static Ty uni(const Ty& a, const Ty& c)
{
  string n = fmt("U%d", nst++); size_t al = std::max(a.align, c.align), sz = (std::max(a.size, c.size) + al - 1) / al * al;
  return {n, "", sz, al, [a, sz](string& o, vector<int>& b) { size_t base = b.size(); o += "{"; a.init(o, b); o += "}"; while (b.size() < base + sz) b.push_back(-1); }, a.decl + (a.decl.find(c.decl) == string::npos ? c.decl : "") + "typedef union { " + a.name + " x" + a.suffix + "; " + c.name + " y" + c.suffix + "; } " + n + ";\n"};
}
static void runInit(const vector<Ty>& ts, const string& ctx, int where)
{
  // where: 0 constant at program scope, 1 constant in the kernel, 2 private const array initialiser in the kernel, 3 CL2.0 program-scope global, 4 CL2.0 static in kernel
  string decl, scope, inner, body; vector<vector<int>> want;
  for (size_t i = 0; i < ts.size(); i++)
  {
    auto& t = ts[i]; string init; vector<int> b; t.init(init, b); if (b.size() != t.size) R->internal(fmt("initialiser model of %s has %zu bytes, not %zu", t.name.c_str(), b.size(), t.size)); want.push_back(b);
    std::stringstream ss(t.decl); string line; while (std::getline(ss, line)) if (decl.find(line + "\n") == string::npos) decl += line + "\n";
    string v = fmt("v%zu", i), q = where == 0 || where == 1 ? "__constant " : where == 2 ? "const " : "__global "; if (where == 4) q = "static __global "; string as = where <= 1 ? "__constant" : where == 2 ? "__private" : "__global";
    (where == 0 || where == 3 ? scope : inner) += q + t.name + " " + v + t.suffix + " = " + init + ";\n";
    body += fmt("for (int i = 0; i < z + (int)sizeof(%s); i++) o[n++] = ((const %s uchar*)&%s)[i];\n", v.c_str(), as.c_str(), v.c_str());
  }
  string src = decl + scope + "__kernel void k(__global uchar *o, int z) {\nint n = 0;\n" + inner + body + "}\n", log; cl_int e; err_->clear();
  for (int od = 0; od < 2; od++)
  {
    cl_program p = cl->tryBuild(src, string(where >= 3 ? "-cl-std=CL2.0" : "") + (od ? " -cl-opt-disable" : ""), &log, &e);
    if (e) R->internal("initialiser source does not build: " + log + src.substr(0, 2000));
    size_t total = 0; for (auto& t : ts) total += t.size; if (total > OB) R->internal("too many initialisers in one program");
    for (int how = 0; how < 3; how++)
    { // built, reloaded, linked
      cl_program r = how == 1 ? reload(p) : how == 2 ? clLinkProgram(cl->ctx, 1, &cl->dev, 0, 1, &p, 0, 0, &e) : p; if (!r) { R->fail("init-reload", ctx); break; }
      cl_kernel k = cl->kernel(r, "k"); cl->arg(k, 1, (cl_int)0); vector<uint8_t> z = runk(k, 1, total); size_t o = 0;
      for (size_t i = 0; i < ts.size(); i++) { for (size_t j = 0; j < want[i].size(); j++, o++) { if (j == 0) R->count("traces_validated_against_impl"); if (want[i][j] >= 0 && z[o] != want[i][j]) { R->fail(fmt("init-%d", where), ctx + fmt(": byte %zu of %s%s is %02x, expected %02x (%s%s)", j, ts[i].name.c_str(), ts[i].suffix.c_str(), z[o], want[i][j], how == 1 ? "reloaded" : how ? "linked" : "built", od ? ", not optimised" : "") + "; types: " + ts[i].decl.substr(0, 300)); o += want[i].size() - j; break; } } }
      if (!quiet("init-report")) { }
      clReleaseKernel(k); if (how) clReleaseProgram(r);
    }
    clReleaseProgram(p);
  }
}
static void initMode()
{
  vector<Ty> base; for (int s = 0; s < NSC; s++) base.push_back(scal(SC[s]));
  vector<Ty> vecs; for (int s = 0; s < 10; s++) for (int w : {2, 3, 4, 8, 16}) vecs.push_back(vec(SC[s], w));
  vector<Ty> el = base; for (auto& v : vecs) el.push_back(v);
  vector<Ty> all = el;
  for (auto& t : el) for (int n = 1; n <= 3; n++) for (int g = (t.name.back() > '9' ? 0 : 1); g <= n; g++) all.push_back(arr(t, n, g));
  for (auto& t : base) for (int a = 1; a <= 2; a++) all.push_back(arr(arr(t, 3, a + 1), 2, a));
  vector<Ty> sm = base; for (auto& t : vecs) if (t.size <= 16 && (t.name.find("char") == 0 || t.name.find("int") == 0 || t.name.find("float") == 0)) sm.push_back(t);
  sm.push_back(arr(SC[0].n ? base[0] : base[0], 3, 2)); sm.push_back(arr(base[4], 2, 2));
  vector<Ty> st;
  for (auto& a : sm) for (auto& b : sm) for (int v = 0; v < 3; v++) { if (v == 2 && b.suffix.size()) continue; st.push_back(strct({a, b}, v == 1, v == 2 ? 1 : 2)); }
  for (int a : {0, 2, 4, 6, 9}) for (int b : {0, 4, 8}) for (int c : {0, 3, 6, 9}) st.push_back(strct({base[a], base[b], base[c]}, false, 3));
  for (auto& s : vector<Ty>(st.begin(), st.end())) { if (&s && s.name.size() && (nst % 3 == 0)) { } }
  vector<Ty> deep; for (size_t i = 0; i < st.size(); i += R->thorough ? 1 : 5) { deep.push_back(arr(st[i], 2, 2)); deep.push_back(arr(st[i], 3, 1)); deep.push_back(strct({base[i % NSC], st[i], base[(i / 3) % NSC]}, i & 1, 3)); deep.push_back(strct({st[i], arr(st[i], 2, 1)}, false, 2)); }
  vector<Ty> un; for (auto& a : sm) for (auto& b : sm) un.push_back(uni(a, b)); for (size_t i = 0; i < st.size(); i += 4) { un.push_back(uni(st[i], base[4])); un.push_back(uni(base[i % NSC], st[i])); un.push_back(strct({base[0], un[i % un.size()]}, false, 2)); }
  for (auto& s : st) all.push_back(s); for (auto& s : deep) all.push_back(s); for (auto& s : un) all.push_back(s);
  int B = 40;
  for (int where = 0; where < 5; where++) for (size_t i = 0; i < all.size(); i += B)
  {
    if (!R->thorough && where && (i / B) % 3 != (size_t)where % 3) continue;
    if (!R->begin(fmt("init/%d/%zu", where, i))) continue;
    seq = i * 131 + where; runInit(vector<Ty>(all.begin() + i, all.begin() + std::min(all.size(), i + B)), fmt("where=%d", where), where);
  }
  // pointers between program-scope variables: which variable, which element, through which shape
  static const char* shape[] = {"__constant int *__constant P = %s;", "__constant int *__constant P[2] = {0, %s};", "typedef struct { char c; __constant int *p; } SP; __constant SP P = {3, %s};", "typedef struct { int a; struct { __constant int *p; short s; } q[2]; } SQ; __constant SQ P = {1, {{0, 2}, {%s, 5}}};",
    "__constant int *__constant Q = %s; __constant int *__constant *__constant P = &Q;", "typedef union { __constant int *p; long l; } UP; __constant UP P = {%s};", "typedef struct { char c; __constant int *p; } SP; __constant SP P[2] = {{1, 0}, {3, %s}};",
    "typedef struct { __constant int *p; __constant char *s; } SP; __constant SP P = {%s, \"hello\"};", "typedef struct __attribute__((packed)) { char c; __constant int *p; } SP; __constant SP P = {3, %s};"};
  static const char* use[] = {"P", "P[1 + z]", "P.p", "P.q[1 + z].p", "P[z]", "P.p", "P[1 + z].p", "(P.p + (z ? P.s[z] : 0))", "P.p"};
  static const char* tgt[] = {"X", "&X[2]", "X + 3", "&Y.m", "&Y.n[1]", "&W[1].n[1]", "(__constant int*)((__constant char*)X + 4)", "&Z", "(__constant int*)&V + 1", "&W[1].n[0] + 1", "&X[3] - 2"}; static const int val[] = {101, 103, 104, 201, 203, 213, 102, 77, 302, 213, 102};
  string defs = "__constant int X[4] = {101, 102, 103, 104}; typedef struct { char c; int m; int n[2]; } SY; __constant SY Y = {1, 201, {202, 203}}; __constant SY W[2] = {{1, 204, {205, 206}}, {2, 211, {212, 213}}}; __constant int Z = 77; __constant int4 V = (int4)(301, 302, 303, 304);\n";
  for (int ord = 0; ord < 2; ord++) for (int s = 0; s < 9; s++) for (int t = 0; t < 11; t++) for (int od = 0; od < 2; od++)
  {
    if (!R->begin(fmt("ptr/%d/%d/%d/%d", ord, s, t, od))) continue;
    char b[1024]; snprintf(b, sizeof b, shape[s], tgt[t]); err_->clear();
    string pre = ord ? "extern __constant int X[4]; extern __constant int Z; typedef struct { char c; int m; int n[2]; } SY; extern __constant SY Y; extern __constant SY W[2]; extern __constant int4 V;\n" + string(b) + "\n" + "__constant int X[4] = {101, 102, 103, 104}; __constant SY Y = {1, 201, {202, 203}}; __constant SY W[2] = {{1, 204, {205, 206}}, {2, 211, {212, 213}}}; __constant int Z = 77; __constant int4 V = (int4)(301, 302, 303, 304);\n" : defs + b + "\n";
    string src = pre + "__kernel void k(__global int *o, int z) { __constant int *r = " + (s == 4 ? "P[z]" : use[s]) + "; o[0] = *r; o[1] = Z + X[z]; }\n", log; cl_int e; cl_program p = cl->tryBuild(src, od ? "-cl-opt-disable" : "", &log, &e);
    if (e) { R->internal("pointer initialiser does not build: " + log + src); }
    for (int how = 0; how < 3; how++)
    {
      cl_program r = how == 1 ? reload(p) : how == 2 ? clLinkProgram(cl->ctx, 1, &cl->dev, 0, 1, &p, 0, 0, &e) : p; if (!r) { R->fail("init-reload", "pointer"); break; }
      cl_kernel k = cl->kernel(r, "k"); cl->arg(k, 1, (cl_int)0); vector<uint8_t> z = runk(k, 1, 8); int* g = (int*)z.data();
      if (g[0] != val[t] || g[1] != 178) R->fail("init-pointer", fmt("%s: target reads %d, expected %d (%s); constants %d", b, g[0], val[t], how == 1 ? "reloaded" : how ? "linked" : "built", g[1]));
      quiet("init-pointer-report"); clReleaseKernel(k); if (how) clReleaseProgram(r); R->count("traces_validated_against_impl");
    }
    clReleaseProgram(p);
  }
  // OpenCL C 2.0 variables keep what kernels write until the program goes away, and every program has its own
  for (int order = 0; order < 16; order++)
  {
    if (!R->begin(fmt("mutable/%d", order))) continue;
    err_->clear(); string src = "int counter = 5; __global int *gp = &counter; int zero[3]; __kernel void k(__global int *o) { counter++; *gp += 10; zero[1] += 2; o[0] = counter; o[1] = zero[0] + zero[1] * 100 + zero[2]; }\n__kernel void r(__global int *o) { static int calls; calls++; o[0] = counter; o[1] = calls; }\n";
    cl_program p[2] = {cl->build(src, "-cl-std=CL2.0"), cl->build(src, "-cl-std=CL2.0")}; int n[2] = {0, 0}, calls[2] = {0, 0};
    cl_kernel k[2][2] = {{cl->kernel(p[0], "k"), cl->kernel(p[0], "r")}, {cl->kernel(p[1], "k"), cl->kernel(p[1], "r")}};
    for (int s = 0; s < 4; s++)
    {
      int w = order >> s & 1; for (int kk = 0; kk < 2; kk++)
      {
        vector<uint8_t> z = runk(k[w][kk], 1, 8); int* g = (int*)z.data(); if (kk == 0) n[w]++; else calls[w]++;
        int e0 = 5 + 11 * n[w], e1 = kk ? calls[w] : 200 * n[w]; if (g[0] != e0 || g[1] != e1) R->fail("mutable", fmt("program %d, step %d: kernel sees %d, %d; expected %d, %d", w, s, g[0], g[1], e0, e1));
      }
    }
    size_t sz = 0; CK(clGetProgramBuildInfo(p[0], cl->dev, CL_PROGRAM_BUILD_GLOBAL_VARIABLE_TOTAL_SIZE, sizeof sz, &sz, 0)); if (sz < 28 || sz > 64) R->fail("mutable-size", fmt("CL_PROGRAM_BUILD_GLOBAL_VARIABLE_TOTAL_SIZE is %zu", sz));
    quiet("mutable-report"); for (auto& a : k) for (auto x : a) clReleaseKernel(x);
    // rebuilding starts again from the initial values
    CK(clBuildProgram(p[0], 1, &cl->dev, "-cl-std=CL2.0", 0, 0)); cl_kernel x = cl->kernel(p[0], "r"); vector<uint8_t> z = runk(x, 1, 8); int* g = (int*)z.data(); if (g[0] != 5 || g[1] != 1) R->fail("mutable-rebuild", fmt("after rebuilding the kernel sees %d, %d", g[0], g[1])); clReleaseKernel(x);
    for (auto q : p) clReleaseProgram(q);
  }
}

// ---- headers, source strings, failures
static void miscMode()
{
  // all ways of handing two headers (of two versions each, plain or in a subdirectory) to two successive compilations
  static const char* hn[3] = {"a.h", "sub/b.h", "c d.h"};
  for (int inc = 1; inc < 8; inc++) for (int v1 = 0; v1 < 8; v1++) for (int v2 = 0; v2 < 8; v2++)
  {
    if (!R->begin(fmt("hdr/%d/%d/%d", inc, v1, v2))) continue;
    err_->clear(); string src; for (int i = 0; i < 3; i++) { if (inc >> i & 1) src += fmt("#include \"%s\"\n", hn[i]); else src += fmt("#define H%d %d\n", i, i); } src += "__kernel void k(__global int *o) { o[0] = H0; o[1] = H1; o[2] = H2; }\n";
    cl_program h[3][2]; for (int i = 0; i < 3; i++) for (int v = 0; v < 2; v++) h[i][v] = source(fmt("%s#define H%d %d\n", v ? "// longer\n" : "", i, 100 + i * 10 + v));
    cl_program p = source(src);
    for (int round = 0; round < 2; round++)
    {
      int vv = round ? v2 : v1; cl_program in[3]; const char* nm[3]; int n = 0; for (int j = 0; j < 3; j++) { int i = round ? 2 - j : j; if (inc >> i & 1) { in[n] = h[i][vv >> i & 1]; nm[n++] = hn[i]; } }
      cl_int e = clCompileProgram(p, 1, &cl->dev, 0, n, n ? in : 0, n ? nm : 0, 0, 0); R->count("transitions");
      if (e) { R->fail("header-compile", fmt("compiling with embedded headers gives %d: %s", e, status(p).log.substr(0, 300).c_str())); break; }
      cl_program l = clLinkProgram(cl->ctx, 0, 0, 0, 1, &p, 0, 0, &e); CK(e); cl_kernel k = cl->kernel(l, "k"); vector<uint8_t> z = runk(k, 1, 12); int* g = (int*)z.data();
      for (int i = 0; i < 3; i++) { int w = inc >> i & 1 ? 100 + i * 10 + (vv >> i & 1) : i; if (g[i] != w) R->fail("header-content", fmt("round %d: header %s gives %d, expected %d", round, hn[i], g[i], w)); }
      clReleaseKernel(k); clReleaseProgram(l); R->count("traces_validated_against_impl");
    }
    // without the header the compilation must fail and say so
    cl_int e = clCompileProgram(p, 1, &cl->dev, 0, 0, 0, 0, 0, 0); string log = status(p).log; if (e != CL_COMPILE_PROGRAM_FAILURE || log.find("file not found") == string::npos) R->fail("header-missing", fmt("compiling without the headers gives %d, log '%s'", e, log.substr(0, 200).c_str()));
    quiet("header-report"); clReleaseProgram(p); for (auto& a : h) for (auto x : a) clReleaseProgram(x);
  }
  // one to ten headers that include one another as a chain, a star or a tree, handed over in every rotation, one of them left out or none
  for (int n = 1; n <= 10; n++) for (int shape = 0; shape < 3; shape++) for (int rot = 0; rot < n; rot++) for (int miss = -1; miss < n; miss++)
  {
    if (!R->thorough && miss >= 0 && (rot + shape) % 3) continue; if (!R->begin(fmt("hdrs/%d/%d/%d/%d", n, shape, rot, miss))) continue; err_->clear();
    vector<string> nm, body; string top; for (int i = 0; i < n; i++) { nm.push_back(fmt(i % 3 == 0 ? "h%d.h" : i % 3 == 1 ? "dir/h%d.h" : "dir/deep er/h%d.h", i)); body.push_back(fmt("#define N%d %d\n", i, 100 + i * i)); }
    for (int i = 0; i < n; i++) { int par = shape == 0 ? i - 1 : shape == 1 ? -1 : (i + 1) / 2 - 1; string line = "#include \"" + nm[i] + "\"\n"; if (par < 0) top += line; else body[par] += line; }
    string src = top + "__kernel void k(__global int *o) {"; for (int i = 0; i < n; i++) src += fmt(" o[%d] = N%d;", i, i); src += " }\n"; cl_program p = source(src); vector<cl_program> h; vector<const char*> hn; for (int j = 0; j < n; j++) { int i = (j + rot) % n; if (i == miss) continue; h.push_back(source(body[i])); hn.push_back(nm[i].c_str()); }
    cl_int e = clCompileProgram(p, 1, &cl->dev, "-I.", h.size(), h.empty() ? 0 : h.data(), h.empty() ? 0 : hn.data(), 0, 0); R->count("transitions");
    if (miss >= 0) { string log = status(p).log; if (e != CL_COMPILE_PROGRAM_FAILURE || log.find(nm[miss]) == string::npos) R->fail("header-left-out", fmt("compiling without %s gives %d, log '%s'", nm[miss].c_str(), e, log.substr(0, 200).c_str())); }
    else if (e) R->fail("header-many", fmt("compiling with %d headers gives %d: %s", n, e, status(p).log.substr(0, 300).c_str()));
    else { cl_program l = clLinkProgram(cl->ctx, 0, 0, 0, 1, &p, 0, 0, &e); CK(e); cl_kernel k = cl->kernel(l, "k"); vector<uint8_t> z = runk(k, 1, 4 * n); for (int i = 0; i < n; i++) if (((int*)z.data())[i] != 100 + i * i) R->fail("header-many", fmt("header %d gives %d", i, ((int*)z.data())[i])); clReleaseKernel(k); clReleaseProgram(l); R->count("traces_validated_against_impl"); quiet("header-report"); }
    clReleaseProgram(p); for (auto x : h) clReleaseProgram(x);
  }
  // every split of a source into up to three strings, each NUL-terminated or with a length
  string src = "#define V 4\n__kernel void k(__global int *o)\n{ o[0] = V; }";
  for (size_t a = 0; a <= src.size(); a++) for (size_t b = a; b <= src.size(); b++) 
  {
    if (!R->thorough && (a * 7 + b) % 5) continue;
    for (int mode = 0; mode < 4; mode++)
    {
      if (!R->begin(fmt("split/%zu/%zu/%d", a, b, mode))) continue;
      string s[3] = {src.substr(0, a), src.substr(a, b - a), src.substr(b)}; size_t len[3]; const char* ps[3]; vector<string> keep;
      for (int i = 0; i < 3; i++) { bool z = s[i].empty() || !(mode >> (i & 1) & 1); len[i] = z ? 0 : s[i].size(); keep.push_back(z ? s[i] : s[i] + "JUNK"); } for (int i = 0; i < 3; i++) ps[i] = keep[i].c_str();
      cl_int e; cl_program p = clCreateProgramWithSource(cl->ctx, 3, ps, mode || (a & 1) ? len : 0, &e); if (e) { R->fail("split-create", fmt("%d", e)); continue; }
      size_t n = 0; CK(clGetProgramInfo(p, CL_PROGRAM_SOURCE, 0, 0, &n)); string got(n, 0); CK(clGetProgramInfo(p, CL_PROGRAM_SOURCE, n, &got[0], 0)); got.resize(n - 1); if (got != src) R->fail("split-source", "the source of the program is not the concatenation of its strings: " + got);
      R->count("traces_validated_against_impl"); R->count("transitions"); clReleaseProgram(p);
    }
  }
  // wrong sources: status, log with the line of the error, recovery is covered by the histories
  struct Bad { const char* src; const char* log; }; static const Bad bad[] = {{"__kernel void k(__global int *o) {\n o[0] = missing_name;\n}", ":2:"}, {"\n\n__kernel void k(__global int *o) { o[0] = 1 }", ":3:"}, {"#error tailored message\n", "tailored message"}, {"__kernel int k() { return 1; }", "void"}, {"__kernel void k(__global int *o) { o[0] = undeclared_function(1); }", "undeclared_function"}, {"#include \"nothere.h\"\n", "nothere.h"}, {"__kernel void k(int **p) { }", "error"}, {"__kernel void k(__global int *o) {\n\n o[0] = \"text\"; }\n__kernel void k2(__global int *o) {\n syntax error; }", "error"}, {"int x", "error"}};
  for (auto& bd : bad) for (int comp = 0; comp < 2; comp++)
  {
    if (!R->begin(fmt("bad/%d/%d", (int)(&bd - bad), comp))) continue;
    cl_program p = source(bd.src); cl_int e = comp ? clCompileProgram(p, 0, 0, 0, 0, 0, 0, 0, 0) : clBuildProgram(p, 0, 0, 0, 0, 0); Status s = status(p); R->count("transitions");
    if (e != (comp ? CL_COMPILE_PROGRAM_FAILURE : CL_BUILD_PROGRAM_FAILURE)) R->fail("bad-result", fmt("building a wrong source gives %d", e));
    if (s.st != CL_BUILD_ERROR || s.bt != CL_PROGRAM_BINARY_TYPE_NONE) R->fail("bad-status", fmt("status %d, binary type %u", s.st, s.bt));
    if (s.log.find(bd.log) == string::npos || s.log.find("error") == string::npos) R->fail("bad-log", string("the build log does not have '") + bd.log + "': " + s.log.substr(0, 500));
    clReleaseProgram(p); R->count("traces_validated_against_impl");
  }
  // wrong options are reported as well; warnings are in the log of a successful build, unless they are errors
  for (const char* o : {"-cl-std=CL9.9", "-thisisnotanoption", "-DA=1 -fnonsense", "-cl-nonsense -DA=2"}) if (R->begin(string("badopt/") + o)) { string log; cl_int e; cl_program p = cl->tryBuild("__kernel void k() { }", o, &log, &e); if (e != CL_BUILD_PROGRAM_FAILURE || log.empty()) R->fail("bad-option", fmt("option '%s': build gives %d, log '%s'", o, e, log.c_str())); clReleaseProgram(p); R->count("transitions"); }
  for (const char* o : {"", "-w", "-Werror", "-w -Werror"}) if (R->begin(string("warn/") + o))
  {
    string log; cl_int e; cl_program p = cl->tryBuild("#warning some warning\n__kernel void k() { }", o, &log, &e); bool w = strstr(o, "-w"), er = !w && strstr(o, "-Werror");
    if ((e != 0) != er || (log.find("some warning") == string::npos) != w) R->fail("warnings", fmt("options '%s': build gives %d, log '%s'", o, e, log.c_str())); clReleaseProgram(p); R->count("transitions");
  }
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1]); T = argv[2]; string mode = argv[3]; Capture err(2); err_ = &err; unsetenv("OCLGRIND_BUILD_OPTIONS");
  CL c; cl = &c; obuf = c.buf(OB);
  if (mode == "opts") optsMode();
  if (mode == "hist") { int D = R->thorough ? 5 : 4; for (int d = 1; d <= D; d++) genHist("", d, false, false, 0, true); }
  if (mode == "link") linkMode();
  if (mode == "init") initMode();
  if (mode == "misc") miscMode();
}
VF_MAIN(body)
