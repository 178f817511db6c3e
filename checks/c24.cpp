// C24: simulation files. Every generated file is run by the kernel runner in a forked child and judged by a reference reader of the format.
#include "vf.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace vf; using std::map; using std::pair;
extern "C" int kernel_runner_main(int argc, char** argv);
static string dir; static CL* cl;
struct Res { int status; string out, err; };
static Res runFile(const string& text, const vector<string>& opts = {}, const string& input = "")
{
  string f = dir + "/t.sim"; FILE* fp = fopen(f.c_str(), "w"); fwrite(text.data(), 1, text.size(), fp); fclose(fp);
  int o = memfd_create("o", 0), e = memfd_create("e", 0); fflush(0); R->tick(); pid_t p = fork();
  if (!p)
  {
    int n = open("/dev/null", O_RDONLY); dup2(n, 0); dup2(o, 1); dup2(e, 2); fcntl(1, F_SETFL, fcntl(1, F_GETFL) | O_APPEND); fcntl(2, F_SETFL, fcntl(2, F_GETFL) | O_APPEND); struct rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); l = {12ul << 30, 12ul << 30}; setrlimit(RLIMIT_AS, &l); alarm(20); if (chdir(dir.c_str())) _exit(99);
    vector<char*> av; av.push_back((char*)"oclgrind-kernel"); for (auto& x : opts) av.push_back((char*)x.c_str()); av.push_back((char*)"t.sim"); av.push_back(0); int r = kernel_runner_main(av.size() - 1, av.data()); std::cout.flush(); std::cerr.flush(); fflush(0); _exit(r);
  }
  Res r; waitpid(p, &r.status, 0); auto rd = [](int fd) { off_t n = lseek(fd, 0, SEEK_END); string s(n, 0); if (n && pread(fd, &s[0], n, 0) < 0) {} close(fd); return s; }; r.out = rd(o); r.err = rd(e); return r;
}
// ---- reference reader ----
struct Ty { const char* n; int size; char k; }; // k: i signed, u unsigned, f float
static const Ty TY[] = {{"char", 1, 'i'}, {"uchar", 1, 'u'}, {"short", 2, 'i'}, {"ushort", 2, 'u'}, {"int", 4, 'i'}, {"uint", 4, 'u'}, {"long", 8, 'i'}, {"ulong", 8, 'u'}, {"float", 4, 'f'}, {"double", 8, 'f'}};
static const Ty* ty(const string& n) { for (auto& t : TY) if (n == t.n) return &t; return 0; }
enum V { VALID, INVALID, EITHER }; // EITHER: whether it is accepted is not judged (values are, when known)
struct Val { V v = VALID; vector<uint8_t> b; };
static string put(const Ty* t, const uint8_t* p, bool hex)
{
  if (t->k == 'f') { std::ostringstream s; if (t->size == 4) { float f; memcpy(&f, p, 4); s << f; } else { double d; memcpy(&d, p, 8); s << d; } return s.str(); }
  uint64_t u = 0; memcpy(&u, p, t->size); if (hex) return fmt("0x%0*lx", t->size * 2, u); if (t->k == 'u') return std::to_string(u); int64_t s = t->size == 8 ? (int64_t)u : (int64_t)(u << (64 - 8 * t->size)) >> (64 - 8 * t->size); return std::to_string(s);
}
static Val num(const Ty* t, const string& s, bool hex)
{
  Val r; r.b.resize(t->size);
  if (t->k == 'f') { char* e; if (s.empty()) { r.v = INVALID; return r; } double d = t->size == 4 ? strtof(s.c_str(), &e) : strtod(s.c_str(), &e); bool word = isalpha(s[s[0] == '-' || s[0] == '+']) || s.find_first_of("xXpPnN") != string::npos; if (word) { r.v = INVALID; if (!*e) r.v = EITHER; return r; } if (*e) { r.v = e == s ? INVALID : strchr("+-.<", *e) ? EITHER : INVALID; return r; } if (std::isinf(d)) { r.v = INVALID; return r; } if (t->size == 4) { float f = d; memcpy(&r.b[0], &f, 4); if (d && std::abs(d) < 1.2e-38) r.v = EITHER; } else { memcpy(&r.b[0], &d, 8); if (d && std::abs(d) < 2.3e-308) r.v = EITHER; } return r; }
  size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; if (hex && s.size() > i + 2 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) i += 2;
  unsigned __int128 m = 0; size_t d0 = i; auto dig = [&](char c) { return hex ? isxdigit(c) : isdigit(c); }; for (; i < s.size() && dig(s[i]); i++) { m = m * (hex ? 16 : 10) + (isdigit(s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10); if (m >> 100) m = (unsigned __int128)1 << 100; }
  if (i == d0) { r.v = INVALID; return r; } if (i < s.size()) { r.v = strchr("+-<", s[i]) ? EITHER : INVALID; if (r.v == EITHER) r.b.clear(); return r; }
  if (s[0] == '+') r.v = EITHER; int bits = t->size * 8; unsigned __int128 top = (unsigned __int128)1 << bits;
  if (t->k == 'u') { if (m >= top) { r.v = INVALID; return r; } if (neg && m) { r.v = EITHER; m = top - m; } }
  else { if (m > (top >> 1) - (neg ? 0 : 1)) { r.v = hex && m < top && !neg ? EITHER : INVALID; if (r.v == INVALID) return r; } if (neg) m = top - m; if (neg && hex) r.v = EITHER; }
  uint64_t u = (uint64_t)m; memcpy(&r.b[0], &u, t->size); return r;
}
struct ArgD { string name, type; char space; int size; }; // space: g c l p ; type: element type name or "" when only an explicit one is allowed; size: by value
struct KernD { string file, name; vector<ArgD> a; bool uniform; };
struct Arg { vector<uint8_t> d; bool null = false, noinit = false, dump = false, hex = false; const Ty* t = 0; size_t size = 0; bool ro = false, wo = false; };
struct File { V v = VALID; string why; long g[3], l[3]; vector<Arg> a; };
static File readRef(const KernD& K, const string& text)
{
  File F; auto bad = [&](const string& w) { F.v = INVALID; F.why = w; return F; }; auto soft = [&](const string& w) { if (F.v == VALID) { F.v = EITHER; F.why = w; } };
  vector<string> lines; { string l; std::istringstream ss(text); while (getline(ss, l)) { size_t c = l.find('#'); lines.push_back(c == string::npos ? l : l.substr(0, c)); } } size_t li = 0, ci = 0;
  auto skip = [&]() { while (li < lines.size()) { while (ci < lines[li].size() && isspace(lines[li][ci])) ci++; if (ci < lines[li].size()) return true; li++; ci = 0; } return false; };
  auto tok = [&](string& t) { if (!skip()) return false; size_t b = ci; while (ci < lines[li].size() && !isspace(lines[li][ci])) ci++; t = lines[li].substr(b, ci - b); return true; };
  string t; if (!tok(t)) return bad("no program"); if (t != K.file) return bad("other program"); if (!tok(t)) return bad("no kernel"); if (t != K.name) return bad("other kernel");
  for (int i = 0; i < 6; i++) { if (!tok(t)) return bad("sizes end"); Val v = num(ty("long"), t, false); if (v.v == INVALID) return bad("size " + t); if (v.v == EITHER) { soft("size " + t); if (v.b.empty()) return F; } int64_t x; memcpy(&x, &v.b[0], 8); if (x <= 0) return bad("size " + t); (i < 3 ? F.g[i] : F.l[i - 3]) = x; }
  for (int i = 0; i < 3; i++) { if (F.g[i] > 64 || F.l[i] > 64) soft("large range"); if (F.g[i] % F.l[i]) { if (K.uniform) return bad("remainder"); } }
  for (auto& D : K.a)
  {
    Arg A; if (!skip()) return bad("missing argument"); if (lines[li][ci] != '<') return bad("no header"); string rest = lines[li].substr(ci + 1); size_t e = rest.find('>'); if (e == string::npos) return bad("no >"); if (rest.find('>', e + 1) != string::npos) { F.v = EITHER; F.why = "several > on a line"; return F; }
    if (e + 1 < rest.size() && !isspace(rest[e + 1])) soft("text glued to the header"); std::istringstream hs(rest.substr(0, e)); ci += e + 2; long size = -1; string fill, range, w; bool hasSize = false, nul = false; int inits = 0; bool gbuf = D.space == 'g' || D.space == 'c'; bool explicitType = false; map<string, int> seen;
    while (hs >> w)
    {
      if (ty(w)) { if (A.t) return bad("two types"); A.t = ty(w); explicitType = true; }
      else if (w == "dump") A.dump = true; else if (w == "hex") A.hex = true; else if (w == "noinit") { if (!gbuf) return bad("noinit"); A.noinit = true; inits += !seen[w]; } else if (w == "null") { if (!gbuf) return bad("null"); A.null = true; }
      else if (w == "ro") { if (A.wo) return bad("ro wo"); if (D.space != 'g') return bad("ro"); A.ro = true; } else if (w == "wo") { if (A.ro) return bad("ro wo"); if (D.space != 'g') return bad("wo"); A.wo = true; }
      else if (w.compare(0, 5, "fill=") == 0) { if (w.size() == 5) return bad("fill"); fill = w.substr(5); if (seen["fill"]) soft("fill twice"); else inits++; } else if (w.compare(0, 6, "range=") == 0) { if (w.size() == 6) return bad("range"); range = w.substr(6); if (seen["range"]) soft("range twice"); else inits++; }
      else if (w.compare(0, 5, "size=") == 0) { Val v = num(ty("ulong"), w.substr(5), false); if (v.v == INVALID || v.b.empty()) return bad("size"); if (v.v == EITHER) { if (w[5] == '-') return bad("negative size"); soft("size sign"); } uint64_t u; memcpy(&u, &v.b[0], 8); if (u > (1ul << 45)) return bad("huge size"); if (u > (1 << 20)) { F.v = EITHER; return F; } if (hasSize) soft("size twice"); size = u; hasSize = true; }
      else return bad("token " + w); string key = w.substr(0, w.find('=')); if (seen[key]++) soft("token twice");
    }
    nul = A.null; if (nul && (hasSize || !fill.empty() || !range.empty() || A.noinit || A.dump)) return bad("null with others"); if (!nul && !hasSize) return bad("no size"); if (nul) size = 0;
    if (!A.t) { if (D.type.empty()) return bad("no type"); A.t = ty(D.type); } if (size % A.t->size) return bad("size multiple"); if (A.dump && !gbuf) return bad("dump"); if (inits > 1) return bad("initialisers");
    A.size = size; F.a.push_back(A); Arg& B = F.a.back(); (void)explicitType;
    if (D.space == 'l') { if (inits) soft("local initialiser"); if (size == 0 || A.ro) soft("local"); continue; }
    if (nul || A.noinit) { if (A.noinit) B.d.assign(size, 0); if (size == 0 && !nul) soft("empty"); continue; }
    if (D.space == 'p' && size != D.size && !(D.name[0] == '3' && size * 4 == D.size * 3)) return bad("by-value size"); if (size == 0) soft("empty buffer");
    size_t n = size / A.t->size; auto push = [&](const Val& v) { if (v.v == EITHER) soft("value"); B.d.insert(B.d.end(), v.b.begin(), v.b.end()); };
    if (!fill.empty()) { Val v = num(A.t, fill, A.hex); if (v.v == INVALID) return bad("fill value"); if (v.b.empty()) return bad("fill value"); for (size_t i = 0; i < n; i++) push(v); if (!n) soft("empty"); }
    else if (!range.empty())
    {
      vector<string> p; std::istringstream rs(range); string x; while (getline(rs, x, ':')) p.push_back(x); if (p.size() != 3 || range.back() == ':') return bad("range"); Val v[3]; for (int i = 0; i < 3; i++) { v[i] = num(A.t, p[i], A.hex); if (v[i].v == INVALID || v[i].b.empty()) return bad("range value"); if (v[i].v == EITHER) soft("range value"); }
      bool wrapped = false; for (int i = 0; i < 3; i++) wrapped |= v[i].v == EITHER;
      if (A.t->k == 'f') { double d[3]; for (int i = 0; i < 3; i++) if (A.t->size == 4) { float f; memcpy(&f, &v[i].b[0], 4); d[i] = f; } else memcpy(&d[i], &v[i].b[0], 8); double c = (d[2] - d[0]) / d[1]; if (!(std::abs(c - std::round(c)) < 1e-6) || std::abs(c - (double)((long)n - 1)) > 1e-6) return bad("range length"); if (!n) { soft("range without values"); return F; } bool exact = true; for (size_t i = 0; i < n; i++) { double x = d[0] + i * d[1]; exact &= x * 1024 == std::floor(x * 1024); if (A.t->size == 4) { float f = x; uint8_t q[4]; memcpy(q, &f, 4); B.d.insert(B.d.end(), q, q + 4); } else { uint8_t q[8]; memcpy(q, &x, 8); B.d.insert(B.d.end(), q, q + 8); } } if (!exact) { soft("inexact range"); B.d.clear(); } }
      else if (wrapped) { soft("range of wrapped values"); B.d.clear(); }
      else { __int128 d[3]; for (int i = 0; i < 3; i++) { uint64_t u = 0; memcpy(&u, &v[i].b[0], A.t->size); int sh = 64 - 8 * A.t->size; d[i] = A.t->k == 'u' ? (__int128)u : (__int128)((int64_t)(u << sh) >> sh); } if (d[1] == 0) return bad("range step"); __int128 c = d[2] - d[0]; if (!n && d[1] && c % d[1] == 0 && c / d[1] == -1) { soft("range without values"); return F; } if (c % d[1] || c / d[1] + 1 != (__int128)n || c / d[1] < 0) return bad("range length"); if (A.t->size == 8 && (d[0] > (1l << 52) || d[2] > (1l << 52) || -d[0] > (1l << 52) || -d[2] > (1l << 52))) soft("range beyond double"); for (size_t i = 0; i < n; i++) { uint64_t u = (uint64_t)(d[0] + (__int128)i * d[1]); uint8_t q[8]; memcpy(q, &u, 8); B.d.insert(B.d.end(), q, q + A.t->size); } }
    }
    else for (size_t i = 0; i < n; i++) { if (!tok(t)) return bad("data end"); Val v = num(A.t, t, A.hex); if (v.v == INVALID) return bad("value " + t); if (v.b.empty()) { F.v = EITHER; F.why = "glued values"; B.d.clear(); return F; } push(v); }
  }
  if (skip()) return bad("extra input"); return F;
}
// ---- judging ----
typedef std::function<void(const File&, vector<vector<uint8_t>>&)> Sem; // changes the buffers as the kernel does
static string squeeze(const string& s) { string r, l; std::istringstream ss(s); while (getline(ss, l)) { size_t b = l.find_first_not_of(" "); if (b == string::npos) continue; r += l.substr(b) + "\n"; } return r; }
static long nval, ninv, neither;
static void judge(const KernD& K, const Sem& sem, const string& text, const string& key)
{
  File F = readRef(K, text); Res r = runFile(text); R->count("transitions"); R->count("traces_validated_against_impl"); string esc; for (char c : text) esc += c == '\n' ? "\\n" : string(1, c);
  auto fail = [&](const string& k, const string& m) { R->fail(k + ":" + key, R->curCase + " file \"" + esc + "\": " + m + " [stdout \"" + r.out.substr(0, 400) + "\" stderr \"" + r.err.substr(0, 300) + "\"]"); };
  if (!WIFEXITED(r.status)) { fail("crash", fmt("the runner was killed by signal %d", WTERMSIG(r.status))); return; }
  int rc = WEXITSTATUS(r.status); R->count(F.v == VALID ? "valid files" : F.v == INVALID ? "malformed files" : "unjudged files");
  if (F.v == INVALID) { if (rc == 0) fail("accepted", "malformed (" + F.why + ") but it was run"); else if (r.err.find_first_not_of(" \n") == string::npos) fail("silent", "malformed (" + F.why + "), rejected without a message"); else { for (unsigned char c : r.err) if (c >= 127 || (c < 32 && c != '\n' && c != '\t')) { fail("garbage", "the message contains garbage"); break; } if (r.out.find("Argument '") != string::npos) fail("accepted", "malformed but the kernel was run"); } return; }
  if (F.v == VALID && rc) { fail("rejected", fmt("valid file rejected with status %d", rc)); return; } if (rc) return; if (F.a.size() != K.a.size()) return;
  vector<vector<uint8_t>> b; bool unknown = false; for (size_t i = 0; i < F.a.size(); i++) { if (F.a[i].d.size() != F.a[i].size && K.a[i].space != 'l' && !F.a[i].null) unknown = true; b.push_back(F.a[i].d); } if (unknown || F.why.find("range") == 0 || F.why.find("twice") != string::npos) return;
  sem(F, b); string want; for (size_t i = 0; i < F.a.size(); i++) if (F.a[i].dump) { if (F.a[i].noinit && b[i].empty()) return; want += fmt("Argument '%s': %zu bytes\n", K.a[i].name.c_str() + (K.a[i].name[0] == '3'), F.a[i].size); const Ty* t = F.a[i].t; for (size_t j = 0; j * t->size < b[i].size(); j++) { want += fmt("%s[%zu] = ", K.a[i].name.c_str(), j); if (t->k == 'f' && F.a[i].hex) return; want += put(t, &b[i][j * t->size], F.a[i].hex) + "\n"; } }
  if (squeeze(r.out) != want) fail("dump", "expected dump \"" + want + "\""); else if (F.v == VALID && !r.err.empty() && (r.err.find("Invalid read of size") == string::npos || F.a[0].size)) fail("stderr", "messages for a correct run");
}
static void compileTo(const string& src, const string& file, const string& opts)
{
  cl_program p = cl->build(src, opts); size_t n; clGetProgramInfo(p, CL_PROGRAM_BINARY_SIZES, sizeof n, &n, 0); vector<unsigned char> b(n); unsigned char* q = &b[0]; clGetProgramInfo(p, CL_PROGRAM_BINARIES, sizeof q, &q, 0); FILE* f = fopen((dir + "/" + file).c_str(), "w"); fwrite(q, 1, n, f); fclose(f); clReleaseProgram(p);
}
template <class T> static T rd(const vector<uint8_t>& b, size_t i) { T t; memcpy(&t, &b[i * sizeof t], sizeof t); return t; }
template <class T> static void wr(vector<uint8_t>& b, size_t i, T t) { if ((i + 1) * sizeof t <= b.size()) memcpy(&b[i * sizeof t], &t, sizeof t); }
static void body(int argc, char** argv)
{
  bool T = R->thorough; stdEnv(argv[1], "1"); char d[] = "/tmp/vf_c24_XXXXXX"; dir = mkdtemp(d);
  vector<KernD> KT; Sem semT = [](const File& F, vector<vector<uint8_t>>& b) { int s = F.a[0].t ? b[2].size() : 0; auto cp = [&](size_t di, const vector<uint8_t>& src, size_t si) { if (src.size() >= (si + 1) * s && b[3].size() >= (di + 1) * s) memcpy(&b[3][di * s], &src[si * s], s); }; for (int i = 0; i < F.g[0]; i++) cp(i, b[0], i); cp(3, b[2], 0); for (int i = 0; i < 2; i++) cp(4 + i, b[1], i); };
  { CL C; cl = &C;
    for (auto& t : TY) { string n = t.n; KernD k{"k_" + n + ".bc", "k", {{"in", n, 'g', 8}, {"cn", n, 'c', 8}, {"s", n, 'p', t.size}, {"out", n, 'g', 8}}, true}; compileTo("#pragma OPENCL EXTENSION cl_khr_fp64 : enable\nkernel void k(global T *in, constant T *cn, T s, global T *out) { size_t i = get_global_id(0); out[i] = in[i]; if (i == 0) { out[3] = s; out[4] = cn[0]; out[5] = cn[1]; } }", k.file, "-DT=" + n); KT.push_back(k); }
    compileTo("typedef struct { int a; short b; char c; } S;\nkernel void k(int3 v, float4 w, S st, char c, ulong u, local int *l, global int *p, constant int *q, global int *out) { l[0] = v.x; l[1] = v.y; out[0] = l[0]; out[1] = l[1]; out[2] = v.z; out[3] = fabs(w.x) < 1e6f && fabs(w.w) < 1e6f ? (int)(w.x + w.w * 16) : 77; out[4] = st.a; out[5] = st.b; out[6] = st.c; out[7] = c; out[8] = (int)u; out[9] = p == 0; out[10] = q == 0; }", "mix.bc", "");
    compileTo("kernel void k(global int *out) { size_t i = get_global_id(0) + get_global_size(0) * (get_global_id(1) + get_global_size(1) * get_global_id(2)); out[0] = get_global_size(0); out[1] = get_global_size(1); out[2] = get_global_size(2); if (!i) { out[3] = get_local_size(0); out[4] = get_local_size(1); out[5] = get_local_size(2); } atomic_inc(out + 6); }\nkernel void other(global int *out) { out[0] = -1; }", "nd.bc", "");
    compileTo("kernel void k(global int *out) { atomic_inc(out); if (get_global_id(0) == 0) out[1] = get_local_size(0); }", "nd2.bc", "-cl-std=CL2.0");
    FILE* f = fopen((dir + "/src.cl").c_str(), "w"); fputs("// text program\nkernel void k(global int *in, global int *out)\n{\n  size_t i = get_global_id(0);\n  out[i] = in[i] * 2;\n}\n", f); fclose(f); f = fopen((dir + "/bad.cl").c_str(), "w"); fputs("kernel void k(global int *in { }\n", f); fclose(f); f = fopen((dir + "/bad.bc").c_str(), "w"); fputs("BC garbage", f); fclose(f); if (system(("mkdir " + dir + "/dir").c_str())) {} C.destroy(); }
  // values of every type, as literals, fills and by-value arguments, in both bases
  for (size_t ti = 0; ti < KT.size(); ti++) for (int hex = 0; hex < 2; hex++)
  {
    const Ty& t = TY[ti]; string h = hex ? " hex" : ""; string pre = KT[ti].file + "\nk\n3 1 1\n1 1 1\n";
    vector<string> vals = t.k == 'f' ? vector<string>{"0", "1", "-1", "2.5", "-0.125", "1e3", "1.5e-3", "1e38", "3.5e38", "-1e39", "1e308", "1e309", "1e-40", "1e-320", "nan", "inf", "x", "1.5x", "1..5", ".5", "5.", "1e", "0x10", "123456789"} : vector<string>{"0", "1", "-1", "7", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "010", "0x10", "1f", "FF", "7F", "FFFF", "7fff", "FFFFFFFF", "7fffffff", "ffffffffffffffff", "7fffffffffffffff", "+5", "x", "1x", "1.5", "--1", "0x", "1-2"};
    for (auto& v : vals) for (int pos = 0; pos < 5; pos++)
    {
      if (!R->begin(fmt("values/%s%s/%d/", t.n, hex ? ".hex" : "", pos) + v)) continue; string z = t.k == 'f' ? "1.25" : "5"; auto sz = [&](int n) { return "size=" + std::to_string(n * t.size); };
      string in = pos == 0 ? "<" + sz(3) + h + " dump>\n" + v + " " + z + " 6\n" : pos == 1 ? "<" + sz(3) + h + " dump>\n" + z + " 6 " + v + "\n" : pos == 3 ? "<" + sz(3) + h + " fill=" + v + " dump>\n" : "<" + sz(3) + " fill=3 dump>\n", cn = pos == 4 ? "<" + sz(2) + h + ">\n" + z + " " + v + "\n" : "<" + sz(2) + " " + t.n + " range=1:1:2 dump" + h + ">\n", s = pos == 2 ? "<" + sz(1) + h + ">" + " " + v + "\n" : "<" + sz(1) + ">\n9\n";
      judge(KT[ti], semT, pre + in + cn + s + "<" + sz(6) + " fill=0 dump" + h + ">\n", fmt("values-%s", t.n)); R->count("states");
    }
  }
  // ranges
  for (size_t ti = 0; ti < KT.size(); ti++)
  {
    const Ty& t = TY[ti]; vector<string> st = t.k == 'f' ? vector<string>{"0", "1", "-2", "0.5", "10"} : t.k == 'u' ? vector<string>{"0", "1", "10", t.size == 1 ? "250" : t.size == 2 ? "65530" : "4294967290"} : vector<string>{"0", "1", "-2", "10", t.size == 1 ? "-128" : t.size == 2 ? "-32768" : "-2147483648"}, inc = t.k == 'f' ? vector<string>{"1", "-1", "0.5", "0.25", "0", "0.1", "3"} : vector<string>{"1", "-1", "2", "3", "0", t.size == 1 ? "100" : t.size == 2 ? "20000" : "2000000000"}, en = t.k == 'f' ? vector<string>{"0", "1", "2", "-2", "3", "10", "7.5"} : vector<string>{"0", "1", "2", "3", "4", "-2", "10", "6", t.size == 1 ? "127" : t.size == 2 ? "32767" : "2147483647", t.size == 1 ? "72" : t.size == 2 ? "27232" : "1851516352", t.size == 1 ? "252" : t.size == 2 ? "65532" : "4294967292"};
    for (auto& a : st) for (auto& b : inc) if (R->begin(fmt("range/%s/%s/%s", t.n, a.c_str(), b.c_str()))) for (auto& c : en) for (int n = 0; n <= 4; n++) { judge(KT[ti], semT, KT[ti].file + fmt(" k %d 1 1 1 1 1\n<size=%d range=%s:%s:%s dump>\n<size=%d fill=4>\n<size=%d> 7\n<size=%d fill=0 dump>\n", std::min(std::max(n, 1), 3), n * t.size, a.c_str(), b.c_str(), c.c_str(), t.size * 2, t.size, t.size * 6), fmt("range-%s", t.n)); R->count("states"); }
    for (string r : {"1", "1:1", "1:1:3:5", ":1:3", "1::3", "1:1:", "a:1:3", "1:1:3x", "1,1,3", "::", "1:1:3:"}) if (R->begin(fmt("range/%s/", t.n) + r)) judge(KT[ti], semT, KT[ti].file + fmt(" k 3 1 1 1 1 1\n<size=%d range=%s dump>\n<size=%d fill=4>\n<size=%d> 7\n<size=%d fill=0 dump>\n", 3 * t.size, r.c_str(), t.size * 2, t.size, t.size * 6), fmt("range-%s", t.n));
  }
  // headers: every ordered selection of tokens
  {
    vector<string> tk = {"size=12", "int", "fill=3", "range=1:1:3", "noinit", "dump", "hex", "ro", "wo", "null", "size=8", "uint", "char", "dumpx", "size", "fill", "float"}; int maxd = T ? 5 : 4; vector<int> cur; string first;
    std::function<void()> rec = [&]() {
      string h; for (int i : cur) h += (h.empty() ? "" : " ") + tk[i]; bool data = h.find("fill=") == string::npos && h.find("range=") == string::npos && h.find("noinit") == string::npos && h.find("null") == string::npos; int sz = h.find("size=8") != string::npos ? 8 : 12, es = h.find("char") != string::npos ? 1 : 4; string dt; if (data) for (int i = 0; i < sz / es; i++) dt += fmt("%d ", 10 + i);
      Sem sm = [](const File& F, vector<vector<uint8_t>>& b) { if (F.a[0].null) b[1][0] = 1; else if (F.a[0].noinit) b[0].clear(); };
      judge({"hd.cl", "k", {{"in", "int", 'g', 8}, {"out", "int", 'g', 8}}, true}, sm, "hd.cl k 1 1 1 1 1 1\n<" + h + ">\n" + dt + "\n<size=4 fill=0 dump>\n", "header"); R->count("states");
      if ((int)cur.size() == maxd) return; for (size_t i = 0; i < tk.size(); i++) { bool used = false; for (int c : cur) used |= c == (int)i; if (used || (!T && cur.size() >= 2 && (i == 7 || i >= 11) && cur[0] > 2)) continue; cur.push_back(i); rec(); cur.pop_back(); }
    };
    { CL C; cl = &C; compileTo("kernel void k(global int *in, global int *out) { if (in == 0) out[0] = 1; }", "hd.cl", ""); C.destroy(); }
    for (size_t i = 0; i < tk.size(); i++) for (size_t j = 0; j < tk.size(); j++) if (i != j && R->begin("header/" + tk[i] + " " + tk[j])) { cur = {(int)i, (int)j}; if (j == 0 || (j == 1 && i == 0)) { auto c2 = cur; cur = {(int)i}; int m = maxd; maxd = 1; rec(); maxd = m; cur = c2; } rec(); }
    for (string h : {"", " ", "size=12 ", " size=12", " size=12  dump ", "\tsize=12\tdump\t", "size =12", "size= 12", "size=12 fill= 3", "SIZE=12", "size=12;dump", "size=0", "size=1", "size=-4", "size=+12", "size=0x10", "size=12x", "size=99999999999999999999", "size=18446744073709551615", "size=18446744073709551612", "size=100000000000000", "size=12 size=8", "<size=12>", "size=12>", "unsigned", "size=12 int4", "size=16 void", "size=12 fill=", "size=12 range="}) if (R->begin("headertext/" + h)) for (string dt : {"10 11 12", "10 11", "10 11 12 13", ""}) judge({"hd.cl", "k", {{"in", "int", 'g', 8}, {"out", "int", 'g', 8}}, true}, [](const File& F, vector<vector<uint8_t>>& b) { }, "hd.cl k 1 1 1 1 1 1\n<" + h + ">\n" + dt + "\n<size=4 fill=0 dump>\n", "headertext");
  }
  // single-token (thorough: pairs) corruptions of a file that uses everything
  {
    KernD K{"mix.bc", "k", {{"3", "int", 'p', 16}, {"w", "float", 'p', 16}, {"st", "", 'p', 8}, {"c", "char", 'p', 1}, {"u", "ulong", 'p', 8}, {"l", "int", 'l', 8}, {"p", "int", 'g', 8}, {"q", "int", 'c', 8}, {"out", "int", 'g', 8}}, true};
    Sem sm = [](const File& F, vector<vector<uint8_t>>& b) { auto& o = b[8]; wr<int>(o, 0, rd<int>(b[0], 0)); wr<int>(o, 1, rd<int>(b[0], 1)); wr<int>(o, 2, rd<int>(b[0], 2)); { float x = rd<float>(b[1], 0), w = rd<float>(b[1], 3); wr<int>(o, 3, std::abs(x) < 1e6f && std::abs(w) < 1e6f ? (int)(x + w * 16) : 77); } wr<int>(o, 4, rd<int>(b[2], 0)); wr<int>(o, 5, rd<short>(b[2], 2)); wr<int>(o, 6, (int8_t)b[2][6]); wr<int>(o, 7, (int8_t)b[3][0]); wr<int>(o, 8, (int)rd<uint64_t>(b[4], 0)); wr<int>(o, 9, F.a[6].null); wr<int>(o, 10, F.a[7].null); };
    vector<string> base = {"mix.bc", "\n", "k", "\n", "1", "1", "1", "\n", "1", "1", "1", "\n", "<", "size=12", ">", "\n", "4", "5", "6", "\n", "<", "size=16", "float", ">", "\n", "1.5", "2", "3", "0.25", "\n", "<", "size=8", "hex", "char", ">", "\n", "1", "2", "0", "0", "3", "4", "5", "7f", "\n", "<", "size=1", "fill=-3", ">", "\n", "<", "size=8", "range=7:1:7", ">", "\n", "<", "size=8", ">", "\n", "<", "null", ">", "\n", "<", "size=8", "range=1:1:2", "dump", ">", "\n", "<", "size=44", "fill=0", "dump", ">", "\n"};
    vector<string> sub = {"", "x", "-1", "0", "2", "1.5", "<", ">", "#", "size=4", "99999999999999999999", "null", "dump", "fill=1", "DUP", "\n"};
    auto join = [](const vector<string>& v) { string r; for (auto& x : v) r += x == "\n" ? "\n" : x == "<" || (!r.empty() && r.back() == '\n') ? x : x == ">" ? x : r.size() && r.back() == '<' ? x : " " + x; return r; };
    auto corrupt = [&](vector<string> v, size_t i, const string& s) { if (s == "DUP") v.insert(v.begin() + i, v[i]); else v[i] = s; return v; };
    if (R->begin("corrupt/none")) judge(K, sm, join(base), "corrupt");
    // unreadable private data would let the kernel access memory out of range: files whose by-value data are shortened are rejected before that
    for (size_t i = 0; i < base.size(); i++) if (R->begin(fmt("corrupt/%zu", i))) for (auto& s : sub) { auto v = corrupt(base, i, s); File F = readRef(K, join(v)); if (F.v == VALID && F.a.size() == 9 && (F.a[8].size < 44 || F.a[5].size < 8 || F.g[0] * F.g[1] * F.g[2] != 1)) continue; judge(K, sm, join(v), "corrupt"); R->count("states"); }
    if (T) for (size_t i = 0; i < base.size(); i++) for (size_t j = i + 1; j < base.size(); j++) if (R->begin(fmt("corrupt2/%zu/%zu", i, j))) for (auto& s : {string(""), string("x"), string("DUP")}) for (auto& s2 : {string(""), string("0"), string("<")}) { auto v = corrupt(corrupt(base, j, s2), i, s); File F = readRef(K, join(v)); if (F.v == VALID && F.a.size() == 9 && (F.a[8].size < 44 || F.a[5].size < 8 || F.g[0] * F.g[1] * F.g[2] != 1)) continue; judge(K, sm, join(v), "corrupt2"); R->count("states"); }
    for (auto& x : {pair<string, string>("w", "<size=4 float>\n1"), {"w", "<size=12 float>\n1 2 3"}, {"w", "<size=20 float fill=1>"}, {"3", "<size=16>\n1 2 3 4"}, {"3", "<size=8>\n1 2"}, {"3", "<size=4 fill=1>"}, {"3", "<size=0>"}, {"st", "<size=8 int>\n1 2"}, {"st", "<size=8>\n1 2"}, {"st", "<size=4 int>\n1"}, {"st", "<size=12 int>\n1 2 3"}, {"c", "<size=2>\n1 2"}, {"c", "<size=0>"}, {"u", "<size=8 int>\n1 0"}, {"u", "<size=4 int>\n1"}, {"u", "<size=16>\n1 2"}, {"u", "<size=8 double>\n0.5"}, {"c", "<size=1 noinit>"}, {"c", "<null>"}, {"l", "<null>"}, {"l", "<size=8 dump>"}, {"l", "<size=8 noinit>"}, {"l", "<size=6>"}, {"c", "<size=1 dump> 1"}, {"c", "<size=1 ro> 1"}, {"l", "<size=8 wo>"}, {"q", "<size=8 ro fill=1>"}, {"q", "<size=8 noinit>"}, {"q", "<null>"}, {"p", "<size=8 ro fill=1 dump>"}, {"p", "<size=8 wo range=3:2:5 dump>"}, {"p", "<size=8 short range=1:1:4 dump hex>"}})
      if (R->begin("argument/" + x.first + "/" + x.second)) { string f = "mix.bc k 1 1 1 1 1 1\n"; map<string, string> def = {{"3", "<size=12>\n4 5 6"}, {"w", "<size=16 float>\n1.5 2 3 0.25"}, {"st", "<size=8 hex char>\n1 2 0 0 3 4 5 7f"}, {"c", "<size=1 fill=-3>"}, {"u", "<size=8 range=7:1:7>"}, {"l", "<size=8>"}, {"p", "<null>"}, {"q", "<size=8 range=1:1:2 dump>"}, {"out", "<size=44 fill=0 dump>"}}; for (auto& a : K.a) f += (a.name == x.first ? x.second : def[a.name]) + "\n"; judge(K, sm, f, "argument"); R->count("states"); }
  }
  // the base and type of one argument do not affect the next one
  for (auto& t1 : TY) for (auto& t2 : TY) for (int hx = 0; hx < 4; hx++) if (R->begin(fmt("bases/%s/%s/%d", t1.n, t2.n, hx)))
  {
    judge({"hd.cl", "k", {{"in", "int", 'g', 8}, {"out", "int", 'g', 8}}, true}, [](const File&, vector<vector<uint8_t>>&) {}, fmt("hd.cl k 1 1 1 1 1 1\n<size=%d %s%s dump>\n10 11\n<%s%s size=%d dump>\n10 11\n", 2 * t1.size, t1.n, hx & 1 && t1.k != 'f' ? " hex" : "", t2.n, hx & 2 && t2.k != 'f' ? " hex" : "", 2 * t2.size), "bases"); R->count("states");
  }
  // access flags: every assignment to two buffers, with and without dumping them, and every use
  {
    CL C; cl = &C; compileTo("kernel void k(global int *x, global int *y, global int *z, int m) { if (m & 1) x[0] = 11; if (m & 2) y[0] = 12; if (m & 4) z[0] = x[1]; if (m & 8) z[1] = y[1]; }", "ac.bc", ""); C.destroy();
    const char* fl[] = {"", " ro", " wo"};
    for (int fx = 0; fx < 3; fx++) for (int fy = 0; fy < 3; fy++) for (int dp = 0; dp < 8; dp++) for (int m = 0; m < 16; m++)
    {
      if (!R->begin(fmt("access/%d/%d/%d/%d", fx, fy, dp, m))) continue; R->count("states"); R->count("transitions"); R->count("traces_validated_against_impl");
      string f = fmt("ac.bc k 1 1 1 1 1 1\n<size=8%s%s> 1 2\n<size=8%s%s> 3 4\n<size=8%s> 5 6\n<size=4> %d\n", dp & 1 ? " dump" : "", fl[fx], fl[fy], dp & 2 ? " dump" : "", dp & 4 ? " dump" : "", m);
      string g; for (size_t i = 0; i < f.size(); i++) { g += f[i]; if (f[i] == '>') g += '\n'; } Res r = runFile(g); string er, want; bool bad = false; int bw = 0, br = 0;
      int v[3][2] = {{1, 2}, {3, 4}, {5, 6}}; auto wrt = [&](int a, int flag, int val) { if (flag == 1) { bw++; v[a][0] = -1; } else v[a][0] = val; }; if (m & 1) wrt(0, fx, 11); if (m & 2) wrt(1, fy, 12); if (m & 4) { if (fx == 2) { br++; v[2][0] = -1; } else v[2][0] = 2; } if (m & 8) { if (fy == 2) { br++; v[2][1] = -1; } else v[2][1] = 4; }
      bad = bw || br; size_t p = 0; for (int a = 0; a < 3; a++) if (dp >> a & 1) { string h = fmt("Argument '%c': 8 bytes\n", "xyz"[a]); size_t q = r.out.find(h, p); if (q == string::npos) { er = fmt("buffer %c is not dumped in order", "xyz"[a]); break; } p = q + h.size(); for (int j = 0; j < 2; j++) if (v[a][j] >= 0 && er.empty()) { string w = fmt("%c[%d] = %d\n", "xyz"[a], j, v[a][j]); size_t e2 = r.out.find(w, p); if (e2 == string::npos) er = "expected " + w; } } else if (r.out.find(fmt("Argument '%c'", "xyz"[a])) != string::npos) er = fmt("buffer %c is dumped although that was not asked for", "xyz"[a]);
      if (er.empty() && r.status) er = "valid file rejected"; int nw = countOf(r.err, "read-only") , nr = countOf(r.err, "write-only"); if (er.empty() && (!bw != !nw || !br != !nr)) er = fmt("%d writes to read-only and %d reads of write-only buffers, reported: %d and %d", bw, br, nw, nr); if (er.empty() && !bad && !r.err.empty()) er = "messages for a correct run";
      if (!er.empty()) { string esc; for (char c : g) esc += c == '\n' ? "\\n" : string(1, c); R->fail("access:" + er.substr(0, 20), R->curCase + " file \"" + esc + "\": " + er + " [stdout \"" + r.out.substr(0, 300) + "\" stderr \"" + r.err.substr(0, 300) + "\"]"); }
    }
  }
  // layout: what separates the tokens, and how the file ends
  {
    KernD K{"k_int.bc", "k", KT[4].a, true}; vector<string> tk = {"k_int.bc", "k", "3", "1", "1", "1", "1", "1", "<size=12 dump>", "4", "5", "6", "<size=8>", "7", "8", "<size=4>", "9", "<size=24 fill=0 dump>"}, sep = {"\n", "\t", "  ", "\n\n", " # x < 5\n", "\n#\n", "\r\n"};
    auto ok = [&](size_t i, const string& s) { return s.find('\n') != string::npos || true; };
    for (size_t i = 0; i < tk.size(); i++) for (size_t j = i + 1; j <= tk.size(); j++) if (R->begin(fmt("layout/%zu/%zu", i, j))) for (auto& a : sep) for (auto& b : sep) { (void)ok; string f; for (size_t k = 0; k < tk.size(); k++) f += (k == 0 ? (i == 0 ? a : "") : k == i ? a : k == j ? b : tk[k][0] == '<' || tk[k - 1].back() == '>' ? "\n" : " ") + tk[k]; f += j == tk.size() ? b : "\n"; judge(K, semT, f, "layout"); R->count("states"); }
    for (size_t i = 0; i <= tk.size(); i++) for (string a : {" # a # b\n", "\n## 7\n", "\n# <size=4> # 1\n# 2 #\n", "\t#\n\t#\n"}) if (R->begin(fmt("comment/%zu/", i) + a)) { string f; for (size_t k = 0; k < tk.size(); k++) f += (k == i ? a : k == 0 ? "" : tk[k][0] == '<' || tk[k - 1].back() == '>' ? "\n" : " ") + tk[k]; f += i == tk.size() ? a : "\n"; judge(K, semT, f, "comment"); R->count("states"); }
    string base; for (size_t k = 0; k < tk.size(); k++) base += (k ? "\n" : "") + tk[k]; for (string e : {"", " ", "\n", "\n\n\n", "#", "\n# end", "\n  # end\n", " 1", "\n1", "\n1\n", "\nx", " x\n", "\n<size=4>\n1\n", "\n<", " >", "\n>\n", "0", "\n0\n", "\t\n"}) if (R->begin("end/" + e)) judge(K, semT, base + e, "end");
    string base2 = base.substr(0, base.rfind('<')) + "<size=24 dump>\n1 2 3 4 5 6"; for (string e : {"", " ", "\n", "# c", "\n# end\n", " 7", "\n7", "\n7\n", "x", ".5", "\nx"}) if (R->begin("end2/" + e)) judge(K, semT, base2 + e, "end");
  }
  // ranges and group sizes
  {
    auto nd = [&](const string& file, bool uni, const string& s) { KernD K{file, "k", {{"out", "int", 'g', 8}}, uni}; return K; };
    Sem s1 = [](const File& F, vector<vector<uint8_t>>& b) { for (int i = 0; i < 3; i++) wr<int>(b[0], i, F.g[i]), wr<int>(b[0], 3 + i, F.l[i]); wr<int>(b[0], 6, F.g[0] * F.g[1] * F.g[2]); }, s2 = [](const File& F, vector<vector<uint8_t>>& b) { wr<int>(b[0], 0, F.g[0] * F.g[1] * F.g[2]); wr<int>(b[0], 1, std::min(F.g[0], F.l[0])); };
    for (int a = 0; a <= 6; a++) for (int b = 0; b <= 3; b++) for (int c = 0; c <= 4; c++) for (int x = 0; x <= 3; x++) for (int y = 0; y <= 2; y++) for (int z = 0; z <= 3; z++) { if ((c > 2 || z > 2) && (a > 2 || b > 2 || x > 1 || y > 1)) continue; if ((a == 0) + (b == 0) + (c == 0) + (x == 0) + (y == 0) + (z == 0) > 1) continue; if (!R->begin(fmt("ndrange/%d.%d.%d/%d.%d.%d", a, b, c, x, y, z))) continue; string s = fmt("%d %d %d\n%d %d %d\n", a, b, c, x, y, z); judge(nd("nd.bc", true, ""), s1, "nd.bc\nk\n" + s + "<size=28 fill=0 dump>\n", "ndrange"); if (c <= 1 && z <= 1) judge(nd("nd2.bc", false, ""), s2, "nd2.bc\nk\n" + s + "<size=8 fill=0 dump>\n", "ndrange2"); R->count("states"); }
    for (string s : {"-1 1 1 1 1 1", "4 -1 1 1 1 1", "4 1 1 -2 1 1", "4 1 1 1 1", "4 1 1 1 1 1 1", "4.5 1 1 1 1 1", "0x4 1 1 1 1 1", "x 1 1 1 1 1", "99999999999999999999 1 1 1 1 1", "4 1 1 18446744073709551615 1 1", "18446744073709551612 1 1 1 1 1"}) if (R->begin("ndrangetext/" + s)) judge(nd("nd.bc", true, ""), s1, "nd.bc\nk\n" + s + "\n<size=28 fill=0 dump>\n", "ndrange");
    for (string p : {"nd.bc k", "nd.bc other", "nd.bc nosuch", "nosuch.bc k", "bad.cl k", "bad.bc k", "dir k", "nd.bc", "src.cl k", "", "k nd.bc", "t.sim k", "/ k", "nd.bc k k"}) if (R->begin("program/" + p)) { KernD K = p == "nd.bc other" ? KernD{"nd.bc", "other", {{"out", "int", 'g', 8}}, true} : p == "src.cl k" ? KernD{"src.cl", "k", {{"in", "int", 'g', 8}, {"out", "int", 'g', 8}}, true} : nd("nd.bc", true, ""); Sem sm = p == "nd.bc other" ? Sem([](const File& F, vector<vector<uint8_t>>& b) { wr<int>(b[0], 0, -1); }) : p == "src.cl k" ? Sem([](const File& F, vector<vector<uint8_t>>& b) { for (int i = 0; i < 4; i++) wr<int>(b[1], i, 2 * rd<int>(b[0], i)); }) : s1; judge(K, sm, p + "\n4 1 1\n1 1 1\n" + (p == "src.cl k" ? "<size=16 range=1:1:4>\n<size=16 fill=0 dump>\n" : "<size=28 fill=0 dump>\n"), "program"); }
    if (R->begin("globalmem")) { Res r = runFile("nd.bc k 2 1 1 1 1 1\n<size=28 fill=0>\n", {"-g"}); if (r.status || r.out.find("Global Memory") == string::npos || r.out.find(" 02 00 00 00") == string::npos || countOf(r.out, ":") < 7) R->fail("globalmem", R->curCase + " -g printed " + r.out); }
  }
  if (system(("rm -rf " + dir).c_str())) {}
}
VF_MAIN(body)
