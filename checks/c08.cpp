// C08: for every generated kernel and every assignment of "written"/"never written" to its inputs, the reports of the
// uninitialized-value detector must be those of a dependence model.
#include "vf.hpp"
#include <fstream>
using namespace vf; typedef vector<uint8_t> Bytes; typedef std::set<int> Set;
static string rep(string s, const string& a, const string& b) { for (size_t p = 0; (p = s.find(a, p)) != string::npos; p += b.size()) s.replace(p, a.size(), b); return s; }
static CL* cl; static Capture* cap;
static int sizeOf(const string& t) { return t == "char" || t == "uchar" ? 1 : t == "short" || t == "ushort" ? 2 : t == "int" || t == "uint" || t == "float" ? 4 : 8; }
struct Reports { std::map<size_t, int> wr; int local = 0, cf = 0, index = 0, addr = 0, other = 0; string text; int sinks() const { return cf + index + addr; } bool none() const { return wr.empty() && !sinks() && !other; } };
static Reports reports()
{
  Reports r; r.text = cap->get(); std::stringstream f(r.text); string l;
  while (std::getline(f, l))
  {
    size_t p; if (l.empty() || l[0] == '\t') continue;
    if ((p = l.find("Uninitialized value written to global memory address ")) != string::npos) r.wr[strtoul(l.c_str() + p + 53, 0, 16)]++;
    else if (l.find("Uninitialized value written to") != string::npos) r.local++;
    else if (l.find("Controlflow depends") != string::npos) r.cf++; else if (l.find("uninitialized index") != string::npos) r.index++; else if (l.find("Uninitialized address") != string::npos) r.addr++;
    else r.other++;
  }
  return r;
}
static string show(const Set& s) { string r = "{"; for (int x : s) r += fmt(r.size() > 1 ? ",%d" : "%d", x); return r + "}"; }
static string slurp(const string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
// buffer of n elements of which those in mask were written
static void val(const string& t, int i, uint8_t* p)
{
  if (t == "float") { float f = i + 1.5f; memcpy(p, &f, 4); } else if (t == "double") { double f = i + 1.5; memcpy(p, &f, 8); } else { long v = i + 1; memcpy(p, &v, sizeOf(t)); }
}
static std::map<string, cl_mem> pool;
static cl_mem input(const string& t, int n, unsigned dirty)
{
  string key = t + fmt("/%d/%u", n, dirty); if (pool.count(key)) return pool[key];
  int es = sizeOf(t); cl_int e; cl_mem m; int cap_ = n == 3 ? 4 : n; Bytes d(es * cap_); for (int i = 0; i < cap_; i++) val(t, i, &d[i * es]);
  if (!dirty) m = cl->buf(d.size(), d.data());
  else { m = clCreateBuffer(cl->ctx, 0, d.size(), 0, &e); CK(e); for (int i = 0; i < cap_; i++) if (!(dirty >> i & 1)) cl->write(m, &d[i * es], es, i * es); }
  return pool[key] = m;
}
static cl_mem outBuf; static size_t outAddr;
static string K; // accumulated program text
struct Op { string name, res; vector<string> in; string expr; string mode; int n; std::function<Set(const vector<unsigned>&)> f; };
static vector<Op> ops;
static bool isVec(const string& t) { return t.find('$') != string::npos; }
static void op(const string& name, const string& res, vector<string> in, const string& expr, const string& mode = "L", vector<int> widths = {1, 2, 3, 4})
{
  for (int n : widths) { Op o{name, res, in, expr, mode, n, nullptr}; ops.push_back(o); }
}
static string width(const string& t, int n) { return rep(t, "$", n == 1 ? "" : fmt("%d", n)); }
static string base(const string& t) { return rep(t, "$", ""); }
static const char* LANE = "0123456789abcdef";

static void table()
{
  for (string t : {"int", "float", "uchar", "long", "double", "ushort"})
  {
    bool fl = t == "float" || t == "double"; string v = t + "$", r = fl ? (t == "float" ? "int$" : "long$") : (t == "uchar" ? "char$" : t == "ushort" ? "short$" : t + "$");
    op("copy." + t, v, {v}, "a"); op("neg." + t, v, {v}, "-a"); op("add." + t, v, {v, v}, "a+b"); op("sub." + t, v, {v, v}, "a-b"); op("mul." + t, v, {v, v}, "a*b");
    op("div." + t, v, {v, v}, fl ? "a/b" : "a/(b|(" + v + ")1)"); op("addc." + t, v, {v}, fl ? "a+(" + t + ")0.5f" : "a+(" + v + ")5"); op("scal." + t, v, {v, t}, "a*b");
    op("lt." + t, r, {v, v}, "a<b", "L", {2, 4}); op("lt1." + t, "int", {v, v}, "a<b", "L", {1}); op("tern." + t, v, {v, v, r}, "c!=(" + r + ")0?a:b", "selA", {2, 3});
    op("min." + t, v, {v, v}, fl ? "fmin(a,b)" : "min(a,b)"); op("clamp." + t, v, {v, v, v}, "clamp(a,b,c)", "L", {1, 2, 3});
    for (string u : {"int", "float", "uchar", "long", "double", "ushort"}) { op("cvt." + u + "." + t, u + "$", {v}, "convert_" + u + "$(a)", "L", {1, 2, 3, 4}); }
    if (!fl)
    {
      op("rem." + t, v, {v, v}, "a%(b|(" + v + ")1)"); op("xor." + t, v, {v, v}, "a^b"); op("or." + t, v, {v, v}, "a|b"); op("not." + t, v, {v}, "~a");
      op("shl." + t, v, {v, v}, "a<<(b&(" + v + ")3)", "shift"); op("shr." + t, v, {v, v}, "a>>(b&(" + v + ")3)", "shift"); op("shlc." + t, v, {v}, "a<<(" + v + ")2", "L"); op("shrc." + t, v, {v}, "a>>(" + v + ")2", "L");
      op("abs." + t, base(v).substr(0, 1) == "u" ? v : "u" + v, {v}, "abs(a)"); op("add_sat." + t, v, {v, v}, "add_sat(a,b)"); op("hadd." + t, v, {v, v}, "hadd(a,b)"); op("rotate." + t, v, {v, v}, "rotate(a,b)"); op("popcount." + t, v, {v}, "popcount(a)"); op("clz." + t, v, {v}, "clz(a)"); op("mul_hi." + t, v, {v, v}, "mul_hi(a,b)"); op("mad_sat." + t, v, {v, v, v}, "mad_sat(a,b,c)", "L", {1, 2});
    }
    else
    {
      for (string f : {"sqrt", "fabs", "floor", "sin", "exp", "log2", "rint", "trunc", "rsqrt", "cbrt", "sinpi", "sign", "degrees", "radians", "erf", "logb"}) op(f + "." + t, v, {v}, f + "(a)", "L", {1, 2, 3});
      for (string f : {"pow", "fmod", "atan2", "copysign", "fdim", "hypot", "maxmag", "nextafter", "remainder", "fmax", "step"}) op(f + "." + t, v, {v, v}, f + "(a,b)", "L", {1, 2, 3});
      for (string f : {"fma", "mad", "mix", "smoothstep"}) op(f + "." + t, v, {v, v, v}, f + "(a,b,c)", "L", {1, 2});
      op("ilogb." + t, "int$", {v}, "ilogb(a)"); op("ldexp." + t, v, {v, "int$"}, "ldexp(a,b)"); op("pown." + t, v, {v, "int$"}, "pown(a,b)"); op("isnan." + t, r, {v}, "isnan(a)", "L", {2, 4}); op("isless." + t, r, {v, v}, "isless(a,b)", "L", {2, 4}); op("signbit." + t, r, {v}, "signbit(a)", "L", {2, 4}); op("maxs." + t, v, {v, t}, "max(a,b)", "L", {2, 3});
      op("dot." + t, t, {v, v}, "dot(a,b)", "A", {2, 3, 4}); op("length." + t, t, {v}, "length(a)", "A", {2, 3, 4}); op("distance." + t, t, {v, v}, "distance(a,b)", "A", {2, 3}); op("normalize." + t, v, {v}, "normalize(a)", "A", {2, 3, 4});
    }
    op("bitselect." + t, v, {v, v, v}, "bitselect(a,b,c)", "L", {1, 2}); op("select." + t, v, {v, v, r}, "select(a,b,c)", "selB", {1, 2});
    op("swz." + t, v, {v}, "a.yx", "rev", {2}); op("swz4." + t, v, {v}, "a.wzyx", "rev", {4}); op("swz8." + t, v, {v}, "a.s76543210", "rev", {8}); op("swz16." + t, v, {v}, "a.sfedcba9876543210", "rev", {16}); op("id16." + t, v, {v}, "a", "L", {8, 16});
    op("cat." + t, t + "4", {v, v}, "(" + t + "4)(a,b)", "cat", {2}); op("lit." + t, v, {v, t}, "(" + v + ")(b,a.y,a.x,b)", "lit", {4}); op("lo." + t, t + "2", {v}, "a.lo", "lo", {4}); op("even." + t, t + "2", {v}, "a.even", "even", {4}); op("ins." + t, v, {v, t}, "({" + v + " x=a;x.z=b;x;})", "ins", {4});
    string mk = t == "uchar" ? "uchar" : t == "ushort" ? "ushort" : t == "int" || t == "float" ? "uint" : "ulong";
    op("shuffle." + t, v, {v}, "shuffle(a,(" + mk + "4)(2,3,0,5))", "shuf", {4}); op("shuffle2." + t, v, {v, v}, "shuffle2(a,b,(" + mk + "4)(2,4,7,1))", "shuf2", {4}); op("shufm." + t, v, {v, mk + "$"}, "shuffle(a,b&(" + mk + "4)1)", "shufm", {4});
    op("dynidx." + t, t, {v}, "a[n&3]", "dyn", {4});
  }
  op("as.int.float", "float$", {"int$"}, "as_float$(a)"); op("as.double.long", "long$", {"double$"}, "as_long$(a)"); op("as.uchar4.int", "int", {"uchar$"}, "as_int(a)", "A", {4}); op("as.int.uchar4", "uchar4", {"int$"}, "as_uchar4(a)", "A", {1}); op("as.int2.ushort4", "ushort4", {"int$"}, "as_ushort4(a)", "half2", {2}); op("as.ushort4.int2", "int2", {"ushort$"}, "as_int2(a)", "pair2", {4});
  op("mulhi.trunc", "uchar$", {"int$"}, "convert_uchar$(a>>8)"); op("upsample", "ushort$", {"uchar$", "uchar$"}, "upsample(a,b)"); op("mad24", "int$", {"int$", "int$", "int$"}, "mad24(a,b,c)", "L", {1, 2}); op("any", "int", {"int$"}, "any(a)", "A", {2, 3, 4}); op("all", "int", {"int$"}, "all(a|(int$)(1<<31))", "A", {2, 3, 4});
  op("cross3", "float$", {"float$", "float$"}, "cross(a,b)", "cross", {3}); op("cross4", "float$", {"float$", "float$"}, "cross(a,b)", "cross", {4});
  op("sat", "uchar$", {"int$"}, "convert_uchar$_sat(a)"); op("rte", "int$", {"float$"}, "convert_int$_rte(a)"); op("logic", "int", {"int", "int"}, "(a>0)+(b>0)", "A", {1}); op("ptrdiff", "long", {"int", "int"}, "((global int*)out+(a&3))-((global int*)out+(b&3))", "A", {1});
}
// lanes of the result that depend on never-written lanes; masks per input
static Set model(const Op& o, const vector<unsigned>& m)
{
  Set r; int n = o.n; auto bit = [&](int i, int l) { return m[i] >> (isVec(o.in[i]) ? l : 0) & 1; }; bool any = false; for (auto x : m) any |= x & ((1u << n) - 1);
  const string& M = o.mode; int ro = isVec(o.res) ? n : (isdigit(o.res.back()) ? o.res.back() - '0' : 1);
  for (int l = 0; l < ro; l++)
  {
    bool d = false;
    if (M == "L" || M == "shift") for (size_t i = 0; i < m.size(); i++) d |= bit(i, l);
    else if (M == "A") d = any;
    else if (M == "selA") { d = bit(2, l) || bit(0, l); if (!bit(2, l)) d = bit(0, l); }
    else if (M == "selB") d = bit(2, l) || bit(n == 1 ? 1 : 0, l);
    else if (M == "rev") d = bit(0, n - 1 - l);
    else if (M == "cat") d = l < 2 ? bit(0, l) : bit(1, l - 2);
    else if (M == "lit") d = l == 0 || l == 3 ? bit(1, 0) : l == 1 ? bit(0, 1) : bit(0, 0);
    else if (M == "lo") d = bit(0, l); else if (M == "even") d = bit(0, 2 * l); else if (M == "ins") d = l == 2 ? bit(1, 0) : bit(0, l);
    else if (M == "shuf") { int s[4] = {2, 3, 0, 1}; d = bit(0, s[l]); }
    else if (M == "shuf2") { int s[4] = {2, 4, 7, 1}; d = s[l] < 4 ? bit(0, s[l]) : bit(1, s[l] - 4); }
    else if (M == "shufm") d = bit(0, (l + 1) & 1) || bit(1, l);
    else if (M == "dyn") d = bit(0, 2);
    else if (M == "half2") d = bit(0, l / 2); else if (M == "pair2") d = bit(0, 2 * l) || bit(0, 2 * l + 1);
    else if (M == "cross") { for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) if (l < 3 && j != l) d |= bit(i, j); }
    else R->internal("mode " + M);
    if (d) r.insert(l);
  }
  return r;
}
static vector<vector<unsigned>> patterns(const Op& o)
{
  vector<vector<unsigned>> out; vector<int> w; int tot = 0; for (auto& t : o.in) { w.push_back(isVec(t) ? o.n : 1); tot += w.back(); }
  auto split = [&](unsigned m) { vector<unsigned> v; for (int x : w) { v.push_back(m & ((1u << x) - 1)); m >>= x; } return v; };
  if (tot <= (R->thorough ? 9 : 6)) for (unsigned m = 0; m < 1u << tot; m++) out.push_back(split(m));
  else { unsigned all = (1u << tot) - 1; for (unsigned m : {0u, all}) out.push_back(split(m)); for (int i = 0; i < tot; i++) { out.push_back(split(1u << i)); out.push_back(split(all ^ 1u << i)); } }
  return out;
}
static string cls(const string& n) { return n.substr(0, n.find('.')); }
static void dataflow()
{
  table(); const size_t B = 50;
  // three forms of the same operation: on values loaded directly, on values kept in private memory, inside a function
  for (int form = 0; form < 3; form++) for (size_t b = 0; b < ops.size(); b += B)
  {
    bool want = false; string src; cl_program pr = 0;
    for (size_t i = b; i < std::min(ops.size(), b + B); i++)
    {
      Op& o = ops[i]; if (form && !R->thorough && o.n != 1 && o.n != 2 && o.mode == "L") continue; string res = width(o.res, o.n), par, ld, fp, fa; 
      for (size_t j = 0; j < o.in.size(); j++)
      {
        string t = width(o.in[j], o.n), v(1, 'a' + j); par += "global " + t + "* p" + v + ",";
        ld += form == 1 ? "volatile " + t + " q" + v + "=*p" + v + ";" + t + " " + v + "=q" + v + ";" : t + " " + v + "=*p" + v + ";"; fp += t + " " + v + ","; fa += v + ",";
      }
      int ro = isVec(o.res) ? o.n : (isdigit(res.back()) ? res.back() - '0' : 1); string rb = base(o.res); while (isdigit(rb.back())) rb.pop_back();
      string st; for (int l = 0; l < ro; l++) st += ro == 1 ? "o[0]=r;" : fmt("o[%d]=r.s%c;", l, LANE[l]);
      string ex = width(o.expr, o.n);
      if (form == 2) src += "__attribute__((noinline)) " + res + fmt(" f%zu(", i) + fp + "int n,global void* out){return " + ex + ";}\n";
      src += fmt("kernel void k%zu(", i) + par + "global void* out,int n){volatile global " + rb + "* o=out;" + ld + res + " r=" + (form == 2 ? fmt("f%zu(", i) + fa + "n,out)" : ex) + ";" + st + "}\n";
    }
    for (size_t i = b; i < std::min(ops.size(), b + B); i++)
    {
      Op& o = ops[i]; if (form && !R->thorough && o.n != 1 && o.n != 2 && o.mode == "L") continue; cl_kernel k = 0;
      string rb = base(o.res); while (isdigit(rb.back())) rb.pop_back(); int es = sizeOf(rb);
      for (auto& m : patterns(o))
      {
        string id = fmt("op%d:%s:%d:", form, o.name.c_str(), o.n); for (auto x : m) id += fmt("%x,", x);
        if (!R->begin(id)) continue; R->count("traces_validated_against_impl"); R->count("transitions", m.size());
        if (!pr) { pr = cl->build(src, "-cl-std=CL1.2"); } if (!k) { if (getenv("VF_DUMP")) { FILE* f = fopen(getenv("VF_DUMP"), "w"); fputs(src.c_str(), f); fclose(f); } k = cl->kernel(pr, fmt("k%zu", i).c_str()); }
        int a = 0; for (size_t j = 0; j < m.size(); j++) { cl_mem x = input(base(o.in[j]), isVec(o.in[j]) ? o.n : 1, m[j]); CK(clSetKernelArg(k, a++, sizeof x, &x)); } CK(clSetKernelArg(k, a++, sizeof outBuf, &outBuf)); cl_int n = 2; CK(clSetKernelArg(k, a++, 4, &n));
        cap->clear(); int e = cl->launch1(k, 1, 1); Reports r = reports(); Set want = model(o, m), got; for (auto& x : r.wr) got.insert((x.first - outAddr) / es);
        string er; if (e) er = fmt("kernel not run (%d)", e); else if (r.other) er = "unexpected message: " + r.text.substr(0, 300); else if (r.sinks()) er = "use reported although the values only reach memory: " + r.text.substr(0, 200);
        else for (int l : want) if (!got.count(l)) { er = fmt("element %d depends on data that was never written but is not reported", l); break; }
        if (er.empty()) for (int l : got) if (!want.count(l)) { er = fmt("element %d is reported but only depends on written data", l); break; }
        if (!er.empty()) R->fail(fmt("op:%s%s:%s", cls(o.name).c_str(), o.n > 1 ? ":vec" : "", er.substr(0, 3) == "ele" ? (er.find("not reported") != string::npos ? "missed" : "spurious") : er.substr(0, 30).c_str()), id + " " + width(o.expr, o.n) + ": " + er + "; expected " + show(want));
      }
      if (k) clReleaseKernel(k);
    }
    if (pr) clReleaseProgram(pr);
  }
}

// ---- hand-written kernels over int* p (4 elements) and int* q (4 clean elements); out elements reported as fn says; -1: any use
struct Prog { string name, src; int G, L; std::function<Set(unsigned)> f; };
static vector<Prog> progs()
{
  vector<Prog> v; auto id = [](unsigned m) { Set s; for (int i = 0; i < 4; i++) if (m >> i & 1) s.insert(i); return s; };
  auto add = [&](const string& n, const string& pre, const string& body, std::function<Set(unsigned)> f, int G = 1, int L = 1) { v.push_back({n, pre + "\nkernel void " + n + "(global int* p,global int* q,volatile global int* o,local int* l,int two){" + body + "}\n", G, L, f}); };
  string all = "for(int i=0;i<4;i++)o[i]=";
  auto perm = [](vector<int> p) { return [p](unsigned m) { Set s; for (int i = 0; i < (int)p.size(); i++) if (p[i] >= 0 && (m >> p[i] & 1)) s.insert(i); return s; }; };
  auto any = [](vector<int> bits) { return [bits](unsigned m) { Set s; for (int b : bits) if (m >> b & 1) s.insert(-1); return s; }; };
  add("parr", "", "volatile int a[4];for(int i=0;i<4;i++)a[i]=p[i];" + all + "a[i];", id);
  add("prev", "", "volatile int a[4];for(int i=0;i<4;i++)a[3-i]=p[i];" + all + "a[i];", perm({3, 2, 1, 0}));
  add("pun", "", "volatile int a[4];for(int i=0;i<2;i++)a[i]=q[i];" + all + "a[i];", [](unsigned) { return Set{2, 3}; });
  add("pinit", "", "volatile int a[4]={1,2};a[two]=p[0];" + all + "a[i];", perm({-1, -1, 0, -1}));
  add("pover", "", "volatile int a[4];a[0]=p[0];a[1]=p[1];a[0]=q[0];a[2]=p[2];a[3]=a[1];" + all + "a[i];", perm({-1, 1, 2, 1}));
  add("larr", "", "for(int i=0;i<4;i++)l[i]=p[i];" + all + "l[i];", id);
  add("lun", "", "l[1]=q[1];l[3]=p[3];" + all + "l[i];", [](unsigned m) { Set s{0, 2}; if (m & 8) s.insert(3); return s; });
  add("lvar", "", "local int s[4];s[two]=p[0];" + all + "s[i];", [](unsigned m) { Set s{0, 1, 3}; if (m & 1) s.insert(2); return s; });
  add("lex", "", "int i=get_local_id(0);l[i]=p[i];barrier(CLK_LOCAL_MEM_FENCE);o[get_global_id(0)]=l[3-i];", perm({3, 2, 1, 0}), 4, 4);
  add("lgrp", "", "int i=get_global_id(0);l[get_local_id(0)]=p[i];barrier(CLK_LOCAL_MEM_FENCE);o[i]=l[get_local_id(0)^1];", perm({1, 0, 3, 2}), 4, 2);
  add("lgrp2", "", "int i=get_global_id(0);if(get_group_id(0)==0)l[get_local_id(0)]=q[i];barrier(CLK_LOCAL_MEM_FENCE);o[i]=l[get_local_id(0)];", [](unsigned) { return Set{2, 3}; }, 4, 2);
  add("st", "struct S{int x,y,z,w;};", "volatile struct S s;s.x=p[0];s.z=p[2];s.y=p[1];s.w=q[3];struct S t=s;o[0]=t.x;o[1]=t.y;o[2]=t.z;o[3]=t.w;", perm({0, 1, 2, -1}));
  add("spad", "struct P{char a;int b;char c;long d;};__attribute__((noinline)) void fpad(struct P* x,global int* p){x->a=p[0];x->b=p[1];x->c=p[2];x->d=p[3];}", "struct P s;fpad(&s,p);struct P t=s;o[0]=t.a;o[1]=t.b;o[2]=t.c;o[3]=t.d;", id);
  add("byval", "struct S4{int x[4];};__attribute__((noinline)) int fby(struct S4 s,int i){s.x[i]=s.x[3-i];return s.x[i];}", "struct S4 s;for(int i=0;i<4;i++)s.x[i]=p[i];" + all + "fby(s,i);", perm({3, 2, 1, 0}));
  add("sret", "struct S5{int x[4];};__attribute__((noinline)) struct S5 fsr(global int* p){struct S5 s;for(int i=0;i<4;i++)s.x[i]=p[3-i];return s;}", "struct S5 s=fsr(p);" + all + "s.x[i];", perm({3, 2, 1, 0}));
  add("fret", "__attribute__((noinline)) int fr(int x,int y){return x+1;}__attribute__((noinline)) int fr2(int x,int y){return fr(y,x);}", "o[0]=fr(p[0],q[0]);o[1]=fr2(q[1],p[1]);o[2]=fr2(p[2],q[2]);o[3]=q[3];", perm({0, 1, -1, -1}));
  add("fvec", "__attribute__((noinline)) int4 fv(int4 x,int y){return (int4)(x.yx,y,x.w);}", "int4 r=fv(*(global int4*)p,q[0]);o[0]=r.x;o[1]=r.y;o[2]=r.z;o[3]=r.w;", perm({1, 0, -1, 3}));
  add("fptr", "__attribute__((noinline)) void fp(int* a,int v){*a=v;}", "int a[4];for(int i=0;i<4;i++)fp(&a[3-i],p[i]);" + all + "a[i];", perm({3, 2, 1, 0}));
  add("funinit", "__attribute__((noinline)) int fu(int i,int v){volatile int x;if(i>1)x=v;return x;}", all + "fu(i,q[i]);", [](unsigned) { return Set{0, 1}; });
  add("frame", "__attribute__((noinline)) int fc(int v){volatile int x=v;return x;}__attribute__((noinline)) int fd(){volatile int x;return x;}", "o[0]=fc(q[0]);o[1]=fd();o[2]=fc(p[2]);o[3]=fd();", [](unsigned m) { Set s{1, 3}; if (m & 4) s.insert(2); return s; });
  add("phiswap", "", "int a=p[0],b=p[1],c=p[2];for(int i=0;i<two+1;i++){int t=a;a=b;b=t;}o[0]=a;o[1]=b;o[2]=c;o[3]=0;", perm({1, 0, 2, -1}));
  add("phirot", "", "int a=p[0],b=p[1],c=p[2],d=p[3];for(int i=0;i<two;i++){int t=a;a=b;b=c;c=d;d=t;}o[0]=a;o[1]=b;o[2]=c;o[3]=d;", perm({2, 3, 0, 1}));
  add("phidelay", "", "int a=q[0],b=q[1];for(int i=0;i<two;i++){b=a;a=p[i];}o[0]=a;o[1]=b;o[2]=q[0];o[3]=q[0];", perm({1, 0, -1, -1}));
  add("acc", "", "int a=0;for(int i=0;i<4;i++){a+=p[i];o[i]=a;}", [](unsigned m) { Set s; for (int i = 0; i < 4; i++) if (m & ((2u << i) - 1)) s.insert(i); return s; });
  add("csel", "", all + "two>1?p[i]:q[i];", id); add("csel2", "", all + "two>5?p[i]:q[i];", [](unsigned) { return Set(); });
  add("ctab", "constant int tab[4]={5,6,7,8};", all + "tab[i]+q[i];", [](unsigned) { return Set(); });
  add("gcopy", "", "for(int i=0;i<4;i++)o[i+4]=p[i];" + all + "o[i+4];", [](unsigned m) { Set s; for (int i = 0; i < 4; i++) if (m >> i & 1) { s.insert(i); s.insert(i + 4); } return s; });
  add("v4", "", "*(volatile global int4*)(o+4)=*(global int4*)p;" + all + "o[i+4];", [](unsigned m) { Set s; for (int i = 0; i < 4; i++) if (m >> i & 1) { s.insert(i); s.insert(4); } return s; });
  add("vl", "", "int3 r=vload3(0,p);o[0]=r.x;o[1]=r.y;o[2]=r.z;int2 w=vload2(1,p);o[3]=w.y;", id);
  add("vl4", "", "int4 r=vload4(0,p);o[0]=r.w;o[1]=r.y;o[2]=r.z;o[3]=r.x;", perm({3, 1, 2, 0}));
  add("vs", "", "int a[6];vstore3(vload3(0,p),0,a);vstore3(vload3(0,q),1,a);o[0]=a[two-2];o[1]=a[two-1];o[2]=a[two];o[3]=a[two+1];", perm({0, 1, 2, -1}));
  add("vsg", "", "vstore4(vload4(0,p),1,(global int*)o);" + all + "o[i+4];", [](unsigned m) { Set s; for (int i = 0; i < 4; i++) if (m >> i & 1) { s.insert(i); s.insert(4); } return s; });
  add("halfld", "", "float2 r=vload_half2(0,(global half*)p);o[0]=r.x;o[1]=r.y;float s=vload_half(4,(global half*)p);o[2]=s;o[3]=0;", [](unsigned m) { Set s; if (m & 1) { s.insert(0); s.insert(1); } if (m & 4) s.insert(2); return s; });
  add("halfld3", "", "float3 r=vloada_half3(1,(global half*)p);o[0]=r.x;o[1]=r.y;o[2]=r.z;o[3]=0;", [](unsigned m) { Set s; if (m & 4) { s.insert(0); s.insert(1); } if (m & 8) s.insert(2); return s; });
  add("halfst", "", "float4 r=convert_float4(*(global int4*)p);int hb[2]={0,0};__private half* h=(__private half*)(__private int*)hb;vstore_half4(r,0,h);o[0]=((short*)h)[two-2];o[1]=((short*)h)[two-1];o[2]=((short*)h)[two];o[3]=((short*)h)[two+1];", id);
  add("uni", "union U{int i;char c[4];};", "union U u;u.i=p[0];volatile union U w=u;o[0]=w.c[0];o[1]=w.c[3];o[2]=q[0];o[3]=q[0];", perm({0, 0, -1, -1}));
  add("bytes", "", "volatile int x=q[0];((volatile char*)&x)[1]=p[0];o[0]=x;o[1]=((volatile char*)&x)[0];o[2]=((volatile char*)&x)[1];o[3]=q[0];", perm({0, -1, 0, -1}));
  add("cast", "", "long a=p[0];o[0]=(int)(a>>32);o[1]=(int)((ulong)(uint)p[1]>>8);o[2]=(int)(short)p[2];o[3]=(uchar)p[3];", id);
  add("memset", "struct M{int x[16];};__attribute__((noinline)) void fm(struct M* m,int i,int v){m->x[i]=v;}", "struct M m={{0}};fm(&m,two,p[0]);struct M n=m;fm(&n,two+1,p[1]);o[0]=m.x[two];o[1]=n.x[two+1];o[2]=m.x[two+1];o[3]=n.x[two+9];", perm({0, 1, -1, -1}));
  // uses
  add("shw42", "", "uint2 k=(uint2)(q[1],q[2]);int2 r=shuffle(vload4(0,p),k);o[0]=r.x;o[1]=r.y;", perm({2, 3}));
  add("shw24", "", "uint4 k=convert_uint4(vload4(0,q));int4 r=shuffle(vload2(0,p),k);o[0]=r.x;o[1]=r.y;o[2]=r.z;o[3]=r.w;", perm({1, 0, 1, 0}));
  add("shx42", "", "uint2 k=(uint2)(q[3]+1,q[1]);int2 r=shuffle2(vload4(0,p),vload4(0,q),k);o[0]=r.x;o[1]=r.y;", perm({-1, 2}));
  add("shx24", "", "uint4 k=convert_uint4(vload4(0,q));int4 r=shuffle2(vload2(0,p),vload2(1,p),k);o[0]=r.x;o[1]=r.y;o[2]=r.z;o[3]=r.w;", perm({1, 2, 3, 0}));
  add("shx48", "", "uint8 k=(uint8)(q[3],7,q[1],3,q[0],5,15,8);int8 r=shuffle2(vload4(0,p),vload4(0,q),k);o[0]=r.s2;o[1]=r.s3;o[2]=r.s4;o[3]=r.s7;o[4]=r.s0;o[5]=r.s6;", perm({2, 3, 1, 0, -1, -1}));
  add("anys", "", "o[0]=any((int2)(p[0],q[0]<<31));o[1]=any((int2)(p[1],q[0]<<7));o[2]=any((int4)(q[0],p[2],q[1]<<15,-q[1]));o[3]=any((int2)(q[0],p[3]));", perm({-1, 1, -1, 3}));
  add("alls", "", "o[0]=all((int2)(p[0],q[0]<<31));o[3]=all((int2)(-q[0],p[3]));", perm({0, -1, -1, 3}));
  add("anyc", "", "o[0]=any(as_char4(q[0]<<15)|(char4)(p[0],0,0,0));o[1]=any(as_char4((q[0]<<14)|(p[1]&1)));o[2]=any(as_short2((q[0]<<15)|(p[2]&0x10000)));o[3]=q[0];", perm({-1, 1, -1, -1}));
  for (int n : {2, 3, 4, 8}) for (int off : {0, 1}) for (int al : {0, 1})
  {
    int st = al && n == 3 ? 4 : n; string nm = fmt("hst%d%d%d", n, off, al), b = "__private half* h=(__private half*)(__private int*)hb;";
    add(nm, "", fmt("short hb[16]={0};%sfloat8 r=(float8)(1.0f);r.s0=p[0];r.s1=p[1];%svstore%s_half%d(r%s,%d+two-2,h);volatile short* w=hb;o[0]=w[%d];o[1]=w[%d];o[2]=w[%d];o[3]=w[15];o[4]=w[%d];", b.c_str(), n > 2 ? "r.s2=p[2];" : "", al ? "a" : "", n, n == 8 ? "" : n == 3 ? ".s012" : n == 4 ? ".s0123" : ".s01", off, off * st, off * st + 1, off * st + 2, off ? 0 : n), [n, off](unsigned m) { Set s; for (int i = 0; i < (n > 2 ? 3 : 2); i++) if (m >> i & 1) s.insert(i); return s; });
  }
  add("shbit", "", "o[0]=(p[0]>>two)&0xC0000000;o[1]=((uint)p[1]>>two)&0xC0000000;o[2]=(p[2]<<two)&3;o[3]=(p[3]<<two)&4;", perm({0, -1, -1, 3}));
  add("shbit2", "", "o[0]=(p[0]>>31)&2;o[1]=((uint)p[1]>>(two+28))&12;o[2]=(int)(((long)p[2]<<(two+30))&0xffffffff);o[3]=(int)((ulong)(uint)p[3]>>(two+30));", perm({0, -1, -1, -1}));
  add("sextc", "", "int2 a=vload2(0,q),b=vload2(0,p);int2 c=((a>0)&(b>1))&(int2)(0xff00);o[0]=c.x;o[1]=c.y;", perm({0, 1}));
  add("msv", "__attribute__((noinline)) void fms(__private char* c,int v,int n){for(int i=0;i<n;i++)c[i]=v;}", "char c[16];fms(c,p[0],12);for(int i=0;i<4;i++)o[i]=c[4*i];", [](unsigned m) { Set s{3}; if (m & 1) s.insert({0, 1, 2}); return s; });
  add("msg", "", "local char* c=(local char*)l;for(int i=0;i<16;i++)c[i]=p[1];for(int i=0;i<4;i++)o[i]=c[4*i+1];", perm({1, 1, 1, 1}));
  add("cp7", "struct S7{char c[7];};", "struct S7 t=*(global struct S7*)p;volatile struct S7 u=t;o[0]=u.c[0];o[1]=u.c[two+2];o[2]=u.c[two+4];o[3]=u.c[two+1];", perm({0, 1, 1, 0}));
  add("cp13", "struct S13{char c[13];};__attribute__((noinline)) int f13(struct S13* t,int i){return t->c[i];}", "struct S13 t=*(global struct S13*)p;for(int i=0;i<4;i++)o[i]=f13(&t,i*4);", id);
  add("byval8", "struct S8{int x[8];};__attribute__((noinline)) int fby8(struct S8 s,int i){s.x[i]=s.x[7-i];return s.x[i];}", "struct S8 s;for(int i=0;i<4;i++){s.x[i]=q[i];s.x[i+4]=p[i];}" + all + "fby8(s,i);", perm({3, 2, 1, 0}));
  add("byval5", "struct S5c{char x[5];};__attribute__((noinline)) int fby5(struct S5c s,int i){s.x[i]=s.x[4-i];return s.x[i];}", "struct S5c s;for(int i=0;i<4;i++)s.x[i+1]=p[i];s.x[0]=q[0];" + all + "fby5(s,i);", [](unsigned m) { Set s; if (m & 8) s.insert(0); if (m & 4) s.insert(1); if (m & 2) s.insert(2); if (m & 1) s.insert(3); return s; });
  add("wge2", "", "local int t[4];event_t e[2];e[0]=async_work_group_copy(t,(global int*)q,1,0);e[1]=async_work_group_copy(t+1,(global int*)q,1,0);ulong x=*(ulong*)&e[1];x+=p[1]*(long)(two-2);*(ulong*)&e[1]=x;wait_group_events(2,e);o[0]=q[0];", any({1}));
  add("wge1", "", "local int t[4];event_t e[2];e[0]=async_work_group_copy(t,(global int*)q,1,0);e[1]=async_work_group_copy(t+1,(global int*)q,1,0);ulong x=*(ulong*)&e[0];x+=p[1]*(long)(two-2);*(ulong*)&e[0]=x;wait_group_events(2,e);o[0]=q[0];", any({1}));
  add("cfif", "", "if(p[0]>1)o[0]=1;else o[1]=2;", any({0})); add("cfloop", "", "for(int i=0;i<(p[0]&3)&&i<(q[0]);i++)o[i]=1;", any({0})); add("cfsw", "", "switch(p[1]){case 1:o[0]=5;break;case 2:o[1]=q[2];break;case 7:o[3]=q[1];break;case 12:barrier(1);default:o[2]=1;}", any({1}));
  add("cfand", "", "if(p[0]>100&&p[1]>1)o[0]=1;", [](unsigned m) { Set s; if (m & 1) s.insert(-1); return s; });
  { auto first = [](unsigned m) { Set s; if (m & 1) s.insert(-1); return s; }; string ld = "int a=((volatile global int*)p)[0],b=((volatile global int*)p)[1];";
    add("cfandv", "", ld + "if(a>100&&b>1)o[0]=1;", first); add("cforv", "", ld + "if(a>0||b>1)o[0]=1;", first); add("andv", "", ld + "o[0]=(a>100)&(b>1);o[1]=(a>0)|(b>1);o[2]=(a>0)&(b>0);o[3]=a&0xff00;", [](unsigned m) { Set s; if (m & 1) s = {0, 3}; if ((m & 3) == 3) s.insert(1); if (m & 3) s.insert(2); return s; }); }
  add("adr", "", "o[0]=q[p[0]&3];", [](unsigned m) { Set s; if (m & 1) s.insert(-1); return s; }); add("adw", "", "o[p[2]&3]=q[0];", any({2})); add("adp", "", "volatile int a[4]={1,2,3,4};a[p[0]&3]=7;o[1]=q[0];", any({0})); add("adl", "", "for(int i=0;i<4;i++)l[i]=q[i];o[1]=l[p[0]&3];", any({0}));
  add("vld", "", "int2 r=vload2(p[0]&1,q);o[0]=r.x;", any({0})); add("vst", "", "vstore2((int2)(1,2),p[0]&1,(global int*)o);", any({0})); add("ati", "", "atomic_add((volatile global int*)o+(p[0]&3),0);", any({0}));
  add("fcf", "__attribute__((noinline)) int fcg(int x){if(x>1)return 1;return 2;}", "o[0]=fcg(q[0]);o[1]=fcg(p[1]);", any({1}));
  add("idx", "", "int4 v=*(global int4*)q;o[0]=v[p[0]&3];", any({0})); add("idxw", "", "int4 v=*(global int4*)q;v[p[0]&3]=4;*(global int4*)o=v;", any({0}));
  add("eva", "", "local int t[4];event_t e=async_work_group_copy(t,(global int*)q,p[0]&3,0);wait_group_events(1,&e);o[0]=q[0];", any({0}));
  add("clean", "", "if(q[0])o[q[1]&3]=q[2];for(int i=0;i<q[0];i++)o[i]=i;", [](unsigned) { return Set(); });
  return v;
}
static void runProg(const Prog& p, unsigned m, const string& id, cl_program pr, cl_mem Q, const string& tag, const string& show_)
{
  R->count("traces_validated_against_impl"); R->count("transitions", 4); cl_kernel k = cl->kernel(pr, p.name.c_str());
  cl_mem P = input("int", 4, m); CK(clSetKernelArg(k, 0, sizeof P, &P)); CK(clSetKernelArg(k, 1, sizeof Q, &Q)); CK(clSetKernelArg(k, 2, sizeof outBuf, &outBuf)); CK(clSetKernelArg(k, 3, 64, 0)); cl_int two = 2; CK(clSetKernelArg(k, 4, 4, &two));
  cap->clear(); int e = cl->launch1(k, p.G, p.L); Reports r = reports(); clReleaseKernel(k);
  Set want = p.f(m), got; for (auto& x : r.wr) got.insert((x.first - outAddr) / 4); string er;
  if (e) er = fmt("kernel not run (%d)", e); else if (r.other) er = "unexpected message: " + r.text.substr(0, 300);
  else if (want.count(-1)) { if (r.none()) er = "use of data that was never written is not reported"; }
  else
  {
    if (r.sinks()) er = "use reported that does not depend on unwritten data: " + r.text.substr(0, 200);
    for (int l : want) if (er.empty() && !got.count(l)) er = fmt("out[%d] depends on data that was never written but is not reported", l);
    for (int l : got) if (er.empty() && !want.count(l)) er = fmt("out[%d] is reported but only depends on written data", l);
  }
  if (!er.empty()) R->fail(tag + p.name + (er.find("not reported") != string::npos ? ":missed" : ":spurious"), id + ": " + er + "; expected " + show(want) + "; " + show_);
}
static void programs()
{
  auto ps = progs(); cl_mem Q = input("int", 4, 0);
  for (const char* opt : {"-cl-std=CL1.2", "-cl-std=CL1.2 -cl-opt-disable"})
  {
    string src; for (auto& p : ps) src += p.src; cl_program pr = 0; bool noopt = strstr(opt, "disable");
    for (auto& p : ps) for (unsigned m = 0; m < 16; m++)
    {
      string id = fmt("prog:%s:%x:%s", p.name.c_str(), m, noopt ? "O0" : "Oz"); if (!R->begin(id)) continue;
      if (!pr) pr = cl->build(src, opt);
      runProg(p, m, id, pr, Q, "prog:", p.src);
    }
    if (pr) clReleaseProgram(pr);
  }
}
// ---- generated kernels in IR (c08gen.py), with the dependences of each output word
static void irProgs(const string& dir)
{
  cl_program pr = 0; cl_int e; cl_mem Q = input("int", 4, 0); std::ifstream f(dir + "/k.txt"); string line;
  while (std::getline(f, line))
  {
    std::istringstream ls(line); string name; ls >> name; vector<int> dep; for (int d; ls >> d;) dep.push_back(d);
    Prog p{name, "", 1, 1, [dep](unsigned m) { Set s; for (int i = 0; i < (int)dep.size(); i++) if (dep[i] < 0 || (m & dep[i])) s.insert(i); return s; }};
    for (unsigned m = 0; m < 16; m++)
    {
      string id = fmt("ir:%s:%x", name.c_str(), m); if (!R->begin(id)) continue;
      if (!pr) { string bc = slurp(dir + "/k.bc"); const unsigned char* b = (const unsigned char*)bc.data(); size_t n = bc.size(); pr = clCreateProgramWithBinary(cl->ctx, 1, &cl->dev, &n, &b, 0, &e); CK(e); CK(clBuildProgram(pr, 0, 0, "", 0, 0)); }
      runProg(p, m, id, pr, Q, "ir:", "see k.ll");
    }
  }
  if (pr) clReleaseProgram(pr);
}
// ---- multi-output builtins
static void outputs()
{
  struct F { const char* n; const char* call; const char* ot; int nin; };
  static const F fs[] = {{"fract", "fract(a,x)", "float", 1}, {"modf", "modf(a,x)", "float", 1}, {"sincos", "sincos(a,x)", "float", 1}, {"frexp", "frexp(a,x)", "int", 1}, {"lgamma_r", "lgamma_r(a,x)", "int", 1}, {"remquo", "remquo(a,b,x)", "int", 2}, {"fractd", "fract(a,x)", "double", 1}, {"modfd", "modf(a,x)", "double", 1}, {"frexpd", "frexp(a,x)", "int", 1}, {"remquod", "remquo(a,b,x)", "int", 2}};
  static const char* sp[] = {"private", "local", "global"};
  for (auto& f : fs) for (int s = 0; s < 3; s++) for (int n : {1, 2, 3, 4})
  {
    bool dbl = f.n[strlen(f.n) - 1] == 'd' && string(f.n) != "fractd" ? true : string(f.n) == "fractd"; string t = dbl ? "double" : "float", w = n == 1 ? "" : fmt("%d", n), T = t + w, O = string(f.ot) + w; cl_program pr = 0;
    string st; for (int l = 0; l < n; l++) st += n == 1 ? "o[0]=r;o[1]=y;" : fmt("o[%d]=r.s%d;o[%d]=y.s%d;", l, l, n + l, l);
    string src = "kernel void k(global " + T + "* p,global " + T + "* q,volatile global float* o,global " + O + "* g,local " + O + "* l){" + T + " a=*p,b=*q;" + (s == 0 ? O + " z;" + O + "* x=&z;" : s == 1 ? "local " + O + "* x=l;" : "global " + O + "* x=g;") + T + " r=" + f.call + ";" + O + " y=*x;" + rep(rep(st, "=r", "=(float)r"), "=y", "=(float)y") + "}\n";
    for (unsigned m = 0; m < (f.nin == 2 ? 1u << (2 * n) : 1u << n); m++)
    {
      if (f.nin == 2 && n == 4 && !R->thorough && (m & (m - 1)) && m != 255) continue; string id = fmt("out:%s:%s:%d:%x", f.n, sp[s], n, m); if (!R->begin(id)) continue; R->count("traces_validated_against_impl"); R->count("transitions", 2 * n);
      if (!pr) pr = cl->build(src); cl_kernel k = cl->kernel(pr, "k"); cl_mem P = input(t, n, m & ((1 << n) - 1)), Q = input(t, n, m >> n), Gb = cl->buf(64);
      CK(clSetKernelArg(k, 0, sizeof P, &P)); CK(clSetKernelArg(k, 1, sizeof Q, &Q)); CK(clSetKernelArg(k, 2, sizeof outBuf, &outBuf)); CK(clSetKernelArg(k, 3, sizeof Gb, &Gb)); CK(clSetKernelArg(k, 4, 64, 0));
      cap->clear(); int e = cl->launch1(k, 1, 1); Reports r = reports(); clReleaseKernel(k); clReleaseMemObject(Gb);
      Set want, got; for (int l = 0; l < n; l++) if ((m | m >> n) >> l & 1 && (f.nin == 2 || (m >> l & 1))) { want.insert(l); want.insert(n + l); } bool gw = false;
      for (auto& x : r.wr) if (x.first >= outAddr && x.first < outAddr + 256) got.insert((x.first - outAddr) / 4); else gw = true;
      string er; if (e) er = fmt("kernel not run (%d)", e); else if (r.other) er = "unexpected message: " + r.text.substr(0, 300); else if (r.sinks()) er = "spurious: " + r.text.substr(0, 200); else if (gw && want.empty()) er = "spurious report for the pointed-to value"; else if (s == 2 && !want.empty() && !gw) er = "missed: value stored through the pointer";
      for (int l : want) if (er.empty() && !got.count(l)) er = fmt("missed: element %d", l); for (int l : got) if (er.empty() && !want.count(l)) er = fmt("spurious: element %d", l);
      if (!er.empty()) R->fail(fmt("out:%s:%s%s:%s", f.n, sp[s], n > 1 ? ":vec" : "", er.substr(0, 8).c_str()), id + ": " + er + "; expected " + show(want));
    }
    if (pr) clReleaseProgram(pr);
  }
}
// ---- atomics: old value and memory afterwards
static void atomics()
{
  struct A { const char* n; const char* call; int kind; }; // kind 0 arithmetic, 1 xchg, 2 no argument, 3 cmpxchg
  static const A as[] = {{"add", "add(x,a)", 0}, {"sub", "sub(x,a)", 0}, {"and", "and(x,a)", 0}, {"or", "or(x,a)", 0}, {"xor", "xor(x,a)", 0}, {"max", "max(x,a)", 0}, {"min", "min(x,a)", 0}, {"xchg", "xchg(x,a)", 1}, {"inc", "inc(x)", 2}, {"dec", "dec(x)", 2}, {"cmpxchg", "cmpxchg(x,c,a)", 3}};
  for (auto& a : as) for (const char* pre : {"atomic_", "atom_"}) for (const char* t : {"int", "uint", "long", "ulong", "float"}) for (int sp = 0; sp < 2; sp++)
  {
    bool w = strstr(t, "long"); if (w && pre[4] != '_') continue; if (string(t) == "float" && (a.kind != 1 || pre[4] == '_')) continue; cl_program pr = 0;
    string T = t, src = "#pragma OPENCL EXTENSION cl_khr_int64_base_atomics:enable\n#pragma OPENCL EXTENSION cl_khr_int64_extended_atomics:enable\nkernel void k(global " + T + "* m,global " + T + "* p,global " + T + "* q,volatile global " + T + "* o,local " + T + "* l){" + T + " a=*p,c=*q;" + (sp ? "volatile local " + T + "* x=l;if(o[5]!=0)*x=*m;" : "volatile global " + T + "* x=m;") + T + " r=" + pre + a.call + ";o[0]=r;o[1]=*x;}\n";
    for (int mask = 0; mask < 8; mask++) for (int hit = 0; hit < (a.kind == 3 ? 2 : 1); hit++)
    {
      if (a.kind != 3 && mask & 4) continue; if (a.kind == 2 && mask & 2) continue; bool md = mask & 1, ad = mask & 2, cd = mask & 4; string id = fmt("atomic:%s%s:%s:%s:%d:%d", pre, a.n, t, sp ? "local" : "global", mask, hit); if (!R->begin(id)) continue; R->count("traces_validated_against_impl"); R->count("transitions", 2);
      if (!pr) pr = cl->build(src); cl_kernel k = cl->kernel(pr, "k"); cl_int e; int es = sizeOf(t); uint8_t one[8]; val(t, 0, one);
      cl_mem M = clCreateBuffer(cl->ctx, 0, es, 0, &e); CK(e); if (!md || sp) cl->write(M, one, es); cl_mem P = input(t, 1, ad), Q = clCreateBuffer(cl->ctx, 0, es, 0, &e); CK(e); uint8_t cv[8]; val(t, hit ? 0 : 7, cv); if (!cd) cl->write(Q, cv, es);
      Bytes ob(256, 0); uint8_t flag = !md; memset(&ob[5 * es], flag, es); cl->write(outBuf, ob.data(), 256);
      CK(clSetKernelArg(k, 0, sizeof M, &M)); CK(clSetKernelArg(k, 1, sizeof P, &P)); CK(clSetKernelArg(k, 2, sizeof Q, &Q)); CK(clSetKernelArg(k, 3, sizeof outBuf, &outBuf)); CK(clSetKernelArg(k, 4, 16, 0));
      cap->clear(); e = cl->launch1(k, 1, 1); Reports r = reports(); clReleaseKernel(k); clReleaseMemObject(M); clReleaseMemObject(Q);
      bool after = a.kind == 1 ? ad : a.kind == 2 ? md : a.kind == 0 ? md || ad : hit ? ad : md, judge = !(a.kind == 3 && (md || cd));
      bool g0 = r.wr.count(outAddr), g1 = r.wr.count(outAddr + es); string er; bool other = r.wr.size() > (size_t)(g0 + g1);
      if (e) er = fmt("kernel not run (%d)", e); else if (r.other) er = "unexpected message: " + r.text.substr(0, 300); else if (r.sinks() && !cd && !md) er = "spurious: " + r.text.substr(0, 200);
      else if (g0 != md) er = fmt("%s: old value", md ? "missed" : "spurious"); else if (judge && g1 != after) er = fmt("%s: memory afterwards", after ? "missed" : "spurious"); else if (!sp && judge && other != after) er = fmt("%s: value stored by the atomic", after ? "missed" : "spurious"); else if (cd && r.none()) er = "missed: comparison with unwritten data";
      if (!er.empty()) R->fail(fmt("atomic:%s:%s%s:%s", a.n, sp ? "local" : "global", pre[4] == '_' ? ":atom" : "", er.substr(0, er.find(',')).substr(0, 30).c_str()), id + ": " + er);
    }
    if (pr) clReleaseProgram(pr);
  }
}
// ---- asynchronous copies
static void asyncs()
{
  for (const char* t : {"char", "uchar", "short", "ushort", "int", "uint", "long", "float", "double"}) for (int n : {1, 2, 3, 4, 8}) for (int dir = 0; dir < 2; dir++) for (int stride = 0; stride < 3; stride++)
  {
    if (n > 2 && string(t) != "int" && string(t) != "float" && !R->thorough) continue; cl_program pr = 0; string T = t + (n > 1 ? fmt("%d", n) : string()); int es = sizeOf(t) * (n == 3 ? 4 : n);
    string copy = stride ? "async_work_group_strided_copy" : "async_work_group_copy", sa = stride ? fmt(",%d", stride) : "";
    string src = "kernel void k(global " + T + "* s,volatile global " + T + "* o,local " + T + "* l,global " + T + "* d){int i=get_local_id(0);event_t e;" +
      (dir == 0 ? "e=" + copy + "(l,(const global " + T + "*)s,2" + sa + ",0);wait_group_events(1,&e);if(i==0){o[0]=l[0];o[1]=l[1];}"
                : "l[i]=s[i];l[i+2]=s[i+2];barrier(CLK_LOCAL_MEM_FENCE);e=" + copy + "(d,(const local " + T + "*)l,2" + sa + ",0);wait_group_events(1,&e);if(i==0){o[0]=d[0];o[1]=d[1];o[2]=d[2];}") + "}\n";
    for (unsigned m = 0; m < 16; m++)
    {
      string id = fmt("async:%s:%d:%d:%x", T.c_str(), dir, stride, m); if (!R->begin(id)) continue; R->count("traces_validated_against_impl"); R->count("transitions", 2);
      if (!pr) pr = cl->build(src); cl_kernel k = cl->kernel(pr, "k"); cl_int e; Bytes d(es * 4, 1), z(es * 4, 0); cl_mem S = clCreateBuffer(cl->ctx, 0, es * 4, 0, &e); CK(e); for (int i = 0; i < 4; i++) if (!(m >> i & 1)) cl->write(S, d.data(), es, i * es); cl_mem D = cl->buf(es * 4, z.data());
      CK(clSetKernelArg(k, 0, sizeof S, &S)); CK(clSetKernelArg(k, 1, sizeof outBuf, &outBuf)); CK(clSetKernelArg(k, 2, es * 4, 0)); CK(clSetKernelArg(k, 3, sizeof D, &D)); cap->clear(); e = cl->launch1(k, 2, 2); Reports r = reports(); clReleaseKernel(k); clReleaseMemObject(S); clReleaseMemObject(D);
      int st = stride ? stride : 1; Set want, got; bool gw = false; if (dir == 0) { if (m & 1) want.insert(0); if (m >> st & 1) want.insert(1); } else { if (m & 1) want.insert(0); if (m & 2) want.insert(st); }
      for (auto& x : r.wr) if (x.first >= outAddr && x.first < outAddr + 256) got.insert((x.first - outAddr) / es); else gw = true; string er;
      if (e) er = fmt("kernel not run (%d)", e); else if (r.other) er = "unexpected message: " + r.text.substr(0, 300); else if (r.sinks()) er = "spurious: " + r.text.substr(0, 200); else if (dir == 1 && gw != !want.empty() && !(gw && n == 3)) er = gw ? "spurious: copy to global memory" : "missed: copy to global memory";
      for (int l : want) if (er.empty() && !got.count(l)) er = fmt("missed: element %d", l); for (int l : got) if (er.empty() && !want.count(l)) er = fmt("spurious: element %d", l);
      if (!er.empty()) R->fail(fmt("async:%s:%s:%s", string(t) == "int" ? (n == 1 ? "int" : "vec") : "type", stride ? "strided" : "plain", er.substr(0, 8).c_str()), id + ": " + er + "; expected " + show(want));
    }
    if (pr) clReleaseProgram(pr);
  }
}
// ---- images
static void images()
{
  string src = "constant sampler_t sm=CLK_NORMALIZED_COORDS_FALSE|CLK_ADDRESS_CLAMP|CLK_FILTER_NEAREST;\n"
    "kernel void wf(write_only image2d_t i,global float4* p,global int2* c,volatile global int* o){write_imagef(i,*c&(int2)1,*p);}\n"
    "kernel void wi(write_only image2d_t i,global int4* p,global int2* c,volatile global int* o){write_imagei(i,*c&(int2)1,*p);}\n"
    "kernel void wu(write_only image2d_t i,global uint4* p,global int2* c,volatile global int* o){write_imageui(i,*c&(int2)1,*p);}\n"
    "kernel void rf(read_only image2d_t i,global float4* p,global int2* c,volatile global int* o){float4 r=read_imagef(i,sm,*c&(int2)1);o[0]=r.x;o[1]=r.w;}\n"
    "kernel void ri(read_only image2d_t i,global float4* p,global int2* c,volatile global int* o){int4 r=read_imagei(i,sm,*c&(int2)1);o[0]=r.x;o[1]=r.w;}\n"
    "kernel void qu(read_only image2d_t i,global float4* p,global int2* c,volatile global int* o){o[0]=get_image_width(i);o[1]=get_image_height(i);int2 d=get_image_dim(i);if(d.x>1)o[2]=d.y;o[3]=get_image_channel_order(i);if(get_image_channel_data_type(i)==CLK_UNORM_INT8)o[4]=1;}\n"
    "kernel void q3(read_only image3d_t i,global float4* p,global int2* c,volatile global int* o){int4 d=get_image_dim(i);o[0]=d.x;o[1]=d.y;o[2]=d.z;o[3]=get_image_depth(i);}\n"
    "kernel void qa(read_only image2d_array_t i,global float4* p,global int2* c,volatile global int* o){o[0]=get_image_array_size(i);o[1]=get_image_width(i);}\n"
    "void hf(read_only image2d_t i,global int2* c,volatile global int* o){float4 r=read_imagef(i,sm,*c&(int2)1);o[0]=r.x;}\nkernel void fn(read_only image2d_t i,global float4* p,global int2* c,volatile global int* o){hf(i,c,o);}\n";
  cl_program pr = 0; cl_int e;
  for (const char* kn : {"wf", "wi", "wu", "rf", "ri", "qu", "q3", "qa", "fn"}) for (unsigned pm = 0; pm < (kn[0] == 'w' ? 16u : 1u); pm++) for (unsigned cm = 0; cm < (kn[0] == 'q' ? 1u : 4u); cm++)
  {
    string id = fmt("image:%s:%x:%x", kn, pm, cm); if (!R->begin(id)) continue; R->count("traces_validated_against_impl"); R->count("transitions"); if (!pr) pr = cl->build(src);
    cl_image_format f = {CL_RGBA, (cl_channel_type)(kn[1] == 'i' ? CL_SIGNED_INT32 : kn[1] == 'u' && kn[0] == 'w' ? CL_UNSIGNED_INT32 : CL_UNORM_INT8)}; cl_image_desc d; memset(&d, 0, sizeof d); d.image_type = string(kn) == "q3" ? CL_MEM_OBJECT_IMAGE3D : string(kn) == "qa" ? CL_MEM_OBJECT_IMAGE2D_ARRAY : CL_MEM_OBJECT_IMAGE2D; d.image_width = 2; d.image_height = 2; d.image_depth = string(kn) == "q3" ? 3 : 0; d.image_array_size = string(kn) == "qa" ? 3 : 0;
    Bytes data(16 * 16, 1); cl_mem im = clCreateImage(cl->ctx, CL_MEM_COPY_HOST_PTR, &f, &d, data.data(), &e); CK(e); cl_mem P = input(kn[1] == 'f' ? "float" : kn[1] == 'i' ? "int" : "uint", 4, pm), C = input("int", 2, cm);
    cl_kernel k = cl->kernel(pr, kn); CK(clSetKernelArg(k, 0, sizeof im, &im)); CK(clSetKernelArg(k, 1, sizeof P, &P)); CK(clSetKernelArg(k, 2, sizeof C, &C)); CK(clSetKernelArg(k, 3, sizeof outBuf, &outBuf));
    string er; for (int rpt = 0; rpt < 3 && er.empty(); rpt++)
    {
      cap->clear(); e = cl->launch1(k, 1, 1); Reports r = reports(); bool dirty = pm || cm; if (e) er = fmt("kernel not run (%d)", e); else if (r.other) er = "unexpected message: " + r.text.substr(0, 300); else if (kn[0] == 'w' && (!pm != !(r.wr.size() || r.local) || !cm != !(r.addr + r.index))) er = "kind: " + r.text.substr(0, 200) + "; colour and coordinates are to be told apart"; else if (dirty && r.none()) er = pm ? "missed: colour" : "missed: coordinate"; else if (!dirty && !r.none()) er = "spurious: " + r.text.substr(0, 200);
    }
    clReleaseKernel(k); clReleaseMemObject(im); if (!er.empty()) R->fail(string("image:") + kn + ":" + er.substr(0, 16), id + ": " + er);
  }
  if (pr) clReleaseProgram(pr);
}
// ---- histories of host commands and kernels over one 16-byte buffer
static void host()
{
  cl_program pr = 0; cl_int e; cl_kernel kr = 0, kw = 0; cl_mem src = cl->buf(16); const int NOP = 17;
  static const char* ON[NOP] = {"w0-8", "w8-16", "w4-12", "w3-5", "w0-16", "fill8-12", "copy2-6", "mapW", "mapRW", "mapR", "mapInv4-8", "subw", "rectw", "kernelw", "recreate", "recreateCopy", "read"};
  int D = R->thorough ? 4 : 3; vector<int> seq; Bytes d(16, 5);
  std::function<void()> run = [&]()
  {
    for (int start = 0; start < 3; start++)
    {
      if (start && seq.size() == (size_t)D) continue; string id = fmt("host%d", start); for (int o : seq) id += string(".") + ON[o]; if (!R->begin(id)) continue; R->count("traces_validated_against_impl");
      if (!pr) { pr = cl->build("kernel void r(global uchar* b,volatile global uchar* o){for(int i=0;i<16;i++)o[i]=b[i];}\nkernel void w(global uchar* b){b[6]=1;b[7]=2;}"); kr = cl->kernel(pr, "r"); kw = cl->kernel(pr, "w"); }
      Bytes hp(16, 9); auto mk = [&](int how) { cl_mem m = clCreateBuffer(cl->ctx, how == 1 ? CL_MEM_COPY_HOST_PTR : how == 2 ? CL_MEM_USE_HOST_PTR : 0, 16, how ? hp.data() : 0, &e); CK(e); return m; };
      cl_mem b = mk(start); vector<bool> w(16, start != 0); auto set = [&](int lo, int hi) { for (int i = lo; i < hi; i++) w[i] = true; }; bool rel = false;
      auto map = [&](cl_map_flags f, int lo, int hi) { void* p = clEnqueueMapBuffer(cl->q, b, CL_TRUE, f, lo, hi - lo, 0, 0, 0, &e); CK(e); if (f != CL_MAP_READ) memset(p, 3, hi - lo); CK(clEnqueueUnmapMemObject(cl->q, b, p, 0, 0, 0)); clFinish(cl->q); if (f != CL_MAP_READ) set(lo, hi); };
      auto look = [&](const char* when)
      {
        CK(clSetKernelArg(kr, 0, sizeof b, &b)); CK(clSetKernelArg(kr, 1, sizeof outBuf, &outBuf)); cap->clear(); int x = cl->launch1(kr, 1, 1); Reports r = reports(); R->count("transitions"); string er; if (x) er = fmt("kernel not run (%d)", x); else if (r.other || r.sinks()) er = "unexpected: " + r.text.substr(0, 300);
        for (int i = 0; er.empty() && i < 16; i++) if (w[i] == (bool)r.wr.count(outAddr + i)) er = fmt("byte %d was %s but is %s", i, w[i] ? "written" : "never written", w[i] ? "reported" : "not reported");
        return er;
      };
      string er, last = "create";
      for (int o : seq)
      {
        last = ON[o];
        switch (o)
        {
        case 0: cl->write(b, d.data(), 8, 0); set(0, 8); break; case 1: cl->write(b, d.data(), 8, 8); set(8, 16); break; case 2: cl->write(b, d.data(), 8, 4); set(4, 12); break; case 3: cl->write(b, d.data(), 2, 3); set(3, 5); break; case 4: cl->write(b, d.data(), 16); set(0, 16); break;
        case 5: CK(clEnqueueFillBuffer(cl->q, b, d.data(), 4, 8, 4, 0, 0, 0)); clFinish(cl->q); set(8, 12); break;
        case 6: CK(clEnqueueCopyBuffer(cl->q, src, b, 0, 2, 4, 0, 0, 0)); clFinish(cl->q); set(2, 6); break;
        case 7: map(CL_MAP_WRITE, 0, 8); break; case 8: map(CL_MAP_READ | CL_MAP_WRITE, 4, 16); break; case 9: map(CL_MAP_READ, 0, 16); break; case 10: map(CL_MAP_WRITE_INVALIDATE_REGION, 4, 8); break;
        case 11: { cl_buffer_region r = {8, 8}; cl_mem s = clCreateSubBuffer(b, 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); CK(e); cl->write(s, d.data(), 3, 2); set(10, 13); clReleaseMemObject(s); break; }
        case 12: { size_t bo[3] = {1, 1, 0}, ho[3] = {0, 0, 0}, rg[3] = {2, 2, 1}; CK(clEnqueueWriteBufferRect(cl->q, b, CL_TRUE, bo, ho, rg, 4, 16, 0, 0, d.data(), 0, 0, 0)); set(5, 7); set(9, 11); break; }
        case 13: CK(clSetKernelArg(kw, 0, sizeof b, &b)); cl->launch1(kw, 1, 1); set(6, 8); break;
        case 14: clReleaseMemObject(b); b = mk(0); w.assign(16, false); break; case 15: clReleaseMemObject(b); b = mk(1); w.assign(16, true); break;
        case 16: er = look(ON[o]); break;
        }
        if (!er.empty()) break;
      }
      if (er.empty()) { last = seq.empty() ? "create" : ON[seq.back()]; er = look("end"); }
      cl_mem other = src; CK(clSetKernelArg(kr, 0, sizeof other, &other)); CK(clSetKernelArg(kw, 0, sizeof other, &other)); clReleaseMemObject(b);
      if (!er.empty()) R->fail("host:" + last + (er.find("not reported") != string::npos ? ":missed" : ":spurious"), id + ": " + er);
    }
  };
  std::function<void(int)> go = [&](int dd) { run(); if (!dd) return; for (int o = 0; o < NOP; o++) { seq.push_back(o); go(dd - 1); seq.pop_back(); } };
  go(D);
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1], "1"); env("OCLGRIND_UNINITIALIZED", "1"); Capture c; cap = &c; CL x; cl = &x;
  outBuf = cl->buf(256); cl_program pr = cl->build("kernel void k(global ulong* o){*o=(ulong)o;}"); cl_kernel k = cl->kernel(pr, "k"); CK(clSetKernelArg(k, 0, sizeof outBuf, &outBuf)); cl->launch1(k, 1, 1); cl->read(outBuf, &outAddr, 8); Bytes z(256, 0); cl->write(outBuf, z.data(), 256);
  string m = argv[2]; if (m == "op") dataflow(); if (m == "prog") programs(); if (m == "out") outputs(); if (m == "atomic") atomics(); if (m == "async") asyncs(); if (m == "image") images(); if (m == "host") host(); if (m == "ir") irProgs(argv[3]);
}
VF_MAIN(body)
