// C21: instruction-count reports compared with the instructions each generated kernel must execute.
#include "script.hpp"
using namespace vf; typedef vector<uint8_t> Bytes; typedef std::map<string, unsigned long> Counts;
static string space(const string& a) { return a[0] == 'P' || a == "e" ? "private" : a[0] == 'G' || a == "C" ? "constant" : a[0] == 'l' || a[0] == 'L' ? "local" : "global"; }
static size_t bytesOf(const Step& s)
{
  if (s.k == 'L') return s.size; const string& b = s.b;
  if (b[0] == 'v') return (b.size() - 1) / 2; if (b[0] == '?') return atol(b.c_str() + 1); if (b[0] == 'g') return atol(b.c_str() + 3);
  return atol(b.substr(b.rfind(':') + 1).c_str());
}
static void add(Counts& c, std::map<string, size_t>& bytes, const Script& sc, size_t G, size_t L)
{
  for (size_t g = 0; g < G; g++)
  {
    const Step* prev = 0; vector<Step> v = forItem(sc, g, g / L);
    for (auto& s : v)
    {
      if (s.k == 'I')
      {
        if (s.a == "call") c["call " + s.b + "()"]++;
        else if (s.a == "load" || s.a == "store") { if (!prev || (prev->k != 'L' && prev->k != 'S')) R->internal("script of " + sc.name); string n = s.a + " " + space(prev->a); c[n]++; bytes[n] += bytesOf(*prev); }
        else c[s.a]++;
      }
      prev = &s;
    }
  }
}
static Counts expect(const Script& sc, size_t G, size_t L)
{
  Counts c, o; std::map<string, size_t> by; add(c, by, sc, G, L);
  for (auto& x : c) o[by.count(x.first) ? x.first + fmt(" (%zu bytes)", by[x.first]) : x.first] += x.second; return o;
}
static string show(const Counts& c) { string s; for (auto& x : c) s += fmt("%lu - %s; ", x.second, x.first.c_str()); return s; }
struct Report { string kernel; Counts c; };
static string parse(const string& t, vector<Report>& out)
{
  std::stringstream f(t); string l;
  while (std::getline(f, l))
  {
    if (l.empty()) continue; const string h = "Instructions executed for kernel '";
    if (l.compare(0, h.size(), h) == 0) { out.push_back({l.substr(h.size(), l.rfind('\'') - h.size()), {}}); continue; }
    size_t p = l.find(" - "); char* end = 0; unsigned long n = strtoul(l.c_str(), &end, 10);
    if (out.empty() || p == string::npos || end != l.c_str() + p) return "unreadable line: " + l;
    string name = l.substr(p + 3); if (out.back().c.count(name)) return "listed twice: " + name; out.back().c[name] = n;
  }
  return "";
}
static string diff(const Counts& want, const Counts& got)
{
  for (auto& x : want) { auto i = got.find(x.first); if (i == got.end()) { return fmt("'%s' (%lu) is missing; ", x.first.c_str(), x.second) + "report: " + show(got); } if (i->second != x.second) return fmt("'%s' counted %lu times instead of %lu", x.first.c_str(), i->second, x.second); }
  for (auto& x : got) if (!want.count(x.first)) return fmt("'%s' (%lu) was not executed; expected ", x.first.c_str(), x.second) + show(want); return "";
}
static string key(const string& name, const string& er) { return "counts:" + er.substr(0, std::min<size_t>(er.find_first_of("("), 60)); }

static void body(int argc, char** argv)
{
  stdEnv(argv[1], argv[4]); env("OCLGRIND_INST_COUNTS", "1"); setenv("LC_ALL", "C", 1); string dir = argv[2]; int nmod = atoi(argv[3]);
  Capture out(1), cap; CL cl; cl_int e; std::map<int, cl_program> progs;
  cl_mem A = cl.buf(1 << 20), B = cl.buf(1 << 20), C = cl.buf(64);
  auto load = [&](const string& f) { string bc = slurp(f); const unsigned char* p = (const unsigned char*)bc.data(); size_t n = bc.size(); cl_program pr = clCreateProgramWithBinary(cl.ctx, 1, &cl.dev, &n, &p, 0, &e); CK(e); CK(clBuildProgram(pr, 0, 0, "", 0, 0)); return pr; };
  auto kern = [&](const vector<Script>& sc, size_t i) -> cl_kernel
  {
    int m = i % nmod; if (!progs.count(m)) progs[m] = load(dir + fmt("/m%d.bc", m));
    cl_kernel k = clCreateKernel(progs[m], fmt("k%zu", i).c_str(), &e); CK(e);
    CK(clSetKernelArg(k, 0, sizeof A, &A)); CK(clSetKernelArg(k, 1, sizeof B, &B)); CK(clSetKernelArg(k, 2, 1024, 0)); CK(clSetKernelArg(k, 3, sizeof C, &C)); return k;
  };
  if (string(argv[5]) == "k")
  {
    auto sc = scripts(dir + "/script");
    static const size_t ND[][2] = {{1, 1}, {2, 2}, {6, 2}, {12, 3}, {16, 2}, {96, 48}, {2048, 1024}};
    for (size_t i = 0; i < sc.size(); i++) for (auto& nd : ND)
    {
      bool pair = sc[i].name.find('+') != string::npos; if (pair && (nd[0] > 16 || (!R->thorough && nd[0] != 6 && nd[0] != 16))) continue;
      if (!R->begin(fmt("%s@%zu/%zu/t%s", sc[i].name.c_str(), nd[0], nd[1], argv[4]))) continue; R->count("traces_validated_against_impl");
      cl_kernel k = kern(sc, i); out.clear(); cap.clear(); int r = cl.launch1(k, nd[0], nd[1]); if (r) R->fail("enqueue", fmt("%d", r)); clReleaseKernel(k);
      vector<Report> rep; string er = parse(out.get(), rep); if (er.empty() && (rep.size() != 1 || rep[0].kernel != fmt("k%zu", i))) er = "no report for the kernel";
      if (er.empty()) { R->count("transitions", rep[0].c.size()); er = diff(expect(sc[i], nd[0], nd[1]), rep[0].c); }
      if (!er.empty()) R->fail(key(sc[i].name, er), sc[i].name + fmt(" with %zu items in groups of %zu, %s threads: ", nd[0], nd[1], argv[4]) + er);
      if (i % 300 == 0) R->sample(sc[i].name + ": " + show(rep.empty() ? Counts() : rep[0].c).substr(0, 200));
    }
    // histories of launches: each report covers its own launch only
    vector<size_t> pick; for (size_t i = 0; i < sc.size(); i++) for (const char* n : {"empty", "fal", "fnest", "bygroup", "ld.3xi32", "alloca", "bar1"}) if (sc[i].name == n) pick.push_back(i);
    int D = R->thorough ? 4 : 3; vector<size_t> h; vector<cl_kernel> ks; for (size_t i : pick) ks.push_back(kern(sc, i));
    std::function<void(int)> go = [&](int d)
    {
      if (d == 0)
      {
        string name = "history"; for (size_t x : h) name += "." + sc[pick[x]].name; if (!R->begin(name + "/t" + argv[4])) return; R->count("traces_validated_against_impl");
        out.clear(); for (size_t j = 0; j < h.size(); j++) { size_t G = j % 2 ? 2 : 8, L = 2; CK(clEnqueueNDRangeKernel(cl.q, ks[h[j]], 1, 0, &G, &L, 0, 0, 0)); } clFinish(cl.q);
        vector<Report> rep; string er = parse(out.get(), rep); if (er.empty() && rep.size() != h.size()) er = fmt("%zu reports", rep.size());
        for (size_t j = 0; er.empty() && j < h.size(); j++) { R->count("transitions"); if (rep[j].kernel != fmt("k%zu", pick[h[j]])) er = "report for another kernel"; else er = diff(expect(sc[pick[h[j]]], j % 2 ? 2 : 8, 2), rep[j].c); }
        if (!er.empty()) R->fail("history-" + key(name, er), name + ": " + er); return;
      }
      for (size_t i = 0; i < pick.size(); i++) { h.push_back(i); go(d - 1); h.pop_back(); }
    };
    for (int d = 2; d <= D; d++) go(d); for (auto k : ks) clReleaseKernel(k);
  }
  else
  {
    // every group calls its own subset of the functions
    cl_program p = load(dir + "/sub.bc"); cl_kernel k = cl.kernel(p, "sub"); CK(clSetKernelArg(k, 0, sizeof A, &A)); int NF = 5, NG = 3;
    for (int order = 0; order < 2; order++) for (int m = 0; m < (1 << (NF * NG)); m++)
    {
      if (!R->thorough && order && m >= 1 << (NF * 2)) continue;
      if (!R->begin(fmt("sub:%d:%x/t%s", order, m, argv[4]))) continue; R->count("traces_validated_against_impl");
      cl_int o = order, mm = m; CK(clSetKernelArg(k, 1, 4, &mm)); CK(clSetKernelArg(k, 2, 4, &o)); out.clear(); int r = cl.launch1(k, NG * 2, 2); if (r) R->fail("enqueue", fmt("%d", r));
      vector<Report> rep; string er = parse(out.get(), rep); if (er.empty() && rep.size() != 1) er = "no report";
      Counts got, want; if (er.empty()) for (auto& x : rep[0].c) if (x.first.compare(0, 6, "call f") == 0 || x.first == "urem" || x.first.compare(0, 13, "load constant") == 0) got[x.first] = x.second;
      for (int g = 0; g < NG; g++) for (int f = 0; f < NF; f++) if (m >> (g * NF + f) & 1) { want[fmt("call f%d()", f)] += 2 * (f + 1); }
      R->count("transitions", want.size() + 1); if (er.empty()) er = diff(want, got);
      if (!er.empty()) R->fail("sub-" + key("", er), fmt("per-group function subsets %x: ", m) + er);
    }
    clReleaseKernel(k); clReleaseProgram(p);
  }
}
VF_MAIN(body)
