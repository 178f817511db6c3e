// C29: a program that reaches Oclgrind through an ICD loader behaves as the same program linked against Oclgrind directly.
#include "vf.hpp"
#include <algorithm>
using namespace vf;
static vector<string> run(const string& cmd, int& rc)
{
  vector<string> l; FILE* f = popen(cmd.c_str(), "r"); if (!f) R->internal("popen"); string s; int c; while ((c = fgetc(f)) != EOF) if (c == '\n') { l.push_back(s); s.clear(); } else s += (char)c; if (s.size()) l.push_back(s); rc = pclose(f); return l;
}
static void body(int, char** argv)
{
  string direct = argv[1], viaIcd = argv[2], lib = argv[3]; stdEnv(argv[4]); env("VF_ICD_LIB", lib); env("OCLGRIND_LOG", "/dev/null"); int rc; vector<string> n = run(direct + " -n", rc); if (n.empty()) R->internal("no operation count"); int ops = atoi(n[0].c_str());
  for (int f = 0; f < ops; f++)
  {
    if (!R->begin(fmt("first operation %d", f))) continue;
    string args = fmt(" %d %d 2>/dev/null", f, R->thorough ? 4 : 3); int r1, r2; auto a = run("VF_IMPL=libOpenCL exec timeout " + string(R->thorough ? "700 " : "60 ") + direct + args, r1), b = run("VF_IMPL=oclgrind-rt-icd exec timeout " + string(R->thorough ? "700 " : "60 ") + viaIcd + args, r2); R->count("traces_validated_against_impl");
    auto judge = [&](const char* how, const vector<string>& x, int r) { for (auto& s : x) { size_t p = s.find("BAD"); if (p != string::npos) { size_t t = s.rfind("BAD:table", p); R->fail(string(how) + ":" + s.substr(p, s.find_first_of(' ', p + 18) - p), R->curCase + ": " + how + ": " + s.substr(p, 200)); return; } } if (x.empty() || x.back() != "END") R->fail(string(how) + ":dies", R->curCase + fmt(": %s: the program stops (status %x) after %zu sequences; last: ", how, r, x.size()) + (x.empty() ? "" : x.back().substr(0, 300))); };
    judge("linked directly", a, r1); judge("through the ICD loader", b, r2);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) { R->count("states"); R->count("transitions", std::count(a[i].begin(), a[i].end(), '<')); if (a[i] == b[i]) continue; size_t k = 0; while (k < a[i].size() && k < b[i].size() && a[i][k] == b[i][k]) k++; size_t op = a[i].rfind('<', k); R->fail("differs:" + a[i].substr(op, a[i].find('>', op) + 1 - op), R->curCase + fmt(": sequence %zu, operation ", i) + a[i].substr(op, 30) + ": directly: ..." + a[i].substr(k > 40 ? k - 40 : 0, 140) + " through the loader: ..." + b[i].substr(k > 40 ? k - 40 : 0, 140)); break; }
  }
}
VF_MAIN(body)
