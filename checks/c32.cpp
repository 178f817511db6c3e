// C32: what kernels print and what is reported does not depend on how the host program has set up its streams and locale.
#include "vf.hpp"
#include <algorithm>
#include <clocale>
#include <iomanip>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/wait.h>
using namespace vf;
static const char* SRC = "kernel void k(global int* p, int n) { int i = get_global_id(0); printf(\"a%d bc %s|%5.2f%%;\\n%v4d x%c\", i + 100, \"lit\", i * 1.5f, (int4)(i, 2, 3, 4), 'A' + i); p[i] = i + n; if (i > 1) p[i + 5000] = n; printf(\" end%x\\n\", i + 254); }\n";
struct Cfg { bool sync; int buf, cout_, cerr_, lc; bool counts; };
static const char* COUT[] = {"untouched", "hex showbase uppercase", "width and fill", "failed", "redirected"}; static const char* CERR[] = {"untouched", "hex showbase", "width and fill"}; static const char* LC[] = {"none", "LANG unavailable", "LC_ALL unavailable", "LC_NUMERIC unavailable", "C.UTF-8"}; static const char* BUF[] = {"default", "unbuffered", "by line", "fully"};
struct Res { int st; string out, err, redir; };
static string pch;
static Res run(const Cfg& c)
{
  int o = memfd_create("o", 0), e = memfd_create("e", 0), x = memfd_create("x", 0); fcntl(o, F_SETFL, O_APPEND); fcntl(e, F_SETFL, O_APPEND); fflush(0); pid_t p = fork();
  if (!p)
  {
    alarm(60); dup2(o, 1); dup2(e, 2); for (auto v : {"LANG", "LC_ALL", "LC_NUMERIC", "LC_CTYPE"}) unsetenv(v); if (c.lc == 1) env("LANG", "xx_YY.UTF-8"); if (c.lc == 2) env("LC_ALL", "xx_YY.UTF-8"); if (c.lc == 3) env("LC_NUMERIC", "xx_YY"); if (c.lc == 4) env("LC_ALL", "C.UTF-8");
    if (c.lc) setlocale(LC_ALL, ""); env("OCLGRIND_MAX_ERRORS", "13"); if (c.counts) env("OCLGRIND_INST_COUNTS", "1"); else unsetenv("OCLGRIND_INST_COUNTS"); env("OCLGRIND_CHECK_API", "1");
    if (!c.sync) std::ios::sync_with_stdio(false); if (c.buf) setvbuf(stdout, 0, c.buf == 1 ? _IONBF : c.buf == 2 ? _IOLBF : _IOFBF, c.buf == 1 ? 0 : 1 << 16);
    std::ostringstream rd; std::streambuf* old = std::cout.rdbuf(); if (c.cout_ == 4) std::cout.rdbuf(rd.rdbuf());
    auto touch = [&] { if (c.cout_ == 1) std::cout << std::hex << std::showbase << std::uppercase; if (c.cout_ == 2) std::cout << std::setfill('*') << std::setw(14); if (c.cout_ == 3) std::cout.setstate(std::ios::failbit); if (c.cerr_ == 1) std::cerr << std::hex << std::showbase; if (c.cerr_ == 2) std::cerr << std::setfill('#') << std::setw(14); };
    touch(); CL cl; cl_program pr = cl.build(SRC); cl_kernel k = cl.kernel(pr, "k"); cl_mem b = cl.buf(64);
    for (int n = 0; n < 4; n++) { cl.arg(k, 0, b); cl.arg(k, 1, n); touch(); size_t g = 6, l = n % 2 ? 3 : 6; CK(clEnqueueNDRangeKernel(cl.q, k, 1, 0, &g, &l, 0, 0, 0)); touch(); clSetKernelArg(k, 9, 4, &n); touch(); CK(clFinish(cl.q)); }
    clReleaseMemObject(b); clReleaseKernel(k); clReleaseProgram(pr); cl.destroy(); fflush(stdout); std::cout.flush(); std::cout.rdbuf(old); string s = rd.str(); if (write(x, s.data(), s.size()) < 0) {} _exit(7);
  }
  int st; waitpid(p, &st, 0); auto rd = [](int fd) { off_t l = lseek(fd, 0, SEEK_END); string s(l, 0); if (l && pread(fd, &s[0], l, 0) < 0) {} close(fd); return s; }; Res r; r.st = st; r.out = rd(o); r.err = rd(e); r.redir = rd(x); return r;
}
// Separates the instruction count reports from the text.
static string split(string s, vector<string>& blocks)
{
  size_t p; while ((p = s.find("Instructions executed for kernel")) != string::npos) { size_t q = s.find("\n\n", p); if (q == string::npos) { blocks.push_back(s.substr(p)); s.erase(p); break; } blocks.push_back(s.substr(p, q + 2 - p)); s.erase(p, q + 2 - p); } return s;
}
static void body(int, char** argv)
{
  pch = argv[1]; stdEnv(pch); bool T = R->thorough; string text; for (int n = 0; n < 4; n++) for (int i = 0; i < 6; i++) text += fmt("a%d bc lit|%5.2f%%;\n%d,2,3,4 x%c end%x\n", i + 100, i * 1.5f, i, 'A' + i, i + 254);
  std::map<bool, Res> base; std::map<bool, vector<string>> bb;
  for (int counts = 0; counts < 2; counts++) for (int sync = 1; sync >= 0; sync--) for (int buf = 0; buf < (T ? 4 : 3); buf++) for (int co = 0; co < 5; co++) for (int ce = 0; ce < 3; ce++) for (int lc = 0; lc < 5; lc++)
  {
    if (!T && counts && buf == 1 && ce) continue;
    if (!R->begin(fmt("instruction counts %d, sync_with_stdio %d, stdout buffered %s, cout %s, cerr %s, locale %s", counts, sync, BUF[buf], COUT[co], CERR[ce], LC[lc]))) continue;
    if (!base.count(counts)) { base[counts] = run({true, 0, 0, 0, 0, (bool)counts}); vector<string> b; split(base[counts].out, b); bb[counts] = b; if (b.size() != (counts ? 4u : 0u)) R->internal("no instruction counts: " + base[counts].out); }
    R->count("states"); R->count("transitions", 4); Res r = run({(bool)sync, buf, co, ce, lc, (bool)counts}); string tail = " [stdout \"" + r.out.substr(0, 300) + "\" stderr \"" + r.err.substr(0, 300) + "\"]";
    if (!WIFEXITED(r.st) || WEXITSTATUS(r.st) != 7) { R->fail("dies", R->curCase + fmt(": the program ends with status %x", r.st) + tail); continue; }
    vector<string> b; string out = split(r.out, b), red = split(r.redir, b);
    if (out != text) { size_t i = 0; while (i < out.size() && i < text.size() && out[i] == text[i]) i++; R->fail("printf", R->curCase + fmt(": what kernels print is wrong from byte %zu: \"", i) + out.substr(i > 20 ? i - 20 : 0, 80) + "\", expected \"" + text.substr(i > 20 ? i - 20 : 0, 80) + "\""); }
    if (!red.empty()) R->fail("redirected", R->curCase + ": kernel output went to a stream of the host program: \"" + red.substr(0, 100) + "\"");
    if (co != 3 && b != bb[counts]) R->fail("counts", R->curCase + fmt(": %zu instruction count reports differ from the default ones", b.size()) + tail);
    if (r.err != base[counts].err) { size_t i = 0; while (i < r.err.size() && i < base[counts].err.size() && r.err[i] == base[counts].err[i]) i++; R->fail("reports", R->curCase + fmt(": the reports differ from byte %zu: \"", i) + r.err.substr(i > 20 ? i - 20 : 0, 80) + "\", by default \"" + base[counts].err.substr(i > 20 ? i - 20 : 0, 80) + "\""); }
    R->count("traces_validated_against_impl");
  }
}
VF_MAIN(body)
