// C30: a host program may end at any point of its use of the API, in any way: its exit status, what its kernels printed and what was reported must be complete.
#include "vf.hpp"
#include <algorithm>
#include <sys/wait.h>
#include <signal.h>
using namespace vf;
struct Res { int st; bool hung; string out, err, notes; };
static string exe, dir;
static Res run(const string& s, int mode)
{
  int o = memfd_create("o", 0), e = memfd_create("e", 0), n = memfd_create("n", 0); fcntl(o, F_SETFL, O_APPEND); fcntl(e, F_SETFL, O_APPEND); pid_t p = fork();
  if (!p) { for (int i = 1; i < 32; i++) signal(i, SIG_DFL); alarm(40); dup2(o, 1); dup2(e, 2); dup2(n, 3); string m = fmt("%d", mode); execl(exe.c_str(), exe.c_str(), s.c_str(), m.c_str(), (char*)0); _exit(127); }
  int st; waitpid(p, &st, 0); auto rd = [](int fd) { off_t l = lseek(fd, 0, SEEK_END); string x(l, 0); if (l && pread(fd, &x[0], l, 0) < 0) {} close(fd); return x; };
  Res r; r.st = st; r.hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM; r.out = rd(o); r.err = rd(e); r.notes = rd(n); return r;
}
static vector<string> lines(const string& s) { vector<string> v; string c; for (char x : s) if (x == '\n') { v.push_back(c); c.clear(); } else c += x; if (c.size()) v.push_back(c); return v; }
static const char* MODES[] = {"return from main", "exit", "finish, release all, return", "release all in the destructor of a static object", "finish and release in the destructor of a static object", "finish and release in an atexit function", "exit in an event callback", "exit in a second thread"};
static void one(const string& s, int mode, bool counts)
{
  R->count("states"); R->count("transitions", s.size() + 1); R->tick(); Res r = run(s, mode); string id = R->curCase + ": history '" + s + "', then " + MODES[mode]; string tail = " [stdout \"" + r.out.substr(0, 200) + "\" stderr \"" + r.err.substr(r.err.find("ERROR: Add") == string::npos ? 0 : r.err.find("ERROR: Add"), 500) + "\" notes \"" + r.notes.substr(0, 200) + "\"]";
  string k = fmt("mode%d", mode); if (r.hung) { R->fail("hangs/" + k, id + ": does not end" + tail); return; } if (!WIFEXITED(r.st)) { R->fail("crash/" + k, id + fmt(": ends with signal %d", WTERMSIG(r.st)) + tail); return; }
  if (WEXITSTATUS(r.st) != 7) { R->fail("status/" + k, id + fmt(": exit status %d instead of 7", WEXITSTATUS(r.st)) + tail); return; }
  // what must have been printed (completed) and may have been printed (pending when the program ended)
  vector<string> all; bool fin = false; long sum = 0, val = -1; vector<std::pair<char, int>> must, may; for (auto& l : lines(r.notes)) { if (l[0] == 'F') { fin = true; } else if (l[0] == 'V') val = atol(l.c_str() + 1); else if (l[0] == 'c' || l[0] == 'p') { int n = atoi(l.c_str() + 2); sum += n; if (l[0] == 'c') { for (auto& x : may) must.push_back(x); may.clear(); must.push_back({l[1], n}); } else may.push_back({l[1], n}); } }
  if (fin) { for (auto& x : may) must.push_back(x); may.clear(); } if ((mode == 2 || mode == 4 || mode == 5) && !fin) { R->fail("unfinished/" + k, id + ": commands were not finished" + tail); return; }
  if (val >= 0 && val != sum) { R->fail("value/" + k, id + fmt(": the buffer holds %ld instead of %ld", val, sum) + tail); return; }
  vector<int> got; bool start = false; for (auto& l : lines(r.out)) { if (l == "start") start = true; else if (l[0] == 'K') got.push_back(atoi(l.c_str() + 1)); }
  if (!start) { R->fail("stdout/" + k, id + ": output of the program is lost" + tail); return; } vector<int> w, wm; for (auto& x : must) if (x.first == 'K') w.push_back(x.second); wm = w; for (auto& x : may) if (x.first == 'K') wm.push_back(x.second);
  if (got.size() < w.size() || got.size() > wm.size() || !std::equal(got.begin(), got.end(), wm.begin())) { R->fail("printf/" + k, id + fmt(": %zu lines of kernel output, at least %zu are due", got.size(), w.size()) + tail); return; }
  size_t oo = 0, om = 0; for (auto& x : must) oo += x.first == 'O'; for (auto& x : may) om += x.first == 'O'; size_t rep = countOf(r.err, "Invalid write of size 4"); if (rep < oo || rep > oo + om) { R->fail("report/" + k, id + fmt(": %zu reports, %zu are due", rep, oo) + tail); return; }
  if (counts) { size_t c = countOf(r.out, "Instructions executed for kernel"); if (c < must.size() || c > must.size() + may.size()) { R->fail("counts/" + k, id + fmt(": %zu instruction count reports for %zu kernels", c, must.size()) + tail); return; } }
  R->count("traces_validated_against_impl");
}
static void body(int, char** argv)
{
  exe = argv[1]; stdEnv(argv[2]); vector<string> hs = {"", "P", "PC", "PCB", "PCQ", "PCBQ"}; string ops = "kKoOuUmnfcrx"; string pre = "PCBQ"; for (char a : ops) { hs.push_back(pre + a); for (char b : ops) { hs.push_back(pre + a + b); if (R->thorough) for (char c : ops) hs.push_back(pre + a + b + c); } }
  for (int cfg = 0; cfg < 3; cfg++)
  {
    env("OCLGRIND_NUM_THREADS", cfg == 2 ? "3" : "1"); for (auto v : {"OCLGRIND_DATA_RACES", "OCLGRIND_INST_COUNTS", "OCLGRIND_UNINITIALIZED", "OCLGRIND_CHECK_API"}) if (cfg == 1) env(v, "1"); else unsetenv(v);
    for (int m = 0; m < 8; m++) for (size_t i = 0; i < hs.size(); i++) { if (!R->thorough && hs[i].size() == 6 && cfg && (i + m + cfg) % 3) continue; if (!R->begin(fmt("configuration %d, ending %d, history %s", cfg, m, hs[i].c_str()))) continue; one(hs[i], m, cfg == 1); }
  }
}
VF_MAIN(body)
