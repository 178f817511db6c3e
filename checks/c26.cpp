// C26: command lines of the launcher and the kernel runner.
#include "vf.hpp"
#include <algorithm>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vf; using std::map; using std::pair;
static string root, probe, shim, plugA, plugB, pchdir, dir;
static string slurp(const string& f) { FILE* h = fopen(f.c_str(), "r"); if (!h) return ""; string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static void spit(const string& f, const string& s) { FILE* h = fopen(f.c_str(), "w"); if (!h) R->internal("cannot write " + f); fwrite(s.data(), 1, s.size(), h); fclose(h); }
struct Res { int status = 0; string out, err; bool ran = false; vector<string> argv; map<string, string> env; string note; vector<string> dumps; };
static string in_ = "";
static Res launch(const string& exe, const vector<string>& args, map<string, string> envv, const string& arg0 = "")
{
  R->count("transitions"); R->tick(); string rec = dir + "/rec", nt = dir + "/note", dd = dir + "/dump"; unlink(rec.c_str()); unlink(nt.c_str()); if (system(("rm -rf " + dd + " && mkdir " + dd).c_str())) {}
  envv["VF_REC"] = rec; envv["VF_NOTE"] = nt; envv["VF_DUMP"] = dd; spit(dir + "/in", in_); int o = memfd_create("o", 0), e = memfd_create("e", 0); vector<string> es; for (auto& x : envv) es.push_back(x.first + "=" + x.second); fflush(0); pid_t p = fork();
  if (!p)
  {
    int n = open((dir + "/in").c_str(), O_RDONLY); dup2(n, 0); dup2(o, 1); dup2(e, 2); fcntl(1, F_SETFL, O_APPEND); fcntl(2, F_SETFL, O_APPEND); struct rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); alarm(60); if (chdir(dir.c_str())) _exit(99);
    for (int i = 1; i < 32; i++) signal(i, SIG_DFL); sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, 0); /* whatever this process inherited */ vector<char*> av, ev; av.push_back((char*)(arg0.empty() ? exe.c_str() : arg0.c_str())); for (auto& x : args) av.push_back((char*)x.c_str()); av.push_back(0); for (auto& x : es) ev.push_back((char*)x.c_str()); ev.push_back(0); execve(exe.c_str(), av.data(), ev.data()); _exit(98);
  }
  Res r; waitpid(p, &r.status, 0); auto rd = [](int fd) { off_t n = lseek(fd, 0, SEEK_END); string s(n, 0); if (n && pread(fd, &s[0], n, 0) < 0) {} close(fd); return s; }; r.out = rd(o); r.err = rd(e); r.note = slurp(nt);
  string s = slurp(rec); if (!s.empty()) { r.ran = true; const char* c = s.c_str(); auto num = [&]() { long v = strtol(c, (char**)&c, 10); c++; return v; }; long n = num(); auto str = [&]() { long l = num(); string t(c, l); c += l; return t; }; for (long i = 0; i < n; i++) r.argv.push_back(str()); n = num(); for (long i = 0; i < n; i++) { string t = str(); size_t q = t.find('='); r.env[t.substr(0, q)] = t.substr(q + 1); } }
  FILE* ls = popen(("ls " + dd).c_str(), "r"); char b[500]; if (access(dd.c_str(), R_OK) == 0) while (fgets(b, 500, ls)) { string x = b; if (x.size()) x.pop_back(); r.dumps.push_back(x); } pclose(ls);
  return r;
}
static string join(const vector<string>& v) { string r; for (auto& x : v) r += (r.empty() ? "" : " ") + ("'" + (x.size() > 60 ? x.substr(0, 60) + "..." : x) + "'"); return r; }
static string desc(const Res& r) { return fmt(" [status %s %d, application %s, stdout \"", WIFEXITED(r.status) ? "exit" : "signal", WIFEXITED(r.status) ? WEXITSTATUS(r.status) : WTERMSIG(r.status), r.ran ? "ran" : "did not run") + r.out.substr(0, 300) + "\" stderr \"" + r.err.substr(0, 500) + "\"]"; }
struct Opt { string name, alias; bool val; bool both; }; // both: accepted by the kernel runner as well
static const vector<Opt> OPTS = {{"--build-options", "", true, true}, {"--check-api", "", false, false}, {"--compute-units", "", true, true}, {"--constant-mem-size", "", true, true}, {"--data-races", "", false, true}, {"--disable-pch", "", false, true}, {"--dump-spir", "", false, true}, {"--global-mem-size", "", true, true}, {"--inst-counts", "", false, true}, {"--interactive", "-i", false, true}, {"--local-mem-size", "", true, true}, {"--log", "", true, true}, {"--max-errors", "", true, true}, {"--max-wgsize", "", true, true}, {"--num-threads", "", true, true}, {"--pch-dir", "", true, true}, {"--plugins", "", true, true}, {"--quick", "-q", false, true}, {"--uniform-writes", "", false, true}, {"--uninitialized", "", false, true}};
static map<string, string> BASE;
static map<string, string> strip(map<string, string> e) { for (auto k : {"VF_REC", "VF_NOTE", "VF_DUMP", "_", "PWD", "SHLVL", "OLDPWD"}) e.erase(k); return e; }
static string L;
static void checkEnvLayer()
{
  bool T = R->thorough; auto fail = [&](const string& k, const string& m) { R->fail(k, R->curCase + ": " + m); };
  // what each option changes, learnt from its own run (that the change is the documented feature is judged on the full program below)
  Res b0 = launch(L, {probe, "x"}, BASE); if (!b0.ran) { if (R->begin("launch/plain")) fail("launch", "the launcher does not start the application" + desc(b0)); return; }
  map<string, string> e0 = strip(b0.env); map<string, string> var; map<string, string> one; std::set<string> seen;
  for (auto& o : OPTS) { vector<string> a = {o.name}; if (o.val) a.push_back("VALUE"); a.push_back(probe); Res r = launch(L, a, BASE); vector<pair<string, string>> d; for (auto& x : strip(r.env)) if (!e0.count(x.first) || e0[x.first] != x.second) d.push_back(x); if (R->begin("single/" + o.name)) { R->count("states"); R->count("traces_validated_against_impl"); if (!r.ran) fail("rejected:" + o.name, "a valid option is rejected" + desc(r)); else if (d.empty()) fail("no-effect:" + o.name, "the option changes nothing in the launched application's environment"); else if (d.size() != 1) fail("effects:" + o.name, fmt("the option changes %zu settings", d.size())); else if (o.val && d[0].second != "VALUE") fail("value:" + o.name, "the value given arrives as '" + d[0].second + "'"); else if (!seen.insert(d[0].first).second) fail("shared:" + o.name, "the option changes the same setting as another one"); if (!r.out.empty() || !r.err.empty()) fail("noise", "output of the launcher itself" + desc(r)); } else if (d.size() == 1) seen.insert(d[0].first);
    if (d.size() == 1) { var[o.name] = d[0].first; one[o.name] = d[0].second; } else return; }
  if (R->begin("environment")) { R->count("states"); for (auto& x : strip(BASE)) if (x.first != "LD_PRELOAD" && x.first != "LD_LIBRARY_PATH" && e0[x.first] != x.second) fail("environment", "variable " + x.first + " of the launcher's environment does not reach the application unchanged"); for (auto& x : e0) if (!BASE.count(x.first) && x.first.compare(0, 3, "LD_")) fail("environment", "variable " + x.first + " appears in the application's environment although no option was given"); }
  // sequences of options, valid and not
  struct Tok { vector<string> a; const Opt* o; string v; char kind; }; vector<Tok> tk; for (auto& o : OPTS) { if (!o.val) tk.push_back({{o.name}, &o, one[o.name], 'o'}); else for (string v : {"v1", "--quick", "", "a b=c\"'$x", "-h"}) tk.push_back({{o.name, v}, &o, v, 'o'}); if (!o.alias.empty()) tk.push_back({{o.alias}, &o, one[o.name], 'o'}); }
  for (string u : {"--unknown", "-x", "-", "--", "--quick=1", "-qi", "--Quick", "--data-race", "--data-racess", "-V", "--uninitialised", "--max-errors=3", "-g", "--global-mem"}) tk.push_back({{u}, 0, u, 'u'}); for (string u : {"-h", "--help", "-v", "--version"}) tk.push_back({{u}, 0, u, 'h'});
  auto judge = [&](const vector<const Tok*>& s, int tail) {
    R->count("states"); vector<string> a; for (auto* t : s) a.insert(a.end(), t->a.begin(), t->a.end()); if (tail == 2) a.pop_back(); string last = a.empty() ? "" : a.back(); vector<string> app = {probe, "--quick", "x"}; if (tail == 0) a.insert(a.end(), app.begin(), app.end()); Res r = launch(L, a, BASE); string id = "oclgrind " + join(a); char first = 0; string bad; for (auto* t : s) { if (t->kind != 'o' && !first) { first = t->kind; bad = t->a[0]; } } bool missing = tail == 2 && !first; R->count("traces_validated_against_impl");
    if (!WIFEXITED(r.status)) { fail("crash", id + ": the launcher crashes" + desc(r)); return; } int rc = WEXITSTATUS(r.status);
    if (first || tail) { if (r.ran) { fail("launched", id + ": the application is launched although " + (first == 'u' ? "an option is not valid" : first ? "information was requested" : missing ? "a value is missing" : "no command is given")); return; }
      if (first == 'h') { if (rc) fail("help-status", id + fmt(": status %d", rc)); if (r.out.find(bad == "-h" || bad == "--help" ? "Usage" : "Oclgrind") == string::npos) fail("help-text", id + ": no information printed" + desc(r)); return; }
      if (!rc) fail("status", id + ": a wrong command line gives status 0" + desc(r)); string all = r.out + r.err; if (all.find_first_not_of(" \n") == string::npos) fail("silent", id + ": rejected without a message"); else if (first == 'u' && all.find(bad) == string::npos) fail("message", id + ": the message does not name the option" + desc(r)); else if (missing && all.find(last) == string::npos) fail("message", id + ": the message does not name the option" + desc(r)); else if (tail == 1 && !first && all.find("Usage") == string::npos) fail("message", id + ": no usage information" + desc(r)); return; }
    if (!r.ran || rc) { fail("rejected", id + ": valid options are rejected" + desc(r)); return; } map<string, string> want = e0; for (auto* t : s) want[var[t->o->name]] = t->v; map<string, string> got = strip(r.env); for (auto& x : want) if (!got.count(x.first) || got[x.first] != x.second) { fail("combination", id + ": " + x.first + " is '" + (got.count(x.first) ? got[x.first] : "(unset)") + "' instead of '" + x.second + "'"); return; } for (auto& x : got) if (!want.count(x.first)) { fail("combination", id + ": " + x.first + " is set to '" + x.second + "'"); return; } if (r.argv != app) fail("arguments", id + ": the application receives " + join(r.argv)); };
  if (R->begin("none")) { judge({}, 0); judge({}, 1); }
  for (auto& t : tk) if (R->begin("seq1/" + join(t.a))) { judge({&t}, 0); judge({&t}, 1); if (t.kind == 'o' && t.o->val) judge({&t}, 2); }
  for (size_t i = 0; i < tk.size(); i++) for (size_t j = 0; j < tk.size(); j++) if (R->begin("seq2/" + join(tk[i].a) + "/" + join(tk[j].a))) { judge({&tk[i], &tk[j]}, 0); if (T || i % 7 == j % 7) { judge({&tk[i], &tk[j]}, 1); } if (tk[j].kind == 'o' && tk[j].o->val && tk[j].v == "v1") judge({&tk[i], &tk[j]}, 2); }
  if (T) { vector<Tok*> f; for (auto& t : tk) if (t.v == "v1" || (t.kind == 'o' && !t.o->val) || t.v == "--unknown" || t.v == "-h") f.push_back(&t); for (auto* x : f) for (auto* y : f) if (R->begin("seq3/" + join(x->a) + "/" + join(y->a))) for (auto* z : f) judge({x, y, z}, 0); }
  if (R->begin("all")) { vector<const Tok*> s; for (auto& t : tk) if (t.kind == 'o' && (!t.o->val || t.v == "v1")) s.push_back(&t); judge(s, 0); std::reverse(s.begin(), s.end()); judge(s, 0); s.insert(s.end(), s.begin(), s.end()); judge(s, 0); }
  // arguments of the application
  vector<vector<string>> av = {{}, {""}, {" "}, {"", ""}, {"--quick"}, {"-h"}, {"--"}, {"--unknown", "-x"}, {"*", "?", "$HOME", "`ls`", "a;b", "a|b", "\\", "'", "\""}, {"a\nb", "\t"}, {"\xc3\xa9", "\xff\xfe"}, {string(100000, 'x')}, vector<string>(500, "y"), {"--log"}, {"--max-errors", "3"}, {"oclgrind"}, {"-", "-1"}};
  for (size_t i = 0; i < av.size(); i++) for (string pre : {"", "--data-races", "--log"}) if (R->begin(fmt("args/%zu/", i) + pre)) { R->count("states"); vector<string> a; if (!pre.empty()) a.push_back(pre); if (pre == "--log") a.push_back("f"); a.push_back(probe); a.insert(a.end(), av[i].begin(), av[i].end()); Res r = launch(L, a, BASE); vector<string> w = {probe}; w.insert(w.end(), av[i].begin(), av[i].end()); if (!r.ran || r.argv != w) fail("arguments", "the application receives " + join(r.argv) + " instead of " + join(w)); }
  // ways to name the command
  struct C { string cmd; bool ok; }; string base = probe.substr(probe.rfind('/') + 1); if (symlink(probe.c_str(), (dir + "/prog").c_str())) {} spit(dir + "/noexec", "x"); spit(dir + "/script", "#!/bin/sh\nexec " + probe + " \"$@\"\n"); chmod((dir + "/script").c_str(), 0755); spit(dir + "/junk", "\177ELFjunk"); chmod((dir + "/junk").c_str(), 0755); map<string, string> pe = BASE; pe["PATH"] = probe.substr(0, probe.rfind('/')) + ":/usr/bin:/bin";
  for (auto& c : vector<C>{{probe, true}, {base, true}, {"./prog", true}, {"prog", false}, {dir + "/script", true}, {"./noexec", false}, {"./junk", false}, {dir, false}, {"./missing", false}, {"missing-command", false}, {"", false}}) if (R->begin("command/" + c.cmd)) { R->count("states"); Res r = launch(L, {c.cmd, "a b"}, pe); if (c.ok) { if (!r.ran || r.argv.size() != 2 || r.argv[1] != "a b") fail("command", "'" + c.cmd + "' is not launched" + desc(r)); } else { if (r.ran || !WIFEXITED(r.status) || !WEXITSTATUS(r.status)) fail("command-status", "'" + c.cmd + "' cannot be run but the status says success" + desc(r)); if (r.err.empty()) fail("command-silent", "'" + c.cmd + "' cannot be run and there is no message"); } }
  // exit statuses, signals and streams
  for (int i = 0; i < 256; i++) if (R->begin(fmt("exit/%d", i))) { R->count("states"); Res r = launch(L, {probe, "exit", fmt("%d", i)}, BASE); if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) != i) fail("exit", fmt("the application exits with %d", i) + desc(r)); }
  for (int s : {SIGHUP, SIGINT, SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGPIPE}) if (R->begin(fmt("signal/%d", s))) { R->count("states"); Res r = launch(L, {probe, "kill", fmt("%d", s)}, BASE); if (!WIFSIGNALED(r.status) || WTERMSIG(r.status) != s) fail("signal", fmt("the application dies of signal %d", s) + desc(r)); }
  if (R->begin("streams")) { string all; for (int i = 0; i < 256; i++) all += (char)i; in_ = all; Res r = launch(L, {"--quick", probe, "cat"}, BASE); in_ = ""; if (r.out != all || r.err != all) fail("streams", "input and output of the application are changed" + desc(r)); }
  // existing loader settings are kept
  for (string pl : {"", shim.c_str(), "A"}) for (string lp : {"", "/x/y", "/x:/y"}) if (R->begin("loader/" + pl.substr(pl.rfind('/') + 1) + "/" + lp)) { R->count("states"); map<string, string> e = BASE; e.erase("LD_PRELOAD"); if (pl == "A") e["LD_PRELOAD"] = shim + ":" + root + "/stub/extra.so"; else if (!pl.empty()) e["LD_PRELOAD"] = pl; if (!lp.empty()) e["LD_LIBRARY_PATH"] = lp; Res r = launch(L, {probe}, e); string p = r.env["LD_PRELOAD"], l = r.env["LD_LIBRARY_PATH"], rt = root + "/stub/lib"; auto first = [](const string& s) { return s.substr(0, s.find(':')); }; auto rest = [](const string& s) { size_t q = s.find(':'); return q == string::npos ? string() : s.substr(q + 1); }; if (first(p) != rt + "/liboclgrind-rt.so") fail("preload", "LD_PRELOAD is '" + p + "'"); if (rest(p) != e["LD_PRELOAD"]) fail("preload", "an existing LD_PRELOAD becomes '" + p + "'"); if (first(l) != rt) fail("libpath", "LD_LIBRARY_PATH is '" + l + "'"); if (rest(l) != lp) fail("libpath", "an existing LD_LIBRARY_PATH becomes '" + l + "'"); }
  // where the launcher is installed, and how it is called
  for (int n = 1; n <= (T ? 3000 : 700); n += n < 64 ? 1 : n < 400 ? 7 : 61) if (R->begin(fmt("path/%d", n))) { R->count("states"); string p = dir; for (int left = n; left > 0; left -= 201) p += "/" + string(std::min(left, 200), 'd'); if (system(("mkdir -p " + p + "/bin " + p + "/lib && cp " + L + " " + p + "/bin/oclgrind && cp " + root + "/stub/lib/liboclgrind-rt.so " + p + "/lib/").c_str())) R->internal("mkdir"); unlink((dir + "/ln").c_str()); if (symlink((p + "/bin/oclgrind").c_str(), (dir + "/ln").c_str())) {} for (int way = 0; way < 3; way++) { Res r = launch(way == 1 ? dir + "/ln" : p + "/bin/oclgrind", {"--quick", probe, "q"}, BASE, way == 2 ? "oclgrind" : ""); string w = p + "/lib/liboclgrind-rt.so"; if (!r.ran || r.env["LD_PRELOAD"].compare(0, w.size(), w)) fail("location", fmt("path of %zu characters, way %d: LD_PRELOAD is '", p.size(), way) + r.env["LD_PRELOAD"].substr(0, 400) + "'" + desc(r)); } if (system(("rm -rf " + dir + "/" + string(std::min(n, 200), 'd')).c_str())) {} }
}
// ---- all features ----
static const char* SRC = "#ifndef VF_A\n#define VF_A 1\n#endif\nkernel void all(global int *out, global int *u, volatile global int *sm, volatile global int *w)\n{\n  size_t g = get_group_id(0);\n  out[g] = VF_A;\n  w[0] = g + 1;\n  w[1] = 7;\n  if (g == 0)\n  {\n    for (int i = 1; i <= 5; i++) sm[i];\n    if (u[0] > 3) w[3] = 1;\n  }\n}\n";
typedef map<string, string> Conf; typedef vector<pair<string, string>> Cmd;
static map<string, string> DEF; // device limits without options
static string kv(const string& s, const string& k) { size_t p = s.find(" " + k + "="); if (p == string::npos) return "?"; p += k.size() + 2; return s.substr(p, s.find_first_of(" \n", p) - p); }
static void feature(bool runner, const Cmd& cmd)
{
  R->count("states"); R->count("traces_validated_against_impl"); Conf c; vector<string> a; string lf = dir + "/log"; unlink(lf.c_str()); for (auto& x : cmd) { c[x.first] = x.second; a.push_back(x.first); for (auto& o : OPTS) if (o.name == x.first && o.val) a.push_back(x.second); }
  if (runner) a.push_back(dir + "/t.sim"); else { a.push_back(probe); a.push_back("full"); } map<string, string> e = BASE; e["LD_PRELOAD"] = shim; e["VF_SRC"] = dir + "/k.cl"; if (runner) e["LD_LIBRARY_PATH"] = root + "/inst/lib"; in_ = ""; for (int i = 0; i < 60; i++) in_ += "continue\n"; Res r = launch(root + (runner ? "/inst/bin/oclgrind-kernel" : "/inst/bin/oclgrind"), a, e); in_ = "";
  string id = (runner ? "oclgrind-kernel " : "oclgrind ") + join(a); auto fail = [&](const string& k, const string& m) { R->fail(k, id + ": " + m + desc(r)); };
  if (!WIFEXITED(r.status) || WEXITSTATUS(r.status)) { fail("feature-run", "the run fails"); return; } auto has = [&](const string& k) { return c.count(k) > 0; };
  // kernel results, build options and quick mode
  string v = has("--build-options") ? c["--build-options"].substr(c["--build-options"].rfind('=') + 1) : "1", out; for (int i = 0; i < 8; i++) { string x = has("--quick") && i && i < 7 ? "0" : v; out += runner ? fmt("  out[%d] = ", i) + x + "\n" : x + ","; } if (r.out.find(out) == string::npos) fail("results", "the kernel's results are not those of the options; expected \"" + out + "\"");
  // device limits
  if (!runner) { auto num = [&](const char* k, const char* o) { string w = has(o) ? c[o] : DEF[k]; if (kv(r.out, k) != w) fail(string("device:") + o, fmt("device reports %s=", k) + kv(r.out, k) + " instead of " + w); }; num("cu", "--compute-units"); num("gm", "--global-mem-size"); num("cm", "--constant-mem-size"); num("lm", "--local-mem-size"); num("wg", "--max-wgsize"); num("wi", "--max-wgsize"); num("ma", "--global-mem-size"); if (kv(r.out, "ew") != fmt("%d", CL_INVALID_WORK_GROUP_SIZE) && kv(r.out, "ew") != fmt("%d", CL_INVALID_WORK_ITEM_SIZE)) fail("limit:--max-wgsize", "a work-group above the limit is accepted"); int n = countOf(r.err, "OpenCL runtime error"); if (has("--check-api") ? n < 1 : n) fail("check-api", fmt("%d reports of runtime API errors, with --check-api %s", n, has("--check-api") ? "given" : "not given")); }
  // messages
  string log = slurp(lf), msg = has("--log") ? log : r.err; if (has("--log")) { if (r.err.find("Invalid read") != string::npos) fail("log", "a message appears on stderr instead of the log file"); } else if (!log.empty()) fail("log", "a log file appears");
  long lim = has("--max-errors") ? atol(c["--max-errors"].c_str()) : 1000; int oob = countOf(msg, "Invalid read of size"), un = countOf(msg, "ninitialized value"), race = countOf(msg, "Write-write data race"), uni = countOf(msg, "  w[1] = 7;"), ro = race - uni / 2; bool R1 = has("--data-races"), U1 = has("--uninitialized"); int total = oob + un + race;
  if (!R1 && race) fail("feature:--data-races", "data races are reported without the option"); if (!U1 && un) fail("feature:--uninitialized", "uninitialised values are reported without the option"); if (uni && !(R1 && has("--uniform-writes"))) fail("feature:--uniform-writes", "a uniform write is reported without the option"); if (oob > 5 || un > 1) fail("messages", fmt("%d invalid reads and %d uninitialised values reported", oob, un));
  if (lim >= 1000) { if (oob != 5) fail("messages", fmt("%d invalid reads reported instead of 5", oob)); if (U1 && un != 1) fail("feature:--uninitialized", "an uninitialised value is not reported"); if (R1 && !ro) fail("feature:--data-races", "a data race is not reported"); if (R1 && has("--uniform-writes") && !uni) fail("feature:--uniform-writes", "a uniform write is not reported"); }
  else { int least = 5 + U1 + R1; if (total != std::min<long>(lim, std::max(total, least))) fail("feature:--max-errors", fmt("%d messages with a limit of %ld and at least %d errors", total, lim, least)); }
  if (countOf(msg, "suppressing") != (lim < 5)) if (!(lim < 100 && lim >= 5)) fail("feature:--max-errors", fmt("the notice of suppressed errors appears %d times", countOf(msg, "suppressing")));
  // reports
  bool ic = (r.out + r.err + log).find("Instructions executed for kernel 'all'") != string::npos; if (ic != has("--inst-counts")) fail("feature:--inst-counts", "instruction counts do not match the option");
  bool in = r.out.find("size_t g = get_group_id(0);") != string::npos; if (in != has("--interactive")) fail("feature:--interactive", "the debugger does not match the option");
  if (runner) { bool gm = r.out.find("Global Memory") != string::npos; if (gm != (has("-g") || has("--global-mem"))) fail("feature:--global-mem", "the dump of global memory does not match the option"); }
  // plugins
  for (string n : {"A", "B"}) { bool want = has("--plugins") && c["--plugins"].find("c26plug" + n) != string::npos; int l = countOf(r.out, "PLUGIN-" + n + "\n"), k = countOf(r.out, "PLUGIN-" + n + " kernel"); if (l != want || k != want) fail("feature:--plugins", fmt("plugin %s is loaded %d times and told of the kernel %d times", n.c_str(), l, k)); }
  // precompiled header
  { string want = has("--disable-pch") ? "" : has("--pch-dir") ? c["--pch-dir"] : root + "/inst/lib/../include/oclgrind"; std::set<string> dirs; std::istringstream ns(r.note); string ln; while (getline(ns, ln)) if (ln.compare(0, 4, "PCH ") == 0) { char* q = realpath(ln.substr(4).c_str(), 0); if (q) { string d = q; free(q); dirs.insert(d.substr(0, d.rfind('/'))); } } string wd; if (!want.empty()) { char* q = realpath(want.c_str(), 0); if (q) { wd = q; free(q); } } if (has("--pch-dir") && !has("--disable-pch") && access((c["--pch-dir"] + "/opencl-c-1.2-64.pch").c_str(), R_OK)) wd = ""; if (wd.empty() ? !dirs.empty() : dirs != std::set<string>{wd}) fail("feature:pch", "precompiled header used from '" + (dirs.empty() ? "" : *dirs.begin()) + "' instead of '" + wd + "'"); }
  // dumped files
  { bool cl = false, ll = false, bc = false; for (auto& d : r.dumps) { if (d.compare(0, 9, "oclgrind_")) continue; string x = d.substr(d.rfind('.') + 1); string t = slurp(dir + "/dump/" + d); cl |= x == "cl" && t.find("out[g] = VF_A") != string::npos; ll |= x == "ll" && t.find("define") != string::npos; bc |= x == "bc" && t.compare(0, 2, "BC") == 0; } if (has("--dump-spir") ? !(ll && bc) : !r.dumps.empty()) fail("feature:--dump-spir", fmt("%zu dumped files", r.dumps.size())); }
  // worker threads
  { int n = countOf(r.note, "THREAD"); if (has("--num-threads") && !has("--interactive")) { int w = atoi(c["--num-threads"].c_str()); bool exact = !has("--plugins") && !has("--quick") && !has("--uninitialized"); if (n > w || (exact && n < w - 1)) fail("feature:--num-threads", fmt("%d worker threads instead of %d", n, w)); } }
}
static void body(int argc, char** argv)
{
  bool T = R->thorough; root = argv[1]; probe = argv[2]; shim = argv[3]; plugA = argv[4]; plugB = argv[5]; pchdir = argv[6]; char d[] = "/tmp/vf_c26_XXXXXX"; { char t[400]; snprintf(t, 400, "%s/s_XXXXXX", root.c_str()); dir = mkdtemp(t); } (void)d; L = root + "/stub/bin/oclgrind";
  BASE = {{"PATH", "/usr/bin:/bin"}, {"HOME", dir}, {"VF_X", "a b=c"}, {"LANG", "C"}};
  checkEnvLayer();
  // usage text
  for (bool runner : {false, true}) if (R->begin(fmt("usage/%d", runner)))
  {
    string exe = root + (runner ? "/inst/bin/oclgrind-kernel" : "/stub/bin/oclgrind"); Res r = launch(exe, {"--help"}, BASE); std::set<string> listed; std::istringstream ss(r.out); string l; spit(dir + "/empty.sim", "");
    while (getline(ss, l)) { size_t p = l.find_first_not_of(' '); if (p == string::npos || l.compare(p, 2, "--") || p > 4) continue; string n = l.substr(p, l.find_first_of(" \n", p) - p); listed.insert(n); size_t q = l.find("[-"); string al = q == string::npos ? "" : l.substr(q + 1, l.find(']', q) - q - 1); const Opt* o = 0; for (auto& x : OPTS) if (x.name == n && (!runner || x.both)) o = &x; bool info = n == "--help" || n == "--version"; bool gm = runner && n == "--global-mem"; if (!o && !info && !gm) { R->fail("usage:" + n, "the usage text lists " + n + ", which is not known to the reference"); continue; } R->count("states");
      auto outcome = [&](const string& opt) { vector<string> a = {opt}; if (o && o->val) a.push_back("1"); if (runner) a.push_back(dir + "/empty.sim"); else a.push_back(probe); Res x = launch(exe, a, BASE); string s = fmt("%d ", x.status) + x.out + "|" + x.err + "|"; for (auto& y : strip(x.env)) s += y.first + "=" + y.second + ";"; return s; }; string on = outcome(n); if (on.find("Unrecognised") != string::npos) R->fail("usage:" + n, "the usage text lists " + n + ", but it is rejected"); if (!al.empty() && outcome(al) != on) R->fail("usage:" + al, (runner ? "oclgrind-kernel: " : "oclgrind: ") + ("the usage text gives " + al + " as the short form of " + n + ", but they do not do the same")); }
    for (auto& o : OPTS) if ((!runner || o.both) && !listed.count(o.name)) R->fail("usage-missing:" + o.name, "the usage text does not list " + o.name);
  }
  // options of the kernel runner
  string K = root + "/inst/bin/oclgrind-kernel"; spit(dir + "/k.cl", SRC); spit(dir + "/t.sim", dir + "/k.cl\nall\n8 1 1\n1 1 1\n<size=32 fill=0 dump>\n<size=4 noinit>\n<size=4 fill=1>\n<size=16 fill=0>\n");
  { vector<vector<string>> bad; for (string u : {"--unknown", "-x", "-", "--", "--quick=1", "-qi", "--check-api", "--Quick"}) { bad.push_back({u, dir + "/t.sim"}); bad.push_back({dir + "/t.sim", u}); bad.push_back({"--quick", u, dir + "/t.sim"}); } for (auto& o : OPTS) if (o.val && o.both) { bad.push_back({o.name}); bad.push_back({dir + "/t.sim", o.name}); } bad.push_back({}); bad.push_back({"--quick"}); bad.push_back({dir + "/t.sim", dir + "/t.sim"}); bad.push_back({dir + "/t.sim", "x"}); bad.push_back({"--quick", "1"}); bad.push_back({""}); bad.push_back({dir + "/missing.sim"}); bad.push_back({dir});
    for (auto& a : bad) if (R->begin("runner-bad/" + join(a))) { R->count("states"); Res r = launch(K, a, BASE); if (!WIFEXITED(r.status)) R->fail("crash", "oclgrind-kernel " + join(a) + ": crash" + desc(r)); else if (!WEXITSTATUS(r.status) || r.out.find("Argument 'out'") != string::npos) R->fail("launched", "oclgrind-kernel " + join(a) + ": a wrong command line is accepted" + desc(r)); else if ((r.out + r.err).find_first_not_of(" \n") == string::npos) R->fail("silent", "oclgrind-kernel " + join(a) + ": rejected without a message"); }
    for (string h : {"-h", "--help", "-v", "--version"}) for (string pre : {"", "--quick"}) if (R->begin("runner-info/" + h + pre)) { vector<string> a; if (!pre.empty()) a.push_back(pre); a.push_back(h); a.push_back("x.sim"); Res r = launch(K, a, BASE); if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) || r.out.find(h == "-h" || h == "--help" ? "Usage" : "Oclgrind") == string::npos) R->fail("help-text", "oclgrind-kernel " + join(a) + desc(r)); } }
  // features
  { map<string, string> e = BASE; e["LD_PRELOAD"] = shim; e["VF_SRC"] = dir + "/k.cl"; Res r = launch(root + "/inst/bin/oclgrind", {probe, "full"}, e); for (string k : {"cu", "gm", "cm", "lm", "wg", "wi", "ma"}) DEF[k] = kv(r.out, k); if (DEF["cu"] == "?") { if (R->begin("feature/plain")) R->fail("launch", "an OpenCL application does not run under the launcher" + desc(r)); return; } }
  string lg = dir + "/log"; Cmd tk = {{"--build-options", "-DVF_A=3"}, {"--check-api", ""}, {"--compute-units", "3"}, {"--constant-mem-size", "4096"}, {"--data-races", ""}, {"--disable-pch", ""}, {"--dump-spir", ""}, {"--global-mem-size", "1000000"}, {"--inst-counts", ""}, {"--interactive", ""}, {"--local-mem-size", "1024"}, {"--log", lg}, {"--max-errors", "2"}, {"--max-wgsize", "16"}, {"--num-threads", "3"}, {"--pch-dir", pchdir}, {"--plugins", plugA + ":" + plugB}, {"--quick", ""}, {"--uniform-writes", ""}, {"--uninitialized", ""}, {"-g", ""}};
  auto both = [&](const Cmd& c, const string& id) { bool ra = true, la = true; for (auto& x : c) { if (x.first == "--check-api") ra = false; if (x.first == "-g" || x.first == "--global-mem") la = false; } if (la && R->begin("feature/" + id)) feature(false, c); if (ra && R->begin("feature-kernel/" + id)) feature(true, c); };
  both({}, "none"); for (size_t i = 0; i < tk.size(); i++) { both({tk[i]}, tk[i].first); for (size_t j = T ? 0 : i + 1; j < tk.size(); j++) if (i != j) both((i * 3 + j) % 2 || T ? Cmd{tk[i], tk[j]} : Cmd{tk[j], tk[i]}, tk[i].first + "/" + tk[j].first); }
  for (auto& x : Cmd{{"--build-options", "-D VF_A=9"}, {"--build-options", "-DVF_B -DVF_A=12"}, {"--compute-units", "4294967295"}, {"--global-mem-size", "8589934592"}, {"--global-mem-size", "4294967296"}, {"--constant-mem-size", "5000000000"}, {"--local-mem-size", "4294967297"}, {"--max-wgsize", "1"}, {"--max-wgsize", "8000000000"}, {"--max-errors", "0"}, {"--max-errors", "1"}, {"--max-errors", "4"}, {"--max-errors", "5"}, {"--max-errors", "6"}, {"--max-errors", "100000"}, {"--max-errors", "4294967296"}, {"--num-threads", "1"}, {"--num-threads", "2"}, {"--num-threads", "7"}, {"--num-threads", "20"}, {"--pch-dir", "/nonexistent"}, {"--pch-dir", dir}, {"--plugins", plugA}, {"--plugins", plugB}, {"--plugins", plugB + ":" + plugA}, {"--plugins", "/nonexistent.so:" + plugA}, {"--plugins", ""}, {"--plugins", shim}}) { both({x}, x.first + "=" + x.second); both({x, {"--data-races", ""}}, x.first + "=" + x.second + "/races"); if (T) for (auto& y : tk) both({y, x}, x.first + "=" + x.second + "/" + y.first); }
  // the last value given counts
  for (auto& x : vector<Cmd>{{{"--max-errors", "0"}, {"--max-errors", "3"}}, {{"--max-errors", "3"}, {"--max-errors", "0"}}, {{"--compute-units", "2"}, {"--compute-units", "5"}}, {{"--num-threads", "7"}, {"--num-threads", "2"}}, {{"--build-options", "-DVF_A=4"}, {"--build-options", "-DVF_A=5"}}}) both(x, x[0].first + "/" + x[0].second + "/" + x[1].second);
  { Cmd all; for (auto& x : tk) if (x.first != "--check-api" && x.first != "-g" && x.first != "--interactive") all.push_back(x); both(all, "all"); std::reverse(all.begin(), all.end()); both(all, "all-reversed"); }
  // malformed numbers are refused rather than taken for something else
  for (string o : {"--compute-units", "--constant-mem-size", "--global-mem-size", "--local-mem-size", "--max-errors", "--max-wgsize", "--num-threads"}) for (string v : {"abc", "5x", "0x10", "-1", "-5", "1.5", "99999999999999999999", "1e3", "5 6", "0"}) for (bool runner : {false, true})
  {
    if (v == "0" && o == "--max-errors") continue; if (runner && o != "--max-errors" && o != "--num-threads") continue; if (!R->begin("number/" + o + "/" + v + (runner ? "/kernel" : ""))) continue; R->count("states"); map<string, string> e = BASE; e["LD_PRELOAD"] = shim; e["VF_SRC"] = dir + "/k.cl"; vector<string> a = {o, v}; if (runner) a.push_back(dir + "/t.sim"); else { a.push_back(probe); a.push_back("full"); } Res r = launch(root + (runner ? "/inst/bin/oclgrind-kernel" : "/inst/bin/oclgrind"), a, e);
    if (WIFEXITED(r.status) && !WEXITSTATUS(r.status)) R->fail("number:" + o, (runner ? "oclgrind-kernel " : "oclgrind ") + join(a) + ": a malformed value is accepted" + desc(r)); else if (r.err.find_first_not_of(" \n") == string::npos) R->fail("number-silent:" + o, join(a) + ": refused without a message" + desc(r));
  }
}
VF_MAIN(body)
