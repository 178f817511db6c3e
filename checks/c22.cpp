// C22: interactive debugger sessions. Every command sequence up to a bound is run on small kernels and the transcript is compared,
// command by command, with a reference debugger over reference source-line traces.
#include "vf.hpp"
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <algorithm>
using namespace vf; using std::map; using std::set; using std::list; using std::pair;
static CL* cl; static Capture* errc; static string pch;
typedef vector<pair<string, string>> Vars;
struct Wr { int buf; int idx; int val; };
struct Seg { int line, depth; string fn; bool barrier = false, err = false; Vars vars; vector<Wr> wr; vector<int> callers; };
struct Tr // records the reference trace of one work-item
{
  vector<Seg> s; vector<Vars> fr{Vars()}; vector<string> fn{"k"}; vector<int> call; vector<pair<string, string>> pend; int maxLine = 0;
  void flush() { for (auto& p : pend) { bool f = false; for (auto& v : fr.back()) if (v.first == p.first) { v.second = p.second; f = true; } if (!f) fr.back().push_back(p); } pend.clear(); }
  Tr& at(int line) { flush(); Seg g; g.line = line; g.depth = fr.size() - 1; g.fn = fn.back(); g.vars = fr.back(); g.callers = call; s.push_back(g); return *this; }
  void set(const string& n, int v) { pend.push_back({n, std::to_string(v)}); }
  void wr(int b, int i, int v) { s.back().wr.push_back({b, i, v}); }
  void bar() { s.back().barrier = true; }
  void err() { s.back().err = true; }
  void enter(const string& f, Vars v) { flush(); call.push_back(s.back().line); fr.push_back(v); fn.push_back(f); }
  void leave() { pend.clear(); fr.pop_back(); fn.pop_back(); call.pop_back(); }
};
typedef std::array<long, 3> I3;
static string s3(const I3& a) { return fmt("(%ld,%ld,%ld)", a[0], a[1], a[2]); }
struct Prog { string name, src; vector<string> lines; std::function<void(Tr&, I3 gid, I3 lid, int gsize, vector<int>& a)> tr; // gid without offset
  bool local = false; vector<string> names; };
struct Cfg { Prog* p; int dim; I3 g, l, off; vector<int> a; int nb; };
// ---- reference simulation ----
struct MWI { I3 gid; int grp; vector<Seg> tr; size_t next = 0; enum { READY, BAR, FIN } st = READY; bool mid = false, errDone = false; };
struct Model
{
  Cfg* c; I3 ng; vector<MWI> w; vector<vector<int>> gw; vector<int> pending; list<int> running; vector<char> done; int cg = -1, cw = -1; size_t nextGrp = 0;
  map<int, int> bps; int nextBp = 1; bool cont = false, nxt = false, quit = false; int prevDepth = 0, prevLine = 0; bool over = false; int active = -1; vector<vector<int>> buf; vector<vector<int>> loc; vector<vector<char>> locW; // buf[1] is b; loc per group
  int listPos = 0; bool unclear = false; // a breakpoint was set on a line in the middle of which another work-item was left, or on the line before which the current one waits: whether it stops there again is not judged
  void start()
  {
    w.clear(); gw.clear(); pending.clear(); running.clear(); over = unclear = false; cont = nxt = false; prevDepth = prevLine = 0; active = -1; cg = cw = -1; nextGrp = 0; listPos = 0;
    for (int d = 0; d < 3; d++) ng[d] = (c->g[d] + c->l[d] - 1) / c->l[d];
    int n = ng[0] * ng[1] * ng[2]; gw.resize(n); done.assign(n, 0); buf.assign(2, {}); buf[0] = c->a; buf[1].assign(c->nb, 0); loc.assign(n, vector<int>(8, 0)); locW.assign(n, vector<char>(8, 0));
    for (int z = 0; z < ng[2]; z++) for (int y = 0; y < ng[1]; y++) for (int x = 0; x < ng[0]; x++)
    {
      int gi = x + ng[0] * (y + ng[1] * z); I3 grp = {x, y, z}, sz; for (int d = 0; d < 3; d++) sz[d] = std::min(c->l[d], c->g[d] - grp[d] * c->l[d]);
      for (int c2 = 0; c2 < sz[2]; c2++) for (int b = 0; b < sz[1]; b++) for (int a = 0; a < sz[0]; a++) { MWI m; m.grp = gi; I3 l = {a, b, c2}; for (int d = 0; d < 3; d++) m.gid[d] = grp[d] * c->l[d] + l[d]; gw[gi].push_back(w.size()); w.push_back(m); }
      pending.push_back(gi);
    }
    for (auto& m : w) { Tr t; I3 l, g, gr; for (int d = 0; d < 3; d++) { gr[d] = m.gid[d] / c->l[d]; l[d] = m.gid[d] % c->l[d]; g[d] = m.gid[d] + c->off[d]; } c->p->tr(t, m.gid, l, gw[m.grp].size(), c->a); m.tr = t.s; }
  }
  void commit(MWI& m) { if (!m.next) return; for (auto& x : m.tr[m.next - 1].wr) { (x.buf == 2 ? loc[m.grp] : buf[x.buf])[x.idx] = x.val; if (x.buf == 2) locW[m.grp][x.idx] = 1; } m.tr[m.next - 1].wr.clear(); }
  int ready(int g) { for (int i : gw[g]) if (w[i].st == MWI::READY) return i; return -1; }
  struct Stop { bool end = false; int hit = 0; };
  // runs until the next prompt or the end of the kernel
  Stop run()
  {
    while (true)
    {
      if (cg < 0) // take a group
      {
        if (!running.empty()) { cg = running.front(); running.pop_front(); } else { if (nextGrp >= pending.size()) { over = true; return {true, 0}; } cg = pending[nextGrp++]; }
        cw = -1;
      }
      if (cw < 0 || w[cw].st != MWI::READY)
      {
        cw = ready(cg);
        if (cw < 0) { bool b = false; for (int i : gw[cg]) if (w[i].st == MWI::BAR) { w[i].st = MWI::READY; b = true; } if (b) { cw = ready(cg); continue; } done[cg] = 1; cg = -1; continue; }
      }
      MWI& m = w[cw]; active = cw;
      if (m.mid && m.tr[m.next - 1].err && !m.errDone) { m.errDone = true; if (!quit) { cont = nxt = false; return {false, 0}; } continue; }
      commit(m); m.mid = false;
      if (m.next == m.tr.size()) { m.st = MWI::FIN; if (!quit && !cont) { nxt = false; return {false, 0}; } continue; }
      Seg& s = m.tr[m.next++]; m.errDone = false; if (s.barrier) m.st = MWI::BAR; else m.mid = true;
      if (quit) continue;
      int hit = 0; for (auto& b : bps) if (b.second == s.line && !hit && !(m.next >= 2 && m.tr[m.next - 2].line == s.line && m.tr[m.next - 2].depth == s.depth)) hit = b.first;
      if (hit) { cont = nxt = false; listPos = 0; return {false, hit}; }
      if (cont) continue;
      if (s.barrier) { nxt = false; return {false, 0}; }
      if (nxt && s.depth > prevDepth) continue;
      if (s.line == prevLine) continue;
      nxt = false; return {false, 0};
    }
  }
  int curSeg(const MWI& m) { if (m.st == MWI::FIN) return -2; if (m.mid || (&m == &w[active] && m.next)) return m.next - 1; if (m.next == 0) return -1; if (m.next < m.tr.size()) return m.next; return -3; }
  int line(const MWI& m) { int s = curSeg(m); return s == -2 || s == -1 ? 0 : s == -3 ? c->p->lines.size() : m.tr[s].line; }
  int depth(const MWI& m) { int s = curSeg(m); return s >= 0 ? m.tr[s].depth : 0; }
  string src(int l) { return l >= 1 && l <= (int)c->p->lines.size() ? fmt("%d\t%s\n", l, c->p->lines[l - 1].c_str()) : string("?"); }
  string stopText(const Stop& s)
  {
    if (s.end) return ""; string r; MWI& m = w[cw]; listPos = 0; I3 g; for (int d = 0; d < 3; d++) g[d] = m.gid[d] + c->off[d];
    if (s.hit) r = fmt("Breakpoint %d hit at line %d by work-item %s\n", s.hit, line(m), s3(g).c_str());
    if (line(m)) r += src(line(m)); return r;
  }
  // executes one command; returns the expected text, resumed tells whether execution went on
  string cmd(const string& q, bool& resumed)
  {
    resumed = false; std::istringstream ss(q); string a, b; ss >> a; vector<string> arg; while (ss >> b) arg.push_back(b); MWI& m = w[cw];
    if (a == "s" || a == "n")
    {
      if (m.st == MWI::FIN) return "Work-item has finished.\n"; if (m.st == MWI::BAR) return "Work-item is at barrier.\n";
      prevLine = line(m); prevDepth = depth(m); nxt = a == "n"; resumed = true; return stopText(run());
    }
    if (a == "c") { cont = true; resumed = true; return stopText(run()); }
    if (a == "b") { int l = arg.empty() ? line(m) : atoi(arg[0].c_str()); if (!l) return "Not currently on a line.\n"; for (size_t i = 0; i < w.size(); i++) if ((int)i != cw && w[i].mid && w[i].tr[w[i].next - 1].line == l) unclear = true; for (auto& x : w) if (x.next && x.next < x.tr.size() && &x != &m && x.tr[x.next].line == l && x.tr[x.next - 1].line == l) unclear = true; if (line(m) == l && !m.mid && cw != active) unclear = true; bps[nextBp++] = l; return ""; }
    if (a == "d") { int n = atoi(arg[0].c_str()); if (!bps.count(n)) return "Breakpoint not found.\n"; bps.erase(n); return ""; }
    if (a == "D") { bps.clear(); return "Delete all breakpoints? (y/n) "; }
    if (a == "N") return "Delete all breakpoints? (y/n) ";
    if (a == "wi")
    {
      I3 g = c->off; for (size_t i = 0; i < arg.size(); i++) g[i] = atol(arg[i].c_str()); int t = -1; for (size_t i = 0; i < w.size(); i++) { bool e = true; for (int d = 0; d < 3; d++) e &= w[i].gid[d] + c->off[d] == g[d]; if (e) t = i; }
      if (t < 0) return "Invalid global ID.\n"; MWI& n = w[t];
      if (done[n.grp]) return "Work-item has already finished, unable to load state.\n";
      if (n.grp != cg)
      {
        auto r = std::find(running.begin(), running.end(), n.grp); if (r != running.end()) running.erase(r);
        else { auto p = std::find(pending.begin() + nextGrp, pending.end(), n.grp); pending.erase(p); pending.insert(pending.begin() + nextGrp, n.grp); nextGrp++; }
        running.push_back(cg); cg = n.grp;
      }
      cw = t; string r = "Switched to work-item: " + s3(g) + "\n"; if (n.st == MWI::FIN) return r + "Work-item has finished execution.\n";
      if (!line(n)) return r + "Source line not available.\n*"; return r + src(line(n));
    }
    if (a == "l")
    {
      int n = c->p->lines.size(), st = 0;
      if (!arg.empty() && arg[0] != "-") { st = atoi(arg[0].c_str()); st = st > 5 ? st - 5 : 1; }
      else if (arg.empty()) { st = listPos ? listPos + 10 : line(m) + 1; if (st > n) { listPos = n + 1; return ""; } }
      else { st = listPos ? listPos : line(m); st = st > 10 ? st - 10 : 1; }
      string r; for (int i = st; i < st + 10 && i <= n; i++) r += src(i); listPos = st; return r;
    }
    return "?";
  }
};
static string strip(const string& s, vector<string>* heads = 0) { string r; std::istringstream ss(s); string l; while (getline(ss, l)) { if (l.compare(0, 12, "In function ") == 0) { if (heads) heads->push_back(l); } else r += l + (ss.eof() ? "" : "\n"); } return r; }
static bool match(const string& want, const string& got) { if (!want.empty() && want.back() == '*') return got.compare(0, want.size() - 1, want.substr(0, want.size() - 1)) == 0; return want == got; }
struct Sess
{
  Cfg& c; cl_program p; cl_kernel k; cl_mem a, b; Model m; vector<string> hist; string addrA, addrB, addrT; size_t nlaunch = 0; bool dead = false;
  Sess(Cfg& c) : c(c)
  {
    env("OCLGRIND_INTERACTIVE", "1"); cl = new CL; p = cl->build(c.p->src, "-cl-std=CL2.0"); k = cl->kernel(p, "k"); a = cl->buf(c.a.size() * 4, c.a.data()); b = cl->buf(c.nb * 4); cl->arg(k, 0, a); cl->arg(k, 1, b); if (c.p->local) cl->localArg(k, 2, 32); m.c = &c;
  }
  ~Sess() { clReleaseMemObject(a); clReleaseMemObject(b); clReleaseKernel(k); clReleaseProgram(p); cl->destroy(); delete cl; }
  string transcript(const string& input, bool eof = false)
  {
    vector<int> z(c.nb, 0); cl->write(b, z.data(), c.nb * 4); size_t g[3], l[3], o[3]; for (int i = 0; i < 3; i++) g[i] = c.g[i], l[i] = c.l[i], o[i] = c.off[i];
    std::istringstream in(input); std::ostringstream out; std::cin.clear(); auto* oi = std::cin.rdbuf(in.rdbuf()); auto* oo = std::cout.rdbuf(out.rdbuf()); errc->clear();
    cl_int e = cl->launch(k, c.dim, g, l, o); std::cin.rdbuf(oi); std::cout.rdbuf(oo); std::cin.clear(); CK(e); nlaunch++;
    left = (long)in.tellg(); return out.str();
  }
  long left = 0;
  // runs the session of the given commands with the given queries after each of them
  void session(const vector<string>& cmds, bool queries, bool keep = false)
  {
    R->tick(); m.start(); string in; vector<pair<string, std::function<string(const string&)>>> exp; // per marker: label and judge
    auto add = [&](const string& c2, const string& lab, std::function<string(const string&)> f) { in += c2 + "\n@" + std::to_string(exp.size()) + "\n"; exp.push_back({lab, f}); };
    auto eq = [&](string w) { return [w](const string& g) { return match(w, strip(g)) ? string() : "printed \"" + g.substr(0, 500) + "\", expected \"" + w + "\""; }; };
    string first = m.stopText(m.run()); in = "@0\n"; exp.push_back({"kernel start", eq(first)});
    auto qs = [&]() {
      if (!queries || m.over) return; MWI& w = m.w[m.cw]; I3 g; for (int d = 0; d < 3; d++) g[d] = w.gid[d] + c.off[d]; int cs = m.curSeg(w);
      string info = "Running kernel 'k'\n-> Global work size:   " + s3(c.g) + "\n-> Global work offset: " + s3(c.off) + "\n-> Local work size:    " + s3(c.l) + "\n\nCurrent work-item: " + s3(g) + "\n"; string fn = cs >= 0 ? w.tr[cs].fn : "k"; int ln = m.line(w);
      if (cs == -2) info += "Work-item has finished.\n"; else if (ln) info += m.src(ln); else info += "Source line not available.\n*";
      add("info", "info", [=](const string& x) { vector<string> h; string s = strip(x, &h); if (!match(info, s)) return "printed \"" + x + "\", expected \"" + info + "\""; if (cs == -2) return string(); if (h.size() != 1 || h[0].find("In function " + fn + "(") || (ln && h[0].find(fmt(") at line %d", ln)) == string::npos)) return "shows function line \"" + (h.empty() ? "" : h[0]) + "\" instead of " + fn + fmt(" line %d", ln); return string(); });
      if (cs >= 0)
      {
        const Seg& s = w.tr[cs]; vector<int> cl2 = s.callers; int d = s.depth;
        add("bt", "backtrace", [=](const string& x) {
          std::istringstream ss(x); string l; int n = d; while (getline(ss, l)) { int at = n == d ? ln : cl2[n]; if (l.find(fmt("#%d ", n))) return "printed \"" + x + fmt("\", expected frame %d", n); if (l.size() < 3 || l.find(fmt(") at line %d", at)) == string::npos || (n == d && l.find(" " + s.fn + "(") == string::npos) || (n == 0 && l.find(" k(") == string::npos)) return "printed \"" + x + fmt("\", frame %d must be at line %d", n, at); n--; }
          return n == -1 ? string() : "printed \"" + x + fmt("\", expected %d frames", d + 1); });
        for (auto& v : s.vars) add("print " + v.first, "print", eq(v.first + " = " + v.second + "\n"));
        for (auto& n : c.p->names) { bool here = false; for (auto& v : s.vars) here |= v.first == n; bool later = false; for (auto& x : w.tr) if (x.fn == s.fn) for (auto& v : x.vars) later |= v.first == n; if (!here && !later) add("print " + n, "print-other", [=](const string& x) { return x == n + " = not found\n" ? string() : "printed \"" + x + "\" for a variable that the current function does not have"; }); }
      }
      string ib; for (auto& x : m.bps) ib += fmt("Breakpoint %d: Line %d\n", x.first, x.second); add("info break", "info break", eq(ib));
      auto dump = [&](const string& cmd, const string& addr, const vector<int>& d, const string& lab) { if (addr.empty()) return; string w = "\n"; uint64_t a0 = strtoull(addr.c_str(), 0, 16); for (size_t i = 0; i < d.size(); i++) { if (i) w += "\n"; w += fmt("%16lX:", a0 + 4 * i); for (int j = 0; j < 4; j++) w += fmt(" %02X", (unsigned)d[i] >> (8 * j) & 255); } w += "\n\n"; add(cmd + " " + addr.substr(2) + " " + std::to_string(d.size() * 4), lab, eq(w));
        // sizes that are not multiples of four, from later words
        for (size_t n : {(size_t)1, (size_t)6, d.size() * 4 - 1}) for (size_t at = 0; at < 2; at++) if (n + 4 * at <= d.size() * 4) { string v = "\n"; for (size_t i = 0; i < n; i++) { if (i % 4 == 0) { if (i) v += "\n"; v += fmt("%16lX:", a0 + 4 * at + i); } v += fmt(" %02X", (unsigned)d[at + i / 4] >> (8 * (i % 4)) & 255); } v += "\n\n"; add(cmd + fmt(" %lX %zu", a0 + 4 * at, n), lab, eq(v)); } };
      dump("gmem", addrB, m.buf[1], "gmem"); if (c.p->local) { auto& lw = m.locW[m.cg]; bool all = true; for (size_t j = 0; j < m.gw[m.cg].size(); j++) all &= lw[j]; if (all) dump("lmem", addrT, vector<int>(m.loc[m.cg].begin(), m.loc[m.cg].begin() + m.gw[m.cg].size()), "lmem"); }
    };
    qs(); size_t i = 0;
    for (; i < cmds.size() && !m.over; i++)
    {
      bool res; string w = m.cmd(cmds[i], res); string t = cmds[i] == "D" ? "delete\ny" : cmds[i] == "N" ? "delete\nn" : cmds[i]; bool ov = m.over;
      if (ov) { in += t + "\n"; break; }
      add(t, cmds[i], eq(w)); qs();
    }
    if (!m.over) { if (!keep) { in += "delete\ny\n"; m.bps.clear(); } for (int j = 0; j < 99 && !m.over; j++) { in += "c\n"; bool r; m.cmd("c", r); } }
    if (!m.over) R->internal("session model does not end");
    size_t total = in.size(); in += "@END\n";
    string out = transcript(in); hist.clear(); R->count("transitions", exp.size()); R->count("traces_validated_against_impl"); string desc; for (auto& x : cmds) desc += (desc.empty() ? "" : "; ") + x;
    // split the transcript at the markers
    size_t p = 0; string bad; string key;
    for (size_t j = 0; j < exp.size(); j++)
    {
      string mk = fmt("Unrecognized command '@%zu'\n", j); size_t q = out.find(mk, p); if (q == string::npos) { bad = "the session ended before '" + exp[j].first + fmt("' (step %zu) was answered; rest of the transcript: \"", j) + out.substr(p, 300) + "\""; key = "ended"; break; }
      string f = exp[j].second(out.substr(p, q - p)); if (!f.empty()) { bad = "after '" + exp[j].first + fmt("' (step %zu): ", j) + f; key = exp[j].first.substr(0, exp[j].first.find(' ')); break; } p = q + mk.size();
    }
    if (bad.empty() && left != (long)total) { bad = fmt("the kernel ended after %ld of %zu bytes of input: stops happened at other places than expected", left, total); key = "ended"; }
    vector<int> r(c.nb); cl->read(b, r.data(), c.nb * 4);
    if (bad.empty() && r != m.buf[1]) { bad = "the kernel computed different results: b = "; for (int x : r) bad += std::to_string(x) + " "; bad += " expected "; for (int x : m.buf[1]) bad += std::to_string(x) + " "; key = "result"; }
    if (bad.empty()) { string e = errc->get(); int n = 0; for (auto& w : m.w) for (auto& s : w.tr) n += s.err; if (countOf(e, "Invalid write") != n || (n == 0 && !e.empty())) { bad = "messages differ from a run without the debugger: " + e.substr(0, 400); key = "messages"; } }
    if (!bad.empty()) { R->fail(key + ":" + c.p->name, R->curCase + " session [" + desc + "] " + bad); dead = true; }
  }
  void discover()
  {
    if (!c.p->name.size()) return; string o; if (c.p->name == "line") o = transcript("c\n"); else o = transcript(string(c.p->name == "callbar" ? "n" : "s") + "\nprint a\nprint b\n" + string(c.p->local ? "print t\n" : "") + "c\nc\nc\nc\nc\nc\n");
    auto get = [&](const char* n) { size_t p = o.find(string(n) + " = 0x"); if (p == string::npos) return string(); p += strlen(n) + 3; return o.substr(p, o.find('\n', p) - p); };
    addrA = get("a"); addrB = get("b"); addrT = get("t"); if (c.p->name != "line" && (addrA.empty() || addrB.empty() || (c.p->local && addrT.empty()))) { R->fail("print:" + c.p->name, R->curCase + " pointers are not printed: " + o); }
  }
};
static vector<string> split(const string& s) { vector<string> r; std::istringstream ss(s); string l; while (getline(ss, l)) r.push_back(l); return r; }

static Prog* mk(const string& name, const string& src, std::function<void(Tr&, I3, I3, int, vector<int>&)> tr, vector<string> names, bool local = false) { Prog* p = new Prog; p->name = name; p->src = src; p->lines = split(src); p->tr = tr; p->names = names; p->local = local; return p; }
static vector<Prog*> progs()
{
  vector<Prog*> r;
  r.push_back(mk("calls", R"(int f(int v, int w)
{
  int t = v * w;
  t = t + v;
  return t + w;
}

kernel void k(global int *a, global int *b)
{
  int i = get_global_id(0) - get_global_offset(0);
  int x = a[i];
  int y = f(x, i);
  if (y > 8)
    y = f(y, x);
  b[i] = x + y;
}
)", [](Tr& t, I3 g, I3, int, vector<int>& a) {
    auto f = [&](int v, int w) { t.enter("f", {{"v", std::to_string(v)}, {"w", std::to_string(w)}}); t.at(3).set("t", v * w); t.at(4).set("t", v * w + v); t.at(5); t.leave(); return v * w + v + w; };
    int i = g[0]; t.at(10).set("i", i); int x = a[i]; t.at(11).set("x", x); t.at(12); int y = f(x, i); t.at(12).set("y", y); t.at(13); if (y > 8) { t.at(14); y = f(y, x); t.at(14).set("y", y); } t.at(15).wr(1, i, x + y); }, {"i", "x", "y", "v", "w", "t"}));
  r.push_back(mk("barrier", R"(kernel void k(global int *a, global int *b, local int *t)
{
  int l = get_local_id(0);
  int x = a[get_global_id(0)];
  t[l] = x + l;
  barrier(CLK_LOCAL_MEM_FENCE);
  int s = t[(l + 1) % get_local_size(0)];
  for (int j = 0; j < x; j++)
    s = s + j;
  while (s > 4)
  {
    s = s - 3;
  }
  barrier(CLK_LOCAL_MEM_FENCE);
  t[l] = s;
  b[get_global_id(0)] = s + x;
}
)", [](Tr& t, I3 g, I3 lid, int gs, vector<int>& a) {
    int l = lid[0]; t.at(3).set("l", l); int x = a[g[0]]; t.at(4).set("x", x); t.at(5).wr(2, l, x + l); t.at(6).bar(); int o = (l + 1) % gs; int s = a[g[0] - l + o] + o; t.at(7).set("s", s); int j = 0; t.at(8).set("j", 0);
    while (j < x) { t.at(9).set("s", s += j); j++; t.at(8).set("j", j); } t.at(10); while (s > 4) { t.at(12).set("s", s -= 3); t.at(10); } t.at(14).bar(); t.at(15).wr(2, l, s); t.at(16).wr(1, g[0], s + x); }, {"l", "x", "s"}, true));
  r.push_back(mk("error", R"(kernel void k(global int *a, global int *b)
{
  int i = get_global_id(0) + 2 * get_global_id(1);
  int n = i;
  while (n < 3)
    n = n + 2;
  if (i == 1)
    b[1000 + i] = n;
  b[i] = n + a[i];
}
)", [](Tr& t, I3 g, I3, int, vector<int>& a) {
    int i = g[0] + 2 * g[1], n = i; t.at(3).set("i", i); t.at(4).set("n", n); t.at(5); while (n < 3) { t.at(6).set("n", n += 2); t.at(5); } t.at(7); if (i == 1) { t.at(8); t.err(); } t.at(9).wr(1, i, n + a[i]); }, {"i", "n", "b_"}));
  r.push_back(mk("line", "kernel void k(global int *a, global int *b) { b[get_global_id(0)] = a[get_global_id(0)] * 2; }\n",
    [](Tr& t, I3 g, I3, int, vector<int>& a) { t.at(1).wr(1, g[0], a[g[0]] * 2); }, {}));
  r.push_back(mk("nest", R"(int f(int x)
{
  int y = x * 3;
  return y + x;
}
int g(int x, int y)
{
  int z = f(y) + x;
  return z + f(x);
}
kernel void k(global int *a, global int *b)
{
  int x = a[get_global_id(0)];
  int y = x + 1;
  int q = g(x, y);
  b[get_global_id(0)] = q - y;
}
)", [](Tr& t, I3 g, I3, int, vector<int>& a) {
    auto f = [&](int x) { t.enter("f", {{"x", std::to_string(x)}}); t.at(3).set("y", x * 3); t.at(4); t.leave(); return x * 4; };
    auto h = [&](int x, int y) { t.enter("g", {{"x", std::to_string(x)}, {"y", std::to_string(y)}}); t.at(8); int z = f(y) + x; t.at(8).set("z", z); t.at(9); z += f(x); t.at(9); t.leave(); return z; };
    int x = a[g[0]], y = x + 1; t.at(13).set("x", x); t.at(14).set("y", y); t.at(15); int q = h(x, y); t.at(15).set("q", q); t.at(16).wr(1, g[0], q - y); }, {"x", "y", "q", "z"}));
  r.push_back(mk("mixed", R"(int f(int v)
{
  int u = v * 2;
  return u + 1;
}
kernel void k(global int *a, global int *b, local int *t)
{
  int l = get_local_id(0);
  int x = a[get_global_id(0)];
  t[l] = x; barrier(CLK_LOCAL_MEM_FENCE);
  int s = f(t[(l + 1) % get_local_size(0)]);
  barrier(CLK_LOCAL_MEM_FENCE); s = f(s);
  b[get_global_id(0)] = s + x;
}
)", [](Tr& t, I3 g, I3 lid, int gs, vector<int>& a) {
    auto f = [&](int v) { t.enter("f", {{"v", std::to_string(v)}}); t.at(3).set("u", v * 2); t.at(4); t.leave(); return v * 2 + 1; };
    int l = lid[0]; t.at(8).set("l", l); int x = a[g[0]]; t.at(9).set("x", x); t.at(10).wr(2, l, x); t.at(10).bar(); t.at(11); int s = f(a[g[0] - l + (l + 1) % gs]); t.at(11).set("s", s); t.at(12).bar(); t.at(12); s = f(s); t.at(12).set("s", s); t.at(13).wr(1, g[0], s + x); }, {"l", "x", "s", "v", "u"}, true));
  r.push_back(mk("callbar", R"(int f(int v)
{
  int u = v * 3;
  return u + 1;
}
kernel void k(global int *a, global int *b, local int *t)
{
  int s = f(a[get_global_id(0)]);
  t[get_local_id(0)] = s;
  barrier(CLK_LOCAL_MEM_FENCE);
  int z = f(t[(get_local_id(0) + 1) % get_local_size(0)]);
  b[get_global_id(0)] = s + z;
}
)", [](Tr& t, I3 g, I3 lid, int gs, vector<int>& a) {
    auto f = [&](int v) { t.enter("f", {{"v", std::to_string(v)}}); t.at(3).set("u", v * 3); t.at(4); t.leave(); return v * 3 + 1; };
    int l = lid[0]; t.at(8); int s = f(a[g[0]]); t.at(8).set("s", s); t.at(9).wr(2, l, s); t.at(10).bar(); t.at(11); int z = f(a[g[0] - l + (l + 1) % gs] * 3 + 1); t.at(11).set("z", z); t.at(12).wr(1, g[0], s + z); }, {"s", "z", "v", "u"}, true));
  return r;
}
static void enumerate(Cfg& c, const vector<string>& alpha, int depth, bool queries, const vector<string>& pre, Sess*& s)
{
  // all sequences in which the kernel is still running when the last command is given; the model prunes finished sessions
  vector<string> cur = pre; std::function<void(int)> rec = [&](int d) {
    Model mc; mc.c = &c; mc.start(); mc.run(); for (auto& x : cur) { bool r; if (!mc.over) mc.cmd(x, r); } if (mc.unclear) return;
    if (d) { if (!s) { s = new Sess(c); s->discover(); s->m.nextBp = 1; } int nb = s->m.nextBp; vector<string> run = cur; for (auto& x : run) if (x[0] == 'd' && x.size() > 2) x = "d " + std::to_string(nb - 1 + atoi(x.c_str() + 2));
      s->session(run, queries); R->count("states"); if (s->dead) { delete s; s = 0; } }
    if (d == depth) return;
    if (mc.over) return; for (auto& a : alpha) { cur.push_back(a); rec(d + 1); cur.pop_back(); }
  };
  rec(pre.size() ? 1 : 0);
}

// plain transcripts: commands with the expected answer of each ("~x": must contain x, "*": anything); the session ends with the script
static void script(Sess& s, const string& key, const vector<pair<string, string>>& cs, const string& end)
{
  string in = "@0\n"; for (size_t i = 0; i < cs.size(); i++) in += cs[i].first + fmt("\n@%zu\n", i + 1); in += end; string o = s.transcript(in); size_t p = 0; R->count("traces_validated_against_impl"); R->count("states");
  for (size_t i = 0; i <= cs.size(); i++)
  {
    string mk = fmt("Unrecognized command '@%zu'\n", i); size_t q = o.find(mk, p); string c = i ? cs[i - 1].first : "start"; R->count("transitions");
    if (q == string::npos) { R->fail("script-ended:" + key, R->curCase + " the session ended at '" + c + "': " + o.substr(p, 300)); return; }
    string g = strip(o.substr(p, q - p)); p = q + mk.size(); if (!i) continue; const string& w = cs[i - 1].second; if (w == "*") continue;
    bool ok; if (w[0] == '~') ok = g.find(w.substr(1)) != string::npos; else if (w.find("||") != string::npos) { ok = false; size_t a = 0, b; while ((b = w.find("||", a)) != string::npos) { ok |= g == w.substr(a, b - a) + "\n"; a = b + 2; } ok |= g == w.substr(a) + "\n"; } else ok = g == (w.empty() ? "" : w + "\n");
    if (!ok) { R->fail("script:" + key, R->curCase + " '" + c + "' printed \"" + g.substr(0, 300) + "\", expected \"" + w + "\""); return; }
  }
  vector<int> r(s.c.nb); cl->read(s.b, r.data(), s.c.nb * 4); Model m; m.c = &s.c; m.quit = true; m.start(); m.run(); if (r != m.buf[1]) R->fail("result:" + key, R->curCase + " the kernel computed other results than without the debugger");
}
static void misc(vector<Prog*>& P, std::function<Cfg(int, I3, I3, I3, vector<int>)> cfg)
{
  Cfg c0 = cfg(0, {4, 1, 1}, {2, 1, 1}, {0, 0, 0}, {1, 2, 3, 4}); string fin = "delete\ny\nc\nc\nc\n";
  // invalid commands at every prompt of a stepping session leave the session as it was
  vector<pair<string, string>> bad = {{"wi 4", "Invalid global ID."}, {"wi -1", "Invalid global ID."}, {"wi x", "Invalid global ID."}, {"wi 0 1", "Invalid global ID."}, {"wi 0 0 1", "Invalid global ID."}, {"wi 1 0 0 0", "*"}, {"wi 0 0 0 0 0 0 0 0 0 0 0 0 0 0", "*"}, {"wi 18446744073709551616", "*"},
    {"d 99", "Breakpoint not found."}, {"d x", "*"}, {"b 0", "Invalid line number."}, {"b 9999", "Invalid line number."}, {"b x", "Invalid line number."}, {"b 1x", "Invalid line number."}, {"b -1", "Invalid line number."}, {"foo", "Unrecognized command 'foo'"}, {"info foo", "Invalid info command: foo"}, {"help foo", "Unrecognized command 'foo'"}, {"help", "~Command list"},
    {"gmem zz", "Invalid address."}, {"gmem 3", "Invalid address."}, {"gmem 0", "Invalid memory address."}, {"gmem 1000000000000 0", "Invalid size"}, {"gmem 1000000000000 17", "Invalid memory address."}, {"gmem 1000000000000 18446744073709551615", "Invalid memory address."}, {"gmem 1000000000004 18446744073709551612", "Invalid memory address."}, {"gmem 1000000000000 4 4", "Invalid number of arguments."}, {"lmem 1000000000000", "Invalid memory address."}, {"pmem FFFFFFFFFFFFFFFC", "Invalid memory address."}, {"gmem", "~00 00"}, {"lmem", "*"}, {"pmem", "*"},
    {"p", "Variable name(s) required."}, {"p nosuch", "nosuch = not found"}, {"p a[", "*"}, {"p a[x]", "*"}, {"p a[99999]", "*"}, {"p a[18446744073709551615]", "*"}, {"p a[70368744177664]", "*"}, {"p a[70368744177663]", "*"}, {"p a.x", "*"}, {"p a->x", "*"}, {"p i[0]", "*"}, {"p i.x", "*"}, {"p i->y", "*"}, {"p .", "*"}, {"p [", "*"}, {"p -", "*"}, {"p ->", "*"}, {"p a[0]]", "*"}, {"p a[0][0]", "*"}, {"p a-", "*"}, {"l x", "Invalid line number."}, {"l 99999", ""}, {"list 0", "*"}, {"bt x", "*"}, {"info x y", "*"}};
  for (size_t i = 0; i < bad.size(); i++)
  {
    if (!R->begin("invalid/" + std::to_string(i) + "/" + bad[i].first)) continue; Sess s(c0);
    for (int steps = 0; steps < 12; steps++) { vector<pair<string, string>> v; for (int j = 0; j < steps; j++) v.push_back({"s", "*"}); v.push_back({"info", "*"}); v.push_back(bad[i]); v.push_back({"info", "*"}); 
      // the second info must equal the first
      string in; for (auto& x : v) in += x.first + fmt("\n@@\n"); string o = s.transcript(in + fin); vector<string> blk; size_t p = 0, q; while ((q = o.find("Unrecognized command '@@'\n", p)) != string::npos) { blk.push_back(o.substr(p, q - p)); p = q + 26; }
      R->count("transitions", v.size()); if (blk.size() != v.size()) { R->fail("invalid-ended:" + bad[i].first, R->curCase + " the session ended early: " + o.substr(0, 300)); break; }
      if (blk[steps] != blk[steps + 2] && blk[steps].find("Running kernel") != string::npos && bad[i].first.compare(0, 8, "wi 1 0 0")) { if (steps) { R->fail("invalid-state:" + bad[i].first, R->curCase + fmt(" after %d steps changed the state: ", steps) + blk[steps] + " -> " + blk[steps + 2]); break; } }
      script(s, bad[i].first, v, fin); if (R->nfail) break; }
  }
  for (int steps = 0; steps < 10; steps++) for (string q : {"quit", ""})
    if (R->begin(fmt("quit/%s%d", q.c_str(), steps))) { for (auto& P2 : {c0, cfg(1, {4, 1, 1}, {2, 1, 1}, {0, 0, 0}, {1, 2, 3, 0})}) { Cfg c = P2; Sess s(c); vector<pair<string, string>> v; for (int j = 0; j < steps; j++) v.push_back({j % 3 == 2 ? "wi " + std::to_string(j % 4) : j % 3 == 1 ? "b " + std::to_string(3 + j) : "s", "*"}); script(s, "quit", v, q.empty() ? "" : q + "\n");
      // no prompts any more in later kernels
      string o = s.transcript("@0\nc\n"); if (!o.empty() || s.left > 0) R->fail("quit", R->curCase + " a later kernel still prompts: " + o.substr(0, 200)); vector<int> r(c.nb); cl->read(s.b, r.data(), c.nb * 4); Model m; m.c = &c; m.quit = true; m.start(); m.run(); if (r != m.buf[1]) R->fail("result:quit", R->curCase + " wrong results after quit"); } }
  // breakpoints survive to the next launch of the program and do not apply to others
  for (string b1 : {"b 4", "b 12", "b 15"}) for (string b2 : {"b 10", "d 1", "D", "N"}) for (string x : {"s", "n", "c", "wi 1", "wi 3"}) if (R->begin("relaunch/" + b1 + "/" + b2 + "/" + x))
  {
    Sess s(c0); s.discover(); s.session({b1, b2, "c"}, false, true); if (s.dead) continue; s.session({x, "c", "s"}, true, true); if (s.dead) continue;
    Cfg c4 = cfg(4, {2, 1, 1}, {1, 1, 1}, {0, 0, 0}, {2, 3}); const char* src = c4.p->src.c_str(); cl_program p2 = cl->build(src, "-cl-std=CL2.0"); cl_kernel k2 = cl->kernel(p2, "k"), k1 = s.k; cl->arg(k2, 0, s.a); cl->arg(k2, 1, s.b);
    s.k = k2; string o = s.transcript("c\n@0\n"); if (o.find("Breakpoint") != string::npos) R->fail("other-program", R->curCase + " a breakpoint of one program stopped another: " + o); s.k = k1; clReleaseKernel(k2); clReleaseProgram(p2); s.session({x, "c"}, false, true); 
  }
  // listing
  for (string l0 : {"l", "l -", "l 3", "l 14"}) if (R->begin("list/" + l0)) { Sess* s = 0; enumerate(c0, {"l", "l -", "l 3", "l 14", "s", "c", "b 4"}, 5, false, {l0}, s); delete s; }
  // values of every type
  if (R->begin("types"))
  {
    Prog q; q.name = "types"; q.local = true; q.src = R"(typedef struct { int m; float n; short o[2]; } S;
kernel void k(global int *a, global int *b, local int *t)
{
  char c = a[0] - 101; uchar uc = a[0] + 199; short s = a[0] - 30001; ushort us = a[0] + 59999; int i = -a[0]; uint ui = a[0] + 3999999999u; long l = -5000000000L * a[0]; ulong ul = a[0] + 18000000000000000000UL;
  float f = a[0] * 1.5f; double d = a[0] * -2.25; int2 v2 = (int2)(a[0], -7); float4 v4 = (float4)(1.5f, 2.5f, -3.5f, a[0]); char3 v3 = (char3)(a[0], 2, -3); int ar[3] = {4, 5, 6}; bool bo = a[0] == 1;
  S st; st.m = 12; st.n = 2.5f; st.o[0] = 3; st.o[1] = -4; private S *ps = &st; private int *pa = &ar[1]; t[0] = 77; t[1] = 78; size_t z = 9;
  b[0] = c + uc + s + us + i + ui + l + ul + f + d + v2.x + v4.x + v3.x + *pa + bo + ps->m + z;
  b[0] = a[0];
}
)"; q.lines = split(q.src); q.tr = [](Tr& t, I3, I3, int, vector<int>& a) { t.at(7).wr(1, 0, a[0]); }; Cfg c = c0; c.p = &q; c.g = {1, 1, 1}; c.l = {1, 1, 1}; c.nb = 1; Sess s(c);
    script(s, "types", {{"b 8", ""}, {"c", "*"}, {"p c", "c = -100"}, {"p uc", "uc = -56||uc = 200"}, {"p s", "s = -30000"}, {"p us", "us = -5536||us = 60000"}, {"p i", "i = -1"}, {"p ui", "ui = -294967296||ui = 4000000000"}, {"p l", "l = -5000000000"}, {"p ul", "ul = -446744073709551615||ul = 18000000000000000001"}, {"p f", "f = 1.5"}, {"p d", "d = -2.25"}, {"p v2", "v2 = (1,-7)"}, {"p v4", "v4 = (1.5,2.5,-3.5,1)"}, {"p v3", "~v3 = (1,2,-3"}, {"p ar", "ar = {4,5,6}"}, {"p ar[1]", "ar[1] = 5||ar[1] = not a pointer type"}, {"p bo", "bo = 1"}, {"p st.m", "st.m = 12"}, {"p st.n", "st.n = 2.5"}, {"p st.o", "st.o = {3,-4}"}, {"p st", "~0C000000000020400300FCFF"}, {"p ps->m", "ps->m = 12||ps->m = <internal error> unhandled pointer store type"}, {"p ps->n", "ps->n = 2.5||ps->n = <internal error> unhandled pointer store type"}, {"p ps[0].m", "ps[0].m = 12||ps[0].m = <internal error> unhandled pointer store type"}, {"p pa[0]", "pa[0] = 5"}, {"p pa[1]", "pa[1] = 6"}, {"p a[0]", "a[0] = 1"}, {"p a[3]", "a[3] = 4"}, {"p a[4]", "~invalid memory address"}, {"p t[0]", "t[0] = 77"}, {"p t[1]", "t[1] = 78"}, {"p t[8]", "~invalid memory address"}, {"p z", "z = 9"}, {"p i l", "i = -1\nl = -5000000000"}, {"p nosuch", "nosuch = not found"}, {"p st.nope", "st.nope = no member named 'nope' found"}}, "delete\ny\nc\n");
  }
}
struct Fam { int prog; Cfg cfg; vector<string> alpha; int dq, dt; int qq, qt; };
static void body(int argc, char** argv)
{
  pch = argv[1]; stdEnv(pch, "1"); errc = new Capture(2); auto P = progs(); bool T = R->thorough;
  auto cfg = [&](int p, I3 g, I3 l, I3 off, vector<int> a) { Cfg c; c.p = P[p]; c.dim = g[1] > 1 ? 2 : 1; c.g = g; c.l = l; c.off = off; c.a = a; c.nb = g[0] * g[1]; return c; };
  vector<Fam> F = {
    {0, cfg(0, {4, 1, 1}, {2, 1, 1}, {0, 0, 0}, {1, 2, 3, 4}), {"s", "n", "c", "b 4", "b", "wi 1", "wi 2", "d 1"}, 5, 6, 4, 5},
    {1, cfg(1, {4, 1, 1}, {2, 1, 1}, {0, 0, 0}, {1, 2, 3, 0}), {"s", "c", "b 6", "b 10", "wi 0", "wi 1", "wi 2"}, 5, 6, 4, 5},
    {1, cfg(1, {3, 1, 1}, {2, 1, 1}, {0, 0, 0}, {2, 1, 3}), {"s", "n", "c", "b 7", "wi 1", "wi 2", "D"}, 5, 6, 4, 5},
    {2, cfg(2, {2, 2, 1}, {1, 2, 1}, {0, 0, 0}, {5, 6, 7, 8}), {"s", "c", "b 6", "b", "wi 1", "wi 0 1", "wi 1 1"}, 5, 6, 4, 5},
    {0, cfg(0, {3, 1, 1}, {1, 1, 1}, {5, 0, 0}, {2, 1, 4}), {"s", "n", "c", "b 12", "wi 6", "wi 7", "wi"}, 5, 6, 4, 5},
    {3, cfg(3, {3, 1, 1}, {1, 1, 1}, {0, 0, 0}, {2, 1, 4}), {"s", "n", "c", "b 1", "wi 1", "wi 2", "d 1"}, 5, 6, 4, 5},
    {4, cfg(4, {2, 1, 1}, {1, 1, 1}, {0, 0, 0}, {2, 3}), {"s", "n", "c", "b 4", "b 9", "wi 1", "N"}, 5, 6, 4, 5},
    {5, cfg(5, {4, 1, 1}, {2, 1, 1}, {0, 0, 0}, {1, 2, 3, 4}), {"s", "n", "c", "b 12", "b 3", "wi 1"}, 5, 6, 4, 5},
    {6, cfg(6, {4, 1, 1}, {2, 1, 1}, {0, 0, 0}, {1, 2, 3, 4}), {"s", "n", "c", "wi 1", "wi 2", "b 11"}, 5, 6, 4, 5},
    {0, cfg(0, {2, 1, 1}, {2, 1, 1}, {0, 0, 0}, {1, 2}), {"b 4", "b 12", "c", "d 2", "d 1", "d 3"}, 5, 6, 4, 6}};
  misc(P, cfg); for (size_t f = 0; f < F.size(); f++) for (auto& a : F[f].alpha) for (int q = 0; q < 2; q++)
  {
    if (!R->begin(fmt("%s#%zu/%s/%s", P[F[f].prog]->name.c_str(), f, a.c_str(), q ? "queries" : "plain"))) continue;
    Sess* s = 0; enumerate(F[f].cfg, F[f].alpha, q ? (T ? F[f].qt : F[f].qq) : (T ? F[f].dt : F[f].dq), q, {a}, s); delete s;
  }
}
VF_MAIN(body)
