// Execution scripts written by checks/c20gen.py: the record each generated kernel must give.
#pragma once
#include "vf.hpp"
#include <fstream>
namespace vf {
struct Step { char k; string a, b, c, res; long off = 0, size = 0, val = 0, cmp = 0, x[8]; int ck = 0; long cmask = 0, cval = 0; };
struct Script { string name; vector<Step> st; };
inline vector<string> split(const string& s, char d = ' ') { vector<string> v; std::stringstream l(s); string w; while (std::getline(l, w, d)) v.push_back(w); return v; }
inline string slurp(const string& p) { std::ifstream f(p, std::ios::binary); if (!f) R->internal("cannot read " + p); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline vector<Script> scripts(const string& file)
{
  vector<Script> out; std::stringstream f(slurp(file)); string line;
  while (std::getline(f, line))
  {
    auto w = split(line); if (w[0] == "K") { out.push_back({w[1], {}}); continue; }
    Step s; if (w[0][0] == '?') { s.ck = w[0].substr(1, 3) == "gid" ? 1 : 2; sscanf(w[0].c_str() + 4, "&%ld=%ld", &s.cmask, &s.cval); w.erase(w.begin()); }
    if (w[0] == "I") { s.k = 'I'; s.a = w[1]; if (s.a.compare(0, 5, "call:") == 0) { s.b = s.a.substr(5); s.a = "call"; } if (w.size() > 2) s.res = w[2]; }
    else if (w[0] == "L" || w[0] == "S") { s.k = w[0][0]; s.a = w[1]; s.off = atol(w[2].c_str()); if (s.k == 'L') s.size = atol(w[3].c_str()); else s.b = w[3]; }
    else if (w[0] == "AT") { s.k = 'T'; s.b = w[1]; s.a = w[2]; s.off = atol(w[3].c_str()); s.size = atol(w[4].c_str()); s.c = w[5]; s.cmp = w.size() > 6 ? atol(w[6].c_str()) : 0; }
    else if (w[0] == "A") { s.k = 'A'; s.a = w[1]; s.size = atol(w[2].c_str()); if (w.size() > 3) s.b = w[3]; }
    else if (w[0] == "D") { s.k = 'D'; s.a = w[1]; }
    else if (w[0] == "BAR") { s.k = 'B'; s.val = atol(w[1].c_str()); }
    else if (w[0] == "GC") { s.k = 'G'; s.a = w[1]; s.off = atol(w[2].c_str()); s.b = w[3]; for (int i = 0; i < 5; i++) s.x[i] = atol(w[4 + i].c_str()); }
    else R->internal("script line: " + line);
    out.back().st.push_back(s);
  }
  return out;
}
inline bool applies(const Step& s, size_t gid, size_t grp) { return s.ck == 0 || long((s.ck == 1 ? gid : grp) & s.cmask) == s.cval; }
inline vector<Step> forItem(const Script& s, size_t gid, size_t grp) { vector<Step> v; for (auto& x : s.st) if (applies(x, gid, grp)) v.push_back(x); return v; }
} // namespace vf
