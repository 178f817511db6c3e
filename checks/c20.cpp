// C20: a plugin records everything it is told; the record is compared with the execution each generated kernel and each
// host command history must have.
#include "script.hpp"
#include "core/common.h"
#include "core/Context.h"
#include "core/KernelInvocation.h"
#include "core/Memory.h"
#include "core/Plugin.h"
#include "core/WorkGroup.h"
#include "core/WorkItem.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instruction.h"
#include "llvm/IR/Instructions.h"
#include <mutex>
#include <set>
#include <thread>
#include <memory>
using namespace vf; using oclgrind::Memory;
typedef vector<uint8_t> Bytes;
enum Kind { KB, KE, GB, GE, IB, IE, INST, LOAD, STORE, ALOAD, ASTORE, ALLOC, FREE, MAP, UNMAP, BARRIER, HLOAD, HSTORE };
static const char* KN[] = {"kernelBegin", "kernelEnd", "workGroupBegin", "workGroupComplete", "workItemBegin", "workItemComplete", "instructionExecuted", "memoryLoad", "memoryStore", "memoryAtomicLoad", "memoryAtomicStore", "memoryAllocated", "memoryDeallocated", "memoryMap", "memoryUnmap", "workGroupBarrier", "hostMemoryLoad", "hostMemoryStore"};
struct Ev { Kind k; const void *wg = 0, *wi = 0, *mem = 0; size_t gid = 0, grp = 0, addr = 0, size = 0, off = 0; unsigned sp = 0, op = 0; unsigned long flags = 0; bool hasData = false, wiArg = false; Bytes d; string callee; const void* ptr = 0; };
static string str(const Ev& e) { return fmt("%s(item %zu group %zu space %u addr 0x%zx size %zu op %u flags %lu %s)", KN[e.k], e.gid, e.grp, e.sp, e.addr, e.size, e.op, e.flags, e.callee.c_str()); }
static std::mutex mtx; static vector<Ev> rec; static bool threadSafe = true;
struct Recorder : oclgrind::Plugin
{
  const oclgrind::KernelInvocation* ki = 0;
  Recorder(const oclgrind::Context* c) : Plugin(c) {}
  bool isThreadSafe() const override { return threadSafe; }
  Ev base(Kind k)
  {
    Ev e; e.k = k; if (!ki) return e;
    auto g = ki->getCurrentWorkGroup(); auto w = ki->getCurrentWorkItem();
    e.wg = g; e.wi = w; if (g) e.grp = g->getGroupIndex(); if (w) e.gid = w->getGlobalIndex(); return e;
  }
  void push(Ev e) { std::lock_guard<std::mutex> l(mtx); rec.push_back(std::move(e)); }
  void m(Kind k, const Memory* mem, size_t a, size_t n, const uint8_t* d, const oclgrind::WorkItem* wi, const oclgrind::WorkGroup* wg, unsigned op = 0)
  {
    Ev e = base(k); e.mem = mem; e.sp = mem->getAddressSpace(); e.addr = a; e.size = n; e.op = op; if (d) { e.d.assign(d, d + n); e.hasData = true; }
    e.wiArg = wi; if (wi && wi != e.wi) e.callee = "wrong work-item"; if (wg && (wg != e.wg || e.wi)) e.callee = "wrong work-group"; push(e);
  }
  void hostMemoryLoad(const Memory* mem, size_t a, size_t n) override { m(HLOAD, mem, a, n, 0, 0, 0); }
  void hostMemoryStore(const Memory* mem, size_t a, size_t n, const uint8_t* d) override { m(HSTORE, mem, a, n, d, 0, 0); }
  void instructionExecuted(const oclgrind::WorkItem* wi, const llvm::Instruction* in, const oclgrind::TypedValue& r) override
  {
    Ev e = base(INST); if (wi != e.wi) e.callee = "wrong work-item"; e.op = in->getOpcode();
    if (auto c = llvm::dyn_cast<llvm::CallInst>(in)) if (c->getCalledFunction()) e.callee = c->getCalledFunction()->getName().str();
    if (r.size && r.data) { e.d.assign(r.data, r.data + r.size * r.num); e.hasData = true; } push(e);
  }
  void kernelBegin(const oclgrind::KernelInvocation* k) override { push(base(KB)); ki = k; }
  void kernelEnd(const oclgrind::KernelInvocation* k) override { Ev e = base(KE); if (k != ki) e.callee = "wrong kernel"; push(e); ki = 0; }
  void memoryAllocated(const Memory* mem, size_t a, size_t n, cl_mem_flags f, const uint8_t* d) override { Ev e = base(ALLOC); e.mem = mem; e.sp = mem->getAddressSpace(); e.addr = a; e.size = n; e.flags = f; if (d) { e.hasData = true; e.d.assign(d, d + n); } push(e); }
  void memoryAtomicLoad(const Memory* mem, const oclgrind::WorkItem* w, oclgrind::AtomicOp op, size_t a, size_t n) override { m(ALOAD, mem, a, n, 0, w, 0, op); }
  void memoryAtomicStore(const Memory* mem, const oclgrind::WorkItem* w, oclgrind::AtomicOp op, size_t a, size_t n) override { m(ASTORE, mem, a, n, 0, w, 0, op); }
  void memoryDeallocated(const Memory* mem, size_t a) override { Ev e = base(FREE); e.mem = mem; e.sp = mem->getAddressSpace(); e.addr = a; push(e); }
  void memoryLoad(const Memory* mem, const oclgrind::WorkItem* w, size_t a, size_t n) override { m(LOAD, mem, a, n, 0, w, 0); }
  void memoryLoad(const Memory* mem, const oclgrind::WorkGroup* g, size_t a, size_t n) override { m(LOAD, mem, a, n, 0, 0, g); }
  void memoryStore(const Memory* mem, const oclgrind::WorkItem* w, size_t a, size_t n, const uint8_t* d) override { m(STORE, mem, a, n, d, w, 0); }
  void memoryStore(const Memory* mem, const oclgrind::WorkGroup* g, size_t a, size_t n, const uint8_t* d) override { m(STORE, mem, a, n, d, 0, g); }
  void memoryMap(const Memory* mem, size_t a, size_t off, size_t n, cl_map_flags f) override { Ev e = base(MAP); e.mem = mem; e.sp = mem->getAddressSpace(); e.addr = a; e.off = off; e.size = n; e.flags = f; push(e); }
  void memoryUnmap(const Memory* mem, size_t a, const void* p) override { Ev e = base(UNMAP); e.mem = mem; e.sp = mem->getAddressSpace(); e.addr = a; e.ptr = p; push(e); }
  void workGroupBarrier(const oclgrind::WorkGroup* g, uint32_t f) override { Ev e = base(BARRIER); e.flags = f; if (g != e.wg) e.callee = "wrong work-group"; push(e); }
  void workGroupBegin(const oclgrind::WorkGroup* g) override { Ev e = base(GB); e.wg = g; e.grp = g->getGroupIndex(); push(e); }
  void workGroupComplete(const oclgrind::WorkGroup* g) override { Ev e = base(GE); if (g != e.wg) e.callee = "wrong work-group"; push(e); }
  void workItemBegin(const oclgrind::WorkItem* w) override { Ev e = base(IB); if (w != e.wi) e.callee = "wrong work-item"; push(e); }
  void workItemComplete(const oclgrind::WorkItem* w) override { Ev e = base(IE); if (w != e.wi) e.callee = "wrong work-item"; push(e); }
};
static Recorder* plug;
extern "C" void vfInit(void* c) { plug = new Recorder((oclgrind::Context*)c); ((oclgrind::Context*)c)->registerPlugin(plug); }
extern "C" void vfExit(void* c) { ((oclgrind::Context*)c)->unregisterPlugin(plug); delete plug; plug = 0; }

static unsigned opcode(const string& s)
{
  static std::map<string, unsigned> m = {
#define HANDLE_INST(N, O, C) {#O, N},
#include "llvm/IR/Instruction.def"
  };
  static std::map<string, string> alias = {{"getelementptr", "GetElementPtr"}, {"icmp", "ICmp"}, {"phi", "PHI"}, {"call", "Call"}};
  string t = s; if (alias.count(s)) t = alias[s]; else t[0] = toupper(t[0]);
  if (!m.count(t)) R->internal("opcode " + s); return m[t];
}
static int atomicOp(const string& s) { static const char* n[] = {"add", "and", "cmpxchg", "dec", "inc", "max", "min", "or", "sub", "xchg", "xor"}; for (int i = 0; i < 11; i++) if (s == n[i]) return i; R->internal(s); return -1; }

// contents of all memory, as far as the record tells
struct Block { size_t size; vector<int> b; };
struct Mem
{
  std::map<const void*, std::map<size_t, Block>> m;
  Block* find(const void* mem, size_t a, size_t n, size_t& off) { auto i = m.find(mem); if (i == m.end()) return 0; auto j = i->second.upper_bound(a); if (j == i->second.begin()) return 0; --j; off = a - j->first; return off + n <= j->second.size ? &j->second : 0; }
};
static Mem world;
// Allocation bookkeeping common to kernels and host commands; returns an error
static string book(const Ev& e)
{
  if (e.k == ALLOC)
  {
    size_t o; if (world.find(e.mem, e.addr, 1, o)) return "allocated inside live memory: " + str(e);
    Block b; b.size = e.size; b.b.assign(e.size, -1); if (e.hasData) for (size_t i = 0; i < e.size; i++) b.b[i] = e.d[i]; world.m[e.mem][e.addr] = b;
  }
  if (e.k == HSTORE) { size_t o; Block* b = world.find(e.mem, e.addr, e.size, o); if (!b) return "host access to memory that is not allocated: " + str(e); for (size_t i = 0; i < e.size; i++) b->b[o + i] = e.d[i]; }
  if (e.k == FREE) { auto i = world.m.find(e.mem); if (i == world.m.end() || !i->second.erase(e.addr)) return "deallocated twice or never allocated: " + str(e); if (i->second.empty()) world.m.erase(i); }
  return "";
}
struct Item { size_t gid; vector<Step> ex; size_t pos = 0, done = 0; bool begun = false, ended = false; std::map<string, std::pair<const void*, size_t>> priv; Bytes last; vector<int> lastKnown; int half = 0; };
struct Group { bool ended = false; size_t grp; std::map<const void*, Item> items; vector<const Ev*> copies; std::pair<const void*, size_t> local = {0, 0}; };

static size_t bufA, bufB, bufC, cgAddr; static const void* gmem;
static vector<const Ev*> localAllocs;
static Bytes le(uint64_t v, int n) { Bytes b(n); memcpy(b.data(), &v, n); return b; }
static string checkKernel(const Script& sc, const vector<Ev>& ev, size_t from, size_t G, size_t L)
{
  std::map<const void*, Group> live; std::set<size_t> groups, items; bool inK = false, ended = false;
  std::map<const void*, std::pair<const void*, size_t>> pend; // local memory allocated before its group begins: last one per thread is found by use
  vector<std::pair<const void*, size_t>> freshLocal;
  for (size_t n = from; n < ev.size(); n++)
  {
    const Ev& e = ev[n]; auto bad = [&](const string& s) { return s + fmt(" at event %zu: ", n - from) + str(e); };
    if (e.callee.compare(0, 6, "wrong ") == 0) return bad(e.callee);
    string b = book(e); if (!b.empty()) return b;
    if (e.k == KB) { if (inK || ended) return bad("kernel begins twice"); inK = true; continue; }
    if (e.k == KE) { if (!inK) return bad("kernel ends without begin"); if (!live.empty()) return bad("kernel ends with unfinished work-group"); inK = false; ended = true; continue; }
    if (!inK) { if (e.k == ALLOC || e.k == FREE) continue; return bad("event outside the kernel"); }
    if (e.k == HLOAD || e.k == HSTORE) return bad("host access reported during the kernel");
    if (e.k == GB)
    {
      if (live.count(e.wg)) return bad("work-group begins twice"); if (e.grp >= G / L || !groups.insert(e.grp).second) return bad("work-group executed twice or not part of the NDRange");
      live[e.wg].grp = e.grp; continue;
    }
    if ((e.k == ALLOC || e.k == FREE) && (!e.wg || !live.count(e.wg) || !e.wi)) { continue; }
    if (!e.wg || !live.count(e.wg)) return bad("event outside any work-group");
    Group& g = live[e.wg];
    if (e.k == GE)
    {
      if (g.items.size() != L) return bad("work-group completes before all its work-items began");
      for (auto& x : g.items) if (!x.second.ended) return bad("work-group completes before a work-item");
      live.erase(e.wg); continue;
    }
    if (e.k == BARRIER)
    {
      if (g.items.size() != L) return bad("barrier before all work-items arrived");
      Step* s = 0; vector<Step*> gcs;
      for (auto& x : g.items)
      {
        Item& it = x.second; size_t p = it.pos; bool first = gcs.empty() && !s; while (p < it.ex.size() && it.ex[p].k == 'G') { if (first) gcs.push_back(&it.ex[p]); p++; }
        if (p >= it.ex.size() || it.ex[p].k != 'B') return bad(fmt("barrier reported while item %zu is elsewhere", it.gid)); s = &it.ex[p]; it.pos = p + 1;
      }
      if ((long)e.flags != s->val) return bad(fmt("barrier with flags %ld expected", s->val));
      // the group's copies
      std::map<size_t, int> lo, st; std::map<size_t, int> want; std::map<size_t, int> wantL;
      auto key = [&](const string& nm, size_t o) -> std::pair<const void*, size_t> { if (nm == "L") return {g.local.first, g.local.second + o}; if (nm == "B") return {gmem, bufB + o}; return {gmem, bufB + 512 + g.grp * 64 + o}; };
      std::map<std::pair<const void*, size_t>, int> L1, S1, D1, WL, WS, WD;
      for (auto c : g.copies) for (size_t i = 0; i < c->size; i++) { auto k = std::make_pair((const void*)c->mem, c->addr + i); if (c->k == LOAD) L1[k]++; else { S1[k]++; D1[k] = c->d[i]; } }
      if (!gcs.empty() && !g.local.first) for (auto c : g.copies) if (c->sp == 3) { auto i = world.m.find(c->mem); if (i != world.m.end()) g.local = {c->mem, i->second.begin()->first}; }
      for (auto q : gcs)
      {
        size_t es = q->x[1], num = q->x[2], ss = q->x[3], ds = q->x[4];
        for (size_t i = 0; i < num; i++) for (size_t j = 0; j < es; j++)
        {
          auto s1 = key(q->b, q->x[0] + i * ss * es + j), d1 = key(q->a, q->off + i * ds * es + j); WL[s1]++; WS[d1]++;
          size_t o; Block* bl = world.find(s1.first, s1.second, 1, o); WD[d1] = bl ? bl->b[o] : -1;
        }
      }
      if (L1 != WL || S1 != WS) return bad(fmt("work-group copies do not read and write exactly what they should (%zu/%zu bytes read, %zu/%zu written)", L1.size(), WL.size(), S1.size(), WS.size()));
      for (auto& x : WD) { if (x.second >= 0 && D1[x.first] != x.second) return bad("work-group copy reported wrong data"); size_t o; if (Block* bl = world.find(x.first.first, x.first.second, 1, o)) bl->b[o] = D1[x.first]; }
      g.copies.clear(); continue;
    }
    if (!e.wi)
    {
      if (e.k != LOAD && e.k != STORE) return bad("event without work-item");
      if (e.wiArg) return bad("work-group access attributed to a work-item");
      if (g.items.size() != L) return bad("work-group access before all work-items arrived");
      for (auto& x : g.items) if (x.second.pos >= x.second.ex.size() || x.second.ex[x.second.pos].k != 'G') return bad(fmt("work-group access while item %zu is elsewhere", x.second.gid));
      g.copies.push_back(&e); continue;
    }
    Item& it = g.items[e.wi];
    if (e.k == IB)
    {
      if (it.begun) return bad("work-item begins twice"); if (e.gid >= G || e.gid / L != g.grp || !items.insert(e.gid).second) return bad("work-item executed twice or in the wrong group");
      it.begun = true; it.gid = e.gid; it.ex = forItem(sc, e.gid, g.grp); continue;
    }
    if (!it.begun) return bad("event of a work-item that has not begun"); if (it.ended) return bad("event of a work-item that completed");
    if (e.k == IE) { if (it.pos != it.ex.size()) return bad("work-item completes early"); it.ended = true; continue; }
    if (it.pos >= it.ex.size()) return bad("unexpected event");
    Step& s = it.ex[it.pos]; string want = fmt("expected %c %s %s %ld, got", s.k, s.a.c_str(), s.b.c_str(), s.off);
    auto place = [&](const string& nm, const void*& mem, size_t& a) -> string {
      if (nm == "g") { mem = gmem; a = bufA + e.gid * 64; } else if (nm == "C") { mem = gmem; a = bufC; }
      else if (nm == "G:cg") { mem = gmem; a = cgAddr; }
      else if (nm == "l") { if (!g.local.first) { if (e.sp != 3) return "no local memory"; auto i = world.m.find(e.mem); if (i == world.m.end() || i->second.size() != 1) return "local memory not allocated"; g.local = {e.mem, i->second.begin()->first}; } mem = g.local.first; a = g.local.second + (e.gid % L) * 32; }
      else { auto i = it.priv.find(nm.substr(2)); if (i == it.priv.end()) R->internal("script: " + nm); mem = i->second.first; a = i->second.second; }
      return "";
    };
    const void* mem = 0; size_t a = 0;
    switch (s.k)
    {
    case 'I':
    {
      if (e.k != INST) return bad(want); if (e.op != opcode(s.a)) return bad(want); if (s.a == "call" && e.callee != s.b) return bad(want);
      if (s.res == "r") { if (!e.hasData || e.d.size() < it.lastKnown.size()) return bad("no result"); for (size_t i = 0; i < it.lastKnown.size(); i++) if (it.lastKnown[i] >= 0 && e.d[i] != it.lastKnown[i]) return bad("instruction reported with a result that is not the value it loaded"); }
      if (s.res.compare(0, 5, "r=gid") == 0) { if (e.d != le(e.gid, atoi(s.res.c_str() + 5))) return bad("wrong result value"); }
      it.pos++; break;
    }
    case 'L':
    {
      string r = place(s.a, mem, a); if (!r.empty()) return bad(r + ", " + want);
      if (e.k != LOAD || e.mem != mem || e.addr != a + s.off + it.done || e.size > s.size - it.done || !e.size) return bad(want); if (!e.wiArg) return bad("not attributed to the work-item");
      if (!it.done) it.lastKnown.clear(); size_t o; Block* bl = world.find(mem, e.addr, e.size, o); if (!bl) return bad("access to memory that is not allocated");
      for (size_t i = 0; i < e.size; i++) it.lastKnown.push_back(bl->b[o + i]);
      it.done += e.size; if ((long)it.done == s.size) { it.done = 0; it.pos++; } break;
    }
    case 'S':
    {
      string r = place(s.a, mem, a); if (!r.empty()) return bad(r + ", " + want);
      vector<int> w;
      if (s.b[0] == 'v') for (size_t i = 1; i + 1 < s.b.size(); i += 2) w.push_back(strtol(s.b.substr(i, 2).c_str(), 0, 16));
      else if (s.b[0] == '?') w.assign(atoi(s.b.c_str() + 1), -1);
      else if (s.b.compare(0, 3, "gid") == 0) for (auto x : le(e.gid, atoi(s.b.c_str() + 3))) w.push_back(x);
      else w = it.lastKnown; // m: what was loaded last
      if (e.k != STORE || e.mem != mem || e.addr != a + s.off + it.done || e.size > w.size() - it.done || !e.size || !e.hasData) return bad(want); if (!e.wiArg) return bad("not attributed to the work-item");
      size_t o; Block* bl = world.find(mem, e.addr, e.size, o); if (!bl) return bad("access to memory that is not allocated");
      for (size_t i = 0; i < e.size; i++) { if (w[it.done + i] >= 0 && w[it.done + i] != e.d[i]) return bad("store reported with wrong data"); bl->b[o + i] = e.d[i]; }
      it.done += e.size; if (it.done == w.size()) { it.done = 0; it.pos++; } break;
    }
    case 'T':
    {
      string r = place(s.a, mem, a); if (!r.empty()) return bad(r + ", " + want);
      int op = atomicOp(s.b); long val = s.c == "gid" ? (long)e.gid : atol(s.c.c_str());
      if (e.mem != mem || e.addr != a + s.off || (long)e.size != s.size || (int)e.op != op || e.k != (it.half ? ASTORE : ALOAD) || !e.wiArg) return bad(want);
      size_t o; Block* bl = world.find(mem, e.addr, e.size, o); if (!bl) return bad("access to memory that is not allocated");
      uint64_t old = 0; bool known = true; for (long i = 0; i < s.size; i++) { if (bl->b[o + i] < 0) known = false; else old |= (uint64_t)bl->b[o + i] << (8 * i); }
      if (!known) R->internal("atomic on unknown memory");
      if (!it.half) { it.lastKnown.clear(); for (long i = 0; i < s.size; i++) it.lastKnown.push_back(bl->b[o + i]); it.half = 1; if (op == 2 && old != (uint64_t)s.cmp) { it.half = 0; it.pos++; } }
      else
      {
        uint64_t nw = s.b == "add" ? old + val : s.b == "inc" ? old + 1 : s.b == "or" ? old | val : s.b == "max" ? (uint64_t)std::max((int)old, (int)val) : (uint64_t)val;
        for (long i = 0; i < s.size; i++) bl->b[o + i] = nw >> (8 * i) & 255; it.half = 0; it.pos++;
      }
      break;
    }
    case 'A':
    {
      if (e.k != ALLOC || e.sp != 0 || (long)e.size != s.size) return bad(want);
      if (!s.b.empty()) { string r = place(s.b, mem, a); size_t o; Block* bl = world.find(mem, a, s.size, o); for (long i = 0; i < s.size; i++) if (bl->b[o + i] >= 0 && (!e.hasData || e.d[i] != bl->b[o + i])) return bad("copy made with wrong initial data"); }
      it.priv[s.a] = {e.mem, e.addr}; it.pos++; break;
    }
    case 'D': { auto p = it.priv[s.a]; if (e.k != FREE || e.mem != p.first || e.addr != p.second) return bad(want); it.pos++; break; }
    default: return bad(want);
    }
    if (e.k == INST && s.k != 'I') return bad(want);
  }
  if (!ended) return "the kernel's end was not reported"; if (groups.size() != G / L || items.size() != G) return "not every work-group and work-item was reported";
  for (auto& x : world.m) if (x.first != gmem) return "private or local memory was not reported as deallocated";
  return "";
}

static void kernels(const string& dir, int nmod, const char* threads)
{
  auto sc = scripts(dir + "/script"); Capture cap; CL cl; std::map<int, cl_program> progs; std::map<int, size_t> consts; cl_int e;
  Bytes iA(2048), iB(2048), iC(64); pattern(iA, 1); pattern(iB, 2); pattern(iC, 3);
  rec.clear(); cl_mem A = cl.buf(iA.size(), iA.data()), B = cl.buf(iB.size(), iB.data()), C = cl.buf(iC.size(), iC.data());
  vector<size_t> ad; for (auto& x : rec) { string b = book(x); if (!b.empty()) R->fail("host:alloc", b); if (x.k == ALLOC && x.sp == 1) { ad.push_back(x.addr); gmem = x.mem; } }
  if (ad.size() != 3) { R->begin("setup"); R->fail("host:alloc", fmt("three buffers gave %zu allocation notifications", ad.size())); return; }
  bufA = ad[0]; bufB = ad[1]; bufC = ad[2];
  Bytes cg; for (uint32_t w : {305419896u, (uint32_t)-559038737, 287454020u, 1432778632u}) for (auto x : le(w, 4)) cg.push_back(x);
  static const size_t ND[][2] = {{1, 1}, {2, 2}, {4, 2}, {4, 4}, {6, 2}, {12, 3}};
  for (size_t i = 0; i < sc.size(); i++) for (auto& nd : ND)
  {
    bool many = std::count(sc[i].name.begin(), sc[i].name.end(), '+') > 1; if (!R->thorough && many && nd[0] != 4) continue; if (!R->thorough && sc[i].name.find('+') != string::npos && (nd[0] == 2 || nd[0] == 12 || nd[0] == 1)) continue;
    if (!R->begin(fmt("%s@%zu/%zu/t%s", sc[i].name.c_str(), nd[0], nd[1], threads))) continue;
    int m = i % nmod; R->count("traces_validated_against_impl");
    if (!progs.count(m)) { string bc = slurp(dir + fmt("/m%d.bc", m)); const unsigned char* p = (const unsigned char*)bc.data(); size_t n = bc.size(); rec.clear(); progs[m] = clCreateProgramWithBinary(cl.ctx, 1, &cl.dev, &n, &p, 0, &e); CK(e); CK(clBuildProgram(progs[m], 0, 0, "", 0, 0)); for (auto& x : rec) { string b = book(x); if (!b.empty()) R->fail("build:alloc", b); if (((x.k == ALLOC && x.hasData) || x.k == HSTORE) && x.sp == 1 && x.d == cg) consts[m] = x.addr; } if (!consts.count(m)) R->fail("build:constant", "the program-scope constant was not reported with its contents"); }
    { std::lock_guard<std::mutex> l(mtx); rec.clear(); }
    cap.clear(); cl_kernel k = clCreateKernel(progs[m], fmt("k%zu", i).c_str(), &e); if (e) { R->fail("no-kernel", cap.get()); continue; }
    CK(clSetKernelArg(k, 0, sizeof A, &A)); CK(clSetKernelArg(k, 1, sizeof B, &B)); CK(clSetKernelArg(k, 2, nd[1] * 32 + 64, 0)); CK(clSetKernelArg(k, 3, sizeof C, &C));
    size_t from = 0; vector<Ev> ev; cl_int r = cl.launch1(k, nd[0], nd[1]); if (r) R->fail("enqueue", fmt("%d", r));
    ev = rec; cgAddr = consts[m];
    R->count("transitions", ev.size());
    string er = checkKernel(sc[i], ev, from, nd[0], nd[1]);
    size_t done = rec.size(); clReleaseKernel(k); for (size_t j = done; j < rec.size(); j++) { string b = book(rec[j]); if (er.empty() && !b.empty()) er = b; }
    if (!er.empty())
    {
      string opn = sc[i].name.substr(sc[i].name.rfind('+') + 1); R->fail("stream:" + er.substr(0, std::min<size_t>(er.find_first_of(",0123456789"), 50)), sc[i].name + fmt(" with %zu/%zu items, %s threads: ", nd[0], nd[1], threads) + er);
      // bring the model back to what the host sees
      for (auto it = world.m.begin(); it != world.m.end();) if (it->first != gmem) it = world.m.erase(it); else ++it;
    }
    // contents of the buffers must be those the record describes
    for (auto& z : {std::make_pair(A, bufA), std::make_pair(B, bufB)})
    {
      Bytes got(2048); cl.read(z.first, got.data(), 2048); Block& bl = world.m[gmem][z.second];
      for (size_t j = 0; j < 2048; j++) { if (er.empty() && bl.b[j] >= 0 && bl.b[j] != got[j]) { R->fail("stream:memory", sc[i].name + fmt(": byte %zu of the buffer is not what the recorded accesses give", j)); er = "x"; } bl.b[j] = got[j]; }
    }
    if (!cap.get().empty() && er.empty()) R->fail("diagnostic", sc[i].name + ": " + cap.get().substr(0, 400));
    if (i % 300 == 0) R->sample(sc[i].name + fmt(": %zu events", ev.size()));
  }
  for (auto& p : progs) clReleaseProgram(p.second); clReleaseMemObject(A); clReleaseMemObject(B); clReleaseMemObject(C); cl.destroy();
}

// ---- host commands -------------------------------------------------------------------------------------------------
struct Acc { std::map<size_t, int> ld, st; std::map<size_t, uint8_t> data; };
static void host()
{
  Capture cap; CL cl; cl_int e;
  cl_program pr = cl.build("kernel void k(global int* a){a[0]=a[1]+1;}"); cl_kernel kn = cl.kernel(pr, "k");
  const int NOP = 26;
  static const char* ON[NOP] = {"write", "writeAll", "read", "copyAB", "copySelf", "fill1", "fill4", "wrect", "rrect", "crect", "mapR", "mapW", "unmap", "launch", "create0", "createCopy", "createUse", "release", "subWrite", "subMap", "marker", "imgWrite", "imgRead", "imgFill", "imgToBuf", "bufToImg"};
  int D = R->thorough ? 4 : 3; vector<int> seq;
  std::function<void()> run = [&]() {
    string name = "host"; for (int o : seq) name += string(".") + ON[o];
    if (!R->begin(name)) return; R->count("traces_validated_against_impl");
    rec.clear(); world.m.clear(); Bytes iA(64), iB(64); pattern(iA, 1); pattern(iB, 2); string err;
    struct Expect { vector<string> other; Acc acc; } ex; vector<cl_mem> made; vector<size_t> madeA; vector<Bytes*> keep;
    size_t A = 0, B = 0, IM = 0; vector<std::pair<void*, cl_mem>> maps;
    auto step = [&](const char* what, const Acc& acc, const vector<std::function<string(const Ev&)>>& others) {
      Acc got; size_t oi = 0;
      for (auto& x : rec)
      {
        R->count("transitions"); string b = book(x); if (err.empty() && !b.empty()) err = b; if (x.k == HLOAD && !x.size) continue;
        if (x.k == HLOAD) { for (size_t i = 0; i < x.size; i++) got.ld[x.addr + i]++; size_t o; if (err.empty() && !world.find(x.mem, x.addr, x.size, o)) err = "access to memory that is not allocated: " + str(x); }
        else if (x.k == HSTORE) { for (size_t i = 0; i < x.size; i++) { got.st[x.addr + i]++; got.data[x.addr + i] = x.d[i]; } size_t o; if (err.empty() && !world.find(x.mem, x.addr, x.size, o)) err = "access to memory that is not allocated: " + str(x); }
        else { string r = oi < others.size() ? others[oi](x) : string("unexpected"); oi++; if (err.empty() && !r.empty()) err = string(what) + ": " + r + ": " + str(x); }
      }
      if (err.empty() && oi != others.size()) err = string(what) + ": a notification is missing";
      if (err.empty() && got.ld != acc.ld) err = fmt("%s: host loads reported for %zu bytes instead of %zu (or not once each)", what, got.ld.size(), acc.ld.size());
      if (err.empty() && got.st != acc.st) err = fmt("%s: host stores reported for %zu bytes instead of %zu (or not once each)", what, got.st.size(), acc.st.size());
      if (err.empty()) for (auto& x : acc.data) if (got.data[x.first] != x.second) { err = string(what) + ": store reported with wrong data"; break; }
      rec.clear();
    };
    auto alloc = [](size_t size, cl_mem_flags f, const Bytes* d, size_t* addr) { return [=](const Ev& x) -> string { if (x.k != ALLOC || x.sp != 1 || x.size != size || x.wi || x.wg) return "allocation expected"; cl_mem_flags mask = CL_MEM_READ_ONLY | CL_MEM_WRITE_ONLY; if ((x.flags & mask) != (f & mask)) return "allocated with other flags"; *addr = x.addr; if (d && x.hasData && x.d != *d) return "allocated with other initial data"; if (d && !x.hasData) { for (auto& y : rec) if (y.k == HSTORE && y.addr == x.addr && y.d == *d) { y.k = HLOAD; y.size = 0; return ""; } return "initial data not reported"; } return ""; }; };
    auto freed = [](size_t a) { return [=](const Ev& x) -> string { return x.k == FREE && x.addr == a ? "" : "deallocation expected"; }; };
    cl_mem a = clCreateBuffer(cl.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, 64, iA.data(), &e); CK(e); step("create", {}, {alloc(64, 0, &iA, &A)});
    cl_mem b = clCreateBuffer(cl.ctx, CL_MEM_READ_ONLY | CL_MEM_COPY_HOST_PTR, 64, iB.data(), &e); CK(e); step("create", {}, {alloc(64, CL_MEM_READ_ONLY, &iB, &B)});
    cl_image_format fmt_ = {CL_RGBA, CL_UNSIGNED_INT8}; cl_image_desc ds; memset(&ds, 0, sizeof ds); ds.image_type = CL_MEM_OBJECT_IMAGE2D; ds.image_width = 4; ds.image_height = 3;
    Bytes iI(48); pattern(iI, 5); cl_mem im = clCreateImage(cl.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, &fmt_, &ds, iI.data(), &e); CK(e); step("createImage", {}, {alloc(48, 0, &iI, &IM)});
    CK(clSetKernelArg(kn, 0, sizeof a, &a)); 
    Bytes ma = iA, mb = iB, mi = iI; Bytes src(64); int salt = 10;
    auto content = [&](size_t ad) -> uint8_t& { if (ad >= A && ad < A + 64) return ma[ad - A]; if (ad >= B && ad < B + 64) return mb[ad - B]; return mi[ad - IM]; };
    for (int o : seq)
    {
      Acc x; pattern(src, salt++); auto ld = [&](size_t ad) { x.ld[ad]++; }; auto st = [&](size_t ad, uint8_t v) { x.st[ad]++; x.data[ad] = v; };
      vector<std::function<string(const Ev&)>> oth;
      size_t bo[3] = {4, 1, 0}, ho[3] = {0, 0, 0}, rg[3] = {3, 2, 2}, io[3] = {1, 1, 0}, ir[3] = {2, 2, 1};
      auto rect = [&](std::function<void(size_t, size_t)> f) { size_t h = 0; for (size_t z = 0; z < 2; z++) for (size_t y = 0; y < 2; y++) for (size_t i = 0; i < 3; i++) f(4 + i + (1 + y) * 8 + z * 32, i + y * 3 + z * 6); };
      switch (o)
      {
      case 0: CK(clEnqueueWriteBuffer(cl.q, a, CL_TRUE, 5, 7, src.data(), 0, 0, 0)); for (int i = 0; i < 7; i++) st(A + 5 + i, src[i]); break;
      case 1: CK(clEnqueueWriteBuffer(cl.q, b, CL_TRUE, 0, 64, src.data(), 0, 0, 0)); for (int i = 0; i < 64; i++) st(B + i, src[i]); break;
      case 2: CK(clEnqueueReadBuffer(cl.q, a, CL_TRUE, 63, 1, src.data(), 0, 0, 0)); ld(A + 63); break;
      case 3: CK(clEnqueueCopyBuffer(cl.q, a, b, 1, 8, 20, 0, 0, 0)); clFinish(cl.q); for (int i = 0; i < 20; i++) { ld(A + 1 + i); st(B + 8 + i, ma[1 + i]); } break;
      case 4: CK(clEnqueueCopyBuffer(cl.q, a, a, 0, 32, 32, 0, 0, 0)); clFinish(cl.q); for (int i = 0; i < 32; i++) { ld(A + i); st(A + 32 + i, ma[i]); } break;
      case 5: CK(clEnqueueFillBuffer(cl.q, a, src.data(), 1, 3, 5, 0, 0, 0)); clFinish(cl.q); for (int i = 0; i < 5; i++) st(A + 3 + i, src[0]); break;
      case 6: CK(clEnqueueFillBuffer(cl.q, b, src.data(), 4, 8, 16, 0, 0, 0)); clFinish(cl.q); for (int i = 0; i < 16; i++) st(B + 8 + i, src[i % 4]); break;
      case 7: CK(clEnqueueWriteBufferRect(cl.q, a, CL_TRUE, bo, ho, rg, 8, 32, 0, 0, src.data(), 0, 0, 0)); rect([&](size_t p, size_t h) { st(A + p, src[h]); }); break;
      case 8: CK(clEnqueueReadBufferRect(cl.q, b, CL_TRUE, bo, ho, rg, 8, 32, 0, 0, src.data(), 0, 0, 0)); rect([&](size_t p, size_t h) { ld(B + p); }); break;
      case 9: { size_t d0[3] = {0, 0, 0}; CK(clEnqueueCopyBufferRect(cl.q, a, b, bo, d0, rg, 8, 32, 0, 0, 0, 0, 0)); clFinish(cl.q); rect([&](size_t p, size_t h) { ld(A + p); st(B + h, ma[p]); }); break; }
      case 10: case 11: case 19:
      {
        cl_mem t = a; cl_mem_flags fl = o == 11 ? CL_MAP_WRITE : CL_MAP_READ; size_t off = 8, n = 16, base = A;
        if (o == 19) { cl_buffer_region r = {16, 32}; t = clCreateSubBuffer(a, 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); CK(e); made.push_back(t); madeA.push_back(0); base = A + 16; off = 4; n = 8; }
        void* p = clEnqueueMapBuffer(cl.q, t, CL_TRUE, fl, off, n, 0, 0, 0, &e); CK(e); maps.push_back({p, t});
        oth.push_back([=](const Ev& x) -> string { return x.k == MAP && x.addr + x.off == base + off && x.size == n && x.flags == fl ? "" : fmt("map of 0x%zx+%zu expected, told offset %zu", base, off, x.off); }); break;
      }
      case 12: if (!maps.empty()) { auto p = maps.back(); maps.pop_back(); CK(clEnqueueUnmapMemObject(cl.q, p.second, p.first, 0, 0, 0)); clFinish(cl.q); size_t lo = A, hi = A + 64; oth.push_back([=](const Ev& x) -> string { return x.k == UNMAP && x.ptr == p.first && x.addr >= lo && x.addr < hi ? "" : "unmap expected"; }); } break;
      case 13: CK(clEnqueueTask(cl.q, kn, 0, 0, 0)); clFinish(cl.q);
      {
        int nb = 0, ne = 0; size_t hostEv = 0; vector<Ev> keepE; for (auto& y : rec) { if (y.k == KB) nb++; else if (y.k == KE) ne++; if ((y.k == HLOAD || y.k == HSTORE) && nb > ne) hostEv++; if (y.k == STORE && y.sp == 1) for (size_t i = 0; i < y.size; i++) content(y.addr + i) = y.d[i]; }
        if (err.empty() && (nb != 1 || ne != 1)) err = "launch: kernel begin and end not reported once"; if (err.empty() && hostEv) err = "launch: host access reported during the kernel";
        for (auto& y : rec) if (y.k == ALLOC || y.k == FREE) { string bb = book(y); if (err.empty() && !bb.empty()) err = bb; } rec.clear(); break;
      }
      case 14: { size_t* ad = new size_t(0); made.push_back(clCreateBuffer(cl.ctx, CL_MEM_WRITE_ONLY, 24, 0, &e)); CK(e); oth.push_back(alloc(24, CL_MEM_WRITE_ONLY, 0, ad)); step(ON[o], x, oth); oth.clear(); madeA.push_back(*ad); delete ad; break; }
      case 15: { size_t* ad = new size_t(0); Bytes in(src.begin(), src.begin() + 12); made.push_back(clCreateBuffer(cl.ctx, CL_MEM_COPY_HOST_PTR, 12, src.data(), &e)); CK(e); oth.push_back(alloc(12, 0, &in, ad)); step(ON[o], x, oth); oth.clear(); madeA.push_back(*ad); delete ad; break; }
      case 16: { size_t* ad = new size_t(0); Bytes* in = new Bytes(src.begin(), src.begin() + 20); keep.push_back(in); made.push_back(clCreateBuffer(cl.ctx, CL_MEM_USE_HOST_PTR | CL_MEM_READ_ONLY, 20, in->data(), &e)); CK(e); oth.push_back(alloc(20, CL_MEM_READ_ONLY, in, ad)); step(ON[o], x, oth); oth.clear(); madeA.push_back(*ad); delete ad; break; }
      case 17: if (!made.empty() && madeA.back()) { CK(clReleaseMemObject(made.back())); oth.push_back(freed(madeA.back())); made.pop_back(); madeA.pop_back(); } break;
      case 18: { cl_buffer_region r = {32, 16}; cl_mem s = clCreateSubBuffer(a, 0, CL_BUFFER_CREATE_TYPE_REGION, &r, &e); CK(e); CK(clEnqueueWriteBuffer(cl.q, s, CL_TRUE, 3, 4, src.data(), 0, 0, 0)); for (int i = 0; i < 4; i++) st(A + 35 + i, src[i]); clReleaseMemObject(s); break; }
      case 20: { cl_event ev; CK(clEnqueueMarker(cl.q, &ev)); clFinish(cl.q); clReleaseEvent(ev); break; }
      case 21: CK(clEnqueueWriteImage(cl.q, im, CL_TRUE, io, ir, 0, 0, src.data(), 0, 0, 0)); for (int y = 0; y < 2; y++) for (int i = 0; i < 8; i++) st(IM + (1 + y) * 16 + 4 + i, src[y * 8 + i]); break;
      case 22: CK(clEnqueueReadImage(cl.q, im, CL_TRUE, io, ir, 0, 0, src.data(), 0, 0, 0)); for (int y = 0; y < 2; y++) for (int i = 0; i < 8; i++) ld(IM + (1 + y) * 16 + 4 + i); break;
      case 23: { cl_uint c[4] = {1, 2, 3, 250}; CK(clEnqueueFillImage(cl.q, im, c, io, ir, 0, 0, 0)); clFinish(cl.q); for (int y = 0; y < 2; y++) for (int i = 0; i < 8; i++) st(IM + (1 + y) * 16 + 4 + i, c[i % 4]); break; }
      case 24: CK(clEnqueueCopyImageToBuffer(cl.q, im, b, io, ir, 8, 0, 0, 0)); clFinish(cl.q); for (int y = 0; y < 2; y++) for (int i = 0; i < 8; i++) { size_t s = (1 + y) * 16 + 4 + i; ld(IM + s); st(B + 8 + y * 8 + i, mi[s]); } break;
      case 25: CK(clEnqueueCopyBufferToImage(cl.q, b, im, 8, io, ir, 0, 0, 0)); clFinish(cl.q); for (int y = 0; y < 2; y++) for (int i = 0; i < 8; i++) { size_t d = (1 + y) * 16 + 4 + i; ld(B + 8 + y * 8 + i); st(IM + d, mb[8 + y * 8 + i]); } break;
      }
      step(ON[o], x, oth); for (auto& z : x.data) content(z.first) = z.second;
      if (!err.empty()) break;
    }
    // the buffers hold what the record describes
    Bytes got(64); cl.read(a, got.data(), 64); if (err.empty() && got != ma) err = "buffer contents differ from the reported stores"; cl.read(b, got.data(), 64); if (err.empty() && got != mb) err = "buffer contents differ from the reported stores"; rec.clear();
    if (!err.empty()) R->fail("host:" + err.substr(0, std::min<size_t>(err.find_first_of("(0123456789"), 60)), name + ": " + err);
    for (auto& p : maps) { clEnqueueUnmapMemObject(cl.q, p.second, p.first, 0, 0, 0); } clFinish(cl.q); rec.clear(); err.clear();
    for (size_t i = made.size(); i-- > 0;) { clReleaseMemObject(made[i]); if (madeA[i]) step("release", {}, {freed(madeA[i])}); else step("release sub-buffer", {}, {}); }
    cl_mem other = b; CK(clSetKernelArg(kn, 0, sizeof other, &other)); rec.clear(); // drop any reference the kernel holds
    clReleaseMemObject(im); step("release image", {}, {freed(IM)}); clReleaseMemObject(a); step("release", {}, {freed(A)});
    if (!err.empty()) R->fail("host:" + err.substr(0, std::min<size_t>(err.find_first_of("(0123456789"), 60)), name + ": " + err);
    clReleaseMemObject(b); rec.clear(); for (auto k : keep) delete k;
  };
  std::function<void(int)> go = [&](int d) { run(); if (d == 0) return; for (int o = 0; o < NOP; o++) { if (!R->thorough && d == 1 && seq.size() == 2 && !(o == 12 || o == 17 || o == 13 || o == 0 || o == 3 || o == 10 || o == 22 || o == 2)) continue; if (R->thorough && seq.size() == 3 && !(o == 12 || o == 17 || o == 13)) continue; seq.push_back(o); go(d - 1); seq.pop_back(); } };
  go(D); clReleaseKernel(kn); clReleaseProgram(pr); cl.destroy();
}
// ---- lists of plugin libraries, and plugins registered and unregistered between commands --------------------------------
struct Small : oclgrind::Plugin
{
  const oclgrind::Context* cx; string name; bool safe; std::mutex m; std::map<string, int> n; std::set<std::thread::id> threads; vector<string>* order;
  Small(const oclgrind::Context* c, string nm, bool s, vector<string>* o) : Plugin(c), cx(c), name(nm), safe(s), order(o) {}
  bool isThreadSafe() const override { return safe; }
  void hit(const char* w) { std::lock_guard<std::mutex> l(m); n[w]++; threads.insert(std::this_thread::get_id()); if (order && string(w) == "kernelBegin") order->push_back(name); }
  void kernelBegin(const oclgrind::KernelInvocation*) override { hit("kernelBegin"); }
  void kernelEnd(const oclgrind::KernelInvocation*) override { hit("kernelEnd"); }
  void workGroupBegin(const oclgrind::WorkGroup*) override { hit("workGroupBegin"); }
  void workGroupComplete(const oclgrind::WorkGroup*) override { hit("workGroupComplete"); }
  void workItemBegin(const oclgrind::WorkItem*) override { hit("workItemBegin"); }
  void workItemComplete(const oclgrind::WorkItem*) override { hit("workItemComplete"); }
  void instructionExecuted(const oclgrind::WorkItem*, const llvm::Instruction*, const oclgrind::TypedValue&) override { hit("instruction"); }
  void memoryStore(const Memory*, const oclgrind::WorkItem*, size_t, size_t, const uint8_t*) override { hit("store"); }
  void memoryLoad(const Memory*, const oclgrind::WorkItem*, size_t, size_t) override { hit("load"); }
  void hostMemoryStore(const Memory*, size_t, size_t, const uint8_t*) override { hit("hostStore"); }
  void memoryAllocated(const Memory*, size_t, size_t, cl_mem_flags, const uint8_t*) override { hit("alloc"); }
  void memoryDeallocated(const Memory*, size_t) override { hit("free"); }
  void log(oclgrind::MessageType, const char*) override { hit("log"); }
};
static vector<std::pair<string, int>> libs; static vector<std::unique_ptr<Small>> fromLib; static oclgrind::Context* theContext; static vector<string> order;
static string tail(const string& p) { return p.substr(p.rfind('/') + 1); }
extern "C" void vfLib(void* c, const char* path, int init)
{
  libs.push_back({tail(path), init}); theContext = (oclgrind::Context*)c;
  if (init) { fromLib.emplace_back(new Small(theContext, tail(path), true, &order)); theContext->registerPlugin(fromLib.back().get()); }
  else for (size_t i = 0; i < fromLib.size(); i++) if (fromLib[i]->name == tail(path) && fromLib[i]->cx == theContext) { theContext->unregisterPlugin(fromLib[i].get()); fromLib.erase(fromLib.begin() + i); break; }
}
static void plugins()
{
  Capture cap; const char* names[] = {"./a.so", "b.so", "./missing.so", "./noinit.so", "ABS", "./a.so"};
  // every list of up to three libraries, the failing ones included
  vector<vector<int>> lists; for (int i = 0; i < 5; i++) { lists.push_back({i}); for (int j = 0; j < 5; j++) if (j != i) { lists.push_back({i, j}); for (int k = 0; k < 5; k++) if (k != i && k != j) lists.push_back({i, j, k}); } }
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return;
  for (auto& l : lists) for (const char* th : {"1", "3"})
  {
    string v, nm; vector<string> want; for (int i : l) { string p = string(names[i]) == "ABS" ? string(cwd) + "/c.so" : i == 1 ? string("./b.so") : names[i]; v += (v.empty() ? "" : ":") + p; nm += fmt("%d", i); if (i == 0 || i == 1 || i == 4) want.push_back(tail(p)); }
    if (!R->begin("libs:" + nm + ":t" + th)) continue; R->count("traces_validated_against_impl"); R->count("transitions", 5);
    env("OCLGRIND_PLUGINS", v.c_str()); env("OCLGRIND_NUM_THREADS", th); libs.clear(); fromLib.clear(); order.clear(); string er;
    {
      CL cl; vector<std::pair<string, int>> w; for (auto& x : want) w.push_back({x, 1}); if (libs != w) er = fmt("%zu of %zu plugin libraries were initialised, in another order or number", libs.size(), w.size());
      cl_program pr = cl.build("kernel void k(global int* a){a[get_global_id(0)]=1;}"); cl_kernel k = cl.kernel(pr, "k"); cl_mem a = cl.buf(64); CK(clSetKernelArg(k, 0, sizeof a, &a)); order.clear();
      if (cl.launch1(k, 4, 2) && er.empty()) er = "the kernel did not run";
      if (er.empty() && order != want) er = "plugins were not notified in the order of the list";
      for (auto& p : fromLib) if (er.empty()) { auto& n = p->n; if (n["kernelBegin"] != 1 || n["kernelEnd"] != 1 || n["workGroupBegin"] != 2 || n["workGroupComplete"] != 2 || n["workItemBegin"] != 4 || n["workItemComplete"] != 4 || n["store"] != 4 || n["load"]) er = "plugin " + p->name + " did not get every notification exactly once"; }
      clReleaseMemObject(a); clReleaseKernel(k); clReleaseProgram(pr); libs.clear(); cl.destroy();
      w.clear(); for (auto& x : want) w.push_back({x, 0}); if (er.empty() && libs != w) er = fmt("%zu of %zu plugin libraries were released when the context was destroyed", libs.size(), w.size());
    }
    if (!er.empty()) R->fail("libs:" + er.substr(0, 30), nm + " (" + v + "): " + er);
  }
  // every history of registering and unregistering three plugins around launches, with every thread-safety
  env("OCLGRIND_PLUGINS", "./a.so"); env("OCLGRIND_NUM_THREADS", "3"); libs.clear(); fromLib.clear();
  CL cl; cl_program pr = cl.build("kernel void k(global int* a){int i=get_global_id(0);a[i]=a[i]+i;}"); cl_kernel k = cl.kernel(pr, "k"); cl_mem a = cl.buf(64); CK(clSetKernelArg(k, 0, sizeof a, &a));
  int D = R->thorough ? 5 : 4;
  for (int safe = 0; safe < 8; safe++)
  {
    vector<int> seq; std::function<void(int)> go = [&](int d) {
      if (!seq.empty())
      {
        string nm; for (int o : seq) nm += fmt("%d", o);
        if (R->begin(fmt("reg:%d:", safe) + nm))
        {
          R->count("traces_validated_against_impl"); string er; vector<std::unique_ptr<Small>> p; for (int i = 0; i < 3; i++) p.emplace_back(new Small(theContext, fmt("%d", i), safe >> i & 1, 0));
          bool reg[3] = {0, 0, 0}; auto launch = [&](const string& when) {
            R->count("transitions"); for (auto& x : p) { x->n.clear(); x->threads.clear(); } if (cl.launch1(k, 6, 1) && er.empty()) er = "the kernel did not run";
            bool serial = false; for (int i = 0; i < 3; i++) serial |= reg[i] && !p[i]->safe;
            for (int i = 0; i < 3; i++)
            {
              auto& n = p[i]->n; if (!reg[i]) { if (er.empty() && !n.empty()) er = fmt("plugin %d is not registered but was notified", i); continue; }
              if (er.empty() && (n["kernelBegin"] != 1 || n["kernelEnd"] != 1 || n["workGroupBegin"] != 6 || n["workGroupComplete"] != 6 || n["workItemBegin"] != 6 || n["store"] != 6 || n["load"] != 6 || n["instruction"] < 12)) er = fmt("plugin %d did not get every notification exactly once ", i) + when;
              if (er.empty() && serial && p[i]->threads.size() > 2) er = fmt("plugins that are not thread safe were called by %zu threads ", p[i]->threads.size()) + when;
            }
          };
          for (size_t s = 0; s < seq.size(); s++) { int o = seq[s]; if (reg[o]) theContext->unregisterPlugin(p[o].get()); else theContext->registerPlugin(p[o].get()); reg[o] ^= 1; if (s + 1 == seq.size()) launch(fmt("after step %zu", s)); }
          for (int i = 0; i < 3; i++) if (reg[i]) { theContext->unregisterPlugin(p[i].get()); reg[i] = 0; }
          if (seq.size() < 3) launch("at the end");
          if (!er.empty()) R->fail("reg:" + er.substr(0, 40), nm + ": " + er);
        }
      }
      if (d) for (int o = 0; o < 3; o++) { seq.push_back(o); go(d - 1); seq.pop_back(); }
    };
    go(D);
  }
  clReleaseMemObject(a); clReleaseKernel(k); clReleaseProgram(pr); cl.destroy();
}
static void body(int argc, char** argv)
{
  stdEnv(argv[1], argv[4]); env("OCLGRIND_PLUGINS", argv[5]); string dir = argv[2];
  if (string(argv[6]) == "plugins") { if (chdir(argv[7])) R->internal("chdir"); plugins(); } else if (string(argv[6]) == "host") host(); else kernels(dir, atoi(argv[3]), argv[4]);
}
VF_MAIN(body)
