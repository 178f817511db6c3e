// Runtime behind the __tsan_* calls that clang inserts: threads of the code under test run one at a time, every lock, atomic operation, thread start and join is a scheduling point, and all other accesses are checked for happens-before races (vector clocks). Since every schedule explored is free of data races, preempting at these points only loses no behaviour.
#include "mcrt.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <unordered_map>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*); size_t malloc_usable_size(void*); }
namespace
{
const int MAXT = 8, MAXP = 200000;
struct VC { uint32_t c[MAXT]; };
void joinVC(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
enum St { NONE, READY, LOCKWAIT, JOINWAIT, DONE };
struct Thr { St st; const void* on; int joinOn; sem_t sem; pthread_t real; VC vc; char* lo; char* hi; void* (*fn)(void*); void* arg; };
struct Mtx { int owner = -1; int depth = 0; VC vc; Mtx() { memset(&vc, 0, sizeof vc); } };
Thr T[MAXT]; int nT, cur; volatile bool on = false;
__thread int self = -1;
// plain std containers would call the interposed allocator while a schedule is being followed, which is harmless: only shadow cells are cleared
std::unordered_map<const void*, Mtx>* mtx; std::unordered_map<const void*, VC>* atom;
struct Shared { // results of a child
  int n; uint8_t chosen[MAXP], nalt[MAXP]; uint8_t preempt[MAXP]; int nprefix; uint8_t prefix[MAXP]; char race[8192]; char error[1024]; long points; size_t len; char outcome[1 << 20]; long maxSteps; };
Shared* S;
} namespace mc { std::vector<std::string> ignoreRacesIn; bool ioPoints; } namespace
{
[[noreturn]] void stop(const char* e) { snprintf(S->error, sizeof S->error, "%s", e); _exit(77); }
int npre;
void wake(int t) { cur = t; sem_post(&T[t].sem); }
void sleepSelf() { while (sem_wait(&T[self].sem) && errno == EINTR) {} }
bool enabled(int t)
{
  if (T[t].st == READY) return true;
  if (T[t].st == LOCKWAIT) { auto it = mtx->find(T[t].on); return it == mtx->end() || it->second.owner < 0; }
  if (T[t].st == JOINWAIT) return T[T[t].joinOn].st == DONE;
  return false;
}
// Chooses the next thread. `must`: the current thread cannot continue.
void schedule()
{
  int alt[MAXT], n = 0; bool selfOn = self >= 0 && T[self].st != DONE && enabled(self); if (selfOn) alt[n++] = self; for (int t = 0; t < nT; t++) if (t != self && enabled(t)) alt[n++] = t;
  if (!n) { for (int t = 0; t < nT; t++) if (T[t].st != DONE) stop("deadlock: no thread can continue"); return; }
  int c = 0; if (n > 1) { if (S->n >= MAXP || S->n > S->maxSteps) stop("the schedule does not end (step limit)"); if (S->n < S->nprefix) { c = S->prefix[S->n]; if (c >= n) stop("INTERNAL: schedule cannot be followed"); } S->chosen[S->n] = c; S->nalt[S->n] = n; S->preempt[S->n] = selfOn; S->n++; }
  S->points++; int t = alt[c]; if (t == self) return; bool dead = T[self].st == DONE; wake(t); if (!dead) sleepSelf();
}
// ---- happens-before race detection ----
struct Ent { uint32_t clk; uint8_t tid, w, mask, pad; };
struct Cell { uintptr_t key; uint32_t gen; uint8_t n; Ent e[7]; };
const size_t NC = 1 << 21; Cell* cells; const uint32_t gen = 1; // fresh (zero) pages in every child
size_t hashOf(uintptr_t k) { return ((k >> 6) * 0x9E3779B97F4A7C15ull >> 49 << 6) + (k & 63); } // neighbours share pages
Cell* find(uintptr_t key, bool make) { size_t h = hashOf(key) & (NC - 1); for (size_t i = 0; i < 64; i++) { Cell* c = &cells[(h + i) & (NC - 1)]; if (c->gen != gen) { if (!make) return 0; c->gen = gen; c->key = key; c->n = 0; return c; } if (c->key == key) return c; } return 0; }
std::string where(void* pc) { Dl_info d; if (dladdr(pc, &d) && d.dli_sname) return d.dli_sname; char b[40]; snprintf(b, 40, "%p", pc); return b; }
void raceFound(uintptr_t a, const Ent& e, bool w, void* pc)
{
  if (S->race[0]) return; void* bt[12]; int n = backtrace(bt, 12); std::string s; for (int i = 2; i < n && i < 9; i++) s += (i > 2 ? " < " : "") + where(bt[i]);
  std::string top = s.substr(0, s.find(" < ")); for (auto& x : mc::ignoreRacesIn) if (top.find(x) != std::string::npos) return;
  snprintf(S->race, sizeof S->race, "%s by thread %d conflicts with an unordered %s by thread %d; in %s", w ? "write" : "read", self, e.w ? "write" : "read", e.tid, s.c_str());
}
inline void access1(uintptr_t key, uint8_t mask, bool w, void* pc)
{
  Cell* c = find(key, true); if (!c) return; VC& v = T[self].vc; uint32_t now = v.c[self];
  for (int i = 0; i < c->n;)
  {
    Ent& e = c->e[i]; if (e.mask & mask) { if (e.tid != self) { bool hb = e.clk <= v.c[e.tid]; if (!hb && (w || e.w)) raceFound(key << 3, e, w, pc); if (hb && w) e.mask &= ~mask; } else { if (e.clk == now && e.w >= w && (e.mask & mask) == mask) return; if (w || !e.w) e.mask &= ~mask; } }
    if (!e.mask) c->e[i] = c->e[--c->n]; else i++;
  }
  if (c->n == 7) { memmove(c->e, c->e + 1, 6 * sizeof(Ent)); c->n = 6; } c->e[c->n++] = {now, (uint8_t)self, (uint8_t)w, mask, 0};
}
inline void access(const void* p, size_t n, bool w, void* pc)
{
  if (!on || self < 0) return; const char* q = (const char*)p; if (q >= T[self].lo && q < T[self].hi) return; uintptr_t a = (uintptr_t)p; if (!n) return;
  while (n) { size_t o = a & 7, k = std::min<size_t>(8 - o, n); access1(a >> 3, (uint8_t)(((1u << k) - 1) << o), w, pc); a += k; n -= k; }
}
void forget(void* p, size_t n) { if (!on || self < 0 || !p || !n) return; uintptr_t a = (uintptr_t)p; for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; k++) if (Cell* c = find(k, false)) c->n = 0; }
inline bool act() { return on && self >= 0; }
void tick() { T[self].vc.c[self]++; }
// ---- synchronisation ----
void lock(const void* m)
{
  schedule(); Mtx& x = (*mtx)[m]; if (x.owner == self) { x.depth++; return; }
  while ((*mtx)[m].owner >= 0) { T[self].st = LOCKWAIT; T[self].on = m; schedule(); T[self].st = READY; }
  Mtx& y = (*mtx)[m]; y.owner = self; y.depth = 1; joinVC(T[self].vc, y.vc);
}
bool trylock(const void* m) { schedule(); Mtx& x = (*mtx)[m]; if (x.owner == self) { x.depth++; return true; } if (x.owner >= 0) return false; x.owner = self; x.depth = 1; joinVC(T[self].vc, x.vc); return true; }
void unlock(const void* m) { Mtx& x = (*mtx)[m]; if (x.owner != self) { if (x.owner < 0 && x.depth == 0) return; stop("a mutex is unlocked by a thread that does not own it"); } if (--x.depth) return; x.owner = -1; joinVC(x.vc, T[self].vc); tick(); }
void atomicPoint(const void* a) { schedule(); VC& v = (*atom)[a]; joinVC(T[self].vc, v); joinVC(v, T[self].vc); tick(); }
void bounds() { pthread_attr_t a; void* p; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a); T[self].lo = (char*)p; T[self].hi = (char*)p + n; }
void* tramp(void* x) { int id = (int)(intptr_t)x; self = id; while (sem_wait(&T[id].sem) && errno == EINTR) {} bounds(); void* r = T[id].fn(T[id].arg); T[id].st = DONE; schedule(); self = -1; return r; }
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, PC); } void __tsan_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); } void __tsan_read_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); } void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); } void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }
#define AT(b, t) \
  t __tsan_atomic##b##_load(const volatile t* a, int) { if (act()) atomicPoint((const void*)a); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##b##_store(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); __atomic_store_n(a, v, 5); } \
  t __tsan_atomic##b##_exchange(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); return __atomic_exchange_n(a, v, 5); } \
  t __tsan_atomic##b##_fetch_add(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); return __atomic_fetch_add(a, v, 5); } \
  t __tsan_atomic##b##_fetch_sub(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); return __atomic_fetch_sub(a, v, 5); } \
  t __tsan_atomic##b##_fetch_and(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); return __atomic_fetch_and(a, v, 5); } \
  t __tsan_atomic##b##_fetch_or(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); return __atomic_fetch_or(a, v, 5); } \
  t __tsan_atomic##b##_fetch_xor(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); return __atomic_fetch_xor(a, v, 5); } \
  t __tsan_atomic##b##_fetch_nand(volatile t* a, t v, int) { if (act()) atomicPoint((const void*)a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t* a, t* c, t v, int, int) { if (act()) atomicPoint((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t* a, t* c, t v, int, int) { if (act()) atomicPoint((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t* a, t c, t v, int, int) { if (act()) atomicPoint((const void*)a); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (act()) atomicPoint(&cells); } void __tsan_atomic_signal_fence(int) {}
// pthread
int pthread_mutex_lock(pthread_mutex_t* m) { if (act()) { lock(m); return 0; } static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (act()) return trylock(m) ? 0 : EBUSY; static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (act()) { unlock(m); return 0; } static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (act()) { lock(m); return 0; } static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (act()) { lock(m); return 0; } static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (act()) { unlock(m); return 0; } static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (act()) { unlock(m); schedule(); lock(m); return 0; } static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); } // spurious wake-ups are allowed
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* x)
{
  static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); if (!act()) return f(t, a, fn, x);
  if (nT == MAXT) stop("INTERNAL: too many threads"); int id = nT; Thr& n = T[id]; n.fn = fn; n.arg = x; sem_init(&n.sem, 0, 0); n.vc = T[self].vc; n.vc.c[id] = 1; n.st = READY; int r = f(&n.real, a, tramp, (void*)(intptr_t)id); if (r) stop("INTERNAL: pthread_create"); *t = n.real; nT++; tick(); schedule(); return 0;
}
int pthread_join(pthread_t t, void** r)
{
  static auto f = real<int (*)(pthread_t, void**)>("pthread_join"); if (!act()) return f(t, r); int id = -1; for (int i = 0; i < nT; i++) if (pthread_equal(T[i].real, t)) id = i; if (id < 0) return f(t, r);
  schedule(); while (T[id].st != DONE) { T[self].st = JOINWAIT; T[self].joinOn = id; schedule(); T[self].st = READY; } joinVC(T[self].vc, T[id].vc); return f(t, r);
}
int __cxa_guard_acquire(uint64_t* g) { static auto f = real<int (*)(uint64_t*)>("__cxa_guard_acquire"); if (!act()) return f(g); if (*(char*)g) { joinVC(T[self].vc, (*atom)[g]); return 0; } lock((char*)g + 1); if (*(char*)g) { unlock((char*)g + 1); return 0; } return 1; }
void __cxa_guard_release(uint64_t* g) { static auto f = real<void (*)(uint64_t*)>("__cxa_guard_release"); if (!act()) { f(g); return; } *(char*)g = 1; joinVC((*atom)[g], T[self].vc); unlock((char*)g + 1); }
void __cxa_guard_abort(uint64_t* g) { static auto f = real<void (*)(uint64_t*)>("__cxa_guard_abort"); if (!act()) { f(g); return; } unlock((char*)g + 1); }
int pthread_once(pthread_once_t* o, void (*fn)()) { static auto f = real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); if (!act()) return f(o, fn); lock(o); int r = f(o, fn); unlock(o); return r; }
// output
size_t fwrite(const void* p, size_t n, size_t m, FILE* f) { static auto g = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite"); if (mc::ioPoints && act()) schedule(); return g(p, n, m, f); }
int fflush(FILE* f) { static auto g = real<int (*)(FILE*)>("fflush"); if (mc::ioPoints && act()) schedule(); return g(f); }
// memory that is handed out again is new memory
static void fresh(void* p) { if (act() && p) forget(p, malloc_usable_size(p)); }
void* malloc(size_t n) { void* p = __libc_malloc(n); fresh(p); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); fresh(p); return p; }
void* realloc(void* q, size_t n) { if (act()) forget(q, q ? malloc_usable_size(q) : 0); void* p = __libc_realloc(q, n); fresh(p); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); fresh(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void* p) { if (p && act()) { size_t n = malloc_usable_size(p); access(p, n, true, PC); forget(p, n); } __libc_free(p); }
}
namespace mc
{
long totalPoints, maxPoints, preempted; bool complete;
static void init() { if (S) return; S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); cells = (Cell*)mmap(0, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); void* b[4]; backtrace(b, 4); }
static Execution execute(const std::function<std::string()>& run, const std::vector<uint8_t>& prefix, long maxSteps)
{
  init(); S->n = 0; S->nprefix = prefix.size(); if (!prefix.empty()) memcpy(S->prefix, prefix.data(), prefix.size()); S->race[0] = S->error[0] = 0; S->points = 0; S->len = 0; S->maxSteps = maxSteps; fflush(0); pid_t p = fork();
  if (!p)
  {
    alarm(60); mtx = new std::unordered_map<const void*, Mtx>; atom = new std::unordered_map<const void*, VC>; mtx->reserve(4096); atom->reserve(4096); nT = 1; cur = 0; self = 0; sem_init(&T[0].sem, 0, 0); T[0].st = READY; T[0].real = pthread_self(); memset(&T[0].vc, 0, sizeof(VC)); T[0].vc.c[0] = 1; bounds(); on = true; std::string r = run(); on = false;
    S->len = std::min(r.size(), sizeof S->outcome); memcpy(S->outcome, r.data(), S->len); _exit(0);
  }
  Execution e; waitpid(p, &e.status, 0); e.outcome.assign(S->outcome, S->len); e.race = S->race; e.error = S->error; e.points = S->points; for (int i = 0; i < S->n; i++) e.schedule += (char)('0' + S->chosen[i]); return e;
}
Execution replay(const std::function<std::string()>& run, const std::string& s) { std::vector<uint8_t> p; for (char c : s) p.push_back(c - '0'); return execute(run, p, 200000); }
long explore(const Options& o, const std::function<std::string()>& run, const std::function<bool(const Execution&)>& judge)
{
  std::vector<uint8_t> prefix; long n = 0; complete = false; totalPoints = maxPoints = preempted = 0;
  while (n < o.maxSchedules)
  {
    Execution e = execute(run, prefix, o.maxSteps); n++; totalPoints += e.points; maxPoints = std::max(maxPoints, e.points); int k = S->n; std::vector<uint8_t> ch(S->chosen, S->chosen + k), na(S->nalt, S->nalt + k), pr(S->preempt, S->preempt + k);
    if (o.delays) for (auto& x : pr) x = 1; int used = 0; for (int i = 0; i < k; i++) used += pr[i] && ch[i]; preempted += used > 0; if (!judge(e)) return n;
    // next schedule in depth-first order within the preemption bound
    int i = k - 1; for (; i >= 0; i--) { used -= pr[i] && ch[i]; if (ch[i] + 1 < na[i] && used + (pr[i] ? 1 : 0) <= o.preemptions) break; } if (i < 0) { complete = true; return n; }
    prefix.assign(ch.begin(), ch.begin() + i); prefix.push_back(ch[i] + 1);
  }
  return n;
}
}
