"""Controlled OpenMP runtime.

The C++ engine is compiled from the current tree with -fopenmp -fsanitize=thread, but is linked
against the runtime below instead of libgomp/libtsan.  Team threads are real OS threads of which
exactly one runs at a time; the explorer decides who runs next at every barrier / end of region
(choice points) and can preempt a thread in front of any individual memory access.  Every
instrumented access is entered in a byte-precise shadow map for the current barrier interval, so
that two dependent accesses of different threads (same byte, at least one write, not both inside
the same critical section) are detected: if there is none, all interleavings of the interval are
Mazurkiewicz-equivalent to the executed one; if there is one, the explorer gets its position and
reverses it (preempts in front of it), as in dynamic partial-order reduction."""
import os, ctypes, subprocess, tempfile, shutil, hashlib
from . import env

SRC = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <unordered_map>
#include <map>
#include <string>
#include <new>
#include <chrono>
#define API extern "C" __attribute__((visibility("default")))
#define NOI __attribute__((no_sanitize("thread")))
// containers of the runtime use their own allocator type: the linker must not merge their code with the
// instrumented instantiations of the engine
template<class T> struct RA { typedef T value_type; RA() {} template<class U> RA(const RA<U> &) {} T *allocate(size_t n){ return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t){ free(p); }
 template<class U> bool operator==(const RA<U> &) const { return true; } template<class U> bool operator!=(const RA<U> &) const { return false; } };
template<class T> using Vec = std::vector<T, RA<T>>;
template<class K, class V> using Map = std::map<K, V, std::less<K>, RA<std::pair<const K, V>>>;
static const int MAXT = 16;
struct Cell { uint8_t r[MAXT], w[MAXT]; uint8_t lr[MAXT], lw[MAXT]; int fr[MAXT], fw[MAXT], xw[MAXT]; };
typedef std::unordered_map<uintptr_t, Cell, std::hash<uintptr_t>, std::equal_to<uintptr_t>, RA<std::pair<const uintptr_t, Cell>>> UMap;
struct Race { int region, ta, ka, tb, kb, kinds; };
struct Pre { int region, tid, k; };
enum { READY, BARRIER, DONE, LOCKWAIT };
struct Team { int n = 0, cur = 0; int st[MAXT]; int singles[MAXT]; int single_done = 0; int acc[MAXT]; int incrit[MAXT]; Map<void *, int> locks; void *want[MAXT]; long loopn[MAXT]; Map<long, long> loops; };
static std::mutex mu; static std::condition_variable cv;
static Team *team = nullptr; static int region = -1;
static thread_local int tid = 0; static thread_local bool inteam = false; static thread_local int busy = 0;
static Vec<int> script, choice, arity; static Vec<Pre> pres; static Vec<Race> races;
static int policy = 0, shadow_on = 1; static long n_access = 0, n_intervals = 0, n_switch = 0, n_pre = 0, uncontrolled = 0, n_regions = 0, maxteam = 0;
static UMap *shadow = nullptr;
struct Busy { int o; Busy(){ o = busy; busy = 1; } ~Busy(){ busy = o; } };
static int pick_from(Vec<int> &c){
  if (c.size() == 1) return c[0];
  size_t k = choice.size(); int d = k < script.size() ? script[k] : 0; if (d >= (int)c.size()) d = c.size() - 1;
  choice.push_back(d); arity.push_back((int)c.size());
  // policy: the default order (0 ascending, 1 descending, 2 rotating)
  int base = policy == 1 ? (int)c.size() - 1 : policy == 2 ? (int)(k % c.size()) : 0;
  return c[(base + d) % c.size()];
}
// choose the next thread to run; called with mu held by the thread giving up control
static void next_locked(){
  Team *t = team; Vec<int> c;
  for (int i = 0; i < t->n; i++){ if (t->st[i] == LOCKWAIT && !t->locks[t->want[i]]) t->st[i] = READY; if (t->st[i] == READY) c.push_back(i); }
  if (c.empty()){
    bool all = true; for (int i = 0; i < t->n; i++) if (t->st[i] == BARRIER) all = false;
    if (all){ t->cur = -1; cv.notify_all(); return; }
    for (int i = 0; i < t->n; i++) if (t->st[i] == BARRIER){ t->st[i] = READY; c.push_back(i); }
    n_intervals++; if (shadow) shadow->clear();
  }
  t->cur = pick_from(c); n_switch++; cv.notify_all();
}
static void wait_turn(std::unique_lock<std::mutex> &l, Team *t){
  while (!(t->cur == tid)){
    if (cv.wait_for(l, std::chrono::seconds(3)) == std::cv_status::timeout && t->st[tid] == READY){ uncontrolled++; return; }
  }
}
static void yield_as(int s){ Busy bz; std::unique_lock<std::mutex> l(mu); Team *t = team; t->st[tid] = s; next_locked(); wait_turn(l, t); }
static void preempt(){
  std::unique_lock<std::mutex> l(mu); Team *t = team; int me = tid; int nx = -1;
  for (int d = 1; d < t->n; d++){ int j = (me + d) % t->n; if (t->st[j] == READY){ nx = j; break; } }
  if (nx < 0) return;
  n_pre++; t->cur = nx; cv.notify_all(); wait_turn(l, t);
}
NOI static void acc(const void *p, size_t n, bool w){
  if (!inteam || !shadow_on || busy || !team) return;
  busy = 1;
  Team *t = team; int k = t->acc[tid]++; n_access++;
  for (auto &q : pres) if (q.region == region && q.tid == tid && q.k == k){ preempt(); break; }
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e){
    uintptr_t g = a >> 3; int lo = a & 7; int hi = (e - (g << 3)) < 8 ? (int)(e - (g << 3)) : 8;
    uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    auto it = shadow->find(g); if (it == shadow->end()){ it = shadow->emplace(g, Cell()).first; memset(&it->second, 0, sizeof(Cell)); }
    Cell &c = it->second; bool lk = t->incrit[tid] > 0;
    for (int j = 0; j < t->n; j++) if (j != tid){
      uint8_t o = c.w[j] | (w ? c.r[j] : 0); uint8_t ol = c.lw[j] | (w ? c.lr[j] : 0);
      uint8_t conf = m & (lk ? o : (o | ol));
      if (conf && races.size() < 4000){
        if ((m & c.w[j]) || (m & c.lw[j])) { races.push_back({region, j, c.fw[j], tid, k, 1}); if (c.xw[j] != c.fw[j]) races.push_back({region, j, c.xw[j], tid, k, 1}); }
        if (w && ((m & c.r[j]) || (m & c.lr[j]))) races.push_back({region, j, c.fr[j], tid, k, 2});
      }
    }
    if (w){ if (!(c.w[tid] | c.lw[tid])) c.fw[tid] = k; c.xw[tid] = k; (lk ? c.lw : c.w)[tid] |= m; }
    else { if (!(c.r[tid] | c.lr[tid])) c.fr[tid] = k; (lk ? c.lr : c.r)[tid] |= m; }
    a = (g << 3) + 8;
  }
  busy = 0;
}
static void fresh(void *p, size_t n){ if (!inteam || !shadow || busy || !team) return; busy = 1;
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; g++) shadow->erase(g); busy = 0; }
void *operator new(size_t n){ void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fresh(p, n); return p; }
void *operator new[](size_t n){ return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" {
void *uxmc_memcpy(void *d, const void *s, size_t n){ if (n){ acc(s, n, 0); acc(d, n, 1);} return memcpy(d, s, n); }
void *uxmc_memmove(void *d, const void *s, size_t n){ if (n){ acc(s, n, 0); acc(d, n, 1);} return memmove(d, s, n); }
void *uxmc_memset(void *d, int v, size_t n){ if (n) acc(d, n, 1); return memset(d, v, n); }
void __tsan_init(){} void __tsan_func_entry(void *){} void __tsan_func_exit(){}
#define RW(N) void __tsan_read##N(void *p){ acc(p, N, 0);} void __tsan_write##N(void *p){ acc(p, N, 1);} \
 void __tsan_unaligned_read##N(void *p){ acc(p, N, 0);} void __tsan_unaligned_write##N(void *p){ acc(p, N, 1);} \
 void __tsan_volatile_read##N(void *p){ acc(p, N, 0);} void __tsan_volatile_write##N(void *p){ acc(p, N, 1);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void *p, void *){ acc(p, 8, 1); } void __tsan_vptr_read(void *p){ acc(p, 8, 0); }
void __tsan_read_range(void *p, size_t n){ acc(p, n, 0); } void __tsan_write_range(void *p, size_t n){ acc(p, n, 1); }
#define AT(B,T) T __tsan_atomic##B##_load(const volatile T *a, int){ return __atomic_load_n(a, 5);} void __tsan_atomic##B##_store(volatile T *a, T v, int){ __atomic_store_n(a, v, 5);} \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int){ return __atomic_exchange_n(a, v, 5);} T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int){ return __atomic_fetch_add(a, v, 5);} \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int){ return __atomic_fetch_sub(a, v, 5);} T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int){ return __atomic_fetch_and(a, v, 5);} \
 T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int){ return __atomic_fetch_or(a, v, 5);} T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int){ return __atomic_fetch_xor(a, v, 5);} \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int){ return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);} \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int){ return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);} \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int){ __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c;}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
// ---- libgomp interface
int omp_get_thread_num(){ return inteam ? tid : 0; }
int omp_get_num_threads(){ return inteam && team ? team->n : 1; }
int omp_get_max_threads(){ const char *s = getenv("UXMC_OMP_MAX"); return s ? atoi(s) : 3; }
int omp_get_num_procs(){ return omp_get_max_threads(); }
int omp_in_parallel(){ return inteam && team && team->n > 1; }
void omp_set_num_threads(int){} int omp_get_thread_limit(){ return MAXT; } void omp_set_dynamic(int){} int omp_get_dynamic(){ return 0; }
int omp_get_level(){ return inteam; }
double omp_get_wtime(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void GOMP_barrier(){ if (!inteam || !team || team->n == 1){ if (shadow) shadow->clear(); return; } yield_as(BARRIER); }
bool GOMP_single_start(){ Busy bz; if (!inteam || !team) return true; int k = team->singles[tid]++; if (k >= team->single_done){ team->single_done = k + 1; return true; } return false; }
static void lock(void *p){ Busy bz; if (!inteam || !team) return; while (team->locks[p]){ team->want[tid] = p; yield_as(LOCKWAIT); } team->locks[p] = 1; team->incrit[tid]++; }
static void unlock(void *p){ Busy bz; if (!inteam || !team) return; team->locks[p] = 0; team->incrit[tid]--; }
void GOMP_critical_name_start(void **p){ lock(p); } void GOMP_critical_name_end(void **p){ unlock(p); }
static int g_crit, g_atom;
void GOMP_critical_start(){ lock(&g_crit); } void GOMP_critical_end(){ unlock(&g_crit); }
void GOMP_atomic_start(){ lock(&g_atom); } void GOMP_atomic_end(){ unlock(&g_atom); }
void GOMP_ordered_start(){} void GOMP_ordered_end(){}
// dynamic / guided / runtime loops: iterations handed out one chunk at a time
struct LoopD { long next, end, incr, chunk; }; static Map<long, LoopD> *loopd = nullptr; static thread_local long curloop;
static bool dyn_next(long *a, long *b){ Busy bz; LoopD &d = (*loopd)[curloop]; if (d.incr > 0 ? d.next >= d.end : d.next <= d.end) return false; *a = d.next; long nx = d.next + d.chunk * d.incr; if (d.incr > 0 ? nx > d.end : nx < d.end) nx = d.end; d.next = nx; *b = nx; return true; }
static bool dyn_start(long s, long e, long i, long c, long *a, long *b){ Busy bz; if (!loopd) loopd = new Map<long, LoopD>(); curloop = inteam && team ? team->loopn[tid]++ : 0; if (!(inteam && team) || !loopd->count(curloop)) (*loopd)[curloop] = {s, e, i, c < 1 ? 1 : c}; return dyn_next(a, b); }
#define DYN(X) bool GOMP_loop_##X##_start(long s, long e, long i, long c, long *a, long *b){ return dyn_start(s, e, i, c, a, b);} bool GOMP_loop_##X##_next(long *a, long *b){ return dyn_next(a, b);}
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
#define DYN0(X) bool GOMP_loop_##X##_start(long s, long e, long i, long *a, long *b){ return dyn_start(s, e, i, 1, a, b);} bool GOMP_loop_##X##_next(long *a, long *b){ return dyn_next(a, b);}
DYN0(runtime) DYN0(maybe_nonmonotonic_runtime) DYN0(nonmonotonic_runtime)
void GOMP_loop_end(){ GOMP_barrier(); } void GOMP_loop_end_nowait(){}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nth, unsigned){
  if (inteam){ Team *sv = team; (void)sv; fn(data); return; }   // nested: one thread
  int n = nth ? (int)nth : omp_get_max_threads(); if (n > MAXT) n = MAXT; if (n < 1) n = 1;
  region++; n_regions++; if (n > maxteam) maxteam = n;
  Team t; t.n = n; memset(t.st, 0, sizeof t.st); memset(t.singles, 0, sizeof t.singles); memset(t.acc, 0, sizeof t.acc); memset(t.incrit, 0, sizeof t.incrit); memset(t.loopn, 0, sizeof t.loopn);
  if (!shadow) shadow = new UMap(); shadow->clear(); if (loopd) loopd->clear(); n_intervals++;
  int tid0 = tid; team = &t; Vec<std::thread> th;
  auto body = [&](int id){ tid = id; { std::unique_lock<std::mutex> l(mu); wait_turn(l, &t); } inteam = true; fn(data); inteam = false; std::unique_lock<std::mutex> l(mu); t.st[id] = DONE; next_locked(); };
  for (int i = 1; i < n; i++) th.emplace_back(body, i);
  { std::unique_lock<std::mutex> l(mu); Vec<int> c; for (int i = 0; i < n; i++) c.push_back(i); t.cur = pick_from(c); cv.notify_all(); }
  body(0);
  { std::unique_lock<std::mutex> l(mu); while (t.cur != -1) cv.wait(l); }
  for (auto &x : th) x.join();
  shadow->clear(); team = nullptr; tid = tid0;
}
}
API void uxmc_omp_begin(const int *s, int n, const int *p, int np, int pol, int sh){ script.assign(s, s + n); choice.clear(); arity.clear(); pres.clear(); races.clear(); region = -1; policy = pol; shadow_on = sh;
  n_access = n_intervals = n_switch = n_pre = uncontrolled = n_regions = maxteam = 0; for (int i = 0; i < np; i++) pres.push_back({p[3*i], p[3*i+1], p[3*i+2]}); }
API int uxmc_omp_len(){ return (int)choice.size(); }
API void uxmc_omp_get(int *c, int *a){ for (size_t i = 0; i < choice.size(); i++){ c[i] = choice[i]; a[i] = arity[i]; } }
API int uxmc_omp_races(){ return (int)races.size(); }
API void uxmc_omp_race(int i, int *o){ Race &r = races[i]; o[0] = r.region; o[1] = r.ta; o[2] = r.ka; o[3] = r.tb; o[4] = r.kb; o[5] = r.kinds; }
API void uxmc_omp_stats(long *o){ o[0] = n_access; o[1] = n_intervals; o[2] = n_switch; o[3] = n_pre; o[4] = uncontrolled; o[5] = n_regions; o[6] = maxteam; }
'''


class Unsupported(Exception):
    pass


def build():
    h = hashlib.sha256(SRC.encode())
    for f in env._src_files():
        h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
    out = os.path.join(env.BUILD, "omp-" + h.hexdigest()[:20])
    so = os.path.join(out, "uxsim_cpp.so")
    if os.path.exists(so):
        return so
    os.makedirs(env.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="o", dir=env.BUILD)
    src = os.path.join(tmp, "rt.cpp")
    open(src, "w").write(SRC)
    rt, m = os.path.join(tmp, "rt.o"), os.path.join(tmp, "m.o")
    a = subprocess.Popen(["g++", "-std=gnu++17", "-O2", "-fPIC", "-fvisibility=hidden", "-w", "-c", src, "-o", rt])
    flags, lib = env.cxx_flags(tmp)
    subprocess.run(["g++", *flags, "-O1", "-fopenmp", "-fsanitize=thread", "-c", os.path.join(env.REPO, "uxsim/trafficpp/bindings.cpp"), "-o", m], check=True)
    if a.wait():
        raise RuntimeError("runtime does not compile")
    subprocess.run(["objcopy"] + [f"--redefine-sym={f}=uxmc_{f}" for f in ("memcpy", "memmove", "memset")] + [m], check=True)
    o = os.path.join(tmp, "uxsim_cpp.so")
    subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", o, m, rt, lib, "-lpthread"], check=True)
    und = [l.split()[-1] for l in subprocess.run(["nm", "-D", "-u", o], capture_output=True, text=True).stdout.splitlines()]
    bad = [u for u in und if u.startswith(("GOMP_", "omp_", "__tsan_"))]
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Unsupported(f"OpenMP runtime functions without a controlled implementation: {bad}")
    os.remove(m)
    os.rename(tmp, out)
    return so


_lib = None


def load():
    global _lib
    so = build()
    U = env.load(cpp=True, so=so)
    _lib = ctypes.CDLL(so)
    return U


def begin(script=(), pres=(), policy=0, shadow=1):
    s = (ctypes.c_int * max(1, len(script)))(*script)
    flat = [x for p in pres for x in p]
    q = (ctypes.c_int * max(1, len(flat)))(*flat)
    _lib.uxmc_omp_begin(s, len(script), q, len(pres), policy, shadow)


def result():
    n = _lib.uxmc_omp_len()
    c = (ctypes.c_int * max(1, n))()
    a = (ctypes.c_int * max(1, n))()
    _lib.uxmc_omp_get(c, a)
    st = (ctypes.c_long * 8)()
    _lib.uxmc_omp_stats(st)
    rs = []
    for i in range(_lib.uxmc_omp_races()):
        o = (ctypes.c_int * 6)()
        _lib.uxmc_omp_race(i, o)
        rs.append(tuple(o))
    keys = ["accesses", "intervals", "switches", "preemptions", "uncontrolled", "regions", "team"]
    return dict(trace=[(c[i], a[i], "omp") for i in range(n)], races=rs, **{k: st[i] for i, k in enumerate(keys)})
