// Allocator, scheduler, race detector and interposed pthread/time functions.
#include "rt.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <limits.h>
#include <cxxabi.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <atomic>
#include <exception>
#include <new>
#include <thread>
#include <unordered_map>
#include <deque>
#include <set>
#include <algorithm>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace sim {

Result* g_res;
RunInput g_in;
thread_local int t_sut = 0;
thread_local int t_fi = 0;
bool g_armed = false;
uint64_t g_step = 0;
unsigned g_cores = 4;
static uint64_t g_simns = 1000000000ull;
static unsigned char g_fill = 0xA5, g_fillFi = 0xA5;   // FreeImage's writers let some of it into their files
static thread_local unsigned t_fresh = 0;
__attribute__((noinline)) static void scrubStack(unsigned char v) {
  char b[24 << 10];
  memset(b, v, sizeof b);
  __asm__ volatile("" : : "r"(b) : "memory");
}
void freshMemory() {
  static const unsigned char pat[] = {0xA5, 0x5A, 0x00, 0xFF};
  g_fill = pat[(g_in.seed + t_fresh++) & 3];
  scrubStack(g_fill);
}

int64_t g_threadAttempts, g_threadFailAt = -1, g_threadFailCount;
int64_t g_newAttempts, g_newFailAt = -1, g_newFailCount;
int64_t g_fiAttempts, g_fiFailAt = -1, g_fiFailCount;
uint64_t g_newFired, g_threadFired, g_fiFired;

// ---- raw system calls (never interposed) ------------------------------------------------------
static long rawFutex(int* a, int op, int v) {
  long ret;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static long rawWrite(int fd, const void* p, size_t n) {
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_write), "D"((long)fd), "S"(p), "d"(n) : "rcx", "r11", "memory");
  return ret;
}
[[noreturn]] static void rawExit(int code) {
  for (;;) __asm__ volatile("syscall" : : "a"(SYS_exit_group), "D"((long)code) : "rcx", "r11", "memory");
}

// ---- results ----------------------------------------------------------------------------------
void count(Counter c, uint64_t n) { if (g_res) g_res->counters[c] += n; }
void nontrivial() { g_res->nontrivial = 1; }
void ev(uint64_t v) { g_res->hash = mix(g_res->hash ^ v) + 0x9e3779b97f4a7c15ull; }
void evs(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; ev(h); }
void logf(const char* fmt, ...) {
  if (!g_res) return;
  Harness hs;
  char buf[512];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n < 0) return;
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  evs(buf);
  if (g_res->loglen + n + 2 < MAX_LOG) {
    memcpy(g_res->log + g_res->loglen, buf, n);
    g_res->loglen += n;
    g_res->log[g_res->loglen++] = '\n';
    g_res->log[g_res->loglen] = 0;
  }
}
static void finishResult(int st) {
  g_res->status = st; g_res->steps = g_step; g_res->simns = g_simns - 1000000000ull;
}
bool g_leaksOnly = false;
bool g_memoryOnly = false;
bool g_damagedInput = false;
size_t g_fiLimit = 8ull << 30;
static bool heapDamaged();
bool g_softViolate = false;
static bool aboutResources(const char* kind) {
  static const char* k[] = {"leak", "fd-left", "thread-left", "double-free", "bad-free", "use-after-free"};
  for (auto n : k) if (!strcmp(n, kind)) return true;
  return false;
}
static bool aboutMemory(const char* kind) {
  static const char* k[] = {"out-of-bounds", "use-after-free", "data-race"}, *m[] = {"double-free", "bad-free", "crash", "terminated", "no-progress", "deadlock"};
  for (auto n : k) if (!strcmp(n, kind)) return true;
  for (auto n : m) if (!strcmp(n, kind)) { if (t_fi) count(P_library_failed); return !t_fi; }     // inside the image library: its own
  return false;
}
void violate(const char* kind, const char* fmt, ...) {
  t_sut = 0;
  if (g_memoryOnly && !g_softViolate && aboutMemory(kind) && g_damagedInput && heapDamaged()) { count(P_library_failed); evs(kind); finishResult(ST_OK); rawExit(0); }   // the image library overran a buffer
  if (g_memoryOnly && !g_softViolate && !aboutMemory(kind)) { count(P_other_property); evs(kind); finishResult(ST_OK); rawExit(0); }
  if (g_softViolate && !liveThreads()) throw SoftViolation();
  if ((g_leaksOnly || g_softViolate) && !aboutResources(kind)) { count(P_other_property); evs(kind); finishResult(ST_OK); rawExit(0); }   // another check's business
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_res->detail, sizeof g_res->detail, fmt, ap);
  va_end(ap);
  snprintf(g_res->kind, sizeof g_res->kind, "%s", kind);
  evs(kind);
  finishResult(ST_VIOLATION);
  rawExit(42);
}
void fatal(const char* fmt, ...) {
  t_sut = 0;
  char buf[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (g_res) { snprintf(g_res->detail, sizeof g_res->detail, "%s", buf); finishResult(ST_ERROR); }
  rawWrite(2, buf, strlen(buf)); rawWrite(2, "\n", 1);
  rawExit(43);
}

// ---- choices ----------------------------------------------------------------------------------
static Rng g_tapeRng(0);
uint64_t ch(uint64_t n) {
  if (n <= 1) return 0;
  uint32_t i = g_res->ntape;
  if (i >= MAX_TAPE) return 0;
  uint64_t v;
  if (g_in.haveTape) v = i < g_in.tape.size() ? g_in.tape[i] : 0;
  else v = g_tapeRng.below(n);
  if (v >= n) v = n - 1;
  g_res->tape[i] = v;
  g_res->ntape = i + 1;
  return v;
}
int64_t chRange(int64_t lo, int64_t hi) { return lo + (int64_t)ch((uint64_t)(hi - lo + 1)); }
uint64_t chLog(uint64_t n) {
  int bits = 0; while (bits < 63 && (1ull << bits) < n) ++bits;
  uint64_t b = ch(bits + 1);
  uint64_t v = b == 0 ? 0 : (1ull << (b - 1)) + ch(1ull << (b - 1));
  return v < n ? v : n - 1;
}

// ---- allocator --------------------------------------------------------------------------------
static const uintptr_t ARENA = 0x300000000000ull;
static const size_t ARENA_SIZE = 24ull << 30;
static const uintptr_t SHADOW = 0x310000000000ull;
struct Hdr { uint64_t size; uint64_t serial; uint32_t magic; uint32_t flags; uint64_t pad; };
enum { HDR_LIVE = 0x51a7e001, HDR_FREED = 0x51a7dead, HF_SUT = 1 };
static const uint64_t HDR_SEAL = 0x9d5a1c7be2f06a43ull;
static uintptr_t g_bump = ARENA;
static bool g_arenaOn = false;
static uint64_t g_serial = 0;
static uint64_t g_liveSutAllocs = 0, g_liveSutBytes = 0;
static std::atomic_flag g_allocLock = ATOMIC_FLAG_INIT;
struct AllocLock { AllocLock() { while (g_allocLock.test_and_set(std::memory_order_acquire)) sched_yield(); } ~AllocLock() { g_allocLock.clear(std::memory_order_release); } };
static inline bool inArena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SIZE; }
static inline uint8_t* shadowOf(uintptr_t a) { return (uint8_t*)(SHADOW + ((a - ARENA) >> 3)); }

static void* arenaAlloc(size_t n, size_t align, bool zero, bool sutFlag) {
  AllocLock l;
  if (align < 16) align = 16;
  uintptr_t p = (g_bump + sizeof(Hdr) + 16 + align - 1) & ~(uintptr_t)(align - 1);
  uintptr_t end = (p + (n ? n : 1) + 32 + 15) & ~(uintptr_t)15;
  if (n > (t_fi ? g_fiLimit : 8ull << 30) || (g_damagedInput && t_fi && g_bump - ARENA > (1ull << 30)) || end > ARENA + ARENA_SIZE) return nullptr;
  g_bump = end;
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->size = n; h->serial = g_serial++; h->magic = HDR_LIVE; h->flags = sutFlag ? HF_SUT : 0; h->pad = n ^ h->serial ^ HDR_SEAL;
  if (sutFlag) { ++g_liveSutAllocs; g_liveSutBytes += n; }
  memset(shadowOf(p), 8, n / 8);
  if (n & 7) *shadowOf(p + (n & ~(size_t)7)) = (uint8_t)(n & 7);
  if (!zero) memset((void*)p, t_fi ? g_fillFi : g_fill, n);
  return (void*)p;
}
// The rest of the block is slack nobody should touch.
void sealTail(void* from) {
  if (!inArena(from)) return;
  uintptr_t a = (uintptr_t)from;
  if (a & 7) { uint8_t* s = shadowOf(a); if (*s <= 8 && *s > (a & 7)) *s = (uint8_t)(a & 7); a = (a + 7) & ~(uintptr_t)7; }
  for (int i = 0; i < 64 && a < ARENA + ARENA_SIZE && *shadowOf(a) && *shadowOf(a) <= 8; ++i, a += 8) *shadowOf(a) = 0;
}
static void clearRaceShadow(uintptr_t a, size_t n);
static void raceFree(uintptr_t a, size_t n);
static void arenaFree(void* q) {
  uintptr_t p = (uintptr_t)q;
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  if (h->magic == HDR_FREED) violate("double-free", "heap block of %llu bytes freed twice", (unsigned long long)h->size);
  if (h->magic != HDR_LIVE) violate("bad-free", "free of a pointer that is not the start of a heap block (or its header was overwritten)");
  // overflow of the trailing redzone by uninstrumented code
  if (t_sut) raceFree(p, h->size);
  AllocLock l;
  size_t n = h->size;
  h->magic = HDR_FREED;
  if (h->flags & HF_SUT) { --g_liveSutAllocs; g_liveSutBytes -= n; }
  memset(shadowOf(p), 0xFD, (n + 7) / 8);
  if (n >= (1u << 17)) {
    uintptr_t a = (p + 4095) & ~4095ull, e = (p + n) & ~4095ull;
    if (e > a) madvise((void*)a, e - a, MADV_DONTNEED);
    memset((void*)p, 0xDD, a - p);
  } else memset((void*)p, 0xDD, n);
}
int liveBitmaps(); int liveMemories();
Ledger ledger() {
  return Ledger{g_liveSutAllocs, g_liveSutBytes, (uint64_t)liveBitmaps(), (uint64_t)liveMemories(), (uint64_t)fs::openFds(), (uint64_t)liveThreads()};
}
uint64_t allocMark() { return g_serial; }
uint64_t liveSince(uint64_t mark, std::string* desc) {
  Harness hs;
  uint64_t n = 0;
  uintptr_t p = ARENA;
  // walk blocks: headers are located by scanning for magic at 16-byte steps
  std::string d;
  for (; p + sizeof(Hdr) <= g_bump;) {
    Hdr* h = (Hdr*)p;
    if ((h->magic == HDR_LIVE || h->magic == HDR_FREED) && h->size < ARENA_SIZE && *shadowOf(p) == 0) {
      if (h->magic == HDR_LIVE && (h->flags & HF_SUT) && h->serial >= mark) {
        ++n;
        if (n <= 6) d += std::to_string(h->size) + " ";
      }
      p = (p + sizeof(Hdr) + (h->size ? h->size : 1) + 32 + 15) & ~(uintptr_t)15;
    } else p += 16;
  }
  if (desc) *desc = d;
  return n;
}

// Did code that is not instrumented write outside the blocks? Nothing else is ever stored between them.
static bool heapDamaged() {
  if (g_bump == ARENA) return false;
  uint64_t serial = 0; uintptr_t p = ARENA;
  bool first = true;
  while (p + 16 <= g_bump) {
    Hdr* h = (Hdr*)p;
    if (h->serial && first) { serial = h->serial; first = false; }
    if (h->serial == serial && (h->magic == HDR_LIVE || h->magic == HDR_FREED) && h->pad == (h->size ^ h->serial ^ HDR_SEAL)) {
      ++serial; first = false;
      uintptr_t q = p + sizeof(Hdr), e = q + (h->size ? h->size : 1), r = (e + 15) & ~(uintptr_t)15;
      if (h->size) for (; e < r; ++e) if (*(uint8_t*)e) return true;
      p = r;
    } else {
      for (int i = 0; i < 16; ++i) if (((uint8_t*)p)[i]) return true;
      p += 16;
    }
  }
  return false;
}

static void* doMalloc(size_t n, size_t align, bool zero, bool sutFlag) {
  if (!g_arenaOn) return align <= 16 ? (zero ? __libc_calloc(1, n) : __libc_malloc(n)) : __libc_memalign(align, n);
  void* p = arenaAlloc(n, align, zero, sutFlag);
  if (!p) errno = ENOMEM;
  return p;
}
static void doFree(void* p) {
  if (!p) return;
  if (inArena(p)) { arenaFree(p); return; }
  __libc_free(p);
}
static bool newFault() {
  if (!g_armed || !t_sut || t_fi) return false;
  int64_t k = g_newAttempts++;
  if (g_newFailAt >= 0 && k >= g_newFailAt && k < g_newFailAt + g_newFailCount) {
    ++g_newFired;
    count(F_new_bad_alloc);
    ev(0xbadA110c + k);
    return true;
  }
  return false;
}
void clearResourceFaults() { g_newFailAt = g_threadFailAt = g_fiFailAt = -1; }

// ---- threads ----------------------------------------------------------------------------------
enum { MAXT = 256 };
struct VC { uint32_t c[MAXT]; };
enum TState { T_FREE, T_RUN, T_BLOCKED, T_DONE };
struct TlsDtor { void (*fn)(void*); void* obj; };
struct SimThread {
  int go = 0;
  int id = 0;
  TState state = T_FREE;
  int sut = 0;
  bool detached = false, joined = false, osStarted = false;
  pthread_t os{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  const void* blockedOn = nullptr;
  const char* blockedWhy = "";
  uint64_t wakeAt = 0;        // simulated time, 0: none
  bool timedOut = false;
  uint64_t prio = 0;
  int nopreempt = 0;
  std::vector<TlsDtor> tls;
  VC vc, acq, rel;
  bool hasRel = false;
};
static SimThread* g_threads[MAXT];
static int g_nthreads = 0;    // slots ever used
int g_live = 0;        // not done, including main
static SimThread* g_cur;
static thread_local SimThread* t_self = nullptr;
SchedCfg g_sched;
static Rng g_schedRng(0);
static size_t g_schedIdx = 0;
static std::vector<uint64_t>* g_pctPoints;
static uint64_t g_lastSwitch = 0;
static uint64_t g_pctNext = 0;
static uint64_t g_lowPrio = 0x10000;
static int g_maxLive = 1;

static void tick(SimThread* t) { ++t->vc.c[t->id]; }
static void joinVC(VC& a, const VC& b) { for (int i = 0; i < g_nthreads; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

uint64_t now() { return g_simns; }
void advance(uint64_t ns) { g_simns += ns; }
int liveThreads() { return g_live - 1; }

static void waitGo(SimThread* t) {
  for (;;) {
    if (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) { __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED); return; }
    rawFutex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  }
}
static void wake(SimThread* t) {
  g_cur = t;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  rawFutex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
static void record(int tid, bool forced) {
  if (g_res->nsched < MAX_SCHED) g_res->sched[g_res->nsched++] = SchedEnt{g_step, (uint32_t)tid, forced ? 1u : 0u};
  else g_res->schedOverflow = 1;
  g_res->ilv = mix(g_res->ilv ^ (g_step * 257 + tid));
  ev(g_step * 977 + tid);
}
static void switchTo(SimThread* t) {
  SimThread* me = t_self;
  if (t == me) return;
  g_lastSwitch = g_step;
  wake(t);
  waitGo(me);
}
static bool isRunnable(SimThread* t) { return t && t->state == T_RUN; }
static SimThread* nthRunnable(int exclude, uint64_t n) {
  for (int i = 0; i < g_nthreads; ++i)
    if (i != exclude && isRunnable(g_threads[i])) { if (n == 0) return g_threads[i]; --n; }
  return nullptr;
}
static int runnableCount(int exclude) {
  int c = 0;
  for (int i = 0; i < g_nthreads; ++i) if (i != exclude && isRunnable(g_threads[i])) ++c;
  return c;
}
static SimThread* bestPrio(int exclude) {
  SimThread* b = nullptr;
  for (int i = 0; i < g_nthreads; ++i)
    if (i != exclude && isRunnable(g_threads[i]) && (!b || g_threads[i]->prio > b->prio)) b = g_threads[i];
  return b;
}
static void wakeSleepers() {
  for (int i = 0; i < g_nthreads; ++i) {
    SimThread* t = g_threads[i];
    if (t && t->state == T_BLOCKED && t->wakeAt && t->wakeAt <= g_simns) { t->state = T_RUN; t->timedOut = true; t->wakeAt = 0; }
  }
}
// The current thread cannot go on: pick another one. Returns without switching only if t_self became runnable.
static void forcedSwitch(bool exiting) {
  SimThread* me = t_self;
  ++g_step;
  for (;;) {
    wakeSleepers();
    if (!exiting && me->state == T_RUN) {
      // became runnable again through time
    }
    int n = runnableCount(-1);
    if (n > 0) break;
    uint64_t best = 0;
    for (int i = 0; i < g_nthreads; ++i) {
      SimThread* t = g_threads[i];
      if (t && t->state == T_BLOCKED && t->wakeAt && (!best || t->wakeAt < best)) best = t->wakeAt;
    }
    if (best) { g_simns = best; continue; }
    if (g_live == 0) return;
    std::string d;
    for (int i = 0; i < g_nthreads; ++i) {
      SimThread* t = g_threads[i];
      if (t && t->state == T_BLOCKED) d += " T" + std::to_string(i) + ":" + t->blockedWhy;
    }
    violate("deadlock", "no thread can make progress:%s", d.c_str());
  }
  SimThread* next = nullptr;
  if (g_in.haveSched) {
    while (g_schedIdx < g_in.sched.size() && g_in.sched[g_schedIdx].step < g_step) ++g_schedIdx;
    if (g_schedIdx < g_in.sched.size() && g_in.sched[g_schedIdx].step == g_step) {
      uint32_t tid = g_in.sched[g_schedIdx].tid;
      ++g_schedIdx;
      if (tid < (uint32_t)g_nthreads && isRunnable(g_threads[tid])) next = g_threads[tid];
    }
    if (!next) next = nthRunnable(-1, 0);
  } else if (g_sched.policy == 2) next = bestPrio(-1);
  else next = nthRunnable(-1, g_schedRng.below(runnableCount(-1)));
  if (runnableCount(-1) > 1) { record(next->id, true); count(P_forced_switches); }
  if (next == me) return;
  g_lastSwitch = g_step;
  if (exiting) { wake(next); return; }
  wake(next);
  waitGo(me);
}

void drawSched() {
  SchedCfg c;
  switch (ch(8)) {
    case 0: c.policy = 0; break;
    case 1: case 2: c.policy = 1; c.denom = 1ull << (1 + ch(4)); c.syncDenom = 1 + ch(4); break;
    case 3: c.policy = 1; c.denom = 1ull << (5 + ch(8)); c.syncDenom = 1 + ch(8); break;
    case 4: c.policy = 1; c.denom = 0; c.syncDenom = 1 + ch(3); break;
    case 5: case 6: c.policy = 2; c.pctDepth = 1 + (int)ch(6); c.pctLen = 16ull << ch(14); break;
    default: c.policy = 3; c.quantum = 1 + chLog(4096); break;
  }
  g_sched = c;
}

static uint64_t g_preemptions = 0;
static void preemptTo(SimThread* t) {
  if (!t || t == t_self) return;
  record(t->id, false);
  count(F_preemption); ++g_preemptions;
  switchTo(t);
}

static void pctSetup() {
  if (!g_pctPoints) g_pctPoints = new std::vector<uint64_t>;
  g_pctPoints->clear();
  for (int i = 0; i < g_sched.pctDepth; ++i) g_pctPoints->push_back(1 + g_schedRng.below(g_sched.pctLen));
  std::sort(g_pctPoints->begin(), g_pctPoints->end());
  g_pctNext = 0;
}
static uint64_t g_mtSteps = 0;

static void sp(int sync) {
  SimThread* me = t_self;
  ++g_step;
  if (g_step > g_sched.stepCap) violate("no-progress", "step budget of %llu exhausted", (unsigned long long)g_sched.stepCap);
  if (g_live <= 1 || me->nopreempt) return;
  ++g_mtSteps;
  if (g_in.haveSched) {
    while (g_schedIdx < g_in.sched.size() && g_in.sched[g_schedIdx].step < g_step) ++g_schedIdx;
    if (g_schedIdx < g_in.sched.size() && g_in.sched[g_schedIdx].step == g_step) {
      uint32_t tid = g_in.sched[g_schedIdx].tid;
      ++g_schedIdx;
      if (tid < (uint32_t)g_nthreads && isRunnable(g_threads[tid])) preemptTo(g_threads[tid]);
      return;
    }
    if (g_step - g_lastSwitch > 2000000) preemptTo(nthRunnable(me->id, 0));
    return;
  }
  bool sw = false;
  switch (g_sched.policy) {
    case 0: break;
    case 1: {
      uint64_t d = (sync ? g_sched.syncDenom : g_sched.denom) << std::min<uint64_t>(g_preemptions >> 16, sync ? 6 : 20);     // long runs: ever fewer
      sw = d && g_schedRng.below(d) == 0;
      break;
    }
    case 2: {
      while (g_pctNext < g_pctPoints->size() && g_mtSteps >= (*g_pctPoints)[g_pctNext]) { me->prio = --g_lowPrio; ++g_pctNext; }
      SimThread* b = bestPrio(-1);
      if (b != me) { preemptTo(b); return; }
      break;
    }
    case 3: sw = g_step - g_lastSwitch >= g_sched.quantum << std::min<uint64_t>(g_preemptions >> 16, 8); break;
  }
  if (!sw && g_step - g_lastSwitch > 2000000) {   // fairness: spinning on another thread must not starve it
    if (g_sched.policy == 2) me->prio = --g_lowPrio;
    sw = true;
  }
  if (!sw) return;
  int n = runnableCount(me->id);
  if (!n) { g_lastSwitch = g_step; return; }
  if (g_sched.policy == 3) {
    for (int k = 1; k < g_nthreads; ++k) {
      SimThread* t = g_threads[(me->id + k) % g_nthreads];
      if (isRunnable(t)) { preemptTo(t); return; }
    }
  }
  preemptTo(nthRunnable(me->id, g_schedRng.below(n)));
}
void schedPoint(int sync) { if (g_armed && t_self) sp(sync); }

static void block(const void* on, const char* why, uint64_t wakeAt = 0) {
  SimThread* me = t_self;
  me->state = T_BLOCKED; me->blockedOn = on; me->blockedWhy = why; me->wakeAt = wakeAt; me->timedOut = false;
  forcedSwitch(false);
  me->blockedOn = nullptr;
}
static int unblock(const void* on, const char* why, int max) {
  int n = 0;
  for (int i = 0; i < g_nthreads && n < max; ++i) {
    SimThread* t = g_threads[i];
    if (t && t->state == T_BLOCKED && t->blockedOn == on && t->blockedWhy == why) { t->state = T_RUN; t->wakeAt = 0; ++n; }
  }
  return n;
}

static SimThread* newSlot() {
  int id = -1;
  for (int i = 0; i < g_nthreads; ++i) if (g_threads[i]->state == T_DONE && g_threads[i]->joined) { id = i; break; }
  if (id < 0) {
    if (g_nthreads >= MAXT) return nullptr;
    id = g_nthreads++;
    g_threads[id] = new SimThread;
    memset(&g_threads[id]->vc, 0, sizeof(VC));
    g_threads[id]->id = id;
  }
  SimThread* t = g_threads[id];
  uint32_t keep = t->vc.c[id];
  t->go = 0; t->detached = t->joined = t->osStarted = false; t->nopreempt = 0; t->wakeAt = 0; t->tls.clear();
  memset(&t->acq, 0, sizeof(VC)); memset(&t->rel, 0, sizeof(VC)); t->hasRel = false;
  t->vc = t_self->vc;
  t->vc.c[id] = keep + 1;
  t->prio = g_schedRng.next() | (1ull << 40);
  t->state = T_RUN;
  return t;
}

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);

static void clearStackShadow();
struct Finisher {
  SimThread* t;
  ~Finisher() {
    int s = t_sut;
    while (!t->tls.empty()) { TlsDtor d = t->tls.back(); t->tls.pop_back(); d.fn(d.obj); }
    (void)s;
    t_sut = 0;
    tick(t);
    t->state = T_DONE;
    --g_live;
    unblock(t, "join", 1000);
    ev(0x1000 + t->id);
    forcedSwitch(true);
  }
};
static void* tramp(void* p) {
  SimThread* t = (SimThread*)p;
  t_self = t;
  waitGo(t);
  clearStackShadow();
  Finisher f{t};
  t_sut = t->sut;
  void* r = t->fn(t->arg);
  return r;
}
static int createThread(pthread_t* out, void* (*fn)(void*), void* arg, int sut, bool detached) {
  SimThread* t;
  {
    Harness hs;
    t = newSlot();
    if (!t) fatal("too many simulated threads");
    t->fn = fn; t->arg = arg; t->sut = sut; t->detached = detached;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    int rc = real_pthread_create(&t->os, &at, tramp, t);
    pthread_attr_destroy(&at);
    if (rc) fatal("real pthread_create failed: %d", rc);
    ++g_live;
    if (g_live > g_maxLive) g_maxLive = g_live;
    tick(t_self);
    *out = t->os;
    ev(0x2000 + t->id);
  }
  return 0;
}
static SimThread* findOs(pthread_t os) {
  for (int i = 0; i < g_nthreads; ++i) if (g_threads[i] && g_threads[i]->id && !g_threads[i]->joined && pthread_equal(g_threads[i]->os, os)) return g_threads[i];
  return nullptr;
}
static std::vector<pthread_t>* g_spawned;
static void* spawnMain(void* p) { auto* f = (std::function<void()>*)p; (*f)(); delete f; return nullptr; }
int spawn(std::function<void()> fn) {
  pthread_t t;
  if (!g_spawned) g_spawned = new std::vector<pthread_t>;
  createThread(&t, spawnMain, new std::function<void()>(std::move(fn)), 0, false);
  g_spawned->push_back(t);
  return (int)g_spawned->size() - 1;
}
static int simJoin(pthread_t os, void** ret) {
  SimThread* t = findOs(os);
  if (!t) return ESRCH;
  sp(1);
  while (t->state != T_DONE) block(t, "join");
  joinVC(t_self->vc, t->vc);
  t->joined = true;
  void* r = nullptr;
  { Harness hs; real_pthread_join(os, &r); }
  if (ret) *ret = r;
  return 0;
}
void joinAll() {
  if (!g_spawned) return;
  for (size_t i = 0; i < g_spawned->size(); ++i) simJoin((*g_spawned)[i], nullptr);
  g_spawned->clear();
}

// ---- race detector ----------------------------------------------------------------------------
struct Cell { uint32_t w[8]; uint32_t r[4]; uint8_t rm[4]; uint32_t pad; };
struct ShPage { uintptr_t key; Cell cells[512]; };
static ShPage** g_ptab;
static size_t g_ptabMask;
static size_t g_ptabUsed;
static ShPage* g_pcache[256];
static uint8_t* g_shBump; static size_t g_shLeft;
static void* shAlloc(size_t n) {
  n = (n + 63) & ~(size_t)63;
  if (g_shLeft < n) {
    size_t c = 64u << 20; if (c < n) c = n;
    g_shBump = (uint8_t*)mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_shBump == MAP_FAILED) fatal("no shadow memory");
    g_shLeft = c;
  }
  void* p = g_shBump; g_shBump += n; g_shLeft -= n; return p;
}
static ShPage* shPage(uintptr_t key, bool create) {
  ShPage*& c = g_pcache[(key ^ (key >> 8)) & 255];
  if (c && c->key == key) return c;
  size_t i = mix(key) & g_ptabMask;
  while (g_ptab[i]) { if (g_ptab[i]->key == key) { c = g_ptab[i]; return c; } i = (i + 1) & g_ptabMask; }
  if (!create) return nullptr;
  if (++g_ptabUsed * 2 > g_ptabMask) fatal("race shadow table full");
  ShPage* p = (ShPage*)shAlloc(sizeof(ShPage));
  p->key = key;
  g_ptab[i] = p; c = p;
  return p;
}
static inline uint32_t epoch(SimThread* t) { return ((uint32_t)t->id << 24) | (t->vc.c[t->id] & 0xffffff); }
static inline bool ordered(uint32_t e, SimThread* t) { return (e & 0xffffff) <= t->vc.c[e >> 24]; }

static std::string where(void* pc);
[[noreturn]] static void race(uintptr_t a, const char* what, uint32_t e, void* pc) {
  t_sut = 0;
  std::string w = where(pc);
  violate("data-race", "%s by thread %d in %s not ordered with an earlier access by thread %u (%s memory)", what, t_self->id,
          w.c_str(), e >> 24, inArena((void*)a) ? "heap" : "stack or global");
}
static void raceAccess(uintptr_t a, size_t n, bool write, bool atomic, void* pc) {
  SimThread* me = t_self;
  uint32_t ep = epoch(me);
  while (n) {
    ShPage* pg = shPage(a >> 12, true);
    Cell& c = pg->cells[(a >> 3) & 511];
    unsigned lo = a & 7, k = 8 - lo; if (k > n) k = n;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << lo);
    for (unsigned b = lo; b < lo + k; ++b) {
      uint32_t w = c.w[b];
      if (w && (w >> 24) != (uint32_t)me->id && !ordered(w, me)) race(a, write ? "write" : "read", w, pc);
    }
    if (write) {
      for (int i = 0; i < 4; ++i)
        if ((c.rm[i] & mask) && (c.r[i] >> 24) != (uint32_t)me->id && !ordered(c.r[i], me)) race(a, "write", c.r[i], pc);
      for (unsigned b = lo; b < lo + k; ++b) c.w[b] = ep;
      for (int i = 0; i < 4; ++i) c.rm[i] &= ~mask;
    } else {
      int slot = -1;
      for (int i = 0; i < 4; ++i) if (c.rm[i] && (c.r[i] >> 24) == (uint32_t)me->id) { slot = i; break; }
      if (slot < 0) for (int i = 0; i < 4; ++i) if (!c.rm[i] || ordered(c.r[i], me)) { slot = i; c.rm[i] = 0; break; }
      if (slot < 0) { slot = me->id & 3; c.rm[slot] = 0; }
      if (c.r[slot] != ep) { c.r[slot] = ep; c.rm[slot] = mask; } else c.rm[slot] |= mask;
    }
    a += k; n -= k;
  }
  (void)atomic;
}
static void clearRaceShadow(uintptr_t a, size_t n) {
  if (!g_ptab) return;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t pend = ((a >> 12) + 1) << 12; if (pend > e) pend = e;
    ShPage* p = shPage(a >> 12, false);
    if (p) for (uintptr_t q = a & ~7ull; q < pend; q += 8) memset(&p->cells[(q >> 3) & 511], 0, sizeof(Cell));
    a = pend;
  }
}
static void raceFree(uintptr_t a, size_t n) {
  if (!g_armed || g_live <= 1 || !n || n > (1u << 20)) return;
  raceAccess(a, n, true, false, __builtin_return_address(0));
}
static void clearStackShadow() {
  if (!g_ptab) return;
  char x;
  uintptr_t hi = ((uintptr_t)&x + 65536) & ~4095ull, lo = hi - (1 << 20) - 65536;
  // only pages below the current frame can be stale
  clearRaceShadow(lo, (uintptr_t)&x - lo);
}

static std::string where(void* pc) {
  Dl_info di;
  char buf[256];
  if (dladdr((char*)pc - 1, &di) && di.dli_sname) {
    int st; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, sizeof buf, "%s", d ? d : di.dli_sname);
    return buf;
  }
  return "?";
}

// ---- memory access callbacks --------------------------------------------------------------------
[[noreturn]] static void badAccess(uintptr_t a, size_t n, bool w, void* pc) {
  t_sut = 0;
  const char* k = "out-of-bounds";
  if (*shadowOf(a) == 0xFD) k = "use-after-free";
  std::string s = where(pc);
  violate(k, "%s of %zu bytes of heap memory that is not allocated, in %s", w ? "write" : "read", n, s.c_str());
}
static inline void checkHeap(uintptr_t a, size_t n, bool w, void* pc) {
  if (a - ARENA >= ARENA_SIZE || n == 0) return;
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    uint8_t s = *shadowOf(g);
    if (s == 8) continue;
    if (s > 8 || s == 0) badAccess(a, n, w, pc);
    uintptr_t last = e < g + 8 ? e : g + 8;
    if (last > g + s) badAccess(a, n, w, pc);
  }
}
static inline void acc(void* p, size_t n, bool w, void* pc) {
  if (!t_sut || !g_armed) return;
  uintptr_t a = (uintptr_t)p;
  sp(0);
  checkHeap(a, n, w, pc);
  if (g_live > 1) raceAccess(a, n, w, false, pc);
}
void memRange(const void* p, size_t n, bool write) {
  if (!t_sut || !g_armed || !n || n > (4u << 20)) return;
  checkHeap((uintptr_t)p, n, write, __builtin_return_address(0));
  if (g_live <= 1) return;
  sp(0);
  raceAccess((uintptr_t)p, n, write, false, __builtin_return_address(0));
}
// ---- atomics ------------------------------------------------------------------------------------
struct SyncVar { VC vc; };
static std::unordered_map<uintptr_t, SyncVar>* g_sync;
static SyncVar* syncVar(uintptr_t a, bool create) {
  Harness hs;
  if (!create) { auto it = g_sync->find(a); return it == g_sync->end() ? nullptr : &it->second; }
  auto r = g_sync->emplace(a, SyncVar());
  if (r.second) memset(&r.first->second, 0, sizeof(SyncVar));
  return &r.first->second;
}
static void acquireOn(uintptr_t a) { if (SyncVar* s = syncVar(a, false)) joinVC(t_self->vc, s->vc); }
static void releaseOn(uintptr_t a) { joinVC(syncVar(a, true)->vc, t_self->vc); tick(t_self); }
static void atomicPre(void* p, size_t n, bool w, void* pc) {
  sp(1);
  checkHeap((uintptr_t)p, n, w, pc);
}
static inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void onLoad(uintptr_t a, int mo) {
  SyncVar* s = syncVar(a, false);
  if (!s) return;
  if (isAcq(mo)) joinVC(t_self->vc, s->vc); else joinVC(t_self->acq, s->vc);
}
static void onStore(uintptr_t a, int mo) {
  if (isRel(mo)) { SyncVar* s = syncVar(a, true); s->vc = t_self->vc; tick(t_self); }
  else if (t_self->hasRel) { syncVar(a, true)->vc = t_self->rel; }
  else if (SyncVar* s = syncVar(a, false)) memset(&s->vc, 0, sizeof(VC));
}
static void onRmw(uintptr_t a, int mo) {
  onLoad(a, mo);
  if (isRel(mo)) { releaseOn(a); }
  else if (t_self->hasRel) joinVC(syncVar(a, true)->vc, t_self->rel);
}
static inline bool simOn() { return g_armed && t_sut && t_self; }

static void fenceOp(int mo) {
  if (isAcq(mo)) joinVC(t_self->vc, t_self->acq);
  if (isRel(mo)) { t_self->rel = t_self->vc; t_self->hasRel = true; tick(t_self); }
}

} // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* a) { acc(a, n, false, PC); } \
  void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_read_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { acc(a, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) acc(d, n, true, PC); return memset(d, c, n); }

#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), false, PC); onLoad((uintptr_t)a, mo); } return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onStore((uintptr_t)a, mo); } *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onRmw((uintptr_t)a, mo); } T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onRmw((uintptr_t)a, mo); } T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onRmw((uintptr_t)a, mo); } T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onRmw((uintptr_t)a, mo); } T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onRmw((uintptr_t)a, mo); } T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onRmw((uintptr_t)a, mo); } T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { if (simOn()) { atomicPre((void*)a, sizeof(T), true, PC); onRmw((uintptr_t)a, mo); } T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    if (simOn()) atomicPre((void*)a, sizeof(T), true, PC); \
    T o = *a; if (o == *c) { if (simOn()) onRmw((uintptr_t)a, mo); *a = v; return 1; } if (simOn()) onLoad((uintptr_t)a, fmo); *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { T e = c; __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { if (simOn()) { sp(1); fenceOp(mo); } }
void __tsan_atomic_signal_fence(int) {}

// ---- allocation entry points ---------------------------------------------------------------------
void* malloc(size_t n) { return doMalloc(n, 16, false, false); }
void free(void* p) { doFree(p); }
void* calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return doMalloc(n, 16, true, false);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!inArena(p)) {
    if (!g_arenaOn) return __libc_realloc(p, n);
    // block from before arming: size unknown to us, keep it in libc
    return __libc_realloc(p, n);
  }
  if (!n) { free(p); return nullptr; }
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  if (h->magic != HDR_LIVE) violate("bad-free", "realloc of a block that is not live");
  void* q = doMalloc(n, 16, false, false);
  if (!q) return nullptr;
  memcpy(q, p, h->size < n ? h->size : n);
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return doMalloc(n, al, false, false); }
void* aligned_alloc(size_t al, size_t n) { return doMalloc(n, al, false, false); }
int posix_memalign(void** p, size_t al, size_t n) { *p = doMalloc(n, al, false, false); return *p ? 0 : ENOMEM; }
void* valloc(size_t n) { return doMalloc(n, 4096, false, false); }
void* reallocarray(void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
size_t malloc_usable_size(void* p) { return p && inArena(p) ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }
} // extern "C"

static bool sutAlloc() { return t_sut && !t_fi; }
void* operator new(size_t n) {
  if (newFault()) throw std::bad_alloc();
  void* p = doMalloc(n, 16, false, sutAlloc());
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (newFault()) return nullptr; return doMalloc(n, 16, false, sutAlloc()); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t a) {
  if (newFault()) throw std::bad_alloc();
  void* p = doMalloc(n, (size_t)a, false, sutAlloc());
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { doFree(p); }
void operator delete[](void* p) noexcept { doFree(p); }
void operator delete(void* p, size_t) noexcept { doFree(p); }
void operator delete[](void* p, size_t) noexcept { doFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { doFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { doFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { doFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { doFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doFree(p); }

// ---- interposed threads --------------------------------------------------------------------------
template <class F> static F realSym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto r = realSym<decltype(&::name)>(#name)

namespace sim {
struct Mutex { int owner = -1; int count = 0; };
struct RW { int writer = -1; int readers = 0; };
static std::unordered_map<uintptr_t, Mutex>* g_mutex;
static std::unordered_map<uintptr_t, RW>* g_rw;
static Mutex& mtx(void* m) { Harness hs; return (*g_mutex)[(uintptr_t)m]; }
static bool on() { return g_armed && t_self; }
static int mutexLock(pthread_mutex_t* m, bool try_, uint64_t until = 0) {
  sp(1);
  int kind = m->__data.__kind & 3;
  for (;;) {
    Mutex& x = mtx(m);
    if (x.owner < 0) { x.owner = t_self->id; x.count = 1; acquireOn((uintptr_t)m); return 0; }
    if (x.owner == t_self->id && kind == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; }
    if (x.owner == t_self->id && kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (try_) return EBUSY;
    block(m, "mutex", until);
    if (t_self->timedOut) { t_self->timedOut = false; return ETIMEDOUT; }
  }
}
static int mutexUnlock(pthread_mutex_t* m) {
  Mutex& x = mtx(m);
  if (x.owner != t_self->id) return EPERM;
  if (--x.count) return 0;
  releaseOn((uintptr_t)m);
  x.owner = -1;
  unblock(m, "mutex", 1000);
  sp(1);
  return 0;
}
static uint64_t absNs(const struct timespec* ts) { return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until) {
  sp(1);
  Mutex& x = mtx(m);
  int cnt = x.count;
  releaseOn((uintptr_t)m);
  x.owner = -1; x.count = 0;
  unblock(m, "mutex", 1000);
  block(c, "cond", until);
  bool to = t_self->timedOut; t_self->timedOut = false;
  acquireOn((uintptr_t)c);
  for (;;) {
    Mutex& y = mtx(m);
    if (y.owner < 0) { y.owner = t_self->id; y.count = cnt; acquireOn((uintptr_t)m); break; }
    block(m, "mutex");
  }
  return to ? ETIMEDOUT : 0;
}
} // namespace sim

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!real_pthread_create) real_pthread_create = realSym<decltype(real_pthread_create)>("pthread_create");
  if (!on()) return real_pthread_create(out, at, fn, arg);
  sp(1);
  if (t_sut) {
    int64_t k = g_threadAttempts++;
    if (g_threadFailAt >= 0 && k >= g_threadFailAt && k < g_threadFailAt + g_threadFailCount) {
      ++g_threadFired;
      count(F_thread_create_eagain);
      logf("  fault: thread start #%lld refused", (long long)k);
      return EAGAIN;
    }
    count(P_threads_started);
  }
  int ds = 0;
  if (at) pthread_attr_getdetachstate(at, &ds);
  int rc = createThread(out, fn, arg, t_sut, ds == PTHREAD_CREATE_DETACHED);
  sp(1);
  return rc;
}
int pthread_join(pthread_t t, void** ret) {
  if (!real_pthread_join) real_pthread_join = realSym<decltype(real_pthread_join)>("pthread_join");
  if (!on()) return real_pthread_join(t, ret);
  return simJoin(t, ret);
}
int pthread_detach(pthread_t t) {
  if (!real_pthread_detach) real_pthread_detach = realSym<decltype(real_pthread_detach)>("pthread_detach");
  if (!on()) return real_pthread_detach(t);
  if (SimThread* s = findOs(t)) s->detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) { REAL(pthread_mutex_lock); return r(m); } return mutexLock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on()) { REAL(pthread_mutex_trylock); return r(m); } return mutexLock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!on()) { REAL(pthread_mutex_timedlock); return r(m, ts); } return mutexLock(m, false, absNs(ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!on()) { REAL(pthread_mutex_clocklock); return r(m, c, ts); } return mutexLock(m, false, absNs(ts)); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!on()) { REAL(pthread_mutex_unlock); return r(m); } return mutexUnlock(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (!on()) { REAL(pthread_mutex_destroy); return r(m); } Harness hs; g_mutex->erase((uintptr_t)m); g_sync->erase((uintptr_t)m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) { REAL(pthread_cond_wait); return r(c, m); } return condWait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!on()) { REAL(pthread_cond_timedwait); return r(c, m, ts); } return condWait(c, m, absNs(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!on()) { REAL(pthread_cond_clockwait); return r(c, m, k, ts); } return condWait(c, m, absNs(ts)); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) { REAL(pthread_cond_signal); return r(c); }
  sp(1); releaseOn((uintptr_t)c);
  int n = 0; for (int i = 0; i < g_nthreads; ++i) if (g_threads[i]->state == T_BLOCKED && g_threads[i]->blockedOn == c) ++n;
  if (n > 1 && !g_in.haveSched) {
    uint64_t k = g_schedRng.below(n); ev(k);
    for (int i = 0; i < g_nthreads; ++i) if (g_threads[i]->state == T_BLOCKED && g_threads[i]->blockedOn == c && k-- == 0) { g_threads[i]->state = T_RUN; g_threads[i]->wakeAt = 0; break; }
    return 0;
  }
  unblock(c, "cond", 1); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) { REAL(pthread_cond_broadcast); return r(c); } sp(1); releaseOn((uintptr_t)c); unblock(c, "cond", 1000); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!on()) { REAL(pthread_rwlock_rdlock); return r(l); }
  sp(1);
  for (;;) { RW* x; { Harness hs; x = &(*g_rw)[(uintptr_t)l]; } if (x->writer < 0) { ++x->readers; acquireOn((uintptr_t)l); return 0; } block(l, "rwlock"); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!on()) { REAL(pthread_rwlock_wrlock); return r(l); }
  sp(1);
  for (;;) { RW* x; { Harness hs; x = &(*g_rw)[(uintptr_t)l]; } if (x->writer < 0 && !x->readers) { x->writer = t_self->id; acquireOn((uintptr_t)l); return 0; } block(l, "rwlock"); }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!on()) { REAL(pthread_rwlock_unlock); return r(l); }
  RW* x; { Harness hs; x = &(*g_rw)[(uintptr_t)l]; }
  if (x->writer == t_self->id) x->writer = -1; else if (x->readers > 0) --x->readers; else return EPERM;
  releaseOn((uintptr_t)l); unblock(l, "rwlock", 1000); sp(1); return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!on()) { REAL(pthread_once); return r(o, fn); }
  sp(1);
  static std::set<void*>* running; 
  for (;;) {
    if (*o & 2) { acquireOn((uintptr_t)o); return 0; }
    bool busy; { Harness hs; if (!running) running = new std::set<void*>; busy = running->count(o) != 0; if (!busy) running->insert(o); }
    if (!busy) {
      try { fn(); } catch (...) { { Harness hs; running->erase(o); } unblock(o, "once", 1000); throw; }
      { Harness hs; running->erase(o); }
      *o = 2; releaseOn((uintptr_t)o); unblock(o, "once", 1000); return 0;
    }
    block(o, "once");
  }
}
// Function-local statics. Guard byte 0: initialised, byte 1: in progress.
int sim_guard_acquire(unsigned char* g) __asm__("__cxa_guard_acquire");
void sim_guard_release(unsigned char* g) __asm__("__cxa_guard_release");
void sim_guard_abort(unsigned char* g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(unsigned char* g) {
  if (!on()) { if (g[0]) return 0; g[1] = 1; return 1; }
  sp(1);
  for (;;) {
    if (g[0]) { acquireOn((uintptr_t)g); return 0; }
    if (!g[1]) { g[1] = 1; return 1; }
    count(P_guard_blocked);
    block(g, "static initialisation");
  }
}
void sim_guard_release(unsigned char* g) {
  g[0] = 1; g[1] = 0;
  if (on()) { releaseOn((uintptr_t)g); unblock(g, "static initialisation", 1000); sp(1); }
}
void sim_guard_abort(unsigned char* g) { g[1] = 0; if (on()) unblock(g, "static initialisation", 1000); }
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* dso) {
  if (on() && t_self->id) { Harness hs; t_self->tls.push_back({fn, obj}); return 0; }
  typedef int (*F)(void (*)(void*), void*, void*);
  static F r = realSym<F>("__cxa_thread_atexit_impl");
  return r(fn, obj, dso);
}
// ---- time ----
int sched_yield() {
  if (!on()) { rawFutex(nullptr, 0, 0); long ret; __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_sched_yield) : "rcx", "r11", "memory"); return 0; }
  if (g_live > 1) { t_self->prio = --g_lowPrio; g_lastSwitch = 0; sp(1); if (g_in.haveSched || g_sched.policy == 0) { SimThread* t = nthRunnable(t_self->id, 0); if (t && !g_in.haveSched) preemptTo(t); } }
  advance(1000);
  return 0;
}
static int simSleep(uint64_t ns) { if (g_live > 1) block(t_self, "sleep", g_simns + (ns ? ns : 1)); else advance(ns); t_self->timedOut = false; return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!on()) { REAL(nanosleep); return r(a, b); } return simSleep(absNs(a)); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { if (!on()) { REAL(clock_nanosleep); return r(c, fl, a, b); } uint64_t n = absNs(a); if (fl) n = n > g_simns ? n - g_simns : 0; return simSleep(n); }
int usleep(useconds_t u) { if (!on()) { REAL(usleep); return r(u); } return simSleep(u * 1000ull); }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!on()) { return (int)syscall(SYS_clock_gettime, c, ts); }
  advance(100); ts->tv_sec = g_simns / 1000000000ull; ts->tv_nsec = g_simns % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* __restrict tv_, void* __restrict) noexcept {
  struct timeval* volatile tvv = tv_; struct timeval* tv = tvv;
  if (!on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
  advance(100); if (tv) { tv->tv_sec = g_simns / 1000000000ull; tv->tv_usec = g_simns % 1000000000ull / 1000; } return 0;
}
time_t time(time_t* t) { time_t v; if (!on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else v = (time_t)(g_simns / 1000000000ull); if (t) *t = v; return v; }
// futex based waiting in libstdc++ (std::future)
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    int* p = (int*)a[0]; int op = (int)a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sp(1);
      if (*(volatile int*)p != (int)a[2]) { acquireOn((uintptr_t)p); errno = EAGAIN; return -1; }
      uint64_t until = 0;
      if (a[3]) { until = absNs((struct timespec*)a[3]); if (op == FUTEX_WAIT) until += g_simns; }
      block(p, "futex", until);
      if (t_self->timedOut) { t_self->timedOut = false; errno = ETIMEDOUT; return -1; }
      acquireOn((uintptr_t)p);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { releaseOn((uintptr_t)p); int k = unblock(p, "futex", a[2] > 1000 ? 1000 : (int)a[2]); sp(1); return k; }
  }
  long ret;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}
} // extern "C"

unsigned int std::thread::hardware_concurrency() noexcept {
  if (g_armed) { sim::count(F_cores_reported); return g_cores; }
  return 4;
}

// ---- crash handling ------------------------------------------------------------------------------
static char g_altstack[1 << 16];
extern "C" char __executable_start, etext;
static void onSignal(int sig, siginfo_t* si, void* uc) {
  if (!g_res || g_res->status == ST_VIOLATION) rawExit(44);
  const char* k = "crash";
  char d[256];
  if (sig == SIGABRT) {
    k = "terminated";
    const char* tn = "";
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (ti) tn = ti->name();
    snprintf(d, sizeof d, "process terminated (abort)%s%s", *tn ? " with exception type " : "", tn);
  } else if (sig == SIGXCPU) { k = "no-progress"; snprintf(d, sizeof d, "cpu budget exhausted without finishing"); }
  else snprintf(d, sizeof d, "signal %d%s", sig, (sig == SIGSEGV && (uintptr_t)si->si_addr < 65536) ? " (near-null access)" : "");
  uintptr_t pc = (uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  if (g_memoryOnly && g_damagedInput && (sig == SIGSEGV || sig == SIGBUS || sig == SIGFPE || sig == SIGILL) && (pc < (uintptr_t)&__executable_start || pc >= (uintptr_t)&etext)) t_fi = 1;     // in a shared library
  if (!t_sut && !t_fi) strncat(d, " [outside the code under test]", sizeof d - strlen(d) - 1);
  violate(k, "%s", d);
}
static void onTerminate() {
  if (!g_armed) abort();
  const char* tn = "no exception";
  std::type_info* ti = abi::__cxa_current_exception_type();
  if (ti) tn = ti->name();
  violate("terminated", "std::terminate called (%s)", tn);
}

namespace sim {
void armAllocator();
void fsInit();
void arm() {
  g_tapeRng = Rng(mix(g_in.seed ^ 0x7a9e));
  g_schedRng = Rng(mix(g_in.seed ^ 0x5c4ed));
  g_fillFi = (g_in.seed & 1) ? 0xA5 : 0x5A;
  if (!real_pthread_create) real_pthread_create = realSym<decltype(real_pthread_create)>("pthread_create");
  if (!real_pthread_join) real_pthread_join = realSym<decltype(real_pthread_join)>("pthread_join");
  if (mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
    fatal("cannot map arena");
  if (mmap((void*)SHADOW, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
    fatal("cannot map shadow");
  size_t tab = 1 << 19;
  g_ptab = (ShPage**)mmap(nullptr, tab * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_ptabMask = tab - 1;
  g_sync = new std::unordered_map<uintptr_t, SyncVar>;
  g_mutex = new std::unordered_map<uintptr_t, Mutex>;
  g_rw = new std::unordered_map<uintptr_t, RW>;
  SimThread* m = new SimThread;
  memset(&m->vc, 0, sizeof(VC)); memset(&m->acq, 0, sizeof(VC)); memset(&m->rel, 0, sizeof(VC));
  m->state = T_RUN; m->vc.c[0] = 1; m->prio = 1ull << 50;
  g_threads[0] = m; g_nthreads = 1; g_live = 1; t_self = m; g_cur = m;
  stack_t ss{}; ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
  fsInit();
  g_arenaOn = true;
  g_armed = true;
}
void startSchedule() { if (g_sched.policy == 2) pctSetup(); }
} // namespace sim
