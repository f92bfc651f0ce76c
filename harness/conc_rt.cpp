// Runtime of the schedule explorer (compiled WITHOUT instrumentation).
// The harness is compiled with -fsanitize=thread but linked against the callbacks below instead of libtsan:
//   * threads are fibers; a context switch may happen before every mutex acquisition (and atomic operation),
//     and all interleavings at those points are enumerated (depth-first, sleep sets; or a preemption bound);
//   * in every schedule each memory access is checked against a vector-clock happens-before relation, so a
//     pair of conflicting unordered accesses is reported even where the schedule itself did no harm.
#include "conc_rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <sys/time.h>
#include <execinfo.h>
#include <pthread.h>
#include <new>
extern "C" { void* __real_memset(void*, int, size_t); }
#define memset __real_memset

// switch stacks: saves the callee-saved registers and the stack pointer in *from and continues at to (x86-64)
asm(".text\n.globl conc_switch\n.type conc_switch,@function\nconc_switch:\n pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n movq %rsp,(%rdi)\n movq %rsi,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size conc_switch,.-conc_switch\n");
extern "C" void conc_switch(void** from, void* to);

namespace {
enum { MT = 3, STK = 256 * 1024, ARENA = 8 << 20, HS = 1 << 16, MAXD = 4096 };
bool in_exec = false;         // between start and end of one execution: allocations come from the arena
bool in_thr = false;          // threads are running: accesses are recorded
int cur = -1;                 // running fiber, -1: main
char* arena; size_t apos;
struct Hdr { size_t n; };

// ------------------------------------------------------------------ clocks and shadow
uint32_t vc[MT][MT];
struct Acc { uint8_t tid, mask, w; uint32_t clk; void* pc; };
struct Gran { uintptr_t g; uint32_t gen; uint8_t n; Acc a[10]; };
Gran* tab; uint32_t gen = 0;
struct Sync { const void* addr; uint32_t gen; int owner; int cnt; uint32_t c[MT]; };
enum { SS = 1 << 12 }; Sync* syn;
char vmsg[4096]; bool viol = false; void* mainsp;

Gran* gran(uintptr_t g) {
  uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 40) & (HS - 1);
  for (int i = 0; i < HS; ++i, h = (h + 1) & (HS - 1)) { Gran& e = tab[h]; if (e.gen != gen) { e.gen = gen; e.g = g; e.n = 0; return &e; } if (e.g == g) return &e; }
  fprintf(stderr, "internal: shadow table full\n"); _exit(3);
}
Sync* sync(const void* a) {
  uint32_t h = (uint32_t)(((uintptr_t)a * 0x9E3779B97F4A7C15ull) >> 44) & (SS - 1);
  for (int i = 0; i < SS; ++i, h = (h + 1) & (SS - 1)) { Sync& e = syn[h]; if (e.gen != gen) { memset(&e, 0, sizeof e); e.gen = gen; e.addr = a; e.owner = -1; return &e; } if (e.addr == a) return &e; }
  fprintf(stderr, "internal: sync table full\n"); _exit(3);
}
void stop_exec();
void report(const char* fmt, ...) {
  if (viol) return; viol = true; va_list ap; va_start(ap, fmt); vsnprintf(vmsg, sizeof vmsg, fmt, ap); va_end(ap);
}
const char* where(void* pc) { static char b[2][128]; static int k; k ^= 1; snprintf(b[k], 128, "%p", pc); return b[k]; }
inline void access(uintptr_t p, size_t n, bool w, void* pc) {
  if (!in_thr || cur < 0 || viol) return;
  uintptr_t e = p + n;
  while (p < e) {
    uintptr_t g = p >> 3; unsigned lo = p & 7, hi = e - (g << 3) < 8 ? (unsigned)(e - (g << 3)) : 8; uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    Gran* q = gran(g); Acc* mine = nullptr; Acc* old = nullptr;
    for (int i = 0; i < q->n; ++i) { Acc& a = q->a[i];
      if (a.tid == cur) { if (a.mask == mask && a.w == w) mine = &a; continue; }
      if (a.clk <= vc[cur][a.tid]) { old = &a; continue; }
      if ((a.mask & mask) && (a.w || w)) { report("data race: thread %d %s %s (at %s) while thread %d %s it (at %s), and nothing orders the two", cur + 1, w ? "writes" : "reads", (char*)p >= arena && (char*)p < arena + ARENA ? "heap memory" : "memory", where(pc), a.tid + 1, a.w ? "writes" : "reads", where(a.pc)); stop_exec(); return; } }
    if (!mine) { if (q->n < 10) mine = &q->a[q->n++]; else if (old) mine = old; }
    if (mine) { mine->tid = (uint8_t)cur; mine->mask = mask; mine->w = w; mine->clk = vc[cur][cur]; mine->pc = pc; }
    p = (g + 1) << 3;
  }
}
void acquire(Sync* s) { for (int i = 0; i < MT; ++i) if (s->c[i] > vc[cur][i]) vc[cur][i] = s->c[i]; }
void release(Sync* s) { for (int i = 0; i < MT; ++i) if (vc[cur][i] > s->c[i]) s->c[i] = vc[cur][i]; ++vc[cur][cur]; }

// ------------------------------------------------------------------ fibers and scheduler
struct Fiber { void* sp; bool done; const void* pend; int kind; };   // kind: 0 start, 1 lock, 2 atomic, 3 lock (shared)
Fiber fb[MT]; char* stacks; int nthr; conc_body_t bodyf;
enum { P_START, P_LOCK, P_ATOM, P_SHLOCK };
void* deadsp;
void fiber_main() { int t = cur; bodyf(t); fb[t].done = true; cur = -1; conc_switch(&deadsp, mainsp); abort(); }
void yield_(int kind, const void* a) { int t = cur; fb[t].kind = kind; fb[t].pend = a; cur = -1; conc_switch(&fb[t].sp, mainsp); }
void stop_exec() { if (cur >= 0) { cur = -1; conc_switch(&deadsp, mainsp); } }
void fiber_init(int t) { void** sp = (void**)((((uintptr_t)stacks + (t + 1) * STK) & ~(uintptr_t)63) - 64); *--sp = nullptr; *--sp = (void*)fiber_main; for (int i = 0; i < 6; ++i) *--sp = nullptr; fb[t].sp = sp; }
bool enabled(int t) {
  if (fb[t].done) return false; if (fb[t].kind == P_LOCK) { Sync* s = sync(fb[t].pend); return s->owner < 0 && s->cnt == 0; } if (fb[t].kind == P_SHLOCK) return sync(fb[t].pend)->owner < 0; return true;
}
struct Pend { int kind; const void* a; };
struct Frame { uint8_t en, sleep, done; int8_t ch; Pend p[MT]; int8_t prev; int pre; };
Frame st[MAXD]; int depth;
bool dep(const Pend& x, const Pend& y) { if (x.kind == P_START || y.kind == P_START) return false; return x.a == y.a; }
}  // namespace

conc_stats_t conc_stats; int conc_bound = -1;
const char* conc_violation() { return viol ? vmsg : nullptr; }
void conc_fail(const char* msg) { if (!viol) { viol = true; snprintf(vmsg, sizeof vmsg, "%s", msg); } stop_exec(); }
bool conc_in_thread() { return cur >= 0; }
int conc_self() { return cur; }
static void begin_exec() { in_exec = true; apos = 0; ++gen; viol = false; }

// runs one execution following the choices on the stack and extending them; returns false when the stack top was pruned
static void run_one(int plen) {
  memset(vc, 0, sizeof vc);
  for (int t = 0; t < nthr; ++t) { for (int u = 0; u < MT; ++u) vc[t][u] = 0; vc[t][t] = 1; fb[t].done = false; fb[t].kind = P_START; fb[t].pend = nullptr; fiber_init(t); }
  depth = 0; in_thr = true; int last = -1;
  for (;;) {
    uint8_t en = 0; bool all = true; for (int t = 0; t < nthr; ++t) { if (!fb[t].done) all = false; if (enabled(t)) en |= 1 << t; }
    if (all) break;
    if (!en) { report("deadlock: every unfinished thread waits for a mutex"); break; }
    if (depth >= MAXD) { report("internal: execution too long"); break; }
    Frame& f = st[depth];
    if (depth >= plen) {
      f.en = en; f.done = 0; f.sleep = 0; f.prev = (int8_t)last; f.pre = depth ? st[depth - 1].pre + (st[depth - 1].ch >= 0 && st[depth - 1].prev >= 0 && st[depth - 1].ch != st[depth - 1].prev && ((st[depth - 1].en >> st[depth - 1].prev) & 1)) : 0;
      for (int t = 0; t < nthr; ++t) f.p[t] = Pend{fb[t].kind, fb[t].pend};
      if (depth && conc_bound < 0) { Frame& p = st[depth - 1]; for (int t = 0; t < nthr; ++t) if (t != p.ch && ((p.sleep | p.done) >> t & 1) && !dep(p.p[t], p.p[p.ch])) f.sleep |= 1 << t; }
      int ch = -1; uint8_t cand = f.en & ~f.sleep;
      if (cand) { if (last >= 0 && (cand >> last & 1)) ch = last; else for (int t = 0; t < nthr; ++t) if (cand >> t & 1) { ch = t; break; } }
      if (ch < 0) { f.ch = -1; ++depth; ++conc_stats.pruned; in_thr = false; return; }
      f.ch = (int8_t)ch;
    } else if (!(f.en == en && f.ch >= 0 && (en >> f.ch & 1))) { report("internal: the execution is not deterministic"); break; }
    int t = f.ch; ++depth; ++conc_stats.transitions; last = t;
    if (fb[t].kind == P_LOCK) { Sync* s = sync(fb[t].pend); s->owner = t; cur = t; acquire(s); } else if (fb[t].kind == P_SHLOCK) { Sync* s = sync(fb[t].pend); ++s->cnt; cur = t; acquire(s); }
    cur = t; conc_switch(&mainsp, fb[t].sp); cur = -1;
    if (viol) break;
  }
  in_thr = false;
}

void conc_explore(conc_fn_t setup, int n, conc_body_t body, conc_fn_t finish, long max_exec) {
  if (!arena) { arena = (char*)malloc(ARENA); tab = (Gran*)calloc(HS, sizeof(Gran)); syn = (Sync*)calloc(SS, sizeof(Sync)); stacks = (char*)malloc((size_t)MT * STK); }
  nthr = n; bodyf = body; int plen = 0; conc_stats.truncated = false; long ex = 0;
  for (;;) {
    begin_exec(); setup();
    if (!viol) run_one(plen);
    bool pruned = !viol && depth && st[depth - 1].ch < 0;
    if (!viol && !pruned) { ++conc_stats.executions; if (depth > conc_stats.max_depth) conc_stats.max_depth = depth; finish(); }
    in_exec = false;
    if (viol) { int k = 0; char b[1200]; b[0] = 0; for (int i = 0; i < depth && k < 1000; ++i) k += snprintf(b + k, sizeof b - k, "%d", st[i].ch + 1); size_t l = strlen(vmsg); snprintf(vmsg + l, sizeof vmsg - l, " [schedule %s]", b); return; }
    if (++ex >= max_exec) { conc_stats.truncated = true; return; }
    // backtrack
    int d = depth - 1; if (d >= 0 && st[d].ch < 0) --d;
    for (; d >= 0; --d) {
      Frame& f = st[d]; f.done |= 1 << f.ch; int ch = -1;
      for (int t = 0; t < nthr; ++t) if ((f.en & ~f.sleep & ~f.done) >> t & 1) { if (conc_bound >= 0 && f.prev >= 0 && t != f.prev && (f.en >> f.prev & 1) && f.pre >= conc_bound) continue; ch = t; break; }
      if (ch >= 0) { f.ch = (int8_t)ch; break; }
    }
    if (d < 0) return;
    plen = d + 1;
  }
}
// a sequential execution of everything on the main thread (for the expected results)
void conc_plain(conc_fn_t f) { if (!arena) conc_explore([] {}, 0, nullptr, [] {}, 1); begin_exec(); f(); in_exec = false; }

// ------------------------------------------------------------------ allocation
static void* alloc_(size_t n) {
  if (!in_exec) { void* p = malloc(n + 16); if (!p) abort(); ((Hdr*)p)->n = n; return (char*)p + 16; }
  size_t t = (n + 16 + 15) & ~(size_t)15; if (apos + t > ARENA) { fprintf(stderr, "internal: arena exhausted\n"); _exit(3); }
  char* p = arena + apos; apos += t; ((Hdr*)p)->n = n; memset(p + 16, 0xCB, n); return p + 16;
}
static void free_(void* v, void* pc) {
  if (!v) return; char* p = (char*)v - 16;
  if (p >= arena && p < arena + ARENA) { size_t n = ((Hdr*)p)->n; access((uintptr_t)v, n, true, pc); memset(v, 0xDD, n); return; }   // never reused within an execution
  free(p);
}
void* operator new(size_t n) { return alloc_(n); }
void* operator new[](size_t n) { return alloc_(n); }
void operator delete(void* p) noexcept { free_(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { free_(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { free_(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { free_(p, __builtin_return_address(0)); }

// ------------------------------------------------------------------ synchronisation
static int lock_(const void* m, int kind) {
  if (cur < 0) return 0;
  if (kind == P_LOCK) { Sync* s = sync(m); if (s->owner == cur) { report("deadlock: thread %d locks a mutex that it holds", cur + 1); stop_exec(); } }
  yield_(kind, m); return 0;
}
static int unlock_(const void* m) {
  if (cur < 0) return 0; Sync* s = sync(m);
  if (s->owner == cur) s->owner = -1; else if (s->cnt > 0) --s->cnt; else { report("thread %d unlocks a mutex that it does not hold", cur + 1); stop_exec(); }
  release(s); return 0;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_(m, P_LOCK); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlock_(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (cur < 0) return 0; yield_(P_ATOM, m); Sync* s = sync(m); if (s->owner >= 0 || s->cnt) return EBUSY; s->owner = cur; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_(m, P_LOCK); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lock_(m, P_SHLOCK); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlock_(m); }

int __cxa_guard_acquire(uint64_t* g) { if (*(volatile char*)g) { if (cur >= 0) acquire(sync(g)); return 0; } return 1; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; if (cur >= 0) release(sync(g)); }
void __cxa_guard_abort(uint64_t*) {}

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, PC); } void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, PC); } void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
static void atom(const volatile void* p) { if (cur >= 0) { yield_(P_ATOM, (const void*)p); Sync* s = sync((const void*)p); acquire(s); release(s); } }
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* p, int) { atom(p); return *p; } void __tsan_atomic##N##_store(volatile T* p, T v, int) { atom(p); *p = v; } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { atom(p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { atom(p); T o = *p; *p = o + v; return o; } T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { atom(p); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { atom(p); T o = *p; *p = o & v; return o; } T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { atom(p); T o = *p; *p = o | v; return o; } T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { atom(p); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atom(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atom(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atom(p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// the harness is linked with --wrap for these, since the instrumentation leaves them to libtsan's interceptors
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (in_thr && cur >= 0) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (in_thr && cur >= 0) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (in_thr && cur >= 0) access((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }
}
