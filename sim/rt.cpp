// Simulator runtime. Compiled without instrumentation.
#include "rt.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/times.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

extern "C" char __data_start, _end;
extern "C" char **environ;

namespace rt {

Shared *sh = nullptr;
static const size_t SH_DUR = 24u << 20, SH_OUT = 24u << 20;
static size_t sh_off() { return (sizeof(Shared) + 4095) & ~(size_t)4095; }
void shared_init() {
  size_t n = sh_off() + SH_DUR + SH_OUT;
  sh = (Shared *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); _exit(2); }
}
char *durable() { return (char *)sh + sh_off(); }
size_t durable_cap() { return SH_DUR; }
char *outarea() { return (char *)sh + sh_off() + SH_DUR; }
size_t outarea_cap() { return SH_OUT; }

u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, b + i, 8); h = mix(h, v); }
  u64 v = 0;
  if (i < n) memcpy(&v, b + i, n - i);
  return mix(mix(h, v), n);
}

// =========================================================================================================
// tasks
enum TState { T_NONE = 0, T_READY, T_BLOCKED, T_STALLED, T_DONE };
struct Task {
  int id = 0;
  int in_lib = 0, arena_on = 0;
  int state = T_NONE;
  uintptr_t stk_lo = 0, stk_hi = 0;
  u64 steps = 0, opstep = 0, next_at = 0;
  u64 rq_at = 0; // random policy: opstep of the next switch
  int op = 0;
  u64 allocs_op = 0, attempt_allocs = 0, size_hits = 0;
  u32 maxalloc_op = 0;
  Fault fault;
  u64 fhits = 0, limit_base = 0;
  u32 vc[MAXT] = {0};
  uintptr_t pw_addr = 0;
  u32 pw_len = 0, pw_pc = 0;
  u8 pw_old[128];
  int guard_depth = 0;
  u64 prio = 0;
  volatile int go = 0;
  const void *wait_on = nullptr;
  int wait_timed = 0, wait_timedout = 0;
  int stall_resume = 0;
  u64 pct_at = 0;
  pthread_t th;
  TaskFn fn = nullptr;
  void *arg = nullptr;
  void *(*dyn)(void *) = nullptr; // thread created by the library itself
  void *dynarg = nullptr, *dynret = nullptr;
  int detached = 0, started = 0;
  bool joined = false;
  struct TlsEnd { void (*f)(void *); void *o; };
  enum { FR = 256 };
  struct Frame { uintptr_t pc, sp; u64 h; } fr[FR]; // shadow call stack
  int nfr = 0;
  std::vector<TlsEnd> *tls = nullptr; // destructors of the library's thread-local objects
};
static Task tasks[MAXT];
static int ntasks = 1; // ids 0..ntasks-1 are in use; 0 is the process's main thread
static __thread Task *cur = nullptr;
static volatile int main_go = 0;
static bool sim_on = false; // tasks are running
static bool started = false; // main() has begun: static initialisation is over
static SchedCfg sc;
static MemCfg mc;
static EnvCfg ec;
static Rng srng, erng;
static bool multi = false;
static u64 evh = 0, ilh = 0;
static u64 last_switch_step = 0;
static int list_used = 0;
static std::vector<u8> *list_done;

static inline void ev(u64 v) { evh = mix(evh, v); }

static void finish_child(int outcome) {
  sh->evhash = evh;
  sh->interleave = ilh;
  sh->outcome = outcome;
  __sync_synchronize();
  _exit(outcome == O_OK ? 0 : outcome == O_CRASHPOINT ? 43 : outcome == O_VIOL ? 40 : 41);
}

void violation(const char *kind, const char *fmt, ...) {
  if (cur) cur->in_lib = 0;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  snprintf(sh->kind, sizeof sh->kind, "%s", kind);
  if (cur) { sh->v_task = cur->id; sh->v_op = cur->op; }
  ev(hash_bytes(kind, strlen(kind)));
  finish_child(O_VIOL);
  __builtin_unreachable();
}
void infra(const char *fmt, ...) {
  if (cur) cur->in_lib = 0;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  finish_child(O_INFRA);
  __builtin_unreachable();
}

void toobig(const char *what) {
  if (cur) cur->in_lib = 0;
  snprintf(sh->msg, sizeof sh->msg, "%s", what);
  finish_child(O_SKIP);
  __builtin_unreachable();
}
std::string symbolise(u64 pc) {
  char exe[512];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n < 0) return "?";
  exe[n] = 0;
  char cmd[800];
  snprintf(cmd, sizeof cmd, "addr2line -C -s -f -e %s 0x%llx 2>/dev/null", exe, (unsigned long long)(pc ? pc - 1 : 0));
  FILE *f = popen(cmd, "r");
  if (!f) return "?";
  char a[512] = "", b[512] = "";
  if (!fgets(a, sizeof a, f)) a[0] = 0;
  if (!fgets(b, sizeof b, f)) b[0] = 0;
  pclose(f);
  a[strcspn(a, "\n")] = 0;
  b[strcspn(b, "\n")] = 0;
  std::string s = a;
  if (s.size() > 90) s = s.substr(0, 90) + "...";
  return s + " " + b;
}

void probe(int i) { if (sh && i < 64) sh->probes[i]++; }

// =========================================================================================================
// arena
static const uintptr_t AB = 0x200000000000ull;
static const size_t ASZ = 1ull << 30;
static u8 *const SHV = (u8 *)0x210000000000ull;   // 1 byte per granule of 8: valid bytes; 0 unaddressable; 0xFD freed
static u8 *const FRZ = (u8 *)0x218000000000ull;   // 1 byte per granule: bit mask of frozen bytes
enum { RS = 8 };
struct Cell { // race detector, one per granule
  u32 wclk;
  u8 wtask, wmask;
  u16 ex; // mask of exempt bytes
  u32 wpc;
  u32 rclk[RS]; // readers: the last one of the tasks with this number modulo RS
  u8 rmask[RS], rtask[RS];
  u32 rpc;
};
static Cell *const CELL = (Cell *)0x220000000000ull;
static Cell *gcell = nullptr;
static u8 *gfrz = nullptr;
static uintptr_t GB, GE;
static bool arena_up = false;
static uintptr_t bump;
static u32 freel[512];
struct Hdr {
  u32 magic, size, next;
  u8 lib, task;
  u16 op;
};
static const u32 MG_LIVE = 0xA11C0DE5u, MG_FREE = 0xF4EEF4EEu;
static u64 live_lib = 0, nlive_lib = 0;
static u64 fillctr = 0;
static const int QN = 512;
static u32 quar[QN];
static int qhead = 0, qcnt = 0;

static void *mapat(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { fprintf(stderr, "simulator: cannot map %zx\n", (size_t)a); _exit(2); }
  return p;
}
static void arena_init() {
  if (arena_up) return;
  mapat(AB, ASZ);
  mapat((uintptr_t)SHV, ASZ / 8);
  mapat((uintptr_t)FRZ, ASZ / 8);
  mapat((uintptr_t)CELL, ASZ / 8 * sizeof(Cell));
  GB = (uintptr_t)&__data_start & ~7ull;
  GE = ((uintptr_t)&_end + 7) & ~7ull;
  gcell = (Cell *)mapat(0x2f0000000000ull, (GE - GB) / 8 * sizeof(Cell) + 4096);
  gfrz = (u8 *)mapat(0x2f8000000000ull, (GE - GB) / 8 + 4096);
  bump = AB + 64;
  arena_up = true;
}
static inline bool in_arena(uintptr_t a) { return a - AB < ASZ; }
static inline bool in_glob(uintptr_t a) { return a - GB < GE - GB; }

static inline int cls_of(size_t n, size_t *cap) {
  size_t r = (n + 15) & ~(size_t)15;
  if (r == 0) r = 16;
  if (r <= 4096) { *cap = r; return (int)(r / 16); }
  size_t p = 8192;
  int c = 260;
  while (p < r) { p <<= 1; c++; }
  *cap = p;
  return c;
}
static void set_valid(uintptr_t u, size_t n, size_t cap) {
  u8 *s = SHV + ((u - AB) >> 3);
  size_t full = n >> 3;
  memset(s, 8, full);
  size_t i = full;
  if (n & 7) s[i++] = (u8)(n & 7);
  if (i < cap / 8) memset(s + i, 0, cap / 8 - i);
}
static void fill_mem(void *p, size_t n) {
  switch (mc.fill) {
  case FILL_CONST: memset(p, 0xA5, n); break;
  case FILL_ZERO: memset(p, 0, n); break;
  case FILL_FF: memset(p, 0xFF, n); break;
  default: {
    u8 *b = (u8 *)p;
    for (size_t i = 0; i < n; i += 8) {
      u64 v = mix(mc.fillseed, fillctr++);
      if (mc.fill == FILL_SMALLINT) v = (v & 15) | ((v >> 8 & 15) << 32);
      else if (mc.fill == FILL_DOUBLE) { double d = (double)(int64_t)(v >> 20) / 1e9; memcpy(&v, &d, 8); }
      memcpy(b + i, &v, n - i < 8 ? n - i : 8);
    }
  }
  }
}
static inline Cell *cells_of(uintptr_t a) { return in_arena(a) ? CELL + ((a - AB) >> 3) : gcell + ((a - GB) >> 3); }

static void *arena_alloc(size_t n, bool lib, size_t align) {
  arena_init();
  size_t want = n;
  if (align > 16) want = n + align;
  size_t cap;
  if (want > (ASZ >> 2)) return nullptr; // like malloc refusing an absurd size
  int c = cls_of(want, &cap);
  uintptr_t u = 0;
  if (freel[c]) {
    u = AB + (u64)freel[c] * 16;
    freel[c] = ((Hdr *)(u - 16))->next;
  } else {
    if (bump + 16 + cap + 16 > AB + ASZ) toobig("arena exhausted");
    u = bump + 16;
    bump = u + cap + 16;
  }
  Hdr *h = (Hdr *)(u - 16);
  h->magic = MG_LIVE;
  h->size = (u32)want;
  h->lib = lib;
  h->task = cur ? (u8)cur->id : 0;
  h->op = cur ? (u16)cur->op : 0;
  set_valid(u, want, cap);
  fill_mem((void *)u, want);
  if (multi && cur) {
    Cell *ce = CELL + ((u - AB) >> 3);
    size_t k = (want + 7) / 8;
    memset((void *)ce, 0, k * sizeof(Cell));
    for (size_t i = 0; i < k; i++) { ce[i].wclk = cur->vc[cur->id]; ce[i].wtask = (u8)cur->id; ce[i].wmask = 0xFF; }
  }
  if (lib) { live_lib += want; nlive_lib++; }
  if (align > 16) {
    uintptr_t a = (u + align - 1) & ~(align - 1);
    // remember where the block starts in the granule before the aligned address, if there is room
    if (a != u) { ((u64 *)a)[-1] = 0xA116000000000000ull | (u64)(a - u); }
    return (void *)a;
  }
  return (void *)u;
}
static void push_free(uintptr_t u) {
  Hdr *h = (Hdr *)(u - 16);
  size_t cap;
  int c = cls_of(h->size, &cap);
  h->next = freel[c];
  freel[c] = (u32)((u - AB) / 16);
}
static void race_access(uintptr_t a, size_t n, bool w, u32 pc, bool isfree);
static void arena_free(void *p, u32 pc) {
  uintptr_t u = (uintptr_t)p;
  Hdr *h = (Hdr *)(u - 16);
  if (h->magic != MG_LIVE && h->magic != MG_FREE) {
    u64 m = ((u64 *)u)[-1];
    if ((m >> 48) == 0xA116) { u -= (uintptr_t)(m & 0xffffffffffffull); h = (Hdr *)(u - 16); }
  }
  if (h->magic == MG_FREE) violation("memory", "double free of a block of %u bytes (%s)", h->size, symbolise(pc).c_str());
  if (h->magic != MG_LIVE || (u & 15)) violation("memory", "free of an address that was never allocated (%s)", symbolise(pc).c_str());
  size_t cap;
  cls_of(h->size, &cap);
  if (multi && cur && cur->in_lib) race_access(u, h->size, true, pc, true);
  h->magic = MG_FREE;
  if (h->lib) { live_lib -= h->size; nlive_lib--; }
  memset(SHV + ((u - AB) >> 3), 0xFD, cap / 8);
  u8 *fz = FRZ + ((u - AB) >> 3);
  for (size_t i = 0; i < (h->size + 7u) / 8; i++)
    if (fz[i]) {
      if (cur && cur->in_lib) violation("input-modified", "library freed memory of an input (%s)", symbolise(pc).c_str());
      fz[i] = 0;
    }
  memset((void *)u, 0xDD, h->size);
  if (sh) sh->st.frees++;
  if (mc.reuse == R_LIFO || bump > AB + ASZ / 2) push_free(u);
  else if (mc.reuse == R_QUARANTINE) {
    if (qcnt == QN) { push_free(AB + (u64)quar[qhead] * 16); qcnt--; quar[qhead] = (u32)((u - AB) / 16); qhead = (qhead + 1) % QN; qcnt++; }
    else { quar[(qhead + qcnt) % QN] = (u32)((u - AB) / 16); qcnt++; }
  }
}
u64 live_lib_bytes() { return live_lib; }

static void slow(Task *t);
static inline void step(Task *t) {
  t->steps++;
  if (++t->opstep >= t->next_at) slow(t);
}

// ---- calling contexts
static void note_ctx(CtxAt *tab, u32 *used, u64 key, Task *t, u64 step, u32 n, u32 size, size_t cap = NCTX) {
  if (*used > cap / 4 * 3) return;
  if (!key) key = 1;
  size_t i = (size_t)(key % cap);
  while (tab[i].key && tab[i].key != key) i = (i + 1) % cap;
  CtxAt &c = tab[i];
  if (!c.key) { c.key = key; c.count = 0; ++*used; }
  c.count++;
  if (mix(key ^ sc.seed, c.count) % c.count == 0) { c.step = step; c.n = n; c.task = (u16)t->id; c.op = (u16)t->op; c.size = size; }
}
static inline int lg2(u64 n) { return n ? 64 - __builtin_clzll(n) : 0; }
static u64 call_ctx(Task *t, int depth) {
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  while (t->nfr > 0 && t->nfr <= Task::FR && t->fr[t->nfr - 1].sp < sp) t->nfr--;
  u64 h = 0x51;
  int n = t->nfr < Task::FR ? t->nfr : Task::FR;
  for (int i = 0; i < depth && i < n; i++) h = mix(h, t->fr[n - 1 - i].h);
  return h;
}
static __attribute__((noinline)) void enter_fn(Task *t, uintptr_t pc, uintptr_t sp) {
  if (t->nfr > Task::FR) t->nfr = Task::FR;
  while (t->nfr > 0 && t->fr[t->nfr - 1].sp <= sp) t->nfr--; // frames left by an exception
  if (t->nfr < Task::FR) { t->fr[t->nfr].pc = pc; t->fr[t->nfr].sp = sp; t->fr[t->nfr].h = pc; }
  t->nfr++;
  if (sc.record == 1) note_ctx(sh->fctx, &sh->nfctx, mix(call_ctx(t, 3), (u64)t->id), t, t->opstep, (u32)t->allocs_op, 0);
}

static void sync_ctx(Task *t, u64 what) {
  if (sc.record == 1) note_ctx(sh->sctx, &sh->nsctx, mix(mix(call_ctx(t, 4), what), (u64)t->id), t, t->opstep, 0, 0, NSCTX);
}

static bool fault_now(Task *t, size_t n) {
  t->allocs_op++;
  t->attempt_allocs++;
  if (sc.record == 1) note_ctx(sh->actx, &sh->nactx, mix(call_ctx(t, 5), (u64)lg2(n)), t, t->opstep, (u32)t->attempt_allocs, (u32)n);
  if (n > t->maxalloc_op) t->maxalloc_op = (u32)(n > 0xffffffffu ? 0xffffffffu : n);
  sh->st.allocs++;
  sh->st.alloc_bytes += n;
  bool f = false;
  switch (t->fault.kind) {
  case F_NTH: f = t->attempt_allocs == t->fault.n; break;
  case F_FROM: f = t->attempt_allocs >= t->fault.n; break;
  case F_SIZE: if (n >= t->fault.n) f = ++t->size_hits == t->fault.nth; break;
  case F_LIMIT: f = live_lib + n > t->limit_base + t->fault.n; break;
  default: break;
  }
  if (f && sc.record && sh->nfailctx < 64) sh->failctx[sh->nfailctx++] = mix(call_ctx(t, 5), (u64)lg2(n));
  if (f) { t->fhits++; sh->st.faults[t->fault.kind]++; ev(0xFA17 + t->opstep); }
  return f;
}
// allocation requested by library code; nullptr: an injected failure
static void *lib_alloc(size_t n, size_t align) {
  Task *t = cur;
  step(t);
  if (fault_now(t, n)) return nullptr;
  ev(n);
  return arena_alloc(n, true, align);
}
// What the simulator's own frames left below the library's is not for the library to see either.
static u8 wipe_with[2048];
__attribute__((noinline)) void wipe() {
  u8 buf[sizeof wipe_with];
  memcpy(buf, wipe_with, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}
static __attribute__((noinline)) void wipe_top() {
  u8 buf[384];
  memcpy(buf, wipe_with, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}
static inline void wiped() { if (cur && cur->in_lib) wipe(); }
static __attribute__((noinline)) void *new_(size_t n, size_t align, bool nothrow) {
  void *p;
  if (!started) p = arena_alloc(n, false, align); // objects made by static initialisation
  else if (cur && cur->in_lib) p = lib_alloc(n, align);
  else if (cur && cur->arena_on) p = arena_alloc(n, false, align);
  else p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p && !nothrow) {
    if (sh) sh->st.throws++;
    throw std::bad_alloc();
  }
  return p;
}
static inline void *new_impl(size_t n, size_t align, bool nothrow) {
  void *p = new_(n, align, nothrow);
  wiped();
  return p;
}
static __attribute__((noinline)) void del_(void *p, void *pc) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) {
    if (cur && cur->in_lib) { check_pending_write(); step(cur); }
    arena_free(p, (u32)(uintptr_t)pc);
  } else free(p);
}
static inline void del_impl(void *p, void *pc) { del_(p, pc); wiped(); }

// =========================================================================================================
// scheduler
static void fwait(volatile int *f) {
  while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fwake(volatile int *f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static int grp_first, grp_last; // tasks of the group that is running
static bool group_done() {
  for (int i = grp_first; i <= grp_last; i++)
    if (tasks[i].state != T_DONE && tasks[i].state != T_NONE) return false;
  for (int i = grp_last + 1; i < ntasks; i++)
    if (tasks[i].state == T_READY || tasks[i].state == T_BLOCKED) return false;
  return true;
}
static int runnable(int *ids) {
  int n = 0;
  for (int i = grp_first; i < ntasks; i++)
    if (tasks[i].state == T_READY) ids[n++] = i;
  return n;
}
static void rearm(Task *t) {
  u64 at = sc.budget;
  for (auto &p : sc.crash)
    if (p.task == t->id && p.op == t->op && p.step > t->opstep && p.step < at) at = p.step;
  for (auto &p : sc.stalls)
    if (p.task == t->id && p.op == t->op && p.step > t->opstep && p.step < at) at = p.step;
  if (sc.policy == P_LIST) {
    for (auto &s : sc.list)
      if (s.task == t->id && s.op == t->op && s.step > t->opstep && s.step < at) at = s.step;
  } else if (sc.policy == P_RANDOM || sc.policy == P_PCT) {
    if (t->rq_at > t->opstep && t->rq_at < at) at = t->rq_at;
  }
  t->next_at = at;
}
static void draw_quantum(Task *t) {
  if (sc.policy == P_RANDOM) {
    double u = srng.unit();
    u64 q = 1 + (u64)(-(double)sc.mean * __builtin_log(1.0 - u * 0.999999));
    t->rq_at = t->opstep + q;
  } else if (sc.policy == P_PCT) {
    t->rq_at = t->opstep + 1 + srng.below(sc.pctlen);
  }
}
// pick the task that runs next; forced: the current one cannot go on
static int pick(Task *t, bool forced, bool *recorded) {
  int ids[MAXT], n = runnable(ids);
  if (!n) return -1;
  *recorded = false;
  if (sc.policy == P_LIST) {
    for (size_t i = 0; i < sc.list.size(); i++) {
      Switch &s = sc.list[i];
      if (s.task == t->id && s.op == t->op && s.step == t->opstep && tasks[s.next].state == T_READY) return s.next;
    }
    return forced ? ids[0] : t->id;
  }
  if (sc.policy == P_SERIAL) return forced ? ids[0] : t->id;
  if (sc.policy == P_PCT) {
    int b = ids[0];
    for (int i = 1; i < n; i++)
      if (tasks[ids[i]].prio > tasks[b].prio) b = ids[i];
    return b;
  }
  if (!forced && (int)sh->st.switches >= sc.maxsw) return t->id;
  int k = ids[srng.below((u64)n)];
  if (k == t->id && n > 1) k = ids[srng.below((u64)n)];
  return k;
}
static void handoff(Task *t, int nx) {
  if (sh->nsw < MAXSW) sh->sw[sh->nsw++] = Switch{t->id, t->op, t->opstep, nx};
  sh->st.switches++;
  ilh = mix(ilh, ((u64)t->id << 56) ^ ((u64)t->op << 40) ^ t->opstep ^ ((u64)nx << 60));
  ev(ilh);
  fwake(&tasks[nx].go);
}
static void wait_turn(Task *t) { fwait(&t->go); }

static void dump_blocked(std::string &s) {
  for (int i = grp_first; i < ntasks; i++)
    if (tasks[i].state == T_BLOCKED || tasks[i].state == T_STALLED) {
      char b[96];
      snprintf(b, sizeof b, " task %d %s in operation %d;", i, tasks[i].state == T_STALLED ? "stalled" : "blocked", tasks[i].op);
      s += b;
    }
}
// the current task cannot go on (blocked, stalled or done): give the token away
static void leave_cpu(Task *t, bool comes_back) {
  for (;;) {
    bool rec;
    int nx = pick(t, true, &rec);
    if (nx < 0) {
      // nobody can run: wake timed waiters, then stalled tasks that are to resume
      for (int i = grp_first; i < ntasks && nx < 0; i++)
        if (tasks[i].state == T_BLOCKED && tasks[i].wait_timed) { tasks[i].wait_timedout = 1; tasks[i].state = T_READY; nx = i; }
      if (nx < 0) {
        bool blocked = false;
        for (int i = grp_first; i < ntasks; i++) if (tasks[i].state == T_BLOCKED) blocked = true;
        if (blocked) {
          std::string s;
          dump_blocked(s);
          int sp = t->in_lib;
          (void)sp;
          violation("blocked", "no task can make progress:%s", s.c_str());
        }
        for (int i = grp_first; i < ntasks && nx < 0; i++)
          if (tasks[i].state == T_STALLED && tasks[i].stall_resume) { tasks[i].state = T_READY; nx = i; }
      }
      if (nx < 0) { // everything is done, or abandoned for good
        fwake(&main_go);
        if (!comes_back) return;
        for (;;) pause();
      }
    }
    if (nx == t->id) return;
    handoff(t, nx);
    if (!comes_back) return;
    wait_turn(t);
    return;
  }
}
static void slow(Task *t) {
  check_pending_write();
  if (t->opstep >= sc.budget) violation("hang", "operation did not return within %llu steps", (unsigned long long)sc.budget);
  for (auto &p : sc.crash)
    if (p.task == t->id && p.op == t->op && p.step == t->opstep) {
      sh->st.crashes++;
      t->in_lib = 0;
      ev(0xDEAD);
      sh->v_task = t->id;
      sh->v_op = t->op;
      finish_child(O_CRASHPOINT);
    }
  for (auto &p : sc.stalls)
    if (p.task == t->id && p.op == t->op && p.step == t->opstep) {
      if (t->guard_depth > 0) { p.step++; rearm(t); return; } // not inside one-time initialisation
      sh->st.stalls++;
      t->state = T_STALLED;
      t->stall_resume = p.arg;
      leave_cpu(t, true);
      rearm(t);
      return;
    }
  if (sc.policy == P_RANDOM || sc.policy == P_LIST || sc.policy == P_PCT) {
    if (sc.policy == P_PCT && t->rq_at == t->opstep && t->rq_at) { // priority change point
      if (srng.below(2)) t->prio = srng.below(1000);
    }
    bool rec;
    int nx = pick(t, false, &rec);
    draw_quantum(t);
    if (nx >= 0 && nx != t->id) { handoff(t, nx); wait_turn(t); }
  }
  rearm(t);
}
// an access that looks shared: a good place to switch
static void target(Task *t) {
  sh->st.foreign++;
  if (sc.policy != P_TARGET || !multi) return;
  if (!srng.chance(sc.ptarget)) return;
  bool rec;
  int nx = pick(t, false, &rec);
  if (nx >= 0 && nx != t->id) { handoff(t, nx); wait_turn(t); rearm(t); }
}
// thread-local objects of the library die with the task, inside the simulation
static void end_tls(Task *t) {
  while (t->tls && !t->tls->empty()) {
    Task::TlsEnd d = t->tls->back();
    t->tls->pop_back();
    t->fault = Fault();
    t->in_lib = 1;
    d.f(d.o);
    check_pending_write();
    t->in_lib = 0;
  }
}
// the random number the compiler's stack protector uses, in the thread control block, is left all over the stack
static inline u64 canary(u64 v) {
  u64 o;
  __asm__ volatile("mov %%fs:0x28, %0\n\tmov %1, %%fs:0x28" : "=&r"(o) : "r"(v) : "memory");
  return o;
}
__attribute__((optimize("no-stack-protector"))) static void *thread_main(void *p) {
  u64 old = canary(0x5AC3F1E7B6D49200ull);
  Task *t = (Task *)p;
  cur = t;
  wait_turn(t);
  t->fn(t->id, t->arg);
  t->in_lib = 0;
  check_pending_write();
  end_tls(t);
  t->state = T_DONE;
  t->vc[t->id]++;
  for (int i = 0; i < MAXT; i++) if (t->vc[i] > tasks[0].vc[i]) tasks[0].vc[i] = t->vc[i]; // join edge to main
  leave_cpu(t, false);
  canary(old);
  return nullptr;
}
static const size_t STK = 8u << 20;
typedef int (*pj_t)(pthread_t, void **);
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
template <class T> static T real(const char *name) {
  static_assert(sizeof(T) == sizeof(void *), "");
  void *p = dlsym(RTLD_NEXT, name);
  T f;
  memcpy(&f, &p, sizeof f);
  return f;
}
static void start_thread(Task *t, void *(*f)(void *)) {
  static pc_t rc = real<pc_t>("pthread_create");
  if (t->started) infra("task %d of the previous group still exists", t->id);
  static char *stacks[MAXT];
  char *&s = stacks[t->id];
  if (!s) s = (char *)mmap((void *)(0x300000000000ull + (u64)t->id * (STK * 4)), STK, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (s == MAP_FAILED) infra("no stack for task %d", t->id);
  t->stk_lo = (uintptr_t)s;
  t->stk_hi = (uintptr_t)s + STK;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, s, STK);
  if (rc(&t->th, &a, f, t)) infra("pthread_create");
  t->started = 1;
  pthread_attr_destroy(&a);
}
void proc_begin(const MemCfg &m, const SchedCfg &s, const EnvCfg &e) {
  arena_init();
  mc = m;
  sc = s;
  ec = e;
  srng = Rng(s.seed ^ 0x5EED);
  erng = Rng(e.seed ^ 0xE4F);
  bump += (m.shift + 15) & ~15ull;
  if (m.paint) fill_mem(wipe_with, sizeof wipe_with);
  else memset(wipe_with, 0, sizeof wipe_with);
  multi = s.race != 0;
  evh = ilh = 0;
  cur = &tasks[0];
  tasks[0].id = 0;
  tasks[0].state = T_DONE;
  tasks[0].vc[0] = 1;
  ntasks = 1;
  struct rlimit rl = {30, 32};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit nc = {0, 0};
  setrlimit(RLIMIT_CORE, &nc);
  alarm(240);
}
void run_tasks(int first, int last, TaskFn fn, void *arg) {
  grp_first = first;
  grp_last = last;
  for (int i = first; i <= last; i++) {
    Task *t = &tasks[i];
    t->id = i;
    t->state = T_READY;
    t->fn = fn;
    t->arg = arg;
    memcpy(t->vc, tasks[0].vc, sizeof t->vc);
    t->vc[i]++;
    t->prio = srng.below(1000);
    t->op = -1;
    t->next_at = ~0ull;
  }
  tasks[0].vc[0]++;
  ntasks = last + 1;
  for (int i = first; i <= last; i++) start_thread(&tasks[i], thread_main);
  sim_on = true;
  int ids[MAXT], n = runnable(ids);
  int nx = ids[0];
  Task m0;
  m0.id = 0; m0.op = first; m0.opstep = 0;
  if (sc.policy == P_LIST) {
    for (auto &s : sc.list) if (s.task == 0 && s.op == first && tasks[s.next].state == T_READY) { nx = s.next; break; }
  } else if (sc.policy != P_SERIAL) nx = ids[srng.below((u64)n)];
  if (sh->nsw < MAXSW) sh->sw[sh->nsw++] = Switch{0, first, 0, nx};
  ilh = mix(ilh, (u64)nx);
  fwake(&tasks[nx].go);
  fwait(&main_go);
  sim_on = false;
  cur = &tasks[0];
  static pj_t rj = real<pj_t>("pthread_join");
  for (int i = 1; i < ntasks; i++) // their stacks are used again by the next group
    if (tasks[i].state == T_DONE && tasks[i].started) { rj(tasks[i].th, nullptr); tasks[i].started = 0; }
}
void op_begin(int op, const Fault &f) {
  Task *t = cur;
  if (op != t->op) {
    t->op = op;
    t->opstep = 0;
    t->allocs_op = 0;
    t->maxalloc_op = 0;
    sh->v_task = t->id;
    sh->v_op = op;
    if (sc.policy == P_RANDOM || sc.policy == P_PCT) draw_quantum(t);
    rearm(t);
    // operation boundaries are scheduling points of their own (step 0)
    if (multi && sim_on) {
      bool rec;
      int nx = t->id;
      if (sc.policy == P_LIST || srng.chance(0.3)) nx = pick(t, false, &rec);
      if (nx >= 0 && nx != t->id) { handoff(t, nx); wait_turn(t); sh->v_task = t->id; sh->v_op = op; }
    }
  }
  t->fault = f;
  t->attempt_allocs = 0;
  t->size_hits = 0;
  t->fhits = 0;
  t->limit_base = live_lib;
  ev(((u64)t->id << 32) ^ (u64)op);
}
void op_end() {
  Task *t = cur;
  check_pending_write();
  if (t->op >= 0 && t->op < MAXOPS && t->id < MAXT) {
    sh->opsteps[t->id][t->op] = t->opstep;
    sh->opallocs[t->id][t->op] = (u32)t->allocs_op;
    sh->opmax[t->id][t->op] = t->maxalloc_op;
    if (t->fhits) sh->opfail[t->id][t->op]++;
  }
  sh->st.steps = 0;
  for (int i = 1; i < ntasks; i++) sh->st.steps += tasks[i].steps;
  t->fault = Fault();
  ev(t->opstep);
}
void restart_ops() { cur->op = -1; }
void enter_lib() { cur->in_lib = 1; cur->nfr = 0; }
void leave_lib() { check_pending_write(); cur->in_lib = 0; }
bool in_task() { return cur && cur->id > 0; }
u64 fault_hits() { return cur->fhits; }
int current_task() { return cur ? cur->id : 0; }
HarnessScope::HarnessScope() { save = cur ? cur->in_lib : 0; if (cur) cur->in_lib = 0; }
HarnessScope::~HarnessScope() { if (cur) { cur->in_lib = save; wiped(); } }
ArenaScope::ArenaScope() { if (!cur) cur = &tasks[0]; save = cur->arena_on; cur->arena_on = 1; }
ArenaScope::~ArenaScope() { cur->arena_on = save; }

// =========================================================================================================
// happens-before race detection
struct SyncVar { u32 vc[MAXT]; };
static std::map<uintptr_t, SyncVar> *syncs;
static SyncVar fence_vc;
static void acquire_vc(const u32 *v) { for (int i = 0; i < MAXT; i++) if (v[i] > cur->vc[i]) cur->vc[i] = v[i]; }
static void release_vc(u32 *v) {
  for (int i = 0; i < MAXT; i++) if (cur->vc[i] > v[i]) v[i] = cur->vc[i];
  cur->vc[cur->id]++;
}
static void sync_on(const void *a, bool acq, bool rel) {
  if (!cur) return;
  if (!syncs) syncs = new std::map<uintptr_t, SyncVar>();
  SyncVar &s = (*syncs)[(uintptr_t)a];
  if (acq) acquire_vc(s.vc);
  if (rel) release_vc(s.vc);
}
void sync_point(const void *token, bool acq, bool rel) { HarnessScope hs; sync_on(token, acq, rel); }

static void race_report(uintptr_t a, bool w, u32 pc, int other, bool ow, u32 opc, bool isfree) {
  std::string m1 = symbolise(pc), m2 = opc ? symbolise(opc) : std::string("(allocation)");
  violation("race", "unsynchronised %s by task %d at %s conflicts with earlier %s by task %d at %s (%s memory)",
            isfree ? "free" : w ? "write" : "read", cur->id, m1.c_str(), ow ? "write" : "read", other, m2.c_str(),
            in_arena(a) ? "heap" : "static");
}
static void race_access(uintptr_t a, size_t n, bool w, u32 pc, bool isfree) {
  Task *t = cur;
  int me = t->id;
  u32 now = t->vc[me];
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~7ull;
    uintptr_t ge = g + 8 < e ? g + 8 : e;
    u8 mask = (u8)(((1u << (ge - a)) - 1) << (a - g));
    Cell *c = cells_of(g);
    mask &= (u8)~c->ex;
    if (mask) {
      if ((c->wmask & mask) && c->wtask != me && c->wclk > t->vc[c->wtask]) race_report(a, w, pc, c->wtask, true, c->wpc, isfree);
      if (w) {
        for (int i = 0; i < RS; i++)
          if (c->rtask[i] != me && (c->rmask[i] & mask) && c->rclk[i] > t->vc[c->rtask[i]]) race_report(a, w, pc, c->rtask[i], false, c->rpc, isfree);
        if (c->wtask == me && c->wclk == now) c->wmask |= mask;
        else { c->wtask = (u8)me; c->wclk = now; c->wmask = mask; }
        c->wpc = pc;
      } else {
        int k = me % RS;
        if (c->rclk[k] == now && c->rtask[k] == me) c->rmask[k] |= mask;
        else { c->rclk[k] = now; c->rtask[k] = (u8)me; c->rmask[k] = mask; }
        c->rpc = pc;
      }
    }
    a = ge;
  }
}
void exempt_race(const void *p, size_t n) {
  for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++)
    if (in_arena(a) || in_glob(a)) cells_of(a & ~7ull)->ex |= (u16)(1u << (a & 7));
}
void freeze(const void *p, size_t n, bool on) {
  for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++) {
    u8 *f = in_arena(a) ? FRZ + ((a - AB) >> 3) : in_glob(a) ? gfrz + ((a - GB) >> 3) : nullptr;
    if (!f) continue;
    if (on) *f |= (u8)(1u << (a & 7));
    else *f &= (u8)~(1u << (a & 7));
  }
}
void check_pending_write() {
  Task *t = cur;
  if (!t || !t->pw_len) return;
  u32 n = t->pw_len;
  t->pw_len = 0;
  for (u32 i = 0; i < n; i++) {
    uintptr_t a = t->pw_addr + i;
    u8 *f = in_arena(a) ? FRZ + ((a - AB) >> 3) : gfrz + ((a - GB) >> 3);
    if ((*f >> (a & 7) & 1) && *(u8 *)a != t->pw_old[i])
      violation("input-modified", "library changed a byte of its input (%s)", symbolise(t->pw_pc).c_str());
  }
}
static void frozen_write(Task *t, uintptr_t a, size_t n, u32 pc) {
  while (n) {
    size_t k = n > sizeof t->pw_old ? sizeof t->pw_old : n;
    bool any = false;
    for (size_t i = 0; i < k && !any; i++) {
      uintptr_t x = a + i;
      u8 f = in_arena(x) ? FRZ[(x - AB) >> 3] : gfrz[(x - GB) >> 3];
      any = f >> (x & 7) & 1;
    }
    if (any) {
      if (n > sizeof t->pw_old) { // too long to watch piecewise: report the overwrite itself if it changes anything is unknown
        t->pw_addr = a; t->pw_len = (u32)k; t->pw_pc = pc; memcpy(t->pw_old, (void *)a, k);
        return;
      }
      t->pw_addr = a;
      t->pw_len = (u32)k;
      t->pw_pc = pc;
      memcpy(t->pw_old, (void *)a, k);
      return;
    }
    a += k;
    n -= k;
  }
}
static void mem_error(uintptr_t a, size_t n, bool w, u32 pc) {
  u8 k = SHV[(a - AB) >> 3];
  violation("memory", "%s of %zu bytes at %s memory (%s)", w ? "write" : "read", n, k == 0xFD ? "freed" : "unallocated/out-of-bounds",
            symbolise(pc).c_str());
}
static inline void access(uintptr_t a, size_t n, bool w, void *pcv) {
  Task *t = cur;
  if (!t || !t->in_lib) return;
  if (a - t->stk_lo < STK) return;
  u32 pc = (u32)(uintptr_t)pcv;
  bool ar = in_arena(a);
  if (!ar && !in_glob(a)) return;
  if (t->pw_len) check_pending_write();
  step(t);
  if (ar) {
    uintptr_t x = a, e = a + n;
    while (x < e) {
      uintptr_t g = x & ~7ull;
      uintptr_t ge = g + 8 < e ? g + 8 : e;
      u8 k = SHV[(x - AB) >> 3];
      if (k > 8 || ge - g > k) mem_error(x, n, w, pc);
      x = ge;
    }
    if (multi && w && sc.policy == P_TARGET) {
      Cell *c = cells_of(a & ~7ull);
      if (c->wtask != t->id) target(t);
    }
  } else {
    if (w || multi) { ev(a); target(t); }
  }
  if (multi) race_access(a, n, w, pc, false);
  if (w) {
    u8 f = 0;
    if (n <= 8) f = ar ? (FRZ[(a - AB) >> 3] | FRZ[(a + n - 1 - AB) >> 3]) : (gfrz[(a - GB) >> 3] | gfrz[(a + n - 1 - GB) >> 3]);
    else f = 1;
    if (f) frozen_write(t, a, n, pc);
    evh += a * 0x9E3779B97F4A7C15ull + (u64)n;
  }
}

static volatile u64 paint_sink;
__attribute__((noinline)) void paint_stack() {
  // what the simulator itself left on the stack is never visible to the library: zeros, or the fill of this run
  u8 buf[96 * 1024];
  if (mc.paint) fill_mem(buf, sizeof buf);
  else memset(buf, 0, sizeof buf);
  paint_sink = buf[(size_t)(mc.fillseed % sizeof buf)];
  __asm__ volatile("" : : "r"(buf) : "memory");
}

// =========================================================================================================
// output device
struct Dev : std::streambuf {
  std::string log;
  DevCfg cfg;
  u64 taken = 0;
  bool fired = false;
  std::streamsize put(const char *s, std::streamsize n) {
    HarnessScope hs;
    if (log.size() > (8u << 20)) return n;
    if (cfg.mode == D_OK || cfg.mode == D_SYNCFAIL) { log.append(s, (size_t)n); taken += (u64)n; return n; }
    if (taken + (u64)n <= cfg.at) { log.append(s, (size_t)n); taken += (u64)n; return n; }
    fired = true;
    sh->st.dev_faults++;
    std::streamsize k = cfg.mode == D_SHORT_AT ? (std::streamsize)(cfg.at > taken ? cfg.at - taken : 0) : 0;
    log.append(s, (size_t)k);
    taken += (u64)k;
    if (cfg.mode == D_SHORT_AT) cfg.at = taken; // the device stays full
    else cfg.at = 0;
    return -1 - k;
  }
  struct Broken {};
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::streamsize r = put(s, n);
    if (r < 0) {
      if (cfg.mode == D_THROW_AT) throw Broken();
      return -1 - r;
    }
    return r;
  }
  int overflow(int c) override {
    if (c == EOF) return 0;
    char ch = (char)c;
    std::streamsize r = put(&ch, 1);
    if (r < 0) {
      if (cfg.mode == D_THROW_AT) throw Broken();
      return EOF;
    }
    return c;
  }
  int sync() override {
    if (cfg.mode == D_SYNCFAIL && taken >= cfg.at) { fired = true; sh->st.dev_faults++; return -1; }
    return 0;
  }
};
static Dev *dout, *derr;
void dev_install() {
  dout = new Dev;
  derr = new Dev;
  std::cout.rdbuf(dout);
  std::cerr.rdbuf(derr);
  std::clog.rdbuf(derr);
}
void dev_op_begin(const DevCfg &d) {
  dout->log.clear();
  derr->log.clear();
  dout->cfg = d;
  dout->taken = derr->taken = 0;
  dout->fired = derr->fired = false;
  derr->cfg = DevCfg();
  std::cout.exceptions(std::ios::goodbit);
  std::cout.clear();
  std::cerr.clear();
  if (d.exc) std::cout.exceptions(std::ios::badbit | std::ios::failbit);
}
const std::string &dev_out() { return dout->log; }
const std::string &dev_err() { return derr->log; }
bool dev_fault_fired() { return dout->fired; }

u64 env_signature() {
  u64 h = 0;
  for (std::ios *o : {(std::ios *)&std::cout, (std::ios *)&std::cerr, (std::ios *)&std::clog, (std::ios *)&std::cin})
    for (u64 v : {(u64)o->flags(), (u64)o->precision(), (u64)o->width(), (u64)o->fill(), (u64)o->exceptions(), (u64)(uintptr_t)o->tie(), (u64)(uintptr_t)o->rdbuf(),
                  hash_bytes(o->getloc().name().data(), o->getloc().name().size())})
      h = mix(h, v);
  char tn[20] = "";
  prctl(PR_GET_NAME, tn);
  h = mix(h, hash_bytes(tn, strnlen(tn, 16)));
  sigset_t ss;
  pthread_sigmask(SIG_BLOCK, nullptr, &ss);
  for (int i = 1; i < 32; i++) h = mix(h, (u64)sigismember(&ss, i));
  struct itimerval it;
  getitimer(ITIMER_REAL, &it);
  h = mix(h, it.it_value.tv_sec || it.it_value.tv_usec);
  unsigned short x87;
  __asm__ volatile("fnstcw %0" : "=m"(x87));
  h = mix(h, x87);
  for (int k : {RLIMIT_AS, RLIMIT_STACK, RLIMIT_CORE, RLIMIT_DATA, RLIMIT_NOFILE, RLIMIT_FSIZE}) {
    struct rlimit rl;
    getrlimit((__rlimit_resource_t)k, &rl);
    h = mix(mix(h, rl.rlim_cur), rl.rlim_max);
  }
  h = mix(h, (u64)fegetround());
  h = mix(h, (u64)(_mm_getcsr() & ~0x3Fu)); // control bits, not the sticky exception flags
  h = mix(h, hash_bytes(setlocale(LC_ALL, nullptr), strlen(setlocale(LC_ALL, nullptr))));
  std::string ln = std::locale().name();
  h = mix(h, hash_bytes(ln.data(), ln.size()));
  for (char **e = environ; e && *e; e++) h = mix(h, hash_bytes(*e, strlen(*e)));
  char cwd[512];
  if (getcwd(cwd, sizeof cwd)) h = mix(h, hash_bytes(cwd, strlen(cwd)));
  mode_t um = umask(022);
  umask(um);
  h = mix(h, um);
  for (int s : {SIGINT, SIGTERM, SIGFPE, SIGSEGV, SIGABRT, SIGPIPE, SIGALRM, SIGUSR1, SIGUSR2, SIGBUS, SIGILL, SIGHUP, SIGQUIT, SIGCHLD, SIGXCPU}) {
    struct sigaction sa;
    sigaction(s, nullptr, &sa);
    h = mix(h, (u64)(uintptr_t)sa.sa_handler);
  }
  h = mix(h, (u64)(uintptr_t)std::get_new_handler());
  h = mix(h, (u64)(uintptr_t)std::get_terminate());
  for (int fd = 0; fd < 64; fd++) h = mix(h, fcntl(fd, F_GETFD) >= 0 ? 1 : 0);
  for (int fd = 0; fd < 3; fd++) {
    struct stat st;
    memset((void *)&st, 0, sizeof st);
    if (fstat(fd, &st) == 0) h = mix(mix(h, (u64)st.st_dev), (u64)st.st_ino);
  }
  h = mix(h, (u64)getpriority(PRIO_PROCESS, 0));
  return h;
}

} // namespace rt

using namespace rt;

// ---- main() begins: called first thing by the driver
namespace rt { void mark_started(); }
void rt::mark_started() { started = true; }
void finish_ok() { finish_child(O_OK); }

// =========================================================================================================
// allocation entry points
void *operator new(size_t n) { return new_impl(n, 16, false); }
void *operator new[](size_t n) { return new_impl(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_impl(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_impl(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_impl(n, (size_t)a, true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_impl(n, (size_t)a, true); }
#define PC __builtin_return_address(0)
void operator delete(void *p) noexcept { del_impl(p, PC); }
void operator delete[](void *p) noexcept { del_impl(p, PC); }
void operator delete(void *p, size_t) noexcept { del_impl(p, PC); }
void operator delete[](void *p, size_t) noexcept { del_impl(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del_impl(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del_impl(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { del_impl(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { del_impl(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { del_impl(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { del_impl(p, PC); }

extern "C" {
// library objects are relinked to these (objcopy --redefine-sym)
void *sim_malloc(size_t n) { return !started ? arena_alloc(n, false, 16) : cur && cur->in_lib ? lib_alloc(n, 16) : malloc(n); }
void sim_free(void *p) { if (p) { if (in_arena((uintptr_t)p)) { if (cur && cur->in_lib) step(cur); arena_free(p, (u32)(uintptr_t)PC); } else free(p); } }
void *sim_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void *p = sim_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  if (!in_arena((uintptr_t)p)) return realloc(p, n);
  void *q = sim_malloc(n);
  if (!q) return nullptr;
  u32 old = ((Hdr *)p - 1)->size;
  memcpy(q, p, old < n ? old : n);
  sim_free(p);
  return q;
}
void *sim_aligned_alloc(size_t al, size_t n) { return cur && cur->in_lib ? lib_alloc(n, al) : aligned_alloc(al, n); }
int sim_posix_memalign(void **o, size_t al, size_t n) {
  void *p = sim_aligned_alloc(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
char *sim_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
void *sim_memcpy(void *d, const void *s, size_t n) {
  if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
  return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) {
  if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
  return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
  if (n) access((uintptr_t)d, n, true, PC);
  return memset(d, c, n);
}
int sim_memcmp(const void *a, const void *b, size_t n) {
  if (n) { access((uintptr_t)a, n, false, PC); access((uintptr_t)b, n, false, PC); }
  return memcmp(a, b, n);
}

// ---- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {
  Task *t = cur;
  if (!t || !t->in_lib || !sh) return;
  if (sc.record) enter_fn(t, (uintptr_t)PC, (uintptr_t)__builtin_frame_address(0));
  wipe_top();
}
void __tsan_func_exit() {
  Task *t = cur;
  if (t && t->in_lib && t->nfr > 0) t->nfr--;
}
#define RW(sz)                                                                  \
  void __tsan_read##sz(void *a) { access((uintptr_t)a, sz, false, PC); }        \
  void __tsan_write##sz(void *a) { access((uintptr_t)a, sz, true, PC); }        \
  void __tsan_unaligned_read##sz(void *a) { access((uintptr_t)a, sz, false, PC); } \
  void __tsan_unaligned_write##sz(void *a) { access((uintptr_t)a, sz, true, PC); } \
  void __tsan_volatile_read##sz(void *a) { access((uintptr_t)a, sz, false, PC); } \
  void __tsan_volatile_write##sz(void *a) { access((uintptr_t)a, sz, true, PC); } \
  void __tsan_unaligned_volatile_read##sz(void *a) { access((uintptr_t)a, sz, false, PC); } \
  void __tsan_unaligned_volatile_write##sz(void *a) { access((uintptr_t)a, sz, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }

static void at_pre(void *a, size_t n, bool w) {
  Task *t = cur;
  if (!t || !t->in_lib) return;
  check_pending_write();
  step(t);
  sh->st.sync_ops++;
  sync_ctx(t, (u64)w);
  if (in_arena((uintptr_t)a)) {
    u8 k = SHV[((uintptr_t)a - AB) >> 3];
    if (k > 8 || ((uintptr_t)a & 7) + n > k) mem_error((uintptr_t)a, n, w, (u32)(uintptr_t)PC);
  }
  ev((u64)w);
  target(t);
}
static void at_post(void *a, int mo, bool r, bool w) {
  Task *t = cur;
  if (!t || !t->in_lib || !multi) return;
  bool acq = r && (mo == 1 || mo == 2 || mo == 4 || mo == 5), rel = w && (mo == 3 || mo == 4 || mo == 5);
  if (!acq && !rel) return;
  HarnessScope hs;
  sync_on(a, acq, rel);
}
#define AT(bits, T)                                                                                             \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                   \
    at_pre((void *)a, sizeof(T), false);                                                                        \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                 \
    at_post((void *)a, mo, true, false);                                                                        \
    return v;                                                                                                   \
  }                                                                                                             \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                                \
    at_pre((void *)a, sizeof(T), true);                                                                         \
    at_post((void *)a, mo, false, true);                                                                        \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                             \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                \
    at_pre((void *)a, sizeof(T), true);                                                                         \
    T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                          \
    at_post((void *)a, mo, true, true);                                                                         \
    return r;                                                                                                   \
  }                                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) {                    \
    at_pre((void *)a, sizeof(T), true);                                                                         \
    bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
    at_post((void *)a, mo, true, r);                                                                            \
    return r;                                                                                                   \
  }                                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) {                    \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, f);                                       \
  }                                                                                                             \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) {                        \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, f);                                             \
    return c;                                                                                                   \
  }
#define AF(bits, T, name, fn)                                                                                   \
  T __tsan_atomic##bits##_fetch_##name(volatile T *a, T v, int mo) {                                            \
    at_pre((void *)a, sizeof(T), true);                                                                         \
    T r = fn(a, v, __ATOMIC_SEQ_CST);                                                                           \
    at_post((void *)a, mo, true, true);                                                                         \
    return r;                                                                                                   \
  }
#define ATALL(bits, T)                                                                                          \
  AT(bits, T) AF(bits, T, add, __atomic_fetch_add) AF(bits, T, sub, __atomic_fetch_sub)                         \
  AF(bits, T, and, __atomic_fetch_and) AF(bits, T, or, __atomic_fetch_or) AF(bits, T, xor, __atomic_fetch_xor)  \
  AF(bits, T, nand, __atomic_fetch_nand)
ATALL(8, u8) ATALL(16, u16) ATALL(32, u32) ATALL(64, u64)
void __tsan_atomic_thread_fence(int) {
  if (cur && cur->in_lib) {
    step(cur);
    acquire_vc(fence_vc.vc);
    release_vc(fence_vc.vc);
  }
}
void __tsan_atomic_signal_fence(int) {}

// ---- one-time initialisation of function-local statics
static void block_on(const void *a, bool timed = false) {
  Task *t = cur;
  t->wait_on = a;
  t->wait_timed = timed;
  t->wait_timedout = 0;
  t->state = T_BLOCKED;
  leave_cpu(t, true);
  rearm(t);
}
static void wake_all(const void *a, int max = 1 << 30) {
  for (int i = 1; i < ntasks && max > 0; i++)
    if (tasks[i].state == T_BLOCKED && tasks[i].wait_on == a) { tasks[i].state = T_READY; tasks[i].wait_on = nullptr; max--; }
}
int __cxa_guard_acquire(long long int *g) {
  u8 *b = (u8 *)g;
  if (!cur || !cur->in_lib) {
    if (b[0]) return 0;
    if (b[1]) abort();
    b[1] = 1;
    return 1;
  }
  step(cur);
  sh->st.sync_ops++;
  target(cur);
  for (;;) {
    if (b[0]) { HarnessScope hs; sync_on(g, true, false); return 0; }
    if (!b[1]) { b[1] = (u8)(cur->id + 1); cur->guard_depth++; HarnessScope hs; sync_on(g, true, false); return 1; }
    if (b[1] == cur->id + 1) violation("hang", "recursive initialisation of a static object");
    block_on(g);
  }
}
void __cxa_guard_release(long long int *g) {
  u8 *b = (u8 *)g;
  if (cur && cur->in_lib) { HarnessScope hs; cur->guard_depth--; sync_on(g, false, true); }
  b[1] = 0;
  b[0] = 1;
  if (cur && sim_on) wake_all(g);
}
void __cxa_guard_abort(long long int *g) {
  u8 *b = (u8 *)g;
  // the failed attempt is ordered before the next one
  if (cur && cur->in_lib) { HarnessScope hs; cur->guard_depth--; sync_on(g, false, true); }
  b[1] = 0;
  if (cur && sim_on) wake_all(g);
}

// ---- locks. Real ones outside simulated tasks.
struct SimMutex { int owner = 0, count = 0; int readers = 0; };
static std::map<uintptr_t, SimMutex> *mtx;
static SimMutex &mx(const void *a) { if (!mtx) mtx = new std::map<uintptr_t, SimMutex>(); return (*mtx)[(uintptr_t)a]; }
static inline bool simctx() { return cur && cur->in_lib && sim_on; }
static int sim_lock(const void *m, bool recursive, bool tryl, bool shared) {
  Task *t = cur;
  check_pending_write();
  step(t);
  sh->st.sync_ops++;
  sync_ctx(t, 2);
  target(t);
  HarnessScope hs;
  SimMutex &s = mx(m);
  for (;;) {
    if (shared ? (s.owner == 0) : (s.owner == 0 && s.readers == 0)) break;
    if (s.owner == t->id && recursive) break;
    if (tryl) return EBUSY;
    block_on(m);
  }
  if (shared) s.readers++;
  else { s.owner = t->id; s.count++; }
  sync_on(m, true, false);
  return 0;
}
static int sim_unlock(const void *m) {
  step(cur);
  sh->st.sync_ops++;
  {
    HarnessScope hs;
    SimMutex &s = mx(m);
    sync_on(m, false, true);
    if (s.owner) { if (--s.count == 0) s.owner = 0; }
    else if (s.readers) s.readers--;
    if (!s.owner) wake_all(m);
  }
  target(cur);
  return 0;
}
#define REAL(ret, name, args) static auto r_##name = real<ret(*) args>(#name)
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (simctx()) return sim_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false, false);
  REAL(int, pthread_mutex_lock, (pthread_mutex_t *));
  return r_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (simctx()) return sim_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, false);
  REAL(int, pthread_mutex_trylock, (pthread_mutex_t *));
  return r_pthread_mutex_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (simctx()) return sim_unlock(m);
  REAL(int, pthread_mutex_unlock, (pthread_mutex_t *));
  return r_pthread_mutex_unlock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (simctx()) return sim_lock(m, false, false, true);
  REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *));
  return r_pthread_rwlock_rdlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (simctx()) return sim_lock(m, false, false, false);
  REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *));
  return r_pthread_rwlock_wrlock(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  if (simctx()) return sim_lock(m, false, true, true);
  REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *));
  return r_pthread_rwlock_tryrdlock(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
  if (simctx()) return sim_lock(m, false, true, false);
  REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *));
  return r_pthread_rwlock_trywrlock(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (simctx()) return sim_unlock(m);
  REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *));
  return r_pthread_rwlock_unlock(m);
}
int pthread_spin_lock(pthread_spinlock_t *m) {
  if (simctx()) return sim_lock((const void *)m, false, false, false);
  REAL(int, pthread_spin_lock, (pthread_spinlock_t *));
  return r_pthread_spin_lock(m);
}
int pthread_spin_unlock(pthread_spinlock_t *m) {
  if (simctx()) return sim_unlock((const void *)m);
  REAL(int, pthread_spin_unlock, (pthread_spinlock_t *));
  return r_pthread_spin_unlock(m);
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!simctx()) {
    REAL(int, pthread_once, (pthread_once_t *, void (*)(void)));
    return r_pthread_once(o, f);
  }
  Task *t = cur;
  step(t);
  sh->st.sync_ops++;
  target(t);
  for (;;) {
    if (*(volatile int *)o == 2) { HarnessScope hs; sync_on(o, true, false); return 0; }
    if (*(volatile int *)o == 0) break;
    block_on(o);
  }
  *(volatile int *)o = 1;
  { HarnessScope hs; sync_on(o, true, false); }
  t->guard_depth++;
  try { f(); } catch (...) {
    t->guard_depth--;
    { HarnessScope hs; sync_on(o, false, true); }
    *(volatile int *)o = 0;
    wake_all(o);
    throw;
  }
  t->guard_depth--;
  { HarnessScope hs; sync_on(o, false, true); }
  *(volatile int *)o = 2;
  wake_all(o);
  return 0;
}
static int sim_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  sim_unlock(m);
  { HarnessScope hs; sync_on(c, false, true); }
  block_on(c, timed);
  int to = cur->wait_timedout;
  sim_lock(m, false, false, false);
  HarnessScope hs;
  sync_on(c, true, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (simctx()) return sim_cond_wait(c, m, false);
  REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *));
  return r_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (simctx()) return sim_cond_wait(c, m, true);
  REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *));
  return r_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  if (simctx()) return sim_cond_wait(c, m, true);
  REAL(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *));
  return r_pthread_cond_clockwait(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (simctx()) { step(cur); { HarnessScope hs; sync_on(c, false, true); } wake_all(c, 1); target(cur); return 0; }
  REAL(int, pthread_cond_signal, (pthread_cond_t *));
  return r_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (simctx()) { step(cur); { HarnessScope hs; sync_on(c, false, true); } wake_all(c); target(cur); return 0; }
  REAL(int, pthread_cond_broadcast, (pthread_cond_t *));
  return r_pthread_cond_broadcast(c);
}
// threads the library starts itself become tasks
static void *dyn_main(void *p) {
  Task *t = (Task *)p;
  cur = t;
  wait_turn(t);
  t->in_lib = 1;
  t->dynret = t->dyn(t->dynarg);
  t->in_lib = 0;
  end_tls(t);
  t->state = T_DONE;
  { HarnessScope hs; sync_on(t, false, true); }
  wake_all(t);
  leave_cpu(t, false);
  return nullptr;
}
int __cxa_thread_atexit(void (*f)(void *), void *o, void *dso) noexcept {
  if (!cur || !cur->in_lib || cur->id == 0) {
    REAL(int, __cxa_thread_atexit_impl, (void (*)(void *), void *, void *));
    return r___cxa_thread_atexit_impl(f, o, dso);
  }
  HarnessScope hs;
  if (!cur->tls) cur->tls = new std::vector<Task::TlsEnd>();
  cur->tls->push_back({f, o});
  return 0;
}
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (!simctx()) {
    REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
    return r_pthread_create(th, a, f, arg);
  }
  int id = -1;
  if (ntasks < MAXT) id = ntasks;
  for (int i = grp_last + 1; i < ntasks && id < 0; i++) if (tasks[i].dyn && tasks[i].state == T_DONE && tasks[i].joined) id = i; // used again
  if (cur->in_lib && fault_now(cur, STK)) return EAGAIN; // no memory for the stack
  if (id < 0) return EAGAIN;
  HarnessScope hs;
  Task *t = &tasks[id];
  u32 old_clock = id < ntasks ? t->vc[id] : 0;
  if (id < ntasks && t->started) { static pj_t rj = real<pj_t>("pthread_join"); rj(t->th, nullptr); }
  *t = Task();
  t->id = id;
  t->state = T_READY;
  t->dyn = f;
  t->dynarg = arg;
  t->op = cur->op;
  memcpy(t->vc, cur->vc, sizeof t->vc);
  if (t->vc[id] < old_clock) t->vc[id] = old_clock;
  t->vc[id]++;
  cur->vc[cur->id]++;
  t->next_at = sc.budget;
  if (id == ntasks) ntasks++;
  start_thread(t, dyn_main);
  *th = t->th;
  multi = true;
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (simctx()) {
    for (int i = 1; i < ntasks; i++)
      if (tasks[i].dyn && pthread_equal(tasks[i].th, th)) {
        Task *t = &tasks[i];
        while (t->state != T_DONE) block_on(t);
        HarnessScope hs;
        sync_on(t, true, false);
        if (ret) *ret = t->dynret;
        t->joined = true;
        return 0;
      }
  }
  REAL(int, pthread_join, (pthread_t, void **));
  return r_pthread_join(th, ret);
}
static int sim_yield() {
  step(cur);
  sh->st.sync_ops++;
  if (multi && sim_on) {
    bool rec;
    int nx = pick(cur, false, &rec);
    if (sc.policy == P_SERIAL || (sc.policy == P_LIST && nx == cur->id) || sc.policy == P_PCT) { // let somebody else go, or a spin never ends
      int ids[MAXT], n = runnable(ids);
      for (int i = 0; i < n; i++) if (ids[i] > cur->id) { nx = ids[i]; break; }
      if (nx == cur->id && n) nx = ids[0];
    }
    if (nx >= 0 && nx != cur->id) { Task *t = cur; handoff(t, nx); wait_turn(t); rearm(t); }
  }
  return 0;
}
int sched_yield() { return simctx() ? sim_yield() : (int)syscall(SYS_sched_yield); }
int nanosleep(const struct timespec *a, struct timespec *b) { return simctx() ? sim_yield() : (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (simctx()) return sim_yield();
  return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0;
}
int usleep(useconds_t u) {
  if (simctx()) return sim_yield();
  struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000};
  return (int)syscall(SYS_nanosleep, &t, nullptr);
}
unsigned sleep(unsigned s) {
  if (simctx()) { sim_yield(); return 0; }
  struct timespec t = {(time_t)s, 0};
  syscall(SYS_nanosleep, &t, nullptr);
  return 0;
}

// ---- environment, clocks, randomness, files: values the simulator chooses, only in library context
static inline bool libctx() { return cur && cur->in_lib; }
static u64 env_draw() { sh->st.env_reads++; return erng.next(); }
char *getenv(const char *name) {
  if (libctx()) {
    sh->st.env_reads++;
    static char buf[5][24] = {"", "1", "0", "x%s;\xff..", "12"};
    if (ec.getenv_mode == 0) return nullptr;
    return buf[ec.getenv_mode % 5];
  }
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
char *secure_getenv(const char *n) { return getenv(n); }
static u64 simclock_ns = 1700000000ull * 1000000000ull;
static u64 tick() {
  u64 d = env_draw();
  switch (d % 4) { case 0: simclock_ns += d >> 44; break; case 1: simclock_ns += d >> 20; break; case 2: simclock_ns -= d >> 34; break; default: break; }
  return simclock_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (libctx()) { u64 n = tick(); ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0; }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t *o) {
  time_t r;
  if (libctx()) r = (time_t)(tick() / 1000000000ull);
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
  if (o) *o = r;
  return r;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
clock_t clock() {
  if (libctx()) return (clock_t)(env_draw() >> 40);
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / 1000;
}
static u64 plain_rand = 1;
static bool reseeded = false;
int rand() { if (libctx()) return (int)(env_draw() & 0x7fffffff); plain_rand = mix(plain_rand, 7); return (int)(plain_rand & 0x7fffffff); }
void srand(unsigned) { if (libctx()) { sh->st.env_reads++; reseeded = true; } }
long random() { return rand(); }
void srandom(unsigned s) { srand(s); }
double drand48() { return rand() / 2147483648.0; }
long lrand48() { return rand(); }
void srand48(long s) { srand((unsigned)s); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (libctx()) { for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)env_draw(); return (ssize_t)n; }
  return syscall(SYS_getrandom, b, n, f);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid() { if (libctx()) return (pid_t)(env_draw() & 0x7fff); return (pid_t)syscall(SYS_getpid); }
pid_t getppid() { if (libctx()) return (pid_t)(env_draw() & 0x7fff); return (pid_t)syscall(SYS_getppid); }
uid_t getuid() { if (libctx()) return (uid_t)(env_draw() & 0xffff); return (uid_t)syscall(SYS_getuid); }
uid_t geteuid() { if (libctx()) return (uid_t)(env_draw() & 0xffff); return (uid_t)syscall(SYS_geteuid); }
int isatty(int fd) {
  if (libctx()) return (int)(env_draw() & 1);
  char b[64];
  return syscall(SYS_ioctl, fd, 0x5401 /* TCGETS */, b) == 0;
}
static void env_name(char *b, size_t n) { for (size_t i = 0; i + 1 < n && i < 12; i++) b[i] = (char)('a' + env_draw() % 26); b[n < 13 ? n - 1 : 12] = 0; }
int uname(struct utsname *u) {
  if (!libctx()) return (int)syscall(SYS_uname, u);
  memset(u, 0, sizeof *u);
  env_name(u->sysname, 20); env_name(u->nodename, 20); env_name(u->release, 20); env_name(u->version, 20); env_name(u->machine, 20);
  return 0;
}
int gethostname(char *b, size_t n) {
  if (libctx()) { if (n) env_name(b, n); return 0; }
  REAL(int, gethostname, (char *, size_t));
  return r_gethostname(b, n);
}
static int env_cpus() { u64 d = env_draw(); return d % 4 ? (int)(1 + d / 4 % 64) : (int)(65 + d / 4 % 960); }
long sysconf(int what) {
  if (libctx()) return what == _SC_PAGESIZE ? 4096 : (long)env_cpus();
  REAL(long, sysconf, (int));
  return r_sysconf(what);
}
int get_nprocs() { if (libctx()) return env_cpus(); REAL(int, get_nprocs, (void)); return r_get_nprocs(); }
static int sim_affinity(size_t n, cpu_set_t *c) {
  memset(c, 0, n);
  for (int k = env_cpus(); k > 0; k--) if ((size_t)k / 8 < n) ((u8 *)c)[k / 8] |= (u8)(1u << (k % 8));
  return 0;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *c) noexcept {
  if (libctx()) return sim_affinity(n, c);
  REAL(int, sched_getaffinity, (pid_t, size_t, cpu_set_t *));
  return r_sched_getaffinity(p, n, c);
}
int pthread_getaffinity_np(pthread_t p, size_t n, cpu_set_t *c) noexcept {
  if (libctx()) return sim_affinity(n, c);
  REAL(int, pthread_getaffinity_np, (pthread_t, size_t, cpu_set_t *));
  return r_pthread_getaffinity_np(p, n, c);
}
int sched_getcpu() { if (libctx()) return (int)(env_draw() % 64); REAL(int, sched_getcpu, (void)); return r_sched_getcpu(); }
int getrlimit(__rlimit_resource_t w, struct rlimit *r) {
  if (!libctx()) return (int)syscall(SYS_getrlimit, w, r);
  u64 d = env_draw();
  r->rlim_cur = d % 3 == 0 ? RLIM_INFINITY : d % 3 == 1 ? (d >> 8) % 1024 : d >> 34;
  r->rlim_max = RLIM_INFINITY;
  return 0;
}
int getrusage(__rusage_who_t w, struct rusage *r) {
  if (!libctx()) return (int)syscall(SYS_getrusage, w, r);
  for (size_t i = 0; i < sizeof *r / 8; i++) ((u64 *)r)[i] = env_draw() >> 40;
  return 0;
}
static int sim_open(int flags, bool *handled) {
  *handled = false;
  if (!libctx()) return -1;
  *handled = true;
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND))) {
    sh->st.files_written++;
    return (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0);
  }
  sh->st.files_read++;
  if (ec.files == 0) { errno = ENOENT; return -1; }
  int fd = (int)syscall(SYS_memfd_create, "junk", 0);
  char b[256];
  for (int i = 0; i < 256; i++) b[i] = (char)('0' + erng.below(10));
  if (fd >= 0) { ssize_t r = ::write(fd, b, 256); (void)r; lseek(fd, 0, SEEK_SET); }
  return fd;
}
int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  bool h;
  int fd = sim_open(flags, &h);
  return h ? fd : (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  bool h;
  int fd = sim_open(flags, &h);
  return h ? fd : (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
static FILE *sim_fopen(const char *mode, bool *h) {
  int fl = mode[0] == 'r' && !strchr(mode, '+') ? O_RDONLY : O_WRONLY | O_CREAT;
  int fd = sim_open(fl, h);
  if (!*h || fd < 0) return nullptr;
  HarnessScope hs;
  return fdopen(fd, fl == O_RDONLY ? "r" : "w");
}
FILE *fopen(const char *p, const char *mode) {
  bool h;
  FILE *f = sim_fopen(mode, &h);
  if (h) return f;
  REAL(FILE *, fopen, (const char *, const char *));
  return r_fopen(p, mode);
}
FILE *fopen64(const char *p, const char *mode) { return fopen(p, mode); }
int openat(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  bool h;
  int fd = sim_open(flags, &h);
  return h ? fd : (int)syscall(SYS_openat, d, p, flags, mode);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *tmpfile() {
  bool h;
  FILE *f = sim_fopen("w", &h);
  if (h) return f;
  REAL(FILE *, tmpfile, (void));
  return r_tmpfile();
}
int mkstemp(char *t) {
  bool h;
  int fd = sim_open(O_CREAT | O_WRONLY, &h);
  if (h) return fd;
  REAL(int, mkstemp, (char *));
  return r_mkstemp(t);
}
int mkdir(const char *p, mode_t m) noexcept {
  if (!libctx()) return (int)syscall(SYS_mkdir, p, m);
  sh->st.files_written++;
  errno = EACCES;
  return -1;
}
unsigned alarm(unsigned s) noexcept {
  if (libctx()) { sh->st.settings++; return 0; }
  REAL(unsigned, alarm, (unsigned));
  return r_alarm(s);
}
int setitimer(__itimer_which_t w, const struct itimerval *a, struct itimerval *o) noexcept {
  if (libctx()) { sh->st.settings++; return 0; }
  return (int)syscall(SYS_setitimer, w, a, o);
}
// what is there, where we are
int access(const char *p, int m) noexcept {
  if (!libctx()) return (int)syscall(SYS_access, p, m);
  if (env_draw() & 1) return 0;
  errno = ENOENT;
  return -1;
}
int stat(const char *p, struct stat *b) noexcept {
  if (!libctx()) return (int)syscall(SYS_stat, p, b);
  memset((void *)b, 0, sizeof *b);
  if (!(env_draw() & 1)) { errno = ENOENT; return -1; }
  b->st_mode = S_IFREG | 0644;
  b->st_size = (off_t)(env_draw() & 0xffff);
  b->st_mtime = (time_t)(env_draw() >> 34);
  return 0;
}
char *getcwd(char *b, size_t n) noexcept {
  if (!libctx() || !b || n < 16) { REAL(char *, getcwd, (char *, size_t)); return r_getcwd(b, n); }
  b[0] = '/';
  env_name(b + 1, n - 1);
  return b;
}
clock_t times(struct tms *t) noexcept {
  if (!libctx()) return (clock_t)syscall(SYS_times, t);
  if (t) t->tms_utime = t->tms_stime = t->tms_cutime = t->tms_cstime = (clock_t)(env_draw() >> 40);
  return (clock_t)(env_draw() >> 34);
}
} // extern "C"

unsigned int rd_getval(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
static unsigned int (*rd_real)(void *) = nullptr;
unsigned int rd_getval(void *self) {
  if (libctx()) return (unsigned)env_draw();
  if (!rd_real) { void *p = dlsym(RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv"); memcpy(&rd_real, &p, sizeof p); }
  return rd_real(self);
}
