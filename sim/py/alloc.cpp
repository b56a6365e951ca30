// Preloaded heap of the simulated Python process: every C++ allocation is made here, filled with seeded garbage, guarded, poisoned and
// held back when freed, and can be made to fail. While a call of the module runs without the interpreter lock, other simulated
// threads may be let in at an allocation. Decides nothing itself: all of it is armed by pysim.py through ctypes.
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
typedef unsigned char u8;
namespace {
struct Hd { uint64_t magic; uint64_t size; void *raw; Hd *next; uint64_t serial; uint64_t pad; };
const uint64_t LIVE = 0x51a11e5eed0b1a57ull, DEAD = 0xdeadb10cdeadb10cull;
const size_t RED = 32;
long live_bytes, live_blocks, seen, fired, errors_, fail_at, fail_n, switch_at, fail_min;
bool armed;
thread_local long depth; // inside functions of the library
thread_local bool mine;  // the thread whose call is watched
std::atomic_flag busy = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (busy.test_and_set()) sched_yield(); } ~Lock() { busy.clear(); } };
pthread_t guest; std::atomic<bool> guest_on{false};
uint64_t fill = 0xa5a5a5a5a5a5a5a5ull, serial;
Hd *qhead, *qtail; size_t qbytes; size_t qmax = 4u << 20;
char msg[256];
void (*hook)();
int (*gil_check)();
long unlocked, switched;
uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
void report(const char *what, size_t n, uint64_t ser) { if (!errors_++) snprintf(msg, sizeof msg, "%s (block %llu of %zu bytes)", what, (unsigned long long)ser, n); }
void put(u8 *p, size_t n, uint64_t seed) {
  if (!n) return;
  if (seed <= 255) { memset(p, (int)seed, n); return; }
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) v = seed = mix(seed); p[i] = (u8)(v >> (8 * (i % 8))); }
}
// Another Python thread comes in and does its work; the watched call goes on when it has finished or waits for something itself.
void *visit(void *) { hook(); return nullptr; }
void let_in() {
  if (pthread_create(&guest, nullptr, visit, nullptr)) return;
  switched++;
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 2;
  guest_on = pthread_timedjoin_np(guest, nullptr, &t) != 0;
  pthread_t w; // the two wait for each other for ever: a hang
  if (guest_on && !pthread_create(&w, nullptr, [](void *) -> void * { for (int i = 0; i < 100; i++) { struct timespec u = {0, 100000000}; nanosleep(&u, nullptr); if (!guest_on) return nullptr; } kill(getpid(), SIGXCPU); return nullptr; }, nullptr)) pthread_detach(w);
}
bool ok_dead(Hd *h) {
  u8 *p = (u8 *)(h + 1);
  for (size_t i = 0; i < h->size + RED; i++) if (p[i] != 0xdb) return false;
  return true;
}
void drop(Hd *h) { if (!ok_dead(h)) report("freed memory was written", h->size, h->serial); qbytes -= h->size; free(h->raw); }
void *get(size_t n, size_t al, bool nothrow) {
  if (armed && mine && depth > 0) {
    seen++;
    if (switch_at && seen >= switch_at && hook) {
      if (gil_check && !gil_check()) { unlocked++; switch_at = 0; let_in(); }
    }
    if (fail_at && (fail_n < 0 ? seen >= fail_at : seen >= fail_at && seen < fail_at + fail_n) && (long)n >= fail_min) {
      fired++;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  if (n > (size_t)1 << 34) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (al < 16) al = 16;
  void *raw = malloc(n + sizeof(Hd) + RED + al);
  if (!raw) abort();
  Lock l;
  u8 *p = (u8 *)(((uintptr_t)raw + sizeof(Hd) + al - 1) / al * al);
  Hd *h = (Hd *)p - 1;
  h->magic = LIVE; h->size = n; h->raw = raw; h->next = nullptr; h->serial = ++serial;
  put(p, n, fill <= 255 ? fill : mix(fill + serial));
  memset(p + n, 0xfd, RED);
  live_bytes += n; live_blocks++;
  return p;
}
void put_back(void *q) {
  if (!q) return;
  Lock l;
  Hd *h = (Hd *)q - 1;
  if (h->magic == DEAD) { report("freed twice", h->size, h->serial); return; }
  if (h->magic != LIVE) { report("freed something that was not allocated", 0, 0); return; }
  u8 *p = (u8 *)q;
  for (size_t i = 0; i < RED; i++) if (p[h->size + i] != 0xfd) { report("written past the end", h->size, h->serial); break; }
  h->magic = DEAD; live_bytes -= h->size; live_blocks--;
  memset(p, 0xdb, h->size + RED);
  if (qtail) qtail->next = h; else qhead = h;
  qtail = h; qbytes += h->size;
  while (qbytes > qmax && qhead != qtail) { Hd *o = qhead; qhead = o->next; drop(o); }
}
}
extern "C" {
void __cyg_profile_func_enter(void *, void *) { depth++; }
void __cyg_profile_func_exit(void *, void *) { depth--; }
void ps_arm(long at, long n, long min, long sw) { seen = fired = unlocked = switched = 0; fail_at = at; fail_n = n; fail_min = min; switch_at = sw; armed = mine = true; }
long ps_disarm() { armed = false; if (guest_on) { pthread_join(guest, nullptr); guest_on = false; } fail_at = switch_at = 0; return seen; }
long ps_fired() { return fired; }
long ps_switched() { return switched; }
long ps_live() { return live_bytes; }
long ps_blocks() { return live_blocks; }
long ps_bad() { return errors_; }
long ps_errors() { for (Hd *h = qhead; h; h = h->next) if (!ok_dead(h)) { report("freed memory was written", h->size, h->serial); put((u8 *)(h + 1), h->size + RED, 0xdb); } return errors_; }
const char *ps_message() { return msg; }
void ps_fill(unsigned long f) { fill = f; }
void ps_hook(void (*h)()) { hook = h; gil_check = (int (*)())dlsym(RTLD_DEFAULT, "PyGILState_Check"); }
}
void *operator new(size_t n) { return get(n, 16, false); }
void *operator new[](size_t n) { return get(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a, false); }
void operator delete(void *p) noexcept { put_back(p); }
void operator delete[](void *p) noexcept { put_back(p); }
void operator delete(void *p, size_t) noexcept { put_back(p); }
void operator delete[](void *p, size_t) noexcept { put_back(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put_back(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put_back(p); }
void operator delete(void *p, std::align_val_t) noexcept { put_back(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put_back(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put_back(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put_back(p); }
