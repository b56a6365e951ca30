// Simulator runtime: memory, scheduler, race detector, fault injection, interposed system interfaces.
// The library under test is compiled with -fsanitize=thread, but linked against this runtime in place of
// libtsan: every memory access of library code is a callback into the simulator.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace rt {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

struct Rng { // splitmix64: one integer decides everything
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
};

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull);

enum { MAXT = 40, MAXSW = 16384, MAXOPS = 12000 };

// ---- faults -------------------------------------------------------------------------------------------
enum FaultKind { F_NONE = 0, F_NTH, F_FROM, F_SIZE, F_LIMIT, F_NKINDS };
struct Fault {
  int kind = F_NONE;
  u64 n = 0;    // F_NTH/F_FROM: index (1-based) of the allocation in the attempt; F_SIZE: size threshold; F_LIMIT: extra live bytes
  u64 nth = 1;  // F_SIZE: the nth allocation that is at least that large
};

// ---- memory -------------------------------------------------------------------------------------------
enum ReuseMode { R_LIFO = 0, R_QUARANTINE, R_FRESH };
enum FillMode { FILL_CONST = 0, FILL_ZERO, FILL_FF, FILL_RANDOM, FILL_SMALLINT, FILL_DOUBLE, FILL_N };
struct MemCfg {
  int reuse = R_LIFO;
  int fill = FILL_CONST;
  u64 fillseed = 0;
  u64 shift = 0; // bytes skipped at the start of the arena: moves every later address
  int paint = 0; // paint the stack below every operation with the same fill
};

// ---- scheduling ---------------------------------------------------------------------------------------
struct Switch { // at operation `op`, step `step` of task `task`, the token goes to `next`
  int task;
  int op;
  u64 step;
  int next;
};
enum Policy { P_SERIAL = 0, P_LIST, P_RANDOM, P_TARGET, P_PCT };
struct PointAt { int task = -1, op = 0; u64 step = 0; int arg = 0; };
struct SchedCfg {
  int policy = P_SERIAL;
  u64 seed = 0;
  u64 mean = 200;       // P_RANDOM: mean quantum
  double ptarget = 0.3; // P_TARGET: chance of a switch at a shared-looking access
  int depth = 3;        // P_PCT: priority change points
  u64 pctlen = 20000;   // P_PCT: assumed length
  std::vector<Switch> list;
  std::vector<PointAt> stalls; // the task stops here; arg=1: resumed after the others are done, 0: abandoned
  std::vector<PointAt> crash;  // the process dies here
  u64 budget = 300000000ull;   // steps per operation before it counts as a hang
  int maxsw = 4000;
  int race = 0;      // race detection on
  int record = 0;    // 1: note the call contexts of allocations and function entries; 2: of failed allocations only
};

enum DevMode { D_OK = 0, D_FAIL_AT, D_SHORT_AT, D_THROW_AT, D_SYNCFAIL };
struct DevCfg {
  int mode = D_OK;
  u64 at = 0;  // bytes accepted before the fault, from the start of the operation
  int exc = 0; // the stream has exceptions(badbit) enabled
};

struct EnvCfg {
  u64 seed = 0;        // values of clocks, random sources, pids
  int getenv_mode = 0; // 0: nothing set; 1: every variable "1"; 2: "0"; 3: garbage; 4: numbers
  int files = 0;       // 0: opens for reading fail; 1: succeed with junk
};

struct Stats {
  u64 steps, allocs, frees, switches, faults[F_NKINDS], dev_faults, env_reads, stalls, crashes, sync_ops, foreign, throws,
      alloc_bytes, files_read, files_written, settings;
};

enum Outcome { O_NONE = 0, O_OK = 1, O_VIOL = 2, O_INFRA = 3, O_CRASHPOINT = 4, O_SKIP = 5 };
// A place in the execution: the calling context of an allocation or of a function entry. One occurrence of each is
// kept, chosen uniformly; faults, stalls and crash points are placed there (a rarely executed path is then as likely
// to be hit as a busy one).
struct CtxAt { u64 key; u64 step; u32 count, n; u16 task, op; u32 size; };
enum { NCTX = 8192, NSCTX = 1024 };
struct Shared { // shared between the worker and the simulated process
  volatile int outcome;
  char kind[64];
  char msg[4000];
  volatile int v_task, v_op;
  u64 evhash;
  u64 interleave; // hash of who ran when
  Stats st;
  int nsw;
  Switch sw[MAXSW];
  u64 opsteps[MAXT][MAXOPS];  // steps each operation took (for placing faults and crashes)
  u32 opallocs[MAXT][MAXOPS]; // allocations of each operation
  u32 opmax[MAXT][MAXOPS];    // largest single allocation
  u8 opfail[MAXT][MAXOPS];    // attempts that failed with the injected fault
  u64 probes[64];
  int ckpt_op; // last durable operation of task 1, -1 if none
  CtxAt actx[NCTX], fctx[NCTX], sctx[NSCTX]; // allocations, function entries, synchronisation
  u32 nactx, nfctx, nsctx;
  u64 failctx[64];
  u32 nfailctx;
  u64 durlen;
  u64 outlen;
};
extern Shared *sh;
void shared_init(); // maps sh
char *durable();
size_t durable_cap();
char *outarea();
size_t outarea_cap();

[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void toobig(const char *what); // the run does not fit into the simulator
[[noreturn]] void infra(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- the simulated process (called in a freshly forked child) -----------------------------------------
void proc_begin(const MemCfg &m, const SchedCfg &s, const EnvCfg &e);
typedef void (*TaskFn)(int id, void *arg);
// runs fn(id) for ids first..last as tasks under the scheduler until all are done (or stalled for ever)
void run_tasks(int first, int last, TaskFn fn, void *arg);

// per operation, called on a task thread
void op_begin(int op, const Fault &f);
void op_end();
void restart_ops(); // the history of the task starts over
void enter_lib(); // library context on: instrumentation, arena, faults
void leave_lib();
bool in_task();
u64 live_lib_bytes();
u64 fault_hits();  // injected failures since op_begin
int current_task();
void sync_point(const void *token, bool acquire, bool release); // harness-level hand-over between tasks

struct HarnessScope { // harness code called from library context
  int save;
  HarnessScope();
  ~HarnessScope();
};
struct ArenaScope { // harness allocations go to the arena (objects the library will see)
  int save;
  ArenaScope();
  ~ArenaScope();
};

// memory watch
void freeze(const void *p, size_t n, bool on);      // library writes that change these bytes are violations
void exempt_race(const void *p, size_t n);          // bytes left out of the race detector
void check_pending_write();
void paint_stack();
void wipe(); // the same for what the simulator left there during the operation

// device
void dev_install();
void dev_op_begin(const DevCfg &d); // forget the transcript, arm the fault, clear the stream states
const std::string &dev_out();
const std::string &dev_err();
bool dev_fault_fired();

void probe(int i);
u64 env_signature(); // process-wide settings the library must not change
std::string symbolise(u64 pc);
} // namespace rt
