// Plans: the complete description of one simulated execution. A plan file is the replay file of a violation.
#pragma once
#include "model.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>

using rt::u32;
using rt::u64;
using rt::u8;

struct OpP {
  int kind = 0;
  int e = -1;      // engine
  int s[5] = {-1, -1, -1, -1, -1};
  int i0 = 0, i1 = 0;
  double d0 = 0;
  int lit = -1;    // K_SETSLOT
  Opts opts;       // K_NEWENG
  std::vector<rt::Fault> faults; // one per attempt
  int mayfail = 0; // 1: not repeated after a failure; 0: repeated without a fault after the last entry of faults
  rt::DevCfg dev;
};
enum { C_TRANSIENT = 1, C_LEAK = 2, C_HERMETIC = 4, C_DEVICE = 8, C_ALLSLOTS = 16 };
struct Lit { int type = 0; Bytes b; };
struct Plan {
  std::string prop, variant;
  u64 seed = 0;
  std::vector<int> slots; // types
  int nengines = 0;
  std::vector<Lit> lits;
  std::vector<std::vector<OpP>> tasks; // [0] unused, [1] runs first and alone, [2..] run concurrently
  rt::MemCfg mem;
  rt::SchedCfg sched;
  rt::EnvCfg env;
  int reps = 1;
  int chk = 0;
  int staged = 0; // crash points and process boundaries: resumed from the last checkpoint
  int locale = 0; // I02: process settings of the simulated user
  int rounding = 0;
  int colpr = 0;  // the user's own formatting of std::cout
};

struct OpDesc {
  const char *name;
  const char *types; // one letter per slot: P parms, G product, X externals, S solution, T terms, F factorised, * any
  const char *roles; // i in, o out, b both
  char flag;         // E evaluation (resets and sets the overflow indicator), L low level after a client reset, N leaves it alone
  bool engine;
};
extern const OpDesc OPS[K_N];
int opkind(const std::string &name);
VType type_of(char c);

std::string plan_text(const Plan &p);
bool plan_parse(const std::string &text, Plan &p, std::string &err);
u64 plan_hash(const Plan &p);

// ---- expected outcomes ----------------------------------------------------------------------------------
typedef std::shared_ptr<const Bytes> BP;
struct Expect {
  bool known = false;    // the pristine run gave a result
  std::vector<u64> ret;
  int ovf = -1;          // expected overflow indicator afterwards, -1: not checked
  std::vector<std::pair<int, BP>> outs;
  std::string out, err;  // transcript of a complete report
  bool text = false;     // out/err are known
  BP oneshot;
};
struct SlotState { int st = 0; BP b; }; // st 0 unset, 1 known, 2 unspecified
struct EngState { bool alive = false; Opts o; int ovf = 0; };
struct Snap { std::vector<SlotState> slots; std::vector<EngState> eng; };
struct Annot {
  bool ok = false;
  std::string why;
  std::vector<std::vector<Expect>> ex;
  std::vector<Snap> after1;          // staged plans: state after each operation of task 1
  Snap after_builder;
  std::vector<char> written_conc;    // slots written by a concurrent task
  std::vector<char> eng_shared;      // engines used by more than one concurrent task
  int bad_task = 0, bad_op = 0;      // the operation that is too costly to simulate
  int unknown = 0;                   // operations whose pristine run gave no result
};
Annot annotate(const Plan &p);

struct OracleRes {
  int status = 0; // 1 ok, 2 exception, 3 died
  u64 steps = 0;
  std::string why;
  std::vector<u64> ret;
  int ovf = 0;
  std::vector<Bytes> outs;
  std::string out, err;
};
const OracleRes &oracle(int kind, const OpP &op, const Opts &o, const std::vector<const Bytes *> &in, const std::vector<int> &types);
extern u64 oracle_calls, oracle_runs;
extern int largest[6]; // terms, products of the last R, unique propagators, energies, multiplicity, derivative

struct RunRes {
  int outcome = 0; // rt::Outcome; violations normalised to O_VIOL
  std::string kind, msg;
  int v_task = 0, v_op = 0;
  u64 evhash = 0, interleave = 0;
  rt::Stats st;
  std::vector<rt::Switch> sw;
  std::vector<std::vector<u64>> opsteps;
  std::vector<std::vector<u32>> opallocs, opmax;
  std::vector<rt::CtxAt> actx, fctx, sctx;
  std::vector<u64> failctx;
  std::vector<std::vector<u8>> opfail;
  u64 probes[64];
  int stages = 0;
};
RunRes run_plan(const Plan &p, const Annot &a);

// ---- generation -----------------------------------------------------------------------------------------
struct GenResult { std::vector<Plan> plans; };
Plan generate(const std::string &prop, u64 base, u64 seed);
// derive faulty variants from a clean run of the plan
bool needs_faults(const std::string &prop);
Plan with_faults(const Plan &p, const RunRes &dry, u64 seed, int variant);
int fault_variants(const std::string &prop, bool thorough);
bool nontrivial(const Plan &p, const RunRes &r);
Plan filter_ops(const Plan &p, const std::vector<std::vector<char>> &keep);
void prune(Plan &p, size_t drop_task = 0, size_t drop_op = 0);
extern int g_pool_size;
