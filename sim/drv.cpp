// Driver: seeded search over histories, schedules and faults; replay; minimisation.
#include "plan.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <fcntl.h>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifndef VARIANT
#define VARIANT "std"
#endif
namespace rt { void mark_started(); }

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
// a message may quote what the library wrote: kept on one line of plain text
static std::string plain(std::string s) {
  for (char &c : s) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = c == '\n' ? '|' : '?';
  return s;
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static bool viol(const RunRes &r) { return r.outcome == rt::O_VIOL; }

// ---- the same plan in a process of its own -------------------------------------------------------------------
static std::string scratch_out; // where this worker writes
struct Fresh { bool viol = false; std::string kind, hash, msg; };
static Fresh elsewhere(const Plan &p) {
  Fresh f;
  std::string in = scratch_out + ".try", res = scratch_out + ".tried";
  { std::ofstream o(in); o << plan_text(p); }
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(res.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) _exit(3);
    dup2(fd, 1);
    execl("/proc/self/exe", "sim", "replay", in.c_str(), (char *)nullptr);
    _exit(3);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  std::ifstream i(res);
  std::string l, w;
  std::getline(i, l);
  std::istringstream q(l);
  q >> w >> w;
  f.viol = WIFEXITED(st) && WEXITSTATUS(st) == 1 && w == "violation";
  q >> w >> f.kind >> w >> f.hash;
  std::getline(i, f.msg);
  return f;
}

// ---- minimisation -----------------------------------------------------------------------------------------
struct Mini {
  Plan best;
  RunRes res;
  std::string kind;
  double deadline;
  int unknown = 0; // calls without a reference in the plan as found
  int runs = 0, tries = 1; // more than one where the library itself is not deterministic
  bool fresh = false; // every step confirmed in a process of its own
  bool fails(Plan q, bool pr = true) {
    if (now() > deadline) return false;
    if (pr) prune(q);
    if (q.tasks.size() < 2) return false;
    Annot a = annotate(q);
    if (!a.ok || a.unknown > unknown) return false; // no calls that make no sense any more
    for (int k = 0; k < tries; k++) {
      runs++;
      RunRes r = run_plan(q, a);
      if (viol(r) && r.kind == kind) {
        if (fresh) {
          Fresh f = elsewhere(q);
          if (!f.viol || f.kind != kind) return false;
        }
        best = q; res = r;
        return true;
      }
    }
    return false;
  }
  void ops_pass() {
    for (size_t t = best.tasks.size() - 1; t >= 1; t--) {
      for (size_t chunk = std::max<size_t>(1, best.tasks[t].size() / 2); chunk >= 1; chunk /= 2) {
        for (long i = (long)best.tasks[t].size() - 1; i >= 0;) {
          long lo = std::max(0l, i - (long)chunk + 1);
          std::vector<std::vector<char>> keep(best.tasks.size());
          for (size_t k = 1; k < best.tasks.size(); k++) keep[k].assign(best.tasks[k].size(), 1);
          for (long k = lo; k <= i; k++) keep[t][(size_t)k] = 0;
          fails(filter_ops(best, keep));
          i = std::min(lo - 1, (long)best.tasks[t].size() - 1);
          if (now() > deadline) return;
        }
        if (chunk == 1) break;
      }
    }
  }
  void faults_pass() {
    for (size_t t = 1; t < best.tasks.size(); t++)
      for (size_t i = 0; i < best.tasks[t].size(); i++) {
        while (t < best.tasks.size() && i < best.tasks[t].size() && !best.tasks[t][i].faults.empty()) {
          Plan q = best;
          q.tasks[t][i].faults.pop_back();
          if (q.tasks[t][i].faults.empty()) q.tasks[t][i].mayfail = 0;
          if (!fails(q)) break;
        }
        if (i < best.tasks[t].size() && (best.tasks[t][i].dev.mode || best.tasks[t][i].dev.exc)) {
          Plan q = best;
          q.tasks[t][i].dev = rt::DevCfg();
          if (!fails(q)) { q = best; q.tasks[t][i].dev.exc = 0; if (best.tasks[t][i].dev.exc) fails(q); }
        }
      }
    for (size_t k = best.sched.stalls.size(); k-- > 0;) { Plan q = best; q.sched.stalls.erase(q.sched.stalls.begin() + (long)k); fails(q); }
    for (size_t k = best.sched.crash.size(); k-- > 0;) { Plan q = best; q.sched.crash.erase(q.sched.crash.begin() + (long)k); fails(q); }
  }
  void switch_pass() {
    if (best.tasks.size() <= 2) return;
    if (best.sched.policy != rt::P_LIST) {
      if (res.sw.size() >= rt::MAXSW) return;
      Plan q = best;
      q.sched.policy = rt::P_LIST;
      q.sched.list = res.sw;
      if (!fails(q, false)) return;
    }
    for (size_t chunk = std::max<size_t>(1, best.sched.list.size() / 2); chunk >= 1; chunk /= 2) {
      for (long i = (long)best.sched.list.size(); i > 0;) {
        long lo = std::max(0l, i - (long)chunk);
        Plan q = best;
        q.sched.list.erase(q.sched.list.begin() + lo, q.sched.list.begin() + i);
        fails(q, false);
        i = std::min(lo, (long)best.sched.list.size());
        if (now() > deadline) return;
      }
      if (chunk == 1) break;
    }
  }
  void cfg_pass() {
    auto tryq = [&](void (*f)(Plan &)) { Plan q = best; f(q); if (plan_text(q) != plan_text(best)) fails(q); };
    tryq([](Plan &q) { q.mem = rt::MemCfg(); });
    tryq([](Plan &q) { q.mem.shift = 0; });
    tryq([](Plan &q) { q.mem.reuse = 0; });
    tryq([](Plan &q) { q.mem.fill = 0; });
    tryq([](Plan &q) { q.mem.paint = 0; });
    tryq([](Plan &q) { q.env = rt::EnvCfg(); });
    tryq([](Plan &q) { q.locale = 0; });
    tryq([](Plan &q) { q.colpr = 0; });
    if (kind != "leak") { tryq([](Plan &q) { q.reps = 1; }); tryq([](Plan &q) { q.reps = 2; }); }
    for (size_t t = 1; t < best.tasks.size(); t++)
      for (size_t i = 0; i < best.tasks[t].size(); i++)
        if (best.tasks[t][i].kind == K_NEWENG) {
          Plan q = best;
          int v = q.tasks[t][i].opts.verbose;
          q.tasks[t][i].opts = Opts();
          Plan q2 = q;
          q2.tasks[t][i].opts.verbose = v;
          if (plan_text(q) != plan_text(best) && !fails(q) && v) fails(q2);
        }
  }
  void tasks_pass() {
    for (size_t t = best.tasks.size() - 1; t >= 2 && best.tasks.size() > 2; t--) {
      std::vector<std::vector<char>> keep(best.tasks.size());
      for (size_t k = 1; k < best.tasks.size(); k++) keep[k].assign(best.tasks[k].size(), k != t);
      if (best.tasks[t].empty()) continue;
      fails(filter_ops(best, keep));
    }
    while (best.tasks.size() > 2 && best.tasks.back().empty()) { Plan q = best; q.tasks.pop_back(); if (!fails(q, false)) break; }
  }
  void run(const Plan &p, const RunRes &r, double cap) {
    best = p;
    res = r;
    kind = r.kind;
    deadline = now() + cap;
    tasks_pass();
    for (int round = 0; round < 4 && now() < deadline; round++) {
      std::string before = plan_text(best);
      switch_pass();
      faults_pass();
      ops_pass();
      cfg_pass();
      tasks_pass();
      if (plan_text(best) == before) break;
    }
    // only the literals in use
    Plan q = best;
    std::vector<int> to(q.lits.size(), -1);
    std::vector<Lit> nl;
    for (auto &t : q.tasks)
      for (auto &o : t)
        if (o.lit >= 0) {
          if (to[(size_t)o.lit] < 0) { to[(size_t)o.lit] = (int)nl.size(); nl.push_back(q.lits[(size_t)o.lit]); }
          o.lit = to[(size_t)o.lit];
        }
    q.lits = nl;
    deadline = now() + 60;
    fails(q, false);
  }
};

// ---- search -----------------------------------------------------------------------------------------------
struct Totals {
  u64 skipped = 0, costly = 0, runs = 0, plans = 0, nontriv = 0, rejected = 0, unknown = 0, ops = 0, libops = 0, detchecks = 0, nondet = 0, unrepeated = 0, stages = 0, retried = 0;
  rt::Stats st;
  u64 probes[64];
  std::map<std::string, u64> opcount;
  std::set<u64> plans_h, inter_h, actx, fctx, failctx;
  std::vector<std::string> samples;
  Totals() { memset((void *)&st, 0, sizeof st); memset(probes, 0, sizeof probes); }
} T;
static void account(const Plan &p, const Annot &a, const RunRes &r) {
  T.runs++;
  T.unknown += (u64)a.unknown;
  T.stages += (u64)r.stages;
  u64 *d = (u64 *)&T.st;
  const u64 *s = (const u64 *)&r.st;
  for (size_t i = 0; i < sizeof(rt::Stats) / 8; i++) d[i] += s[i];
  for (int i = 0; i < 64; i++) T.probes[i] += r.probes[i];
  for (auto &t : p.tasks) for (auto &o : t) { T.ops++; T.libops += o.kind < K_LIB_END; T.opcount[OPS[o.kind].name]++; }
  T.inter_h.insert(r.interleave);
  for (u64 k : r.failctx) T.failctx.insert(k);
  for (auto &c : r.actx) T.actx.insert(c.key);
  for (auto &c : r.fctx) T.fctx.insert(c.key);
  if (nontrivial(p, r)) {
    T.nontriv++;
    T.plans_h.insert(rt::mix(plan_hash(p), r.interleave));
    if (T.samples.size() < 1 && plan_text(p).size() < 9000) T.samples.push_back(plan_text(p));
  }
}
static const char *FK[] = {"none", "nth_allocation", "all_from_nth", "size_threshold", "live_bytes_limit"};
static void write_stats(const std::string &out, double wall, const std::string &status, const std::string &extra) {
  std::ofstream f(out + ".json");
  f << "{\"status\":" << jstr(status) << ",\"runs\":" << T.runs << ",\"plans\":" << T.plans << ",\"nontrivial\":" << T.nontriv << ",\"skipped\":" << T.skipped << ",\"costly_ops\":" << T.costly << ",\"rejected\":" << T.rejected
    << ",\"unknown_ops\":" << T.unknown << ",\"ops\":" << T.ops << ",\"lib_ops\":" << T.libops << ",\"determinism_checks\":" << T.detchecks << ",\"nondeterministic\":" << T.nondet
    << ",\"processes\":" << T.stages << ",\"oracle_calls\":" << oracle_calls << ",\"oracle_runs\":" << oracle_runs << ",\"wall\":" << wall
    << ",\"steps\":" << T.st.steps << ",\"allocs\":" << T.st.allocs << ",\"switches\":" << T.st.switches << ",\"stalls\":" << T.st.stalls << ",\"crashes\":" << T.st.crashes
    << ",\"device_faults\":" << T.st.dev_faults << ",\"env_reads\":" << T.st.env_reads << ",\"sync_ops\":" << T.st.sync_ops << ",\"shared_accesses\":" << T.st.foreign
    << ",\"faults\":{";
  for (int i = 1; i < rt::F_NKINDS; i++) f << (i > 1 ? "," : "") << "\"" << FK[i] << "\":" << T.st.faults[i];
  f << "},\"largest\":[";
  for (int i = 0; i < 6; i++) f << (i ? "," : "") << largest[i];
  f << "],\"probes\":[";
  for (int i = 0; i < 16; i++) f << (i ? "," : "") << T.probes[i];
  f << "],\"opcount\":{";
  bool first = true;
  for (auto &k : T.opcount) { f << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
  f << "},\"samples\":[";
  for (size_t i = 0; i < T.samples.size(); i++) f << (i ? "," : "") << jstr(T.samples[i]);
  f << "]" << extra << "}\n";
  f.close();
  const std::set<u64> *sets[] = {&T.plans_h, &T.inter_h, &T.actx, &T.failctx, &T.fctx};
  const char *ext[] = {".plans", ".inter", ".actx", ".failctx", ".fctx"};
  for (int i = 0; i < 5; i++) {
    std::ofstream h(out + ext[i], std::ios::binary);
    for (u64 v : *sets[i]) h.write((const char *)&v, 8);
  }
}
static int explore(int argc, char **argv) {
  std::string prop, out = "out";
  u64 base = 1, from = 0, stride = 1, count = 1000000;
  double cap = 10, mincap = 30;
  bool thorough = false;
  for (int i = 0; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--seed") base = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from") from = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cap") cap = atof(val().c_str());
    else if (a == "--mincap") mincap = atof(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--pool") g_pool_size = atoi(val().c_str());
    else if (a == "--thorough") thorough = true;
  }
  double t0 = now();
  scratch_out = out;
  u64 execs = 0;
  std::string last_nondet, last_seen;
  auto bad = [&](const Plan &p, const RunRes &r, const std::string &what) {
    std::ofstream f(out + ".plan");
    f << plan_text(p);
    write_stats(out, now() - t0, "infra", ",\"message\":" + jstr(plain(what + ": " + r.kind + " " + r.msg)));
    return 2;
  };
  auto once = [&](const Plan &p, const Annot &a, RunRes &r) -> int {
    r = run_plan(p, a);
    execs++;
    if (r.outcome == rt::O_SKIP) { T.skipped++; return 0; }
    if (r.outcome == rt::O_INFRA) return bad(p, r, "the simulator could not finish a run");
    account(p, a, r);
    if (!viol(r)) {
      if (execs % 16 == 3) { // the same plan again must be the same execution
        T.detchecks++;
        RunRes q = run_plan(p, a);
        if (q.outcome != r.outcome || q.evhash != r.evhash) { T.nondet++; last_nondet = plan_text(p); }
        if (viol(q)) r = q;
      }
      if (!viol(r)) return 0;
    }
    // A violation repeats exactly, unless the library under test consults something the simulator does not control;
    // then it has to come back within a few executions.
    RunRes q = run_plan(p, a);
    bool exact = viol(q) && q.kind == r.kind && q.evhash == r.evhash;
    for (int k = 0; k < 10 && !(viol(q) && q.kind == r.kind); k++) q = run_plan(p, a);
    if (!viol(q) || q.kind != r.kind) { T.unrepeated++; last_nondet = plan_text(p); last_seen = r.kind + " " + r.msg; return 0; }
    if (!exact) r = q;
    // It also has to come back in another process, where what the simulator's own memory left on the stacks is different.
    Fresh e;
    for (int k = 0; k < 3 && !(e.viol && e.kind == r.kind); k++) e = elsewhere(p);
    if (!e.viol || e.kind != r.kind) { T.unrepeated++; last_nondet = plan_text(p); last_seen = "(in another process) " + r.kind + " " + r.msg; return 0; }
    Plan best = p;
    RunRes res = r;
    int mruns = 0;
    for (int k = 0; k < 2; k++) {
      Mini m;
      m.tries = exact ? 1 : 3;
      m.unknown = a.unknown;
      m.fresh = k == 1;
      m.run(p, r, mincap);
      mruns += m.runs;
      Fresh g;
      for (int j = 0; j < 3 && !(g.viol && g.kind == r.kind); j++) g = elsewhere(m.best);
      if (g.viol && g.kind == r.kind) { best = m.best; res = m.res; e = g; break; }
    }
    char hb[32];
    snprintf(hb, sizeof hb, "%016llx", (unsigned long long)res.evhash);
    if (exact && e.hash != hb) exact = elsewhere(best).hash == e.hash; // exactly what it is in a process of its own
    RunRes v = res;
    v.msg = plain(v.msg); r.msg = plain(r.msg);
    std::ofstream f(out + ".replay");
    snprintf(hb, sizeof hb, "%s", e.hash.c_str());
    f << "# expect " << v.kind << " " << hb << (exact ? "" : " inexact") << "\n# " << v.msg << "\n# at task " << v.v_task << " operation " << v.v_op << "; found with seed " << p.seed
      << ", minimised in " << mruns << " runs\n" << plan_text(best);
    f.close();
    write_stats(out, now() - t0, "violation", ",\"kind\":" + jstr(v.kind) + ",\"message\":" + jstr(v.msg) + ",\"first_message\":" + jstr(r.msg) + ",\"hash\":" + jstr(hb) + ",\"run_seed\":" + std::to_string(p.seed));
    return 1;
  };
  for (u64 i = from; i < count && now() - t0 < cap; i += stride) {
    u64 seed = rt::mix(rt::mix(base, 77), i) >> 1;
    u64 epoch = rt::mix(base, ((i / stride / 200) << 8) | from); // now and then another pool of problems
    Plan p = generate(prop, epoch, seed);
    p.variant = VARIANT;
    prune(p);
    T.plans++;
    double tp = now();
    struct Slow { double t; u64 s; Plan *p; ~Slow() { if (getenv("SIM_DEBUG") && now() - t > 1) fprintf(stderr, "slow %.2f s: %llu\n", now() - t, (unsigned long long)s); } } slow{tp, seed, &p};
    Annot a = annotate(p);
    for (int k = 0; k < 12 && !a.ok && a.why == "costly"; k++) {
      T.costly++;
      prune(p, (size_t)a.bad_task, (size_t)a.bad_op);
      a = annotate(p);
    }
    if (!a.ok) {
      T.rejected++;
      if (getenv("SIM_DEBUG")) fprintf(stderr, "rejected: %s\n%s", a.why.c_str(), plan_text(p).c_str());
      continue;
    }
    RunRes r;
    p.sched.record = needs_faults(prop) ? 1 : 0;
    if (int rc = once(p, a, r)) return rc;
    p.sched.record = needs_faults(prop) ? 2 : 0;
    if (r.outcome == rt::O_SKIP) continue;
    if (p.tasks.size() > 2) { // other schedules of the same history
      int k = thorough ? 5 : 3;
      rt::Rng q(rt::mix(seed, 99));
      for (int j = 0; j < k && now() - t0 < cap; j++) {
        Plan p2 = p;
        p2.sched.seed = q.next() >> 1;
        double u = q.unit();
        p2.sched.policy = u < 0.34 ? rt::P_RANDOM : u < 0.67 ? rt::P_TARGET : rt::P_PCT;
        RunRes r2;
        if (int rc = once(p2, a, r2)) return rc;
      }
    }
    if (needs_faults(prop))
      for (int v = 0; v < fault_variants(prop, thorough) && now() - t0 < cap; v++) {
        Plan p2 = with_faults(p, r, seed, v);
        if (plan_text(p2) == plan_text(p)) continue;
        Annot a2 = annotate(p2);
        if (!a2.ok) {
          T.rejected++;
          if (getenv("SIM_DEBUG")) fprintf(stderr, "rejected: %s\n%s", a2.why.c_str(), plan_text(p2).c_str());
          continue;
        }
        RunRes r2;
        if (int rc = once(p2, a2, r2)) return rc;
      }
  }
  if (T.nondet || T.unrepeated) { std::ofstream f(out + ".plan"); f << last_nondet; }
  if (T.unrepeated) { write_stats(out, now() - t0, "infra", ",\"message\":" + jstr(plain("a violation was seen that did not repeat " + last_seen))); return 2; }
  write_stats(out, now() - t0, "ok", "");
  return 0;
}
static int replay(const char *file) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  Plan p;
  std::string err;
  if (!plan_parse(ss.str(), p, err)) { fprintf(stderr, "cannot read %s: %s\n", file, err.c_str()); return 2; }
  if (p.variant != VARIANT) { fprintf(stderr, "plan is for variant %s\n", p.variant.c_str()); return 2; }
  Annot a = annotate(p);
  if (!a.ok) { fprintf(stderr, "invalid plan: %s\n", a.why.c_str()); return 2; }
  RunRes r = run_plan(p, a);
  printf("outcome %s kind %s hash %016llx steps %llu switches %llu allocs %llu\n", viol(r) ? "violation" : r.outcome == rt::O_OK ? "ok" : "infra",
         r.kind.empty() ? "-" : r.kind.c_str(), (unsigned long long)r.evhash, (unsigned long long)r.st.steps, (unsigned long long)r.st.switches, (unsigned long long)r.st.allocs);
  if (!r.msg.empty()) printf("at task %d operation %d: %s\n", r.v_task, r.v_op, r.msg.c_str());
  return viol(r) ? 1 : r.outcome == rt::O_OK ? 0 : 2;
}
int main(int argc, char **argv) {
  rt::mark_started();
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    personality((unsigned long)pers | ADDR_NO_RANDOMIZE);
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  unsetenv("SIM_REEXEC");
  rt::shared_init();
  if (argc >= 3 && !strcmp(argv[1], "replay")) return replay(argv[2]);
  if (argc >= 2 && !strcmp(argv[1], "explore")) return explore(argc - 2, argv + 2);
  if (argc >= 5 && !strcmp(argv[1], "show")) {
    Plan p = generate(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10));
    p.variant = VARIANT;
    printf("%s", plan_text(p).c_str());
    return 0;
  }
  fprintf(stderr, "usage: sim explore|replay|show\n");
  return 2;
}
