// Expected outcomes (every call repeated alone in a pristine process) and the execution of plans.
#include "plan.hpp"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <cerrno>
#include <iostream>
#include <sstream>
#include <locale>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

using namespace rt;

u64 oracle_calls = 0, oracle_runs = 0;
int largest[6];
static int capfd = -1;

static void child_io() {
  if (capfd < 0) capfd = memfd_create("captured", 0);
}
static void child_redirect() {
  dup2(capfd, 1);
  dup2(capfd, 2);
}
static std::string captured() {
  char b[2001];
  ssize_t n = pread(capfd, b, 2000, 0);
  return std::string(b, n > 0 ? (size_t)n : 0);
}

// ---- results from client code ----------------------------------------------------------------------------
static std::vector<u64> *g_ret[MAXT];
static std::vector<u64> &retbuf() {
  int t = current_task();
  if (!g_ret[t]) g_ret[t] = new std::vector<u64>;
  return *g_ret[t];
}
static __attribute__((noinline)) void keep_u(u64 v) { HarnessScope hs; retbuf().push_back(v); }
static __attribute__((noinline)) void keep_d(double v) {
  HarnessScope hs;
  if (v != v) v = __builtin_nan("");
  u64 x;
  memcpy(&x, &v, 8);
  retbuf().push_back(x);
}
template <class T> static __attribute__((noinline)) void keep_ser(const T &v) {
  HarnessScope hs;
  Bytes b;
  put(b, v);
  retbuf().push_back(hash_bytes(b.data(), b.size()));
  retbuf().push_back(b.size());
}
void ret_u(u64 v) { keep_u(v); wipe(); }
void ret_d(double v) { keep_d(v); wipe(); }
void ret_c(std::complex<double> v) { ret_d(v.real()); ret_d(v.imag()); }
template <class T> static void ret_ser(const T &v) { keep_ser(v); wipe(); }
void ret_g(const AmiBase::g_prod_t &v) { ret_ser(v); }
void ret_gs(const AmiBase::g_struct &v) { ret_ser(v); }
void ret_p(const AmiBase::pole_struct &v) { ret_ser(v); }
void ret_pa(const AmiBase::pole_array_t &v) { ret_ser(v); }
void ret_ri(const AmiBase::Ri_t &v) { ret_ser(v); }
void ret_sorf(const AmiBase::SorF_t &v) { ret_ser(v); }
void ret_sign(const AmiBase::sign_t &v) { ret_ser(v); }
void ret_terms(const AmiBase::terms &v) { ret_ser(v); }
void ret_ivv(const std::vector<std::vector<int>> &v) { ret_ser(v); }
void ret_refs(const AmiBase::R_ref_t &v) { ret_ser(v); }

// ---- typed objects ----------------------------------------------------------------------------------------
static void *new_obj(int type) {
  ArenaScope as;
  switch (type) {
  case V_PARMS: return new AmiBase::ami_parms();
  case V_G: return new AmiBase::g_prod_t();
  case V_EXT: return new AmiBase::ami_vars();
  case V_SOL: return new Sol();
  case V_TERMS: return new AmiBase::terms();
  default: return new Fac();
  }
}
static void del_obj(int type, void *o) {
  switch (type) {
  case V_PARMS: delete (AmiBase::ami_parms *)o; break;
  case V_G: delete (AmiBase::g_prod_t *)o; break;
  case V_EXT: delete (AmiBase::ami_vars *)o; break;
  case V_SOL: delete (Sol *)o; break;
  case V_TERMS: delete (AmiBase::terms *)o; break;
  default: delete (Fac *)o; break;
  }
}
static Bytes ser_obj(int type, const void *o) {
  Bytes b;
  switch (type) {
  case V_PARMS: put(b, *(const AmiBase::ami_parms *)o); break;
  case V_G: put(b, *(const AmiBase::g_prod_t *)o); break;
  case V_EXT: put(b, *(const AmiBase::ami_vars *)o); break;
  case V_SOL: put(b, *(const Sol *)o); break;
  case V_TERMS: put(b, *(const AmiBase::terms *)o); break;
  default: put(b, *(const Fac *)o); break;
  }
  return b;
}
static void de_obj(int type, void *o, const Bytes &b) {
  ArenaScope as;
  Rd r{b.data(), b.data() + b.size()};
  switch (type) {
  case V_PARMS: get(r, *(AmiBase::ami_parms *)o); break;
  case V_G: get(r, *(AmiBase::g_prod_t *)o); break;
  case V_EXT: get(r, *(AmiBase::ami_vars *)o); break;
  case V_SOL: get(r, *(Sol *)o); break;
  case V_TERMS: get(r, *(AmiBase::terms *)o); break;
  default: get(r, *(Fac *)o); break;
  }
}
static void range_freeze(const void *p, size_t n, void *a) { freeze(p, n, a != nullptr); }
static void freeze_obj(int type, const void *o, bool on) {
  void *a = on ? (void *)1 : nullptr;
  switch (type) {
  case V_PARMS: freeze(o, sizeof(AmiBase::ami_parms), on); break;
  case V_G: freeze(o, sizeof(AmiBase::g_prod_t), on); walk(*(const AmiBase::g_prod_t *)o, range_freeze, a); break;
  case V_EXT: {
    const AmiBase::ami_vars &v = *(const AmiBase::ami_vars *)o;
    freeze(o, sizeof v, on);
    walk(v.energy_, range_freeze, a);
    walk(v.frequency_, range_freeze, a);
    break;
  }
  case V_SOL: {
    const Sol &s = *(const Sol *)o;
    freeze(o, sizeof s, on);
    walk(s.R, range_freeze, a); walk(s.P, range_freeze, a); walk(s.S, range_freeze, a);
    break;
  }
  case V_TERMS: freeze(o, sizeof(AmiBase::terms), on); walk(*(const AmiBase::terms *)o, range_freeze, a); break;
  default: {
    const Fac &f = *(const Fac *)o;
    freeze(o, sizeof f, on);
    walk(f.U, range_freeze, a); walk(f.R, range_freeze, a); walk(f.E, range_freeze, a);
  }
  }
}
static void set_opts(AmiBase &e, const Opts &o) {
  e.exp_max_arg = o.exp_max_arg;
  e.precision_cutoff = o.precision_cutoff;
  e.drop_bosonic_diverge = o.drop_bosonic_diverge;
  e.drop_der = o.drop_der;
  e.drop_matsubara_poles = o.drop_matsubara_poles;
  e.zero_external_w = o.zero_external_w;
  e.verbose = o.verbose;
  e.bosonic_external = o.bosonic_external;
  e.ext_freq_type = (AmiBase::ext_type)o.ext_freq_type;
}
static Opts get_opts(const AmiBase &e) {
  Opts o;
  o.exp_max_arg = e.exp_max_arg;
  o.precision_cutoff = e.precision_cutoff;
  o.drop_bosonic_diverge = e.drop_bosonic_diverge;
  o.drop_der = e.drop_der;
  o.drop_matsubara_poles = e.drop_matsubara_poles;
  o.zero_external_w = e.zero_external_w;
  o.verbose = e.verbose;
  o.bosonic_external = e.bosonic_external;
  o.ext_freq_type = e.ext_freq_type;
  return o;
}
static bool same_opts(const Opts &a, const Opts &b) {
  Bytes x, y;
  put(x, a);
  put(y, b);
  return x == y;
}
static void freeze_opts(const AmiBase &e, bool on) {
  freeze(&e.exp_max_arg, sizeof e.exp_max_arg, on);
  freeze(&e.precision_cutoff, sizeof e.precision_cutoff, on);
  freeze(&e.drop_bosonic_diverge, 1, on);
  freeze(&e.drop_der, 1, on);
  freeze(&e.drop_matsubara_poles, 1, on);
  freeze(&e.zero_external_w, 1, on);
  freeze(&e.verbose, 1, on);
  freeze(&e.bosonic_external, 1, on);
  freeze(&e.ext_freq_type, sizeof e.ext_freq_type, on);
}
static void apply_option(Opts &o, int field, int iv, double dv) {
  switch (field) {
  case 0: o.exp_max_arg = dv; break;
  case 1: o.precision_cutoff = dv; break;
  case 2: o.drop_bosonic_diverge = iv; break;
  case 3: o.drop_der = iv; break;
  case 4: o.drop_matsubara_poles = iv; break;
  case 5: o.zero_external_w = iv; break;
  case 6: o.verbose = iv; break;
  case 7: o.bosonic_external = iv; break;
  case 8: o.ext_freq_type = iv; break;
  }
}
static AmiBase *make_engine(bool lib, int how = 0) {
  if (lib) {
    enter_lib();
    AmiBase *e = lib_engine(how);
    leave_lib();
    return e;
  }
  ArenaScope as;
  return new AmiBase();
}

// ---- pristine process ---------------------------------------------------------------------------------------
struct Key {
  u64 a, b;
  bool operator==(const Key &o) const { return a == o.a && b == o.b; }
};
struct KeyH { size_t operator()(const Key &k) const { return k.a; } };
static std::unordered_map<Key, OracleRes, KeyH> cache;
static size_t cache_bytes = 0;

struct OArg {
  int kind;
  const OpP *op;
  const Opts *opts;
  const std::vector<const Bytes *> *in;
  const std::vector<int> *types;
};
static void oracle_task(int, void *p) {
  OArg &o = *(OArg *)p;
  const OpDesc &d = OPS[o.kind];
  OpArgs a;
  for (size_t i = 0; i < o.types->size(); i++) {
    a.s[i] = new_obj((*o.types)[i]);
    if ((*o.in)[i]) de_obj((*o.types)[i], a.s[i], *(*o.in)[i]);
  }
  a.type0 = o.types->empty() ? 0 : (*o.types)[0];
  a.i0 = o.op->i0;
  a.i1 = o.op->i1;
  a.d0 = o.op->d0;
  op_begin(0, Fault());
  a.e = make_engine(true);
  set_opts(*a.e, *o.opts);
  a.e->overflow_detected = false;
  dev_op_begin(DevCfg());
  int status = 1;
  std::string why;
  enter_lib();
  try {
    run_lib_op(o.kind, a);
  } catch (const std::exception &x) {
    leave_lib();
    status = 2;
    why = x.what();
  } catch (...) {
    leave_lib();
    status = 2;
    why = "exception";
  }
  leave_lib();
  op_end();
  Bytes b;
  put(b, status);
  put(b, (int)a.e->overflow_detected);
  std::vector<u64> &r = retbuf();
  put(b, (int)r.size());
  for (u64 v : r) put(b, v);
  put(b, (int)why.size());
  put(b, why.data(), why.size());
  for (const std::string *s : {&dev_out(), &dev_err()}) { put(b, (int)s->size()); put(b, s->data(), s->size()); }
  for (size_t i = 0; i < o.types->size(); i++)
    if (d.roles[i] == 'o' || d.roles[i] == 'b') {
      Bytes x = ser_obj((*o.types)[i], a.s[i]);
      put(b, (int)x.size());
      put(b, x.data(), x.size());
    }
  if (b.size() > outarea_cap()) toobig("result too large");
  memcpy(outarea(), b.data(), b.size());
  sh->outlen = b.size();
}
static const u64 ORACLE_BUDGET = 4000000; // operations that take longer alone are left out of the histories
static void note_size(int type, const Bytes &b) {
  Rd rd{b.data(), b.data() + b.size()};
  auto up = [&](int i, size_t n) { if ((int)n > largest[i]) largest[i] = (int)n; };
  auto poles = [&](const AmiBase::pole_array_t &v) { for (auto &q : v) { up(3, q.eps_.size()); up(4, (size_t)q.multiplicity_); up(5, (size_t)q.der_); } };
  if (type == V_TERMS) {
    AmiBase::terms t;
    get(rd, t);
    up(0, t.size());
    for (auto &x : t) poles(x.p_list);
  } else if (type == V_SOL) {
    Sol s;
    get(rd, s);
    if (!s.R.empty()) up(1, s.R.back().size());
    for (auto &x : s.P) for (auto &y : x) poles(y);
  } else if (type == V_FAC) {
    int n;
    get(rd, n);
    up(2, (size_t)n);
  }
}
const OracleRes &oracle(int kind, const OpP &op, const Opts &opts, const std::vector<const Bytes *> &in, const std::vector<int> &types) {
  Bytes kb;
  put(kb, kind); put(kb, op.i0); put(kb, op.i1); put(kb, op.d0);
  put(kb, opts);
  for (size_t i = 0; i < in.size(); i++) {
    put(kb, types[i]);
    put(kb, in[i] ? (int)in[i]->size() : -1);
    if (in[i]) put(kb, in[i]->data(), in[i]->size());
  }
  Key k{hash_bytes(kb.data(), kb.size()), hash_bytes(kb.data(), kb.size(), 0x1234567)};
  oracle_calls++;
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  if (cache_bytes > (96u << 20)) { cache.clear(); cache_bytes = 0; }
  oracle_runs++;
  OracleRes r;
  // A call that dies or never ends gets a second chance in memory with other contents: if it depends on that, the first one is not what is right.
  for (int second = 0; second < 2; second++) {
    child_io();
    if (ftruncate(capfd, 0)) {}
    sh->outcome = O_NONE;
    sh->kind[0] = sh->msg[0] = 0;
    memset((void *)&sh->st, 0, sizeof sh->st);
    sh->nsw = 0;
    pid_t pid = fork();
    if (pid == 0) {
      child_redirect();
      dev_install();
      MemCfg m;
      if (second) { m.fill = FILL_FF; m.paint = 1; }
      SchedCfg s;
      s.budget = ORACLE_BUDGET;
      EnvCfg e;
      OArg oa{kind, &op, &opts, &in, &types};
      proc_begin(m, s, e);
      run_tasks(1, 1, oracle_task, &oa);
      sh->outcome = O_OK;
      _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0) {}
    r = OracleRes();
    r.steps = sh->st.steps;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->outcome == O_OK) {
      Rd rd{outarea(), outarea() + sh->outlen};
      int n;
      get(rd, r.status); get(rd, r.ovf); get(rd, n);
      r.ret.resize((size_t)n);
      for (auto &v : r.ret) get(rd, &v, 8);
      auto str = [&](std::string &s) { int m; get(rd, m); s.assign(rd.p, (size_t)m); rd.p += m; };
      str(r.why); str(r.out); str(r.err);
      while (rd.p < rd.e) { std::string s; str(s); r.outs.push_back(s); }
      const char *ro = OPS[kind].roles;
      for (size_t i = 0, n = 0; i < types.size(); i++)
        if (ro[i] == 'o' || ro[i] == 'b') note_size(types[i], r.outs[n++]);
    } else if (sh->outcome == O_INFRA) {
      fprintf(stderr, "infrastructure: %s\n", sh->msg);
      _exit(2);
    } else if (sh->outcome == O_SKIP || (sh->outcome == O_VIOL && strstr(sh->msg, "did not return within"))) {
      r.status = 4;
      r.why = "too costly";
    } else {
      r.status = 3;
      r.why = sh->outcome == O_VIOL ? std::string(sh->kind) + ": " + sh->msg : "died, status " + std::to_string(st) + " " + captured();
    }
    if (r.status < 3) break;
  }
  size_t sz = 200 + r.out.size() + r.err.size();
  for (auto &x : r.outs) sz += x.size();
  cache_bytes += sz;
  return cache.emplace(k, std::move(r)).first->second;
}

// ---- the reference model: what every operation of a plan must give -----------------------------------------
static bool step_model(const Plan &p, Snap &s, const OpP &op, Expect &x, bool shared_eng, std::string &why, int &unknown) {
  const OpDesc &d = OPS[op.kind];
  size_t ns = strlen(d.types);
  auto bad = [&](const char *w) { why = std::string(d.name) + ": " + w; return false; };
  std::vector<int> types;
  for (size_t i = 0; i < ns; i++) {
    int sl = op.s[i];
    if (sl < 0 || sl >= (int)p.slots.size()) return bad("bad slot");
    for (size_t j = 0; j < i; j++) if (op.s[j] == sl && (d.roles[i] != 'i' || d.roles[j] != 'i')) return bad("slot used twice");
    int t = p.slots[(size_t)sl];
    if (d.types[i] != '*' && type_of(d.types[i]) != t) return bad("wrong slot type");
    types.push_back(t);
    char r = d.roles[i];
    if ((r == 'i' || r == 'b' || r == 'm') && s.slots[(size_t)sl].st != 1) return bad("slot not set");
  }
  if (d.engine) {
    if (op.e < 0 || op.e >= p.nengines) return bad("bad engine");
    if (op.kind != K_NEWENG && !s.eng[(size_t)op.e].alive) return bad("engine not alive");
    if (op.kind == K_NEWENG && s.eng[(size_t)op.e].alive) return bad("engine exists");
  }
  switch (op.kind) {
  case K_NEWENG: {
    EngState &e = s.eng[(size_t)op.e];
    e.alive = true; e.o = op.opts; e.ovf = 0;
    OpP c;
    c.kind = K_DEFAULTS;
    c.i0 = op.i0;
    const OracleRes &r = oracle(K_DEFAULTS, c, Opts(), std::vector<const Bytes *>(), std::vector<int>());
    if (r.status == 1 && r.ret.size() >= ENGF) { x.known = true; x.ret.assign(r.ret.begin(), r.ret.begin() + ENGF); }
    return true;
  }
  case K_DELENG: s.eng[(size_t)op.e].alive = false; x.known = true; return true;
  case K_SETOPT: apply_option(s.eng[(size_t)op.e].o, op.i0, op.i1, op.d0); x.known = true; return true;
  case K_POISON: s.eng[(size_t)op.e].ovf = op.i0 != 0; x.known = true; return true;
  case K_COPYENG:
    if (op.i0 < 0 || op.i0 >= p.nengines || op.i0 == op.e) return bad("bad target engine");
    s.eng[(size_t)op.i0] = s.eng[(size_t)op.e];
    x.known = true;
    return true;
  case K_SETSLOT: {
    if (op.lit < 0 || op.lit >= (int)p.lits.size() || p.lits[(size_t)op.lit].type != types[0]) return bad("bad literal");
    s.slots[(size_t)op.s[0]] = SlotState{1, std::make_shared<Bytes>(p.lits[(size_t)op.lit].b)};
    x.known = true;
    return true;
  }
  case K_DROP: s.slots[(size_t)op.s[0]] = SlotState(); x.known = true; return true;
  case K_CKPT: case K_XPROC: x.known = true; return true;
  case K_COPY: case K_SERIAL:
    if (types[0] != types[1]) return bad("types differ");
    s.slots[(size_t)op.s[1]] = s.slots[(size_t)op.s[0]];
    x.outs.push_back({op.s[1], s.slots[(size_t)op.s[0]].b});
    x.known = true;
    x.ovf = -1;
    if (op.kind == K_COPY && op.mayfail && !op.faults.empty()) { s.slots[(size_t)op.s[1]] = SlotState{2, nullptr}; }
    return true;
  case K_MOVE:
    if (types[0] != types[1]) return bad("types differ");
    if (!op.faults.empty()) return bad("no faults on moves");
    s.slots[(size_t)op.s[1]] = s.slots[(size_t)op.s[0]];
    x.outs.push_back({op.s[1], s.slots[(size_t)op.s[0]].b});
    s.slots[(size_t)op.s[0]] = SlotState{2, nullptr};
    x.known = true;
    return true;
  case K_ONESHOT: {
    OpP c;
    c.kind = types[0] == V_SOL ? K_CONSTRUCT : K_CONSTRUCT_T;
    if (types[0] != V_SOL && types[0] != V_TERMS) return bad("not a solution");
    Opts o = op.opts;
    std::vector<const Bytes *> in{s.slots[(size_t)op.s[1]].b.get(), s.slots[(size_t)op.s[2]].b.get(), nullptr};
    std::vector<int> ty{V_PARMS, V_G, types[0]};
    const OracleRes &r = oracle(c.kind, c, o, in, ty);
    if (r.status == 4) { why = "costly"; return false; }
    if (r.status == 1) { x.known = true; x.oneshot = std::make_shared<Bytes>(r.outs[0]); }
    else unknown++;
    return true;
  }
  default: break;
  }
  // sanity of indices
  EngState *e = d.engine ? &s.eng[(size_t)op.e] : nullptr;
  Opts o = e ? e->o : Opts();
  int verb = o.verbose;
  o.verbose = 0;
  std::vector<const Bytes *> in;
  for (size_t i = 0; i < ns; i++) in.push_back(d.roles[i] == 'o' ? nullptr : s.slots[(size_t)op.s[i]].b.get());
  const OracleRes &r = oracle(op.kind, op, o, in, types);
  bool retryable = !op.mayfail;
  if (op.dev.exc) retryable = false;
  bool fails = !op.faults.empty() && !retryable;
  if (r.status == 4) { why = "costly"; return false; }
  if (r.status != 1) {
    unknown++;
    for (size_t i = 0; i < ns; i++) if (d.roles[i] == 'o' || d.roles[i] == 'b') s.slots[(size_t)op.s[i]] = SlotState{2, nullptr};
    if (e) e->ovf = -1;
    return true;
  }
  x.known = true;
  x.ret = r.ret;
  size_t k = 0;
  int after = d.flag == 'N' ? (e ? e->ovf : -1) : r.ovf;
  std::vector<Bytes> outs = r.outs;
  std::string ot = r.out, et = r.err;
  if (verb) {
    Opts ov = o;
    ov.verbose = 1;
    const OracleRes &rv = oracle(op.kind, op, ov, in, types);
    if (rv.status == 1) { ot = rv.out; et = rv.err; x.text = true; }
  } else x.text = true;
  x.out = ot;
  x.err = et;
  for (size_t i = 0; i < ns; i++)
    if (d.roles[i] == 'o' || d.roles[i] == 'b') {
      BP b = std::make_shared<Bytes>(outs[k++]);
      x.outs.push_back({op.s[i], b});
      s.slots[(size_t)op.s[i]] = fails ? SlotState{2, nullptr} : SlotState{1, b};
    }
  x.ovf = shared_eng ? -1 : after;
  if (e) e->ovf = (fails || op.dev.exc) && d.flag != 'N' ? -1 : shared_eng ? -1 : after;
  return true;
}
Annot annotate(const Plan &p) {
  Annot a;
  a.ex.resize(p.tasks.size());
  a.written_conc.assign(p.slots.size(), 0);
  a.eng_shared.assign((size_t)p.nengines, 0);
  if (p.tasks.size() < 2 || (int)p.tasks.size() > MAXT) { a.why = "tasks"; return a; }
  // ownership among concurrent tasks
  std::vector<int> writer(p.slots.size(), 0), emgr((size_t)p.nengines, 0), euser((size_t)p.nengines, 0);
  for (size_t t = 2; t < p.tasks.size(); t++)
    for (auto &op : p.tasks[t]) {
      const OpDesc &d = OPS[op.kind];
      for (size_t i = 0; d.types[i]; i++)
        if (d.roles[i] != 'i') {
          int s = op.s[i];
          if (s < 0 || s >= (int)p.slots.size()) { a.why = "slot"; return a; }
          if (writer[(size_t)s] && writer[(size_t)s] != (int)t) { a.why = "two writers"; return a; }
          writer[(size_t)s] = (int)t;
          a.written_conc[(size_t)s] = 1;
        }
      if (d.engine && op.e >= 0 && op.e < p.nengines) {
        if (euser[(size_t)op.e] && euser[(size_t)op.e] != (int)t) a.eng_shared[(size_t)op.e] = 1;
        euser[(size_t)op.e] = (int)t;
        if (op.kind >= K_LIB_END) emgr[(size_t)op.e] = (int)t;
        if (op.kind == K_COPYENG && op.i0 >= 0 && op.i0 < p.nengines) {
          if (euser[(size_t)op.i0] && euser[(size_t)op.i0] != (int)t) { a.why = "copied into a shared engine"; return a; }
          euser[(size_t)op.i0] = (int)t;
          emgr[(size_t)op.i0] = (int)t;
        }
      }
    }
  for (size_t e = 0; e < emgr.size(); e++) if (a.eng_shared[e] && emgr[e]) { a.why = "managed engine is shared"; return a; }
  for (size_t t = 2; t < p.tasks.size(); t++)
    for (auto &op : p.tasks[t]) {
      const OpDesc &d = OPS[op.kind];
      for (size_t i = 0; d.types[i]; i++)
        if (op.s[i] >= 0 && writer[(size_t)op.s[i]] && writer[(size_t)op.s[i]] != (int)t) { a.why = "read of a slot another task writes"; return a; }
      if (op.kind == K_CKPT || op.kind == K_XPROC) { a.why = "checkpoint in a concurrent task"; return a; }
    }
  Snap s;
  s.slots.resize(p.slots.size());
  s.eng.resize((size_t)p.nengines);
  for (size_t t = 1; t < p.tasks.size(); t++) {
    if ((int)p.tasks[t].size() > MAXOPS) { a.why = "too many operations"; return a; }
    Snap mine;
    Snap &cur = t == 1 ? s : (mine = s, mine);
    a.ex[t].resize(p.tasks[t].size());
    for (size_t i = 0; i < p.tasks[t].size(); i++) {
      const OpP &op = p.tasks[t][i];
      bool she = t >= 2 && op.e >= 0 && op.e < p.nengines && a.eng_shared[(size_t)op.e];
      if (she && !cur.eng[(size_t)op.e].alive) { a.why = "shared engine not alive"; return a; }
      if (!step_model(p, cur, op, a.ex[t][i], she, a.why, a.unknown)) {
        if (a.why == "costly") { a.bad_task = (int)t; a.bad_op = (int)i; }
        return a;
      }
      if (t == 1 && p.staged) a.after1.push_back(cur);
    }
    if (t == 1) a.after_builder = s;
  }
  a.ok = true;
  return a;
}

// ---- execution in a simulated process -----------------------------------------------------------------------
struct Proc {
  const Plan *p;
  const Annot *a;
  std::vector<void *> obj;
  std::vector<BP> know; // bytes every slot must have right now
  std::vector<AmiBase *> eng;
  std::vector<Opts> eopts;
  size_t start1 = 0;
};
static Proc *P;
static void *slot_obj(int s) {
  if (!P->obj[(size_t)s]) P->obj[(size_t)s] = new_obj(P->p->slots[(size_t)s]);
  return P->obj[(size_t)s];
}
static const char *TNAME[] = {"parms", "integrand", "externals", "solution", "terms", "factorised form"};
static void check_slot(int s, const char *when) {
  if (!P->know[(size_t)s] || !P->obj[(size_t)s]) return;
  Bytes b = ser_obj(P->p->slots[(size_t)s], P->obj[(size_t)s]);
  if (b != *P->know[(size_t)s])
    violation("input-modified", "%s in slot %d is not what it was %s", TNAME[P->p->slots[(size_t)s]], s, when);
}
static std::string dbl(u64 w) {
  double d;
  memcpy(&d, &w, 8);
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
static void checkpoint(int op) {
  Bytes b;
  int n = 0;
  Bytes body;
  for (size_t i = 0; i < P->know.size(); i++)
    if (P->know[i] && P->obj[i]) {
      Bytes x = ser_obj(P->p->slots[i], P->obj[i]);
      put(body, (int)i);
      put(body, (int)x.size());
      body += x;
      n++;
    }
  put(b, n);
  b += body;
  if (b.size() > durable_cap()) toobig("checkpoint too large");
  memcpy(durable(), b.data(), b.size());
  sh->durlen = b.size();
  sh->ckpt_op = op;
}
static void exec_op(int task, int idx) {
  const Plan &p = *P->p;
  const OpP &op = p.tasks[(size_t)task][(size_t)idx];
  const Expect &x = P->a->ex[(size_t)task][(size_t)idx];
  const OpDesc &d = OPS[op.kind];
  size_t ns = strlen(d.types);
  switch (op.kind) { // harness actions
  case K_NEWENG: {
    op_begin(idx, Fault());
    retbuf().clear();
    AmiBase *e = make_engine(true, op.i0);
    engine_fields(*e);
    op_end();
    if (x.known && retbuf() != x.ret) violation("value", "a new engine starts with other options than a new engine in a fresh process");
    set_opts(*e, op.opts);
    e->overflow_detected = false;
    P->eng[(size_t)op.e] = e;
    P->eopts[(size_t)op.e] = op.opts;
    return;
  }
  case K_DELENG:
    op_begin(idx, Fault());
    enter_lib();
    delete P->eng[(size_t)op.e];
    leave_lib();
    op_end();
    P->eng[(size_t)op.e] = nullptr;
    return;
  case K_SETOPT: apply_option(P->eopts[(size_t)op.e], op.i0, op.i1, op.d0); set_opts(*P->eng[(size_t)op.e], P->eopts[(size_t)op.e]); return;
  case K_POISON: P->eng[(size_t)op.e]->overflow_detected = op.i0 != 0; return;
  case K_COPYENG: {
    op_begin(idx, Fault());
    enter_lib();
    if (P->eng[(size_t)op.i0]) *P->eng[(size_t)op.i0] = *P->eng[(size_t)op.e];
    else P->eng[(size_t)op.i0] = new AmiBase(*P->eng[(size_t)op.e]);
    leave_lib();
    op_end();
    P->eopts[(size_t)op.i0] = P->eopts[(size_t)op.e];
    return;
  }
  case K_SETSLOT: {
    const Bytes &b = p.lits[(size_t)op.lit].b;
    de_obj(p.slots[(size_t)op.s[0]], slot_obj(op.s[0]), b);
    P->know[(size_t)op.s[0]] = std::make_shared<Bytes>(b);
    return;
  }
  case K_DROP:
    if (P->obj[(size_t)op.s[0]]) { del_obj(p.slots[(size_t)op.s[0]], P->obj[(size_t)op.s[0]]); P->obj[(size_t)op.s[0]] = nullptr; }
    P->know[(size_t)op.s[0]] = nullptr;
    return;
  case K_SERIAL: {
    Bytes b = ser_obj(p.slots[(size_t)op.s[0]], slot_obj(op.s[0]));
    de_obj(p.slots[(size_t)op.s[1]], slot_obj(op.s[1]), b);
    P->know[(size_t)op.s[1]] = std::make_shared<Bytes>(b);
    if (P->know[(size_t)op.s[0]] && b != *P->know[(size_t)op.s[0]]) check_slot(op.s[0], "when it was stored");
    return;
  }
  case K_CKPT: checkpoint(idx); return;
  case K_XPROC:
    checkpoint(idx);
    sh->v_op = idx;
    sh->st.crashes++;
    sh->outcome = O_CRASHPOINT;
    _exit(43);
  case K_ONESHOT:
    if (x.oneshot) {
      Bytes b = ser_obj(p.slots[(size_t)op.s[0]], slot_obj(op.s[0]));
      op_begin(idx, Fault());
      if (b != *x.oneshot) violation("value", "the solution built step by step differs from the one-shot construction");
    }
    return;
  default: break;
  }
  OpArgs a;
  if (d.engine) a.e = P->eng[(size_t)op.e];
  for (size_t i = 0; i < ns; i++) a.s[i] = slot_obj(op.s[i]);
  a.type0 = ns ? p.slots[(size_t)op.s[0]] : 0;
  a.i0 = op.i0;
  a.i1 = op.i1;
  a.d0 = op.d0;
  bool transient = (p.chk & C_TRANSIENT) != 0;
  u64 sig = 0;
  if (p.chk & C_HERMETIC) sig = env_signature();
  std::ios::fmtflags ff = std::cout.flags();
  std::streamsize fp = std::cout.precision(), fw = std::cout.width();
  int ffill = std::cout.fill();
  std::locale floc = std::cout.getloc();
  std::ios::iostate fexc = std::cout.exceptions();
  std::ostream *ftie = std::cout.tie();
  std::streambuf *fbuf = std::cout.rdbuf();
  size_t attempts = op.faults.size() + (op.mayfail ? 0 : 1);
  if (!attempts) attempts = 1;
  bool done = false;
  for (size_t at = 0; at < attempts && !done; at++) {
    Fault f = at < op.faults.size() ? op.faults[at] : Fault();
    op_begin(idx, f);
    dev_op_begin(op.dev);
    fexc = std::cout.exceptions();
    if (p.env.seed) { // what other code of the process left behind
      u64 h = mix(mix(p.env.seed, (u64)idx), (u64)at);
      if (h % 5 == 0 && x.known && x.text && x.out.empty() && x.err.empty()) std::cout.setstate(h & 32 ? std::ios::badbit : h & 64 ? std::ios::failbit : std::ios::eofbit);
      errno = h & 256 ? ERANGE : h & 512 ? ENOMEM : 0;
    }
    retbuf().clear();
    if (transient) {
      for (size_t i = 0; i < ns; i++) if (d.roles[i] == 'i') freeze_obj(p.slots[(size_t)op.s[i]], a.s[i], true);
      if (a.e) freeze_opts(*a.e, true);
    }
    paint_stack();
    int res = 0; // 1 ok 2 bad_alloc 3 other
    std::string what;
    enter_lib();
    try {
      run_lib_op(op.kind, a);
      leave_lib();
      res = 1;
    } catch (const std::bad_alloc &) {
      leave_lib();
      res = 2;
    } catch (const std::exception &e) {
      leave_lib();
      res = 3;
      what = e.what();
    } catch (...) {
      leave_lib();
      res = 3;
      what = "unknown exception";
    }
    leave_lib();
    if (transient) {
      for (size_t i = 0; i < ns; i++) if (d.roles[i] == 'i') freeze_obj(p.slots[(size_t)op.s[i]], a.s[i], false);
      if (a.e) freeze_opts(*a.e, false);
    }
    u64 hits = fault_hits();
    bool iofault = dev_fault_fired();
    op_end();
    // inputs and options, whatever happened
    for (size_t i = 0; i < ns; i++) if (d.roles[i] == 'i') check_slot(op.s[i], res == 1 ? "before the call" : "before the failed call");
    if (a.e && !same_opts(get_opts(*a.e), P->eopts[(size_t)op.e])) violation("input-modified", "%s changed the options of the engine", d.name);
    if ((p.chk & C_DEVICE) || (p.chk & C_HERMETIC)) {
      if (std::cout.flags() != ff || std::cout.precision() != fp || std::cout.width() != fw || std::cout.fill() != ffill)
        violation("stream-format", "%s left the formatting of the output stream changed (precision %d, was %d)", d.name,
                  (int)std::cout.precision(), (int)fp);
      if (std::cout.getloc() != floc) violation("stream-format", "%s left the output stream with another locale", d.name);
      if (std::cout.exceptions() != fexc || std::cout.tie() != ftie || std::cout.rdbuf() != fbuf)
        violation("stream-format", "%s left the output stream with another buffer, tie or exception mask", d.name);
    }
    if (p.chk & C_HERMETIC) {
      if (env_signature() != sig) violation("environment", "%s changed a process-wide setting", d.name);
      if (sh->st.settings) violation("environment", "%s set a timer of the process", d.name);
      if (sh->st.files_written) violation("environment", "%s opened a file for writing", d.name);
      bool quiet = !(a.e && P->eopts[(size_t)op.e].verbose) && op.kind != K_PRINT && op.kind != K_PRINT_T;
      struct stat sb;
      if (quiet && (!dev_out().empty() || !dev_err().empty()) && !(x.text && (!x.err.empty() && op.kind == K_UPD_SIMPLE)))
        violation("output", "%s wrote output although diagnostics are off: %.80s", d.name, (dev_out() + dev_err()).c_str());
      if (!fstat(1, &sb) && sb.st_size > 0) violation("output", "%s wrote to the process's standard output or error: %.80s", d.name, captured().c_str());
    }
    if (res == 2) {
      if (!hits && x.known) violation("exception", "%s reported exhausted memory although no allocation failed", d.name);
    }
    if (res == 3) {
      if (op.dev.exc && iofault) {
        for (size_t i = 0; i < ns; i++) if (d.roles[i] == 'o' || d.roles[i] == 'b') P->know[(size_t)op.s[i]] = nullptr;
        return; // the user asked the stream to throw
      }
      if (x.known) violation("exception", "%s ended with an exception that is not std::bad_alloc: %s%s", d.name, what.c_str(),
                             hits ? " (after an allocation failed)" : "");
      res = 2;
    }
    if (res == 2) {
      for (size_t i = 0; i < ns; i++)
        if (d.roles[i] == 'o' || d.roles[i] == 'b') {
          BP before = P->know[(size_t)op.s[i]];
          P->know[(size_t)op.s[i]] = nullptr;
          if (d.roles[i] == 'b' && at + 1 < attempts && before) { // the client restores its in-place argument
            de_obj(p.slots[(size_t)op.s[i]], a.s[i], *before);
            P->know[(size_t)op.s[i]] = before;
          }
        }
      if (p.chk & C_ALLSLOTS)
        for (size_t s = 0; s < P->know.size(); s++) check_slot((int)s, "before the failed call");
      continue;
    }
    done = true;
    if (!x.known) { for (size_t i = 0; i < ns; i++) if (d.roles[i] == 'o' || d.roles[i] == 'b') P->know[(size_t)op.s[i]] = nullptr; return; }
    // values
    std::vector<u64> &r = retbuf();
    if (r != x.ret) {
      size_t k = 0;
      while (k < r.size() && k < x.ret.size() && r[k] == x.ret[k]) k++;
      violation("value", "%s gave a result that differs from the same call alone in a fresh process: word %zu of %zu is %s, expected %s",
                d.name, k, r.size(), k < r.size() ? dbl(r[k]).c_str() : "missing", k < x.ret.size() ? dbl(x.ret[k]).c_str() : "none");
    }
    for (auto &o : x.outs) {
      Bytes b = ser_obj(p.slots[(size_t)o.first], P->obj[(size_t)o.first]);
      if (b != *o.second) violation("value", "%s built a %s that differs from the same call alone in a fresh process", d.name, TNAME[p.slots[(size_t)o.first]]);
      P->know[(size_t)o.first] = o.second;
    }
    if (op.kind == K_MOVE) P->know[(size_t)op.s[0]] = nullptr;
    if (a.e && x.ovf >= 0 && (int)a.e->overflow_detected != x.ovf)
      violation("indicator", "after %s the overflow indicator is %d, the same call alone in a fresh process gives %d", d.name,
                (int)a.e->overflow_detected, x.ovf);
    if (x.ovf == 1 && d.flag != 'N') probe(0);
    if (hits) probe(1);
    if ((p.chk & C_DEVICE) && x.text && !hits && !p.colpr && !p.locale) {
      const std::string &got = dev_out();
      if (iofault) {
        if (got.size() > x.out.size() || x.out.compare(0, got.size(), got)) violation("output", "%s: what the failing device received is not a prefix of the report", d.name);
        probe(2);
      } else if (got != x.out && !(op.dev.mode != D_OK && got.size() <= x.out.size() && !x.out.compare(0, got.size(), got)))
        violation("output", "%s: the report differs from the report of the same call in a fresh process (%zu bytes, expected %zu)", d.name, got.size(), x.out.size());
      if (!x.out.empty()) probe(3);
    }
  }
}
static void destroy_all() {
  for (size_t i = 0; i < P->obj.size(); i++) {
    if (P->obj[i]) del_obj(P->p->slots[i], P->obj[i]);
    P->obj[i] = nullptr;
    P->know[i] = nullptr;
  }
  for (auto &e : P->eng) { delete e; e = nullptr; }
}
static void task_main(int id, void *) {
  const Plan &p = *P->p;
  size_t from = id == 1 ? P->start1 : 0;
  if (p.reps < 2 || p.tasks.size() > 2 || id != 1) {
    for (size_t i = from; i < p.tasks[(size_t)id].size(); i++) exec_op(id, (int)i);
    return;
  }
  // the same history again and again in one thread; what the library holds afterwards must stop growing
  u64 base = live_lib_bytes(), half = 0, now = 0;
  std::string growth;
  for (int r = 1; r <= p.reps; r++) {
    restart_ops();
    for (size_t i = 0; i < p.tasks[1].size(); i++) exec_op(1, (int)i);
    for (size_t s = 0; s < p.slots.size(); s++) check_slot((int)s, "when it was stored");
    destroy_all();
    now = live_lib_bytes();
    if (r & (r - 1)) continue;
    growth += " " + std::to_string((long long)(now - base));
    if (r >= 4 && now <= half) return;
    half = now;
  }
  if (p.reps > 3 && (p.chk & C_LEAK))
    violation("leak", "memory held by the library after 1, 2, 4, ... %d repetitions of the same history:%s bytes", p.reps, growth.c_str());
}
struct CommaPunct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
rt::u64 value_slack = 0;
static void child_main(const Plan &p, const Annot &a, int stage_start, const Bytes &dur, const SchedCfg &sc) {
  child_redirect();
  dev_install();
  value_slack = p.seed & 16 ? p.seed | 1 : 0;
  if (p.locale == 1) setlocale(LC_ALL, "C.utf8");
  if (p.locale == 3) std::cout.imbue(std::locale(std::locale(), new std::numpunct<char>)); // the same texts, another locale
  if (p.locale == 2) { std::locale::global(std::locale(std::locale(), new CommaPunct)); std::cout.imbue(std::locale()); }
  if (p.colpr) {
    std::cout.precision(p.colpr);
    if (p.colpr == 3 && (p.chk & C_HERMETIC)) std::cout << std::hex << std::showpos << std::boolalpha << std::uppercase << std::scientific;
  }
  if (p.env.seed & 1) std::cin.rdbuf(new std::stringbuf(std::to_string(p.env.seed))); // somebody typed something
  Proc pr;
  P = &pr;
  pr.p = &p;
  pr.a = &a;
  pr.obj.assign(p.slots.size(), nullptr);
  pr.know.assign(p.slots.size(), nullptr);
  pr.eng.assign((size_t)p.nengines, nullptr);
  pr.eopts.assign((size_t)p.nengines, Opts());
  proc_begin(p.mem, sc, p.env);
  if (stage_start > 0) { // a new process: only what was durable is there
    pr.start1 = (size_t)stage_start;
    Rd r{dur.data(), dur.data() + dur.size()};
    int n;
    get(r, n);
    for (int i = 0; i < n; i++) {
      int s, len;
      get(r, s);
      get(r, len);
      Bytes b(r.p, (size_t)len);
      r.p += len;
      de_obj(p.slots[(size_t)s], slot_obj(s), b);
      pr.know[(size_t)s] = std::make_shared<Bytes>(b);
    }
    const Snap &sn = a.after1[(size_t)stage_start - 1];
    for (size_t e = 0; e < sn.eng.size(); e++)
      if (sn.eng[e].alive) {
        pr.eng[e] = make_engine(false);
        set_opts(*pr.eng[e], sn.eng[e].o);
        pr.eopts[e] = sn.eng[e].o;
        pr.eng[e]->overflow_detected = sn.eng[e].ovf == 1;
      }
  }
  run_tasks(1, 1, task_main, nullptr);
  if (p.tasks.size() > 2) {
    for (size_t s = 0; s < p.slots.size(); s++)
      if (pr.know[s] && !a.written_conc[s] && pr.obj[s]) freeze_obj(p.slots[s], pr.obj[s], true);
    for (size_t e = 0; e < pr.eng.size(); e++)
      if (pr.eng[e] && a.eng_shared[e]) { freeze_opts(*pr.eng[e], true); exempt_race(&pr.eng[e]->overflow_detected, 1); }
    run_tasks(2, (int)p.tasks.size() - 1, task_main, nullptr);
    for (size_t s = 0; s < p.slots.size(); s++)
      if (pr.know[s] && !a.written_conc[s] && pr.obj[s]) { check_slot((int)s, "before it was shared"); freeze_obj(p.slots[s], pr.obj[s], false); }
    for (size_t e = 0; e < pr.eng.size(); e++)
      if (pr.eng[e] && !same_opts(get_opts(*pr.eng[e]), pr.eopts[e])) violation("input-modified", "options of engine %zu changed", e);
  } else
    for (size_t s = 0; s < p.slots.size(); s++) check_slot((int)s, "when it was stored");
  if (p.chk & C_HERMETIC) {
    int n = 0;
    if (DIR *dd = opendir(".")) {
      while (readdir(dd)) n++;
      closedir(dd);
    }
    if (n > 2) violation("environment", "files appeared in the working directory");
  }
}

RunRes run_plan(const Plan &p, const Annot &a) {
  RunRes R;
  child_io();
  SchedCfg sc = p.sched;
  int start = 0;
  Bytes dur;
  memset(R.probes, 0, sizeof R.probes);
  memset((void *)&R.st, 0, sizeof R.st);
  R.opsteps.resize(p.tasks.size());
  R.opallocs.resize(p.tasks.size());
  R.opmax.resize(p.tasks.size());
  R.opfail.resize(p.tasks.size());
  for (size_t t = 1; t < p.tasks.size(); t++) {
    R.opsteps[t].assign(p.tasks[t].size(), 0);
    R.opallocs[t].assign(p.tasks[t].size(), 0);
    R.opmax[t].assign(p.tasks[t].size(), 0);
    R.opfail[t].assign(p.tasks[t].size(), 0);
  }
  for (int stage = 0; stage < 64; stage++) {
    if (ftruncate(capfd, 0)) {}
    lseek(capfd, 0, SEEK_SET);
    sh->outcome = O_NONE;
    sh->kind[0] = sh->msg[0] = 0;
    sh->v_task = sh->v_op = -1;
    sh->nsw = 0;
    sh->ckpt_op = -1;
    sh->durlen = 0;
    sh->evhash = sh->interleave = 0;
    if (sc.record == 1) { memset(sh->actx, 0, sizeof sh->actx); memset(sh->fctx, 0, sizeof sh->fctx); memset(sh->sctx, 0, sizeof sh->sctx); }
    sh->nactx = sh->nfctx = sh->nsctx = sh->nfailctx = 0;
    memset((void *)&sh->st, 0, sizeof sh->st);
    memset(sh->probes, 0, sizeof sh->probes);
    for (size_t t = 1; t < p.tasks.size(); t++) {
      memset(sh->opsteps[t], 0, p.tasks[t].size() * sizeof(u64));
      memset(sh->opallocs[t], 0, p.tasks[t].size() * sizeof(u32));
      memset(sh->opmax[t], 0, p.tasks[t].size() * sizeof(u32));
      memset(sh->opfail[t], 0, p.tasks[t].size());
    }
    pid_t pid = fork();
    if (pid == 0) {
      child_main(p, a, start, dur, sc);
      // finish through the runtime so that hashes are stored
      extern void finish_ok();
      finish_ok();
    }
    int st;
    while (waitpid(pid, &st, 0) < 0) {}
    R.stages++;
    R.evhash = mix(R.evhash, sh->evhash);
    R.interleave = mix(R.interleave, sh->interleave);
    u64 *d = (u64 *)&R.st, *s = (u64 *)&sh->st;
    for (size_t i = 0; i < sizeof(Stats) / 8; i++) d[i] += s[i];
    for (int i = 0; i < 64; i++) R.probes[i] += sh->probes[i];
    for (size_t t = 1; t < p.tasks.size(); t++)
      for (size_t i = 0; i < p.tasks[t].size(); i++) {
        if (sh->opsteps[t][i]) { R.opsteps[t][i] = sh->opsteps[t][i]; R.opallocs[t][i] = sh->opallocs[t][i]; R.opmax[t][i] = sh->opmax[t][i]; }
        R.opfail[t][i] |= sh->opfail[t][i];
      }
    R.sw.assign(sh->sw, sh->sw + sh->nsw);
    if (sc.record) R.failctx.insert(R.failctx.end(), sh->failctx, sh->failctx + sh->nfailctx);
    if (sc.record == 1) {
      for (auto &c : sh->actx) if (c.key) R.actx.push_back(c);
      for (auto &c : sh->fctx) if (c.key) R.fctx.push_back(c);
      for (auto &c : sh->sctx) if (c.key) R.sctx.push_back(c);
    }
    R.v_task = sh->v_task;
    R.v_op = sh->v_op;
    R.kind = sh->kind;
    R.msg = sh->msg;
    if (sh->outcome == O_CRASHPOINT && WIFEXITED(st) && p.staged) {
      // restart from the last durable state
      int cop = sh->v_op;
      if (sh->ckpt_op >= 0) { start = sh->ckpt_op + 1; dur.assign(durable(), sh->durlen); }
      for (size_t i = 0; i < sc.crash.size(); i++)
        if (sc.crash[i].op == cop) { sc.crash.erase(sc.crash.begin() + (long)i); break; }
      continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->outcome == O_OK) { R.outcome = O_OK; return R; }
    if (sh->outcome == O_VIOL) { R.outcome = O_VIOL; return R; }
    if (sh->outcome == O_INFRA || sh->outcome == O_SKIP) { R.outcome = sh->outcome; return R; }
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      R.outcome = sg == SIGALRM || sg == SIGKILL ? O_INFRA : O_VIOL;
      R.kind = sg == SIGXCPU ? "hang" : "crash";
      R.msg = std::string("the process was killed by signal ") + std::to_string(sg) + (sg == SIGABRT ? " (abort/terminate)" : sg == SIGSEGV ? " (invalid memory access)" : sg == SIGXCPU ? " (processor time exhausted)" : "");
      return R;
    }
    R.outcome = O_VIOL;
    R.kind = "crash";
    R.msg = "the library ended the process with exit status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    return R;
  }
  R.outcome = O_INFRA;
  R.msg = "too many process restarts";
  return R;
}
