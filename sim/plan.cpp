// Plan text form.
#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
#include <sstream>

const OpDesc OPS[K_N] = {
    {"construct", "PGS", "iio", 'N', true},
    {"construct_terms", "PGT", "iio", 'N', true},
    {"construct_terms_n", "GT", "io", 'N', true},
    {"construct_alias", "PS", "ib", 'N', true},
    {"factorize_Rn", "SF", "io", 'N', true},
    {"factorize_terms", "TF", "io", 'N', true},
    {"evaluate", "PSX", "iii", 'E', true},
    {"evaluate_opt", "PSXF", "iiii", 'E', true},
    {"evaluate_terms", "PTX", "iii", 'E', true},
    {"evaluate_terms_opt", "PTXF", "iiii", 'E', true},
    {"evaluate_otf", "PSX", "iii", 'E', true},
    {"step", "S", "b", 'N', true},
    {"step_terms", "TT", "io", 'N', true},
    {"start", "GS", "io", 'N', true},
    {"start_terms", "GT", "io", 'N', true},
    {"manual", "PSX", "iii", 'L', true},
    {"manual_opt", "PSXF", "iiii", 'L', true},
    {"manual_terms", "PTX", "iii", 'L', true},
    {"residue", "G", "i", 'N', true},
    {"residue_terms", "T", "i", 'N', true},
    {"scalars", "X", "i", 'L', true},
    {"derivative_opt", "F", "b", 'N', true},
    {"equiv", "G", "i", 'N', true},
    {"triggers", "PSX", "iii", 'L', true},
    {"copy", "**", "io", 'N', false},
    {"move", "**", "mo", 'N', false},
    {"energies", "SX", "ii", 'N', true},
    {"print", "S", "i", 'N', true},
    {"default_parms", "P", "o", 'N', false},
    {"update_simple", "S", "b", 'N', true},
    {"fermi_poles", "PSX", "iii", 'L', true},
    {"reduce_rref", "F", "i", 'N', true},
    {"print_terms", "T", "i", 'N', true},
    {"defaults", "", "", 'N', false},
    {"mark", "S", "b", 'N', true},
    {"mark_terms", "T", "b", 'N', true},
    {"new_engine", "", "", 'N', true},
    {"delete_engine", "", "", 'N', true},
    {"set_option", "", "", 'N', true},
    {"copy_engine", "", "", 'N', true},
    {"set", "*", "o", 'N', false},
    {"drop", "*", "d", 'N', false},
    {"checkpoint", "", "", 'N', false},
    {"new_process", "", "", 'N', false},
    {"oneshot", "*PG", "iii", 'N', false},
    {"serialise", "**", "io", 'N', false},
    {"poke_overflow", "", "", 'N', true},
};
int opkind(const std::string &n) {
  for (int i = 0; i < K_N; i++) if (n == OPS[i].name) return i;
  return -1;
}
VType type_of(char c) {
  switch (c) { case 'P': return V_PARMS; case 'G': return V_G; case 'X': return V_EXT; case 'S': return V_SOL; case 'T': return V_TERMS; default: return V_FAC; }
}
static const char *TN[] = {"parms", "integrand", "externals", "solution", "terms", "factorised"};
static const char *FN[] = {"none", "nth", "from", "size", "limit"};
static const char *PN[] = {"serial", "list", "random", "target", "pct"};

static std::string hex(const Bytes &b) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (unsigned char c : b) { s += d[c >> 4]; s += d[c & 15]; }
  return s;
}
static Bytes unhex(const std::string &s) {
  Bytes b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return b;
}
static std::string human(const Lit &l) {
  std::ostringstream o;
  Rd r{l.b.data(), l.b.data() + l.b.size()};
  if (l.type == V_G) {
    AmiBase::g_prod_t g;
    get(r, g);
    for (auto &x : g) {
      o << " G(eps=";
      for (int v : x.eps_) o << v << ",";
      o << " alpha=";
      for (int v : x.alpha_) o << v << ",";
      o << " species=" << x.species_ << ")";
    }
  } else if (l.type == V_EXT) {
    AmiBase::ami_vars v;
    get(r, v);
    o << " energies=";
    for (auto &c : v.energy_) o << c << ",";
    o << " frequencies=";
    for (auto &c : v.frequency_) o << c << ",";
    o << " prefactor=" << v.prefactor << " beta=" << v.BETA_;
  } else if (l.type == V_PARMS) {
    AmiBase::ami_parms p;
    get(r, p);
    o << " N_INT=" << p.N_INT_ << " E_REG=" << p.E_REG_ << " type=" << (int)p.TYPE_;
  }
  return o.str();
}
std::string plan_text(const Plan &p) {
  std::ostringstream o;
  char b[256];
  o << "simplan 1\nprop " << p.prop << "\nvariant " << p.variant << "\nseed " << p.seed << "\n";
  o << "mem " << p.mem.reuse << " " << p.mem.fill << " " << p.mem.fillseed << " " << p.mem.shift << " " << p.mem.paint << "\n";
  o << "env " << p.env.seed << " " << p.env.getenv_mode << " " << p.env.files << "\n";
  o << "proc " << p.locale << " " << p.rounding << " " << p.colpr << "\n";
  snprintf(b, sizeof b, "sched %s %llu %llu %a %d %llu %llu %d %d\n", PN[p.sched.policy], (unsigned long long)p.sched.seed,
           (unsigned long long)p.sched.mean, p.sched.ptarget, p.sched.depth, (unsigned long long)p.sched.pctlen,
           (unsigned long long)p.sched.budget, p.sched.maxsw, p.sched.race);
  o << b;
  for (auto &s : p.sched.list) o << "switch " << s.task << " " << s.op << " " << s.step << " " << s.next << "\n";
  for (auto &s : p.sched.stalls) o << "stall " << s.task << " " << s.op << " " << s.step << " " << s.arg << "\n";
  for (auto &s : p.sched.crash) o << "crash " << s.task << " " << s.op << " " << s.step << "\n";
  o << "reps " << p.reps << "\nchk " << p.chk << "\nstaged " << p.staged << "\nengines " << p.nengines << "\nslots";
  for (int t : p.slots) o << " " << TN[t];
  o << "\n";
  for (size_t i = 0; i < p.lits.size(); i++) {
    o << "#" << human(p.lits[i]) << "\n";
    o << "lit " << i << " " << TN[p.lits[i].type] << " " << hex(p.lits[i].b) << "\n";
  }
  for (size_t t = 1; t < p.tasks.size(); t++) {
    o << "task " << t << "\n";
    for (auto &op : p.tasks[t]) {
      o << "op " << OPS[op.kind].name << " e=" << op.e << " s=";
      for (int i = 0; i < 5; i++) o << (i ? "," : "") << op.s[i];
      snprintf(b, sizeof b, " i=%d,%d d=%a", op.i0, op.i1, op.d0);
      o << b << " lit=" << op.lit;
      if (op.kind == K_NEWENG || op.kind == K_ONESHOT) {
        Bytes ob;
        put(ob, op.opts);
        o << " opts=" << hex(ob);
      }
      if (!op.faults.empty()) {
        o << " faults=";
        for (size_t i = 0; i < op.faults.size(); i++)
          o << (i ? "," : "") << FN[op.faults[i].kind] << ":" << op.faults[i].n << ":" << op.faults[i].nth;
      }
      if (op.mayfail) o << " mayfail=1";
      if (op.dev.mode || op.dev.exc) o << " dev=" << op.dev.mode << ":" << op.dev.at << ":" << op.dev.exc;
      o << "\n";
    }
  }
  o << "end\n";
  return o.str();
}
bool plan_parse(const std::string &text, Plan &p, std::string &err) {
  std::istringstream in(text);
  std::string line;
  p = Plan();
  p.tasks.resize(1);
  bool ended = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "simplan") continue;
    else if (w == "prop") l >> p.prop;
    else if (w == "variant") l >> p.variant;
    else if (w == "seed") l >> p.seed;
    else if (w == "mem") l >> p.mem.reuse >> p.mem.fill >> p.mem.fillseed >> p.mem.shift >> p.mem.paint;
    else if (w == "env") l >> p.env.seed >> p.env.getenv_mode >> p.env.files;
    else if (w == "proc") l >> p.locale >> p.rounding >> p.colpr;
    else if (w == "sched") {
      std::string pn, pt;
      l >> pn >> p.sched.seed >> p.sched.mean >> pt >> p.sched.depth >> p.sched.pctlen >> p.sched.budget >> p.sched.maxsw >> p.sched.race;
      for (int i = 0; i < 5; i++) if (pn == PN[i]) p.sched.policy = i;
      p.sched.ptarget = strtod(pt.c_str(), nullptr);
    } else if (w == "switch") { rt::Switch s; l >> s.task >> s.op >> s.step >> s.next; p.sched.list.push_back(s); }
    else if (w == "stall") { rt::PointAt s; l >> s.task >> s.op >> s.step >> s.arg; p.sched.stalls.push_back(s); }
    else if (w == "crash") { rt::PointAt s; l >> s.task >> s.op >> s.step; p.sched.crash.push_back(s); }
    else if (w == "reps") l >> p.reps;
    else if (w == "chk") l >> p.chk;
    else if (w == "staged") l >> p.staged;
    else if (w == "engines") l >> p.nengines;
    else if (w == "slots") {
      std::string t;
      while (l >> t) for (int i = 0; i < V_NTYPES; i++) if (t == TN[i]) p.slots.push_back(i);
    } else if (w == "lit") {
      size_t i;
      std::string t, h;
      l >> i >> t >> h;
      Lit lt;
      for (int k = 0; k < V_NTYPES; k++) if (t == TN[k]) lt.type = k;
      lt.b = unhex(h);
      if (p.lits.size() <= i) p.lits.resize(i + 1);
      p.lits[i] = lt;
    } else if (w == "task") { size_t t; l >> t; p.tasks.resize(t + 1); }
    else if (w == "op") {
      OpP op;
      std::string n, kv;
      l >> n;
      op.kind = opkind(n);
      if (op.kind < 0) { err = "unknown operation " + n; return false; }
      while (l >> kv) {
        size_t q = kv.find('=');
        std::string k = kv.substr(0, q), v = kv.substr(q + 1);
        if (k == "e") op.e = atoi(v.c_str());
        else if (k == "s") sscanf(v.c_str(), "%d,%d,%d,%d,%d", &op.s[0], &op.s[1], &op.s[2], &op.s[3], &op.s[4]);
        else if (k == "i") sscanf(v.c_str(), "%d,%d", &op.i0, &op.i1);
        else if (k == "d") op.d0 = strtod(v.c_str(), nullptr);
        else if (k == "lit") op.lit = atoi(v.c_str());
        else if (k == "opts") { Bytes b = unhex(v); Rd r{b.data(), b.data() + b.size()}; get(r, op.opts); }
        else if (k == "mayfail") op.mayfail = atoi(v.c_str());
        else if (k == "dev") { unsigned long long at; sscanf(v.c_str(), "%d:%llu:%d", &op.dev.mode, &at, &op.dev.exc); op.dev.at = at; }
        else if (k == "faults") {
          std::istringstream fs(v);
          std::string f;
          while (std::getline(fs, f, ',')) {
            char nm[16];
            unsigned long long a, c;
            if (sscanf(f.c_str(), "%15[^:]:%llu:%llu", nm, &a, &c) != 3) { err = "bad fault " + f; return false; }
            rt::Fault ft;
            for (int i = 0; i < 5; i++) if (!strcmp(nm, FN[i])) ft.kind = i;
            ft.n = a;
            ft.nth = c;
            op.faults.push_back(ft);
          }
        }
      }
      if (p.tasks.size() < 2) { err = "operation outside a task"; return false; }
      p.tasks.back().push_back(op);
    } else if (w == "end") { ended = true; break; }
    else { err = "unknown line " + w; return false; }
  }
  if (!ended) err = "truncated plan";
  return ended;
}
u64 plan_hash(const Plan &p) {
  std::string t = plan_text(p);
  return rt::hash_bytes(t.data(), t.size());
}
