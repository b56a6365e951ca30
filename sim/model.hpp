// Values handled by simulated clients, their serialised form, and the client operations.
#pragma once
#include "ami_base.hpp"
#include "rt.hpp"
#include <cstring>

enum VType { V_PARMS = 0, V_G, V_EXT, V_SOL, V_TERMS, V_FAC, V_NTYPES };
struct Sol { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; };
struct Fac { AmiBase::g_prod_t U; AmiBase::R_ref_t R; AmiBase::ref_eval_t E; };

// engine options: the public configuration fields
struct Opts {
  double exp_max_arg = 500.0, precision_cutoff = 1e15;
  int drop_bosonic_diverge = 0, drop_der = 0, drop_matsubara_poles = 1, zero_external_w = 0, verbose = 0, bosonic_external = 0,
      ext_freq_type = 0;
};

enum OpKind {
  K_CONSTRUCT = 0, K_CONSTRUCT_T, K_CONSTRUCT_TN, K_CONSTRUCT_ALIAS, K_FACT_RN, K_FACT_T,
  K_EVAL, K_EVAL_OPT, K_EVAL_T, K_EVAL_TOPT, K_EVAL_OTF,
  K_STEP, K_STEP_T, K_START, K_START_T,
  K_MANUAL, K_MANUAL_OPT, K_MANUAL_T, K_RESIDUE, K_TRESIDUE, K_SCALARS, K_DEROPT, K_EQUIV, K_TRIGGERS,
  K_COPY, K_MOVE, K_ENERGIES, K_PRINT, K_DEFPARMS, K_UPD_SIMPLE, K_FPOLE, K_REDUCE, K_PRINT_T, K_DEFAULTS, K_MARK, K_MARK_T,
  K_LIB_END, // operations above run library code; below are harness actions
  K_NEWENG = K_LIB_END, K_DELENG, K_SETOPT, K_COPYENG, K_SETSLOT, K_DROP, K_CKPT, K_XPROC, K_ONESHOT, K_SERIAL, K_POISON, K_N
};

struct OpArgs { // filled in by the harness
  AmiBase *e = nullptr;
  void *s[6] = {nullptr};
  int type0 = 0;
  int i0 = 0, i1 = 0;
  double d0 = 0;
};
void run_lib_op(int kind, OpArgs &a); // instrumented client code
AmiBase *lib_engine(int how);         // the ways to make an engine
void engine_fields(const AmiBase &e); // ENGF words
enum { ENGF = 10 };

// results of an operation, from client code (library context)
void ret_u(rt::u64 v);
void ret_d(double v);
void ret_c(std::complex<double> v);
void ret_g(const AmiBase::g_prod_t &v);
void ret_gs(const AmiBase::g_struct &v);
void ret_p(const AmiBase::pole_struct &v);
void ret_pa(const AmiBase::pole_array_t &v);
void ret_ri(const AmiBase::Ri_t &v);
void ret_sorf(const AmiBase::SorF_t &v);
void ret_sign(const AmiBase::sign_t &v);
void ret_terms(const AmiBase::terms &v);
void ret_ivv(const std::vector<std::vector<int>> &v);
void ret_refs(const AmiBase::R_ref_t &v);

// ---- serialisation -------------------------------------------------------------------------------------
typedef std::string Bytes;
struct Rd { const char *p, *e; };
extern rt::u64 value_slack; // 0: read values get exactly the capacity they need
inline void put(Bytes &b, const void *p, size_t n) { b.append((const char *)p, n); }
inline void put(Bytes &b, int v) { put(b, &v, 4); }
inline void put(Bytes &b, rt::u64 v) { put(b, &v, 8); }
inline void put(Bytes &b, double v) {
  if (v != v) v = __builtin_nan("");
  put(b, &v, 8);
}
inline void put(Bytes &b, const std::complex<double> &v) { put(b, v.real()); put(b, v.imag()); }
inline void put(Bytes &b, const std::pair<int, int> &v) { put(b, v.first); put(b, v.second); }
inline void get(Rd &r, void *p, size_t n) {
  if ((size_t)(r.e - r.p) < n) rt::infra("short value");
  memcpy(p, r.p, n);
  r.p += n;
}
inline void get(Rd &r, int &v) { get(r, &v, 4); }
inline void get(Rd &r, double &v) { get(r, &v, 8); }
inline void get(Rd &r, std::complex<double> &v) { double a, b; get(r, a); get(r, b); v = std::complex<double>(a, b); }
inline void get(Rd &r, std::pair<int, int> &v) { get(r, v.first); get(r, v.second); }
template <class T> void put(Bytes &b, const std::vector<T> &v);
template <class T> void get(Rd &r, std::vector<T> &v);
inline void put(Bytes &b, const AmiBase::g_struct &g) {
  put(b, g.eps_); put(b, g.alpha_); put(b, (int)g.stat_); put(b, (int)g.species_); put(b, (int)g.eff_stat_); put(b, g.pp);
}
inline void get(Rd &r, AmiBase::g_struct &g) {
  int x;
  get(r, g.eps_); get(r, g.alpha_); get(r, x); g.stat_ = (AmiBase::stat_type)x; get(r, x); g.species_ = x;
  get(r, x); g.eff_stat_ = (AmiBase::stat_type)x; get(r, g.pp);
}
inline void put(Bytes &b, const AmiBase::pole_struct &p) {
  put(b, p.eps_); put(b, p.alpha_); put(b, p.index_); put(b, p.multiplicity_); put(b, p.der_); put(b, p.which_g_); put(b, p.x_alpha_);
}
inline void get(Rd &r, AmiBase::pole_struct &p) {
  get(r, p.eps_); get(r, p.alpha_); get(r, p.index_); get(r, p.multiplicity_); get(r, p.der_); get(r, p.which_g_); get(r, p.x_alpha_);
}
inline void put(Bytes &b, const AmiBase::term &t) { put(b, t.sign); put(b, t.p_list); put(b, t.g_list); }
inline void get(Rd &r, AmiBase::term &t) { get(r, t.sign); get(r, t.p_list); get(r, t.g_list); }
template <class T> void put(Bytes &b, const std::vector<T> &v) {
  put(b, (int)v.size());
  for (size_t i = 0; i < v.size(); i++) put(b, v[i]);
}
template <class T> void get(Rd &r, std::vector<T> &v) {
  int n;
  get(r, n);
  if (n < 0 || n > (1 << 24)) rt::infra("bad length");
  v.clear();
  if (value_slack) { // spare capacity, as in containers that grew piece by piece
    rt::u64 h = rt::mix(value_slack, (rt::u64)(r.e - r.p));
    if (h & 1) v.reserve((size_t)n + 1 + (h >> 8) % ((h & 6) ? 4 : 40));
  }
  v.resize((size_t)n);
  for (int i = 0; i < n; i++) get(r, v[(size_t)i]);
}
inline void put(Bytes &b, const AmiBase::ami_parms &p) {
  put(b, p.N_INT_); put(b, p.N_EXT_); put(b, p.E_REG_); put(b, p.tol_); put(b, (int)p.TYPE_); put(b, (int)p.int_type_); put(b, (int)p.dispersion_);
}
inline void get(Rd &r, AmiBase::ami_parms &p) {
  int x;
  get(r, p.N_INT_); get(r, p.N_EXT_); get(r, p.E_REG_); get(r, p.tol_);
  get(r, x); p.TYPE_ = (AmiBase::graph_type)x; get(r, x); p.int_type_ = (AmiBase::int_type)x; get(r, x); p.dispersion_ = (AmiBase::disp_type)x;
}
// input values keep their exact bits (poison values included)
inline void put(Bytes &b, const AmiBase::ami_vars &v) {
  put(b, v.energy_); put(b, v.frequency_); put(b, v.prefactor); put(b, v.BETA_); put(b, v.gamma_);
}
inline void get(Rd &r, AmiBase::ami_vars &v) {
  get(r, v.energy_); get(r, v.frequency_); get(r, v.prefactor); get(r, v.BETA_); get(r, v.gamma_);
}
inline void put(Bytes &b, const Sol &s) { put(b, s.R); put(b, s.P); put(b, s.S); }
inline void get(Rd &r, Sol &s) { get(r, s.R); get(r, s.P); get(r, s.S); }
inline void put(Bytes &b, const Fac &f) { put(b, f.U); put(b, f.R); put(b, f.E); }
inline void get(Rd &r, Fac &f) { get(r, f.U); get(r, f.R); get(r, f.E); }
inline void put(Bytes &b, const Opts &o) {
  put(b, o.exp_max_arg); put(b, o.precision_cutoff); put(b, o.drop_bosonic_diverge); put(b, o.drop_der); put(b, o.drop_matsubara_poles);
  put(b, o.zero_external_w); put(b, o.verbose); put(b, o.bosonic_external); put(b, o.ext_freq_type);
}
inline void get(Rd &r, Opts &o) {
  get(r, o.exp_max_arg); get(r, o.precision_cutoff); get(r, o.drop_bosonic_diverge); get(r, o.drop_der); get(r, o.drop_matsubara_poles);
  get(r, o.zero_external_w); get(r, o.verbose); get(r, o.bosonic_external); get(r, o.ext_freq_type);
}

// ---- the memory an object occupies ---------------------------------------------------------------------
typedef void (*RangeFn)(const void *p, size_t n, void *arg);
inline void walk(int, RangeFn, void *) {}
inline void walk(double, RangeFn, void *) {}
inline void walk(const std::complex<double> &, RangeFn, void *) {}
inline void walk(const std::pair<int, int> &, RangeFn, void *) {}
template <class T> void walk(const std::vector<T> &v, RangeFn f, void *a);
inline void walk(const AmiBase::g_struct &g, RangeFn f, void *a) { walk(g.eps_, f, a); walk(g.alpha_, f, a); }
inline void walk(const AmiBase::pole_struct &p, RangeFn f, void *a) {
  walk(p.eps_, f, a); walk(p.alpha_, f, a); walk(p.which_g_, f, a); walk(p.x_alpha_, f, a);
}
inline void walk(const AmiBase::term &t, RangeFn f, void *a) { walk(t.p_list, f, a); walk(t.g_list, f, a); }
template <class T> void walk(const std::vector<T> &v, RangeFn f, void *a) {
  if (v.empty()) return;
  f(v.data(), v.size() * sizeof(T), a);
  for (size_t i = 0; i < v.size(); i++) walk(v[i], f, a);
}
