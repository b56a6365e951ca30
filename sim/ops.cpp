// The client program: ordinary user code of the library, compiled with the same instrumentation. Everything
// here and below runs in library context, under the simulated scheduler, allocator and devices.
#include "model.hpp"

typedef AmiBase A;
typedef std::complex<double> cd;

static void manual_spr(A &e, A::ami_parms &p, Sol &s, A::ami_vars &x) {
  int dim = p.N_INT_;
  if (dim == 0) { ret_c(e.eval_gprod(p, s.R[0][0], x)); return; }
  A::SorF_t k = e.dot(s.S[0], e.fermi(p, s.P[0], x));
  for (int i = 1; i < dim; i++) {
    A::SorF_t r = e.dot(s.S[i], e.fermi(p, s.P[i], x));
    if (r.size() == 0) return;
    k = e.cross(k, r);
  }
  ret_sorf(k);
  ret_c(e.star(p, k, s.R[dim], x));
}
static void manual_opt(A &e, A::ami_parms &p, Sol &s, A::ami_vars &x, Fac &f) {
  int dim = p.N_INT_;
  if (dim == 0 || f.U.empty() || f.R.empty() || f.E.empty()) return;
  A::SorF_t k = e.dot(s.S[0], e.fermi(p, s.P[0], x));
  for (int i = 1; i < dim; i++) {
    A::SorF_t r = e.dot(s.S[i], e.fermi(p, s.P[i], x));
    if (r.size() == 0) return;
    k = e.cross(k, r);
  }
  ret_c(e.optimized_star(p, k, f.U, f.R, f.E, x));
}
static void manual_terms(A &e, A::ami_parms &p, A::terms &t, A::ami_vars &x) {
  for (size_t i = 0; i < t.size(); i++) {
    ret_c(e.evaluate_term(p, t[i], x));
    ret_c(e.eval_fprod(p, t[i].p_list, x));
    ret_c(e.eval_gprod(p, t[i].g_list, x));
#ifdef BOOST_MP
    std::complex<boost::multiprecision::float128> v = e.evaluate_term_mp(p, t[i], x);
    ret_d(v.real().convert_to<double>());
    ret_d(v.imag().convert_to<double>());
#endif
  }
}
static void residue(A &e, A::g_prod_t &g, int index) {
  A::pole_array_t poles = e.find_poles(index, g);
  ret_pa(poles);
  ret_sign(e.find_signs(index, g));
  for (size_t i = 0; i < poles.size(); i++) {
    ret_d(e.get_simple_sign(index, g, poles[i]));
    ret_d(e.get_starting_sign(g, poles[i]));
    ret_g(e.reduce_gprod(g, poles[i]));
    for (size_t j = 0; j < g.size(); j++) ret_gs(e.update_G_pole(g[j], poles[i]));
    for (size_t j = 0; j < poles.size(); j++) ret_p(e.update_Z_pole(poles[j], poles[i]));
    A::Ri_t r;
    A::pole_array_t pa;
    A::sign_t sg;
    if (poles[i].multiplicity_ == 1) ret_g(e.simple_residue(g, poles[i]));
    e.evaluate_general_residue(g, poles[i], r, pa, sg);
    ret_ri(r); ret_pa(pa); ret_sign(sg);
    A::g_prod_t w = e.reduce_gprod(g, poles[i]);
    e.take_derivative_gprod(w, poles[i], 1.0, r, pa, sg);
    ret_ri(r); ret_pa(pa); ret_sign(sg);
  }
}
static void tresidue(A &e, A::terms &t, int index) {
  for (size_t k = 0; k < t.size() && k < 6; k++) {
    if (t[k].g_list.empty()) continue;
    A::pole_array_t poles = e.find_poles(index, t[k].g_list);
    for (size_t i = 0; i < poles.size(); i++) {
      A::terms o, d;
      e.terms_general_residue(t[k], poles[i], o);
      ret_terms(o);
      e.take_term_derivative(t[k], poles[i], d);
      ret_terms(d);
      A::term a, b;
      e.split_term(t[k], poles[i], a, b);
      A::terms ab;
      ab.push_back(a);
      ab.push_back(b);
      ret_terms(ab);
      A::Ri_t ri;
      e.convert_terms_to_ri(ab, ri);
      ret_ri(ri);
    }
  }
}
static void scalars(A &e, A::ami_vars &x, int m) {
  for (int i = 0; i <= m; i++) {
    ret_u((rt::u64)e.factorial(i));
    for (int k = 0; k <= i; k++) { ret_u((rt::u64)e.binomialCoeff(i, k)); ret_d(e.frk(i, k)); }
    for (size_t j = 0; j < x.energy_.size(); j++) {
      ret_c(e.fermi_bose(i, 1.0, x.BETA_, x.energy_[j]));
      ret_c(e.fermi_bose(i, -1.0, x.BETA_, x.energy_[j]));
    }
  }
  for (size_t j = 0; j < x.energy_.size(); j++) ret_u((rt::u64)(e.sgn(x.energy_[j].real()) + 5));
  std::vector<int> a(3, m), b(3, m);
  ret_u(e.isEqual(a, b));
  b.push_back(m);
  ret_u(e.isEqual(a, b));
}
static void equiv(A &e, A::g_prod_t &g, int index) {
  A::pole_array_t poles = e.find_poles(index, g);
  for (size_t i = 0; i < poles.size(); i++)
    for (size_t j = 0; j < poles.size(); j++) ret_u(e.pole_equiv(poles[i], poles[j]));
  for (size_t i = 0; i < g.size(); i++)
    for (size_t j = 0; j < g.size(); j++) {
      ret_u(e.g_equiv(g[i], g[j]));
      int sign = 7;
      ret_u(e.g_struct_equiv(g[i], g[j], sign));
      ret_u((rt::u64)(sign + 3));
    }
}
static void reduce(A &e, Fac &f) {
  A::R_ref_t r = f.R;
  A::ref_eval_t ev;
  e.reduce_rref(r, ev);
  ret_refs(r);
  ret_refs(ev);
  for (size_t i = 0; i < f.R.size() && i < 12; i++)
    for (size_t j = 0; j < f.R.size() && j < 12; j++) {
      int a = 3, b = 3;
      ret_u(e.pair_v_equiv(f.R[i], f.R[j], a, b));
      ret_u((rt::u64)(a + 3));
      ret_u((rt::u64)(b + 3));
    }
}
static void triggers(A &e, A::ami_parms &p, Sol &s, A::ami_vars &x) {
  std::vector<std::vector<int>> t, q;
  e.get_triggers(p, s.R, s.P, s.S, x, t);
  ret_ivv(t);
  e.find_equal_values(p, s.R, x, q);
  ret_ivv(q);
  ret_c(e.detect_otf_trigger(p, s.R, s.P, s.S, x));
}
static void energies(A &e, Sol &s, A::ami_vars &x) {
  for (size_t i = 0; i < s.P.size(); i++)
    for (size_t j = 0; j < s.P[i].size(); j++)
      for (size_t k = 0; k < s.P[i][j].size() && k < 8; k++) ret_c(e.get_energy_from_pole(s.P[i][j][k], x));
  for (size_t j = 0; j < s.R.back().size() && j < 8; j++)
    for (size_t k = 0; k < s.R.back()[j].size(); k++) ret_c(e.get_energy_from_g(s.R.back()[j][k], x));
}
static void fpoles(A &e, A::ami_parms &p, Sol &s, A::ami_vars &x, int spectral) {
  for (size_t i = 0; i < s.P.size(); i++)
    for (size_t j = 0; j < s.P[i].size(); j++)
      for (size_t k = 0; k < s.P[i][j].size() && k < 12; k++) {
        if (!spectral) { ret_c(e.fermi_pole(p, s.P[i][j][k], x)); continue; }
        A::pole_struct q = s.P[i][j][k]; // spectral representation: the pole carries frequencies
        q.x_alpha_.clear();
        for (size_t n = 0, z = (size_t)spectral; n < x.frequency_.size(); n++, z /= 3) q.x_alpha_.push_back((int)(z % 3) - 1);
        ret_c(e.fermi_pole(p, q, x));
      }
}
// what users of the experimental spectral representation and of several species write into a stored solution
static void mark_poles(A::pole_array_t &ps, size_t &z) {
  for (size_t k = 0; k < ps.size(); k++, z = z * 7 + 3)
    if (z % 3) {
      ps[k].x_alpha_.clear();
      for (size_t n = 0, y = z; n < ps[k].alpha_.size(); n++, y /= 3) ps[k].x_alpha_.push_back((int)(y % 3) - 1);
    }
}
static void mark_g(A::g_prod_t &g, size_t &z) {
  for (size_t k = 0; k < g.size(); k++, z = z * 5 + 1) {
    g[k].species_ = (int)(z % 2);
    g[k].pp = (int)(z / 2 % 3) - 1;
    g[k].stat_ = z / 8 % 2 ? A::Bose : A::Fermi;
    g[k].eff_stat_ = z / 16 % 2 ? A::Bose : A::Fermi;
  }
}
static void mark(Sol &s, int what, size_t z) {
  if (what == 0)
    for (size_t i = 0; i < s.P.size(); i++)
      for (size_t j = 0; j < s.P[i].size(); j++) mark_poles(s.P[i][j], z);
  else
    for (size_t j = 0; j < s.R.back().size(); j++) mark_g(s.R.back()[j], z);
}
static void mark_terms(A::terms &t, int what, size_t z) {
  for (size_t i = 0; i < t.size(); i++) what == 0 ? mark_poles(t[i].p_list, z) : mark_g(t[i].g_list, z);
}
template <class T> static void copy_val(void *d, void *s) { *(T *)d = *(const T *)s; }
template <class T> static void move_val(void *d, void *s) { *(T *)d = std::move(*(T *)s); }

__attribute__((noinline)) static void defparms(A::ami_parms *out, int n, int how) {
  // users who rely on the defaults of the constructors
  if (how == 0) { A::ami_parms p; p.N_INT_ = n; *out = p; }
  else if (how == 1) { A::ami_parms p(n, 0); *out = p; }
  else if (how == 2) { A::ami_parms p(n, 0, A::Pi_phuu); *out = p; }
  else { A::ami_parms p(n, 1e-8, A::Sigma, A::coulomb, A::hf); *out = p; }
}
A *lib_engine(int how) {
  switch (how) {
  case 1: { A::ami_parms p(0, 0); return new A(p); }
  case 2: { A::ami_parms p(3, 1e-3, A::Pi_phuu); return new A(p); }
  case 3: { A::ami_parms p(5, 0, A::DOS, A::coulomb, A::hf); return new A(p); }
  default: return new A();
  }
}
void engine_fields(const A &e) {
  ret_d(e.exp_max_arg); ret_d(e.precision_cutoff); ret_u(e.drop_bosonic_diverge); ret_u(e.drop_der); ret_u(e.drop_matsubara_poles);
  ret_u(e.zero_external_w); ret_u(e.overflow_detected); ret_u(e.verbose); ret_u(e.bosonic_external); ret_u(e.ext_freq_type);
}
__attribute__((noinline)) static void defaults(int how) {
  A *ep = lib_engine(how);
  engine_fields(*ep);
  delete ep;
  {
    A::ami_vars v, w(A::energy_t(2, 1.0), A::frequency_t(2, 0.5)), x(A::energy_t(2, 1.0), A::frequency_t(2, 0.5), 3.0),
        y(A::energy_t(2, 1.0), A::frequency_t(2, 0.5), 3.0, 2.0);
    ret_d(v.prefactor); ret_d(v.BETA_); ret_d(v.gamma_);
    ret_d(w.prefactor); ret_d(w.BETA_); ret_d(w.gamma_);
    ret_d(x.prefactor); ret_d(x.BETA_); ret_d(x.gamma_);
    ret_d(y.prefactor); ret_d(y.BETA_); ret_d(y.gamma_);
  }
  {
    A::epsilon_t ep(2, 1);
    A::alpha_t al(2, 1);
    A::g_struct a, b(ep, al), c(ep, al, A::Bose);
    ret_gs(a); ret_gs(b); ret_gs(c);
    A::pole_struct p, q(ep, al);
    ret_p(p); ret_p(q);
  }
  {
    A::ami_parms p(2, 0.5), q, r(3, 0.25, A::Pi_phud), s(1, 0, A::DOS, A::coulomb, A::hf);
    for (A::ami_parms *v : {&p, &q, &r, &s}) {
      ret_u((rt::u64)v->N_INT_); ret_u((rt::u64)v->N_EXT_); ret_d(v->E_REG_); ret_d(v->tol_); ret_u(v->TYPE_); ret_u(v->int_type_); ret_u(v->dispersion_);
    }
    A::terms ts;
    ts.push_back(A::term());
    ts.push_back(A::term(-2.0, A::pole_array_t(1), A::g_prod_t(1)));
    ts.push_back(ts[1]);
    ret_terms(ts);
  }
}

void run_lib_op(int kind, OpArgs &a) {
  A &e = *a.e;
#define PARMS(i) (*(A::ami_parms *)a.s[i])
#define G(i) (*(A::g_prod_t *)a.s[i])
#define EXT(i) (*(A::ami_vars *)a.s[i])
#define SOL(i) (*(Sol *)a.s[i])
#define TERMS(i) (*(A::terms *)a.s[i])
#define FAC(i) (*(Fac *)a.s[i])
  switch (kind) {
  case K_CONSTRUCT: e.construct(PARMS(0), G(1), SOL(2).R, SOL(2).P, SOL(2).S); break;
  case K_CONSTRUCT_T: e.construct(PARMS(0), G(1), TERMS(2)); break;
  case K_CONSTRUCT_TN: e.construct(a.i0, G(0), TERMS(1)); break;
  case K_CONSTRUCT_ALIAS: e.construct(PARMS(0), SOL(1).R[0][0], SOL(1).R, SOL(1).P, SOL(1).S); break;
  case K_FACT_RN: e.factorize_Rn(SOL(0).R.back(), FAC(1).U, FAC(1).R, FAC(1).E); break;
  case K_FACT_T: e.factorize_terms(TERMS(0), FAC(1).U, FAC(1).R, FAC(1).E); break;
  case K_EVAL: ret_c(e.evaluate(PARMS(0), SOL(1).R, SOL(1).P, SOL(1).S, EXT(2))); break;
  case K_EVAL_OPT: ret_c(e.evaluate(PARMS(0), SOL(1).R, SOL(1).P, SOL(1).S, EXT(2), FAC(3).U, FAC(3).R, FAC(3).E)); break;
  case K_EVAL_T: ret_c(e.evaluate(PARMS(0), TERMS(1), EXT(2))); break;
  case K_EVAL_TOPT: ret_c(e.evaluate(PARMS(0), TERMS(1), EXT(2), FAC(3).U, FAC(3).R, FAC(3).E)); break;
  case K_EVAL_OTF: ret_c(e.evaluate_otf(PARMS(0), SOL(1).R, SOL(1).P, SOL(1).S, EXT(2))); break;
  case K_STEP: e.update_gprod_general(a.i1 ? a.i1 - 1 : a.i0, a.i0, SOL(0).R, SOL(0).P, SOL(0).S); break;
  case K_UPD_SIMPLE: e.update_gprod_simple(a.i0, SOL(0).R, SOL(0).P, SOL(0).S); break;
  case K_STEP_T: e.integrate_step(a.i0, TERMS(0), TERMS(1)); break;
  case K_START: {
    Sol s;
    A::g_prod_array_t r0;
    r0.push_back(G(0));
    s.R.push_back(r0);
    SOL(1) = s;
    break;
  }
  case K_START_T: {
    A::pole_array_t p;
    A::term t(1.0, p, G(0));
    A::terms ts;
    ts.push_back(t);
    TERMS(1) = ts;
    break;
  }
  case K_MANUAL: e.overflow_detected = false; manual_spr(e, PARMS(0), SOL(1), EXT(2)); break;
  case K_MANUAL_OPT: e.overflow_detected = false; manual_opt(e, PARMS(0), SOL(1), EXT(2), FAC(3)); break;
  case K_MANUAL_T: e.overflow_detected = false; manual_terms(e, PARMS(0), TERMS(1), EXT(2)); break;
  case K_RESIDUE: residue(e, G(0), a.i0); break;
  case K_TRESIDUE: tresidue(e, TERMS(0), a.i0); break;
  case K_SCALARS: e.overflow_detected = false; scalars(e, EXT(0), a.i0); break;
  case K_DEROPT: e.derivative_opt(FAC(0).U, FAC(0).R, FAC(0).E); break;
  case K_EQUIV: equiv(e, G(0), a.i0); break;
  case K_TRIGGERS: e.overflow_detected = false; triggers(e, PARMS(0), SOL(1), EXT(2)); break;
  case K_COPY:
  case K_MOVE:
    switch (a.type0) {
    case V_PARMS: copy_val<A::ami_parms>(a.s[1], a.s[0]); break;
    case V_G: kind == K_COPY ? copy_val<A::g_prod_t>(a.s[1], a.s[0]) : move_val<A::g_prod_t>(a.s[1], a.s[0]); break;
    case V_EXT: kind == K_COPY ? copy_val<A::ami_vars>(a.s[1], a.s[0]) : move_val<A::ami_vars>(a.s[1], a.s[0]); break;
    case V_SOL: kind == K_COPY ? copy_val<Sol>(a.s[1], a.s[0]) : move_val<Sol>(a.s[1], a.s[0]); break;
    case V_TERMS: kind == K_COPY ? copy_val<A::terms>(a.s[1], a.s[0]) : move_val<A::terms>(a.s[1], a.s[0]); break;
    case V_FAC: kind == K_COPY ? copy_val<Fac>(a.s[1], a.s[0]) : move_val<Fac>(a.s[1], a.s[0]); break;
    }
    break;
  case K_ENERGIES: energies(e, SOL(0), EXT(1)); break;
  case K_PRINT: e.print_final((int)SOL(0).P.size(), SOL(0).R, SOL(0).P, SOL(0).S); break;
  case K_PRINT_T: e.print_terms(TERMS(0)); break;
  case K_DEFPARMS: defparms(&PARMS(0), a.i0, a.i1); break;
  case K_FPOLE: e.overflow_detected = false; fpoles(e, PARMS(0), SOL(1), EXT(2), a.i0); break;
  case K_REDUCE: reduce(e, FAC(0)); break;
  case K_DEFAULTS: defaults(a.i0); break;
  case K_MARK: mark(SOL(0), a.i1, (size_t)a.i0); break;
  case K_MARK_T: mark_terms(TERMS(0), a.i1, (size_t)a.i0); break;
  default: break;
  }
}
