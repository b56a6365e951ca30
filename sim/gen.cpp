// Generation of simulated histories. One integer (the run's seed) decides everything; the pool of problems is
// decided by the base seed, so that the pristine results of common calls are shared between runs.
#include <unordered_map>
#include "plan.hpp"
#include <algorithm>
#include <cmath>
#include <limits>

using rt::Rng;

namespace {

struct Prob { int N = 0, L = 0, E = 1; AmiBase::ami_parms parms; AmiBase::g_prod_t g; bool simple = true; };
struct Family { int N, L, E; bool simple = true; std::vector<Prob> v; std::vector<AmiBase::ami_vars> x; };
struct Pool { u64 base = 0; std::vector<Family> f; std::vector<int> usual, giants; };

AmiBase::ami_parms mkparms(Rng &r, int N) {
  double er = 0;
  double u = r.unit();
  if (u > 0.6) er = 1e-8;
  if (u > 0.8) er = 1e-3;
  AmiBase::graph_type ty = AmiBase::Sigma;
  u = r.unit();
  if (u > 0.55) ty = AmiBase::Pi_phuu;
  if (u > 0.7) ty = (AmiBase::graph_type)r.below(13);
  AmiBase::ami_parms p(N, er, ty, (AmiBase::int_type)r.below(2), (AmiBase::disp_type)r.below(3));
  if (r.chance(0.05)) p.tol_ = 1e-6;
  return p;
}
// N integrations, E external frequencies
AmiBase::alpha_t interval(Rng &r, int N, int E) {
  AmiBase::alpha_t a((size_t)(N + E), 0);
  int top = N + E - 1, lo = r.range(0, top), hi = r.range(lo, top);
  if (r.chance(0.3)) hi = top;
  int s = r.chance(0.3) ? -1 : 1;
  for (int i = lo; i <= hi; i++) a[(size_t)i] = s;
  return a;
}
Prob mkprob(Rng &r, int N, int small, int giant = 0) {
  Prob p;
  p.N = N;
  if (r.chance(0.15)) p.E = N > 0 && r.chance(0.4) ? 0 : 2;
  int extra = N == 0 ? r.range(1, 4) : N == 1 ? r.range(0, 4) : N == 2 ? r.range(1, 4) : N == 3 ? r.range(0, 4) : r.range(0, 3);
  if (giant) extra = N == 2 ? r.range(5, 7) : N == 3 ? r.range(4, 6) : r.range(3, 4);
  if (small) extra = std::min(extra, N <= 2 ? 2 : N == 3 ? 1 : 0);
  std::vector<AmiBase::alpha_t> al;
  std::vector<int> ep;
  int ne = 0;
  for (int i = 0; i < N; i++) {
    AmiBase::alpha_t a((size_t)(N + p.E), 0);
    a[(size_t)i] = 1;
    al.push_back(a);
    ep.push_back(ne++);
  }
  double pz = N >= 1 && N <= 3 && r.chance(0.25) ? 0.35 : 0.0; // lines without an energy of their own
  double pd = r.chance(0.35) ? (giant ? 0.3 : 0.5) : 0.0, ps = N <= 2 && r.chance(0.15) ? 0.4 : 0.0;
  for (int i = 0; i < extra; i++) {
    if (!al.empty() && r.chance(pd)) { size_t k = r.below(al.size()); al.push_back(al[k]); ep.push_back(ep[k]); p.simple = false; continue; }
    al.push_back(interval(r, N, p.E));
    if (N > 0 && ne > 0 && r.chance(ps)) { ep.push_back((int)r.below((u64)ne)); p.simple = false; }
    else ep.push_back(ne++);
  }
  if (r.chance(0.5))
    for (size_t i = al.size(); i > 1; i--) { size_t k = r.below(i); std::swap(al[i - 1], al[k]); std::swap(ep[i - 1], ep[k]); }
  p.L = ne;
  // dispersions are usually single energies; sometimes differences or negatives of them
  std::vector<AmiBase::epsilon_t> own;
  bool odd = r.chance(0.2);
  for (int k = 0; k < ne; k++) {
    AmiBase::epsilon_t e((size_t)ne, 0);
    e[(size_t)k] = odd && r.chance(0.3) ? -1 : 1;
    if (odd && k > 0 && r.chance(0.3)) e[r.below((u64)k)] = r.chance(0.5) ? -1 : 1;
    own.push_back(e);
  }
  for (size_t i = 0; i < al.size(); i++) {
    AmiBase::epsilon_t e((size_t)ne, 0);
    if (!(pz > 0 && r.chance(pz))) e = own[(size_t)ep[i]];
    else p.simple = false;
    AmiBase::g_struct g(e, al[i]);
    p.g.push_back(g);
  }
  p.parms = mkparms(r, N);
  return p;
}
// shapes that random lines seldom give: poles of high multiplicity, many distinct lines, integrals that vanish
Prob mkshape(Rng &r, int *n, int *big) {
  Prob p;
  int kind = (int)r.below(5);
  int N = kind == 1 ? 1 : r.range(1, 2);
  if (kind == 2) N = r.range(2, 4);
  if (kind >= 3) N = r.range(2, 3);
  p.N = *n = N;
  std::vector<std::pair<AmiBase::alpha_t, int>> ln; // frequencies, energy
  auto line = [&](AmiBase::alpha_t a, int e) { ln.push_back(std::make_pair(a, e)); };
  int ne = 0;
  if (kind == 0) { // the same line several times
    for (int i = 0; i < N; i++) {
      AmiBase::alpha_t a((size_t)(N + 1), 0);
      a[(size_t)i] = 1;
      int k = i == 0 ? r.range(3, N == 1 ? 7 : 5) : r.range(1, 2), e = ne++;
      for (int q = 0; q < k; q++) line(a, e);
    }
    int extra = r.range(0, N == 1 ? 3 : 1);
    for (int q = 0; q < extra; q++) line(interval(r, N, 1), ne++);
  } else if (kind == 1) { // many lines
    int k = r.range(7, 16);
    for (int q = 0; q < k; q++) line(interval(r, N, 1), r.chance(0.1) && ne ? (int)r.below((u64)ne) : ne++);
    ln[0].first[0] = 1;
    *big = 1;
  } else if (kind == 3) { // few poles in the first integration, very many in a later one
    int many = r.range(1, N - 1);
    for (int i = 0; i < N; i++) {
      AmiBase::alpha_t a((size_t)(N + 1), 0);
      a[(size_t)i] = 1;
      line(a, ne++);
      if (i == many)
        for (int q = N == 2 ? r.range(7, 12) : r.range(4, 8); q > 0; q--) { a.back() = r.range(-1, 1); line(a, ne++); }
    }
    AmiBase::alpha_t a((size_t)(N + 1), 0);
    a[0] = 1;
    a[(size_t)many] = r.chance(0.5) ? 1 : -1;
    a.back() = r.range(-1, 1);
    line(a, ne++);
    *big = 1;
  } else if (kind == 4) { // some variable has only poles that are purely fermionic frequencies: dropped or not, as the option says
    int bare = r.range(0, N - 1), k = r.range(1, 2);
    for (int i = 0; i < N; i++) {
      AmiBase::alpha_t a((size_t)(N + 1), 0);
      a[(size_t)i] = 1;
      if (i != bare) { line(a, ne++); if (r.chance(0.6)) { a.back() = 1; line(a, ne++); } continue; }
      a[r.below(3) ? (size_t)N : (size_t)((i + 1) % N)] = r.chance(0.5) ? 1 : -1;
      for (int q = 0; q < k; q++) line(a, -1);
    }
    if (r.chance(0.3)) line(interval(r, N, 1), ne++);
  } else { // some integration variable is missing, or appears in one line only
    int k = r.range(N - 1, N + 1), skip = (int)r.below((u64)N);
    for (int q = 0; q < k; q++) {
      AmiBase::alpha_t a = interval(r, N, 1);
      a[(size_t)skip] = 0;
      line(a, ne++);
    }
    if (r.chance(0.6)) { AmiBase::alpha_t a((size_t)(N + 1), 0); a[(size_t)skip] = r.chance(0.5) ? 1 : -1; if (r.chance(0.5)) a.back() = 1; line(a, ne++); }
  }
  while ((int)ln.size() < N) line(interval(r, N, 1), ne++); // every integration uses up a line: fewer than N are no integral, in some order
  for (size_t i = ln.size(); i > 1; i--) std::swap(ln[i - 1], ln[r.below(i)]);
  p.L = ne;
  for (auto &l : ln) {
    AmiBase::epsilon_t e((size_t)ne, 0);
    if (l.second >= 0) e[(size_t)l.second] = 1;
    p.g.push_back(AmiBase::g_struct(e, l.first));
  }
  p.simple = false;
  p.parms = mkparms(r, N);
  return p;
}
// a problem that differs from another in one detail
Prob neighbour(Rng &r, const Prob &o) {
  Prob p = o;
  switch (r.below(7)) {
  case 0: { // another direction of one line
    std::vector<size_t> c;
    for (size_t i = 0; i < p.g.size(); i++) {
      int nz = 0;
      for (int a : p.g[i].alpha_) nz += a != 0;
      if (nz > 1 || p.N == 0) c.push_back(i);
    }
    if (c.empty()) { p.parms.E_REG_ = p.parms.E_REG_ == 0 ? 1e-8 : 0; break; }
    size_t k = c[r.below(c.size())];
    auto al = p.g[k].alpha_;
    for (auto &g : p.g) if (g.alpha_ == al && g.eps_ == p.g[k].eps_) for (auto &a : g.alpha_) a = -a;
    break;
  }
  case 1: if (p.g.size() > 1) { size_t a = r.below(p.g.size()), b = r.below(p.g.size()); std::swap(p.g[a], p.g[b]); } break;
  case 2: p.parms.E_REG_ = p.parms.E_REG_ == 0 ? 1e-8 : 0; break;
  case 3: p.parms.TYPE_ = p.parms.TYPE_ == AmiBase::Sigma ? AmiBase::Pi_phuu : AmiBase::Sigma; break;
  case 4: for (auto &g : p.g) g.species_ = (int)r.below(2); break;
  case 5: { // another pair of energies
    if (p.L < 2) break;
    int a = (int)r.below((u64)p.L), b = (int)r.below((u64)p.L);
    for (auto &g : p.g) std::swap(g.eps_[(size_t)a], g.eps_[(size_t)b]);
    break;
  }
  default: { // another interval for one composite line
    if (!p.simple) break;
    std::vector<size_t> c;
    for (size_t i = 0; i < p.g.size(); i++) {
      int nz = 0;
      for (int a : p.g[i].alpha_) nz += a != 0;
      if (nz > 1) c.push_back(i);
    }
    if (!c.empty()) p.g[c[r.below(c.size())]].alpha_ = interval(r, p.N, p.E);
  }
  }
  return p;
}
AmiBase::ami_vars mkext(Rng &r, int N, int L, int E) {
  if (r.chance(0.1)) L += r.range(1, 3); // more energies than the problem uses
  AmiBase::ami_vars v;
  int kind = (int)r.below(10);
  static const double nice[] = {-1, 0, 1, 0.5, -2, 2, -0.5};
  for (int i = 0; i < L; i++) {
    double e;
    if (kind < 5) e = (r.unit() - 0.5) * 6;
    else if (kind < 8) e = nice[r.below(7)];
    else e = r.chance(0.5) ? nice[r.below(7)] : (r.unit() - 0.5) * 6;
    v.energy_.push_back(kind == 4 ? std::complex<double>(e, 1e-3 * r.unit()) : std::complex<double>(e, 0));
  }
  if (kind == 9 && L && r.chance(0.6)) {
    static const double poison[] = {1e300, -1e300, 1e18, 1e-300, 0};
    double q = r.chance(0.15) ? std::numeric_limits<double>::infinity() : r.chance(0.1) ? std::nan("") : poison[r.below(5)];
    v.energy_[r.below((u64)L)] = q;
  }
  static const double betas[] = {1, 5, 10, 10, 50, 200, 1000};
  v.BETA_ = betas[r.below(7)];
  v.frequency_.assign((size_t)(N + E), std::complex<double>(0, 0));
  if (E == 2) v.frequency_[(size_t)N] = std::complex<double>(nice[r.below(7)], r.below(2) * 0.5);
  if (r.chance(0.1)) for (int i = 0; i < N; i++) v.frequency_[(size_t)i] = std::complex<double>(0, 0.3 * (i + 1)); // partly integrated forms
  if (E) {
  std::complex<double> &fr = v.frequency_.back();
  double w = M_PI / v.BETA_;
  switch (r.below(6)) {
  case 0: case 1: fr = std::complex<double>(0, (2 * r.range(-3, 3) + 1) * w); break;
  case 2: fr = std::complex<double>(0, 2 * r.range(-2, 2) * w); break;
  case 3: fr = std::complex<double>((r.unit() - 0.5) * 4, 0.1); break;
  case 4: fr = std::complex<double>(nice[r.below(7)], 0); break;
  default: fr = std::complex<double>(0, w);
  }
  }
  double u = r.unit();
  v.prefactor = u < 0.6 ? 1.0 : u < 0.7 ? -1.0 : u < 0.8 ? 0.5 : u < 0.88 ? 3.0 : u < 0.94 ? 1e18 : 1e9;
  v.gamma_ = r.chance(0.1) ? 0.5 : 0;
  return v;
}
AmiBase::ami_vars nearext(Rng &r, const AmiBase::ami_vars &o) {
  AmiBase::ami_vars v = o;
  switch (r.below(6)) {
  case 0: if (!v.energy_.empty()) v.energy_[r.below(v.energy_.size())] += 1e-3; break;
  case 1: v.BETA_ = v.BETA_ == 10 ? 10.5 : 10; break;
  case 2: if (!v.frequency_.empty()) v.frequency_.back() += std::complex<double>(0, 0.25); break;
  case 3: v.prefactor = v.prefactor == 1 ? 2 : 1; break;
  case 4: if (v.energy_.size() > 1) std::swap(v.energy_[0], v.energy_[v.energy_.size() - 1]); break;
  default: if (!v.energy_.empty()) { size_t k = r.below(v.energy_.size()); v.energy_[k] = -v.energy_[k]; }
  }
  return v;
}
// how long construction takes alone decides whether the problem is used
bool affordable(const Prob &p, int big, bool must_work = false) {
  OpP op;
  op.kind = K_CONSTRUCT;
  Bytes a, g;
  put(a, p.parms);
  put(g, p.g);
  std::vector<const Bytes *> in{&a, &g, nullptr};
  const OracleRes &q = oracle(K_CONSTRUCT, op, Opts(), in, std::vector<int>{V_PARMS, V_G, V_SOL});
  if (getenv("SIM_POOL")) fprintf(stderr, "N=%d lines=%zu status=%d steps=%llu\n", p.N, p.g.size(), q.status, (unsigned long long)q.steps);
  if (must_work && q.status != 1) return false;
  return q.status != 4 && q.steps < (big == 2 ? 1300000u : big ? 200000u : 45000u) && (big < 2 || q.steps > 250000u);
}
Pool &pool_for(u64 base, int size) {
  static std::map<std::pair<u64, int>, Pool> pools;
  auto key = std::make_pair(base, size);
  auto it = pools.find(key);
  if (it != pools.end()) return it->second;
  Pool &P = pools[key];
  P.base = base;
  Rng r(rt::mix(base, 0x9001));
  int nf = size;
  for (int i = 0; i < nf; i++) {
    Family f;
    double u = r.unit();
    int N = u < 0.03 ? 0 : u < 0.23 ? 1 : u < 0.68 ? 2 : u < 0.93 ? 3 : 4;
    int big = r.chance(0.15);
    Prob b = mkprob(r, N, i % 3 == 0);
    if (r.chance(0.2)) { // integrals without any pole left are not defined: those shapes are passed over
      int n2 = N, big2 = big;
      Prob q = mkshape(r, &n2, &big2);
      for (int k = 0; k < 10 && !affordable(q, big2, true); k++) { n2 = N; big2 = big; q = mkshape(r, &n2, &big2); }
      if (affordable(q, big2, true)) { b = q; N = n2; big = big2; }
    }
    bool giant = i % 14 == 13;
    if (giant) {
      N = r.range(2, 4);
      b = mkprob(r, N, 0, 1);
      for (int k = 0; k < 10 && !affordable(b, 2); k++) b = mkprob(r, N, 0, 1);
      giant = affordable(b, 2);
      if (giant) big = 2;
    }
    for (int k = 0; k < 20 && !affordable(b, big); k++) b = mkprob(r, N, 1);
    f.N = b.N;
    f.L = b.L;
    f.E = b.E;
    f.v.push_back(b);
    for (int k = 0; k < (giant ? 1 : 3); k++) {
      Prob n = neighbour(r, f.v[r.below(f.v.size())]);
      f.v.push_back(affordable(n, big) ? n : b);
    }
    for (int k = 0; k < 3; k++) f.x.push_back(mkext(r, f.N, f.L, f.E));
    for (int k = 0; k < 4; k++) f.x.push_back(nearext(r, f.x[r.below(f.x.size())]));
    f.simple = b.simple;
    (giant ? P.giants : P.usual).push_back((int)P.f.size());
    P.f.push_back(f);
  }
  return P;
}
Opts mkopts(Rng &r, double pdefault) {
  Opts o;
  if (r.chance(pdefault)) return o;
  static const double em[] = {500, 50, 5, 700}, pc[] = {1e15, 1e3, 1e-2, 1e300};
  if (r.chance(0.3)) o.exp_max_arg = em[r.below(4)];
  if (r.chance(0.4)) o.precision_cutoff = pc[r.below(4)];
  if (r.chance(0.3)) o.drop_bosonic_diverge = 1;
  if (r.chance(0.3)) o.drop_der = 1;
  if (r.chance(0.3)) o.drop_matsubara_poles = 0;
  if (r.chance(0.3)) o.zero_external_w = 1;
  if (r.chance(0.2)) o.bosonic_external = 1;
  if (r.chance(0.3)) o.ext_freq_type = 1;
  return o;
}

// ---- building histories -----------------------------------------------------------------------------------
struct Meta {
  int type = 0, fam = -1, prob = -1;
  bool set = false;
  int done = 0;        // S, T: integrations performed
  bool complete = false;
  bool perm = false;   // S: integrated in another order
  int ders = 0;        // F: derivatives taken
  int stamp = -1;      // S, T: identity of the value; F: identity of its source
  bool fromT = false;  // F
};
enum Act {
  A_PROB = 0, A_EXT, A_CONS, A_CONST, A_CONSTN, A_STEPS, A_TSTEPS, A_ALIAS, A_FACT, A_EVAL, A_EVALOPT, A_EVALT, A_EVALTOPT, A_OTF, A_MANUAL,
  A_LOW, A_OPT, A_ENG, A_COPY, A_MOVE, A_SERIAL, A_PRINT, A_POISON, A_DEF, A_SIMPLE, A_DROP, A_MARK, A_NACT
};
struct Ctx {
  std::vector<int> own, shared, eng; // slots and engines
  bool manage = false;               // may change and replace its engines
  double w[A_NACT];
  std::vector<int> fams;
  double pverb = 0;
  Ctx() { for (double &x : w) x = 0; }
};
struct B {
  Plan p;
  Rng r;
  Pool &pool;
  std::vector<Meta> m;
  std::map<Bytes, int> litidx;
  std::vector<bool> alive;
  int stamps = 0;
  int task = 1;
  int giant = -2; // the one, expensive, problem of this history
  B(const std::string &prop, u64 seed, Pool &pl) : r(rt::mix(seed, rt::hash_bytes(prop.data(), prop.size()))), pool(pl) {
    p.prop = prop;
    p.seed = seed;
    p.tasks.resize(2);
  }
  int slot(int type) {
    p.slots.push_back(type);
    Meta x;
    x.type = type;
    m.push_back(x);
    return (int)p.slots.size() - 1;
  }
  int engine() { alive.push_back(false); return p.nengines++; }
  OpP &add(int kind, int e = -1, std::vector<int> s = {}, int i0 = 0, int i1 = 0, double d0 = 0) {
    OpP o;
    o.kind = kind;
    o.e = e;
    for (size_t i = 0; i < s.size(); i++) o.s[i] = s[i];
    o.i0 = i0;
    o.i1 = i1;
    o.d0 = d0;
    p.tasks[(size_t)task].push_back(o);
    return p.tasks[(size_t)task].back();
  }
  template <class T> int lit(int type, const T &v) {
    Bytes b;
    put(b, v);
    Bytes key = b + (char)type;
    auto it = litidx.find(key);
    if (it != litidx.end()) return it->second;
    p.lits.push_back(Lit{type, b});
    return litidx[key] = (int)p.lits.size() - 1;
  }
  void neweng(int e, const Opts &o) {
    OpP &op = add(K_NEWENG, e);
    op.opts = o;
    if (r.chance(0.4)) op.i0 = r.range(1, 3);
    alive[(size_t)e] = true;
  }
  void setprob(int ps, int gs, int fam, int k) {
    const Prob &q = pool.f[(size_t)fam].v[(size_t)k];
    add(K_SETSLOT, -1, {ps}).lit = lit(V_PARMS, q.parms);
    add(K_SETSLOT, -1, {gs}).lit = lit(V_G, q.g);
    for (int s : {ps, gs}) { m[(size_t)s].set = true; m[(size_t)s].fam = fam; m[(size_t)s].prob = k; }
  }
  void setext(int xs, int fam, int k) {
    add(K_SETSLOT, -1, {xs}).lit = lit(V_EXT, pool.f[(size_t)fam].x[(size_t)k]);
    m[(size_t)xs].set = true;
    m[(size_t)xs].fam = fam;
  }
  int pickslot(const std::vector<int> &v, int type, bool set, int fam = -1) {
    std::vector<int> c;
    for (int s : v) if (m[(size_t)s].type == type && (!set || m[(size_t)s].set) && (fam < 0 || m[(size_t)s].fam == fam)) c.push_back(s);
    return c.empty() ? -1 : c[r.below(c.size())];
  }
  int in(Ctx &c, int type, int fam = -1) {
    std::vector<int> all = c.own;
    all.insert(all.end(), c.shared.begin(), c.shared.end());
    return pickslot(all, type, true, fam);
  }
  int eng(Ctx &c) {
    std::vector<int> v;
    for (int e : c.eng) if (alive[(size_t)e]) v.push_back(e);
    return v.empty() ? -1 : v[r.below(v.size())];
  }
  int N(int fam) { return pool.f[(size_t)fam].N; }
  int L(int fam) { return pool.f[(size_t)fam].L; }
  bool done_val(int s, int fam, int prob, int done, int stamp) {
    Meta &x = m[(size_t)s];
    x.set = true; x.fam = fam; x.prob = prob; x.done = done; x.complete = done == N(fam); x.stamp = stamp; x.perm = false;
    return true;
  }
  // a problem: parameters and integrand that fit together
  bool prob(Ctx &c, int *ps, int *gs) {
    *gs = in(c, V_G);
    if (*gs < 0) return false;
    *ps = in(c, V_PARMS, m[(size_t)*gs].fam);
    return *ps >= 0;
  }
  bool fits(int fam, int f2) { return fam >= 0 && f2 >= 0 && N(fam) == N(f2) && L(fam) == L(f2) && pool.f[(size_t)fam].E == pool.f[(size_t)f2].E; }
  int want_complete(Ctx &c, int type) {
    std::vector<int> all = c.own, v;
    all.insert(all.end(), c.shared.begin(), c.shared.end());
    for (int s : all) if (m[(size_t)s].type == type && m[(size_t)s].set && m[(size_t)s].complete) v.push_back(s);
    return v.empty() ? -1 : v[r.below(v.size())];
  }
  int ext_for(Ctx &c, int fam) {
    std::vector<int> all = c.own, v;
    all.insert(all.end(), c.shared.begin(), c.shared.end());
    for (int s : all) if (m[(size_t)s].type == V_EXT && m[(size_t)s].set && fits(fam, m[(size_t)s].fam)) v.push_back(s);
    return v.empty() ? -1 : v[r.below(v.size())];
  }
  // an empty factorised form stands for none
  int nofac(Ctx &c) {
    int s = r.chance(0.3) ? pickslot(c.own, V_FAC, false) : -1;
    if (s < 0) return -1;
    add(K_SETSLOT, -1, {s}).lit = lit(V_FAC, Fac());
    m[(size_t)s] = Meta();
    m[(size_t)s].type = V_FAC;
    m[(size_t)s].set = true;
    return s;
  }
  int fac_for(Ctx &c, int src, bool fromT) {
    std::vector<int> all = c.own, v;
    all.insert(all.end(), c.shared.begin(), c.shared.end());
    for (int s : all)
      if (m[(size_t)s].type == V_FAC && m[(size_t)s].set && m[(size_t)s].fromT == fromT && m[(size_t)s].stamp == m[(size_t)src].stamp && m[(size_t)s].stamp >= 0) v.push_back(s);
    return v.empty() ? -1 : v[r.below(v.size())];
  }
  bool act(Ctx &c, int a) {
    switch (a) {
    case A_PROB: {
      int g = pickslot(c.own, V_G, false), pp = pickslot(c.own, V_PARMS, false);
      if (g < 0 || pp < 0) return false;
      int f = c.fams[r.below(c.fams.size())];
      setprob(pp, g, f, (int)r.below(pool.f[(size_t)f].v.size()));
      return true;
    }
    case A_EXT: {
      int x = pickslot(c.own, V_EXT, false);
      if (x < 0) return false;
      int f = c.fams[r.below(c.fams.size())];
      int s = want_complete(c, V_SOL);
      if (s >= 0 && r.chance(0.7)) f = m[(size_t)s].fam;
      setext(x, f, (int)r.below(pool.f[(size_t)f].x.size()));
      return true;
    }
    case A_CONS: case A_CONST: case A_CONSTN: {
      int ps, gs, e = eng(c);
      if (e < 0 || !prob(c, &ps, &gs)) return false;
      int o = pickslot(c.own, a == A_CONS ? V_SOL : V_TERMS, false);
      if (o < 0) return false;
      int f = m[(size_t)gs].fam;
      if (a == A_CONS) add(K_CONSTRUCT, e, {ps, gs, o});
      else if (a == A_CONST) add(K_CONSTRUCT_T, e, {ps, gs, o});
      else add(K_CONSTRUCT_TN, e, {gs, o}, N(f));
      return done_val(o, f, m[(size_t)gs].prob, N(f), stamps++);
    }
    case A_STEPS: case A_SIMPLE: {
      int ps, gs, e = eng(c);
      if (e < 0 || !prob(c, &ps, &gs)) return false;
      int o = pickslot(c.own, V_SOL, false), f = m[(size_t)gs].fam;
      bool simple = a == A_SIMPLE;
      if (o < 0 || (simple && !pool.f[(size_t)f].simple)) return false;
      add(K_START, e, {gs, o});
      std::vector<int> ord;
      for (int i = 0; i < N(f); i++) ord.push_back(i);
      if (!simple && r.chance(0.15)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
      bool perm = !std::is_sorted(ord.begin(), ord.end());
      for (int i = 0; i < N(f); i++) add(simple ? K_UPD_SIMPLE : K_STEP, eng(c), {o}, i, perm ? ord[(size_t)i] + 1 : 0);
      done_val(o, f, m[(size_t)gs].prob, N(f), stamps++);
      m[(size_t)o].perm = perm;
      return true;
    }
    case A_TSTEPS: {
      int ps, gs, e = eng(c);
      if (e < 0 || !prob(c, &ps, &gs)) return false;
      std::vector<int> t;
      for (int s : c.own) if (m[(size_t)s].type == V_TERMS) t.push_back(s);
      if (t.size() < 2) return false;
      int f = m[(size_t)gs].fam, a0 = (int)r.below(t.size()), b0 = (a0 + 1) % (int)t.size();
      int cur = t[(size_t)a0], nx = t[(size_t)b0];
      add(K_START_T, e, {gs, cur});
      done_val(cur, f, m[(size_t)gs].prob, 0, stamps++);
      int upto = r.chance(0.7) ? N(f) : r.range(0, N(f));
      for (int i = 0; i < upto; i++) {
        add(K_STEP_T, eng(c), {cur, nx}, i);
        done_val(nx, f, m[(size_t)gs].prob, i + 1, stamps++);
        std::swap(cur, nx);
      }
      if (m[(size_t)cur].done < N(f) && r.chance(0.7)) add(K_TRESIDUE, eng(c), {cur}, m[(size_t)cur].done);
      return true;
    }
    case A_ALIAS: {
      int e = eng(c);
      std::vector<int> v;
      for (int s : c.own) if (m[(size_t)s].type == V_SOL && m[(size_t)s].set && m[(size_t)s].complete) v.push_back(s);
      if (e < 0 || v.empty()) return false;
      int s = v[r.below(v.size())], ps = in(c, V_PARMS, m[(size_t)s].fam);
      if (ps < 0) return false;
      add(K_CONSTRUCT_ALIAS, e, {ps, s});
      m[(size_t)s].stamp = stamps++;
      m[(size_t)s].perm = false;
      return true;
    }
    case A_FACT: {
      int e = eng(c), t = r.chance(0.5) ? V_SOL : V_TERMS, s = want_complete(c, t), o = pickslot(c.own, V_FAC, false);
      if (e < 0 || s < 0 || o < 0) return false;
      add(t == V_SOL ? K_FACT_RN : K_FACT_T, e, {s, o});
      Meta &x = m[(size_t)o];
      x.set = true; x.fam = m[(size_t)s].fam; x.stamp = m[(size_t)s].stamp; x.fromT = t == V_TERMS; x.ders = 0;
      return true;
    }
    case A_EVAL: case A_EVALOPT: case A_OTF: {
      int e = eng(c), s = want_complete(c, V_SOL);
      if (e < 0 || s < 0) return false;
      int f = m[(size_t)s].fam, x = ext_for(c, f), ps = in(c, V_PARMS, f);
      if (x < 0 || ps < 0) return false;
      if (a == A_EVAL) { add(K_EVAL, e, {ps, s, x}); return true; }
      if (a == A_OTF && (N(f) < 1 || m[(size_t)s].perm)) return false;
      if (a == A_OTF) { add(K_EVAL_OTF, e, {ps, s, x}); return true; }
      int fc = fac_for(c, s, false);
      if (fc < 0) fc = nofac(c);
      if (fc < 0) return false;
      add(K_EVAL_OPT, e, {ps, s, x, fc});
      return true;
    }
    case A_EVALT: case A_EVALTOPT: {
      int e = eng(c), s = a == A_EVALT && r.chance(0.1) ? in(c, V_TERMS) : want_complete(c, V_TERMS);
      if (e < 0 || s < 0) return false;
      int f = m[(size_t)s].fam, x = ext_for(c, f), ps = in(c, V_PARMS, f);
      if (x < 0 || ps < 0) return false;
      if (a == A_EVALT) { add(K_EVAL_T, e, {ps, s, x}); return true; }
      int fc = fac_for(c, s, true);
      if (fc < 0) fc = nofac(c);
      if (fc < 0) return false;
      add(K_EVAL_TOPT, e, {ps, s, x, fc});
      return true;
    }
    case A_MANUAL: {
      int e = eng(c), k = (int)r.below(4), s = want_complete(c, k == 2 ? V_TERMS : V_SOL);
      if (e < 0 || s < 0) return false;
      int f = m[(size_t)s].fam, x = ext_for(c, f), ps = in(c, V_PARMS, f);
      if (x < 0 || ps < 0 || N(f) < 1) return false;
      if (k == 0) add(K_MANUAL, e, {ps, s, x});
      else if (k == 1) { int fc = fac_for(c, s, false); if (fc < 0) return false; add(K_MANUAL_OPT, e, {ps, s, x, fc}); }
      else if (k == 2) add(K_MANUAL_T, e, {ps, s, x});
      else if (m[(size_t)s].perm) return false;
      else add(K_TRIGGERS, e, {ps, s, x});
      return true;
    }
    case A_LOW: {
      int e = eng(c);
      if (e < 0) return false;
      switch (r.below(6)) {
      case 0: case 1: {
        int g = in(c, V_G);
        if (g < 0 || N(m[(size_t)g].fam) < 1) return false;
        add(r.chance(0.6) ? K_RESIDUE : K_EQUIV, e, {g}, (int)r.below((u64)N(m[(size_t)g].fam)));
        return true;
      }
      case 2: {
        int x = in(c, V_EXT);
        if (x < 0) return false;
        add(K_SCALARS, e, {x}, r.range(0, r.chance(0.2) ? 9 : 4));
        return true;
      }
      case 3: {
        int s = want_complete(c, V_SOL);
        if (s < 0) return false;
        int x = ext_for(c, m[(size_t)s].fam), ps = in(c, V_PARMS, m[(size_t)s].fam);
        if (x < 0 || ps < 0 || N(m[(size_t)s].fam) < 1) return false;
        if (r.chance(0.5)) add(K_ENERGIES, e, {s, x});
        else add(K_FPOLE, e, {ps, s, x}, r.chance(0.4) ? r.range(1, 27) : 0);
        return true;
      }
      case 4: {
        int f = in(c, V_FAC);
        if (f < 0) return false;
        add(K_REDUCE, e, {f});
        return true;
      }
      default: {
        int f = pickslot(c.own, V_FAC, true);
        if (f < 0 || m[(size_t)f].fam < 0 || m[(size_t)f].ders > 1) return false;
        add(K_DEROPT, e, {f});
        m[(size_t)f].ders++;
        return true;
      }
      }
    }
    case A_OPT: {
      int e = eng(c);
      if (e < 0 || !c.manage) return false;
      Opts o = mkopts(r, 0.2);
      int k = (int)r.below(8);
      static const int map[8] = {0, 1, 2, 3, 4, 5, 7, 8};
      int fld = map[k];
      double dv = fld == 0 ? o.exp_max_arg : o.precision_cutoff;
      int iv = (int)r.below(2);
      if (c.pverb > 0 && r.chance(0.3)) { fld = 6; iv = (int)r.below(2); }
      add(K_SETOPT, e, {}, fld, iv, dv);
      return true;
    }
    case A_ENG: {
      if (!c.manage || c.eng.empty()) return false;
      int e = c.eng[r.below(c.eng.size())];
      if (!alive[(size_t)e]) { Opts o = mkopts(r, 0.5); o.verbose = r.chance(c.pverb); neweng(e, o); return true; }
      if (r.chance(0.35)) { // gone, and another one in its place
        add(K_DELENG, e);
        alive[(size_t)e] = false;
        Opts o = mkopts(r, 0.6);
        o.verbose = r.chance(c.pverb);
        neweng(e, o);
        return true;
      }
      if (c.eng.size() < 2) return false;
      int k = c.eng[r.below(c.eng.size())];
      if (r.chance(0.5) && k != e) { add(K_COPYENG, e, {}, k); alive[(size_t)k] = true; return true; }
      int n = 0;
      for (int q : c.eng) n += alive[(size_t)q];
      if (n < 2) return false;
      add(K_DELENG, e);
      alive[(size_t)e] = false;
      return true;
    }
    case A_COPY: case A_MOVE: case A_SERIAL: {
      static const int ty[] = {V_SOL, V_TERMS, V_FAC, V_SOL, V_EXT, V_G};
      int t = ty[r.below(6)], o = pickslot(c.own, t, false), s = a == A_MOVE ? pickslot(c.own, t, true) : in(c, t);
      if (o < 0 || s < 0 || s == o) return false;
      add(a == A_COPY ? K_COPY : a == A_MOVE ? K_MOVE : K_SERIAL, -1, {s, o});
      Meta keep = m[(size_t)s];
      m[(size_t)o] = keep;
      if (a == A_MOVE) m[(size_t)s].set = false;
      return true;
    }
    case A_PRINT: {
      int e = eng(c), t = r.chance(0.6) ? V_SOL : V_TERMS, s = want_complete(c, t);
      if (e < 0 || s < 0) return false;
      add(t == V_SOL ? K_PRINT : K_PRINT_T, e, {s});
      return true;
    }
    case A_POISON: {
      int e = eng(c);
      if (e < 0 || !c.manage) return false;
      add(K_POISON, e, {}, (int)r.below(3) > 0);
      return true;
    }
    case A_DEF: {
      int o = pickslot(c.own, V_PARMS, false), f = c.fams[r.below(c.fams.size())];
      if (o < 0) return false;
      add(K_DEFPARMS, -1, {o}, N(f), (int)r.below(4));
      if (r.chance(0.5)) add(K_DEFAULTS, -1, {}, (int)r.below(4));
      m[(size_t)o].set = true;
      m[(size_t)o].fam = f;
      return true;
    }
    case A_MARK: {
      int e = eng(c), t = r.chance(0.6) ? V_SOL : V_TERMS;
      std::vector<int> v;
      for (int s : c.own) if (m[(size_t)s].type == t && m[(size_t)s].set && m[(size_t)s].complete && N(m[(size_t)s].fam) > 0) v.push_back(s);
      if (e < 0 || v.empty()) return false;
      int s = v[r.below(v.size())], what = r.chance(0.6) ? 0 : 1;
      // marks made in a copy, which is then used and replaced by the original again
      int o = r.chance(0.5) ? pickslot(c.own, t, false) : -1;
      if (o >= 0 && o != s) {
        add(K_COPY, -1, {s, o});
        m[(size_t)o] = m[(size_t)s];
        std::swap(s, o);
      } else o = -1;
      add(t == V_SOL ? K_MARK : K_MARK_T, e, {s}, r.range(1, 5000), what);
      if (what) m[(size_t)s].stamp = stamps++; // the factorised forms of the old one do not go with it
      if (o < 0 || r.chance(0.3)) return true;
      int f = m[(size_t)s].fam, x = ext_for(c, f), ps = in(c, V_PARMS, f);
      if (x >= 0 && ps >= 0 && r.chance(0.5)) add(t == V_SOL ? K_EVAL : K_EVAL_T, e, {ps, s, x});
      add(K_COPY, -1, {o, s});
      m[(size_t)s] = m[(size_t)o];
      if (x >= 0 && ps >= 0) add(t == V_SOL ? K_EVAL : K_EVAL_T, e, {ps, s, x});
      return true;
    }
    case A_DROP: {
      static const int ty[] = {V_SOL, V_TERMS, V_FAC};
      int s = pickslot(c.own, ty[r.below(3)], true);
      if (s < 0) return false;
      add(K_DROP, -1, {s});
      m[(size_t)s].set = false;
      return true;
    }
    }
    return false;
  }
  int run(Ctx &c, int nops) {
    double tot = 0;
    for (double x : c.w) tot += x;
    int done = 0;
    size_t limit = p.tasks[(size_t)task].size() + (size_t)nops;
    for (int tries = 0; p.tasks[(size_t)task].size() < limit && tries < nops * 30; tries++) {
      double u = r.unit() * tot;
      int a = 0;
      while (a < A_NACT - 1 && u >= c.w[a]) u -= c.w[a++];
      if (act(c, a)) done++;
    }
    return done;
  }
};
void usual(Ctx &c) {
  c.w[A_PROB] = 1.2; c.w[A_EXT] = 2.5; c.w[A_CONS] = 2; c.w[A_CONST] = 1.2; c.w[A_CONSTN] = 0.4; c.w[A_STEPS] = 0.5; c.w[A_TSTEPS] = 0.5;
  c.w[A_ALIAS] = 0.4; c.w[A_FACT] = 1.6; c.w[A_EVAL] = 4; c.w[A_EVALOPT] = 2.5; c.w[A_EVALT] = 2.5; c.w[A_EVALTOPT] = 2; c.w[A_OTF] = 1.5;
  c.w[A_MANUAL] = 1.2; c.w[A_LOW] = 1.5; c.w[A_OPT] = 0.8; c.w[A_ENG] = 0.6; c.w[A_COPY] = 0.7; c.w[A_MOVE] = 0.4; c.w[A_SERIAL] = 0.4;
  c.w[A_SIMPLE] = 0.3; c.w[A_DROP] = 0.2; c.w[A_PRINT] = 0.15; c.w[A_MARK] = 0.3;
}
// swarm: every run leaves some kinds of action out
void swarm(Rng &r, Ctx &c) {
  for (int i = 0; i < A_NACT; i++) {
    if (i == A_PROB || i == A_EXT || i == A_CONS || i == A_EVAL) { c.w[i] *= 0.5 + r.unit(); continue; }
    double u = r.unit();
    if (u < 0.25) c.w[i] = 0;
    else if (u > 0.85) c.w[i] *= 3;
  }
}
void mkmem(Rng &r, rt::MemCfg &m, bool adversarial) {
  double u = r.unit();
  m.reuse = u < 0.6 ? rt::R_LIFO : u < 0.85 ? rt::R_QUARANTINE : rt::R_FRESH;
  if (adversarial) {
    m.fill = (int)r.below(rt::FILL_N);
    m.fillseed = r.next() >> 1;
    m.shift = r.below(4096) * 16;
    m.paint = 1;
  }
}
void mksched(Rng &r, rt::SchedCfg &s) {
  s.race = 1;
  s.seed = r.next() >> 1;
  double u = r.unit();
  s.policy = u < 0.4 ? rt::P_RANDOM : u < 0.75 ? rt::P_TARGET : rt::P_PCT;
  s.mean = (u64)std::pow(10.0, 0.7 + r.unit() * 3.5);
  s.ptarget = std::pow(10.0, -1.5 + r.unit() * 1.3);
  s.pctlen = (u64)std::pow(10.0, 2.5 + r.unit() * 3);
  s.maxsw = r.chance(0.5) ? 400 : 4000;
}
void pickfams(B &b, Ctx &c, int n, bool large = false) {
  if (b.giant == -2) b.giant = !b.pool.giants.empty() && b.r.chance(b.p.prop[0] == 'S' || b.p.prop == "F03" ? 0.012 : 0.03) ? b.pool.giants[b.r.below(b.pool.giants.size())] : -1;
  for (int i = 0; i < n; i++) {
    int f = b.pool.usual[b.r.below(b.pool.usual.size())];
    for (int k = 0; k < 6 && large; k++) {
      int g = b.pool.usual[b.r.below(b.pool.usual.size())];
      if (b.pool.f[(size_t)g].N * 8 + b.pool.f[(size_t)g].L > b.pool.f[(size_t)f].N * 8 + b.pool.f[(size_t)f].L) f = g;
    }
    c.fams.push_back(b.giant >= 0 ? b.giant : f);
  }
}
void ownslots(B &b, Ctx &c, int np, int nx, int ns, int nt, int nf) {
  for (int i = 0; i < np; i++) { c.own.push_back(b.slot(V_PARMS)); c.own.push_back(b.slot(V_G)); }
  for (int i = 0; i < nx; i++) c.own.push_back(b.slot(V_EXT));
  for (int i = 0; i < ns; i++) c.own.push_back(b.slot(V_SOL));
  for (int i = 0; i < nt; i++) c.own.push_back(b.slot(V_TERMS));
  for (int i = 0; i < nf; i++) c.own.push_back(b.slot(V_FAC));
}
// the usual start of a client's life: engine, problem, externals, a solution
void prologue(B &b, Ctx &c) {
  for (int e : c.eng)
    if (!b.alive[(size_t)e]) { Opts o = mkopts(b.r, 0.5); o.verbose = b.r.chance(c.pverb); b.neweng(e, o); }
  b.act(c, A_PROB);
  int g = b.pickslot(c.own, V_G, true), x = b.pickslot(c.own, V_EXT, false);
  if (g >= 0 && x >= 0) { int f = b.m[(size_t)g].fam; b.setext(x, f, (int)b.r.below(b.pool.f[(size_t)f].x.size())); }
  b.act(c, A_CONS);
  if (b.r.chance(0.5)) b.act(c, A_CONST);
  if (b.r.chance(0.6)) b.act(c, A_FACT);
}

Plan single(const std::string &prop, u64 base, u64 seed, int psize) {
  Pool &pl = pool_for(base, psize);
  B b(prop, seed, pl);
  Rng &r = b.r;
  Ctx c;
  usual(c);
  int nops = r.range(8, 30);
  c.manage = true;
  pickfams(b, c, r.range(1, 3));
  bool faulty = needs_faults(prop);
  int ne = r.range(1, 3);
  for (int i = 0; i < ne; i++) c.eng.push_back(b.engine());
  ownslots(b, c, r.range(1, 2), r.range(1, 3), r.range(1, 2), r.range(1, 3), r.range(1, 2));
  swarm(r, c);
  mkmem(r, b.p.mem, r.chance(0.3));
  if (prop == "H02") {
    c.w[A_POISON] = 2; c.w[A_LOW] += 1; c.w[A_MANUAL] += 1; c.w[A_FACT] += 1; c.w[A_CONS] += 0.5; c.w[A_CONST] += 0.5; c.w[A_TSTEPS] += 0.4;
    c.w[A_OPT] += 0.5;
    c.w[A_EVAL] += 1; c.w[A_OTF] += 1; c.w[A_EVALTOPT] += 1; c.w[A_EVALOPT] += 1;
  } else if (prop == "H03") b.p.chk |= C_TRANSIENT | C_ALLSLOTS;
  else if (prop == "D01") {
    c.w[A_DEF] = 1.5;
    mkmem(r, b.p.mem, true);
    c.w[A_TSTEPS] += 1; c.w[A_LOW] += 1.5; c.w[A_STEPS] += 0.5;
  } else if (prop == "F01") nops = r.range(5, 14);
  else if (prop == "F02") {
    nops = r.range(4, 12);
    b.p.chk |= C_TRANSIENT | C_ALLSLOTS;
    // after a failure the same engine often does the same kind of thing, to another problem of the same dimensions
    if (r.chance(0.4)) {
      static const int again[] = {A_CONS, A_CONST, A_CONST, A_CONSTN, A_STEPS, A_TSTEPS, A_FACT, A_EVAL, A_EVALT, A_EVALOPT, A_EVALTOPT, A_OTF, A_MANUAL, A_LOW};
      int a = again[r.below(14)];
      c.w[a] = 10;
      c.w[A_PROB] = 3;
      c.w[A_EXT] = 3;
      c.fams.resize(1);
    }
  }
  else if (prop == "F03") {
    nops = r.range(3, 10);
    b.p.reps = 64;
    b.p.chk |= C_LEAK;
    if (r.chance(0.3)) mkmem(r, b.p.mem, true);
  } else if (prop == "I01") {
    c.pverb = 0.7;
    c.w[A_PRINT] = 1.5;
    c.w[A_OPT] += 1.5;
    b.p.chk |= C_DEVICE;
    if (r.chance(0.3)) { static const int pr[] = {3, 12, 17}; b.p.colpr = pr[r.below(3)]; }
  } else if (prop == "I02") {
    b.p.chk |= C_HERMETIC;
    c.w[A_PRINT] = 0;
    b.p.env.seed = r.next() >> 1;
    b.p.env.getenv_mode = (int)r.below(5);
    b.p.env.files = (int)r.below(2);
    b.p.locale = (int)r.below(3);
    if (r.chance(0.3)) { static const int pr[] = {3, 12, 17}; b.p.colpr = pr[r.below(3)]; }
  }
  (void)faulty;
  if (prop == "H01" || prop == "I02") c.w[A_DEF] += 0.3;
  if ((prop[0] == 'F' || prop[0] == 'H' || prop == "D01") && r.chance(0.3)) { c.pverb = 0.4; c.w[A_OPT] += 0.4; }
  // long lives: many calls in one process
  if (b.giant >= 0) nops = r.range(3, 8);
  bool lng = b.giant < 0 && (prop[0] == 'H' || prop[0] == 'I' || prop == "D01") && r.chance(0.05), burst = lng && r.chance(0.6);
  bool huge = burst && r.chance(0.25); // thousands of evaluations of something small
  if (lng) {
    for (int &f : c.fams)
      for (int k = 0; k < (huge ? 60 : 20) && (pl.f[(size_t)f].N > (huge ? 1 : 2) || pl.f[(size_t)f].v[0].g.size() > (huge ? 3u : 5u)); k++) f = pl.usual[r.below(pl.usual.size())];
    nops = burst ? r.range(6, 12) : r.range(80, 300);
  }
  prologue(b, c);
  b.run(c, nops);
  if (burst) {
    Ctx w = c;
    for (double &x : w.w) x = 0;
    w.w[A_EVAL] = r.unit(); w.w[A_EVALT] = r.unit(); w.w[A_EVALOPT] = r.unit(); w.w[A_EVALTOPT] = r.unit(); w.w[A_OTF] = 0.3 * r.unit();
    w.w[A_EXT] = r.chance(0.5) ? 0.3 : 0.01; w.w[A_CONS] = r.chance(0.3) ? 0.3 : 0; w.w[A_LOW] = r.chance(0.3) ? 0.3 : 0;
    if (huge) { w.w[A_CONS] = w.w[A_LOW] = 0; for (int x : {A_EVAL, A_EVALT, A_EVALOPT, A_EVALTOPT, A_OTF}) w.w[x] = 0.01; static const int one[] = {A_EVAL, A_EVAL, A_EVALT, A_EVALOPT, A_EVALTOPT, A_OTF}; w.w[one[r.below(6)]] = 1; }
    b.run(w, (int)std::pow(10.0, huge ? 3 + r.unit() : 1.7 + 1.35 * r.unit()));
  }
  // externals usually change in place between the last evaluations
  if (r.chance(0.7)) {
    for (int k = 0; k < 2; k++) {
      b.act(c, A_EXT);
      for (int a : {A_EVAL, A_EVALOPT, A_EVALT, A_EVALTOPT, A_OTF}) if (r.chance(0.4)) b.act(c, a);
    }
  }
  if (prop == "I01" && r.chance(0.3)) b.p.locale = 3;
  if (prop == "I01")
    for (auto &op : b.p.tasks[1])
      if (op.kind < K_LIB_END && r.chance(0.35)) {
        op.dev.mode = r.range(1, 4);
        op.dev.at = (u64)std::pow(10.0, r.unit() * 4) - 1;
        if (r.chance(0.2)) op.dev.exc = 1;
      }
  return b.p;
}

Plan shared_plan(const std::string &prop, u64 base, u64 seed, int psize) {
  Pool &pl = pool_for(base, psize);
  B b(prop, seed, pl);
  Rng &r = b.r;
  mksched(r, b.p.sched);
  mkmem(r, b.p.mem, r.chance(0.2));
  Ctx c0; // builder
  usual(c0);
  c0.manage = true;
  bool rally = prop != "S02" && r.chance(prop == "S04" ? 0.4 : 0.2); // every task does the same one or two things, to large objects
  pickfams(b, c0, prop == "S02" ? r.range(2, 3) : r.range(1, 2), rally);
  c0.eng.push_back(b.engine());
  ownslots(b, c0, 1, r.range(2, 3), 1, 1, 2);
  bool warm = !r.chance(0.35); // cold: the concurrent tasks make the library's first evaluations
  if (prop != "S02") {
    prologue(b, c0);
    int g = b.pickslot(c0.own, V_G, true), f = b.m[(size_t)g].fam;
    if (!b.m[(size_t)c0.own[0]].set) return b.p;
    b.act(c0, A_CONST);
    if (r.chance(0.3)) b.act(c0, A_MARK);
    for (int k = 0; k < 3; k++) b.act(c0, A_FACT);
    if (r.chance(0.2)) b.act(c0, A_MARK);
    for (int s : c0.own)
      if (b.m[(size_t)s].type == V_EXT) b.setext(s, f, (int)r.below(pl.f[(size_t)f].x.size()));
    if (warm && r.chance(0.5)) { Ctx w = c0; for (double &x : w.w) x = 0; w.w[A_EVAL] = w.w[A_EVALT] = w.w[A_EVALOPT] = 1; b.run(w, 2); }
  }
  int nt = b.giant >= 0 ? r.range(2, 3) : r.range(2, 4);
  bool crowd = b.giant < 0 && r.chance(prop == "S02" ? 0.1 : 0.06); // very many threads, few calls each
  if (crowd) { nt = r.range(5, prop == "S02" ? 20 : 36); b.p.sched.mean = r.range(50, 1500); }
  bool crowd_rally = crowd && r.chance(0.5);
  int shared_eng = -1;
  if (prop == "S03") {
    shared_eng = b.engine();
    b.neweng(shared_eng, mkopts(r, 0.5));
  }
  if (prop == "S05") { // the builder hands over copies and disappears
    Ctx keep = c0;
    std::vector<int> fresh;
    for (int s : c0.own) {
      if (!b.m[(size_t)s].set) continue;
      int how = (int)r.below(4), d = b.slot(b.m[(size_t)s].type);
      if (how == 3) { b.p.slots.pop_back(); b.m.pop_back(); fresh.push_back(s); continue; }
      b.add(how == 0 ? K_COPY : how == 1 ? K_MOVE : K_SERIAL, -1, {s, d});
      Meta k = b.m[(size_t)s];
      b.m[(size_t)d] = k;
      if (how != 1 && r.chance(0.7)) { b.add(K_DROP, -1, {s}); b.m[(size_t)s].set = false; }
      if (how == 1) b.m[(size_t)s].set = false;
      fresh.push_back(d);
    }
    if (r.chance(0.8)) { b.add(K_DELENG, c0.eng[0]); b.alive[(size_t)c0.eng[0]] = false; }
    c0.own = fresh;
  }
  std::vector<Ctx> cs;
  static const int together[] = {A_FACT, A_FACT, A_OTF, A_EVALOPT, A_EVALTOPT, A_EVAL, A_EVALT, A_CONS, A_CONST, A_LOW, A_MANUAL, A_COPY, A_PRINT};
  int ra = together[r.below(13)], rb = r.chance(0.5) ? ra : together[r.below(13)];
  for (int t = 0; t < nt; t++) {
    Ctx c;
    usual(c);
    c.w[A_EXT] *= 0.6;
    c.fams = c0.fams;
    if (shared_eng >= 0) { c.eng.push_back(shared_eng); c.manage = false; c.w[A_OPT] = c.w[A_ENG] = 0; }
    else {
      c.manage = true;
      c.eng.push_back(b.engine());
      if (r.chance(prop == "S02" ? 0.5 : 0.3)) c.eng.push_back(b.engine());
    }
    if (prop == "S02") {
      if (r.chance(0.5)) { c.fams.clear(); pickfams(b, c, r.range(1, 2)); }
      ownslots(b, c, 1, r.range(1, 2), 1, r.range(1, 2), 1);
      c.w[A_OPT] *= 2;
      c.w[A_ENG] *= r.chance(0.3) ? 6 : 1.5;
      c.w[A_LOW] *= 1.5;
    } else {
      c.shared = c0.own;
      if (r.chance(0.5)) c.own.push_back(b.slot(V_EXT));
      if (r.chance(0.3)) { c.own.push_back(b.slot(V_SOL)); c.own.push_back(b.slot(V_FAC)); }
      if (r.chance(0.3)) { c.own.push_back(b.slot(V_TERMS)); c.own.push_back(b.slot(V_TERMS)); }
      c.w[A_PROB] = 0;
    }
    swarm(r, c);
    if (rally) {
      c.own.push_back(b.slot(V_FAC));
      for (int i = 0; i < A_NACT; i++) c.w[i] = i == ra || i == rb ? 1 : 0.02;
      if (ra == A_CONS || rb == A_CONS) c.own.push_back(b.slot(V_SOL));
      if (ra == A_CONST || rb == A_CONST) c.own.push_back(b.slot(V_TERMS));
    }
    cs.push_back(c);
  }
  b.p.tasks.resize(2 + (size_t)nt);
  for (int t = 0; t < nt; t++) {
    b.task = t + 2;
    Ctx &c = cs[(size_t)t];
    if (prop == "S02") prologue(b, c);
    else for (int e : c.eng) if (!b.alive[(size_t)e]) b.neweng(e, mkopts(r, 0.5));
    if (crowd && crowd_rally) for (int i = 0; i < A_NACT; i++) c.w[i] = i == ra || i == rb ? 1 : 0.02;
    b.run(c, crowd ? (crowd_rally ? r.range(3, 6) : r.range(1, 2)) : b.giant >= 0 ? r.range(1, 3) : prop == "S02" ? r.range(2, 7) : r.range(2, 8));
  }
  return b.p;
}

// construction in steps with durable checkpoints; crashes are placed later
Plan staged(const std::string &prop, u64 base, u64 seed, int psize) {
  Pool &pl = pool_for(base, psize);
  B b(prop, seed, pl);
  Rng &r = b.r;
  b.p.staged = 1;
  mkmem(r, b.p.mem, r.chance(0.3));
  Ctx c;
  usual(c);
  c.manage = true;
  pickfams(b, c, 1);
  for (int tries = 0; tries < 20 && pl.f[(size_t)c.fams[0]].N < 1; tries++) c.fams[0] = pl.usual[r.below(pl.usual.size())];
  for (int i = r.range(1, 2); i > 0; i--) c.eng.push_back(b.engine());
  ownslots(b, c, 1, 1, 1, 2, 1);
  Opts o0 = mkopts(r, 0.6);
  for (int e : c.eng) { Opts o = mkopts(r, 0.6); o.drop_matsubara_poles = o0.drop_matsubara_poles; b.neweng(e, o); }
  int P = c.own[0], G = c.own[1], X = c.own[2], S = c.own[3], T = c.own[4], T2 = c.own[5], F = c.own[6];
  int f = c.fams[0], N = pl.f[(size_t)f].N;
  b.setprob(P, G, f, (int)r.below(pl.f[(size_t)f].v.size()));
  b.setext(X, f, (int)r.below(pl.f[(size_t)f].x.size()));
  auto ckpt = [&](double q) { if (r.chance(q)) b.add(r.chance(0.25) ? K_XPROC : K_CKPT); };
  double q = 0.4 + 0.6 * r.unit();
  ckpt(0.5);
  bool spr = r.chance(0.6);
  if (prop == "S05") {
    // a complete solution crosses process boundaries before it is used
    b.act(c, A_CONS);
    b.act(c, A_CONST);
    if (r.chance(0.3)) b.act(c, A_MARK);
    b.act(c, A_FACT);
    b.add(K_XPROC);
    b.setext(X, f, (int)r.below(pl.f[(size_t)f].x.size()));
    Ctx w = c;
    for (double &x : w.w) x = 0;
    w.w[A_EVAL] = 3; w.w[A_EVALT] = 2; w.w[A_EVALOPT] = 2; w.w[A_EVALTOPT] = 2; w.w[A_OTF] = 1; w.w[A_MANUAL] = 1; w.w[A_FACT] = 1; w.w[A_COPY] = 0.5;
    w.w[A_EXT] = 1; w.w[A_SERIAL] = 0.5;
    for (int k = 0; k < 3; k++) { b.run(w, 2); if (r.chance(0.5)) b.add(K_XPROC); }
    return b.p;
  }
  // options matter to construction only if the engine differs between steps: keep them equal within one plan
  if (spr) {
    b.add(K_START, b.eng(c), {G, S});
    ckpt(q);
    for (int i = 0; i < N; i++) {
      if (r.chance(0.2)) { b.add(K_RESIDUE, b.eng(c), {G}, (int)r.below((u64)N)); }
      b.add(K_STEP, b.eng(c), {S}, i);
      if (i + 1 < N || r.chance(0.7)) ckpt(q);
    }
    b.done_val(S, f, b.m[(size_t)G].prob, N, b.stamps++);
    b.add(K_ONESHOT, -1, {S, P, G}).opts = o0;
    if (r.chance(0.7)) { b.add(K_EVAL, b.eng(c), {P, S, X}); }
    if (r.chance(0.4)) { b.add(K_FACT_RN, b.eng(c), {S, F}); ckpt(q); b.add(K_EVAL_OPT, b.eng(c), {P, S, X, F}); }
    if (r.chance(0.3)) b.add(K_EVAL_OTF, b.eng(c), {P, S, X});
  } else {
    int cur = T, nx = T2;
    b.add(K_START_T, b.eng(c), {G, cur});
    ckpt(q);
    for (int i = 0; i < N; i++) {
      b.add(K_STEP_T, b.eng(c), {cur, nx}, i);
      std::swap(cur, nx);
      ckpt(q);
    }
    b.add(K_ONESHOT, -1, {cur, P, G}).opts = o0;
    if (r.chance(0.7)) b.add(K_EVAL_T, b.eng(c), {P, cur, X});
    if (r.chance(0.4)) { b.add(K_FACT_T, b.eng(c), {cur, F}); ckpt(q); b.add(K_EVAL_TOPT, b.eng(c), {P, cur, X, F}); }
  }
  return b.p;
}
} // namespace

int g_pool_size = 40;

bool needs_faults(const std::string &prop) {
  return prop[0] == 'F' || prop == "C01" || prop == "S04" || prop == "H01" || prop == "H02" || prop == "H03" || prop == "S05" || prop == "I01" || prop == "D01" || prop == "S01" || prop == "S02" || prop == "S03";
}
Plan generate(const std::string &prop, u64 base, u64 seed) {
  int psize = g_pool_size;
  Plan p;
  if (prop == "C01") p = staged(prop, base, seed, psize);
  else if (prop == "S05" && (rt::mix(seed, 5) & 1)) p = staged(prop, base, seed, psize);
  else if (prop[0] == 'S') p = shared_plan(prop, base, seed, psize);
  else p = single(prop, base, seed, psize);
  if (prop == "S04") p.sched.budget = 400000000ull;
  return p;
}

// keeps the marked operations; every reference to operation indices follows
Plan filter_ops(const Plan &p, const std::vector<std::vector<char>> &keep) {
  Plan q = p;
  std::vector<std::vector<int>> to(p.tasks.size());
  for (size_t t = 1; t < p.tasks.size(); t++) {
    q.tasks[t].clear();
    for (size_t i = 0; i < p.tasks[t].size(); i++) {
      to[t].push_back(keep[t][i] ? (int)q.tasks[t].size() : -1);
      if (keep[t][i]) q.tasks[t].push_back(p.tasks[t][i]);
    }
  }
  auto map = [&](int t, int &op) {
    if (t <= 0 || t >= (int)to.size()) return true;
    if (op < 0) return true;
    if (op >= (int)to[(size_t)t].size() || to[(size_t)t][(size_t)op] < 0) return false;
    op = to[(size_t)t][(size_t)op];
    return true;
  };
  q.sched.list.clear();
  for (auto s : p.sched.list) {
    if (map(s.task, s.op)) { q.sched.list.push_back(s); continue; }
    // the operation is gone: the switch moves to the start of the next one that is left
    int op = s.op + 1;
    while (op < (int)to[(size_t)s.task].size() && to[(size_t)s.task][(size_t)op] < 0) op++;
    if (op < (int)to[(size_t)s.task].size()) { s.op = to[(size_t)s.task][(size_t)op]; s.step = 0; q.sched.list.push_back(s); }
  }
  q.sched.stalls.clear();
  for (auto s : p.sched.stalls) if (map(s.task, s.op)) q.sched.stalls.push_back(s);
  q.sched.crash.clear();
  for (auto s : p.sched.crash) if (map(s.task, s.op)) q.sched.crash.push_back(s);
  return q;
}
// removes operations whose inputs are not there (after an earlier operation was removed or failed for good)
void prune(Plan &p, size_t drop_task, size_t drop_op) { // with everything that needs what an operation to drop would have made
  std::vector<char> st(p.slots.size(), 0);
  std::vector<char> al((size_t)p.nengines, 0);
  std::vector<std::vector<char>> keep(p.tasks.size());
  bool any = false;
  for (size_t t = 1; t < p.tasks.size(); t++) {
    std::vector<char> s2 = st, a2 = al;
    std::vector<char> &s = t == 1 ? st : s2, &a = t == 1 ? al : a2;
    for (auto &op : p.tasks[t]) {
      const OpDesc &d = OPS[op.kind];
      bool ok = t != drop_task || keep[t].size() != drop_op;
      if (d.engine) {
        if (op.e < 0 || op.e >= p.nengines) ok = false;
        else if (op.kind == K_NEWENG ? a[(size_t)op.e] : !a[(size_t)op.e]) ok = false;
      }
      for (size_t i = 0; d.types[i] && ok; i++)
        if ((d.roles[i] == 'i' || d.roles[i] == 'b' || d.roles[i] == 'm') && !s[(size_t)op.s[i]]) ok = false;
      keep[t].push_back(ok);
      if (!ok) {
        any = true;
        for (size_t i = 0; d.types[i]; i++) if (d.roles[i] != 'i' && d.roles[i] != 'm' && op.s[i] >= 0) s[(size_t)op.s[i]] = 0;
        continue;
      }
      bool fails = (!op.faults.empty() && op.mayfail) || op.dev.exc;
      for (size_t i = 0; d.types[i]; i++) {
        char ro = d.roles[i];
        if (ro == 'o' || ro == 'b') s[(size_t)op.s[i]] = !fails;
        if (ro == 'm' || ro == 'd') s[(size_t)op.s[i]] = 0;
      }
      if (op.kind == K_NEWENG) a[(size_t)op.e] = 1;
      if (op.kind == K_DELENG) a[(size_t)op.e] = 0;
      if (op.kind == K_COPYENG) a[(size_t)op.i0] = 1;
    }
  }
  if (any) p = filter_ops(p, keep);
}

int fault_variants(const std::string &prop, bool thorough) {
  if (prop[0] == 'F' || prop == "C01") return thorough ? 16 : 6;
  if (prop == "S04") return thorough ? 8 : 4;
  return 1;
}
static rt::Fault mkfault(Rng &r, u32 allocs, u32 mx, double where) {
  rt::Fault f;
  double u = r.unit();
  if (u < 0.55) { f.kind = rt::F_NTH; f.n = 1 + (u64)(where * allocs); if (f.n > allocs) f.n = allocs; }
  else if (u < 0.7) { f.kind = rt::F_FROM; f.n = 1 + (u64)(where * allocs); if (f.n > allocs) f.n = allocs; }
  else if (u < 0.85) { f.kind = rt::F_SIZE; f.n = std::max<u64>(1, (u64)(mx * std::pow(r.unit(), 2.0))); f.nth = 1 + r.below(3); if (r.chance(0.4)) { f.n = mx; f.nth = 1; } }
  else { f.kind = rt::F_LIMIT; f.n = (u64)std::pow(10.0, 1.5 + 4.0 * r.unit()); }
  return f;
}
// how often a fault was placed in each context so far (by this worker: its sequence of runs is a function of its seed)
static std::unordered_map<u64, u32> used_ctx;
Plan with_faults(const Plan &base, const RunRes &dry, u64 seed, int variant) {
  Plan p = base;
  Rng r(rt::mix(rt::mix(seed, 0xFA), (u64)variant));
  const std::string &prop = p.prop;
  int total = fault_variants(prop, false);
  double strat = ((double)(variant % total) + r.unit()) / total;
  struct At { size_t t, i; };
  std::vector<At> cand;
  for (size_t t = 1; t < p.tasks.size(); t++)
    for (size_t i = 0; i < p.tasks[t].size(); i++)
      if (p.tasks[t][i].kind < K_LIB_END && p.tasks[t][i].kind != K_MOVE && dry.opallocs[t][i] && p.tasks[t][i].kind != K_DEFPARMS) cand.push_back(At{t, i});
  auto is_cand = [&](size_t t, size_t i) {
    for (auto &c : cand) if (c.t == t && c.i == i) return true;
    return false;
  };
  auto place = [&](int n, double pretry) {
    for (int k = 0; k < n && !cand.empty(); k++) {
      At a = cand[r.below(cand.size())];
      // half of the faults go to a calling context rather than to an operation: every path that allocates is as
      // likely as any other, however seldom it is taken
      if (!dry.actx.empty() && r.chance(0.5)) {
        const rt::CtxAt *best = nullptr; // the least used of a few
        for (int q = 0; q < 6; q++) {
          const rt::CtxAt *x = &dry.actx[r.below(dry.actx.size())];
          if (!best || used_ctx[x->key] < used_ctx[best->key]) best = x;
        }
        used_ctx[best->key]++;
        const rt::CtxAt &c = *best;
        if (!is_cand(c.task, c.op)) continue;
        OpP &op = p.tasks[c.task][c.op];
        if (!op.faults.empty() || op.dev.mode) continue;
        rt::Fault f;
        f.kind = r.chance(0.7) ? rt::F_NTH : rt::F_FROM;
        f.n = c.n;
        op.mayfail = !r.chance(pretry);
        op.faults.push_back(f);
        continue;
      }
      OpP &op = p.tasks[a.t][a.i];
      if (!op.faults.empty() || op.dev.mode) continue;
      u32 al = dry.opallocs[a.t][a.i], mx = dry.opmax[a.t][a.i];
      bool retry = r.chance(pretry);
      int cnt = retry ? r.range(1, 3) : 1;
      for (int q = 0; q < cnt; q++) op.faults.push_back(mkfault(r, al, mx, q == 0 && k == 0 ? strat : r.unit()));
      op.mayfail = !retry;
    }
  };
  // half of the stalls and crash points go to a calling context of the task instead
  auto in_context = [&](size_t t, rt::PointAt &a) {
    // where the code synchronises at all, the moments just after that are the interesting ones
    if (!dry.sctx.empty() && r.chance(0.6)) {
      for (int k = 0; k < 20; k++) {
        const rt::CtxAt &c = dry.sctx[r.below(dry.sctx.size())];
        if (c.task != t || p.tasks[t][c.op].kind >= K_LIB_END || dry.opsteps[t][c.op] < 3) continue;
        a.op = c.op;
        a.step = std::min<u64>(c.step + (r.chance(0.7) ? r.below(4) : r.below(30)), dry.opsteps[t][c.op] - 1);
        if (!a.step) a.step = 1;
        return;
      }
    }
    if (dry.fctx.empty() || !r.chance(0.5)) return;
    for (int k = 0; k < 20; k++) {
      const rt::CtxAt &c = dry.fctx[r.below(dry.fctx.size())];
      if (c.task != t || p.tasks[t][c.op].kind >= K_LIB_END || dry.opsteps[t][c.op] < 3) continue;
      a.op = c.op;
      a.step = std::min<u64>(c.step + 1 + (r.chance(0.5) ? r.below(8) : r.below(400)), dry.opsteps[t][c.op] - 1);
      return;
    }
  };
  if (prop == "F01") place(r.range(1, 4), 0.15);
  else if (prop == "F02") place(r.range(1, 3), variant % 2 ? 1.0 : 0.5);
  else if (prop == "F03") place(r.range(1, 3), 0.5);
  else if (prop == "C01" || (prop == "S05" && p.staged)) {
    int n = r.range(1, 3);
    for (int k = 0; k < n; k++) {
      std::vector<size_t> c;
      for (size_t i = 0; i < p.tasks[1].size(); i++)
        if (p.tasks[1][i].kind < K_LIB_END && dry.opsteps[1][i] > 2) c.push_back(i);
      if (c.empty()) break;
      size_t i = c[r.below(c.size())];
      rt::PointAt a;
      a.task = 1;
      a.op = (int)i;
      double w = k == 0 ? strat : r.unit();
      a.step = 1 + (u64)(w * (double)(dry.opsteps[1][i] - 1));
      in_context(1, a);
      p.sched.crash.push_back(a);
    }
    if (r.chance(0.3)) place(1, 1.0);
  } else if (prop == "S04") {
    int nt = (int)p.tasks.size() - 2, ns = 1 + (int)r.below((u64)std::max(1, nt - 1));
    std::vector<int> ts;
    for (int t = 2; t < 2 + nt; t++) ts.push_back(t);
    for (int k = 0; k < ns && !ts.empty(); k++) {
      size_t w = r.below(ts.size());
      int t = ts[w];
      ts.erase(ts.begin() + (long)w);
      std::vector<size_t> c;
      for (size_t i = 0; i < p.tasks[(size_t)t].size(); i++)
        if (p.tasks[(size_t)t][i].kind < K_LIB_END && dry.opsteps[(size_t)t][i] > 2) c.push_back(i);
      if (c.empty()) continue;
      size_t i = c[r.below(c.size())];
      rt::PointAt a;
      a.task = t;
      a.op = (int)i;
      a.step = 1 + (u64)(r.unit() * (double)(dry.opsteps[(size_t)t][i] - 1));
      in_context((size_t)t, a);
      a.arg = r.chance(0.4);
      p.sched.stalls.push_back(a);
    }
    // progress: every operation within a fixed multiple of the steps it takes alone
    u64 mx = 0;
    for (auto &v : dry.opsteps) for (u64 s : v) mx = std::max(mx, s);
    p.sched.budget = mx * 10 + 200000;
  } else if (prop == "H01" || prop == "H02" || prop == "H03") { if (r.chance(0.5)) place(r.range(1, 3), 0.5); }
  else if (prop == "D01") { if (r.chance(0.25)) place(1, 0.5); }
  else if (prop == "I01") { if (r.chance(0.25)) place(1, 1.0); }
  else if (prop[0] == 'S') { if (r.chance(0.25)) place(r.range(1, 2), 0.6); }
  prune(p);
  return p;
}
bool nontrivial(const Plan &p, const RunRes &r) {
  u64 f = 0;
  for (int i = 1; i < rt::F_NKINDS; i++) f += r.st.faults[i];
  int evals = 0, lib = 0;
  for (auto &t : p.tasks) for (auto &o : t) { evals += OPS[o.kind].flag == 'E'; lib += o.kind < K_LIB_END; }
  if (p.prop == "S04") return r.st.stalls > 0;
  if (p.prop == "S05") return p.staged ? r.stages > 1 : r.st.switches >= 2;
  if (p.prop[0] == 'S') return p.tasks.size() > 3 && r.st.switches >= 2 && lib >= 2;
  if (p.prop == "C01") return r.st.crashes > 0;
  if (p.prop[0] == 'F') return f > 0;
  if (p.prop == "I01") return r.probes[2] > 0 || r.probes[3] > 0;
  return evals >= 2;
}
