// C05: belief-mass algebra
#include "mc.h"
#include <cassert>
#include <cmath>
#include <memory>
#include <vector>
#include <algorithm>
#include "core/maps/transferable_belief_model.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/credibilist/TBM_prob_conversion.h"

struct B { double u, e, o, c; };
static B of(const TBM &t) { return {t.unknown(), t.empty(), t.occupied(), t.conflict()}; }
static TBM tb(const B &b) { return TBM{b.u, b.e, b.o, b.c}; }
static bool eq(const B &a, const B &b) { return mc::near(a.u, b.u, 1e-9) && mc::near(a.e, b.e, 1e-9) && mc::near(a.o, b.o, 1e-9) && mc::near(a.c, b.c, 1e-9); }
static std::ostream &operator<<(std::ostream &s, const B &b) { return s << "{unknown " << b.u << ", empty " << b.e << ", occupied " << b.o << ", conflict " << b.c << "}"; }
static B conj(const B &a, const B &b) {
  B r; r.u = a.u * b.u; r.e = a.e * b.e + a.e * b.u + a.u * b.e; r.o = a.o * b.o + a.o * b.u + a.u * b.o; r.c = 1 - r.u - r.e - r.o; return r;
}
static B disj(const B &a, const B &b) {
  B r; r.c = a.c * b.c; r.e = a.e * b.e + a.e * b.c + a.c * b.e; r.o = a.o * b.o + a.o * b.c + a.c * b.o; r.u = 1 - r.c - r.e - r.o; return r;
}
static B norm(const B &a) { double w = a.u + a.e + a.o; if (w < 1e-12) return {1, 0, 0, 0}; return {a.u / w, a.e / w, a.o / w, 0}; }
static void valid(mc::Ctx &cx, const B &b, const char *what) {
  MC_CHECK(cx, b.u >= -1e-12 && b.e >= -1e-12 && b.o >= -1e-12 && b.c >= -1e-12 && mc::near(b.u + b.e + b.o + b.c, 1, 1e-9), "mass", what << " gives masses " << b);
}
// all points of the mass simplex with denominator n
static std::vector<B> lattice(int n, bool conflict) {
  std::vector<B> v;
  for (int u = n; u >= 0; --u) for (int e = 0; e + u <= n; ++e) for (int o = 0; o + e + u <= n; ++o) {
    int c = n - u - e - o; if (c && !conflict) continue; v.push_back({double(u) / n, double(e) / n, double(o) / n, double(c) / n});
  }
  return v;
}
static void triples(mc::Ctx &cx, int n, bool conflict) {
  auto L = lattice(n, conflict);
  const B a = cx.pick(L, "a"), b = cx.pick(L, "b");
  TBM A = tb(a), Bt = tb(b);
  cx.step(2);
  B ab = of(conjunctive(A, Bt)), ba = of(conjunctive(Bt, A)), dab = of(disjunctive(A, Bt)), dba = of(disjunctive(Bt, A));
  valid(cx, ab, "conjunctive"); valid(cx, dab, "disjunctive");
  MC_CHECK(cx, eq(ab, conj(a, b)), "conjunctive", "conjunctive of " << a << " and " << b << " is " << ab << ", expected " << conj(a, b));
  MC_CHECK(cx, eq(dab, disj(a, b)), "disjunctive", "disjunctive of " << a << " and " << b << " is " << dab << ", expected " << disj(a, b));
  MC_CHECK(cx, eq(ab, ba) && eq(dab, dba), "commutative", "combination of " << a << " and " << b << " is not commutative");
  MC_CHECK(cx, eq(of(A), a) && eq(of(Bt), b), "operands", "a combination changed its operands");
  MC_CHECK(cx, eq(of(conjunctive(A, TBM())), a), "neutral", "the vacuous belief is not neutral for " << a);
  MC_CHECK(cx, eq(of(TBM()), B{1, 0, 0, 0}), "vacuous", "a default belief is not vacuous");
  TBM N = A; N.normalize_conflict();
  MC_CHECK(cx, eq(of(N), norm(a)), "normalize", "normalising the conflict of " << a << " gives " << of(N));
  TBM T = TBM{a.u * 3, a.e * 3, a.o * 3, a.c * 3}; T.normalize();
  MC_CHECK(cx, eq(of(T), a), "normalize-total", "normalising three times " << a << " gives " << of(T));
  for (auto &c : L) {
    TBM C = tb(c);
    MC_CHECK(cx, eq(of(conjunctive(conjunctive(A, Bt), C)), of(conjunctive(A, conjunctive(Bt, C)))), "associative", "conjunctive of " << a << b << c << " is not associative");
    MC_CHECK(cx, eq(of(disjunctive(disjunctive(A, Bt), C)), of(disjunctive(A, disjunctive(Bt, C)))), "associative", "disjunctive of " << a << b << c << " is not associative");
    cx.step();
  }
  cx.state(mc::Hash() << ab.u << ab.e << ab.o << dab.u << dab.e << dab.o);
  cx.outcome(mc::Hash() << ab.u << ab.e << ab.o);
}
MC_SCENARIO(lattice_triples, 2) { triples(cx, cx.thorough ? 8 : 5, true); }
MC_SCENARIO(lattice_normal_triples, 2) { triples(cx, cx.thorough ? 14 : 9, false); }
// nearly certain and nearly contradictory masses
MC_SCENARIO(extreme_masses, 2) {
  std::vector<double> m{0, 1e-9, 1e-6, 1e-4, 1e-3, 0.004, 0.03}; if (cx.thorough) { m.push_back(1e-7); m.push_back(0.011); m.push_back(0.2); }
  std::vector<B> L; for (double x : m) for (double y : m) for (int rest = 0; rest < 4; ++rest) {
    double z = 1 - x - y; if (rest == 0) L.push_back({z, x, y, 0}); if (rest == 1) L.push_back({x, z, y, 0}); if (rest == 2) L.push_back({x, y, z, 0}); if (rest == 3) L.push_back({x, y, 0, z}), L.push_back({0, x, y, z}), L.push_back({x, 0, y, z});
  }
  const B a = cx.pick(L, "a"); TBM N = tb(a); N.normalize_conflict(); cx.step(); valid(cx, of(N), "normalisation");
  MC_CHECK(cx, eq(of(N), norm(a)), "normalize", "normalising the conflict of " << a << " gives " << of(N) << ", expected " << norm(a));
  for (double f : {1e3, 0.5, 1e-2, 1e-4, 1e-9, 1e-12, 1e9}) { TBM T{a.u * f, a.e * f, a.o * f, a.c * f}; T.normalize(); MC_CHECK(cx, eq(of(T), a), "normalize-total", "normalising " << a << " times " << f << " gives " << of(T)); TBM D = TBM{a.u * f, a.e * f, a.o * f, a.c * f}; double sum = a.u + a.e + a.o; if (sum * f > 1e-14 && sum > 1e-10) { D.normalize_conflict(); MC_CHECK(cx, eq(of(D), B{a.u / sum, a.e / sum, a.o / sum, 0}), "normalize", "normalising the conflict of " << a << " times " << f << " gives " << of(D)); } }
  for (auto &b : L) {
    TBM c = conjunctive(tb(a), tb(b)), d = disjunctive(tb(a), tb(b)); cx.step();
    MC_CHECK(cx, eq(of(c), conj(a, b)), "conjunctive", "conjunctive of " << a << " and " << b << " is " << of(c)); MC_CHECK(cx, eq(of(d), disj(a, b)), "disjunctive", "disjunctive of " << a << " and " << b << " is " << of(d));
    B r = conj(a, b); if (r.u + r.e + r.o > 1e-10) { c.normalize_conflict(); B w = norm(r), g = of(c); double tol = 1e-14 / (r.u + r.e + r.o) + 1e-9; valid(cx, g, "normalisation"); MC_CHECK(cx, std::fabs(g.u - w.u) < tol && std::fabs(g.e - w.e) < tol && std::fabs(g.o - w.o) < tol && std::fabs(g.c) < tol, "normalize", "combining " << a << " and " << b << " without conflict gives " << g << ", expected " << w); }
  }
  cx.state(mc::Hash() << a.u << a.e << a.o << a.c); cx.outcome(mc::Hash() << a.u << a.e << a.o);
}
// chains of combinations with conflict normalised after each, as the cells do it
MC_SCENARIO(chains, 2) {
  auto L = lattice(3, true); TBM t; B r{1, 0, 0, 0};
  for (int i = 0; i < (cx.thorough ? 4 : 3); ++i) {
    const B &b = cx.pick(L, "b"); int op = cx.choose(3, "op"); cx.step();
    if (op == 2) { t = disjunctive(t, tb(b)); r = disj(r, b); }
    else { t = conjunctive(t, tb(b)); r = conj(r, b); }
    if (op == 1) { t.normalize_conflict(); r = norm(r); }
    valid(cx, of(t), "chain"); MC_CHECK(cx, eq(of(t), r), "chain", "a chain of combinations gives " << of(t) << ", expected " << r);
    cx.state(mc::Hash() << r.u << r.e << r.o);
  }
  TBM z{0, 0, 0, 0}; z.normalize(); MC_CHECK(cx, eq(of(z), B{1, 0, 0, 0}), "zero", "normalising zero masses");
  cx.outcome(mc::Hash() << r.u << r.e << r.o);
}
// occupancy <-> belief
struct Probe : TbmOccConsistentCell { using TbmBaseCell::aoo2tbm; };
MC_SCENARIO(conversions, 2) {
  int n = cx.thorough ? 40 : 20;
  int ip = cx.choose(n + 1, "p"), ie = cx.choose(n / 2 + 1, "estimation-quality"), iq = cx.choose(n / 2 + 1, "quality");
  double p = double(ip) / n, eqy = 2.0 * ie / n, q = 2.0 * iq / n, w = eqy * q; cx.step();
  AreaOccupancyObservation a{p > 0.5, {p, eqy}, {1, 2}, q};
  B b = of(AOO_to_TBM(a));
  valid(cx, b, "the conversion of an observation");
  MC_CHECK(cx, eq(b, B{1 - w, (1 - p) * w, p * w, 0}), "to-belief", "occupancy " << p << " with quality " << w << " becomes " << b);
  double back = TBM_to_O(tb(b)).prob_occ;
  MC_CHECK(cx, mc::near(back, b.o + 0.5 * b.u), "to-occupancy", "belief " << b << " becomes occupancy " << back);
  MC_CHECK(cx, back >= -1e-12 && back <= 1 + 1e-12, "range", "belief " << b << " becomes occupancy " << back);
  if (ip) { AreaOccupancyObservation a2{p > 0.5, {double(ip - 1) / n, eqy}, {1, 2}, q}; MC_CHECK(cx, TBM_to_O(AOO_to_TBM(a2)).prob_occ <= back + 1e-12, "monotone", "not monotone at " << p); }
  TbmUnknownEvenOccCell even; TbmOccConsistentCell cons; even += a; cons += a;
  MC_CHECK(cx, eq(of(even.belief()), b) && eq(of(cons.belief()), b), "cell", "a cell's belief after one observation " << of(even.belief()) << of(cons.belief()) << " differs from the observation's " << b);
  MC_CHECK(cx, mc::near(even.occupancy().prob_occ, back), "cell", "cell occupancy after one observation");
  if (w > 0) MC_CHECK(cx, mc::near(cons.occupancy().prob_occ, p, 1e-8) && mc::near(cons.occupancy().estimation_quality, w, 1e-8), "consistent", "occupancy " << p << " with quality " << w << " comes back as " << cons.occupancy());
  AreaOccupancyObservation bad{true, Occupancy::invalid(), {1, 2}, q};
  MC_CHECK(cx, eq(of(AOO_to_TBM(bad)), B{1, 0, 0, 0}), "invalid", "an invalid observation carries evidence");
  cx.state(b.o * 1e6 + b.u * 1e3); cx.outcome(mc::Hash() << b.o << b.u);
}
// long chains, conflict normalised after every combination
MC_SCENARIO(long_chains, 2) {
  auto L = lattice(4, false); const B b1 = cx.pick(L, "first"), b2 = cx.pick(L, "second"); int mix = 1 + cx.choose(4, "mix"); TBM t; B r{1, 0, 0, 0};
  for (int n = 1; n <= (cx.thorough ? 500 : 100); ++n) {
    const B &b = n % (mix + 1) == mix ? b2 : b1; cx.step();
    B next = norm(conj(r, b)); t = conjunctive(t, tb(b)); t.normalize_conflict(); { B w = conj(r, b); if (w.u + w.e + w.o < 1e-10) break; } r = next;
    valid(cx, of(t), "chain"); MC_CHECK(cx, eq(of(t), r), "chain", "after " << n << " combinations of " << b1 << " and " << b2 << " the belief is " << of(t) << ", expected " << r); cx.state(mc::Hash() << r.u << r.e << r.o);
  }
  cx.outcome(mc::Hash() << r.u << r.e << r.o);
}
