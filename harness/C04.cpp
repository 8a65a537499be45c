// C04: cell evidence fusion
#include "mc.h"
#include "common.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/credibilist/grid_cell.h"

// ---- reference model: one record per cell, plain textbook arithmetic
struct Bel { double u = 1, e = 0, o = 0; };
struct Ref {
  int kind; // 0 affine 1 mean 2 tbm-consistent 3 tbm-even 4 gmapping 5 credibilist
  double p, q; bool unknown = true;
  double sum = 0; int n = 0, hits = 0; double ox = 0, oy = 0; Bel b;
  bool any_quality = false;
  explicit Ref(int k) : kind(k) { p = k == 4 ? -1 : 0.5; q = 1; }
  static Bel bel(const AreaOccupancyObservation &a) {
    double w = a.occupancy.estimation_quality * a.quality; Bel b; b.o = a.occupancy.prob_occ * w; b.e = (1 - a.occupancy.prob_occ) * w; b.u = 1 - w; return b;
  }
  void add(const AreaOccupancyObservation &a) {
    if (std::isnan(a.occupancy.prob_occ) || std::isnan(a.occupancy.estimation_quality)) return;
    unknown = false;
    double occ = a.occupancy.prob_occ;
    switch (kind) {
    case 0: p = p + a.quality * (occ - p); break;
    case 1: sum += 0.5 + (occ - 0.5) * a.quality; ++n; p = sum / n; break;
    case 4:
      ++n; if (occ > 0.5) { sum += occ; ++hits; ox += a.obstacle.x; oy += a.obstacle.y; }
      p = sum / n; break;
    default: {
      Bel c = bel(a); double u = b.u * c.u, e = b.e * c.e + b.e * c.u + b.u * c.e, o = b.o * c.o + b.o * c.u + b.u * c.o, w = u + e + o;
      if (w < 1e-12) { b = Bel(); } else { b.u = u / w; b.e = e / w; b.o = o / w; }
      if (kind == 2) {
        q = b.o + b.e;
        p = q > 0 ? b.o / q : 0.5; // no evidence at all: nothing is known
      } else { p = b.o + 0.5 * b.u; q = 1; }
    } }
  }
  double discrepancy(const AreaOccupancyObservation &a) const {
    switch (kind) {
    case 0: case 1: return std::fabs(p - a.occupancy.prob_occ);
    case 4: { double x = hits ? ox / hits : 0, y = hits ? oy / hits : 0; double dx = x - a.obstacle.x, dy = y - a.obstacle.y; return 1 - std::exp(-(dx * dx + dy * dy) / 0.05); }
    case 5: { Bel c = bel(a); return 1 - b.o * c.o; } // mass of "both say occupied"
    default: { Bel c = bel(a); double unk = (c.u + b.u) / 2, conf = c.o * b.e + c.e * b.o; return unk / 2 + (1 - unk) * (conf + std::fabs(c.o - b.o)) / 2; }
    }
  }
};
static std::shared_ptr<GridCell> make(int k) {
  switch (k) {
  case 0: return std::make_shared<AffineQualityMergeCell>();
  case 1: return std::make_shared<MeanProbabilityCell>();
  case 2: return std::make_shared<TbmOccConsistentCell>();
  case 3: return std::make_shared<TbmUnknownEvenOccCell>();
  case 4: return std::make_shared<GmappingBaseCell>();
  default: return std::make_shared<CredibilistCell>();
  }
}
static const char *Names[] = {"affine", "mean", "tbm-consistent", "tbm-even", "gmapping", "credibilist"};
static std::vector<AreaOccupancyObservation> alphabet(bool rich) {
  std::vector<AreaOccupancyObservation> v{
    {true, {0.9, 0.8}, {0.25, -0.1}, 0.7}, {false, {0.2, 0.6}, {0.3, 0.2}, 0.9}, {false, Occupancy::invalid(), {9, 9}, 1},
    {true, {1, 1}, {0.2, 0}, 1}, {false, {0, 1}, {0, 0}, 1}, {true, {0.7, 1}, {0.1, 0.1}, 0}, {false, {0.5, 1}, {0.4, 0.4}, 0.5}};
  if (rich) {
    v.push_back({true, {0.6, 0}, {1, 1}, 1}); v.push_back({false, {0.3, 1}, {0.05, 0.3}, 1});
    v.push_back({true, {0.3, std::numeric_limits<double>::quiet_NaN()}, {2, 2}, 0.5});
    v.push_back({true, {std::numeric_limits<double>::quiet_NaN(), 1}, {2, 2}, 0.5});
    v.push_back({false, {0.8, 0.9}, {-0.3, 0.15}, 0.3}); v.push_back({true, {0.2, 0.9}, {-0.3, 0.15}, 0.3});
  }
  return v;
}
static void check(mc::Ctx &cx, const GridCell &c, const Ref &r, const std::vector<AreaOccupancyObservation> &al, const char *when) {
  double p = c.occupancy().prob_occ, q = c.occupancy().estimation_quality;
  const char *n = Names[r.kind];
  if (!(r.unknown && r.kind == 4)) MC_CHECK(cx, p >= -1e-9 && p <= 1 + 1e-9, "range", n << when << ": the occupancy is " << p);
  MC_CHECK(cx, mc::near(p, r.p, 1e-8), "fusion", n << when << ": the occupancy is " << p << ", the fused observations give " << r.p);
  MC_CHECK(cx, double(c) == p || mc::near(double(c), p), "double", n << ": conversion to double differs");
  if (!(r.kind == 2 && r.q == 0)) MC_CHECK(cx, mc::near(q, r.q, 1e-8), "quality", n << when << ": the estimation quality is " << q << ", expected " << r.q);
  MC_CHECK(cx, c.is_unknown() == r.unknown, "unknown", n << when << ": is_unknown() is " << c.is_unknown());
  for (auto &a : al) if (a.occupancy.is_valid()) {
    double d = c.discrepancy(a), w = r.discrepancy(a);
    if (!(r.unknown && r.kind == 4)) MC_CHECK(cx, d >= -1e-9 && d <= 1 + 1e-9, "discrepancy-range", n << when << ": discrepancy " << d);
    MC_CHECK(cx, mc::near(d, w, 1e-8), "discrepancy", n << when << ": discrepancy with " << a.occupancy << " is " << d << ", expected " << w);
  }
}
static void fuse(mc::Ctx &cx, int depth, bool rich) {
  int k = cx.choose(6, "kind"); MC_LOG(cx, " [" << Names[k] << "]");
  auto al = alphabet(rich); auto c = make(k); Ref r(k);
  check(cx, *c, r, al, " before any evidence");
  for (int i = 0; i < depth; ++i) {
    auto &a = cx.pick(al, "obs"); MC_LOG(cx, "(" << a.occupancy << " q" << a.quality << ")");
    *c += a; r.add(a); cx.step();
    check(cx, *c, r, al, " after an observation");
    cx.state(mc::Hash() << k << r.p << r.q << r.b.o << r.b.e << r.n << r.hits << r.ox);
  }
  cx.outcome(mc::Hash() << k << r.p);
}
MC_SCENARIO(fusion, 3) { fuse(cx, cx.thorough ? 7 : 6, false); }
MC_SCENARIO(fusion_rich, 3) { fuse(cx, cx.thorough ? 6 : 5, true); }
// next to nothing and next to everything: tiny qualities and probabilities next to 0 and 1
MC_SCENARIO(faint, 3) {
  int k = cx.choose(6, "kind"), n = cx.thorough ? 5 : 4; MC_LOG(cx, " [" << Names[k] << "]"); auto c = make(k); Ref r(k);
  std::vector<AreaOccupancyObservation> al{{true, {0.9, 1e-2}, {0.25, -0.1}, 0.7}, {false, {0.2, 1}, {0.3, 0.2}, 1e-2}, {true, {0.7, 0.1}, {0.1, 0.3}, 1e-3}, {true, {0.75, 1e-4}, {0.1, 0.3}, 1e-3}, {false, {0.1, 1e-6}, {0, 0.2}, 1}, {true, {1 - 1e-6, 1}, {0.2, 0}, 1 - 1e-6}, {false, {1e-6, 1 - 1e-3}, {0, 0}, 1}, {true, {0.99, 0.99}, {0.2, 0.1}, 0.99}, {false, {0.01, 0.99}, {0, 0}, 0.99}, {true, {0.505, 1}, {0.4, 0}, 1}, {true, {0.495, 1}, {0, 0.4}, 1}};
  for (int i = 0; i < n; ++i) { auto &a = cx.pick(al, "obs"); MC_LOG(cx, "(" << a.occupancy << " q" << a.quality << ")"); *c += a; r.add(a); cx.step(); check(cx, *c, r, al, " after an observation"); cx.state(mc::Hash() << k << r.p << r.q << r.b.o << r.b.e << r.n << r.hits << r.ox); }
  cx.outcome(mc::Hash() << k << r.p);
}
// copies, clones and assignments evolve on their own
MC_SCENARIO(copies, 3) {
  int k = cx.choose(6, "kind"); auto al = alphabet(false); auto a = make(k); Ref ra(k);
  int n = cx.choose(3, "before"); for (int i = 0; i < n; ++i) { auto &o = cx.pick(al, "obs"); *a += o; ra.add(o); }
  std::shared_ptr<GridCell> b = a->clone(); Ref rb = ra;
  auto pa = a; (void)pa;
  check(cx, *b, rb, al, " right after cloning");
  for (int i = 0; i < 3; ++i) {
    bool first = cx.flag("which"); auto &o = cx.pick(al, "obs"); cx.step();
    if (first) { *a += o; ra.add(o); } else { *b += o; rb.add(o); }
    check(cx, *a, ra, al, " (original)"); check(cx, *b, rb, al, " (clone)");
  }
  std::shared_ptr<GridCell> f = make(k); check(cx, *f, Ref(k), al, " (a new cell)");
  cx.outcome(mc::Hash() << k << ra.p << rb.p);
}
// long histories of one cell: every pair of observations in every mix, up to thousands of updates
static void long_histories(mc::Ctx &cx, int upto) {
  int k = cx.choose(6, "kind"); auto al = alphabet(true); auto c = make(k); Ref r(k);
  int i = cx.choose(int(al.size()), "first"), j = cx.choose(int(al.size()), "second"), mix = cx.choose(3, "mix"); MC_LOG(cx, " [" << Names[k] << "] " << al[i].occupancy << " and " << al[j].occupancy);
  for (int n = 1; n <= upto; ++n) {
    bool second = mix == 0 ? n % 2 == 0 : mix == 1 ? n % 10 == 9 : (n / 50) % 2 == 1;
    auto &a = al[second ? j : i]; *c += a; r.add(a); cx.step();
    if (n < 40 || n % 97 == 0 || (n & (n - 1)) == 0 || (n & (n + 1)) == 0) { check(cx, *c, r, {al[i], al[j], al[0]}, (" after " + std::to_string(n) + " observations").c_str()); cx.state(mc::Hash() << k << r.p << r.q << r.b.o << r.b.e << r.n << r.hits); }
  }
  cx.outcome(mc::Hash() << k << r.p);
}
MC_SCENARIO(long_histories, 3) { long_histories(cx, cx.thorough ? 3000 : 600); }
MC_SCENARIO(very_long_histories, 2) {
  int k = cx.choose(6, "kind"); auto al = alphabet(false); auto c = make(k); Ref r(k); int i = cx.choose(2, "mostly");
  for (int n = 1; n <= 70000; ++n) { auto &a = al[n % 7 == 3 ? 1 - i : i]; *c += a; r.add(a); if ((n & (n - 1)) == 0 || n % 9973 == 0) { cx.step(); check(cx, *c, r, al, (" after " + std::to_string(n) + " observations").c_str()); } }
  cx.state(mc::Hash() << k << r.p << r.n); cx.outcome(mc::Hash() << k << r.p);
}
