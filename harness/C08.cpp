// C08: rectangle intersection, overlap and splitting
#include "mc.h"
#include <vector>
#include <algorithm>
#include <array>
#include "core/geometry_primitives.h"
typedef LightWeightRectangle R;
struct Q { double b, t, l, r; };
static std::vector<std::pair<int, int>> spans(int n) { std::vector<std::pair<int, int>> v; for (int len = n - 1; len >= 0; --len) for (int a = 0; a + len < n; ++a) v.push_back({a, a + len}); return v; }
static bool eq(const R &r, const Q &q) { return mc::near(r.bot(), q.b) && mc::near(r.top(), q.t) && mc::near(r.left(), q.l) && mc::near(r.right(), q.r); }

static void pairs(mc::Ctx &cx, int n, const std::vector<double> &scales, const std::vector<double> &offs) {
  auto S = spans(n); double k = cx.pick(scales, "scale"), off = cx.pick(offs, "offset");
  auto mk = [&](std::pair<int, int> v, std::pair<int, int> h) { return Q{v.first * k + off, v.second * k + off, h.first * k - off, h.second * k - off}; };
  auto av = cx.pick(S, "a.v"), ah = cx.pick(S, "a.h"), bv = cx.pick(S, "b.v");
  for (auto &bh : S) {
    Q a = mk(av, ah), b = mk(bv, bh); cx.step();
    R ra{a.b, a.t, a.l, a.r}, rb{b.b, b.t, b.l, b.r};
    Q w{std::max(a.b, b.b), std::min(a.t, b.t), std::max(a.l, b.l), std::min(a.r, b.r)};
    bool meet = w.b <= w.t && w.l <= w.r; double wa = meet ? (w.t - w.b) * (w.r - w.l) : 0;
    R i = ra.intersect(rb), j = rb.intersect(ra);
    MC_CHECK(cx, mc::near(i.area(), wa), "area", ra << " and " << rb << " share the area " << wa << ", the intersection is " << i);
    MC_CHECK(cx, mc::near(j.area(), wa), "area", rb << " and " << ra << " share the area " << wa << ", the intersection is " << j);
    if (meet) MC_CHECK(cx, eq(i, w) && eq(j, w), "shape", ra << " and " << rb << " intersect in " << i << " / " << j);
    double area = (a.t - a.b) * (a.r - a.l), ov = ra.overlap(rb), want;
    if (area > 0) want = wa / area;
    else if (a.t == a.b && a.r == a.l) want = meet ? 1 : 0;                       // a point
    else want = meet ? (w.t - w.b + w.r - w.l) / (a.t - a.b + a.r - a.l) : 0;     // a line: shared length
    MC_CHECK(cx, mc::near(ov, want) && ov >= 0 && ov <= 1 + 1e-9, "overlap", ra << " is overlapped by " << rb << " at " << ov << ", expected " << want);
    MC_CHECK(cx, (ra == rb) == (av == bv && ah == bh), "equality", ra << " == " << rb);
    cx.state(mc::Hash() << i.bot() << i.top() << i.left() << i.right() << ov); cx.outcome(mc::Hash() << ov << wa);
  }
}
MC_SCENARIO(all_pairs, 3) { pairs(cx, cx.thorough ? 7 : 5, {1.0, 0.1, 0.37}, {0.0, 2.5}); }
MC_SCENARIO(all_pairs_fine, 3) { pairs(cx, cx.thorough ? 9 : 6, {0.05}, {-0.15}); }

MC_SCENARIO(one, 2) {
  int n = cx.thorough ? 9 : 6; auto S = spans(n);
  std::vector<double> ks{1.0, 0.1, 0.37}, offs{0.0, -1.3, 40}; double k = cx.pick(ks, "scale"), off = cx.pick(offs, "offset");
  auto v = cx.pick(S, "v"), h = cx.pick(S, "h"); cx.step();
  Q q{v.first * k + off, v.second * k + off, h.first * k + off, h.second * k + off}; R r{q.b, q.t, q.l, q.r};
  double vs = q.t - q.b, hs = q.r - q.l; auto c = r.center();
  MC_CHECK(cx, eq(r, q), "bounds", "bounds of " << r);
  MC_CHECK(cx, mc::near(r.vside_len(), vs) && mc::near(r.hside_len(), hs) && mc::near(r.area(), vs * hs), "sides", "sides of " << r << " " << r.vside_len() << " " << r.hside_len() << " " << r.area());
  MC_CHECK(cx, mc::near(c.x, (q.l + q.r) / 2) && mc::near(c.y, (q.b + q.t) / 2), "center", "centre of " << r << " is " << c);
  MC_CHECK(cx, r.is_point() == (vs == 0 && hs == 0) && r.is_line() == ((vs == 0) != (hs == 0)), "degenerate", "is_point/is_line of " << r);
  auto cs = r.corners(); std::vector<std::pair<double, double>> want{{q.l, q.b}, {q.l, q.t}, {q.r, q.b}, {q.r, q.t}};
  MC_CHECK(cx, cs.size() == 4, "corners", "number of corners");
  for (auto &w : want) { bool f = false; for (auto &p : cs) f |= mc::near(p.x, w.first) && mc::near(p.y, w.second); MC_CHECK(cx, f, "corners", "corner (" << w.first << "," << w.second << ") of " << r << " is missing"); }
  auto tile = [&](const std::vector<R> &parts, size_t m, double pv, double ph, const char *what) {
    MC_CHECK(cx, parts.size() == m, what, "number of parts of " << r);
    double sum = 0;
    for (size_t i = 0; i < m; ++i) {
      auto &p = parts[i]; sum += p.area();
      MC_CHECK(cx, p.left() >= q.l - 1e-9 && p.right() <= q.r + 1e-9 && p.bot() >= q.b - 1e-9 && p.top() <= q.t + 1e-9, what, "part " << p << " leaves " << r);
      MC_CHECK(cx, mc::near(p.vside_len(), pv) && mc::near(p.hside_len(), ph), what, "part " << p << " of " << r << " has a wrong size");
      for (size_t j = 0; j < i; ++j) {
        double ow = std::min(p.right(), parts[j].right()) - std::max(p.left(), parts[j].left()), oh = std::min(p.top(), parts[j].top()) - std::max(p.bot(), parts[j].bot());
        if (vs > 0 && hs > 0) MC_CHECK(cx, ow < 1e-9 || oh < 1e-9, what, "parts " << p << " and " << parts[j] << " of " << r << " overlap");
      }
    }
    MC_CHECK(cx, mc::near(sum, vs * hs), what, "parts of " << r << " cover " << sum);
  };
  tile(r.split4_evenly(), 4, vs / 2, hs / 2, "split4"); tile(r.split_vert(), 2, vs / 2, hs, "split_vert"); tile(r.split_horz(), 2, vs, hs / 2, "split_horz");
  for (double f : {1.0, 2.0, 3.0, 0.5}) { R s = r.shrink(f); MC_CHECK(cx, eq(s, {c.y - vs / 2 / f, c.y + vs / 2 / f, c.x - hs / 2 / f, c.x + hs / 2 / f}), "shrink", r << " shrunk by " << f << " is " << s); }
  R m = r.move_center({3.25, -7.5}); MC_CHECK(cx, eq(m, {-7.5 - vs / 2, -7.5 + vs / 2, 3.25 - hs / 2, 3.25 + hs / 2}), "move_center", r << " moved is " << m);
  // containment of a grid of points half a step off the lattice, and of the closed border
  for (int i = -1; i <= 2 * n; ++i) for (int j = -1; j <= 2 * n; ++j) {
    double x = i * k / 2 + off, y = j * k / 2 + off;
    bool in = i >= 2 * h.first && i <= 2 * h.second && j >= 2 * v.first && j <= 2 * v.second;
    MC_CHECK(cx, r.contains(x, y) == in && r.contains(Point2D{x, y}) == in, "contains", r << " contains (" << x << "," << y << ") is " << r.contains(x, y));
  }
  R p(Point2D{q.l, q.b}); MC_CHECK(cx, eq(p, {q.b, q.b, q.l, q.l}) && p.is_point(), "point", "a rectangle made of a point is " << p);
  cx.state(mc::Hash() << q.b << q.t << q.l << q.r); cx.outcome(mc::Hash() << q.b << q.t << q.l << q.r);
}

// where a ray or a segment crosses the border of a rectangle
MC_SCENARIO(crossings, 3) {
  int n = cx.thorough ? 11 : 9; double k = cx.pick(std::vector<double>{1, 0.1, 0.05}, "scale"), off = cx.pick(std::vector<double>{0, -6.5}, "offset"); auto q = cx.pick(std::vector<std::array<int, 4>>{{{0, 2, 0, 2}}, {{-1, 3, 1, 3}}, {{1, 2, -2, 3}}}, "rectangle"); // bot, top, left, right
  double bx = (cx.choose(n, "from x") - n / 2) * 0.75 + 0.1, by = (cx.choose(n, "from y") - n / 2) * 0.75 + 0.2;
  Rectangle r{q[0] * k + off, q[1] * k + off, q[2] * k + off, q[3] * k + off};
  for (int ix = 0; ix < n; ++ix) for (int iy = 0; iy < n; ++iy) {
    double ex = (ix - n / 2) * 0.8 + 0.15, ey = (iy - n / 2) * 0.8 - 0.05; if (ix == n - 1) ex = bx; if (iy == n - 1) ey = by; if (ex == bx && ey == by) continue; cx.step(); // also vertical and horizontal ones
    typedef long double ld; ld dx = ld(ex) - bx, dy = ld(ey) - by; struct X { ld x, y, a; }; std::vector<X> c; bool close = false;
    for (int e = 0; e < 4; ++e) { bool hor = e < 2; ld d = hor ? dy : dx; if (d == 0) continue; ld a = (q[e] - (hor ? by : bx)) / d, x = hor ? bx + a * dx : q[e], y = hor ? q[e] : by + a * dy, v = hor ? x : y, lo = hor ? q[2] : q[0], hi = hor ? q[3] : q[1]; if (std::fabs(v - lo) < 1e-4L || std::fabs(v - hi) < 1e-4L || std::fabs(a) < 1e-4L || std::fabs(a - 1) < 1e-4L) close = true; if (v >= lo && v <= hi) c.push_back({x, y, a}); }
    if (close) continue; // through a corner, or ending on the border
    Segment2D s{{bx * k + off, by * k + off}, {ex * k + off, ey * k + off}}; auto ray = r.find_intersections(Ray{s}), seg = r.find_intersections(s); size_t in = 0; for (auto &x : c) in += x.a >= 0 && x.a <= 1;
    MC_CHECK(cx, ray.size() == c.size(), "ray", "the line through " << s << " crosses " << r << " at " << ray.size() << " points instead of " << c.size()); MC_CHECK(cx, seg.size() == in, "segment", s << " crosses " << r << " at " << seg.size() << " points instead of " << in);
    for (auto *v : {&ray, &seg}) for (auto &p : *v) { bool ok = false; for (auto &x : c) if ((v == &ray || (x.a >= 0 && x.a <= 1)) && mc::near(p.x, double(x.x * k + off), 1e-7) && mc::near(p.y, double(x.y * k + off), 1e-7)) ok = true; MC_CHECK(cx, ok, "point", s << " crosses " << r << " at " << p << ", which is not a crossing");
      using L = Intersection::Location; bool on = p.location == L::Bot ? mc::near(p.y, r.bot()) : p.location == L::Top ? mc::near(p.y, r.top()) : p.location == L::Left ? mc::near(p.x, r.left()) : mc::near(p.x, r.right()); MC_CHECK(cx, on && p.is_horiz() == (p.location == L::Bot || p.location == L::Top), "side", s << " crosses " << r << " at " << p << " on a wrong side"); }
    for (auto &x : c) { bool w = x.a >= 0 && x.a <= 1; MC_CHECK(cx, s.contains_intersection({double(x.x * k + off), double(x.y * k + off)}) == w, "on-segment", s << " is said to " << (w ? "miss" : "reach") << " its line's point (" << double(x.x * k + off) << "," << double(x.y * k + off) << ")"); }
    cx.state(mc::Hash() << bx << by << ex << ey << k << off << q[0]); cx.outcome(mc::Hash() << int(c.size()) << int(in));
  }
}
// through corners and ending exactly on the border: directions and positions chosen so that everything is exact
MC_SCENARIO(crossings_at_corners, 3) {
  int n = cx.thorough ? 15 : 11; double k = cx.pick(std::vector<double>{1, 0.125, 4}, "scale"); auto q = cx.pick(std::vector<std::array<int, 4>>{{{0, 2, 0, 2}}, {{-1, 3, 1, 3}}, {{1, 2, -2, 3}}, {{-4, 0, -4, 0}}}, "rectangle"); // bot, top, left, right
  int bx = cx.choose(n, "from x") - n / 2, by = cx.choose(n, "from y") - n / 2; Rectangle r{q[0] * k, q[1] * k, q[2] * k, q[3] * k};
  for (int dx : {-8, -4, -2, -1, 0, 1, 2, 4, 8}) for (int dy : {-8, -4, -2, -1, 0, 1, 2, 4, 8}) {
    if (!dx && !dy) continue; if (!dx && (bx == q[2] || bx == q[3])) continue; if (!dy && (by == q[0] || by == q[1])) continue; cx.step(); // along an edge there is no single crossing
    std::vector<std::array<double, 3>> c; // shared points of the line and the border, and where along the segment
    auto add = [&](double x, double y, double a) { if (x < q[2] || x > q[3] || y < q[0] || y > q[1]) return; for (auto &o : c) if (o[0] == x && o[1] == y) return; c.push_back({{x, y, a}}); };
    for (int e : {0, 1}) { if (dy) { double a = double(q[e] - by) / dy; add(bx + a * dx, q[e], a); } if (dx) { double a = double(q[2 + e] - bx) / dx; add(q[2 + e], by + a * dy, a); } }
    Segment2D s{{bx * k, by * k}, {(bx + dx) * k, (by + dy) * k}}; auto ray = r.find_intersections(Ray{s}), seg = r.find_intersections(s); size_t in = 0; for (auto &x : c) in += x[2] >= 0 && x[2] <= 1;
    MC_CHECK(cx, ray.size() == c.size(), "ray", "the line through " << s << " meets the border of " << r << " at " << ray.size() << " points instead of " << c.size()); MC_CHECK(cx, seg.size() == in, "segment", s << " meets the border of " << r << " at " << seg.size() << " points instead of " << in);
    for (auto *v : {&ray, &seg}) for (auto &p : *v) { bool ok = false; for (auto &x : c) ok |= (v == &ray || (x[2] >= 0 && x[2] <= 1)) && mc::near(p.x, x[0] * k, 1e-9) && mc::near(p.y, x[1] * k, 1e-9); MC_CHECK(cx, ok, "point", s << " meets the border of " << r << " at " << p << ", which is not a shared point");
      using L = Intersection::Location; bool on = p.location == L::Bot ? mc::near(p.y, r.bot()) : p.location == L::Top ? mc::near(p.y, r.top()) : p.location == L::Left ? mc::near(p.x, r.left()) : mc::near(p.x, r.right()); MC_CHECK(cx, on, "side", s << " meets " << r << " at " << p << " on a wrong side"); }
    cx.state(mc::Hash() << bx << by << dx << dy << k << q[0]); cx.outcome(mc::Hash() << int(c.size()) << int(in));
  }
}
// rectangles of very different sizes, far from the origin
MC_SCENARIO(mixed_sizes, 3) {
  static const std::vector<double> X{-1e4, -500.25, -37.5, -1, -0.5, 0.03, 2, 2.5, 640, 3e4}; int n = X.size(); std::vector<std::pair<int, int>> S; for (int a = 0; a < n; ++a) for (int b = a; b < n; ++b) S.push_back({a, b});
  auto av = cx.pick(S, "a.v"), ah = cx.pick(S, "a.h"); int step = cx.thorough ? 1 : 3;
  for (size_t iv = (ah.first + av.second) % step; iv < S.size(); iv += step) for (size_t ih = (av.first + iv) % step; ih < S.size(); ih += step) {
    auto bv = S[iv], bh = S[ih]; R ra{X[av.first], X[av.second], X[ah.first], X[ah.second]}, rb{X[bv.first], X[bv.second], X[bh.first], X[bh.second]}; cx.step();
    double b = std::max(ra.bot(), rb.bot()), t = std::min(ra.top(), rb.top()), l = std::max(ra.left(), rb.left()), r = std::min(ra.right(), rb.right()); bool meet = b <= t && l <= r; double wa = meet ? (t - b) * (r - l) : 0, A = (X[av.second] - X[av.first]) * (X[ah.second] - X[ah.first]);
    R i = ra.intersect(rb); MC_CHECK(cx, mc::near(i.area(), wa, 1e-9 * std::max(1.0, wa)), "area", ra << " and " << rb << " share the area " << wa << ", the intersection is " << i);
    if (meet) MC_CHECK(cx, eq(i, {b, t, l, r}), "shape", ra << " and " << rb << " intersect in " << i);
    if (A > 0) { double ov = ra.overlap(rb); MC_CHECK(cx, mc::near(ov, wa / A, 1e-9) && ov >= 0 && ov <= 1 + 1e-9, "overlap", ra << " is overlapped by " << rb << " at " << ov << ", expected " << wa / A); }
    bool inside = ra.bot() >= rb.bot() && ra.top() <= rb.top() && ra.left() >= rb.left() && ra.right() <= rb.right(), all = true; for (auto &c : ra.corners()) all = all && rb.contains(c); MC_CHECK(cx, all == inside, "contains", rb << " contains all corners of " << ra << ": " << all);
    cx.state(mc::Hash() << b << t << l << r); cx.outcome(mc::Hash() << wa << A);
  }
}
// rectangles far below a millimetre
MC_SCENARIO(all_pairs_tiny, 3) { pairs(cx, cx.thorough ? 5 : 4, {1e-4, 2e-5}, {0.0, 2.5}); }
// short segments across a side: however short or flat, the crossing is there
MC_SCENARIO(short_crossings, 2) {
  const double u0 = 1.0 / 4096; double k = cx.pick(std::vector<double>{1, 0.125, 16}, "scale"); int e = cx.choose(4, "side"); double p = cx.pick(std::vector<double>{0.25, 1, 1.75}, "where"); Rectangle r{-k, k, 2 * k, 4 * k};
  for (double u : {-u0, u0, -u0 / 16, u0 / 16, 0.125}) for (double v : {-u0, 0.0, u0, 4 * u0, u0 / 32, 0.125, -0.125}) for (double far : {1.0, 3.0}) {
    cx.step(); bool hor = e < 2; double line = e == 0 ? -1 : e == 1 ? 1 : e == 2 ? 2 : 4, at = hor ? 2 + p : -1 + p; auto pt = [&](double s) { double n = (line + s * u) * k, t = (at + s * v) * k; return hor ? Point2D{t, n} : Point2D{n, t}; }; Point2D x = pt(0); Segment2D s{pt(-1), pt(far)};
    if (std::fabs(far * u) > 1 || (v && (at + far * v < (hor ? 2 : -1) + 0.01 || at + far * v > (hor ? 4 : 1) - 0.01 || at - v < (hor ? 2 : -1) + 0.01 || at - v > (hor ? 4 : 1) - 0.01))) continue;
    auto c = r.find_intersections(s); MC_CHECK(cx, c.size() == 1, "short", s << " crosses the border of " << r << " at " << c.size() << " points instead of one"); using L = Intersection::Location; L want = e == 0 ? L::Bot : e == 1 ? L::Top : e == 2 ? L::Left : L::Right;
    MC_CHECK(cx, mc::near(c[0].x, x.x, 1e-9) && mc::near(c[0].y, x.y, 1e-9) && c[0].location == want, "short-point", s << " crosses " << r << " at " << c[0] << " instead of " << x); cx.state(mc::Hash() << u << v << far << p << e); cx.outcome(mc::Hash() << e << p);
  }
}
