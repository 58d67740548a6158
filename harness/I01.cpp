// I01: pairs of points, the transform between them, and iterative registration of point clouds.
#include <envire/Core.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/../icp/icp.hpp>
#include "mc.hpp"
#include <Eigen/SVD>
#include <memory>
using namespace envire; using namespace mc;
typedef Eigen::Vector3d V; typedef Eigen::Matrix3d M3; typedef Eigen::Affine3d A3; typedef std::vector<V> Pts; typedef envire::icp::Pairs Pairs; typedef Pointcloud PC;
struct Pr { V a, b; double d; };
static double cost(std::vector<Pr> const& v, A3 const& t) { double s = 0; for (auto& k : v) s += (k.a - t * k.b).squaredNorm(); return v.empty() ? 0 : s / v.size(); }
// the best rigid transform, by singular values
static double sure; static A3 best(std::vector<Pr> const& v) { V ma(V::Zero()), mb(V::Zero()); for (auto& k : v) { ma += k.a; mb += k.b; } ma /= v.size(); mb /= v.size(); M3 h = M3::Zero(); for (auto& k : v) h += (k.b - mb) * (k.a - ma).transpose(); Eigen::JacobiSVD<M3> s(h, Eigen::ComputeFullU | Eigen::ComputeFullV); M3 d = M3::Identity(); d(2, 2) = (s.matrixV() * s.matrixU().transpose()).determinant() < 0 ? -1 : 1; sure = s.singularValues()[1] + d(2, 2) * s.singularValues()[2]; A3 t = A3::Identity(); t.linear() = s.matrixV() * d * s.matrixU().transpose(); t.translation() = ma - t.linear() * mb; return t; }
static void judge(Ctx& c, Pairs& p, std::vector<Pr> const& v, char const* who) {
    c.check(p.size() == v.size(), "%s: %zu pairs instead of %zu", who, p.size(), v.size()); bool th = false; A3 t; try { t = p.getTransform(); } catch (std::runtime_error&) { th = true; } c.check(th == (v.size() < 3), "%s: a transform from %zu pairs was %s", who, v.size(), th ? "refused" : "made up"); if (th) return;
    c.check((t.linear() * t.linear().transpose() - M3::Identity()).norm() < 1e-6 && t.linear().determinant() > 0, "%s: the transform is no rotation", who); double size = 0; for (auto& k : v) size = std::max(size, std::max(k.a.norm(), k.b.norm())); double got = cost(v, t), want = cost(v, best(v)); c.check(got <= want + 1e-7 * (1 + size * size), "%s: the transform leaves a mean squared error of %g, possible are %g", who, got, want);
    double m = 0; for (auto& k : v) m += k.d * k.d; m /= v.size(); c.check(std::fabs(p.getMeanSquareError() - m) < 1e-9 * (1 + m), "%s: the mean squared error is %g instead of %g", who, p.getMeanSquareError(), m); c.outcome(uint64_t(got * 1e6));
}
static std::vector<M3> const& rotations() { static std::vector<M3> r; if (r.empty()) { int p[3] = { 0, 1, 2 }; do for (int s = 0; s < 8; ++s) { M3 m = M3::Zero(); for (int i = 0; i < 3; ++i) m(i, p[i]) = s >> i & 1 ? -1 : 1; if (m.determinant() > 0) r.push_back(m); } while (std::next_permutation(p, p + 3)); for (V ax : { V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 1, 0), V(1, -2, 3), V(-.3, .2, -.9) }) for (double a : { .01, .3, 1.2, 2., 3.1, -.7 }) r.push_back(Eigen::AngleAxisd(a, ax.normalized()).toRotationMatrix()); } return r; }
static std::vector<Pts> const& shapes() { static std::vector<Pts> s = { { V(0, 0, 0), V(1, 0, 0), V(0, 2, 0), V(0, 0, 3), V(1, 1, 1) }, { V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(1, 1, 0) }, { V(1, 2, 3), V(2, 4, 6), V(3, 6, 9) }, { V(5, 5, 5), V(5, 5, 5), V(5, 5, 5) }, { V(-1, -1, -1), V(1, 1, -1), V(1, -1, 1), V(-1, 1, 1) }, { V(.1, .2, -.3), V(4, -2, .5), V(100, 3, 1), V(-20, 7, 2), V(0, 0, 9), V(6, 1, 1) }, { V(3, 0, 0), V(0, 2, 0), V(0, 0, 1) }, { V(0, 0, 0), V(0, 0, 1), V(0, 0, 1), V(0, 0, 4) }, { V(1, 0, 0), V(-1, 0, 0), V(0, 1, 0), V(0, -1, 0), V(0, 0, 1), V(0, 0, -1) } }; return s; }
static void motion(Ctx& c) { // exact and disturbed motions of point sets
    Pts const& s = c.pick(shapes(), "shape"); M3 r = c.pick(rotations(), "rotation"); static const std::vector<V> T = { V(0, 0, 0), V(1, -2, .5), V(100, 0, 0) }; V t = c.pick(T, "translation"); int mir = c.choose(2, "mirrored"), dis = c.choose(s.size() + 1, "disturbed point"); static const std::vector<V> D = { V(.3, 0, 0), V(0, -1, 2) }; V d = dis ? c.pick(D, "by") : V::Zero(); c.step();
    Pairs p; std::vector<Pr> v; for (size_t i = 0; i < s.size(); ++i) { Pr k; k.b = s[i]; k.a = r * (mir ? V(-s[i].x(), s[i].y(), s[i].z()) : s[i]) + t; if (dis && i == size_t(dis) - 1) k.a += d; k.d = (k.a - k.b).norm(); v.push_back(k); p.add(k.a, k.b, k.d); } judge(c, p, v, "motion"); }
static void mismatch(Ctx& c) { // all assignments of lattice points to a few points
    static const Pts L = { V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 1, 0), V(1, 0, 1), V(0, 1, 1), V(1, 1, 1), V(2, 0, 1), V(0, -1, 3) }; int n = 3 + c.choose(c.bound - 2, "points"), lim = n <= 3 ? 10 : n == 4 ? 5 : 4, sh = c.choose(2, "second set"); Pairs p; std::vector<Pr> v; for (int i = 0; i < n; ++i) { Pr k; k.a = L[c.choose(n == 3 ? 8 : lim, "point")]; k.b = sh ? L[(i * 3 + 1) % 10] : V(i, i * i % 3, i * i * i % 5); k.d = (k.a - k.b).norm(); v.push_back(k); p.add(k.a, k.b, k.d); } c.step(); judge(c, p, v, "assignment"); }
static void operations(Ctx& c) { // sequences of additions, trims and clears
    static const std::vector<Pr> P = { { V(0, 0, 0), V(1, 0, 0), .5 }, { V(2, 0, 0), V(0, 3, 0), .1 }, { V(0, 4, 0), V(0, 0, 2), 2 }, { V(0, 0, 7), V(1, 1, 1), .9 }, { V(3, 1, 2), V(2, 2, 0), .3 } }; Pairs p; std::vector<Pr> v; int n = c.bound; for (int i = 0; i < n; ++i) { int o = c.choose(10, "operation"); c.step(); if (o < 5) { v.push_back(P[o]); p.add(P[o].a, P[o].b, P[o].d); } else if (o == 9) { v.clear(); p.clear(); } else { size_t k = o - 4 + (o == 5 ? -1 : 0); std::stable_sort(v.begin(), v.end(), [](Pr const& a, Pr const& b) { return a.d < b.d; }); if (k < v.size()) v.resize(k); double r = p.trim(k); c.check(v.empty() ? std::isnan(r) : r == v.back().d, "trimming to %zu pairs returns %g", k, r); } judge(c, p, v, "operations"); uint64_t h = v.size(); for (auto& k : v) h = mix(h, uint64_t(k.d * 10)); c.state(h, n - i); } }
// ---- clouds in frames
struct World { std::unique_ptr<Environment> env; FrameNode *up, *fm, *fd, *other; PC *model, *data; World() : env(new Environment) { up = new FrameNode; fm = new FrameNode; fd = new FrameNode; other = new FrameNode; model = new PC; data = new PC; env->attachItem(model); env->attachItem(data); } void frames(int kind) { Transform t(A3(Eigen::Translation3d(1, -2, .5) * Eigen::AngleAxisd(.4, V(1, 2, -1).normalized()))), s(A3(Eigen::Translation3d(-1, 1, 0) * Eigen::AngleAxisd(-.9, V::UnitZ()))); env->addChild(env->getRootNode(), up); env->addChild(kind & 1 ? up : env->getRootNode(), fm); env->addChild(kind & 2 ? up : env->getRootNode(), fd); env->addChild(fd, other); up->setTransform(t); fm->setTransform(kind & 1 ? s : Transform(A3::Identity())); model->setFrameNode(fm); data->setFrameNode(fd); }
    A3 global(PC* p) { return env->relativeTransform(p->getFrameNode(), env->getRootNode()); } };
static void put(World& w, PC* p, Pts const& v) { A3 t = w.global(p).inverse(); for (auto& k : v) p->vertices.push_back(t * k); }
static std::vector<size_t> taken(size_t n, double density) { std::vector<size_t> r; for (size_t k = 0;; ++k) { size_t i = k / density; if (i >= n) return r; r.push_back(i); } }
template<class Find, class Adapter> static void pairing(Ctx& c, bool attr) {
    static const Pts L = { V(0, 0, 0), V(1, 0, 0), V(0, 1, .1), V(1, 1.2, -.1), V(.45, .4, 1) }, Q = { V(.1, .05, 0), V(.9, .8, .3), V(.4, 1.7, 0), V(3, 0, 0) }; static const double D[] = { 1, .5, .25, 1 / 3. }; World w; w.frames(c.choose(4, "frames")); w.fd->setTransform(Transform(A3(Eigen::Translation3d(.2, .1, 0) * Eigen::AngleAxisd(.3, V::UnitX())))); double dm = D[c.choose(4, "model density")], dd = D[c.choose(c.thorough ? 4 : 2, "data density")]; static const double B[] = { HUGE_VAL, .6, 0 }; double box = B[c.choose(3, "distance")]; int two = c.choose(2, "models"), off = c.choose(2, "offset"); Pts m, q; unsigned sub = c.choose(32, "model points"); for (int i = 0; i < 5; ++i) if (sub >> i & 1) m.push_back(L[i]); int nq = c.choose(5, "data points"); for (int i = 0; i < nq; ++i) q.push_back(Q[i]); if (attr && m.size() > 2) { q.push_back(m[1]); }
    put(w, w.model, m); put(w, w.data, q); auto nrm = [&](size_t i, int k) { return Eigen::AngleAxisd(((i + k * sub) % 4) * .35, V::UnitX()) * V::UnitZ(); }; auto edge = [&](size_t i, int k) { return (i * 7 + sub * k) % 4 == 3; }; if (attr) for (int k = 0; k < 2; ++k) { PC* p = k ? w.data : w.model; M3 r = w.global(p).linear().transpose(); for (size_t i = 0; i < p->vertices.size(); ++i) { p->getVertexData<V>(PC::VERTEX_NORMAL).push_back(r * nrm(i, k)); p->getVertexData<PC::vertex_attr>(PC::VERTEX_ATTRIBUTES).push_back((edge(i, k) << PC::SCAN_EDGE) | 1 << ((int(PC::SCAN_EDGE) + 1) % 3)); } } if (attr) { w.model->getVertexData<V>(PC::VERTEX_NORMAL); w.model->getVertexData<PC::vertex_attr>(PC::VERTEX_ATTRIBUTES); w.data->getVertexData<V>(PC::VERTEX_NORMAL); w.data->getVertexData<PC::vertex_attr>(PC::VERTEX_ATTRIBUTES); }
    c.step(); Find f; Adapter am(w.model, dm), ad(w.data, dd); c.check(am.size() == size_t(m.size() * dm) && ad.size() == size_t(q.size() * dd), "the number of points is %zu and %zu", am.size(), ad.size()); f.addModel(am); std::vector<size_t> im = taken(m.size(), dm), id = taken(q.size(), dd); if (two) f.addModel(am); A3 o = A3::Identity(); if (off) { o = Eigen::Translation3d(.3, 0, -.2) * Eigen::AngleAxisd(.2, V::UnitY()); ad.setOffsetTransform(o); }
    for (int round = 0; round < 2; ++round) { if (round) { f.clear(); im.clear(); if (two) { f.addModel(am); im = taken(m.size(), dm); } } Pairs p; f.findPairs(ad, p, box); size_t n = 0; for (size_t i : id) { V x = o * q[i]; int b = -1; double s = HUGE_VAL; bool tie = false; for (size_t j : im) { double e = (m[j] - x).norm(); if (e < s - 1e-9) { s = e; b = j; tie = false; } else if (e < s + 1e-9) tie = true; } if (b < 0 || s > box + 1e-9) continue; if (s > box - 1e-9) { if (p.size() <= n || (p.p[n] - x).norm() > 1e-6) continue; } bool ok = true; if (attr) { double cs = nrm(b, 0).dot(o.linear() * nrm(i, 1)), an = std::acos(std::min(1., std::max(-1., cs))); if (std::fabs(an - M_PI / 8) < 1e-6 || tie) return; ok = !edge(b, 0) && !edge(i, 1) && an < M_PI / 8; } if (!ok) continue; c.check(p.size() > n, "the pair of point %zu is missing", i); c.check((p.p[n] - x).norm() < 1e-9 && std::fabs(p.pairs[n].distance - s) < 1e-9 && (tie || (p.x[n] - m[b]).norm() < 1e-9), "point %zu is paired with a point at distance %g instead of %g", i, p.pairs[n].distance, s); ++n; } c.check(p.size() == n, "%zu pairs instead of %zu", p.size(), n); c.outcome(n); }
}
static void nearest(Ctx& c) { pairing<envire::icp::FindPairsKD, envire::icp::PointcloudAdapter>(c, false); }
static void filtered(Ctx& c) { pairing<envire::icp::FindPairsKDEAN, envire::icp::PointcloudEdgeAndNormalAdapter>(c, true); }
// registration as documented: closest points, the best part of them, the best transform, until an end condition holds
struct Res { A3 t; size_t iter, pairs; double mse, diff; std::vector<double> dist; bool tie; };
static Res reference(Pts const& m, Pts const& q, double density, size_t maxit, double mmse, double mdiff, double overlap) {
    Res r; r.t = A3::Identity(); r.iter = r.pairs = 0; r.mse = r.diff = HUGE_VAL; r.tie = false; double box = HUGE_VAL; std::vector<size_t> id = taken(q.size(), density); while (r.iter < maxit && r.mse > mmse && r.diff > mdiff) { std::vector<Pr> v; for (size_t i : id) { Pr k; k.b = r.t * q[i]; k.d = HUGE_VAL; for (auto& x : m) { double d = (x - k.b).norm(); if (std::fabs(d - k.d) < 1e-7) r.tie = true; if (d < k.d) { k.d = d; k.a = x; } } if (std::fabs(k.d - box) < 1e-9) r.tie = true; if (k.d <= box) v.push_back(k); } std::stable_sort(v.begin(), v.end(), [](Pr const& a, Pr const& b) { return a.d < b.d; }); size_t n = size_t(q.size() * density) * overlap; if (n < v.size()) { if (n && v[n].d - v[n - 1].d < 1e-9) r.tie = true; v.resize(n); } r.pairs = v.size(); r.dist.clear(); for (auto& k : v) r.dist.push_back(k.d); if (v.empty()) box = NAN; else box = 2 * v.back().d; if (v.size() < 3) { r.dist.clear(); return r; } r.t = best(v) * r.t; if (sure < 1e-3) r.tie = true; double old = r.mse; r.mse = 0; for (auto& k : v) r.mse += k.d * k.d; r.mse /= v.size(); r.diff = old - r.mse; if (std::fabs(r.mse - mmse) < 1e-12 || std::fabs(r.diff - mdiff) < 1e-12) r.tie = r.tie || r.iter + 1 < maxit; ++r.iter; } return r; }
static void near(Ctx& c, A3 const& a, A3 const& b, char const* what) { c.check((a.matrix() - b.matrix()).norm() < 1e-6, "%s: translation %g %g %g and rotation differ by %g", what, a.translation().x(), a.translation().y(), a.translation().z(), (a.matrix() - b.matrix()).norm()); }
static Pts const& cloud(int k) { static const std::vector<Pts> v = { { V(0, 0, 0), V(2, .3, .1), V(.2, 3, -.4), V(1, 1.4, 2), V(-1.7, .6, .8) }, { V(0, 0, 0), V(2, .3, 0), V(.2, 3, 0), V(-1, 1.4, 0), V(-1.7, -.6, 0), V(3, 3.3, 0) }, { V(0, 0, 0), V(1.3, 0, .7), V(0, 1.1, -.6), V(2.2, 2.1, .3), V(-1.3, 2.4, 1), V(.6, -1.9, -1), V(3.1, -.4, 2), V(-2.2, -1.6, -.3) } }; return v[k]; }
static void align(Ctx& c) {
    int k = c.choose(3, "cloud"), fr = c.choose(4, "frames"); static const std::vector<A3> MV = { A3::Identity(), A3(Eigen::Translation3d(.2, -.1, .15)), A3(Eigen::AngleAxisd(.12, V(1, 2, 3).normalized())), A3(Eigen::Translation3d(-.2, .1, .3) * Eigen::AngleAxisd(-.3, V(0, 1, 1).normalized())), A3(Eigen::Translation3d(1, .5, 0) * Eigen::AngleAxisd(.8, V::UnitZ())), A3(Eigen::Translation3d(0, 0, 0) * Eigen::AngleAxisd(.1, V::UnitX())) }; A3 mv = c.pick(MV, "motion"); int extra = c.choose(3, "outliers"); static const double O[] = { 1, .8, .62, .4 }; double ov = O[c.choose(4, "overlap")]; static const struct { size_t it; double mse, diff; } E[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 2, 0, 0 }, { 3, 0, 0 }, { 25, 1e-4, 0 }, { 25, 1e-9, 1e-3 }, { 25, .02, 0 } }; auto& e = E[c.choose(7, "end")]; double dens = extra == 2 ? 1 : c.flag("density") ? .5 : 1; int edges = c.choose(2, "adapter");
    World w; w.frames(fr); Pts m = cloud(k), q; for (auto& x : m) q.push_back(mv * x); if (extra) q.insert(q.begin() + 1, V(4, -3, 5)); if (extra == 2) { q.push_back(V(.5, .5, 7)); m.push_back(V(-5, -5, 5)); } w.fd->setTransform(Transform(A3(Eigen::Translation3d(.2, .1, 0) * Eigen::AngleAxisd(.3, V::UnitX())))); put(w, w.model, m); put(w, w.data, q); c.step();
    Pts keep = w.data->vertices; A3 g0 = w.global(w.data), m0 = w.global(w.model), u0 = w.up->getTransform(), o0 = w.other->getTransform(); Res r = reference(m, q, dens, e.it, e.mse, e.diff, ov); if (r.tie) { c.outcome(0); return; } size_t iter, pairs; double mse, diff, over; std::vector<double> pd;
    if (edges) { for (int i = 0; i < 2; ++i) { PC* p = i ? w.data : w.model; p->getVertexData<V>(PC::VERTEX_NORMAL).assign(p->vertices.size(), w.global(p).linear().transpose() * V::UnitZ()); p->getVertexData<PC::vertex_attr>(PC::VERTEX_ATTRIBUTES).assign(p->vertices.size(), 0); } if (mv.linear().trace() < 2.7) return; envire::icp::TrimmedKDEAN i; i.addToModel(envire::icp::PointcloudEdgeAndNormalAdapter(w.model, 1)); i.align(envire::icp::PointcloudEdgeAndNormalAdapter(w.data, dens), e.it, e.mse, e.diff, ov); iter = i.getNumIterations(); pairs = i.getPairs(); mse = i.getMeanSquareError(); diff = i.getMeanSquareErrorDiff(); over = i.getOverlap(); pd = i.getPairsDistance(); if (std::acos(std::min(1., r.t.linear()(2, 2))) > .35) return; }
    else { envire::icp::TrimmedKD i; i.addToModel(envire::icp::PointcloudAdapter(w.data, 1)); i.clearModel(); i.addToModel(envire::icp::PointcloudAdapter(w.model, 1)); i.align(envire::icp::PointcloudAdapter(w.data, dens), e.it, e.mse, e.diff, ov); iter = i.getNumIterations(); pairs = i.getPairs(); mse = i.getMeanSquareError(); diff = i.getMeanSquareErrorDiff(); over = i.getOverlap(); pd = i.getPairsDistance(); }
    c.check(iter == r.iter && pairs == r.pairs && over == ov, "%zu iterations with %zu pairs instead of %zu with %zu, overlap %g", iter, pairs, r.iter, r.pairs, over); auto eq = [](double a, double b) { return a == b || std::fabs(a - b) < 1e-6 * (1 + std::fabs(b)); }; c.check(eq(mse, r.mse) && eq(diff, r.diff), "the mean squared error is %g (change %g) instead of %g (change %g)", mse, diff, r.mse, r.diff); c.check(pd.size() == r.dist.size(), "%zu pair distances instead of %zu", pd.size(), r.dist.size()); for (size_t i = 0; i < pd.size(); ++i) c.check(eq(pd[i], r.dist[i]), "pair distance %zu is %g instead of %g", i, pd[i], r.dist[i]);
    near(c, w.global(w.data), r.t * g0, "the cloud after registration"); near(c, w.global(w.model), m0, "the model moved"); near(c, w.up->getTransform(), u0, "the parent frame moved"); near(c, w.other->getTransform(), o0, "the child frame moved in its parent"); c.check(w.data->vertices == keep, "the points changed in their frame"); if (!extra && ov == 1 && dens == 1 && e.it == 25 && e.mse < 1e-3 && !e.diff && mv.translation().norm() < .4 && mv.linear().trace() > 2.9) for (size_t i = 0; i < m.size(); ++i) c.check((w.global(w.data) * keep[i] - m[i]).norm() < 1e-2, "point %zu is still %g away", i, (w.global(w.data) * keep[i] - m[i]).norm()); c.outcome(mix(iter, uint64_t(mse * 1e9)));
}
// ---- search for the overlap
static void golden(Ctx& c) { static const double AB[][2] = { { 0, 1 }, { .4, 1 }, { .2, .9 }, { -1, 2 }, { 1, 9 } }; auto& ab = AB[c.choose(5, "interval")]; int mid = c.choose(3, "start"), n = c.thorough ? 200 : 40, i = c.choose(n + 1, "minimum"), shape = c.choose(4, "shape"); static const double EPS[] = { .05, .01, 1e-4 }; double eps = EPS[c.choose(3, "accuracy")], a = ab[0], b = ab[1], m = a + (b - a) * i / n, lo = HUGE_VAL, hi = -HUGE_VAL; int calls = 0; c.step(); if (a <= 0 && b > 0 && m > -.05 && m < .05) m = .05; /* the accuracy is relative */ auto f = [&](double x) -> double { lo = std::min(lo, x); hi = std::max(hi, x); if (++calls > 500) throw Violation("the search does not end"); double d = x - m; return shape == 0 ? std::fabs(d) : shape == 1 ? d * d : shape == 2 ? (d < 0 ? -2 * d : .5 * d) : (d < 0 ? -.1 * d : 3 * d) + 7; };
    double r = envire::icp::GoldenBracket<double>::findMin(f, a, mid == 0 ? (a + b) / 2 : mid == 1 ? a + .3 * (b - a) : a + .7 * (b - a), b, eps); double tol = eps * 2.1 * std::max(std::fabs(a), std::fabs(b)) + 1e-9, worst = 0; for (double d : { -tol, tol }) worst = std::max(worst, shape == 0 ? tol : shape == 1 ? tol * tol : shape == 2 ? (d < 0 ? 2 * tol : .5 * tol) : (d < 0 ? .1 * tol : 3 * tol)); c.check(r <= worst + (shape == 3 ? 7 : 0) + 1e-12, "the minimum at %g of [%g, %g] has value %g", m, a, b, r); c.check(lo >= a - 1e-9 && hi <= b + 1e-9, "values from %g to %g were used", lo, hi); c.outcome(calls); }
static void search(Ctx& c) { // the result belongs to the overlap found, and no other overlap considered is better
    int k = 2 - c.choose(2, "cloud"), out = c.choose(4, "outliers"), it = 1 + c.choose(4, "iterations"); static const std::vector<A3> MV = { A3(Eigen::Translation3d(.2, -.1, .15)), A3(Eigen::AngleAxisd(.12, V(1, 2, 3).normalized())), A3(Eigen::Translation3d(.05, .1, .1) * Eigen::AngleAxisd(-.2, V(0, 1, 1).normalized())) }; A3 mv = c.pick(MV, "motion"); static const double AB[][2] = { { .4, 1 }, { .3, .9 }, { .5, .8 } }; auto& ab = AB[c.choose(3, "interval")]; c.step(); Pts m = cloud(k), q; for (auto& x : m) q.push_back(mv * x); static const Pts OUT = { V(4, -3, 5), V(.5, .5, 7), V(-6, 2, 1) }; for (int i = 0; i < out; ++i) q.push_back(OUT[i]); auto make = [&](World& w) { w.frames(3); put(w, w.model, m); put(w, w.data, q); }; World w; make(w); envire::icp::TrimmedKD i; i.addToModel(envire::icp::PointcloudAdapter(w.model, 1)); i.align(envire::icp::PointcloudAdapter(w.data, 1), it, 1e-9, 1e-12, ab[0], ab[1], .01); double ov = i.getOverlap(); c.check(ov >= ab[0] - 1e-9 && ov <= ab[1] + 1e-9, "the overlap %g lies outside of [%g, %g]", ov, ab[0], ab[1]);
    World x; make(x); envire::icp::TrimmedKD j; j.addToModel(envire::icp::PointcloudAdapter(x.model, 1)); j.align(envire::icp::PointcloudAdapter(x.data, 1), it, 1e-9, 1e-12, ov); near(c, w.global(w.data), x.global(x.data), "registration with the overlap found"); c.check(j.getMeanSquareError() == i.getMeanSquareError() && i.getPairs() == j.getPairs() && i.getNumIterations() == j.getNumIterations(), "the result does not belong to the overlap found"); c.outcome(uint64_t(ov * 1000)); }
int main(int argc, char** argv) {
    Engine e;
    e.add("motions", 1, 1, 2, false, motion, "all shapes under all motions, mirrored and with one point disturbed");
    e.add("assignments", 4, 5, 2, false, mismatch, "all assignments of lattice points to up to n points");
    e.add("operations", 5, 7, 2, true, operations, "all sequences of n additions, trims and clears");
    e.add("nearest", 1, 1, 3, false, nearest, "all models of up to five points with all densities, distances and frames");
    e.add("filtered", 1, 1, 3, false, filtered, "the same with edges and normals");
    e.add("registration", 1, 1, 3, false, align, "all motions, outliers, overlaps and end conditions against a reference");
    e.add("golden section", 1, 1, 2, false, golden, "all minima of functions with one minimum");
    e.add("overlap search", 1, 1, 2, false, search, "the overlap found belongs to the result");
    return e.main(argc, argv);
}
