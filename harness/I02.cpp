// I02: search for a transform by random samples, clusters of poses, sigma points and histograms. The random numbers are choices of the explorer.
#include <envire/Core.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/../icp/ransac.hpp>
#include <envire/../icp/stability.hpp>
#include "mc.hpp"
#include <Eigen/SVD>
#include <memory>
using namespace mc;
typedef Eigen::Vector3d V; typedef Eigen::Matrix3d M3; typedef Eigen::Affine3d A3; typedef std::vector<size_t> Ix;
// ---- every random number is enumerated; the i-th number of a shuffle of n elements matters modulo i + 1
static std::function<int()> source; extern "C" int rand() throw() { return source ? source() : 0; }
// runs all number sequences of a pick of k of n elements; keeps one sequence for every combination
static std::map<Ix, std::vector<int> > combinations(int n, int k, std::function<void(Ix const&)> f = nullptr) { std::map<Ix, std::vector<int> > all; std::vector<int> num; size_t runs = 0; do { size_t at = 0; source = [&] { if (at == num.size()) num.push_back(0); return num[at++]; }; Ix r; envire::ransac::pickRandomIndex(n, k, r); source = nullptr; num.resize(at); if (f) f(r); std::sort(r.begin(), r.end()); all.insert(std::make_pair(r, num)); while (!num.empty() && num.back() + 1 >= n) num.pop_back(); if (!num.empty()) ++num.back(); } while (!num.empty() && ++runs < 2000000); return all; }
// every pick of three of n becomes a choice of the combination
struct Random { std::vector<std::vector<int> > seq; size_t which, at; Random(Ctx& c, size_t n) : which(0), at(0) { static std::map<size_t, std::vector<std::vector<int> > > known; auto& k = known[n]; if (k.empty()) for (auto& p : combinations(n, 3)) k.push_back(p.second); seq = k; source = [this, &c]() -> int { if (seq.empty() || seq[0].empty()) return 0; if (at == 0 || at >= seq[which].size()) { which = c.choose(seq.size(), "combination"); at = 0; if (seq[which].empty()) return 0; } return seq[which][at++]; }; } ~Random() { source = nullptr; } };
static A3 best(std::vector<V> const& x, std::vector<V> const& p, Ix const& ix) { V ma(V::Zero()), mb(V::Zero()); for (size_t i : ix) { ma += x[i]; mb += p[i]; } ma /= ix.size(); mb /= ix.size(); M3 h = M3::Zero(); for (size_t i : ix) h += (p[i] - mb) * (x[i] - ma).transpose(); Eigen::JacobiSVD<M3> s(h, Eigen::ComputeFullU | Eigen::ComputeFullV); M3 d = M3::Identity(); d(2, 2) = (s.matrixV() * s.matrixU().transpose()).determinant() < 0 ? -1 : 1; A3 t = A3::Identity(); t.linear() = s.matrixV() * d * s.matrixU().transpose(); t.translation() = ma - t.linear() * mb; return t; }
struct Rec { Ix ix; bool ok; A3 t; };
template<class F> struct Watch { typedef A3 Model; typedef double Real; F const& f; std::vector<Rec>* log; size_t limit; Watch(F const& f, std::vector<Rec>* l, size_t lim) : f(f), log(l), limit(lim) {} size_t getSampleCount() const { return f.getSampleCount(); } bool fitModel(Ix const& ix, A3& t) const { Rec r; r.ix = ix; A3 m = A3::Identity(); m.translation() = V(77, 77, 77); r.ok = f.fitModel(ix, m); r.t = m; log->push_back(r); if (log->size() > limit) throw Violation("the search tries more samples than allowed"); if (r.ok) t = m; return r.ok; } double testSample(size_t i, A3 const& t) const { return f.testSample(i, t); } };
static const std::vector<V> P = { V(0, 0, 0), V(2, 0, .5), V(0, 3, 0), V(1, 1, 2), V(-1, 2, 1) };
static void search(Ctx& c) {
    int n = 3 + c.choose(c.bound - 2, "samples"), unc = c.choose(2, "uncertain"), mv = c.choose(3, "motion"), hard = 1 + c.choose(n == 3 ? 4 : n == 4 ? (c.thorough ? 3 : 2) : c.thorough ? 2 : 1, "limit"), outl = 0; A3 t = A3::Identity(); if (mv == 1) t.translation() = V(1, 2, 3); if (mv == 2) t = Eigen::Translation3d(.5, 0, -1) * Eigen::AngleAxisd(1.1, V(1, 2, 3).normalized()); std::vector<V> x, p; std::vector<float> ex, ep; for (int i = 0; i < n; ++i) { int o = c.choose(i < 2 ? 2 : 3, "sample"); V d = o == 0 ? V(0, 0, 0) : o == 1 ? V(3 + i, -2, i) : V(.08, 0, .04); outl += o == 1; p.push_back(P[i]); x.push_back(t * P[i] + d); ex.push_back(i % 2 ? .6f : 1.f); ep.push_back(i == 1 ? 1.2f : .8f); } static const double TH[] = { .2, .05, 5 }; double fit = TH[c.choose(3, "threshold")], err = c.choose(2, "error threshold") ? .1 : .03; if (err >= fit) err = fit / 2; c.step();
    std::vector<Rec> log; A3 m = A3::Identity(); m.translation() = V(99, 0, 0); Ix in(1, 1234); bool ok; { Random rnd(c, n); if (unc) { envire::ransac::FitTransformUncertain f(x, p, ex, ep, err); c.check(f.getSampleCount() == size_t(n), "the number of samples differs"); ok = envire::ransac::ransacSingleModel(Watch<envire::ransac::FitTransformUncertain>(f, &log, hard * (hard + 1)), 3, fit, m, in, hard); } else { envire::ransac::FitTransform f(x, p, err); ok = envire::ransac::ransacSingleModel(Watch<envire::ransac::FitTransform>(f, &log, hard * (hard + 1)), 3, fit, m, in, hard); } }
    auto dist = [&](size_t i, A3 const& q) { double d = (x[i] - q * p[i]).norm(); return unc ? d / std::sqrt(double(ex[i]) * ex[i] + double(ep[i]) * ep[i]) : d; }; auto inliers = [&](A3 const& q) { Ix r; for (int i = 0; i < n; ++i) if (dist(i, q) < fit) r.push_back(i); return r; };
    size_t most = 0; int valid = 0, run = 0, longest = 0; for (auto& r : log) { std::set<size_t> s(r.ix.begin(), r.ix.end()); c.check(r.ix.size() == 3 && s.size() == 3 && *s.rbegin() < size_t(n), "a sample consists of %zu different points", s.size()); A3 b = best(x, p, r.ix); double worst = 0; bool tie = false; for (size_t i : r.ix) { double d = dist(i, b); worst = std::max(worst, d); tie = tie || std::fabs(d - err) < 1e-6; } if (!tie) c.check(r.ok == (worst <= err), "a transform with error %g was %s at threshold %g", worst, r.ok ? "accepted" : "refused", err); if (r.ok) { double cb = 0, cr = 0; for (size_t i : r.ix) { cb += (x[i] - b * p[i]).squaredNorm(); cr += (x[i] - r.t * p[i]).squaredNorm(); } c.check(cr <= cb + 1e-9, "the transform of three points leaves an error of %g, possible are %g", cr, cb); } if (r.ok) { ++valid; run = 0; most = std::max(most, inliers(r.t).size()); } else longest = std::max(longest, ++run); }
    c.check(valid <= hard && longest <= hard + 1, "%d models and %d failures in a row were tried with a limit of %d", valid, longest, hard); c.check(ok || longest >= hard, "the search gave up after %d failures", longest); if (ok) { c.check(valid >= 1, "the search succeeded without a model"); bool known = false; for (auto& r : log) if (r.ok && (r.t.matrix() - m.matrix()).norm() < 1e-12) known = true; c.check(known, "the resulting transform was never fitted"); c.check(in == inliers(m), "the result has %zu inliers, the transform %zu", in.size(), inliers(m).size()); c.check(in.size() == most, "a transform with %zu inliers was found, the result has %zu", most, in.size()); if (!outl && fit > .15) c.check(int(in.size()) == n, "without outliers only %zu inliers", in.size()); } c.outcome(mix(in.size(), mix(ok, log.size()))); }
static void pick(Ctx& c) { // all random numbers of a pick
    int n = 1 + c.choose(c.bound, "elements"), k = c.choose(n + 1, "picked"); c.step(); size_t all = combinations(n, k, [&](Ix const& r) { std::set<size_t> s(r.begin(), r.end()); c.check(r.size() == size_t(k) && s.size() == size_t(k) && (!k || *s.rbegin() < size_t(n)), "%zu of %d elements were picked, %zu different ones", r.size(), n, s.size()); }).size(); size_t want = 1; for (int i = 0; i < k; ++i) want = want * (n - i) / (i + 1); c.check(all == want, "only %zu of %zu combinations of %d of %d elements can be picked", all, want, k, n); c.outcome(all); }
static void few(Ctx& c) { int n = c.choose(3, "samples"); c.step(); std::vector<V> x(P.begin(), P.begin() + 3), p = x; envire::ransac::FitTransform f(x, p, .1); A3 m = A3::Identity(); Ix ix; for (int i = 0; i < n; ++i) ix.push_back(i); std::cout.setstate(std::ios_base::failbit); c.check(!f.fitModel(ix, m), "a transform from %d points was made up", n); std::cout.clear(); c.outcome(n); }
// ---- clusters of poses
typedef envire::icp::Clustering Cl; typedef std::vector<A3> Poses;
static double yawOf(A3 const& t) { return std::atan2(t.linear()(1, 0), t.linear()(0, 0)); }
static double wrap(double a) { while (a > M_PI) a -= 2 * M_PI; while (a < -M_PI) a += 2 * M_PI; return a; }
struct Stat { V mean, var; double yaw, yvar; bool sure; };
static Stat stat(Poses const& p) { Stat s; s.mean = s.var = V::Zero(); s.yaw = s.yvar = 0; s.sure = true; size_t n = p.size(); for (auto& t : p) s.mean += t.translation() / n; double y0 = yawOf(p[0]); for (auto& t : p) s.yaw += wrap(yawOf(t) - y0) / n; for (auto& t : p) for (auto& u : p) if (std::fabs(wrap(yawOf(t) - yawOf(u))) > 2) s.sure = false; s.yaw = wrap(y0 + s.yaw); for (auto& t : p) { s.var += (t.translation() - s.mean).array().square().matrix() / n; s.yvar += std::pow(wrap(yawOf(t) - s.yaw), 2) / n; } return s; }
static void judge(Ctx& c, Cl& k, Poses const& p, char const* who) { Stat s = stat(p); A3 m = k.getMean(); c.check((m.translation() - s.mean).norm() < 1e-9, "%s: the mean position is %g %g %g instead of %g %g %g", who, m.translation().x(), m.translation().y(), m.translation().z(), s.mean.x(), s.mean.y(), s.mean.z()); M3 cov = k.getTranslationCovariance(); c.check((cov - M3(s.var.asDiagonal())).norm() < 1e-9, "%s: the variance of the position is %g %g %g instead of %g %g %g", who, cov(0, 0), cov(1, 1), cov(2, 2), s.var.x(), s.var.y(), s.var.z()); c.check((m.linear() * m.linear().transpose() - M3::Identity()).norm() < 1e-9 && std::fabs(m.linear()(2, 2) - 1) < 1e-9, "%s: the mean orientation is no rotation around z", who); if (!s.sure) return; c.check(std::fabs(wrap(yawOf(m) - s.yaw)) < 1e-9, "%s: the mean heading is %g instead of %g", who, yawOf(m), s.yaw); M3 r = k.getRotationCovariance(); c.check(std::fabs(r(2, 2) - s.yvar) < 1e-9 && r.norm() <= std::fabs(r(2, 2)) + 1e-12, "%s: the variance of the heading is %g instead of %g", who, r(2, 2), s.yvar); }
static A3 pose(V const& t, double yaw, double tilt = 0) { return A3(Eigen::Translation3d(t) * Eigen::AngleAxisd(yaw, V::UnitZ()) * Eigen::AngleAxisd(tilt, V::UnitY())); }
static Poses const& alphabet() { static const Poses a = { pose(V(0, 0, 0), 0), pose(V(1, 0, 0), .2), pose(V(-1, 0, 0), -.3), pose(V(0, 1, .5), 3), pose(V(.2, .1, 0), -3), pose(V(4, 3, 0), .1, .4), pose(V(0, 0, -5), 1.5), pose(V(3, 4, 0), -1.5) }; return a; }
static bool quiet(std::function<bool()> f) { std::cout.setstate(std::ios_base::failbit); bool r = f(); std::cout.clear(); return r; }
static void cluster(Ctx& c) { // all sequences of poses
    int n = c.choose(c.bound + 1, "poses"); Poses p; for (int i = 0; i < n; ++i) p.push_back(alphabet()[c.choose(8, "pose")]); unsigned need = 1 + c.choose(3, "minimum"); c.step(); envire::icp::ClusteringConfiguration k; k.min_number_of_points = need; k.remove_outliers = false; Cl cl(k); if (c.flag("region")) cl.defOutlinerRegion(M3::Identity(), M3::Identity()); bool ok = quiet([&] { return cl.cluster(p); }); c.check(ok == (p.size() >= need), "%d poses of at least %u were %s", n, need, ok ? "accepted" : "refused"); if (ok) { c.check(cl.getSizePoints() == p.size() && cl.getPoints().size() == p.size(), "poses got lost"); judge(c, cl, p, "cluster"); Poses q(p.rbegin(), p.rend()); q.push_back(alphabet()[1]); quiet([&] { return cl.cluster(q); }); judge(c, cl, q, "second cluster"); } c.outcome(n); }
static void outliers(Ctx& c) { // all sequences of poses with outliers removed
    int n = 1 + c.choose(c.bound, "poses"); Poses p; for (int i = 0; i < n; ++i) p.push_back(alphabet()[c.choose(8, "pose")]); unsigned need = 1 + c.choose(3, "minimum"); static const double S[] = { .3, 1.3, 10 }; envire::icp::ClusteringConfiguration k; k.min_number_of_points = need; k.remove_outliers = true; k.outliers_position.min_norm = .2; k.outliers_position.max_norm = 3; k.outliers_position.n_sigma = 1 + c.choose(2, "sigma"); k.outliers_orientation.min_norm = .05; k.outliers_orientation.max_norm = 1; k.outliers_orientation.n_sigma = 1; double sp = S[c.choose(3, "position")], so = S[c.choose(2, "orientation")]; c.step(); Cl cl(k); cl.defOutlinerRegion(M3(V(sp * sp, sp * sp, sp * sp / 4).asDiagonal()), M3(V(1, 1, so * so).asDiagonal())); bool ok = quiet([&] { return cl.cluster(p); });
    V lim; for (int i = 0; i < 3; ++i) { double s = k.outliers_position.n_sigma * (i == 2 ? sp / 2 : sp); s = std::min(3., std::max(.2, s)); lim[i] = s * s; } double yl = std::pow(std::min(1., std::max(.05, so)), 2); Poses q = p; bool done = false, good = false; while (!done) { if (q.size() < need) { done = true; break; } Stat s = stat(q); if (!s.sure) return; auto far = [&](std::function<double(A3 const&)> f) { int b = -1; double d = 0; for (size_t i = 0; i < q.size(); ++i) { double e = f(q[i]); if (b >= 0 && std::fabs(e - d) < 1e-9 && (q[i].matrix() - q[b].matrix()).norm() > 1e-9) { for (size_t j = i; j < q.size(); ++j) e = std::max(e, f(q[j])); if (e < d + 1e-9) throw Pruned(); } if (e > d + 1e-9) { d = e; b = i; } } return b; }; if (std::fabs(s.var.norm() - lim.norm()) < 1e-9 || std::fabs(s.yvar - yl) < 1e-9) return; int b = -1; if (s.var.norm() > lim.norm()) b = far([&](A3 const& t) { return (t.translation() - s.mean).norm(); }); else if (s.yvar > yl) b = far([&](A3 const& t) { return std::fabs(wrap(yawOf(t) - s.yaw)); }); if (b < 0) { done = good = true; break; } q.erase(q.begin() + b); }
    c.check(ok == good, "%d poses: the cluster was %s", n, ok ? "accepted" : "refused"); if (!ok) { c.outcome(0); return; } Poses r = cl.getPoints(); c.check(r.size() == q.size() && cl.getSizePoints() == q.size(), "%zu poses remain instead of %zu", r.size(), q.size()); for (size_t i = 0; i < q.size(); ++i) c.check((r[i].matrix() - q[i].matrix()).norm() < 1e-12, "pose %zu of the remaining ones differs", i); judge(c, cl, q, "remaining cluster"); c.outcome(mix(q.size(), n)); }
// ---- sigma points and samples
static void sigma(Ctx& c) {
    static const double D[] = { .01, 1, 4 }, O[] = { 0, .5, -.05 }; V d; M3 m = M3::Zero(); for (int i = 0; i < 3; ++i) { d[i] = D[c.choose(3, "variance")]; m(i, i) = d[i]; } int o = c.choose(3, "correlation"); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) m(i, j) = m(j, i) = O[o] * std::sqrt(d[i] * d[j]) * (i == 2 ? .5 : 1); static const double LIM[][2] = { { 0, 100 }, { .5, 100 }, { 0, 1.5 }, { .5, 1.5 } }; auto& l = LIM[c.choose(4, "limits")]; envire::icp::SigmaPointConfiguration k; k.min_norm = l[0]; k.max_norm = l[1]; k.n_sigma = 1 + c.choose(2, "sigma"); c.step(); envire::icp::SigmaPoints sp; M3 s = sp.calcSigmaPoints(m, k); M3 L = M3::Zero(); for (int j = 0; j < 3; ++j) { double v = m(j, j); for (int q = 0; q < j; ++q) v -= L(j, q) * L(j, q); L(j, j) = std::sqrt(v); for (int i = j + 1; i < 3; ++i) { double w = m(i, j); for (int q = 0; q < j; ++q) w -= L(i, q) * L(j, q); L(i, j) = w / L(j, j); } }
    for (int i = 0; i < 3; ++i) { V w = k.n_sigma * L.col(i); if (std::fabs(w.norm() - l[0]) < 1e-9 || std::fabs(w.norm() - l[1]) < 1e-9) continue; if (w.norm() < l[0]) w = V::Unit(i) * l[0]; if (w.norm() > l[1]) w = V::Unit(i) * l[1]; c.check((s.col(i) - w).norm() < 1e-9, "sigma point %d is %g %g %g instead of %g %g %g", i, s(0, i), s(1, i), s(2, i), w.x(), w.y(), w.z()); }
    envire::icp::SamplingConfiguration sc; sc.region_sample_position = k; sc.region_sample_orientation = k; sc.region_sample_orientation.max_norm = 1; sc.region_sample_orientation.min_norm = 0; envire::icp::Sampling sa(sc); for (int round = 0; round < 2; ++round) { M3 ori = M3(V(.3, .2, round ? .01 : .04).asDiagonal()); sa.defSearchRegion(round ? M3(2 * m) : m, ori); M3 a = sa.getSigmaPointsOfSamplingRegionTranslation(), b = sa.getSigmaPointsOfSamplingRegionRotation(); c.check(round || (a - s).norm() < 1e-12, "the region of positions differs from its sigma points"); double yaw = std::min(1., k.n_sigma * std::sqrt(ori(2, 2))); c.check(std::fabs(b.col(2).norm() - yaw) < 1e-9, "the region of headings is %g instead of %g", b.col(2).norm(), yaw); std::vector<std::pair<V, double> > want = { { V(0, 0, 0), 0 } }; for (int g : { 1, -1 }) { want.push_back({ g * a.col(0), 0 }); want.push_back({ g * a.col(1), 0 }); want.push_back({ V(0, 0, 0), g * yaw }); } int take = round ? 8 : 1 + int(o) * 3; for (int i = 0; i < take; ++i) { A3 t; quiet([&] { t = sa.getSigmaOffset(); return true; }); bool hit = false; if (i >= 7) { c.check((t.matrix() - A3::Identity().matrix()).norm() < 1e-9, "an offset beyond the last sample is not neutral"); continue; } for (size_t j = 0; j < want.size(); ++j) if ((t.translation() - want[j].first).norm() < 1e-9 && std::fabs(yawOf(t) - want[j].second) < 1e-9 && std::fabs(t.linear()(2, 2) - 1) < 1e-9) { want.erase(want.begin() + j); hit = true; break; } c.check(hit, "offset %d (%g %g %g, heading %g) is no sample of the region", i, t.translation().x(), t.translation().y(), t.translation().z(), yawOf(t)); } }
    c.outcome(uint64_t(s.norm() * 1000)); }
static void histogram(Ctx& c) { // all ascending distances: which bins they fall into
    static const double D[] = { -3, -.9, -.5, -.3, 0, .3, .5, .7, .9, 5 }; int n = 1 + c.choose(c.bound, "distances"); std::vector<double> d; int at = 0; for (int i = 0; i < n; ++i) { at += c.choose(10 - at, "distance"); d.push_back(D[at]); } envire::icp::HistogramConfiguration k; k.number_bins = 8; k.area = 1.6; k.normalization = true; k.outliners = true; static const double MS[][2] = { { 0, 1 }, { .1, .5 } }; auto& ms = MS[c.choose(2, "normalization")]; k.mean = ms[0]; k.sigma = ms[1]; c.step(); envire::icp::Histogram h(k); std::vector<double> in; for (double x : d) in.push_back(x * ms[1] + ms[0]); for (int round = 0; round < 2; ++round) { h.calculateHistogram(in); std::vector<double> g = h.getHistogram(), l = h.getHistogramLimits(); c.check(g.size() == 10 && l.size() == 11, "%zu bins with %zu limits", g.size(), l.size()); for (int i = 0; i < 9; ++i) c.check(std::fabs(l[i + 1] - (-.8 + .2 * i)) < 1e-9, "limit %d is %g", i + 1, l[i + 1]); for (int b = 0; b < 10; ++b) { int cnt = 0; for (double x : d) if ((b == 0 || x >= -.8 + .2 * (b - 1)) && (b == 9 || x < -.8 + .2 * b)) ++cnt; double w = std::fabs(l[b + 1] - l[b]); c.check(std::fabs(g[b] * n * k.area - cnt) < 1e-6 || std::fabs(g[b] * n * w - cnt) < 1e-6, "bin %d with %d of %d distances has value %g", b, cnt, n, g[b]); } } c.outcome(at); }
int main(int argc, char** argv) {
    Engine e;
    e.add("samples", 5, 5, 4, false, search, "all random numbers, outliers, thresholds and limits");
    e.add("picks", 5, 6, 1, false, pick, "all random numbers of a pick");
    e.add("too few", 1, 1, 1, false, few, "too few points");
    e.add("clusters", 4, 5, 2, false, cluster, "all sequences of poses");
    e.add("outliers", 4, 5, 2, false, outliers, "all sequences of poses with all limits");
    e.add("sigma points", 1, 1, 2, false, sigma, "all covariances and limits");
    e.add("histogram", 5, 8, 2, false, histogram, "all ascending sequences of distances");
    return e.main(argc, argv);
}
