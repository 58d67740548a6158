// M10: map segments.
#include <envire/maps/MapSegment.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/TriMesh.hpp>
#include "mc.hpp"
#include <memory>
using namespace envire; using namespace mc;
typedef Eigen::Vector3d V; typedef base::Affine3d T; typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Matrix<double, 6, 6> M6;
static T place(V const& r, V const& p) { T t = T::Identity(); if (r.norm() > 0) t.linear() = Eigen::AngleAxisd(r.norm(), r.normalized()).toRotationMatrix(); t.translation() = p; return t; }
static V6 pose(int k) { static const double A[][6] = { { 0, 0, 0, 0, 0, 0 }, { 0, 0, .5, 1, 0, 0 }, { .1, -.2, .3, -2, 1, .5 }, { 0, 0, -1.2, 1, 2, 0 }, { -.4, .1, 0, 0, -3, 1 } }; V6 v; for (int i = 0; i < 6; ++i) v[i] = A[k][i]; return v; }
static T toT(V6 const& v) { return place(v.head<3>(), v.tail<3>()); }
template<class F> static bool throws(F f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }
static void parts(Ctx& c) {
    static const double WT[] = { 1, .25, 2, 0 }, ZV[] = { 0, .09 }; int n = c.choose(c.thorough ? 4 : 3, "parts") + 1; MapSegment s; c.check(throws([&] { s.getTransform(); }), "a segment without poses has a transform"); c.check(s.getBestMap() == 0, "a segment without maps has a best map"); T dummy; size_t len = 5; c.check(s.getMapForPose(T::Identity(), dummy, len) == 0, "a segment without maps has a map");
    std::vector<boost::intrusive_ptr<CartesianMap> > maps; std::vector<V6> ps; std::vector<double> ws, zs; int upd = c.choose(n, "first update"); std::vector<size_t> tl;
    auto judge = [&] { double W = 0, z = 0; V6 m = V6::Zero(); for (size_t i = 0; i < ps.size(); ++i) { W += ws[i]; m += ws[i] * ps[i]; z += ws[i] * zs[i]; } if (W == 0) return; m /= W; M6 v = M6::Zero(); for (size_t i = 0; i < ps.size(); ++i) v += ws[i] / W * (ps[i] - m) * (ps[i] - m).transpose(); double a = M_PI / 180; v(0, 0) += a * a; v(1, 1) += a * a; v(5, 5) += z / W; s.update(); TransformWithUncertainty t = s.getTransform(); c.check((t.getTransform().matrix() - toT(m).matrix()).norm() < 1e-9, "the transform is not that of the mean of %zu poses", ps.size()); c.check((t.getCovariance() - v).norm() < 1e-9, "the covariance of %zu poses differs by %g", ps.size(), (t.getCovariance() - v).norm()); };
    for (int i = 0; i < n; ++i) { int p = c.choose(5, "pose"), w = c.choose(4, "weight"), z = c.choose(2, "height variance"); c.step(); boost::intrusive_ptr<CartesianMap> m = i % 2 ? static_cast<CartesianMap*>(new TriMesh) : new Grid<double>(2, 2, 1, 1); maps.push_back(m); ps.push_back(pose(p)); ws.push_back(WT[w]); zs.push_back(ZV[z]); if (z) s.addPart(toT(pose(p)), m.get(), WT[w], ZV[z]); else s.addPart(toT(pose(p)), m.get(), WT[w]); if (i == upd || i == n - 1) judge(); }
    int nt = n - 1; for (int i = 0; i < nt; ++i) { tl.push_back(i + 1); s.trajectories.push_back(std::vector<base::Vector3d>(i + 1)); } double bw = 0; for (double w : ws) bw = std::max(bw, w); CartesianMap* b = s.getBestMap(); bool ok = bw == 0 && !b; for (int i = 0; i < n; ++i) if (b == maps[i].get() && ws[i] == bw && bw > 0) ok = true; c.check(ok, "the best map is not the one with the largest weight");
    for (int q = 0; q < 6; ++q) { V6 x = pose(q % 5); if (q == 5) x << 0, 0, .45, .8, .1, 0; double d = 1e9; for (auto& p : ps) d = std::min(d, (p - x).norm()); T at; size_t l = 77; CartesianMap* m = s.getMapForPose(toT(x), at, l); ok = false; for (int i = 0; i < n; ++i) if (maps[i].get() == m && (ps[i] - x).norm() < d + 1e-9 && (at.matrix() - toT(ps[i]).matrix()).norm() < 1e-9 && l == (i < nt ? tl[i] : 0)) ok = true; c.check(ok, "the map for a pose is not that of the nearest part with its trajectory (length %zu)", l); } c.outcome(mix(n, uint64_t(bw * 8)));
}
static void extents(Ctx& c) {
    Environment env; int n = c.choose(3, "maps"); MapSegment* s = new MapSegment; env.attachItem(s); FrameNode* f[3]; T t[3]; t[0] = T::Identity(); f[0] = env.getRootNode(); int rot = c.choose(3, "rotation"); t[1] = place(V(0, 0, rot == 0 ? 0 : 1.5707963267948966), V(3, -1, 2)); t[2] = place(rot == 2 ? V(.3, -.5, .8) : V(0, 0, .3 * rot), V(-1, .5, -4)); for (int i = 1; i < 3; ++i) { f[i] = new FrameNode(t[i]); env.addChild(f[0], f[i]); } int fs = c.choose(3, "frame of the segment"); s->setFrameNode(f[fs]); Eigen::AlignedBox<double, 3> e;
    for (int i = 0; i < n; ++i) { int fr = c.choose(3, "frame"), k = c.choose(4, "map"); V lo, hi; boost::intrusive_ptr<CartesianMap> m; if (k == 0) { m = new Grid<double>(3, 2, .5, 2, -1, 1); lo = V(-1, 1, 0); hi = V(.5, 5, 0); } else if (k == 1) { m = new ElevationGrid(1, 4, 1, .25, 0, -2); lo = V(0, -2, 0); hi = V(1, -1, 0); } else { Pointcloud* p = k == 2 ? new Pointcloud : new TriMesh; m = p; if (k == 2) { p->vertices = { V(1, 2, 3), V(-1, 0, 7), V(0, 5, 2) }; lo = V(-1, 0, 2); hi = V(1, 5, 7); } } env.attachItem(m.get()); m->setFrameNode(f[fr]); s->addPart(T::Identity(), m.get(), 1); if (k < 3) for (int b = 0; b < 8; ++b) { T g = t[fs].inverse() * t[fr]; e.extend(g * V(b & 1 ? hi.x() : lo.x(), b & 2 ? hi.y() : lo.y(), b & 4 ? hi.z() : lo.z())); } } c.step();
    auto g = s->getExtents(); c.check(g.isEmpty() == e.isEmpty(), "the extents are %s", g.isEmpty() ? "empty" : "not empty"); if (!e.isEmpty()) c.check((g.min() - e.min()).norm() < 1e-9 && (g.max() - e.max()).norm() < 1e-9, "the extents are %g %g %g to %g %g %g instead of %g %g %g to %g %g %g", g.min().x(), g.min().y(), g.min().z(), g.max().x(), g.max().y(), g.max().z(), e.min().x(), e.min().y(), e.min().z(), e.max().x(), e.max().y(), e.max().z()); c.outcome(n);
}
int main(int argc, char** argv) {
    Engine e;
    e.add("parts", 1, 1, 3, false, parts, "all combinations of poses, weights and variances of up to three parts, updated in between");
    e.add("extents", 1, 1, 3, false, extents, "all placements of up to two maps of any type");
    return e.main(argc, argv);
}
