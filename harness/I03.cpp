// I03: collecting scan lines for point clouds and matching them with a map.
#include <envire/Core.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/../icp/icpLocalization.hpp>
#include "mc.hpp"
#include <memory>
#include <dirent.h>
using namespace mc; using envire::Environment; using envire::FrameNode; using envire::Pointcloud;
typedef Eigen::Vector3d V; typedef Eigen::Affine3d A3; typedef std::vector<V> Pts; namespace ei = envire::icp;
static std::string dir(char const* n) { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/loc" + n + std::to_string(getpid()); }
static void wipe(std::string const& d) { if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
static A3 T(double x, double y, double z, double a = 0, V ax = V::UnitZ()) { return A3(Eigen::Translation3d(x, y, z) * Eigen::AngleAxisd(a, ax.normalized())); }
struct Line { A3 odo, world, laser; base::samples::LaserScan s; };
struct Quiet { Quiet() { std::cout.setstate(std::ios_base::failbit); } ~Quiet() { std::cout.clear(); } };
static Line line(int pose, int head, int nr) {
    static const std::vector<A3> B = { T(0, 0, 0), T(.3, 0, 0), T(.05, 0, 0), T(0, 0, 0, .4), T(.02, .01, 0, .05), T(0, 1, 0, -1), T(0, 0, .3, .15, V::UnitX()) }, H = { T(.1, 0, .2), T(.1, 0, .2, .3), T(.1, 0, .2, .04), T(1.1, -.5, .2), T(.1, 0, .2, .5, V::UnitX()), T(.1, 0, .2, .5, V::UnitY()) }; Line l; l.odo = B[pose]; l.world = T(5, -2, .5, .7) * l.odo * T(.01 * nr, 0, 0, .002 * nr); l.laser = H[head]; l.s.time = base::Time::fromMicroseconds(1000000ll * (100 + nr)); l.s.start_angle = -.2; l.s.angular_resolution = .2; l.s.minRange = 100; l.s.maxRange = 50000; l.s.ranges = { 1000u + 10 * nr, nr % 2 ? 5u : 2000u + 10 * nr, 3000u + 10 * nr }; return l; }
static Pts points(Line const& l) { Pts r; for (size_t i = 0; i < l.s.ranges.size(); ++i) if (l.s.ranges[i] >= l.s.minRange && l.s.ranges[i] <= l.s.maxRange) { double a = l.s.start_angle + i * l.s.angular_resolution, d = l.s.ranges[i] / 1000.; r.push_back(V(std::cos(a) * d, std::sin(a) * d, 0)); } return r; }
static ei::ICPPointCloudConfiguration config(int lines, int adv) { ei::ICPPointCloudConfiguration k; k.lines_per_point_cloud = lines; k.min_line_advance = adv; k.min_distance_travelled_for_new_line = .1; k.min_rotation_for_new_line = .1; k.min_rotation_head_for_new_line = .1; return k; }
static bool moved(Line const& a, Line const& b) { A3 d = a.odo.inverse() * b.odo; double an = std::fabs(Eigen::AngleAxisd(d.linear()).angle()), h = std::acos(std::min(1., std::max(-1., a.laser.linear().col(1).dot(b.laser.linear().col(1))))); return d.translation().norm() > .1 || an > .1 || h > .1; }
static void lines(Ctx& c) {
    int n = c.bound, lpc = 1 + c.choose(3, "lines"), adv = c.choose(3, "advance"); ei::ICPLocalization here, *loc = &here; loc->initializePointCloud(config(lpc, adv)); std::vector<Line> kept; int added = 0, last = 0, nr = 0; std::vector<std::pair<int, int> > in = { { 0, 0 }, { 1, 0 }, { 2, 0 }, { 3, 0 }, { 4, 2 }, { 5, 0 }, { 6, 0 }, { 0, 1 }, { 0, 3 }, { 0, 4 }, { 0, 5 }, { 2, 1 } };
    for (int i = 0; i < n; ++i) { int o = c.choose(14, "operation"); c.step(); if (o == 13) { loc->initializePointCloud(config(lpc, adv)); kept.clear(); added = last = 0; } else if (o < 12) { Line l = line(in[o].first, in[o].second, nr++); bool add = true; for (auto& k : kept) add = add && moved(l, k); { Quiet q; loc->addScanLineToPointCloud(l.odo, l.world, l.laser, l.s); } if (add) { ++added; kept.push_back(l); if (int(kept.size()) > lpc) kept.erase(kept.begin()); } } else if (!kept.empty()) {
            ei::ICPInputData d = loc->generatePointcloud(); last = added; Pointcloud::Ptr p(d.pc); Line const& e = kept.back(); c.check((d.pc2World.matrix() - e.world.matrix()).norm() < 1e-9, "the cloud is not at the pose of the last line"); c.check(d.pointCloudTime == e.s.time, "the time of the cloud is not the one of the last line"); Pts want; for (auto& k : kept) for (auto& q : points(k)) want.push_back(e.odo.inverse() * k.odo * k.laser * q); c.check(p->vertices.size() == want.size(), "%zu points instead of %zu from %zu lines", p->vertices.size(), want.size(), kept.size()); for (size_t j = 0; j < want.size(); ++j) c.check((p->vertices[j] - want[j]).norm() < 1e-9, "point %zu is at %g %g %g instead of %g %g %g", j, p->vertices[j].x(), p->vertices[j].y(), p->vertices[j].z(), want[j].x(), want[j].y(), want[j].z());
            A3 off = T(.5, -.2, .1, .3); ei::ICPInputData s = loc->generatePointcloudSample(d, off); Pointcloud::Ptr sp(s.pc); c.check(s.pc != d.pc && s.pc->vertices == d.pc->vertices && s.pointCloudTime == d.pointCloudTime, "a sample has other points"); A3 w = off * d.pc2World; w.translation() = d.pc2World.translation() + off.translation(); c.check((s.pc2World.matrix() - w.matrix()).norm() < 1e-9, "a sample is at another place"); s.pc->vertices.clear(); c.check(d.pc->vertices.size() == want.size(), "a sample shares its points"); }
        bool h = loc->hasNewPointCloud(); c.check(!h || (int(kept.size()) >= lpc && added - last >= adv), "a new cloud is announced with %zu of %d lines, %d of %d new", kept.size(), lpc, added - last, adv); c.check(h || added <= lpc || added - last <= adv, "no new cloud is announced with %d lines, %d new", added, added - last); uint64_t st = mix(added > 9 ? 9 : added, added - last); for (auto& k : kept) st = mix(st, hashBytes(k.odo.matrix().data(), 128, hashBytes(k.laser.matrix().data(), 128))); c.state(mix(st, mix(lpc * 4 + adv, nr)), n - i - 1); } c.outcome(mix(added, kept.size())); }
static Pts const& cloud() { static const Pts p = { V(0, 0, 0), V(2, .3, .1), V(.2, 3, -.4), V(1, 1.4, 2), V(-1.7, .6, .8), V(2.5, 2, 1) }; return p; }
static int count(std::string const& d, int& frames, std::vector<A3>& at) { std::unique_ptr<Environment> e(Environment::unserialize(d)); frames = e->getItems<FrameNode>().size(); at.clear(); for (auto p : e->getItems<Pointcloud>()) at.push_back(e->relativeTransform(p->getFrameNode(), e->getRootNode())); return at.size(); }
static void match(Ctx& c) {
    int mode = c.choose(3, "covariance"), path = c.choose(2, "path"), n = c.bound, fr = c.choose(2, "frames"); static const double OV[] = { 1, .7 }; ei::ICPConfiguration k; k.model_density = 1; k.measurement_density = 1; k.max_iterations = 1 + c.choose(3, "iterations") * 10; k.overlap = OV[c.choose(2, "overlap")]; k.min_mse = 1e-9; k.min_mse_diff = 1e-12; k.cov_conf.mode = mode == 0 ? ei::HARD_CODED : mode == 1 ? ei::MSE_BASED : ei::NO_COV; k.cov_conf.cov_position = Eigen::Matrix3d::Identity() * 3; k.cov_conf.cov_orientation = Eigen::Matrix3d::Identity() * .25; std::string in = dir("i"), out = dir("o"); k.environment_debug_path = path ? out : ""; c.step(); A3 F = fr ? T(1, 2, 0, .5) : T(0, 0, 0);
    std::vector<V> map; { Environment e; FrameNode* f = new FrameNode(envire::Transform(F)); e.addChild(e.getRootNode(), f); Pointcloud* p = new Pointcloud; e.attachItem(p); p->setFrameNode(f); p->vertices = cloud(); wipe(in); e.serialize(in); for (auto& x : cloud()) map.push_back(F * x); } ei::ICPLocalization here, *loc = &here; Quiet quiet; loc->loadIcpConfiguration(k); loc->initializePointCloud(config(2, 1)); loc->loadEnvironment(in, 1); wipe(in); static const std::vector<A3> MV = { T(.2, -.1, .15), T(.05, .1, 0, .12), T(0, 0, 0), T(40, 0, 0) }; std::vector<A3> stay; stay.push_back(F); bool lastSaved = false;
    for (int i = 0; i < n; ++i) { A3 mv = MV[c.choose(i ? 2 : 4, "motion")]; bool save = c.flag("save"), rem = lastSaved && path && c.flag("remove"); c.step(); if (rem) { loc->removeLastSavedPointCloud(); stay.pop_back(); } ei::ICPInputData d; Pointcloud::Ptr p = new Pointcloud; A3 body = T(3, 1, .2, -.4); d.pc2World = mv * body; d.pointCloudTime = base::Time::fromMicroseconds(1000000ll * (7 + i)); for (auto& x : map) p->vertices.push_back(body.inverse() * x); if (i) p->vertices.pop_back(); d.pc = p.get(); d.fn = 0; ei::ICPResult r = loc->doScanMatch(d, save);
        // the same with the registration alone
        Environment e; Pointcloud *m = new Pointcloud, *q = new Pointcloud; FrameNode *fm = new FrameNode, *fq = new FrameNode(envire::Transform(d.pc2World)); e.attachItem(m); e.attachItem(q); e.addChild(e.getRootNode(), fm); e.addChild(e.getRootNode(), fq); m->setFrameNode(fm); q->setFrameNode(fq); m->vertices = map; q->vertices = p->vertices; ei::TrimmedKD icp; icp.addToModel(ei::PointcloudAdapter(m, 1)); icp.align(ei::PointcloudAdapter(q, 1), k.max_iterations, k.min_mse, k.min_mse_diff, k.overlap);
        c.check(r.time == d.pointCloudTime && r.points == int(p->vertices.size()) && (r.from.matrix() - d.pc2World.matrix()).norm() < 1e-12, "the result is of another cloud"); c.check(r.pairs == int(icp.getPairs()), "%d pairs instead of %zu", r.pairs, icp.getPairs()); if (r.pairs > 0) { c.check((r.to.matrix() - A3(fq->getTransform()).matrix()).norm() < 1e-6, "the cloud was moved to another place"); c.check(std::fabs(r.mse - icp.getMeanSquareError()) < 1e-9 * (1 + r.mse) && r.pairs_distance.size() == icp.getPairsDistance().size(), "the mean squared error is %g instead of %g", r.mse, icp.getMeanSquareError()); if (k.overlap == 1 && k.max_iterations > 5 && mv.translation().norm() < 1) c.check((r.to.matrix() - body.matrix()).norm() < 1e-2, "the pose found is %g off", (r.to.matrix() - body.matrix()).norm()); auto &P = r.cov_position, &O = r.cov_orientation; if (mode == 0) c.check(P == k.cov_conf.cov_position && O == k.cov_conf.cov_orientation, "the covariance is not the configured one"); else if (mode == 2) c.check(std::isinf(P(0, 0)) && std::isinf(P(2, 1)) && std::isinf(O(1, 1)), "a covariance is made up"); else if (r.mse > 1e-6) c.check(P(0, 0) > 0 && P(0, 0) == P(1, 1) && P(1, 1) == P(2, 2) && P(0, 1) == 0 && O(0, 0) > 0 && O(0, 0) == O(2, 2) && O(1, 2) == 0 && std::fabs(P(0, 0) / (2e-3 * 4096 * r.mse * r.mse) - 1) < 1e-3, "the covariance is %g for an error of %g", P(0, 0), r.mse); }
        lastSaved = save && path; if (lastSaved) stay.push_back(r.to); c.check(lastSaved == p->isAttached(), "the cloud is %s", lastSaved ? "gone" : "still in the map"); if (path) { wipe(out); loc->saveEnvironment(); int f; std::vector<A3> at; int got = count(out, f, at); wipe(out); c.check(got == int(stay.size()) && f == got + 1, "the map has %d clouds and %d frames instead of %zu and %zu", got, f, stay.size(), stay.size() + 1); for (auto& s : stay) { bool hit = false; for (auto& a : at) if ((a.matrix() - s.matrix()).norm() < 1e-4) hit = true; c.check(hit, "a cloud of the map is at another place"); } } c.outcome(mix(r.pairs, lastSaved)); }
}
int main(int argc, char** argv) {
    Engine e;
    e.add("scan lines", 4, 6, 3, true, lines, "all sequences of n scan lines, clouds and restarts");
    e.add("matching", 2, 3, 3, false, match, "all sequences of n clouds matched, saved or removed");
    return e.main(argc, argv);
}
