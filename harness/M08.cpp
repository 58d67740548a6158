// M08: elevations, normals, light and lines of sight in height maps, and access to maps by position.
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/tools/GridAccess.hpp>
#include <envire/tools/VoxelTraversal.hpp>
#include "mc.hpp"
#include <memory>
#include <set>
#include <sstream>
using namespace envire; using namespace mc;
typedef ElevationGrid EG; typedef Eigen::Vector3d V; typedef Eigen::Vector2d V2;
struct Listener : public EventHandler { std::set<EnvironmentItem*> modified; void handle(Event const& e) { if (e.type == event::ITEM && e.operation == event::UPDATE) modified.insert(e.a.get()); } };
struct Listen { Environment& e; Listener l; Listen(Environment& e) : e(e) { e.addEventHandler(&l); l.modified.clear(); } ~Listen() { e.removeEventHandler(&l); } bool saw(EnvironmentItem* i) { return l.modified.count(i) != 0; } };
template<class F> static bool throws(F f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }
static bool eq(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
// ---- elevations and normals
static void heights(Ctx& c, int W, int H, double sx, double sy, double ox, double oy, std::vector<double> const& h) {
    EG g(W, H, sx, sy, ox, oy); EG const& k = g; auto at = [&](int x, int y) { return h[y * W + x]; }; int how = (W + H) % 3;
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double v = at(x, y); if (how == 0) g.get(EG::Position(x, y)) = v; else if (how == 1) g.get(ox + (x + .5) * sx, oy + (y + .5) * sy) = v; else g.getGridData(EG::ELEVATION_MAX)[y][x] = v; } c.step();
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) {
        V2 m(ox + (x + .5) * sx, oy + (y + .5) * sy); c.check(k.get(EG::Position(x, y)) == at(x, y) && g.get(EG::Position(x, y)) == at(x, y) && k.get(m.x(), m.y()) == at(x, y) && g.get(m.x(), m.y()) == at(x, y) && g.getGridData(EG::ELEVATION)[y][x] == at(x, y), "cell (%d,%d) holds %g instead of %g", x, y, k.get(EG::Position(x, y)), at(x, y));
        int l = std::max(0, x - 1), r = std::min(W - 1, x + 1), b = std::max(0, y - 1), t = std::min(H - 1, y + 1); double dx = l == r ? 0 : (at(r, y) - at(l, y)) / (sx * (r - l)), dy = b == t ? 0 : (at(x, t) - at(x, b)) / (sy * (t - b)); V n(-dx, -dy, 1); n.normalize();
        V a = k.getNormal(EG::Position(x, y)); c.check((a - n).norm() < 1e-9, "normal of cell (%d,%d) is %g %g %g instead of %g %g %g", x, y, a.x(), a.y(), a.z(), n.x(), n.y(), n.z());
        for (int v = 0; v < 3; ++v) for (int u = 0; u < 3; ++u) { V2 p(ox + (x + .1 + .4 * u) * sx, oy + (y + .1 + .4 * v) * sy); V e = k.getNormal(p); c.check((e - n).norm() < 1e-9, "normal at a point of cell (%d,%d) differs from that of the cell", x, y); double z = at(x, y) + (p - m).dot(V2(dx, dy)); c.check(eq(k.getElevation(p), z), "elevation at a point of cell (%d,%d) is %g instead of %g", x, y, k.getElevation(p), z); }
    }
    if (h[0] == 0) { for (int i = 0; i < 4; ++i) { V2 p(i == 0 ? ox - .1 : i == 1 ? ox + W * sx + .1 : ox + .1, i == 2 ? oy - .1 : i == 3 ? oy + H * sy + .1 : oy + .1); c.check(throws([&] { k.getNormal(p); }) && throws([&] { k.getElevation(p); }) && throws([&] { k.get(p.x(), p.y()); }), "a position outside of the grid has an elevation"); } c.check(throws([&] { k.getNormal(EG::Position(W, 0)); }) && throws([&] { k.getNormal(EG::Position(0, H)); }), "a cell outside of the grid has a normal"); }
    c.outcome(hashBytes(h.data(), h.size() * sizeof(double)));
}
static void surface(Ctx& c) { static const double A[] = { 0, 1, -.625 }; int z = c.choose(3, "size"), n = z == 0 ? 9 : 8; std::vector<double> h; for (int i = 0; i < n; ++i) h.push_back(A[c.choose(3, "height")]); if (z == 0) heights(c, 3, 3, .5, 2, -1, .25, h); else if (z == 1) heights(c, 4, 2, 1, .5, 0, 0, h); else heights(c, 2, 4, .25, 1, 3, -2, h); }
static void shapes(Ctx& c) { int W = 1 + c.choose(c.thorough ? 7 : 5, "width"), H = 1 + c.choose(c.thorough ? 7 : 5, "height"), s = c.choose(3, "scale"), p = c.choose(3, "pattern"); std::vector<double> h; for (int i = 0; i < W * H; ++i) { int x = i % W, y = i / W; h.push_back(p == 0 ? .1 * x * x + y * y * y : p == 1 ? std::sin(3 * x + 7 * y) : x - 2 * y); } heights(c, W, H, s == 0 ? .5 : 2, s == 1 ? .25 : 1, -.3 * s, .7 * s, h); }
// ---- lines through cells: length inside of a cell, distance to it
static double inside(V2 const& a, V2 const& b, V2 const& lo, V2 const& hi, bool& touch, double eps) { auto clip = [&](double g) { double t0 = 0, t1 = 1; V2 d = b - a; for (int k = 0; k < 2; ++k) { double l = lo[k] - g, h = hi[k] + g; if (d[k] == 0) { if (a[k] < l || a[k] > h) return -1.; } else { double u = (l - a[k]) / d[k], v = (h - a[k]) / d[k]; if (u > v) std::swap(u, v); t0 = std::max(t0, u); t1 = std::min(t1, v); } } return t1 < t0 ? -1. : (t1 - t0) * d.norm(); }; touch = clip(eps) >= 0; return std::max(0., clip(-eps)); }
static void light(Ctx& c) {
    static const int S[][2] = { { 3, 3 }, { 5, 1 }, { 1, 4 }, { 4, 3 } }; int s = c.choose(4, "size"), W = S[s][0], H = S[s][1], N = W * H; double sx = s % 2 ? .5 : 1, sy = s == 1 ? 2 : .5, ox = s == 2 ? 0 : -1, oy = s == 3 ? 0 : .25; static const double Z[] = { .4, 1.6, -.3 }; int a = c.choose(N, "cell"), b = c.choose(N, "cell"), za = c.choose(3, "height"), zb = (za + 1 + c.choose(2, "height")) % 3; int lx = c.choose(2 * W + 3, "light"), ly = c.choose(2 * H + 3, "light"), lz = c.choose(2, "light height"), d = c.choose(c.thorough ? 3 : 2, "diameter"); bool band = (a + b) & 1; static const double D[] = { .7, 0, 3 };
    std::vector<double> h(N); for (int i = 0; i < N; ++i) h[i] = .01 * ((i * 7) % 5); h[b] = Z[zb]; h[a] = Z[za]; V l(ox + (lx - 1) * .5 * sx, oy + (ly - 1) * .5 * sy, lz ? 2.2 : .6); if (c.thorough && c.flag("oblique")) { l.x() += .11 * sx; l.y() += .17 * sy; } c.step();
    Environment env; EG::Ptr g = new EG(W, H, sx, sy, ox, oy); env.attachItem(g.get()); auto& e = g->getGridData(EG::ELEVATION); for (int i = 0; i < N; ++i) e.data()[i] = h[i]; GridIllumination* op = new GridIllumination; env.attachItem(op); op->addOutput(g.get()); if (d == 1 && (a & 1)) op->setLightSource(l); else op->setLightSource(l, D[d]); if (band) op->setOutputBand("x"); std::string name = band ? "x" : EG::ILLUMINATION; { auto& q = g->getGridData(name); std::fill(q.data(), q.data() + N, 77); } { Listen ls(env); c.check(op->updateAll(), "the operator failed"); c.check(ls.saw(g.get()), "the change is not reported"); }
    int lcx = std::floor((l.x() - ox) / sx + 1e-9), lcy = std::floor((l.y() - oy) / sy + 1e-9); auto& o = g->getGridData(name); uint64_t hs = 1;
    for (int i = 0; i < N; ++i) { c.check(e.data()[i] == h[i], "the elevation changed"); V p(ox + (i % W + .5) * sx, oy + (i / W + .5) * sy, h[i]); V dir = l - p; double r = dir.head<2>().norm(), dark0 = 0, dark1 = 0; if (r > 0) for (int j = 0; j < N; ++j) { if (j == i || (j % W == lcx && j / W == lcy)) continue; V2 lo(ox + (j % W) * sx, oy + (j / W) * sy); bool touch; double in = inside(p.head<2>(), l.head<2>(), lo, lo + V2(sx, sy), touch, 1e-7); if (!touch) continue; V2 q = lo + V2(sx, sy) / 2; double mn = (dir.z() - D[d] / 2) / r, mx = (dir.z() + D[d] / 2) / r, sl = (h[j] - h[i]) / (q - p.head<2>()).norm(); double z0, z1; if (mx - mn < 1e-12) { z0 = sl > mn + 1e-9 ? 1 : 0; z1 = sl > mn - 1e-9 ? 1 : 0; } else z0 = z1 = std::max(0., std::min(1., (sl - mn) / (mx - mn))); if (in > 1e-6) dark0 = std::max(dark0, z0); dark1 = std::max(dark1, z1); }
        double v = o.data()[i]; c.check(v >= 1 - dark1 - 1e-6 && v <= 1 - dark0 + 1e-6, "cell (%d,%d) has light %g instead of %g%s", i % W, i / W, v, 1 - dark0, dark0 == dark1 ? "" : " or less"); hs = mix(hs, uint64_t(v * 50)); } c.outcome(hs);
    if (!a && !b && !lx) { op->removeOutputs(); c.check(throws([&] { op->updateAll(); }), "an update without output succeeded"); }
}
static void rays(Ctx& c) {
    static const int S[][2] = { { 4, 3 }, { 1, 1 }, { 2, 5 } }; int s = c.choose(3, "size"), W = S[s][0], H = S[s][1]; double sx = s ? .5 : 1, sy = s == 1 ? .5 : .25, ox = s ? -1.25 : 0, oy = s == 2 ? 1 : -.5; GridBase g(W, H, sx, sy, ox, oy); VoxelTraversal vt(g); bool used = c.flag("used"); if (used) { vt.init(V(ox + .1, oy + .1, 0), V(1, .4, 0)); GridBase::Position p; vt.step(p); vt.step(p); }
    int px = c.choose(W * 4 + 2, "origin"), py = c.choose(H * 4 + 2, "origin"); V o(ox + (px - 1) * .25 * sx, oy + (py - 1) * .25 * sy, 1); int R = c.thorough ? 5 : 3, dx = c.choose(2 * R + 1, "direction") - R, dy = c.choose(2 * R + 1, "direction") - R; V d(dx * .37, dy * (s == 1 ? .37 : .5), dx || dy ? (dx % 2) : 1); c.step();
    int cx = std::floor((o.x() - ox) / sx + 1e-12), cy = std::floor((o.y() - oy) / sy + 1e-12); bool in = cx >= 0 && cy >= 0 && cx < W && cy < H; vt.init(o, d); GridBase::Position p; if (!in || (!dx && !dy)) { for (int i = 0; i < 3; ++i) c.check(!vt.step(p), "a ray %s steps on", in ? "straight up" : "from outside of the grid"); return; }
    std::set<std::pair<int, int> > seen; seen.insert({ cx, cy }); V2 a = o.head<2>(), b = a + d.head<2>().normalized() * 100; int n = 0; while (vt.step(p)) { int x = p.x, y = p.y; c.check(p.x < size_t(W) && p.y < size_t(H), "the ray steps out of the grid to (%zu,%zu)", p.x, p.y); c.check(std::abs(x - cx) + std::abs(y - cy) == 1, "the ray jumps from (%d,%d) to (%d,%d)", cx, cy, x, y); bool touch; inside(a, b, V2(ox + x * sx, oy + y * sy), V2(ox + (x + 1) * sx, oy + (y + 1) * sy), touch, 1e-9); c.check(touch, "the ray does not meet cell (%d,%d)", x, y); cx = x; cy = y; c.check(seen.insert({ x, y }).second, "cell (%d,%d) is visited twice", x, y); c.check(++n <= W + H, "the ray does not end"); }
    for (int i = 0; i < W * H; ++i) { bool t; double l = inside(a, b, V2(ox + (i % W) * sx, oy + (i / W) * sy), V2(ox + (i % W + 1) * sx, oy + (i / W + 1) * sy), t, 1e-9); c.check(l < 1e-6 || seen.count({ i % W, i / W }), "the ray skips cell (%d,%d)", i % W, i / W); } for (int i = 0; i < 2; ++i) c.check(!vt.step(p), "the ray returned to the grid"); c.outcome(mix(n, cx * 9 + cy));
}
// ---- access by position
static Eigen::Affine3d place(double a, double x, double y, double z) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); t.linear() = Eigen::AngleAxisd(a, V::UnitZ()).toRotationMatrix(); t.translation() << x, y, z; return t; }
static void lookup(Ctx& c) {
    std::cout.setstate(std::ios_base::failbit); // the code under test is talkative
    std::unique_ptr<Environment> env(new Environment); int kind = c.choose(3, "kind"), n = c.choose(3, "maps"); static const Eigen::Affine3d F[] = { place(0, 0, 0, 0), place(1.5707963267948966, 3, .5, 2), place(.3, .6, -.4, -1.25) }; FrameNode* f[3]; Eigen::Affine3d t[3]; for (int i = 0; i < 3; ++i) { t[i] = F[i]; f[i] = i ? new FrameNode(F[i]) : env->getRootNode(); if (i == 1) env->addChild(env->getRootNode(), f[i]); if (i == 2) { bool nest = c.flag("nested"); env->addChild(nest ? f[1] : f[0], f[i]); if (nest) t[2] = F[1] * F[2]; } }
    std::vector<int> fr; std::vector<boost::intrusive_ptr<CartesianMap> > maps; std::vector<V> pts; auto hv = [](int m, int x, int y) { return m * 10 + x * .7 - y * 1.3; };
    for (int m = 0; m < n; ++m) { fr.push_back(c.choose(3, "frame")); boost::intrusive_ptr<CartesianMap> p; if (kind == 0) { EG* g = new EG(3, 2, .5, 1, -.5, 0); p = g; for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) g->get(EG::Position(x, y)) = hv(m, x, y); } else if (kind == 1) { MLSGrid* g = new MLSGrid(3, 2, .5, 1, -.5, 0); p = g; for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) if (x + y != 3) g->insertTail(x, y, SurfacePatch(hv(m, x, y), .05, 0, SurfacePatch::HORIZONTAL)); } else { Pointcloud* g = new Pointcloud; p = g; for (int k = 0; k < 4; ++k) { V q(k * .5 - .3, (k * k % 3) * .4, hv(m, k, 0)); g->vertices.push_back(q); pts.push_back(t[fr[m]] * q); } } env->attachItem(p.get()); p->setFrameNode(f[fr[m]]); maps.push_back(p); }
    static const V2 Q[] = { V2(-.2, .3), V2(.3, 1.6), V2(2.6, .7), V2(50, 50), V2(.71, .12), V2(2.2, .6) }; c.step(); GridAccess ga(env.get()); MLSAccess ma(env.get()); std::unique_ptr<PointcloudAccess> pa; if (kind == 2) pa.reset(new PointcloudAccess(env.get()));
    int steps = c.thorough ? 3 : 2; for (int s = 0; s < steps; ++s) { V2 q = Q[c.choose(6, "query")]; c.step(); uint64_t out = 0;
        auto cell = [&](int m, int& x, int& y) { V p = t[fr[m]].inverse() * V(q.x(), q.y(), 0); x = std::floor((p.x() + .5) / .5); y = std::floor(p.y()); return x >= 0 && y >= 0 && x < 3 && y < 2; };
        if (kind == 0) { V p(q.x(), q.y(), 99); bool r = ga.getElevation(p), any = false, ok = false; for (int m = 0; m < n; ++m) { int x, y; if (cell(m, x, y)) { any = true; if (eq(p.z(), hv(m, x, y) + t[fr[m]].translation().z())) ok = true; } } c.check(r == any, "the elevation at (%g,%g) was %s", q.x(), q.y(), r ? "made up" : "not found"); if (r) c.check(ok && p.x() == q.x() && p.y() == q.y(), "the elevation at (%g,%g) is %g", q.x(), q.y(), p.z()); out = r; }
        if (kind == 1) { double z; int which = c.choose(3, "height"); z = which < 2 && which < n ? 0 : 500; if (which < n) { int x, y; if (cell(which, x, y)) z = hv(which, x, y) + t[fr[which]].translation().z() + .11; } double zp = -77, sd = .05; bool r = ma.getElevation(V(q.x(), q.y(), z), zp, sd), any = false, ok = false; for (int m = 0; m < n; ++m) { int x, y; if (cell(m, x, y) && x + y != 3 && std::fabs(hv(m, x, y) + t[fr[m]].translation().z() - z) < .2) { any = true; if (std::fabs(zp - hv(m, x, y) - t[fr[m]].translation().z()) < 1e-5) ok = true; } } c.check(r == any, "the surface at (%g,%g,%g) was %s", q.x(), q.y(), z, r ? "made up" : "not found"); if (r) c.check(ok && std::fabs(sd - .05) < 1e-6, "the surface at (%g,%g) is at %g", q.x(), q.y(), zp); out = r; }
        if (kind == 2) { double th = c.choose(2, "threshold") ? .83 : .27; V p(q.x(), q.y(), 99); bool r = pa->getElevation(p, th); double best = 1e9; for (auto& k : pts) best = std::min(best, (k.head<2>() - q).norm()); c.check(r == (best < th), "the nearest point at (%g,%g) was %s", q.x(), q.y(), r ? "made up" : "not found"); bool ok = !r; for (auto& k : pts) if ((k.head<2>() - q).norm() < best + 1e-9 && k.z() == p.z()) ok = true; c.check(ok && p.x() == q.x(), "the elevation %g is not that of the nearest point", p.z());
            for (double z : { .2, -1.1, 11., 2.4 }) { V w(q.x(), q.y(), 99); bool s = pa->getElevation(w, th, z, .75), any = false; for (auto& k : pts) { bool in = (k.head<2>() - q).cwiseAbs().maxCoeff() < th && std::fabs(k.z() - z) < .75; any = any || in; if (in && (k - w).norm() == 0) ok = s; } c.check(s == any, "a point near (%g,%g,%g) was %s", q.x(), q.y(), z, s ? "made up" : "not found"); if (s) { bool f = false; for (auto& k : pts) if (k == w && (k.head<2>() - q).cwiseAbs().maxCoeff() < th && std::fabs(k.z() - z) < .75) f = true; c.check(f, "the point found near (%g,%g,%g) does not exist or is too far", q.x(), q.y(), z); } } out = r; } c.outcome(mix(out, s)); }
}
int main(int argc, char** argv) {
    Engine e;
    e.add("surface", 1, 1, 4, false, surface, "all assignments of three heights to small grids, all cells and lattice points");
    e.add("shapes", 1, 1, 2, false, shapes, "all sizes and scales");
    e.add("light", 1, 1, 4, false, light, "all pairs of elevations and positions of the light in and around small grids");
    e.add("rays", 1, 1, 3, false, rays, "all origins and directions of a lattice");
    e.add("access", 1, 1, 3, false, lookup, "all placements of up to two maps and sequences of positions");
    return e.main(argc, argv);
}
