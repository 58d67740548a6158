// O01: conversions between grids, surface grids, distance images and point clouds put every value at its place.
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
#include <envire/operators/DistanceGridToPointcloud.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/ClassGridProjection.hpp>
#include "mc.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#include <set>
using namespace envire; using namespace mc;
namespace envire { struct ClassProjection : public ClassGridProjection<unsigned char, unsigned char> { static const std::string className; const std::string& getClassName() const { return className; } void serialize(Serialization&) {} void unserialize(Serialization&) {} ClassProjection* clone() const { return new ClassProjection(*this); } void set(EnvironmentItem*) {} }; const std::string ClassProjection::className = "ClassProjection"; }
typedef SurfacePatch P; typedef Eigen::Affine3d T; typedef Eigen::Vector3d V; typedef Eigen::Matrix<double, 6, 6> C6;
static const double INF = std::numeric_limits<double>::infinity();
static bool near(double a, double b, double t = 1e-4) { return std::fabs(a - b) <= t * std::max(1., std::fabs(b)); }
// frames: root, a turned and raised one, one below that
static T yaw(double a, double x, double y, double z) { T t = T::Identity(); t.linear() << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1; t.translation() << x, y, z; return t; }
struct World {
    std::unique_ptr<Environment> env; FrameNode* f[3]; T t[3];
    World() : env(new Environment) { f[0] = env->getRootNode(); t[0] = T::Identity(); T a = yaw(1.5707963267948966, .3, .2, 2), b = yaw(.4, -.45, .35, -.5); f[1] = new FrameNode(a); f[2] = new FrameNode(b); env->addChild(f[0], f[1]); env->addChild(f[1], f[2]); t[1] = a; t[2] = a * b; }
    T rel(int from, int to) const { return t[to].inverse() * t[from]; }
};
static V centre(GridBase const& g, int x, int y) { return V(g.getOffsetX() + (x + .5) * g.getScaleX(), g.getOffsetY() + (y + .5) * g.getScaleY(), 0); }
static bool cellAt(GridBase const& g, V const& p, int& x, int& y, bool& tie) { double u = (p.x() - g.getOffsetX()) / g.getScaleX(), v = (p.y() - g.getOffsetY()) / g.getScaleY(); for (double k : { u, v }) if (std::fabs(k - std::round(k)) < 1e-6) tie = true; x = (int)std::floor(u); y = (int)std::floor(v); return x >= 0 && y >= 0 && x < (int)g.getCellSizeX() && y < (int)g.getCellSizeY(); }
static std::vector<P> read(MLSGrid& g, int x, int y) { std::vector<P> v; for (MLSGrid::iterator i = g.beginCell(x, y); i != g.endCell(); ++i) v.push_back(*i); return v; }
struct Listener : public EventHandler { std::set<EnvironmentItem*> modified; void handle(Event const& e) { if (e.type == event::ITEM && e.operation == event::UPDATE) modified.insert(e.a.get()); } };
struct Listen { Environment& e; Listener l; Listen(Environment& e) : e(e) { e.addEventHandler(&l); l.modified.clear(); } ~Listen() { e.removeEventHandler(&l); } bool saw(EnvironmentItem* i) { return l.modified.count(i) != 0; } };

template <typename G> static void float2mls(Ctx& c) {
    World w; typedef typename G::DataType D; int fg = c.choose(3, "frame of the grid"), fm = c.choose(3, "frame of the surface"); static const double S[][6] = { { 3, 2, .5, .5, -.75, .25 }, { 2, 3, .4, .9, .1, -.6 }, { 1, 1, 3, 2, -1, -1 } };
    double const* a = S[c.choose(c.thorough ? 3 : 2, "grid")]; double const* b = S[c.choose(3, "surface")]; bool named = c.flag("named band"); int bad = c.choose(5, "unknown"), where = bad ? c.choose(std::min(2, (int)(a[0] * a[1])), "where") : 0;
    boost::intrusive_ptr<G> g = new G(a[0], a[1], a[2], a[3], a[4], a[5]); MLSGrid::Ptr m = new MLSGrid(b[0], b[1], b[2], b[3], b[4], b[5]); w.env->attachItem(g.get()); w.env->attachItem(m.get()); g->setFrameNode(w.f[fg]); m->setFrameNode(w.f[fm]);
    static const std::string N = "height"; if (named) g->getGridData(); auto& d = named ? g->getGridData(N) : g->getGridData(); for (int y = 0; y < a[1]; ++y) for (int x = 0; x < a[0]; ++x) { d[y][x] = D(.25 + 1.5 * x - 3.25 * y); if (named) g->getGridData()[y][x] = 99; }
    D& u = d[where / (int)a[0]][where % (int)a[0]]; if (bad == 1) u = D(NAN); if (bad == 2) u = D(-INF); if (bad == 3) { u = D(-7); if (named) g->setNoData(N, D(-7)); else g->setNoData(D(-7)); } if (bad == 4) u = D(0);
    bool pre = c.flag("surface has content"); if (pre) m->updateCell(0, 0, 500, .25); Operator* o; GridFloatToMLS* op = new GridFloatToMLS; o = op; w.env->attachItem(op); if (named || c.flag("typed")) op->setInput(g.get(), named ? N : ""); else op->setInput(static_cast<GridBase*>(g.get())); op->setOutput(m.get()); c.step();
    Listen l(*w.env); c.check(o->updateAll(), "the operator failed"); c.check(l.saw(m.get()), "the change is not reported"); if (c.flag("again")) o->updateAll(); T r = w.rel(fm, fg); double dz = w.rel(fg, fm).translation().z(); int hits = 0;
    for (int y = 0; y < b[1]; ++y) for (int x = 0; x < b[0]; ++x) {
        int gx, gy; bool tie = false, in = cellAt(*g, r * centre(*m, x, y), gx, gy, tie); if (tie) continue; std::vector<P> v = read(*m, x, y); if (pre && x == 0 && y == 0) { size_t i = 0; while (i < v.size() && !near(v[i].mean, 500)) ++i; c.check(i < v.size(), "the former content is lost"); v.erase(v.begin() + i); }
        bool known = in && std::isfinite((double)d[gy][gx]) && !(bad == 3 && d[gy][gx] == D(-7)); c.check(v.size() == size_t(known), "cell (%d,%d) has %zu new patches, %d expected", x, y, v.size(), (int)known); if (known) { ++hits; c.check(near(v[0].mean, d[gy][gx] + dz), "cell (%d,%d) is at %g instead of %g", x, y, v[0].mean, d[gy][gx] + dz); c.check(v[0].isHorizontal() && v[0].stdev == 0, "cell (%d,%d) is not an exact surface", x, y); }
    }
    c.outcome(hits * 8 + bad);
}
// cell contents for the conversions of surfaces
struct Item { float mean, dev, h; P::TYPE type; }; typedef std::vector<Item> Content;
static std::vector<Content> const& contents() { static std::vector<Content> v = { {}, { { 1.5f, .1f, 0, P::HORIZONTAL } }, { { 3.25f, .1f, 0, P::HORIZONTAL }, { -2, .2f, 0, P::HORIZONTAL } }, { { 1, .1f, 0, P::HORIZONTAL }, { 6, .1f, 2, P::NEGATIVE } }, { { 4.5f, .1f, 2.3f, P::VERTICAL }, { -3, .1f, 0, P::HORIZONTAL } }, { { 2, .1f, 1, P::NEGATIVE } }, { { -5.5f, .1f, .25f, P::VERTICAL }, { -9, .1f, 0, P::HORIZONTAL } } }; return v; }
static void put(MLSGrid& g, int x, int y, Content const& k) { for (auto& i : k) g.insertTail(x, y, P(i.mean, i.dev, i.h, i.type)); }
static void mls2grid(Ctx& c) {
    World w; int W = 1 + c.choose(2, "width"), H = 1 + c.choose(2, "height"); double sx = c.flag("scale") ? .25 : 1; MLSGrid::Ptr m = new MLSGrid(W, H, sx, .5, 1, 2); std::vector<int> k; for (int i = 0; i < W * H; ++i) { k.push_back(c.choose(W * H < 4 || c.thorough ? 7 : 5, "content")); put(*m, i % W, i / W, contents()[k.back()]); }
    int mis = k[0] == 1 ? c.choose(6, "mismatch") : 0; boost::intrusive_ptr<Grid<double> > g = new ElevationGrid(W + (mis == 1 || mis == 5), H + (mis == 2 || mis == 5), mis == 3 ? 2 : sx, mis == 4 ? .75 : .5, 1, 2); int layer = c.choose(2, "layer"); std::string name = layer ? "surface" : ElevationGrid::ELEVATION; auto& d = g->getGridData(name); for (size_t i = 0; i < d.num_elements(); ++i) d.data()[i] = 77;
    w.env->attachItem(m.get()); w.env->attachItem(g.get()); MLSToGrid* op = new MLSToGrid; w.env->attachItem(op); op->addInput(m.get()); op->setOutput(g.get(), name); c.step(); Listen l(*w.env); bool thrown = false; try { op->updateAll(); } catch (std::runtime_error&) { thrown = true; }
    c.check(thrown == (mis != 0), mis ? "grids of other size or scale were accepted" : "the conversion was refused"); for (int y = 0; y < H && !mis; ++y) for (int x = 0; x < W; ++x) { double e = 77; bool any = false; for (auto& i : contents()[k[y * W + x]]) if (i.type != P::NEGATIVE) { e = any ? std::max<double>(e, i.mean) : i.mean; any = true; } c.check(near(d[y][x], e), "cell (%d,%d) is %g instead of %g", x, y, d[y][x], e); } if (!mis) c.check(l.saw(g.get()), "the change is not reported"); else for (size_t i = 0; i < d.num_elements(); ++i) c.check(d.data()[i] == 77, "the output changed");
    for (int i = 0; i < W * H; ++i) c.check(read(*m, i % W, i / W).size() == contents()[k[i]].size(), "the input changed"); c.outcome(mix(mis, k.size()));
}
static void mls2cloud(Ctx& c) {
    World w; int fm = c.choose(3, "frame of the surface"), fp = c.choose(3, "frame of the cloud"), W = 2, H = 1 + c.choose(2, "height"); double sx = c.flag("scale") ? .5 : 1.25; MLSGrid::Ptr m = new MLSGrid(W, H, sx, .75, -.5, 3); std::vector<int> k; for (int i = 0; i < W * H; ++i) { k.push_back(c.choose(i < 2 || c.thorough ? 7 : 2, "content")); put(*m, i % W, i / W, contents()[k.back()]); }
    Pointcloud::Ptr p = new Pointcloud; w.env->attachItem(m.get()); w.env->attachItem(p.get()); m->setFrameNode(w.f[fm]); p->setFrameNode(w.f[fp]); if (c.flag("cloud has content")) { p->vertices.push_back(V(1, 2, 3)); p->getVertexData<V>(Pointcloud::VERTEX_COLOR).push_back(V(1, 1, 1)); }
    MLSToPointCloud* op = new MLSToPointCloud; w.env->attachItem(op); op->setInput(m.get()); op->setOutput(p.get()); c.step(); Listen l(*w.env); op->updateAll(); if (c.flag("again")) op->updateAll(); c.check(l.saw(p.get()), "the change is not reported"); T r = w.rel(fp, fm); double step = (sx + .75) / 2; std::vector<V> v; for (auto& q : p->vertices) v.push_back(r * q); c.check(!p->hasData(Pointcloud::VERTEX_COLOR) || p->getVertexData<V>(Pointcloud::VERTEX_COLOR).empty(), "old colours remain");
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) for (auto& i : contents()[k[y * W + x]]) { if (i.type == P::NEGATIVE) continue; std::vector<double> z; V ce = centre(*m, x, y); for (size_t n = 0; n < v.size();) { if ((v[n] - ce).head<2>().norm() < 1e-4 && v[n].z() > i.mean - i.h - 1e-4 && v[n].z() < i.mean + 1e-4) { z.push_back(v[n].z()); v.erase(v.begin() + n); } else ++n; }
        std::sort(z.begin(), z.end()); if (i.type == P::HORIZONTAL) c.check(z.size() == 1 && near(z[0], i.mean), "%zu points for the surface at %g of cell (%d,%d)", z.size(), i.mean, x, y); else { c.check(!z.empty() && near(z[0], i.mean - i.h) && z.back() > i.mean - step - 1e-4, "the wall of cell (%d,%d) from %g to %g is sampled from %g to %g", x, y, i.mean - i.h, i.mean, z.empty() ? NAN : z[0], z.empty() ? NAN : z.back()); for (size_t n = 1; n < z.size(); ++n) c.check(near(z[n] - z[n - 1], step, 1e-3), "samples of a wall are %g apart instead of %g", z[n] - z[n - 1], step); } }
    c.check(v.empty(), "%zu points lie on no patch, such as (%g,%g,%g)", v.size(), v.empty() ? 0 : v[0].x(), v.empty() ? 0 : v[0].y(), v.empty() ? 0 : v[0].z()); c.outcome(mix(k[0], k[1]));
}
static void dist2cloud(Ctx& c) {
    World w; int fd = c.choose(3, "frame of the image"), fp = c.choose(3, "frame of the cloud"), W = 1 + c.choose(2, "width"), H = 1 + c.choose(2, "height"); boost::intrusive_ptr<DistanceGrid> d = new DistanceGrid(W, H, .5, .25, -.4, .3); static const float D[] = { 2.5f, 0, NAN, (float)INF, 10, 12, .001f }; double mx = c.flag("max distance") ? 11 : 10, un = c.flag("uncertainty") ? .3 : .1; std::vector<float> val; auto& a = d->getGridData(DistanceGrid::DISTANCE); for (int i = 0; i < W * H; ++i) { val.push_back(D[c.choose(i < 2 || c.thorough ? 7 : 2, "distance")]); a[i / W][i % W] = val[i]; }
    int img = c.choose(3, "image"); boost::intrusive_ptr<ImageRGB24> im = new ImageRGB24(W, H, .5, .25, -.4, .3); int ch = 0; for (std::string const& n : { ImageRGB24::R, ImageRGB24::G, ImageRGB24::B }) { auto& b = im->getGridData(n); for (int i = 0; i < W * H; ++i) b[i / W][i % W] = 40 * i + 11 * ch; ++ch; }
    Pointcloud::Ptr p = new Pointcloud; w.env->attachItem(d.get()); w.env->attachItem(p.get()); d->setFrameNode(w.f[fd]); p->setFrameNode(w.f[fp]); if (c.flag("cloud has content")) { p->vertices.push_back(V(1, 2, 3)); p->getVertexData<V>(Pointcloud::VERTEX_COLOR).push_back(V(1, 1, 1)); p->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).push_back(3); }
    DistanceGridToPointcloud* op = new DistanceGridToPointcloud; w.env->attachItem(op); if (img) w.env->attachItem(im.get()); if (img == 1) op->addInput(im.get()); op->addInput(d.get()); if (img == 2) op->addInput(im.get()); op->addOutput(p.get()); op->setMaxDistance(mx); op->setUncertaintyFactor(un); c.step(); Listen l(*w.env); op->updateAll(); if (c.flag("again")) op->updateAll(); c.check(l.saw(p.get()), "the change is not reported");
    T r = w.rel(fd, fp); auto& var = p->getVertexData<double>(Pointcloud::VERTEX_VARIANCE); auto& col = p->getVertexData<V>(Pointcloud::VERTEX_COLOR); size_t n = 0; c.check(var.size() == p->vertices.size(), "%zu variances for %zu points", var.size(), p->vertices.size()); c.check(col.size() == (img ? p->vertices.size() : 0), "%zu colours for %zu points", col.size(), p->vertices.size());
    std::vector<bool> used(p->vertices.size(), false); for (int i = 0; i < W * H; ++i) { double k = val[i]; if (!(k > 1e-9) || !(k < mx)) continue; V q = centre(*d, i % W, i / W); q.z() = 1; q = r * (k * q); ++n; size_t j = 0; while (j < used.size() && (used[j] || (p->vertices[j] - q).norm() > 1e-6)) ++j; c.check(j < used.size(), "pixel (%d,%d) with distance %g has no point at (%g,%g,%g)", i % W, i / W, k, q.x(), q.y(), q.z()); used[j] = true; c.check(near(var[j], k * un), "the uncertainty is %g instead of %g", var[j], k * un); if (img) c.check((col[j] - V(40 * i, 40 * i + 11, 40 * i + 22) / 255.).norm() < 1e-9, "pixel (%d,%d) has the colour of another one", i % W, i / W); }
    c.check(n == p->vertices.size(), "%zu points instead of %zu", p->vertices.size(), n); c.outcome(mix(n, img));
}
static void same(Ctx& c, MLSGrid& g, MLSGrid& w, char const* who, bool colour) {
    for (int x = 0; x < (int)g.getCellSizeX(); ++x) for (int y = 0; y < (int)g.getCellSizeY(); ++y) {
        std::vector<P> a = read(g, x, y), b = read(w, x, y); auto lt = [](P const& p, P const& q) { return p.mean < q.mean; }; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); c.check(a.size() == b.size(), "%s: cell (%d,%d) has %zu patches instead of %zu", who, x, y, a.size(), b.size());
        for (size_t i = 0; i < a.size(); ++i) { c.check(near(a[i].mean, b[i].mean), "%s: a patch of (%d,%d) is at %g instead of %g", who, x, y, a[i].mean, b[i].mean); c.check(near(a[i].stdev, b[i].stdev, 1e-3), "%s: the patch of (%d,%d) at %g has the deviation %g instead of %g", who, x, y, a[i].mean, a[i].stdev, b[i].stdev); c.check(near(a[i].height, b[i].height, 1e-3) && a[i].isHorizontal() == b[i].isHorizontal() && a[i].isVertical() == b[i].isVertical(), "%s: a patch of (%d,%d) is of another kind", who, x, y); c.check((a[i].getColor() - b[i].getColor()).norm() < 1e-2 || !colour, "%s: a patch of (%d,%d) has another colour", who, x, y); }
    }
}
// points as seen from the surface; the last ones are outside of the grid or of the area of interest
static const double Q[][3] = { { .1, .1, 1 }, { .7, .2, -2.5 }, { 1.2, .8, 0 }, { .15, .2, 1.05 }, { .2, .3, 40 }, { -.6, .8, 8 }, { 9, 0, 0 }, { .3, -2, 0 } };
static void project(Ctx& c) {
    World w; int fm = c.choose(3, "frame of the surface"), unc = c.choose(4, "uncertain transform"); bool withU = c.flag("use uncertainty"), twin = c.flag("two clouds"); int pre = c.choose(3, "surface content"), aoi = c.choose(3, "area of interest"); double du = c.flag("default uncertainty") ? .04 : .01; if (!withU && unc) return; if (!c.thorough && ((aoi && pre) || (twin && aoi))) return;
    MLSGrid::Ptr m = new MLSGrid(4, 3, .5, .5, -.75, -.1), ref = new MLSGrid(4, 3, .5, .5, -.75, -.1); auto fill = [&](MLSGrid& g) { if (pre) g.updateCell(1, 0, P(1.02f, .1f)); if (pre == 2) g.updateCell(2, 0, P(300, .1f)); }; fill(*m); fill(*ref); w.env->attachItem(m.get()); m->setFrameNode(w.f[fm]);
    // the clouds hang below the frame of the surface, at known poses
    T cp[2] = { yaw(0, .25, -.125, 1), yaw(1.1, -.5, 2, -3) }; FrameNode* cf[2]; if (unc == 3) cp[0].translation().setZero(); for (int i = 0; i < 2; ++i) { cf[i] = new FrameNode(cp[i]); w.env->addChild(w.f[fm], cf[i]); }
    C6 cov = C6::Zero(); if (unc == 1) cov(5, 5) = .09; if (unc == 2) { cov(3, 3) = 4; cov(4, 4) = 2; cov(5, 5) = .25; } if (unc == 3) { cov(0, 0) = .01; cov(1, 1) = .04; } if (unc) cf[0]->setTransform(TransformWithUncertainty(cp[0], cov));
    MLSProjection* op = new MLSProjection; w.env->attachItem(op); op->useUncertainty(withU); op->setDefaultUncertainty(du); double lo[3] = { -5, -5, -5 }, hi[3] = { 9, 9, 9 }; if (aoi) { if (aoi == 1) { hi[0] = 1; lo[1] = .15; } else { lo[2] = -1; hi[2] = 2; } op->setAreaOfInterest(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]); }
    bool anyColor = false, smear = false; std::vector<Pointcloud::Ptr> cl; std::vector<std::pair<int, std::pair<V, double> > > all; std::vector<V> cols;
    for (int i = 0; i < (twin ? 2 : 1); ++i) { Pointcloud::Ptr p = new Pointcloud; cl.push_back(p); w.env->attachItem(p.get()); p->setFrameNode(cf[i]); int n = i ? 1 : c.choose(3, "points"), opt = i ? 0 : c.choose(3, "data"); bool col = twin ? i == 0 && opt == 1 : opt == 1; anyColor = anyColor || (col && n); for (int k = 0; k < n; ++k) { V q; V const qq(Q[c.choose(8, "point")]); q = qq; double var = opt == 2 ? .0025 * (k + 1) : du; p->vertices.push_back(cp[i].inverse() * q); if (opt == 2) p->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).push_back(var); V co(0, 0, 0); if (col) { co = V(.2 * k, 1 - .4 * k, 1); p->getVertexData<V>(Pointcloud::VERTEX_COLOR).push_back(co); } all.push_back(std::make_pair(i, std::make_pair(q, var))); cols.push_back(co); } op->addInput(p.get()); }
    op->addOutput(m.get()); c.step(); Listen l(*w.env); c.check(op->updateAll(), "the projection failed"); c.check(l.saw(m.get()), "the change is not reported"); std::set<std::pair<int, int> > hit; bool multi = false;
    for (size_t i = 0; i < all.size(); ++i) { V q = all[i].second.first; bool out = false; for (int k = 0; k < 3; ++k) out = out || (aoi && (q[k] < lo[k] || q[k] > hi[k])); int x, y; bool tie = false; if (out || !cellAt(*m, q, x, y, tie) || tie) continue; multi = multi || !hit.insert(std::make_pair(x, y)).second || (pre && x == 1 && y == 0); double add = 0; if (withU && unc && all[i].first == 0) { V ce = centre(*m, x, y); add = unc == 1 ? .09 : unc == 2 ? .25 : ce.y() * ce.y() * .01 + ce.x() * ce.x() * .04; smear = true; } P s(q.z(), std::sqrt(all[i].second.second + add)); s.setColor(cols[i]); ref->updateCell(x, y, s); }
    // where several measurements meet, the order of adding the uncertainty is open
    if (!(multi && (smear || anyColor))) same(c, *m, *ref, "projection", anyColor && !twin && !pre); c.check(m->getHasCellColor() == anyColor, "the colour flag is %d", m->getHasCellColor()); size_t k = 0; for (size_t i = 0; i < cl.size(); ++i) for (size_t j = 0; j < cl[i]->vertices.size(); ++j, ++k) c.check((cp[i] * cl[i]->vertices[j] - all[k].second.first).norm() < 1e-9, "the input changed"); c.check(cl[0]->hasData(Pointcloud::VERTEX_VARIANCE) == (!all.empty() && all[0].first == 0 && all[0].second.second != du) || cl[0]->vertices.empty(), "variances came up in the input"); c.outcome(mix(hit.size(), unc));
}
static void negative(Ctx& c) {
    World w; int n = c.thorough ? 6 : 5, ox = c.choose(n, "origin x"), oy = c.choose(3, "origin y"), px = c.choose(n, "point x"), py = c.choose(3, "point y"); static const double Z[] = { 2, .5, 0, -1.5 }; double oz = Z[c.choose(4, "origin height")], pz = Z[c.choose(4, "point height")]; bool withU = c.flag("use uncertainty"), used = c.flag("surface has content"), shifted = c.flag("cloud in another frame"); if (ox == px && oy == py) return;
    MLSGrid::Ptr m = new MLSGrid(n, 3, .5, .5, 0, 0); w.env->attachItem(m.get()); m->setFrameNode(w.f[1]); if (used) m->updateCell(px, py, P(100, .1f)); Pointcloud::Ptr p = new Pointcloud; w.env->attachItem(p.get()); T cp = shifted ? yaw(.3, 1, 2, -.7) : yaw(0, 0, 0, 0); FrameNode* cf = new FrameNode(cp); w.env->addChild(w.f[1], cf); p->setFrameNode(cf); V o(.5 * ox + .2, .5 * oy + .3, oz), q(.5 * px + .3, .5 * py + .2, pz); p->vertices.push_back(cp.inverse() * q); T so = T::Identity(); so.translation() = cp.inverse() * o; p->setSensorOrigin(so); MLSProjection* op = new MLSProjection; w.env->attachItem(op); op->useUncertainty(withU); op->useNegativeInformation(true); op->addInput(p.get()); op->addOutput(m.get()); c.step(); op->updateAll();
    int dx = px - ox, dy = py - oy, len = std::max(std::abs(dx), std::abs(dy)); std::set<int> seen;
    for (int x = 0; x < n; ++x) for (int y = 0; y < 3; ++y) { std::vector<P> v = read(*m, x, y); std::vector<P> neg; for (auto& k : v) if (k.isNegative()) neg.push_back(k); if (x == px && y == py) { c.check(neg.empty() && v.size() == 1u + used, "the cell of the point holds free space"); continue; } if (x == ox && y == oy) continue; c.check(v.size() == neg.size(), "cell (%d,%d) became occupied", x, y); if (neg.empty()) continue;
        c.check(neg.size() == 1, "cell (%d,%d) has %zu free patches", x, y, neg.size()); int major = std::abs(dx) >= std::abs(dy) ? x - ox : y - oy; double f = (double)major / (std::abs(dx) >= std::abs(dy) ? dx : dy); c.check(f > 0 && f < 1, "cell (%d,%d) is not between the origin and the point", x, y); double mx = ox + f * dx, my = oy + f * dy; c.check(std::fabs(mx - x) <= .5 + 1e-6 && std::fabs(my - y) <= .5 + 1e-6, "cell (%d,%d) is off the line", x, y); c.check(seen.insert(std::abs(major)).second, "two free cells at the same place of the line"); double ray = oz + f * (pz - oz); c.check(neg[0].mean >= ray - 1e-3 && neg[0].mean - neg[0].height <= ray + 1e-3, "the free space [%g,%g] of cell (%d,%d) misses the line of sight at %g", neg[0].mean - neg[0].height, neg[0].mean, x, y, ray); c.check(neg[0].height <= std::fabs(pz - oz) / len * 2 + .6, "the free space of cell (%d,%d) is %g high", x, y, neg[0].height); }
    c.check((int)seen.size() == len - 1, "%zu free cells on a line of %d", seen.size(), len); c.outcome(len);
}
static void classes(Ctx& c) {
    World w; int W = 1 + c.choose(2, "width"), H = 1 + c.choose(2, "height"); boost::intrusive_ptr<Grid<unsigned char> > a = new Grid<unsigned char>(W, H, 1, 1), b = new Grid<unsigned char>(W, H, c.flag("other scale") ? 2 : 1, 1); w.env->attachItem(a.get()); w.env->attachItem(b.get()); ClassProjection* op = new ClassProjection; w.env->attachItem(op); bool unknown = false; std::vector<int> v; for (int i = 0; i < W * H; ++i) { v.push_back(c.choose(4, "class")); a->getGridData()[i / W][i % W] = v[i]; } for (int i = 0; i < 3; ++i) op->class_map[i] = 200 - i; for (int k : v) unknown = unknown || k == 3; op->addInput(a.get()); op->addOutput(b.get()); bool thrown = false; try { op->updateAll(); } catch (std::runtime_error&) { thrown = true; }
    c.check(thrown == (unknown || b->getScaleX() != 1), "classes or grids without a projection: %s", thrown ? "refused" : "accepted"); if (!thrown) for (int i = 0; i < W * H; ++i) c.check(b->getGridData()[i / W][i % W] == 200 - v[i] && a->getGridData()[i / W][i % W] == v[i], "a class is projected wrong"); c.outcome(v.size());
}
int main(int argc, char** argv) {
    Engine e;
    e.add("float to mls", 1, 1, 3, false, [](Ctx& c) { if (c.flag("double")) float2mls<Grid<double> >(c); else float2mls<Grid<float> >(c); }, "all frames, geometries, bands and unknown values");
    e.add("mls to grid", 1, 1, 3, false, mls2grid, "all contents of small surfaces, all mismatching outputs");
    e.add("mls to cloud", 1, 1, 3, false, mls2cloud, "all contents of small surfaces in all frames");
    e.add("distance to cloud", 1, 1, 3, false, dist2cloud, "all small distance images with and without colours in all frames");
    e.add("projection", 1, 1, 3, false, project, "all clouds of up to two points with optional data, areas, frames and uncertain poses");
    e.add("free space", 1, 1, 2, false, negative, "all lines of sight in a small grid");
    e.add("classes", 1, 1, 2, false, classes, "all small class grids");
    return e.main(argc, argv);
}
