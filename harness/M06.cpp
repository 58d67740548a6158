// M06: merging multi-level surface grids and looking up in maps of them uses every patch where it really lies.
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/MLSMap.hpp>
#include <envire/operators/MergeMLS.hpp>
#include "mc.hpp"
#include <set>
#include <algorithm>
#include <memory>
using namespace envire; using namespace mc;
typedef SurfacePatch P; typedef Eigen::Affine3d T; typedef Eigen::Vector3d V;
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * std::max(1., std::fabs(b)); }
static T pose(double x, double y, double z, int quarter = 0) { T t = T::Identity(); double c[] = { 1, 0, -1, 0 }, s[] = { 0, 1, 0, -1 }; t.linear() << c[quarter], -s[quarter], 0, s[quarter], c[quarter], 0, 0, 0, 1; t.translation() << x, y, z; return t; }
// own conversion between positions and cells; false as soon as a rounding error could decide
struct Cell { int x, y; bool operator<(Cell const& o) const { return x < o.x || (x == o.x && y < o.y); } };
static bool cellAt(MLSGrid const& g, double x, double y, Cell& c, bool& tie) {
    double u = (x - g.getOffsetX()) / g.getScaleX(), v = (y - g.getOffsetY()) / g.getScaleY(); for (double k : { u, v }) if (std::fabs(k - std::round(k)) < 1e-6) tie = true;
    c.x = (int)std::floor(u); c.y = (int)std::floor(v); return c.x >= 0 && c.y >= 0 && c.x < (int)g.getCellSizeX() && c.y < (int)g.getCellSizeY();
}
static V centre(MLSGrid const& g, int x, int y) { return V(g.getOffsetX() + (x + .5) * g.getScaleX(), g.getOffsetY() + (y + .5) * g.getScaleY(), 0); }
static std::vector<P> read(MLSGrid& g, int x, int y) { std::vector<P> v; for (MLSGrid::iterator i = g.beginCell(x, y); i != g.endCell(); ++i) v.push_back(*i); return v; }
// measurements that make up the patches of one cell
struct Meas { float z, dev, h; int kind; float dx, dy; };          // kind 0 horizontal, 1 vertical, 2 free
static P patch(Meas const& m, float dz, size_t age, bool plane) { P p = plane ? P(Eigen::Vector3f(m.dx, m.dy, m.z + dz), m.dev) : P(m.z + dz, m.dev, m.h, m.kind == 1 ? P::VERTICAL : m.kind == 2 ? P::NEGATIVE : P::HORIZONTAL); p.update_idx = age; p.setColor(base::Vector3d(0, 0, 0)); return p; }
typedef std::vector<Meas> Group;
static std::vector<Group> const& groups() { static std::vector<Group> g = { { { .2f, .1f, 0, 0, .1f, .1f } }, { { .2f, .1f, 0, 0, .1f, .1f }, { 3.1f, .2f, 0, 0, .2f, .3f } }, { { 1.1f, .1f, 0, 0, .12f, .1f }, { 1.2f, .05f, 0, 0, .3f, .2f }, { 1.15f, .1f, 0, 0, .25f, .33f }, { 1.32f, .1f, 0, 0, .4f, .05f } }, { { 2.9f, .1f, 1.3f, 1, 0, 0 }, { -4, .1f, 0, 0, 0, 0 } }, { { 7, .2f, 2, 2, 0, 0 }, { .4f, .1f, 0, 0, 0, 0 } } }; return g; }
static void fill(MLSGrid& g, int x, int y, Group const& m, float dz, bool plane) { for (auto& k : m) g.updateCell(x, y, patch(k, dz, 3, plane)); }
static void same(Ctx& c, MLSGrid& g, MLSGrid& w, char const* who, bool slope = false) {
    for (int x = 0; x < (int)g.getCellSizeX(); ++x) for (int y = 0; y < (int)g.getCellSizeY(); ++y) {
        std::vector<P> a = read(g, x, y), b = read(w, x, y); c.check(a.size() == b.size(), "%s: cell (%d,%d) has %zu instead of %zu patches", who, x, y, a.size(), b.size());
        for (size_t i = 0; i < a.size(); ++i) { c.check(near(a[i].mean, b[i].mean), "%s: patch %zu of (%d,%d) is at %g instead of %g", who, i, x, y, a[i].mean, b[i].mean); c.check(near(a[i].height, b[i].height) && near(a[i].min, b[i].min) && near(a[i].max, b[i].max), "%s: patch %zu of (%d,%d) covers other heights: %g [%g,%g] instead of %g [%g,%g]", who, i, x, y, a[i].height, a[i].min, a[i].max, b[i].height, b[i].min, b[i].max); c.check(near(a[i].stdev, b[i].stdev, 2e-2), "%s: patch %zu of (%d,%d) has the deviation %g instead of %g", who, i, x, y, a[i].stdev, b[i].stdev); c.check(a[i].isHorizontal() == b[i].isHorizontal() && a[i].isVertical() == b[i].isVertical() && a[i].getMeasurementCount() == b[i].getMeasurementCount(), "%s: patch %zu of (%d,%d) is of another kind", who, i, x, y);
            if (slope) for (double u : { .05, .4 }) for (double v : { .1, .45 }) { double h = a[i].getHeight(Eigen::Vector2f(u, v)), k = b[i].getHeight(Eigen::Vector2f(u, v)); c.check(near(h, k, 5e-3) || (std::isnan(h) && std::isnan(k)) || a[i].n < 4, "%s: the surface of patch %zu of (%d,%d) is at %g instead of %g", who, i, x, y, h, k); } }
    }
    c.check(g.getCellCount() == w.getCellCount(), "%s: %zu patches are reported, %zu expected", who, g.getCellCount(), w.getCellCount());
}
static MLSConfiguration::update_model const U[] = { MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE };
struct Src { MLSGrid::Ptr g; std::vector<std::pair<Cell, Group> > what; };
static Src source(Ctx& c, int model, bool index, int kinds = 5) {
    Src s; s.g = new MLSGrid(3, 2, .5, .5, -.75, .25); s.g->getConfig().updateModel = U[model]; if (index) s.g->initIndex(); static const Cell C[] = { { 0, 0 }, { 2, 1 }, { 1, 1 } };
    int n = 1 + c.choose(2, "cells"); for (int i = 0; i < n; ++i) { Cell k = C[(i + c.choose(i && !c.thorough ? 1 : 3, "cell")) % 3]; bool dup = false; for (auto& w : s.what) dup = dup || (w.first.x == k.x && w.first.y == k.y); if (dup) continue; Group const& m = groups()[c.choose(model ? 3 : kinds, "content")]; fill(*s.g, k.x, k.y, m, 0, model == 2); s.what.push_back(std::make_pair(k, m)); }
    std::sort(s.what.begin(), s.what.end(), [](std::pair<Cell, Group> const& a, std::pair<Cell, Group> const& b) { return a.first < b.first; }); return s;
}
// what the patches of one source cell look like after they were shifted in height
static std::vector<P> shifted(Group const& m, float dz, int model) { MLSGrid::Ptr t = new MLSGrid(1, 1, .5, .5); t->getConfig().updateModel = U[model]; fill(*t, 0, 0, m, dz, model == 2); return read(*t, 0, 0); }
static T trans(Ctx& c, int& k) { static const double X[][3] = { { 0, 0, 0 }, { .5, 0, 2 }, { -.5, 1, -1.5 }, { .13, .21, .4 }, { 20, 0, 0 } }; k = c.choose(5, "offset"); return pose(X[k][0], X[k][1], X[k][2], c.choose(4, "quarter turns")); }
static MLSGrid::Ptr target(Ctx& c, int model, MLSGrid::Ptr& ref) {
    static const double S[][4] = { { 4, 3, .5, .5 }, { 5, 3, .25, 1 }, { 2, 2, 1.1, .9 } }; double const* s = S[c.choose(3, "target")]; MLSGrid::Ptr g[2]; int pre = c.choose(3, "target content");
    for (auto& k : g) { k = new MLSGrid(s[0], s[1], s[2], s[3], -1, -.5); k->getConfig().updateModel = U[model]; if (pre) for (int x = 0; x < s[0]; ++x) fill(*k, x, x % (int)s[1], groups()[pre - 1], pre == 2 ? 1.5f : .05f, model == 2); }
    ref = g[1]; return g[0];
}
static void merge(Ctx& c) {
    int model = c.choose(3, "model"); Src s = source(c, model, c.flag("source with index"), 4); int k; T t = trans(c, k); MLSGrid::Ptr ref, g = target(c, model, ref); if (c.flag("target with index")) g->initIndex(); bool off = c.flag("offset"); P o(off ? .7f : 0, off ? .15f : 0); o.update_idx = 9; bool had = off && c.flag("colour"), oth = off && !k && c.flag("source colour"); g->getConfig().useColor = had; s.g->getConfig().useColor = oth; c.step();
    if (model == 2 && !t.linear().isIdentity()) return;
    bool tie = false; for (auto& w : s.what) { V p = t * centre(*s.g, w.first.x, w.first.y); Cell q; if (!cellAt(*g, p.x(), p.y(), q, tie)) continue; for (P m : shifted(w.second, (float)(p.z() + o.mean), model)) { m.stdev = std::sqrt(m.stdev * m.stdev + o.stdev * o.stdev); m.update_idx = 9; m.setColor(base::Vector3d(0, 0, 0)); ref->updateCell(q.x, q.y, m); } }
    if (tie) return; size_t before = s.g->getCellCount(); g->merge(*s.g, t, o); same(c, *g, *ref, "merge", model == 2); c.check(s.g->getCellCount() == before, "the source changed"); c.check(g->getConfig().useColor == (had || oth), "the colour flag is %d", g->getConfig().useColor); bool neu = false; for (int x = 0; x < (int)g->getCellSizeX(); ++x) for (int y = 0; y < (int)g->getCellSizeY(); ++y) { std::vector<P> a = read(*g, x, y), b = read(*ref, x, y); for (size_t i = 0; i < a.size(); ++i) { c.check(a[i].update_idx == b[i].update_idx, "the age of a patch is %zu instead of %zu", (size_t)a[i].update_idx, (size_t)b[i].update_idx); neu = neu || a[i].update_idx == 9; } if (g->getIndex()) c.check(a.empty() || g->getIndex()->cells.count(GridBase::Position(x, y)), "cell (%d,%d) is not in the index", x, y); }
    c.outcome(mix(neu, g->getCellCount()));
}
static double dist(P const& a, P const& b) { double al = a.isHorizontal() ? a.mean : a.mean - a.height, bl = b.isHorizontal() ? b.mean : b.mean - b.height; if (!a.isHorizontal() && !b.isHorizontal()) return 0; return std::max(0., std::max(al - b.mean, bl - a.mean)); }
static void match(Ctx& c) {
    Src s = source(c, 0, true, 4); int k; T t = trans(c, k); MLSGrid::Ptr ref, g = target(c, 0, ref); bool off = c.flag("offset"); P o(off ? .7f : 0, off ? .15f : 0); int step = 1 + c.choose(2, "sampling"); float sigma = c.flag("wide") ? 8 : 1.5f; c.step();
    bool tie = false; int idx = 0, n = 0, hit = 0; for (auto& w : s.what) { if (idx++ % step) continue; V p = t * centre(*s.g, w.first.x, w.first.y); Cell q; if (!cellAt(*g, p.x(), p.y(), q, tie)) continue; ++n; bool any = false; for (P m : shifted(w.second, (float)(p.z() + o.mean), 0)) for (P& r : read(*ref, q.x, q.y)) { double d = dist(r, m), lim = std::sqrt(m.stdev * m.stdev + o.stdev * o.stdev + r.stdev * r.stdev) * sigma; if (std::fabs(d - lim) < 1e-4) tie = true; any = any || d < lim; } hit += any; }
    if (tie) return; float r = g->match(*s.g, t, o, step, sigma); c.check(near(r, n ? (double)hit / n : 1, 1e-5), "%g of the cells match instead of %d of %d", r, hit, n); same(c, *g, *ref, "match"); MLSGrid::Ptr no = s.g->clone(); *no = MLSGrid(3, 2, .5, .5); bool thrown = false; try { g->match(*no, t, o, step, sigma); } catch (std::exception&) { thrown = true; } c.check(thrown, "a source without index was accepted"); c.outcome(mix(hit, n));
}
// the operator that merges grids and maps of grids of an environment
struct Listener : public EventHandler { std::set<EnvironmentItem*> modified; void handle(Event const& e) { if (e.type == event::ITEM && e.operation == event::UPDATE) modified.insert(e.a.get()); } };
struct Listen { Environment& e; Listener l; Listen(Environment& e) : e(e) { e.addEventHandler(&l); l.modified.clear(); } ~Listen() { e.removeEventHandler(&l); } bool saw(EnvironmentItem* i) { return l.modified.count(i) != 0; } };
static void op(Ctx& c) {
    bool reverse = c.flag("reverse"); int how = c.choose(3, "inputs"); Environment env; FrameNode* f[4] = { env.getRootNode(), new FrameNode(pose(3, -2, .75, 1)), new FrameNode(pose(-.6, .3, -1.25)), new FrameNode(pose(.1, .2, .3, 2)) }; env.addChild(f[0], f[1]); env.addChild(f[1], f[2]); env.addChild(f[2], f[3]); int fo = c.choose(4, "frame of the output"), fi = c.choose(4, "frame of the input"), model = reverse ? 0 : c.choose(2, "model");
    T abs[4]; abs[0] = T::Identity(); abs[1] = pose(3, -2, .75, 1); abs[2] = abs[1] * pose(-.6, .3, -1.25); abs[3] = abs[2] * pose(.1, .2, .3, 2);
    Src s = source(c, model, false, 4); std::vector<std::pair<Src, int> > in(1, std::make_pair(s, fi)); if (how) { Src b; b.g = new MLSGrid(2, 2, .4, .6, -.5, -.5); b.g->getConfig().updateModel = U[model]; Cell k = { 1, 0 }; fill(*b.g, 1, 0, groups()[1], 0, false); b.what.push_back(std::make_pair(k, groups()[1])); in.push_back(std::make_pair(b, (fi + 1) % 4)); }
    // the output lies where the input is
    T rel = abs[fo].inverse() * abs[fi]; V mid = rel * centre(*s.g, 1, 1); MLSGrid::Ptr g[2]; for (auto& k : g) { k = new MLSGrid(reverse ? 9 : 6, reverse ? 8 : 6, reverse ? .23 : .5, reverse ? .21 : .47, mid.x() - 1.13, mid.y() - 1.17); k->getConfig().updateModel = U[model]; }
    for (auto& k : in) env.attachItem(k.first.g.get(), f[k.second]); env.attachItem(g[0].get(), f[fo]); MergeMLS* o = new MergeMLS; env.attachItem(o); o->setReverse(reverse); c.step();
    if (how == 2) { MLSMap* m = new MLSMap; env.attachItem(m, f[2]); for (auto& k : in) m->addGrid(k.first.g); o->addInput(m); } else for (auto& k : in) o->addInput(k.first.g.get()); o->addOutput(g[0].get());
    bool tie = false; MLSGrid& ref = *g[1]; std::map<Cell, int> from; auto once = [&](Cell q, int i) { if (from.count(q) && from[q] != i) tie = true; from[q] = i; };   // the order of the inputs is not specified
    if (!reverse) for (auto& k : in) for (auto& w : k.first.what) { T r = abs[fo].inverse() * abs[k.second]; V p = r * centre(*k.first.g, w.first.x, w.first.y); Cell q; if (cellAt(ref, p.x(), p.y(), q, tie)) { once(q, &k - &in[0]); for (P m : shifted(w.second, (float)p.z(), model)) ref.updateCell(q.x, q.y, m); } }
    else for (int x = 0; x < (int)ref.getCellSizeX(); ++x) for (int y = 0; y < (int)ref.getCellSizeY(); ++y) for (auto& k : in) { T r = abs[k.second].inverse() * abs[fo]; V p = r * centre(ref, x, y); Cell q; if (!cellAt(*k.first.g, p.x(), p.y(), q, tie)) continue; for (auto& w : k.first.what) if (w.first.x == q.x && w.first.y == q.y) { Cell t = { x, y }; once(t, &k - &in[0]); for (P m : shifted(w.second, (float)-p.z(), model)) ref.updateCell(x, y, m); } }
    if (tie) return; size_t cnt = s.g->getCellCount(); { Listen l(env); c.check(o->updateAll(), "the operator failed"); c.check(l.saw(g[0].get()) && !l.saw(s.g.get()), "the change of the output, and of nothing else, has to be reported"); } same(c, *g[0], ref, "operator"); { bool thrown = false; o->removeOutputs(); try { o->updateAll(); } catch (std::runtime_error&) { thrown = true; } c.check(thrown, "merging without output succeeded"); } c.check(s.g->getCellCount() == cnt, "the source changed"); c.outcome(mix(g[0]->getCellCount(), reverse));
}
// maps of several grids
struct World {
    std::unique_ptr<Environment> env; FrameNode::Ptr f[3]; MLSMap::Ptr m[2]; struct G { MLSGrid::Ptr g; }; std::vector<MLSGrid::Ptr> list[2]; MLSGrid::Ptr act[2];
};
static T absolute(FrameNode const* n) { T t = T::Identity(); for (; n; n = n->getParent()) t = T(n->getTransform()) * t; return t; }
static void judge(Ctx& c, World& w) {
    for (int i = 0; i < 2; ++i) {
        if (!w.m[i].get()) continue; MLSMap& m = *w.m[i]; c.check(m.getActiveGrid().get() == w.act[i].get(), "map %d: another grid is active", i); c.check(m.getGrids().size() == w.list[i].size() && std::equal(w.list[i].begin(), w.list[i].end(), m.getGrids().begin()), "map %d: the list of grids is wrong (%zu instead of %zu)", i, m.getGrids().size(), w.list[i].size());
        std::set<Layer*> kids, want; for (Layer* l : w.env->getChildren(&m)) kids.insert(l); for (auto& g : w.list[i]) want.insert(g.get()); c.check(kids == want, "map %d: the children in the environment differ from the grids", i);
        T base = absolute(m.getFrameNode()); bool rot = false; Eigen::AlignedBox<double, 2> box; for (auto& g : w.list[i]) { T r = base.inverse() * absolute(g->getFrameNode()); rot = rot || !r.linear().isIdentity(1e-9); Eigen::Vector2d lo(g->getOffsetX(), g->getOffsetY()), hi = lo + Eigen::Vector2d(g->getCellSizeX() * g->getScaleX(), g->getCellSizeY() * g->getScaleY()); auto e = g->getExtents(); e.translate(Eigen::Vector2d(r.translation().head<2>())); if (!e.isEmpty()) box.extend(e); }
        if (!rot) { auto e = m.getExtents(); c.check(e.isEmpty() == box.isEmpty() && (box.isEmpty() || (e.min().isApprox(box.min(), 1e-6) && e.max().isApprox(box.max(), 1e-6))), "map %d: the extents are (%g,%g)-(%g,%g)", i, e.min()[0], e.min()[1], e.max()[0], e.max()[1]); }
        // look-ups everywhere
        std::vector<std::pair<MLSGrid*, T> > rel; for (auto& g : w.list[i]) rel.push_back(std::make_pair(g.get(), T(absolute(g->getFrameNode()).inverse() * base)));
        for (double x = -2.63; x < 3; x += c.thorough ? .61 : .93) for (double y = -1.87; y < 2; y += c.thorough ? .73 : .97) for (double z : { -1.1, .2, 1.05 }) {
            std::vector<double> ok; bool tie = false; for (auto& gr : rel) { MLSGrid* g = gr.first; T const& r = gr.second; V p = r * V(x, y, z); Cell k; if (!cellAt(*g, p.x(), p.y(), k, tie)) continue; for (P& q : read(*g, k.x, k.y)) { double d = dist(q, P(p.z(), .1f)), lim = 3 * std::sqrt(.01 + q.stdev * q.stdev); if (std::fabs(d - lim) < 1e-3) tie = true; if (d < lim && !q.isNegative()) ok.push_back(q.mean - r.translation().z()); } }
            if (tie) continue; P q(z, .1f); bool hit = m.getPatch(Point(x, y, z), q); c.check(hit == !ok.empty(), "map %d: the patch at (%g,%g,%g) was %s", i, x, y, z, hit ? "made up" : "not found"); if (hit) { bool any = false; for (double v : ok) any = any || near(v, q.mean); c.check(any, "map %d: the patch at (%g,%g,%g) is reported at the height %g", i, x, y, z, q.mean); }
        }
    }
}
static void map(Ctx& c) {
    World w; w.env.reset(new Environment); Environment& env = *w.env; w.f[0] = new FrameNode(pose(.5, -1, .3)); w.f[1] = new FrameNode(pose(-1, .25, -.9)); w.f[2] = new FrameNode(pose(.2, .1, .2, 1)); env.addChild(env.getRootNode(), w.f[0].get()); env.addChild(w.f[0].get(), w.f[1].get()); env.addChild(env.getRootNode(), w.f[2].get());
    w.m[0] = new MLSMap; env.attachItem(w.m[0].get(), w.f[c.choose(2, "frame of the map")].get()); int serial = 0;
    auto grid = [&](int f) { MLSGrid::Ptr g = new MLSGrid(4, 3, .5, .5, -1, -.75); g->getConfig().gapSize = .4f + .1f * serial; env.attachItem(g.get(), w.f[f].get()); fill(*g, 1, 1, groups()[serial++ % 2], serial * .1f, false); return g; };
    { MLSGrid::Ptr g = grid(0); w.m[0]->addGrid(g); w.list[0].push_back(g); w.act[0] = g; } judge(c, w);
    for (int s = 0; s < c.bound; ++s) {
        std::vector<std::function<void ()> > op; std::vector<std::string> nm; auto add = [&](std::string n, std::function<void ()> f) { nm.push_back(n); op.push_back(f); };
        int t = w.m[1].get() ? c.choose(2, "map") : 0; MLSMap& m = *w.m[t]; std::vector<MLSGrid::Ptr>& l = w.list[t];
        for (int f = 1; f < 3; ++f) add("add a grid in frame " + std::to_string(f), [&, f, t] { MLSGrid::Ptr g = grid(f); m.addGrid(g); l.push_back(g); w.act[t] = g; });
        auto made = [&, t](T const& wantAbs, FrameNode* ref, bool aligned, T const& asked, MLSGrid::Ptr old, FrameNode* parent) {
            c.check(m.getGrids().size() == l.size() + 1, "no grid was created"); MLSGrid::Ptr g = m.getGrids().back(); c.check(m.getActiveGrid().get() == g.get() && g.get() != old.get(), "the new grid is not active"); c.check(g->getCellSizeX() == old->getCellSizeX() && g->getCellSizeY() == old->getCellSizeY() && g->getScaleX() == old->getScaleX() && g->getScaleY() == old->getScaleY() && g->getOffsetX() == old->getOffsetX() && g->getOffsetY() == old->getOffsetY() && g->getConfig().gapSize == old->getConfig().gapSize && g->empty(), "the new grid is not like the active one"); for (auto& o : l) c.check(o->getUniqueId() != g->getUniqueId(), "two grids have the same id");
            T r = absolute(ref).inverse() * absolute(g->getFrameNode()); if (!aligned) c.check(r.isApprox(asked, 1e-9), "the new grid is at (%g,%g,%g)", r.translation().x(), r.translation().y(), r.translation().z()); else { c.check(r.linear().isIdentity(1e-9), "the aligned grid is rotated"); for (int k = 0; k < 2; ++k) { double sc = k ? g->getScaleY() : g->getScaleX(), u = r.translation()[k] / sc, d = asked.translation()[k] / sc - u; c.check(std::fabs(u - std::round(u)) < 1e-6 && std::fabs(d) < 1 + 1e-6, "the aligned grid is shifted by %g cells, %g cells away", u, d); } c.check(near(r.translation().z(), asked.translation().z()), "the aligned grid is at height %g", r.translation().z()); }
            c.check(g->getFrameNode() != old->getFrameNode() && g->getFrameNode() != m.getFrameNode(), "the new grid has no frame of its own"); fill(*g, 2, 1, groups()[1], .35f, false); l.push_back(g); w.act[t] = g; };
        for (int k = 0; k < 4; ++k) { bool rel = k & 1, al = k & 2; add(std::string("create a grid ") + (rel ? "relative to the active one" : "relative to the map") + (al ? ", aligned" : ""), [&, rel, al, t, made] { T a = pose(.6, -1.1, .45, al ? 1 : 0); MLSGrid::Ptr old = w.act[t]; FrameNode* ref = rel ? old->getFrameNode() : m.getFrameNode(); m.createGrid(a, rel, al); made(a, ref, al, a, old, ref); }); }
        for (int f = 0; f < 3; ++f) for (int k = 0; k < 2; ++k) add(std::string("select the grid at frame ") + std::to_string(f) + (k ? ", aligned" : ""), [&, f, k, t, made] {
            double best = .8; MLSGrid::Ptr b; bool tie = false; for (auto& g : l) { T r = absolute(w.f[f].get()).inverse() * absolute(g->getFrameNode()), q = absolute(g->getFrameNode()).inverse() * absolute(w.f[f].get()); double d = std::max(std::fabs(q.translation().x()), std::fabs(q.translation().y())); (void)r; if (std::fabs(d - best) < 1e-6) tie = true; if (d < best) { best = d; b = g; } } if (tie) return;
            MLSGrid::Ptr old = w.act[t]; T asked = absolute(old->getFrameNode()).inverse() * absolute(w.f[f].get()); m.selectActiveGrid(w.f[f].get(), .8, k); if (b.get()) { c.check(m.getActiveGrid().get() == b.get() && m.getGrids().size() == l.size(), "another grid than the nearest one is active"); w.act[t] = b; } else made(asked, old->getFrameNode(), k, asked, old, 0); });
        for (int f = 0; f < 2; ++f) add("move frame " + std::to_string(f), [&, f] { T q = T(w.f[f]->getTransform()); q.translation() += Eigen::Vector3d(.37, -.53, .41); w.f[f]->setTransform(q); });
        add("change a patch", [&, t] { MLSGrid& g = *l[0]; g.clear(); fill(g, 2, 2, groups()[0], .6f, false); });
        add("remove the oldest grid", [&, t] { if (l.size() < 2 || w.act[t].get() == l[0].get()) return; MLSGrid::Ptr g = l[0]; env.removeChild(&m, g.get()); m.getGrids().erase(m.getGrids().begin()); l.erase(l.begin()); });
        if (!w.m[1].get()) { add("deep copy", [&] { MLSMap* k = w.m[0]->cloneDeep(); w.m[1] = k; c.check(k->getEnvironment() == &env && k->getUniqueId() != w.m[0]->getUniqueId(), "the copy is not attached under its own id"); c.check(k->getFrameNode() == w.m[0]->getFrameNode(), "the copy is in another frame"); w.list[1] = k->getGrids(); w.act[1] = k->getActiveGrid(); c.check(w.list[1].size() == w.list[0].size() && w.act[1].get() != w.act[0].get(), "the active grid was not copied"); for (size_t i = 0; i < w.list[0].size(); ++i) c.check(w.list[0][i].get() == w.act[0].get() ? w.list[1][i].get() == w.act[1].get() : w.list[1][i].get() == w.list[0][i].get(), "the copy has other grids"); same(c, *w.act[1], *w.act[0], "copied grid"); c.check(w.act[1]->getFrameNode() == w.act[0]->getFrameNode() && w.act[1]->getUniqueId() != w.act[0]->getUniqueId(), "the copied grid is in another frame"); });
            add("second map", [&] { w.m[1] = new MLSMap; env.attachItem(w.m[1].get(), w.f[0].get()); MLSGrid::Ptr g = grid(1); w.m[1]->addGrid(g); w.list[1].push_back(g); w.act[1] = g; }); }
        else { add("assign the other map", [&, t] { *w.m[t] = *w.m[1 - t]; w.list[t] = w.list[1 - t]; w.act[t] = w.act[1 - t]; }); }
        int k = c.choose(op.size(), "operation"); c.note("%s", nm[k].c_str()); c.step(); op[k](); judge(c, w);
        uint64_t h = w.list[0].size() * 7 + w.list[1].size(); for (int i = 0; i < 2; ++i) for (auto& g : w.list[i]) { T a = absolute(g->getFrameNode()); h = mix(h, (uint64_t)std::llround(a.translation().x() * 1000) * 31 + std::llround(a.translation().y() * 1000) * 7 + std::llround(a.translation().z() * 1000) + std::llround(a.linear()(0, 0) * 3)); h = mix(h, g->getCellCount() + 100 * (g.get() == w.act[i].get())); } c.outcome(h);
    }
}
int main(int argc, char** argv) {
    Engine e;
    e.add("merge", 1, 1, 3, false, merge, "all contents, transformations, targets, models and offsets"); e.add("match", 1, 1, 3, false, match, "the same for the matching ratio");
    e.add("operator", 1, 1, 3, false, op, "all frames of input and output, forward and reverse, grids and maps as input");
    e.add("map", 3, 4, 2, false, map, "all histories of adding, creating, selecting, moving, removing grids and copying maps");
    return e.main(argc, argv);
}
