// O04: the drivable area found from a start position.
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/TraversabilityGrassfire.hpp>
#include "mc.hpp"
#include <Eigen/QR>
#include <memory>
#include <set>
using namespace envire; using namespace mc;
typedef SurfacePatch P; typedef TraversabilityGrid TG; typedef Eigen::Vector3d V; typedef TraversabilityGrassfire GF;
struct Listener : public EventHandler { std::set<EnvironmentItem*> modified; void handle(Event const& e) { if (e.type == event::ITEM && e.operation == event::UPDATE) modified.insert(e.a.get()); } };
struct Listen { Environment& e; Listener l; Listen(Environment& e) : e(e) { e.addEventHandler(&l); l.modified.clear(); } ~Listen() { e.removeEventHandler(&l); } bool saw(EnvironmentItem* i) { return l.modified.count(i) != 0; } };
struct Item { double mean, dev; int n; P::TYPE type; double top() const { return mean + dev; } double bottom() const { return mean - dev; } };
typedef std::vector<Item> Content;
struct Scene { int W, H; double sx, sy; std::vector<Content> c; GF::Config k; Scene(int W, int H, double sx = .5, double sy = 1) : W(W), H(H), sx(sx), sy(sy), c(W * H) { k.maxStepHeight = .2; k.maxSlope = .5; k.robotHeight = 1; k.numTraversabilityClasses = 3; k.numNominalMeasurements = 255; k.outliertFilterMinMeasurements = 5; k.outliertFilterMaxStdDev = .5; }
    bool solid(Item const& i) const { return i.type != P::NEGATIVE && !(i.n < k.outliertFilterMinMeasurements && i.dev > k.outliertFilterMaxStdDev); } };
// the surfaces of a cell that may be taken for the one met at the given height, and whether it can be driven on
struct Met { std::set<int> patch; bool drivable; };
static Met meet(Scene const& s, int cell, double h) {
    Met m; m.drivable = false; int best = -1; double d = 1e9; auto& v = s.c[cell];
    for (size_t i = 0; i < v.size(); ++i) { Item const& p = v[i]; if (!s.solid(p) || p.bottom() > h + s.k.robotHeight + s.k.maxStepHeight) continue; for (double l : { s.k.robotHeight, s.k.maxStepHeight }) if (p.bottom() < h + l && p.top() > h + l) m.patch.insert(i); if (std::fabs(p.top() - h) < d) { d = std::fabs(p.top() - h); best = i; } }
    if (best < 0 || !m.patch.empty()) return m;
    while (true) { double f = v[best].top(); if (f - h > s.k.maxStepHeight) { m.patch.insert(best); return m; } int up = -1; for (size_t i = 0; i < v.size(); ++i) if (s.solid(v[i]) && v[i].bottom() > f && v[i].bottom() - f < s.k.robotHeight) { up = i; break; } if (up < 0) break; best = up; }
    m.patch.insert(best); m.drivable = true; return m;
}
static const int NONE = -1;
// what was chosen is what can be reached from the start
static bool explains(Scene const& s, std::vector<int> const& chosen, int start, std::string& why) {
    int N = s.W * s.H; auto nb = [&](int i, std::vector<int>& r) { r.clear(); for (int v = -1; v <= 1; ++v) for (int u = -1; u <= 1; ++u) { int x = i % s.W + u, y = i / s.W + v; if ((u || v) && x >= 0 && y >= 0 && x < s.W && y < s.H) r.push_back(y * s.W + x); } };
    std::vector<char> seen(N, 0), may(N, 0), must(N, 0); std::vector<int> r, r2, todo(1, start); seen[start] = may[start] = must[start] = 1; char buf[200];
    while (!todo.empty()) { int i = todo.back(); todo.pop_back(); nb(i, r); double h = s.c[i][chosen[i]].top(); for (int j : r) if (chosen[j] != NONE && j != start) { Met m = meet(s, j, h); if (m.patch.count(chosen[j])) { seen[j] = 1; if (m.drivable && !may[j]) { may[j] = 1; todo.push_back(j); } } } }
    for (int i = 0; i < N; ++i) if (chosen[i] != NONE && !seen[i]) { snprintf(buf, sizeof buf, "surface %d of cell (%d,%d) can not be reached", chosen[i], i % s.W, i / s.W); why = buf; return false; }
    for (int i = 0; i < N; ++i) if (may[i] && i != start) { nb(i, r); must[i] = 1; for (int j : r) if (may[j]) { Met m = meet(s, i, s.c[j][chosen[j]].top()); if (!m.drivable || !m.patch.count(chosen[i])) must[i] = 0; } }
    for (int i = 0; i < N; ++i) if (must[i]) { nb(i, r); for (int j : r) if (chosen[j] == NONE) { nb(j, r2); bool all = true; for (int q : r2) if (may[q] && meet(s, j, s.c[q][chosen[q]].top()).patch.empty()) all = false; if (all) { snprintf(buf, sizeof buf, "cell (%d,%d) next to (%d,%d) was not reached", j % s.W, j / s.W, i % s.W, i / s.W); why = buf; return false; } } }
    return true;
}
struct World { std::unique_ptr<Environment> env; MLSGrid::Ptr m; TG::Ptr g; GF* op; };
static void build(World& w, Scene const& s, bool own = true) { w.env.reset(new Environment); w.m = new MLSGrid(s.W, s.H, s.sx, s.sy); w.g = new TG(s.W, s.H, s.sx, s.sy); w.env->attachItem(w.m.get()); w.env->attachItem(w.g.get()); for (int i = 0; i < s.W * s.H; ++i) for (auto& k : s.c[i]) { P p(k.mean, k.dev, k.type == P::NEGATIVE ? 1 : 0, k.type); p.n = k.n; w.m->insertTail(i % s.W, i / s.W, p); } w.op = new GF; w.env->attachItem(w.op); w.op->addInput(w.m.get()); w.op->addOutput(w.g.get()); w.op->setConfig(s.k); }
static void judge(Ctx& c, Scene const& s, World& w, int sx, int sy, double h, char const* who) {
    int N = s.W * s.H; std::vector<int> chosen(N, NONE), cls(N);
    for (int i = 0; i < N; ++i) { int x = i % s.W, y = i / s.W; double p = w.g->getProbability(x, y); cls[i] = w.g->getFromRaster(TG::TRAVERSABILITY, x, y); c.check(cls[i] >= 0 && cls[i] <= 1 + s.k.numTraversabilityClasses, "%s: cell (%d,%d) has class %d", who, x, y, cls[i]); if (p == 0) continue; double best = 1; for (size_t k = 0; k < s.c[i].size(); ++k) { double e = std::min(1., double(s.c[i][k].n) / s.k.numNominalMeasurements); if (s.solid(s.c[i][k]) && std::fabs(e - p) < best) { best = std::fabs(e - p); chosen[i] = k; } } c.check(chosen[i] != NONE && best < 1. / 255, "%s: cell (%d,%d) has probability %g", who, x, y, p); }
    // the start: nearest surface in the first ring around the position that has one
    std::set<int> starts; for (int ring = 0; ring < 10 && starts.empty(); ++ring) { double d = 1e9; for (int k = 0; k < N; ++k) { int x = k % s.W, y = k / s.W; if (std::max(std::abs(x - sx), std::abs(y - sy)) != ring) continue; Met m = meet(s, k, h); for (int q : m.patch) { double e = std::fabs(s.c[k][q].top() - h); if (e < d - 1e-6) { d = e; starts.clear(); } if (e < d + 1e-6) starts.insert(k); } if (m.patch.size() > 1) starts.insert(k); } }
    std::string why = "no start"; bool ok = false; for (int k : starts) { if (chosen[k] == NONE || !meet(s, k, h).patch.count(chosen[k])) { if (starts.size() == 1) why = "it did not start at the nearest surface"; continue; } if (explains(s, chosen, k, why)) { ok = true; break; } } c.check(ok, "%s: %s", who, why.c_str());
    for (int i = 0; i < N; ++i) {
        int x = i % s.W, y = i / s.W; if (chosen[i] == NONE) { c.check(cls[i] == 0, "%s: cell (%d,%d) was not reached but has class %d", who, x, y, cls[i]); continue; } double t = s.c[i][chosen[i]].top(); std::vector<V> pts(1, V(0, 0, 0)); bool step = false, tie = false;
        for (int v = -1; v <= 1; ++v) for (int u = -1; u <= 1; ++u) { int a = x + u, b = y + v; if ((!u && !v) || a < 0 || b < 0 || a >= s.W || b >= s.H || chosen[b * s.W + a] == NONE) continue; double o = s.c[b * s.W + a][chosen[b * s.W + a]].top(), d = std::fabs(o - t) - s.k.maxStepHeight; if (std::fabs(d) < 1e-5) tie = true; else if (d > 0) step = true; pts.push_back(V(u * s.sx, v * s.sy, t - o)); }
        if (tie) continue; std::set<int> want; if (step) want.insert(1); else if (pts.size() < 6) want.insert(0); else { Eigen::MatrixXd A(pts.size(), 3); Eigen::VectorXd b(pts.size()); for (size_t k = 0; k < pts.size(); ++k) { A.row(k) << pts[k].x(), pts[k].y(), 1; b[k] = pts[k].z(); } Eigen::VectorXd f = A.colPivHouseholderQr().solve(b); double slope = std::atan(std::hypot(f[0], f[1])); for (double e : { -1e-4, 1e-4 }) { double q = 1 - slope / s.k.maxSlope + e - 1e-5; want.insert(q <= 0 ? 1 : std::min(1 + s.k.numTraversabilityClasses, 1 + int(std::ceil(q * s.k.numTraversabilityClasses)))); } }
        c.check(want.count(cls[i]), "%s: cell (%d,%d) has class %d instead of %d", who, x, y, cls[i], *want.begin());
    }
    for (int i = 0; i <= 1 + s.k.numTraversabilityClasses; ++i) { double e = i == 0 ? 1 : i == 1 ? 0 : double(i - 1) / s.k.numTraversabilityClasses; c.check(w.g->getTraversabilityClass(i).isSet() && std::fabs(w.g->getTraversabilityClass(i).getDrivability() - e) < 1e-9, "%s: class %d has drivability %g instead of %g", who, i, w.g->getTraversabilityClass(i).getDrivability(), e); }
    uint64_t hsh = 7; for (int i = 0; i < N; ++i) hsh = mix(hsh, cls[i] * 8 + chosen[i] + 1); c.outcome(hsh);
}
static void run(Ctx& c, Scene const& s, World& w, int sx, int sy, double h, char const* who) { // start given relative to the map
    V p((sx + .5) * s.sx, (sy + .5) * s.sy, h); w.op->setStartPosition(w.env->relativeTransform(w.m->getFrameNode(), w.env->getRootNode()) * p);
    for (auto& b : { TG::TRAVERSABILITY, TG::PROBABILITY }) { auto& a = w.g->getGridData(b); std::fill(a.data(), a.data() + a.num_elements(), 99); }
    Listen l(*w.env); bool r = w.op->updateAll(), any = false; for (int i = 0; i < s.W * s.H; ++i) if (std::max(std::abs(i % s.W - sx), std::abs(i / s.W - sy)) < 10 && !meet(s, i, h).patch.empty()) any = true;
    c.check(r == any, "%s: the operator %s", who, r ? "succeeded without a start" : "failed"); if (r) { c.check(l.saw(w.g.get()), "%s: the change is not reported", who); judge(c, s, w, sx, sy, h, who); }
    int n = 0; for (int i = 0; i < s.W * s.H; ++i) { auto it = w.m->beginCell(i % s.W, i / s.W); for (auto& k : s.c[i]) { c.check(it != w.m->endCell() && std::fabs(it->getMean() - k.mean) < 1e-6 && it->getMeasurementCount() == unsigned(k.n), "%s: the input changed", who); ++it; ++n; } c.check(it == w.m->endCell(), "%s: the input grew", who); }
}
static Item S(double m, double d, int n, P::TYPE t = P::HORIZONTAL) { return Item{ m, d, n, t }; }
// 0 ground, 1 small step, 2 nothing, 3 high step, 4 deck with room, 5 deck without room, 6 wall, 7 free space, 8 outlier, 9 far above, 10 pit, 11 free space and ground, 12 outlier below the ground, 13 hanging block at head height, 14 two decks close to another
static Content const& content(int k) { static const std::vector<Content> v = { { S(0, .02, 20) }, { S(.15, .01, 30) }, {}, { S(.33, .01, 40) }, { S(0, .02, 50), S(1.6, .1, 60) }, { S(.6, .05, 70), S(.01, .02, 80) }, { S(.6, .6, 90) }, { S(0, .1, 100, P::NEGATIVE) }, { S(.1, .8, 3) }, { S(4, .1, 110) }, { S(-1.7, .1, 120) }, { S(.05, .1, 130, P::NEGATIVE), S(.06, .01, 140) }, { S(-.1, .7, 4), S(.03, .01, 150) }, { S(0, .02, 160), S(.95, .3, 170) }, { S(2.9, .05, 180), S(1.7, .05, 190), S(.02, .01, 200) } }; return v[k]; }
static void layer(Ctx& c) {
    static const int A[][3] = { { 0, 1, 2 }, { 0, 1, 3 }, { 0, 3, 2 }, { 0, 4, 5 }, { 1, 13, 14 }, { 0, 6, 10 } }; int a = c.choose(c.thorough ? 6 : 5, "alphabet"), st = c.choose(c.thorough ? 3 : 2, "start"); Scene s(3, 3); for (int i = 0; i < 9; ++i) s.c[i] = content(A[a][c.choose(3, "cell")]); c.step(); World w; build(w, s); run(c, s, w, st == 1 ? 1 : 0, st == 1 ? 1 : st, st ? .03 : a == 3 ? 1.65 : .11, "update");
}
static void special(Ctx& c) {
    static const int Z[][2] = { { 4, 3 }, { 3, 5 }, { 5, 4 } }; int z = c.choose(c.thorough ? 3 : 2, "size"), W = Z[z][0], H = Z[z][1], base = c.choose(4, "base"); Scene s(W, H, z ? 1 : .5, .5);
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) s.c[y * W + x].push_back(S(base == 0 ? 0 : base == 1 ? .0607 * x - .0303 * y : base == 2 ? .0203 * x * x + .0311 * ((x * 7 + y * 3) % 4) : .1437 * x + .0219 * y, .03, 210 + (x + 2 * y) % 5));
    int a = c.choose(W * H, "cell"); s.c[a] = content(c.choose(15, "content")); int b = (a + 1 + c.choose(c.thorough ? W * H - 1 : 3, "cell") * (c.thorough ? 1 : z + 1)) % (W * H); if (b != a) { int k = c.thorough ? c.choose(15, "content") : (c.choose(5, "content") * 3 + a + b) % 15; s.c[b] = content(k); } int st = c.choose(3, "start"), v = c.choose(c.thorough ? 3 : 2, "height"); c.step(); World w; build(w, s); run(c, s, w, st == 0 ? 0 : st == 1 ? W / 2 : W - 1, st == 0 ? 0 : st == 1 ? H / 2 : 0, v == 0 ? .07 : v == 1 ? 1.63 : -.4, "update");
}
static void ring(Ctx& c) { // the start has to be searched for, in any frame, repeatedly
    int kind = c.choose(4, "size"), W = kind == 0 ? 5 : kind == 1 ? 3 : kind == 2 ? 12 : 1, H = kind == 0 ? 4 : kind == 1 ? 5 : kind == 2 ? 1 : 12, fr = c.choose(4, "frame"); Scene s(W, H, .5, .25); int a = c.choose(W * H, "cell"), b = c.choose(W * H, "cell"), ka = c.choose(4, "content"), kb = c.thorough ? c.choose(3, "content") : (a + 2 * b) % 3, st = c.choose(W * H, "start"); static const int K[] = { 0, 3, 9, 4 }; s.c[a] = content(K[ka]); if (b != a) s.c[b] = content(K[kb]); bool again = c.thorough ? c.flag("again") : (a + b + st) % 3 == 0; c.step();
    World w; build(w, s); if (fr) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); t.translation() << 3.3, -2.7, fr == 2 ? -1.45 : 5; if (fr > 1) t.linear() = Eigen::AngleAxisd(fr == 2 ? 1.1 : -2.5, V::UnitZ()).toRotationMatrix(); FrameNode* f = new FrameNode(t); w.env->addChild(w.env->getRootNode(), f); if (fr == 3) { Eigen::Affine3d u = Eigen::Affine3d::Identity(); u.translation() << 1, 2, -.5; u.linear() = Eigen::AngleAxisd(.4, V::UnitX()).toRotationMatrix(); FrameNode* g = new FrameNode(u); w.env->addChild(f, g); f = g; } w.m->setFrameNode(f); w.g->setFrameNode(f); }
    run(c, s, w, st % W, st / W, .04, "update"); if (again) { int q = (st * 5 + 3) % (W * H); run(c, s, w, q % W, q / W, 1.2, "second update"); }
}
static void limits(Ctx& c) {
    int step = c.choose(5, "step"), slope = c.choose(4, "slope"), n = 1 + c.choose(5, "classes"), nom = c.choose(4, "nominal"), pat = c.choose(4, "heights"), hole = c.choose(10, "hole"), o = c.choose(2, "outliers"); static const double ST[] = { 0, .11, .31, .62, 5 }, SL[] = { .1, .35, .8, 1.4 }; static const int NM[] = { 1, 7, 30, 255 }; Scene s(3, 3, .5, .5); s.k.maxStepHeight = ST[step]; s.k.maxSlope = SL[slope]; s.k.numTraversabilityClasses = n; s.k.numNominalMeasurements = NM[nom]; s.k.outliertFilterMinMeasurements = o ? 8 : 0; s.k.outliertFilterMaxStdDev = o ? .005 : 0;
    for (int i = 0; i < 9; ++i) if (i != hole) { int x = i % 3, y = i / 3; s.c[i].push_back(S(pat == 0 ? .001 * i : pat == 1 ? .05 * x : pat == 2 ? .2 * y - .1 * x : .45 * x + .03 * y, .01, 3 + (i * 5) % 11)); } c.step(); World w; build(w, s); run(c, s, w, 1, 1, .1, "update");
}
static void errors(Ctx& c) {
    int m = c.choose(8, "mistake"), W = 1 + c.choose(3, "width"), H = 1 + c.choose(3, "height"); Scene s(W, H); for (auto& k : s.c) k = content(0); c.step(); World w; build(w, s); bool th = false, r = true; TG::Ptr g; V p(.1, .1, 0);
    if (m == 0) w.op->removeInputs(); if (m == 1) w.op->removeOutputs(); if (m == 2 || m == 3) { w.op->removeOutputs(); g = new TG(W + (m == 2), H + (m == 3), s.sx, s.sy); w.env->attachItem(g.get()); w.op->addOutput(g.get()); } if (m == 4) p.x() = -.1; if (m == 5) p.y() = H + .1; if (m == 6) w.m->clear(); if (m == 7) p.z() = -50; w.op->setStartPosition(p); try { r = w.op->updateAll(); } catch (std::runtime_error&) { th = true; }
    c.check(m < 4 ? th : !th && !r, "mistake %d: the operator %s", m, th ? "threw" : r ? "succeeded" : "returned failure"); c.outcome(m);
    if (m == 4 || m == 5 || m == 7) run(c, s, w, 0, 0, .1, "update after a failure");
}
int main(int argc, char** argv) {
    Engine e;
    e.add("layers", 1, 1, 4, false, layer, "all 3x3 scenes over alphabets of three kinds of cells, with one or several surfaces");
    e.add("special cells", 1, 1, 3, false, special, "all pairs of special cells in flat, tilted and rough terrain, all starts");
    e.add("start", 1, 1, 3, false, ring, "all positions of two surfaces and the start in grids of four frames");
    e.add("limits", 1, 1, 3, false, limits, "all limits of steps, slopes, classes and measurements");
    e.add("mistakes", 1, 1, 1, false, errors, "missing and mismatching grids, unusable starts");
    return e.main(argc, argv);
}
