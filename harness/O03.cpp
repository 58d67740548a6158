// O03: slopes, steps and traversability classes of terrain.
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include "mc.hpp"
#include <Eigen/QR>
#include <memory>
#include <set>
#include <limits>
#include <dirent.h>
using namespace envire; using namespace mc;
typedef SurfacePatch P; typedef TraversabilityGrid TG; typedef Eigen::Vector3d V; typedef SimpleTraversability ST;
static const float UNK = -std::numeric_limits<float>::infinity();
struct Listener : public EventHandler { std::set<EnvironmentItem*> modified; void handle(Event const& e) { if (e.type == event::ITEM && e.operation == event::UPDATE) modified.insert(e.a.get()); } };
struct Listen { Environment& e; Listener l; Listen(Environment& e) : e(e) { e.addEventHandler(&l); l.modified.clear(); } ~Listen() { e.removeEventHandler(&l); } bool saw(EnvironmentItem* i) { return l.modified.count(i) != 0; } };
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/terr" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
// ---- slopes
struct Item { float mean, dev, h; P::TYPE type; float n; }; typedef std::vector<Item> Content;
struct Terrain { int W, H; double sx, sy; std::vector<Content> c; };
static void slopes(Ctx& c, Terrain const& t, int opt) {
    bool dev = opt & 1; unsigned req = (opt & 2) ? 3 : 0; int win = (opt & 4) ? 2 : 1; double thr = (opt & 8) ? .4 : .25; c.step();
    Environment env; MLSGrid::Ptr m = new MLSGrid(t.W, t.H, t.sx, t.sy, -1, 2); Grid<float>::Ptr g = new Grid<float>(t.W, t.H, t.sx, t.sy, -1, 2); env.attachItem(m.get()); env.attachItem(g.get());
    for (int i = 0; i < t.W * t.H; ++i) for (auto& k : t.c[i]) { P p(k.mean, k.dev, k.h, k.type); p.n = k.n; m->insertTail(i % t.W, i / t.W, p); }
    MLSSlope* op = opt & 8 || dev || (opt & 16) ? (req && (opt & 16) ? new MLSSlope(thr, dev, req) : new MLSSlope(thr, dev)) : new MLSSlope; env.attachItem(op); if (win != 1) op->setWindowSize(win); if (req) op->setRequiredMeasurementsPerPatch(req); c.check(op->getRequiredMeasurementsPerPatch() == req, "the required measurements are %u", op->getRequiredMeasurementsPerPatch()); op->addInput(m.get()); op->addOutput(g.get());
    for (char const* b : { "mean_slope", "max_step", "corrected_max_step" }) { auto& a = g->getGridData(b); std::fill(a.data(), a.data() + a.num_elements(), 5); }
    { Listen l(env); c.check(op->updateAll(), "the operator failed"); c.check(l.saw(g.get()), "the change is not reported"); }
    auto top = [&](int x, int y) -> Item const* { Item const* r = 0; for (auto& k : t.c[y * t.W + x]) if (k.type != P::NEGATIVE && (!r || r->mean < k.mean)) r = &k; return r && r->n >= req ? r : 0; };
    auto& as = g->getGridData("mean_slope"); auto& ms = g->getGridData("max_step"); auto& cs = g->getGridData("corrected_max_step"); for (char const* b : { "mean_slope", "max_step", "corrected_max_step" }) c.check(g->getNoData(b).second && g->getNoData(b).first == UNK, "the unknown value of '%s' is not set", b);
    for (int y = 0; y < t.H; ++y) for (int x = 0; x < t.W; ++x) {
        Item const* k = top(x, y); double slope = UNK, step = UNK; bool border = !x || !y || x == t.W - 1 || y == t.H - 1;
        if (k && !border) {
            int n = 0; double s = UNK; std::vector<V> pts(1, V(0, 0, 0)); for (int v = -win; v <= win; ++v) for (int u = -win; u <= win; ++u) if ((u || v) && x + u >= 0 && x + u < t.W && y + v >= 0 && y + v < t.H) if (Item const* o = top(x + u, y + v)) { pts.push_back(V(u * t.sx, v * t.sy, k->mean - o->mean)); if (std::abs(u) <= 1 && std::abs(v) <= 1) { ++n; s = std::max(s, double(std::fabs(k->mean - o->mean) + (dev ? k->dev + o->dev : 0))); } }
            if (n >= 5) step = s; if (pts.size() > 5) { Eigen::MatrixXd A(pts.size(), 3); Eigen::VectorXd b(pts.size()); for (size_t i = 0; i < pts.size(); ++i) { A.row(i) << pts[i].x(), pts[i].y(), 1; b[i] = pts[i].z(); } Eigen::VectorXd f = A.colPivHouseholderQr().solve(b); slope = std::atan(std::hypot(f[0], f[1])); }
        }
        auto eq = [](double a, double b) { return a == b || std::fabs(a - b) < 2e-3; }; c.check(eq(as[y][x], slope), "slope at (%d,%d) is %g instead of %g", x, y, as[y][x], slope); c.check(eq(ms[y][x], step), "maximum step at (%d,%d) is %g instead of %g", x, y, ms[y][x], step);
        if (!std::isfinite(step)) c.check(cs[y][x] == UNK, "corrected step at (%d,%d) is %g", x, y, cs[y][x]); else if (step > thr + 1e-3) c.check(eq(cs[y][x], step), "corrected step at (%d,%d) is %g instead of %g", x, y, cs[y][x], step); else c.check(cs[y][x] <= step + 1e-3, "corrected step at (%d,%d) is %g, the step only %g", x, y, cs[y][x], step);
        c.outcome(mix(uint64_t(step * 100 + 1e6), uint64_t(slope * 100 + 1e6)));
    }
}
static Content const& content(int k) { static const std::vector<Content> v = { {}, { { 0, .01f, 0, P::HORIZONTAL, 5 } }, { { .3f, .02f, 0, P::HORIZONTAL, 5 } }, { { 0, .1f, 0, P::HORIZONTAL, 5 }, { 1.25f, .05f, .5f, P::VERTICAL, 5 } }, { { .2f, .05f, 0, P::HORIZONTAL, 5 }, { 7, .1f, 2, P::NEGATIVE, 9 } }, { { 9, .1f, 2, P::NEGATIVE, 9 } }, { { -1, .1f, 0, P::HORIZONTAL, 2 } }, { { -.45f, 0, 0, P::HORIZONTAL, 3 } } }; return v[k]; }
static void small(Ctx& c) { Terrain t; t.W = t.H = 3; t.sx = .5; t.sy = 1; int opt = c.choose(4, "options") * 3; for (int i = 0; i < 9; ++i) { int k = c.choose(3, "cell"); t.c.push_back(content(k)); } slopes(c, t, opt); }
static void special(Ctx& c) {
    static const int S[][2] = { { 4, 3 }, { 3, 4 }, { 5, 4 }, { 3, 5 } }; int s = c.choose(c.thorough ? 4 : 3, "size"); Terrain t; t.W = S[s][0]; t.H = S[s][1]; t.sx = s % 2 ? .25 : 1; t.sy = .5; static const int O[] = { 0, 7, 17, 30 }; int opt = c.thorough || s ? c.choose(32, "options") : O[c.choose(4, "options")], base = c.choose(3, "base");
    for (int y = 0; y < t.H; ++y) for (int x = 0; x < t.W; ++x) t.c.push_back(Content(1, Item{ float(base == 0 ? 0 : base == 1 ? .1 * x - .05 * y : .02 * x * x + .03 * ((x * 7 + y * 3) % 4)), .03f, 0, P::HORIZONTAL, float(3 + (x + y) % 2) }));
    int a = c.choose(t.W * t.H, "cell"); t.c[a] = content(c.choose(8, "content")); if (c.thorough || s < 1) { int b = c.choose(t.W * t.H, "cell"); if (a != b) t.c[b] = content(c.choose(4, "content") * 2 % 7); } slopes(c, t, opt);
}
static void sizes(Ctx& c) {
    int w = c.choose(4, "width"), h = c.choose(4, "height"), mis = c.choose(8, "mismatch"); c.step(); Environment env; MLSGrid::Ptr m = new MLSGrid(w, h, 1, 1); Grid<float>::Ptr g = new Grid<float>(w + (mis == 1 || mis == 5), h + (mis == 2 || mis == 5), mis == 3 || mis == 6 ? 2 : 1, mis == 4 || mis == 6 ? 2 : 1); env.attachItem(m.get()); env.attachItem(g.get()); MLSSlope* op = new MLSSlope; env.attachItem(op); if (mis != 7) op->addInput(m.get()); op->addOutput(g.get()); for (int i = 0; i < w * h; ++i) m->insertTail(i % w, i / w, P(1, .1, 0, P::HORIZONTAL));
    bool th = false; try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th == (mis || !w || !h), "%dx%d with mismatch %d was %s", w, h, mis, th ? "refused" : "accepted"); if (!th) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { bool in = x && y && x < w - 1 && y < h - 1; float s = g->getGridData("max_step")[y][x], a = g->getGridData("mean_slope")[y][x]; c.check(in ? s == 0 && std::fabs(a) < 1e-3 : s == UNK && a == UNK, "flat ground has step %g and slope %g at (%d,%d)", s, a, x, y); } c.outcome(mis);
}
// ---- classes
struct Conf { double slope; int n; double clear; }; static const float NODATA = 77;
static void judge(Ctx& c, TG& g, std::string const& band, std::vector<int> const& want, Conf const& k, char const* who) {
    double sum = 0; int cnt = 0; for (size_t i = 0; i < want.size(); ++i) { int x = i % g.getCellSizeX(), y = i / g.getCellSizeX(), v = g.getFromRaster(band, x, y); c.check(v == want[i], "%s: cell (%d,%d) has class %d instead of %d", who, x, y, v, want[i]); double p = g.getProbability(x, y); c.check(p == (want[i] ? 1 : 0), "%s: cell (%d,%d) of class %d has probability %g", who, x, y, v, p); if (want[i]) { sum += want[i]; ++cnt; } }
    c.check(g.getTraversabilityClass(1).getDrivability() == 0 && g.getTraversabilityClass(1).isSet(), "%s: obstacles can be driven on", who); auto D = [&](int i) { return 1. / k.n + (1 - 1. / k.n) * i / k.n; }; for (int i = 0; i <= k.n; ++i) c.check(std::fabs(g.getTraversabilityClass(2 + i).getDrivability() - D(i)) < 1e-9, "%s: class %d has drivability %g", who, 2 + i, g.getTraversabilityClass(2 + i).getDrivability());
    double mean = cnt ? sum / cnt : 0, u = g.getTraversabilityClass(0).getDrivability(); bool ok = false; for (double e : { -1e-9, 1e-9 }) { int q = int(mean + .5 + e); if (std::fabs(u - (q <= 1 ? (1 + 1. / k.n) / 2 : D(q - 2))) < 1e-9) ok = true; } c.check(ok, "%s: unknown terrain has drivability %g, the mean class is %g", who, u, mean); c.check(g.getNoData(band).second && g.getNoData(band).first == 0, "%s: the unknown class is not marked", who);
}
static void simple(Ctx& c) {
    static const float NAN_ = std::numeric_limits<float>::quiet_NaN(); static const float SL[] = { 0, 1, 2, .1f, .25f, .5f, .51f, -.3f, .3f, 3 }, SP[] = { 0, 1, .2f, .21f, 2, .1f }; /* 1, 2, 3: unknown, no number, other unknown */
    static const Conf K[] = { { .5, 1, .2 }, { .5, 4, 0 }, { .5, 5, .2 }, { .25, 10, .2 }, { 0, 3, .2 }, { .5, 2, .2 } }; int kc = c.choose(c.thorough ? 6 : 5, "configuration"); Conf k = K[kc]; int use = 1 + c.choose(3, "inputs"), nd = c.choose(2, "no data value"), mode = c.choose(5, "mode"), W = 1 + c.choose(2, "width"), n = W * (W == 1 ? 2 : 1);
    std::vector<float> s(n), m(n); Environment* env = new Environment; std::unique_ptr<Environment> hold(env); boost::intrusive_ptr<Grid<float> > g = new Grid<float>(W, n / W, 1, .5), h = new Grid<float>(W, n / W, 1, .5); TG::Ptr o = new TG(W, n / W, 1, .5); env->attachItem(g.get()); env->attachItem(h.get()); env->attachItem(o.get());
    auto& gs = g->getGridData("slope"); auto& hs = h->getGridData("step"); if (nd) { g->setNoData("slope", NODATA); h->setNoData("step", NODATA); } auto unk = [&](int q) { return q == 2 ? NAN_ : nd ? NODATA : UNK; };
    auto fill = [&] { for (int i = 0; i < n; ++i) { int a = use & 1 ? c.choose(c.thorough || !i ? 9 : 5, "slope") : 0, b = use & 2 ? c.choose(c.thorough || !i ? 6 : 4, "step") : 0; s[i] = a == 1 || a == 2 ? NAN_ : SL[a]; m[i] = b == 1 || b == 4 ? NAN_ : SP[b]; gs.data()[i] = a == 1 ? unk(1) : a == 2 ? NAN_ : SL[a]; hs.data()[i] = b == 1 ? unk(1) : b == 4 ? NAN_ : SP[b]; } }; fill(); c.step();
    SimpleTraversabilityConfig cf; cf.maximum_slope = k.slope; cf.class_count = k.n; cf.ground_clearance = k.clear; ST* op = mode % 2 ? new ST(cf) : new ST(k.slope, k.n, 0, k.clear); env->attachItem(op); std::string band = mode == 2 ? "other" : TG::TRAVERSABILITY; if (use & 1) op->setSlope(g.get(), "slope"); if (use & 2) op->setMaxStep(h.get(), "step"); op->setOutput(o.get(), mode == 3 ? "" : band);
    for (auto& b : { band, TG::PROBABILITY }) { auto& a = o->getGridData(b); std::fill(a.data(), a.data() + a.num_elements(), 99); } c.check(op->getSlopeLayer() == (use & 1 ? g.get() : 0) && op->getMaxStepLayer() == (use & 2 ? h.get() : 0), "the inputs differ from those set");
    if (mode == 4) { wipe(); std::string io = o->getUniqueId(), iop = op->getUniqueId(), ig = g->getUniqueId(); env->serialize(dir()); hold.reset(); hold.reset(Environment::unserialize(dir())); env = hold.get(); o = env->getItem<TG>(io); op = env->getItem<ST>(iop).get(); g = env->getItem<Grid<float> >(ig); wipe(); c.check(o.get() && op && g.get(), "the scene changed in a file"); if (use & 1) c.check(op->getSlopeLayer() == g.get() && op->getSlopeBand() == "slope", "the slope input got lost in a file"); }
    auto expect = [&] { std::vector<int> w; for (int i = 0; i < n; ++i) { int q = 0; if (use & 2 && k.clear > 0 && m[i] > k.clear) q = 1; else if (use & 1 && k.slope > 0 && !std::isnan(s[i])) { double a = std::fabs(s[i]); q = a > k.slope ? 1 : 2 + k.n - int(std::rint(a / k.slope * k.n)); } w.push_back(q); } return w; };
    auto run = [&](char const* who) { Listen l(*env); c.check(op->updateAll(), "%s failed", who); c.check(l.saw(o.get()), "%s: the change is not reported", who); std::vector<int> w = expect(); judge(c, *o, band, w, k, who); c.outcome(hashBytes(w.data(), w.size() * sizeof(int))); };
    run("first update"); if (mode == 1) { for (int i = 0; i < n; ++i) { s[i] = NAN_; gs.data()[i] = unk(1); } run("update with unknown slopes"); }
    if (mode == 0) { op->removeOutputs(); TG::Ptr p = new TG(W + (kc & 1), n / W + !(kc & 1), 1, .5); env->attachItem(p.get()); op->setOutput(p.get(), TG::TRAVERSABILITY); bool th = false; try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th, "an output of another size was accepted"); op->removeOutputs(); th = false; try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th, "an update without output succeeded"); ST* q = new ST(cf); env->attachItem(q); q->setOutput(o.get(), ""); th = false; try { q->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th, "an update without input succeeded"); q->setMaxStep(h.get(), ""); th = false; try { q->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th, "an update with an input without band succeeded"); q->setSlope(g.get(), "slope"); for (int i = 0; i < n; ++i) if (!(use & 1)) gs.data()[i] = 0; c.check(q->updateAll(), "an input without band is not ignored"); TG::Ptr r = new TG(W, n / W, 1, .5); env->attachItem(r.get()); try { q->addOutput(r.get()); } catch (std::runtime_error&) {} c.check(env->getOutputs(q).size() == 1, "a second output was accepted"); }
}
// ---- post processing
struct Field { int W, H; double sx, sy; std::vector<int> v; int at(int x, int y) const { return v[y * W + x]; } };
static void load(TG& g, std::string const& band, Field const& f) { auto& a = g.getGridData(band); auto& p = g.getGridData(TG::PROBABILITY); for (size_t i = 0; i < f.v.size(); ++i) { a.data()[i] = f.v[i]; p.data()[i] = f.v[i] ? 255 : 0; } }
static double dist(Field const& f, int i, int j) { return std::hypot((i % f.W - j % f.W) * f.sx, (i / f.W - j / f.W) * f.sy); }
static void checkCells(Ctx& c, TG& g, std::string const& b, Field const& f, std::vector<int>& out, char const* who) { out.clear(); for (int i = 0; i < f.W * f.H; ++i) { int x = i % f.W, y = i / f.W, v = g.getFromRaster(b, x, y); out.push_back(v); c.check(v == f.v[i] || v == 1, "%s: cell (%d,%d) changed from class %d to %d", who, x, y, f.v[i], v); double p = g.getProbability(x, y); c.check(p == (v ? 1 : 0), "%s: cell (%d,%d) of class %d has probability %g", who, x, y, v, p); } }
static void grown(Ctx& c, Field const& f, std::vector<int> const& out, double w) { for (int i = 0; i < f.W * f.H; ++i) { bool near = false, tie = false; for (int j = 0; j < f.W * f.H; ++j) if (f.v[j] == 1) { double d = dist(f, i, j); if (std::fabs(d - w) < 1e-9) tie = true; else if (d < w) near = true; } if (f.v[i] == 1) near = true; if (near || !tie) c.check((out[i] == 1) == near, "clearance %g: cell (%d,%d) %s", w, i % f.W, i / f.W, near ? "next to an obstacle is free" : "became an obstacle"); } }
static void closed(Ctx& c, Field const& f, std::vector<int> const& out, double w) {
    int N = f.W * f.H; std::vector<char> may(N, 0);
    for (int a = 0; a < N; ++a) if (f.v[a] == 1) { may[a] = 1; for (int b = 0; b < N; ++b) if (b != a && f.v[b] == 1 && dist(f, a, b) < w - 1e-9) {
        Eigen::Vector2d A(a % f.W, a / f.W), B(b % f.W, b / f.W), D = B - A; int x0 = std::min(A.x(), B.x()), x1 = std::max(A.x(), B.x()), y0 = std::min(A.y(), B.y()), y1 = std::max(A.y(), B.y());
        for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) { Eigen::Vector2d q = Eigen::Vector2d(x, y) - A; double s = std::max(0., std::min(1., q.dot(D) / D.squaredNorm())); if ((q - s * D).norm() <= 1 + 1e-9) may[y * f.W + x] = 1; }
        std::vector<int> todo(1, a); std::set<int> seen; while (!todo.empty()) { int k = todo.back(); todo.pop_back(); if (!seen.insert(k).second) continue; for (int v = -1; v <= 1; ++v) for (int u = -1; u <= 1; ++u) { int x = k % f.W + u, y = k / f.W + v; if (x >= x0 && x <= x1 && y >= y0 && y <= y1 && out[y * f.W + x] == 1) todo.push_back(y * f.W + x); } }
        c.check(seen.count(b), "width %g: the passage between (%d,%d) and (%d,%d) is open", w, int(A.x()), int(A.y()), int(B.x()), int(B.y()));
    } }
    for (int i = 0; i < N; ++i) c.check(out[i] != 1 || may[i], "width %g: cell (%d,%d) became an obstacle away from all passages", w, i % f.W, i / f.W);
}
static void post(Ctx& c) {
    static const struct { int W, H; double sx, sy; } G[] = { { 3, 3, 1, 1 }, { 5, 2, .5, 1 }, { 2, 5, .5, .25 }, { 9, 1, 1, 1 }, { 4, 3, 1, 2 } }; int gi = c.choose(c.thorough ? 5 : 4, "grid"); auto& s = G[gi]; static const double R[] = { .6, 1.01, 1.5, 2.3, 3.2, 4.1 }; double r = R[c.choose(6, "width")] * s.sx; int kind = c.choose(2, "kind"); Field f; f.W = s.W; f.H = s.H; f.sx = s.sx; f.sy = s.sy; int N = s.W * s.H, st = c.thorough ? 3 : 2; for (int i = 0; i < N; ++i) { int q = c.choose(st, "cell"); f.v.push_back(q == 0 ? (i % 3 ? 4 : 0) : q == 1 ? 1 : (i % 3 ? 0 : 4)); }
    c.step(); static Environment* env = new Environment; static std::map<int, TG*> gs; static ST* op = 0; if (!op) { op = new ST(1, 4, 0, 0); env->attachItem(op); } TG*& g = gs[gi]; if (!g) { g = new TG(s.W, s.H, s.sx, s.sy); env->attachItem(g); g->createBand(TG::TRAVERSABILITY); g->createBand("b"); g->createBand(TG::PROBABILITY); } std::string b = gi == 1 ? "b" : TG::TRAVERSABILITY; load(*g, b, f); std::string arg = gi == 2 ? "" : b; std::vector<int> out; if (kind) op->closeNarrowPassages(*g, arg, r); else op->growObstacles(*g, arg, r); checkCells(c, *g, b, f, out, kind ? "passages" : "clearance"); if (kind) closed(c, f, out, r); else grown(c, f, out, r); c.outcome(hashBytes(out.data(), N * sizeof(int)));
}
static void chain(Ctx& c) { // the whole operator with both steps, directly and after a file
    int W = 7, H = 2; Conf k = { .5, 4, .2 }; static const double R[] = { 0, 1.2, 2.2 }; double mw = R[c.choose(3, "passage")], oc = R[c.choose(3, "clearance")]; bool file = c.flag("file"), named = c.flag("band"); Field f; f.W = W; f.H = H; f.sx = f.sy = 1; int a = c.choose(14, "obstacle"), b = c.choose(14, "obstacle"), u = file && !c.thorough ? (a * 3 + 5) % 14 : c.choose(14, "unknown"); c.step();
    for (int i = 0; i < 14; ++i) f.v.push_back(i == a || i == b ? 1 : i == u ? 0 : 6 - i % 3 * 2); std::unique_ptr<Environment> env(new Environment); Grid<float>::Ptr g = new Grid<float>(W, H, 1, 1); TG::Ptr o = new TG(W, H, 1, 1); env->attachItem(g.get()); env->attachItem(o.get()); auto& s = g->getGridData("s"); for (int i = 0; i < 14; ++i) s.data()[i] = f.v[i] == 1 ? .8 : f.v[i] == 0 ? UNK : (6 - f.v[i]) * .125;
    SimpleTraversabilityConfig cf; cf.maximum_slope = k.slope; cf.class_count = k.n; cf.min_width = mw; cf.obstacle_clearance = oc; ST* op = new ST(cf); env->attachItem(op); op->setSlope(g.get(), "s"); std::string band = named ? "x" : TG::TRAVERSABILITY; op->setOutput(o.get(), named ? "x" : "");
    if (file) { wipe(); std::string io = o->getUniqueId(), iop = op->getUniqueId(); env->serialize(dir()); env.reset(Environment::unserialize(dir())); wipe(); o = env->getItem<TG>(io); op = env->getItem<ST>(iop).get(); c.check(op && o.get(), "the scene changed in a file"); c.check(op->getOutputBand() == (named ? "x" : ""), "the output band changed in a file"); }
    c.check(op->updateAll(), "the operator failed"); std::vector<int> out; checkCells(c, *o, band, f, out, "classification"); if (oc == 0 && mw > 0) closed(c, f, out, mw); if (mw == 0 && oc > 0) grown(c, f, out, oc); if (mw == 0 && oc == 0) c.check(out == f.v, "cells changed without post processing"); if (mw > 0 && oc > 0) { for (int i = 0; i < 14; ++i) for (int j = 0; j < 14; ++j) if (f.v[j] == 1 && dist(f, i, j) < oc - 1e-9) c.check(out[i] == 1, "cell (%d,%d) next to an obstacle is free", i % W, i / W); if (a / 7 == b / 7 && dist(f, a, b) < mw) for (int i = std::min(a, b); i <= std::max(a, b); ++i) c.check(out[i] == 1, "the passage at (%d,%d) is open", i % W, i / W); } judge(c, *o, band, out, k, "classification"); c.outcome(hashBytes(out.data(), 14 * sizeof(int)));
}
int main(int argc, char** argv) {
    Engine e;
    e.add("small terrain", 1, 1, 4, false, small, "all assignments of three surfaces to a 3x3 surface grid");
    e.add("special cells", 1, 1, 3, false, special, "all special cells in tilted, rough and flat terrain, all options");
    e.add("sizes", 1, 1, 1, false, sizes, "all small and mismatching grids");
    e.add("classification", 1, 1, 4, false, simple, "all slopes and steps of two cells with all configurations, repeated, in other bands and after a file");
    e.add("post processing", 1, 1, 4, false, post, "all obstacle patterns of small grids with all widths");
    e.add("combined", 1, 1, 3, false, chain, "all pairs of obstacles with both post processing steps");
    return e.main(argc, argv);
}
