// M09: traversability grids keep classes and probabilities, summarise rectangles and grow classes correctly.
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/TraversabilityGrowClasses.hpp>
#include "envmodel.hpp"
#include "mc.hpp"
#include <dirent.h>
using namespace envire; using namespace mc; using tmod::pose;
typedef TraversabilityGrid TG; typedef TG::Ptr P;
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/trav" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
struct Model {
    size_t nx, ny; std::vector<double> cls; std::vector<int> t; std::vector<int> p; bool ht, hp; // p in 1/255
    uint64_t hash() const { uint64_t h = mix(nx * 16 + ny, ht * 2 + hp); h = mix(h, hashBytes(cls.data(), cls.size() * sizeof(double))); h = mix(h, hashBytes(t.data(), t.size() * sizeof(int))); return mix(h, hashBytes(p.data(), p.size() * sizeof(int))); }
};
static void judge(Ctx& c, TG const& g, Model const& m, char const* who) {
    c.check(g.getCellSizeX() == m.nx && g.getCellSizeY() == m.ny, "%s: size changed", who);
    c.check(g.getTraversabilityClasses().size() == m.cls.size(), "%s: %zu classes instead of %zu", who, g.getTraversabilityClasses().size(), m.cls.size());
    for (int k = 0; k < 256; ++k) {
        if (k > (int)m.cls.size() && k < 255) continue;
        bool t = false; double d = 0; bool set = false, tr = false; try { TraversabilityClass const& q = g.getTraversabilityClass(k); d = q.getDrivability(); set = q.isSet(); tr = q.isTraversable(); } catch (std::runtime_error&) { t = true; }
        c.check(t == (k >= (int)m.cls.size()), "%s: access of class %d %s", who, k, t ? "failed" : "succeeded"); if (t) continue;
        c.check(set == (m.cls[k] >= 0), "%s: class %d is reported %s", who, k, set ? "set" : "unset");
        c.check(d == std::max(0.0, m.cls[k]) && tr == (d > 0), "%s: class %d has the drivability %.17g instead of %.17g", who, k, d, m.cls[k]);
        c.check(g.getTraversabilityClasses()[k].getDrivability() == d, "%s: the list of classes differs", who);
    }
    for (size_t y = 0; y < m.ny; ++y) for (size_t x = 0; x < m.nx; ++x) {
        size_t i = y * m.nx + x; double p = g.getProbability(x, y); c.check(fabs(p - m.p[i] / 255.0) < 1e-12, "%s: probability of (%zu,%zu) is %g instead of %g", who, x, y, p, m.p[i] / 255.0);
        bool t = false; double d = 0; try { d = g.getTraversability(x, y).getDrivability(); } catch (std::runtime_error&) { t = true; }
        bool reg = m.t[i] < (int)m.cls.size(); c.check(t == !reg, "%s: cell (%zu,%zu) of class %d %s", who, x, y, m.t[i], t ? "is not readable" : "is readable"); if (reg) c.check(d == std::max(0.0, m.cls[m.t[i]]), "%s: cell (%zu,%zu) has drivability %g instead of %g", who, x, y, d, m.cls[m.t[i]]);
        c.check(g.getFromRaster(TG::TRAVERSABILITY, x, y) == m.t[i] && g.getFromRaster(TG::PROBABILITY, x, y) == m.p[i], "%s: the bands at (%zu,%zu) hold %d %d instead of %d %d", who, x, y, g.getFromRaster(TG::TRAVERSABILITY, x, y), g.getFromRaster(TG::PROBABILITY, x, y), m.t[i], m.p[i]);
    }
}
static void history(Ctx& c) {
    P g[2]; Model m[2]; int shape = c.choose(2, "shape");
    for (int i = 0; i < 2; ++i) { m[i].nx = shape ? 1 : 2; m[i].ny = shape ? 2 : 1; m[i].ht = m[i].hp = true; m[i].t.assign(2, 0); m[i].p.assign(2, 0); g[i] = new TG(m[i].nx, m[i].ny, .1, .3, 1, -2); g[i]->createBand(TG::TRAVERSABILITY); g[i]->createBand(TG::PROBABILITY); }
    static const double D[] = { 0, 1, .5, 1 / 3.0, .1 }; static const double PR[] = { 1, .5, 0, 1 / 3.0, 1.5, -.25, .0021 }; int ver = 0;
    auto xy = [&](int i, int k) { return std::make_pair(k % m[i].nx, k / m[i].nx); };
    for (int s = 0; s < c.bound; ++s) {
        std::vector<std::function<void ()> > op; std::vector<std::string> nm; auto add = [&](std::string n, std::function<void ()> f) { nm.push_back(n); op.push_back(f); };
        for (int i = 0; i < 2; ++i) {
            std::string L = "grid " + std::to_string(i) + ": ";
            for (int k : { 0, 2, 255 }) add(L + "define class " + std::to_string(k), [&, i, k] { double d = D[ver++ % 5]; g[i]->setTraversabilityClass(k, TraversabilityClass(d)); if ((int)m[i].cls.size() <= k) m[i].cls.resize(k + 1, -1); m[i].cls[k] = d; });
            add(L + "register class", [&, i] { double d = D[ver++ % 5]; uint8_t id = 77; bool r = g[i]->registerNewTraversabilityClass(id, TraversabilityClass(d)); if (!r) { c.check(m[i].cls.size() > 250, "a class was refused"); return; } c.check(id >= m[i].cls.size() || m[i].cls[id] < 0, "the id %d of a new class is in use", id); if (m[i].cls.size() <= id) m[i].cls.resize(id + 1, -1); m[i].cls[id] = d; });
            for (int k = 0; k < 2; ++k) {
                add(L + "set class of cell " + std::to_string(k), [&, i, k] { static const int V[] = { 2, 0, 255, 1 }; int v = V[ver++ % 4]; g[i]->setTraversability(v, xy(i, k).first, xy(i, k).second); m[i].t[k] = v; });
                add(L + "set probability of cell " + std::to_string(k), [&, i, k] { double p = PR[ver++ % 7]; g[i]->setProbability(p, xy(i, k).first, xy(i, k).second); m[i].p[k] = lrint(std::max(0., std::min(1., p)) * 255); c.check(fabs(g[i]->getProbability(xy(i, k).first, xy(i, k).second) - std::max(0., std::min(1., p))) < .51 / 255, "a probability of %g was stored as %g", p, g[i]->getProbability(xy(i, k).first, xy(i, k).second)); });
            }
            add(L + "set both", [&, i] { int v = ++ver % 3; double p = PR[ver % 7]; g[i]->setTraversabilityAndProbability(v, p, m[i].nx - 1, m[i].ny - 1); m[i].t[1] = v; m[i].p[1] = lrint(std::max(0., std::min(1., p)) * 255); });
            add(L + "write the bands", [&, i] { ++ver; auto& a = g[i]->getGridData(TG::TRAVERSABILITY); auto& b = g[i]->getGridData(TG::PROBABILITY); for (int k = 0; k < 2; ++k) { a.data()[k] = m[i].t[k] = (ver + k) % 4; b.data()[k] = m[i].p[k] = (ver * 50 + k) % 256; } });
            add(L + "write probabilities back", [&, i] { for (int k = 0; k < 2; ++k) g[i]->setProbability(g[i]->getProbability(xy(i, k).first, xy(i, k).second), xy(i, k).first, xy(i, k).second); });
            add(L + "set from the other", [&, i] { g[i]->set(g[1 - i].get()); m[i] = m[1 - i]; });
            add(L + "replace by clone", [&, i] { EnvironmentItem::Ptr k = g[i]->clone(); c.check(k->getClassName() == "envire::TraversabilityGrid", "the clone has another class"); g[i]->setTraversability(99, 0, 0); g[i]->setProbability(.77, 0, 0); g[i] = P(dynamic_cast<TG*>(k.get())); });
            add(L + "replace by copy", [&, i] { P k = new TG(*g[i]); g[i]->setTraversability(98, 0, 0); g[i]->setProbability(.66, 0, 0); g[i] = k; });
            add(L + "send as event", [&, i] { BinarySerialization o, n; if (g[i]->getUniqueId().empty()) g[i]->setUniqueId("/g"); BinaryEvent ev(event::ITEM, event::ADD, g[i]->getUniqueId(), ""); o.serializeBinaryEvent(g[i].get(), ev); EnvironmentItem::Ptr r = n.unserializeBinaryEvent(ev); g[i] = P(dynamic_cast<TG*>(r.get())); c.check(g[i].get() != 0, "the class changed in an event"); });
            if (i == 0) add(L + "save and load", [&, i] { wipe(); std::string id; { Environment env; env.attachItem(g[i].get()); id = g[i]->getUniqueId(); env.serialize(dir()); EnvironmentItem::Ptr keep = env.detachItem(g[i].get()); } std::unique_ptr<Environment> n(Environment::unserialize(dir())); P r = n->getItem<TG>(id); c.check(r.get() != 0, "the grid is missing in the file"); n->detachItem(r.get()); g[i] = r; });
        }
        int k = c.choose(op.size()); c.note("%s", nm[k].c_str()); c.step(); op[k](); judge(c, *g[0], m[0], "grid 0"); judge(c, *g[1], m[1], "grid 1");
        c.state(mix(mix(m[0].hash(), m[1].hash()), mix(ver % 420, shape)), c.bound - 1 - s);
    }
    wipe(); c.outcome(mix(m[0].hash(), m[1].hash()));
}
static void classes(Ctx& c) {
    static const double V[] = { -1, -1e-9, 0, 1e-9, .5, 1, 1.01, 2 }; double v = V[c.choose(8, "drivability")]; bool t = false; c.step();
    try { TraversabilityClass k(v); c.check(k.isSet() && k.getDrivability() == v && k.isTraversable() == (v > 0), "a class of drivability %g reports %g, set %d, traversable %d", v, k.getDrivability(), k.isSet(), k.isTraversable()); } catch (std::runtime_error&) { t = true; }
    c.check(t == (v < 0 || v > 1), "a drivability of %g was %s", v, t ? "refused" : "accepted"); TraversabilityClass u; c.check(!u.isSet() && !u.isTraversable() && u.getDrivability() == 0, "an undefined class can be driven on");
    // registrations until the grid is full
    P g = new TG(1, 1, 1, 1); std::map<int, double> m; int first = c.choose(4, "defined before"); static const int F[] = { -1, 0, 7, 254 }; if (F[first] >= 0) { g->setTraversabilityClass(F[first], TraversabilityClass(.25)); m[F[first]] = .25; }
    for (int i = 0; i < 300; ++i) { uint8_t id = 0; double d = i / 300.0; if (!g->registerNewTraversabilityClass(id, TraversabilityClass(d))) { c.outcome(i); break; } c.check(!m.count(id), "registration %d reused the id %d", i, id); m[id] = d; for (auto& e : m) c.check(g->getTraversabilityClass(e.first).getDrivability() == e.second, "class %d changed by another registration", e.first); c.check(i < 256, "more classes than ids"); }
    c.check(F[first] == 254 || m.size() > 100, "only %zu classes could be registered", m.size());
    // values of cells
    for (int k = 0; k < 256; ++k) { g->setProbability(k / 255.0, 0, 0); c.check(g->getProbability(0, 0) == k / 255.0, "the probability %g became %g", k / 255.0, g->getProbability(0, 0)); }
    c.state(mix(first, uint64_t(v * 1e9)), 0); c.outcome(first);
}
static void statistics(Ctx& c) {
    static const struct { size_t nx, ny; double sx, sy, ox, oy; } G[] = { { 6, 5, 1, 1, 0, 0 }, { 9, 4, .25, .5, -1, 3 }, { 4, 9, .5, .25, 2, -4 } }; auto& s = G[c.choose(3, "grid")];
    // the lookup table is computed once per size and border, so these come first
    double cell = std::max(s.sx, s.sy); static const double S[][2] = { { 1, 1 }, { 2.2, 1.1 }, { .3, 2.7 }, { .2, .2 } }; int is = c.choose(4, "size"); double sx = S[is][0] * cell, sy = S[is][1] * cell; static const double B[] = { .4, 1.3 }; double b = B[c.choose(2, "border")] * cell;
    P g = new TG(s.nx, s.ny, s.sx, s.sy, s.ox, s.oy); int pat = c.choose(4, "pattern"); static const double D[] = { 1, .5, .25, .75, 0 }; for (int k = 0; k < 4; ++k) g->setTraversabilityClass(k, TraversabilityClass(D[k]));
    g->setTraversabilityClass(255, TraversabilityClass(.6)); g->setTraversabilityClass(254, TraversabilityClass(.1)); if (pat == 3) g->setTraversabilityClass(2, TraversabilityClass(0)); if (pat == 2) g->setTraversabilityClass(255, TraversabilityClass(0));
    auto K = [&](size_t x, size_t y) { size_t i = x + y * s.nx; switch (pat) { case 0: return 0; case 1: { static const int V[] = { 0, 1, 3, 254, 255 }; return V[i % 5]; } case 2: return i % 7 == 3 ? 255 : 1; default: return int(i % 3); } }; auto PB = [&](size_t x, size_t y) { return ((x * 37 + y * 91 + pat * 11) % 256) / 255.0; };
    for (size_t y = 0; y < s.ny; ++y) for (size_t x = 0; x < s.nx; ++x) g->setTraversabilityAndProbability(K(x, y), PB(x, y), x, y);
    double W = s.nx * s.sx, H = s.ny * s.sy; int nf = c.thorough ? 9 : 5; double fx = (c.choose(nf, "x") + 1.0) / (nf + 1), fy = (c.choose(nf, "y") + .93) / (nf + 1);
    static const double A[] = { 0, .3, M_PI / 2, 2.2, -.7, M_PI, -2.9 }; base::Pose2D p; p.position = Eigen::Vector2d(s.ox + fx * W, s.oy + fy * H); p.orientation = A[c.choose(c.thorough ? 7 : 4, "angle")];
    c.step();
    std::map<int, size_t> ci, co; std::map<int, double> di, dout; size_t ni = 0, no = 0; Eigen::Rotation2D<double> inv(-p.orientation);
    auto centre = [&](size_t x, size_t y) { return Eigen::Vector2d(s.ox + (x + .5) * s.sx, s.oy + (y + .5) * s.sy); };
    auto in = [&](size_t x, size_t y) { int k = K(x, y); ++ci[k]; ++ni; double d = (centre(x, y) - p.position).norm(); if (!di.count(k) || di[k] > d) di[k] = d; };
    auto out = [&](size_t x, size_t y) { int k = K(x, y); ++co[k]; ++no; Eigen::Vector2d q = inv * (centre(x, y) - p.position); double ex = std::max(0., fabs(q.x()) - sx / 2), ey = std::max(0., fabs(q.y()) - sy / 2), d = hypot(ex, ey); if (!dout.count(k) || dout[k] > d) dout[k] = d; };
    auto cmp = [&](TraversabilityStatistic const& t, std::map<int, size_t> const& n, std::map<int, double> const& d, size_t total, double tol, char const* who) {
        c.check(t.getTotalCount() == total, "%s: %zu cells instead of %zu", who, t.getTotalCount(), total); c.check(t.getHighestTraversabilityClass() == (n.empty() ? 0 : n.rbegin()->first), "%s: highest class is %d", who, t.getHighestTraversabilityClass());
        for (int k = 0; k < 256; ++k) { double md = -1; size_t q = 0; t.getStatisticForClass(k, md, q); auto i = n.find(k); size_t want = i == n.end() ? 0 : i->second; c.check(q == want && t.getClassCount(k) == want, "%s: class %d counted %zu times instead of %zu", who, k, q, want); if (want) c.check(fabs(md - d.find(k)->second) <= tol, "%s: distance of class %d is %g instead of %g", who, k, md, d.find(k)->second); else c.check(md == std::numeric_limits<double>::max(), "%s: absent class %d has the distance %g", who, k, md); }
    };
    double diag = hypot(s.sx, s.sy); bool ok = g->forEachInRectangle(p, sx, sy, in); (void)ok;
    { TraversabilityStatistic t; g->computeStatistic(p, sx, sy, t); cmp(t, ci, di, ni, diag, "rectangle"); }
    double worst = 2, wp = 1; for (auto& e : ci) worst = std::min(worst, g->getTraversabilityClass(e.first).getDrivability()); g->forEachInRectangle(p, sx, sy, [&](size_t x, size_t y) { wp = std::min(wp, PB(x, y)); });
    { bool t = false; double d = 0; try { d = g->getWorstTraversabilityClassInRectangle(p, sx, sy).getDrivability(); } catch (std::runtime_error&) { t = true; } c.check(t == (ni == 0), "worst class %s", t ? "not found" : "of no cells"); if (!t) c.check(d == worst, "the worst drivability is %g instead of %g", d, worst); }
    { double d = g->getWorstProbabilityInRectangle(p, sx, sy); c.check(fabs(d - wp) < 1e-9, "the worst probability is %g instead of %g", d, wp); }
    ci.clear(); di.clear(); ni = 0; g->forEachInRectangles(p, sx, sy, in, sx + b, sy + b, out);
    { TraversabilityStatistic t, u; g->computeStatistic(p, sx, sy, b, t, u); cmp(t, ci, di, ni, diag, "inner"); cmp(u, co, dout, no, .2 * cell, "border"); }
    c.state(mix(mix(hashBytes(&p.position, 16), hashBytes(&p.orientation, 8)), mix(mix(pat, is), hashBytes(&b, 8))), 0); c.outcome(mix(ni, no * 100 + pat));
}
static void growth(Ctx& c) {
    static const struct { size_t nx, ny; double sx, sy; } G[] = { { 3, 2, 1, 1 }, { 5, 1, .5, 1 }, { 1, 5, 1, .5 }, { 2, 3, .5, 1 } }; auto& s = G[c.choose(4, "grid")]; static const double R[] = { 0, .4, .6, 1.05, 1.45, 2.3 }; double r = R[c.choose(6, "radius")];
    // states: unknown, four classes (two of them equal), class 0
    static const int KL[] = { 200, 1, 2, 3, 5 }; static const double DR[] = { 0, 1, .5, 0, 0, .5 }; int n = s.nx * s.ny; int ns = c.thorough ? 5 : 4, big = c.thorough ? n : std::min(n, 6); (void)big;
    std::vector<int> t(n), p(n); P a = new TG(s.nx, s.ny, s.sx, s.sy), b = new TG(s.nx, s.ny, s.sx, s.sy); for (int k = 0; k < 6; ++k) if (k != 4) a->setTraversabilityClass(k, TraversabilityClass(DR[k]));
    for (int i = 0; i < n; ++i) { int q = c.choose(ns, "cell"); if (!c.thorough && q == 3) q = 4; t[i] = KL[q]; p[i] = q ? 20 + i * 30 : 0; } c.step();
    for (int i = 0; i < n; ++i) { size_t x = i % s.nx, y = i / s.nx; a->setTraversabilityAndProbability(t[i], p[i] / 255.0, x, y); b->setTraversabilityAndProbability(3, .9, x, y); }
    Environment env; env.attachItem(a.get()); env.attachItem(b.get()); TraversabilityGrowClasses* op = new TraversabilityGrowClasses; op->setRadius(r); env.attachItem(op); op->addInput(a.get()); op->addOutput(b.get());
    struct H : EventHandler { TG* w; int n; H(TG* w) : w(w), n(0) {} void handle(const Event& e) { if (e.type == event::ITEM && e.operation == event::UPDATE && e.a.get() == w) ++n; } } h(b.get()); env.addEventHandler(&h); op->updateAll(); c.check(h.n > 0, "the change of the output is not reported"); env.removeEventHandler(&h);
    for (int i = 0; i < n; ++i) { size_t x = i % s.nx, y = i / s.nx; c.check(a->getFromRaster(TG::TRAVERSABILITY, x, y) == t[i] && a->getFromRaster(TG::PROBABILITY, x, y) == p[i], "the input changed at (%zu,%zu)", x, y); }
    for (int k = 0; k < 6; ++k) c.check(b->getTraversabilityClass(k).getDrivability() == DR[k], "the classes of the output differ");
    for (int i = 0; i < n; ++i) {
        int x = i % s.nx, y = i / s.nx; double best = p[i] ? DR[t[i]] : 9; for (int j = 0; j < n; ++j) if (p[j]) { double d = hypot((x - int(j % s.nx)) * s.sx, (y - int(j / s.nx)) * s.sy); if (d < r) best = std::min(best, DR[t[j]]); }
        int k = b->getFromRaster(TG::TRAVERSABILITY, x, y), q = b->getFromRaster(TG::PROBABILITY, x, y);
        if (best > 1) { c.check(q == 0 && k == t[i], "the unknown cell (%d,%d) became class %d with probability %d/255", x, y, k, q); continue; }
        c.check(k < 6 && k != 4 && q, "the cell (%d,%d) has class %d", x, y, k); c.check(DR[k] == best, "the cell (%d,%d) has drivability %g instead of %g", x, y, DR[k], best);
        bool src = false; for (int j = 0; j < n; ++j) if (p[j] == q && t[j] == k) { double d = hypot((x - int(j % s.nx)) * s.sx, (y - int(j / s.nx)) * s.sy); src = src || d < r || i == j; } c.check(src, "class %d and probability %d/255 of (%d,%d) have no source", k, q, x, y);
    }
    // other sizes are refused
    P o = new TG(s.ny, s.nx, s.sx, s.sy); o->createBand(TG::TRAVERSABILITY); o->createBand(TG::PROBABILITY); env.attachItem(o.get()); env.removeOutput(op, b.get()); env.addOutput(op, o.get()); bool th = false; try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th == (s.nx != s.ny), "growing into a grid of another size was accepted");
    c.state(mix(hashBytes(t.data(), n * sizeof(int)), mix(hashBytes(&r, 8), s.nx * 8 + s.ny)), 0); c.outcome(hashBytes(b->getGridData(TG::TRAVERSABILITY).data(), n));
}
int main(int argc, char** argv) {
    Engine e;
    e.add("history", 3, 4, 2, true, history, "operation sequences on two traversability grids");
    e.add("classes", 1, 1, 1, false, classes, "all registrations of classes and values of cells");
    e.add("statistics", 1, 1, 3, false, statistics, "rectangles at all positions, angles and sizes of a lattice");
    e.add("growth", 1, 1, 4, false, growth, "all assignments of classes to small grids and all radii");
    return e.main(argc, argv);
}
