// O06: operators keep their class, identity and settings when they are stored: a stored operator does what the original does.
#include <envire/Core.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/LaserScan.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
#include <envire/operators/DistanceGridToPointcloud.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/MergeMLS.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <envire/operators/CutPointcloud.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/operators/Fold.hpp>
#include <envire/operators/TraversabilityGrassfire.hpp>
#include <envire/operators/TraversabilityGrowClasses.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/operators/ScanMeshing.hpp>
#include <envire/operators/ObjectGrowing.hpp>
#include "mc.hpp"
#include <dirent.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace envire; using namespace mc;
typedef SurfacePatch P; typedef Eigen::Vector3d V; typedef Eigen::Affine3d T; typedef TraversabilityGrid TG; typedef Pointcloud PC; typedef Grid<double> GD; typedef Grid<float> GF;
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/ops" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); rmdir(d.c_str()); } }
template <class F> static bool throws(F f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }
// ---- what an environment holds
static std::string num(double d) { if (d != d) return " nan"; char b[32]; snprintf(b, sizeof b, " %.6g", d + 0.); return b; }
static std::string vec(V const& v) { return num(v.x()) + num(v.y()) + num(v.z()); }
template <class G> static bool bands(EnvironmentItem* i, std::string& r) {
    G* g = dynamic_cast<G*>(i); if (!g) return false; std::vector<std::string> n = g->getBands(); for (char const* b : { "mean_slope", "max_step", "corrected_max_step", "lit", "illumination" }) if (g->hasBand(b)) n.push_back(b); std::sort(n.begin(), n.end()); n.erase(std::unique(n.begin(), n.end()), n.end());
    for (auto& b : n) { r += "[" + b + "]"; auto& a = g->getGridData(b); for (size_t k = 0; k < a.num_elements(); ++k) r += num(a.data()[k]); } return true;
}
static std::string layer(EnvironmentItem* i) {
    std::string r = i->getUniqueId() + ":"; if (bands<GD>(i, r) || bands<GF>(i, r) || bands<Grid<uint8_t> >(i, r)) return r;
    if (MLSGrid* m = dynamic_cast<MLSGrid*>(i)) { for (size_t y = 0; y < m->getCellSizeY(); ++y) for (size_t x = 0; x < m->getCellSizeX(); ++x) { std::multiset<std::string> s; for (auto k = m->beginCell(x, y); k != m->endCell(); ++k) s.insert(num(k->mean) + num(k->stdev) + num(k->height) + num(k->n) + num(k->isNegative() + 2 * k->isHorizontal() + 4 * k->isVertical())); r += "|"; for (auto& k : s) r += k + ";"; } return r; }
    if (PC* p = dynamic_cast<PC*>(i)) { for (auto& v : p->vertices) r += vec(v); if (p->hasData(PC::VERTEX_COLOR)) for (auto& v : p->getVertexData<V>(PC::VERTEX_COLOR)) r += "c" + vec(v); if (p->hasData(PC::VERTEX_VARIANCE)) for (double v : p->getVertexData<double>(PC::VERTEX_VARIANCE)) r += "v" + num(v); if (p->hasData(PC::VERTEX_ATTRIBUTES)) for (int v : p->getVertexData<TriMesh::vertex_attr>(PC::VERTEX_ATTRIBUTES)) r += "a" + num(v);
        if (TriMesh* t = dynamic_cast<TriMesh*>(i)) for (auto& f : t->faces) r += "f" + num(f.get<0>()) + num(f.get<1>()) + num(f.get<2>()); return r; }
    return r;
}
// ---- a scene with one operator, stored in any way
struct Scene { std::unique_ptr<Environment> env; Operator* op; std::string out; std::function<void(Operator*)> start; Scene() : env(new Environment), op(0) {} };
template <class L> static L* put(Scene& s, L* l, std::string const& id, FrameNode* f = 0) { l->setUniqueId("/" + id); if (f) s.env->attachItem(l, f); else s.env->attachItem(l); return l; }
template <class O> static O* oper(Scene& s, O* o, std::string const& label) { o->setUniqueId("/operator"); o->setLabel(label); s.env->attachItem(o); s.op = o; return o; }
static FrameNode* frame(Scene& s, std::string const& id, double x, double y, double z, double a) { T t = T::Identity(); t.linear() = Eigen::AngleAxisd(a, V::UnitZ()).toRotationMatrix(); t.translation() = V(x, y, z); FrameNode* f = new FrameNode(t); f->setUniqueId("/" + id); s.env->addChild(s.env->getRootNode(), f); return f; }
typedef std::vector<std::string> Names;
static Names names(std::list<Layer*> const& l) { Names n; for (auto* i : l) n.push_back(i->getUniqueId()); std::sort(n.begin(), n.end()); return n; }
static Environment* stored(Environment& e, int way) {
    if (way == 1) { Environment* n = new Environment; SynchronizationEventQueue q; e.addEventHandler(&q); std::vector<BinaryEvent> v; q.popEvents(v); e.removeEventHandler(&q); n->applyEvents(v);
        // events carry the items, not the connections of operators
        for (auto* o : e.getItems<Operator>()) if (Operator* p = dynamic_cast<Operator*>(n->getItem(o->getUniqueId()).get())) { for (auto* l : e.getInputs(o)) n->addInput(p, n->getItem<Layer>(l->getUniqueId()).get()); for (auto* l : e.getOutputs(o)) n->addOutput(p, n->getItem<Layer>(l->getUniqueId()).get()); } return n; }
    wipe(); e.serialize(dir()); Environment* n = Environment::unserialize(dir()); wipe(); return n;
}
template <class F> static std::string told(F f) { std::ostringstream o; std::streambuf* b = std::cout.rdbuf(o.rdbuf()); try { f(); } catch (...) { std::cout.rdbuf(b); throw; } std::cout.rdbuf(b); return o.str(); }
static const char* WAYS[] = { "a file", "events", "two files", "a file and events" };
static void judge(Ctx& c, std::function<void(Scene&)> const& build) {
    int way = c.choose(4, "way"), before = c.choose(2, "runs before it is stored"); c.step();
    auto make = [&](Scene& s) { build(s); if (s.start) s.start(s.op); }; Scene ref; make(ref); Scene src; make(src); for (int i = 0; i < before; ++i) told([&] { ref.op->updateAll(); src.op->updateAll(); });
    Scene cpy; cpy.env.reset(stored(*src.env, way == 3 ? 0 : way % 2)); if (way > 1) cpy.env.reset(stored(*cpy.env, way == 3)); char const* w = WAYS[way]; std::string id = ref.op->getUniqueId();
    cpy.op = dynamic_cast<Operator*>(cpy.env->getItem(id).get()); c.check(cpy.op && typeid(*cpy.op) == typeid(*ref.op), "%s: there is no such operator any more", w); c.check(cpy.op->getClassName() == ref.op->getClassName() && cpy.op->getLabel() == ref.op->getLabel(), "%s: the operator is a %s labelled '%s' instead of '%s'", w, cpy.op->getClassName().c_str(), cpy.op->getLabel().c_str(), ref.op->getLabel().c_str());
    c.check(names(cpy.env->getInputs(cpy.op)) == names(ref.env->getInputs(ref.op)) && names(cpy.env->getOutputs(cpy.op)) == names(ref.env->getOutputs(ref.op)), "%s: the operator has other layers", w); if (src.start) src.start(cpy.op);
    auto all = [&](Scene& s) { std::string r; for (auto* l : s.env->getOutputs(s.op)) r += layer(l); return r; }; bool a = false, b = false; std::string ta = told([&] { a = ref.op->updateAll(); }), tb = told([&] { b = cpy.op->updateAll(); }), x = all(ref), y = all(cpy); c.check(ta == tb, "%s: the stored operator prints '%.200s' instead of '%.200s'", w, tb.c_str(), ta.c_str()); size_t d = 0; while (d < x.size() && d < y.size() && x[d] == y[d]) ++d; d = d > 40 ? d - 40 : 0;
    c.check(a == b && x == y, "%s: the stored operator computes '...%s' instead of '...%s'", w, y.substr(d, 120).c_str(), x.substr(d, 120).c_str()); c.outcome(hashStr(x));
    told([&] { b = src.op->updateAll(); }); c.check(b == a && all(src) == x, "%s: storing the operator changed it", w);
}
static std::string label(Ctx& c) { static const char* L[] = { "", "the operator: #1" }; return L[c.choose(2, "label")]; }
static void fill(MLSGrid& m) { int W = m.getCellSizeX(), H = m.getCellSizeY(); for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { P p(.2f * x + .3f * ((x * 3 + y * 5) % 4), .05f * ((x + 2 * y) % 4), 0, P::HORIZONTAL); p.n = 1 + (x * 2 + y) % 5; m.insertTail(x, y, p); if ((x + y) % 3 == 2) { P q(4, .1f, 1, P::VERTICAL); q.n = 2; m.insertTail(x, y, q); } } }
static void slope(Ctx& c) { double thr = c.flag("threshold") ? .45 : .25; bool dev = c.flag("deviations"); int req = c.choose(3, "measurements") * 2, win = 1 + c.choose(3, "window"); std::string l = label(c); judge(c, [=](Scene& s) { MLSGrid* m = put(s, new MLSGrid(5, 4, .5, .25), "mls"); for (int i = 0; i < 20; ++i) { int x = i % 5, y = i / 5; P p(.06f * x + (x == 2 && y == 2 ? .25f : 0), .02f * ((x + 2 * y) % 4), 0, P::HORIZONTAL); p.n = 1 + (x * 2 + y) % 5; m->insertTail(x, y, p); } GF* g = put(s, new GF(5, 4, .5, .25), "slopes"); MLSSlope* o = oper(s, new MLSSlope(thr, dev), l); o->setRequiredMeasurementsPerPatch(req); o->setWindowSize(win); o->addInput(m); o->addOutput(g); }); }
static void project(Ctx& c) { bool unc = c.flag("uncertainty"), neg = c.flag("free space"); int area = c.choose(4, "area"), dev = c.choose(3, "default uncertainty"); std::string l = label(c); judge(c, [=](Scene& s) { PC* p = put(s, new PC, "cloud", frame(s, "sensor", .2, .1, .7, .3)); static const double Q[][3] = { { .3, .2, -.5 }, { .4, .4, 2 }, { 1.2, .9, .1 }, { 1.7, .3, -.3 }, { .3, .25, -.2 }, { 2.4, 2.2, 0 } }; for (auto& q : Q) p->vertices.push_back(V(q[0], q[1], q[2])); MLSGrid* m = put(s, new MLSGrid(6, 6, .5, .5), "mls"); m->getConfig().updateModel = MLSConfiguration::KALMAN;
    MLSProjection* o = oper(s, new MLSProjection, l); o->addInput(p); o->addOutput(m); o->useUncertainty(unc); o->useNegativeInformation(neg); if (dev) o->setDefaultUncertainty(dev == 1 ? .2 : .0375); if (area) o->setAreaOfInterest(.25, 2.125, .1, 1.3, -.75, 1.5); if (area == 2) o->setAreaOfInterest(-1, 3, -2, .6, 0, 5); if (area == 3) o->unsetAreaOfInterest(); }); }
static void clouds(Ctx& c) { int kind = c.choose(2, "operator"), clear = c.choose(3, "clear"), n = 1 + c.choose(2, "inputs"); std::string l = label(c); judge(c, [=](Scene& s) { PC* in[2]; for (int i = 0; i < 2; ++i) { in[i] = put(s, new PC, "in" + std::to_string(i), i ? frame(s, "f", 1, 2, 3, .5) : 0); for (int k = 0; k < 3; ++k) in[i]->vertices.push_back(V(k, i, k * .5)); } PC* o = put(s, new PC, "out"); o->vertices.push_back(V(7, 7, 7)); if (kind) { CutPointcloud* q = oper(s, new CutPointcloud, l); q->addInput(in[n - 1]); q->addOutput(o); return; } MergePointcloud* q = oper(s, new MergePointcloud, l); for (int i = 0; i < n; ++i) q->addInput(in[i]); q->addOutput(o); if (clear) q->setClearOutput(clear == 1); }); }
static void merge(Ctx& c) { int rev = c.choose(3, "reverse"); std::string l = label(c); judge(c, [=](Scene& s) { MLSGrid* m = put(s, new MLSGrid(4, 3, .5, .4), "in", frame(s, "f", .3, .2, 1, .4)); fill(*m); MLSGrid* g = put(s, new MLSGrid(9, 9, .27, .27, -.4, -.2), "out"); MergeMLS* o = oper(s, new MergeMLS, l); o->addInput(m); o->addOutput(g); if (rev) o->setReverse(rev == 1); }); }
static void light(Ctx& c) { int src = c.choose(4, "light"), d = c.choose(3, "diameter"), band = c.choose(2, "band"); std::string l = label(c); judge(c, [=](Scene& s) { ElevationGrid* g = put(s, new ElevationGrid(5, 4, .5, .5, -.6, -.7), "grid"); auto& e = g->getGridData(ElevationGrid::ELEVATION_MAX); for (size_t i = 0; i < e.num_elements(); ++i) e.data()[i] = .25 * (i * 7 % 5); GridIllumination* o = oper(s, new GridIllumination, l); o->addOutput(g); static const V L[] = { V(5, .125, .9), V(-4, 3.5, 1.75), V(.3, -6, 2.5) }; if (src) o->setLightSource(L[src - 1], d * .4); if (band) o->setOutputBand("lit"); }); }
static void fold(Ctx& c) { int n = c.choose(6, "neighbourhood"); std::string l = label(c); judge(c, [=](Scene& s) { GD* g[2]; for (int k = 0; k < 2; ++k) { g[k] = put(s, new GD(5, 4, .5, 1), k ? "out" : "in"); auto& a = g[k]->getGridData(); for (size_t i = 0; i < a.num_elements(); ++i) a.data()[i] = k ? -1 : i * i % 17; } DoubleFoldOperator* o = oper(s, new DoubleFoldOperator, l); o->addInput(g[0]); o->addOutput(g[1]); if (n) o->setNeightbourHoodSize(n); }); }
static void fire(Ctx& c) { TraversabilityGrassfire::Config k; k.maxStepHeight = c.flag("step") ? .35 : .9; k.maxSlope = c.flag("slope") ? .7 : 1.3; k.robotHeight = c.flag("height") ? 1.5 : .5; k.numTraversabilityClasses = c.flag("classes") ? 10 : 3; k.numNominalMeasurements = c.flag("nominal") ? 7 : 2; k.outliertFilterMinMeasurements = c.flag("measurements") ? 2 : 0; k.outliertFilterMaxStdDev = c.flag("deviation") ? .12 : .3; std::string l = c.thorough ? label(c) : "fire"; judge(c, [=](Scene& s) { MLSGrid* m = put(s, new MLSGrid(5, 4, .5, .5), "mls"); for (int i = 0; i < 20; ++i) { int x = i % 5, y = i / 5; P p(.1f * x + .2f * ((x * 3 + y * 2) % 4) + (x == 4 ? .4f : 0), .05f * ((x + 2 * y) % 4), 0, P::HORIZONTAL); p.n = 1 + (x * 2 + y) % 5; m->insertTail(x, y, p); if ((x + y) % 3 == 2) { P q(p.mean + 1.1f, .01f, 0, P::HORIZONTAL); q.n = 5; m->insertTail(x, y, q); } }
    TG* g = put(s, new TG(5, 4, .5, .5), "grid"); TraversabilityGrassfire* o = oper(s, new TraversabilityGrassfire, l); o->addInput(m); o->addOutput(g); o->setConfig(k); s.start = [](Operator* o) { static_cast<TraversabilityGrassfire*>(o)->setStartPosition(V(.75, .75, .5)); }; }); }
static void classes(Ctx& c) { static const double R[] = { 0, .6, 1.3, 2.0625 }; double r = R[c.choose(4, "radius")]; std::string l = label(c); judge(c, [=](Scene& s) { TG* g[2]; for (int k = 0; k < 2; ++k) { g[k] = put(s, new TG(6, 5, .5, .5), k ? "out" : "in"); for (int i = 0; i < 3; ++i) g[k]->setTraversabilityClass(i, TraversabilityClass(.5 * i)); for (int i = 0; i < 30; ++i) g[k]->setTraversabilityAndProbability(k ? 0 : i == 8 ? 1 : 2, k ? 0 : .5, i % 6, i / 6); } TraversabilityGrowClasses* o = oper(s, new TraversabilityGrowClasses, l); o->addInput(g[0]); o->addOutput(g[1]); if (r) o->setRadius(r); }); }
static void distance(Ctx& c) { int f = c.choose(3, "factor"), m = c.choose(3, "maximum"); std::string l = label(c); judge(c, [=](Scene& s) { DistanceGrid* d = put(s, new DistanceGrid(3, 2, .5, .25, -.4, .3), "image"); auto& a = d->getGridData(DistanceGrid::DISTANCE); for (int i = 0; i < 6; ++i) a.data()[i] = 1 + 4 * i; PC* p = put(s, new PC, "cloud"); DistanceGridToPointcloud* o = oper(s, new DistanceGridToPointcloud, l); o->addInput(d); o->addOutput(p); if (f) o->setUncertaintyFactor(f == 1 ? .3 : .025); if (m) o->setMaxDistance(m == 1 ? 6.5 : 1000); }); }
static void meshing(Ctx& c) { int e = c.choose(2, "edge length"), sc = c.choose(2, "scale"), lo = c.choose(2, "minimum"), hi = c.choose(2, "maximum"), use = c.choose(2, "remission"), ex = c.choose(3, "markers"); std::string l = c.thorough ? label(c) : "mesh"; judge(c, [=](Scene& s) { LaserScan* k = put(s, new LaserScan, "scan"); k->delta_psi = .02f; k->origin_psi = -.03f; k->origin_phi = .1f; k->center_offset = V::Zero(); k->points_per_line = 4; for (int y = 0; y < 3; ++y) { LaserScan::scanline_t q; q.delta_phi = .03f * y; for (int x = 0; x < 4; ++x) { q.ranges.push_back(x == y ? 30 + 500 * (y % 2) : 1000 + 10 * ((x * 3 + y * 5) % 7)); q.remissions.push_back(7000 * x + 5 * y); } k->lines.push_back(q); }
    TriMesh* t = put(s, new TriMesh, "mesh"); ScanMeshing* o = oper(s, new ScanMeshing, l); o->addInput(k); o->addOutput(t); if (e) o->setMaxEdgeLength(.05); if (sc) o->setRemissionScaleFactor(2500); if (lo) o->setMinRange(1.02); if (hi) o->setMaxRange(1.045); if (use) o->useRemission(true); if (ex) o->setExtractMarkers(true); if (ex == 2) o->setRemissionMarkerThreshold(5000); }); }
static void simple(Ctx& c) { SimpleTraversabilityConfig k; k.maximum_slope = c.flag("slope") ? .5 : .9; k.class_count = c.flag("classes") ? 4 : 11; k.ground_clearance = c.flag("clearance") ? .2 : .45; k.min_width = c.flag("width") ? 1.3 : 0; k.obstacle_clearance = c.flag("obstacles") ? .8 : 0; int in = 1 + c.choose(3, "inputs"), band = c.choose(2, "bands"), one = c.choose(2, "one grid"); std::string l = c.thorough ? label(c) : "simple"; judge(c, [=](Scene& s) { GF* g[2]; for (int q = 0; q < 2; ++q) { g[q] = put(s, new GF(6, 5, .5, .5), q ? "steps" : "slopes"); for (int b = 0; b < 4; ++b) { auto& a = g[q]->getGridData("b" + std::to_string(b)); for (int i = 0; i < 30; ++i) a.data()[i] = b % 2 == 0 ? .07 * (i * (7 + b) % 13) : i == 8 || i == 20 - b ? .6 : i == 10 + b ? .3 : .1; } }
    TG* o = put(s, new TG(6, 5, .5, .5), "classes"); for (int i = 0; i < 14; ++i) o->setTraversabilityClass(i, TraversabilityClass(.07 * i)); SimpleTraversability* op = oper(s, new SimpleTraversability(k), l); if (in & 1) op->setSlope(g[0], band ? "b2" : "b0"); if (in & 2) op->setMaxStep(g[!one], band ? "b3" : "b1"); op->setOutput(o, band ? "other" : ""); }); }
static void bandsOf(Ctx& c) { int kind = c.choose(3, "operator"), b = c.choose(3, "band"); std::string l = label(c); judge(c, [=](Scene& s) { MLSGrid* m = put(s, new MLSGrid(3, 2, .5, .4), "mls"); if (kind != 2) fill(*m);
    if (kind == 0) { ElevationGrid* g = put(s, new ElevationGrid(3, 2, .5, .4), "grid"); g->getGridData("surface"); g->getGridData(ElevationGrid::ELEVATION_MAX); MLSToGrid* o = oper(s, new MLSToGrid, l); o->addInput(m); o->setOutput(g, b == 0 ? std::string("surface") : b == 1 ? ElevationGrid::ELEVATION_MAX : ElevationGrid::ELEVATION); }
    else if (kind == 1) { PC* p = put(s, new PC, "cloud"); MLSToPointCloud* o = oper(s, new MLSToPointCloud, l); o->setInput(m); o->setOutput(p); }
    else { GD* g = put(s, new GD(3, 2, .5, .4), "grid"); for (int k = 0; k < 3; ++k) { auto& a = g->getGridData("b" + std::to_string(k)); for (int i = 0; i < 6; ++i) a.data()[i] = 10 * k + i; } GridFloatToMLS* o = oper(s, new GridFloatToMLS, l); o->setInput(g, "b" + std::to_string(b)); o->setOutput(m); } }); }
// every operator the library can store, without any layer: class, identity and the number of layers it takes
typedef std::function<Operator*()> Maker;
template <class O> static Maker mk() { return [] { return (Operator*)new O; }; }
static void identity(Ctx& c) {
    static const std::vector<Maker> M = { mk<GridFloatToMLS>(), mk<MLSToGrid>(), mk<MLSToPointCloud>(), mk<DistanceGridToPointcloud>(), mk<MLSProjection>(), mk<MLSSlope>(), mk<MergeMLS>(), mk<MergePointcloud>(), mk<CutPointcloud>(), mk<GridIllumination>(), mk<DoubleFoldOperator>(), mk<TraversabilityGrassfire>(), mk<TraversabilityGrowClasses>(), mk<SimpleTraversability>(), mk<ScanMeshing>(), mk<ObjectGrowingUINT8>() };
    int k = c.choose(M.size(), "operator"), way = c.choose(4, "way"), id = c.choose(3, "id"), inputs = c.choose(4, "inputs"), outputs = c.choose(3, "outputs"); std::string l = label(c); c.step(); Environment e; Operator* o = M[k](); if (id) o->setUniqueId(id == 1 ? "/operator" : "/group/op 1"); if (!l.empty()) o->setLabel(l); e.attachItem(o); std::string key = o->getUniqueId(); if (id == 1) c.check(key == "/operator", "the id became %s", key.c_str());
    // how many layers it takes is part of what it is
    auto take = [&](Environment& e, Operator* o, int n, bool out) { int ok = 0; for (int i = 0; i < n; ++i) { Pointcloud* q = new Pointcloud; e.attachItem(q); if (!throws([&] { if (out) o->addOutput(q); else o->addInput(q); })) ++ok; } return ok; };
    int a = take(e, o, inputs, false), b = take(e, o, outputs, true); std::unique_ptr<Environment> n(stored(e, way == 3 ? 0 : way % 2)); if (way > 1) n.reset(stored(*n, way == 3)); char const* w = WAYS[way]; Operator* p = dynamic_cast<Operator*>(n->getItem(key).get()); std::string cls = o->getClassName();
    c.check(p, "%s: %s %s is lost", w, cls.c_str(), key.c_str()); c.check(typeid(*p) == typeid(*o) && p->getClassName() == cls, "%s: %s became %s", w, cls.c_str(), p->getClassName().c_str()); c.check(p->getUniqueId() == key && p->getLabel() == o->getLabel(), "%s: %s %s labelled '%s' became %s labelled '%s'", w, cls.c_str(), key.c_str(), o->getLabel().c_str(), p->getUniqueId().c_str(), p->getLabel().c_str()); c.check(n->getItems<Operator>().size() == 1, "%s: there are %zu operators", w, n->getItems<Operator>().size());
    c.check(names(n->getInputs(p)) == names(e.getInputs(o)) && names(n->getOutputs(p)) == names(e.getOutputs(o)), "%s: %s has other layers", w, cls.c_str()); int a2 = take(*n, p, 2, false), a1 = take(e, o, 2, false), b2 = take(*n, p, 2, true), b1 = take(e, o, 2, true); c.check(a1 == a2 && b1 == b2, "%s: %s takes %d more inputs and %d more outputs instead of %d and %d", w, cls.c_str(), a2, b2, a1, b1); c.outcome(mix(k, a * 8 + b));
}
int main(int argc, char** argv) {
    Engine e;
    e.add("identity", 1, 1, 3, false, identity, "all operators with all ids, labels and numbers of layers, stored in all ways");
    e.add("slopes", 1, 1, 2, false, slope, "all settings of the slope operator, stored in all ways before and after a run");
    e.add("projection", 1, 1, 3, false, project, "all settings of the projection into a surface grid");
    e.add("clouds", 1, 1, 1, false, clouds, "merging and cutting of clouds");
    e.add("merging", 1, 1, 1, false, merge, "merging of surface grids in both directions");
    e.add("light", 1, 1, 2, false, light, "all lights and bands");
    e.add("fold", 1, 1, 1, false, fold, "all neighbourhoods");
    e.add("grassfire", 1, 1, 3, false, fire, "all combinations of the configuration");
    e.add("growth", 1, 1, 1, false, classes, "all radii");
    e.add("distances", 1, 1, 2, false, distance, "all factors and limits");
    e.add("meshing", 1, 1, 2, false, meshing, "all settings of the scan meshing");
    e.add("simple", 1, 1, 3, false, simple, "all configurations, inputs and bands");
    e.add("bands", 1, 1, 1, false, bandsOf, "all bands of the conversions of grids");
    return e.main(argc, argv);
}
