// C01: the command line tools change a stored environment as described by their usage, and nothing else.
#include <envire/Core.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
#include <memory>
#include "C01.hpp"
#include "mc.hpp"
using namespace mc; using namespace envire; namespace fs = boost::filesystem;
typedef std::vector<std::string> Args; typedef std::map<std::string, std::string> Snap; typedef std::unique_ptr<Environment> Env;
static std::string dir() { static std::string d = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/tools" + std::to_string(getpid()); return d; }
static void fresh() { fs::remove_all(dir()); fs::create_directories(dir()); }
static std::string P(std::string const& n) { return dir() + "/" + n; }
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.7g", std::fabs(v) < 1e-9 ? 0. : v); return b; }
static std::string str(std::string const& s) { return "'" + s + "'"; }
static char const* const BANDS[] = { "", "grid_data", "elevation_min", "elevation_max", "illumination", "visibility", "mean_slope", "max_step", "corrected_max_step", "traversability_class", "traversability", "probability", "interpolated", "my band", "b2", "h" };
template<class T> static bool bands(GridBase* g, std::string& s) { Grid<T>* x = dynamic_cast<Grid<T>*>(g); if (!x) return false; s += std::string(" cells ") + typeid(T).name(); for (auto b : BANDS) if (x->hasBand(b)) { s += " band " + str(b) + ":"; auto& d = x->getGridData(b); for (size_t i = 0; i < d.num_elements(); ++i) s += " " + num(double(d.data()[i])); auto n = x->getNoData(b); if (n.second) s += " nodata " + num(double(n.first)); } return true; }
static std::string describe(Environment& e, EnvironmentItem* i) {
    std::string s = i->getClassName() + " label " + str(i->getLabel());
    if (FrameNode* f = dynamic_cast<FrameNode*>(i)) { s += " parent " + (f->getParent() ? f->getParent()->getUniqueId() : std::string("none")); for (int k = 0; k < 16; ++k) s += " " + num(f->getTransform().matrix()(k)); }
    if (CartesianMap* m = dynamic_cast<CartesianMap*>(i)) s += " frame " + (m->getFrameNode() ? m->getFrameNode()->getUniqueId() : std::string("none"));
    if (Layer* l = dynamic_cast<Layer*>(i)) { std::list<std::string> p; for (auto x : l->getParents()) p.push_back(x->getUniqueId()); p.sort(); for (auto& x : p) s += " parent " + x; }
    if (GridBase* g = dynamic_cast<GridBase*>(i)) { s += " size " + num(g->getCellSizeX()) + "x" + num(g->getCellSizeY()) + " scale " + num(g->getScaleX()) + "x" + num(g->getScaleY()) + " offset " + num(g->getOffsetX()) + "x" + num(g->getOffsetY()); bands<uint8_t>(g, s) || bands<int16_t>(g, s) || bands<uint16_t>(g, s) || bands<int32_t>(g, s) || bands<uint32_t>(g, s) || bands<float>(g, s) || bands<double>(g, s); }
    if (MLSGrid* g = dynamic_cast<MLSGrid*>(i)) { s += " gap " + num(g->getGapSize()) + " thickness " + num(g->getHorizontalPatchThickness()); for (size_t x = 0; x < g->getCellSizeX(); ++x) for (size_t y = 0; y < g->getCellSizeY(); ++y) { std::vector<std::string> c; for (MLSGrid::iterator k = g->beginCell(x, y); k != g->endCell(); ++k) c.push_back(" (" + num(k->mean) + " " + num(k->stdev) + " " + num(k->height) + " " + num(k->isHorizontal()) + " " + num(k->getMeasurementCount()) + ")"); std::sort(c.begin(), c.end()); s += " cell"; for (auto& k : c) s += k; } }
    if (Pointcloud* p = dynamic_cast<Pointcloud*>(i)) { for (auto& v : p->vertices) s += " <" + num(v.x()) + " " + num(v.y()) + " " + num(v.z()) + ">"; if (p->hasData(Pointcloud::VERTEX_VARIANCE)) for (double d : p->getVertexData<double>(Pointcloud::VERTEX_VARIANCE)) s += " var " + num(d); }
    if (Operator* o = dynamic_cast<Operator*>(i)) { std::vector<std::string> v; for (auto l : e.getInputs(o)) v.push_back(" input " + l->getUniqueId()); for (auto l : e.getOutputs(o)) v.push_back(" output " + l->getUniqueId()); std::sort(v.begin(), v.end()); for (auto& x : v) s += x; }
    return s; }
static Snap snap(Environment& e) { Snap s; for (auto* i : e.getItems<EnvironmentItem>()) s[i->getUniqueId()] = describe(e, i); return s; }
static Env load(std::string const& p) { return Env(Environment::unserialize(p)); }
// new items are compared by their class, since their ids are free
static Snap canonical(Snap const& s, Snap const& old, std::map<std::string, std::string>* names = 0) { std::map<std::string, std::string> n; std::map<std::string, int> count; for (auto& x : s) { if (old.count(x.first)) { n[x.first] = x.first; continue; } std::string c = x.second.substr(0, x.second.find(' ')); int k = count[c]++; n[x.first] = "new:" + c + (k ? std::to_string(k) : ""); } if (names) *names = n;
    Snap r; for (auto& x : s) { std::istringstream is(x.second); std::string w, d; while (is >> w) d += (n.count(w) ? n[w] : w) + " "; r[n[x.first]] = d; } return r; }
static void same(Ctx& c, Snap const& got, Snap const& want, char const* who) { for (auto& w : want) { auto g = got.find(w.first); c.check(g != got.end(), "%s: item %s is missing", who, w.first.c_str()); c.check(g->second == w.second, "%s: item %s is\n   %s\n  instead of\n   %s", who, w.first.c_str(), g->second.c_str(), w.second.c_str()); } for (auto& g : got) c.check(want.count(g.first), "%s: item %s was added", who, g.first.c_str()); }
static std::string line(std::string const& s) { std::istringstream is(s); std::string r, l; while (std::getline(is, l)) if (!l.empty()) r = l; return r; }
static void judge(Ctx& c, int tool, Args const& a, std::string const& path, Snap const& old, Env want, bool ok, char const* printed) {
    std::string cmd = toolName(tool); for (auto& x : a) cmd += " " + (x.find(dir()) == 0 ? x.substr(dir().size() + 1) : x); Run r = run(tool, a); c.step();
    if (!ok) { c.check(!r.ended, "'%s' was accepted", cmd.c_str()); Env e = load(path); same(c, snap(*e), old, (cmd + " (refused)").c_str()); return; }
    c.check(r.ended, "'%s' failed: %s", cmd.c_str(), r.why.c_str()); Env e = load(path); std::map<std::string, std::string> names; Snap got = canonical(snap(*e), old, &names); same(c, got, canonical(snap(*want), old), cmd.c_str());
    if (printed) { std::string l = line(r.out); c.check(names.count(l) && names[l].find(printed) != std::string::npos, "'%s' reports '%s'", cmd.c_str(), l.c_str()); } c.outcome(got.size()); }
static Transform tf(double x, double y, double z, double a) { return Transform(Eigen::Translation3d(x, y, z) * Eigen::AngleAxisd(a, Eigen::Vector3d::UnitZ())); }
// the environment all histories start with
static void build() { fresh(); Env e(new Environment); FrameNode *f1 = new FrameNode(tf(1, 2, 0, 0)), *f2 = new FrameNode(tf(-.5, .5, 1, .5)); f1->setLabel("first"); e->addChild(e->getRootNode(), f1); e->addChild(f1, f2);
    ElevationGrid* g = new ElevationGrid(3, 2, .5, 1, -1, .5); e->attachItem(g, f1); for (int k = 0; k < 6; ++k) { g->getGridData("elevation_min").data()[k] = k * .25 - 1; g->getGridData("elevation_max").data()[k] = k * .5; }
    Grid<float>* s = new Grid<float>(2, 3, .5, .5, 1, 0); e->attachItem(s, f1); for (int k = 0; k < 6; ++k) { s->getGridData("mean_slope").data()[k] = k * .2; s->getGridData("corrected_max_step").data()[k] = k * .05; s->getGridData("h").data()[k] = 2 - k; } s->setNoData("h", -99);
    MLSGrid* m = new MLSGrid(3, 2, .5, .5, -.5, .25); e->attachItem(m, f1); m->setGapSize(.3); m->insertHead(0, 0, MLSGrid::SurfacePatch(1, .1)); m->insertHead(2, 1, MLSGrid::SurfacePatch(2, .2)); m->insertHead(2, 1, MLSGrid::SurfacePatch(.5, .1, .25)); m->insertHead(1, 0, MLSGrid::SurfacePatch(1.25, .1));
    Grid<double>* d = new Grid<double>(3, 2, .5, .5, -.5, .25); e->attachItem(d, f1); for (int k = 0; k < 6; ++k) d->getGridData("b2").data()[k] = 3 * k; Pointcloud* p = new Pointcloud; e->attachItem(p, f2); for (int k = 0; k < 5; ++k) p->vertices.push_back(Eigen::Vector3d(k * .3, k * k * .1, k)); e->serialize(P("base")); }
struct Start { Snap old; std::string f1, f2, elevation, slope, mls, grid, cloud; };
static Start start() { static pid_t of = 0; if (of != getpid()) { build(); of = getpid(); } if (fs::exists(P("env"))) fs::remove_all(P("env")); fs::create_directories(P("env")); for (fs::directory_iterator i(P("base")), n; i != n; ++i) fs::copy(i->path(), fs::path(P("env")) / i->path().filename());
    Env e = load(P("env")); Start s; s.old = snap(*e); for (auto* i : e->getItems<EnvironmentItem>()) { std::string u = i->getUniqueId(); if (FrameNode* f = dynamic_cast<FrameNode*>(i)) { if (!f->isRoot()) (f->getParent()->isRoot() ? s.f1 : s.f2) = u; } else if (dynamic_cast<ElevationGrid*>(i)) s.elevation = u; else if (dynamic_cast<Grid<float>*>(i)) s.slope = u; else if (dynamic_cast<MLSGrid*>(i)) s.mls = u; else if (dynamic_cast<Grid<double>*>(i)) s.grid = u; else s.cloud = u; } return s; }
template<class T> static EnvironmentItem::Ptr get(Environment& e, std::string const& id) { return e.getItem<T>(id); }
static GridBase* make(std::string const& type, int w, int h, double sx, double sy, double ox, double oy) { if (type == "envire::ElevationGrid") return new ElevationGrid(w, h, sx, sy, ox, oy); if (type == "envire::Grid_d") return new Grid<double>(w, h, sx, sy, ox, oy); if (type == "envire::Grid_f") return new Grid<float>(w, h, sx, sy, ox, oy); if (type == "envire::TraversabilityGrid") return new TraversabilityGrid(w, h, sx, sy, ox, oy); if (type == "envire::MLSGrid") return new MLSGrid(w, h, sx, sy, ox, oy); return 0; }
static char const* const TYPES[] = { "envire::Grid_d", "envire::Grid_f", "envire::ElevationGrid", "envire::MLSGrid", "envire::TraversabilityGrid", "envire::Nonsense" };
static void creation(Ctx& c) { // empty environments and grids in them
    fresh(); int k = c.choose(4, "arguments"); c.step(); Args a; if (k == 1) a = { P("e") }; else if (k == 2) a = { P("e"), "x" }; else if (k == 3) a = { P("env") }; Run r = run(CREATE, a); if (k == 0 || k == 2) { c.check(!r.ended, "env_create with %zu arguments was accepted", a.size()); c.check(!fs::exists(P("e")), "env_create made an environment in spite of wrong arguments"); return; }
    c.check(r.ended, "env_create failed: %s", r.why.c_str()); Env e = load(a[0]); Env w(new Environment); same(c, snap(*e), snap(*w), "env_create"); }
static void createGrid(Ctx& c) { Start s = start(); std::string type = TYPES[c.choose(6, "type")]; int mode = c.choose(10, "mode"), cut = c.choose(4, "arguments missing"); static const double N[][6] = { { 4, 3, .5, .25, -1, 2.5 }, { 1, 5, 2, 1, 0, 0 } }; int q = c.choose(2, "numbers"); double const* n = N[q]; Args a = { P("env"), type }; bool ok = true, off = false; std::string frame = "", map; std::vector<std::string> b;
    if (mode < 7) { for (int k = 0; k < 4; ++k) a.push_back(num(n[k])); if (mode == 1 || mode == 3 || mode == 5) { off = true; a.push_back(num(n[4])); a.push_back(num(n[5])); } if (mode >= 2) { frame = mode == 6 ? "/nonsense" : q ? s.f1 : s.f2; a.push_back("-frame"); a.push_back(frame); } if (mode == 4 || mode == 5) { b = { "my band", "b2" }; if (q) b.pop_back(); a.push_back("-bands"); a.insert(a.end(), b.begin(), b.end()); } } else { map = mode == 7 ? s.elevation : mode == 8 ? s.mls : "/nonsense"; a.push_back("-map"); a.push_back(map); }
    Env w = load(P("env")); int full = a.size(); if (cut && cut >= full - 1) return; for (int k = 0; k < cut; ++k) { std::string last = a.back(); a.pop_back(); if (!b.empty()) { b.pop_back(); if (b.empty() && q) { } } }
    // what the arguments that are left mean
    { size_t i = 2; frame = map = ""; off = false; b.clear(); if (a.size() > i && a[i] == "-map") { ok = a.size() == 4; if (ok) map = a[3]; } else { ok = a.size() >= 6; i = 6; if (ok && a.size() > i && a[i] != "-frame") { off = true; ok = a.size() >= i + 2; i += 2; } if (ok && a.size() > i) { ok = a[i] == "-frame" && a.size() > i + 1; if (ok) { frame = a[i + 1]; i += 2; if (a.size() > i) { ok = a[i] == "-bands"; b.assign(a.begin() + i + 1, a.end()); } } } } }
    if (type == TYPES[5]) ok = false; if (frame == "/nonsense" || map == "/nonsense") ok = false; if (!b.empty() && type == "envire::MLSGrid") ok = false;
    if (ok) { GridBase* src = map.empty() ? 0 : w->getItem<GridBase>(map).get(); GridBase* g = src ? make(type, src->getCellSizeX(), src->getCellSizeY(), src->getScaleX(), src->getScaleY(), src->getOffsetX(), src->getOffsetY()) : make(type, int(n[0]), int(n[1]), n[2], n[3], off ? n[4] : 0, off ? n[5] : 0); for (auto& x : b) { if (Grid<double>* t = dynamic_cast<Grid<double>*>(g)) t->getGridData(x); if (Grid<float>* t = dynamic_cast<Grid<float>*>(g)) t->getGridData(x); if (Grid<uint8_t>* t = dynamic_cast<Grid<uint8_t>*>(g)) t->getGridData(x); } w->attachItem(g, src ? src->getFrameNode() : frame.empty() ? w->getRootNode() : w->getItem<FrameNode>(frame).get()); }
    judge(c, CREATE_GRID, a, P("env"), s.old, std::move(w), ok, "new:"); }
template<class T> static void raster(std::string const& p, GDALDataType dt, int sx, int sy, double x0, double y0) { GDALAllRegister(); double gt[6] = { x0, sx ? -.5 : .5, 0, y0, 0, sy ? -.5 : .5 }; GDALDataset* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(p.c_str(), 3, 2, 1, dt); d->SetGeoTransform(gt); std::vector<T> v; for (int k = 0; k < 6; ++k) v.push_back(T(k * 3 + 1)); d->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, 3, 2, v.data(), 3, 2, dt, 0, 0); GDALClose(d); }
static void addGrid(Ctx& c) { Start s = start(); int dt = c.choose(3, "cells"), gt = c.choose(4, "position"), mode = c.choose(11, "mode"); std::string file = P("file.tiff"); if (fs::exists(file)) fs::remove(file); double x0 = gt == 1 ? 4.5 : gt == 2 ? 1.5 : gt == 3 ? -3 : 0, y0 = gt == 1 ? -2 : gt == 2 ? 1 : gt == 3 ? 7 : 0; int fx = gt == 2, fy = gt >= 2; if (dt == 0) raster<double>(file, GDT_Float64, fx, fy, x0, y0); else if (dt == 1) raster<float>(file, GDT_Float32, fx, fy, x0, y0); else raster<int16_t>(file, GDT_Int16, fx, fy, x0, y0);
    Args a = { P("env"), mode == 10 ? P("missing.tiff") : file, "my band" }; bool ok = mode != 10; std::string type, frame, map; if (mode == 1 || mode == 4 || mode == 7) { type = dt == 1 ? "envire::Grid_f" : "envire::Grid_d"; a.push_back(type); } if (mode == 2 || mode == 4) frame = s.f2; else if (mode == 3 || mode == 7) map = dt == 1 ? s.slope : s.grid; else if (mode == 5) frame = "/nonsense"; else if (mode == 6) map = "/nonsense"; if (mode == 8) a.pop_back(); if (mode == 9) { a.push_back("-frame"); } if (!frame.empty()) { a.push_back("-frame"); a.push_back(frame); } if (!map.empty()) { a.push_back("-map"); a.push_back(map); } if (mode >= 5) ok = false; 
    Env w = load(P("env")); if (ok) { std::pair<GridBase::Ptr, Transform> r = GridBase::readGridFromGdal(file, "my band"); GridBase::Ptr t = r.first; if (!type.empty()) { t = make(type, 3, 2, t->getScaleX(), t->getScaleY(), t->getOffsetX(), t->getOffsetY()); } 
        try { if (!map.empty()) w->getItem<GridBase>(map)->copyBandFrom(*r.first, "my band"); else { if (!type.empty()) t->copyBandFrom(*r.first, "my band"); FrameNode* f; if (!frame.empty()) f = w->getItem<FrameNode>(frame).get(); else if (r.second.isApprox(Transform::Identity())) f = w->getRootNode(); else { f = new FrameNode(r.second); w->addChild(w->getRootNode(), f); } w->attachItem(t.get(), f); } } catch (std::exception&) { ok = false; } }
    judge(c, ADD_GRID, a, P("env"), s.old, std::move(w), ok, map.empty() ? "new:" : map.c_str()); }
static void removal(Ctx& c) { // all sequences of ids
    Start s = start(); std::vector<std::string> ids = { s.f1, s.f2, s.elevation, s.slope, s.mls, s.cloud, "/nonsense" }; Args a = { P("env") }; int n = c.choose(c.bound + 1, "ids"); std::set<std::string> gone; for (int k = 0; k < n; ++k) { std::string i = c.pick(ids, "id"); a.push_back(i); gone.insert(i); if (i == s.f1) { for (auto& x : ids) gone.insert(x); gone.insert(s.grid); } if (i == s.f2) gone.insert(s.cloud); }
    if (n == 0) { Run r = run(DELETE, a); c.check(!r.ended, "env_delete_item without ids was accepted"); Env e = load(P("env")); same(c, snap(*e), s.old, "env_delete_item"); return; } Run r = run(DELETE, a); c.step(); c.check(r.ended, "env_delete_item failed: %s", r.why.c_str()); Snap want = s.old; for (auto& g : gone) want.erase(g); Env e = load(P("env")); same(c, snap(*e), want, "env_delete_item"); c.outcome(want.size()); }
static void operators(Ctx& c) { // sequences of conversions
    Start s = start(); int n = c.bound; Snap old = s.old; for (int i = 0; i < n; ++i) { int k = c.choose(11, "tool"); Env w = load(P("env")); Args a = { P("env") }; bool ok = true; std::string path = P("env"); char const* printed = "new:"; int tool; if ((k >= 4 && k <= 7) && w->getItems<Operator>().size() > 1) return; // the order of updates is free
        auto item = [&](std::string const& id) { return w->getItem<EnvironmentItem>(id).get(); };
        try {
        if (k < 2) { tool = GRID_TO_MLS; std::string id = k ? s.slope : s.elevation, b = k ? "h" : "elevation_max"; a.insert(a.end(), { id, b, s.mls }); GridFloatToMLS* o = new GridFloatToMLS; w->attachItem(o); o->setInput(dynamic_cast<GridBase*>(item(id)), b); o->setOutput(dynamic_cast<MLSGrid*>(item(s.mls))); o->updateAll(); }
        else if (k < 4) { tool = MLS_TO_GRID; std::string id = k == 2 ? s.grid : s.elevation, b = k == 2 ? "h" : "elevation_min"; a.insert(a.end(), { s.mls, id, b }); MLSToGrid* o = new MLSToGrid; w->attachItem(o); o->setInput(dynamic_cast<MLSGrid*>(item(s.mls))); o->setOutput(dynamic_cast<Grid<double>*>(item(id)), b); o->updateAll(); }
        else if (k < 6) { tool = MLS_TO_PC; if (k == 5) a.push_back(s.mls); w->updateOperators(); MLSGrid* m = dynamic_cast<MLSGrid*>(item(s.mls)); Pointcloud* p = new Pointcloud; w->attachItem(p, m->getFrameNode()); for (size_t x = 0; x < 3; ++x) for (size_t y = 0; y < 2; ++y) for (MLSGrid::iterator q = m->beginCell(x, y); q != m->endCell(); ++q) p->vertices.push_back(Eigen::Vector3d(m->getOffsetX() + (x + .5) * .5, m->getOffsetY() + (y + .5) * .5, q->mean)); printed = 0; }
        else if (k == 6) { tool = SLOPES; if (i == 0) a.push_back(s.mls); w->updateOperators(); MLSGrid* m = dynamic_cast<MLSGrid*>(item(s.mls)); Grid<float>* g = new Grid<float>(3, 2, .5, .5, -.5, .25); w->attachItem(g, m->getFrameNode()); MLSSlope* o = new MLSSlope; w->attachItem(o); o->addInput(m); o->addOutput(g); o->updateAll(); printed = 0; }
        else if (k == 7) { tool = UPDATE; w->updateOperators(); printed = 0; }
        else if (k == 8) { tool = ILLUMINATION; a.insert(a.end(), { s.elevation, "illumination", "3", "-1", "4", "0.5" }); GridIllumination* o = new GridIllumination; w->attachItem(o); o->setOutputBand("illumination"); o->setLightSource(base::Vector3d(3, -1, 4), .5); o->addOutput(dynamic_cast<GridBase*>(item(s.elevation))); o->updateAll(); }
        else if (k == 9) { tool = INFO; printed = 0; }
        else { tool = MLS_TO_PC; a.push_back("/nonsense"); ok = false; }
        } catch (std::exception&) { ok = false; }
        judge(c, tool, a, path, old, std::move(w), ok, printed); Env e = load(P("env")); old = snap(*e); } }
static void traversability(Ctx& c) { Start s = start(); int n = c.choose(6, "arguments"); std::vector<std::vector<std::string> > v = { { "0.3", "1.0" }, { "4", "2" }, { "0.25", "1.5" }, { "0.1", "0" }, { "5" } }; Args a = { P("env") }; std::vector<double> x = { 0, 10, .5, 0 }; for (int k = 0; k < n; ++k) { a.push_back(c.pick(v[k], "value")); if (k < 4) x[k] = atof(a.back().c_str()); } bool ok = n >= 1 && n <= 4; Env w = load(P("env"));
    if (ok) { Grid<float>* in = w->getItem<Grid<float> >(s.slope).get(); SimpleTraversability::OutputLayer* o = new SimpleTraversability::OutputLayer(2, 3, .5, .5, 1, 0); w->attachItem(o, in->getFrameNode()); SimpleTraversability* p = new SimpleTraversability(x[0], int(x[1]), x[2], x[3]); w->attachItem(p); p->setSlope(in, "mean_slope"); p->setMaxStep(in, "corrected_max_step"); p->setOutput(o, "traversability_class"); p->updateAll(); } judge(c, TRAVERSABILITY, a, P("env"), s.old, std::move(w), ok, 0); }
static void trajectory(Ctx& c) { // all trajectories of a few points with and without white space in the end
    Start s = start(); int n = c.choose(c.bound + 1, "points"), end = c.choose(4, "end"); std::ofstream f(P("trajectory").c_str()); Env e = load(P("env")); MLSGrid* m = e->getItem<MLSGrid>(s.mls).get(); std::vector<double> want; for (int k = 0; k < n; ++k) { int x = c.choose(5, "x"), y = c.choose(4, "y"); double px = 1 - .5 + (x - 1) * .5 + .25, py = 2 + .25 + (y - 1) * .5 + .25; f << (k ? "\n" : "") << px << " " << py << " " << k; double t = -1e9; if (x >= 1 && x <= 3 && y >= 1 && y <= 2) for (MLSGrid::iterator q = m->beginCell(x - 1, y - 1); q != m->endCell(); ++q) t = std::max(t, double(q->mean)); want.push_back(t); } f << (end == 1 ? "\n" : end == 2 ? "\n\n" : end == 3 ? "  \n" : ""); f.close();
    Args a = { P("env"), P("trajectory") }; Run r = run(TRAJECTORY, a); c.step(); c.check(r.ended, "env_mls_trajectory failed: %s", r.why.c_str()); std::istringstream is(r.out); std::vector<double> got; std::string l; while (std::getline(is, l)) { std::istringstream ls(l); double v; while (ls >> v) got.push_back(v); } c.check(got.size() == want.size(), "%zu heights for %zu points", got.size(), want.size()); for (size_t k = 0; k < want.size(); ++k) c.check(std::fabs(got[k] - want[k]) < 1e-4 || std::fabs(got[k] / want[k] - 1) < 1e-4, "point %zu: height %g instead of %g", k, got[k], want[k]);
    Env g = load(P("env")); same(c, snap(*g), s.old, "env_mls_trajectory"); c.outcome(n); }
static void noise(Ctx& c) { Start s = start(); Args a = { "--input-env", P("env"), "--output-env", P("out") }; bool cst = c.flag("const"), sph = c.flag("sphere"); int slope = c.choose(3, "slope"), nor = c.choose(2, "normal"), sc = c.choose(2, "scale"), cen = c.choose(2, "center"), win = c.choose(3, "window"); if (cst) a.push_back("--const"); if (sph) { a.push_back("--sphere"); a.push_back("0.8"); } if (slope) { a.push_back("--slope"); a.push_back(slope == 1 ? "90" : "30"); } if (nor) { a.push_back("--normal"); a.push_back("0.5"); } if (sc) { a.push_back("--scale"); a.push_back("2.5"); } if (cen) { a.push_back("--center"); a.push_back("-0.5,1.5"); } if (win) { a.push_back("--window"); a.push_back(win == 1 ? "1,2" : "100,100"); } if (!c.thorough && sc && slope == 1) return;
    Env w = load(P("env")); ElevationGrid* g = w->getItem<ElevationGrid>(s.elevation).get(); double cx = cen ? -.5 : 0, cy = cen ? 1.5 : 0, wx = win == 0 ? 1.5 : win == 1 ? 1 : 100, wy = win == 0 ? 2 : win == 1 ? 2 : 100, scale = sc ? 2.5 : 1; double x0 = std::max(-1., cx - wx / 2), x1 = std::min(.5, cx + wx / 2), y0 = std::max(.5, cy - wy / 2), y1 = std::min(2.5, cy + wy / 2);
    // the samples have the distance of cells, beginning half a cell behind the edge of the window
    for (double x = x0 + .25; x < x1 - 1e-9; x += .5) for (double y = y0 + .5; y < y1 - 1e-9; y += 1) { size_t i, j; if (!g->toGrid(x, y, i, j)) continue; double& h = g->getGridData("elevation_max")[j][i]; double r = std::hypot(x - cx, y - cy), an = slope == 1 ? M_PI / 2 : M_PI / 6; if (cst) h += scale; if (slope) h += (std::cos(an) * x + std::sin(an) * y) * scale; if (nor) h += std::exp(-.5 * r * r / .25) * scale; if (sph && r < .8) h += std::sqrt(.64 - r * r) * scale; }
    if (fs::exists(P("out"))) fs::remove_all(P("out")); Run r = run(NOISE, a); c.step(); c.check(r.ended, "env_grid_add_noise failed: %s", r.why.c_str()); Env e = load(P("out")); ElevationGrid* o = e->getItem<ElevationGrid>(s.elevation).get(); for (int k = 0; k < 6; ++k) { double x = o->getGridData("elevation_max").data()[k], y = g->getGridData("elevation_max").data()[k]; c.check(std::fabs(x - y) < 1e-4, "cell %d: %g instead of %g", k, x, y); o->getGridData("elevation_max").data()[k] = g->getGridData("elevation_max").data()[k]; } same(c, snap(*e), snap(*w), "env_grid_add_noise"); Env b = load(P("env")); same(c, snap(*b), s.old, "input of env_grid_add_noise"); }
static void slam(Ctx& c) { // scans and poses, there and back
    static const std::vector<Transform> T = { tf(0, 0, 0, 0), tf(1, -2, 3, .7), Transform(Eigen::Translation3d(-4, 5, .5) * Eigen::AngleAxisd(.4, Eigen::Vector3d(1, 2, -1).normalized())) }; fresh(); int n = c.choose(4, "clouds"), sel = c.choose(3, "selection"); Env e(new Environment); std::vector<std::string> ids; std::vector<Transform> at; for (int k = 0; k < n; ++k) { Transform t = c.pick(T, "pose"); FrameNode* f = new FrameNode(t); e->addChild(e->getRootNode(), f); Pointcloud* p = new Pointcloud; p->vertices.push_back(Eigen::Vector3d(k, 2, 3)); e->attachItem(p, f); ids.push_back(p->getUniqueId()); at.push_back(t); } e->attachItem(new ElevationGrid(1, 1, 1, 1), e->getRootNode()); e->serialize(P("env"));
    std::string list; std::vector<int> used; if (sel == 1) { for (int k = n - 1; k >= 0; k -= 2) { list += (list.empty() ? "" : " ") + ids[k]; used.push_back(k); } list += list.empty() ? "/nonsense" : " /nonsense"; } else for (int k = 0; k < n; ++k) used.push_back(k); Args a = { "generate", P("env"), P("slam/data") }; if (sel == 1) a.push_back(list); Run r = run(SLAM6D, a); c.step(); c.check(r.ended, "env_slam6d generate failed: %s", r.why.c_str()); int poses = 0; for (fs::directory_iterator i(P("slam/data")), z; i != z; ++i) poses += i->path().extension() == ".pose"; c.check(poses == int(used.size()), "%d poses of %zu clouds", poses, used.size());
    Eigen::Matrix3d S = Eigen::Matrix3d::Zero(); S(0, 1) = S(1, 2) = S(2, 0) = 1; std::vector<Transform> want = at; for (size_t k = 0; k < used.size(); ++k) { char b[20]; snprintf(b, 20, "scan%03zu", k); std::string pre = P("slam/data/") + b; std::ifstream id((pre + ".id").c_str()), ps((pre + ".pose").c_str()), ply((pre + ".ply").c_str()); std::string u; id >> u; c.check(u == ids[used[k]], "scan %zu is of %s instead of %s", k, u.c_str(), ids[used[k]].c_str()); c.check(ply.good(), "the points of scan %zu do not exist", k); Eigen::Vector3d t, q; for (int j = 0; j < 3; ++j) ps >> t[j]; for (int j = 0; j < 3; ++j) ps >> q[j]; c.check(!ps.fail(), "pose of scan %zu is not readable", k);
        Transform x = at[used[k]]; c.check((t - Eigen::Vector3d(x.translation().y(), x.translation().z(), x.translation().x())).norm() < 1e-4, "scan %zu is at the wrong place", k); Eigen::Matrix3d R; R = Eigen::AngleAxisd(q[0], Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(q[1], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(q[2], Eigen::Vector3d::UnitZ()); c.check((R - S * x.linear() * S.transpose()).norm() < 1e-4, "scan %zu has the wrong orientation", k);
        if (sel == 2 && k == 0) continue; Transform y = T[(k + 1) % 3]; Eigen::Matrix4d M = Eigen::Matrix4d::Identity(); M.topLeftCorner<3, 3>() = S * y.linear() * S.transpose(); M.topRightCorner<3, 1>() = S * y.translation(); std::ofstream fr((pre + ".frames").c_str()); for (int l = 0; l < 2; ++l) { for (int j = 0; j < 16; ++j) fr << (l ? M(j) : double(j == 0)) << " "; fr << (l ? "2" : "1") << "\n"; } want[used[k]] = y; }
    Snap old; { Env b = load(P("env")); old = snap(*b); } Args b = { "update", P("env"), P("slam/data") }; r = run(SLAM6D, b); c.check(r.ended, "env_slam6d update failed: %s", r.why.c_str()); Env g = load(P("env")); Snap now = snap(*g); c.check(now.size() == old.size(), "items were added or removed"); for (int k = 0; k < n; ++k) { FrameNode* f = g->getItem<Pointcloud>(ids[k])->getFrameNode(); c.check((f->getTransform().matrix() - want[k].matrix()).norm() < 1e-4, "cloud %d is not at its new pose", k); now.erase(f->getUniqueId()); old.erase(f->getUniqueId()); } same(c, now, old, "env_slam6d update"); c.outcome(used.size()); }
static void text(Ctx& c) { fresh(); int n = c.choose(4, "points"), end = c.choose(3, "end"), arg = c.choose(3, "arguments"); std::ofstream f(P("a.asc").c_str()); std::vector<Eigen::Vector3d> v; for (int k = 0; k < n; ++k) { int q = c.choose(3, "point"); v.push_back(Eigen::Vector3d(q * .5 - 1, k, 2 - q)); f << (k ? "\n" : "") << v[k].transpose() << " " << 51 * k; } f << (end == 1 ? "\n" : end == 2 ? " \n\n" : ""); f.close(); Args a = { P("a.asc"), P("a.ply") }; if (arg) a.push_back("1"); if (arg == 2) a.push_back("0"); Run r = run(ASC2PLY, a); c.step(); c.check(r.ended, "asc2ply failed: %s", r.why.c_str());
    Pointcloud p; std::ifstream is(P("a.ply").c_str()); bool ok = p.readPly("x", is); if (n) c.check(ok, "the file is not readable"); c.check(p.vertices.size() == v.size(), "%zu points instead of %zu", p.vertices.size(), v.size()); for (int k = 0; k < n; ++k) c.check((p.vertices[k] - v[k]).norm() < 1e-5, "point %d is at another place", k); if (n) { c.check(p.hasData(Pointcloud::VERTEX_COLOR), "the remissions are lost"); auto& col = p.getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR); for (int k = 0; k < n; ++k) c.check(std::fabs(col[k].x() - .2 * k) < .005, "point %d has colour %g", k, col[k].x()); } c.outcome(n); }
static void surfaces(Ctx& c) { // surfaces of the cloud within given limits
    static char const* const X[] = { "-1 -1 3 4", "0.5 2 2 4", "10 10 11 11", "1.25 2.25 1.75 3.25" }; static const double D[][4] = { { -1, -1, 3, 4 }, { .5, 2, 2, 4 }, { 10, 10, 11, 11 }, { 1.25, 2.25, 1.75, 3.25 } }; Start s = start(); int x = c.choose(4, "limits"), r = c.choose(2, "resolution"), v = c.choose(2, "variance"), g = c.choose(2, "gap"), t = c.choose(2, "thickness"); std::vector<std::string> R = { "0.5", "0.25" }, V = { "0.1", "0.5" }, G = { "0.5", "1.5" }, T = { "0.25", "1" }; if (fs::exists(P("out"))) fs::remove_all(P("out"));
    Env w = load(P("env")); FrameNode* f = new FrameNode(Transform(Eigen::Translation3d(D[x][0], D[x][1], 0))); w->addChild(w->getRootNode(), f); MLSProjection* p = new MLSProjection; p->useUncertainty(false); w->attachItem(p); Pointcloud* pc = w->getItem<Pointcloud>(s.cloud).get(); pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).assign(pc->vertices.size(), atof(V[v].c_str())); p->addInput(pc); double res = atof(R[r].c_str()); MLSGrid* m = new MLSGrid(size_t((D[x][2] - D[x][0]) / res + .5), size_t((D[x][3] - D[x][1]) / res + .5), res, res); w->attachItem(m, f); m->setGapSize(atof(G[g].c_str())); m->setHorizontalPatchThickness(atof(T[t].c_str())); p->addOutput(m); p->updateAll();
    Env want(new Environment); Snap old = snap(*want); EnvironmentItem::Ptr mp = w->detachItem(m), fp = w->detachItem(f); want->addChild(want->getRootNode(), f); want->attachItem(m, f); Args a = { P("env"), P("out"), R[r], V[v], G[g], T[t], X[x] }; Run q = run(MLS, a); c.step(); c.check(q.ended, "env_mls failed: %s", q.why.c_str()); Env e = load(P("out")); Snap now = canonical(snap(*e), old); same(c, now, canonical(snap(*want), old), "env_mls"); Env b = load(P("env")); same(c, snap(*b), s.old, "input of env_mls"); c.outcome(std::hash<std::string>()(now.count("new:envire::MLSGrid") ? now["new:envire::MLSGrid"] : "")); }
int main(int argc, char** argv) {
    Engine e;
    e.add("creation", 1, 1, 1, false, creation, "env_create with all numbers of arguments");
    e.add("grids", 1, 1, 2, false, createGrid, "env_create_grid with all types, forms and missing arguments");
    e.add("files", 1, 1, 2, false, addGrid, "env_add_grid with all files, positions and forms");
    e.add("removal", 2, 3, 2, false, removal, "env_delete_item with up to n ids");
    e.add("operators", 2, 3, 1, false, operators, "all sequences of n conversions and updates");
    e.add("traversability", 1, 1, 2, false, traversability, "env_traversability with all numbers of arguments");
    e.add("trajectory", 2, 2, 2, false, trajectory, "env_mls_trajectory with up to n points");
    e.add("noise", 1, 1, 3, false, noise, "env_grid_add_noise with all options");
    e.add("surfaces", 1, 1, 2, false, surfaces, "env_mls with all limits and settings");
    e.add("slam6d", 1, 1, 2, false, slam, "env_slam6d with up to three clouds at all poses");
    e.add("text", 1, 1, 2, false, text, "asc2ply with up to three points");
    return e.main(argc, argv);
}
