// M03: band data of grids is exact in memory, copies, files and events.
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include "envmodel.hpp"
#include "mc.hpp"
#include <dirent.h>
using namespace envire; using namespace mc; using tmod::pose;
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/grid" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
template<class T> T val(int k) {
    static const T V[] = { T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(77), T(std::numeric_limits<T>::is_integer ? 13 : 1.0 / 3), T(std::numeric_limits<T>::is_signed ? -5 : 200), std::numeric_limits<T>::min(), T(10) };
    return V[k % 8];
}
template<class T> struct Model {
    size_t nx, ny; double sx, sy, ox, oy; std::map<std::string, std::vector<T> > bands; std::map<std::string, T> nodata;
    std::vector<T>& band(std::string const& b) { auto& v = bands[b]; if (v.empty()) v.assign(nx * ny, T(0)); return v; }
    uint64_t hash() const { uint64_t h = mix(nx, ny); for (auto& b : bands) { h = mix(h, hashStr(b.first)); h = mix(h, hashBytes(b.second.data(), b.second.size() * sizeof(T))); } for (auto& n : nodata) { h = mix(h, hashStr(n.first)); h = mix(h, hashBytes(&n.second, sizeof(T))); } return h; }
};
template<class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
// everything that can be observed of the grid equals the model
template<class G> void judge(Ctx& c, G& g, Model<typename G::DataType> const& m, std::vector<std::string> const& names, char const* who) {
    typedef typename G::DataType T; G const& k = g;
    c.check(k.getCellSizeX() == m.nx && k.getCellSizeY() == m.ny && k.getScaleX() == m.sx && k.getScaleY() == m.sy && k.getOffsetX() == m.ox && k.getOffsetY() == m.oy, "%s: the geometry of the grid is %zux%zu %g %g %g %g", who, k.getCellSizeX(), k.getCellSizeY(), k.getScaleX(), k.getScaleY(), k.getOffsetX(), k.getOffsetY());
    for (auto& b : names) {
        auto it = m.bands.find(b); c.check(k.hasBand(b) == (it != m.bands.end()), "%s: band '%s' %s", who, b.c_str(), it == m.bands.end() ? "exists" : "is missing");
        auto nd = k.getNoData(b); auto in = m.nodata.find(b);
        if (it != m.bands.end()) { c.check(nd.second == (in != m.nodata.end()), "%s: no-data marker of '%s' %s", who, b.c_str(), nd.second ? "appeared" : "got lost"); if (nd.second) c.check(same(nd.first, in->second), "%s: no-data marker of '%s' is wrong", who, b.c_str()); }
        if (it == m.bands.end()) { bool t = false; try { k.getGridData(b); } catch (std::runtime_error&) { t = true; } c.check(t, "%s: reading a missing band succeeded", who); continue; }
        auto const& a = k.getGridData(b); c.check(a.shape()[0] == m.ny && a.shape()[1] == m.nx, "%s: band '%s' has the wrong shape", who, b.c_str());
        for (size_t y = 0; y < m.ny; ++y) for (size_t x = 0; x < m.nx; ++x) { T v = it->second[y * m.nx + x], w = k.getFromRaster(b, x, y); c.check(same(v, w) && same(v, a[y][x]), "%s: cell (%zu,%zu) of '%s' is %g instead of %g", who, x, y, b.c_str(), double(w), double(v)); T z = k.G::template Grid<T>::get(b, m.ox + (x + .5) * m.sx, m.oy + (y + .5) * m.sy); c.check(same(v, z), "%s: metric access of cell (%zu,%zu) returned another value", who, x, y); }
        bool t = false; try { k.G::template Grid<T>::get(b, m.ox + (m.nx + .5) * m.sx, m.oy); } catch (std::runtime_error&) { t = true; } c.check(t, "%s: access outside of the grid succeeded", who);
        T lo, hi, wl = it->second[0], wh = wl; for (T v : it->second) { wl = std::min(wl, v); wh = std::max(wh, v); } g.getMinMaxValues(b, lo, hi); c.check(same(lo, wl) && same(hi, wh), "%s: value range of '%s' is [%g,%g] instead of [%g,%g]", who, b.c_str(), double(lo), double(hi), double(wl), double(wh));
    }
}
template<class G> boost::intrusive_ptr<G> viaEvent(Ctx& c, G* g) {
    BinarySerialization o, i; if (g->getUniqueId().empty()) g->setUniqueId("/g"); BinaryEvent ev(event::ITEM, event::ADD, g->getUniqueId(), ""); o.serializeBinaryEvent(g, ev); EnvironmentItem::Ptr r = i.unserializeBinaryEvent(ev);
    c.check(r && r->getClassName() == g->getClassName(), "the class changed in an event"); return boost::intrusive_ptr<G>(dynamic_cast<G*>(r.get()));
}
template<class G> boost::intrusive_ptr<G> viaFile(Ctx& c, G* g, int how) {
    wipe(); std::string id; { Environment env; if (how == 0) env.attachItem(g); else { FrameNode* f = new FrameNode(pose(how)); env.addChild(env.getRootNode(), f); env.attachItem(g, f); } id = g->getUniqueId(); env.serialize(dir()); EnvironmentItem::Ptr keep = env.detachItem(g); }
    std::unique_ptr<Environment> n(Environment::unserialize(dir())); boost::intrusive_ptr<G> r = n->getItem<G>(id); c.check(r && r->getClassName() == g->getClassName(), "the grid is missing in the file"); n->detachItem(r.get()); return r;
}
template<class G> typename std::enable_if<std::is_constructible<G, size_t, size_t, double, double, double, double>::value, G*>::type make(size_t nx, size_t ny, double sx, double sy, double& ox, double& oy) { return new G(nx, ny, sx, sy, ox, oy); }
template<class G> typename std::enable_if<!std::is_constructible<G, size_t, size_t, double, double, double, double>::value, G*>::type make(size_t nx, size_t ny, double sx, double sy, double& ox, double& oy) { ox = oy = 0; return new G(nx, ny, sx, sy); }
template<class G> void history(Ctx& c) {
    typedef typename G::DataType T; typedef boost::intrusive_ptr<G> P;
    Model<T> proto; int shape = c.choose(2, "shape"); proto.nx = shape ? 3 : 1; proto.ny = shape ? 2 : 3; proto.sx = 0.1; proto.sy = 0.25; proto.ox = shape ? -1.7 : 0; proto.oy = shape ? 3.3 : 0;
    P g[2]; Model<T> m[2]; for (int i = 0; i < 2; ++i) { m[i] = proto; if (i) m[i].ox += 1; g[i] = make<G>(proto.nx, proto.ny, proto.sx, proto.sy, m[i].ox, m[i].oy); }
    std::vector<std::string> N; N.push_back(g[0]->getBands().front()); N.push_back("x y"); std::vector<std::string> all = g[0]->getBands(); all.push_back("x y"); all.push_back("z"); int ver = 0;
    auto fill = [&](int i, std::string const& b) { auto& a = g[i]->getGridData(b); auto& v = m[i].band(b); ++ver; for (size_t k = 0; k < v.size(); ++k) a.data()[k] = v[k] = val<T>(ver + k); };
    fill(0, N[0]);
    for (int s = 0; s < c.bound; ++s) {
        std::vector<std::function<void ()> > op; std::vector<std::string> nm; auto add = [&](std::string n, std::function<void ()> f) { nm.push_back(n); op.push_back(f); };
        for (int i = 0; i < 2; ++i) {
            std::string L = "grid " + std::to_string(i) + ": ";
            for (auto& b : N) {
                add(L + "fill " + b, [&, i, b] { fill(i, b); });
                add(L + "write one cell of " + b, [&, i, b] { size_t x = m[i].nx - 1, y = m[i].ny - 1; T v = val<T>(++ver + 2); m[i].band(b)[y * m[i].nx + x] = v; if (ver % 2) g[i]->getFromRaster(b, x, y) = v; else g[i]->G::template Grid<T>::get(b, m[i].ox + (x + .3) * m[i].sx, m[i].oy + (y + .3) * m[i].sy) = v; });
                if (!m[i].bands.count(b)) add(L + "create " + b, [&, i, b] { if (ver++ % 2) g[i]->createBand(b); else g[i]->getGridData(b); m[i].band(b); });
                add(L + "mark no data in " + b, [&, i, b] { T v = val<T>(++ver); g[i]->setNoData(b, v); m[i].nodata[b] = v; });
                if (m[i].bands.count(b)) add(L + "remove " + b, [&, i, b] { g[i]->removeData(b); m[i].bands.erase(b); });
                if (i == 0 && m[1].bands.count(b)) for (int t = 0; t < 2; ++t) add(L + "copy " + b + " from the other" + (t ? " as z" : ""), [&, i, b, t] { static_cast<GridBase*>(g[0].get())->copyBandFrom(*g[1], b, t ? "z" : ""); std::string d = t ? "z" : b; m[0].bands[d] = m[1].bands[b]; if (m[1].nodata.count(b)) m[0].nodata[d] = m[1].nodata[b]; });
            }
            add(L + "mark no data everywhere", [&, i] { T v = val<T>(++ver); g[i]->setNoData(v); for (auto& b : m[i].bands) m[i].nodata[b.first] = v; });
            add(L + "set from the other", [&, i] { g[i]->set(g[1 - i].get()); m[i] = m[1 - i]; });
            add(L + "replace by clone", [&, i] { EnvironmentItem::Ptr k = g[i]->clone(); c.check(k->getClassName() == g[i]->getClassName(), "the clone has another class"); if (g[i]->hasBand(N[0])) g[i]->getGridData(N[0]).data()[0] = val<T>(3); g[i] = P(dynamic_cast<G*>(k.get())); });
            add(L + "replace by copy", [&, i] { P k = new G(*g[i]); g[i] = k; });
            add(L + "send as event", [&, i] { g[i] = viaEvent<G>(c, g[i].get()); });
            for (int f = 0; f < 2; ++f) if (f == 0 || i == 0) add(L + "save and load " + std::to_string(f), [&, i, f] { g[i] = viaFile<G>(c, g[i].get(), f ? 1 + ver % 4 : 0); });
        }
        int k = c.choose(op.size()); c.note("%s", nm[k].c_str()); c.step(); op[k](); for (int i = 0; i < 2; ++i) for (auto it = m[i].nodata.begin(); it != m[i].nodata.end();) if (!m[i].bands.count(it->first) && (nm[k].find(i ? "grid 1: send" : "grid 0: send") == 0 || nm[k].find(i ? "grid 1: save" : "grid 0: save") == 0)) m[i].nodata.erase(it++); else ++it;
        judge<G>(c, *g[0], m[0], all, "grid 0"); judge<G>(c, *g[1], m[1], all, "grid 1");
        c.state(mix(mix(m[0].hash(), m[1].hash()), mix(ver, shape)), c.bound - 1 - s);
    }
    // convert the first band to a frame
    for (int i = 0; i < 2; ++i) if (m[i].bands.count(N[0])) { base::samples::frame::Frame f; g[i]->G::template Grid<T>::convertToFrame(N[0], f); c.check(f.width == m[i].nx && f.height == m[i].ny && f.image.size() == m[i].nx * m[i].ny * sizeof(T) && memcmp(f.image.data(), m[i].bands[N[0]].data(), f.image.size()) == 0, "the frame of a band has other values"); }
    wipe(); c.outcome(mix(m[0].hash(), m[1].hash()));
}
// files of other producers: any axis direction, any band
template<class T> void gdal(Ctx& c, GDALDataType dt) {
    wipe(); mkdir(dir().c_str(), 0700); std::string p = dir() + "/f.tiff";
    int nx = 1 + c.choose(3, "nx"), ny = 1 + c.choose(3, "ny"), nb = 1 + c.choose(2, "bands"), sx = c.choose(2, "x direction"), sy = c.choose(2, "y direction"), nod = c.choose(3, "no data"), band = 1 + c.choose(nb + 1, "band"); bool rot = c.thorough && c.flag("rotated"); c.step();
    double gt[6] = { 100.5, sx ? -0.5 : 0.5, rot ? 0.2 : 0, -20, rot ? -0.2 : 0, sy ? -0.25 : 0.25 }; GDALDataset* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(p.c_str(), nx, ny, nb, dt); d->SetGeoTransform(gt); std::vector<std::vector<T> > v(nb);
    for (int b = 0; b < nb; ++b) { for (int k = 0; k < nx * ny; ++k) v[b].push_back(T(val<T>(3 * b) + k)); d->GetRasterBand(b + 1)->RasterIO(GF_Write, 0, 0, nx, ny, v[b].data(), nx, ny, dt, 0, 0); if (nod > b) d->GetRasterBand(b + 1)->SetNoDataValue(double(val<T>(b + 3))); } GDALClose(d);
    auto look = [&](Grid<T> const& g, std::string const& name, int b, Transform const& t) {
        c.check((int)g.getCellSizeX() == nx && (int)g.getCellSizeY() == ny && std::fabs(g.getScaleX() - .5) < 1e-9 && std::fabs(g.getScaleY() - .25) < 1e-9, "size or scale of the file is wrong");
        for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { Eigen::Vector3d w(gt[0] + (x + .5) * gt[1], gt[3] + (y + .5) * gt[5], 0), q = t.inverse() * w; T got = g.get(name, q.x(), q.y()); c.check(same(got, v[b][y * nx + x]), "pixel (%d,%d) of band %d is at another position or has another value", x, y, b + 1); }
        c.check(t.translation().z() == 0 && (t.linear() - Eigen::Matrix3d::Identity()).norm() < 1e-12, "the pose of the file is not a shift in the plane"); auto nd = g.getNoData(name); c.check(nd.second == (nod > b), "no-data marker %s", nd.second ? "appeared" : "got lost"); if (nd.second) c.check(same(nd.first, val<T>(b + 3)), "no-data marker is wrong");
    };
    bool thrown = false; std::pair<GridBase::Ptr, Transform> r; try { r = GridBase::readGridFromGdal(p, "my band", band); } catch (std::runtime_error&) { thrown = true; } bool bad = band > nb || rot; c.check(thrown == bad, "band %d of %d was %s", band, nb, thrown ? "rejected" : "accepted");
    if (!thrown) { Grid<T>* g = dynamic_cast<Grid<T>*>(r.first.get()); c.check(g != 0, "the grid has the wrong cell type"); look(*g, "my band", band - 1, r.second); }
    if (!rot) { // several bands of one file at once
        boost::intrusive_ptr<Grid<T> > g = new Grid<T>(); std::vector<std::string> n; for (int b = 0; b < nb; ++b) n.push_back("b" + std::to_string(b)); g->readGridData(n, p); double tx = gt[0] - (sx ? nx * .5 : 0), ty = gt[3] - (sy ? ny * .25 : 0); Transform t(Eigen::Translation3d(tx, ty, 0)); for (int b = 0; b < nb; ++b) look(*g, n[b], b, t);
        n.push_back("extra"); boost::intrusive_ptr<Grid<T> > h = new Grid<T>(); bool th = false; try { h->readGridData(n, p); } catch (std::runtime_error&) { th = true; } c.check(th, "more bands than the file has were read");
        boost::intrusive_ptr<Grid<T> > s = new Grid<T>(nx + 1, ny, .5, .25); th = false; try { s->readGridData("q", p); } catch (std::runtime_error&) { th = true; } c.check(th, "a file of another width was accepted"); s = new Grid<T>(nx, ny + 1, .5, .25); th = false; try { s->readGridData("q", p); } catch (std::runtime_error&) { th = true; } c.check(th, "a file of another height was accepted");
        if (sizeof(T) != 8) { th = false; boost::intrusive_ptr<Grid<double> > w = new Grid<double>(); try { w->readGridData("q", p); } catch (std::runtime_error&) { th = true; } c.check(th, "a file of another cell type was accepted"); } else { th = false; boost::intrusive_ptr<Grid<uint8_t> > w = new Grid<uint8_t>(); try { w->readGridData("q", p); } catch (std::runtime_error&) { th = true; } c.check(th, "a file of another cell type was accepted"); }
    }
    bool th = false; try { GridBase::readGridFromGdal(dir() + "/missing.tiff", "b", 1); } catch (std::runtime_error&) { th = true; } c.check(th, "a missing file was read"); wipe();
}
template<class T> void geo(Ctx& c, GDALDataType) {
    // a written file is georeferenced by the frame of the map
    wipe(); mkdir(dir().c_str(), 0700); std::string p = dir() + "/f.tiff"; { Environment env; boost::intrusive_ptr<Grid<T> > g = new Grid<T>(3, 2, .5, .25, c.choose(2) * 7.5, -2); int att = c.choose(3, "attached"); double a = c.choose(3) * .7; Eigen::Affine3d t(Eigen::Translation3d(5, 6, 7) * Eigen::AngleAxisd(a, Eigen::Vector3d::UnitZ())); c.step();
    if (att == 1) env.attachItem(g.get()); if (att == 2) { FrameNode* f = new FrameNode(t); env.addChild(env.getRootNode(), f); env.attachItem(g.get(), f); } auto& d = g->getGridData("b"); for (int k = 0; k < 6; ++k) d.data()[k] = val<T>(k);
    g->writeGridData("b", p); GDALDataset* f = (GDALDataset*)GDALOpen(p.c_str(), GA_ReadOnly); c.check(f && f->GetRasterCount() == 1 && f->GetRasterXSize() == 3 && f->GetRasterYSize() == 2, "no proper file was written"); double gt[6]; f->GetGeoTransform(gt);
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { Eigen::Vector3d w(g->getOffsetX() + (x + .5) * .5, g->getOffsetY() + (y + .5) * .25, 0); if (att == 2) w = t * w; double u = gt[0] + (x + .5) * gt[1] + (y + .5) * gt[2], v = gt[3] + (x + .5) * gt[4] + (y + .5) * gt[5]; c.check(std::fabs(u - w.x()) < 1e-9 && std::fabs(v - w.y()) < 1e-9, "pixel (%d,%d) is georeferenced at (%g,%g) instead of (%g,%g)", x, y, u, v, w.x(), w.y()); T z; f->GetRasterBand(1)->RasterIO(GF_Read, x, y, 1, 1, &z, 1, 1, f->GetRasterBand(1)->GetRasterDataType(), 0, 0); c.check(same(z, val<T>(y * 3 + x)), "pixel (%d,%d) has another value", x, y); } GDALClose(f); }
    wipe();
}
template<class G> void create(Ctx& c, char const* name) {
    static const double S[] = { 1, 0.1, 1.0 / 3 }, O[] = { 0, -3.7, 1e6 + 1.0 / 3 }; size_t nx = 1 + c.choose(3), ny = 1 + 5 * c.choose(2); double sx = S[c.choose(3)], sy = S[c.choose(3)], ox = O[c.choose(3)], oy = O[c.choose(3)]; c.step();
    GridBase::Ptr g = GridBase::create(name, nx, ny, sx, sy, ox, oy); G* k = dynamic_cast<G*>(g.get()); c.check(k != 0, "create(%s) made another type", name); Model<typename G::DataType> m; m.nx = nx; m.ny = ny; m.sx = sx; m.sy = sy; m.ox = ox; m.oy = oy; std::vector<std::string> n(1, "q"); judge<G>(c, *k, m, n, "new grid"); k->createBand("q"); m.band("q"); judge<G>(c, *k, m, n, "new grid");
    Environment env; env.attachItem(g.get()); GridBase::Ptr h = GridBase::create(name, 1, 1, 1, 1, 0, 0); env.attachItem(h.get()); c.check(g->getUniqueId() != h->getUniqueId() && env.getItem(g->getUniqueId()) == g, "created grids cannot be attached");
}
struct Any {
    static void image(Ctx& c) {
        base::samples::frame::Frame f; int w = 1 + c.choose(4), h = 1 + c.choose(4); f.init(w, h, 8, base::samples::frame::MODE_RGB); for (size_t k = 0; k < f.image.size(); ++k) f.image[k] = 255 - 5 * k; c.step(); boost::intrusive_ptr<ImageRGB24> g = new ImageRGB24(w, h, 1, 1); g->copyFromFrame(f);
        std::string const* B[] = { &ImageRGB24::R, &ImageRGB24::G, &ImageRGB24::B }; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int b = 0; b < 3; ++b) c.check(g->getFromRaster(*B[b], x, y) == f.image[(y * w + x) * 3 + b], "pixel (%d,%d) channel %d is wrong", x, y, b);
        base::samples::DistanceImage d; d.width = w; d.height = h; d.scale_x = .5; d.scale_y = .25; d.center_x = -1; d.center_y = 2; for (int k = 0; k < w * h; ++k) d.data.push_back(k + .5f); boost::intrusive_ptr<DistanceGrid> q = new DistanceGrid(d); q->copyFromDistanceImage(d); c.check((int)q->getCellSizeX() == w && (int)q->getCellSizeY() == h && q->getScaleX() == .5 && q->getScaleY() == .25 && q->getOffsetX() == -1 && q->getOffsetY() == 2, "geometry of the distance image is wrong");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) c.check(q->getFromRaster(DistanceGrid::DISTANCE, x, y) == d.data[y * w + x], "distance (%d,%d) is wrong", x, y);
    }
};
template<class T, class U> static void copyInto(Ctx& c, int w, int h, int W, int H) { // bands of grids of any size and cell type
    Grid<T> a(w, h, 1, 1); Grid<U> b(W, H, 1, 1); for (int k = 0; k < w * h; ++k) a.getGridData("x").data()[k] = T(k); for (int k = 0; k < W * H; ++k) b.getGridData("x").data()[k] = U(k + 5); b.setNoData("x", U(7)); bool bad = w != W || h != H || typeid(T) != typeid(U); int to = c.choose(2, "target"); std::string t = to ? "y" : "x"; bool th = false; c.step(); try { static_cast<GridBase&>(a).copyBandFrom(b, "x", to ? "y" : ""); } catch (std::exception&) { th = true; } c.check(th == bad, "a band of %dx%d cells was %s by a grid of %dx%d cells", W, H, th ? "refused" : "taken", w, h);
    if (bad) { for (int k = 0; k < w * h; ++k) c.check(a.getGridData("x").data()[k] == T(k), "cell %d changed", k); } else { for (int k = 0; k < w * h; ++k) c.check(a.getGridData(t).data()[k] == T(k + 5), "cell %d was not copied", k); c.check(a.getNoData(t).second && a.getNoData(t).first == T(7), "the no-data value was not copied"); } c.outcome(th); }
static void copies(Ctx& c) { int w = 1 + c.choose(3, "width"), h = 1 + c.choose(3, "height"), W = 1 + c.choose(3, "width of source"), H = 1 + c.choose(3, "height of source"); switch (c.choose(4, "types")) { case 0: copyInto<double, double>(c, w, h, W, H); break; case 1: copyInto<uint8_t, uint8_t>(c, w, h, W, H); break; case 2: copyInto<float, double>(c, w, h, W, H); break; default: copyInto<uint16_t, int16_t>(c, w, h, W, H); } }
template<class G> static void other(Ctx& c) { // grids carry data that is no band, which is not stored but does no harm
    typedef typename G::DataType T; boost::intrusive_ptr<G> g = new G(3, 2, .5, .25, -1, 2); Model<T> m; m.nx = 3; m.ny = 2; m.sx = .5; m.sy = .25; m.ox = -1; m.oy = 2; std::vector<std::string> n = g->getBands(); n.push_back("m"); n.push_back("a"); n.push_back("z"); n.push_back("none"); int bands = c.choose(4, "bands"), others = 1 + c.choose(3, "other data"), how = c.choose(5, "how"); c.step(); int k = 0;
    auto put = [&](std::string const& b) { auto& v = m.band(b); for (size_t i = 0; i < v.size(); ++i) g->getGridData(b).data()[i] = v[i] = val<T>(++k); };
    if (bands & 1) put(n[0]); if (others & 1) g->template getData<std::vector<int> >("a").assign(5, 7); if (others & 2) g->template getData<std::string>("z") = "text"; if (bands & 2) put("m");
    std::vector<std::string> seen(n.begin(), n.end()); seen.erase(seen.end() - 3, seen.end() - 1);
    judge<G>(c, *g, m, seen, "the grid"); if (how == 0) g = viaEvent<G>(c, g.get()); if (how == 1 || how == 2) g = viaFile<G>(c, g.get(), how - 1);
    if (how == 3) { EnvironmentItem::Ptr d = g->clone(); g = boost::intrusive_ptr<G>(dynamic_cast<G*>(d.get())); } if (how == 4) { boost::intrusive_ptr<G> d = new G(1, 1, 1, 1); d->set(g.get()); g = d; }
    judge<G>(c, *g, m, seen, "the grid"); if (how > 2) { if (others & 1) c.check(g->template hasData<std::vector<int> >("a") && g->template getData<std::vector<int> >("a") == std::vector<int>(5, 7), "data of a copy got lost"); if (others & 2) c.check(g->template hasData<std::string>("z") && g->template getData<std::string>("z") == "text", "data of a copy got lost"); } wipe(); c.outcome(bands * 5 + how);
}
int main(int argc, char** argv) {
    Engine e;
#define H(G, q, t) e.add("history " #G, q, t, 2, true, history<G>, "all histories of band operations, copies, saving and sending on two grids of type " #G)
    H(Grid<uint8_t>, 3, 4); H(Grid<int16_t>, 2, 3); H(Grid<uint16_t>, 2, 3); H(Grid<int32_t>, 2, 3); H(Grid<uint32_t>, 2, 3); H(Grid<float>, 2, 3); H(Grid<double>, 2, 4); H(ImageRGB24, 2, 3); H(ElevationGrid, 2, 3); H(DistanceGrid, 2, 3); H(OccupancyGrid, 2, 3); H(ConfidenceGrid, 2, 3);
#define F(T, D) e.add("file " #T, 1, 1, 2, false, [](Ctx& c) { gdal<T>(c, D); }, "files with any size, axis direction, band count and band"); e.add("geo " #T, 1, 1, 1, false, [](Ctx& c) { geo<T>(c, D); }, "georeference of written files")
    F(uint8_t, GDT_Byte); F(int16_t, GDT_Int16); F(uint16_t, GDT_UInt16); F(int32_t, GDT_Int32); F(uint32_t, GDT_UInt32); F(float, GDT_Float32); F(double, GDT_Float64);
#define K(G, n) e.add(std::string("create ") + n, 1, 1, 1, false, [](Ctx& c) { create<G>(c, n); }, "creation by class name")
    K(Grid<uint8_t>, "Grid_h"); K(Grid<double>, "envire::Grid_d"); K(Grid<float>, "Grid_f"); K(Grid<int16_t>, "Grid_s"); K(Grid<uint16_t>, "Grid_t"); K(Grid<int32_t>, "Grid_i"); K(Grid<uint32_t>, "Grid_j"); K(ImageRGB24, "envire::ImageRGB24"); K(ElevationGrid, "envire::ElevationGrid"); K(DistanceGrid, "envire::DistanceGrid");
    e.add("other data", 1, 1, 1, false, other<Grid<double> >, "grids that carry data which is no band"); e.add("other data in images", 1, 1, 1, false, other<ImageRGB24>, "the same for a grid with fixed bands");
    e.add("band copies", 1, 1, 2, false, copies, "bands copied between grids of all sizes and types");
    e.add("images", 1, 1, 1, false, Any::image, "conversion from frames and distance images");
    return e.main(argc, argv);
}
