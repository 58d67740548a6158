// M04: a multi-level surface grid keeps every patch with its cell, through shifts, copies, files and events.
#include <envire/maps/MLSGrid.hpp>
#include "envmodel.hpp"
#include "mc.hpp"
#include <dirent.h>
using namespace envire; using namespace mc; using tmod::pose;
typedef SurfacePatch P; typedef std::pair<int, int> Cell;
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/mls" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
static P patch(int k) {
    static const P::TYPE T[] = { P::HORIZONTAL, P::VERTICAL, P::NEGATIVE };
    P p(k * .25f - 3, .1f + k % 3 * .05f, k % 3 ? k * .5f : 0, T[k % 3]); p.update_idx = k * 1000003ull; p.color[0] = k * 7; p.color[1] = 255 - k; p.color[2] = k & 1; if (k % 4 == 3) { p = P(Eigen::Vector3f(.1f * k, -.2f, k), .2f); p.update_idx = k; p.color[0] = p.color[1] = p.color[2] = k; } if (k % 5 == 4) { p.n = k; p.min -= 1; p.max += 2; p.normsq = .5f * k; } return p;
}
static bool same(P const& a, P const& b) {
    auto pl = [](P const& p) { std::vector<float> v; auto& q = p.plane; float f[] = { q.x, q.y, q.z, q.xx, q.yy, q.xy, q.xz, q.yz, q.zz, q.n }; v.assign(f, f + 10); return v; };
    return a.mean == b.mean && a.stdev == b.stdev && a.height == b.height && a.min == b.min && a.max == b.max && a.n == b.n && a.normsq == b.normsq && a.update_idx == b.update_idx && memcmp(a.color, b.color, 3) == 0 && a.isHorizontal() == b.isHorizontal() && a.isVertical() == b.isVertical() && a.isNegative() == b.isNegative() && pl(a) == pl(b);
}
struct M {
    int nx, ny; double sx, sy, ox, oy; std::map<Cell, std::vector<P> > cells; std::set<Cell> seen; MLSConfiguration cfg; bool color;
    size_t count() const { size_t n = 0; for (auto& k : cells) n += k.second.size(); return n; }
    std::set<Cell> occ() const { std::set<Cell> r; for (auto& k : cells) if (!k.second.empty()) r.insert(k.first); return r; }
    uint64_t hash() const { uint64_t h = mix(nx, ny); for (auto& k : cells) for (auto& p : k.second) h = mix(h, mix(k.first.first * 31 + k.first.second, mix(p.update_idx, (uint64_t)(p.mean * 64) + p.n))); for (auto& s : seen) h = mix(h, s.first * 17 + s.second); return mix(h, mix(cfg.updateModel, mix((uint64_t)(cfg.gapSize * 100), cfg.useColor))); }
};
static void judge(Ctx& c, MLSGrid& g, M const& m, char const* who) {
    MLSGrid const& k = g; c.check((int)k.getCellSizeX() == m.nx && (int)k.getCellSizeY() == m.ny && k.getScaleX() == m.sx && k.getScaleY() == m.sy && k.getOffsetX() == m.ox && k.getOffsetY() == m.oy, "%s: the geometry changed", who);
    c.check(k.getConfig().gapSize == m.cfg.gapSize && k.getConfig().thickness == m.cfg.thickness && k.getConfig().updateModel == m.cfg.updateModel && (!m.color || k.getConfig().useColor == m.cfg.useColor), "%s: the configuration is gap %g thickness %g model %d colour %d", who, k.getConfig().gapSize, k.getConfig().thickness, k.getConfig().updateModel, k.getConfig().useColor);
    for (int x = 0; x < m.nx; ++x) for (int y = 0; y < m.ny; ++y) {
        auto it = m.cells.find(Cell(x, y)); std::vector<P> const none, &w = it == m.cells.end() ? none : it->second; size_t i = 0;
        for (MLSGrid::const_iterator p = k.beginCell(x, y); p != k.endCell(); ++p, ++i) { c.check(i < w.size(), "%s: cell (%d,%d) has more than the %zu patches put there", who, x, y, w.size()); c.check(same(*p, w[i]), "%s: patch %zu of cell (%d,%d) changed (mean %g instead of %g)", who, i, x, y, p->mean, w[i].mean); }
        c.check(i == w.size(), "%s: cell (%d,%d) has %zu instead of %zu patches", who, x, y, i, w.size());
    }
    c.check(k.getCellCount() == m.count() && k.empty() == (m.count() == 0), "%s: %zu patches are reported, there are %zu", who, k.getCellCount(), m.count());
    std::set<Cell> occ = m.occ(); GridBase::CellExtents x = k.getCellExtents();
    if (m.seen.empty()) c.check(x.min() == Eigen::Vector2i(0, 0) && x.max() == Eigen::Vector2i(0, 0), "%s: extents of an empty grid", who);
    else { Eigen::Vector2i lo(99, 99), hi(-99, -99); for (auto& s : m.seen) { lo = lo.cwiseMin(Eigen::Vector2i(s.first, s.second)); hi = hi.cwiseMax(Eigen::Vector2i(s.first, s.second)); }
        bool in = true; for (auto& s : occ) in = in && x.contains(Eigen::Vector2i(s.first, s.second)); c.check(in, "%s: an occupied cell is outside of the extents (%d,%d)-(%d,%d)", who, x.min()[0], x.min()[1], x.max()[0], x.max()[1]); c.check(occ.empty() || ((lo.array() <= x.min().array()).all() && (hi.array() >= x.max().array()).all()), "%s: the extents (%d,%d)-(%d,%d) are larger than (%d,%d)-(%d,%d)", who, x.min()[0], x.min()[1], x.max()[0], x.max()[1], lo[0], lo[1], hi[0], hi[1]); }
    if (k.getIndex()) { std::set<Cell> got; for (auto& p : k.getIndex()->cells) got.insert(Cell(p.x, p.y)); for (auto& s : occ) c.check(got.count(s), "%s: the occupied cell (%d,%d) is not in the index", who, s.first, s.second); for (auto& s : got) c.check(m.seen.count(s), "%s: the index lists cell (%d,%d) which was never used", who, s.first, s.second); }
}
static void history(Ctx& c, int nx, int ny, bool io) {
    MLSGrid::Ptr g[2]; M m[2]; for (int i = 0; i < 2; ++i) { M& a = m[i]; a.nx = nx + (i && !io ? 1 : 0); a.ny = ny; a.sx = .1 * (i + 1); a.sy = .25; a.ox = -1 - i; a.oy = 3; a.color = true; g[i] = new MLSGrid(a.nx, a.ny, a.sx, a.sy, a.ox, a.oy); a.cfg = MLSConfiguration(); }
    int ver = 0; auto put = [&](int i, Cell k, bool head) { P p = patch(++ver); auto& v = m[i].cells[k]; if (head) { g[i]->insertHead(k.first, k.second, p); v.insert(v.begin(), p); } else { g[i]->insertTail(k.first, k.second, p); v.push_back(p); } m[i].seen.insert(k); };
    put(0, Cell(nx - 1, 0), false); put(0, Cell(nx - 1, 0), true); if (c.flag("index")) g[0]->initIndex();
    for (int s = 0; s < c.bound; ++s) {
        std::vector<std::function<void ()> > op; std::vector<std::string> nm; auto add = [&](std::string n, std::function<void ()> f) { nm.push_back(n); op.push_back(f); };
        for (int i = 0; i < 2; ++i) {
            std::string L = "grid " + std::to_string(i) + ": ";
            if (!io) {
                Cell C[] = { Cell(0, 0), Cell(m[i].nx - 1, m[i].ny - 1), Cell(m[i].nx - 1, 0) }; for (int k = 0; k < (i ? 2 : 3); ++k) add(L + "insert in cell " + std::to_string(k), [&, i, k, C] { put(i, C[k], ver % 2); });
                for (auto& k : m[i].cells) for (size_t n = 0; n < k.second.size() && n < 3; ++n) { Cell q = k.first; add(L + "erase patch " + std::to_string(n) + " of (" + std::to_string(q.first) + "," + std::to_string(q.second) + ")", [&, i, q, n] { MLSGrid::iterator it = g[i]->beginCell(q.first, q.second); for (size_t z = 0; z < n; ++z) ++it; MLSGrid::iterator r = g[i]->erase(it); auto& v = m[i].cells[q]; v.erase(v.begin() + n); bool end = r == g[i]->endCell(); c.check(end == (n == v.size()) && (end || same(*r, v[n])), "erase does not return the next patch"); }); }
                static const int D[][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { -1, -1 }, { 9, 0 } }; for (int k = 0; k < (i ? 1 : 5); ++k) add(L + "move by (" + std::to_string(D[k][0]) + "," + std::to_string(D[k][1]) + ")", [&, i, k] { g[i]->move(D[k][0], D[k][1]); std::map<Cell, std::vector<P> > n; for (auto& q : m[i].cells) { Cell t(q.first.first + D[k][0], q.first.second + D[k][1]); if (t.first >= 0 && t.second >= 0 && t.first < m[i].nx && t.second < m[i].ny) n[t] = q.second; } m[i].cells = n; m[i].seen = m[i].occ(); });
                add(L + "clear", [&, i] { g[i]->clear(); m[i].cells.clear(); m[i].seen.clear(); m[i].color = false; });
            } else {
                add(L + "insert", [&, i] { put(i, Cell(ver % m[i].nx, ver / 2 % m[i].ny), ver % 3 == 0); }); add(L + "insert many", [&, i] { for (int k = 0; k < 7; ++k) put(i, Cell(k % m[i].nx, k / m[i].nx % m[i].ny), false); });
                add(L + "send as event", [&, i] { BinarySerialization o, r; if (g[i]->getUniqueId().empty()) g[i]->setUniqueId("/m"); BinaryEvent ev(event::ITEM, event::ADD, g[i]->getUniqueId(), ""); o.serializeBinaryEvent(g[i].get(), ev); EnvironmentItem::Ptr n = r.unserializeBinaryEvent(ev); g[i] = boost::dynamic_pointer_cast<MLSGrid>(n); c.check(g[i].get() != 0, "the class changed in an event"); m[i].seen = m[i].occ(); });
                add(L + "save and load", [&, i] { wipe(); std::string id; { Environment env; FrameNode* f = new FrameNode(pose(2)); env.addChild(env.getRootNode(), f); env.attachItem(g[i].get(), f); id = g[i]->getUniqueId(); env.serialize(dir()); EnvironmentItem::Ptr keep = env.detachItem(g[i].get()); } std::unique_ptr<Environment> n(Environment::unserialize(dir())); g[i] = n->getItem<MLSGrid>(id); c.check(g[i].get() != 0, "the grid is missing after loading"); n->detachItem(g[i].get()); m[i].seen = m[i].occ(); });
                static const MLSConfiguration::update_model U[] = { MLSConfiguration::SLOPE, MLSConfiguration::SUM, MLSConfiguration::KALMAN }; add(L + "configure", [&, i] { MLSConfiguration k; k.gapSize = .3f + ver; k.thickness = .07f * (1 + ver); k.useColor = ver % 2 == 0; k.updateModel = U[ver % 3]; ++ver; g[i]->getConfig() = k; m[i].cfg = k; m[i].color = true; });
                add(L + "shallow clone", [&, i] { MLSGrid::Ptr k = g[i]->cloneShallow(); g[i] = k; m[i].cells.clear(); m[i].seen.clear(); });
            }
            add(L + "init index", [&, i] { g[i]->initIndex(); m[i].seen = m[i].seen; c.check(g[i]->getIndex() != 0, "there is no index"); std::set<Cell> got, w = m[i].occ(); for (auto& p : g[i]->getIndex()->cells) got.insert(Cell(p.x, p.y)); c.check(got == w, "a new index lists %zu instead of %zu cells", got.size(), w.size()); });
            add(L + "set from the other", [&, i] { g[i]->set(g[1 - i].get()); m[i] = m[1 - i]; });
            add(L + "replace by clone", [&, i] { EnvironmentItem::Ptr k = g[i]->clone(); for (auto& q : m[i].cells) for (MLSGrid::iterator p = g[i]->beginCell(q.first.first, q.first.second); p != g[i]->endCell(); ++p) p->mean = 77; g[i]->clear(); g[i] = boost::dynamic_pointer_cast<MLSGrid>(k); c.check(g[i].get() != 0, "the clone has another class"); });
        }
        int k = c.choose(op.size()); c.note("%s", nm[k].c_str()); c.step(); op[k](); judge(c, *g[0], m[0], "grid 0"); judge(c, *g[1], m[1], "grid 1");
        c.state(mix(mix(m[0].hash(), m[1].hash()), mix(ver, (g[0]->getIndex() != 0) + 2 * (g[1]->getIndex() != 0))), c.bound - 1 - s);
    }
    if (io) wipe(); c.outcome(mix(m[0].hash(), m[1].hash()));
}
// streams of earlier versions
struct S10 { double mean, stdev, height; bool horizontal; size_t update_idx; size_t xi, yi; };
struct S11 { double mean, stdev, height; bool horizontal; size_t update_idx; base::Vector3d color; size_t xi, yi; };
struct S12 { float mean, stdev, height; bool horizontal; size_t update_idx; uint8_t color[3]; size_t xi, yi; };
template<class S> static void wr(std::ostream& o, S const& s) { o.write((char const*)&s, sizeof s); }
static void legacy(Ctx& c) {
    int v = c.choose(3, "version"), n = c.choose(4, "patches"); std::ostringstream o; o << "mls\n1." << v << "\n" << (v == 0 ? sizeof(S10) : v == 1 ? sizeof(S11) : sizeof(S12)) + (c.choose(2, "size") ? 8 : 0) << "\nbin\n"; bool bad = o.str().find(std::to_string(v == 0 ? sizeof(S10) : v == 1 ? sizeof(S11) : sizeof(S12)) + "\n") == std::string::npos; int hor = c.choose(1 << n, "types"); c.step(); std::vector<P> want; std::vector<Cell> at;
    for (int k = 0; k < n; ++k) { bool h = hor >> k & 1; size_t x = k % 2, y = k / 2; float mean = 1.5f + k, dev = .25f, ht = h ? 0 : .5f; P p(mean, dev, ht, h ? P::HORIZONTAL : P::VERTICAL); p.update_idx = 7 + k; p.color[0] = 255; p.color[1] = 0; p.color[2] = 51 * k; want.push_back(p); at.push_back(Cell(x, y));
        if (v == 0) { S10 s = { mean, dev, ht, h, (size_t)7 + k, x, y }; wr(o, s); } if (v == 1) { S11 s = { mean, dev, ht, h, (size_t)7 + k, base::Vector3d(1, 0, .2 * k + 1e-6), x, y }; wr(o, s); } if (v == 2) { S12 s = { mean, dev, ht, h, (size_t)7 + k, { 255, 0, (uint8_t)(51 * k) }, x, y }; wr(o, s); } }
    MLSGrid::Ptr g = new MLSGrid(2, 2, 1, 1); std::istringstream is(o.str()); bool t = false; try { g->readMap(is); } catch (std::runtime_error&) { t = true; } c.check(t == bad, "version 1.%d was %s", v, t ? "rejected" : "accepted"); if (t) return;
    c.check((int)g->getCellCount() == n, "%zu of %d patches were read", g->getCellCount(), n); for (int k = 0; k < n; ++k) { MLSGrid::iterator it = g->beginCell(at[k].first, at[k].second); c.check(it != g->endCell(), "patch %d is missing", k); if (v == 0) memcpy(it->color, want[k].color, 3); c.check(same(*it, want[k]), "patch %d changed", k); }
}
static void broken(Ctx& c) {
    static char const* H[] = { "mls\n1.3\n", "mlx\n1.3\n", "mls\n1.4\n", "mls\n2.0\n" }; int k = c.choose(4), e = c.choose(2); MLSGrid::Ptr a = new MLSGrid(2, 2, 1, 1), g = new MLSGrid(2, 2, 1, 1); a->insertTail(1, 1, patch(3)); std::ostringstream o; a->writeMap(o); std::string s = o.str(); s = H[k] + s.substr(8); if (e) s.replace(s.find("bin\n"), 4, "txt\n"); c.step(); std::istringstream is(s); bool t = false; try { g->readMap(is); } catch (std::runtime_error&) { t = true; } c.check(t == (k || e), "a stream with a wrong header was accepted, or a right one rejected"); if (t) c.check(g->empty(), "a rejected stream left patches"); else c.check(g->getCellCount() == 1 && same(*g->beginCell(1, 1), patch(3)), "the patch changed");
}
int main(int argc, char** argv) {
    Engine e;
    e.add("cells", 4, 5, 3, true, [](Ctx& c) { history(c, 2, 2, false); }, "all histories of insertion, erasure, shifting, clearing, copying and indexing on two grids");
    e.add("line", 3, 5, 3, true, [](Ctx& c) { history(c, 4, 1, false); }, "the same on a long grid");
    e.add("transfer", 4, 5, 3, true, [](Ctx& c) { history(c, 3, 2, true); }, "all histories with saving, sending, configuring and copying");
    e.add("legacy", 1, 1, 1, false, legacy, "streams of versions 1.0 to 1.2"); e.add("broken", 1, 1, 1, false, broken, "streams with wrong headers");
    return e.main(argc, argv);
}
