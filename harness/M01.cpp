// M01: grid indices and metric positions correspond; M02 below (compiled separately) covers rectangles.
#include <envire/maps/Grids.hpp>
#include "envmodel.hpp"
#include "mc.hpp"
using namespace envire; using namespace mc; using tmod::pose;
typedef Grid<uint8_t> G;
struct Cfg { size_t nx, ny; double sx, sy, ox, oy; };
static Cfg cfg(Ctx& c) {
    static const size_t N[] = { 1, 2, 5, 7 }; static const double S[] = { 1, 0.1, 0.3, 2.5 }, O[] = { 0, -3.7, 10.05 };
    Cfg r; r.nx = N[c.choose(c.thorough ? 4 : 3, "nx")]; r.ny = N[c.choose(3, "ny")]; r.sx = S[c.choose(4, "sx")]; r.sy = S[c.choose(c.thorough ? 4 : 2, "sy")]; r.ox = O[c.choose(3, "ox")]; r.oy = O[c.choose(c.thorough ? 3 : 2, "oy")]; return r;
}
int main(int argc, char** argv) {
    Engine e;
    e.add("cells", 1, 1, 2, false, [](Ctx& c) {
        {
            Cfg k = cfg(c); Environment env; G* g = new G(k.nx, k.ny, k.sx, k.sy, k.ox, k.oy); int pf = c.thorough ? c.choose(4, "map frame") : c.choose(2, "map frame") + 2, pq = c.choose(c.thorough ? 3 : 2, "query frame");
            FrameNode* f = new FrameNode(pose(pf)); FrameNode* q = new FrameNode(pose(pq + 2)); env.addChild(env.getRootNode(), f); env.addChild(f, q); env.attachItem(g, f); c.step();
            // query frame -> map frame is the transform of q
            Eigen::Affine3d qt = pose(pq + 2);
            c.check(g->getCellSizeX() == k.nx && g->getCellSizeY() == k.ny && g->getWidth() == k.nx && g->getHeight() == k.ny && g->getScaleX() == k.sx && g->getScaleY() == k.sy && g->getOffsetX() == k.ox && g->getOffsetY() == k.oy, "parameters changed");
            c.check(std::fabs(g->getSizeX() - k.nx * k.sx) < 1e-9 && std::fabs(g->getSizeY() - k.ny * k.sy) < 1e-9, "metric size is wrong");
            c.check((g->getCenterPoint() - Eigen::Vector2d(k.ox + k.nx * k.sx / 2, k.oy + k.ny * k.sy / 2)).norm() < 1e-9, "centre is wrong");
            GridBase::Extents x = g->getExtents(); c.check((x.min() - Eigen::Vector2d(k.ox, k.oy)).norm() < 1e-9 && (x.max() - Eigen::Vector2d(k.ox + k.nx * k.sx, k.oy + k.ny * k.sy)).norm() < 1e-9, "extents (%g,%g)-(%g,%g) are not those of the cells", x.min()[0], x.min()[1], x.max()[0], x.max()[1]);
            GridBase::CellExtents ce = g->getCellExtents(); c.check(ce.min()[0] == 0 && ce.min()[1] == 0 && ce.max()[0] == (int)k.nx - 1 && ce.max()[1] == (int)k.ny - 1, "cell extents are wrong");
            static const double F[] = { 0.001, 0.25, 0.5, 0.999 };
            for (int i = -2; i < (int)k.nx + 2; ++i) for (int j = -2; j < (int)k.ny + 2; ++j) {
                bool in = i >= 0 && j >= 0 && i < (int)k.nx && j < (int)k.ny;
                c.check(g->contains(GridBase::Position(i, j)) == in, "contains(%d,%d) is wrong", i, j); c.check(g->inGrid(i, j) == in, "inGrid(%d,%d) is wrong", i, j);
                for (double fx : F) for (double fy : F) {
                    double px = k.ox + (i + fx) * k.sx, py = k.oy + (j + fy) * k.sy, xm = -77, ym = -77; size_t a = 777, b = 778;
                    c.check(g->toGrid(px, py, a, b, xm, ym) == in, "(%g,%g) in cell (%d,%d) is wrongly %s", px, py, i, j, in ? "rejected" : "accepted");
                    if (in) c.check(a == (size_t)i && b == (size_t)j && std::fabs(xm - fx * k.sx) < 1e-9 && std::fabs(ym - fy * k.sy) < 1e-9, "(%g,%g) is in cell (%zu,%zu)+(%g,%g) instead of (%d,%d)", px, py, a, b, xm, ym, i, j);
                    else c.check(a == 777 && b == 778, "a rejected point changed the result");
                    a = b = 779; c.check(g->toGrid(px, py, a, b) == in && (!in || (a == (size_t)i && b == (size_t)j)), "toGrid(x,y) disagrees"); GridBase::Position p(999, 999); c.check(g->toGrid(Eigen::Vector2d(px, py), p) == in && (!in || p == GridBase::Position(i, j)), "toGrid(point) disagrees");
                    a = b = 779; c.check(g->toGrid(Eigen::Vector3d(px, py, 5), a, b) == in && (!in || (a == (size_t)i && b == (size_t)j)), "toGrid(3d point) disagrees");
                    Eigen::Vector3d w = qt.inverse() * Eigen::Vector3d(px, py, 0); a = b = 779; c.check(g->toGrid(w, a, b, q) == in && (!in || (a == (size_t)i && b == (size_t)j)), "toGrid of a point given in another frame is wrong for cell (%d,%d)", i, j);
                    if (in) { g->get("v", px, py) = i * 16 + j; G const& cg = *g; c.check(g->getGridData("v")[j][i] == i * 16 + j && cg.get("v", px, py) == i * 16 + j && g->getFromRaster("v", i, j) == i * 16 + j && cg.getFromRaster("v", i, j) == i * 16 + j && cg.getGridData("v").data()[j * k.nx + i] == i * 16 + j, "value access by position and by index disagree"); }
                    else { bool t = false; try { g->get("v", px, py); } catch (std::runtime_error&) { t = true; } c.check(t, "access outside of the grid was accepted"); }
                }
                if (in) {
                    double px, py; g->fromGrid(i, j, px, py); double wx = k.ox + (i + .5) * k.sx, wy = k.oy + (j + .5) * k.sy; c.check(std::fabs(px - wx) < 1e-9 && std::fabs(py - wy) < 1e-9, "centre of cell (%d,%d) is (%g,%g)", i, j, px, py);
                    Eigen::Vector2d p2; g->fromGrid(GridBase::Position(i, j), p2); c.check((p2 - Eigen::Vector2d(wx, wy)).norm() < 1e-9 && (g->fromGrid(GridBase::Position(i, j)) - p2).norm() == 0, "fromGrid variants disagree");
                    c.check((g->fromGrid(i, j) - Eigen::Vector3d(wx, wy, 0)).norm() < 1e-9 && (g->fromGrid(i, j, q) - qt.inverse() * Eigen::Vector3d(wx, wy, 0)).norm() < 1e-8 && (g->fromGrid(i, j, f) - Eigen::Vector3d(wx, wy, 0)).norm() < 1e-8 && (g->fromGrid(i, j, env.getRootNode()) - pose(pf) * Eigen::Vector3d(wx, wy, 0)).norm() < 1e-8, "fromGrid into a frame is wrong for cell (%d,%d)", i, j);
                }
            }
            double inf = std::numeric_limits<double>::infinity(); double far[] = { -1e-3, -1e3, 1e3, -1e10, 1e10, 9.3e18, 1.9e19, -1e19, 1e30, -1e30, inf, -inf, std::nan("") };
            for (double d : far) for (int s = 0; s < 3; ++s) { double px = s != 1 ? k.ox + d : k.ox + k.sx / 2, py = s != 0 ? k.oy + d : k.oy + k.sy / 2; size_t a, b; c.check(!g->toGrid(px, py, a, b), "(%g,%g) is accepted as a position in the grid", px, py); }
            static const size_t Z[] = { (size_t)-1, (size_t)1 << 63, 1000000 }; for (size_t z : Z) c.check(!g->contains(GridBase::Position(z, 0)) && !g->contains(GridBase::Position(0, z)), "contains(%zu) is wrong", z);
        }
    }, "all grids of the alphabet in all frames: every cell and positions around and far outside of the grid");
    e.add("aligned", 1, 1, 3, false, [](Ctx& c) {
        {
            // grid b is grid a moved by (dx, dy) cells and rotated, once by its offset and once by its frame
            static const double S[] = { 1, 0.1, 0.3 }, D[] = { 0, 0.45, -0.3, 0.55, -0.8, 0.2, 1, -3, 7 }; static const int N[] = { 4, 20, 1 }; double s = S[c.choose(3, "scale")]; int n = N[c.choose(3, "size")]; int n2 = n == 1 ? 1 : n + 2; Environment env; int base = c.choose(4, "frame"); FrameNode* root = new FrameNode(pose(base)); env.addChild(env.getRootNode(), root);
            double dx = D[c.choose(9, "dx")], dy = D[c.choose(c.thorough ? 9 : 5, "dy")]; bool byOffset = c.flag("by offset"); static const double R[] = { 0, 0.3, M_PI / 4, M_PI, -1.2, 0.7, -0.7, M_PI / 2, 0.02, -0.02, 0.05 }; int rot = c.choose(11, "rotation"); double th = R[rot]; bool corner = !byOffset && c.flag("about the corner");
            int diff = c.choose(4, "difference"); c.step();
            Eigen::Affine3d T = Eigen::Affine3d::Identity(); if (!byOffset) T.translation() = Eigen::Vector3d(dx * s, dy * s, 0); T.linear() = Eigen::AngleAxisd(th, Eigen::Vector3d::UnitZ()).toRotationMatrix(); if (corner) { Eigen::Vector3d o(3 * s, -2 * s, 0); T = Eigen::Affine3d(Eigen::Translation3d(o) * T * Eigen::Translation3d(-o)); }
            G* a = new G(n, n2, s, s, 3 * s, -2 * s); G* b = new G(n + (diff == 1), n2 + (diff == 2), diff == 3 ? s * 2 : s, s, 3 * s + (byOffset ? dx * s : 0), -2 * s + (byOffset ? dy * s : 0)); FrameNode* fb = new FrameNode(T); env.addChild(root, fb); env.attachItem(a, root); env.attachItem(b, fb);
            // oracle: independent corner arithmetic in the frame of b
            double worst = 0, lat = 0; for (int k = 0; k < 4; ++k) { double xi = k & 1 ? n : 0, yi = k & 2 ? n2 : 0; Eigen::Vector3d p = T.inverse() * Eigen::Vector3d(xi * s + 3 * s, yi * s - 2 * s, 0); worst = std::max(worst, std::max(std::fabs((p.x() - b->getOffsetX()) / b->getScaleX() - xi), std::fabs((p.y() - b->getOffsetY()) / b->getScaleY() - yi))); }
            for (int k = 0; k < 3; ++k) { Eigen::Vector3d p = T.inverse() * Eigen::Vector3d(3 * s + (k == 1 ? s : 0), -2 * s + (k == 2 ? s : 0), 0); double u = (p.x() - b->getOffsetX()) / s, v = (p.y() - b->getOffsetY()) / s; lat = std::max(lat, std::max(std::fabs(u - rint(u)), std::fabs(v - rint(v)))); }
            bool same = diff != 1 && diff != 2; if (worst < 0.49 || worst > 0.51) { bool w = same && worst < .5; c.check(a->isAlignedWith(*b) == w, "grids with a misalignment of %g cells are %saligned", worst, w ? "not " : ""); }
            if (lat < 1e-8 || lat > 1e-3) { bool w = diff != 3 && lat < 1e-8; c.check(a->isCellAlignedWith(*b) == w, "cells with a misalignment of %g are %saligned", lat, w ? "not " : ""); if (rot == 0 || rot == 3) c.check(b->isCellAlignedWith(*a) == w, "cell alignment is not symmetric"); }
            c.check(a->isAlignedWith(*a) && a->isCellAlignedWith(*a), "a grid is not aligned with itself");
        }
    }, "pairs of grids shifted and rotated against each other, by offset and by frame");
    e.add("positions", 1, 1, 1, false, [](Ctx& c) {
        static const size_t V[] = { 0, 1, 2, 7, (size_t)1 << 40, (size_t)-1 }; size_t ax = V[c.choose(6, "x")], ay = V[c.choose(6, "y")], bx = V[c.choose(6, "other x")], by = V[c.choose(6, "other y")]; c.step();
        GridBase::Position a(ax, ay), b(bx, by); bool eq = ax == bx && ay == by, lt = ax != bx ? ax < bx : ay < by; c.check((a == b) == eq && (a != b) == !eq, "equality of cells (%zu,%zu) and (%zu,%zu) is wrong", ax, ay, bx, by); c.check((a < b) == lt, "order of cells (%zu,%zu) and (%zu,%zu) is wrong", ax, ay, bx, by);
        std::set<GridBase::Position> all; all.insert(a); all.insert(b); c.check(all.size() == (eq ? 1u : 2u) && all.count(a) && all.count(b), "a set of cells loses members");
        if (ax < 100 && ay < 100) { GridBase::Position p(Eigen::Vector2i(ax, ay)); c.check(p == a, "a cell position made of a vector differs"); }
        c.outcome(lt + 2 * eq);
    }, "all pairs of cell positions: equality and order");
    e.add("part", 1, 1, 1, false, [](Ctx& c) { // maps of which only a part of the cells has data
        struct Part : G { CellExtents ce; Part(size_t x, size_t y, double sx, double sy, double ox, double oy) : G(x, y, sx, sy, ox, oy) {} CellExtents getCellExtents() const { return ce; } };
        Cfg k = cfg(c); int x0 = c.choose(k.nx, "first column"), x1 = x0 + c.choose(k.nx - x0, "columns"), y0 = c.choose(k.ny, "first row"), y1 = y0 + c.choose(k.ny - y0, "rows"); c.step(); Environment env; Part* g = new Part(k.nx, k.ny, k.sx, k.sy, k.ox, k.oy); g->ce = GridBase::CellExtents(Eigen::Vector2i(x0, y0), Eigen::Vector2i(x1, y1)); FrameNode* f = new FrameNode(pose(2)); env.addChild(env.getRootNode(), f); env.attachItem(g, f);
        GridBase::Extents x = g->getExtents(); c.check((x.min() - Eigen::Vector2d(k.ox + x0 * k.sx, k.oy + y0 * k.sy)).norm() < 1e-9 && (x.max() - Eigen::Vector2d(k.ox + (x1 + 1) * k.sx, k.oy + (y1 + 1) * k.sy)).norm() < 1e-9, "extents (%g,%g)-(%g,%g) are not those of the cells (%d,%d)-(%d,%d)", x.min()[0], x.min()[1], x.max()[0], x.max()[1], x0, y0, x1, y1);
    }, "extents of grids of which any part has data");
    return e.main(argc, argv);
}
