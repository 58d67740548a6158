// M02: iterating over rectangles visits each covered cell exactly once.
#include <envire/maps/Grids.hpp>
#include "mc.hpp"
using namespace envire; using namespace mc;
typedef Grid<uint8_t> G; typedef Eigen::Vector2d V2;
struct Poly { std::vector<V2> v; };
static Poly rect(GridBase const& g, base::Pose2D const& p, double sx, double sy) {   // corners in cell units
    Poly r; double C = std::cos(p.orientation), S = std::sin(p.orientation); static const int K[][2] = { { 1, 1 }, { -1, 1 }, { -1, -1 }, { 1, -1 } };
    for (auto& k : K) { double x = k[0] * sx / 2, y = k[1] * sy / 2; r.v.push_back(V2((p.position.x() + C * x - S * y - g.getOffsetX()) / g.getScaleX(), (p.position.y() + S * x + C * y - g.getOffsetY()) / g.getScaleY())); }
    return r;
}
static bool hits(Poly const& p, int cx, int cy) {                                     // clip the polygon at the cell
    std::vector<V2> v = p.v;
    for (int side = 0; side < 4 && !v.empty(); ++side) {
        std::vector<V2> o; auto d = [&](V2 const& q) { return side == 0 ? q.x() - cx : side == 1 ? cx + 1 - q.x() : side == 2 ? q.y() - cy : cy + 1 - q.y(); };
        for (size_t i = 0; i < v.size(); ++i) { V2 a = v[i], b = v[(i + 1) % v.size()]; double da = d(a), db = d(b); if (da >= 0) o.push_back(a); if ((da > 0 && db < 0) || (da < 0 && db > 0)) o.push_back(a + (b - a) * (da / (da - db))); }
        v = o;
    }
    return !v.empty();
}
static bool within(GridBase const& g, Poly const& p, double m) { for (auto& q : p.v) if (q.x() < m || q.y() < m || q.x() > g.getCellSizeX() - m || q.y() > g.getCellSizeY() - m) return false; return true; }
struct Req { Poly in, out; bool has; };
static const double TOL = 0.3;
static Req req(GridBase const& g, base::Pose2D const& p, double sx, double sy) { Req r; double t = 2 * TOL * std::max(g.getScaleX(), g.getScaleY()); r.has = sx > t && sy > t; if (r.has) r.in = rect(g, p, sx - t, sy - t); r.out = rect(g, p, sx + t, sy + t); return r; }
static double ANG[] = { 0, 1e-9, -1e-9, 0.02, 0.05, -0.05, 0.3, M_PI / 4, 1.2, M_PI / 2, M_PI / 2 + 1e-9, M_PI / 2 - 0.03, 2.2, M_PI, M_PI - 0.02, -2.5, -M_PI / 2, -M_PI, 4.5, -0.7 };
struct Set { G* g; base::Pose2D p; };
static GridBase::Ptr grid(Ctx& c) { int k = c.choose(3, "grid"); return k == 0 ? new G(24, 20, 0.1, 0.1, -0.7, 0.3) : k == 1 ? new G(15, 22, 1, 1) : new G(18, 18, 0.5, 0.5, 100.25, -3); }
static base::Pose2D place(Ctx& c, GridBase& g, bool few = false) {
    base::Pose2D p; static const double F[] = { 0.5, 0.4, 0.21, 0.53 }; int k = few ? 2 * c.choose(2, "place") : c.choose(4, "place"), j = c.choose(c.thorough ? 4 : 2, "phase"); double ph = j * 0.29;
    p.position = V2(g.getOffsetX() + std::floor(F[k] * g.getCellSizeX()) * g.getScaleX() + ph * g.getScaleX(), g.getOffsetY() + std::floor(F[(k + 1) % 4] * g.getCellSizeY()) * g.getScaleY() + ph * .7 * g.getScaleY()); p.orientation = ANG[c.choose(20, "angle")]; return p;
}
int main(int argc, char** argv) {
    Engine e;
    e.add("one", 1, 1, 3, false, [](Ctx& c) {
        GridBase::Ptr g = grid(c); base::Pose2D p = place(c, *g); static const double L[] = { 0, 0.4, 1, 2.5, 4, 7.3, 12, 21 }; double s = g->getScaleX(), sx = L[c.choose(8, "length")] * s, sy = L[c.choose(8, "width")] * s; c.step();
        std::map<std::pair<size_t, size_t>, int> n; bool r = g->forEachInRectangle(p, sx, sy, [&](size_t x, size_t y) { ++n[std::make_pair(x, y)]; });
        Poly q = rect(*g, p, sx, sy); bool in = within(*g, q, 1e-6), out = !within(*g, q, -1e-6); if (in) c.check(r, "a rectangle inside of the grid is reported to be outside"); if (out) c.check(!r && n.empty(), "a rectangle reaching out of the grid was accepted or visited %zu cells", n.size());
        if (!r) return; Req w = req(*g, p, sx, sy); size_t total = 0;
        for (auto& k : n) { c.check(k.first.first < g->getCellSizeX() && k.first.second < g->getCellSizeY(), "cell (%zu,%zu) outside of the grid was visited", k.first.first, k.first.second); c.check(k.second == 1, "cell (%zu,%zu) was visited %d times", k.first.first, k.first.second, k.second); ++total; }
        for (int x = 0; x < (int)g->getCellSizeX(); ++x) for (int y = 0; y < (int)g->getCellSizeY(); ++y) { int k = n.count(std::make_pair(x, y)); if (w.has && hits(w.in, x, y)) c.check(k == 1, "cell (%d,%d) is covered by the rectangle but was not visited", x, y); if (!hits(w.out, x, y)) c.check(k == 0, "cell (%d,%d) is not covered by the rectangle but was visited", x, y); }
        GridBase::Position ul, ur, dl, dr; for (int m = 1; m <= 10; m *= 10) if (in) { c.check(g->getRectPoints(p, sx, sy, ul, ur, dl, dr, m), "corners of a rectangle inside the grid were rejected"); std::multiset<std::pair<int, int> > got, want; GridBase::Position* P[] = { &ul, &ur, &dl, &dr }; for (auto* z : P) got.insert(std::make_pair(z->x, z->y)); bool clear = true; for (auto& z : q.v) { double u = z.x() * m, v = z.y() * m; clear = clear && std::fabs(u - rint(u)) > 1e-6 && std::fabs(v - rint(v)) > 1e-6; want.insert(std::make_pair((int)floor(u), (int)floor(v))); } if (clear) c.check(got == want, "corner cells are wrong"); }
        c.outcome(mix(total, n.size()));
    }, "all rectangle positions, orientations and sizes of the alphabet on three grids");
    e.add("two", 1, 1, 3, false, [](Ctx& c) {
        GridBase::Ptr g = grid(c); base::Pose2D p = place(c, *g, !c.thorough); static const double L[] = { 0, 1.2, 4, 7.3, 13 }; double s = g->getScaleX(); int a = c.choose(5, "inner length"), b = c.choose(5, "inner width"), A = a + c.choose(5 - a, "outer length"), B = b + c.choose(5 - b, "outer width"); c.step();
        double ix = L[a] * s, iy = L[b] * s, ox = L[A] * s, oy = L[B] * s; std::map<std::pair<size_t, size_t>, std::pair<int, int> > n;
        bool r = g->forEachInRectangles(p, ix, iy, [&](size_t x, size_t y) { ++n[std::make_pair(x, y)].first; }, ox, oy, [&](size_t x, size_t y) { ++n[std::make_pair(x, y)].second; });
        Poly q = rect(*g, p, ox, oy); bool in = within(*g, q, 1e-6), out = !within(*g, q, -1e-6); if (in) c.check(r, "rectangles inside of the grid are reported to be outside"); if (out) c.check(!r && n.empty(), "a rectangle reaching out of the grid was accepted or visited %zu cells", n.size());
        if (!r) return; Req wi = req(*g, p, ix, iy), wo = req(*g, p, ox, oy);
        for (auto& k : n) { c.check(k.first.first < g->getCellSizeX() && k.first.second < g->getCellSizeY(), "cell (%zu,%zu) outside of the grid was visited", k.first.first, k.first.second); c.check(k.second.first + k.second.second == 1, "cell (%zu,%zu) was visited %d times as inner and %d times as outer cell", k.first.first, k.first.second, k.second.first, k.second.second); }
        for (int x = 0; x < (int)g->getCellSizeX(); ++x) for (int y = 0; y < (int)g->getCellSizeY(); ++y) {
            auto it = n.find(std::make_pair(x, y)); int k = it == n.end() ? 0 : it->second.first ? 1 : 2;
            if (wo.has && hits(wo.in, x, y)) c.check(k != 0, "cell (%d,%d) is covered by the outer rectangle but was not visited", x, y);
            if (!hits(wo.out, x, y)) c.check(k == 0, "cell (%d,%d) is not covered by the outer rectangle but was visited", x, y);
            if (wi.has && hits(wi.in, x, y)) c.check(k == 1, "cell (%d,%d) is covered by the inner rectangle but was %s", x, y, k ? "visited as an outer cell" : "not visited");
            if (!hits(wi.out, x, y)) c.check(k != 1, "cell (%d,%d) is not covered by the inner rectangle but was visited as an inner cell", x, y);
        }
    }, "all pairs of nested rectangles");
    return e.main(argc, argv);
}
