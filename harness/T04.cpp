// T04: line rasterisation: connected, minimal, closest cells, from start to end, on every API.
#include <envire/tools/BresenhamLine.hpp>
#include <mc.hpp>
using namespace mc;
typedef std::pair<long, long> P;
static void judge(Ctx& c, std::vector<P> const& l, P a, P b, char const* api) {
    long dx = std::labs(b.first - a.first), dy = std::labs(b.second - a.second), n = std::max(dx, dy);
    c.check((long)l.size() == n + 1, "%s: line (%ld,%ld)-(%ld,%ld) has %zu points, expected %ld", api, a.first, a.second, b.first, b.second, l.size(), n + 1);
    c.check(l.front() == a && l.back() == b, "%s: line (%ld,%ld)-(%ld,%ld) runs from (%ld,%ld) to (%ld,%ld)", api, a.first, a.second, b.first, b.second, l.front().first, l.front().second, l.back().first, l.back().second);
    for (size_t i = 0; i < l.size(); ++i) {
        if (i) {
            long sx = l[i].first - l[i - 1].first, sy = l[i].second - l[i - 1].second;
            c.check(std::labs(sx) <= 1 && std::labs(sy) <= 1 && (sx || sy), "%s: line (%ld,%ld)-(%ld,%ld) is not connected at point %zu", api, a.first, a.second, b.first, b.second, i);
        }
        // deviation from the exact line (cross product) at most half a cell along the minor axis
        double cr = std::fabs((double)(b.first - a.first) * (l[i].second - a.second) - (double)(b.second - a.second) * (l[i].first - a.first));
        c.check(n == 0 || cr / n <= 0.5 + 1e-9, "%s: point (%ld,%ld) of line (%ld,%ld)-(%ld,%ld) is %.3f cells off the line", api, l[i].first, l[i].second, a.first, a.second, b.first, b.second, n ? cr / n : 0.0);
    }
}
static std::vector<P> drain(Ctx& c, envire::Bresenham& br, size_t cap) {
    std::vector<P> l; int x = -7, y = -7;
    while (br.getNextPoint(x, y)) { l.push_back(P(x, y)); if (l.size() > cap) c.fail("the line does not end"); }
    c.check(!br.getNextPoint(x, y), "a finished line delivers another point");
    return l;
}
int main(int argc, char** argv) {
    Engine e;
    e.add("all_pairs", 12, 25, 2, false, [](Ctx& c) {
        int N = c.bound; int dx = c.choose(2 * N + 1, "dx") - N, dy = c.choose(2 * N + 1, "dy") - N;
        static const int S[][2] = { { 0, 0 }, { 3, -2 }, { -5, 7 }, { 100000, -99999 } };
        int k = c.choose(4, "start");
        P a(S[k][0], S[k][1]), b(S[k][0] + dx, S[k][1] + dy);
        c.step();
        { envire::Bresenham br(Eigen::Vector2i(a.first, a.second), Eigen::Vector2i(b.first, b.second)); judge(c, drain(c, br, 4 * N + 8), a, b, "int"); }
        { envire::Bresenham br(Eigen::Vector2i(a.first, a.second), Eigen::Vector2i(b.first, b.second)); std::vector<P> l; Eigen::Vector2i p;
          while (br.getNextPoint(p)) { l.push_back(P(p.x(), p.y())); if ((int)l.size() > 4 * N + 8) c.fail("the line does not end"); } judge(c, l, a, b, "vector"); }
        int o = N + 1; P ga(o, o), gb(o + dx, o + dy);
        envire::GridBase::Position p1(ga.first, ga.second), p2(gb.first, gb.second);
        { std::vector<envire::GridBase::Position> v; envire::lineBresenham(p1, p2, v); std::vector<P> l; for (auto& p : v) l.push_back(P(p.x, p.y)); judge(c, l, ga, gb, "lineBresenham");
          size_t n0 = v.size(); envire::lineBresenham(p1, p2, v); c.check(v.size() == 2 * n0, "lineBresenham does not append to the given positions"); }
        { envire::Bresenham br(p1, p2); envire::GridBase::Position q; std::vector<P> l; while (br.getNextPoint(q)) { l.push_back(P(q.x, q.y)); if ((int)l.size() > 4 * N + 8) c.fail("the line does not end"); } judge(c, l, ga, gb, "position"); }
        c.outcome(mix(dx + 1000, dy + 1000));
    }, "every direction vector up to the bound from four start points, through all five interfaces");
    e.add("reinit", 3, 5, 2, false, [](Ctx& c) {
        int N = c.bound; auto pt = [&] { int x = c.choose(2 * N + 1), y = c.choose(2 * N + 1); return P(x, y); };
        P a = pt(), b = P(N, 0), a2(N, N), b2 = pt();
        envire::Bresenham br(Eigen::Vector2i(a.first, a.second), Eigen::Vector2i(b.first, b.second));
        int use = c.choose(4, "points consumed before re-initialisation"), x, y;
        for (int i = 0; i < use; ++i) br.getNextPoint(x, y);
        if (c.flag("api")) br.init(a2.first, a2.second, b2.first, b2.second);
        else br.init(envire::GridBase::Position(a2.first, a2.second), envire::GridBase::Position(b2.first, b2.second));
        c.step();
        judge(c, drain(c, br, 64), a2, b2, "reinit");
    }, "a rasteriser re-initialised after 0..3 consumed points behaves like a fresh one");
    e.add("long", 1, 1, 1, false, [](Ctx& c) {
        static const int D[][2] = { { 5000, 1 }, { 5000, 2499 }, { 5000, 2500 }, { 5000, 4999 }, { 1, 5000 }, { 4999, 5000 }, { 0, 3000 }, { 3000, 0 }, { 4096, 1365 } };
        int k = c.choose(9, "d"); int sx = c.flag("sx") ? -1 : 1, sy = c.flag("sy") ? -1 : 1; c.step();
        P a(17, -23), b(17 + sx * D[k][0], -23 + sy * D[k][1]);
        envire::Bresenham br(Eigen::Vector2i(a.first, a.second), Eigen::Vector2i(b.first, b.second)); judge(c, drain(c, br, 20000), a, b, "long");
    }, "long lines in all octants");
    return e.main(argc, argv);
}
