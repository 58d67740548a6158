// T01: a grid of lists behaves, for every operation history, like an array of sequences.
#include <cassert>
#include <cstring>
#include <envire/tools/ListGrid.hpp>
#include <mc.hpp>
#include <memory>
#include <deque>
using namespace mc;

struct Val { int v; double pad; Val() : v(-1), pad(0) {} explicit Val(int i) : v(i), pad(i * 0.5) {} };
typedef envire::ListGrid<Val> LG;
typedef std::vector<std::vector<std::vector<int> > > Model;   // [x][y] -> sequence

struct Obj { std::unique_ptr<LG> g; Model m; };

static Model blank(size_t sx, size_t sy) { return Model(sx, std::vector<std::vector<int> >(sy)); }

static void compare(Ctx& c, Obj& o, char const* name) {
    LG const& cg = *o.g;
    for (size_t x = 0; x < o.m.size(); ++x) for (size_t y = 0; y < o.m[x].size(); ++y) {
        std::vector<int> const& want = o.m[x][y];
        size_t k = 0;
        for (LG::iterator it = o.g->beginCell(x, y); it != o.g->endCell(); ++it, ++k) {
            c.check(k < want.size(), "grid %s cell (%zu,%zu): more elements than the %zu stored ones", name, x, y, want.size());
            c.check(it->v == want[k] && it->pad == want[k] * 0.5, "grid %s cell (%zu,%zu) element %zu is %d, expected %d", name, x, y, k, it->v, want[k]);
        }
        c.check(k == want.size(), "grid %s cell (%zu,%zu): %zu elements, expected %zu", name, x, y, k, want.size());
        k = 0;
        for (LG::const_iterator it = cg.beginCell(x, y); it != cg.endCell(); it++, ++k)
            c.check(k < want.size() && (*it).v == want[k], "const iteration differs at grid %s cell (%zu,%zu)", name, x, y);
        c.check(k == want.size(), "const iteration of grid %s cell (%zu,%zu): %zu elements, expected %zu", name, x, y, k, want.size());
    }
}

static uint64_t canon(Obj const* o, int n) {
    uint64_t h = 3;
    for (int i = 0; i < n; ++i) {
        h = mix(h, 99);
        if (!o[i].g) continue;
        h = mix(h, o[i].m.size());
        for (auto& r : o[i].m) for (auto& cell : r) { h = mix(h, 1000 + cell.size()); for (int v : cell) h = mix(h, v); }
    }
    return h;
}

static void moveModel(Model& m, int dx, int dy) {
    size_t sx = m.size(), sy = sx ? m[0].size() : 0;
    Model n = blank(sx, sy);
    for (int x = 0; x < (int)sx; ++x) for (int y = 0; y < (int)sy; ++y) {
        int X = x + dx, Y = y + dy;
        if (X >= 0 && X < (int)sx && Y >= 0 && Y < (int)sy) n[X][Y] = m[x][y];
    }
    m = n;
}

// op alphabet on one object `o` (other: `p`)
static void history(Ctx& c, size_t sx, size_t sy, bool two, std::vector<std::pair<int,int> > const& moves, bool resizes, int maxPerCell) {
    Obj ob[2];
    ob[0].g.reset(new LG(sx, sy)); ob[0].m = blank(sx, sy);
    compare(c, ob[0], "A");
    int next = 1; int last = 0;
    for (int d = 0; d < c.bound; ++d) {
        int which = 0;
        if (ob[1].g) which = c.choose(2, "object");
        Obj& o = ob[which]; Obj& p = ob[1 - which];
        size_t X = o.m.size(), Y = X ? o.m[0].size() : 0, cells = X * Y;
        std::vector<std::function<void ()> > ops; std::vector<std::string> names; 
        auto add = [&](std::string const& n, std::function<void ()> f) { ops.push_back(f); names.push_back(n); };
        for (size_t i = 0; i < cells; ++i) {
            size_t x = i / Y, y = i % Y; std::string at = "(" + std::to_string(x) + "," + std::to_string(y) + ")";
            if ((int)o.m[x][y].size() < maxPerCell) {
                add("insertHead" + at, [&, x, y] { o.g->insertHead(x, y, Val(next)); o.m[x][y].insert(o.m[x][y].begin(), next); ++next; });
                add("insertTail" + at, [&, x, y] { o.g->insertTail(x, y, Val(next)); o.m[x][y].push_back(next); ++next; });
            }
            for (size_t k = 0; k < o.m[x][y].size(); ++k)
                add("erase" + at + "#" + std::to_string(k), [&, x, y, k] {
                    LG::iterator it = o.g->beginCell(x, y);
                    for (size_t q = 0; q < k; ++q) ++it;
                    LG::iterator nx = o.g->erase(it);
                    o.m[x][y].erase(o.m[x][y].begin() + k);
                    if (k < o.m[x][y].size()) c.check(nx != o.g->endCell() && nx->v == o.m[x][y][k], "erase does not return the element after the erased one");
                    else c.check(nx == o.g->endCell(), "erase of the last element does not return the end");
                });
            if (!o.m[x][y].empty())
                add("write" + at, [&, x, y] { LG::iterator it = o.g->beginCell(x, y); it->v = next; it->pad = next * 0.5; o.m[x][y][0] = next; ++next; });
            // drop all elements of the cell with the usual erase loop
            if (o.m[x][y].size() > 1)
                add("eraseAll" + at, [&, x, y] { LG::iterator it = o.g->beginCell(x, y); int n = 0; while (it != o.g->endCell()) { it = o.g->erase(it); c.check(++n < 100, "erase loop does not end"); } o.m[x][y].clear(); });
        }
        for (auto& mv : moves) add("move(" + std::to_string(mv.first) + "," + std::to_string(mv.second) + ")", [&, mv] { o.g->move(mv.first, mv.second); moveModel(o.m, mv.first, mv.second); });
        add("clear", [&] { o.g->clear(); o.m = blank(X, Y); });
        if (resizes) {
            add("resize(1,3)", [&] { o.g->resize(1, 3); o.m = blank(1, 3); });
            add("resize(2,2)", [&] { o.g->resize(2, 2); o.m = blank(2, 2); });
        }
        if (two) {
            add("copy-construct", [&] { p.g.reset(new LG(*o.g)); p.m = o.m; });
            if (p.g) {
                add("assign", [&] { *p.g = *o.g; p.m = o.m; });
                add("destroy other", [&] { p.g.reset(); p.m.clear(); });
            } else add("assign-to-fresh", [&] { p.g.reset(new LG()); *p.g = *o.g; p.m = o.m; });
            add("self-assign", [&] { LG& r = *o.g; *o.g = r; });
        }
        int k = c.choose(ops.size());
        if (!ob[0].g) { std::swap(ob[0], ob[1]); }
        c.note("%s.%s", which ? "B" : "A", names[k].c_str());
        ops[k]();
        c.step();
        if (!ob[0].g) { std::swap(ob[0], ob[1]); }
        if (ob[0].g) compare(c, ob[0], "A");
        if (ob[1].g) compare(c, ob[1], "B");
        uint64_t h = canon(ob, 2);
        c.outcome(h);
        // hidden link state: keep the last operation in the key
        last = k;
        c.state(mix(mix(h, last), next), c.bound - d - 1);
    }
}

int main(int argc, char** argv) {
    Engine e;
    std::vector<std::pair<int,int> > none, diag = { {1,0}, {-1,0}, {0,1}, {0,-1}, {1,1}, {-1,1} }, line = { {1,0}, {-1,0}, {2,0}, {-2,0}, {3,0}, {0,1}, {0,0} };
    e.add("row3", 6, 7, 2, true, [=](Ctx& c) { history(c, 3, 1, false, line, false, 3); }, "one 3x1 grid: insert head/tail, erase any element, erase loop, write through iterator, 7 shifts, clear; full content compared after every step");
    e.add("square", 5, 6, 2, true, [=](Ctx& c) { history(c, 2, 2, false, diag, true, 2); }, "one 2x2 grid with resize to 1x3 / 2x2 and six shifts");
    e.add("copies", 5, 6, 2, true, [=](Ctx& c) { std::vector<std::pair<int,int> > m = { {1,0}, {-1,0} }; history(c, 2, 1, true, m, true, 2); }, "two grids: copy construction, assignment (to fresh, to different shape, to itself), independent mutation and destruction order");
    e.add("cell", 7, 9, 2, true, [=](Ctx& c) { history(c, 1, 1, false, none, false, 4); }, "one cell, long insert/erase histories");
    return e.main(argc, argv);
}
