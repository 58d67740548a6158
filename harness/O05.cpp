// O05: meshes from laser scans, and growing of values.
#include <envire/maps/LaserScan.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/operators/ScanMeshing.hpp>
#include <envire/operators/ObjectGrowing.hpp>
#include "mc.hpp"
#include <memory>
#include <set>
#include <dirent.h>
using namespace envire; using namespace mc;
typedef Eigen::Vector3d V; typedef LaserScan LS; typedef LS::scanline_t Line;
struct Listener : public EventHandler { std::set<EnvironmentItem*> modified; void handle(Event const& e) { if (e.type == event::ITEM && e.operation == event::UPDATE) modified.insert(e.a.get()); } };
struct Listen { Environment& e; Listener l; Listen(Environment& e) : e(e) { e.addEventHandler(&l); l.modified.clear(); } ~Listen() { e.removeEventHandler(&l); } bool saw(EnvironmentItem* i) { return l.modified.count(i) != 0; } };
template<class F> static bool throws(F f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/mesh" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
struct Set { double edge, lo, hi, rem; bool use; Set() : edge(.5), lo(.1), hi(1e9), rem(10000), use(false) {} };
// flat angle between the line of sight and the connection to the next reading
static bool flat(double r, double n, double a) { double c = std::sqrt(r * r + n * n - 2 * r * n * std::cos(a)), q = (r * r - n * n + c * c) / (2 * r * c); return !(std::fabs(std::acos(q) - M_PI / 2) < 85 / 180. * M_PI); }
static void judge(Ctx& c, LS const& s, TriMesh& m, Set const& k, char const* who) {
    struct Pt { V p; double var, col; bool edge; double psi; }; std::vector<Pt> want; std::vector<std::vector<int> > idx; bool rem = k.use; for (auto& l : s.lines) rem = rem && l.ranges.size() == l.remissions.size();
    for (size_t y = 0; y < s.lines.size(); ++y) { auto& l = s.lines[y]; idx.push_back(std::vector<int>(l.ranges.size(), -1)); for (size_t x = 0; x < l.ranges.size(); ++x) { double r = l.ranges[x] / 1000., phi = s.origin_phi + l.delta_phi, psi = s.origin_psi + x * s.delta_psi; auto jump = [&](size_t i) { return i + 1 < l.ranges.size() && flat(l.ranges[i] / 1000., l.ranges[i + 1] / 1000., 2 * s.delta_psi); }; if (!(r > k.lo && r < k.hi) || jump(x) || (x && jump(x - 1))) continue;
        V d(std::cos(phi) * std::cos(psi), std::sin(psi), std::sin(phi) * std::cos(psi)); if (!s.x_forward) d = V(-d.y(), d.x(), d.z()); Pt p; p.p = r * d + Eigen::AngleAxisd(phi, V::UnitX()) * s.center_offset; double sg = std::min(.01 * r, .02); p.var = sg * sg; p.col = rem ? std::min(1., std::max(0., l.remissions[x] / k.rem)) : 0; p.edge = !x || !y || x + 1 == l.ranges.size() || y + 1 == s.lines.size(); p.psi = psi; idx[y][x] = want.size(); want.push_back(p); } }
    size_t n = want.size(); c.check(m.vertices.size() == n, "%s: %zu points instead of %zu", who, m.vertices.size(), n); c.check(m.hasData(TriMesh::VERTEX_COLOR) == (rem && n) || (!n && m.getVertexData<V>(TriMesh::VERTEX_COLOR).empty()), "%s: the colours are %s", who, rem ? "missing" : "made up");
    auto& at = m.getVertexData<TriMesh::vertex_attr>(TriMesh::VERTEX_ATTRIBUTES); auto& va = m.getVertexData<double>(TriMesh::VERTEX_VARIANCE); auto& no = m.getVertexData<V>(TriMesh::VERTEX_NORMAL); c.check(at.size() == n && va.size() == n && no.size() == n, "%s: incomplete data", who);
    for (size_t i = 0; i < n; ++i) { c.check((m.vertices[i] - want[i].p).norm() < 2e-5 * (1 + want[i].p.norm()), "%s: point %zu is at %g %g %g instead of %g %g %g", who, i, m.vertices[i].x(), m.vertices[i].y(), m.vertices[i].z(), want[i].p.x(), want[i].p.y(), want[i].p.z()); c.check(std::fabs(va[i] - want[i].var) < 1e-8 && at[i] == (int(want[i].edge) << TriMesh::SCAN_EDGE), "%s: point %zu has variance %g and attributes %d", who, i, va[i], at[i]); if (rem) c.check(std::fabs(m.getVertexData<V>(TriMesh::VERTEX_COLOR)[i].x() - want[i].col) < 1e-5, "%s: point %zu has another colour", who, i); }
    typedef std::set<int> Tri; std::set<Tri> got; for (auto& f : m.faces) { int a = f.get<0>(), b = f.get<1>(), d = f.get<2>(); c.check(a >= 0 && b >= 0 && d >= 0 && size_t(a) < n && size_t(b) < n && size_t(d) < n, "%s: a face has no points", who); c.check(got.insert(Tri{ a, b, d }).second, "%s: face %d %d %d exists twice", who, a, b, d); if (s.center_offset.norm() == 0 && std::fabs(std::fabs(want[a].psi) - M_PI / 2) > .1) { V q = m.vertices[a]; double side = (m.vertices[b] - q).cross(m.vertices[d] - q).dot(q); c.check(side > 0 || std::fabs(side) < 1e-9, "%s: face %d %d %d is turned around", who, a, b, d); } }
    size_t used = 0; for (size_t y = 1; y < s.lines.size(); ++y) for (size_t x = 1; x < std::max(s.lines[y].ranges.size(), s.lines[y - 1].ranges.size()); ++x) { auto id = [&](size_t yy, size_t xx) { return xx < idx[yy].size() ? idx[yy][xx] : -1; }; int q[4] = { id(y - 1, x - 1), id(y - 1, x), id(y, x), id(y, x - 1) }; bool ok[4], tie = false; int cnt = 0; std::vector<int> have;
        for (int k2 = 0; k2 < 4; ++k2) { int t[3], j = 0; for (int i = 0; i < 4; ++i) if (i != k2) t[j++] = q[i]; ok[k2] = t[0] >= 0 && t[1] >= 0 && t[2] >= 0; if (ok[k2]) for (int i = 0; i < 3; ++i) { double e = (want[t[i]].p - want[t[(i + 1) % 3]].p).norm(); if (std::fabs(e - k.edge) < 1e-4) tie = true; if (e >= k.edge) ok[k2] = false; } if (ok[k2] || t[0] >= 0) if (got.count(Tri{ t[0], t[1], t[2] })) have.push_back(k2); } if (tie) { used += have.size(); continue; }
        for (int k2 : have) c.check(ok[k2], "%s: a face between lines %zu and %zu is too long", who, y - 1, y); bool full = (ok[0] && ok[2]) || (ok[1] && ok[3]), any = ok[0] || ok[1] || ok[2] || ok[3]; cnt = full ? 2 : any ? 1 : 0; if (x >= s.lines[y].ranges.size()) cnt = std::min<int>(cnt, have.size()); c.check(int(have.size()) == cnt, "%s: %zu faces instead of %d between lines %zu and %zu at point %zu", who, have.size(), cnt, y - 1, y, x); if (have.size() == 2) c.check(have[1] - have[0] == 2, "%s: two faces overlap", who); used += have.size(); }
    c.check(used == got.size(), "%s: %zu faces connect points that are no neighbours", who, got.size() - used); c.outcome(mix(n, mix(got.size(), rem)));
}
struct World { std::unique_ptr<Environment> env; LS::Ptr s; TriMesh::Ptr m; ScanMeshing* op; World() : env(new Environment), s(new LS), m(new TriMesh) { std::cout.setstate(std::ios_base::failbit); env->attachItem(s.get()); env->attachItem(m.get()); op = new ScanMeshing; env->attachItem(op); op->addInput(s.get()); op->addOutput(m.get()); s->delta_psi = .02f; s->origin_psi = -.03f; s->origin_phi = .1f; s->center_offset = V::Zero(); } };
static void run(Ctx& c, World& w, Set const& k, char const* who) { Listen l(*w.env); c.check(w.op->updateAll(), "%s failed", who); c.check(l.saw(w.m.get()), "%s: the change is not reported", who); judge(c, *w.s, *w.m, k, who); }
static const unsigned R[] = { 1000, 1050, 50, 3000, 0 };
static void quads(Ctx& c) { World w; int opt = c.choose(c.thorough ? 18 : 9, "options"); Set k; k.edge = .12; k.hi = 2.5; w.s->points_per_line = 3; if (opt % 3 == 1) w.s->origin_psi = 2; if (opt % 3 == 2) w.s->center_offset = V(.1, -.2, .3); opt /= 3; if (opt % 3 == 0) w.s->setXForward(); else w.s->setYForward(); int rem = opt % 3; k.use = rem != 1; if (opt / 3) k.hi = 5; for (int y = 0; y < 2; ++y) { Line l; l.delta_phi = .04f * y; for (int x = 0; x < 3; ++x) l.ranges.push_back(R[c.choose(5, "range")]); if (rem) l.remissions = { 0, 5000u + 1000 * y, 20000 }; w.s->lines.push_back(l); } c.step(); w.op->setMaxEdgeLength(k.edge); w.op->setMaxRange(k.hi); w.op->useRemission(k.use); run(c, w, k, "meshing"); }
static void lines(Ctx& c) {
    World w; int n = c.choose(4, "lines"); Set k; k.use = c.flag("use remission"); w.s->points_per_line = c.choose(2, "points per line") * 3; int pat = c.choose(3, "ranges"); for (int y = 0; y < n; ++y) { Line l; l.delta_phi = .05f * y - .02f; int m = c.choose(5, "length"); for (int x = 0; x < m; ++x) l.ranges.push_back(pat == 0 ? 1000 : pat == 1 ? 2000 + 30 * ((x + y) % 3) : R[(x * 2 + y * 3) % 4]); int r = c.choose(2, "remissions"); if (r) for (int x = 0; x < m; ++x) l.remissions.push_back(x * 4000); w.s->lines.push_back(l); } c.step(); if (k.use) w.op->useRemission(true); if (n == 2) w.op->setExtractMarkers(true); run(c, w, k, "meshing");
    if (n) { w.s->lines.erase(w.s->lines.begin()); if (n == 1 || n == 3) { Line l; l.delta_phi = .2f; l.ranges.assign(4, 1500); w.s->lines.push_back(l); } run(c, w, k, "meshing again"); } TriMesh::Ptr o = new TriMesh; w.env->attachItem(o.get()); c.check(throws([&] { w.op->addOutput(o.get()); }), "a second output was accepted"); if (n == 3) { w.op->removeInputs(); c.check(throws([&] { w.op->updateAll(); }), "meshing without input succeeded"); w.op->addInput(w.s.get()); w.op->removeOutputs(); c.check(throws([&] { w.op->updateAll(); }), "meshing without output succeeded"); } }
static void settings(Ctx& c) {
    World w; Set k; static const double E[] = { .5, .03, .2, .06 }, L[] = { .1, 1.02, .01 }, H[] = { 1e9, 1.04, .9 }, M[] = { 10000, 2500, 7 }; int e = c.choose(4, "edge length"), lo = c.choose(3, "minimum range"), hi = c.choose(3, "maximum range"), r = c.choose(3, "scale"), file = c.choose(2, "file"), use = c.choose(2, "use"); k.edge = E[e]; k.lo = L[lo]; k.hi = H[hi]; k.rem = M[r]; k.use = use; for (int y = 0; y < 3; ++y) { Line l; l.delta_phi = .03f * y; for (int x = 0; x < 4; ++x) { l.ranges.push_back(x == y ? 30 + 500 * (y % 2) : 1000 + 10 * ((x * 3 + y * 5) % 7)); l.remissions.push_back(1000 * x + 5 * y); } w.s->lines.push_back(l); } w.s->points_per_line = 4; c.step();
    if (e) w.op->setMaxEdgeLength(k.edge); if (lo) w.op->setMinRange(k.lo); if (r) w.op->setRemissionScaleFactor(k.rem); auto rest = [&] { if (hi) w.op->setMaxRange(k.hi); if (use) w.op->useRemission(true); }; if (!file) rest();
    if (file) { wipe(); std::string is = w.s->getUniqueId(), im = w.m->getUniqueId(), io = w.op->getUniqueId(); w.env->serialize(dir()); w.env.reset(Environment::unserialize(dir())); wipe(); w.s = w.env->getItem<LS>(is); w.m = w.env->getItem<TriMesh>(im); w.op = w.env->getItem<ScanMeshing>(io).get(); c.check(w.s.get() && w.m.get() && w.op, "the scene changed in a file"); rest(); } run(c, w, k, "meshing"); if (!file) { w.op->setDefaultConfiguration(); run(c, w, Set(), "meshing with default settings"); }
}
// ---- growth
static void grow(Ctx& c) {
    static const struct { int W, H; double sx, sy; } G[] = { { 3, 3, 1, 1 }, { 4, 2, .5, 1 }, { 1, 7, 1, .25 }, { 2, 4, 1, 1 } }; auto& g = G[c.choose(c.thorough ? 4 : 3, "grid")]; int N = g.W * g.H, pol = c.choose(3, "policy"); static const double RR[] = { 0, .6, 1.01, 1.5, 2.3, 9 }; double r = RR[c.choose(6, "radius")]; std::vector<int> v(N); for (int& q : v) q = c.choose(3, "value"); bool named = v[0] == 1; c.step();
    Grid<uint8_t> in(g.W, g.H, g.sx, g.sy), out(g.W, g.H, g.sx, g.sy); std::string b = named ? "b" : Grid<uint8_t>::GRID_DATA; auto& a = in.getGridData(b); auto& o = out.getGridData(b); for (int i = 0; i < N; ++i) { a.data()[i] = v[i]; o.data()[i] = 3; } GrowthPolicy<uint8_t> p(4); auto big = [&](int x, int y) { return pol == 0 ? x > y : pol == 1 ? x < y : x == 2 && y == 0; }; for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) { p.setBigger(x, y, big(x, y)); c.check(p.isBigger(x, y) == big(x, y), "the policy changed"); } ObjectGrowingUINT8 op; op.growObjects(p, in, out, b, r);
    for (int i = 0; i < N; ++i) { int lo = v[i], hi = v[i]; for (int j = 0; j < N; ++j) { double d = std::hypot((i % g.W - j % g.W) * g.sx, (i / g.W - j / g.W) * g.sy); if (d < r - 1e-9 && big(v[j], lo)) lo = v[j]; if (d < r + 1e-9 && big(v[j], hi)) hi = v[j]; } int q = o.data()[i]; c.check(q == lo || q == hi, "radius %g: cell (%d,%d) is %d instead of %d", r, i % g.W, i / g.W, q, lo); c.check(a.data()[i] == v[i], "the input changed"); } c.outcome(hashBytes(o.data(), N)); if (g.W != g.H && !v[0] && !v[1]) { Grid<uint8_t> t(g.H, g.W, g.sy, g.sx); c.check(throws([&] { op.growObjects(p, in, t, b, r); }), "an output of another shape was accepted"); }
}
int main(int argc, char** argv) {
    Engine e;
    e.add("quads", 1, 1, 4, false, quads, "all ranges of two lines of three points with all options");
    e.add("lines", 1, 1, 3, false, lines, "all numbers and lengths of lines, repeated after changes");
    e.add("settings", 1, 1, 2, false, settings, "all settings, directly and after a file");
    e.add("growth", 1, 1, 4, false, grow, "all assignments of three values to small grids with all policies and radii");
    return e.main(argc, argv);
}
