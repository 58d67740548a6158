// M11: sets of polygons that are moved, extended and queried.
#include <envire/maps/PolygonMap.hpp>
#include <Box2D/Box2D.h>
#include "mc.hpp"
#include <iostream>
#include <memory>
using namespace mc; using envire::Polygon; using envire::PolygonSet;
typedef Eigen::Vector2d P; typedef std::vector<P> Pg;
static base::Pose pose(double x, double y, double a) { return base::Pose(Eigen::Vector3d(x, y, 3), Eigen::Quaterniond(Eigen::AngleAxisd(a, Eigen::Vector3d::UnitZ()))); }
static std::vector<Pg> const& shapes() { static const std::vector<Pg> v = { { P(-.5, -.5), P(.5, -.5), P(.5, .5), P(-.5, .5) }, { P(0, 0), P(0, 1.5), P(2, 0) }, { P(-3, -2), P(3, -2), P(4, 0), P(3, 2), P(-3, 2), P(-4, 0) }, { P(1, .1), P(-1, .1), P(-1, -.1), P(1, -.1) }, { P(.2, .3), P(.1, -.2), P(-.3, 0) } }; return v; }
static Pg hull(Pg const& p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) { P const &u = p[i], &w = p[(i + 1) % p.size()]; a += u.x() * w.y() - u.y() * w.x(); } Pg r = p; if (a < 0) std::reverse(r.begin(), r.end()); return r; }
static Pg at(Pg const& p, base::Pose const& q) { double a = q.getYaw(); Pg r; for (auto& v : hull(p)) r.push_back(P(std::cos(a) * v.x() - std::sin(a) * v.y() + q.position.x(), std::sin(a) * v.x() + std::cos(a) * v.y() + q.position.y())); return r; }
static double depth(Pg const& p, P const& v) { double d = 1e9; for (size_t i = 0; i < p.size(); ++i) { P e = p[(i + 1) % p.size()] - p[i], f = v - p[i]; d = std::min(d, (e.x() * f.y() - e.y() * f.x()) / e.norm()); } return d; } // how far inside
static double distance(Pg const& a, Pg const& b) { bool sep = false; for (int k = 0; k < 2; ++k) { Pg const &u = k ? b : a, &w = k ? a : b; for (size_t i = 0; i < u.size() && !sep; ++i) { P e = u[(i + 1) % u.size()] - u[i]; bool all = true; for (auto& v : w) { P f = v - u[i]; if (e.x() * f.y() - e.y() * f.x() > 0) all = false; } sep = all; } } if (!sep) return 0; double d = 1e9; for (int k = 0; k < 2; ++k) { Pg const &u = k ? b : a, &w = k ? a : b; for (auto& v : w) for (size_t i = 0; i < u.size(); ++i) { P e = u[(i + 1) % u.size()] - u[i]; double t = std::min(1., std::max(0., (v - u[i]).dot(e) / e.squaredNorm())); d = std::min(d, (v - u[i] - t * e).norm()); } } return d; }
struct Quiet { Quiet() { std::cout.setstate(std::ios_base::failbit); } ~Quiet() { std::cout.clear(); } };
struct Model { Pg shape, area; base::Pose p; Pg now() const { return at(shape, p); } Pg reach() const { return at(area, p); } };
static const double SKIN = .03;
static void judge(Ctx& c, PolygonSet& s, std::vector<Model const*> const& in, Polygon const& q, Model const& m, int order, char const* who) {
    Pg a = m.now(), r = m.reach(); double least = 1e9, near = 1e9; bool hit = false, in1 = false, in2 = false; std::vector<double> all; for (auto k : in) { Pg b = k->now(); double d = distance(a, b), dep = 1e9; all.push_back(d); least = std::min(least, d); if (distance(r, b) == 0) near = std::min(near, d); if (d == 0) hit = true; for (auto& v : a) dep = std::min(dep, depth(b, v)); if (dep > 1e-3) in1 = true; if (dep > -1e-3) in2 = true; }
    for (int k = 0; k < 3; ++k) switch ((k + order) % 3) {
        case 0: { bool x = s.isIntersecting(q); c.check(x || !hit, "%s: an intersection is missed", who); c.check(!x || least < SKIN, "%s: an intersection over a distance of %g", who, least); break; }
        case 1: { bool x = s.isInside(q); c.check(x || !in1, "%s: a polygon inside of another one is missed", who); c.check(!x || in2, "%s: a polygon is said to be inside, but sticks out", who); break; }
        default: { double x = s.getMinimalDistance(q); bool far = x > 1e30; c.check(!far || near > 1e8, "%s: no distance, but a polygon is within the area at %g", who, near); if (!far) { bool some = false; for (double d : all) if (std::fabs(d - x) < SKIN) some = true; c.check(some, "%s: the distance is %g, the nearest is %g", who, x, least); c.check(x < near + SKIN, "%s: the distance is %g, but a polygon is at %g", who, x, near); } } }
}
static Pg grown(Pg const& p, double g) { Pg r; for (auto& v : hull(p)) r.push_back(v * g); return r; }
static void single(Ctx& c) { // all placements of one polygon to another, and of a second one
    Model q, k, l; int n = c.thorough ? 5 : 4; q.shape = c.pick(shapes(), "shape"); k.shape = shapes()[c.choose(n, "shape in set")]; static const double X[] = { 0, .3, 1.2, 2.45, -5.1 }, A[] = { 0, .6, 1.5707963267948966, -2.2 }; k.p = pose(1, -2, A[c.choose(4, "angle in set")]); double y = c.choose(3, "y") * .8; q.p = pose(1 + X[c.choose(5, "x")], -2 + y, A[c.choose(4, "angle")]); k.area = k.shape; static const double G[] = { 1, 1.5, 4 }; double g = G[c.choose(3, "area")]; q.area = g == 1 ? q.shape : grown(q.shape, g); int second = c.choose(3, "second"), order = c.choose(3, "order"); b2BroadPhase::reversed() = c.choose(2, "query order"); c.step(); Quiet quiet;
    Polygon pk(k.shape), pq(q.shape); pk.move(k.p); if (g != 1) pq.setDistanceCalculationArea(q.area); pq.move(q.p); PolygonSet s; std::vector<Model const*> in; l.shape = l.area = shapes()[2]; l.p = pose(1.2, -1, .3); Polygon pl(l.shape); pl.move(l.p); if (second == 1) { s.add(pl); in.push_back(&l); } s.add(pk); in.push_back(&k); if (second == 2) { s.add(pl); in.push_back(&l); } judge(c, s, in, pq, q, order, "placement"); judge(c, s, in, pk, k, order, "itself"); judge(c, s, in, pq, q, 0, "again"); c.outcome(g * 10 + in.size()); }
static void history(Ctx& c) {
    static const std::vector<base::Pose> AT = { pose(0, 0, 0), pose(.6, .2, .5), pose(6, 1, 1.2), pose(6.5, 1.1, -.3) }; int n = c.bound; Model m[3]; std::unique_ptr<Polygon> p[3]; Quiet quiet; b2BroadPhase::reversed() = c.thorough ? c.choose(2, "query order") : 0; static const int SH[] = { 0, 2, 4 }; for (int i = 0; i < 3; ++i) { m[i].shape = m[i].area = shapes()[SH[i]]; m[i].p = AT[0]; p[i].reset(new Polygon(m[i].shape)); } PolygonSet s[2]; std::vector<Model const*> in[2]; s[0].add(*p[1]); in[0].push_back(&m[1]);
    for (int i = 0; i < n; ++i) { int o = c.choose(26, "operation"); c.step(); if (o < 12) { m[o / 4].p = AT[o % 4]; p[o / 4]->move(AT[o % 4]); } else if (o < 14) { int k = (o - 12) * 2; m[k].area = m[k].area.size() == m[k].shape.size() && m[k].area[0] == m[k].shape[0] ? grown(m[k].shape, 9) : m[k].shape; p[k]->setDistanceCalculationArea(m[k].area); } else if (o < 20) { int k = (o - 14) % 3, t = (o - 14) / 3; if (std::count(in[t].begin(), in[t].end(), &m[k])) return; s[t].add(*p[k]); in[t].push_back(&m[k]); } else { int k = (o - 20) % 3, t = (o - 20) / 3; judge(c, s[t], in[t], *p[k], m[k], i % 3, "history"); } }
    for (int t = 0; t < 2; ++t) for (int k = 0; k < 3; ++k) judge(c, s[t], in[t], *p[k], m[k], t + k, "in the end"); c.outcome(in[0].size() * 4 + in[1].size()); }
static void copies(Ctx& c) { // all sequences of copies, assignments and destructions
    static const std::vector<base::Pose> AT = { pose(0, 0, 0), pose(.6, .2, .5), pose(6, 1, 1.2) }; struct X { std::unique_ptr<Polygon> p; Model m; }; struct S { std::unique_ptr<PolygonSet> s; std::vector<Model const*> in; }; Quiet quiet; int n = c.bound; b2BroadPhase::reversed() = 0; X x[3], f; S s[2]; f.m.shape = f.m.area = shapes()[2]; f.p.reset(new Polygon(f.m.shape)); for (int i = 0; i < 2; ++i) { x[i].m.shape = x[i].m.area = shapes()[i]; x[i].p.reset(new Polygon(x[i].m.shape)); x[i].m.p = AT[i]; x[i].p->move(AT[i]); } s[0].s.reset(new PolygonSet); Model fixed = f.m; 
    for (int i = 0; i < n; ++i) { int o = c.choose(17, "operation"); c.step(); if (o < 6) { int k = o / 3; if (!x[k].p) return; x[k].m.p = AT[o % 3]; x[k].p->move(AT[o % 3]); } else if (o == 6) { if (!x[0].p) return; x[2].p.reset(new Polygon(*x[0].p)); x[2].m = x[0].m; } else if (o == 7) { if (!x[1].p || !x[0].p) return; *x[0].p = *x[1].p; x[0].m = x[1].m; } else if (o == 8) { if (!x[2].p || !x[1].p) return; *x[1].p = *x[2].p; x[1].m = x[2].m; } else if (o == 9) x[0].p.reset(); else if (o == 10) { if (!s[0].s || !s[0].in.empty()) return; s[0].s->add(*f.p); s[0].in.push_back(&f.m); } else if (o == 11) { if (!s[0].s) return; s[1].s.reset(new PolygonSet(*s[0].s)); s[1].in = s[0].in; } else if (o == 12) { if (!s[0].s || !s[1].s) return; *s[0].s = *s[1].s; s[0].in = s[1].in; } else if (o == 13) { if (!s[1].s || s[1].in.size()) return; s[1].s->add(*f.p); s[1].in.push_back(&f.m); } else if (o == 14) { s[0].s.reset(); } else if (o == 15) { f.m.p = AT[1 + i % 2]; f.p->move(f.m.p); } else { if (!x[0].p) return; *x[0].p = *x[0].p; if (s[0].s) *s[0].s = *s[0].s; }
        for (int t = 0; t < 2; ++t) if (s[t].s) for (int k = 0; k < 3; ++k) if (x[k].p) judge(c, *s[t].s, s[t].in, *x[k].p, x[k].m, 0, "copy"); } c.outcome(s[0].in.size() + s[1].in.size()); }
static void map(Ctx& c) { envire::Environment e; boost::intrusive_ptr<envire::PolygonMap> m = new envire::PolygonMap; int at = c.choose(2, "attached"), cl = c.choose(3, "clones"); c.step(); if (at) e.attachItem(m.get()); std::vector<envire::EnvironmentItem::Ptr> v; for (int i = 0; i < cl; ++i) { envire::EnvironmentItem* k = i ? v[0]->clone() : m->clone(); v.push_back(k); c.check(dynamic_cast<envire::PolygonMap*>(k) && k->getClassName() == m->getClassName(), "the copy is of another class"); } c.outcome(cl); }
int main(int argc, char** argv) {
    Engine e;
    e.add("placements", 1, 1, 3, false, single, "all placements of polygons, areas and orders");
    e.add("history", 4, 5, 2, false, history, "all sequences of n moves, areas, additions and queries of three polygons and two sets");
    e.add("copies", 4, 5, 2, false, copies, "all sequences of n copies, assignments, moves and destructions");
    e.add("maps", 1, 1, 1, false, map, "all clones of polygon maps");
    return e.main(argc, argv);
}
