// O02: cutting, merging and folding keep each value with its point or cell.
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/operators/CutPointcloud.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <envire/operators/Fold.hpp>
#include "mc.hpp"
#include <memory>
#include <set>
#include <algorithm>
using namespace envire; using namespace mc;
typedef Eigen::Affine3d T; typedef Eigen::Vector3d V; typedef Pointcloud PC;
static T place(double a, double b, double x, double y, double z) { T t = T::Identity(); t.linear() = (Eigen::AngleAxisd(a, V::UnitZ()) * Eigen::AngleAxisd(b, V::UnitX())).toRotationMatrix(); t.translation() << x, y, z; return t; }
struct World {
    std::unique_ptr<Environment> env; FrameNode* f[3]; T t[3];
    World() : env(new Environment) { f[0] = env->getRootNode(); t[0] = T::Identity(); T a = place(1.5707963267948966, .3, .3, .2, 2), b = place(.4, -.9, -.45, .35, -.5); f[1] = new FrameNode(a); f[2] = new FrameNode(b); env->addChild(f[0], f[1]); env->addChild(f[1], f[2]); t[1] = a; t[2] = a * b; }
    T rel(int from, int to) const { return t[to].inverse() * t[from]; }
};
struct Listener : public EventHandler { std::set<EnvironmentItem*> modified; void handle(Event const& e) { if (e.type == event::ITEM && e.operation == event::UPDATE) modified.insert(e.a.get()); } };
struct Listen { Environment& e; Listener l; Listen(Environment& e) : e(e) { e.addEventHandler(&l); l.modified.clear(); } ~Listen() { e.removeEventHandler(&l); } bool saw(EnvironmentItem* i) { return l.modified.count(i) != 0; } };
// a point with everything that belongs to it
struct Pt { V p, n, c; int a; double v; };
enum { NORMAL = 1, COLOR = 2, ATTR = 4, VAR = 8 };
static Pt pt(int k) { static const V P[] = { V(0, 0, 0), V(1, 0, 2), V(-1, 3, .5), V(1, 1, 1), V(2, -2, -2) }; Pt r; r.p = P[k % 5] + V(0, 0, k / 5 * 10.); r.n = V(std::sin(k), std::cos(k), .1 * k).normalized(); r.c = V(.1 * k, 1 - .1 * k, .5); r.a = k + 1; r.v = .5 + k; return r; }
static void put(PC& c, Pt const& q, int data) { c.vertices.push_back(q.p); if (data & NORMAL) c.getVertexData<V>(PC::VERTEX_NORMAL).push_back(q.n); if (data & COLOR) c.getVertexData<V>(PC::VERTEX_COLOR).push_back(q.c); if (data & ATTR) c.getVertexData<int>(PC::VERTEX_ATTRIBUTES).push_back(q.a); if (data & VAR) c.getVertexData<double>(PC::VERTEX_VARIANCE).push_back(q.v); }
static void touch(PC& c, int data) { if (data & NORMAL) c.getVertexData<V>(PC::VERTEX_NORMAL); if (data & COLOR) c.getVertexData<V>(PC::VERTEX_COLOR); if (data & ATTR) c.getVertexData<int>(PC::VERTEX_ATTRIBUTES); if (data & VAR) c.getVertexData<double>(PC::VERTEX_VARIANCE); }
static Pt moved(Pt q, T const& t) { q.p = t * q.p; q.n = t.linear() * q.n; return q; }
// the cloud holds exactly these points, each with its data
static void judge(Ctx& c, PC& k, std::vector<Pt> const& want, int data, char const* who) {
    c.check(k.vertices.size() == want.size(), "%s: %zu points instead of %zu", who, k.vertices.size(), want.size()); size_t n = want.size();
    auto size = [&](int bit, std::string const& b, size_t s, bool has) { if (data & bit) c.check(n == 0 || (has && s == n), "%s: %zu values of '%s' for %zu points", who, has ? s : 0, b.c_str(), n); else c.check(!has || s == 0, "%s: %zu values of '%s' appeared", who, s, b.c_str()); };
    size(NORMAL, PC::VERTEX_NORMAL, k.hasData(PC::VERTEX_NORMAL) ? k.getVertexData<V>(PC::VERTEX_NORMAL).size() : 0, k.hasData(PC::VERTEX_NORMAL)); size(COLOR, PC::VERTEX_COLOR, k.hasData(PC::VERTEX_COLOR) ? k.getVertexData<V>(PC::VERTEX_COLOR).size() : 0, k.hasData(PC::VERTEX_COLOR));
    size(ATTR, PC::VERTEX_ATTRIBUTES, k.hasData(PC::VERTEX_ATTRIBUTES) ? k.getVertexData<int>(PC::VERTEX_ATTRIBUTES).size() : 0, k.hasData(PC::VERTEX_ATTRIBUTES)); size(VAR, PC::VERTEX_VARIANCE, k.hasData(PC::VERTEX_VARIANCE) ? k.getVertexData<double>(PC::VERTEX_VARIANCE).size() : 0, k.hasData(PC::VERTEX_VARIANCE));
    std::vector<bool> used(n);
    for (size_t i = 0; i < n; ++i) { bool ok = false; for (size_t j = 0; j < n && !ok; ++j) if (!used[j]) { Pt const& q = want[j]; bool e = (k.vertices[i] - q.p).norm() < 1e-9; if (e && (data & NORMAL)) e = (k.getVertexData<V>(PC::VERTEX_NORMAL)[i] - q.n).norm() < 1e-9; if (e && (data & COLOR)) e = k.getVertexData<V>(PC::VERTEX_COLOR)[i] == q.c; if (e && (data & ATTR)) e = k.getVertexData<int>(PC::VERTEX_ATTRIBUTES)[i] == q.a; if (e && (data & VAR)) e = k.getVertexData<double>(PC::VERTEX_VARIANCE)[i] == q.v; if (e) used[j] = ok = true; }
        V p = k.vertices[i]; c.check(ok, "%s: point %zu (%g %g %g) with its data was not expected", who, i, p.x(), p.y(), p.z()); }
}
static void cut(Ctx& c) {
    World w; static const int FR[][2] = { { 0, 0 }, { 0, 1 }, { 2, 1 }, { 1, 2 }, { 2, 0 } }, DA[] = { 0, 1, 14, 15, 2, 4, 8, 13, 11, 7 }; int fr = c.choose(c.thorough ? 5 : 4, "frames"), fs = FR[fr][0], ft = FR[fr][1], data = DA[c.choose(c.thorough ? 10 : 4, "data")], nb = c.choose(3, "boxes"); struct B { int box; bool ex; }; std::vector<B> bs; static const double L[][6] = { { -.5, -.5, -.5, 1, 1, 1 }, { .5, -3, -3, 3, 2, 3 } };
    for (int i = 0; i < nb; ++i) { int k = c.choose(4, "box"); bs.push_back(B{ k % 2, k / 2 == 0 }); } int n = c.choose(3, "points"); std::vector<int> ks; for (int i = 0; i < n; ++i) ks.push_back(c.choose(5, "point") + 5 * 0);
    int pre = c.choose(c.thorough ? 3 : 2, "target content") * (c.thorough ? 1 : 2), again = c.choose(2, "again"), change = nb ? c.choose(3, "change of boxes") : 0; c.step();
    PC::Ptr s = new PC, t = new PC; w.env->attachItem(s.get()); w.env->attachItem(t.get()); s->setFrameNode(w.f[fs]); t->setFrameNode(w.f[ft]); std::vector<Pt> src; touch(*s, data); for (int i = 0; i < n; ++i) { Pt q = pt(ks[i]); q.a += 10 * i; q.c.x() += i; src.push_back(q); put(*s, q, data); } if (pre) for (int i = 0; i < 2; ++i) put(*t, pt(7 + i), pre == 1 ? 0 : 15);
    std::unique_ptr<ExclusionBox> boxes[2]; CutPointcloud* op = new CutPointcloud; w.env->attachItem(op); op->addInput(s.get()); op->addOutput(t.get()); for (int i = 0; i < nb; ++i) { boxes[i].reset(new ExclusionBox); c.check(boxes[i]->excludes() && !boxes[i]->includes(), "a new box does not exclude"); double const* l = L[bs[i].box]; boxes[i]->box = Eigen::AlignedBox<double, 3>(V(l[0], l[1], l[2]), V(l[3], l[4], l[5])); boxes[i]->exclude = bs[i].ex; op->addBox(boxes[i].get()); if (change == 1) op->addBox(boxes[i].get()); }
    auto run = [&](char const* who) { Listen l(*w.env); c.check(op->updateAll(), "%s failed", who); c.check(l.saw(t.get()), "%s: the change is not reported", who); std::vector<Pt> want; for (auto& q : src) { bool in = true; for (auto& b : bs) { double const* e = L[b.box]; bool inside = true; for (int k = 0; k < 3; ++k) inside = inside && q.p[k] >= e[k] && q.p[k] <= e[k + 3]; if (inside == b.ex) in = false; } if (in) want.push_back(moved(q, w.rel(fs, ft))); } judge(c, *t, want, data, who); judge(c, *s, src, data, "source"); c.outcome(mix(want.size(), data)); };
    run("cut"); if (change) { op->removeBox(boxes[0].get()); bs.erase(bs.begin()); run("cut without the first box"); op->removeBox(boxes[0].get()); run("cut after removing it twice"); }
    if (again) { Pt q = pt(8); src.push_back(q); put(*s, q, data); s->setFrameNode(w.f[fs = (fs + 1) % 3]); run("cut after a change"); }
    PC::Ptr o = new PC; w.env->attachItem(o.get()); bool a = false, b = false; try { op->addInput(o.get()); } catch (std::runtime_error&) { a = true; } try { op->addOutput(o.get()); } catch (std::runtime_error&) { b = true; } c.check(a && b, "a second in- or output was accepted"); c.check(w.env->getInputs(op).size() == 1 && w.env->getOutputs(op).size() == 1, "the connections changed"); run("cut after refused connections");
    for (int k = 0; k < 2; ++k) { if (k) { op->addInput(s.get()); op->removeOutput(t.get()); } else op->removeInput(s.get()); bool th = false; try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th, "cutting without %s succeeded", k ? "output" : "input"); }
}
static void merge(Ctx& c) {
    World w; int nc = c.choose(c.thorough ? 4 : 3, "clouds"), ft = c.choose(3, "frame of the target"); bool keep = c.flag("keep"); int pre = c.choose(6, "target content"); /* 0 none, 1 no points but arrays, 2.. two points with data 0..3 */
    PC::Ptr t = new PC; w.env->attachItem(t.get()); t->setFrameNode(w.f[ft]); std::vector<Pt> old; int od = pre < 2 ? 0 : pre - 2; if (pre == 1) touch(*t, 3); if (pre >= 2) for (int i = 0; i < 2; ++i) { old.push_back(pt(20 + i)); put(*t, pt(20 + i), od); }
    struct C { PC::Ptr p; int f, data; std::vector<Pt> q; }; std::vector<C> cs; MergePointcloud* op = new MergePointcloud; w.env->attachItem(op); op->addOutput(t.get()); if (keep) op->setClearOutput(false); else if (c.flag("set")) op->setClearOutput(true);
    for (int i = 0; i < nc; ++i) { C k; k.p = new PC; k.f = c.choose(3, "frame"); k.data = c.choose(4, "data"); int n = c.choose(3, "points"); touch(*k.p, k.data); for (int j = 0; j < n; ++j) { Pt q = pt(i * 4 + j); k.q.push_back(q); put(*k.p, q, k.data); } w.env->attachItem(k.p.get()); k.p->setFrameNode(w.f[k.f]); op->addInput(k.p.get()); cs.push_back(k); } c.step();
    bool kept = keep && !old.empty(); int all = 0, any = 0; bool first = true; auto meet = [&](int d) { all = first ? d : all & d; any |= d; first = false; }; for (auto& k : cs) meet(k.data); if (kept) meet(od); bool bad = all != any;
    int runs = keep ? 2 : 1 + c.choose(2, "again");
    for (int r = 0; r < runs; ++r) {
        Listen l(*w.env); bool th = false; try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th == bad, "clouds with %s data were %s", bad ? "different" : "the same", th ? "refused" : "merged");
        if (bad) { judge(c, *t, old, od, "target of a refused merge"); break; } c.check(l.saw(t.get()), "the change is not reported");
        std::vector<Pt> want; if (keep) want = old; for (auto& k : cs) for (auto& q : k.q) want.push_back(moved(q, w.rel(k.f, ft))); int d = cs.empty() && !kept ? 0 : any; judge(c, *t, want, d, "merge"); old = want; od = d;
        if (!old.empty() && keep && nc == 0) break; if (keep) { kept = !old.empty(); if (kept && nc) { all = any = 0; first = true; for (auto& k : cs) meet(k.data); meet(od); bad = all != any; } }
    }
    for (auto& k : cs) judge(c, *k.p, k.q, k.data, "source"); PC::Ptr o = new PC; w.env->attachItem(o.get()); bool a = false; try { op->addOutput(o.get()); } catch (std::runtime_error&) { a = true; } c.check(a && w.env->getOutputs(op).size() == 1, "a second output was accepted");
    op->removeOutput(t.get()); a = false; try { op->updateAll(); } catch (std::runtime_error&) { a = true; } c.check(a, "merging without output succeeded"); c.outcome(mix(bad, mix(old.size(), od)));
}
static void fold(Ctx& c) {
    int W = 1 + c.choose(4, "width"), H = 1 + c.choose(4, "height"), n = c.choose(7, "window"), mis = c.choose(4, "mismatch"), pat = c.choose(3, "values"); Environment env; typedef Grid<double> G; G::Ptr a = new G(W, H, .5, .25), b = new G(W + (mis & 1), H + (mis >> 1), .5, .25); env.attachItem(a.get()); env.attachItem(b.get()); DoubleFoldOperator* op = new DoubleFoldOperator; env.attachItem(op); op->addInput(a.get()); op->addOutput(b.get()); if (n) op->setNeightbourHoodSize(n); auto& d = a->getGridData(); auto& o = b->getGridData(); std::vector<double> in(W * H);
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) in[y * W + x] = d[y][x] = pat == 0 ? 1 << (y * W + x) : pat == 1 ? -.1 * x + 10 * y : (x + y) % 2; std::fill(o.data(), o.data() + o.num_elements(), 77); c.step(); bool th = false; Listen l(env); try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th == (mis != 0), "grids of %s size were %s", mis ? "different" : "the same", th ? "refused" : "accepted"); if (!mis) c.check(l.saw(b.get()), "the change is not reported");
    int h = (n + 1) / 2; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double s = 0; int k = 0; for (int v = y - h; v < y + h; ++v) for (int u = x - h; u < x + h; ++u) if (u >= 0 && u < W && v >= 0 && v < H) { s += in[v * W + u]; ++k; } double e = k ? s / k : 0; if (mis) e = 77; c.check(std::fabs(o[y][x] - e) <= 1e-12 * std::max(1., std::fabs(e)), "cell (%d,%d) is %.15g instead of %.15g", x, y, o[y][x], e); c.check(d[y][x] == in[y * W + x], "the input changed"); } c.outcome(mix(W * 8 + H, n));
    op->removeInput(a.get()); th = false; try { op->updateAll(); } catch (std::runtime_error&) { th = true; } c.check(th, "folding without input succeeded");
}
int main(int argc, char** argv) {
    Engine e;
    e.add("cut", 1, 1, 4, false, cut, "all small clouds with all combinations of data, frames and boxes");
    e.add("merge", 1, 1, 4, false, merge, "all combinations of up to two (three) small clouds, frames, data and target contents");
    e.add("fold", 1, 1, 2, false, fold, "all grid sizes and windows");
    return e.main(argc, argv);
}
