// E08: coordinates between any two frames follow the tree of transforms.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
// independent arithmetic: row-major 3x4 rigid transforms
struct T34 { double m[3][4]; };
static T34 of(Eigen::Affine3d const& t) { T34 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) r.m[i][j] = t.matrix()(i, j); return r; }
static T34 mul(T34 const& a, T34 const& b) { T34 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { r.m[i][j] = j == 3 ? a.m[i][3] : 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static T34 inv(T34 const& a) { T34 r; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; r.m[i][3] = 0; for (int k = 0; k < 3; ++k) r.m[i][3] -= a.m[k][i] * a.m[k][3]; } return r; }
static T34 id() { T34 r; memset(&r, 0, sizeof r); r.m[0][0] = r.m[1][1] = r.m[2][2] = 1; return r; }
static bool same(T34 const& a, Eigen::Affine3d const& b) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) if (!(std::fabs(a.m[i][j] - b.matrix()(i, j)) < 1e-9 * (1 + std::fabs(a.m[i][j])))) return false; return b.matrix()(3, 3) == 1 && b.matrix()(3, 0) == 0; }
static Eigen::Vector3d app(T34 const& a, Eigen::Vector3d const& p) { Eigen::Vector3d r; for (int i = 0; i < 3; ++i) r[i] = a.m[i][0] * p[0] + a.m[i][1] * p[1] + a.m[i][2] * p[2] + a.m[i][3]; return r; }

struct Tree { std::vector<FrameNode*> f; std::vector<int> parent; std::vector<T34> t; std::vector<TMap*> m2; std::vector<TMapB*> m3; };
static T34 toTop(Tree& w, int i, int& top) { T34 r = id(); while (w.parent[i] >= 0) { r = mul(w.t[i], r); i = w.parent[i]; } top = i; return r; }
static void judge(Ctx& c, Environment& env, Tree& w) {
    int n = w.f.size();
    for (int a = 0; a < n; ++a) {
        int ra; T34 A = toTop(w, a, ra); c.check(w.f[a]->getRoot() == w.f[ra], "getRoot of frame %d is wrong", a);
        for (int b = 0; b < n; ++b) {
            int rb; T34 B = toTop(w, b, rb); Transform g; bool t = false;
            try { g = env.relativeTransform(w.f[a], w.f[b]); } catch (std::runtime_error&) { t = true; }
            if (ra != rb) { c.check(t, "frames %d and %d are not connected but have a relative transform", a, b); continue; }
            c.check(!t, "no relative transform between connected frames %d and %d", a, b);
            T34 want = mul(inv(B), A); c.check(same(want, g), "relative transform from %d to %d is wrong: translation (%g,%g,%g), expected (%g,%g,%g)", a, b, g.translation()[0], g.translation()[1], g.translation()[2], want.m[0][3], want.m[1][3], want.m[2][3]);
            c.check(same(want, w.f[a]->relativeTransform(w.f[b])), "FrameNode::relativeTransform from %d to %d is wrong", a, b);
            c.check(same(want, env.relativeTransformWithUncertainty(w.f[a], w.f[b]).getTransform()), "transform with uncertainty from %d to %d is wrong", a, b);
            if (w.m2.size() > (size_t)a && w.m3.size() > (size_t)b) {
                c.check(same(want, env.relativeTransform(w.m2[a], w.m3[b])) && same(want, env.relativeTransformWithUncertainty(w.m2[a], w.m3[b]).getTransform()), "relative transform between the maps of %d and %d is wrong", a, b);
                Eigen::Vector3d p(0.3, -1.2, 2.5);
                c.check((w.m3[a]->fromMap(p, *w.f[b]) - app(want, p)).norm() < 1e-8 && (w.m2[a]->fromMap(p, *w.f[b]) - app(want, p)).norm() < 1e-8, "fromMap of map at %d to frame %d is wrong", a, b);
                c.check((w.m3[a]->toMap(p, *w.f[b]) - app(inv(want), p)).norm() < 1e-8 && (w.m2[a]->toMap(p, *w.f[b]) - app(inv(want), p)).norm() < 1e-8, "toMap from frame %d into the map at %d is wrong", b, a);
                // bounding boxes: tight around the transformed corners
                TMap::Extents x = w.m2[a]->getExtents(), g2 = w.m2[a]->getExtentsTransformed(*w.f[b]), w2; for (int k = 0; k < 4; ++k) w2.extend(app(want, Eigen::Vector3d(k & 1 ? x.max()[0] : x.min()[0], k & 2 ? x.max()[1] : x.min()[1], 0)).head<2>());
                c.check((w2.min() - g2.min()).norm() < 1e-8 && (w2.max() - g2.max()).norm() < 1e-8, "2D extents of the map at %d in frame %d are wrong", a, b);
                TMapB::Extents y = w.m3[a]->getExtents(), g3 = w.m3[a]->getExtentsTransformed(*w.f[b]), w3; for (int k = 0; k < 8; ++k) w3.extend(app(want, Eigen::Vector3d(k & 1 ? y.max()[0] : y.min()[0], k & 2 ? y.max()[1] : y.min()[1], k & 4 ? y.max()[2] : y.min()[2])));
                c.check((w3.min() - g3.min()).norm() < 1e-8 && (w3.max() - g3.max()).norm() < 1e-8, "3D extents of the map at %d in frame %d are wrong", a, b);
            }
        }
        if (w.m2.size() > (size_t)a) { Eigen::Vector3d p(-4, 0.5, 1); c.check((w.m3[a]->fromMap(p) - app(A, p)).norm() < 1e-8 && (w.m3[a]->toMap(p) - app(inv(A), p)).norm() < 1e-8, "default toMap/fromMap of the map at %d is wrong", a); }
    }
}
int main(int argc, char** argv) {
    Engine e;
    e.add("trees", 4, 5, 3, false, [](Ctx& c) {
        {
            Environment env; Tree w; int n = c.bound; w.f.push_back(env.getRootNode()); w.parent.push_back(-1); w.t.push_back(id()); bool maps = n <= 5;
            for (int i = 1; i < n; ++i) {
                int p = c.choose(i + 1, "parent") - 1, k = c.choose(c.thorough ? 5 : 4, "pose") + (c.thorough ? 0 : 1); FrameNode* f; if (i % 2) f = new FrameNode(pose(k)); else { TransformWithUncertainty::Covariance cov = TransformWithUncertainty::Covariance::Identity(); f = new FrameNode(TransformWithUncertainty(pose(k), cov)); }
                if (p < 0) env.attachItem(f); else env.addChild(w.f[p], f); w.f.push_back(f); w.parent.push_back(p); w.t.push_back(of(pose(k)));
            }
            for (int i = 0; i < n && maps; ++i) { w.m2.push_back(new TMap("", i)); env.attachItem(w.m2[i], w.f[i]); w.m3.push_back(new TMapB("", i)); env.attachItem(w.m3[i]); w.m3[i]->setFrameNode(w.f[i]); }
            c.step(); judge(c, env, w);
        }
        c.check(live == 0, "%ld leaked", live);
    }, "all forests of frames with all poses of an alphabet, all pairs of frames and maps");
    e.add("changes", 3, 4, 2, false, [](Ctx& c) {
        {
            Environment env; Tree w; w.f.push_back(env.getRootNode()); w.parent.push_back(-1); w.t.push_back(id());
            for (int i = 1; i < 4; ++i) { FrameNode* f = new FrameNode(pose(i)); env.addChild(w.f[i - 1], f); w.f.push_back(f); w.parent.push_back(i - 1); w.t.push_back(of(pose(i))); }
            FrameNode::Ptr keep[4]; for (int i = 0; i < 4; ++i) keep[i] = w.f[i];
            for (int s = 0; s < c.bound; ++s) {
                int op = c.choose(3, "operation"), i = 1 + c.choose(3, "frame"); c.step();
                if (op == 0) { int k = c.choose(4, "pose"); w.f[i]->setTransform(pose(k)); w.t[i] = of(pose(k)); }
                else if (op == 1) { int p = c.choose(4, "new parent"); bool below = false; for (int q = p; q >= 0; q = w.parent[q]) below = below || q == i; if (below) continue; env.addChild(w.f[p], w.f[i]); w.parent[i] = p; }
                else { if (w.parent[i] >= 0) { env.removeChild(w.f[w.parent[i]], w.f[i]); w.parent[i] = -1; } }
                judge(c, env, w);
            }
        }
    }, "transforms stay right after every sequence of pose changes, re-parenting and separation");
    e.add("clone_to", 4, 5, 2, false, [](Ctx& c) {
        {
            Environment env, dst; int n = c.bound; std::vector<FrameNode*> f(1, env.getRootNode()); std::vector<int> parent(1, -1), ps(1, 0);
            for (int i = 1; i < n; ++i) { int p = c.choose(i, "parent"), k = c.choose(3, "pose") + 1; FrameNode* x = new FrameNode(pose(k)); env.addChild(f[p], x); f.push_back(x); parent.push_back(p); }
            int at = c.choose(n, "map frame"); TMap* m = new TMap("/m", 5); m->blob = "q"; env.attachItem(m, f[at]); Snap before = snapshot(env, false);
            int times = 1 + c.choose(2, "clones"); c.step(); for (int k = 0; k < times; ++k) m->cloneTo(dst);
            Snap after = snapshot(env, false); c.check(before == after, "cloning changed the source:%s", diff(before, after).c_str());
            std::vector<TMap*> g = dst.getItems<TMap>(); c.check((int)g.size() == times, "%zu clones instead of %d", g.size(), times);
            int depth = 0; for (int i = at; i > 0; i = parent[i]) ++depth;
            for (auto* x : g) { c.check(x->value == 5 && x->blob == "q", "the clone has other content"); Transform a = env.relativeTransform(m->getFrameNode(), env.getRootNode()), b = dst.relativeTransform(x->getFrameNode(), dst.getRootNode()); c.check((a.matrix() - b.matrix()).norm() < 1e-9, "the clone is placed elsewhere");
                int d = 0; for (FrameNode* q = x->getFrameNode(); q != dst.getRootNode(); q = q->getParent()) ++d; c.check(d == depth, "the clone hangs below %d frames instead of %d", d, depth); }
            snapshot(dst, false);
        }
        c.check(live == 0, "%ld leaked", live);
    }, "cloning a map with its frames into another environment keeps its place");
    return e.main(argc, argv);
}
