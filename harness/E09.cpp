// E09: uncertainty of composed, inverted and applied transforms is the first order propagation of the inputs.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
typedef Eigen::Matrix<double, 6, 6> M6; typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Vector3d V3; typedef TransformWithUncertainty TU;
// rotation vector <-> matrix, written independently of the code under test
static Eigen::Matrix3d ex(V3 const& r) { double th = r.norm(); Eigen::Matrix3d K; K << 0, -r[2], r[1], r[2], 0, -r[0], -r[1], r[0], 0; if (th < 1e-12) return Eigen::Matrix3d::Identity() + K; return Eigen::Matrix3d::Identity() + std::sin(th) / th * K + (1 - std::cos(th)) / (th * th) * K * K; }
static V3 lo(Eigen::Matrix3d const& R) { double co = std::max(-1.0, std::min(1.0, (R.trace() - 1) / 2)), th = std::acos(co); V3 v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1)); double s = v.norm() / 2; th = std::atan2(s, co); if (s < 1e-12) return v / 2; return v / (2 * s) * th; }
static V6 comp(V6 const& b, V6 const& a) { V6 r; r << lo(ex(b.head<3>()) * ex(a.head<3>())), ex(b.head<3>()) * a.tail<3>() + b.tail<3>(); return r; }
static V6 inve(V6 const& a) { V6 r; r << -a.head<3>(), -(ex(a.head<3>()).transpose() * a.tail<3>()); return r; }
template<class F> static M6 jac(F f, V6 const& x) { M6 J; double h = 1e-6; for (int i = 0; i < 6; ++i) { V6 p = x, m = x; p[i] += h; m[i] -= h; J.col(i) = (f(p) - f(m)) / (2 * h); } return J; }
static Transform tf(V6 const& x) { Transform t = Transform::Identity(); t.linear() = ex(x.head<3>()); t.translation() = x.tail<3>(); return t; }
static bool near(Eigen::MatrixXd const& a, Eigen::MatrixXd const& b, double tol = 2e-3) { return (a - b).norm() <= tol * (1 + b.norm()); }
static V6 P(int k) { static const double D[][6] = { { 0, 0, 0, 0, 0, 0 }, { .3, 0, 0, 1, -2, .5 }, { 0, -.4, .1, .2, .7, -3 }, { -.2, .25, .3, -4, .25, 1 }, { 0, 0, .45, 2, 1, 0 } }; V6 v; for (int i = 0; i < 6; ++i) v[i] = D[k][i]; return v; }
static V6 Q(int k) { V6 v = P(k); v.head<3>() *= .5; return v; }
// covariance alphabet: none, rotation only, translation only, full with strong correlations
static M6 C(int k) { M6 c = M6::Zero(); if (k == 1) c.topLeftCorner<3, 3>() = V3(.01, .02, .03).asDiagonal(); if (k == 2) c.bottomRightCorner<3, 3>() = V3(.1, .2, .05).asDiagonal(); if (k == 3) { M6 L = M6::Zero(); for (int i = 0; i < 6; ++i) for (int j = 0; j <= i; ++j) L(i, j) = .02 * (1 + i - .7 * j) * (j % 2 ? -1 : 1) + (i == j ? .1 : 0); c = L * L.transpose(); } return c; }
static TU make(int p, int k) { return k < 0 ? TU(tf(P(p))) : TU(tf(P(p)), C(k)); }
static M6 covOf(int k) { return k < 0 ? M6(M6::Zero()) : C(k); }
int main(int argc, char** argv) {
    Engine e;
    e.add("compose", 1, 1, 2, false, [](Ctx& c) {
        int p1 = c.choose(5), p2 = c.choose(5), k1 = c.choose(5) - 1, k2 = c.choose(5) - 1; TU t1 = make(p1, k1), t2 = make(p2, k2); c.step(); V6 x1 = P(p1), x2 = P(p2), x = comp(x2, x1);
        TU r[2] = { t2 * t1, t2.composition(t1) };
        M6 J1 = jac([&](V6 const& v) { return comp(x2, v); }, x1), J2 = jac([&](V6 const& v) { return comp(v, x1); }, x2), want = J1 * covOf(k1) * J1.transpose() + J2 * covOf(k2) * J2.transpose();
        for (int i = 0; i < 2; ++i) { c.check(near(r[i].getTransform().matrix(), tf(x).matrix(), 1e-9), "composition of %d and %d yields a wrong transform", p2, p1); c.check(r[i].hasUncertainty() == (k1 >= 0 || k2 >= 0), "composition %s uncertainty", r[i].hasUncertainty() ? "invented" : "lost"); c.check(near(r[i].getCovariance(), want), "covariance of the composition of poses %d (cov %d) and %d (cov %d) is not the propagated one: error %g", p2, k2, p1, k1, (r[i].getCovariance() - want).norm()); }
        // inverse compositions: result * t1 = tf and t2 * result = tf, including the covariances
        TU tfull = r[0]; TU a = tfull.compositionInv(t1), b = tfull.preCompositionInv(t2);
        c.check(near(a.getTransform().matrix(), t2.getTransform().matrix(), 1e-9) && near(b.getTransform().matrix(), t1.getTransform().matrix(), 1e-9), "an inverse composition yields a wrong transform");
        c.check(near(a.getCovariance(), covOf(k2), 1e-6), "compositionInv does not recover the covariance %d: error %g", k2, (a.getCovariance() - covOf(k2)).norm()); c.check(near(b.getCovariance(), covOf(k1), 1e-6), "preCompositionInv does not recover the covariance %d: error %g", k1, (b.getCovariance() - covOf(k1)).norm());
        c.outcome(hashBytes(want.data(), 36 * 8));
    }, "all pairs of poses and covariances");
    e.add("inverse", 1, 1, 1, false, [](Ctx& c) {
        int p = c.choose(5), k = c.choose(5) - 1; TU t = make(p, k), i = t.inverse(); c.step(); c.check(near(i.getTransform().matrix(), tf(inve(P(p))).matrix(), 1e-9), "inverse of pose %d is wrong", p); c.check(i.hasUncertainty() == (k >= 0), "inverse changes the presence of uncertainty");
        M6 J = jac([&](V6 const& v) { return inve(v); }, P(p)), want = J * covOf(k) * J.transpose(); c.check(near(i.getCovariance(), want), "covariance of the inverse of pose %d (cov %d) is not the propagated one: error %g", p, k, (i.getCovariance() - want).norm());
        TU ii = i.inverse(); c.check(near(ii.getTransform().matrix(), t.getTransform().matrix(), 1e-9) && near(ii.getCovariance(), covOf(k)), "inverting twice does not restore the transform");
    }, "all poses and covariances");
    e.add("point", 1, 1, 1, false, [](Ctx& c) {
        static const double Q[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { -.5, 2, 3 }, { 10, -7, .1 } }; int p = c.choose(5), k = c.choose(5) - 1, q = c.choose(4), pc = c.choose(3); V3 x(Q[q][0], Q[q][1], Q[q][2]); Eigen::Matrix3d S = Eigen::Matrix3d::Zero(); if (pc == 2) { S << .1, .02, 0, .02, .2, -.03, 0, -.03, .05; }
        PointWithUncertainty pt = pc ? PointWithUncertainty(x, S) : PointWithUncertainty(x); TU t = make(p, k); PointWithUncertainty r = t * pt; c.step();
        c.check((r.getPoint() - (ex(P(p).head<3>()) * x + P(p).tail<3>())).norm() < 1e-9, "transformed point is wrong");
        Eigen::Matrix<double, 3, 6> J; for (int i = 0; i < 6; ++i) { double h = 1e-6; V6 a = P(p), b = P(p); a[i] += h; b[i] -= h; J.col(i) = ((ex(a.head<3>()) * x + a.tail<3>()) - (ex(b.head<3>()) * x + b.tail<3>())) / (2 * h); }
        Eigen::Matrix3d R = ex(P(p).head<3>()), want = J * covOf(k) * J.transpose() + R * S * R.transpose(); c.check(near(r.getCovariance(), want), "covariance of point %d under pose %d (cov %d) is not the propagated one: error %g", q, p, k, (r.getCovariance() - want).norm());
    }, "all points, poses and covariances");
    e.add("chains", 3, 4, 2, false, [](Ctx& c) {
        // relative transform with uncertainty: only the frames between the two contribute
        Environment env; int n = c.bound + 1; std::vector<FrameNode*> f(1, env.getRootNode()); std::vector<int> par(1, -1), ps(1, 0), cv(1, -1);
        for (int i = 1; i < n; ++i) { int p = c.choose(i, "parent"), k = 1 + c.choose(2, "pose") * 2, q = c.choose(3, "cov"); q = q == 0 ? -1 : q == 1 ? 1 : 3; FrameNode* x = q < 0 ? new FrameNode(tf(Q(k))) : new FrameNode(TU(tf(Q(k)), C(q) * .3)); env.addChild(f[p], x); f.push_back(x); par.push_back(p); ps.push_back(k); cv.push_back(q); }
        c.step();
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
            // path a -> common ancestor -> b, propagated numerically
            std::vector<int> up, dn; std::set<int> anc; for (int i = b; i >= 0; i = par[i]) anc.insert(i); int com = a; while (!anc.count(com)) { up.push_back(com); com = par[com]; } for (int i = b; i != com; i = par[i]) dn.push_back(i);
            V6 A = V6::Zero(), B = V6::Zero(); M6 CA = M6::Zero(), CB = M6::Zero(); bool ua = false, ub = false;
            auto add = [&](V6& X, M6& S, bool& u, int i) { V6 y = Q(ps[i]), x = X; M6 J1 = jac([&](V6 const& v) { return comp(y, v); }, x), J2 = jac([&](V6 const& v) { return comp(v, x); }, y), N = cv[i] < 0 ? M6(M6::Zero()) : M6(C(cv[i]) * .3); S = J1 * S * J1.transpose() + J2 * N * J2.transpose(); X = comp(y, x); u = u || cv[i] >= 0; };
            for (int i : up) add(A, CA, ua, i); for (int i : dn) add(B, CB, ub, i);
            V6 Bi = inve(B); M6 JI = jac([&](V6 const& v) { return inve(v); }, B), CBi = JI * CB * JI.transpose(), J1 = jac([&](V6 const& v) { return comp(Bi, v); }, A), J2 = jac([&](V6 const& v) { return comp(v, A); }, Bi), want = J1 * CA * J1.transpose() + J2 * CBi * J2.transpose();
            TU g = env.relativeTransformWithUncertainty(f[a], f[b]); c.check(near(g.getTransform().matrix(), tf(comp(Bi, A)).matrix(), 1e-8), "transform from %d to %d is wrong", a, b);
            c.check(g.hasUncertainty() == (ua || ub), "transform from %d to %d %s uncertainty", a, b, g.hasUncertainty() ? "has invented" : "lost its");
            c.check(near(g.getCovariance(), want, 5e-3), "uncertainty from %d to %d is not the propagated one of the frames between them: error %g of %g", a, b, (g.getCovariance() - want).norm(), want.norm());
        }
    }, "all trees with uncertain and certain frames, all pairs");
    e.add("rbs", 1, 1, 1, false, [](Ctx& c) {
        base::samples::RigidBodyState r; int p = c.choose(5); r.position = P(p).tail<3>(); r.orientation = Eigen::Quaterniond(ex(P(p).head<3>())); M6 S = C(c.choose(4)); r.cov_orientation = S.topLeftCorner<3, 3>(); r.cov_position = S.bottomRightCorner<3, 3>(); c.step();
        TU t(r), u = TU::Identity(); u = r; for (TU* q : { &t, &u }) { c.check(q->hasUncertainty() && near(q->getTransform().matrix(), tf(P(p)).matrix(), 1e-9), "the pose was not taken over"); M6 w = M6::Zero(); w.topLeftCorner<3, 3>() = r.cov_orientation; w.bottomRightCorner<3, 3>() = r.cov_position; c.check(near(q->getCovariance(), w, 1e-12), "the covariance was not taken over"); }
        base::samples::RigidBodyState s; t.copyToRigidBodyState(s); c.check((s.position - r.position).norm() < 1e-9 && std::fabs(std::fabs(s.orientation.dot(r.orientation)) - 1) < 1e-9 && near(s.cov_orientation, r.cov_orientation, 1e-12) && near(s.cov_position, r.cov_position, 1e-12), "copying back changes the pose");
        c.check(!TU::Identity().hasUncertainty() && TU::Identity().getTransform().matrix() == Eigen::Matrix4d::Identity(), "identity is wrong");
    }, "conversion from and to poses");
    return e.main(argc, argv);
}
