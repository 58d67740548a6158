// T05: Gaussian and mixture densities, statistics, normalisation, sampling.
#include <cassert>
#include <cmath>
#include <vector>
#include <stdexcept>
#include <envire/tools/ExpectationMaximization.hpp>
#include <mc.hpp>
using namespace mc;
typedef envire::GaussianMixture<double, 1> G1; typedef envire::GaussianMixture<double, 2> G2; typedef envire::GaussianMixture<double, 3> G3;
// independent density: explicit 1x1 / 2x2 / 3x3 formulas
static double dens1(double m, double v, double x) { return std::exp(-(x - m) * (x - m) / (2 * v)) / std::sqrt(2 * M_PI * v); }
static double dens2(double mx, double my, double a, double b, double d, double x, double y) {
    double det = a * d - b * b, u = x - mx, w = y - my;
    double q = (d * u * u - 2 * b * u * w + a * w * w) / det;
    return std::exp(-q / 2) / (2 * M_PI * std::sqrt(det));
}
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 + 1e-7 * std::fabs(b); }
struct C2 { double a, b, d; };
static const C2 COV[] = { { 1, 0, 1 }, { 0.25, 0.1, 0.5 }, { 4, -1, 0.5 }, { 0.01, 0, 9 }, { 2, 1.2, 1 } };
static const double W[] = { 0, 0.2, 0.5, 1.0, 3.0, 1e-7 };
int main(int argc, char** argv) {
    Engine e;
    e.add("density1", 12, 40, 2, false, [](Ctx& c) {
        static const double V[] = { 0.01, 0.25, 1, 4, 16 };
        double m = c.choose(5) - 2, v = V[c.choose(5)];
        envire::Gaussian<double, 1> g; g.mean << m; g.cov << v;
        double integral = 0, h = std::sqrt(v) / 20;
        for (int i = -c.bound; i <= c.bound; ++i) {
            double x = m + i * std::sqrt(v) * 0.3; G1::Vector p; p << x; c.step();
            c.check(close(g.eval(p), dens1(m, v, x)), "1D density N(%g,%g) at %g is %.10g, expected %.10g", m, v, x, g.eval(p), dens1(m, v, x));
        }
        for (int i = -160; i <= 160; ++i) { G1::Vector p; p << m + i * h; integral += g.eval(p) * h; }
        c.check(std::fabs(integral - 1) < 1e-6, "the density N(%g,%g) integrates to %g", m, v, integral);
    }, "1D density against the closed form on a lattice, and its integral");
    e.add("density2", 4, 9, 2, false, [](Ctx& c) {
        C2 k = COV[c.choose(5)]; double mx = c.choose(3) - 1, my = c.choose(3) * 2 - 1; int N = c.bound;
        G2::Vector m; m << mx, my; G2::Matrix S; S << k.a, k.b, k.b, k.d; envire::Gaussian<double, 2> g(m, S);
        for (int i = -N; i <= N; ++i) for (int j = -N; j <= N; ++j) {
            G2::Vector p; p << mx + 0.6 * i, my + 0.45 * j; c.step(); double v = g.eval(p), w = dens2(mx, my, k.a, k.b, k.d, p[0], p[1]);
            c.check(close(v, w), "2D density at (%g,%g) is %.10g, expected %.10g", p[0], p[1], v, w);
        }
    }, "2D density against the closed form");
    e.add("density3", 1, 2, 2, false, [](Ctx& c) {
        // product of independent axes rotated into place by permuting correlated pairs
        C2 k = COV[c.choose(5)]; double v3 = c.flag() ? 0.3 : 2.0; int odd = c.choose(3, "independent axis"); int N = c.bound;
        int A = (odd + 1) % 3, B = (odd + 2) % 3;
        G3::Vector m; m << 0.5, -1, 2; G3::Matrix S = G3::Matrix::Zero(); S(odd, odd) = v3; S(A, A) = k.a; S(A, B) = S(B, A) = k.b; S(B, B) = k.d;
        envire::Gaussian<double, 3> g(m, S);
        for (int x = -N; x <= N; ++x) for (int y = -N; y <= N; ++y) for (int z = -N; z <= N; ++z) {
            G3::Vector p; p << 0.5 + x * 0.7, -1 + y * 0.4, 2 + z * 0.9; c.step();
            double w = dens1(m[odd], v3, p[odd]) * dens2(m[A], m[B], k.a, k.b, k.d, p[A], p[B]), v = g.eval(p);
            c.check(close(v, w), "3D density at (%g,%g,%g) is %.10g, expected %.10g", p[0], p[1], p[2], v, w);
        }
    }, "3D density against products of lower dimensional ones");
    e.add("mixture", 3, 4, 3, false, [](Ctx& c) {
        G2 g; int n = c.choose(c.bound + 1, "components"); std::vector<double> w; std::vector<int> kk;
        for (int i = 0; i < n; ++i) {
            int wi = c.choose(6, "weight"), k = i ? (i * 2 + wi) % 5 : c.choose(3); w.push_back(W[wi]); kk.push_back(k);
            G2::Vector m; m << i - 1.0, 0.5 * i; G2::Matrix S; S << COV[k].a, COV[k].b, COV[k].b, COV[k].d;
            g.params.push_back(c.flag("ctor") ? G2::Parameter(w[i], m, S) : G2::Parameter(w[i], envire::Gaussian<double, 2>(m, S)));
        }
        auto ref = [&](double x, double y) { double s = 0; for (int i = 0; i < n; ++i) s += w[i] * dens2(i - 1.0, 0.5 * i, COV[kk[i]].a, COV[kk[i]].b, COV[kk[i]].d, x, y); return s; };
        for (int i = -2; i <= 2; ++i) { G2::Vector p; p << i * 0.8, 0.3 - i; c.step();
            c.check(close(g.eval(p), ref(p[0], p[1])), "mixture density at (%g,%g) is %.10g, expected %.10g", p[0], p[1], g.eval(p), ref(p[0], p[1])); }
        double sum = 0; for (double x : w) sum += x;
        g.normalize();
        double s2 = 0;
        for (int i = 0; i < n; ++i) {
            s2 += g.params[i].weight; c.check(g.params[i].weight >= 0, "negative weight after normalisation");
            double want = sum > 1e-5 ? w[i] / sum : 1.0 / n;
            if (sum > 2e-5 || sum < 5e-6) c.check(close(g.params[i].weight, want), "normalised weight %d is %g, expected %g", i, g.params[i].weight, want);
            c.check(g.params[i].dist.mean[0] == i - 1.0, "normalisation changed a component");
        }
        c.check(n == 0 || std::fabs(s2 - 1) < 1e-9, "weights sum to %g after normalisation", s2);
        if (n) for (int i = -1; i <= 1; ++i) { G2::Vector p; p << i, 0.1; double r = 0; for (int k = 0; k < n; ++k) r += g.params[k].weight * dens2(k - 1.0, 0.5 * k, COV[kk[k]].a, COV[kk[k]].b, COV[kk[k]].d, p[0], p[1]);
            c.check(close(g.eval(p), r), "normalised mixture density is %g, expected %g", g.eval(p), r); }
        c.outcome(mix(n, hashBytes(w.data(), w.size() * 8)));
    }, "all mixtures of up to 3 (4) components over a weight/covariance alphabet: density, normalisation, density after normalisation");
    e.add("stats", 4, 5, 3, false, [](Ctx& c) {
        int n = 1 + c.choose(c.bound, "samples"); envire::Gaussian<double, 2>::Stats st; double sw = 0, mx = 0, my = 0; std::vector<std::array<double, 3> > v;
        for (int i = 0; i < n; ++i) {
            double x = c.choose(3) - 1, y = c.choose(2) * 1.5, w = c.flag("weighted") ? 2.5 : 1.0; G2::Vector p; p << x, y; if (w == 1.0) st.insert(p); else st.insert(p, w); c.step();
            v.push_back({ x, y, w }); sw += w; mx += w * x; my += w * y;
        }
        mx /= sw; my /= sw; double a = 0, b = 0, d = 0;
        for (auto& s : v) { a += s[2] * (s[0] - mx) * (s[0] - mx); b += s[2] * (s[0] - mx) * (s[1] - my); d += s[2] * (s[1] - my) * (s[1] - my); }
        a /= sw; b /= sw; d /= sw;
        for (int rep = 0; rep < 2; ++rep) {
            auto g = st.update();
            c.check(close(g.mean[0], mx) && close(g.mean[1], my), "sample mean (%g,%g), expected (%g,%g)", g.mean[0], g.mean[1], mx, my);
            c.check(std::fabs(g.cov(0, 0) - a) < 1e-9 && std::fabs(g.cov(0, 1) - b) < 1e-9 && std::fabs(g.cov(1, 0) - b) < 1e-9 && std::fabs(g.cov(1, 1) - d) < 1e-9, "sample covariance (%g,%g,%g), expected (%g,%g,%g)", g.cov(0, 0), g.cov(0, 1), g.cov(1, 1), a, b, d);
        }
    }, "all weighted sample sequences: mean and covariance against the definition");
    e.add("sampling", 300, 3000, 2, false, [](Ctx& c) {
        static const double WS[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0.5, 0.5, 0 }, { 0.2, 0.3, 0.5 }, { 0.7, 0.1, 0.2 }, { 0.1, 0, 0.9 } };
        int k = c.choose(7, "weights"); G2 g; int ck = c.choose(5, "covariance");
        for (int i = 0; i < 3; ++i) { G2::Vector m; m << 100.0 * i, -50.0 * i; G2::Matrix S; S << COV[ck].a, COV[ck].b, COV[ck].b, COV[ck].d; g.params.push_back(G2::Parameter(WS[k][i], m, S)); }
        envire::GaussianMixtureSampling<G2> s(g, 1 + c.choose(2, "seed"));
        int cnt[3] = { 0, 0, 0 }; envire::Gaussian<double, 2>::Stats st; int N = c.bound * 10;
        for (int i = 0; i < N; ++i) {
            G2::Vector p = s.sample(); c.step(); int j = (int)std::lround(p[0] / 100); c.check(j >= 0 && j < 3, "sample (%g,%g) is near no component", p[0], p[1]);
            G2::Vector d = p - g.params[j].dist.mean;
            c.check(std::fabs(d[0]) < 7 * std::sqrt(COV[ck].a) && std::fabs(d[1]) < 7 * std::sqrt(COV[ck].d), "sample (%g,%g) is implausible for its component", p[0], p[1]);
            c.check(WS[k][j] > 0, "a sample was drawn from a component of weight zero"); ++cnt[j]; st.insert(d);
        }
        for (int j = 0; j < 3; ++j) { double sd = std::sqrt(N * WS[k][j] * (1 - WS[k][j])) + 1; c.check(std::fabs(cnt[j] - N * WS[k][j]) < 6 * sd, "component of weight %g was drawn %d of %d times", WS[k][j], cnt[j], N); }
        auto fit = st.update(); double ga = std::sqrt(COV[ck].a * COV[ck].d);
        c.check(std::fabs(fit.cov(0, 0) / COV[ck].a - 1) < 0.2 && std::fabs(fit.cov(1, 1) / COV[ck].d - 1) < 0.2 && std::fabs(fit.cov(0, 1) - COV[ck].b) < 0.15 * ga, "covariance of the samples is (%g,%g,%g), expected (%g,%g,%g)", fit.cov(0, 0), fit.cov(0, 1), fit.cov(1, 1), COV[ck].a, COV[ck].b, COV[ck].d);
        c.check(std::fabs(fit.mean[0]) < 0.12 * std::sqrt(COV[ck].a) && std::fabs(fit.mean[1]) < 0.12 * std::sqrt(COV[ck].d), "mean of the samples is off by (%g,%g)", fit.mean[0], fit.mean[1]);
        G2 z; for (int i = 0; i < 2; ++i) z.params.push_back(G2::Parameter(0.0, g.params[i].dist)); envire::GaussianMixtureSampling<G2> zs(z); bool threw = false; try { zs.sample(); } catch (std::runtime_error&) { threw = true; }
        c.check(threw, "sampling a mixture without weight does not fail");
    }, "sampling of every weight/covariance pattern from fixed generator seeds: support, component frequencies, first two moments");
    return e.main(argc, argv);
}
