// T06: clustering reaches a fixed point that partitions the samples; mixture fitting steps are exact
// EM steps (moments preserved, likelihood non-decreasing).
#include <cassert>
#include <cmath>
#include <vector>
#include <stdexcept>
#include <envire/tools/ExpectationMaximization.hpp>
#include <mc.hpp>
using namespace mc;
typedef envire::GaussianMixture<double, 2> G; typedef G::Vector V; typedef envire::Gaussian<double, 2> Ga; typedef std::vector<Ga> Clusters;
typedef std::vector<V> Vs; typedef std::vector<double> Ws;
static V pt(double x, double y) { V v; v << x, y; return v; }
static bool near(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }

static void judgeClusters(Ctx& c, Clusters const& cl, Vs const& s, Ws const& w, size_t k) {
    c.check(!cl.empty() && cl.size() <= k, "%zu clusters for %zu classes", cl.size(), k);
    for (auto& g : cl) c.check(std::isfinite(g.mean[0]) && std::isfinite(g.mean[1]) && std::isfinite(g.cov.sum()), "a cluster is not finite: mean (%g,%g)", g.mean[0], g.mean[1]);
    // search an assignment "every sample to a nearest mean" that explains all clusters
    std::vector<std::vector<int> > opts(s.size());
    for (size_t i = 0; i < s.size(); ++i) {
        double best = 1e300; for (auto& g : cl) best = std::min(best, (s[i] - g.mean).squaredNorm());
        for (size_t j = 0; j < cl.size(); ++j) if ((s[i] - cl[j].mean).squaredNorm() <= best + 1e-9) opts[i].push_back(j);
    }
    std::vector<size_t> pick(s.size(), 0);
    while (true) {
        std::vector<Ga::Stats> st(cl.size()); std::vector<double> sum(cl.size(), 0), mx(cl.size(), 0), my(cl.size(), 0);
        for (size_t i = 0; i < s.size(); ++i) { int j = opts[i][pick[i]]; double ww = w.empty() ? 1 : w[i]; sum[j] += ww; mx[j] += ww * s[i][0]; my[j] += ww * s[i][1]; }
        bool ok = true;
        for (size_t j = 0; j < cl.size() && ok; ++j) {
            if (sum[j] <= 0) { ok = false; break; }
            double x = mx[j] / sum[j], y = my[j] / sum[j], a = 0, b = 0, d = 0;
            ok = near(cl[j].mean[0], x) && near(cl[j].mean[1], y);
            for (size_t i = 0; i < s.size(); ++i) if (opts[i][pick[i]] == (int)j) { double ww = w.empty() ? 1 : w[i]; a += ww * (s[i][0] - x) * (s[i][0] - x); b += ww * (s[i][0] - x) * (s[i][1] - y); d += ww * (s[i][1] - y) * (s[i][1] - y); }
            ok = ok && std::fabs(cl[j].cov(0, 0) - a / sum[j]) < 1e-8 && std::fabs(cl[j].cov(0, 1) - b / sum[j]) < 1e-8 && std::fabs(cl[j].cov(1, 0) - b / sum[j]) < 1e-8 && std::fabs(cl[j].cov(1, 1) - d / sum[j]) < 1e-8;
        }
        if (ok) return;
        size_t i = 0; while (i < s.size() && ++pick[i] == opts[i].size()) pick[i++] = 0;
        if (i == s.size()) break;
    }
    std::ostringstream o; for (auto& g : cl) o << " (" << g.mean.transpose() << ")"; o << " samples"; for (auto& p : s) o << " (" << p.transpose() << ")";
    c.fail("the clusters are not the statistics of the samples nearest to them: means" + o.str());
}
// the clustering that starts at samples spread evenly over the sequence and alternates assignment and
// means until nothing changes; nothing is said where a sample has two nearest centres
static void judgeLloyd(Ctx& c, Clusters const& cl, Vs const& s, Ws const& w, size_t k) {
    Vs m; std::vector<bool> alive(k, true); std::vector<size_t> idx(s.size(), 0); for (size_t j = 0; j < k; ++j) m.push_back(s[j * (s.size() / k)]);
    for (int it = 0; it < 100; ++it) {
        bool moved = false;
        for (size_t i = 0; i < s.size(); ++i) {
            double best = 1e300, second = 1e300; size_t b = 0;
            for (size_t j = 0; j < k; ++j) if (alive[j]) { double d = (s[i] - m[j]).squaredNorm(); if (d < best) { second = best; best = d; b = j; } else second = std::min(second, d); }
            if (second - best < 1e-9) return;
            moved = moved || b != idx[i]; idx[i] = b;
        }
        if (!moved) break;
        std::vector<double> sum(k, 0); m.assign(k, pt(0, 0));
        for (size_t i = 0; i < s.size(); ++i) { double ww = w.empty() ? 1 : w[i]; m[idx[i]] += ww * s[i]; sum[idx[i]] += ww; }
        for (size_t j = 0; j < k; ++j) { alive[j] = sum[j] > 0; if (alive[j]) m[j] /= sum[j]; }
    }
    std::vector<bool> used(k, false); size_t n = 0; for (size_t i = 0; i < s.size(); ++i) if (!used[idx[i]]) { used[idx[i]] = true; ++n; }
    c.check(cl.size() == n, "%zu clusters, the samples form %zu", cl.size(), n);
    if (n == 1) return; // judged already: the statistics of all samples
    for (size_t j = 0; j < k; ++j) if (used[j]) { bool found = false; for (auto& g : cl) found = found || (g.mean - m[j]).norm() < 1e-9; c.check(found, "no cluster at (%g,%g)", m[j][0], m[j][1]); }
}
static const double L[][2] = { { 0, 0 }, { 1, 0 }, { 0, 1.5 }, { 3, 0.2 }, { 3.1, 3 }, { -2, 1 } };
static void draw(Ctx& c, int n, int alpha, Vs& s, Ws& w, bool weighted) { for (int i = 0; i < n; ++i) { int k = c.choose(alpha, "sample"); s.push_back(pt(L[k][0], L[k][1])); if (weighted) w.push_back(c.flag("weight") ? 2.5 : 1.0); } }

int main(int argc, char** argv) {
    Engine e;
    e.add("kmeans", 5, 6, 3, false, [](Ctx& c) {
        int n = 1 + c.choose(c.bound, "samples"), k = 1 + c.choose(std::min(n, 3), "classes"); Vs s; Ws w; bool weighted = n <= 3 && c.flag("weighted"); draw(c, n, n <= 4 ? 6 : 5, s, w, weighted);
        envire::KMeans<G> km; km.initialize(k, s, w); c.step(); km.run(); { Clusters cl = km.getClusters(); judgeClusters(c, cl, s, w, k); judgeLloyd(c, cl, s, w, k); }
        c.outcome(mix(n, k));
    }, "every sample sequence over a lattice (with duplicates), every class count, optional weights: termination and fixed point");
    e.add("kmeans_reuse", 3, 4, 3, false, [](Ctx& c) {
        envire::KMeans<G> km;
        for (int r = 0; r < 2; ++r) { int n = 1 + c.choose(c.bound, "samples"), k = 1 + c.choose(std::min(n, 3), "classes"); Vs s; Ws w; bool wt = n == 2 && c.flag(); draw(c, n, r ? 5 : 4, s, w, wt); km.initialize(k, s, w); km.run(); c.step(); { Clusters cl = km.getClusters(); judgeClusters(c, cl, s, w, k); judgeLloyd(c, cl, s, w, k); } }
    }, "re-initialising a used clusterer behaves like a fresh one");
    // EM: every starting mixture from a small alphabet on fixed sample sets
    auto ll = [](G const& g, Vs const& s, Ws const& w) { double r = 0; for (size_t i = 0; i < s.size(); ++i) r += (w.empty() ? 1 : w[i]) * std::log(g.eval(s[i])); return r; };
    auto data = [](Ctx& c, Vs& s, Ws& w) {
        int d = c.choose(4, "data set");
        static const double D[4][8][2] = { { { 0, 0 }, { 1, .2 }, { .3, 1 }, { 1.1, 1.2 }, { 4, 4 }, { 5, 4.1 }, { 4.2, 5 }, { 5.1, 5.2 } }, { { 0, 0 }, { 1, 1.1 }, { 2, 1.9 }, { 3, 3.2 }, { 4, 3.9 }, { 5, 5.1 }, { 6, 5.8 }, { 7, 7 } },
            { { -1, 0 }, { 1, 0 }, { 0, 1 }, { 0, -1 }, { 3, 0 }, { -3, .1 }, { .1, 3 }, { 0, -3 } }, { { 0, 0 }, { 0.1, 2 }, { 5, 0 }, { 5, 2.2 }, { 2.5, 1 }, { 2.4, 1.2 }, { 0, 1 }, { 5.2, 1 } } };
        int n = 6 + 2 * c.choose(2, "samples"); for (int i = 0; i < n; ++i) s.push_back(pt(D[d][i][0], D[d][i][1]));
        int wk = c.choose(3, "weights"); if (wk) for (int i = 0; i < n; ++i) w.push_back(wk == 1 ? 1.0 + (i % 3) * 0.5 : (i % 2 ? 0.2 : 3.0));
    };
    auto mixture = [](Ctx& c, G& g) {
        int k = 1 + c.choose(3, "components"); static const double M[][2] = { { 0, 0 }, { 4, 4 }, { 2, 1 }, { -1, 3 } }; static const double C[][3] = { { 1, 0, 1 }, { 4, 1, 2 }, { 9, -2, 5 } };
        for (int j = 0; j < k; ++j) { int m = c.choose(4, "mean"), cv = j < 2 ? c.choose(3, "cov") : 1; double wt = c.flag("weight") ? 3.0 : 1.0; G::Matrix S; S << C[cv][0], C[cv][1], C[cv][1], C[cv][2]; g.params.push_back(G::Parameter(wt, pt(M[m][0] + 0.3 * j, M[m][1]), S)); }
        g.normalize();
    };
    e.add("em_step", 3, 8, 4, false, [=](Ctx& c) {
        envire::ExpectationMaximization<G> em; Vs s; Ws w; data(c, s, w); mixture(c, em.gmm); em.samples = s; em.weights = w; size_t n = s.size();
        double sw = 0, mx = 0, my = 0, xx = 0, xy = 0, yy = 0; for (size_t i = 0; i < n; ++i) { double q = w.empty() ? 1 : w[i]; sw += q; mx += q * s[i][0]; my += q * s[i][1]; xx += q * s[i][0] * s[i][0]; xy += q * s[i][0] * s[i][1]; yy += q * s[i][1] * s[i][1]; }
        double prev = ll(em.gmm, s, w);
        for (int it = 0; it < c.bound; ++it) {
            bool degenerate = false; for (auto& p : em.gmm.params) degenerate = degenerate || p.dist.cov.determinant() < 1e-3 || p.weight < 1e-2;
            if (degenerate) break;
            // reference step
            G before = em.gmm; size_t k = before.params.size(); std::vector<std::vector<double> > gm(n, std::vector<double>(k)); double L0 = 0; bool tiny = false;
            for (size_t i = 0; i < n; ++i) { double sum = 0; for (size_t j = 0; j < k; ++j) { gm[i][j] = before.params[j].weight * before.params[j].dist.eval(s[i]); sum += gm[i][j]; } L0 += std::log(sum); for (size_t j = 0; j < k; ++j) gm[i][j] *= (w.empty() ? 1 : w[i]) / sum; }
            for (size_t j = 0; j < k; ++j) { double nj = 0; for (size_t i = 0; i < n; ++i) nj += gm[i][j]; if (nj < 1e-2) tiny = true; }
            if (tiny) break;
            double r = em.step(); c.step();
            c.check(near(r, L0 / n, 1e-7), "step reports log likelihood %.9g, expected %.9g", r, L0 / n);
            c.check(em.gmm.params.size() == k, "a component vanished: %zu of %zu left", em.gmm.params.size(), k);
            double W = 0, a = 0, b = 0, A = 0, B = 0, D = 0;
            for (size_t j = 0; j < k; ++j) {
                double nj = 0, x = 0, y = 0; for (size_t i = 0; i < n; ++i) { nj += gm[i][j]; x += gm[i][j] * s[i][0]; y += gm[i][j] * s[i][1]; } x /= nj; y /= nj;
                auto& p = em.gmm.params[j];
                c.check(near(p.weight, nj / sw, 1e-7) && near(p.dist.mean[0], x, 1e-7) && near(p.dist.mean[1], y, 1e-7), "component %zu after step %d: weight %.8g mean (%.8g,%.8g), expected %.8g (%.8g,%.8g)", j, it, p.weight, p.dist.mean[0], p.dist.mean[1], nj / sw, x, y);
                W += p.weight; a += p.weight * p.dist.mean[0]; b += p.weight * p.dist.mean[1];
                A += p.weight * (p.dist.cov(0, 0) + x * x); B += p.weight * (p.dist.cov(0, 1) + x * y); D += p.weight * (p.dist.cov(1, 1) + y * y);
                double c00 = 0, c01 = 0, c11 = 0; for (size_t i = 0; i < n; ++i) { c00 += gm[i][j] * (s[i][0] - x) * (s[i][0] - x); c01 += gm[i][j] * (s[i][0] - x) * (s[i][1] - y); c11 += gm[i][j] * (s[i][1] - y) * (s[i][1] - y); }
                c.check(near(p.dist.cov(0, 0), c00 / nj, 1e-6) && near(p.dist.cov(0, 1), c01 / nj, 1e-6) && near(p.dist.cov(1, 0), c01 / nj, 1e-6) && near(p.dist.cov(1, 1), c11 / nj, 1e-6), "covariance of component %zu after step %d is wrong", j, it);
            }
            c.check(near(W, 1, 1e-7), "weights sum to %g after a step", W);
            c.check(near(a, mx / sw, 1e-6) && near(b, my / sw, 1e-6), "the mixture mean (%g,%g) differs from the sample mean (%g,%g)", a, b, mx / sw, my / sw);
            c.check(near(A, xx / sw, 1e-6) && near(B, xy / sw, 1e-6) && near(D, yy / sw, 1e-6), "second moments of the mixture differ from those of the samples");
            degenerate = false; for (auto& p : em.gmm.params) degenerate = degenerate || p.dist.cov.determinant() < 1e-3 || p.weight < 1e-2;
            if (degenerate) break;
            double now = ll(em.gmm, s, w); c.check(now >= prev - 1e-7 * (1 + std::fabs(prev)), "the likelihood decreased from %.10g to %.10g in step %d", prev, now, it); prev = now;
            uint64_t h = hashBytes(&now, 8); c.outcome(h);
        }
    }, "every start mixture of up to 3 components over an alphabet, weighted and unweighted sample sets: each of the first steps equals the reference step, preserves the moments and does not lower the likelihood");
    e.add("em_support", 5, 6, 3, false, [=](Ctx& c) {
        // components of which each is either supported by the samples or infinitely far away from all of them
        envire::ExpectationMaximization<G> em, ref; int k = 1 + c.choose(c.bound, "components"); Vs s; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s.push_back(pt(i * .5, j * .5)); Ws w; if (c.flag("weighted")) for (int i = 0; i < 9; ++i) w.push_back(1 + i % 3);
        em.samples = ref.samples = s; em.weights = ref.weights = w;
        for (int j = 0; j < k; ++j) { int m = c.choose(3, "place"); G::Parameter p(1.0 / k, m == 0 ? pt(.2, .3 + .01 * j) : m == 1 ? pt(.9 + .02 * j, 1) : pt(200 + 10 * j, -100), G::Matrix::Identity()); em.gmm.params.push_back(p); if (m < 2) ref.gmm.params.push_back(p); }
        if (ref.gmm.params.empty()) return;
        for (int it = 0; it < 2; ++it) {
            em.step(); ref.step(); c.step();
            c.check(em.gmm.params.size() == ref.gmm.params.size(), "%zu components left, %zu are supported by samples", em.gmm.params.size(), ref.gmm.params.size());
            double W = 0;
            for (size_t j = 0; j < em.gmm.params.size(); ++j) { auto &a = em.gmm.params[j], &b = ref.gmm.params[j]; W += a.weight; c.check(near(a.weight, b.weight) && (a.dist.mean - b.dist.mean).norm() < 1e-9 && (a.dist.cov - b.dist.cov).norm() < 1e-9, "component %zu is (%g,%g) weight %g, expected (%g,%g) weight %g", j, a.dist.mean[0], a.dist.mean[1], a.weight, b.dist.mean[0], b.dist.mean[1], b.weight); }
            c.check(near(W, 1), "weights sum to %g", W);
        }
        c.outcome(k);
    }, "every sequence of supported and unsupported components: exactly the unsupported ones are dropped");
    e.add("em_run", 1, 2, 3, false, [=](Ctx& c) {
        envire::ExpectationMaximization<G> a, b; Vs s; Ws w; data(c, s, w); mixture(c, a.gmm); a.samples = b.samples = s; a.weights = b.weights = w; b.gmm = a.gmm;
        static const double DL[] = { 1e-1, 1e-2, 1e-3 }; double delta = DL[c.choose(3, "delta")]; size_t maxIter = c.choose(5, "max iterations") * (c.thorough ? 4 : 2);
        for (auto& p : a.gmm.params) if (p.dist.cov.determinant() < 1e-3) return;
        a.run(delta, maxIter); c.step();
        double last = 0; size_t it = 0; bool bad = false;
        while (it < maxIter) { double l = b.step(); ++it; if (!(std::isfinite(l))) { bad = true; break; } double df = std::fabs(l - last); last = l; if (std::fabs(df - delta) < 1e-9) { bad = true; break; } if (df <= delta) break; }
        if (bad) return;
        c.check(a.gmm.params.size() == b.gmm.params.size(), "run leaves %zu components, stepping %zu", a.gmm.params.size(), b.gmm.params.size());
        for (size_t j = 0; j < a.gmm.params.size(); ++j) if (b.gmm.params[j].dist.cov.determinant() > 1e-6) c.check(near(a.gmm.params[j].weight, b.gmm.params[j].weight, 1e-6) && near(a.gmm.params[j].dist.mean[0], b.gmm.params[j].dist.mean[0], 1e-6) && near(a.gmm.params[j].dist.cov(0, 0), b.gmm.params[j].dist.cov(0, 0), 1e-6), "run(%g,%zu) ends elsewhere than %zu steps", delta, maxIter, it);
    }, "run() performs exactly the steps until the likelihood change is within delta or the iteration limit");
    e.add("em_init", 5, 6, 3, false, [=](Ctx& c) {
        envire::ExpectationMaximization<G> em; int n = 1 + c.choose(c.bound, "samples"), k = 1 + c.choose(std::min(n, 3), "classes"); Vs s; Ws w; bool weighted = n <= 3 && c.flag("weighted"); draw(c, n, n <= 4 ? 5 : 4, s, w, weighted);
        if (c.flag("reuse")) em.initialize(1, Vs(3, pt(7, 7)), Ws(3, 1.0));
        em.initialize(k, s, w); c.step(); Clusters cl; double W = 0; for (auto& p : em.gmm.params) { cl.push_back(p.dist); W += p.weight; }
        judgeClusters(c, cl, s, w, k); judgeLloyd(c, cl, s, w, k); c.check(near(W, 1), "initial weights sum to %g", W); c.check(em.samples.size() == s.size() && em.weights.size() == w.size(), "the samples were not taken over");
    }, "initialisation from every small sample set yields a normalised mixture of the clusters");
    return e.main(argc, argv);
}
