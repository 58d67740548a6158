// M05: measurements of a cell are merged by their height according to the update model.
#include <envire/maps/MLSGrid.hpp>
#include "mc.hpp"
using namespace envire; using namespace mc;
typedef SurfacePatch P;
// independent reference of the default model
struct R { double mean, dev, h; bool hor; double n; bool exact; uint64_t idx; };
static bool within(double a, double lo, double hi) { return a > lo && a < hi; }
static void fuse(double& m, double& d, double m2, double d2) { double a = d * d, b = d2 * d2; m = (m * b + m2 * a) / (a + b); d = std::sqrt(a * b / (a + b)); }
static bool tie;                                  // a comparison of the model is too close to be decided with floats
static void close(double a, double b) { if (std::fabs(a - b) < 1e-4) tie = true; }
static bool merge(R& p, R const& o, double thick, double gap) {
    double dd = std::sqrt(p.dev * p.dev + o.dev * o.dev); close(p.mean - p.h - gap - dd, o.mean); close(p.mean + gap + dd, o.mean - o.h); if (p.hor && o.hor) close(std::fabs(p.mean - o.mean), thick + dd); if (!(p.mean - p.h - gap - dd < o.mean && p.mean + gap + dd > o.mean - o.h)) return false;
    p.n += o.n; p.idx = std::max(p.idx, o.idx); if (p.hor && o.hor && std::fabs(p.mean - o.mean) < thick + dd) { fuse(p.mean, p.dev, o.mean, o.dev); return true; }
    close(o.mean, p.mean);
    double lo = std::min(p.mean - p.h, o.mean - o.h); if (o.mean > p.mean) { p.mean = o.mean; p.dev = o.dev; } p.h = p.mean - lo; p.hor = false; return true;
}
static void update(std::vector<R>& cell, R o, double thick, double gap) {
    std::vector<int> m; for (size_t i = 0; i < cell.size(); ++i) if (merge(cell[i], o, thick, gap)) m.push_back(i);
    if (m.empty()) { cell.insert(cell.begin(), o); return; }
    std::set<int> gone; bool multi = m.size() > 1; while (!m.empty()) { for (size_t k = 1; k < m.size();) if (merge(cell[m[0]], cell[m[k]], thick, gap)) { gone.insert(m[k]); m.erase(m.begin() + k); } else ++k; if (multi) cell[m[0]].exact = false; m.erase(m.begin()); }
    for (auto i = gone.rbegin(); i != gone.rend(); ++i) cell.erase(cell.begin() + *i);
}
static bool near(double a, double b, double t = 2e-4) { return std::fabs(a - b) <= t * std::max(1., std::fabs(b)); }
static std::vector<P> read(MLSGrid& g, int x, int y) { std::vector<P> v; for (MLSGrid::iterator i = g.beginCell(x, y); i != g.endCell(); ++i) v.push_back(*i); return v; }
static void others(Ctx& c, MLSGrid& g, int x, int y) { for (int i = 0; i < (int)g.getCellSizeX(); ++i) for (int j = 0; j < (int)g.getCellSizeY(); ++j) if (i != x || j != y) c.check(g.beginCell(i, j) == g.endCell(), "cell (%d,%d) changed although only (%d,%d) was updated", i, j, x, y); }
struct Letter { float z, dev, h; bool hor; };
static Letter letter(Ctx& c) {
    static const Letter L[] = { { 0, .1f, 0, true }, { .03f, .1f, 0, true }, { .23f, .05f, 0, true }, { .87f, .1f, 0, true }, { 1.71f, .2f, 0, true }, { 3.13f, .1f, 0, true }, { 6.37f, .1f, 0, true }, { .51f, .1f, .4f, false }, { 2.57f, .1f, 1.9f, false }, { 5.93f, .1f, 9.1f, false }, { -1.29f, .3f, 0, true }, { 4.41f, .15f, .2f, false } };
    return L[c.choose(12, "measurement")];
}
static void put(Ctx& c, MLSGrid& g, P const& p, int how) {
    if (how == 0) g.updateCell(1, 0, p); else if (how == 1) g.updateCell(GridBase::Position(1, 0), p); else c.check(g.update(Eigen::Vector2d(g.getOffsetX() + 1.4 * g.getScaleX(), g.getOffsetY() + .7 * g.getScaleY()), p), "an update inside of the grid was refused");
}
static void kalman(Ctx& c) {
    MLSGrid::Ptr g = new MLSGrid(2, 2, .5, .25, -3, 1); int k = c.choose(2, "configuration"); double gap = k ? .3f : 1.f, thick = k ? .12f : .05f; g->getConfig().gapSize = gap; g->getConfig().thickness = thick; if (k) g->initIndex(); std::vector<R> m;
    for (int s = 0; s < c.bound; ++s) {
        Letter l = letter(c); c.step(); P p(l.z, l.dev, l.h, l.hor ? P::HORIZONTAL : P::VERTICAL); bool plain = l.hor && s % 4 == 3; p.update_idx = plain ? 0 : 5 + s * 7 % 5; p.setColor(base::Vector3d(0, 0, 0)); int how = s % 3; if (plain) g->updateCell(1, 0, l.z, l.dev); else put(c, *g, p, how); R r = { l.z, l.dev, l.hor ? 0 : l.h, l.hor, 1, true, p.update_idx }; tie = false; update(m, r, thick, gap); if (tie) return;
        std::vector<P> v = read(*g, 1, 0); c.check(v.size() == m.size(), "there are %zu patches instead of %zu", v.size(), m.size()); c.check(g->getCellCount() == m.size(), "%zu patches are reported instead of %zu", g->getCellCount(), m.size());
        for (size_t i = 0; i < v.size(); ++i) { c.check(v[i].isHorizontal() == m[i].hor && v[i].isVertical() == !m[i].hor, "patch %zu has the wrong type", i); c.check(near(v[i].mean, m[i].mean) && near(v[i].stdev, m[i].dev) && near(v[i].height, m[i].h), "patch %zu is %g+-%g height %g instead of %g+-%g height %g", i, v[i].mean, v[i].stdev, v[i].height, m[i].mean, m[i].dev, m[i].h); if (m[i].exact) c.check(v[i].getMeasurementCount() == m[i].n, "patch %zu represents %g instead of %g measurements", i, v[i].getMeasurementCount(), m[i].n);
            c.check(v[i].update_idx == m[i].idx, "patch %zu has the age %zu instead of %zu", i, (size_t)v[i].update_idx, (size_t)m[i].idx); c.check(near(v[i].getMaxZ(), m[i].mean + 2 * m[i].dev) && near(v[i].getMinZ(), m[i].mean - m[i].h - 2 * m[i].dev), "default extents of patch %zu are wrong", i); c.check(near(v[i].getMaxZ(2), m[i].mean + 2 * m[i].dev) && near(v[i].getMinZ(1), m[i].mean - m[i].h - m[i].dev), "extents of patch %zu are wrong", i); }
        others(c, *g, 1, 0); if (k) c.check(g->getIndex()->cells.size() == 1 && g->getIndex()->cells.count(GridBase::Position(1, 0)), "the index is wrong"); GridBase::CellExtents x = g->getCellExtents(); c.check(x.min() == Eigen::Vector2i(1, 0) && x.max() == Eigen::Vector2i(1, 0), "the extents are wrong");
    }
    // look up any height
    for (double z = -2.05; z < 8; z += .31) for (int w = 0; w < 2; ++w) {
        double dev = w ? .2 : .05, sig = w ? 3 : 1; std::vector<P> v = read(*g, 1, 0); bool any = false, tie = false; std::set<int> ok; for (size_t i = 0; i < m.size(); ++i) { double d = m[i].hor ? std::fabs(z - m[i].mean) : z > m[i].mean ? z - m[i].mean : std::max(0., m[i].mean - m[i].h - z), lim = sig * std::sqrt(dev * dev + m[i].dev * m[i].dev); if (d < lim) { ok.insert(i); any = true; } if (std::fabs(d - lim) < 1e-4) tie = true; }
        if (tie) continue; P* r = g->get(GridBase::Position(1, 0), z, dev, sig); int at = -1, n = 0; for (MLSGrid::iterator i = g->beginCell(1, 0); i != g->endCell(); ++i, ++n) if (&*i == r) at = n; c.check((r != 0) == any, "a patch at height %g was %s", z, r ? "made up" : "not found"); if (r) c.check(ok.count(at), "the patch found at height %g is not near it", z);
        { bool wall = false; for (size_t i = 0; i < m.size(); ++i) wall = wall || (!m[i].hor && m[i].mean - m[i].h < z + .1 && z - 2.3 < m[i].mean); P q(z + .1, dev, 2.4, P::VERTICAL); if (wall) c.check(g->get(GridBase::Position(1, 0), q, sig) != 0, "a vertical patch that overlaps one at height %g was not found", z); }
        if (w) { double a = z, b = dev; P* q = g->get(Eigen::Vector2d(g->getOffsetX() + 1.2 * .5, g->getOffsetY() + .1), a, b); c.check((q != 0) == any, "metric look-up at height %g differs", z); if (q) c.check(near(a, q->mean) && near(b, q->stdev), "metric look-up returns another height"); double e = z, f = dev; c.check(g->get(Eigen::Vector2d(g->getOffsetX() - .1, g->getOffsetY() + .1), e, f) == 0 && e == z && f == dev, "look-up outside of the grid returned something"); double h, d2 = dev; P* t = g->get(Eigen::Vector3d(g->getOffsetX() + .7, g->getOffsetY() + .1, z), h, d2); c.check(t == q, "look-up by 3d position differs"); }
    }
    c.outcome(hashBytes(m.data(), 0, m.size() * 7 + (uint64_t)(m[0].mean * 1000)));
}
static void outside(Ctx& c) {
    MLSGrid::Ptr g = new MLSGrid(2, 2, .5, .25, -3, 1); g->getConfig().updateModel = MLSConfiguration::update_model(c.choose(3, "model")); static const double F[] = { -7, -.01, .01, .99, 1.01, 1.99, 2.01, 40 }; double u = F[c.choose(8, "x")], v = F[c.choose(8, "y")]; c.step(); bool in = u > 0 && u < 2 && v > 0 && v < 2; P p(1, .1); p.setColor(base::Vector3d(0, 0, 0));
    c.check(g->update(Eigen::Vector2d(-3 + u * .5, 1 + v * .25), p) == in, "an update at (%g,%g) was %s", u, v, in ? "refused" : "accepted"); c.check(g->getCellCount() == (in ? 1 : 0), "%zu patches", g->getCellCount()); if (in) { c.check(g->beginCell((int)u, (int)v) != g->endCell(), "the patch is in another cell"); others(c, *g, (int)u, (int)v); }
}
// newer knowledge displaces older
static void conflict(Ctx& c) {
    MLSGrid::Ptr g = new MLSGrid(2, 2, .5, .25); static const float T[] = { 2, 1.5f, 2.6f, .5f, 5, -.2f }, H[] = { 1, .3f, 4, 0 }; bool neg = c.flag("negative first"); float t0 = T[c.choose(6, "top")], h0 = H[c.choose(3, "height")], t1 = T[c.choose(6, "top")], h1 = H[c.choose(4, "height")]; size_t i0 = 1 + c.choose(3, "age"), i1 = 2; c.step(); bool hor1 = h1 == 0;
    P a(t0, .01f, h0, neg ? P::NEGATIVE : P::VERTICAL), b(t1, .01f, h1, neg ? hor1 ? P::HORIZONTAL : P::VERTICAL : P::NEGATIVE); if (!neg && hor1) return; a.update_idx = i0; b.update_idx = i1; a.setColor(base::Vector3d(0, 0, 0)); b.setColor(base::Vector3d(0, 0, 0)); g->updateCell(1, 0, a); g->updateCell(1, 0, b); std::vector<P> v = read(*g, 1, 0);
    double alo = t0 - h0, ahi = t0, blo = t1 - h1, bhi = t1; c.check(v.size() >= 1 && v.size() <= 2, "%zu patches", v.size()); for (auto& p : v) c.check(p.height >= -1e-6 && p.isNegative() != (p.isHorizontal() || p.isVertical()), "a patch has the height %g", p.height);
    auto find = [&](bool negative) -> P* { for (auto& p : v) if (p.isNegative() == negative) return &p; return 0; }; P *pa = find(neg), *pb = find(!neg);
    bool overlap = alo < bhi - 1e-6 && blo < ahi - 1e-6;
    if (i0 == i1) { c.check(pa && pb && near(pa->mean, t0) && near(pa->height, h0) && near(pb->mean, t1) && near(pb->height, h1), "patches of the same age changed each other"); return; }
    P* nw = i0 < i1 ? pb : pa; P* ol = i0 < i1 ? pa : pb; double nlo = i0 < i1 ? blo : alo, nhi = i0 < i1 ? bhi : ahi, olo = i0 < i1 ? alo : blo, ohi = i0 < i1 ? ahi : bhi;
    c.check(nw && near(nw->mean, nhi) && near(nw->height, nhi - nlo), "the newer patch [%g,%g] did not stay as it was", nlo, nhi);
    if (nlo < olo && nhi > ohi) c.check(!ol, "the older patch [%g,%g] survived although the newer one [%g,%g] encloses it", olo, ohi, nlo, nhi);
    if (ahi < blo - 1e-6 || bhi < alo - 1e-6) c.check(ol && near(ol->mean, ohi) && near(ol->height, ohi - olo), "the older patch [%g,%g] changed although it does not touch the newer one [%g,%g]", olo, ohi, nlo, nhi);
    if (ol) { double lo = ol->mean - ol->height, hi = ol->mean; c.check(lo >= olo - 1e-5 && hi <= ohi + 1e-5, "the older patch [%g,%g] grew to [%g,%g]", olo, ohi, lo, hi); if (nhi - nlo > 0) c.check(!(lo < nhi - 1e-5 && nlo < hi - 1e-5), "the older patch [%g,%g] still overlaps the newer one [%g,%g]", lo, hi, nlo, nhi); }
}
struct S { double w, z, lo, hi, n, q; std::vector<std::pair<double, double> > all;
    // weighted sample variance of the measurements without the part that comes from their own deviation
    double dev() const { if (n == 1) return std::sqrt(1 / w); double m = z / w, s = 0; for (auto& k : all) s += k.first * (k.second - m) * (k.second - m); return std::sqrt(std::max(1e-6, s / (w - q / w) - n / w)); } };
static void sum(Ctx& c) {
    MLSGrid::Ptr g = new MLSGrid(2, 2, .5, .25); g->getConfig().updateModel = MLSConfiguration::SUM; double gap = c.choose(2, "gap") ? .35f : 1.f; g->getConfig().gapSize = gap; std::vector<S> m; static const float Z[] = { 0, .21f, .9f, 1.73f, 3.37f, -1.11f, 6.03f, 2.57f }; static const float D[] = { .1f, .25f };
    for (int s = 0; s < c.bound; ++s) {
        float z = Z[c.choose(8, "height")], d = D[c.choose(2, "deviation")]; int wide = c.choose(3, "kind"); c.step(); P p(z, d); p.setColor(base::Vector3d(0, 0, 0)); if (wide == 2) { p.min -= 2.05f; p.max += 3.05f; } put(c, *g, p, s % 3); double w = 1. / (double(d) * d); S o = { w, w * z, p.min, p.max, 1, w * w, std::vector<std::pair<double, double> >(1, std::make_pair(w, (double)z)) };
        std::vector<size_t> in; for (size_t i = 0; i < m.size(); ++i) if (m[i].lo - gap < o.hi && o.lo < m[i].hi + gap) in.push_back(i);
        if (in.empty()) m.insert(m.begin(), o); else if (in.size() == 1) { S& t = m[in[0]]; t.w += o.w; t.z += o.z; t.n += 1; t.q += o.q; t.all.push_back(o.all[0]); t.lo = std::min(t.lo, o.lo); t.hi = std::max(t.hi, o.hi); }
        std::vector<P> v = read(*g, 1, 0);
        if (in.size() > 1) { // bridged: one patch is left for all of them
            c.check(v.size() == m.size() - in.size() + 1, "%zu patches are left after a measurement joined %zu of %zu", v.size(), in.size(), m.size()); double lo = o.lo, hi = o.hi; for (size_t i : in) { lo = std::min(lo, m[i].lo); hi = std::max(hi, m[i].hi); } bool ok = false; for (auto& p : v) ok = ok || (near(p.min, lo) && near(p.max, hi)); c.check(ok, "no patch covers [%g,%g]", lo, hi); return; }
        c.check(v.size() == m.size() && g->getCellCount() == m.size(), "there are %zu patches instead of %zu", v.size(), m.size()); for (size_t i = 0; i < v.size(); ++i) { c.check(near(v[i].mean, m[i].z / m[i].w, 1e-3), "mean %g instead of %g", v[i].mean, m[i].z / m[i].w); c.check(near(v[i].min, m[i].lo) && near(v[i].max, m[i].hi), "range [%g,%g] instead of [%g,%g]", v[i].min, v[i].max, m[i].lo, m[i].hi); c.check(near(v[i].getWeight(), m[i].w, 1e-3) && v[i].getMeasurementCount() == m[i].n && near(v[i].normsq, m[i].q, 1e-3), "weight %g of %g measurements instead of %g of %g", v[i].getWeight(), v[i].getMeasurementCount(), m[i].w, m[i].n); c.check(std::fabs(v[i].stdev * v[i].stdev - m[i].dev() * m[i].dev()) < 2e-3 * (1 + m[i].dev()), "the deviation is %g instead of %g", v[i].stdev, m[i].dev()); if (m[i].n == 1) c.check(near(v[i].stdev, std::sqrt(1 / m[i].w)), "deviation of a single measurement is %g", v[i].stdev); }
    }
    double f = c.choose(2, "scale") ? .25 : 3; std::vector<P> a = read(*g, 1, 0); g->scalePatchWeights(f); std::vector<P> b = read(*g, 1, 0); for (size_t i = 0; i < a.size(); ++i) c.check(near(b[i].getWeight(), f * a[i].getWeight()) && near(b[i].normsq, f * f * a[i].normsq) && b[i].mean == a[i].mean && b[i].stdev == a[i].stdev && b[i].n == a[i].n, "scaling the weights changed more than the weight");
    P p(a[0].mean, .1f); p.setColor(base::Vector3d(0, 0, 0)); double w = a[0].getWeight() * f, e = (w * a[0].mean + a[0].mean * 100) / (w + 100); g->updateCell(1, 0, p); (void)e; c.check(near(read(*g, 1, 0)[0].mean, e, 1e-3) || read(*g, 1, 0).size() != a.size(), "a measurement of the mean moved the mean");
}
static void slope(Ctx& c) {
    static const double A[] = { 0, .5, -1, 2 }; double a = A[c.choose(4, "slope x")], b = A[c.choose(4, "slope y")], z0 = 1.5 * c.choose(3, "height"); int n = 4 + c.choose(3, "points"), order = c.choose(5, "order"); MLSGrid::Ptr g = new MLSGrid(3, 2, .5, .25, -3, 1); g->getConfig().updateModel = MLSConfiguration::SLOPE; c.step();
    static const double X[] = { .06, .43, .11, .37, .25, .41 }, Y[] = { .03, .05, .22, .2, .11, .13 }; int cx = c.choose(3, "cell"), cy = c.choose(2, "cell");
    for (int i = 0; i < n; ++i) { int k = (i * (order + 1) + order) % n; if (n % (order + 1) == 0 && order) k = i; P p(z0 + a * (X[k]) + b * (Y[k]), .1f); p.setColor(base::Vector3d(0, 0, 0)); c.check(g->update(Eigen::Vector2d(-3 + cx * .5 + X[k], 1 + cy * .25 + Y[k]), p), "the update was refused"); }
    std::vector<P> v = read(*g, cx, cy); c.check(v.size() == 1 && v[0].getMeasurementCount() == n, "%zu patches", v.size()); others(c, *g, cx, cy);
    // heights on the patch, relative to what the cell uses as its origin
    for (int i = 0; i < n; ++i) { double z = v[0].mean, d = .3; P* q = g->get(Eigen::Vector2d(-3 + cx * .5 + X[i], 1 + cy * .25 + Y[i]), z, d); double w = z0 + a * X[i] + b * Y[i]; if (q) c.check(near(d, v[0].stdev), "the deviation on a sloped patch is %g instead of %g", d, v[0].stdev); if (q) c.check(near(z, w, 5e-3), "height at (%g,%g) of the cell is %g instead of %g", X[i], Y[i], z, w); }
    Eigen::Vector3d nrm(-a, -b, 1); nrm.normalize(); c.check((v[0].getNormal().cast<double>() - nrm).norm() < 5e-3, "the normal is (%g,%g,%g)", v[0].getNormal().x(), v[0].getNormal().y(), v[0].getNormal().z()); c.check(std::fabs(v[0].getSlope() - std::acos(std::min(1., nrm.z()))) < .02, "the slope is %g", v[0].getSlope()); c.check(near(v[0].stdev, 1e-3, 2e-2), "points on a plane have the deviation %g", v[0].stdev);
}
// points far from each other do not share a slope
static void groups(Ctx& c) {
    MLSGrid::Ptr g = new MLSGrid(2, 2, .5, .25); g->getConfig().updateModel = MLSConfiguration::SLOPE; double gap = c.choose(2, "gap") ? .35f : 1.f; g->getConfig().gapSize = gap; struct Q { double lo, hi, n, w; }; std::vector<Q> m; static const float Z[] = { 0, .21f, .9f, 1.73f, 3.37f, -1.11f, 6.03f }; static const double X[] = { .6, .7, .9, .65, .8 }, Y[] = { .05, .2, .1, .15, .02 };
    for (int s = 0; s < c.bound; ++s) {
        float z = Z[c.choose(7, "height")]; int wide = c.choose(3, "kind"); c.step(); P p(Eigen::Vector3f(X[s % 5] - .5, Y[s % 5], z), .1f); p.setColor(base::Vector3d(0, 0, 0)); if (wide) { p.min -= wide == 1 ? 2.05f : .1f; p.max += wide == 1 ? .1f : 3.05f; } if (wide || s % 2) g->updateCell(1, 0, p); else c.check(g->update(Eigen::Vector2d(X[s % 5], Y[s % 5]), p), "the update was refused"); Q o = { p.min, p.max, 1, 100 };
        std::vector<size_t> in; for (size_t i = 0; i < m.size(); ++i) if (m[i].lo - gap < o.hi && o.lo < m[i].hi + gap) in.push_back(i);
        if (in.empty()) m.insert(m.begin(), o); else if (in.size() == 1) { Q& t = m[in[0]]; t.n += 1; t.w += o.w; t.lo = std::min(t.lo, o.lo); t.hi = std::max(t.hi, o.hi); }
        std::vector<P> v = read(*g, 1, 0); if (in.size() > 1) { c.check(v.size() == m.size() - in.size() + 1, "%zu patches are left after a measurement joined %zu of %zu", v.size(), in.size(), m.size()); double lo = o.lo, hi = o.hi; for (size_t i : in) { lo = std::min(lo, m[i].lo); hi = std::max(hi, m[i].hi); } bool ok = false; for (auto& p : v) ok = ok || (near(p.min, lo) && near(p.max, hi)); c.check(ok, "no patch covers [%g,%g]", lo, hi); return; }
        c.check(v.size() == m.size() && g->getCellCount() == m.size(), "there are %zu patches instead of %zu", v.size(), m.size()); for (size_t i = 0; i < v.size(); ++i) { c.check(near(v[i].min, m[i].lo) && near(v[i].max, m[i].hi), "range [%g,%g] instead of [%g,%g]", v[i].min, v[i].max, m[i].lo, m[i].hi); c.check(near(v[i].getWeight(), m[i].w, 1e-3) && v[i].getMeasurementCount() == m[i].n, "weight %g of %g measurements instead of %g of %g", v[i].getWeight(), v[i].getMeasurementCount(), m[i].w, m[i].n); } others(c, *g, 1, 0);
    }
}
// the colour of joined patches lies between
static void colours(Ctx& c) {
    static const int V[] = { 0, 1, 127, 200, 255 }; int a[3], b[3]; for (int k = 0; k < 3; ++k) { a[k] = V[c.choose(k ? 3 : 5, "colour")] ; b[k] = V[4 - c.choose(k ? 2 : 5, "colour of the other")]; } int model = c.choose(3, "model"); c.step(); MLSGrid::Ptr g = new MLSGrid(2, 2, .5, .25); g->getConfig().useColor = true; g->getConfig().updateModel = MLSConfiguration::update_model(model); P p(1, .1f), q(1.01f, .1f), far(50, .1f); for (int k = 0; k < 3; ++k) { p.color[k] = a[k]; q.color[k] = b[k]; far.color[k] = 255 - a[k]; }
    for (int k = 0; k < 3; ++k) c.check(std::fabs(p.getColor()[k] - a[k] / 255.) < 1e-6, "channel %d is reported as %g instead of %g", k, p.getColor()[k], a[k] / 255.);
    P r(0, 1); r.setColor(base::Vector3d(1, 0, .5)); c.check(r.color[0] == 255 && r.color[1] == 0 && (r.color[2] == 127 || r.color[2] == 128), "a colour is set to %d %d %d", r.color[0], r.color[1], r.color[2]);
    g->updateCell(1, 0, p); g->updateCell(1, 0, far); g->updateCell(1, 0, q); std::vector<P> v = read(*g, 1, 0); c.check(v.size() == 2, "%zu patches", v.size()); for (auto& s : v) for (int k = 0; k < 3; ++k) { bool f = s.mean > 10; c.check(f ? s.color[k] == 255 - a[k] : std::fabs(s.color[k] - (a[k] + b[k]) / 2.) < 1.01, "channel %d of the %s patch is %d, joined from %d and %d", k, f ? "other" : "joined", s.color[k], a[k], b[k]); }
}
// the distance of two maps of the same area
static void heights(Ctx& c) {
    static const float D[] = { 0, .25f, 1, 7 }; float d = D[c.choose(4, "shift")]; int sign = c.choose(2, "direction") ? 1 : -1; int mask[2]; for (int i = 0; i < 2; ++i) mask[i] = 1 + c.choose(15, "cells"); int devs = c.choose(3, "deviations"); c.step(); if (!(mask[0] & mask[1])) return; MLSGrid::Ptr a = new MLSGrid(2, 2, .5, .25), b = new MLSGrid(2, 2, .5, .25); double w = 0;
    for (int k = 0; k < 4; ++k) { float z = k * 1.5f, u = devs == 1 ? .1f * (k + 1) : .2f, v = devs == 2 ? .3f - .05f * k : .1f; if (mask[0] & 1 << k) { a->insertTail(k & 1, k >> 1, P(z + 200, u)); a->insertTail(k & 1, k >> 1, P(z, u)); a->insertTail(k & 1, k >> 1, P(z - 100, u)); } if (mask[1] & 1 << k) b->insertTail(k & 1, k >> 1, P(z + sign * d, v)); if (mask[0] & mask[1] & 1 << k) w += 1 / (double(u) * u + double(v) * v); }
    std::pair<double, double> r = a->matchHeight(*b); c.check(near(std::fabs(r.first), d) && near(r.second, 1 / w), "maps shifted by %g match at %g with a variance of %g instead of %g", d, r.first, r.second, 1 / w);
}
// following the surface
static void project(Ctx& c) {
    MLSGrid::Ptr g = new MLSGrid(4, 1, .5, .5, -1, 2); std::vector<std::vector<double> > top(4); static const float Z[] = { 0, .7f, 2.1f }; for (int x = 0; x < 4; ++x) { int k = c.choose(6, "levels"); if (k == 5) { g->insertTail(x, 0, P(Z[1], .1f)); g->insertTail(x, 0, P(1.6f, .1f, .5f, P::NEGATIVE)); top[x].push_back(Z[1] + .2); } else if (k == 4) { P p(Z[0], .1f), q(Z[2], .1f, 1, P::VERTICAL); g->insertTail(x, 0, p); g->insertTail(x, 0, q); top[x].push_back(Z[0] + .2); top[x].push_back(Z[2] + .2); } else if (k) { g->insertTail(x, 0, P(Z[k - 1], .1f)); top[x].push_back(Z[k - 1] + .2); } }
    double start = c.choose(2, "start") ? 1.9 : -.3, off = c.choose(2, "offset") * .25, h = start; c.step(); std::vector<GridBase::Position> pts; std::vector<double> want; for (int x = 0; x < 4; ++x) { double best = 1e9; for (double t : top[x]) if (std::fabs(t - h) < std::fabs(best - h)) best = t; if (!top[x].empty()) h = best; want.push_back(h + off); pts.push_back(GridBase::Position(x, 0)); }
    std::vector<Eigen::Vector3d> r = g->projectPointsOnSurface(start, pts, off); c.check(r.size() == 4, "%zu points", r.size()); for (int x = 0; x < 4; ++x) c.check(r[x].x() == x && r[x].y() == 0 && near(r[x].z(), want[x]), "point %d is at height %g instead of %g", x, r[x].z(), want[x]);
    // a straight way over the cells, as points of the surface in the order in which they are met
    base::geometry::Spline3 s; bool dense = c.flag("control points"); double x0 = -1.3, x1 = 1.2; if (c.flag("backwards")) std::swap(x0, x1); int n = dense ? 5 : 1; for (int k = 0; k <= n; ++k) s.pts.push_back(base::Vector3d(x0 + (x1 - x0) * k / n, 2.3, 9)); base::geometry::Spline3 t = g->projectSplineOnSurface(start, s, off); h = start; double last = x0;
    c.check(t.pts.size() >= 2 && near(t.pts[0].x(), x0) && near(t.pts.back().x(), x1), "the curve changed its ends"); for (auto& q : t.pts) { c.check(std::fabs(q.x() - last) <= .125 + 1e-9 && (q.x() - last) * (x1 - x0) >= -1e-9 && near(q.y(), 2.3), "the curve has a gap from %g to %g", last, q.x()); last = q.x(); double e = 9; if (q.x() >= -1 && q.x() < 1) { int x = std::floor((q.x() + 1) / .5); double best = 1e9; for (double u : top[x]) if (std::fabs(u - h) < std::fabs(best - h)) best = u; if (!top[x].empty()) h = best; e = h + off; } c.check(near(q.z(), e), "curve point at %g is at height %g instead of %g", q.x(), q.z(), e); }
}
int main(int argc, char** argv) {
    Engine e;
    e.add("kalman", 4, 5, 2, false, kalman, "all sequences of surface and vertical measurements, and look-ups at all heights");
    e.add("outside", 1, 1, 1, false, outside, "updates in and around the grid"); e.add("conflict", 1, 1, 1, false, conflict, "all pairs of occupied and free space of any age");
    e.add("slope groups", 4, 5, 2, false, groups, "all sequences of measurements under the slope model"); e.add("colours", 1, 1, 2, false, colours, "colours of joined patches"); e.add("heights", 1, 1, 2, false, heights, "maps of the same area at another height");
    e.add("sum", 3, 4, 2, false, sum, "all sequences of measurements under the sum model"); e.add("slope", 1, 1, 1, false, slope, "planes sampled in any order"); e.add("project", 1, 1, 1, false, project, "following a surface with any levels");
    return e.main(argc, argv);
}
