// T02: the box distance table is a conservative distance estimate everywhere inside its margin
// and rejects every point outside of what it stores.
#include <envire/tools/BoxLookUpTable.hpp>
#include <mc.hpp>
#include <memory>
using namespace mc;
struct Cfg { double scale, sx, sy, md; };
static double trueDist(Cfg const& k, double x, double y) {
    double dx = std::max(0.0, std::fabs(x) - k.sx / 2), dy = std::max(0.0, std::fabs(y) - k.sy / 2);
    return std::sqrt(dx * dx + dy * dy);
}
// true: value returned
static bool look(Ctx& c, envire::BoxLookUpTable const& t, double x, double y, double& v) {
    try { v = t.getDistanceToBox(x, y); return true; } catch (std::runtime_error&) { return false; }
}
static void probe(Ctx& c, envire::BoxLookUpTable const& t, Cfg const& k, double x, double y) {
    double v = 0; bool ok = look(c, t, x, y, v);
    double Rx = k.sx / 2 + k.md, Ry = k.sy / 2 + k.md;
    bool inside = std::fabs(x) <= Rx - 1e-7 && std::fabs(y) <= Ry - 1e-7;
    bool far = std::fabs(x) > Rx + 1.01 * k.scale || std::fabs(y) > Ry + 1.01 * k.scale;
    c.check(!(inside && !ok), "box %gx%g scale %g margin %g: lookup of (%.9g,%.9g) inside the margin is rejected", k.sx, k.sy, k.scale, k.md, x, y);
    c.check(!(far && ok), "box %gx%g scale %g margin %g: lookup of (%.9g,%.9g), more than a cell outside the margin, returns %g instead of being rejected", k.sx, k.sy, k.scale, k.md, x, y, v);
    if (!ok || !inside) return;
    double d = trueDist(k, x, y), diag = k.scale * std::sqrt(2.0);
    c.check(v >= d - 0.2 * diag - 1e-9 && v <= d + 1.001 * diag + 1e-9, "box %gx%g scale %g margin %g: table distance %.9g for (%.9g,%.9g), true distance %.9g (cell diagonal %g)", k.sx, k.sy, k.scale, k.md, v, x, y, d, diag);
    if (std::fabs(x) < k.sx / 2 - k.scale && std::fabs(y) < k.sy / 2 - k.scale) c.check(v == 0, "distance %g for the interior point (%g,%g) of the box", v, x, y);
}
static void probeAll(Ctx& c, envire::BoxLookUpTable const& t, Cfg const& k, double sub) {
    double Rx = k.sx / 2 + k.md, Ry = k.sy / 2 + k.md;
    std::vector<double> xs, ys;
    for (int a = 0; a < 2; ++a) {
        double R = a ? Ry : Rx; std::vector<double>& o = a ? ys : xs;
        int n = (int)std::ceil((R + 2.6 * k.scale) / (k.scale / sub));
        for (int i = -n; i <= n; ++i) o.push_back(i * k.scale / sub);
        double extra[] = { R, -R, R - 1e-7, 1e-7 - R, (a ? k.sy : k.sx) / 2, -(a ? k.sy : k.sx) / 2, 0 };
        for (double e : extra) o.push_back(e);
    }
    for (double x : xs) { c.step(); for (double y : ys) probe(c, t, k, x, y); }
    c.outcome(mix(hashBytes(&k, sizeof k), xs.size()));
}
int main(int argc, char** argv) {
    Engine e;
    std::vector<double> scales = { 0.1, 0.25, 0.07, 0.5, 1.0 / 3 }, sizes = { 0.0, 0.3, 0.35, 1.0, 1.23, 0.5 }, md = { 0.0, 0.1, 0.33, 0.5, 1.0, 0.77 };
    e.add("table", 2, 3, 2, false, [=](Ctx& c) {
        Cfg k; k.scale = c.pick(scales, "scale"); k.sx = c.pick(sizes, "sizeX"); k.sy = c.pick(sizes, "sizeY"); k.md = c.pick(md, "margin");
        envire::BoxLookUpTable t; t.recompute(k.scale, k.sx, k.sy, k.md);
        probeAll(c, t, k, c.bound);
    }, "every combination of scale, box size and margin from the alphabets; every point of a sub-cell lattice up to 2.6 cells beyond the margin, plus edge points");
    e.add("fine", 5, 11, 2, false, [=](Ctx& c) {
        static const Cfg ks[] = { { 0.25, 1.0, 0.5, 0.5 }, { 0.1, 0.35, 0.3, 0.2 }, { 0.5, 1.23, 0.7, 0.77 }, { 0.2, 0.0, 0.9, 0.3 }, { 0.3, 0.61, 0.6, 0.15 }, { 0.125, 0.5, 0.25, 0.1875 } };
        Cfg k = ks[c.choose(6, "config")];
        int part = c.choose(2, "part"); (void)part;
        envire::BoxLookUpTable t; t.recompute(k.scale, k.sx, k.sy, k.md);
        probeAll(c, t, k, c.bound + (part ? 0.37 : 0));
    }, "finer point lattices on selected configurations");
    auto sequence = [](Ctx& c, std::vector<Cfg> const& ks, int length) {
        envire::BoxLookUpTable t;
        double v; c.check(!look(c, t, 0, 0, v), "lookup before the table was computed returns a value");
        Cfg eff = { 0, 0, 0, 0 };
        for (int i = 0; i < length; ++i) {
            Cfg k = c.pick(ks, "parameters");
            t.recompute(k.scale, k.sx, k.sy, k.md); c.step();
            // a table for a larger margin of the same box may be kept
            bool keep = eff.scale == k.scale && eff.sx == k.sx && eff.sy == k.sy && eff.md > k.md;
            if (!keep) eff = k;
            if (!keep) { probeAll(c, t, k, 1); continue; }
            double Rx = k.sx / 2 + k.md, Ry = k.sy / 2 + k.md;
            for (double x = 1e-7 - Rx; x <= Rx - 1e-7; x += k.scale / 2) for (double y = 1e-7 - Ry; y <= Ry - 1e-7; y += k.scale / 2) {
                c.check(look(c, t, x, y, v), "after shrinking the margin (%g,%g) is rejected", x, y);
                double d = trueDist(k, x, y), diag = k.scale * std::sqrt(2.0);
                c.check(v >= d - 0.2 * diag - 1e-9 && v <= d + 1.001 * diag + 1e-9, "after recompute: distance %g at (%g,%g), true %g", v, x, y, d);
            }
        }
    };
    e.add("recompute", 3, 4, 2, false, [=](Ctx& c) {
        sequence(c, { { 0.25, 1.0, 0.5, 0.5 }, { 0.25, 1.0, 0.5, 1.0 }, { 0.25, 1.0, 0.5, 0.2 }, { 0.125, 1.0, 0.5, 0.5 }, { 0.25, 0.5, 1.0, 0.5 }, { 0.25, 1.0, 0.75, 0.25 } }, c.bound);
    }, "all sequences of recompute calls over 6 parameter sets");
    e.add("change", 2, 3, 2, false, [=](Ctx& c) {
        std::vector<Cfg> ks; for (double s : { 0.25, 0.35, 0.5 }) for (double x : { 1.5, 0.4, 1.6 }) for (double y : { 1.2, 0.3, 1.3 }) for (double m : { 0.4, 0.9 }) { if (c.bound > 2 && (s > .4 || x > 1.5 || y > 1.2)) continue; ks.push_back(Cfg{ s, x, y, m }); }
        sequence(c, ks, c.bound);
    }, "every change between two parameter sets, each parameter growing, shrinking or staying");
    return e.main(argc, argv);
}
