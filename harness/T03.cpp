// T03: the radial table returns exact polar coordinates for every offset inside its radius.
#include <envire/tools/RadialLookUpTable.hpp>
#include <mc.hpp>
using namespace mc;
static void probe(Ctx& c, envire::RadialLookUpTable const& t, double scale, double radius) {
    int n = (int)std::floor(radius / scale * (1 - 1e-12) + 1e-9);
    while (n > 0 && n * scale > radius * (1 - 1e-9) && n * scale != radius) --n;
    if (n * scale == radius && (int)(radius / scale) < n) --n;
    for (int x = -n; x <= n; ++x) {
        c.step();
        for (int y = -n; y <= n; ++y) {
            double d = t.getDistance(x, y), a = t.getAngle(x, y);
            double D = std::hypot(x * scale, y * scale);
            c.check(std::fabs(d - D) <= 1e-9 * (1 + D), "scale %g radius %g: distance of offset (%d,%d) is %.12g, expected %.12g", scale, radius, x, y, d, D);
            if (x || y) {
                double A = std::atan2((double)y, (double)x), diff = std::remainder(a - A, 2 * M_PI);
                c.check(std::fabs(diff) <= 1e-9 && std::fabs(a) <= M_PI + 1e-9, "scale %g radius %g: angle of offset (%d,%d) is %.12g, expected %.12g", scale, radius, x, y, a, A);
            }
        }
    }
    c.outcome(mix(n, hashBytes(&scale, 8)));
}
int main(int argc, char** argv) {
    Engine e;
    std::vector<double> scales = { 0.1, 0.25, 0.5, 1.0, 0.07, 0.3, 2.0 };
    e.add("table", 40, 160, 2, false, [=](Ctx& c) {
        double s = c.pick(scales, "scale"); int k = 1 + c.choose(c.bound, "radius");
        static const double f[] = { 0, 0.3, 0.5, 0.77 };
        double r = (k / 2 + f[c.choose(4, "fraction")]) * s;
        if (r <= 0) return;
        envire::RadialLookUpTable t; t.recompute(s, r);
        probe(c, t, s, r);
    }, "every scale and every radius up to 20 (80) cells in four fractional phases; every offset within the radius");
    e.add("recompute", 4, 6, 2, false, [=](Ctx& c) {
        static const double P[][2] = { { 0.1, 0.55 }, { 0.1, 1.0 }, { 0.25, 1.0 }, { 0.25, 0.5 }, { 0.5, 1.1 }, { 0.05, 0.55 } };
        // same number of cells, same product or ratio, radius or scale alone larger or smaller
        envire::RadialLookUpTable t;
        for (int i = 0; i < c.bound; ++i) { int k = c.choose(6, "parameters"); t.recompute(P[k][0], P[k][1]); probe(c, t, P[k][0], P[k][1]); }
    }, "all sequences of recompute calls over 6 parameter sets, all lookups after each");
    return e.main(argc, argv);
}
