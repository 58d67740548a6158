// T07: scalar measurement fusion.
#include <cmath>
#include <envire/tools/Numeric.hpp>
#include <mc.hpp>
using namespace mc;
template<class T> static void seq(Ctx& c, double tol, int n) {
    static const double M[] = { -2.0, 0.0, 0.5, 3.0 }, S[] = { 0.0, 0.1, 1.0, 4.0 };
    int i0 = c.choose(4, "mean"), s0 = c.choose(4, "stdev");
    T mean = M[i0], sd = S[s0];
    double info = 0, sum = 0, lo = mean, hi = mean; bool exact = S[s0] == 0; double exactMean = mean; int exacts = exact;
    if (!exact) { info = 1 / (sd * sd); sum = mean * info; }
    for (int k = 0; k < n; ++k) {
        T m = M[c.choose(4, "measurement")], s = S[c.choose(4, "measurement stdev")];
        T pm = mean, ps = sd;
        kalman_update(mean, sd, m, s); c.step();
        lo = std::min(lo, (double)m); hi = std::max(hi, (double)m);
        c.check(std::isfinite(mean) && std::isfinite(sd), "fusing (%g,%g) into (%g,%g) gives (%g,%g)", (double)m, (double)s, (double)pm, (double)ps, (double)mean, (double)sd);
        c.check(mean >= std::min(pm, m) - tol && mean <= std::max(pm, m) + tol, "fused mean %g is outside of [%g,%g]", (double)mean, (double)std::min(pm, m), (double)std::max(pm, m));
        c.check(sd >= 0 && sd <= std::min(ps, s) + tol, "fused standard deviation %g exceeds the smaller of %g and %g", (double)sd, (double)ps, (double)s);
        if (s == 0) { if (exact) { if (exacts == 1) exactMean = (exactMean + m) / 2; else exactMean = (exactMean + m) / 2; ++exacts; } else { exact = true; exactMean = m; exacts = 1; } }
        if (exact) {
            c.check(std::fabs(mean - exactMean) <= tol && sd <= tol, "fusion with an exact measurement gives (%g,%g), expected (%g,0)", (double)mean, (double)sd, exactMean);
            info = 0; sum = 0;
        } else {
            info += 1 / ((double)s * s); sum += m / ((double)s * s);
            c.check(std::fabs(mean - sum / info) <= tol * 10 && std::fabs(sd - std::sqrt(1 / info)) <= tol * 10, "fusion result (%.9g,%.9g) differs from the information-weighted result (%.9g,%.9g)", (double)mean, (double)sd, sum / info, std::sqrt(1 / info));
        }
        T a = pm, b = ps, x = m, y = s; kalman_update(x, y, a, b);
        c.check(std::fabs(x - mean) <= tol && std::fabs(y - sd) <= tol, "fusion is not symmetric: (%g,%g) versus (%g,%g)", (double)mean, (double)sd, (double)x, (double)y);
        uint64_t h = hashBytes(&mean, sizeof mean); h = mix(h, hashBytes(&sd, sizeof sd)); c.outcome(h);
    }
    c.check(sq(mean) == mean * mean, "sq(%g) is wrong", (double)mean);
}
int main(int argc, char** argv) {
    Engine e;
    e.add("double", 3, 4, 3, false, [](Ctx& c) { seq<double>(c, 1e-9, c.bound); }, "all sequences of measurements from a 4x4 alphabet (including exact ones), double");
    e.add("float", 2, 3, 3, false, [](Ctx& c) { seq<float>(c, 1e-5, c.bound); }, "the same in single precision");
    e.add("pairs", 24, 60, 2, false, [](Ctx& c) {
        int N = c.bound; double s1 = c.choose(N) * 0.13, s2 = c.choose(N) * 0.29, m1 = c.choose(5) - 2, m2 = c.choose(5) * 1.7 - 3;
        double m = m1, s = s1; kalman_update(m, s, m2, s2); c.step();
        if (s1 + s2 == 0) { c.check(std::fabs(m - (m1 + m2) / 2) < 1e-12 && s == 0, "two exact values fuse to (%g,%g)", m, s); return; }
        double v1 = s1 * s1, v2 = s2 * s2, em = (m1 * v2 + m2 * v1) / (v1 + v2), es = std::sqrt(v1 * v2 / (v1 + v2));
        c.check(std::fabs(m - em) < 1e-9 && std::fabs(s - es) < 1e-7, "(%g,%g)+(%g,%g) fuses to (%g,%g), expected (%g,%g)", m1, s1, m2, s2, m, s, em, es);
    }, "single fusions over a dense lattice against the closed form");
    return e.main(argc, argv);
}
