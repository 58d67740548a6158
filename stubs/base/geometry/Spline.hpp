#ifndef VSTUB_BASE_SPLINE_HPP
#define VSTUB_BASE_SPLINE_HPP
#include <base/Eigen.hpp>
#include <vector>
#include <cmath>
#include <algorithm>
namespace base { namespace geometry {
    // a polyline stand-in: sampling returns the control points and points in between at the given resolution
    struct Spline3 {
        std::vector<base::Vector3d> pts;
        std::vector<base::Vector3d> sample(double resolution) const {
            std::vector<base::Vector3d> res;
            for (size_t i = 0; i + 1 < pts.size(); ++i) {
                size_t n = std::max(1., std::ceil((pts[i + 1] - pts[i]).norm() / resolution - 1e-9));
                for (size_t k = 0; k < n; ++k) res.push_back(pts[i] + (pts[i + 1] - pts[i]) * (double(k) / n));
            }
            if (!pts.empty()) res.push_back(pts.back());
            return res;
        }
        void interpolate(std::vector<base::Vector3d> const& p) { pts = p; }
    };
}}
#endif
