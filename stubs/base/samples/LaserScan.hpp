#ifndef VSTUB_BASE_LASERSCAN_HPP
#define VSTUB_BASE_LASERSCAN_HPP
#include <base/Time.hpp>
#include <base/Eigen.hpp>
#include <cmath>
#include <vector>
#include <stdint.h>
namespace base { namespace samples {
    struct LaserScan {
        Time time;
        double start_angle, angular_resolution, speed;
        std::vector<uint32_t> ranges;
        uint32_t minRange, maxRange;
        std::vector<float> remission;
        bool isRangeValid(uint32_t r) const { return r >= minRange && r <= maxRange; }
        std::vector<Eigen::Vector3d> convertScanToPointCloud(Eigen::Affine3d const& t) const { std::vector<Eigen::Vector3d> p; for (size_t i = 0; i < ranges.size(); ++i) if (isRangeValid(ranges[i])) { double a = start_angle + i * angular_resolution; p.push_back(t * Eigen::Vector3d(std::cos(a) * ranges[i] / 1000., std::sin(a) * ranges[i] / 1000., 0)); } return p; }
        LaserScan() : start_angle(0), angular_resolution(0), speed(0), minRange(0), maxRange(0) {}
    };
}}
#endif
