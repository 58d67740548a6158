#ifndef VSTUB_BASE_POINTCLOUD_HPP
#define VSTUB_BASE_POINTCLOUD_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
#include <vector>
namespace base { typedef Vector3d Point; namespace samples {
    struct Pointcloud {
        Time time;
        std::vector<base::Point> points;
        std::vector<base::Vector4d> colors;
    };
}}
#endif
