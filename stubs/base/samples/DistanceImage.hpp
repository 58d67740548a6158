#ifndef VSTUB_BASE_DISTANCEIMAGE_HPP
#define VSTUB_BASE_DISTANCEIMAGE_HPP
#include <base/Time.hpp>
#include <vector>
#include <stdint.h>
namespace base { namespace samples {
    struct DistanceImage {
        typedef float scalar;
        Time time;
        uint16_t width, height;
        float scale_x, scale_y, center_x, center_y;
        std::vector<scalar> data;
        DistanceImage() : width(0), height(0), scale_x(1), scale_y(1), center_x(0), center_y(0) {}
    };
}}
#endif
