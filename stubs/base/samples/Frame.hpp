#ifndef VSTUB_BASE_FRAME_HPP
#define VSTUB_BASE_FRAME_HPP
#include <base/Time.hpp>
#include <map>
#include <string>
#include <vector>
#include <sstream>
namespace base { namespace samples { namespace frame {
    enum frame_mode_t { MODE_UNDEFINED = 0, MODE_GRAYSCALE = 1, MODE_RGB = 2 };
    enum frame_status_t { STATUS_EMPTY, STATUS_VALID, STATUS_INVALID };
    struct Frame {
        Time time;
        std::vector<uint8_t> image;
        std::map<std::string, std::string> attributes;
        uint16_t width, height;
        uint32_t data_depth, pixel_size;
        frame_mode_t frame_mode;
        frame_status_t frame_status;
        Frame() : width(0), height(0), data_depth(8), pixel_size(0), frame_mode(MODE_UNDEFINED), frame_status(STATUS_EMPTY) {}
        void init(uint16_t w, uint16_t h, uint8_t depth = 8, frame_mode_t mode = MODE_GRAYSCALE, int val = 0) {
            width = w; height = h; data_depth = depth; frame_mode = mode;
            pixel_size = (mode == MODE_RGB ? 3 : 1) * (depth / 8);
            image.assign(size_t(w) * h * pixel_size, uint8_t(val));
        }
        frame_mode_t getFrameMode() const { return frame_mode; }
        unsigned char const* getImageConstPtr() const { return image.data(); }
        unsigned char* getImagePtr() { return image.data(); }
        uint32_t getNumberOfBytes() const { return image.size(); }
        template<typename T> void setAttribute(std::string const& n, T const& v) { std::stringstream s; s << v; attributes[n] = s.str(); }
    };
}}}
#endif
