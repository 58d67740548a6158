#ifndef VSTUB_BASE_TIME_HPP
#define VSTUB_BASE_TIME_HPP
#include <stdint.h>
namespace base {
    struct Time {
        int64_t microseconds;
        Time() : microseconds(0) {}
        explicit Time(int64_t us) : microseconds(us) {}
        // a logical clock: the checks own time
        static Time now() { static int64_t t = 0; return Time(++t); }
        static Time fromMicroseconds(int64_t v) { return Time(v); }
        int64_t toMicroseconds() const { return microseconds; }
        double toSeconds() const { return microseconds / 1e6; }
        bool isNull() const { return microseconds == 0; }
        bool operator<(Time const& o) const { return microseconds < o.microseconds; }
        bool operator>(Time const& o) const { return microseconds > o.microseconds; }
        bool operator==(Time const& o) const { return microseconds == o.microseconds; }
        bool operator!=(Time const& o) const { return microseconds != o.microseconds; }
        Time operator-(Time const& o) const { return Time(microseconds - o.microseconds); }
        Time operator+(Time const& o) const { return Time(microseconds + o.microseconds); }
    };
}
#endif
