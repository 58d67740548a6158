#ifndef VSTUB_BASE_TIMEMARK_HPP
#define VSTUB_BASE_TIMEMARK_HPP
#include <base/Time.hpp>
#include <string>
#include <ostream>
namespace base { struct TimeMark { std::string label; explicit TimeMark(std::string const& l) : label(l) {} };
inline std::ostream& operator<<(std::ostream& o, TimeMark const& t) { return o << t.label; } }
#endif
