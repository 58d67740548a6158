#ifndef VSTUB_LOGGING_HPP
#define VSTUB_LOGGING_HPP
#include <ostream>
#include <iostream>
#include <string>
#include <sstream>
namespace vstub { struct NullLog { template<typename T> NullLog const& operator<<(T const&) const { return *this; }
    NullLog const& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; } };
  struct Voidify { void operator&(NullLog const&) {} };
  template<typename... A> inline void ignore(A const&...) {} }
#define LOG_DEBUG(...) ::vstub::ignore(__VA_ARGS__)
#define LOG_INFO(...)  ::vstub::ignore(__VA_ARGS__)
#define LOG_WARN(...)  ::vstub::ignore(__VA_ARGS__)
#define LOG_ERROR(...) ::vstub::ignore(__VA_ARGS__)
#define LOG_FATAL(...) ::vstub::ignore(__VA_ARGS__)
#define LOG_DEBUG_S ::vstub::NullLog()
#define LOG_INFO_S  ::vstub::NullLog()
#define LOG_WARN_S  ::vstub::NullLog()
#define LOG_ERROR_S ::vstub::NullLog()
#define LOG_FATAL_S ::vstub::NullLog()
#endif
