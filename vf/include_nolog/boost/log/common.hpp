// Logging is left out of the verified text: log statements become empty and
// their arguments are not evaluated.
#pragma once
namespace vf_nolog {
struct Stream {
  template <typename T> const Stream& operator<<(const T&) const { return *this; }
};
} // namespace vf_nolog
#define BOOST_LOG(logger) if (true) {} else ::vf_nolog::Stream()
#define BOOST_LOG_SEV(logger, level) if (true) {} else ::vf_nolog::Stream()
#define BOOST_LOG_TRIVIAL(level) if (true) {} else ::vf_nolog::Stream()
#define BOOST_LOG_SCOPED_LOGGER_TAG(logger, name, value) (void)0
#define BOOST_LOG_SCOPED_THREAD_TAG(name, value) (void)0
namespace boost::log {
namespace trivial {
enum severity_level { trace, debug, info, warning, error, fatal };
}
namespace sources {
template <typename L> struct severity_logger {
  severity_logger() = default;
  template <typename T> explicit severity_logger(const T&) {}
};
} // namespace sources
namespace keywords {
struct severity_keyword {
  template <typename T> int operator=(const T&) const { return 0; }
};
constexpr severity_keyword severity{};
} // namespace keywords
} // namespace boost::log
