// Stand-in for fub/counter/Timer.hpp: time measurement is left out of the verified text
#ifndef FUB_COUNTER_TIMER_HPP
#define FUB_COUNTER_TIMER_HPP

#include <chrono>
#include <functional>
#include <string>

#include "fub/counter/Counter.hpp"

namespace fub {
struct Timer {
  Timer() = default;
  explicit Timer(Counter&) {}
};
} // namespace fub

#endif
