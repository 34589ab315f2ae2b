// Simulated Arduino hardware: the environment of the code under test, fully owned by the harness.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

// marks the functions of the environment, whose own use of the heap is not the library's (see harness/c36_heap.cpp)
#ifdef MC_HEAP
namespace sim
{
inline int inside = 0;
struct Stub { Stub() { ++inside; } ~Stub() { --inside; } };
}
#define SIM_STUB ::sim::Stub mc_in_stub
#else
#define SIM_STUB ((void)0)
#endif

namespace sim
{
// ---- virtual time, in microseconds -----------------------------------------------------------
inline uint64_t nowUs = 0;          // elapsed since the execution began
inline uint64_t bootUs = 0;         // value of the hardware counter when it began
inline uint32_t pollCostUs = 50;    // cost of a clock reading or of looking at the UART
inline uint64_t horizonUs = ~0ull;  // beyond this the execution cannot end any more
inline std::function<void()> onHorizon;
inline std::function<void()> tick;  // progress call-back (hang detection)
inline void advance(uint64_t us)
{
    nowUs += us;
    if (tick) tick();
    if (nowUs > horizonUs && onHorizon) onHorizon();
}

// ---- UART ------------------------------------------------------------------------------------
struct RxByte { uint64_t at; uint8_t value; };
struct Port
{
    std::vector<RxByte> rx;          // arrival script, by time
    size_t rxPos = 0;                // consumed so far
    std::vector<uint64_t> consumedAt;
    std::vector<uint8_t> tx;         // bytes accepted
    size_t txOut = 0;                // of these, known to have left the port (flushed)
    uint32_t timeout = 1000;
    int flushes = 0;
    int writes = 0;
    // how many of n bytes a write accepts
    std::function<size_t(const uint8_t*, size_t n)> accept;
    bool ready() const { SIM_STUB; return rxPos < rx.size() && rx[rxPos].at <= nowUs; }
    uint8_t take() { SIM_STUB; consumedAt.push_back(nowUs); return rx[rxPos++].value; }
};
inline std::array<Port, 3> ports;

// ---- GPIO / ADC ------------------------------------------------------------------------------
struct PinEvent { char op; int pin; int value; };   // m(ode) w(rite) r(ead) a(nalog)
inline std::vector<PinEvent> pinLog;
inline std::array<int, 256> pinLevel {};
inline std::function<int(int)> readLevel;   // what reading a pin returns instead of the level it is driven to
inline std::array<int, 256> pinMode_ {};
inline std::array<int, 256> analogLevel {};
}

inline uint32_t millis() { SIM_STUB; sim::advance(sim::pollCostUs); return uint32_t((sim::bootUs + sim::nowUs) / 1000); }
inline uint32_t micros() { SIM_STUB; sim::advance(sim::pollCostUs); return uint32_t(sim::bootUs + sim::nowUs); }
inline void delay(uint32_t ms) { SIM_STUB; sim::advance(uint64_t(ms) * 1000 + sim::pollCostUs); }
inline void delayMicroseconds(uint32_t us) { SIM_STUB; sim::advance(us); }
inline void yield() { SIM_STUB; sim::advance(sim::pollCostUs); }
