// Simulated ESP-IDF drivers: the environment of the code under test, fully owned by the harness.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

typedef int esp_err_t;
#define ESP_OK 0
#define ESP_FAIL -1
#define ESP_ERR_NO_MEM 0x101
#define ESP_ERR_INVALID_ARG 0x102
#define ESP_ERR_INVALID_STATE 0x103
#define ESP_ERR_INVALID_SIZE 0x104
#define ESP_ERR_NOT_FOUND 0x105
#define ESP_ERR_NOT_SUPPORTED 0x106
#define ESP_ERR_TIMEOUT 0x107

// marks the functions of the environment, whose own use of the heap is not the library's (see harness/c36_heap.cpp)
#ifdef MC_HEAP
namespace sim
{
inline int inside = 0;
struct Stub { Stub() { ++inside; } ~Stub() { --inside; } };
}
#define SIM_STUB ::sim::Stub mc_in_stub
#else
#define SIM_STUB ((void)0)
#endif

namespace sim
{
struct Abort { esp_err_t code; };     // the chip would have been reset
// ---- virtual time, in microseconds -----------------------------------------------------------
inline uint64_t nowUs = 0;
inline uint64_t bootUs = 0;
inline uint32_t pollCostUs = 50;
inline uint64_t horizonUs = ~0ull;
inline std::function<void()> onHorizon;
inline std::function<void()> tick;
inline std::function<uint64_t()> clockCost;    // time passing at a clock reading (default: pollCostUs)
inline void advance(uint64_t us)
{
    nowUs += us;
    if (tick) tick();
    if (nowUs > horizonUs && onHorizon) onHorizon();
}
// ---- faults: the harness decides the result of every driver call -------------------------------
inline std::function<esp_err_t(const char* call)> fault;
inline esp_err_t outcome(const char* call) { return fault ? fault(call) : ESP_OK; }
inline std::vector<std::string> calls;
}
#define ESP_ERROR_CHECK(x) do { esp_err_t mc_err = (x); if (mc_err != ESP_OK) throw ::sim::Abort { mc_err }; } while (0)
#define ESP_ERROR_CHECK_WITHOUT_ABORT(x) (x)
#define ESP_RETURN_ON_ERROR(x, tag, ...) do { esp_err_t mc_err = (x); if (mc_err != ESP_OK) return mc_err; } while (0)
#define ESP_INTR_FLAG_IRAM (1 << 10)
inline const char* esp_err_to_name(esp_err_t) { SIM_STUB; return "ESP_ERR"; }
