#pragma once
#include "sim_esp.h"
namespace sim
{
inline uint64_t wakeupUs = 0;
inline int wakeupArmed = 0;
inline std::vector<uint64_t> armed;
inline std::function<esp_err_t(uint64_t armedUs)> lightSleep;   // default: sleeps for the armed time
inline std::function<void(uint64_t armedUs)> deepSleep;
}
inline esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us)
{
    SIM_STUB;
    sim::advance(sim::pollCostUs);
    esp_err_t e = sim::outcome("esp_sleep_enable_timer_wakeup");
    if (e == ESP_OK) { sim::wakeupUs = us; ++sim::wakeupArmed; sim::armed.push_back(us); }
    return e;
}
inline esp_err_t esp_light_sleep_start()
{
    SIM_STUB;
    if (sim::lightSleep) return sim::lightSleep(sim::wakeupUs);
    sim::advance(sim::wakeupUs + sim::pollCostUs);
    return ESP_OK;
}
inline void esp_deep_sleep_start() { SIM_STUB; if (sim::deepSleep) sim::deepSleep(sim::wakeupUs); }
inline void esp_deep_sleep(uint64_t us) { SIM_STUB; sim::wakeupUs = us; ++sim::wakeupArmed; sim::armed.push_back(us); esp_deep_sleep_start(); }
