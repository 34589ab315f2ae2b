#pragma once
#include "sim_esp.h"
inline int64_t esp_timer_get_time()
{
    SIM_STUB;
    sim::advance(sim::clockCost ? sim::clockCost() : sim::pollCostUs);
    return int64_t(sim::bootUs + sim::nowUs);
}
