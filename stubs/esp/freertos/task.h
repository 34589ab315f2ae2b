#pragma once
#include "FreeRTOS.h"
inline void vTaskDelay(TickType_t ticks)
{
    SIM_STUB;
    sim::advance(uint64_t(ticks) * portTICK_PERIOD_MS * 1000 + sim::pollCostUs);
}
inline TickType_t xTaskGetTickCount() { SIM_STUB; sim::advance(sim::pollCostUs); return TickType_t((sim::bootUs + sim::nowUs) / 1000 / portTICK_PERIOD_MS); }
inline void taskYIELD() { SIM_STUB; sim::advance(sim::pollCostUs); }
inline void vTaskDelayUntil(TickType_t* previous, TickType_t increment)
{
    SIM_STUB;
    const TickType_t now = xTaskGetTickCount();
    const int32_t left = int32_t(*previous + increment - now);
    if (left > 0) vTaskDelay(TickType_t(left));
    *previous += increment;
}
inline BaseType_t xTaskDelayUntil(TickType_t* previous, TickType_t increment) { SIM_STUB; vTaskDelayUntil(previous, increment); return pdTRUE; }
