#pragma once
#include "sim_esp.h"
inline void esp_rom_delay_us(uint32_t us) { SIM_STUB; sim::advance(us); }
