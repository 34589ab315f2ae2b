#pragma once
#include "../esp_rom_sys.h"
inline void ets_delay_us(uint32_t us) { SIM_STUB; esp_rom_delay_us(us); }
