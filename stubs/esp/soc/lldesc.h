#pragma once
#include "sim_esp.h"
#ifndef LLDESC_MAX_NUM_PER_DESC
#define LLDESC_MAX_NUM_PER_DESC (4095 - 3)
#endif
