#pragma once
#include "sim_esp.h"
typedef enum { GPIO_NUM_NC = -1, GPIO_NUM_0 = 0, GPIO_NUM_39 = 39, GPIO_NUM_MAX = 40, GPIO_NUM_mc_force_int = 0x7fffffff } gpio_num_t;
