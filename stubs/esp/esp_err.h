#pragma once
#include "sim_esp.h"
