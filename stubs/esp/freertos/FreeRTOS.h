#pragma once
#include "sim_esp.h"
typedef uint32_t TickType_t;
typedef int BaseType_t;
typedef unsigned UBaseType_t;
#define configTICK_RATE_HZ 100
#define portTICK_PERIOD_MS ((TickType_t) 1000 / configTICK_RATE_HZ)
#define portMAX_DELAY ((TickType_t) 0xffffffffUL)
#define pdMS_TO_TICKS(ms) ((TickType_t) (((TickType_t) (ms) * (TickType_t) configTICK_RATE_HZ) / (TickType_t) 1000U))
#define pdTICKS_TO_MS(t) ((TickType_t) (((uint64_t) (t) * 1000U) / configTICK_RATE_HZ))
#define pdTRUE 1
#define pdFALSE 0
inline void* pvPortMalloc(size_t n) { return malloc(n); }
inline void vPortFree(void* p) { free(p); }
