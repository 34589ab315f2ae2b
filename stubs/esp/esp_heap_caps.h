#pragma once
#include "sim_esp.h"
#define MALLOC_CAP_8BIT (1 << 2)
#define MALLOC_CAP_DMA (1 << 3)
#define MALLOC_CAP_INTERNAL (1 << 11)
#define MALLOC_CAP_DEFAULT (1 << 12)
inline void* heap_caps_malloc(size_t n, uint32_t) { return malloc(n); }
inline void* heap_caps_calloc(size_t n, size_t m, uint32_t) { return calloc(n, m); }
inline void* heap_caps_realloc(void* p, size_t n, uint32_t) { return realloc(p, n); }
inline void* heap_caps_aligned_alloc(size_t a, size_t n, uint32_t) { return aligned_alloc(a, (n + a - 1) / a * a); }
inline void heap_caps_free(void* p) { free(p); }
