#pragma once
#include "soc/gpio_num.h"
#define SOC_GPIO_PIN_COUNT 40
// ESP32: GPIO 24 and 28..31 do not exist, 34..39 are input only
#define SOC_GPIO_VALID_GPIO_MASK (0xFFFFFFFFFFULL & ~(0ULL | (1ULL << 24) | (1ULL << 28) | (1ULL << 29) | (1ULL << 30) | (1ULL << 31)))
#define GPIO_IS_VALID_GPIO(n) (((n) >= 0 && (n) < 64) && (((1ULL << ((n) & 63)) & SOC_GPIO_VALID_GPIO_MASK) != 0))
#define GPIO_IS_VALID_OUTPUT_GPIO(n) (GPIO_IS_VALID_GPIO(n) && (n) < 34)
typedef enum { GPIO_MODE_DISABLE = 0, GPIO_MODE_INPUT = 1, GPIO_MODE_OUTPUT = 2, GPIO_MODE_INPUT_OUTPUT = 3, GPIO_MODE_OUTPUT_OD = 6, GPIO_MODE_INPUT_OUTPUT_OD = 7 } gpio_mode_t;
typedef enum { GPIO_PULLUP_DISABLE = 0, GPIO_PULLUP_ENABLE = 1 } gpio_pullup_t;
typedef enum { GPIO_PULLDOWN_DISABLE = 0, GPIO_PULLDOWN_ENABLE = 1 } gpio_pulldown_t;
typedef enum { GPIO_PULLUP_ONLY, GPIO_PULLDOWN_ONLY, GPIO_PULLUP_PULLDOWN, GPIO_FLOATING } gpio_pull_mode_t;
typedef enum { GPIO_INTR_DISABLE = 0, GPIO_INTR_POSEDGE, GPIO_INTR_NEGEDGE, GPIO_INTR_ANYEDGE } gpio_int_type_t;
typedef struct
{
    uint64_t pin_bit_mask;
    gpio_mode_t mode;
    gpio_pullup_t pull_up_en;
    gpio_pulldown_t pull_down_en;
    gpio_int_type_t intr_type;
} gpio_config_t;
namespace sim
{
struct GpioState { int level = 0, mode = -1, up = -1, down = -1, intr = -1, configs = 0, writes = 0; };
inline std::array<GpioState, 64> gpio;
struct GpioEvent { char op; int pin; int value; };
inline std::vector<GpioEvent> gpioLog;
inline std::function<int(int)> readLevel;   // what reading a pin returns instead of the level it is driven to
}
inline esp_err_t gpio_set_level(gpio_num_t n, uint32_t level)
{
    SIM_STUB;
    if (int(n) < 0 || int(n) >= 64) return ESP_ERR_INVALID_ARG;
    sim::gpioLog.push_back({ 'w', int(n), int(level) });
    sim::gpio[n].level = level ? 1 : 0; ++sim::gpio[n].writes;
    return ESP_OK;
}
inline int gpio_get_level(gpio_num_t n)
{
    SIM_STUB;
    sim::gpioLog.push_back({ 'r', int(n), 0 });
    if (int(n) >= 0 && int(n) < 64 && sim::readLevel) return sim::readLevel(int(n));
    return int(n) < 0 || int(n) >= 64 ? 0 : sim::gpio[n].level;
}
inline esp_err_t gpio_config(const gpio_config_t* c)
{
    SIM_STUB;
    if (!c->pin_bit_mask || (c->pin_bit_mask & ~SOC_GPIO_VALID_GPIO_MASK)) return ESP_ERR_INVALID_ARG;
    esp_err_t e = sim::outcome("gpio_config");
    if (e != ESP_OK) return e;
    for (int i = 0; i < 64; ++i) if (c->pin_bit_mask >> i & 1)
    {
        auto &g = sim::gpio[i];
        g.mode = c->mode; g.up = c->pull_up_en; g.down = c->pull_down_en; g.intr = c->intr_type; ++g.configs;
        sim::gpioLog.push_back({ 'c', i, c->mode });
    }
    return ESP_OK;
}
inline esp_err_t gpio_set_direction(gpio_num_t n, gpio_mode_t m) { SIM_STUB; esp_err_t e = sim::outcome("gpio_set_direction"); if (e == ESP_OK) { sim::gpio[n].mode = m; ++sim::gpio[n].configs; sim::gpioLog.push_back({ 'c', int(n), m }); } return e; }
inline esp_err_t gpio_set_pull_mode(gpio_num_t n, gpio_pull_mode_t p)
{
    SIM_STUB;
    esp_err_t e = sim::outcome("gpio_set_pull_mode");
    if (e == ESP_OK) { sim::gpio[n].up = p == GPIO_PULLUP_ONLY || p == GPIO_PULLUP_PULLDOWN; sim::gpio[n].down = p == GPIO_PULLDOWN_ONLY || p == GPIO_PULLUP_PULLDOWN; }
    return e;
}
inline esp_err_t gpio_pullup_en(gpio_num_t n) { SIM_STUB; esp_err_t e = sim::outcome("gpio_pullup_en"); if (e == ESP_OK) sim::gpio[n].up = 1; return e; }
inline esp_err_t gpio_pullup_dis(gpio_num_t n) { SIM_STUB; esp_err_t e = sim::outcome("gpio_pullup_dis"); if (e == ESP_OK) sim::gpio[n].up = 0; return e; }
inline esp_err_t gpio_pulldown_en(gpio_num_t n) { SIM_STUB; esp_err_t e = sim::outcome("gpio_pulldown_en"); if (e == ESP_OK) sim::gpio[n].down = 1; return e; }
inline esp_err_t gpio_pulldown_dis(gpio_num_t n) { SIM_STUB; esp_err_t e = sim::outcome("gpio_pulldown_dis"); if (e == ESP_OK) sim::gpio[n].down = 0; return e; }
inline esp_err_t gpio_set_intr_type(gpio_num_t n, gpio_int_type_t t) { SIM_STUB; sim::gpio[n].intr = t; return ESP_OK; }
