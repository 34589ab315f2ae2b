#pragma once
#include "sim_esp.h"
#include "soc/adc_periph.h"
typedef enum { ADC_UNIT_1 = 0, ADC_UNIT_2 = 1 } adc_unit_t;
typedef enum { ADC_CHANNEL_0, ADC_CHANNEL_1, ADC_CHANNEL_2, ADC_CHANNEL_3, ADC_CHANNEL_4, ADC_CHANNEL_5, ADC_CHANNEL_6, ADC_CHANNEL_7, ADC_CHANNEL_8, ADC_CHANNEL_9 } adc_channel_t;
typedef enum { ADC_ATTEN_DB_0 = 0, ADC_ATTEN_DB_2_5 = 1, ADC_ATTEN_DB_6 = 2, ADC_ATTEN_DB_11 = 3, ADC_ATTEN_DB_12 = 3 } adc_atten_t;
typedef enum { ADC_BITWIDTH_DEFAULT = 0, ADC_BITWIDTH_9 = 9, ADC_BITWIDTH_10 = 10, ADC_BITWIDTH_11 = 11, ADC_BITWIDTH_12 = 12 } adc_bitwidth_t;
typedef enum { ADC_RTC_CLK_SRC_DEFAULT = 8 } adc_oneshot_clk_src_t;
typedef enum { ADC_ULP_MODE_DISABLE = 0, ADC_ULP_MODE_FSM = 1 } adc_ulp_mode_t;
typedef struct { adc_unit_t unit_id; adc_oneshot_clk_src_t clk_src; adc_ulp_mode_t ulp_mode; } adc_oneshot_unit_init_cfg_t;
typedef struct { adc_atten_t atten; adc_bitwidth_t bitwidth; } adc_oneshot_chan_cfg_t;
struct adc_oneshot_unit_ctx_t { int unit; std::array<int, 10> configured {}; std::array<adc_oneshot_chan_cfg_t, 10> config {}; };
typedef adc_oneshot_unit_ctx_t* adc_oneshot_unit_handle_t;
namespace sim
{
inline std::array<adc_oneshot_unit_ctx_t*, 2> adcUnit {};      // claimed units
inline std::string adcMisuse;
inline int adcNews = 0, adcDels = 0;
struct AdcRead { int unit, channel; adc_oneshot_chan_cfg_t config; };
inline std::vector<AdcRead> adcReads;
inline std::function<int(int unit, int channel)> adcValue = [](int u, int c) { SIM_STUB; return u * 100 + c + 1; };
inline void adcWrong(const char* what) { SIM_STUB; if (adcMisuse.empty()) adcMisuse = what; }
inline bool adcOwned(adc_oneshot_unit_handle_t h)
{
    SIM_STUB;
    for (auto u : adcUnit) if (u && u == h) return true;
    adcWrong("use of a converter unit that is not held");
    return false;
}
}
inline esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* c, adc_oneshot_unit_handle_t* out)
{
    SIM_STUB;
    if (int(c->unit_id) < 0 || int(c->unit_id) > 1) return ESP_ERR_INVALID_ARG;
    if (sim::adcUnit[c->unit_id]) return ESP_ERR_NOT_FOUND;    // the driver reports a unit in use so
    esp_err_t e = sim::outcome("adc_oneshot_new_unit");
    if (e != ESP_OK) return e;
    auto u = new adc_oneshot_unit_ctx_t { int(c->unit_id), {}, {} };
    sim::adcUnit[c->unit_id] = u; ++sim::adcNews;
    *out = u;
    return ESP_OK;
}
inline esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t ch, const adc_oneshot_chan_cfg_t* c)
{
    SIM_STUB;
    if (!sim::adcOwned(h)) return ESP_ERR_INVALID_ARG;
    if (int(ch) < 0 || int(ch) >= 10) return ESP_ERR_INVALID_ARG;
    esp_err_t e = sim::outcome("adc_oneshot_config_channel");
    if (e == ESP_OK) { h->configured[ch] = 1; h->config[ch] = *c; }
    return e;
}
inline esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t ch, int* out)
{
    SIM_STUB;
    if (!sim::adcOwned(h)) return ESP_ERR_INVALID_ARG;
    if (int(ch) < 0 || int(ch) >= 10) return ESP_ERR_INVALID_ARG;
    if (!h->configured[ch]) sim::adcWrong("read of a channel that is not configured");
    esp_err_t e = sim::outcome("adc_oneshot_read");
    if (e != ESP_OK) { if (e == ESP_ERR_TIMEOUT) *out = 77; return e; }
    sim::adcReads.push_back({ h->unit, ch, h->config[ch] });
    *out = sim::adcValue(h->unit, ch);
    return ESP_OK;
}
inline esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h)
{
    SIM_STUB;
    if (!sim::adcOwned(h)) return ESP_ERR_INVALID_ARG;
    sim::adcUnit[h->unit] = nullptr; ++sim::adcDels;
    delete h;
    return sim::outcome("adc_oneshot_del_unit");
}
