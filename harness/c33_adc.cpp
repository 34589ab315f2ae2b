// C33: analog reads in every order, with every driver call failing.
#include "mc.h"
#ifdef PLAT_ARDUINO
#include <Arduino.h>
#include "arduino/GpioPinDefinition.h"
#else
#include <esp_adc/adc_oneshot.h>
#include <soc/adc_periph.h>
#include "esp32-esp-idf/GpioPinDefinition.h"
#endif
#include "AnalogPin.h"

namespace
{
struct Board
{
    int reading = 0;        // number of readings so far: every one has another value
    static int value(int unit, int channel, int reading) { return (unit * 1777 + channel * 391 + reading * 61 + 5) & 4095; }
#ifdef PLAT_ARDUINO
    Board() { sim::pinLog.clear(); sim::analogLevel.fill(0); }
    void read(embedded::GpioPinDefinition &def, int)
    {
        const int n = def.pin;
        for (int i = 0; i < 256; ++i) sim::analogLevel[i] = value(i >> 4, i & 15, reading);
        ++reading;
        const size_t before = sim::pinLog.size();
        const int r = embedded::AnalogPin(def).singleRead();
        mc::step();
        mc::note("pin %d -> %d", n, r);
        MC_CHECK(r == sim::analogLevel[n], "pin %d reads %d instead of %d", n, r, sim::analogLevel[n]);
        for (size_t i = before; i < sim::pinLog.size(); ++i) MC_CHECK(sim::pinLog[i].op == 'a' && sim::pinLog[i].pin == n, "pin %d is touched", sim::pinLog[i].pin);
    }
#else
    bool failed = false, releaseFailed = false;
    Board()
    {
        for (auto &u : sim::adcUnit) { delete u; u = nullptr; }
        sim::adcMisuse.clear(); sim::adcReads.clear();
        sim::adcNews = sim::adcDels = 0;
        sim::adcValue = [this](int u, int c) { return value(u, c, reading++); };
        sim::fault = [this](const char* call) -> esp_err_t
        {
            static const esp_err_t errors[] = { ESP_OK, ESP_ERR_TIMEOUT, ESP_FAIL, ESP_ERR_NO_MEM, ESP_ERR_INVALID_ARG };
            const int e = mc::deviate(5, call);
            if (e) { mc::note("%s fails", call); (strcmp(call, "adc_oneshot_del_unit") ? failed : releaseFailed) = true; }
            return errors[e];
        };
    }
    ~Board() { sim::fault = nullptr; sim::adcValue = [](int, int) { return 0; }; }
    // foreign: a unit another part of the program holds
    void read(embedded::GpioPinDefinition &def, int foreign)
    {
        const int n = def.pin;
        int unit = -1, channel = -1;
        for (int u = 0; u < SOC_ADC_PERIPH_NUM; ++u)
            for (int c = 0; c < SOC_ADC_MAX_CHANNEL_NUM; ++c) if (adc_channel_io_map[u][c] == n) { unit = u; channel = c; }
        failed = releaseFailed = false;
        sim::adcReads.clear();
        const int news = sim::adcNews, dels = sim::adcDels, first = reading;
        const int r = embedded::AnalogPin(def).singleRead();
        mc::step();
        mc::note("pin %d -> %d", n, r);
        MC_CHECK(sim::adcMisuse.empty(), "%s", sim::adcMisuse.c_str());
        MC_CHECK(sim::adcNews - news == sim::adcDels - dels, "%d units taken, %d released", sim::adcNews - news, sim::adcDels - dels);
        for (int u = 0; u < 2; ++u) MC_CHECK(u == foreign || !sim::adcUnit[u], "unit %d is left in use after reading pin %d", u, n);
        if (unit < 0) { MC_CHECK(r == -1, "pin %d has no channel but reads %d", n, r); MC_CHECK(sim::adcReads.empty(), "pin %d has no channel but a channel is read", n); }
        else if (failed || unit == foreign) MC_CHECK(r == -1, "pin %d reads %d although the driver failed", n, r);
        else if (releaseFailed && r == -1) {}
        else
        {
            MC_CHECK(reading > first && !sim::adcReads.empty(), "pin %d is not read", n);
            MC_CHECK(sim::adcReads.back().unit == unit && sim::adcReads.back().channel == channel, "pin %d reads unit %d channel %d instead of %d %d", n, sim::adcReads.back().unit, sim::adcReads.back().channel, unit, channel);
            const auto &config = sim::adcReads.back().config;
            MC_CHECK(config.atten == ADC_ATTEN_DB_12, "pin %d is read with attenuation %d: not the whole input range", n, int(config.atten));
            MC_CHECK(config.bitwidth == ADC_BITWIDTH_12 || config.bitwidth == ADC_BITWIDTH_DEFAULT, "pin %d is read with %d bits", n, int(config.bitwidth));
            MC_CHECK(r == value(unit, channel, reading - 1), "pin %d reads %d instead of %d", n, r, value(unit, channel, reading - 1));
        }
    }
#endif
};
}

// every pin, twice, then the next
MC_SCENARIO(everyPin, 4, 1)
{
    const int order = mc::choose(4, "order");
    Board b;
    for (int i = 0; i < 256; ++i)
    {
        const int pin = order & 1 ? 255 - i : i;
        embedded::GpioPinDefinition def { uint8_t(pin) };
        b.read(def, -1);
        if (order & 2) b.read(def, -1);
        mc::state(mc::Hash().u(pin));
    }
}
MC_SCENARIO(histories, 48, 2)
{
    mc::budget(mc::thorough ? 3 : 2);
    Board b;
    static const int numbers[] = { 36, 39, 35, 4, 0, 26, 5, 255 };
    const int n = mc::thorough ? 4 : 3;
    mc::Hash h;
    for (int k = 0; k < n; ++k)
    {
        embedded::GpioPinDefinition def { uint8_t(mc::pick(numbers, "pin")) };
        b.read(def, -1);
        h.u(def.pin);
    }
    mc::state(h);
    // whatever happened before: with a working driver every pin can be read
    mc::budget(0);
    for (int i : numbers) { embedded::GpioPinDefinition def { uint8_t(i) }; b.read(def, -1); }
}
// few pins, long histories, with one failure at any place
MC_SCENARIO(deep, 48, 3)
{
    mc::budget(1);
    Board b;
    static const int numbers[] = { 36, 39, 4, 255 };
    mc::Hash h;
    for (int k = 0; k < (mc::thorough ? 7 : 6); ++k)
    {
        embedded::GpioPinDefinition def { uint8_t(mc::pick(numbers, "pin")) };
        b.read(def, -1);
        h.u(def.pin);
    }
    mc::state(h);
}
// every single call of a read failing, for every pin with a channel
MC_SCENARIO(failures, 32, 1)
{
    const int pin = mc::choose(41, "pin");
    mc::budget(mc::thorough ? 4 : 3);
    Board b;
    embedded::GpioPinDefinition def { uint8_t(pin) };
    for (int k = 0; k < 3; ++k) b.read(def, -1);
    mc::state(mc::Hash().u(pin));
}
#ifndef PLAT_ARDUINO
// a unit another part of the program holds: -1, and the unit stays its
MC_SCENARIO(foreignUnit, 4, 1)
{
    const int foreign = mc::choose(2, "unit");
    Board b;
    adc_oneshot_unit_handle_t handle;
    adc_oneshot_unit_init_cfg_t cfg = { adc_unit_t(foreign), ADC_RTC_CLK_SRC_DEFAULT, ADC_ULP_MODE_DISABLE };
    MC_CHECK(adc_oneshot_new_unit(&cfg, &handle) == ESP_OK, "harness error: unit");
    for (int pin = 0; pin < 41; ++pin)
    {
        embedded::GpioPinDefinition def { uint8_t(pin) };
        b.read(def, foreign);
        MC_CHECK(sim::adcUnit[foreign] == handle, "the other holder's unit is released");
    }
    MC_CHECK(adc_oneshot_del_unit(handle) == ESP_OK, "harness error: release");
    for (int pin = 0; pin < 41; ++pin) { embedded::GpioPinDefinition def { uint8_t(pin) }; b.read(def, -1); }
    mc::state(mc::Hash().u(foreign));
}
#endif
// pins read for a long time
MC_SCENARIO(longUse, 4, 1)
{
    static const int numbers[][2] = { { 36, 36 }, { 4, 4 }, { 36, 4 }, { 39, 5 } };
    auto &n = mc::pick(numbers, "pins");
    Board b;
    embedded::GpioPinDefinition one { uint8_t(n[0]) }, two { uint8_t(n[1]) };
    for (int i = 0; i < 70000; ++i)
    {
        b.read(i & 1 ? two : one, -1);
#ifdef PLAT_ARDUINO
        if (i % 100 == 99) sim::pinLog.clear();
#endif
    }
    mc::state(mc::Hash().u(n[0]).u(n[1]));
}
