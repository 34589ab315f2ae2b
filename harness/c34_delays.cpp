// C34: delays, sleeps and tick functions in virtual time.
#include "mc.h"
#ifdef PLAT_ARDUINO
#include <Arduino.h>
#include "Delays.h"
#else
#include <esp_timer.h>
#include <esp_sleep.h>
#include <freertos/FreeRTOS.h>
#include <freertos/task.h>
#include "esp32-esp-idf/SleepFunctions.h"
#endif

namespace
{
constexpr uint64_t kMs = 1000, k32 = 1ull << 32;
// positions of the counters when a wait begins: 0, around the wraps of 31 and 32 bit microseconds and milliseconds
// (never before the boot: the counters are not negative)
uint64_t start(int i, uint64_t waitUs)
{
    auto before = [](uint64_t wrap, uint64_t us) { return wrap > us ? wrap - us : 0; };
    switch (i)
    {
        case 0: return 0;
        case 1: return 12345678;
        case 2: return before(k32, waitUs / 2);
        case 3: return before(k32 / 2, waitUs / 2);
        case 4: return before(k32 * kMs, waitUs / 2);
        case 5: return before(k32 * kMs / 2, waitUs / 2);
        case 6: return k32 * kMs - 1;
        case 7: return before(k32 * kMs, waitUs + 1);
        case 8: return k32 * kMs * 3 + 777;
        default: return k32 - 1;
    }
}
constexpr int kStarts = 10;

struct Clock
{
    int readings = 0;               // clock readings since the last mark
    uint64_t work = 0;              // virtual time the calls themselves took
    explicit Clock(uint64_t boot)
    {
        sim::nowUs = 0;
        sim::bootUs = boot;
        sim::pollCostUs = 1;
        sim::horizonUs = ~0ull;
        sim::onHorizon = nullptr;
        sim::tick = nullptr;
#ifndef PLAT_ARDUINO
        sim::clockCost = nullptr;
        sim::fault = nullptr;
        sim::lightSleep = nullptr;
        sim::deepSleep = nullptr;
        sim::armed.clear();
        sim::wakeupUs = 0; sim::wakeupArmed = 0;
#endif
    }
    ~Clock()
    {
        sim::horizonUs = ~0ull; sim::onHorizon = nullptr; sim::tick = nullptr;
#ifndef PLAT_ARDUINO
        sim::clockCost = nullptr; sim::lightSleep = nullptr; sim::deepSleep = nullptr;
#endif
    }
    void horizon(uint64_t us, const char* what)
    {
        sim::horizonUs = us;
        sim::onHorizon = [what] { mc::fail("%s: does not end in time", what); };
    }
};
const uint32_t kDelays[] = { 0, 1, 2, 9, 10, 99, 999, 1000, 1001, 65535, 65536, 1000000, 2147483647u, 2147483648u, 4294967294u, 4294967295u };
const uint32_t kMillis[] = { 0, 1, 2, 9, 10, 11, 19, 99, 1000, 65535, 65536, 2147483, 2147484, 4294967, 4294968, 42949672, 42949673, 429496729, 429496730, 2000000000u };
}

MC_SCENARIO(microseconds, 48, 2)
{
    const uint32_t us = mc::pick(kDelays, "delay");
    const uint64_t boot = start(mc::choose(kStarts, "start"), us);
    Clock c(boot);
#ifdef PLAT_ARDUINO
    const uint64_t slack = 2;
#else
    // the time between two readings of the clock: a fixed pace, with longer interruptions anywhere
    static const uint64_t paces[] = { 1, 3, 1000 };
    const uint64_t pace = std::max<uint64_t>(mc::pick(paces, "pace"), us / 40);
    mc::budget(mc::thorough ? 3 : 2);
    uint64_t longest = pace;
    int late = 0;
    sim::clockCost = [&]() -> uint64_t
    {
        if (sim::nowUs > uint64_t(us) + 2 + longest * 3 && ++late > 8) mc::fail("delayMicroseconds(%u) goes on after %llu us", us, (unsigned long long)sim::nowUs);
        static const int kinds = 4;
        switch (mc::deviate(kinds, "time passes"))
        {
            case 1: return 0;
            case 2: longest = std::max<uint64_t>(longest, pace * 7 + 5); return pace * 7 + 5;
            case 3: longest = std::max<uint64_t>(longest, us / 2 + 1); return us / 2 + 1;
            default: return pace;
        }
    };
#endif
    c.horizon(uint64_t(us) * 3 + 200000, "delayMicroseconds");
    embedded::delayMicroseconds(us);
    mc::step();
    mc::note("delayMicroseconds(%u) at %llu: %llu", us, (unsigned long long)boot, (unsigned long long)sim::nowUs);
    MC_CHECK(sim::nowUs >= us, "delayMicroseconds(%u) returns after %llu us", us, (unsigned long long)sim::nowUs);
#ifdef PLAT_ARDUINO
    MC_CHECK(sim::nowUs <= uint64_t(us) + slack, "delayMicroseconds(%u) returns after %llu us only", us, (unsigned long long)sim::nowUs);
#else
    MC_CHECK(sim::nowUs <= uint64_t(us) + 1 + longest * 6 + 8, "delayMicroseconds(%u) returns after %llu us only", us, (unsigned long long)sim::nowUs);
#endif
    mc::state(mc::Hash().u(us).u(sim::nowUs - us));
}
MC_SCENARIO(milliseconds, 16, 1)
{
    static const uint32_t longer[] = { 2147483647u, 2147483648u, 4294967285u, 4294967294u, 4294967295u };
    const size_t kind = size_t(mc::choose(int(std::size(kMillis) + std::size(longer)), "delay"));
    const uint32_t ms = kind < std::size(kMillis) ? kMillis[kind] : longer[kind - std::size(kMillis)];
    const uint64_t boot = start(mc::choose(kStarts, "start"), ms * kMs);
    Clock c(boot);
    embedded::delay(ms);
    mc::step();
#ifdef PLAT_ARDUINO
    const uint64_t early = 0;
#else
    const uint64_t early = portTICK_PERIOD_MS * kMs - 1;    // delays are counted in whole ticks of the scheduler
#endif
    MC_CHECK(sim::nowUs + early >= ms * kMs, "delay(%u) returns after %llu us", ms, (unsigned long long)sim::nowUs);
    MC_CHECK(sim::nowUs <= ms * kMs + early + 10, "delay(%u) returns after %llu us only", ms, (unsigned long long)sim::nowUs);
    mc::state(mc::Hash().u(ms));
}
// the tick functions, at and around every wrap and power of two
MC_SCENARIO(ticks, 48, 1)
{
    const int bit = mc::choose(62, "power");
    for (int d = -2100; d <= 2100; ++d)
        for (int unit = 0; unit < 2; ++unit)
        {
            const uint64_t base = (1ull << bit) * (unit && bit < 52 ? kMs : 1);
            if (d < 0 && base < uint64_t(-d) + 10) continue;
            const uint64_t t = base + d;
            Clock c(t);
            sim::pollCostUs = 0;
            const uint32_t ms = embedded::getMillisecondTicks();
            MC_CHECK(ms ==  uint32_t(t / 1000), "millisecond ticks at %llu us: %u", (unsigned long long)t, ms);
            const uint64_t us = embedded::getMicrosecondTicks();
#ifdef PLAT_ARDUINO
            MC_CHECK(uint32_t(us) == uint32_t(t), "microsecond ticks at %llu us: %llu", (unsigned long long)t, (unsigned long long)us);
#else
            MC_CHECK(us == t, "microsecond ticks at %llu us: %llu", (unsigned long long)t, (unsigned long long)us);
#endif
            mc::step(2);
        }
    mc::state(mc::Hash().u(bit));
}
#ifndef PLAT_ARDUINO
MC_SCENARIO(lightSleeps, 48, 3)
{
    const uint32_t ms = mc::pick(kMillis, "duration");
    const uint64_t boot = start(mc::choose(kStarts, "start"), ms * kMs);
    static const uint64_t offsets[] = { 0, 1, 999 };
    Clock c(boot + mc::pick(offsets, "offset"));
    mc::budget(mc::thorough ? 4 : 3);
    const uint64_t wanted = ms * kMs;
    uint64_t overheads = 0;                 // time other than waiting
    int callsAfter = 0, waits = 0;
    // an implementation may sleep in many short pieces: deviations at the first events, and at some of the others
    unsigned events = 0;
    auto deviation = [&](int n, const char* what) { ++events; return events <= 12 || ((events & (events - 1)) == 0 && (events & 0x55555555u)) ? mc::deviate(n, what) : 0; };
    auto after = [&](const char* what)
    {
        if (sim::nowUs >= wanted + kMs + overheads + 1000 && ++callsAfter > 12) mc::fail("ligntSleep(%u) goes on (%s) after %llu us", ms, what, (unsigned long long)sim::nowUs);
    };
    sim::clockCost = [&]() -> uint64_t
    {
        after("clock");
        static const uint64_t costs[] = { 1, 0, 400, 1000, 5300, 3000000 };
        const uint64_t r = costs[deviation(6, "time passes at a clock reading")];
        overheads += r;
        return r;
    };
    sim::lightSleep = [&](uint64_t armed) -> esp_err_t
    {
        after("sleep");
        MC_CHECK(sim::wakeupArmed > 0, "a light sleep without a wake-up time");
        MC_CHECK(sim::nowUs < wanted + kMs + overheads + 1000, "a light sleep after the end of the requested time");
        MC_CHECK(sim::nowUs + armed <= wanted + kMs + overheads + 1000, "a light sleep of %llu us at %llu us of %llu", (unsigned long long)armed, (unsigned long long)sim::nowUs, (unsigned long long)wanted);
        ++waits;
        switch (deviation(8, "light sleep"))
        {
            case 1: sim::advance(1); mc::note("wakes at once"); return ESP_OK;
            case 2: sim::advance(armed / 2); mc::note("wakes half way"); return ESP_OK;
            case 3: sim::advance(armed > 1 ? armed - 1 : 0); mc::note("wakes 1 us early"); return ESP_OK;
            case 4: sim::advance(armed > 1500 ? armed - 1500 : 0); mc::note("wakes 1.5 ms early"); return ESP_OK;
            case 5: sim::advance(3); mc::note("sleep fails"); overheads += 3; return ESP_FAIL;
            case 6: { const uint64_t t = std::min<uint64_t>(armed, 2500); sim::advance(t); mc::note("sleep fails after a while"); return ESP_ERR_INVALID_STATE; }
            case 7: sim::advance(armed + 7000); overheads += 7000; mc::note("wakes late"); return ESP_OK;
            default: sim::advance(armed); return ESP_OK;
        }
    };
    sim::horizonUs = wanted * 2 + 60000000ull;
    sim::onHorizon = [&] { mc::fail("ligntSleep(%u) does not end", ms); };
    embedded::ligntSleep(ms);
    mc::step();
    mc::note("ligntSleep(%u): %llu us, %d sleeps", ms, (unsigned long long)sim::nowUs, waits);
    // milliseconds are the granularity of the clock it uses
    MC_CHECK(sim::nowUs + kMs > wanted || ms == 0, "ligntSleep(%u) returns after %llu us", ms, (unsigned long long)sim::nowUs);
    MC_CHECK(sim::nowUs <= wanted + kMs + overheads + 1000, "ligntSleep(%u) returns after %llu us only (%llu us of them unavoidable)", ms, (unsigned long long)sim::nowUs, (unsigned long long)overheads);
    mc::state(mc::Hash().u(ms).u(waits).u(sim::nowUs));
}
// no sleep at all: every one fails
MC_SCENARIO(sleepNeverWorks, 16, 1)
{
    const uint32_t ms = mc::pick(kMillis, "duration");
    const uint64_t boot = start(mc::choose(kStarts, "start"), ms * kMs);
    Clock c(boot);
    sim::pollCostUs = 20;
    const uint64_t wanted = ms * kMs;
    sim::lightSleep = [&](uint64_t) -> esp_err_t { sim::advance(5); return ESP_FAIL; };
    sim::horizonUs = wanted + 100000;
    sim::onHorizon = [&] { mc::fail("ligntSleep(%u) does not end", ms); };
    embedded::ligntSleep(ms);
    mc::step();
    MC_CHECK(sim::nowUs + kMs > wanted || ms == 0, "ligntSleep(%u) returns after %llu us", ms, (unsigned long long)sim::nowUs);
    MC_CHECK(sim::nowUs <= wanted + 2 * kMs, "ligntSleep(%u) returns after %llu us only", ms, (unsigned long long)sim::nowUs);
    mc::state(mc::Hash().u(ms));
}
MC_SCENARIO(deepSleeps, 48, 1)
{
    struct Asleep { uint64_t us; int armed; };
    const int block = mc::choose(48, "block");
    const uint64_t boot = start(block % kStarts, 5000);
    for (uint64_t d = 0; d <= 4000; ++d)
    {
        // around every power of two, and around those of the microseconds
        uint64_t v = block < 32 ? (1ull << block) + d - 2000 : (k32 >> (block - 32)) / 1000 + d - 2000;
        if (v > 0xFFFFFFFFull) continue;
        const uint32_t ms = uint32_t(v);
        Clock c(boot);
        sim::wakeupUs = 424242;
        sim::deepSleep = [](uint64_t us) { throw Asleep { us, sim::wakeupArmed }; };
        try { embedded::deepSleep(ms); mc::fail("deepSleep(%u) does not sleep", ms); }
        catch (const Asleep &a) { MC_CHECK(a.armed > 0 && a.us == ms * 1000ull, "deepSleep(%u) sleeps for %llu us (armed %d times)", ms, (unsigned long long)a.us, a.armed); }
        mc::step();
    }
    mc::state(mc::Hash().u(block));
}
#endif
