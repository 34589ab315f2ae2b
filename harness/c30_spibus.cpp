// C30: every sequence of bus set-up, transfer and release with any driver call failing.
#include "mc.h"
#include "driver/spi_master.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "esp32-esp-idf/SpiBus.h"
#include <memory>

namespace
{
struct Driver
{
    bool anyFailed = false, refusedRelease = false;
    std::string failedCall;
    void reset()
    {
        for (auto &h : sim::spi) for (auto d : h.devices) delete d;
        sim::spi = {};
        sim::spiMisuse.clear();
        sim::fault = [this](const char* call) -> esp_err_t
        {
            const int c = mc::deviate(3, call);
            if (!c) return ESP_OK;
            anyFailed = true;
            failedCall = call;
            if (!strcmp(call, "spi_bus_remove_device") || !strcmp(call, "spi_bus_free")) refusedRelease = true;
            mc::note("%s fails", call);
            return c == 1 ? ESP_FAIL : ESP_ERR_NO_MEM;
        };
    }
};
void sequences(int busses, int n)
{
    static Driver driver;
    driver = {};
    driver.reset();
    mc::budget(mc::thorough ? 3 : 2);
    embedded::GpioPinDefinition sck { 18 }, miso { 19 }, mosi { 23 };
    std::vector<std::unique_ptr<embedded::SpiBus>> bus(busses);
    bool up[2] = {}, left[2] = {};      // model: the object holds the bus completely; the driver refused to take something back
    const int hosts[2] = { 1, 2 };
    for (int i = 0; i < busses; ++i) bus[i].reset(new embedded::SpiBus(hosts[i]));
    for (int k = 0; k < n; ++k)
    {
        const int which = busses > 1 ? mc::choose(busses, "bus") : 0;
        auto &h = sim::spi[hosts[which]];
        auto &b = bus[which];
        driver.anyFailed = driver.refusedRelease = false;
        switch (mc::choose(5, "operation"))
        {
            case 0:                     // initialise
            case 1:
            {
                const auto before = h;
                const bool half = mc::flag("duplex");
                const bool ok = b->init(sck, miso, mosi, half ? 1234567 : 40000000, half ? embedded::SpiBus::DuplexMode::Half : embedded::SpiBus::DuplexMode::Full);
                mc::note("init -> %d", int(ok));
                const bool did = h.initialized && h.devices.size() == 1 && h.inits == before.inits + 1 && h.adds == before.adds + 1;
                MC_CHECK(ok == did, "init reports %d although the driver %s", int(ok), did ? "did all of it" : "did not do all of it");
                MC_CHECK(ok || driver.anyFailed || before.initialized, "init fails although no driver call failed");
                if (ok)
                {
                    MC_CHECK(!before.initialized, "init succeeds on a bus in use");
                    MC_CHECK(h.config.mosi_io_num == 23 && h.config.miso_io_num == 19 && h.config.sclk_io_num == 18 && h.config.quadwp_io_num == -1 && h.config.quadhd_io_num == -1, "pins are configured wrongly");
                    auto d = *h.devices.begin();
                    MC_CHECK(d->config.clock_speed_hz == (half ? 1234567 : 40000000) && d->config.mode == 0 && d->config.spics_io_num == -1, "the device is configured wrongly");
                    MC_CHECK(bool(d->config.flags & SPI_DEVICE_HALFDUPLEX) == half, "duplex mode");
                    up[which] = true; left[which] = false;
                }
                else if (!before.initialized)
                {
                    MC_CHECK((!h.initialized && h.devices.empty()) || driver.refusedRelease, "a failed init leaves the bus allocated");
                    left[which] = h.initialized;
                    up[which] = false;
                }
                else MC_CHECK(h.initialized && h.devices == before.devices && h.inits == before.inits, "a refused init changes a bus in use");
                break;
            }
            case 2:                     // release
            {
                const bool ok = b->release();
                mc::note("release -> %d", int(ok));
                MC_CHECK(!ok || (!h.initialized && h.devices.empty()), "release reports success but the bus is still allocated");
                MC_CHECK(ok || driver.refusedRelease, "release reports failure although the driver did all of it");
                MC_CHECK(!(ok && driver.refusedRelease), "release reports success although the driver refused");
                up[which] = up[which] && !ok && !h.devices.empty();
                left[which] = h.initialized && !up[which];
                break;
            }
            case 3:                     // transfer
            {
                uint8_t out[3] = { 1, 2, 3 }, in[3] = {};
                const bool held = !h.devices.empty();
                const bool ok = b->transfer(out, mc::flag("read") && held && !((*h.devices.begin())->config.flags & SPI_DEVICE_HALFDUPLEX) ? in : nullptr, 3);
                mc::note("transfer -> %d", int(ok));
                MC_CHECK(!ok || held, "a transfer without a device succeeds");
                MC_CHECK(ok || !held || driver.anyFailed, "a transfer fails although the driver did not");
                break;
            }
            case 4:                     // destruction, and a new object for the same bus
            {
                b.reset();
                mc::note("destroyed");
                MC_CHECK((!h.initialized && h.devices.empty()) || driver.refusedRelease, "destruction leaves the bus allocated");
                const bool lost = h.initialized;
                if (lost)               // the driver keeps it for good: start over with fresh hardware
                {
                    for (auto d : h.devices) delete d;
                    h = {};
                }
                up[which] = left[which] = false;
                b.reset(new embedded::SpiBus(hosts[which]));
                break;
            }
        }
        mc::step();
        MC_CHECK(sim::spiMisuse.empty(), "%s", sim::spiMisuse.c_str());
        for (auto &x : sim::spi) MC_CHECK(x.adds - x.removes == int(x.devices.size()) && x.inits - x.frees == int(x.initialized), "handle bookkeeping");
        MC_CHECK(!sim::spi[0].inits, "another bus is touched");
        mc::state(mc::Hash().u(up[0]).u(up[1]).u(left[0]).u(left[1]).u(sim::spi[1].initialized).u(sim::spi[1].devices.size()).u(sim::spi[2].initialized).u(sim::spi[2].devices.size()));
    }
    // the end: with a working driver everything goes back
    sim::fault = nullptr;
    for (int i = 0; i < busses; ++i)
    {
        bus[i].reset();
        MC_CHECK(!sim::spi[hosts[i]].initialized && sim::spi[hosts[i]].devices.empty(), "destruction leaves bus %d allocated", hosts[i]);
    }
    MC_CHECK(sim::spiMisuse.empty(), "%s", sim::spiMisuse.c_str());
}
}

MC_SCENARIO(oneBus, 48, 4) { sequences(1, mc::thorough ? 6 : 5); }
MC_SCENARIO(twoBusses, 48, 4) { sequences(2, mc::thorough ? 5 : 4); }
// the driver gets what was asked for: every pin in every role, clocks, modes, and the defaults
MC_SCENARIO(configurations, 48, 2)
{
    for (auto &h : sim::spi) for (auto d : h.devices) delete d;
    sim::spi = {};
    sim::spiMisuse.clear();
    sim::fault = nullptr;
    static const uint32_t clocks[] = { 1, 1000, 99999, 100000, 4000000, 10000000, 16777216, 20000000, 26666666, 40000000, 65535, 65536, 65537, 80000000, 2147483647 };
    const int pin = mc::choose(256, "pin");
    const int host = 1 + mc::choose(2, "bus");
    const int mode = mc::choose(3, "mode");    // full, half, not given
    // another bus is up all the time
    embedded::GpioPinDefinition x { 7 }, y { 8 }, z { 9 };
    embedded::SpiBus other(3 - host);
    MC_CHECK(other.init(x, y, z, 123456, embedded::SpiBus::DuplexMode::Full), "init of the other bus");
    const auto untouched = sim::spi[3 - host].config;
    embedded::SpiBus bus(host);
    for (uint32_t clock : clocks)
        for (int role = 0; role < 3; ++role)
        {
            int p[3] = { (pin + 17) & 255, (pin + 90) & 255, (pin + 201) & 255 };
            p[role] = pin;
            embedded::GpioPinDefinition sck { uint8_t(p[0]) }, miso { uint8_t(p[1]) }, mosi { uint8_t(p[2]) };
            using M = embedded::SpiBus::DuplexMode;
            const bool ok = mode == 0 ? bus.init(sck, miso, mosi, clock, M::Full) : mode == 1 ? bus.init(sck, miso, mosi, clock, M::Half) : clock == 1 ? bus.init(sck, miso, mosi) : bus.init(sck, miso, mosi, clock);
            mc::step();
            mc::note("init with pins %d %d %d, %u Hz, mode %d -> %d", p[0], p[1], p[2], clock, mode, int(ok));
            MC_CHECK(ok, "init fails although no driver call failed");
            auto &h = sim::spi[host];
            MC_CHECK(h.initialized && h.devices.size() == 1, "the bus is not up");
            MC_CHECK(h.config.sclk_io_num == p[0] && h.config.miso_io_num == p[1] && h.config.mosi_io_num == p[2], "pins %d %d %d instead of %d %d %d", h.config.sclk_io_num, h.config.miso_io_num, h.config.mosi_io_num, p[0], p[1], p[2]);
            auto &d = (*h.devices.begin())->config;
            const int hz = mode == 2 && clock == 1 ? 4000000 : int(clock);
            MC_CHECK(int(d.clock_speed_hz) == hz, "the clock is %d instead of %d Hz", int(d.clock_speed_hz), hz);
            MC_CHECK(d.mode == 0 && d.spics_io_num == -1, "mode %d, chip select %d", int(d.mode), int(d.spics_io_num));
            MC_CHECK(bool(d.flags & SPI_DEVICE_HALFDUPLEX) == (mode != 0), "duplex mode");
            MC_CHECK(sim::spi[3 - host].config.sclk_io_num == untouched.sclk_io_num && sim::spi[3 - host].devices.size() == 1 && sim::spi[3 - host].inits == 1, "the other bus is touched");
            uint8_t out[2] = { 1, 2 }, in[2];
            MC_CHECK(bus.transfer(out, mode == 0 ? in : nullptr, 2), "transfer fails");
            MC_CHECK(bus.release(), "release fails");
            MC_CHECK(!h.initialized && h.devices.empty(), "the bus is still allocated");
            MC_CHECK(sim::spiMisuse.empty(), "%s", sim::spiMisuse.c_str());
        }
    mc::state(mc::Hash().u(pin).u(host).u(mode));
}
// a bus set up, used and released over and over
MC_SCENARIO(longUse, 8, 1)
{
    for (auto &h : sim::spi) for (auto d : h.devices) delete d;
    sim::spi = {};
    sim::spiMisuse.clear();
    int calls = 0;
    const int failEvery = mc::choose(4, "failures") * 3;
    const char* const failing[] = { "", "spi_bus_initialize", "spi_bus_add_device", "spi_device_polling_transmit" };
    const char* const which = mc::pick(failing, "failing call");
    sim::fault = [&](const char* call) -> esp_err_t { return failEvery && !strcmp(call, which) && calls++ % failEvery == 0 ? ESP_FAIL : ESP_OK; };
    embedded::GpioPinDefinition sck { 18 }, miso { 19 }, mosi { 23 };
    embedded::SpiBus bus(1);
    auto &h = sim::spi[1];
    for (int i = 0; i < 70000; ++i)
    {
        const int inits = h.inits, adds = h.adds;
        const bool ok = bus.init(sck, miso, mosi);
        MC_CHECK(ok == (h.initialized && h.devices.size() == 1 && h.inits == inits + 1 && h.adds == adds + 1), "set-up %d reports %d", i, int(ok));
        MC_CHECK(ok || *which, "set-up %d fails", i);
        uint8_t out[2] = { 1, 2 };
        const bool sent = bus.transfer(out, nullptr, 2);
        MC_CHECK(sent == ok || !strcmp(which, "spi_device_polling_transmit"), "transfer %d reports %d", i, int(sent));
        const bool done = bus.release();
        MC_CHECK(done && !h.initialized && h.devices.empty(), "release %d leaves the bus allocated", i);
        MC_CHECK(sim::spiMisuse.empty(), "%s", sim::spiMisuse.c_str());
        h.transfers.clear(); h.mosi.clear();
        mc::step();
    }
    sim::fault = nullptr;
    mc::state(mc::Hash().u(failEvery).str(which));
}
