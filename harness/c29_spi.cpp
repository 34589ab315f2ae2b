// C29: SPI transfers on both platforms, byte by byte.
#include "mc.h"
#ifdef PLAT_ARDUINO
#include "arduino/SpiBus.h"
#else
#include "driver/spi_master.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "esp32-esp-idf/SpiBus.h"
#endif
#include "SpiDevice.h"
#include <memory>

namespace
{
using Bytes = std::vector<uint8_t>;
enum Mode { kSend, kReceive, kBoth };
const char* const kModes[] = { "sendSync", "receiveSync", "sendAndReceive" };

uint8_t miso(size_t i) { return uint8_t(i * 37 + (i >> 8) * 11 + 5); }
uint8_t mosi(size_t i) { return uint8_t(i * 101 + (i >> 8) * 3 + 9); }

struct Bench
{
#ifdef PLAT_ARDUINO
    embedded::SpiBus bus { SPI };
    sim::Spi &line() { return sim::spi[0]; }
#else
    embedded::SpiBus bus { 1 };
    embedded::GpioPinDefinition sck { 18 }, in { 19 }, out { 23 };
    sim::SpiHost &line() { return sim::spi[1]; }
    int polls = 0, failAt = -1;
#endif
    embedded::SpiDevice device { bus };
    size_t sent = 0, received = 0;      // so far
    bool full;
    bool inPlace = false;               // one buffer for both directions
    size_t txOffset = 0, rxOffset = 0;  // of the buffers from an aligned address
    void offsets() { txOffset = size_t(mc::choose(4, "offset of the data sent")); rxOffset = size_t(mc::choose(4, "offset of the data received")); }
    explicit Bench(bool full) : full(full)
    {
#ifdef PLAT_ARDUINO
        sim::spi = {};
        sim::spi[0].miso = miso;
        (void)full;
#else
        for (auto &h : sim::spi) for (auto d : h.devices) delete d;
        sim::spi = {};
        sim::spiMisuse.clear();
        sim::spiMiso = miso;
        sim::fault = nullptr;
        MC_CHECK(bus.init(sck, in, out, 1000000, full ? embedded::SpiBus::DuplexMode::Full : embedded::SpiBus::DuplexMode::Half), "initialisation of the bus failed");
        sim::fault = [this](const char* call) -> esp_err_t
        {
            if (strcmp(call, "spi_device_polling_transmit")) return ESP_OK;
            MC_CHECK(failAt < 0 || polls <= failAt, "the transfer goes on after a failed chunk");
            return polls++ == failAt ? ESP_ERR_TIMEOUT : ESP_OK;
        };
#endif
    }
    ~Bench()
    {
#ifndef PLAT_ARDUINO
        sim::fault = nullptr;
#endif
    }
    // one call; fails: the number of the chunk the driver refuses
    void call(Mode mode, size_t n, int fails = -1)
    {
        std::unique_ptr<uint8_t[]> txMemory(new uint8_t[txOffset + n]), rxMemory(new uint8_t[rxOffset + n]);
        memset(rxMemory.get(), 0xEE, rxOffset);
        uint8_t* const tx = txMemory.get() + txOffset;
        uint8_t* const rx = inPlace && mode == kBoth ? tx : rxMemory.get() + rxOffset;
        for (size_t i = 0; i < n; ++i) { rx[i] = 0xEE; tx[i] = mosi(sent + i); }
        const Bytes given(tx, tx + n);
#ifndef PLAT_ARDUINO
        polls = 0; failAt = fails;
        line().transfers.clear();
#endif
        const size_t wire = line().mosi.size();
#ifdef PLAT_ARDUINO
        const size_t clocked = line().clocked;
        const int begun = line().begun;
#else
        const size_t clocked = line().clockedIn;
#endif
        const bool ok = mode == kSend ? device.sendSync(tx, uint16_t(n)) : mode == kReceive ? device.receiveSync(rx, uint16_t(n)) : device.sendAndReceive(tx, rx, uint16_t(n));
        mc::step();
        mc::note("%s(%zu bytes) -> %d", kModes[mode], n, int(ok));
        MC_CHECK(rx == tx || std::equal(given.begin(), given.end(), tx), "%s(%zu) changes the bytes to send", kModes[mode], n);
        bool failed = false;
#ifdef PLAT_ARDUINO
        MC_CHECK(line().open == 0 && line().begun == line().ended && line().outside == 0, "%s(%zu): transactions begun %d, ended %d, transfers outside %d", kModes[mode], n, line().begun, line().ended, line().outside);
        MC_CHECK(n == 0 || line().begun > begun, "%s(%zu): no transaction", kModes[mode], n);
        MC_CHECK(line().clocked - clocked == n, "%s(%zu): %zu bytes are clocked", kModes[mode], n, line().clocked - clocked);
        const size_t done = n;
#else
        failed = fails >= 0 && polls > fails;
        MC_CHECK(sim::spiMisuse.empty(), "%s(%zu): %s", kModes[mode], n, sim::spiMisuse.c_str());
        size_t txn = 0, rxn = 0;
        for (auto &t : line().transfers) { txn += t.txBytes; rxn += t.rxBytes; }
        const size_t done = mode == kReceive ? rxn : txn;
        MC_CHECK(mode != kBoth || txn == rxn, "%s(%zu): %zu bytes sent, %zu received", kModes[mode], n, txn, rxn);
        MC_CHECK(mode != kSend || rxn == 0, "%s(%zu): %zu bytes received", kModes[mode], n, rxn);
        MC_CHECK(mode != kReceive || txn == 0, "%s(%zu): %zu bytes sent", kModes[mode], n, txn);
        MC_CHECK(failed ? done < n : done == n, "%s(%zu): %zu bytes transferred", kModes[mode], n, done);
        MC_CHECK(clocked + rxn == line().clockedIn && line().mosi.size() == wire + txn, "%s(%zu): wire", kModes[mode], n);
#endif
        MC_CHECK(ok == !failed, "%s(%zu) reports %d although the driver %s", kModes[mode], n, int(ok), failed ? "failed" : "did all of it");
        if (mode != kReceive)
        {
            MC_CHECK(line().mosi.size() == wire + done, "%s(%zu): %zu bytes on the wire", kModes[mode], n, line().mosi.size() - wire);
            for (size_t i = 0; i < done; ++i) MC_CHECK(line().mosi[wire + i] == given[i], "%s(%zu): byte %zu on the wire is %02X instead of %02X", kModes[mode], n, i, line().mosi[wire + i], given[i]);
        }
        for (size_t i = 0; i < rxOffset; ++i) MC_CHECK(rxMemory[i] == 0xEE, "%s(%zu) writes before the buffer", kModes[mode], n);
        if (mode != kSend)
            for (size_t i = 0; i < n; ++i)
            {
                if (i < done) MC_CHECK(rx[i] == miso(clocked + i), "%s(%zu): byte %zu is %02X instead of %02X", kModes[mode], n, i, rx[i], miso(clocked + i));
                else if (!failed) MC_CHECK(false, "unreachable");
            }
        sent += n;
        mc::state(mc::Hash().u(mode).u(n).u(done).u(fails + 1).u(txOffset).u(rxOffset));
    }
};
// what the mode requires of the bus
bool duplex(Mode m) { return m == kBoth; }
#ifdef PLAT_ARDUINO
constexpr size_t kChunk = 64;
#else
constexpr size_t kChunk = LLDESC_MAX_NUM_PER_DESC;
#endif
}

MC_SCENARIO(everyLength, 48, 2)
{
    const Mode m = Mode(mc::choose(3, "mode"));
    const int block = mc::choose(mc::thorough ? 128 : 32, "lengths");
    const bool fullBus = m == kBoth || (m == kSend && (block & 1));
    Bench b(fullBus);
    b.txOffset = size_t(mc::choose(4, "offset of the data sent"));
    b.rxOffset = (b.txOffset * 3 + 1) % 4;
    for (size_t n = size_t(block) * 64; n < size_t(block + 1) * 64; ++n) b.call(m, n);
}
MC_SCENARIO(boundaries, 48, 2)
{
    const Mode m = Mode(mc::choose(3, "mode"));
    std::vector<size_t> lengths;
    for (size_t c : { kChunk, 2 * kChunk, 3 * kChunk, size_t(4092), size_t(8184), size_t(32768), size_t(65535), 16 * kChunk, size_t(4096), size_t(65472) })
        for (int d = -4; d <= 4; ++d) if (c + d <= 65535) lengths.push_back(c + d);
    const size_t n = lengths[mc::choose(int(lengths.size()), "length")];
    Bench b(duplex(m));
    b.offsets();
    b.call(m, n);
    b.call(m, 5);
    b.call(m, n);
}
// histories of transfers of different kinds and lengths
MC_SCENARIO(histories, 48, 3)
{
    static const size_t lengths[] = { 0, 1, 2, 3, 4, 5, 7, 8, kChunk - 1, kChunk, kChunk + 1, 2 * kChunk + 3 };
    const bool full = mc::flag("duplex");
    Bench b(full);
    b.txOffset = size_t(mc::choose(2, "offset")); b.rxOffset = 3 * b.txOffset;
    const int n = mc::thorough ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
#ifdef PLAT_ARDUINO
        const Mode m = Mode(mc::choose(3, "mode"));
#else
        const Mode m = full ? (mc::flag("mode") ? kBoth : kSend) : (mc::flag("mode") ? kReceive : kSend);
#endif
        b.call(m, mc::pick(lengths, "length"));
    }
}
// one buffer for both directions
MC_SCENARIO(inPlace, 48, 2)
{
    Bench b(true);
    b.inPlace = true;
    b.txOffset = size_t(mc::choose(4, "offset"));
    std::vector<size_t> lengths;
    for (size_t n = 0; n < 70; ++n) lengths.push_back(n);
    for (size_t c : { kChunk, 2 * kChunk, 3 * kChunk, size_t(4092), size_t(8184), size_t(32768), size_t(65535), 16 * kChunk })
        for (int d = -4; d <= 4; ++d) if (c + d <= 65535) lengths.push_back(c + d);
    b.call(kBoth, lengths[mc::choose(int(lengths.size()), "length")]);
    b.call(kBoth, size_t(mc::choose(9, "second length")));
}
// few lengths, long histories
MC_SCENARIO(deep, 48, 3)
{
    static const size_t lengths[] = { 1, 4, 6 };
    const bool full = mc::flag("duplex");
    Bench b(full);
    for (int i = 0; i < (mc::thorough ? 7 : 6); ++i)
    {
#ifdef PLAT_ARDUINO
        const Mode m = full ? (mc::flag("mode") ? kBoth : kSend) : (mc::flag("mode") ? kReceive : kBoth);
#else
        const Mode m = full ? (mc::flag("mode") ? kBoth : kSend) : (mc::flag("mode") ? kReceive : kSend);
#endif
        b.call(m, mc::pick(lengths, "length"));
    }
}
#ifndef PLAT_ARDUINO
// the driver refuses any one chunk
MC_SCENARIO(failures, 48, 3)
{
    const Mode m = Mode(mc::choose(3, "mode"));
    const size_t lengths[] = { 1, kChunk - 1, kChunk, kChunk + 1, 2 * kChunk, 2 * kChunk + 1, 3 * kChunk, 5 * kChunk + 2, std::min<size_t>(65535, 17 * kChunk) };
    const size_t n = mc::pick(lengths, "length");
    Bench b(duplex(m));
    b.offsets();
    b.call(m, 3);
    const int at = mc::choose(20, "chunk");
    b.call(m, n, at);
    b.call(m, 7);
    b.call(m, n, at / 2);
    b.call(m, kChunk + 5);
}
// a bus that is not initialised (any more) transfers nothing and reports failure
MC_SCENARIO(notReady, 8, 1)
{
    const Mode m = Mode(mc::choose(3, "mode"));
    const int how = mc::choose(3, "state");
    Bench b(duplex(m));
    std::unique_ptr<embedded::SpiBus> other(new embedded::SpiBus(2));
    embedded::SpiBus* bus = how == 0 ? other.get() : &b.bus;
    if (how == 1) MC_CHECK(b.bus.release(), "release failed");
    if (how == 2) { MC_CHECK(b.bus.release(), "release failed"); sim::fault = [](const char*) { return ESP_FAIL; }; MC_CHECK(!b.bus.init(b.sck, b.in, b.out), "init"); }
    embedded::SpiDevice d(*bus);
    uint8_t buf[4] = { 1, 2, 3, 4 }, in[4] = { 9, 9, 9, 9 };
    const bool ok = m == kSend ? d.sendSync(buf, 4) : m == kReceive ? d.receiveSync(in, 4) : d.sendAndReceive(buf, in, 4);
    mc::step();
    MC_CHECK(!ok, "a transfer on a bus that is not initialised reports success");
    MC_CHECK(sim::spiMisuse.empty(), "%s", sim::spiMisuse.c_str());
    for (auto &h : sim::spi) MC_CHECK(h.transfers.empty(), "a transfer took place");
    mc::state(mc::Hash().u(how).u(m));
}
#endif
#ifdef PLAT_ARDUINO
// what a transaction asks of the port: the clock given, most significant bit first, mode 0; bytes sent without a transaction; the other port is left alone
MC_SCENARIO(settings, 16, 1)
{
    sim::spi = {};
    for (auto &l : sim::spi) l.miso = miso;
    static const uint32_t clocks[] = { 0, 4000000, 1, 400000, 1000000, 65535, 65536, 8000000, 16777217, 26000000, 40000000, 80000000, 0x80000000u, 0xFFFFFFFFu };
    const uint32_t first = mc::pick(clocks, "clock"), second = mc::pick(clocks, "clock of the other");
    SPIClass ports[2] = { SPIClass(0), SPIClass(1) };
    std::unique_ptr<embedded::SpiBus> buses[2];
    for (int i = 0; i < 2; ++i)
    {
        const uint32_t c = i ? second : first;
        buses[i].reset(c ? new embedded::SpiBus(ports[i], c) : new embedded::SpiBus(ports[i]));
    }
    uint8_t tx[9], rx[9];
    for (size_t i = 0; i < 9; ++i) tx[i] = mosi(i);
    for (int k = 0; k < 8; ++k)
    {
        const int i = (k ^ (k >> 1)) & 1, kind = k >> 1;
        auto &l = sim::spi[size_t(i)], &o = sim::spi[size_t(1 - i)];
        const size_t wire = l.mosi.size(), other = o.mosi.size();
        const int begun = l.begun, otherBegun = o.begun;
        l.clock = 0; l.bitOrder = l.dataMode = -1;
        embedded::SpiDevice device(*buses[i]);
        size_t n = 9;
        if (kind == 0) device.sendSync(tx, 9);
        else if (kind == 1) device.sendAndReceive(tx, rx, 9);
        else if (kind == 2) { buses[i]->sendByte(tx[3]); n = 1; }
        else buses[i]->sendBytes(tx, 9);
        mc::step();
        if (kind < 2)
        {
            const uint32_t c = i ? second : first;
            MC_CHECK(l.begun > begun && l.begun == l.ended && l.open == 0, "transactions begun %d, ended %d", l.begun, l.ended);
            MC_CHECK(l.clock == (c ? c : 4000000), "the clock is %u, given %u", l.clock, c);
            MC_CHECK(l.bitOrder == MSBFIRST && l.dataMode == SPI_MODE0, "bit order %d, mode %d", l.bitOrder, l.dataMode);
        }
        MC_CHECK(l.mosi.size() == wire + n, "%zu bytes on the wire instead of %zu", l.mosi.size() - wire, n);
        for (size_t b = 0; b < n; ++b) MC_CHECK(l.mosi[wire + b] == (kind == 2 ? tx[3] : tx[b]), "byte %zu on the wire is %02X", b, l.mosi[wire + b]);
        MC_CHECK(o.mosi.size() == other && o.begun == otherBegun, "the other port is used");
    }
    mc::state(mc::Hash().u(first).u(second));
}
#endif
// a bus in use for a long time
MC_SCENARIO(longUse, 8, 1)
{
    const Mode m = Mode(mc::choose(3, "mode"));
    const size_t size = 1 + size_t(mc::choose(5, "size"));
    Bench b(duplex(m));
    for (int i = 0; i < 70000; ++i) b.call(m, size);
}
