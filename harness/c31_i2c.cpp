// C31: I2C transfers on both platforms with every answer of the driver and the device.
#include "mc.h"
#ifdef PLAT_ARDUINO
#include "arduino/I2CBus.h"
#else
#include <driver/i2c.h>
#include "esp32-esp-idf/I2CBus.h"
#endif
#include "I2CDevice.h"
#include <memory>

namespace
{
using Bytes = std::vector<uint8_t>;
uint8_t deviceByte(size_t i) { return uint8_t(i * 29 + (i >> 8) * 7 + 3); }
uint8_t masterByte(size_t i) { return uint8_t(i * 101 + (i >> 8) * 3 + 9); }

// the answers of the device, decided by the harness
struct Line
{
#ifdef PLAT_ARDUINO
    embedded::I2CBus busses[2] = { embedded::I2CBus(Wire), embedded::I2CBus(Wire1) };
    static constexpr int kSendAnswers = 6, kReceiveAnswers = 4;
#else
    embedded::I2CBus busses[2] = { embedded::I2CBus(0), embedded::I2CBus(1) };
    static constexpr int kSendAnswers = 6, kReceiveAnswers = 6;
#endif
    int sendAnswer = 0, receiveAnswer = 0;
    bool sendFailed = false, receiveFailed = false;
    size_t buffer;
    explicit Line(size_t bufferSize = 128) : buffer(bufferSize)
    {
#ifdef PLAT_ARDUINO
        for (auto &b : sim::i2c)
        {
            b = {};
            b.bufferSize = bufferSize;
            b.deviceByte = deviceByte;
            b.endResult = [this](sim::I2cTransaction &) { sendFailed = sendAnswer != 0; return sendAnswer; };    // 1 too long 2, 3 no acknowledge 4 other 5 timeout
            b.received = [this](int, size_t asked) -> size_t
            {
                const size_t n = receiveAnswer == 0 ? asked : receiveAnswer == 1 ? 0 : receiveAnswer == 2 ? asked - std::min<size_t>(asked, 1) : asked / 2;
                receiveFailed = n != asked;
                return n;
            };
        }
#else
        sim::i2cLog.clear(); sim::i2cProbes.clear(); sim::i2cLinkErrors = 0;
        for (auto l : sim::i2cLinks) delete l;
        sim::i2cLinks.clear();
        sim::i2cPorts = {};
        sim::i2cByte = deviceByte;
        sim::fault = nullptr;
        sim::i2cResult = [this](bool receive, int, int, size_t) -> esp_err_t
        {
            static const esp_err_t errors[] = { ESP_OK, ESP_FAIL, ESP_ERR_INVALID_ARG, ESP_ERR_INVALID_STATE, ESP_ERR_TIMEOUT, ESP_ERR_NO_MEM };
            const esp_err_t e = errors[receive ? receiveAnswer : sendAnswer];
            (receive ? receiveFailed : sendFailed) = e != ESP_OK;
            return e;
        };
#endif
    }
    ~Line()
    {
#ifndef PLAT_ARDUINO
        sim::fault = nullptr;
        sim::i2cResult = nullptr;
#endif
    }
    // what happened on the bus, the same for both platforms
    struct Seen { bool receive; int port, address; Bytes data; bool ended; };
    std::vector<Seen> log() const
    {
        std::vector<Seen> r;
#ifdef PLAT_ARDUINO
        for (int p = 0; p < 2; ++p)
            for (auto &t : sim::i2c[p].log) r.push_back({ t.receive, p, t.address, t.data, t.ended && t.stop });
#else
        for (auto &t : sim::i2cLog) r.push_back({ t.receive, t.port, t.address, t.data, true });
#endif
        return r;
    }
    void clear()
    {
#ifdef PLAT_ARDUINO
        for (auto &b : sim::i2c) b.log.clear();
#else
        sim::i2cLog.clear();
#endif
    }
    void sane(const char* what)
    {
#ifdef PLAT_ARDUINO
        for (auto &b : sim::i2c) MC_CHECK(!b.open && !b.misuse, "%s: a transaction is %s", what, b.open ? "left open" : "used wrongly");
#else
        MC_CHECK(sim::i2cLinks.empty() && !sim::i2cLinkErrors, "%s: %zu command lists are left, %d errors", what, sim::i2cLinks.size(), sim::i2cLinkErrors);
#endif
    }
};

enum Kind { kSend, kReceive, kBoth };
struct Call
{
    Line &line;
    int port, address;
    uint32_t maxWait;
    embedded::I2CDevice device;
    size_t txOffset = 0, rxOffset = 0;  // of the buffers from an aligned address
    Call(Line &l, int port, int address, uint32_t maxWait) : line(l), port(port), address(address), maxWait(maxWait), device(l.busses[port], uint16_t(address), maxWait) {}
    // the wait a device has when none is given
    Call(Line &l, int port, int address) : line(l), port(port), address(address), maxWait(200), device(l.busses[port], uint16_t(address)) {}

    void check(const Line::Seen &s, bool receive, size_t n, bool complete)
    {
        MC_CHECK(s.receive == receive, "a %s instead of a %s", s.receive ? "receive" : "send", receive ? "receive" : "send");
        MC_CHECK(s.port == port, "bus %d instead of %d", s.port, port);
        MC_CHECK(s.address == address, "device %d instead of %d is addressed", s.address, address);
        MC_CHECK(s.ended, "the transaction is not ended");
        if (!complete) return;
        MC_CHECK(s.data.size() == n, "%zu bytes instead of %zu on the bus", s.data.size(), n);
        for (size_t i = 0; i < n; ++i)
        {
            const uint8_t expected = receive ? deviceByte(i) : masterByte(i);
            MC_CHECK(s.data[i] == expected, "byte %zu on the bus is %02X instead of %02X", i, s.data[i], expected);
        }
    }
    void run(Kind kind, size_t tn, size_t rn, int sendAnswer, int receiveAnswer)
    {
        std::unique_ptr<uint8_t[]> txMemory(new uint8_t[txOffset + tn]), rxMemory(new uint8_t[rxOffset + rn]);
        memset(rxMemory.get(), 0xEE, rxOffset);
        uint8_t* const tx = txMemory.get() + txOffset;
        uint8_t* const rx = rxMemory.get() + rxOffset;
        for (size_t i = 0; i < tn; ++i) tx[i] = masterByte(i);
        for (size_t i = 0; i < rn; ++i) rx[i] = 0xEE;
        line.sendAnswer = sendAnswer; line.receiveAnswer = receiveAnswer;
        line.sendFailed = line.receiveFailed = false;
        line.clear();
        const bool ok = kind == kSend ? device.sendSync(tx, uint16_t(tn)) : kind == kReceive ? device.receiveSync(rx, uint16_t(rn)) : device.sendThenReceive(tx, uint16_t(tn), rx, uint16_t(rn));
        mc::step();
        mc::note("%s bus %d device %d send %zu receive %zu answers %d %d -> %d", kind == kSend ? "sendSync" : kind == kReceive ? "receiveSync" : "sendThenReceive", port, address, tn, rn, sendAnswer, receiveAnswer, int(ok));
        bool sendDone = !line.sendFailed, receiveDone = !line.receiveFailed;
#ifdef PLAT_ARDUINO
        // the core's buffer holds so many bytes and no more
        if (tn > line.buffer) sendDone = false;
        if (rn > line.buffer) receiveDone = false;
#endif
        const auto log = line.log();
        const bool receives = kind == kReceive || (kind == kBoth && sendDone);
        MC_CHECK(log.size() == size_t(kind != kReceive) + size_t(receives), "%zu transactions on the bus instead of %d", log.size(), int(kind != kReceive) + int(receives));
        size_t at = 0;
        if (kind != kReceive) check(log[at++], false, tn, sendDone);
        if (receives) check(log[at++], true, rn, receiveDone);
        const bool done = (kind == kReceive || sendDone) && (kind == kSend || receiveDone);
        MC_CHECK(ok == done, "reports %d although %s", int(ok), done ? "every byte was transferred" : "the transfer is not complete");
        if (ok && kind != kSend)
            for (size_t i = 0; i < rn; ++i) MC_CHECK(rx[i] == deviceByte(i), "byte %zu received is %02X instead of %02X", i, rx[i], deviceByte(i));
        for (size_t i = 0; i < tn; ++i) MC_CHECK(tx[i] == masterByte(i), "the bytes to send are changed");
        for (size_t i = 0; i < rxOffset; ++i) MC_CHECK(rxMemory[i] == 0xEE, "a byte before the buffer is written");
#ifndef PLAT_ARDUINO
        for (auto &t : sim::i2cLog)
        {
            const int64_t wanted = maxWait / portTICK_PERIOD_MS, given = int64_t(t.ticks);
            MC_CHECK(given >= wanted - 1 && given <= wanted + 1, "the driver may wait %lld ticks instead of %lld", (long long)given, (long long)wanted);
        }
#endif
        line.sane("transfer");
        mc::state(mc::Hash().u(kind).u(tn).u(rn).u(port).u(address).u(sendAnswer).u(receiveAnswer).u(txOffset).u(rxOffset));
    }
};
#ifdef PLAT_ARDUINO
// a receive of no bytes is no transaction the core offers
constexpr size_t kLeastReceive = 1;
#else
constexpr size_t kLeastReceive = 1;
#endif
}

// every length with every answer
MC_SCENARIO(lengths, 48, 3)
{
    static const size_t buffers[] = { 32, 128, 255 };
    const size_t buffer = mc::pick(buffers, "buffer of the core");
    const Kind kind = Kind(mc::choose(3, "kind"));
    const int block = mc::choose(mc::thorough ? 64 : 10, "lengths");
    Line line(buffer);
    const int sa = kind == kReceive ? 0 : mc::choose(Line::kSendAnswers, "answer to the send");
    const int ra = kind == kSend ? 0 : mc::choose(Line::kReceiveAnswers, "answer to the receive");
    Call c(line, 0, 0x29);
    c.txOffset = size_t(mc::choose(4, "offset of the data sent"));
    c.rxOffset = (c.txOffset * 3 + 1) % 4;
    for (size_t n = size_t(block) * 32; n < size_t(block + 1) * 32; ++n)
    {
        const size_t rn = kind == kBoth ? (n * 7 + 1) % 40 : n;
        if (rn < kLeastReceive && kind != kSend) continue;
        c.run(kind, n, rn, sa, ra);
        if (kind == kBoth) c.run(kind, rn, n + 1, sa, ra);
    }
}
MC_SCENARIO(longTransfers, 24, 3)
{
    static const size_t lengths[] = { 127, 128, 129, 255, 256, 257, 511, 512, 513, 4096, 32767, 32768, 32769, 65280, 65408, 65534, 65535 };
    const Kind kind = Kind(mc::choose(3, "kind"));
    const size_t tn = kind == kReceive ? 0 : mc::pick(lengths, "length"), rn = kind == kSend ? 0 : mc::pick(lengths, "length");
    Line line(mc::flag("buffer") ? 255 : 128);
    const int sa = kind == kReceive ? 0 : mc::choose(Line::kSendAnswers, "answer to the send");
    const int ra = kind == kSend ? 0 : mc::choose(Line::kReceiveAnswers, "answer to the receive");
    Call c(line, 0, 0x50);
    c.txOffset = size_t(mc::choose(4, "offset of the data sent"));
    c.rxOffset = (c.txOffset * 3 + 1) % 4;
    c.run(kind, tn, rn, sa, ra);
}
// every device address
MC_SCENARIO(addresses, 16, 2)
{
    const int port = mc::choose(2, "bus");
    const Kind kind = Kind(mc::choose(3, "kind"));
#ifdef PLAT_ARDUINO
    const int last = 1023;
#else
    const int last = 127;
#endif
    Line line;
    for (int a = 1; a <= last; ++a)
        for (int answers = 0; answers < 4; ++answers) Call(line, port, a).run(kind, 3, 4, answers & 1 ? 2 : 0, answers & 2 ? 1 : 0);
}
// every size of the configured wait
MC_SCENARIO(waits, 16, 2)
{
    const int bits = mc::choose(33, "order of the wait"), around = mc::choose(41, "place") - 20;
    const Kind kind = Kind(mc::choose(3, "kind"));
    const uint32_t wait = uint32_t((1ull << bits) + uint64_t(int64_t(around)));
    Line line;
    for (int answers = 0; answers < 4; ++answers) Call(line, 0, 0x29, wait).run(kind, 3, 4, answers & 1 ? 2 : 0, answers & 2 ? 1 : 0);
    // a second device of another wait does not matter
    Call a(line, 0, 0x29, wait), b(line, 1, 0x29, ~wait);
    a.run(kind, 1, 2, 0, 0);
    b.run(kind, 2, 1, 0, 0);
    a.run(kind, 2, 2, 0, 0);
}
// histories over two devices on two busses, with probes and bus resets in between
MC_SCENARIO(histories, 48, 3)
{
    mc::budget(2);
    Line line(32);
    Call a(line, 0, 0x29, 200), b(line, 1, 0x50, 1000), c(line, 0, 0x68, 0);
    Call* devices[] = { &a, &b, &c };
    const int n = mc::thorough ? 4 : 3;
    static const size_t sizes[][2] = { { 1, 1 }, { 2, 6 }, { 32, 32 }, { 33, 4 }, { 4, 33 } };
    for (int i = 0; i < n; ++i)
    {
        const int op = mc::choose(4, "operation");
        if (op == 3)
        {
            line.clear();
            const int port = mc::choose(2, "bus");
            line.sendAnswer = mc::deviate(Line::kSendAnswers, "answer to the reset");
            line.busses[port].resetBus();
            mc::step();
            mc::note("resetBus %d", port);
            for (auto &s : line.log()) MC_CHECK(s.port == port && s.address == 0 && s.ended, "a bus reset goes to bus %d device %d", s.port, s.address);
            // the general call reset of the I2C specification
            const auto log = line.log();
            MC_CHECK(log.size() == 1 && !log[0].receive, "a bus reset is %zu transactions", log.size());
            if (!line.sendAnswer) MC_CHECK(log[0].data.size() == 1 && log[0].data[0] == 0x06, "a bus reset sends %s instead of 06", mc::hex(log[0].data.data(), log[0].data.size()).c_str());
            line.sane("reset");
            continue;
        }
        Call &d = *devices[mc::choose(3, "device")];
        auto &s = sizes[i == 0 ? mc::choose(5, "sizes") : (i * 2 + op) % 5];
        const int sa = op == kReceive ? 0 : mc::deviate(Line::kSendAnswers, "answer to the send");
        const int ra = op == kSend ? 0 : mc::deviate(Line::kReceiveAnswers, "answer to the receive");
        d.run(Kind(op), s[0], s[1], sa, ra);
    }
}
// few calls, long histories, with one failure at any place
MC_SCENARIO(deep, 48, 3)
{
    mc::budget(1);
    Line line(32);
    Call a(line, 0, 0x29, 200), b(line, 1, 0x50, 1000);
    for (int i = 0; i < (mc::thorough ? 6 : 5); ++i)
    {
        const int what = mc::choose(5, "call");
        Call &d = what == 4 ? b : a;
        const Kind kind = what == 4 ? kSend : Kind(what % 3);
        const size_t n = what == 3 ? 3 : 1;
        const int sa = kind == kReceive ? 0 : mc::deviate(Line::kSendAnswers, "answer to the send");
        const int ra = kind == kSend ? 0 : mc::deviate(Line::kReceiveAnswers, "answer to the receive");
        d.run(kind, n, n + 1, sa, ra);
    }
}
#ifndef PLAT_ARDUINO
// probing every address, and set-up, with every answer of the driver
MC_SCENARIO(probe, 16, 2)
{
    Line line;
    const int port = mc::choose(2, "bus");
    const int answer = mc::choose(5, "answer");
    static const esp_err_t errors[] = { ESP_OK, ESP_FAIL, ESP_ERR_INVALID_ARG, ESP_ERR_INVALID_STATE, ESP_ERR_TIMEOUT };
    sim::fault = [&](const char*) { return errors[answer]; };
    for (int address = 0; address < 128; ++address)
    {
        sim::i2cProbes.clear();
        const bool ok = line.busses[port].testAddress(uint8_t(address));
        mc::step();
        MC_CHECK(ok == (answer == 0), "probing %d reports %d although the driver reports %d", address, int(ok), errors[answer]);
        MC_CHECK(sim::i2cProbes.size() == 1, "%zu probes", sim::i2cProbes.size());
        auto &p = sim::i2cProbes[0];
        MC_CHECK(p.port == port && p.ops == "SWP" && p.bytes.size() == 1 && p.bytes[0] == uint8_t(address << 1) && p.ack, "probing %d does %s with %02X on bus %d", address, p.ops.c_str(), p.bytes.empty() ? 0 : p.bytes[0], p.port);
        line.sane("probe");
    }
    mc::state(mc::Hash().u(port).u(answer));
}
MC_SCENARIO(setUp, 16, 2)
{
    Line line;
    const int port = mc::choose(2, "bus");
    static const int pins[] = { 0, 8, 21, 22, 39 };
    static const uint32_t rates[] = { 1, 100000, 400000, 1000000, 0xFFFFFFFFu };
    const int sda = mc::pick(pins, "sda"), scl = mc::pick(pins, "scl");
    const uint32_t rate = mc::pick(rates, "rate");
    const int pullUps = mc::choose(5, "pull-ups");
    mc::budget(2);
    bool failed = false;
    sim::fault = [&](const char* call) -> esp_err_t
    {
        static const esp_err_t errors[] = { ESP_OK, ESP_FAIL, ESP_ERR_INVALID_ARG };
        const int e = mc::deviate(3, call);
        failed |= e != 0;
        return errors[e];
    };
    const bool ok = pullUps == 4 ? line.busses[port].init(sda, scl, rate) : line.busses[port].init(sda, scl, rate, pullUps & 1, pullUps & 2);
    mc::step();
    auto &p = sim::i2cPorts[port];
    MC_CHECK(ok == !failed, "set-up reports %d although the driver %s", int(ok), failed ? "failed" : "did not fail");
    MC_CHECK(ok == (p.configs == 1 && p.installs == 1) && p.configs <= 1 && p.installs <= 1, "set-up reports %d after %d configurations and %d installations", int(ok), p.configs, p.installs);
    if (ok)
        MC_CHECK(p.config.mode == I2C_MODE_MASTER && p.config.sda_io_num == sda && p.config.scl_io_num == scl && p.config.master.clk_speed == rate && p.config.sda_pullup_en == (pullUps == 4 || (pullUps & 1)) && p.config.scl_pullup_en == (pullUps == 4 || (pullUps & 2)), "the bus is configured wrongly");
    auto &o = sim::i2cPorts[1 - port];
    MC_CHECK(!o.configs && !o.installs, "the other bus is touched");
    mc::state(mc::Hash().u(port).u(sda).u(scl).u(rate).u(pullUps).u(ok));
}
#endif
// a device in use for a long time
MC_SCENARIO(longUse, 8, 1)
{
    const Kind kind = Kind(mc::choose(3, "kind"));
    const size_t size = 1 + size_t(mc::choose(3, "size"));
    const int failEvery = mc::flag("failures") ? 7 : 0;
    Line line;
    Call c(line, 1, 0x3C);
    for (int i = 0; i < 70000; ++i) { const bool f = failEvery && i % failEvery == 0; c.run(kind, size, size + 1, f && i % 2 ? 2 : 0, f && i % 2 == 0 ? 1 : 0); }
}
