// C28: what Send passes to the port, and what the calls leave behind.
#include "uart_common.h"
using namespace u;
using embedded::PacketUart;

namespace
{
size_t sendOne(PacketUart &uart, const Bytes &data, uint32_t timeout, const char* what, size_t offset = 0, bool all = false)
{
    std::unique_ptr<uint8_t[]> memory(new uint8_t[offset + data.size()]);
    uint8_t* const p = memory.get() + offset;
    std::copy(data.begin(), data.end(), p);
    const size_t before = port().tx.size();
    const size_t r = uart.Send(p, uint16_t(data.size()), timeout);
    const Bytes sent(port().tx.begin() + before, port().tx.end());
    mc::note("Send(%zu bytes, timeout %u) -> %zu, %zu on the line", data.size(), timeout, r, sent.size());
    MC_CHECK(r <= data.size(), "%s: Send of %zu bytes returns %zu", what, data.size(), r);
    MC_CHECK(r == sent.size(), "%s: Send of %zu bytes returns %zu, the driver accepted %zu", what, data.size(), r, sent.size());
    MC_CHECK(!all || r == data.size(), "%s: Send of %zu bytes passes on %zu, although the driver accepts all", what, data.size(), r);
    MC_CHECK(std::equal(sent.begin(), sent.end(), data.begin()), "%s: the line gets %s instead of %s", what, mc::hex(sent.data(), sent.size()).c_str(), mc::hex(data.data(), data.size()).c_str());
    MC_CHECK(port().txOut == port().tx.size(), "%s: Send returns with %zu bytes not out yet", what, port().tx.size() - port().txOut);
    MC_CHECK(std::equal(data.begin(), data.end(), p), "%s: Send changes the data", what);
    mc::step();
    return r;
}
void setTimeoutOfPort(uint32_t t)
{
#ifdef PLAT_ARDUINO
    port().timeout = t;
#endif
}
const uint32_t kPortTimeouts[] = { 1000, 0, 1, 100, 70000, 0xFFFFFFFF };
}

// every short sequence of sends and receives; the driver may accept less or fail
MC_SCENARIO(sequences, 32, 4)
{
    reset(0);
    sim::horizonUs = 100000000;
    const uint32_t configured = mc::pick(kPortTimeouts, "configured timeout");
    setTimeoutOfPort(configured);
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    mc::budget(2);
    Limit limit;
    port().accept = [&limit](const uint8_t*, size_t n) { return limit(n); };
    static const std::vector<Bytes> texts = { {}, { 0x00 }, { 0x11, 0x13, 0xFF, 0x0D, 0x0A }, { 'a', 'b', 'c' } };
    mc::Hash h;
    for (int i = 0; i < (mc::thorough ? 4 : 3); ++i)
    {
        switch (mc::choose(2, "operation"))
        {
            case 0:
            {
                static const uint32_t t[] = { 5000, 0 };
                const auto &d = mc::pick(texts, "data");
                const int kind = mc::deviate(Limit::kKinds, "driver");
                limit.set(kind, d.size());
                h.u(sendOne(uart, d, mc::pick(t, "timeout"), "sequence", 0, kind == Limit::kAll));
                break;
            }
            default:
            {
                port().rx.clear(); port().rxPos = 0; port().consumedAt.clear();
                const int kind = mc::choose(3, "call"), data = mc::choose(2, "line") * 2;
                if (data) { port().rx.push_back({ sim::nowUs, S }); if (data == 2) port().rx.push_back({ sim::nowUs, E }); }
                // (waiting with the configured timeout would take too long)
                Call c { kind, uint16_t(mc::choose(2, "size") * 3), 20, S, E };
                run(uart, c);
            }
        }
#ifdef PLAT_ARDUINO
        MC_CHECK(port().timeout == configured, "the configured timeout changed from %u to %u ms", configured, port().timeout);
#endif
    }
    mc::state(h.u(port().tx.size())); mc::outcome(h);
}

// long sequences
MC_SCENARIO(deep, 48, 4)
{
    reset(0);
    sim::horizonUs = 100000000;
    const uint32_t configured = mc::flag("configured timeout") ? 0 : 777;
    setTimeoutOfPort(configured);
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    Limit limit;
    port().accept = [&limit](const uint8_t*, size_t n) { return limit(n); };
    mc::Hash h;
    for (int i = 0; i < (mc::thorough ? 7 : 6); ++i)
    {
        const int op = mc::choose(5, "operation");
        if (op < 4)
        {
            const Bytes d = { uint8_t(i * 7), uint8_t(0xF0 + i), 3 };
            limit.set(op == 1 ? Limit::kHalf : op == 2 ? Limit::kNothing : Limit::kAll, d.size());
            h.u(sendOne(uart, op == 3 ? Bytes { uint8_t(i) } : d, op == 3 ? 0 : 100, "sequence", 0, op == 0 || op == 3));
        }
        else
        {
            port().rx.assign(1, { sim::nowUs, S }); port().rx.push_back({ sim::nowUs, E }); port().rxPos = 0; port().consumedAt.clear();
            const Call c { i % 3, 2, 20, S, E };
            h.u(run(uart, c).count);
        }
#ifdef PLAT_ARDUINO
        MC_CHECK(port().timeout == configured, "the configured timeout changed from %u to %u ms", configured, port().timeout);
#endif
    }
    mc::state(h.u(port().tx.size())); mc::outcome(h);
}

// sizes and contents
MC_SCENARIO(sizes, 16, 2)
{
    reset(0);
    static const uint32_t n[] = { 0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 4096, 32767, 32768, 65534, 65535 };
    const uint32_t size = mc::pick(n, "size");
    const int kind = mc::choose(4, "driver");
    const size_t offset = size_t(mc::choose(4, "offset of the data"));
    port().accept = [&](const uint8_t*, size_t k) { return decltype(port().accept(nullptr, 0))(kind == 0 ? k : kind == 1 ? k - (k > 0) : kind == 2 ? std::min<size_t>(k, 128) : 0); };
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    Bytes d(size);
    for (uint32_t i = 0; i < size; ++i) d[i] = uint8_t(i * 7 + (i >> 8) * 3);
    sendOne(uart, d, 100, "size", offset, kind == 0);
    sendOne(uart, { 1, 2, 3 }, 100, "afterwards", 0, kind == 0);
    mc::state(mc::Hash().u(size).u(kind).u(offset));
}

#ifndef PLAT_ARDUINO
MC_SCENARIO(driverFails, 4, 1)
{
    reset(0);
    static const uint32_t n[] = { 0, 1, 300, 65535 };
    const Bytes d(mc::pick(n, "size"), 0x55);
    port().accept = [](const uint8_t*, size_t) { return -1; };
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    MC_CHECK(sendOne(uart, d, 100, "failing driver") == 0, "a driver error is reported as bytes sent");
    mc::state(mc::Hash().u(d.size()));
}
#endif

// every byte value alone
MC_SCENARIO(everyByte, 1, 0)
{
    reset(0);
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    const int b = mc::choose(256, "byte");
    MC_CHECK(sendOne(uart, { uint8_t(b) }, 100, "byte") == 1, "not sent");
    MC_CHECK(sendOne(uart, { uint8_t(b), uint8_t(~b), uint8_t(b) }, 0, "bytes") == 3, "not sent");
    mc::state(mc::Hash().u(b));
}
// a port in use for a long time
MC_SCENARIO(longUse, 4, 1)
{
    reset(0);
    setTimeoutOfPort(777);
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    const int kind = mc::choose(4, "driver");
    const size_t size = 1 + size_t(mc::choose(3, "size"));
    size_t calls = 0;
    Limit limit;
    port().accept = [&](const uint8_t*, size_t n) { return limit(n); };
    for (; calls < 70000; ++calls)
    {
        if (calls % 500 == 0) { port().tx.clear(); port().txOut = 0; }
        Bytes d(size);
        for (size_t i = 0; i < size; ++i) d[i] = uint8_t(calls + i * 51);
        const size_t all = kind == 0 || calls % 5 ? size : kind == 1 ? size - 1 : 0;
        limit.set(Limit::kAll, size);
        if (all != size) limit.left = all;
        MC_CHECK(sendOne(uart, d, kind == 3 ? 0 : 100, "long use") == all, "send %zu returns something else than %zu", calls, all);
        if (calls % 16 == 0)
        {
            port().rx.assign(1, { sim::nowUs, S }); port().rx.push_back({ sim::nowUs, E }); port().rxPos = 0; port().consumedAt.clear();
            const Call c { int(calls / 16 % 3), 2, 20, S, E };
            const Result r = run(uart, c);
            checkContent(c, r);
            MC_CHECK(r.count == 2, "%s receives %zu of 2 bytes after %zu calls", name(c), r.count, calls);
        }
#ifdef PLAT_ARDUINO
        MC_CHECK(port().timeout == 777, "the configured timeout changed");
#endif
    }
    mc::state(mc::Hash().u(kind).u(size));
}
