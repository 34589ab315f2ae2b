// C25: every result of every receive call is exactly what the line delivered.
#include "uart_common.h"
using namespace u;
using embedded::PacketUart;

namespace
{
Call pickCall(const uint16_t* sizes, int nSizes, bool zeroTimeout)
{
    Call c {};
    c.kind = mc::choose(3, "call");
    c.size = sizes[mc::choose(nSizes, "buffer size")];
    static const uint16_t t[] = { 20, 1, 200, 0 };
    c.timeout = t[mc::choose(zeroTimeout ? 4 : 2, "timeout")];
    c.start = S; c.end = E;
    return c;
}

void check(const Call &c, const Result &r)
{
    if (r.returned) { checkContent(c, r); return; }
    // without a timeout a call may wait for ever; with one it has to return
    MC_CHECK(c.timeout == 0, "%s with a timeout of %u ms does not return", name(c), c.timeout);
    mc::prune();
}

void explore(int maxBytes, int calls, const std::vector<uint8_t> &alphabet, bool errors)
{
    reset(0);
    sim::horizonUs = 3000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    const int n = mc::choose(maxBytes + 1, "bytes");
    for (int i = 0; i < n; ++i)
    {
        static const uint64_t gaps[] = { 0, 6000, 30000 };
        const uint64_t gap = mc::pick(gaps, "pause");
        arrive(gap, mc::pick(alphabet, "byte"));
    }
    noteLine();
#ifndef PLAT_ARDUINO
    if (errors)
    {
        mc::budget(mc::thorough ? 2 : 1);
        port().readFails = [] { return mc::deviate(2, "driver error") != 0; };
    }
#endif
    Bytes all;
    mc::Hash h;
    for (int k = 0; k < calls; ++k)
    {
        static const uint16_t sizes[] = { 3, 1, 2, 0 };
        const Call c = pickCall(sizes, 4, !errors);
        const Result r = run(uart, c);
        check(c, r);
        h.u(r.count).bytes(r.bytes.data(), r.count).u(r.rxTo);
    }
    mc::state(h.u(port().rxPos)); mc::outcome(h);
}
}

MC_SCENARIO(streams, 32, 4) { explore(mc::thorough ? 4 : 3, 1, { S, 0x00, 0xFF, E }, false); }
MC_SCENARIO(callsInARow, 32, 4) { explore(mc::thorough ? 3 : 2, 2, { S, 0xFF, E }, false); }
// many calls on one line
MC_SCENARIO(manyCalls, 48, 4)
{
    reset(0);
    sim::horizonUs = 3000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    const int n = 5;
    for (int i = 0; i < n; ++i) { static const uint8_t v[] = { S, 0x41, E }; arrive(i == 3 ? 6000 : 0, mc::pick(v, "byte")); }
    noteLine();
    mc::Hash h;
    for (int k = 0; k < (mc::thorough ? 5 : 4); ++k)
    {
        const int what = mc::choose(5, "call");
        const Call c { what % 3, uint16_t(what == 0 || what == 4 ? 2 : what == 3 ? 1 : 4), 20, S, E };
        const Result r = run(uart, c);
        check(c, r);
        h.u(r.count).bytes(r.bytes.data(), r.count).u(r.rxTo);
    }
    mc::state(h); mc::outcome(h);
}
#ifndef PLAT_ARDUINO
MC_SCENARIO(driverErrors, 32, 4) { explore(mc::thorough ? 3 : 2, 2, { S, 0xFF, E }, true); }
// every call fails from some call on
MC_SCENARIO(brokenDriver, 4, 2)
{
    reset(0);
    sim::horizonUs = 3000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    for (int i = 0; i < 4; ++i) arrive(0, i == 0 ? S : 0x41);
    int left = mc::choose(6, "calls that work");
    port().readFails = [&] { return left-- <= 0; };
    Call c { mc::choose(3, "call"), uint16_t(mc::choose(6, "size")), 30, S, E };
    const Result r = run(uart, c);
    check(c, r);
    mc::state(mc::Hash().u(r.count).u(c.kind).u(c.size));
}
// a driver that reports errors other than -1, or more bytes than asked for, is not simulated
#endif

// long transfers: sizes around 8 and 16 bits, all 256 byte values
MC_SCENARIO(longTransfers, 8, 3)
{
    reset(0);
    sim::horizonUs = 600000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint32_t lengths[] = { 255, 256, 257, 1000, 65534, 65535, 65536, 70000 };
    const uint32_t n = mc::pick(lengths, "bytes on the line");
    static const uint16_t sizes[] = { 254, 255, 256, 300, 32768, 65535 };
    Call c { mc::choose(3, "call"), mc::pick(sizes, "buffer size"), 60000, S, E };
    // bytes without marks, then all values
    for (uint32_t i = 0; i < n; ++i) arrive(i % 100 == 0 ? 100 : 0, c.kind == 0 ? uint8_t(i * 11) : i == 0 ? S : uint8_t(0x80 + i * 3 % 100));
    sim::nowUs = 100000000;
    sim::pollCostUs = 2;
    for (auto &b : port().rx) b.at = 0;
    const Result r = run(uart, c);
    check(c, r);
    // all that is there is delivered
    MC_CHECK(r.count == std::min<uint32_t>(n, c.size), "%s returns %zu of %u bytes available in a buffer of %u", name(c), r.count, n, c.size);
    mc::state(mc::Hash().u(n).u(c.size).u(c.kind));
}

// a flood of unrelated bytes, ended by what the call waits for, at some time before or after the timeout, or by nothing
MC_SCENARIO(flood, 32, 4)
{
    reset(0);
    static const uint16_t timeouts[] = { 40, 12, 300 };
    Call c { 2, 0, mc::pick(timeouts, "timeout"), S, E };
    static const uint64_t periods[] = { 1000, 90, 0, 9000, 13000 };
    const uint64_t period = mc::pick(periods, "period of the noise");
    const uint64_t t = c.timeout * 1000ull, total = t * 4 + 100000;
    static const uint8_t noise[] = { 0x41, E, 0xFF };
    const uint8_t v = mc::pick(noise, "noise");
    const uint64_t startAt = t * uint64_t(mc::choose(6, "start byte at")) / 4;   // 5/4: after the timeout
    bool started = false;
    size_t limit = period ? total / period : 20000;
    for (size_t i = 0; i < limit; ++i)
    {
        const uint64_t at = i * period;
        if (!started && startAt && startAt <= t * 5 / 4 && at >= startAt) { port().rx.push_back({ at, S }); started = true; }
        port().rx.push_back({ at, started && v == E ? uint8_t(0x42) : v });
    }
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint16_t sizes[] = { 3, 60 };
    c.size = mc::pick(sizes, "buffer size");
    sim::horizonUs = total * 4 + 5000000;
    const Result r = run(uart, c);
    MC_CHECK(r.returned, "%s does not return", name(c));
    checkFraming(c, r);
    checkContent(c, r);
    mc::state(mc::Hash().u(r.to).u(r.count).u(c.timeout).u(period).u(startAt));
}
