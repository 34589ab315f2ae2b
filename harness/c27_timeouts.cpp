// C27: the timeouts of the receive calls in virtual time, at every kind of counter value, with every kind of traffic.
#include "uart_common.h"
using namespace u;
using embedded::PacketUart;

namespace
{
void check(const Call &c, const Result &r)
{
    checkNotLate(c, r);
    checkNotEarly(c, r);
}
void setHorizon(const Call &c) { sim::horizonUs = sim::nowUs + c.timeout * 1000ull * (c.size + 2ull) + 1000000; }
}

// short scripts of bytes and pauses around the timeout; two calls in a row
MC_SCENARIO(scripts, 64, 4)
{
    reset(mc::pick(boots(), "counter"));
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint16_t timeouts[] = { 30, 1, 10, 15, 200 };
    Call c { mc::choose(3, "call"), 0, mc::pick(timeouts, "timeout"), S, E };
    const int n = mc::choose(mc::thorough ? 5 : 4, "bytes");
    for (int i = 0; i < n; ++i)
    {
        const uint64_t t = c.timeout * 1000ull;
        const uint64_t gaps[] = { 0, t / 2 + 500, t > 20000 ? t - 15000 : t / 3, t + 30000 };
        const uint64_t g = gaps[mc::choose(4, "pause")];
        static const uint8_t v[] = { 0x41, S, E };
        const int which = mc::choose(c.kind + 1, "byte");
        arrive(g, v[c.kind == 1 ? which * 2 : which]);
    }
    noteLine();
    static const uint16_t sizes[] = { 4, 2, 1 };
    c.size = mc::pick(sizes, "buffer size");
    setHorizon(c);
    const Result r = run(uart, c);
    check(c, r);
    Call d = c;
    d.timeout = 25;
    setHorizon(d);
    check(d, run(uart, d));
    mc::state(mc::Hash().u(r.to).u(r.count).u(c.kind).u(c.timeout).u(r.rxTo));
}

// many calls with different timeouts in a row, some of which time out
MC_SCENARIO(manyCalls, 48, 4)
{
    reset(boots()[mc::choose(3, "counter")]);
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint64_t gaps[] = { 5000, 40000, 90000 };
    for (int i = 0; i < 3; ++i) { static const uint8_t v[] = { S, E }; arrive(mc::pick(gaps, "pause"), v[i & 1]); }
    noteLine();
    mc::Hash h;
    for (int k = 0; k < (mc::thorough ? 5 : 4); ++k)
    {
        static const uint16_t timeouts[] = { 30, 70 };
        const Call c { mc::choose(3, "call"), 2, mc::pick(timeouts, "timeout"), S, E };
        setHorizon(c);
        const Result r = run(uart, c);
        check(c, r);
        h.u(r.to).u(r.count);
    }
    mc::state(h);
}

// nothing at all arrives, at every position of the wrap within the timeout
MC_SCENARIO(silence, 16, 3)
{
    static const uint64_t wraps[] = { 4294967296000ull, 4294967296ull, 65536000ull, 2147483648000ull, 256000ull, 0 };
    const uint64_t wrap = mc::pick(wraps, "counter");
    static const uint16_t timeouts[] = { 1, 2, 5, 9, 10, 11, 20, 25, 100, 1000, 65535 };
    Call c { mc::choose(3, "call"), 3, mc::pick(timeouts, "timeout"), S, E };
    static const uint64_t fractions[] = { 0, 1, 2, 4, 8, 15, 16 };
    const uint64_t before = c.timeout * 1000ull * mc::pick(fractions, "wrap within") / 16;
    reset(wrap > before ? wrap - before : 0);
    sim::pollCostUs = c.timeout > 1000 ? 500 : 50;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    setHorizon(c);
    check(c, run(uart, c));
    mc::state(mc::Hash().u(wrap).u(c.timeout).u(c.kind).u(before));
}

// a flood of unrelated bytes, ended by what the call waits for, at some time before or after the timeout, or by nothing
MC_SCENARIO(flood, 32, 4)
{
    reset(mc::pick(boots(), "counter"));
    static const uint16_t timeouts[] = { 40, 12, 300 };
    Call c { 2, 0, mc::pick(timeouts, "timeout"), S, E };
    static const uint64_t periods[] = { 1000, 90, 0, 9000, 13000 };
    const uint64_t period = mc::pick(periods, "period of the noise");
    const uint64_t t = c.timeout * 1000ull, total = t * 4 + 100000;
    static const uint8_t noise[] = { 0x41, E, 0xFF };
    const uint8_t v = mc::pick(noise, "noise");
    const uint64_t startAt = t * uint64_t(mc::choose(6, "start byte at")) / 4;   // 5/4: after the timeout
    bool started = false;
    size_t limit = period ? total / period : 20000;
    for (size_t i = 0; i < limit; ++i)
    {
        const uint64_t at = i * period;
        if (!started && startAt && startAt <= t * 5 / 4 && at >= startAt) { port().rx.push_back({ at, S }); started = true; }
        port().rx.push_back({ at, started && v == E ? uint8_t(0x42) : v });
    }
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint16_t sizes[] = { 3, 60 };
    c.size = mc::pick(sizes, "buffer size");
    setHorizon(c);
    const Result r = run(uart, c);
    check(c, r);
    mc::state(mc::Hash().u(r.to).u(r.count).u(c.timeout).u(period).u(startAt));
}

// bytes that are part of the result, slowly: the other calls
MC_SCENARIO(slowBytes, 16, 3)
{
    reset(mc::pick(boots(), "counter"));
    static const uint16_t timeouts[] = { 40, 12, 300 };
    Call c { mc::choose(3, "call"), 0, mc::pick(timeouts, "timeout"), 0x41, E };
    static const int parts[] = { 1, 3, 10, 14, 40 };
    const uint64_t period = c.timeout * 1000ull * uint64_t(mc::pick(parts, "period in tenths of the timeout")) / 10;
    for (int i = 0; i < 40; ++i) arrive(period, 0x41);
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint16_t sizes[] = { 1, 2, 5, 30 };
    c.size = mc::pick(sizes, "buffer size");
    setHorizon(c);
    const Result r = run(uart, c);
    check(c, r);
    mc::state(mc::Hash().u(r.to).u(r.count).u(c.timeout).u(c.kind).u(period));
}

// no timeout given: on Arduino the one configured for the port holds between bytes (and the start byte is waited for without limit),
// on ESP-IDF ReceiveUntil waits until it has what it waits for
MC_SCENARIO(noTimeout, 32, 3)
{
    reset(mc::pick(boots(), "counter"));
    sim::pollCostUs = 200;
#ifdef PLAT_ARDUINO
    static const uint32_t configured[] = { 1000, 30, 5, 70000 };
    const uint32_t own = mc::pick(configured, "timeout of the port");
    port().timeout = own;
    Call c { 1 + mc::choose(2, "call"), 0, 0, S, E };
#else
    const uint32_t own = 100;
    Call c { 1, 0, 0, S, E };
#endif
    c.byDefault = mc::flag("not given");
    static const uint16_t sizes[] = { 2, 3, 5 };
    c.size = mc::pick(sizes, "buffer size");
    const int n = mc::choose(4, "bytes");
    // what has to be returned, and when it can be known
    size_t count = 0;
    uint64_t known = 0, last = 0;
    bool over = false, cut = false;
    if (own > 1000) sim::pollCostUs = 10000;       // (fewer steps)
    if (c.kind == 2)
    {
        static const uint64_t starts[] = { 0, 200000, 90000000 };
        last = starts[mc::choose(own < 1000 ? 2 : 3, "start byte at")];
        if (last > 1000000) sim::pollCostUs = 10000;
        port().rx.push_back({ last, S });
        count = 1;
    }
    for (int i = 0; i < n; ++i)
    {
        const uint64_t t = own * 1000ull;
        const uint64_t gaps[] = { 0, t / 2, t - 4 * std::min<uint64_t>(sim::pollCostUs, t / 10), t * 2 + 5 * sim::pollCostUs };
        const int g = mc::choose(4, "pause");
        const uint8_t v = mc::flag("byte") ? E : 0x41;
        last += gaps[g];
        port().rx.push_back({ last, v });
#ifdef PLAT_ARDUINO
        if (g == 3 && !over) over = cut = true;
#endif
        if (!over) { ++count; if (count == c.size || v == E) { over = true; known = last; } }
    }
    noteLine();
    const bool complete = over && !cut;
    sim::horizonUs = last + own * 2000ull + 10000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    const Result r = run(uart, c);
    if (!r.returned)
    {
#ifdef PLAT_ARDUINO
        MC_CHECK(false, "%s without a timeout does not return although the port has one", name(c));
#else
        MC_CHECK(!complete, "%s does not return although all of it has arrived", name(c));
#endif
        mc::prune();
    }
    MC_CHECK(r.count == count, "%s without a timeout returns %zu bytes instead of %zu", name(c), r.count, count);
#ifdef PLAT_ARDUINO
    MC_CHECK(port().timeout == own, "the timeout of the port is changed");
    if (complete) MC_CHECK(r.to <= known + 40 * sim::pollCostUs + 10000, "%s returns at %llu us, complete at %llu", name(c), (unsigned long long)r.to, (unsigned long long)known);
#else
    MC_CHECK(complete, "%s without a timeout gives up with %zu bytes", name(c), r.count);
#endif
    mc::state(mc::Hash().u(r.to).u(r.count).u(c.kind).u(own));
}

// no timeout given for Receive: 200 ms
MC_SCENARIO(byDefault, 8, 2)
{
    reset(mc::pick(boots(), "counter"));
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    Call c { 0, 3, 200, S, E, true };
    const int n = mc::choose(4, "bytes");
    for (int i = 0; i < n; ++i)
    {
        static const uint64_t gaps[] = { 0, 30000, 170000, 230000 };
        arrive(mc::pick(gaps, "pause"), 0x41);
    }
    noteLine();
    setHorizon(c);
    const Result r = run(uart, c);
    check(c, r);
    mc::state(mc::Hash().u(r.to).u(r.count));
}
#ifndef PLAT_ARDUINO
// the device itself: as long as asked, 20 ms when not given
MC_SCENARIO(device, 8, 2)
{
    reset(mc::pick(boots(), "counter"));
    PacketUart::UartDevice dev(kPort);
    static const uint32_t timeouts[] = { 20, 10, 50, 200, 1000, 65540 };
    const int given = mc::choose(7, "timeout");
    const uint32_t timeout = given ? timeouts[given - 1] : 20;
    if (timeout > 1000) sim::pollCostUs = 500;
    const int n = mc::choose(4, "bytes");
    const uint64_t at[] = { 0, timeout * 500ull, timeout > 10 ? timeout * 1000ull - 10000 : 0, timeout * 1000ull + 30000 };
    const int when = mc::choose(4, "time");
    for (int i = 0; i < n; ++i) port().rx.push_back({ at[when], uint8_t(0x41 + i) });
    sim::horizonUs = timeout * 3000ull + 1000000;
    uint8_t buffer[3] = {};
    int got = -2;
    try { got = given ? dev.receiveBlocking(buffer, 3, timeout) : dev.receiveBlocking(buffer, 3); }
    catch (const Horizon &) { MC_CHECK(false, "receiveBlocking with a timeout of %u ms does not return", timeout); }
    mc::step();
    const uint64_t t = timeout * 1000ull, slack = kTickMs * 2000ull + 40 * sim::pollCostUs;
    const int expected = when == 3 ? 0 : n;
    MC_CHECK(got == expected, "receiveBlocking with a timeout of %u ms returns %d instead of %d", timeout, got, expected);
    for (int i = 0; i < got; ++i) MC_CHECK(buffer[i] == 0x41 + i, "byte %d is %02X", i, buffer[i]);
    if (got < 3) MC_CHECK(sim::nowUs + kTickMs * 1000ull >= t, "receiveBlocking gives up after %llu us of its %u ms", (unsigned long long)sim::nowUs, timeout);
    MC_CHECK(sim::nowUs <= t + slack, "receiveBlocking returns after %llu us, its timeout is %u ms", (unsigned long long)sim::nowUs, timeout);
    mc::state(mc::Hash().u(timeout).u(given == 0).u(n).u(when));
}
#endif
