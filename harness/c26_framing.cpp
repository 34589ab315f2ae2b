// C26: every short line content against the framing rules of ReceiveUntil and ReceiveBetween.
#include "uart_common.h"
using namespace u;
using embedded::PacketUart;

namespace
{
// Everything the call needs was on the line in time: the exact result is known.
void checkExact(const Call &c, const Result &r, size_t available)
{
    const auto &rx = port().rx;
    size_t p = r.rxFrom, stop = r.rxFrom + available;
    Bytes want;
    bool complete = false;
    if (c.kind == 2)
    {
        if (c.size < 2) complete = true;
        else
        {
            while (p < stop && rx[p].value != c.start) ++p;
            if (p < stop) want.push_back(rx[p++].value);
        }
    }
    if (!(c.kind == 2 && want.empty()))
        while (want.size() < c.size && p < stop)
        {
            want.push_back(rx[p++].value);
            if (want.back() == c.end) { complete = true; break; }
        }
    complete = complete || want.size() == c.size;
    // (what arrived in time is delivered even when the call then times out)
    MC_CHECK(r.bytes == want, "%s(size %u, start %02x, end %02x) returns %s instead of %s", name(c), c.size, c.start, c.end,
             mc::hex(r.bytes.data(), r.count).c_str(), mc::hex(want.data(), want.size()).c_str());
    if (complete && !(c.kind == 2 && c.size < 2)) MC_CHECK(r.rxTo == p, "%s consumes %zu bytes instead of %zu", name(c), r.rxTo - r.rxFrom, p - r.rxFrom);
}
}

// everything is there at once; two calls in a row continue where the first one stopped
MC_SCENARIO(atOnce, 32, 4)
{
    reset(0);
    sim::horizonUs = 5000000;
    sim::pollCostUs = 10;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    const uint8_t start = mc::choose(3, "start byte") == 0 ? S : mc::flag() ? 0xFF : 0x00;
    const uint8_t end = mc::flag("end differs") ? E : start;
    const int n = mc::choose(mc::thorough ? 7 : 6, "bytes");
    for (int i = 0; i < n; ++i)
    {
        const uint8_t v[] = { start, 0x41, end };
        arrive(0, v[mc::choose(start == end ? 2 : 3, "byte")]);
    }
    noteLine();
    mc::Hash h;
    for (int k = 0; k < 2; ++k)
    {
        Call c { 1 + mc::choose(2, "call"), 0, 50, start, end };
        static const uint16_t sizes[] = { 2, 4, 8, 1, 0 };
        c.size = sizes[mc::choose(k ? 2 : 5, "buffer size")];
        const Result r = run(uart, c);
        MC_CHECK(r.returned, "%s does not return", name(c));
        checkFraming(c, r);
        checkExact(c, r, port().rx.size() - r.rxFrom);
        checkNotEarly(c, r);
        h.u(r.count).bytes(r.bytes.data(), r.count).u(r.rxTo);
    }
    mc::state(h); mc::outcome(h);
}

// every other byte before and between the marks, at once and one at a time
MC_SCENARIO(everyByte, 8, 2)
{
    static const uint8_t marks[] = { 0x7E, 0x00, 0xFF, 0x80, 0x0A };
    const uint8_t start = mc::pick(marks, "start byte"), end = mc::flag("ends with the same") ? start : uint8_t(start ^ (mc::flag("end byte") ? 0x01 : 0x80));
    static const uint64_t gaps[] = { 0, 1000, 15000, 130000 };
    const uint64_t gap = mc::pick(gaps, "gap");
    reset(0);
    sim::pollCostUs = 100;
    sim::horizonUs = 300000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    for (int v = 0; v < 256; ++v) if (v != start) arrive(gap, uint8_t(v));
    arrive(gap, start);
    for (int v = 0; v < 256; ++v) if (v != end) arrive(gap, uint8_t(v));
    arrive(gap, end);
    const Call b { 2, 1000, 65000, start, end };
    const Result r = run(uart, b);
    MC_CHECK(r.returned, "%s does not return", name(b));
    checkFraming(b, r);
    if (gap < 130000) checkExact(b, r, 512);
    for (int v = 0; v < 256; ++v) if (v != end) arrive(v == 0 ? sim::nowUs : gap, uint8_t(v));
    arrive(gap, end);
    const Call w { 1, 1000, 65000, start, end };
    const Result q = run(uart, w);
    MC_CHECK(q.returned, "%s does not return", name(w));
    checkFraming(w, q);
    if (gap < 130000) checkExact(w, q, port().rx.size() - q.rxFrom);
    mc::state(mc::Hash().u(start).u(end).u(gap).u(r.count).u(q.count));
}

// a flood of unrelated bytes, ended by what the call waits for, at some time before or after the timeout, or by nothing
MC_SCENARIO(flood, 32, 4)
{
    reset(0);
    static const uint16_t timeouts[] = { 40, 12, 300 };
    Call c { 2, 0, mc::pick(timeouts, "timeout"), S, E };
    static const uint64_t periods[] = { 1000, 90, 0, 9000, 13000 };
    const uint64_t period = mc::pick(periods, "period of the noise");
    const uint64_t t = c.timeout * 1000ull, total = t * 4 + 100000;
    static const uint8_t noise[] = { 0x41, E, 0xFF };
    const uint8_t v = mc::pick(noise, "noise");
    const uint64_t startAt = t * uint64_t(mc::choose(6, "start byte at")) / 4;   // 5/4: after the timeout
    bool started = false;
    size_t limit = period ? total / period : 20000;
    for (size_t i = 0; i < limit; ++i)
    {
        const uint64_t at = i * period;
        if (!started && startAt && startAt <= t * 5 / 4 && at >= startAt) { port().rx.push_back({ at, S }); started = true; }
        port().rx.push_back({ at, started && v == E ? uint8_t(0x42) : v });
    }
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint16_t sizes[] = { 3, 60 };
    c.size = mc::pick(sizes, "buffer size");
    sim::horizonUs = total * 4 + 5000000;
    const Result r = run(uart, c);
    MC_CHECK(r.returned, "%s does not return", name(c));
    checkFraming(c, r);
    checkContent(c, r);
    mc::state(mc::Hash().u(r.to).u(r.count).u(c.timeout).u(period).u(startAt));
}

// the line falls silent for any time before a byte, with timeouts of any length
MC_SCENARIO(late, 16, 3)
{
    reset(0);
    sim::horizonUs = 200000000;
    sim::pollCostUs = 2000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const uint32_t silences[] = { 0, 5, 100, 250, 260, 1000, 1010, 5000, 32000, 33000, 60000, 65000 };
    const int at = mc::choose(3, "silence before");
    const uint32_t silence = mc::pick(silences, "milliseconds");
    const int n = mc::thorough ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
        static const uint8_t v[] = { S, 0x41, E };
        arrive(i == at ? silence * 1000ull : 0, mc::pick(v, "byte"));
    }
    noteLine();
    mc::Hash h;
    for (int k = 0; k < 2; ++k)
    {
        Call c { 1 + mc::choose(2, "call"), 4, 65535, S, E };
        const Result r = run(uart, c);
        MC_CHECK(r.returned, "%s does not return", name(c));
        checkFraming(c, r);
        checkExact(c, r, port().rx.size() - r.rxFrom);
        checkNotEarly(c, r);
        h.u(r.count).bytes(r.bytes.data(), r.count).u(r.rxTo);
        // the line is empty now: another long wait shows nothing
        if (r.rxTo == port().rx.size() || sim::nowUs > 70000000) break;
    }
    mc::state(h); mc::outcome(h);
}

// many calls on one line, unframed reception and transmission among them
MC_SCENARIO(manyCalls, 48, 4)
{
    reset(0);
    sim::horizonUs = 5000000;
    sim::pollCostUs = 10;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    for (int i = 0; i < 6; ++i) { static const uint8_t v[] = { S, 0x41, E }; arrive(0, mc::pick(v, "byte")); }
    noteLine();
    mc::Hash h;
    for (int k = 0; k < (mc::thorough ? 5 : 4); ++k)
    {
        const int what = mc::choose(4, "call");
        if (what == 3)
        {
            const uint8_t d[] = { 1, 2 };
            MC_CHECK(uart.Send(d, 2, 100) == 2, "not sent");
            const Call c { 0, 1, 20, S, E };
            const Result r = run(uart, c);
            checkContent(c, r);
            continue;
        }
        const Call c { what == 2 ? 1 : 2, uint16_t(what == 1 ? 2 : 4), 50, S, E };
        const Result r = run(uart, c);
        MC_CHECK(r.returned, "%s does not return", name(c));
        checkFraming(c, r);
        checkExact(c, r, port().rx.size() - r.rxFrom);
        checkNotEarly(c, r);
        h.u(r.count).bytes(r.bytes.data(), r.count).u(r.rxTo);
    }
    mc::state(h); mc::outcome(h);
}

// pauses before each byte, shorter and longer than the timeout
MC_SCENARIO(pauses, 32, 4)
{
    reset(mc::choose(2, "clock") ? boots()[1] : 0);
    sim::horizonUs = 5000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    Call c { 1 + mc::choose(2, "call"), 0, 40, S, E };
    const int n = mc::choose(mc::thorough ? 5 : 4, "bytes");
    for (int i = 0; i < n; ++i)
    {
        static const uint64_t gaps[] = { 0, 7000, 25000, 90000 };
        const uint64_t g = mc::pick(gaps, "pause");
        static const uint8_t v[] = { S, 0x41, E };
        arrive(g, mc::pick(v, "byte"));
    }
    noteLine();
    static const uint16_t sizes[] = { 3, 2, 6 };
    c.size = mc::pick(sizes, "buffer size");
    const Result r = run(uart, c);
    MC_CHECK(r.returned, "%s does not return", name(c));
    checkFraming(c, r);
    checkNotEarly(c, r);
    // bytes that arrived well within the timeout are in the result
    size_t inTime = 0;
    for (auto &b : port().rx) if (b.at + kTickMs * 1000 + 1000 < c.timeout * 1000ull) ++inTime;
    if (r.rxTo < inTime && !satisfied(c, r)) mc::fail("%s leaves bytes on the line that arrived in time", name(c));
    mc::state(mc::Hash().u(r.count).bytes(r.bytes.data(), r.count).u(r.rxTo).u(r.to));
}

// no timeout given: the framing is the same when the line delivers all of it
MC_SCENARIO(noTimeout, 8, 3)
{
    reset(0);
    sim::horizonUs = 5000000;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    Call c { 1 + mc::choose(2, "call"), uint16_t(2 + mc::choose(4, "buffer size")), 0, S, E };
    const int n = mc::choose(6, "bytes");
    for (int i = 0; i < n; ++i) { static const uint8_t v[] = { 0x41, S, E }; arrive(0, mc::pick(v, "byte")); }
    noteLine();
    const Result r = run(uart, c);
    if (!r.returned) return;
    checkFraming(c, r);
    mc::state(mc::Hash().u(r.count).bytes(r.bytes.data(), r.count).u(r.rxTo));
}

// every pair of marks
MC_SCENARIO(everyMark, 8, 1)
{
    const int start = mc::choose(256, "start byte");
    for (int end = 0; end < 256; end += mc::thorough ? 1 : 5)
    {
        reset(0);
        sim::pollCostUs = 1;
        PacketUart::UartDevice dev(kPort);
        PacketUart uart(dev);
        const uint8_t other = uint8_t(start + 1 == (end & 255) ? start + 2 : start + 1);
        for (int v : { int(other), start, int(other), end, start, end }) arrive(0, uint8_t(v));
        Call b { 2, 8, 40, uint8_t(start), uint8_t(end) }, w { 1, 8, 40, uint8_t(start), uint8_t(end) };
        const Result r = run(uart, b);
        checkFraming(b, r); checkExact(b, r, 6);
        const Result q = run(uart, w);
        checkFraming(w, q); checkExact(w, q, 6 - q.rxFrom);
        mc::state(mc::Hash().u(start).u(end).u(r.count).u(q.count));
    }
}

// long packets: the marks at every kind of position
MC_SCENARIO(longPackets, 16, 3)
{
    reset(0);
    sim::pollCostUs = 1;
    PacketUart::UartDevice dev(kPort);
    PacketUart uart(dev);
    static const int lengths[] = { 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 32768, 65533, 65534, 65535 };
    const int before = mc::choose(3, "bytes before") * 3, length = mc::pick(lengths, "length");
    for (int i = 0; i < before; ++i) arrive(0, i & 1 ? E : 0x41);
    arrive(0, S);
    for (int i = 0; i < length - 2; ++i) arrive(0, i % 7 == 3 ? S : uint8_t(0x80 + i % 100));
    arrive(0, E);
    for (int i = 0; i < 5; ++i) arrive(0, i == 2 ? S : E);
    for (int k = 0; k < 2; ++k)
    {
        const int room = mc::choose(4, "buffer size");
        Call c { k ? 1 : 2 - mc::choose(2, "call"), 0, 60000, S, E };
        const int wanted = length + (c.kind == 1 ? before : 0);
        c.size = uint16_t(std::min(65535, room == 0 ? wanted : room == 1 ? wanted - 1 : room == 2 ? wanted + 1 : 65535));
        const Result r = run(uart, c);
        MC_CHECK(r.returned, "%s does not return", name(c));
        checkFraming(c, r);
        checkExact(c, r, port().rx.size() - r.rxFrom);
        checkNotEarly(c, r);
        mc::state(mc::Hash().u(r.count).u(r.rxTo).u(length).u(before));
    }
}
