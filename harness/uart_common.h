// The packet UART of both platforms on a simulated line (C08, C25-C28).
#pragma once
#include "mc.h"
#ifdef PLAT_ARDUINO
#include "arduino/PacketUartImpl.h"
constexpr uint32_t kTickMs = 1;
#else
#include "esp32-esp-idf/PacketUartImpl.h"
#include "driver/uart.h"
constexpr uint32_t kTickMs = 10;
#endif
#include <memory>

namespace u
{
using Bytes = std::vector<uint8_t>;
constexpr int kPort = 1;
struct Horizon {};                       // the call cannot return any more

inline void reset(uint64_t bootUs)
{
    sim::nowUs = 0; sim::bootUs = bootUs; sim::pollCostUs = 50; sim::horizonUs = ~0ull;
    sim::onHorizon = [] { throw Horizon {}; };
    sim::ports = {};
#ifndef PLAT_ARDUINO
    sim::fault = nullptr; sim::clockCost = nullptr; sim::calls.clear();
    sim::ports[kPort].installed = true;
#endif
}
inline auto &port() { return sim::ports[kPort]; }

// What the port accepts of the bytes of one call, however many driver calls they are passed in.
typedef decltype(port().accept(nullptr, 0)) Accepted;
struct Limit
{
    size_t left = ~size_t(0);
    bool fails = false, recovers = false;   // an error instead of nothing accepted; all is accepted after the first that was not
    bool hit = false;
    // the choices: everything, half, nothing, an error (where there is one), half and then all again
    enum { kAll, kHalf, kNothing, kHalfOnce,
#ifndef PLAT_ARDUINO
        kError,
#endif
        kKinds };
    void set(int kind, size_t size)
    {
        left = kind == kAll ? ~size_t(0) : kind == kHalf || kind == kHalfOnce ? size / 2 : 0;
        recovers = kind == kHalfOnce; hit = false;
#ifndef PLAT_ARDUINO
        fails = kind == kError;
#endif
    }
    Accepted operator()(size_t n)
    {
        if (n <= left) { left -= n; return Accepted(n); }
        const size_t r = left;
        hit = true;
        left = recovers ? ~size_t(0) : 0;
#ifndef PLAT_ARDUINO
        if (r == 0 && fails) return -1;
#endif
        return Accepted(r);
    }
};

struct Call { int kind; uint16_t size; uint16_t timeout; uint8_t start, end; bool byDefault = false; };   // kind 0: Receive, 1: until, 2: between
struct Result { bool returned = false; size_t count = 0; Bytes bytes; uint64_t from = 0, to = 0; size_t rxFrom = 0, rxTo = 0; };

inline const char* name(const Call &c) { return c.kind == 0 ? "Receive" : c.kind == 1 ? "ReceiveUntil" : "ReceiveBetween"; }

inline Result run(embedded::PacketUart &uart, const Call &c)
{
    Result r;
    std::unique_ptr<uint8_t[]> buffer(new uint8_t[c.size]);
    memset(buffer.get(), 0xEE, c.size);
    r.from = sim::nowUs; r.rxFrom = port().rxPos;
    try
    {
        if (c.byDefault)                // (timeout says which one that has to be)
            r.count = c.kind == 0 ? uart.Receive(buffer.get(), c.size)
                    : c.kind == 1 ? uart.ReceiveUntil(buffer.get(), c.size, c.end)
                                  : uart.ReceiveBetween(buffer.get(), c.size, c.start, c.end);
        else
        r.count = c.kind == 0 ? uart.Receive(buffer.get(), c.size, c.timeout)
                : c.kind == 1 ? uart.ReceiveUntil(buffer.get(), c.size, c.end, c.timeout)
                              : uart.ReceiveBetween(buffer.get(), c.size, c.start, c.end, c.timeout);
        r.returned = true;
    }
    catch (const Horizon &) {}
    r.to = sim::nowUs; r.rxTo = port().rxPos;
    if (r.returned)
    {
        MC_CHECK(r.count <= c.size, "%s returns %zu for a buffer of %u bytes", name(c), r.count, c.size);
        r.bytes.assign(buffer.get(), buffer.get() + r.count);
        mc::note("%s(size %u, start %02x, end %02x, timeout %u) at %llu us -> %zu bytes %s at %llu us; %zu taken from the line", name(c), c.size, c.start, c.end, c.timeout,
                 (unsigned long long)r.from, r.count, mc::hex(r.bytes.data(), std::min<size_t>(r.count, 32)).c_str(), (unsigned long long)r.to, r.rxTo - r.rxFrom);
    }
    else mc::note("%s(size %u, timeout %u) does not return", name(c), c.size, c.timeout);
    mc::step();
    return r;
}

inline Bytes taken(const Result &r)
{
    Bytes b;
    for (size_t i = r.rxFrom; i < r.rxTo; ++i) b.push_back(port().rx[i].value);
    return b;
}

// the result is exactly what was taken from the line; a packet may have dropped what precedes its start byte
inline void checkContent(const Call &c, const Result &r)
{
    const Bytes t = taken(r);
    MC_CHECK(r.count <= t.size(), "%s returns %zu bytes (%s), %zu were taken from the line", name(c), r.count, mc::hex(r.bytes.data(), r.count).c_str(), t.size());
    const size_t dropped = t.size() - r.count;
    MC_CHECK(std::equal(r.bytes.begin(), r.bytes.end(), t.begin() + dropped), "%s returns %s, the line delivered %s", name(c),
             mc::hex(r.bytes.data(), r.count).c_str(), mc::hex(t.data(), t.size()).c_str());
    if (c.kind != 2) MC_CHECK(dropped == 0, "%s returns %zu bytes of the %zu it took from the line", name(c), r.count, t.size());
    else for (size_t i = 0; i < dropped; ++i) MC_CHECK(t[i] != c.start, "%s drops a start byte: %s taken, %s returned", name(c), mc::hex(t.data(), t.size()).c_str(), mc::hex(r.bytes.data(), r.count).c_str());
}

// what the call was waiting for has arrived in its result
inline bool satisfied(const Call &c, const Result &r)
{
    if (r.count == c.size) return true;
    if (c.kind == 1) return r.count && r.bytes.back() == c.end;
    if (c.kind == 2) return r.count > 1 && r.bytes.back() == c.end;
    return false;
}

// framing: where the result has to begin and to end
inline void checkFraming(const Call &c, const Result &r)
{
    if (c.kind == 0) return;
    if (c.kind == 2 && c.size < 2) { MC_CHECK(r.count == 0, "%s returns %zu bytes in a buffer too small for both marks", name(c), r.count); return; }
    const Bytes t = taken(r);
    size_t from = 0;
    if (c.kind == 2)
    {
        if (r.count) MC_CHECK(r.bytes[0] == c.start, "%s returns %s, which does not begin with the start byte %02x", name(c), mc::hex(r.bytes.data(), r.count).c_str(), c.start);
        from = 1;
    }
    for (size_t i = from; i + 1 < r.count; ++i)
        MC_CHECK(r.bytes[i] != c.end, "%s returns %s: it goes on after the end byte %02x", name(c), mc::hex(r.bytes.data(), r.count).c_str(), c.end);
    // nothing after the end byte is consumed
    if (r.count > from && r.bytes.back() == c.end && !t.empty()) MC_CHECK(t.back() == c.end, "%s consumes %s beyond the end byte", name(c), mc::hex(t.data(), t.size()).c_str());
    checkContent(c, r);
}

inline void checkNotEarly(const Call &c, const Result &r)
{
    if (c.timeout == 0 || c.size == 0 || (c.kind == 2 && c.size < 2) || satisfied(c, r)) return;
    const uint64_t elapsed = r.to - r.from;
    MC_CHECK(elapsed + kTickMs * 1000ull >= c.timeout * 1000ull, "%s gives up after %llu us of its %u ms with %zu of %u bytes", name(c), (unsigned long long)elapsed, c.timeout, r.count, c.size);
}

inline void checkNotLate(const Call &c, const Result &r)
{
    if (c.timeout == 0) return;
    const uint64_t slack = kTickMs * 2000ull + 40 * sim::pollCostUs;
    MC_CHECK(r.returned, "%s with a timeout of %u ms is still waiting after %llu us", name(c), c.timeout, (unsigned long long)(r.to - r.from));
    uint64_t base = r.from;
    if (r.count) base = std::max(base, port().consumedAt[r.rxTo - 1]);
    MC_CHECK(r.to <= base + c.timeout * 1000ull + slack, "%s with a timeout of %u ms returns %llu us after its last byte (%zu bytes)", name(c), c.timeout, (unsigned long long)(r.to - base), r.count);
}

// a script: each byte with the pause before it
inline void arrive(uint64_t afterUs, uint8_t value)
{
    auto &rx = port().rx;
    const uint64_t base = rx.empty() ? sim::nowUs : std::max<uint64_t>(rx.back().at, 0);
    rx.push_back({ base + afterUs, value });
}

inline const std::vector<uint64_t> &boots()
{
    static const std::vector<uint64_t> b = { 0, 4294967296000ull - 5000, 4294967296ull - 5000, 65536000ull - 5000, 2147483648000ull - 5000 };
    return b;
}
constexpr uint8_t S = 0x7E, E = 0x03;
inline void line(const char* text) { mc::note("line: %s", text); }
inline void noteLine()
{
    if (!mc::logging) return;
    std::string s;
    for (auto &b : port().rx) { if (s.size() > 400) { s += "..."; break; } char t[40]; snprintf(t, sizeof t, "%02x@%llu ", b.value, (unsigned long long)b.at); s += t; }
    mc::note("line: %s", s.c_str());
}
}
