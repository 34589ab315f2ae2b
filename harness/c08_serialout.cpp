// C08: every short sequence of items and line ends, byte by byte on the simulated wire of both platforms.
#include "uart_common.h"
#include "bo_common.h"
#include "SerialOut.h"
#include "Debug.h"
using namespace u;
using embedded::PacketUart;
using embedded::SerialOut;

namespace
{
struct Case
{
    std::unique_ptr<char[]> buffer;
    PacketUart::UartDevice dev;
    PacketUart uart;
    SerialOut out;
    bo::Model m;
    bool faulty = false;              // the driver did not accept everything since the last check
    Limit limit;
    std::function<void(size_t)> transmission;
    size_t wire = 0;                  // bytes on the wire so far
    explicit Case(size_t n) : buffer(new char[n]), dev(kPort), uart(dev), out(embedded::MemoryView<char>(buffer.get(), n), uart) { m.capacity = n; }

    std::string sent() { std::string s(port().tx.begin() + wire, port().tx.end()); wire = port().tx.size(); return s; }
    void quiet(const char* what)
    {
        const std::string s = sent();
        MC_CHECK(s.empty(), "inserting %s sends \"%s\"", what, mc::esc(s).c_str());
        mc::step();
    }
    void item(int k)
    {
        switch (k)
        {
            case 0: out << "ab"; m.str("ab"); quiet("text"); break;
            case 1: out << -12; number(-12); break;
            case 2: out << 7ull; number(7); break;
            case 3: out << (unsigned char)(0x5C); m.hexByte(0x5C); quiet("a byte"); break;
            case 4: out << SerialOut::precision { 1 } << 2.5f; m.precision = 1; m.str(m.room() >= 1 ? "2.5" : ""); quiet("a float"); break;
            case 5: { static const uint8_t b[] = { 1, 2, 3 }; out << embedded::ConstBytesView(b, 3); for (uint8_t x : b) m.hexByte(x); quiet("bytes"); break; }
            case 6: out << ""; quiet("nothing"); break;
            case 7: out << 123456u; number(123456); break;
            case 8: out << -5l; number(-5); break;
            case 9: out << 99ul; number(99); break;
            case 10: out << -1234567890123ll; number(-1234567890123ll); break;
            case 11: out << "\n\r\xff text of some length"; m.str("\n\r\xff text of some length"); quiet("long text"); break;
            case 12: out << SerialOut::precision { 3 }; m.precision = 3; quiet("a precision"); break;
            case 13: out << 1.0625f; m.str(m.precision == 0 ? "1" : m.precision == 1 ? "1.0" : m.precision == 3 ? "1.062" : "1.062500000"); quiet("a float"); break;
            case 14: out << SerialOut::precision { 9 } << -1.0078125f; m.precision = 9; if (m.room() >= 2) m.str("-1.007812500"); quiet("a float"); break;
        }
    }
    void number(__int128 v)
    {
        const std::string d = bo::decimal(v);
        if (d.size() <= m.room()) m.text += d;
        quiet("a number");
    }
    void end(bool newLine)
    {
        if (transmission) transmission(m.text.size() + newLine);
        if (newLine) out << SerialOut::endl {}; else out << SerialOut::end {};
        const std::string text = m.text, want = text + (newLine ? "\n" : ""), got = sent();
        faulty = limit.hit;
        mc::note("%s of \"%s\" sends \"%s\"%s", newLine ? "endl" : "end", mc::esc(text).c_str(), mc::esc(got).c_str(), faulty ? " (fault)" : "");
        if (!faulty) MC_CHECK(got == want, "%s after \"%s\" (buffer of %zu) sends \"%s\" instead of \"%s\"", newLine ? "endl" : "end", mc::esc(text).c_str(), m.capacity, mc::esc(got).c_str(), mc::esc(want).c_str());
        else
        {
            const bool prefix = want.compare(0, got.size(), got) == 0;
            const bool cutLine = newLine && !got.empty() && got.back() == '\n' && text.compare(0, got.size() - 1, got, 0, got.size() - 1) == 0;
            MC_CHECK(prefix || cutLine, "%s after \"%s\" with a failing port sends \"%s\"", newLine ? "endl" : "end", mc::esc(text).c_str(), mc::esc(got).c_str());
        }
        // the settings end with their line; whether an empty piece ends them too is not specified
        if (text.empty() && !newLine && m.precision != 0) out << SerialOut::precision { 0 };
        m.clear();
        mc::step();
    }
};

void explore(const std::vector<size_t> &sizes, const std::vector<int> &items, int depth, int faults)
{
    reset(0);
    sim::horizonUs = 1000000000;
    Case c(mc::pick(sizes, "buffer size"));
    mc::budget(faults);
    c.transmission = [&c](size_t n) { c.limit.set(mc::deviate(Limit::kKinds, "driver"), n); };
    port().accept = [&c](const uint8_t*, size_t n) { return c.limit(n); };
    for (int i = 0; i < depth; ++i)
    {
        const int k = mc::choose(int(items.size()) + 2, "item");
        if (k < 2) c.end(k == 0); else c.item(items[k - 2]);
    }
    c.end(true);
    c.end(false);
    mc::Hash h;
    h.bytes(port().tx.data(), port().tx.size()).u(c.m.capacity);
    mc::state(h); mc::outcome(h);
}
}

MC_SCENARIO(lines, 32, 3)
{
    explore({ 1, 2, 3, 4, 5, 6, 8, 16 }, mc::thorough ? std::vector<int> { 0, 1, 2, 3, 4, 5, 6, 8 } : std::vector<int> { 0, 1, 3, 4, 5, 6 }, mc::thorough ? 6 : 5, 0);
}
MC_SCENARIO(everyItem, 16, 2) { explore({ 1, 3, 7, 13, 14, 24, 40 }, { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }, mc::thorough ? 4 : 3, 0); }
// settings last until the end of their line
MC_SCENARIO(settings, 16, 2) { explore({ 1, 4, 9, 30 }, { 0, 4, 12, 13, 14 }, mc::thorough ? 6 : 5, 0); }
MC_SCENARIO(failingPort, 32, 3) { explore({ 1, 2, 4, 8 }, { 0, 1, 5 }, mc::thorough ? 6 : 5, mc::thorough ? 3 : 2); }

// two outputs on one port, and on two ports
MC_SCENARIO(twoOutputs, 8, 3)
{
    reset(0);
    Case a(4), b(6);
    for (int i = 0; i < 5; ++i)
    {
        Case &c = mc::flag("output") ? b : a;
        c.wire = port().tx.size();
        const int k = mc::choose(4, "item");
        if (k < 2) c.end(k == 0); else c.item(k == 2 ? 0 : 1);
    }
    mc::state(mc::Hash().bytes(port().tx.data(), port().tx.size()));
}

// buffers and lines around 2^8 and 2^16
MC_SCENARIO(longLines, 8, 2)
{
    reset(0);
    static const size_t sizes[] = { 127, 128, 129, 255, 256, 257, 4096, 32768, 65534, 65535 };
    Case c(mc::pick(sizes, "buffer size"));
    const int less = mc::choose(4, "text shorter by") - 1;
    const std::string t(c.m.capacity - size_t(less), 'L');
    for (int i = 0; i < 2; ++i)
    {
        c.out << t.c_str(); c.m.str(t); c.quiet("long text");
        c.end(mc::flag("endl"));
    }
    c.item(0); c.end(true);
    mc::state(mc::Hash().u(c.m.capacity).u(less).u(port().tx.size()));
}

// debug messages: each one is a line of its own on the first port, evaluated once, of up to 128 characters
MC_SCENARIO(debugMessages, 8, 3)
{
    reset(0);
#ifndef PLAT_ARDUINO
    sim::ports[0].installed = true;
#endif
    // (the output is a global one: it may still hold the text of an exploration that was left inside the driver)
    embedded::SerialDebug << SerialOut::end {};
    auto &wire = sim::ports[0].tx;
    wire.clear();
    static const size_t lengths[] = { 0, 1, 5, 15, 16, 62, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 300 };
    bool faulty = false;
    mc::budget(1);
    Limit limit;
    sim::ports[0].accept = [&limit](const uint8_t*, size_t n) { return limit(n); };
    size_t seen = 0;
    for (int i = 0; i < (mc::thorough ? 4 : 3); ++i)
    {
        bo::Model m;
        m.capacity = 128;
        const std::string text(mc::pick(lengths, "length"), char('a' + i));
        limit.set(mc::deviate(Limit::kKinds, "driver"), std::min<size_t>(text.size(), 128));
        int evaluated = 0;
        auto once = [&](int v) { ++evaluated; return v; };
        // a message as a single statement of a condition, and in a loop
        switch (mc::choose(4, "message"))
        {
            case 0: DEBUG_LOG(text.c_str() << once(-7)); m.str(text); { const std::string d = "-7"; if (m.room() >= 2) m.text += d; } break;
            case 1: DEBUG_LOG(once(42) << text.c_str()); m.str("42" + text); break;
            case 2: for (int k = 0; k < 1; ++k) DEBUG_LOG(SerialOut::precision { 2 } << -1.25f << " " << text.c_str() << once('x' - 'x')); m.str("-1.25 " + text); if (m.room() >= 1) m.text += "0"; break;
            default: DEBUG_LOG(embedded::ConstBytesView(reinterpret_cast<const uint8_t*>(text.data()), text.size()) << once(3)); for (size_t k = 0, n = std::min(text.size(), m.room() / 2); k < n; ++k) m.hexByte(uint8_t(text[k])); if (m.room() >= 1) m.text += "3";
        }
        MC_CHECK(evaluated == 1, "the message is evaluated %d times", evaluated);
        const std::string got(wire.begin() + seen, wire.end()), want = m.text + "\n";
        seen = wire.size();
        faulty = limit.hit;
        mc::note("message of %zu characters sends %zu%s", m.text.size(), got.size(), faulty ? " (fault)" : "");
        if (!faulty) MC_CHECK(got == want, "a message sends \"%s\" instead of \"%s\"", mc::esc(got).c_str(), mc::esc(want).c_str());
        else
        {
            const bool prefix = want.compare(0, got.size(), got) == 0;
            const bool cutLine = !got.empty() && got.back() == '\n' && m.text.compare(0, got.size() - 1, got, 0, got.size() - 1) == 0;
            MC_CHECK(prefix || cutLine, "a message with a failing port sends \"%s\"", mc::esc(got).c_str());
        }
        mc::step();
    }
    for (auto &p : sim::ports) MC_CHECK(&p == &sim::ports[0] || p.tx.empty(), "a message reaches another port");
    mc::state(mc::Hash().bytes(wire.data(), wire.size()));
}
// an output in use for a long time: more than 2^16 lines
MC_SCENARIO(longUse, 4, 1)
{
    reset(0);
    static const size_t sizes[] = { 1, 5, 16 };
    Case c(mc::pick(sizes, "buffer size"));
    const int first = mc::choose(4, "items");
    for (int i = 0; i < 70000; ++i)
    {
        if (i % 200 == 0) { port().tx.clear(); port().txOut = 0; c.wire = 0; }
        c.item(first == 0 ? 0 : first == 1 ? 1 : first == 2 ? 3 : i % 6);
        if (first == 3 && i % 3 == 0) c.item(1);
        c.end(i % 4 != 0);
    }
    mc::state(mc::Hash().u(c.m.capacity).u(first));
}
