// C21: every sequence of bits, bytes and flushes against a list of bits.
#include "mc.h"
#include <cstring>
#include <string>
#include <vector>
#include "gfx-font-converter/BitStream.h"

namespace
{
struct Sink
{
    std::vector<uint8_t> bytes;
    Sink &operator<<(uint8_t b) { bytes.push_back(b); return *this; }
};
struct Model
{
    std::vector<bool> bits;
    void bit(bool b) { bits.push_back(b); }
    void byte(uint8_t v) { for (int i = 7; i >= 0; --i) bits.push_back((v >> i) & 1); }
    void flush() { while (bits.size() % 8) bits.push_back(false); }
    // the bytes that must be there: at least all complete ones
    uint8_t at(size_t i) const { uint8_t v = 0; for (int k = 0; k < 8; ++k) v = uint8_t(v << 1 | bits[i * 8 + k]); return v; }
};
void compare(const Sink &s, const Model &m, const char* what)
{
    MC_CHECK(s.bytes.size() == m.bits.size() / 8, "%s: %zu bytes after %zu bits", what, s.bytes.size(), m.bits.size());
    for (size_t i = 0; i < s.bytes.size(); ++i) MC_CHECK(s.bytes[i] == m.at(i), "%s: byte %zu of %zu is %02X instead of %02X", what, i, s.bytes.size(), s.bytes[i], m.at(i));
}
}

// every sequence of bits, of bytes of several values, and flushes
MC_SCENARIO(sequences, 48, 4)
{
    static const uint8_t bytes[] = { 0x00, 0xFF, 0xA5, 0x01, 0x80 };
    Sink s;
    BitStream<Sink> b(s);
    Model m;
    const int n = mc::thorough ? 9 : 7;
    for (int i = 0; i < n; ++i)
    {
        const int op = mc::choose(8, "operation");
        if (op < 2) { b << bool(op); m.bit(op); }
        else if (op < 7) { b << bytes[op - 2]; m.byte(bytes[op - 2]); }
        else { b.flush(); m.flush(); }
        mc::step();
        compare(s, m, "after the operation");
    }
    mc::Hash h; h.bytes(s.bytes.data(), s.bytes.size()).u(m.bits.size() % 8);
    mc::state(h);
    b.flush();
    m.flush();
    compare(s, m, "after the flush");
    b.flush();
    compare(s, m, "after another flush");
}
// every sequence of bits
MC_SCENARIO(bitsOnly, 48, 6)
{
    Sink s;
    BitStream<Sink> b(s);
    Model m;
    const int n = mc::thorough ? 20 : 17, flushAt = mc::choose(n + 1, "flush at");
    for (int i = 0; i < n; ++i)
    {
        if (i == flushAt) { b.flush(); m.flush(); compare(s, m, "after the flush"); }
        const bool v = mc::flag("bit");
        b << v;
        m.bit(v);
    }
    mc::step(n);
    compare(s, m, "after the bits");
    b.flush();
    m.flush();
    compare(s, m, "at the end");
    mc::Hash h; h.bytes(s.bytes.data(), s.bytes.size());
    mc::state(h);
}
// every byte at every bit position, twice, with bits in between
MC_SCENARIO(everyByte, 16, 1)
{
    const int v = mc::choose(256, "byte");
    for (int lead = 0; lead < 18; ++lead)
        for (int between = 0; between < 18; ++between)
            for (int w : { 0, 0xFF, 0x5A, 255 - v })
                for (int one = 0; one < 2; ++one)
                {
                    Sink s;
                    BitStream<Sink> b(s);
                    Model m;
                    for (int i = 0; i < lead; ++i) { b << bool((i + one) & 1); m.bit((i + one) & 1); }
                    b << uint8_t(v); m.byte(uint8_t(v));
                    for (int i = 0; i < between; ++i) { b << bool(one); m.bit(one); }
                    b << uint8_t(w); m.byte(uint8_t(w));
                    compare(s, m, "before the flush");
                    b.flush(); m.flush();
                    compare(s, m, "after the flush");
                    b << uint8_t(w) << true; m.byte(uint8_t(w)); m.bit(true);
                    b.flush(); m.flush();
                    compare(s, m, "after more");
                    mc::step(lead + between + 6);
                }
    mc::state(mc::Hash().u(v));
}
// glyphs one after another: bits of every number, flushed each time
MC_SCENARIO(glyphs, 16, 2)
{
    const int w = mc::choose(40, "width"), h = mc::choose(16, "height");
    Sink s;
    BitStream<Sink> b(s);
    Model m;
    for (int g = 0; g < 5; ++g)
    {
        for (int i = 0; i < w * h; ++i) { const bool v = (i * 2654435761u + g * 77) >> 13 & 1; b << v; m.bit(v); }
        b.flush(); m.flush();
        compare(s, m, "after a glyph");
        mc::step(w * h + 1);
    }
    mc::state(mc::Hash().u(w).u(h));
}
// one stream for a whole font: more than 2^16 bytes and 2^19 bits, in groups of every length
MC_SCENARIO(longStream, 8, 1)
{
    const int unit = 1 + mc::choose(8, "bits between bytes");
    Sink s;
    BitStream<Sink> b(s);
    Model m;
    for (int i = 0; s.bytes.size() < 70000; ++i)
    {
        for (int k = 0; k < unit; ++k) { const bool v = (i * 40503u + unsigned(k) * 77) >> 9 & 1; b << v; m.bit(v); }
        if (i % 3 == 0) { b << uint8_t(i * 7); m.byte(uint8_t(i * 7)); }
        if (i % 1000 == 999) { b.flush(); m.flush(); }
    }
    mc::step(70000);
    compare(s, m, "a long stream");
    b.flush(); m.flush();
    compare(s, m, "a long stream, flushed");
    mc::state(mc::Hash().u(unit));
}
