// C10: every 16 bit and every 32 bit value.
#include "mc.h"
#include "EndianConversion.h"
#include <cstring>
#include <type_traits>

using namespace embedded;

MC_SCENARIO(values16, 1, 1)
{
    static_assert(std::is_same_v<decltype(changeEndianess(uint16_t(0))), uint16_t>);
    static_assert(std::is_same_v<decltype(changeEndianess(uint32_t(0))), uint32_t>);
    const unsigned hi = unsigned(mc::choose(256, "high byte"));
    for (unsigned lo = 0; lo < 256; ++lo)
    {
        const uint16_t v = uint16_t(hi << 8 | lo);
        unsigned char in[2], out[2];
        memcpy(in, &v, 2);
        const uint16_t r = changeEndianess(v);
        memcpy(out, &r, 2);
        MC_CHECK(in[0] == out[1] && in[1] == out[0], "changeEndianess(0x%04x) = 0x%04x", v, r);
        MC_CHECK(changeEndianess(r) == v, "converting 0x%04x twice gives 0x%04x", v, changeEndianess(r));
        mc::state(v);
    }
    mc::step(256);
    mc::outcome(hi);
}

MC_SCENARIO(values32, 64, 1)
{
    const uint32_t top = uint32_t(mc::choose(1024, "high bits")) << 22;
    for (uint32_t low = 0; low < (1u << 22); low += 1u << 12)
    {
        uint32_t bad = 0, badBits = 0, first = 0;
        for (uint32_t i = 0; i < (1u << 12); ++i)
        {
            const uint32_t v = top | low | i;
            const uint32_t expected = (v << 24) | ((v & 0xFF00u) << 8) | ((v >> 8) & 0xFF00u) | (v >> 24);
            const uint32_t halves = ((v & 0x00FF00FFu) << 8) | ((v >> 8) & 0x00FF00FFu);
            const uint32_t r = changeEndianess(v);
            uint32_t w = v;
            changeEndianess16x2(&w);
            const float f = changeEndianessToFloat(v);
            uint32_t fb;
            memcpy(&fb, &f, 4);
            const uint32_t d = (r ^ expected) | (changeEndianess(r) ^ v) | (w ^ halves) | (fb ^ expected);
            if (d && !bad) { first = v; badBits = (r != expected ? 1 : 0) | (changeEndianess(r) != v ? 2 : 0) | (w != halves ? 4 : 0) | (fb != expected ? 8 : 0); }
            bad |= d;
        }
        MC_CHECK(!bad, "0x%08x: %s%s%s%s", first, badBits & 1 ? "wrong conversion " : "", badBits & 2 ? "not an involution " : "",
                 badBits & 4 ? "wrong 16x2 conversion " : "", badBits & 8 ? "wrong float bits" : "");
        mc::step(1u << 12);
        mc::state(top | low);
    }
    mc::outcome(top);
}
