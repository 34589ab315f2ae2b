// C18: glyph lookup for every code in fonts of every range.
#include "gfx_common.h"
#include "graphics/EmbeddedFonts.h"

namespace
{
using embedded::fonts::FontDescriptor;
using embedded::fonts::GlyphDescriptor;
using GFXfont = FontDescriptor;
using GFXglyph = GlyphDescriptor;
#define PROGMEM
#include "graphics/GFXFonts/FreeSans15pt7b.h"

void check(const TestFont &f, int code)
{
    const auto b = f.font->getBitmap(char(code));
    const size_t i = f.lookup(static_cast<unsigned char>(code));
    const auto &g = f.glyphs[i];
    MC_CHECK(b.width == g.advance && b.effectiveSize.width == g.w && b.effectiveSize.height == g.h && b.offset.width == g.dx && b.offset.height == g.dy,
             "font %02X..%02X with %zu glyphs: code %02X gives another glyph than number %zu", f.desc.first, f.desc.last, f.glyphs.size(), code, i);
    MC_CHECK(b.bitmap.begin() == f.data.get() + f.start[i], "font %02X..%02X: code %02X: the data begins at %td instead of %zu", f.desc.first, f.desc.last, code, b.bitmap.begin() - f.data.get(), f.start[i]);
    MC_CHECK(b.bitmap.size() == f.start[i + 1] - f.start[i], "font %02X..%02X: code %02X: %zu bytes of data instead of %zu", f.desc.first, f.desc.last, code, size_t(b.bitmap.size()), f.start[i + 1] - f.start[i]);
    mc::step();
}
// number of glyphs a complete font of this range has
int complete(int first, int last)
{
    int n = 0;
    for (int c = first; c <= last; ++c) n += !(first <= 0x7E && c > 0x7E && c < 0xA0);
    return n;
}
}

// every first and last code; complete fonts and fonts with missing or surplus glyphs
MC_SCENARIO(everyRange, 48, 1)
{
    const int first = mc::choose(256, "first");
    const int missing = mc::choose(4, "missing");
    for (int last = first; last < 256; ++last)
    {
        if (!mc::thorough && missing && (last & 3) && last != 0x7E && last != 0x7F && last != 0x9F && last < 0xFE) continue;
        int n = complete(first, last);
        if (missing == 1) n -= 1;
        if (missing == 2) n = 1;
        if (missing == 3) n += 2;
        if (n < 1 || n > 256) continue;
        std::vector<TestFont::Glyph> g;
        for (int i = 0; i < n; ++i) g.push_back(makeGlyph(i % 5, 1 + i % 3, i % 7 - 3, -(i % 11), i, uint32_t(i * 77)));
        TestFont f(std::move(g), uint8_t(first), uint8_t(last), size_t(first % 3), size_t(last % 3));
        for (int code = -128; code < 256; code += 1) if (code >= 0 ? code < 128 : true) check(f, code & 255);
    }
    mc::state(mc::Hash().u(first).u(missing));
}

// glyph data beyond 2^15 bytes
MC_SCENARIO(bigFont, 16, 2)
{
    const int size = mc::choose(6, "size"), tail = mc::choose(2, "tail");
    static const int dims[][2] = { { 255, 16 }, { 128, 30 }, { 255, 60 }, { 255, 255 }, { 127, 127 }, { 64, 64 } };
    const int bytes = (dims[size][0] * dims[size][1] + 7) / 8;
    std::vector<TestFont::Glyph> g;
    for (int i = 0, at = 0; i < 95 && at <= 65535; ++i, at += bytes) g.push_back(makeGlyph(dims[size][0], dims[size][1], -128 + i, 127 - i, 160 + i, 0x12345 * (i + 1)));
    TestFont f(std::move(g), 0x20, 0x7E, 0, tail ? 5 : 0);
    for (int code = 0; code < 256; ++code) check(f, code);
    mc::state(mc::Hash().u(size).u(tail));
}

// the font that comes with the library is the one in its header
MC_SCENARIO(libraryFont, 8, 1)
{
    const int code = mc::choose(256, "code");
    const auto b = embedded::fonts::FreeSans15pt.getBitmap(char(code));
    const size_t n = FreeSans15pt7b.glyph.size();
    MC_CHECK(n == 0x7E - 0x20 + 1, "the library font has %zu glyphs", n);
    const size_t i = code >= 0x20 && code <= 0x7E ? size_t(code - 0x20) : 0;
    const auto &g = FreeSans15pt7b.glyph[i];
    const size_t end = i + 1 < n ? FreeSans15pt7b.glyph[i + 1].bitmapOffset : FreeSans15pt7b.bitmap.size();
    MC_CHECK(b.width == g.shift && b.effectiveSize.width == g.size.width && b.effectiveSize.height == g.size.height && b.offset.width == g.offset.width && b.offset.height == g.offset.height, "code %02X: other glyph", code);
    MC_CHECK(b.bitmap.size() == end - g.bitmapOffset, "code %02X: %zu bytes instead of %zu", code, size_t(b.bitmap.size()), end - g.bitmapOffset);
    MC_CHECK(size_t(b.bitmap.size()) * 8 >= size_t(g.size.width) * g.size.height, "code %02X: the data is shorter than the glyph", code);
    MC_CHECK(std::equal(b.bitmap.begin(), b.bitmap.end(), FreeSans15pt7b.bitmap.begin() + g.bitmapOffset), "code %02X: other bits", code);
    mc::step();
    mc::state(mc::Hash().u(i).bytes(b.bitmap.begin(), b.bitmap.size()));
}

// the library's own font shows the printable ASCII characters as released
MC_SCENARIO(libraryFontPictures, 1, 0)
{
    static const struct { int width, height, advance, left, top; uint32_t bits; } released[] = {
#include "builtin_font.inc"
    };
    static_assert(std::size(released) == 95);
    const int code = 0x20 + mc::choose(95, "character");
    const auto &r = released[code - 0x20];
    const auto b = embedded::fonts::FreeSans15pt.getBitmap(char(code));
    MC_CHECK(b.effectiveSize.width == r.width && b.effectiveSize.height == r.height && b.width == r.advance && b.offset.width == r.left && b.offset.height == r.top,
             "'%c' is %dx%d at %d,%d, advance %d, instead of %dx%d at %d,%d, advance %d", code, b.effectiveSize.width, b.effectiveSize.height, b.offset.width, b.offset.height, b.width, r.width, r.height, r.left, r.top, r.advance);
    uint32_t h = 2166136261u;
    for (int k = 0; k < r.width * r.height; ++k) { h ^= (b.bitmap.begin()[k / 8] >> (7 - k % 8)) & 1; h *= 16777619u; }
    mc::step();
    MC_CHECK(h == r.bits, "'%c' has other pixels", code);
    mc::state(mc::Hash().u(code).u(h));
}
