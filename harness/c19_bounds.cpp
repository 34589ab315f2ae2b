// C19: text bounds against the picture of the text.
#include "gfx_common.h"
#include "graphics/EmbeddedFonts.h"

namespace
{
void check(const embedded::fonts::EmbeddedFont &font, std::string_view text, const std::vector<TestFont::Glyph> &glyphs, bool draw)
{
    const auto b = font.getTextBounds(text);
    mc::step();
    if (text.empty())
    {
        MC_CHECK(b.topLeft.x == 0 && b.topLeft.y == 0 && b.size.width == 0 && b.size.height == 0, "the bounds of an empty text are (%d,%d) %dx%d", b.topLeft.x, b.topLeft.y, b.size.width, b.size.height);
        return;
    }
    const int left = -b.topLeft.x, top = -b.topLeft.y, right = left + b.size.width, bottom = top + b.size.height;
    // hull of glyph boxes, pen positions and baseline: the bounds may not be larger
    int l = 0, r = 0, t = 0, u = 1, pen = 0;
    for (auto &g : glyphs)
    {
        l = std::min({ l, pen + g.dx, pen }); r = std::max({ r, pen + g.dx + g.w, pen });
        t = std::min(t, g.dy); u = std::max(u, g.dy + g.h);
        pen += g.advance;
        r = std::max(r, pen);
        if (!draw)
            for (int j = 0; j < g.h; ++j)
                for (int i = 0; i < g.w; ++i)
                    if (TestFont::bit(g, i, j))
                    {
                        const int x = pen - g.advance + g.dx + i, y = g.dy + j;
                        MC_CHECK(x >= left && x < right && y >= top && y < bottom, "pixel (%d,%d) of \"%s\" is outside the bounds [%d,%d)x[%d,%d)", x, y, mc::esc(std::string(text).substr(0, 40)).c_str(), left, right, top, bottom);
                    }
    }
    MC_CHECK(left >= l && right <= r && top >= t && bottom <= u, "the bounds [%d,%d)x[%d,%d) of \"%s\" are larger than [%d,%d)x[%d,%d)", left, right, top, bottom,
             mc::esc(std::string(text).substr(0, 40)).c_str(), l, r, t, u);
    if (draw)
    {
        // the drawing itself: a frame of the returned size must hold it all
        Recorder small(b.size.width, b.size.height), large(b.size.width + 1400, b.size.height + 1400);
        Canvas a(small), c(large);
        a.drawStringAt({ b.topLeft.x, b.topLeft.y }, text, font);
        c.drawStringAt({ b.topLeft.x + 700, b.topLeft.y + 700 }, text, font);
        MC_CHECK(small.drawn == large.drawn, "%llu of %llu pixels of \"%s\" are inside the bounds of %dx%d", (unsigned long long)small.drawn, (unsigned long long)large.drawn, mc::esc(std::string(text)).c_str(), b.size.width, b.size.height);
    }
    mc::state(mc::Hash().u(left).u(right).u(top).u(bottom));
}
// the recorder needs a frame even for empty bounds
TestFont::Glyph box(int k)
{
    static const int w[] = { 0, 1, 3 }, dx[] = { 0, -2, 2 }, dy[] = { 0, -4, -1, 2 }, adv[] = { 4, 0, 1 };
    const int ww = w[k % 3], hh = w[k / 3 % 3];
    return makeGlyph(ww, hh, dx[k / 9 % 3], dy[k / 27 % 4], adv[k / 108 % 3], 0xFFFFFFFF);
}
}

// every pair of glyph boxes
MC_SCENARIO(pairs, 48, 1)
{
    const int a = mc::choose(324, "first glyph");
    for (int b = 0; b < 324; ++b)
    {
        TestFont f({ box(a), box(b) }, 'A', 'B');
        check(*f.font, "AB", { f.glyphs[0], f.glyphs[1] }, false);
        if (b == 0) { check(*f.font, "A", { f.glyphs[0] }, false); check(*f.font, "", {}, false); check(*f.font, "AA", { f.glyphs[0], f.glyphs[0] }, false); }
    }
}
// every text of 3 (thorough: 4) out of 24 boxes
MC_SCENARIO(texts, 48, 2)
{
    static const std::vector<TestFont::Glyph> g = [] { std::vector<TestFont::Glyph> r; for (int i = 0; i < 24; ++i) r.push_back(box(i * 13 % 324)); return r; }();
    static const TestFont f(g, 'A', 'X');
    const int n = mc::thorough ? 4 : 3;
    std::string t;
    std::vector<TestFont::Glyph> used;
    for (int i = 0; i < n; ++i) { const int k = mc::choose(24, "glyph"); t += char('A' + k); used.push_back(g[k]); }
    check(*f.font, t, used, false);
}
// longer texts out of few boxes, blanks and combining ones among them
MC_SCENARIO(words, 48, 2)
{
    static const std::vector<TestFont::Glyph> g = { makeGlyph(3, 2, 0, -2, 4, 0x3F), makeGlyph(0, 0, 0, 0, 3, 0), makeGlyph(2, 5, -2, -3, 0, 0x3FF), makeGlyph(6, 1, -1, 1, 2, 0x3F), makeGlyph(1, 1, 2, -7, 1, 1) };
    static const TestFont f(g, ' ', '$');
    std::string t;
    std::vector<TestFont::Glyph> used;
    const int n = mc::thorough ? 8 : 6;
    for (int i = 0; i < n; ++i)
    {
        const int k = mc::choose(5, "glyph"); t += char(' ' + k); used.push_back(g[k]);
        if (i > 1) check(*f.font, t, used, false);
    }
}
// extreme boxes, offsets and advances; drawn for real
MC_SCENARIO(extremes, 48, 2)
{
    static const std::vector<TestFont::Glyph> g = {
        makeGlyph(1, 1, -128, -128, 0, 1), makeGlyph(1, 1, 127, 127, 255, 1), makeGlyph(255, 255, -128, -128, 255, 0xFFFFFFFF), makeGlyph(255, 1, 127, -1, 1, 0xFFFFFFFF), makeGlyph(1, 255, 0, 127, 128, 0xFFFFFFFF),
        makeGlyph(128, 128, 0, -128, 127, 0x9D2C5680), makeGlyph(0, 0, 0, 0, 255, 0), makeGlyph(3, 5, -1, -5, 3, 0x7FFF) };
    static const TestFont f(g, 'A', 'H');
    const int n = 1 + mc::choose(3, "length");
    std::string t;
    std::vector<TestFont::Glyph> used;
    for (int i = 0; i < n; ++i) { const int k = mc::choose(8, "glyph"); t += char('A' + k); used.push_back(g[k]); }
    check(*f.font, t, used, true);
}
// absent characters are drawn, and measured, as the first glyph; codes above 0x7F
MC_SCENARIO(anyCode, 16, 1)
{
    static const TestFont f({ makeGlyph(2, 3, 0, -1, 3, 0x3F), makeGlyph(5, 2, -1, 1, 2, 0x3FF), makeGlyph(1, 7, 1, -6, 6, 0x7F) }, 0x7E, 0xA1);
    const char a = char(mc::choose(256, "code"));
    for (int b = 0; b < 256; ++b)
    {
        const char t[] = { a, char(b) };
        check(*f.font, std::string_view(t, 2), { f.of(t[0]), f.of(t[1]) }, false);
    }
    const char t[] = { a };
    check(*f.font, std::string_view(t, 1), { f.of(a) }, true);
}
// the library's font, and long texts
MC_SCENARIO(libraryFont, 16, 1)
{
    const auto &font = embedded::fonts::FreeSans15pt;
    const int a = 0x20 + mc::choose(95, "character");
    auto glyph = [&](char c)
    {
        const auto b = font.getBitmap(c);
        return TestFont::Glyph { b.effectiveSize.width, b.effectiveSize.height, b.offset.width, b.offset.height, b.width, std::vector<uint8_t>(b.bitmap.begin(), b.bitmap.end()) };
    };
    for (int b = 0x20; b < 0x7F; ++b)
    {
        const char t[] = { char(a), char(b) };
        check(font, std::string_view(t, 2), { glyph(t[0]), glyph(t[1]) }, true);
    }
    check(font, std::string(1, char(a)), { glyph(char(a)) }, true);
}
MC_SCENARIO(longText, 8, 2)
{
    static const std::vector<TestFont::Glyph> g = { makeGlyph(3, 2, -1, -1, 255, 0x2D), makeGlyph(2, 2, 1, 0, 129, 0xB), makeGlyph(9, 1, -5, 2, 0, 0x1FF) };
    static const TestFont f(g, 'A', 'C');
    static const int lengths[] = { 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 1000, 32769, 65536, 65537, 70000 };
    const int n = mc::pick(lengths, "length");
    const int phase = mc::choose(3, "phase");
    std::string t;
    std::vector<TestFont::Glyph> used;
    for (int i = 0; i < n; ++i) { const int k = (i + phase) % 3; t += char('A' + k); used.push_back(g[k]); }
    check(*f.font, t, used, false);
}
