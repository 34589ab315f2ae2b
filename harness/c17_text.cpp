// C17: characters and strings against the bits of the glyphs.
#include "gfx_common.h"
#include "graphics/EmbeddedFonts.h"

namespace
{
// adds the glyph of one character at the logical position to the picture
void expect(Picture &pic, Rot r, int W, int H, const TestFont::Glyph &g, int x, int y, uint32_t color)
{
    for (int j = 0; j < g.h; ++j)
        for (int i = 0; i < g.w; ++i)
            if (TestFont::bit(g, i, j)) { auto p = physical(r, W, H, x + g.dx + i, y + g.dy + j); pic.set(p.x, p.y, color); }
}
struct Scene
{
    int W, H;
    Rot r;
    Recorder frame;
    Canvas canvas;
    Picture want;
    Scene(int W, int H, Rot r, uint32_t background) : W(W), H(H), r(r), frame(W, H), canvas(frame), want(W, H)
    {
        canvas.setRotation(r);
        canvas.clear(background);
        for (auto &p : want.px) p = background;
        canvas.setColor(1);
    }
    void compare(const char* what)
    {
        MC_CHECK(frame.pic == want, "%s rotated by %d is drawn as%s\ninstead of%s", what, degrees(r), frame.pic.text().c_str(), want.text().c_str());
        mc::state(frame.pic.hash());
    }
};
}

// every pattern of up to 8 (thorough: 12) bits in every shape, at every place of a frame
MC_SCENARIO(everyGlyph, 48, 3)
{
    static const int shapes[][2] = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 1 }, { 1, 3 }, { 2, 2 }, { 5, 1 }, { 1, 5 }, { 3, 2 }, { 2, 3 }, { 7, 1 }, { 1, 7 }, { 4, 2 }, { 2, 4 }, { 8, 1 }, { 1, 8 },
                                     { 3, 3 }, { 9, 1 }, { 1, 9 }, { 5, 2 }, { 2, 5 }, { 11, 1 }, { 4, 3 }, { 3, 4 }, { 12, 1 } };
    const Rot r = mc::pick(kRotations, "rotation");
    const int shape = mc::choose(mc::thorough ? 25 : 20, "shape");
    const int w = shapes[shape][0], h = shapes[shape][1];
    const int place = mc::choose(6, "place");
    static const int at[][4] = { { 4, 5, 0, 0 }, { 0, 0, -1, -1 }, { 6, 9, -3, 2 }, { -1, 3, 2, -3 }, { 200, 120, -128, -128 }, { -120, -120, 127, 127 } };
    Scene s(10, 13, r, 0);
    for (int pattern = 0; pattern < (1 << (w * h)); ++pattern)
    {
        TestFont f({ makeGlyph(0, 0, 0, 0, 1, 0), makeGlyph(w, h, at[place][2], at[place][3], pattern & 255, uint32_t(pattern)) }, 'A', 'B');
        const int adv = s.canvas.drawCharAt({ at[place][0], at[place][1] }, 'B', *f.font);
        MC_CHECK(adv == (pattern & 255), "the advance %d is returned as %d", pattern & 255, adv);
        expect(s.want, r, 10, 13, f.glyphs[1], at[place][0], at[place][1], 1);
        mc::step();
        s.compare("glyph");
        s.frame.reset();
        std::fill(s.want.px.begin(), s.want.px.end(), 0);
    }
}

// glyphs of every width and height up to 17 (and the largest ones), three patterns
MC_SCENARIO(everySize, 48, 2)
{
    const Rot r = mc::pick(kRotations, "rotation");
    const int w = mc::choose(22, "width");
    for (int h = 0; h < 22; ++h)
        for (uint32_t pattern : { 0xFFFFFFFFu, 0x9D2C5680u, 0x1u })
            for (int back = 0; back < 2; ++back)
            {
                const int ww = w < 18 ? w : w == 18 ? 127 : w == 19 ? 128 : w == 20 ? 254 : 255, hh = h < 18 ? h : h == 18 ? 127 : h == 19 ? 128 : h == 20 ? 254 : 255;
                if (ww > 18 && hh > 18 && back) continue;
                TestFont f({ makeGlyph(0, 0, 0, 0, 1, 0), makeGlyph(ww, hh, -1, 2, 255 - h, pattern), makeGlyph(3, 3, 0, 0, 9, 0x1FF) }, 'A', 'C');
                Scene s(ww + 4, hh + 5, r, back ? 5 : 0);
                const int adv = s.canvas.drawCharAt({ 2, 1 }, 'B', *f.font);
                MC_CHECK(adv == 255 - h, "the advance %d is returned as %d", 255 - h, adv);
                expect(s.want, r, ww + 4, hh + 5, f.glyphs[1], 2, 1, 1);
                mc::step();
                s.compare("glyph");
            }
}

// every text of up to 4 (thorough: 5) characters, present and absent, drawn at once and one by one
MC_SCENARIO(strings, 48, 3)
{
    static const TestFont f({ makeGlyph(2, 2, 0, -1, 3, 0xB), makeGlyph(3, 3, -1, -2, 2, 0x1AD), makeGlyph(9, 2, 1, 0, 0, 0x2B5D7), makeGlyph(1, 4, 0, -4, 255, 0xB), makeGlyph(4, 1, 1, 1, 5, 0xD) }, 0x7D, 0xA2);
    // present: 0x7D 0x7E 0xA0 0xA1 0xA2; absent: the rest
    static const char alphabet[] = { '\x7D', '\x7E', '\xA0', '\xA2', '\0', '\x80' };
    const Rot r = mc::pick(kRotations, "rotation");
    const int place = mc::choose(3, "place");
    const int x = place == 0 ? 2 : place == 1 ? -6 : 11, y = place == 0 ? 4 : place == 1 ? 1 : 9;
    const int n = mc::choose(mc::thorough ? 6 : 5, "length");
    char t[6];
    for (int i = 0; i < n; ++i) t[i] = alphabet[mc::choose(6, "character")];
    const std::unique_ptr<char[]> text(new char[n]);      // no terminating zero behind it
    std::copy(t, t + n, text.get());
    Scene s(17, 10, r, 0);
    Recorder single(17, 10);
    Canvas one(single);
    one.setRotation(r);
    s.canvas.drawStringAt({ x, y }, { text.get(), size_t(n) }, *f.font);
    int pen = x;
    for (int i = 0; i < n; ++i)
    {
        const auto &g = f.of(t[i]);
        expect(s.want, r, 17, 10, g, pen, y, 1);
        const int adv = one.drawCharAt({ pen, y }, t[i], *f.font);
        MC_CHECK(adv == g.advance, "the advance %d of %02X is returned as %d", g.advance, uint8_t(t[i]), adv);
        pen += adv;
        mc::step();
    }
    mc::step();
    s.compare("string");
    MC_CHECK(single.pic == s.frame.pic, "drawn one by one the string is%s\nat once it is%s", single.pic.text().c_str(), s.frame.pic.text().c_str());
}

// every character of the font that comes with the library; long texts
MC_SCENARIO(libraryFont, 32, 2)
{
    const Rot r = mc::pick(kRotations, "rotation");
    const int part = mc::choose(8, "characters");
    const auto &font = embedded::fonts::FreeSans15pt;
    for (int code = part * 32; code < part * 32 + 32; ++code)
        for (int back = 0; back < 2; ++back)
        {
            const auto b = font.getBitmap(char(code));
            TestFont::Glyph g { b.effectiveSize.width, b.effectiveSize.height, b.offset.width, b.offset.height, b.width, std::vector<uint8_t>(b.bitmap.begin(), b.bitmap.end()) };
            Scene s(60, 70, r, back ? 3 : 0);
            const int adv = s.canvas.drawCharAt({ 20, 40 }, char(code), font);
            MC_CHECK(adv == g.advance, "advance");
            expect(s.want, r, 60, 70, g, 20, 40, 1);
            mc::step();
            s.compare("character");
        }
}
MC_SCENARIO(longText, 16, 2)
{
    static const TestFont f({ makeGlyph(3, 2, 0, 0, 255, 0x2D), makeGlyph(2, 2, 0, -1, 128, 0xB) }, 'A', 'B');
    static const int lengths[] = { 2, 127, 128, 129, 255, 256, 257, 300, 600 };
    const Rot r = mc::pick(kRotations, "rotation");
    const int n = mc::pick(lengths, "length"), start = mc::choose(3, "from") * -33000;
    const int W = n * 255 + 10;
    std::string text;
    for (int i = 0; i < n; ++i) text += i % 3 == 1 ? 'B' : 'A';
    const int pw = swaps(r) ? 5 : W, ph = swaps(r) ? W : 5;
    Scene s(pw, ph, r, 0);
    s.canvas.drawStringAt({ start + 3, 2 }, text, *f.font);
    int pen = start + 3;
    for (char c : text) { expect(s.want, r, pw, ph, f.of(c), pen, 2, 1); pen += f.of(c).advance; mc::step(); }
    s.compare("long string");
}

// glyphs and strings far into large frames
MC_SCENARIO(farPlaces, 32, 2)
{
    static const TestFont f({ makeGlyph(3, 2, 0, 0, 4, 0x2D), makeGlyph(5, 9, -2, -8, 6, 0x9D2C5681), makeGlyph(20, 3, 1, -3, 21, 0xF0F3C5A5) }, 'A', 'C');
    static const int pos[] = { 0, 126, 127, 128, 129, 254, 255, 256, 257, 300, 32766, 32767, 32768, 65534, 65535, 65536, 70000 };
    const Rot r = mc::pick(kRotations, "rotation");
    const int vertical = mc::choose(2, "direction"), at = mc::pick(pos, "position");
    const int lw = vertical ? 60 : 70100, lh = vertical ? 70100 : 30;
    const int pw = swaps(r) ? lh : lw, ph = swaps(r) ? lw : lh;
    const int x = vertical ? 5 : at, y = vertical ? at : 12;
    const auto corner = physical(r, pw, ph, x, y);
    for (const char* text : { "A", "B", "C", "ABC", "CAB" })
    {
        constexpr int m = 70;
        Recorder frame(pw, ph, corner.x - m, corner.y - m, 2 * m, 2 * m);
        Canvas c(frame);
        c.setRotation(r);
        c.drawStringAt({ x, y }, text, *f.font);
        Picture want(2 * m, 2 * m);
        uint64_t visible = 0;
        int pen = x;
        for (const char* t = text; *t; ++t)
        {
            const auto &g = f.of(*t);
            for (int j = 0; j < g.h; ++j)
                for (int i = 0; i < g.w; ++i)
                    if (TestFont::bit(g, i, j))
                    {
                        const int lx = pen + g.dx + i, ly = y + g.dy + j;
                        if (lx < 0 || ly < 0 || lx >= lw || ly >= lh) continue;
                        const auto p = physical(r, pw, ph, lx, ly);
                        want.set(p.x - (corner.x - m), p.y - (corner.y - m), 1);
                        ++visible;
                    }
            pen += g.advance;
        }
        mc::step();
        MC_CHECK(frame.pic == want, "\"%s\" at (%d,%d) rotated by %d is drawn differently", text, x, y, degrees(r));
        MC_CHECK(frame.drawn >= visible, "\"%s\" at (%d,%d) rotated by %d: pixels are missing", text, x, y, degrees(r));
        mc::state(mc::Hash().u(frame.pic.hash()).u(at).u(vertical));
    }
}
// more characters than 16 bits count, NUL among them
MC_SCENARIO(hugeText, 8, 2)
{
    static const TestFont f({ makeGlyph(1, 1, 0, 0, 1, 1), makeGlyph(1, 2, 0, 0, 1, 2), makeGlyph(1, 2, 0, 0, 2, 3) }, 'A', 'C');
    static const int lengths[] = { 32769, 65536, 65537, 70000 };
    const Rot r = mc::pick(kRotations, "rotation");
    const int n = mc::pick(lengths, "length"), W = n * 2;
    std::string text;
    for (int i = 0; i < n; ++i) text += i % 5 == 4 ? '\0' : char('A' + i * 7 % 3);
    const int pw = swaps(r) ? 4 : W, ph = swaps(r) ? W : 4;
    Scene s(pw, ph, r, 0);
    s.canvas.drawStringAt({ 1, 1 }, text, *f.font);
    int pen = 1;
    for (char c : text) { expect(s.want, r, pw, ph, f.of(c), pen, 1, 1); pen += f.of(c).advance; mc::step(); }
    s.compare("huge string");
}
