// A recording frame buffer and synthetic fonts for the graphics checks.
#pragma once
#include "mc.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "graphics/FrameBufferBase.h"
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/GFXFontsAdapter.h"

using Rot = Canvas::Rotation;
static const Rot kRotations[] = { Rot::Rotation0, Rot::Rotation90, Rot::Rotation180, Rot::Rotation270 };

// A picture: colour per pixel, 0 = untouched.
struct Picture
{
    int w, h;
    std::vector<uint32_t> px;
    Picture(int w, int h) : w(w), h(h), px(size_t(w) * h) {}
    bool inside(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    uint32_t at(int x, int y) const { return inside(x, y) ? px[size_t(y) * w + x] : 0; }
    void set(int x, int y, uint32_t c) { if (inside(x, y)) px[size_t(y) * w + x] = c; }
    bool operator==(const Picture &o) const { return w == o.w && h == o.h && px == o.px; }
    uint64_t hash() const { return mc::Hash().u(w).u(h).bytes(px.data(), px.size() * 4); }
    std::string text() const
    {
        std::string s;
        for (int y = 0; y < h && y < 24; ++y) { s += '\n'; for (int x = 0; x < w && x < 64; ++x) s += at(x, y) ? char('0' + at(x, y) % 10) : '.'; }
        return s;
    }
};

// Claims to be w x h; remembers what is drawn in a window of it, and that nothing is drawn outside the frame.
class Recorder : public FrameBufferBase
{
public:
    Recorder(int w, int h) : Recorder(w, h, 0, 0, w, h) {}
    Recorder(int w, int h, int wx, int wy, int ww, int wh) : pic(ww, wh), w(w), h(h), wx(wx), wy(wy) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return { image, sizeof image }; }
    embedded::ConstBytesView getImage() const override { return { image, sizeof image }; }
    void clear(uint32_t c) override { ++clears; clearColor = c; std::fill(pic.px.begin(), pic.px.end(), c); }
    void setColor(uint32_t c) override { color = c; ++setColors; }
    void drawPixel(int x, int y) override
    {
        MC_CHECK(x >= 0 && y >= 0 && x < w && y < h, "pixel (%d,%d) drawn outside the frame of %dx%d", x, y, w, h);
        ++drawn;
        pic.set(x - wx, y - wy, color);
    }
    void reset() { std::fill(pic.px.begin(), pic.px.end(), 0); drawn = 0; }
    Picture pic;
    uint32_t color = 1;
    uint64_t drawn = 0;
    int clears = 0, setColors = 0;
    uint32_t clearColor = 0;
    uint8_t image[3] = { 1, 2, 3 };
private:
    int w, h, wx, wy;
};

// Where the rotation puts the logical position (x, y) on a physical frame of W x H.
inline Canvas::Point physical(Rot r, int W, int H, int x, int y)
{
    switch (r)
    {
        case Rot::Rotation90: return { W - 1 - y, x };
        case Rot::Rotation180: return { W - 1 - x, H - 1 - y };
        case Rot::Rotation270: return { y, H - 1 - x };
        default: return { x, y };
    }
}
inline bool swaps(Rot r) { return r == Rot::Rotation90 || r == Rot::Rotation270; }
inline int degrees(Rot r) { return r == Rot::Rotation0 ? 0 : r == Rot::Rotation90 ? 90 : r == Rot::Rotation180 ? 180 : 270; }

// A font whose tables are heap blocks of exactly the right size.
struct TestFont
{
    struct Glyph { int w, h, dx, dy, advance; std::vector<uint8_t> bits; };
    std::vector<Glyph> glyphs;
    std::unique_ptr<uint8_t[]> data;
    std::unique_ptr<embedded::fonts::GlyphDescriptor[]> table;
    embedded::fonts::FontDescriptor desc;
    std::unique_ptr<embedded::fonts::EmbeddedFont> font;
    std::vector<size_t> start;      // of every glyph's data, and the end

    // packed: glyph data follows each other without gaps, as the converter writes them
    TestFont(std::vector<Glyph> g, uint8_t first, uint8_t last, size_t lead = 0, size_t tail = 0) : glyphs(std::move(g))
    {
        size_t total = lead;
        for (auto &x : glyphs) { start.push_back(total); total += x.bits.size(); }
        start.push_back(total + tail);
        total += tail;
        data.reset(new uint8_t[total]);
        std::fill(data.get(), data.get() + total, 0xFF);
        table.reset(new embedded::fonts::GlyphDescriptor[glyphs.size()]);
        for (size_t i = 0; i < glyphs.size(); ++i)
        {
            auto &x = glyphs[i];
            std::copy(x.bits.begin(), x.bits.end(), data.get() + start[i]);
            table[i].bitmapOffset = uint16_t(start[i]);
            table[i].size = { uint8_t(x.w), uint8_t(x.h) };
            table[i].shift = uint8_t(x.advance);
            table[i].offset = { int8_t(x.dx), int8_t(x.dy) };
        }
        desc.bitmap = { data.get(), total };
        desc.glyph = { table.get(), glyphs.size() };
        desc.first = first;
        desc.last = last;
        desc.verticalShift = 7;
        font.reset(new embedded::fonts::EmbeddedFont(desc));
    }
    // index of the glyph a code must be drawn with
    size_t lookup(unsigned char code) const
    {
        if (code < desc.first || code > desc.last) return 0;
        size_t pos = size_t(code - desc.first);
        if (desc.first <= 0x7E && code > 0x7E)
        {
            if (code < 0xA0) return 0;
            pos -= 33;
        }
        return pos < glyphs.size() ? pos : 0;
    }
    const Glyph &of(char c) const { return glyphs[lookup(static_cast<unsigned char>(c))]; }
    static bool bit(const Glyph &g, int x, int y)
    {
        const int k = y * g.w + x;
        return (g.bits[k / 8] >> (7 - k % 8)) & 1;
    }
};

// glyph with a pattern derived from seed, exactly ceil(w*h/8) bytes, padding bits set
inline TestFont::Glyph makeGlyph(int w, int h, int dx, int dy, int advance, uint32_t pattern)
{
    TestFont::Glyph g { w, h, dx, dy, advance, {} };
    g.bits.resize(size_t(w * h + 7) / 8, 0xFF);
    for (int k = 0; k < w * h; ++k)
        if (!((pattern >> (k % 32)) & 1)) g.bits[k / 8] &= uint8_t(~(0x80 >> (k % 8)));
    return g;
}
