// C11: every frame buffer depth against an array of colours.
#include "mc.h"
#include <array>
#include <cstring>
#include <iterator>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <vector>
#include "graphics/SimpleFrameBuffer.h"

namespace
{
constexpr uint32_t maskOf(int depth) { return uint32_t((uint64_t(1) << depth) - 1); }

struct Model
{
    int w, h, depth;
    std::vector<uint32_t> px;
    uint32_t selected;
    Model(int w, int h, int depth) : w(w), h(h), depth(depth), px(size_t(w) * h), selected(maskOf(depth)) {}
    size_t bytes() const { return size_t(w) * h * depth / 8; }
    uint32_t direct(uint32_t c) const { return depth == 1 ? c != 0 : c & maskOf(depth); }
    // pixel p as stored in the image: most significant bits and bytes first
    static uint32_t decode(const uint8_t* img, size_t p, int depth)
    {
        uint32_t v = 0;
        for (int b = 0; b < depth; ++b)
        {
            const size_t k = p * depth + b;
            v = (v << 1) | ((img[k / 8] >> (7 - k % 8)) & 1);
        }
        return v;
    }
    void load(const uint8_t* img) { for (size_t p = 0; p < px.size(); ++p) px[p] = decode(img, p, depth); }
};

template<int W, int H, int D>
struct Frame
{
    using FB = SimpleFrameBuffer<W, H, D>;
    std::unique_ptr<FB> fb { new FB };
    Model m { W, H, D };
    Frame(int fill)
    {
        auto img = fb->getImage();
        MC_CHECK(img.size() == m.bytes(), "image of %dx%d at depth %d has %zu bytes instead of %zu", W, H, D, size_t(img.size()), m.bytes());
        for (size_t i = 0; i < m.bytes(); ++i) img[i] = uint8_t(fill == 3 ? i * 73 + 29 : fill == 2 ? 0xA5 : fill ? 0xFF : 0);
        m.load(img.begin());
    }
    void compare(const char* what, size_t from = 0, size_t to = size_t(-1))
    {
        const FB &c = *fb;
        auto view = c.getImage();
        auto writable = fb->getImage();
        MC_CHECK(fb->getWidth() == W && fb->getHeight() == H, "reports %dx%d instead of %dx%d", fb->getWidth(), fb->getHeight(), W, H);
        MC_CHECK(view.size() == m.bytes() && writable.size() == m.bytes(), "image of %zu bytes instead of %zu", size_t(view.size()), m.bytes());
        MC_CHECK(view.begin() == writable.begin(), "the two image views differ");
        for (size_t p = from; p < std::min(to, m.px.size()); ++p)
        {
            const uint32_t v = Model::decode(view.begin(), p, D);
            MC_CHECK(v == m.px[p], "%s: depth %d, %dx%d: pixel (%zu,%zu) is %X instead of %X", what, D, W, H, p % W, p / W, v, m.px[p]);
        }
    }
};

const uint32_t kColors[] = { 0, 1, 0xFFFFFFFF, 0xA53C69F1, 0x12345678, 2, 0x80 };

template<int W, int H, int D>
void history()
{
    Frame<W, H, D> f(mc::choose(3, "memory"));
    Model &m = f.m;
    FrameBufferBase &base = *f.fb;
    const int n = mc::thorough && W * H <= 8 ? 4 : 3;
    constexpr int C = 5;
    for (int i = 0; i < n; ++i)
    {
        const int op = mc::choose(4, "operation");
        if (op == 0)
        {
            const int p = mc::choose(W * H, "pixel");
            base.drawPixel(p % W, p / W);
            m.px[p] = m.selected;
        }
        else if (op == 1)
        {
            const uint32_t c = kColors[mc::choose(C, "color")];
            base.setColor(c);
            m.selected = c & maskOf(D);
        }
        else if (op == 2)
        {
            const uint32_t c = kColors[mc::choose(C + 2, "color")];
            base.clear(c);
            for (auto &v : m.px) v = m.direct(c);
        }
        else
        {
            const int p = mc::choose(W * H, "pixel");
            const uint32_t c = kColors[mc::choose(C + 2, "color")];
            f.fb->drawPixel(p % W, p / W, c);
            m.px[p] = m.direct(c);
        }
        mc::step();
        f.compare("after the operation");
        mc::state(mc::Hash().bytes(m.px.data(), m.px.size() * 4).u(m.selected).u(D));
    }
}

// few pixels and colours, long histories
template<int W, int H, int D>
void deep()
{
    Frame<W, H, D> f(mc::choose(2, "memory"));
    Model &m = f.m;
    FrameBufferBase &base = *f.fb;
    constexpr int P = 2;
    const int pixels[P] = { 0, W * H - 1 };
    for (int i = 0; i < (mc::thorough ? 7 : 6); ++i)
    {
        const int op = mc::choose(P + 2 + 1 + P, "operation");
        if (op < P) { base.drawPixel(pixels[op] % W, pixels[op] / W); m.px[pixels[op]] = m.selected; }
        else if (op < P + 2) { const uint32_t c = op == P ? 0xA53C69F1 : 0; base.setColor(c); m.selected = c & maskOf(D); }
        else if (op == P + 2) { base.clear(0x12345679); for (auto &v : m.px) v = m.direct(0x12345679); }
        else { const int p = pixels[op - P - 3]; f.fb->drawPixel(p % W, p / W, 0x5AC3960E); m.px[p] = m.direct(0x5AC3960E); }
        mc::step();
        f.compare("after the operation");
    }
    mc::state(mc::Hash().bytes(m.px.data(), m.px.size() * 4).u(m.selected).u(D));
}

// every pixel of a larger frame, in both directions, in changing colours
template<int W, int H, int D>
void large()
{
    Frame<W, H, D> f(mc::choose(4, "memory"));
    Model &m = f.m;
    const int order = mc::choose(2, "order");
    const size_t n = size_t(W) * H, reach = std::min(2 * W + 70, 2200);
    for (size_t i = 0; i < n; ++i)
    {
        const size_t p = order ? n - 1 - i : i;
        const uint32_t c = uint32_t(p * 2654435761u + (p >> 7)) ^ uint32_t(order * 0x55555555);
        f.fb->setColor(c);
        m.selected = c & maskOf(D);
        f.fb->drawPixel(int(p % W), int(p / W));
        m.px[p] = m.selected;
        f.compare("near the pixel", p > reach ? p - reach : 0, i % 64 ? p + 9 : p + reach);
        if (i % (n > 150000 ? 16384 : 4096) == 0 || n < 600) f.compare("somewhere");
        mc::step();
    }
    f.compare("after all pixels");
    f.fb->clear(0x01020304);
    for (auto &v : m.px) v = m.direct(0x01020304);
    f.compare("after clear");
    mc::state(mc::Hash().bytes(m.px.data(), m.px.size() * 4).u(D).u(order));
}

// every colour value up to 16 bits, with surplus high bits, at every position within a byte
template<int W, int H, int D>
void colors()
{
    Frame<W, H, D> f(mc::choose(2, "memory"));
    Model &m = f.m;
    const uint32_t high = mc::choose(4, "high bits") * 0x55550000u;
    const int how = mc::choose(3, "how");
    for (uint32_t low = 0; low < 0x10000; low += (D < 8 && !mc::thorough ? 31 : D < 16 ? 5 : 1))
    {
        const uint32_t c = high ^ (D > 16 ? low * 0x10001u : low);
        const int p = int(low % (W * H));
        if (how == 0) { f.fb->setColor(c); f.fb->drawPixel(p % W, p / W); m.px[p] = c & maskOf(D); }
        else if (how == 1) { f.fb->drawPixel(p % W, p / W, c); m.px[p] = m.direct(c); }
        else { f.fb->clear(c); for (auto &v : m.px) v = m.direct(c); }
        f.compare("colour");
        mc::step();
    }
    mc::state(mc::Hash().u(D).u(high).u(how));
}
}

MC_SCENARIO(history, 48, 4)
{
    switch (mc::choose(14, "frame"))
    {
        case 0: return history<8, 1, 1>();
        case 1: return history<8, 2, 1>();
        case 2: return history<16, 1, 1>();
        case 3: return history<4, 2, 2>();
        case 4: return history<4, 3, 2>();
        case 5: return history<8, 1, 2>();
        case 6: return history<2, 3, 4>();
        case 7: return history<4, 2, 4>();
        case 8: return history<1, 2, 8>();
        case 9: return history<3, 3, 8>();
        case 10: return history<3, 2, 16>();
        case 11: return history<3, 2, 24>();
        case 12: return history<1, 3, 24>();
        default: return history<3, 2, 32>();
    }
}
MC_SCENARIO(deep, 48, 3)
{
    switch (mc::choose(7, "frame"))
    {
        case 0: return deep<8, 1, 1>();
        case 1: return deep<4, 1, 2>();
        case 2: return deep<2, 2, 4>();
        case 3: return deep<3, 1, 8>();
        case 4: return deep<1, 2, 16>();
        case 5: return deep<2, 1, 24>();
        default: return deep<2, 1, 32>();
    }
}
MC_SCENARIO(large, 32, 3)
{
    switch (mc::choose(15, "frame"))
    {
        case 0: return large<128, 64, 1>();
        case 1: return large<800, 100, 1>();
        case 2: return large<132, 40, 2>();
        case 3: return large<130, 40, 4>();
        case 4: return large<257, 300, 8>();
        case 5: return large<241, 150, 16>();
        case 6: return large<151, 150, 24>();
        case 7: return large<131, 130, 32>();
        case 8: return large<1, 260, 8>();
        case 9: return large<8, 1, 1>();
        case 10: return large<8, 66000, 1>();
        case 11: return large<66000, 3, 8>();
        case 12: return large<516, 520, 2>();
        case 13: return large<364, 364, 4>();
        default: return large<1024, 600, 1>();
    }
}
MC_SCENARIO(colors, 32, 4)
{
    switch (mc::choose(7, "frame"))
    {
        case 0: return colors<8, 2, 1>();
        case 1: return colors<4, 2, 2>();
        case 2: return colors<2, 3, 4>();
        case 3: return colors<3, 1, 8>();
        case 4: return colors<3, 1, 16>();
        case 5: return colors<3, 1, 24>();
        default: return colors<3, 1, 32>();
    }
}
