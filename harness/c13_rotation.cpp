// C13: drawing in every rotation against the turned picture of the unrotated drawing.
#include "gfx_common.h"
#include <array>
#include "graphics/SimpleFrameBuffer.h"

namespace
{
struct Op { int kind, a, b, c, d; };
const char* const kNames[] = { "pixel", "line", "rectangle", "filled rectangle", "circle", "filled circle", "character", "string", "other line" };
const TestFont &font()
{
    static const TestFont f({ makeGlyph(3, 3, -1, -2, 2, 0x1AD), makeGlyph(9, 2, 1, 0, 5, 0x2B5D7), makeGlyph(1, 4, 0, -4, 3, 0xB), makeGlyph(0, 0, 0, 0, 4, 0),
                              makeGlyph(4, 4, 1, -3, 200, 0xF99F) }, 'A', 'E');
    return f;
}
const char* const kTexts[] = { "", "A", "BC", "ABCD", "CEA", "BAB" };
void draw(Canvas &cv, const Op &o)
{
    switch (o.kind)
    {
        case 0: cv.drawPixel({ o.a, o.b }); break;
        case 1: case 8: cv.drawLine({ o.a, o.b }, { o.c, o.d }); break;
        case 2: cv.drawRectangle({ { o.a, o.b }, { o.c, o.d } }); break;
        case 3: cv.drawFilledRectangle({ { o.a, o.b }, { o.c, o.d } }); break;
        case 4: cv.drawCircle({ o.a, o.b }, o.c); break;
        case 5: cv.drawCircle({ o.a, o.b }, o.c, true); break;
        case 6: cv.drawCharAt({ o.a, o.b }, char('A' + o.c), *font().font); break;
        case 7: cv.drawStringAt({ o.a, o.b }, kTexts[o.c], *font().font); break;
    }
}
// the picture p of logical size, turned onto a physical frame W x H
Picture turned(const Picture &p, Rot r, int W, int H)
{
    Picture q(W, H);
    for (int y = 0; y < p.h; ++y)
        for (int x = 0; x < p.w; ++x) { auto t = physical(r, W, H, x, y); q.set(t.x, t.y, p.at(x, y)); }
    return q;
}
void size(const Canvas &c, Rot r, int W, int H)
{
    const auto s = c.getSize();
    MC_CHECK(c.getRotation() == r, "getRotation");
    MC_CHECK(s.width == (swaps(r) ? H : W) && s.height == (swaps(r) ? W : H), "size %dx%d is reported for a frame of %dx%d rotated by %d", s.width, s.height, W, H, degrees(r));
}
const int kFrames[][2] = { { 9, 5 }, { 4, 11 }, { 1, 3 }, { 6, 6 }, { 16, 12 } };
}

MC_SCENARIO(everyOperation, 48, 4)
{
    const int f = mc::choose(mc::thorough ? 5 : 4, "frame");
    const int W = kFrames[f][0], H = kFrames[f][1];
    const Rot r = mc::pick(kRotations, "rotation");
    const int kind = mc::choose(9, "operation");
    Recorder turnedFrame(W, H);
    Canvas rotated(turnedFrame);
    rotated.setRotation(r);
    size(rotated, r, W, H);
    const auto s = rotated.getSize();
    Recorder plainFrame(s.width, s.height);
    Canvas plain(plainFrame);
    const int reach = 3;
    const int a = mc::choose(s.width + 2 * reach, "x") - reach, b = mc::choose(s.height + 2 * reach, "y") - reach;
    auto go = [&](int c, int d)
    {
        const Op o { kind, a, b, c, d };
        draw(rotated, o);
        draw(plain, o);
        mc::step();
        if (kind == 8)
        {
            for (auto e : { Canvas::Point { a, b }, Canvas::Point { c, d } })
                if (e.x >= 0 && e.y >= 0 && e.x < s.width && e.y < s.height)
                {
                    auto t = physical(r, W, H, e.x, e.y);
                    MC_CHECK(turnedFrame.pic.at(t.x, t.y), "line (%d,%d)-(%d,%d) rotated by %d misses its end (%d,%d)", a, b, c, d, degrees(r), e.x, e.y);
                    MC_CHECK(plainFrame.pic.at(e.x, e.y), "line (%d,%d)-(%d,%d) misses its end (%d,%d)", a, b, c, d, e.x, e.y);
                }
        }
        else
        {
            const Picture want = turned(plainFrame.pic, r, W, H);
            MC_CHECK(turnedFrame.pic == want, "%s (%d,%d,%d,%d) rotated by %d on %dx%d is%s\ninstead of%s", kNames[kind], a, b, c, d, degrees(r), W, H, turnedFrame.pic.text().c_str(), want.text().c_str());
        }
        mc::state(turnedFrame.pic.hash());
        turnedFrame.reset();
        plainFrame.reset();
    };
    switch (kind)
    {
        case 0: go(0, 0); break;
        case 1:
            for (int n = -14; n <= 14; ++n) { go(a + n, b); go(a, b + n); go(a + n, b + n); go(a + n, b - n); }
            break;
        case 8:
            for (int c = -reach; c < s.width + reach; ++c) for (int d = -reach; d < s.height + reach; ++d) go(c, d);
            break;
        case 2: case 3:
            for (int c = -1; c < s.width + 2 * reach; ++c) for (int d = -1; d < s.height + 2 * reach; ++d) go(c, d);
            break;
        case 4: case 5: for (int c = 0; c < 16; ++c) go(c, 0); break;
        case 6: for (int c = -1; c < 6; ++c) go(c, 0); break;
        case 7: for (int c = 0; c < 6; ++c) go(c, 0); break;
    }
}

// frames beyond 8 and 16 bits
MC_SCENARIO(largeFrames, 48, 4)
{
    static const int frames[][2] = { { 300, 140 }, { 131, 270 }, { 66000, 9 }, { 7, 33000 } };
    const auto &f = mc::pick(frames, "frame");
    const int W = f[0], H = f[1];
    const Rot r = mc::pick(kRotations, "rotation");
    const int kind = mc::choose(8, "operation");
    Recorder probe(W, H, 0, 0, 1, 1);
    Canvas rotated(probe);
    rotated.setRotation(r);
    size(rotated, r, W, H);
    const auto s = rotated.getSize();
    static const int pos[] = { 0, 3, 126, 127, 128, 129, 138, 254, 255, 256, 257, 269, 299, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65990, -2 };
    const int a = mc::pick(pos, "x");
    if (a >= s.width) return;
    constexpr int m = 48;
    for (int b : pos)
    {
        if (b >= s.height) continue;
        // the drawing, in a window around (a, b) of the unrotated frame, and around its image
        auto go = [&](int c, int d)
        {
            const Op o { kind, a, b, c, d };
            const auto t = physical(r, W, H, a, b);
            Recorder window(W, H, t.x - m, t.y - m, 2 * m + 1, 2 * m + 1), plainWindow(s.width, s.height, a - m, b - m, 2 * m + 1, 2 * m + 1);
            Canvas cv(window), plain(plainWindow);
            cv.setRotation(r);
            draw(cv, o);
            draw(plain, o);
            mc::step();
            const Picture want = turned(plainWindow.pic, r, 2 * m + 1, 2 * m + 1);
            MC_CHECK(window.pic == want, "%s (%d,%d,%d,%d) rotated by %d on %dx%d is drawn differently", kNames[kind], a, b, c, d, degrees(r), W, H);
            mc::state(mc::Hash().u(window.pic.hash()).u(a).u(b));
        };
        switch (kind)
        {
            case 0: go(0, 0); break;
            case 1: go(a + 40, b); go(a, b + 40); go(a + 30, b + 30); go(a - 30, b + 30); go(a, b - 33); go(0, b); go(a, 0); break;
            case 2: case 3: for (int c : { 1, 5, 40 }) for (int d : { 1, 7, 33 }) go(c, d); break;
            case 4: case 5: for (int c : { 0, 1, 4, 30 }) go(c, 0); break;
            case 6: for (int c = 0; c < 5; ++c) go(c, 0); break;
            case 7: for (int c = 0; c < 6; ++c) go(c, 0); break;
        }
    }
}

// changing the rotation affects only later drawing: histories of rotations and drawings in different colours
MC_SCENARIO(histories, 48, 4)
{
    const int f = mc::choose(2, "frame");
    const int W = kFrames[f][0], H = kFrames[f][1];
    Recorder frame(W, H);
    Canvas canvas(frame);
    Picture want(W, H);
    Rot r = Rot::Rotation0;
    size(canvas, r, W, H);
    static const Op ops[] = { { 0, 1, 2, 0, 0 }, { 1, 0, 0, 3, 0 }, { 1, 3, 1, 3, 9 }, { 1, 4, 0, 0, 4 }, { 2, -1, 1, 4, 3 }, { 3, 2, 1, 3, 9 }, { 4, 4, 2, 2, 0 }, { 5, 1, 4, 3, 0 }, { 6, 3, 3, 0, 0 }, { 7, 1, 4, 3, 0 }, { 6, 1, 1, 1, 0 } };
    const int n = mc::thorough ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
        const int turn = mc::choose(5, "rotation");
        if (turn < 4) { r = kRotations[turn]; canvas.setRotation(r); size(canvas, r, W, H); }
        const auto &o = ops[mc::choose(int(std::size(ops)), "operation")];
        canvas.setColor(uint32_t(i + 1));
        draw(canvas, o);
        Recorder plain(swaps(r) ? H : W, swaps(r) ? W : H);
        Canvas p(plain);
        p.setColor(uint32_t(i + 1));
        draw(p, o);
        const Picture t = turned(plain.pic, r, W, H);
        for (size_t k = 0; k < t.px.size(); ++k) if (t.px[k]) want.px[k] = t.px[k];
        mc::step();
        size(canvas, r, W, H);
        MC_CHECK(frame.pic == want, "after %d drawings the picture is%s\ninstead of%s", i + 1, frame.pic.text().c_str(), want.text().c_str());
        mc::state(mc::Hash().u(frame.pic.hash()).u(int(r)));
    }
}

// few drawings and rotations, long histories
MC_SCENARIO(deep, 48, 3)
{
    const int W = 4, H = 3;
    Recorder frame(W, H);
    Canvas canvas(frame);
    Picture want(W, H);
    static const Op ops[] = { { 0, 1, 2, 0, 0 }, { 1, 0, 0, 2, 2 }, { 3, 1, 1, 2, 2 } };
    static const Rot rots[] = { Rot::Rotation0, Rot::Rotation90, Rot::Rotation180 };
    static const std::vector<std::vector<Picture>> drawn = []
    {
        std::vector<std::vector<Picture>> r;
        for (auto &o : ops)
        {
            r.emplace_back();
            for (Rot t : rots)
            {
                Recorder plain(swaps(t) ? H : W, swaps(t) ? W : H);
                Canvas p(plain);
                p.setColor(1);
                draw(p, o);
                r.back().push_back(turned(plain.pic, t, W, H));
            }
        }
        return r;
    }();
    int r = 0;
    for (int i = 0; i < (mc::thorough ? 8 : 6); ++i)
    {
        const int op = mc::choose(6, "operation");
        if (op < 3) { canvas.setRotation(rots[r = op]); mc::note("rotation %d", op); }
        else
        {
            canvas.setColor(uint32_t(i + 1));
            draw(canvas, ops[op - 3]);
            const Picture &t = drawn[op - 3][r];
            for (size_t k = 0; k < t.px.size(); ++k) if (t.px[k]) want.px[k] = uint32_t(i + 1);
        }
        mc::step();
        size(canvas, rots[r], W, H);
        MC_CHECK(frame.pic == want, "after %d operations the picture is%s\ninstead of%s", i + 1, frame.pic.text().c_str(), want.text().c_str());
    }
    mc::state(mc::Hash().u(frame.pic.hash()).u(uint64_t(r)));
}

// rectangles map to the rectangle that covers the turned pixels
MC_SCENARIO(rectangles, 16, 2)
{
    const Rot r = mc::pick(kRotations, "rotation");
    static const int frames[][2] = { { 9, 5 }, { 4, 11 }, { 1, 1 }, { 320, 200 }, { 70000, 300 }, { 3, 40000 } };
    const auto &f = mc::pick(frames, "frame");
    Recorder frame(f[0], f[1], 0, 0, 1, 1);
    Canvas canvas(frame);
    canvas.setRotation(r);
    size(canvas, r, f[0], f[1]);
    static const int pos[] = { -70000, -32769, -300, -129, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 127, 128, 255, 256, 319, 32767, 32768, 65535, 70001 };
    static const int len[] = { 1, 2, 3, 4, 5, 9, 11, 127, 128, 255, 256, 32768, 65535, 65536, 100000 };
    for (int x : pos) for (int y : pos) for (int w : len) for (int h : len)
    {
        const auto q = canvas.transformCoords(Canvas::Rect { { x, y }, { w, h } });
        const auto p1 = physical(r, f[0], f[1], x, y), p2 = physical(r, f[0], f[1], x + w - 1, y + h - 1);
        MC_CHECK(q.topLeft.x == std::min(p1.x, p2.x) && q.topLeft.y == std::min(p1.y, p2.y) && q.size.width == std::abs(p1.x - p2.x) + 1 && q.size.height == std::abs(p1.y - p2.y) + 1,
                 "rectangle (%d,%d) %dx%d on %dx%d rotated by %d becomes (%d,%d) %dx%d", x, y, w, h, f[0], f[1], degrees(r), q.topLeft.x, q.topLeft.y, q.size.width, q.size.height);
        mc::step();
    }
    mc::state(mc::Hash().u(int(r)).u(f[0]));
}

// pixels, colours and clearing of a canvas on real frame buffers, against the position the rotation defines
namespace
{
template<int W, int H, int D>
void surface()
{
    SimpleFrameBuffer<W, H, D> fb;
    constexpr uint32_t mask = D == 32 ? ~0u : (1u << D) - 1;
    Canvas canvas(fb);
    std::vector<uint32_t> want(W * H);
    auto decode = [&](size_t p)
    {
        const auto img = static_cast<const Canvas &>(canvas).getImage();
        uint32_t v = 0;
        for (size_t k = p * D; k < (p + 1) * D; ++k) v = v << 1 | (img.begin()[k / 8] >> (7 - k % 8) & 1);
        return v;
    };
    auto compare = [&](const char* what)
    {
        const auto img = canvas.getImage();
        MC_CHECK(img.begin() == fb.getImage().begin() && img.size() == W * H * D / 8, "the canvas has another image than its frame buffer");
        for (int p = 0; p < W * H; ++p)
            MC_CHECK(decode(p) == want[p], "%s: %dx%d, depth %d: pixel (%d,%d) is %X instead of %X", what, W, H, D, p % W, p / W, decode(p), want[p]);
    };
    auto cleared = [&](uint32_t c) { canvas.clear(c); std::fill(want.begin(), want.end(), D == 1 ? c != 0 : c & mask); compare("clear"); };
    cleared(0);
    uint32_t color = mask;              // selected from the beginning
    Rot r = Rot::Rotation0;
    static const uint32_t colors[] = { 0, 1, 0x12345678, 0xFFFFFFFF };
    const int n = mc::thorough ? 5 : 4;
    for (int i = 0; i < n; ++i)
    {
        const int op = mc::choose(4, "operation");
        if (op == 0) { const uint32_t c = mc::pick(colors, "color"); canvas.setColor(c); color = c & mask; compare("colour"); }
        else if (op == 1) cleared(mc::pick(colors, "color"));
        else if (op == 2) { r = mc::pick(kRotations, "rotation"); canvas.setRotation(r); compare("rotation"); }
        else
        {
            const int w = swaps(r) ? H : W, h = swaps(r) ? W : H;
            const int k = mc::choose((w + 2) * (h + 2), "pixel"), x = k % (w + 2) - 1, y = k / (w + 2) - 1;
            canvas.drawPixel({ x, y });
            const auto t = physical(r, W, H, x, y);
            if (t.x >= 0 && t.y >= 0 && t.x < W && t.y < H) want[t.y * W + t.x] = color;
            compare("pixel");
        }
        mc::step();
        mc::state(mc::Hash().bytes(want.data(), want.size() * 4).u(color).u(int(r)));
    }
}
}
MC_SCENARIO(surfaces, 48, 3)
{
    switch (mc::choose(4, "frame"))
    {
        case 0: return surface<8, 1, 1>();
        case 1: return surface<4, 2, 2>();
        case 2: return surface<2, 3, 8>();
        default: return surface<3, 1, 32>();
    }
}
