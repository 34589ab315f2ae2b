// C12: every drawing operation on a small frame against the same operation on a frame so large that nothing is clipped.
#include "gfx_common.h"
#include "graphics/SimpleFrameBuffer.h"

namespace
{
struct Op
{
    int kind;                // 0 pixel 1 line 2 rectangle 3 filled rectangle 4 circle 5 filled circle 6 character 7 string
    int a, b, c, d;
    char ch;
    std::string str(int deg) const
    {
        static const char* names[] = { "pixel", "line", "rectangle", "filled rectangle", "circle", "filled circle", "character", "string" };
        char t[160]; snprintf(t, sizeof t, "%s (%d,%d,%d,%d) rotated by %d", names[kind], a, b, c, d, deg); return t;
    }
};

const TestFont &font()
{
    static const TestFont f({ makeGlyph(3, 3, -1, -2, 2, 0x1AD), makeGlyph(9, 2, 1, 0, 5, 0x2B5D7), makeGlyph(1, 4, 0, -4, 3, 0xB), makeGlyph(0, 0, 0, 0, 4, 0),
                              makeGlyph(40, 40, -20, -20, 100, 0x9D2C5680), makeGlyph(4, 4, 127, -128, 255, 0xF99F) }, 'A', 'F');
    return f;
}
const char* const kTexts[] = { "", "A", "BC", "ABCD", "FAF", "EBE" };

void draw(Canvas &cv, const Op &o, int M)
{
    switch (o.kind)
    {
        case 0: cv.drawPixel({ o.a + M, o.b + M }); break;
        case 1: cv.drawLine({ o.a + M, o.b + M }, { o.c + M, o.d + M }); break;
        case 2: cv.drawRectangle({ { o.a + M, o.b + M }, { o.c, o.d } }); break;
        case 3: cv.drawFilledRectangle({ { o.a + M, o.b + M }, { o.c, o.d } }); break;
        case 4: cv.drawCircle({ o.a + M, o.b + M }, o.c); break;
        case 5: cv.drawCircle({ o.a + M, o.b + M }, o.c, true); break;
        case 6: cv.drawCharAt({ o.a + M, o.b + M }, o.ch, *font().font); break;
        case 7: cv.drawStringAt({ o.a + M, o.b + M }, kTexts[o.c], *font().font); break;
    }
}

// W x H: the physical frame
struct Pair
{
    Recorder frame, world;
    Canvas small, large;
    int W, H, M;
    Rot rot;
    Pair(int W, int H, int M, Rot r) : frame(W, H), world(W + 2 * M, H + 2 * M, M, M, W, H), small(frame), large(world), W(W), H(H), M(M), rot(r)
    {
        small.setRotation(r);
        large.setRotation(r);
    }
    void run(const Op &o)
    {
        draw(small, o, 0);
        draw(large, o, M);
        mc::step();
        MC_CHECK(frame.pic == world.pic, "frame %dx%d: %s is drawn as%s\nwithout clipping it is%s", W, H, o.str(degrees(rot)).c_str(), frame.pic.text().c_str(), world.pic.text().c_str());
        mc::state(frame.pic.hash());
        frame.reset();
        world.reset();
    }
};
const int kFrames[][2] = { { 1, 1 }, { 5, 3 }, { 2, 6 }, { 8, 7 } };
}

// all positions, end points, sizes and radii in and around small frames
MC_SCENARIO(around, 48, 3)
{
    const int f = mc::choose(4, "frame");
    const int kind = mc::choose(8, "operation");
    const Rot r = mc::pick(kRotations, "rotation");
    Pair p(kFrames[f][0], kFrames[f][1], 600, r);
    const auto size = p.small.getSize();
    const int reach = mc::thorough ? 5 : 3;
    const int a = mc::choose(size.width + 2 * reach, "x") - reach;
    const int b = mc::choose(size.height + 2 * reach, "y") - reach;
    auto go = [&](int c, int d, char ch = 0) { p.run({ kind, a, b, c, d, ch }); };
    switch (kind)
    {
        case 0: go(0, 0); break;
        case 1:
            for (int c = -reach - 4; c < size.width + reach + 4; ++c)
                for (int d = -reach - 4; d < size.height + reach + 4; ++d) go(c, d);
            break;
        case 2: case 3:
            for (int c = -2; c < size.width + 2 * reach + 2; ++c)
                for (int d = -2; d < size.height + 2 * reach + 2; ++d) go(c, d);
            break;
        case 4: case 5: for (int c = -1; c < 16; ++c) go(c, 0); break;
        case 6: for (int c = '@'; c < 'H'; ++c) go(0, 0, char(c)); break;
        case 7: for (int c = 0; c < 6; ++c) go(c, 0); break;
    }
}

// far away positions and large sizes
MC_SCENARIO(far, 48, 3)
{
    static const int far[] = { 0, 2, -2, 7, -100000, 100000, -65534, 65538, -32768, 32768, -256, 256, -129, 128, 4098,
                               -65536, -65535, 65535, 65536, -32769, 32767, -257, -128, 127, 255, -4094 };
    const int nFar = mc::thorough ? int(std::size(far)) : 15;
    static const int sizes[] = { 1, 3, 128, 257, 32768, 65538, 0, -1, -65530, -300, 127, 255, 100000, -70000, 32767, 65535, 65536, 200000, 256 };
    const int nSizes = mc::thorough ? int(std::size(sizes)) : 9;
    const int kind = mc::choose(8, "operation");
    const Rot r = mc::pick(kRotations, "rotation");
    Pair p(5, 3, 500000, r);
    const int a = far[mc::choose(nFar, "x")], b = far[mc::choose(nFar, "y")];
    auto go = [&](int c, int d, char ch = 0) { p.run({ kind, a, b, c, d, ch }); };
    auto pairs = [&](const int* v, int n)
    {
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                if (!mc::thorough && std::abs(v[i]) > 40000 && std::abs(v[j]) > 40000 && v[i] != v[j]) continue;
                // an implementation that visits clipped pixels as well must be able to finish
                if (kind == 3 && v[i] > 0 && v[j] > 0 && int64_t(v[i]) * v[j] > 100000) continue;
                go(v[i], v[j]);
            }
    };
    switch (kind)
    {
        case 0: go(0, 0); break;
        case 1:
            for (int i = 0; i < nFar; ++i) for (int j = 0; j < nFar; ++j)
            {
                const int c = far[i], d = far[j];
                const int remote = (std::abs(a) > 300) + (std::abs(b) > 300) + (std::abs(c) > 300) + (std::abs(d) > 300);
                if (!mc::thorough && remote > 2) continue;
                go(c, d);
            }
            break;
        case 2: pairs(sizes, nSizes); break;
        case 3:
        {
            static const int cheap[] = { 1, 3, 128, 257, 4097, 65538, 0, -1, -300, -70000 };
            pairs(cheap, int(std::size(cheap)));
            break;
        }
        case 4: for (int c : { 0, 1, 100, 128, 255, 256, 32768, 65535, 65536, 100000, 99998, 100003 }) { if (mc::thorough || c != 65535) go(c, 0); } break;
        case 5: for (int c : { 1, 100, 129, 257, 300 }) { if (mc::thorough || c < 200 || std::abs(a) < 300 || std::abs(b) < 300) go(c, 0); }; break;
        case 6: for (int c = '@'; c < 'H'; ++c) go(0, 0, char(c)); break;
        case 7: for (int c = 0; c < 6; ++c) go(c, 0); break;
    }
}

// filled rectangles far larger than the frame, where the exact result is known
MC_SCENARIO(covering, 16, 2)
{
    const Rot r = mc::pick(kRotations, "rotation");
    static const int from[] = { -1000000, -65536, -65537, -32768, -300, -1, 0, 1, 4 };
    static const int to[] = { -1, 0, 1, 2, 7, 255, 256, 32768, 65536, 1000000 };
    const int x0 = mc::pick(from), x1 = mc::pick(to), y0 = mc::pick(from), y1 = mc::pick(to);
    if (int64_t(x1 - x0) * (y1 - y0) > (mc::thorough ? 20000000 : 2000000)) return;
    Recorder frame(7, 4);
    Canvas c(frame);
    c.setRotation(r);
    c.drawFilledRectangle({ { x0, y0 }, { x1 - x0, y1 - y0 } });
    Picture want(7, 4);
    const auto s = c.getSize();
    for (int y = 0; y < s.height; ++y)
        for (int x = 0; x < s.width; ++x)
            if (x >= x0 && x < x1 && y >= y0 && y < y1) { auto p = physical(r, 7, 4, x, y); want.set(p.x, p.y, 1); }
    mc::step();
    MC_CHECK(frame.pic == want, "rectangle [%d,%d)x[%d,%d) rotated by %d is drawn as%s\ninstead of%s", x0, x1, y0, y1, degrees(r), frame.pic.text().c_str(), want.text().c_str());
    mc::state(frame.pic.hash());
}

// the canvas passes colours, clearing and the image on; drawing on a real frame buffer stays in its memory
MC_SCENARIO(realBuffer, 16, 3)
{
    const Rot r = mc::pick(kRotations, "rotation");
    const int kind = mc::choose(8, "operation"), clear = mc::choose(2, "background");
    Recorder frame(8, 5);
    auto bits = std::make_unique<SimpleFrameBuffer<8, 5, 1>>();
    auto words = std::make_unique<SimpleFrameBuffer<8, 5, 16>>();
    Canvas a(frame), b(*bits), c(*words);
    MC_CHECK(a.getImage().begin() == frame.image && a.getImage().size() == sizeof frame.image, "the image is not the frame buffer's");
    for (auto* cv : { &a, &b, &c })
    {
        cv->setRotation(r);
        cv->clear(clear ? 0xFFFF : 0);
        cv->setColor(clear ? 0 : 0xFFFF);
    }
    MC_CHECK(frame.clears == 1 && frame.clearColor == (clear ? 0xFFFFu : 0u) && frame.setColors == 1 && frame.color == (clear ? 0u : 0xFFFFu), "colour or clearing is not passed on");
    for (int x = -7; x < 16; x += 1 + (x & 1))
        for (int y = -7; y < 13; y += 2)
            for (int k = 0; k < 6; ++k)
            {
                const Op o { kind, x, y, k * 3 - 2, 7 - k * 2, char('A' + k) };
                Op p = o;
                if (kind == 4 || kind == 5) p.c = k * 2;
                if (kind == 7) p.c = k;
                draw(a, p, 0); draw(b, p, 0); draw(c, p, 0);
                mc::step(3);
                for (int py = 0; py < 5; ++py)
                    for (int px = 0; px < 8; ++px)
                    {
                        const bool want = frame.pic.at(px, py) != 0;
                        const bool one = (b.getImage()[py] >> (7 - px)) & 1;
                        const int two = c.getImage()[(py * 8 + px) * 2] * 256 + c.getImage()[(py * 8 + px) * 2 + 1];
                        MC_CHECK(one == want && two == (want ? 0xFFFF : 0), "%s: pixel (%d,%d) of a real frame buffer differs", p.str(degrees(r)).c_str(), px, py);
                    }
                mc::state(mc::Hash().u(frame.pic.hash()).u(kind));
            }
}
