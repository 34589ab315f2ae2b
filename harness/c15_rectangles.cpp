// C15: filled and outlined rectangles against their definition.
#include "gfx_common.h"

namespace
{
void check(Recorder &frame, Canvas &canvas, int W, int H, Rot r, bool filled, int x, int y, int w, int h)
{
    if (filled) canvas.drawFilledRectangle({ { x, y }, { w, h } });
    else canvas.drawRectangle({ { x, y }, { w, h } });
    mc::step();
    const auto s = canvas.getSize();
    for (int py = 0; py < s.height; ++py)
        for (int px = 0; px < s.width; ++px)
        {
            const bool in = px >= x && px - x < w && py >= y && py - y < h;
            const bool want = in && (filled || px == x || px == x + w - 1 || py == y || py == y + h - 1);
            const auto t = physical(r, W, H, px, py);
            MC_CHECK((frame.pic.at(t.x, t.y) != 0) == want, "%s (%d,%d) %dx%d on %dx%d rotated by %d: pixel (%d,%d) is %s", filled ? "filled rectangle" : "rectangle", x, y, w, h, W, H,
                     degrees(r), px, py, want ? "missing" : "set");
        }
    mc::state(frame.pic.hash());
    frame.reset();
}
}

// every position and size around small frames
MC_SCENARIO(everyRectangle, 48, 4)
{
    static const int frames[][2] = { { 6, 4 }, { 1, 5 }, { 8, 8 }, { 3, 1 }, { 12, 9 } };
    const auto &f = frames[mc::choose(mc::thorough ? 5 : 4, "frame")];
    const Rot r = mc::pick(kRotations, "rotation");
    Recorder frame(f[0], f[1]);
    Canvas canvas(frame);
    canvas.setRotation(r);
    const auto s = canvas.getSize();
    const int filled = mc::choose(2, "filled");
    const int x = mc::choose(s.width + 5, "x") - 4, y = mc::choose(s.height + 5, "y") - 4;
    for (int w = -3; w < s.width + 7; ++w)
        for (int h = -3; h < s.height + 7; ++h) check(frame, canvas, f[0], f[1], r, filled, x, y, w, h);
}

// sizes and positions around the 8 bit limits on a large frame, thin frames of more than 2^16
MC_SCENARIO(large, 48, 3)
{
    static const int frames[][2] = { { 300, 140 }, { 131, 270 }, { 66000, 2 }, { 2, 33000 } };
    const auto &f = mc::pick(frames, "frame");
    const Rot r = mc::pick(kRotations, "rotation");
    const int filled = mc::choose(2, "filled");
    Recorder frame(f[0], f[1]);
    Canvas canvas(frame);
    canvas.setRotation(r);
    const auto s = canvas.getSize();
    static const int pos[] = { -300, -129, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535 };
    static const int len[] = { 1, 2, 127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 65990, 100000, 0, -1, -300 };
    const int x = mc::pick(pos, "x"), y = mc::pick(pos, "y");
    if (x >= s.width || y >= s.height) return;
    for (int w : len)
        for (int h : len)
        {
            const bool big = f[0] > 1000 || f[1] > 1000;
            if (!mc::thorough && big && (s.width < 10 ? (w > 2 && w < 65990) : (h > 2 && h < 65990))) continue;
            if (!mc::thorough && !big && (w > 1000 || h > 1000) && w != 65536 && h != 65536) continue;
            // an implementation that visits clipped pixels as well must be able to finish
            if (filled && w > 0 && h > 0 && int64_t(w) * h > 400000) continue;
            check(frame, canvas, f[0], f[1], r, filled, x, y, w, h);
        }
}
