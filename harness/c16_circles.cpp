// C16: circles against their defining properties.
#include "gfx_common.h"

namespace
{
struct Disc
{
    int R;                       // pictures reach R pixels around the centre
    Picture pic;
    Disc(int R, const Picture &p, int cx, int cy) : R(R), pic(2 * R + 1, 2 * R + 1)
    {
        for (int y = -R; y <= R; ++y) for (int x = -R; x <= R; ++x) if (p.at(cx + x, cy + y)) set(x, y);
    }
    void set(int x, int y) { pic.set(x + R, y + R, 1); }
    bool at(int x, int y) const { return pic.at(x + R, y + R) != 0; }
};

void check(int W, int H, Rot rot, int cx, int cy, int r)
{
    Recorder outlineFrame(W, H), filledFrame(W, H);
    Canvas outline(outlineFrame), filled(filledFrame);
    outline.setRotation(rot);
    filled.setRotation(rot);
    outline.drawCircle({ cx, cy }, r);
    filled.drawCircle({ cx, cy }, r, true);
    mc::step(2);
    const auto c = physical(rot, W, H, cx, cy);
    const int R = r + 2;
    Disc o(R, outlineFrame.pic, c.x, c.y), f(R, filledFrame.pic, c.x, c.y);
    size_t n = 0;
    for (auto v : outlineFrame.pic.px) n += v != 0;
    size_t m = 0;
    for (auto v : filledFrame.pic.px) m += v != 0;
    // nothing far from the circle
    size_t on = 0, fn = 0;
    for (auto v : o.pic.px) on += v != 0;
    for (auto v : f.pic.px) fn += v != 0;
    MC_CHECK(n == on && m == fn, "radius %d: pixels far from the circle", r);
    MC_CHECK(o.at(r, 0) && o.at(-r, 0) && o.at(0, r) && o.at(0, -r), "radius %d rotated by %d: an extreme point is missing%s", r, degrees(rot), o.pic.text().c_str());
    if (r == 0) MC_CHECK(n == 1 && m == 1, "radius 0 has %zu and %zu pixels", n, m);
    for (int y = -R; y <= R; ++y)
        for (int x = -R; x <= R; ++x)
        {
            if (!o.at(x, y)) continue;
            MC_CHECK(o.at(-x, y) && o.at(x, -y) && o.at(y, x) && o.at(-y, -x), "radius %d rotated by %d: (%d,%d) is set but not its mirror images%s", r, degrees(rot), x, y, o.pic.text().c_str());
            const int64_t d = int64_t(x) * x + int64_t(y) * y;
            MC_CHECK(d <= int64_t(r + 1) * (r + 1) && (r == 0 || d >= int64_t(r - 1) * (r - 1)), "radius %d: (%d,%d) is more than a pixel off", r, x, y);
        }
    // connected (8 neighbours)
    {
        std::vector<std::pair<int, int>> todo { { r, 0 } };
        Picture seen = o.pic;
        seen.set(r + R, R, 0);
        size_t reached = 0;
        while (!todo.empty())
        {
            auto [x, y] = todo.back(); todo.pop_back();
            ++reached;
            int around = 0;
            for (int dy = -1; dy <= 1; ++dy)
                for (int dx = -1; dx <= 1; ++dx)
                {
                    if (!dx && !dy) continue;
                    around += o.at(x + dx, y + dy);
                    if (seen.at(x + dx + R, y + dy + R)) { seen.set(x + dx + R, y + dy + R, 0); todo.push_back({ x + dx, y + dy }); }
                }
            MC_CHECK(r == 0 || around >= 2, "radius %d: the curve ends at (%d,%d)", r, x, y);
        }
        MC_CHECK(reached == n, "radius %d: %zu of %zu pixels are connected", r, reached, n);
    }
    // closed: what can be reached from outside by steps along the axes without crossing the outline is the outside
    {
        Picture out(2 * R + 1, 2 * R + 1);
        std::vector<std::pair<int, int>> todo { { -R, -R } };
        out.set(0, 0, 1);
        while (!todo.empty())
        {
            auto [x, y] = todo.back(); todo.pop_back();
            static const int d[][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } };
            for (auto &s : d)
            {
                const int u = x + s[0], v = y + s[1];
                if (std::abs(u) > R || std::abs(v) > R || o.at(u, v) || out.at(u + R, v + R)) continue;
                out.set(u + R, v + R, 1);
                todo.push_back({ u, v });
            }
        }
        for (int y = -R; y <= R; ++y)
            for (int x = -R; x <= R; ++x)
                MC_CHECK(f.at(x, y) == !out.at(x + R, y + R), "filled circle of radius %d rotated by %d: (%d,%d) is %s%s", r, degrees(rot), x, y, f.at(x, y) ? "set but outside the outline" : "not set but inside", r < 12 ? f.pic.text().c_str() : "");
        MC_CHECK(r == 0 || !out.at(R, R) || o.at(0, 0), "radius %d: the curve does not enclose its centre", r);
    }
    mc::state(mc::Hash().u(o.pic.hash()).u(int(rot)));
}
}

MC_SCENARIO(everyRadius, 48, 1)
{
    const int r = mc::choose(mc::thorough ? 1100 : 290, "radius");
    const int odd = mc::choose(2, "place");
    const Rot rot = odd ? mc::pick(kRotations, "rotation") : Rot::Rotation0;
    const int w = odd ? 2 * r + 9 : 2 * r + 5, h = odd ? 2 * r + 14 : 2 * r + 5;
    check(swaps(rot) ? h : w, swaps(rot) ? w : h, rot, r + (odd ? 5 : 2), r + (odd ? 4 : 2), r);
}

// every centre in a frame that holds the circle
MC_SCENARIO(everyCentre, 16, 3)
{
    const int r = mc::choose(7, "radius");
    const Rot rot = mc::pick(kRotations, "rotation");
    const int w = 2 * r + 1 + 6, h = 2 * r + 1 + 4;
    check(swaps(rot) ? h : w, swaps(rot) ? w : h, rot, r + mc::choose(7, "x"), r + mc::choose(5, "y"), r);
}

// every centre in and around a frame that shows only part of the circle (or none)
MC_SCENARIO(partlyVisible, 48, 4)
{
    static const int frames[][2] = { { 5, 3 }, { 2, 7 }, { 1, 1 }, { 11, 9 } };
    const auto &fr = mc::pick(frames, "frame");
    const Rot rot = mc::pick(kRotations, "rotation");
    static const int radii[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 40, 127, 128, 129, 255, 256, 300 };
    const int r = mc::pick(radii, "radius");
    // the whole circle, which the other scenarios judge
    Recorder whole[2] = { Recorder(2 * r + 1, 2 * r + 1), Recorder(2 * r + 1, 2 * r + 1) };
    for (int filled = 0; filled < 2; ++filled) { Canvas c(whole[filled]); c.drawCircle({ r, r }, r, filled != 0); }
    const int w = swaps(rot) ? fr[1] : fr[0], h = swaps(rot) ? fr[0] : fr[1];
    const bool small = r <= 14;
    std::vector<int> xs, ys;
    auto places = [&](std::vector<int> &v, int n)
    {
        if (small) for (int i = -r - 2; i < n + r + 2; i += (mc::thorough || r < 6 ? 1 : 2)) v.push_back(i);
        else v = { -r - 1, -r, -r + 1, -r / 2, -2, 0, n / 2, n, r / 3, r - 1, r, n - 1 + r, n + r };
    };
    places(xs, w);
    places(ys, h);
    const int part = mc::choose(4, "part");
    for (size_t i = size_t(part); i < xs.size(); i += 4)
        for (int cy : ys)
            for (int filled = 0; filled < 2; ++filled)
            {
                const int cx = xs[i];
                Recorder frame(fr[0], fr[1]);
                Canvas c(frame);
                c.setRotation(rot);
                c.drawCircle({ cx, cy }, r, filled != 0);
                mc::step();
                for (int y = 0; y < h; ++y)
                    for (int x = 0; x < w; ++x)
                    {
                        const auto p = physical(rot, fr[0], fr[1], x, y);
                        const bool want = whole[filled].pic.at(x - cx + r, y - cy + r) != 0;
                        MC_CHECK((frame.pic.at(p.x, p.y) != 0) == want, "%s of radius %d at (%d,%d) on a frame of %dx%d rotated by %d: (%d,%d) is %s", filled ? "filled circle" : "circle", r, cx, cy, fr[0], fr[1],
                                 degrees(rot), x, y, want ? "missing" : "set");
                    }
                mc::state(frame.pic.hash());
            }
}

// outlines of very large radius: the stepping must not overflow and stay on the circle
MC_SCENARIO(huge, 16, 1)
{
    static const int radii[] = { 1000, 4095, 4096, 10000, 16384, 23169, 23170, 23171, 32766, 32767, 32768, 46340, 46341, 65535, 65536, 100000 };
    const int r = mc::pick(radii, "radius");
    struct Sink : FrameBufferBase
    {
        int r, c; uint64_t n = 0; int hit = 0;
        int getWidth() const override { return 2 * r + 9; }
        int getHeight() const override { return 2 * r + 9; }
        embedded::BytesView getImage() override { return {}; }
        embedded::ConstBytesView getImage() const override { return {}; }
        void clear(uint32_t) override {}
        void setColor(uint32_t) override {}
        void drawPixel(int px, int py) override
        {
            const int64_t x = px - c, y = py - c, d = x * x + y * y;
            MC_CHECK(d >= int64_t(r - 1) * (r - 1) && d <= int64_t(r + 1) * (r + 1), "radius %d: (%lld,%lld) is more than a pixel off", r, (long long)x, (long long)y);
            if (x == 0 && y == r) hit |= 1;
            if (x == 0 && y == -r) hit |= 2;
            if (y == 0 && x == r) hit |= 4;
            if (y == 0 && x == -r) hit |= 8;
            MC_CHECK(++n < uint64_t(r) * 40, "radius %d: too many pixels", r);
        }
    } sink;
    sink.r = r;
    sink.c = r + 4;
    Canvas canvas(sink);
    canvas.drawCircle({ r + 4, r + 4 }, r);
    MC_CHECK(sink.hit == 15, "radius %d: an extreme point is missing", r);
    mc::step();
    mc::state(mc::Hash().u(r).u(sink.n));
}
