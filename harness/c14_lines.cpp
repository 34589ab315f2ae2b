// C14: every line against the definition of a digital straight line.
#include "gfx_common.h"

namespace
{
// everything the frame is told to draw, in physical coordinates
class Points : public FrameBufferBase
{
public:
    Points(int w, int h) : w(w), h(h) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return {}; }
    embedded::ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override {}
    void setColor(uint32_t) override {}
    void drawPixel(int x, int y) override
    {
        MC_CHECK(x >= 0 && y >= 0 && x < w && y < h, "pixel (%d,%d) outside the frame", x, y);
        px.push_back({ x, y });
        MC_CHECK(px.size() < 3000000, "more than 3000000 pixels");
    }
    void sort()
    {
        std::sort(px.begin(), px.end(), [](auto &a, auto &b) { return a.x != b.x ? a.x < b.x : a.y < b.y; });
        px.erase(std::unique(px.begin(), px.end()), px.end());
    }
    int w, h;
    std::vector<Canvas::Point> px;
};

// the line from (x0,y0) to (x1,y1), wholly inside the frame, in logical coordinates
void check(int W, int H, Rot r, int x0, int y0, int x1, int y1)
{
    Points frame(W, H), back(W, H);
    Canvas canvas(frame), reverse(back);
    canvas.setRotation(r);
    reverse.setRotation(r);
    canvas.drawLine({ x0, y0 }, { x1, y1 });
    reverse.drawLine({ x1, y1 }, { x0, y0 });
    frame.sort();
    back.sort();
    mc::step(2);
    char what[120];
    snprintf(what, sizeof what, "line (%d,%d)-(%d,%d) rotated by %d", x0, y0, x1, y1, degrees(r));
    MC_CHECK(frame.px == back.px, "%s has other pixels when drawn from the other end", what);
    const auto a = physical(r, W, H, x0, y0), b = physical(r, W, H, x1, y1);
    const int64_t dx = std::abs(a.x - b.x), dy = std::abs(a.y - b.y), L = std::max(dx, dy), S = std::min(dx, dy);
    MC_CHECK(int64_t(frame.px.size()) == L + 1, "%s has %zu pixels instead of %lld", what, frame.px.size(), (long long)(L + 1));
    MC_CHECK(std::find(frame.px.begin(), frame.px.end(), a) != frame.px.end() && std::find(frame.px.begin(), frame.px.end(), b) != frame.px.end(), "%s misses an end point", what);
    const bool steep = dy > dx;
    auto lng = [&](const Canvas::Point &p) { return steep ? p.y : p.x; };
    auto shrt = [&](const Canvas::Point &p) { return steep ? p.x : p.y; };
    if (steep) std::sort(frame.px.begin(), frame.px.end(), [](auto &p, auto &q) { return p.y < q.y; });
    auto lo = a, hi = b;
    if (lng(lo) > lng(hi)) std::swap(lo, hi);
    const int64_t sign = shrt(hi) >= shrt(lo) ? 1 : -1;
    for (int64_t i = 0; i <= L; ++i)
    {
        const auto &p = frame.px[size_t(i)];
        MC_CHECK(lng(p) == lng(lo) + i, "%s does not have one pixel per step (step %lld)", what, (long long)i);
        // |short - ideal| <= 1/2, ideal = sign * i * S / L
        const int64_t off = int64_t(shrt(p)) - shrt(lo);
        if (L) MC_CHECK(std::abs(2 * (off * L - sign * i * S)) <= L, "%s: pixel %lld is (%d,%d), more than half a pixel off", what, (long long)i, p.x, p.y);
        if (i) MC_CHECK(std::abs(shrt(p) - shrt(frame.px[size_t(i - 1)])) <= 1, "%s: gap at pixel %lld", what, (long long)i);
    }
    mc::state(mc::Hash().bytes(frame.px.data(), frame.px.size() * sizeof frame.px[0]));
}
}

// the same line where the frame shows only part of it (or none)
namespace
{
void partly(int W, int H, Rot r, int x0, int y0, int x1, int y1)
{
    Points frame(W, H), back(W, H);
    Canvas canvas(frame), reverse(back);
    canvas.setRotation(r);
    reverse.setRotation(r);
    canvas.drawLine({ x0, y0 }, { x1, y1 });
    reverse.drawLine({ x1, y1 }, { x0, y0 });
    frame.sort();
    back.sort();
    mc::step(2);
    char what[120];
    snprintf(what, sizeof what, "line (%d,%d)-(%d,%d) on a frame of %dx%d rotated by %d", x0, y0, x1, y1, W, H, degrees(r));
    MC_CHECK(frame.px == back.px, "%s has other pixels when drawn from the other end", what);
    auto a = physical(r, W, H, x0, y0), b = physical(r, W, H, x1, y1);
    const int64_t dx = std::abs(a.x - b.x), dy = std::abs(a.y - b.y), L = std::max(dx, dy), S = std::min(dx, dy);
    const bool steep = dy > dx;
    if (steep ? a.y > b.y : a.x > b.x) std::swap(a, b);
    const int64_t l0 = steep ? a.y : a.x, s0 = steep ? a.x : a.y, sign = (steep ? b.x >= a.x : b.y >= a.y) ? 1 : -1;
    auto visible = [&](int64_t l, int64_t s) { return steep ? s >= 0 && s < W && l >= 0 && l < H : l >= 0 && l < W && s >= 0 && s < H; };
    std::vector<bool> seen(frame.px.size());
    const int64_t from = std::max<int64_t>(0, -l0), to = std::min<int64_t>(L, (steep ? H : W) - 1 - l0);
    for (int64_t i = from; i <= to; ++i)
    {
        // short-axis positions no more than half a pixel from the ideal line
        const int64_t n = 2 * i * S;
        const int64_t lo = L ? (n - L + 2 * L - 1 + 4 * L) / (2 * L) - 2 : 0;       // ceil((n - L) / 2L)
        const int64_t hi = L ? (n + L) / (2 * L) : 0;                               // floor((n + L) / 2L)
        int all = 0, shown = 0, set = 0;
        for (int64_t k = lo; k <= hi; ++k)
        {
            ++all;
            const int64_t s = s0 + sign * k;
            if (!visible(l0 + i, s)) continue;
            ++shown;
            const Canvas::Point p = steep ? Canvas::Point { int(s), int(l0 + i) } : Canvas::Point { int(l0 + i), int(s) };
            for (size_t q = 0; q < frame.px.size(); ++q) if (frame.px[q] == p) { seen[q] = true; ++set; }
        }
        MC_CHECK(set <= 1 && (shown < all || set == 1), "%s: step %lld has %d pixels", what, (long long)i, set);
    }
    for (size_t q = 0; q < seen.size(); ++q) MC_CHECK(seen[q], "%s: (%d,%d) is not on the line", what, frame.px[q].x, frame.px[q].y);
    for (auto e : { a, b })
        if (e.x >= 0 && e.y >= 0 && e.x < W && e.y < H) MC_CHECK(std::find(frame.px.begin(), frame.px.end(), e) != frame.px.end(), "%s misses its end (%d,%d)", what, e.x, e.y);
    mc::state(mc::Hash().bytes(frame.px.data(), frame.px.size() * sizeof frame.px[0]));
}
}
MC_SCENARIO(partlyVisible, 48, 3)
{
    static const int frames[][2] = { { 5, 3 }, { 2, 6 }, { 1, 1 }, { 9, 8 } };
    const auto &f = mc::pick(frames, "frame");
    const Rot r = mc::pick(kRotations, "rotation");
    const int reach = mc::thorough ? 9 : 5;
    const int w = swaps(r) ? f[1] : f[0], h = swaps(r) ? f[0] : f[1];
    const int a = mc::choose(w + 2 * reach, "x") - reach, b = mc::choose(h + 2 * reach, "y") - reach;
    for (int c = -reach; c < w + reach; ++c) for (int d = -reach; d < h + reach; ++d) partly(f[0], f[1], r, a, b, c, d);
}
MC_SCENARIO(crossing, 48, 3)
{
    static const int frames[][2] = { { 5, 3 }, { 40, 60 }, { 128, 64 }, { 300, 270 } };
    static const int ends[] = { -70000, -32769, -1000, -257, -129, -40, -7, -1, 0, 2, 17, 63, 127, 128, 255, 256, 500, 1000, 32768, 70000 };
    const auto &f = mc::pick(frames, "frame");
    const Rot r = mc::pick(kRotations, "rotation");
    const int n = int(std::size(ends));
    const int i = mc::choose(n, "x"), j = mc::choose(n, "y");
    for (int k = i; k < n; ++k)
        for (int l = 0; l < n; ++l)
        {
            const int far = (std::abs(ends[i]) > 1000) + (std::abs(ends[j]) > 1000) + (std::abs(ends[k]) > 1000) + (std::abs(ends[l]) > 1000);
            if (!mc::thorough && (far > 1 || (i + j + k + l) % 4)) continue;
            partly(f[0], f[1], r, ends[i], ends[j], ends[k], ends[l]);
        }
}

// every direction
MC_SCENARIO(everyVector, 48, 3)
{
    const int n = mc::thorough ? 130 : 44;
    const Rot r = mc::pick(kRotations, "rotation");
    const int dx = mc::choose(2 * n + 1, "dx") - n;
    const int where = mc::choose(2, "place");
    const int w = where ? 4 * n : 2 * n + 1, h = where ? 3 * n : 2 * n + 1;
    const int ox = where ? n + 7 : n, oy = where ? n + 3 : n;
    for (int dy = -n; dy <= n; ++dy) check(swaps(r) ? h : w, swaps(r) ? w : h, r, ox, oy, ox + dx, oy + dy);
}

// every pair of points of a small frame
MC_SCENARIO(everyPair, 16, 3)
{
    const Rot r = mc::pick(kRotations, "rotation");
    const int w = mc::thorough ? 13 : 9, h = mc::thorough ? 10 : 7;
    const int a = mc::choose(w, "x"), b = mc::choose(h, "y");
    for (int c = 0; c < w; ++c) for (int d = 0; d < h; ++d) check(swaps(r) ? h : w, swaps(r) ? w : h, r, a, b, c, d);
}

// long lines
MC_SCENARIO(longLines, 32, 3)
{
    static const int lengths[] = { 126, 127, 128, 129, 254, 255, 256, 257, 1000, 32767, 32768, 40000, 65535, 65536, 100000 };
    const Rot r = mc::pick(kRotations, "rotation");
    const int L = mc::pick(lengths, "length"), steep = mc::choose(2, "steep");
    if (!mc::thorough && L > 40000 && r != Rot::Rotation0 && r != Rot::Rotation90) return;
    const int shorts[] = { 0, 1, 2, 3, L / 3, L / 2 - 1, L / 2, L / 2 + 1, (L + 1) / 2, L - 2, L - 1, L, 100, 127 };
    for (int s : shorts)
        for (int sign = 0; sign < 4; ++sign)
        {
            if (s > L || (!mc::thorough && L > 1000 && (sign == 1 || s == 3 || s == 100))) continue;
            const int dx = (steep ? s : L), dy = (steep ? L : s);
            const int x0 = 5 + (sign & 1 ? dx : 0), y0 = 3 + (sign & 2 ? dy : 0);
            const int x1 = 5 + (sign & 1 ? 0 : dx), y1 = 3 + (sign & 2 ? 0 : dy);
            const int w = dx + 12, h = dy + 9;
            check(swaps(r) ? h : w, swaps(r) ? w : h, r, x0, y0, x1, y1);
        }
}
