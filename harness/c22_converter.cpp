// C22: converted fonts, glyph by glyph, through both output formats and back through the library.
#include "conv_common.h"

namespace
{
using namespace conv;
struct Options { const char* encoding = nullptr; bool binary = false; int size = -1, dpi = -1; std::string font = "Test.ttf"; std::string earlier; };

std::string baseName(const Options &o)
{
    auto n = o.font.substr(o.font.rfind('/') == std::string::npos ? 0 : o.font.rfind('/') + 1);
    if (n.rfind('.') != std::string::npos && n.rfind('.') != 0) n = n.substr(0, n.rfind('.'));
    const std::string e = o.encoding ? o.encoding : "ASCII";
    return n + std::to_string(o.size < 0 ? 12 : o.size) + "pt" + (!strcasecmp(e.c_str(), "ASCII") ? "7b" : "8b");
}
int lastOf(const Options &o) { return !o.encoding || !strcasecmp(o.encoding, "ASCII") ? '~' : 0xFF; }
// the files a run may have written
struct Files { std::string header, bitmaps, glyphs; };
Files files(const Options &o)
{
    const auto p = directory() + "/" + baseName(o);
    return { p + ".h", p + "Bitmaps.bin", p + "Glyphs.bin" };
}
void removeFiles(const Options &o) { const auto f = files(o); unlink(f.header.c_str()); unlink(f.bitmaps.c_str()); unlink(f.glyphs.c_str()); }
Run convert(const Options &o)
{
    removeFiles(o);
    if (!o.earlier.empty())
    {
        const auto f = files(o);
        for (auto &n : { f.header, f.bitmaps, f.glyphs }) std::ofstream(n, std::ios::binary) << o.earlier;
    }
    auto glyph = world.glyph;
    const auto height = world.height;
    world = World {};
    world.glyph = glyph;
    world.height = height;
    std::vector<std::string> args = { "/nowhere/gfx-font-converter", "-f", o.font, "-o", directory() };
    if (o.encoding) { args.push_back("-e"); args.push_back(o.encoding); }
    if (o.size >= 0) { args.push_back("-s"); args.push_back(std::to_string(o.size)); }
    if (o.dpi >= 0) { args.push_back("-d"); args.push_back(std::to_string(o.dpi)); }
    if (o.binary) args.push_back("-b");
    const Run r = run(args);
    MC_CHECK(world.misuse.empty(), "%s", world.misuse.c_str());
    mc::note("%s %s -> %d %s", o.encoding ? o.encoding : "ASCII", o.binary ? "binary" : "header", r.status, r.err.c_str());
    return r;
}
Font load(const Options &o)
{
    const auto f = files(o);
    bool there = false, there2 = true;
    Font font;
    if (o.binary)
    {
        const auto b = slurp(f.bitmaps, there), g = slurp(f.glyphs, there2);
        MC_CHECK(there && there2, "success without output files");
        font = parseBinary(b, g, lastOf(o));
    }
    else
    {
        const auto h = slurp(f.header, there);
        MC_CHECK(there, "success without output file");
        font = parseHeader(h);
        const long whole = world.height / 64;
        MC_CHECK(font.height == whole || (world.height % 64 && font.height == whole + 1), "line height %d instead of %ld", font.height, whole);
    }
    MC_CHECK(font.first == ' ' && font.last == lastOf(o), "codes %02X to %02X instead of 20 to %02X", font.first, font.last, lastOf(o));
    MC_CHECK(font.glyphs.size() == codesUpTo(lastOf(o)).size(), "%zu glyphs instead of %zu", font.glyphs.size(), codesUpTo(lastOf(o)).size());
    return font;
}
// success with the right output
void compare(const Options &o, const Run &r)
{
    MC_CHECK(r.status == 0, "the conversion fails: %s", r.err.c_str());
    MC_CHECK(world.font == o.font, "font %s instead of %s", world.font.c_str(), o.font.c_str());
    MC_CHECK(world.size == (o.size < 0 ? 12 : o.size) * 64 && world.dpi == unsigned(o.dpi < 0 ? 141 : o.dpi), "size %ld and %u dpi", world.size, world.dpi);
    const Font f = load(o);
    const auto d = f.descriptor();
    const embedded::fonts::EmbeddedFont font(d);
    for (int code : codesUpTo(lastOf(o)))
    {
        uint32_t u = 0;
        if (!unicode(o.encoding ? o.encoding : "ASCII", code, u)) { font.getBitmap(char(code)); continue; }
        compareGlyph(font, code, world.glyph(u));
    }
    mc::step(f.glyphs.size());
}
const char* const kEncodings[] = { nullptr, "ISO-8859-1", "CP1251" };
Options options()
{
    Options o;
    o.encoding = mc::pick(kEncodings, "encoding");
    o.binary = mc::flag("format");
    return o;
}
// glyphs by the order of their code in the encoding
std::function<Glyph(uint32_t)> byOrder(const Options &o, std::function<Glyph(int)> f)
{
    std::map<uint32_t, int> order;
    int n = 0;
    for (int code : codesUpTo(lastOf(o))) { uint32_t u = 0; if (unicode(o.encoding ? o.encoding : "ASCII", code, u)) order.emplace(u, n); ++n; }
    return [order, f](uint32_t u) { auto it = order.find(u); return it == order.end() ? makeGlyph(3, 3, 0, u) : f(it->second); };
}
}

// files of the same names that are there already, shorter or longer than the new ones
MC_SCENARIO(earlierFiles, 16, 1)
{
    Options o = options();
    const int w = mc::choose(6, "width") * 3;
    world.height = 20 * 64;
    world.glyph = [w](uint32_t u) { Glyph g = makeGlyph(w, int(u % 7), 0, u); g.left = 1; g.top = 5; g.advance = w + 1; return g; };
    compare(o, convert(o));
    const auto f = files(o);
    bool there;
    const std::string clean[] = { slurp(f.header, there), slurp(f.bitmaps, there), slurp(f.glyphs, there) };
    static const size_t lengths[] = { 1, 16, 700, 1000, 100000 };
    o.earlier.assign(mc::pick(lengths, "length"), mc::flag("text") ? ' ' : '\x7F');
    compare(o, convert(o));
    if (o.binary) MC_CHECK(slurp(f.bitmaps, there) == clean[1] && slurp(f.glyphs, there) == clean[2], "files that were there before (%zu bytes) make a difference", o.earlier.size());
    else MC_CHECK(slurp(f.header, there) == clean[0], "a file that was there before (%zu bytes) makes a difference", o.earlier.size());
    mc::state(mc::Hash().u(w).u(o.earlier.size()).u(o.binary).str(o.encoding ? o.encoding : ""));
    removeFiles(o);
}

// every glyph size, with padded rows and noise beyond the width
MC_SCENARIO(sizes, 64, 3)
{
    const Options o = options();
    const int padding = mc::choose(3, "padding"), pattern = mc::choose(mc::thorough ? 8 : 3, "pattern");
    const int maxW = mc::thorough ? 72 : 34, maxH = mc::thorough ? 40 : 26;
    const int perFont = int(codesUpTo(lastOf(o)).size());
    const int fonts = ((maxW + 1) * (maxH + 1) + perFont - 1) / perFont;
    const int part = mc::choose(fonts, "sizes");
    world.height = (10 + part) * 64;
    world.glyph = byOrder(o, [=](int i)
    {
        const int n = (part * perFont + i) % ((maxW + 1) * (maxH + 1));
        Glyph g = makeGlyph(n % (maxW + 1), n / (maxW + 1), padding, uint64_t(n) * 8 + pattern);
        if (pattern == 1) std::fill(g.buffer.begin(), g.buffer.end(), 0xFF);
        if (pattern == 2) std::fill(g.buffer.begin(), g.buffer.end(), 0x01);
        g.left = n % 31 - 15; g.top = n % 29 - 9; g.advance = n % 61;
        return g;
    });
    compare(o, convert(o));
    mc::state(mc::Hash().u(part).u(padding).u(pattern).u(o.binary).u(lastOf(o)));
}
// every value of every metric, and those just beyond the format
MC_SCENARIO(metrics, 32, 3)
{
    const Options o = options();
    const int perFont = int(codesUpTo(lastOf(o)).size());
    const int part = mc::choose(4, "part"), metric = mc::choose(3, "metric");
    world.height = 64;
    world.glyph = byOrder(o, [=](int i)
    {
        const int n = part * perFont + i;
        Glyph g = makeGlyph(n % 9, n % 7, 1, n);
        g.left = metric == 0 ? n % 256 - 128 : 1; g.top = metric == 1 ? n % 256 - 126 : 2; g.advance = metric == 2 ? n % 256 : 3;
        return g;
    });
    compare(o, convert(o));
    mc::state(mc::Hash().u(part).u(metric).u(o.binary).u(lastOf(o)));
}
MC_SCENARIO(beyond, 64, 4)
{
    const Options o = options();
    static const int lefts[] = { -128, 127, -129, 128, -256, 256, 300, -1000, 32768 }, tops[] = { 129, -126, 130, -127, 257, -255, 40000, -300 }, advances[] = { 0, 255, 256, 257, 512, 1000, -1, -256, 65536, 32767 };
    static const int sizes[][2] = { { 255, 1 }, { 1, 255 }, { 256, 1 }, { 1, 256 }, { 257, 3 }, { 3, 257 }, { 512, 2 }, { 2, 1000 }, { 256, 0 }, { 0, 256 }, { 255, 255 }, { 65536, 1 }, { 1, 65537 } };
    const int positions = int(codesUpTo(lastOf(o)).size());
    static const double where[] = { 0, 0.5, 1 };
    const int at = int((positions - 1) * mc::pick(where, "position"));
    const int metric = mc::choose(4, "metric");
    Glyph odd = makeGlyph(5, 4, 0, 9);
    odd.left = 1; odd.top = 3; odd.advance = 7;
    bool fits = true;
    switch (metric)
    {
        case 0: odd.left = mc::pick(lefts, "left"); fits = odd.left >= -128 && odd.left <= 127; break;
        case 1: odd.top = mc::pick(tops, "top"); fits = odd.top >= -126 && odd.top <= 129; break;
        case 2: odd.advance = mc::pick(advances, "advance"); fits = odd.advance >= 0 && odd.advance <= 255; break;
        case 3: { auto &s = mc::pick(sizes, "size"); odd = makeGlyph(s[0], s[1], 0, 3); fits = s[0] <= 255 && s[1] <= 255; break; }
    }
    world.height = 17 * 64;
    world.glyph = byOrder(o, [=](int i) { if (i == at) return odd; Glyph g = makeGlyph(i % 5, 2, 0, i); g.advance = 4; return g; });
    const Run r = convert(o);
    if (fits) compare(o, r);
    else
    {
        MC_CHECK(r.status != 0, "a glyph that does not fit the format is written");
        MC_CHECK(!r.err.empty(), "a glyph that does not fit the format is refused without a message");
    }
    mc::state(mc::Hash().u(metric).u(at).u(fits));
}
// fonts whose data reaches the 16 bits of the offsets
MC_SCENARIO(large, 64, 3)
{
    const Options o = options();
    const int n = int(codesUpTo(lastOf(o)).size());
    // all glyphs but a few have 65536 bytes together, up to a few bytes
    const int delta = mc::choose(9, "bytes") - 4, tail = mc::choose(4, "glyphs behind");
    const int heads = n - tail;
    const long total = 65536 + delta;
    world.height = 40 * 64;
    std::vector<Glyph> table;
    long offset = 0;
    bool fits = true;
    for (int i = 0; i < n; ++i)
    {
        if (offset > 65535) fits = false;
        Glyph g;
        if (i < heads)
        {
            long want = total / heads + (i < total % heads ? 1 : 0);
            const int rows = want > 255 ? int((want + 254) / 255) * 8 : 8;
            (void)rows;
            // a glyph of exactly so many bytes: up to 255 rows of whole bytes, the rest in a last part
            if (want <= 255) g = makeGlyph(8, int(want), i & 1, i);
            else
            {
                int w = int((want + 254) / 255);
                while (want % w && w <= 31) ++w;
                if (want % w) { g = makeGlyph(8, int(want > 255 ? 255 : want), i & 1, i); }
                else g = makeGlyph(8 * w, int(want / w), i & 1, i);
            }
        }
        else g = makeGlyph(11, 3, 0, i);
        g.advance = i & 63;
        table.push_back(g);
        offset += (long(g.width) * g.height + 7) / 8;
    }
    world.glyph = byOrder(o, [=](int i) { return table[i]; });
    const Run r = convert(o);
    if (fits) compare(o, r);
    else MC_CHECK(r.status != 0 && !r.err.empty(), "a font that does not fit the format is written");
    mc::state(mc::Hash().u(delta).u(tail).u(fits).u(n));
}
// every single byte encoding
MC_SCENARIO(encodings, 64, 2)
{
    static const char* const names[] = { "ascii", "ASCII", "iso-8859-1", "ISO-8859-2", "ISO-8859-3", "ISO-8859-4", "ISO-8859-5", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", "ISO-8859-10", "ISO-8859-11",
        "ISO-8859-13", "ISO-8859-14", "ISO-8859-15", "ISO-8859-16", "cp437", "CP850", "CP852", "CP866", "CP1250", "Cp1251", "CP1252", "CP1253", "CP1254", "CP1255", "CP1256", "CP1257", "CP1258", "KOI8-R", "KOI8-U", "MACINTOSH", "TCVN", "TIS-620", "GEORGIAN-PS" };
    Options o;
    o.encoding = names[mc::choose(int(sizeof(names) / sizeof(*names)), "encoding")];
    o.binary = mc::flag("format");
    world.height = 20 * 64;
    world.glyph = [](uint32_t u) { Glyph g = makeGlyph(1 + u % 11, 1 + u % 13, u & 1, u); g.left = int(u % 7) - 3; g.top = int(u % 17); g.advance = int(u % 251); return g; };
    compare(o, convert(o));
    std::set<uint32_t> asked(world.codes.begin(), world.codes.end());
    for (int code : codesUpTo(lastOf(o))) { uint32_t u; if (unicode(o.encoding, code, u)) MC_CHECK(asked.count(u), "character U+%04X of the code %02X is not rendered", u, code); }
    mc::state(mc::Hash().str(o.encoding).u(o.binary));
}
// line heights, sizes and resolutions
MC_SCENARIO(heights, 16, 2)
{
    Options o = options();
    static const int sizes[] = { -1, 1, 7, 12, 100, 255, 1000 }, dpis[] = { -1, 1, 72, 96, 141, 1200 };
    world.glyph = [](uint32_t u) { return makeGlyph(int(u % 3), 2, 0, u); };
    const int block = mc::choose(8, "heights");
    for (int k = 0; k < 40; ++k)
    {
        const int h = block * 40 + k - 10;
        world.height = h * 64 + (k % 5 == 4 ? 37 : 0);
        o.size = sizes[k % 7]; o.dpi = dpis[(k + block) % 6];
        const Run r = convert(o);
        if (o.binary || (h >= 0 && h <= 255)) { if (o.binary || h < 255 || world.height == 255 * 64) compare(o, r); }
        else MC_CHECK(h == -1 || (r.status != 0 && !r.err.empty()), "a line height of %d is written", h);
        removeFiles(o);
    }
    mc::state(mc::Hash().u(block).u(o.binary));
}
// font file names; all headers of one execution are compiled, and the compiled tables compared
MC_SCENARIO(compiled, 8, 1)
{
    static const char* const names[] = { "Plain.ttf", "With Space.ttf", "with-dash.otf", "3of9.ttf", "a.b.c.ttf", "noextension", "dir.with/some.dir/Font_x.ttf", "caf\xC3\xA9.ttf", "class.ttf", "x'y\"z.ttf", "back\\slash.ttf", "_.ttf", "a+b=c.ttf", "(){}.ttf", "%d.ttf", "\xFF\xFE.ttf" };
    static const char* const encodings[] = { nullptr, "ISO-8859-1", "CP1251", "KOI8-R", "CP437", "ISO-8859-8", "CP1255", "MACINTOSH" };
    const int group = mc::choose(8, "group");
    const std::string tu = directory() + "/all.cpp", exe = directory() + "/all";
    std::ofstream f(tu);
    f << "#include <cstdint>\n#include <cstdio>\n#include \"MemoryView.h\"\n#include \"graphics/GFXFontsAdapter.h\"\nusing GFXfont = embedded::fonts::FontDescriptor;\nusing GFXglyph = embedded::fonts::GlyphDescriptor;\n"
         "static void dump(const GFXfont &f, const char* b, const char* g) {\n std::printf(\"%zu %zu %d %d %d\\n\", (size_t)f.bitmap.size(), (size_t)f.glyph.size(), f.first, f.last, f.verticalShift);\n"
         " for (size_t i = 0; i < f.bitmap.size(); ++i) std::printf(\"%d \", f.bitmap.begin()[i]);\n std::printf(\"\\n\");\n"
         " for (size_t i = 0; i < f.glyph.size(); ++i) { auto &x = f.glyph.begin()[i]; std::printf(\"%d %d %d %d %d %d \", x.bitmapOffset, x.size.width, x.size.height, x.shift, x.offset.width, x.offset.height); }\n std::printf(\"\\n\"); }\n";
    std::string expected, calls;
    int count = 0;
    for (int i = 0; i < 16; ++i)
    {
        Options o;
        o.font = names[i];
        o.encoding = encodings[(i + group) % 8];
        const int kind = (i + group) % 5;
        world.height = (11 + i) * 64;
        world.glyph = [kind](uint32_t u)
        {
            Glyph g = kind == 0 ? Glyph() : makeGlyph(int(u % 9) * (kind == 1 ? u == 'A' : 1), int(u % 6) + kind, 0, u);
            g.left = int(u % 256) - 128; g.top = 129 - int(u % 255); g.advance = int(u % 256);
            return g;
        };
        const Run r = convert(o);
        compare(o, r);
        bool there;
        const auto text = slurp(files(o).header, there);
        const auto copy = directory() + "/font" + std::to_string(count) + ".h";
        std::ofstream(copy, std::ios::binary) << text;
        // the name of the font, as the header declares it
        const auto at = text.find("GFXfont");
        MC_CHECK(at != std::string::npos, "no font in the header");
        size_t b = at + 7;
        while (isspace((unsigned char)text[b])) ++b;
        size_t e = b;
        while (isalnum((unsigned char)text[e]) || text[e] == '_') ++e;
        const auto name = text.substr(b, e - b);
        f << "namespace font" << count << " {\n#include \"font" << count << ".h\"\n}\n";
        calls += " dump(font" + std::to_string(count) + "::" + name + ", 0, 0);\n";
        const Font p = parseHeader(text);
        char buf[256];
        snprintf(buf, sizeof(buf), "%zu %zu %d %d %d\n", p.bitmaps.size(), p.glyphs.size(), p.first, p.last, p.height);
        expected += buf;
        for (auto x : p.bitmaps) expected += std::to_string(x) + " ";
        expected += "\n";
        for (auto &x : p.glyphs) { snprintf(buf, sizeof(buf), "%d %d %d %d %d %d ", x.bitmapOffset, x.size.width, x.size.height, x.shift, x.offset.width, x.offset.height); expected += buf; }
        expected += "\n";
        removeFiles(o);
        ++count;
    }
    f << "int main() {\n" << calls << " return 0; }\n";
    f.close();
    const std::string command = "g++ -std=c++17 -O0 -w -I'" + std::string(CONV_REPO) + "' '" + tu + "' -o '" + exe + "' > '" + directory() + "/errors' 2>&1 && '" + exe + "' > '" + directory() + "/dump'";
    const int status = system(command.c_str());
    bool there;
    const auto errors = slurp(directory() + "/errors", there);
    MC_CHECK(status == 0, "the headers are not valid C++: %.600s", errors.c_str());
    const auto dump = slurp(directory() + "/dump", there);
    MC_CHECK(dump == expected, "the compiled headers contain something else than the parsed ones");
    unlink(tu.c_str()); unlink(exe.c_str());
    mc::state(mc::Hash().u(group));
}
