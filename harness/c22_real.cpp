// C22: real fonts through the real rasteriser: the output against what the rasteriser says about each character.
#define CONV_REAL_RASTERISER
#include "conv_common.h"

namespace
{
using namespace conv;
const char* const kFonts[] = { "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSans-Bold.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSerif.ttf" };
std::vector<std::string> present()
{
    std::vector<std::string> r;
    for (auto f : kFonts) if (readable(f)) r.push_back(f);
    return r;
}
struct Rasteriser
{
    FT_Library library = nullptr;
    FT_Face face = nullptr;
    Rasteriser(const std::string &path, int size, int dpi)
    {
        unsigned version = 35;
        if (FT_Init_FreeType(&library)) mc::fail("harness error: rasteriser");
        FT_Property_Set(library, "truetype", "interpreter-version", &version);
        if (FT_New_Face(library, path.c_str(), 0, &face) || FT_Set_Char_Size(face, size * 64, 0, unsigned(dpi), 0)) mc::fail("harness error: %s", path.c_str());
    }
    ~Rasteriser() { FT_Done_Face(face); FT_Done_FreeType(library); }
    Glyph glyph(uint32_t u)
    {
        if (FT_Load_Char(face, u, FT_LOAD_TARGET_MONO) || FT_Render_Glyph(face->glyph, FT_RENDER_MODE_MONO)) mc::fail("harness error: glyph %u", u);
        const auto s = face->glyph;
        Glyph g;
        g.width = int(s->bitmap.width); g.height = int(s->bitmap.rows); g.pitch = s->bitmap.pitch; g.left = s->bitmap_left; g.top = s->bitmap_top; g.advance = int(s->advance.x >> 6);
        g.buffer.assign(s->bitmap.buffer, s->bitmap.buffer + size_t(g.height) * g.pitch);
        return g;
    }
};
}
MC_SCENARIO(realFonts, 96, 3)
{
    static const auto fonts = present();
    if (fonts.empty()) return;
    static const char* const encodings[] = { "ASCII", "ISO-8859-1", "CP1251", "ISO-8859-7" };
    const auto &path = fonts[mc::choose(int(fonts.size()), "font")];
    const char* encoding = mc::pick(encodings, "encoding");
    const bool binary = mc::flag("format");
    static const int dpis[] = { 72, 141 };
    const int dpi = mc::pick(dpis, "dpi");
    const int size = 1 + mc::choose(mc::thorough ? 60 : 24, "size");
    const auto name = directory() + path.substr(path.rfind('/'), path.rfind('.') - path.rfind('/')) + std::to_string(size) + "pt" + (strcmp(encoding, "ASCII") ? "8b" : "7b");
    for (auto s : { ".h", "Bitmaps.bin", "Glyphs.bin" }) unlink((name + s).c_str());
    world = World {};
    std::vector<std::string> args = { "/nowhere/conv", "-f", path, "-o", directory(), "-e", encoding, "-s", std::to_string(size), "-d", std::to_string(dpi) };
    if (binary) args.push_back("-b");
    const Run r = run(args);
    Rasteriser ft(path, size, dpi);
    const int last = strcmp(encoding, "ASCII") ? 0xFF : '~';
    std::vector<std::pair<int, Glyph>> glyphs;
    bool fits = true;
    size_t offset = 0;
    for (int code : codesUpTo(last))
    {
        uint32_t u = 0;
        const bool known = unicode(encoding, code, u);
        const Glyph g = ft.glyph(known ? u : 0);
        fits = fits && g.width <= 255 && g.height <= 255 && g.advance >= 0 && g.advance <= 255 && g.left >= -128 && g.left <= 127 && 1 - g.top >= -128 && 1 - g.top <= 127 && offset <= 65535;
        offset += (size_t(g.width) * g.height + 7) / 8;
        if (known) glyphs.push_back({ code, g });
    }
    const long height = ft.face->size->metrics.height / 64;
    if (!binary && (height < 0 || height > 255)) fits = false;
    mc::note("%s %s %d pt %d dpi -> %d %s", path.c_str(), encoding, size, dpi, r.status, r.err.c_str());
    MC_CHECK((r.status == 0) == fits, "status %d although the font %s: %s", r.status, fits ? "fits the format" : "does not fit the format", r.err.c_str());
    mc::state(mc::Hash().str(path).str(encoding).u(binary).u(size).u(dpi));
    if (!fits) return;
    bool there = false, there2 = true;
    Font f;
    if (binary) { const auto b = slurp(name + "Bitmaps.bin", there), g = slurp(name + "Glyphs.bin", there2); f = parseBinary(b, g, last); }
    else { f = parseHeader(slurp(name + ".h", there)); MC_CHECK(f.height == height, "line height %d instead of %ld", f.height, height); }
    MC_CHECK(there && there2, "no output");
    MC_CHECK(f.first == ' ' && f.last == last && f.glyphs.size() == codesUpTo(last).size(), "codes %02X to %02X, %zu glyphs", f.first, f.last, f.glyphs.size());
    const auto d = f.descriptor();
    const embedded::fonts::EmbeddedFont font(d);
    for (auto &x : glyphs) compareGlyph(font, x.first, x.second);
    mc::step(glyphs.size());
    for (auto s : { ".h", "Bitmaps.bin", "Glyphs.bin" }) unlink((name + s).c_str());
}
