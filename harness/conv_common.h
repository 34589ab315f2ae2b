// The font converter run in-process against a stand-in rasteriser, and its output loaded back.
#pragma once
#include "mc.h"
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_GLYPH_H
#include FT_MODULE_H
#include "graphics/EmbeddedFont.h"
#include "graphics/GFXFontsAdapter.h"
#include <dlfcn.h>
#include <getopt.h>
#include <iconv.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <sstream>

int converter_main(int argc, char* argv[]);

namespace conv
{
struct Glyph
{
    int width = 0, height = 0, pitch = 0, left = 0, top = 0, advance = 0;
    std::vector<uint8_t> buffer;        // height * pitch bytes
    bool pixel(int x, int y) const { return buffer[size_t(y) * pitch + x / 8] >> (7 - x % 8) & 1; }
};
// a glyph of a size with a pattern; the bits beyond the width are noise
inline Glyph makeGlyph(int w, int h, int padding, uint64_t seed)
{
    Glyph g;
    g.width = w; g.height = h;
    g.pitch = (w + 7) / 8 + padding;
    g.buffer.resize(size_t(h) * g.pitch);
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 12345;
    for (auto &b : g.buffer) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; b = uint8_t(s >> 24); }
    return g;
}

// ---- what the harness decides ------------------------------------------------------------------
struct World
{
    std::function<Glyph(uint32_t code)> glyph;
    FT_Pos height = 20 * 64;
    std::function<int(const char* call)> fault;         // 0: works; else the error
    std::function<int(const char* call, size_t n)> fileFault;   // -1: fails, -2: interrupted, else so many bytes at most are written
    bool inside = false;                                 // the converter is running
    bool anyFault = false;
    bool errorTexts = true;
    std::string misuse;
    // what the converter asked for
    std::string font;
    long size = -1; unsigned dpi = 0;
    std::vector<uint32_t> codes;
    int libraries = 0, faces = 0, glyphs = 0, encodings = 0, librariesEver = 0;
    std::set<const void*> live;
    std::set<iconv_t> descriptors;
    void wrong(const std::string &what) { if (misuse.empty()) misuse = what; }
    int outcome(const char* call)
    {
        const int e = fault ? fault(call) : 0;
        if (e) anyFault = true;
        return e;
    }
};
inline World world;
}

// ---- interposed library calls ------------------------------------------------------------------
#ifndef CONV_REAL_RASTERISER
namespace conv
{
struct Library { int dummy; };
struct Face
{
    FT_FaceRec rec {};
    FT_GlyphSlotRec slot {};
    FT_SizeRec size {};
    uint32_t code = 0;
    bool loaded = false, rendered = false, scaled = false;
    Glyph current;
    std::vector<uint8_t> exact;
};
inline Face* faceOf(FT_Face f) { return reinterpret_cast<Face*>(reinterpret_cast<char*>(f) - offsetof(Face, rec)); }
inline Face* faceOf(FT_GlyphSlot s) { return reinterpret_cast<Face*>(reinterpret_cast<char*>(s) - offsetof(Face, slot)); }
}
extern "C"
{
FT_Error FT_Init_FreeType(FT_Library* out)
{
    if (int e = conv::world.outcome("FT_Init_FreeType")) return e;
    auto l = new conv::Library;
    conv::world.live.insert(l); ++conv::world.libraries; ++conv::world.librariesEver;
    *out = reinterpret_cast<FT_Library>(l);
    return 0;
}
FT_Error FT_Done_FreeType(FT_Library l)
{
    if (!conv::world.live.erase(l)) { conv::world.wrong("library released twice or never obtained"); return FT_Err_Invalid_Library_Handle; }
    if (conv::world.faces || conv::world.glyphs) conv::world.wrong("library released before its faces and glyphs");
    --conv::world.libraries;
    delete reinterpret_cast<conv::Library*>(l);
    return 0;
}
FT_Error FT_Property_Set(FT_Library l, const FT_String*, const FT_String*, const void*)
{
    if (!conv::world.live.count(l)) conv::world.wrong("property of a library that is not open");
    return 0;
}
FT_Error FT_New_Face(FT_Library l, const char* path, FT_Long index, FT_Face* out)
{
    if (index > 0) return FT_Err_Invalid_Argument;      // the font has one face
    if (!conv::world.live.count(l)) { conv::world.wrong("face of a library that is not open"); return FT_Err_Invalid_Library_Handle; }
    if (int e = conv::world.outcome("FT_New_Face")) return e;
    conv::world.font = path;
    auto f = new conv::Face;
    f->rec.glyph = &f->slot;
    f->rec.size = &f->size;
    f->slot.face = &f->rec;
    f->slot.library = l;
    f->rec.num_glyphs = 1000;
    conv::world.live.insert(f); ++conv::world.faces;
    *out = &f->rec;
    return 0;
}
FT_Error FT_Done_Face(FT_Face face)
{
    auto f = conv::faceOf(face);
    if (!conv::world.live.erase(f)) { conv::world.wrong("face released twice or never obtained"); return FT_Err_Invalid_Face_Handle; }
    if (!conv::world.libraries) conv::world.wrong("face released after the library");
    --conv::world.faces;
    delete f;
    return 0;
}
FT_Error FT_Set_Char_Size(FT_Face face, FT_F26Dot6 w, FT_F26Dot6 h, FT_UInt hr, FT_UInt vr)
{
    auto f = conv::faceOf(face);
    if (!conv::world.live.count(f)) { conv::world.wrong("face that is not open"); return FT_Err_Invalid_Face_Handle; }
    if (int e = conv::world.outcome("FT_Set_Char_Size")) return e;
    if (!w) w = h; else if (!h) h = w;
    if (!hr) hr = vr; else if (!vr) vr = hr;
    if (!hr) hr = vr = 72;
    conv::world.size = w == h ? w : -2; conv::world.dpi = hr == vr ? hr : 0;
    f->size.metrics.height = conv::world.height;
    f->scaled = true;
    return 0;
}
FT_Error FT_Render_Glyph(FT_GlyphSlot slot, FT_Render_Mode mode)
{
    auto f = conv::faceOf(slot);
    if (!conv::world.live.count(f)) { conv::world.wrong("slot of a face that is not open"); return FT_Err_Invalid_Slot_Handle; }
    if (!f->loaded) { conv::world.wrong("rendering without a glyph"); return FT_Err_Invalid_Glyph_Format; }
    if (f->rendered) return 0;
    if (int e = conv::world.outcome("FT_Render_Glyph")) return e;
    f->rendered = true;
    slot->format = FT_GLYPH_FORMAT_BITMAP;
    auto &g = f->current;
    auto &b = slot->bitmap;
    b.rows = unsigned(g.height); b.width = unsigned(g.width); b.pitch = g.pitch;
    if (mode == FT_RENDER_MODE_MONO) { b.pixel_mode = FT_PIXEL_MODE_MONO; f->exact = g.buffer; }
    else
    {
        b.pixel_mode = FT_PIXEL_MODE_GRAY; b.num_grays = 256; b.pitch = g.width;
        f->exact.assign(size_t(g.width) * g.height, 0);
        for (int y = 0; y < g.height; ++y) for (int x = 0; x < g.width; ++x) f->exact[size_t(y) * g.width + x] = g.pixel(x, y) ? 200 : 90;
    }
    f->exact.shrink_to_fit();
    b.buffer = f->exact.data();
    slot->bitmap_left = g.left; slot->bitmap_top = g.top;
    return 0;
}
FT_UInt FT_Get_Char_Index(FT_Face, FT_ULong code) { return FT_UInt(code); }
FT_Error FT_Load_Char(FT_Face face, FT_ULong code, FT_Int32 flags)
{
    auto f = conv::faceOf(face);
    if (!conv::world.live.count(f)) { conv::world.wrong("face that is not open"); return FT_Err_Invalid_Face_Handle; }
    if (!f->scaled) { conv::world.wrong("glyph of a face that is not scaled"); return FT_Err_Invalid_Size_Handle; }
    f->loaded = f->rendered = false;
    if (int e = conv::world.outcome("FT_Load_Char")) return e;
    f->current = conv::world.glyph(uint32_t(code));
    conv::world.codes.push_back(uint32_t(code));
    f->loaded = true;
    f->slot.format = FT_GLYPH_FORMAT_OUTLINE;
    // with the hinting of another target the glyphs have other widths
    const bool mono = FT_LOAD_TARGET_MODE(flags) == FT_RENDER_MODE_MONO;
    f->slot.advance.x = f->current.advance * 64 + (mono ? 0 : 64);
    f->slot.advance.y = 0;
    if (flags & FT_LOAD_RENDER) return FT_Render_Glyph(&f->slot, FT_RENDER_MODE_MONO);
    return 0;
}
FT_Error FT_Load_Glyph(FT_Face face, FT_UInt index, FT_Int32 flags) { return FT_Load_Char(face, index, flags); }
FT_Error FT_Get_Glyph(FT_GlyphSlot slot, FT_Glyph* out)
{
    auto f = conv::faceOf(slot);
    if (!conv::world.live.count(f)) { conv::world.wrong("slot of a face that is not open"); return FT_Err_Invalid_Slot_Handle; }
    const int e = conv::world.outcome("FT_Get_Glyph");
    if (e && e != 1000) return e;
    auto g = new FT_BitmapGlyphRec {};
    g->root.library = slot->library;
    g->root.format = e == 1000 || !f->rendered ? FT_GLYPH_FORMAT_OUTLINE : FT_GLYPH_FORMAT_BITMAP;
    g->root.advance.x = slot->advance.x * 1024;
    g->left = slot->bitmap_left; g->top = slot->bitmap_top;
    g->bitmap = slot->bitmap;
    g->bitmap.buffer = new unsigned char[f->exact.size()];
    std::copy(f->exact.begin(), f->exact.end(), g->bitmap.buffer);
    conv::world.live.insert(g); ++conv::world.glyphs;
    *out = &g->root;
    return 0;
}
void FT_Done_Glyph(FT_Glyph glyph)
{
    auto g = reinterpret_cast<FT_BitmapGlyphRec*>(glyph);
    if (!conv::world.live.erase(g)) { conv::world.wrong("glyph released twice or never obtained"); return; }
    if (!conv::world.libraries) conv::world.wrong("glyph released after the library");
    --conv::world.glyphs;
    delete[] g->bitmap.buffer;
    delete g;
}
const char* FT_Error_String(FT_Error) { return conv::world.errorTexts ? "rasteriser error" : nullptr; }
}
#endif

#ifdef CONV_FILE_FAULTS
// the calls libstdc++ writes and closes files with, and the encoding handles
extern "C"
{
ssize_t write(int fd, const void* data, size_t n)
{
    static const auto real = reinterpret_cast<ssize_t (*)(int, const void*, size_t)>(dlsym(RTLD_NEXT, "write"));
    auto &w = conv::world;
    if (!w.inside || fd <= 2 || !w.fileFault) return real(fd, data, n);
    const int f = w.fileFault("write", n);
    if (f == -1) { w.anyFault = true; errno = ENOSPC; return -1; }
    if (f == -2) { errno = EINTR; return -1; }
    return real(fd, data, std::min(n, size_t(f)));
}
ssize_t writev(int fd, const iovec* v, int count)
{
    static const auto real = reinterpret_cast<ssize_t (*)(int, const iovec*, int)>(dlsym(RTLD_NEXT, "writev"));
    auto &w = conv::world;
    if (!w.inside || fd <= 2 || !w.fileFault) return real(fd, v, count);
    size_t n = 0;
    for (int i = 0; i < count; ++i) n += v[i].iov_len;
    const int f = w.fileFault("writev", n);
    if (f == -1) { w.anyFault = true; errno = ENOSPC; return -1; }
    if (f == -2) { errno = EINTR; return -1; }
    if (size_t(f) >= n) return real(fd, v, count);
    iovec one = v[0];                       // a part of the first piece only
    for (int i = 0; i + 1 < count && one.iov_len == 0; ++i) one = v[i + 1];
    one.iov_len = std::min(one.iov_len, size_t(f));
    return real(fd, &one, 1);
}
int fclose(FILE* f)
{
    static const auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
    auto &w = conv::world;
    const int r = real(f);
    if (!w.inside || !w.fileFault) return r;
    const int e = w.fileFault("fclose", 0);
    if (e == -1) { w.anyFault = true; errno = EIO; return EOF; }
    return r;
}
iconv_t iconv_open(const char* to, const char* from)
{
    static const auto real = reinterpret_cast<iconv_t (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "iconv_open"));
    auto &w = conv::world;
    if (!w.inside) return real(to, from);
    if (int e = w.outcome("iconv_open")) { errno = e == 1 ? EINVAL : ENOMEM; return (iconv_t)-1; }
    const iconv_t d = real(to, from);
    if (d == (iconv_t)-1) w.anyFault = true;
    else w.descriptors.insert(d);
    return d;
}
int iconv_close(iconv_t d)
{
    static const auto real = reinterpret_cast<int (*)(iconv_t)>(dlsym(RTLD_NEXT, "iconv_close"));
    auto &w = conv::world;
    if (!w.inside) return real(d);
    if (!w.descriptors.erase(d)) { w.wrong("encoding handle released twice or never obtained"); return -1; }
    return real(d);
}
}
#endif

namespace conv
{
struct Run { int status; std::string out, err; };
inline Run run(std::vector<std::string> args)
{
    std::vector<std::unique_ptr<char[]>> store;
    std::vector<char*> argv;
    for (auto &a : args)
    {
        store.emplace_back(new char[a.size() + 1]);
        memcpy(store.back().get(), a.c_str(), a.size() + 1);
        argv.push_back(store.back().get());
    }
    argv.push_back(nullptr);
    std::ostringstream out, err;
    auto o = std::cout.rdbuf(out.rdbuf());
    auto e = std::cerr.rdbuf(err.rdbuf());
    optind = 0;
    opterr = 0;
    Run r { -1, {}, {} };
    world.inside = true;
    std::string thrown;
    try { r.status = converter_main(int(args.size()), argv.data()); }
    catch (const mc::Prune &) { world.inside = false; std::cout.rdbuf(o); std::cerr.rdbuf(e); throw; }
    catch (const std::exception &x) { thrown = x.what(); if (thrown.empty()) thrown = "exception"; }
    world.inside = false;
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    r.out = out.str(); r.err = err.str();
    mc::step();
    MC_CHECK(thrown.empty(), "the converter ends with an exception: %s", thrown.c_str());
    return r;
}
// a directory of this process, inside the one the check creates and removes
inline const std::string &directory()
{
    static std::string d;
    static pid_t owner = 0;
    if (owner != getpid())
    {
        owner = getpid();
        char cwd[4096];
        if (!getcwd(cwd, sizeof(cwd))) mc::fail("harness error: directory");
        d = std::string(cwd) + "/conv-" + std::to_string(owner);
        mkdir(d.c_str(), 0700);
    }
    return d;
}
inline std::string slurp(const std::string &path, bool &there)
{
    std::ifstream f(path, std::ios::binary);
    there = bool(f);
    return there ? std::string(std::istreambuf_iterator<char>(f), {}) : std::string();
}
inline bool readable(const std::string &path) { struct stat s; return stat(path.c_str(), &s) == 0 && S_ISREG(s.st_mode); }

// ---- the output, loaded back --------------------------------------------------------------------
struct Font
{
    std::vector<uint8_t> bitmaps;
    std::vector<embedded::fonts::GlyphDescriptor> glyphs;
    int first = 0, last = 0, height = 0;
    embedded::fonts::FontDescriptor descriptor() const
    {
        return { embedded::ConstBytesView(bitmaps.data(), bitmaps.size()), embedded::MemoryView<const embedded::fonts::GlyphDescriptor>(glyphs.data(), glyphs.size()),
                 uint8_t(first), uint8_t(last), uint8_t(height) };
    }
};
// a header, token by token; fails the check if it is not the declarations of one font
inline Font parseHeader(const std::string &text)
{
    std::vector<std::string> t;
    for (size_t i = 0; i < text.size();)
    {
        const unsigned char c = text[i];
        if (isspace(c)) { ++i; continue; }
        if (!text.compare(i, 2, "//")) { while (i < text.size() && text[i] != '\n') { ++i; if (i < text.size() && text[i] == '\n' && text[i - 1] == '\\') ++i; } continue; }
        if (!text.compare(i, 2, "/*")) { const auto e = text.find("*/", i + 2); MC_CHECK(e != std::string::npos, "header: comment does not end"); i = e + 2; continue; }
        if (c == '#') { while (i < text.size() && text[i] != '\n') ++i; continue; }
        if (isalnum(c) || c == '_') { size_t j = i; while (j < text.size() && (isalnum((unsigned char)text[j]) || text[j] == '_')) ++j; t.push_back(text.substr(i, j - i)); i = j; continue; }
        MC_CHECK(strchr("{}[]=,;-", c), "header: unexpected character %02X", c);
        t.push_back(std::string(1, char(c)));
        ++i;
    }
    size_t p = 0;
    auto peek = [&]() -> const std::string & { static const std::string end = "<end>"; return p < t.size() ? t[p] : end; };
    auto expect = [&](const char* s) { MC_CHECK(peek() == s, "header: %s instead of %s", peek().c_str(), s); ++p; };
    auto name = [&] { MC_CHECK(p < t.size() && (isalpha((unsigned char)t[p][0]) || t[p][0] == '_'), "header: %s is not a name", peek().c_str()); return t[p++]; };
    auto number = [&](long lo, long hi)
    {
        bool minus = false;
        if (peek() == "-") { minus = true; ++p; }
        char* end = nullptr;
        const std::string s = peek();
        const long v = strtol(s.c_str(), &end, 0) * (minus ? -1 : 1);
        MC_CHECK(!s.empty() && isdigit((unsigned char)s[0]) && !*end, "header: %s is not a number", s.c_str());
        MC_CHECK(v >= lo && v <= hi, "header: %ld does not fit", v);
        ++p;
        return v;
    };
    auto typed = [&](const char* type) { if (peek() == "static") ++p; if (peek() == "inline") ++p; if (peek() == "constexpr") ++p; else expect("const"); expect(type); return name(); };
    Font f;
    const std::string bitmaps = typed("uint8_t");
    if (peek() == "PROGMEM") ++p;
    expect("["); expect("]"); expect("="); expect("{");
    while (peek() != "}") { f.bitmaps.push_back(uint8_t(number(0, 255))); if (peek() == ",") ++p; else break; }
    expect("}"); expect(";");
    MC_CHECK(!f.bitmaps.empty(), "header: an array without elements");
    const std::string glyphs = typed("GFXglyph");
    expect("["); expect("]"); expect("="); expect("{");
    while (peek() != "}")
    {
        embedded::fonts::GlyphDescriptor g {};
        expect("{");
        g.bitmapOffset = uint16_t(number(0, 65535)); expect(",");
        expect("{"); g.size.width = uint8_t(number(0, 255)); expect(","); g.size.height = uint8_t(number(0, 255)); expect("}"); expect(",");
        g.shift = uint8_t(number(0, 255)); expect(",");
        expect("{"); g.offset.width = int8_t(number(-128, 127)); expect(","); g.offset.height = int8_t(number(-128, 127)); expect("}");
        expect("}");
        f.glyphs.push_back(g);
        if (peek() == ",") ++p; else break;
    }
    expect("}"); expect(";");
    const std::string font = typed("GFXfont");
    expect("="); expect("{"); expect(bitmaps.c_str()); expect(","); expect(glyphs.c_str()); expect(",");
    f.first = int(number(0, 255)); expect(","); f.last = int(number(0, 255)); expect(","); f.height = int(number(0, 255));
    expect("}"); expect(";");
    MC_CHECK(p == t.size(), "header: %s follows the font", peek().c_str());
    f.glyphs.shrink_to_fit();
    f.bitmaps.shrink_to_fit();
    return f;
}
inline Font parseBinary(const std::string &bitmaps, const std::string &glyphs, int last)
{
    Font f;
    f.bitmaps.assign(bitmaps.begin(), bitmaps.end());
    MC_CHECK(glyphs.size() % sizeof(embedded::fonts::GlyphDescriptor) == 0, "a file of glyphs of %zu bytes", glyphs.size());
    f.glyphs.resize(glyphs.size() / sizeof(embedded::fonts::GlyphDescriptor));
    memcpy(f.glyphs.data(), glyphs.data(), glyphs.size());
    f.first = ' '; f.last = last;
    return f;
}
inline std::vector<int> codesUpTo(int last)
{
    std::vector<int> r;
    for (int i = ' '; i <= last; i = i == '~' ? 0xA0 : i + 1) r.push_back(i);
    return r;
}
// the character a code stands for; false: none
inline bool unicode(const char* encoding, int code, uint32_t &out)
{
    static std::map<std::string, std::pair<bool, uint32_t>> known;
    const std::string key = std::string(encoding) + char(code);
    auto it = known.find(key);
    if (it == known.end())
    {
        const iconv_t d = iconv_open("UCS-4LE", encoding);
        if (d == (iconv_t)-1) mc::fail("harness error: no encoding %s", encoding);
        char in = char(code), *ip = &in;
        unsigned char o[16] = {};
        char* op = reinterpret_cast<char*>(o);
        size_t il = 1, ol = sizeof(o);
        bool ok = iconv(d, &ip, &il, &op, &ol) != (size_t)-1;
        if (ok) { iconv(d, nullptr, nullptr, &op, &ol); ok = sizeof(o) - ol == 4; }
        iconv_close(d);
        it = known.emplace(key, std::make_pair(ok, uint32_t(o[0] | o[1] << 8 | o[2] << 16 | uint32_t(o[3]) << 24))).first;
    }
    out = it->second.second;
    return it->second.first;
}
// compares one glyph as the library finds it
inline void compareGlyph(const embedded::fonts::EmbeddedFont &font, int code, const Glyph &g)
{
    const auto c = font.getBitmap(char(code));
    MC_CHECK(c.effectiveSize.width == g.width && c.effectiveSize.height == g.height, "code %02X: %dx%d instead of %dx%d", code, c.effectiveSize.width, c.effectiveSize.height, g.width, g.height);
    MC_CHECK(c.offset.width == g.left && c.offset.height == 1 - g.top, "code %02X: offset %d,%d instead of %d,%d", code, c.offset.width, c.offset.height, g.left, 1 - g.top);
    MC_CHECK(c.width == g.advance, "code %02X: advance %d instead of %d", code, c.width, g.advance);
    const size_t bits = size_t(g.width) * g.height;
    MC_CHECK(c.bitmap.size() >= (bits + 7) / 8, "code %02X: %zu bytes for %zu pixels", code, size_t(c.bitmap.size()), bits);
    size_t k = 0;
    for (int y = 0; y < g.height; ++y)
        for (int x = 0; x < g.width; ++x, ++k)
            MC_CHECK((c.bitmap.begin()[k / 8] >> (7 - k % 8) & 1) == int(g.pixel(x, y)), "code %02X: pixel %d,%d is %d", code, x, y, int(!g.pixel(x, y)));
}
}
