// C23: every failure of every single call the converter makes: rasteriser, encoding tables, output files.
#include "conv_common.h"

namespace
{
using namespace conv;
const char* const kEncodings[] = { nullptr, "CP1251" };
struct Case { const char* encoding; bool binary; int size; };       // size: 0 small glyphs, 1 large ones
std::vector<std::string> names(const Case &c)
{
    const std::string n = std::string("Test12pt") + (c.encoding ? "8b" : "7b");
    if (c.binary) return { n + "Bitmaps.bin", n + "Glyphs.bin" };
    return { n + ".h" };
}
std::vector<std::string> everyName()
{
    std::vector<std::string> r;
    for (auto e : kEncodings) for (int b = 0; b < 2; ++b) for (auto &n : names({ e, b != 0, 0 })) r.push_back(n);
    return r;
}
void clean()
{
    for (auto &n : everyName()) { const auto p = directory() + "/" + n; if (unlink(p.c_str()) != 0) rmdir(p.c_str()); }
}
void prepare(const Case &c)
{
    world = World {};
    const int size = c.size;
    world.glyph = [size](uint32_t u)
    {
        Glyph g = size ? makeGlyph(37, 30 + int(u % 4), 0, u) : makeGlyph(int(u % 4), int(u % 3), 0, u);
        g.left = 1; g.top = 2; g.advance = int(u % 40);
        return g;
    };
}
Run start(const Case &c)
{
    std::vector<std::string> args = { directory() + "/gfx-font-converter", "-f", "Test.ttf", "-o", directory() };
    if (c.encoding) { args.push_back("-e"); args.push_back(c.encoding); }
    if (c.binary) args.push_back("-b");
    return run(args);
}
// the files of an undisturbed run
const std::vector<std::string> &expected(const Case &c)
{
    static std::map<std::string, std::vector<std::string>> known;
    const std::string key = std::string(c.encoding ? c.encoding : "") + char('0' + c.binary) + char('0' + c.size);
    auto it = known.find(key);
    if (it != known.end()) return it->second;
    clean();
    prepare(c);
    const Run r = start(c);
    MC_CHECK(r.status == 0, "an undisturbed conversion fails: %s", r.err.c_str());
    std::vector<std::string> v;
    for (auto &n : names(c)) { bool there; v.push_back(slurp(directory() + "/" + n, there)); MC_CHECK(there && !v.back().empty(), "an undisturbed conversion writes no %s", n.c_str()); }
    clean();
    return known.emplace(key, v).first->second;
}
void released(const char* when)
{
    MC_CHECK(world.misuse.empty(), "%s (%s)", world.misuse.c_str(), when);
    MC_CHECK(world.glyphs == 0, "%d glyphs are not released (%s)", world.glyphs, when);
    MC_CHECK(world.faces == 0, "%d faces are not released (%s)", world.faces, when);
    MC_CHECK(world.libraries == 0, "%d libraries are not released (%s)", world.libraries, when);
    MC_CHECK(world.live.empty(), "handles are not released (%s)", when);
    MC_CHECK(world.descriptors.empty(), "%zu encoding handles are not released (%s)", world.descriptors.size(), when);
}
void failed(const Run &r, const char* what)
{
    MC_CHECK(r.status != 0, "success although %s", what);
    MC_CHECK(!r.err.empty(), "no message although %s", what);
    released(what);
}
void succeeded(const Case &c, const Run &r)
{
    MC_CHECK(r.status == 0, "failure although nothing failed: %s", r.err.c_str());
    const auto &e = expected(c);
    size_t i = 0;
    for (auto &n : names(c))
    {
        bool there;
        const auto got = slurp(directory() + "/" + n, there);
        MC_CHECK(there && got == e[i], "success, but %s has %zu bytes instead of %zu or other ones", n.c_str(), got.size(), e[i].size());
        ++i;
    }
    released("success");
}
Case anyCase(int size)
{
    Case c {};
    c.encoding = mc::pick(kEncodings, "encoding");
    c.binary = mc::flag("format");
    c.size = size;
    return c;
}
}

// one failing call of the rasteriser or of the encoding tables
MC_SCENARIO(calls, 64, 4)
{
    const Case c = anyCase(0);
    expected(c);
    const int blocks = 16, block = mc::choose(blocks, "block of calls");
    const bool texts = mc::flag("error texts");
    prepare(c);
    world.errorTexts = texts;
    mc::budget(mc::thorough ? 2 : 1);
    int n = 0;
    std::string what;
    world.fault = [&](const char* call) -> int
    {
        if (n++ % blocks != block) return 0;
        static const int errors[] = { 0, 1, 0x40, 0xFF }, encodingErrors[] = { 0, 1, 2 }, glyphErrors[] = { 0, 6, 1000 };
        const int e = !strcmp(call, "iconv_open") ? encodingErrors[mc::deviate(3, call)] : !strcmp(call, "FT_Get_Glyph") ? glyphErrors[mc::deviate(3, call)] : errors[mc::deviate(4, call)];
        if (e) { what = std::string(call) + " failed (call " + std::to_string(n) + ")"; mc::note("%s with %d", what.c_str(), e); }
        return e;
    };
    const Run r = start(c);
    world.fault = nullptr;
    if (world.anyFault) failed(r, what.c_str());
    else succeeded(c, r);
    mc::step(uint64_t(n));
    mc::state(mc::Hash().u(c.binary).u(c.encoding != nullptr).str(what));
    clean();
}
// every error code of every call of the rasteriser, at the first, some middle and the last such call
MC_SCENARIO(everyError, 64, 3)
{
    const Case c = anyCase(0);
    expected(c);
    static const char* const calls[] = { "FT_Init_FreeType", "FT_New_Face", "FT_Set_Char_Size", "FT_Load_Char", "FT_Render_Glyph", "FT_Get_Glyph" };
    const char* const call = mc::pick(calls, "call");
    const int code = 1 + mc::choose(255, "error");
    const bool once = strstr(call, "FT_Load") || strstr(call, "Glyph");
    const int last = c.encoding ? 190 : 94;                 // glyphs: 95 or 191
    const int at = once ? mc::pick({ 0, 1, last / 2, last - 1, last }, "position") : 0;
    prepare(c);
    world.errorTexts = code % 2 == 0;
    int n = 0;
    world.fault = [&](const char* name) -> int { return strcmp(name, call) == 0 && n++ == at ? code : 0; };
    const Run r = start(c);
    world.fault = nullptr;
    if (!world.anyFault) succeeded(c, r);
    else failed(r, (std::string(call) + " failed with error " + std::to_string(code)).c_str());
    mc::state(mc::Hash().str(call).u(uint64_t(code)).u(uint64_t(at)).u(c.binary).u(c.encoding != nullptr));
    clean();
}
// failing, short and interrupted writes, failing closes
MC_SCENARIO(writes, 64, 3)
{
    const Case c = anyCase(1);
    expected(c);
    const int kind = mc::choose(mc::thorough ? 3 : 2, "kind");
    prepare(c);
    mc::budget(mc::thorough ? 3 : 2);
    int n = 0;
    uint64_t what = 0;
    world.fileFault = [&](const char* call, size_t size) -> int
    {
        ++n;
        const bool close = !strcmp(call, "fclose");
        const int d = mc::deviate(close ? 2 : 4, call);
        if (d) { what = mc::Hash().u(what).u(uint64_t(n)).u(uint64_t(d)); mc::note("%s %d: %s", call, n, d == 1 ? "fails" : d == 2 ? "interrupted" : "short"); }
        if (close) return d ? -1 : 0;
        switch (d)
        {
            case 1: return -1;
            case 2: return -2;
            case 3: return int(kind == 0 ? std::min<size_t>(size, 1) : kind == 1 ? std::max<size_t>(1, size / 2) : std::max<size_t>(1, size - 1));
        }
        return int(size);
    };
    const Run r = start(c);
    world.fileFault = nullptr;
    if (world.anyFault) failed(r, "writing failed");
    else succeeded(c, r);
    mc::step(uint64_t(n));
    mc::state(mc::Hash().u(c.binary).u(c.encoding != nullptr).u(what).u(kind));
    clean();
}
// a disk that is full from some byte on
MC_SCENARIO(full, 64, 3)
{
    const Case c = anyCase(1);
    const auto &e = expected(c);
    size_t total = 0;
    for (auto &x : e) total += x.size();
    const size_t grain = mc::thorough ? 256 : 1021;
    const size_t room = std::min(total, size_t(mc::choose(int(total / grain) + 2, "room")) * grain) + size_t(mc::choose(3, "byte")) - 1;
    if (room > total) mc::prune();
    prepare(c);
    size_t left = room;
    world.fileFault = [&](const char* call, size_t size) -> int
    {
        if (!strcmp(call, "fclose")) return 0;
        if (size && !left) return -1;
        const size_t k = std::min(size, left);
        left -= k;
        return int(k);
    };
    const Run r = start(c);
    world.fileFault = nullptr;
    mc::note("room for %zu of %zu bytes", room, total);
    if (room < total) failed(r, "the disk is full");
    else succeeded(c, r);
    mc::state(mc::Hash().u(c.binary).u(c.encoding != nullptr).u(room));
    clean();
}
// output files that cannot be created or written, and those that can
MC_SCENARIO(places, 16, 2)
{
    const Case c = anyCase(mc::choose(2, "size"));
    expected(c);
    const auto list = names(c);
    const auto place = directory() + "/" + list[mc::choose(int(list.size()), "file")];
    enum { Directory, Full, Missing, Loop, Longer, Link, End };
    const int what = mc::choose(End, "place");
    const auto target = directory() + "/target";
    bool bad = true;
    switch (what)
    {
        case Directory: mkdir(place.c_str(), 0700); break;
        case Full: if (symlink("/dev/full", place.c_str())) {} break;
        case Missing: if (symlink("/nowhere-at-all/file", place.c_str())) {} break;
        case Loop: if (symlink(place.c_str(), place.c_str())) {} break;
        case Longer: std::ofstream(place) << std::string(300000, 'x'); bad = false; break;
        case Link: if (symlink(target.c_str(), place.c_str())) {} bad = false; break;
    }
    prepare(c);
    const Run r = start(c);
    if (bad) failed(r, "an output file cannot be written");
    else succeeded(c, r);
    unlink(target.c_str());
    mc::state(mc::Hash().u(c.binary).u(c.encoding != nullptr).u(what).str(place.substr(directory().size())));
    clean();
}
// fonts and encodings that cannot be converted
MC_SCENARIO(refused, 16, 2)
{
    const Case c = anyCase(0);
    const auto codes = codesUpTo(c.encoding ? 0xFF : '~');
    const int what = mc::choose(5, "what");
    prepare(c);
    Case run = c;
    std::set<std::string> none;
    if (what == 4) { run.encoding = "NO-SUCH-ENCODING"; }
    else if (what == 3) { world.height = mc::flag("negative") ? -64 : 256 * 64; if (c.binary) mc::prune(); }
    else
    {
        const int at = mc::choose(int(codes.size()), "position");
        uint32_t u = 0;
        if (!unicode(c.encoding ? c.encoding : "ASCII", codes[at], u)) mc::prune();
        const auto plain = world.glyph;
        world.glyph = [=](uint32_t x) { Glyph g = plain(x); if (x == u) { if (what == 0) g = makeGlyph(300, 1, 0, 1); else if (what == 1) g.top = 1000; else g.advance = 256; } return g; };
    }
    const Run r = start(run);
    failed(r, "the font does not fit the format");
    mc::state(mc::Hash().u(c.binary).u(c.encoding != nullptr).u(what).u(world.codes.size()));
    clean();
}
