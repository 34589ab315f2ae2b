// C37: every short sequence of command line options, in every documented spelling, against the documented meaning.
#include "conv_common.h"
#include <dirent.h>
#include <unistd.h>

namespace
{
using namespace conv;
enum Kind { kFont, kSize, kDpi, kEncoding, kOutput, kBinary, kHelp, kWrong };
struct Token { Kind kind; std::vector<std::string> args; std::string value; };

const std::string &place(int i)
{
    static std::string d[3];
    if (d[i].empty()) { d[i] = directory() + "/" + (i == 0 ? "exe" : i == 1 ? "outA" : "out B"); mkdir(d[i].c_str(), 0700); }
    return d[i];
}
const char* letter(Kind k) { static const char* const l[] = { "f", "s", "d", "e", "o" }; return l[k]; }
const char* word(Kind k) { static const char* const w[] = { "font", "size", "dpi", "encoding", "output" }; return w[k]; }
// the four spellings of an option with a value
Token spelled(Kind k, const std::string &value, int how)
{
    const std::string s = std::string("-") + letter(k), l = std::string("--") + word(k);
    switch (how)
    {
        case 0: return { k, { s, value }, value };
        case 1: return { k, { s + value }, value };
        case 2: return { k, { l, value }, value };
        default: return { k, { l + "=" + value }, value };
    }
}
struct Meaning
{
    std::string font, encoding = "ASCII", output = place(0);
    long size = 12, dpi = 141;
    bool binary = false, help = false, wrong = false;
    void take(const Token &t)
    {
        switch (t.kind)
        {
            case kFont: font = t.value; break;
            case kSize: size = atol(t.value.c_str()); break;
            case kDpi: dpi = atol(t.value.c_str()); break;
            case kEncoding: encoding = t.value; break;
            case kOutput: output = t.value; break;
            case kBinary: binary = true; break;
            case kHelp: help = true; break;
            case kWrong: wrong = true; break;
        }
    }
};
std::vector<std::string> listing(int i)
{
    std::vector<std::string> r;
    if (auto d = opendir(place(i).c_str()))
    {
        while (auto e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name);
        closedir(d);
    }
    std::sort(r.begin(), r.end());
    return r;
}
void clean() { for (int i = 0; i < 3; ++i) for (auto &n : listing(i)) unlink((place(i) + "/" + n).c_str()); }

// runs the converter with the options and compares what it does with what they mean
struct Around { std::string executable; int earlier = 0; };      // how the program is called; what files of the same names hold before
void check(const std::vector<Token> &tokens, const Around &around = {})
{
    clean();
    world = World {};
    world.glyph = [](uint32_t u) { Glyph g = makeGlyph(int(u % 3), int(u % 2) + 1, 0, u); g.left = 1; g.top = 1; g.advance = int(u % 50); return g; };
    Meaning m;
    std::vector<std::string> args = { around.executable.empty() ? place(0) + "/gfx-font-converter" : around.executable };
    std::string shown;
    for (auto &t : tokens) { m.take(t); for (auto &a : t.args) { args.push_back(a); shown += " " + a; } }
    mc::note("options:%s", shown.c_str());
    std::map<std::string, std::string> unhindered;
    if (around.earlier)
    {
        // the same on empty directories, for comparison; then over files of another content
        MC_CHECK(run(args).status == 0, "failure (%s)", shown.c_str());
        for (int i = 0; i < 3; ++i)
            for (auto &f : listing(i))
            {
                bool there;
                const std::string path = place(i) + "/" + f, content = slurp(path, there);
                unhindered[path] = content;
                std::ofstream(path, std::ios::binary | std::ios::trunc) << (around.earlier == 1 ? content + std::string(3000, 'x') : around.earlier == 2 ? std::string("#error\n") : around.earlier == 3 ? std::string() : content);
            }
        auto glyph = world.glyph;
        world = World {};
        world.glyph = glyph;
    }
    const Run r = run(args);
    for (auto &u : unhindered)
    {
        bool there;
        MC_CHECK(slurp(u.first, there) == u.second && there, "%s differs when there was a file of that name before (%s)", u.first.c_str(), shown.c_str());
    }
    std::vector<std::string> files[3];
    for (int i = 0; i < 3; ++i) files[i] = listing(i);
    auto none = [&](const char* why)
    {
        for (auto &f : files) MC_CHECK(f.empty(), "%s, but %s is written (%s)", why, f.empty() ? "" : f[0].c_str(), shown.c_str());
        MC_CHECK(!r.out.empty() || !r.err.empty(), "%s, but there is no message (%s)", why, shown.c_str());
    };
    if (m.wrong) { none("an option is wrong"); MC_CHECK(r.status != 0, "success with a wrong option (%s)", shown.c_str()); }
    else if (m.help) none("help is asked for");
    else if (m.font.empty()) { none("there is no font"); MC_CHECK(r.status != 0, "success without a font (%s)", shown.c_str()); }
    else
    {
        MC_CHECK(r.status == 0, "failure (%s): %s", shown.c_str(), (r.out + r.err).c_str());
        MC_CHECK(world.font == m.font, "font %s is opened instead of %s (%s)", world.font.c_str(), m.font.c_str(), shown.c_str());
        MC_CHECK(world.size == m.size * 64, "size %ld/64 instead of %ld (%s)", world.size, m.size, shown.c_str());
        MC_CHECK(long(world.dpi) == m.dpi, "resolution %u instead of %ld (%s)", world.dpi, m.dpi, shown.c_str());
        std::string upper = m.encoding;
        for (auto &c : upper) c = char(toupper(c));
        const bool seven = upper == "ASCII";
        const auto codes = codesUpTo(seven ? '~' : 255);
        MC_CHECK(world.codes.size() == codes.size(), "%zu glyphs instead of %zu (%s)", world.codes.size(), codes.size(), shown.c_str());
        for (size_t i = 0; i < codes.size(); ++i)
        {
            uint32_t u;
            if (unicode(upper.c_str(), codes[i], u)) MC_CHECK(world.codes[i] == u, "code %02X is character %X instead of %X (%s)", codes[i], world.codes[i], u, shown.c_str());
        }
        std::string stem = m.font.substr(m.font.rfind('/') == std::string::npos ? 0 : m.font.rfind('/') + 1);
        stem = stem.substr(0, stem.rfind('.')) + std::to_string(m.size) + "pt" + (seven ? "7b" : "8b");
        std::vector<std::string> expected = m.binary ? std::vector<std::string> { stem + "Bitmaps.bin", stem + "Glyphs.bin" } : std::vector<std::string> { stem + ".h" };
        for (int i = 0; i < 3; ++i)
        {
            std::string got;
            for (auto &f : files[i]) got += f + " ";
            if (place(i) == m.output) MC_CHECK(files[i] == expected, "%s holds %s(%s)", place(i).c_str(), got.c_str(), shown.c_str());
            else MC_CHECK(files[i].empty(), "%s holds %s(%s)", place(i).c_str(), got.c_str(), shown.c_str());
        }
        bool there;
        std::vector<std::string> content;
        for (auto &n : expected) content.push_back(slurp(m.output + "/" + n, there));
        const Font f = m.binary ? parseBinary(content[0], content[1], seven ? '~' : 255) : parseHeader(content[0]);
        MC_CHECK(f.glyphs.size() == codes.size() && f.first == ' ' && f.last == codes.back(), "%zu glyphs for %d..%d (%s)", f.glyphs.size(), f.first, f.last, shown.c_str());
    }
    MC_CHECK(world.misuse.empty(), "%s (%s)", world.misuse.c_str(), shown.c_str());
    mc::state(mc::Hash().str(shown));
    mc::outcome(mc::Hash().u(uint64_t(r.status)).str(r.status ? "" : m.font + m.encoding + m.output).u(uint64_t(m.size)).u(uint64_t(m.dpi)).u(m.binary));
    clean();
}
std::vector<Token> alphabet()
{
    std::vector<Token> a;
    for (int how = 0; how < 4; ++how)
    {
        a.push_back(spelled(kSize, how % 2 ? "8" : "31", how));
        a.push_back(spelled(kDpi, how % 2 ? "72" : "300", how));
        a.push_back(spelled(kEncoding, how == 0 ? "CP1251" : how == 1 ? "cp1251" : how == 2 ? "ASCII" : "ascii", how));
        a.push_back(spelled(kOutput, place(1 + how % 2), how));
    }
    a.push_back(spelled(kFont, "some/where/Other.Font.otf", 1));
    a.push_back({ kBinary, { "-b" }, "" });
    a.push_back({ kHelp, { "-h" }, "" });
    a.push_back({ kWrong, { "-s", "big" }, "" });
    a.push_back({ kWrong, { "-x" }, "" });
    return a;
}
}

// every sequence of options, without a font and with one before or behind them
MC_SCENARIO(sequences, 64, 3)
{
    const int where = mc::choose(3, "font");
    const auto a = alphabet();
    std::vector<Token> t;
    if (where == 1) t.push_back(spelled(kFont, "Test.ttf", 0));
    const int n = where == 0 ? 2 : mc::thorough ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
        const int k = mc::choose(int(a.size()) + 1, "option");
        if (k == int(a.size())) break;
        t.push_back(a[k]);
    }
    if (where == 2) t.push_back(spelled(kFont, "/fonts/Test.ttf", 3));
    check(t);
}
// every value in every spelling, alone and after another value of the same option
MC_SCENARIO(values, 64, 2)
{
    const int kind = mc::choose(5, "option");
    std::vector<std::string> v;
    if (kind == kFont) v = { "A.ttf", "./B.ttf", "../fonts/C D.otf", "/x/y.z/E.F.ttf", "a-b.ttf", "9.ttf", "x=y.ttf", "=.ttf", std::string(200, 'n') + ".ttf" };
    if (kind == kSize || kind == kDpi)
    {
        for (int i = 1; i <= (mc::thorough ? 4000 : 400); ++i) v.push_back(std::to_string(i));
        for (int b = 9; b <= 31; ++b) for (int d = -1; d <= 1; ++d) if ((1ll << b) + d < 1ll << 31) v.push_back(std::to_string((1ll << b) + d));
        for (long p = 1000; p <= 1000000000; p *= 10) v.push_back(std::to_string(p));
        for (auto s : { "007", "0000012", "09" }) v.push_back(s);
    }
    if (kind == kEncoding) v = { "ASCII", "Ascii", "aSCII", "ISO-8859-1", "iso-8859-5", "ISO-8859-15", "CP1250", "cp1251", "CP1252", "Cp1253", "KOI8-R", "koi8-u", "CP866", "MACINTOSH", "CP437" };
    if (kind == kOutput) v = { place(0), place(1), place(2) };
    const auto &value = mc::pick(v, "value");
    const int how = mc::choose(4, "spelling");
    const int before = mc::choose(3, "before");
    std::vector<Token> t = { spelled(kFont, "Test.ttf", 0) };
    if (before == 1) t.push_back(spelled(Kind(kind), v.front(), 0));
    if (before == 2) t.push_back(spelled(Kind(kind), v.back(), 3));
    t.push_back(spelled(Kind(kind), value, how));
    if (kind == kEncoding)
    {
        const iconv_t d = iconv_open("UCS-4LE", value.c_str());
        if (d == (iconv_t)-1) mc::prune();
        iconv_close(d);
    }
    check(t);
}
// directories spelled in other ways, a program called by a relative path, files of an earlier run
MC_SCENARIO(surroundings, 16, 2)
{
    Around around;
    std::vector<Token> t = { spelled(kFont, "Test.ttf", 0) };
    const std::string name = directory().substr(directory().rfind('/') + 1);
    const int which = mc::choose(3, "directory");
    if (which > 0 || mc::flag("given"))
    {
        const std::string plain = place(which), relative = name + plain.substr(plain.rfind('/'));
        const std::string link = directory() + "/link" + std::to_string(which);
        (void)!symlink(plain.c_str(), link.c_str());
        const std::string ways[] = { plain + "/", plain + "//", plain + "/.", relative, "./" + relative, relative + "/", name + "/../" + relative, plain + "/../" + plain.substr(plain.rfind('/') + 1), link, link + "/", plain };
        Token o = spelled(kOutput, mc::pick(ways, "spelling of the directory"), mc::choose(4, "spelling of the option"));
        o.value = plain;
        t.push_back(o);
    }
    const std::string executables[] = { "", name + "/exe/conv", "./" + name + "/exe/conv", place(0) + "/../exe/x", place(0) + "//x" };
    around.executable = mc::pick(executables, "executable");
    around.earlier = mc::choose(5, "earlier files");
    if (mc::flag("binary")) t.push_back({ kBinary, { "-b" }, "" });
    if (mc::flag("encoding")) t.push_back(spelled(kEncoding, "CP1251", 0));
    check(t, around);
}
// numbers that are none, options that do not exist, values that are missing: anywhere, reported, and nothing is written
MC_SCENARIO(mistakes, 64, 2)
{
    const int kind = mc::choose(6, "mistake");
    Token wrong { kWrong, {}, "" };
    bool last = false;
    static const char* const numbers[] = { "", "x", "big", "-", "--", "+", " ", "e5", ".5", "99999999999", "2147483648", "-2147483649", "100000000000000000000000000", "\xC3\xA9", "#12", "pt12" };
    if (kind < 2)
    {
        const char* v = mc::pick(numbers, "number");
        const int how = mc::choose(4, "spelling");
        if (how == 1 && !*v) mc::prune();               // an attached value is not empty
        wrong.args = spelled(kind ? kDpi : kSize, v, how).args;
    }
    else if (kind == 2)
    {
        static const char* const unknown[] = { "-x", "-F", "-9", "--nothing", "--font-size=3", "-bx", "--fontx=a", "-S12", "--b=1" };
        wrong.args = { mc::pick(unknown, "unknown") };
    }
    else if (kind == 3)
    {
        static const char* const missing[] = { "-f", "-s", "-d", "-e", "-o", "--font", "--size", "--dpi", "--encoding", "--output", "-bs" };
        wrong.args = { mc::pick(missing, "value missing") };
        last = true;
    }
    else if (kind == 4) wrong.args = { "-e", std::string(mc::flag("long") ? 500 : 3, 'q') };   // no such encoding
    else wrong.args = { "-s", "12", "-d", "x", "-d", "72" };
    std::vector<Token> t = { spelled(kFont, "Test.ttf", mc::choose(4, "spelling of the font")) };
    const int where = last ? 1 : mc::choose(2, "where");
    if (where == 0) t.insert(t.begin(), wrong);
    const int also = mc::choose(4, "also");
    if (also == 1) t.push_back({ kBinary, { "-b" }, "" });
    if (also == 2) t.push_back(spelled(kSize, "20", 0));
    if (also == 3) t.push_back(spelled(kOutput, place(1), 2));
    if (where == 1) t.push_back(wrong);
    check(t);
}
