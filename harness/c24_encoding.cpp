// C24: conversion of texts byte by byte, against one fresh conversion per character.
#include "mc.h"
#include "gfx-font-converter/EncodingConverter.h"
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <cerrno>
#include <cstring>

namespace
{
enum Kind { kComplete, kIncomplete, kInvalid, kTooLong };
struct Result { Kind kind; std::string out; };

// The definition: a fresh conversion of exactly these bytes.
Result fresh(const char* from, const char* to, const std::string &bytes)
{
    static std::map<std::string, Result> known;
    const std::string key = std::string(from) + '\1' + to + '\1' + bytes;
    auto it = known.find(key);
    if (it != known.end()) return it->second;
    if (known.size() > 3000000) known.clear();
    const iconv_t d = iconv_open(to, from);
    if (d == (iconv_t)-1) mc::fail("harness error: no conversion from %s to %s", from, to);
    char in[16], out[64];
    memcpy(in, bytes.data(), bytes.size());
    char *ip = in, *op = out;
    size_t il = bytes.size(), ol = sizeof(out);
    Result r { kComplete, {} };
    if (iconv(d, &ip, &il, &op, &ol) == (size_t)-1) r.kind = errno == EINVAL ? kIncomplete : kInvalid;
    else
    {
        iconv(d, nullptr, nullptr, &op, &ol);
        r.out.assign(out, sizeof(out) - ol);
        if (r.out.size() > 4) r.kind = kTooLong;
    }
    iconv_close(d);
    return known[key] = r;
}

// A text in conversion: the bytes that may be pending (a rejected sequence may or may not include its last byte).
struct Model
{
    const char *from, *to;
    std::set<std::string> pending { "" };
    struct Answer { bool any; std::string out; std::string pending; };
    void answers(const std::string &prefix, char c, std::vector<Answer> &a)
    {
        const std::string s = prefix + c;
        const Result r = fresh(from, to, s);
        switch (r.kind)
        {
            case kComplete: a.push_back({ false, r.out, "" }); break;
            case kTooLong: a.push_back({ true, "", "" }); break;        // does not fit the result: anything, but nothing remains of it
            case kIncomplete:
                a.push_back({ false, "", s.size() < 4 ? s : std::string() });
                break;
            case kInvalid:
                a.push_back({ false, "", "" });
                if (!prefix.empty()) answers("", c, a);
                break;
        }
    }
    template<typename F> void step(char c, F matches, const char* what)
    {
        std::set<std::string> next;
        std::string expected;
        for (auto &p : pending)
        {
            std::vector<Answer> a;
            answers(p, c, a);
            for (auto &x : a)
            {
                if (x.any || matches(x.out)) next.insert(x.pending);
                if (expected.empty()) expected = x.out;
            }
        }
        MC_CHECK(!next.empty(), "%s %s to %s: byte %02X gives something else than %s (%s)", what, from, to, (unsigned char)c, mc::hex(expected.data(), expected.size()).c_str(), mc::esc(expected).c_str());
        pending = next;
    }
};

struct Text
{
    Model model;
    EncodingConverter converter;
    bool raw;
    Text(const char* from, const char* to, bool raw) : model { from, to }, converter(from, to), raw(raw) {}
    void feed(char c)
    {
        if (raw)
        {
            const uint32_t r = converter.convertRaw(c);
            mc::note("%s byte %02X -> %08X", model.from, (unsigned char)c, r);
            model.step(c, [&](const std::string &e) { uint32_t v = 0; memcpy(&v, e.data(), e.size()); return v == r; }, "convertRaw");
        }
        else
        {
            const std::string r = converter.convert(c);
            mc::note("%s byte %02X -> %s", model.from, (unsigned char)c, mc::hex(r.data(), r.size()).c_str());
            model.step(c, [&](const std::string &e) { return e == r; }, "convert");
        }
        mc::step();
    }
    void feed(const std::string &s) { for (char c : s) feed(c); }
};

const char* const kSingle[] = { "ASCII", "ISO-8859-1", "ISO-8859-2", "ISO-8859-5", "ISO-8859-7", "ISO-8859-8", "ISO-8859-11", "ISO-8859-15", "CP437", "CP1250", "CP1251", "CP1252", "CP1253", "CP1255", "CP1258", "KOI8-R", "TCVN", "CP850", "CP866", "MACINTOSH", "EBCDIC-US", "TIS-620", "ISO-8859-6" };
struct Multi { const char* name; const char* alphabet; int size; };
const Multi kMulti[] = {
    { "UTF-8", "\x41\x00\x7F\xC3\xA9\xE2\x82\xF0\x9F\x98\x80\xFF\xF4\xED", 14 },
    { "GB18030", "\x41\x00\x81\x30\x8B\x36\x39\xFF\xD6\xD0\x84\x90", 12 },
    { "EUC-JP", "\x41\x00\xA4\xA2\x8E\xB1\x8F\xB0\xFF\x80\xAB", 11 },
    { "SHIFT_JIS", "\x41\x00\x82\xA0\xB1\x5C\x7E\xFC\x81\xFF\x85\x40", 12 },
    { "BIG5", "\x41\x00\xA4\x40\xFE\x7F\xA1\xFF\x80\xC6", 10 },
    { "BIG5-HKSCS", "\x41\x00\x88\x62\x64\xA3\xA5\x87\xFF\x66", 10 },
    { "EUC-KR", "\x41\x00\xB0\xA1\xFE\xC9\x80\xFF\x7F\xA4", 10 },
    { "EUC-TW", "\x41\x00\x8E\xA2\xA1\xC4\xFF\x80\xA3", 9 },
    { "JOHAB", "\x41\x00\x84\x5C\x88\x61\xFF\xD8\x31\x80", 10 },
    { "UTF-16LE", "\x41\x00\xD8\xDC\x3D\xAC\xFF\x20", 8 },
    { "UCS-4LE", "\x41\x00\x01\x10\xD8\xFF\x11\xAC", 8 } };
const char* const kTargets[] = { "UTF-8", "UCS-4LE", "ISO-8859-1", "UTF-16LE" };
}

// single byte encodings: every code after every code, both ways to ask
MC_SCENARIO(pairs, 96, 2)
{
    const char* from = kSingle[mc::choose(int(sizeof(kSingle) / sizeof(*kSingle)), "encoding")];
    const int how = mc::choose(4, "target");
    const char* to = how == 3 ? kTargets[mc::choose(mc::thorough ? 4 : 3)] : how == 2 ? "ISO-8859-1" : kTargets[how];
    const bool raw = how & 1;
    for (int a = 0; a < 256; ++a)
    {
        Text t(from, to, raw);
        for (int b = 0; b < 256; ++b) { t.feed(char(a)); t.feed(char(b)); }
        mc::state(mc::Hash().str(from).str(to).u(a).u(raw));
    }
}
// several bytes per character: every sequence
MC_SCENARIO(sequences, 160, 3)
{
    const Multi &m = kMulti[mc::choose(int(sizeof(kMulti) / sizeof(*kMulti)), "encoding")];
    const int how = mc::choose(mc::thorough ? 4 : 2, "target");
    const char* to = kTargets[how];
    const bool raw = how & 1;
    Text t(m.name, to, raw);
    const int n = mc::thorough ? 6 : 5;
    // one execution covers all continuations of the first bytes: each is fed to a converter that converted all those before
    std::string s;
    for (int i = 0; i < 2; ++i) s += m.alphabet[mc::choose(m.size, "byte")];
    size_t total = 1;
    for (int i = 2; i < n; ++i) total *= size_t(m.size);
    for (size_t k = 0; k < total; ++k)
    {
        std::string x = s;
        size_t v = k;
        for (int i = 2; i < n; ++i) { x += m.alphabet[v % size_t(m.size)]; v /= size_t(m.size); }
        t.feed(x);
    }
    mc::state(mc::Hash().str(m.name).str(to).str(s));
}
// a new converter for each sequence
MC_SCENARIO(freshSequences, 96, 3)
{
    const Multi &m = kMulti[mc::choose(int(sizeof(kMulti) / sizeof(*kMulti)), "encoding")];
    const int how = mc::choose(2, "target");
    Text t(m.name, kTargets[how], how & 1);
    std::string s;
    for (int i = 0; i < (mc::thorough ? 5 : 4); ++i)
    {
        const char c = m.alphabet[mc::choose(m.size, "byte")];
        t.feed(c);
        s += c;
    }
}
// every Unicode character, and one out of several before each
MC_SCENARIO(unicode, 68, 2)
{
    const bool raw = mc::flag("entry point");
    const int block = mc::choose(34, "plane half");
    const uint32_t first = uint32_t(block) << 15, last = std::min<uint32_t>(first + 0x7FFF, 0x10FFFF);
    Text t("UTF-8", raw ? "UCS-4LE" : "UTF-16LE", raw);
    static const char* const before[] = { "", "A", "\xC3", "\xE2\x82", "\xFF", "\xF0\x9F\x98\x80", "\xC3\xA9" };
    for (uint32_t c = first; c <= last; ++c)
    {
        if (c >= 0xD800 && c < 0xE000) continue;
        std::string s = before[c % 7];
        if (c < 0x80) s += char(c);
        else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        t.feed(s);
    }
    mc::state(mc::Hash().u(block));
}
// every pair of bytes in the encodings of up to two bytes (and the first two of longer ones)
MC_SCENARIO(bytePairs, 88, 3)
{
    const Multi &m = kMulti[mc::choose(int(sizeof(kMulti) / sizeof(*kMulti)), "encoding")];
    const int how = mc::choose(2, "target"), block = mc::choose(4, "first bytes");
    for (int a = block * 64; a < block * 64 + 64; ++a)
    {
        Text t(m.name, kTargets[how], how & 1);
        for (int b = 0; b < 256; ++b)
        {
            t.feed(char(a)); t.feed(char(b));
            t.feed("\n\n\n\n");          // ends whatever may be pending
        }
    }
    mc::state(mc::Hash().str(m.name).u(how).u(block));
}
// two converters at once; both ways to ask of one converter
MC_SCENARIO(interleaved, 48, 3)
{
    static const char* const from[] = { "UTF-8", "GB18030", "CP1255" };
    const char* const alphabet = "\x41\xC3\xA9\xE1\xE0\x81\x30";
    Text a(mc::pick(from, "first"), "UTF-8", false), b(mc::pick(from, "second"), "UCS-4LE", true);
    for (int i = 0; i < (mc::thorough ? 5 : 4); ++i)
    {
        Text &t = mc::flag("which") ? a : b;
        t.feed(alphabet[mc::choose(7, "byte")]);
    }
}
MC_SCENARIO(bothWays, 48, 3)
{
    const Multi &m = kMulti[mc::choose(3, "encoding")];
    Text t(m.name, "UCS-4LE", false);
    for (int i = 0; i < (mc::thorough ? 4 : 3); ++i)
    {
        t.raw = mc::flag("entry point");
        t.feed(m.alphabet[mc::choose(m.size, "byte")]);
    }
}
// encodings that do not exist are refused
MC_SCENARIO(unknown, 4, 1)
{
    static const char* const names[] = { "NO-SUCH-ENCODING", "UTF-8", "ISO-8859-99", "NO SUCH" };
    const char *from = mc::pick(names, "from"), *to = mc::pick(names, "to");
    bool refused = false;
    try { EncodingConverter c(from, to); } catch (const std::exception &e) { refused = true; MC_CHECK(strlen(e.what()) > 0, "no message"); }
    mc::step();
    MC_CHECK(refused == (strcmp(from, "UTF-8") || strcmp(to, "UTF-8")), "conversion from %s to %s is %s", from, to, refused ? "refused" : "offered");
}
