// C07: floats of every exponent with systematic mantissas, every small precision and every space left.
#include "bo_common.h"
using namespace bo;

namespace
{
// checks a complete text (nothing was cut) of a float
void checkText(const std::string &t, float f, int p)
{
    size_t i = 0;
    const bool minus = i < t.size() && t[i] == '-';
    if (minus) ++i;
    const size_t intBegin = i;
    while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
    const size_t intDigits = i - intBegin;
    MC_CHECK(intDigits >= 1, "%a with precision %d gives \"%s\"", f, p, mc::esc(t).c_str());
    MC_CHECK(intDigits == 1 || t[intBegin] != '0', "%a with precision %d gives \"%s\"", f, p, mc::esc(t).c_str());
    if (p > 0)
    {
        MC_CHECK(i < t.size() && t[i] == '.' && t.size() == i + 1 + size_t(p), "%a with precision %d gives \"%s\"", f, p, mc::esc(t).c_str());
        for (size_t k = i + 1; k < t.size(); ++k) MC_CHECK(isdigit((unsigned char)t[k]), "%a with precision %d gives \"%s\"", f, p, mc::esc(t).c_str());
    }
    else MC_CHECK(i == t.size(), "%a with precision %d gives \"%s\"", f, p, mc::esc(t).c_str());
    long double v = 0, scale = 1;
    bool nonZero = false;
    for (size_t k = intBegin; k < t.size(); ++k)
    {
        if (t[k] == '.') continue;
        nonZero = nonZero || t[k] != '0';
        if (k < intBegin + intDigits) v = v * 10 + (t[k] - '0');
        else { scale /= 10; v += scale * (t[k] - '0'); }
    }
    MC_CHECK(!nonZero || minus == (f < 0), "%a with precision %d gives \"%s\": wrong sign", f, p, mc::esc(t).c_str());
    MC_CHECK(!minus || f < 0 || (f == 0 && std::signbit(f)), "%a with precision %d gives \"%s\": wrong sign", f, p, mc::esc(t).c_str());
    long double unit = 1; for (int k = 0; k < p; ++k) unit /= 10;
    const long double a = std::fabs((long double)f), slack = 1e-7L;
    MC_CHECK(v <= a + slack && a < v + unit + slack, "%a (%.9g) with precision %d gives \"%s\"", f, f, p, mc::esc(t).c_str());
}

bool digits(const std::string &t) { for (char c : t) if (isdigit((unsigned char)c)) return true; return false; }

void one(Out &o, float f, int p)
{
    o.b->clear();
    *o.b << BufferedOut::precision { p } << f;
    o.views();
    const std::string t = o.text();
    if (f >= -2147483648.0f && f < 2147483648.0f) checkText(t, f, p);
    else if (std::fabs(f) < 4294967296.0f && digits(t)) checkText(t, f, p);    // more than required
    else MC_CHECK(!digits(t), "%a (%g) appears as \"%s\"", f, f, mc::esc(t).c_str());
    mc::step();
}

float bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

const std::vector<uint32_t> &mantissas()
{
    static std::vector<uint32_t> r;
    if (r.empty())
    {
        // all numbers of up to 8 (thorough: 12) leading bits, and those with up to 8 trailing bits set / cleared
        const int lead = mc::thorough ? 12 : 8;
        for (uint32_t i = 0; i < (1u << lead); ++i) r.push_back(i << (23 - lead));
        for (uint32_t i = 0; i < 256; ++i) { r.push_back(i); r.push_back(0x7FFFFF - i); r.push_back(0x400000 + i); r.push_back(0x555555 ^ i); }
    }
    return r;
}
}

// every sign and exponent
MC_SCENARIO(values, 64, 2)
{
    const uint32_t sign = uint32_t(mc::choose(2, "sign")), exponent = uint32_t(mc::choose(256, "exponent"));
    Out o(80);
    for (uint32_t m : mantissas())
        for (int p : { 0, 1, 2, 3, 4, 6, 7, 9, 20 })
            one(o, bits(sign << 31 | exponent << 23 | m), p);
    mc::state(mc::Hash().u(sign).u(exponent));
}

// precisions around the 8 and 16 bit limits
MC_SCENARIO(longFractions, 16, 2)
{
    static const int precisions[] = { 39, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 200000 };
    static const float values[] = { 1.5f, -0.1f, 0.f, 1e-45f, 123.456f, -2147483648.f, 8388607.5f };
    const int p = mc::pick(precisions, "precision");
    const float f = mc::pick(values, "value");
    Out o(size_t(p) + 13);
    one(o, f, p);
    mc::state(mc::Hash().u(p).u(uint64_t(int64_t(f * 16))));
}

// decimal neighbourhoods: every n/1000 and its neighbours, where truncation happens
MC_SCENARIO(decimals, 16, 1)
{
    const int block = mc::choose(200, "block");
    Out o(40);
    for (int k = 0; k < (mc::thorough ? 2000 : 200); ++k)
    {
        const float f = float((block - 100) * 200 * 0.01 + k * 0.001);
        for (float g : { f, std::nextafterf(f, 1e9f), std::nextafterf(f, -1e9f) })
            for (int p : { 0, 1, 2, 3, 5 }) one(o, g, p);
    }
    mc::state(mc::Hash().u(block));
}

// the end of the buffer: a prefix of the whole text that contains the integer part, or nothing
MC_SCENARIO(cut, 16, 1)
{
    static const float values[] = { 0.f, -0.f, 0.5f, -0.5f, 7.f, -7.25f, 123.456f, -123.456f, 99999.9f, 2147483520.f, -2147483648.f, -0.004f, 1e-30f, -1e-45f, 1e10f, -1e10f };
    const float f = mc::pick(values, "value");
    const int p = mc::choose(8, "precision"), used = mc::choose(3, "used");
    Out whole(64);
    *whole.b << BufferedOut::precision { p } << f;
    const std::string full = whole.text();
    const size_t point = full.find('.'), intLength = point == std::string::npos ? full.size() : point;
    for (size_t space = 0; space < 24; ++space)
    {
        Out o(used + space);
        *o.b << std::string_view("##", used) << BufferedOut::precision { p } << f;
        o.views();
        const std::string t = o.text();
        MC_CHECK(t.size() >= size_t(used) && t.compare(0, used, std::string(used, '#')) == 0, "earlier text altered");
        const std::string added = t.substr(used);
        mc::step();
        mc::state(mc::Hash().str(full).u(space).u(used));
        if (std::fabs(f) >= 2147483648.0f && f != -2147483648.f) { MC_CHECK(!digits(added), "%g appears as \"%s\"", f, added.c_str()); continue; }
        const bool cutSign = added.size() < full.size() && full[0] == '-' && added == full.substr(1, added.size()) && !added.empty() && added.find_first_not_of("0.") == std::string::npos;
        if (space >= full.size()) MC_CHECK(added == full, "%g with precision %d and %zu characters left gives \"%s\" instead of \"%s\"", f, p, space, added.c_str(), full.c_str());
        else if (space < intLength && !(full[0] == '-' && cutSign)) MC_CHECK(added.empty(), "%g with precision %d and %zu characters left gives \"%s\", \"%s\" does not fit", f, p, space, added.c_str(), full.c_str());
        else MC_CHECK(added.empty() ? false : (cutSign || (added == full.substr(0, added.size()) && added.size() >= intLength)), "%g with precision %d and %zu characters left gives \"%s\" of \"%s\"", f, p, space, added.c_str(), full.c_str());
    }
}

// values beyond the integer range, infinities and every kind of nan, into every space
MC_SCENARIO(notFinite, 8, 2)
{
    const uint32_t sign = uint32_t(mc::choose(2, "sign"));
    static const uint32_t v[] = { 0x7F800000, 0x7FC00000, 0x7F800001, 0x7FFFFFFF, 0x7FA00000, 0x4F000000, 0x4F000001, 0x4F7FFFFF, 0x4F800000, 0x5F000000, 0x5F800000, 0x7F7FFFFF, 0x60000000 };
    const float f = bits(sign << 31 | mc::pick(v, "value"));
    const int p = mc::choose(4, "precision");
    for (size_t space = 0; space < 50; ++space)
    {
        Out o(space);
        *o.b << BufferedOut::precision { p } << f;
        o.views();
        const std::string t = o.text();
        if (f == -2147483648.f) { MC_CHECK(!digits(t) || t.compare(0, 11, "-2147483648") == 0, "%g appears as \"%s\"", f, t.c_str()); continue; }
        // 2^31..2^32 may be written as what it is
        MC_CHECK(!digits(t) || (std::fabs(f) < 4294967296.f && std::stold(t) <= std::fabs((long double)f) && std::fabs(std::stold(t)) + 1 > std::fabs((long double)f)), "%g appears as \"%s\"", f, t.c_str());
        mc::step();
        mc::state(mc::Hash().u(space).u(p).u(uint64_t(f)));
    }
}

// precision stays until it is changed or the output cleared; floats do not disturb the integers around them
MC_SCENARIO(settings, 48, 3)
{
    Model m; m.capacity = 200;
    Out o(200);
    for (int i = 0; i < (mc::thorough ? 7 : 6); ++i)
        switch (mc::choose(5, "item"))
        {
            case 0: { static const int p[] = { 0, 1, 3 }; m.precision = mc::pick(p, "precision"); *o.b << BufferedOut::precision { m.precision }; break; }
            case 1:
            {
                static const float v[] = { 2.5f, -0.25f };
                const float f = mc::pick(v, "value");
                *o.b << f;
                const std::string t = o.text();
                MC_CHECK(t.compare(0, m.text.size(), m.text) == 0, "earlier text altered");
                checkText(t.substr(m.text.size()), f, m.precision);
                m.text = t;
                break;
            }
            case 2: *o.b << BufferedOut::width { 4 }; m.widths = { 4 }; break;
            case 3: *o.b << 17; m.integer(17, o.text()); break;
            default: o.b->clear(); m.clear();
        }
    mc::Hash h; o.hash(h); mc::state(h); mc::outcome(mc::Hash().str(m.text));
    mc::step();
}
