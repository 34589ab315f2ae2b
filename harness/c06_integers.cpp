// C06: integers, bytes and text against an independent model of the formatting.
#include "bo_common.h"
#include <climits>
using namespace bo;

namespace
{
template<typename T> void insert(Out &o, Model &m, T v)
{
    *o.b << v;
    m.integer(v, o.text());
    mc::step();
}

void check(Out &o, const Model &m, const char* what)
{
    const std::string t = o.text();
    MC_CHECK(t == m.text, "%s: \"%s\" instead of \"%s\"", what, mc::esc(t).c_str(), mc::esc(m.text).c_str());
    o.views();
    mc::step();
}

void width(Out &o, Model &m, int w) { *o.b << BufferedOut::width { w }; m.widths = { w }; }
void fill(Out &o, Model &m, char c) { *o.b << BufferedOut::fill { c }; m.fill = c; }

void anyInteger(Out &o, Model &m)
{
    switch (mc::choose(6, "type"))
    {
        case 0: { static const int v[] = { 0, 7, -1, -10, 123, INT_MAX, INT_MIN }; insert(o, m, mc::pick(v, "value")); break; }
        case 1: { static const unsigned v[] = { 0, 42, UINT_MAX }; insert(o, m, mc::pick(v, "value")); break; }
        case 2: { static const long v[] = { -5, LONG_MIN, LONG_MAX }; insert(o, m, mc::pick(v, "value")); break; }
        case 3: { static const unsigned long v[] = { 6, ULONG_MAX }; insert(o, m, mc::pick(v, "value")); break; }
        case 4: { static const long long v[] = { -99, LLONG_MIN, LLONG_MAX }; insert(o, m, mc::pick(v, "value")); break; }
        default: { static const unsigned long long v[] = { 1000, ULLONG_MAX }; insert(o, m, mc::pick(v, "value")); }
    }
}

void anyText(Out &o, Model &m)
{
    static const std::string texts[] = { "", "s", "text", std::string("n\0l", 3) };
    switch (mc::choose(4, "text kind"))
    {
        case 0: { const auto &t = mc::pick(texts); *o.b << t.c_str(); m.str(t.c_str()); break; }
        case 1: { const auto &t = mc::pick(texts); std::unique_ptr<char[]> p(new char[t.size()]); memcpy(p.get(), t.data(), t.size()); *o.b << std::string_view(p.get(), t.size()); m.str(t); break; }
        case 2: { static const char c[] = { 'x', '\0', char(0xE9) }; const char k = mc::pick(c); *o.b << k; m.str(std::string(1, k)); break; }
        default: o.b->addChar('y'); m.str("y");
    }
    check(o, m, "text");
}

void anyBytes(Out &o, Model &m)
{
    static const uint8_t v[] = { 0x00, 0x9A, 0xFF, 0x0F };
    const int n = mc::choose(6, "bytes");
    if (n == 5) { *o.b << v[1]; m.hexByte(v[1]); check(o, m, "byte"); return; }
    std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
    memcpy(p.get(), v, n);
    *o.b << embedded::ConstBytesView(p.get(), n);
    for (int i = 0; i < n; ++i) m.hexByte(v[i]);
    check(o, m, "bytes");
}
}

// every mixture of settings and items
MC_SCENARIO(sequences, 64, 3)
{
    static const size_t capacities[] = { 0, 1, 2, 3, 5, 6, 10, 11, 20, 21, 40 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Out o(m.capacity);
    const int depth = mc::thorough ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        switch (mc::choose(6, "item"))
        {
            case 0: anyInteger(o, m); break;
            case 1: anyText(o, m); break;
            case 2: anyBytes(o, m); break;
            case 3: { static const int w[] = { 0, 1, 3, 4, 11, 20, 22, -3, INT_MAX }; width(o, m, mc::pick(w, "width")); break; }
            case 4: { static const char f[] = { '0', '*', ' ', '\0' }; fill(o, m, mc::pick(f, "fill")); break; }
            default: if (i == 0) mc::prune(); o.b->clear(); m.clear();
        }
        check(o, m, "contents");
        mc::Hash h; o.hash(h); h.u(m.fill).u(m.precision); for (int w : m.widths) h.u(w); h.str(m.text);
        mc::state(h);
        if (mc::seen(h, depth - i)) mc::prune();
    }
}

// few items, long sequences (no merging of sequences that lead to the same state)
MC_SCENARIO(deep, 48, 3)
{
    static const size_t capacities[] = { 40, 9 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Out o(m.capacity);
    for (int i = 0; i < (mc::thorough ? 8 : 6); ++i)
    {
        switch (mc::choose(7, "item"))
        {
            case 0: insert(o, m, -12); break;
            case 1: insert(o, m, 7ull); break;
            case 2: *o.b << "t"; m.str("t"); break;
            case 3: *o.b << uint8_t(0x9A); m.hexByte(0x9A); break;
            case 4: width(o, m, 4); break;
            case 5: fill(o, m, '*'); break;
            default: o.b->clear(); m.clear();
        }
        check(o, m, "contents");
    }
    mc::Hash h; o.hash(h); h.str(m.text); mc::state(h);
}

// every type, value, width and space left
template<typename T> void exact(const std::vector<T> &values)
{
    const T v = mc::pick(values, "value");
    const int w = mc::choose(25, "width");
    const size_t used = size_t(mc::choose(3, "used"));
    for (int space = 0; space <= 26; space += mc::thorough || space < 12 ? 1 : 1 + (w % 2))
    {
        Model m;
        m.capacity = used + space;
        Out o(m.capacity);
        *o.b << std::string_view("##", used); m.str(std::string(used, '#'));
        fill(o, m, '0' - char(used) * 3);
        width(o, m, w);
        insert(o, m, v);
        // the width is for one number only
        if (m.widths.size() == 1) { insert(o, m, T(3)); insert(o, m, T(4)); }
        mc::Hash h; h.str(m.text).u(w).u(space); mc::state(h);
    }
}
template<typename T> std::vector<T> edges()
{
    std::vector<T> r;
    const unsigned __int128 hi = std::numeric_limits<T>::max();
    for (unsigned __int128 p = 1; p <= hi; p *= 10)
        for (int d = -1; d <= 1; ++d) { r.push_back(T(p + d)); if (std::is_signed_v<T>) r.push_back(T(-__int128(p) + d)); }
    for (unsigned __int128 p = 128; p <= hi; p *= 2) { r.push_back(T(p)); r.push_back(T(p - 1)); }
    r.push_back(std::numeric_limits<T>::max()); r.push_back(std::numeric_limits<T>::min()); r.push_back(T(std::numeric_limits<T>::max() - 1)); r.push_back(T(std::numeric_limits<T>::min() + 1));
    r.push_back(0);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
MC_SCENARIO(exactInt, 8, 1) { static const auto e = edges<int>(); exact(e); }
MC_SCENARIO(exactUnsigned, 8, 1) { static const auto e = edges<unsigned>(); exact(e); }
MC_SCENARIO(exactLong, 8, 1) { static const auto e = edges<long>(); exact(e); }
MC_SCENARIO(exactUnsignedLong, 8, 1) { static const auto e = edges<unsigned long>(); exact(e); }
MC_SCENARIO(exactLongLong, 8, 1) { static const auto e = edges<long long>(); exact(e); }
MC_SCENARIO(exactUnsignedLongLong, 8, 1) { static const auto e = edges<unsigned long long>(); exact(e); }

// every 16 bit number (and somewhat more) in every type; thorough: several millions
MC_SCENARIO(range, 16, 1)
{
    const int block = mc::choose(mc::thorough ? 512 : 64, "block"), per = mc::thorough ? 16384 : 4096;
    Out o(24);
    for (int k = 0; k < per; ++k)
    {
        const int v = (block - (mc::thorough ? 256 : 32)) * per + k;
        auto one = [&](auto x)
        {
            o.b->clear();
            *o.b << x;
            MC_CHECK(o.b->asStringView() == decimal(x), "%s is written as \"%s\"", decimal(x).c_str(), mc::esc(o.text()).c_str());
        };
        one(v); one(long(v)); one((long long)v);
        if (v >= 0) { one(unsigned(v)); one((unsigned long)v); one((unsigned long long)v); }
        mc::step(6);
    }
    mc::state(mc::Hash().u(block));
}

// every byte, alone and in sequences of every length, on every space
MC_SCENARIO(everyByte, 8, 1)
{
    const int b = mc::choose(256, "byte");
    for (size_t space = 0; space < 9; ++space)
        for (size_t n = 0; n < 5; ++n)
            for (size_t used = 0; used < 2; ++used)
            {
                Model m; m.capacity = used + space;
                Out o(m.capacity);
                *o.b << std::string_view("#", used); m.str(std::string(used, '#'));
                std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
                for (size_t i = 0; i < n; ++i) p[i] = uint8_t(b + i * 61);
                if (n == 4) { *o.b << p[0]; m.hexByte(p[0]); }
                else { *o.b << embedded::ConstBytesView(p.get(), n); for (size_t i = 0; i < n; ++i) m.hexByte(p[i]); }
                check(o, m, "bytes");
                const char c = char(b);
                *o.b << c; m.str(std::string(1, c));
                check(o, m, "character");
                mc::state(mc::Hash().str(m.text).u(space));
            }
}

// long sequences, texts and widths
MC_SCENARIO(large, 8, 2)
{
    static const size_t sizes[] = { 100, 255, 256, 300, 32768, 65535, 65536, 70000 };
    const size_t n = mc::pick(sizes, "length"), slack = size_t(mc::choose(3, "slack"));
    const int kind = mc::choose(4, "kind");
    Model m;
    m.capacity = kind == 0 ? 2 * n - 1 + slack : n - 1 + slack;
    Out o(m.capacity);
    if (kind == 0)
    {
        std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
        for (size_t i = 0; i < n; ++i) p[i] = uint8_t(i * 7 + (i >> 8));
        *o.b << embedded::ConstBytesView(p.get(), n);
        for (size_t i = 0; i < n; ++i) m.hexByte(p[i]);
    }
    else if (kind == 1) { const std::string t(n, 'T'); *o.b << t.c_str(); m.str(t); }
    else if (kind == 2) { const std::string t(n, 'T'); *o.b << std::string_view(t); m.str(t); }
    else { width(o, m, int(n)); insert(o, m, -1234); }
    check(o, m, "long item");
    insert(o, m, 5);
    check(o, m, "afterwards");
    mc::state(mc::Hash().u(n).u(slack).u(kind));
}
