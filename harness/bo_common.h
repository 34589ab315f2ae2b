// Reference model of BufferedOut (C05-C08).
#pragma once
#include "mc.h"
#include "BufferedOut.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace bo
{
using embedded::BufferedOut;

inline const char* number(char* end, unsigned __int128 v, bool negative)
{
    *--end = 0;
    do { *--end = char('0' + int(v % 10)); v /= 10; } while (v);
    if (negative) *--end = '-';
    return end;
}
inline std::string decimal(__int128 v)
{
    char b[64];
    return number(b + sizeof b, v < 0 ? -(unsigned __int128)v : (unsigned __int128)v, v < 0);
}

// what a buffered output must hold; the pending width after a number that did not fit may be kept or forgotten
struct Model
{
    size_t capacity = 0;
    std::string text;
    std::set<int> widths { 0 };
    char fill = ' ';
    int precision = 0;

    size_t room() const { return capacity - text.size(); }
    void clear() { text.clear(); widths = { 0 }; fill = ' '; precision = 0; }
    void str(const std::string &s) { text += s.substr(0, room()); }
    void hexByte(unsigned char b)
    {
        if (room() < 2) return;
        text += "0123456789ABCDEF"[b >> 4]; text += "0123456789ABCDEF"[b & 15];
    }
    // actual: what the code holds now; picks the possibility that agrees (or fails)
    void integer(__int128 v, const std::string &actual)
    {
        const std::string d = decimal(v);
        std::vector<std::string> wanted;
        for (int w : widths)
        {
            std::string t = text;
            if (std::max<int64_t>(w, int64_t(d.size())) <= int64_t(room())) t += std::string(w > int(d.size()) ? w - d.size() : 0, fill) + d;
            wanted.push_back(t);
        }
        std::set<int> next;
        size_t i = 0;
        for (int w : widths)
        {
            const std::string &t = wanted[i++];
            if (t != actual) continue;
            if (t.size() == text.size()) { next.insert(w); next.insert(0); }   // dropped: appended nothing
            else next.insert(0);
        }
        if (next.empty())
            mc::fail("inserting %s (width %d, fill '%s') into \"%s\" (%zu of %zu) gives \"%s\" instead of \"%s\"", d.c_str(), *widths.rbegin(),
                     mc::esc(std::string(1, fill)).c_str(), mc::esc(text).c_str(), text.size(), capacity, mc::esc(actual).c_str(), mc::esc(wanted.back()).c_str());
        text = actual;
        widths = next;
    }
};

struct Out
{
    std::unique_ptr<char[]> mem;
    size_t n;
    alignas(BufferedOut) unsigned char raw[sizeof(BufferedOut)];
    BufferedOut* b;
    explicit Out(size_t n) : mem(new char[n]), n(n)
    {
        memset(mem.get(), '~', n);
        memset(raw, 0, sizeof raw);
        b = new (raw) BufferedOut(embedded::MemoryView<char>(mem.get(), n));
    }
    std::string text() const
    {
        const size_t s = b->size();
        MC_CHECK(s <= n, "size() is %zu of %zu", s, n);
        return std::string(mem.get(), s);
    }
    void hash(mc::Hash &h) const
    {
        for (size_t i = 0; i + 8 <= sizeof raw; i += 8)
        {
            uint64_t w; memcpy(&w, raw + i, 8);
            const auto base = reinterpret_cast<uint64_t>(mem.get());
            h.u(w >= base && w <= base + n ? w - base + 0x1000000 : w);
        }
        h.u(n).bytes(mem.get(), std::min<size_t>(b->size(), n));
    }
    // all views of the contents agree
    void views()
    {
        const size_t s = b->size();
        MC_CHECK(b->capacity() == n, "capacity() is %zu instead of %zu", size_t(b->capacity()), n);
        MC_CHECK(s <= n, "size() is %zu of %zu", s, n);
        const BufferedOut &c = *b;
        MC_CHECK(b->data().size() == s && c.data().size() == s, "data() has %zu bytes, size() is %zu", size_t(c.data().size()), s);
        MC_CHECK(c.asStringView().size() == s, "asStringView() has %zu bytes, size() is %zu", c.asStringView().size(), s);
        MC_CHECK((const char*)b->data().begin() == mem.get() && (const char*)c.data().begin() == mem.get() && c.asStringView().data() == mem.get(), "a view does not start at the buffer");
        MC_CHECK((char*)(uint8_t*)*b == mem.get() && (const char*)(const uint8_t*)c == mem.get(), "the pointer is not that of the buffer");
    }
};
}
