// C09: views, sub-views and their chains against (first index, size) of the parent memory.
#include "mc.h"
#include <algorithm>
#include <iterator>
#include <type_traits>
#include "MemoryView.h"
#include <cstring>
#include <sys/mman.h>

using namespace embedded;

namespace
{
struct Record { uint16_t a; uint8_t b; bool operator==(const Record &o) const { return a == o.a && b == o.b; } };
template<typename T> T value(int i) { return T(i * 3 + 1); }
template<> Record value<Record>(int i) { return { uint16_t(i * 259 + 1), uint8_t(i) }; }
struct Wide { uint64_t a; uint32_t b, c, d; bool operator==(const Wide &o) const { return a == o.a && b == o.b && c == o.c && d == o.d; } };
template<> Wide value<Wide>(int i) { return { uint64_t(i) * 0x100000001ull, uint32_t(i), uint32_t(~i), uint32_t(i * 7) }; }

constexpr size_t kMax = 6, kGuard = 2;

// Everything a view offers must describe the elements [first, first + size) of mem.
template<typename V, typename T>
void checkView(const V &v, T* mem, size_t first, size_t size, const char* what)
{
    using E = typename V::element_type;
    MC_CHECK(v.size() == size, "%s: size %zu instead of %zu", what, size_t(v.size()), size);
    MC_CHECK(v.empty() == (size == 0), "%s: empty() is wrong at size %zu", what, size);
    MC_CHECK(v.size_bytes() == size * sizeof(T), "%s: size_bytes %zu", what, size_t(v.size_bytes()));
    MC_CHECK(size_t(v.end() - v.begin()) == size, "%s: end()-begin() is %td", what, v.end() - v.begin());
    MC_CHECK(size_t(v.cend() - v.cbegin()) == size, "%s: cend()-cbegin() is %td", what, v.cend() - v.cbegin());
    MC_CHECK(size_t(v.rend() - v.rbegin()) == size && size_t(v.crend() - v.crbegin()) == size, "%s: reverse range length", what);
    MC_CHECK(v.data() == v.begin() && v.cbegin() == v.begin(), "%s: data() and begin() differ", what);
    MC_CHECK(v.as_bytes().size() == size * sizeof(T), "%s: as_bytes size %zu", what, size_t(v.as_bytes().size()));
    if constexpr (!std::is_const_v<E>)
        MC_CHECK(v.as_writable_bytes().size() == size * sizeof(T), "%s: as_writable_bytes size %zu", what, size_t(v.as_writable_bytes().size()));
    if (size == 0) return;
    T* p = mem + first;
    MC_CHECK(v.begin() == p, "%s: begins at element %td instead of %zu", what, v.begin() - mem, first);
    MC_CHECK(&v.front() == p && &v.back() == p + size - 1, "%s: front/back", what);
    for (size_t i = 0; i < size; ++i)
    {
        MC_CHECK(&v[i] == p + i, "%s: element %zu is elsewhere", what, i);
        MC_CHECK(&*(v.begin() + i) == p + i && &*(v.cbegin() + i) == p + i, "%s: iteration at %zu", what, i);
        MC_CHECK(&*(v.rbegin() + i) == p + size - 1 - i && &*(v.crbegin() + i) == p + size - 1 - i, "%s: reverse iteration at %zu", what, i);
    }
    size_t n = 0;
    for (auto &e : v) MC_CHECK(&e == p + n++, "%s: range for", what);
    MC_CHECK(n == size, "%s: range for visits %zu elements", what, n);
    MC_CHECK(v.as_bytes().begin() == reinterpret_cast<const uint8_t*>(p), "%s: as_bytes begins elsewhere", what);
    if constexpr (!std::is_const_v<E>)
        MC_CHECK(v.as_writable_bytes().begin() == reinterpret_cast<uint8_t*>(p), "%s: as_writable_bytes begins elsewhere", what);
    if constexpr (std::is_same_v<std::remove_const_t<E>, char>)
    {
        std::string_view s = v;
        MC_CHECK(s.data() == p && s.size() == size, "%s: string conversion", what);
    }
    if constexpr (!std::is_const_v<E>)
    {
        MemoryView<const E> c = v;
        MC_CHECK(c.begin() == p && c.size() == size, "%s: conversion to a constant view", what);
    }
    V copy = v;
    MC_CHECK(copy.begin() == p && copy.size() == size, "%s: copy", what);
    mc::step();
}

size_t pickNumber(size_t size, const char* what)
{
    const size_t n = size_t(mc::choose(int(size) + 6, what));
    if (n <= size + 1) return n;
    static const size_t big[] = { size_t(-1), size_t(-2), size_t(1) << 63, size_t(1) << 32 };
    return big[n - size - 2];
}

template<typename T, typename E>
void chain(int depth)
{
    T mem[kMax + 2 * kGuard];
    for (size_t i = 0; i < kMax + 2 * kGuard; ++i) mem[i] = value<T>(int(i));
    const size_t n = size_t(mc::choose(int(kMax) + 1, "parent size"));
    T* base = mem + kGuard;
    MemoryView<E> v(base, n);
    MemoryView<E> byEnd(static_cast<E*>(base), static_cast<E*>(base + n));
    checkView(v, base, 0, n, "pointer and size");
    checkView(byEnd, base, 0, n, "pointer pair");
    size_t first = 0, size = n;
    for (int i = 0; i < depth; ++i)
    {
        const size_t before = size;
        switch (mc::choose(4, "operation"))
        {
            case 0:
            {
                const size_t off = pickNumber(size, "offset");
                const size_t cnt = pickNumber(size, "count");
                v = v.subspan(off, cnt);
                if (off >= before) { first += before; size = 0; }
                else { first += off; size = std::min(before - off, cnt); }
                mc::note("subspan(%zu, %zu) of %zu", off, cnt, before);
                break;
            }
            case 1:
            {
                const size_t off = pickNumber(size, "offset");
                v = v.subspan(off);
                if (off >= before) { first += before; size = 0; }
                else { first += off; size = before - off; }
                mc::note("subspan(%zu) of %zu", off, before);
                break;
            }
            case 2:
            {
                const size_t cnt = pickNumber(size, "count");
                v = v.first(cnt);
                size = std::min(before, cnt);
                mc::note("first(%zu) of %zu", cnt, before);
                break;
            }
            default:
            {
                const size_t cnt = pickNumber(size, "count");
                v = v.last(cnt);
                size = std::min(before, cnt);
                first += before - size;
                mc::note("last(%zu) of %zu", cnt, before);
            }
        }
        checkView(v, base, first, size, "sub-view");
        mc::state(mc::Hash().u(sizeof(T)).u(std::is_const_v<E>).u(n).u(first).u(size).u(i));
        if (size == 0 && i + 1 < depth && mc::choose(2, "go on") == 0) break;
    }
    for (size_t i = 0; i < kMax + 2 * kGuard; ++i) MC_CHECK(mem[i] == value<T>(int(i)), "memory changed at %zu", i);
    if constexpr (!std::is_const_v<E>)
    {
        // writing through the view reaches exactly its own elements
        for (size_t i = 0; i < size; ++i) v[i] = value<T>(100 + int(i));
        for (size_t i = 0; i < kMax + 2 * kGuard; ++i)
        {
            const bool inside = i >= kGuard + first && i < kGuard + first + size;
            MC_CHECK(mem[i] == (inside ? value<T>(100 + int(i - kGuard - first)) : value<T>(int(i))), "write through the view, element %zu", i);
        }
    }
    mc::outcome(mc::Hash().u(sizeof(T)).u(std::is_const_v<E>).u(first).u(size));
}
int depth() { return mc::thorough ? 3 : 2; }
}

MC_SCENARIO(bytes, 8, 3) { chain<uint8_t, uint8_t>(depth()); }
MC_SCENARIO(constBytes, 8, 3) { chain<uint8_t, const uint8_t>(depth()); }
MC_SCENARIO(chars, 8, 3) { chain<char, char>(depth()); }
MC_SCENARIO(constChars, 8, 3) { chain<char, const char>(depth()); }
MC_SCENARIO(words, 8, 3) { chain<uint32_t, uint32_t>(depth()); }
MC_SCENARIO(doubleWords, 8, 3) { chain<uint64_t, uint64_t>(mc::thorough ? 3 : 1); }
MC_SCENARIO(wideRecords, 8, 3) { chain<Wide, Wide>(mc::thorough ? 2 : 1); }
MC_SCENARIO(records, 8, 3) { chain<Record, const Record>(depth()); }

// views made from arrays, and default views
MC_SCENARIO(arrays, 1, 1)
{
    switch (mc::choose(6, "source"))
    {
        case 0: { uint8_t a[5] = {}; MemoryView<uint8_t> v(a); checkView(v, a, 0, 5, "C array"); break; }
        case 1: { const uint16_t a[3] = {}; MemoryView<const uint16_t> v(a); checkView(v, a, 0, 3, "constant C array"); break; }
        case 2: { std::array<char, 300> a {}; MemoryView<char> v(a); checkView(v, a.data(), 0, 300, "array"); break; }
        case 3: { std::array<uint8_t, 4> a {}; ConstBytesView v(a); checkView(v, a.data(), 0, 4, "array as constant view"); break; }
        case 4: { std::array<uint32_t, 1> a {}; MemoryView<uint32_t> v(a); checkView(v, a.data(), 0, 1, "array of one"); break; }
        default:
        {
            MemoryView<uint8_t> v; uint8_t x = 0; checkView(v, &x, 0, 0, "default view");
            checkView(v.subspan(0), &x, 0, 0, "sub-view of the default view"); checkView(v.first(3), &x, 0, 0, "first of the default view");
            checkView(v.last(3), &x, 0, 0, "last of the default view"); checkView(v.subspan(1, 1), &x, 0, 0, "sub-view of the default view");
        }
    }
    mc::state(mc::Hash().u(mc::thorough));
}

// sizes around every power of two up to beyond 32 bits (memory reserved, never touched)
template<typename T>
static void largeViews(size_t reserve, void* mem)
{
    static const int shifts[] = { 7, 8, 15, 16, 31, 32 };
    const size_t n = (size_t(1) << mc::pick(shifts, "log2 size")) + size_t(mc::choose(3, "delta")) - 1;
    if (n * sizeof(T) > reserve) return;
    T* base = static_cast<T*>(mem);
    MemoryView<T> v(base, n);
    static const int offShifts[] = { 0, 7, 8, 15, 16, 31, 32 };
    const size_t a = (size_t(1) << mc::pick(offShifts, "log2 argument")) + size_t(mc::choose(3, "delta")) - 1;
    const size_t b = (size_t(1) << mc::pick(offShifts, "log2 count")) + size_t(mc::choose(3, "delta")) - 1;
    auto check = [&](const MemoryView<T> &r, size_t first, size_t size, const char* what)
    {
        MC_CHECK(r.size() == size && r.size_bytes() == size * sizeof(T) && r.empty() == (size == 0), "%s of %zu (%zu, %zu): size %zu instead of %zu", what, n, a, b, size_t(r.size()), size);
        MC_CHECK(size == 0 || (r.begin() == base + first && r.end() == base + first + size), "%s of %zu (%zu, %zu): wrong place", what, n, a, b);
        MC_CHECK(r.as_bytes().size() == size * sizeof(T), "%s: bytes", what);
        mc::step();
    };
    check(v, 0, n, "view");
    check(MemoryView<T>(base, base + n), 0, n, "view between pointers");
    check(v.first(a), 0, std::min(a, n), "first");
    check(v.last(a), n - std::min(a, n), std::min(a, n), "last");
    check(v.subspan(a), a, a >= n ? 0 : n - a, "subspan");
    check(v.subspan(a, b), a, a >= n ? 0 : std::min(b, n - a), "subspan with count");
    mc::state(mc::Hash().u(n).u(a).u(b).u(sizeof(T)));
    mc::outcome(mc::Hash().u(a >= n).u(b >= n).u(sizeof(T)).u(n));
}
MC_SCENARIO(large, 4, 2)
{
    static const size_t reserve = (size_t(1) << 35) + 4096;
    static void* mem = mmap(nullptr, reserve, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    MC_CHECK(mem != MAP_FAILED, "harness error: no address space");
    if (mc::flag("element")) largeViews<uint32_t>(reserve, mem);
    else largeViews<uint8_t>(reserve, mem);
}
