// C01: every short history of stores against a map; sizes and counts around the limits of the record format.
__asm__(".weak _ZN8embedded17PersistentStorage14DescriptorSizeE"); // see recordSize
#include "ps_common.h"
#include <array>
#include <type_traits>
using namespace ps;

namespace
{
const std::vector<std::string> kNames = { "a", "b", "ab", "abc", "abcd", "abce", "", "abcde", "bbcdefgh" };
const std::vector<int> kSmall = { 0, 1, 2, 3 };

void store(Object &o, Model &m, const std::string &name, int size, int seed)
{
    const Bytes v = pattern(size, seed);
    const bool expected = m.set(name, size, v);
    const bool done = set(*o, name, size, v);
    mc::note("set(\"%s\", %zu bytes, seed %d) -> %d", name.c_str(), kSizes[size], seed, done);
    MC_CHECK(done == expected, "set(\"%s\", %zu bytes) reports %d with %zu of %zu bytes used", name.c_str(), kSizes[size], done, m.used, m.capacity);
}
}

MC_SCENARIO(histories, 16, 3)
{
    static const size_t capacities[] = { 0, 5, 6, 7, 8, 13, 14, 15, 21, 24, 28, 64 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    const int depth = mc::thorough ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        const auto &name = mc::pick(kNames, "name");
        const int size = mc::pick(kSmall, "size");
        store(o, m, name, size, mc::choose(2, "value") ? 0x41 : 0x00);
        check(*o, m, kNames, kSmall, "after a store");
        mc::Hash h; m.hash(h); o.hash(h, mem);
        mc::state(h);
        if (mc::seen(h, depth - i)) mc::prune();
    }
    mc::Hash h; m.hash(h); mc::outcome(h);
}

// values of every size up to 64 bytes, and around multiples of powers of two
template<size_t N> void oneSize(int seed)
{
    constexpr bool fits = N + kOverhead <= 65535;
    Memory mem(2 * (N + kOverhead) + 5);
    PersistentStorage s(mem.view(), true);
    auto v = std::make_unique<Val<N>>(), w = std::make_unique<Val<N>>();
    for (size_t i = 0; i < N; ++i) { v->b[i] = uint8_t(seed + i * 7 + (i >> 8)); w->b[i] = uint8_t(~v->b[i]); }
    auto loads = [&](const char* name, const Val<N> &x) { const auto r = std::make_unique<std::optional<Val<N>>>(s.get<Val<N>>(name)); return *r && memcmp(&**r, &x, N) == 0; };
    MC_CHECK(s.set("v", *v) == fits, "a value of %zu bytes is %s", N, fits ? "refused" : "stored");
    if constexpr (fits)
    {
        MC_CHECK(loads("v", *v), "a value of %zu bytes does not load", N);
        MC_CHECK(s.set("wide", *w) && loads("wide", *w) && loads("v", *v), "a second value of %zu bytes", N);
        MC_CHECK(!s.set("no", *w) && !s.get<Val<N>>("no"), "a third value of %zu bytes is stored in a full storage", N);
        MC_CHECK(s.set("v", *w) && loads("v", *w) && loads("wide", *w), "overwriting a value of %zu bytes", N);
        MC_CHECK(s.set("wide", *v) && loads("v", *w) && loads("wide", *v), "overwriting a value of %zu bytes", N);
    }
    mc::step(6);
    mc::state(mc::Hash().u(N).u(seed));
}
template<size_t... I> void someSizes(int which, int seed, std::index_sequence<I...>)
{
    ((which == int(I) ? oneSize<I + 1>(seed) : void()), ...);                   // 1 to 64
}
template<size_t... I> void moreSizes(int which, int seed, std::index_sequence<I...>)
{
    // 128, 192, 256, 384, 512 ... and their neighbours
    ((which / 3 != int(I) ? void() : which % 3 == 0 ? oneSize<((I % 2 ? 192 : 128) << I / 2) - 1>(seed) : which % 3 == 1 ? oneSize<((I % 2 ? 192 : 128) << I / 2)>(seed) : oneSize<((I % 2 ? 192 : 128) << I / 2) + 1>(seed)), ...);
}
MC_SCENARIO(everySize, 16, 2)
{
    const int which = mc::choose(64 + 3 * 20, "size"), seed = mc::flag("value") ? 0x00 : 0x5A;
    if (which < 64) someSizes(which, seed, std::make_index_sequence<64>());
    else moreSizes(which - 64, seed, std::make_index_sequence<20>());
}

// few names and sizes, long histories (no merging of histories that lead to the same state)
MC_SCENARIO(deep, 48, 3)
{
    static const std::vector<std::string> names = { "a", "ab" };
    static const std::vector<int> sizes = { 0, 1 };
    static const size_t capacities[] = { 40, 28, 22, 15 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    for (int i = 0; i < (mc::thorough ? 9 : 7); ++i)
    {
        const auto &name = mc::pick(names, "name");
        store(o, m, name, mc::pick(sizes, "size"), 0x21 * (i + 1));
        check(*o, m, names, sizes, "after a store");
    }
    mc::Hash h; m.hash(h); mc::state(h); mc::outcome(h);
}
// all states that any history of stores of these entries can reach: no more than 4 entries fit, and each of them
// can be overwritten once afterwards to reach any combination of values
MC_SCENARIO(reachable, 16, 3)
{
    static const std::vector<std::string> names = { "a", "abcd", "" };
    static const std::vector<int> sizes = { 0, 1 };
    static const size_t capacities[] = { 14, 16, 21, 24, 28 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    const int depth = 8;
    for (int i = 0; i < depth; ++i)
    {
        const auto &name = mc::pick(names, "name");
        store(o, m, name, mc::pick(sizes, "size"), mc::choose(2, "value") ? 0x41 : 0x06);
        check(*o, m, names, sizes, "after a store");
        mc::Hash h; m.hash(h); o.hash(h, mem);
        mc::state(h);
        if (mc::seen(h, depth - i)) mc::prune();
    }
}

// every pair of names of up to four characters (and those longer by one), and all others stay what they were
MC_SCENARIO(pairsOfNames, 64, 2)
{
    static const auto names = []
    {
        std::vector<std::string> r { "" };
        const std::string letters = mc::thorough ? std::string("ab\xff ") : std::string("a\xff ");
        for (size_t i = 0; i < r.size() && r[i].size() < 4; ++i) for (char c : letters) r.push_back(r[i] + c);
        for (int i = 0, n = int(r.size()); i < n; ++i) if (r[i].size() == 4 && i % 9 == 0) { r.push_back(r[i] + "a"); r.push_back(r[i] + r[i]); }
        return r;
    }();
    static const std::vector<int> sizes = { 2 };
    Model m;
    m.capacity = 30;
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    const auto &first = mc::pick(names, "first"), &second = mc::pick(names, "second");
    store(o, m, first, 2, 0x11);
    store(o, m, second, 2, 0x22);
    check(*o, m, names, sizes, "after two stores");
    mc::Hash h; m.hash(h); mc::state(h);
    store(o, m, first, 2, 0x33);
    check(*o, m, { first, second }, sizes, "after another store");
}

// two storages must not know of each other
MC_SCENARIO(twoStorages, 8, 3)
{
    static const std::vector<std::string> names = { "a", "b" };
    static const std::vector<int> sizes = { 0, 2 };
    Model m[2];
    m[0].capacity = 17; m[1].capacity = size_t(mc::choose(2, "second capacity") ? 24 : 10);
    Memory mem0(m[0].capacity), mem1(m[1].capacity);
    Object o[2];
    o[0].attach(mem0.view(), true);
    o[1].attach(mem1.view(), true);
    for (int i = 0; i < (mc::thorough ? 5 : 4); ++i)
    {
        const int which = mc::choose(2, "storage");
        const auto &name = mc::pick(names, "name");
        const int size = mc::pick(sizes, "size");
        store(o[which], m[which], name, size, 0x30 + i);
        check(*o[0], m[0], names, sizes, "first storage");
        check(*o[1], m[1], names, sizes, "second storage");
        mc::Hash h; m[0].hash(h); m[1].hash(h); mc::state(h);
    }
}

// record and offset sizes around 8 and 16 bit limits
MC_SCENARIO(largeValues, 8, 2)
{
    static const std::vector<std::string> names = { "a", "zz" };
    static const std::vector<int> sizes = { 0, 5, 6, 7, 8, 9, 10, 11, 12, 13 };
    static const size_t capacities[] = { 255, 256, 257, 512, 65535, 65536, 70006, 150000 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    for (int i = 0; i < (mc::thorough ? 4 : 3); ++i)
    {
        const auto &name = names[i & 1];
        store(o, m, name, mc::pick(sizes, "size"), 0x11 * (i + 1));
        check(*o, m, names, sizes, "after a store");
        mc::Hash h; m.hash(h); mc::state(h);
    }
    mc::Hash h; m.hash(h); mc::outcome(h);
}

// hundreds of records, filled to the last byte, then overwritten from either end
MC_SCENARIO(manyRecords, 8, 3)
{
    static const int strides[] = { 0, 1, 2, 3 };
    const int size = mc::pick(strides, "value size");
    static const int counts[] = { 1, 40, 255, 256, 257, 700 };
    const int count = mc::pick(counts, "records");
    const size_t slack = size_t(mc::choose(3, "slack"));
    Model m;
    m.capacity = size_t(count) * (kOverhead + kSizes[size]) + slack;
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    auto name = [](int i) { char b[8]; snprintf(b, sizeof b, "%d", i * 37 % 1009); return std::string(b); };
    std::vector<std::string> all;
    for (int i = 0; i < count; ++i) { store(o, m, name(i), size, i); all.push_back(name(i)); }
    store(o, m, "more", 3, 1);
    store(o, m, "mor1", 0, 1);
    all.push_back("more"); all.push_back("mor1");
    check(*o, m, all, { 0, 1, 2, 3 }, "full");
    for (int i = 0; i < count; i += 1 + count / 20) store(o, m, name(count - 1 - i), size, 200 - i);
    check(*o, m, all, { 0, 1, 2, 3 }, "overwritten");
    mc::Hash h; m.hash(h); mc::state(h); mc::outcome(h);
}

// every character at every place of a name: each is another name (a name that ends in NULs is the one without them)
MC_SCENARIO(everyCharacter, 4, 1)
{
    static const char* const around[] = { "", "x", "xy", "xyz" };
    const std::string others = mc::pick(around, "others");
    const size_t place = size_t(mc::choose(int(others.size()) + 1, "place"));
    const bool last = place == others.size();
    auto name = [&](int c) { std::string n = others; n.insert(place, 1, char(c)); return n; };
    const int size = mc::choose(2, "value size"), step = mc::flag("order") ? 1 : 77;
    Model m;
    m.capacity = 255 * (kOverhead + kSizes[size]) + (last ? 0 : kOverhead + kSizes[size]);
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    std::vector<std::string> all;
    for (int k = 0; k < 256; ++k)
    {
        const int c = k * step & 255;
        if (last && c == 0) continue;
        store(o, m, name(c), size, c);
        all.push_back(name(c));
        if (k % 16 == 15) check(*o, m, all, { size }, "every character");
    }
    check(*o, m, all, { 0, 1, 2 }, "every character");
    MC_CHECK(!set(*o, "more", 0, pattern(0, 1)), "a value is stored in a full storage");
    for (int k = 0; k < 256; ++k)
    {
        const int c = 255 - k;
        if (last && c == 0) continue;
        store(o, m, name(c), size, c ^ 0xFF);
        if (k % 16 == 15) check(*o, m, all, { size }, "every character, overwritten");
    }
    mc::Hash h; m.hash(h); mc::state(h);
}

// a storage in use for a long time
MC_SCENARIO(longUse, 4, 1)
{
    static const std::vector<std::string> names = { "a", "", "abcd" };
    const int size = mc::choose(4, "value size");
    Model m;
    m.capacity = 64;
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    for (int i = 0; i < 70000; ++i)
    {
        const auto &n = names[size_t(i * 7 % 11 % 3)];
        const Bytes v = pattern(size, i);
        MC_CHECK(m.set(n, size, v) == set(*o, n, size, v), "store %d reports the opposite", i);
        if (i % 9 == 0 || i > 69990 || (i & 255) < 2) check(*o, m, names, { size }, "long use");
        if (i == 40000) o.attach(mem.view(), false);
    }
    mc::Hash h; m.hash(h); mc::state(h);
}

// the space a record takes beside its value, which users size their memory by; taken by reference, as test frameworks and std::max do
namespace { size_t addressable(const size_t &x) { const size_t *volatile p = &x; return p ? *p : 0; } }

MC_SCENARIO(recordSize, 1, 1)
{
    const int count = mc::choose(20, "records");
    const size_t size = addressable(PersistentStorage::DescriptorSize);
    mc::Hash h; h.u(uint64_t(count)); mc::state(h); mc::outcome(h);
    MC_CHECK(size == kOverhead, "DescriptorSize is %zu instead of %zu (0: not defined)", size, kOverhead);
    Memory mem(size_t(count) * (size + 4));
    Object o;
    o.attach(mem.view(), true);
    for (int i = 0; i < 20; ++i)
    {
        const bool done = set(*o, std::string(1, char('a' + i)), 2, pattern(2, i));
        MC_CHECK(done == (i < count), "store %d in a memory for %d records reports %d", i, count, done);
    }
}

// values of every kind of type, at every offset: what is stored is loaded, bit for bit, member by member
namespace
{
struct Mixed { char c; double d; uint16_t h; bool operator==(const Mixed &o) const { return c == o.c && d == o.d && h == o.h; } };
struct Constant { const uint32_t a; const uint16_t b; explicit Constant(uint32_t s) : a(s * 2654435761u), b(uint16_t(s + 1)) {} bool operator==(const Constant &o) const { return a == o.a && b == o.b; } };
struct alignas(16) Wide { uint8_t b[48]; bool operator==(const Wide &o) const { return !memcmp(b, o.b, sizeof b); } };
struct alignas(64) Line { uint32_t w[16]; bool operator==(const Line &o) const { return !memcmp(w, o.w, sizeof w); } };
enum class Kind : uint8_t { a = 1, b = 200 };
struct Bits { unsigned x : 3, y : 13, z : 7; bool operator==(const Bits &o) const { return x == o.x && y == o.y && z == o.z; } };
template<typename T> T value(int s)
{
    if constexpr (std::is_same_v<T, Mixed>) return { char(s), s / 7.0, uint16_t(s * 259) };
    else if constexpr (std::is_same_v<T, Bits>) return { unsigned(s) & 7, unsigned(s * 37) & 8191, unsigned(s * 5) & 127 };
    else if constexpr (std::is_same_v<T, Kind>) return s & 1 ? Kind::a : Kind::b;
    else if constexpr (std::is_same_v<T, bool>) return s & 1;
    else if constexpr (std::is_same_v<T, Constant>) return Constant(uint32_t(s));
    else if constexpr (std::is_pointer_v<T>) return reinterpret_cast<T>(uintptr_t(s) * 0x123456789ull);
    else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, __int128>) return T(T(s * 2654435761.0) / T(3));
    else { T r; auto p = reinterpret_cast<uint8_t*>(&r); for (size_t i = 0; i < sizeof(T); ++i) p[i] = uint8_t(s + i * 13); return r; }
}
template<typename... T> struct Types
{
    static constexpr int count = sizeof...(T);
    template<typename F> static void with(int i, F &&f) { int k = 0; (void)((k++ == i ? (f(static_cast<T*>(nullptr)), true) : false) || ...); }
};
using All = Types<bool, char, Kind, uint16_t, int, float, int64_t, double, __int128, const char*, Mixed, Bits, Constant, Wide, Line, std::array<uint16_t, 3>, std::array<double, 5>>;
}
MC_SCENARIO(typesOfValues, 48, 3)
{
    const size_t offset = size_t(mc::choose(16, "offset of the memory"));
    const int count = mc::thorough ? 4 : 3;
    int type[4];
    size_t capacity = 0;
    for (int i = 0; i < count; ++i)
    {
        type[i] = mc::choose(All::count, "type");
        All::with(type[i], [&](auto* t) { capacity += kOverhead + sizeof *t; });
    }
    std::unique_ptr<uint8_t[]> memory(static_cast<uint8_t*>(operator new[](offset + capacity)));
    memset(memory.get(), 0xA5, offset + capacity);
    static const char* const names[] = { "abcd", "b", "", "cd" };
    auto all = [&](const PersistentStorage &s, int round, int upTo)
    {
        for (int i = 0; i < upTo; ++i)
            All::with(type[i], [&](auto* t)
            {
                using T = std::remove_const_t<std::remove_reference_t<decltype(*t)>>;
                const auto got = s.get<T>(names[i]);
                mc::step();
                MC_CHECK(got && *got == value<T>(round * 10 + i), "value %d of type %d, %zu bytes at offset %zu, is %s", i, type[i], sizeof(T), offset, got ? "changed" : "lost");
            });
    };
    std::optional<PersistentStorage> s;
    s.emplace(embedded::BytesView(memory.get() + offset, capacity));
    for (int round = 0; round < 2; ++round)
    {
        for (int i = 0; i < count; ++i)
        {
            All::with(type[i], [&](auto* t)
            {
                using T = std::remove_const_t<std::remove_reference_t<decltype(*t)>>;
                MC_CHECK(s->set(names[i], value<T>(round * 10 + i)), "value %d of type %d, %zu bytes, is not stored", i, type[i], sizeof(T));
            });
            if (round == 0) all(*s, 0, i + 1);
        }
        all(*s, round, count);
        if (round == 0) s.emplace(embedded::BytesView(memory.get() + offset, capacity), false);
    }
    MC_CHECK(!s->set("full", 'x'), "a value is stored in a full storage");
    for (size_t i = 0; i < offset; ++i) MC_CHECK(memory[i] == 0xA5, "a byte before the memory is changed");
    mc::Hash h; h.u(offset); for (int i = 0; i < count; ++i) h.u(type[i]); mc::state(h);
}
