// C04: attaching, loading and storing on every small memory image, and on every structured larger one.
// Each image is a heap block of exactly its length: the address sanitizer sees any access outside.
#include "ps_common.h"
using namespace ps;

namespace
{
void use(const Memory &original, const std::vector<int> &sizes, const std::vector<std::string> &names, int storeName, int storeSize, int byte = -1)
{
    Memory mem(original.n);
    memcpy(mem.p.get(), original.p.get(), mem.n);
    PersistentStorage s(mem.view(), false);
    for (auto &name : names) for (int size : sizes) { get(s, name, size); }
    mc::step(names.size() * sizes.size());
    MC_CHECK(memcmp(mem.p.get(), original.p.get(), mem.n) == 0, "attaching or loading changed the memory");
    // any value, and values of the same byte throughout
    const Bytes v = byte < 0 ? pattern(storeSize, 0x91) : Bytes(kSizes[storeSize], uint8_t(byte)), w = byte < 0 ? pattern(storeSize, 0x17) : Bytes(kSizes[storeSize], uint8_t(~byte));
    const bool done = set(s, names[storeName], storeSize, v);
    mc::note("store \"%s\" (%zu bytes) -> %d", names[storeName].c_str(), kSizes[storeSize], done);
    if (done)
    {
        auto got = get(s, names[storeName], storeSize);
        MC_CHECK(got && *got == v, "stored value does not load");
        PersistentStorage t(mem.view(), false);
        got = get(t, names[storeName], storeSize);
        MC_CHECK(got && *got == v, "stored value does not load after re-attachment");
        // overwrite, and another one next to it
        MC_CHECK(set(t, names[storeName], storeSize, w), "overwriting fails");
        const bool more = set(t, "zz", 0, pattern(0, 0x55));
        got = get(t, names[storeName], storeSize);
        MC_CHECK(got && *got == w, "overwritten value does not load");
        got = get(t, "zz", 0);
        MC_CHECK(!more || (got && *got == pattern(0, 0x55)), "second stored value does not load");
        PersistentStorage u(mem.view(), false);
        got = get(u, names[storeName], storeSize);
        MC_CHECK(got && *got == w, "overwritten value does not load after re-attachment");
        got = get(u, "zz", 0);
        MC_CHECK(!more || (got && *got == pattern(0, 0x55)), "second stored value does not load after re-attachment");
    }
    mc::step();
}
}

// every image of up to 8 (thorough: 9) bytes over an alphabet of interesting bytes
MC_SCENARIO(everySmallImage, 64, 4)
{
    static const uint8_t alphabet[] = { 0, 1, 6, 7, 8, 0xFF };
    static const std::vector<std::string> names = { "", "a", "\x01" };
    static const std::vector<int> sizes = { 0, 1 };
    const int n = mc::choose(mc::thorough ? 10 : 9, "length");
    Memory mem(n);
    for (int i = 0; i < n; ++i)
        // the sixth and later bytes matter less
        mem.p[i] = i < 5 || mc::thorough ? mc::pick(alphabet) : alphabet[mc::choose(3) * 2];
    mc::state(mc::Hash().u(n).bytes(mem.p.get(), n));
    use(mem, sizes, names, 0, 0);
    use(mem, sizes, names, 1, 1);
    use(mem, sizes, names, 1, 0, 0x00);
    use(mem, sizes, names, 0, 0, 0xFF);
}

// chains of up to three (thorough: four) records with every kind of size field, in memories of every length
MC_SCENARIO(chains, 32, 3)
{
    static const std::vector<std::string> names = { "", "a", "abcd", "\xff\xff\xff\xff" };
    static const std::vector<int> sizes = { 0, 2, 3 };
    const size_t n = size_t(mc::choose(mc::thorough ? 48 : 34, "length"));
    Memory mem(n, 0);
    const int fill = mc::choose(4, "filler");
    for (size_t i = 0; i < n; ++i) { static const char f[] = "a\0\0\0abcd"; mem.p[i] = fill == 0 ? 0 : fill == 1 ? 0xFF : fill == 2 ? 6 : uint8_t(f[i % 8]); }
    size_t pos = 0;
    for (int r = 0; r < (mc::thorough ? 4 : 3) && pos + 2 <= n; ++r)
    {
        const size_t rest = n - pos;
        const size_t cand[] = { 0, 7, 10, 14, 6, 1, 2, 5, 8, rest - 1, rest, rest + 1, 0xFF, 0x100, 0xFFFF, 0xFFFF - (pos & 0xFFFF), 0x10000 - pos };
        const size_t v = mc::pick(cand, "size field") & 0xFFFF;
        mem.p[pos] = uint8_t(v); mem.p[pos + 1] = uint8_t(v >> 8);
        if (pos + 6 <= n && fill == 3) memcpy(mem.p.get() + pos + 2, r == 0 ? "a\0\0\0" : "abcd", 4);
        if (v < 2 || v > rest) break;
        pos += v;
    }
    mc::state(mc::Hash().u(n).bytes(mem.p.get(), n));
    for (int s = 0; s < 3; ++s)
    {
        use(mem, sizes, names, s == 2 ? 3 : s, sizes[s]);
        use(mem, sizes, names, s == 2 ? 1 : 2 - s, sizes[s], s == 1 ? 0xFF : 0x00);
    }
}

// lengths and sizes around and beyond 16 bits
MC_SCENARIO(large, 16, 2)
{
    static const std::vector<std::string> names = { "", "a", "\xff\xff\xff\xff" };
    static const std::vector<int> sizes = { 0, 9, 10 };
    static const size_t lengths[] = { 255, 256, 257, 65534, 65535, 65536, 65537, 65541, 65542, 131070, 131072, 131080, 200000 };
    const size_t n = mc::pick(lengths, "length");
    static const int fills[] = { 0xFF, 0x00, 0x06, 0x80 };
    Memory mem(n, mc::pick(fills, "filler"));
    size_t pos = 0;
    for (int r = 0; r < (mc::thorough ? 4 : 3) && pos + 2 <= n; ++r)
    {
        const size_t cand[] = { 0xFFFF, 0x8000, 0xFFFA, 6, n - pos, n - pos + 1, 7, 65535 - 6 };
        const size_t v = mc::pick(cand, "size field") & 0xFFFF;
        mem.p[pos] = uint8_t(v); mem.p[pos + 1] = uint8_t(v >> 8);
        if (v < 6) break;
        pos += v;
    }
    if (pos + 2 <= n && mc::flag("then free")) mem.p[pos] = mem.p[pos + 1] = 0;
    mc::state(mc::Hash().u(n).bytes(mem.p.get(), std::min<size_t>(n, 64)).u(pos));
    const int size = sizes[mc::choose(3, "value size")];
    use(mem, sizes, names, 1, size);
    use(mem, sizes, names, 1, size, 0);
}

// no memory at all, with and without initialisation, and initialisation of garbage
MC_SCENARIO(nothing, 1, 0)
{
    const bool init = mc::flag("initialise");
    PersistentStorage s(embedded::BytesView {}, init);
    for (int size : { 0, 1, 2, 9 })
    {
        MC_CHECK(!get(s, "a", size) && !get(s, "", size), "an empty memory holds something");
        MC_CHECK(!set(s, "a", size, pattern(size, 1)) && !set(s, "", size, pattern(size, 1)), "something is stored in an empty memory");
        mc::step();
    }
    Memory mem(size_t(mc::choose(20, "length")), 0xFF);
    PersistentStorage t(mem.view(), true);
    MC_CHECK(!get(t, "a", 0) && !get(t, "\xff\xff\xff\xff", 0), "an initialised memory holds something");
    MC_CHECK(set(t, "a", 0, pattern(0, 1)) == (mem.n >= 7), "initialised memory of %zu bytes", mem.n);
}

// memory that does not begin at an aligned address
MC_SCENARIO(unaligned, 1, 0)
{
    const size_t off = size_t(mc::choose(4, "offset")), n = size_t(mc::choose(24, "length"));
    std::unique_ptr<uint8_t[]> p(new uint8_t[off + n]);
    memset(p.get(), mc::flag() ? 0x06 : 0, off + n);
    PersistentStorage s(embedded::BytesView { p.get() + off, n }, false);
    if (set(s, "a", 0, pattern(0, 3))) { auto g = get(s, "a", 0); MC_CHECK(g && *g == pattern(0, 3), "stored value does not load"); }
    mc::step();
}
