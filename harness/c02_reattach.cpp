// C02: re-attachment at every point of every short history; initialisation of any memory.
#include "ps_common.h"
using namespace ps;

namespace
{
const std::vector<std::string> kNames = { "a", "abc", "abcd", "", "abcde" };
const std::vector<int> kSmall = { 0, 1, 2, 3 };

void store(Object &o, Model &m, const std::string &name, int size, int seed)
{
    const Bytes v = pattern(size, seed);
    const bool expected = m.set(name, size, v);
    const bool done = set(*o, name, size, v);
    mc::note("set(\"%s\", %zu bytes, seed %d) -> %d", name.c_str(), kSizes[size], seed, done);
    MC_CHECK(done == expected, "set(\"%s\", %zu bytes) reports %d with %zu of %zu bytes used", name.c_str(), kSizes[size], done, m.used, m.capacity);
}
}

MC_SCENARIO(histories, 16, 4)
{
    static const size_t capacities[] = { 0, 5, 6, 7, 13, 14, 16, 20, 21, 34 };
    static const int fills[] = { 0x07, 0x00, 0xFF };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Memory mem(m.capacity, fills[mc::choose(mc::thorough ? 3 : 1, "memory before")]);
    Object o;
    o.attach(mem.view(), true);
    const int depth = mc::thorough ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        switch (mc::choose(3, "operation"))
        {
            case 0:
            {
                const auto &name = mc::pick(kNames, "name");
                const int size = mc::pick(kSmall, "size");
                // values that look like records, and values of zeros
                static const int seeds[] = { 0x00, 0x06 };
                store(o, m, name, size, mc::pick(seeds, "value"));
                break;
            }
            case 1:
                mc::note("re-attach");
                o.attach(mem.view(), false);
                break;
            default:
                mc::note("initialise");
                if (i & 1) o.attach(mem.view(), true); else o.attach(mem.view());
                m.entries.clear(); m.used = 0;
        }
        check(*o, m, kNames, kSmall, "same object");
        // a second object on a copy of the memory, as after a restart: same answers to loads and stores
        for (int size : std::vector<int> { 0, 2 })
        {
            Memory copy(mem.n);
            memcpy(copy.p.get(), mem.p.get(), mem.n);
            Object again;
            Model m2 = m;
            again.attach(copy.view(), false);
            if (size == 0) { check(*again, m, kNames, kSmall, "after re-attachment"); phantoms(*again, copy.view(), m, kSmall, "after re-attachment"); }
            store(again, m2, "new", size, 0x55);
            store(again, m2, "a", size, 0x66);
            again.attach(copy.view(), false);
            phantoms(*again, copy.view(), m2, kSmall, "after re-attachment and stores");
            check(*again, m2, { "new", "a", "ab", "abcd", "" }, kSmall, "after re-attachment and stores");
        }
        mc::Hash h; m.hash(h); o.hash(h, mem);
        mc::state(h);
        if (mc::seen(h, depth - i)) mc::prune();
    }
    mc::Hash h; m.hash(h); mc::outcome(h);
}

// few entries, long histories (no merging of histories that lead to the same state)
MC_SCENARIO(deep, 48, 3)
{
    static const std::vector<std::string> names = { "a", "ab" };
    static const std::vector<int> sizes = { 0, 1 };
    static const size_t capacities[] = { 24, 15 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Memory mem(m.capacity, 0x07);
    Object o;
    o.attach(mem.view(), true);
    for (int i = 0; i < (mc::thorough ? 8 : 6); ++i)
    {
        const int op = mc::choose(6, "operation");
        if (op < 4) store(o, m, names[op & 1], sizes[op >> 1], 0x21 * (i + 1));
        else
        {
            mc::note(op == 4 ? "re-attach" : "initialise");
            o.attach(mem.view(), op == 5);
            if (op == 5) { m.entries.clear(); m.used = 0; }
        }
        check(*o, m, names, sizes, "same object");
        Memory copy(mem.n);
        memcpy(copy.p.get(), mem.p.get(), mem.n);
        Object again;
        again.attach(copy.view(), false);
        check(*again, m, names, sizes, "after re-attachment");
    }
    mc::Hash h; m.hash(h); o.hash(h, mem); mc::state(h); mc::outcome(h);
}
// names of every character at every place
MC_SCENARIO(everyCharacter, 4, 1)
{
    static const char* const around[] = { "", "x", "xy", "xyz" };
    const std::string others = mc::pick(around, "others");
    const size_t place = size_t(mc::choose(int(others.size()) + 1, "place"));
    const int size = mc::choose(2, "value size");
    const bool often = mc::flag("re-attach after every store");
    Model m;
    m.capacity = 256 * (kOverhead + kSizes[size]) + 3;
    Memory mem(m.capacity, 0x07);
    Object o;
    o.attach(mem.view(), true);
    std::vector<std::string> all;
    for (int k = 0; k < 256; ++k)
    {
        const int c = k * 77 & 255;
        if (place == others.size() && c == 0) continue;
        std::string name = others;
        name.insert(place, 1, char(c));
        store(o, m, name, size, c);
        if (often || k == 255) { o.attach(mem.view(), false); check(*o, m, { name }, { size }, "after re-attachment"); }
        all.push_back(name);
        if (k % 16 == 15) check(*o, m, all, { size }, "every character");
    }
    o.attach(mem.view(), false);
    check(*o, m, all, { 0, 1 }, "every character, after re-attachment");
    for (auto &name : all) store(o, m, name, size, 3);
    mc::Hash h; m.hash(h); mc::state(h); mc::outcome(h);
}

MC_SCENARIO(largeValues, 8, 2)
{
    static const std::vector<std::string> names = { "a", "zz" };
    static const std::vector<int> sizes = { 0, 5, 6, 7, 8, 9, 10, 11 };
    static const size_t capacities[] = { 256, 257, 512, 65535, 65536, 70006, 150000, 140000 };
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    for (int i = 0; i < (mc::thorough ? 4 : 3); ++i)
    {
        store(o, m, names[i & 1], mc::pick(sizes, "size"), 0x11 * (i + 1));
        o.attach(mem.view(), false);
        check(*o, m, names, sizes, "after re-attachment");
        mc::Hash h; m.hash(h); mc::state(h);
    }
    mc::Hash h; m.hash(h); mc::outcome(h);
}

MC_SCENARIO(manyRecords, 8, 3)
{
    const int size = mc::choose(4, "value size");
    static const int counts[] = { 1, 40, 255, 257, 700, 5000 };
    const int count = mc::pick(counts, "records");
    const size_t slack = size_t(mc::choose(8, "slack"));
    if (count == 5000 && (size != 3 || slack > 0)) return;
    Model m;
    m.capacity = size_t(count) * (kOverhead + kSizes[size]) + slack;
    Memory mem(m.capacity);
    Object o;
    o.attach(mem.view(), true);
    auto name = [](int i) { char b[8]; snprintf(b, sizeof b, "%d", i); return std::string(b); };
    std::vector<std::string> all;
    for (int i = 0; i < count; ++i)
    {
        // re-attach now and then while filling
        if (i % 50 == 49) o.attach(mem.view(), false);
        if (count <= 1000 || i % 100 == 0 || i > count - 10) all.push_back(name(i));
        if (count <= 1000) store(o, m, name(i), size, i);
        else
        {
            // (unverified fill: the map look-up of the storage is linear)
            m.set(name(i), size, pattern(size, i));
            MC_CHECK(set(*o, name(i), size, pattern(size, i)), "store %d of %d refused", i, count);
            if (i % 100 == 0) mc::step();
        }
    }
    o.attach(mem.view(), false);
    check(*o, m, all, { size, 0 }, "full, after re-attachment");
    store(o, m, "more", 0, 1);
    store(o, m, "mor1", 1, 1);
    all.push_back("more");
    o.attach(mem.view(), false);
    check(*o, m, all, { size, 0 }, "full, after another store and re-attachment");
    o.attach(mem.view(), true);
    m.entries.clear(); m.used = 0;
    check(*o, m, all, { size, 0 }, "initialised");
    o.attach(mem.view(), false);
    check(*o, m, all, { size, 0 }, "initialised and re-attached");
    for (int i = 0; i < std::min(count, 300); ++i) store(o, m, name(i), size, i + 1);
    mc::Hash h; m.hash(h); mc::state(h); mc::outcome(h);
}
