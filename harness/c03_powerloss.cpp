// C03: every crash point (every single memory write of the store, and every torn part of each) of every short history.
// The memory is kept read-only while a store runs: each write faults, is executed alone (single step) and recorded.
#include "ps_common.h"
#include <algorithm>
#include <csignal>
#include <set>
#include <sys/mman.h>
#include <ucontext.h>
using namespace ps;

namespace
{
// ---- write tracer ----------------------------------------------------------------------------------------------------
constexpr size_t kRegion = 8192;
uint8_t* region = nullptr;
bool tracing = false;
Bytes* before = nullptr;                              // contents before the current write
size_t tracedSize = 0;
uint8_t* tracedBase = nullptr;
std::vector<Bytes>* images = nullptr;
size_t writes = 0;

void collect()
{
    // the write just done changed these bytes; any part of it may have reached the memory
    std::vector<size_t> changed;
    for (size_t i = 0; i < tracedSize; ++i) if ((*before)[i] != tracedBase[i]) changed.push_back(i);
    ++writes;
    if (changed.empty()) return;
    const size_t n = changed.size();
    auto add = [&](auto &&pred)
    {
        Bytes b = *before;
        for (size_t k = 0; k < n; ++k) if (pred(k)) b[changed[k]] = tracedBase[changed[k]];
        images->push_back(b);
    };
    if (n <= 4)
        for (unsigned mask = 1; mask < (1u << n); ++mask) add([&](size_t k) { return mask >> k & 1; });
    else
    {
        for (size_t cut = 1; cut <= n; ++cut) add([&](size_t k) { return k < cut; });
        for (size_t cut = 1; cut < n; ++cut) add([&](size_t k) { return k >= cut; });
        for (size_t one = 0; one < n; ++one) add([&](size_t k) { return k == one; });
    }
    before->assign(tracedBase, tracedBase + tracedSize);
}

void onSegv(int, siginfo_t* info, void* ctx)
{
    auto a = static_cast<uint8_t*>(info->si_addr);
    if (!tracing || a < region || a >= region + kRegion)
    {
        signal(SIGSEGV, SIG_DFL);
        return;
    }
    mprotect(region, kRegion, PROT_READ | PROT_WRITE);
    static_cast<ucontext_t*>(ctx)->uc_mcontext.gregs[REG_EFL] |= 0x100;
}

void onTrap(int, siginfo_t*, void* ctx)
{
    static_cast<ucontext_t*>(ctx)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    if (!tracing) return;
    collect();
    mprotect(region, kRegion, PROT_READ);
}

void setUp()
{
    if (region) return;
    region = static_cast<uint8_t*>(mmap(nullptr, kRegion + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (region == MAP_FAILED) mc::fail("harness error: mmap");
    mprotect(region + kRegion, 4096, PROT_NONE);
    struct sigaction sa {};
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sa.sa_sigaction = onSegv; sigaction(SIGSEGV, &sa, nullptr);
    sa.sa_sigaction = onTrap; sigaction(SIGTRAP, &sa, nullptr);
}

// the memory of the storage: ends at the end of the region
struct Ram
{
    uint8_t* base; size_t n;
    explicit Ram(size_t n) : base(region + kRegion - n), n(n) { memset(base, 0, n); }
    embedded::BytesView view() const { return { base, n }; }
};

// runs a store and returns every image of the memory an interruption may leave
bool tracedSet(Object &o, const Ram &ram, const std::string &name, int size, const Bytes &v, std::vector<Bytes> &out)
{
    Bytes b(ram.base, ram.base + ram.n);
    out.push_back(b);
    before = &b; images = &out; tracedBase = ram.base; tracedSize = ram.n; writes = 0;
    tracing = true;
    mprotect(region, kRegion, PROT_READ);
    const bool r = set(*o, name, size, v);
    tracing = false;
    mprotect(region, kRegion, PROT_READ | PROT_WRITE);
    std::set<uint64_t> have;
    std::vector<Bytes> distinct;
    for (auto &i : out) if (have.insert(mc::Hash().bytes(i.data(), i.size())).second) distinct.push_back(std::move(i));
    out = std::move(distinct);
    return r;
}

// ---- values ----------------------------------------------------------------------------------------------------------
// sizes by index into kSizes: 0:1 1:2 2:4 3:8 5:250 6:249 7:251 8:300
Bytes value(int size, int kind)
{
    Bytes v(kSizes[size]);
    if (kind == 0) for (size_t i = 0; i < v.size(); ++i) v[i] = uint8_t(0x80 + i * 5);
    else
        // looks like records named "p" with one byte of data, where the record after a shorter one would begin
        for (size_t i = 0; i < v.size(); ++i) { static const uint8_t rec[] = { 7, 0, 'p', 0, 0, 0, 0x77 }; v[i] = rec[(i + (kind == 1 ? 6 : 3)) % 7]; }
    return v;
}

const std::vector<std::string> kProbe = { "a", "bc", "defg", "p", "", "d", "de", "def", "b", "\x07", "zz" };

void store(Object &o, Model &m, const std::string &name, int size, const Bytes &v)
{
    const bool expected = m.set(name, size, v);
    MC_CHECK(set(*o, name, size, v) == expected, "set(\"%s\", %zu bytes) does not report %d", name.c_str(), kSizes[size], expected);
}

// everything the storage must answer after the interruption of a store to `victim`
void checkAfter(embedded::BytesView mem, const Model &m, const std::string &victim, int victimSize, const std::vector<int> &sizes, bool victimFirst, const char* when)
{
    auto others = [&](const PersistentStorage &s, const char* at)
    {
        for (auto &name : kProbe) if (name != victim)
            for (int size : sizes)
            {
                const auto got = get(s, name, size);
                auto it = m.entries.find({ name, size });
                if (it == m.entries.end())
                    MC_CHECK(!got, "%s, %s: \"%s\" (%zu bytes) loads %s, but was never stored", when, at, mc::esc(name).c_str(), kSizes[size], mc::hex(got->data(), got->size()).c_str());
                else
                    MC_CHECK(got && *got == it->second, "%s, %s: \"%s\" (%zu bytes) loads %s instead of %s", when, at, mc::esc(name).c_str(), kSizes[size],
                             got ? mc::hex(got->data(), got->size()).c_str() : "nothing", mc::hex(it->second.data(), it->second.size()).c_str());
            }
    };
    // no entry of any name that the memory may spell either
    auto phantoms = [&](const PersistentStorage &s, const char* at)
    {
        std::string last;
        for (size_t i = 0; i + 4 <= std::min<size_t>(mem.size(), 64); ++i)
        {
            char text[5] = {};
            memcpy(text, mem.begin() + i, 4);
            const std::string name = text;
            if (name == last || name == victim || name == "new") continue;
            last = name;
            for (int size : sizes)
                if (!m.entries.count({ name, size }))
                    MC_CHECK(!get(s, name, size), "%s, %s: \"%s\" (%zu bytes) loads, but was never stored", when, at, mc::esc(name).c_str(), kSizes[size]);
        }
    };
    PersistentStorage s(mem, false);
    others(s, "re-attached");
    if (victimFirst) phantoms(s, "re-attached");
    // usable: further stores of a new name, of the victim and over an existing entry
    const size_t least = m.used, most = m.used + (m.entries.count({ victim, victimSize }) ? 0 : kOverhead + kSizes[victimSize]);
    auto further = [&](PersistentStorage &t, const std::string &name, int size, int seed, size_t usedLow, size_t usedHigh)
    {
        const Bytes v = pattern(size, seed);
        const bool known = name != victim && m.entries.count({ name, size });
        const bool done = set(t, name, size, v);
        if (known) MC_CHECK(done, "%s: overwriting \"%s\" is refused", when, name.c_str());
        else
        {
            MC_CHECK(done || usedHigh + kOverhead + kSizes[size] > m.capacity, "%s: storing \"%s\" (%zu bytes) is refused with at most %zu of %zu bytes used", when, name.c_str(), kSizes[size], usedHigh, m.capacity);
            if (name != victim) MC_CHECK(!done || usedLow + kOverhead + kSizes[size] <= m.capacity, "%s: storing \"%s\" (%zu bytes) succeeds with at least %zu of %zu bytes used", when, name.c_str(), kSizes[size], usedLow, m.capacity);
        }
        if (done)
        {
            const auto got = get(t, name, size);
            MC_CHECK(got && *got == v, "%s: \"%s\" (%zu bytes) stored after the interruption does not load", when, name.c_str(), kSizes[size]);
        }
        return done;
    };
    bool again = false, fresh = false;
    size_t low = least, high = most;
    for (int turn = 0; turn < 2; ++turn)
        if ((turn == 0) == victimFirst)
        {
            again = further(s, victim, victimSize, 0x21, low, high);
            if (again) high += kOverhead + kSizes[victimSize];
            others(s, "after storing it again");
        }
        else
        {
            fresh = further(s, "new", 0, 0x31, low, high);
            if (fresh) { low += kOverhead + 1; high += kOverhead + 1; }
            PersistentStorage t(mem, false);
            others(t, "after a new store and re-attachment");
        }
    for (auto &e : m.entries) if (e.first.first != victim) { MC_CHECK(set(s, e.first.first, e.first.second, e.second), "%s: overwriting is refused", when); }
    PersistentStorage t(mem, false);
    others(t, "re-attached after further stores");
    if (!victimFirst) phantoms(t, "re-attached after further stores");
    if (again)
    {
        const auto got = get(t, victim, victimSize);
        MC_CHECK(got && *got == pattern(victimSize, 0x21), "%s: \"%s\" stored again after the interruption does not load after re-attachment", when, victim.c_str());
    }
    const auto got = get(t, "new", 0);
    MC_CHECK(fresh ? got && *got == pattern(0, 0x31) : !got, "%s: the new name is wrong after re-attachment", when);
    mc::step();
}

struct Choice { std::string name; int size; Bytes v; };
Choice pickStore(const std::vector<int> &sizes, int kinds)
{
    static const std::vector<std::string> names = { "a", "bc", "defg" };
    Choice c;
    c.name = mc::pick(names, "name");
    c.size = mc::pick(sizes, "size");
    const int kind = mc::choose(kinds, "value kind");
    c.v = value(c.size, kind);
    return c;
}

void explore(const std::vector<size_t> &capacities, const std::vector<int> &sizes, int history, int kinds, bool nested)
{
    setUp();
    Model m;
    m.capacity = mc::pick(capacities, "capacity");
    Ram ram(m.capacity);
    Object o;
    o.attach(ram.view(), true);
    std::vector<int> probe = sizes;
    if (std::find(probe.begin(), probe.end(), 0) == probe.end()) probe.push_back(0);
    const int n = mc::choose(history + 1, "stores before");
    for (int i = 0; i < n; ++i)
    {
        const Choice c = pickStore(sizes, kinds);
        store(o, m, c.name, c.size, c.v);
    }
    mc::Hash h; m.hash(h); h.u(n).bytes(ram.base, ram.n);
    const Choice victim = pickStore(sizes, std::max(kinds, 2));
    std::vector<Bytes> imgs;
    const bool done = tracedSet(o, ram, victim.name, victim.size, victim.v, imgs);
    mc::note("store \"%s\" (%zu bytes) -> %d: %zu writes, %zu images", victim.name.c_str(), kSizes[victim.size], done, writes, imgs.size());
    Model after = m;
    MC_CHECK(after.set(victim.name, victim.size, victim.v) == done, "store reports %d", done);
    if (done) { const auto got = get(*o, victim.name, victim.size); MC_CHECK(got && *got == victim.v, "stored value does not load"); }
    for (auto &image : imgs)
    {
        mc::state(mc::Hash(h).str(victim.name).u(victim.size).bytes(image.data(), image.size()));
        memcpy(ram.base, image.data(), image.size());
        mc::note("  image %s", mc::hex(image.data(), image.size()).c_str());
        checkAfter(ram.view(), m, victim.name, victim.size, probe, true, "power lost");
        memcpy(ram.base, image.data(), image.size());
        checkAfter(ram.view(), m, victim.name, victim.size, probe, false, "power lost");
        if (!nested) continue;
        // ... and power lost again, in the first store after the restart
        static const std::vector<std::string> next = { "a", "bc" };
        for (auto &name : next)
        {
            if (name == victim.name) continue;
            memcpy(ram.base, image.data(), image.size());
            Object o2;
            o2.attach(ram.view(), false);
            // what this storage answers now is what must survive
            Model m2;
            m2.capacity = m.capacity;
            for (auto &p : kProbe) for (int s : probe) if (auto got = get(*o2, p, s)) { m2.entries[{ p, s }] = *got; }
            m2.used = m.used;
            for (auto &e : m.entries) if (e.first.first != victim.name) MC_CHECK(m2.entries.count(e.first), "entry lost");
            const int size2 = sizes[0];
            std::vector<Bytes> imgs2;
            const bool done2 = tracedSet(o2, ram, name, size2, value(size2, 1), imgs2);
            for (auto &image2 : imgs2)
            {
                memcpy(ram.base, image2.data(), image2.size());
                Model m3 = m2;
                // the space used is only known within bounds: compare contents only
                PersistentStorage s(ram.view(), false);
                for (auto &p : kProbe) if (p != name) for (int sz : probe)
                {
                    const auto got = get(s, p, sz);
                    auto it = m3.entries.find({ p, sz });
                    MC_CHECK(it == m3.entries.end() ? !got : got && *got == it->second, "power lost twice: \"%s\" (%zu bytes) changed", mc::esc(p).c_str(), kSizes[sz]);
                }
                if (done2)
                {
                    const bool again = set(s, name, size2, pattern(size2, 0x44));
                    const auto got = get(s, name, size2);
                    MC_CHECK(!again || (got && *got == pattern(size2, 0x44)), "power lost twice: storage is not usable");
                    PersistentStorage t(ram.view(), false);
                    const auto got2 = get(t, name, size2);
                    MC_CHECK(!again || (got2 && *got2 == pattern(size2, 0x44)), "power lost twice: stored value is lost at re-attachment");
                    for (auto &p : kProbe) if (p != name) for (int sz : probe)
                    {
                        const auto g = get(t, p, sz);
                        auto it = m3.entries.find({ p, sz });
                        MC_CHECK(it == m3.entries.end() ? !g : g && *g == it->second, "power lost twice, later: \"%s\" (%zu bytes) changed", mc::esc(p).c_str(), kSizes[sz]);
                    }
                }
                mc::state(mc::Hash(h).u(7).bytes(image2.data(), image2.size()));
                mc::step();
            }
        }
    }
    mc::outcome(mc::Hash(h).u(imgs.size()));
}
}

MC_SCENARIO(small, 32, 5)
{
    static const std::vector<size_t> capacities = { 8, 24, 47, 64 };
    static const std::vector<int> sizes = { 0, 2, 3 };
    explore(capacities, sizes, mc::thorough ? 3 : 2, mc::thorough ? 3 : 1, false);
}

MC_SCENARIO(twice, 16, 4)
{
    static const std::vector<size_t> capacities = { 40, 64 };
    static const std::vector<int> sizes = { 0, 3 };
    explore(capacities, sizes, mc::thorough ? 2 : 1, mc::thorough ? 2 : 1, true);
}

// record sizes whose two bytes may be torn
MC_SCENARIO(large, 16, 4)
{
    static const std::vector<size_t> capacities = { 700 };
    static const std::vector<int> sizes = { 5, 6, 7, 8 };
    explore(capacities, sizes, mc::thorough ? 2 : 1, 2, false);
}
