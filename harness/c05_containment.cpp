// C05: every short sequence of insertions and settings, on buffers of every small size.
#include "bo_common.h"
#include <limits>
using namespace bo;

namespace
{
// exactly sized heap copies, so that reading past the end of a text is seen as well
const char* heapText(const std::string &s) { static std::vector<std::unique_ptr<char[]>> keep; keep.emplace_back(new char[s.size() + 1]); memcpy(keep.back().get(), s.c_str(), s.size() + 1); return keep.back().get(); }

struct Op { const char* name; void (*apply)(BufferedOut &); };
const Op kOps[] = {
    { "'c'", [](BufferedOut &b) { b << 'c'; } },
    { "addChar", [](BufferedOut &b) { b.addChar('d'); } },
    { "\"\"", [](BufferedOut &b) { b << ""; } },
    { "\"xyz\"", [](BufferedOut &b) { static const char* p = heapText("xyz"); b << p; } },
    { "sv \"abcd\"", [](BufferedOut &b) { static const char* p = heapText("abcd"); b << std::string_view(p, 4); } },
    { "empty sv", [](BufferedOut &b) { b << std::string_view(); } },
    { "0", [](BufferedOut &b) { b << 0; } },
    { "-12", [](BufferedOut &b) { b << -12; } },
    { "INT_MIN", [](BufferedOut &b) { b << std::numeric_limits<int>::min(); } },
    { "7u", [](BufferedOut &b) { b << 7u; } },
    { "-5l", [](BufferedOut &b) { b << -5l; } },
    { "123ul", [](BufferedOut &b) { b << 123ul; } },
    { "LLONG_MIN", [](BufferedOut &b) { b << std::numeric_limits<long long>::min(); } },
    { "ULLONG_MAX", [](BufferedOut &b) { b << std::numeric_limits<unsigned long long>::max(); } },
    { "byte", [](BufferedOut &b) { b << (unsigned char)(0xA9); } },
    { "3 bytes", [](BufferedOut &b) { static const char* p = heapText("\x01\x02\x03"); b << embedded::ConstBytesView((const uint8_t*)p, 3); } },
    { "0 bytes", [](BufferedOut &b) { b << embedded::ConstBytesView(); } },
    { "-0.5f", [](BufferedOut &b) { b << -0.5f; } },
    { "1234.5f", [](BufferedOut &b) { b << 1234.5f; } },
    { "nan", [](BufferedOut &b) { b << std::nanf(""); } },
    { "-3e38f", [](BufferedOut &b) { b << -3e38f; } },
    { "width 3", [](BufferedOut &b) { b << BufferedOut::width { 3 }; } },
    { "width 7", [](BufferedOut &b) { b << BufferedOut::width { 7 }; } },
    { "width -2", [](BufferedOut &b) { b << BufferedOut::width { -2 }; } },
    { "width INT_MAX", [](BufferedOut &b) { b << BufferedOut::width { std::numeric_limits<int>::max() }; } },
    { "width INT_MIN", [](BufferedOut &b) { b << BufferedOut::width { std::numeric_limits<int>::min() }; } },
    { "fill *", [](BufferedOut &b) { b << BufferedOut::fill { '*' }; } },
    { "precision 2", [](BufferedOut &b) { b << BufferedOut::precision { 2 }; } },
    { "precision -1", [](BufferedOut &b) { b << BufferedOut::precision { -1 }; } },
    { "precision 300", [](BufferedOut &b) { b << BufferedOut::precision { 300 }; } },
};
constexpr int kCount = sizeof kOps / sizeof *kOps;

void apply(Out &o, int op)
{
    const std::string was = o.text();
    kOps[op].apply(*o.b);
    o.views();
    const std::string is = o.text();
    mc::note("%s -> \"%s\"", kOps[op].name, mc::esc(is).c_str());
    MC_CHECK(is.size() >= was.size() && is.compare(0, was.size(), was) == 0, "%s: \"%s\" became \"%s\"", kOps[op].name, mc::esc(was).c_str(), mc::esc(is).c_str());
    mc::step();
}

// after clear() an output behaves as a new one: two probes that show all three settings
void probeCleared(Out &o)
{
    o.b->clear();
    o.views();
    MC_CHECK(o.b->size() == 0, "size() is %zu after clear()", size_t(o.b->size()));
    Out fresh(o.n);
    for (Out* x : { &o, &fresh }) *x->b << 5 << 1.75f << BufferedOut::width { 4 } << 6;
    MC_CHECK(o.text() == fresh.text(), "a cleared output writes \"%s\", a new one \"%s\"", mc::esc(o.text()).c_str(), mc::esc(fresh.text()).c_str());
    o.b->clear();
}
}

MC_SCENARIO(sequences, 64, 2)
{
    static const size_t capacities[] = { 0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 20, 21 };
    Out o(mc::pick(capacities, "capacity"));
    o.views();
    MC_CHECK(o.b->size() == 0, "a new output is not empty");
    const int depth = (mc::thorough ? 4 : 3) + (o.n == 4 || o.n == 8);
    for (int i = 0; i < depth; ++i)
    {
        const int op = mc::choose(kCount + 1, "operation");
        if (op == kCount) { mc::note("clear"); probeCleared(o); }
        else apply(o, op);
        mc::Hash h; o.hash(h); mc::state(h);
        if (mc::seen(h, depth - i)) mc::prune();
    }
    probeCleared(o);
}

// every character and every byte, in every way to insert it, in small buffers
MC_SCENARIO(everyCharacter, 8, 1)
{
    const int c = mc::choose(256, "character");
    for (size_t n = 0; n < 4; ++n)
    {
        for (int way = 0; way < 6; ++way)
        {
            Out o(n);
            for (size_t i = 0; i < 3; ++i)
            {
                const std::string was = o.text();
                const char text[] = { char(c), 0 };
                switch (way)
                {
                    case 0: *o.b << char(c); break;
                    case 1: o.b->addChar(char(c)); break;
                    case 2: *o.b << (const char*)text; break;
                    case 3: *o.b << std::string_view(text, 1); break;
                    case 4: *o.b << (unsigned char)(c); break;
                    default: *o.b << BufferedOut::fill { char(c) } << BufferedOut::width { 2 } << 7;
                }
                o.views();
                const std::string is = o.text();
                MC_CHECK(is.size() >= was.size() && is.compare(0, was.size(), was) == 0, "character %02X: \"%s\" became \"%s\"", c, mc::esc(was).c_str(), mc::esc(is).c_str());
                mc::step();
            }
            probeCleared(o);
        }
    }
    mc::state(mc::Hash().u(c));
}

// few operations, long sequences (no merging of sequences that lead to the same state)
MC_SCENARIO(deep, 48, 3)
{
    static const size_t capacities[] = { 3, 7, 13 };
    Out o(mc::pick(capacities, "capacity"));
    const int depth = mc::thorough ? 8 : 6;
    for (int i = 0; i < depth; ++i)
        switch (mc::choose(7, "operation"))
        {
            case 0: *o.b << "ab"; break;
            case 1: *o.b << -12; break;
            case 2: *o.b << (unsigned char)0xA9; break;
            case 3: *o.b << -0.5f; break;
            case 4: *o.b << BufferedOut::width { 4 }; break;
            case 5: *o.b << BufferedOut::precision { 1 }; break;
            default: o.b->clear();
        }
    o.views();
    mc::step(uint64_t(depth));
    mc::Hash h; o.hash(h); mc::state(h);
    probeCleared(o);
}

// two outputs side by side, in one block of memory: neither sees the other
MC_SCENARIO(twoOutputs, 16, 3)
{
    const size_t na = size_t(mc::choose(5, "capacity a")), nb = size_t(mc::choose(4, "capacity b")) + 1;
    std::unique_ptr<char[]> block(new char[na + nb]);
    memset(block.get(), '#', na + nb);
    BufferedOut a(embedded::MemoryView<char>(block.get(), na)), b(embedded::MemoryView<char>(block.get() + na, nb));
    // shadows that live alone
    Out sa(na), sb(nb);
    for (int i = 0; i < 3; ++i)
    {
        const bool second = mc::flag("which");
        static const int ops[] = { 0, 3, 7, 13, 14, 15, 18, 19, 21, 22, 24, 26, 27, 29 };
        const int op = mc::pick(ops, "operation");
        kOps[op].apply(second ? b : a);
        kOps[op].apply(second ? *sb.b : *sa.b);
        mc::step();
        MC_CHECK(a.asStringView() == sa.b->asStringView() && b.asStringView() == sb.b->asStringView(), "two outputs hold \"%s\" and \"%s\", alone they hold \"%s\" and \"%s\"",
                 mc::esc(std::string(a.asStringView())).c_str(), mc::esc(std::string(b.asStringView())).c_str(), mc::esc(sa.text()).c_str(), mc::esc(sb.text()).c_str());
        mc::Hash h; sa.hash(h); sb.hash(h); mc::state(h);
    }
}

// sizes around and beyond 16 bits
MC_SCENARIO(large, 8, 2)
{
    static const size_t capacities[] = { 255, 256, 32767, 32768, 65535, 65536, 65537, 131072, 200000 };
    Out o(mc::pick(capacities, "capacity"));
    static const size_t firsts[] = { 0, 1, 255, 256, 32768, 65535, 65536, 131000 };
    const size_t k = mc::pick(firsts, "first text");
    const std::string big(k, 'q');
    *o.b << std::string_view(big);
    o.views();
    MC_CHECK(o.text() == big.substr(0, o.n), "a text of %zu characters gives one of %zu", k, size_t(o.b->size()));
    for (int i = 0; i < (mc::thorough ? 2 : 1); ++i)
    {
        apply(o, mc::choose(kCount, "operation"));
        if (mc::flag("fill up")) { const std::string was = o.text(); const std::string rest(o.n - was.size() + 3, 'r'); *o.b << rest.c_str(); o.views(); MC_CHECK(o.text() == (was + rest).substr(0, o.n), "filling up fails"); }
        mc::Hash h; h.u(o.n).u(o.b->size()).u(k).u(i); mc::state(h);
    }
}
// an output in use for a long time: more than 2^16 operations, texts and clearings
MC_SCENARIO(longUse, 8, 1)
{
    const size_t n = size_t(mc::choose(8, "capacity")) * 3;
    const int op = mc::choose(21, "item");
    Out o(n);
    kOps[op].apply(*o.b);
    const std::string first = o.text();
    for (int i = 0; i < 70000; ++i)
    {
        o.b->clear();
        MC_CHECK(o.b->size() == 0 && o.b->asStringView().empty(), "not empty after clearing %d", i);
        kOps[op].apply(*o.b);
        if (i % 64 == 0 || i > 65500) { o.views(); MC_CHECK(o.text() == first, "after %d clearings \"%s\" is written instead of \"%s\"", i, mc::esc(o.text()).c_str(), mc::esc(first).c_str()); }
        // far more than fits: nothing changes any more
        if (i == 100) for (int k = 0; k < 70000; ++k) { kOps[op].apply(*o.b); if (k > 65500) MC_CHECK(o.b->size() <= n, "%zu characters in a buffer of %zu", size_t(o.b->size()), n); }
    }
    mc::step(70000);
    mc::Hash h; h.u(n).u(op); mc::state(h);
}
