// Reference model and typed access for PersistentStorage (C01-C04).
#pragma once
#include "mc.h"
#include "PersistentStorage.h"
#include <cstring>
#include <map>
#include <new>
#include <optional>
#include <string>
#include <vector>

namespace ps
{
using embedded::PersistentStorage;
using Bytes = std::vector<uint8_t>;

template<size_t N> struct Val { uint8_t b[N]; };

// every value size used by the harnesses
constexpr size_t kSizes[] = { 1, 2, 4, 8, 3, 250, 249, 251, 300, 5000, 65529, 65530, 65531, 70000 };
constexpr int kSizeCount = sizeof kSizes / sizeof *kSizes;

template<size_t I = 0, typename F>
auto withSize(int index, F &&f)
{
    if constexpr (I + 1 < kSizeCount) { if (index != int(I)) return withSize<I + 1>(index, f); }
    return f(std::integral_constant<size_t, kSizes[I]> {});
}

inline bool set(PersistentStorage &s, const std::string &name, int size, const Bytes &v)
{
    return withSize(size, [&](auto n)
    {
        auto x = std::make_unique<Val<n>>();
        memcpy(x->b, v.data(), n);
        return s.set(std::string_view(name), *x);
    });
}

inline std::optional<Bytes> get(const PersistentStorage &s, const std::string &name, int size)
{
    return withSize(size, [&](auto n) -> std::optional<Bytes>
    {
        const auto r = s.template get<Val<n>>(std::string_view(name));
        if (!r) return std::nullopt;
        return Bytes(r->b, r->b + n);
    });
}

inline Bytes pattern(int size, int seed)
{
    Bytes v(kSizes[size]);
    for (size_t i = 0; i < v.size(); ++i) v[i] = uint8_t(seed + i * 7 + (i >> 8));
    return v;
}

constexpr size_t kOverhead = 6;

// what the storage must be
struct Model
{
    size_t capacity = 0, used = 0;
    std::map<std::pair<std::string, int>, Bytes> entries;
    bool canHold(const std::string &name, int size) const { return name.size() <= 4 && kSizes[size] + kOverhead <= 65535; }
    bool set(const std::string &name, int size, const Bytes &v)
    {
        if (!canHold(name, size)) return false;
        auto it = entries.find({ name, size });
        if (it != entries.end()) { it->second = v; return true; }
        if (used + kSizes[size] + kOverhead > capacity) return false;
        used += kSizes[size] + kOverhead;
        entries[{ name, size }] = v;
        return true;
    }
    void hash(mc::Hash &h) const
    {
        h.u(capacity).u(used);
        for (auto &e : entries) h.str(e.first.first).u(e.first.second).bytes(e.second.data(), e.second.size());
    }
};

inline void check(const PersistentStorage &s, const Model &m, const std::vector<std::string> &names, const std::vector<int> &sizes, const char* when)
{
    for (auto &name : names)
        for (int size : sizes)
        {
            const auto got = get(s, name, size);
            auto it = m.entries.find({ name, size });
            if (it == m.entries.end())
                MC_CHECK(!got, "%s: \"%s\" (%zu bytes) loads %s, but was never stored", when, mc::esc(name).c_str(), kSizes[size], mc::hex(got->data(), got->size()).c_str());
            else
                MC_CHECK(got && *got == it->second, "%s: \"%s\" (%zu bytes) loads %s instead of %s", when, mc::esc(name).c_str(), kSizes[size],
                         got ? mc::hex(got->data(), got->size()).c_str() : "nothing", mc::hex(it->second.data(), it->second.size()).c_str());
            mc::step();
        }
}

// nor is there an entry of any other name that the memory spells
inline void phantoms(const PersistentStorage &s, embedded::BytesView mem, const Model &m, const std::vector<int> &sizes, const char* when)
{
    for (size_t i = 0; i + 4 <= std::min<size_t>(mem.size(), 64); ++i)
    {
        char text[5] = {};
        memcpy(text, mem.begin() + i, 4);
        for (int size : sizes)
            if (!m.entries.count({ text, size }))
                MC_CHECK(!get(s, text, size), "%s: \"%s\" (%zu bytes) loads, but was never stored", when, mc::esc(text).c_str(), kSizes[size]);
    }
}

// memory of exactly the given size: the sanitizer watches both ends
struct Memory
{
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit Memory(size_t n, int fill = 0xA5) : p(new uint8_t[n]), n(n) { memset(p.get(), fill, n); }
    embedded::BytesView view() const { return { p.get(), n }; }
};

// a storage object whose bytes can be hashed
struct Object
{
    alignas(PersistentStorage) unsigned char raw[sizeof(PersistentStorage)];
    PersistentStorage* s = nullptr;
    void attach(embedded::BytesView v, bool init) { memset(raw, 0, sizeof raw); s = new (raw) PersistentStorage(v, init); }
    void attach(embedded::BytesView v) { memset(raw, 0, sizeof raw); s = new (raw) PersistentStorage(v); }   // initialises unless told otherwise
    PersistentStorage* operator->() { return s; }
    PersistentStorage &operator*() { return *s; }
    void hash(mc::Hash &h, const Memory &m) const
    {
        // everything but the address of the memory
        for (size_t i = 0; i + 8 <= sizeof raw; i += 8)
        {
            uint64_t w; memcpy(&w, raw + i, 8);
            const auto base = reinterpret_cast<uint64_t>(m.p.get());
            h.u(w >= base && w <= base + m.n ? w - base : w);
        }
        h.bytes(m.p.get(), m.n);
    }
};
}
