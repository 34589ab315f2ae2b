// A small explicit-choice model checker for C++ code that is executed for real.
//
// A scenario body is run once for every complete sequence of choices it makes through
// choose()/deviate() (depth-first, exhaustive: no sampling, no cap).  The body drives the code under
// test, compares it with a reference model on every step, and calls MC_CHECK on the result.
// Scenarios are split into shards and run in forked workers; the parent watches them for failed
// checks, crashes (sanitizer reports included) and lack of progress (non-termination).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <initializer_list>

namespace mc
{
extern bool thorough;        // tier
extern bool logging;         // notes are being recorded (replay or sampled execution)

struct Prune {};             // abandons the current execution (not an error)

int choose(int n, const char* what = "");         // every value 0..n-1 is explored
inline bool flag(const char* what = "") { return choose(2, what) != 0; }
template<typename T, size_t N> const T &pick(const T (&a)[N], const char* what = "") { return a[choose(int(N), what)]; }
template<typename T> const T &pick(const std::vector<T> &a, const char* what = "") { return a[choose(int(a.size()), what)]; }
// A departure from the default environment answer 0: explored only while the deviation budget lasts.
void budget(int deviations);
int deviate(int n, const char* what = "");

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void step();                              // one transition of the implementation, compared with the model
void step(uint64_t n);
void state(uint64_t hash);                // a (canonical) state reached
bool seen(uint64_t hash, int remaining);  // true: state already explored with at least `remaining` steps to go
void outcome(uint64_t hash);              // an observed final outcome
inline void prune() { throw Prune {}; }

struct Hash
{
    uint64_t h = 0x9E3779B97F4A7C15ull;
    Hash &u(uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return *this;
    }
    Hash &bytes(const void* p, size_t n)
    {
        auto b = static_cast<const unsigned char*>(p);
        while (n >= 8) { uint64_t v; __builtin_memcpy(&v, b, 8); u(v); b += 8; n -= 8; }
        uint64_t v = n; for (size_t i = 0; i < n; ++i) v = (v << 8) | b[i];
        return u(v);
    }
    Hash &str(const std::string &s) { u(s.size()); return bytes(s.data(), s.size()); }
    operator uint64_t() const { return h; }
};

std::string hex(const void* p, size_t n);
std::string esc(const std::string &s);

struct Scenario
{
    const char* name;
    int shards;          // number of independent parts it may be split into
    int shardDepth;      // how many leading choices select the part
    void (*body)();
    bool thoroughOnly;
    Scenario* next;
    Scenario(const char* name, int shards, int shardDepth, void (*body)(), bool thoroughOnly = false);
};
}

#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)
// MC_SCENARIO(name, shards, shardDepth) { body }
#define MC_SCENARIO(name, shards, depth) \
    static void mc_body_##name(); \
    static ::mc::Scenario mc_reg_##name(#name, shards, depth, mc_body_##name); \
    static void mc_body_##name()
#define MC_SCENARIO_THOROUGH(name, shards, depth) \
    static void mc_body_##name(); \
    static ::mc::Scenario mc_reg_##name(#name, shards, depth, mc_body_##name, true); \
    static void mc_body_##name()
