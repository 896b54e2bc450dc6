// Small property-based testing engine: one property per executable.
//
// A case is a pure function of a sequence of bounded draws.  The draws come from a seeded generator, from a recorded
// sequence (replay, shrinking) or from fuzzer bytes.  Cases run in forked children, so that a crash, a sanitizer
// report or a hang is an observation about one case and not the end of the run.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail {};     // thrown after the failure has been recorded in the case
struct Discard {};  // the generated case is outside the property's domain (counted)

class Src {
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    Src() = default;
    // uniform in [0, n)
    uint32_t below(uint32_t n);
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)wide((uint64_t)(hi - lo) + 1); }
    uint64_t wide(uint64_t n);  // [0, n), n may exceed 2^32
    uint64_t raw64() { return ((uint64_t)below(1u << 16) << 48) | ((uint64_t)below(1u << 16) << 32) | ((uint64_t)below(1u << 16) << 16) | below(1u << 16); }
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }  // shrinks towards false
    size_t weighted(std::initializer_list<uint32_t> w) {
        uint32_t t = 0;
        for (auto x : w) t += x;
        uint32_t r = below(t);
        size_t i = 0;
        for (auto x : w) {
            if (r < x) return i;
            r -= x;
            i++;
        }
        return 0;
    }
    // lengths: mostly small, sometimes up to max
    size_t len(size_t max) {
        switch (weighted({6, 3, 1})) {
            case 0: return below((uint32_t)std::min<size_t>(max, 6) + 1);
            case 1: return below((uint32_t)std::min<size_t>(max, 24) + 1);
            default: return below((uint32_t)max + 1);
        }
    }
    template <class V> auto&& pick(V& v) { return v[below((uint32_t)v.size())]; }
    template <class T, size_t N> T& pick(T (&v)[N]) { return v[below(N)]; }

    Mode mode = RANDOM;
    uint64_t st = 0;
    const uint32_t* in = nullptr;
    size_t inlen = 0, inpos = 0;
    const uint8_t* bytes = nullptr;
    size_t nbytes = 0, bpos = 0;
    uint32_t* out = nullptr;  // recording (shared memory)
    size_t outcap = 0;
    volatile uint64_t* outlen = nullptr;
    uint64_t hash = 1469598103934665603ull;
    uint64_t ndraws = 0;
private:
    uint64_t next();
};

class Case {
public:
    Src& s;
    bool trace = false;
    bool nontrivial = false;
    bool failed = false;
    std::string msg;
    std::string notes;
    uint64_t khash = 0;
    bool haskey = false;
    explicit Case(Src& s) : s(s) {}
    void label(const char* name);
    // folds a semantic component into the identity of the case (default identity: the draws)
    void key(uint64_t v) {
        haskey = true;
        khash = (khash ^ (v + 0x9e3779b97f4a7c15ull + (khash << 6) + (khash >> 2))) * 1099511628211ull;
    }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // Records the failure and throws.  The record is sticky: code under test which swallows exceptions cannot hide it.
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // Same, without throwing (for callbacks called through code under test)
    void flag(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void discard() { throw Discard{}; }
};

#define PBT_CHECK(c, cond, ...)                                             \
    do {                                                                    \
        if (!(cond)) (c).fail(__VA_ARGS__);                                 \
    } while (0)
#define PBT_NOTE(c, ...)                                                    \
    do {                                                                    \
        if ((c).trace) (c).note(__VA_ARGS__);                               \
    } while (0)

std::string printable(const std::string& s);

// Number of heap blocks currently allocated (address-sanitizer builds, after install_alloc_hooks)
void install_alloc_hooks();
bool alloc_accounting();
int64_t live_allocs();

}  // namespace pbt

// Supplied by each property
extern const char* const kProperty;
extern const char* const kRule;  // how cases are made and what makes one non-trivial
void property_case(pbt::Case& c);
// May be defined by a property: called once per child before its first case (default does nothing)
void property_setup();
