// A small property-based testing core.
//
// A property is a function of a choice source (Src). In random mode the source draws from a PRNG that is a pure
// function of (seed, target name, case index) and records every choice; a failing case is re-run from its recorded
// choices in fresh processes, shrunk by editing that list, and saved as the replay file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard {};

typedef std::vector<uint8_t> Bytes;

struct Src {
    enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
    uint64_t s[2] = {1, 2};
    const uint64_t* in = nullptr;
    size_t in_n = 0, pos = 0;
    const uint8_t* raw = nullptr;
    size_t raw_n = 0;

    uint64_t rng();
    uint64_t below(uint64_t n);  // n == 0: any 64-bit value; 0 is the simplest outcome
    uint64_t any() { return below(0); }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool coin() { return below(2) != 0; }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // simplest: false
    size_t large();                                                             // around the sizes where counters and chunks change
    size_t size(size_t lo, size_t hi);                                          // biased to the ends and small sizes
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + below(v.size()));
    }
    Bytes bytes(size_t n);            // one choice: 0 gives zeros, 1 gives 0xff, otherwise pseudo-random
    void fill(void* p, size_t n);
    size_t weighted(std::initializer_list<unsigned> w);
};

struct Ctx {
    uint64_t hash = 0;
    bool nontrivial = false;
};
extern Ctx ctx;

void nontrivial();                          // this case counts as non-trivial by the target's rule
void label(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // classify the case
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // human readable account of the case
bool known_finding(const char* id);         // listed in known_findings.json
void count_excluded(const char* finding);   // a case left out because of a listed finding
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard();
std::string hex(const void* p, size_t n, size_t max = 48);
inline std::string hex(const Bytes& b, size_t max = 48) { return hex(b.data(), b.size(), max); }

#define REQUIRE(cond, ...)                                   \
    do {                                                     \
        if (!(cond)) pbt::fail("[" #cond "] " __VA_ARGS__);  \
    } while (0)

struct Target {
    const char* name;
    void (*fn)(Src&);
    const char* rule;
    unsigned case_timeout_s = 30;
    unsigned batch = 200;     // cases per fresh process
    unsigned attempts = 1;    // above 1: the outcome of a case depends on a schedule the harness does not control
};
std::vector<Target>& targets();
struct Register {
    Register(Target t) { targets().push_back(t); }
};
// PROP(name, rule) { body using src }
#define PROP(NAME, ...)                                                          \
    static void prop_##NAME(pbt::Src& src);                                      \
    static pbt::Register reg_##NAME(pbt::Target{#NAME, prop_##NAME, __VA_ARGS__}); \
    static void prop_##NAME(pbt::Src& src)

// Set by harness code, called by the runner.
extern void (*before_fork)();        // once in the parent, e.g. to build key pools
extern void (*case_begin)(uint64_t); // before each case (argument: per-case seed)
extern void (*case_end)();           // after each case that did not fail; may call fail()
}  // namespace pbt
