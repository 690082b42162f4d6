// Choice-sequence property-based testing engine. See pbt.cpp and DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <memory>

namespace pbt {

struct Rng { // splitmix-seeded xoshiro256** (engine's own; independent of the code under test)
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1);
    uint64_t next();
};

// Source of choices. Every random decision of a generator is drawn here and recorded as bytes,
// so a case is its bytes: replayable, mutable, shrinkable. Zero bytes mean the simplest choice.
struct Src {
    const uint8_t* in = nullptr; size_t inlen = 0, pos = 0; // prefix to replay
    Rng* rng = nullptr;            // continues past the prefix (null: zeros)
    uint8_t* rec; size_t reccap; size_t nrec = 0;
    uint64_t* nrec_shared = nullptr;

    uint64_t raw(int nbytes);
    void put(uint64_t v, int nbytes);
    bool fresh() const { return pos >= inlen && rng; }
    // uniform in [lo,hi]
    uint64_t range(uint64_t lo, uint64_t hi);
    int64_t irange(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + range(0, (uint64_t)hi - (uint64_t)lo)); }
    // true with probability num/den; zero byte = false
    bool chance(unsigned num, unsigned den);
    bool flip() { return chance(1, 2); }
    // index weighted by w; zero = first
    size_t weighted(std::initializer_list<unsigned> w);
    template <class T> const T& pick(const std::vector<T>& v) { return v[range(0, v.size() - 1)]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + range(0, v.size() - 1)); }
    // boundary- and dictionary-biased integer of `bits` bits
    uint64_t u(int bits = 64);
    // biased towards small, reaching max (inclusive)
    size_t size(size_t max);
    std::string bytes(size_t n);
    std::string text(const std::string& alphabet, size_t n);
    // for large inputs: a size up to max, often next to a power of two, and text of that size grown from one choice
    size_t big(size_t max);
    std::string fill(size_t n, const std::string& alphabet = "");
};

struct Ctx {
    bool trace = false;
    bool nontriv = false;
    bool leakcheck = false;   // set by a target: live allocations at the end must equal those at the start
    bool discard = false;
    std::string log;
    void label(const char* name, uint64_t n = 1);
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void tr(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void fail(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

typedef void (*TargetFn)(Src&, Ctx&);
struct Target { const char* name; double weight; TargetFn fn; const char* rule; unsigned flags; };
enum { NONDET = 1, ONCE = 2 };
struct Reg { Reg(const char* n, double w, TargetFn f, const char* rule, unsigned flags); };

extern Ctx* cur;
std::string show(const std::string& s, size_t max = 120);
std::string show(const void* p, size_t n, size_t max = 120);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
// a private scratch directory for this worker process (created on demand, emptied by the driver)
const std::string& scratch();
bool thorough();
unsigned variant_nthreads();

} // namespace pbt

#define TARGET(name, weight, rule) TARGETF(name, weight, rule, 0)
#define TARGETF(name, weight, rule, flags) \
    static void tgt_##name(pbt::Src&, pbt::Ctx&); \
    static pbt::Reg reg_##name(#name, weight, tgt_##name, rule, flags); \
    static void tgt_##name([[maybe_unused]] pbt::Src& g, [[maybe_unused]] pbt::Ctx& c)

#define TR(...) do { if (c.trace) c.tr(__VA_ARGS__); } while (0)
#define GTR(...) do { if (pbt::cur && pbt::cur->trace) pbt::cur->tr(__VA_ARGS__); } while (0)
#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
#define FAIL(...) pbt::fail(__FILE__, __LINE__, __VA_ARGS__)

// A buffer with exactly n usable bytes in its own heap block, so that ASan sees the first byte read or
// written outside it.
struct Exact {
    uint8_t* p; size_t n;
    explicit Exact(size_t n_, int fill = 0xA5) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) {
        if (n_ == 0) { free(p); p = (uint8_t*)malloc(0); }
        if (n) memset(p, fill, n);
    }
    explicit Exact(const std::string& s, bool nul = false) : p((uint8_t*)malloc(s.size() + nul)), n(s.size() + nul) {
        memcpy(p, s.data(), s.size());
        if (nul) p[s.size()] = 0;
    }
    Exact(const Exact&) = delete; Exact& operator=(const Exact&) = delete;
    ~Exact() { free(p); }
    char* c() { return (char*)p; }
};
