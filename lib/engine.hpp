// Choice-sequence property-based testing engine (generation, parallel search, confirmation, shrinking, replay, evidence).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include "vt_alloc.h"
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

struct Fail { std::string msg; };
struct Skip {};            // case rejected by the generator (not counted)

u64 splitmix(u64 &s);
u64 mix64(u64 a, u64 b);

struct Gen {
    // recording area (shared memory so that it survives a crash of the worker)
    u64 *rec; size_t cap; size_t *n;
    const u64 *replay; size_t nreplay;
    u64 rng; bool replaying;
    std::vector<u64> *dict;              // constants harvested from comparisons in the code under test
    u64 draw(u64 max);                   // uniform in [0,max]
    u64 raw(u64 max, u64 v);             // record v (or replayed value), clamped to max
    u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo); }
    bool chance(u64 num, u64 den) { return draw(den - 1) >= den - num; } // 0 -> false
    bool flip() { return draw(1) != 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
    // weighted alternative: index
    size_t weighted(std::initializer_list<unsigned> w);
    u64 u64v();                          // interesting 64-bit value
    size_t size(size_t max, size_t blk = 16); // interesting size in [0,max]
    Bytes bytes(size_t n);               // interesting content
    void fill(u8 *p, size_t n);
    Bytes sbytes(size_t max, size_t blk = 16) { return bytes(size(max, blk)); }
    // random cut points of n: returns chunk lengths summing to n, each cut a multiple of `mult` (except total)
    std::vector<size_t> chunks(size_t n, size_t mult = 1, bool empties = true);
};

struct Case {
    bool nontriv = false;
    std::string note;
    std::vector<std::string> labels;
    void nontrivial() { nontriv = true; }
    void label(const std::string &s) { labels.push_back(s); }
    void say(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    bool want_note = false;
    u64 salt = 0; // additional discriminator of the case fingerprint
};

struct Prop {
    const char *id;
    const char *rule;                      // how cases are made, what is non-trivial
    void (*run)(Gen &g, Case &c);
    u64 quick_cases, thorough_cases;
    double case_cpu_s = 20;                // CPU limit per case (hang detection)
    std::vector<std::string> assumptions = {};
    // deterministic cases (enumerations) run before the random ones; index in [0,nfixed)
    u64 nfixed = 0;
    void (*fixed)(u64 i, Gen &g, Case &c) = nullptr;
    double fixed_cpu_s = 0;                // CPU limit for an enumerated case (0: as case_cpu_s)
};
extern Prop PROP; // defined by the check
extern int g_thorough;

std::string hex(const void *p, size_t n, size_t lim = 96);
inline std::string hex(const Bytes &b, size_t lim = 96) { return hex(b.data(), b.size(), lim); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Exact-size heap buffer: ASan redzones directly before and after.
struct Buf {
    u8 *p; size_t n;
    explicit Buf(size_t n_, u8 fill = 0xCC) : p((u8 *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n ? n : 1); if (!n) poison0(); }
    explicit Buf(const Bytes &b) : Buf(b.size()) { if (n) memcpy(p, b.data(), n); }
    Buf(const Buf &) = delete;
    void poison0();
    void unpoison0();
    ~Buf() { if (!n) unpoison0(); free(p); }
    Bytes v() const { return Bytes(p, p + n); }
    operator u8 *() { return p; }
};
