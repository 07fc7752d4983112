#include "sym.hpp"
extern "C" {
#include <cry/memxor.h>
}
static void two(Case &c, size_t n, size_t d, size_t s, size_t tot, Bytes a)
{
    Bytes w = a; for (size_t i = 0; i < n; i++) w[d + i] = a[d + i] ^ a[s + i]; Buf b(a); cry_memxor(b.p + d, b.p + s, n); expect_bytes(c, b.v(), w, "memxor", fmt("n=%zu dst=%zu src=%zu arena=%zu", n, d, s, tot));
}
static void three(Case &c, size_t n, size_t d, size_t s, size_t t, size_t tot, Bytes a)
{
    Bytes w = a; for (size_t i = 0; i < n; i++) w[d + i] = a[s + i] ^ a[t + i]; Buf b(a); cry_memxor2(b.p + d, b.p + s, b.p + t, n); expect_bytes(c, b.v(), w, "memxor2", fmt("n=%zu dst=%zu src1=%zu src2=%zu arena=%zu", n, d, s, t, tot));
}
static Bytes pat(u64 seed, size_t n) { Bytes b(n); for (auto &x : b) x = (u8)splitmix(seed); return b; }
static void run(Gen &g, Case &c)
{
    long live0 = vt.live; size_t n = g.draw(3) == 3 ? g.size(600, 8) : g.draw(40); u64 seed = g.draw(~0ull);
    auto off = [&](size_t base) -> size_t { switch (g.draw(4)) { case 0: return base; case 1: return base + g.draw(2 * n + 2); case 2: { size_t k = g.draw(n + 1); return base > k ? base - k : 0; } case 3: return base + n - 1 + g.draw(2); default: return base + g.draw(9); } };
    bool tw = g.draw(2) == 0; size_t d = g.draw(2 * n + 17), s = off(d), t = g.flip() ? off(d) : off(s); if ((i64)s < 0) s = 0; if ((i64)t < 0) t = 0; if (s > 1 << 20) s = d; if (t > 1 << 20) t = s; size_t tot = std::max(d, std::max(s, t)) + n; Bytes a = g.flip() ? pat(seed, tot) : g.bytes(tot);
    if (tw) two(c, n, d, s, tot, a); else three(c, n, d, s, t, tot, a); c.check(vt.live == live0, "leak"); auto ov = [&](size_t x, size_t y) { return x < y + n && y < x + n; }; if (tw) c.label(ov(d, s) ? "two operands overlapping" : "two operands"); else c.label(fmt("three operands, %d overlapping pairs", ov(d, s) + ov(d, t) + ov(s, t))); if (n) c.nontrivial(); c.say("%s n=%zu dst=%zu src=%zu src2=%zu", tw ? "memxor" : "memxor2", n, d, s, t);
}
static void fixed(u64 i, Gen &g, Case &c) // every geometry of small sizes: n = i, all offsets in a window that covers all relative positions
{
    if (i >= 21) { Force f(i - 21, 1, false); size_t n = FORCE + g.draw(40), d = g.draw(3) ? 0 : g.draw(2 * n), s = g.draw(2 * n), t = g.draw(2 * n), tot = 3 * n; Bytes a = pat(i, tot); two(c, n, d, s, tot, a); three(c, n, d, s, t, tot, a); three(c, n, d, d, t, tot, a); three(c, n, d, s, d, tot, a); c.label("large"); c.nontrivial(); c.say("n=%zu d=%zu s=%zu t=%zu", n, d, s, t); return; }
    size_t n = i, W = 2 * n + 2, tot = W + n; Bytes a = pat(i + 99, tot), k = a; Buf b(a); u64 cnt = 0;
    for (size_t d = 0; d <= W; d++) for (size_t s = 0; s <= W; s++) { if (s + n <= tot && d + n <= tot) two(c, n, d, s, tot, a); for (size_t t = 0; t <= W; t++) { if (std::max(d, std::max(s, t)) + n > tot) continue; if (d && s && t) continue; three(c, n, d, s, t, tot, a); cnt++; } }
    c.label("all geometries"); c.nontrivial(); c.say("n=%zu: %llu placements", n, (unsigned long long)cnt);
}
Prop PROP = {"C27", "lengths 0..600, destination and sources placed at random relative offsets (equal, overlapping either side, adjacent, disjoint) and alignments in one arena whose other bytes must not change; all placements up to length 20 enumerated; non-trivial: length > 0", run, 8000000, 100000000, 10, {"no allocation failure during the overlapping three-operand form"}, 21 + 30, fixed, 60};
