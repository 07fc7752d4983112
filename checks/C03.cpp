#include "big.hpp"
static Big gen_sized(Gen &g, size_t digs)
{
    // exactly `digs` library digits
    if (digs == 0) return Big(0);
    const size_t W = CRY_MPI_DIGIT_BITS;
    switch (g.draw(5)) {
    case 0: return gen_bits(g, (digs - 1) * W + 1 + g.draw(W - 1));
    case 1: return (Big(1) << (digs * W)) - Big(1);
    case 2: { // runs of zero / full digits
        Big r; u64 s = g.draw(~0ULL); Bytes b(digs * W / 8);
        for (size_t i = 0; i < digs; i++) { u64 z = splitmix(s); u8 f = (z & 3) == 0 ? 0 : (z & 3) == 3 ? 0 : 0xff; for (size_t k = 0; k < W / 8; k++) b[i * W / 8 + k] = (z & 3) == 3 ? (u8)splitmix(s) : f; }
        if (b[0] == 0) b[0] = 1 + (u8)g.draw(254);
        return Big::bin(b); }
    case 3: { Big r = Big(1) << (digs * W - 1 - g.draw(W - 1)); return r + gen_mag(g, W); }
    case 4: { // one part zero (split corner cases): clear a range of bits
        Big r = gen_bits(g, digs * W); size_t lo = g.draw(digs * W - 1), hi = lo + g.draw(digs * W - 1 - lo);
        if (g.flip()) { lo = lo / W * W; hi = hi / W * W; }
        Big m = ((Big(1) << hi) - (Big(1) << lo)); Big t = (r >> lo); t = pmod(t, Big(1) << (hi - lo)); (void)m; return r - (t << lo); }
    default: return gen_bits(g, digs * W);
    }
}
typedef int (*mulf)(cry_mpi *, const cry_mpi *, const cry_mpi *);
typedef int (*sqrf)(cry_mpi *, const cry_mpi *);
static void run(Gen &g, Case &c)
{
    long live0 = vt.live;
    {
        size_t cls = g.weighted({40, 40, 12, 5});
        static const size_t cut[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 67, 127, 128, 129, 130, 131, 192, 299, 300, 301, 302, 303, 304, 305};
        auto digs = [&]() -> size_t {
            switch (cls) { case 0: return g.draw(12); case 1: { size_t k = cut[g.draw(20)]; return k; } case 2: return g.draw(200);
            default: return g.flip() ? cut[23 + g.draw(6)] : g.draw(640); } };
        size_t da = digs(), db = g.draw(3) == 0 ? da : digs();
        Big a = gen_sized(g, da), b = g.draw(7) == 7 ? a : gen_sized(g, db);
        if (g.flip() && !a.zero()) a = -a;
        if (g.draw(2) == 0 && !b.zero()) b = -b;
        Big pr = gen_int(g, 300);
        static const struct { const char *n; mulf f; bool sgn; } M[] = {{"schoolbook", cry_mpi_mul_baseline, false}, {"column-wise", cry_mpi_mul_comba, false}, {"karatsuba", cry_mpi_mul_karatsuba, false}, {"toom3", cry_mpi_mul_toom3, false}, {"mul", cry_mpi_mul, true}, {"mul_abs", cry_mpi_mul_abs, false}};
        static const struct { const char *n; sqrf f; } S[] = {{"sqr schoolbook", cry_mpi_sqr_baseline}, {"sqr column-wise", cry_mpi_sqr_comba}, {"sqr karatsuba", cry_mpi_sqr_karatsuba}, {"sqr", cry_mpi_sqr}};
        Big p = a * b, pa = p.abs(), sq = a * a;
        unsigned alias = (unsigned)g.draw(4);
        std::string ctx = fmt("a=%s (%zu bits) b=%s (%zu bits) alias=%u prior=%s", a.str().c_str(), a.bits(), b.str().c_str(), b.bits(), alias, pr.str().c_str());
        for (auto &m : M) {
            Mpi A(g, a), B(g, b), R(g, pr); cry_mpi *d = R; const cry_mpi *x = A, *y = B; Big want = m.sgn ? p : pa;
            if (alias == 1) d = A; if (alias == 2) d = B; if (alias == 3) { y = A; want = sq; } if (alias == 4) { y = A; d = A; want = sq; }
            int rc = m.f(d, x, y);
            c.check(rc == 0, "%s returned %d for %s", m.n, rc, ctx.c_str());
            expect_mpi(c, d, want, m.n, ctx);
            if (d != A.operator cry_mpi *()) expect_mpi(c, A, a, "operand a preserved", std::string(m.n) + ctx);
            if (d != B.operator cry_mpi *()) expect_mpi(c, B, b, "operand b preserved", std::string(m.n) + ctx);
        }
        for (auto &s : S) {
            Mpi A(g, a), R(g, pr); cry_mpi *d = (alias & 1) ? (cry_mpi *)A : (cry_mpi *)R;
            int rc = s.f(d, A);
            c.check(rc == 0, "%s returned %d for %s", s.n, rc, ctx.c_str());
            expect_mpi(c, d, sq, s.n, ctx);
            if (!(alias & 1)) expect_mpi(c, A, a, "operand preserved", std::string(s.n) + ctx);
        }
        { Mpi A(g, a), R(g, pr); cry_mpi_digit dg = (cry_mpi_digit)g.u64v(); cry_mpi *d = (alias & 1) ? (cry_mpi *)A : (cry_mpi *)R; int rc = cry_mpi_mul_dig(d, A, dg);
          c.check(rc == 0, "mul_dig returned %d", rc); expect_mpi(c, d, a * Big::u((u64)dg), "mul_dig", ctx + fmt(" digit %llx", (unsigned long long)dg)); }
        if (da > 1 && db > 1) c.nontrivial();
        c.label(cls == 0 ? "small" : cls == 1 ? "switch-over sizes" : cls == 2 ? "medium" : "large");
        c.say("%zu x %zu digits alias %u a=%s b=%s", da, db, alias, a.str().substr(0, 48).c_str(), b.str().substr(0, 48).c_str());
    }
    c.check(vt.live == live0, "leak: %ld blocks", vt.live - live0);
}
Prop PROP = {"C03", "pairs of operands with digit counts 0..640 biased to the switch-over sizes, digit patterns with zero/full runs and zeroed split ranges, 5 aliasing patterns; every algorithm run on each; "
             "non-trivial: both operands of two or more digits", run, 60000, 2000000};
