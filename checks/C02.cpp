#include "big.hpp"
static Big floordiv(const Big &a, const Big &b, Big &rem)
{
    Big q = a / b, r = a % b; // truncated
    if (!r.zero() && (a.neg() != b.neg())) q = q - Big(1);
    rem = (a - q * b).abs();
    return q;
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live;
    {
        size_t maxbits = g.draw(9) == 9 ? 12000 : 1100;
        Big a, b;
        switch (g.weighted({4, 5, 4, 3, 1, 1})) {
        case 0: a = gen_mag(g, maxbits); b = gen_mag(g, maxbits); break;
        case 1: { // a = q*b + r with structured q and r near 0 or b
            b = gen_mag(g, maxbits / 2); Big q = gen_mag(g, maxbits / 2); if (b.zero()) b = Big(1);
            Big r = gen_below(g, b); a = q * b + r; break; }
        case 2: { // quotient estimate corner cases: divisor with top digit pattern, dividend built from the same digits
            size_t n = 1 + g.draw(6), m = g.draw(6); unsigned W = 8u << g.draw(3);
            auto dig = [&]() -> Big { Big top = (Big(1) << W) - Big(1); switch (g.draw(7)) { case 0: return Big(0); case 1: return Big(1); case 2: return top; case 3: return top - Big(1); case 4: return Big(1) << (W - 1); case 5: return (Big(1) << (W - 1)) - Big(1); case 6: return (Big(1) << (W - 1)) + Big(1); default: return Big::u(g.draw(~0ULL)) % (top + Big(1)); } };
            std::vector<Big> bd, ad; for (size_t i = 0; i < n; i++) bd.push_back(dig());
            if (g.flip()) ad = bd; // most significant first
            if (!ad.empty() && g.flip()) ad.back() = dig();
            for (size_t i = 0; i < m + 1; i++) ad.push_back(dig());
            for (auto &x : bd) b = (b << W) + x;
            for (auto &x : ad) a = (a << W) + x;
            size_t sh = g.draw(3) ? 0 : g.draw(70); a = a << sh; if (g.flip()) b = b << sh;
            break; }
        case 3: { // close magnitudes / powers
            b = gen_mag(g, maxbits); a = b * Big((long)g.draw(5)) + Big((long)g.draw(6) - 3); break; }
        case 4: { size_t k = g.draw(maxbits - 1), l = g.draw(k); a = (Big(1) << k) - Big((long)g.draw(2)); b = (Big(1) << l) + Big((long)g.draw(2)) - Big(1); break; }
        default: a = gen_mag(g, maxbits); b = Big(0); break;
        }
        a = a.abs(); b = b.abs();
        if (g.draw(2) == 2) a = -a;
        if (g.draw(2) == 2) b = -b;
        Mpi A(g, a), B(g, b);
        Big prior = gen_int(g, 400), prior2 = gen_int(g, 400);
        Mpi Q(g, prior), R(g, prior2);
        bool absform = g.draw(3) == 3;
        // destination patterns
        unsigned pat = (unsigned)g.draw(11);
        cry_mpi *q = Q, *r = R; const cry_mpi *ma = A, *mb = B; const char *pn = "distinct";
        Big ea = a, eb = b;
        bool same = false;
        switch (pat) {
        case 0: case 1: break;
        case 2: r = nullptr; pn = "q only"; break;
        case 3: q = nullptr; pn = "r only"; break;
        case 4: q = A; pn = "q==a"; break;
        case 5: r = A; pn = "r==a"; break;
        case 6: q = B; pn = "q==b"; break;
        case 7: r = B; pn = "r==b"; break;
        case 8: q = A; r = B; pn = "q==a,r==b"; break;
        case 9: q = B; r = A; pn = "q==b,r==a"; break;
        case 10: q = nullptr; r = B; pn = "r==b, no q"; break;
        default: mb = A; eb = a; same = true; pn = "a==b"; if (g.flip()) { q = A; pn = "a==b==q"; } break;
        }
        std::string ctx = fmt("a=%s b=%s %s%s", a.str().c_str(), eb.str().c_str(), pn, absform ? " (magnitudes)" : "");
        int rc = absform ? cry_mpi_div_abs(q, r, ma, mb) : cry_mpi_div(q, r, ma, mb);
        c.label(pn);
        if (eb.zero()) {
            c.label("by zero");
            c.check(rc < 0, "division by zero returned %d for %s", rc, ctx.c_str());
            c.check(mpi_canon(A).empty() && mpi_canon(B).empty(), "division by zero damaged operands");
            expect_mpi(c, A, a, "dividend after refused division", ctx);
        } else {
            c.check(rc == 0, "division returned %d for %s", rc, ctx.c_str());
            Big wr, wq;
            if (absform) { wq = a.abs() / eb.abs(); wr = a.abs() % eb.abs(); } else wq = floordiv(a, eb, wr);
            if (q) expect_mpi(c, q, wq, "quotient", ctx);
            if (r) expect_mpi(c, r, wr, "remainder", ctx);
            if (q != A.operator cry_mpi *() && r != A.operator cry_mpi *()) expect_mpi(c, A, a, "dividend preserved", ctx);
            if (!same && q != B.operator cry_mpi *() && r != B.operator cry_mpi *()) expect_mpi(c, B, b, "divisor preserved", ctx);
            // modulo macro
            if (g.draw(3) == 3 && !same) { Mpi A2(a), B2(b), M; int rm = cry_mpi_mod(&M.m, &A2.m, &B2.m); Big w2; floordiv(a, b, w2); c.check(rm == 0, "mod returned %d", rm); expect_mpi(c, M, w2, "mod", ctx); }
            if (a.bits() > 64 && eb.bits() > 64 && BN_ucmp(a.b, eb.b) >= 0) { c.nontrivial(); }
            if (a.neg() != eb.neg()) c.label("opposite signs");
            if (wr.zero()) c.label("exact");
        }
        c.say("%s", ctx.c_str());
    }
    c.check(vt.live == live0, "leak: %ld blocks", vt.live - live0);
}
Prop PROP = {"C02", "dividend/divisor pairs: independent, q*b+r, digit patterns hitting quotient over-estimation, neighbours of multiples, powers of two, zero divisors; 12 destination patterns; "
             "non-trivial: both above 64 bits and |a|>=|b|", run, 300000, 8000000};
