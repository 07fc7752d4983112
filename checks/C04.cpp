#include "big.hpp"
static void t_gcd(Gen &g, Case &c, bool lcm)
{
    Big a, b; size_t mb = g.draw(5) == 5 ? 1500 : 400;
    switch (g.draw(3)) {
    case 0: a = gen_mag(g, mb); b = gen_mag(g, mb); break;
    case 1: { Big k = gen_mag(g, mb / 2); a = gen_mag(g, mb / 2) * k; b = gen_mag(g, mb / 2) * k; break; }
    case 2: { a = gen_mag(g, mb / 2) << g.draw(130); b = gen_mag(g, mb / 2) << g.draw(130); break; }
    default: a = gen_mag(g, mb); b = g.flip() ? Big((long)g.draw(2)) : a; break;
    }
    if (g.draw(2) == 2) a = -a; if (g.draw(2) == 2) b = -b; if (g.draw(9) == 9) std::swap(a.b, b.b);
    Mpi A(g, a), B(g, b), R(g, gen_int(g, 200)); unsigned al = (unsigned)g.draw(3);
    cry_mpi *d = al == 1 ? (cry_mpi *)A : al == 2 ? (cry_mpi *)B : (cry_mpi *)R;
    std::string ctx = fmt("a=%s b=%s alias=%u", a.str().c_str(), b.str().c_str(), al);
    Big G = gcdb(a.abs(), b.abs());
    if (!lcm) {
        int rc = cry_mpi_gcd(d, A, B);
        c.check(rc == 0, "gcd returned %d for %s", rc, ctx.c_str());
        expect_mpi(c, d, G, "gcd", ctx);
    } else {
        if (a.zero() && b.zero()) throw Skip();
        int rc = cry_mpi_lcm(d, A, B);
        c.check(rc == 0, "lcm returned %d for %s", rc, ctx.c_str());
        std::string e = mpi_canon(d); c.check(e.empty(), "lcm not canonical (%s) for %s", e.c_str(), ctx.c_str());
        Big w = a.abs() * b.abs() / G, got = mpi_val(d);
        c.check(got.abs() == w, "lcm: got %s want +/-%s for %s", got.str().c_str(), w.str().c_str(), ctx.c_str());
    }
    if (al != 1) expect_mpi(c, A, a, "operand preserved", ctx);
    if (al != 2) expect_mpi(c, B, b, "operand preserved", ctx);
    c.label(lcm ? "lcm" : "gcd"); if (a.bits() > 64 && b.bits() > 64) c.nontrivial();
    c.say("%s %s", lcm ? "lcm" : "gcd", ctx.c_str());
}
static void t_inv(Gen &g, Case &c)
{
    size_t mb = g.draw(5) == 5 ? 1100 : 300;
    Big m = gen_mag(g, mb), a;
    switch (g.draw(3)) { case 0: m = Big(2 + (long)g.draw(300)); break; case 1: if (!m.odd()) m = m + Big(1); break; default: break; }
    if (m <= Big(1)) m = Big(2);
    switch (g.draw(5)) {
    case 0: a = gen_below(g, m); break;
    case 1: a = gen_mag(g, mb + 100); break;                         // above the modulus
    case 2: { Big k = gen_mag(g, 40) + Big(2); m = m * k; a = k * gen_mag(g, mb); break; } // common factor
    case 3: a = m * Big((long)g.draw(3)) + Big((long)g.draw(2)); break; // 0 or 1 mod m
    case 4: a = m - Big(1); break;
    default: a = gen_below(g, m); break;
    }
    if (g.draw(4) == 4) a = -a;
    Mpi A(g, a), M(g, m), R(g, gen_int(g, 200)); unsigned al = (unsigned)g.draw(3);
    cry_mpi *d = al == 1 ? (cry_mpi *)A : al == 2 ? (cry_mpi *)M : (cry_mpi *)R;
    std::string ctx = fmt("a=%s m=%s alias=%u", a.str().c_str(), m.str().c_str(), al);
    int rc = cry_mpi_inv(d, A, M);
    Big w; bool ok = gcdb(a.abs(), m) == Big(1);
    if (ok) {
        c.check(rc == 0, "inv returned %d for invertible %s", rc, ctx.c_str());
        modinv(w, a, m);
        expect_mpi(c, d, w, "inv", ctx); c.label("inv ok");
    } else { c.check(rc != 0, "inv succeeded for non-invertible %s -> %s", ctx.c_str(), mpi_val(d).str().c_str()); c.label("inv refused"); c.check(mpi_canon(d).empty(), "destination damaged"); }
    if (al != 1) expect_mpi(c, A, a, "operand preserved", ctx);
    if (al != 2) expect_mpi(c, M, m, "operand preserved", ctx);
    if (m.bits() > 64) c.nontrivial();
    c.say("inv %s", ctx.c_str());
}
static void t_exp(Gen &g, Case &c)
{
    Big b = gen_int(g, 200); long e;
    if (b.bits() > 20) e = (long)g.draw(40); else e = (long)g.draw(300);
    if (g.draw(9) == 9) e = -1 - (long)g.draw(5);
    Mpi B(g, b), E(g, Big(e)), R(g, gen_int(g, 200)); unsigned al = (unsigned)g.draw(3);
    cry_mpi *d = al == 1 ? (cry_mpi *)B : al == 2 ? (cry_mpi *)E : (cry_mpi *)R;
    std::string ctx = fmt("b=%s e=%ld alias=%u", b.str().c_str(), e, al);
    int rc = cry_mpi_exp(d, B, E);
    if (e < 0) { c.check(rc < 0, "exp accepted negative exponent %s", ctx.c_str()); c.label("exp refused"); return; }
    Big w(1); for (long i = 0; i < e; i++) w = w * b;
    c.check(rc == 0, "exp returned %d for %s", rc, ctx.c_str());
    expect_mpi(c, d, w, "exp", ctx);
    if (al != 1) expect_mpi(c, B, b, "operand preserved", ctx);
    c.label("exp"); if (w.bits() > 64) c.nontrivial(); c.say("exp %s", ctx.c_str());
}
static void t_modexp(Gen &g, Case &c)
{
    size_t mb = g.draw(7) == 7 ? 1024 : 320;
    Big m = gen_mag(g, mb), b, e;
    if (m.zero()) m = Big(1);
    if (g.draw(5) == 0) m = Big(1 + (long)g.draw(40));
    switch (g.draw(3)) { case 0: b = gen_below(g, m); break; case 1: b = gen_int(g, mb + 200); break; case 2: b = m * Big((long)g.draw(3)) - Big((long)g.draw(3)); break; default: b = gen_mag(g, 64); break; }
    switch (g.draw(3)) { case 0: e = gen_mag(g, 64); break; case 1: e = Big((long)g.draw(5)); break; case 2: e = gen_mag(g, mb > 400 ? 200 : 320); break; default: e = Big(65537); break; }
    unsigned neg = (unsigned)g.draw(19);
    if (neg == 19 && !e.zero()) e = -e;
    if (neg == 18) m = -m;
    Mpi B(g, b), E(g, e), M(g, m), R(g, gen_int(g, 200)); unsigned al = (unsigned)g.draw(4);
    cry_mpi *d = al == 1 ? (cry_mpi *)B : al == 2 ? (cry_mpi *)E : al == 3 ? (cry_mpi *)M : (cry_mpi *)R;
    std::string ctx = fmt("b=%s e=%s m=%s alias=%u", b.str().c_str(), e.str().c_str(), m.str().c_str(), al);
    int rc = cry_mpi_mod_exp(d, B, E, M);
    if (e.neg() || m.neg()) { c.check(rc < 0, "mod_exp accepted negative %s", ctx.c_str()); c.label("mod_exp refused"); return; }
    c.check(rc == 0, "mod_exp returned %d for %s", rc, ctx.c_str());
    expect_mpi(c, d, modexp(b, e, m), "mod_exp", ctx);
    if (al != 1) expect_mpi(c, B, b, "operand preserved", ctx);
    if (al != 2) expect_mpi(c, E, e, "operand preserved", ctx);
    if (al != 3) expect_mpi(c, M, m, "operand preserved", ctx);
    c.label("mod_exp"); if (m.bits() > 64) c.nontrivial(); c.say("mod_exp %s", ctx.c_str());
}
static void t_sqrt(Gen &g, Case &c)
{
    Big s = gen_mag(g, g.draw(9) == 9 ? 3000 : 400), a;
    switch (g.draw(3)) { case 0: a = s * s; break; case 1: a = s * s + Big((long)g.draw(4) - 2); break; case 2: a = s * s + s + s; break; default: a = gen_mag(g, 600); }
    if (a.neg()) a = a.abs();
    if (g.draw(19) == 19 && !a.zero()) a = -a;
    Mpi A(g, a), R(g, gen_int(g, 200)); bool al = g.flip(); cry_mpi *d = al ? (cry_mpi *)A : (cry_mpi *)R;
    int rc = cry_mpi_sqrt(d, A); std::string ctx = a.str();
    if (a.neg()) { c.check(rc < 0, "sqrt accepted %s", ctx.c_str()); c.label("sqrt refused"); return; }
    c.check(rc == 0, "sqrt returned %d for %s", rc, ctx.c_str());
    std::string e = mpi_canon(d); c.check(e.empty(), "sqrt not canonical: %s for %s", e.c_str(), ctx.c_str());
    Big r = mpi_val(d);
    c.check(!r.neg() && r * r <= a && a < (r + Big(1)) * (r + Big(1)), "sqrt(%s)=%s", ctx.c_str(), r.str().c_str());
    if (!al) expect_mpi(c, A, a, "operand preserved", ctx);
    c.label("sqrt"); if (a.bits() > 64) c.nontrivial(); c.say("sqrt %s", ctx.c_str());
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live;
    switch (g.weighted({4, 2, 5, 1, 4, 3})) { case 0: t_gcd(g, c, false); break; case 1: t_gcd(g, c, true); break; case 2: t_inv(g, c); break; case 3: t_exp(g, c); break; case 4: t_modexp(g, c); break; default: t_sqrt(g, c); }
    c.check(vt.live == live0, "leak: %ld blocks", vt.live - live0);
}
// all small operand pairs
static void fixed(u64 i, Gen &g, Case &c)
{
    long a = (long)(i / 41) - 20, b = (long)(i % 41) - 20; // [-20,20]^2
    Mpi A{Big(a)}, B{Big(b)}, R;
    auto mag = [](long x) { return x < 0 ? -x : x; };
    long x = mag(a), y = mag(b); while (y) { long t = x % y; x = y; y = t; }
    c.check(cry_mpi_gcd(R, A, B) == 0, "gcd(%ld,%ld) failed", a, b); expect_mpi(c, R, Big(x), "gcd", fmt("%ld,%ld", a, b));
    if (x) { c.check(cry_mpi_lcm(R, A, B) == 0, "lcm(%ld,%ld) failed", a, b); Big got = mpi_val(R); c.check(mpi_canon(R).empty() && got.abs() == Big(mag(a) * mag(b) / x), "lcm(%ld,%ld)=%s", a, b, got.str().c_str()); }
    if (b > 1) {
        int rc = cry_mpi_inv(R, A, B); long r0 = ((a % b) + b) % b, inv = 0;
        for (long k = 1; k < b; k++) if (r0 * k % b == 1) inv = k;
        if (inv) { c.check(rc == 0, "inv(%ld,%ld) returned %d", a, b, rc); expect_mpi(c, R, Big(inv), "inv", fmt("%ld mod %ld", a, b)); } else c.check(rc != 0, "inv(%ld,%ld) succeeded", a, b);
    }
    if (b >= 0) {
        c.check(cry_mpi_exp(R, A, B) == 0, "exp failed"); Big w(1); for (long k = 0; k < b; k++) w = w * Big(a); expect_mpi(c, R, w, "exp", fmt("%ld^%ld", a, b));
        for (long m = 1; m < 12; m++) { Mpi M{Big(m)}; c.check(cry_mpi_mod_exp(R, A, B, M) == 0, "mod_exp(%ld,%ld,%ld) failed", a, b, m); expect_mpi(c, R, pmod(w, Big(m)), "mod_exp", fmt("%ld^%ld mod %ld", a, b, m)); }
    }
    c.nontrivial();
}
Prop PROP = {"C04", "random operation (gcd, lcm, inverse, power, modular power, square root) with operands biased to common factors, powers of two, 0/1 residues, squares and neighbours, negatives; plus all pairs in [-20,20]^2; "
             "non-trivial: the main operand exceeds 64 bits (or an enumerated pair)", run, 150000, 4000000, 20, {}, 41 * 41, fixed};
