#include "ec.hpp"
#include "sym.hpp"
extern "C" {
#include <cry/dh.h>
#include <cry/ecdh.h>
}
// ---- finite field ------------------------------------------------------------------------------------------------
struct Party { cry_dh_ctx x; Big p, g, e; Party(Case &c) { memset(&x, 0xA5, sizeof x); c.check(cry_dh_init(&x) == 0, "dh_init failed"); } ~Party() { cry_dh_clear(&x); }
    void set(const Big &p_, const Big &g_, const Big &e_) { p = p_; g = g_; e = e_; mpi_put(&x.p, p); mpi_put(&x.g, g); mpi_put(&x.e, e); }
    void intact(Case &c) { expect_mpi(c, &x.p, p, "p changed", ""); expect_mpi(c, &x.g, g, "g changed", ""); expect_mpi(c, &x.e, e, "e changed", ""); } };
static int FM = 0; // enumerated RFC 3526 groups
static Big rfc3526(int i) { Big r; switch (i) { case 1: BN_get_rfc2409_prime_1024(r.b); break; case 2: BN_get_rfc3526_prime_1536(r.b); break; case 3: BN_get_rfc3526_prime_2048(r.b); break; case 4: BN_get_rfc3526_prime_3072(r.b); break; case 5: BN_get_rfc3526_prime_4096(r.b); break; default: BN_get_rfc2409_prime_768(r.b); } return r; }
static Big gen_modulus(Gen &g) { if (FM) return rfc3526(FM); size_t b; switch (g.draw(5)) { case 0: b = 2 + g.draw(14); break; case 1: b = 60 + g.draw(10); break; case 2: b = 8 * (1 + g.draw(40)); break; case 3: b = 120 + g.draw(16); break; case 4: b = 30 + g.draw(100); break; default: b = 16 + g.draw(500); } if (g.draw(3)) return det_prime(g.draw(7), b); Big m = gen_bits(g, b); if (m < Big(2)) m = Big(2); return m; }
static Big gen_exp(Gen &g, const Big &p) { switch (g.draw(4)) { case 0: return gen_below(g, p); case 1: return Big((long)g.draw(9)); case 2: return gen_mag(g, p.bits() + 70); case 3: return Big(1) << g.draw(p.bits() + 64); default: return p - Big((long)g.draw(2)); } }
static Bytes token(Gen &g, Case &c, Party &P, bool secret, const Big &want, const char *what)
{
    size_t need = want.nbytes(), n; std::string ctx = fmt("p=%s g=%s e=%s", P.p.str().c_str(), P.g.str().c_str(), P.e.str().c_str());
    if (need) { size_t k = g.draw(2) ? need - 1 : g.draw(need - 1); Buf b(k); int rc = secret ? cry_dh_get_sec(&P.x, b, k) : cry_dh_get_tok(&P.x, b, k); c.check(rc != 0, "%s of %zu bytes stored into %zu bytes", what, need, k); }
    switch (g.draw(3)) { case 0: n = need; break; case 1: n = P.p.nbytes(); break; default: n = need + g.draw(20); } if (n < need) n = need;
    Buf b(n); int rc = secret ? cry_dh_get_sec(&P.x, b, n) : cry_dh_get_tok(&P.x, b, n); c.check(rc == 0, "%s: export into %zu bytes refused (%zu needed)", what, n, need); expect_bytes(c, b.v(), want.padded(n), what, ctx); return b.v();
}
static void t_dh(Gen &g, Case &c)
{
    Party A(c), B(c); size_t rounds = FM ? 1 : 1 + g.draw(2); c.label(fmt("dh %zu rounds", rounds));
    for (size_t i = 0; i < rounds; i++) {
        Big p = gen_modulus(g), b; switch (g.draw(4)) { case 0: b = Big(2); break; case 1: b = gen_below(g, p); break; case 2: b = gen_mag(g, p.bits() + 80); break; default: b = Big((long)g.draw(7)); }
        A.set(p, b, gen_exp(g, p)); B.set(p, b, gen_exp(g, p)); std::string ctx = fmt("p=%s g=%s ea=%s eb=%s", p.str().c_str(), b.str().c_str(), A.e.str().c_str(), B.e.str().c_str());
        if (g.flip()) { mpi_put(&A.x.Y, gen_int(g, 200)); mpi_put(&A.x.Z, gen_int(g, 200)); }
        Big ya = modexp(b, A.e, p), yb = modexp(b, B.e, p); c.check(cry_dh_agree(&A.x) == 0 && cry_dh_agree(&B.x) == 0, "agree failed: %s", ctx.c_str()); expect_mpi(c, &A.x.Y, ya, "token", ctx); expect_mpi(c, &B.x.Y, yb, "token", ctx); A.intact(c); B.intact(c);
        Bytes ta = token(g, c, A, false, ya, "token"), tb = token(g, c, B, false, yb, "token"); Buf ba(ta), bb(tb); c.check(cry_dh_set_tok(&A.x, bb, tb.size()) == 0 && cry_dh_set_tok(&B.x, ba, ta.size()) == 0, "set_tok failed"); c.check(ba.v() == ta && bb.v() == tb, "set_tok changed its input"); expect_mpi(c, &A.x.Y, yb, "imported token", ctx); expect_mpi(c, &B.x.Y, ya, "imported token", ctx);
        c.check(cry_dh_finalize(&A.x) == 0 && cry_dh_finalize(&B.x) == 0, "finalize failed: %s", ctx.c_str()); Big z = modexp(ya, B.e, p); c.check(z == modexp(b, A.e * B.e, p), "oracle"); expect_mpi(c, &A.x.Z, z, "secret of A", ctx); expect_mpi(c, &B.x.Z, z, "secret of B", ctx); expect_mpi(c, &A.x.Y, yb, "token changed by finalize", ctx); A.intact(c); B.intact(c);
        Bytes sa = token(g, c, A, true, z, "secret"); (void)sa; if (g.flip()) { c.check(cry_dh_finalize(&A.x) == 0, "repeated finalize"); expect_mpi(c, &A.x.Z, z, "secret of A, repeated", ctx); }
        if (ya.nbytes() < p.nbytes()) c.label("token shorter than the modulus"); if (i == 0) c.say("dh %s", ctx.c_str());
    }
    c.nontrivial();
}
// ---- curves ------------------------------------------------------------------------------------------------------
struct EParty { cry_ecdh_ctx x; Big d; EParty(Case &c) { memset(&x, 0xA5, sizeof x); c.check(cry_ecdh_init(&x) == 0, "ecdh_init failed"); } ~EParty() { cry_ecdh_clear(&x); } };
static void t_ec(Gen &g, Case &c, bool big)
{
    Curve C; if (big) { static const int W[] = {0, 5, 6, 0, 1, 5, 2, 7, 8, 3, 4, 9, 10, 1, 6, 2}; C = named(W[g.draw(15)]); } else C = gen_curve(g, 3 + g.draw(g.draw(3) == 3 ? 60 : 12), g.draw(15) == 15);
    EParty A(c), B(c); for (EParty *P : {&A, &B}) { if (big) cry_ecp_grp_clear(&P->x.ec); if (big) c.check(cry_ecp_grp_load(&P->x.ec, C.id) == 0, "grp_load failed"); else grp_put(&P->x.ec, C, false); }
    size_t rounds = big ? 1 : 1 + g.draw(2); Big top = big ? C.n : C.p + C.p;
    for (size_t i = 0; i < rounds; i++) {
        for (EParty *P : {&A, &B}) { P->d = g.draw(5) == 5 ? gen_mag(g, top.bits() + (big ? 3 : 70)) : g.draw(4) == 4 ? Big((long)g.draw(16)) : gen_below(g, top); mpi_put(&P->x.d, P->d); }
        std::string ctx = fmt("%s G=%s da=%s db=%s", big ? fmt("curve %d", C.id).c_str() : C.str().c_str(), big ? "" : C.g.str().c_str(), A.d.str().c_str(), B.d.str().c_str()); auto mul = [&](const Pt &P, const Big &k) { return big ? ossl_mul(C, P, k) : C.mul(P, k); };
        Pt qa = mul(C.g, A.d), qb = mul(C.g, B.d); c.check(cry_ecdh_agree(&A.x) == 0 && cry_ecdh_agree(&B.x) == 0, "agree failed: %s", ctx.c_str()); expect_pt(c, &A.x.q, qa, "public key", ctx); expect_pt(c, &B.x.q, qb, "public key", ctx);
        { Ecp ta(ecp_val(&A.x.q)), tb(ecp_val(&B.x.q)); c.check(cry_ecp_copy(&A.x.q, &tb.e) == 0 && cry_ecp_copy(&B.x.q, &ta.e) == 0, "copy"); }
        Pt z = mul(qa, B.d); c.check(cry_ecdh_final(&A.x) == 0 && cry_ecdh_final(&B.x) == 0, "final failed: %s", ctx.c_str()); expect_pt(c, &A.x.z, z, "secret of A", ctx); expect_pt(c, &B.x.z, z, "secret of B", ctx); expect_pt(c, &A.x.q, qb, "peer key changed", ctx); c.check(ecp_val(&A.x.ec.g) == C.g, "generator changed"); expect_mpi(c, &A.x.d, A.d, "private key changed", ctx);
        if (z.inf) c.label("secret is infinity"); if (i == 0) c.say("ecdh %s", ctx.c_str());
    }
    c.label(big ? fmt("named curve %d", C.id) : std::string("small curve")); c.nontrivial();
}
static void fixed(u64 i, Gen &g, Case &c) { FM = 1 + (int)(i % 6); struct Off { ~Off() { FM = 0; } } off; t_dh(g, c); c.label("RFC 2409/3526 group"); }
static void run(Gen &g, Case &c)
{
    long live0 = vt.live; switch (g.weighted({600, 300, 6})) { case 0: t_dh(g, c); break; case 1: t_ec(g, c, false); break; default: t_ec(g, c, true); } c.check(vt.live == live0, "leak of %ld blocks", vt.live - live0);
}
Prop PROP = {"C22", "DH moduli of 2..516 bits (prime and composite) and the RFC 2409/3526 groups up to 4096 bits, bases below and above the modulus, exponents 0..beyond the modulus, contexts reused over up to 3 rounds with stale tokens, export buffers too small / exact / larger; ECDH over random curves of 3..63 bits and the 11 named curves; every case is non-trivial", run, 9000, 400000, 60, {"OpenSSL BN/EC arithmetic is a correct oracle"}, 12, fixed, 300};
