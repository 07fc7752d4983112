#include "ec.hpp"
static Big gen_scalar(Gen &g, const Curve &C, size_t bits)
{
    switch (g.draw(7)) { case 0: return Big((long)g.draw(40)); case 1: if (!C.n.zero()) { Big v = C.n * Big(1 + (long)g.draw(2)) + Big((long)g.draw(8) - 4); return v.neg() ? Big(0) : v; } return gen_mag(g, bits); case 2: return gen_mag(g, 2 * bits); case 3: return (Big(1) << g.draw(bits)) - Big((long)g.draw(1)); case 4: { Big v = gen_mag(g, bits); return v << (g.draw(2 * bits) % 130); } default: return gen_mag(g, bits); }
}
static Pt gen_pt(Gen &g, const Curve &C, const std::vector<Pt> *all) { if (g.draw(11) == 11) return Pt(); if (all) return all->empty() ? Pt() : (*all)[g.draw(all->size() - 1)]; return C.mul(C.g, Big(1 + (long)g.draw(60))); }
static void binop(Gen &g, Case &c, Grpx &G, const Pt &P, const Pt &Q)
{
    const Curve &C = G.C; std::string ctx = C.str() + " P=" + P.str() + " Q=" + Q.str(); Pt want = C.add(P, Q); u64 al = g.draw(3); if (al == 3 && !(P == Q)) al = 0; Ecp A(P), B(Q), R(g.flip() ? C.g : Pt());
    int rc; switch (al) { case 0: rc = cry_ecp_add(R, A, B, G); expect_pt(c, A, P, "operand 1 changed", ctx); expect_pt(c, B, Q, "operand 2 changed", ctx); break; case 1: rc = cry_ecp_add(A, A, B, G); expect_pt(c, B, Q, "operand 2 changed", ctx); break; case 2: rc = cry_ecp_add(B, A, B, G); expect_pt(c, A, P, "operand 1 changed", ctx); break; default: rc = cry_ecp_add(A, A, A, G); }
    c.check(rc == 0, "add returned %d: %s", rc, ctx.c_str()); expect_pt(c, al == 0 ? R : al == 2 ? B : A, want, fmt("add (alias %d)", (int)al).c_str(), ctx);
    c.label(P.inf || Q.inf ? "add: infinity" : P == Q ? (P.y.zero() ? "add: order two" : "add: equal") : want.inf ? "add: opposite" : "add: distinct");
    Ecp D(P), E(g.flip() ? C.g : Pt()); bool da = g.flip(); rc = cry_ecp_dbl(da ? D : E, D, G); c.check(rc == 0, "dbl returned %d: %s", rc, ctx.c_str()); expect_pt(c, da ? D : E, C.add(P, P), "dbl", ctx); if (!da) expect_pt(c, D, P, "dbl operand changed", ctx); if (!P.inf && P.y.zero()) c.label("dbl: order two");
}
static void mulop(Gen &g, Case &c, Grpx &G, const Pt &P, const Big &k)
{
    const Curve &C = G.C; std::string ctx = C.str() + " P=" + P.str() + " k=" + k.str(); Ecp A(P), R(g.flip() ? C.g : Pt()); Mpi K(g, k); bool al = g.flip(); int rc = cry_ecp_mul(al ? A : R, A, K, G); c.check(rc == 0, "mul returned %d: %s", rc, ctx.c_str());
    Pt want = C.id >= 0 ? ossl_mul(C, P, k) : C.mul(P, k); expect_pt(c, al ? A : R, want, al ? "mul in place" : "mul", ctx); if (!al) expect_pt(c, A, P, "mul operand changed", ctx); expect_mpi(c, K, k, "scalar changed", ctx); c.label(want.inf ? "mul: infinity" : k.bits() <= 4 ? "mul: short scalar" : "mul: scalar");
}
static void t_small(Gen &g, Case &c)
{
    Curve C = gen_curve(g, 3 + g.draw(7), g.draw(4) == 4); std::vector<Pt> all = all_points(C); Grpx G(c, C, g.flip()); Pt P = gen_pt(g, C, &all), Q = gen_pt(g, C, &all); u64 r = g.draw(5); if (r == 4) Q = P; if (r == 5) Q = C.neg(P);
    binop(g, c, G, P, Q); mulop(g, c, G, P, g.draw(3) ? gen_scalar(g, C, 14) : Big((long)all.size() + 1)); G.intact(c); c.label("small curve"); c.nontrivial(); c.say("small %s P=%s Q=%s", C.str().c_str(), P.str().c_str(), Q.str().c_str());
}
static void t_mid(Gen &g, Case &c)
{
    size_t bits = 16 + g.draw(140); bool o2 = g.draw(9) == 9; Curve C = gen_curve(g, bits, o2); Grpx G(c, C, g.flip()); Pt P = o2 ? C.g : gen_pt(g, C, nullptr), Q = gen_pt(g, C, nullptr); u64 r = g.draw(7); if (r == 6) Q = P; if (r == 7) Q = C.neg(P); if (r == 5) { Q = P; if (!Q.inf) Q.y = pmod(-P.y, C.p); }
    binop(g, c, G, P, Q); if (g.draw(3) == 3) mulop(g, c, G, P, gen_scalar(g, C, bits)); G.intact(c); c.label("medium curve"); c.nontrivial(); c.say("medium %s P=%s Q=%s", C.str().c_str(), P.str().c_str(), Q.str().c_str());
}
static void t_named(Gen &g, Case &c, int id)
{
    Curve C = named(id); Grpx G(c, C); G.intact(c); c.check(C.on(ecp_val(&G.G.g)), "generator not on curve"); Pt P = g.draw(2) ? C.g : ossl_mul(C, C.g, gen_below(g, C.n)), Q = ossl_mul(C, C.g, gen_below(g, C.n)); if (g.draw(9) == 9) Q = C.neg(P);
    binop(g, c, G, P, Q); Big k = gen_scalar(g, C, C.n.bits()); if (k.bits() > C.n.bits() + 8 && g.draw(3)) k = k % C.n; mulop(g, c, G, P, k); G.intact(c); c.label(fmt("named curve %d", id)); c.nontrivial(); c.say("named %d k=%s", id, k.str().c_str());
}
static void t_core(Gen &g, Case &c)
{
    Ecp P; c.check(cry_ecp_is_zero(&P.e), "fresh point not at infinity"); long x = (long)g.u64v(), y = (long)g.u64v(); cry_ecp e; memset(&e, 0xA5, sizeof e); c.check(cry_ecp_init_int(&e, x, y) == 0, "init_int"); Pt v = ecp_val(&e); c.check(!v.inf && v.x == Big(x) && v.y == Big(y), "init_int(%ld,%ld) gave %s", x, y, v.str().c_str()); c.check(cry_ecp_copy(P, &e) == 0, "copy"); c.check(ecp_val(P) == v, "copy differs"); cry_ecp_clear(&e);
    { cry_ecp l[5]; memset(l, 0xA5, sizeof l); size_t n = 1 + g.draw(4); int rc = n == 1 ? cry_ecp_init_list(l, (cry_ecp *)NULL) : n == 2 ? cry_ecp_init_list(l, l + 1, (cry_ecp *)NULL) : n == 3 ? cry_ecp_init_list(l, l + 1, l + 2, (cry_ecp *)NULL) : n == 4 ? cry_ecp_init_list(l, l + 1, l + 2, l + 3, (cry_ecp *)NULL) : cry_ecp_init_list(l, l + 1, l + 2, l + 3, l + 4, (cry_ecp *)NULL); c.check(rc == 0, "init_list of %zu", n); for (size_t i = 0; i < n; i++) c.check(cry_ecp_is_zero(&l[i]), "point %zu of a fresh list of %zu is not at infinity", i, n); std::vector<Pt> w(n); size_t k = g.draw(n - 1); for (size_t i = 0; i < n; i++) { if (g.draw(3)) w[i] = pt(gen_int(g, 200), gen_int(g, 200)); ecp_put(&l[i], w[i]); } size_t j = g.draw(n - 1); cry_ecp_swap(&l[k], &l[j]); std::swap(w[k], w[j]); for (size_t i = 0; i < n; i++) c.check(ecp_val(&l[i]) == w[i], "point %zu of %zu after a swap of %zu and %zu: %s want %s", i, n, k, j, ecp_val(&l[i]).str().c_str(), w[i].str().c_str());
      switch (n) { case 1: cry_ecp_clear_list(l, (cry_ecp *)NULL); break; case 2: cry_ecp_clear_list(l, l + 1, (cry_ecp *)NULL); break; case 3: cry_ecp_clear_list(l, l + 1, l + 2, (cry_ecp *)NULL); break; case 4: cry_ecp_clear_list(l, l + 1, l + 2, l + 3, (cry_ecp *)NULL); break; default: cry_ecp_clear_list(l, l + 1, l + 2, l + 3, l + 4, (cry_ecp *)NULL); } }
    cry_ecp_grp G; for (int i : {-1, 11, 12, 99, -5}) c.check(cry_ecp_grp_load(&G, i) != 0, "unknown group %d loaded", i); c.label("core"); c.say("core x=%ld y=%ld", x, y);
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live; switch (g.weighted({300, 150, 8, 10})) { case 0: t_small(g, c); break; case 1: t_mid(g, c); break; case 2: t_named(g, c, (int)g.draw(10)); break; default: t_core(g, c); } c.check(vt.live == live0, "leak of %ld blocks", vt.live - live0);
}
// enumerated: whole small groups (all pairs, all scalars), then each named curve
static void fixed(u64 i, Gen &g, Case &c)
{
    if (i < 11) { Curve C = named((int)i); Grpx G(c, C); G.intact(c); c.check(pmod(mpi_val(&G.G.a), C.p) == C.a, "curve a"); for (int d = -2; d <= 2; d++) { mulop(g, c, G, C.g, C.n + Big(d)); } mulop(g, c, G, C.g, Big(0)); mulop(g, c, G, C.g, Big(1)); mulop(g, c, G, C.neg(C.g), C.n - Big(1)); mulop(g, c, G, C.g, (Big(1) << C.n.bits()) - Big(1)); binop(g, c, G, C.g, C.neg(C.g)); c.nontrivial(); c.say("named curve %d", (int)i); return; }
    static const long PR[] = {5, 7, 11, 13, 17, 19, 23}; u64 j = i - 11; Curve C; C.p = Big(PR[j % 7]); C.a = Big((long)(j / 7) % PR[j % 7]); C.b = Big((long)(1 + j / 7 * 3 + j) % PR[j % 7]); if (C.singular()) return; std::vector<Pt> all = all_points(C); if (all.empty()) return; C.g = all[0]; all.push_back(Pt()); Grpx G(c, C, j & 1);
    for (auto &P : all) { for (auto &Q : all) binop(g, c, G, P, Q); for (long k = 0; k <= 40; k++) mulop(g, c, G, P, Big(k)); for (long k : {63L, 64L, 255L, 256L, 65535L, 65537L}) mulop(g, c, G, P, Big(k)); mulop(g, c, G, P, (Big(1) << 64) + Big(3)); mulop(g, c, G, P, (Big(5) << 62)); } c.label("whole group"); c.nontrivial(); c.say("whole group %s: %zu points", C.str().c_str(), all.size());
}
Prop PROP = {"C21", "points (incl. infinity, equal, opposite, order two) and scalars (0, small, around and beyond the order, 2^k, spanning several digits) on random curves over primes of 3..156 bits and on the 11 named curves, all aliasings; enumerated: all pairs and scalars 0..40 of 140 tiny groups, parameters and edge scalars of every named curve; every case but the trivial core calls is non-trivial", run, 24000, 900000, 60,
 {"OpenSSL's curve tables and EC arithmetic are correct"}, 11 + 140, fixed};
