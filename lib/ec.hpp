// Affine short-Weierstrass model on Big, curve generators and bridges to cry_ecp.
#pragma once
#include "keys.hpp"
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
extern "C" {
#include <cry/ecp.h>
}
struct Pt { bool inf = true; Big x, y; std::string str() const { return inf ? "inf" : "(" + x.str() + "," + y.str() + ")"; } };
inline bool operator==(const Pt &a, const Pt &b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
inline Pt pt(const Big &x, const Big &y) { Pt r; r.inf = false; r.x = x; r.y = y; return r; }
struct Curve {
    Big p, a, b; Pt g; Big n; int id = -1; // a in [0,p)
    std::string str() const { return fmt("y^2=x^3+%sx+%s mod %s", a.str().c_str(), b.str().c_str(), p.str().c_str()); }
    Pt neg(const Pt &P) const { return P.inf ? P : pt(P.x, pmod(-P.y, p)); }
    Pt add(const Pt &P, const Pt &Q) const
    {
        if (P.inf) return Q; if (Q.inf) return P; Big l, i;
        if (P.x == Q.x) { if (P.y != Q.y || P.y.zero()) return Pt(); modinv(i, P.y + P.y, p); l = (Big(3) * P.x * P.x + a) * i % p; } else { modinv(i, Q.x - P.x, p); l = pmod((Q.y - P.y) * i, p); }
        Big x = pmod(l * l - P.x - Q.x, p), y = pmod(l * (P.x - x) - P.y, p); return pt(x, y);
    }
    Pt mul(Pt P, const Big &k) const { Pt r; for (int i = (int)k.bits() - 1; i >= 0; i--) { r = add(r, r); if (BN_is_bit_set(k.b, i)) r = add(r, P); } return r; }
    bool on(const Pt &P) const { return P.inf || pmod(P.y * P.y - P.x * P.x * P.x - a * P.x - b, p).zero(); }
    bool singular() const { return pmod(Big(4) * a * a * a + Big(27) * b * b, p).zero(); }
};
inline bool sqrtmod(Big &r, const Big &a, const Big &p) { return BN_mod_sqrt(r.b, pmod(a, p).b, p.b, bnctx()) != nullptr; }
// curve through a chosen point over a deterministic prime of the given size; order unknown
inline Curve gen_curve(Gen &g, size_t bits, bool order2 = false)
{
    Curve c; c.p = det_prime(g.draw(40), bits < 3 ? 3 : bits); if (c.p < Big(5)) c.p = Big(5);
    for (int t = 0; t < 50; t++) { Big x = gen_below(g, c.p), y = order2 ? Big(0) : gen_below(g, c.p); c.a = g.draw(3) == 3 ? pmod(Big(-3), c.p) : gen_below(g, c.p); c.b = pmod(y * y - x * x * x - c.a * x, c.p); if (c.singular()) continue; c.g = pt(x, y); return c; }
    throw Skip();
}
inline std::vector<Pt> all_points(const Curve &c) // small p only
{
    long p = (long)c.p.word(), a = (long)c.a.word(), b = (long)c.b.word(); std::vector<Pt> v; std::vector<std::vector<long>> root(p); for (long y = 0; y < p; y++) root[y * y % p].push_back(y);
    for (long x = 0; x < p; x++) { long rhs = ((x * x % p * x) % p + a * x % p + b) % p; for (long y : root[rhs]) v.push_back(pt(Big(x), Big(y))); } return v;
}
inline Curve named(int id) // parameters from OpenSSL
{
    static const int NID[] = {NID_X9_62_prime192v1, NID_secp224r1, NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1, NID_secp192k1, NID_secp224k1, NID_secp256k1, NID_brainpoolP256r1, NID_brainpoolP384r1, NID_brainpoolP512r1};
    static std::map<int, Curve> memo; auto it = memo.find(id); if (it != memo.end()) return it->second;
    EC_GROUP *G = EC_GROUP_new_by_curve_name(NID[id]); if (!G) { fprintf(stderr, "OpenSSL lacks curve %d\n", id); abort(); } Curve c; c.id = id; EC_GROUP_get_curve(G, c.p.b, c.a.b, c.b.b, bnctx()); EC_GROUP_get_order(G, c.n.b, bnctx()); c.g.inf = false; EC_POINT_get_affine_coordinates(G, EC_GROUP_get0_generator(G), c.g.x.b, c.g.y.b, bnctx()); EC_GROUP_free(G); memo.emplace(id, c); return c;
}
// OpenSSL's own arithmetic for k*P on a named curve
inline Pt ossl_mul(const Curve &c, const Pt &P, const Big &k)
{
    static std::map<int, EC_GROUP *> gs; EC_GROUP *&G = gs[c.id]; if (!G) G = EC_GROUP_new_curve_GFp(c.p.b, c.a.b, c.b.b, bnctx()); EC_POINT *Q = EC_POINT_new(G), *R = EC_POINT_new(G); Pt r;
    { EC_POINT *gp = EC_POINT_new(G); EC_POINT_set_affine_coordinates(G, gp, c.g.x.b, c.g.y.b, bnctx()); EC_GROUP_set_generator(G, gp, c.n.b, BN_value_one()); EC_POINT_free(gp); }
    if (P.inf) EC_POINT_set_to_infinity(G, Q); else EC_POINT_set_affine_coordinates(G, Q, P.x.b, P.y.b, bnctx()); EC_POINT_mul(G, R, nullptr, Q, k.b, bnctx()); if (!EC_POINT_is_at_infinity(G, R)) { r.inf = false; EC_POINT_get_affine_coordinates(G, R, r.x.b, r.y.b, bnctx()); } EC_POINT_free(Q); EC_POINT_free(R); return r;
}
inline void ecp_put(cry_ecp *e, const Pt &P) { if (P.inf) { cry_ecp_set_zero(e); } else { mpi_put(&e->x, P.x); mpi_put(&e->y, P.y); mpi_put(&e->z, Big(1)); } }
inline Pt ecp_val(const cry_ecp *e) { Pt r; if (cry_ecp_is_zero(e)) return r; return pt(mpi_val(&e->x), mpi_val(&e->y)); }
struct Ecp { cry_ecp e; Ecp() { memset(&e, 0xA5, sizeof e); if (cry_ecp_init(&e) != 0) throw Fail{"cry_ecp_init failed"}; } Ecp(const Pt &P) : Ecp() { ecp_put(&e, P); } Ecp(const Ecp &) = delete; ~Ecp() { cry_ecp_clear(&e); } operator cry_ecp *() { return &e; } };
inline void expect_pt(Case &c, const cry_ecp *e, const Pt &want, const char *what, const std::string &ctx)
{
    Pt got = ecp_val(e); std::string w; if (!got.inf) { w = mpi_canon(&e->x) + mpi_canon(&e->y) + mpi_canon(&e->z); c.check(w.empty(), "%s: non-canonical result (%s) for %s", what, w.c_str(), ctx.c_str()); }
    c.check(got == want, "%s: got %s want %s for %s", what, got.str().c_str(), want.str().c_str(), ctx.c_str());
}
inline void grp_put(cry_ecp_grp *G, const Curve &C, bool negA) { mpi_put(&G->p, C.p); mpi_put(&G->a, negA ? C.a - C.p : C.a); mpi_put(&G->b, C.b); mpi_put(&G->n, C.n); ecp_put(&G->g, C.g); }
struct Grpx { cry_ecp_grp G; bool nega; Curve C; Grpx(Case &c, const Curve &C_, bool negA = false) : nega(negA), C(C_) { memset(&G, 0xA5, sizeof G); if (C.id >= 0) c.check(cry_ecp_grp_load(&G, C.id) == 0, "grp_load(%d) failed", C.id); else { c.check(cry_ecp_grp_init(&G) == 0, "grp_init failed"); grp_put(&G, C, negA); } } ~Grpx() { cry_ecp_grp_clear(&G); } operator cry_ecp_grp *() { return &G; }
    void intact(Case &c) { c.check(mpi_val(&G.p) == C.p && pmod(mpi_val(&G.a), C.p) == C.a && mpi_val(&G.b) == C.b && mpi_val(&G.n) == C.n && ecp_val(&G.g) == C.g, "group parameters changed: %s", C.str().c_str()); } };
