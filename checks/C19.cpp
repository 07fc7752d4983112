#include "ec.hpp"
#include "sym.hpp"
extern "C" {
#include <cry/ecdsa.h>
}
static Curve small_curve(u64 idx, size_t bits) // curve of prime order over a small field, found by enumeration
{
    static std::map<u64, Curve> memo; u64 key = idx * 100 + bits; auto it = memo.find(key); if (it != memo.end()) return it->second;
    for (u64 t = 0;; t++) { u64 s = mix64(key, t); Curve C; C.p = det_prime(splitmix(s) % 50, bits); if (C.p < Big(5)) C.p = Big(5); u64 p = C.p.word(); C.a = Big((long)(splitmix(s) % p)); C.b = Big((long)(splitmix(s) % p)); if (C.singular()) continue; std::vector<Pt> all = all_points(C); Big n((long)all.size() + 1); if (n < Big(5) || !isprime(n) || n == C.p) continue; C.n = n; C.g = all[splitmix(s) % all.size()]; memo.emplace(key, C); return C; }
}
static Pt cmul(const Curve &C, const Pt &P, const Big &k) { return C.id >= 0 ? ossl_mul(C, P, k) : C.mul(P, k); }
static Big trunc(const Bytes &h, const Big &q) { size_t n = q.bits(); Big z = Big::bin(h); if (h.size() * 8 > n) z = z >> (h.size() * 8 - n); return z; }
static bool valid(const Curve &C, const Pt &Q, const Bytes &h, const Big &r, const Big &s)
{
    if (r.neg() || s.neg() || r.zero() || s.zero() || r >= C.n || s >= C.n) return false; Big w; if (!modinv(w, s, C.n)) return false; Pt X = C.add(cmul(C, C.g, trunc(h, C.n) * w % C.n), cmul(C, Q, r * w % C.n)); return !X.inf && X.x % C.n == r;
}
struct Ctx {
    cry_ecdsa_ctx x; Curve C; Big d; Pt Q;
    Ctx(Case &c, const Curve &C_) : C(C_) { memset(&x, 0xA5, sizeof x); c.check(cry_ecdsa_init(&x, C.id) == 0, "ecdsa_init failed"); if (C.id < 0) grp_put(&x.grp, C, false); }
    Ctx(Case &c, const Curve &C_, const Big &d_, bool pub, bool pvt) : Ctx(c, C_) { d = d_; Q = cmul(C, C.g, d); if (pvt) mpi_put(&x.d, d); if (pub) ecp_put(&x.q, Q); }
    ~Ctx() { cry_ecdsa_clear(&x); }
    void intact(Case &c, bool pub, bool pvt) { c.check(mpi_val(&x.grp.p) == C.p && mpi_val(&x.grp.n) == C.n && ecp_val(&x.grp.g) == C.g, "group changed"); if (pvt) expect_mpi(c, &x.d, d, "private key changed", ""); if (pub) c.check(ecp_val(&x.q) == Q, "public key changed"); }
    std::string str() const { return C.id >= 0 ? fmt("curve %d d=%s", C.id, d.str().c_str()) : fmt("%s G=%s n=%s d=%s", C.str().c_str(), C.g.str().c_str(), C.n.str().c_str(), d.str().c_str()); }
};
struct Sig { cry_ecdsa_sig s; Sig(const Big &r, const Big &v) { mpi_make(&s.r, r); mpi_make(&s.s, v); } ~Sig() { cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); } Big R() { return mpi_val(&s.r); } Big S() { return mpi_val(&s.s); } };
static Bytes gen_digest(Gen &g, const Big &n) { size_t b = n.nbytes(), l; switch (g.draw(4)) { case 0: l = b; break; case 1: l = g.draw(2 * b + 2); break; case 2: l = b + 1 + g.draw(8); break; case 3: l = g.draw(b); break; default: l = g.pick(std::vector<size_t>{20, 32, 64, 28, 48}); } Bytes h = g.bytes(l); if (l && g.draw(2) == 2) h[0] |= 0x80; return h; }
static Big gen_priv(Gen &g, const Big &n) { Big d = gen_below(g, n); if (d.zero()) d = g.flip() ? Big(1) : n - Big(1); return d; }
static void lib_verify(Case &c, Ctx &V, const Bytes &h, const Big &r, const Big &s, const char *how)
{
    Sig f(r, s); Buf hb(h); bool want = valid(V.C, V.Q, h, r, s); int rc = cry_ecdsa_verify(&V.x, &f.s, hb, h.size()); c.check((rc == 0) == want, "verify (%s) returned %d, signature is %s: r=%s s=%s digest=%s %s", how, rc, want ? "valid" : "invalid", r.str().c_str(), s.str().c_str(), hex(h).c_str(), V.str().c_str());
    expect_mpi(c, &f.s.r, r, "verify changed r", ""); expect_mpi(c, &f.s.s, s, "verify changed s", ""); c.check(hb.v() == h, "verify changed the digest"); c.label(fmt("%s: %s", how, want ? "valid" : "invalid"));
}
static void forge(Gen &g, Case &c, Ctx &V, Bytes h, Big r, Big s)
{
    const Big &q = V.C.n; const char *how = "genuine";
    switch (g.draw(17)) {
    case 0: r = Big(0); how = "r=0"; break; case 1: s = Big(0); how = "s=0"; break; case 2: r = r + q; how = "r+n"; break; case 3: s = s + q; how = "s+n"; break; case 4: r = -r; how = "-r"; break; case 5: s = -s; how = "-s"; break; case 6: s = q - s; how = "n-s"; break;
    case 7: { size_t i = g.draw(q.bits()); if (BN_is_bit_set(r.b, (int)i)) BN_clear_bit(r.b, (int)i); else BN_set_bit(r.b, (int)i); how = "bit of r"; break; } case 8: { size_t i = g.draw(q.bits()); if (BN_is_bit_set(s.b, (int)i)) BN_clear_bit(s.b, (int)i); else BN_set_bit(s.b, (int)i); how = "bit of s"; break; }
    case 9: if (h.size()) { size_t i = g.draw(h.size() * 8 - 1); h[i / 8] ^= 0x80 >> i % 8; how = i < q.bits() ? "digest bit" : "digest bit beyond n"; } break; case 10: if (h.size()) { h.pop_back(); how = "digest shortened"; } break; case 11: h.push_back((u8)g.draw(255)); how = "digest extended"; break;
    case 12: { Big t = r; r = s; s = t; how = "swapped"; break; } case 13: r = gen_below(g, q); s = gen_below(g, q); how = "random pair"; break; case 14: { Ctx O(c, V.C, gen_priv(g, q), true, false); lib_verify(c, O, h, r, s, "other key"); return; }
    case 15: { // (u1 G + u2 Q) is the point at infinity, r = 1 = x of the library's representation of it
        Big z = trunc(h, q); how = "infinity"; r = pmod(-(z * [&] { Big i; modinv(i, V.d, q); return i; }()), q); s = gen_priv(g, q); if (r.zero()) r = Big(1); break; }
    case 16: { how = "infinity r=1"; r = Big(1); s = gen_priv(g, q); Big z = pmod(-V.d, q); Bytes t = z.padded(q.nbytes()); h = (z << (8 * t.size() - q.bits())).padded(t.size()); break; } default: r = q; how = "r=n"; }
    lib_verify(c, V, h, r, s, how);
}
static bool mostly_signable(const Curve &C, const Big &d, const Bytes &h) { if (C.n.bits() > 11) return true; long n = (long)C.n.word(), ok = 0; Big z = trunc(h, C.n); Pt P; for (long k = 1; k < n; k++) { P = C.add(P, C.g); Big r = P.x % C.n; if (r.zero() || ((z + d * r) % C.n).zero()) continue; ok++; } return ok * 2 >= n - 1; }
static int FCURVE = -1; // enumerated cases: this curve
static Curve gen_c(Gen &g, bool named_ok) { if (named_ok && FCURVE >= 0) return named(FCURVE); if (named_ok) { static const int W[] = {0, 5, 6, 0, 1, 5, 2, 7, 8, 3, 4, 9, 10, 1, 6, 2}; return named(W[g.draw(15)]); } return small_curve(g.draw(30), 3 + g.draw(7)); }
static void t_sign(Gen &g, Case &c, bool big)
{
    Curve C = gen_c(g, big); Big d = gen_priv(g, C.n); Ctx S(c, C, d, false, true), V(c, C, d, true, false); Bytes h = gen_digest(g, C.n); seed_prng(g); if (!big && g.draw(3) == 3) { Big z = pmod(-(d * (C.mul(C.g, Big(1 + (long)g.draw(5))).x % C.n)), C.n); size_t nb = C.n.nbytes(); h = (z << (8 * nb - C.n.bits())).padded(nb); }
    Sig f(g.flip() ? gen_int(g, 300) : Big(0), g.flip() ? gen_int(g, 300) : Big(0)); Buf hb(h); int rc = cry_ecdsa_sign(&S.x, &f.s, hb, h.size()); c.check(hb.v() == h, "digest modified"); S.intact(c, false, true);
    if (!mostly_signable(C, d, h)) { c.label("degenerate group"); if (rc != 0) return; } c.check(rc == 0, "sign returned %d: %s digest=%s", rc, S.str().c_str(), hex(h).c_str()); std::string e = mpi_canon(&f.s.r) + mpi_canon(&f.s.s); c.check(e.empty(), "non-canonical signature: %s", e.c_str()); Big r = f.R(), s = f.S();
    c.check(valid(C, S.Q, h, r, s), "signature r=%s s=%s of digest %s does not satisfy the ECDSA equation: %s", r.str().c_str(), s.str().c_str(), hex(h).c_str(), S.str().c_str()); lib_verify(c, V, h, r, s, "signed by library");
    if (big && g.draw(3) == 3) { Sig f2(Big(0), Big(0)); c.check(cry_ecdsa_sign(&S.x, &f2.s, hb, h.size()) == 0, "second sign"); c.check(f2.R() != r, "two signatures share the secret k: %s", S.str().c_str()); c.label("two signatures"); }
    forge(g, c, V, h, r, s); V.intact(c, true, false); c.label(big ? fmt("named curve %d", C.id) : std::string("small curve")); if (h.size() * 8 > C.n.bits()) c.label("digest longer than n"); c.nontrivial(); c.say("sign %s digest=%s r=%s", S.str().c_str(), hex(h).c_str(), r.str().c_str());
}
static void t_verify(Gen &g, Case &c, bool big)
{
    Curve C = gen_c(g, big); Big d = gen_priv(g, C.n); Ctx V(c, C, d, true, g.flip()); Bytes h = gen_digest(g, C.n); Big k = gen_priv(g, C.n), ki, r = cmul(C, C.g, k).x % C.n; modinv(ki, k, C.n); Big s = ki * (trunc(h, C.n) + d * r) % C.n;
    lib_verify(c, V, h, r, s, "signed by model"); forge(g, c, V, h, r, s); if (!big) { forge(g, c, V, h, r, s); for (int i = 0; i < 12; i++) lib_verify(c, V, h, gen_below(g, C.n + Big(2)), gen_below(g, C.n + Big(2)), "small group sweep"); } V.intact(c, true, false); c.nontrivial(); c.say("verify %s digest=%s r=%s s=%s", V.str().c_str(), hex(h).c_str(), r.str().c_str(), s.str().c_str());
}
static void t_secret(Gen &g, Case &c)
{
    Curve C = small_curve(g.draw(30), 10); Big d = gen_priv(g, C.n); Ctx S(c, C, d, true, true); Bytes h = g.bytes(4); Buf hb(h); seed_prng(g); size_t b[4] = {0}; Big z = trunc(h, C.n); std::map<std::string, int> seen;
    for (int i = 0; i < 160; i++) { Sig f(Big(0), Big(0)); c.check(cry_ecdsa_sign(&S.x, &f.s, hb, h.size()) == 0, "sign"); Big w; c.check(modinv(w, f.S(), C.n), "s not invertible"); Big k = (z + d * f.R()) * w % C.n; b[(k * Big(4) / C.n).word()]++; seen[k.str()]++; }
    for (int i = 0; i < 4; i++) c.check(b[i] >= 8, "only %zu of 160 signing secrets in quarter %d of the range: %s", b[i], i, S.str().c_str()); c.check(seen.size() > 60, "signing secrets repeated: %zu distinct of 160", seen.size()); size_t kb[4] = {0};
    for (int i = 0; i < 160; i++) { c.check(cry_ecdsa_keygen(&S.x) == 0, "keygen"); Big k = mpi_val(&S.x.d); c.check(k > Big(0) && k < C.n, "private key %s out of (0,%s)", k.str().c_str(), C.n.str().c_str()); c.check(ecp_val(&S.x.q) == C.mul(C.g, k), "public key is not dG: d=%s %s", k.str().c_str(), C.str().c_str()); kb[(k * Big(4) / C.n).word()]++; }
    for (int i = 0; i < 4; i++) c.check(kb[i] >= 8, "only %zu of 160 private keys in quarter %d of the range", kb[i], i); c.label("secrets cover the range"); c.nontrivial(); c.say("secret %s", S.str().c_str());
}
static void t_keygen(Gen &g, Case &c, bool big)
{
    Curve C = gen_c(g, big); Ctx S(c, C); if (g.flip()) { mpi_put(&S.x.d, gen_int(g, 300)); ecp_put(&S.x.q, C.g); } seed_prng(g); size_t n = big ? 1 : 20; for (size_t i = 0; i < n; i++) { c.check(cry_ecdsa_keygen(&S.x) == 0, "keygen failed"); S.d = mpi_val(&S.x.d); S.Q = ecp_val(&S.x.q); c.check(S.d > Big(0) && S.d < C.n, "private key %s out of (0,%s)", S.d.str().c_str(), C.n.str().c_str()); expect_pt(c, &S.x.q, cmul(C, C.g, S.d), "public key", S.str()); }
    Bytes h = gen_digest(g, C.n); Sig f(Big(0), Big(0)); Buf hb(h); if (big || mostly_signable(C, S.d, h)) { c.check(cry_ecdsa_sign(&S.x, &f.s, hb, h.size()) == 0, "sign with generated key"); lib_verify(c, S, h, f.R(), f.S(), "generated key"); } c.label("keygen"); c.nontrivial(); c.say("keygen %s", S.str().c_str());
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live; switch (g.weighted({400, 400, 20, 40, 12, 12, 6})) { case 0: t_sign(g, c, false); break; case 1: t_verify(g, c, false); break; case 2: t_secret(g, c); break; case 3: t_keygen(g, c, false); break; case 4: t_sign(g, c, true); break; case 5: t_verify(g, c, true); break; default: t_keygen(g, c, true); } c.check(vt.live == live0, "leak of %ld blocks", vt.live - live0);
}
static void fixed(u64 i, Gen &g, Case &c) // each named curve: sign, verify, generate
{
    int id = (int)(i % 11); Curve C = named(id); Big d = gen_priv(g, C.n); Ctx V(c, C, d, true, true); seed_prng(g); Bytes h = g.bytes(i < 11 ? 32 : C.n.nbytes() + 3); Sig f(Big(0), Big(0)); Buf hb(h); c.check(cry_ecdsa_sign(&V.x, &f.s, hb, h.size()) == 0, "sign"); c.check(valid(C, V.Q, h, f.R(), f.S()), "invalid signature %s", V.str().c_str()); lib_verify(c, V, h, f.R(), f.S(), "signed by library"); forge(g, c, V, h, f.R(), f.S()); forge(g, c, V, h, f.R(), f.S()); c.nontrivial(); c.say("named curve %d", id);
}
Prop PROP = {"C19", "prime-order curves over fields of 3..10 bits (order by enumeration) and the 11 named curves, private keys, digests of 0..2|n| bytes, generator seeds; signatures made by the library and by the model, then altered (out of range, negated, bit flips, digest changes inside and beyond the bits of n, combinations that sum to infinity, other keys); every case is non-trivial except a degenerate group", run, 3500, 250000, 120,
 {"OpenSSL EC arithmetic is a correct oracle for the named curves", "distribution of the secret is judged on small curves"}, 22, fixed, 120};
