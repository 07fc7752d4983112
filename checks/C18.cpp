#include "keys.hpp"
#include "sym.hpp"
extern "C" {
#include <cry/dsa.h>
}
struct Grp { Big p, q, g; };
static Grp grp(u64 idx, size_t qb, size_t pb) // deterministic DSA group, memoised
{
    static std::map<std::pair<u64, size_t>, Grp> memo; auto key = std::make_pair(idx, qb * 100000 + pb); auto it = memo.find(key); if (it != memo.end()) return it->second;
    for (u64 t = 0;; t++) {
        Grp r; r.q = det_prime(idx * 91 + t / 400, qb); Big two_q = r.q + r.q; Big x = det_bits(mix64(idx + 5, t * 31 + pb), pb); r.p = x - x % two_q + Big(1); if (r.p.bits() != pb || !isprime(r.p)) continue;
        Big e = (r.p - Big(1)) / r.q; for (long h = 2; h < 1000; h++) { r.g = modexp(Big(h + (long)idx), e, r.p); if (r.g > Big(1)) break; } if (r.g <= Big(1)) continue;
        memo.emplace(key, r); return r;
    }
}
static size_t FQ = 0, FP = 0; // enumerated sizes used in practice
static Grp gen_grp(Gen &g)
{
    if (FP) return grp(0, FQ, FP);
    size_t qb, pb; switch (g.draw(6)) { case 0: qb = 4 + g.draw(4); pb = qb + 4 + g.draw(8); break; case 1: qb = 8 + g.draw(8); pb = qb + 8 + g.draw(40); break; case 2: qb = 32 * (1 + g.draw(3)); pb = qb + 32 * (1 + g.draw(2)); break;
    case 3: qb = 60 + g.draw(10); pb = 96 + g.draw(40); break; case 4: qb = 160; pb = 256 + 32 * g.draw(3); break; case 5: qb = 120 + g.draw(20); pb = 192; break; default: qb = g.draw(7) == 7 ? 224 : 150 + g.draw(24); pb = 320; }
    return grp(g.draw(3), qb, pb);
}
static Big trunc(const Bytes &h, const Big &q) { size_t n = q.bits(); Big z = Big::bin(h); if (h.size() * 8 > n) z = z >> (h.size() * 8 - n); return z; }
static bool valid(const Grp &G, const Big &y, const Bytes &h, const Big &r, const Big &s)
{
    if (r.neg() || s.neg() || r.zero() || s.zero() || r >= G.q || s >= G.q) return false; Big w; if (!modinv(w, s, G.q)) return false;
    Big u1 = trunc(h, G.q) * w % G.q, u2 = r * w % G.q; return modexp(G.g, u1, G.p) * modexp(y, u2, G.p) % G.p % G.q == r;
}
struct Dsa {
    cry_dsa_ctx x; Grp G; Big d, y;
    Dsa(Case &c) { memset(&x, 0xA5, sizeof x); c.check(cry_dsa_init(&x) == 0, "dsa_init failed"); }
    Dsa(Case &c, const Grp &G_, const Big &d_, bool pub = true, bool pvt = true) : Dsa(c) { G = G_; d = d_; y = modexp(G.g, d, G.p); mpi_put(&x.p, G.p); mpi_put(&x.q, G.q); mpi_put(&x.g, G.g); if (pub) mpi_put(&x.pub, y); if (pvt) mpi_put(&x.pvt, d); }
    ~Dsa() { cry_dsa_clear(&x); }
    void intact(Case &c, bool pub, bool pvt) { expect_mpi(c, &x.p, G.p, "p changed", ""); expect_mpi(c, &x.q, G.q, "q changed", ""); expect_mpi(c, &x.g, G.g, "g changed", ""); if (pub) expect_mpi(c, &x.pub, y, "public key changed", ""); if (pvt) expect_mpi(c, &x.pvt, d, "private key changed", ""); }
    std::string str() const { return fmt("p=%s q=%s g=%s d=%s", G.p.str().c_str(), G.q.str().c_str(), G.g.str().c_str(), d.str().c_str()); }
};
struct Sig { cry_dsa_sig s; Sig(const Big &r, const Big &v) { mpi_make(&s.r, r); mpi_make(&s.s, v); } ~Sig() { cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); } Big R() { return mpi_val(&s.r); } Big S() { return mpi_val(&s.s); } };
static Bytes gen_digest(Gen &g, const Big &q) { size_t n = q.nbytes(), l; switch (g.draw(4)) { case 0: l = n; break; case 1: l = g.draw(2 * n + 2); break; case 2: l = n + 1 + g.draw(8); break; case 3: l = g.draw(n); break; default: l = g.pick(std::vector<size_t>{20, 32, 64, 28, 48}); }
    Bytes h = g.bytes(l); if (l && g.draw(2) == 2) h[0] |= 0x80; return h; }
static Big gen_priv(Gen &g, const Big &q) { Big d = gen_below(g, q); if (d.zero()) d = g.flip() ? Big(1) : q - Big(1); return d; }
static void lib_verify(Case &c, Dsa &D, const Bytes &h, const Big &r, const Big &s, const char *how)
{
    Sig f(r, s); Buf hb(h); bool want = valid(D.G, D.y, h, r, s); int rc = cry_dsa_verify(&D.x, &f.s, hb, h.size());
    c.check((rc == 0) == want, "verify (%s) returned %d, signature is %s: r=%s s=%s digest=%s %s", how, rc, want ? "valid" : "invalid", r.str().c_str(), s.str().c_str(), hex(h).c_str(), D.str().c_str());
    expect_mpi(c, &f.s.r, r, "verify changed r", ""); expect_mpi(c, &f.s.s, s, "verify changed s", ""); c.check(hb.v() == h, "verify changed the digest"); c.label(fmt("%s: %s", how, want ? "valid" : "invalid"));
}
static void forge(Gen &g, Case &c, Dsa &V, Bytes h, Big r, Big s)
{
    const Big &q = V.G.q; const char *how = "genuine";
    switch (g.draw(15)) {
    case 0: r = Big(0); how = "r=0"; break; case 1: s = Big(0); how = "s=0"; break; case 2: r = r + q; how = "r+q"; break; case 3: s = s + q; how = "s+q"; break; case 4: r = -r; how = "-r"; break; case 5: s = -s; how = "-s"; break; case 6: s = q - s; how = "q-s"; break;
    case 7: { size_t i = g.draw(q.bits()); if (BN_is_bit_set(r.b, (int)i)) BN_clear_bit(r.b, (int)i); else BN_set_bit(r.b, (int)i); how = "bit of r"; break; }
    case 8: { size_t i = g.draw(q.bits()); if (BN_is_bit_set(s.b, (int)i)) BN_clear_bit(s.b, (int)i); else BN_set_bit(s.b, (int)i); how = "bit of s"; break; }
    case 9: if (h.size()) { size_t i = g.draw(h.size() * 8 - 1); h[i / 8] ^= 0x80 >> i % 8; how = i < q.bits() ? "digest bit" : "digest bit beyond q"; } break;
    case 10: if (h.size()) { h.pop_back(); how = "digest shortened"; } break; case 11: h.push_back((u8)g.draw(255)); how = "digest extended"; break;
    case 12: { Big t = r; r = s; s = t; how = "swapped"; break; } case 13: r = gen_below(g, q); s = gen_below(g, q); how = "random pair"; break;
    case 14: { Dsa O(c, V.G, gen_priv(g, q)); lib_verify(c, O, h, r, s, "other key"); return; } default: r = q; how = "r=q"; }
    lib_verify(c, V, h, r, s, how);
}
static bool mostly_signable(const Grp &G, const Big &d, const Bytes &h) // small q: at least half of the secrets give a signature
{
    if (G.q.bits() > 12) return true; long q = (long)G.q.word(), ok = 0; Big z = trunc(h, G.q); for (long k = 1; k < q; k++) { Big r = modexp(G.g, Big(k), G.p) % G.q; if (r.zero()) continue; if (((z + d * r) % G.q).zero()) continue; ok++; } return ok * 2 >= q - 1;
}
static void t_sign(Gen &g, Case &c)
{
    Grp G = gen_grp(g); Big d = gen_priv(g, G.q); Dsa S(c, G, d, false, true), V(c, G, d, true, false); Bytes h = gen_digest(g, G.q); seed_prng(g); if (g.draw(3) == 3 && !h.empty()) { // digests that make s=0 likely on small groups
        Big r = modexp(G.g, Big(1 + (long)g.draw(5)), G.p) % G.q; Big z = pmod(-(d * r), G.q); h = z.padded(G.q.nbytes()); Big sh = z << (8 * h.size() - G.q.bits()); if (sh.nbytes() <= h.size()) h = sh.padded(h.size()); }
    Sig f(g.flip() ? gen_int(g, 300) : Big(0), g.flip() ? gen_int(g, 300) : Big(0)); Buf hb(h); int rc = cry_dsa_sign(&S.x, &f.s, hb, h.size()); c.check(hb.v() == h, "digest modified"); S.intact(c, false, true);
    if (!mostly_signable(G, d, h)) { c.label("degenerate group"); if (rc != 0) return; } c.check(rc == 0, "sign returned %d: %s digest=%s", rc, S.str().c_str(), hex(h).c_str());
    std::string e = mpi_canon(&f.s.r) + mpi_canon(&f.s.s); c.check(e.empty(), "non-canonical signature: %s", e.c_str()); Big r = f.R(), s = f.S();
    c.check(valid(G, S.y, h, r, s), "signature r=%s s=%s of digest %s does not satisfy the FIPS 186 equation: %s", r.str().c_str(), s.str().c_str(), hex(h).c_str(), S.str().c_str());
    lib_verify(c, V, h, r, s, "signed by library"); V.intact(c, true, false);
    if (G.q.bits() >= 60) { Sig f2(Big(0), Big(0)); c.check(cry_dsa_sign(&S.x, &f2.s, hb, h.size()) == 0, "second sign"); c.check(f2.R() != r, "two signatures share the secret k: r=%s %s", r.str().c_str(), S.str().c_str()); c.label("two signatures");
        Big w, k; modinv(w, s, G.q); k = (trunc(h, G.q) + d * r) * w % G.q; if (G.q.bits() >= 100) c.check(k.bits() + 50 > G.q.bits(), "secret k of only %zu bits", k.bits()); }
    forge(g, c, V, h, r, s); if (g.flip()) forge(g, c, V, h, r, s);
    c.label(G.q.bits() < 17 ? "q < 17 bits" : "larger q"); if (h.size() * 8 > G.q.bits()) c.label("digest longer than q"); c.nontrivial(); c.say("sign %s digest=%s r=%s", S.str().c_str(), hex(h).c_str(), r.str().c_str());
}
static void t_verify(Gen &g, Case &c) // signatures made by the model with a chosen secret
{
    Grp G = gen_grp(g); Big d = gen_priv(g, G.q); Dsa V(c, G, d, true, g.flip()); Bytes h = gen_digest(g, G.q); Big k = gen_priv(g, G.q), r = modexp(G.g, k, G.p) % G.q, ki; if (!modinv(ki, k, G.q)) throw Skip(); Big s = ki * (trunc(h, G.q) + d * r) % G.q;
    lib_verify(c, V, h, r, s, "signed by model"); forge(g, c, V, h, r, s); if (G.q.bits() < 9) for (int i = 0; i < 40; i++) lib_verify(c, V, h, gen_below(g, G.q + Big(2)), gen_below(g, G.q + Big(2)), "small group sweep");
    // universal forgery attempts: r,s computed without d
    { Big u = gen_priv(g, G.q), r2 = modexp(G.g, u, G.p) * V.y % G.p % G.q; lib_verify(c, V, h, r2, r2, "key-only forgery"); lib_verify(c, V, h, modexp(G.g, u, G.p), G.q, "s=q forgery"); }
    V.intact(c, true, false); c.nontrivial(); c.say("verify %s digest=%s r=%s s=%s", V.str().c_str(), hex(h).c_str(), r.str().c_str(), s.str().c_str());
}
static void t_secret(Gen &g, Case &c) // the signing secret, recovered from the signature, covers its range
{
    Grp G = grp(g.draw(3), 24 + g.draw(40), 96); Big d = gen_priv(g, G.q); Dsa S(c, G, d); Bytes h = g.bytes(8); Buf hb(h); seed_prng(g); size_t b[4] = {0}; std::map<std::string, int> seen; Big z = trunc(h, G.q);
    for (int i = 0; i < 160; i++) { Sig f(Big(0), Big(0)); c.check(cry_dsa_sign(&S.x, &f.s, hb, h.size()) == 0, "sign"); Big w; c.check(modinv(w, f.S(), G.q), "s not invertible"); Big k = (z + d * f.R()) * w % G.q; b[(k * Big(4) / G.q).word()]++; seen[k.str()]++; }
    for (int i = 0; i < 4; i++) c.check(b[i] >= 8, "only %zu of 160 signing secrets in quarter %d of the range: %s", b[i], i, S.str().c_str()); c.check(seen.size() > 150, "signing secrets repeated: %zu distinct of 160", seen.size()); c.label("secrets cover the range"); c.nontrivial(); c.say("secret %s", S.str().c_str());
}
static void t_keygen(Gen &g, Case &c)
{
    Dsa D(c); if (g.flip()) { mpi_put(&D.x.p, gen_int(g, 600)); mpi_put(&D.x.q, gen_int(g, 200)); mpi_put(&D.x.pvt, gen_int(g, 900)); mpi_put(&D.x.pub, gen_int(g, 200)); mpi_put(&D.x.g, gen_int(g, 200)); }
    seed_prng(g); unsigned l = g_thorough ? (unsigned)g.draw(3) : (unsigned)(g.draw(7) == 7); int rc = cry_dsa_keygen(&D.x, l); c.check(rc == 0, "keygen returned %d", rc);
    D.G.p = mpi_val(&D.x.p); D.G.q = mpi_val(&D.x.q); D.G.g = mpi_val(&D.x.g); D.d = mpi_val(&D.x.pvt); D.y = mpi_val(&D.x.pub); const Grp &G = D.G; std::string e = mpi_canon(&D.x.p) + mpi_canon(&D.x.q) + mpi_canon(&D.x.g) + mpi_canon(&D.x.pvt) + mpi_canon(&D.x.pub); c.check(e.empty(), "non-canonical key: %s", e.c_str());
    std::string s = fmt("y=%s ", D.y.str().c_str()) + D.str(); c.check(G.p.bits() == 512 + 64 * l, "p of %zu bits for l=%u: %s", G.p.bits(), l, s.c_str()); c.check(G.q.bits() == 160, "q of %zu bits", G.q.bits()); c.check(isprime(G.p), "p not prime: %s", s.c_str()); c.check(isprime(G.q), "q not prime: %s", s.c_str());
    c.check(((G.p - Big(1)) % G.q).zero(), "q does not divide p-1: %s", s.c_str()); c.check(G.g > Big(1) && G.g < G.p && modexp(G.g, G.q, G.p) == Big(1), "g is no generator of order q: %s", s.c_str()); c.check(D.d > Big(0) && D.d < G.q, "private key out of (0,q): %s", s.c_str()); c.check(modexp(G.g, D.d, G.p) == D.y, "public key does not match: %s", s.c_str());
    c.check(D.d.bits() > 90, "private key of only %zu bits", D.d.bits()); Bytes h = g.bytes(32); Sig f(Big(0), Big(0)); Buf hb(h); c.check(cry_dsa_sign(&D.x, &f.s, hb, 32) == 0, "sign with generated key"); lib_verify(c, D, h, f.R(), f.S(), "generated key"); c.label("keygen"); c.nontrivial(); c.say("keygen l=%u %s", l, s.c_str());
}
static void run(Gen &g, Case &c) { switch (g.weighted({400, 360, 4, 1})) { case 0: t_sign(g, c); break; case 1: t_verify(g, c); break; case 2: t_secret(g, c); break; default: t_keygen(g, c); } }
static void fixed(u64 i, Gen &g, Case &c)
{
    if (i < 24) { t_keygen(g, c); return; } i -= 24; static const size_t B[][2] = {{160, 1024}, {224, 2048}, {256, 2048}, {256, 3072}};
    FQ = B[i / 2][0]; FP = B[i / 2][1]; struct Off { ~Off() { FQ = FP = 0; } } off; if (i % 2) t_verify(g, c); else t_sign(g, c); c.label(fmt("FIPS 186 size (%zu,%zu)", FP, FQ));
}
Prop PROP = {"C18", "random DSA groups (q of 4..256 bits, p up to 336 bits, the FIPS 186 sizes (1024,160) (2048,224) (2048,256) (3072,256), generated keys from 512 bits), private keys, digests of 0..2|q| bytes, generator seeds; signatures made by the library and by the model, then altered (out-of-range components, bit flips, digest changes inside and beyond the bits of q, other keys, key-only forgeries); every case is non-trivial except a degenerate group", run, 6000, 200000, 120,
 {"OpenSSL BIGNUM is a correct oracle", "distribution of the signing secret beyond freshness is not decided"}, 32, fixed, 300};
