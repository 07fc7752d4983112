#include "keys.hpp"
#include "sym.hpp"
extern "C" {
#include <cry/elgamal.h>
}
struct Grp { Big p, g; };
static Grp grp(u64 idx, size_t bits)
{
    static std::map<std::pair<u64, size_t>, Grp> memo; auto key = std::make_pair(idx, bits); auto it = memo.find(key); if (it != memo.end()) return it->second;
    Grp r; r.p = det_prime(idx * 7 + 3, bits); if (r.p < Big(5)) r.p = Big(5); Big t = r.p - Big(1); std::vector<Big> f; // distinct small prime factors; enough to make g a generator for small p
    Big m = t; for (long q = 2; q < 5000; q++) if ((m % Big(q)).zero()) { f.push_back(Big(q)); while ((m % Big(q)).zero()) m = m / Big(q); } if (m > Big(1) && bits < 24) f.push_back(m);
    for (long h = 2;; h++) { bool ok = true; for (auto &q : f) if (modexp(Big(h), t / q, r.p) == Big(1)) { ok = false; break; } if (ok) { r.g = Big(h) % r.p; break; } }
    memo.emplace(key, r); return r;
}
static size_t FBITS = 0; // enumerated sizes used in practice
static Grp gen_grp(Gen &g)
{
    if (FBITS) return grp(0, FBITS);
    switch (g.draw(6)) { case 0: return grp(g.draw(9), 3 + g.draw(5)); case 1: return grp(g.draw(9), 8 + g.draw(12)); case 2: return grp(g.draw(3), 32 * (1 + g.draw(5))); case 3: return grp(g.draw(3), 60 + g.draw(10)); case 4: return grp(g.draw(3), 124 + g.draw(8)); case 5: return grp(g.draw(2), 256); default: return grp(g.draw(1), 200 + g.draw(60)); }
}
static bool valid(const Grp &G, const Big &y, const Bytes &h, const Big &r, const Big &s)
{
    if (h.size() > G.p.nbytes() || r.neg() || s.neg() || r.zero() || s.zero() || r >= G.p || s >= G.p - Big(1)) return false;
    return modexp(G.g, Big::bin(h), G.p) == modexp(y, r, G.p) * modexp(r, s, G.p) % G.p;
}
struct Eg {
    cry_elgamal_ctx x; Grp G; Big d, y;
    Eg(Case &c, const Grp &G_, const Big &d_, bool pub, bool pvt) : G(G_), d(d_)
    {
        memset(&x, 0xA5, sizeof x); c.check(cry_elgamal_init(&x) == 0, "init failed"); y = modexp(G.g, d, G.p); mpi_put(&x.p, G.p); mpi_put(&x.g, G.g); if (pub) mpi_put(&x.y, y); if (pvt) mpi_put(&x.d, d);
    }
    ~Eg() { cry_elgamal_clear(&x); }
    void intact(Case &c, bool pub, bool pvt) { expect_mpi(c, &x.p, G.p, "p changed", ""); expect_mpi(c, &x.g, G.g, "g changed", ""); if (pub) expect_mpi(c, &x.y, y, "y changed", ""); if (pvt) expect_mpi(c, &x.d, d, "d changed", ""); }
    std::string str() const { return fmt("p=%s g=%s d=%s y=%s", G.p.str().c_str(), G.g.str().c_str(), d.str().c_str(), y.str().c_str()); }
};
struct Sig { cry_elgamal_sig s; Sig(const Big &r, const Big &v) { mpi_make(&s.r, r); mpi_make(&s.s, v); } ~Sig() { cry_mpi_clear(&s.r); cry_mpi_clear(&s.s); } Big R() { return mpi_val(&s.r); } Big S() { return mpi_val(&s.s); } };
static Big gen_priv(Gen &g, const Grp &G) { Big d = gen_below(g, G.p - Big(1)); if (d.zero()) d = Big(1); return d; }
static Bytes gen_digest(Gen &g, const Big &p) { size_t b = p.nbytes(); return g.bytes(g.draw(3) == 0 ? b : g.draw(b)); }
static Bytes cat(const Big &r, const Big &s, size_t n) { Bytes a = r.padded(n), b = s.padded(n); a.insert(a.end(), b.begin(), b.end()); return a; }
static void lib_verify(Case &c, Eg &V, const Bytes &h, const Big &r, const Big &s, const char *how)
{
    Buf hb(h); bool want = valid(V.G, V.y, h, r, s); size_t nb = V.G.p.nbytes();
    { Sig f(r, s); int rc = cry_elgamal_verify2(&V.x, &f.s, hb, h.size()); c.check((rc == 0) == want, "verify2 (%s) returned %d, signature is %s: r=%s s=%s digest=%s %s", how, rc, want ? "valid" : "invalid", r.str().c_str(), s.str().c_str(), hex(h).c_str(), V.str().c_str());
      expect_mpi(c, &f.s.r, r, "verify changed r", ""); expect_mpi(c, &f.s.s, s, "verify changed s", ""); }
    if (!r.neg() && !s.neg() && r.nbytes() <= nb && s.nbytes() <= nb) {
        Bytes w = cat(r, s, nb); Buf b(w); int rc = cry_elgamal_verify(&V.x, b, hb, h.size()); c.check((rc == 0) == want, "verify (%s) returned %d, signature is %s: r=%s s=%s digest=%s %s", how, rc, want ? "valid" : "invalid", r.str().c_str(), s.str().c_str(), hex(h).c_str(), V.str().c_str()); c.check(b.v() == w, "verify changed the signature");
    }
    c.check(hb.v() == h, "verify changed the digest"); c.label(fmt("%s: %s", how, want ? "valid" : "invalid"));
}
static void forge(Gen &g, Case &c, Eg &V, Bytes h, Big r, Big s)
{
    const Big &p = V.G.p; Big t = p - Big(1); const char *how = "genuine";
    switch (g.draw(19)) {
    case 0: r = Big(0); how = "r=0"; break; case 1: s = Big(0); how = "s=0"; break; case 2: r = r + p; how = "r+p"; break; case 3: s = s + t; how = "s+(p-1)"; break; case 4: r = -r; how = "-r"; break; case 5: s = -s; how = "-s"; break; case 6: s = t - s; how = "p-1-s"; break;
    case 7: case 8: { Big &z = g.flip() ? r : s; size_t i = g.draw(p.bits()); if (BN_is_bit_set(z.b, (int)i)) BN_clear_bit(z.b, (int)i); else BN_set_bit(z.b, (int)i); how = "bit flip"; break; }
    case 9: if (h.size()) { size_t i = g.draw(h.size() * 8 - 1); h[i / 8] ^= 0x80 >> i % 8; how = "digest bit"; } break; case 10: if (h.size()) { h.pop_back(); how = "digest shortened"; } break; case 11: h.push_back((u8)g.draw(255)); how = "digest extended"; break;
    case 12: { Big u = r; r = s; s = u; how = "swapped"; break; } case 13: r = gen_below(g, p); s = gen_below(g, p); how = "random pair"; break; case 14: { Eg O(c, V.G, gen_priv(g, V.G), true, false); lib_verify(c, O, h, r, s, "other key"); return; }
    case 15: { // Bleichenbacher: from a valid (r,s) on h derive one for h2 with r out of range
        Big i, hz = Big::bin(h); if (!modinv(i, hz, t)) break; Bytes h2 = gen_digest(g, p); Big u = Big::bin(h2) * i % t; Big s2 = s * u % t, rp = r * u % t; // r2 = rp mod (p-1), r mod p
        Big d = pmod(r - rp, p); Big r2 = rp + t * pmod(-d, p); r = r2; s = s2; h = h2; how = "CRT out-of-range r"; break; }
    case 16: { Big e = gen_priv(g, V.G); r = modexp(V.G.g, e, p) * V.y % p; s = pmod(-r, t); Big m = e * s % t; h = m.padded(p.nbytes()); how = "existential (r = g^e y)"; break; } // valid by the equation
    case 17: r = p; how = "r=p"; break; case 18: s = t; how = "s=p-1"; break; default: r = t; how = "r=p-1"; }
    lib_verify(c, V, h, r, s, how);
}
static bool mostly_signable(const Grp &G, const Big &d, const Bytes &h)
{
    if (G.p.bits() > 12) return true; long t = (long)G.p.word() - 1, ok = 0, tot = 0; Big T(t), z = Big::bin(h), r(1);
    for (long k = 1; k < t; k++) { r = r * G.g % G.p; if (gcdb(Big(k), T) != Big(1)) continue; tot++; if (!pmod(z - d * r, T).zero()) ok++; }
    return tot && ok * 2 >= tot;
}
static void t_sign(Gen &g, Case &c)
{
    Grp G = gen_grp(g); Big d = gen_priv(g, G); Eg S(c, G, d, g.flip(), true), V(c, G, d, true, false); Bytes h = gen_digest(g, G.p); seed_prng(g); size_t nb = G.p.nbytes(); Buf hb(h); Big r, s; bool two = g.flip(); int rc;
    if (G.p.bits() <= 12 && g.draw(3) == 3) h = pmod(d * modexp(G.g, Big(1 + (long)g.draw(7)), G.p), G.p - Big(1)).padded(nb);
    Buf hb2(h);
    if (two) { Sig f(g.flip() ? gen_int(g, 300) : Big(0), g.flip() ? gen_int(g, 300) : Big(0)); rc = cry_elgamal_sign2(&S.x, &f.s, hb2, h.size()); if (rc == 0) { std::string e = mpi_canon(&f.s.r) + mpi_canon(&f.s.s); c.check(e.empty(), "non-canonical signature: %s", e.c_str()); r = f.R(); s = f.S(); } }
    else { Buf o(2 * nb); rc = cry_elgamal_sign(&S.x, o, hb2, h.size()); if (rc == 0) { r = Big::bin(o.p, nb); s = Big::bin(o.p + nb, nb); } }
    c.check(hb2.v() == h, "digest modified"); S.intact(c, false, true); if (!mostly_signable(G, d, h)) { c.label("degenerate group"); if (rc != 0) return; }
    c.check(rc == 0, "sign returned %d: %s digest=%s", rc, S.str().c_str(), hex(h).c_str()); c.check(valid(G, S.y, h, r, s), "signature r=%s s=%s of digest %s does not satisfy the ElGamal equation: %s", r.str().c_str(), s.str().c_str(), hex(h).c_str(), S.str().c_str());
    lib_verify(c, V, h, r, s, "signed by library"); if (G.p.bits() >= 60) { Buf o(2 * nb); c.check(cry_elgamal_sign(&S.x, o, hb2, h.size()) == 0, "second sign"); c.check(Big::bin(o.p, nb) != r, "two signatures share the secret k: %s", S.str().c_str()); c.label("two signatures"); }
    forge(g, c, V, h, r, s); V.intact(c, true, false); c.label(two ? "component interface" : "byte interface"); c.nontrivial(); c.say("sign %s digest=%s r=%s", S.str().c_str(), hex(h).c_str(), r.str().c_str());
}
static void t_verify(Gen &g, Case &c)
{
    Grp G = gen_grp(g); Big d = gen_priv(g, G), t = G.p - Big(1); Eg V(c, G, d, true, g.flip()); Bytes h = gen_digest(g, G.p); Big k, ki, r, s; for (int i = 0; i < 200; i++) { k = gen_below(g, t); if (modinv(ki, k, t)) break; k = Big(1); ki = Big(1); } r = modexp(G.g, k, G.p); s = pmod(Big::bin(h) - d * r, t) * ki % t;
    lib_verify(c, V, h, r, s, "signed by model"); forge(g, c, V, h, r, s); forge(g, c, V, h, r, s); if (G.p.bits() <= 9) for (int i = 0; i < 24; i++) lib_verify(c, V, h, gen_below(g, G.p + Big(2)), gen_below(g, G.p + Big(2)), "small group sweep"); V.intact(c, true, false); c.nontrivial(); c.say("verify %s digest=%s r=%s s=%s", V.str().c_str(), hex(h).c_str(), r.str().c_str(), s.str().c_str());
}
static void t_len(Gen &g, Case &c) // digest longer than the modulus is refused by all four calls
{
    Grp G = gen_grp(g); Big d = gen_priv(g, G); Eg S(c, G, d, true, true); size_t nb = G.p.nbytes(); Bytes h = g.bytes(nb + 1 + g.draw(40)); Buf hb(h), o(2 * nb); seed_prng(g); Sig f(Big(1), Big(1)); c.check(cry_elgamal_sign(&S.x, o, hb, h.size()) != 0 && cry_elgamal_sign2(&S.x, &f.s, hb, h.size()) != 0, "digest of %zu bytes signed with a modulus of %zu bytes", h.size(), nb);
    c.check(cry_elgamal_verify(&S.x, o, hb, h.size()) != 0 && cry_elgamal_verify2(&S.x, &f.s, hb, h.size()) != 0, "too long digest verified"); c.label("too long digest"); c.nontrivial(); c.say("digest of %zu bytes, modulus of %zu", h.size(), nb);
}
static void t_secret(Gen &g, Case &c)
{
    Grp G = grp(g.draw(9), 10 + g.draw(3)); Big d = gen_priv(g, G), t = G.p - Big(1); Eg S(c, G, d, true, true); size_t nb = G.p.nbytes(); Bytes h = g.bytes(nb - 1); Buf hb(h); seed_prng(g); std::map<std::string, long> dl; Big r(1); long T = (long)t.word(); for (long k = 0; k < T; k++) { dl[r.str()] = k; r = r * G.g % G.p; }
    size_t b[4] = {0}; std::map<long, int> seen; for (int i = 0; i < 160; i++) { Buf o(2 * nb); c.check(cry_elgamal_sign(&S.x, o, hb, h.size()) == 0, "sign"); auto it = dl.find(Big::bin(o.p, nb).str()); c.check(it != dl.end(), "r outside the group"); long k = it->second; c.check(gcdb(Big(k), t) == Big(1), "signing secret %ld not a unit modulo p-1=%ld", k, T); b[k * 4 / T]++; seen[k]++; }
    long units = 0; for (long k = 1; k < T; k++) units += gcdb(Big(k), t) == Big(1); for (int i = 0; i < 4; i++) c.check(b[i] >= 8, "only %zu of 160 signing secrets in quarter %d of the range: %s", b[i], i, S.str().c_str()); if (units > 200) c.check(seen.size() > 50, "signing secrets repeated: %zu distinct of 160, %ld units", seen.size(), units); c.label("secrets cover the range"); c.nontrivial(); c.say("secrets %s", S.str().c_str());
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live; switch (g.weighted({40, 50, 2, 4})) { case 0: t_sign(g, c); break; case 1: t_verify(g, c); break; case 2: t_secret(g, c); break; default: t_len(g, c); } c.check(vt.live == live0, "leak of %ld blocks", vt.live - live0);
}
static void fixed(u64 i, Gen &g, Case &c)
{
    static const size_t B[] = {512, 1024, 1024, 1536, 2048}; FBITS = B[i / 2]; struct Off { ~Off() { FBITS = 0; } } off; if (i % 2) t_verify(g, c); else t_sign(g, c); c.label(fmt("%zu-bit modulus", FBITS));
}
Prop PROP = {"C20", "prime groups of 3..260 bits (and enumerated ones up to 2048 bits) with a generator, private keys, digests of 0..|p| bytes and beyond, generator seeds; signatures made by the library (both interfaces) and by the model, then altered (out of range, CRT-combined, negated, bit flips, digest changes, existential forgeries, other keys); every case is non-trivial except a degenerate group", run, 9000, 600000, 60,
 {"distribution of the secret is judged on small groups where its discrete logarithm can be tabulated"}, 10, fixed, 300};
