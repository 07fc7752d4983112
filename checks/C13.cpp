#include "sym.hpp"
#include <openssl/rc4.h>
extern "C" {
#include <cry/arc4.h>
#include <cry/trivium.h>
}
// Bit-serial Trivium (De Canniere and Preneel). Bit convention of the eSTREAM reference code: bit j of byte i of key/IV is
// K_{8i+j+1}; each group of 32 keystream bits z_1..z_32 is output as a little-endian word with z_1 as its most significant bit.
struct Triv {
    std::vector<u8> s; // s[1..288]
    u8 step() {
        u8 t1 = s[66] ^ s[93], t2 = s[162] ^ s[177], t3 = s[243] ^ s[288], z = t1 ^ t2 ^ t3;
        t1 ^= (s[91] & s[92]) ^ s[171]; t2 ^= (s[175] & s[176]) ^ s[264]; t3 ^= (s[286] & s[287]) ^ s[69];
        for (int i = 93; i > 1; i--) s[i] = s[i - 1]; s[1] = t3;
        for (int i = 177; i > 94; i--) s[i] = s[i - 1]; s[94] = t1;
        for (int i = 288; i > 178; i--) s[i] = s[i - 1]; s[178] = t2;
        return z;
    }
    Triv(Bytes k, Bytes iv) : s(289, 0) { // shorter keys and IVs are extended with zeros, only 80 bits of longer ones are used
        k.resize(10); iv.resize(10);
        for (int i = 0; i < 80; i++) { s[1 + i] = k[i / 8] >> i % 8 & 1; s[94 + i] = iv[i / 8] >> i % 8 & 1; }
        s[286] = s[287] = s[288] = 1; for (int i = 0; i < 4 * 288; i++) step();
    }
    Bytes ks(size_t n) { Bytes r; while (r.size() < n) { u32 w = 0; for (int i = 0; i < 32; i++) w = w << 1 | step(); for (int i = 0; i < 4; i++) r.push_back((u8)(w >> 8 * i)); } r.resize(n); return r; }
};
static Bytes rc4(const Bytes &key, size_t n) // own model; cross-checked with OpenSSL's RC4
{
    u8 S[256]; for (int i = 0; i < 256; i++) S[i] = (u8)i; u8 j = 0; for (int i = 0; i < 256; i++) { j = (u8)(j + S[i] + key[i % key.size()]); std::swap(S[i], S[j]); }
    Bytes r(n); u8 x = 0; j = 0; for (size_t i = 0; i < n; i++) { x++; j = (u8)(j + S[x]); std::swap(S[x], S[j]); r[i] = S[(u8)(S[x] + S[j])]; } return r;
}
static bool FTRIV;
static void run(Gen &g, Case &c)
{
    bool triv = g.draw(2) == 2; if (FORCE) triv = FTRIV; Buf m(triv ? sizeof(cry_trivium_ctx) : sizeof(cry_arc4_ctx)); auto *T = (cry_trivium_ctx *)m.p; auto *A = (cry_arc4_ctx *)m.p;
    size_t runs = FORCE ? 1 : 1 + g.draw(2); if (triv) cry_trivium_init(T); else cry_arc4_init(A); std::string h; bool nt = false; Bytes key, iv;
    for (size_t r = 0; r < runs; r++) {
        bool same = r && g.draw(2) == 2;  // restart with the same key (and IV)
        if (!same) { if (triv) { size_t odd = g.draw(15); if (!r || g.flip()) key = g.bytes(odd & 1 && odd > 11 ? g.draw(13) : 10); iv = g.bytes(odd & 2 && odd > 11 ? g.draw(13) : 10); if (key.size() != 10 || iv.size() != 10) c.label("Trivium key or IV not of 80 bits"); } else { size_t kl = 1 + g.size(255, 16); if (kl > 256) kl = 256; if (g.draw(39) == 39) kl = 250 + g.draw(70); key = g.bytes(kl); } }
        { Buf kb(key); if (triv) { cry_trivium_key_set(T, kb, key.size()); Buf ib(iv); cry_trivium_iv_set(T, ib, iv.size()); c.check(ib.v() == iv, "iv modified"); } else cry_arc4_key_set(A, kb, key.size()); c.check(kb.v() == key, "key modified"); }
        size_t n = g.size(g.draw(9) == 9 ? (triv ? 500 : 3000) : 120, triv ? 4 : 16); if (!triv && g.draw(199) == 199) n = 65530 + g.draw(20); if (FORCE) { n = FORCE - g.draw(3); c.label("large call"); }
        Bytes in = g.bytes(n), got, want(in), ks; if (triv) ks = Triv(key, iv).ks(n); else { ks = rc4(key, n); if (g.draw(31) == 31) { RC4_KEY q; RC4_set_key(&q, (int)key.size(), key.data()); Bytes zz(n), kk(n); RC4(&q, n, zz.data(), kk.data()); if (kk != ks) { fprintf(stderr, "oracle disagreement\n"); abort(); } } }
        for (size_t i = 0; i < n; i++) want[i] ^= ks[i];
        std::string cs; size_t at = 0; u64 ipm = g.draw(2); auto ch = g.chunks(n, triv ? 4 : 1, true); if (FORCE) ch = {n};
        for (size_t k : ch) { Bytes p(in.begin() + at, in.begin() + at + k); at += k; bool ip = ipm == 2 ? g.flip() : ipm; cs += fmt("%zu%s,", k, ip ? "i" : "");
            Bytes o = xform(g, c, p, ip, triv ? "Trivium" : "ARC4", [&](u8 *d, const u8 *s, size_t l) { if (triv) cry_trivium_crypt(T, d, s, l); else cry_arc4_crypt(A, d, s, l); }); got.insert(got.end(), o.begin(), o.end()); }
        std::string ctx = fmt("%s keylen=%zu n=%zu pieces=%s key=%s iv=%s after [%s]", triv ? "Trivium" : "ARC4", key.size(), n, cs.c_str(), hex(key).c_str(), hex(iv).c_str(), h.c_str());
        expect_bytes(c, got, want, "stream cipher output", ctx); if (ch.size() > 1 && n > 4) nt = true; if (same) c.label("restarted with same key"); c.label(triv ? "Trivium" : "ARC4"); h += fmt("key%zu n%zu pieces=%s; ", key.size(), n, cs.c_str());
    }
    if (triv) cry_trivium_clear(T); else cry_arc4_clear(A); if (nt) c.nontrivial(); c.say("%s %s key=%s", triv ? "Trivium" : "ARC4", h.c_str(), hex(key, 12).c_str());
}
static void fixed(u64 i, Gen &g, Case &c) { FTRIV = i % 4 == 3; Force f(i / 4, 1, !FTRIV); run(g, c); }
Prop PROP = {"C13", "ARC4 (keys of 1..320 bytes) and Trivium (80-bit key and IV, sometimes given shorter or longer): up to three runs per context with new or repeated keys/IVs, 0..3000 bytes (ARC4 rarely 64 KiB) in generated pieces (ARC4 anywhere, Trivium at 4-byte multiples, last arbitrary, empty pieces), in place or not; output compared with an independent RC4 (cross-checked with OpenSSL) and a bit-serial Trivium. Non-trivial: message in several pieces.", run, 150000, 6000000, 20, {}, 40, fixed, 120};
