#include "sym.hpp"
extern "C" {
#include <cry/prng.h>
}
// ---- models ------------------------------------------------------------------------------------------------------
struct AesModel { Bytes key, ctr, left; AES_KEY k;
    void seed(const Bytes &s) { key.assign(16, 0); ctr.assign(16, 0); for (size_t i = 0; i < s.size() && i < 32; i++) (i < 16 ? key[i] : ctr[i - 16]) = s[i]; AES_set_encrypt_key(key.data(), 128, &k); left.clear(); }
    Bytes get(size_t n) { Bytes o; while (o.size() < n) { if (left.empty()) { left.resize(16); AES_encrypt(ctr.data(), left.data(), &k); for (int i = 15; i >= 0 && ++ctr[i] == 0; i--); } size_t t = std::min(n - o.size(), left.size()); o.insert(o.end(), left.begin(), left.begin() + t); left.erase(left.begin(), left.begin() + t); } return o; } };
struct LfsrModel { u32 z[4];
    void seed(const Bytes &s) { Bytes b(16, 0); for (size_t i = 0; i < s.size(); i++) b[i % 16] ^= s[i]; static const u32 lim[] = {1, 7, 15, 127}; for (int i = 0; i < 4; i++) { memcpy(&z[i], &b[4 * i], 4); if (z[i] <= lim[i]) z[i] = 987654321u; } }
    u32 next() { // L'Ecuyer 1999, table entry for LFSR113: (k,q,s) = (31,6,18) (29,2,2) (28,13,7) (25,3,13)
        static const int K[] = {31, 29, 28, 25}, Q[] = {6, 2, 13, 3}, S[] = {18, 2, 7, 13}; u32 r = 0; for (int i = 0; i < 4; i++) { u32 b = ((z[i] << Q[i]) ^ z[i]) >> (K[i] - S[i]); z[i] = ((z[i] & (0xffffffffu << (32 - K[i]))) << S[i]) ^ b; r ^= z[i]; } return r; }
    Bytes get(size_t n) { Bytes o; while (o.size() < n) { u32 r = next(); for (int k = 0; k < 4 && o.size() < n; k++, r <<= 8) o.push_back((u8)(r >> 24)); } return o; } };
static Bytes gen_seed(Gen &g, bool lfsr)
{
    size_t n; switch (g.draw(5)) { case 0: n = g.draw(16); break; case 1: n = 16; break; case 2: n = 17 + g.draw(15); break; case 3: n = 32; break; case 4: n = 33 + g.draw(70); break; default: n = lfsr ? 16 : g.draw(300); }
    Bytes s = g.bytes(n); if (!lfsr && s.size() >= 32 && g.draw(2) == 2) { size_t k = 1 + g.draw(15); for (size_t i = 0; i < k; i++) s[31 - i] = 0xff; s[31] -= (u8)g.draw(3); } // counter wrap-around
    if (lfsr && s.size() >= 16 && g.draw(2) == 2) { static const u32 lim[] = {1, 7, 15, 127}; Bytes f(16, 0); for (size_t i = 0; i < s.size(); i++) f[i % 16] ^= s[i]; for (int i = 0; i < 4; i++) if (g.flip()) { u32 v = (u32)std::max<i64>(0, (i64)lim[i] - 1 + (i64)g.draw(2)); u8 w[4]; memcpy(w, &v, 4); for (int k = 0; k < 4; k++) s[4 * i + k] ^= f[4 * i + k] ^ w[k]; } }
    return s;
}
static void lib_seed(Case &c, bool lfsr, const Bytes &s) { Buf b(s); c.check((lfsr ? cry_prng_lfsr113_init(s.empty() ? nullptr : b.p, s.size()) : cry_prng_aes_init(s.empty() ? nullptr : b.p, s.size())) == 0, "init failed"); c.check(b.v() == s, "init changed the seed"); }
static Bytes lib_get(Gen &g, Case &c, bool lfsr, size_t n) { size_t off = g.draw(3) == 3 ? g.draw(7) : 0; ABuf b(off, n); c.check((lfsr ? cry_prng_lfsr113_rand(b.p(), n) : cry_prng_aes_rand(b.p(), n)) == 0, "rand failed"); c.check(b.front_ok(), "rand wrote before its buffer"); return b.v(); }
static size_t gen_req(Gen &g) { switch (g.draw(4)) { case 0: return g.draw(5); case 1: return g.draw(20); case 2: return g.size(300, 16); case 3: return 16 * g.draw(5); default: return g.draw(80); } }
template <class M> static void history(Gen &g, Case &c, bool lfsr)
{
    M m; size_t n = 2 + g.draw(14), reseeds = 0, total = 0; Bytes s = gen_seed(g, lfsr); std::string h = fmt("%s seed=%s", lfsr ? "lfsr113" : "aes", hex(s, 40).c_str()); if (g.flip()) lib_get(g, c, lfsr, g.draw(40)); // history before seeding is irrelevant
    lib_seed(c, lfsr, s); m.seed(s);
    for (size_t i = 0; i < n; i++) {
        if (g.draw(7) == 7) { s = gen_seed(g, lfsr); lib_seed(c, lfsr, s); m.seed(s); reseeds++; h += " reseed=" + hex(s, 40); }
        else { size_t k = gen_req(g); total += k; h += fmt(" %zu", k); expect_bytes(c, lib_get(g, c, lfsr, k), m.get(k), "generator output", h); }
    }
    if (reseeds) c.label(fmt("%s reseeded", lfsr ? "lfsr113" : "aes")); if (s.size() < 16) c.label("short seed"); if (s.size() > 32) c.label("long seed"); if (total) c.nontrivial(); c.label(lfsr ? "lfsr113" : "aes"); c.say("%s", h.c_str());
}
static void t_both(Gen &g, Case &c) // the two generators do not disturb each other
{
    AesModel a; LfsrModel l; Bytes sa = gen_seed(g, false), sl = gen_seed(g, true); lib_seed(c, false, sa); lib_seed(c, true, sl); a.seed(sa); l.seed(sl); std::string h = "interleaved";
    for (size_t i = 0, n = 2 + g.draw(10); i < n; i++) { bool f = g.flip(); size_t k = gen_req(g); h += fmt(" %s%zu", f ? "l" : "a", k); expect_bytes(c, lib_get(g, c, f, k), f ? l.get(k) : a.get(k), "generator output", h); } c.label("interleaved"); c.nontrivial(); c.say("%s", h.c_str());
}
static void t_sens(Gen &g, Case &c) // every one of the first 32 seed bytes matters to the AES generator
{
    Bytes s = g.bytes(32); lib_seed(c, false, s); Bytes a = lib_get(g, c, false, 48); size_t i = g.draw(31); s[i] ^= (u8)(1u << g.draw(7)); lib_seed(c, false, s); Bytes b = lib_get(g, c, false, 48); c.check(a != b, "changing seed byte %zu does not change the output", i); c.label("seed sensitivity"); c.nontrivial(); c.say("seed byte %zu", i);
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live; switch (g.weighted({10, 10, 4, 1})) { case 0: history<AesModel>(g, c, false); break; case 1: history<LfsrModel>(g, c, true); break; case 2: t_both(g, c); break; default: t_sens(g, c); } c.check(vt.live == live0, "leak");
}
static void fixed(u64 i, Gen &g, Case &c) // first use in a process: unseeded generators behave as seeded with nothing; large requests
{
    if (i >= 16) { i -= 16; bool l = i & 1; Force f(i / 2, 1, false); Bytes s = gen_seed(g, l); lib_seed(c, l, s); size_t n = FORCE + g.draw(40), k = g.draw(20); AesModel a; LfsrModel q; if (l) q.seed(s); else a.seed(s); for (size_t z : {k, n, k}) expect_bytes(c, lib_get(g, c, l, z), l ? q.get(z) : a.get(z), "generator output", fmt("%s seed=%s request of %zu", l ? "lfsr113" : "aes", hex(s).c_str(), z)); c.label("large request"); c.nontrivial(); c.say("large request %zu", n); return; }
    if (i >= 8) { lib_seed(c, false, {}); lib_seed(c, true, {}); } AesModel a; LfsrModel l; a.seed({}); l.seed({}); size_t k = 1 + 13 * i; expect_bytes(c, lib_get(g, c, false, k), a.get(k), "unseeded aes", ""); expect_bytes(c, lib_get(g, c, true, k), l.get(k), "unseeded lfsr113", ""); expect_bytes(c, lib_get(g, c, false, 40), a.get(40), "unseeded aes", ""); expect_bytes(c, lib_get(g, c, true, 40), l.get(40), "unseeded lfsr113", ""); c.label("unseeded"); c.nontrivial(); c.say("unseeded, %zu bytes", k);
}
Prop PROP = {"C23", "histories of seedings (seed lengths 0..300, counters about to wrap, state words around their minima) and requests of 0..300 bytes at odd alignments, both generators also interleaved; non-trivial: at least one byte requested", run, 1200000, 40000000, 10, {"OpenSSL AES is a correct oracle", "little-endian host for the state words of LFSR113"}, 16 + 10, fixed, 60};
