#include "sym.hpp"
extern "C" {
#include <cry/hill.h>
#include <cry/affine.h>
#include <cry/prng.h>
}
static bool odd_det(const Bytes &k, size_t n) // determinant modulo 2 by elimination
{
    std::vector<Bytes> m(n, Bytes(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m[i][j] = k[i * n + j] & 1;
    for (size_t i = 0; i < n; i++) { size_t p = i; while (p < n && !m[p][i]) p++; if (p == n) return false; std::swap(m[p], m[i]); for (size_t r = i + 1; r < n; r++) if (m[r][i]) for (size_t j = 0; j < n; j++) m[r][j] ^= m[i][j]; } return true;
}
static Bytes apply(const Bytes &k, size_t n, Bytes in) { while (in.size() % n) in.push_back(0); Bytes o(in.size()); for (size_t b = 0; b < in.size(); b += n) for (size_t i = 0; i < n; i++) { unsigned s = 0; for (size_t j = 0; j < n; j++) s += k[i * n + j] * in[b + j]; o[b + i] = (u8)s; } return o; }
static void hill_use(Gen &g, Case &c, cry_hill_ctx &x, const Bytes &key, size_t n)
{
    for (int rep = 0; rep < 2; rep++) {
        Bytes in = g.sbytes(60, n); if (FORCE) in = g.bytes(FORCE + g.draw(8)); Bytes want = apply(key, n, in); std::string ctx = fmt("n=%zu key=%s in=%s", n, hex(key).c_str(), hex(in).c_str()); Buf s(in), d(want.size()), e(want.size()); cry_hill_encrypt(&x, d, s, in.size()); c.check(s.v() == in, "encrypt changed its input"); expect_bytes(c, d.v(), want, "hill encrypt", ctx);
        cry_hill_decrypt(&x, e, d, want.size()); Bytes back = in; back.resize(want.size(), 0); expect_bytes(c, e.v(), back, "hill decrypt", ctx); c.check(d.v() == want, "decrypt changed its input"); if (in.size() % n) c.label("partial block");
    }
}
static void t_hill(Gen &g, Case &c, size_t nmax)
{
    size_t n = nmax > 6 ? 7 + g.draw(nmax - 7) : 1 + g.draw(nmax - 1), extra = g.draw(2) == 2 ? g.draw(2 * n) : 0, kl = n * n + extra; if (nmax > 6 && n == 10) kl = 100 + g.draw(50); Bytes k = g.bytes(kl); cry_hill_ctx x; memset(&x, 0xA5, sizeof x); Bytes key(k.begin(), k.begin() + n * n);
    if (g.draw(2)) { for (int t = 0; t < 20 && !odd_det(key, n); t++) { size_t i = g.draw(n * n - 1); key[i] ^= 1; k[i] ^= 1; if (!odd_det(key, n)) { i = g.draw(n - 1) * (n + 1); key[i] ^= 1; k[i] ^= 1; } } }
    Buf kb(k); bool inv = odd_det(key, n); int rc = cry_hill_init(&x, kb, nullptr, kl); c.check(kb.v() == k, "init changed the key"); c.check((rc == 0) == inv, "init returned %d for a key that is%s invertible: n=%zu key=%s", rc, inv ? "" : " not", n, hex(key).c_str()); c.label(fmt("hill n=%zu %s", n, inv ? "invertible" : "singular")); c.nontrivial(); c.say("hill n=%zu keylen=%zu key=%s %s", n, kl, hex(key).c_str(), inv ? "invertible" : "singular");
    if (!inv) return; hill_use(g, c, x, key, n); if (extra) c.label("key length trimmed");
    if (nmax <= 6 && g.flip()) { Bytes ik(x.ikey, x.ikey + n * n); cry_hill_ctx y; memset(&y, 0x5A, sizeof y); Buf kb2(key), ib(ik); c.check(cry_hill_init(&y, kb2, ib, n * n) == 0, "init with both keys failed"); hill_use(g, c, y, key, n); c.label("both keys given"); }
}
static Bytes inverse(Bytes m, size_t n) // by elimination with odd pivots; the determinant must be odd
{
    Bytes r(n * n); for (size_t i = 0; i < n; i++) r[i * n + i] = 1;
    for (size_t i = 0; i < n; i++) {
        size_t p = i; while (!(m[p * n + i] & 1)) p++; for (size_t j = 0; j < n; j++) { std::swap(m[p * n + j], m[i * n + j]); std::swap(r[p * n + j], r[i * n + j]); }
        u8 v = m[i * n + i], w = v; for (int t = 0; t < 3; t++) w = (u8)(w * (2 - v * w)); for (size_t j = 0; j < n; j++) { m[i * n + j] = (u8)(m[i * n + j] * w); r[i * n + j] = (u8)(r[i * n + j] * w); }
        for (size_t q = 0; q < n; q++) if (q != i) { u8 f = m[q * n + i]; for (size_t j = 0; j < n; j++) { m[q * n + j] = (u8)(m[q * n + j] - f * m[i * n + j]); r[q * n + j] = (u8)(r[q * n + j] - f * r[i * n + j]); } }
    }
    return r;
}
static void t_pair(Gen &g, Case &c) // key and inverse key given: any dimension, no determinant to compute
{
    size_t n = 1 + g.draw(9), kl = n == 10 ? 100 + g.draw(50) : n * n + g.draw(2 * n); Bytes key = g.bytes(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) { u8 &v = key[i * n + j]; v = i == j ? v | 1 : v & ~1; } // odd determinant
    Bytes sh = key; size_t rot = g.draw(n - 1); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) key[i * n + j] = sh[(i + rot) % n * n + j];
    Bytes ik = inverse(key, n), k1 = key, k2 = ik; k1.resize(kl, 0x5C); k2.resize(kl, 0xC5); Buf a(k1), b(k2); cry_hill_ctx x; memset(&x, 0xA5, sizeof x); c.check(cry_hill_init(&x, a, b, kl) == 0, "init with both keys failed: n=%zu key=%s", n, hex(key).c_str()); c.check(a.v() == k1 && b.v() == k2, "init changed a key");
    hill_use(g, c, x, key, n); if (n <= 5) { c.check(cry_hill_init(&x, a, nullptr, kl) == 0, "invertible key refused: %s", hex(key).c_str()); hill_use(g, c, x, key, n); } c.label(fmt("hill pair n=%zu", n)); c.nontrivial(); c.say("hill pair n=%zu keylen=%zu key=%s inverse=%s", n, kl, hex(key).c_str(), hex(ik).c_str());
}
static void t_hillgen(Gen &g, Case &c)
{
    size_t n = 1 + g.draw(4); cry_hill_ctx x; memset(&x, 0xA5, sizeof x); Bytes s = g.bytes(16); cry_prng_aes_init(s.data(), 16); c.check(cry_hill_init(&x, nullptr, nullptr, n * n) == 0, "key generation failed"); Bytes key(x.key, x.key + n * n); c.check(odd_det(key, n), "generated key is singular: %s", hex(key).c_str()); hill_use(g, c, x, key, n); Bytes ik = g.bytes(n * n); c.check(cry_hill_init(&x, nullptr, ik.data(), n * n) != 0, "inverse key without key accepted"); c.label("hill generated key"); c.nontrivial(); c.say("generated n=%zu key=%s", n, hex(key).c_str());
}
static void t_affine(Gen &g, Case &c)
{
    size_t kl = 1 + g.draw(g.draw(3) == 3 ? 60 : 31), n = std::min<size_t>(kl, 32); Bytes a = g.bytes(kl), b = g.bytes(kl); if (g.draw(3)) for (auto &v : a) v |= 1; bool inv = true; for (size_t i = 0; i < n; i++) inv &= a[i] & 1; cry_affine_ctx x; memset(&x, 0xA5, sizeof x); Buf ab(a), bb(b); int rc = cry_affine_init(&x, ab, bb, kl);
    c.check((rc == 0) == inv, "affine init returned %d for keya=%s", rc, hex(a).c_str()); c.check(ab.v() == a && bb.v() == b, "init changed the key"); c.label(inv ? "affine" : "affine singular"); c.nontrivial(); c.say("affine keya=%s keyb=%s", hex(a).c_str(), hex(b).c_str()); if (!inv) return;
    for (int rep = 0; rep < 2; rep++) {
        Bytes in = g.sbytes(120, n); if (FORCE) in = g.bytes(FORCE + g.draw(8)); Bytes want(in.size()); for (size_t i = 0; i < in.size(); i++) want[i] = (u8)(in[i] * a[i % n] + b[i % n]); bool ip = g.flip(); std::string ctx = fmt("keya=%s keyb=%s in=%s", hex(a).c_str(), hex(b).c_str(), hex(in).c_str());
        Bytes o = xform(g, c, in, ip, "affine encrypt", [&](u8 *d, const u8 *s, size_t l) { cry_affine_encrypt(&x, d, s, l); }); expect_bytes(c, o, want, "affine encrypt", ctx); Bytes r = xform(g, c, want, ip, "affine decrypt", [&](u8 *d, const u8 *s, size_t l) { cry_affine_decrypt(&x, d, s, l); }); expect_bytes(c, r, in, "affine decrypt", ctx);
    }
}
static void run(Gen &g, Case &c)
{
    switch (g.weighted({500, 60, 400, 1, g_thorough ? 1u : 0u, 100})) { case 0: t_hill(g, c, 5 + (g.draw(9) == 9)); break; case 1: t_hillgen(g, c); break; case 2: t_affine(g, c); break; case 3: t_hill(g, c, 7); break; case 4: t_hill(g, c, 9); break; default: t_pair(g, c); }
}
static void fixed(u64 i, Gen &g, Case &c)
{
    if (i >= 44) { Force f((i - 44) / 2, 1, false); if (i & 1) t_affine(g, c); else t_hill(g, c, 5); c.label("large call"); return; }
    if (i == 0) { u8 z[4] = {1, 2, 3, 4}; cry_hill_ctx h; cry_affine_ctx a; c.check(cry_hill_init(&h, z, nullptr, 0) != 0, "hill: empty key accepted"); c.check(cry_hill_init(&h, z, z, 0) != 0, "hill: empty key pair accepted"); c.check(cry_hill_init(&h, nullptr, nullptr, 0) != 0, "hill: empty key generated"); c.check(cry_affine_init(&a, z, z, 0) != 0, "affine: empty key accepted"); }
    else if (i <= 8) for (int a = ((int)i - 1) * 32; a < (int)i * 32; a++) for (int b = 0; b < 256; b += 5) { u8 ka = (u8)a, kb = (u8)b; cry_affine_ctx x; int rc = cry_affine_init(&x, &ka, &kb, 1); c.check((rc == 0) == ((a & 1) != 0), "affine init(%d,%d) returned %d", a, b, rc); if (rc) continue; u8 in[256], e[256], d[256]; for (int k = 0; k < 256; k++) in[k] = (u8)k; cry_affine_encrypt(&x, e, in, 256); cry_affine_decrypt(&x, d, e, 256); for (int k = 0; k < 256; k++) c.check(e[k] == (u8)(a * k + b) && d[k] == k, "affine a=%d b=%d x=%d", a, b, k); }
    else if (i <= 40) { // all 2x2 matrices over a digit set
        static const u8 D[] = {0, 1, 2, 3, 5, 16, 127, 128, 129, 254, 255, 77}; size_t q = 0; for (u8 a : D) for (u8 b : D) for (u8 d : D) for (u8 e : D) { if (q++ % 32 != i - 9) continue; Bytes k{a, b, d, e}; cry_hill_ctx x; int rc = cry_hill_init(&x, k.data(), nullptr, 4); bool inv = ((a * e - b * d) & 1) != 0; c.check((rc == 0) == inv, "hill init of %s returned %d", hex(k).c_str(), rc); if (rc) continue; u8 in[2] = {(u8)(q * 7), (u8)(q * 13 + 1)}, o[2], r[2]; cry_hill_encrypt(&x, o, in, 2); cry_hill_decrypt(&x, r, o, 2); c.check(o[0] == (u8)(a * in[0] + b * in[1]) && o[1] == (u8)(d * in[0] + e * in[1]) && r[0] == in[0] && r[1] == in[1], "hill %s", hex(k).c_str()); } }
    else { Gen &gg = g; t_hill(gg, c, i == 41 ? 8 : 7); }
    c.label("enumerated"); c.nontrivial(); c.say("enumeration %d", (int)i);
}
Prop PROP = {"C26", "Hill keys of dimension 1..7 (to 9 in the thorough tier) with invertible and singular matrices, key lengths between squares, generated keys, pairs of key and inverse key of dimension 1..10; affine keys of 1..61 pairs; messages of 0..120 bytes; all affine key bytes and all 2x2 matrices over 12 digits enumerated; every case is non-trivial", run, 1500000, 30000000, 60, {"Hill output buffers are rounded up to whole blocks, as the routine pads the last one"}, 44 + 40, fixed, 60};
