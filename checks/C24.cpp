#include "sym.hpp"
extern "C" {
#include <cry/utils.h>
}
static size_t gen_blocks(Gen &g) { switch (g.draw(5)) { case 0: return 2 + g.draw(4); case 1: return 2 + g.draw(30); case 2: return 40 + g.draw(8); case 3: return 2 + g.draw(100); case 4: return 83 + g.draw(5); default: return g.draw(7) == 7 ? 2 + g.draw(1600) : 2 + g.draw(300); } }
static void one(Gen &g, Case &c, size_t n)
{
    long live0 = vt.live; size_t kl = gen_keylen(g, false), len = 8 * n; Bytes key = g.bytes(kl), in = g.bytes(len); AES_KEY ek, dk; AES_set_encrypt_key(key.data(), (int)kl * 8, &ek); AES_set_decrypt_key(key.data(), (int)kl * 8, &dk);
    Bytes want(len + 8), w; if (AES_wrap_key(&ek, nullptr, want.data(), in.data(), (unsigned)len) != (int)len + 8) c.fail("oracle"); std::string ctx = fmt("key=%s len=%zu in=%s", hex(key).c_str(), len, hex(in, 48).c_str()); size_t o1 = g.draw(2) == 2 ? g.draw(7) : 0, o2 = g.draw(2) == 2 ? g.draw(7) : 0;
    { ABuf s(o1, in), d(o2, len + 8); Buf k(key); c.check(cry_aes_wrap(d.p(), s.p(), len, k, kl) == 0, "wrap failed"); c.check(s.v() == in && k.v() == key && d.front_ok(), "wrap changed its input"); w = d.v(); expect_bytes(c, w, want, "wrap", ctx); }
    { ABuf s(o1, w), d(o2, len); Buf k(key); c.check(cry_aes_unwrap(d.p(), s.p(), len, k, kl) == 0, "unwrap of genuine data failed: %s", ctx.c_str()); c.check(s.v() == w && k.v() == key && d.front_ok(), "unwrap changed its input"); expect_bytes(c, d.v(), in, "unwrap", ctx); }
    for (size_t i = 0, m = 1 + g.draw(3); i < m; i++) {
        Bytes t = w, k2 = key; const char *how; switch (g.draw(5)) {
        case 0: { size_t b = g.draw(t.size() * 8 - 1); t[b / 8] ^= 1 << b % 8; how = "bit flip"; break; } case 1: { for (size_t q = 0, z = 2 + g.draw(6); q < z; q++) t[g.draw(t.size() - 1)] ^= (u8)(1 + g.draw(254)); how = "bytes changed"; break; }
        case 2: { size_t a = 8 * g.draw(n), b = 8 * g.draw(n); for (int q = 0; q < 8; q++) std::swap(t[a + q], t[b + q]); how = "blocks swapped"; break; } case 3: { size_t b = g.draw(kl * 8 - 1); k2[b / 8] ^= 1 << b % 8; how = "other key"; break; }
        case 4: { size_t b = g.draw(63); t[b / 8] ^= 1 << b % 8; how = "integrity register"; break; } default: { // genuine wrap with another initial value: only the final comparison can tell
            Bytes iv(8, 0xA6); size_t b = g.draw(63); iv[b / 8] ^= 1 << b % 8; if (g.flip()) iv[g.draw(7)] ^= (u8)(1 + g.draw(254)); AES_wrap_key(&ek, iv.data(), t.data(), in.data(), (unsigned)len); how = "other initial value"; if (iv == Bytes(8, 0xA6)) t = w; } }
        if (t == w && k2 == key) continue; AES_KEY d2; AES_set_decrypt_key(k2.data(), (int)kl * 8, &d2); Bytes o(len); bool ok = AES_unwrap_key(&d2, nullptr, o.data(), t.data(), (unsigned)t.size()) > 0; if (ok) continue; // 2^-64
        Buf s(t), d(len), k(k2); int rc = cry_aes_unwrap(d, s, len, k, kl); c.check(rc != 0, "tampered data accepted (%s): %s", how, ctx.c_str()); for (u8 b : d.v()) c.check(b == 0 || b == 0xCC, "key data returned for tampered data (%s)", how); c.label(how);
    }
    c.check(vt.live == live0, "leak"); if (n * 6 > 255) c.label("counter above one byte"); c.nontrivial(); c.say("%s", ctx.c_str());
}
static void run(Gen &g, Case &c) { one(g, c, gen_blocks(g)); }
static void fixed(u64 i, Gen &g, Case &c) { one(g, c, i < 3 ? 10922 + i : g_thorough ? 2796203 : 21845); } // the round counter reaches its third (thorough: fourth) byte
Prop PROP = {"C24", "AES-128/192/256 key-encryption keys, inputs of 2..1600 blocks, unaligned exact-size buffers; each wrap then tampered (bit and byte changes, swapped blocks, other key, genuine wraps with another initial value); every case is non-trivial", run, 100000, 5000000, 20, {"OpenSSL AES_wrap_key is a correct oracle"}, 4, fixed, 200};
