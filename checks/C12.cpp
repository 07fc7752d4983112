#include "sym.hpp"
#include <openssl/evp.h>
extern "C" {
#include <cry/gcm.h>
}
typedef unsigned __int128 W;
static W ld(const u8 *p) { W r = 0; for (int i = 0; i < 16; i++) r = r << 8 | p[i]; return r; }
static void st(W v, u8 *p) { for (int i = 15; i >= 0; i--) { p[i] = (u8)v; v >>= 8; } }
static W gmul(W x, W y) { W z = 0, v = x; for (int i = 127; i >= 0; i--) { if (y >> i & 1) z ^= v; bool l = v & 1; v >>= 1; if (l) v ^= (W)0xE1 << 120; } return z; }
static W ginv(W x) { W r = (W)1 << 127, b = x; for (int i = 0; i < 127; i++) { b = gmul(b, b); r = gmul(r, b); } return r; } // x^(2^128-2)
struct Tab { W h = 0, t[16][256]; bool set = false; void init(W k) { if (set && h == k) return; h = k; set = true; for (int p = 0; p < 16; p++) for (int b = 0; b < 8; b++) { t[p][1 << b] = gmul(k, (W)(1 << b) << (8 * p)); } for (int p = 0; p < 16; p++) { t[p][0] = 0; for (int v = 1; v < 256; v++) if (v & (v - 1)) t[p][v] = t[p][v & (v - 1)] ^ t[p][v & -v]; } } W mul(W x) const { W r = 0; for (int p = 0; p < 16; p++) r ^= t[p][(u8)(x >> (8 * p))]; return r; } }; // multiplication by h is linear: byte tables built from gmul, for long inputs
static Tab TAB;
static W ghash(W h, W y, const Bytes &d) { if (d.size() > 20000) { TAB.init(h); for (size_t i = 0; i < d.size(); i += 16) { u8 t[16] = {0}; memcpy(t, &d[i], std::min<size_t>(16, d.size() - i)); y = TAB.mul(y ^ ld(t)); } return y; } for (size_t i = 0; i < d.size(); i += 16) { u8 t[16] = {0}; memcpy(t, &d[i], std::min<size_t>(16, d.size() - i)); y = gmul(y ^ ld(t), h); } return y; }
struct Gm { Bytes out, tag; };
static Gm model(const Ora &o, const Bytes &iv, const Bytes &aad, const Bytes &in, bool enc)
{
    u8 z[16] = {0}, t[16]; o.enc1(z, t); W h = ld(t), j0;
    if (iv.size() == 12) { memset(t, 0, 16); memcpy(t, iv.data(), 12); t[15] = 1; j0 = ld(t); }
    else j0 = gmul(ghash(h, 0, iv) ^ (W)(iv.size() * 8), h);
    Gm r; r.out = in; u32 ctr = (u32)j0; W hi = j0 >> 32 << 32;
    for (size_t i = 0; i < in.size(); i += 16) { ctr++; u8 b[16], k[16]; st(hi | ctr, b); o.enc1(b, k); for (size_t j = 0; j < 16 && i + j < in.size(); j++) r.out[i + j] ^= k[j]; }
    W s = ghash(h, 0, aad); s = ghash(h, s, enc ? r.out : in); s = gmul(s ^ ((W)(aad.size() * 8) << 64 | (W)(in.size() * 8)), h);
    u8 e[16]; st(j0, t); o.enc1(t, e); r.tag.resize(16); st(s ^ ld(e), r.tag.data()); return r;
}
static bool evp(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &in, Gm &r)
{
    if (iv.size() > 128) return false;
    const EVP_CIPHER *ci = key.size() == 16 ? EVP_aes_128_gcm() : key.size() == 24 ? EVP_aes_192_gcm() : EVP_aes_256_gcm();
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); int l; bool ok = EVP_EncryptInit_ex(e, ci, 0, 0, 0) && EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), 0) && EVP_EncryptInit_ex(e, 0, 0, key.data(), iv.data());
    if (ok && aad.size()) ok = EVP_EncryptUpdate(e, 0, &l, aad.data(), (int)aad.size());
    r.out.resize(in.size()); r.tag.resize(16); if (ok && in.size()) ok = EVP_EncryptUpdate(e, r.out.data(), &l, in.data(), (int)in.size());
    u8 d[16]; ok = ok && EVP_EncryptFinal_ex(e, d, &l) && EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, r.tag.data()); EVP_CIPHER_CTX_free(e); return ok;
}
struct Sys {
    Case &c; Buf xm, cm; cry_gcm_ctx *x;
    Sys(Case &c_) : c(c_), xm(sizeof(cry_gcm_ctx)), cm(sizeof(CiphCtx)), x((cry_gcm_ctx *)xm.p) { cry_gcm_init(x, cm.p, &AES_ITF); }
    void key(const Bytes &k) { Buf b(k); cry_gcm_key_set(x, b, k.size()); c.check(b.v() == k, "key modified"); }
    Gm go(Gen &g, const Bytes &iv, const Bytes &aad, const Bytes &in, bool enc, size_t tl, std::string &cs, size_t &pieces)
    {
        { Buf b(iv); cry_gcm_iv_set(x, b, iv.size()); c.check(b.v() == iv, "iv modified"); }
        size_t at = 0; cs = "aad ";
        auto ca = g.chunks(aad.size(), 16, true); if (FORCE) ca = {aad.size()}; for (size_t k : ca) { Bytes p(aad.begin() + at, aad.begin() + at + k); at += k; ABuf b(g.draw(7), p); cry_gcm_update(x, b.p(), k); c.check(b.v() == p, "aad modified"); cs += fmt("%zu,", k); pieces += k != 0; }
        Gm r; at = 0; cs += " msg "; u64 ipm = g.draw(2);
        auto ci = g.chunks(in.size(), 16, true); if (FORCE) ci = {in.size()}; for (size_t k : ci) {
            Bytes p(in.begin() + at, in.begin() + at + k); at += k; bool ip = ipm == 2 ? g.flip() : ipm;
            Bytes o = xform(g, c, p, ip, "GCM", [&](u8 *d, const u8 *s, size_t n) { enc ? cry_gcm_encrypt(x, d, s, n) : cry_gcm_decrypt(x, d, s, n); });
            r.out.insert(r.out.end(), o.begin(), o.end()); cs += fmt("%zu%s,", k, ip ? "i" : ""); pieces += k != 0;
        }
        Buf t(tl); cry_gcm_digest(x, t, tl); r.tag = t.v(); return r;
    }
};
static void run(Gen &g, Case &c)
{
    Sys S(c); Bytes key = g.bytes(gen_keylen(g, false)); S.key(key); Ora o(false, key); size_t msgs = FORCE ? 2 : 1 + g.draw(2); std::string h; bool nt = false;
    for (size_t m = 0; m < msgs; m++) {
        if (m && g.draw(3) == 3) { key = g.bytes(gen_keylen(g, false)); S.key(key); o = Ora(false, key); h += "key "; }
        size_t n = g.size(g.draw(15) == 15 ? 1500 : 100, 16), an = g.size(g.draw(15) == 15 ? 700 : 60, 16); if (g.draw(4) == 4) an = 0; if (g.draw(4) == 4) n = 0; if (FORCE) { n = FORCE - g.draw(3); c.label("large call"); if (m) std::swap(n, an); }
        Bytes iv; u64 kind = g.draw(4); u8 z[16] = {0}, t[16];
        if (kind == 0 || kind == 4) iv = g.bytes(12);
        else if (kind == 1) { u64 lng = g.draw(31); iv = g.bytes(1 + (lng == 31 ? 8150 + g.draw(100) : g.size(lng == 30 ? 2100 : 140, 16))); if (iv.size() > 140) c.label("long iv"); }
        else if (kind == 2) iv = g.bytes(1 + g.draw(40));
        else { // IV solved for a pre-counter block close to the 32-bit wrap-around (and to carries inside it)
            u8 j[16]; Bytes jb = g.bytes(16); memcpy(j, jb.data(), 16); size_t k = 1 + g.draw(3); for (size_t i = 16 - k; i < 16; i++) j[i] = 0xff; j[15] = (u8)(0xff - g.draw(n / 16 + 1 < 250 ? n / 16 + 1 : 250));
            if (g.flip()) for (int i = 8; i < 12; i++) j[i] = 0xff;
            o.enc1(z, t); W H = ld(t); if (H == 0) throw Skip(); W hi = ginv(H); iv.resize(16); st(gmul(gmul(ld(j), hi) ^ (W)128, hi), iv.data()); c.label(fmt("counter carry over %zu low bytes", k));
        }
        Bytes aad = g.bytes(an), in = g.bytes(n); bool enc = g.flip(); size_t tl = g.draw(3) == 3 ? g.draw(16) : 16; std::string cs; size_t pieces = 0;
        Gm w = model(o, iv, aad, in, enc);
        if (g.draw(15) == 15) { Gm e, w2 = enc ? w : model(o, iv, aad, in, true); if (evp(key, iv, aad, in, e)) { if (e.out != w2.out || e.tag != w2.tag) { fprintf(stderr, "oracle disagreement\n"); abort(); } c.label("model cross-checked with EVP GCM"); } }
        Gm r = S.go(g, iv, aad, in, enc, tl, cs, pieces);
        std::string ctx = fmt("AES-%zu %s ivlen=%zu aadlen=%zu n=%zu taglen=%zu pieces=%s key=%s iv=%s after [%s]", key.size() * 8, enc ? "encrypt" : "decrypt", iv.size(), an, n, tl, cs.c_str(), hex(key).c_str(), hex(iv).c_str(), h.c_str());
        expect_bytes(c, r.out, w.out, "GCM output", ctx); expect_bytes(c, r.tag, Bytes(w.tag.begin(), w.tag.begin() + tl), "GCM tag", ctx);
        if (pieces > 1) nt = true;
        h += fmt("%s iv%zu aad%zu n%zu tag%zu %s; ", enc ? "E" : "D", iv.size(), an, n, tl, cs.c_str());
        c.label(enc ? "encrypt" : "decrypt"); c.label(iv.size() == 12 ? "96-bit iv" : "other iv"); if (!an) c.label("no aad"); if (!n) c.label("no message");
        if (g.draw(3) == 3 && tl == 16) { // any change alters the tag (same direction: decrypt)
            Bytes iv2 = iv, aad2 = aad, in2 = enc ? w.out : in, key2 = key; u64 wh = g.draw(4);
            auto fl = [&](Bytes &b) { if (b.empty()) return false; size_t i = g.draw(b.size() * 8 - 1); b[i / 8] ^= 1 << i % 8; return true; };
            bool ch = wh == 0 ? fl(in2) : wh == 1 ? fl(aad2) : wh == 2 ? fl(iv2) : wh == 3 ? fl(key2) : (in2.size() ? (in2.pop_back(), true) : false);
            if (ch) { Sys S2(c); S2.key(key2); std::string d2; size_t p2 = 0; Gm r2 = S2.go(g, iv2, aad2, in2, false, 16, d2, p2); c.check(r2.tag != w.tag, "tampering (%d) not reflected in tag: %s", (int)wh, ctx.c_str()); cry_gcm_clear(S2.x); c.label("tampered"); }
        }
    }
    cry_gcm_clear(S.x); if (nt) c.nontrivial(); c.say("AES-%zu %s", key.size() * 8, h.c_str());
}
static void fixed(u64 i, Gen &g, Case &c)
{ // messages / aad beyond 2^32 bits (length field above 32 bits)
    if (i >= 17) { // IVs whose length in bytes or bits crosses each width of a length field
        static const size_t L[] = {65535, (512ull << 20) + 12, 65536, 65537, 65548, 131084, 2097151, 2097152, 2097164, 16777228}; size_t n = L[i - 17]; Bytes key = g.bytes(16), iv(n), in = g.bytes(40), aad = g.bytes(5); for (size_t j = 0; j < n; j += 4093) iv[j] = (u8)(j >> 3) ^ 0x5a; iv[n - 1] = 0x77;
        Ora o(false, key); Sys S(c); S.key(key); std::string cs; size_t pc = 0; Gm w = model(o, iv, aad, in, true), r = S.go(g, iv, aad, in, true, 16, cs, pc); std::string ctx = fmt("ivlen=%zu key=%s", n, hex(key).c_str()); expect_bytes(c, r.out, w.out, "GCM output", ctx); expect_bytes(c, r.tag, w.tag, "GCM tag", ctx); cry_gcm_clear(S.x); c.label("very long iv"); c.nontrivial(); c.say("iv of %zu bytes", n); return;
    }
    if (i >= 2) { Force f(i - 2, 1, false); run(g, c); return; }
    const size_t big = (512ull << 20) + 16, step = 1 << 20; Bytes key(16, 7), iv(12, 9), z(step), zo(step); Sys S(c); S.key(key); { Buf b(iv); cry_gcm_iv_set(S.x, b, 12); }
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); int l; EVP_EncryptInit_ex(e, EVP_aes_128_gcm(), 0, key.data(), iv.data()); Bytes a(step), b(step);
    for (size_t at = 0; at < big; at += step) { size_t k = std::min(step, big - at); if (i == 0) { cry_gcm_update(S.x, z.data(), k); EVP_EncryptUpdate(e, 0, &l, z.data(), (int)k); } else { cry_gcm_encrypt(S.x, a.data(), z.data(), k); EVP_EncryptUpdate(e, b.data(), &l, z.data(), (int)k); c.check(a == b, "long message output differs"); } }
    EVP_EncryptFinal_ex(e, b.data(), &l); Bytes t(16), t2(16); EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, t.data()); cry_gcm_digest(S.x, t2.data(), 16); EVP_CIPHER_CTX_free(e);
    c.check(t == t2, "tag wrong for %s of %zu bytes", i ? "message" : "aad", big); c.nontrivial(); c.label("over 2^32 bits"); c.say("%s of %zu bytes", i ? "message" : "aad", big);
}
Prop PROP = {"C12", "AES-GCM: one to three messages per context (re-key, new IV each), IV of 1..8250 bytes (and enumerated lengths up to 2^29+12) including IVs solved so that the counter wraps at 32 bits, AAD and message of 0..1500 bytes fed in 16-byte-multiple pieces (last arbitrary, empty pieces), in place or not, tags of 0..16 bytes, exact-size misaligned buffers; output and tag compared with a bitwise SP 800-38D model over OpenSSL AES (itself cross-checked with OpenSSL's GCM); single-bit or truncation tampering must change the tag. Non-trivial: data fed in more than one piece.", run, 400000, 6000000, 20, {}, 2 + 15 + 10, fixed, 1200};
