#include "sym.hpp"
#include <openssl/hmac.h>
#include <openssl/cmac.h>
extern "C" {
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/hmac.h>
#include <cry/cmac.h>
}
union HC { cry_md5_ctx m; cry_sha1_ctx a; cry_sha256_ctx b; };
static const cry_hash_itf HI[3] = {{(cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest},
    {(cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear, (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest},
    {(cry_hash_init_f)cry_sha256_init, (cry_hash_clear_f)cry_sha256_clear, (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest}};
static const char *HN[] = {"MD5", "SHA-1", "SHA-256"}; static const size_t HL[] = {16, 20, 32};
static Bytes cmac_model(const Bytes &key, const Bytes &m) // SP 800-38B over OpenSSL AES
{
    Ora o(false, key); u8 L[16] = {0}; o.enc1(L, L); u8 k1[16], k2[16];
    auto dbl = [](const u8 *a, u8 *r) { u8 cy = a[0] >> 7; for (int i = 0; i < 16; i++) r[i] = (u8)(a[i] << 1 | (i < 15 ? a[i + 1] >> 7 : 0)); if (cy) r[15] ^= 0x87; };
    dbl(L, k1); dbl(k1, k2); Bytes x(16, 0); size_t nb = m.empty() ? 1 : (m.size() + 15) / 16;
    for (size_t i = 0; i < nb; i++) { u8 b[16] = {0}; size_t l = std::min<size_t>(16, m.size() - 16 * i); if (l) memcpy(b, m.data() + 16 * i, l); if (i == nb - 1) { if (l < 16) b[l] = 0x80; for (int j = 0; j < 16; j++) b[j] ^= (l == 16 ? k1 : k2)[j]; } for (int j = 0; j < 16; j++) x[j] ^= b[j]; o.enc1(x.data(), x.data()); }
    return x;
}
static int FK;
static void run(Gen &g, Case &c)
{
    size_t runs = FORCE ? 1 : 1 + g.draw(2); std::string h; bool nt = false; Buf hm(sizeof(HC)), hx(sizeof(cry_hmac_ctx)), cm(sizeof(CiphCtx)), cx(sizeof(cry_cmac_ctx));
    for (size_t r = 0; r < runs; r++) {
        bool hmac = g.flip(); int k = (int)g.draw(2); if (FORCE) { hmac = FK < 3; k = FK % 3; } size_t kl = hmac ? g.size(g.draw(7) == 7 ? 400 : 140, 64) : gen_keylen(g, false);
        Bytes key = g.bytes(kl), msg = g.sbytes(g.draw(15) == 15 ? 1500 : 150, hmac ? 64 : 16), want, got; if (FORCE) { msg = g.bytes(FORCE - g.draw(3)); c.label("large call"); } auto ch = g.chunks(msg.size(), 1, true); if (FORCE) ch = {msg.size()}; std::string cs; Buf kb(key);
        if (hmac) { cry_hmac_init((cry_hmac_ctx *)hx.p, hm.p, &HI[k], HL[k], kb, kl); want.resize(HL[k]); unsigned l; u8 dummy[1]; HMAC(k == 0 ? EVP_md5() : k == 1 ? EVP_sha1() : EVP_sha256(), kl ? key.data() : dummy, (int)kl, msg.data(), msg.size(), want.data(), &l); }
        else { if (g.flip()) cry_aes_init((cry_aes_ctx *)cm.p); else memset(cm.p, (int)g.draw(255), cm.n); cry_cmac_init((cry_cmac_ctx *)cx.p, cm.p, &AES_ITF, kb, kl); want = cmac_model(key, msg);
            if (g.draw(31) == 31) { CMAC_CTX *q = CMAC_CTX_new(); CMAC_Init(q, key.data(), kl, kl == 16 ? EVP_aes_128_cbc() : kl == 24 ? EVP_aes_192_cbc() : EVP_aes_256_cbc(), 0); CMAC_Update(q, msg.data(), msg.size()); u8 t[16]; size_t l; CMAC_Final(q, t, &l); CMAC_CTX_free(q); if (memcmp(t, want.data(), 16)) { fprintf(stderr, "oracle disagreement\n"); abort(); } } }
        c.check(kb.v() == key, "key modified"); size_t at = 0;
        for (size_t n : ch) { Bytes p(msg.begin() + at, msg.begin() + at + n); at += n; ABuf b(g.draw(3) == 3 ? g.draw(7) : 0, p); if (hmac) cry_hmac_update((cry_hmac_ctx *)hx.p, b.p(), n); else cry_cmac_update((cry_cmac_ctx *)cx.p, b.p(), n); c.check(b.v() == p, "input modified"); cs += fmt("%zu,", n); }
        Buf o(want.size()); if (hmac) cry_hmac_digest((cry_hmac_ctx *)hx.p, o); else cry_cmac_digest((cry_cmac_ctx *)cx.p, o);
        std::string ctx = fmt("%s keylen=%zu msglen=%zu pieces=%s key=%s msg=%s after [%s]", hmac ? (std::string("HMAC-") + HN[k]).c_str() : "AES-CMAC", kl, msg.size(), cs.c_str(), hex(key, 80).c_str(), hex(msg, 40).c_str(), h.c_str());
        expect_bytes(c, o.v(), want, "MAC", ctx); if (ch.size() > 1 && msg.size()) nt = true; h += fmt("%s key%zu n%zu %s; ", hmac ? HN[k] : "CMAC", kl, msg.size(), cs.c_str()); c.label(hmac ? std::string("HMAC-") + HN[k] : fmt("CMAC-AES-%zu", kl * 8)); if (hmac && kl > 64) c.label("HMAC long key"); if (hmac && !kl) c.label("HMAC empty key");
    }
    if (nt) c.nontrivial(); c.say("%s", h.c_str());
}
static void fixed(u64 i, Gen &g, Case &c) { FK = (int)(i % 4); Force f(i / 4, 1); run(g, c); }
Prop PROP = {"C15", "HMAC over MD5/SHA-1/SHA-256 with keys of 0..400 bytes (clustered at the block size) and CMAC over AES-128/192/256, messages of 0..1500 bytes clustered at block boundaries split into generated update pieces (empty ones too), several MACs in sequence on the same contexts, exact-size buffers; compared with OpenSSL HMAC and an SP 800-38B model over OpenSSL AES cross-checked with OpenSSL CMAC. Non-trivial: non-empty message in several pieces.", run, 1000000, 30000000, 20, {}, 32, fixed, 120};
