#include "sym.hpp"
extern "C" {
#include <cry/ctr.h>
}
static void inc(Bytes &c) { for (size_t i = c.size(); i-- && ++c[i] == 0;) {} }
static void run(Gen &g, Case &c)
{
    bool des = g.draw(2) == 2; size_t blk = des ? 8 : 16; const cry_ciph_itf *I = des ? &DES_ITF : &AES_ITF;
    Buf xm(sizeof(cry_ctr_ctx)), cm(sizeof(CiphCtx)); cry_ctr_ctx *x = (cry_ctr_ctx *)xm.p; Ora o; Bytes key;
    cry_ctr_init(x, cm.p, I);
    auto setkey = [&] { key = g.bytes(gen_keylen(g, des)); Buf kb(key); cry_ctr_key_set(x, kb, kb.n); o = Ora(des, key); };
    setkey(); size_t msgs = FORCE ? 1 : 1 + g.draw(2); bool nt = false; std::string h;
    for (size_t m = 0; m < msgs; m++) {
        if (m && g.draw(3) == 3) setkey();
        Bytes iv = g.bytes(blk); // counters close to a carry of 1..blk bytes
        if (g.draw(2)) { size_t k = 1 + g.draw(blk - 1); for (size_t i = blk - k; i < blk; i++) iv[i] = 0xff; iv[blk - 1] = (u8)(0xff - g.draw(g.flip() ? 3 : 140)); if (g.draw(3) == 3) iv[blk - k] = 0xfe; c.label(fmt("counter carry over %zu bytes", k)); }
        { Buf ib(iv); cry_ctr_iv_set(x, ib, blk); c.check(ib.v() == iv, "iv modified"); }
        size_t mx = g.draw(7) == 7 ? (des ? 700 : 5000) : 180, n = g.size(mx, blk); if (!des && g.draw(199) == 199) n = 65536 + g.draw(40); if (FORCE) { n = FORCE - g.draw(3); c.label("large call"); }
        Bytes in = g.bytes(n), ctr = iv, got, want; std::vector<size_t> ch;
        bool midpartial = g.draw(3) == 3; ch = g.chunks(n, midpartial ? 1 : blk, true); if (FORCE) ch = {n}; size_t at = 0; std::string cs; u64 ipm = g.draw(2); bool dec = g.flip(); size_t nip = 0;
        for (size_t k : ch) {
            Bytes part(in.begin() + at, in.begin() + at + k); at += k; bool ip = ipm == 2 ? g.flip() : ipm; nip += ip;
            Bytes r = xform(g, c, part, ip, "CTR", [&](u8 *d, const u8 *s, size_t len) { if (dec) cry_ctr_decrypt(x, d, s, len); else cry_ctr_encrypt(x, d, s, len); });
            Bytes w = part; for (size_t i = 0; i < k; i += blk) { u8 ks[16]; o.enc1(ctr.data(), ks); inc(ctr); for (size_t j = 0; j < blk && i + j < k; j++) w[i + j] ^= ks[j]; }
            cs += fmt("%zu%s,", k, ip ? "i" : "");
            std::string ctx = fmt("%s-%zu n=%zu pieces so far=%s key=%s iv=%s", des ? "DES" : "AES", key.size() * 8, n, cs.c_str(), hex(key).c_str(), hex(iv).c_str());
            expect_bytes(c, r, w, dec ? "CTR decrypt" : "CTR encrypt", ctx);
        }
        if (ch.size() > 1 && n > blk) nt = true; if (nip) c.label("in place"); if (midpartial) c.label("partial piece inside message");
        c.label(des ? "DES" : "AES"); h += fmt("iv=%s n=%zu pieces=%s; ", hex(iv).c_str(), n, cs.c_str());
    }
    cry_ctr_clear(x); if (nt) c.nontrivial(); c.say("%s-%zu %s", des ? "DES" : "AES", key.size() * 8, h.c_str());
}
static void fixed(u64 i, Gen &g, Case &c) { Force f(i, 16, i < 12); run(g, c); }
Prop PROP = {"C11", "CTR over AES and DES/3DES: one to three messages per context with IVs biased to carries over 1..16 counter bytes and full wrap-around, 0..5000 bytes (rarely 64 KiB) in generated pieces, in place or not, exact-size misaligned buffers; each piece compared with the SP 800-38A keystream from OpenSSL block ciphers and a model counter (a partial piece consumes a whole counter value). Non-trivial: a message longer than a block in several pieces.", run, 400000, 10000000, 20, {}, 32, fixed, 120};
