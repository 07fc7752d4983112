#include "sym.hpp"
#ifndef DESCHECK
#define DESCHECK 0
#endif
static void run(Gen &g, Case &c)
{
    const bool des = DESCHECK; const size_t blk = des ? 8 : 16; const char *nm = des ? "DES" : "AES";
    size_t nctx = 1 + (g.draw(3) == 3); CiphCtx *cx[2]; Ora o[2]; Bytes key[2];
    const cry_ciph_itf &I = des ? DES_ITF : AES_ITF; Buf mem(sizeof(CiphCtx) * 2);
    for (size_t i = 0; i < nctx; i++) {
        cx[i] = (CiphCtx *)(mem.p + i * sizeof(CiphCtx)); I.init(cx[i]);
        key[i] = g.bytes(gen_keylen(g, des)); Buf kb(key[i]); I.key_set(cx[i], kb, kb.n); o[i] = Ora(des, key[i]);
        c.check(kb.v() == key[i], "key modified");
    }
    size_t ops = FORCE ? 2 : 1 + g.draw(g.draw(3) == 3 ? 11 : 4), sw = 0; int last = -1; std::string h; bool multi = false;
    for (size_t t = 0; t < ops; t++) {
        size_t i = g.draw(nctx - 1); u64 op = FORCE ? t : g.draw(6);
        if (op == 6) {
            key[i] = g.bytes(gen_keylen(g, des));
            if (g.draw(3) == 3) { I.clear(cx[i]); I.init(cx[i]); }
            Buf kb(key[i]); I.key_set(cx[i], kb, kb.n); o[i] = Ora(des, key[i]); h += fmt("%zu:key%zu ", i, kb.n); c.label("re-key"); continue;
        }
        bool enc = !(op & 1); size_t mx = g.draw(15) == 15 ? (des ? 400 : 5000) : 80;
        size_t nb = g.size(mx, 4); if (!des && g.draw(499) == 499) nb = 4090 + g.draw(10); if (FORCE) { nb = FORCE / blk; c.label("large call"); }
        Bytes in = g.bytes(nb * blk); bool ip = g.draw(1);
        Bytes out = xform(g, c, in, ip, nm, [&](u8 *d, const u8 *s, size_t n) { enc ? I.encrypt(cx[i], d, s, n) : I.decrypt(cx[i], d, s, n); });
        std::string ctx = fmt("%s-%zu key=%s %s %zu blocks %s after [%s] in=%s", nm, key[i].size() * 8, hex(key[i]).c_str(), enc ? "encrypt" : "decrypt", nb, ip ? "in place" : "", h.c_str(), hex(in, 32).c_str());
        expect_bytes(c, out, o[i].ecb(in, enc), enc ? "encrypt" : "decrypt", ctx);
        if (des && nb && g.draw(7) == 7) { // parity bits are ignored
            Bytes k2 = key[i]; u64 z = g.draw(~0ULL); for (auto &x : k2) x ^= splitmix(z) & 1;
            CiphCtx c2; I.init(&c2); Buf kb(k2); I.key_set(&c2, kb, kb.n); Bytes o2(in.size()); enc ? I.encrypt(&c2, o2.data(), in.data(), in.size()) : I.decrypt(&c2, o2.data(), in.data(), in.size());
            expect_bytes(c, o2, out, "parity bits changed the result", ctx); c.label("parity bits flipped");
        }
        if (nb) { if (last >= 0 && last != (int)(i * 2 + enc)) sw++; last = (int)(i * 2 + enc); }
        if (nb > 1) multi = true;
        h += fmt("%zu:%s%zu%s ", i, enc ? "E" : "D", nb, ip ? "i" : ""); c.label(fmt("%s-%zu %s", nm, key[i].size() * 8, enc ? "encrypt" : "decrypt"));
    }
    for (size_t i = 0; i < nctx; i++) I.clear(cx[i]);
    if (sw) c.label("direction/context switch"); if (sw || multi) c.nontrivial();
    c.say("%s key=%s ops=%s", nm, hex(key[0], 16).c_str(), h.c_str());
}
static void fixed(u64 i, Gen &g, Case &c) { Force f(i, 16, !DESCHECK); run(g, c); }
#if DESCHECK
Prop PROP = {"C09", "Random histories of key-set, encrypt and decrypt on one or two DES/3DES contexts (keys of 8 or 24 bytes, random and patterned; 0..400 blocks; in place or not, misaligned, exact-size buffers), every output compared with OpenSSL DES, and re-run with random key parity bits. Non-trivial: history switches direction or context, or a call has more than one block.", run, 40000, 2000000, 20, {}, 10, fixed, 180};
#else
Prop PROP = {"C08", "Random histories of key-set, encrypt and decrypt on one or two AES contexts (all key sizes, random and patterned keys/data; 0..5000 blocks; in place or not, misaligned, exact-size buffers), every output compared with OpenSSL AES block by block. Non-trivial: history switches direction or context, or a call has more than one block.", run, 800000, 30000000, 20, {}, 12, fixed, 60};
#endif
