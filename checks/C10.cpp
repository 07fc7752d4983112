#include "sym.hpp"
extern "C" {
#include <cry/cbc.h>
#include <cry/cfb.h>
}
// models: whole-message definitions of SP 800-38A
static Bytes m_cbc(const Ora &o, const Bytes &iv, const Bytes &in, bool enc)
{
    Bytes v = iv, out(in.size()); size_t b = o.blk;
    for (size_t i = 0; i < in.size(); i += b) {
        if (enc) { u8 t[16]; for (size_t j = 0; j < b; j++) t[j] = in[i + j] ^ v[j]; o.enc1(t, &out[i]); v.assign(out.begin() + i, out.begin() + i + b); }
        else { o.dec1(&in[i], &out[i]); for (size_t j = 0; j < b; j++) out[i + j] ^= v[j]; v.assign(in.begin() + i, in.begin() + i + b); }
    }
    return out;
}
static Bytes m_cfb(const Ora &o, const Bytes &iv, const Bytes &in, bool enc)
{
    Bytes v = iv, out(in.size()); size_t b = o.blk;
    for (size_t i = 0; i < in.size(); i += b) {
        u8 k[16]; o.enc1(v.data(), k); size_t m = std::min(b, in.size() - i);
        for (size_t j = 0; j < m; j++) { out[i + j] = in[i + j] ^ k[j]; v[j] = enc ? out[i + j] : in[i + j]; }
    }
    return out;
}
static Bytes m_cfb8(const Ora &o, const Bytes &iv, const Bytes &in, bool enc)
{
    Bytes v = iv, out(in.size());
    for (size_t i = 0; i < in.size(); i++) { u8 k[16]; o.enc1(v.data(), k); out[i] = in[i] ^ k[0]; v.erase(v.begin()); v.push_back(enc ? out[i] : in[i]); }
    return out;
}
static const char *MN[] = {"CBC", "CFB", "CFB8"};
static int FMODE;
static void run(Gen &g, Case &c)
{
    int mode = (int)g.draw(2); bool des = g.draw(2) == 2; if (FORCE) mode = FMODE; size_t blk = des ? 8 : 16;
    union { cry_cbc_ctx cbc; cry_cfb_ctx cfb; } *x; Buf xm(sizeof *x), cm(sizeof(CiphCtx)); x = (decltype(x))xm.p; CiphCtx *cc = (CiphCtx *)cm.p;
    const cry_ciph_itf *I = des ? &DES_ITF : &AES_ITF; Ora o; Bytes key;
    if (mode == 0) cry_cbc_init(&x->cbc, cc, I); else cry_cfb_init(&x->cfb, cc, I);
    auto setkey = [&] { key = g.bytes(gen_keylen(g, des)); Buf kb(key); if (mode == 0) cry_cbc_key_set(&x->cbc, kb, kb.n); else cry_cfb_key_set(&x->cfb, kb, kb.n); o = Ora(des, key); c.check(kb.v() == key, "key modified"); };
    setkey();
    size_t msgs = FORCE ? 2 : 1 + g.draw(2), pieces = 0; std::string h; bool multi = false;
    for (size_t m = 0; m < msgs; m++) {
        if (m && g.draw(3) == 3) { setkey(); h += "key "; }
        Bytes iv = g.bytes(blk); { Buf ib(iv); if (mode == 0) cry_cbc_iv_set(&x->cbc, ib, blk); else cry_cfb_iv_set(&x->cfb, ib, blk); c.check(ib.v() == iv, "iv modified"); }
        bool enc = g.flip(); size_t mx = g.draw(7) == 7 ? (des ? 700 : mode == 2 ? 900 : 2500) : 100;
        size_t n = g.size(mx, blk); if (mode == 0) n -= n % blk; if (mode == 0 && !des && g.draw(199) == 199) n = 65536 + 16 * g.draw(8); if (FORCE) { n = des && mode == 2 ? std::min(FORCE, (size_t)131072 + 33) : FORCE; enc = m & 1; c.label("large call"); }
        Bytes in = g.bytes(n); if (mode != 2 && g.draw(3) == 3 && n > 2 * blk) for (size_t j = blk; j < 2 * blk; j++) in[j] = in[j - blk];
        std::vector<size_t> ch = g.chunks(n, mode == 2 ? 1 : blk, true); if (FORCE) ch = {n}; Bytes got; size_t at = 0; std::string cs; u64 ipm = g.draw(2); bool nomem = g.draw(5) == 5; // the routines return nothing, so they must cope with a refused allocation
        for (size_t k : ch) {
            Bytes part(in.begin() + at, in.begin() + at + k); at += k; bool ip = ipm == 2 ? g.flip() : ipm;
            Bytes r = xform(g, c, part, ip, MN[mode], [&](u8 *d, const u8 *s, size_t len) {
                if (nomem) vt_arm(0, 1);
                if (mode == 0) enc ? cry_cbc_encrypt(&x->cbc, d, s, len) : cry_cbc_decrypt(&x->cbc, d, s, len);
                else if (mode == 1) { if (enc) cry_cfb_encrypt(&x->cfb, d, s, len); else cry_cfb_decrypt(&x->cfb, d, s, len); }
                else enc ? cry_cfb8_encrypt(&x->cfb, d, s, len) : cry_cfb8_decrypt(&x->cfb, d, s, len);
                if (nomem) { if (vt.failed) c.label("allocation refused"); vt_reset(); } });
            got.insert(got.end(), r.begin(), r.end()); cs += fmt("%zu%s,", k, ip ? "i" : ""); if (k) pieces++; if (!k) c.label("empty call");
        }
        Bytes want = mode == 0 ? m_cbc(o, iv, in, enc) : mode == 1 ? m_cfb(o, iv, in, enc) : m_cfb8(o, iv, in, enc);
        std::string ctx = fmt("%s %s-%zu %s n=%zu pieces=%s%s key=%s iv=%s in=%s after [%s]", MN[mode], des ? "DES" : "AES", key.size() * 8, enc ? "encrypt" : "decrypt", n, cs.c_str(), nomem ? " with every allocation refused" : "", hex(key).c_str(), hex(iv).c_str(), hex(in, 40).c_str(), h.c_str());
        expect_bytes(c, got, want, enc ? "encrypt" : "decrypt", ctx);
        if (ch.size() > 1 && n > blk) multi = true;
        h += fmt("%s n=%zu pieces=%s; ", enc ? "E" : "D", n, cs.c_str());
        c.label(fmt("%s %s %s", MN[mode], des ? "DES" : "AES", enc ? "encrypt" : "decrypt")); if (mode == 1 && n % blk) c.label("CFB partial final block");
    }
    if (mode == 0) cry_cbc_clear(&x->cbc); else cry_cfb_clear(&x->cfb);
    c.check(vt.live == 0, "storage leaked (%ld blocks)", vt.live);
    if (multi) c.nontrivial();
    c.say("%s %s-%zu %s", MN[mode], des ? "DES" : "AES", key.size() * 8, h.c_str());
}
static void fixed(u64 i, Gen &g, Case &c) { FMODE = (int)(i % 3); Force f(i / 3, 16, false); run(g, c); }
Prop PROP = {"C10", "CBC, CFB and CFB-8 over AES-128/192/256, DES and 3DES: one to three messages per context (re-key, new IV), each encrypted or decrypted in generated pieces (block multiples, last CFB piece arbitrary, CFB-8 anywhere, empty pieces), in place or not, in one message of six with every allocation refused, exact-size misaligned buffers; the concatenated output is compared with a whole-message SP 800-38A model over OpenSSL block ciphers. Non-trivial: a message longer than a block processed in several pieces.", run, 200000, 6000000, 20, {}, 45, fixed, 120};
