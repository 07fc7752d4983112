// Symmetric-cipher oracles (OpenSSL block ciphers; modes written here from the standards) and cipher descriptors.
#pragma once
#include "engine.hpp"
#include <openssl/aes.h>
#include <openssl/des.h>
extern "C" {
#include <cry/aes.h>
#include <cry/des.h>
#include <cry/ciph.h>
}
struct Ora { // block cipher oracle
    bool des = false; size_t blk = 16; Bytes key; AES_KEY e, d; DES_key_schedule k[3];
    Ora() {}
    Ora(bool des_, const Bytes &key_) : des(des_), blk(des_ ? 8 : 16), key(key_)
    {
        if (des) { for (size_t i = 0; i * 8 < key.size(); i++) DES_set_key_unchecked((const_DES_cblock *)(key.data() + 8 * i), &k[i]); }
        else { AES_set_encrypt_key(key.data(), (int)key.size() * 8, &e); AES_set_decrypt_key(key.data(), (int)key.size() * 8, &d); }
    }
    void enc1(const u8 *in, u8 *out) const
    {
        if (!des) { AES_encrypt(in, out, &e); return; }
        DES_cblock i, o; memcpy(i, in, 8); DES_key_schedule *q = const_cast<DES_key_schedule *>(k);
        if (key.size() == 8) DES_ecb_encrypt(&i, &o, q, DES_ENCRYPT); else DES_ecb3_encrypt(&i, &o, q, q + 1, q + 2, DES_ENCRYPT);
        memcpy(out, o, 8);
    }
    void dec1(const u8 *in, u8 *out) const
    {
        if (!des) { AES_decrypt(in, out, &d); return; }
        DES_cblock i, o; memcpy(i, in, 8); DES_key_schedule *q = const_cast<DES_key_schedule *>(k);
        if (key.size() == 8) DES_ecb_encrypt(&i, &o, q, DES_DECRYPT); else DES_ecb3_encrypt(&i, &o, q, q + 1, q + 2, DES_DECRYPT);
        memcpy(out, o, 8);
    }
    Bytes ecb(const Bytes &in, bool enc) const { Bytes o(in.size()); for (size_t i = 0; i + blk <= in.size(); i += blk) enc ? enc1(&in[i], &o[i]) : dec1(&in[i], &o[i]); return o; }
};
union CiphCtx { cry_aes_ctx aes; cry_des_ctx des; };
static const cry_ciph_itf AES_ITF = {(cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt};
static const cry_ciph_itf DES_ITF = {(cry_ciph_init_f)cry_des_init, (cry_ciph_clear_f)cry_des_clear, (cry_ciph_key_set_f)cry_des_key_set, (cry_ciph_encrypt_f)cry_des_encrypt, (cry_ciph_decrypt_f)cry_des_decrypt};
inline size_t gen_keylen(Gen &g, bool des) { static const size_t a[3] = {16, 24, 32}; return des ? (g.flip() ? 24 : 8) : a[g.draw(2)]; }

// Exact buffer with a random misalignment at its start; its end is the end of the allocation.
struct ABuf {
    Buf b; size_t off, n;
    ABuf(Gen &g, size_t n_, u8 fill = 0xCC) : b(0 + n_ + (size_t)0, fill), off(0), n(n_) { (void)g; }
    ABuf(size_t off_, size_t n_, u8 fill = 0xCC) : b(off_ + n_, fill), off(off_), n(n_) {}
    ABuf(size_t off_, const Bytes &v) : ABuf(off_, v.size()) { if (n) memcpy(p(), v.data(), n); }
    u8 *p() { return b.p + off; }
    Bytes v() { return Bytes(p(), p() + n); }
    bool front_ok() { for (size_t i = 0; i < off; i++) if (b.p[i] != 0xCC) return false; return true; }
};
// Enumerated large cases: one call on much data (lengths and block counts beyond 8, 16 and 24 bits).
static size_t FORCE = 0;
struct Force { Force(u64 i, size_t mult, bool huge = true) { static const size_t L[] = {65536, 65535, 65552, 131072 + 33, (1 << 20) + 4112, (1 << 24) + 48}; FORCE = L[i % (huge ? 6 : 5)]; FORCE -= FORCE % mult; } ~Force() { FORCE = 0; } };
typedef std::function<void(u8 *dst, const u8 *src, size_t n)> XformF;
// Run dst=f(src), in place or not; checks input preservation; returns output
inline Bytes xform(Gen &g, Case &c, const Bytes &in, bool inplace, const char *what, const XformF &f)
{
    size_t o1 = g.draw(3) == 3 ? g.draw(15) : 0, o2 = g.draw(3) == 3 ? g.draw(15) : 0;
    if (inplace) { ABuf b(o1, in); f(b.p(), b.p(), in.size()); c.check(b.front_ok(), "%s wrote before its buffer", what); return b.v(); }
    ABuf s(o1, in), d(o2, in.size()); f(d.p(), s.p(), in.size());
    c.check(s.v() == in, "%s modified its input", what); c.check(d.front_ok() && s.front_ok(), "%s wrote before its buffer", what);
    return d.v();
}
inline void expect_bytes(Case &c, const Bytes &got, const Bytes &want, const char *what, const std::string &ctx)
{
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    c.fail("%s: first difference at byte %zu of %zu: got %s want %s (%s)", what, i, want.size(), hex(got.data() + (i < got.size() ? i : got.size()), got.size() - (i < got.size() ? i : got.size()), 24).c_str(), hex(want.data() + (i < want.size() ? i : want.size()), want.size() - (i < want.size() ? i : want.size()), 24).c_str(), ctx.c_str());
}
