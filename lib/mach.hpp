// Contexts of every symmetric primitive driven through one interface: a script is a list of steps with all data fixed
// beforehand, so it can be replayed alone, interleaved with others, in several threads or over differently filled memory.
#pragma once
#include "sym.hpp"
extern "C" {
#include <cry/arc4.h>
#include <cry/trivium.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/ctr.h>
#include <cry/gcm.h>
#include <cry/cmac.h>
#include <cry/hmac.h>
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/crc.h>
#include <cry/hill.h>
#include <cry/affine.h>
#include <cry/base64.h>
#include <cry/utils.h>
}
enum Kind { K_AES, K_DES, K_ARC4, K_TRIV, K_CBC, K_CFB, K_CTR, K_GCM, K_CMAC, K_HMAC, K_MD5, K_SHA1, K_SHA256, K_SHA512, K_CRC, K_HILL, K_AFFINE, K_B64, K_WRAP, K_COUNT };
static const char *const KN[] = {"AES", "DES", "ARC4", "Trivium", "CBC", "CFB", "CTR", "GCM", "CMAC", "HMAC", "MD5", "SHA-1", "SHA-256", "SHA-512", "CRC", "Hill", "affine", "base64", "key wrap"};
enum Opc { O_INIT, O_KEY, O_IV, O_ENC, O_DEC, O_ENC8, O_DEC8, O_AAD, O_DIGEST };
struct Step { Opc op; Bytes a, b; size_t n = 0; bool inplace = false; size_t off = 0; };
struct Script { Kind kind; int sub = 0; std::vector<Step> s; std::string str() const { static const char *ON[] = {"init", "key", "iv", "enc", "dec", "enc8", "dec8", "aad", "digest"}; std::string r = fmt("%s/%d:", KN[kind], sub); for (auto &x : s) r += fmt(" %s%zu%s", ON[x.op], x.a.size(), x.inplace ? "i" : ""); return r; } };
union Big1 { CiphCtx c; cry_arc4_ctx a4; cry_trivium_ctx tr; cry_md5_ctx m5; cry_sha1_ctx s1; cry_sha256_ctx s2; cry_sha512_ctx s5; cry_crc16_ctx c16; cry_crc32_ctx c32; cry_hill_ctx hi; cry_affine_ctx af; };
union Big2 { cry_cbc_ctx cbc; cry_cfb_ctx cfb; cry_ctr_ctx ctr; cry_gcm_ctx gcm; cry_cmac_ctx cmac; cry_hmac_ctx hmac; };
static const cry_hash_itf HITF[3] = {{(cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest},
    {(cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear, (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest},
    {(cry_hash_init_f)cry_sha256_init, (cry_hash_clear_f)cry_sha256_clear, (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest}};
static const size_t HASHL[3] = {16, 20, 32};
struct Mach {
    Kind k; int sub; u8 fill; Buf m1, m2; // cipher (or only) context, mode context: exact-size, pre-filled
    static size_t sz1(Kind k, int sub) { switch (k) { case K_AES: case K_GCM: case K_CMAC: return sizeof(cry_aes_ctx); case K_DES: return sizeof(cry_des_ctx); case K_CBC: case K_CFB: case K_CTR: return sub ? sizeof(cry_des_ctx) : sizeof(cry_aes_ctx); case K_ARC4: return sizeof(cry_arc4_ctx); case K_TRIV: return sizeof(cry_trivium_ctx); case K_HMAC: return sub == 0 ? sizeof(cry_md5_ctx) : sub == 1 ? sizeof(cry_sha1_ctx) : sizeof(cry_sha256_ctx); case K_MD5: return sizeof(cry_md5_ctx); case K_SHA1: return sizeof(cry_sha1_ctx); case K_SHA256: return sizeof(cry_sha256_ctx); case K_SHA512: return sizeof(cry_sha512_ctx); case K_CRC: return sub < 3 ? sizeof(cry_crc16_ctx) : sizeof(cry_crc32_ctx); case K_HILL: return sizeof(cry_hill_ctx); case K_AFFINE: return sizeof(cry_affine_ctx); default: return 1; } }
    static size_t sz2(Kind k) { switch (k) { case K_CBC: return sizeof(cry_cbc_ctx); case K_CFB: return sizeof(cry_cfb_ctx); case K_CTR: return sizeof(cry_ctr_ctx); case K_GCM: return sizeof(cry_gcm_ctx); case K_CMAC: return sizeof(cry_cmac_ctx); case K_HMAC: return sizeof(cry_hmac_ctx); default: return 1; } }
    Mach(Kind k_, int sub_, u8 fill_) : k(k_), sub(sub_), fill(fill_), m1(sz1(k_, sub_), fill_), m2(sz2(k_), fill_) {}
    void refill() { memset(m1.p, fill, m1.n); memset(m2.p, fill, m2.n); }
    Big1 *x() { return (Big1 *)m1.p; } Big2 *y() { return (Big2 *)m2.p; }
    const cry_ciph_itf *itf() { return sub ? &DES_ITF : &AES_ITF; }
    static void need(bool ok, const Step &s, const char *what) { if (!ok) throw Fail{fmt("%s (step %d, %zu bytes)", what, (int)s.op, s.a.size())}; }
    // one call on exact-size buffers; returns whatever it produced
    Bytes step(const Step &s)
    {
        ABuf in(s.off, s.a); Buf aux(s.b); Bytes r; const size_t n = s.a.size();
        switch (s.op) {
        case O_INIT: switch (k) {
            case K_AES: cry_aes_init(&x()->c.aes); break; case K_DES: cry_des_init(&x()->c.des); break; case K_ARC4: cry_arc4_init(&x()->a4); break; case K_TRIV: cry_trivium_init(&x()->tr); break;
            case K_CBC: cry_cbc_init(&y()->cbc, m1.p, itf()); break; case K_CFB: cry_cfb_init(&y()->cfb, m1.p, itf()); break; case K_CTR: cry_ctr_init(&y()->ctr, m1.p, itf()); break; case K_GCM: cry_gcm_init(&y()->gcm, m1.p, &AES_ITF); break;
            case K_CMAC: cry_aes_init(&x()->c.aes); cry_cmac_init(&y()->cmac, m1.p, &AES_ITF, in.p(), n); break; case K_HMAC: cry_hmac_init(&y()->hmac, m1.p, &HITF[sub], HASHL[sub], in.p(), n); break;
            case K_MD5: cry_md5_init(&x()->m5); break; case K_SHA1: cry_sha1_init(&x()->s1); break; case K_SHA256: cry_sha256_init(&x()->s2); break; case K_SHA512: cry_sha512_init(&x()->s5, (char)sub); break;
            case K_CRC: switch (sub) { case 0: cry_crc16_ccitt_init(&x()->c16); break; case 1: cry_crc16_ibm_init(&x()->c16); break; case 2: cry_crc16_dnp_init(&x()->c16); break; default: cry_crc32_eth_init(&x()->c32); } break;
            case K_HILL: { int rc = cry_hill_init(&x()->hi, in.p(), nullptr, n); r.push_back((u8)(rc != 0)); break; } case K_AFFINE: { int rc = cry_affine_init(&x()->af, in.p(), aux, n); r.push_back((u8)(rc != 0)); break; } default: break; } break;
        case O_KEY: switch (k) { case K_AES: cry_aes_key_set(&x()->c.aes, in.p(), n); break; case K_DES: cry_des_key_set(&x()->c.des, in.p(), n); break; case K_ARC4: cry_arc4_key_set(&x()->a4, in.p(), n); break; case K_TRIV: cry_trivium_key_set(&x()->tr, in.p(), n); break; case K_CBC: cry_cbc_key_set(&y()->cbc, in.p(), n); break; case K_CFB: cry_cfb_key_set(&y()->cfb, in.p(), n); break; case K_CTR: cry_ctr_key_set(&y()->ctr, in.p(), n); break; case K_GCM: cry_gcm_key_set(&y()->gcm, in.p(), n); break; default: break; } break;
        case O_IV: switch (k) { case K_TRIV: cry_trivium_iv_set(&x()->tr, in.p(), n); break; case K_CBC: cry_cbc_iv_set(&y()->cbc, in.p(), n); break; case K_CFB: cry_cfb_iv_set(&y()->cfb, in.p(), n); break; case K_CTR: cry_ctr_iv_set(&y()->ctr, in.p(), n); break; case K_GCM: cry_gcm_iv_set(&y()->gcm, in.p(), n); break; default: break; } break;
        case O_AAD: switch (k) { case K_GCM: cry_gcm_update(&y()->gcm, in.p(), n); break; case K_CMAC: cry_cmac_update(&y()->cmac, in.p(), n); break; case K_HMAC: cry_hmac_update(&y()->hmac, in.p(), n); break; case K_MD5: cry_md5_update(&x()->m5, in.p(), n); break; case K_SHA1: cry_sha1_update(&x()->s1, in.p(), n); break; case K_SHA256: cry_sha256_update(&x()->s2, in.p(), n); break; case K_SHA512: cry_sha512_update(&x()->s5, in.p(), n); break; case K_CRC: if (sub < 3) cry_crc16_update(&x()->c16, in.p(), n); else cry_crc32_update(&x()->c32, in.p(), n); break; default: break; } break;
        case O_DIGEST: { Buf o(s.n, fill); switch (k) { case K_GCM: cry_gcm_digest(&y()->gcm, o, s.n); break; case K_CMAC: cry_cmac_digest(&y()->cmac, o); break; case K_HMAC: cry_hmac_digest(&y()->hmac, o); break; case K_MD5: cry_md5_digest(&x()->m5, o); break; case K_SHA1: cry_sha1_digest(&x()->s1, o); break; case K_SHA256: cry_sha256_digest(&x()->s2, o); break; case K_SHA512: cry_sha512_digest(&x()->s5, o); break; case K_CRC: if (sub < 3) cry_crc16_digest(&x()->c16, o); else cry_crc32_digest(&x()->c32, o); break; default: break; } return o.v(); }
        default: {
            size_t on = s.n; ABuf out(s.inplace ? 0 : (s.off * 3) % 8, s.inplace ? 0 : on, fill); for (size_t i = 0; i < out.off; i++) out.b.p[i] = 0xCC; u8 *d = s.inplace ? in.p() : out.p(); const u8 *q = in.p(); bool e = s.op == O_ENC; long ret = 0; bool hasret = false;
            if (s.op == O_ENC8) cry_cfb8_encrypt(&y()->cfb, d, q, n); else if (s.op == O_DEC8) cry_cfb8_decrypt(&y()->cfb, d, q, n);
            else switch (k) { case K_AES: (e ? cry_aes_encrypt : cry_aes_decrypt)(&x()->c.aes, d, q, n); break; case K_DES: (e ? cry_des_encrypt : cry_des_decrypt)(&x()->c.des, d, q, n); break; case K_ARC4: cry_arc4_crypt(&x()->a4, d, q, n); break; case K_TRIV: cry_trivium_crypt(&x()->tr, d, q, n); break; case K_CBC: (e ? cry_cbc_encrypt : cry_cbc_decrypt)(&y()->cbc, d, q, n); break; case K_CFB: if (e) cry_cfb_encrypt(&y()->cfb, d, q, n); else cry_cfb_decrypt(&y()->cfb, d, q, n); break; case K_CTR: cry_ctr_encrypt(&y()->ctr, d, q, n); break; case K_GCM: (e ? cry_gcm_encrypt : cry_gcm_decrypt)(&y()->gcm, d, q, n); break;
                case K_HILL: (e ? cry_hill_encrypt : cry_hill_decrypt)(&x()->hi, d, q, n); break; case K_AFFINE: (e ? cry_affine_encrypt : cry_affine_decrypt)(&x()->af, d, q, n); break;
                case K_B64: ret = (long)(e ? cry_base64_encode : cry_base64_decode)((char *)d, (const char *)q, n); hasret = true; break;
                case K_WRAP: ret = e ? cry_aes_wrap(d, q, n, aux, s.b.size()) : cry_aes_unwrap(d, q, n - 8, aux, s.b.size()); hasret = true; break; default: break; }
            r = s.inplace ? Bytes(in.p(), in.p() + on) : out.v(); if (!s.inplace) need(in.v() == s.a, s, "input modified"); need(in.front_ok() && out.front_ok(), s, "write before the buffer"); need(aux.v() == s.b, s, "key modified"); if (hasret) for (int i = 0; i < 8; i++) r.push_back((u8)(ret >> 8 * i)); return r; } }
        need(in.v() == s.a, s, "input modified"); need(in.front_ok(), s, "write before the buffer"); need(aux.v() == s.b, s, "input modified"); return r;
    }
    bool can_clear() const { switch (k) { case K_AES: case K_DES: case K_ARC4: case K_TRIV: case K_CBC: case K_CFB: case K_CTR: case K_GCM: case K_MD5: case K_SHA1: case K_SHA256: case K_SHA512: return true; default: return false; } }
    void clear() { switch (k) { case K_AES: cry_aes_clear(&x()->c.aes); break; case K_DES: cry_des_clear(&x()->c.des); break; case K_ARC4: cry_arc4_clear(&x()->a4); break; case K_TRIV: cry_trivium_clear(&x()->tr); break; case K_CBC: cry_cbc_clear(&y()->cbc); break; case K_CFB: cry_cfb_clear(&y()->cfb); break; case K_CTR: cry_ctr_clear(&y()->ctr); break; case K_GCM: cry_gcm_clear(&y()->gcm); break; case K_MD5: cry_md5_clear(&x()->m5); break; case K_SHA1: cry_sha1_clear(&x()->s1); break; case K_SHA256: cry_sha256_clear(&x()->s2); break; case K_SHA512: cry_sha512_clear(&x()->s5); break; default: break; } }
    Bytes dump() { Bytes r = m1.v(), q = m2.v(); r.insert(r.end(), q.begin(), q.end()); return r; }
};
inline size_t gen_n(Gen &g, size_t mult, size_t blk = 16) { size_t n = g.size(g.draw(15) == 15 ? 600 : 80, blk); return n / mult * mult; }
// data step of a cipher-like context
inline Step data_step(Gen &g, Opc op, size_t mult, size_t blk = 16) { Step s; s.op = op; s.a = g.bytes(gen_n(g, mult, blk)); s.n = s.a.size(); s.inplace = g.flip(); s.off = g.draw(3) == 3 ? g.draw(7) : 0; return s; }
inline Step plain(Opc op, const Bytes &a, size_t n = 0) { Step s; s.op = op; s.a = a; s.n = n; return s; }
inline Script gen_script(Gen &g, Kind k, size_t maxops)
{
    Script S; S.kind = k; auto &v = S.s; size_t nops = 1 + g.draw(maxops - 1); auto off = [&](Step s) { s.off = g.draw(3) == 3 ? g.draw(7) : 0; return s; };
    switch (k) {
    case K_AES: case K_DES: case K_CBC: case K_CFB: case K_CTR: { bool mode = k >= K_CBC; S.sub = mode ? (int)g.draw(1) : 0; bool des = k == K_DES || S.sub; size_t blk = des ? 8 : 16, mult = k == K_CFB || k == K_CTR ? 1 : blk;
        auto rekey = [&] { v.push_back(off(plain(O_KEY, g.bytes(gen_keylen(g, des))))); }; auto iv = [&] { if (mode) v.push_back(off(plain(O_IV, g.bytes(blk)))); };
        v.push_back(plain(O_INIT, {})); rekey(); iv(); for (size_t i = 0; i < nops; i++) switch (g.draw(11)) { case 0: rekey(); iv(); break; case 1: iv(); break; case 2: v.push_back(plain(O_INIT, {})); rekey(); iv(); break; default: v.push_back(data_step(g, k == K_CTR ? O_ENC : k == K_CFB ? (Opc)(O_ENC + g.draw(3)) : g.flip() ? O_DEC : O_ENC, mult, blk)); } break; }
    case K_ARC4: case K_TRIV: { auto rekey = [&] { v.push_back(off(plain(O_KEY, g.bytes(k == K_TRIV ? 10 : 1 + g.size(60, 16))))); if (k == K_TRIV) v.push_back(off(plain(O_IV, g.bytes(10)))); }; v.push_back(plain(O_INIT, {})); rekey(); for (size_t i = 0; i < nops; i++) if (g.draw(9) == 9) rekey(); else v.push_back(data_step(g, O_ENC, 1, 4)); break; }
    case K_GCM: { auto start = [&](bool key) { if (key) v.push_back(off(plain(O_KEY, g.bytes(gen_keylen(g, false))))); v.push_back(off(plain(O_IV, g.bytes(g.draw(2) == 2 ? 1 + g.size(50, 16) : 12)))); }; v.push_back(plain(O_INIT, {})); start(true); for (size_t r = 0, R = 1 + g.draw(1); r < R; r++) { if (r) start(g.flip()); auto au = g.sbytes(60); for (size_t c : g.chunks(au.size(), 16, false)) { Bytes p(au.begin(), au.begin() + c); au.erase(au.begin(), au.begin() + c); v.push_back(off(plain(O_AAD, p))); } bool e = g.flip(); for (size_t i = 0; i < nops; i++) { Step s = data_step(g, e ? O_ENC : O_DEC, i + 1 < nops ? 16 : 1); v.push_back(s); } v.push_back(plain(O_DIGEST, {}, g.draw(16))); } break; }
    case K_CMAC: case K_HMAC: S.sub = k == K_HMAC ? (int)g.draw(2) : 0; for (size_t r = 0, R = 1 + g.draw(1); r < R; r++) { v.push_back(off(plain(O_INIT, g.bytes(k == K_CMAC ? gen_keylen(g, false) : g.size(140, 64))))); for (size_t i = 0; i < nops; i++) v.push_back(off(plain(O_AAD, g.bytes(gen_n(g, 1))))); v.push_back(plain(O_DIGEST, {}, k == K_CMAC ? 16 : HASHL[S.sub])); } break;
    case K_MD5: case K_SHA1: case K_SHA256: case K_SHA512: S.sub = k == K_SHA512 ? (int)g.draw(1) : 0; for (size_t r = 0, R = 1 + g.draw(1); r < R; r++) { v.push_back(plain(O_INIT, {})); for (size_t i = 0; i < nops; i++) v.push_back(off(plain(O_AAD, g.bytes(gen_n(g, 1, 64))))); if (r + 1 < R || g.flip()) v.push_back(plain(O_DIGEST, {}, k == K_MD5 ? 16 : k == K_SHA1 ? 20 : k == K_SHA256 ? 32 : S.sub ? 48 : 64)); } break;
    case K_CRC: S.sub = (int)g.draw(3); v.push_back(plain(O_INIT, {})); for (size_t i = 0; i < nops; i++) v.push_back(off(plain(O_AAD, g.bytes(gen_n(g, 1))))); v.push_back(plain(O_DIGEST, {}, S.sub < 3 ? 2 : 4)); break;
    case K_HILL: { size_t d = 1 + g.draw(5); Bytes key = g.bytes(d * d); for (size_t i = 0; i < d; i++) for (size_t j = 0; j <= i; j++) { if (i == j) key[i * d + j] |= 1; else key[i * d + j] &= 0xfe; } v.push_back(plain(O_INIT, key)); for (size_t i = 0; i < nops; i++) { Step s = data_step(g, g.flip() ? O_DEC : O_ENC, 1); s.inplace = false; s.a.resize((s.a.size() + d - 1) / d * d); s.n = s.a.size(); v.push_back(s); } break; }
    case K_AFFINE: { size_t l = 1 + g.draw(31); Step s = plain(O_INIT, g.bytes(l)); for (auto &b : s.a) b |= 1; s.b = g.bytes(l); v.push_back(s); for (size_t i = 0; i < nops; i++) v.push_back(data_step(g, g.flip() ? O_DEC : O_ENC, 1)); break; }
    case K_B64: for (size_t i = 0; i < nops; i++) { Step s = data_step(g, g.flip() ? O_DEC : O_ENC, 1); s.inplace = false; if (s.op == O_DEC) { Bytes t; for (size_t j = 0; j < s.a.size() / 4 * 4; j++) t.push_back("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[s.a[j] % 64]); s.a = t; s.n = t.size() / 4 * 3; } else s.n = (s.a.size() + 2) / 3 * 4; v.push_back(s); } break;
    default: for (size_t i = 0; i < nops; i++) { Step s; s.op = g.flip() ? O_DEC : O_ENC; s.a = g.bytes(8 * (2 + g.draw(6)) + (s.op == O_DEC ? 8 : 0)); s.b = g.bytes(gen_keylen(g, false)); s.n = s.op == O_DEC ? s.a.size() - 8 : s.a.size() + 8; v.push_back(s); } break;
    }
    return S;
}
// run a whole script; outputs in order
inline std::vector<Bytes> solo(const Script &S, u8 fill) { Mach m(S.kind, S.sub, fill); std::vector<Bytes> r; for (auto &s : S.s) r.push_back(m.step(s)); return r; }
