// Calls on more than 4 GiB of data (lengths that do not fit 32 bits), for every routine that takes a byte count. Built without instrumentation ("huge" configuration);
// one enumerated case per routine, oracle: OpenSSL, or the same routine called on pieces (whose agreement with the reference the main check of the property decides).
#include "sym.hpp"
#include <openssl/evp.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include <cry/arc4.h>
#include <cry/base64.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/cmac.h>
#include <cry/crc.h>
#include <cry/ctr.h>
#include <cry/gcm.h>
#include <cry/hash.h>
#include <cry/hmac.h>
#include <cry/md5.h>
#include <cry/memxor.h>
#include <cry/mpi.h>
#include <cry/prng.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/trivium.h>
}
#ifndef HUGE_ID
#define HUGE_ID "C14"
#endif
typedef const u8 *CP;
static const size_t G4 = 4ull << 30, U = 48ull << 20; // U: period of the source data (a multiple of 3, 16 and the page size)
static Case *CC;
static size_t avail() { FILE *f = fopen("/proc/meminfo", "r"); char l[200]; size_t k = 0; if (f) { while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %zu", &k) == 1) break; fclose(f); } return k << 10; }
struct Map { // zero pages, or a read-only view of one block of data repeated
    u8 *p; size_t n;
    Map(size_t n_) : n(n_) { if (avail() < n + (1ull << 30)) throw Skip(); p = (u8 *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw Skip(); }
    Map(size_t n_, size_t unit, std::function<void(u8 *)> fill) : n((n_ + unit - 1) / unit * unit)
    {
        int fd = memfd_create("vt", 0); if (fd < 0 || ftruncate(fd, unit)) throw Skip(); u8 *w = (u8 *)mmap(0, unit, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (w == MAP_FAILED) throw Skip(); fill(w); munmap(w, unit);
        p = (u8 *)mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw Skip();
        for (size_t i = 0; i < n; i += unit) if (mmap(p + i, unit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw Skip(); close(fd);
    }
    ~Map() { munmap(p, n); }
};
static void noise(u8 *w, size_t n) { u64 s = 99; for (size_t i = 0; i < n; i += 8) { u64 v = splitmix(s); memcpy(w + i, &v, 8); } }
struct Src : Map { Src(size_t n) : Map(n, U, [](u8 *w) { noise(w, U); }) {} };
static void same(const u8 *got, const u8 *want, size_t n, size_t base, const char *what) { if (memcmp(got, want, n)) { size_t i = 0; while (got[i] == want[i]) i++; CC->fail("%s: byte %zu differs in one call on over 4 GiB", what, base + i); } }
// expected output produced piecewise and compared
static void against(const u8 *dst, CP src, size_t n, const char *what, std::function<void(u8 *, CP, size_t)> piece) { Bytes t(U); for (size_t at = 0; at < n; at += U) { size_t k = std::min(U, n - at); piece(t.data(), src + at, k); same(dst + at, t.data(), k, at, what); } }
struct Evp { EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); bool enc; Evp(const EVP_CIPHER *t, const u8 *k, const u8 *iv, bool enc_) : enc(enc_) { EVP_CipherInit_ex(e, t, 0, k, iv, enc); EVP_CIPHER_CTX_set_padding(e, 0); } ~Evp() { EVP_CIPHER_CTX_free(e); } void operator()(u8 *d, CP s, size_t n) { for (size_t at = 0; at < n;) { int l, k = (int)std::min<size_t>(n - at, 1 << 28); EVP_CipherUpdate(e, d + at, &l, s + at, k); at += k; } } };
static u8 KEY[32] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, IV[16] = {0xa0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xff, 0xff, 0xff, 0xff, 0xf0};
// one huge call then a short one on the same context
static void cipher(const char *what, const EVP_CIPHER *t, bool enc, bool inplace, bool stream, std::function<void(u8 *, CP, size_t)> lib)
{
    size_t n = G4 + (stream ? 1040 + 11 : 1040), m = stream ? 5 : 48; if (inplace) n = G4 + 1040; Src s(n + 64); Map d(n + 64); if (inplace) memcpy(d.p, s.p, n + 64);
    lib(d.p, inplace ? d.p : s.p, n); if (n % 16 == 0) lib(d.p + n, inplace ? d.p + n : s.p + n, m); else m = 0;
    Evp e(t, KEY, IV, enc); against(d.p, s.p, n + m, what, [&](u8 *o, CP i, size_t k) { e(o, i, k); });
}
struct HugeCase { const char *id, *name; std::function<void()> f; bool slow; };
#define HC(id, name, ...) v.push_back({id, name, [] { __VA_ARGS__ }, false})
template <class X> static void hash(const char *what, const EVP_MD *md, X *x, void (*upd)(X *, const unsigned char *, size_t), void (*dig)(X *, unsigned char *), std::function<void(u8 *, CP, size_t)> one)
{
    size_t n = G4 + 4096 + 77; Src s(n + 10); u8 o[64], w[64]; unsigned l; EVP_MD_CTX *e = EVP_MD_CTX_new(); EVP_DigestInit_ex(e, md, 0); EVP_DigestUpdate(e, "abc", 3); EVP_DigestUpdate(e, s.p, n); EVP_DigestUpdate(e, "xy", 2); EVP_DigestFinal_ex(e, w, &l);
    upd(x, (CP)"abc", 3); upd(x, s.p, n); upd(x, (CP)"xy", 2); dig(x, o); CC->check(!memcmp(o, w, l), "%s digest wrong after one update of %zu bytes", what, n);
    (void)one; EVP_MD_CTX_free(e);
}
template <class X> static void modes(X &x, void (*init)(X *, void *, const cry_ciph_itf *), void (*key)(X *, const unsigned char *, size_t), void (*iv)(X *, const unsigned char *, size_t), CiphCtx &cc) { init(&x, &cc, &AES_ITF); key(&x, KEY, 16); iv(&x, IV, 16); }
static size_t SPLIT(size_t at) { return at % 3 ? U - 5 : U; }
static std::vector<HugeCase> all()
{
    std::vector<HugeCase> v;
    HC("C08", "AES encrypt", cry_aes_ctx x; cry_aes_key_set(&x, KEY, 16); cipher("AES encrypt", EVP_aes_128_ecb(), true, false, false, [&](u8 *d, CP s, size_t n) { cry_aes_encrypt(&x, d, s, n); }););
    HC("C08", "AES decrypt", cry_aes_ctx x; cry_aes_key_set(&x, KEY, 16); cipher("AES decrypt", EVP_aes_128_ecb(), false, false, false, [&](u8 *d, CP s, size_t n) { cry_aes_decrypt(&x, d, s, n); }););
    HC("C10", "CBC encrypt", CiphCtx cc; cry_cbc_ctx x; modes(x, cry_cbc_init, cry_cbc_key_set, cry_cbc_iv_set, cc); cipher("CBC encrypt", EVP_aes_128_cbc(), true, false, false, [&](u8 *d, CP s, size_t n) { cry_cbc_encrypt(&x, d, s, n); }););
    HC("C10", "CBC decrypt", CiphCtx cc; cry_cbc_ctx x; modes(x, cry_cbc_init, cry_cbc_key_set, cry_cbc_iv_set, cc); cipher("CBC decrypt", EVP_aes_128_cbc(), false, false, false, [&](u8 *d, CP s, size_t n) { cry_cbc_decrypt(&x, d, s, n); }););
    HC("C10", "CBC decrypt in place", CiphCtx cc; cry_cbc_ctx x; modes(x, cry_cbc_init, cry_cbc_key_set, cry_cbc_iv_set, cc); cipher("CBC decrypt in place", EVP_aes_128_cbc(), false, true, false, [&](u8 *d, CP s, size_t n) { cry_cbc_decrypt(&x, d, s, n); }););
    HC("C10", "CFB encrypt", CiphCtx cc; cry_cfb_ctx x; modes(x, cry_cfb_init, cry_cfb_key_set, cry_cfb_iv_set, cc); cipher("CFB encrypt", EVP_aes_128_cfb128(), true, false, true, [&](u8 *d, CP s, size_t n) { cry_cfb_encrypt(&x, d, s, n); }););
    HC("C10", "CFB decrypt", CiphCtx cc; cry_cfb_ctx x; modes(x, cry_cfb_init, cry_cfb_key_set, cry_cfb_iv_set, cc); cipher("CFB decrypt", EVP_aes_128_cfb128(), false, false, true, [&](u8 *d, CP s, size_t n) { cry_cfb_decrypt(&x, d, s, n); }););
    HC("C11", "CTR", CiphCtx cc; cry_ctr_ctx x; modes(x, cry_ctr_init, cry_ctr_key_set, cry_ctr_iv_set, cc); cipher("CTR", EVP_aes_128_ctr(), true, false, true, [&](u8 *d, CP s, size_t n) { cry_ctr_encrypt(&x, d, s, n); }););
    HC("C11", "CTR in place", CiphCtx cc; cry_ctr_ctx x; modes(x, cry_ctr_init, cry_ctr_key_set, cry_ctr_iv_set, cc); cipher("CTR in place", EVP_aes_128_ctr(), true, true, true, [&](u8 *d, CP s, size_t n) { cry_ctr_encrypt(&x, d, s, n); }););
    auto gcm = [](int kind) { // 0: message encrypted, 1: message decrypted, 2: aad
        CiphCtx cc; cry_gcm_ctx x; cry_gcm_init(&x, &cc, &AES_ITF); cry_gcm_key_set(&x, KEY, 16); cry_gcm_iv_set(&x, IV, 12); size_t n = G4 + 1040; Src s(n); u8 t[16], w[16]; int l; const char *what = kind == 0 ? "GCM encrypt" : kind == 1 ? "GCM decrypt" : "GCM aad"; bool enc = kind != 1;
        Evp e(EVP_aes_128_gcm(), KEY, IV, enc);
        if (kind == 2) { cry_gcm_update(&x, s.p, n); for (size_t at = 0; at < n; at += U) EVP_EncryptUpdate(e.e, 0, &l, s.p + at, (int)std::min(U, n - at)); u8 a[16], b[16]; cry_gcm_encrypt(&x, a, s.p, 16); EVP_EncryptUpdate(e.e, b, &l, s.p, 16); same(a, b, 16, 0, what); EVP_EncryptFinal_ex(e.e, w, &l); EVP_CIPHER_CTX_ctrl(e.e, EVP_CTRL_GCM_GET_TAG, 16, w); }
        else { Map d(n); (enc ? cry_gcm_encrypt : cry_gcm_decrypt)(&x, d.p, s.p, n); against(d.p, s.p, n, what, [&](u8 *o, CP i, size_t k) { e(o, i, k); }); if (enc) { u8 z[16]; EVP_EncryptFinal_ex(e.e, z, &l); EVP_CIPHER_CTX_ctrl(e.e, EVP_CTRL_GCM_GET_TAG, 16, w); } else { cry_gcm_digest(&x, t, 16); EVP_CIPHER_CTX_ctrl(e.e, EVP_CTRL_GCM_SET_TAG, 16, t); u8 z[16]; CC->check(EVP_DecryptFinal_ex(e.e, z, &l) == 1, "%s: tag wrong after one call on %zu bytes", what, n); return; } }
        cry_gcm_digest(&x, t, 16); CC->check(!memcmp(t, w, 16), "%s: tag wrong after one call on %zu bytes", what, n);
    };
    v.push_back({"C12", "GCM encrypt", [=] { gcm(0); }, false}); v.push_back({"C12", "GCM decrypt", [=] { gcm(1); }, false}); v.push_back({"C12", "GCM aad", [=] { gcm(2); }, false});
    HC("C13", "ARC4", size_t n = G4 + 1003; Src s(n + 9); Map d(n + 9); cry_arc4_ctx x, y; cry_arc4_init(&x); cry_arc4_key_set(&x, KEY, 17); y = x; cry_arc4_crypt(&x, d.p, s.p, n); cry_arc4_crypt(&x, d.p + n, s.p + n, 9); against(d.p, s.p, n + 9, "ARC4", [&](u8 *o, CP i, size_t k) { cry_arc4_crypt(&y, o, i, k); }););
    HC("C13", "Trivium", size_t n = G4 + 1000; Src s(n + 9); Map d(n + 9); cry_trivium_ctx x, y; cry_trivium_init(&x); cry_trivium_key_set(&x, KEY, 10); cry_trivium_iv_set(&x, IV, 10); y = x; cry_trivium_crypt(&x, d.p, s.p, n); cry_trivium_crypt(&x, d.p + n, s.p + n, 9); against(d.p, s.p, n + 9, "Trivium", [&](u8 *o, CP i, size_t k) { cry_trivium_crypt(&y, o, i, k); }););
    HC("C14", "MD5", cry_md5_ctx x; cry_md5_init(&x); hash("MD5", EVP_md5(), &x, cry_md5_update, cry_md5_digest, cry_md5););
    HC("C14", "SHA-1", cry_sha1_ctx x; cry_sha1_init(&x); hash("SHA-1", EVP_sha1(), &x, cry_sha1_update, cry_sha1_digest, cry_sha1););
    HC("C14", "SHA-256", cry_sha256_ctx x; cry_sha256_init(&x); hash("SHA-256", EVP_sha256(), &x, cry_sha256_update, cry_sha256_digest, cry_sha256););
    HC("C14", "SHA-512", cry_sha512_ctx x; cry_sha512_init(&x, 0); hash("SHA-512", EVP_sha512(), &x, cry_sha512_update, cry_sha512_digest, cry_sha512););
    auto one = [](const char *what, const EVP_MD *md, void (*f)(unsigned char *, const unsigned char *, size_t)) { size_t n = G4 + 4096 + 77; Src s(n); u8 o[64]; u8 w[64]; unsigned l; EVP_Digest(s.p, n, w, &l, md, 0); f(o, s.p, n); CC->check(!memcmp(o, w, l), "%s one-shot digest of %zu bytes wrong", what, n); };
    v.push_back({"C14", "SHA-384 one-shot", [=] { one("SHA-384", EVP_sha384(), cry_sha384); }, false}); v.push_back({"C14", "SHA-1 one-shot", [=] { one("SHA-1", EVP_sha1(), cry_sha1); }, false}); v.push_back({"C14", "MD5 one-shot", [=] { one("MD5", EVP_md5(), cry_md5); }, false});
    v.push_back({"C14", "SHA-256 one-shot", [=] { one("SHA-256", EVP_sha256(), cry_sha256); }, false}); v.push_back({"C14", "SHA-512 one-shot", [=] { one("SHA-512", EVP_sha512(), cry_sha512); }, false});
    HC("C15", "HMAC", size_t n = G4 + 333; Src s(n + 5); cry_md5_ctx hx; cry_md5_ctx hy; static const cry_hash_itf I = {(cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest}; cry_hmac_ctx x; cry_hmac_ctx y; cry_hmac_init(&x, &hx, &I, 16, KEY, 20); cry_hmac_init(&y, &hy, &I, 16, KEY, 20); cry_hmac_update(&x, s.p, n); cry_hmac_update(&x, s.p, 5); for (size_t at = 0; at < n;) { size_t k = std::min(SPLIT(at), n - at); cry_hmac_update(&y, s.p + at, k); at += k; } cry_hmac_update(&y, s.p, 5); u8 a[16]; u8 b[16]; cry_hmac_digest(&x, a); cry_hmac_digest(&y, b); CC->check(!memcmp(a, b, 16), "HMAC of one update of %zu bytes wrong", n););
    HC("C15", "CMAC", size_t n = G4 + 333; Src s(n + 5); cry_aes_ctx ax; cry_aes_ctx ay; cry_cmac_ctx x; cry_cmac_ctx y; cry_cmac_init(&x, &ax, &AES_ITF, KEY, 16); cry_cmac_init(&y, &ay, &AES_ITF, KEY, 16); cry_cmac_update(&x, s.p, n); cry_cmac_update(&x, s.p, 5); for (size_t at = 0; at < n;) { size_t k = std::min(SPLIT(at), n - at); cry_cmac_update(&y, s.p + at, k); at += k; } cry_cmac_update(&y, s.p, 5); u8 a[16]; u8 b[16]; cry_cmac_digest(&x, a); cry_cmac_digest(&y, b); CC->check(!memcmp(a, b, 16), "CMAC of one update of %zu bytes wrong", n););
    auto c16 = [](const char *what, void (*init)(cry_crc16_ctx *), uint16_t (*f)(const unsigned char *, size_t)) { size_t n = G4 + 1003; Src s(n); cry_crc16_ctx x, y; init(&x); y = x; cry_crc16_update(&x, s.p, n); for (size_t at = 0; at < n;) { size_t k = std::min(U, n - at); cry_crc16_update(&y, s.p + at, k); at += k; } u32 w = cry_crc16_final(&y), r = cry_crc16_final(&x), o = f(s.p, n); CC->check(r == w && o == w, "%s of %zu bytes: one update %04x, one-shot %04x, in pieces %04x", what, n, r, o, w); };
    v.push_back({"C16", "CRC-16 CCITT", [=] { c16("CRC-16 CCITT", cry_crc16_ccitt_init, cry_crc16_ccitt); }, false}); v.push_back({"C16", "CRC-16 IBM", [=] { c16("CRC-16 IBM", cry_crc16_ibm_init, cry_crc16_ibm); }, false}); v.push_back({"C16", "CRC-16 DNP", [=] { c16("CRC-16 DNP", cry_crc16_dnp_init, cry_crc16_dnp); }, false});
    HC("C16", "CRC-32", size_t n = G4 + 1003; Src s(n); cry_crc32_ctx x; cry_crc32_eth_init(&x); cry_crc32_ctx y = x; cry_crc32_update(&x, s.p, n); for (size_t at = 0; at < n;) { size_t k = std::min(U, n - at); cry_crc32_update(&y, s.p + at, k); at += k; } u32 w = cry_crc32_final(&y); u32 r = cry_crc32_final(&x); u32 o = cry_crc32_eth(s.p, n); CC->check(r == w && o == w, "CRC-32 of %zu bytes: one update %08x, one-shot %08x, in pieces %08x", n, r, o, w););
    auto rnd = [](const char *what, int (*init)(const unsigned char *, size_t), int (*r)(unsigned char *, size_t)) { size_t n = G4 + 1040; Map d(n + 7); init(KEY, 32); r(d.p, n); r(d.p + n, 7); init(KEY, 32); against(d.p, d.p, n, what, [&](u8 *o, CP, size_t k) { r(o, k); }); u8 t[7]; r(t, 7); same(d.p + n, t, 7, n, what); };
    v.push_back({"C23", "AES generator", [=] { rnd("AES generator", cry_prng_aes_init, cry_prng_aes_rand); }, false}); v.push_back({"C23", "LFSR113 generator", [=] { rnd("LFSR113 generator", cry_prng_lfsr113_init, cry_prng_lfsr113_rand); }, false});
    HC("C25", "base64 encode", size_t n = G4 + 1; Src s(n); Map d((n + 2) / 3 * 4); size_t r = cry_base64_encode((char *)d.p, (const char *)s.p, n); CC->check(r == (n + 2) / 3 * 4, "base64 encode of %zu bytes returned %zu", n, r); Bytes t(U / 3 * 4); for (size_t at = 0; at < n; at += U) { size_t k = std::min(U, n - at); size_t l = cry_base64_encode((char *)t.data(), (const char *)s.p + at, k); same(d.p + at / 3 * 4, t.data(), l, at / 3 * 4, "base64 encode"); });
    HC("C25", "base64 decode", size_t n = G4 + 64; Map s(n, 64ull << 20, [](u8 *w) { Bytes t(U); noise(t.data(), U); cry_base64_encode((char *)w, (const char *)t.data(), U); }); Map d(n / 4 * 3); Bytes t(U); noise(t.data(), U); size_t r = cry_base64_decode((char *)d.p, (const char *)s.p, n); CC->check(r == n / 4 * 3, "base64 decode of %zu characters returned %zu", n, r); for (size_t at = 0; at < r; at += U) same(d.p + at, t.data(), std::min(U, r - at), at, "base64 decode"););
    HC("C27", "memxor", size_t n = G4 + 1003; Src s(n + 1); Map d(n + 1); d.p[n] = 0x77; memset(d.p, 0x5a, n); cry_memxor(d.p, s.p + 1, n); CC->check(d.p[n] == 0x77, "memxor wrote beyond"); Bytes t(U); for (size_t at = 0; at < n; at += U) { size_t k = std::min(U, n - at); for (size_t i = 0; i < k; i++) t[i] = s.p[at + 1 + i] ^ 0x5a; same(d.p + at, t.data(), k, at, "memxor"); });
    HC("C27", "memxor2", size_t n = G4 + 1003; Src s(n + 1); Map d(n + 1); d.p[n] = 0x77; cry_memxor2(d.p, s.p, s.p + 1, n); CC->check(d.p[n] == 0x77, "memxor2 wrote beyond"); Bytes t(U); for (size_t at = 0; at < n; at += U) { size_t k = std::min(U, n - at); for (size_t i = 0; i < k; i++) t[i] = s.p[at + 1 + i] ^ s.p[at + i]; same(d.p + at, t.data(), k, at, "memxor2"); });
    // big integers of more than 2^32 bits (shifts, bit length), and of more than 2^32 bytes (conversion)
    HC("C01", "shifts by over 2^32 bits", vt.cap = 1ull << 36; cry_mpi a; cry_mpi b; size_t sh = G4 + 12345; cry_mpi_init(&a); cry_mpi_init(&b); Bytes x(100, 0xb7); CC->check(cry_mpi_load_bin(&a, x.data(), 100) == 0 && cry_mpi_shl(&b, &a, sh) == 0, "shl failed"); CC->check(cry_mpi_count_bits(&b) == sh + 800, "bit length %zu after a shift by %zu, want %zu", cry_mpi_count_bits(&b), sh, sh + 800);
        { size_t nb = (sh + 800 + 7) / 8; Map o(nb); CC->check(cry_mpi_store_bin(&b, o.p, nb, 1) == 0, "store_bin failed"); for (size_t i = 0; i < nb; i++) { u8 w = 0; for (int j = 0; j < 8; j++) { size_t bit = (nb - 1 - i) * 8 + j; if (bit >= sh) { size_t q = bit - sh; if (q < 800 && (0xb7 >> (q % 8) & 1)) w |= 1 << j; } if (j == 0 && (nb - 1 - i) * 8 + 7 < sh) break; } if (o.p[i] != w) CC->fail("shl by %zu: byte %zu is %02x, want %02x", sh, i, o.p[i], w); } }
        CC->check(cry_mpi_shr(&b, &b, sh - 3) == 0 && cry_mpi_shl(&a, &a, 3) == 0 && cry_mpi_cmp(&a, &b) == 0, "shr by %zu does not undo shl by %zu", sh - 3, sh); CC->check(cry_mpi_shr(&b, &a, sh) == 0 && cry_mpi_is_zero(&b), "shr by %zu of a short number is not zero", sh); cry_mpi_clear(&a); cry_mpi_clear(&b););
    HC("C05", "conversion of over 4 GiB", vt.cap = 1ull << 36; size_t n = G4 + 1003; Src s(n); if (avail() < 3 * n) throw Skip(); cry_mpi a; cry_mpi_init(&a); CC->check(cry_mpi_load_bin(&a, s.p, n) == 0, "load_bin failed"); size_t z = 0; while (!(s.p[0] >> (7 - z))) z++; CC->check(cry_mpi_count_bits(&a) == n * 8 - z, "bit length %zu of a number of %zu bytes", cry_mpi_count_bits(&a), n); CC->check(cry_mpi_count_bytes(&a) == n, "byte length"); Map o(n + 9); CC->check(cry_mpi_store_bin(&a, o.p, n, 1) == 0, "store_bin failed"); for (size_t at = 0; at < n; at += U) same(o.p + at, s.p + at, std::min(U, n - at), at, "load_bin/store_bin"); CC->check(cry_mpi_store_bin(&a, o.p, n - 1, 1) != 0, "store_bin into a buffer one byte short accepted"); CC->check(cry_mpi_store_bin(&a, o.p, 1003, 1) != 0, "store_bin into a short buffer accepted"); CC->check(cry_mpi_store_bin(&a, o.p, n + 9, 1) == 0, "padded store_bin failed"); for (size_t i = 0; i < 9; i++) CC->check(o.p[i] == 0, "padding"); for (size_t at = 0; at < n; at += U) same(o.p + 9 + at, s.p + at, std::min(U, n - at), at, "padded store_bin"); cry_mpi_clear(&a););
    v.push_back({"C09", "DES encrypt", [] { cry_des_ctx x; u8 k[8] = {0x13, 0x34, 0x57, 0x79, 0x9B, 0xBC, 0xDF, 0xF1}; cry_des_key_set(&x, k, 8); Ora o(true, Bytes(k, k + 8)); size_t n = G4 + 40; Src s(n); Map d(n); cry_des_encrypt(&x, d.p, s.p, n); Bytes t = o.ecb(Bytes(s.p, s.p + U), true); for (size_t at = 0; at < n; at += U) same(d.p + at, t.data(), std::min(U, n - at), at, "DES encrypt"); }, true});
    std::vector<HugeCase> r; for (auto &c : v) if (!strcmp(c.id, HUGE_ID)) r.push_back(c); return r;
}
static void fixed(u64 i, Gen &g, Case &c)
{
    auto v = all(); if (i >= v.size()) return; if (v[i].slow && !g_thorough) throw Skip(); CC = &c; v[i].f(); c.nontrivial(); c.label("one call on over 4 GiB"); c.want_note = true; c.say("%s: one call on over 4 GiB", v[i].name); (void)g;
}
static void none(Gen &, Case &) { throw Skip(); }
Prop PROP = {HUGE_ID, "one call on over 4 GiB of data for every routine taking a byte count, compared with OpenSSL or with the same data in pieces", none, 0, 0, 900, {}, all().size(), fixed, 900};
