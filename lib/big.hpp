// OpenSSL BIGNUM oracle wrapper and bridges to cry_mpi (only the public struct layout is used).
#pragma once
#include "engine.hpp"
#include <openssl/bn.h>
#include <cry/mpi.h>
BN_CTX *bnctx();
struct Big {
    BIGNUM *b;
    Big() : b(BN_new()) {}
    Big(long v) : b(BN_new()) { BN_set_word(b, v < 0 ? (u64)0 - (u64)v : (u64)v); if (v < 0) BN_set_negative(b, 1); }
    static Big u(u64 v) { Big r; BN_set_word(r.b, v); return r; }
    Big(const Big &o) : b(BN_dup(o.b)) {}
    Big(Big &&o) : b(o.b) { o.b = BN_new(); }
    Big &operator=(const Big &o) { if (this != &o) BN_copy(b, o.b); return *this; }
    ~Big() { BN_free(b); }
    static Big bin(const u8 *p, size_t n) { Big r; BN_bin2bn(p, (int)n, r.b); return r; }
    static Big bin(const Bytes &v) { return bin(v.data(), v.size()); }
    static Big hexs(const char *s) { Big r; BN_hex2bn(&r.b, s); return r; }
    bool zero() const { return BN_is_zero(b); }
    bool neg() const { return BN_is_negative(b); }
    bool odd() const { return BN_is_odd(b); }
    size_t bits() const { return BN_num_bits(b); }
    size_t nbytes() const { return BN_num_bytes(b); }
    u64 word() const { return BN_get_word(b); }
    Big abs() const { Big r(*this); BN_set_negative(r.b, 0); return r; }
    Big operator-() const { Big r(*this); if (!zero()) BN_set_negative(r.b, !neg()); return r; }
    Bytes tobytes() const { Bytes v(nbytes()); BN_bn2bin(b, v.data()); return v; }
    Bytes padded(size_t n) const { Bytes v(n); BN_bn2binpad(b, v.data(), (int)n); return v; }
    std::string str() const { char *s = BN_bn2hex(b); std::string r(s); OPENSSL_free(s); size_t i = r[0] == '-' ? 1 : 0; if (r.size() > 160) r = r.substr(0, 100) + fmt("..(%zu bits)..", bits()) + r.substr(r.size() - 40); (void)i; return r; }
    std::string dec() const { char *s = BN_bn2dec(b); std::string r(s); OPENSSL_free(s); return r; }
};
inline Big operator+(const Big &a, const Big &b) { Big r; BN_add(r.b, a.b, b.b); return r; }
inline Big operator-(const Big &a, const Big &b) { Big r; BN_sub(r.b, a.b, b.b); return r; }
inline Big operator*(const Big &a, const Big &b) { Big r; BN_mul(r.b, a.b, b.b, bnctx()); return r; }
inline Big operator/(const Big &a, const Big &b) { Big r; BN_div(r.b, nullptr, a.b, b.b, bnctx()); return r; }   // truncated
inline Big operator%(const Big &a, const Big &b) { Big r; BN_div(nullptr, r.b, a.b, b.b, bnctx()); return r; }   // sign of a
inline Big pmod(const Big &a, const Big &m) { Big r; BN_nnmod(r.b, a.b, m.b, bnctx()); return r; }
inline int cmp(const Big &a, const Big &b) { return BN_cmp(a.b, b.b); }
inline bool operator==(const Big &a, const Big &b) { return cmp(a, b) == 0; }
inline bool operator!=(const Big &a, const Big &b) { return cmp(a, b) != 0; }
inline bool operator<(const Big &a, const Big &b) { return cmp(a, b) < 0; }
inline bool operator<=(const Big &a, const Big &b) { return cmp(a, b) <= 0; }
inline bool operator>(const Big &a, const Big &b) { return cmp(a, b) > 0; }
inline bool operator>=(const Big &a, const Big &b) { return cmp(a, b) >= 0; }
inline Big operator<<(const Big &a, size_t n) { Big r; BN_lshift(r.b, a.b, (int)n); return r; }
inline Big operator>>(const Big &a, size_t n) { Big r; BN_rshift(r.b, a.b, (int)n); return r; } // magnitude shift
inline Big modexp(const Big &b, const Big &e, const Big &m) { // simple, works for any m > 0
    Big r; Big base = pmod(b, m);
    if (m == Big(1)) return Big(0);
    BN_mod_exp(r.b, base.b, e.b, m.b, bnctx());
    return r;
}
inline bool modinv(Big &r, const Big &a, const Big &m) { return BN_mod_inverse(r.b, pmod(a, m).b, m.b, bnctx()) != nullptr; }
inline Big gcdb(const Big &a, const Big &b) { Big r; BN_gcd(r.b, a.b, b.b, bnctx()); BN_set_negative(r.b, 0); return r; }
inline bool isprime(const Big &a) { return BN_check_prime(a.b, bnctx(), nullptr) == 1; }

// ---- generation --------------------------------------------------------------------------------------------------
// magnitude of up to maxd 64-bit words, patterns biased to carry/borrow corner cases
Big gen_mag(Gen &g, size_t maxbits);
Big gen_int(Gen &g, size_t maxbits);            // signed
Big gen_bits(Gen &g, size_t bits);              // exactly `bits` bits
Big gen_below(Gen &g, const Big &m);            // in [0,m), interesting near ends

// ---- bridges -----------------------------------------------------------------------------------------------------
// Owns a cry_mpi initialised through the library (init_size) and filled with the digits of v; capacity and stale digits vary.
struct Mpi {
    cry_mpi m;
    bool live = true;
    Mpi() { if (cry_mpi_init(&m) != 0) throw Fail{"cry_mpi_init failed without injected fault"}; }
    Mpi(const Big &v, size_t extra = 0) { load(v, extra); }
    Mpi(Gen &g, const Big &v) { load(v, g.draw(3) == 0 ? g.draw(4) : 0); }
    Mpi(const Mpi &) = delete;
    void load(const Big &v, size_t extra);
    void set(const Big &v) { drop(); load(v, 0); live = true; }
    void drop() { if (live) cry_mpi_clear(&m); live = false; }
    ~Mpi() { drop(); }
    operator cry_mpi *() { return &m; }
    cry_mpi *operator->() { return &m; }
    Big val() const;
};
Big mpi_val(const cry_mpi *m);
// returns "" if canonical
std::string mpi_canon(const cry_mpi *m);
// make an uninitialised cry_mpi hold v (library allocator)
void mpi_make(cry_mpi *m, const Big &v, size_t extra = 0);
// put value into an initialised cry_mpi (old storage released through the library)
void mpi_put(cry_mpi *m, const Big &v);
inline void expect_mpi(Case &c, const cry_mpi *m, const Big &want, const char *what, const std::string &ctx)
{
    std::string e = mpi_canon(m);
    if (!e.empty()) c.fail("%s: non-canonical result (%s) for %s", what, e.c_str(), ctx.c_str());
    Big got = mpi_val(m);
    if (got != want) c.fail("%s: got %s want %s for %s", what, got.str().c_str(), want.str().c_str(), ctx.c_str());
}
