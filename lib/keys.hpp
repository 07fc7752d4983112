// Deterministic key material (primes, RSA keys, DSA/ElGamal groups) derived from small indices and cached per process.
#pragma once
#include "big.hpp"
extern "C" {
#include <cry/prng.h>
}
inline Big det_bits(u64 seed, size_t bits, bool top2 = false) // exactly `bits` bits, deterministic
{
    u64 s = seed * 0x9E3779B97F4A7C15ull + 12345; Bytes b((bits + 7) / 8 + 8); for (auto &x : b) x = (u8)splitmix(s);
    Big v = Big::bin(b) % (Big(1) << bits); BN_set_bit(v.b, (int)bits - 1); if (top2 && bits > 1) BN_set_bit(v.b, (int)bits - 2); return v;
}
inline Big det_prime(u64 seed, size_t bits, bool top2 = false)
{
    static std::map<std::pair<u64, size_t>, Big> memo; auto k = std::make_pair(seed * 2 + top2, bits); auto it = memo.find(k); if (it != memo.end()) return it->second;
    for (u64 t = 0;; t++) { Big v = det_bits(mix64(seed, t * 77 + bits), bits, top2); BN_set_bit(v.b, 0); if (isprime(v)) { memo.emplace(k, v); return v; } }
}
struct RsaKey { Big n, e, d, p, q; };
inline RsaKey rsa_key(u64 idx, size_t bits) // exact modulus size
{
    static std::map<std::pair<u64, size_t>, RsaKey> memo; auto k = std::make_pair(idx, bits); auto it = memo.find(k); if (it != memo.end()) return it->second;
    static const long E[] = {3, 17, 65537, 0};
    for (u64 t = 0;; t++) {
        RsaKey r; size_t pb = (bits + 1) / 2, qb = bits - pb; if ((idx & 7) == 7 && bits > 64) { pb = bits / 2 + bits / 8; qb = bits - pb; }
        r.p = det_prime(idx * 1000 + t * 2, pb, true); r.q = det_prime(idx * 1000 + t * 2 + 1, qb, true); if (r.p == r.q) continue; r.n = r.p * r.q; if (r.n.bits() != bits) continue;
        long e = E[idx % 4]; r.e = e ? Big(e) : det_bits(idx * 31 + t, 1 + bits / 2); BN_set_bit(r.e.b, 0); if (r.e < Big(3)) r.e = Big(3);
        Big phi = (r.p - Big(1)) * (r.q - Big(1)); if (!modinv(r.d, r.e, phi)) continue;
        memo.emplace(k, r); return r;
    }
}
inline void seed_prng(Gen &g) { Bytes s = g.bytes(16 + g.draw(16)); cry_prng_aes_init(s.data(), s.size()); }
struct LibBuf { u8 *p = nullptr; size_t n = 0; ~LibBuf() { if (p) vt_free(p); } void drop() { if (p) vt_free(p); p = nullptr; n = 0; } Bytes v() const { return p ? Bytes(p, p + n) : Bytes(); } };
