#include "big.hpp"
#include <cry/prng.h>
static std::vector<u8> sieve; static std::vector<u32> bigprimes; // primes in (1009, 65536)
static void setup()
{
    if (!sieve.empty()) return;
    sieve.assign(2000001, 1); sieve[0] = sieve[1] = 0;
    for (size_t i = 2; i * i < sieve.size(); i++) if (sieve[i]) for (size_t j = i * i; j < sieve.size(); j += i) sieve[j] = 0;
    for (u32 i = 1010; i < 65536; i++) if (sieve[i]) bigprimes.push_back(i);
}
static void seed(Gen &g) { Bytes s(32); u64 z = g.draw(~0ULL); for (auto &x : s) x = (u8)(splitmix(z) >> 32); cry_prng_aes_init(s.data(), s.size()); }
static void reseed(u64 z) { Bytes s(32); for (auto &x : s) x = (u8)(splitmix(z) >> 32); cry_prng_aes_init(s.data(), s.size()); }
static void t_rand(Gen &g, Case &c)
{
    seed(g); size_t bits = g.size(g.draw(9) == 9 ? 3000 : 400, 64); Big pr = gen_int(g, 300); Mpi M(g, pr);
    size_t reps = 1 + g.draw(20);
    for (size_t i = 0; i < reps; i++) {
        int rc = cry_mpi_rand(M, bits); c.check(rc == 0, "rand(%zu) returned %d", bits, rc);
        std::string e = mpi_canon(M); c.check(e.empty(), "rand(%zu): %s", bits, e.c_str()); Big v = mpi_val(M);
        c.check(!v.neg() && v.bits() == bits, "rand(%zu) gave %s with %zu bits (prior %s)", bits, v.str().c_str(), v.bits(), pr.str().c_str());
    }
    c.label("rand"); if (bits > 8) c.nontrivial(); c.say("rand bits=%zu x%zu", bits, reps);
}
static void t_range(Gen &g, Case &c)
{
    seed(g); Big mx = gen_mag(g, g.draw(9) == 9 ? 2000 : 300); if (mx.zero()) mx = Big(1); Mpi X(g, mx), M(g, gen_int(g, 300)); size_t reps = 1 + g.draw(20);
    for (size_t i = 0; i < reps; i++) {
        int rc = cry_mpi_rand_range(M, X); c.check(rc == 0, "rand_range(%s) returned %d", mx.str().c_str(), rc);
        std::string e = mpi_canon(M); c.check(e.empty(), "rand_range(%s): %s", mx.str().c_str(), e.c_str()); Big v = mpi_val(M);
        c.check(!v.neg() && v < mx, "rand_range(%s) gave %s", mx.str().c_str(), v.str().c_str());
    }
    expect_mpi(c, X, mx, "bound preserved", "rand_range");
    c.label("range"); if (mx.bits() > 8) c.nontrivial(); c.say("range max=%s", mx.str().c_str());
}
static void t_cover(Gen &g, Case &c) // every value (or sixteenth of the range) is drawn about equally often
{
    seed(g); bool small = g.flip(); Big mx = small ? Big(2 + (long)g.draw(40)) : gen_mag(g, 300); if (mx < Big(2)) mx = Big(2); Big cells = mx < Big(64) ? mx : Big(16); size_t nc = cells.word(), per = 300, n = per * nc; std::vector<size_t> h(nc); Mpi X(g, mx), M;
    for (size_t i = 0; i < n; i++) { c.check(cry_mpi_rand_range(M, X) == 0, "rand_range"); Big v = mpi_val(M); c.check(!v.neg() && v < mx, "rand_range(%s) gave %s", mx.str().c_str(), v.str().c_str()); h[(v * cells / mx).word()]++; }
    // cells of a bound that is no multiple of 16 differ by less than 1/4 from 64 on; 300 expected, a count outside [120,600] is beyond ten standard deviations
    for (size_t i = 0; i < nc; i++) c.check(h[i] >= 120 && h[i] <= 600, "rand_range(%s): %zu of %zu draws in part %zu of %zu", mx.str().c_str(), h[i], n, i, nc);
    { size_t bits = 1 + g.draw(300); Big o(0), z(0); std::vector<int> seen(bits); for (int i = 0; i < 80; i++) { c.check(cry_mpi_rand(M, bits) == 0, "rand"); Big v = mpi_val(M); for (size_t b = 0; b < bits; b++) seen[b] |= 1 << (BN_is_bit_set(v.b, (int)b) ? 1 : 0); } for (size_t b = 0; b + 1 < bits; b++) c.check(seen[b] == 3, "rand(%zu): bit %zu never changed in 80 draws", bits, b); }
    c.label("coverage of the range"); c.nontrivial(); c.say("coverage max=%s", mx.str().c_str());
}
static void t_prime(Gen &g, Case &c)
{
    size_t bits = 8 * (1 + g.draw(g.draw(15) == 15 ? 31 : 11)); u64 z = g.draw(~0ULL); Mpi P(g, gen_int(g, 300)); unsigned it = 200000;
    if (g.draw(7) == 7) { size_t odd = 8 * g.draw(20) + 1 + g.draw(6); c.check(cry_mpi_prime(P, odd, nullptr) < 0, "prime accepted %zu bits", odd); c.label("prime size refused"); return; }
    reseed(z); int rc = cry_mpi_prime(P, bits, &it); c.check(rc == 0, "prime(%zu) returned %d after %u attempts", bits, rc, it);
    std::string e = mpi_canon(P); c.check(e.empty(), "prime(%zu): %s", bits, e.c_str()); Big v = mpi_val(P);
    c.check(!v.neg() && v.bits() == bits && BN_is_bit_set(v.b, (int)bits - 2), "prime(%zu) gave %s", bits, v.str().c_str());
    c.check(isprime(v), "prime(%zu) gave composite %s", bits, v.str().c_str());
    // the attempt that finds it may be the last allowed one, one less must not succeed with a different answer
    unsigned k = it; reseed(z); Mpi P2; rc = cry_mpi_prime(P2, bits, &it); c.check(rc == 0 && mpi_val(P2) == v && it == k, "prime(%zu) with exactly %u attempts allowed: rc %d, used %u", bits, k, rc, it);
    if (k > 1) { unsigned j = k - 1; reseed(z); rc = cry_mpi_prime(P2, bits, &j); c.check(rc < 0, "prime(%zu) with %u attempts allowed succeeded with %s", bits, k - 1, mpi_val(P2).str().c_str()); }
    c.label("prime"); if (bits > 8) c.nontrivial(); c.say("prime bits=%zu attempts=%u -> %s", bits, k, v.str().c_str());
}
static void composite(Case &c, Gen &g, const Big &n, const char *what, bool hard)
{
    Mpi N(g, n); int acc = 0, tot = hard ? 200 : 1; u64 z = g.draw(~0ULL);
    for (int i = 0; i < tot; i++) { reseed(z + i); int r = cry_mpi_is_prime(N); c.check(r == 0 || r == 1, "is_prime(%s) returned %d", n.str().c_str(), r); acc += r; }
    if (!hard && acc) { tot = 30; for (int i = 1; i < tot; i++) { reseed(z + i); acc += cry_mpi_is_prime(N) == 1; } c.check(acc < 4, "is_prime accepts the composite %s (%s) with %d of %d generator seeds", n.str().c_str(), what, acc, tot); }
    // five random rounds leave at most 4^-5: seven acceptances in 200 would be a one in 10^9 event
    if (hard) c.check(acc < 7, "is_prime accepts the composite %s (%s) with %d of %d generator seeds", n.str().c_str(), what, acc, tot);
    expect_mpi(c, N, n, "operand preserved", "is_prime"); c.label(what);
}
static void t_isprime(Gen &g, Case &c)
{
    setup(); seed(g);
    switch (g.weighted({6, 3, 2, 3, 3, 1, 2, 1})) {
    case 0: { u64 n = g.draw(1) ? g.draw(1100000) : 1000 + g.draw(20000); Mpi N(g, Big::u(n)); int r = cry_mpi_is_prime(N); c.check(r == (int)sieve[n], "is_prime(%llu) returned %d", (unsigned long long)n, r); c.label(r ? "small prime" : "small composite"); c.say("is_prime %llu=%d", (unsigned long long)n, r); break; }
    case 1: { u32 p = bigprimes[g.draw(bigprimes.size() - 1)]; Mpi N(g, Big::u(p)); c.check(cry_mpi_is_prime(N) == 1, "is_prime rejects %u", p); c.label("prime above the table"); break; }
    case 2: { // prime of any size
        size_t bits = 17 + g.draw(240); Big p = gen_bits(g, bits); if (!p.odd()) p = p + Big(1); for (int i = 0; i < 3000 && !isprime(p); i++) p = p + Big(2); if (!isprime(p)) throw Skip();
        Mpi N(g, p); for (int i = 0; i < 4; i++) { seed(g); int r = cry_mpi_is_prime(N); c.check(r == 1, "is_prime rejects the prime %s (%d)", p.str().c_str(), r); } c.label("large prime"); c.say("prime %s", p.str().c_str()); break; }
    case 3: { Big n = Big::u(bigprimes[g.draw(bigprimes.size() - 1)]) * Big::u(bigprimes[g.draw(bigprimes.size() - 1)]); composite(c, g, n, "semiprime", false); break; }
    case 4: { Big n = gen_bits(g, 20 + g.draw(200)); if (g.flip()) n = n + Big(n.odd() ? 0 : 1); if (isprime(n)) throw Skip(); composite(c, g, n, "random composite", false); break; }
    case 5: { // few distinct strong liars avoided: worst-case composites (k+1)(2k+1) and Wieferich squares
        if (g.draw(3) == 3) { composite(c, g, g.flip() ? Big(1093L * 1093L) : Big(3511L * 3511L), "Wieferich square", true); break; }
        size_t i = g.draw(bigprimes.size() - 1); for (size_t t = 0; t < bigprimes.size(); t++, i = (i + 1) % bigprimes.size()) { u64 p = bigprimes[i], q = 2 * p - 1; if (q < sieve.size() && sieve[q]) { composite(c, g, Big::u(p) * Big::u(q), "worst-case composite", true); break; } }
        break; }
    case 6: { Big n = gen_mag(g, 300); if (n.odd()) n = n + Big(1); if (n == Big(2)) n = Big(4); Mpi N(g, n); int r = cry_mpi_is_prime(N); c.check(r == 0, "is_prime(even %s) returned %d", n.str().c_str(), r); c.label("even"); break; }
    default: { // Carmichael numbers without small factors: (6k+1)(12k+1)(18k+1)
        u64 k = 170 + g.draw(3000); for (u64 t = 0; t < 5000; t++, k++) { u64 a = 6 * k + 1, b = 12 * k + 1, d = 18 * k + 1; if (d < sieve.size() && sieve[a] && sieve[b] && sieve[d]) { composite(c, g, Big::u(a) * Big::u(b) * Big::u(d), "Carmichael", true); break; } } break; }
    }
    c.nontrivial();
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live;
    switch (g.weighted({40, 30, 20, 1, 60})) { case 0: t_rand(g, c); break; case 1: t_range(g, c); break; case 2: t_prime(g, c); break; case 3: t_cover(g, c); break; default: t_isprime(g, c); }
    c.check(vt.live == live0, "leak: %ld blocks", vt.live - live0);
}
// every candidate below 4096 and around 1009^2; every bit length up to 260
static void fixed(u64 i, Gen &g, Case &c)
{
    setup(); reseed(i);
    if (i < 512) { for (u64 n = i * 8; n < i * 8 + 8; n++) { Mpi N{Big::u(n)}; int r = cry_mpi_is_prime(N); c.check(r == (int)sieve[n], "is_prime(%llu) returned %d", (unsigned long long)n, r); } }
    else if (i < 512 + 260) { size_t bits = i - 512 + 1; Mpi M; for (int k = 0; k < 600; k++) { c.check(cry_mpi_rand(M, bits) == 0, "rand failed"); c.check(mpi_canon(M).empty() && mpi_val(M).bits() == bits, "rand(%zu) gave %s", bits, mpi_val(M).str().c_str()); } }
    else if (i >= 1000) { // bounds (odd number) * 2^k, 20000 draws expected in each part: a reduction with few spare bits favours some parts by more than 5%
        size_t m = 3 + 2 * ((i - 1000) % 6), k = (i - 1000) / 6 % 3 * 67, n = 20000 * m; Big mx = Big((long)m) << k; std::vector<size_t> h(m); Mpi X{mx}, M; for (size_t q = 0; q < n; q++) { c.check(cry_mpi_rand_range(M, X) == 0, "rand_range"); Big v = mpi_val(M) >> k; c.check(v < Big((long)m), "rand_range(%s) gave %s", mx.str().c_str(), mpi_val(M).str().c_str()); h[v.word()]++; }
        for (size_t q = 0; q < m; q++) c.check(h[q] > 19000 && h[q] < 21000, "rand_range(%s): %zu of %zu draws in part %zu of %zu", mx.str().c_str(), h[q], n, q, m); c.label("evenness"); c.say("evenness max=%s", mx.str().c_str()); }
    else { u64 n = 1018081 + (i - 772) * 2; Mpi N{Big::u(n)}; int r = cry_mpi_is_prime(N); if (sieve[n]) c.check(r == 1, "is_prime(%llu)=%d", (unsigned long long)n, r); else if (n < 1026169) c.check(r == 0, "is_prime(%llu)=%d", (unsigned long long)n, r); }
    c.nontrivial();
}
Prop PROP = {"C06", "random generator seeds, bit lengths, bounds; candidates: small integers (sieve oracle), primes just above the trial-division table, random and adversarial composites (worst-case liars, Carmichael, Wieferich squares), even numbers; all integers < 4096 and all lengths <= 260 enumerated; "
             "non-trivial: more than 8 bits, or any primality candidate", run, 30000, 900000, 30, {"acceptance of a hard composite is judged over 200 generator seeds (4^-5 bound per test)"}, 1018, fixed};
