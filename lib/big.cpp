#include "big.hpp"
#include <algorithm>
BN_CTX *bnctx() { static BN_CTX *c = BN_CTX_new(); return c; }
static void words_to_big(Big &r, std::vector<u64> &w)
{
    Bytes b(w.size() * 8);
    for (size_t i = 0; i < w.size(); i++) for (int k = 0; k < 8; k++) b[b.size() - 1 - (i * 8 + k)] = (u8)(w[i] >> (8 * k));
    BN_bin2bn(b.data(), (int)b.size(), r.b);
}
Big gen_mag(Gen &g, size_t maxbits)
{
    Big r;
    size_t maxw = std::max<size_t>(1, maxbits / 64);
    switch (g.weighted({2, 6, 3, 3, 3, 2})) {
    case 0: { BN_set_word(r.b, g.draw(20)); break; }
    case 1: { // words from interesting values
        size_t n = 1 + g.draw(std::min<size_t>(maxw, 9) - 1); std::vector<u64> w(n);
        for (auto &x : w) x = g.u64v();
        words_to_big(r, w); break; }
    case 2: { // random bits
        size_t bits = 1 + g.draw(maxbits - 1); u64 s = g.draw(~0ULL); std::vector<u64> w((bits + 63) / 64);
        for (auto &x : w) x = splitmix(s);
        words_to_big(r, w); BN_mask_bits(r.b, (int)bits); break; }
    case 3: { // runs of ones and zeros
        size_t n = 1 + g.draw(maxw - 1); u64 s = g.draw(~0ULL); std::vector<u64> w(n); unsigned mode = (unsigned)g.draw(2);
        for (auto &x : w) { u64 z = splitmix(s); switch (z & (mode == 0 ? 3 : 7)) { case 0: x = 0; break; case 1: case 2: x = ~0ULL; break; case 3: x = 1; break; case 4: x = ~0ULL - 1; break; case 5: x = 1ULL << 63; break; case 6: x = (z >> 8) & 0xff; break; default: x = splitmix(s); } }
        words_to_big(r, w); break; }
    case 4: { // 2^k + d
        size_t k = g.draw(maxbits - 1); BN_one(r.b); BN_lshift(r.b, r.b, (int)k); i64 d = (i64)g.draw(4) - 2;
        if (d >= 0) BN_add_word(r.b, (u64)d); else { BN_sub_word(r.b, (u64)-d); BN_set_negative(r.b, 0); } break; }
    default: { // near byte-level patterns
        size_t n = 1 + g.draw(std::max<size_t>(1, maxbits / 8) - 1); Bytes b(n); u64 s = g.draw(~0ULL);
        for (auto &x : b) { u64 z = splitmix(s); x = (z & 3) ? ((z & 4) ? 0xff : 0) : (u8)(z >> 32); }
        BN_bin2bn(b.data(), (int)n, r.b); break; }
    }
    if (r.bits() > maxbits) BN_mask_bits(r.b, (int)maxbits);
    return r;
}
Big gen_int(Gen &g, size_t maxbits) { Big r = gen_mag(g, maxbits); if (g.draw(2) == 2 && !r.zero()) BN_set_negative(r.b, 1); return r; }
Big gen_bits(Gen &g, size_t bits)
{
    Big r; if (!bits) return r;
    u64 s = g.draw(~0ULL); unsigned mode = (unsigned)g.draw(5); Bytes b((bits + 7) / 8);
    for (auto &x : b) { u64 z = splitmix(s); x = mode == 0 ? 0 : mode == 5 ? 0xff : mode == 4 ? ((z & 1) ? 0xff : 0) : (u8)(z >> 32); }
    BN_bin2bn(b.data(), (int)b.size(), r.b); BN_mask_bits(r.b, (int)bits); BN_set_bit(r.b, (int)bits - 1);
    return r;
}
Big gen_below(Gen &g, const Big &m)
{
    switch (g.weighted({1, 1, 5, 2})) {
    case 0: return pmod(Big((long)g.draw(8)), m);
    case 1: return pmod(m - Big((long)g.draw(8) + 1), m);
    case 2: { Bytes b(m.nbytes() + 8); u64 s = g.draw(~0ULL); for (auto &x : b) x = (u8)(splitmix(s) >> 32); return pmod(Big::bin(b), m); }
    default: return pmod(gen_mag(g, m.bits() + 1), m);
    }
}
void mpi_make(cry_mpi *m, const Big &v, size_t extra)
{
    Bytes b = v.tobytes();
    size_t n = (b.size() + CRY_MPI_DIGIT_BYTES - 1) / CRY_MPI_DIGIT_BYTES;
    if (cry_mpi_init_size(m, n + extra) != 0) throw Fail{"cry_mpi_init_size failed without injected fault"};
    for (size_t i = 0; i < n; i++) {
        u64 d = 0;
        for (size_t k = 0; k < CRY_MPI_DIGIT_BYTES; k++) { size_t pos = i * CRY_MPI_DIGIT_BYTES + k; if (pos < b.size()) d |= (u64)b[b.size() - 1 - pos] << (8 * k); }
        m->data[i] = (cry_mpi_digit)d;
    }
    m->used = n; m->sign = v.neg() ? 1 : 0;
}
void mpi_put(cry_mpi *m, const Big &v) { cry_mpi_clear(m); mpi_make(m, v, 0); }
void Mpi::load(const Big &v, size_t extra) { mpi_make(&m, v, extra); live = true; }
Big mpi_val(const cry_mpi *m)
{
    Bytes b(m->used * CRY_MPI_DIGIT_BYTES);
    for (size_t i = 0; i < m->used; i++) for (size_t k = 0; k < CRY_MPI_DIGIT_BYTES; k++) b[b.size() - 1 - (i * CRY_MPI_DIGIT_BYTES + k)] = (u8)((u64)m->data[i] >> (8 * k));
    Big r = Big::bin(b);
    if (m->sign && !r.zero()) BN_set_negative(r.b, 1);
    return r;
}
Big Mpi::val() const { return mpi_val(&m); }
std::string mpi_canon(const cry_mpi *m)
{
    if (m->used > m->alloc) return fmt("used %zu > alloc %zu", m->used, m->alloc);
    if (m->used && m->data[m->used - 1] == 0) return "leading zero digit";
    if (!m->used && m->sign) return "negative zero";
    if (m->sign != 0 && m->sign != 1) return "bad sign";
    return "";
}
