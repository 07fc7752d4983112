#include "sym.hpp"
extern "C" {
#include <cry/crc.h>
}
// bit-by-bit reflected CRC: poly in reflected form
static u32 crc(const Bytes &m, int w, u32 poly, u32 init, bool compl_, bool swap)
{
    u32 r = init, mask = w == 16 ? 0xffff : 0xffffffff; for (u8 b : m) for (int i = 0; i < 8; i++) { u32 bit = (r ^ (b >> i)) & 1; r >>= 1; if (bit) r ^= poly; }
    if (compl_) r = ~r & mask; if (swap) r = w == 16 ? ((r << 8 | r >> 8) & 0xffff) : __builtin_bswap32(r); return r & mask;
}
static const char *N[] = {"CRC-16/CCITT", "CRC-16/IBM", "CRC-16/DNP", "CRC-32/ETH"};
static u32 want(int k, const Bytes &m);
static void generic(Gen &g, Case &c) // user-supplied table, start value and flags
{
    bool w16 = g.flip(); u32 poly = (u32)g.u64v(), start = (u32)g.u64v(); unsigned fl = (unsigned)g.draw(3); if (g.draw(3) == 3) poly = w16 ? 0xC0C1 : 0x82F63B78; if (w16) poly &= 0xffff, start &= 0xffff;
    std::vector<uint16_t> t16(256); std::vector<uint32_t> t32(256); for (u32 i = 0; i < 256; i++) { u32 r = i; for (int k = 0; k < 8; k++) r = r & 1 ? r >> 1 ^ poly : r >> 1; t16[i] = (uint16_t)r; t32[i] = r; }
    Bytes m = g.sbytes(g.draw(15) == 15 ? 3000 : 100, 16); auto ch = g.chunks(m.size(), 1, true); size_t at = 0; cry_crc16_ctx a; cry_crc32_ctx b; if (w16) cry_crc16_init(&a, (uint16_t)start, t16.data(), (u8)fl); else cry_crc32_init(&b, start, t32.data(), (u8)fl);
    for (size_t n : ch) { Buf p(Bytes(m.begin() + at, m.begin() + at + n)); at += n; if (w16) cry_crc16_update(&a, p, n); else cry_crc32_update(&b, p, n); }
    u32 w = crc(m, w16 ? 16 : 32, poly, start, fl & CRY_CRC_FLAG_COMPLEMENT, fl & CRY_CRC_FLAG_SWAP), v = w16 ? cry_crc16_final(&a) : cry_crc32_final(&b);
    std::string ctx = fmt("CRC-%d poly=%x start=%x flags=%u msg=%s", w16 ? 16 : 32, poly, start, fl, hex(m, 60).c_str()); c.check(v == w, "value %08x want %08x: %s", v, w, ctx.c_str()); c.label(fmt("generic CRC-%d flags %u", w16 ? 16 : 32, fl)); if (ch.size() > 1 && m.size()) c.nontrivial(); c.say("%s", ctx.c_str());
}
static int FK;
static void run(Gen &g, Case &c)
{
    if (!FORCE && g.draw(7) == 7) { generic(g, c); return; }
    size_t nc = FORCE ? 1 : 1 + (g.draw(3) == 3); union X { cry_crc16_ctx a; cry_crc32_ctx b; }; Buf mem[2] = {Buf(sizeof(X)), Buf(sizeof(X))}; bool nt = false; std::string h;
    for (size_t rep = 0, R = FORCE ? 1 : 1 + g.draw(1); rep < R; rep++) {
        int k[2]; Bytes m[2]; std::vector<size_t> ch[2]; size_t ix[2] = {0, 0}, at[2] = {0, 0}, fin = 0;
        for (size_t i = 0; i < nc; i++) { k[i] = (int)g.draw(3); m[i] = g.sbytes(g.draw(15) == 15 ? 5000 : 100, 16); if (FORCE) { m[i] = g.bytes(FORCE - g.draw(3)); k[i] = FK; c.label("large call"); } ch[i] = g.chunks(m[i].size(), 1, true); if (FORCE) ch[i] = {m[i].size()}; X *x = (X *)mem[i].p; switch (k[i]) { case 0: cry_crc16_ccitt_init(&x->a); break; case 1: cry_crc16_ibm_init(&x->a); break; case 2: cry_crc16_dnp_init(&x->a); break; default: cry_crc32_eth_init(&x->b); } }
        while (fin < nc) {
            size_t i = g.draw(nc - 1); if (ix[i] > ch[i].size()) { i ^= 1; }
            X *x = (X *)mem[i].p;
            if (ix[i] < ch[i].size()) { size_t n = ch[i][ix[i]++]; Bytes p(m[i].begin() + at[i], m[i].begin() + at[i] + n); at[i] += n; ABuf b(g.draw(3) == 3 ? g.draw(7) : 0, p); if (k[i] < 3) cry_crc16_update(&x->a, b.p(), n); else cry_crc32_update(&x->b, b.p(), n); c.check(b.v() == p, "input modified"); continue; }
            ix[i]++; fin++; std::string cs; for (size_t n : ch[i]) cs += fmt("%zu,", n); u32 w = want(k[i], m[i]); std::string ctx = fmt("%s len=%zu pieces=%s msg=%s", N[k[i]], m[i].size(), cs.c_str(), hex(m[i], 60).c_str());
            X y = *x; u32 v = k[i] < 3 ? cry_crc16_final(&x->a) : cry_crc32_final(&x->b); c.check(v == w, "value %08x want %08x: %s", v, w, ctx.c_str());
            size_t dl = k[i] < 3 ? 2 : 4; Buf o(dl); if (k[i] < 3) cry_crc16_digest(&y.a, o); else cry_crc32_digest(&y.b, o); Bytes wd; for (size_t q = dl; q--;) wd.push_back((u8)(w >> 8 * q)); expect_bytes(c, o.v(), wd, "digest bytes", ctx);
            Buf in(m[i]); u32 v2 = k[i] == 0 ? cry_crc16_ccitt(in, in.n) : k[i] == 1 ? cry_crc16_ibm(in, in.n) : k[i] == 2 ? cry_crc16_dnp(in, in.n) : cry_crc32_eth(in, in.n); c.check(v2 == w, "one-shot %08x want %08x: %s", v2, w, ctx.c_str());
            if (ch[i].size() > 1 && m[i].size()) nt = true; c.label(N[k[i]]); h += fmt("%s n=%zu pieces=%s; ", N[k[i]], m[i].size(), cs.c_str());
        }
    }
    if (nt) c.nontrivial(); c.say("%s", h.c_str());
}
static void fixed(u64 i, Gen &g, Case &c) // every table entry: all one-byte messages
{ if (i >= 1024) { i -= 1024; FK = (int)(i % 4); Force f(i / 4, 1); run(g, c); return; } int k = (int)(i / 256); Bytes m(1, (u8)i); u8 b = (u8)i; u32 w = want(k, m), v = k == 0 ? cry_crc16_ccitt(&b, 1) : k == 1 ? cry_crc16_ibm(&b, 1) : k == 2 ? cry_crc16_dnp(&b, 1) : cry_crc32_eth(&b, 1); c.check(v == w, "%s of byte %02x: %08x want %08x", N[k], b, v, w); c.label("one-byte enumeration"); c.nontrivial(); c.salt = i; }
static u32 want(int k, const Bytes &m)
{
    switch (k) { case 0: return crc(m, 16, 0x8408, 0xffff, true, true); case 1: return crc(m, 16, 0xA001, 0xffff, false, false); case 2: return crc(m, 16, 0xA6BC, 0, true, true); default: return crc(m, 32, 0xEDB88320, 0xffffffff, true, false); }
}
Prop PROP = {"C16", "Four CRCs: all one-byte messages, and generated messages of 0..5000 bytes split into generated update pieces (empty ones too), one or two interleaved contexts, re-initialised for a second message; generic CRC-16/32 contexts with generated polynomial table, start value and flags; value, digest bytes and one-shot form compared with bit-by-bit polynomial division. Non-trivial: non-empty message in several pieces (or a one-byte enumeration case).", run, 1000000, 30000000, 20, {}, 1024 + 24, fixed, 60};
