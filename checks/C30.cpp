#include "mach.hpp"
#include "ops.hpp"
extern "C" {
#include <cry/prng.h>
}
// Leave `v` in the stack below the caller: automatic variables of the library that are not initialised start with it.
__attribute__((noinline, no_sanitize("address"))) static void scribble(u8 v) { volatile u8 b[40000]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; }
static const u8 FILL[3] = {0x00, 0xFF, 0x5D};
static void symmetric(Gen &g, Case &c)
{
    Kind k = (Kind)g.draw(K_COUNT - 1); Script S = gen_script(g, k, 5); std::vector<Bytes> ref; std::string ctx = S.str();
    for (int f = 0; f < 3; f++) { vt.fill = FILL[f]; Mach m(S.kind, S.sub, FILL[f]); for (size_t i = 0; i < S.s.size(); i++) { scribble(FILL[f]); Bytes o = m.step(S.s[i]); if (!f) ref.push_back(o); else if (o != ref[i]) expect_bytes(c, o, ref[i], "result depends on what memory held before", fmt("%s, step %zu, memory filled with %02x and %02x", ctx.c_str(), i, FILL[f], FILL[0])); } if (m.can_clear()) { scribble(FILL[f]); m.clear(); } }
    size_t tot = 0; for (auto &s : S.s) tot += s.a.size(); if (tot) c.nontrivial(); c.label(KN[k]); c.say("%s", ctx.c_str());
}
static void arithmetic(Gen &g, Case &c)
{
    g_seedb = g.bytes(32); Spec S = gen_op(g); Str ref; int rc0 = 0; bool ok0 = false; long live0 = vt.live;
    for (int f = 0; f < 3; f++) {
        vt.fill = FILL[f]; reseed(); Op *o = S.make(); Str in0 = o->inputs(); reseed(); scribble(FILL[f]); int rc = o->call(); bool ok = o->good(rc); Str r = ok ? o->result(rc) : "refused", in1 = o->inputs(); delete o; c.check(vt.live == live0, "%s leaks", S.name.c_str()); c.check(in0 == in1, "%s changed its inputs from %s to %s", S.name.c_str(), in0.c_str(), in1.c_str());
        if (!f) { rc0 = rc; ok0 = ok; ref = r; } else { c.check(ok == ok0, "%s: outcome depends on what memory held before: %d and %d", S.name.c_str(), rc, rc0); c.check(r == ref, "%s: result depends on what memory held before (%02x, %02x): %s and %s", S.name.c_str(), FILL[f], FILL[0], r.c_str(), ref.c_str()); }
    }
    c.nontrivial(); c.label(S.name); c.say("%s = %s", S.name.c_str(), ref.substr(0, 200).c_str());
}
static void generators(Gen &g, Case &c)
{
    bool aes = g.flip(); Bytes seed = g.sbytes(60, 16); std::vector<size_t> req; for (size_t i = 0, n = 1 + g.draw(6); i < n; i++) req.push_back(g.size(100, 16)); std::vector<Bytes> ref; std::string d; for (size_t n : req) d += fmt("%zu,", n);
    for (int f = 0; f < 3; f++) { Buf sb(seed); scribble(FILL[f]); int rc = aes ? cry_prng_aes_init(sb, sb.n) : cry_prng_lfsr113_init(sb, sb.n); c.check(sb.v() == seed, "seed modified"); if (rc) continue; for (size_t i = 0; i < req.size(); i++) { Buf o(req[i], FILL[f]); scribble(FILL[f]); if (aes) cry_prng_aes_rand(o, o.n); else cry_prng_lfsr113_rand(o, o.n); if (!f) ref.push_back(o.v()); else c.check(o.v() == ref[i], "%s generator, seed %s, request %zu of %s: output depends on what memory held before: %s and %s", aes ? "AES" : "LFSR113", hex(seed).c_str(), i, d.c_str(), hex(o.v()).c_str(), hex(ref[i]).c_str()); } }
    c.nontrivial(); c.label(aes ? "AES generator" : "LFSR113"); c.say("%s seed %zu requests %s", aes ? "aes" : "lfsr113", seed.size(), d.c_str());
}
static void oneshot(Gen &g, Case &c) // one-call digests
{
    Bytes in = g.sbytes(300, 64); size_t off = g.draw(7); int k = (int)g.draw(9); static const size_t L[] = {16, 20, 32, 64, 48, 2, 2, 2, 4}; if (k > 8) k = 8; Bytes ref;
    for (int f = 0; f < 3; f++) { ABuf b(off, in); Buf o(L[k], FILL[f]); scribble(FILL[f]); u32 v = 0; switch (k) { case 0: cry_md5(o, b.p(), in.size()); break; case 1: cry_sha1(o, b.p(), in.size()); break; case 2: cry_sha256(o, b.p(), in.size()); break; case 3: cry_sha512(o, b.p(), in.size()); break; case 4: cry_sha384(o, b.p(), in.size()); break; case 5: v = cry_crc16_ccitt(b.p(), in.size()); break; case 6: v = cry_crc16_ibm(b.p(), in.size()); break; case 7: v = cry_crc16_dnp(b.p(), in.size()); break; default: v = cry_crc32_eth(b.p(), in.size()); } if (k >= 5) memcpy(o.p, &v, L[k]); c.check(b.v() == in, "input modified"); if (!f) ref = o.v(); else expect_bytes(c, o.v(), ref, "one-call digest depends on what memory held before", fmt("kind %d, %zu bytes", k, in.size())); }
    if (in.size()) c.nontrivial(); c.label("one-call digest"); c.say("one-call digest %d of %zu bytes", k, in.size());
}
static void run(Gen &g, Case &c) { struct Restore { ~Restore() { vt.fill = 0xA5; } } r; switch (g.weighted({60, 30, 6, 6})) { case 0: symmetric(g, c); break; case 1: arithmetic(g, c); break; case 2: generators(g, c); break; default: oneshot(g, c); } }
Prop PROP = {"C30", "a generated script on one symmetric context, one big-integer / curve / public-key operation, a generator history or a one-call digest, on exact-size heap buffers (odd alignments, zero lengths) under AddressSanitizer; executed three times with stack, heap, contexts and output buffers filled with 00, FF and 5D beforehand, all results must agree; the library is built without automatic-variable initialisation. Non-trivial: some data is processed.", run, 120000, 4000000, 60, {"AddressSanitizer detects accesses outside heap, stack and global objects", "reads of uninitialised memory that change no result are not reported"}};
