#include "sym.hpp"
extern "C" {
#include <cry/base64.h>
}
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const Bytes &b) // bit-string model, RFC 4648 section 4
{
    std::string o; u32 acc = 0; int n = 0; for (u8 x : b) { acc = acc << 8 | x; n += 8; while (n >= 6) { n -= 6; o += AL[acc >> n & 63]; } acc &= (1u << n) - 1; } if (n) o += AL[acc << (6 - n) & 63]; while (o.size() % 4) o += '='; return o;
}
static Bytes S(const std::string &s) { return Bytes(s.begin(), s.end()); }
static void roundtrip(Gen &g, Case &c, const Bytes &in)
{
    std::string want = enc(in); size_t o1 = g.draw(3) == 3 ? g.draw(7) : 0; ABuf s(o1, in), d(o1, want.size()); size_t r = cry_base64_encode((char *)d.p(), (const char *)s.p(), in.size()); c.check(r == want.size(), "encode of %zu bytes returned %zd, want %zu", in.size(), (ssize_t)r, want.size()); c.check(s.v() == in && d.front_ok(), "encode changed its input"); expect_bytes(c, d.v(), S(want), "encode", hex(in));
    ABuf t(o1, S(want)), e(o1, in.size()); r = cry_base64_decode((char *)e.p(), (const char *)t.p(), want.size()); c.check(r == in.size(), "decode of '%s' returned %zd, want %zu", want.substr(0, 80).c_str(), (ssize_t)r, in.size()); c.check(t.v() == S(want) && e.front_ok(), "decode changed its input"); expect_bytes(c, e.v(), in, "decode", want.substr(0, 80));
}
static void bad(Gen &g, Case &c)
{
    std::string t = enc(g.sbytes(120, 3)); const char *how; bool pad = false;
    switch (g.draw(3)) {
    case 0: case 1: { if (t.empty()) t = "AAAA"; size_t n = 1 + (g.draw(3) == 3 ? g.draw(3) : 0); for (size_t k = 0; k < n; k++) { int ch; do { ch = (int)g.draw(255); if (g.draw(1)) break; } while (0); if (strchr(AL, ch) && ch) ch = "-_ \n\t.*!@[`{:,\x7f\x80\xff"[g.draw(16)]; if (ch == '=') ch = '-'; t[g.draw(t.size() - 1)] = (char)ch; } how = "character outside the alphabet"; break; }
    case 2: { size_t k = 1 + g.draw(2); if (t.size() > k && g.flip()) t.resize(t.size() - k); else t += std::string(k, g.flip() ? 'A' : '='); how = "length not a multiple of four"; break; }
    default: { size_t n = 1 + g.draw(5); t.clear(); for (size_t i = 0; i < 4 * n; i++) t += g.draw(4) == 4 ? '=' : AL[g.draw(63)]; how = "misplaced padding"; pad = true; } }
    Buf s(S(t)); size_t cap = t.size() / 4 * 3 + (t.size() % 4 ? 3 : 0); Buf d(cap); size_t r = cry_base64_decode((char *)d.p, (const char *)s.p, t.size()); c.check(s.v() == S(t), "decode changed its input"); if (pad) c.check(r == (size_t)-1 || r <= cap, "decode returned %zd", (ssize_t)r); else c.check(r == (size_t)-1, "%s accepted: '%s' returned %zd", how, hex(S(t)).c_str(), (ssize_t)r); c.label(how); c.nontrivial(); c.say("%s: %s", how, hex(S(t)).c_str());
}
static void run(Gen &g, Case &c)
{
    if (g.draw(2) == 2) { bad(g, c); return; } Bytes in = g.sbytes(g.draw(15) == 15 ? 20000 : 400, 3); roundtrip(g, c, in); c.label(in.empty() ? "empty" : fmt("length mod 3 = %zu", in.size() % 3)); if (!in.empty()) c.nontrivial(); c.say("round trip of %s", hex(in).c_str());
}
static void fixed(u64 i, Gen &g, Case &c) // all single bytes, pairs by blocks, and every single character as part of a group
{
    if (i >= 18) { Force f(i - 18, 1); Bytes in = g.bytes(FORCE - g.draw(3)); roundtrip(g, c, in); c.label("large"); c.nontrivial(); c.say("%zu bytes", in.size()); return; }
    if (i == 0) { roundtrip(g, c, {}); for (int a = 0; a < 256; a++) roundtrip(g, c, Bytes{(u8)a}); }
    else if (i <= 16) { for (int a = (int)(i - 1) * 16; a < (int)i * 16; a++) for (int b = 0; b < 256; b++) { roundtrip(g, c, Bytes{(u8)a, (u8)b}); roundtrip(g, c, Bytes{(u8)b, (u8)(a * 7 + b), (u8)a}); } }
    else for (int ch = 0; ch < 256; ch++) for (int pos = 0; pos < 8; pos++) { if (ch == '=' || (ch && strchr(AL, ch))) continue; std::string t = "QUJDREVG"; t[pos] = (char)ch; Buf s(S(t)), d(6); c.check(cry_base64_decode((char *)d.p, (const char *)s.p, 8) == (size_t)-1, "character %d at %d accepted", ch, pos); }
    c.label("enumerated"); c.nontrivial(); c.say("enumeration %d", (int)i);
}
Prop PROP = {"C25", "byte strings of 0..20000 bytes round-tripped against a bit-string model in exact-size buffers; texts with characters outside the alphabet, wrong lengths or misplaced padding; all one- and two-byte strings and all single bad characters enumerated; non-trivial: non-empty string or malformed text", run, 3000000, 60000000, 10, {"where padding is misplaced only memory safety and the length bound are judged (RFC 4648 leaves the treatment open)"}, 18 + 12, fixed, 60};
