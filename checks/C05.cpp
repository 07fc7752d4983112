#include "big.hpp"
#include <limits.h>
#include <sys/mman.h>
#include <unistd.h>
static std::string captured_print(const cry_mpi *m, unsigned radix)
{
    fflush(stdout); int fd = memfd_create("p", 0), old = dup(1); dup2(fd, 1);
    cry_mpi_print(m, radix); fflush(stdout);
    dup2(old, 1); close(old); off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); pread(fd, &s[0], n, 0); close(fd); return s;
}
static const char *LO = "0123456789abcdefghijklmnopqrstuvwxyz";
static std::string numeral(const Big &v, unsigned radix) // minimal lower-case magnitude
{
    if (v.zero()) return "0";
    Big t = v.abs(); std::string s;
    while (!t.zero()) { BN_ULONG r = BN_div_word(t.b, radix); s += LO[r]; }
    return std::string(s.rbegin(), s.rend());
}
struct CStr { char *p; CStr(const std::string &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~CStr() { free(p); } };
static void t_bin(Gen &g, Case &c)
{
    size_t n = g.size(g.draw(9) == 9 ? 1200 : 90, 8); Bytes b = g.bytes(n);
    size_t lead = g.draw(3) == 3 ? g.draw(20) : 0; b.insert(b.begin(), lead, 0); n = b.size();
    Big v = Big::bin(b); Big pr = gen_int(g, 700); Buf in(b); bool init = g.draw(3) == 3;
    Mpi M(g, pr); std::string ctx = fmt("bytes=%s prior=%s", hex(b).c_str(), pr.str().c_str());
    if (init) { M.drop(); c.check(cry_mpi_init_bin(M, in, n) == 0, "init_bin failed: %s", ctx.c_str()); M.live = true; }
    else c.check(cry_mpi_load_bin(M, in, n) == 0, "load_bin failed: %s", ctx.c_str());
    expect_mpi(c, M, v, init ? "init_bin" : "load_bin", ctx);
    c.check(in.v() == b, "input modified");
    // store
    Big w = g.flip() ? v : gen_int(g, 700); Mpi S(g, w); size_t need = w.nbytes(); int pad = (int)g.draw(1);
    size_t cap; switch (g.draw(3)) { case 0: cap = need; break; case 1: cap = need + g.draw(40); break; case 2: cap = need ? need - 1 - g.draw(need - 1 < 9 ? need - 1 : 9) : 0; break; default: cap = g.size(need + 50, 8); }
    Buf out(cap, 0x5A); int rc = cry_mpi_store_bin(S, out, cap, pad); ctx = fmt("value=%s size=%zu pad=%d", w.str().c_str(), cap, pad);
    if (cap < need) { c.check(rc < 0, "store_bin accepted a short buffer: %s", ctx.c_str()); c.label("store_bin refused"); }
    else {
        c.check(rc == 0, "store_bin returned %d: %s", rc, ctx.c_str()); Bytes want(cap, 0x5A), mag = w.tobytes();
        if (pad) want = w.abs().padded(cap); else std::copy(mag.begin(), mag.end(), want.begin());
        c.check(out.v() == want, "store_bin wrote %s want %s: %s", hex(out.v()).c_str(), hex(want).c_str(), ctx.c_str()); c.label(pad ? "store_bin padded" : "store_bin minimal");
        Mpi L(g, gen_int(g, 300)); c.check(cry_mpi_load_bin(L, out, pad ? cap : need) == 0, "reload"); expect_mpi(c, L, w.abs(), "byte round trip", ctx);
    }
    expect_mpi(c, S, w, "source preserved", ctx);
    c.label("bin"); if (n > 8 && w.bits() > 64) c.nontrivial(); c.say("bin %s", ctx.c_str());
}
static void t_str(Gen &g, Case &c)
{
    unsigned radix; switch (g.draw(4)) { case 0: radix = 16; break; case 1: radix = 10; break; default: radix = 2 + (unsigned)g.draw(34); }
    Big v = gen_int(g, g.draw(9) == 9 ? 2500 : 350); std::string s = numeral(v, radix);
    bool bad = g.draw(4) == 4;
    u64 cs = g.draw(2); if (cs) { u64 z = g.draw(~0ULL); for (auto &ch : s) if (cs == 1 ? true : (splitmix(z) & 1)) ch = (char)toupper(ch); }
    if (g.draw(3) == 3) s = std::string(g.draw(20), '0') + s;
    std::string sg = v.neg() ? "-" : (g.draw(3) == 3 ? "+" : ""); if (v.zero() && g.draw(3) == 3) sg = "-";
    s = sg + s;
    if (bad) { // one invalid character somewhere in the digits
        std::string inv; for (int ch = 1; ch < 256; ch++) { int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99; if (d >= (int)radix) inv += (char)ch; }
        char ch; switch (g.draw(3)) { case 0: ch = radix < 36 ? LO[radix] : ':'; break; case 1: ch = inv[g.draw(inv.size() - 1)]; break; case 2: { static const char e[] = ":/@[`{ -+.x\t\n_"; ch = e[g.draw(sizeof e - 2)]; break; } default: ch = radix < 36 ? (char)toupper(LO[radix]) : '['; }
        if (inv.find(ch) == std::string::npos) ch = inv[0];
        size_t at = sg.size() + g.draw(s.size() - sg.size());
        if (g.flip() && at < s.size()) s[at] = ch; else s.insert(at, 1, ch);
        if ((ch == '-' || ch == '+') && at == 0) throw Skip(); // would be the sign
    }
    Big pr = gen_int(g, 500); Mpi M(g, pr); CStr cs1(s); bool init = g.draw(3) == 3; int rc;
    std::string ctx = fmt("radix=%u \"%s\" prior=%s", radix, s.substr(0, 120).c_str(), pr.str().c_str());
    if (init) { M.drop(); rc = cry_mpi_init_str(M, radix, cs1.p); M.live = rc == 0; } else rc = cry_mpi_load_str(M, radix, cs1.p);
    if (bad) { c.check(rc != 0, "invalid numeral accepted: %s -> %s", ctx.c_str(), init ? "" : mpi_val(M).str().c_str()); if (!init) { c.check(mpi_canon(M).empty(), "object damaged"); c.check(cry_mpi_set_int(M, 7) == 0, "unusable after refusal"); expect_mpi(c, M, Big(7), "reuse", ctx); } c.label("numeral refused"); c.say("bad %s", ctx.c_str()); c.nontrivial(); return; }
    c.check(rc == 0, "load_str returned %d: %s", rc, ctx.c_str()); expect_mpi(c, M, v, init ? "init_str" : "load_str", ctx);
    // store
    unsigned r2 = 2 + (unsigned)g.draw(14); if (g.draw(3) == 0) r2 = 16; Mpi S(g, v); std::string want = (v.neg() ? "-" : "") + numeral(v, r2);
    Buf out(want.size() + 1); rc = cry_mpi_store_str(S, r2, (char *)out.p); ctx = fmt("value=%s radix=%u", v.str().c_str(), r2);
    c.check(rc == 0, "store_str returned %d: %s", rc, ctx.c_str());
    c.check(!memcmp(out.p, want.c_str(), want.size() + 1), "store_str gave \"%.100s\" want \"%s\": %s", (char *)out.p, want.substr(0, 100).c_str(), ctx.c_str());
    expect_mpi(c, S, v, "source preserved", ctx);
    if (g.draw(15) == 15) { std::string p = captured_print(S, r2); c.check(p == want + "\n", "print gave \"%.100s\": %s", p.c_str(), ctx.c_str()); c.label("print"); }
    Mpi L(g, gen_int(g, 300)); c.check(cry_mpi_load_str(L, r2, (char *)out.p) == 0, "reload"); expect_mpi(c, L, v, "numeral round trip", ctx);
    c.label("str"); if (v.bits() > 64) c.nontrivial(); c.say("str %s", ctx.c_str());
}
static void t_int(Gen &g, Case &c)
{
    long v; switch (g.draw(3)) { case 0: v = (long)g.u64v(); break; case 1: v = LONG_MIN + (long)g.draw(3); break; case 2: v = LONG_MAX - (long)g.draw(3); break; default: v = (long)g.draw(1000) - 500; }
    Mpi M(g, gen_int(g, 300)); bool init = g.flip(); int rc;
    if (init) { M.drop(); rc = cry_mpi_init_int(M, v); M.live = rc == 0; } else rc = cry_mpi_set_int(M, v);
    c.check(rc == 0, "set_int(%ld) returned %d", v, rc); expect_mpi(c, M, Big(v), "set_int", fmt("%ld", v));
    long o = 12345; rc = cry_mpi_get_int(M, &o); c.check(rc == 0 && o == v, "get_int after set_int(%ld): rc %d value %ld", v, rc, o);
    Big w; switch (g.draw(2)) { case 0: w = Big::u(g.u64v()); if (g.flip()) w = -w; break; case 1: w = (Big(1) << (62 + g.draw(3))) + Big((long)g.draw(4) - 2); if (g.flip()) w = -w; break; default: w = gen_int(g, 200); }
    Mpi S(g, w); o = 777; rc = cry_mpi_get_int(S, &o); bool fits = w >= Big(LONG_MIN) && w <= Big(LONG_MAX);
    if (fits) c.check(rc == 0 && Big(o) == w, "get_int(%s): rc %d value %ld", w.str().c_str(), rc, o); else { c.check(rc != 0, "get_int(%s) returned %ld instead of refusing", w.str().c_str(), o); c.label("get_int refused"); }
    expect_mpi(c, S, w, "source preserved", "get_int");
    c.label("int"); c.nontrivial(); c.say("int %ld / %s", v, w.str().c_str());
}
static void run(Gen &g, Case &c)
{
    long live0 = vt.live;
    switch (g.draw(4)) { case 0: case 1: t_bin(g, c); break; case 2: case 3: t_str(g, c); break; default: t_int(g, c); }
    c.check(vt.live == live0, "leak: %ld blocks", vt.live - live0);
}
Prop PROP = {"C05", "byte strings (leading zeros, all lengths mod digit), numerals in every radix with signs/case/leading zeros/one invalid character, native integers at the extremes; exact-size output buffers; arbitrary prior object state; "
             "non-trivial: more than 64 bits, an invalid numeral or a native integer case", run, 400000, 8000000};
