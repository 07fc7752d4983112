#include "keys.hpp"
#include "sym.hpp"
extern "C" {
#include <cry/rsa.h>
}
struct Rsa {
    cry_rsa_ctx x; RsaKey k; size_t m; // m: modulus bytes
    Rsa(Case &c, const RsaKey &k_, int pad, bool pub_only = false, bool pvt_only = false) : k(k_), m(k_.n.nbytes()) { memset(&x, 0xA5, sizeof x); c.check(cry_rsa_init(&x, pad) == 0, "rsa_init failed"); mpi_put(&x.n, k.n); if (!pvt_only) mpi_put(&x.e, k.e); if (!pub_only) mpi_put(&x.d, k.d); }
    Rsa(Case &c, int pad) { memset(&x, 0xA5, sizeof x); c.check(cry_rsa_init(&x, pad) == 0, "rsa_init failed"); }
    ~Rsa() { cry_rsa_clear(&x); }
    void intact(Case &c) { expect_mpi(c, &x.n, k.n, "modulus changed", ""); }
};
static Bytes raw(const RsaKey &k, const Bytes &em, bool pvt) { return modexp(Big::bin(em), pvt ? k.d : k.e, k.n).padded(k.n.nbytes()); }
static bool good(const Bytes &em, bool sign, Bytes *msg = nullptr)
{
    if (em.size() < 11 || em[0] != 0 || em[1] != (sign ? 1 : 2)) return false; size_t i = 2; while (i < em.size() && em[i]) { if (sign && em[i] != 0xff) return false; i++; }
    if (i == em.size() || i < 10) return false; if (msg) msg->assign(em.begin() + i + 1, em.end()); return true;
}
static size_t FBITS = 0; // enumerated sizes used in practice
static size_t gen_bitsz(Gen &g) { if (FBITS) return FBITS; switch (g.draw(5)) { case 0: return 96 + g.draw(40); case 1: return 128; case 2: return 256 + g.draw(8); case 3: return 8 * (12 + g.draw(20)) - g.draw(7); case 4: return g.draw(3) == 3 ? 1024 - g.draw(9) : 256; default: return 320; } }
static RsaKey gen_key(Gen &g) { size_t b = gen_bitsz(g); return rsa_key(FBITS ? g.draw(2) : g.draw(11), b); }
static Bytes mkem(Gen &g, size_t m, bool sign, const Bytes &msg) { Bytes em(m, 0xff); em[0] = 0; em[1] = sign ? 1 : 2; size_t j = m - 3 - msg.size(); if (!sign) { Bytes r = g.bytes(j); for (size_t i = 0; i < j; i++) em[2 + i] = r[i] ? r[i] : 1; } em[2 + j] = 0; std::copy(msg.begin(), msg.end(), em.begin() + 3 + j); return em; }
static void t_crypt(Gen &g, Case &c)
{
    RsaKey k = gen_key(g); bool none = g.draw(4) == 4; Rsa pub(c, k, none ? 0 : 1, true), pvt(c, k, none ? 0 : 1, false, true); size_t m = pub.m, bs = none ? m : m - 11;
    size_t n = g.size(3 * bs + 3, bs); Bytes msg = g.bytes(n);
    if (none) { for (size_t i = 0; i < n; i += m) { Bytes b(msg.begin() + i, msg.begin() + std::min(n, i + m)); b.resize(m); if (Big::bin(b) >= k.n) msg[i] = 0; } if (n == 0) return; }
    LibBuf ct; Buf in(msg); std::string ctx = fmt("n=%s e=%s padding=%s msg(%zu)=%s", k.n.str().c_str(), k.e.str().c_str(), none ? "none" : "v1.5", n, hex(msg, 64).c_str());
    int rc = cry_rsa_encrypt(&pub.x, &ct.p, &ct.n, in, n); c.check(rc == 0, "encrypt returned %d: %s", rc, ctx.c_str()); c.check(in.v() == msg, "message modified");
    size_t blocks = n ? (n + bs - 1) / bs : 1; c.check(ct.n == blocks * m, "ciphertext of %zu bytes, want %zu blocks of %zu: %s", ct.n, blocks, m, ctx.c_str());
    Bytes cv = ct.v(), rec; for (size_t i = 0; i < blocks; i++) { Bytes cb(cv.begin() + i * m, cv.begin() + (i + 1) * m); c.check(Big::bin(cb) < k.n, "ciphertext block not below the modulus"); Bytes em = raw(k, cb, true), part;
        if (none) part = em; else { c.check(good(em, false, &part), "ciphertext block %zu does not hold an EME-PKCS1-v1_5 encoding (%s): %s", i, hex(em).c_str(), ctx.c_str()); c.check(part.size() == std::min(bs, n - i * bs), "block %zu holds %zu bytes: %s", i, part.size(), ctx.c_str()); }
        rec.insert(rec.end(), part.begin(), part.end()); }
    Bytes want = msg; if (none) want.resize(blocks * m); expect_bytes(c, rec, want, "ciphertext contents", ctx);
    LibBuf pt; Buf cb(cv); rc = cry_rsa_decrypt(&pvt.x, &pt.p, &pt.n, cb, cb.n); c.check(rc == 0, "decrypt returned %d: %s", rc, ctx.c_str()); expect_bytes(c, pt.v(), want, "round trip", ctx); c.check(cb.v() == cv, "ciphertext modified");
    pub.intact(c); pvt.intact(c); c.label(none ? "raw round trip" : blocks > 1 ? "multi-block round trip" : "round trip"); if (!n) c.label("empty message"); if (n) c.nontrivial();
    if (g.draw(3) == 0 && blocks) { size_t bad = g.size(cv.size() + m, m); if (bad % m == 0) bad = bad ? bad - 1 : m - 1; Bytes t(cv); t.resize(bad); Buf tb(t); LibBuf o; rc = cry_rsa_decrypt(&pvt.x, &o.p, &o.n, tb, bad); c.check(rc != 0, "decrypt accepted %zu bytes with a modulus of %zu: %s", bad, m, ctx.c_str()); c.check(!o.p && !o.n, "output left after failure"); c.label("bad length"); }
    if (!none && g.draw(7) == 7) { LibBuf c2; rc = cry_rsa_encrypt(&pub.x, &c2.p, &c2.n, in, n); c.check(rc == 0, "second encrypt"); if (n < bs) c.check(c2.v() != cv, "padding repeated: %s", ctx.c_str()); }
    c.say("crypt %s", ctx.c_str());
}
static void t_decode(Gen &g, Case &c) // arbitrary encoded block, decrypt and verify sides
{
    RsaKey k = gen_key(g); size_t m = k.n.nbytes(); bool sign = g.flip(); Rsa R(c, k, 1, sign, false);
    size_t ml = g.size(m - 3, 4); if (ml > m - 3) ml = m - 3; if (g.draw(2)) ml = m - 11 - (ml % (m - 10)); Bytes msg = g.bytes(ml), em = mkem(g, m, sign, msg); u64 mut = g.draw(9);
    switch (mut) { case 0: break; case 1: em[1] = (u8)g.draw(3); break; case 2: em[1] = (u8)g.draw(255); break; case 3: em[2 + g.draw(7) % (m - 2)] = 0; break; case 4: em[2 + g.draw(m - 3 - 0)] ^= (u8)(1 + g.draw(254)); break; case 5: for (size_t i = 2; i < m; i++) if (!em[i]) em[i] = sign ? 0xff : 1; break; case 6: em[0] = 1; break; case 7: { size_t z = 2 + g.draw(m - 3); em[z] = 0; break; } case 8: if (sign) em[2 + g.draw(7)] = 0xfe; else em[2 + g.draw(7)] = 0; break; default: { Bytes r = g.bytes(m); em = r; em[0] = 0; if (g.flip()) em[1] = sign ? 1 : 2; } }
    if (Big::bin(em) >= k.n) throw Skip(); Bytes blk = raw(k, em, sign), pm; bool ok = good(em, sign, &pm); std::string ctx = fmt("n=%s em=%s", k.n.str().c_str(), hex(em, 140).c_str());
    Bytes big = (Big::bin(blk) + k.n).nbytes() <= m && g.draw(3) == 3 ? (Big::bin(blk) + k.n).padded(m) : Bytes(); if (big.size()) { blk = big; ok = false; c.label("representative out of range"); }
    Buf in(blk); if (!sign) { LibBuf o; int rc = cry_rsa_decrypt(&R.x, &o.p, &o.n, in, m); if (ok) { c.check(rc == 0, "valid block rejected (%d): %s", rc, ctx.c_str()); expect_bytes(c, o.v(), pm, "decoded block", ctx); } else { c.check(rc != 0, "malformed block accepted: %s", ctx.c_str()); c.check(!o.p && !o.n, "output left after failure"); } }
    else {
        Bytes vm = ok ? pm : msg; if (!ok && g.flip()) { size_t i = 2; while (i < em.size() && em[i]) i++; vm.assign(em.begin() + std::min(i + 1, em.size()), em.end()); }
        Buf mb(vm); int rc = cry_rsa_verify(&R.x, in, m, mb, vm.size()); c.check((rc == 0) == ok, "verify returned %d for %s block of message %s: %s", rc, ok ? "valid" : "malformed", hex(vm).c_str(), ctx.c_str());
        if (ok) { Bytes v2 = vm; u64 q = g.draw(3); if (q == 0) v2.push_back((u8)g.draw(255)); else if (q == 1 && v2.size()) v2.pop_back(); else if (q == 2 && v2.size()) v2[g.draw(v2.size() - 1)] ^= (u8)(1 + g.draw(254)); else if (v2.size()) v2.erase(v2.begin()); else v2.push_back(0); Buf m2(v2); rc = cry_rsa_verify(&R.x, in, m, m2, v2.size()); c.check(rc != 0, "verify accepted another message %s: %s", hex(v2).c_str(), ctx.c_str()); }
    }
    c.label(fmt("%s %s encoding", sign ? "signature" : "encryption", ok ? "valid" : "malformed")); c.nontrivial(); c.say("decode %s ok=%d", ctx.c_str(), ok);
}
static void t_sign(Gen &g, Case &c)
{
    RsaKey k = gen_key(g); bool none = g.draw(5) == 5; Rsa pvt(c, k, none ? 0 : 1, false, true), pub(c, k, none ? 0 : 1, true); size_t m = pub.m, bs = none ? m : m - 11, n = g.draw(3) ? g.size(bs, 4) : g.size(2 * bs + 3, bs); Bytes msg = g.bytes(n);
    if (none) { if (!n) return; for (size_t i = 0; i < n; i += m) { Bytes b(msg.begin() + i, msg.begin() + std::min(n, i + m)); b.resize(m); if (Big::bin(b) >= k.n) msg[i] = 0; } }
    LibBuf s; Buf in(msg); std::string ctx = fmt("n=%s d=%s padding=%s msg(%zu)=%s", k.n.str().c_str(), k.d.str().c_str(), none ? "none" : "v1.5", n, hex(msg, 64).c_str());
    int rc = cry_rsa_sign(&pvt.x, &s.p, &s.n, in, n); c.check(rc == 0, "sign returned %d: %s", rc, ctx.c_str()); Bytes want; size_t at = 0; do { size_t l = std::min(bs, n - at); Bytes p(msg.begin() + at, msg.begin() + at + l), em; if (none) { em = p; em.resize(m); } else em = mkem(g, m, true, p); Bytes b = raw(k, em, true); want.insert(want.end(), b.begin(), b.end()); at += l; } while (at < n);
    expect_bytes(c, s.v(), want, "signature", ctx); Buf sb(want); rc = cry_rsa_verify(&pub.x, sb, sb.n, in, n); c.check(rc == 0, "genuine signature rejected (%d): %s", rc, ctx.c_str());
    // forgeries
    Bytes f = want, fm = msg; std::string how; switch (g.draw(6)) { case 0: { size_t i = g.draw(f.size() * 8 - 1); f[i / 8] ^= 1 << i % 8; how = "bit flip in signature"; break; } case 1: if (none || !n) throw Skip(); fm[g.draw(n - 1)] ^= 1 << g.draw(7); how = "bit flip in message"; break; case 2: f.pop_back(); how = "short signature"; break; case 3: f.push_back(0); how = "long signature"; break; case 4: f.clear(); how = "empty signature"; break; case 5: f.assign(f.size(), 0); how = "zero signature"; if (Big::bin(want).zero()) throw Skip(); break; default: if (!n) fm.push_back(1); else { if (none && fm.back() == 0) throw Skip(); fm.pop_back(); } how = "truncated message"; }
    Buf fb(f), mb(fm); rc = cry_rsa_verify(&pub.x, fb, f.size(), mb, fm.size());
    bool truth = false; if (none && f.size() == want.size()) { Bytes o; for (size_t i = 0; i < f.size(); i += m) { Bytes b(f.begin() + i, f.begin() + i + m); if (Big::bin(b) >= k.n) { o.clear(); break; } Bytes e = raw(k, b, false); o.insert(o.end(), e.begin(), e.end()); } Bytes w = fm; w.resize(want.size()); truth = o == w; }
    c.check((rc == 0) == truth, "%s %s: %s forged=%s", how.c_str(), rc == 0 ? "accepted" : "rejected", ctx.c_str(), hex(f).c_str());
    c.label("forgery: " + how); c.label(none ? "raw signature" : "v1.5 signature"); c.nontrivial(); c.say("sign %s; %s", ctx.c_str(), how.c_str());
}
static void t_range(Gen &g, Case &c) // representatives around the modulus, raw mode, at any block of the input
{
    RsaKey k = gen_key(g); size_t m = k.n.nbytes(); bool sign = g.flip(); Rsa R(c, k, 0, sign, !sign); size_t blocks = 1 + g.draw(2), at = g.draw(blocks - 1); Bytes in, out;
    for (size_t i = 0; i < blocks; i++) {
        Big r = pmod(Big::bin(g.bytes(m)), k.n); if (i == at) switch (g.draw(5)) { case 0: r = k.n; break; case 1: r = k.n + Big(1); break; case 2: r = k.n - Big(1); break; case 3: r = Big(0); break; case 4: r = k.n + r; break; default: r = Big::bin(Bytes(m, 0xff)); }
        if (r.nbytes() > m) throw Skip(); Bytes b = r.padded(m), o = raw(k, pmod(r, k.n).padded(m), !sign); in.insert(in.end(), b.begin(), b.end()); out.insert(out.end(), o.begin(), o.end());
    }
    bool ok = true; for (size_t i = 0; i < blocks; i++) if (Big::bin(Bytes(in.begin() + i * m, in.begin() + (i + 1) * m)) >= k.n) ok = false;
    std::string ctx = fmt("n=%s raw %s blocks=%zu at=%zu input=%s", k.n.str().c_str(), sign ? "verify" : "decrypt", blocks, at, hex(in, 200).c_str()); Buf ib(in);
    if (sign) { Buf mb(out); int rc = cry_rsa_verify(&R.x, ib, ib.n, mb, mb.n); c.check((rc == 0) == ok, "verify returned %d: %s", rc, ctx.c_str()); }
    else { LibBuf o; int rc = cry_rsa_decrypt(&R.x, &o.p, &o.n, ib, ib.n); c.check((rc == 0) == ok, "decrypt returned %d: %s", rc, ctx.c_str()); if (ok) expect_bytes(c, o.v(), out, "raw decryption", ctx); else c.check(!o.p && !o.n, "output left after failure"); }
    c.label(ok ? "raw representative in range" : "raw representative out of range"); c.nontrivial(); c.say("range %s ok=%d", ctx.c_str(), ok);
}
static void t_otherkey(Gen &g, Case &c)
{
    size_t b = gen_bitsz(g); RsaKey k1 = rsa_key(g.draw(11), b), k2 = rsa_key(12 + g.draw(3), b); Rsa a(c, k1, 1), o(c, k2, 1, true); Bytes msg = g.bytes(1 + g.draw(a.m - 12)); Buf in(msg); LibBuf s; c.check(cry_rsa_sign(&a.x, &s.p, &s.n, in, msg.size()) == 0, "sign");
    int rc = cry_rsa_verify(&o.x, s.p, s.n, in, msg.size()); c.check(rc != 0, "signature accepted by another key n=%s", k2.n.str().c_str());
    // keys too small for the padding
    RsaKey t = rsa_key(g.draw(3), 16 + g.draw(72)); Rsa T(c, t, 1); if (T.m <= 11) { LibBuf x; Bytes one = g.bytes(1 + g.draw(30)); Buf ob(one); rc = cry_rsa_encrypt(&T.x, &x.p, &x.n, ob, ob.n); c.check(rc != 0, "padding accepted with a modulus of %zu bytes", T.m); rc = cry_rsa_sign(&T.x, &x.p, &x.n, ob, ob.n); c.check(rc != 0, "signed with a modulus of %zu bytes", T.m); c.label("modulus too small refused"); }
    c.label("other key"); c.nontrivial(); c.say("other key n1=%s n2=%s", k1.n.str().c_str(), k2.n.str().c_str());
}
static void t_keygen(Gen &g, Case &c)
{
    static const size_t BS[] = {32, 48, 64, 80, 96, 128, 160, 256, 16, 16, 16, 16, 24, 40}; size_t bits = FBITS ? FBITS : BS[g.draw(13)]; static const long E[] = {65537, 3, 17, 0, 5, 257}; long e = E[g.draw(5)]; Rsa R(c, 1); if (g.flip()) { mpi_put(&R.x.e, gen_mag(g, 60)); mpi_put(&R.x.d, gen_mag(g, 60)); mpi_put(&R.x.n, gen_mag(g, 60)); }
    if (e == 65537 && bits < 48) e = 17;
    int rc = cry_rsa_keygen(&R.x, bits, e); std::string ctx = fmt("bits=%zu e=%ld", bits, e); if (bits % 16 && rc) { c.label("key size refused"); return; } c.check(rc == 0, "keygen returned %d: %s", rc, ctx.c_str());
    Big n = mpi_val(&R.x.n), p = mpi_val(&R.x.p), q = mpi_val(&R.x.q), ee = mpi_val(&R.x.e), d = mpi_val(&R.x.d); ctx += fmt(" n=%s p=%s q=%s e=%s d=%s", n.str().c_str(), p.str().c_str(), q.str().c_str(), ee.str().c_str(), d.str().c_str());
    c.check(n.bits() == bits, "modulus of %zu bits: %s", n.bits(), ctx.c_str()); c.check(p * q == n && p != q, "n is not p*q: %s", ctx.c_str()); c.check(isprime(p) && isprime(q), "factor not prime: %s", ctx.c_str()); if (e) c.check(ee == Big(e), "public exponent: %s", ctx.c_str());
    Big l = (p - Big(1)) * (q - Big(1)) / gcdb(p - Big(1), q - Big(1)); c.check(pmod(ee * d, l) == pmod(Big(1), l), "private exponent does not invert the public one: %s", ctx.c_str());
    if (bits >= 96) { R.k = {n, ee, d, p, q}; Bytes msg = g.bytes(1 + g.draw(2 * (bits / 8 - 11))); Buf in(msg); LibBuf ct, pt, s; c.check(cry_rsa_encrypt(&R.x, &ct.p, &ct.n, in, in.n) == 0 && cry_rsa_decrypt(&R.x, &pt.p, &pt.n, ct.p, ct.n) == 0 && pt.v() == msg, "generated key does not round-trip: %s", ctx.c_str()); c.check(cry_rsa_sign(&R.x, &s.p, &s.n, in, in.n) == 0 && cry_rsa_verify(&R.x, s.p, s.n, in, in.n) == 0, "generated key does not sign: %s", ctx.c_str()); }
    c.label("keygen"); c.nontrivial(); c.say("keygen %s", ctx.c_str());
}
static void run(Gen &g, Case &c)
{
    seed_prng(g);
    switch (g.weighted({30, 30, 30, 6, 4, 8})) { case 0: t_crypt(g, c); break; case 1: t_decode(g, c); break; case 2: t_sign(g, c); break; case 3: t_otherkey(g, c); break; case 4: t_keygen(g, c); break; default: t_range(g, c); }
    c.check(vt.live == 0, "storage leaked: %ld blocks", vt.live);
}
static void fixed(u64 i, Gen &g, Case &c)
{
    if (i >= 18) { FBITS = 17 + (i - 18); struct Off { ~Off() { FBITS = 0; } } off; seed_prng(g); t_keygen(g, c); return; } // no such size can be made of two factors of whole bytes: refused, or right
    static const size_t B[] = {1024, 2048, 1536, 2047, 3072, 4096}; FBITS = B[i / 3]; struct Off { ~Off() { FBITS = 0; } } off; seed_prng(g); switch (i % 3) { case 0: t_crypt(g, c); break; case 1: t_decode(g, c); break; default: t_sign(g, c); } c.label(fmt("%zu-bit key", FBITS)); c.check(vt.live == 0, "storage leaked: %ld blocks", vt.live);
}
Prop PROP = {"C17", "RSA keys of 96..1024 bits, and enumerated sizes up to 4096 bits (any bit length, balanced and unbalanced primes, e of 3/17/65537/random): multi-block encrypt/decrypt round trips with ciphertexts opened by OpenSSL BN and checked against EME-PKCS1-v1_5; arbitrary valid and mutated encodings raised with BN and given to decrypt/verify, accepted iff well formed; signatures compared byte for byte with RFC 8017; forged/truncated signatures, messages, other keys and bad lengths rejected; representatives at and beyond the modulus (raw mode, any block); keys generated at 16..256 bits checked. Non-trivial: every case with a non-empty message.", run, 20000, 1200000, 20, {"OpenSSL BIGNUM is a correct oracle"}, 20, fixed, 300};
