#include "engine.hpp"
#include "sym.hpp"
#include <openssl/evp.h>
#include <sys/mman.h>
extern "C" {
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
}
union HC { cry_md5_ctx m; cry_sha1_ctx a; cry_sha256_ctx b; cry_sha512_ctx d; };
static const char *HN[] = {"MD5", "SHA-1", "SHA-256", "SHA-384", "SHA-512"};
static const size_t HL[] = {16, 20, 32, 48, 64};
static const EVP_MD *md(int k) { switch (k) { case 0: return EVP_md5(); case 1: return EVP_sha1(); case 2: return EVP_sha256(); case 3: return EVP_sha384(); default: return EVP_sha512(); } }
static void hinit(int k, HC *x) { switch (k) { case 0: cry_md5_init(&x->m); break; case 1: cry_sha1_init(&x->a); break; case 2: cry_sha256_init(&x->b); break; case 3: cry_sha512_init(&x->d, 1); break; default: cry_sha512_init(&x->d, 0); } }
static void hupd(int k, HC *x, const u8 *p, size_t n) { switch (k) { case 0: cry_md5_update(&x->m, p, n); break; case 1: cry_sha1_update(&x->a, p, n); break; case 2: cry_sha256_update(&x->b, p, n); break; default: cry_sha512_update(&x->d, p, n); } }
static void hdig(int k, HC *x, u8 *o) { switch (k) { case 0: cry_md5_digest(&x->m, o); break; case 1: cry_sha1_digest(&x->a, o); break; case 2: cry_sha256_digest(&x->b, o); break; default: cry_sha512_digest(&x->d, o); } }
static void hclr(int k, HC *x) { switch (k) { case 0: cry_md5_clear(&x->m); break; case 1: cry_sha1_clear(&x->a); break; case 2: cry_sha256_clear(&x->b); break; default: cry_sha512_clear(&x->d); } }
static void hone(int k, u8 *o, const u8 *p, size_t n) { switch (k) { case 0: cry_md5(o, p, n); break; case 1: cry_sha1(o, p, n); break; case 2: cry_sha256(o, p, n); break; case 3: cry_sha384(o, p, n); break; default: cry_sha512(o, p, n); } }
static Bytes ora(int k, const Bytes &m) { Bytes r(HL[k]); unsigned l; EVP_Digest(m.data(), m.size(), r.data(), &l, md(k), 0); return r; }
static void run(Gen &g, Case &c)
{
    size_t nc = 1 + (g.draw(3) == 3 ? 1 + g.draw(1) : 0); Buf mem[3] = {Buf(sizeof(HC)), Buf(sizeof(HC)), Buf(sizeof(HC))}; bool nt = false; std::string h;
    struct J { int k; Bytes m; std::vector<size_t> ch; size_t i, at; int phase; } j[3];
    auto start = [&](size_t i) {
        int k = (int)g.draw(4); size_t blk = k >= 3 ? 128 : 64, n = g.size(g.draw(15) == 15 ? 3000 : 300, blk); if (g.draw(999) == 999) n = 65500 + g.draw(100);
        j[i] = {k, g.bytes(n), g.chunks(n, 1, true), 0, 0, 0}; hinit(k, (HC *)mem[i].p);
    };
    for (size_t i = 0; i < nc; i++) start(i);
    size_t todo = nc + g.draw(2), reuse = 0;
    while (todo) {
        size_t i = g.draw(nc - 1); J &x = j[i]; HC *q = (HC *)mem[i].p;
        if (x.i < x.ch.size()) { // one update (sole context: several)
            size_t k = x.ch[x.i++]; Bytes p(x.m.begin() + x.at, x.m.begin() + x.at + k); x.at += k; ABuf b(g.draw(3) == 3 ? g.draw(7) : 0, p); hupd(x.k, q, b.p(), k); c.check(b.v() == p, "input modified"); continue;
        }
        Buf out(HL[x.k]); hdig(x.k, q, out); std::string cs; for (size_t k : x.ch) cs += fmt("%zu,", k);
        std::string ctx = fmt("%s len=%zu pieces=%s contexts=%zu reuse=%zu msg=%s", HN[x.k], x.m.size(), cs.c_str(), nc, reuse, hex(x.m, 40).c_str());
        Bytes w = ora(x.k, x.m); expect_bytes(c, out.v(), w, "incremental digest", ctx);
        { Buf in(x.m), o2(HL[x.k]); hone(x.k, o2, in, in.n); expect_bytes(c, o2.v(), w, "one-shot digest", ctx); c.check(in.v() == x.m, "input modified"); }
        if (x.m.size() && x.ch.size() > 1) nt = true; h += fmt("%s n=%zu pieces=%s; ", HN[x.k], x.m.size(), cs.c_str()); c.label(HN[x.k]); if (nc > 1) c.label("interleaved contexts");
        if (g.flip()) hclr(x.k, q); // else: re-initialise without clearing
        todo--; if (todo) { if (reuse) c.label("context re-used"); reuse++; start(i); }
    }
    if (nt) c.nontrivial(); c.say("%s", h.c_str());
}
static void fixed(u64 i, Gen &g, Case &c)
{
    if (i >= 5 * 600 + 10) { i -= 5 * 600 + 10; int k = (int)(i % 5); Force f(i / 5, 1); size_t n = FORCE + g.draw(130); Bytes m = g.bytes(n); Buf in(m), o(HL[k]), o2(HL[k]); HC x; hinit(k, &x); hupd(k, &x, in, n); hdig(k, &x, o); hone(k, o2, in, n); Bytes w = ora(k, m); expect_bytes(c, o.v(), w, "digest of one large update", fmt("%s len=%zu", HN[k], n)); expect_bytes(c, o2.v(), w, "one-shot digest", fmt("%s len=%zu", HN[k], n)); c.label("large call"); c.nontrivial(); c.say("%s len=%zu", HN[k], n); return; }
    if (i < 5 * 600) { // every length 0..599, split at a generated point
        int k = (int)(i / 600); size_t n = i % 600; Bytes m = g.bytes(n); size_t cut = g.draw(n); HC x; hinit(k, &x); Buf a(Bytes(m.begin(), m.begin() + cut)), b(Bytes(m.begin() + cut, m.end())), o(HL[k]), o2(HL[k]);
        hupd(k, &x, a, a.n); hupd(k, &x, b, b.n); hdig(k, &x, o); Bytes w = ora(k, m); expect_bytes(c, o.v(), w, "incremental digest", fmt("%s len=%zu cut=%zu", HN[k], n, cut)); Buf in(m); hone(k, o2, in, n); expect_bytes(c, o2.v(), w, "one-shot digest", fmt("%s len=%zu", HN[k], n));
        c.label("length enumeration"); if (n > 1) c.nontrivial(); c.say("%s len=%zu cut=%zu", HN[k], n, cut); return;
    }
    i -= 5 * 600; int k = (int)(i % 5); bool huge = i >= 5; if (huge && !g_thorough) return;
    // long messages: bit count beyond 32 bits, in many updates; thorough also one update of more than 4 GiB
    size_t total = huge ? (4ull << 30) + 4096 + 77 : (512ull << 20) + 4096 + 77, step = huge ? total : (1 << 20) + 13; EVP_MD_CTX *e = EVP_MD_CTX_new(); EVP_DigestInit_ex(e, md(k), 0);
    u8 *p = (u8 *)mmap(0, step, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); HC x; hinit(k, &x);
    for (size_t at = 0; at < total; at += step) { size_t l = std::min(step, total - at); hupd(k, &x, p, l); EVP_DigestUpdate(e, p, l); }
    Bytes o(HL[k]), w(HL[k]); unsigned l; hdig(k, &x, o.data()); EVP_DigestFinal_ex(e, w.data(), &l); EVP_MD_CTX_free(e); munmap(p, step);
    expect_bytes(c, o, w, "long message digest", fmt("%s %zu zero bytes in updates of %zu", HN[k], total, step)); c.nontrivial(); c.label("over 2^32 bits"); c.say("%s %zu bytes", HN[k], total);
}
Prop PROP = {"C14", "MD5, SHA-1, SHA-256, SHA-384, SHA-512: every length 0..599 plus generated lengths (clustered at block and padding boundaries, up to 64 KiB), split into generated update pieces including empty ones, misaligned exact-size inputs, one to three interleaved contexts, contexts re-initialised with or without clearing; incremental and one-shot digests compared with OpenSSL; one message of over 2^32 bits per hash (thorough: a single update of over 4 GiB). Non-trivial: non-empty message in several pieces.", run, 150000, 8000000, 20, {}, 5 * 600 + 10 + 30, fixed, 300};
