#include "ops.hpp"
static void drive(Gen &g, Case &c, const Spec &S)
{
    long live0 = vt.live; reseed(); Op *o = S.make(); vt_reset(); reseed(); int rc0 = o->call(); long N = vt.count; vt_reset(); bool ok0 = o->good(rc0); Str r0 = ok0 ? o->result(rc0) : "", in0 = o->inputs(); delete o; c.check(vt.live == live0, "%s: leak of %ld blocks without faults", S.name.c_str(), vt.live - live0);
    if (r0.compare(0, 4, "BAD:") == 0) c.fail("%s: %s", S.name.c_str(), r0.c_str());
    std::vector<std::pair<long, int>> pts; if ((size_t)N <= S.full) for (long k = 0; k < N; k++) { pts.push_back({k, 0}); pts.push_back({k, 1}); }
    else for (size_t i = 0; i < S.sample; i++) { long k = i < 6 ? (long)i : i < 14 ? N - 1 - (long)(i - 6) : (long)g.draw(N - 1); pts.push_back({k, (int)g.draw(1)}); }
    size_t errs = 0;
    for (auto &p : pts) {
        if (c.want_note) fprintf(stderr, "note: %s allocation %ld of %ld %d\n", S.name.c_str(), p.first, N, p.second);
        reseed(); o = S.make(); reseed(); vt_arm(p.first, p.second); int rc = o->call(); long hit = vt.failed; vt_reset(); bool ok = o->good(rc); Str at = fmt("%s with allocation %ld of %ld failing%s", S.name.c_str(), p.first, N, p.second ? " and all later ones" : ""); (void)hit;
        if (ok && !ok0) c.fail("%s: reported success (%d), the operation must fail", at.c_str(), rc);
        if (ok) { Str r = o->result(rc), why; if (r != r0 && !o->valid(rc, why)) c.fail("%s: reported success (%d) with a wrong result: got %s want %s %s", at.c_str(), rc, r.c_str(), r0.c_str(), why.c_str()); } else errs++;
        Str in1 = o->inputs(); c.check(in1 == in0, "%s: operands changed from %s to %s", at.c_str(), in0.c_str(), in1.c_str());
        o->reset(); reseed(); int rc2 = o->call(); c.check(o->good(rc2) == ok0, "%s: repeating it without failures returned %d, want %d", at.c_str(), rc2, rc0); if (ok0) { Str r = o->result(rc2), why; if (r != r0 && !o->valid(rc2, why)) c.fail("%s: repeated call gave %s want %s %s", at.c_str(), r.c_str(), r0.c_str(), why.c_str()); }
        delete o; c.check(vt.live == live0, "%s: leak of %ld blocks", at.c_str(), vt.live - live0);
    }
    c.label(S.name); if (N) c.nontrivial(); c.say("%s: %ld allocation points, %zu injected runs, %zu reported errors", S.name.c_str(), N, pts.size(), errs);
}
static void run(Gen &g, Case &c) { g_seedb = g.bytes(32); drive(g, c, gen_op(g)); }
static void fixed(u64 i, Gen &g, Case &c) { if (sizeof(cry_mpi_digit) == 1) { c.label("dsa_keygen left to wider digits"); return; } g_seedb = g.bytes(32); Spec s; s.name = "dsa_keygen"; s.full = 0; s.sample = 6; s.make = [=] { return new DsaGen(); }; (void)i; drive(g, c, s); }
Prop PROP = {"C28", "one generated operation (39 big-integer routines with destination aliasing, 16 constructors, curve points, RSA, DSA, ECDSA, ElGamal, DH, ECDH, key generation); its allocations are counted, then each allocation index fails alone and together with all later ones (operations above the enumeration limit: the first 6, last 8 and random ones); non-trivial: at least one allocation point", run, 4000, 400000, 60, {"random-data operations may answer with any output that satisfies the defining equation"}, 8, fixed, 120};
