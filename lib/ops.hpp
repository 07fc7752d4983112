// Every allocating operation of the library as a replayable object: construct, call, read the result, reset.
#pragma once
#include <memory>
#include "ec.hpp"
#include "sym.hpp"
extern "C" {
#include <cry/rsa.h>
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/elgamal.h>
#include <cry/dh.h>
#include <cry/ecdh.h>
int cry_mpi_init_list(cry_mpi *, ...);
void cry_mpi_clear_list(cry_mpi *, ...);
}
typedef std::string Str;
struct Op { // one operation on freshly built objects
    virtual ~Op() {}
    virtual int call() = 0;
    virtual bool good(int rc) { return rc == 0; }      // the call claims success
    virtual Str result(int rc) = 0;                    // outputs of a successful call
    virtual bool valid(int, Str &) { return false; }   // for operations on random data: another correct output
    virtual Str inputs() { return ""; }                // operands that must not change
    virtual void reset() = 0;                          // outputs and operands back to the initial state
    virtual bool become(Op *) { return false; }        // the same objects take over the operands of another operation of the same shape
};
static int g_force = -1, g_forcek = -1;                // generate operations of one group / one routine only (C31)
static u64 kdraw(Gen &g, u64 max) { u64 k = g.draw(max); return g_forcek >= 0 && (u64)g_forcek <= max ? (u64)g_forcek : k; }
static void mpi_over(cry_mpi *m, const Big &v) { Bytes b = v.abs().tobytes(); if (m->alloc == 0 || cry_mpi_load_bin(m, b.data(), b.size()) || mpi_val(m) != v.abs()) { mpi_put(m, v); return; } m->sign = v.neg(); } // in place where it fits
static void ecp_over(cry_ecp *e, const Pt &P) { if (P.inf) { cry_ecp_set_zero(e); return; } mpi_over(&e->x, P.x); mpi_over(&e->y, P.y); mpi_over(&e->z, Big(1)); }
static void grp_over(cry_ecp_grp *G, const Curve &C) { mpi_over(&G->p, C.p); mpi_over(&G->a, C.a); mpi_over(&G->b, C.b); mpi_over(&G->n, C.n); ecp_over(&G->g, C.g); }
static Bytes g_seedb;
static void reseed() { cry_prng_aes_init(g_seedb.data(), g_seedb.size()); }
struct Spec { Str name; std::function<Op *()> make; size_t full = 400; size_t sample = 40; };

static Str show(const cry_mpi *m) { Str e = mpi_canon(m); return e.empty() ? mpi_val(m).str() : "BAD:" + e; }
// ---- big-integer operations: slots 0..n-1, `outs` are written ------------------------------------------------------
struct MpiOp : Op {
    std::vector<Big> v; std::vector<int> outs; std::function<int(cry_mpi *)> f; bool pred; std::function<bool(cry_mpi *, int, Str &)> val; std::vector<cry_mpi> m; size_t cap;
    MpiOp(const std::vector<Big> &v_, const std::vector<int> &o_, std::function<int(cry_mpi *)> f_, bool pred_, std::function<bool(cry_mpi *, int, Str &)> val_, size_t cap_) : v(v_), outs(o_), f(f_), pred(pred_), val(val_), m(v_.size()), cap(cap_) { for (size_t i = 0; i < v.size(); i++) mpi_make(&m[i], v[i], cap); }
    ~MpiOp() { for (auto &x : m) cry_mpi_clear(&x); }
    bool out(int i) { for (int o : outs) if (o == i) return true; return false; }
    int call() override { return f(m.data()); }
    bool good(int rc) override { return pred ? rc >= 0 : rc == 0; }
    Str result(int rc) override { Str s = pred ? fmt("%d ", rc) : ""; for (int o : outs) s += show(&m[o]) + " "; return s; }
    bool valid(int rc, Str &w) override { return val && val(m.data(), rc, w); }
    Str inputs() override { Str s; for (size_t i = 0; i < m.size(); i++) if (!out((int)i)) s += show(&m[i]) + " "; return s; }
    void reset() override { for (int o : outs) mpi_put(&m[o], v[o]); }
    bool become(Op *q) override { auto *t = dynamic_cast<MpiOp *>(q); if (!t || t->v.size() != v.size()) return false; v = t->v; outs = t->outs; f = t->f; pred = t->pred; val = t->val; for (size_t i = 0; i < v.size(); i++) mpi_over(&m[i], v[i]); return true; }
};
static Spec mspec(const Str &name, std::vector<Big> v, std::vector<int> outs, std::function<int(cry_mpi *)> f, size_t cap = 0, bool pred = false, std::function<bool(cry_mpi *, int, Str &)> val = nullptr) { Spec s; s.name = name; s.make = [=] { return new MpiOp(v, outs, f, pred, val, cap); }; return s; }
static Spec gen_mpi(Gen &g)
{
    size_t big = g.draw(3) == 3 ? 6000 : 700; Big a = gen_int(g, big), b = gen_int(g, big), d = gen_int(g, 300); int al = (int)g.draw(2); size_t cap = 0; // destination: own, operand a, operand b
    int R = al == 1 ? 1 : al == 2 ? 2 : 0; typedef cry_mpi M; std::vector<Big> v{d, a, b};
    auto bin = [&](const char *n, int (*f)(M *, const M *, const M *)) { return mspec(fmt("%s%s", n, al == 1 ? " (r=a)" : al == 2 ? " (r=b)" : ""), v, {R}, [f, R](M *m) { return f(&m[R], &m[1], &m[2]); }, cap); };
    auto un = [&](const char *n, int (*f)(M *, const M *)) { int r = R == 2 ? 0 : R; return mspec(fmt("%s%s", n, r ? " (r=a)" : ""), {d, a}, {r}, [f, r](M *m) { return f(&m[r], &m[1]); }, cap); };
    switch (kdraw(g, 38)) {
    case 0: return bin("add", cry_mpi_add); case 1: return bin("sub", cry_mpi_sub); case 2: return bin("mul", cry_mpi_mul); case 3: return bin("add_abs", cry_mpi_add_abs);
    case 4: if (a.abs() < b.abs()) std::swap(v[1], v[2]); return bin("sub_abs", cry_mpi_sub_abs); case 5: return bin("mul_abs", cry_mpi_mul_abs); case 6: return bin("mul_baseline", cry_mpi_mul_baseline); case 7: return bin("mul_comba", cry_mpi_mul_comba); case 8: return bin("mul_karatsuba", cry_mpi_mul_karatsuba); case 9: return bin("mul_toom3", cry_mpi_mul_toom3);
    case 10: return un("sqr", cry_mpi_sqr); case 11: return un("sqr_baseline", cry_mpi_sqr_baseline); case 12: return un("sqr_comba", cry_mpi_sqr_comba); case 13: return un("sqr_karatsuba", cry_mpi_sqr_karatsuba); case 14: return un("abs", cry_mpi_abs); case 15: return un("copy", cry_mpi_copy);
    case 16: { v = {d, a.abs() % (Big(1) << 900)}; int r = R == 2 ? 0 : R; return mspec(fmt("sqrt%s", r ? " (r=a)" : ""), v, {r}, [r](M *m) { return cry_mpi_sqrt(&m[r], &m[1]); }); }
    case 17: case 18: case 19: { // division with every output pattern
        int mode = (int)g.draw(6); bool ab = g.flip(); if (v[2].zero()) v[2] = Big(7); v.push_back(gen_int(g, 200)); int q = mode == 0 ? -1 : mode == 3 ? 1 : mode == 4 ? 2 : 0, r = mode == 1 ? -1 : mode == 3 ? 2 : mode == 4 ? 1 : mode == 5 ? 1 : 3; std::vector<int> o; if (q >= 0) o.push_back(q); if (r >= 0) o.push_back(r);
        return mspec(fmt("%s(q=%d,r=%d)", ab ? "div_abs" : "div", q, r), v, o, [=](M *m) { return (ab ? cry_mpi_div_abs : cry_mpi_div)(q < 0 ? nullptr : &m[q], r < 0 ? nullptr : &m[r], &m[1], &m[2]); }); }
    case 20: { size_t n = g.draw(3000); int r = R == 2 ? 0 : R; return mspec(fmt("shl %zu%s", n > 64 ? (size_t)65 : n > 0, r ? " (r=a)" : ""), {d, a}, {r}, [r, n](M *m) { return cry_mpi_shl(&m[r], &m[1], n); }); }
    case 21: { size_t n = g.draw(800); int r = R == 2 ? 0 : R; return mspec(fmt("shr%s", r ? " (r=a)" : ""), {d, a}, {r}, [r, n](M *m) { return cry_mpi_shr(&m[r], &m[1], n); }); }
    case 22: { Big base = gen_int(g, 300), e = Big((long)g.draw(20)); return mspec(fmt("exp%s", R == 1 ? " (r=b)" : R == 2 ? " (r=e)" : ""), {d, base, e}, {R}, [R](M *m) { return cry_mpi_exp(&m[R], &m[1], &m[2]); }); }
    case 23: case 24: { Big m = gen_mag(g, 300); if (m.zero()) m = Big(1); int r = (int)g.draw(3); return mspec(fmt("mod_exp (r=%d)", r), {d, gen_int(g, 400), gen_mag(g, 40), m}, {r}, [r](M *x) { return cry_mpi_mod_exp(&x[r], &x[1], &x[2], &x[3]); }); }
    case 25: v = {d, gen_int(g, 250), gen_int(g, 250)}; return bin("gcd", cry_mpi_gcd); case 26: v = {d, gen_int(g, 250), gen_int(g, 250)}; if (v[1].zero()) v[1] = Big(6); if (v[2].zero()) v[2] = Big(4); return bin("lcm", cry_mpi_lcm);
    case 27: case 28: { Big m = gen_mag(g, 250); if (m < Big(2)) m = Big(2); v = {d, gen_int(g, 300), m}; return bin("inv", cry_mpi_inv); }
    case 29: { u64 w = g.u64v(); int r = R == 2 ? 0 : R; return mspec(fmt("mul_dig%s", r ? " (r=a)" : ""), {d, a}, {r}, [r, w](M *m) { return cry_mpi_mul_dig(&m[r], &m[1], (cry_mpi_digit)w); }); }
    case 30: { Bytes b = g.sbytes(800, 8); return mspec("load_bin", {d}, {0}, [b](M *m) { return cry_mpi_load_bin(&m[0], b.data(), b.size()); }); }
    case 31: { unsigned rx = 2 + (unsigned)g.draw(34); size_t n = 1 + g.draw(200); Str s; if (g.flip()) s = g.flip() ? "-" : "+"; for (size_t i = 0; i < n; i++) s += "0123456789abcdefghijklmnopqrstuvwxyz"[g.draw(rx - 1)]; return mspec("load_str", {d}, {0}, [s, rx](M *m) { return cry_mpi_load_str(&m[0], rx, s.c_str()); }); }
    case 32: { unsigned rx = 2 + (unsigned)g.draw(14); Big x = gen_int(g, 400); auto buf = std::make_shared<std::vector<char>>(x.bits() + 4); Str w; { Big t = x.abs(); do { w.insert(w.begin(), "0123456789ABCDEF"[(t % Big((long)rx)).word()]); t = t / Big((long)rx); } while (!t.zero()); if (x.neg()) w.insert(w.begin(), '-'); } return mspec("store_str", {x}, {}, [buf, rx, w](M *m) { std::fill(buf->begin(), buf->end(), 0); int rc = cry_mpi_store_str(&m[0], rx, buf->data()); if (rc == 0 && strcasecmp(w.c_str(), buf->data())) { fprintf(stderr, "store_str(radix %u) of %s reported success with \"%s\"\n", rx, w.c_str(), buf->data()); abort(); } return rc; }, 0, false, nullptr); }
    case 33: { long val = (long)g.u64v(); return mspec("set_int", {d}, {0}, [val](M *m) { return cry_mpi_set_int(&m[0], val); }); }
    case 34: { size_t bits = 1 + g.draw(2000); return mspec("rand", {d}, {0}, [bits](M *m) { return cry_mpi_rand(&m[0], bits); }, 0, false, [bits](M *m, int, Str &w) { w = "random bits"; return mpi_canon(m).empty() && mpi_val(m).bits() == bits; }); }
    case 35: { Big mx = gen_mag(g, 900); if (mx.zero()) mx = Big(1); return mspec("rand_range", {d, mx}, {0}, [](M *m) { return cry_mpi_rand_range(&m[0], &m[1]); }, 0, false, [mx](M *m, int, Str &w) { w = "random below"; return mpi_canon(m).empty() && mpi_val(m) < mx && !mpi_val(m).neg(); }); }
    case 36: { Big x = g.flip() ? det_prime(g.draw(9), 40 + g.draw(90)) : gen_mag(g, 130); Spec s = mspec("is_prime", {x}, {}, [](M *m) { return cry_mpi_is_prime(&m[0]); }, 0, true); s.full = 120; return s; }
    case 37: { size_t bits = 8 * (2 + g.draw(10)); Spec s = mspec("prime", {d}, {0}, [bits](M *m) { return cry_mpi_prime(&m[0], bits, nullptr); }, 0, false, [bits](M *m, int, Str &w) { w = "prime"; Big p = mpi_val(m); return mpi_canon(m).empty() && p.bits() == bits && isprime(p) && BN_is_bit_set(p.b, (int)bits - 2); }); s.full = 60; return s; }
    default: { size_t n = g.draw(100); Big x = a; return mspec("store_bin", {x}, {}, [](M *m) { std::vector<u8> b(cry_mpi_count_bytes(&m[0]) + 1); return cry_mpi_store_bin(&m[0], b.data(), b.size(), 1); }); (void)n; }
    }
}
// ---- object construction ---------------------------------------------------------------------------------------------
struct InitOp : Op { std::function<int()> ini; std::function<void()> clr; std::function<Str()> show_; bool live = false; InitOp(std::function<int()> i, std::function<void()> c, std::function<Str()> s) : ini(i), clr(c), show_(s) {}
    ~InitOp() { reset(); } int call() override { int rc = ini(); live = rc == 0; return rc; } Str result(int) override { return show_(); } void reset() override { if (live) clr(); live = false; } };
template <class T> static Spec ispec(const Str &n, std::function<int(T *)> ini, std::function<void(T *)> clr, std::function<Str(T *)> sh) { Spec s; s.name = n; s.make = [=]() -> Op * { auto p = std::shared_ptr<T>((T *)malloc(sizeof(T)), free); memset((void *)p.get(), 0xA5, sizeof(T)); return new InitOp([=] { return ini(p.get()); }, [=] { clr(p.get()); }, [=] { return sh(p.get()); }); }; return s; }
struct M8 { cry_mpi m[8]; }; struct E4 { cry_ecp e[4]; };
static Str showv(const cry_mpi *m) { return mpi_val(m).str() + " "; } // curve constants live in static arrays (capacity zero)
static Str showg(cry_ecp_grp *G) { return showv(&G->p) + showv(&G->a) + showv(&G->b) + showv(&G->n) + ecp_val(&G->g).str(); }
static Str showe(const cry_ecp *e) { if (e->z.used == 0) return "inf "; Str s = show(&e->x) + " " + show(&e->y) + " " + show(&e->z); return s; }
static Spec gen_init(Gen &g)
{
    typedef cry_mpi M; auto clr = [](M *m) { cry_mpi_clear(m); }; auto sh = [](M *m) { return show(m); };
    switch (kdraw(g, 16)) {
    case 0: return ispec<M>("mpi_init", cry_mpi_init, clr, sh); case 1: { size_t n = g.draw(30); return ispec<M>("mpi_init_size", [n](M *m) { return cry_mpi_init_size(m, n); }, clr, sh); } case 2: { long v = (long)g.u64v(); return ispec<M>("mpi_init_int", [v](M *m) { return cry_mpi_init_int(m, v); }, clr, sh); }
    case 3: { Bytes b = g.sbytes(300, 8); return ispec<M>("mpi_init_bin", [b](M *m) { return cry_mpi_init_bin(m, b.data(), b.size()); }, clr, sh); } case 4: { Str s = gen_int(g, 500).dec(); return ispec<M>("mpi_init_str", [s](M *m) { return cry_mpi_init_str(m, 10, s.c_str()); }, clr, sh); }
    case 5: { auto src = std::make_shared<Big>(gen_int(g, 900)); return ispec<M>("mpi_init_copy", [src](M *m) { cry_mpi t; std::vector<cry_mpi_digit> dg(200, 0); Bytes b = src->abs().tobytes(); t.sign = src->neg(); t.alloc = 0; t.data = dg.data(); t.used = 0; for (size_t i = 0; i < b.size(); i++) { size_t k = b.size() - 1 - i; dg[k / sizeof(cry_mpi_digit)] |= (cry_mpi_digit)b[i] << 8 * (k % sizeof(cry_mpi_digit)); } t.used = (b.size() + sizeof(cry_mpi_digit) - 1) / sizeof(cry_mpi_digit); return cry_mpi_init_copy(m, &t); }, clr, sh); }
    case 6: return ispec<M8>("mpi_init_list", [](M8 *x) { cry_mpi *m = x->m; return cry_mpi_init_list(m, m + 1, m + 2, m + 3, m + 4, m + 5, m + 6, m + 7, (cry_mpi *)NULL); }, [](M8 *x) { cry_mpi *m = x->m; cry_mpi_clear_list(m, m + 1, m + 2, m + 3, m + 4, m + 5, m + 6, m + 7, (cry_mpi *)NULL); }, [](M8 *x) { Str s; for (auto &m : x->m) s += show(&m); return s; });
    case 7: return ispec<cry_ecp>("ecp_init", cry_ecp_init, cry_ecp_clear, [](cry_ecp *e) { return showe(e); }); case 8: { long x = (long)g.u64v(), y = (long)g.u64v(); return ispec<cry_ecp>("ecp_init_int", [=](cry_ecp *e) { return cry_ecp_init_int(e, x, y); }, cry_ecp_clear, [](cry_ecp *e) { return showe(e); }); }
    case 9: return ispec<cry_ecp_grp>("ecp_grp_init", cry_ecp_grp_init, cry_ecp_grp_clear, [](cry_ecp_grp *G) { return ecp_val(&G->g).str(); }); case 10: { int id = (int)g.draw(10); return ispec<cry_ecp_grp>("ecp_grp_load", [id](cry_ecp_grp *G) { return cry_ecp_grp_load(G, id); }, cry_ecp_grp_clear, showg); }
    case 11: { int id = (int)g.draw(11) - 1; return ispec<cry_ecdsa_ctx>("ecdsa_init", [id](cry_ecdsa_ctx *x) { return cry_ecdsa_init(x, id); }, cry_ecdsa_clear, [](cry_ecdsa_ctx *x) { return showg(&x->grp) + show(&x->d) + showe(&x->q); }); }
    case 12: return ispec<cry_ecdh_ctx>("ecdh_init", cry_ecdh_init, cry_ecdh_clear, [](cry_ecdh_ctx *x) { return showg(&x->ec) + show(&x->d) + showe(&x->q) + showe(&x->z); });
    case 13: return ispec<cry_dsa_ctx>("dsa_init", cry_dsa_init, cry_dsa_clear, [](cry_dsa_ctx *x) { return show(&x->p) + show(&x->q) + show(&x->g) + show(&x->pvt) + show(&x->pub); }); case 14: return ispec<cry_dh_ctx>("dh_init", cry_dh_init, cry_dh_clear, [](cry_dh_ctx *x) { return show(&x->p) + show(&x->g) + show(&x->e) + show(&x->Y) + show(&x->Z); });
    case 16: return ispec<E4>("ecp_init_list", [](E4 *x) { cry_ecp *e = x->e; return cry_ecp_init_list(e, e + 1, e + 2, e + 3, (cry_ecp *)NULL); }, [](E4 *x) { cry_ecp *e = x->e; cry_ecp_clear_list(e, e + 1, e + 2, e + 3, (cry_ecp *)NULL); }, [](E4 *x) { Str s; for (auto &e : x->e) s += showe(&e); return s; });
    default: return g.flip() ? ispec<cry_rsa_ctx>("rsa_init", [](cry_rsa_ctx *x) { return cry_rsa_init(x, 0); }, cry_rsa_clear, [](cry_rsa_ctx *x) { return show(&x->n) + show(&x->e) + show(&x->d); }) : ispec<cry_elgamal_ctx>("elgamal_init", cry_elgamal_init, cry_elgamal_clear, [](cry_elgamal_ctx *x) { return show(&x->p) + show(&x->g) + show(&x->y) + show(&x->d); });
    }
}
// ---- curve points ----------------------------------------------------------------------------------------------------
struct EcOp : Op { Curve C; Pt P, Q, R; Big k; int kind, al; cry_ecp_grp G; cry_ecp p, q, r; cry_mpi km;
    EcOp(const Curve &C_, const Pt &P_, const Pt &Q_, const Pt &R_, const Big &k_, int kind_, int al_) : C(C_), P(P_), Q(Q_), R(R_), k(k_), kind(kind_), al(al_) { if (cry_ecp_grp_init(&G)) throw Fail{"grp_init"}; grp_put(&G, C, false); cry_ecp_init(&p); cry_ecp_init(&q); cry_ecp_init(&r); mpi_make(&km, k); reset(); }
    ~EcOp() { cry_ecp_grp_clear(&G); cry_ecp_clear(&p); cry_ecp_clear(&q); cry_ecp_clear(&r); cry_mpi_clear(&km); }
    cry_ecp *dst() { return al == 1 ? &p : al == 2 ? &q : &r; } int call() override { switch (kind) { case 0: return cry_ecp_add(dst(), &p, &q, &G); case 1: return cry_ecp_dbl(dst(), &p, &G); case 2: return cry_ecp_mul(dst(), &p, &km, &G); default: return cry_ecp_copy(dst(), &p); } }
    Str result(int) override { Pt t = ecp_val(dst()); return (t.inf ? Str() : showe(dst())) + " = " + t.str(); } Str inputs() override { return showg(&G) + show(&km) + (al == 1 ? "" : showe(&p)) + (al == 2 ? "" : showe(&q)); } void reset() override { ecp_put(&p, P); ecp_put(&q, Q); ecp_put(&r, R); }
    bool become(Op *o) override { auto *t = dynamic_cast<EcOp *>(o); if (!t) return false; C = t->C; P = t->P; Q = t->Q; R = t->R; k = t->k; kind = t->kind; al = t->al; grp_over(&G, C); ecp_over(&p, P); ecp_over(&q, Q); ecp_over(&r, R); mpi_over(&km, k); return true; } };
static Spec gen_ec(Gen &g)
{
    Curve C = gen_curve(g, g.flip() ? 5 + g.draw(20) : 60 + g.draw(80), g.draw(9) == 9); Pt P = C.mul(C.g, gen_mag(g, 6)), Q = g.draw(4) == 0 ? P : g.draw(4) == 0 ? C.neg(P) : C.mul(C.g, gen_mag(g, 6)), R = g.flip() ? C.g : Pt(); Big k = gen_mag(g, 16); int kind = (int)kdraw(g, 3), al = (int)g.draw(2); if (kind && al == 2) al = 0; Spec s; static const char *N[] = {"ecp_add", "ecp_dbl", "ecp_mul", "ecp_copy"}; s.name = fmt("%s%s", N[kind], al == 1 ? " (r=p)" : al == 2 ? " (r=q)" : ""); s.full = 250; s.sample = 60; s.make = [=] { return new EcOp(C, P, Q, R, k, kind, al); }; return s;
}
// ---- RSA -------------------------------------------------------------------------------------------------------------
struct RsaOp : Op { RsaKey K; int pad, kind; Bytes in, sig; bool badsig; cry_rsa_ctx x; u8 *out = nullptr; size_t n = 0;
    RsaOp(const RsaKey &K_, int pad_, int kind_, const Bytes &in_, const Bytes &sig_, bool bad_) : K(K_), pad(pad_), kind(kind_), in(in_), sig(sig_), badsig(bad_) { if (cry_rsa_init(&x, pad)) throw Fail{"rsa_init"}; mpi_put(&x.n, K.n); mpi_put(&x.e, K.e); mpi_put(&x.d, K.d); }
    ~RsaOp() { reset(); cry_rsa_clear(&x); }
    int call() override { out = nullptr; n = 0; switch (kind) { case 0: return cry_rsa_encrypt(&x, &out, &n, in.data(), in.size()); case 1: return cry_rsa_decrypt(&x, &out, &n, in.data(), in.size()); case 2: return cry_rsa_sign(&x, &out, &n, in.data(), in.size()); default: return cry_rsa_verify(&x, sig.data(), sig.size(), in.data(), in.size()); } }
    Str result(int rc) override { Str s = kind == 3 ? "verified" : out ? hex(out, n, 400) : "null"; if (rc == 0 && out) { vt_free(out); out = nullptr; } return s; }
    Str inputs() override { return show(&x.n) + show(&x.e) + show(&x.d) + hex(in, 1000); } void reset() override { out = nullptr; }
    bool become(Op *o) override { auto *t = dynamic_cast<RsaOp *>(o); if (!t || t->pad != pad) return false; reset(); K = t->K; kind = t->kind; in = t->in; sig = t->sig; badsig = t->badsig; mpi_over(&x.n, K.n); mpi_over(&x.e, K.e); mpi_over(&x.d, K.d); return true; } };
static Spec gen_rsa(Gen &g)
{
    RsaKey K = rsa_key(g.draw(5), 100 + g.draw(60)); size_t kb = K.n.nbytes(); int pad = g.flip() ? 1 : 0, kind = (int)kdraw(g, 3); Bytes in; bool bad = false; Bytes sig; // CRY_RSA_PADDING_PKCS_V15 / NONE taken from the header
    int P = pad ? CRY_RSA_PADDING_PKCS_V15 : CRY_RSA_PADDING_NONE; in = g.bytes(pad ? 1 + g.draw(kb - 12) : 1 + g.draw(kb - 2)); if (!pad) in[0] = 0;
    auto rsa = [&](const Bytes &em, const Big &e) { return modexp(Big::bin(em), e, K.n).padded(kb); }; auto padm = [&](u8 t) { Bytes em(kb, 0xff); em[0] = 0; em[1] = t; if (t == 2) for (size_t i = 2; i < kb; i++) em[i] = (u8)(1 + i % 200); em[kb - in.size() - 1] = 0; memcpy(&em[kb - in.size()], in.data(), in.size()); return em; };
    if (!pad) { in.resize(kb, 0); in[0] = 0; } // whole blocks
    if (kind == 1) { Bytes em = pad ? padm(2) : in; in = rsa(em, K.e); if (g.draw(3) == 3 && pad) in[g.draw(kb - 1)] ^= 1; } if (kind == 3) { sig = rsa(pad ? padm(1) : in, K.d); if (g.flip()) { bad = true; sig[g.draw(kb - 1)] ^= (u8)(1 << g.draw(7)); } }
    Spec s; static const char *N[] = {"rsa_encrypt", "rsa_decrypt", "rsa_sign", "rsa_verify"}; s.name = fmt("%s%s%s", N[kind], pad ? " pkcs" : "", bad ? " forged" : ""); s.full = 80; s.sample = 40; s.make = [=] { return new RsaOp(K, P, kind, in, sig, bad); }; return s;
}
static bool rsa_good(cry_rsa_ctx *x, size_t bits, long e, Str &w) { Big n = mpi_val(&x->n), d = mpi_val(&x->d), E = mpi_val(&x->e), m = Big(123456789) % n; w = fmt("n=%s e=%s d=%s", n.str().c_str(), E.str().c_str(), d.str().c_str()); return n.bits() == bits && E == Big(e) && modexp(modexp(m, E, n), d, n) == m && modexp(modexp(Big(5), d, n), E, n) == Big(5); }
struct RsaGen : Op { size_t bits; long e; cry_rsa_ctx x; RsaGen(size_t b, long e_) : bits(b), e(e_) { if (cry_rsa_init(&x, 0)) throw Fail{"init"}; } ~RsaGen() { cry_rsa_clear(&x); } int call() override { return cry_rsa_keygen(&x, bits, e); } Str result(int) override { Str w; if (!rsa_good(&x, bits, e, w)) return "BAD:" + w; return show(&x.n) + show(&x.d); } bool valid(int, Str &w) override { return rsa_good(&x, bits, e, w); } void reset() override { } };
// ---- signatures ------------------------------------------------------------------------------------------------------
struct DGrp { Big p, q, g; };
static DGrp dgrp() { static DGrp r; static bool init = false; if (init) return r; r.q = det_prime(5, 40); for (u64 t = 0;; t++) { Big x = det_bits(t + 9, 90); Big p = x - x % (r.q + r.q) + Big(1); if (p.bits() == 90 && isprime(p)) { r.p = p; break; } } for (long h = 2;; h++) { r.g = modexp(Big(h), (r.p - Big(1)) / r.q, r.p); if (r.g > Big(1)) break; } init = true; return r; }
struct SigOp : Op { // kind: 0 dsa, 1 elgamal, 2 elgamal bytes, 3 ecdsa; verify or sign or keygen (2)
    int kind, what; Big d, y; Bytes h; Big r, s; Curve C; Pt Q; cry_dsa_ctx D; cry_elgamal_ctx E; cry_ecdsa_ctx X; cry_mpi sr, ss; Bytes sb; DGrp G = dgrp();
    SigOp(int k_, int w_, const Big &d_, const Bytes &h_, const Big &r_, const Big &s_, const Curve &C_) : kind(k_), what(w_), d(d_), h(h_), r(r_), s(s_), C(C_)
    {
        mpi_make(&sr, what == 1 ? r : Big(0)); mpi_make(&ss, what == 1 ? s : Big(0)); if (kind == 0) { if (cry_dsa_init(&D)) throw Fail{"init"}; } else if (kind == 3) { if (cry_ecdsa_init(&X, -1)) throw Fail{"init"}; } else if (cry_elgamal_init(&E)) throw Fail{"init"};
        reset();
    }
    ~SigOp() { if (kind == 0) cry_dsa_clear(&D); else if (kind == 3) cry_ecdsa_clear(&X); else cry_elgamal_clear(&E); cry_mpi_clear(&sr); cry_mpi_clear(&ss); }
    void reset() override
    {
        if (what != 1) { mpi_put(&sr, Big(0)); mpi_put(&ss, Big(0)); sb.assign(2 * G.p.nbytes(), 0); } else { Bytes a = pmod(r, Big(1) << (8 * G.p.nbytes())).padded(G.p.nbytes()), b = pmod(s, Big(1) << (8 * G.p.nbytes())).padded(G.p.nbytes()); sb = a; sb.insert(sb.end(), b.begin(), b.end()); }
        if (kind == 0) { y = modexp(G.g, d, G.p); mpi_put(&D.p, G.p); mpi_put(&D.q, G.q); mpi_put(&D.g, G.g); mpi_put(&D.pvt, d); mpi_put(&D.pub, y); } else if (kind == 3) { grp_put(&X.grp, C, false); mpi_put(&X.d, d); Q = C.mul(C.g, d); ecp_put(&X.q, Q); } else { y = modexp(G.g, d, G.p); mpi_put(&E.p, G.p); mpi_put(&E.g, G.g); mpi_put(&E.d, d); mpi_put(&E.y, y); }
    }
    int call() override
    {
        if (kind == 0) { cry_dsa_sig f; f.r = sr; f.s = ss; int rc = what == 0 ? cry_dsa_sign(&D, &f, h.data(), h.size()) : cry_dsa_verify(&D, &f, h.data(), h.size()); sr = f.r; ss = f.s; return rc; }
        if (kind == 3) { if (what == 2) return cry_ecdsa_keygen(&X); cry_ecdsa_sig f; f.r = sr; f.s = ss; int rc = what == 0 ? cry_ecdsa_sign(&X, &f, h.data(), h.size()) : cry_ecdsa_verify(&X, &f, h.data(), h.size()); sr = f.r; ss = f.s; return rc; }
        if (kind == 2) return what == 0 ? cry_elgamal_sign(&E, sb.data(), h.data(), h.size()) : cry_elgamal_verify(&E, sb.data(), h.data(), h.size());
        cry_elgamal_sig f; f.r = sr; f.s = ss; int rc = what == 0 ? cry_elgamal_sign2(&E, &f, h.data(), h.size()) : cry_elgamal_verify2(&E, &f, h.data(), h.size()); sr = f.r; ss = f.s; return rc;
    }
    bool become(Op *o) override { auto *t = dynamic_cast<SigOp *>(o); if (!t || t->kind != kind) return false; what = t->what; d = t->d; h = t->h; r = t->r; s = t->s; C = t->C; mpi_over(&sr, what == 1 ? r : Big(0)); mpi_over(&ss, what == 1 ? s : Big(0)); if (kind == 0) mpi_over(&D.pvt, d); else if (kind == 3) { grp_over(&X.grp, C); mpi_over(&X.d, d); } else mpi_over(&E.d, d); reset(); return true; }
    bool eq(Str &w)
    {
        if (what == 2) { Big k = mpi_val(&X.d); w = k.str(); return k > Big(0) && k < C.n && ecp_val(&X.q) == C.mul(C.g, k); } Big R, S2; if (kind == 2) { size_t nb = G.p.nbytes(); R = Big::bin(sb.data(), nb); S2 = Big::bin(sb.data() + nb, nb); } else { Str e = mpi_canon(&sr) + mpi_canon(&ss); if (!e.empty()) { w = e; return false; } R = mpi_val(&sr); S2 = mpi_val(&ss); } w = "r=" + R.str() + " s=" + S2.str(); if (R <= Big(0) || S2 <= Big(0)) return false;
        Big H = Big::bin(h), iv; if (kind == 0) { if (R >= G.q || S2 >= G.q) return false; modinv(iv, S2, G.q); return modexp(G.g, H * iv % G.q, G.p) * modexp(y, R * iv % G.q, G.p) % G.p % G.q == R; }
        if (kind == 3) { if (R >= C.n || S2 >= C.n) return false; modinv(iv, S2, C.n); Pt t = C.add(C.mul(C.g, H * iv % C.n), C.mul(Q, R * iv % C.n)); return !t.inf && t.x % C.n == R; } if (R >= G.p || S2 >= G.p - Big(1)) return false; return modexp(G.g, H, G.p) == modexp(y, R, G.p) * modexp(R, S2, G.p) % G.p;
    }
    Str result(int) override { if (what == 1) return "verified"; Str w; if (!eq(w)) return "BAD:" + w; return w; } bool valid(int, Str &w) override { return what != 1 && eq(w); }
    Str inputs() override { Str t = hex(h); if (what == 1) t += show(&sr) + show(&ss) + hex(sb); if (kind == 0) return t + show(&D.p) + show(&D.q) + show(&D.g) + show(&D.pvt) + show(&D.pub); if (kind == 3) return t + showg(&X.grp) + (what == 2 ? "" : show(&X.d) + showe(&X.q)); return t + show(&E.p) + show(&E.g) + show(&E.d) + show(&E.y); }
};
static Curve prime_curve(u64 idx, size_t bits) { static std::map<std::pair<u64, size_t>, Curve> memo; auto k = std::make_pair(idx, bits); auto it = memo.find(k); if (it != memo.end()) return it->second; for (u64 t = 0;; t++) { Curve C; C.p = det_prime(idx * 100 + t / 8, bits); C.a = det_bits(idx + t * 3 + 1, bits) % C.p; C.b = det_bits(idx + t * 5 + 2, bits) % C.p; if (C.singular()) continue; auto v = all_points(C); Big n((long)v.size() + 1); if (n < Big(30) || !isprime(n) || n == C.p) continue; C.g = v[idx % v.size()]; C.n = n; memo.emplace(k, C); return C; } }
static Spec gen_sig(Gen &g)
{
    int kind = (int)kdraw(g, 3), what = (int)g.draw(kind == 3 ? 2 : 1); DGrp G = dgrp(); Curve C = prime_curve(g.draw(5), 8); Big ord = kind == 0 ? G.q : kind == 3 ? C.n : G.p - Big(1); Big d = Big(1) + gen_below(g, ord - Big(1)); Bytes h = g.bytes(kind == 3 ? (C.n.bits() - 1) / 8 : 4); Big r, s; bool forged = false;
    if (what == 1) { Big k, ki; for (int i = 0; i < 100; i++) { k = Big(1) + gen_below(g, ord - Big(1)); if (modinv(ki, k, ord)) break; k = Big(1); ki = Big(1); } Big H = Big::bin(h); if (kind == 0) { r = modexp(G.g, k, G.p) % G.q; s = ki * (H + d * r) % G.q; } else if (kind == 3) { r = C.mul(C.g, k).x % C.n; s = ki * (H + d * r) % C.n; } else { r = modexp(G.g, k, G.p); s = pmod(H - d * r, ord) * ki % ord; } if (g.flip()) { forged = true; if (g.flip()) s = (s + Big(1)) % ord; else r = (r + Big(1)) % ord; } }
    static const char *N[] = {"dsa", "elgamal", "elgamal bytes", "ecdsa"}, *W[] = {"sign", "verify", "keygen"}; Spec sp; sp.name = fmt("%s %s%s", N[kind], W[what], forged ? " forged" : ""); sp.full = 150; sp.sample = 60; sp.make = [=] { return new SigOp(kind, what, d, h, r, s, C); }; return sp;
}
struct DsaGen : Op { cry_dsa_ctx x; DsaGen() { if (cry_dsa_init(&x)) throw Fail{"init"}; } ~DsaGen() { cry_dsa_clear(&x); } int call() override { return cry_dsa_keygen(&x, 0); }
    bool ok(Str &w) { Big p = mpi_val(&x.p), q = mpi_val(&x.q), G = mpi_val(&x.g), d = mpi_val(&x.pvt), y = mpi_val(&x.pub); w = "p=" + p.str() + " q=" + q.str() + " g=" + G.str() + " d=" + d.str() + " y=" + y.str(); return p.bits() == 512 && isprime(p) && isprime(q) && ((p - Big(1)) % q).zero() && G > Big(1) && modexp(G, q, p) == Big(1) && d > Big(0) && d < q && modexp(G, d, p) == y; }
    Str result(int) override { Str w; return ok(w) ? w : "BAD:" + w; } bool valid(int, Str &w) override { return ok(w); } void reset() override {} };
// ---- key agreement ---------------------------------------------------------------------------------------------------
struct DhOp : Op { Big p, G, e, Y, Z; int fin; cry_dh_ctx x; DhOp(const Big &p_, const Big &g_, const Big &e_, const Big &y_, const Big &z_, int f) : p(p_), G(g_), e(e_), Y(y_), Z(z_), fin(f) { if (cry_dh_init(&x)) throw Fail{"init"}; mpi_put(&x.p, p); mpi_put(&x.g, G); mpi_put(&x.e, e); reset(); } ~DhOp() { cry_dh_clear(&x); } int call() override { Bytes t = Y.abs().tobytes(); return fin == 0 ? cry_dh_agree(&x) : fin == 1 ? cry_dh_finalize(&x) : cry_dh_set_tok(&x, t.data(), t.size()); } Str result(int) override { return show(&x.Y) + " " + show(&x.Z); } Str inputs() override { return show(&x.p) + show(&x.g) + show(&x.e) + (fin == 1 ? show(&x.Y) : show(&x.Z)); } void reset() override { mpi_put(&x.Y, fin == 2 ? Big(3) : Y); mpi_put(&x.Z, Z); } bool become(Op *o) override { auto *t = dynamic_cast<DhOp *>(o); if (!t) return false; p = t->p; G = t->G; e = t->e; Y = t->Y; Z = t->Z; fin = t->fin; mpi_over(&x.p, p); mpi_over(&x.g, G); mpi_over(&x.e, e); mpi_over(&x.Y, fin == 2 ? Big(3) : Y); mpi_over(&x.Z, Z); return true; } };
struct EcdhOp : Op { Curve C; Big d; Pt q; int fin; cry_ecdh_ctx x; EcdhOp(const Curve &C_, const Big &d_, const Pt &q_, int f) : C(C_), d(d_), q(q_), fin(f) { if (cry_ecdh_init(&x)) throw Fail{"init"}; grp_put(&x.ec, C, false); mpi_put(&x.d, d); reset(); } ~EcdhOp() { cry_ecdh_clear(&x); } int call() override { return fin ? cry_ecdh_final(&x) : cry_ecdh_agree(&x); } Str result(int) override { return ecp_val(fin ? &x.z : &x.q).str(); } Str inputs() override { return showg(&x.ec) + show(&x.d) + (fin ? showe(&x.q) : Str()); } void reset() override { ecp_put(&x.q, q); } bool become(Op *o) override { auto *t = dynamic_cast<EcdhOp *>(o); if (!t) return false; C = t->C; d = t->d; q = t->q; fin = t->fin; grp_over(&x.ec, C); mpi_over(&x.d, d); ecp_over(&x.q, q); return true; } };
static Spec gen_dh(Gen &g)
{
    Spec s; if (g.flip()) { Big p = gen_mag(g, 250), b = gen_mag(g, 260), e = gen_mag(g, 20), Y = gen_mag(g, 250), Z = gen_mag(g, 200); if (p < Big(2)) p = Big(2); int f = (int)g.draw(2); static const char *N[] = {"dh_agree", "dh_finalize", "dh_set_tok"}; s.name = N[f]; s.make = [=] { return new DhOp(p, b, e, Y, Z, f); }; return s; }
    Curve C = gen_curve(g, 8 + g.draw(80)); Big d = gen_mag(g, 12); Pt q = C.mul(C.g, gen_mag(g, 5)); int f = (int)g.draw(1); s.name = f ? "ecdh_final" : "ecdh_agree"; s.full = 200; s.sample = 60; s.make = [=] { return new EcdhOp(C, d, q, f); }; return s;
}
static Spec gen_op(Gen &g)
{
    size_t grp = g.weighted({60, 12, 16, 12, 16, 10, 1}); if (g_force >= 0) grp = (size_t)g_force; switch (grp) { case 0: return gen_mpi(g); case 1: return gen_init(g); case 2: return gen_ec(g); case 3: return gen_rsa(g); case 4: return gen_sig(g); case 5: return gen_dh(g); default: { size_t bits = 8 * (8 + g.draw(4)); bits &= ~(size_t)15; long e = g.flip() ? 65537 : 17; Spec s; s.name = "rsa_keygen"; s.full = 0; s.sample = 30; s.make = [=] { return new RsaGen(bits, e); }; return s; } }
}
