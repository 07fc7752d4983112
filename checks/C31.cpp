#include "ops.hpp"
#include <atomic>
#include <thread>
// what an operation answered: outcome and, when it succeeded, its outputs
static Str answer(Op *o, int rc) { return o->good(rc) ? "ok " + o->result(rc) : fmt("error %d", rc); }
struct Solo { Str ans, in; bool rng; long N; };
static Solo solo(const Spec &S) // alone, on fresh objects; does it draw from the process-wide generator?
{
    reseed(); u8 a[16], b[16]; cry_prng_aes_rand(a, 16); std::unique_ptr<Op> o(S.make()); reseed(); vt_reset(); int rc = o->call(); Solo r; r.N = vt.count; vt_reset(); cry_prng_aes_rand(b, 16); r.rng = memcmp(a, b, 16) != 0; r.ans = answer(o.get(), rc); r.in = o->inputs(); return r;
}
// groups of gen_op: routines of one group (or exactly one routine) so that operations meet on the same code
static void theme(Gen &g)
{
    static const int NK[] = {38, 16, 3, 3, 3, -1}; g_force = g_forcek = -1; if (g.draw(3) == 0) return; g_force = (int)g.weighted({50, 4, 16, 12, 12, 8}); if (NK[g_force] >= 0 && g.draw(3)) g_forcek = (int)g.draw(NK[g_force]);
}
struct Unforce { ~Unforce() { g_force = g_forcek = -1; } };
// ---- histories: the same objects reused for other operands -----------------------------------------------------------
static void history(Gen &g, Case &c)
{
    theme(g); size_t n = 2 + g.draw(4); std::vector<Spec> S; for (size_t i = 0; i < n; i++) S.push_back(gen_op(g)); std::vector<Solo> W; for (auto &s : S) W.push_back(solo(s)); // the answers on fresh objects
    std::vector<std::unique_ptr<Op>> live; size_t reused = 0; Str how; size_t steps = n + g.draw(n);
    for (size_t t = 0; t < steps; t++) {
        size_t i = t < n ? t : g.draw(n - 1); std::unique_ptr<Op> o(S[i].make()); Op *use = o.get(); if (!live.empty() && g.draw(3)) { size_t j = g.draw(live.size() - 1); if (live[j]->become(o.get())) { use = live[j].get(); reused++; } }
        reseed(); int rc = use->call(); Str a = answer(use, rc), in = use->inputs(); c.check(a == W[i].ans, "%s (step %zu of a history%s) answered %s, alone it answers %s", S[i].name.c_str(), t, use == o.get() ? "" : ", on reused objects", a.c_str(), W[i].ans.c_str()); c.check(in == W[i].in, "%s (step %zu) left operands %s, alone %s", S[i].name.c_str(), t, in.c_str(), W[i].in.c_str());
        if (use == o.get()) live.push_back(std::move(o)); how += S[i].name + (use == live.back().get() ? "; " : " (reused); ");
    }
    c.label("history"); if (reused) { c.nontrivial(); c.label("objects reused"); } c.say("%s", how.c_str());
}
// ---- schedules: another thread runs a whole operation at a chosen allocation of the first -----------------------------
static Op *g_other; static long g_left; static int g_orc; static bool g_ran;
static void preempt() { if (g_left-- != 0) return; vt_on_alloc = nullptr; g_ran = true; std::thread t([] { g_orc = g_other->call(); }); t.join(); }
static void schedule(Gen &g, Case &c)
{
    theme(g); Spec A = gen_op(g), B = gen_op(g); Solo a = solo(A), b = solo(B); if ((a.rng && b.rng) || a.N == 0) { c.label("no schedule"); return; }
    size_t pts = std::min<size_t>((size_t)a.N, 6), ran = 0; for (size_t i = 0; i < pts; i++) {
        long k = (size_t)a.N <= pts ? (long)i : (long)g.draw(a.N - 1); std::unique_ptr<Op> x(A.make()), y(B.make()); reseed(); g_other = y.get(); g_left = k; g_ran = false; vt_on_alloc = preempt; int rc = x->call(); vt_on_alloc = nullptr; if (!g_ran) continue; ran++;
        Str p = answer(x.get(), rc), q = answer(y.get(), g_orc); c.check(p == a.ans, "%s interrupted at allocation %ld of %ld by %s in another thread answered %s, alone %s", A.name.c_str(), k, a.N, B.name.c_str(), p.c_str(), a.ans.c_str()); c.check(q == b.ans, "%s run by another thread at allocation %ld of %ld of %s answered %s, alone %s", B.name.c_str(), k, a.N, A.name.c_str(), q.c_str(), b.ans.c_str()); Str in = x->inputs(), in2 = y->inputs(); c.check(in == a.in && in2 == b.in, "%s at allocation %ld of %s: operands changed", B.name.c_str(), k, A.name.c_str());
    }
    c.label("schedule"); if (ran) c.nontrivial(); c.say("%s interrupted %zu times by %s", A.name.c_str(), ran, B.name.c_str());
}
// ---- free-running threads ----------------------------------------------------------------------------------------------
static void threads(u64 i, Gen &g, Case &c)
{
    g_seedb = g.bytes(32); Unforce u; enum { T = 3 }; std::vector<Spec> S[T]; std::vector<Solo> W[T]; std::vector<std::unique_ptr<Op>> O[T]; std::vector<int> rc[T]; size_t want = g_thorough ? 600 : 150;
    static const int NG[][2] = {{0, 38}, {1, 16}, {2, 3}, {3, 3}, {4, 3}, {5, -1}}; g_force = g_forcek = -1; u64 j = i; for (auto &n : NG) { u64 m = n[1] < 0 ? 1 : (u64)n[1] + 1; if (j < m) { g_force = n[0]; g_forcek = n[1] < 0 ? -1 : (int)j; break; } j -= m; }
    for (int t = 0; t < T; t++) for (int tries = 0; S[t].size() < 4 && tries < 12; tries++) { Spec s = gen_op(g); Solo w = solo(s); if (w.rng) continue; S[t].push_back(s); W[t].push_back(w); }
    if (S[0].empty() || S[1].empty() || S[2].empty()) { c.label("threads: uses the shared generator"); return; }
    for (int t = 0; t < T; t++) { for (size_t k = 0; k < want; k++) O[t].emplace_back(S[t][k % S[t].size()].make()); rc[t].resize(want); }
    std::atomic<int> ready{0}; std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (ready < T) std::this_thread::yield(); for (size_t k = 0; k < want; k++) rc[t][k] = O[t][k]->call(); }); for (auto &x : th) x.join();
    for (int t = 0; t < T; t++) for (size_t k = 0; k < want; k++) { size_t n = k % S[t].size(); Str a = answer(O[t][k].get(), rc[t][k]); c.check(a == W[t][n].ans, "%s in thread %d beside %s and %s answered %s, alone %s", S[t][n].name.c_str(), t, S[(t + 1) % T][0].name.c_str(), S[(t + 2) % T][0].name.c_str(), a.c_str(), W[t][n].ans.c_str()); Str in = O[t][k]->inputs(); c.check(in == W[t][n].in, "%s in thread %d: operands changed", S[t][n].name.c_str(), t); }
    c.nontrivial(); c.label("threads"); c.say("three threads, %zu calls each: %s | %s | %s", want, S[0][0].name.c_str(), S[1][0].name.c_str(), S[2][0].name.c_str());
}
static void run(Gen &g, Case &c) { g_seedb = g.bytes(32); Unforce u; if (g.flip()) schedule(g, c); else history(g, c); }
Prop PROP = {"C31", "operations of every kind the library allocates for (39 big-integer routines, constructors, curve points, RSA, DSA, ECDSA, ElGamal, DH, ECDH), usually several of one routine. History: a sequence in which objects are reused in place for other operands, each answer compared with the answer on fresh objects. Schedule: a second thread runs a whole operation at a generated allocation of the first. Enumerated: three free-running threads per routine. Non-trivial: an object was reused, the interruption happened, or threads ran.", run, 30000, 1500000, 60, {"operations that draw from the process-wide generator never run beside each other (the generator is shared state by design)", "pre-emption points are the allocations of the interrupted operation; free-running threads add whatever the machine produces"}, 39 + 17 + 4 + 4 + 4 + 1, threads, 120};
