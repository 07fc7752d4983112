#include <memory>
#include "mach.hpp"
#include <thread>
#include <atomic>
static Kind gen_kind(Gen &g) { return (Kind)g.draw(K_COUNT - 1); }
static void same(Case &c, const Bytes &got, const Bytes &want, const Script &S, size_t i, const char *how, const std::string &others) { if (got != want) expect_bytes(c, got, want, how, fmt("%s, step %zu%s%s", S.str().c_str(), i, others.empty() ? "" : ", next to ", others.c_str())); }
static void interleaved(Gen &g, Case &c)
{
    size_t n = 2 + g.draw(2); std::vector<Script> S; for (size_t i = 0; i < n; i++) { Kind k = i && g.flip() ? S[0].kind : gen_kind(g); S.push_back(gen_script(g, k, 5)); }
    u8 fill = (u8)g.draw(255); std::vector<std::vector<Bytes>> want; for (auto &s : S) want.push_back(solo(s, fill));
    std::vector<std::unique_ptr<Mach>> M; for (auto &s : S) M.emplace_back(new Mach(s.kind, s.sub, fill)); std::vector<size_t> at(n, 0); std::string order, desc; for (auto &s : S) desc += s.str() + " | "; size_t sw = 0, last = n;
    for (;;) { std::vector<size_t> live; for (size_t i = 0; i < n; i++) if (at[i] < S[i].s.size()) live.push_back(i); if (live.empty()) break; size_t i = live[g.draw(live.size() - 1)]; Bytes o = M[i]->step(S[i].s[at[i]]); order += (char)('a' + i); same(c, o, want[i][at[i]], S[i], at[i], "interleaved run differs from the same steps alone", desc + order); at[i]++; if (i != last) sw++; last = i;
        if (at[i] == S[i].s.size() && g.flip() && M[i]->can_clear()) M[i]->clear(); }
    if (sw > n) c.nontrivial(); for (auto &s : S) c.label(KN[s.kind]); c.say("%sorder %s", desc.c_str(), order.c_str());
}
static Script revary(Gen &g, const Script &S) { Script T = S; for (auto &s : T.s) { u64 r = g.draw(~0ull); for (auto &b : s.a) b = (u8)(splitmix(r) >> 24); for (auto &b : s.b) b = (u8)(splitmix(r) >> 24); } return T; }
static void erased(Gen &g, Case &c)
{
    Kind k; do k = gen_kind(g); while (!Mach(k, 0, 0).can_clear() && (throw Skip(), true)); Script S = gen_script(g, k, 5), T = revary(g, S); u8 fill = (u8)g.draw(255); size_t stop = g.flip() ? S.s.size() : 1 + g.draw(S.s.size() - 1);
    Mach m(S.kind, S.sub, fill); auto go = [&](const Script &s) { m.refill(); for (size_t i = 0; i < stop; i++) m.step(s.s[i]); Bytes before = m.dump(); m.clear(); return std::make_pair(before, m.dump()); };
    auto A = go(S), B = go(T); size_t diff = 0; for (size_t i = 0; i < A.first.size(); i++) diff += A.first[i] != B.first[i];
    for (size_t i = 0; i < A.second.size(); i++) if (A.second[i] != B.second[i]) c.fail("byte %zu of the cleared %s context (%zu bytes) still depends on the processed data: %02x versus %02x after %s, cleared after step %zu", i, KN[k], A.second.size(), A.second[i], B.second[i], S.str().c_str(), stop);
    // the cleared context can be used again from its initialisation
    auto want = solo(S, fill); for (size_t i = 0; i < S.s.size(); i++) same(c, m.step(S.s[i]), want[i], S, i, "run on a cleared context differs from a fresh one", "");
    c.label(std::string("erase ") + KN[k]); if (diff > 8) c.nontrivial(); c.say("erase after %s, stop %zu, %zu secret-dependent bytes before", S.str().c_str(), stop, diff);
}
static void run(Gen &g, Case &c) { if (g.draw(2) == 2) erased(g, c); else interleaved(g, c); }
static void threads(u64 i, Gen &g, Case &c) // contexts of one kind (or two kinds) used at the same time from three threads
{
    Kind k = (Kind)(i % K_COUNT), k2 = i < K_COUNT ? k : (Kind)g.draw(K_COUNT - 1); std::vector<Script> S{gen_script(g, k, 5), gen_script(g, k2, 5), gen_script(g, k, 5)}; std::vector<std::vector<Bytes>> want; for (auto &s : S) want.push_back(solo(s, 0x5A));
    std::atomic<int> ready{0}; std::atomic<bool> bad{false}; std::string msg[3]; std::vector<std::thread> T; size_t reps = (g_thorough ? 20000 : 3000) / (S[0].s.size() + 2); std::atomic<u64> steps{0};
    for (int t = 0; t < 3; t++) T.emplace_back([&, t] { ready++; while (ready < 3) std::this_thread::yield(); for (size_t r = 0; r < reps && !bad; r++) { try { auto o = solo(S[t], 0x5A); steps += o.size(); for (size_t j = 0; j < o.size(); j++) if (o[j] != want[t][j]) { msg[t] = fmt("step %zu: got %s want %s", j, hex(o[j], 32).c_str(), hex(want[t][j], 32).c_str()); bad = true; } } catch (Fail &f) { msg[t] = f.msg; bad = true; } } });
    for (auto &t : T) t.join(); for (int t = 0; t < 3; t++) if (!msg[t].empty()) c.fail("concurrent use of separate contexts changed a result: %s: %s; next to %s", S[t].str().c_str(), msg[t].c_str(), S[(t + 1) % 3].str().c_str());
    c.nontrivial(); c.label("threads"); c.say("threads %s | %s | %s: %zu repetitions", S[0].str().c_str(), S[1].str().c_str(), S[2].str().c_str(), reps);
}
Prop PROP = {"C29", "random cases: two to four scripts over 19 kinds of contexts (ciphers, modes, MACs, hashes, CRCs, classical ciphers, encodings), stepped in a generated order and compared call by call with each script alone; or one script run twice over different keys and data of the same lengths, cleared at a generated point: the cleared memory must not depend on the data and the context must be reusable. Enumerated cases: three scripts run concurrently in threads, repeatedly. Non-trivial: more context switches than contexts, more than eight secret-dependent bytes before clearing, or threads.", run, 120000, 6000000, 30, {"a thread schedule is whatever the machine produces"}, 2 * K_COUNT, threads, 120};
