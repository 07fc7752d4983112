#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <fcntl.h>
#include <algorithm>
#include <set>
#include <sanitizer/asan_interface.h>
#ifndef VT_VARIANT
#define VT_VARIANT "default"
#endif
int g_thorough = 0;
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_abort=1:quarantine_size_mb=16:malloc_context_size=4:allow_user_segv_handler=0:print_legend=0:"
           "symbolize=0:fast_unwind_on_malloc=1:alloc_dealloc_mismatch=0:max_malloc_fill_size=4096:malloc_fill_byte=165";
}
void Buf::poison0() { ASAN_POISON_MEMORY_REGION(p, 1); }
void Buf::unpoison0() { ASAN_UNPOISON_MEMORY_REGION(p, 1); }

u64 splitmix(u64 &s) { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
u64 mix64(u64 a, u64 b) { u64 s = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x632BE59BD9B4E019ULL); splitmix(s); return splitmix(s); }

// ---- constants harvested from comparisons of the code under test -------------------------------------------------
static std::vector<u64> g_dict;
static u64 g_seen[4096];
static bool g_harvest = true;
static inline void harvest(u64 c)
{
    if (c < 2) return;
    u64 h = (c * 0x9E3779B97F4A7C15ULL) >> 52;
    if (g_seen[h] == c || !g_harvest) return;
    g_seen[h] = c;
    if (g_dict.size() < 512) g_dict.push_back(c);
}
extern "C" {
void __sanitizer_cov_trace_pc(void) {}
void __sanitizer_cov_trace_cmp1(u8, u8) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(u32, u32) {}
void __sanitizer_cov_trace_cmp8(u64, u64) {}
void __sanitizer_cov_trace_const_cmp1(u8 a, u8) { harvest(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { harvest(a); }
void __sanitizer_cov_trace_const_cmp4(u32 a, u32) { harvest(a); }
void __sanitizer_cov_trace_const_cmp8(u64 a, u64) { harvest(a); }
void __sanitizer_cov_trace_switch(u64, void *v) { u64 *c = (u64 *)v; for (u64 i = 0; i < c[0] && i < 64; i++) harvest(c[2 + i]); }
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
}

// ---- Gen ---------------------------------------------------------------------------------------------------------
u64 Gen::raw(u64 max, u64 v)
{
    if (replaying) v = *n < nreplay ? replay[*n] : 0;
    if (v > max) v = max;
    if (*n < cap) rec[(*n)++] = v;
    return v;
}
u64 Gen::draw(u64 max)
{
    u64 v = 0;
    if (!replaying) {
        v = splitmix(rng);
        if (max != ~0ULL) v = (u64)(((unsigned __int128)v * (max + 1)) >> 64);
    }
    return raw(max, v);
}
size_t Gen::weighted(std::initializer_list<unsigned> w)
{
    u64 tot = 0;
    for (unsigned x : w) tot += x;
    u64 v = draw(tot - 1);
    size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
u64 Gen::u64v()
{
    switch (weighted({2, 2, 2, 2, 4, 1})) {
    case 0: return draw(16);
    case 1: { u64 b = draw(63); u64 d = draw(4); return (1ULL << b) + d - 2; }
    case 2: return ~0ULL - draw(3);
    case 3: { u64 b = draw(63); return (~0ULL << b) >> draw(63 - b < 8 ? 63 - b : 8); }
    case 4: return draw(~0ULL);
    default: {
        u64 v = 0;
        if (!replaying && dict && !dict->empty()) v = (*dict)[splitmix(rng) % dict->size()];
        v = raw(~0ULL, v);
        return v + draw(2) - 1;
    }
    }
}
size_t Gen::size(size_t max, size_t blk)
{
    size_t v;
    switch (weighted({4, 3, 3, 2, 2})) {
    case 0: v = draw(std::min<size_t>(max, 40)); break;
    case 1: { v = draw(std::max<size_t>(1, std::min<size_t>(max / blk, 12))) * blk; int d = (int)draw(4); static const int o[] = {0, 1, -1, 2, -2}; v = (size_t)std::max<i64>(0, (i64)v + o[d]); break; }
    case 2: v = draw(max); break;
    case 3: v = draw(std::max<size_t>(1, max / 8)); break;
    default: {
        u64 c = 0;
        if (!replaying && dict && !dict->empty()) { c = (*dict)[splitmix(rng) % dict->size()]; if (c > max && c / blk <= max) c /= blk; }
        c = raw(max, c);
        i64 d = (i64)draw(2) - 1;
        v = (size_t)std::max<i64>(0, (i64)c + d);
        break;
    }
    }
    return std::min(v, max);
}
void Gen::fill(u8 *p, size_t len)
{
    if (!len) return;
    switch (weighted({1, 3, 1, 8, 1, 1})) {
    case 0: memset(p, 0, len); break;
    case 1: { // short explicit
        if (len <= 24) { for (size_t i = 0; i < len; i++) p[i] = (u8)draw(255); break; }
        u64 s = draw(~0ULL); for (size_t i = 0; i < len; i++) p[i] = (u8)(splitmix(s) >> 32); break; }
    case 2: memset(p, 0xff, len); break;
    case 3: { u64 s = draw(~0ULL); for (size_t i = 0; i < len; i++) p[i] = (u8)(splitmix(s) >> 32); break; }
    case 4: { u64 s = draw(~0ULL); for (size_t i = 0; i < len; i++) { u64 z = splitmix(s); p[i] = (z & 3) ? ((z & 4) ? 0xff : 0) : (u8)(z >> 32); } break; }
    default: { u8 b = (u8)draw(255); memset(p, b, len); size_t k = draw(len - 1); p[k] = (u8)draw(255); break; }
    }
}
Bytes Gen::bytes(size_t len) { Bytes b(len); fill(b.data(), len); return b; }
std::vector<size_t> Gen::chunks(size_t len, size_t mult, bool empties)
{
    std::vector<size_t> out;
    size_t left = len;
    switch (draw(3)) {
    case 0: out.push_back(left); return out;
    case 1: { // uniform small step
        size_t step = (1 + draw(40)) * mult;
        while (left > step && out.size() < 3000) { out.push_back(step); left -= step; }
        out.push_back(left);
        return out;
    }
    default:
        while (left && out.size() < 40) {
            if (empties && chance(1, 10)) out.push_back(0);
            size_t m = left / mult;
            if (m == 0) break;
            size_t k = (draw(2) == 0 ? 1 + draw(std::min<size_t>(m, 5) - 1) : size(m, std::max<size_t>(1, 16 / mult))) * mult;
            if (k > left) k = left;
            if (k == 0) { if (empties) out.push_back(0); else continue; continue; }
            out.push_back(k);
            left -= k;
        }
        if (left) out.push_back(left);
        if (out.empty()) out.push_back(0);
        return out;
    }
}

// ---- formatting --------------------------------------------------------------------------------------------------
static std::string vfmt(const char *f, va_list ap)
{
    va_list c; va_copy(c, ap);
    int n = vsnprintf(nullptr, 0, f, c); va_end(c);
    std::string s(n > 0 ? n : 0, 0);
    if (n > 0) vsnprintf(&s[0], n + 1, f, ap);
    return s;
}
std::string fmt(const char *f, ...) { va_list a; va_start(a, f); std::string s = vfmt(f, a); va_end(a); return s; }
std::string hex(const void *p, size_t n, size_t lim)
{
    static const char *d = "0123456789abcdef"; const u8 *b = (const u8 *)p; std::string s;
    for (size_t i = 0; i < n && i < lim; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if (n > lim) s += fmt("...(%zu bytes)", n);
    return s;
}
void Case::say(const char *f, ...) { if (!want_note) return; va_list a; va_start(a, f); note += vfmt(f, a); va_end(a); }
void Case::fail(const char *f, ...) { va_list a; va_start(a, f); std::string s = vfmt(f, a); va_end(a); throw Fail{s}; }
void Case::check(bool ok, const char *f, ...) { if (ok) return; va_list a; va_start(a, f); std::string s = vfmt(f, a); va_end(a); throw Fail{s}; }

// ---- runner ------------------------------------------------------------------------------------------------------
static const size_t REC_CAP = 1 << 18;
static const size_t HASH_CAP = 1 << 21;
struct Slot {
    volatile u64 idx; volatile int running; volatile u64 done, nontriv, skipped; volatile int finished;
    size_t n; size_t nhash; char msg[4096];
    u64 rec[REC_CAP]; u64 hash[HASH_CAP];
};
static Slot *mkslot() { void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Slot *)p; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 g_seed = 1;
static u64 idhash() { u64 h = 1469598103934665603ULL; for (const char *p = PROP.id; *p; p++) h = (h ^ (u8)*p) * 1099511628211ULL; for (const char *p = VT_VARIANT; *p; p++) h = (h ^ (u8)*p) * 1099511628211ULL; return h; }

static void limit_cpu(double s)
{
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (time_t)s; it.it_value.tv_usec = (suseconds_t)((s - (time_t)s) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
// Runs one case. Returns 0 pass, 1 fail, 2 skip.
static int run_case(Slot *sl, u64 idx, const u64 *rp, size_t nrp, Case &c)
{
    Gen g; sl->n = 0; g.rec = sl->rec; g.cap = REC_CAP; g.n = &sl->n; g.replay = rp; g.nreplay = nrp; g.replaying = rp != nullptr;
    g.rng = mix64(mix64(g_seed, idhash()), idx); g.dict = &g_dict;
    vt_reset(); vt_on_free = nullptr; vt.fill = 0xA5;
    double lim = PROP.nfixed && idx < PROP.nfixed && PROP.fixed_cpu_s > 0 ? PROP.fixed_cpu_s : PROP.case_cpu_s; limit_cpu(lim);
    int r = 0;
    try {
        if (PROP.nfixed && idx < PROP.nfixed) PROP.fixed(idx, g, c); else PROP.run(g, c);
    } catch (Fail &f) { r = 1; snprintf(sl->msg, sizeof sl->msg, "%s", f.msg.c_str()); }
    catch (Skip &) { r = 2; }
    if (const char *f = getenv("VT_SLOW")) { // development aid: cases near the limit
        struct itimerval it; getitimer(ITIMER_VIRTUAL, &it); double used = lim - it.it_value.tv_sec - it.it_value.tv_usec * 1e-6;
        if (used > lim / 6) if (FILE *o = fopen(f, "a")) { fprintf(o, "%s[%s] index %llu used %.1f s of %.0f\n", PROP.id, VT_VARIANT, (unsigned long long)idx, used, lim); fclose(o); }
    }
    vt_reset(); vt_on_free = nullptr;
    return r;
}
static std::string g_tmp;
struct Outcome { bool failed; std::string how; };
// Run a choice sequence in a forked child.
static Outcome child(Slot *sl, std::function<int()> body, double cpu_total)
{
    fflush(stdout); fflush(stderr);
    sl->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        int fd = open((g_tmp + ".child").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        struct rlimit rl = {(rlim_t)cpu_total + 60, (rlim_t)cpu_total + 65}; setrlimit(RLIMIT_CPU, &rl);
        int r = body();
        _exit(r == 1 ? 3 : 0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    Outcome o; o.failed = false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) o.how = std::string("wrong result: ") + sl->msg;
    else {
        std::string line;
        FILE *f = fopen((g_tmp + ".child").c_str(), "r");
        if (f) { char b[512]; while (fgets(b, sizeof b, f)) if (strstr(b, "ERROR: AddressSanitizer") || strstr(b, "runtime error") || strstr(b, "ssertion")) { line = b; break; } fclose(f); }
        while (!line.empty() && line.back() == '\n') line.pop_back();
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) o.how = fmt("hang: exceeded %.0f s CPU", PROP.case_cpu_s);
        else if (WIFSIGNALED(st)) o.how = fmt("crash: signal %d %s", WTERMSIG(st), line.c_str());
        else o.how = fmt("memory error: exit %d %s", WEXITSTATUS(st), line.c_str());
    }
    return o;
}
static Outcome try_seq(Slot *sl, u64 idx, const std::vector<u64> &seq, std::vector<u64> *out = nullptr)
{
    Outcome o = child(sl, [&] { Case c; static const u64 z = 0; return run_case(sl, idx, seq.empty() ? &z : seq.data(), seq.size(), c); }, std::max(PROP.case_cpu_s, PROP.fixed_cpu_s));
    if (out) out->assign(sl->rec, sl->rec + sl->n);
    return o;
}
static std::vector<u64> shrink(Slot *sl, u64 idx, std::vector<u64> best, double budget, std::string &how)
{
    double end = now() + budget;
    int tries = 0;
    auto attempt = [&](const std::vector<u64> &cand) {
        if (now() > end || tries > 4000) return false;
        tries++;
        std::vector<u64> norm;
        Outcome o = try_seq(sl, idx, cand, &norm);
        if (!o.failed || o.how.compare(0, 4, "hang") == 0) return false;
        if (norm.size() > best.size() || (norm.size() == best.size() && !(norm < best))) return false;
        best = norm; how = o.how;
        return true;
    };
    bool prog = true;
    while (prog && now() < end) {
        prog = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= best.size() && now() < end;) {
                std::vector<u64> c(best); c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) prog = true; else i += k;
            }
            if (k == 1) break;
        }
        for (size_t k = 8; k >= 1; k /= 2)
            for (size_t i = 0; i + k <= best.size() && now() < end; i += k) {
                std::vector<u64> c(best); bool any = false;
                for (size_t j = i; j < i + k; j++) { if (c[j]) any = true; c[j] = 0; }
                if (any && attempt(c)) prog = true;
            }
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            u64 lo = 0;
            while (i < best.size() && best[i] > lo && now() < end) {
                std::vector<u64> c(best); c[i] = lo + (best[i] - lo) / 2;
                if (attempt(c)) prog = true; else { if (best[i] - lo <= 1) break; lo = c[i] + 1; if (lo >= best[i]) break; }
            }
            if (i < best.size() && best[i]) { std::vector<u64> c(best); c[i]--; if (attempt(c)) prog = true; }
        }
    }
    return best;
}
static std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 0x20 || ch > 0x7e) o += fmt("\\u%04x", ch); else o += ch; }
    return o;
}
static int worker(Slot *sl, int w, int nw, u64 total, double deadline)
{
    std::map<std::string, u64> labels; std::vector<std::string> samples; std::set<std::string> seenlab;
    for (u64 i = w; i < total; i += nw) {
        if (now() > deadline) break;
        sl->idx = i; sl->running = 1;
        Case c; c.want_note = samples.size() < 6 && (i / nw) % 7 == 0;
        int r = run_case(sl, i, nullptr, 0, c);
        if (r == 1) return 3;
        sl->running = 0;
        if (r == 2) { sl->skipped++; continue; }
        sl->done++;
        u64 h = 0x1234567 ^ c.salt;
        for (size_t k = 0; k < sl->n; k++) h = (h ^ sl->rec[k]) * 0x9E3779B97F4A7C15ULL, h ^= h >> 29;
        if (PROP.nfixed && i < PROP.nfixed) h = mix64(h, i + 1);
        if (c.nontriv) { sl->nontriv++; if (sl->nhash < HASH_CAP) sl->hash[sl->nhash++] = h; }
        for (auto &l : c.labels) labels[l]++;
        if (c.want_note && c.nontriv && !c.note.empty()) samples.push_back(fmt("case %llu: ", (unsigned long long)i) + c.note.substr(0, 600));
    }
    limit_cpu(0);
    FILE *f = fopen((g_tmp + fmt(".w%d", w)).c_str(), "w");
    if (f) {
        for (auto &l : labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
        for (auto &s : samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', ' '); fprintf(f, "S %s\n", t.c_str()); }
        fclose(f);
    }
    sl->finished = 1;
    return 0;
}
int main(int argc, char **argv)
{
    std::string evid, rdir = "replays", replayf; u64 cases = 0; double tmax = 0; int nw = 8; const char *tier = "quick";
    double scale = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--evidence") evid = nx(); else if (a == "--replays") rdir = nx(); else if (a == "--replay") replayf = nx();
        else if (a == "--seed") g_seed = strtoull(nx(), 0, 10); else if (a == "--cases") cases = strtoull(nx(), 0, 10);
        else if (a == "--time") tmax = atof(nx()); else if (a == "--jobs") nw = atoi(nx()); else if (a == "--tier") tier = nx();
        else if (a == "--scale") scale = atof(nx());
    }
    g_thorough = !strcmp(tier, "thorough");
    mkdir(rdir.c_str(), 0755);
    g_tmp = rdir + fmt("/.%s.%s.%d", PROP.id, VT_VARIANT, (int)getpid());
    signal(SIGPIPE, SIG_IGN);
    if (!replayf.empty()) {
        FILE *f = fopen(replayf.c_str(), "r"); if (!f) { perror("replay"); return 2; }
        char line[1 << 16]; std::vector<u64> seq; u64 idx = 0, w = 0, hn = 0; bool hist = false; 
        std::string all; size_t k; while ((k = fread(line, 1, sizeof line, f)) > 0) all.append(line, k); fclose(f);
        char *sv = nullptr; std::string buf = all; 
        for (char *l = strtok_r(&buf[0], "\n", &sv); l; l = strtok_r(nullptr, "\n", &sv)) {
            if (!strncmp(l, "index ", 6)) idx = strtoull(l + 6, 0, 10);
            else if (!strncmp(l, "seed ", 5)) g_seed = strtoull(l + 5, 0, 10);
            else if (!strncmp(l, "history ", 8)) { hist = true; sscanf(l + 8, "%lu %lu", (unsigned long *)&w, (unsigned long *)&hn); }
            else if (!strncmp(l, "choices", 7)) { char *q = l + 7, *e; for (;;) { u64 v = strtoull(q, &e, 10); if (e == q) break; seq.push_back(v); q = e; } }
        }
        Slot *sl = mkslot(); Case c; c.want_note = true; static const u64 z = 0; int r = 0;
        if (hist) { for (u64 i = w; i <= idx; i += hn) { Case cc; r = run_case(sl, i, nullptr, 0, cc); if (r == 1) break; } }
        else r = run_case(sl, idx, seq.empty() ? &z : seq.data(), seq.size(), c);
        printf("note: %s\n%s %s\n", c.note.c_str(), r == 1 ? "FAIL" : "PASS", r == 1 ? sl->msg : "");
        return r == 1;
    }
    u64 total = cases ? cases : (u64)((g_thorough ? PROP.thorough_cases : PROP.quick_cases) * scale);
    total += PROP.nfixed;
    if (tmax == 0) tmax = g_thorough ? 3000 : 200;
    double t0 = now(), deadline = t0 + tmax;
    std::vector<Slot *> sl; std::vector<pid_t> pid; std::vector<u64> lastidx(nw, ~0ULL); std::vector<double> lastt(nw, t0);
    for (int w = 0; w < nw; w++) sl.push_back(mkslot());
    fflush(stdout);
    for (int w = 0; w < nw; w++) {
        pid_t p = fork();
        if (p == 0) {
            int fd = open((g_tmp + fmt(".e%d", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
            _exit(worker(sl[w], w, nw, total, deadline));
        }
        pid.push_back(p);
    }
    int left = nw, bad = -1; std::vector<int> badlist;
    while (left > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int w = (int)(std::find(pid.begin(), pid.end(), p) - pid.begin());
            if (w >= nw) continue;
            left--; pid[w] = -1;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl[w]->finished)) badlist.push_back(w);
            if (!badlist.empty() && badlist.size() == 1 && bad < 0) { bad = w; for (int k = 0; k < nw; k++) if (pid[k] > 0) kill(pid[k], SIGTERM); }
            continue;
        }
        usleep(20000);
        double t = now();
        for (int w = 0; w < nw; w++) if (pid[w] > 0) {
            if (sl[w]->idx != lastidx[w]) { lastidx[w] = sl[w]->idx; lastt[w] = t; }
            else if (t - lastt[w] > 20 * std::max(PROP.case_cpu_s, PROP.fixed_cpu_s / 10) + 120 && bad < 0) kill(pid[w], SIGKILL);
        }
    }
    int violations = 0; std::vector<std::string> vmsgs;
    if (bad >= 0) {
        Slot *s = sl[bad]; u64 idx = s->idx; std::vector<u64> seq(s->rec, s->rec + s->n); Slot *t = mkslot();
        Outcome o = try_seq(t, idx, seq);
        std::string path = rdir + fmt("/%s-%s-%llu-%llu.replay", PROP.id, VT_VARIANT, (unsigned long long)g_seed, (unsigned long long)idx);
        bool confirmed = false; std::string how; bool hist = false; std::vector<u64> best = seq; std::string note;
        if (o.failed) {
            how = o.how; bool hang = how.compare(0, 4, "hang") == 0;
            if (!hang) best = shrink(t, idx, seq, 25, how);
            confirmed = true;
            for (int k = 0; k < (hang || !PROP.quick_cases ? 1 : 3); k++) { Outcome q = try_seq(t, idx, best); if (!q.failed) confirmed = false; else how = q.how; }
            if (!confirmed && best != seq) { best = seq; confirmed = true; for (int k = 0; k < 3; k++) { Outcome q = try_seq(t, idx, best); if (!q.failed) confirmed = false; else how = q.how; } }
        }
        if (!confirmed) { // state carried over from earlier cases of the same process
            hist = true; confirmed = true;
            for (int k = 0; k < 2; k++) {
                Outcome q = child(t, [&] { int r = 0; for (u64 i = bad; i <= idx; i += nw) { Case c; r = run_case(t, i, nullptr, 0, c); if (r == 1) break; } return r; }, tmax * 4);
                if (!q.failed) confirmed = false; else how = q.how;
            }
        }
        if (confirmed) {
            FILE *f = fopen(path.c_str(), "w");
            if (f) {
                fprintf(f, "property %s variant %s\nseed %llu\nindex %llu\n", PROP.id, VT_VARIANT, (unsigned long long)g_seed, (unsigned long long)idx);
                if (hist) fprintf(f, "history %d %d\n", bad, nw);
                else { fprintf(f, "choices"); for (u64 v : best) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); }
                fprintf(f, "failure %s\n", how.c_str());
                fclose(f);
            }
            violations = 1; vmsgs.push_back(how);
            printf("%s: %s\n", PROP.id, how.c_str());
            printf("VIOLATION property=%s replay=%s\n", PROP.id, path.c_str());
        } else fprintf(stderr, "%s: worker %d stopped at case %llu but neither the case nor its history reproduces; ignored (%s)\n", PROP.id, bad, (unsigned long long)idx, s->msg);
    }
    u64 done = 0, nt = 0, sk = 0; std::vector<u64> hs; std::map<std::string, u64> labels; std::vector<std::string> samples;
    for (int w = 0; w < nw; w++) {
        done += sl[w]->done; nt += sl[w]->nontriv; sk += sl[w]->skipped; hs.insert(hs.end(), sl[w]->hash, sl[w]->hash + sl[w]->nhash);
        FILE *f = fopen((g_tmp + fmt(".w%d", w)).c_str(), "r");
        if (f) { char b[2048]; while (fgets(b, sizeof b, f)) { size_t L = strlen(b); while (L && b[L - 1] == '\n') b[--L] = 0;
                if (b[0] == 'L') { char *e; u64 v = strtoull(b + 2, &e, 10); labels[e + 1] += v; } else if (b[0] == 'S' && samples.size() < 12) samples.push_back(b + 2); } fclose(f); }
        unlink((g_tmp + fmt(".w%d", w)).c_str()); unlink((g_tmp + fmt(".e%d", w)).c_str());
    }
    unlink((g_tmp + ".child").c_str());
    std::sort(hs.begin(), hs.end()); u64 distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
    double wall = now() - t0;
    if (!evid.empty()) {
        FILE *f = fopen(evid.c_str(), "w");
        if (f) {
            fprintf(f, "{\"variant\":\"%s\",\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"skipped\":%llu,\"enumerated_cases\":%llu,\"rule\":\"%s\",\"labels\":{", VT_VARIANT,
                    (unsigned long long)done, (unsigned long long)distinct, (unsigned long long)sk, (unsigned long long)PROP.nfixed, jesc(PROP.rule).c_str());
            bool first = true; for (auto &l : labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "},\"samples\":["); first = true; for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
            fprintf(f, "],\"assumptions\":["); first = true; for (auto &s : PROP.assumptions) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
            fprintf(f, "],\"violations\":%d,\"failure\":\"%s\",\"wall_s\":%.2f,\"requested\":%llu}\n", violations, violations ? jesc(vmsgs[0]).c_str() : "", wall, (unsigned long long)total);
            fclose(f);
        }
    }
    printf("%s[%s] tier=%s seed=%llu cases=%llu/%llu distinct_nontrivial=%llu violations=%d wall=%.1fs\n", PROP.id, VT_VARIANT, tier, (unsigned long long)g_seed,
           (unsigned long long)done, (unsigned long long)total, (unsigned long long)distinct, violations, wall);
    return violations ? 1 : 0;
}
