#include "big.hpp"
// A history of ring operations over a small register file of cry_mpi, mirrored by BIGNUMs.
static void run(Gen &g, Case &c)
{
    const size_t NR = 4;
    long live0 = vt.live;
    {
        size_t maxbits = g.draw(9) == 9 ? 40000 : g.draw(3) == 3 ? 6000 : 900;
        Mpi r[NR]; Big m[NR];
        size_t nops = 1 + g.draw(7);
        bool nt = false;
        for (size_t i = 0; i < NR; i++) {
            m[i] = gen_int(g, maxbits);
            r[i].drop(); r[i].load(m[i], g.draw(3) == 0 ? g.draw(5) : 0);
        }
        // correlated operands: nearly equal magnitudes exercise borrow and compare
        if (g.draw(3) == 3) { i64 d = (i64)g.draw(4) - 2; m[1] = m[0] + Big((long)d); if (g.flip()) m[1] = -m[1]; r[1].set(m[1]); }
        if (g.draw(7) == 7) { // complement: sum is all ones / power of two
            Big t = (Big(1) << (m[0].bits() + g.draw(70))) - m[0].abs(); m[2] = m[0].neg() ? -t : t; r[2].set(m[2]); }
        for (size_t k = 0; k < nops; k++) {
            size_t d = g.draw(NR - 1), a = g.draw(NR - 1), b = g.draw(NR - 1);
            unsigned op = (unsigned)g.draw(13);
            if ((op == 2 || op == 3 || op == 9) && m[a].bits() + m[b].bits() > 90000) op = 1;
            Big want; int rc = 0, wrc = 0; const char *nm = "";
            std::string ctx;
            ctx = fmt("r%zu = op(r%zu=%s, r%zu=%s) prior r%zu=%s step %zu", d, a, m[a].str().c_str(), b, m[b].str().c_str(), d, m[d].str().c_str(), k);
            cry_mpi *D = r[d]; const cry_mpi *A = r[a], *B = r[b];
            switch (op) {
            case 0: nm = "add"; want = m[a] + m[b]; rc = cry_mpi_add(D, A, B); break;
            case 1: nm = "sub"; want = m[a] - m[b]; rc = cry_mpi_sub(D, A, B); break;
            case 2: nm = "mul"; want = m[a] * m[b]; rc = cry_mpi_mul(D, A, B); break;
            case 3: nm = "sqr"; want = m[a] * m[a]; rc = cry_mpi_sqr(D, A); break;
            case 4: nm = "abs"; want = m[a].abs(); rc = cry_mpi_abs(D, A); break;
            case 5: { size_t n = g.size(3000, 64); nm = "shl"; if (m[a].bits() + n > 100000) n = 1; want = m[a] << n; ctx += fmt(" n=%zu", n); rc = cry_mpi_shl(D, A, n); break; }
            case 6: { size_t n = g.flip() ? g.size(m[a].bits() + 130, 64) : g.size(3000, 64); nm = "shr"; want = m[a] >> n; ctx += fmt(" n=%zu", n); rc = cry_mpi_shr(D, A, n); break; }
            case 7: nm = "add_abs"; want = m[a].abs() + m[b].abs(); rc = cry_mpi_add_abs(D, A, B); break;
            case 8: nm = "sub_abs"; if (BN_ucmp(m[a].b, m[b].b) >= 0) want = m[a].abs() - m[b].abs(); else { wrc = -1; want = m[d]; } rc = cry_mpi_sub_abs(D, A, B); break;
            case 9: nm = "mul_abs"; want = m[a].abs() * m[b].abs(); rc = cry_mpi_mul_abs(D, A, B);
                    break;
            case 10: nm = "copy"; want = m[a]; rc = cry_mpi_copy(D, A); break;
            case 11: { nm = "swap"; cry_mpi *X = r[a]; if (d != a) { cry_mpi_swap(D, X); std::swap(m[d].b, m[a].b); } want = m[d]; break; }
            case 12: { nm = "init_copy"; r[d].drop(); Big src = d == a ? Big(0) : m[a]; if (d == a) { rc = cry_mpi_init(D); } else rc = cry_mpi_init_copy(D, A); r[d].live = rc == 0; want = src; break; }
            default: { nm = "mul_dig"; cry_mpi_digit dg = (cry_mpi_digit)g.u64v(); want = m[a] * Big::u((u64)dg); ctx += fmt(" dig=%llx", (unsigned long long)dg); rc = cry_mpi_mul_dig(D, A, dg); break; }
            }
            c.label(nm);
            if (d == a || d == b) c.label("aliased");
            c.check(rc == wrc || (wrc < 0 && rc < 0), "%s returned %d (expected %d) for %s", nm, rc, wrc, ctx.c_str());
            if (wrc == 0) { expect_mpi(c, D, want, nm, ctx); m[d] = want; }
            for (size_t i = 0; i < NR; i++) expect_mpi(c, r[i], m[i], "operand preserved", std::string(nm) + " " + ctx + fmt(" register r%zu", i));
            if (m[a].bits() > 64 && m[b].bits() > 64) nt = true;
            // pure queries
            int q = cry_mpi_cmp(r[a], r[b]), w = cmp(m[a], m[b]);
            c.check((q > 0) == (w > 0) && (q < 0) == (w < 0), "cmp(%s,%s)=%d", m[a].str().c_str(), m[b].str().c_str(), q);
            q = cry_mpi_cmp_abs(r[a], r[b]), w = BN_ucmp(m[a].b, m[b].b);
            c.check((q > 0) == (w > 0) && (q < 0) == (w < 0), "cmp_abs(%s,%s)=%d", m[a].str().c_str(), m[b].str().c_str(), q);
            c.check(cry_mpi_count_bits(r[d]) == m[d].bits(), "count_bits(%s)=%zu", m[d].str().c_str(), cry_mpi_count_bits(r[d]));
            c.check((size_t)cry_mpi_count_bytes(r[d]) == m[d].nbytes(), "count_bytes(%s)", m[d].str().c_str());
            c.check(cry_mpi_is_zero(&r[d].m) == m[d].zero() && !!cry_mpi_is_odd(&r[d].m) == m[d].odd() && cry_mpi_is_even(&r[d].m) == !m[d].odd() &&
                    !!cry_mpi_is_neg(&r[d].m) == m[d].neg() && cry_mpi_is_pos(&r[d].m) == !m[d].neg(), "predicates on %s", m[d].str().c_str());
            c.say("%s %s -> %s; ", nm, ctx.substr(0, 160).c_str(), m[d].str().substr(0, 40).c_str());
        }
        if (nt) c.nontrivial();
    }
    c.check(vt.live == live0, "leak: %ld blocks", vt.live - live0);
}
Prop PROP = {"C01", "random histories of 1..8 ring operations over 4 registers (aliasing allowed), operands from carry/borrow-biased digit patterns up to 40000 bits; "
             "non-trivial: at least one step with both operands above 64 bits; distinct by choice sequence", run, 200000, 6000000};
