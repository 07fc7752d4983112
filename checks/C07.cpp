// The generators and oracles of the arithmetic checks, run in every build configuration: since each configuration agrees with the
// same configuration-independent reference, the configurations agree with each other.
#include <memory>
#include <limits.h>
#include <sys/mman.h>
#include <unistd.h>
#include "ec.hpp"
#include "sym.hpp"
extern "C" {
#include <cry/rsa.h>
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/elgamal.h>
#include <cry/dh.h>
#include <cry/ecdh.h>
#include <cry/prng.h>
}
namespace c01 {
#include "C01.cpp"
}
namespace c02 {
#include "C02.cpp"
}
namespace c03 {
#include "C03.cpp"
}
namespace c04 {
#include "C04.cpp"
}
namespace c05 {
#include "C05.cpp"
}
namespace c17 {
#include "C17.cpp"
}
namespace c18 {
#include "C18.cpp"
}
namespace c19 {
#include "C19.cpp"
}
namespace c20 {
#include "C20.cpp"
}
namespace c21 {
#include "C21.cpp"
}
namespace c22 {
#include "C22.cpp"
}
static void run(Gen &g, Case &c)
{
    size_t w = g.weighted({60, 60, 50, 80, 50, 6, 6, 2, 6, 4, 6}); static const char *N[] = {"ring", "division", "algorithms", "number theory", "conversions", "RSA", "DSA", "ECDSA", "ElGamal", "points", "key agreement"}; c.label(N[w]);
    switch (w) { case 0: c01::run(g, c); break; case 1: c02::run(g, c); break; case 2: c03::run(g, c); break; case 3: c04::run(g, c); break; case 4: c05::run(g, c); break; case 5: c17::run(g, c); break; case 6: c18::run(g, c); break; case 7: c19::run(g, c); break; case 8: c20::run(g, c); break; case 9: c21::run(g, c); break; default: c22::run(g, c); }
}
// enumerated: a generated key on each named curve, in each configuration
static void fixed(u64 i, Gen &g, Case &c)
{
    Curve C = named((int)i); { Grpx G(c, C); G.intact(c); c.check(cry_mpi_count_bits(&G.G.p) == C.p.bits() && cry_mpi_count_bits(&G.G.n) == C.n.bits() && cry_mpi_count_bits(&G.G.b) == C.b.bits() && cry_mpi_count_bits(&G.G.g.x) == C.g.x.bits() && cry_mpi_count_bits(&G.G.g.y) == C.g.y.bits(), "lengths of the parameters of curve %d: p %zu n %zu bits, want %zu and %zu", (int)i, (size_t)cry_mpi_count_bits(&G.G.p), (size_t)cry_mpi_count_bits(&G.G.n), C.p.bits(), C.n.bits()); }
    c19::FCURVE = (int)i; c19::t_keygen(g, c, true); c19::FCURVE = -1; c.label(fmt("named curve %d", (int)i));
}
Prop PROP = {"C07", "cases of the ring, division, multiplication, number-theory, conversion, RSA, DSA, ECDSA, ElGamal, curve and key-agreement checks, executed in every build configuration (digit widths, algorithm options, assembler path, optimisation level) against the same reference, and a generated ECDSA key on each named curve; non-trivial by the rule of the check the case comes from", run, 4000, 150000, 120, {"CRY_ARCH_X86_64 is the only assembler path that can run here (ARM and 32-bit x86 cannot)", "OpenSSL is a correct oracle"}, 11, fixed, 300};
