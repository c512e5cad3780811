// C05: weight function and reference values
#include "scene.hpp"
#include "weight.hpp"

using namespace pbt;
using namespace scene;

namespace {

void weightFn(Src& g, Case& c) {
    double re = g.chance(0.3) ? g.pick({0.31, 2.1, 1.0, 0.0525}) : g.logu(1e-6, 1e6);
    int n     = (int) g.range(1, 20);
    bool in = false, out = false;
    for (int k = 0; k < n; k++) {
        double r;
        switch (g.weighted({4, 2, 2, 1, 1, 1})) {
        case 0: r = re * (1 - g.unit() * 0.999999); break;
        case 1: r = re * g.real(1, 5); break;
        case 2: r = re; break;
        case 3: r = std::nextafter(re, 0); break;
        case 4: r = std::nextafter(re, 1e308); break;
        default: r = re * g.logu(1e-12, 1); break;
        }
        double w = weight(r, re);
        c.note([&](std::ostream& o) { o << "weight(" << r << ", " << re << ") = " << w; });
        if (r >= re) {
            out = true;
            REQUIRE(w == 0.0, "weight(" << r << ", " << re << ") = " << w << ", must be exactly 0 outside the radius");
        } else {
            in      = true;
            R want  = (R) re / (R) r - 1;
            R tol   = 4e-16L * ((R) re / (R) r);
            REQUIRE(std::fabs((R) w - want) <= tol, "weight(" << r << ", " << re << ") = " << w << ", must be " << (double) want);
        }
    }
    c.nontrivial(in && out);
}

void checkRef(Case& c, const RefValues& v, int dim, double l0, double re, const char* what) {
    auto r   = ref::refValues(dim, l0, re);
    R x      = (R) re / (R) l0;
    R points = dim == 2 ? 4 * x * x : 5 * x * x * x;
    R tolN   = 1e-14L * points * x;
    R tolL   = r.lambda * (tolN / r.n0 + 1e-13L) + tolN / r.n0 * re * re;
    REQUIRE(
        std::fabs((R) v.n0 - r.n0) <= tolN,
        what << ": dim " << dim << " l0 " << l0 << " re " << re << " (re/l0 " << (double) x << "): n0 = " << v.n0
             << ", the lattice sum is " << (double) r.n0
    );
    REQUIRE(
        std::fabs((R) v.lambda - r.lambda) <= tolL,
        what << ": dim " << dim << " l0 " << l0 << " re " << re << " (re/l0 " << (double) x << "): lambda = " << v.lambda
             << ", the lattice average is " << (double) r.lambda
    );
}

double genRatio(Src& g, int dim) {
    switch (g.weighted({3, 3, 3, 2})) {
    case 0: return g.pick({2.1, 3.1, 1.5, 4.1, 2.5, 1.8});
    case 1: return g.real(1.001, dim == 2 ? 12 : 7);
    case 2: { // at and next to lattice shells
        int64_t m = dim == 2 ? 100 : 36;
        double s  = std::sqrt((double) g.range(2, m));
        return s * g.pick({1.0, 1 + 1e-9, 1 - 1e-9, 1.01, 0.99});
    }
    default: return g.real(1.001, 4.9);
    }
}

void refDirect(Src& g, Case& c) {
    int dim   = g.chance(0.5) ? 3 : 2;
    double l0 = g.chance(0.3) ? g.pick({0.1, 0.025, 1.0}) : g.logu(1e-5, 1e4);
    double re = genRatio(g, dim) * l0;
    for (;;) {
        c.note([&](std::ostream& o) { o << "dim " << dim << " l0 " << l0 << " re " << re; });
        checkRef(c, RefValues(dim, l0, re), dim, l0, re, "RefValues");
        if (re > 5 * l0)
            c.label("beyond 5 spacings");
        c.nontrivial(re > 1.5 * l0);
        if (!g.chance(0.35))
            break;
        // again, with one of the three changed
        double ratio = re / l0;
        switch (g.raw(4)) {
        case 0: // another dimension
            if (ratio > 7)
                return;
            dim = 5 - dim;
            break;
        case 1: // another spacing, same radius
            l0 = re / genRatio(g, dim);
            break;
        case 2: // another radius
            re = genRatio(g, dim) * l0;
            break;
        default: { // another scale
            double f = g.logu(0.01, 100);
            l0 *= f;
            re *= f;
        }
        }
        if (!(re > l0 * 1.0005))
            return;
        c.label("evaluated again");
    }
}

/// the simulation uses the right radius for each of its three sets
void refInUse(Src& g, Case& c) {
    Scene sc;
    Opt o;
    o.bigRe = true;
    genParams(g, sc, o);
    double l0 = (double) sc.p.l0;
    sc.p.reN  = genRatio(g, sc.p.dim) * l0;
    sc.p.reG  = genRatio(g, sc.p.dim) * l0;
    sc.p.reL  = genRatio(g, sc.p.dim) * l0;
    sc.p.lo   = {0, 0, 0};
    sc.p.hi   = {l0, l0, 0};
    auto in   = toInput(sc);
    c.note([&](std::ostream& s) { describe(s, sc); });
    MPS mps = MPSFactory::create(in);
    checkRef(c, mps.refValuesForNumberDensity, sc.p.dim, l0, in.settings.re_forNumberDensity, "number density");
    checkRef(c, mps.refValuesForGradient, sc.p.dim, l0, in.settings.re_forGradient, "gradient");
    checkRef(c, mps.refValuesForLaplacian, sc.p.dim, l0, in.settings.re_forLaplacian, "Laplacian");
    c.nontrivial(sc.p.reN != sc.p.reG && sc.p.reG != sc.p.reL);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C05.weight", "distances inside, at, next to and outside the radius; non-trivial: both sides occur", 60000, 1000000, weightFn},
         {"C05.lattice",
          "2D/3D, spacing 1e-5..1e4, radius 1..12 (2D) or 1..7 (3D) spacings, also on lattice shells; independent lattice "
          "summation in long double; non-trivial: more than the nearest shell",
          30000,
          500000,
          refDirect},
         {"C05.use", "radii given to a simulation; non-trivial: three different radii", 8000, 100000, refInUse}}
    );
}
