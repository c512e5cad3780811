// C11: implicit pressure solves the documented Poisson system, clipped at zero
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

Particles withNeighbours(const Scene& sc) {
    Particles ps = toParticles(sc.s);
    NeighborSearcher ns((double) sc.p.reMax(), toDomain(sc.p), (size_t) ps.size());
    CaptureStderr cap;
    ns.setNeighbors(ps);
    return ps;
}

/// judges one call; returns false if it cannot be judged
bool judge(
    Case& c, const Scene& sc, const Particles& in, const Particles& after, const std::vector<double>& got, const char* when, bool& positive, bool& clipped
) {
    auto st = fromParticles(in);
    std::vector<R> n;
    for (auto& q : in)
        n.push_back(q.numberDensity);
    auto n0 = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reN).n0;
    ref::Margin mg;
    auto b = ref::classify(st, sc.p, n, mg, n0);
    if (mg.ambiguous())
        return false;
    REQUIRE(got.size() == st.size(), when << ": " << got.size() << " pressures for " << st.size() << " particles");
    auto want = ref::implicitPressure(st, sc.p, n, b);
    for (size_t i = 0; i < st.size(); i++) {
        REQUIRE(std::isfinite(got[i]) && got[i] >= 0, when << ": pressure of " << i << " is " << got[i]);
        if (b[i] != ref::Inner)
            REQUIRE(got[i] == 0.0, when << ": " << typeName(st[i].type) << " " << i << " is not inner but has pressure " << got[i]);
    }
    if (!want.ok || want.tol > 1e-3L * want.maxAbs) // too ill-conditioned to judge the values
        return false;
    R worst = 0;
    for (size_t i = 0; i < st.size(); i++) {
        R err = std::fabs((R) got[i] - want.p[i]);
        worst = std::max(worst, err / (want.tol + 1e-300L));
        REQUIRE(
            err <= want.tol,
            when << ": pressure of inner " << typeName(st[i].type) << " " << i << " is " << got[i]
                 << ", the Poisson system gives " << (double) want.p[i] << " (before clipping " << (double) want.raw[i]
                 << ", tolerance " << (double) want.tol << ")"
        );
        positive = positive || want.p[i] > want.tol;
        clipped  = clipped || want.raw[i] < -want.tol;
    }
    if (worst > 1e-1L)
        c.label("error > tol/10");
    else if (worst > 1e-2L)
        c.label("error > tol/100");
    (void) after;
    return true;
}

/// The solver reported failure.  The iterative method may break down by bad luck, which says nothing; failing on four
/// variations of a well conditioned system too is no bad luck.
void gaveUp(Case& c, const Scene& sc, const Particles& in, const char* when) {
    c.label("solver gave up");
    for (int t = 0; t <= 4; t++) { // 0: the system itself
        Scene var = sc;
        var.s     = fromParticles(in);
        uint64_t h = 12345 + t;
        auto jig   = [&] {
            h = h * 6364136223846793005ull + 1442695040888963407ull;
            return t == 0 ? 0.0 : ((double) (h >> 40) / (1 << 24) - 0.5) * 2e-2;
        };
        for (auto& q : var.s)
            q.x = {dbl(q.x.x + jig() * sc.p.l0), dbl(q.x.y + jig() * sc.p.l0), sc.p.dim == 3 ? (R) dbl(q.x.z + jig() * sc.p.l0) : q.x.z};
        Particles ps = withNeighbours(var);
        std::vector<R> n;
        for (int i = 0; i < ps.size(); i++) {
            ps[i].numberDensity = in[i].numberDensity * (1 + jig());
            n.push_back(ps[i].numberDensity);
        }
        auto st = fromParticles(ps);
        ref::Margin mg;
        auto b    = ref::classify(st, sc.p, n, mg, ref::refValues(sc.p.dim, sc.p.l0, sc.p.reN).n0);
        auto want = ref::implicitPressure(st, sc.p, n, b);
        if (!want.ok || !(want.kappa() < 500))
            return;
        MPS fresh = MPSFactory::create(toInput(var));
        Guarded r;
        {
            CaptureStderr cap;
            r = guarded([&] { fresh.pressureCalculator->calc(ps); });
        }
        if (r.ok())
            return;
    }
    c.fail(std::string(when) + ": no pressure was returned, for the well conditioned system and four variations of it");
}

/// states given to one calculator object repeatedly
void states(Src& g, Case& c) {
    Opt o;
    o.maxN        = 70;
    o.outside     = g.chance(0.2);
    Scene sc      = gen(g, o, {7, 2, 0});
    sc.p.implicit = true;
    if (g.chance(0.3))
        sc.p.thr = g.pick({0.5, 0.9, 1.2});
    auto in    = toInput(sc);
    MPS mps    = MPSFactory::create(in);
    auto n0    = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reN).n0;
    int rounds = scene::historyLength(g, 3, 80);
    auto base = sc.s;
    bool pos = false, clip = false, judged = false;
    for (int k = 0; k < rounds; k++) {
        if (k > 3)
            for (size_t i = 0; i < base.size(); i++)
                sc.s[i].x = base[i].x;
        if (k > 0)
            for (auto& q : sc.s) {
                double m = dbl(0.2L * sc.p.l0);
                if (q.type == ref::Fluid && g.chance(0.5))
                    q.x = {dbl(q.x.x + g.sym(m)), dbl(q.x.y + g.sym(m)), q.x.z};
                if (g.chance(rounds > 3 ? 0.001 : 0.04))
                    q.type = ref::Ghost;
            }
        Particles ps = withNeighbours(sc);
        auto st      = fromParticles(ps);
        auto n       = ref::numberDensity(st, sc.p.reN);
        double amp   = g.pick({0.0, 0.05, 0.3});
        double shift = g.pick({0.0, 0.1, -0.1, 0.0});
        for (int i = 0; i < ps.size(); i++) {
            if (ps[i].type != ParticleType::Ghost)
                n[i] = n[i] * (1 + shift) + n0 * g.sym(amp);
            ps[i].numberDensity = std::max(0.0, (double) n[i]);
            // leftovers that must not matter
            ps[i].pressure          = g.pick({0.0, 1e5, -7.0});
            ps[i].boundaryCondition = static_cast<FluidState>(g.raw(5));
        }
        c.note([&](std::ostream& s) {
            s << "call " << k << "\n";
            describe(s, sc);
            for (int i = 0; i < ps.size() && i < 40; i++)
                s << " n" << i << "=" << ps[i].numberDensity;
        });
        Particles arg = ps;
        std::vector<double> got;
        Guarded r;
        {
            CaptureStderr cap;
            r = guarded([&] { got = mps.pressureCalculator->calc(arg); });
        }
        if (!r.ok()) { // "Pressure calculation failed": reported, no value returned
            gaveUp(c, sc, ps, ("call " + std::to_string(k)).c_str());
            break;
        }
        for (int i = 0; i < ps.size(); i++)
            REQUIRE(
                arg[i].position == ps[i].position && arg[i].velocity == ps[i].velocity && arg[i].type == ps[i].type,
                "the pressure calculation changed position, velocity or type of particle " << i
            );
        if (!judge(c, sc, ps, arg, got, ("call " + std::to_string(k)).c_str(), pos, clip))
            c.label("not judged");
        else
            judged = true;
        // a fresh object must give exactly the same
        if (k > 0) {
            MPS fresh = MPSFactory::create(in);
            Particles arg2 = ps;
            std::vector<double> got2;
            {
                CaptureStderr cap;
                r = guarded([&] { got2 = fresh.pressureCalculator->calc(arg2); });
            }
            REQUIRE(r.ok() && got == got2, "call " << k << ": the result depends on earlier calls");
        }
    }
    if (!judged)
        c.discard();
    if (clip)
        c.label("clipped");
    c.nontrivial(pos);
}

void steps(Src& g, Case& c) {
    Opt o;
    o.maxN        = 70;
    o.overlap     = g.chance(0.2);
    Scene sc      = gen(g, o, {8, 2, 0});
    sc.p.implicit = true;
    if (g.chance(0.5)) { // compressed: positive pressures
        double f = g.pick({0.97, 0.93, 0.99});
        for (auto& q : sc.s)
            q.x = {dbl(q.x.x * f), dbl(q.x.y * f), dbl(q.x.z * f)};
        sc.p.lo = {sc.p.lo.x - sc.p.l0 * 3, sc.p.lo.y - sc.p.l0 * 3, sc.p.lo.z};
        sc.p.hi = {sc.p.hi.x + sc.p.l0 * 30, sc.p.hi.y + sc.p.l0 * 30, sc.p.hi.z};
        sc.p.lo = {dbl(sc.p.lo.x), dbl(sc.p.lo.y), dbl(sc.p.lo.z)};
        sc.p.hi = {dbl(sc.p.hi.x), dbl(sc.p.hi.y), dbl(sc.p.hi.z)};
    }
    c.note([&](std::ostream& s) { describe(s, sc); });
    Sim sim   = makeSpied(toInput(sc));
    int steps = scene::historyLength(g, 4, 60);
    bool pos = false, clip = false, judged = false;
    for (int k = 0; k < steps; k++) {
        Guarded r;
        {
            CaptureStderr cap;
            r = guarded([&] { sim.mps.stepForward(); });
        }
        if (!r.ok()) {
            gaveUp(c, sc, sim.spy->before, ("step " + std::to_string(k)).c_str());
            break;
        }
        if (!judge(c, sc, sim.spy->before, sim.spy->after, sim.spy->result, ("step " + std::to_string(k)).c_str(), pos, clip))
            break;
        for (int i = 0; i < sim.mps.particles.size(); i++)
            REQUIRE(sim.mps.particles[i].pressure == sim.spy->result[i], "step " << k << ": particle " << i << " records pressure " << sim.mps.particles[i].pressure << ", calculated was " << sim.spy->result[i]);
        judged = true;
    }
    if (!judged)
        c.discard();
    if (clip)
        c.label("clipped");
    c.nontrivial(pos);
}

/// thousands of particles, every inner one compressed: nothing is clipped, so the equations can be checked directly
void large(Src& g, Case& c) {
    Opt o;
    o.maxN        = 3;
    Scene sc      = gen(g, o, {1, 0, 0});
    sc.p.implicit = true;
    sc.p.dist     = false;
    sc.p.thr      = 0.97;
    auto& p       = sc.p;
    double l0     = (double) p.l0;
    uint64_t h    = g.raw(1ull << 40) * 2 + 1;
    auto rnd      = [&] {
        h = h * 6364136223846793005ull + 1442695040888963407ull;
        return (double) (h >> 11) / 9007199254740992.0;
    };
    int want = (int) g.pick({1200, 2500, 4500});
    double aspect = g.pick({1.0, 3.0, 12.0});
    int nx, ny, nz = 1;
    if (p.dim == 2) {
        nx = (int) std::sqrt(want * aspect);
        ny = want / nx + 1;
    } else {
        nx = (int) std::cbrt(want * aspect);
        ny = (int) std::sqrt((double) want / nx) + 1;
        nz = ny;
    }
    double jit = g.pick({0.0, 0.02, 0.1});
    bool wall  = g.chance(0.5), multi = g.chance(0.3);
    double amp = g.pick({1e-3, 0.05, 0.3});
    int freeRows = (int) g.range(1, 3);
    sc.s.clear();
    std::vector<double> n;
    auto n0 = (double) ref::refValues(p.dim, p.l0, p.reN).n0;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++)
            for (int k = 0; k < nz; k++) {
                ref::P q;
                q.x    = {dbl(i * l0 + jit * l0 * (rnd() - 0.5)), dbl(j * l0 + jit * l0 * (rnd() - 0.5)), dbl(p.dim == 3 ? k * l0 + jit * l0 * (rnd() - 0.5) : 0)};
                q.type = wall && (i == 0 || j == 0) ? ref::Wall : wall && i == nx - 1 ? ref::Dummy : ref::Fluid;
                q.rho  = multi && rnd() < 0.5 ? 800 : 1000;
                sc.s.push_back(q);
                n.push_back(j >= ny - freeRows ? 0.5 * n0 : n0 * (1 + amp * rnd() + 1e-6));
            }
    p.lo = {dbl(-2 * l0), dbl(-2 * l0), dbl(p.dim == 3 ? -2 * l0 : 0)};
    p.hi = {dbl((nx + 2) * l0), dbl((ny + 2) * l0), dbl(p.dim == 3 ? (nz + 2) * l0 : 0)};
    c.note([&](std::ostream& s) {
        s << nx << " x " << ny << " x " << nz << " lattice, jitter " << jit << ", walls " << wall << ", densities " << multi << ", n up to n0 (1 + " << amp << "), " << freeRows << " free rows\n";
        describe(s, sc);
    });
    Particles ps = withNeighbours(sc);
    for (int i = 0; i < ps.size(); i++)
        ps[i].numberDensity = n[i];
    MPS mps = MPSFactory::create(toInput(sc));
    std::vector<double> got;
    Guarded r;
    {
        CaptureStderr cap;
        r = guarded([&] { got = mps.pressureCalculator->calc(ps); });
    }
    if (!r.ok()) { // bad luck of the iterative method is possible, but not on several variations
        c.label("solver gave up");
        for (int t = 0; t < 4; t++) {
            Particles var = ps;
            for (int i = 0; i < var.size(); i++)
                if (n[i] > n0)
                    var[i].numberDensity = n0 * (1 + amp * rnd() + 1e-6);
            MPS fresh = MPSFactory::create(toInput(sc));
            CaptureStderr cap;
            if (guarded([&] { fresh.pressureCalculator->calc(var); }).ok())
                c.discard();
        }
        c.fail("no pressure was returned, for the system and four variations of it");
    }
    size_t N = sc.s.size();
    REQUIRE(got.size() == N, got.size() << " pressures for " << N << " particles");
    auto rl = ref::refValues(p.dim, p.l0, p.reL);
    R a = 2 * p.dim / (rl.n0 * rl.lambda), bb = 0, rr = 0, rowMax = 0, maxP = 0;
    auto inner = [&](size_t i) { return sc.s[i].type != ref::Dummy && n[i] >= 0.97 * n0; };
    size_t m = 0;
    for (size_t i = 0; i < N; i++) {
        REQUIRE(std::isfinite(got[i]) && got[i] >= 0, "pressure of " << i << " is " << got[i]);
        maxP = std::max(maxP, (R) got[i]);
        if (!inner(i)) {
            REQUIRE(got[i] == 0, typeName(sc.s[i].type) << " " << i << " is not inner but has pressure " << got[i]);
            continue;
        }
        m++;
        R cm = p.compress / (p.dt * p.dt), res = cm * got[i], diag = cm, b = p.relax / (p.dt * p.dt) * ((R) n[i] - n0) / n0;
        for (size_t j = 0; j < N; j++) {
            if (j == i || sc.s[j].type == ref::Dummy)
                continue;
            R dx = sc.s[j].x.x - sc.s[i].x.x;
            if (std::fabs(dx) >= p.reL)
                continue;
            R d = ref::norm(sc.s[j].x - sc.s[i].x);
            if (d >= p.reL)
                continue;
            R co = a * ref::weight(d, p.reL) / sc.s[i].rho;
            diag += co;
            res += co * ((R) got[i] - got[j]);
        }
        rowMax = std::max(rowMax, diag);
        bb += b * b;
        rr += (res - b) * (res - b);
    }
    R tol = 1e-9L * std::sqrt(bb) + 1e-12L * rowMax * maxP * std::sqrt((R) m);
    REQUIRE(std::sqrt(rr) <= tol, "the pressures of " << m << " inner particles leave a residual of " << (double) (std::sqrt(rr) / std::sqrt(bb)) << " of the source term (tolerance " << (double) (tol / std::sqrt(bb)) << ")");
    if (rr > 1e-4L * tol * tol)
        c.label("residual > tol/100");
    c.label(p.dim == 3 ? "3D" : "2D");
    c.nontrivial(m > 800 && maxP > 0);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C11.states",
          "particle states with true, shifted or perturbed number densities, several densities, all types; 1-3 different states "
          "per calculator object; dense LU in long double; non-trivial: a positive pressure",
          10000,
          300000,
          states},
         {"C11.steps", "whole steps, compressed or not; non-trivial: a positive pressure", 5000, 150000, steps},
         {"C11.large", "1000 - 5000 particles, all inner ones compressed: residual of the equations; non-trivial: more than 800 inner particles", 60, 2500, large, 60}}
    );
}
