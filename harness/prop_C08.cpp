// C08: viscosity is the MPS Laplacian of velocity and conserves momentum
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

void noCollision(Scene& sc) {
    sc.p.colDist = dbl(1e-6L * sc.p.l0);
}

void formula(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN    = 60;
    o.outside = g.chance(0.2);
    o.bigRe   = true;
    Scene sc  = gen(g, o, {5, 4, 1});
    noCollision(sc);
    if (g.chance(0.7)) { // make viscosity matter
        auto rl = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reL);
        sc.p.nu = dbl(g.logu(0.01, 2) * rl.lambda / (2 * sc.p.dim) / sc.p.dt);
    }
    if (g.chance(0.1)) { // a viscosity that shows only in particles at rest
        sc.p.nu = g.logu(1e-16, 1e-6);
        sc.p.g  = {};
        for (auto& q : sc.s)
            if (g.chance(0.5))
                q.v = {};
        c.label("tiny viscosity");
    }
    c.note([&](std::ostream& s) { describe(s, sc); });
    Sim sim   = makeStub(toInput(sc));
    int steps = historyLength(g, 4, 120);
    bool some = false, judged = false;
    for (int k = 0; k < steps; k++) {
        auto s0 = fromParticles(sim.mps.particles);
        {
            CaptureStderr cap;
            sim.mps.stepForward();
        }
        ref::Margin mg;
        auto s = s0;
        ref::ghosts(s, sc.p, mg, &s0);
        std::vector<R> tv;
        auto want = ref::predict(s, sc.p, mg, &tv);
        // a collision-free step: otherwise the middle of the step shows more than the prediction
        bool close = false;
        for (auto& l : ref::neighbours(want, 1.01L * sc.p.colDist, nullptr))
            close = close || !l.empty();
        if (close)
            break;
        judged   = true;
        auto& b  = sim.spy->before;
        for (size_t i = 0; i < s.size(); i++) {
            R tol  = 2e-13L * tv[i] + 1e-300L;
            R tolx = tol * sc.p.dt + 1e-15L * (ref::norm(want[i].x) + ref::norm(want[i].v) * sc.p.dt);
            REQUIRE(
                dist(vv(b[i].velocity), want[i].v) <= tol,
                "step " << k << ": predicted velocity of " << typeName(s[i].type) << " " << i << " is "
                        << b[i].velocity.transpose() << ", the formula gives " << want[i].v << " (was " << s[i].v
                        << ", tolerance " << (double) tol << ")"
            );
            REQUIRE(
                dist(vv(b[i].position), want[i].x) <= tolx,
                "step " << k << ": predicted position of " << i << " is " << b[i].position.transpose()
                        << ", the formula gives " << want[i].x
            );
            if (s[i].type == ref::Fluid &&
                dist(want[i].v, s[i].v + sc.p.g * sc.p.dt) > 1e-6L * (1e-30L + ref::norm(s[i].v)))
                some = true;
        }
    }
    if (!judged)
        c.discard();
    c.nontrivial(some);
}

/// laws among fluid particles alone, without gravity
void laws(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN   = 60;
    o.walls  = false;
    o.ghosts = false;
    Scene sc = gen(g, o, {5, 4, 1});
    noCollision(sc);
    sc.p.g  = {};
    auto rl = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reL);
    sc.p.nu = dbl(g.logu(0.01, 1) * rl.lambda / (2 * sc.p.dim) / sc.p.dt);
    sc.p.lo = {dbl(sc.p.lo.x - 3 * sc.p.l0), dbl(sc.p.lo.y - 3 * sc.p.l0), dbl(sc.p.lo.z - 3 * sc.p.l0)};
    sc.p.hi = {dbl(sc.p.hi.x + 3 * sc.p.l0), dbl(sc.p.hi.y + 3 * sc.p.l0), dbl(sc.p.hi.z + 3 * sc.p.l0)};
    bool equal = g.chance(0.25);
    if (equal) {
        V v = genVel(g, sc, o);
        for (auto& q : sc.s)
            q.v = v;
    }
    if (sc.s.empty())
        c.discard();
    c.note([&](std::ostream& s) { describe(s, sc); });
    Sim sim = makeStub(toInput(sc));
    {
        CaptureStderr cap;
        sim.mps.stepForward();
    }
    auto& b = sim.spy->before;
    // particles that left the domain or came very close are not judged here
    for (int i = 0; i < b.size(); i++)
        if (b[i].type != ParticleType::Fluid)
            c.discard();
    auto m  = fromParticles(b);
    for (auto& l : ref::neighbours(m, 1.01L * sc.p.colDist, nullptr))
        if (!l.empty())
            c.discard();
    V p0, p1;
    R mag = 0, lo[3], hi[3];
    R a   = sc.p.nu * 2 * sc.p.dim / (rl.n0 * rl.lambda) * sc.p.dt;
    auto n = ref::numberDensity(sc.s, sc.p.reL);
    R nmax = 0;
    for (int k = 0; k < 3; k++) {
        lo[k] = 1e300L;
        hi[k] = -1e300L;
    }
    for (size_t i = 0; i < m.size(); i++) {
        p0  = p0 + sc.s[i].v;
        p1  = p1 + m[i].v;
        mag += ref::norm(sc.s[i].v) * (1 + a * n[i] * 10);
        nmax       = std::max(nmax, n[i]);
        const R v[3] = {sc.s[i].v.x, sc.s[i].v.y, sc.s[i].v.z};
        for (int k = 0; k < 3; k++) {
            lo[k] = std::min(lo[k], v[k]);
            hi[k] = std::max(hi[k], v[k]);
        }
    }
    // a particle pair near the radius contributes ~0 either way, so no margin is needed
    R tol = 1e-11L * mag * (1 + a * nmax);
    REQUIRE(dist(p0, p1) <= tol, "total velocity of the fluid changed from " << p0 << " to " << p1 << " by viscosity");
    if (a * nmax <= 0.999L) { // explicit step within its stability limit: new velocities are convex combinations
        for (size_t i = 0; i < m.size(); i++) {
            const R v[3] = {m[i].v.x, m[i].v.y, m[i].v.z};
            for (int k = 0; k < 3; k++)
                REQUIRE(
                    v[k] >= lo[k] - tol && v[k] <= hi[k] + tol,
                    "viscosity drove velocity component " << k << " of particle " << i << " to " << (double) v[k]
                        << ", outside the initial range " << (double) lo[k] << ".." << (double) hi[k]
                );
        }
        c.label("within stability limit");
    }
    if (equal)
        for (size_t i = 0; i < m.size(); i++)
            REQUIRE(dist(m[i].v, sc.s[i].v) <= 1e-15L * ref::norm(sc.s[i].v), "viscosity acts on a uniform velocity field, particle " << i);
    c.label(equal ? "uniform velocity" : "shear");
    c.nontrivial(nmax > 0 && a > 0);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C08.formula",
          "1-4 (in 1% of cases up to 120) steps of scenes with all particle types (moving walls too), viscosity from 0 to the stability limit; state "
          "observed in mid-step, judged where no collision took place; non-trivial: viscosity changes a velocity by >1e-6",
          30000,
          500000,
          formula},
         {"C08.laws",
          "fluid-only scenes without gravity: momentum, maximum principle, uniform velocity; non-trivial: interacting particles",
          24000,
          300000,
          laws}}
    );
}
