// C06: number density is the sum of weights over real neighbours
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

void step(Src& g, Case& c, bool large) {
    Opt o;
    o.maxN    = large ? 400 : 70;
    o.outside = g.chance(0.3);
    o.overlap = g.chance(0.4);
    o.bigRe   = true;
    o.farCol  = true;
    Scene sc;
    if (large) {
        genParams(g, sc, o);
        // a big jittered block
        double l0 = (double) sc.p.l0, jit = g.pick({0.0, 0.2, 0.4}) * l0;
        int nx = (int) g.range(6, 20), ny = (int) g.range(4, 12), nz = sc.p.dim == 3 ? (int) g.range(2, 4) : 1;
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++)
                for (int k = 0; k < nz; k++) {
                    P q;
                    q.x    = {l0 * i + g.sym(jit), l0 * j + g.sym(jit), sc.p.dim == 3 ? l0 * k + g.sym(jit) : 0.0};
                    q.x    = {dbl(q.x.x), dbl(q.x.y), dbl(q.x.z)};
                    q.type = j == 0 ? ref::Dummy : j == 1 ? ref::Wall : ref::Fluid;
                    q.v    = genVel(g, sc, o);
                    sc.s.push_back(q);
                }
        finish(g, sc, o);
    } else
        sc = gen(g, o, {5, 4, 1});
    c.note([&](std::ostream& s) { describe(s, sc); });
    bool stub = g.chance(0.7);
    Sim sim   = stub ? makeStub(toInput(sc)) : makeSpied(toInput(sc));
    int steps = large ? (int) g.range(1, 2) : historyLength(g, 4, 120);
    bool nz   = false;
    for (int k = 0; k < steps; k++) {
        Guarded r;
        {
            CaptureStderr cap;
            r = guarded([&] { sim.mps.stepForward(); });
        }
        if (sim.spy->calls <= k)
            break;
        REQUIRE(sim.spy->before.size() == (int) sc.s.size(), "particles lost");
        auto mid = fromParticles(sim.spy->before);
        std::vector<R> tol;
        auto want = ref::numberDensity(mid, sc.p.reN, &tol);
        for (size_t i = 0; i < mid.size(); i++) {
            double got = sim.spy->before[i].numberDensity;
            if (mid[i].type == ref::Ghost)
                REQUIRE(got == 0.0, "step " << k << ": ghost " << i << " has number density " << got);
            REQUIRE(
                std::fabs((R) got - want[i]) <= 1e-13L * tol[i] + 1e-300L,
                "step " << k << ": number density of " << typeName(mid[i].type) << " " << i << " at " << mid[i].x << " is "
                        << got << ", the sum of weights is " << (double) want[i] << " (tolerance " << (double) (1e-13L * tol[i]) << ")"
            );
            nz = nz || (want[i] > 0 && mid[i].type != ref::Ghost);
            if (r.ok()) // the recorded value at the end of the step is the same
                REQUIRE(
                    sim.mps.particles[i].numberDensity == got,
                    "step " << k << ": number density of " << i << " is " << sim.mps.particles[i].numberDensity
                            << " at the end of the step, " << got << " in the middle"
                );
        }
        if (!r.ok())
            break;
    }
    bool smaller = sc.p.reN < sc.p.reMax();
    c.label(smaller ? "radius smaller than the search radius" : "radius is the search radius");
    c.nontrivial(nz && sc.s.size() > 2);
}

} // namespace

int main(int argc, char** argv) {
    const char* rule = "1-4 (in 1% of cases up to 120) steps of scenes with all particle types, three different radii, overlaps and collisions; the "
                       "state is observed when the pressure calculator is called; non-trivial: a non-zero density among >2 particles";
    return engineMain(
        argc,
        argv,
        {{"C06.step", rule, 40000, 500000, [](Src& g, Case& c) { step(g, c, false); }},
         {"C06.large", rule, 400, 12000, [](Src& g, Case& c) { step(g, c, true); }}}
    );
}
