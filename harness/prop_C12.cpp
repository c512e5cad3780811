// C12: explicit pressure is the equation of state of the number density
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

void judge(Case& c, const Scene& sc, const std::vector<P>& st, const std::vector<double>& n, const std::vector<double>& got, const std::string& when, bool& above, bool& below) {
    auto n0 = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reN).n0;
    REQUIRE(got.size() == st.size(), when << ": " << got.size() << " pressures for " << st.size() << " particles");
    for (size_t i = 0; i < st.size(); i++) {
        if (st[i].type == ref::Dummy)
            continue; // not specified
        R want = 0, unit = sc.p.c * sc.p.c * st[i].rho;
        if (st[i].type != ref::Ghost && n[i] > n0)
            want = unit * (n[i] - n0) / n0;
        R tol = 1e-13L * unit * (1 + n[i] / n0);
        if (st[i].type == ref::Ghost || n[i] < n0 * (1 - 1e-12L))
            tol = 0;
        REQUIRE(
            std::fabs((R) got[i] - want) <= tol,
            when << ": pressure of " << typeName(st[i].type) << " " << i << " with number density " << n[i] << " (n0 "
                 << (double) n0 << "), density " << (double) st[i].rho << ", sound speed " << (double) sc.p.c << " is "
                 << got[i] << ", the equation of state gives " << (double) want
        );
        REQUIRE(got[i] >= 0, when << ": negative pressure " << got[i]);
        if (st[i].type != ref::Ghost)
            (want > 0 ? above : below) = true;
    }
}

void states(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN        = 40;
    Scene sc      = gen(g, o, {4, 4, 0});
    sc.p.implicit = false;
    sc.p.c        = g.chance(0.5) ? g.pick({17.1, 1.0, 1500.0}) : g.logu(1e-2, 1e4);
    auto n0       = ref::refValues(sc.p.dim, sc.p.l0, sc.p.reN).n0;
    MPS mps       = MPSFactory::create(toInput(sc));
    int rounds    = scene::historyLength(g, 3, 200);
    bool above = false, below = false;
    for (int k = 0; k < rounds; k++) {
        Particles ps = toParticles(sc.s);
        std::vector<double> n;
        for (auto& q : ps) {
            if (g.chance(0.1))
                q.type = static_cast<ParticleType>(g.raw(4));
            double v = dbl(n0) * g.pick({0.0, 0.5, 0.97, 1.0, 1.03, 1.5}) + g.sym(0.1) * dbl(n0);
            q.numberDensity = q.type == ParticleType::Ghost ? g.pick({0.0, 2.0}) * dbl(n0) : std::max(0.0, v);
            q.pressure      = g.pick({0.0, 1e6});
            n.push_back(q.numberDensity);
        }
        c.note([&](std::ostream& s) {
            describe(s, sc);
            for (size_t i = 0; i < n.size(); i++)
                s << " " << typeName((int) ps[(int) i].type) << " n" << i << "=" << n[i];
        });
        auto st = fromParticles(ps);
        std::vector<double> got;
        {
            CaptureStderr cap;
            auto r = guarded([&] { got = mps.pressureCalculator->calc(ps); });
            REQUIRE(r.ok(), "the explicit calculation ended the program");
        }
        judge(c, sc, st, n, got, "call " + std::to_string(k), above, below);
    }
    c.nontrivial(above && below);
}

void steps(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN        = 60;
    o.overlap     = g.chance(0.3);
    o.outside     = g.chance(0.2);
    Scene sc      = gen(g, o, {7, 3, 0});
    sc.p.implicit = false;
    // keep the pressure correction moderate: c^2 (n-n0)/n0 of order (l0/dt)^2
    sc.p.c = dbl(g.pick({0.1, 0.5, 0.02}) * sc.p.l0 / sc.p.dt);
    c.note([&](std::ostream& s) { describe(s, sc); });
    bool spied = g.chance(0.5);
    MPS plain;
    Sim sim;
    if (spied)
        sim = makeSpied(toInput(sc));
    else
        plain = MPSFactory::create(toInput(sc));
    MPS& mps  = spied ? sim.mps : plain;
    int steps = scene::historyLength(g, 5, 120);
    bool above = false, below = false;
    for (int k = 0; k < steps; k++) {
        {
            CaptureStderr cap;
            auto r = guarded([&] { mps.stepForward(); });
            REQUIRE(r.ok(), "an explicit step ended the program");
        }
        std::vector<double> n, p;
        for (auto& q : mps.particles) {
            n.push_back(q.numberDensity);
            p.push_back(q.pressure);
        }
        judge(c, sc, fromParticles(mps.particles), n, p, "step " + std::to_string(k), above, below);
        if (spied)
            judge(c, sc, fromParticles(sim.spy->before), [&] {
                std::vector<double> m;
                for (auto& q : sim.spy->before)
                    m.push_back(q.numberDensity);
                return m;
            }(), sim.spy->result, "step " + std::to_string(k) + " (calculation)", above, below);
    }
    c.label(spied ? "observed in mid-step" : "whole steps");
    c.nontrivial(above && below);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C12.states", "number densities around n0, leftovers, several densities and sound speeds, repeated calls; non-trivial: densities above and below n0", 40000, 500000, states},
         {"C12.steps", "1-5 (in 1% of cases up to 120) whole steps, recorded pressure against recorded number density; non-trivial: densities above and below n0", 24000, 400000, steps}}
    );
}
