// C14: the reported Courant number is the true maximum and excess is announced
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

bool announced(const std::string& err) {
    return err.find("Courant") != std::string::npos || err.find("CFL") != std::string::npos;
}

void sequence(Src& g, Case& c) {
    Opt o;
    o.maxN    = 40;
    o.outside = g.chance(0.2);
    o.overlap = g.chance(0.3);
    o.cfl     = g.pick({0.3, 1.0, 0.05});
    Scene sc  = gen(g, o, {5, 4, 2});
    sc.p.cfl  = g.pick({0.3, 0.1, 0.5}) * o.cfl * g.real(0.5, 3);
    for (auto& q : sc.s)
        if (q.type != ref::Fluid && g.chance(0.5)) // must not count
            q.v = {dbl(g.sym(10) * sc.p.l0 / sc.p.dt), 0, 0};
    if (g.chance(0.1))
        for (auto& q : sc.s)
            if (q.type == ref::Fluid)
                q.type = ref::Wall;
    c.note([&](std::ostream& s) { describe(s, sc); });
    auto in    = toInput(sc);
    double amp = g.pick({0.0, 0.01, 0.1});
    double unit = dbl(1000 * sc.p.l0 * sc.p.l0 / sc.p.dt / sc.p.dt);
    Sim sim     = g.chance(0.5) ? makeSpied(in) : makeStub(in, [&](Particles& ps) {
        std::vector<double> r;
        for (int i = 0; i < ps.size(); i++)
            r.push_back(unit * amp * ((i * 7919) % 11));
        return r;
    });
    int steps = historyLength(g, 6, 200);
    bool over = false, under = false;
    for (int k = 0; k < steps; k++) {
        if (k > 0 && g.chance(0.4)) { // velocities given from outside, to cross the limit either way
            double f = g.pick({0.0, 0.2, 5.0, 1.0});
            for (auto& q : sim.mps.particles)
                q.velocity *= f;
        }
        std::string err;
        Guarded r;
        {
            CaptureStderr cap;
            r   = guarded([&] { sim.mps.stepForward(); });
            err = cap.take();
        }
        if (!r.ok())
            break;
        R want = ref::courant(fromParticles(sim.mps.particles), sc.p);
        REQUIRE(
            std::fabs((R) sim.mps.courant - want) <= 1e-14L * want,
            "step " << k << ": Courant number " << sim.mps.courant << ", maximum over the fluid is " << (double) want
        );
        if (std::fabs(want - sc.p.cfl) > 1e-12L * (sc.p.cfl + want)) {
            REQUIRE(
                announced(err) == (want > sc.p.cfl),
                "step " << k << ": Courant number " << (double) want << ", limit " << (double) sc.p.cfl
                        << (announced(err) ? ", announced: " : ", not announced: ") << err
            );
            (want > sc.p.cfl ? over : under) = true;
        }
    }
    if (over)
        c.label("exceeded");
    if (under)
        c.label("within");
    c.nontrivial(over && under);
}

/// exactly at the limit, in numbers without rounding
void exact(Src& g, Case& c) {
    Scene sc;
    auto& p = sc.p;
    p.dim   = 2;
    p.l0    = g.pick({1.0, 0.5, 0.25});
    p.dt    = g.pick({0.25, 0.125, 0.0625});
    p.g     = {};
    p.nu    = 0;
    p.reN = p.reG = p.reL = 2 * p.l0;
    p.lo    = {-64, -64, 0};
    p.hi    = {64, 64, 0};
    double v = g.pick({1.0, 2.0, 0.5});
    p.cfl    = v * p.dt / p.l0;
    int more = (int) g.range(-1, 1);
    P a;
    a.type = ref::Fluid;
    a.v    = {0, 0, 0};
    double s = more == 0 ? v : more > 0 ? v * (1 + 1.0 / 1024) : v * (1 - 1.0 / 1024);
    if (g.chance(0.5))
        a.v.x = s;
    else
        a.v = {s * 0.6, s * 0.8, 0};
    if (a.v.y != 0 && more == 0)
        a.v = {0, -s, 0};
    sc.s = {a};
    c.note([&](std::ostream& o) { describe(o, sc); });
    Sim sim = makeStub(toInput(sc));
    std::string err;
    {
        CaptureStderr cap;
        sim.mps.stepForward();
        err = cap.take();
    }
    REQUIRE(announced(err) == (more > 0), "speed " << (more == 0 ? "exactly at" : more > 0 ? "above" : "below") << " the limit: stderr is: " << err);
    c.nontrivial(more == 0);
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C14.sequence",
          "1-6 (in 1% of cases up to 200) steps with velocities crossing the limit in both directions, fast walls, ghosts, prescribed or real pressures, "
          "stderr captured per step; non-trivial: some steps exceed and some do not",
          40000,
          500000,
          sequence},
         {"C14.exact", "one particle exactly at, above or below the limit; non-trivial: exactly at it", 4000, 20000, exact}}
    );
}
