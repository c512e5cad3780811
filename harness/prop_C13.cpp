// C13: pressure correction applies the minimum-pressure MPS gradient
#include "scene.hpp"

using namespace pbt;
using namespace scene;

namespace {

void correction(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN    = 60;
    o.outside = g.chance(0.2);
    o.overlap = g.chance(0.3);
    o.bigRe   = true;
    Scene sc  = gen(g, o, {6, 4, 1});
    double unit = (double) sc.s.size() ? dbl(sc.s[0].rho * sc.p.l0 * sc.p.l0 / sc.p.dt / sc.p.dt) : 1.0;
    int kind    = (int) g.weighted({5, 2, 2, 1});
    double mag  = g.pick({0.01, 1e-6, 1.0}) * unit;
    std::vector<double> field;
    double base = g.pick({0.0, 1.0, -2.0}) * mag;
    for (size_t i = 0; i < sc.s.size(); i++) {
        double v;
        switch (kind) {
        case 0: v = base + g.sym(mag); break;         // arbitrary, negative too
        case 1: v = g.chance(0.5) ? g.unit() * mag : 0.0; break; // like a clipped solution
        case 2: v = base; break;                      // equal everywhere
        default: v = dbl(sc.s[i].x.y / sc.p.l0) * mag; break; // hydrostatic
        }
        field.push_back(v);
    }
    c.note([&](std::ostream& s) {
        describe(s, sc);
        for (size_t i = 0; i < field.size(); i++)
            s << " p" << i << "=" << field[i];
    });
    // the classification does not matter to the correction
    int surface = g.chance(0.4) ? (int) g.range(1, 9) : 0;
    Sim sim   = makeStub(toInput(sc), [&](Particles& ps) {
        for (auto& q : ps)
            if (surface)
                q.boundaryCondition = q.type == ParticleType::Ghost || q.type == ParticleType::DummyWall ? FluidState::Ignored
                                      : (q.id * 7 + surface) % 10 < surface                              ? FluidState::FreeSurface
                                                                                                         : FluidState::Inner;
        return field;
    });
    int steps = historyLength(g, 3, 120);
    bool moved = false;
    for (int k = 0; k < steps; k++) {
        {
            CaptureStderr cap;
            sim.mps.stepForward();
        }
        auto mid = fromParticles(sim.spy->after);
        std::vector<R> p(field.begin(), field.end()), m;
        ref::Margin mg;
        auto want = ref::correct(mid, sc.p, p, mg, &m);
        if (mg.ambiguous())
            break;
        auto got = fromParticles(sim.mps.particles);
        for (size_t i = 0; i < mid.size(); i++) {
            R tolA = 1e-11L * m[i] + 1e-14L * m[i] * (ref::norm(mid[i].x) / sc.p.l0);
            R tolV = tolA * sc.p.dt + 4e-16L * (ref::norm(want[i].v) + ref::norm(mid[i].v)) + 1e-300L;
            R tolX = tolA * sc.p.dt * sc.p.dt + 4e-16L * (ref::norm(want[i].x) + ref::norm(mid[i].x)) + 1e-300L;
            REQUIRE(
                dist(got[i].v, want[i].v) <= tolV && dist(got[i].x, want[i].x) <= tolX,
                "step " << k << ": correction of " << typeName(mid[i].type) << " " << i << ": velocity " << mid[i].v
                        << " -> " << got[i].v << ", the formula gives " << want[i].v << "; position " << mid[i].x << " -> "
                        << got[i].x << ", the formula gives " << want[i].x << " (tolerances " << (double) tolV << ", "
                        << (double) tolX << ")"
            );
            if (kind == 2)
                REQUIRE(
                    dist(got[i].v, mid[i].v) <= tolV && dist(got[i].x, mid[i].x) <= tolX,
                    "step " << k << ": equal pressures moved particle " << i << " from " << mid[i].x << " to " << got[i].x
                );
            moved = moved || dist(want[i].v, mid[i].v) > 100 * tolV;
            REQUIRE(sim.mps.particles[i].pressure == field[i], "step " << k << ": particle " << i << " records pressure " << sim.mps.particles[i].pressure << " instead of " << field[i]);
        }
    }
    static const char* names[] = {"arbitrary", "clipped", "equal", "hydrostatic"};
    c.label(names[kind]);
    c.nontrivial(moved);
}

/// a pair: pressure only pushes apart
void pairOnly(Src& g, Case& c) {
    Opt o;
    o.wideRho = true;
    o.maxN   = 2;
    o.ghosts = false;
    Scene sc = gen(g, o, {0, 0, 1});
    if (sc.s.size() != 2)
        c.discard();
    sc.p.colDist = 0;
    double unit  = dbl(sc.s[0].rho * sc.p.l0 * sc.p.l0 / sc.p.dt / sc.p.dt) * 1e-3;
    double p0 = g.sym(unit), p1 = g.sym(unit);
    c.note([&](std::ostream& s) {
        describe(s, sc);
        s << "p " << p0 << " " << p1;
    });
    Sim sim = makeStub(toInput(sc), [&](Particles&) { return std::vector<double>{p0, p1}; });
    {
        CaptureStderr cap;
        sim.mps.stepForward();
    }
    auto a = fromParticles(sim.spy->after), b = fromParticles(sim.mps.particles);
    V n = a[1].x - a[0].x;
    for (int i = 0; i < 2; i++) {
        V dx = b[i].x - a[i].x;
        V dv = b[i].v - a[i].v;
        R s  = i ? 1 : -1;
        REQUIRE(s * dot(dv, n) >= -1e-13L * ref::norm(n) * (ref::norm(a[i].v) + ref::norm(dv)), "pressures " << p0 << ", " << p1 << " pull particle " << i << " towards the other: velocity change " << dv);
        REQUIRE(s * dot(dx, n) >= -1e-13L * ref::norm(n) * (ref::norm(a[i].x) + ref::norm(dx)), "pressures " << p0 << ", " << p1 << " pull particle " << i << " towards the other: displacement " << dx);
    }
    c.nontrivial(p0 != p1 && ref::norm(n) < sc.p.reG && (dist(b[0].v, a[0].v) > 0 || dist(b[1].v, a[1].v) > 0));
}

} // namespace

int main(int argc, char** argv) {
    return engineMain(
        argc,
        argv,
        {{"C13.correction",
          "arbitrary (negative, clipped, equal, linear) pressure fields through a stub calculator, all types, three radii, "
          "several densities, 1-3 (in 1% of cases up to 120) steps; non-trivial: the correction is larger than the tolerance",
          40000,
          600000,
          correction},
         {"C13.pair", "single pairs with any pressures; non-trivial: the pair interacts", 16000, 100000, pairOnly}}
    );
}
